----------------------------- MODULE LueBlocks -----------------------------
(* Rasters divided into blocks. Blocks at the end of a dimension may stick out of the raster: then not all of their
   cells are valid. Formulas stay within the range of extents, for the largest ones. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

\* along a dimension: number of blocks needed to cover n cells with blocks of b cells; cells of block i that are valid
NrBlocks(n, b) == IF n = 0 \/ b = 0 THEN 0 ELSE (n - 1) \div b + 1
Valid(n, b, i) == IF n - i * b < b THEN n - i * b ELSE b
ShapeInBlocks(raster, block) == [d \in 1..2 |-> NrBlocks(raster[d], block[d])]
ValidShape(raster, block, at) == [d \in 1..2 |-> Valid(raster[d], block[d], at[d])]
\* every block, row by row
EachValid(raster, block) ==
  LET s == ShapeInBlocks(raster, block) IN
  [k \in 1..s[1] * s[2] |-> ValidShape(raster, block, <<(k - 1) \div s[2], (k - 1) % s[2]>>)]

Empty == <<>>
OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Apply(st, op) ==
  CASE op.a = "Divide" -> OK(st, [raster |-> op.raster, block |-> op.block, blocks |-> ShapeInBlocks(op.raster, op.block), valid |-> EachValid(op.raster, op.block)])
    \* of the block that is so many blocks from the first, or from the last one
    [] op.a = "Valid" -> LET s == ShapeInBlocks(op.raster, op.block)
                             at == [d \in 1..2 |-> IF op.last[d] THEN s[d] - 1 - op.at[d] ELSE op.at[d]]
                         IN OK(st, [blocks |-> s, valid |-> ValidShape(op.raster, op.block, at)])
----------------------------------------------------------------------------
Start(ev) == Empty
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      wrong == (IF ev.res # r.res THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ \E f \in DOMAIN r.ret : r.ret[f] # ev.ret[f] THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"} ELSE {})
  IN [st |-> r.st, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret]]
=============================================================================
