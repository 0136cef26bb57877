----------------------------- MODULE LueCompare -----------------------------
(* Rasters stored in files, and whether they are the same. Cells have values according to a pattern, but for some.
   How a raster is stored (blocks, order of bands, a file or a file per band) is not part of what it is. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rasters == 0..2
None == [shape |-> <<>>]
Empty == [r \in Rasters |-> None]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

Pattern(b, row, col) == ToString((29 * b + 13 * row + 7 * col) % 101)
\* exceptions to the pattern: sequence of [b, row, col, v], later ones replace former ones
RECURSIVE Cells(_)
Cells(exc) == IF exc = <<>> THEN <<>>
              ELSE LET e == exc[Len(exc)] IN Put(Cells(SubSeq(exc, 1, Len(exc) - 1)), <<e.b, e.row, e.col>>, e.v)
ValueAt(r, at) == LET c == Cells(r.exc) IN IF at \in DOMAIN c THEN c[at] ELSE Pattern(at[1], at[2], at[3])
\* a raster has: shape, geo [west, north, size of cells], bands: sequence of [dt, nd] and the exceptions
What(r) == [shape |-> r.shape, geo |-> r.geo, bands |-> r.bands]
SameCells(x, y) ==
  LET cx == Cells(x.exc)  cy == Cells(y.exc) IN
  \A at \in DOMAIN cx \cup DOMAIN cy :
    LET vx == IF at \in DOMAIN cx THEN cx[at] ELSE Pattern(at[1], at[2], at[3])
        vy == IF at \in DOMAIN cy THEN cy[at] ELSE Pattern(at[1], at[2], at[3])
    \* a cell that is not a number is the same as another only where that means it has no value
    IN vx = vy /\ (vx = "nan" => x.bands[at[1]].nd = "nan")
Same(x, y) == What(x) = What(y) /\ SameCells(x, y)
\* rasters whose cells are not square, and those that are not oriented to the north, are not supported
Supported(geo) == geo.sizex = geo.sizey /\ geo.rot = 0

OK(st, ret) == [st |-> st, res |-> "ok", ret |-> ret]
Err(st) == [st |-> st, res |-> "err", ret |-> <<>>]
Apply(st, op) ==
  CASE op.a = "Store" -> OK([st EXCEPT ![op.r] = [shape |-> op.shape, geo |-> op.geo, bands |-> op.bands, exc |-> op.exc]], <<>>)
    [] op.a = "Compare" ->
         LET x == st[op.x]  y == st[op.y] IN
         IF x = None \/ y = None THEN OK(st, [same |-> FALSE])
         ELSE IF ~Supported(x.geo) \/ ~Supported(y.geo) THEN Err(st)
         ELSE OK(st, [same |-> Same(x, y)])
    [] op.a = "Delete" -> OK([st EXCEPT ![op.r] = None], <<>>)
----------------------------------------------------------------------------
Start(ev) == Empty
Judge(st, ev) ==
  LET r == Apply(st, ev.op)
      wrong == (IF ev.res # r.res THEN {"outcome"} ELSE {})
               \cup (IF ev.res = "ok" /\ r.res = "ok" /\ \E f \in DOMAIN r.ret : r.ret[f] # ev.ret[f] THEN {"returned"} ELSE {})
               \cup (IF "obs" \notin DOMAIN ev THEN {"crash"} ELSE {})
  IN [st |-> r.st, wrong |-> wrong, exp |-> [res |-> r.res, ret |-> r.ret, st |-> r.st]]
=============================================================================
