---------------------------- MODULE LueCompareMC ----------------------------
(* Comparing small rasters block by block, as partial blocks and bands allow: tells the same as comparing them as a whole *)
EXTENDS LueCompare, IOUtils
B == INSTANCE LueBlocks
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
Geo == [west |-> 0, north |-> 0, sizex |-> 1, sizey |-> 1, rot |-> 0]
Shapes == {<<2, 3>>, <<3, 2>>, <<1, 1>>}
Bnds == {<<[dt |-> "u8", nd |-> "-"]>>, <<[dt |-> "u8", nd |-> "3"], [dt |-> "u8", nd |-> "3"]>>}
Excs(s, bands) == {<<>>} \cup {<<[b |-> Len(bands), row |-> r, col |-> c, v |-> v]>> : r \in 0..s[1] - 1, c \in 0..s[2] - 1, v \in {"101", Pattern(Len(bands), s[1] - 1, s[2] - 1)}}
Ops == UNION {{[a |-> "Store", r |-> r, shape |-> s, geo |-> Geo, bands |-> b, exc |-> e] : e \in Excs(s, b)} : r \in 0..1, s \in Shapes, b \in Bnds}
       \cup {[a |-> "Compare", x |-> x, y |-> y] : x \in 0..1, y \in 0..1}
       \cup {[a |-> "Delete", r |-> 1]}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], ret |-> <<>>]
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops : LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, ret |-> r.ret]
Spec == Init /\ [][Next]_<<st, last, n>>
\* cells of a block, valid ones only, of a raster stored in blocks
Cell(k, block, at) == <<at[1] * block[1] + k[1], at[2] * block[2] + k[2]>>
BlockWise(x, y, block) ==
  LET s == B!ShapeInBlocks(x.shape, block) IN
  \A b \in DOMAIN x.bands : \A at \in (0..s[1] - 1) \X (0..s[2] - 1) : LET v == B!ValidShape(x.shape, block, at) IN
    \A k \in (0..v[1] - 1) \X (0..v[2] - 1) : LET c == Cell(k, block, at) IN ValueAt(x, <<b, c[1], c[2]>>) = ValueAt(y, <<b, c[1], c[2]>>)
ByBlock == last.op.a = "Compare" => LET x == st[last.op.x]  y == st[last.op.y] IN
  last.ret.same = (x # None /\ y # None /\ What(x) = What(y) /\ \A block \in {<<1, 2>>, <<2, 2>>, <<4, 4>>} : BlockWise(x, y, block))
Itself == last.op.a = "Compare" /\ last.op.x = last.op.y => last.ret.same = (st[last.op.x] # None)
=============================================================================
