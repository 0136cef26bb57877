---------------------------- MODULE LueCompareGen ----------------------------
(* Random rasters that are the same, or that differ a little *)
EXTENDS LueCompare, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)
One(S) == {TLCEval(RandomElement(S))}
Types == {"u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "f32", "f64"}
Floats == {"f32", "f64"}
Extent(c) == CASE c = 1 -> RandomElement(1..3) [] c = 2 -> RandomElement(1..40) [] c = 3 -> RandomElement({15, 16, 17, 31, 32, 33, 48, 128, 129}) [] c = 4 -> RandomElement(40..150)
\* values a no-data value can have: those that patterns have, and others
NoDatas(dt) == {"-", "-", "3", "17", "100"} \cup {"max"} \cup (IF dt \in Floats THEN {"nan"} ELSE {}) \cup (IF dt \notin {"u8", "u16", "u32", "u64"} THEN {"min"} ELSE {})
Unsigned == {"u8", "u16", "u32", "u64"}
\* different names mean different values
Specials(b) == {"101", "0", "1", "max"} \cup (IF b.dt \in Floats THEN {"inf", "-inf", "eps", "-1", "tiny"} ELSE IF b.dt # "i8" THEN {"half"} ELSE {})
               \cup (IF b.dt \in Unsigned THEN {} ELSE {"min"})
               \cup (IF b.dt \in Floats THEN {"nan"} ELSE {}) \cup (IF b.nd # "-" THEN {b.nd} ELSE {})
               \cup (IF b.dt \in {"i64", "u64", "f64"} THEN {"9007199254740991", "9007199254740992"} ELSE {}) \cup (IF b.dt \in {"i64", "u64"} THEN {"9007199254740993"} ELSE {})
               \cup (IF b.dt \in {"i32", "u32"} THEN {"16777216", "16777217"} ELSE {})
\* often at the end of the raster
At(n) == IF RandomElement(1..3) = 1 THEN n - 1 ELSE RandomElement(0..n - 1)
Exception(r) == LET b == RandomElement(DOMAIN r.bands) IN [b |-> b, row |-> At(r.shape[1]), col |-> At(r.shape[2]), v |-> RandomElement(Specials(r.bands[b]))]
RECURSIVE Exceptions(_, _)
Exceptions(r, n) == IF n = 0 THEN <<>> ELSE <<Exception(r)>> \o Exceptions(r, n - 1)
Bands(c, n) == LET dt == RandomElement(Types)  nd == RandomElement(NoDatas(dt)) IN
  [b \in 1..n |-> IF c = 1 THEN LET e == RandomElement(Types) IN [dt |-> e, nd |-> RandomElement(NoDatas(e))] ELSE [dt |-> dt, nd |-> nd]]
Geo(c) == LET s == RandomElement({1, 10, 25}) IN
  [west |-> RandomElement({0, -200, 1}), north |-> RandomElement({0, 200}), sizex |-> s,
   sizey |-> IF c = 1 THEN RandomElement({1, 10, -10}) ELSE s, rot |-> IF c = 2 THEN 1 ELSE 0]
Uniform(bands) == \A b \in DOMAIN bands : bands[b] = bands[1]
\* stored in some way: tile <<0, n>> means blocks of n rows
Store(r, x, bands) ==
  \E tile \in One({<<0, 1>>, <<0, 2>>, <<0, 3>>, <<0, 7>>, <<0, 500>>, <<16, 16>>, <<16, 32>>, <<32, 16>>, <<48, 16>>, <<64, 64>>, <<128, 128>>, <<256, 256>>}),
     pixel \in One(BOOLEAN), parts \in One({FALSE, FALSE, FALSE, TRUE}) :
    LET op == [a |-> "Store", r |-> r, shape |-> x.shape, geo |-> x.geo, bands |-> bands, exc |-> x.exc, tile |-> tile,
               pixel |-> pixel, parts |-> parts \/ ~Uniform(bands)]
    IN st' = Apply(st, op).st /\ hist' = Append(hist, op)
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Made == {r \in Rasters : st[r] # None}
New == \E r \in One(Rasters), c1 \in One(1..4), c2 \in One(1..4), n \in One({1, 1, 2, 3}), m \in One({1, 2, 3, 4, 5, 6}), g \in One(1..40), e \in One(0..3) :
       \E x \in {TLCEval([shape |-> <<Extent(c1), Extent(c2)>>, geo |-> Geo(g), bands |-> Bands(m, n)])} :
       \E exc \in {TLCEval(Exceptions(x, e))} :
         Store(r, [shape |-> x.shape, geo |-> x.geo, exc |-> exc], x.bands)
\* like another one
Like(how) ==
  \E r \in One(Rasters), s \in One(Made) : LET x == st[s] IN
    CASE how = 1 -> Store(r, x, x.bands)
      [] how = 2 -> \E e \in {TLCEval(Exception(x))} : Store(r, [x EXCEPT !.exc = Append(@, e)], x.bands)
      [] how = 3 -> \E d \in One(1..2), n \in One({-1, 1}) : IF x.shape[d] + n < 1 \/ x.exc # <<>> THEN UNCHANGED <<st, hist>>
                    ELSE Store(r, [x EXCEPT !.shape[d] = @ + n], x.bands)
      [] how = 4 -> \E g \in {TLCEval(Geo(RandomElement(1..8)))} : Store(r, [x EXCEPT !.geo = g], x.bands)
      [] how = 5 -> \E g \in One({"west", "north", "size"}) : Store(r, IF g = "west" THEN [x EXCEPT !.geo.west = @ + 1] ELSE IF g = "north" THEN [x EXCEPT !.geo.north = @ + 1]
                                                                   ELSE [x EXCEPT !.geo.sizex = @ + 1, !.geo.sizey = @ + 1], x.bands)
      \* of a band or of all bands: another no-data value, another type
      [] how = 6 -> \E b \in One(DOMAIN x.bands), all \in One({TRUE, FALSE}) : \E nd \in One(NoDatas(x.bands[b].dt)) :
                    Store(r, x, [i \in DOMAIN x.bands |-> IF (all /\ x.bands[i].dt = x.bands[b].dt) \/ i = b THEN [x.bands[i] EXCEPT !.nd = nd] ELSE x.bands[i]])
      [] how = 7 -> \E b \in One(DOMAIN x.bands), all \in One({TRUE, FALSE}) : \E dt \in One(Types), nd \in One({"-", "3"}) :
                    IF x.exc # <<>> THEN UNCHANGED <<st, hist>>
                    ELSE Store(r, x, [i \in DOMAIN x.bands |-> IF all \/ i = b THEN [dt |-> dt, nd |-> nd] ELSE x.bands[i]])
      \* one band more or less
      [] how = 8 -> IF x.exc # <<>> THEN UNCHANGED <<st, hist>> ELSE Store(r, x, Append(x.bands, x.bands[1]))
Step(c) ==
  IF Made = {} \/ c \in {1, 2} THEN New
  ELSE CASE c \in {3, 4, 5, 6} -> Like(1)
         [] c \in {7, 8, 9, 10, 11, 12} -> Like(2)
         [] c \in {13, 14, 15, 16, 17, 18} -> Like(c - 10)
         [] c = 19 -> \E r \in One(Rasters) : Do([a |-> "Delete", r |-> r])
         [] c >= 20 -> \E x \in One(Rasters), y \in One(Rasters) : Do([a |-> "Compare", x |-> x, y |-> y])
Init == st = Empty /\ hist = <<>>
\* changing a raster is followed by comparing it with the others
Next == /\ Len(hist) < Depth
        /\ IF hist # <<>> /\ hist[Len(hist)].a = "Store"
           THEN \E y \in One(Made) : Do([a |-> "Compare", x |-> hist[Len(hist)].r, y |-> y])
           ELSE \E c \in One(1..24) : Step(c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
