--------------------------- MODULE LueCellsGen ---------------------------
(* Random histories of LueCells *)
EXTENDS LueCells, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)
Py == IOEnv.FOCUS = "Y04"

One(S) == {TLCEval(RandomElement(S))}
Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
Fits(scale) ==
  CASE scale = "1" -> Types
    [] scale = "-1" -> {"i8", "i16", "i32", "i64", "f32", "f64"}
    [] scale = "256" -> Types \ {"i8", "u8"}
    [] scale = "-16777216" -> {"i32", "i64", "f32", "f64"}
    [] scale = "1099511627776" -> {"i64", "u64", "f32", "f64"}
    [] OTHER -> {"f32", "f64"}
Scales == {"1", "-1", "256", "-16777216", "1099511627776", "-0.25"}
LayerNames == {"a", "b", "c"}
\* blocks: whole rows, columns, time steps, single cells, and anything
RandomSel(shape, how) ==
  LET start == [d \in DOMAIN shape |-> RandomElement(0..shape[d] - 1)]
      count == [d \in DOMAIN shape |-> RandomElement(1..shape[d] - start[d])]
      d == RandomElement(DOMAIN shape)
  IN CASE how = 1 -> [start |-> [e \in DOMAIN shape |-> IF e = d THEN start[d] ELSE 0], count |-> [e \in DOMAIN shape |-> IF e = d THEN 1 ELSE shape[e]]]
       [] how = 2 -> [start |-> [e \in DOMAIN shape |-> IF e = 1 THEN start[1] ELSE 0], count |-> [e \in DOMAIN shape |-> IF e = 1 THEN 1 ELSE shape[e]]]
       [] how = 3 -> [start |-> start, count |-> [e \in DOMAIN shape |-> 1]]
       [] OTHER -> [start |-> start, count |-> count]
\* the Python API has views on rasters it created itself
Last(a) == IF \E i \in DOMAIN hist : hist[i].a = a THEN CHOOSE i \in DOMAIN hist : hist[i].a = a /\ \A j \in DOMAIN hist : hist[j].a = a => j <= i ELSE 0
Viewed == IF Py THEN {r \in Made(st) : \E i \in DOMAIN hist : i > Last("Reopen") /\ hist[i].a = "Create" /\ hist[i].r = r
                                                   /\ ~\E j \in 1..(i - 1) : hist[j].a = "Create" /\ hist[j].r = r} ELSE Made(st)
Vs == IF Py THEN {0} ELSE Views
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Skip == UNCHANGED <<st, hist>>
Ones(n) == [d \in 1..n |-> 1]
Step(c) ==
  CASE Made(st) = {} \/ c = 1 ->
         \E r \in One(Rasters), k \in One({"constant", "variable"}), nr0 \in One(1..5), nc0 \in One(1..5), nt \in One({1, 2, 3, 4, 1, 2, 3, 4, 12}), wide \in One(1..6), more \in One(6..14) :
         \* large grids with few time steps, many time steps with small grids
         \E nr \in {IF wide = 1 /\ nt < 3 THEN more ELSE IF nt = 12 /\ nr0 > 3 THEN 3 ELSE nr0}, nc \in {IF wide = 2 /\ nt < 3 THEN more ELSE IF nt = 12 /\ nc0 > 3 THEN 3 ELSE nc0} :
           Do([a |-> "Create", r |-> r, kind |-> k, grid |-> <<nr, nc>>, nt |-> IF k = "constant" THEN 1 ELSE nt])
    [] c = 2 -> IF Py THEN Skip ELSE \E r \in One(Made(st)), v \in One(Views) : Do([a |-> "Open", r |-> r, v |-> v])
    [] c \in {3, 4} -> IF Viewed = {} THEN Skip ELSE \E r \in One(Viewed), v \in One(Vs), name \in One(LayerNames), dt \in One(Types), f \in One({A!NoValue, 99, 0}), h \in One(0..1) :
         \E scale \in One({s \in Scales : dt \in Fits(s)}) :
           \* a no-data value at which the scale doesn't matter can be had by way of the type bool
           Do([a |-> "AddLayer", r |-> r, v |-> v, name |-> name, dt |-> dt, scale |-> scale, fill |-> IF st[r].kind = "variable" \/ Py THEN A!NoValue ELSE f, how |-> h])
    [] c = 5 -> IF RandomElement(1..3) > 1 \/ (Py /\ Len(hist) < 12) THEN Skip ELSE Do([a |-> "Reopen"])
    [] OTHER ->
         LET there == {<<r, n>> : r \in Made(st), n \in LayerNames} \cap UNION {{<<r, n>> : n \in DOMAIN st[r].layers} : r \in Made(st)}
         IN IF there = {} THEN Skip
            ELSE \E x \in One(there), v \in One(Vs), b \in One(0..100), h \in One(0..3), w \in One(1..6) :
                 LET y == st[x[1]].layers[x[2]] IN
                 \E mt \in One(Fits(y.scale)), sel \in {TLCEval(RandomSel(y.shape, w))} :
                   LET block == [r |-> x[1], v |-> v, name |-> x[2], start |-> sel.start, stride |-> Ones(Len(y.shape)), count |-> sel.count, mt |-> mt, how |-> h]
                       whole == [r |-> x[1], v |-> v, name |-> x[2], how |-> h]
                   IN CASE c \in 6..9 -> Do([a |-> "Write", base |-> b] @@ block)
                        [] c \in 10..12 -> Do([a |-> "Read"] @@ block)
                        [] c = 13 -> Do([a |-> "WriteAll", base |-> b] @@ whole)
                        [] c = 14 -> Do([a |-> "ReadAll"] @@ whole)
                        [] c = 15 -> IF Py THEN Skip ELSE Do([a |-> "NoData"] @@ whole)
Init == st = Empty /\ hist = <<>>
Next == Len(hist) < Depth /\ \E c \in One(1..15) : Step(c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
