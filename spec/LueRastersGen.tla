---------------------------- MODULE LueRastersGen ----------------------------
(* Random histories of LueRasters *)
EXTENDS LueRasters, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)
One(S) == {TLCEval(RandomElement(S))}
Min(a, b) == IF a < b THEN a ELSE b
Extent(c) == CASE c = 1 -> RandomElement(1..3) [] c = 2 -> RandomElement(1..12) [] c = 3 -> RandomElement({15, 16, 17, 18, 20, 33})
\* files with a single large strip are divided by the library that reads them
Tile(shape) == LET n == shape[1] IN
  RandomElement({<<0, Min(n, RandomElement(1..5))>>, <<16, 16>>, <<16, 32>>, <<32, 16>>} \cup (IF n * shape[2] < 300 THEN {<<0, n>>} ELSE {}))
Closed == {f \in Files : st[f].open = "-"}
Floats == {"f32", "f64"}
NoDatas(dt) == {"3", "100", "max", "0"} \cup (IF dt \in Floats THEN {"nan"} ELSE {}) \cup (IF dt \notin {"u8", "u16", "u32", "u64"} THEN {"min"} ELSE {})
\* u8 100: the same as any
Geo(c) == LET s == RandomElement({1, 10, 25}) IN
  [west |-> RandomElement({0, -200, 1}), north |-> RandomElement({0, 200}), rot |-> IF c = 2 THEN 1 ELSE 0,
   size |-> <<s, IF c = 1 THEN RandomElement({2, -10}) ELSE s>>]
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Create == \E f \in One(Closed), c1 \in One(1..3), c2 \in One(1..3), nb \in One({1, 1, 2, 3}), dt \in One(Types), pixel \in One(BOOLEAN), fill \in One(1..100), h \in One(0..1), no \in One(1..12) :
          \E shape \in {TLCEval(<<Extent(c1), Extent(c2)>>)} : \E tile \in {TLCEval(Tile(shape))} :
          LET refused == IF no <= 4 /\ st[f] = Absent THEN <<"driver", "directory", "shape", "bands">>[no] ELSE "-" IN
          Do([a |-> "Create", f |-> f, shape |-> shape, nb |-> nb, dt |-> dt, tile |-> tile, pixel |-> pixel, fill |-> fill, how |-> h, refused |-> refused])
Copy == \E f \in One(Opened(st)), to \in One(Closed), no \in One(1..10), h \in One(0..1) : \E tile \in {TLCEval(Tile(st[f].shape))} :
        Do([a |-> "Copy", f |-> f, to |-> to, tile |-> tile, refused |-> IF no = 1 THEN "directory" ELSE "-", how |-> h])
Band(x) == IF RandomElement(1..20) = 1 THEN RandomElement({0, -1, Len(x.bands) + 1}) ELSE RandomElement(1..Len(x.bands))
Memory(x) == RandomElement(Types)
Start2(x) == [d \in 1..2 |-> RandomElement(0..x.shape[d] - 1)]
Count2(x, s) == [d \in 1..2 |-> RandomElement(1..(x.shape[d] - s[d])) + (IF RandomElement(1..30) = 1 THEN 1 ELSE 0)]
At2(x) == LET s == B!ShapeInBlocks(x.shape, BlockShape(x)) IN [d \in 1..2 |-> RandomElement(0..(s[d] - (IF RandomElement(1..20) = 1 THEN 0 ELSE 1)))]
IO(f, c) ==
  LET x == st[f] IN
  \E b \in {TLCEval(Band(x))}, base \in One(0..100), h \in One(0..1), mt \in {TLCEval(Memory(x))}, w \in One({TRUE, FALSE}) :
    CASE c = 1 -> \E at \in {TLCEval(At2(x))} : Do([a |-> IF w THEN "WriteBlock" ELSE "ReadBlock", f |-> f, b |-> b, at |-> at, base |-> base, how |-> h])
      [] c = 2 -> \E s \in {TLCEval(Start2(x))} : \E n \in {TLCEval(Count2(x, s))} :
                  Do([a |-> IF w THEN "Write" ELSE "Read", f |-> f, b |-> b, start |-> s, count |-> n, base |-> base, mt |-> mt, how |-> h])
      [] c = 3 -> Do([a |-> IF w THEN "WriteAll" ELSE "ReadAll", f |-> f, b |-> b, base |-> base, how |-> h])
Step(c) ==
  CASE c \in {1, 2} -> IF Closed = {} THEN UNCHANGED <<st, hist>> ELSE Create
    [] c \in {3, 4, 5} -> \E f \in One(Closed \cup {Junk}), m \in One({"ro", "rw"}), h \in One(0..1) : Do([a |-> "Open", f |-> f, mode |-> m, how |-> h])
    [] c = 6 -> \E f \in One(Closed \cup {Junk}) : Do([a |-> "TypeOf", f |-> f])
    [] c = 7 -> IF Closed = {} THEN UNCHANGED <<st, hist>> ELSE \E f \in One(Closed), no \in One(1..3) : IF no # 1 THEN UNCHANGED <<st, hist>> ELSE Do([a |-> "Delete", f |-> f])
    [] c = 8 -> \E ext \in One(DOMAIN Drivers \cup {"txt", "-", "tiff", "ma"}), h \in One(0..3) : Do([a |-> "DriverName", ext |-> ext, how |-> h])
    [] c = 9 -> \E k \in One(1..4) : CASE k = 1 -> \E known \in One(BOOLEAN) : Do([a |-> "Driver", known |-> known])
                                     [] k = 2 -> \E dt \in One(Types) : Do([a |-> "TypeName", dt |-> dt])
                                     [] OTHER -> \E d \in One(0..3), n \in One(1..3) : Do([a |-> "Quiet", depth |-> d, n |-> n])
    [] OTHER -> IF Opened(st) = {} THEN UNCHANGED <<st, hist>>
                ELSE \E f \in One(Opened(st)) : LET x == st[f] IN
                  CASE c \in {10, 11} -> Do([a |-> "Close", f |-> f])
                    [] c = 12 -> Do([a |-> "Describe", f |-> f])
                    [] c = 13 -> Do([a |-> "Geo", f |-> f])
                    [] c = 14 -> IF x.open # "rw" THEN UNCHANGED <<st, hist>> ELSE \E g \in {TLCEval(Geo(RandomElement(1..8)))} : Do([a |-> "SetGeo", f |-> f, geo |-> g, how |-> RandomElement(0..1)])
                    [] c = 16 -> IF Closed = {} THEN UNCHANGED <<st, hist>> ELSE Copy
                    [] c >= 17 -> \E k \in One({1, 1, 2, 2, 3}) : IO(f, IF RandomElement(1..6) = 1 THEN 3 ELSE k)
\* GDAL does not store blocks with only zeros or no-data values. Therefore, no-data values are set before those can be there.
SetNoData(f) == LET x == st[f] IN
  \E b \in {TLCEval(Band(x))}, nd \in One(NoDatas(x.dt)) : Do([a |-> "SetNoData", f |-> f, b |-> b, nd |-> nd, how |-> RandomElement(0..1)])
Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ IF There(st) = {} THEN Create
           ELSE IF hist[Len(hist)].a = "Create" /\ hist[Len(hist)].refused = "-" /\ RandomElement(1..3) # 1 THEN SetNoData(hist[Len(hist)].f)
           ELSE \E c \in One((1..26) \ {15}) : Step(c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
