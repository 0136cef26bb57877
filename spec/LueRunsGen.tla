---------------------------- MODULE LueRunsGen ----------------------------
(* Random histories of LueRuns *)
EXTENDS LueRuns, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)
One(S) == {TLCEval(RandomElement(S))}
Pick(s) == s[RandomElement(1..Len(s))]
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Counts == {"0", "1", "2", "3", "7", "10", "100", "4294967296", "9007199254740993", "18446744073709551615"}
Shape(dummy) == <<RandomElement(Counts), RandomElement(Counts)>>
Zones == {"UTC", "AAA-14", "BBB+9:30", "CET-1CEST,M3.5.0,M10.5.0", "EET-2EEST,J1/0,J365/23", "NST3:30NDT,M3.2.0,M11.1.0"}
Elsewhere == {"none/f1", "d", "/dev/full", "", "f1/f2"}
NoNo == {"negative", "negative extent", "large", "float", "text", "short", "long", "scalar", "none", "add number", "add nothing", "save experiment", "save run", "save path", "set workers", "set shape"}
Have(kinds) == {v \in Names : Is(st, v, kinds)}
NewOf(v, dummy) == [a |-> "New", v |-> v, kind |-> IF st.lang = "cpp" THEN Pick(<<"run", "run", "stopwatch", "experiment", "array", "array", "array">>) ELSE Pick(<<"run", "run", "experiment", "array", "array">>),
                    workers |-> RandomElement(Counts), ash |-> Shape(1), psh |-> Shape(2), how |-> Pick(<<"tuple", "list", "names">>)]
Both(c, has) == LET v == RandomElement(has) IN
  CASE c <= 2 -> NewOf(RandomElement(Names), c)
    [] c = 3 -> [a |-> "Drop", v |-> v]
    [] c \in 4..7 -> [a |-> "Start", v |-> v]
    [] c \in 8..12 -> [a |-> "Stop", v |-> v]
    [] c = 13 -> [a |-> "Wait", us |-> Pick(<<1, 50, 300, 1500>>)]
    [] c = 14 -> IF RandomElement(1..3) = 1 THEN [a |-> "Adjust", us |-> Pick(<<-90000000, -1000000, -3000, 3000, 1000000, 45000000>>)]
                 ELSE [a |-> "Pass", us |-> Pick(<<1000, 999, 2500, 100000, 999999, 1000000, 2600000, 61000000>>)]
    [] c \in 15..18 -> [a |-> "Add", v |-> RandomElement(Have(Experiments)), from |-> v]
    [] c \in 19..21 -> [a |-> "Save", v |-> RandomElement(Have({"array"})), path |-> RandomElement(Files)]
    [] c = 22 -> [a |-> "Save", v |-> RandomElement(Have({"array"})), path |-> RandomElement(IF st.files["f1"].how = "absent" THEN Elsewhere \ {"f1/f2"} ELSE Elsewhere)]
    [] c = 23 -> [a |-> "Fill", path |-> RandomElement(Files), n |-> Pick(<<0, 1, 100, 5000, 100000>>)]
    [] c = 24 -> [a |-> "Remove", path |-> RandomElement(Files)]
    [] OTHER -> [a |-> "Bad", what |-> RandomElement(NoNo), v |-> RandomElement(Have({"array"}))]
Cpp(c, has) == LET v == RandomElement(has)  w == RandomElement(Names) IN
  CASE c <= 6 -> [a |-> (<<"Copy", "Assign", "Move", "MoveAssign", "Slice", "AssignRun">>)[c], v |-> v, to |-> w]
    [] OTHER -> [a |-> "AddOwn", v |-> v, k |-> RandomElement(1..3)]
Op(dummy) == LET c == RandomElement(1..4) IN
  IF c = 1 /\ st.lang = "cpp" THEN Cpp(RandomElement(1..7), Have(Kinds)) ELSE Both(RandomElement(1..(IF st.lang = "cpp" THEN 24 ELSE 25)), Have(Kinds))
Next ==
  /\ Len(hist) < Depth
  /\ IF hist = <<>> THEN \E l \in One({"cpp", "py"}), z \in One(Zones) : Do([a |-> "Begin", lang |-> l, zone |-> z])
     ELSE IF Have({"array"}) = {} THEN \E v \in One(Names) : \E op \in {TLCEval([NewOf(v, 1) EXCEPT !.kind = "array"])} : Do(op)
     ELSE \E op \in {TLCEval(Op(1))} : IF Enabled(st, op) THEN Do(op) ELSE Do([a |-> "Wait", us |-> 1])
Init == st = Empty /\ hist = <<>>
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
