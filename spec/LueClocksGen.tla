--------------------------- MODULE LueClocksGen ---------------------------
(* Random histories of LueClocks *)
EXTENDS LueClocks, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)

One(S) == {TLCEval(RandomElement(S))}
Origins == {"1970-01-01T00:00:00+00:00", "now", "x"}
AllEpochs == {e \in [kind : {"common_era", "formation_of_earth"}, origin : Origins \cup {"-"}, cal : {"gregorian", "-"}] : IsEpoch(e)}
AllUnits == {Units[i] : i \in DOMAIN Units}
\* mostly few of them, to have things in common
SomeUnit(c) == RandomElement(IF c = 1 THEN AllUnits ELSE {"second", "hour", "day"})
SomeNr(c) == RandomElement(IF c = 1 THEN 0..7 ELSE {1, 2, 5})
SomeEpoch(c) == IF c = 1 THEN RandomElement(AllEpochs) ELSE IF c = 2 THEN RandomElement({UnixEpoch, Epoch("common_era", "-", "-")}) ELSE UnixEpoch
AllTexts == UNION {Texts[k] : k \in Kinds} \cup {"", "Box", "point ", "lue"}
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Step(c) ==
  IF Used(st) = {} \/ c <= 4
  THEN \E to \in One(Slots), u \in One(1..3), n \in One(1..3), e \in One(1..3) :
       \E unit \in {TLCEval(SomeUnit(u))}, nr \in {TLCEval(SomeNr(n))}, epoch \in {TLCEval(SomeEpoch(e))}, h \in One(0..1) :
         Do([a |-> "Make", to |-> to, e |-> epoch, unit |-> unit, n |-> nr, how |-> h])
  ELSE \E to \in One(Slots), from \in One(Used(st)) :
    CASE c = 5 -> Do([a |-> "Copy", to |-> to, from |-> from])
      [] c = 6 -> Do([a |-> "Stored", to |-> to, from |-> from])
      [] c = 7 -> \E t \in One(Used(st)), a \in One({"Move", "Swap"}) : IF t = from THEN UNCHANGED <<st, hist>> ELSE Do([a |-> a, to |-> t, from |-> from])
      [] c \in {8, 9, 10} -> Do([a |-> "Relate"])
      [] c = 11 -> Do([a |-> "Sort", stable |-> TRUE])
      [] c = 12 -> Do([a |-> "Describe", from |-> from])
      [] c = 13 -> \E t \in One(0..40000), n \in One({0, 1, 2, 7, 24, 3600, 50000}), u \in One({"second", "minute", "day", "week", "month", "year"}),
                      te \in One({0, 16, 20}), ne \in One({0, 5, 12}) :
                   Do([a |-> "Point", ticks |-> t, te |-> te, n |-> n, ne |-> ne, unit |-> u])
      [] c = 14 -> \E x \in One(0..3), y \in One(0..3) : Do([a |-> "Durations", x |-> x, y |-> y])
      [] c = 15 -> \E k \in One(Kinds) : \E v \in One(Texts[k]), w \in One(Texts[k]), a \in One({"ToText", "Aspect", "Aspect"}) :
                   Do(IF a = "ToText" THEN [a |-> a, kind |-> k, value |-> v] ELSE [a |-> a, kind |-> k, value |-> v, other |-> w])
      [] c = 16 -> \E k \in One(Kinds), h \in One(0..1) : \E t \in One(IF h = 0 THEN Texts[k] ELSE AllTexts) : Do([a |-> "OfText", kind |-> k, text |-> t])
      [] c = 17 -> IF RandomElement(1..10) = 1 THEN Do([a |-> "Defaults"]) ELSE UNCHANGED <<st, hist>>
Init == st = Empty /\ hist = <<>>
Next == Len(hist) < Depth /\ \E c \in One(1..17) : Step(c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
