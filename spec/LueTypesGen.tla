---------------------------- MODULE LueTypesGen ----------------------------
(* Random histories of LueTypes *)
EXTENDS LueTypes, Integers, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)

One(S) == {TLCEval(RandomElement(S))}
Ints == {"min", "max", "half", "0", "1", "7", "100"}
FloatVals == {"min", "max", "tiny", "inf", "-inf", "nan", "-0", "eps", "0", "0.1", "-2.5", "1e+30"}
Numbers(t) == IF t \in Floats THEN FloatVals ELSE IF t \in Unsigneds THEN Ints \ {"min"} ELSE Ints
Vals(t) == [i \in 1..RandomElement(1..5) |-> RandomElement(Numbers(t))]
RandomBase(c) ==
  CASE c \in 1..5 -> [b |-> RandomElement({"native", "std", "native-traits", "std-traits", "native-id"}), t |-> RandomElement(Numeric)]
    [] c = 6 -> [b |-> "be", t |-> RandomElement(Numeric \ {"i8", "u8"})]
    [] c = 7 -> [b |-> RandomElement({"text", "ascii"}), n |-> RandomElement({1, 2, 3, 4, 8})]
    [] c = 8 -> [b |-> RandomElement({"vtext", "vtext-native", "vtext-std"})]
    [] c = 9 -> [b |-> "compound", n |-> RandomElement({1, 4, 8, 9, 16})]
    [] c = 10 -> [b |-> "long"]
Used == {s \in Slots : st[s].c # "none"}
Maps == {s \in Used : Mappable(st[s])}
Own == {s \in Used : st[s].c = "text" /\ st[s].n # 0}
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Skip == UNCHANGED <<st, hist>>
Step(c) ==
  IF Used = {} \/ c \in {1, 2, 3} THEN \E to \in One(Slots), k \in One(1..10) : \E base \in {TLCEval(RandomBase(k))} : Do([a |-> "Make", to |-> to, base |-> base])
  ELSE \E to \in One(Slots), from \in One(Used), other \in One(Used) :
    CASE c \in {4, 5} -> IF Maps = {} THEN Skip ELSE \E m \in One(Maps), a \in One({"File", "Memory"}) : Do([a |-> a, to |-> to, from |-> m])
      [] c = 6 -> IF st[from].c = "other" THEN Skip ELSE Do([a |-> "Recode", to |-> to, from |-> from])
      [] c = 7 -> Do([a |-> "Copy", to |-> to, from |-> from])
      [] c \in {8, 9} -> Do([a |-> "Describe", from |-> from])
      [] c \in {10, 11, 12} -> \E k \in One(1..3) :
              \* those that are the same, or of the same size but otherwise different
              LET like == {s \in Used : s # from /\ st[s] = st[from]}
                  near == {s \in Used : st[s] # st[from] /\ Bytes(st[s]) = Bytes(st[from])}
                  S == IF k = 1 /\ like # {} THEN like ELSE IF k = 2 /\ near # {} THEN near ELSE {other}
              IN \E o \in One(S) : Do([a |-> "Compare", from |-> from, other |-> o])
      [] c = 13 -> \E t \in One(Numeric), w \in One({"array", "attribute", "memory"}) : \E v \in {TLCEval(Vals(t))} : Do([a |-> "Trip", t |-> t, where |-> w, vals |-> v])
      [] c = 14 -> IF Maps = {} THEN Skip ELSE \E m \in One(Maps), a \in One({"Stored", "StoredAtt"}) : Do([a |-> a, to |-> to, from |-> m])
      [] c = 15 -> Do([a |-> RandomElement({"BadText", "Decode"})])
Init == st = Empty /\ hist = <<>>
Next == Len(hist) < Depth /\ \E c \in One(1..15) : Step(c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
