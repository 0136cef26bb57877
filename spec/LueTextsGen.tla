---------------------------- MODULE LueTextsGen ----------------------------
(* Random histories of LueTexts *)
EXTENDS LueTexts, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)
None == 99999
One(S) == {TLCEval(RandomElement(S))}
Pick(s) == s[RandomElement(1..Len(s))]
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Texts == {"empty", "a", "b", "ab", "abc", "space", "inner", "trailing", "leading", "newline", "tab", "two", "twos", "three", "four", "fours", "mixed",
          "high", "bom", "swappedbom", "combining", "ff", "del", "low", "edge2", "edge3", "nbsp", "long", "longwide", "quote", "digits", "upper", "right"}
Short == {"empty", "a", "b", "ab", "two", "four"}
\* all kinds of texts, or only short ones, or only one kind
List(n, dummy) == LET c == RandomElement(1..4) IN
  [k \in 1..n |-> IF c = 1 THEN RandomElement(Short) ELSE IF c = 2 THEN Pick(<<"empty", "empty", "a">>) ELSE RandomElement(Texts)]
Slice(n, dummy) ==
  [a |-> IF RandomElement(1..3) = 1 THEN None ELSE RandomElement((-n - 1)..(n + 1)),
   b |-> IF RandomElement(1..3) = 1 THEN None ELSE RandomElement((-n - 1)..(n + 1)),
   c |-> Pick(<<None, None, None, 1, 2, 2, 3, IF RandomElement(1..3) = 1 THEN -1 ELSE 1, IF RandomElement(1..5) = 1 THEN 0 ELSE 2>>), k |-> "s"]
Lay(dummy) == Pick(<<"C", "C", "C", "strided", "reversed", "swapped">>)
Spoil(texts) == IF texts # <<>> /\ RandomElement(1..12) = 1 THEN [texts EXCEPT ![RandomElement(1..Len(texts))] = RandomElement(NoText)] ELSE texts
Next ==
  /\ Len(hist) < Depth
  /\ IF ~st.made THEN \E n \in One({1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 3, 4, 5, 6, 7, 8, 30}), kind \in One({"same", "different"}) : \E t \in {TLCEval(List(n, 0))}, lay \in {TLCEval(Lay(0))}, form \in One(Forms) :
            Do([a |-> "Make", kind |-> kind, texts |-> t, form |-> form, extra |-> 0, lay |-> lay])
     ELSE \E c \in One(1..16) :
       CASE c <= 6 -> \E s \in {TLCEval(Slice(Len(st.texts), c))} :
                      \E n \in {TLCEval(IF RandomElement(1..10) = 1 \/ s.c = 0 THEN RandomElement(0..5) ELSE Len(At(st, s)))} :
                      \E t \in {TLCEval(Spoil(List(n, c)))}, extra \in One({0, 0, 0, 1, 5}), lay \in {TLCEval(Lay(c))},
                         f \in {TLCEval(Pick(<<"U", "U", "U", "U", "S", "S", "S", "list", "object", "numbers", "bytes", "2d">>))} :
                      Do([a |-> "Put", at |-> s, texts |-> t, form |-> IF f \in Maybe /\ ~Valid(t) THEN "U" ELSE f, extra |-> extra, lay |-> lay])
         [] c <= 10 -> \E s \in {TLCEval(Slice(Len(st.texts), c))} : Do([a |-> "Read", at |-> s])
         [] c = 11 -> \E i \in One((-Len(st.texts) - 1)..Len(st.texts)) : Do([a |-> "ReadOne", i |-> i])
         [] c = 12 -> \E i \in One((-Len(st.texts) - 1)..Len(st.texts)), t \in One(Texts), h \in One(0..2) : Do([a |-> "PutOne", i |-> i, text |-> t, how |-> h])
         [] c \in {13, 14} -> IF hist[1].kind = "same" /\ Len(st.texts) < 14
                      THEN \E n \in One(1..3) : \E t \in {TLCEval(List(n, c))}, f \in One(Forms) : Do([a |-> "Expand", texts |-> t, form |-> f, extra |-> 0, lay |-> "C"])
                      ELSE Do([a |-> "Reopen"])
         [] OTHER -> Do([a |-> "Reopen"])
Init == st = Empty /\ hist = <<>>
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
