-------------------------- MODULE LueIndexingGen --------------------------
(* Random histories of LueIndexing *)
EXTENDS LueIndexing, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)

One(S) == {TLCEval(RandomElement(S))}
Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
Chance(n, dummy) == RandomElement(1..n) = 1
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)

Pick(s) == s[RandomElement(1..Len(s))]
\* an index for a dimension of n cells
Component(n) ==
  IF RandomElement(1..5) <= 2
  THEN LET v == IF Chance(40, n) THEN RandomElement({n, n + 1, -n - 1, -n - 2, 77777}) ELSE RandomElement(-n..(n - 1))
       IN [k |-> "i", v |-> v, as |-> IF v # 77777 /\ Chance(4, n) THEN Pick(<<"int64", "int8", "intp">>) ELSE "int"]
  ELSE [k |-> "s", a |-> IF Chance(3, n) THEN None ELSE RandomElement((-n - 2)..(n + 2)),
        b |-> IF Chance(3, n) THEN None ELSE RandomElement((-n - 2)..(n + 2)),
        c |-> Pick(<<None, None, None, None, 1, 1, 2, 2, 3, 7, IF Chance(2, n) THEN -1 ELSE 2, IF Chance(3, n) THEN -2 ELSE 3, IF Chance(6, n) THEN 0 ELSE 1>>)]
Index(shape, dummy) ==
  LET rank == Len(shape)
      len == IF Chance(30, dummy) THEN rank + 1 ELSE IF Chance(12, dummy) THEN 0 ELSE RandomElement(1..rank)
  IN [ix |-> [d \in 1..len |-> Component(IF d <= rank THEN shape[d] ELSE 1)], form |-> IF len = 1 /\ Chance(2, dummy) THEN "one" ELSE "tuple"]
\* shape of an array to assign to a selection
ValueShape(s, dummy) ==
  LET c == RandomElement(1..24) IN
  CASE c = 1 /\ Len(s) > 0 -> Tail(s)
    [] c = 2 -> <<1>> \o s
    [] c = 3 /\ Len(s) > 0 -> [d \in DOMAIN s |-> IF d = 1 THEN s[d] + 1 ELSE s[d]]
    [] c = 4 /\ Len(s) > 0 -> [d \in DOMAIN s |-> IF d = Len(s) THEN 1 ELSE s[d]]
    [] c = 5 -> <<Prod(s)>>
    [] c = 6 -> [d \in DOMAIN s |-> s[Len(s) + 1 - d]]
    [] c = 7 -> <<2>> \o s
    [] c = 8 -> <<>>
    [] c = 9 -> s \o <<1>>
    [] c = 10 /\ Len(s) > 0 -> [d \in DOMAIN s |-> IF d = 1 /\ s[d] > 0 THEN s[d] - 1 ELSE s[d]]
    [] OTHER -> s
Edge == {-1, -128, -129, 127, 128, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 1000000}
BigOnes == {Big + e : e \in {31, 32, 62, 63, 64}}
Val(t, s) ==
  LET c == RandomElement(1..12)
      small == RandomElement(0..100)
      ft == Pick(<<t, t, t, RandomElement(Types)>>)
  IN CASE c \in {1, 2} -> [k |-> "int", v |-> 4 * small]
       [] c = 3 -> [k |-> "int", v |-> 4 * RandomElement(Edge)]
       [] c = 4 /\ Chance(2, s) -> [k |-> "int", v |-> RandomElement(BigOnes)]
       [] c = 5 -> [k |-> "float", v |-> RandomElement((IF Signed(t) \/ IsFloat(t) THEN -400 ELSE 0)..400)]
       [] c = 6 -> [k |-> "np", t |-> ft, v |-> IF IsFloat(ft) THEN RandomElement(0..400) ELSE 4 * small]
       [] OTHER -> [k |-> "arr", t |-> ft, shape |-> ValueShape(s, c), v |-> 4 * RandomElement(0..40), q |-> IF IsFloat(ft) THEN 3 ELSE 4,
                    lay |-> Pick(<<"C", "C", "C", "F", "strided", "reversed", "swapped", "list">>)]
\* nested lists do not tell the shape of arrays without cells
Tidy(val) == IF val.k = "arr" /\ val.lay = "list" /\ Prod(val.shape) = 0 THEN [val EXCEPT !.lay = "C"] ELSE val

BadOnes == {"list", "list2", "none", "ellipsis", "true", "false", "npbool", "float", "npfloat", "text", "bytes", "array", "mask", "dict", "range", "complex", "tuple"}
Make == \E rank \in One({1, 1, 2, 2, 3, 3, 4, 5}) : \E shape \in {TLCEval([d \in 1..rank |-> RandomElement(1..(CASE rank = 1 -> RandomElement({9, 9, 60}) [] rank = 2 -> 6 [] rank = 3 -> 4 [] OTHER -> 2))])},
          t \in One(Types), base \in One(0..50), kind \in One({"same", "different"}) :
        Do([a |-> "Make", shape |-> shape, t |-> t, base |-> base, kind |-> kind])
Next ==
  /\ Len(hist) < Depth
  /\ IF ~st.made THEN Make
     ELSE \E c \in One(1..24) :
       CASE c <= 10 -> \E ix \in {TLCEval(Index(st.shape, c))} : Do([a |-> "Get", ix |-> ix.ix, form |-> ix.form])
         [] c <= 20 -> \E ix \in {TLCEval(Index(st.shape, c))} :
              \E val \in {TLCEval(Tidy(Val(st.t, IF Usable(ix.ix, st.shape) THEN ShapeOf(ix.ix, st.shape) ELSE <<1>>)))} :
              Do([a |-> "Set", ix |-> ix.ix, form |-> ix.form, val |-> val])
         [] c \in {21, 22} -> \E w \in One(BadOnes), b \in One(0..(Len(st.shape) - 1)) : \E f \in One(0..(Len(st.shape) - 1 - b)), s \in One(BOOLEAN) :
              Do([a |-> "Bad", what |-> w, before |-> b, after |-> f, set |-> s])
         [] c = 23 -> Do([a |-> "Info"])
         [] c = 24 -> Do([a |-> "Reopen"])
Init == st = Empty /\ hist = <<>>
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
