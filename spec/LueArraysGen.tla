---------------------------- MODULE LueArraysGen ----------------------------
(* Random histories of LueArrays *)
EXTENDS LueArrays, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)

One(S) == {TLCEval(RandomElement(S))}
Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
\* values are stored times this; in memory they have types with which that is possible
Scales == {"1", "-1", "256", "-256", "2424832", "-16777216", "1099511627776", "0.5", "-0.25"}
Fits(scale) ==
  CASE scale = "1" -> Types
    [] scale = "-1" -> {"i8", "i16", "i32", "i64", "f32", "f64"}
    [] scale = "256" -> Types \ {"i8", "u8"}
    [] scale = "-256" -> {"i16", "i32", "i64", "f32", "f64"}
    [] scale = "2424832" -> {"i32", "u32", "i64", "u64", "f32", "f64"}
    [] scale = "-16777216" -> {"i32", "i64", "f32", "f64"}
    [] scale = "1099511627776" -> {"i64", "u64", "f32", "f64"}
    [] OTHER -> {"f32", "f64"}
Mem == Fits(st.scale)
Vec(rank, S) == [d \in 1..rank |-> RandomElement(S)]
Rank == Len(st.shape)
\* a selection of what is there, nearly always
RandomSel(shape) ==
  LET start == [d \in DOMAIN shape |-> IF shape[d] = 0 THEN 0 ELSE RandomElement(0..shape[d] - 1)]
      stride == [d \in DOMAIN shape |-> RandomElement(<<1, 1, 2, 3>>[RandomElement(1..4)]..(IF shape[d] > 20 THEN 17 ELSE 3))]
      room(d) == IF shape[d] = 0 THEN 0 ELSE (shape[d] - 1 - start[d]) \div stride[d] + 1
      count == [d \in DOMAIN shape |-> RandomElement((IF RandomElement(1..12) = 1 \/ room(d) = 0 THEN 0 ELSE 1)..(room(d) + (IF RandomElement(1..15) = 1 THEN 1 ELSE 0)))]
  IN [start |-> start, stride |-> [d \in DOMAIN shape |-> IF RandomElement(1..40) = 1 THEN 0 ELSE stride[d]], count |-> count]
Written(sel) == Usable(st, sel) /\ \A k \in DOMAIN Values(st, sel) : Values(st, sel)[k] # NoValue

Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
\* extents, now and then large ones
Extents(rank) == CASE rank = 1 -> IF RandomElement(1..6) = 1 THEN 60..150 ELSE 1..6
                   [] rank = 2 -> IF RandomElement(1..6) = 1 THEN 7..12 ELSE 1..6
                   [] rank = 3 -> 1..3
                   [] OTHER -> 1..2
Make == \E rank \in One({1, 1, 2, 2, 3, 3, 4, 5, 6}) : \E shape \in {TLCEval(Vec(rank, TLCEval(Extents(rank))))}, ext \in One(BOOLEAN),
          chunk \in {TLCEval(Vec(rank, 1..3))}, dt \in One(Types) : \E scale \in One({s \in Scales : dt \in Fits(s)}), fill \in One({NoValue, 99}) :
        Do([a |-> "Make", shape |-> shape, ext |-> ext, chunk |-> chunk, dt |-> dt, scale |-> scale, fill |-> fill])
Step(c) ==
  CASE c \in {1, 2, 3} -> \E sel \in {TLCEval(RandomSel(st.shape))}, b \in One(0..100), mt \in One(Mem), h \in One(0..5) :
              Do([a |-> "Write", start |-> sel.start, stride |-> sel.stride, count |-> sel.count, base |-> b, mt |-> mt, how |-> h])
    [] c = 4 -> \E sel \in {TLCEval(RandomSel(st.shape))}, b \in One(0..100), mt \in One(Mem) :
              Do([a |-> "Fill", start |-> sel.start, stride |-> sel.stride, count |-> sel.count, base |-> b, mt |-> mt, how |-> 0])
    [] c \in {5, 6, 7} -> \E sel \in {TLCEval(RandomSel(st.shape))}, mt \in One(Mem), h \in One(0..5) :
              Do([a |-> "Read", start |-> sel.start, stride |-> sel.stride, count |-> sel.count, mt |-> mt, how |-> h])
    [] c = 8 -> \E b \in One(0..100), mt \in One(Mem), h \in One(0..3) : Do([a |-> "WriteAll", base |-> b, mt |-> mt, how |-> h])
    [] c = 9 -> \E mt \in One(Mem), h \in One(0..3) : Do([a |-> "ReadAll", mt |-> mt, how |-> h])
    [] c = 10 -> \E shape \in {TLCEval(Vec(Rank, (IF RandomElement(1..10) = 1 THEN 0 ELSE 1)..(IF Rank > 3 THEN 2 ELSE IF Rank = 3 THEN 3 ELSE IF Rank = 1 /\ RandomElement(1..6) = 1 THEN 99 ELSE 6)))} : Do([a |-> "Resize", shape |-> shape])
    [] c = 11 -> \E h \in One(0..2) : Do([a |-> "Reopen", how |-> h])
    [] c = 12 -> \E rank \in One(0..4) : \E s \in {TLCEval(Vec(rank, 0..3))}, t \in {TLCEval(Vec(rank, (IF RandomElement(1..4) = 1 THEN 0 ELSE 1)..4))}, n \in {TLCEval(Vec(rank, (IF RandomElement(1..4) = 1 THEN 0 ELSE 1)..40))} :
              Do([a |-> "Sel", start |-> s, stride |-> t, count |-> n])
    [] c = 13 -> \E w \in {TLCEval(Vec(2, 1..7))} : \E c0 \in {TLCEval([d \in 1..2 |-> (w[d] \div 2) + RandomElement(0..9)])} :
              \E shape \in {TLCEval([d \in 1..2 |-> c0[d] - w[d] \div 2 + w[d] + RandomElement(0..3)])} :
              Do([a |-> "Center", center |-> c0, window |-> w, shape |-> shape])
    [] c = 14 -> \E rank \in One(0..5) : \E s \in {TLCEval(Vec(rank, (IF RandomElement(1..8) = 1 THEN 0 ELSE 1)..30))}, el \in One(0..8) : Do([a |-> "Size", shape |-> s, el |-> el])
Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ IF ~st.made THEN Make ELSE \E c \in One(1..14) : Step(c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
