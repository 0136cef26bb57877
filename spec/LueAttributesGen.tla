-------------------------- MODULE LueAttributesGen --------------------------
(* Random histories of LueAttributes *)
EXTENDS LueAttributes, Integers, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)

One(S) == {TLCEval(RandomElement(S))}
Names == {"n", "n~", "m", "a/b", "e x", "lue_description", "N", "o", "p", "q", "a_name_that_is_longer_than_usual_names_are_and_that_goes_on_until_it_no_longer_fits_the_line"}
Ints == {"min", "max", "half", "0", "1", "7", "100"}
Floats == {"min", "max", "tiny", "inf", "-inf", "nan", "-0", "eps", "0", "0.1", "-2.5", "1e+30"}
Types == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"}
Numbers(t) == IF t \in {"f32", "f64"} THEN Floats ELSE IF t \in {"u8", "u16", "u32", "u64"} THEN Ints \ {"min"} ELSE Ints
Pieces == {"a", "b", "sp", "nl", "e", "zh", "emo", "pct", "sl", "q"}
Seqs(S, most) == [i \in 1..RandomElement(0..most) |-> RandomElement(S)]
RandomText(k) == LET s == Seqs(Pieces, RandomElement({1, 2, 3, 12}))
              IN IF RandomElement(1..8) = 1 THEN s \o <<RandomElement({"long", "huge"})>> \o Seqs(Pieces, 2) ELSE s
RandomVal(k) == IF k = "text" THEN RandomText(k)
                ELSE IF SubSeq(k, 1, 2) = "v:" THEN Seqs(Numbers(SubSeq(k, 3, Len(k))), RandomElement({1, 3, 6, 6, 40}))
                ELSE <<RandomElement(Numbers(k))>>
RandomKind(n) == CASE RandomElement(1..5) \in {1, 2} -> "text" [] RandomElement(1..2) = 1 -> RandomElement(Types) [] OTHER -> "v:" \o RandomElement(Types)
\* values are of the kind that is there
KindAt(o, n) == IF Has(st, o, n) THEN st.at[o][n].k ELSE RandomKind(n)
\* in a file that can't be written, values of the same size aren't offered: nothing is promised about what follows
Sized(o, n, v) == st.rw \/ (v # <<>> /\ (~Has(st, o, n) \/ (Len(v) # Len(st.at[o][n].v) /\ st.at[o][n].k # "text")))
Likely(all) == IF \E r \in all : r.res = "ok" THEN CHOOSE r \in all : r.res = "ok" ELSE CHOOSE r \in all : TRUE
Do(op) == st' = (IF "v" \in DOMAIN op /\ op.v = <<>> /\ op.k = "text" THEN st ELSE Likely(Outcomes(st, op)).st) /\ hist' = Append(hist, op)
Step(c) ==
  \E o \in One(Objs), any \in One(Names), h \in One(0..3), there \in One({TRUE, TRUE, FALSE}) :
  \E n \in One(IF there /\ c # 6 /\ DOMAIN st.at[o] # {} THEN DOMAIN st.at[o] ELSE {any}) :
    CASE c \in {1, 2, 3, 4, 5} -> \E k \in {TLCEval(KindAt(o, n))} : \E v \in {TLCEval(RandomVal(k))} :
                IF Sized(o, n, v) THEN Do([a |-> "Write", o |-> o, n |-> n, k |-> k, v |-> v, how |-> h]) ELSE UNCHANGED <<st, hist>>
      [] c = 6 -> \E k \in {TLCEval(RandomKind(n))} : \E v \in {TLCEval(RandomVal(k))} :
                Do([a |-> IF v = <<>> THEN "Create" ELSE RandomElement({"Create", "Add"}), o |-> o, n |-> n, k |-> k, v |-> v, how |-> h])
      [] c \in {7, 8} -> Do([a |-> "Read", o |-> o, n |-> n, k |-> KindAt(o, n), how |-> h])
      [] c = 9 -> Do([a |-> "Exists", o |-> o, n |-> n, how |-> h])
      [] c = 10 -> Do([a |-> "Type", o |-> o, n |-> n, how |-> h])
      [] c = 11 -> \E rw \in One({TRUE, TRUE, FALSE}) : Do([a |-> "Reopen", rw |-> rw, how |-> h])
      [] c = 12 -> Do([a |-> "Flush", how |-> h])
Init == st = Empty /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E c \in One(IF st.rw THEN 1..12 ELSE 1..12) : Step(IF ~st.rw /\ RandomElement(1..4) = 1 THEN 11 ELSE c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
