----------------------------- MODULE LueTextsMC -----------------------------
EXTENDS LueTexts, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
None == 99999
T == {"a", "two", "nul"}
Seqs(S, m) == UNION {[1..k -> S] : k \in 0..m}
Slices == {[k |-> "s", a |-> a, b |-> b, c |-> c] : a \in {None, -2, -1, 0, 1, 2}, b \in {None, -1, 1, 2, 3}, c \in {None, -1, 0, 1, 2}}
Init == /\ n = 0 /\ \E t \in Seqs(T \ NoText, 3) \ {<<>>} : st = [made |-> TRUE, texts |-> t]
        /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> st]
Ops == {[a |-> "Put", at |-> s, texts |-> t, form |-> f] : s \in Slices, t \in Seqs(T, 3), f \in {"U", "numbers"}}
       \cup {[a |-> "PutOne", i |-> i, text |-> "a"] : i \in -4..3} \cup {[a |-> "Expand", texts |-> <<"a">>]}
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops : LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st]
Spec == Init /\ [][Next]_<<st, last, n>>
Stored == \A k \in DOMAIN st.texts : st.texts[k] \notin NoText
Refused == last.res = "err" => st = last.old
Back == (last.op.a = "Put" /\ last.res = "ok") =>
  LET got == Apply(st, [a |-> "Read", at |-> last.op.at]).ret.texts IN
  Len(got) = Len(last.op.texts) => got = last.op.texts
Others == (last.op.a = "Put" /\ last.res = "ok") =>
  LET at == At(st, last.op.at) IN \A p \in DOMAIN st.texts : (\E k \in DOMAIN at : at[k] + 1 = p) \/ st.texts[p] = last.old.texts[p]
=============================================================================
