-------------------------- MODULE LueIndexingMC --------------------------
(* All indices of small arrays *)
EXTENDS LueIndexing, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
Comps(m) == {[k |-> "i", v |-> v] : v \in (-m - 1)..m}
            \cup {[k |-> "s", a |-> a, b |-> b, c |-> c] : a \in {None} \cup (-m - 1)..(m + 1), b \in {None} \cup (-m - 1)..(m + 1), c \in {None, -2, -1, 0, 1, 2}}
Some(m) == {[k |-> "i", v |-> v] : v \in {-1, 0}} \cup {[k |-> "s", a |-> a, b |-> b, c |-> c] : a \in {None, 1}, b \in {None, m - 1}, c \in {-1, 1, 2}}
Indices == {<<>>} \cup {<<c>> : c \in Comps(st.shape[1])}
           \cup (IF Len(st.shape) > 1 THEN {<<c, d>> : c \in Some(st.shape[1]), d \in Comps(st.shape[2])} ELSE {})
Vals(s) == {[k |-> "int", v |-> 400], [k |-> "int", v |-> 1200], [k |-> "float", v |-> 403], [k |-> "arr", t |-> "u8", shape |-> s, v |-> 200, q |-> 4],
            [k |-> "arr", t |-> "u8", shape |-> <<1>> \o s, v |-> 204, q |-> 4], [k |-> "arr", t |-> "u8", shape |-> <<2>>, v |-> 208, q |-> 4]}
Init == /\ n = 0
        /\ \E shape \in {<<1>>, <<3>>, <<4>>, <<2, 3>>, <<3, 2>>}, t \in {"u8", "f32"} : st = Apply(Empty, [a |-> "Make", shape |-> shape, t |-> t, base |-> 0]).st
        /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> st]
Next == /\ n < Bound /\ n' = n + 1
        /\ \E ix \in Indices : \E val \in Vals(IF Usable(ix, st.shape) THEN ShapeOf(ix, st.shape) ELSE <<>>) :
             LET op == [a |-> "Set", ix |-> ix, val |-> val]
                 r == Apply(st, op)
             IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st]
Spec == Init /\ [][Next]_<<st, last, n>>
Cells_ == DOMAIN st.cells = 1..Prod(st.shape)
Set == last.op.a = "Set"
Refused == last.res = "err" => st = last.old
\* what is read is what was assigned, in the same order
Read == (Set /\ last.res = "ok") =>
  LET shape == ShapeOf(last.op.ix, st.shape)
      got == Apply(st, [a |-> "Get", ix |-> last.op.ix]).ret.got
  IN /\ got.shape = shape
     /\ Len(got.v) = Prod(shape)
     /\ \A k \in DOMAIN got.v : got.v[k] = Stored(st.t, ValueAt(last.op.val, shape, k - 1))
\* nothing else is changed
Others == (Set /\ last.res = "ok") =>
  LET c == Cells(last.op.ix, st.shape) IN
  /\ \A j, k \in DOMAIN c : j # k => c[j] # c[k]
  /\ \A k \in DOMAIN c : c[k] \in 0..Prod(st.shape) - 1
  /\ \A m \in DOMAIN st.cells : (m - 1) \in {c[k] : k \in DOMAIN c} \/ st.cells[m] = last.old.cells[m]
\* a negative position is the same as the one counted from the start, and a slice that is not reversed is ordered
Order == (Set /\ last.res = "ok" /\ ~Reversed(last.op.ix)) =>
  LET c == Cells(last.op.ix, st.shape) IN \A j, k \in DOMAIN c : j < k => c[j] < c[k]
=============================================================================
