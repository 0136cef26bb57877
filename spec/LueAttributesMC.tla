--------------------------- MODULE LueAttributesMC ---------------------------
(* All histories of a bounded length with a few names and values *)
EXTENDS LueAttributes, IOUtils
VARIABLES st, last, wrote, n
Bound == atoi(IOEnv.BOUND)
O2 == {"root", "d"}
N2 == {"n", "m"}
Vals == {[k |-> "i32", v |-> <<"1">>], [k |-> "i32", v |-> <<"7">>], [k |-> "text", v |-> <<>>], [k |-> "text", v |-> <<"a", "b">>]}
Ops == {[a |-> a, o |-> o, n |-> m, k |-> x.k, v |-> x.v] : a \in {"Write", "Create"}, o \in O2, m \in N2, x \in Vals}
  \cup {[a |-> a, o |-> o, n |-> m] : a \in {"Read", "Exists"}, o \in O2, m \in N2}
  \cup {[a |-> "Reopen", rw |-> b] : b \in BOOLEAN}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], res |-> "ok", ret |-> <<>>, old |-> Empty] /\ wrote = <<>>
Next == /\ n < Bound /\ n' = n + 1
        /\ \E op \in Ops : \E r \in Outcomes(st, op) :
             /\ st' = r.st
             /\ last' = [op |-> op, res |-> r.res, ret |-> r.ret, old |-> st]
             /\ wrote' = IF op.a \in {"Write", "Create"} /\ r.res = "ok" THEN Append(wrote, op) ELSE wrote
Spec == Init /\ [][Next]_<<st, last, wrote, n>>
Refused == last.res = "err" => st = last.old
\* the last write is what is read
Lasts(o, m) == {i \in DOMAIN wrote : wrote[i].o = o /\ wrote[i].n = m}
Reads == (last.op.a = "Read" /\ last.res = "ok") =>
  LET s == Lasts(last.op.o, last.op.n) IN s # {} /\ LET i == CHOOSE i \in s : \A j \in s : j <= i IN last.ret.val = [k |-> wrote[i].k, v |-> wrote[i].v]
Present == \A o \in O2, m \in N2 : Has(st, o, m) <=> Lasts(o, m) # {}
Others == last.op.a \in {"Write", "Create"} =>
  \A o \in O2, m \in N2 : (o # last.op.o \/ m # last.op.n) => (Has(st, o, m) <=> Has(last.old, o, m)) /\ (Has(st, o, m) => st.at[o][m] = last.old.at[o][m])
=============================================================================
