----------------------------- MODULE LueTypesMC -----------------------------
(* All types and pairs of them *)
EXTENDS LueTypes, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
Bases == {[b |-> b, t |-> t] : b \in {"native", "std", "be"}, t \in Numeric}
  \cup {[b |-> b, n |-> k] : b \in {"text", "ascii"}, k \in 1..3} \cup {[b |-> "vtext"], [b |-> "compound", n |-> 4], [b |-> "long"]}
Ops == {[a |-> "Make", to |-> to, base |-> b] : to \in 0..1, b \in Bases}
  \cup {op \in {[a |-> a, to |-> to, from |-> from] : a \in {"File", "Memory", "Recode", "Copy"}, to \in 0..1, from \in 0..1} :
          st[op.from].c # "none" /\ (op.a \in {"File", "Memory"} => Mappable(st[op.from]))}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], old |-> Empty]
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops : LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, old |-> st]
Spec == Init /\ [][Next]_<<st, last, n>>
Some == {s \in Slots : st[s].c # "none"}
\* what a type is described by tells numbers and texts apart, and its size and names follow from it
Apart == \A s \in Some : LET d == Describe(st[s]) IN
  /\ d.size > 0
  /\ Cardinality({f \in {"nunsigned", "nsigned", "nfloat", "string"} : d[f]}) <= 1
  /\ d.native = (d.nunsigned \/ d.nsigned \/ d.nfloat)
  /\ d.standard = (d.sunsigned \/ d.ssigned \/ d.sfloat)
Named == \A a, b \in Some : (st[a] # st[b] /\ Describe(st[a]).native /\ Describe(st[b]).native) =>
  (Describe(st[a]).nname # Describe(st[b]).nname /\ Describe(st[a]).sname # Describe(st[b]).sname)
Mapped == last.op.a \in {"File", "Memory", "Recode", "Copy"} => st[last.op.to] = last.old[last.op.from]
=============================================================================
