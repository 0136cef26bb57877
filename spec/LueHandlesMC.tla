---------------------------- MODULE LueHandlesMC ----------------------------
(* All histories of a bounded length with three slots: what is released, and when *)
EXTENDS LueHandles, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
S3 == 0..2
Alive == {i \in S3 : Live(st.slot[i])}
Groups == {i \in Alive : IsGroup(st.slot[i])}
Some == {i \in S3 : st.slot[i].k # "none"}
Ops == {[a |-> "File", to |-> i, file |-> f] : i \in S3, f \in {"a", "b", "c"}}
  \cup {[a |-> "Group", to |-> i, from |-> g, path |-> p] : i \in S3, g \in Groups, p \in {"g", "l/s", "nix", "/g"}}
  \cup {[a |-> "Dataset", to |-> i, from |-> g, path |-> p] : i \in S3, g \in Groups, p \in {"d", "g/m"}}
  \cup {[a |-> "Attr", to |-> i, from |-> g, name |-> "x"] : i \in S3, g \in Groups}
  \cup {[a |-> x, to |-> i, from |-> g] : x \in {"FileId", "AsFile"}, i \in S3, g \in Alive}
  \cup {op \in {[a |-> x, to |-> i, from |-> g] : x \in {"Copy", "Move", "Swap"}, i \in S3, g \in Alive} :
          op.to # op.from /\ (op.a = "Swap" => st.slot[op.to].k = st.slot[op.from].k)}
  \cup {[a |-> "Assign", to |-> i, from |-> i] : i \in Alive}
  \cup {[a |-> "Destroy", to |-> i] : i \in Some}
  \cup (IF Len(st.vec) < 2 THEN {[a |-> "Push", from |-> i] : i \in Alive} ELSE {})
  \cup {[a |-> "Erase", at |-> i - 1] : i \in DOMAIN st.vec}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> Empty]
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops :
          LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st]
Spec == Init /\ [][Next]_<<st, last, n>>
Refused == last.res = "err" => st = last.old
\* every handle shares its token with handles to the same object only
Shared == \A g, h \in Handles(st) : g.tok = h.tok => (SameObject(g, h) /\ g.fs = h.fs)
\* nothing is held open that no handle is to; and as long as a handle is there, its file is not closed
Held_ == /\ (Handles(st) = {} => /\ \A k \in DOMAIN Open(st) : Open(st)[k] = 0
                                 /\ Free(st, "a") /\ Free(st, "b"))
         /\ \A h \in Handles(st) : ~Free(st, h.file)
\* copying, moving, assigning and swapping opens nothing, and releases only what was in the target
NoRelease == last.op.a \in {"Copy", "Move", "Swap", "Assign", "Push"} =>
  {h.tok : h \in Handles(st)} \subseteq {h.tok : h \in Handles(last.old)}
Keeps == last.op.a \in {"Swap", "Push", "Assign"} => {h.tok : h \in Handles(st)} = {h.tok : h \in Handles(last.old)}
=============================================================================
