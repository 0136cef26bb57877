---------------------------- MODULE LueGroupsMC ----------------------------
(* All histories of a bounded length with two names and two slots *)
EXTENDS LueGroups, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
Names == {"a", "b"}
S2 == {s \in {0, 1} : st.slot[s] # 0}
G2 == {s \in S2 : st.kind[st.slot[s]] = "group"}
Paths == {<<x>> : x \in Names} \cup {<<x, y>> : x \in Names, y \in Names}
Ops == {[a |-> "Root", to |-> 0]}
  \cup {[a |-> a, to |-> to, from |-> g, path |-> p, abs |-> FALSE] : a \in {"OpenGroup", "OpenData"}, to \in {0, 1}, g \in G2, p \in Paths}
  \cup {[a |-> a, to |-> to, from |-> g, path |-> <<x>>] : a \in {"CreateGroup", "CreateData"}, to \in {0, 1}, g \in G2, x \in Names}
  \cup {[a |-> "CreateHard", from |-> g, target |-> t, name |-> x] : g \in G2, t \in S2, x \in Names}
  \cup {[a |-> "RawSoft", from |-> g, name |-> x, abs |-> b, path |-> p] : g \in G2, x \in {y \in Names : \A s \in G2 : ~Has(st, st.slot[s], y)}, b \in BOOLEAN, p \in Paths}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> Empty]
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops : LET r == Apply(st, op, <<>>) IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st]
Spec == Init /\ [][Next]_<<st, last, n>>
Refused == last.res = "err" => st = last.old
\* links are there for good, and lead to what is there
Kept == \A m \in DOMAIN last.old.kind : \A x \in DOMAIN last.old.links[m] : Has(st, m, x) /\ st.links[m][x] = last.old.links[m][x]
\* adding makes unresolved links resolve, perhaps, but what resolves keeps doing so
Monotone == \A m \in DOMAIN last.old.kind : \A x \in DOMAIN last.old.links[m] :
  LET r == Res(last.old, m, <<x>>, Fuel)[1] IN r # 0 => Res(st, m, <<x>>, Fuel)[1] = r
Typed == \A m \in DOMAIN st.kind : /\ GroupNames(st, m) \subseteq ObjectNames(st, m)
                                   /\ ObjectNames(st, m) \subseteq DOMAIN st.links[m]
                                   /\ (\E x \in DOMAIN st.links[m] : TRUE) => Group(st, m)
\* every object is reached from the root
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {st.links[m][x].to : <<m, x>> \in {<<m, x>> \in S \X Names : Has(st, m, x) /\ st.links[m][x].t = "hard"}} IN IF T = S THEN S ELSE Reach(T)
Reached == Reach({1}) = DOMAIN st.kind
=============================================================================
