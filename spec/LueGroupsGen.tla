---------------------------- MODULE LueGroupsGen ----------------------------
(* Random histories of LueGroups *)
EXTENDS LueGroups, Json, IOUtils
VARIABLES st, hist, name, pool
Depth == atoi(IOEnv.DEPTH)

One(S) == {TLCEval(RandomElement(S))}
\* few names, long ones, or many
Names == CASE pool \in {1, 2} -> {"a", "b", "c", "d e", "ext"}
           [] pool = 3 -> {"long", "longer", "huge", "a", ".a", "a.", "ext"}
           [] OTHER -> {"a", "b", "c", "d e", "ext", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "long"}
Most == IF pool = 4 THEN 30 ELSE 14
Used == {s \in Slots : st.slot[s] # 0}
Groups == {s \in Used : st.kind[st.slot[s]] = "group"}
Softs(n) == {x \in DOMAIN st.links[n] : st.links[n][x].t = "soft"}
NrSofts == Cardinality(UNION {{<<n, x>> : x \in Softs(n)} : n \in DOMAIN st.kind})
\* paths that exist, mostly: a walk
RECURSIVE Walk(_, _)
Walk(n, k) ==
  IF k = 0 THEN <<>>
  ELSE LET known == IF Group(st, n) /\ RandomElement(1..6) # 1 THEN DOMAIN st.links[n] ELSE {}
           x == RandomElement(IF known = {} THEN Names ELSE known)
       IN <<x>> \o Walk(IF n = 0 THEN 0 ELSE Res(st, n, <<x>>, Fuel)[1], k - 1)
\* paths that go by few links, or go on forever
Fine(n, p) == LET r == Res(st, n, p, Fuel) IN r[2] > Fuel - 9 \/ r[2] = 0
AllFine(t) == \A n \in DOMAIN t.kind : \A x \in DOMAIN t.links[n] : LET r == Res(t, n, <<x>>, Fuel) IN r[2] > Fuel - 9 \/ r[2] = 0
\* the path an open object is known by
NameAfter(op) ==
  CASE op.a = "Root" -> <<>>
    [] op.a \in {"OpenGroup", "OpenData"} -> (IF op.abs THEN <<>> ELSE name[op.from]) \o op.path
    [] op.a \in {"CreateGroup", "CreateData"} -> name[op.from] \o op.path
    [] op.a = "Copy" -> name[op.from]
    [] OTHER -> name[op.to]
Do(op) == LET r == Apply(st, op, IF op.a = "CreateSoft" THEN name[op.target] ELSE <<>>)
          IN IF AllFine(r.st) /\ ("to" \in DOMAIN op => Len(NameAfter(op)) < 12)
             THEN /\ st' = r.st
                  /\ pool' = pool
                  /\ hist' = Append(hist, op)
                  /\ name' = IF "to" \in DOMAIN op /\ r.res = "ok" THEN [name EXCEPT ![op.to] = NameAfter(op)] ELSE name
             ELSE UNCHANGED <<st, hist, name, pool>>
Skip == UNCHANGED <<st, hist, name, pool>>
Step(c) ==
  IF Groups = {} THEN \E to \in One(Slots) : Do([a |-> "Root", to |-> to])
  ELSE \E to \in One(Slots), from \in One(Groups), any \in One(Used), abs \in One({FALSE, FALSE, TRUE}), nm \in One(Names), k \in One({1, 1, 2, 3}), h \in One(0..2) :
    \E path \in {TLCEval(Walk(IF abs THEN 1 ELSE st.slot[from], k))} :
    LET n == IF abs THEN 1 ELSE st.slot[from] IN
    CASE c \in {1, 2} -> IF Fine(n, path) THEN Do([a |-> "OpenGroup", to |-> to, from |-> from, path |-> path, abs |-> abs, how |-> h]) ELSE Skip
      [] c = 3 -> IF Fine(n, path) THEN Do([a |-> "OpenData", to |-> to, from |-> from, path |-> path, abs |-> abs, how |-> h]) ELSE Skip
      [] c \in {4, 5} -> IF Len(st.kind) > Most THEN Skip ELSE Do([a |-> "CreateGroup", to |-> to, from |-> from, path |-> <<nm>>, how |-> h])
      [] c = 6 -> IF Len(st.kind) > Most \/ RandomElement(1..2) = 1 THEN Skip ELSE Do([a |-> "CreateGroup", to |-> to, from |-> from, path |-> SubSeq(Walk(st.slot[from], 1), 1, 1) \o <<nm>>, how |-> h])
      [] c = 7 -> IF Len(st.kind) > Most THEN Skip ELSE Do([a |-> "CreateData", to |-> to, from |-> from, path |-> <<nm>>, how |-> h])
      [] c = 8 -> IF NrSofts < 7 THEN Do([a |-> "CreateSoft", from |-> from, target |-> any, name |-> nm, how |-> h]) ELSE Skip
      [] c = 9 -> Do([a |-> "CreateHard", from |-> from, target |-> any, name |-> nm, how |-> h])
      [] c = 10 -> IF NrSofts < 7 /\ ~Has(st, st.slot[from], nm) THEN Do([a |-> "RawSoft", from |-> from, name |-> nm, abs |-> abs, path |-> path]) ELSE Skip
      [] c \in {11, 12} -> IF Fine(n, path) THEN Do([a |-> "Contains", from |-> from, path |-> path, abs |-> abs, how |-> h]) ELSE Skip
      [] c \in {13, 14} -> Do([a |-> "Names", from |-> from])
      [] c = 15 -> IF Softs(st.slot[from]) = {} THEN Skip ELSE \E x \in One(Softs(st.slot[from])) : Do([a |-> "Path", from |-> from, name |-> x])
      [] c = 16 -> \E other \in One(Used) : Do([a |-> "Equal", from |-> any, other |-> other])
      [] c = 17 -> Do([a |-> "Copy", from |-> any, to |-> to, how |-> h])
      [] c = 18 -> IF RandomElement(1..4) = 1 THEN Do([a |-> "Reopen"]) ELSE IF RandomElement(1..3) = 1 THEN Do([a |-> "Close", to |-> to]) ELSE Skip
      [] c = 19 -> Do([a |-> "Root", to |-> to])
      [] c = 20 -> Do([a |-> "Names", from |-> from])
      \* groups with many members
      [] c \in 21..30 -> IF pool # 4 \/ Len(st.kind) > Most THEN Skip
                        ELSE \E f \in One({x \in Groups : \A y \in Groups : st.slot[x] <= st.slot[y]}) :
                               Do([a |-> "CreateGroup", to |-> to, from |-> f, path |-> <<nm>>, how |-> h])
Init == st = Empty /\ hist = <<>> /\ name = [s \in Slots |-> <<>>] /\ pool \in 1..4
Next == Len(hist) < Depth /\ \E c \in One(1..IF pool = 4 THEN 30 ELSE 20) : Step(c)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist, name, pool>>
=============================================================================
