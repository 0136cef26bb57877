--------------------------- MODULE LueHandlesGen ---------------------------
(* Random histories of LueHandles *)
EXTENDS LueHandles, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)

Kind(k) == {i \in Slots : Live(st.slot[i]) /\ st.slot[i].k = k}
Groups == {i \in Slots : Live(st.slot[i]) /\ IsGroup(st.slot[i])}
Alive == {i \in Slots : Live(st.slot[i])}
Some == {i \in Slots : st.slot[i].k # "none"}
\* also handles that have been moved from, now and then
From(c) == IF c \in {9, 10, 11} THEN Some ELSE Alive
PathTexts == {Paths[i].t : i \in DOMAIN Paths}
\* paths that lead somewhere, most of the time
Good(g) == {t \in PathTexts : Lookup(st.slot[g], t) # "" \/ RandomElement(1..5) = 1}
NrOps == 17
Cands(c) ==
  CASE c = 1 -> {[a |-> "File", to |-> to, file |-> f] : to \in Slots, f \in {"a", "b"}} \cup {[a |-> "File", to |-> 0, file |-> "c"]}
    [] c \in {2, 3} -> UNION {{[a |-> "Group", to |-> to, from |-> g, path |-> p] : p \in Good(g), to \in Slots} : g \in Groups}
    [] c = 4 -> UNION {{[a |-> "Dataset", to |-> to, from |-> g, path |-> p, how |-> h] : p \in Good(g), to \in Slots, h \in {"open", "new"}} : g \in Groups}
    [] c = 5 -> {[a |-> "Parent", to |-> to, from |-> g] : to \in Slots, g \in {i \in Kind("group") : ~st.slot[i].soft}}
    [] c = 6 -> {[a |-> "Attr", to |-> to, from |-> g, name |-> "x", how |-> h] : to \in Slots, g \in Alive \ (Kind("attr") \cup Kind("ident")), h \in {"of", "new"}}
                \cup {[a |-> "Attr", to |-> to, from |-> g, name |-> "nix", how |-> "new"] : to \in {2}, g \in Alive \ (Kind("attr") \cup Kind("ident"))}
    [] c = 7 -> {[a |-> x, to |-> to, from |-> g] : x \in {"FileId", "AsFile"}, to \in Slots, g \in Alive}
    [] c \in {8, 9} -> {op \in {[a |-> x, to |-> to, from |-> g] : x \in {"Copy", "Move"}, to \in Slots, g \in From(c)} : op.to # op.from}
    [] c = 10 -> {op \in {[a |-> "Assign", to |-> to, from |-> g] : to \in Some, g \in From(c)} : st.slot[op.to].k = st.slot[op.from].k}
    [] c = 11 -> {op \in {[a |-> x, to |-> to, from |-> g] : x \in {"MoveAssign", "Swap"}, to \in Some, g \in From(c)} :
                    op.to # op.from /\ st.slot[op.to].k = st.slot[op.from].k}
    [] c \in {12, 13} -> {[a |-> "Destroy", to |-> to] : to \in Some}
    [] c = 14 -> {[a |-> "Push", from |-> g] : g \in Alive}
    [] c = 15 -> {[a |-> "Erase", at |-> i - 1] : i \in DOMAIN st.vec} \cup {[a |-> "Take", to |-> to, at |-> i - 1] : i \in DOMAIN st.vec, to \in Slots}
    [] c = 16 -> {[a |-> "Insert", at |-> i - 1, from |-> g] : i \in DOMAIN st.vec, g \in Alive}
    [] c = 17 -> IF RandomElement(1..4) = 1 THEN {[a |-> "Clear"]} ELSE {[a |-> "Dup"]}

Init == st = Empty /\ hist = <<>>
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
\* the last operations destroy everything
Last == Depth - 8
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) > Last
           THEN IF Some # {} THEN \E i \in {TLCEval(RandomElement(Some))} : Do([a |-> "Destroy", to |-> i])
                ELSE Do([a |-> "Clear"])
           ELSE LET cs == {c \in 1..NrOps : Cands(c) # {} /\ (c \in {14, 16} => Len(st.vec) < 5)}
                IN \E c \in {TLCEval(RandomElement(cs))} : \E op \in {TLCEval(RandomElement(Cands(c)))} : Do(op)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
