----------------------------- MODULE LueFilesMC -----------------------------
EXTENDS LueFiles, IOUtils
VARIABLES st, last, n
Bound == atoi(IOEnv.BOUND)
S2 == {0, 1}
P2 == {"p0", "p1"}
FreeSlots == {s \in S2 : ~IsOpen(st, s)}
Used == {s \in S2 : IsOpen(st, s)}
Ops == {[a |-> "Create", to |-> s, path |-> p, how |-> 0, lvl |-> l, desc |-> FALSE] : s \in FreeSlots, p \in P2 \cup {"dir"}, l \in {"h5", "dm"}}
  \cup {[a |-> "CreateMem", to |-> s, path |-> p, how |-> 0, lvl |-> "h5", desc |-> FALSE] : s \in FreeSlots, p \in P2}
  \cup {op \in {[a |-> "Open", to |-> s, path |-> p, how |-> 0, lvl |-> l, rw |-> w] : s \in FreeSlots, p \in P2, l \in {"h5", "dm"}, w \in BOOLEAN} :
          op.rw \/ At(st, op.path) = 0 \/ Writers(st, At(st, op.path)) = {}}
  \cup {[a |-> "Add", from |-> s, name |-> m, uni |-> FALSE] : s \in Used, m \in {"x"}}
  \cup {[a |-> "Close", from |-> s] : s \in Used}
  \cup {[a |-> "Remove", path |-> p] : p \in P2}
  \cup {[a |-> "Text", path |-> p] : p \in {q \in P2 : At(st, q) = 0 \/ OpenOf(st, At(st, q)) = {}}}
Init == st = Empty /\ n = 0 /\ last = [op |-> [a |-> "none"], res |-> "ok", old |-> Empty]
Next == n < Bound /\ n' = n + 1 /\ \E op \in Ops :
          LET r == Apply(st, op) IN st' = r.st /\ last' = [op |-> op, res |-> r.res, old |-> st]
Spec == Init /\ [][Next]_<<st, last, n>>
Refused == last.res = "err" => st = last.old
\* what is on disk under a path name changes by creating, removing or replacing it, or by way of a handle for writing
Changes == \A p \in P2 : LET i == At(last.old, p) IN
  (i # 0 /\ At(st, p) = i /\ st.ino[i] # last.old.ino[i]) => (last.op.a = "Create" \/ (last.op.a = "Add" /\ last.old.open[last.op.from].rw /\ ~last.old.open[last.op.from].mem))
\* one writer or many readers
Exclusive == \A i \in DOMAIN st.ino : Writers(st, i) = {} \/ Writers(st, i) = OpenOf(st, i)
\* a file in memory is under no path name
Memory == \A s \in Used : st.open[s].mem => \A p \in Paths : st.dir[p] # st.open[s].ino
NewIsEmpty == (last.op.a \in {"Create", "CreateMem"} /\ last.res = "ok") => Content(st, last.op.to) = Blank(last.op.lvl = "dm", FALSE)
OpenIsThere == (last.op.a = "Open" /\ last.res = "ok") => Content(st, last.op.to) = last.old.ino[last.old.dir[last.op.path]].c
=============================================================================
