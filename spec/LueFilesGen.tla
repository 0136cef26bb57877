---------------------------- MODULE LueFilesGen ----------------------------
(* Random histories of LueFiles *)
EXTENDS LueFiles, Json, IOUtils
VARIABLES st, hist
Depth == atoi(IOEnv.DEPTH)
Python == IOEnv.FOCUS = "Y05"

One(S) == {TLCEval(RandomElement(S))}
How == 0..2
FreeSlots == {s \in Slots : ~IsOpen(st, s)}
Used == {s \in Slots : IsOpen(st, s)}
\* opening read-only what is open for writing shares the way it was opened: not asked
Openable(p, rw) == LET i == At(st, p) IN i = 0 \/ rw \/ Writers(st, i) = {}
Busy(p) == At(st, p) # 0 /\ OpenOf(st, At(st, p)) # {}
Cands(c) ==
  CASE c \in {1, 2} -> {[a |-> "Create", to |-> s, path |-> p, how |-> h, lvl |-> l, desc |-> d] :
                   s \in FreeSlots, p \in Paths \cup (IF RandomElement(1..5) = 1 THEN BadPaths ELSE {}), h \in One(How), l \in {"h5", "dm"}, d \in One(BOOLEAN)}
    [] c = 3 -> IF Python THEN {} ELSE {[a |-> "CreateMem", to |-> s, path |-> p, how |-> h, lvl |-> l, desc |-> d] :
                   s \in FreeSlots, p \in Paths, h \in One(How), l \in {"h5", "dm"}, d \in One(BOOLEAN)}
    [] c \in {4, 5, 6} -> {op \in {[a |-> "Open", to |-> s, path |-> p, how |-> h, lvl |-> l, rw |-> w] :
                   s \in FreeSlots, p \in Paths \cup (IF RandomElement(1..5) = 1 THEN BadPaths ELSE {}), h \in One(How), l \in {"h5", "dm"}, w \in BOOLEAN} :
                     Openable(op.path, op.rw)}
    [] c = 7 -> {op \in {[a |-> "Add", from |-> s, name |-> n, uni |-> u] : s \in Used, n \in {"x", "y", "z"}, u \in BOOLEAN} :
                   op.uni => st.open[op.from].lvl = "dm"}
    [] c = 8 -> {[a |-> "Mark", from |-> s, mark |-> m] : s \in {x \in Used : st.open[x].rw \/ Content(st, x).mark = 0}, m \in 1..3}
    [] c = 9 -> {[a |-> "Flush", from |-> s] : s \in Used}
    [] c \in {10, 11} -> {[a |-> "Close", from |-> s] : s \in Used}
    [] c = 12 -> {[a |-> "Remove", path |-> p, how |-> h, lvl |-> l] :
                   p \in Paths \cup (IF RandomElement(1..5) = 1 THEN {"nodir/x"} ELSE {}), h \in One(How), l \in {"h5", "dm"}}
    [] c = 13 -> {[a |-> x, path |-> p, how |-> h, lvl |-> l] : p \in Paths \cup BadPaths, h \in One(How), l \in {"h5", "dm"}, x \in One({"Exists", "Valid"})}
    [] c = 14 -> IF RandomElement(1..2) = 1 THEN {}
                 ELSE {[a |-> "Text", path |-> p, how |-> h, kind |-> k] : p \in {q \in Paths : ~Busy(q)}, h \in One(How), k \in {"text"}}
                      \cup {[a |-> "Cut", path |-> p, how |-> h] : p \in {q \in Paths : ~Busy(q) /\ At(st, q) # 0}, h \in One(How)}
    \* ways of opening that do not exist
    [] c = 15 -> IF ~Python THEN {}
                 ELSE {[a |-> "OpenBad", path |-> p, how |-> h, lvl |-> l, mode |-> m] :
                         p \in Paths, h \in One(How), l \in {"h5", "dm"}, m \in One({"", "a", "rw", "wr", "R", "W", "r+", "w ", "x"})}
Init == st = Empty /\ hist = <<>>
Do(op) == st' = Apply(st, op).st /\ hist' = Append(hist, op)
Next == /\ Len(hist) < Depth
        /\ IF Len(hist) > Depth - 5
           THEN IF Used # {} THEN \E s \in One(Used) : Do([a |-> "Close", from |-> s]) ELSE Do([a |-> "Exists", path |-> "p0", how |-> 0, lvl |-> "h5"])
           ELSE LET cs == {c \in 1..15 : Cands(c) # {}}
                IN \E c \in One(cs) : \E k \in {TLCEval(Cands(c))} : IF k = {} THEN UNCHANGED <<st, hist>> ELSE \E op \in One(k) : Do(op)
Emit == IF Len(hist) = Depth THEN PrintT("HIST " \o ToJson(hist)) ELSE TRUE
Spec == Init /\ [][Next]_<<st, hist>>
=============================================================================
