----------------------------- MODULE LueRunsMC -----------------------------
(* All short histories of few variables. What a variable holds is compared with what the history says it holds: its past
   is followed back from variable to variable. *)
EXTENDS LueRuns, IOUtils
VARIABLES st, log
Bound == atoi(IOEnv.BOUND)
V == {"v1", "v2", "v3"}
Init == st = [Empty EXCEPT !.vars["v1"] = New([kind |-> "array", workers |-> "1", ash |-> <<"2", "3">>, psh |-> <<"4", "5">>]), !.vars["v2"] = New([kind |-> "run"])]
        /\ log = <<>>
Ops == {[a |-> x, v |-> v] : x \in {"Start", "Stop", "Drop"}, v \in V}
       \cup {[a |-> "New", v |-> v, kind |-> k, workers |-> "7", ash |-> <<"8", "9">>, psh |-> <<"10", "11">>] : v \in {"v3"}, k \in {"array", "run"}}
       \cup {[a |-> "Add", v |-> v, from |-> w] : v \in V, w \in V} \cup {[a |-> "AddOwn", v |-> v, k |-> 1] : v \in V}
       \cup {[a |-> x, v |-> v, to |-> w] : x \in {"Copy", "Assign", "Move", "MoveAssign", "Slice", "AssignRun"}, v \in V, w \in V}
       \cup {[a |-> "Save", v |-> v, path |-> p] : v \in V, p \in {"f1", "d"}}
Next == Len(log) < Bound /\ \E op \in {o \in Ops : Enabled(st, o)} : st' = Apply(st, op).st /\ log' = Append(log, op)
Spec == Init /\ [][Next]_<<st, log>>
----------------------------------------------------------------------------
\* the run held by v after n events, found by going back in time
RECURSIVE Past(_, _), RunsOf(_, _)
StoppedIn(p, n) == [b |-> p.b, e |-> n]
Past(v, n) ==
  IF n = 0 THEN [b |-> 0, e |-> 0]
  ELSE LET o == log[n] IN
       CASE o.a = "Start" /\ o.v = v -> [b |-> n, e |-> 0]
         [] o.a = "Stop" /\ o.v = v -> StoppedIn(Past(v, n - 1), n)
         [] o.a = "New" /\ o.v = v -> [b |-> 0, e |-> 0]
         [] o.a \in {"Copy", "Assign", "Move", "MoveAssign", "Slice", "AssignRun"} /\ o.to = v -> Past(o.v, n - 1)
         [] OTHER -> Past(v, n - 1)
RunsOf(v, n) ==
  IF n = 0 THEN <<>>
  ELSE LET o == log[n] IN
       CASE o.a = "Add" /\ o.v = v -> RunsOf(v, n - 1) \o <<Past(o.from, n - 1)>>
         [] o.a = "AddOwn" /\ o.v = v -> LET s == RunsOf(v, n - 1) IN s \o <<s[o.k]>>
         [] o.a = "New" /\ o.v = v -> <<>>
         [] o.a \in {"Copy", "Assign", "Move", "MoveAssign"} /\ o.to = v -> RunsOf(o.v, n - 1)
         [] OTHER -> RunsOf(v, n - 1)
Holds == \A v \in V : st.vars[v].kind # "none" =>
           /\ Run(st.vars[v]) = Past(v, Len(log))
           /\ st.vars[v].kind = "array" => st.vars[v].runs = RunsOf(v, Len(log))
\* a run stops after it starts, or has not stopped since
Ordered == \A v \in V : st.vars[v].kind # "none" =>
             \A r \in {Run(st.vars[v])} \cup (IF st.vars[v].kind = "array" THEN {st.vars[v].runs[k] : k \in DOMAIN st.vars[v].runs} ELSE {}) :
                r.e = 0 \/ r.e > r.b
\* a file holds what the experiment was when it was last saved
LastSave(f) == LET S == {n \in DOMAIN log : log[n].a = "Save" /\ log[n].path = f} IN IF S = {} THEN 0 ELSE CHOOSE n \in S : \A m \in S : m <= n
FilesHold == \A f \in Files : LET n == LastSave(f) IN
  IF n = 0 THEN st.files[f].how = "absent"
  ELSE st.files[f].how = "saved" /\ st.files[f].run = Past(log[n].v, n) /\ st.files[f].runs = RunsOf(log[n].v, n)
Counted == st.n = Len(log)
=============================================================================
