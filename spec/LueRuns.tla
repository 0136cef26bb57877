------------------------------ MODULE LueRuns ------------------------------
(* Runs and experiments that are timed, gathered and saved. A time is represented by the event in which it was recorded:
   a run that was last started in event b and last stopped in event e is [b, e]. Recorded histories contain, per event,
   bounds of the time at which it took place. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Names == {"v1", "v2", "v3", "v4"}
Files == {"f1", "f2"}
Kinds == {"run", "stopwatch", "experiment", "array"}
None == [kind |-> "none"]
Absent == [how |-> "absent"]
Empty == [n |-> 0, lang |-> "cpp", vars |-> [v \in Names |-> None], files |-> [f \in Files |-> Absent], times |-> <<>>, seen |-> <<>>]

Is(st, v, kinds) == st.vars[v].kind \in kinds
Run(v) == [b |-> v.b, e |-> v.e]
Experiments == {"experiment", "array"}
\* what a run, started and stopped, keeps to itself
New(op) == CASE op.kind \in {"run", "stopwatch"} -> [kind |-> op.kind, b |-> 0, e |-> 0]
             [] op.kind = "experiment" -> [kind |-> op.kind, b |-> 0, e |-> 0, workers |-> op.workers, runs |-> <<>>]
             [] OTHER -> [kind |-> op.kind, b |-> 0, e |-> 0, workers |-> op.workers, ash |-> op.ash, psh |-> op.psh, runs |-> <<>>]
Saved(v) == [how |-> "saved", run |-> Run(v), workers |-> v.workers, ash |-> v.ash, psh |-> v.psh, runs |-> v.runs]

OK(st) == [st |-> st, res |-> "ok"]
Err(st) == [st |-> st, res |-> "err"]
Set(st, v, x) == OK([st EXCEPT !.vars[v] = x])
ApplyIn(st, op) ==
  CASE op.a = "Begin" -> OK([st EXCEPT !.lang = op.lang])
    [] op.a \in {"Wait", "Pass", "Adjust"} -> OK(st)   \* time passes; the clock on the wall is put right
    [] op.a = "New" -> Set(st, op.v, New(op))
    [] op.a = "Bad" -> Err(st)            \* asking for what makes no sense
    [] op.a = "Drop" -> Set(st, op.v, None)
    [] op.a = "Start" -> Set(st, op.v, [st.vars[op.v] EXCEPT !.b = st.n, !.e = 0])
    [] op.a = "Stop" -> Set(st, op.v, [st.vars[op.v] EXCEPT !.e = st.n])
    [] op.a = "Add" -> Set(st, op.v, [st.vars[op.v] EXCEPT !.runs = Append(@, Run(st.vars[op.from]))])
    [] op.a = "AddOwn" -> Set(st, op.v, [st.vars[op.v] EXCEPT !.runs = Append(@, @[op.k])])
    [] op.a \in {"Copy", "Assign"} -> Set(st, op.to, st.vars[op.v])
    [] op.a \in {"Move", "MoveAssign"} -> OK([st EXCEPT !.vars[op.to] = st.vars[op.v], !.vars[op.v] = None])
    [] op.a = "Slice" -> Set(st, op.to, [kind |-> "run", b |-> st.vars[op.v].b, e |-> st.vars[op.v].e])
    [] op.a = "AssignRun" -> Set(st, op.to, [st.vars[op.to] EXCEPT !.b = st.vars[op.v].b, !.e = st.vars[op.v].e])
    [] op.a = "Save" -> IF op.path \in Files THEN OK([st EXCEPT !.files[op.path] = Saved(st.vars[op.v])]) ELSE Err(st)
    [] op.a = "Fill" -> OK([st EXCEPT !.files[op.path] = [how |-> "other"]])
    [] op.a = "Remove" -> OK([st EXCEPT !.files[op.path] = Absent])
Apply(st, op) == ApplyIn([st EXCEPT !.n = @ + 1], op)
\* what can be asked for
Enabled(st, op) ==
  CASE op.a \in {"Begin", "Wait", "Pass", "Adjust", "New", "Bad", "Fill", "Remove"} -> TRUE
    [] op.a = "Drop" -> Is(st, op.v, Kinds)
    [] op.a \in {"Start", "Stop"} -> Is(st, op.v, Kinds)
    [] op.a = "Add" -> Is(st, op.v, Experiments) /\ Is(st, op.from, Kinds \ {"stopwatch"})
    [] op.a = "AddOwn" -> Is(st, op.v, Experiments) /\ op.k \in DOMAIN st.vars[op.v].runs
    [] op.a = "Copy" -> Is(st, op.v, Kinds) /\ op.to # op.v
    [] op.a = "Assign" -> Is(st, op.v, Kinds) /\ Is(st, op.to, {st.vars[op.v].kind})
    [] op.a = "Move" -> Is(st, op.v, Kinds) /\ op.to # op.v
    [] op.a = "MoveAssign" -> Is(st, op.v, Kinds) /\ op.to # op.v /\ Is(st, op.to, {st.vars[op.v].kind})
    [] op.a = "Slice" -> Is(st, op.v, Kinds \ {"stopwatch"}) /\ op.to # op.v
    [] op.a = "AssignRun" -> Is(st, op.v, Kinds \ {"stopwatch"}) /\ Is(st, op.to, Kinds \ {"stopwatch"})
    [] op.a = "Save" -> Is(st, op.v, {"array"})
----------------------------------------------------------------------------
(* Recorded times. Of each event is known between which times it took place, in microseconds since the start of the
   history: [t0, t1] by a clock that only moves forward, and [s0, s1] by the clock on the wall *)
\* Never started: unspecified, as the documentation has it. Not stopped since: no more than the time since the start.
Lasts(times, r, us) ==
  CASE r.b = 0 -> TRUE
    [] r.e = 0 -> 0 <= us /\ us <= times[Len(times)].t1 - times[r.b].t0 + 1
    [] OTHER -> 0 <= us /\ times[r.e].t0 - times[r.b].t1 - 1 <= us /\ us <= times[r.e].t1 - times[r.b].t0 + 1
Begins(times, r, us) == r.b = 0 \/ (times[r.b].s0 <= us + 1 /\ us <= times[r.b].s1 + 1)
BeginsIn(times, r, s) == r.b = 0 \/ (times[r.b].s0 \div 1000000 <= s /\ s <= times[r.b].s1 \div 1000000)
\* a run as it is observed: durations in nanoseconds, as text, and in units that are coarser and coarser
RunHolds(times, r, o) ==
  /\ Lasts(times, r, o.us) /\ Begins(times, r, o.start)
  /\ r.b = 0 \/ (o.ms = o.us \div 1000 /\ o.s = o.ms \div 1000)
RunsHold(times, rs, os) == Len(rs) = Len(os) /\ \A k \in DOMAIN rs : RunHolds(times, rs[k], os[k])
\* all pairs of runs and what is observed of them, for the variable x
Pairs(x, o) == {<<Run(x), o.timing>>} \cup (IF "runs" \in DOMAIN x THEN {<<x.runs[k], o.runs[k]>> : k \in DOMAIN x.runs} ELSE {})
VarHolds(times, x, o) ==
  /\ "timing" \in DOMAIN o => RunHolds(times, Run(x), o.timing) /\ ("runs" \in DOMAIN x => RunsHold(times, x.runs, o.runs))
  /\ \A f \in {"workers", "ash", "psh"} \cap DOMAIN x : f \in DOMAIN o /\ o[f] = x[f]
\* durations that were observed are what is saved; others are what is saved within bounds
SavedLasts(st, r, ms) ==
  IF r \in DOMAIN st.seen THEN ms = st.seen[r].us \div 1000
  ELSE CASE r.b = 0 -> TRUE
         [] r.e = 0 -> ms >= 0
         [] OTHER -> 0 <= ms /\ ms <= 2000000 /\ (st.times[r.e].t0 - st.times[r.b].t1 - 1) <= 1000 * (ms + 1) /\ 1000 * ms <= st.times[r.e].t1 - st.times[r.b].t0 + 1
SavedRun(st, r, o) == SavedLasts(st, r, o.duration) /\ BeginsIn(st.times, r, o.start)
FileHolds(st, x, o) ==
  CASE x.how = "absent" -> o.how = "absent"
    [] x.how = "other" -> o.how \in {"other", "same"}
    [] OTHER -> /\ o.how = "saved" /\ o.unit = "millisecond" /\ o.workers = x.workers /\ o.ash = x.ash /\ o.psh = x.psh
                /\ SavedRun(st, x.run, o) /\ Len(o.timings) = Len(x.runs)
                /\ \A k \in DOMAIN x.runs : SavedRun(st, x.runs[k], o.timings[k])
----------------------------------------------------------------------------
Start(ev) == Empty
Judge(st, ev) ==
  IF ev.res = "crash" THEN [st |-> st, wrong |-> {"crash"}, exp |-> <<>>] ELSE
  LET r == Apply(st, ev.op)
      failed == ev.res # r.res
      s1 == [r.st EXCEPT !.times = Append(@, ev.obs.time)]
      present == {v \in Names : s1.vars[v].kind # "none"}
      known == present = DOMAIN ev.obs.vars
      holds == known /\ \A v \in present : VarHolds(s1.times, s1.vars[v], ev.obs.vars[v])
      pairs == IF holds THEN UNION {Pairs(s1.vars[v], ev.obs.vars[v]) : v \in {w \in present : "timing" \in DOMAIN ev.obs.vars[w]}} ELSE {}
      \* a run that was started and stopped always lasts the same
      fixed == {p \in pairs : p[1].b > 0 /\ p[1].e > 0}
      runs == {p[1] : p \in fixed}
      differs == \E p \in fixed : (p[1] \in DOMAIN st.seen /\ st.seen[p[1]] # p[2]) \/ \E q \in fixed : p[1] = q[1] /\ p[2] # q[2]
      seen == [x \in DOMAIN st.seen \cup runs |-> IF x \in runs THEN (CHOOSE p \in fixed : p[1] = x)[2] ELSE st.seen[x]]
      s2 == [s1 EXCEPT !.seen = seen]
      wrong == (IF failed THEN {"outcome"} ELSE {})
               \cup (IF ~holds THEN {"observed"} ELSE IF differs THEN {"changed"} ELSE {})
               \cup {"file " \o f : f \in {g \in Files : ~FileHolds(s2, s1.files[g], ev.obs.files[g])}}
  IN [st |-> s2, wrong |-> wrong, exp |-> [res |-> r.res, vars |-> s1.vars, files |-> s1.files, times |-> s1.times]]
=============================================================================
