---------------------------- MODULE LueDataTrace ----------------------------
(* Is a recorded trace of the implementation a behaviour of LueData? An event holds the operation, its outcome and
   what changed in the observed dataset. Histories follow each other; each starts by creating a dataset. *)
EXTENDS LueData, LueDataValid, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l, db, obs
vars == <<l, db, obs>>

TraceInit == l = 1 /\ db = EmptyDb /\ obs = <<>>

Step(ev) == IF ev.op.a = "Validate" THEN OkRet(db, [bad |-> ~Valid(db)]) ELSE Apply(db, ev.op)

Observed(old, ev) == ev.chg @@ [k \in DOMAIN old \ Range(ev.del) |-> old[k]]

\* outcome, returned values, live handles against a freshly opened dataset, and everything observed
RetOK(ev, r) ==
  IF ev.res # "ok" \/ "none" \in DOMAIN r.ret THEN TRUE
  ELSE IF ev.op.a = "Validate" THEN ev.ret.bad = r.ret.bad /\ ev.ret.thrown = r.ret.bad /\ ev.ret.coherent
  ELSE ev.ret = r.ret
Wrong(ev, r, o) ==
  (IF ev.res # r.res THEN {"outcome"} ELSE {})
  \cup (IF ev.res = r.res /\ ~RetOK(ev, r) THEN {"returned"} ELSE {})
  \cup (IF ev.fresh # <<>> THEN {"reopened"} ELSE {})
  \cup (IF o # ShowAll(r.db) THEN {"observed"} ELSE {})
DiffKeys(o, e) == {k \in DOMAIN o \cup DOMAIN e : k \notin DOMAIN o \/ k \notin DOMAIN e \/ o[k] # e[k]}
SubMap(f, S) == [k \in S \cap DOMAIN f |-> f[k]]

TraceNext ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         r == Step(ev)
         old == IF ev.op.a = "Create" THEN <<>> ELSE obs
         o == Observed(old, ev)
         w == Wrong(ev, r, o)
     IN IF w = {} THEN /\ l' = l + 1 /\ db' = r.db /\ obs' = o
        ELSE /\ PrintT(<<"MISMATCH", l, ToJson([line |-> l, wrong |-> w, expected |-> [res |-> r.res, ret |-> r.ret],
                          diff |-> DiffKeys(o, ShowAll(r.db)),
                          exp |-> SubMap(ShowAll(r.db), DiffKeys(o, ShowAll(r.db))),
                          got |-> SubMap(o, DiffKeys(o, ShowAll(r.db)))])>>)
             /\ FALSE

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
