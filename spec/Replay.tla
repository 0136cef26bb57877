------------------------------- MODULE Replay -------------------------------
(* Recorded histories against a specification. Judge(st, ev) tells what the specification makes of an event: the state
   after it, and what is wrong about what was recorded (nothing, if the event is a behaviour of the specification). *)
EXTENDS Sequences, Naturals, TLC, Json

CONSTANTS Trace, Start(_), Judge(_, _)
VARIABLES l, st

TraceInit == l = 1 /\ st = <<>>

TraceNext ==
  /\ l <= Len(Trace)
  /\ LET ev == Trace[l]
         j == Judge(IF ev.i = 1 THEN Start(ev) ELSE st, ev)
     IN IF j.wrong = {} THEN l' = l + 1 /\ st' = j.st
        ELSE /\ PrintT(<<"MISMATCH", l, ToJson([line |-> l, wrong |-> j.wrong, expected |-> j.exp])>>)
             /\ FALSE

TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
