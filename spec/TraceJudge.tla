---------------------------- MODULE TraceJudge ----------------------------
(* Judges recorded behaviours of the implementation against a specification.

   A trace file has one JSON object per line: [id, ..., ev |-> sequence of events].
   Every trace is one initial state; its events are consumed in order.  The
   specification supplies (through the .cfg) three operators:

     Start(t)         the specification's state before the first event
     Clause(t, s, e)  "ok", or the name of the clause that event e breaks in s
     Step(t, s, e)    the specification's state after e

   Each trace ends in exactly one printed verdict <<"V", trace, events, clause>>,
   so verdicts are total: a missing one is a failure of the machinery.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Start(_), Clause(_, _, _), Step(_, _, _)

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, st, verdict
vars == <<tid, l, st, verdict>>

Init == /\ tid \in 1..Len(Traces)
        /\ l = 0
        /\ st = Start(Traces[tid])
        /\ verdict = "run"

Next ==
  /\ verdict = "run"
  /\ LET t == Traces[tid] IN
     IF l = Len(t.ev)
     THEN /\ PrintT(<<"V", tid, l, "ok">>)
          /\ verdict' = "ok" /\ UNCHANGED <<tid, l, st>>
     ELSE LET e == t.ev[l + 1]
              c == Clause(t, st, e)
          IN IF c = "ok"
             THEN l' = l + 1 /\ st' = Step(t, st, e) /\ UNCHANGED <<tid, verdict>>
             ELSE /\ PrintT(<<"V", tid, l + 1, c>>)
                  /\ verdict' = c /\ UNCHANGED <<tid, l, st>>

Spec == Init /\ [][Next]_vars
=============================================================================
