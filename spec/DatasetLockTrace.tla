-------------------------- MODULE DatasetLockTrace --------------------------
(* Judges interleavings of several real processes downloading into one cache.

   Events: run   [p]       process p makes its first step
           enter [p]       p begins to populate its entry (its provider read begins)
           leave [p]       p made its last change to the entry (or gave up reading)
           end   [p, out]  p returned to its caller
           die   [p]       p was killed
           check [name, out, ver, whole]  afterwards, a fresh process asks for the entry
   t.name[p] is the dataset p asks for.                                               *)
EXTENDS TraceJudge

Ps(t) == 1..Len(t.name)
Rivals(t, p) == {q \in Ps(t) : q # p /\ t.name[q] = t.name[p]}

LStart(t) == [active |-> {}, inside |-> {}, rival |-> {}, pop |-> {}]

LClause(t, s, e) ==
  CASE e.k = "enter" ->
         IF Rivals(t, e.p) \cap s.inside # {} THEN "OneProcessPopulatesAnEntryAtATime" ELSE "ok"
    [] e.k = "end" ->
         IF e.out = "busy" THEN
            IF Rivals(t, e.p) = {} THEN "DifferentDatasetsDoNotBlock"
            ELSE IF e.p \notin s.rival THEN "BusyOnlyWhileSomebodyHoldsTheEntry"
            ELSE "ok"
         ELSE IF e.out = "error" THEN "AttemptEndsInDatasetBusyOrProviderError"
         ELSE IF e.out = "notcached" THEN "DownloadMayNotReportNotCached"
         ELSE IF e.out = "hang" THEN "EveryAttemptEnds"
         ELSE IF e.out = "provider" /\ ~t.fail[e.p] THEN "ProviderErrorOnlyWhenTheProviderFails"
         ELSE IF e.out = "ok" /\ ~e.whole THEN "EntryIsCompleteForEveryAttempt"
         ELSE "ok"
    [] e.k = "check" ->
         IF e.out # "ok" THEN "EntryCanBePopulatedAfterwards"
         ELSE IF ~e.whole THEN "FinalEntryIsComplete" ELSE "ok"
    [] OTHER -> "ok"

LStep(t, s, e) ==
  CASE e.k = "run"   -> LET r == Rivals(t, e.p) \cap s.active
                        IN [s EXCEPT !.active = @ \union {e.p},
                                     !.rival = IF r = {} THEN @ ELSE @ \union r \union {e.p}]
    [] e.k = "enter" -> [s EXCEPT !.inside = @ \union {e.p}, !.pop = @ \union {e.p}]
    [] e.k = "leave" -> [s EXCEPT !.inside = @ \ {e.p}]
    [] e.k \in {"end", "die"} -> [s EXCEPT !.inside = @ \ {e.p}, !.active = @ \ {e.p}]
    [] OTHER -> s
=============================================================================
