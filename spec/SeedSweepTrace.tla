---------------------------- MODULE SeedSweepTrace ----------------------------
(* Sweeps of the real benchmark driver.  t.seeds, t.ff, t.base (leaves of the configuration),
   t.secs, t.leaves (names of the metric leaves, sorted), t.name.
   "alone" [seed, sees]: what a single run with that seed everywhere sees and yields;
   "run" [seed, name, leaves, sees, how, vals, entry]: a run of the sweep, in order of start;
   hash names the configuration recorded as asked for, want the one that was;
   "rec" [seed, ok, vals, entry], "sum" [agg]: records of any kind, and the summary made of them;
   "end" [raised, ecode, code, agg]: the sweep ended; agg is the summary, or none.          *)
EXTENDS SeedSweep, TraceJudge, Memo

NaNv == 1000000000
SetOf(q) == {q[i] : i \in 1..Len(q)}
CStart(t) == [outs |-> <<>>, memo |-> {}, entries |-> <<>>]

Finite(q) == \A i \in 1..Len(q) : q[i] # NaNv
Near(a, b, d) == a - b <= d /\ b - a <= d

\* the statistics of one metric: value x stands for x/8, mean and std are scaled by 1000 and 100
StatClause(q, g) ==
  IF g.count # Len(q) THEN "Count"
  ELSE IF g.values # q THEN "Values"
  ELSE IF ~Finite(q) THEN (IF g.mean # NaNv \/ g.std # NaNv THEN "NaNStaysVisible" ELSE "ok")
  ELSE IF g.mean = NaNv \/ ~Near(g.mean * Len(q), MeanN(q) * 125, Len(q)) THEN "Mean"
  ELSE IF g.min # MinSeq(q) THEN "Minimum"
  ELSE IF g.max # MaxSeq(q) THEN "Maximum"
  ELSE IF g.std = NaNv THEN "Spread"
  ELSE LET nn == Len(q) * Len(q)
           lo == IF g.std > 0 THEN g.std - 1 ELSE 0
       IN IF VarNN(q) * 10000 < lo * lo * nn * 64 \/ VarNN(q) * 10000 > (g.std + 1) * (g.std + 1) * nn * 64 THEN "Spread" ELSE "ok"

AggClause(t, s, a) ==
  LET n == Len(s.outs)
      good == Len(Good(s.outs))
      bad == {c \in 1..Len(t.leaves) : StatClause(Column(s.outs, c), a.metrics[c]) # "ok"}
  IN IF a.requested # t.seeds THEN "RequestedSeeds"
     ELSE IF a.nreq # Len(t.seeds) THEN "RequestedSeeds"
     ELSE IF a.good # good THEN "SuccessCount"
     ELSE IF a.failed # n - good THEN "FailureCount"
     ELSE IF a.status # Status(n, good) THEN "SweepStatus"
     ELSE IF a.entries # SelectSeq(s.entries, LAMBDA x : x.there) THEN "RunEntries"
     ELSE IF good = 0 THEN (IF a.leaves # <<>> THEN "OnlySuccessesAggregated" ELSE "ok")
     ELSE IF a.leaves # t.leaves THEN "EveryMetricAggregated"
     ELSE IF bad # {} THEN StatClause(Column(s.outs, CHOOSE c \in bad : TRUE), a.metrics[CHOOSE c \in bad : TRUE])
     ELSE "ok"

CClause(t, s, e) ==
  CASE e.op = "alone" -> "ok"
    [] e.op = "run" ->
         LET k == Len(s.outs) + 1
         IN IF k > Len(t.seeds) THEN "EverySeedOnce"
            ELSE IF e.seed # t.seeds[k] THEN "EverySeedOnce"
            ELSE IF t.ff /\ \E j \in 1..Len(s.outs) : ~s.outs[j].ok THEN "StopsAtTheFirstFailure"
            ELSE IF e.how # "crash" /\ SetOf(e.leaves) # ForSeed(SetOf(t.base), SetOf(t.secs), [seed |-> e.seedtok, name |-> e.nametok, out |-> e.outtok]) THEN "OnlyTheSeedChanges"
            ELSE IF e.hash # e.want THEN "RecordedConfigIsTheRequested"
            ELSE IF e.how = "ok" /\ ~Agrees(s.memo, e.seed, e.sees) THEN "SameAsAlone"
            ELSE IF e.how # t.plan[k] THEN "OutcomeAsScripted"
            ELSE "ok"
    [] e.op = "end" ->
         LET bad == \E j \in 1..Len(s.outs) : ~s.outs[j].ok
         IN IF t.ff /\ bad
            THEN (IF e.raised = "" THEN "FailFastRaises" ELSE IF Len(s.outs) < Len(t.seeds) /\ e.agg # <<>> THEN "ok" ELSE "ok")
            ELSE IF e.raised # "" THEN "SweepGoesOn"
            ELSE IF Len(s.outs) # Len(t.seeds) THEN "EverySeedOnce"
            ELSE IF (e.code = 0) # ~bad THEN "FailuresReachTheCaller"
            ELSE IF e.agg = <<>> THEN "SummaryWritten"
            ELSE AggClause(t, s, e.agg[1])
    [] e.op = "rec" -> "ok"
    [] e.op = "sum" -> IF e.agg = <<>> THEN "SummaryWritten" ELSE AggClause(t, s, e.agg[1])
    [] e.op = "refused" -> IF e.raised # "ValueError" \/ e.runs # 0 THEN "BadRunCount" ELSE "ok"
    [] OTHER -> "Known"

CStep(t, s, e) ==
  CASE e.op = "alone" -> [s EXCEPT !.memo = Remember(@, e.seed, e.sees)]
    [] e.op = "run" -> [s EXCEPT !.outs = Append(@, [seed |-> e.seed, ok |-> e.how = "ok", vals |-> e.vals]),
                                 !.entries = Append(@, e.entry)]
    [] e.op = "rec" -> [s EXCEPT !.outs = Append(@, [seed |-> e.seed, ok |-> e.ok, vals |-> e.vals]),
                                 !.entries = Append(@, e.entry)]
    [] OTHER -> s
=============================================================================
