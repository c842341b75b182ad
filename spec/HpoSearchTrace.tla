---------------------------- MODULE HpoSearchTrace ----------------------------
(* Whole runs of the benchmark driver with a search, judged call by call.
   The trace carries what the configuration asks for: base (the method's parameter leaves),
   patches (leaves per trial, in order), params (the trials' own tokens), repeats, dir, runseed,
   profile/explicit (limits), split/reports, scores[trial][repeat] is what the scripted metric
   will answer (t.scores[k][r]); failat = <<trial, repeat>> where the method raises (0,0: never).
   Events, in order: "fit" [seed, params], "score" [y: the labels it was asked about],
   then "trial" lines of the record, "summary", "final" (the configuration left behind), "result". *)
EXTENDS HpoSearch, TraceJudge, Memo

SetOf(s) == {s[i] : i \in 1..Len(s)}
Bare(s) == {[id |-> x.id, t |-> x.t, v |-> x.v, tok |-> x.tok] : x \in s}

CStart(t) == [fits |-> 0, scores |-> 0, recs |-> 0, seeds |-> {}, memo |-> {}, split |-> "?", reps |-> 0]

NTr(t) == Len(t.patches)
Need(t) == NTr(t) * t.repeats
TrialOf(t, n) == ((n - 1) \div t.repeats) + 1
RepOf(t, n) == ((n - 1) % t.repeats) + 1
Fails(t) == t.failat[1] # 0
\* the number of the fit that raises; 0: none; the final run's is Need + 1
FailFit(t) == IF ~Fails(t) THEN 0 ELSE IF t.failat[1] > NTr(t) THEN Need(t) + 1 ELSE (t.failat[1] - 1) * t.repeats + t.failat[2]
DoneTrials(t) == IF Fails(t) /\ t.failat[1] <= NTr(t) THEN t.failat[1] - 1 ELSE NTr(t)
RR(t) == Resolve(t.profile, t.explicit)
Totals(t) == [k \in 1..NTr(t) |-> Total(t.scores[k])]
Win(t) == Winner(Totals(t), t.dir)
Scaled(t, k) == IF Totals(t)[k] = NaN THEN NaN ELSE (Totals(t)[k] * 12) \div t.repeats

FinalParams(t) == WorksWith(SetOf(t.base), SetOf(t.patches[Win(t)]), RR(t))

FitClause(t, s, e) ==
  LET n == s.fits + 1
  IN IF FailFit(t) # 0 /\ n > FailFit(t) THEN "FailureEndsTheRun"
     ELSE IF n > Need(t) + 1 THEN "NoExtraFits"
     ELSE IF \E x \in SetOf(e.params) : ~Within(x, RR(t)) THEN "TrialsWithinLimits"
     ELSE IF n <= Need(t)
     THEN (IF Bare(SetOf(e.params)) # Bare(WorksWith(SetOf(t.base), SetOf(t.patches[TrialOf(t, n)]), RR(t))) THEN "TrialParameters"
           ELSE IF e.seed \in s.seeds THEN "SeedsDiffer"
           ELSE "ok")
     ELSE IF Bare(SetOf(e.params)) # Bare(FinalParams(t)) THEN "FinalIsTheWinner"
     ELSE "ok"

ScoreClause(t, s, e) ==
  IF s.scores < Need(t)
  THEN (IF s.fits # s.scores + 1 THEN "ScoredOncePerFit"
        ELSE IF e.n # s.fits THEN "ScoresItsOwnFit"
        ELSE IF e.y # t.labels[t.split] THEN "ScoredOnTheObjectiveSplit"
        ELSE "ok")
  ELSE IF s.reps + 1 > Len(t.reports) THEN "ReportsTheSplits"
  ELSE IF e.y # t.labels[t.reports[s.reps + 1]] THEN "ReportsTheSplits"
  ELSE "ok"

TrialClause(t, s, e) ==
  LET k == s.recs + 1
  IN IF k > DoneTrials(t) THEN "RecordsCompletedTrials"
     ELSE IF e.index # k - 1 THEN "RecordedInOrder"
     ELSE IF e.params # t.params[k] THEN "RecordedParameters"
     ELSE IF Bare(SetOf(e.patch)) # Bare(SetOf(t.patches[k])) THEN "RecordedParameters"
     ELSE IF e.values # t.scores[k] THEN "RecordedScores"
     ELSE IF e.value # Scaled(t, k) THEN "MeanOverRepeats"
     ELSE IF e.split # t.split \/ e.metric # t.metric THEN "RecordedObjective"
     ELSE "ok"

CClause(t, s, e) ==
  CASE e.op = "fit" -> FitClause(t, s, e)
    [] e.op = "seed" -> \* across runs: the seed of a labelled use, given the run's seed
         IF ~Agrees(s.memo, e.key, e.v) THEN "SeedsRepeat" ELSE "ok"
    [] e.op = "score" -> ScoreClause(t, s, e)
    [] e.op = "trial" -> TrialClause(t, s, e)
    [] e.op = "summary" ->
         IF s.recs # DoneTrials(t) THEN "EveryTrialRecorded"
         ELSE IF Fails(t) /\ t.failat[1] <= NTr(t) THEN (IF e.has THEN "NoWinnerWithoutTrials" ELSE "ok")
         ELSE IF ~e.has THEN "SummaryWritten"
         ELSE IF e.best # Win(t) - 1 THEN "BestTrialWins"
         ELSE IF e.score # Scaled(t, Win(t)) THEN "BestScore"
         ELSE IF e.params # t.params[Win(t)] THEN "BestParameters"
         ELSE IF Bare(SetOf(e.patch)) # Bare(SetOf(t.patches[Win(t)])) THEN "BestParameters"
         ELSE IF e.n # NTr(t) THEN "TrialCount"
         ELSE "ok"
    [] e.op = "final" ->
         IF Fails(t) /\ t.failat[1] <= NTr(t) THEN "ok"
         ELSE IF Bare(SetOf(e.params)) # Bare(FinalParams(t)) THEN "LeavesTheWinnersConfig"
         ELSE IF e.rest # t.rest THEN "RestOfConfigKept"
         ELSE IF e.ran # e.written THEN "ReportMatchesConfig"
         ELSE "ok"
    [] e.op = "result" ->
         IF FailFit(t) = 0
         THEN (IF e.status # "success" \/ e.raised # "" \/ e.code # 0 THEN "Succeeds"
               ELSE IF s.fits # Need(t) + 1 THEN "EveryTrialRuns"
               ELSE IF s.scores # Need(t) + Len(t.reports) THEN "EveryTrialScored"
               ELSE "ok")
         ELSE IF e.status # "failed" THEN "FailureIsReported"
         ELSE IF ~e.names THEN "FailureIsNamed"
         ELSE IF t.failfast /\ e.raised # t.error THEN "FailFastRaises"
         ELSE IF ~t.failfast /\ (e.raised # "" \/ e.code = 0) THEN "FailureCode"
         ELSE IF s.fits # FailFit(t) THEN "FailureEndsTheRun"
         ELSE "ok"
    [] OTHER -> "Known"

CStep(t, s, e) ==
  CASE e.op = "fit" -> [s EXCEPT !.fits = @ + 1, !.seeds = @ \union {e.seed}]
    [] e.op = "score" -> IF s.scores < Need(t) THEN [s EXCEPT !.scores = @ + 1] ELSE [s EXCEPT !.scores = @ + 1, !.reps = @ + 1]
    [] e.op = "trial" -> [s EXCEPT !.recs = @ + 1]
    [] e.op = "seed" -> [s EXCEPT !.memo = Remember(@, e.key, e.v)]
    [] OTHER -> s
=============================================================================
