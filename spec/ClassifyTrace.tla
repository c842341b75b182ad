---------------------------- MODULE ClassifyTrace ----------------------------
(* Histories of fit and predict on the real classifiers, judged against Classify.
   "fit": labels, classes, n, ns, nc (reported sizes), same (inputs untouched), err, src.
   "ask": pred, proba, scores (<<>> when there are none), key (configuration, training rows,
   label order, seed and query), out (answer in class positions), dist, wt, k for nearest
   neighbours, margin, same, err.                                                        *)
EXTENDS Classify, TraceJudge

CStart(t) == [memo |-> {}, labels |-> <<>>]

CClause(t, s, e) ==
  IF e.err # "" THEN "Works"
  ELSE IF ~e.same THEN "InputsUntouched"
  ELSE IF e.kind = "fit"
  THEN (IF e.classes # ClassList(e.labels) THEN "ClassesSorted"
        ELSE IF e.ns # Len(e.labels) \/ e.nc # Len(ClassList(e.labels)) THEN "ReportedSizes"
        ELSE "ok")
  ELSE LET cl == ClassList(s.labels)
           C == Len(cl)
           n == Len(e.pred)
       IN IF n # e.n THEN "OneAnswerPerRow"
          ELSE IF \E i \in 1..n : e.pred[i] \notin Range(cl) THEN "AnswersTrainedLabels"
          ELSE IF e.proba # <<>> /\ (Len(e.proba) # n \/ \E i \in 1..n : ~RowOfUnit(e.proba[i], C)) THEN "ProbabilityRows"
          ELSE IF e.proba # <<>> /\ e.margin >= 0 /\ \E i \in 1..n : ~AnswersBest(e.proba[i], cl, e.pred[i], e.margin) THEN "AgreesWithProbability"
          ELSE IF Len(e.scores) # n \/ \E i \in 1..n : Len(e.scores[i]) # C THEN "ScoreShape"
          ELSE IF e.margin >= 0 /\ \E i \in 1..n : ~AnswersBest(e.scores[i], cl, e.pred[i], e.margin) THEN "AgreesWithScores"
          ELSE IF e.wt = "uniform" /\ \E i \in 1..n : ~UniformVote(e.dist[i], s.labels, cl, e.k, e.proba[i]) THEN "NeighbourVote"
          ELSE IF e.wt = "distance" /\ \E i \in 1..n : ~DistanceVote(e.dist[i], s.labels, cl, e.k, e.proba[i]) THEN "NeighbourVote"
          ELSE IF ~Agrees(s.memo, e.key, e.out) THEN "SameFitSameAnswer"
          ELSE "ok"

CStep(t, s, e) ==
  IF e.kind = "fit" THEN [s EXCEPT !.labels = e.labels]
  ELSE [s EXCEPT !.memo = Remember(s.memo, e.key, e.out)]
=============================================================================
