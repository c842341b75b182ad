-------------------------- MODULE InductiveRunTrace --------------------------
(* Fits and predictions of real methods, judged against InductiveRun.
   Event [kind |-> "fit", cfg, labels, rows, pred, out, same, err]: rows are the
   predicted probabilities of the test points, pred the predicted labels, out a token for
   the exact predictions, same whether every array given still has its contents.        *)
EXTENDS InductiveRun, TraceJudge

CStart(t) == {}

CClause(t, s, e) ==
  IF e.err # "" THEN "WellFormedDataIsFitted"
  ELSE IF ~e.same THEN "InputsUntouched"
  ELSE IF Len(e.rows) # e.points \/ Len(e.pred) # e.points THEN "OneRowPerPoint"
  ELSE IF \E i \in 1..e.points : ~IsRow(e.rows[i], Len(e.labels)) THEN "ProbabilityRows"
  ELSE IF \E i \in 1..e.points : \A c \in 1..Len(e.labels) : e.labels[c] # e.pred[i] THEN "PredictedAmongLabels"
  ELSE IF \E i \in 1..e.points : ~IsTop(e.rows[i], e.labels, e.pred[i]) THEN "PredictIsTop"
  ELSE IF ~Agrees(s, e.cfg, e.out) THEN "SameSeedSameResult"
  ELSE "ok"

CStep(t, s, e) == Remember(s, e.cfg, e.out)
=============================================================================
