----------------------------- MODULE MetricsTrace -----------------------------
(* E01.  event: [t, trows, p, prows (labels or rows of scores), names, err, out (name, kind "num"/"nan", v)] *)
EXTENDS TraceJudge, Metrics
MStart(t) == 0
MStep(t, s, e) == 0
MClause(t, s, e) ==
  IF \E i \in 1..Len(e.names) : e.names[i] \notin Known THEN (IF e.err # "" THEN "ok" ELSE "UnknownMetricsAreRejected")
  ELSE IF Len(e.t) # Len(e.p) THEN (IF e.err # "" \/ e.names = <<>> THEN "ok" ELSE "MismatchedLengthsAreRejected")
  ELSE IF Len(e.t) = 0 THEN (IF e.err # "" \/ \A i \in 1..Len(e.out) : e.out[i].kind = "nan" THEN "ok" ELSE "NothingToEvaluateIsUndefined")
  ELSE IF e.err # "" THEN "MatchingLabelsAreEvaluated"
  ELSE LET yt == Labels(e.t, e.trows)  yp == Labels(e.p, e.prows) IN
       IF {e.out[i].name : i \in 1..Len(e.out)} # {e.names[i] : i \in 1..Len(e.names)} THEN "EveryRequestedMetricIsReported"
       ELSE IF \E i \in 1..Len(e.out) : e.out[i].kind # "num" \/ ~Near(e.out[i].v, Value(e.out[i].name, yt, yp)) THEN "MetricEqualsDefinition"
       ELSE "ok"
=============================================================================
