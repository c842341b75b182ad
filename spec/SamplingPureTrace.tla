------------------------- MODULE SamplingPureTrace -------------------------
(* Judges sequences of sampling calls.  event:
     ds      dataset identity          split   the split and policy part of the plan (a token)
     lab     labelling part (token)    imb     imbalance part (token), to: "none"|"train"|"labeled"
     seed    err ("" or the error)     fp      split identity
     all     digest of everything the result holds except the creation time
     tr, va, te, la   index sequences  glob    the process-wide generators are as before the call
     again   the plan survives as_dict/from_dict                                              *)
EXTENDS Memo, TraceJudge

Set(q) == {q[i] : i \in 1..Len(q)}
SameKey(a, b) == a.ds = b.ds /\ a.split = b.split /\ a.lab = b.lab /\ a.imb = b.imb /\ a.seed = b.seed

VStart(t) == <<>>
VStep(t, s, e) == Append(s, e)
VClause(t, s, e) ==
  LET old == {s[i] : i \in 1..Len(s)}
      same == {o \in old : SameKey(o, e)}
      base == {o \in old : o.ds = e.ds /\ o.split = e.split /\ o.seed = e.seed /\ o.err = ""}
  IN
  IF ~e.glob THEN "GlobalGeneratorsUntouched"
  ELSE IF ~e.again THEN "PlanSurvivesSerialisation"
  ELSE IF \E o \in same : o.err # e.err THEN "SameCallSameOutcome"
  ELSE IF \E o \in same : o.all # e.all THEN "SameCallSameSplit"
  ELSE IF e.err # "" THEN "ok"
  ELSE IF \E o \in same : o.fp # e.fp THEN "SameCallSameIdentity"
  ELSE IF \E o \in old \ same : o.err = "" /\ o.fp = e.fp THEN "IdentityNamesOneSplit"
  ELSE IF \E o \in base : o.va # e.va \/ o.te # e.te THEN "SplitPartFixesValAndTest"
  ELSE IF \E o \in base : o.to # "train" /\ e.to # "train" /\ o.tr # e.tr THEN "SplitPartFixesTrain"
  ELSE IF \E o \in base : o.to = "train" /\ e.to = "train" /\ o.imb = e.imb /\ o.tr # e.tr THEN "LabellingDoesNotMoveTrain"
  ELSE IF \E o \in base : o.to # "train" /\ ~(Set(e.tr) \subseteq Set(o.tr)) THEN "ImbalanceOnlyRemoves"
  ELSE IF \E o \in base : e.to # "train" /\ ~(Set(o.tr) \subseteq Set(e.tr)) THEN "ImbalanceOnlyRemoves"
  ELSE IF \E o \in base : o.lab = e.lab /\ o.to = "none" /\ e.to = "labeled" /\ ~(Set(e.la) \subseteq Set(o.la)) THEN "ImbalanceOnlyRemovesLabels"
  ELSE "ok"
=============================================================================
