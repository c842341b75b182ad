--------------------------- MODULE AugmentPureTrace ---------------------------
(* A01.  event: [apps: sequence of [plan, ctx, sample, val, rich, order (steps run), steps (steps planned)],
                 kept (global generators), same (input unchanged), err]                                   *)
EXTENDS TraceJudge, Memo, TLC

PStart(t) == {}
Key(a) == a.plan \o "/" \o a.ctx \o "/" \o a.sample
Apps(e) == {e.apps[i] : i \in 1..Len(e.apps)}
PStep(t, s, e) == s \union {[key |-> Key(a), val |-> a.val, what |-> a.plan \o "/" \o a.sample, ctx |-> a.ctx, rich |-> a.rich] : a \in Apps(e)}
All(t, s, e) == PStep(t, s, e)

PClause(t, s, e) ==
  IF e.err # "" THEN "ValidPlansAreApplied"
  ELSE IF ~e.kept THEN "GlobalGeneratorsUntouched"
  ELSE IF ~e.same THEN "InputUntouched"
  ELSE IF \E a \in Apps(e) : a.order # a.steps THEN "StepsInPlanOrder"
  ELSE LET m == All(t, s, e) IN
    IF \E a \in Apps(e) : ~Agrees(m, Key(a), a.val) THEN "FunctionOfSeedEpochSamplePlan"
    ELSE IF \E a \in Apps(e) : a.rich /\ \E b \in m : b.what = a.plan \o "/" \o a.sample /\ b.ctx # a.ctx /\ b.val = a.val THEN "FreshDrawsPerContext"
    ELSE "ok"
=============================================================================
