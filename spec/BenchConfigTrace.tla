---------------------------- MODULE BenchConfigTrace ----------------------------
(* Configurations given to the real code.  t.metrics: names of the known metrics.
   "parse" [fields, secs, unknown, leaves, eff, raised, code]: from_dict was given a configuration;
      fields [p, c, s, v, g]: class, text (for words), value as given and as taken, one for every
      place the format knows inside a section that is there; eff: what the contradictions need.
   "run" [eff, stage, raised, code, loads, sampled, fits, dirs, status]: run_experiment was given one;
      stage "file": its fields are refused (by "parse"), "ok": they are not; eff: what the rules need.
   "text" [parts, env, raised, naming, unset, got]: a placeholder text was read from a file.  *)
EXTENDS BenchConfig, TraceJudge

CStart(t) == 0

SetOf(q) == {q[i] : i \in 1..Len(q)}
Verdict(f, ms) == Accepts(EntryAt[f.p], f.c, f.s, ms)
Composite == {"method.device", "method.model", "search.objective"}

ParseClause(t, e) ==
  LET ms == SetOf(t.metrics)
      fs == SetOf(e.fields)
      no == {f \in fs : Verdict(f, ms) = "no"}
      maybe == {f \in fs : Verdict(f, ms) = "either"}
      sno == {x \in SetOf(e.secs) : SectionOk(x.p, x.c) = "no"}
      smaybe == {x \in SetOf(e.secs) : SectionOk(x.p, x.c) = "either"}
      bad == no # {} \/ sno # {} \/ e.unknown > 0 \/ ~SpaceOk(SetOf(e.leaves))
      contra == Contradictions(e.eff)
      sure == {f \in fs : Verdict(f, ms) = "yes" /\ ~(f.p \in Composite)}
  IN IF e.raised # "" /\ e.raised # "BenchConfigError" THEN "RefusedAsAConfigurationError"
     ELSE IF (bad \/ contra # {}) /\ e.raised = "" THEN
            (IF no # {} THEN (IF \E f \in no : f.c = "absent" THEN "MissingFieldRefused" ELSE "WrongValueRefused")
             ELSE IF sno # {} THEN "WrongSectionRefused" ELSE IF e.unknown > 0 THEN "UnknownKeyRefused"
             ELSE IF bad THEN "SearchSpaceRefused" ELSE "ContradictionRefused")
     ELSE IF e.raised # "" THEN
            (IF ~bad /\ contra = {} /\ maybe = {} /\ smaybe = {} THEN "GoodConfigurationAccepted"
             ELSE IF ~(e.code \in contra \union {"E_BENCH_CONFIG"}) THEN "RefusedForTheRightReason"
             ELSE IF ~bad /\ maybe = {} /\ smaybe = {} /\ ~(e.code \in contra) THEN "RefusedForTheRightReason"
             ELSE "ok")
     ELSE IF \E f \in sure : f.c = "absent" /\ f.g # EntryAt[f.p].dflt THEN "DocumentedDefault"
     ELSE IF \E f \in sure : f.c # "absent" /\ f.g # f.v THEN "TakenAsGiven"
     ELSE "ok"

RunClause(t, e) ==
  LET first == BenchRules(e.eff)
      then == RunRules(e.eff)
      odd == IF e.eff.badid THEN {"", "E_BENCH_RUNTIME"} ELSE {}  \* a step or method nobody knows: its own error
  IN IF e.stage = "file" THEN
        (IF e.raised = "" THEN "BadFileRefused"
         ELSE IF e.loads > 0 THEN "NothingReadForABadFile" ELSE IF e.dirs > 0 THEN "NothingWrittenForABadFile"
         ELSE IF e.fits > 0 THEN "NothingRunForABadFile" ELSE "ok")
     ELSE IF first # {} THEN
        (IF e.status = "success" THEN "BenchmarkRuleEnforced"
         ELSE IF e.loads > 0 THEN "NoDataBeforeBenchmarkRules"
         ELSE IF e.sampled \/ e.fits > 0 THEN "NothingRunAfterARefusal"
         ELSE IF ~(e.code \in first \union odd) THEN "BenchmarkRuleNamed" ELSE "ok")
     ELSE IF then # {} \/ odd # {} THEN
        (IF e.status = "success" THEN "RuleEnforced"
         ELSE IF e.sampled \/ e.fits > 0 THEN "RuleBeforeSampling"
         ELSE IF ~(e.code \in then \union odd) THEN "RuleNamed" ELSE "ok")
     ELSE IF e.status # "success" \/ e.raised # "" \/ e.fits = 0 THEN "GoodConfigurationRuns"
     ELSE "ok"

TextClause(e) ==
  LET names == {x.n : x \in SetOf(e.env)}
      miss == Unset(e.parts, names)
      env == [n \in names |-> (CHOOSE x \in SetOf(e.env) : x.n = n).v]
  IN IF miss # {} THEN (IF e.raised # "ValueError" THEN "UnresolvedPlaceholderRefused"
                        ELSE IF SetOf(e.unset) # miss THEN "UnresolvedPlaceholderNamed" ELSE IF ~e.where THEN "UnresolvedPlaceNamed" ELSE "ok")
     ELSE IF e.raised # "" THEN "PlaceholderResolved"
     ELSE IF e.got # Expand(e.parts, env) THEN "PlaceholderValue" ELSE "ok"

CClause(t, s, e) ==
  CASE e.op = "parse" -> ParseClause(t, e)
    [] e.op = "run" -> RunClause(t, e)
    [] OTHER -> TextClause(e)
CStep(t, s, e) == s
=============================================================================
