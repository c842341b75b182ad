----------------------------- MODULE LimitsTrace -----------------------------
(* "apply": the configuration before and after the real limits, changed (whether the code
   reports changes), err.  "used": leaves a running method or stage really worked with.    *)
EXTENDS Limits, TraceJudge

SetOf(s) == {s[i] : i \in 1..Len(s)}
Bare(s) == {[id |-> x.id, t |-> x.t, v |-> x.v, tok |-> x.tok] : x \in s}

CStart(t) == {}

CClause(t, s, e) ==
  LET R == Resolve(t.profile, t.explicit)
  IN IF e.err # "" THEN "Works"
     ELSE IF e.kind = "used"
     THEN (IF \E x \in SetOf(e.after) : ~Within(x, R) THEN "RunsWithinLimits" ELSE "ok")
     ELSE LET b == SetOf(e.before)
              want == IF \A n \in Names : R[n] = 0 THEN b ELSE Apply(b, R, SetOf(e.sections))
          IN IF \E x \in SetOf(e.after) : ~Within(x, R) THEN "WithinLimits"
             ELSE IF \E x \in SetOf(e.after), y \in b : x.id = y.id /\ x.t = "int" /\ y.t \in {"int", "like"} /\ x.v > y.v THEN "NeverRaised"
             ELSE IF Bare(SetOf(e.after)) # Bare(want) THEN "ExactlyTheLimits"
             ELSE IF e.changed # (want # b) THEN "ChangesReported"
             ELSE "ok"

CStep(t, s, e) == s
=============================================================================
