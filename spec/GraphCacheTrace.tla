--------------------------- MODULE GraphCacheTrace ---------------------------
(* G02, G03.  Histories over one cache directory.  event: [k: "cold" | "run" | "crash" | "harm", key, val, err].
   "cold" runs without a cache; key names the request: everything the result may depend on. *)
EXTENDS TraceJudge, Memo

HStart(t) == {}
HStep(t, s, e) == IF e.k = "cold" THEN Remember(s, e.key, e.val) ELSE s
HClause(t, s, e) ==
  IF e.k \in {"crash", "harm"} THEN "ok"
  ELSE IF e.k = "cold" THEN (IF Agrees(s, e.key, e.val) THEN "ok" ELSE "UncachedRunsAgree")
  ELSE IF ~KnownKey(s, e.key) THEN "NoReferenceRun"
  ELSE IF e.val = ValueOf(s, e.key) THEN "ok"
  ELSE IF e.err # "" THEN "NextRunCompletes"
  ELSE "SameAsUncached"
=============================================================================
