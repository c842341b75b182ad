--------------------------- MODULE PreprocStoreTrace ---------------------------
(* Judges histories of one preprocessing request over a cache directory that is interrupted or
   damaged.  event: [k: "cold" | "run" | "crash" | "harm", val, err] ; "cold" runs without a cache. *)
EXTENDS TraceJudge

SStart(t) == "none"
SStep(t, s, e) == IF e.k = "cold" THEN e.val ELSE s
SClause(t, s, e) ==
  IF e.k \in {"crash", "harm", "cold"} THEN "ok"
  ELSE IF e.val = s THEN "ok"
  ELSE IF e.err # "" THEN "NextRunCompletes"
  ELSE "NextRunGivesTheEmptyCacheResult"
=============================================================================
