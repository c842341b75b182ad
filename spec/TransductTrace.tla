--------------------------- MODULE TransductTrace ---------------------------
(* Fits of real transductive methods, judged against Transduct.
   Event [kind |-> "fit", cfg, graph, y, mask, val, seed, out, same]: cfg, graph, out are
   tokens (method with parameters, features and graph, exact predictions or refusal).   *)
EXTENDS Transduct, TraceJudge

Key(e) == <<e.cfg, e.graph, e.seed, Visible(e.y, e.mask, e.val)>>

CStart(t) == {}
CClause(t, s, e) ==
  IF ~e.same THEN "InputsUntouched"
  ELSE IF ~e.fitted THEN "WellFormedDataIsFitted"
  ELSE IF ~Agrees(s, Key(e), e.out) THEN "SameVisibleSameResult"
  ELSE "ok"
CStep(t, s, e) == Remember(s, Key(e), e.out)
=============================================================================
