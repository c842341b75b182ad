---------------------------- MODULE DiffuseTrace ----------------------------
(* Scores of the real methods for growing iteration limits, and solutions, judged against
   Diffuse.  A trace carries rule, n, C, edges, w, y, mask and the parameters.
   Event "step": F, iters, resid (in 1/U), nano (residual in 1e-9) for limit k = 1, 2, ...
   from any of the entry points; "start" carries the label rows.  Other kinds carry one
   solution.                                                                             *)
EXTENDS Diffuse, TraceJudge

CStart(t) == [F |-> <<>>, k |-> 0, iters |-> 0, stopped |-> FALSE, nano |-> 0, P |-> <<>>]

Start0(t) == [i \in 1..t.n |-> LabelRow(t.y, t.mask, i, t.C)]
Prev(t, s) == IF s.k = 0 THEN Start0(t) ELSE s.F
P0(t) == DynStart(t.n, Mutual(t.n, t.edges, t.w))
Shape(t, e) == Len(e.F) = t.n /\ \A i \in 1..t.n : Len(e.F[i]) = t.C

Far(t, F, G) == \E i \in 1..t.n, c \in 1..t.C : DAbs(F[i][c] - G[i][c]) > 3 + DAbs(G[i][c]) \div 5000

CClause(t, s, e) ==
  IF e.err # "" THEN "WellFormedGraphIsSolved"
  ELSE IF ~Shape(t, e) THEN "Shape"
  ELSE CASE e.kind = "step" ->
         (IF s.stopped
          THEN (IF Far(t, e.F, s.F) \/ e.iters # s.iters THEN "StopsAtConvergence" ELSE "ok")
          ELSE IF e.iters # s.k + 1 THEN "IterationsCounted"
          ELSE IF ~Updated(t.rule, t.edges, t.w, t.norm, t.y, t.mask, t.an, t.ad, t.rows, t.C, Prev(t, s), e.F) THEN "UpdateRule"
          ELSE IF t.rule # "fixed" /\ DAbs(Moved(Prev(t, s), e.F) - e.resid) > 2 THEN "TrueResidual"
          ELSE "ok")
       [] e.kind = "same" ->
         (IF Far(t, e.F, s.F) \/ (e.iters # -1 /\ e.iters # s.iters) THEN "EntryPointsAgree" ELSE "ok")
       [] e.kind = "harmonic" ->
         (IF ~Clamped(t.n, t.mask, t.y, e.F, t.C) THEN "LabelledKeepLabels"
          ELSE IF ~Harmonic(t.n, Adj(t.n, t.edges, t.w), t.mask, e.F, t.C) THEN "HarmonicSolution" ELSE "ok")
       [] e.kind = "cut" ->
         (IF ~MinCut(t.n, t.edges, t.w, t.mask, t.y, e.side) THEN "MinimumCut" ELSE "ok")
       [] e.kind = "walk" ->
         (IF ~WalkSides(t.n, t.edges, t.w, t.mask, t.y, t.an, t.ad, e.side) THEN "WalkSolution" ELSE "ok")
       [] e.kind = "poisson" ->
         (IF ~PoissonSolved(t.n, t.edges, t.w, t.mask, t.y, t.C, t.rows, e.F) THEN "PoissonSolution" ELSE "ok")
       [] e.kind = "pharm" ->
         (IF \E i \in 1..t.n : t.mask[i] /\ e.u[i] # (IF t.y[i] = 0 THEN 200 ELSE 0) THEN "LabelledKeepLabels"
          ELSE IF ~PHarmonic(t.n, Mutual(t.n, t.edges, t.w), t.mask, e.u, t.p) THEN "PHarmonicSolution" ELSE "ok")
       [] e.kind = "dyn" ->
         (IF e.iters # s.k + 1 THEN "IterationsCounted"
          ELSE IF ~DynUpdated(t.n, t.C, IF s.k = 0 THEN P0(t) ELSE s.P, Prev(t, s), t.mask, e.F, 10 + 60 * s.k) THEN "DynamicRule"
          ELSE IF DAbs(Moved(Prev(t, s), e.F) - e.resid) > 2 THEN "TrueResidual" ELSE "ok")

CStep(t, s, e) ==
  IF e.kind \in {"step", "dyn"} /\ ~s.stopped
  THEN [F |-> e.F, k |-> s.k + 1, iters |-> e.iters, nano |-> e.nano, stopped |-> e.kind = "step" /\ e.nano <= t.tol,
        P |-> IF e.kind = "dyn" THEN DynNext(t.n, t.C, Knn(t.n, P0(t), t.knn), IF s.k = 0 THEN P0(t) ELSE s.P, Prev(t, s), t.an, t.ad, t.ln, t.ld) ELSE <<>>]
  ELSE s
=============================================================================
