----------------------------- MODULE GraphTrace -----------------------------
(* G01.  event: [err, n, pts, metric, scheme, exact, k, num, den, m, r, limit, kmeans,
                 raw (edges of the plain directed graph), sym, loops, norm, W, one, tol, edges, weights, directed, nn] *)
EXTENDS TraceJudge, Graph, TLC

GStart(t) == 0
GStep(t, s, e) == s + 1

SetOf(q) == {q[x] : x \in 1..Len(q)}
Close(a, b, tol) == GAbs(a - b) <= tol

RawOk(e, R) ==
  CASE e.scheme = "knn" -> IF e.exact THEN KnnGraph(e.metric, e.pts, e.k, R)
                           ELSE \A i \in Nodes(e.pts) : Cardinality(Out(R, i)) <= e.k
    [] e.scheme = "epsilon" -> RadiusGraph(e.metric, e.pts, e.num, e.den, R)
    [] e.scheme = "anchor" ->
         LET mm == AnchorCount(e.n, e.m) IN
         IF e.r >= mm /\ e.limit >= e.n THEN KnnGraph(e.metric, e.pts, e.k, R)     \* every node shares every anchor
         ELSE IF e.kmeans THEN \A i \in Nodes(e.pts) : Cardinality(Out(R, i)) <= e.k
         ELSE AnchorGraph(e.metric, e.pts, e.k, e.m, e.r, e.limit, R)

WeightsOk(e, F) ==
  LET w(x) == PlainWeight(e.W, e.one, x)
      deg == [i \in 1..e.n |-> Degree(F, w, i - 1)]
  IN \A x \in 1..Len(e.edges) :
       LET ed == e.edges[x] IN
       Close(e.weights[x], NormWeight(e.norm, e.one, w(ed), deg[ed[1] + 1], deg[ed[2] + 1]), e.tol)

(* big events: n points at 0..n-1 on a line; pairs are positions.  Two nearest neighbours are next to you. *)
Line(e) == LET R == SetOf(e.pairs) IN
           /\ Cardinality(R) = Len(e.pairs) /\ Len(e.pairs) = 2 * e.n
           /\ \A x \in R : GAbs(x[1] - x[2]) = 1 \/ (x[1] = 0 /\ x[2] = 2) \/ (x[1] = e.n - 1 /\ x[2] = e.n - 3)

GClause(t, s, e) ==
  IF e.err # "" THEN "WellFormedSpecsBuild"
  ELSE IF t.key = "large" THEN (IF Line(e) THEN "ok" ELSE "RawEdgesAsDefined")
  ELSE LET R == SetOf(e.raw)
           F == SetOf(e.edges)
       IN IF e.nn # e.n THEN "OneNodePerRow"
          ELSE IF \E x \in R \cup F : x[1] \notin 0..(e.n - 1) \/ x[2] \notin 0..(e.n - 1) THEN "NodeIdsInRange"
          ELSE IF Cardinality(R) # Len(e.raw) \/ Cardinality(F) # Len(e.edges) THEN "EdgesOnce"
          ELSE IF ~RawOk(e, R) THEN "RawEdgesAsDefined"
          ELSE IF F # Looped(e.loops, e.n, Symmetrised(e.sym, R)) THEN "EdgeSetAsDefined"
          ELSE IF e.directed # (e.sym = "none") THEN "DirectedFlag"
          ELSE IF Len(e.weights) # Len(e.edges) THEN "OneWeightPerEdge"
          ELSE IF ~WeightsOk(e, F) THEN "WeightsAsDefined"
          ELSE "ok"
=============================================================================
