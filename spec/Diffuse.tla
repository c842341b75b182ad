------------------------------- MODULE Diffuse -------------------------------
(* Spreading labels over a weighted directed graph: the update rules and the equations
   that define the solutions.

   Edges are <<src, dst>> (nodes 0..n-1) with positive integer weights; parallel edges add
   up.  Messages run along edges: A[dst][src] = w.  The degree of a node is the weight that
   arrives at it.  Scores are integers in units of 1/U; label rows are one-hot, rows of
   unlabelled nodes are zero.                                                             *)
EXTENDS Integers, Sequences, FiniteSets

U == 10000
DAbs(a) == IF a < 0 THEN -a ELSE a
Max(a, b) == IF a > b THEN a ELSE b
RECURSIVE DSum(_, _)
DSum(f, k) == IF k = 0 THEN 0 ELSE f[k] + DSum(f, k - 1)

RECURSIVE ISqrtIn(_, _, _)
ISqrtIn(x, lo, hi) == IF lo >= hi THEN lo
                      ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= x \div m THEN ISqrtIn(x, m, hi) ELSE ISqrtIn(x, lo, m - 1)
ISqrt(x) == IF x = 0 THEN 0 ELSE ISqrtIn(x, 1, 46340)

(* floor(a * 10^d / b) for 0 <= a, b > 0, one digit at a time *)
RatioRest(a, b, d) == LET r[k \in 0..d] == IF k = 0 THEN a % b ELSE (r[k - 1] * 10) % b IN r[d]
RECURSIVE Ratio(_, _, _)
Ratio(a, b, d) == IF d = 0 THEN a \div b ELSE 10 * Ratio(a, b, d - 1) + (((RatioRest(a, b, d - 1)) * 10) \div b)

InW(edges, w, i) == DSum([k \in 1..Len(edges) |-> IF edges[k][2] = i THEN w[k] ELSE 0], Len(edges))

(* the value x, evaluated once *)
The(x) == CHOOSE v \in {x} : v = x

(* the normalised weight of every edge, in units of 1/U *)
Coef(edges, w, norm) ==
  [k \in 1..Len(edges) |->
     LET ds == InW(edges, w, edges[k][1])
         dd == InW(edges, w, edges[k][2])
     IN CASE norm = "rw" -> (w[k] * U) \div dd
          [] norm = "sym" -> ISqrt(Ratio(w[k] * w[k], ds * dd, 8))
          [] norm = "none" -> w[k]]

(* (P F)[i][c], up to rounding; the given weights are twice the real ones *)
Unit(norm) == IF norm = "none" THEN 2 ELSE U
Arrive(edges, coef, unit, F, i, c) ==
  DSum([k \in 1..Len(edges) |-> IF edges[k][2] = i THEN (coef[k] * F[edges[k][1] + 1][c]) \div unit ELSE 0], Len(edges))

RowSum(row) == DSum(row, Len(row))
OneHot(y, i, C) == [c \in 1..C |-> IF y[i] = c - 1 THEN U ELSE 0]
LabelRow(y, mask, i, C) == IF mask[i] THEN OneHot(y, i, C) ELSE [c \in 1..C |-> 0]

(* the row a node gets before normalisation.  an/ad is the share taken from the neighbours *)
Pulled(rule, edges, coef, unit, y, mask, an, ad, F, i, C) ==
  LET P == [c \in 1..C |-> Arrive(edges, coef, unit, F, i - 1, c)]
      Y == LabelRow(y, mask, i, C)
      M == [c \in 1..C |-> (an * P[c] + (ad - an) * Y[c]) \div ad]
  IN CASE rule = "propagate" -> IF mask[i] THEN Y ELSE P
       [] rule = "spread" -> M
       [] rule = "fixed" -> IF mask[i] THEN Y ELSE M

(* G is the row sequence after F under the rule, within rounding *)
Updated(rule, edges, w, norm, y, mask, an, ad, rows, C, F, G) ==
  LET coef == The(Coef(edges, w, norm))
      slack == 4 + Len(edges)
  IN \A i \in 1..Len(F) :
       LET R == Pulled(rule, edges, coef, Unit(norm), y, mask, an, ad, F, i, C)
           t == RowSum(R)
       IN \A c \in 1..C :
            IF rows
            THEN IF t <= slack THEN t = 0 => G[i][c] = 0
                 ELSE DAbs(((G[i][c] * t) \div U) - R[c]) <= slack + t \div U
            ELSE DAbs(G[i][c] - R[c]) <= slack

Moved(F, G) ==
  LET D == {DAbs(F[i][c] - G[i][c]) : i \in DOMAIN F, c \in DOMAIN F[1]}
  IN CHOOSE m \in D : \A x \in D : x <= m

(* ---- solutions ---- *)
(* adjacency, adjacency both ways (halved: weights here are doubled), self-loops dropped *)
Adj(n, edges, w) == [i \in 1..n |-> [j \in 1..n |-> DSum([k \in 1..Len(edges) |-> IF edges[k][2] = i - 1 /\ edges[k][1] = j - 1 THEN w[k] ELSE 0], Len(edges))]]
Mutual(n, edges, w) == LET A == Adj(n, edges, w) IN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 0 ELSE A[i][j] + A[j][i]]]
Deg(n, A, i) == DSum(A[i], n)

(* every unlabelled row is the weighted average of its neighbours' rows *)
Harmonic(n, A, mask, F, C) ==
  \A i \in 1..n : ~mask[i] =>
    LET d == Deg(n, A, i) - A[i][i] IN
    \A c \in 1..C : DAbs(d * F[i][c] - DSum([j \in 1..n |-> IF j = i THEN 0 ELSE A[i][j] * F[j][c]], n)) <= d * 6 + 3

Clamped(n, mask, y, F, C) == \A i \in 1..n : mask[i] => F[i] = OneHot(y, i, C)

(* total weight of the edges from the side of class 1 to the side of class 0 *)
CutOf(edges, w, side) ==
  DSum([k \in 1..Len(edges) |-> IF side[edges[k][1] + 1] = 1 /\ side[edges[k][2] + 1] = 0 THEN w[k] ELSE 0], Len(edges))
MinCut(n, edges, w, mask, y, side) ==
  /\ \A i \in 1..n : mask[i] => side[i] = y[i]
  /\ \A other \in [1..n -> {0, 1}] :
       (\A i \in 1..n : mask[i] => other[i] = y[i]) => CutOf(edges, w, side) <= CutOf(edges, w, other)

(* f = a S f + y for the symmetrised, normalised graph, by repetition *)
RECURSIVE WalkFix(_, _, _, _, _, _)
WalkFix(n, S, an, ad, yv, k) ==
  IF k = 0 THEN yv
  ELSE LET f == The(WalkFix(n, S, an, ad, yv, k - 1))
       IN [i \in 1..n |-> yv[i] + (an * (DSum([j \in 1..n |-> S[i][j] * f[j]], n) \div U)) \div ad]
(* yv in units of 1/1000, S in units of 1/U *)
WalkSides(n, edges, w, mask, y, an, ad, side) ==
  LET A == The(Mutual(n, edges, w))
      S == The([i \in 1..n |-> [j \in 1..n |-> ISqrt(Ratio(A[i][j] * A[i][j], Deg(n, A, i) * Deg(n, A, j), 8))]])
      yv == [i \in 1..n |-> IF mask[i] THEN (IF y[i] = 1 THEN 1000 ELSE -1000) ELSE 0]
      f == WalkFix(n, S, an, ad, yv, 40)
  IN \A i \in 1..n : (f[i] > 80 => side[i] = 1) /\ (f[i] < -80 => side[i] = 0)

(* (L + 11'/n) F = B with L the symmetric normalised Laplacian and B the sources *)
PoissonRhs(n, mask, y, C, centre, i, c) ==
  LET m == Cardinality({j \in 1..n : mask[j]})
      k == Cardinality({j \in 1..n : mask[j] /\ y[j] = c - 1})
      hit == IF mask[i] /\ y[i] = c - 1 THEN U ELSE 0
  IN IF centre THEN (IF mask[i] THEN hit - (k * U) \div m ELSE 0) ELSE hit - (k * U) \div n
PoissonSolved(n, edges, w, mask, y, C, centre, F) ==
  LET coef == The(Coef(edges, w, "sym")) IN
  \A i \in 1..n, c \in 1..C :
    LET mean == DSum([j \in 1..n |-> F[j][c]], n) \div n
        top == CHOOSE m \in {DAbs(F[j][c]) : j \in 1..n} : \A j \in 1..n : DAbs(F[j][c]) <= m
    IN DAbs(F[i][c] - Arrive(edges, coef, U, F, i - 1, c) + mean - PoissonRhs(n, mask, y, C, centre, i, c)) <= 20 + Len(edges) + top \div 500

(* the p-harmonic equation, p = 2, 3, 4, in units of 1/200 *)
Power(d, p) == CASE p = 2 -> d [] p = 3 -> d * DAbs(d) [] p = 4 -> d * d * d
PScale(p) == CASE p = 2 -> 1 [] p = 3 -> 200 [] p = 4 -> 40000
PHarmonic(n, A, mask, u, p) ==
  \A i \in 1..n : ~mask[i] =>
    LET d == Deg(n, A, i) IN
    DAbs(DSum([j \in 1..n |-> A[i][j] * Power(u[i] - u[j], p)], n)) <= d * 4 * PScale(p)

(* dynamic propagation: the transition matrix follows the labels.  Matrices in units of 1/U *)
DynStart(n, A) == [i \in 1..n |-> [j \in 1..n |-> (A[i][j] * U) \div Deg(n, A, i)]]
MatMul(n, a, b, m) == The([i \in 1..n |-> [j \in 1..m |-> DSum([k \in 1..n |-> (a[i][k] * b[k][j]) \div U], n)]])
Transp(n, m, a) == [j \in 1..m |-> [i \in 1..n |-> a[i][j]]]
(* each node keeps its k strongest other nodes (no ties at the boundary) *)
Kept(n, P, k, i) == {j \in (1..n) \ {i} : Cardinality({m \in (1..n) \ {i} : P[i][m] > P[i][j]}) < k}
Knn(n, P, k) ==
  IF k >= n THEN P
  ELSE [i \in 1..n |-> LET keep == Kept(n, P, k, i)
                           t == DSum([j \in 1..n |-> IF j \in keep THEN P[i][j] ELSE 0], n)
                       IN [j \in 1..n |-> IF j \in keep THEN (P[i][j] * U) \div t ELSE 0]]
DynNext(n, C, P0, Pt, Y, an, ad, ln, ld) ==
  LET YY == The([i \in 1..n |-> [j \in 1..n |-> DSum([c \in 1..C |-> (Y[i][c] * Y[j][c]) \div U], C)]])
      Q == The([i \in 1..n |-> [j \in 1..n |-> Pt[i][j] + (an * YY[i][j]) \div ad]])
      R == MatMul(n, MatMul(n, P0, Q, n), Transp(n, n, P0), n)
  IN [i \in 1..n |-> [j \in 1..n |-> R[i][j] + (IF i = j THEN (ln * U) \div ld ELSE 0)]]
DynUpdated(n, C, Pt, Y, mask, G, tol) ==
  LET Z == MatMul(n, Pt, Y, C) IN
  \A i \in 1..n, c \in 1..C : IF mask[i] THEN G[i][c] = Y[i][c] ELSE DAbs(G[i][c] - Z[i][c]) <= tol
=============================================================================
