------------------------------ MODULE Classify ------------------------------
(* A supervised classifier seen from outside: it learns labelled rows and answers with
   labels.  Labels are integers here (the position of a label in the universe of labels in
   the caller's order); -1 stands for anything that is not a label of the universe.
   Probabilities and scores are integers in units of 1/10000.                            *)
EXTENDS Integers, Sequences, FiniteSets, Memo

PU == 10000
CAbs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE CSum(_, _)
CSum(f, k) == IF k = 0 THEN 0 ELSE f[k] + CSum(f, k - 1)
Range(q) == {q[i] : i \in DOMAIN q}

RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Ascending(S \ {m})
ClassList(labels) == Ascending(Range(labels))

RowOfUnit(row, C) == /\ Len(row) = C
                     /\ \A c \in 1..C : row[c] >= 0
                     /\ CAbs(CSum(row, C) - PU) <= 5 + C

(* the column that clearly holds the largest value must be the answer's column *)
ClearBest(row, c, margin) == \A d \in DOMAIN row : d # c => row[c] > row[d] + margin
AnswersBest(row, classes, answer, margin) ==
  \A c \in DOMAIN row : ClearBest(row, c, margin) => answer = classes[c]

(* ---- nearest neighbours ----  dist: dissimilarity of a query to every training row;
   rows closer than the k-th are in, rows as far as the k-th may or may not be           *)
Closer(dist, j) == Cardinality({i \in DOMAIN dist : dist[i] < dist[j]})
Inside(dist, k) == {j \in DOMAIN dist : Cardinality({i \in DOMAIN dist : dist[i] <= dist[j]}) <= k}
Border(dist, k) == {j \in DOMAIN dist : Closer(dist, j) < k} \ Inside(dist, k)
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
UniformVote(dist, labels, classes, kk, row) ==
  LET k == Least(kk, Len(dist))
      in == Inside(dist, k)
      edge == Border(dist, k)
      free == k - Cardinality(in)
  IN \A c \in DOMAIN classes :
       LET sure == Cardinality({j \in in : labels[j] = classes[c]})
           may == Cardinality({j \in edge : labels[j] = classes[c]})
           lo == sure + Most(0, free - (Cardinality(edge) - may))
           hi == sure + Least(free, may)
       IN k * row[c] >= lo * PU - 2 * k /\ k * row[c] <= hi * PU + 2 * k

RECURSIVE ISqrt2(_, _, _)
ISqrt2(x, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m <= x \div m THEN ISqrt2(x, m, hi) ELSE ISqrt2(x, lo, m - 1)
(* weights 1/d or 1/d^2 (dist is d^2); rows at distance zero take everything *)
DistanceVote(dist, labels, classes, kk, row) ==
  LET k == Least(kk, Len(dist))
      in == Inside(dist, k)
      zero == {j \in in : dist[j] = 0}
      Weigh(sq) == [j \in DOMAIN dist |->
                     IF j \notin in THEN 0
                     ELSE IF zero # {} THEN (IF j \in zero THEN 1000 ELSE 0)
                     ELSE IF sq THEN 100000 \div dist[j] ELSE ISqrt2(10000000 \div dist[j], 0, 4000)]
      Fits(sq) == LET w == Weigh(sq)
                      t == CSum(w, Len(w))
                  IN \A c \in DOMAIN classes :
                       LET v == CSum([j \in DOMAIN w |-> IF labels[j] = classes[c] THEN w[j] ELSE 0], Len(w))
                       IN CAbs((row[c] * (t \div 10)) \div 1000 - v) <= t \div 100 + 5
  IN Border(dist, k) = {} => (Fits(TRUE) \/ Fits(FALSE))
=============================================================================
