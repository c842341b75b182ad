------------------------------- MODULE Graph -------------------------------
(* What a graph specification describes.  Nodes are 0..n-1; pts[i+1] is node i's
   feature vector of small integers, so that distances compare exactly.

   Euclidean distances are compared through their squares.  Cosine similarity
   dot/sqrt(|a|^2 |b|^2) is compared through its signed square; a zero vector is at
   similarity 0 of everything.                                                     *)
EXTENDS Integers, Sequences, FiniteSets

GMin(a, b) == IF a < b THEN a ELSE b
GMax(a, b) == IF a > b THEN a ELSE b
GAbs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
RECURSIVE SumSet(_, _)
SumSet(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(S \ {x}, f)
SumOver(S, F(_)) == SumSet(S, [x \in S |-> F(x)])

Sq(a, b) == SumTo([k \in 1..Len(a) |-> (a[k] - b[k]) * (a[k] - b[k])], Len(a))
Dot(a, b) == SumTo([k \in 1..Len(a) |-> a[k] * b[k]], Len(a))
SignedSq(x) == x * GAbs(x)

(* a is at least as near to p as b is *)
NearerEq(metric, p, a, b) ==
  IF metric = "euclidean" THEN Sq(p, a) <= Sq(p, b)
  ELSE LET na == Dot(a, a)
           nb == Dot(b, b)
           \* a zero vector has dot product 0: any positive norm will do
       IN SignedSq(Dot(p, a)) * GMax(nb, 1) >= SignedSq(Dot(p, b)) * GMax(na, 1)
Nearer(metric, p, a, b) == ~NearerEq(metric, p, b, a)

(* distance of a and b compared with num/den: "in", "out", or "edge" when equal *)
Versus(metric, a, b, num, den) ==
  IF metric = "euclidean"
  THEN LET l == Sq(a, b) * den * den IN LET r == num * num IN IF l < r THEN "in" ELSE IF l > r THEN "out" ELSE "edge"
  ELSE LET na == Dot(a, a) * Dot(b, b)     \* 1 - cos <= num/den  <=>  den*dot >= (den-num)*sqrt(na)
           l == SignedSq(den * Dot(a, b))
           r == SignedSq(den - num) * GMax(na, 1)
       IN IF l > r THEN "in" ELSE IF l < r THEN "out" ELSE "edge"

Nodes(pts) == 0..(Len(pts) - 1)
Pt(pts, i) == pts[i + 1]
Out(E, i) == {e[2] : e \in {x \in E : x[1] = i}}

(* ------------------------------------------------------------ raw graphs *)
(* got are k of the candidates of node i (all, if fewer), and no other candidate is nearer *)
NearestOf(metric, pts, i, cand, k, got) ==
  /\ got \subseteq cand
  /\ Cardinality(got) = GMin(k, Cardinality(cand))
  /\ \A a \in got, b \in cand \ got : NearerEq(metric, Pt(pts, i), Pt(pts, a), Pt(pts, b))

KnnGraph(metric, pts, k, E) ==
  \A i \in Nodes(pts) : NearestOf(metric, pts, i, Nodes(pts) \ {i}, k, Out(E, i))

RadiusGraph(metric, pts, num, den, E) ==
  \A i, j \in Nodes(pts) :
    LET v == Versus(metric, Pt(pts, i), Pt(pts, j), num, den) IN
    IF i = j THEN <<i, j>> \notin E
    ELSE /\ v = "in" => <<i, j>> \in E
         /\ v = "out" => <<i, j>> \notin E
         /\ v = "edge" /\ metric = "euclidean" => <<i, j>> \in E

(* node i may (must) have anchor a among its r nearest anchors A *)
MayAnchor(metric, pts, A, r, i, a) == Cardinality({b \in A \ {a} : Nearer(metric, Pt(pts, i), Pt(pts, b), Pt(pts, a))}) < r
MustAnchor(metric, pts, A, r, i, a) == Cardinality({b \in A \ {a} : NearerEq(metric, Pt(pts, i), Pt(pts, b), Pt(pts, a))}) < r
MayShare(metric, pts, A, r, i, j) == \E a \in A : MayAnchor(metric, pts, A, r, i, a) /\ MayAnchor(metric, pts, A, r, j, a)
MustShare(metric, pts, A, r, i, j) == \E a \in A : MustAnchor(metric, pts, A, r, i, a) /\ MustAnchor(metric, pts, A, r, j, a)

AnchoredBy(metric, pts, k, A, r, limit, E) ==
  \A i \in Nodes(pts) :
    LET may == {j \in Nodes(pts) \ {i} : MayShare(metric, pts, A, r, i, j)}
        must == {j \in Nodes(pts) \ {i} : MustShare(metric, pts, A, r, i, j)}
        got == Out(E, i)
    IN /\ got \subseteq may
       /\ Cardinality(got) <= k
       /\ Cardinality(got) >= GMin(GMin(k, limit), Cardinality(must))
       /\ Cardinality(may) <= limit =>
            \A a \in got, b \in must \ got : NearerEq(metric, Pt(pts, i), Pt(pts, a), Pt(pts, b))

AnchorCount(n, m) == GMin(GMax(1, m), n)
AnchorGraph(metric, pts, k, m, r, limit, E) ==
  LET n == Len(pts)
      mm == AnchorCount(n, m)
  IN \E A \in {S \in SUBSET Nodes(pts) : Cardinality(S) = mm} :
       AnchoredBy(metric, pts, k, A, GMin(GMax(1, r), mm), limit, E)

(* ------------------------------------------------------- post-processing *)
Flip(E) == {<<e[2], e[1]>> : e \in E}
Symmetrised(mode, E) ==
  CASE mode = "none" -> E
    [] mode = "or" -> E \cup Flip(E)
    [] mode = "mutual" -> E \cap Flip(E)
Looped(on, n, E) == IF on THEN E \cup {<<i, i>> : i \in 0..(n - 1)} ELSE E

(* weights before normalisation: W of the pair (symmetric), one for an added loop *)
PlainWeight(W, one, e) == IF e[1] = e[2] THEN one ELSE W[e[1] + 1][e[2] + 1]
Degree(E, w(_), i) == SumOver({e \in E : e[1] = i}, w)

RECURSIVE IRoot(_, _, _)
IRoot(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= x THEN IRoot(x, m, hi) ELSE IRoot(x, lo, m)
Root(x) == IRoot(x, 0, 46340)

(* the weight an edge must have, in units of 1/one, give or take tol *)
NormWeight(mode, one, w, ds, dt) ==
  CASE mode = "none" -> w
    [] mode = "rw" -> (w * one) \div ds
    [] mode = "sym" -> Root(((w * one) \div ds) * ((w * one) \div dt))
============================================================================
