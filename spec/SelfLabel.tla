------------------------------ MODULE SelfLabel ------------------------------
(* Semi-supervised wrapper loops around base classifiers, as transition relations.

   A training set is a set of <<sample, label, multiplicity>>.  A trained classifier is its table: for every
   sample the label it predicts and its confidence (an integer).  A state holds, per learner, its training set
   and (once trained on it) its table; the pool of unlabelled samples still available; the rounds done; and
   for democratic co-learning the error estimates.

     Outcomes(t, x)  what one round may decide to add, per learner  (ties may fall either way)
     Advance(t, x)   the states after a round that continues
     MayStop(t, x)   whether the loop may end here                                                      *)
EXTENDS Integers, Sequences, FiniteSets

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumF(f, S \ {x})
RECURSIVE KSub(_, _)
KSub(S, k) == IF k = 0 THEN {{}} ELSE IF Cardinality(S) < k THEN {} ELSE
              LET x == CHOOSE y \in S : TRUE IN KSub(S \ {x}, k) \cup {A \cup {x} : A \in KSub(S \ {x}, k - 1)}

(* the possible sets of the n best of C; Better(a, b): a is strictly better *)
TopSets(C, n, Better(_, _)) ==
  IF n < 0 \/ Cardinality(C) <= n THEN {C}
  ELSE LET above(a) == Cardinality({b \in C : Better(b, a)})
           notworse(a) == Cardinality({b \in C : ~Better(a, b)})
           must == {a \in C : notworse(a) <= n}
           free == {a \in C : above(a) < n} \ must
       IN {must \cup F : F \in KSub(free, n - Cardinality(must))}

Lab(tab, u) == tab[u][1]
Conf(tab, u) == tab[u][2]
Sure(t, tab, u) == t.thr < 0 \/ Conf(tab, u) >= t.thr
Labelled(t) == {<<t.L[i][1], t.L[i][2], 1>> : i \in 1..Len(t.L)}
Unlabelled(t) == {t.U[i] : i \in 1..Len(t.U)}
Ids(T) == {z[1] : z \in T}
LabelsOf(T) == {z[2] : z \in T}
CountOf(T, c) == SumF([z \in T |-> IF z[2] = c THEN z[3] ELSE 0], T)
Size(T) == SumF([z \in T |-> z[3]], T)
Trained(x) == \A m \in DOMAIN x.tab : x.tab[m] # <<>>

-----------------------------------------------------------------------------
(* pseudo-labelling: every confident sample, at most max_new of the most confident *)
PseudoOutcomes(t, x) ==
  LET C == {u \in x.pool : Sure(t, x.tab[1], u)} IN
  {<<{<<u, Lab(x.tab[1], u), 1>> : u \in S}>> : S \in TopSets(C, t.maxnew, LAMBDA a, b : Conf(x.tab[1], a) > Conf(x.tab[1], b))}

(* self-training: the same, plus (optionally) the samples of groups with a clear majority; a candidate's
   confidence is a fraction <<numerator, denominator>> *)
Members(t, x, g) == {u \in x.pool : t.grp[u] = g}
Votes(t, x, g) ==    \* <<voter, label, confidence>>
  {<<t.L[i][1], t.L[i][2], t.one>> : i \in {j \in 1..Len(t.L) : t.lgroups /\ t.grp[t.L[j][1]] = g}}
  \cup {<<u, Lab(x.tab[1], u), Conf(x.tab[1], u)>> : u \in {v \in Members(t, x, g) : Sure(t, x.tab[1], v)}}
Major(V) == LET n(c) == Cardinality({v \in V : v[2] = c})  C == {v[2] : v \in V}  top == {c \in C : \A d \in C : n(d) <= n(c)}
            IN CHOOSE c \in top : \A d \in top : c <= d
ForMajor(V) == {v \in V : v[2] = Major(V)}
Carries(t, V) ==
  /\ V # {} /\ Cardinality(V) >= t.gmin
  /\ Cardinality(ForMajor(V)) * t.gden >= t.gnum * Cardinality(V)
  /\ SumF([v \in V |-> IF v[2] = Major(V) THEN v[3] ELSE 0], V) >= t.gthr * Cardinality(ForMajor(V))
Spread(t, x) == IF ~t.groups THEN {} ELSE
  UNION {LET V == Votes(t, x, g) IN
         IF ~Carries(t, V) THEN {}
         ELSE {<<u, Major(V), <<SumF([v \in V |-> IF v[2] = Major(V) THEN v[3] ELSE 0], V), Cardinality(ForMajor(V))>>>> :
               u \in {w \in Members(t, x, g) : ~Sure(t, x.tab[1], w)}} : g \in {t.grp[u] : u \in x.pool}}
SelfOutcomes(t, x) ==
  LET C == {<<u, Lab(x.tab[1], u), <<Conf(x.tab[1], u), 1>>>> : u \in {v \in x.pool : Sure(t, x.tab[1], v)}} \cup Spread(t, x) IN
  {<<{<<c[1], c[2], 1>> : c \in S}>> : S \in TopSets(C, t.maxnew, LAMBDA a, b : a[3][1] * b[3][2] > b[3][1] * a[3][2])}

(* Setred: candidates by class in proportion to the labelled classes (largest remainders), edited by the
   cut-edge test on the neighbourhood graph of training set and candidates *)
Shares(T, C, total) ==
  LET n == Size(T)  fl == [c \in C |-> (total * CountOf(T, c)) \div n]  rem == total - SumF(fl, C)
  IN {[c \in C |-> fl[c] + IF c \in S THEN 1 ELSE 0] :
        S \in TopSets(C, rem, LAMBDA a, b : (total * CountOf(T, a)) % n > (total * CountOf(T, b)) % n)}
RECURSIVE Product(_, _, _)
Product(C, opt, k) == IF C = {} THEN {{}} ELSE LET c == CHOOSE y \in C : TRUE IN
   {A \cup B : A \in opt[c], B \in Product(C \ {c}, opt, k)}
SetredCands(t, x) ==
  LET T == x.T[1]  C == LabelsOf(T)  P == x.seen
      total == Min2(Cardinality(P), IF t.maxnew < 0 THEN Cardinality(P) ELSE t.maxnew)
  IN UNION {Product(C, [c \in C |-> TopSets({u \in P : Lab(x.tab[1], u) = c /\ Sure(t, x.tab[1], u)}, share[c],
                                             LAMBDA a, b : Conf(x.tab[1], a) > Conf(x.tab[1], b))], 0)
            : share \in (IF total <= 0 THEN {[c \in C |-> 0]} ELSE Shares(T, C, total))}
D2(t, a, b) == (t.pos[a][1] - t.pos[b][1]) * (t.pos[a][1] - t.pos[b][1]) + (t.pos[a][2] - t.pos[b][2]) * (t.pos[a][2] - t.pos[b][2])
Rng(t, V, a, b) == \A c \in V \ {a, b} : ~(D2(t, a, c) < D2(t, a, b) /\ D2(t, b, c) < D2(t, a, b))
NearK(t, V, a, b) == Cardinality({c \in V \ {a} : D2(t, a, c) < D2(t, a, b)}) < Max2(1, Min2(t.knn, Cardinality(V) - 1))
\* b is one of several equally distant samples of which not all are among a's nearest
MaybeNear(t, V, a, b) == NearK(t, V, a, b) /\ Cardinality({c \in V \ {a} : D2(t, a, c) <= D2(t, a, b)}) > Max2(1, Min2(t.knn, Cardinality(V) - 1))
Linked(t, V, a, b) == a # b /\ (IF t.graph = "rng" THEN Rng(t, V, a, b) ELSE NearK(t, V, a, b) \/ NearK(t, V, b, a))
\* "yes", "no", or "free" when rounding decides
Keeps(t, x, cands, u) ==
  LET T == x.T[1]  V == Ids(T) \cup cands
      lab(v) == IF v \in cands THEN Lab(x.tab[1], v) ELSE (CHOOSE z \in T : z[1] = v)[2]
      nb == {v \in V : Linked(t, V, u, v)}  deg == Cardinality(nb)
      o == Cardinality({v \in nb : lab(v) # lab(u)})
      n == Size(T)  c == CountOf(T, lab(u))
      lhs == o * n - (n - c) * deg
      a == lhs * lhs * 1000  b == t.z2 * (c * (n - c) * deg)
  IN IF t.weights # "uniform" THEN "free"
     ELSE IF t.graph = "knn" /\ \E w \in V \ {u} : MaybeNear(t, V, w, u) \/ MaybeNear(t, V, u, w) THEN "free"
     ELSE IF deg = 0 THEN "yes"
     ELSE IF Abs(a - b) <= b \div 200 /\ b > 0 THEN "free"
     ELSE IF t.zneg THEN (IF lhs <= 0 /\ a >= b THEN "yes" ELSE "no")
     ELSE (IF lhs <= 0 \/ a <= b THEN "yes" ELSE "no")
SetredOutcomes(t, x) ==
  IF x.seen = {} THEN {} ELSE     \* no pool was looked at
  UNION {LET yes == {u \in c : Keeps(t, x, c, u) = "yes"}  free == {u \in c : Keeps(t, x, c, u) = "free"} IN
         {<<{<<u, Lab(x.tab[1], u), 1>> : u \in yes \cup F}>> : F \in SUBSET free} : c \in SetredCands(t, x)}

-----------------------------------------------------------------------------
(* co-training: each view hands its k most confident samples per predicted class to the other view *)
Picks(t, tab, pool) ==
  LET C == {Lab(tab, u) : u \in pool} IN
  Product(C, [c \in C |-> TopSets({u \in pool : Lab(tab, u) = c /\ Sure(t, tab, u)}, t.k, LAMBDA a, b : Conf(tab, a) > Conf(tab, b))], 0)
CoOutcomes(t, x) ==
  {<<{<<u, Lab(x.tab[2], u), 1>> : u \in S2}, {<<u, Lab(x.tab[1], u), 1>> : u \in S1}>> :
     S1 \in Picks(t, x.tab[1], x.pool), S2 \in Picks(t, x.tab[2], x.pool)}

(* tri-training: a learner receives what the other two agree on *)
Others(i) == CASE i = 1 -> <<2, 3>> [] i = 2 -> <<1, 3>> [] OTHER -> <<1, 2>>
Agreed(t, x, i) ==
  LET j == Others(i)[1]  k == Others(i)[2]
      C == {u \in Unlabelled(t) \ Ids(x.T[i]) : Lab(x.tab[j], u) = Lab(x.tab[k], u) /\ Sure(t, x.tab[j], u) /\ Sure(t, x.tab[k], u)}
      w(u) == Conf(x.tab[j], u) + Conf(x.tab[k], u)
  IN {{<<u, Lab(x.tab[j], u), 1>> : u \in S} : S \in TopSets(C, t.maxnew, LAMBDA a, b : w(a) > w(b))}
TriOutcomes(t, x) == {<<a, b, c>> : a \in Agreed(t, x, 1), b \in Agreed(t, x, 2), c \in Agreed(t, x, 3)}

(* democratic co-learning: a learner that disagrees with the weighted majority is given the majority's labels,
   if the estimated gain outweighs the estimated noise.  t.ci[n][c + 1] is the confidence interval, in
   millionths, of an accuracy c of n. *)
Right(tab, T) == SumF([z \in T |-> IF Lab(tab, z[1]) = z[2] THEN z[3] ELSE 0], T)
Ci(t, tab, T) == t.ci[Size(T)][Right(tab, T) + 1]
Weight(t, x, i) == LET b == Ci(t, x.tab[i], Labelled(t)) IN (b[1] + b[2]) \div 2
Learners(x) == DOMAIN x.T
For(t, x, u, c) == SumF([i \in Learners(x) |-> IF Lab(x.tab[i], u) = c THEN Weight(t, x, i) ELSE 0], Learners(x))
Voters(x, u, c) == {i \in Learners(x) : Lab(x.tab[i], u) = c}
Marks(t, x, S) == {<<Right(x.tab[i], Labelled(t)), Cardinality({j \in S : Right(x.tab[j], Labelled(t)) = Right(x.tab[i], Labelled(t))})>> : i \in S}
Leading(t, x, u) == LET C == {Lab(x.tab[i], u) : i \in Learners(x)} IN
   {c \in C : \A d \in C : For(t, x, u, d) <= For(t, x, u, c) + 4}
\* several near the top are a tie if they have the same kinds of voters, and otherwise too close to call
Tied(t, x, u) == Cardinality(Leading(t, x, u)) > 1
Unclear(t, x, u) == \E c, d \in Leading(t, x, u) : Marks(t, x, Voters(x, u, c)) # Marks(t, x, Voters(x, u, d))
Wrong(t, x, i) == {u \in Unlabelled(t) \ Ids(x.T[i]) : ~Tied(t, x, u) /\ Lab(x.tab[i], u) \notin Leading(t, x, u)}
AvgLower(t, x) == SumF([i \in Learners(x) |-> Ci(t, x.tab[i], x.T[i])[1]], Learners(x)) \div Cardinality(Learners(x))
Noise(t, x, k) == ((1000000 - AvgLower(t, x)) * k) \div 1000       \* in thousandths
Q(n, e) == ((1000 * n - 2 * e) * (1000 * n - 2 * e)) \div n
Gain(t, x, i) == LET k == Cardinality(Wrong(t, x, i))  n == Size(x.T[i]) IN
  IF k = 0 THEN -100000000 ELSE Q(n + k, x.err[i] + Noise(t, x, k)) - Q(n, x.err[i])
Doubt(t, x) == \/ \E u \in Unlabelled(t) : Unclear(t, x, u)
               \/ \E i \in Learners(x) : Wrong(t, x, i) # {} /\ Abs(Gain(t, x, i)) <= 10000 * (x.r + 1)
DemoOutcomes(t, x) ==
  {[i \in Learners(x) |-> IF Gain(t, x, i) > 0 THEN {<<u, CHOOSE c \in Leading(t, x, u) : TRUE, 1>> : u \in Wrong(t, x, i)} ELSE {}]}

-----------------------------------------------------------------------------
Outcomes(t, x) ==
  CASE t.method = "pseudo_label" -> PseudoOutcomes(t, x)
    [] t.method = "self_training" -> SelfOutcomes(t, x)
    [] t.method = "setred" -> SetredOutcomes(t, x)
    [] t.method = "co_training" -> CoOutcomes(t, x)
    [] t.method = "tri_training" -> TriOutcomes(t, x)
    [] OTHER -> DemoOutcomes(t, x)
Single(t) == t.method \in {"pseudo_label", "self_training", "setred"}
Pooled(t) == Single(t) \/ t.method = "co_training"
Added(o) == UNION {Ids(o[m]) : m \in DOMAIN o}
\* a round that adds too little ends the loop without adding anything
Goes(t, o) == IF Single(t) THEN Cardinality(Added(o)) >= t.minnew ELSE Added(o) # {}
Over(t, x) == x.r >= t.maxiter \/ (Pooled(t) /\ x.pool = {})
After(t, x, o) ==
  [x EXCEPT !.T = [m \in DOMAIN x.T |-> x.T[m] \cup o[m]],
            !.tab = [m \in DOMAIN x.T |-> IF o[m] = {} THEN x.tab[m] ELSE <<>>],
            !.pool = IF Pooled(t) THEN @ \ Added(o) ELSE @,
            !.r = @ + 1, !.seen = {},
            !.err = IF t.method = "democratic" THEN [m \in DOMAIN x.T |-> @[m] + IF o[m] = {} THEN 0 ELSE Noise(t, x, Cardinality(o[m]))] ELSE @]
Advance(t, x) == IF ~Trained(x) \/ Over(t, x) THEN {} ELSE {After(t, x, o) : o \in {p \in Outcomes(t, x) : Goes(t, p)}}
MayStop(t, x) == Trained(x) /\ (Over(t, x) \/ \E o \in Outcomes(t, x) : ~Goes(t, o) \/ Added(o) = {})
=============================================================================
