---------------------------- MODULE SelfLabelModel ----------------------------
(* The loops of SelfLabel run against base classifiers that may predict anything at every training.
   Broken  "none", or one way to get the book-keeping wrong:
     "reuse"    accepted samples stay in the pool
     "columns"  the position of a label among the learner's classes is handed on instead of the label
     "late"     the loop looks at the round limit one round too late
     "forget"   the labelled samples are dropped when the first samples are added                        *)
EXTENDS SelfLabel, TLC
CONSTANTS Method, MaxNew, Thr, MinNew, MaxIter, Confs, NU, Broken

t == [method |-> Method, L |-> <<<<1, 2>>, <<2, 7>>>>, U |-> [i \in 1..NU |-> i + 2], tests |-> <<>>, thr |-> IF Thr = 99 THEN -1 ELSE Thr, maxnew |-> IF MaxNew = 99 THEN -1 ELSE MaxNew,
      minnew |-> MinNew, maxiter |-> MaxIter, k |-> 1, groups |-> TRUE, lgroups |-> TRUE, grp |-> [i \in 1..(NU + 2) |-> i % 2], gmin |-> 1, gnum |-> 1,
      gden |-> 2, gthr |-> 0, one |-> 3, poolsize |-> -1, pos |-> [i \in 1..(NU + 2) |-> <<i * i, 3 * i>>], graph |-> "rng", knn |-> 1,
      weights |-> "uniform", z2 |-> 2706, zneg |-> TRUE, minconf |-> 0,
      ci |-> [n \in 1..(NU + 2) |-> [c \in 1..(n + 1) |-> <<((c - 1) * 900000) \div n, 1000000>>]]]
N == CASE Method = "tri_training" -> 3 [] Method = "democratic" -> 3 [] Method = "co_training" -> 2 [] OTHER -> 1
Labels == {2, 7}

VARIABLES x, log          \* log: what the last round added: <<learner, sample, label, what the tables said>>
vars == <<x, log>>
Empty == [T |-> [m \in 1..N |-> Labelled(t)], tab |-> [m \in 1..N |-> <<>>], pool |-> Unlabelled(t), r |-> 0, err |-> [m \in 1..N |-> 0], seen |-> {}]
Init == /\ x \in (IF Method = "tri_training" THEN {[Empty EXCEPT !.T = f] : f \in [1..3 -> {Labelled(t), {<<1, 2, 2>>}, {<<2, 7, 2>>}}]} ELSE {Empty})
        /\ log = {}
Tables(m) == {f \in [1..(NU + 2) -> Labels \X Confs] : /\ \A i \in {1, 2} : f[i] = <<t.L[i][2], CHOOSE c \in Confs : TRUE>>
                                                      /\ \A i \in DOMAIN f : f[i][1] \in LabelsOf(x.T[m])  \/ i < 3}
Train == \E m \in 1..N : /\ x.tab[m] = <<>> /\ \A j \in 1..(m - 1) : x.tab[j] # <<>>
                         /\ \E f \in Tables(m) : x' = [x EXCEPT !.tab[m] = f, !.seen = x.pool]
                         /\ log' = {}
Column(m, lab) == IF Broken = "columns" THEN Cardinality({c \in LabelsOf(x.T[m]) : c < lab}) ELSE lab
Bend(y) == [y EXCEPT !.pool = IF Broken = "reuse" THEN x.pool ELSE @,
                     !.T = [m \in 1..N |-> {<<z[1], IF z \in x.T[m] THEN z[2] ELSE Column(m, z[2]), z[3]>> :
                                            z \in {w \in y.T[m] : ~(Broken = "forget" /\ w[1] <= 2)}}]]
Go == IF ~Trained(x) \/ (IF Broken = "late" THEN x.r > t.maxiter ELSE Over(t, x)) THEN {}
      ELSE {After(t, x, o) : o \in {p \in Outcomes(t, x) : Goes(t, p)}}
Round == \E y \in Go : /\ x' = Bend(y)
                       /\ log' = UNION {{<<m, z[1], z[2], x.tab, Len(x.T)>> : z \in Bend(y).T[m] \ x.T[m]} : m \in 1..N}
Next == Train \/ Round
Spec == Init /\ [][Next]_vars

LabelledStay == Method # "tri_training" => \A m \in 1..N : Labelled(t) \subseteq x.T[m]
Once == \A m \in 1..N : \A a, b \in x.T[m] : a[1] = b[1] => a = b
TaskLabels == \A m \in 1..N : LabelsOf(x.T[m]) \subseteq Labels
PoolIsRest == Pooled(t) => x.pool = Unlabelled(t) \ UNION {Ids(x.T[m]) : m \in 1..N}
Rounds == x.r <= MaxIter
Ends == Trained(x) /\ Go = {} => MayStop(t, x)
\* where a label can come from
Source == \A z \in log :
  LET m == z[1] u == z[2] c == z[3] tab == z[4] IN
  CASE Method \in {"pseudo_label", "setred"} -> Lab(tab[1], u) = c /\ Sure(t, tab[1], u)
    [] Method = "self_training" -> \/ Lab(tab[1], u) = c /\ Sure(t, tab[1], u)
                                   \/ \E v \in 1..(NU + 2) : t.grp[v] = t.grp[u] /\ Lab(tab[1], v) = c
    [] Method = "co_training" -> Lab(tab[3 - m], u) = c /\ Sure(t, tab[3 - m], u)
    [] Method = "tri_training" -> \A j \in {1, 2, 3} \ {m} : Lab(tab[j], u) = c /\ Sure(t, tab[j], u)
    [] OTHER -> Lab(tab[m], u) # c /\ Cardinality({j \in 1..3 : Lab(tab[j], u) = c}) >= 1
=============================================================================
