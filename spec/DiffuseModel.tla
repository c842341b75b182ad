----------------------------- MODULE DiffuseModel -----------------------------
(* All small directed graphs, labelled sets and rules; scores follow the update of Diffuse.
   Labels only ever travel along edges, away from labelled nodes; clamped rows stay; scores
   stay between 0 and 1.  Broken variants of the update lose one of these.                 *)
EXTENDS Diffuse

CONSTANTS N, C, Steps, Broken

VARIABLES edges, y, mask, rule, F, k
vars == <<edges, y, mask, rule, F, k>>

Nodes == 0..(N - 1)
Pairs == {p \in Nodes \X Nodes : TRUE}
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE a \in S : \A b \in S : a[1] * 10 + a[2] <= b[1] * 10 + b[2] IN <<x>> \o SeqOf(S \ {x})

Init ==
  /\ \E S \in SUBSET {p \in Pairs : p[1] # p[2]} : edges = SeqOf(S)
  /\ y \in [1..N -> 0..(C - 1)]
  /\ mask \in [1..N -> BOOLEAN]
  /\ \E i \in 1..N : mask[i]
  /\ \A i \in 1..N : ~mask[i] => y[i] = 0
  /\ rule \in {"propagate", "spread", "fixed"}
  /\ F = [i \in 1..N |-> LabelRow(y, mask, i, C)]
  /\ k = 0

W == [j \in 1..Len(edges) |-> 2]
Used == IF Broken = "reversed" THEN [j \in 1..Len(edges) |-> <<edges[j][2], edges[j][1]>>] ELSE edges
Norm == IF Broken = "unscaled" THEN "none" ELSE "rw"
Rule == IF Broken = "unclamped" THEN "spread" ELSE rule
Seen == IF Broken = "unmasked" THEN [i \in 1..N |-> TRUE] ELSE mask
Next ==
  /\ k < Steps
  /\ LET coef == The(Coef(Used, W, Norm))
     IN F' = [i \in 1..N |-> Pulled(Rule, Used, coef, Unit(Norm), y, Seen, 1, 2, F, i, C)]
  /\ k' = k + 1
  /\ UNCHANGED <<edges, y, mask, rule>>

Spec == Init /\ [][Next]_vars

RECURSIVE Grow(_, _)
Grow(S, n) == IF n = 0 THEN S ELSE Grow(S \cup {edges[j][2] + 1 : j \in {x \in DOMAIN edges : edges[x][1] + 1 \in S}}, n - 1)
From(c) == Grow({i \in 1..N : mask[i] /\ y[i] = c - 1}, N)

LabelsTravelAlongEdges == \A i \in 1..N, c \in 1..C : F[i][c] > 0 => i \in From(c)
ClampedStay == rule \in {"propagate", "fixed"} => \A i \in 1..N : mask[i] => F[i] = LabelRow(y, mask, i, C)
Bounded == \A i \in 1..N : \A c \in 1..C : F[i][c] >= 0 /\ RowSum(F[i]) <= U
=============================================================================
