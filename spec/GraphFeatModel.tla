--------------------------- MODULE GraphFeatModel ---------------------------
(* Diffusion on every small weighted graph: each step keeps constant features constant where
   a node has out-weight, stays within the range of the features, and with a = 1 never moves.
   Norm: "out" divides by the weight leaving the node; "in" (wrong) by the weight entering it. *)
EXTENDS GraphFeat, TLC

CONSTANTS N, W, Steps, Norm, Xs, As

S == 1200
VARIABLES A, X, a, H, t
vars == <<A, X, a, H, t>>

Init == /\ A \in [(0..(N - 1)) \X (0..(N - 1)) -> W] /\ X \in [1..N -> Xs] /\ a \in As
        /\ t = 0 /\ H = [i \in 1..N |-> S * X[i]]
Deg(i) == SumF([j \in 1..N |-> IF Norm = "out" THEN A[<<i - 1, j - 1>>] ELSE A[<<j - 1, i - 1>>]], N)
Avg(i) == IF Deg(i) = 0 THEN 0 ELSE SumF([j \in 1..N |-> A[<<i - 1, j - 1>>] * H[j]], N) \div Deg(i)
Next == /\ t < Steps /\ t' = t + 1 /\ UNCHANGED <<A, X, a>>
        /\ H' = [i \in 1..N |-> ((4 - a) * Avg(i) + a * S * X[i]) \div 4]
Spec == Init /\ [][Next]_vars

Lo == CHOOSE x \in {X[i] : i \in 1..N} : \A i \in 1..N : x <= X[i]
Hi == CHOOSE x \in {X[i] : i \in 1..N} : \A i \in 1..N : x >= X[i]
OutAll == \A i \in 1..N : \E j \in 1..N : A[<<i - 1, j - 1>>] > 0
Averaging == OutAll => \A i \in 1..N : H[i] >= S * Lo - 2 * t /\ H[i] <= S * Hi + 2 * t
Restart == a = 4 => \A i \in 1..N : H[i] = S * X[i]
(* and the judge's step relation admits exactly this step *)
Pairs == {<<i, j>> \in (0..(N - 1)) \X (0..(N - 1)) : A[<<i, j>>] > 0}
RECURSIVE Seqd(_)
Seqd(P) == IF P = {} THEN <<>> ELSE LET p == CHOOSE q \in P : TRUE IN <<p>> \o Seqd(P \ {p})
StepIsDiffused == [][LET es == Seqd(Pairs)
                         ws == [k \in 1..Len(es) |-> A[es[k]]]
                         col(h) == [i \in 1..N |-> <<h[i]>>]
                     IN Diffused(es, ws, col(X), S, a, 4, col(H), col(H'), 1)]_vars
=============================================================================
