----------------------------- MODULE MetricsModel -----------------------------
(* The metrics computed one sample at a time (confusion counts), for every pair of small label sequences and
   every order of the samples: the running counts yield the definitions, in any order.
   OverPredicted  averages also over classes that only occur among the predictions
   Micro          macro F1 over the pooled counts *)
EXTENDS Metrics, TLC
CONSTANTS N, K, OverPredicted, Micro
VARIABLES t, p, left, nt, np, tp
vars == <<t, p, left, nt, np, tp>>
L == 0..(K - 1)
Init == /\ t \in UNION {[1..n -> L] : n \in 1..N} /\ p \in [1..Len(t) -> L]
        /\ left = 1..Len(t) /\ nt = [c \in L |-> 0] /\ np = nt /\ tp = nt
Next == \E i \in left :
   /\ left' = left \ {i} /\ UNCHANGED <<t, p>>
   /\ nt' = [nt EXCEPT ![t[i]] = @ + 1] /\ np' = [np EXCEPT ![p[i]] = @ + 1]
   /\ tp' = IF t[i] = p[i] THEN [tp EXCEPT ![t[i]] = @ + 1] ELSE tp
Spec == Init /\ [][Next]_vars
Div(a, b) == IF b = 0 THEN 0 ELSE (a * U) \div b
Over == {c \in L : nt[c] > 0 \/ (OverPredicted /\ np[c] > 0)}
All(f) == SumOf(f, L)
Acc == Div(All(tp), All(nt))
Bal == SumOf([c \in L |-> Div(tp[c], nt[c])], Over) \div Cardinality(Over)
F1 == IF Micro THEN Div(2 * All(tp), All(nt) + All(np)) ELSE SumOf([c \in L |-> Div(2 * tp[c], nt[c] + np[c])], Over) \div Cardinality(Over)
Done == left = {}
AccOk == Done => Near(Acc, Accuracy(t, p))
BalOk == Done => Near(Bal, Balanced(t, p))
F1Ok == Done => Near(F1, MacroF1(t, p))
Bounds == Done => (\A m \in Known : Value(m, t, p) \in 0..U) /\ ((Accuracy(t, p) = U) <=> (t = p))
=============================================================================
