------------------------------ MODULE ViewsModel ------------------------------
(* All plans of up to three views over a small matrix, resolved view by view with every draw. *)
EXTENDS Views
CONSTANTS N, Complement  \* "exact", or "all" (a resolver that forgets to take the reference away)

Ns == {"a", "b", "c"}
V(name, mode, idx, num, of) == [name |-> name, mode |-> mode, idx |-> idx, num |-> num, den |-> 4, of |-> of]
Specs == {V(n, "all", <<>>, 2, "") : n \in Ns} \union {V(n, "random", <<>>, k, "") : n \in Ns, k \in {1, 2, 4}}
         \union {V(n, "indices", q, 2, "") : n \in Ns, q \in {<<>>, <<1>>, <<2, 0>>, <<0, 0>>, <<N>>}}
         \union {V(n, "complement", <<>>, 2, o) : n \in Ns, o \in Ns \union {""}}
VARIABLES plan, cols, out
Init == plan \in UNION {[1..k -> Specs] : k \in 1..2} \union {p \in [1..3 -> Specs] : p[1].mode = "random" /\ p[3].mode = "complement" /\ Valid(p)}
        /\ cols = <<>> /\ out = "going"
Nf == [i \in 1..3 |-> N]
Reject == out = "going" /\ cols = <<>> /\ ~Valid(plan) /\ out' = "rejected" /\ UNCHANGED <<plan, cols>>
Resolve ==
  /\ out = "going" /\ Valid(plan) /\ Len(cols) < Len(plan)
  /\ LET i == Len(cols) + 1
         C == Choices(plan, Nf, i, cols)
         D == IF Complement = "exact" \/ plan[i].mode # "complement" THEN C ELSE {0..(N - 1)}
     IN IF C = {} THEN out' = "rejected" /\ UNCHANGED <<plan, cols>>
        ELSE \E S \in D : cols' = Append(cols, S) /\ out' = (IF i = Len(plan) THEN "done" ELSE "going") /\ UNCHANGED plan
Spec == Init /\ [][Reject \/ Resolve]_<<plan, cols, out>>

Disjoint == out = "done" => \A i \in 1..Len(plan) : plan[i].mode = "complement" =>
              LET j == IndexOf(plan, plan[i].of) IN cols[i] \cap cols[j] = {} /\ cols[i] \union cols[j] = 0..(N - 1)
NonEmpty == out = "done" => \A i \in 1..Len(plan) : cols[i] # {} /\ Allowed(plan, Nf, i, cols)
NoBadPlan == out = "done" => Valid(plan)
Sized == out = "done" => \A i \in 1..Len(plan) : plan[i].mode = "random" =>
              Cardinality(cols[i]) >= 1 /\ (plan[i].num = plan[i].den => cols[i] = 0..(N - 1))
=============================================================================
