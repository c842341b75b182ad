------------------------------ MODULE FittedModel ------------------------------
(* The smallest system with the property: three training rows, one test row, a learner that
   keeps the largest value of the rows it reads and a transformation that subtracts it.
   Reads  "fit"    the fitting rows
          "train"  the whole training split          "all"  also the test row
   Apply  "same"   the learnt value serves both splits
          "refit"  the test split is transformed by what its own rows teach                 *)
EXTENDS Fitted
CONSTANTS Vals, Reads, Apply, Runs

VARIABLES seen, n
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Init == seen = {} /\ n = 0
FitSets == {{1}, {1, 2}, {2, 3}}
Do(tr, te, f) ==
  LET data == IF Reads = "fit" THEN {tr[i] : i \in f} ELSE IF Reads = "train" THEN {tr[i] : i \in 1..3}
              ELSE {tr[i] : i \in 1..3} \union {te}
      key == <<f, [i \in f |-> tr[i]]>>
      out(v) == <<100 * (v - Max(data))>>
      ote == IF Apply = "same" THEN out(te) ELSE <<0>>
  IN seen' = seen \union {[key |-> key, row |-> tr[i], out |-> out(tr[i])] : i \in 1..3} \union {[key |-> key, row |-> te, out |-> ote]}
Next == n < Runs /\ n' = n + 1 /\ \E tr \in [1..3 -> Vals], te \in Vals, f \in FitSets : Do(tr, te, f)
Spec == Init /\ [][Next]_<<seen, n>>
OneFunction == \A m \in seen : Consistent(seen, m.key, m.row, m.out)
=============================================================================
