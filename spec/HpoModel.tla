------------------------------- MODULE HpoModel -------------------------------
(* Enumerating a space as an odometer and merging every trial into the base configuration.
   CarryLost  the odometer forgets to carry into the first leaf
   InPlace    a trial is merged into the base itself                                      *)
EXTENDS Hpo, TLC
CONSTANTS MaxLeaves, MaxVals, CarryLost, InPlace

Paths == <<<<"m", "a">>, <<"m", "b", "c">>, <<"d">>>>
Base0 == {<<<<"m", "a">>, 0>>, <<<<"m", "z">>, 7>>, <<<<"d", "x">>, 8>>}
VARIABLES leaves, at, trials, base, merged
vars == <<leaves, at, trials, base, merged>>

Init == /\ \E n \in 1..MaxLeaves : \E f \in [1..n -> 1..MaxVals] :
             leaves = [i \in 1..n |-> [path |-> Paths[i], kind |-> "list", vals |-> [j \in 1..f[i] |-> 10 * i + j]]]
        /\ at = [i \in 1..Len(leaves) |-> 1] /\ trials = <<>> /\ base = Base0 /\ merged = <<>>
Patch(a) == {<<leaves[i].path, leaves[i].vals[a[i]]>> : i \in 1..Len(leaves)}
\* the last leaf that can still move on
Room == {i \in 1..Len(leaves) : at[i] < Len(leaves[i].vals) /\ ~(CarryLost /\ i = 1 /\ Len(leaves) > 1)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Next == /\ at # <<>>
        /\ trials' = Append(trials, [i \in 1..Len(leaves) |-> leaves[i].vals[at[i]]])
        /\ merged' = Append(merged, Merge(base, Patch(at)))
        /\ base' = IF InPlace THEN Merge(base, Patch(at)) ELSE base
        /\ at' = IF Room = {} THEN <<>> ELSE [i \in 1..Len(leaves) |-> IF i < Max(Room) THEN at[i] ELSE IF i = Max(Room) THEN at[i] + 1 ELSE 1]
        /\ UNCHANGED leaves
Spec == Init /\ [][Next]_vars

Complete == at = <<>> => CompleteGrid(leaves, trials)
NoRepeat == \A i, j \in 1..Len(trials) : i # j => trials[i] # trials[j]
BaseKept == base = Base0
\* a merged configuration has the trial's values, and everything else from the base
OnlyDeclared == \A k \in 1..Len(merged) :
   /\ \A i \in 1..Len(leaves) : <<leaves[i].path, trials[k][i]>> \in merged[k]
   /\ \A c \in merged[k] : c \in Base0 \/ \E i \in 1..Len(leaves) : c = <<leaves[i].path, trials[k][i]>>
   /\ \A b \in Base0 : b \in merged[k] \/ \E i \in 1..Len(leaves) : Related(b[1], leaves[i].path)
=============================================================================
