---------------------------- MODULE HpoSearchModel ----------------------------
(* A search loop with running best, repeats and limits, over every table of scores.
   Broken: "none", "last" (ties go to the later trial), "nansticks" (a NaN first trial is
   never replaced), "lastrepeat" (the last repeat counts, not the mean), "lasttrial" (the
   final run uses the last trial), "unclamped" (limits only hold in the final run),
   "dirflip" (minimize is ignored).                                                        *)
EXTENDS HpoSearch, TLC

CONSTANTS NT, NR, Scores, Broken

VARIABLES table, dir, i, r, cur, best, bestTot, used, phase, final
vars == <<table, dir, i, r, cur, best, bestTot, used, phase, final>>

P(v) == [id |-> "method.params.batch_size", path |-> <<"method", "params", "batch_size">>, t |-> "int", v |-> v, tok |-> ""]
Q(v) == [id |-> "method.params.a", path |-> <<"method", "params", "a">>, t |-> "int", v |-> v, tok |-> ""]
BaseP == {P(1), Q(9)}
PatchOf(k) == {P(k + 1), Q(k)}    \* the batch size may exceed the limit
R == [n \in Names |-> IF n = "batch" THEN 2 ELSE 0]

Init == /\ table \in [1..NT -> [1..NR -> Scores \union {NaN}]]
        /\ dir \in {"maximize", "minimize"}
        /\ i = 1 /\ r = 1 /\ cur = <<>> /\ best = 0 /\ bestTot = NaN /\ used = <<>> /\ phase = "search" /\ final = {}

Params(k) == IF Broken = "unclamped" THEN Patched(BaseP, PatchOf(k)) ELSE WorksWith(BaseP, PatchOf(k), R)

Fit == /\ phase = "search" /\ i <= NT /\ r <= NR
       /\ used' = Append(used, [trial |-> i, params |-> Params(i)])
       /\ cur' = Append(cur, table[i][r])
       /\ r' = r + 1
       /\ UNCHANGED <<table, dir, i, best, bestTot, phase, final>>

Of(s) == IF Broken = "lastrepeat" THEN s[Len(s)] ELSE Total(s)
Takes(x) ==
  \/ best = 0
  \/ IF Broken = "nansticks" /\ bestTot = NaN THEN FALSE
     ELSE IF Broken = "last" THEN ~Better(bestTot, x, dir)
     ELSE IF Broken = "dirflip" THEN Better(x, bestTot, "maximize")
     ELSE Better(x, bestTot, dir)

Decide == /\ phase = "search" /\ i <= NT /\ r > NR
          /\ IF Takes(Of(cur)) THEN best' = i /\ bestTot' = Of(cur) ELSE UNCHANGED <<best, bestTot>>
          /\ i' = i + 1 /\ r' = 1 /\ cur' = <<>>
          /\ UNCHANGED <<table, dir, used, phase, final>>

Final == /\ phase = "search" /\ i > NT
         /\ phase' = "done"
         /\ final' = WorksWith(BaseP, PatchOf(IF Broken = "lasttrial" THEN NT ELSE best), R)
         /\ UNCHANGED <<table, dir, i, r, cur, best, bestTot, used>>

Next == Fit \/ Decide \/ Final
Spec == Init /\ [][Next]_vars

Totals == [k \in 1..NT |-> Total([x \in 1..NR |-> table[k][x]])]
BestWins == phase = "done" => best = Winner(Totals, dir)
FinalIsTheWinner == phase = "done" => \E u \in {used[x] : x \in 1..Len(used)} : u.trial = Winner(Totals, dir) /\ u.params = final
EveryTrialRuns == phase = "done" => \A k \in 1..NT : Cardinality({x \in 1..Len(used) : used[x].trial = k}) = NR
TrialsWithinLimits == \A x \in 1..Len(used) : \A p \in used[x].params : Within(p, R)
OneWinner == Cardinality({k \in 1..NT : Wins(k, Totals, dir)}) = 1
=============================================================================
