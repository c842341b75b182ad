------------------------------ MODULE HpoSearch -------------------------------
(* What a search over a method's parameters must do: which trial wins, what a trial and the
   final run work with.  Scores are integers (a common multiple of the real ones), NaN is a
   number outside their range.                                                             *)
EXTENDS Limits

NaN == 2000000000

RECURSIVE SumOf(_)
SumOf(s) == IF Len(s) = 0 THEN 0 ELSE s[1] + SumOf(SubSeq(s, 2, Len(s)))
HasNaN(s) == \E i \in 1..Len(s) : s[i] = NaN
\* the sum stands for the mean: every trial has the same number of repeats
Total(s) == IF HasNaN(s) THEN NaN ELSE SumOf(s)

Better(x, y, dir) == \* strictly
  IF x = NaN THEN FALSE
  ELSE IF y = NaN THEN TRUE
  ELSE IF dir = "maximize" THEN x > y ELSE x < y

\* the winner among the totals: nothing is better, and nothing before it is as good
Wins(i, totals, dir) ==
  /\ \A j \in 1..Len(totals) : ~Better(totals[j], totals[i], dir)
  /\ \A j \in 1..(i - 1) : Better(totals[i], totals[j], dir)
Winner(totals, dir) == CHOOSE i \in 1..Len(totals) : Wins(i, totals, dir)

\* parameters are leaves (see Limits): a patch replaces or adds its own
Patched(base, patch) == {b \in base : \A c \in patch : b.id # c.id} \union patch
\* what a method works with: limits hold in trials as in the final run
WorksWith(base, patch, R) == {Clamp(l, R) : l \in Patched(base, patch)}
=============================================================================
