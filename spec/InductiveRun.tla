---------------------------- MODULE InductiveRun ----------------------------
(* What fitting and predicting with an inductive method may depend on and touch.

   A run (one fit followed by one prediction) is determined by its key: the method with
   its parameters, the data and the seed.  It reads neither the process-wide random state
   nor what an object fitted before, and writes nothing it was given.  Probabilities are
   in millionths.                                                                        *)
EXTENDS Memo

Unit == 1000000
Slack == 300

RECURSIVE Total(_, _)
Total(row, n) == IF n = 0 THEN 0 ELSE row[n] + Total(row, n - 1)

IsRow(row, classes) ==
  /\ Len(row) = classes
  /\ \A c \in 1..classes : row[c] >= 0 /\ row[c] <= Unit + Slack
  /\ LET s == Total(row, classes) IN s >= Unit - Slack /\ s <= Unit + Slack

(* the label predicted carries the largest probability (ties up to rounding) *)
IsTop(row, labels, y) ==
  \E c \in 1..Len(labels) : labels[c] = y /\ \A d \in 1..Len(labels) : row[d] <= row[c] + Slack
=============================================================================
