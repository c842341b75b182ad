------------------------------ MODULE Transduct ------------------------------
(* What a transductive method may see.

   A node dataset has features and a graph, a label for every node (-1 where it is not
   known), the labelled set and possibly a validation set used for early stopping.  Only
   the labels of those two sets are visible; the number of classes is part of the task.  *)
EXTENDS Memo

Shown(mask, val) == [i \in DOMAIN mask |-> mask[i] \/ val[i]]

VisibleLabels(y, mask, val) == [i \in DOMAIN y |-> IF Shown(mask, val)[i] THEN y[i] ELSE -1]

ClassCount(y) ==
  LET top == CHOOSE m \in {y[i] : i \in DOMAIN y} \union {-1} :
               \A i \in DOMAIN y : y[i] <= m
  IN top + 1

Visible(y, mask, val) == <<VisibleLabels(y, mask, val), mask, val, ClassCount(y)>>
=============================================================================
