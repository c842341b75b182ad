---------------------------- MODULE ClassifyModel ----------------------------
(* Histories of fitting and asking one nearest-neighbour classifier object over labels that
   are not 0..C-1.  Broken variants: classes in order of appearance, classes 0..largest,
   answers given as column numbers, and refits that keep what an earlier fit learned.      *)
EXTENDS Classify

CONSTANTS Points, Labels, MaxOps, Broken

VARIABLES data, classes, left, last
vars == <<data, classes, left, last>>

Init == data = <<>> /\ classes = <<>> /\ left = MaxOps /\ last = [kind |-> "none"]

RECURSIVE Seen(_)
Seen(q) == IF q = <<>> THEN <<>> ELSE LET h == Seen(SubSeq(q, 1, Len(q) - 1)) IN IF q[Len(q)] \in Range(h) THEN h ELSE Append(h, q[Len(q)])
Largest(S) == CHOOSE x \in S : \A y \in S : y <= x
LabelsOf(d) == [i \in DOMAIN d |-> d[i][2]]
ListOf(labels) == CASE Broken = "appearance" -> Seen(labels)
                    [] Broken = "upto" -> [i \in 1..(Largest(Range(labels)) + 1) |-> i - 1]
                    [] OTHER -> ClassList(labels)

Fit(d) == /\ LET all == IF Broken = "remember" THEN data \o d ELSE d IN
             /\ data' = all
             /\ classes' = ListOf(LabelsOf(all))
          /\ last' = [kind |-> "fit", labels |-> LabelsOf(d)]

Dist(x) == [i \in DOMAIN data |-> CAbs(data[i][1] - x)]
Nearest(x) == LET D == Dist(x) IN CHOOSE i \in DOMAIN D : /\ \A j \in DOMAIN D : D[i] <= D[j]
                                                          /\ \A j \in DOMAIN D : D[j] = D[i] => i <= j
Ask(x) == /\ data # <<>>
          /\ LET c == data[Nearest(x)][2]
                 at == {k \in DOMAIN classes : classes[k] = c}
                 col == IF at = {} THEN 1 ELSE CHOOSE k \in at : TRUE
             IN last' = [kind |-> "ask", x |-> x, pred |-> IF Broken = "column" THEN col - 1 ELSE c,
                         proba |-> [k \in DOMAIN classes |-> IF k = col THEN PU ELSE 0]]
          /\ UNCHANGED <<data, classes>>

VARIABLE current
Next == /\ left > 0
        /\ left' = left - 1
        /\ \/ \E d \in [1..2 -> Points \X Labels] : Fit(d) /\ current' = d
           \/ \E x \in Points : Ask(x) /\ UNCHANGED current
Spec == Init /\ current = <<>> /\ [][Next]_<<vars, current>>

Trained == Range(LabelsOf(current))
ClassesSorted == last.kind # "none" => classes = ClassList(LabelsOf(current))
Answers == last.kind = "ask" => /\ last.pred \in Trained
                                /\ RowOfUnit(last.proba, Cardinality(Trained))
                                /\ AnswersBest(last.proba, ClassList(LabelsOf(current)), last.pred, 0)
                                /\ UniformVote([i \in DOMAIN current |-> CAbs(current[i][1] - last.x)], LabelsOf(current), ClassList(LabelsOf(current)), 1, last.proba)
=============================================================================
