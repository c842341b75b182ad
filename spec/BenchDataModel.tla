---------------------------- MODULE BenchDataModel ----------------------------
(* A driver that selects rows for a method and for the scores, over every split of a small
   dataset with an official test set (or a test set drawn from the training set).
   Broken: "none", "positions" (labels of the first rows), "nooffset" (official test samples
   are taken for training samples), "visible" (only unlabelled labels are hidden), "columns"
   (column numbers are read as labels), "othersplit" (val scores on the training set),
   "sorted" (rows in order of number, labels in order of the split).                         *)
EXTENDS BenchData, TLC

CONSTANTS NTrain, NTest, Labels, Broken

VARIABLES true, pred, L, U, V, T, official, order, phase, xl, yl, yobs, scored
vars == <<true, pred, L, U, V, T, official, order, phase, xl, yl, yobs, scored>>

N == NTrain + NTest
TrainIds == 1..NTrain
Perms(S) == {q \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => q[i] # q[j]}

Init == /\ true \in [1..N -> Labels] /\ pred \in [1..N -> Labels]
        /\ official \in BOOLEAN
        /\ \E part \in [TrainIds -> {"l", "u", "v", "t"}] :
             /\ L = {i \in TrainIds : part[i] = "l"} /\ U = {i \in TrainIds : part[i] = "u"} /\ V = {i \in TrainIds : part[i] = "v"}
             /\ T = IF official THEN (NTrain + 1)..N ELSE {i \in TrainIds : part[i] = "t"}
             /\ (official => {i \in TrainIds : part[i] = "t"} = {})
        /\ L # {} /\ order \in Perms(L)
        /\ phase = "split" /\ xl = <<>> /\ yl = <<>> /\ yobs = <<>> /\ scored = {}

Nodes == IF official THEN N ELSE NTrain
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})

Hand == /\ phase = "split" /\ phase' = "fitted"
        /\ xl' = IF Broken = "sorted" THEN Asc(L) ELSE order
        /\ yl' = [i \in 1..Len(order) |-> IF Broken = "positions" THEN true[i] ELSE true[order[i]]]
        /\ yobs' = [i \in 1..Nodes |-> IF (IF Broken = "visible" THEN i \in U ELSE i \notin (L \union V)) THEN 0 - 1 ELSE true[i]]
        /\ UNCHANGED <<true, pred, L, U, V, T, official, order, scored>>

Columns == Asc({true[i] : i \in L})        \* the method knows the labels it was shown
Place(v) == Cardinality({c \in Rng(Columns) : c < v})   \* column of the label, from 0
Says(i) == IF pred[i] \in Rng(Columns) THEN pred[i] ELSE Columns[1]
Read(i) == IF Broken = "columns" THEN Place(Says(i)) ELSE Columns[Place(Says(i)) + 1]
RowsOf(s) == IF s = "val" THEN (IF Broken = "othersplit" THEN L \union U ELSE V)
             ELSE IF s = "train" THEN L \union U
             ELSE IF official /\ Broken = "nooffset" THEN {i - NTrain : i \in T} ELSE T
Score == /\ phase = "fitted" /\ phase' = "scored"
         /\ scored' = {[split |-> s, ids |-> Asc(RowsOf(s))] : s \in {"train", "val", "test"}}
         /\ UNCHANGED <<true, pred, L, U, V, T, official, order, xl, yl, yobs>>
Spec == Init /\ [][Hand \/ Score]_vars

SplitOf(s) == IF s = "val" THEN V ELSE IF s = "train" THEN L \union U ELSE T
LabelledRows == phase # "split" => OnceEach(xl, L) /\ OwnLabels(xl, yl, true)
HiddenLabels == phase # "split" => Masked([i \in 1..Nodes |-> i], yobs, true, L \union V)
RightRows == \A e \in scored : LET yt == [i \in 1..Len(e.ids) |-> true[e.ids[i]]]
                                  yp == [i \in 1..Len(e.ids) |-> Read(e.ids[i])]
                              IN ScoresRows(yt, yp, SplitOf(e.split), true, [i \in 1..N |-> Says(i)])
=============================================================================
