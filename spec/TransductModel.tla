--------------------------- MODULE TransductModel ---------------------------
(* Fits of one method object on a dataset that its owner edits between fits: the labels of
   hidden nodes are replaced and the labelled set is changed in place.  The method counts
   labelled neighbours on a path graph.  Broken: "none", "leak" (counts hidden neighbours
   too), "prior" (weighs by the label frequencies of all nodes), "identity" (prepared data
   are kept per object and not refreshed when the object was edited), "marker" (an unknown
   label stops the method).                                                             *)
EXTENDS Transduct

CONSTANTS Nodes, Classes, MaxOps, Broken

VARIABLES y, mask, prep, memo, ok, n
vars == <<y, mask, prep, memo, ok, n>>

Labels == 0..(Classes - 1)
None == [i \in Nodes |-> FALSE]
Hidden(i) == ~mask[i]

Init == /\ y \in [Nodes -> Labels] /\ mask \in [Nodes -> BOOLEAN] /\ mask[1]
        /\ prep = <<>> /\ memo = {} /\ ok = TRUE /\ n = 0

Near(i) == {j \in Nodes : j = i - 1 \/ j = i + 1 \/ j = i}
Counts(yy, mm, i) ==
  [c \in Labels |-> Cardinality({j \in Near(i) : yy[j] = c /\ (mm[j] \/ Broken = "leak")})
                    + (IF Broken = "prior" THEN Cardinality({j \in Nodes : yy[j] = c}) ELSE 0)]
Answer(yy, mm) ==
  IF Broken = "marker" /\ \E i \in Nodes : yy[i] = -1 THEN <<"refused">>
  ELSE <<"ok", [i \in Nodes |-> Counts(yy, mm, i)]>>

Fit ==
  LET in == IF Broken = "identity" /\ prep # <<>> THEN prep ELSE <<y, mask>>
      r == Answer(in[1], in[2])
      k == <<VisibleLabels(y, mask, None), mask>>
  IN /\ ok' = (ok /\ Agrees(memo, k, r))
     /\ memo' = Remember(memo, k, r)
     /\ prep' = in
     /\ n' = n + 1 /\ UNCHANGED <<y, mask>>

EditHidden == \E i \in Nodes, v \in Labels \union {-1} :
  /\ Hidden(i) /\ y' = [y EXCEPT ![i] = v] /\ n' = n + 1 /\ UNCHANGED <<mask, prep, memo, ok>>
EditMask == \E i \in Nodes :
  /\ i # 1 /\ y[i] >= 0 /\ mask' = [mask EXCEPT ![i] = ~@] /\ n' = n + 1 /\ UNCHANGED <<y, prep, memo, ok>>

NewObject == prep # <<>> /\ prep' = <<>> /\ n' = n + 1 /\ UNCHANGED <<y, mask, memo, ok>>

Next == n < MaxOps /\ (Fit \/ EditHidden \/ EditMask \/ NewObject)
Spec == Init /\ [][Next]_vars

NonInterference == ok
=============================================================================
