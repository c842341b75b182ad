------------------------------ MODULE BenchData -------------------------------
(* What a benchmark hands to a method and how it scores it.  Samples are numbered 1..N,
   those of an official test set after those of the training set; true is the sequence of
   their labels; split says which samples are labelled, unlabelled, val and test.           *)
EXTENDS Integers, Sequences, FiniteSets

Rng(q) == {q[i] : i \in 1..Len(q)}
OnceEach(q, S) == Rng(q) = S /\ Len(q) = Cardinality(S)

\* rows of samples ids with their own labels
OwnLabels(ids, ys, true) == Len(ys) = Len(ids) /\ \A i \in 1..Len(ids) : ys[i] = true[ids[i]]

\* a node's label may be seen when it is labelled or used for model selection
Masked(ids, ys, true, seen) == \A i \in 1..Len(ids) : IF ids[i] \in seen THEN ys[i] = true[ids[i]] ELSE ys[i] < 0
Shown(ids, ys, true, must) == \A i \in 1..Len(ids) : ids[i] \in must => ys[i] = true[ids[i]]

\* the pairs a metric gets are those of the split's samples, each exactly once
Count(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
PairsOf(S, true, pred) == {<<true[i], pred[i]>> : i \in S}
ScoresRows(yt, yp, S, true, pred) ==
  /\ Len(yt) = Cardinality(S) /\ Len(yp) = Cardinality(S)
  /\ \A x \in PairsOf(S, true, pred) \union {<<yt[i], yp[i]>> : i \in 1..Len(yt)} :
       Cardinality({i \in 1..Len(yt) : <<yt[i], yp[i]>> = x}) = Cardinality({i \in S : <<true[i], pred[i]>> = x})

=============================================================================
