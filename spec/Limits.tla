------------------------------- MODULE Limits --------------------------------
(* Resource limits of a benchmark run.  A configuration is a set of leaves
   [id, path, t, v, tok]: path has "#" for list positions, id is the concrete place, t is
   "int" (v the number), "like" (a float or text that reads as the integer v, tok the value
   itself), "null" or "other" (tok).  A limit of 0 means none.                             *)
EXTENDS Integers, Sequences, FiniteSets

Names == {"pre", "batch", "sup", "chunk", "train", "test"}

Preset(p) ==
  CASE p = "v100" -> [pre |-> 32, batch |-> 128, sup |-> 64, chunk |-> 512, train |-> 0, test |-> 0]
    [] p = "h100" -> [pre |-> 64, batch |-> 512, sup |-> 256, chunk |-> 1024, train |-> 0, test |-> 0]
    [] OTHER -> [n \in Names |-> 0]

\* without a GPU, profile "auto" is the small one
Profile(p) == IF p = "auto" THEN "v100" ELSE p

Resolve(p, explicit) == [n \in Names |-> IF explicit[n] # 0 THEN explicit[n] ELSE Preset(Profile(p))[n]]

Governor(path) ==
  CASE path = <<"dataset", "options", "max_train_samples">> -> "train"
    [] path = <<"dataset", "options", "max_test_samples">> -> "test"
    [] path = <<"preprocess", "plan", "steps", "#", "params", "batch_size">> -> "pre"
    [] path = <<"views", "plan", "views", "#", "preprocess", "steps", "#", "params", "batch_size">> -> "pre"
    [] path = <<"method", "params", "batch_size">> -> "batch"
    [] path = <<"method", "params", "sup_batch_size">> -> "sup"
    [] path = <<"method", "params", "classifier_params", "batch_size">> -> "batch"
    [] path = <<"method", "model", "classifier_params", "batch_size">> -> "batch"
    [] path = <<"graph", "spec", "chunk_size">> -> "chunk"
    [] OTHER -> "none"

Caps == {"train", "test", "chunk"}  \* filled in where they are absent
Min(a, b) == IF a < b THEN a ELSE b
IntLeaf(id, path, v) == [id |-> id, path |-> path, t |-> "int", v |-> v, tok |-> ""]

LimitOf(l, R) == IF Governor(l.path) = "none" THEN 0 ELSE R[Governor(l.path)]

Clamp(l, R) ==
  LET L == LimitOf(l, R)
  IN IF L = 0 THEN l
     ELSE IF l.t = "int" THEN [l EXCEPT !.v = Min(l.v, L)]
     ELSE IF l.t = "like" THEN (IF l.v > L THEN IntLeaf(l.id, l.path, L) ELSE l)
     ELSE IF l.t = "null" /\ Governor(l.path) \in Caps THEN IntLeaf(l.id, l.path, L)
     ELSE l

CapPlace == [train |-> <<"dataset.options.max_train_samples", <<"dataset", "options", "max_train_samples">>>>,
             test |-> <<"dataset.options.max_test_samples", <<"dataset", "options", "max_test_samples">>>>,
             chunk |-> <<"graph.spec.chunk_size", <<"graph", "spec", "chunk_size">>>>]

Absent(leaves, id) == ~ \E l \in leaves : l.id = id

\* sections: which of "dataset" and "graph" the configuration has
Fills(leaves, R, sections) ==
  {IntLeaf(CapPlace[c][1], CapPlace[c][2], R[c]) :
     c \in {d \in Caps : R[d] # 0 /\ Absent(leaves, CapPlace[d][1]) /\ (IF d = "chunk" THEN "graph" ELSE "dataset") \in sections}}

Apply(leaves, R, sections) == {Clamp(l, R) : l \in leaves} \union Fills(leaves, R, sections)

\* what a run may use
Within(l, R) == LimitOf(l, R) = 0 \/ l.t \notin {"int", "like"} \/ l.v <= LimitOf(l, R)
=============================================================================
