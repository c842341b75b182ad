------------------------------ MODULE SeedSweep -------------------------------
(* A seed sweep: the same experiment once per seed, and a summary of what succeeded.
   A configuration is a set of leaves [id, v]; the outcomes of the runs are a sequence of
   [seed, ok, vals] where vals are the metric values (integers) in a fixed order of leaves.   *)
EXTENDS Integers, Sequences, FiniteSets

Seeded == {"sampling", "preprocess", "views", "graph", "augmentation", "search"}

\* the configuration of the run for one seed: secs are the sections that are there
ForSeed(cfg, secs, run) ==
  LET fixed == {[id |-> "run.seed", v |-> run.seed], [id |-> "run.name", v |-> run.name], [id |-> "run.output_dir", v |-> run.out]}
               \union {[id |-> x \o ".seed", v |-> run.seed] : x \in secs \cap Seeded}
      gone == {f.id : f \in fixed}
  IN {f \in cfg : f.id \notin gone /\ f.id # "run.seeds"} \union fixed

Status(n, good) == IF good = n THEN "success" ELSE IF good > 0 THEN "partial_failure" ELSE "failed"

RECURSIVE SumSeq(_), SqSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE q[1] + SumSeq(Tail(q))
SqSeq(q) == IF q = <<>> THEN 0 ELSE q[1] * q[1] + SqSeq(Tail(q))
MinSeq(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : x <= q[i]
MaxSeq(q) == CHOOSE x \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : x >= q[i]

\* n times the mean, and n^2 times the variance, stay integers
MeanN(q) == SumSeq(q)
VarNN(q) == Len(q) * SqSeq(q) - SumSeq(q) * SumSeq(q)

Good(outs) == SelectSeq(outs, LAMBDA o : o.ok)
Column(outs, c) == [i \in 1..Len(Good(outs)) |-> Good(outs)[i].vals[c]]
=============================================================================
