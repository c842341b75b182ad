--------------------------------- MODULE Hpo ---------------------------------
(* Search spaces, their trials, and what a trial does to a base configuration.

   A space is a sequence of leaves [path, kind, vals]; a trial gives each leaf a value.
   A configuration is a set of leaves <<path, value>> (an empty mapping is a leaf too);
   paths are sequences of keys.                                                        *)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE ProdFrom(_, _)
ProdFrom(n, i) == IF i > Len(n) THEN 1 ELSE n[i] * ProdFrom(n, i + 1)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})

\* a grid: every combination, as often as the lists declare it
GridSize(leaves) == ProdFrom([i \in 1..Len(leaves) |-> Len(leaves[i].vals)], 1)
CompleteGrid(leaves, trials) ==
  /\ Len(trials) = GridSize(leaves)
  /\ \A k \in 1..Len(trials) :
       /\ Len(trials[k]) = Len(leaves)
       /\ Count(trials, trials[k]) = ProdFrom([i \in 1..Len(leaves) |-> Count(leaves[i].vals, trials[k][i])], 1)

\* what a value drawn for a leaf must satisfy: [tok, above (value - low), below (high - value): signs, type]
Admissible(leaf, v) ==
  CASE leaf.kind \in {"list", "choice"} -> \E i \in 1..Len(leaf.vals) : leaf.vals[i] = v.tok
    [] leaf.kind = "randint" -> v.type = "int" /\ v.above >= 0 /\ v.below > 0
    [] leaf.kind \in {"uniform", "loguniform"} -> v.type = "float" /\ v.above >= 0 /\ v.below >= 0
    [] OTHER -> FALSE

IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Related(p, q) == IsPrefix(p, q) \/ IsPrefix(q, p)
\* the base with exactly the patch's leaves replaced or added
Merge(base, patch) == {b \in base : \A c \in patch : ~Related(b[1], c[1])} \cup patch
=============================================================================
