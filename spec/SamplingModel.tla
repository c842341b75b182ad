---------------------------- MODULE SamplingModel ----------------------------
(* The sampler as a process that draws test, validation, an imbalance reduction and the
   labelled subset, in that order, choosing freely among everything the plan allows.  Checked
   for every label vector up to N samples in C classes and every plan of a small lattice:
   the sets always partition, and no plan leaves the sampler without a legal choice.
   `Broken` names a way to draw wrongly, which must be refuted.                            *)
EXTENDS Sampling, TLC
CONSTANTS N, C, Broken
VARIABLES y, plan, has, phase, te, va, tr, lab
vars == <<y, plan, has, phase, te, va, tr, lab>>

Splits == {[kind |-> "holdout", test |-> t, val |-> v, strat |-> s, k |-> 0, fold |-> 0] :
             t \in {0, 300, 500}, v \in {0, 250}, s \in BOOLEAN}
          \union {[kind |-> "kfold", test |-> 0, val |-> v, strat |-> s, k |-> k, fold |-> 0] :
             v \in {0, 500}, s \in BOOLEAN, k \in {2, 3}}
Labs == {[mode |-> "fraction", value |-> v, min |-> m, strategy |-> s, fixed |-> <<-1>>] :
           v \in {100, 500, 1000}, m \in {0, 1, 2}, s \in {"proportional", "balanced"}}
        \union {[mode |-> "count", value |-> 3, min |-> 1, strategy |-> s, fixed |-> <<-1>>] : s \in {"proportional", "balanced"}}
        \union {[mode |-> "per_class", value |-> v, min |-> 1, strategy |-> "proportional", fixed |-> <<-1>>] : v \in {1, 2}}
Imbs == {[kind |-> "none", to |-> "train", cap |-> 0, anum |-> 0, min |-> 0]}
        \union {[kind |-> "subsample_max_per_class", to |-> t, cap |-> 1, anum |-> 0, min |-> 0] : t \in {"train", "labeled"}}
        \union {[kind |-> "long_tail", to |-> t, cap |-> 0, anum |-> 5, min |-> 1] : t \in {"train", "labeled"}}
Pol == [respect |-> TRUE, masks |-> TRUE, override |-> FALSE]

Init == /\ y \in UNION {[1..n -> 1..C] : n \in 0..N}
        /\ plan \in {[split |-> s, lab |-> l, imb |-> i, pol |-> Pol] : s \in Splits, l \in Labs, i \in Imbs}
        /\ has \in BOOLEAN
        /\ phase = "split" /\ te = {} /\ va = {} /\ tr = {} /\ lab = {}

M == 2  \* size of the official test set
Split == /\ phase = "split"
         /\ \E t \in (IF KeepsOfficial(plan, has) THEN {0..(M - 1)} ELSE SUBSET All(y)) :
            \E v \in SUBSET All(y) :
              /\ (~KeepsOfficial(plan, has) /\ Broken # "val_from_all") => v \cap t = {}
              /\ IF Broken = "val_from_all"
                 THEN (~KeepsOfficial(plan, has) => Draw(y, All(y), t, 500, FALSE)) /\ Draw(y, All(y), v, 500, FALSE)
                 ELSE SplitSizes(y, plan, has, M, {}, v, t)
              /\ te' = t /\ va' = v
              /\ tr' = CASE Broken = "test_trained_on" -> All(y) \ v
                          [] OTHER -> (All(y) \ v) \ (IF KeepsOfficial(plan, has) THEN {} ELSE t)
         /\ phase' = "imb" /\ UNCHANGED <<y, plan, has, lab>>
Imb == /\ phase = "imb"
       /\ IF plan.imb.to = "train" \/ Broken = "imbalance_anywhere" THEN \E A \in SUBSET tr : Keeps(y, tr, plan.imb, A) /\ tr' = A
          ELSE UNCHANGED tr
       /\ phase' = "lab" /\ UNCHANGED <<y, plan, has, te, va, lab>>
Lab == /\ phase = "lab"
       /\ LET from == IF Broken = "label_all" THEN All(y) ELSE tr IN
          \E L \in SUBSET from : Budget(y, from, plan.lab, L)
             /\ IF plan.imb.to = "labeled" /\ Broken # "imbalance_anywhere" THEN \E A \in SUBSET L : Keeps(y, L, plan.imb, A) /\ lab' = A
                ELSE lab' = L
       /\ phase' = "done" /\ UNCHANGED <<y, plan, has, te, va, tr>>
Done == phase = "done" /\ UNCHANGED vars
Next == Split \/ Imb \/ Lab \/ Done
Spec == Init /\ [][Next]_vars

Partition ==
  /\ tr \cap va = {} /\ lab \subseteq tr
  /\ IF KeepsOfficial(plan, has) THEN phase # "split" => te = 0..(M - 1) ELSE te \cap (tr \union va) = {}
  /\ (phase = "done" /\ plan.imb.to = "labeled") =>
       tr \union va \union (IF KeepsOfficial(plan, has) THEN {} ELSE te) = All(y)
(* the relations are never empty *)
Progress == phase \in {"split", "imb", "lab"} => ENABLED Next
=============================================================================
