----------------------------- MODULE LimitsModel -----------------------------
(* All small configurations under repeated limits: the run limits what was configured,
   then the search patches the method's values and the run limits them again.             *)
EXTENDS Limits, TLC
CONSTANTS Values, Limits0, MaxOps, Broken

Places == {<<"m", <<"method", "params", "batch_size">>>>, <<"t", <<"dataset", "options", "max_train_samples">>>>, <<"o", <<"method", "params", "width">>>>}
Id(p) == IF p[1] = "t" THEN "dataset.options.max_train_samples" ELSE p[1]
Leaf(p, v) == IF v = 0 THEN [id |-> Id(p), path |-> p[2], t |-> "null", v |-> 0, tok |-> "null"] ELSE IntLeaf(Id(p), p[2], v)

VARIABLES cfg, R, ops, before
vars == <<cfg, R, ops, before>>

Configs == {{Leaf(p, f[p]) : p \in DOMAIN f} : f \in UNION {[s -> Values] : s \in SUBSET Places}}

Step(c) ==
  CASE Broken = "raise" -> {IF l.t = "int" /\ LimitOf(l, R) # 0 THEN [l EXCEPT !.v = LimitOf(l, R)] ELSE l : l \in c} \union Fills(c, R, {"dataset"})
    [] Broken = "null" -> {IF l.t = "null" THEN l ELSE Clamp(l, R) : l \in c} \union Fills(c, R, {"dataset"})
    [] Broken = "everywhere" -> {IF l.t = "int" /\ R.batch # 0 THEN [l EXCEPT !.v = Min(l.v, R.batch)] ELSE l : l \in c} \union Fills(c, R, {"dataset"})
    [] OTHER -> Apply(c, R, {"dataset"})

Init == /\ cfg \in Configs
        /\ \E a \in Limits0, b \in Limits0 : R = [Resolve("", [n \in Names |-> 0]) EXCEPT !.batch = a, !.train = b]
        /\ ops = 0
        /\ before = cfg
Limit == ops < MaxOps /\ ops' = ops + 1 /\ before' = cfg /\ cfg' = Step(cfg) /\ UNCHANGED R
Patch == /\ ops < MaxOps /\ ops > 0 /\ Broken # "once"
         /\ ops' = ops + 1 /\ before' = cfg /\ UNCHANGED R
         /\ \E v \in Values \ {0} : cfg' = Step({l \in cfg : l.id # "m"} \union {Leaf(<<"m", <<"method", "params", "batch_size">>>>, v)})
PatchOnly == /\ ops < MaxOps /\ ops > 0 /\ Broken = "once"
             /\ ops' = ops + 1 /\ before' = cfg /\ UNCHANGED R
             /\ \E v \in Values \ {0} : cfg' = {l \in cfg : l.id # "m"} \union {Leaf(<<"m", <<"method", "params", "batch_size">>>>, v)}
Next == Limit \/ Patch \/ PatchOnly
Spec == Init /\ [][Next]_vars

RunsWithin == ops > 0 => \A l \in cfg : Within(l, R)
CapsPresent == (ops > 0 /\ R.train # 0) => \E l \in cfg : l.id = "dataset.options.max_train_samples" /\ l.t = "int"
NeverRaised == \A l \in cfg : \A k \in before : (l.id = k.id /\ l.id # "m" /\ k.t = "int") => l.v <= k.v
OthersKept == \A l \in cfg : l.id = "o" => l \in before
Twice == ops > 0 => Apply(cfg, R, {"dataset"}) = cfg
=============================================================================
