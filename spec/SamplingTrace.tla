---------------------------- MODULE SamplingTrace ----------------------------
(* Judges splits drawn by the real sampler against the relations of Sampling.

   t: y (classes 1.. of the training source), ty (classes of the official test set), has, graph,
      official [train, val, test] index sequences of provided graph masks (or absent: offm FALSE)
   sample event: plan, err ("" | refused | crash), res, and two companions drawn with the same
      seed: raw (default labelling, no imbalance) and nolim (same labelling, no imbalance)
      each result is [train, val, test, lab, unl: sequences; rt, rv, re, rl, ru: references;
                      st: class counts claimed by the statistics; n: length of masks or -1]
   folds event: the drawn fold of every fold number, same plan and seed                     *)
EXTENDS Sampling, TraceJudge

ToSet(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Len(q) = Cardinality(ToSet(q))
Keep(t, p) == ~t.graph /\ KeepsOfficial(p, t.has)
UseMasks(t, p) == t.graph /\ t.offm /\ p.pol.masks

MustRefuse(t, e) ==
  \/ ~UseMasks(t, e.plan) /\ InvalidSplit(e.plan)
  \/ InvalidLab(e.plan) /\ Len(t.y) > 0 /\ (e.rawok => e.raw.train # <<>>)
  \/ InvalidImb(e.plan) /\ (e.rawok => e.raw.train # <<>> /\ (e.plan.imb.to = "labeled" => e.nolimok /\ e.nolim.lab # <<>>))
  \/ /\ e.plan.lab.fixed # <<-1>> /\ e.rawok /\ e.raw.train # <<>>
     /\ \/ ~NoDup(e.plan.lab.fixed)
        \/ ~(ToSet(e.plan.lab.fixed) \subseteq ToSet(e.raw.train))
MayRefuse(t, e) ==  \* a fixed labelled sample may have been removed by an imbalance rule
  e.plan.lab.fixed # <<-1>> /\ e.plan.imb.kind # "none" /\ e.plan.imb.to = "train"

Sets(r) == <<r.train, r.val, r.test, r.lab, r.unl>>

PStart(t) == <<>>
PStep(t, s, e) == s

(* S01: partition *)
PClause(t, s, e) ==
  IF e.k = "folds" THEN
     IF \E i \in 1..Len(e.folds) : ~NoDup(e.folds[i]) THEN "FoldsAreDuplicateFree"
     ELSE IF \E i, j \in 1..Len(e.folds) : i < j /\ ToSet(e.folds[i]) \cap ToSet(e.folds[j]) # {} THEN "FoldsAreDisjoint"
     ELSE IF UNION {ToSet(e.folds[i]) : i \in 1..Len(e.folds)} # All(t.y) THEN "FoldsCoverTheData"
     ELSE "ok"
  ELSE IF e.err = "crash" THEN "PlanIsSampledOrRefused"
  ELSE IF e.err = "refused" THEN (IF MustRefuse(t, e) \/ MayRefuse(t, e) THEN "ok" ELSE "ValidPlanIsNotRefused")
  ELSE IF MustRefuse(t, e) THEN "ImpossiblePlanIsRefused"
  ELSE
  LET r == e.res p == e.plan
      tr == ToSet(r.train) va == ToSet(r.val) te == ToSet(r.test) la == ToSet(r.lab) un == ToSet(r.unl)
  IN
  IF t.graph /\ r.n # Len(t.y) THEN "MasksAreAsLongAsTheData"
  ELSE IF \E i \in 1..5 : ~NoDup(Sets(r)[i]) THEN "SetsAreDuplicateFree"
  ELSE IF ~t.graph /\ (r.rt # "train" \/ r.rv # "train" \/ r.rl # "train" \/ r.ru # "train"
                       \/ r.re # (IF Keep(t, p) THEN "test" ELSE "train")) THEN "ReferencesNameTheSource"
  ELSE IF ~((tr \union va \union la \union un) \subseteq All(t.y)) THEN "IndicesInRange"
  ELSE IF Keep(t, p) /\ te # 0..(Len(t.ty) - 1) THEN "OfficialTestIsUntouched"
  ELSE IF ~Keep(t, p) /\ ~(te \subseteq All(t.y)) THEN "IndicesInRange"
  ELSE IF tr \cap va # {} \/ (~Keep(t, p) /\ te \cap (tr \union va) # {}) THEN "SetsAreDisjoint"
  ELSE IF la \cap un # {} THEN "LabelledAndUnlabelledAreDisjoint"
  ELSE IF la \union un # tr THEN "LabelledAndUnlabelledCoverTrain"
  ELSE IF UseMasks(t, p) /\ (\/ va # ToSet(t.official.val)
                             \/ te # ToSet(t.official.test)
                             \/ ((p.imb.kind = "none" \/ p.imb.to = "labeled") /\ tr # ToSet(t.official.train))
                             \/ ~(tr \subseteq ToSet(t.official.train)))
       THEN "OfficialMasksAreUntouched"
  ELSE IF ~UseMasks(t, p) /\ (p.imb.kind = "none" \/ p.imb.to = "labeled")
          /\ tr \union va \union (IF Keep(t, p) THEN {} ELSE te) # All(t.y)
       THEN "SetsCoverTheSource"
  ELSE IF p.lab.fixed # <<-1>> /\ (p.imb.kind = "none" \/ p.imb.to = "train") /\ la # ToSet(p.lab.fixed) /\ tr # {}
       THEN "FixedLabelledSetIsUsed"
  ELSE "ok"

(* S02: sizes, budgets, imbalance *)
DrawnSizes(t, p, r) ==
  SplitSizes(t.y, p, IF t.graph THEN FALSE ELSE t.has, Len(t.ty), ToSet(r.train), ToSet(r.val), ToSet(r.test))
StatsAgree(t, r) ==
  LET cc(y, q) == [c \in 1..t.nc |-> Cardinality({i \in ToSet(q) : y[i + 1] = c})] IN
  IF t.graph THEN /\ r.sn = <<Len(r.train), Len(r.val), Len(r.test), Len(r.lab), Len(r.unl)>>
                  /\ r.slab = cc(t.y, r.lab)
  ELSE /\ r.sn = <<Len(r.train), Len(r.val), Len(r.test), Len(r.lab), Len(r.unl)>>
       /\ r.slab = cc(t.y, r.lab) /\ r.strain = cc(t.y, r.train) /\ r.sval = cc(t.y, r.val)
       /\ r.stest = cc(IF r.re = "test" THEN t.ty ELSE t.y, r.test)
ZClause(t, s, e) ==
  IF e.k = "folds" \/ e.err # "" THEN "ok"
  ELSE
  LET r == e.res p == e.plan
      raw == ToSet(e.raw.train) tr == ToSet(r.train) la == ToSet(r.lab)
      before == ToSet(e.nolim.lab)
  IN
  IF ~UseMasks(t, p) /\ ~DrawnSizes(t, p, e.raw) THEN "SplitSizesFollowThePlan"
  ELSE IF r.val # e.raw.val \/ r.test # e.raw.test THEN "ImbalanceLeavesOtherSetsAlone"
  ELSE IF p.imb.to = "train" /\ ~Keeps(t.y, raw, p.imb, tr) THEN "ImbalanceKeepsThePrescribedNumber"
  ELSE IF p.imb.to = "labeled" /\ tr # raw THEN "ImbalanceLeavesOtherSetsAlone"
  ELSE IF p.lab.fixed = <<-1>> /\ p.imb.to = "train" /\ ~(la \subseteq tr /\ (tr # {} => BudgetTotal(t.y, tr, p.lab, la))) THEN "LabelledBudgetTotal"
  ELSE IF p.lab.fixed = <<-1>> /\ p.imb.to = "train" /\ tr # {} /\ ~BudgetMinimum(t.y, tr, p.lab, la) THEN "LabelledBudgetMinimumPerClass"
  ELSE IF p.lab.fixed = <<-1>> /\ p.imb.to = "train" /\ tr # {} /\ ~BudgetPerClass(t.y, tr, p.lab, la) THEN "LabelledBudgetPerClass"
  ELSE IF p.lab.fixed = <<-1>> /\ p.imb.to = "labeled" /\ ~Budget(t.y, raw, p.lab, before) THEN "LabelledBudget"
  ELSE IF p.imb.to = "labeled" /\ ~Keeps(t.y, before, p.imb, la) THEN "ImbalanceKeepsThePrescribedNumber"
  ELSE IF ~StatsAgree(t, r) THEN "StatisticsAgree"
  ELSE "ok"
=============================================================================
