------------------------------ MODULE Sampling ------------------------------
(* What a sampler may return: relations between a plan, a label vector and a drawn split.

   y      label classes (1..) of the samples 0..n-1 of the training source
   plan   [split |-> [kind, test, val, strat, k, fold],   fractions are numerators over D
           lab   |-> [mode, value, min, strategy, fixed],
           imb   |-> [kind, to, cap, anum, min],          decay anum/10
           pol   |-> [respect, masks, override]]
   A drawn split is [train, val, test, lab, unl] (sets) with testref "train" or "test".     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

D == 1000   \* denominator of fractions

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Clip(x, lo, hi) == Max2(lo, Min2(hi, x))
All(y) == 0..(Len(y) - 1)
Classes(y, S) == {y[i + 1] : i \in S}
Of(y, S, c) == {i \in S : y[i + 1] = c}
Cnt(y, S, c) == Cardinality(Of(y, S, c))

(* x is num/den of n, rounded (ties may go either way) *)
Rounded(x, num, den, n) == 2 * Abs(x * den - num * n) <= den

(* a subset H of S takes from every class its share, within one sample *)
Proportional(y, S, H) ==
  S # {} => \A c \in Classes(y, S) :
     Abs(Cnt(y, H, c) * Cardinality(S) - Cnt(y, S, c) * Cardinality(H)) < Cardinality(S)

Draw(y, S, H, num, strat) ==
  /\ H \subseteq S
  /\ Rounded(Cardinality(H), num, D, Cardinality(S))
  /\ strat => Proportional(y, S, H)

----------------------------------------------------------------------------
(* Which source the test set comes from, and what the split part of a plan demands.  m is
   the size of the official test set (0: there is none, has = FALSE).                       *)
KeepsOfficial(plan, has) == has /\ plan.pol.respect /\ ~plan.pol.override

FoldOf(y, S, F, plan) ==
  /\ F \subseteq S
  /\ IF plan.split.strat
     THEN \A c \in Classes(y, S) : Cnt(y, F, c) \in {Cnt(y, S, c) \div plan.split.k,
                                                      (Cnt(y, S, c) + plan.split.k - 1) \div plan.split.k}
     ELSE Cardinality(F) \in {Cardinality(S) \div plan.split.k,
                              (Cardinality(S) + plan.split.k - 1) \div plan.split.k}

SplitSizes(y, plan, has, m, tr, va, te) ==
  LET S == All(y) IN
  IF KeepsOfficial(plan, has)
  THEN /\ te = 0..(m - 1)
       /\ IF plan.split.kind = "holdout" THEN Draw(y, S, va, plan.split.val, plan.split.strat)
          ELSE FoldOf(y, S, va, plan)
  ELSE /\ IF plan.split.kind = "holdout" THEN Draw(y, S, te, plan.split.test, plan.split.strat)
          ELSE FoldOf(y, S, te, plan)
       /\ Draw(y, S \ te, va, plan.split.val, plan.split.strat)

InvalidSplit(plan) ==
  plan.split.kind = "kfold" /\ (plan.split.k < 2 \/ plan.split.fold < 0 \/ plan.split.fold >= plan.split.k)
InvalidLab(plan) ==
  /\ plan.lab.fixed = <<-1>>
  /\ plan.lab.mode = "fraction" /\ ~(plan.lab.value > 0 /\ plan.lab.value <= D)
InvalidImb(plan) ==
  \/ plan.imb.kind = "subsample_max_per_class" /\ plan.imb.cap < 1
  \/ plan.imb.kind = "long_tail" /\ ~(plan.imb.anum > 0 /\ plan.imb.anum < 10)

----------------------------------------------------------------------------
(* the labelled budget *)
Need(y, T, lab, c) == IF lab.min > 0 /\ Cnt(y, T, c) >= lab.min THEN lab.min ELSE 0
Floor(y, T, lab) == MapThenSumSet(LAMBDA c : Need(y, T, lab, c), Classes(y, T))
IsTarget(y, T, lab, t) ==
  CASE lab.mode = "fraction"  -> \E r \in {t} : Rounded(r, lab.value, D, Cardinality(T))
    [] lab.mode = "count"     -> t = Clip(lab.value, 0, Cardinality(T))
    [] lab.mode = "per_class" -> t = Clip(lab.value * Cardinality(Classes(y, T)), 0, Cardinality(T))
Targets(y, T, lab) == {t \in 0..Cardinality(T) : IsTarget(y, T, lab, t)}

BudgetTotal(y, T, lab, L) ==
  LET f == Floor(y, T, lab) n == Cardinality(L) IN
  \E t \in Targets(y, T, lab) :
     IF lab.mode # "per_class" THEN n = Max2(t, f)
     ELSE \/ n = Max2(t, f)                       \* shortages filled from other classes, or not
          \/ n = MapThenSumSet(LAMBDA c : Min2(Max2(lab.value, lab.min), Cnt(y, T, c)), Classes(y, T))
BudgetMinimum(y, T, lab, L) == \A c \in Classes(y, T) : Cnt(y, L, c) >= Need(y, T, lab, c)
BudgetPerClass(y, T, lab, L) ==
  LET n == Cardinality(T) k == Cardinality(Classes(y, T)) CS == Classes(y, T) IN
  \E t \in Targets(y, T, lab) :
    CASE lab.mode = "per_class" ->
           lab.value >= lab.min => \A c \in CS : /\ Cnt(y, L, c) >= Min2(lab.value, Cnt(y, T, c))
                                                 /\ (\A d \in CS : Cnt(y, T, d) >= lab.value) => Cnt(y, L, c) = lab.value
      [] lab.mode # "per_class" /\ lab.strategy = "balanced" ->
           (\A c \in CS : Cnt(y, T, c) > t \div k /\ t \div k >= lab.min)
             => \A c \in CS : Cnt(y, L, c) \in {t \div k, (t + k - 1) \div k}
      [] OTHER ->
           (\A c \in CS : (Cnt(y, T, c) * t) \div n >= Need(y, T, lab, c))
             => \A c \in CS : Abs(Cnt(y, L, c) * n - Cnt(y, T, c) * t) < n
Budget(y, T, lab, L) ==
  /\ L \subseteq T
  /\ T # {} => /\ BudgetTotal(y, T, lab, L) /\ BudgetMinimum(y, T, lab, L) /\ BudgetPerClass(y, T, lab, L)

----------------------------------------------------------------------------
(* what an imbalance rule keeps of B *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
(* samples with a larger class first; equally large classes in some order *)
Rankings(y, B) ==
  LET CS == Classes(y, B) k == Cardinality(CS) IN
  {r \in [CS -> 0..(k - 1)] : /\ \A c, d \in CS : c # d => r[c] # r[d]
                              /\ \A c, d \in CS : Cnt(y, B, c) > Cnt(y, B, d) => r[c] < r[d]}
LongTailOf(y, B, imb, r, c, x) ==
  LET top == Max({Cnt(y, B, d) : d \in Classes(y, B)}) n == Cnt(y, B, c) IN
  \E q \in 0..top : /\ Rounded(q, Pow(imb.anum, r[c]), Pow(10, r[c]), top)
                    /\ x = Min2(Max2(q, imb.min), n)
Keeps(y, B, imb, A) ==
  /\ A \subseteq B
  /\ CASE imb.kind = "none" -> A = B
       [] imb.kind = "subsample_max_per_class" ->
            \A c \in Classes(y, B) : Cnt(y, A, c) = Min2(imb.cap, Cnt(y, B, c))
       [] imb.kind = "long_tail" ->
            B # {} => \E r \in Rankings(y, B) : \A c \in Classes(y, B) : LongTailOf(y, B, imb, r, c, Cnt(y, A, c))
=============================================================================
