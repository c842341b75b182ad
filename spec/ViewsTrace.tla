------------------------------ MODULE ViewsTrace ------------------------------
(* event: [plan, nf, seed, err, pkey, cols (per view: sequence), base (per view: [tr, te] column tokens),
           out (per view: [tr, te, rest] column tokens, and whether all else came through), same]   *)
EXTENDS TraceJudge, Views, Memo, TLC

WStart(t) == {}
Key(e, i) == e.pkey \o "/" \o e.plan[i].name \o "/" \o ToString(e.nf[i]) \o "/" \o e.seed
WStep(t, s, e) == IF e.err # "" THEN s
  ELSE s \union {[key |-> Key(e, i), val |-> e.cols[i], big |-> e.big[i], seed |-> e.seed, view |-> e.pkey \o e.plan[i].name, nf |-> e.nf[i]] :
                 i \in {j \in 1..Len(e.plan) : e.plan[j].mode = "random"}}

Take(tokens, cols) == [k \in 1..Len(cols) |-> tokens[cols[k] + 1]]
WClause(t, s, e) ==
  LET n == Len(e.plan)
      sets == [i \in 1..n |-> Range(e.cols[i])]
  IN IF ~Valid(e.plan) THEN (IF e.err = "rejected" THEN "ok" ELSE "InvalidPlansAreRejected")
  ELSE IF ~e.same THEN "SourceUntouched"
  ELSE IF e.err # "" THEN
     \* some view cannot be resolved: decidable when no draw is involved, or for any draw
     IF e.err = "rejected" /\ \E i \in 1..n : e.plan[i].mode \in {"indices", "complement"} THEN
        (IF \E i \in 1..n : e.plan[i].mode = "indices" /\ Rejected(e.plan, e.nf, i, sets) THEN "ok"
         ELSE IF \E i \in 1..n : e.plan[i].mode = "complement" /\ e.maybe[i] THEN "ok" ELSE "ValidPlansAreResolved")
     ELSE "ValidPlansAreResolved"
  ELSE IF \E i \in 1..n : ~Increasing(e.cols[i]) THEN "ColumnsIncreasingAndDistinct"
  ELSE IF \E i \in 1..n : Rejected(e.plan, e.nf, i, sets) THEN "UnresolvablePlansAreRejected"
  ELSE IF \E i \in 1..n : ~Allowed(e.plan, e.nf, i, sets) THEN "ColumnsAreThoseOfTheRule"
  ELSE IF \E i \in 1..n : e.out[i].tr # Take(e.base[i].tr, e.cols[i]) THEN "TrainHoldsTheColumns"
  ELSE IF \E i \in 1..n : e.base[i].te # <<>> /\ e.out[i].te # Take(e.base[i].te, e.cols[i]) THEN "TestHoldsTheSameColumns"
  ELSE IF \E i \in 1..n : (e.base[i].te = <<>>) # (e.out[i].te = <<>>) THEN "TestKept"
  ELSE IF \E i \in 1..n : ~e.out[i].rest THEN "RestCarriedOver"
  ELSE IF \E i \in 1..n : e.plan[i].mode = "random" /\ ~Agrees(s, Key(e, i), e.cols[i]) THEN "RandomViewFixedByPlanAndSeed"
  ELSE IF \E i \in 1..n : e.plan[i].mode = "random" /\ e.big[i] /\
            \E m \in s : m.big /\ m.view = e.pkey \o e.plan[i].name /\ m.nf = e.nf[i] /\ m.seed # e.seed /\ m.val = e.cols[i] THEN "RandomViewFollowsTheSeed"
  ELSE "ok"
=============================================================================
