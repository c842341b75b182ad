---------------------------- MODULE SeedSweepModel ----------------------------
(* A sweep that runs its seeds one after the other and keeps running totals, over every
   pattern of outcomes ("ok" with a value, "fail" leaving a record, "crash" leaving none).
   Broken: "none", "uncounted" (a crashed run is in no count), "unwritten" (no summary when
   every run crashed), "stops" (the first failure ends every sweep), "goeson" (fail-fast is
   ignored), "polluted" (values of failed runs are aggregated), "dedup" (a seed asked for twice
   runs once), "stale" (a section keeps the seed of the first run), "code0" (failures are not
   told to the caller), "spread" (sample instead of population spread).                      *)
EXTENDS SeedSweep, TLC

CONSTANTS NS, Vals, Broken

Outs == [how : {"ok"}, v : Vals] \union [how : {"fail", "crash"}, v : {CHOOSE x \in Vals : TRUE}]

VARIABLES seeds, ff, plan, i, ran, cfgs, n, sum, sq, lo, hi, reports, end
vars == <<seeds, ff, plan, i, ran, cfgs, n, sum, sq, lo, hi, reports, end>>

Base == {[id |-> "run.seed", v |-> 99], [id |-> "run.seeds", v |-> 0], [id |-> "run.name", v |-> 1000], [id |-> "run.output_dir", v |-> 2000],
         [id |-> "sampling.seed", v |-> 5], [id |-> "sampling.plan", v |-> 7], [id |-> "graph.k", v |-> 3], [id |-> "method.params.seed", v |-> 8]}
Secs == {"sampling", "graph", "method", "run"}

NameOf(s) == 1000 + s
Init == /\ seeds \in UNION {[1..k -> 1..2] : k \in 1..NS} /\ ff \in BOOLEAN
        /\ plan \in [1..NS -> Outs]
        /\ i = 1 /\ ran = <<>> /\ cfgs = <<>> /\ n = 0 /\ sum = 0 /\ sq = 0 /\ lo = 0 /\ hi = 0 /\ reports = 0 /\ end = "none"

CfgFor(s) == LET good == ForSeed(Base, Secs, [seed |-> s, name |-> NameOf(s), out |-> 3000])
             IN IF Broken = "stale" /\ cfgs # <<>>
                THEN {f \in good : f.id # "graph.seed"} \union {[id |-> "graph.seed", v |-> seeds[1]]} ELSE good

Skips == Broken = "dedup" /\ \E j \in 1..(i - 1) : seeds[j] = seeds[i]

Run == /\ end = "none" /\ i <= Len(seeds)
       /\ IF Skips THEN i' = i + 1 /\ UNCHANGED <<ran, cfgs, n, sum, sq, lo, hi, reports, end>>
          ELSE LET o == plan[i]
                   counts == o.how = "ok" \/ (Broken = "polluted" /\ o.how = "fail")
               IN /\ ran' = Append(ran, [seed |-> seeds[i], ok |-> o.how = "ok", vals |-> <<o.v>>])
                  /\ cfgs' = Append(cfgs, CfgFor(seeds[i]))
                  /\ n' = IF counts THEN n + 1 ELSE n
                  /\ sum' = IF counts THEN sum + o.v ELSE sum
                  /\ sq' = IF counts THEN sq + o.v * o.v ELSE sq
                  /\ lo' = IF counts /\ (n = 0 \/ o.v < lo) THEN o.v ELSE lo
                  /\ hi' = IF counts /\ (n = 0 \/ o.v > hi) THEN o.v ELSE hi
                  /\ reports' = IF o.how = "crash" THEN reports ELSE reports + 1
                  /\ i' = i + 1
                  /\ end' = IF o.how # "ok" /\ ((ff /\ Broken # "goeson") \/ Broken = "stops") THEN "raised" ELSE "none"
       /\ UNCHANGED <<seeds, ff, plan>>

Failed == IF Broken = "uncounted" THEN reports - n ELSE Len(ran) - n
Finish == /\ end = "none" /\ i > Len(seeds)
          /\ end' = IF (Len(ran) - n) > 0 /\ Broken # "code0" THEN "one" ELSE "zero"
          /\ UNCHANGED <<seeds, ff, plan, i, ran, cfgs, n, sum, sq, lo, hi, reports>>
Spec == Init /\ [][Run \/ Finish]_vars

Done == end # "none"
Over == end \in {"one", "zero"}
Written == Over /\ (reports > 0 \/ Broken # "unwritten")
AllOk == \A k \in 1..Len(ran) : ran[k].ok

EverySeedOnce == Over => /\ Len(ran) = Len(seeds) /\ \A k \in 1..Len(ran) : ran[k].seed = seeds[k]
StopsOnlyWhenTold == end = "raised" => ff /\ ~ran[Len(ran)].ok
StopsAtOnce == ff => \A k \in 1..(Len(ran) - 1) : ran[k].ok
OnlyTheSeedChanges == \A k \in 1..Len(cfgs) : \A f \in cfgs[k] :
     \/ f \in Base \/ f.id \in {"run.name", "run.output_dir"} \/ (f.v = ran[k].seed /\ f.id \in {"run.seed", "sampling.seed", "graph.seed"})
SeedEverywhere == \A k \in 1..Len(cfgs) : {[id |-> x, v |-> ran[k].seed] : x \in {"run.seed", "sampling.seed", "graph.seed"}} \subseteq cfgs[k]
Summed == Over => Written
CountsRight == Written => n = Len(Good(ran)) /\ Failed = Len(ran) - Len(Good(ran))
StatusRight == Written => Status(n + Failed, n) = (IF AllOk THEN "success" ELSE IF Good(ran) # <<>> THEN "partial_failure" ELSE "failed")
StatsRight == (Written /\ n > 0) =>
     LET q == Column(ran, 1) nn == IF Broken = "spread" /\ n > 1 THEN n - 1 ELSE n
     IN sum = MeanN(q) /\ n * sq - sum * sum = VarNN(q) /\ nn = Len(q) /\ lo = MinSeq(q) /\ hi = MaxSeq(q)
ToldRight == Over => ((end = "zero") <=> AllOk)
=============================================================================
