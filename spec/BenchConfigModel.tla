---------------------------- MODULE BenchConfigModel ----------------------------
(* The stages a run goes through when the configuration it is given may be wrong in several
   places at once: read the file, parse it field by field, apply the benchmark rules, load,
   apply the rules of every run, sample, fit, report.  Each thing wrong belongs to one stage.
   Broken: "none", "dropped" (unknown keys are ignored), "coerced" (a value of the wrong kind is
   turned into one of the right kind), "late" (benchmark rules are applied after loading),
   "lax" (benchmark rules are skipped unless a search is on), "first" (only the first rule is
   looked at), "dirs" (the run directory is made before parsing), "sampled" (the rules of every
   run are applied after sampling).                                                        *)
EXTENDS BenchConfig, TLC
CONSTANTS Broken, Two

Sample == {"run.name", "run.seed", "run.fail_fast", "limits.max_train_samples", "method.kind", "sampling.plan", "run.seeds"}
Classes == {"absent", "null", "bool", "int+", "int0", "float", "digits", "blank", "str", "intset", "list", "map{}", "map"}
Bench == {"download", "select"}
Every == {"metric", "augmode"}

VARIABLES cls, unknown, bench, badb, bade, search, at, made, err, took
vars == <<cls, unknown, bench, badb, bade, search, at, made, err, took>>

Good(p) == CASE EntryAt[p].k \in {"str", "mkind"} -> "str" [] EntryAt[p].k = "bool" -> "bool" [] EntryAt[p].k = "map+" -> "map"
             [] EntryAt[p].k = "seeds" -> "intset" [] OTHER -> "int+"
WordAt(p) == IF p = "method.kind" THEN "inductive" ELSE "x"
Take(p, c) == IF Broken = "coerced" /\ p \in {"run.seed", "run.fail_fast"} /\ c \in {"float", "bool", "str", "null", "int+"} THEN "yes"
              ELSE Accepts(EntryAt[p], c, WordAt(p), {})
Must(p, c) == Accepts(EntryAt[p], c, WordAt(p), {})

Init == /\ \E p \in Sample, q \in (IF Two THEN Sample ELSE {"run.seeds"}), c \in Classes, d \in (IF Two THEN Classes ELSE {"absent", "map"}) :
              cls = [x \in Sample |-> IF x = p THEN c ELSE IF x = q THEN d ELSE Good(x)]
        /\ unknown \in BOOLEAN /\ bench \in BOOLEAN /\ badb \in SUBSET Bench /\ bade \in SUBSET Every /\ search \in BOOLEAN
        /\ at = "file" /\ made = FALSE /\ err = {} /\ took = FALSE

Refuse(s) == /\ at' = "stopped" /\ err' = s /\ UNCHANGED <<made, took>>
Goes(st) == /\ at' = st /\ UNCHANGED <<made, err, took>>
Same == UNCHANGED <<cls, unknown, bench, badb, bade, search>>

SchemaBad == {p \in Sample : Take(p, cls[p]) = "no"} \union (IF unknown /\ Broken # "dropped" THEN {"unknown"} ELSE {})
MaybeBad == {p \in Sample : Take(p, cls[p]) = "either"}
Parse == /\ at = "file" /\ Same
         /\ IF SchemaBad # {}
            THEN /\ at' = "stopped" /\ err' = SchemaBad /\ made' = (Broken = "dirs") /\ UNCHANGED took
            ELSE \/ MaybeBad # {} /\ Refuse(MaybeBad)
                 \/ at' = "rules" /\ made' = TRUE /\ UNCHANGED <<err, took>>
Active == IF ~bench \/ (Broken = "lax" /\ ~search) THEN {} ELSE IF Broken = "first" THEN badb \ {"select"} ELSE badb
Rules == /\ at = "rules" /\ Same
         /\ IF Active # {} /\ Broken # "late" THEN Refuse(Active) ELSE Goes("load")
Load == /\ at = "load" /\ Same /\ took' = TRUE /\ at' = "pre" /\ UNCHANGED <<made, err>>
Pre == /\ at = "pre" /\ Same
       /\ IF Active # {} /\ Broken = "late" THEN Refuse(Active)
          ELSE IF bade # {} /\ Broken # "sampled" THEN Refuse(bade) ELSE Goes("sample")
Draw == /\ at = "sample" /\ Same
        /\ IF bade # {} THEN Refuse(bade \union {"sampled"}) ELSE Goes("fit")
Fit == at = "fit" /\ Same /\ Goes("done")
Spec == Init /\ [][Parse \/ Rules \/ Load \/ Pre \/ Draw \/ Fit]_vars

WrongFields == {p \in Sample : Must(p, cls[p]) = "no"} \union (IF unknown THEN {"unknown"} ELSE {})
RefusedBeforeAnythingStarts == (at # "file" /\ WrongFields # {}) => at = "stopped" /\ ~made /\ ~took
RefusedForAReason == (at = "stopped") => err \subseteq (WrongFields \union MaybeBad \union badb \union bade)
RulesBeforeData == (bench /\ badb # {} /\ took) => FALSE
EveryRuleBeforeSampling == (bade # {} /\ at \in {"fit", "done"}) \/ (at = "stopped" /\ "sampled" \in err) => FALSE
GoodOnesRun == (at = "stopped") => (WrongFields # {} \/ MaybeBad # {} \/ bade # {} \/ (bench /\ badb # {}))
=============================================================================
