------------------------------ MODULE BenchConfig ------------------------------
(* What an experiment configuration may say, and what each thing it says means.

   A configuration is described by the class of the value at every place the format knows
   ("absent" when nothing is there), plus the places where it has keys the format does not know.
   Classes: null bool int+ int0 int- float digits (a string holding an integer) empty blank str
   list{} liststr (only non-blank strings) intset (distinct integers) list map{} map.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

F(p, k, r, d) == [p |-> p, k |-> k, req |-> r, dflt |-> d]

Sections == {"run", "dataset", "sampling", "preprocess", "method", "evaluation"}
OptSections == {"limits", "views", "graph", "augmentation", "search"}
Kinds == {"inductive", "transductive"}

(* dflt: what the field means when it is absent ("-" for none: the field must be there). *)
Table ==
  {F("run.name", "str", TRUE, "-"), F("run.seed", "seed", FALSE, "0"), F("run.seeds", "seeds", FALSE, "null"),
   F("run.output_dir", "str", FALSE, "\"modssc_cache/output\""), F("run.fail_fast", "bool", FALSE, "true"),
   F("run.log_level", "str", FALSE, "null"), F("run.benchmark_mode", "bool", FALSE, "false"),
   F("run.allow_custom_factories", "bool", FALSE, "false"),
   F("limits.profile", "profile", FALSE, "null"),
   F("limits.max_preprocess_batch_size", "pos", FALSE, "null"), F("limits.max_method_batch_size", "pos", FALSE, "null"),
   F("limits.max_method_sup_batch_size", "pos", FALSE, "null"), F("limits.max_graph_chunk_size", "pos", FALSE, "null"),
   F("limits.max_train_samples", "pos", FALSE, "null"), F("limits.max_test_samples", "pos", FALSE, "null"),
   F("dataset.id", "str", TRUE, "-"), F("dataset.options", "map", FALSE, "{}"), F("dataset.download", "bool", FALSE, "true"),
   F("dataset.cache_dir", "str", FALSE, "null"),
   F("sampling.seed", "int", FALSE, "null"), F("sampling.plan", "map+", TRUE, "-"),
   F("preprocess.seed", "int", FALSE, "null"), F("preprocess.fit_on", "str", FALSE, "null"), F("preprocess.cache", "bool", FALSE, "true"),
   F("preprocess.plan", "map+", TRUE, "-"), F("preprocess.cache_dir", "str", FALSE, "null"),
   F("views.seed", "int", FALSE, "null"), F("views.plan", "map+", TRUE, "-"),
   F("graph.enabled", "bool", FALSE, "false"), F("graph.seed", "int", FALSE, "null"), F("graph.cache", "bool", FALSE, "true"),
   F("graph.cache_dir", "str", FALSE, "null"), F("graph.spec", "map", FALSE, "{}"),
   F("augmentation.enabled", "bool", FALSE, "true"), F("augmentation.seed", "int", FALSE, "null"),
   F("augmentation.mode", "str", FALSE, "\"fixed\""), F("augmentation.weak", "map", FALSE, "{}"),
   F("augmentation.strong", "map", FALSE, "{}"), F("augmentation.modality", "str", FALSE, "null"),
   F("method.kind", "mkind", TRUE, "-"), F("method.id", "str", TRUE, "-"), F("method.params", "map", FALSE, "{}"),
   F("method.device", "map", FALSE, "-"), F("method.model", "map", FALSE, "-"),
   F("method.device.device", "str", FALSE, "\"cpu\""), F("method.device.dtype", "str", FALSE, "\"float32\""),
   F("method.device.resolved_device", "str", FALSE, "null"),
   F("method.model.factory", "str", FALSE, "null"), F("method.model.params", "map", FALSE, "{}"),
   F("method.model.classifier_id", "str", FALSE, "null"), F("method.model.classifier_backend", "str", FALSE, "\"torch\""),
   F("method.model.classifier_params", "map", FALSE, "{}"), F("method.model.ema", "bool", FALSE, "null"),
   F("evaluation.report_splits", "names", TRUE, "-"), F("evaluation.metrics", "names", TRUE, "-"),
   F("evaluation.split_for_model_selection", "str", FALSE, "null"),
   F("search.enabled", "bool", TRUE, "-"), F("search.kind", "skind", TRUE, "-"), F("search.seed", "int", FALSE, "null"),
   F("search.n_trials", "pos", FALSE, "null"), F("search.repeats", "pos", FALSE, "1"), F("search.objective", "map+", TRUE, "-"),
   F("search.space", "map+", TRUE, "-"),
   F("search.objective.split", "split", TRUE, "-"), F("search.objective.metric", "metric", TRUE, "-"),
   F("search.objective.direction", "direction", TRUE, "-"), F("search.objective.aggregate", "aggregate", TRUE, "-")}

Known == {f.p : f \in Table} \union Sections \union OptSections
EntryAt == [p \in {f.p : f \in Table} |-> CHOOSE f \in Table : f.p = p]

Word(k, s) ==
  CASE k = "mkind" -> s \in Kinds
    [] k = "skind" -> s \in {"grid", "random"}
    [] k = "split" -> s \in {"train", "val", "test"}
    [] k = "direction" -> s \in {"maximize", "minimize"}
    [] k = "aggregate" -> s = "mean"
    [] k = "profile" -> s \in {"auto", "v100", "h100"}
    [] OTHER -> TRUE
Words == {"mkind", "skind", "split", "metric", "direction", "aggregate", "profile"}
Ints == {"int+", "int0", "int-"}

(* yes: must be taken as it is; no: must be refused; either: a reading of the format that is not pinned
   (an explicit null where the field may be left out; numbers in strings, as placeholders give them). *)
Accepts(e, c, s, metrics) ==
  CASE c = "absent" -> IF e.req THEN "no" ELSE "yes"
    [] c = "null" -> IF e.req THEN "no" ELSE "either"
    [] e.k = "str" -> IF c \in {"str", "digits"} THEN "yes" ELSE "no"
    [] e.k \in Words -> IF c = "str" /\ Word(e.k, s) /\ (e.k = "metric" => s \in metrics) THEN "yes" ELSE "no"
    [] e.k = "bool" -> IF c = "bool" THEN "yes" ELSE "no"
    [] e.k = "int" -> IF c \in Ints THEN "yes" ELSE "no"
    [] e.k = "seed" -> IF c \in {"int+", "int0"} THEN "yes" ELSE IF c \in {"int-", "digits"} THEN "either" ELSE "no"
    [] e.k = "pos" -> IF c = "int+" THEN "yes" ELSE "no"
    [] e.k = "seeds" -> IF c = "intset" THEN "yes" ELSE "no"
    [] e.k = "map" -> IF c \in {"map", "map{}"} THEN "yes" ELSE "no"
    [] e.k = "map+" -> IF c = "map" THEN "yes" ELSE "no"
    [] e.k = "names" -> IF c = "liststr" THEN "yes" ELSE IF c \in {"list", "intset"} THEN "either" ELSE "no"
    [] OTHER -> "no"

SectionOk(p, c) ==
  IF p \in Sections THEN (IF c \in {"map", "map{}"} THEN "yes" ELSE "no")
  ELSE (IF c \in {"map", "map{}", "absent"} THEN "yes" ELSE IF c = "null" THEN "either" ELSE "no")

(* ---- the search space ---- a leaf: where it is and what it holds *)
Num(x) == x.c = "int" \/ x.c = "float"
LeafOk(lf) ==
  /\ lf.keys /\ lf.under
  /\ \/ lf.k = "list"
     \/ /\ lf.k = "dist" /\ ~lf.extra
        /\ CASE lf.dist \in {"uniform", "loguniform"} ->
                    Num(lf.lo) /\ Num(lf.hi) /\ lf.lo.n < lf.hi.n /\ lf.vals = "absent" /\ (lf.dist = "loguniform" => lf.lo.n > 0)
             [] lf.dist = "randint" -> lf.lo.c = "int" /\ lf.hi.c = "int" /\ lf.lo.n < lf.hi.n /\ lf.vals = "absent"
             [] lf.dist = "choice" -> lf.vals = "list" /\ lf.lo.c = "absent" /\ lf.hi.c = "absent"
             [] OTHER -> FALSE
SpaceOk(leaves) == \A lf \in leaves : LeafOk(lf)

(* ---- contradictions between fields ---- e: the values in force (defaults filled in) *)
Contradictions(e) ==
     (IF e.bench /\ ~e.failfast THEN {"E_BENCH_FAIL_FAST_REQUIRED"} ELSE {})
  \union (IF e.model /\ e.factory = e.classifier THEN {"E_BENCH_CONFIG"} ELSE {})
  \union (IF e.model /\ e.factory /\ ~e.custom THEN {"E_BENCH_CUSTOM_FACTORY_DISABLED"} ELSE {})
  \union (IF e.model /\ e.factory /\ e.clsfields THEN {"E_BENCH_CONFIG"} ELSE {})
  \union (IF e.model /\ ~e.factory /\ e.facfields THEN {"E_BENCH_CONFIG"} ELSE {})
  \union (IF e.skind = "random" /\ (~e.sseed \/ ~e.strials) THEN {"E_BENCH_CONFIG"} ELSE {})

(* ---- what benchmark mode demands, before any data is read ---- *)
BenchRules(e) ==
  IF ~e.bench THEN {} ELSE
     (IF e.download THEN {"E_BENCH_DOWNLOAD_FORBIDDEN"} ELSE {})
  \union (IF ~e.cachedir THEN {"E_BENCH_CACHE_DIR_REQUIRED"} ELSE {})
  \union (IF e.autos > 0 THEN {"E_BENCH_AUTO_FORBIDDEN"} ELSE {})
  \union (IF e.select = "none" THEN {"E_BENCH_SPLIT_MODEL_SELECTION_REQUIRED"}
          ELSE IF ~\E k \in 1..Len(e.reports) : e.reports[k] = e.select THEN {"E_BENCH_SPLIT_MODEL_SELECTION_INVALID"} ELSE {})
  \union (IF e.search /\ e.select # "none" /\ e.osplit # e.select THEN {"E_BENCH_SPLIT_MODEL_SELECTION_CONFLICT"} ELSE {})
  \union (IF e.hasbackend /\ e.backend = "none" THEN {"E_BENCH_BACKEND_REQUIRED"} ELSE {})
  \union (IF (e.fittable \/ e.vfittable) /\ ~e.fiton THEN {"E_BENCH_FIT_ON_REQUIRED"} ELSE {})

(* ---- what every run demands before it samples ---- *)
RunRules(e) ==
     (IF (e.fittable \/ e.vfittable) /\ ~e.fiton THEN {"E_BENCH_FIT_ON_REQUIRED"} ELSE {})
  \union (IF e.missing THEN {"E_BENCH_DEPENDENCY_MISSING"} ELSE {})
  \union (IF e.cotrain /\ ~e.views THEN {"E_BENCH_CONFIG"} ELSE {})
  \union (IF e.kind = "transductive" /\ ~e.dsgraph /\ ~e.graph THEN {"E_BENCH_GRAPH_REQUIRED"} ELSE {})
  \union (IF e.aug /\ (e.augmode # "fixed" \/ ~e.weak \/ ~e.strong) THEN {"E_BENCH_CONFIG"} ELSE {})
  \union (IF e.badmetric \/ e.badsplit THEN {"E_BENCH_CONFIG"} ELSE {})
  \union (IF e.bench /\ e.torch /\ ~e.totorch THEN {"E_BENCH_PREPROCESS_TO_TORCH_REQUIRED"} ELSE {})

(* ---- placeholders ---- a text is a sequence of parts; env: names to values *)
RECURSIVE Expand(_, _)
Expand(parts, env) ==
  IF parts = <<>> THEN ""
  ELSE LET p == Head(parts) IN (IF p.var THEN env[p.s] ELSE p.s) \o Expand(Tail(parts), env)
Unset(parts, names) == {parts[k].s : k \in {j \in 1..Len(parts) : parts[j].var /\ ~(parts[j].s \in names)}}
=============================================================================
