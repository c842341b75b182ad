#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=list(observe), hook_needed=hook)))

S = "src/modssc/"
prop("D01", "A cached dataset entry survives any crash whole or not at all",
 "Wherever a dataset download or forced refresh is killed, and whenever a provider fails part-way, the next access returns one complete dataset coming from a single provider read, or provisions it afresh; it never returns a mixture of two reads or a partial dataset, and it never fails because of what the crash left behind. "
 "An access that forbids downloading after a crash returns such a complete dataset or reports that the dataset is not cached. A refresh whose provider fails leaves the previously cached dataset in place.",
 ["crash_points", "fault_sequences", "histories"],
 "all filesystem-operation crash points (including torn writes) of first download, forced refresh and repair, followed by every kind of next access, repeatedly",
 "The tests run each operation to completion or raise one scripted exception; none kills the process between two filesystem effects, so no test sees an old manifest over a half-rewritten directory.",
 [S+"data_loader/services/service.py", S+"data_loader/cache.py", S+"data_loader/storage/files.py", S+"data_loader/manifest.py"],
 [("entry is visible only with directory and manifest; manifest written last", S+"data_loader/services/service.py:_download_and_store"), ("unreadable manifests purge and re-provision", S+"data_loader/services/service.py:_load_processed_or_purge")],
 [("processed directory", "payload of one provider read", S+"data_loader/cache.py:processed_dir"), ("manifest", "commit record of the entry", S+"data_loader/cache.py:manifest_path")],
 ["load_dataset/download_dataset results and errors after a kill"])
prop("D02", "Only one process at a time populates a given dataset entry",
 "For every interleaving of concurrent downloads of the same dataset into one cache, at most one of them is populating the entry at any moment, and every other attempt either waits out, is refused as busy, or finds the finished entry. "
 "An attempt that is refused leaves the holder's exclusion intact, and once a holder has finished, failed or died the entry can be populated again. Downloads of different datasets never block each other.",
 ["schedules", "crash_points"],
 "all interleavings (bounded number of processes and pre-emptions) of lock acquisition, population, release, failure and death",
 "The tests acquire the lock in one thread and check that the file goes away; two contenders plus a third are needed before a refused contender can break the holder's exclusion.",
 [S+"data_loader/cache.py", S+"data_loader/services/service.py"],
 [("exclusive lock file around population", S+"data_loader/cache.py:cache_lock")],
 [("lock file", "held while an entry is populated", S+"data_loader/cache.py:lock_path")],
 ["number of providers simultaneously inside a read for one entry", "error raised to refused contenders"])
prop("D03", "Cached datasets are faithful and never confused with one another",
 "A dataset served from the cache equals, in values, types, shapes, splits, graph edges, masks and metadata, what the provider returned when it was stored. Two requests that differ in provider, dataset, version, task, modality or any option never share an entry, and requests that mean the same thing do. "
 "A cached, non-forced request never calls the provider, and a request that forbids downloading never does.",
 ["inputs", "histories", "configurations"],
 "all dataset contents of the supported kinds (dense, integer, boolean, string, ragged object, sparse-free graph) and all histories of loads, forced refreshes and option changes",
 "The tests store a handful of toy datasets and vary one option; they do not check pairs of requests against each other nor arbitrary contents and histories.",
 [S+"data_loader/storage/files.py", S+"data_loader/types.py", S+"data_loader/services/service.py"],
 [("content key of the request identity", S+"data_loader/types.py:DatasetIdentity.fingerprint"), ("save/load of arrays by kind", S+"data_loader/storage/files.py")],
 observe=["values returned by load_dataset", "provider call count"])
prop("D04", "Cache housekeeping keeps the newest entries and nothing else is lost",
 "Keeping only the latest entries leaves, for every dataset source, exactly its most recently created entry usable and removes the others completely; purging a dataset removes all of its entries and only its entries. "
 "Rebuilding the index from disk gives the index that the stored entries describe, and the reported sizes and listings agree with what is on disk.",
 ["histories"],
 "all histories of downloads with varying options, refreshes, purges, garbage collection and index rebuilds",
 "The tests run gc and purge once on a two-entry cache; the listing/index/disk agreement is an invariant over histories.",
 [S+"data_loader/cache.py"],
 [("index over manifests", S+"data_loader/cache.py:rebuild_index"), ("retention by creation time", S+"data_loader/cache.py:gc_keep_latest")],
 observe=["list_processed_entries, gc/purge reports, directory contents, subsequent cached loads"])
prop("D05", "Every provider delivers its source's data, filtered and limited as asked",
 "Whatever the provider, a dataset holds exactly the samples of its source that the request asks for: every sample with its own features and label, only the listed classes when a class filter is given, and at most the requested number of samples, none repeated, in source order unless a seeded draw is asked for. "
 "The official test table is delivered whenever the source has one and it is wanted; a graph limited to some of its nodes keeps exactly the edges among them, renumbered, with their masks and labels; toy datasets have the requested sizes. "
 "The same request of the same source gives the same dataset.",
 ["inputs", "configurations"],
 "all source tables (sizes, label vocabularies, missing tables), graphs and options (class filter, sample limits, seeds, columns) of the toy, torchvision, torchaudio, Hugging Face, OpenML, TFDS and PyG providers",
 "The tests stub each library with one fixed table of two or three rows; filters, limits and seeds are not combined, and the sample-to-label association is not compared with the source.",
 [S+"data_loader/providers/torchvision.py", S+"data_loader/providers/torchaudio.py", S+"data_loader/providers/hf.py", S+"data_loader/providers/openml.py", S+"data_loader/providers/tfds.py", S+"data_loader/providers/pyg.py", S+"data_loader/providers/toy.py"],
 [("class filter, then limit", S+"data_loader/providers/torchaudio.py"), ("node-limited graphs", S+"data_loader/providers/pyg.py")],
 observe=["load_dataset results compared with the contents of stand-in source libraries"])
prop("D06", "A dataset cache can be moved or copied and keeps serving its data",
 "After a dataset cache directory is moved or copied to any other place, cached datasets are served without contacting their source and hold the same values as before. "
 "Values that name files kept in the cache's own source tree name the same files under the cache's present location, whatever the directories above and below are called; every other value, including other paths, is unchanged.",
 ["histories", "inputs"],
 "all histories of stores, moves, copies, refreshes and loads, with arbitrary directory names above the cache and below its source tree",
 "The tests move one cache once, between two plain directories with one flat file layout.",
 [S+"data_loader/services/service.py"],
 [("stored audio paths are re-rooted on load", S+"data_loader/services/service.py:_rebase_cached_dataset_paths")],
 observe=["paths served by load_dataset, and whether the files exist"])
prop("S01", "Splits partition the data and labels are only given inside training",
 "For every sampling plan and dataset, the training, validation and test sets drawn from the same source are disjoint, duplicate-free and in range, cover that source exactly when no imbalance is requested, and the labelled and unlabelled sets partition the training set. "
 "An official test set is kept untouched whenever the plan asks for it, cross-validation folds partition the data across fold numbers, and graph masks obey the same rules.",
 ["inputs", "configurations"],
 "all plans (hold-out, k-fold, stratified or not, official test respected or not, labelling modes, imbalance modes, fixed indices) on all label vectors and seeds",
 "The tests assert disjointness on a few plans; the combinations of split kind, stratification, official test, labelling and imbalance on small or skewed label vectors are not sampled.",
 [S+"sampling/services/service.py", S+"sampling/splitters.py", S+"sampling/labeling.py", S+"sampling/imbalance.py", S+"sampling/result.py"],
 [("split construction", S+"sampling/splitters.py"), ("labelled subset of train", S+"sampling/labeling.py")],
 observe=["SamplingResult indices, refs and masks"])
prop("S02", "Split sizes, labelled budgets and imbalance follow the plan exactly",
 "The sizes of the drawn sets are the ones the plan's fractions prescribe, stratified sets apportion them over classes within one sample of proportion, and the number of labelled samples (overall and per class) is the requested fraction, count or per-class number, after the documented minimum per class, balancing and clipping. "
 "A class capped or made long-tailed by an imbalance rule keeps exactly the prescribed number of samples, and samples outside the rule's scope are untouched.",
 ["inputs", "configurations"],
 "all fractions, counts, class counts, per-class minima and imbalance parameters on small label vectors, including classes smaller than the request",
 "The tests use round numbers on balanced labels; rounding, clipping and largest-remainder ties only show on arbitrary class counts.",
 [S+"sampling/splitters.py", S+"sampling/labeling.py", S+"sampling/imbalance.py", S+"sampling/stats.py"],
 [("largest-remainder apportionment", S+"sampling/splitters.py"), ("labelled budget", S+"sampling/labeling.py"), ("class caps and long tails", S+"sampling/imbalance.py")],
 observe=["sizes and class counts of SamplingResult and its stats"])
prop("S03", "A split is a pure function of data, plan and seed",
 "The same dataset, plan and seed always give the same split and the same split identity, whatever ran before in the process and whatever the state of the global random generators, and the global generators are left untouched. "
 "Changing the labelling or imbalance part of a plan, but not its split part, leaves the train/validation/test sets unchanged apart from what imbalance removes; and two splits share an identity only if dataset identity, plan and seed agree.",
 ["histories", "configurations", "inputs"],
 "all interleavings of sampling calls, all plans and seeds, arbitrary global random state",
 "The tests call sampling twice in a row; they do not vary the global random state, the order of calls or compare plans that share a split part.",
 [S+"sampling/services/service.py", S+"sampling/fingerprint.py", S+"sampling/plan.py"],
 [("per-purpose derived seeds", S+"sampling/fingerprint.py"), ("split identity", S+"sampling/services/service.py")],
 observe=["SamplingResult arrays, split_fingerprint, global RNG states"])
prop("S04", "Stored splits reload identically and survive crashes whole",
 "A split saved to disk reloads with identical indices, references, masks, statistics, plan, creation time and identity. "
 "Saving over an existing split without permission to overwrite changes nothing and is refused, and if saving or overwriting is killed at any point a later load returns one complete split or fails as missing or invalid, never a mixture of two splits.",
 ["crash_points", "inputs", "histories"],
 "all splits the sampler can produce and all filesystem-operation crash points of a first save and an overwrite",
 "The tests save and load one split in a clean directory; no test interrupts an overwrite.",
 [S+"sampling/storage.py", S+"sampling/result.py"],
 [("save/load of split metadata and arrays", S+"sampling/storage.py")],
 observe=["load_split result or error after a kill"])
prop("P01", "The preprocessing cache never changes the result",
 "Preprocessing with a cache gives exactly the features, labels and artefacts that preprocessing without any cache gives, whatever plans, datasets, fit sets and seeds used that cache before, and whether the train part, the test part, both or neither were already there. "
 "Discarding unused intermediate artefacts and disabling or reordering the cache likewise leave the final result unchanged.",
 ["histories", "configurations", "inputs"],
 "all histories of preprocess calls sharing a cache directory over a family of plans, datasets, fit sets and seeds, with any subset of cached parts missing",
 "The tests run the same plan twice on the same data; cache poisoning needs two different plans (or datasets) that agree on what a step is believed to read but not on what it reads.",
 [S+"preprocess/services/pipeline.py", S+"preprocess/cache.py", S+"preprocess/catalog.py", S+"preprocess/fingerprint.py"],
 [("content-addressed step keys over consumed inputs", S+"preprocess/services/pipeline.py"), ("declared inputs of steps", S+"preprocess/catalog.py")],
 [("step cache entries", "outputs of a step keyed by its inputs", S+"preprocess/cache.py")],
 ["final dataset and artefact store contents of preprocess()"])
prop("P02", "Fitted preprocessing sees only the fitting rows and treats test like train",
 "What a fitted preprocessing step learns depends only on the rows designated for fitting: changing any other training row, any label outside the fitting set or the whole test set never changes how a given row is transformed. "
 "The same learned transformation is applied to train and test, so equal rows are encoded equally in both; a label's code is fixed by the training split's classes, so equal labels are encoded equally in both and test labels never change it.",
 ["inputs", "configurations"],
 "all fitting sets, all perturbations of the other rows and of the test set, for every fittable step and for label encoding",
 "Tests check a few fitted parameters on one input; independence from unseen rows is a relation between runs that no single run shows.",
 [S+"preprocess/services/pipeline.py", S+"preprocess/steps"],
 [("fit on fit_indices only, transform both splits", S+"preprocess/services/pipeline.py")],
 observe=["transformed rows of paired runs"])
prop("P03", "Interrupted or damaged preprocessing caches are recomputed, not trusted",
 "If a preprocessing run is killed at any point, or files of its cache entries are truncated or removed, the next run with the same inputs completes and gives exactly the result an empty cache would give. "
 "A run never reports an error only because of what an earlier interrupted run left behind.",
 ["crash_points", "fault_sequences"],
 "all filesystem-operation crash points of a cold and of a partially warm run, and loss or truncation of any single cache file",
 "The tests delete one manifest by hand; they never kill a run between the files of one entry or between the train and test entries.",
 [S+"preprocess/cache.py", S+"preprocess/services/pipeline.py"],
 [("entry manifests written last; incomplete entries ignored", S+"preprocess/cache.py")],
 observe=["result or error of the next preprocess()"])
prop("P04", "A preprocessing plan runs the applicable steps in order, reproducibly",
 "Exactly the enabled steps that apply to the dataset's modality and whose required inputs exist run, once each and in plan order; every skipped step is reported as skipped. "
 "Each step's randomness depends only on the master seed, the step and its position in the plan, and the final features, labels, edges and masks are the ones the plan's output selection names, with everything the plan does not transform passed through unchanged.",
 ["configurations", "inputs"],
 "all plans built from the step catalogue (enabled flags, modality restrictions, required inputs) on datasets with any available fields",
 "The tests resolve a few fixed plans; the rule interacts over sequences of steps whose outputs enable later ones.",
 [S+"preprocess/plan.py", S+"preprocess/services/pipeline.py", S+"preprocess/registry.py"],
 [("plan resolution", S+"preprocess/services/pipeline.py:resolve_plan"), ("per-step derived seed", S+"preprocess/services/pipeline.py")],
 observe=["resolved plan, executed transforms, final dataset"])
prop("V01", "Feature views select the planned columns consistently and touch nothing else",
 "Each view holds exactly the columns its rule selects, duplicate-free and in increasing order, the same ones for train and test; a complement view holds exactly the columns its reference view does not, and a random view has the prescribed size and depends only on the plan and seed. "
 "Labels, edges and masks are carried over unchanged, the source dataset is not modified, and a plan with fewer than two views, repeated names or a complement of a missing or later view is rejected.",
 ["inputs", "configurations"],
 "all view plans (fixed, random, complement chains) over all feature counts and seeds",
 "The tests build two or three plans; the complement/size/clipping rules quantify over all feature counts, fractions and chains.",
 [S+"views/services/service.py", S+"views/plan.py", S+"views/types.py"],
 [("column selection", S+"views/services/service.py"), ("plan validation", S+"views/plan.py")],
 observe=["ViewsResult columns and datasets", "source dataset before/after"])
prop("A01", "Augmentation depends only on seed, epoch, sample and plan",
 "Augmenting a sample gives the same result whenever seed, epoch, sample identity, plan and sample agree, whatever was augmented before, in whatever order, and whatever the global random state; the global generators and the input sample are left untouched, and another seed, epoch or sample identity draws afresh. "
 "The weak and strong branches of a strategy each equal the augmentation of that plan alone, and steps run in plan order.",
 ["histories", "schedules", "inputs"],
 "all orders of samples and epochs, all plans over the registered operations, arbitrary global random state",
 "The tests call an operation twice with one seed; independence from call order and global state is a property of histories.",
 [S+"data_augmentation/api.py", S+"data_augmentation/utils.py", S+"data_augmentation/ops"],
 [("per-sample derived generator", S+"data_augmentation/utils.py")],
 observe=["augmented samples, inputs, global RNG states"])
prop("A02", "Augmentation operations keep their structural contracts",
 "Every operation preserves what it promises: array operations keep shape and type, masking changes only masked entries to the stated fill value, token and word operations only drop, swap or mask as stated (never emptying a text, never touching padding), and edge dropout returns a subset of the edges with their own weights. "
 "Strength zero is the identity, strength one has its full effect, and out-of-range strengths are rejected.",
 ["inputs", "configurations"],
 "all registered operations, parameters and well-formed inputs, including empty and single-element ones",
 "The tests check each operation on one input and one seed; the contracts must hold for every random draw.",
 [S+"data_augmentation/ops"],
 [("operation implementations", S+"data_augmentation/ops")],
 observe=["input/output pairs of every operation"])
prop("G01", "A built graph is exactly the graph its specification describes",
 "A k-nearest-neighbour graph links every node to its k nearest other nodes (or all others if fewer), a radius graph links exactly the pairs within the radius, and an anchor graph links only nodes sharing an anchor, at most k each; node ids are in range and self-loops appear exactly when requested. "
 "Symmetrisation by union or mutuality, edge weighting, and row or symmetric normalisation produce exactly the edge set and weights their definitions give, whatever the backend or chunk size.",
 ["inputs", "configurations"],
 "all small point sets (with duplicates, ties and isolated points), all builder specifications, backends and chunk sizes",
 "The tests build graphs on a few point sets and check shapes or symmetry; ties, duplicates and specification combinations are not compared with a definition.",
 [S+"graph/construction", S+"graph/specs.py", S+"graph/validation.py", S+"graph/masks.py"],
 [("raw edge construction", S+"graph/construction/backends"), ("symmetrise, self-loop, weight, normalise", S+"graph/construction/ops")],
 observe=["edge_index and edge_weight of build_graph"])
prop("G02", "The graph cache and resumable construction never change the graph",
 "Building a graph with a cache gives exactly the graph an uncached build gives, for every history of builds with different features, specifications, seeds and row sets sharing that cache, including after a build was killed at any point and resumed. "
 "A damaged or partial cache entry or work file is rebuilt rather than returned or allowed to make later builds fail.",
 ["histories", "crash_points", "configurations"],
 "all histories of builds over a family of feature sets and specifications, and all filesystem-operation crash points of a build and of a rebuild",
 "The tests build the same graph twice; they do not interleave different inputs on one cache or kill a build between shards.",
 [S+"graph/construction/api.py", S+"graph/cache.py", S+"graph/fingerprint.py", "bench/orchestrators/graph.py"],
 [("content key and manifest-last cache entries", S+"graph/cache.py"), ("chunked resume", S+"graph/construction/backends")],
 observe=["graphs returned by build_graph and the benchmark's graph stage"])
prop("G03", "Graph-derived node features match their definition for the given inputs",
 "Attribute, diffusion and structural node features computed from a graph dataset correspond to that dataset's features, edges and weights and to the given parameters and seed, whether computed afresh or served from a cache used before by other datasets. "
 "They have one row per node, and diffusion applies the stated number of row-normalised averaging steps with the stated restart. A damaged or partial cache entry is recomputed.",
 ["histories", "inputs", "configurations"],
 "all histories of feature computations over datasets that share some but not all of features, edges, weights, parameters and seed",
 "The tests compute features once per cache directory; a stale hit needs two datasets with equal keys and different content.",
 [S+"graph/featurization/api.py", S+"graph/featurization", S+"graph/cache.py"],
 [("featurizer cache key", S+"graph/featurization/api.py"), ("diffusion recursion", S+"graph/featurization")],
 observe=["views returned by graph_to_views"])
prop("H01", "Hyper-parameter search enumerates exactly the declared space",
 "A grid enumerates every combination of the declared values exactly once in a fixed order, and a random search draws each parameter only from its declared set or range, reproducibly from its seed and with a prefix property in the number of trials, and every declared value can occur. "
 "Each trial changes exactly the declared parameters of the base configuration, leaves the base and other trials unmodified, and malformed spaces are rejected.",
 ["inputs", "configurations"],
 "all nested search spaces, distributions, seeds and base configurations",
 "The tests list a two-by-two grid and sample a few draws; completeness and isolation quantify over spaces and bases.",
 [S+"hpo/space.py", S+"hpo/samplers.py", S+"hpo/patching.py", S+"hpo/types.py"],
 [("grid and random iteration", S+"hpo/samplers.py"), ("patch merge", S+"hpo/patching.py")],
 observe=["trials, merged configurations, base after merging"])
prop("H02", "Search reports every trial and selects a true optimum",
 "The search runs every planned trial the stated number of repeats, each with its own reproducible seed and its own parameters within the resource limits, scores it on the objective's split, and records every completed trial in order with its scores and their mean; a trial that raises ends the run as failed, naming the error. "
 "The trial reported as best has the best mean in the requested direction, ties going to the earliest, and an undefined (NaN) mean is never preferred over a number. "
 "The final run, its report and the configuration it leaves behind use exactly the winning trial's parameters.",
 ["inputs", "fault_sequences", "histories"],
 "all sequences of trial scores (including ties, undefined scores and failures), repeats and directions",
 "The tests use two or three strictly ordered finite scores.",
 ["bench/orchestrators/hpo.py", S+"hpo"],
 [("trial loop and selection", "bench/orchestrators/hpo.py")],
 observe=["HPO summary, trial records, parameters of the final run"])
prop("E01", "Evaluation metrics equal their definitions",
 "Accuracy, balanced accuracy and macro F1 equal their textbook definitions over the classes present in the true labels for every pair of label vectors, do not depend on sample order or on whether predictions are given as labels, scores or one-hot rows, and are undefined (not a number or an error) rather than a number when there is nothing to evaluate. "
 "Unknown metric names and mismatched lengths are rejected.",
 ["inputs"],
 "all pairs of label vectors and score matrices",
 "The tests check a handful of vectors.",
 [S+"evaluation"],
 [("metric functions", S+"evaluation/metrics.py")],
 observe=["evaluate() results"])
prop("I01", "Self-labelling uses each unlabelled sample at most once, as predicted",
 "In pseudo-labelling, self-training and its edited variant, every round adds only unlabelled samples not added before, each with the label its current model predicts (with group propagation: or the clear majority label of its group) and only if it meets the confidence, count, per-class and neighbourhood rules; the original labelled samples and labels stay in every training set unchanged. "
 "The loop stops exactly when the round limit is reached, the pool is empty or a round adds fewer than the required minimum, and the final model is trained on the final set.",
 ["histories", "inputs", "configurations"],
 "all sequences of per-round model scores, pool sizes, thresholds, per-round limits and minimum additions",
 "The tests fit on a few points and look at the final prediction; the per-round bookkeeping is not observed.",
 [S+"inductive/methods/pseudo_label.py", S+"inductive/methods/self_training.py", S+"inductive/methods/setred.py"],
 [("round loop and selection", S+"inductive/methods/pseudo_label.py")],
 [("labelled set / pool", "training set and remaining unlabelled samples", S+"inductive/methods/pseudo_label.py")],
 ["training sets seen by the base classifier in each round"])
prop("I02", "Multi-learner methods exchange correct labels under their agreement rules",
 "In co-training each learner hands over only samples still in the pool, with the label it predicts, to both training sets of the matching view; in tri-training a learner receives only samples on which the other two agree, with the agreed label; in democratic co-learning a learner receives only samples it disagrees with the majority on, with the majority label, each at most once. "
 "Labels are always class labels of the task whatever the label values or the classes each learner happened to see, and the combined prediction is the vote of the learners.",
 ["histories", "inputs", "configurations"],
 "all sequences of learner predictions, class labels that are not 0..C-1, bootstraps missing a class, pool sizes and limits",
 "The tests use labels 0/1 seen by every learner, where column numbers and labels coincide.",
 [S+"inductive/methods/co_training.py", S+"inductive/methods/tri_training.py", S+"inductive/methods/democratic_co_learning.py"],
 [("exchange loops", S+"inductive/methods")],
 observe=["training sets seen by each base classifier, final predictions"])
prop("I03", "Fitting an inductive method is reproducible and leaves its inputs alone",
 "Fitting and predicting with an inductive method never modifies the arrays it was given, and with the same data and seed gives the same predictions whatever was fitted before and whatever the global random state (deep methods: for networks in the same initial state that draw no randomness of their own). "
 "Predicted probabilities form rows that sum to one over the task's classes and the predicted label is one of the labelled classes.",
 ["histories", "inputs"],
 "all registered inductive methods that run offline, all small datasets, orders of fits and global random states",
 "The tests fit once per method; they do not repeat fits under a different global random state or compare inputs before and after.",
 [S+"inductive"],
 [("seeded fitting", S+"inductive/methods")],
 observe=["predictions of repeated fits, inputs before/after"])
prop("T01", "Transductive predictions never depend on hidden labels",
 "The output of every transductive method for a graph depends only on the features, edges, weights, number of classes, the set of labelled (and, for early stopping, validation) nodes and their labels: replacing the labels of the other nodes (by other valid labels or by the unknown marker) never changes it. "
 "The method's inputs are not modified and equal inputs and seeds give equal outputs whatever ran before.",
 ["inputs", "histories"],
 "all graphs, labelled sets and assignments of hidden labels, for every registered transductive method",
 "A single run cannot show non-interference; the tests never compare two runs that differ only in hidden labels.",
 [S+"transductive/methods", S+"transductive/validation.py"],
 [("labelled mask applied before use of labels", S+"transductive/methods")],
 observe=["predict_proba of paired runs"])
prop("T02", "Label diffusion follows its update rule step by step",
 "Every iteration of label propagation and label spreading equals the stated update on the normalised graph, with labelled nodes clamped (or pulled) to their own labels and rows normalised as configured; it stops exactly at convergence or the iteration limit and reports the true iteration count and residual. "
 "Harmonic, random-walk, Poisson, p-harmonic and minimum-cut solutions satisfy their defining equations, and all backends agree.",
 ["histories", "inputs", "configurations"],
 "all small weighted directed graphs, labelled sets, normalisations, damping factors and iteration limits",
 "The tests check final predictions on toy graphs; the step-by-step trajectory, direction convention and stopping rule are not compared with the rule.",
 [S+"transductive/methods/classic", S+"transductive/methods/utils.py", S+"transductive/operators", S+"transductive/solvers"],
 [("diffusion loops", S+"transductive/methods/classic")],
 observe=["scores, iteration count and residual for every iteration limit"])
prop("U01", "Supervised classifiers answer in the caller's label space",
 "Every supervised classifier accepts arbitrary label values and answers with labels it was trained on; its class list is the sorted distinct training labels, its probability rows sum to one in that column order and agree with its predicted label, and refitting forgets earlier data. "
 "Nearest-neighbour classification equals the vote of the k nearest training samples in every backend.",
 ["inputs", "histories", "configurations"],
 "all label sets (negative, non-contiguous, strings), all small datasets, all classifiers and backends available offline",
 "The tests use labels 0..C-1 where column numbers and labels coincide.",
 [S+"supervised"],
 [("label encoding", S+"supervised/utils.py:encode_labels"), ("backends", S+"supervised/backends")],
 observe=["classes_, predict, predict_proba"])
prop("R01", "Registries resolve every advertised name and protect existing ones",
 "Every name a registry lists can be resolved and describes itself under that name, unknown names are rejected with the registry's own error, and listing never loads optional heavy dependencies. "
 "Registering a name again with the same target changes nothing, registering it with a different target is refused and leaves the old target in place, for every order of registrations and lookups.",
 ["histories", "configurations"],
 "all sequences of registrations, listings and lookups over all registries",
 "The tests register one name; ordering with built-in registration and duplicates is not explored.",
 [S+"utils/registry.py", S+"inductive/registry.py", S+"transductive/registry.py", S+"supervised/registry.py", S+"preprocess/registry.py", S+"data_augmentation/registry.py"],
 [("shared registry helpers", S+"utils/registry.py")],
 observe=["available_*/get_* results and errors"])
prop("B01", "Invalid experiment configurations are rejected before anything runs",
 "A configuration file with an unknown or missing field, a value of the wrong kind, contradictory fields or an unresolved ${VARIABLE} is refused with a configuration error before anything is read or written; an accepted one means, field by field, what it says, with the documented defaults. "
 "In benchmark mode, settings that are not pinned, offline or leak-free (downloads, no cache directory, 'auto' anywhere, no or another model-selection split, unset fit_on or backend) are refused by name before any data is loaded. "
 "Every run refuses what its data and method cannot do (missing dependencies, no graph, missing views or augmentations, unknown metrics, splits, steps or methods) before it samples, and runs when nothing is wrong.",
 ["configurations", "inputs"],
 "every class of value at every field, pairs and triples of changes, all combinations of the contradictory flags, and runs with up to three broken rules",
 "The tests try selected bad fields; the rule is for every field at every level.",
 ["bench/schema.py", "bench/main.py", "bench/utils/io.py"],
 [("strict parsing", "bench/schema.py:ExperimentConfig.from_dict"), ("benchmark preflight", "bench/main.py"), ("placeholders", "bench/utils/io.py:load_yaml")],
 observe=["ExperimentConfig.from_dict and run_experiment errors"])
prop("B02", "Every benchmark run is recorded, under its own directory, with its true outcome",
 "Every started run gets a directory no other run uses, even if it is started again or at the same time with the same configuration, and earlier runs' files are never overwritten. "
 "Whatever stage raises, the run's record is written and well-formed, says failed with that error, and the caller gets the failure; a run recorded as successful completed every configured stage, and its recorded configuration and metrics are those that ran and were evaluated. A killed process may leave its own record unfinished, but no other run's.",
 ["histories", "fault_sequences", "schedules"],
 "all histories of starts with equal or different configurations, a failure injected at each stage, and concurrent starts",
 "The tests fail one or two stages and start each configuration once.",
 ["bench/context.py", "bench/main.py", "bench/orchestrators/reporting.py", "bench/report_schema.py"],
 [("unique run directory", "bench/context.py"), ("stage runner and report", "bench/main.py")],
 [("run directory", "files of one run", "bench/context.py")],
 ["run directories, run.json, exit codes"])
prop("B03", "Seed sweeps run each seed once and aggregate only what succeeded",
 "A sweep runs the experiment once for each configured seed, with that seed applied to every stage and nothing else changed, and stops early only when told to fail fast. "
 "Its summary counts successes and failures correctly, its statistics (count, mean, spread, extremes) are those of the successful runs' metrics, and its status is success, partial failure or failure accordingly.",
 ["fault_sequences", "inputs"],
 "all seed lists and all patterns of per-seed success, failure and metric values",
 "The tests sweep two seeds with one outcome pattern.",
 ["bench/seed_sweep.py", "bench/main.py"],
 [("seed application and aggregation", "bench/seed_sweep.py")],
 observe=["configs of the single runs, aggregate.json, return code"])
prop("B04", "Resource limits only ever tighten a run",
 "Applying resource limits never raises a value above what the configuration or the limit allows: present values become the minimum of the two, absent sample caps are filled in, everything else is unchanged, and applying limits twice equals applying them once. "
 "Explicit limits take precedence over a profile's preset, and configurations without limits are left unchanged.",
 ["configurations", "inputs"],
 "all configurations and all combinations of profile and explicit limits",
 "The tests apply one profile to one configuration.",
 ["bench/limits.py"],
 [("limit application", "bench/limits.py")],
 observe=["configuration before/after"])
prop("B05", "Methods get, and are scored on, exactly the split's samples",
 "A benchmark hands a method exactly the split's labelled samples with their own labels, its unlabelled samples, and row for row their augmented rows and views; a transductive method sees every node once, with the graph over those nodes and no label other than those of labelled and validation nodes. "
 "Fittable preprocessing is fitted on exactly the samples the configuration names. "
 "Every requested split is scored exactly once per metric on that split's own true labels and predictions, whatever the label values, and recorded under its name.",
 ["configurations", "inputs"],
 "all datasets (with or without official test set, graph data, arbitrary integer or string labels), sampling plans, preprocessing, views, augmentations and reported splits",
 "The tests run each stage on one hand-made dataset with labels 0 and 1.",
 ["bench/main.py", "bench/orchestrators/slicing.py", "bench/orchestrators/method_inductive.py", "bench/orchestrators/method_transductive.py", "bench/orchestrators/evaluation.py"],
 [("inductive hand-over", "bench/orchestrators/method_inductive.py"), ("transductive hand-over", "bench/orchestrators/method_transductive.py"), ("scoring", "bench/orchestrators/evaluation.py"), ("row selection", "bench/orchestrators/slicing.py")],
 observe=["data handed to a scripted method, arguments of the metrics, run record"])

prop("B06", "A plan written as text means, field by field, exactly what it says",
 "In every sampling, preprocessing, augmentation, views and graph plan given as a mapping or file, each field written has the value written and each field left out has its default; unknown fields (where plans are read strictly: all but graph specs), unknown choices, unnamed or doubly named steps and views, and incoherent combinations are refused with an error rather than dropped or guessed. "
 "Writing a plan out (as_dict, to_dict, dump_plan) spells every field, and reading that back gives an equal plan. "
 "For preprocessing plans the plan fingerprint is the same for every spelling of one plan and differs between plans that differ in any field.",
 ["inputs", "configurations"],
 "all documents over the fields of the six plan formats: any subset of fields in any order, nulls, alternative step names, nested parameter values (including strings YAML would read as something else), and every kind of mistake",
 "The tests read a few documents and check one or two fields; a field read under a neighbour's name, a default that differs from the one printed, or a check dropped for one nested level shows only on other documents.",
 [S+"sampling/plan.py", S+"preprocess/plan.py", S+"graph/specs.py", S+"views/plan.py", "bench/orchestrators/preprocess.py", "bench/orchestrators/augmentation.py", "bench/orchestrators/views.py"],
 [("sampling plan reader", S+"sampling/plan.py:SamplingPlan.from_dict"), ("preprocess plan file", S+"preprocess/plan.py:load_plan"), ("experiment plan readers", "bench/orchestrators/preprocess.py:_plan_from_dict")],
 observe=["fields of the plan object handed to the library", "the error raised", "plan fingerprint"])
prop("C01", "The command line does what the library does, and fails loudly",
 "For every history of modssc commands (datasets list/info/download/--all/cache ls/purge/gc, sampling create/show/validate, preprocess run, graph build, graph views build, graph caches, evaluation compute, and the listings) what is printed and what is left in datasets cache, graph caches and split directories is what the library call with the same arguments gives. "
 "A command exits 0 only if it did what was asked; otherwise it exits non-zero and leaves existing split directories, graph caches and cached datasets as they were (a dataset it needed may get cached). "
 "A missing optional extra is reported as such and skipped only where asked to be.",
 ["histories", "fault_sequences", "configurations"],
 "all histories of commands over a few datasets (catalogued or given by provider, one needing a missing extra), with providers that fail and recover, good and bad plan files, any options and cache directories",
 "The tests run single commands with the library replaced by stand-ins; an option dropped or handed to the wrong parameter, a directory emptied before a refusal, or a failure reported as success needs the real library underneath.",
 [S+"cli/datasets.py", S+"cli/sampling.py", S+"cli/preprocess.py", S+"cli/graph.py", S+"cli/evaluation.py"],
 [("commands", "src/modssc/cli"), ("option plumbing and exit codes", "src/modssc/cli/graph.py")],
 [("workspace", "dataset cache, split directories, graph and views caches", "src/modssc/cli")],
 ["exit codes and output of typer commands", "files left in the workspace"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
assert len({p["id"] for p in P}) == len(P)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    n = p["statement"].count(". ") + 1
    assert n <= 3, (p["id"], n)
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
