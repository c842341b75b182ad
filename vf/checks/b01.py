"""B01: see spec/BenchConfig.tla, BenchConfigModel.tla and BenchConfigTrace.tla."""
import copy
import datetime
import itertools
import json
import math
import os
import pathlib
import random
import sys

from vf import bench_drv as B

CFG = 'SPECIFICATION Spec\nCONSTANTS\n Broken="%s"\n Two=%s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
PYPROJECT = pathlib.Path(os.environ.get("VF_REPO", "/repo")) / "pyproject.toml"
SECTIONS = ("run", "dataset", "sampling", "preprocess", "method", "evaluation")
OPTIONAL = ("limits", "views", "graph", "augmentation", "search")
FIELDS = {
    "run": "name seed seeds output_dir fail_fast log_level benchmark_mode allow_custom_factories",
    "limits": "profile max_preprocess_batch_size max_method_batch_size max_method_sup_batch_size max_graph_chunk_size max_train_samples max_test_samples",
    "dataset": "id options download cache_dir", "sampling": "seed plan", "preprocess": "seed fit_on cache plan cache_dir", "views": "seed plan",
    "graph": "enabled seed cache cache_dir spec", "augmentation": "enabled seed mode weak strong modality",
    "method": "kind id params device model", "method.device": "device dtype resolved_device",
    "evaluation": "report_splits metrics split_for_model_selection", "search": "enabled kind seed n_trials repeats objective space",
    "search.objective": "split metric direction aggregate"}
FACTORY, CLASSIFIER = ("factory", "params"), ("classifier_id", "classifier_backend", "classifier_params", "ema")
ABSENT = "<absent>"
POOL = {"null": [None], "bool": [True, False], "int+": [1, 7, 2**40], "int0": [0], "int-": [-1, -30], "float": [1.5, 2.0, -0.0, math.inf], "digits": ["12", "0", "-4"],
        "empty": [""], "blank": ["  ", "\t\n"], "str": ["val", "x y", "None", "true", "cuda:1"], "list{}": [[]], "liststr": [["val", "test"], ["accuracy"]],
        "intset": [[3, 1], [0]], "list": [[1, 1], [3, 1, 3], ["a", None], [True], [1.5, 2], [[1]], [""], ["a", 3]], "map{}": [{}], "map": [{"a": 1}, {"steps": []}, {3: 4}],
        "odd": [datetime.date(2020, 1, 2), b"bytes", {"a", "b"}]}
WORDS = {"method.kind": ["inductive", "transductive", "Inductive", "both"], "search.kind": ["grid", "random", "bayes", "GRID"], "search.objective.split": ["train", "val", "test", "dev"],
         "search.objective.metric": ["accuracy", "macro_f1", "Accuracy", "auc"], "search.objective.direction": ["maximize", "minimize", "max"],
         "search.objective.aggregate": ["mean", "max", "median"], "limits.profile": ["auto", "v100", "H100", "a100"], "augmentation.mode": ["fixed", "online"]}


def klass(v):
    if isinstance(v, str) and v == ABSENT:
        return "absent"
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, int):
        return "int+" if v > 0 else "int0" if v == 0 else "int-"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        if not v:
            return "empty"
        if not v.strip():
            return "blank"
        return "digits" if v.lstrip("-").isdigit() else "str"
    if isinstance(v, list):
        if not v:
            return "list{}"
        if all(isinstance(x, str) and x.strip() for x in v):
            return "liststr"
        if all(isinstance(x, int) and not isinstance(x, bool) for x in v) and len(set(v)) == len(v):
            return "intset"
        return "list"
    if isinstance(v, dict):
        return "map" if v else "map{}"
    return "odd"


def token(v):
    return json.dumps(v, default=repr, sort_keys=False)


def get(raw, dotted):
    node = raw
    for k in dotted.split("."):
        if not isinstance(node, dict) or k not in node:
            return ABSENT
        node = node[k]
    return node


def taken(cfg, p):
    """What an accepted configuration says at a place."""
    if p == "method.id":
        p = "method.method_id"
    node = cfg
    for k in p.split("."):
        if node is None:
            return None
        node = getattr(node, k)
    return node


def dist_leaf(path, node):
    def num(v):
        if v is None:
            return dict(c="absent", n=0)
        if isinstance(v, bool) or not isinstance(v, (int, float)) or (isinstance(v, float) and not math.isfinite(v)):
            return dict(c="odd", n=0)
        return dict(c="int" if isinstance(v, int) else "float", n=round(v * 1000))
    vals = node.get("values")
    return dict(keys=True, under=len(path) >= 3 and path[:2] == ("method", "params"), k="dist", dist=str(node.get("dist")) if isinstance(node.get("dist"), str) else "?",
                lo=num(node.get("low")), hi=num(node.get("high")), vals="absent" if vals is None else "list" if isinstance(vals, list) and vals else "odd",
                extra=bool(set(node) - {"dist", "low", "high", "values"}))


def space_leaves(node, path=()):
    no = dict(keys=True, under=len(path) >= 3 and path[:2] == ("method", "params"), k="?", dist="?", lo=dict(c="absent", n=0), hi=dict(c="absent", n=0), vals="absent", extra=False)
    if isinstance(node, list):
        return [dict(no, k="list" if node else "empty")]
    if isinstance(node, dict):
        if not node:
            return [dict(no, k="empty")]
        if "dist" in node:
            return [dist_leaf(path, node)]
        out = []
        for k, v in node.items():
            if not isinstance(k, str) or not k:
                out.append(dict(no, keys=False))
            else:
                out += space_leaves(v, path + (k,))
        return out
    return [no]


def describe(raw, cfg):
    """Classes and values at every place the format knows, and what lies outside it."""
    fields, unknown = [], 0
    known = set(SECTIONS) | set(OPTIONAL)
    if not isinstance(raw, dict):
        return [], [dict(p=s, c="absent") for s in SECTIONS], 1, []
    unknown += len(set(raw) - known)
    secs = [dict(p=s, c=klass(raw.get(s, ABSENT))) for s in SECTIONS + OPTIONAL]

    def add(p):
        v = get(raw, p)
        given = v.lower() if p == "limits.profile" and isinstance(v, str) else v
        fields.append(dict(p=p, c=klass(v), s=given if isinstance(v, str) else "", v=token(given), g="-" if cfg is None else token(taken(cfg, p)) if p not in ("method.device", "method.model", "search.objective") else "-"))
    for sec, names in FIELDS.items():
        top = sec.split(".")[0]
        parent = get(raw, sec)
        if sec == "method.device" and isinstance(raw.get("method"), dict) and parent == ABSENT:
            parent = {}
        if not isinstance(parent, dict) or not isinstance(raw.get(top), dict):
            continue
        unknown += len(set(parent) - set(names.split()))
        for n in names.split():
            add(f"{sec}.{n}")
    m = get(raw, "method.model")
    if isinstance(m, dict):
        for n in FACTORY if "factory" in m else CLASSIFIER:
            add(f"method.model.{n}")
        unknown += len(set(m) - set(FACTORY) - set(CLASSIFIER))
    sp = get(raw, "search.space")
    return fields, secs, unknown, space_leaves(sp) if isinstance(sp, dict) and sp else []


def contra_eff(raw):
    m = get(raw, "method.model")
    model = isinstance(m, dict)
    m = m if model else {}

    def is_(p, v):
        return get(raw, p) is v

    def i(p):
        v = get(raw, p)
        return isinstance(v, int) and not isinstance(v, bool)
    sk = get(raw, "search.kind")
    return dict(bench=is_("run.benchmark_mode", True), failfast=not is_("run.fail_fast", False), model=model, factory="factory" in m, classifier="classifier_id" in m,
                custom=is_("run.allow_custom_factories", True), clsfields=bool({"classifier_backend", "classifier_params", "ema"} & set(m)), facfields="params" in m,
                skind=sk if isinstance(sk, str) else "-", sseed=i("search.seed"), strials=i("search.n_trials"))


def parse_event(raw):
    from bench.schema import BenchConfigError, ExperimentConfig
    cfg, raised, code, text = None, "", "", ""
    try:
        cfg = ExperimentConfig.from_dict(copy.deepcopy(raw))
    except BenchConfigError as ex:
        raised, code, text = "BenchConfigError", ex.code, str(ex)[:120]
    except Exception as ex:  # noqa: BLE001
        raised, text = type(ex).__name__, str(ex)[:120]
    fields, secs, unknown, leaves = describe(raw, cfg)
    odd = [f for f in fields if f["c"] not in ("absent",)]
    return dict(op="parse", fields=fields, secs=secs, unknown=unknown, leaves=leaves, eff=contra_eff(raw if isinstance(raw, dict) else {}), raised=raised, code=code, text=text, n=len(odd))


# ---------------------------------------------------------------- configurations
def space(r):
    leaf = r.choice([[1, 2], ["x"], dict(dist="uniform", low=0, high=1.5), dict(dist="loguniform", low=0.001, high=1), dict(dist="randint", low=1, high=9), dict(dist="choice", values=[1, None])])
    s = {"method": {"params": {"a": leaf}}}
    if r.random() < 0.4:
        s["method"]["params"]["n"] = {"deep": [3], "er": {"b": [True]}}
    return s


def valid(r, full=False):
    """A configuration with nothing wrong; every field is there, or any of the optional ones is not."""
    bench = r.random() < 0.5
    c = {
        "run": dict(name="r", seed=r.choice([0, 3, 2**33]), seeds=[4, 1], output_dir="out", fail_fast=True if bench else r.random() < 0.5, log_level="basic", benchmark_mode=bench,
                    allow_custom_factories=True),
        "limits": dict(profile=r.choice(["v100", "H100", "auto"]), max_preprocess_batch_size=8, max_method_batch_size=9, max_method_sup_batch_size=3, max_graph_chunk_size=7,
                       max_train_samples=20, max_test_samples=5),
        "dataset": dict(id="toy", options={"n_samples": 9}, download=False, cache_dir="c"),
        "sampling": dict(seed=5, plan={"split": {"kind": "holdout"}}),
        "preprocess": dict(seed=6, fit_on="train_labeled", cache=r.random() < 0.5, plan={"steps": [{"id": "core.ensure_2d"}]}, cache_dir="pc"),
        "views": dict(seed=1, plan={"views": []}),
        "graph": dict(enabled=r.random() < 0.5, seed=2, cache=False, cache_dir="gc", spec={"scheme": "knn"}),
        "augmentation": dict(enabled=r.random() < 0.5, seed=0, mode="fixed", weak={"steps": []}, strong={"steps": [1]}, modality="tabular"),
        "method": dict(kind=r.choice(["inductive", "transductive"]), id="m", device=dict(device="cuda", dtype="float64", resolved_device="cpu"), params={"a": 1, "b": {"c": [1]}},
                       model=r.choice([dict(classifier_id="knn", classifier_backend="numpy", classifier_params={"k": 3}, ema=True), dict(factory="pkg:f", params={"z": 1})])),
        "evaluation": dict(report_splits=["val", "test"], metrics=["accuracy"], split_for_model_selection="val"),
        "search": dict(enabled=r.random() < 0.5, kind=r.choice(["grid", "random"]), seed=r.choice([0, 8]), n_trials=4, repeats=2,
                       objective=dict(split="val", metric="accuracy", direction="minimize", aggregate="mean"), space=space(r)),
    }
    if full:
        return c
    for s in OPTIONAL:
        if r.random() < 0.4:
            del c[s]
    p = r.choice([0, 0.2, 0.6])
    needed = {"run.name", "dataset.id", "sampling.plan", "preprocess.plan", "views.plan", "method.kind", "method.id", "evaluation.report_splits", "evaluation.metrics", "search.enabled",
              "search.kind", "search.objective", "search.space", "search.seed", "search.n_trials"}
    for sec in list(c):
        for k in list(c[sec]):
            if f"{sec}.{k}" not in needed and r.random() < p:
                del c[sec][k]
    if isinstance(c["method"].get("model"), dict) and "factory" in c["method"]["model"] and not c["run"].get("allow_custom_factories"):
        c["method"]["model"] = None
    if c["method"].get("model") is None:
        c["method"].pop("model", None)
    for sub in ("device", "model"):
        d = c["method"].get(sub)
        for k in list(d or {}):
            if k not in ("factory", "classifier_id") and r.random() < p:
                del d[k]
    return c


PLACES = [f"{s}.{n}" for s, ns in FIELDS.items() for n in ns.split()] + [f"method.model.{n}" for n in FACTORY + CLASSIFIER]


BAD_LEAVES = [{"dist": "uniform", "low": 0, "high": 1}, {"dist": "choice", "values": [2]}, [], {}, 3, None, "x", {"dist": "uniform", "low": 1, "high": 1}, {"dist": "randint", "low": 1.0, "high": 3}, {"dist": "choice", "values": []}, {"dist": "choice", "values": [1], "low": 0},
              {"dist": "loguniform", "low": 0, "high": 1}, {"dist": "normal"}, {"dist": None}, {"dist": ["uniform"], "low": 0, "high": 1}, {"dist": "uniform", "low": 0, "high": 1, "step": 1},
              {"dist": "uniform", "low": True, "high": 3}, {"dist": "uniform", "low": 0, "high": math.inf}, {"dist": "uniform", "low": 0, "high": 1, "values": [1]},
              {"dist": "uniform", "low": "0", "high": 1}, {"dist": "uniform", "low": 0, "high": 1, 3: 4, "z": 1}, {1: [1], "a": [2]}, {"": [1]}, {None: [1]}, [1], {"k": [2]}]
LEAF_PLACES = [("method", "params", "a"), ("method", "params", "q"), ("method", "params"), ("method",), ("method", "id"), ("run", "seed"), ("a",), ("method", "model", "ema"), ("method", "params", "n", "deep")]


def plant(sp, where, bad):
    node = sp
    for k in where[:-1]:
        if not isinstance(node.get(k), dict):
            node[k] = {}
        node = node[k]
    node[where[-1]] = copy.deepcopy(bad)


def put(c, place, v):
    *up, last = place.split(".")
    node = c
    for k in up:
        if not isinstance(node, dict):
            return
        node = node.setdefault(k, {})
    if not isinstance(node, dict):
        return
    if isinstance(v, str) and v == ABSENT:
        node.pop(last, None)
    else:
        node[last] = copy.deepcopy(v)


def spoil(r, c):
    """One change, wrong or harmless."""
    x = r.random()
    if x < 0.55:
        p = r.choice(PLACES)
        if p in WORDS and r.random() < 0.5:
            put(c, p, r.choice(WORDS[p]))
        else:
            put(c, p, r.choice(POOL[r.choice(list(POOL))]) if r.random() < 0.8 else ABSENT)
    elif x < 0.7:
        where = r.choice(["", *FIELDS, "method.model"])
        node = c if not where else get(c, where)
        if isinstance(node, dict):
            ks = list(node) or ["a"]
            node[r.choice(["extra", 1, None, True, str(r.choice(ks)) + "s", str(r.choice(ks)).upper(), 2.5, "plan", "seed", "params"])] = r.choice([None, 1, {}])
    elif x < 0.78:
        s = r.choice(SECTIONS + OPTIONAL)
        v = r.choice([ABSENT, None, {}, [], "s", 3, [1], True])
        put(c, s, v)
    elif x < 0.9 and isinstance(get(c, "search.space"), dict):
        sp = c["search"]["space"]
        plant(sp, r.choice(LEAF_PLACES), r.choice(BAD_LEAVES))
    else:
        r.choice([lambda: put(c, "run.fail_fast", False), lambda: put(c, "run.benchmark_mode", True), lambda: put(c, "search.seed", ABSENT), lambda: put(c, "search.n_trials", ABSENT),
                  lambda: put(c, "run.allow_custom_factories", False), lambda: put(c, "method.model", {"factory": "a:b", "classifier_id": "knn"}), lambda: put(c, "method.model", {"classifier_id": "knn", "params": {}}),
                  lambda: put(c, "method.model", {"factory": "a:b", "ema": True}), lambda: put(c, "method.model", {}), lambda: put(c, "method.model", {"factory": "a:b"}), lambda: put(c, "search.kind", "random"),
                  lambda: put(c, "method.model", {"classifier_id": "knn"})])()


def parses(a):
    what, k, seed = a
    from modssc.evaluation import list_metrics
    r = random.Random(f"b01:{what}:{k}:{seed}")
    ev = []
    if what == "singles":  # every class at this place, in a full configuration
        p = PLACES[k]
        for c in POOL:
            for v in POOL[c] if len(POOL[c]) < 4 or c in ("list", "str") else r.sample(POOL[c], 2):
                raw = valid(r, full=True)
                if p.startswith("method.model"):
                    raw["method"]["model"] = dict(factory="a:b") if p.rsplit(".", 1)[1] in FACTORY else dict(classifier_id="knn")
                put(raw, p, v)
                ev.append(parse_event(raw))
        for w in WORDS.get(p, []) + [ABSENT]:
            raw = valid(r, full=True)
            if p.startswith("method.model"):
                raw["method"]["model"] = dict(factory="a:b") if p.rsplit(".", 1)[1] in FACTORY else dict(classifier_id="knn")
            put(raw, p, w)
            ev.append(parse_event(raw))
    elif what == "spaces":  # every kind of leaf at this place
        for bad in BAD_LEAVES:
            raw = valid(r, full=True)
            plant(raw["search"]["space"], LEAF_PLACES[k], bad)
            ev.append(parse_event(raw))
    elif what == "rules":  # everything fields can say about each other
        for kind, on, sd, nt, bench, ff, cust in itertools.product(["grid", "random"], [True, False], [0, 5, None, ABSENT], [3, ABSENT], [True, False], [True, False, ABSENT], [True, False, ABSENT]):
            if r.random() < 0.5:
                continue
            raw = valid(r, full=True)
            for p, v in (("search.kind", kind), ("search.enabled", on), ("search.seed", sd), ("search.n_trials", nt), ("run.benchmark_mode", bench), ("run.fail_fast", ff), ("run.allow_custom_factories", cust)):
                put(raw, p, v)
            put(raw, "method.model", r.choice([dict(factory="a:b"), dict(classifier_id="knn"), {}, dict(factory="a:b", classifier_id="knn"), dict(factory="a:b", ema=None), dict(classifier_id="k", params={}), ABSENT]))
            ev.append(parse_event(raw))
    else:
        for _ in range(12):
            raw = valid(r)
            for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3])):
                spoil(r, raw)
            ev.append(parse_event(raw if r.random() < 0.99 else r.choice([[], None, "x", 3])))
    return [dict(id=f"{what}{k}.{j}", key="parse", metrics=list(list_metrics()), ev=[e]) for j, e in enumerate(ev)]


# ---------------------------------------------------------------- runs
COUNT = dict(loads=0)
TORCH = ("fixmatch", "pi_model", "mean_teacher")
FITTABLE = ("core.pca", "core.random_projection", "tabular.standard_scaler", "tabular.impute")


def prepare():
    B.install()
    from modssc.data_loader.providers import toy
    if not getattr(toy.ToyProvider, "vf_counted", False):
        real = toy.ToyProvider.load_canonical

        def counted(self, *a, **k):
            COUNT["loads"] += 1
            return real(self, *a, **k)
        toy.ToyProvider.load_canonical = counted
        toy.ToyProvider.vf_counted = True


def autos(node):
    if isinstance(node, dict):
        return sum((isinstance(v, str) and v.strip().lower() == "auto" and k in ("device", "backend", "classifier_backend", "profile")) + autos(v) for k, v in node.items())
    if isinstance(node, list):
        return sum(autos(v) for v in node)
    return 0


def rules_eff(c, gone):
    run, m = c["run"], c["method"]
    steps = [s["id"] for s in c["preprocess"]["plan"].get("steps", [])]
    vsteps = [s["id"] for v in (c.get("views") or {}).get("plan", {}).get("views", []) for s in (v.get("preprocess") or {}).get("steps", [])]
    aug, se, ev = c.get("augmentation"), c.get("search"), c["evaluation"]
    bad = any(s == "no.such.step" for s in steps + vsteps) or m["id"] == "no_such_method"
    back = m["id"] in ("vf_back", "pseudo_label")
    return dict(bench=run.get("benchmark_mode", False), download=c["dataset"].get("download", True), cachedir="cache_dir" in c["dataset"], autos=autos(c),
                select=ev.get("split_for_model_selection") or "none", reports=ev["report_splits"], search=bool(se and se["enabled"]), osplit=se["objective"]["split"] if se else "-",
                hasbackend=back, backend=str(m["params"].get("backend") or "none"), fittable=any(s in FITTABLE for s in steps), vfittable=any(s in FITTABLE for s in vsteps),
                fiton=bool(c["preprocess"].get("fit_on")), missing=bool(gone) and any(s.startswith("tabular.") for s in steps + vsteps), cotrain=m["id"] == "co_training",
                views=c.get("views") is not None, kind=m["kind"], dsgraph=False, graph=bool(c.get("graph") and c["graph"].get("enabled")), aug=bool(aug and aug.get("enabled", True)),
                augmode=(aug or {}).get("mode", "fixed"), weak=bool((aug or {}).get("weak")), strong=bool((aug or {}).get("strong")),
                badmetric=any(x not in ("vf_score", "accuracy", "macro_f1") for x in ev["metrics"]), badsplit=any(x not in ("train", "val", "test") for x in ev["report_splits"]),
                torch=m["id"] in TORCH, totorch="core.to_torch" in steps, badid=bad)


def faults(r):
    """Things a run may be told that some rule has something to say about."""
    def st(c):
        return c["preprocess"]["plan"]["steps"]
    noise = {"steps": [{"id": "tabular.gaussian_noise", "params": {"std": 0.5}}]}
    search = {"enabled": True, "kind": "grid", "repeats": 1, "objective": {"split": "val", "metric": "vf_score", "direction": "maximize", "aggregate": "mean"}, "space": {"method": {"params": {"a": [1, 2]}}}}
    plain = {"views": [{"name": "p", "columns": {"mode": "random", "fraction": 0.5}}, {"name": "q", "columns": {"mode": "complement", "complement_of": "p"}}]}
    fitted = copy.deepcopy(plain)
    fitted["views"][1]["preprocess"] = {"output_key": "features.X", "steps": [{"id": "core.to_numpy"}] * r.choice([0, 1]) + [{"id": "core.random_projection", "params": {"n_components": 1}}]}
    return [
        lambda c: c["dataset"].update(download=not c["dataset"].get("download", True)), lambda c: c["dataset"].pop("download", None), lambda c: c["dataset"].pop("cache_dir", None),
        lambda c: c["method"]["device"].update(device="auto"), lambda c: c.update(limits={"profile": r.choice(["auto", "v100", "AUTO"])}),
        lambda c: c.setdefault("graph", {"enabled": r.random() < 0.5, "spec": {}})["spec"].update(backend=r.choice(["auto", "Auto", " AUTO", "numpy"])),
        lambda c: c["method"].update(model={"classifier_id": "knn", "classifier_backend": r.choice(["auto", "numpy", "AUTO"])}),
        lambda c: c["method"]["params"].update(c={"backend": r.choice(["auto", "x"])}), lambda c: c["method"]["params"].update(b=[{"device": r.choice(["auto", "cpu"])}]),
        lambda c: c["evaluation"].pop("split_for_model_selection", None), lambda c: c["evaluation"].update(split_for_model_selection=r.choice(["train", "val", "test", "dev"])),
        lambda c: c["evaluation"].update(report_splits=r.choice([["test"], ["val"], ["val", "dev"], ["Val"], ["train", "val", "test"]])),
        lambda c: c.update(search=dict(copy.deepcopy(search), enabled=r.random() < 0.7)), lambda c: c.update(search=dict(copy.deepcopy(search), objective=dict(search["objective"], split=r.choice(["test", "train"])))),
        lambda c: (c["method"].update(id="vf_back", kind="inductive"), c["method"]["params"].pop("backend", None)),
        lambda c: (c["method"].update(id="vf_back", kind="inductive"), c["method"]["params"].update(backend=r.choice(["auto", "numpy", "AUTO"]))),
        lambda c: st(c).append({"id": "core.random_projection", "params": {"n_components": 1}}), lambda c: st(c).append({"id": "tabular.standard_scaler"}),
        lambda c: c["preprocess"].update(fit_on=r.choice(["train_labeled", "train"])), lambda c: c["preprocess"].pop("fit_on", None),
        lambda c: c.update(views={"plan": copy.deepcopy(r.choice([plain, fitted]))}), lambda c: c["method"].update(id="co_training", kind="inductive", params={}),
        lambda c: c["method"].update(kind="transductive", id="vf_trans", params={"a": 1}), lambda c: c.pop("graph", None),
        lambda c: c.update(augmentation=r.choice([{"weak": noise, "strong": noise, "mode": r.choice(["fixed", "online"])}, {"weak": noise}, {"strong": noise, "enabled": r.random() < 0.5}, {"weak": noise, "strong": noise, "modality": "tabular"}])),
        lambda c: c["evaluation"].update(metrics=r.choice([["vf_score", "nope"], ["Accuracy"], ["accuracy"], ["vf_score", "macro_f1"]])),
        lambda c: c["method"].update(id=r.choice(TORCH), kind="inductive", params={}), lambda c: st(c).append({"id": "core.to_torch"}),
        lambda c: st(c).append({"id": "no.such.step"}), lambda c: c["method"].update(id="no_such_method"),
    ]


def settle(c):
    """Leave out combinations in which something else than a rule would stop the run."""
    m = c["method"]
    if m["kind"] == "transductive":
        c.pop("views", None)
        m["id"] = m["id"] if m["id"] == "no_such_method" else "vf_trans"
        m["params"] = {"a": 1}
        if c.get("graph") and c["graph"].get("enabled"):
            c["graph"]["spec"] = dict({"scheme": "knn", "k": 3, "metric": "euclidean", "symmetrize": "or", "backend": "numpy"}, **c["graph"]["spec"])
            c["graph"]["cache"] = False
            if c["graph"]["spec"]["backend"] == " AUTO":
                c["graph"]["spec"]["backend"] = "auto"
            if c["graph"]["spec"]["backend"] == "Auto":
                c["graph"]["spec"]["backend"] = "numpy"
        if "search" in c and c["search"]["enabled"]:
            c["search"]["space"] = {"method": {"params": {"a": [1, 2]}}}
    elif c.get("graph", {}).get("enabled"):
        c["graph"]["enabled"] = False
    if m["id"] != "vf_back":
        m["params"].pop("backend", None)
    else:
        m["params"] = {k: v for k, v in m["params"].items() if k in ("a", "backend")}
    if m["id"] in TORCH:
        m["params"] = {}
        c.pop("search", None)
        m.pop("model", None)
    if m["id"] == "co_training":
        m["params"] = {}
        c.pop("search", None)
        m.pop("model", None)
    m.pop("model", None) if m["kind"] == "transductive" else None
    if m["kind"] == "transductive" and "model" in m:
        del m["model"]
    if "model" in m and not (c["run"].get("benchmark_mode") and m["model"]["classifier_backend"].lower() == "auto"):
        del m["model"]  # the scripted methods take none


def run_scenario(a):
    k, seed = a
    prepare()
    r = random.Random(f"b01run:{k}:{seed}")
    c = B.base("inductive")
    c["run"]["fail_fast"] = r.random() < 0.5
    bench = r.random() < 0.6
    c["dataset"]["cache_dir"] = "dc"
    if bench:
        c["run"].update(benchmark_mode=True, fail_fast=True)
        c["dataset"]["download"] = False
    stage = "ok"
    if r.random() < 0.2:
        for _ in range(50):
            d = copy.deepcopy(c)
            for _ in range(r.choice([1, 1, 2])):
                spoil(r, d)
            try:
                import yaml
                d = yaml.safe_load(yaml.safe_dump(d))
            except Exception:  # noqa: BLE001
                continue
            if surely_bad(d):
                c, stage = d, "file"
                break
        if stage == "file" and r.random() < 0.3:
            put(c, "run.seeds", [1, 2])
            stage = "file" if surely_bad(c) else "ok"
    gone = False
    if stage == "ok":
        for f in r.sample(faults(r), r.choice([0, 1, 1, 2, 2, 3])):
            f(c)
        settle(c)
        gone = r.random() < 0.15
        if gone and r.random() < 0.7:
            c["preprocess"]["fit_on"] = "train_labeled"
            if c["method"]["kind"] == "inductive" and r.random() < 0.4:
                c["views"] = {"plan": {"views": [{"name": "p"}, {"name": "q", "preprocess": {"steps": [{"id": "core.to_numpy"}, {"id": "tabular.standard_scaler"}]}}]}}
            else:
                c["preprocess"]["plan"]["steps"].append({"id": "tabular.standard_scaler"})
    eff = rules_eff(c, gone) if stage == "ok" else dict(bench=False)
    with B.Home() as h:
        doc = PYPROJECT.read_text()
        if gone:
            doc = doc.replace("preprocess-sklearn = [", 'preprocess-sklearn = [\n "vf-nowhere-to-be-found>=1",')
        (h.root / "pyproject.toml").write_text(doc)
        runnable = stage == "ok" and eff["kind"] != "x"
        if runnable and (not eff["bench"] or r.random() < 0.6):
            from modssc.data_loader import load_dataset
            # what the run will want is there, unless it may fetch it
            load_dataset(c["dataset"]["id"], cache_dir=h.root / "dc" if "cache_dir" in c["dataset"] else None, download=True, options=c["dataset"]["options"])
            filled = True
        else:
            filled = False
        B.CTL.clear()
        COUNT["loads"] = 0
        had = {x.name for x in h.root.iterdir()}
        via = r.random() < 0.15
        if via:
            o = by_command(h, c)
            log = list(B.LOG)
        else:
            o, log = h.run(c)
        new = {x.name for x in h.root.iterdir()} - had
        dirs = [d for d in new if not d.endswith(".yaml")]
        loads = COUNT["loads"]
        status, code, sampled = "none", o.get("ecode", ""), False
        if stage == "ok":
            ds = h.out_dirs(c)
            g = B.read_run(ds[0]) if ds else None
            if g and g["run"]:
                status = g["run"]["run"]["status"]
                sampled = bool((g["run"].get("artifacts") or {}).get("sampling"))
                code = code or str(g["run"]["run"].get("error_code") or "")
    fits = len([e for e in log if e["op"] == "fit"])
    if stage == "ok" and eff["torch"] and not (eff["bench"] and not eff["totorch"]):
        return None  # these methods would want more of a configuration
    if stage == "ok" and eff["cotrain"] and eff["views"]:
        return None
    if stage == "ok" and not filled and eff["bench"]:
        # nothing to load: only the rules can be seen
        if not benchmark_broken(eff):
            return None
    return dict(id=f"run{k}", key="run", metrics=["accuracy"], gone=gone, filled=filled, via=via, cfg=json.loads(json.dumps(c, default=str)) if stage == "ok" else {"x": token(c)},
                ev=[dict(op="run", eff=eff, stage=stage, raised=o["raised"], text=(o["text"] or str(g["run"].get("error") if stage == "ok" and g and g["run"] else ""))[:160], code=code, loads=loads if not filled else loads, sampled=sampled, fits=fits, dirs=len(dirs), status=status)])


def benchmark_broken(e):
    return e["download"] or not e["cachedir"] or e["autos"] or e["select"] == "none" or e["select"] not in e["reports"] or (e["search"] and e["osplit"] != e["select"]) or (e["hasbackend"] and e["backend"] == "none") \
        or ((e["fittable"] or e["vfittable"]) and not e["fiton"])


def by_command(h, c):
    from bench import main as M
    B.LOG.clear()
    p = h.write(c)
    old = sys.argv
    sys.argv = ["bench", "--config", str(p), "--log-level", "none"]
    try:
        code = M.main()
        return dict(raised="", text="", code=int(code))
    except SystemExit as ex:
        return dict(raised="SystemExit" if ex.code not in (0, None) else "", text=str(ex)[:200], code=-1, ecode=str(ex).split(":")[0])
    except Exception as ex:  # noqa: BLE001
        return dict(raised=type(ex).__name__, text=str(ex)[:300], code=-1, ecode=str(getattr(ex, "code", "")))
    finally:
        sys.argv = old


def surely_bad(d):
    """Refused for what it says, judged by the classes alone."""
    from bench.schema import BenchConfigError, ExperimentConfig
    fields, secs, unknown, leaves = describe(d, None)
    if unknown:
        return True
    if any(x["p"] in SECTIONS and x["c"] not in ("map", "map{}") for x in secs):
        return True
    need = {"run.name": ("str", "digits"), "dataset.id": ("str", "digits"), "sampling.plan": ("map",), "preprocess.plan": ("map",), "method.kind": ("str",), "evaluation.metrics": ("liststr", "list", "intset"),
            "evaluation.report_splits": ("liststr", "list", "intset"), "run.seed": ("int+", "int0", "int-", "digits", "absent", "null"), "run.fail_fast": ("bool", "absent", "null"),
            "dataset.download": ("bool", "absent", "null"), "sampling.seed": ("int+", "int0", "int-", "absent", "null"), "preprocess.seed": ("int+", "int0", "int-", "absent", "null")}
    return any(f["p"] in need and f["c"] not in need[f["p"]] for f in fields)


# ---------------------------------------------------------------- placeholders
def text_scenario(a):
    k, seed = a
    prepare()
    r = random.Random(f"b01text:{k}:{seed}")
    from bench.utils.io import load_yaml
    names = ["VF_A", "VF_B2", "_VF", "VF_A_LONG", "MODSSC_OUTPUT_DIR", "MODSSC_GRAPH_CACHE_DIR", "MODSSC_DATASET_CACHE_DIR", "MODSSC_SPLIT_CACHE_DIR"]
    with B.Home() as h:
        for n in names:
            os.environ.pop(n, None)
        root = h.root / "cache"
        env = {"MODSSC_OUTPUT_DIR": str(root.resolve() / "output"), "MODSSC_GRAPH_CACHE_DIR": str(root.resolve() / "graphs"), "MODSSC_DATASET_CACHE_DIR": str(root.resolve() / "datasets"),
               "MODSSC_SPLIT_CACHE_DIR": str(root.resolve() / "splits"), "MODSSC_CACHE_ROOT": str(root)}
        for n in names:
            if r.random() < (0.75 if not n.startswith("MODSSC") else 0.2):
                env[n] = r.choice(["v", "", "two words", "$VF_B2", "${VF_A}", "1", "\\1", "a:b #c", "é", "$"])
                os.environ[n] = env[n]
        parts, prev = [], None
        for _ in range(r.randint(1, 5)):
            if r.random() < 0.6:
                n = r.choice(names)
                prev = r.choice(["bare", "braced"])
                parts.append(dict(var=True, s=n, how=prev))
            else:
                s = r.choice(["/x", "-", " and ", ".yaml", "#1", "/", "{}", " 5$ ", "%s"]) if prev == "bare" else r.choice(["x", "a b", "/", "_", "7", "$5", "{q}", "é"])
                prev = "lit"
                parts.append(dict(var=False, s=s, how="lit"))
            if parts[-1]["how"] == "lit" and parts[-1]["s"].endswith("$"):
                parts.pop()
        if not parts:
            parts = [dict(var=False, s="x", how="lit")]
        text = "".join(p["s"] if not p["var"] else f"${p['s']}" if p["how"] == "bare" else "${%s}" % p["s"] for p in parts)
        place, want = r.choice([(("run", "name"), "run.name"), (("method", "params", "d", 0), "method.params.d[0]"), (("sampling", "plan", "q", 1, "z"), "sampling.plan.q[1].z"), (("other",), "other")])
        doc = text
        for p in reversed(place):
            doc = {p: doc} if isinstance(p, str) else [0] * p + [doc]
        import yaml
        if isinstance(doc, dict):
            doc["plain"] = [1, None, True, 2.5, "text"]
        path = h.write(yaml.safe_dump(doc, allow_unicode=True))
        raised, msg, got = "", "", "-"
        try:
            out = load_yaml(path)
            node = out
            for p in place:
                node = node[p]
            got = node
            if out["plain"] != [1, None, True, 2.5, "text"]:
                raised = "OtherValuesChanged"
        except Exception as ex:  # noqa: BLE001
            raised, msg = type(ex).__name__, str(ex)
        import re
        unset = sorted({n for n in names if re.search(rf"(?<!\w){n}(?!\w)", msg)}) if raised else []
    return dict(id=f"text{k}", key="text", metrics=["accuracy"], text=text, ev=[dict(op="text", parts=parts, env=[dict(n=n, v=v) for n, v in sorted(env.items())], raised=raised, unset=unset,
                                                                                     where=want in msg, got=got, msg=msg[:160])])


def work(a):
    return dict(p=parses, r=run_scenario, t=text_scenario)[a[0]](a[1])


def run(ctx):
    from vf.proc import pmap
    inv = "RefusedBeforeAnythingStarts RefusedForAReason RulesBeforeData EveryRuleBeforeSampling GoodOnesRun"
    ctx.model_check("BenchConfigModel", cfg_text=CFG % ("none", ctx.pick("FALSE", "TRUE"), inv), workers=8)
    for b, x in (("dropped", "RefusedBeforeAnythingStarts"), ("coerced", "RefusedBeforeAnythingStarts"), ("late", "RulesBeforeData"), ("lax", "RulesBeforeData"), ("first", "RulesBeforeData"),
                 ("dirs", "RefusedBeforeAnythingStarts"), ("sampled", "EveryRuleBeforeSampling")):
        ctx.model_check("BenchConfigModel", cfg_text=CFG % (b, "FALSE", x), expect=f"{x} is violated", workers=8)
    B.install()
    jobs = [("p", ("singles", k, ctx.seed)) for k in range(len(PLACES))] + [("p", ("some", k, ctx.seed)) for k in range(ctx.pick(120, 4000))]
    jobs += [("p", ("spaces", k, ctx.seed)) for k in range(len(LEAF_PLACES))] + [("p", ("rules", k, ctx.seed)) for k in range(ctx.pick(1, 8))]
    jobs += [("r", (k, ctx.seed)) for k in range(ctx.pick(420, 6000))] + [("t", (k, ctx.seed)) for k in range(ctx.pick(120, 1500))]
    traces = []
    for t in pmap(work, jobs):
        traces += t if isinstance(t, list) else [t] if t is not None else []
    from collections import Counter
    for t in traces:
        if t["ev"][0].get("raised") or t["ev"][0].get("code"):
            ctx.nontrivial.add(t["id"])
    ctx.notes["events"] = dict(Counter(t["key"] for t in traces))
    ctx.notes["runs"] = dict(Counter((t["ev"][0]["stage"] + "/" + (t["ev"][0]["code"] or t["ev"][0]["status"])) for t in traces if t["key"] == "run"))
    ctx.notes["rule"] = "configurations and texts that were refused"
    ctx.judge("BenchConfigTrace", traces, workers=8)
