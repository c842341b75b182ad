"""C01: see spec/CommandLine.tla (a workspace and its commands), CommandLineModel.tla and CommandLineTrace.tla (judge)."""
from __future__ import annotations

import json
import os
import pathlib
import random

import numpy as np

from vf import enc, fakeprov
from vf.core import drop, scratch_dir

#     id       catalogue  modality   rows  test  needs an extra
DATA = [("one", True, "tabular", 12, 0, False), ("two", True, "text", 20, 6, False), ("three", True, "tabular", 30, 5, False),
        ("vfprov:plain", False, "tabular", 15, 0, False), ("zneeds", True, "vision", 9, 0, True)]
DIRS = ["a", "b", "c"]


def name_of(d):
    return d.split(":")[-1]


def content(name, k):
    from modssc.data_loader.types import LoadedDataset, Split

    _, _, mod, n, nt, _ = next(x for x in DATA if name_of(x[0]) == name)
    g = np.random.default_rng([len(name), n, k])

    def split(m):
        return Split(X=np.round(g.normal(size=(m, 3)) * 16) / 8, y=np.concatenate([np.arange(3), g.integers(0, 3, m - 3)]).astype(np.int64))

    return LoadedDataset(train=split(n), test=split(nt) if nt else None, meta={"name": name, "ver": k, "modality": mod})


def hook(identity, k):
    from modssc.data_loader.errors import OptionalDependencyError

    if identity.dataset_id == "zneeds":
        raise OptionalDependencyError("imaginary", "testing")
    return content(identity.dataset_id, k)


def register():
    """The catalogue of this process: the datasets above and nothing else."""
    from modssc.data_loader.catalog import DATASET_CATALOG
    from modssc.data_loader.types import DatasetSpec

    fakeprov.install()
    fakeprov.CONTROL["hook"] = hook
    DATASET_CATALOG.clear()
    for d, cat, mod, *_ in DATA:
        if cat:
            DATASET_CATALOG[d] = DatasetSpec(key=d, provider="vfprov", uri=f"vfprov:{d}", modality=mod, task="classification", description="", required_extra=None, source_kwargs={})


def split_plan(r):
    p = {}
    if r.random() < 0.8:
        p["split"] = r.choice([dict(kind="holdout", test_fraction=r.choice([0.2, 0.25, 0.4]), val_fraction=r.choice([0.0, 0.2])), dict(kind="kfold", k=3, fold=r.randrange(3))])
        p["split"]["stratify"] = r.random() < 0.5
        if p["split"]["kind"] == "kfold" and r.random() < 0.3:
            p["split"].update(k=16, fold=r.randrange(16), stratify=False)
    if r.random() < 0.8:
        p["labeling"] = r.choice([dict(mode="fraction", value=r.choice([0.3, 0.6])), dict(mode="per_class", value=1), dict(mode="count", value=r.choice([3, 4])), dict(mode="count", value=500),
                                  dict(mode="count", fixed_indices=[1, r.choice([4, 17])])])
    if r.random() < 0.5:
        p["policy"] = dict(respect_official_test=r.random() < 0.5, allow_override_official=r.random() < 0.8)
    return p


def pre_plan(r):
    steps = [dict(id="core.ensure_2d")]
    if r.random() < 0.6:
        steps.append(dict(id="core.random_projection", params=dict(n_components=2)) if r.random() < 0.5 else dict(id="core.pca", params=dict(n_components=r.choice([1, 2]))))
    if r.random() < 0.1:
        steps.append(dict(id="no.such_step"))
    p = dict(steps=steps)
    if r.random() < 0.3:
        p["output_key"] = "features.X"
    return p


def graph_opts(r):
    o = dict(scheme=r.choice(["knn", "knn", "epsilon", "anchor"]), metric=r.choice(["euclidean", "cosine"]), k=r.choice([1, 2, 4]), radius=r.choice([0.7, 1.5]), backend=r.choice(["numpy", "auto"]),
             chunk_size=r.choice([4, 512]), n_anchors=r.choice([None, 4]), anchors_k=r.choice([1, 2]), candidate_limit=r.choice([3, 1000]), anchors_method="random")
    if r.random() < 0.08:
        o[r.choice(["k", "chunk_size", "anchors_k"])] = 0
    if r.random() < 0.05:
        o["scheme"] = "kNN"
    return {k: v for k, v in o.items() if r.random() < 0.75}


def graph_file(r):
    o = dict(graph_opts(r), symmetrize=r.choice(["none", "or", "mutual"]), normalize=r.choice(["none", "rw", "sym"]), self_loops=r.random() < 0.5,
             weights=r.choice([dict(kind="binary"), dict(kind="heat", sigma=1.5)]))
    o.setdefault("k", 3)
    if r.random() < 0.3:
        o[r.choice(["kk", "Scheme", "weight"])] = 1
    return o


def view_opts(r):
    return dict(views=r.sample(["attr", "diffusion", "struct"], r.choice([0, 1, 1, 2])), diffusion_steps=r.choice([1, 3]), diffusion_alpha=r.choice([0.1, 0.5]), struct_method=r.choice(["deepwalk", "node2vec"]),
                struct_dim=r.choice([2, 3]), walk_length=r.choice([4, 5]), num_walks_per_node=r.choice([1, 2]), window_size=r.choice([1, 2]), p=r.choice([1.0, 2.0]), q=r.choice([1.0, 0.5]),
                scheme=r.choice(["knn", "epsilon"]), metric=r.choice(["euclidean", "cosine"]), k_graph=r.choice([1, 3]), radius=r.choice([0.7, 1.5]))


def flags(o):
    out = []
    for k, v in o.items():
        if v is None:
            continue
        if isinstance(v, list):
            for x in v:
                out += [f"--{k.replace('_', '-')}", str(x)]
        else:
            out += [f"--{k.replace('_', '-')}", str(v)]
    return out


def pick(d, *ks):
    return {k: d[k] for k in ks if k in d}


def split_body(res):
    return enc.digest(res.split_fingerprint, res.dataset_fingerprint, json.dumps(dict(res.plan), sort_keys=True), sorted((k, enc.arr(np.asarray(v), 10**6)) for k, v in res.indices.items()),
                      sorted((k, enc.arr(np.asarray(v), 10**6)) for k, v in res.masks.items()), sorted(res.refs.items()), json.dumps(dict(res.stats), sort_keys=True))


class Library:
    """The library's own answers, asked in a place of their own."""

    def __init__(self, d):
        self.d, self.memo = d, {}
        (d / "ctl").mkdir(parents=True)

    def data(self, ds, k):
        from modssc.data_loader import load_dataset

        old = fakeprov.CONTROL["dir"]
        fakeprov.CONTROL["dir"] = self.d / "ctl"
        fakeprov.counter_path(name_of(ds)).write_text(str(k - 1))
        try:
            return load_dataset(ds, cache_dir=self.d / "data", force=True)
        finally:
            fakeprov.CONTROL["dir"] = old

    def ask(self, key, fn):
        if tuple(key) in self.memo:
            return
        a = dict(key=list(key), err="", fp="", gfp="", body="", show="", val="")
        try:
            a.update(fn())
        except Exception as x:  # noqa: BLE001
            a["err"] = f"{type(x).__name__}: {x}"[:160]
        self.memo[tuple(key)] = a


def split_answer(ds, plan, seed):
    from modssc.sampling.api import sample
    from modssc.sampling.plan import SamplingPlan

    res, _ = sample(ds, plan=SamplingPlan.from_dict(plan), seed=seed, dataset_fingerprint=str(ds.meta["dataset_fingerprint"]), save=False)
    return dict(fp=enc.digest(res.split_fingerprint, res.dataset_fingerprint, json.dumps(res.stats, sort_keys=True)), body=split_body(res),
                show=json.dumps(dict(plan=res.plan, stats=res.stats), sort_keys=True))


def prep_answer(ds, plan, seed):
    from modssc.preprocess import preprocess
    from modssc.preprocess.plan import PreprocessPlan, StepConfig

    p = PreprocessPlan(steps=tuple(StepConfig(step_id=s["id"], params=s.get("params", {})) for s in plan["steps"]), output_key=plan.get("output_key", "features.X"))
    out = preprocess(ds, p, seed=seed, fit_indices=np.arange(len(ds.train.y)), cache=False)
    return dict(val=enc.digest(list(out.dataset.train.X.shape), out.preprocess_fingerprint, p.output_key))


def graph_answer(ds, opts, seed, spec_file):
    from modssc.graph import GraphBuilderSpec, build_graph
    from modssc.graph.specs import GraphWeightsSpec

    o = dict(opts)
    if spec_file:
        known = set(GraphBuilderSpec.__dataclass_fields__)
        if set(o) - known:
            raise ValueError("unknown")
        o.setdefault("radius", None)
        o["weights"] = GraphWeightsSpec(**o["weights"])
    else:
        o.setdefault("radius", 0.5)
    g = build_graph(ds.train.X, spec=GraphBuilderSpec(**o), seed=seed, cache=False)
    return dict(fp=g.meta["fingerprint"], val=enc.digest(g.meta["fingerprint"], int(g.n_nodes), int(g.edge_index.shape[1])))


def views_answer(ds, o, seed, where):
    from modssc.graph import GraphBuilderSpec, GraphFeaturizerSpec, build_graph, graph_to_views
    from modssc.graph.artifacts import NodeDataset

    g = build_graph(ds.train.X, spec=GraphBuilderSpec(scheme=o.get("scheme", "knn"), metric=o.get("metric", "cosine"), k=o.get("k_graph", 30), radius=o.get("radius", 0.5)), seed=seed, cache=False)
    names = ["diffusion_steps", "diffusion_alpha", "struct_method", "struct_dim", "walk_length", "num_walks_per_node", "window_size", "p", "q"]
    spec = GraphFeaturizerSpec(views=tuple(o.get("views") or ["attr"]), cache=where is not None, **pick(o, *names))
    res = graph_to_views(NodeDataset(X=ds.train.X, y=ds.train.y, graph=g, masks={}), spec=spec, seed=seed, cache_dir=where)
    return dict(gfp=g.meta["fingerprint"], fp=res.meta["fingerprint"], val=enc.digest(res.meta["fingerprint"], list(res.views)))


def eval_answer(y, p, ms):
    from modssc.evaluation import evaluate

    return dict(val=enc.digest(sorted((k, repr(float(v))) for k, v in evaluate(y, p, ms or ["accuracy", "macro_f1", "balanced_accuracy"]).items())))


def questions(r):
    """What can be asked about what there is: (arguments, is the answer JSON, the library's answer)."""
    from dataclasses import asdict

    from modssc import evaluation, supervised
    from modssc import preprocess as pre
    from modssc.data_augmentation import registry as aug
    from modssc.data_loader import api
    from modssc.inductive import registry as ind
    from modssc.transductive import registry as tr

    def method(reg, m):
        return dict(method_id=m, import_path=reg._debug_registry()[m], info=asdict(reg.get_method_info(m)))

    def of(mods):
        return [k for k in api.available_datasets() if not mods or api.dataset_info(k).modality in mods]

    mods = r.choice([[], ["tabular"], ["text", "vision"], ["audio"]])
    mod = r.choice(["vision", "text", "tabular", "audio", "graph"])
    ds = r.choice([x[0] for x in DATA[:3]] + ["nosuch"])
    op = r.choice(aug.available_ops() + ["nosuch"])
    st = r.choice(pre.available_steps() + ["nosuch"])
    mo = r.choice(pre.available_models() + ["nosuch"])
    cl = r.choice([c["key"] for c in supervised.available_classifiers()] + ["nosuch"])
    im, tm = (r.choice(reg.available_methods(available_only=True) + ["nosuch"]) for reg in (ind, tr))
    return r.choice([
        (["datasets", "providers"], False, api.provider_names),
        (["datasets", "list"] + sum([["--modalities", m] for m in mods], []), False, lambda: of(mods)),
        (["datasets", "info", "--dataset", ds], True, lambda: api.dataset_info(ds).as_dict()),
        (["augmentation", "list"], False, aug.available_ops),
        (["augmentation", "list", "--modality", mod], False, lambda: aug.available_ops(modality=mod)),
        (["augmentation", "info", op, "--as-json"], True, lambda: aug.op_info(op)),
        (["preprocess", "steps", "list"], False, pre.available_steps),
        (["preprocess", "steps", "list", "--json"], True, pre.available_steps),
        (["preprocess", "steps", "info", st], True, lambda: pre.step_info(st)),
        (["preprocess", "models", "list", "--modality", mod], False, lambda: pre.available_models(modality=mod)),
        (["preprocess", "models", "info", mo], True, lambda: pre.model_info(mo)),
        (["inductive", "methods", "list"], False, lambda: ind.available_methods(available_only=False)),
        (["inductive", "methods", "list", "--available-only"], False, lambda: ind.available_methods(available_only=True)),
        (["inductive", "methods", "info", im], True, lambda: method(ind, im)),
        (["transductive", "methods", "list"], False, lambda: tr.available_methods(available_only=False)),
        (["transductive", "methods", "list", "--available-only"], False, lambda: tr.available_methods(available_only=True)),
        (["transductive", "methods", "info", tm], True, lambda: method(tr, tm)),
        (["supervised", "list", "--json"], True, lambda: supervised.available_classifiers(available_only=False)),
        (["supervised", "list", "--json", "--available-only"], True, lambda: supervised.available_classifiers(available_only=True)),
        (["supervised", "info", cl], True, lambda: supervised.classifier_info(cl)),
        (["evaluation", "list"], False, evaluation.list_metrics),
    ])


def trace(args):
    i, seed = args
    from typer.testing import CliRunner

    r = random.Random(seed * 8_000_009 + i)
    d = scratch_dir("c01").resolve()
    saved = dict(os.environ)
    for k in [k for k in os.environ if k.startswith("MODSSC_")]:
        del os.environ[k]
    os.environ["MODSSC_CACHE_ROOT"] = str(d / "cache")
    os.environ["HOME"] = str(d)
    cwd = os.getcwd()
    (d / "ctl").mkdir()
    (d / "f").mkdir()
    os.chdir(d)
    fakeprov.CONTROL["dir"] = d / "ctl"
    register()
    try:
        return history(r, i, d, CliRunner())
    finally:
        os.chdir(cwd)
        os.environ.clear()
        os.environ.update(saved)
        drop(d)


def history(r, i, d, runner):
    import yaml

    from modssc.cli.app import app
    from modssc.data_loader import api
    from modssc.graph.cache import GraphCache, ViewsCache
    from modssc.sampling.api import load_split

    lib = Library(d / "lib")
    ids = [x[0] for x in DATA]
    ev = []
    fps = {}
    for x in ids:
        from modssc.data_loader.types import DatasetRequest
        try:
            fps[x] = api._resolve_identity(DatasetRequest(id=x, options={})).fingerprint(schema_version=api.SCHEMA_VERSION)
        except Exception:  # noqa: BLE001
            fps[x] = ""
    back = {v: k for k, v in fps.items()}
    plans = [split_plan(r) for _ in range(2)]
    pres = [pre_plan(r) for _ in range(2)]
    gopts = [(graph_opts(r), False) for _ in range(2)] + [(graph_file(r), True)]
    vopts = [{k: v for k, v in view_opts(r).items() if k == "views" or r.random() < 0.8} for _ in range(2)]
    for o in vopts:
        if "struct" in o["views"]:
            o.update(struct_dim=2, walk_length=o.get("walk_length", 4), num_walks_per_node=1)
    seeds = [0, r.randrange(1, 9)]
    used = []     # (what, ds, plan, seed) asked of the command line
    held = {}
    evals = []

    def write(name, obj):
        f = d / "f" / (name + r.choice([".yaml", ".yml"] + ([".json"] if not name.startswith("pre") else [])))
        f.write_text(json.dumps(obj) if f.suffix == ".json" else yaml.safe_dump(obj, sort_keys=False))
        return str(f)

    def cachedir():
        return ["--cache-dir", str(d / "cache" / "datasets")] if r.random() < 0.3 else []

    def dsdir():
        return [r.choice(["--dataset-cache-dir", "--dataset-cache"]), str(d / "cache" / "datasets")] if r.random() < 0.3 else []

    def look(e):
        e["reads"] = [fakeprov.reads(name_of(x)) for x in ids]
        layout = api._layout(None)
        e["cached"] = sorted(back.get(row["fingerprint"], "?") for row in api.cache.index_list(layout) if api.cache.is_cached(layout, row["fingerprint"]))
        e["dirs"] = []
        for x in DIRS:
            try:
                e["dirs"].append(split_body(load_split(d / "out" / x)) if (d / "out" / x).exists() else "none")
            except Exception as exc:  # noqa: BLE001
                e["dirs"].append(f"unreadable {type(exc).__name__}")
        e["gr"] = sorted(GraphCache.default().list())
        e["vw"] = sorted(ViewsCache.default().list())
        ev.append(e)

    def cli(argv, e):
        res = runner.invoke(app, [str(a) for a in argv])
        e.update(rc=int(res.exit_code), text="" if res.exit_code == 0 else str(res.exception)[:80])
        try:
            return res.stdout
        except Exception:  # noqa: BLE001
            return res.output

    def js(text):
        try:
            return json.loads(text)
        except ValueError:
            return {}

    def num(text):
        w = text.split(":")[-1].split()
        return int(w[0]) if w and w[0].isdigit() else next((int(t) for t in text.split() if t.isdigit()), -1)

    def anyds():
        return r.choice(ids + ["nosuch"]) if r.random() < 0.15 else r.choice(ids[:4])

    def common(e):
        e.setdefault("ignore", True)
        return e

    for _ in range(r.randint(6, 14)):
        k = r.choice(["break", "download", "download", "all", "ls", "purge", "purgefp", "gc", "create", "create", "create", "show", "validate", "prep", "prep", "graph", "graph", "graph", "views", "gls",
                      "vls", "gpurge", "eval", "ask", "ask"])
        e = common(dict(k=k))
        if k == "break":
            e.update(ds=r.choice(ids[:4]), on=r.random() < 0.5, rc=0)
            fakeprov.set_fail(name_of(e["ds"]), e["on"])
        elif k == "download":
            e.update(ds=anyds(), force=r.random() < 0.4, ignore=r.random() < 0.7)
            out = cli(["datasets", "download", "--dataset", e["ds"]] + ["--force"] * e["force"] + ([] if e["ignore"] else ["--no-ignore-missing-extras"]) + cachedir(), e)
            e["said"] = out.split(":")[0].split(" ")[0].strip() if out.split(":")[0].strip() else ""
        elif k == "all":
            e.update(force=r.random() < 0.3, skip=r.random() < 0.4, ignore=r.random() < 0.7, mods=r.choice([[], [], ["tabular"], ["text", "vision"], ["audio"]]))
            out = cli(["datasets", "download", "--all"] + ["--force"] * e["force"] + ["--skip-cached"] * e["skip"] + ([] if e["ignore"] else ["--no-ignore-missing-extras"])
                      + sum([["--modalities", m] for m in e["mods"]], []) + cachedir(), e)
            got = dict(line.split(": ", 1) for line in out.splitlines() if ": " in line and line.split(": ", 1)[1].isdigit())
            missing = sum(len(line.split(": ", 1)[1].split(", ")) for line in out.splitlines() if line.startswith("imaginary: "))
            e["counts"] = [int(got.get("Downloaded", -1)), int(got.get("Skipped (already cached)", -1)), int(got.get("Skipped (missing extras)", -1)), int(got.get("Failed", -1))]
            if e["counts"][2] >= 0 and missing != e["counts"][2]:
                e["counts"][2] = -2
        elif k == "ls":
            out = cli(["datasets", "cache", "ls"] + cachedir(), e)
            e["listed"] = [back.get(line.split()[0], "?") for line in out.splitlines() if line.strip()]
        elif k == "purge":
            e["uri"] = f"vfprov:{name_of(r.choice(ids))}"
            e["n"] = num(cli(["datasets", "cache", "purge", e["uri"]] + cachedir(), e))
        elif k == "purgefp":
            e["ds"] = r.choice(ids[:4])
            cli(["datasets", "cache", "purge", fps[e["ds"]], "--fingerprint"] + cachedir(), e)
        elif k == "gc":
            out = cli(["datasets", "cache", "gc"] + r.choice([[], ["--keep-latest"]]) + cachedir(), e)
            e["n"] = num(out)
        elif k == "create":
            p = r.randrange(2)
            e.update(ds=anyds(), plan=str(p), seed=r.choice(seeds), out=r.choice(DIRS), overwrite=r.random() < 0.4, wellformed=r.random() < 0.88)
            f = write("plan", plans[p] if e["wellformed"] else r.choice([dict(plans[p], spilt={}), [1], dict(split=dict(kind="loo"))]))
            out = js(cli(["sampling", "create", "--dataset", e["ds"], "--plan", f, "--out", d / "out" / e["out"]] + (["--seed", e["seed"]] if e["seed"] or r.random() < 0.5 else [])
                         + ["--overwrite"] * e["overwrite"] + dsdir(), e))
            e["val"] = enc.digest(out.get("split_fingerprint"), out.get("dataset_fingerprint"), json.dumps(out.get("stats"), sort_keys=True))
            if e["wellformed"]:
                used.append(("split", e["ds"], p, e["seed"]))
            if e["rc"] == 0:
                held[e["out"]] = e["ds"]
        elif k == "show":
            e["out"] = r.choice(DIRS)
            e["val"] = json.dumps(js(cli(["sampling", "show", d / "out" / e["out"]], e)), sort_keys=True)
        elif k == "validate":
            e["out"] = r.choice(DIRS)
            rows = {x[0]: x[3] for x in DATA}
            h = held.get(e["out"])
            e["ds"] = r.choice([h, h] + [x for x in ids[:4] if rows[x] < rows[h]]) if h in rows else r.choice(ids[:4])
            cli(["sampling", "validate", d / "out" / e["out"], "--dataset", e["ds"]] + dsdir(), e)
        elif k == "prep":
            p = r.randrange(2)
            e.update(ds=anyds(), plan=str(p), seed=r.choice(seeds), wellformed=r.random() < 0.9, cache=r.random() < 0.6)
            f = write("pre", pres[p] if e["wellformed"] else r.choice([[1], dict(steps=[3]), dict(steps=[dict(params={})])]))
            out = js(cli(["preprocess", "run", "--plan", f, "--dataset", e["ds"], "--seed", e["seed"]] + ["--no-cache"] * (not e["cache"]) + ["--purge-unused"] * (r.random() < 0.3) + dsdir(), e))
            e["val"] = enc.digest(out.get("train_X_shape"), out.get("preprocess_fingerprint"), out.get("output_key"))
            where = out.get("cache_dir")
            e["kept"] = bool(where and pathlib.Path(where).is_dir() and any(pathlib.Path(where).iterdir()))
            if e["wellformed"]:
                used.append(("prep", e["ds"], p, e["seed"]))
        elif k == "graph":
            p = r.randrange(3)
            e.update(ds=anyds(), plan=str(p), seed=r.choice(seeds), cache=r.random() < 0.7, elsewhere=r.random() < 0.3, wellformed=True)
            o, file = gopts[p]
            extra = []
            if file:
                extra = ["--spec", write("spec", o)] + (["--k", 7] if r.random() < 0.3 else [])
            else:
                o2 = list(o.items())
                r.shuffle(o2)
                extra = flags(dict(o2))
            if e["elsewhere"]:
                extra += ["--cache-dir", d / "elsewhere"]
            if r.random() < 0.3:
                extra += ["--edge-shard-size", r.choice([1, 7])]
            out = js(cli(["graph", "build", "--dataset", e["ds"], "--seed", e["seed"]] + extra + ([] if e["cache"] else ["--no-cache"]) + r.choice([[], ["--no-resume"]]) + dsdir(), e))
            e["val"] = enc.digest(out.get("fingerprint"), out.get("n_nodes"), out.get("n_edges"))
            used.append(("graph", e["ds"], p, e["seed"]))
        elif k == "views":
            p = r.randrange(2)
            cache = r.random() < 0.7
            e.update(ds=anyds(), plan=f"{p}{'c' if cache else 'n'}", seed=r.choice(seeds), cache=cache, elsewhere=r.random() < 0.3, wellformed=True)
            extra = ["--cache-dir", d / "velse"] if e["elsewhere"] else []
            out = js(cli(["graph", "views", "build", "--dataset", e["ds"], "--seed", e["seed"]] + flags(vopts[p]) + extra + ([] if e["cache"] else ["--no-cache"]) + dsdir(), e))
            e["val"] = enc.digest(out.get("fingerprint"), out.get("views"))
            used.append(("views", e["ds"], e["plan"], e["seed"]))
        elif k in ("gls", "vls"):
            out = cli(["graph", "cache", "ls"] if k == "gls" else ["graph", "views", "cache-ls"], e)
            e["listed"] = out.split()
        elif k == "gpurge":
            e["n"] = num(cli(["graph", "cache", "purge"], e))
        elif k == "ask":
            argv, asj, fn = questions(r)
            e.update(key=["ask"] + argv, asked=" ".join(argv))
            out = cli(argv, e)
            try:
                e["val"] = enc.digest(json.dumps(json.loads(out) if asj else out.splitlines(), sort_keys=True))
            except ValueError:
                e["val"] = "unreadable"
            lib.ask(e["key"], lambda: dict(val=enc.digest(json.dumps(fn() if asj else [str(x) for x in fn()], sort_keys=True))))
        else:
            n = r.randint(1, 6)
            g = np.random.default_rng(r.randrange(1 << 30))
            y, p = g.integers(0, 3, n), g.integers(0, 3, n if r.random() < 0.85 else n + 1)
            ms = r.choice([[], [], ["accuracy"], ["macro_f1", "accuracy"], ["no_metric"]])
            if r.random() < 0.3 and len(p) == n:
                p = g.random((n, 3))
            np.save(d / "f" / "y.npy", y)
            np.save(d / "f" / "p.npy", p)
            asj = r.random() < 0.5
            out = cli(["evaluation", "compute", "--y-true", d / "f" / "y.npy", "--y-pred", d / "f" / "p.npy"] + sum([[r.choice(["-m", "--metric"]), m] for m in ms], []) + ["--json"] * asj, e)
            try:
                vals = json.loads(out) if asj else dict(line.split(": ") for line in out.splitlines() if line)
                e["val"] = enc.digest(sorted((a, repr(float(b))) for a, b in vals.items()))
            except Exception:  # noqa: BLE001
                e["val"] = "unreadable"
            e["key"] = ["eval", str(len(evals))]
            evals.append((y, p, ms))
        look(e)
    # what the library says to the same questions, for every version of the data there was
    top = {x: ev[-1]["reads"][j] for j, x in enumerate(ids)}
    for what, ds, p, sd in sorted(set(used), key=repr):
        for ver in range(1, top.get(ds, 0) + 1):
            if ds == "zneeds":
                continue
            fn = dict(split=lambda D: split_answer(D, plans[p], sd), prep=lambda D: prep_answer(D, pres[p], sd), graph=lambda D: graph_answer(D, gopts[p][0], sd, gopts[p][1]),
                      views=lambda D: views_answer(D, vopts[int(p[0])], sd, d / "libviews" if p[1] == "c" else None))[what]
            lib.ask((what, ds, str(ver), str(p), str(sd)), lambda: fn(lib.data(ds, ver)))
    for j, (y, p, ms) in enumerate(evals):
        lib.ask(("eval", str(j)), lambda: eval_answer(y, p, ms))
    D = [dict(id=x[0], uri=f"vfprov:{name_of(x[0])}", mod=x[2], needs=x[5], n=x[3]) for x in DATA]
    return dict(id=f"h{i}", key=str(i), D=D, order=sorted(x[0] for x in DATA if x[1]), dirs=DIRS, lib=list(lib.memo.values()), ev=ev)


MODEL = """SPECIFICATION Spec
CONSTANTS
  MaxReads = {reads}
  Steps = {steps}
  EarlyWrite = {early}
  LooseSkip = {loose}
INVARIANTS FailureIsSafe DoneMeansDone CacheIsARead SplitsAreKept NoExtraNoData
"""


def run(ctx):
    from vf.proc import pmap
    import modssc.cli.app  # noqa: F401
    import modssc.graph.construction.api  # noqa: F401

    traces = pmap(trace, [(i, ctx.seed) for i in range(ctx.pick(250, 4000))])
    for t in traces:
        for e in t["ev"]:
            ctx.nontrivial.add(enc.digest(e["k"], e["rc"], repr(e["cached"]), repr(e["dirs"]), repr(e["gr"])))
    ctx.model_check("CommandLineModel", cfg_text=MODEL.format(reads=ctx.pick(2, 3), steps=ctx.pick(4, 6), early="FALSE", loose="FALSE"))
    ctx.model_check("CommandLineModel", cfg_text=MODEL.format(reads=2, steps=3, early="TRUE", loose="FALSE"), expect="FailureIsSafe is violated")
    ctx.model_check("CommandLineModel", cfg_text=MODEL.format(reads=2, steps=3, early="FALSE", loose="TRUE"), expect="DoneMeansDone is violated")
    ctx.notes["rule"] = "distinct (command, exit, workspace left)"
    ctx.judge("CommandLineTrace", traces, workers=8)
