"""B06: see spec/PlanText.tla, PlanTextModel.tla (writing, reading, writing out) and PlanTextTrace.tla (judge)."""
from __future__ import annotations

import json
import random

import numpy as np

from vf import enc
from vf.core import drop, scratch_dir

WORDS = ["no", "on", "yes", "null", "~", "1e5", "007", "0x1f", "2020-01-01", "a: b", "- x", "", " lead", "trail ", "é☃", "line\nbreak", "#c", "'q'", "\"dq\"",
         "1_000", "1:30", ".inf", "features.X", "!t", "*a", "&b", "{", "true"]
UNKNOWN = ["typo", "Kind", "test_frac", "seed", "n", "stratified", "id ", "op", "steps", "views", "value_", "cap", "name_"]


# -- encoding: one token per value, the same for 1 and 1.0, for a tuple and a list

def norm(v):
    if isinstance(v, (np.generic,)):
        v = v.item()
    if isinstance(v, bool) or v is None or isinstance(v, str):
        return v
    if isinstance(v, (int, float)):
        return int(v) if float(v) == int(v) else float(v)
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    if hasattr(v, "items"):
        return {str(k): norm(x) for k, x in v.items()}
    return repr(v)


def tok(v) -> str:
    return json.dumps(norm(v), sort_keys=True)


def sec(kind, at, mapping):
    """The section as it is written; what is not a mapping is of no known kind."""
    if not hasattr(mapping, "items"):
        return dict(kind="not a mapping", at=at, put=[])
    return dict(kind=kind, at=at, put=[[str(k), tok(v)] for k, v in mapping.items()])


# -- documents (mappings as they are written), their sections, and the sections of the plans read from them

def mix(r, options, must=()):
    d = {k: r.choice(v) for k, v in options.items() if k in must or r.random() < 0.5}
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


FR = [0.0, 0.1, 0.2, 0.25, 0.3, 0.5, 1, 0]
TF = [True, False]


def value(r, depth=0):
    c = r.randrange(8 if depth < 2 else 5)
    if c == 0:
        return r.choice(WORDS)
    if c == 1:
        return r.choice([0, 1, -1, 7, 10**9])
    if c == 2:
        return r.choice([0.5, 1e-9, 1e20, -2.25, 3.5, 0.1])
    if c == 3:
        return r.choice([True, False, None])
    if c == 4:
        return r.choice(["abc", "numpy", "float32"])
    if c < 7:
        return [value(r, depth + 1) for _ in range(r.randrange(3))]
    return {r.choice(["a", "b", "on", "1", "é"]): value(r, depth + 1) for _ in range(r.randrange(3))}


def params(r):
    return {k: value(r) for k in r.sample(["dtype", "dim", "no", "x y", "nested", "eps"], r.randrange(4))}


def sampling_doc(r):
    doc = {}
    if r.random() < 0.8:
        if r.random() < 0.5:
            doc["split"] = mix(r, dict(kind=["holdout"], test_fraction=FR, val_fraction=FR, stratify=TF, shuffle=TF))
        else:
            doc["split"] = mix(r, dict(kind=["kfold"], k=[2, 3, 5, 10], fold=[0, 1, 4], stratify=TF, shuffle=TF, val_fraction=FR), ["kind"])
    if r.random() < 0.8:
        mode = r.choice(["fraction", "count", "per_class"])
        doc["labeling"] = mix(r, dict(mode=[mode], value=[0.1, 0.5, 1.0, 0.05] if mode == "fraction" else [1, 2, 5, 10], per_class=TF, min_per_class=[0, 1, 2, 3],
                                      strategy=["proportional", "balanced"], fixed_indices=[None, [0], [3, 1, 2], []]), ["mode", "value"])
        if mode == "fraction" and r.random() < 0.5:
            doc["labeling"].pop("mode")
    if r.random() < 0.8:
        doc["imbalance"] = mix(r, dict(kind=["none", "subsample_max_per_class", "long_tail"], apply_to=["train", "labeled"], max_per_class=[None, 1, 5],
                                       alpha=[None, 0.5, 2.0], min_per_class=[0, 1, 4]))
    if r.random() < 0.8:
        doc["policy"] = mix(r, dict(respect_official_test=TF, use_official_graph_masks=TF, allow_override_official=TF))
    for k in ("split", "labeling", "imbalance", "policy"):
        if k in doc and not doc[k] and r.random() < 0.3:
            doc[k] = None
    return doc


def sampling_secs(doc):
    if not hasattr(doc, "items"):
        return [sec("plan", 0, None)]
    out = []
    s = doc.get("split") or {}
    kind = s.get("kind", "holdout") if hasattr(s, "items") else "holdout"
    out.append(sec("kfold" if kind == "kfold" else "holdout", 0, s))
    for k in ("labeling", "imbalance", "policy"):
        v = doc.get(k)
        out.append(sec(k, 0, {} if v is None else v))
    out += [dict(kind="unknown section", at=0, put=[]) for k in doc if k not in ("split", "labeling", "imbalance", "policy")]
    return out


def fields(obj, names):
    return {n: getattr(obj, n) for n in names}


def sampling_out(p):
    hold = ["kind", "test_fraction", "val_fraction", "stratify", "shuffle"]
    kf = ["kind", "k", "fold", "stratify", "shuffle", "val_fraction"]
    k = p.split.kind
    return [sec(k, 0, fields(p.split, kf if k == "kfold" else hold)),
            sec("labeling", 0, fields(p.labeling, ["mode", "value", "per_class", "min_per_class", "strategy", "fixed_indices"])),
            sec("imbalance", 0, fields(p.imbalance, ["kind", "apply_to", "max_per_class", "alpha", "min_per_class"])),
            sec("policy", 0, fields(p.policy, ["respect_official_test", "use_official_graph_masks", "allow_override_official"]))]


def step_doc(r, alias):
    name = r.choice(["core.ensure_2d", "labels.encode", "x.y", "no", "1e3", "text é"])
    d = {}
    which = r.random()
    if which < 0.7 or which > 0.9:
        d["id"] = name
    if which >= 0.7:
        d[alias] = name
    if r.random() < 0.6:
        d["params"] = r.choice([params(r), params(r), None, {}])
    if alias == "step_id":
        if r.random() < 0.4:
            d["modalities"] = r.choice([[], None, ["vision"], ["text", "tabular"]])
        if r.random() < 0.4:
            d["requires_fields"] = r.choice([[], None, ["raw.X"], ["features.X", "labels.y"]])
        if r.random() < 0.4:
            d["enabled"] = r.choice(TF)
    ks = list(d)
    r.shuffle(ks)
    return {k: d[k] for k in ks}


def pre_doc(r):
    d = {"steps": [step_doc(r, "step_id") for _ in range(r.randrange(4))]}
    if r.random() < 0.5:
        d["output_key"] = r.choice(["features.X", "features.Z", "no", "a.b.c"])
    if not d["steps"] and r.random() < 0.5:
        d.pop("steps")
    return d


def pre_secs(doc, at=0):
    if not hasattr(doc, "items"):
        return [sec("plan", at, None)]
    steps = doc.get("steps", [])
    out = [sec("pre.plan", at, {k: v for k, v in doc.items() if k != "steps"})]
    return out + ([sec("pre.step", at, s) for s in steps] if isinstance(steps, list) else [sec("steps", at, None)])


def pre_out(p, at=0):
    return [sec("pre.plan", at, dict(output_key=p.output_key))] + [
        sec("pre.step", at, dict(id=s.step_id, params=s.params, modalities=s.modalities, requires_fields=s.requires_fields, enabled=s.enabled)) for s in p.steps]


def aug_doc(r):
    if r.random() < 0.1:
        return {}
    return {"steps": [step_doc(r, "op_id") for _ in range(r.randrange(4))], **({"modality": "tabular"} if r.random() < 0.2 else {})}


def aug_secs(doc, at=0):
    if not hasattr(doc, "items"):
        return [sec("plan", at, None)]
    steps = doc.get("steps", [])
    out = [sec("aug.step", at, s) for s in steps] if isinstance(steps, list) else [sec("steps", at, None)]
    return out + [dict(kind="unknown section", at=at, put=[]) for k in doc if k not in ("steps", "modality")]


def aug_out(p, at=0):
    return [sec("aug.step", at, dict(id=s.op_id, params=s.params)) for s in p.steps]


def views_doc(r):
    names = r.sample(["a", "b", "c", "view_1", "no", "é"], r.choice([2, 2, 2, 3, 4]))
    vs = []
    for i, n in enumerate(names):
        v = {"name": n}
        if r.random() < 0.75:
            mode = r.choice(["all", "indices", "random", "complement"]) if i else r.choice(["all", "indices", "random"])
            c = mix(r, dict(mode=[mode], indices=[[0], [2, 1], [5, 0, 3]], fraction=[0.25, 0.5, 0.75, 1.0], complement_of=names[:i] or ["zz"], seed_offset=[0, 1, -3, 17]),
                    ["mode", "indices"] if mode == "indices" else ["mode", "complement_of"] if mode == "complement" else ["mode"])
            if mode == "all" and r.random() < 0.4:
                c.pop("mode")
            v["columns"] = c
        elif r.random() < 0.3:
            v["columns"] = None
        if r.random() < 0.4:
            v["preprocess"] = r.choice([None, pre_doc(r), pre_doc(r)])
        if r.random() < 0.4:
            v["meta"] = r.choice([None, {"role": "primary"}, {"k": [1, 2], "no": None}])
        ks = list(v)
        r.shuffle(ks)
        vs.append({k: v[k] for k in ks})
    return {"views": vs}


def views_secs(doc):
    if not hasattr(doc, "items"):
        return [sec("plan", 0, None)]
    out = [dict(kind="unknown section", at=0, put=[]) for k in doc if k != "views"]
    vs = doc.get("views", [])
    if not isinstance(vs, list):
        return out + [sec("views", 0, None)]
    for i, v in enumerate(vs):
        if not hasattr(v, "items"):
            out.append(sec("view", i, None))
            continue
        out.append(sec("view", i, {k: x for k, x in v.items() if k not in ("columns", "preprocess")}))
        if "meta" in v and v["meta"] is not None and not hasattr(v["meta"], "items"):
            out.append(sec("meta", i, None))
        if v.get("columns") is not None:
            out.append(sec("columns", i, v["columns"]))
        if v.get("preprocess") is not None:
            out += pre_secs(v["preprocess"], i)
    return out


def views_out(p):
    out = []
    for i, v in enumerate(p.views):
        out.append(sec("view", i, dict(name=v.name, meta=v.meta)))
        if v.columns is not None:
            out.append(sec("columns", i, fields(v.columns, ["mode", "indices", "fraction", "complement_of", "seed_offset"])))
        if v.preprocess is not None:
            out += pre_out(v.preprocess, i)
    return out


GF = ["scheme", "metric", "k", "radius", "symmetrize", "normalize", "self_loops", "backend", "chunk_size", "feature_field", "n_anchors", "anchors_k",
      "anchors_method", "candidate_limit", "faiss_exact", "faiss_hnsw_m", "faiss_ef_search", "faiss_ef_construction"]


def graph_doc(r):
    sch = r.choice(["knn", "epsilon", "anchor"])
    met = r.choice(["cosine", "euclidean"])
    d = mix(r, dict(scheme=[sch], metric=[met], k=[1, 3, 30], radius=[None, 0.5, 2.0] if sch != "epsilon" else [0.5, 2.0], symmetrize=["none", "or", "mutual"],
                    normalize=["none", "rw", "sym"], self_loops=TF, backend=["auto", "numpy", "sklearn"] + (["faiss"] if sch != "epsilon" else []),
                    chunk_size=[1, 64, 512], feature_field=["features.X", "features.Z"], n_anchors=[None, 3, 20], anchors_k=[1, 2, 9],
                    anchors_method=["random", "kmeans"], candidate_limit=[1, 10, 5000], faiss_exact=TF, faiss_hnsw_m=[8, 16], faiss_ef_search=[16, 128],
                    faiss_ef_construction=[50, 100]), ["scheme", "k", "metric"] + (["radius"] if sch == "epsilon" else []))
    if sch == "knn" and r.random() < 0.3:
        d.pop("scheme")
    if met == "cosine" and r.random() < 0.3:
        d.pop("metric")
    kind = r.choice(["binary", "heat"] + (["cosine"] if met == "cosine" else []))
    d["weights"] = mix(r, dict(kind=[kind], sigma=[0.5, 2.0, 1]), ["kind", "sigma"] if kind == "heat" else ["kind"])
    return d


def graph_secs(doc):
    return [sec("graph", 0, {k: v for k, v in doc.items() if k != "weights"}), sec("weights", 0, doc.get("weights", {}))]


def graph_out(p):
    return [sec("graph", 0, fields(p, GF)), sec("weights", 0, fields(p.weights, ["kind", "sigma"]))]


FF = ["views", "diffusion_steps", "diffusion_alpha", "struct_method", "struct_dim", "walk_length", "num_walks_per_node", "window_size", "p", "q", "cache"]


def feat_doc(r):
    return mix(r, dict(views=[["attr"], ["diffusion"], ["struct", "attr"]], diffusion_steps=[0, 1, 5, 9], diffusion_alpha=[0.0, 0.1, 0.5, 1], struct_method=["deepwalk", "node2vec"],
                       struct_dim=[2, 64], walk_length=[2, 40, 41], num_walks_per_node=[1, 10], window_size=[1, 5], p=[0.5, 1.0, 4], q=[0.25, 1, 2], cache=TF))


def feat_out(p):
    return [sec("featurizer", 0, fields(p, FF))]


# -- readers

class Caught(Exception):
    pass


def boundary(mod, name, call):
    """Runs a stage up to the library call that gets its plan; returns that call's arguments."""
    def stop(*a, **kw):
        raise Caught(a, kw)

    old = getattr(mod, name)
    setattr(mod, name, stop)
    try:
        call()
    except Caught as c:
        return c.args
    finally:
        setattr(mod, name, old)
    raise RuntimeError("the stage did not use its plan")


def plan_of(args, kind):
    a, kw = args
    return next(x for x in list(a) + list(kw.values()) if type(x).__name__ == kind)


def readers():
    from bench.orchestrators import augmentation as ba, preprocess as bp, views as bv
    from modssc.data_loader.types import LoadedDataset, Split
    from modssc.graph.specs import GraphBuilderSpec, GraphFeaturizerSpec
    from modssc.sampling.plan import SamplingPlan

    ds = LoadedDataset(train=Split(X=np.zeros((3, 2)), y=np.zeros(3, int)), test=None, meta={})

    def pre(doc):
        return plan_of(boundary(bp, "preprocess", lambda: bp.run(ds, plan_dict=doc, seed=0, fit_indices=None, cache=False)), "PreprocessPlan")

    def views(doc):
        return plan_of(boundary(bv, "generate_views", lambda: bv.run(ds, plan_dict=doc, seed=0, fit_indices=None, cache=False)), "ViewsPlan")

    def aug(which):
        def go(doc):
            other = {"steps": [{"id": "filler"}]}
            args = boundary(ba, "build_strategy", lambda: ba.run(np.zeros((2, 2)), weak_plan=doc if which == "weak" else other, strong_plan=doc if which == "strong" else other,
                                                                 seed=0, mode="fixed", modality="tabular"))
            return args[1].get(which) or args[0][0 if which == "weak" else 1]
        return go

    def graph(doc):
        s = GraphBuilderSpec.from_dict(dict(doc))
        s.validate()
        return s

    def feat(doc):
        s = GraphFeaturizerSpec.from_dict(dict(doc))
        s.validate()
        return s

    return dict(sampling=(sampling_doc, sampling_secs, SamplingPlan.from_dict, sampling_out, lambda p: p.as_dict()),
                preprocess=(pre_doc, pre_secs, pre, pre_out, lambda p: p.to_dict()),
                weak=(aug_doc, aug_secs, aug("weak"), aug_out, None),
                strong=(aug_doc, aug_secs, aug("strong"), aug_out, None),
                views=(views_doc, views_secs, views, views_out, None),
                graph=(graph_doc, graph_secs, graph, graph_out, lambda p: p.to_dict()),
                featurizer=(feat_doc, lambda d: [sec("featurizer", 0, d)], feat, feat_out, lambda p: p.to_dict()))


def nodes(doc, path=()):
    """Every mapping inside a document that is a section (params and meta are not)."""
    out = [path]
    if hasattr(doc, "items"):
        for k, v in doc.items():
            if k in ("params", "meta"):
                continue
            if hasattr(v, "items"):
                out += nodes(v, path + (k,))
            elif isinstance(v, list):
                for j, x in enumerate(v):
                    if hasattr(x, "items"):
                        out += nodes(x, path + (k, j))
    return out


def at(doc, path):
    for p in path:
        doc = doc[p]
    return doc


CHOICES = {"kind": ["Holdout", "k-fold", "stratified", "long-tail", "gauss"], "mode": ["ratio", "Random", "per-class"], "strategy": ["equal"], "apply_to": ["test", "all"],
           "scheme": ["kNN", "ball"], "metric": ["l2", "manhattan"], "symmetrize": ["and"], "normalize": ["l1"], "backend": ["torch"], "struct_method": ["line"]}


def spoil(r, what, doc):
    """One mistake somewhere in the document."""
    doc = json.loads(json.dumps(doc))
    path = r.choice(nodes(doc))
    m = at(doc, path)
    c = r.randrange(5)
    if c == 0 and what not in ("graph", "featurizer"):
        m[r.choice(UNKNOWN)] = r.choice([1, None, "x", {}, []])
    elif c == 1:
        keys = [k for k in m if k in CHOICES]
        if keys:
            k = r.choice(keys)
            m[k] = r.choice(CHOICES[k])
    elif c == 2 and what not in ("graph", "featurizer") and path:
        parent = at(doc, path[:-1])
        if not (what == "views" and path[-1] == "meta"):
            parent[path[-1]] = r.choice(["text", 3, [1], True])
    elif c == 3 and ("id" in m or "step_id" in m or "op_id" in m or "name" in m):
        ks = [k for k in ("id", "step_id", "op_id", "name") if k in m]
        if r.random() < 0.5 or "name" in ks:
            for k in ks:
                if r.random() < 0.5:
                    m.pop(k)
                else:
                    m[k] = ""
        else:
            m["op_id" if what in ("weak", "strong") else "step_id"] = "other.step"
            m.setdefault("id", "this.step")
    elif c == 4:
        if what == "views":
            vs = doc["views"]
            w = r.randrange(4)
            if w == 0:
                vs[:] = vs[:1]
            elif w == 1:
                vs[-1]["name"] = vs[0]["name"]
            elif w == 2:
                vs.reverse()
            else:
                v = r.choice(vs)
                v["columns"] = r.choice([dict(mode="indices"), dict(mode="random", fraction=0.0), dict(mode="random", fraction=1.5), dict(mode="complement"),
                                         dict(mode="complement", complement_of="elsewhere"), dict(mode="indices", indices=[])])
        elif what == "graph":
            w = r.choice([dict(k=0), dict(k=-3), dict(k=None), dict(scheme="epsilon", radius=None), dict(scheme="epsilon", radius=0), dict(scheme="epsilon", radius=-0.5),
                          dict(backend="faiss", scheme="epsilon", radius=0.5), dict(weights=dict(kind="heat")), dict(weights=dict(kind="heat", sigma=0)),
                          dict(weights=dict(kind="cosine"), metric="euclidean"), dict(weights=dict(kind="heat", sigma=-1))])
            doc.update(w)
        elif what in ("preprocess", "weak", "strong"):
            doc["steps"] = r.choice(["x", {"id": "a"}, 3])
    return doc


def respell(r, doc):
    """The same plan, spelt differently: keys in another order, steps named by the other name."""
    if isinstance(doc, list):
        return [respell(r, x) for x in doc]
    if not hasattr(doc, "items"):
        return doc
    ks = list(doc)
    r.shuffle(ks)
    return {k: doc[k] if k in ("params", "meta") else respell(r, doc[k]) for k in ks}


def change(r, what, doc, make):
    """A neighbour: one field taken from another document."""
    doc = json.loads(json.dumps(doc))
    other = make(r)
    path = r.choice(nodes(doc))
    try:
        a, b = at(doc, path), at(other, path)
    except (KeyError, IndexError, TypeError):
        return other
    if not hasattr(a, "items") or not hasattr(b, "items"):
        return other
    ks = [k for k in set(a) | set(b) if k != "kind"]
    if not ks:
        return other
    k = r.choice(sorted(ks))
    if k in b:
        a[k] = b[k]
    else:
        a.pop(k, None)
    if what == "sampling":    # a count needs its number
        lab = doc.get("labeling") or {}
        if hasattr(lab, "items") and (("mode" in lab and "value" not in lab) or (lab.get("mode", "fraction") != "fraction") != isinstance(lab.get("value", 0.1), int)):
            return other
    if what == "graph" and ("k" not in doc or "weights" not in doc or "kind" not in doc["weights"]):
        return other
    return doc


def trace(args):
    i, seed = args
    import yaml

    from modssc.preprocess.plan import dump_plan, load_plan

    r = random.Random(seed * 7_000_003 + i)
    table = readers()
    what = list(table)[i % len(table)]
    make, secs, read, out, text = table[what]
    d = scratch_dir("b06")
    ev = []

    def reading(doc, via=None):
        e = dict(k="read", doc=secs(doc), out=[], err="", clean=True)
        plan = None
        try:
            plan = (via or read)(doc)
            e["out"] = out(plan)
        except Exception as x:  # noqa: BLE001
            e["err"] = f"{type(x).__name__}: {x}"[:160]
            e["clean"] = isinstance(x, ValueError) or type(x).__module__.startswith("modssc")
        ev.append(e)
        return plan

    def again(plan, how, fn):
        e = dict(k="again", how=how, out=[], err="")
        try:
            e["out"] = out(fn(plan))
        except Exception as x:  # noqa: BLE001
            e["err"] = f"{type(x).__name__}: {x}"[:160]
        ev.append(e)

    def by_file(doc):
        f = d / "in.yaml"
        f.write_text(yaml.safe_dump(doc, sort_keys=False, allow_unicode=r.random() < 0.5), encoding="utf-8")
        return load_plan(f)

    doc = make(r)
    for n in range(6):
        c = r.random()
        doc = make(r) if c < 0.3 else respell(r, doc) if c < 0.55 else change(r, what, doc, make)
        if r.random() < 0.3:
            bad = spoil(r, what, doc)
            if secs(bad) != secs(doc):
                if reading(bad) is None or ev[-1]["err"]:
                    pass
                continue
        plan = reading(doc)
        if plan is None:
            continue
        if text is not None:
            ev.append(dict(k="print", out=secs(text(plan))))
            again(plan, "written out", lambda p: read(text(p)))
        if what == "preprocess":
            ev.append(dict(k="fp", fp=plan.fingerprint()))
            again(plan, "file", lambda p: (dump_plan(p, d / "p.yaml"), load_plan(d / "p.yaml"))[1])
            again(plan, "yaml", lambda p: by_file(doc))
            nameless = json.loads(json.dumps(doc))
            if nameless.get("steps") and r.random() < 0.3:
                s = r.choice(nameless["steps"])
                s.pop("step_id", None)
                s.pop("id", None)
                if r.random() < 0.3:
                    s["id"] = r.choice(["", None])
                reading(nameless, via=by_file)
    drop(d)
    return dict(id=f"t{i}", key=what, what=what, ev=ev)


def run(ctx):
    from vf.proc import pmap
    import bench.orchestrators.views  # noqa: F401

    cfg = ("SPECIFICATION Spec\nCONSTANTS\n Kind = \"%s\"\n Tokens = {\"null\", \"3\"}\n MaxWritten = %d\n Reader = \"%s\"\n"
           "INVARIANTS EveryWordCounts Total ReadsBack DefaultsAreNeutral OrderIsNeutral ChangesShow\n")
    kinds = ctx.pick(["pre.step", "columns", "policy", "weights"], ["holdout", "kfold", "labeling", "imbalance", "policy", "pre.step", "aug.step", "view", "columns", "weights"])
    for k in kinds:
        ctx.model_check("PlanTextModel", cfg_text=cfg % (k, ctx.pick(2, 3), "strict"), workers=8, timeout=3000)
    ctx.model_check("PlanTextModel", cfg_text=cfg % ("policy", 2, "lenient"), workers=8, expect="EveryWordCounts is violated", timeout=3000)
    traces = pmap(trace, [(i, ctx.seed) for i in range(ctx.pick(1400, 20000))])
    for t in traces:
        for e in t["ev"]:
            if e["k"] == "read":
                ctx.nontrivial.add(enc.digest(t["what"], repr(e["doc"])))
    ctx.notes["rule"] = "distinct documents read"
    ctx.judge("PlanTextTrace", traces, workers=8)
