"""V01: see spec/Views.tla, spec/ViewsModel.tla and spec/ViewsTrace.tla."""
from __future__ import annotations

import copy
import json
import random

import numpy as np

from vf import enc

PRES = [None, None, None, [("core.copy_raw", {})], [("core.copy_raw", {}), ("core.pca", dict(n_components=3))],
        [("core.copy_raw", {}), ("core.cast_dtype", dict(dtype="float64"))]]


def random_plan(r: random.Random, nf: int) -> list[dict]:
    names = ["a", "b", "view c", "d"]
    out = []
    for i in range(r.choice([1, 2, 2, 2, 3, 3, 4])):
        mode = r.choice(["all", "indices", "random", "random", "complement", "complement"]) if i else r.choice(["all", "indices", "random", "random"])
        den = r.choice([4, 10, 20, 7])
        v = dict(name=names[i], mode=mode, idx=[], num=1, den=2, of="", off=r.choice([0, 0, 1, 99]), pre=r.choice(PRES) if r.random() < 0.25 else None)
        if mode == "indices":
            v["idx"] = r.sample(range(nf), r.randint(1, nf))
            x = r.random()
            if x < 0.06:
                v["idx"] = v["idx"] + v["idx"][:1]
            elif x < 0.1:
                v["idx"] = [nf]
            elif x < 0.13:
                v["idx"] = [-1, 0]
            elif x < 0.15:
                v["idx"] = []
        elif mode == "random":
            v.update(num=r.randint(1, den), den=den)
            if r.random() < 0.04:
                v["num"] = r.choice([0, den + 1, -1])
        elif mode == "complement":
            v["of"] = out[r.randrange(len(out))]["name"] if r.random() < 0.93 else r.choice(["", "zz", names[i], names[(i + 1) % 4]])
        if i and r.random() < 0.03:
            v["name"] = out[0]["name"]
        if r.random() < 0.01:
            v["name"] = ""
        out.append(v)
    return out


def dataset(r, nf):
    from modssc.data_loader.types import LoadedDataset, Split

    g = np.random.default_rng(r.randrange(1 << 31))
    form = r.choice(["arr", "arr", "arr", "3d", "dict", "torch"])

    def part(n):
        X = g.integers(0, 1000, size=(n, nf)).astype(np.float64) + np.arange(nf) * 1000 + r.random()
        if form == "3d":
            X = np.stack([X, X + 0.5], axis=2)
        if form == "dict":
            X = {"x": X, "edge_index": np.asarray([[0, 1], [1, 0]])}
        if form == "torch":
            import torch

            X = torch.as_tensor(X)
        return Split(X=X, y=g.integers(0, 3, n), edges=np.asarray([[0, 1], [1, 0]]) if r.random() < 0.4 else None,
                     masks={"m": g.random(n) < 0.5} if r.random() < 0.4 else None)
    meta = {"modality": "tabular", "tags": ["x", {"k": [1]}]}
    if r.random() < 0.3:
        meta["views"] = {"old": {"columns": [0]}}
        meta["view_meta"] = {"old": {"role": "r"}}
    return LoadedDataset(train=part(r.randint(4, 7)), test=part(r.randint(2, 4)) if r.random() < 0.7 else None, meta=meta), form


def raw(x):
    return x["x"] if isinstance(x, dict) else x.numpy() if hasattr(x, "numpy") else np.asarray(x)


def tokens(x):
    a = np.asarray(raw(x), dtype=np.float64)
    return [enc.digest(a[:, j].tolist()) for j in range(a.shape[1])]


def whole(ds):
    return enc.digest(enc.tok(ds.meta), *[[enc.arr(v, 10**6) if not isinstance(v, dict) else {k: enc.arr(w, 10**6) for k, w in v.items()}
                                           for v in (s.X, s.y, s.edges, s.masks or {})] for s in (ds.train, ds.test) if s is not None])


def rest(ds):
    return enc.digest(*[[enc.arr(s.y), enc.arr(s.edges), {k: enc.arr(v) for k, v in (s.masks or {}).items()}, s.masks is None]
                        for s in (ds.train, ds.test) if s is not None])


def to_plan(p):
    from modssc.preprocess.plan import PreprocessPlan, StepConfig
    from modssc.views import ColumnSelectSpec, ViewSpec, ViewsPlan

    vs = []
    for v in p:
        pre = None if v["pre"] is None else PreprocessPlan(steps=tuple(StepConfig(step_id=a, params=b) for a, b in v["pre"]))
        cols = ColumnSelectSpec(mode=v["mode"], indices=tuple(v["idx"]), fraction=v["num"] / v["den"], complement_of=v["of"] or None, seed_offset=v["off"])
        if v["mode"] == "all" and v["off"] == 1:
            cols = None
        vs.append(ViewSpec(name=v["name"], preprocess=pre, columns=cols, meta={"role": v["name"]} if v["off"] else None))
    return ViewsPlan(views=tuple(vs))


def trace(args):
    from modssc.preprocess.api import preprocess
    from modssc.preprocess.plan import PreprocessPlan, StepConfig
    from modssc.views import ViewsValidationError, generate_views

    i, seed, n = args
    r = random.Random(seed * 9_000_011 + i)
    nf = r.choice([1, 2, 3, 5, 8, 8, 24, 31])
    plans = [random_plan(r, nf) for _ in range(3)]
    seeds = [0, 1, r.randrange(1 << 31), r.randrange(1 << 40)]
    ev = []
    for _ in range(n):
        p = r.choice(plans)
        ds, form = dataset(r, nf)
        if form != "arr":
            p = [dict(v, pre=None) for v in p]
        pl = to_plan(p)
        sd = r.choice(seeds)
        k = len(p)
        e = dict(plan=[{a: v[a] for a in ("name", "mode", "idx", "num", "den", "of")} for v in p], pkey=enc.digest(json.dumps(p)), seed=str(sd),
                 err="", nf=[nf] * k, cols=[[]] * k, base=[dict(tr=[], te=[])] * k, out=[dict(tr=[], te=[], rest=True)] * k, same=True,
                 maybe=[False] * k, big=[False] * k)
        ref = copy.deepcopy(ds)
        base = []
        for v in p:
            b = ref
            if v["pre"] is not None:
                b = preprocess(copy.deepcopy(ref), PreprocessPlan(steps=tuple(StepConfig(step_id=a, params=q) for a, q in v["pre"])), seed=sd,
                               fit_indices=np.arange(len(ds.train.y)), cache=False).dataset
            base.append(b)
        e["nf"] = [int(raw(b.train.X).shape[1]) for b in base]
        e["big"] = [v["mode"] == "random" and m >= 24 and 0.3 <= v["num"] / v["den"] <= 0.7 for v, m in zip(p, e["nf"])]
        by = {v["name"]: j for j, v in enumerate(p)}
        for j, v in enumerate(p):   # complements that some draw leaves empty, or whose matrices differ in width
            o = by.get(v["of"])
            if v["mode"] == "complement" and o is not None and o < j:
                w = p[o]
                full = w["mode"] == "all" or (w["mode"] == "random" and 2 * w["num"] * e["nf"][o] >= (2 * e["nf"][o] - 1) * w["den"]) \
                    or (w["mode"] == "indices" and len(set(w["idx"])) >= e["nf"][o]) or (w["mode"] == "random" and e["nf"][o] == 1)
                e["maybe"][j] = bool(full or e["nf"][o] != e["nf"][j])
        before = whole(ds)
        try:
            res = generate_views(ds, plan=pl, seed=sd, cache=False)
            e["cols"] = [res.columns[v["name"]].tolist() for v in p]
            out = []
            for v, b in zip(p, base):
                d = res.views[v["name"]]
                out.append(dict(tr=tokens(d.train.X), te=tokens(d.test.X) if d.test is not None else [], rest=rest(d) == rest(ds)
                                and all(d.meta[q] == ds.meta[q] for q in ("modality", "tags")) and d.meta["views"][v["name"]]["columns"] == res.columns[v["name"]].tolist()))
            e["out"] = out
            e["base"] = [dict(tr=tokens(b.train.X), te=tokens(b.test.X) if b.test is not None else []) for b in base]
        except ViewsValidationError as x:
            e.update(err="rejected", msg=str(x)[:100])
        except Exception as x:  # noqa: BLE001
            e["err"] = f"{type(x).__name__}: {x}"[:160]
        e["same"] = whole(ds) == before
        ev.append(e)
    return dict(id=f"v{i}", key=str(nf), ev=ev)


def cfg(n, comp):
    return f'SPECIFICATION Spec\nCONSTANTS\n N={n}\n Complement="{comp}"\nINVARIANT Disjoint\nINVARIANT NonEmpty\nINVARIANT NoBadPlan\nINVARIANT Sized\n'


def run(ctx):
    from vf.proc import pmap
    import modssc.views  # noqa: F401
    import torch

    torch.set_num_threads(1)
    for n in ctx.pick((3,), (1, 2, 3, 4)):
        ctx.model_check("ViewsModel", cfg_text=cfg(n, "exact"), workers=8)
    ctx.model_check("ViewsModel", cfg_text=cfg(3, "all"), workers=4, expect="Disjoint is violated")
    traces = pmap(trace, [(i, ctx.seed, 12) for i in range(ctx.pick(260, 6000))])
    for t in traces:
        for e in t["ev"]:
            if not e["err"]:
                ctx.nontrivial.add((e["pkey"], e["seed"], tuple(e["nf"])))
    ctx.notes["rule"] = "distinct (plan, seed, width) resolved"
    ctx.judge("ViewsTrace", traces, workers=8)
