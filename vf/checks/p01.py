"""P01: see spec/PreprocCache.tla (model) and spec/PreprocCacheTrace.tla (judge)."""
from __future__ import annotations

import copy
import json
import random

import numpy as np

from vf import enc, pre_builtin as B, pre_drv as D, symsteps as S
from vf.core import drop, scratch_dir


def typed(x) -> str:
    if isinstance(x, dict):
        return "{" + ",".join(f"{k}:{typed(v)}" for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))) + "}"
    return f"{type(x).__name__}:{enc.digest(enc.arr(x, 10**6))}"


def digest(r) -> tuple[str, str]:
    ds = r.dataset
    parts = [p for s in (ds.train, ds.test) if s is not None for p in (typed(s.X), typed(s.y), typed(s.edges), typed(s.masks or {}))]
    arts = [f"{k}={typed(v)}" for a in (r.train_artifacts, r.test_artifacts) if a is not None for k, v in sorted(a.data.items())]
    return enc.digest(*parts), enc.digest(*arts)


def lose(r: random.Random, d) -> None:
    """Remove parts of the cache: split directories, manifests, whole steps, single values."""
    import shutil

    for _ in range(r.randint(1, 3)):
        kind = r.choice(["train", "train", "test", "test", "manifest.json", "step", "value"])
        steps = sorted(p for p in d.glob("*/steps/*"))
        if not steps:
            return
        s = r.choice(steps)
        if kind == "step":
            shutil.rmtree(s, ignore_errors=True)
        elif kind == "manifest.json":
            (s / kind).unlink(missing_ok=True)
        elif kind == "value":
            fs = sorted(p for p in s.glob("*/*") if p.is_file())
            if fs:
                r.choice(fs).unlink()
        else:
            shutil.rmtree(s / kind, ignore_errors=True)


def one(ds, plan, *, seed, fit, cache, d, purge, reg, sym) -> dict:
    from modssc.preprocess.api import preprocess

    ev = dict(cache=cache, purge=purge, fp="", art="")
    try:
        r = preprocess(copy.deepcopy(ds), plan, seed=seed, fit_indices=None if fit is None else np.asarray(fit, dtype=np.int64), cache=cache,
                       cache_dir=str(d), purge_unused_artifacts=purge, registry=reg)
        val, art = digest_sym(r) if sym else digest(r)
        ev.update(val=val, art=art, fp=r.preprocess_fingerprint)
    except Exception as e:  # noqa: BLE001
        ev["val"] = "error:" + (D.err_kind(e) if sym else type(e).__name__)
        ev["why"] = f"{type(e).__name__}: {e}"[:160]
    return ev


def digest_sym(r):
    ds = r.dataset
    parts = [json.dumps(D.split_out(s), sort_keys=True) for s in (ds.train, ds.test) if s is not None]
    arts = [f"{k}={S.token(v)}" for a in (r.train_artifacts, r.test_artifacts) if a is not None for k, v in sorted(a.data.items())]
    return " ".join(parts), " ".join(arts)


def trace(args):
    i, seed, n, sym = args
    r = random.Random(seed * 9_000_011 + i)
    reg = S.registry() if sym else None
    if sym:
        S.TERMS.clear()
        descs = [D.random_dataset(r, k) for k in range(3)]
        near, changed = D.twin(r, descs[0])
        descs.append(near)
        dss = [(x["name"] + str(idn), D.make_dataset(x, idn)) for x in descs for idn in (True, False)]
        plans = [D.random_plan(r) for _ in range(2)]
        kind = "symbolic"
        if r.random() < 0.5:   # nearly the same dataset, told apart by its content only, and a step that reads the difference
            dss = [x for x in dss if x[0] in (descs[0]["name"] + "False", near["name"] + "False")]
            plans[0]["steps"].insert(0, dict(D.random_step(r), id="s.from", on=True, mods=[], req=[], ink=changed))
        mk = D.to_plan
        long = list(range(r.choice([20, 70, 300, 1200])))
        other = list(long)
        other[r.choice([0, len(long) // 2, -1])] = 3
        fits = [[0, 1], [0, 1], [0, 2], [2, 0], None]
        if r.random() < 0.5:
            fits = [long, other, r.choice([long[:-1], long + [0], long[::-1]])]
    else:
        ds0, kind, yk = B.dataset(r)
        ds1, _, _ = B.dataset(r, kind)
        ds2 = copy.deepcopy(ds0)   # the same dataset with one cell, label or edge changed
        what = r.choice(["X", "y", "test"])
        part = ds2.test if what == "test" and ds2.test is not None else ds2.train
        if what == "y":
            part.y[0] = part.y[-1] if part.y[0] != part.y[-1] else part.y[1]
        elif isinstance(part.X, list):
            part.X[0] = part.X[0] + " owl"
        elif part.X.dtype == object:
            part.X[(0,) * part.X.ndim] = "b"
        else:
            part.X[(0,) * part.X.ndim] += 1
        dss = [("A", ds0), ("B", ds1), ("A'", ds2)]
        if r.random() < 0.5:
            for nme, x in dss:
                x.meta["dataset_fingerprint"] = "fp-" + nme
        plans = [B.plan(r, kind) for _ in range(2)]
        mk = B.to_plan
        fits = [list(range(6)), list(range(6)), [5, 1, 2, 0], [1, 1, 3, 4, 6]]
    seeds = [0, r.randrange(1 << 31)]
    d = scratch_dir("p01")
    ev = []
    for _ in range(n):
        p = r.choice(plans)
        if r.random() < 0.5:
            p = D.nudge(r, p) if sym else B.nudge(r, kind, p)
            plans.append(p)
        nme, ds = r.choice(dss)
        fit = r.choice(fits)
        sd = r.choice(seeds + seeds[:1])
        pl = mk(p)
        key = enc.digest(nme, json.dumps(p, sort_keys=True), sd, str(fit))
        kw = dict(seed=sd, fit=fit, d=d, reg=reg, sym=sym)
        runs = [dict(cache=False, purge=r.random() < 0.3)] if r.random() < 0.8 else []
        runs += [dict(cache=True, purge=r.random() < 0.4) for _ in range(r.randint(1, 2))]
        r.shuffle(runs)
        for o in runs:
            e = one(ds, pl, **kw, **o)
            ev.append(dict(key=key, ds=nme, plan=json.dumps(p, sort_keys=True), seed=sd, fit=str(fit), **e))
            if r.random() < 0.5:
                lose(r, d)
    drop(d)
    return dict(id=f"{kind}{i}", key=kind, ev=ev)


def cfg(keying, rng, runs, n, ids, purge):
    return (f'SPECIFICATION Spec\nCONSTANTS\n Keying="{keying}"\n Rng="{rng}"\n Runs={runs}\n MaxLen={n}\n'
            f' Ids={{{",".join(chr(34) + x + chr(34) for x in ids)}}}\n Purge={{{purge}}}\nINVARIANT CachedEqualsCold\n')


def run(ctx):
    from vf.proc import pmap
    import modssc.preprocess.api  # noqa: F401
    import scipy.sparse  # noqa: F401
    import sklearn.feature_extraction.text, sklearn.impute, sklearn.preprocessing  # noqa: F401, E401
    import torch

    torch.set_num_threads(1)
    every = ["fx", "raw", "fit", "rnd", "aux", "use"]
    if ctx.quick:
        ctx.model_check("PreprocCache", cfg_text=cfg("complete", "together", 2, 2, ["fx", "raw", "rnd", "use"], "TRUE,FALSE"), workers=8)
    else:
        ctx.model_check("PreprocCache", cfg_text=cfg("complete", "together", 2, 2, every, "TRUE,FALSE"), workers=8)
        ctx.model_check("PreprocCache", cfg_text=cfg("complete", "together", 2, 3, ["raw", "rnd", "fx"], "TRUE,FALSE"), workers=8, timeout=3000)
    ctx.model_check("PreprocCache", cfg_text=cfg("declared", "together", 2, 2, every, "FALSE"), workers=4, expect="CachedEqualsCold is violated")
    ctx.model_check("PreprocCache", cfg_text=cfg("complete", "split", 2, 1, every, "FALSE"), workers=4, expect="CachedEqualsCold is violated")
    k = ctx.pick(1, 25)
    jobs = [(i, ctx.seed, 14, True) for i in range(90 * k)] + [(i + 10_000_000, ctx.seed, 10, False) for i in range(100 * k)]
    traces = pmap(trace, jobs)
    for t in traces:
        for e in t["ev"]:
            if e["cache"] and e["fp"]:
                ctx.nontrivial.add(e["key"])
    ctx.notes["rule"] = "distinct (dataset, plan, fit set, seed) whose cached run completed"
    ctx.judge("PreprocCacheTrace", traces, workers=8)
