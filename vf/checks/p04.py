"""P04: see spec/Preproc.tla, spec/PreprocModel.tla and spec/PreprocTrace.tla."""
from __future__ import annotations

import random

from vf import pre_drv as D, symsteps as S
from vf.core import drop, scratch_dir


def trace(args):
    i, seed, n = args
    r = random.Random(seed * 9_000_011 + i)
    reg = S.registry()
    S.TERMS.clear()
    dss = [D.random_dataset(r, k) for k in range(3)]
    plans = [D.random_plan(r) for _ in range(3)]
    seeds = [0, r.randrange(1 << 31)]
    d = scratch_dir("p04")
    ev = []
    for _ in range(n):
        p = r.choice(plans)
        if r.random() < 0.6:
            p = D.nudge(r, p)
            plans.append(p)
        ds = r.choice(dss)
        fit = r.choice([None, [0], [0, 2], [2, 0], [], [1, 1]]) if r.random() < 0.5 else [0, 1]
        sd = r.choice(seeds)
        purge = r.random() < 0.4
        e = D.call(D.make_dataset(ds, r.random() < 0.8), p, seed=sd, fit=fit, cache=False, cache_dir=d, purge=purge, reg=reg)
        e.pop("fp")
        ev.append(dict(ds=ds["name"], plan=p, seed=str(sd), fit="none" if fit is None else ",".join(map(str, fit)), purge=purge, **e))
    drop(d)
    return dict(id=f"p{i}", key="symbolic plans", cat=S.catalogue(), dss={x["name"]: x for x in dss},
                terms={"-": "-", **S.TERMS}, ev=ev)


def run(ctx):
    from vf.proc import pmap
    import modssc.preprocess.api  # noqa: F401
    import scipy.sparse  # noqa: F401
    import torch  # noqa: F401

    cfg = ("SPECIFICATION Spec\nCONSTANTS\n MaxLen=%d\n Ids={%s}\n Broken=\"%s\"\n"
           "INVARIANTS WalksTheMeaning Accounted DrawsBelongToPlaces\nCHECK_DEADLOCK FALSE\n")
    every = '"tok","emb","rnd","fit","img"'
    ctx.model_check("PreprocModel", cfg_text=cfg % (2, every, "none"), workers=8)
    if not ctx.quick:
        ctx.model_check("PreprocModel", cfg_text=cfg % (3, every, "none"), workers=8, timeout=3000)
    for b in ("raw fields", "disabled too", "either modality", "draw by turn", "refit", "silent skip", "train only"):
        ids = {"refit": '"fit","emb"', "either modality": '"img","tok"'}.get(b, '"tok","emb","rnd"')
        ctx.model_check("PreprocModel", cfg_text=cfg % (2, ids, b), workers=4, expect="WalksTheMeaning is violated")
    traces = pmap(trace, [(i, ctx.seed, ctx.pick(25, 40)) for i in range(ctx.pick(120, 3000))])
    for t in traces:
        for e in t["ev"]:
            if not e["err"]:
                ctx.nontrivial.add(str((t["id"], e["plan"], e["ds"])))
    ctx.notes["rule"] = "distinct (plan, dataset) that ran to the end"
    ctx.judge("PreprocTrace", traces, workers=8)
