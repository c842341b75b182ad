"""P03: see spec/PreprocStore.tla (model) and spec/PreprocStoreTrace.tla (judge)."""
# needs: fsgate
from __future__ import annotations

import random

from vf import pre_builtin as B, pre_drv as D, symsteps as S
from vf.checks.p01 import one
from vf.core import drop, scratch_dir


def request(seed: int, sym: bool) -> dict:
    """A preprocessing request that completes."""
    for k in range(200):
        r = random.Random(f"{seed}/{sym}/{k}")
        if sym:
            S.TERMS.clear()
            d = D.random_dataset(r, 0)
            ds, plan, fit, reg = D.make_dataset(d, r.random() < 0.7), D.to_plan(D.random_plan(r, 3)), [0, 1], S.registry()
        else:
            ds, kind, _ = B.dataset(r)
            plan, fit, reg = B.to_plan(B.plan(r, kind)), list(range(6)), None
            if len(plan.steps) > 3:
                continue
        rq = dict(ds=ds, plan=plan, seed=r.randrange(1 << 31), fit=fit, reg=reg, sym=sym)
        if plan.steps and not one(**rq, cache=False, d="/nonexistent", purge=False)["val"].startswith("error"):
            return rq
    raise RuntimeError("no request completes")


def run1(rq, d, purge=False):
    return one(**rq, cache=True, d=d, purge=purge)


def files(d):
    return sorted(p for p in d.rglob("*") if p.is_file())


def play(item) -> dict:
    from vf.proc import crash_child

    rq = request(item["seed"], item["sym"])
    d = scratch_dir("p03")
    c = one(**rq, cache=False, d=d, purge=False)
    ev = [dict(k="cold", val=c["val"], err="")]
    for op in item["hist"]:
        if op["k"] == "run":
            e = run1(rq, d, op.get("purge", False))
            ev.append(dict(k="run", val=e["val"], err=e.get("why", "")))
        elif op["k"] == "crash":
            kind, v, _ = crash_child(lambda: run1(rq, d), d, op["at"], op.get("torn", False))
            if kind == "crashed":
                ev.append(dict(k="crash", at=op["at"], val="", err=""))
            else:
                ev.append(dict(k="run", val=v["val"], err=v.get("why", "")))
        else:
            fs = files(d)
            if fs:
                f = fs[op["n"] % len(fs)]
                n = f.stat().st_size
                if op["to"] < 0:
                    f.unlink()
                else:
                    with open(f, "r+b") as fh:
                        fh.truncate(int(n * op["to"]))
                ev.append(dict(k="harm", what=f"{f.name} {op['to']}", val="", err=""))
    drop(d)
    return dict(id=item["id"], key=item["id"].split("-")[0], ev=ev, hist=item["hist"])


def points(args):
    from vf.proc import op_log

    seed, sym = args
    rq = request(seed, sym)
    d = scratch_dir("cnt")
    ops = op_log(lambda: run1(rq, d), d)
    run1(rq, d)
    nf = len(files(d))
    drop(d)
    return [o.split(" ")[0] for o in ops], nf


def cfg(order, trust, kills, harms, props=True):
    return (f'SPECIFICATION Spec\nCONSTANTS\n Order="{order}"\n Trust="{trust}"\n Kills={kills}\n Harms={harms}\n'
            "INVARIANT OnlyWholeEntriesAreUsed\n" + ("PROPERTY Heals\n" if props else ""))


RUN = dict(k="run")


def run(ctx):
    from vf.proc import pmap
    import modssc.preprocess.api  # noqa: F401
    import scipy.sparse  # noqa: F401
    import sklearn.feature_extraction.text, sklearn.impute, sklearn.preprocessing  # noqa: F401, E401
    import torch

    torch.set_num_threads(1)
    k = ctx.pick(2, 4)
    ctx.model_check("PreprocStore", cfg_text=cfg("values-first", "checked", k, k))
    # a torn listing cannot come from a crash alone; from damage it can
    ctx.model_check("PreprocStore", cfg_text=cfg("manifest-first", "blind", 1, 0, False), expect="OnlyWholeEntriesAreUsed is violated")
    ctx.model_check("PreprocStore", cfg_text=cfg("values-first", "blind", 0, 1, False), expect="OnlyWholeEntriesAreUsed is violated")
    seeds = [(ctx.seed * 1000 + i, i % 3 == 0) for i in range(ctx.pick(14, 220))]
    pts = pmap(points, seeds)
    items = []

    def add(tag, sd, hist):
        items.append(dict(id=f"{tag}-{len(items)}", seed=sd[0], sym=sd[1], hist=hist))

    r = random.Random(ctx.seed)
    total = 0
    for sd, (ops, nf) in zip(seeds, pts):
        total += len(ops)
        for at, op in enumerate(ops, 1):   # every point of a first run
            add("first", sd, [dict(k="crash", at=at), RUN, RUN])
            if op == "write":
                add("first", sd, [dict(k="crash", at=at, torn=True), RUN, RUN])
        for at in range(1, len(ops) + 1):   # and of the run that recovers from one
            if r.random() < 0.25:
                a = dict(k="crash", at=r.randint(1, len(ops)), torn=r.random() < 0.5)
                add("second", sd, [a, dict(k="crash", at=at, torn=r.random() < 0.3), RUN, RUN])
        for n in range(nf):   # every file of a complete cache, cut or removed
            for to in (-1, 0, 0.5, 0.97):
                add("harm", sd, [RUN, dict(k="harm", n=n, to=to), RUN, RUN])
            x = [dict(k="harm", n=r.randrange(nf), to=r.choice([-1, 0, 0.3, 0.8])) for _ in range(r.randint(2, 5))]
            add("harms", sd, [RUN, *x, RUN, RUN])
            a = dict(k="crash", at=r.randint(1, 30), torn=r.random() < 0.5)
            add("mixed", sd, [RUN, *x, a, *x[:1], dict(k="run", purge=True), RUN])
    ctx.notes["crash_points"] = total
    traces = pmap(play, items)
    for t in traces:
        if any(e["k"] in ("crash", "harm") for e in t["ev"]):
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "histories in which a run was killed or a cache file was damaged"
    ctx.judge("PreprocStoreTrace", traces, workers=8)
