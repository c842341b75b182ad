"""E01: see spec/Metrics.tla and spec/MetricsTrace.tla."""
from __future__ import annotations

import itertools
import math
import random

import numpy as np

NAMES = ["accuracy", "balanced_accuracy", "macro_f1"]


def call(t, p, names):
    from modssc.evaluation import evaluate

    try:
        o = evaluate(t, p, names)
        return "", [dict(name=k, kind="nan" if math.isnan(v) else "num", v=0 if math.isnan(v) else int(round(float(v) * 1_000_000))) for k, v in o.items()]
    except Exception as ex:  # noqa: BLE001
        return type(ex).__name__, []


def event(t, p, tx, px, trows, prows, names):
    err, out = call(tx, px, list(names))
    return dict(t=t, p=p, trows=trows, prows=prows, names=list(names), err=err, out=out)


def onehot(y, k):
    return np.eye(k)[np.asarray(y, dtype=int)].reshape(len(y), k)


def wrap(y, r, rows):
    """The same labels (or rows) in another container or type."""
    import torch

    a = np.asarray(y)
    kinds = ["int64", "float64", "list", "torch", "tuple", "int32", "float32"]
    if not rows and len(y) and min(y) >= 0:
        kinds += (["uint8"] if max(y) < 256 else []) + (["bool"] if max(y) <= 1 else [])
    k = r.choice(kinds)
    if k == "list":
        return a.tolist() if a.size or not rows else a
    if k == "tuple":
        return tuple(a.tolist()) if a.size or not rows else a
    if k == "torch":
        return torch.tensor(a, requires_grad=bool(rows and a.dtype.kind == "f" and r.random() < 0.3))
    return a.astype(k)


def near(rows, r):
    """Scores in the same order, at any scale (also far closer together than they are large)."""
    return r.choice([lambda x: x, lambda x: x / 4, lambda x: x / 3, lambda x: 0.5 + x * 1e-12, lambda x: x * 1e-300, lambda x: x * 1e300, lambda x: 1e6 + x * 1e-8])(rows)


def exhaustive(args):
    n, k, lo, hi = args
    ev = []
    for i, t in enumerate(itertools.product(range(k), repeat=n)):
        if not lo <= i < hi:
            continue
        for p in itertools.product(range(k), repeat=n):
            ev.append(event(list(t), list(p), np.array(t, dtype=int), np.array(p, dtype=int), False, False, NAMES))
    return dict(id=f"x{n}.{k}.{lo}", key="exhaustive", ev=ev)


def some(args):
    i, seed, m = args
    r = random.Random(seed * 1_000_003 + i)
    ev = []
    for _ in range(m):
        k = r.randint(1, 5)
        lo = r.choice([0, 0, 0, -2, 3, 250, 70_000, -40_000, 5_000_000])
        n = r.choice([0, 1, 1, 2, 3, 5, 8, 13, 30, 60])
        pool = [lo + j * r.choice([1, 1, 3]) for j in range(k)]
        t = [r.choice(pool) for _ in range(n)]
        p = [x if r.random() < 0.5 else r.choice(pool + [lo + k + 2]) for x in t]
        names = r.choice([NAMES, NAMES[::-1], r.sample(NAMES, 2), [r.choice(NAMES)], NAMES, ["accuracy", "nope"], ["Accuracy"], []])
        form = r.random()
        if form < 0.25:
            mode = r.choice(["more", "less", "one", "none", "true1"])
            if mode == "more":
                p = p + [r.choice(pool) for _ in range(r.randint(1, 3))]
            elif mode == "less":
                p = p[:-1]
            elif mode == "one":
                p = [r.choice(pool)]
            elif mode == "none":
                p = []
            else:
                t, p = [r.choice(pool)], [r.choice(pool) for _ in range(r.choice([2, 4]))]
            if r.random() < 0.4:
                q = [[r.randrange(4) for _ in range(3)] for _ in p]
                ev.append(event(t, q, wrap(t, r, False), np.array(q, dtype=float).reshape(len(q), 3), False, True, names))
            else:
                ev.append(event(t, p, wrap(t, r, False), wrap(p, r, False), False, False, names))
            continue
        if form < 0.5:
            ev.append(event(t, p, wrap(t, r, False), wrap(p, r, False), False, False, names))
            continue
        # non-negative labels: the same prediction as labels, one-hot rows and scores, and in another order
        t = [r.randrange(k) for _ in range(n)]
        S = [[r.choice([0, 1, 2, 3, 7]) for _ in range(k)] for _ in range(n)]
        if r.random() < 0.5:
            S = [[x - 5 for x in row] for row in S]
        order = r.sample(range(n), n)
        for o in (list(range(n)), order):
            tt, SS = [t[j] for j in o], [S[j] for j in o]
            rows = np.array(SS, dtype=float).reshape(n, k)
            lab = [int(max(range(k), key=lambda j: (row[j], -j))) for row in SS]
            ev.append(event(tt, SS, wrap(tt, r, False), wrap(rows, r, True) if n and r.random() < 0.5 else near(rows, r), False, True, names))
            oh = onehot(tt, k)
            ev.append(event([[int(v) for v in q] for q in oh], SS, oh if r.random() < 0.5 else oh.astype(int), rows, True, True, names))
            ev.append(event(tt, [[int(v) for v in q] for q in onehot(lab, k)], wrap(tt, r, False), onehot(lab, k), False, True, names))
            ev.append(event(tt, lab, wrap(tt, r, False), wrap(lab, r, False), False, False, names))
    return dict(id=f"s{i}", key="random", ev=ev)


def run(ctx):
    from vf.proc import pmap
    import modssc.evaluation  # noqa: F401
    import torch

    torch.set_num_threads(1)
    base = "SPECIFICATION Spec\nCONSTANTS\n N=%d\n K=%d\n OverPredicted=%s\n Micro=%s\nINVARIANT AccOk\nINVARIANT BalOk\nINVARIANT F1Ok\nINVARIANT Bounds\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("MetricsModel", cfg_text=base % (ctx.pick(4, 5), 3, "FALSE", "FALSE"), workers=8)
    ctx.model_check("MetricsModel", cfg_text=base % (3, 3, "TRUE", "FALSE"), expect="BalOk is violated")
    ctx.model_check("MetricsModel", cfg_text=base % (3, 3, "FALSE", "TRUE"), expect="F1Ok is violated")
    jobs = [(n, k, lo, lo + 9) for n, k in ctx.pick([(1, 3), (2, 3), (3, 3), (4, 3), (6, 2)], [(1, 4), (2, 4), (3, 4), (4, 4), (5, 3), (8, 2)]) for lo in range(0, k**n, 9)]
    traces = pmap(exhaustive, jobs) + pmap(some, [(i, ctx.seed, 25) for i in range(ctx.pick(250, 6000))])
    for t in traces:
        for e in t["ev"]:
            ctx.nontrivial.add((str(e["t"]), str(e["p"]), str(e["names"])))
    ctx.notes["rule"] = "distinct (true labels, predictions, metrics) evaluated"
    ctx.judge("MetricsTrace", [t for t in traces if t["ev"]], workers=8)
