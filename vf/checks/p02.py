"""P02: see spec/Fitted.tla, spec/FittedModel.tla and spec/FittedTrace.tla."""
from __future__ import annotations

import json
import random

import numpy as np

from vf import enc, pre_builtin as B

ROWWISE = {
    "tab": lambda r: [("tabular.standard_scaler", dict(with_mean=r.random() < 0.8, with_std=r.random() < 0.8)),
                      ("tabular.impute", dict(strategy=r.choice(["mean", "median", "most_frequent"]), add_indicator=r.random() < 0.3)),
                      ("core.pca", dict(n_components=r.choice([1, 2, 3]), center=r.random() < 0.7)),
                      ("core.random_projection", dict(n_components=2, normalize=r.random() < 0.5)), ("core.cast_dtype", dict(dtype="float64"))],
    "cat": lambda r: [("core.pca", dict(n_components=2)), ("tabular.standard_scaler", {}), ("core.cast_dtype", dict(dtype="float64")),
                      ("tabular.impute", dict(strategy=r.choice(["mean", "median", "most_frequent"])))],
    "text": lambda r: [],
    "vis": lambda r: [("core.ensure_2d", {}), ("core.pca", dict(n_components=2)), ("core.cast_dtype", dict(dtype="float64"))],
}
HEAD = {
    "tab": lambda r: r.choice([[("core.copy_raw", {}), ("tabular.impute", dict(strategy="median"))], [("tabular.impute", dict(strategy="mean"))],
                               [("core.copy_raw", {}), ("core.pca", dict(n_components=3))],
                               [("tabular.standard_scaler", {}), ("tabular.impute", dict(strategy="mean"))]]),
    "cat": lambda r: [("tabular.one_hot", {}), ("tabular.impute", dict(strategy="mean"))][:r.choice([1, 2, 2])],
    "text": lambda r: r.choice([[("text.tfidf", dict(max_features=r.choice([None, 4]), min_df=r.choice([1, 2]), ngram_range=(1, r.choice([1, 2]))))],
                                [("text.vocab_tokenizer", dict(max_length=6, vocab_size=r.choice([5, 30]), min_freq=r.choice([1, 2])))],
                                [("text.ensure_strings", {}), ("text.tfidf", {})]]),
    "vis": lambda r: r.choice([[("vision.zca_whitening", {}), ("core.ensure_2d", {})], [("core.ensure_2d", {}), ("core.pca", dict(n_components=2))],
                               [("vision.resize", dict(height=3, width=2)), ("vision.zca_whitening", dict(eps=0.1)), ("core.ensure_2d", {})]]),
}
LABS = [[("labels.encode", {})], [("labels.ensure_onehot", {})], [("labels.encode", {}), ("labels.ensure_onehot", {})], []]


def cell_rows(kind, g, n, wild):
    k = {"tab": "tab", "cat": "cat", "text": "texta", "vis": "vis"}[kind]
    X = B.cells(k, g, n)
    if wild and kind == "tab":
        X = (X * g.choice([100.0, -3000.0, 7.0], size=X.shape) + g.choice([0.0, 500.0, -900.0], size=X.shape)).astype(np.float32)
    elif wild and kind == "cat":
        X[:, 0] = g.choice(np.asarray(["z1", "A", "b"], dtype=object), size=n)
        X[:, 1] = g.choice(np.asarray([900.0, "-70", None], dtype=object), size=n)
    elif wild and kind == "text":
        X = np.asarray([" ".join(g.choice(["zebra", "aardvark", *B.WORDS[:3]], size=9)) for _ in range(n)], dtype=object)
    elif wild:
        X = np.where(g.random(X.shape) < 0.5, 255, 0).astype(np.uint8)
    return X


def quant(row) -> list[int]:
    out = []
    for v in np.asarray(row, dtype=np.float64).reshape(-1):
        out.append(2_000_000_001 if np.isnan(v) else int(np.clip(round(float(np.clip(v, -1e9, 1e9)) * 1000), -2_000_000_000, 2_000_000_000)))
    return out


def content(kind, row) -> str:
    return enc.digest(enc.arr(np.asarray(row), 10**6))


def dense(X):
    if hasattr(X, "toarray"):
        return X.toarray()
    if hasattr(X, "detach"):
        return X.detach().numpy()
    return np.asarray(X)


def trace(args):
    from modssc.data_loader.types import LoadedDataset, Split
    from modssc.preprocess.api import preprocess

    i, seed, n = args
    r = random.Random(seed * 9_000_011 + i)
    g = np.random.default_rng(r.randrange(1 << 31))
    kind = r.choice(["tab", "tab", "cat", "text", "vis"])
    steps = HEAD[kind](r)
    pool = ROWWISE[kind](r)
    steps += [r.choice(pool) for _ in range(r.randint(0, 2))] if pool else []
    lab = r.choice(LABS)
    for st in lab:
        steps.insert(r.randint(0, len(steps)), st)
    plan = dict(steps=[dict(id=a, params=b) for a, b in steps], out="features.X")
    k = r.randint(4, 7)
    fit_rows = cell_rows(kind, g, k, False)
    yk = r.choice(["int", "gap", "str"])
    sd = r.randrange(1 << 20)
    ytr0 = None
    pl = B.to_plan(plan)
    ev = []
    for j in range(n):
        extra = cell_rows(kind, g, r.randint(0, 5), j > 0 and r.random() < 0.8)
        m = len(extra)
        order = list(range(k + m))
        if j and r.random() < 0.5:
            r.shuffle(order)
        Xtr = np.concatenate([fit_rows, extra])[order]
        fit = [order.index(q) for q in range(k)]
        te = cell_rows(kind, g, r.randint(1, 5), j > 0 and r.random() < 0.7)
        te = np.concatenate([te, Xtr[[r.randrange(k + m) for _ in range(2)]]])
        if r.random() < 0.5:
            te = te[::-1].copy()
        ytr = B.labels(yk, g, k + m)
        if ytr0 is not None and r.random() < 0.6 and len(ytr) >= len(set(ytr0.tolist())):   # same classes, other rows
            u = np.unique(ytr0)
            ytr = u[g.integers(0, len(u), k + m)]
            ytr[:len(u)] = u
            g.shuffle(ytr)
        ytr0 = ytr if ytr0 is None else ytr0
        yte = B.labels(yk, g, len(te))
        if r.random() < 0.3:
            yte[:] = yte[0]
        test = Split(X=te, y=yte) if r.random() < 0.85 else None
        ds = LoadedDataset(train=Split(X=Xtr, y=ytr), test=test, meta={"modality": B.MOD[kind]})
        e = dict(key="rows", lkey="labels:" + ",".join(sorted(set(map(str, ytr)))), err="", rows=[], labs=[])
        try:
            res = preprocess(ds, pl, seed=sd, fit_indices=np.asarray(fit, dtype=np.int64), cache=False)
            for name, src, s, store in (("train", ds.train, res.dataset.train, res.train_artifacts),
                                        ("test", ds.test, res.dataset.test, res.test_artifacts)):
                if src is None:
                    continue
                Z = dense(s.X)
                assert len(Z) == len(src.X), "rows lost"
                e["rows"] += [dict(split=name, row=content(kind, src.X[q]), out=quant(Z[q])) for q in range(len(Z))]
                for a in ("labels.y", "labels.y_onehot"):
                    if not lab or a not in store.data:
                        continue
                    L = dense(store.data[a])
                    for q in range(len(L)):
                        if src.y[q] not in ytr:   # a class the training split has not got
                            continue
                        o = quant(L[q])
                        while len(o) > 1 and o[-1] == 0:
                            o.pop()
                        e["labs"].append(dict(split=name, row=a + ":" + str(src.y[q]), out=o))
        except Exception as ex:  # noqa: BLE001
            e.update(err=f"{type(ex).__name__}: {ex}"[:200], rows=[], labs=[])
        ev.append(e)
    return dict(id=f"{kind}{i}", key=kind, plan=json.dumps(plan), ev=ev)


def cfg(reads, apply):
    return f'SPECIFICATION Spec\nCONSTANTS\n Vals={{0,1,2}}\n Reads="{reads}"\n Apply="{apply}"\n Runs=2\nINVARIANT OneFunction\n'


def run(ctx):
    from vf.proc import pmap
    import modssc.preprocess.api  # noqa: F401
    import sklearn.feature_extraction.text, sklearn.impute, sklearn.preprocessing  # noqa: F401, E401
    import torch

    torch.set_num_threads(1)
    ctx.model_check("FittedModel", cfg_text=cfg("fit", "same"), workers=8)
    for a, b in (("train", "same"), ("all", "same"), ("fit", "refit")):
        ctx.model_check("FittedModel", cfg_text=cfg(a, b), workers=4, expect="OneFunction is violated")
    traces = pmap(trace, [(i, ctx.seed, ctx.pick(6, 10)) for i in range(ctx.pick(200, 6000))])
    for t in traces:
        for e in t["ev"]:
            if not e["err"]:
                ctx.nontrivial.add((t["plan"], t["id"]))
    ctx.notes["rule"] = "distinct (plan, fitting rows) that ran"
    ctx.judge("FittedTrace", traces, workers=8)
