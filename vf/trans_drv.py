"""Transductive methods on small graphs (spec/Transduct.tla)."""
from __future__ import annotations

import random
import sys
from types import SimpleNamespace

import numpy as np

from vf import enc

CLASSIC = ["label_propagation", "label_spreading", "laplace_learning", "lazy_random_walk", "dynamic_label_propagation", "graph_mincuts", "tsvm", "poisson_learning", "poisson_mbo", "p_laplace_learning"]
GNN = ["chebnet", "planetoid", "gcn", "graphsage", "gat", "sgc", "appnp", "h_gcn", "n_gcn", "graphhop", "grafn", "gcnii", "grand"]
BINARY = {"lazy_random_walk", "graph_mincuts", "tsvm"}


def spec_of(method, r):
    from modssc.transductive.registry import get_method_class
    import inspect
    cls = get_method_class(method)
    mod = sys.modules[cls.__module__]
    sp = next(v for k, v in vars(mod).items() if k.endswith("Spec") and inspect.isclass(v) and v.__module__ == cls.__module__)
    kw = {}
    for name, opts in (("max_epochs", [2, 4, 12]), ("patience", [1, 3, 100]), ("epochs", [1, 2]), ("hidden_dim", [4]), ("head_dim", [2]), ("heads", [2]), ("num_layers", [2] if method == "gcnii" else [3, 5]), ("channels", [2]), ("K", [2]), ("r", [2]),
                       ("hidden_dims", [(4, 3)]), ("num_walks", [2]), ("walk_length", [4]), ("embedding_dim", [4]), ("batch_size", [4]), ("sup_batch_size", [2]), ("max_iter", [1, 2, 5] if method != "p_laplace_learning" else [5]), ("k_neighbors", [2]),
                       ("prop_steps", [2]), ("num_samples", [2]), ("classifier", ["fc", "attention"]), ("add_self_loops", [True, False]), ("symmetrize", [True, False]), ("undirected", [True, False]), ("hops", [1, 2]), ("thres", [0.3, 0.9])):
        if name in sp.__dataclass_fields__:
            kw[name] = r.choice(opts)
    return cls, sp, kw


def graph(r, n, w=True, sym=True):
    pairs = [(a, b) for a in range(n) for b in range(n) if a < b]
    r.shuffle(pairs)
    es = {(i, i + 1) for i in range(n - 1)} | set(pairs[:r.randint(0, n)])
    es = sorted(es)
    ws = [r.choice([1.0, 0.5, 2.0]) if w else 1.0 for _ in es]
    if sym:
        es, ws = es + [(b, a) for a, b in es], ws + ws
    return np.array(es, dtype=np.int64).T.reshape(2, -1), np.array(ws, dtype=np.float32)


def instance(r, method):
    """A small dataset whose labelled set shows every class, with parameters for the method."""
    C = 2 if method in BINARY else r.choice([2, 3])
    n = r.randint(C + 3, 9)
    ei, ew = graph(r, n, sym=method in CLASSIC or r.random() < 0.7)
    X = np.random.default_rng(r.randrange(10**6)).normal(size=(n, r.choice([2, 3]))).astype(r.choice([np.float32, np.float64]))
    perm = r.sample(range(n), n)
    nl = C + r.randint(0, 1)
    y = np.array([r.randrange(C) for _ in range(n)])
    for j, v in enumerate(perm[:nl]):
        y[v] = j % C
    mask, val = np.zeros(n, bool), np.zeros(n, bool)
    mask[perm[:nl]] = True
    if r.random() < 0.5:
        val[perm[nl]] = True
    return dict(n=n, C=C, ei=ei, ew=ew if r.random() < 0.7 else None, X=X, y=y, mask=mask, val=val, extra=r.random() < 0.5)


def node_data(q, y=None):
    masks = dict(train_mask=q["mask"].copy())
    if q["val"].any():
        masks["val_mask"] = q["val"].copy()
    if q["extra"]:
        masks["test_mask"] = masks["unlabeled_mask"] = ~(q["mask"] | q["val"])
    return SimpleNamespace(X=q["X"].copy(), y=(q["y"] if y is None else y).copy(), masks=masks, meta={},
                           graph=SimpleNamespace(edge_index=q["ei"].copy(), edge_weight=None if q["ew"] is None else q["ew"].copy()))


def snap(d):
    f = lambda a: "-" if a is None else enc.tok(np.asarray(a).tolist()) + str(np.asarray(a).dtype)  # noqa: E731
    return enc.digest([f(d.X), f(d.y), f(d.graph.edge_index), f(d.graph.edge_weight)] + [k + f(v) for k, v in sorted(d.masks.items())])


def disturb(r):
    import torch
    k = r.randrange(4)
    if k == 0:
        np.random.seed(r.randrange(1000))
    elif k == 1:
        torch.manual_seed(r.randrange(1000))
    elif k == 2:
        torch.rand(r.randint(1, 5))
        np.random.rand(2)


def rehide(r, q, d):
    """Replace hidden labels in place: other valid labels, or the unknown marker."""
    hid = [i for i in range(q["n"]) if not (d.masks["train_mask"][i] or ("val_mask" in d.masks and d.masks["val_mask"][i]))]
    k = r.randrange(3)
    for i in hid:
        d.y[i] = -1 if k == 0 else r.randrange(q["C"]) if k == 1 or r.random() < 0.5 else -1


def fit_event(cfg, q, d, obj, seed):
    y, mask = d.y.copy(), np.asarray(d.masks["train_mask"]).copy()
    val = np.asarray(d.masks["val_mask"]).copy() if "val_mask" in d.masks else np.zeros(q["n"], bool)
    g = enc.digest([enc.tok(d.X.tolist()), enc.tok(d.graph.edge_index.tolist()), enc.tok(None if d.graph.edge_weight is None else d.graph.edge_weight.tolist())])
    before = snap(d)
    why, fitted = "", True
    try:
        obj.fit(d, device="cpu", seed=seed)
        P = np.asarray(obj.predict_proba(d))
        out = enc.digest([str(P.shape), P.astype(np.float64).tobytes().hex()])
    except Exception as ex:  # noqa: BLE001
        fitted, out, why = False, "refused", f"{type(ex).__name__}: {ex}"[:200]
    return dict(kind="fit", cfg=cfg, graph=g, seed=seed, y=y.tolist(), mask=mask.tolist(), val=val.tolist(), out=out, fitted=fitted, same=snap(d) == before, why=why)


def job(a):
    import json
    import torch
    i, seed, method, k = a
    torch.set_num_threads(1)
    r = random.Random(f"trans:{method}:{i}:{seed}")
    cls, sp, kw = spec_of(method, r)
    cfg = enc.digest([method, json.dumps(kw, sort_keys=True, default=str)])
    q = instance(r, method)
    d = node_data(q)
    obj = cls(sp(**kw))
    ev = []
    seeds = r.choice([[3, 3, 3, 4], [0, 0, 0, 7]])
    for s in range(k):
        disturb(r)
        ev.append(fit_event(cfg, q, d, obj, r.choice(seeds)))
        step = r.randrange(6)
        if step <= 1:
            rehide(r, q, d)
        elif step == 2:  # the same contents in new objects
            d = node_data(q, d.y)
        elif step == 3:
            obj = cls(sp(**kw))
            rehide(r, q, d)
        elif step == 4:  # another labelled set: one more visible node, or back
            free = [v for v in range(q["n"]) if not q["mask"][v] and not q["val"][v]]
            v = r.choice(free)
            m = q["mask"].copy()
            if not d.masks["train_mask"][v]:
                m[v] = True
                d.y[v] = q["y"][v]
            if r.random() < 0.5:
                d.masks["train_mask"] = m
            else:
                d.masks["train_mask"][:] = m
            if q["extra"]:
                d.masks["test_mask"] = d.masks["unlabeled_mask"] = ~(m | q["val"])
        else:
            d = node_data(q, d.y)
            obj = cls(sp(**kw))
            rehide(r, q, d)
            if d.graph.edge_weight is not None and r.random() < 0.3:
                d.graph.edge_weight[:] = q["ew"]
        if not (d.y == -1).all() and d.graph.edge_weight is not None and r.random() < 0.15:  # edit the weights in place and later back
            base = q["ew"]
            d.graph.edge_weight[:] = base * 2 if (d.graph.edge_weight == base).all() else base
    return dict(id=f"{method}{i}", key=method, ev=ev)
