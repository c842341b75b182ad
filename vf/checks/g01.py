"""G01: see spec/Graph.tla and spec/GraphTrace.tla."""
from __future__ import annotations

import itertools
import math
import random

import numpy as np

ONE = 10000


def spec_of(d):
    from modssc.graph.specs import GraphBuilderSpec, GraphWeightsSpec

    d = dict(d)
    w = d.pop("weights", ("binary", None))
    return GraphBuilderSpec(weights=GraphWeightsSpec(*w), **d)


def dist2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def cosine(a, b):
    na, nb = sum(x * x for x in a), sum(x * x for x in b)
    return 0.0 if na == 0 or nb == 0 else sum(x * y for x, y in zip(a, b)) / math.sqrt(na * nb)


def weight(a, b, metric, w):
    """The weight of one pair, from its definition."""
    kind, sigma = w
    if kind == "binary":
        return 1.0
    if kind == "cosine":
        return cosine(a, b)
    d2 = dist2(a, b) if metric == "euclidean" else (1 - cosine(a, b)) ** 2
    return math.exp(-d2 / (2 * sigma * sigma))


def dress(pts, r):
    x = np.asarray(pts, dtype=r.choice([np.int64, np.int32, np.float32, np.float64, np.float64]))
    c = r.random()
    if c < 0.2:
        x = np.asfortranarray(x)
    elif c < 0.4:
        x = np.repeat(x, 2, axis=0)[::2]
    return x


def event(pts, d, r, seed=0, plain=None):
    from modssc.graph.construction.api import build_graph

    n = len(pts)
    x = dress(pts, r)
    e = dict(err="", n=n, pts=[list(p) for p in pts], metric=d["metric"], scheme=d["scheme"],
             exact=not (d["backend"] == "faiss" and not d.get("faiss_exact")), k=d.get("k") or 0, num=0, den=1,
             m=d["n_anchors"] if d.get("n_anchors") is not None else max(10, round(math.sqrt(n))), r=d.get("anchors_k", 5),
             limit=d.get("candidate_limit", 1000), kmeans=d.get("anchors_method") == "kmeans", raw=[], sym=d["symmetrize"], loops=d["self_loops"],
             norm=d["normalize"], W=[[round(ONE * weight(a, b, d["metric"], d["weights"])) for b in pts] for a in pts], one=ONE,
             tol=3 + (0 if d["normalize"] == "none" else 12), edges=[], weights=[], directed=False, nn=n)
    if d["scheme"] == "epsilon":
        f = d["radius"]
        e["num"], e["den"] = (f * 20).__round__(), 20
        assert e["num"] == f * 20
    e["backend"] = f'{d["backend"]}/{d["chunk_size"]}'
    try:
        raw = plain if plain is not None else build_graph(
            x, spec=spec_of(dict(d, symmetrize="none", self_loops=False, normalize="none", weights=("binary", None))), seed=seed, cache=False)
        g = build_graph(x, spec=spec_of(d), seed=seed, cache=False)
        e["raw"] = raw.edge_index.T.tolist()
        e["edges"] = g.edge_index.T.tolist()
        e["weights"] = [round(float(v) * ONE) for v in g.edge_weight]
        e["directed"] = bool(g.directed)
        e["nn"] = int(g.n_nodes)
    except Exception as exc:
        e["err"] = f"{type(exc).__name__}: {exc}"[:200]
    return e


def draw(r, n=None):
    metric = r.choice(["euclidean", "cosine"])
    scheme = r.choice(["knn", "knn", "epsilon", "anchor"])
    n = n or r.choice([1, 2, 3, 4, 5, 6, 7, 8])
    if scheme == "anchor" and n > 7:
        n = 7
    dim = r.choice([1, 2, 3])
    hi = r.choice([1, 2, 4])
    lo = 0 if metric == "cosine" and r.random() < 0.6 else -hi
    pts = [[r.randint(lo, hi) for _ in range(dim)] for _ in range(n)]
    if n > 1 and r.random() < 0.4:      # duplicates
        for _ in range(r.randint(1, n - 1)):
            pts[r.randrange(n)] = list(pts[r.randrange(n)])
    backend = r.choice(["numpy", "numpy", "sklearn", "faiss", "auto"])
    if scheme == "epsilon" and backend == "faiss":
        backend = "numpy"
    kinds = [("binary", None), ("heat", r.choice([3.0, 5.0, 8.5]) if metric == "euclidean" else r.choice([0.8, 1.0, 2.0]))]
    if metric == "cosine" and lo == 0:
        kinds.append(("cosine", None))
    if metric == "euclidean" and backend in ("numpy", "sklearn") and r.random() < 0.3:   # away from the origin
        off = r.choice([5000, 20000, 70000])
        pts = [[v + off for v in p] for p in pts]
    norm = r.choice(["none", "rw", "sym"])
    d = dict(scheme=scheme, metric=metric, symmetrize=r.choice(["none", "or", "mutual"]), weights=r.choice(kinds), normalize=norm,
             self_loops=r.random() < 0.5, backend=backend, chunk_size=r.choice([1, 2, 3, 5, 512]), faiss_exact=r.random() < 0.8)
    if d["weights"][0] == "cosine" and norm != "none":
        d["self_loops"] = True      # a row of orthogonal neighbours has degree zero
        d["symmetrize"] = r.choice(["or", "mutual"])
    if scheme == "epsilon":
        d["k"] = None
        d["radius"] = r.choice([1.0, 2.0, 3.0, 1.5, 2.25, 5.0, 0.5]) if metric == "euclidean" else r.choice([0.05, 0.2, 0.25, 0.35, 0.65, 1.15, 1.35, 1.95])
    else:
        d["k"] = r.choice([1, 1, 2, 3, 5, 30])
    if scheme == "anchor":
        d["n_anchors"] = r.choice([None, 1, 2, 3, 4])
        d["anchors_k"] = r.choice([1, 1, 2, 5])
        d["anchors_method"] = "random" if r.random() < 0.85 else "kmeans"
        d["candidate_limit"] = r.choice([1, 2, 3, 1000, 1000, 1000])
        d["chunk_size"] = r.choice([1, 2, 3, 512])
    return pts, d


def trace(args):
    i, seed, n = args
    r = random.Random(seed * 5_000_011 + i)
    ev = []
    for _ in range(n):
        pts, d = draw(r)
        if d["scheme"] == "anchor" and d.get("anchors_method") == "kmeans" and len({tuple(p) for p in pts}) < len(pts):
            d["anchors_method"] = "random"      # k-means warns and collapses on duplicates
        ev.append(event(pts, d, r, seed=r.randrange(100)))
    return dict(id=f"r{i}", key="random", ev=ev)


def sweep(args):
    """Every point set of n points on 0..c, every k, through each backend."""
    chunk, (n, c), seed = args
    r = random.Random(seed + 17 * hash(tuple(chunk[0])))
    ev = []
    for flat in chunk:
        pts = [[v] for v in flat]
        for backend in ("numpy", "sklearn", "faiss"):
            k = r.randint(1, n)
            d = dict(scheme="knn", metric="euclidean", symmetrize=r.choice(["none", "or", "mutual"]), weights=("binary", None),
                     normalize=r.choice(["none", "rw", "sym"]), self_loops=r.random() < 0.5, backend=backend,
                     chunk_size=r.randint(1, n), faiss_exact=True, k=k)
            ev.append(event(pts, d, r))
            if backend != "faiss":
                ev.append(event(pts, dict(d, scheme="epsilon", k=None, radius=r.choice([0.5, 1.0, 1.5, 2.0])), r))
    return dict(id=f"s{chunk[0]}", key="sweep", ev=ev)


def large(args):
    """More points than one default chunk, on a line: neighbours are known by position."""
    i, seed = args
    r = random.Random(seed * 31 + i)
    n = r.choice([513, 700, 1100])
    order = list(range(n))
    r.shuffle(order)
    return dict(id=f"l{i}", key="large", ev=[big_event(order, r)])


def big_event(order, r):
    from modssc.graph.construction.api import build_graph

    n = len(order)
    backend = r.choice(["numpy", "sklearn", "faiss"])
    d = dict(scheme="knn", metric="euclidean", symmetrize="none", weights=("binary", None), normalize="none", self_loops=False,
             backend=backend, chunk_size=r.choice([512, 100, 64]), faiss_exact=True, k=2)
    e = dict(big=True, err="", n=n, k=2, backend=backend, pairs=[])
    try:
        g = build_graph(np.asarray(order, dtype=np.float64)[:, None], spec=spec_of(d), cache=False)
        e["pairs"] = [[order[a], order[b]] for a, b in g.edge_index.T.tolist()]
    except Exception as exc:
        e["err"] = f"{type(exc).__name__}: {exc}"[:200]
    return e


def cfg(n, c, k, trim=True, chunks="{1, 2, 9}"):
    inv = ["RawIsKnn", "InRange", "LoopsAsAsked", "Undirected", "MutualBounded", "UnionKeeps", "Rows", "SymNorm"]
    return (f"SPECIFICATION Spec\nCONSTANTS\n N={n}\n Coord={c}\n MaxK={k}\n Trim={str(trim).upper()}\n Chunks={chunks}\n"
            + "\n".join("INVARIANT " + x for x in inv) + "\nCHECK_DEADLOCK FALSE\n")


def run(ctx):
    from vf.proc import pmap
    import modssc.graph  # noqa: F401
    import sklearn.neighbors  # noqa: F401
    import sklearn.cluster  # noqa: F401
    import faiss
    import torch

    torch.set_num_threads(1)
    faiss.omp_set_num_threads(1)
    ctx.model_check("GraphModel", cfg_text=cfg(3, 2, 3), workers=8)
    ctx.model_check("GraphModel", cfg_text=cfg(3, 1, 2, trim=False, chunks="{1}"), workers=2, expect="RawIsKnn is violated")
    if ctx.tier == "thorough":
        ctx.model_check("GraphModel", cfg_text=cfg(4, 2, 3, chunks="{2, 9}"), workers=8, timeout=3000)
    traces = pmap(trace, [(i, ctx.seed, 6) for i in range(ctx.pick(400, 8000))])
    n, c = ctx.pick((4, 2), (5, 2))
    flats = list(itertools.product(range(c + 1), repeat=n))
    traces += pmap(sweep, [(flats[j:j + 5], (n, c), ctx.seed) for j in range(0, len(flats), 5)])
    traces += pmap(large, [(i, ctx.seed) for i in range(ctx.pick(3, 20))])
    for t in traces:
        for e in t["ev"]:
            if not e["err"] and not e.get("big"):
                ctx.nontrivial.add((e["scheme"], e["metric"], e["backend"], e["sym"], e["norm"], e["loops"], e["n"], e["k"], e["num"]))
    ctx.notes["rule"] = "distinct (scheme, metric, backend/chunk, symmetrise, normalise, loops, n, k, radius) built"
    ctx.judge("GraphTrace", traces, workers=8)
