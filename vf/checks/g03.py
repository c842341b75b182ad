"""G03: see spec/GraphFeat.tla and spec/GraphFeatTrace.tla."""
# needs: fsgate
from __future__ import annotations

import random

import numpy as np

from vf import enc
from vf.checks.g02 import do_harm, files
from vf.core import drop, scratch_dir

S = 1000


def graphs(r):
    n = r.randint(2, 6)
    edges = [[r.randrange(n), r.randrange(n)] for _ in range(r.randint(0, 3 * n))]
    if r.random() < 0.5:
        edges = edges + [[b, a] for a, b in edges]
    w = [r.randint(1, 5) for _ in edges]
    if w and r.random() < 0.2:
        w[r.randrange(len(w))] = 0
    return n, edges, w


def dataset(q):
    from modssc.graph.artifacts import GraphArtifact, NodeDataset

    n = q["n"]
    ei = np.asarray(q["edges"], dtype=np.int64).reshape(-1, 2).T
    w = None if q["w"] is None else np.asarray(q["w"], dtype=np.float32)
    g = GraphArtifact(n_nodes=n, edge_index=ei, edge_weight=w, directed=True, meta=dict(q["meta"]))
    return NodeDataset(X=np.array(q["X"], dtype=q["dt"]), y=np.asarray(q["y"]), graph=g, masks={k: np.asarray(v) for k, v in q["masks"].items()})


def spec(s):
    from modssc.graph.specs import GraphFeaturizerSpec

    return GraphFeaturizerSpec(**s)


def views(q, d, cache):
    from modssc.graph.featurization.api import graph_to_views

    e = dict(val="error", err="", own=True, rows=True)
    try:
        ds = dataset(q)
        out = graph_to_views(ds, spec=spec(q["spec"]), seed=q["seed"], cache=cache, cache_dir=d)
    except Exception as exc:
        e["err"] = f"{type(exc).__name__}: {exc}"[:160]
        return e
    e["val"] = enc.digest(sorted(out.views), [enc.arr(np.asarray(out.views[k])) for k in sorted(out.views)])
    e["rows"] = all(np.asarray(v).ndim == 2 and v.shape[0] == q["n"] for v in out.views.values()) and set(out.views) == set(q["spec"]["views"])
    e["own"] = bool(np.array_equal(out.y, ds.y)) and set(out.masks) == set(ds.masks) and all(np.array_equal(out.masks[k], ds.masks[k]) for k in ds.masks)
    if cache:
        for k, v in out.views.items():
            if np.asarray(v).flags.writeable and v is not ds.X:
                v[...] = 7
    return e


def key_of(q):
    return enc.digest(q["n"], str(q["X"]), q["dt"], str(q["edges"]), str(q["w"]), str(sorted(q["spec"].items())), q["seed"])


def specs(r):
    base = dict(views=("diffusion",), diffusion_steps=2, diffusion_alpha=0.25, struct_dim=3, walk_length=4, num_walks_per_node=2, window_size=2)
    st = dict(base, views=("struct",))
    nv = dict(st, struct_method="node2vec", walk_length=6)
    pairs = [(base, dict(diffusion_steps=3)), (base, dict(diffusion_alpha=0.5)), (base, dict(views=("attr",))), (base, dict(views=("attr", "diffusion"))),
             (base, dict(views=("attr", "diffusion", "struct"))), (st, dict(struct_dim=2)), (st, dict(walk_length=5)), (st, dict(num_walks_per_node=3)),
             (st, dict(window_size=1)), (nv, dict(p=0.1)), (nv, dict(q=0.1)), (st, dict(struct_method="node2vec", q=20.0)), (st, {}), (base, {})]
    a, b = r.choice(pairs)
    return [a, dict(a, **b)]


def family(r):
    """Datasets that share some but not all of features, edges, weights, parameters, seed and recorded fingerprint."""
    n, edges, w = graphs(r)
    X = [[r.randint(-3, 3) for _ in range(2)] for _ in range(n)]
    s0, s1 = specs(r)
    q = dict(n=n, edges=edges, w=w if r.random() < 0.7 else None, X=X, dt=r.choice(["float64", "float32", "int64"]), spec=s0, seed=r.choice([0, 0, r.randrange(50)]),
             y=[r.randrange(2) for _ in range(n)], masks=dict(train=[r.random() < 0.5 for _ in range(n)]), meta=r.choice([{}, {"fingerprint": "g"}, {"fingerprint": "g"}]))
    if r.random() < 0.12:   # beyond the first thousand edges
        reps = 1001 // max(1, len(edges)) + 2
        q["edges"] = (edges or [[0, n - 1]]) * reps
        q["w"] = None if q["w"] is None else [r.randint(1, 5) for _ in q["edges"]]
        q["spec"] = dict(q["spec"], views=("diffusion",))
        s1 = dict(s1, views=("diffusion",))
    out = [q]
    X2 = [list(x) for x in X]
    X2[r.randrange(n)][r.randrange(2)] += 2
    out.append(dict(q, X=X2))
    out.append(dict(q, spec=s1))
    out.append(dict(q, seed=q["seed"] + 1))
    es = [list(e) for e in q["edges"]]
    if es:
        es[-1] = [es[-1][0], (es[-1][1] + 1) % n]
        out.append(dict(q, edges=es))
        out.append(dict(q, w=[1 + (v % 5) for v in q["w"]] if q["w"] else [r.randint(2, 5) for _ in es]))
        if q["w"]:
            out.append(dict(q, w=None))
    out.append(dict(q, y=[1 - v for v in q["y"]], masks=dict(val=[not v for v in q["masks"]["train"]])))
    out.append(dict(q, dt="float32" if q["dt"] != "float32" else "float64"))
    k = n + 1
    out.append(dict(q, n=k, X=X + [[1, 1]], y=q["y"] + [0], masks={}))
    for o in out:
        o["key"] = key_of(o)
    return out


def history(args):
    from vf.proc import crash_child

    i, seed, m = args
    r = random.Random(seed * 9_000_001 + i)
    d = scratch_dir("g03")
    qs = family(r)
    ev = [dict(k="cold", key=q["key"], **views(q, d / "none", False)) for q in qs]
    for _ in range(m):
        q = r.choice(qs)
        z = r.random()
        if z < 0.82:
            ev.append(dict(k="run", key=q["key"], **views(q, d, True)))
        elif z < 0.92:
            kind, v, _ = crash_child(lambda: views(q, d, True), d, r.randint(1, 25), r.random() < 0.4)
            ev.append(dict(k="crash") if kind == "crashed" else dict(k="run", key=q["key"], **v))
        else:
            fs = files(d)
            if fs:
                do_harm(r.choice(fs), r.choice([-1, -1, 0, 0.5, 0.97, 2]), ev)
    drop(d)
    return dict(id=f"h{i}", key="history", ev=ev)


def related(n, edges, bias, ln, win):
    """Pairs of rows that may overlap; only used to choose telling cases."""
    nb = {i: {b for a, b in edges if a == i} for i in range(n)}

    def moves(prev, cur):
        if not nb[cur]:
            return {cur}
        if prev < 0:
            return nb[cur]
        rank = {v: bias[0] if v == prev else bias[1] if v in nb[prev] else bias[2] for v in nb[cur]}
        return {v for v in rank if all(rank[v] >= x or x - rank[v] < 10 for x in rank.values())}

    ws = [[i] for i in range(n)]
    for _ in range(ln - 1):
        ws = [w + [v] for w in ws for v in moves(w[-2] if len(w) > 1 else -1, w[-1])]
    j = {(w[a], w[b]) for w in ws for a in range(ln) for b in range(ln) if a != b and abs(a - b) <= win}
    return {(a, b) for a in range(n) for b in range(n) if any((a, v) in j and (b, v) in j for v in range(n))}


def biased(r):
    """A graph and a strong bias under which far fewer rows may overlap than under other biases."""
    best = None
    for _ in range(25):
        n = r.randint(4, 7)
        edges = [list(e) for e in {(r.randrange(n), r.randrange(n)) for _ in range(r.randint(n, 2 * n))}]
        lp, lq = r.choice([(12, 0), (-12, 0), (0, 12), (0, -12), (12, -12), (12, 12), (-12, -12)])
        ln = r.choice([3, 4])
        win = r.choice([2, ln - 1])
        mine = related(n, edges, (-lp, 0, -lq), ln, win)
        gain = min(len(related(n, edges, o, ln, win) - mine) for o in ((lp, 0, -lq), (-lp, 0, lq), (0, 0, 0), (lp, 0, lq)) if o != (-lp, 0, -lq))
        if best is None or gain > best[0]:
            best = (gain, n, edges, lp, lq, ln, win)
    return best[1:]


def definition(args):
    """Fresh views next to their definition."""
    from modssc.graph.featurization.api import graph_to_views

    i, seed = args
    r = random.Random(seed * 7_000_003 + i)
    ev = []
    for _ in range(3):
        n, edges, w = graphs(r)
        if r.random() < 0.4:
            w = None
        if len(edges) > 14:
            edges, w = edges[:14], w and w[:14]
        X = [[r.randint(-5, 5) for _ in range(r.choice([1, 2]))] for _ in range(n)]
        X = [x[:1] for x in X] if len({len(x) for x in X}) > 1 else X
        q = dict(n=n, edges=edges, w=w, X=X, dt=r.choice(["float64", "float32", "int64"]), seed=r.choice([0, 0, r.randrange(99)]), y=[0] * n, masks={}, meta={})
        an, ad = r.choice([(0, 1), (1, 1), (1, 2), (1, 4), (1, 10), (3, 4)])

        def go(**s):
            o = graph_to_views(dataset(q), spec=spec(s), seed=q["seed"], cache=False)
            return o.views

        a = go(views=("attr",))["attr"]
        ev.append(dict(k="attr", same=bool(enc.digest(enc.arr(np.asarray(a))) == enc.digest(enc.arr(np.array(X, dtype=q["dt"]))))))
        hs = []
        for t in range(r.choice([2, 3, 4])):
            h = go(views=("diffusion",), diffusion_steps=t, diffusion_alpha=an / ad)["diffusion"]
            hs.append([[int(round(float(v) * S)) for v in row] for row in h])
        ev.append(dict(k="diffusion", edges=edges, w=w or [1] * len(edges), X=X, S=S, an=an, ad=ad, hs=hs, tol=4))
        # structure
        fun = r.random() < 0.4
        if fun:
            f = [r.randrange(n) for _ in range(n)]
            if r.random() < 0.4:
                f = [(v + 1) % n for v in range(n)]
            edges = [[v, f[v]] for v in range(n) if f[v] != v or r.random() < 0.5]
        else:
            f = [0] * n
            edges = edges[:10]
        q.update(edges=edges, w=None)
        ln, win = r.choice([2, 3, 3, 4]), r.choice([1, 1, 2, 3])
        meth = r.choice(["deepwalk", "node2vec", "node2vec"])
        lp, lq = r.choice([(0, 0), (12, 0), (-12, 0), (0, 12), (0, -12), (12, -12)]) if meth == "node2vec" else (0, 0)
        s = dict(views=("struct",), struct_method=meth, struct_dim=n + r.choice([0, 0, 2]), walk_length=ln, window_size=win,
                 num_walks_per_node=r.choice([1, 3]), p=10.0 ** lp, q=10.0 ** lq)
        m = np.asarray(go(**s)["struct"], dtype=np.float64)
        gram = m @ m.T
        ev.append(dict(k="struct", n=n, edges=edges, bias=[-lp, 0, -lq], len=ln, win=win, fun=fun, f=f,
                       gram=[[int(abs(v) > 1e-3) for v in row] for row in gram], meth=meth))
        if r.random() < 0.6:
            bn, be, bp, bq, bl, bw = biased(r)
            o = graph_to_views(dataset(dict(q, n=bn, edges=be, w=None, X=[[0]] * bn, y=[0] * bn)), seed=q["seed"], cache=False, spec=spec(dict(
                views=("struct",), struct_method="node2vec", struct_dim=bn, walk_length=bl, window_size=bw, num_walks_per_node=12, p=10.0 ** bp, q=10.0 ** bq)))
            b = np.asarray(o.views["struct"], dtype=np.float64)
            ev.append(dict(k="struct", n=bn, edges=be, bias=[-bp, 0, -bq], len=bl, win=bw, fun=False, f=[0] * bn, meth="biased",
                           gram=[[int(abs(v) > 1e-3) for v in row] for row in b @ b.T]))
        q["X"] = [[v + 3 for v in x] for x in X]
        m2 = np.asarray(go(**s)["struct"], dtype=np.float64)
        ev.append(dict(k="graphonly", same=bool(np.array_equal(m, m2))))
    return dict(id=f"d{i}", key="definition", ev=ev)


def cfg(n, w, steps, norm="out", xs="{0, 3}", as_="{0, 1, 4}"):
    return (f'SPECIFICATION Spec\nCONSTANTS\n N={n}\n W={w}\n Steps={steps}\n Norm="{norm}"\n Xs={xs}\n As={as_}\n'
            "INVARIANT Averaging\nINVARIANT Restart\nPROPERTY StepIsDiffused\nCHECK_DEADLOCK FALSE\n")


def run(ctx):
    from vf.proc import pmap
    import modssc.graph  # noqa: F401
    import scipy.sparse  # noqa: F401
    import modssc.graph.featurization.api  # noqa: F401

    ctx.model_check("GraphFeatModel", cfg_text=cfg(2, "{0, 1, 3}", 3), workers=8)
    ctx.model_check("GraphFeatModel", cfg_text=cfg(2, "{0, 1, 3}", 1, norm="in"), workers=2, expect="violated")
    if ctx.tier == "thorough":
        ctx.model_check("GraphFeatModel", cfg_text=cfg(3, "{0, 1, 2}", 3, as_="{1}"), workers=8, timeout=3000)
        ctx.model_check("GraphStore", cfg_text=__import__("vf.checks.g02", fromlist=["cfg"]).cfg(kills=2, harms=2), workers=8, timeout=1500)
    traces = pmap(history, [(i, ctx.seed, 22) for i in range(ctx.pick(160, 4000))])
    traces += pmap(definition, [(i, ctx.seed) for i in range(ctx.pick(160, 4000))])
    for t in traces:
        for e in t["ev"]:
            if e["k"] == "run":
                ctx.nontrivial.add(e["key"])
            elif e["k"] in ("diffusion", "struct"):
                ctx.nontrivial.add(enc.digest(e))
    ctx.notes["rule"] = "distinct requests served over a shared cache, and distinct views compared with their definition"
    ctx.judge("GraphFeatTrace", traces, workers=8)
