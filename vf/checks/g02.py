"""G02: see spec/GraphStore.tla (model) and spec/GraphCacheTrace.tla (judge)."""
# needs: fsgate
from __future__ import annotations

import random

import numpy as np

from vf import enc
from vf.checks.g01 import spec_of
from vf.core import drop, scratch_dir


def gval(g) -> str:
    w = np.zeros(g.edge_index.shape[1], np.float32) if g.edge_weight is None else np.asarray(g.edge_weight)
    rows = sorted((int(a), int(b), float(c).hex()) for a, b, c in zip(g.edge_index[0], g.edge_index[1], w))
    return enc.digest(int(g.n_nodes), bool(g.directed), g.edge_weight is None, str(w.dtype), rows)


def features(r):
    """A family of matrices close to one another."""
    n, dim = r.randint(4, 13), r.randint(1, 4)
    g = np.random.default_rng(r.randrange(1 << 31))
    x = np.round(g.normal(size=(n, dim)) * 32) / 8    # distances are exact in any order of summation
    out = [x]
    y = x.copy()
    y[r.randrange(n), r.randrange(dim)] += 1.75
    out.append(y)
    out.append(x[::-1].copy())
    out.append(x[: max(2, n - 1)])
    out.append(np.vstack([x, x[:1] + 0.25]))
    out.append(x.astype(np.float32))
    if dim > 1:
        out.append(x[:, ::-1].copy())
    out.append(np.asfortranarray(x))
    if r.random() < 0.15:
        z = np.tile(x, (1, 330_000 // (n * dim) + 1))
        out.append(z)
        z = z.copy()
        z[n // 2] *= 1.5    # far from both ends of the buffer
        out.append(z)
    return out


def specs(r):
    k = r.choice([1, 2, 3])
    base = dict(scheme="knn", metric="euclidean", k=k, symmetrize="none", weights=("heat", 2.0), normalize="none", self_loops=False,
                backend="numpy", chunk_size=r.choice([1, 2, 3, 4]))
    alts = [dict(k=k + 1), dict(metric="cosine"), dict(symmetrize="or"), dict(symmetrize="mutual"), dict(weights=("heat", 2.5)),
            dict(weights=("binary", None)), dict(normalize="rw"), dict(normalize="sym"), dict(self_loops=True), dict(backend="sklearn"),
            dict(backend="auto"), dict(backend="faiss", faiss_exact=True), dict(chunk_size=512), dict(scheme="epsilon", radius=2.6), dict(scheme="epsilon", radius=5.1),
            dict(scheme="anchor", n_anchors=3, anchors_k=1), dict(scheme="anchor", n_anchors=3, anchors_k=2), dict(scheme="anchor", n_anchors=2, anchors_k=1),
            dict(scheme="anchor", n_anchors=3, anchors_k=1, candidate_limit=2), dict(scheme="anchor", n_anchors=3, anchors_k=1, anchors_method="kmeans"),
            dict(metric="cosine", weights=("cosine", None)), dict(feature_field="features.Z")]
    return [base] + [dict(base, **a) for a in r.sample(alts, r.randint(2, 6))]


def build(q, d, cache, shard=None, resume=True):
    from modssc.graph.construction.api import build_graph

    try:
        g = build_graph(q["X"], spec=spec_of(q["spec"]), seed=q["seed"], dataset_fingerprint=q["ds"], preprocess_fingerprint=q["pp"],
                        cache=cache, cache_dir=d, edge_shard_size=shard, resume=resume)
    except Exception as exc:
        return dict(val="error", err=f"{type(exc).__name__}: {exc}"[:160])
    v = gval(g)
    if g.edge_weight is not None and g.edge_weight.flags.writeable:
        g.edge_weight[...] = 0      # what a caller does with its graph is its own business
        g.edge_index[...] = 0
    return dict(val=v, err="")


def key_of(q):
    s = dict(q["spec"])
    if q["spec"]["scheme"] != "anchor":
        return enc.digest(enc.arr(np.ascontiguousarray(q["X"])), sorted(s.items()), 0)
    return enc.digest(enc.arr(np.ascontiguousarray(q["X"])), sorted(s.items()), q["seed"])


def requests(r):
    xs, ss = features(r), specs(r)
    seeds = [r.choice([0, 0, 1, r.randrange(100)]), r.randrange(100)]
    out = []
    for _ in range(r.randint(3, 9)):
        x, sp = r.choice(xs), r.choice(ss)
        if sp["metric"] == "cosine" or sp["scheme"] == "anchor":    # rounding follows the memory layout
            x = np.ascontiguousarray(x)
        out.append(dict(X=x, spec=sp, seed=r.choice(seeds), ds=r.choice([None, "ds", "ds", "other"]), pp=r.choice([None, "p"])))
    if r.random() < 0.3:    # what only the seed tells apart
        x = np.ascontiguousarray(np.random.default_rng(r.randrange(1 << 31)).normal(size=(r.randint(14, 30), 2)))
        sp = dict(ss[0], scheme="anchor", k=r.choice([2, 3, 4]), n_anchors=r.randint(3, 6), anchors_k=r.choice([1, 2]), anchors_method=r.choice(["kmeans", "kmeans", "random"]), backend="numpy")
        out = out[:3] + [dict(X=x, spec=sp, seed=s, ds="ds", pp=None) for s in {*seeds, 0}]
    return out


def files(d):
    return sorted(p for p in d.rglob("*") if p.is_file())


def harm(d, r, ev):
    fs = files(d)
    if not fs:
        return
    f = r.choice(fs)
    do_harm(f, r.choice([-1, -1, 0, 0.5, 0.97, 2]), ev)


def do_harm(f, to, ev):
    n = f.stat().st_size
    if to == -1:
        f.unlink()
    elif to == 2:
        f.write_bytes(b"not an array" * 3)
    else:
        with open(f, "r+b") as fh:
            fh.truncate(int(n * to))
    ev.append(dict(k="harm", key="-", what=f"{f.name} {to}", val="", err=""))


def history(args):
    """Many requests over one cache."""
    from vf.proc import crash_child

    i, seed, n = args
    r = random.Random(seed * 8_000_009 + i)
    d = scratch_dir("g02")
    qs = requests(r)
    ev = []
    for q in qs:
        q["key"] = key_of(q)
        ev.append(dict(k="cold", key=q["key"], **build(q, d / "none", False)))
    for _ in range(n):
        q = r.choice(qs)
        z = r.random()
        kw = dict(shard=r.choice([None, None, 1, 3, 1000]), resume=r.random() < 0.85)
        if z < 0.7:
            ev.append(dict(k="run", key=q["key"], **build(q, d, True, **kw)))
        elif z < 0.85:
            kind, v, _ = crash_child(lambda: build(q, d, True, **kw), d, r.randint(1, 60), r.random() < 0.4)
            ev.append(dict(k="crash", key=q["key"], val="", err="") if kind == "crashed" else dict(k="run", key=q["key"], **v))
        else:
            harm(d, r, ev)
    drop(d)
    return dict(id=f"h{i}", key="history", ev=ev)


def request1(seed):
    """One request whose build stores several chunks."""
    for k in range(100):
        r = random.Random(f"{seed}/{k}")
        q = dict(r.choice(requests(r)), shard=r.choice([None, None, 2]))
        if q["X"].size < 100 and "error" not in build(q, "/nonexistent", False)["val"] and q["spec"]["backend"] == "numpy":
            q["key"] = key_of(q)
            return q
    raise RuntimeError("no request completes")


def points(seed):
    from vf.proc import op_log

    q = request1(seed)
    d = scratch_dir("cnt")
    ops = op_log(lambda: build(q, d, True, q["shard"]), d)
    build(q, d, True, q["shard"])
    nf = len(files(d))
    drop(d)
    return [o.split(" ")[0] for o in ops], nf


def play(item):
    """One request, killed at given points, its files damaged, then asked for again."""
    from vf.proc import crash_child

    q = request1(item["seed"])
    d = scratch_dir("g02")
    ev = [dict(k="cold", key=q["key"], **build(q, d / "none", False))]
    for op in item["hist"]:
        if op["k"] == "run":
            ev.append(dict(k="run", key=q["key"], **build(q, d, True, op.get("shard", q["shard"]))))
        elif op["k"] == "crash":
            kind, v, _ = crash_child(lambda: build(q, d, True, q["shard"]), d, op["at"], op.get("torn", False))
            ev.append(dict(k="crash", key=q["key"], val="", err="", at=op["at"]) if kind == "crashed" else dict(k="run", key=q["key"], **v))
        elif op["k"] == "all":
            for f in files(d):
                do_harm(f, op["to"], ev)
        else:
            fs = files(d)
            if fs:
                do_harm(fs[op["n"] % len(fs)], op["to"], ev)
    drop(d)
    return dict(id=item["id"], key=item["id"].split("-")[0], ev=ev, hist=item["hist"])


def bench(args):
    """The benchmark's graph stage: one preprocessed dataset, with and without its test rows, several feature fields."""
    from bench.orchestrators.graph import build as stage
    from modssc.preprocess.store import ArtifactStore
    from modssc.preprocess.types import PreprocessResult
    from types import SimpleNamespace

    i, seed = args
    r = random.Random(seed * 77 + i)
    d = scratch_dir("g02")
    n, dim = r.randint(5, 9), 3
    g = np.random.default_rng(r.randrange(1 << 31))
    pres = []
    for _ in range(2):
        xs = {f: (np.round(g.normal(size=(n, dim)) * 3, 1), np.round(g.normal(size=(4, dim)) * 3, 1)) for f in ("features.X", "features.Z")}
        tr, te = ArtifactStore(), ArtifactStore()
        for f, (a, b) in xs.items():
            tr.set(f, a), te.set(f, b)
        ds = SimpleNamespace(train=SimpleNamespace(X=xs["features.X"][0]), test=SimpleNamespace(X=xs["features.X"][1]), meta={})
        pres.append((PreprocessResult(dataset=ds, plan=None, preprocess_fingerprint=r.choice(["p", "q"]), train_artifacts=tr, test_artifacts=te), xs))
    ss = [dict(s, weights=dict(kind=s["weights"][0], sigma=s["weights"][1])) for s in specs(r)]
    ev, known = [], set()
    for _ in range(14):
        p, xs = r.choice(pres)
        f = r.choice(["features.X", "features.Z"])
        s = dict(r.choice(ss), feature_field=f)
        inc = r.random() < 0.5
        sd = r.choice([1, 2])
        key = enc.digest(enc.arr(xs[f][0]), enc.arr(xs[f][1]) if inc else 0, sorted((a, str(b)) for a, b in s.items()), sd if s["scheme"] == "anchor" else 0)

        def go(cache):
            try:
                return dict(val=gval(stage(p, spec_dict=s, seed=sd, dataset_fingerprint="ds", cache=cache, cache_dir=str(d), include_test=inc)), err="")
            except Exception as exc:
                return dict(val="error", err=f"{type(exc).__name__}: {exc}"[:160])
        if key not in known:
            known.add(key)
            ev.append(dict(k="cold", key=key, **go(False)))
        ev.append(dict(k="run", key=key, **go(True)))
    drop(d)
    return dict(id=f"b{i}", key="bench", ev=ev)


KNN = dict(scheme="knn", metric="euclidean", k=2, symmetrize="none", weights=("heat", 2.0), normalize="none", self_loops=False, backend="numpy", chunk_size=3)
ANC = dict(KNN, scheme="anchor", n_anchors=3, anchors_k=1, candidate_limit=3)
PAIRS = [(KNN, dict(k=3)), (KNN, dict(metric="cosine")), (KNN, dict(symmetrize="or")), (dict(KNN, symmetrize="or"), dict(symmetrize="mutual")),
         (KNN, dict(weights=("heat", 2.5))), (KNN, dict(weights=("binary", None))), (dict(KNN, metric="cosine"), dict(weights=("cosine", None))),
         (KNN, dict(normalize="rw")), (dict(KNN, normalize="sym"), dict(normalize="rw")), (KNN, dict(self_loops=True)),
         (dict(KNN, scheme="epsilon", radius=3.0), dict(radius=6.0)), (KNN, dict(scheme="epsilon", radius=3.0)), (KNN, dict(scheme="anchor", n_anchors=3, anchors_k=1)),
         (ANC, dict(n_anchors=2)), (ANC, dict(n_anchors=None)), (ANC, dict(anchors_k=2)), (ANC, dict(candidate_limit=2)), (ANC, dict(candidate_limit=1000)),
         (dict(ANC, candidate_limit=1000), dict(anchors_method="kmeans")), (ANC, dict(k=1)), (ANC, "seed"), (KNN, "X"), (KNN, "rows"), (KNN, "order")]


def pair(args):
    """Two requests that differ in one thing, and in their graphs, taking turns on one cache."""
    i, seed = args
    base, diff = PAIRS[i % len(PAIRS)]
    r = random.Random(seed * 3001 + i)
    d = scratch_dir("g02")
    for _ in range(60):
        n = r.randint(8, 14)
        x = np.round(np.random.default_rng(r.randrange(1 << 31)).normal(size=(n, 2)) * 4, 1)
        a = dict(X=x, spec=base, seed=1, ds=r.choice([None, "ds"]), pp=None)
        b = dict(a)
        if diff == "seed":
            b["seed"] = 2
        elif diff == "X":
            b["X"] = x.copy()
            b["X"][n // 2, 1] += 2.5
        elif diff == "rows":
            b["X"] = x[:-1]
        elif diff == "order":
            b["X"] = x[::-1].copy()
        else:
            b["spec"] = dict(base, **diff)
        va, vb = build(a, d / "none", False), build(b, d / "none", False)
        if va["val"] != vb["val"]:
            break
    ev = [dict(k="cold", key="a", **va), dict(k="cold", key="b", **vb)]
    shard = r.choice([None, 2])
    for w in r.choice(["abab", "baab", "abba"]):
        ev.append(dict(k="run", key=w, **build(a if w == "a" else b, d, True, shard)))
    drop(d)
    return dict(id=f"p{i}", key="pair", what=str(diff), apart=va["val"] != vb["val"], ev=ev)


def cfg(key="content", resume="checked", trust="checked", clear="manifest-first", kills=1, harms=1, chunks=2, props=True):
    return (f'SPECIFICATION Spec\nCONSTANTS\n Key="{key}"\n Resume="{resume}"\n Trust="{trust}"\n Clear="{clear}"\n Kills={kills}\n Harms={harms}\n NChunks={chunks}\n'
            "INVARIANT OwnGraph\nINVARIANT EntriesOwn\n" + ("PROPERTY Finishes\n" if props else ""))


RUN = dict(k="run")


def run(ctx):
    from vf.proc import pmap
    import modssc.graph  # noqa: F401
    import modssc.preprocess.api  # noqa: F401
    import sklearn.neighbors, sklearn.cluster  # noqa: F401, E401
    import faiss
    import torch

    torch.set_num_threads(1)
    faiss.omp_set_num_threads(1)
    k = ctx.pick(1, 2)
    ctx.model_check("GraphStore", cfg_text=cfg(kills=k, harms=k), workers=8, timeout=1500)
    ctx.model_check("GraphStore", cfg_text=cfg(key="dataset", kills=0, harms=0, props=False), workers=2, expect="OwnGraph is violated")
    ctx.model_check("GraphStore", cfg_text=cfg(resume="blind", props=False), workers=2, expect="OwnGraph is violated")
    ctx.model_check("GraphStore", cfg_text=cfg(trust="blind", props=False), workers=2, expect="OwnGraph is violated")
    # an old manifest over files half cleared is only dangerous when entries are trusted blindly
    ctx.model_check("GraphStore", cfg_text=cfg(trust="blind", clear="files-first", kills=2, harms=1, props=False), workers=2, expect="OwnGraph is violated")
    seeds = [ctx.seed * 1000 + i for i in range(ctx.pick(8, 150))]
    pts = pmap(points, seeds)
    items = []

    def add(tag, sd, hist):
        items.append(dict(id=f"{tag}-{len(items)}", seed=sd, hist=hist))

    r = random.Random(ctx.seed)
    total = 0
    for sd, (ops, nf) in zip(seeds, pts):
        total += len(ops)
        for at, op in enumerate(ops, 1):
            add("first", sd, [dict(k="crash", at=at), RUN, RUN])
            if op == "write":
                add("first", sd, [dict(k="crash", at=at, torn=True), RUN, RUN])
            if r.random() < 0.4:    # what the killed build left is damaged too
                add("left", sd, [dict(k="crash", at=at, torn=True), dict(k="harm", n=r.randrange(9), to=r.choice([-1, 0, 0.5, 2])), RUN, RUN])
            if r.random() < 0.25:
                add("left", sd, [dict(k="crash", at=at), dict(k="all", to=r.choice([0, 0.6, 2])), RUN, RUN])
        for n in range(nf):
            for to in (-1, 0, 0.5, 0.97, 2):
                add("harm", sd, [RUN, dict(k="harm", n=n, to=to), RUN, RUN])
            x = dict(k="harm", n=n, to=r.choice([-1, 0, 0.5]))
            at = dict(k="crash", at=r.randint(1, len(ops) + 6), torn=r.random() < 0.5)
            add("rebuild", sd, [RUN, x, at, RUN, RUN])
            add("rebuild", sd, [RUN, x, at, dict(k="harm", n=r.randrange(9), to=0.5), dict(k="run", shard=r.choice([1, 2, 1000])), RUN])
    ctx.notes["crash_points"] = total
    traces = pmap(play, items)
    traces += pmap(history, [(i, ctx.seed, 14) for i in range(ctx.pick(200, 5000))])
    pairs = pmap(pair, [(i, ctx.seed) for i in range(len(PAIRS) * ctx.pick(2, 12))])
    ctx.notes["pairs_not_told_apart"] = sorted({t["what"] for t in pairs if not t["apart"]})
    traces += pairs
    traces += pmap(bench, [(i, ctx.seed) for i in range(ctx.pick(30, 400))])
    for t in traces:
        if any(e["k"] in ("crash", "harm") for e in t["ev"]) or t["key"] in ("history", "bench", "pair"):
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "histories mixing requests, or in which a build was killed or a cache file was damaged"
    ctx.judge("GraphCacheTrace", traces, workers=8)
