"""Diffusion methods on small graphs (spec/Diffuse.tla)."""
from __future__ import annotations

import random
from types import SimpleNamespace

import numpy as np

U = 10000
WALK = "modssc.transductive.methods."


def rnd(a, k=U):
    return np.rint(np.asarray(a, dtype=np.float64) * k).astype(np.int64).tolist()


def numpy_of(a):
    return a.detach().cpu().numpy() if hasattr(a, "detach") else np.asarray(a)


def digraph(r, n, directed=True, loops=True, parallel=True):
    es = []
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b or (loops and r.random() < 0.3)]
    k = r.randint(n - 1, min(len(pairs), 2 * n))
    es = r.sample(pairs, k)
    if not directed:
        es = sorted({tuple(sorted(e)) for e in es})
    ws = [r.choice([1, 2, 2, 4]) for _ in es]
    if not directed:
        back = [((b, a), w) for (a, b), w in zip(es, ws) if a != b]
        es, ws = es + [e for e, _ in back], ws + [w for _, w in back]
    elif parallel and r.random() < 0.3:
        j = r.randrange(len(es))
        es.append(es[j])
        ws.append(r.choice([1, 2]))
    return es, ws


def connected(r, n, loops=False):
    """A connected undirected graph, every edge in both directions."""
    es = {}
    order = r.sample(range(n), n)
    for i in range(1, n):
        es[tuple(sorted((order[i], order[r.randrange(i)])))] = r.choice([1, 2, 4])
    for _ in range(r.randint(0, n)):
        a, b = r.randrange(n), r.randrange(n)
        if a != b or loops:
            es[tuple(sorted((a, b)))] = r.choice([1, 2, 4])
    out = [(e, w) for e, w in es.items()] + [((b, a), w) for (a, b), w in es.items() if a != b]
    r.shuffle(out)
    return [e for e, _ in out], [w for _, w in out]


def labels(r, n, C):
    y = [r.randrange(C) for _ in range(n)]
    m = r.randint(C, max(C, n - 1))
    lab = r.sample(range(n), m)
    for j, v in enumerate(lab):
        if j < C:
            y[v] = j
    return y, [i in lab for i in range(n)]


def base(r, n, C, es, ws, y, mask):
    return dict(n=n, C=C, edges=[list(e) for e in es], w=list(ws), y=y, mask=mask, rule="-", norm="rw", an=1, ad=1, rows=False, tol=0, p=2, ln=0, ld=1, knn=n)


def arrays(r, t):
    ei = np.array(t["edges"], dtype=r.choice([np.int64, np.int32])).T.reshape(2, -1)
    unit = all(v == 2 for v in t["w"])
    ew = None if unit and r.random() < 0.8 else np.array(t["w"], dtype=r.choice([np.float32, np.float64])) / 2
    y = np.array(t["y"], dtype=np.int64)
    m = np.array(t["mask"])
    if r.random() < 0.5:
        y = np.where(m, y, -1)
    return ei, ew, y, m


def tensors(ei, ew, y, m):
    import torch
    return torch.as_tensor(ei, dtype=torch.long), None if ew is None else torch.as_tensor(ew, dtype=torch.float32), torch.as_tensor(y), torch.as_tensor(m)


def node_data(ei, ew, y, m):
    return SimpleNamespace(X=np.eye(len(y), dtype=np.float32), y=y, masks=dict(train_mask=m), meta={}, graph=SimpleNamespace(edge_index=ei, edge_weight=ew))


def res(x):
    """(F, iters, residual) of what a solver returns."""
    if isinstance(x, tuple):
        F, it, rs = x
    elif isinstance(x, dict):
        F, it, rs = x["F"], x["n_iter"], x["residual"]
    else:
        F, it, rs = x.F, x.n_iter, x.residual
    return numpy_of(F), int(it), float(rs)


def call(how, name, t, arr, spec, r):
    """Run one entry point of a method module; returns (F, iters or -1, residual)."""
    import importlib
    ei, ew, y, m = arr
    group = "pde" if name in ("poisson_learning", "p_laplace_learning") else "classic"
    mod = importlib.import_module(WALK + group + "." + name)
    n = t["n"]
    kw = {} if spec is None else {"spec": spec}
    if how == "method":
        cls = next(v for k, v in vars(mod).items() if k.endswith("Method") and getattr(v, "__module__", "") == mod.__name__)
        obj = cls(spec) if spec is not None else cls()
        d = node_data(ei, ew, y, m)
        obj.fit(d, device=r.choice([None, "cpu"]), seed=0)
        return np.asarray(obj.predict_proba(d)), -1, 0.0
    fn = getattr(mod, name + ("_" + how if how in ("numpy", "torch") else ""))
    a = tensors(*arr) if how == "torch" else arr
    if how == "auto" and name in ("label_propagation", "label_spreading"):
        kw["backend"] = r.choice(["numpy", "torch", "auto"])
    return res(fn(n_nodes=n, edge_index=a[0], edge_weight=a[1], y=a[2], labeled_mask=a[3], **kw))


def fixed(how, t, arr, k):
    from modssc.transductive.solvers.fixed_point import fixed_point_diffusion_numpy, fixed_point_diffusion_torch
    from modssc.transductive.types import DeviceSpec
    ei, ew, y, m = arr
    Y = np.zeros((t["n"], t["C"]), np.float32)
    for i in range(t["n"]):
        if t["mask"][i]:
            Y[i, t["y"][i]] = 1
    kw = dict(n_nodes=t["n"], edge_index=ei, edge_weight=ew, Y=Y, train_mask=m, alpha=t["an"] / t["ad"], max_iter=k, tol=t["tol"] / 1e9, normalize_rows=t["rows"], norm_mode=t["norm"])
    return res(fixed_point_diffusion_numpy(**kw) if how == "numpy" else fixed_point_diffusion_torch(device=DeviceSpec(device="cpu"), **kw))


def event(kind, out, n, C):
    F, it, rs = out
    return dict(kind=kind, F=rnd(F), iters=it, resid=int(min(rs * U, 2e9)), nano=int(min(rs * 1e9, 2e9)), err="", side=[0], u=[0])


def failed(kind, ex):
    return dict(kind=kind, F=[[0]], iters=0, resid=0, nano=0, err=f"{type(ex).__name__}: {ex}"[:200], side=[0], u=[0])


def step_job(a):
    import torch
    torch.set_num_threads(1)
    i, seed, K = a
    r = random.Random(f"diff:{i}:{seed}")
    rule = r.choice(["propagate", "spread", "fixed"])
    n, C = r.randint(3, 6), r.choice([2, 2, 3])
    es, ws = digraph(r, n, directed=r.random() < 0.7)
    y, mask = labels(r, n, C)
    t = base(r, n, C, es, ws, y, mask)
    indeg = [sum(w for e, w in zip(es, ws) if e[1] == v) for v in range(n)]
    norms = ["rw"] + (["none"] if rule == "fixed" else []) + (["sym"] if all(indeg[e[0]] > 0 for e in es) else [])
    t.update(rule=rule, norm=r.choice(norms), rows=r.random() < 0.5, tol=r.choice([200_000_000, 50_000_000, 10_000_000, 1_000_000, 1000]))
    if rule != "propagate":
        t["an"], t["ad"] = r.choice([(1, 2), (9, 10), (4, 5), (1, 4), (1, 20), (1, 50)])
    if rule != "fixed" and r.random() < 0.15:  # a hidden label no labelled node has
        y = t["y"] = [v if m else C for v, m in zip(y, mask)]
    if rule == "propagate" and r.random() < 0.1:  # nothing left to move
        mask = t["mask"] = [True] * n
        y = t["y"] = [v % C for v in y]
        t["tol"] = r.choice([0, 1000])
    if t["norm"] == "none" and not t["rows"]:
        K = min(K, 3)
    ev = []
    for k in range(1, K + 1):
        arr = arrays(r, t)
        try:
            if rule == "fixed":
                out = fixed(r.choice(["numpy", "torch"]), t, arr, k)
                name = None
            else:
                name = "label_propagation" if rule == "propagate" else "label_spreading"
                spec = make_spec(name, t, k)
                out = call(r.choice(["numpy", "torch", "auto"]), name, t, arr, spec, r)
            ev.append(event("step", out, n, C))
            if abs(ev[-1]["nano"] - t["tol"]) < 3000 and t["tol"] > 10**4:
                return None
            if t["tol"] <= 10**4 and ev[-1]["nano"] < 10**5 and k > 1 and not all(t["mask"]):  # rounding decides from here
                ev.pop()
                break
            if name and r.random() < 0.5:
                ev.append(event("same", call("method", name, t, arr, spec, r), n, C))
        except Exception as ex:  # noqa: BLE001
            ev.append(failed("step", ex))
    return dict(t, id=f"step{i}", key=f"{rule}{i}", ev=ev)


def make_spec(name, t, k):
    import importlib
    mod = importlib.import_module(WALK + "classic." + name)
    kw = dict(norm=t["norm"], max_iter=k, tol=t["tol"] / 1e9, normalize_rows=t["rows"])
    if name == "label_spreading":
        return mod.LabelSpreadingSpec(alpha=t["an"] / t["ad"], **kw)
    return mod.LabelPropagationSpec(**kw)


def reachable(n, es, mask):
    seen = {i for i in range(n) if mask[i]}
    while True:
        new = {d for s, d in es if s in seen} - seen
        if not new:
            return len(seen) == n
        seen |= new


def solve_job(a):
    import torch
    torch.set_num_threads(1)
    i, seed = a
    r = random.Random(f"solve:{i}:{seed}")
    kind = ["harmonic", "cut", "walk", "poisson", "pharm", "dyn"][i % 6]
    C = 2 if kind in ("cut", "walk", "pharm") else r.choice([2, 3])
    n = r.randint(C + 2, 6)
    loops = kind != "poisson"
    if kind in ("harmonic", "cut"):
        es, ws = digraph(r, n, directed=r.random() < 0.7)
    else:
        es, ws = connected(r, n, loops=loops)
        if kind == "dyn" and r.random() < 0.5:  # one direction only: the method symmetrises
            keep = [j for j, e in enumerate(es) if e[0] <= e[1]]
            es, ws = [es[j] for j in keep], [ws[j] for j in keep]
    y, mask = labels(r, n, C)
    if kind == "harmonic" and not reachable(n, es, mask):
        es, ws = connected(r, n, loops=True)
    t = base(r, n, C, es, ws, y, mask)
    ev = []
    try:
        hows = ["numpy", "torch", "method"]
        if kind == "harmonic":
            for h in hows:
                ev.append(event(kind, call(h, "laplace_learning", t, arrays(r, t), None, r), n, C))
        elif kind == "cut":
            for _ in range(2):
                h = r.choice(["plain", "method"])
                e = event(kind, call(h, "graph_mincuts", t, arrays(r, t), None, r), n, C)
                e["side"] = [int(f[1] > f[0]) for f in e["F"]]
                ev.append(e)
        elif kind == "walk":
            from modssc.transductive.methods.classic.lazy_random_walk import LazyRandomWalkSpec
            t["an"], t["ad"] = r.choice([(1, 2), (4, 5), (1, 10), (3, 4)])
            for h in hows:
                e = event(kind, call(h, "lazy_random_walk", t, arrays(r, t), LazyRandomWalkSpec(alpha=t["an"] / t["ad"]), r), n, C)
                e["side"] = [int(f[1] > f[0]) for f in e["F"]]
                ev.append(e)
        elif kind == "poisson":
            from modssc.transductive.methods.pde.poisson_learning import PoissonLearningSpec
            t["rows"] = r.random() < 0.5
            for h in ("numpy", "torch"):
                ev.append(event(kind, call(h, "poisson_learning", t, arrays(r, t), PoissonLearningSpec(backend=h, center_sources=t["rows"]), r), n, C))
            for e in ev:
                e["F"] = [[max(-15 * U, min(15 * U, v)) for v in row] for row in e["F"]]
        elif kind == "pharm":
            from modssc.transductive.methods.pde.p_laplace_learning import PLaplaceLearningSpec
            t["p"] = r.choice([2, 3, 4])
            for h in ("numpy", "method"):
                e = event(kind, call(h, "p_laplace_learning", t, arrays(r, t), PLaplaceLearningSpec(p=float(t["p"]), max_iter=200), r), n, C)
                P = np.asarray(call("numpy", "p_laplace_learning", t, arrays(r, t), PLaplaceLearningSpec(p=float(t["p"]), max_iter=200), r)[0], dtype=np.float64) if h == "numpy" else np.array(e["F"]) / U
                z = np.array([0.0 if m else np.log(max(q[1], 1e-9) / max(q[0], 1e-9)) for q, m in zip(P, mask)])
                e["u"] = [(200 if q[0] > 0.5 else 0) if m else int(round(100 * (1 - v))) for q, m, v in zip(P, mask, z)]
                ev.append(e)
        else:
            from modssc.transductive.methods.classic.dynamic_label_propagation import DynamicLabelPropagationSpec
            t["an"], t["ad"] = r.choice([(1, 20), (1, 5), (0, 1)])
            t["ln"], t["ld"] = r.choice([(1, 10), (0, 1), (1, 5)])
            t["knn"] = r.choice([n, 2, 3])
            if t["knn"] < n and ties(t):
                t["knn"] = n
            for k in range(1, 5):
                sp = DynamicLabelPropagationSpec(k_neighbors=t["knn"], alpha=t["an"] / t["ad"], lambda_value=t["ln"] / t["ld"], max_iter=k)
                ev.append(event(kind, call(r.choice(["numpy", "torch"]), "dynamic_label_propagation", t, arrays(r, t), sp, r), n, C))
    except Exception as ex:  # noqa: BLE001
        ev.append(failed(kind, ex))
    return dict(t, id=f"{kind}{i}", key=f"{kind}{i}", ev=ev)


def ties(t):
    n, k = t["n"], t["knn"]
    A = np.zeros((n, n))
    for (s, d), w in zip(t["edges"], t["w"]):
        if s != d:
            A[d, s] += w
            A[s, d] += w
    for i in range(n):
        v = sorted((A[i, j] for j in range(n) if j != i), reverse=True)
        if k < len(v) and v[k - 1] == v[k] and v[k] > 0:
            return True
    return False
