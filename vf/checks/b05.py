"""B05: see spec/BenchData.tla, BenchDataModel.tla and BenchDataTrace.tla."""
import copy
import os
import pathlib
import random

from vf import bench_drv as B
from vf import enc

CFG = 'SPECIFICATION Spec\nCONSTANTS\n NTrain=3\n NTest=1\n Labels={1,3}\n Broken="%s"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
DATA = {}
PYPROJECT = pathlib.Path(os.environ.get("VF_REPO", "/repo")) / "pyproject.toml"


def prepare():
    from modssc.inductive.methods.co_training import CoTrainingMethod
    from modssc.inductive.methods.comatch import CoMatchMethod

    from vf import fakeprov
    B.install()
    for m in (CoTrainingMethod, CoMatchMethod):  # what it is handed matters here, not what it learns
        m.fit = B.Ind.fit
        m.predict_proba = B.Ind.predict_proba
        m.kind = "inductive"
    fakeprov.install()
    fakeprov.FakeProvider.load_canonical = staticmethod(lambda *a, **k: make(DATA["d"]))


def make(d):
    import numpy as np
    from modssc.data_loader.types import LoadedDataset, Split

    def y(part):
        return np.array([d["names"][v] for v in part], dtype=object) if d["names"] else np.array(part, dtype=d["ydt"])

    def x(part):
        return np.array([[p, 2 * p + 1] for p in part], dtype=d["xdt"])
    n = len(d["ytr"])
    kw = {}
    if d["graph"]:
        kw["edges"] = np.array(d["edges"], dtype=np.int64).T if d["etrans"] == 0 else np.array(d["edges"], dtype=np.int64)
        if d["masks"]:
            kw["masks"] = {k: np.isin(np.arange(n), v) for k, v in d["masks"].items()}
    tr = Split(X=x(d["pos"][:n]), y=y(d["ytr"]), **kw)
    te = Split(X=x(d["pos"][n:]), y=y(d["yte"])) if d["yte"] else None
    return LoadedDataset(train=tr, test=te, meta={"modality": "graph" if d["graph"] else "tabular"})


def random_data(r):
    n = r.randint(8, 22)
    pool = r.choice([[0, 1], [0, 1, 2], [0, 1, 2, 3], [1, 2], [3, 5, 9], [0, 2], [2, 7], [0, 1, 5], [40, 1000]])
    nm = None
    if r.random() < 0.2:
        pool = list(range(len(pool)))
        nm = r.sample(["ant", "bee", "cat", "dog", "elk"], len(pool))
    ytr = [r.choice(pool) for _ in range(n)]
    ytr[:len(pool)] = pool
    r.shuffle(ytr)
    graph = r.random() < 0.25
    yte = [r.choice(pool) for _ in range(r.randint(3, 8))] if not graph and r.random() < 0.5 else []
    pos = r.sample(range(1, 120), n + len(yte))
    d = dict(ytr=ytr, yte=yte, pos=pos, names=sorted(nm) if nm else None, pool=pool, graph=graph, ydt=r.choice(["int64", "int32"]), xdt=r.choice(["float32", "float64"]))
    if graph:
        es = set()
        for _ in range(r.randint(n, 3 * n)):
            es.add((r.randrange(n), r.randrange(n)))
        if r.random() < 0.15:
            es = set(r.sample(sorted(es), 2))
        d["edges"] = sorted(es)
        r.shuffle(d["edges"])
        d["weights"] = [r.choice([1, 2, 3, 0.5])] * len(es) if r.random() < 0.5 else []
        d["etrans"] = r.randrange(2) if len(es) != 2 else 0  # two by two says sources over targets
        d["masks"] = None
        if r.random() < 0.5:
            ids = list(range(n))
            r.shuffle(ids)
            a, b = n // 2, n // 2 + max(1, n // 4)
            d["masks"] = dict(train=ids[:a], val=ids[a:b], test=ids[b:])
    return d


def random_plan(r, d):
    if r.random() < 0.75:
        split = dict(kind="holdout", test_fraction=r.choice([0.2, 0.3]), val_fraction=r.choice([0.15, 0.25]), stratify=False, shuffle=True)
    else:
        split = dict(kind="kfold", k=3, fold=r.randrange(3), stratify=False, shuffle=True, val_fraction=0.25)
    lab = r.choice([dict(mode="fraction", value=0.4), dict(mode="count", value=r.randint(2, 3)), dict(mode="per_class", value=1)])
    lab = dict(lab, min_per_class=0 if r.random() < 0.7 else 1, strategy="proportional")
    imb = dict(kind="none")
    if r.random() < 0.15:
        imb = dict(kind="subsample_max_per_class", apply_to="train", max_per_class=4, min_per_class=1)
    resp = r.random() < 0.6
    return dict(split=split, labeling=lab, imbalance=imb, policy=dict(respect_official_test=resp, use_official_graph_masks=True, allow_override_official=not resp))


def to_np(x):
    import numpy as np
    if hasattr(x, "detach"):
        x = x.detach().cpu().numpy()
    return np.asarray(x)


class Reader:
    """Sample numbers (1..N) from feature rows."""

    def __init__(self, pos):
        self.pos = {p: i + 1 for i, p in enumerate(pos)}
        self.back = None  # (mean, std) per column where features are scaled
        self.agrees = []

    def scaled(self, pos_sets, rows, col=(0, 1)):
        """Find which samples the scaler was fitted on."""
        import numpy as np
        x = np.zeros((len(rows), 2))
        x[:, list(col)] = to_np(rows).astype(float)
        cols = np.array([[p, 2 * p + 1] for p in self.pos], dtype=float)
        for name, ids in pos_sets.items():
            if not ids:
                continue
            m = cols[[i - 1 for i in ids]]
            mu, sd = m.mean(0), m.std(0)
            sd = np.where(sd == 0, 1, sd)
            raw = x * sd + mu
            if len(col) == 1:
                c = col[0]
                raw[:, 1 - c] = 2 * raw[:, c] + 1 if c == 0 else (raw[:, c] - 1) / 2
            if len(raw) and np.all(np.abs(raw - np.round(raw)) < 0.02) and all(int(round(v)) in self.pos for v in raw[:, 0]) and np.all(np.abs(2 * raw[:, 0] + 1 - raw[:, 1]) < 0.06):
                self.agrees.append(name)
                if self.back is None:
                    self.back = (mu, sd)
        return self

    def ids(self, x, col=None):
        if isinstance(x, dict):
            x = x["x"]
        x = to_np(x).astype(float)
        if x.ndim == 1:
            x = x.reshape(-1, 1)
        out = []
        for row in x:
            row = list(row)
            if self.back is not None:
                mu, sd = self.back
                cs = col if col is not None else list(range(len(row)))
                row = [v * sd[c] + mu[c] for v, c in zip(row, cs)]
            cs = col if col is not None else list(range(len(row)))
            got = {self.pos.get(int(round(v if c == 0 else (v - 1) / 2)), 0) for v, c in zip(row, cs)}
            out.append(got.pop() if len(got) == 1 else 0)
        return out


def ints(a):
    return [int(v) for v in to_np(a).reshape(-1)]


def mask_ids(m):
    import numpy as np
    m = to_np(m)
    return [int(i) + 1 for i in np.nonzero(m)[0]] if m.dtype == bool else [0]


def graph_token(g):
    import numpy as np
    ei = to_np(g.edge_index)
    w = None if g.edge_weight is None else to_np(g.edge_weight).reshape(-1)
    rows = sorted((int(a), int(b), round(float(w[i]), 4) if w is not None else -1.0) for i, (a, b) in enumerate(np.asarray(ei).T))
    return enc.tok([int(g.n_nodes), [list(q) for q in rows]])


def scenario(a):
    import numpy as np
    i, seed = a
    r = random.Random(f"b05:{i}:{seed}")
    prepare()
    from modssc.data_loader import load_dataset
    from modssc.sampling import SamplingPlan, sample
    d = random_data(r)
    DATA["d"] = d
    kind = r.choice(["inductive", "transductive"]) if not d["graph"] else r.choice(["transductive", "transductive", "inductive"])
    cfg = B.base(kind)
    cfg["dataset"] = {"id": f"vfprov:d{i}"}
    plan = random_plan(r, d)
    sseed = r.randrange(1000)
    cfg["sampling"] = dict(seed=sseed, plan=plan)
    steps = [{"id": "core.ensure_2d"}]
    if d["names"] or r.random() < 0.2 and d["pool"] == list(range(len(d["pool"]))):
        steps.insert(r.randrange(2), {"id": "labels.encode"})
    fiton = None
    vfit = None
    if r.random() < 0.3:
        fiton = r.choice(["train", "train_labeled", "train_unlabeled", "val"])
        steps.append({"id": "tabular.standard_scaler", **({"modalities": ["graph"]} if d["graph"] else {})})
        cfg["preprocess"]["fit_on"] = fiton
    if d["graph"] and d["weights"]:
        steps.append({"id": "graph.attach_edge_weight", "params": {"weight": d["weights"][0]}})
    steps.append({"id": r.choice(["core.to_numpy", "core.to_torch"])})
    cfg["preprocess"]["plan"]["steps"] = steps
    cfg["preprocess"]["cache"] = r.random() < 0.2
    views, naug, cot, com = [], 0, False, False
    if kind == "inductive" and not d["graph"]:
        if r.random() < 0.4:
            views = r.sample([("one", [0]), ("two", [1]), ("both", [0, 1])], r.choice([2, 3]))
            if len(views) == 2 and r.random() < 0.6:
                cot = True
                cfg["method"].update(id="co_training", params={})
            cfg["views"] = {"seed": 1, "plan": {"views": [{"name": n, "columns": {"mode": "indices", "indices": c}} for n, c in views]}}
            if fiton is None and r.random() < 0.4:  # a view with a scaler of its own
                vfit = r.choice([n for n, _ in views])
                cfg["preprocess"]["fit_on"] = r.choice(["train", "train_labeled", "train_unlabeled", "val"])
                for v in cfg["views"]["plan"]["views"]:
                    if v["name"] == vfit:
                        v["preprocess"] = {"steps": [{"id": "core.ensure_2d"}, {"id": "tabular.standard_scaler"}]}
                if not d["names"] and r.random() < 0.5:
                    cfg["preprocess"]["plan"]["steps"] = []
        if fiton is None and r.random() < 0.4:
            naug = 2
            step = [{"id": "tabular.gaussian_noise", "params": {"std": 0.001}}]
            if not views and r.random() < 0.4:  # a method that wants a second strong view
                com, naug = True, 3
                cfg["method"].update(id="comatch", params={})
            cfg["augmentation"] = {"enabled": True, "mode": "fixed", "modality": "tabular", "seed": 4, "weak": {"steps": step if r.random() < 0.7 else []}, "strong": {"steps": step}}
    reports = r.sample(["train", "val", "test"], r.choice([1, 2, 3]))
    mets = r.choice([["vf_score"], ["vf_other", "vf_score"]])
    cfg["evaluation"] = dict(report_splits=reports, metrics=mets)
    trials = []
    if r.random() < 0.25:
        osplit = r.choice(["val", "train"])
        sp = r.choice([[1, 2], [1, 2, 3]])
        cfg["search"] = {"enabled": True, "kind": "grid", "objective": {"split": osplit, "metric": mets[0], "direction": "maximize", "aggregate": "mean"},
                         "space": {"method": {"params": {"k_per_class" if cot else "queue_size" if com else "a": sp}}}}
        trials = [[osplit, mets[0]] for _ in sp]

    # the split, from the sampler itself
    with B.Home() as h:
        (h.root / "pyproject.toml").write_bytes(PYPROJECT.read_bytes())  # where the driver looks up extras
        try:
            ds = load_dataset(f"vfprov:d{i}")
            res, _ = sample(ds, plan=SamplingPlan.from_dict(copy.deepcopy(plan)), seed=sseed, dataset_fingerprint=str(ds.meta["dataset_fingerprint"]), dataset_id=f"vfprov:d{i}", save=False)
        except Exception as ex:  # noqa: BLE001 - the plan does not fit the data
            return dict(skip=f"{type(ex).__name__}: {ex}"[:100])
        n = len(d["ytr"])
        ytrue = d["ytr"] + d["yte"]
        if res.is_graph():
            q = {k: [int(v) + 1 for v in np.nonzero(res.masks[m])[0]] for k, m in (("tr", "train"), ("v", "val"), ("t", "test"), ("l", "labeled"), ("u", "unlabeled"))}
            use_test = False
        else:
            off = {k: (n if res.refs.get(k, "train") == "test" else 0) for k in res.indices}
            q = {k: [int(v) + 1 + off[m] for v in res.indices[m]] for k, m in (("tr", "train"), ("v", "val"), ("t", "test"), ("l", "train_labeled"), ("u", "train_unlabeled"))}
            use_test = res.refs.get("test", "train") == "test"
        if not q["l"] or not q["u"] or any(not q[dict(train="tr", val="v", test="t")[s]] for s in reports + [t[0] for t in trials]):
            return dict(skip="an empty split")
        fo = cfg["preprocess"].get("fit_on")
        if fo and not q[dict(train="tr", train_labeled="l", train_unlabeled="u", val="v")[fo]]:
            return dict(skip="an empty split")
        nodes = n + (len(d["yte"]) if use_test else 0)
        spec = dict(scheme="knn", k=r.choice([1, 2, 3]), metric="euclidean", backend="numpy", symmetrize=r.choice(["or", "none"]))
        if kind == "transductive" and not d["graph"]:
            cfg["graph"].update(spec=spec, cache=r.random() < 0.2)
        elif kind == "transductive":
            cfg["graph"] = {"enabled": False}

        known = sorted({ytrue[j - 1] for j in q["l"]})
        pred = [r.choice(known) for _ in ytrue]
        style = r.choice(["sorted", "sorted", "range", "labels"])
        rd, vrd = Reader(d["pos"]), {}
        ev, calls, st = [], [], dict(fits=0)
        sets = dict(train=q["tr"], train_labeled=q["l"], train_unlabeled=q["u"], val=q["v"], test=q["t"], all=list(range(1, n + 1)), everything=list(range(1, len(ytrue) + 1)))

        def settle(X):
            if fiton and rd.back is None:
                rd.scaled({fiton: sets[fiton], **sets}, X)
                ev.append(dict(op="prefit", on=fiton, agrees=list(rd.agrees)))

        def view_reader(nm, c, rows):
            if nm != vfit:
                return rd
            if nm not in vrd:
                vrd[nm] = Reader(d["pos"]).scaled({fo: sets[fo], **sets}, rows, c)
                ev.append(dict(op="prefit", on=fo, agrees=list(vrd[nm].agrees)))
            return vrd[nm]

        def fit(m, e):
            st["fits"] += 1
            data = e["data"]
            if kind == "inductive":
                settle(np.concatenate([to_np(x["x"] if isinstance(x, dict) else x) for x in (data.X_l, data.X_u)]))
                s1 = (data.views or {}).get("X_u_s_1") if com else None
                aug = [rd.ids(x) for x in (data.X_u_w, data.X_u_s, s1) if x is not None]
                again = s1 is not None and bool(np.array_equal(to_np(s1), to_np(data.X_u_s)))
                vs = []
                for nm, c in views:
                    v = (data.views or {}).get(nm)
                    if v is not None:
                        w = view_reader(nm, c, np.concatenate([to_np(v["X_l"]), to_np(v["X_u"])]))
                        vs.append(dict(l=w.ids(v["X_l"], c), u=w.ids(v["X_u"], c)))
                ev.append(dict(op="given", xl=rd.ids(data.X_l), yl=ints(data.y_l), xu=rd.ids(data.X_u), idxu=[v + 1 for v in ints(data.meta["idx_u"])], aug=aug, again=again, views=vs))
            else:
                settle(data.X)
                st["X"] = to_np(data.X)
                mk = data.masks
                ev.append(dict(op="nodes", x=rd.ids(data.X), y=ints(data.y), lm=mask_ids(mk["labeled_mask"]), um=mask_ids(mk["unlabeled_mask"]), vm=mask_ids(mk["val_mask"]), tm=mask_ids(mk["test_mask"]),
                               trm=mask_ids(mk["train_mask"]), edges=graph_token(data.graph)))

        def predict(m, X):
            if cot:  # predicts from the views alone
                got = [vrd.get(nm, rd).ids(X.views[nm]["X"], c) for nm, c in views]
                ids = [a if a == b else 0 for a, b in zip(*got)] if len(got[0]) == len(got[1]) else [0] * len(got[0])
            else:
                ids = rd.ids(X.X if hasattr(X, "X") else X)
            lab = [pred[k - 1] if k else -9 for k in ids]
            if style == "labels":
                return np.array(lab)
            out = np.zeros((len(lab), len(known) if style == "sorted" else max(known) + 1))
            for j, v in enumerate(lab):
                out[j] = [((j * 7 + c * 3) % 5) / 10 for c in range(out.shape[1])]
                if v == -9:
                    continue
                out[j, known.index(v) if style == "sorted" else v] = 1.0
            return out

        def met(name, yt, yp):
            calls.append(name)
            ev.append(dict(op="score", metric=name, yt=ints(yt), yp=ints(yp), at="?"))
            return float(len(calls))
        B.CTL.clear()
        B.CTL.update(fit=fit, predict=predict, metric=met)
        o, _ = h.run(copy.deepcopy(cfg))
        scores = [e for e in ev if e["op"] == "score"]
        for dd in h.out_dirs(cfg):
            g = B.read_run(dd)
            where = {}
            for s, mm in ((g["run"] or {}).get("metrics") or {}).items():
                for k, v in mm.items():
                    where[v] = (s, k)
            for ln in g["trials"] or []:
                for v in ln["objective"]["values"]:
                    where.setdefault(v, (ln["objective"]["split"], ln["objective"]["metric"]))
            for k, e in enumerate(scores):
                w = where.get(float(k + 1))
                if w and w[1] == e["metric"]:
                    e["at"] = w[0]
            if o["code"] and not o["raised"]:
                o["raised"] = (g["run"] or {}).get("error") or (g["error"] or "?")[-150:]
        ev.append(dict(op="done", raised=o["raised"] and o["raised"][:150]))

        edges = ""
        if kind == "transductive":
            if d["graph"]:
                from types import SimpleNamespace
                edges = graph_token(SimpleNamespace(n_nodes=n, edge_index=np.array(d["edges"]).T, edge_weight=np.array(d["weights"], dtype=float) if d["weights"] else None))
            elif "X" in st:
                from modssc.graph.construction.api import build_graph
                from modssc.graph.specs import GraphBuilderSpec
                edges = graph_token(build_graph(st["X"], spec=GraphBuilderSpec.from_dict(spec), seed=7, cache=False))
    ytok = [d["names"] and v or v for v in ytrue]
    return dict(id=f"run{i}", key=kind, y=ytok, pred=pred, split=q, nodes=nodes, edges=edges, naug=naug, nviews=len(views), nfits=len(trials) + 1,
                trials=trials, reports=[[s, m] for s in reports for m in mets], all=[[0, 0, 0]], ev=ev,
                kindof=[kind, "graph data" if d["graph"] else "rows", style, "official test" if use_test else "drawn test", "search" if trials else "no search", "odd labels" if known != list(range(len(known))) else "0..k labels",
                        "views" if views else "no views", "augmented" if naug else "plain", "co_training" if cot else "comatch" if com else "scripted", f"fit on {fiton}", f"view fit on {fo}" if vfit else "no view fit", "no steps" if not cfg["preprocess"]["plan"]["steps"] else "steps"])


def rows(a):
    """select_rows on graph samples."""
    import numpy as np
    i, seed = a
    r = random.Random(f"b05r:{i}:{seed}")
    from bench.orchestrators.slicing import select_rows
    n = r.randint(3, 9)
    es = sorted({(r.randrange(n), r.randrange(n)) for _ in range(r.randint(1, 3 * n))})
    r.shuffle(es)
    w = [r.randint(1, 99) for _ in es]
    keep = r.sample(range(n), r.randint(1, n))
    if r.random() < 0.5:
        keep = sorted(keep)
    torch_side = r.random() < 0.5
    key = r.choice(["edge_weight", "edge_attr"])
    X = dict(x=np.array([[k + 1.0, 2.0 * (k + 1) + 1] for k in range(n)]), edge_index=np.array(es, dtype=np.int64).T.copy(), num_nodes=n)
    X[key] = np.array(w, dtype=np.float64) if key == "edge_weight" else np.array([[v, -v] for v in w], dtype=np.float64)
    if torch_side:
        import torch
        X = {k: torch.as_tensor(v) if isinstance(v, np.ndarray) else v for k, v in X.items()}
    ev = []
    try:
        out = select_rows(X, np.array(keep), context="vf")
        x = to_np(out["x"])
        ids = [int(v) for v in x[:, 0]]
        ei, ww = to_np(out["edge_index"]), to_np(out[key])
        ok = ww.shape[0] == ei.shape[1]
        el = [[ids[int(p)], ids[int(q)], int(ww[k] if ww.ndim == 1 else ww[k][0]) if ok else 0] for k, (p, q) in enumerate(ei.T)]
        ev.append(dict(op="rows", kept=[k + 1 for k in keep], x=ids, edges=el))
    except Exception as ex:  # noqa: BLE001
        ev.append(dict(op="done", raised=f"{type(ex).__name__}: {ex}"[:150]))
    return dict(id=f"rows{i}", key="rows", y=[1], pred=[1], split=dict(l=[1], u=[1], v=[1], t=[1], tr=[1]), nodes=0, edges="", naug=0, nviews=0, nfits=0, trials=[], reports=[],
                all=[[p + 1, q + 1, v] for (p, q), v in zip(es, w)], ev=ev, kindof=["graph rows"])


def work(a):
    return (scenario if a[0] == "s" else rows)(a[1:])


def run(ctx):
    from collections import Counter

    from vf.proc import pmap
    inv = "LabelledRows HiddenLabels RightRows"
    ctx.model_check("BenchDataModel", cfg_text=CFG % ("none", inv), workers=8)
    for b, x in (("positions", "LabelledRows"), ("sorted", "LabelledRows"), ("visible", "HiddenLabels"), ("columns", "RightRows"), ("othersplit", "RightRows"), ("nooffset", "RightRows")):
        ctx.model_check("BenchDataModel", cfg_text=CFG % (b, x), expect=f"{x} is violated", workers=8)
    prepare()
    import torch  # noqa: F401
    k = ctx.pick(1, 12)
    got = pmap(work, [("s", i, ctx.seed) for i in range(500 * k)] + [("r", i, ctx.seed) for i in range(120 * k)])
    traces = [t for t in got if "skip" not in t]
    c = Counter(x for t in traces for x in t["kindof"])
    for t in traces:
        if len(t["ev"]) > 2:
            ctx.nontrivial.add(t["id"])
    ctx.notes["situations"] = dict(c)
    ctx.notes["plans that do not fit the data"] = len(got) - len(traces)
    ctx.notes["rule"] = "whole runs of the driver, with what the method and the metrics got"
    ctx.judge("BenchDataTrace", traces, workers=8)
