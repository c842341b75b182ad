"""A scripted base classifier for the self-labelling methods (I01, I02), and what their loops do with it."""
from __future__ import annotations

import hashlib
import random
from statistics import NormalDist

import numpy as np

ONE = 1 << 18
CUR = None          # the scenario under way


class Run:
    def __init__(self, scn):
        self.scn = scn
        self.at = {(*p, i + 1 in scn["twins"]): i + 1 for i, p in enumerate(scn["pos"])}
        self.fits, self.scored = [], []

    def ids(self, X):
        A = X.detach().cpu().numpy() if hasattr(X, "detach") else np.asarray(X)
        return [self.at[(int(r[0]), int(r[1]), bool(np.signbit(r[2])))] for r in A]


def h(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(), digest_size=8).digest(), "big")


def table(scn, tag, T, classes):
    """What a classifier trained on T predicts for every sample: [(label, confidence, other scores)]."""
    key = (scn["script"], tag, tuple(T))
    truth, sure = scn["truth"], scn["sure"]
    out = []
    for u in range(1, len(scn["pos"]) + 1):
        a = h(key, u)
        lab = truth[u - 1]
        acc = scn["acc_l"] if u in scn["ids_l"] else scn["acc"]
        if lab not in classes or (a % 1000) / 1000 >= acc:
            lab = classes[(a >> 12) % len(classes)]
        conf = ONE // 2 + 1 + ((a >> 20) % (ONE // 2 - 2)) if sure is None else sure[(a >> 20) % len(sure)]
        out.append((int(lab), conf, [(a >> (7 * j)) % (1 << 16) for j in range(len(classes))]))
    return out


class Scripted:
    torch_ = False

    def __init__(self, seed=0, n_jobs=None, **kw):
        self.seed = seed

    def fit(self, X, y):
        run = CUR
        ids = run.ids(X)
        ys = [int(v) for v in (y.tolist() if hasattr(y, "tolist") else y)]
        bag = {}
        for i, c in zip(ids, ys, strict=True):
            bag[(i, c)] = bag.get((i, c), 0) + 1
        T = sorted((i, c, n) for (i, c), n in bag.items())
        if run.scn["method"] == "co_training":
            m = int(X[0, 2])
        else:
            m = self.seed - run.scn["seed"] + 1 if run.scn["method"] in ("tri_training", "democratic") else 1
        self.labels = sorted(set(ys))
        self.tab = table(run.scn, m, T, self.labels)
        self.fit_no = len(run.fits)
        self.classes_ = np.asarray(self.labels)
        if self.torch_:
            import torch
            self.classes_t_ = torch.tensor(self.labels, dtype=y.dtype)
        self.dtype = y.dtype
        run.fits.append(dict(kind="fit", m=m, T=[list(z) for z in T], tab=[[a, b] for a, b, _ in self.tab], seen=[]))
        return self

    def row(self, u):
        lab, conf, rest = self.tab[u - 1]
        return [conf if c == lab else rest[j] for j, c in enumerate(self.labels)]

    def predict_scores(self, X):
        ids = CUR.ids(X)
        if CUR.scn["method"] == "setred":
            CUR.fits[self.fit_no]["seen"] = sorted(set(CUR.fits[self.fit_no]["seen"]) | {i for i in ids if i in CUR.scn["ids_u"]})
        A = np.asarray([self.row(i) for i in ids], dtype=np.float64).reshape(len(ids), len(self.labels)) / ONE
        if self.torch_:
            import torch
            return torch.tensor(A, dtype=torch.float32)
        return A

    predict_proba = predict_scores

    def predict(self, X):
        L = [self.tab[i - 1][0] for i in CUR.ids(X)]
        if self.torch_:
            import torch
            return torch.tensor(L, dtype=self.dtype)
        return np.asarray(L, dtype=self.dtype)


class ScriptedTorch(Scripted):
    torch_ = True


def register():
    from modssc.supervised import registry as R
    R.ensure_bootstrap()
    if "vf_script" in R._REGISTRY:
        return
    R.register_classifier(key="vf_script", description="scripted", preferred_backends=("numpy", "torch"))
    R.register_backend(classifier_id="vf_script", backend="numpy", factory="vf.ind_drv:Scripted")
    R.register_backend(classifier_id="vf_script", backend="torch", factory="vf.ind_drv:ScriptedTorch")


def scenario(r, method):
    multi = method in ("tri_training", "democratic")
    labels = r.choice([[0, 1], [0, 1, 2], [-3, 5, 10], [7, 2], [1, 2], [0, 2], [4]] if not multi else [[0, 1], [0, 1, 2], [-3, 5, 10], [7, 2], [1, 2], [2, 3]])
    n_l = r.randint(max(1, len(labels)), max(4, len(labels) + 1)) if not multi else r.randint(max(3, len(labels)), 6)
    n_u = r.choice([0, 1, 2, 3, 4, 5, 6]) if method != "democratic" else r.choice([0, 2, 4, 6, 10, 14, 16])
    n_t = 3
    n = n_l + n_u + n_t
    ids = list(range(1, n + 1))
    r.shuffle(ids)
    ids_l, ids_u, ids_t = ids[:n_l], ids[n_l:n_l + n_u], ids[n_l + n_u:]
    pos = [list(p) for p in r.sample([(x, y) for x in range(0, 200, 3) for y in range(1, 200, 7)], n)]
    truth = [r.choice(labels) for _ in range(n)]
    for i, c in zip(ids_l, r.sample(labels, len(labels)), strict=False):
        truth[i - 1] = c
    sure = r.choice([None, None, [ONE // 2 + 5, ONE // 2 + 900, ONE - 1], [ONE // 2 + 7, ONE - 3]])
    if method == "setred" and sure and len(sure) < 3:
        sure = None
    thr = r.choice([None, ONE // 2 + 1, int(ONE * 0.62), int(ONE * 0.75), int(ONE * 0.93)] + (sure or []))
    if method == "pseudo_label" and thr is None:
        thr = 0
    groups = method == "self_training" and r.random() < 0.7
    grp = [r.randint(1, 3) for _ in ids]
    k = r.choice([0, 1, 1, 2, 3])
    if method == "democratic" and n_u >= 10:
        acc_l, maxiter = r.choice([0.8, 0.85, 0.9, 0.95]), 10
    else:
        acc_l, maxiter = r.choice([0.6, 0.9, 1.0]), r.choice([0, 1, 2, 3, 10])
    twins = []
    if method == "setred":
        if r.random() < 0.5:    # far from the origin
            off = r.choice([20000, -30000, 70000])
            pos = [[x + off, y] for x, y in pos]
        if r.random() < 0.5 and n > 4:     # twins: samples at the same place, told apart by the sign of a zero
            for _ in range(r.choice([1, 2, 4])):
                a, b = r.sample(ids, 2) if not ids_u or r.random() < 0.3 else (r.choice(ids_l), r.choice(ids_u))
                if not {a, b} & set(twins) and sum(p == pos[a - 1] for p in pos) == 1 and sum(p == pos[b - 1] for p in pos) == 1:
                    pos[b - 1] = list(pos[a - 1])
                    twins.append(b)
    return dict(twins=twins, method=method, script=r.getrandbits(40), seed=r.randrange(1000), labels=labels, ids_l=ids_l, ids_u=ids_u, ids_t=ids_t, pos=pos, truth=truth,
                sure=sure, acc=r.choice([0.5, 0.8, 0.95]), acc_l=acc_l, thr=thr, maxnew=r.choice([None, None, 1, 2, 3, 0] if method != "setred" else [None, None, 1, 2, 3, 4]),
                minnew=r.choice([1, 1, 1, 2, 3]) if method == "setred" else r.choice([1, 1, 1, 2, 0]), maxiter=maxiter, k=k,
                nlearners={"co_training": 2, "tri_training": 3, "democratic": r.choice([3, 3, 5])}.get(method, 1), ratio=r.choice([1.0, 0.5, 0.7, 1.4, 0.1]),
                groups=groups, lgroups=groups and r.random() < 0.6, use=r.choice([None, True]) if groups else r.choice([None, False]), grp=grp,
                gmin=r.choice([1, 2, 2, 3]), gfrac=r.choice([[0, 1], [1, 2], [3, 5], [3, 4], [1, 1]]), gthr=r.choice([None, int(ONE * 0.6), int(ONE * 0.8)]),
                poolsize=r.choice([None, None, 1, 2, 3, 50]) if method == "setred" else None, graph=r.choice(["rng", "rng", "knn"] if not twins else ["rng", "knn", "knn"]), knn=r.choice([1, 2, 3, 10]),
                theta=r.choice([0.05, 0.05, 0.2, 0.4, 0.7, 0.95]), weights=r.choice(["uniform"] * 4 + ["distance", "inverse_distance"]),
                level=r.choice([0.95, 0.8, 0.5, 0.2]), minconf=r.choice([0.37, 0.53, 0.71]), torch=r.random() < 0.5, f32=r.random() < 0.5, dtype=r.choice(["int64", "int64", "int32"]),
                gkey=r.choice(["group", "groups", "key"]), viewkeys=r.choice([None, ["b", "a"]]), form=r.choice(["map", "tuple"]), plain=r.random() < 0.2)


def spec_of(scn):
    """The scenario as the specification's trace fields."""
    t = dict(method=scn["method"], L=[[i, scn["truth"][i - 1]] for i in scn["ids_l"]], U=scn["ids_u"], tests=scn["ids_t"],
             thr=-1 if scn["thr"] is None else scn["thr"], maxnew=-1 if scn["maxnew"] is None else scn["maxnew"], minnew=scn["minnew"], maxiter=scn["maxiter"],
             k=scn["k"], nlearners=scn["nlearners"], nboot=max(1, round(scn["ratio"] * len(scn["ids_l"]))), one=ONE, groups=scn["groups"], lgroups=scn["lgroups"],
             grp=scn["grp"], gmin=scn["gmin"], gnum=scn["gfrac"][0], gden=scn["gfrac"][1], poolsize=-1 if scn["poolsize"] is None else scn["poolsize"],
             pos=scn["pos"], graph=scn["graph"], knn=scn["knn"], weights=scn["weights"], zneg=scn["theta"] < 0.5, minconf=round(scn["minconf"] * 1e6))
    t["gthr"] = scn["gthr"] if scn["gthr"] is not None else (scn["thr"] if scn["thr"] is not None else 0)
    t["z2"] = round(NormalDist().inv_cdf(scn["theta"]) ** 2 * 1000)
    z = NormalDist().inv_cdf((1 + scn["level"]) / 2)
    t["ci"] = []
    if scn["method"] == "democratic":
        for n in range(1, len(scn["ids_l"]) + len(scn["ids_u"]) + 1):
            row = []
            for c in range(n + 1):
                p = c / n
                s = z * (p * (1 - p) / n) ** 0.5
                row.append([round(max(0.0, p - s) * 1e6), round(min(1.0, p + s) * 1e6)])
            t["ci"].append(row)
    return t


def build(scn):
    """(method, dataset, data to predict)."""
    register()
    from modssc.inductive.types import InductiveDataset
    tor = scn["torch"]
    if tor:
        import torch

    def X(ids, view=0):
        A = np.asarray([[*scn["pos"][i - 1], -0.0 if i in scn["twins"] else view] for i in ids], dtype=np.float32 if scn["f32"] or tor else np.float64).reshape(len(ids), 3)
        return torch.tensor(A) if tor else A
    y = np.asarray([scn["truth"][i - 1] for i in scn["ids_l"]], dtype=scn["dtype"])
    yl = torch.tensor(y) if tor else y
    base = dict(classifier_id="vf_script", classifier_backend="torch" if tor else "numpy", classifier_params={}, max_iter=scn["maxiter"])
    thr = None if scn["thr"] is None else scn["thr"] / ONE
    m = scn["method"]
    meta, views = None, None
    if m == "pseudo_label":
        from modssc.inductive.methods import pseudo_label as M
        meth = M.PseudoLabelMethod(M.PseudoLabelSpec(**base, confidence_threshold=thr, max_new_labels=scn["maxnew"], min_new_labels=scn["minnew"]))
    elif m == "self_training":
        from modssc.inductive.methods import self_training as M
        gk = "mygroups" if scn["gkey"] == "key" else None
        meth = M.SelfTrainingMethod(M.SelfTrainingSpec(
            **base, confidence_threshold=thr, max_new_labels=scn["maxnew"], min_new_labels=scn["minnew"], use_group_propagation=scn["use"], group_key=gk if scn["groups"] else None,
            group_min_count=scn["gmin"], group_min_fraction=scn["gfrac"][0] / scn["gfrac"][1], group_confidence_threshold=None if scn["gthr"] is None else scn["gthr"] / ONE))
        if scn["groups"] or scn["use"] is False:
            g = lambda ids: (torch.tensor if tor else np.asarray)([scn["grp"][i - 1] * 10 for i in ids])  # noqa: E731
            stem = scn["gkey"]
            meta = {(gk or stem + "_u"): g(scn["ids_u"])}
            if scn["lgroups"] or not scn["groups"]:
                meta[("group" if gk else stem) + "_l"] = g(scn["ids_l"])
    elif m == "setred":
        from modssc.inductive.methods import setred as M
        meth = M.SetredMethod(M.SetredSpec(**base, confidence_threshold=thr, max_new_labels=scn["maxnew"], min_new_labels=scn["minnew"], pool_size=scn["poolsize"],
                                           theta=scn["theta"], graph_type=scn["graph"], knn_k=scn["knn"], edge_weight=scn["weights"]))
    elif m == "co_training":
        from modssc.inductive.methods import co_training as M
        names = scn["viewkeys"] or ["a", "b"]
        meth = M.CoTrainingMethod(M.CoTrainingSpec(**base, view_keys=tuple(names) if scn["viewkeys"] else None, k_per_class=scn["k"], confidence_threshold=thr))
        views = {nm: (dict(X_l=X(scn["ids_l"], v), X_u=X(scn["ids_u"], v)) if scn["form"] == "map" else (X(scn["ids_l"], v), X(scn["ids_u"], v)))
                 for v, nm in enumerate(names, 1)}
        views = dict(sorted(views.items(), reverse=scn["form"] == "map"))
        test = InductiveDataset(X_l=X(scn["ids_t"], 1), y_l=None, views={nm: (dict(X=X(scn["ids_t"], v)) if scn["form"] == "map" else X(scn["ids_t"], v)) for v, nm in enumerate(names, 1)})
    elif m == "tri_training":
        from modssc.inductive.methods import tri_training as M
        meth = M.TriTrainingMethod(M.TriTrainingSpec(**base, confidence_threshold=thr, max_new_labels=scn["maxnew"], bootstrap_ratio=scn["ratio"]))
    else:
        from modssc.inductive.methods import democratic_co_learning as M
        meth = M.DemocraticCoLearningMethod(M.DemocraticCoLearningSpec(**base, confidence_level=scn["level"], min_confidence=scn["minconf"], n_learners=scn["nlearners"]))
    nou = not scn["ids_u"] and scn["plain"] and m not in ("tri_training", "co_training")
    data = InductiveDataset(X_l=X(scn["ids_l"], 1 if views else 0), y_l=yl, X_u=None if nou else X(scn["ids_u"], 1 if views else 0), views=views, meta=meta)
    if not views:
        test = X(scn["ids_t"])
    return meth, data, test


def run(scn):
    global CUR
    from modssc.inductive.types import DeviceSpec
    CUR = Run(scn)
    end = dict(kind="end", err="", pred=[], rows=[])
    try:
        meth, data, test = build(scn)
        meth.fit(data, device=DeviceSpec(device="cpu"), seed=scn["seed"])
        end["pred"] = [int(v) for v in meth.predict(test)]
        if scn["method"] in ("co_training", "tri_training"):
            last = {}
            for e in CUR.fits:
                last[e["m"]] = e
            for u in scn["ids_t"]:
                rows = []
                for m in sorted(last):
                    labs = sorted({z[1] for z in last[m]["T"]})
                    tab = table(scn, m, [tuple(z) for z in last[m]["T"]], labs)[u - 1]
                    rows.append([[c, tab[1] if c == tab[0] else tab[2][j]] for j, c in enumerate(labs)])
                end["rows"].append(rows)
    except Exception as e:  # noqa: BLE001
        import traceback
        end["err"] = f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}"
    fits = CUR.fits
    CUR = None
    return dict(spec_of(scn), ev=fits + [end])


def job(a):
    seed, method = a
    r = random.Random(f"ind:{method}:{seed}")
    scn = scenario(r, method)
    t = run(scn)
    return dict(t, id=f"{method}-{seed}", key=method + ("-torch" if scn["torch"] else ""), scn=f"PYTHONPATH=. python -m vf.ind_drv {method} {seed}")


if __name__ == "__main__":
    import json
    import sys
    print(json.dumps(job((int(sys.argv[2]), sys.argv[1])), indent=0))
