"""Supervised classifiers in every backend (spec/Classify.tla)."""
from __future__ import annotations

import random
from fractions import Fraction

import numpy as np

from vf import enc
from vf.trans_drv import disturb

KNN = [("knn", "numpy"), ("knn", "torch"), ("knn", "sklearn")]
PLAIN = [("svm_rbf", "sklearn"), ("logreg", "sklearn"), ("logreg", "torch"), ("mlp", "torch"), ("image_cnn", "torch"), ("audio_cnn", "torch"), ("text_cnn", "torch"), ("linear_svm", "sklearn"), ("ridge", "sklearn"),
         ("random_forest", "sklearn"), ("extra_trees", "sklearn"), ("gradient_boosting", "sklearn"), ("gaussian_nb", "sklearn"), ("multinomial_nb", "sklearn"), ("bernoulli_nb", "sklearn"), ("lstm_scratch", "torch"), ("audio_cnn_scratch", "torch"), ("graphsage_inductive", "torch"), ("image_pretrained", "torch")]
ONE_CLASS = {"knn", "mlp", "gaussian_nb", "multinomial_nb", "bernoulli_nb", "random_forest", "extra_trees", "image_cnn", "text_cnn", "lstm_scratch", "audio_cnn"}
INTS = [[0, 1, 2], [-3, 0, 7], [10, 11, 30], [2, 5, 9], [-9, -5, -1], [100000, 200000, 3000000]]
OTHER = [["a", "bb", "ccc"], ["no", "yes", "zeta"], [0.5, 1.5, 4.0], [-1.0, 0.0, 1.0]]


def params(key, backend, r):
    kw = {}
    if key == "knn":
        kw = dict(k=r.choice([1, 2, 3, 5, 20]), metric=r.choice(["euclidean", "euclidean", "cosine"]), weights=r.choice(["uniform", "uniform", "distance"]))
        if backend != "sklearn":
            kw["batch_size"] = r.choice([1, 2, 1024])
    elif backend == "torch":
        kw = dict(max_epochs=r.choice([1, 3]), lr=r.choice([0.05, 0.01]))
        if key != "graphsage_inductive":
            kw["batch_size"] = r.choice([3, 64])
        kw.update({"mlp": dict(hidden_sizes=r.choice([(3,), (4, 3), ()])), "image_cnn": dict(conv_channels=(2,), fc_dim=3), "audio_cnn": dict(conv_channels=(2,), fc_dim=3, kernel_size=3),
                   "text_cnn": dict(kernel_sizes=(2, 3), num_filters=2), "lstm_scratch": dict(vocab_size=12, embedding_dim=3, hidden_dim=4, num_layers=r.choice([1, 2])),
                   "audio_cnn_scratch": dict(base_channels=2, num_blocks=1, n_mels=4), "graphsage_inductive": dict(hidden_channels=4), "image_pretrained": dict(model_name="mobilenet_v3_small", weights=None, max_epochs=1, freeze_backbone=r.random() < 0.5)}.get(key, {}))
        if key == "image_cnn" and r.random() < 0.3:
            kw["input_shape"] = (2, 4, 4)
    elif key in ("random_forest", "extra_trees", "gradient_boosting"):
        kw = dict(n_estimators=3)
    elif key == "svm_rbf":
        kw = dict(probability=r.random() < 0.4)
    elif key == "multinomial_nb" or key == "bernoulli_nb":
        kw = dict(fit_prior=r.random() < 0.5)
    return kw


def features(key, n, g, r, form):
    if key == "image_cnn":
        return g.integers(0, 5, size=(n, 2, 4, 4)).astype(np.float32) if form != 2 else g.integers(0, 5, size=(n, 4, 4)).astype(np.float32)
    if key == "image_pretrained":
        return g.integers(0, 5, size=(n, 3, 32, 32)).astype(np.float32) if form != 2 else g.integers(0, 5, size=(n, 32, 32)).astype(np.float32)
    if key == "audio_cnn":
        return g.integers(0, 5, size=(n, 2, 8) if form == 1 else (n, 9 + form)).astype(np.float32)
    if key == "text_cnn":
        return g.integers(0, 5, size=(n, 6, 3) if form else (n, 7)).astype(np.float32)
    if key == "lstm_scratch":
        return g.integers(0, 12, size=(n, 4 + form)).astype(np.int64)
    if key == "audio_cnn_scratch":
        return g.integers(0, 5, size=(n, 4, 8)).astype(np.float32)
    shape = (n, 2 + form) if form < 2 else (n, 2, 2)
    return g.integers(1 if key == "knn" else 0, 5, size=shape)


def dress(key, backend, X, r):
    import torch
    if backend == "torch":
        if key == "graphsage_inductive":
            n = len(X)
            e = np.array([[i, (i + 1) % n] for i in range(n)]).T
            return dict(x=torch.as_tensor(X.reshape(n, -1)).float(), edge_index=torch.as_tensor(np.concatenate([e, e[::-1]], axis=1)))
        if key == "knn":
            kinds = [torch.float32] * 4 + [torch.float64, torch.int64, torch.int32] + ([torch.uint8] if X.max() < 256 else [])
            return torch.as_tensor(X.reshape(len(X), -1)).to(r.choice(kinds))
        return torch.as_tensor(X) if X.dtype.kind == "i" and key == "lstm_scratch" else torch.as_tensor(X).float()
    k = r.randrange(4)
    if k == 0 and X.ndim == 2:
        return X.tolist()
    return X.astype([np.float32, np.float64, np.int64, np.float64][k])


def dress_y(backend, vals, r):
    import torch
    if backend == "torch":
        return torch.tensor(vals)
    k = r.randrange(3)
    return list(vals) if k == 0 else np.array(vals) if k == 1 else (np.array(vals, dtype=object) if isinstance(vals[0], str) else np.array(vals))


def rows(P):
    if P is None:
        return []
    P = P.detach().cpu().numpy() if hasattr(P, "detach") else np.asarray(P)
    return np.rint(np.clip(P.astype(np.float64), -1e5, 1e5) * 10000).astype(np.int64).tolist()


def plain(a):
    a = a.detach().cpu().numpy() if hasattr(a, "detach") else np.asarray(a)
    return a.reshape(-1).tolist()


def stamp(*xs):
    def f(x):
        if isinstance(x, dict):
            return [f(v) for v in x.values()]
        return plain(x) if not isinstance(x, list) else str(x)
    return enc.digest([str(f(x)) for x in xs])


def distances(X, Q, metric):
    X, Q = X.reshape(len(X), -1), Q.reshape(len(Q), -1)
    out = []
    for q in Q.astype(int).tolist():
        if metric == "euclidean":
            out.append([sum((a - b) ** 2 for a, b in zip(q, x)) for x in X.astype(int).tolist()])
        else:
            c = [Fraction(sum(a * b for a, b in zip(q, x)) ** 2, sum(b * b for b in x)) for x in X.astype(int).tolist()]
            order = sorted(set(c), reverse=True)
            out.append([order.index(v) for v in c])
    return out


def job(a):
    import torch
    import warnings
    from modssc.supervised import create_classifier
    from modssc.supervised.types import ClassifierRuntime
    warnings.simplefilter("ignore")
    torch.set_num_threads(1)
    i, seed, (key, backend), steps, *big = a
    r = random.Random(f"sup:{key}:{backend}:{i}:{seed}:{big}")
    kw = params(key, backend, r)
    if big:  # many more training rows than neighbours (partial sorts of few rows are complete)
        kw.update(metric="euclidean", weights="uniform", k=r.choice([1, 2, 3, 5, 12, 40]))
    ev, obj = [], None
    pool = []
    for s in range(steps):
        sd = r.choice([0, 0, 7])
        if obj is None or r.random() < 0.3:
            if r.random() < 0.5:
                obj = create_classifier(key, backend=backend, params=dict(kw, seed=sd))
            else:
                obj = create_classifier(key, backend=backend, params=dict(kw), runtime=ClassifierRuntime(seed=sd))
            objseed = sd
        if pool and r.random() < 0.5:  # rows seen before, perhaps under other label values
            X, code, C, form = r.choice(pool)
        else:
            C = r.choice([2, 2, 3] + ([1] if key in ONE_CLASS else []))
            n = r.randint(max(6, 2 * C), 10) if not big else r.randint(big[0], 2 * big[0])
            form = r.randrange(3)
            X = features(key, n, np.random.default_rng(r.randrange(10**6)), r, form)
            if big:
                X = np.random.default_rng(r.randrange(10**6)).integers(1, 40, size=X.shape)
            if key == "knn" and kw["metric"] == "euclidean" and r.random() < 0.3:  # away from the origin
                X = X + r.choice([200, 5000, 20000])
            code = [c for c in range(C)] * 2
            code = code + [r.randrange(C) for _ in range(n - len(code))]
            r.shuffle(code)
            pool.append((X, code, C, form))
        fams = INTS if backend == "torch" else INTS + OTHER
        if key == "graphsage_inductive":
            fams = [f for f in INTS if max(f) < 50]
        fam = r.choice(fams)
        use = sorted(r.sample(range(3), C))
        vals = [fam[use[c]] for c in code]
        fx, fy = dress(key, backend, X, r), dress_y(backend, vals, r)
        place = lambda vs: [next((k for k, u in enumerate(fam) if type(u) is type(v) and u == v or not isinstance(u, str) and not isinstance(v, str) and u == v), -1) for v in vs]  # noqa: E731
        before = stamp(fx, fy)
        disturb(r)
        e = dict(kind="fit", labels=[use[c] for c in code], classes=[], n=0, ns=0, nc=0, same=True, err="", pred=[], proba=[], scores=[], key="", out="", dist=[], wt="", k=0, margin=5)
        try:
            res = obj.fit(fx, fy)
            e.update(classes=place(plain(obj.classes_)), ns=int(res.n_samples), nc=int(res.n_classes), same=stamp(fx, fy) == before)
        except Exception as ex:  # noqa: BLE001
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        ev.append(e)
        if e["err"]:
            break
        for _ in range(r.randint(1, 2)):
            m = r.randint(1, 4) if key != "graphsage_inductive" else len(X)
            q = [r.randrange(len(X)) for _ in range(m)] if key != "graphsage_inductive" else list(range(len(X)))
            Q = X[q].copy()
            if key not in ("lstm_scratch", "graphsage_inductive") and r.random() < 0.7:
                Q = np.maximum(Q + np.random.default_rng(r.randrange(10**6)).integers(-1, 2, size=Q.shape), 1).astype(X.dtype)
            fq = dress(key, backend, Q, r)
            before = stamp(fq)
            disturb(r)
            e = dict(kind="ask", labels=[], classes=[], n=m, ns=0, nc=0, same=True, err="", pred=[], proba=[], scores=[], out="", dist=[], wt="", k=0, margin=5,
                     key=enc.digest([str(sorted(kw.items())), str(objseed), str(X.tolist()), str(code), str(Q.tolist())]))
            try:
                pred = place(plain(obj.predict(fq)))
                proba = None
                if obj.supports_proba:
                    proba = obj.predict_proba(fq)
                else:
                    try:
                        obj.predict_proba(fq)
                        e["err"] = "predict_proba answered although unsupported"
                    except Exception as ex:  # noqa: BLE001
                        if type(ex).__name__ != "NotSupportedError":
                            raise
                sc = obj.predict_scores(fq)
                e.update(pred=pred, proba=rows(proba), scores=rows(sc), same=stamp(fq) == before)
                e["out"] = enc.digest([str([use.index(p) if p in use else -1 for p in pred]), str(rows(proba)), str(rows(sc))])
                if key == "svm_rbf" and (C > 2 or kw["probability"]):
                    e["margin"] = -1
                if key == "knn":
                    if kw["weights"] == "uniform" or kw["metric"] == "euclidean":
                        e.update(dist=distances(X, Q, kw["metric"]), wt=kw["weights"], k=kw["k"])
            except Exception as ex:  # noqa: BLE001
                e["err"] = f"{type(ex).__name__}: {ex}"[:200]
            ev.append(e)
    return dict(id=f"{key}-{backend}{'big' if big else ''}{i}", key=f"{key}-{backend}", ev=ev)
