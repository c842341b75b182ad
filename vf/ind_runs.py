"""I03 (spec/InductiveRun.tla): repeated fits of the registered inductive methods under disturbed surroundings."""
from __future__ import annotations

import copy
import json
import random
import subprocess
import sys

import numpy as np

from vf import enc

CLASSIC = ["supervised", "pseudo_label", "self_training", "setred", "co_training", "tri_training", "democratic_co_learning", "s4vm"]
DEEP = ["adamatch", "adsh", "comatch", "daso", "deep_co_training", "defixmatch", "fixmatch", "flexmatch", "free_match", "mean_teacher", "meta_pseudo_labels", "mixmatch",
        "noisy_student", "pi_model", "simclr_v2", "softmatch", "temporal_ensembling", "trinet", "uda", "vat"]
NUMPY_CLFS = [("knn", "numpy", {}), ("knn", "sklearn", {"k": 3}), ("logreg", "sklearn", {}), ("gaussian_nb", "sklearn", {}), ("random_forest", "sklearn", {"n_estimators": 5}),
              ("extra_trees", "sklearn", {"n_estimators": 5}), ("gradient_boosting", "sklearn", {"n_estimators": 3}), ("linear_svm", "sklearn", {}), ("ridge", "sklearn", {}), ("svm_rbf", "sklearn", {}), ("bernoulli_nb", "sklearn", {})]
TORCH_CLFS = [("knn", "torch", {"k": 3}), ("logreg", "torch", {"max_epochs": 3}), ("mlp", "torch", {"max_epochs": 2, "hidden_sizes": [4]})]


def nets(seed, n_in, n_classes, n=1, proj=False):
    """Networks with fixed initial weights and no randomness of their own."""
    import torch
    from modssc.inductive.deep import TorchModelBundle

    class Net(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.feat = torch.nn.Linear(n_in, 4)
            self.fc = torch.nn.Linear(4, n_classes)

        def forward(self, x, only_fc=False):
            if only_fc:
                return self.fc(x)
            f = torch.tanh(self.feat(x.reshape(x.shape[0], -1)))
            return {"logits": self.fc(f), "feat": f}

    out = []
    g = torch.Generator().manual_seed(seed)
    for _ in range(n):
        m = Net()
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn(p.shape, generator=g) * 0.7)
        ema = copy.deepcopy(m)
        out.append(TorchModelBundle(model=m, optimizer=torch.optim.SGD(m.parameters(), lr=0.05), ema_model=ema))
    return out


def head_nets(seed, n_classes):
    import torch
    from modssc.inductive.deep import TorchModelBundle

    g = torch.Generator().manual_seed(seed)
    out = []
    for _ in range(3):
        m = torch.nn.Linear(4, n_classes)
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn(p.shape, generator=g))
        out.append(TorchModelBundle(model=m, optimizer=torch.optim.SGD(m.parameters(), lr=0.05)))
    return tuple(out)


def config(r, method):
    deep = method in DEEP
    labels = [0, 1] if r.random() < 0.5 else [0, 1, 2]
    if not deep:
        labels = r.choice([[0, 1], [0, 1, 2], [-3, 5, 10], [7, 2]])
        if method == "s4vm":
            labels = labels[:2]
    tor = deep or r.random() < 0.4
    clfs = TORCH_CLFS if tor else NUMPY_CLFS
    if method == "tri_training":  # its bootstraps may hold a single class, which some base classifiers refuse
        clfs = [c for c in clfs if c[0] in ("knn", "gaussian_nb", "random_forest", "extra_trees", "mlp") or c[1] == "torch"]
    return dict(method=method, labels=labels, torch=tor, data=r.randrange(10**6), seed=r.choice([0, r.randrange(1000)]), n_l=r.randint(len(labels), 9) + (3 if not deep else 0), n_u=r.randint(1, 9), n_t=4,
                clf=r.choice(clfs), d=r.choice([2, 3]), bs=r.choice([1, 2, 4, 64]), epochs=r.choice([1, 2, 3]), net=r.randrange(1000),
                flags=[r.random() < 0.5 for _ in range(8)], thr=r.choice([0.0, 0.4, 0.6, 0.95]), iters=r.choice([1, 3]), plain=r.random() < 0.3)


def dataset(c):
    from modssc.inductive.types import InductiveDataset
    rng = np.random.default_rng(c["data"])
    y = np.asarray([c["labels"][i % len(c["labels"])] for i in range(c["n_l"])])[rng.permutation(c["n_l"])].astype(np.int64)
    centre = {lab: rng.normal(size=c["d"]) * 2 for lab in c["labels"]}
    X_l = np.stack([centre[v] for v in y]) + rng.normal(size=(c["n_l"], c["d"]))
    X_u = np.stack([centre[c["labels"][i % len(c["labels"])]] for i in range(c["n_u"])]) + rng.normal(size=(c["n_u"], c["d"]))
    X_t = rng.normal(size=(c["n_t"], c["d"])) * 2
    dt = np.float32
    X_l, X_u, X_t = X_l.astype(dt), X_u.astype(dt), X_t.astype(dt)
    w, s = (X_u + rng.normal(size=X_u.shape) * 0.1).astype(dt), (X_u + rng.normal(size=X_u.shape) * 0.5).astype(dt)
    conv = (lambda a: a)
    if c["torch"]:
        import torch
        conv = lambda a: torch.tensor(a)  # noqa: E731
    views = test = None
    if c["method"] == "co_training":
        views = {"a": dict(X_l=conv(X_l), X_u=conv(X_u)), "b": (conv(X_l[:, ::-1].copy()), conv(X_u[:, ::-1].copy()))}
        test = InductiveDataset(X_l=conv(X_t), y_l=None, views={"a": conv(X_t), "b": dict(X=conv(X_t[:, ::-1].copy()))})
    if c["method"] == "comatch":
        views = {"X_u_s_1": conv((X_u + rng.normal(size=X_u.shape) * 0.5).astype(dt))}
    meta = dict(group_u=conv(np.arange(c["n_u"]) % 2)) if c["method"] == "self_training" and c["flags"][0] else None
    if c["method"] == "flexmatch":
        meta = dict(idx_u=conv(np.arange(c["n_u"])))
    D = InductiveDataset(X_l=conv(X_l), y_l=conv(y), X_u=conv(X_u), X_u_w=conv(w) if c["torch"] else None, X_u_s=conv(s) if c["torch"] else None, views=views, meta=meta)
    return D, (test if test is not None else conv(X_t))


def method_of(c):
    from modssc.inductive.registry import get_method_class
    import inspect
    cls = get_method_class(c["method"])
    mod = sys.modules[cls.__module__]
    spec_cls = next(v for k, v in vars(mod).items() if k.endswith("Spec") and inspect.isclass(v) and v.__module__ == cls.__module__)
    fields = spec_cls.__dataclass_fields__
    kw = {}
    f = c["flags"]
    if c["method"] in CLASSIC:
        kw = dict(classifier_id=c["clf"][0], classifier_backend=c["clf"][1], classifier_params=c["clf"][2])
        for name, v in (("max_iter", c["iters"]), ("confidence_threshold", c["thr"]), ("max_new_labels", 2 if f[1] else None), ("k_candidates", 2), ("flip_rate", 0.3), ("theta", 0.3)):
            if name in fields:
                kw[name] = v
    else:
        C = len(c["labels"])
        b = nets(c["net"], c["d"], C, 3)
        for name, v in (("batch_size", c["bs"]), ("max_epochs", c["epochs"]), ("p_cutoff", max(c["thr"], 0.1)), ("use_cat", f[1]), ("hard_label", f[2]), ("detach_target", True),
                        ("queue_size", 8), ("pretrain_steps", 1), ("dist_update_period", 2), ("mixup_manifold", f[3]), ("use_ema", f[4]), ("dist_align", f[5]), ("dist_uniform", f[6]), ("score_warmup_epochs", 1), ("thresh_warmup", f[3]), ("use_quantile", f[4]),
                        ("clip_thresh", f[5]), ("per_class", f[4]), ("max_rounds", 2), ("pool_base", 4), ("init_epochs", 1), ("train_epochs", 1), ("des_passes", 2), ("fine_tune_interval", 2),
                        ("sigma0", 0.5), ("tsa_schedule", r_choice(f, ["none", "linear", "log", "exp"])), ("unsup_warm_up", 0.4 if f[7] else 0.0), ("init_teacher_from_student", f[3]), ("num_iters", 1 + f[4]), ("temperature", 0.5), ("mixup_alpha", 0.5)):
            if name in fields:
                kw[name] = v
        if "model_bundle" in fields:
            kw["model_bundle"] = b[0]
        if "model_bundle_1" in fields:
            kw["model_bundle_1"], kw["model_bundle_2"] = b[0], b[1]
        if "teacher_bundle" in fields:
            kw["teacher_bundle"], kw["student_bundle"] = b[0], b[1]
        if "pretrain_bundle" in fields:
            kw["pretrain_bundle"], kw["finetune_bundle"], kw["student_bundle"] = b[0], b[0] if f[3] else b[1], b[2] if f[4] else None
        if "shared_bundle" in fields:
            kw["shared_bundle"], kw["head_bundles"] = b[0], head_nets(c["net"], C)
    return cls(spec_cls(**kw))


def r_choice(f, xs):
    return xs[(f[0] + 2 * f[6]) % len(xs)]


def host(x):
    return x.detach().cpu().numpy() if hasattr(x, "detach") else np.asarray(x)


def parts(o):
    if o is None:
        return []
    if isinstance(o, dict):
        return [z for k in sorted(o) for z in parts(o[k])]
    if isinstance(o, (tuple, list)):
        return [z for v in o for z in parts(v)]
    if hasattr(o, "X_l"):
        return parts([o.X_l, o.y_l, o.X_u, o.X_u_w, o.X_u_s, o.views, o.meta])
    return [enc.tok(host(o).tolist()) + str(host(o).dtype)]


def once(c, reuse=None):
    from modssc.inductive.types import DeviceSpec
    import warnings
    warnings.filterwarnings("ignore")
    D, X = dataset(c)
    before = enc.digest(parts(D) + parts(X))
    m = reuse
    e = dict(kind="fit", cfg=enc.digest([json.dumps(c, sort_keys=True)]), method=c["method"], labels=sorted(c["labels"]), points=c["n_t"], err="", out="", same=True, rows=[], pred=[])
    try:
        m = m if m is not None else method_of(c)
        m.fit(D, device=DeviceSpec(device="cpu"), seed=c["seed"])
        P = host(m.predict_proba(X)).astype(np.float64)
        y = host(m.predict(X))
        e["out"] = enc.digest([enc.tok(host(m.predict_proba(X)).tolist()), enc.tok(y.tolist())])
        e["rows"] = [[int(round(v * 1e6)) if abs(v) < 1000 else -1 for v in np.nan_to_num(row, nan=-1.0, posinf=-1.0, neginf=-1.0)] for row in P.reshape(len(P), -1)]
        e["pred"] = [int(v) for v in y.reshape(-1)]
    except Exception as ex:  # noqa: BLE001
        import traceback
        e["err"] = f"{type(ex).__name__}: {ex} {traceback.format_exc()[-400:]}"
        m = None
    e["same"] = enc.digest(parts(D) + parts(X)) == before
    return e, m


def disturb(r):
    import torch
    k = r.randrange(5)
    if k == 0:
        np.random.seed(r.randrange(1000))
    elif k == 1:
        torch.manual_seed(r.randrange(1000))
    elif k == 2:
        random.seed(r.randrange(1000))
        torch.rand(r.randint(1, 5))
    elif k == 3:
        np.random.rand(r.randint(1, 5))
        torch.manual_seed(7)


def job(a):
    i, seed, methods, k = a
    r = random.Random(f"runs:{i}:{seed}")
    cfgs = [config(r, m) for m in methods]
    order = [c for c in cfgs for _ in range(k)]
    r.shuffle(order)
    ev, kept = [], {}
    for c in order:
        disturb(r)
        key = json.dumps(c, sort_keys=True)
        e, m = once(c, kept.get(key) if c["method"] in CLASSIC and r.random() < 0.4 else None)
        if m is not None:
            kept[key] = m
        ev.append(e)
    return dict(id=f"r{i}", key="+".join(sorted(set(methods))) if len(set(methods)) < 3 else "mixed", cfgs=cfgs, ev=ev)


def elsewhere(cfgs, hashseed):
    """The same fits in a fresh interpreter."""
    import os
    p = subprocess.run([sys.executable, "-W", "ignore", "-m", "vf.ind_runs"], input=json.dumps(cfgs), capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=str(hashseed)))
    if p.returncode:
        raise RuntimeError(p.stderr[-1000:])
    return json.loads(p.stdout)


def far(a):
    return elsewhere(*a)


if __name__ == "__main__":
    import torch
    torch.set_num_threads(1)
    print(json.dumps([once(c)[0] for c in json.load(sys.stdin)]))
