"""Runs the real sampler on generated plans and datasets and records what it drew."""
from __future__ import annotations

import random
from types import SimpleNamespace

import numpy as np

NOIMB = dict(kind="none", to="train", cap=0, anum=0, min=0)
RAWLAB = dict(mode="fraction", value=500, min=1, strategy="proportional", fixed=[-1])


def label_vector(r: random.Random, n: int, skew: str) -> list[int]:
    c = r.randint(1, 5)
    if skew == "balanced":
        y = [i % c for i in range(n)]
    elif skew == "skewed":
        y = [0 if r.random() < 0.7 else r.randrange(c) for _ in range(n)]
    elif skew == "single":
        y = [0] * n
    elif skew == "rare":
        y = [0] * n
        for i in range(min(n, r.randint(1, 3))):
            y[r.randrange(n)] = i + 1
    elif skew == "blocks":
        y = sorted(r.randrange(c) for _ in range(n))
    else:
        y = [r.randrange(c) for _ in range(n)]
    if skew != "blocks":
        r.shuffle(y)
    used = sorted(set(y))
    return [used.index(v) + 1 for v in y]


def raw_labels(y: list[int], kind: str):
    """The labels the sampler sees; class k of the specification is the k-th in sorted order."""
    names = {"int": lambda k: k - 1, "gap": lambda k: 10 * k + 3, "neg": lambda k: k - 3, "big": lambda k: 2_000_000 + k,
             "str": lambda k: f"c{k}", "obj": lambda k: f"k{k}", "float": lambda k: k / 2, "bool": lambda k: k > 1,
             "u8": lambda k: k * 40}
    v = [names[kind](k) for k in y]
    dt = {"int": np.int64, "gap": np.int32, "neg": np.int64, "big": np.int64, "str": None, "obj": object, "float": np.float64,
          "bool": bool, "u8": np.uint8}[kind]
    return np.array(v, dtype=dt) if v or dt is not None else np.array(v, dtype="U1")


def to_plan(p: dict):
    from modssc.sampling import SamplingPlan

    s = p["split"]
    split = dict(kind=s["kind"], val_fraction=s["val"] / 1000, stratify=s["strat"])
    if s["kind"] == "holdout":
        split["test_fraction"] = s["test"] / 1000
    else:
        split.update(k=s["k"], fold=s["fold"], shuffle=s.get("shuffle", True))
    lab = p["lab"]
    labeling = dict(mode=lab["mode"], value=lab["value"] / 1000 if lab["mode"] == "fraction" else lab["value"],
                    min_per_class=lab["min"], strategy=lab["strategy"],
                    fixed_indices=None if lab["fixed"] == [-1] else list(lab["fixed"]))
    i = p["imb"]
    imb = dict(kind=i["kind"], apply_to=i["to"], min_per_class=i["min"])
    if i["kind"] == "subsample_max_per_class":
        imb["max_per_class"] = i["cap"]
    if i["kind"] == "long_tail":
        imb["alpha"] = i["anum"] / 10
    pol = p["pol"]
    return SamplingPlan.from_dict(dict(split=split, labeling=labeling, imbalance=imb, policy=dict(
        respect_official_test=pol["respect"], use_official_graph_masks=pol["masks"], allow_override_official=pol["override"])))


def make_dataset(d: dict):
    y = raw_labels(d["y"], d["labels"])
    X = np.zeros((len(y), 1))
    tr = SimpleNamespace(X=X, y=y, edges=None, masks=None)
    if d["graph"]:
        tr.edges = np.zeros((2, 0), dtype=np.int64)
        if d["offm"]:
            m = {k: np.isin(np.arange(len(y)), d["official"][k]) for k in ("train", "val", "test")}
            tr.masks = {k: (v if d.get("maskbool", True) else v.astype(np.int64)) for k, v in m.items()}
    te = None
    if d["has"]:
        ty = raw_labels(d["ty"], d["labels"])
        te = SimpleNamespace(X=np.zeros((len(ty), 1)), y=ty, edges=None, masks=None)
    return SimpleNamespace(train=tr, test=te, meta={"dataset_fingerprint": d.get("fp", "f" * 8)})


def result(res, d: dict) -> dict:
    nc = d["nc"]
    names = {str(raw_labels([c], d["labels"])[0]): c for c in range(1, nc + 1)}

    def counts(dist):
        out = [0] * nc
        for k, v in (dist or {}).get("classes", {}).items():
            c = names.get(str(k))
            if c is None or c > nc:
                return [-1]
            out[c - 1] += int(v)
        return out

    if res.is_graph():
        m = {k: np.asarray(v) for k, v in res.masks.items()}
        q = {k: [int(i) for i in np.nonzero(m[k])[0]] for k in m}
        st = res.stats
        ok = all(v.dtype == bool and v.ndim == 1 for v in m.values())
        return dict(train=q["train"], val=q["val"], test=q["test"], lab=q["labeled"], unl=q["unlabeled"],
                    rt="nodes", rv="nodes", re="nodes", rl="nodes", ru="nodes",
                    n=min(len(v) for v in m.values()) if ok else -2,
                    sn=[int(st[k]) for k in ("train", "val", "test", "labeled", "unlabeled")],
                    slab=counts(st["labeled_class_dist"]))
    q = {k: [int(i) for i in np.asarray(v)] for k, v in res.indices.items()}
    st = res.stats
    return dict(train=q["train"], val=q["val"], test=q["test"], lab=q["train_labeled"], unl=q["train_unlabeled"],
                rt=res.refs["train"], rv=res.refs["val"], re=res.refs["test"], rl=res.refs["train_labeled"],
                ru=res.refs["train_unlabeled"], n=-1,
                sn=[int(st[k]["n"]) for k in ("train", "val", "test", "train_labeled", "train_unlabeled")],
                slab=counts(st["train_labeled"]), strain=counts(st["train"]), sval=counts(st["val"]), stest=counts(st["test"]))


def run_plan(d: dict, p: dict, seed: int):
    """(err, result or None, full SamplingResult)"""
    from modssc.sampling import sample

    try:
        plan = to_plan(p)
        ds = make_dataset(d)
        res, _ = sample(ds, plan=plan, seed=seed)
        return "", result(res, d), res
    except ValueError as e:
        return "refused", None, e
    except Exception as e:  # noqa: BLE001
        from modssc.sampling.errors import SamplingError

        if isinstance(e, SamplingError):
            return "refused", None, e
        return "crash", None, e


EMPTY = dict(train=[], val=[], test=[], lab=[], unl=[], rt="", rv="", re="", rl="", ru="", n=-1, sn=[0], slab=[0])


def sample_event(d: dict, p: dict, seed: int) -> dict:
    rawerr, raw, _ = run_plan(d, dict(p, lab=RAWLAB, imb=NOIMB), seed)
    fixed = p["lab"]["fixed"]
    if fixed != [-1] and isinstance(fixed, str):
        tr = raw["train"] if raw else []
        r = random.Random(seed)
        k = r.randint(0, len(tr))
        sel = r.sample(tr, k)
        if fixed == "dup" and sel:
            sel.append(sel[0])
        elif fixed == "out":
            others = [i for i in range(len(d["y"]) + 1) if i not in tr]
            sel.append(r.choice(others))
        p = dict(p, lab=dict(p["lab"], fixed=sel))
    nlerr, nolim, _ = run_plan(d, dict(p, imb=NOIMB), seed)
    err, res, exc = run_plan(d, p, seed)
    return dict(k="sample", plan=p, seed=seed, err=err, msg=str(exc)[:120] if err else "",
                raw=raw or EMPTY, rawok=raw is not None, nolim=nolim or EMPTY, nolimok=nolim is not None,
                res=res or EMPTY)


def folds_event(d: dict, p: dict, seed: int) -> dict | None:
    folds = []
    keep = not d["graph"] and d["has"] and p["pol"]["respect"] and not p["pol"]["override"]
    if d["graph"] and d["offm"] and p["pol"]["masks"]:
        return None
    for f in range(p["split"]["k"]):
        err, r, _ = run_plan(d, dict(p, split=dict(p["split"], fold=f), lab=RAWLAB, imb=NOIMB), seed)
        if err:
            return None
        folds.append(r["val"] if keep else r["test"])
    return dict(k="folds", folds=folds, plan=p, seed=seed)


def random_dataset(r: random.Random, nmax: int) -> dict:
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 23, 30, 40][: (16 if nmax >= 40 else 12)])
    y = label_vector(r, n, r.choice(["balanced", "skewed", "single", "rare", "blocks", "any", "any"])) if n else []
    graph = r.random() < 0.3
    has = not graph and r.random() < 0.4
    m = r.randint(0, 6) if has else 0
    d = dict(y=y, nc=max(y) if y else 1, graph=graph, has=has, ty=[], offm=False, official=dict(train=[], val=[], test=[]),
             labels="int")
    if has:
        d["ty"] = [r.randint(1, d["nc"]) for _ in range(m)]
    if graph and r.random() < 0.6 and n:
        d["offm"] = True
        parts = {"train": [], "val": [], "test": []}
        for i in range(n):
            k = r.choice(["train", "train", "val", "test", "none"])
            if k != "none":
                parts[k].append(i)
        d["official"] = parts
        d["maskbool"] = r.random() < 0.7
    kinds = ["int", "int", "gap", "neg", "big", "str", "obj", "float", "u8"] + (["bool"] if d["nc"] <= 2 else [])
    d["labels"] = r.choice(kinds)
    return d


FR = [0, 50, 100, 150, 200, 250, 333, 350, 500, 667, 750, 900, 1000]


def random_plan(r: random.Random) -> dict:
    if r.random() < 0.6:
        split = dict(kind="holdout", test=r.choice(FR), val=r.choice(FR), strat=r.random() < 0.6, k=0, fold=0)
    else:
        k = r.choice([2, 2, 3, 4, 5, 7])
        split = dict(kind="kfold", test=0, val=r.choice([0, 0, 100, 250, 500]), strat=r.random() < 0.6, k=k,
                     fold=r.randrange(k), shuffle=r.random() < 0.7)
        if r.random() < 0.04:
            split.update(r.choice([dict(k=1, fold=0), dict(fold=k), dict(fold=-1)]))
    mode = r.choice(["fraction", "count", "per_class"])
    value = {"fraction": r.choice(FR[1:]), "count": r.choice([0, 1, 2, 3, 5, 8, 13, 50]), "per_class": r.choice([0, 1, 2, 3, 5])}[mode]
    if mode == "fraction" and r.random() < 0.04:
        value = r.choice([0, 1100, -100])
    lab = dict(mode=mode, value=value, min=r.choice([0, 1, 1, 1, 2, 3]), strategy=r.choice(["proportional", "balanced"]),
               fixed=[-1])
    if r.random() < 0.12:
        lab["fixed"] = r.choice(["in", "in", "dup", "out"])
    imb = dict(NOIMB, to=r.choice(["train", "labeled"]))
    x = r.random()
    if x < 0.3:
        imb.update(kind="subsample_max_per_class", cap=r.choice([1, 1, 2, 3, 5]) if r.random() < 0.95 else 0)
    elif x < 0.6:
        imb.update(kind="long_tail", anum=r.choice([1, 3, 5, 5, 7, 9]) if r.random() < 0.95 else r.choice([0, 10]),
                   min=r.choice([0, 1, 1, 2]))
    pol = dict(respect=r.random() < 0.7, masks=r.random() < 0.7, override=r.random() < 0.3)
    return dict(split=split, lab=lab, imb=imb, pol=pol)


def trace(args) -> dict:
    i, seed, nplans, nmax = args
    r = random.Random(seed * 1_000_003 + i)
    d = random_dataset(r, nmax)
    ev = []
    for _ in range(nplans):
        p = random_plan(r)
        s = r.randrange(1 << 31)
        ev.append(sample_event(d, p, s))
        if p["split"]["kind"] == "kfold" and p["split"]["k"] > 1:
            f = folds_event(d, p, s)
            if f:
                ev.append(f)
    d = {k: v for k, v in d.items() if k != "maskbool"}
    return dict(id=f"s{i}", key=f"{d['labels']}/{'graph' if d['graph'] else 'inductive'}", ev=ev, **d)


def models(ctx):
    """The sampler as a process keeps to its partition; ways of drawing wrongly are refuted."""
    cfg = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n C = 2\n Broken = \"%s\"\nINVARIANTS %s\n"
    ctx.model_check("SamplingModel", workers=6, timeout=6000,
                    cfg_text=cfg % (ctx.pick(2, 4), "", "Partition Progress"))
    for broken in ("val_from_all", "test_trained_on", "label_all", "imbalance_anywhere"):
        ctx.model_check("SamplingModel", workers=2, timeout=600, expect="Partition is violated",
                        cfg_text=cfg % (2, broken, "Partition"))


def collect(ctx, n: int, nplans: int, nmax: int) -> list[dict]:
    from vf.proc import pmap

    import modssc.sampling  # noqa: F401

    traces = pmap(trace, [(i, ctx.seed, nplans, nmax) for i in range(n)])
    for t in traces:
        for e in t["ev"]:
            if e["k"] == "sample" and not e["err"] and t["y"]:
                ctx.nontrivial.add((t["id"], str(e["plan"]), e["seed"]))
    ctx.notes["rule"] = "a drawn split of a non-empty dataset; refused plans and empty data are not counted"
    return traces
