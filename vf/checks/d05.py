"""D05: see spec/Providers.tla (relations), ProvidersModel.tla and ProvidersTrace.tla (judge)."""
from __future__ import annotations

import random

import numpy as np

from vf import enc, provlibs as L
from vf.core import drop, scratch_dir

KEYS = {"torchvision": ["mnist", "cifar10", "cifar100", "svhn", "stl10"], "torchaudio": ["speechcommands"],
        "hf": ["ag_news", "imdb"], "pyg": ["cora"], "openml": ["iris"], "tfds": []}


def labels(r: random.Random, strings: bool) -> list:
    return [f"c{i}" for i in range(3)] if strings else r.choice([[0, 1, 2], [3, 7, 11]])


def request(r: random.Random, labs: list, single: bool) -> tuple[dict, dict]:
    """Options for the provider and what they mean."""
    opts: dict = {}
    o = dict(hasf=False, filter=[], seeded=False)
    if r.random() < 0.5:
        f = r.sample(labs, r.randint(1, 3)) + ([r.choice([99]) if not isinstance(labs[0], str) else "zz"] if r.random() < 0.2 else [])
        o.update(hasf=True, filter=[str(x) for x in f])
        opts["class_filter"] = f[0] if len(f) == 1 and r.random() < 0.5 else r.choice([f, tuple(f)])
    if r.random() < 0.6:
        opts["seed"] = r.randrange(3)
        o["seeded"] = True
    m = []
    for name in (["max_samples"] if single else ["max_train_samples", "max_test_samples"]):
        if r.random() < 0.6:
            opts[name] = r.choice([0, 1, 2, 3, 5, 8, 40])
            m.append(opts[name])
        else:
            m.append(-1)
    return opts, dict(o=o, maxtr=m[0], maxte=m[-1])


def table(r: random.Random, labs: list, base: int, n=None) -> list[dict]:
    n = r.choice([0, 1, 2, 5, 8, 12]) if n is None else n
    rows = [dict(id=base + i, y=r.choice(labs)) for i in range(n)]
    r.shuffle(rows)
    return rows


def spec_rows(rows) -> list[dict]:
    return [dict(id=x["id"], lab=str(x["y"])) for x in rows]


def out_rows(split, kind) -> list[dict]:
    return [dict(id=L.ident(x, kind), lab=str(y)) for x, y in zip(list(split.X), list(np.asarray(split.y)), strict=True)]


def load(uri, opts, d):
    from modssc.data_loader import load_dataset

    return load_dataset(uri, cache_dir=d, options=opts)


def tables_case(r: random.Random, prov: str, i: int) -> list[dict]:
    strings = prov in ("torchaudio", "hf") and r.random() < 0.5 or prov == "openml" and r.random() < 0.5
    labs = labels(r, strings)
    single = prov == "openml"
    tabs = {"train": table(r, labs, 0)}
    if prov == "torchvision" or not single and r.random() < 0.7:
        tabs["test"] = table(r, labs, 1000)
    if prov == "hf" and r.random() < 0.6:
        tabs["validation"] = table(r, labs, 2000)
    kind = dict(torchvision="img", torchaudio="wav", hf="txt", tfds="img", openml="row")[prov]
    src = dict(tables=tabs, style="", columns=("text", "label"))
    if prov == "torchvision":
        src.update(style=r.choice(["attrs", "iter"]), bysplit=r.random() < 0.5)
    if prov == "torchaudio":
        src.update(style=r.choice(["walker", "iter"]), absolute=r.random() < 0.5)
        if src["style"] == "walker":
            kind = "path"
            if not strings:
                labs = [str(x) for x in labs]
                src["tables"] = tabs = {k: [dict(x, y=str(x["y"])) for x in v] for k, v in tabs.items()}
            tabs = {k: v for k, v in tabs.items()}
            if not tabs["train"]:   # without paths the library is iterated instead
                tabs["train"] = table(r, labs, 0, 3)
            if "test" in tabs and not tabs["test"]:
                tabs["test"] = table(r, labs, 1000, 2)
            src["tables"] = tabs
    opts, want = request(r, labs, single)
    if prov == "tfds":
        opts, want = {}, dict(o=dict(hasf=False, filter=[], seeded=False), maxtr=-1, maxte=-1)
    prefer = True
    uri = f"{prov}:" + dict(torchvision="Shapes", torchaudio="Voices", hf="words", tfds="shapes/1.0", openml="name=shapes")[prov]
    if KEYS[prov] and r.random() < 0.3:
        uri = r.choice(KEYS[prov])
    if prov == "hf":
        if r.random() < 0.5:
            prefer = r.random() < 0.5
            opts["prefer_test_split"] = prefer
        if r.random() < 0.5:
            src["columns"] = ("body", "stars")
            opts.update(text_column="body", label_column="stars")
        elif uri in KEYS["hf"]:
            opts.update(text_column="text", label_column="label")
        if uri == "hf:words" and r.random() < 0.5:
            uri = "hf:words/en"
    if prov == "openml":
        opts["as_frame"] = r.random() < 0.5
    key = enc.digest(uri, repr(src), repr(sorted(opts.items(), key=str)))
    evs = []
    d = scratch_dir("d05")
    for rep in range(3):
        L.use(src)
        np.random.seed(r.randrange(1000))
        ev = dict(k="get", key=key, prov=prov, tables={k: spec_rows(v) for k, v in tabs.items()}, prefer=prefer, **want,
                  tr=[], te=[], hast=False, err="", uri=uri, opts=repr(opts))
        try:
            ds = load(uri, opts, d / ("x" if rep < 2 else "y"))   # the third is provisioned afresh
            ev.update(tr=out_rows(ds.train, kind), hast=ds.test is not None, te=[] if ds.test is None else out_rows(ds.test, kind))
        except Exception as e:  # noqa: BLE001
            ev["err"] = f"{type(e).__name__}: {e}"[:200]
        evs.append(ev)
    drop(d)
    return evs


def graph_case(r: random.Random, i: int) -> list[dict]:
    n = r.choice([1, 2, 4, 7, 10])
    labs = [0, 1, 2]
    masks = r.choice([[], ["train"], ["train", "val", "test"]])
    nodes = [dict(id=v, y=r.choice(labs), m=",".join(m for m in masks if r.random() < 0.5)) for v in range(n)]
    nlab = n if r.random() < 0.7 else r.randint(1, n)
    edges = [[r.randrange(n), r.randrange(n)] for _ in range(r.choice([0, 1, n, 3 * n]))]
    src = dict(nodes=nodes, nlab=nlab, edges=edges, masks=masks, rows2=r.random() < 0.3)
    opts: dict = {}
    o = dict(hasf=False, filter=[], seeded=False)
    if r.random() < 0.5:
        f = r.sample(labs, r.randint(1, 2))
        opts["class_filter"] = f
        o.update(hasf=True, filter=[str(x) for x in f])
    if r.random() < 0.5:
        opts["seed"] = r.randrange(3)
        o["seeded"] = True
    mx = -1
    if r.random() < 0.6:
        mx = opts["max_nodes"] = r.choice([1, 2, 3, 5, 20])
    uri = r.choice(["pyg:Fake/Small", "pyg:Fake", "cora"])
    key = enc.digest(uri, repr(src), repr(sorted(opts.items(), key=str)))
    want = [dict(id=v["id"], lab=str(v["y"]) if v["id"] < nlab else "-1", m=v["m"]) for v in nodes]
    d = scratch_dir("d05g")
    evs = []
    for rep in range(3):
        L.use(src)
        np.random.seed(r.randrange(1000))
        ev = dict(k="graph", key=key, nodes=want, edges=edges, o=o, max=mx, out=[], oedges=[], err="", uri=uri, opts=repr(opts))
        try:
            s = load(uri, opts, d / ("x" if rep < 2 else "y")).train
            X = np.asarray(s.X)
            mk = s.masks or {}
            out = []
            for j in range(X.shape[0]):
                v = int(X[j, 0]) if X[j, 1] == 1.0 else -1
                out.append(dict(id=v, lab=str(int(s.y[j])), m=",".join(m for m in masks if m in mk and bool(mk[m][j]))))
            assert len(s.y) == len(out) and all(len(m) == len(out) for m in mk.values()), "parts of different sizes"
            e = np.zeros((2, 0), dtype=np.int64) if s.edges is None else np.asarray(s.edges)
            ev.update(out=out, oedges=[[int(a), int(b)] for a, b in e.T])
        except Exception as e:  # noqa: BLE001
            ev["err"] = f"{type(e).__name__}: {e}"[:200]
        evs.append(ev)
    drop(d)
    return evs


def toy_case(r: random.Random) -> list[dict]:
    n, c, f = r.choice([1, 2, 7, 64, 101]), r.randint(1, 5), r.randint(1, 5)
    size = r.choice([0, 125, 250, 300, 500, 1000])
    test = r.random() < 0.8
    opts = dict(n_samples=n, n_features=f, n_classes=c, seed=r.randrange(4), test_size=size / 1000, official_test=test)
    d = scratch_dir("d05t")
    evs = []
    for rep in range(2):
        np.random.seed(r.randrange(1000))
        ev = dict(k="toy", key=repr(opts), n=n, classes=c, features=f, te=n * size if test else 0, err="", ntr=0, nte=0, nf=0, labs=[], dig="")
        try:
            ds = load("toy:default", opts, d / str(rep))
            parts = [s for s in (ds.train, ds.test) if s is not None]
            ev.update(ntr=len(ds.train.y), nte=0 if ds.test is None else len(ds.test.y),
                      nf=int({s.X.shape[1] for s in parts}.pop()), labs=sorted({int(v) for s in parts for v in s.y}),
                      dig=enc.digest(*[enc.arr(v, 10**6) for s in parts for v in (s.X, s.y)]))
        except Exception as e:  # noqa: BLE001
            ev["err"] = f"{type(e).__name__}: {e}"[:200]
        evs.append(ev)
    drop(d)
    return evs


def trace(args):
    i, seed = args
    r = random.Random(seed * 5_000_011 + i)
    L.install()
    ev = []
    for _ in range(4):
        prov = r.choice(["torchvision", "torchaudio", "hf", "openml", "tfds", "pyg", "pyg", "toy"])
        ev += graph_case(r, i) if prov == "pyg" else toy_case(r) if prov == "toy" else tables_case(r, prov, i)
    return dict(id=f"p{i}", key="providers", ev=ev)


def run(ctx):
    from vf.proc import pmap
    import modssc.data_loader  # noqa: F401
    import torch

    torch.set_num_threads(1)
    cfg = "SPECIFICATION Spec\nCONSTANTS\n N = %d\n Broken = \"%s\"\nINVARIANT DeliversWhatWasAsked\n"
    ctx.model_check("ProvidersModel", cfg_text=cfg % (ctx.pick(2, 3), ""), workers=8, timeout=3000)
    for b in ("limit_first", "no_filter", "labels_only", "repeats", "one_end", "old_numbers"):
        ctx.model_check("ProvidersModel", cfg_text=cfg % (2, b), workers=2, expect="DeliversWhatWasAsked is violated")
    traces = pmap(trace, [(i, ctx.seed) for i in range(ctx.pick(250, 5000))])
    for t in traces:
        for e in t["ev"]:
            if not e["err"]:
                ctx.nontrivial.add(e["key"])
    ctx.notes["rule"] = "distinct (source contents, request) that delivered a dataset"
    ctx.judge("ProvidersTrace", traces, workers=8)
