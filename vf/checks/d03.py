"""D03: cached datasets are faithful and never confused with one another."""
from __future__ import annotations

import itertools
import json
import random
import re

import numpy as np

from vf import enc
from vf.core import drop, scratch_dir
from vf.proc import pmap

STATE: dict = {"reads": 0, "fail": False, "made": None, "content": None}


class Prov:
    name = "vfid"
    required_extra = None

    def resolve(self, parsed, *, options):
        from modssc.data_loader.types import DatasetIdentity

        o = dict(options)
        i = o.pop("_identity", {})
        return DatasetIdentity(
            provider=i.get("provider", "vfid"), canonical_uri=i.get("canonical_uri", "vfid:" + parsed.reference),
            dataset_id=i.get("dataset_id", parsed.reference), version=i.get("version", "1"),
            modality=i.get("modality", "tabular"), task=i.get("task", "classification"),
            required_extra=None, resolved_kwargs=o)

    def load_canonical(self, identity, *, raw_dir):
        STATE["reads"] += 1
        if STATE["fail"]:
            raise ConnectionError("down")
        ds = STATE["content"](STATE["reads"])
        STATE["made"] = enc.dataset(ds)
        return ds

    def list(self, *, query=None):
        return None


class Prov2(Prov):
    name = "vfid2"


def install():
    from modssc.data_loader import providers

    providers.PROVIDERS["vfid"] = "vf.checks.d03:Prov"
    providers.PROVIDERS["vfid2"] = "vf.checks.d03:Prov2"


WORDS = ["", "a", "é", "日本", "two words", "line\nbreak", "tab\t", '"quoted"', "\\n", "null", "1", "nan", "[]", "\u2028x",
         " lead", "x" * 30, "{}", "🙂"]


def objarr(items):
    a = np.empty((len(items),), dtype=object)
    for i, v in enumerate(items):
        a[i] = v
    return a


def gen_array(r: random.Random, n: int, kind: str) -> np.ndarray:
    g = np.random.default_rng(r.randrange(1 << 30))
    if kind == "f32":
        x = g.normal(size=(n, r.randint(1, 4))).astype(np.float32)
    elif kind == "f64":
        x = g.normal(size=(n, r.randint(1, 3)))
        if x.size:
            x.flat[0] = r.choice([np.nan, np.inf, -0.0, 1e-310])
    elif kind == "f16":
        x = g.normal(size=(n, 2)).astype(np.float16)
    elif kind == "img":
        x = g.integers(0, 256, size=(n, 2, 3, 2)).astype(np.uint8)
    elif kind == "fortran":
        x = np.asfortranarray(g.normal(size=(n, 3)))
    elif kind == "strided":
        x = g.normal(size=(n * 2, 4))[::2, ::-1]
    elif kind == "flat":
        x = g.normal(size=n)
    elif kind == "bool":
        x = g.integers(0, 2, size=(n, 3)).astype(bool)
    elif kind == "cplx":
        x = (g.normal(size=n) + 1j * g.normal(size=n))
    elif kind in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"):
        x = g.integers(0, 100, size=n).astype({"i": "int", "u": "uint"}[kind[0]] + str(8 * {"8": 1, "1": 2, "3": 4, "6": 8}[kind[1]]))
        if kind == "i64" and n:
            x[0] = -(2 ** 53) - 1
    elif kind == "bigendian":
        x = g.integers(0, 9, size=n).astype(">i4")
    elif kind == "U":
        x = np.array([r.choice(WORDS) for _ in range(n)] or [], dtype="U30")
    elif kind == "S":
        x = np.array([b"ab", b"c"] * n, dtype="S3")[:n]
    elif kind == "str":
        x = objarr([r.choice(WORDS) for _ in range(n)])
    elif kind == "str2d":
        x = np.array([[r.choice(WORDS) for _ in range(2)] for _ in range(n)], dtype=object).reshape(n, 2)
    elif kind == "ragged":
        x = objarr([[r.randint(0, 9) for _ in range(r.randint(0, 3))] for _ in range(n)])
    elif kind == "equal_str_lists":
        k = r.randint(1, 2)
        x = objarr([[r.choice(WORDS) for _ in range(k)] for _ in range(n)])
    elif kind == "ragged_str":
        x = objarr([[r.choice(WORDS) for _ in range(r.randint(0, 3))] for _ in range(n)])
    elif kind == "arrays":
        x = objarr([g.normal(size=r.randint(1, 3)).astype(np.float32) for _ in range(n)])
    elif kind == "mixed":
        x = objarr([r.choice([None, 1, 2.5, "s", True, (1, 2)]) for _ in range(n)])
    elif kind == "dicts":
        x = objarr([{"a": r.randint(0, 3), "b": [r.choice(WORDS)]} for _ in range(n)])
    else:
        raise AssertionError(kind)
    return x


XK = ["f32", "f64", "f16", "img", "fortran", "strided", "flat", "bool", "cplx", "U", "S", "str", "str2d", "ragged", "ragged_str",
      "equal_str_lists", "arrays", "mixed", "dicts"]
YK = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "bigendian", "str", "U", "f32", "bool", "mixed", "cplx"]
META = [None, True, 3, -2.5, "x", "é", [1, 2, [3]], {"b": 1, "a": {"c": [None]}}, [], {}, 1e300, 0.1, list(range(50))]


def gen_dataset(seed: int, kx: str, ky: str):
    from modssc.data_loader.types import LoadedDataset, Split

    r = random.Random(seed)

    def sp(n):
        s = dict(X=gen_array(r, n, kx), y=gen_array(r, n, ky))
        if graph:
            e = np.random.default_rng(r.randrange(99)).integers(0, max(n, 1), size=(2, r.randint(0, 5)))
            s["edges"] = e.astype(r.choice([np.int64, np.int32]))
        if masks:
            g = np.random.default_rng(r.randrange(99))
            s["masks"] = {k: g.integers(0, 2, size=n).astype(bool) for k in r.sample(["train", "val", "test", "x y", "unlabeled"], masks)}
        return Split(**s)

    graph, masks = r.random() < 0.3, r.choice([0, 0, 1, 3])
    n = r.choice([0, 1, 2, 3, 5])
    train = sp(n)
    test = sp(r.choice([0, 1, 2])) if r.random() < 0.5 else None
    meta = {f"m{i}": r.choice(META) for i in range(r.randint(0, 3))}
    if r.random() < 0.2:
        meta["masks"] = "x"
    return LoadedDataset(train=train, test=test, meta=meta)


# identities that differ in exactly one respect, or only in how they are written
BASE = dict(ref="d", ident={}, opts={"a": 1, "b": [1, 2], "c": {"x": 1, "y": None}})
VARIANTS = [
    BASE,
    dict(BASE, ref="e"),
    dict(BASE, prov="vfid2"),
    dict(BASE, ident={"version": "2"}),
    dict(BASE, ident={"version": None}),
    dict(BASE, ident={"version": "None"}),
    dict(BASE, ident={"task": "regression"}),
    dict(BASE, ident={"modality": "text"}),
    dict(BASE, ident={"dataset_id": "d2"}),
    dict(BASE, ident={"canonical_uri": "vfid:d#x"}),
    dict(BASE, opts={"a": 2, "b": [1, 2], "c": {"x": 1, "y": None}}),
    dict(BASE, opts={"a": "1", "b": [1, 2], "c": {"x": 1, "y": None}}),
    dict(BASE, opts={"a": True, "b": [1, 2], "c": {"x": 1, "y": None}}),
    dict(BASE, opts={"a": 1, "b": [2, 1], "c": {"x": 1, "y": None}}),
    dict(BASE, opts={"a": 1, "b": [1, 2], "c": {"x": 1}}),
    dict(BASE, opts={"a": 1, "b": [1, 2], "c": {"x": 1, "y": "None"}}),
    dict(BASE, opts={"a": 1, "b": [1, 2]}),
    dict(BASE, opts={"a": 1, "b": [1, 2], "c": {"x": 1, "y": None}, "d": None}),
    dict(BASE, opts={}),
    dict(BASE, opts={"c": {"y": None, "x": 1}, "b": [1, 2], "a": 1}),       # the base, in another order
    dict(BASE, opts={"b": [1, 2], "c": {"x": 1, "y": None}, "a": 1}),       # likewise
    dict(BASE, opts={"ab": 1, "b": [1, 2], "c": {"x": 1, "y": None}}),
    dict(BASE, opts={"a": -1, "b": [1, 2], "c": {"x": 1, "y": None}}),
    dict(BASE, opts={"a": 1.5, "b": [1, 2], "c": {"x": 1, "y": None}}),
    dict(BASE, opts={"a": 1, "b": [1, [2]], "c": {"x": 1, "y": None}}),
    dict(BASE, ref="d/e"), dict(BASE, ref="d_e"), dict(BASE, ref="D"), dict(BASE, ref="d e"),
]


def meaning(v) -> list:
    i = v["ident"]
    prov = v.get("prov", "vfid")
    return [prov, i.get("canonical_uri", "vfid:" + v["ref"]), i.get("dataset_id", v["ref"]),
            "none" if i.get("version", "1") is None else "v" + i.get("version", "1"),
            i.get("task", "classification"), i.get("modality", "tabular"), enc.tok(v["opts"])]


def scribble(ds):
    """A caller that changes what it received must not change what others receive."""
    for s in (ds.train, ds.test):
        if s is None:
            continue
        for a in (s.X, s.y, s.edges, *(s.masks or {}).values()):
            try:
                if isinstance(a, np.ndarray) and a.dtype.kind in "fiub" and a.flags.writeable:
                    a[...] = 0
            except Exception:  # noqa: BLE001
                pass


def play(item) -> dict:
    from modssc.data_loader import download_dataset, load_dataset
    from modssc.data_loader.errors import DatasetNotCachedError

    install()
    w = scratch_dir("d03")
    STATE["reads"] = 0
    ev = []
    good = 0
    for j, rq in enumerate(item["hist"]):
        v = VARIANTS[rq["v"]]
        ident = dict(v["ident"])
        ident.setdefault("provider", v.get("prov", "vfid"))
        ident.setdefault("canonical_uri", "vfid:" + v["ref"])
        opts = {**v["opts"], "_identity": ident}
        STATE["fail"] = bool(rq.get("fail"))
        STATE["content"] = lambda k, j=j: gen_dataset(item["seed"] * 1000 + j, item["kx"], item["ky"])
        STATE["made"] = None
        before = STATE["reads"]
        e = dict(k="access", id=meaning(v), force=rq["force"], dl=rq["dl"], fail=bool(rq.get("fail")), out="ok", ver=0,
                 via=rq.get("via", "load"))
        try:
            kw = dict(cache_dir=w / "cache", options=opts, force=rq["force"])
            if rq.get("np"):
                kw["as_numpy"] = True
            uri = f"{v.get('prov', 'vfid')}:{v['ref']}"
            if rq.get("via") == "download" and rq["dl"]:
                ds = download_dataset(uri, **kw)
            else:
                ds = load_dataset(uri, download=rq["dl"], **kw)
            e["got"] = enc.dataset(ds)
            if item["scribble"]:
                scribble(ds)
        except DatasetNotCachedError:
            e["out"] = "notcached"
        except ConnectionError:
            e["out"] = "provider"
        except FileExistsError as x:
            e["out"], e["msg"] = "busy", str(x)[:80]
        except Exception as x:  # noqa: BLE001
            e["out"], e["msg"] = "error", f"{type(x).__name__}: {x}"[:200]
        e["n"] = STATE["reads"] - before
        if e["n"]:
            e["made"] = STATE["made"] or {"none": "-"}
        ev.append(e)
    drop(w)
    return dict(id=item["id"], key=f"{item['kx']}/{item['ky']}", defaults={"_": {"_": "-"}}, ev=ev)


# ------------------------------------------------------------------ real providers
SEEDS = {"seed": [None, 0, 1]}
OPTS = {
    "toy": dict(refs=["default"], opts=dict(n_samples=[64, 65], n_features=[4, 5], n_classes=[3, 2], seed=[0, 1],
                                            official_test=[True, False], test_size=[0.25, 0.5])),
    "hf": dict(refs=["imdb", "ag_news", "glue/sst2", "glue/cola"],
               opts=dict(text_column=["text", "content"], label_column=["label", "y"], prefer_test_split=[True, False],
                         class_filter=[None, [0, 1], [0, 2]], max_train_samples=[None, 10, 11],
                         max_test_samples=[None, 10, 11], seed=[None, 0, 1], modality=["text", "audio"],
                         task=["classification", "regression"])),
    "openml": dict(refs=["61", "62", "name=iris", "name=wine"],
                   opts=dict(version=[None, 1, 2], as_frame=[False, True], target_column=[None, "t"],
                             class_filter=[None, ["a"], ["b"]], max_samples=[None, 5, 6], seed=[None, 0, 1],
                             task=["classification", "regression"])),
    "tfds": dict(refs=["mnist", "mnist/3.0.1", "cifar10"],
                 opts=dict(as_supervised=[True, False], modality=["unknown", "vision"], task=["classification", "other"])),
    "torchvision": dict(refs=["MNIST", "CIFAR10"],
                        opts=dict(class_filter=[None, [0, 1], [1, 2]], max_train_samples=[None, 5, 6],
                                  max_test_samples=[None, 5, 6], seed=[None, 0, 1], task=["classification", "x"])),
    "torchaudio": dict(refs=["SPEECHCOMMANDS", "YESNO"],
                       opts=dict(class_filter=[None, ["yes"], ["no"]], max_train_samples=[None, 5, 6],
                                 max_test_samples=[None, 5, 6], seed=[None, 0, 1], task=["classification", "x"])),
    "pyg": dict(refs=["Planetoid/Cora", "Planetoid/PubMed", "KarateClub"],
                opts=dict(max_nodes=[None, 100, 101], class_filter=[None, [0, 1], [0, 2]], seed=[None, 0, 1])),
}


def resolve_trace(prov: str, rng: random.Random, n: int) -> dict:
    from modssc.data_loader.providers import create_provider
    from modssc.data_loader.uri import parse_uri

    spec = OPTS[prov]
    p = create_provider(prov)
    names = list(spec["opts"])
    defaults = {k: enc.tok(v[0]) for k, v in spec["opts"].items()}
    asks = [(ref, {}) for ref in spec["refs"]]
    for ref in spec["refs"]:
        for k in names:
            asks += [(ref, {k: v}) for v in spec["opts"][k]]
    for _ in range(n):
        ref = rng.choice(spec["refs"])
        ks = rng.sample(names, rng.randint(1, len(names)))
        asks.append((ref, {k: rng.choice(spec["opts"][k]) for k in ks}))
    ev = []
    for ref, o in asks:
        fp = p.resolve(parse_uri(f"{prov}:{ref}"), options=dict(o)).fingerprint(schema_version=1)
        ev.append(dict(k="resolve", prov=prov, ref=ref, opts={"_": "-", **{k: enc.tok(v) for k, v in o.items()}}, fp=fp))
    return dict(id=f"resolve-{prov}", key=prov, defaults={prov: {"_": "-", **defaults}}, ev=ev)


def catalog_trace(rng: random.Random, keys: list[str]) -> dict:
    """Curated keys: options given by the caller lie over those of the catalog."""
    from modssc.data_loader.catalog import DATASET_CATALOG
    from modssc.data_loader.services.service import _resolve_identity
    from modssc.data_loader.types import DatasetRequest

    ev, defaults = [], {}
    for key in keys:
        spec = DATASET_CATALOG[key]
        prov = spec.uri.split(":")[0]
        if prov not in OPTS:
            continue
        src = dict(spec.source_kwargs)
        fixed = {k for k in ("task", "modality", "config", "name", "data_id", "dataset_class")}
        opts = {k: v for k, v in OPTS[prov]["opts"].items() if k not in fixed}
        defaults[key] = {"_": "-", **{k: enc.tok(v[0]) for k, v in opts.items()}, **{k: enc.tok(v) for k, v in src.items()}}
        asks = [{}] + [{k: v} for k, vs in opts.items() for v in vs] + [{k: v} for k, v in src.items() if k not in fixed]
        for o in rng.sample(asks, min(len(asks), 8)) + [{}]:
            fp = _resolve_identity(DatasetRequest(id=key, options=o)).fingerprint(schema_version=1)
            ev.append(dict(k="resolve", prov=key, ref=key, opts={"_": "-", **{k: enc.tok(v) for k, v in o.items()}}, fp=fp))
    return dict(id="catalog-" + keys[0], key="catalog", defaults=defaults, ev=ev)


def run(ctx):
    install()
    import modssc.data_loader  # noqa: F401
    from modssc.data_loader.catalog import DATASET_CATALOG

    ctx.model_check("DatasetStoreModel", workers=4)
    for broken, inv in [("shared_key", "Isolation"), ("lands_elsewhere", "Isolation"), ("reads_anyway", "NoNeedlessRead")]:
        ctx.model_check("DatasetStoreModel", workers=2, expect=f"{inv} is violated", cfg_text=(
            "SPECIFICATION Spec\nCONSTANTS\n Ids = {a, b, c}\n MaxReads = 3\n Broken = \"%s\"\nINVARIANTS %s\n" % (broken, inv)))
    rng = random.Random(ctx.seed)
    cfg = f"SPECIFICATION Spec\nCONSTANTS\n Len0 = {ctx.pick(4, 5)}\n NIds = 3\n"
    out = ctx.tlc("DatasetStoreGen", cfg_text=cfg, workers=1)
    hists = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"H", "(.*)">>', out)]
    if len(hists) < 100:
        raise RuntimeError("history generation failed: " + out[-2000:])
    ctx.notes["model_histories"] = len(hists)
    items = []

    def add(hist, kx, ky, **kw):
        items.append(dict(id=f"h{len(items)}", seed=ctx.seed * 7919 + len(items), kx=kx, ky=ky, hist=hist,
                          scribble=len(items) % 2 == 0, **kw))

    # contents: every kind of features with every kind of labels
    one = [dict(v=0, force=False, dl=True), dict(v=0, force=False, dl=False), dict(v=0, force=False, dl=True, via="download"),
           dict(v=0, force=True, dl=True), dict(v=0, force=False, dl=False, np=True)]
    combos = list(itertools.product(XK, YK))
    for rep in range(ctx.pick(1, 8)):
        for kx, ky in combos:
            add(one, kx, ky)
    # histories of the model, with identities drawn so that they differ slightly
    for h in (rng.sample(hists, min(len(hists), ctx.pick(350, 6000)))):
        vs = rng.sample(range(len(VARIANTS)), 3)
        if rng.random() < 0.5:
            vs[rng.randrange(3)] = 0
        hist = [dict(v=vs[r["i"] - 1], force=r["force"], dl=r["dl"], via=rng.choice(["load", "download"]),
                     fail=rng.random() < 0.15 and r["dl"]) for r in h]
        add(hist, rng.choice(XK), rng.choice(YK))
    # every pair of identities, stored then asked for
    everyone = [dict(v=i, force=False, dl=True) for i in range(len(VARIANTS))]
    asked = [dict(v=i, force=False, dl=False) for i in range(len(VARIANTS))]
    for s in range(ctx.pick(2, 10)):
        a, b = everyone[:], asked[:]
        rng.shuffle(a), rng.shuffle(b)
        add(a + b, "f32", "i64")
    traces = pmap(play, items)
    for p in OPTS:
        for s in range(ctx.pick(1, 6)):
            traces.append(resolve_trace(p, random.Random(ctx.seed * 31 + s), ctx.pick(40, 150)))
    keys = sorted(DATASET_CATALOG)
    for i in range(0, len(keys), 3):
        traces.append(catalog_trace(rng, keys[i:i + 3]))
    for t in traces:
        for e in t["ev"]:
            if e["k"] == "access" and e["out"] == "ok":
                ctx.nontrivial.add(enc.digest(e["id"], e.get("got")))
            elif e["k"] == "resolve":
                ctx.nontrivial.add(e["fp"])
    ctx.notes["rule"] = "a case is one (identity, content) served, or one request key; distinct by content"
    ctx.judge("DatasetStoreTrace", traces, workers=6)
