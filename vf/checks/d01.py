"""D01: cached dataset entries survive crashes whole or not at all."""
# needs: fsgate
from __future__ import annotations

import itertools
import json
import random
import re

import numpy as np

from vf import fakeprov
from vf.core import drop, scratch_dir
from vf.proc import crash_child, op_log, pmap

NAME = "d"


def same(a, b) -> bool:
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def version_of(ds, shape: str) -> int:
    """The provider read the whole dataset comes from, or 0 when it is not one read."""
    try:
        k = int(ds.meta["ver"])
        ref = fakeprov.content(NAME, k, shape)
        for part in ("train", "test"):
            a, b = getattr(ds, part), getattr(ref, part)
            if (a is None) != (b is None):
                return 0
            if a is None:
                continue
            if not (same(a.X, b.X) and same(a.y, b.y)):
                return 0
            if (a.edges is None) != (b.edges is None) or (a.edges is not None and not same(a.edges, b.edges)):
                return 0
            if sorted(a.masks or {}) != sorted(b.masks or {}):
                return 0
            if any(not same(a.masks[m], b.masks[m]) for m in (b.masks or {})):
                return 0
        return k
    except Exception:  # noqa: BLE001
        return 0


def access(cache, req: dict, shape: str) -> dict:
    from modssc.data_loader import download_dataset, load_dataset
    from modssc.data_loader.errors import DatasetNotCachedError

    before = fakeprov.reads(NAME)
    fakeprov.set_fail(NAME, bool(req["fail"]))
    ev = dict(k="access", force=req["force"], dl=req["dl"], fail=req["fail"], out="ok", ver=0, whole=True, n=0)
    try:
        if req.get("via") == "download" and req["dl"]:
            ds = download_dataset(f"vfprov:{NAME}", cache_dir=cache, force=req["force"])
        else:
            ds = load_dataset(f"vfprov:{NAME}", cache_dir=cache, download=req["dl"], force=req["force"])
        ev["ver"] = version_of(ds, shape)
        ev["whole"] = ev["ver"] > 0
    except DatasetNotCachedError:
        ev["out"] = "notcached"
    except ConnectionError:
        ev["out"] = "provider"
    except FileExistsError as e:
        ev["out"] = "busy"
        ev["msg"] = str(e)[:80]
    except Exception as e:  # noqa: BLE001
        ev["out"] = "error"
        ev["msg"] = f"{type(e).__name__}: {e}"[:200]
    finally:
        fakeprov.set_fail(NAME, False)
    ev["n"] = fakeprov.reads(NAME) - before
    return ev


def play(item) -> dict:
    """item: shape, history of requests; crash requests carry (at, torn)."""
    w = scratch_dir("d01")
    (w / "ctl").mkdir()
    cache = w / "cache"
    fakeprov.install()
    fakeprov.CONTROL.update(dir=str(w / "ctl"), shape=item["shape"], marks=None, hook=None)
    ev = []
    for req in item["hist"]:
        if req.get("crash"):
            before = fakeprov.reads(NAME)
            kind, v, _ = crash_child(lambda: access(cache, req, item["shape"]), cache, req["at"], req["torn"])
            if kind == "crashed":
                ev.append(dict(k="crash", force=req["force"], dl=req["dl"], fail=False,
                               readdone=fakeprov.reads(NAME) > before))
            else:
                ev.append(v)
        else:
            ev.append(access(cache, req, item["shape"]))
    drop(w)
    return dict(id=item["id"], key=item["id"], shape=item["shape"],
                hist=[{k: v for k, v in r.items()} for r in item["hist"]], ev=ev)


def R(force=False, dl=True, fail=False, **kw):
    return dict(force=force, dl=dl, fail=fail, **kw)


def run(ctx):
    fakeprov.install()
    import modssc.data_loader  # noqa: F401

    # the model
    ctx.model_check("DatasetCache", cfg=ctx.pick("DatasetCache.cfg", "DatasetCacheDeep.cfg"), workers=6)
    base = (open(str(__import__("vf.core").core.SPEC / "DatasetCache.cfg")).read())
    ctx.model_check("DatasetCache", cfg_text=base.replace('"ok"', '"stale-manifest"'),
                    expect="Invariant RegisterHolds is violated")

    # how many file-system calls the operations make (to place the crashes)
    def count(shape, hist, last):
        w = scratch_dir("cnt")
        (w / "ctl").mkdir()
        fakeprov.CONTROL.update(dir=str(w / "ctl"), shape=shape, marks=None, hook=None)
        for r in hist:
            access(w / "cache", r, shape)
        ops = op_log(lambda: access(w / "cache", last, shape), w / "cache")
        drop(w)
        return ops

    items = []

    def add(tag, shape, hist):
        items.append(dict(id=f"{tag}-{len(items)}", shape=shape, hist=hist))

    after = [[R(dl=False), R(), R(dl=False)], [R(), R(dl=False)], [R(force=True), R(dl=False)]]
    shapes = ctx.pick(["std", "graph"], ["std", "graph", "text", "both"])
    covered = {}
    for shape in shapes:
        for tag, pre, last in (("cold", [], R()), ("refresh", [R()], R(force=True)),
                               ("redownload", [R(), R(force=True)], R(force=True, via="download"))):
            ops = count(shape, pre, last)
            if len(ops) < 6:
                ctx.violation("OperationTouchesDisk", dict(ops=ops), key=tag)
                return
            covered[f"{shape}/{tag}"] = len(ops)
            if ctx.quick and tag == "redownload" and shape != "std":
                continue
            for at in range(1, len(ops) + 1):
                sql = "sqlite" in ops[at - 1]
                for torn in ((False, True) if ops[at - 1].startswith("write") and not sql else (False,)):
                    for j, post in enumerate(after):
                        if ctx.quick and sql and j != at % 3:
                            continue
                        add(f"{tag}-{at}{'t' if torn else ''}-{j}", shape,
                            pre + [dict(last, crash=True, at=at, torn=torn)] + post)
    # histories enumerated from the register model; crash points drawn for them
    rng = random.Random(ctx.seed)
    cfg = f"SPECIFICATION Spec\nCONSTANTS\n Len0 = {ctx.pick(3, 4)}\n MaxCrash = 2\n"
    out = ctx.tlc("DatasetRegisterGen", cfg_text=cfg, workers=1)
    hists = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"H", "(.*)">>', out)]
    ctx.notes["model_histories"] = len(hists)
    if len(hists) < 100:
        raise RuntimeError("history generation failed: " + out[-2000:])
    pick = hists if len(hists) <= ctx.pick(400, 6000) else rng.sample(hists, ctx.pick(400, 6000))
    for h in pick:
        hist = []
        for r in h:
            r = dict(r)
            if r.pop("crash"):
                r.update(crash=True, at=rng.randint(1, 45), torn=rng.random() < 0.4)
            if rng.random() < 0.3 and r["dl"]:
                r["via"] = "download"
            hist.append(r)
        add("model", rng.choice(["std", "graph", "text", "both"]), hist + [R(dl=False), R(), R(dl=False)])
    ctx.log(f"{len(items)} histories, crash points per operation: {covered}")
    ctx.notes["crash_points"] = covered
    traces = pmap(play, items)
    for t in traces:
        if any(e["k"] == "crash" for e in t["ev"]):
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "a history is non-trivial when a real process was killed in it"
    ctx.judge("DatasetRegisterTrace", traces, workers=4)
