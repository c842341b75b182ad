"""D06: see spec/Relocate.tla, RelocateModel.tla (searching for the old tree) and RelocateTrace.tla (judge)."""
from __future__ import annotations

import pathlib
import random
import shutil

import numpy as np

from vf import enc, provlibs as L
from vf.core import drop, scratch_dir

DIRS = ["a", "b", "source", "raw", "torchaudio", "voices", "noversion", "datasets"]


def rootname(r: random.Random) -> list[str]:
    return [r.choice(DIRS) + r.choice(["", "", str(r.randrange(9))]) for _ in range(r.randint(1, 3))]


def parts(v) -> list[str]:
    return list(pathlib.PurePosixPath(v).parts) if isinstance(v, str) else [repr(type(v)), enc.digest(enc.arr(v, 10**6))]


def view(ds):
    vals = [parts(v) for s in (ds.train, ds.test) if s is not None for v in np.asarray(s.X, dtype=object).reshape(-1)]
    other = enc.digest(*[enc.arr(np.asarray(s.y), 10**6) for s in (ds.train, ds.test) if s is not None],
                       *[str(np.asarray(s.X).shape) + str(np.asarray(s.X).dtype) for s in (ds.train, ds.test) if s is not None])
    return vals, other


def trace(args):
    i, seed = args
    from modssc.data_loader import load_dataset

    r = random.Random(seed * 6_000_011 + i)
    L.install()
    d = scratch_dir("d06").resolve()
    media = r.random() < 0.8
    n = r.randint(1, 4)
    rows = [dict(id=k, y=r.choice(["yes", "no", "source"])) for k in range(n)]
    tabs = {"train": rows}
    if r.random() < 0.6:
        tabs["test"] = [dict(id=100 + k, y="yes") for k in range(r.randint(1, 2))]
    uri = r.choice(["torchaudio:Voices", "torchaudio:voices", "speechcommands"]) if media else "hf:words"
    cls = "SPEECHCOMMANDS" if uri == "speechcommands" else uri.split(":")[1]
    below = ["raw", "torchaudio", cls, "noversion", "source"] if media else ["-"]
    under = [r.choice(DIRS) for _ in range(r.choice([0, 0, 1, 2, 3]))]
    src = dict(tables=tabs, style="walker" if r.random() < 0.9 or not media else "iter", under=under, absolute=r.random() < 0.5,
               columns=("text", "label"))
    texts = {k: f"/{'/'.join(rootname(r))}/source/{k}.wav" for k in (x["id"] for t in tabs.values() for x in t)}
    opts = {} if media else dict(text_column="text", label_column="label")
    root = d.joinpath(*rootname(r))
    ev = []

    def real(base):   # the files the library would have put there
        if media and src["style"] == "walker":
            for rs in tabs.values():
                for x in rs:
                    p = base.joinpath(*below, *under, str(x["y"]), f"{x['id']}.wav")
                    p.parent.mkdir(parents=True, exist_ok=True)
                    p.write_bytes(b"x")

    def go(k, **kw):
        e = dict(k=k, root=list(root.parts), below=below, vals=[], other="", err="", exist=True)
        try:
            L.use(src)
            feature = L.feature
            if not media:
                L.feature = lambda j, kind: texts[j]
            try:
                ds = load_dataset(uri, cache_dir=root, options=opts, **kw)
            finally:
                L.feature = feature
            e["vals"], e["other"] = view(ds)
            if media and src["style"] == "walker":
                e["exist"] = all(pathlib.Path(*v).exists() for v in e["vals"])
        except Exception as x:  # noqa: BLE001
            e["err"] = f"{type(x).__name__}: {x}"[:200]
        ev.append(e)

    real(root)
    go("store", download=True)
    for _ in range(r.randint(1, 3)):
        op = r.choice(["move", "move", "copy", "stay", "again"])
        if op in ("move", "copy"):
            for _try in range(20):
                new = d.joinpath(*rootname(r))
                if not new.exists() and root not in new.parents and new not in root.parents:
                    break
            else:
                continue
            new.parent.mkdir(parents=True, exist_ok=True)
            (shutil.move if op == "move" else shutil.copytree)(str(root), str(new))
            root = new
        if op == "again":
            real(root)
            go("store", download=True, force=True)
        go("load", download=False)
        if ev[-1]["err"]:
            break
    drop(d)
    return dict(id=f"m{i}", key=uri, media=media and src["style"] == "walker", ev=ev)


def run(ctx):
    from vf.proc import pmap
    import modssc.data_loader  # noqa: F401

    cfg = ("SPECIFICATION Spec\nCONSTANTS\n Parts = {\"a\", \"id\"}\n MaxRoot = %d\n MaxTail = %d\n How = \"%s\"\nINVARIANT %s\n")
    for how, expect in [("tree", "ok"), ("last", "SameFile is violated"), ("first", "SameFile is violated")]:
        ctx.model_check("RelocateModel", cfg_text=cfg % (ctx.pick(2, 3), ctx.pick(2, 3), how, "SameFile"), workers=8, expect=expect, timeout=3000)
    traces = pmap(trace, [(i, ctx.seed) for i in range(ctx.pick(400, 6000))])
    for t in traces:
        for e in t["ev"]:
            if e["k"] == "load" and not e["err"]:
                ctx.nontrivial.add(enc.digest(repr(e["root"]), repr(e["vals"])))
    ctx.notes["rule"] = "distinct (place of the cache, served values)"
    ctx.judge("RelocateTrace", traces, workers=8)
