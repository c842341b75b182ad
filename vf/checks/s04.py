"""S04: see spec/SplitStore.tla and spec/SplitStoreTrace.tla."""
# needs: fsgate
from __future__ import annotations

import hashlib
import random

import numpy as np

from vf import enc, sampling_drv as D
from vf.core import SPEC, drop, scratch_dir
from vf.proc import crash_child, op_log, pmap


def canon(res) -> str:
    return enc.digest({k: enc.fast(v) for k, v in res.indices.items()},
                      {k: enc.fast(v) for k, v in res.masks.items()},
                      enc.tok(dict(res.refs)), enc.tok(plain(res.stats)), enc.tok(plain(res.plan)), res.created_at,
                      res.dataset_fingerprint, res.split_fingerprint, res.schema_version, res.is_graph())


def plain(x):
    if isinstance(x, dict) or hasattr(x, "items"):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def splits(seed: int, n: int, big: bool = False) -> list:
    """n different splits (inductive and graph) the sampler can produce."""
    r = random.Random(seed)
    out, seen = [], set()
    while len(out) < n:
        d = D.random_dataset(r, 24)
        if big and not out:  # index values beyond 16 bits
            m = r.choice([33000, 66000, 140000])
            d = dict(d, y=[1 + (i * 7 // 3) % 3 for i in range(m)], nc=3, graph=r.random() < 0.3, has=False, ty=[], offm=False,
                     labels="int")
        d["fp"] = f"ds{len(out)}"
        p = D.random_plan(r)
        if isinstance(p["lab"]["fixed"], str):
            p["lab"]["fixed"] = [-1]
        err, _, res = D.run_plan(d, p, r.randrange(1 << 31))
        if err:
            continue
        if canon(res) not in seen:
            seen.add(canon(res))
            out.append(res)
    return out


def tree(p) -> str:
    h = hashlib.sha256()
    for f in sorted(p.rglob("*")):
        h.update(str(f.relative_to(p)).encode())
        if f.is_file():
            h.update(f.read_bytes())
    return h.hexdigest()


def play(item) -> dict:
    from modssc.sampling import load_split, save_split

    w = scratch_dir("s04")
    out = w / "root" / "split"
    (w / "root").mkdir()
    sp = splits(item["seed"], item["nsplits"], item["id"].startswith("big"))
    ids = {canon(s): i + 1 for i, s in enumerate(sp)}
    ev = []
    for op in item["hist"]:
        if op["k"] == "load":
            e = dict(k="load", out="ok", v=0)
            try:
                e["v"] = ids.get(canon(load_split(out)), 0)
            except Exception as x:  # noqa: BLE001
                e["out"], e["msg"] = "fail", f"{type(x).__name__}: {x}"[:120]
            ev.append(e)
            continue
        s = sp[op["v"] - 1]
        existed, before = out.exists(), tree(w)
        if op["k"] == "crash":
            kind, v, _ = crash_child(lambda: save_split(s, out, overwrite=op["over"]), w / "root", op["at"], op["torn"]) \
                if not (existed and not op["over"]) else ("skip", None, None)
            if kind == "crashed":
                ev.append(dict(k="crash", v=op["v"], over=op["over"], existed=existed))
                continue
            if kind == "done":
                ev.append(dict(k="save", v=op["v"], over=op["over"], existed=existed, out="ok", same=False))
                continue
        e = dict(k="save", v=op["v"], over=op["over"], existed=existed, out="ok", same=False)
        try:
            save_split(s, out, overwrite=op["over"])
        except FileExistsError:
            e["out"] = "exists"
        except Exception as x:  # noqa: BLE001
            e["out"], e["msg"] = "error", f"{type(x).__name__}: {x}"[:120]
        e["same"] = tree(w) == before
        ev.append(e)
    drop(w)
    return dict(id=item["id"], key=item["id"].split("-")[0], ev=ev, hist=item["hist"])


def L():
    return dict(k="load")


def S(v, over=False, **kw):
    return dict(k="save", v=v, over=over, **kw)


def X(v, at, torn=False, over=True):
    return dict(k="crash", v=v, over=over, at=at, torn=torn)


def run(ctx):
    from modssc.sampling import save_split

    ctx.model_check("SplitStore")
    ctx.model_check("SplitStore", cfg_text=(SPEC / "SplitStore.cfg").read_text().replace('"withdraw"', '"meta-first"'),
                    expect="Whole is violated")
    items = []

    def add(tag, hist, seed, n=3):
        items.append(dict(id=f"{tag}-{len(items)}", hist=hist, seed=seed, nsplits=n))

    # every split the sampler produces comes back as it was saved
    for i in range(ctx.pick(60, 1500)):
        n = 6
        hist = []
        for v in range(1, n + 1):
            hist += [S(v, True), L(), S((v % n) + 1), L()]
        add("roundtrip", hist, ctx.seed * 100003 + i, n)
    for i in range(ctx.pick(6, 40)):
        add("big", [S(1), L(), S(2, True), L(), S(1, True), L()], ctx.seed * 77 + i, 2)
    # every crash point of a first save and of an overwrite
    points = {}
    for sd in range(ctx.pick(3, 12)):
        seed = ctx.seed * 1009 + sd
        sp = splits(seed, 3)
        for tag, pre in (("first", []), ("overwrite", [S(1)]), ("again", [S(1), X(2, 3)])):
            w = scratch_dir("cnt")
            (w / "root").mkdir()
            if pre:
                save_split(sp[0], w / "root" / "split")
            ops = op_log(lambda: save_split(sp[2], w / "root" / "split", overwrite=True), w / "root")
            drop(w)
            if len(ops) < 3:
                ctx.violation("SaveTouchesDisk", dict(ops=ops), key=tag)
                return
            points[f"{tag}/{sd}"] = len(ops)
            for at in range(1, len(ops) + 1):
                for torn in ((False, True) if ops[at - 1].startswith("write") else (False,)):
                    add(tag, pre + [X(3, at, torn), L(), L(), S(2), L(), S(1, True), L()], seed)
    # random histories
    r = random.Random(ctx.seed)
    for i in range(ctx.pick(150, 4000)):
        hist = []
        for _ in range(r.randint(3, 8)):
            x = r.random()
            if x < 0.35:
                hist.append(L())
            elif x < 0.7:
                hist.append(S(r.randint(1, 4), r.random() < 0.6))
            else:
                hist.append(X(r.randint(1, 4), r.randint(1, 25), r.random() < 0.3))
        add("random", hist + [L()], ctx.seed * 31 + i, 4)
    ctx.notes["crash_points"] = points
    traces = pmap(play, items)
    for t in traces:
        if any(e["k"] == "crash" for e in t["ev"]) or t["key"] in ("roundtrip", "big"):
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "a history in which a save was killed, or a save/load of freshly drawn splits"
    ctx.judge("SplitStoreTrace", traces, workers=4)
