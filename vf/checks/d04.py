"""D04: housekeeping of the dataset cache."""
from __future__ import annotations

import os
import random
import re
import shutil
import json

from vf import fakeprov
from vf.core import drop, scratch_dir
from vf.proc import pmap

URI = [1, 1, 1, 2]
NAMES = ["a", "a", "a", "b"]


def opts(v: int) -> dict:
    return {"variant": v, "_identity": {"canonical_uri": f"vfprov:{NAMES[v - 1]}"}}


def play(item) -> dict:
    from modssc.data_loader import cache, download_dataset, load_dataset
    from modssc.data_loader.errors import DatasetNotCachedError
    from modssc.data_loader.services import service
    from modssc.data_loader.types import DatasetRequest

    w = scratch_dir("d04")
    (w / "ctl").mkdir()
    root = w / "cache"
    fakeprov.install()
    fakeprov.CONTROL.update(dir=str(w / "ctl"), shape=item["shape"], marks=None, hook=None)
    layout = cache.CacheLayout(root=root.resolve())
    cache.ensure_layout(layout)
    fps = {}
    for v in range(1, 5):
        i = service._resolve_identity(DatasetRequest(id=f"vfprov:{NAMES[v - 1]}", options=opts(v)))
        fps[v] = i.fingerprint(schema_version=service.SCHEMA_VERSION)
    back = {f: v for v, f in fps.items()}
    ev = []
    for o in item["hist"]:
        e = dict(o, err="", ret=[])
        try:
            v = o["v"]
            if o["op"] == "download":
                download_dataset(f"vfprov:{NAMES[v - 1]}", cache_dir=root, force=o["force"], options=opts(v))
            elif o["op"] == "gc":
                e["ret"] = [back.get(f, 99) for f in cache.gc_keep_latest(layout)]
            elif o["op"] == "purge":
                e["ret"] = [back.get(f, 99) for f in cache.purge_dataset(layout, "vfprov:" + {1: "a", 2: "b"}[o["u"]])]
            elif o["op"] == "purgeone":
                cache.purge_fingerprint(layout, fps[v])
            elif o["op"] == "rebuild":
                cache.rebuild_index(layout)
            elif o["op"] == "loseindex":
                layout.index_path.unlink(missing_ok=True)
            elif o["op"] == "losedir":
                shutil.rmtree(layout.processed_dir(fps[v]))
            elif o["op"] == "loseman":
                layout.manifest_path(fps[v]).unlink()
        except Exception as x:  # noqa: BLE001
            e["err"] = f"{type(x).__name__}: {x}"[:200]
        cache.ensure_layout(layout)
        rows = cache.index_list(layout)
        e["list"] = [back.get(r["fingerprint"], 99) for r in rows]
        e["luri"] = [{"vfprov:a": 1, "vfprov:b": 2}.get(r["canonical_uri"], 0) for r in rows]
        e["lsize"] = [int(r["size_bytes"]) for r in rows]
        e["dsize"] = [sum(os.path.getsize(os.path.join(d, f)) for d, _, fs in os.walk(r["processed_dir"]) for f in fs)
                      for r in rows]
        e["dirs"] = [back.get(p.name, 99) for p in layout.processed_root.iterdir()]
        e["mans"] = [back.get(p.stem, 99) for p in layout.manifests_root.iterdir()]
        e["usable"] = []
        for v in range(1, 5):
            try:
                load_dataset(f"vfprov:{NAMES[v - 1]}", cache_dir=root, download=False, options=opts(v))
                e["usable"].append(v)
            except DatasetNotCachedError:
                pass
        ev.append(e)
    drop(w)
    return dict(id=item["id"], key="-".join(o["op"] for o in item["hist"]), uri=URI, ev=ev)


def run(ctx):
    fakeprov.install()
    import modssc.data_loader  # noqa: F401
    import modssc.data_loader.services.service  # noqa: F401

    base = ("SPECIFICATION Spec\nCONSTANTS\n MaxOps = %d\n Emit = FALSE\n Broken = \"%s\"\nVIEW View\n"
            "INVARIANTS NewestSurvivesGc RebuildDescribesDisk\nPROPERTY TouchesOnlyIts\n")
    ctx.model_check("DatasetHousekeepingModel", workers=6, cfg_text=base % (ctx.pick(6, 9), ""), timeout=3000)
    for broken, prop in [("keeps_oldest", "TouchesOnlyIts"), ("one_for_all", "TouchesOnlyIts"),
                         ("purges_prefix", "TouchesOnlyIts"), ("index_only", "TouchesOnlyIts"),
                         ("lists_dirs", "RebuildDescribesDisk"), ("rewrites_index", "TouchesOnlyIts")]:
        ctx.model_check("DatasetHousekeepingModel", workers=2, expect=f"{prop} is violated",
                        cfg_text=base % (5, broken))
    rng = random.Random(ctx.seed)
    L = ctx.pick(3, 4)
    out = ctx.tlc("DatasetHousekeepingModel", workers=1, timeout=3000, cfg_text=(
        f"SPECIFICATION Spec\nCONSTANTS\n MaxOps = {L}\n Emit = TRUE\n Broken = \"\"\nINVARIANTS NothingElseLost\n"))
    hists = [json.loads(json.loads('"' + m + '"')) for m in re.findall(r'<<"H", "(.*)">>', out)]
    if len(hists) < 100:
        raise RuntimeError("history generation failed: " + out[-2000:])
    ctx.notes["model_histories"] = len(hists)
    items = []

    def add(h):
        items.append(dict(id=f"h{len(items)}", hist=h, shape=rng.choice(["std", "graph", "text", "both"])))

    D = lambda v, f=False: dict(op="download", v=v, u=0, force=f)  # noqa: E731
    O = lambda op, v=0, u=0: dict(op=op, v=v, u=u, force=False)  # noqa: E731
    for h in rng.sample(hists, min(len(hists), ctx.pick(500, 6000))):
        # the histories of the model are short: run them on a filled cache as well
        pre = [D(v) for v in rng.sample([1, 2, 3, 4], rng.randint(2, 4))]
        add(pre + h + [O("rebuild"), O("gc")])
        if not ctx.quick:
            add(h + [O("gc"), O("rebuild")])
    names = ["download"] * 6 + ["gc", "purge", "purgeone", "rebuild", "loseindex", "losedir", "loseman"]
    for _ in range(ctx.pick(150, 2000)):
        h, on = [], set()
        for _i in range(rng.randint(6, 14)):
            op = rng.choice(names)
            if op in ("losedir", "loseman"):
                continue
            v = rng.randint(1, 4)
            h.append(dict(op=op, v=v if op in ("download", "purgeone") else 0, u=rng.randint(1, 2) if op == "purge" else 0,
                          force=op == "download" and rng.random() < 0.4))
        add(h)
    traces = pmap(play, items)
    for t in traces:
        if any(e["op"] in ("gc", "purge") and e["ret"] for e in t["ev"]):
            ctx.nontrivial.add(json.dumps([[e["op"], e["v"], e["u"], e["force"]] for e in t["ev"]]))
    ctx.notes["rule"] = "a history of cache operations; non-trivial when retention or purging removed something"
    ctx.judge("DatasetHousekeepingTrace", traces, workers=6)
