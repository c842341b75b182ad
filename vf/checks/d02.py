"""D02: one process at a time populates a cached dataset entry."""
# needs: fsgate
from __future__ import annotations

import random

from vf import fakeprov
from vf.checks.d01 import version_of
from vf.core import SPEC, drop, scratch_dir
from vf.proc import Scheduled, in_child, op_log, pmap

SHAPE = "std"


def attempt(cache, name: str, force: bool, fail: bool, shape: str = SHAPE) -> dict:
    from modssc.data_loader import download_dataset
    from modssc.data_loader.errors import DatasetNotCachedError

    import vf.checks.d01 as d01

    if fail:
        fakeprov.CONTROL["failhere"] = True
    r = dict(out="ok", ver=0, whole=True)
    try:
        ds = download_dataset(f"vfprov:{name}", cache_dir=cache, force=force)
        d01.NAME = name
        r["ver"] = version_of(ds, shape)
        r["whole"] = r["ver"] > 0
    except DatasetNotCachedError:
        r["out"] = "notcached"
    except ConnectionError:
        r["out"] = "provider"
    except (FileExistsError, BlockingIOError, TimeoutError, PermissionError) as e:
        r["out"], r["msg"] = "busy", f"{type(e).__name__}: {e}"[:100]
    except Exception as e:  # noqa: BLE001
        r["out"], r["msg"] = "error", f"{type(e).__name__}: {e}"[:200]
    return r


def fp_of(name: str) -> str:
    from modssc.data_loader.services import service
    from modssc.data_loader.types import DatasetRequest

    return service._resolve_identity(DatasetRequest(id=f"vfprov:{name}", options={})).fingerprint(schema_version=service.SCHEMA_VERSION)


def setup():
    w = scratch_dir("d02")
    for d in ("marks", "cache"):
        (w / d).mkdir()
    ctl = scratch_dir("d02ctl")
    fakeprov.install()
    fakeprov.CONTROL.update(dir=str(ctl), shape=SHAPE, marks=str(w / "marks"), hook=None)
    return w


def play(item) -> dict:
    w = setup()
    cache = w / "cache"
    if item["warm"]:
        for n in sorted(set(item["name"])):
            k, v = in_child(lambda n=n: attempt(cache, n, False, False))
            assert k == "ok" and v["out"] == "ok", v
    fps = [fp_of(n) for n in item["name"]]
    fns = [lambda n=n, f=f, x=x: attempt(cache, n, f, x)
           for n, f, x in zip(item["name"], item["force"], item["fail"])]
    s = Scheduled(fns, w)
    try:
        s.run(item["segs"])
        log = list(s.log)
        res = [p["result"] for p in s.procs]
        killed = [p["killed"] for p in s.procs]
    finally:
        s.close()
    # the last change each process makes to its entry
    last = {}
    entered = {}
    for i, (p, op) in enumerate(log):
        if op == "KILL":
            continue
        if op.startswith("open /marks/enter-"):
            entered[p] = i
        if fps[p] in op and ".lock" not in op and p in entered:
            last[p] = i
        if op.startswith("unlink /marks/enter-") and p in entered:
            last[p] = max(last.get(p, 0), i)
    lastop = {p: i for i, (p, _) in enumerate(log)}
    ev, seen = [], set()

    def end(p):
        r = res[p]
        if r is None:
            return dict(k="end", p=p + 1, out="hang", whole=True)
        if r[0] == "ok":
            return dict(k="end", p=p + 1, out=r[1]["out"], whole=r[1]["whole"], msg=r[1].get("msg", ""))
        return dict(k="end", p=p + 1, out="error", whole=True, msg=str(r)[:200])

    for i, (p, op) in enumerate(log):
        if p not in seen and op != "KILL":
            seen.add(p)
            ev.append(dict(k="run", p=p + 1))
        if entered.get(p) == i:
            ev.append(dict(k="enter", p=p + 1))
        if op == "KILL":
            ev.append(dict(k="die", p=p + 1))
            continue
        if last.get(p) == i and not killed[p]:
            ev.append(dict(k="leave", p=p + 1))
        if lastop[p] == i and not killed[p]:
            ev.append(end(p))
    fakeprov.CONTROL["marks"] = None
    for n in sorted(set(item["name"])):
        k, v = in_child(lambda n=n: attempt(cache, n, False, False))
        v = v if k == "ok" else dict(out="error", whole=True, ver=0, msg=str(v)[-200:])
        ev.append(dict(k="check", name=n, out=v["out"], whole=v["whole"], msg=v.get("msg", "")))
    drop(w)
    return dict(id=item["id"], key=item["tag"], name=item["name"], fail=item["fail"], force=item["force"],
                segs=[[a, -1 if b is None else b] for a, b in item["segs"]], ev=ev)


def run(ctx):
    fakeprov.install()
    import modssc.data_loader  # noqa: F401

    ctx.model_check("DatasetCache", cfg=ctx.pick("DatasetCache.cfg", "DatasetCacheDeep.cfg"), workers=6,
                    timeout=3000)
    base = (SPEC / "DatasetCache.cfg").read_text()
    ctx.model_check("DatasetCache", cfg_text=base.replace('"ok"', '"drop-any-lock"')
                    .replace("Mutex NeverBroken RegisterHolds HolderHasLock Recoverable", "Mutex")
                    .replace("{p1, p2}", "{p1, p2, p3}"), expect="Invariant Mutex is violated")

    w = setup()
    ops = op_log(lambda: attempt(w / "cache", "d", False, False), w)
    refresh = op_log(lambda: attempt(w / "cache", "d", True, False), w)
    drop(w)
    ops = [o for o in ops if "sqlite" not in o]
    n = len(ops)
    nr = len([o for o in refresh if "sqlite" not in o])
    if n < 6 or not any("/marks/enter" in o for o in ops):
        ctx.violation("OperationTouchesDisk", ops, key="ops")
        return
    first = next(i for i, o in enumerate(ops) if ".lock" in o) if any(".lock" in o for o in ops) else 0
    items = []

    def add(tag, segs, names=("a", "a", "a"), force=None, fail=None, warm=False):
        k = len(names)
        items.append(dict(id=f"{tag}-{len(items)}", tag=tag, segs=list(segs), name=list(names),
                          force=list(force or [False] * k), fail=list(fail or [False] * k), warm=warm))

    for k in range(0, n + 1):
        add("stop1", [(0, k), (1, None), (2, None), (0, None)])
        add("kill1", [(0, k), (0, "kill"), (1, None), (2, None)])
        add("failing", [(0, k), (1, None), (2, None), (0, None)], fail=[True, False, False])
        add("killmid", [(0, k), (1, 3 + first), (0, "kill"), (2, None), (1, None)])
        add("other", [(0, k), (1, None), (0, None)], names=("a", "b"))
    for k in range(0, nr + 1):
        add("refresh", [(0, k), (1, None), (2, None), (0, None)], force=[True] * 3, warm=True)
        add("killrefresh", [(0, k), (0, "kill"), (1, None), (2, None)], force=[True] * 3, warm=True)
    rng = random.Random(ctx.seed)
    pairs = [(k, j) for k in range(n + 1) for j in range(n + 1)]
    near = [(k, j) for k in range(max(0, first - 2), n + 1) for j in range(max(0, first - 3), min(n, first + 6))]
    for k, j in (ctx.pick(near, pairs) if ctx.quick else pairs):
        add("stop2", [(0, k), (1, j), (2, None), (1, None), (0, None)])
    for _ in range(ctx.pick(200, 3000)):
        segs = []
        for _i in range(rng.randint(3, 9)):
            p = rng.randrange(3)
            segs.append((p, "kill") if rng.random() < 0.1 else (p, rng.choice([1, 1, 2, 3, 5, 8, 13, n])))
        names = rng.choice([("a", "a", "a"), ("a", "a", "b"), ("a", "b", "a")])
        forced = rng.random() < 0.3
        add("random", segs, names=names, force=[forced] * 3, warm=rng.random() < 0.5 and forced,
            fail=[rng.random() < 0.2 for _ in range(3)])
    ctx.log(f"{len(items)} schedules; a download makes {n} scheduled calls")
    ctx.notes["scheduled_calls_per_download"] = n
    traces = pmap(play, items, procs=8)
    for t in traces:
        if sum(e["k"] == "run" for e in t["ev"]) > 1:
            ctx.nontrivial.add(str(t["segs"]) + str(t["name"]) + str(t["force"]) + str(t["fail"]))
    ctx.notes["rule"] = "a schedule of pre-emptions and kills of 2-3 real processes; non-trivial: more than one ran"
    ctx.judge("DatasetLockTrace", traces, workers=4)
