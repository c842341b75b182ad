"""S03: see spec/SamplingPure.tla and spec/SamplingPureTrace.tla."""
from __future__ import annotations

import json
import os
import random
import subprocess
import sys

import numpy as np

from vf import enc, sampling_drv as D
from vf.core import MachineryError, PY, scratch_dir


def glob_state():
    import torch

    st = np.random.get_state(legacy=True)
    return hash((random.getstate(), st[1].tobytes(), st[2:], torch.random.get_rng_state().numpy().tobytes()))


def shake(r: random.Random) -> None:
    """Leave the process-wide generators in an arbitrary state."""
    import torch

    k = r.randrange(1 << 31)
    random.seed(k)
    np.random.seed(k)
    torch.manual_seed(k)
    np.random.rand(r.randrange(700))
    [random.random() for _ in range(r.randrange(50))]


def call(d: dict, p: dict, seed: int) -> dict:
    from modssc.sampling import SamplingPlan, sample

    plan = D.to_plan(p)
    pd = plan.as_dict()
    again = SamplingPlan.from_dict(json.loads(json.dumps(pd))).as_dict() == pd
    ds = D.make_dataset(d)
    g = glob_state()
    ev = dict(ds=d["fp"], split=repr((plan.split, plan.policy)), lab=repr(plan.labeling),
              imb=repr(plan.imbalance), to="none" if p["imb"]["kind"] == "none" else p["imb"]["to"],
              seed=str(seed), err="", fp="", all="", tr=[], va=[], te=[], la=[], again=again)
    try:
        res, _ = sample(ds, plan=plan, seed=seed)
        r = D.result(res, d)
        ev.update(fp=res.split_fingerprint, tr=r["train"], va=r["val"], te=r["test"], la=r["lab"], all=enc.digest(
            {k: enc.arr(v, 10**9) for k, v in res.indices.items()}, {k: enc.arr(v, 10**9) for k, v in res.masks.items()},
            dict(res.refs), json.loads(json.dumps(res.stats)), dict(res.plan), res.dataset_fingerprint, res.split_fingerprint))
    except Exception as e:  # noqa: BLE001
        ev.update(err=type(e).__name__, all=str(e))
    ev["glob"] = glob_state() == g
    return ev


def nudge(r: random.Random, p: dict) -> dict:
    """The same plan with one leaf moved as little as possible."""
    q = json.loads(json.dumps(p))
    part = r.choice(["split", "split", "lab", "imb", "pol"])
    k = r.choice([k for k in q[part] if k not in ("kind", "mode", "fixed")])
    v = q[part][k]
    if isinstance(v, bool):
        q[part][k] = not v
    elif k in ("k", "fold", "min", "cap") or (k == "value" and p["lab"]["mode"] != "fraction"):
        q[part][k] = v + 1
    elif k in ("test", "val", "value", "anum"):
        d = r.choice([1, 0.01, 1e-6]) * (0.01 if k == "anum" else 1)
        q[part][k] = v + d if v < 500 else v - d
    elif k == "strategy":
        q[part][k] = "balanced" if v == "proportional" else "proportional"
    elif k == "to":
        q[part][k] = "labeled" if v == "train" else "train"
    return q


def scenario(i: int, seed: int, n: int):
    """Datasets and calls; the calls share split parts, seeds and labelling parts on purpose."""
    r = random.Random(seed * 7_000_003 + i)
    dss = []
    for k in range(2):
        d = D.random_dataset(r, 30)
        while len(d["y"]) < 3:
            d = D.random_dataset(r, 30)
        d["fp"] = f"{k}" + "e" * 7
        dss.append(d)
    if r.random() < 0.5:  # the same data under another identity
        dss.append(dict(dss[0], fp="2" + "e" * 7))
    plans = [D.random_plan(r) for _ in range(3)]
    for p in plans:
        if isinstance(p["lab"]["fixed"], str):
            p["lab"]["fixed"] = [-1]
    plans += [nudge(r, r.choice(plans)) for _ in range(2)]
    if r.random() < 0.5:
        plans[0] = dict(plans[0], lab=dict(plans[0]["lab"], fixed=sorted(r.sample(range(3), r.randint(0, 2)))))
    seeds = [r.choice([0, r.randrange(1 << 31)])]
    seeds.append(r.choice([seeds[0] + 1, -seeds[0], seeds[0] + (1 << 32), r.randrange(5)]))
    calls = []
    for _ in range(n):
        a, b, c = r.choice(plans), r.choice(plans), r.choice(plans)
        imb = c["imb"] if r.random() < 0.6 else D.NOIMB
        calls.append((r.randrange(len(dss)), dict(split=a["split"], pol=a["pol"], lab=b["lab"], imb=imb), r.choice(seeds)))
    for _ in range(n // 3):  # one part moved a little
        j, p, s = r.choice(calls)
        calls.append((j, nudge(r, p), s))
    for _ in range(n // 3):  # repeats
        calls.insert(r.randrange(len(calls)), r.choice(calls))
    return dss, calls, r


def trace(args):
    i, seed, n = args
    dss, calls, r = scenario(i, seed, n)
    ev = []
    for j, p, s in calls:
        shake(r)
        ev.append(call(dss[j], p, s))
    return dict(id=f"p{i}", key="sampling", ev=ev)


def other_process(n_traces: int, seed: int, n: int, hashseed: str) -> list:
    """The same calls, in another order, in a fresh interpreter."""
    out = scratch_dir("s03") / "o.json"
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    r = subprocess.run([PY, "-W", "ignore", "-m", "vf.checks.s03", str(n_traces), str(seed), str(n), str(out)], env=env,
                       capture_output=True, text=True, timeout=1500)
    if r.returncode:
        raise MachineryError(r.stderr[-2000:])
    return json.loads(out.read_text())


def run(ctx):
    from vf.proc import pmap
    import modssc.sampling  # noqa: F401
    import torch  # noqa: F401

    ctx.model_check("SamplingPureModel", workers=4)
    base = open(ctx_spec("SamplingPureModel.cfg")).read()
    ctx.model_check("SamplingPureModel", cfg_text=base.replace('"derived"', '"shared"'), expect="SplitPartAlone is violated")
    ctx.model_check("SamplingPureModel", cfg_text=base.replace('"derived"', '"global"'), expect="is violated")
    n, k = ctx.pick(160, 3000), ctx.pick(22, 30)
    traces = pmap(trace, [(i, ctx.seed, k) for i in range(n)])
    m = ctx.pick(40, 400)
    for t, ev in zip(traces, other_process(m, ctx.seed, k, "4711")):
        t["ev"] += ev
    for t in traces:
        for e in t["ev"]:
            if not e["err"]:
                ctx.nontrivial.add((t["id"], e["fp"]))
    ctx.notes["rule"] = "distinct accepted (dataset, plan, seed) calls"
    ctx.judge("SamplingPureTrace", traces, workers=8)


def ctx_spec(name):
    from vf.core import SPEC

    return SPEC / name


if __name__ == "__main__":
    import logging

    logging.disable(logging.WARNING)
    nt, sd, kk, dest = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    res = []
    for i in range(nt):
        dss, calls, _ = scenario(i, sd, kk)
        rr = random.Random(i)
        rr.shuffle(calls)
        res.append([call(dss[j], p, s) for j, p, s in calls[: max(6, kk // 2)]])
    open(dest, "w").write(json.dumps(res))
