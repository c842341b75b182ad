"""A01: see spec/AugmentPure.tla and spec/AugmentPureTrace.tla."""
from __future__ import annotations

import json
import os
import random
import subprocess
import sys

import numpy as np

from vf import aug_drv as D
from vf import enc

RICH = {"tabular.gaussian_noise", "tabular.swap_noise", "vision.gaussian_noise", "audio.add_noise"}
MARKS = "abcdefg"


def marked():
    """Operations that write their name (and a draw) at the end of a text: the order of the steps is seen."""
    if getattr(marked, "on", False):
        return
    marked.on = True
    from dataclasses import dataclass

    from modssc.data_augmentation.registry import register_op
    from modssc.data_augmentation.types import AugmentationOp

    @register_op("vf.mark")
    @dataclass
    class Mark(AugmentationOp):
        op_id: str = "vf.mark"
        modality: str = "any"
        name: str = "a"

        def apply(self, x, *, rng, ctx):
            return f"{x}|{self.name}{ctx.seed}.{ctx.epoch}.{ctx.sample_id}.{int(rng.integers(1 << 40))}"


def globals_state():
    import torch

    return enc.digest(repr(random.getstate()), [str(v) for v in np.random.get_state()[1].tolist()], np.random.get_state()[2], torch.get_rng_state().numpy().tobytes().hex())


def shake(r):
    import torch

    np.random.seed(r.randrange(1 << 31)), random.seed(r.randrange(1 << 31)), torch.manual_seed(r.randrange(1 << 31))
    for _ in range(r.randrange(3)):
        np.random.rand(), random.random(), torch.rand(1)


def mk_plan(fam, r):
    chain = []
    if fam == "mark":
        return [("vf.mark", dict(name=r.choice(MARKS))) for _ in range(r.randint(0, 5))]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        op = r.choice(D.FAMILY[fam])
        chain.append((op, D.step(op, r, bad=0)[0]))
    return chain


def plan_obj(chain, mod):
    from modssc.data_augmentation.plan import AugmentationPlan, StepConfig

    return AugmentationPlan(steps=tuple(StepConfig(op_id=a, params=dict(b)) for a, b in chain), modality=mod)


CALM = RICH | {"core.identity", "core.ensure_float32", "vision.random_crop_pad", "vision.random_horizontal_flip", "audio.time_shift"}


def app(chain, c, smp, out, big):
    rich = big and any(a in RICH and (b.get("std", b.get("p")) == 1.0 or b.get("std", 0) > 0) for a, b in chain) and all(a in CALM for a, _ in chain)
    order = steps = ["-"]
    if chain and chain[0][0] == "vf.mark":
        rich = True
        steps = [b["name"] for _, b in chain]
        order = [w[0] for w in str(out).split("|")[1:]] or ["?"]
    return dict(plan=enc.digest(json.dumps(chain)), ctx=c, sample=smp, val=D.whole(out), order=order, steps=steps, rich=bool(rich))


def nbig(x):
    k, d = D.parts(x)
    return k == "arr" and hasattr(x, "dtype") and int(np.prod(x.shape)) >= 4 and "float" in str(x.dtype) and bool(np.isfinite(D.npa(x)).all())


def trace(args):
    from modssc.data_augmentation.api import build_pipeline, build_strategy
    from modssc.data_augmentation.types import AugmentationContext

    marked()
    i, seed, n = args
    r = random.Random(seed * 6_000_007 + i)
    g = np.random.default_rng(r.randrange(1 << 31))
    fam = (list(D.FAMILY) + ["mark"])[i % (len(D.FAMILY) + 1)]
    mod = {"tab": "tabular", "token": "text", "mark": "text"}.get(fam, fam)
    plans = [mk_plan(fam, r) for _ in range(3)]
    samples = ["", "x", "yz"] if fam == "mark" else [D.sample(fam, r, g) for _ in range(3)]
    ids = [D.whole(x) for x in samples]
    seeds = [r.choice([0, r.randrange(1 << r.choice([3, 31, 45]))]), r.randrange(1 << r.choice([3, 31, 45]))]
    pipes = {}
    ev = []
    batch = None
    if fam in ("tab", "vision", "audio", "token"):
        x = samples[0]
        m = r.randint(1, 4)
        rows = [D.sample(fam, r, g) for _ in range(1)]
        while len(rows) < m:
            y = D.clone(rows[0])
            y = y + len(rows)
            rows.append(y)
        import torch

        batch = torch.stack(rows) if hasattr(rows[0], "detach") else np.stack(rows)
    for _ in range(n):
        e = dict(apps=[], kept=True, same=True, err="")
        s, ep, sid = r.choice(seeds), r.choice([0, 1, 2, 10]), r.choice([0, 1, 2, 20, 12])
        c = AugmentationContext(seed=s, epoch=ep, sample_id=sid, modality=r.choice([mod, None]))
        key = f"{s}/{ep}/{sid}"
        k = r.randrange(3)
        x = samples[k]
        shake(r)
        g0 = globals_state()
        kind = r.random()
        try:
            if kind < 0.6:
                w = r.randrange(3)
                if w not in pipes or r.random() < 0.5:
                    pipes[w] = build_pipeline(plan_obj(plans[w], mod))
                out = pipes[w].apply(x, ctx=c) if r.random() < 0.7 else pipes[w](x, ctx=c)
                e["apps"].append(app(plans[w], key, ids[k], out, nbig(x)))
                if hasattr(out, "shape") and r.random() < 0.5 and out is not x and isinstance(out, np.ndarray) and not np.shares_memory(out, x):
                    out[...] = 0    # the caller may scribble on what it was given
            elif kind < 0.85 or batch is None:
                w, v = r.randrange(3), r.randrange(3)
                st = build_strategy(weak=plan_obj(plans[w], mod), strong=plan_obj(plans[v], mod))
                ow, os_ = st.apply(x, ctx=c)
                e["apps"] = [app(plans[w], key, ids[k], ow, nbig(x)), app(plans[v], key, ids[k], os_, nbig(x))]
            else:
                from bench.orchestrators.augmentation import run as bench_run

                w, v = r.randrange(3), r.randrange(3)
                sids = None if r.random() < 0.3 else [r.choice([0, 1, 2, 20, 12]) for _ in range(len(batch))]
                before = D.whole(batch)
                strong = r.choice([1, 2])
                sp = [dict(steps=[dict(id=a, params=b) for a, b in plans[z]]) for z in (w, v)]
                ow, os_, o1 = bench_run(batch, weak_plan=sp[0], strong_plan=sp[1], seed=s, mode="fixed", modality=mod,
                                        sample_ids=None if sids is None else np.asarray(sids), strong_views=strong)
                for j in range(len(batch)):
                    kj = (sids or list(range(len(batch))))[j]
                    smp = D.whole(batch[j])
                    for pl, o, sd in ((w, ow, s), (v, os_, s)) + (((v, o1, s + 1),) if strong == 2 else ()):
                        e["apps"].append(app(plans[pl], f"{sd}/0/{kj}", smp, o[j], nbig(batch[j])))
                    # the same row alone
                    pj = build_pipeline(plan_obj(plans[v], mod))
                    al = pj.apply(D.clone(batch[j]), ctx=AugmentationContext(seed=s, epoch=0, sample_id=kj))
                    e["apps"].append(app(plans[v], f"{s}/0/{kj}", smp, al, nbig(batch[j])))
                e["same"] = D.whole(batch) == before and len(ow) == len(batch)
        except Exception as ex:  # noqa: BLE001
            e["err"] = f"{type(ex).__name__}: {ex}"[:160]
        e["kept"] = globals_state() == g0
        e["same"] = e["same"] and [D.whole(y) for y in samples] == ids
        ev.append(e)
    return dict(id=f"p{i}", key=fam, ev=ev)


def remote(n, seed, tail):
    """The same applications in another interpreter, in another order and with other hash seeds."""
    from modssc.data_augmentation.api import build_pipeline
    from modssc.data_augmentation.types import AugmentationContext

    out = {}
    items = []
    for i in range(n):
        r = random.Random(seed * 77 + i)
        g = np.random.default_rng(seed * 77 + i)
        fam = list(D.FAMILY)[i % len(D.FAMILY)]
        items.append((i, fam, mk_plan(fam, r), D.sample(fam, r, g), r.randrange(1 << 40), r.randrange(3), r.randrange(30)))
    for i, fam, pl, x, s, ep, sid in (reversed(items) if tail else items):
        y = build_pipeline(plan_obj(pl, None)).apply(x, ctx=AugmentationContext(seed=s, epoch=ep, sample_id=sid))
        out[str(i)] = [enc.digest(json.dumps(pl)), f"{s}/{ep}/{sid}", D.whole(x), D.whole(y)]
    return out


def run(ctx):
    from vf.proc import pmap
    import modssc.data_augmentation.api  # noqa: F401
    import bench.orchestrators.augmentation  # noqa: F401
    import torch

    torch.set_num_threads(1)
    base = "SPECIFICATION Spec\nCONSTANTS\n Mode=\"%s\"\n MaxCalls=%d\nINVARIANT Pure\nINVARIANT Fresh\nPROPERTY GlobalUntouched\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("AugmentPure", cfg_text=base % ("derived", ctx.pick(3, 4)), workers=8)
    for mode, inv in (("stream", "Pure"), ("joint", "Pure"), ("global", "Pure")):
        ctx.model_check("AugmentPure", cfg_text=base % (mode, 3), workers=2, expect=f"{inv} is violated" if mode != "global" else "is violated")
    n = ctx.pick(120, 3000)
    traces = pmap(trace, [(i, ctx.seed, 14) for i in range(ctx.pick(560, 9000))])
    here = remote(n, ctx.seed, False)
    env = dict(os.environ, PYTHONHASHSEED="4242")
    p = subprocess.run([sys.executable, "-c", f"import json; from vf.checks import a01; import torch; torch.set_num_threads(1); a01.marked(); print('RR'+json.dumps(a01.remote({n},{ctx.seed},True)))"],
                       capture_output=True, text=True, env=env, cwd="/verif" if os.path.isdir("/verif") else None, timeout=600)
    line = [z for z in p.stdout.splitlines() if z.startswith("RR")]
    if not line:
        raise RuntimeError(p.stderr[-800:])
    there = json.loads(line[0][2:])
    for k in here:
        mk = [dict(plan=v[0], ctx=v[1], sample=v[2], val=v[3], order=["-"], steps=["-"], rich=False) for v in (here[k], there[k])]
        traces.append(dict(id=f"r{k}", key="process", ev=[dict(apps=[a], kept=True, same=True, err="") for a in mk]))
    for t in traces:
        for e in t["ev"]:
            for a in e["apps"]:
                ctx.nontrivial.add((a["plan"], a["ctx"], a["sample"]))
    ctx.notes["rule"] = "distinct (plan, context, sample) augmented"
    ctx.judge("AugmentPureTrace", traces, workers=8)
