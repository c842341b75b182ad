"""A02: see spec/Augment.tla, spec/AugmentModel.tla and spec/AugmentTrace.tla."""
from __future__ import annotations

import random

import numpy as np

from vf import aug_drv as D

RATES = [("tabular.feature_dropout", 1, 4), ("tabular.feature_dropout", 2, 3), ("graph.feature_mask", 1, 4), ("graph.edge_dropout", 1, 4),
         ("graph.edge_dropout", 3, 4), ("text.token_mask", 1, 4), ("tabular.swap_noise", 1, 4), ("tabular.swap_noise", 3, 4),
         ("vision.random_horizontal_flip", 1, 4), ("vision.random_horizontal_flip", 3, 4), ("text.word_dropout", 1, 4),
         ("tabular.gaussian_noise", 1, 1), ("vision.gaussian_noise", 1, 1), ("audio.add_noise", 1, 1)]


def ctx_of(r, fam):
    from modssc.data_augmentation.types import AugmentationContext

    return AugmentationContext(seed=r.randrange(1 << 40), epoch=r.randrange(5), sample_id=r.randrange(1000),
                               modality={"tab": "tabular", "token": "text"}.get(fam, fam))


def trace(args):
    from modssc.data_augmentation.api import build_pipeline
    from modssc.data_augmentation.plan import AugmentationPlan, StepConfig

    i, seed = args
    r = random.Random(seed * 7_000_003 + i)
    g = np.random.default_rng(r.randrange(1 << 31))
    fam = list(D.FAMILY)[i % len(D.FAMILY)]
    ev = []
    for _ in range(10):
        x = D.sample(fam, r, g)
        k = r.choice([1, 1, 2, 3])
        chain = []
        for _ in range(k):
            op = r.choice(D.FAMILY[fam])
            chain.append((op, *D.step(op, r)))
        c = ctx_of(r, fam)
        prev = x
        for j, (op, p, q) in enumerate(chain):
            if op == "vision.random_crop_pad" and hasattr(prev, "detach") and q["pad"] > 4:
                break
            C = D.Codes()
            e = dict(op=op, params=str(p), err="", bad=bool(q["bad"]), num=q["num"], den=q["den"], n=q["n"], len=q["len"], pad=q["pad"], padtok=q["padtok"],
                     distinct=False, out=[], osh="", odt="", orest="", j=j)
            e["fill"] = D.fill_code(op, prev, q, C)
            e["in"], e["irest"] = D.code(op, prev, q, C)
            e["fin"] = np.isfinite(D.npa(prev).reshape(-1)).tolist() if "noise" in op else []
            e["ish"], e["idt"] = D.shape_of(prev, op)
            if op == "text.token_swap":
                e["distinct"] = all(len({v for v in row if v != q["padtok"]}) == sum(v != q["padtok"] for v in row) for row in e["in"])
            try:
                out = build_pipeline(AugmentationPlan(steps=tuple(StepConfig(op_id=a, params=b) for a, b, _ in chain[:j + 1]))).apply(D.clone(x), ctx=c)
                e["out"], e["orest"] = D.code(op, out, q, C)
                e["osh"], e["odt"] = D.shape_of(out, op)
                if op == "core.ensure_float32" and not str(out.dtype).endswith("float32"):
                    e["odt"] = str(out.dtype)
            except Exception as ex:  # noqa: BLE001
                e["err"] = type(ex).__name__
                e["msg"] = str(ex)[:100]
            ev.append(e)
            if e["err"]:
                break
            prev = out
    return dict(id=f"{fam}{i}", key=fam, ev=ev)


def rates(args):
    """Share of entries an intermediate strength affects, over many contexts."""
    from modssc.data_augmentation.api import build_pipeline
    from modssc.data_augmentation.plan import AugmentationPlan, StepConfig
    from modssc.data_augmentation.types import AugmentationContext

    i, seed = args
    ev = []
    for k, (op, num, den) in enumerate(RATES):
        for torch_ in (False, True):
            if op.startswith("text.word") and torch_:
                continue
            hits = n = 0
            r = random.Random(seed * 31 + i * 1009 + k)
            pipe = build_pipeline(AugmentationPlan(steps=(StepConfig(op_id=op, params=dict(std=0.5) if "noise" in op and "swap" not in op else dict(p=num / den)),)))
            hnum, hden = num, den
            for s in range(400):
                c = AugmentationContext(seed=seed + i, epoch=r.randrange(3), sample_id=s)
                if op == "vision.random_horizontal_flip":
                    x = np.arange(20, dtype=np.float32).reshape(4, 5)
                elif op == "text.token_mask":
                    x = np.full(20, 5)
                elif op == "text.word_dropout":
                    x = " ".join(f"w{a}" for a in range(40))
                elif op == "graph.edge_dropout":
                    x = dict(x=np.ones((3, 2)), edge_index=np.zeros((2, 20), dtype=np.int64))
                elif op == "graph.feature_mask":
                    x = dict(x=np.ones((4, 5)), edge_index=np.zeros((2, 2), dtype=np.int64))
                else:
                    x = np.full((4, 5), 50.0)
                if torch_:
                    x = {a: D.to_torch(b) for a, b in x.items()} if isinstance(x, dict) else D.to_torch(x)
                y = pipe.apply(x, ctx=c)
                if op == "vision.random_horizontal_flip":
                    n, hits = n + 1, hits + int((D.npa(y) != D.npa(x)).any())
                elif op == "text.word_dropout":
                    n, hits = n + 40, hits + 40 - len(y.split())
                elif op == "graph.edge_dropout":
                    n, hits = n + 20, hits + 20 - int(y["edge_index"].shape[1])
                elif op == "graph.feature_mask":
                    n, hits = n + 20, hits + int((D.npa(y["x"]) == 0).sum())
                elif "noise" in op and "swap" not in op:
                    z = np.abs(D.npa(y) - 50.0)
                    n, hits, hnum, hden = n + 20, hits + int((z < 0.5).sum()), 6827, 10000
                else:
                    n, hits = n + 20, hits + int((D.npa(y) != D.npa(x)).sum())
            if hden == 10000:   # coarser, to stay within 32-bit arithmetic
                hnum, hden = 68, 100
                hits, n = hits // 8, n // 8
            elif n > 4000:
                hits, n = hits // 4, n // 4
            ev.append(dict(op="rate", what=f"{op} {num}/{den} {'torch' if torch_ else 'numpy'}", hits=hits, n=n, num=hnum, den=hden))
    return dict(id=f"rate{i}", key="rate", ev=ev)


def cfg(n, steps, rescue=True, pads=True, own=True):
    return (f"SPECIFICATION Spec\nCONSTANTS\n MaxLen={n}\n Steps={steps}\n Rescue={str(rescue).upper()}\n PadAware={str(pads).upper()}\n OwnWeights={str(own).upper()}\n"
            "INVARIANT PadsStay\nINVARIANT TokensKnown\nINVARIANT NeverEmptied\nINVARIANT WordsKnown\nINVARIANT EdgesOwnWeights\nPROPERTY StepsAllowed\nCHECK_DEADLOCK FALSE\n")


def run(ctx):
    from vf.proc import pmap
    import modssc.data_augmentation.api  # noqa: F401
    import torch

    torch.set_num_threads(1)
    ctx.model_check("AugmentModel", cfg_text=cfg(3, ctx.pick(3, 5)), workers=8)
    if ctx.tier == "thorough":
        ctx.model_check("AugmentModel", cfg_text=cfg(4, 3), workers=8)
    ctx.model_check("AugmentModel", cfg_text=cfg(2, 2, rescue=False), workers=2, expect="NeverEmptied is violated")
    ctx.model_check("AugmentModel", cfg_text=cfg(2, 2, pads=False), workers=2, expect="PadsStay is violated")
    ctx.model_check("AugmentModel", cfg_text=cfg(2, 2, own=False), workers=2, expect="EdgesOwnWeights is violated")
    traces = pmap(trace, [(i, ctx.seed) for i in range(ctx.pick(1200, 24000))])
    traces += pmap(rates, [(i, ctx.seed) for i in range(ctx.pick(7, 70))])
    for t in traces:
        for e in t["ev"]:
            if e["op"] != "rate" and not e["err"]:
                ctx.nontrivial.add((e["op"], e["params"], e["ish"]))
    ctx.notes["rule"] = "distinct (operation, parameters, sample shape) applied"
    ctx.judge("AugmentTrace", traces, workers=8)
