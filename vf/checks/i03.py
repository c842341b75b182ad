"""I03: see spec/InductiveRun.tla, InductiveRunModel.tla and InductiveRunTrace.tla."""
import json
import random

from vf import ind_runs

CFG = ('SPECIFICATION Spec\nCONSTANTS\n Datas={0,1}\n Seeds={0,1}\n Ambients={0,1,2}\n MaxOps=%s\n Broken="%s"\nINVARIANT Reproducible\nINVARIANT Untouched\nCHECK_DEADLOCK FALSE\n')


def run(ctx):
    import torch
    from vf.proc import pmap

    for b in ("none", "reseed"):
        ctx.model_check("InductiveRunModel", cfg_text=CFG % (ctx.pick(4, 5), b), workers=8)
    for b, inv in (("ambient", "Reproducible"), ("residue", "Reproducible"), ("inplace", "Untouched")):
        ctx.model_check("InductiveRunModel", cfg_text=CFG % (3, b), expect=f"{inv} is violated")
    torch.set_num_threads(1)
    for m in ind_runs.CLASSIC + ind_runs.DEEP:
        __import__(f"modssc.inductive.methods.{m}")
    r = random.Random(f"i03:{ctx.seed}")
    allm = ind_runs.CLASSIC + ind_runs.DEEP
    jobs = []
    for j in range(ctx.pick(2, 40)):
        for m in allm:
            jobs.append((len(jobs), ctx.seed, [m, r.choice(allm)], 2))
    for j in range(ctx.pick(56, 900)):
        jobs.append((len(jobs), ctx.seed, [ind_runs.CLASSIC[j % len(ind_runs.CLASSIC)]] * 3, 3))
    traces = pmap(ind_runs.job, jobs)
    # the same fits in interpreters of their own
    far = [t for t in traces if not any(e["err"] for e in t["ev"])]
    r.shuffle(far)
    far = far[:ctx.pick(28, 400)]
    per = max(1, len(far) // 4)
    packs = [far[i:i + per] for i in range(0, len(far), per)]
    for pack, evs in zip(packs, pmap(ind_runs.far, [([c for t in p for c in t["cfgs"]], k) for k, p in enumerate(packs)])):
        it = iter(evs)
        for t in pack:
            t["ev"] += [next(it) for _ in t["cfgs"]]
    for t in traces:
        if len({e["cfg"] for e in t["ev"]}) > 1 and len(t["ev"]) > len({e["cfg"] for e in t["ev"]}):
            ctx.nontrivial.add(t["id"])
        t.pop("cfgs")
    ctx.notes["rule"] = "histories mixing fits of different configurations and repeating at least one of them"
    ctx.notes["methods"] = len({e["method"] for t in traces for e in t["ev"]})
    ctx.judge("InductiveRunTrace", traces, workers=8)
