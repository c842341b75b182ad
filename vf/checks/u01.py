"""U01: see spec/Classify.tla, ClassifyModel.tla and ClassifyTrace.tla."""
from vf import sup_drv

CFG = 'SPECIFICATION Spec\nCONSTANTS\n Points={1,2,4}\n Labels={2,5,7}\n MaxOps=%d\n Broken="%s"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    from vf.proc import pmap
    from modssc.supervised import available_classifiers

    ctx.model_check("ClassifyModel", cfg_text=CFG % (ctx.pick(3, 4), "none", "ClassesSorted Answers"), workers=8)
    for b, inv in (("appearance", "ClassesSorted"), ("upto", "ClassesSorted"), ("remember", "ClassesSorted"), ("column", "Answers")):
        ctx.model_check("ClassifyModel", cfg_text=CFG % (3, b, inv), expect=f"{inv} is violated")
    have = {(c["key"] if "key" in c else c["classifier_id"], b) for c in available_classifiers() for b in c["backends"]}
    jobs = [(i, ctx.seed, kb, 6) for i in range(ctx.pick(14, 300)) for kb in sup_drv.KNN if kb in have]
    jobs += [(i, ctx.seed, kb, 5) for i in range(ctx.pick(4, 80)) for kb in sup_drv.PLAIN if kb in have]
    jobs += [(i, ctx.seed, kb, 3, 120) for i in range(ctx.pick(2, 30)) for kb in sup_drv.KNN if kb in have]
    traces = pmap(sup_drv.job, jobs)
    for t in traces:
        if sum(e["kind"] == "fit" for e in t["ev"]) > 1:
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "histories that fit at least twice"
    ctx.notes["not_driven"] = sorted(f"{a}/{b}" for a, b in have - set(sup_drv.KNN + sup_drv.PLAIN))
    ctx.judge("ClassifyTrace", traces, workers=8)
