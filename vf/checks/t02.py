"""T02: see spec/Diffuse.tla, DiffuseModel.tla and DiffuseTrace.tla."""
from vf import diff_drv

CFG = 'SPECIFICATION Spec\nCONSTANTS\n N=3\n C=2\n Steps=%d\n Broken="%s"\nINVARIANTS LabelsTravelAlongEdges ClampedStay Bounded\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    from vf.proc import pmap

    ctx.model_check("DiffuseModel", cfg_text=CFG % (ctx.pick(3, 6), "none"), workers=8)
    for b, inv in (("reversed", "LabelsTravelAlongEdges"), ("unmasked", "LabelsTravelAlongEdges"), ("unclamped", "ClampedStay"), ("unscaled", "Bounded")):
        ctx.model_check("DiffuseModel", cfg_text=CFG % (2, b), expect=f"{inv} is violated")
    traces = pmap(diff_drv.step_job, [(i, ctx.seed, ctx.pick(6, 10)) for i in range(ctx.pick(220, 4000))])
    traces += pmap(diff_drv.solve_job, [(i, ctx.seed) for i in range(ctx.pick(180, 3000))])
    traces = [t for t in traces if t and t["ev"]]
    for t in traces:
        if len(t["ev"]) > 1:
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "diffusions followed over at least two limits or solved by at least two entry points"
    ctx.judge("DiffuseTrace", traces, workers=8, timeout=3000)
