"""I01: see spec/SelfLabel.tla, SelfLabelModel.tla and SelfLabelTrace.tla."""
from vf import ind_drv

CFG = ('SPECIFICATION Spec\nCONSTANTS\n Method="%s"\n MaxNew=%s\n Thr=%s\n MinNew=%s\n MaxIter=%s\n Confs=%s\n NU=%s\n Broken="%s"\n'
       "INVARIANT LabelledStay\nINVARIANT Once\nINVARIANT TaskLabels\nINVARIANT PoolIsRest\nINVARIANT Rounds\nINVARIANT Ends\nINVARIANT Source\nCHECK_DEADLOCK FALSE\n")
METHODS = ("pseudo_label", "self_training", "setred")


def play(ctx, methods, n):
    from vf.proc import pmap
    import torch

    torch.set_num_threads(1)
    ind_drv.register()
    for m in ("pseudo_label", "self_training", "setred", "co_training", "tri_training", "democratic_co_learning"):
        __import__(f"modssc.inductive.methods.{m}")
    traces = pmap(ind_drv.job, [(i + 1_000_000 * ctx.seed, m) for m in methods for i in range(n)])
    for t in traces:
        if len(t["ev"]) > 2:
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "scenarios in which at least one round changed or retrained a training set"
    ctx.judge("SelfLabelTrace", traces, workers=8)


def run(ctx):
    for m in METHODS:
        ctx.model_check("SelfLabelModel", cfg_text=CFG % (m, 2, 2, 1, 2, "{1,2}", ctx.pick(3, 4 if m != "setred" else 3), "none"), workers=8)
        if ctx.pick(False, True):
            ctx.model_check("SelfLabelModel", cfg_text=CFG % (m, 99, 99, 0, 2, "{1}", 4, "none"), workers=8)
    for b, inv in (("reuse", "PoolIsRest"), ("late", "Rounds"), ("forget", "LabelledStay")):
        ctx.model_check("SelfLabelModel", cfg_text=CFG % ("pseudo_label", 1, 2, 1, 1, "{1,2}", 3, b), expect=f"{inv} is violated")
    play(ctx, METHODS, ctx.pick(900, 20000))
