"""I02: see spec/SelfLabel.tla, SelfLabelModel.tla and SelfLabelTrace.tla."""
from vf.checks.i01 import CFG, play

METHODS = ("co_training", "tri_training", "democratic")


def run(ctx):
    ctx.model_check("SelfLabelModel", cfg_text=CFG % ("co_training", 99, 99, 1, 2, "{1,2}", 2, "none"), workers=8)
    ctx.model_check("SelfLabelModel", cfg_text=CFG % ("tri_training", ctx.pick(99, 1), 99, 1, ctx.pick(1, 2), "{1}", ctx.pick(3, 2), "none"), workers=8)
    ctx.model_check("SelfLabelModel", cfg_text=CFG % ("democratic", 99, 99, 1, ctx.pick(1, 2), "{1}", ctx.pick(3, 3), "none"), workers=8)
    ctx.model_check("SelfLabelModel", cfg_text=CFG % ("tri_training", 99, 99, 1, 2, "{1}", 2, "columns"), expect="TaskLabels is violated", workers=4)
    ctx.model_check("SelfLabelModel", cfg_text=CFG % ("co_training", 99, 99, 1, 2, "{1,2}", 2, "reuse"), expect="PoolIsRest is violated", workers=4)
    play(ctx, METHODS, ctx.pick(500, 15000))
