"""S02: see spec/Sampling.tla."""
from __future__ import annotations

from vf import sampling_drv


def run(ctx):
    sampling_drv.models(ctx)
    traces = sampling_drv.collect(ctx, ctx.pick(400, 6000), ctx.pick(12, 20), ctx.pick(40, 40))
    ctx.judge("SamplingTrace", traces, cfg="SamplingTraceS02.cfg", workers=8, timeout=3000)
