"""T01: see spec/Transduct.tla, TransductModel.tla and TransductTrace.tla."""
from vf import trans_drv

CFG = 'SPECIFICATION Spec\nCONSTANTS\n Nodes={1,2,3}\n Classes=2\n MaxOps=%s\n Broken="%s"\nINVARIANT NonInterference\nCHECK_DEADLOCK FALSE\n'


def run(ctx):
    from vf.proc import pmap
    from modssc.transductive.registry import available_methods, get_method_class

    ctx.model_check("TransductModel", cfg_text=CFG % (ctx.pick(5, 6), "none"), workers=8)
    for b in ("leak", "prior", "identity", "marker"):
        ctx.model_check("TransductModel", cfg_text=CFG % (5, b), expect="NonInterference is violated")
    methods = trans_drv.CLASSIC + trans_drv.GNN
    missing = set(available_methods()) - set(methods)
    for m in methods:
        get_method_class(m)
    traces = pmap(trans_drv.job, [(i, ctx.seed, m, 8) for i in range(ctx.pick(8, 200)) for m in methods])
    for t in traces:
        if len({(tuple(e["y"]), tuple(e["mask"])) for e in t["ev"]}) > 2:
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "histories fitting at least three different label assignments or labelled sets"
    ctx.notes["methods"] = len(methods)
    ctx.notes["not_driven"] = sorted(missing)
    ctx.judge("TransductTrace", traces, workers=8)
