"""B04: see spec/Limits.tla, LimitsModel.tla and LimitsTrace.tla."""
import copy
import random

from vf import enc

CFG = 'SPECIFICATION Spec\nCONSTANTS\n Values={0,1,2,3}\n Limits0={0,1,2}\n MaxOps=%d\n Broken="%s"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
NUMS = [1, 2, 16, 31, 32, 33, 64, 65, 100, 128, 129, 256, 512, 513, 1000, 1024, 5000]


SCALAR = ("batch_size", "sup_batch_size", "chunk_size", "max_train_samples", "max_test_samples")


def leaves(node, path=(), ident=()):
    """The leaves of a configuration; empty sections have none."""
    if isinstance(node, dict) and not (path and path[-1] in SCALAR):
        return [x for k, v in node.items() for x in leaves(v, path + (str(k),), ident + (str(k),))]
    if isinstance(node, list) and not (path and path[-1] in SCALAR):
        return [x for i, v in enumerate(node) for x in leaves(v, path + ("#",), ident + (str(i),))]
    t, v = "other", 0
    if node is None:
        t = "null"
    elif isinstance(node, int) and not isinstance(node, bool):
        t, v = "int", node
    elif isinstance(node, (float, str)):
        try:
            if float(node) == int(float(node)):
                t, v = "like", int(float(node))
        except (ValueError, OverflowError):
            pass
    return [dict(id=".".join(ident), path=list(path), t=t, v=v, tok="" if t == "int" else enc.tok(node))]


def number(r):
    k = r.random()
    n = r.choice(NUMS)
    if k < 0.8:
        return n
    return r.choice([float(n), str(n), None, "all", True, [n], {"n": n}, 0, -1])


def maybe(d, key, r, p=0.6):
    if r.random() < p:
        d[key] = number(r)


def steps(r):
    out = []
    for _ in range(r.randint(0, 3)):
        s = {"id": r.choice(["core.to_numpy", "text.sentence_transformer", "vision.openclip"])}
        if r.random() < 0.8:
            s["params"] = {"dim": 200}
            maybe(s["params"], "batch_size", r)
        out.append(s)
    return out


def config(r):
    raw = {"run": {"name": "x", "seed": 999}, "dataset": {"id": "toy"}, "preprocess": {"plan": {"steps": steps(r), "batch_size": 9999}},
           "method": {"kind": "inductive", "id": "m", "params": {"chunk_size": 9999, "k": 7}}}
    if r.random() < 0.6:
        raw["dataset"]["options"] = {"n_samples": 5000}
        maybe(raw["dataset"]["options"], "max_train_samples", r)
        maybe(raw["dataset"]["options"], "max_test_samples", r)
    if r.random() < 0.5:
        raw["views"] = {"plan": {"views": [v for v in ({"name": "a", "preprocess": {"steps": steps(r)}}, {"name": "b", "columns": {"mode": "all"}}, {"name": "c", "preprocess": {"steps": steps(r)}}, {"preprocess": {"steps": steps(r), "x": 1}}) if r.random() < 0.6] or [{"name": "z"}]}}
    if r.random() < 0.5:
        raw["graph"] = {"enabled": r.random() < 0.5, "spec": {"k": 600, "batch_size": 9999}}
        maybe(raw["graph"]["spec"], "chunk_size", r)
    p = raw["method"]["params"]
    maybe(p, "batch_size", r), maybe(p, "sup_batch_size", r)
    if r.random() < 0.5:
        p["classifier_params"] = {"depth": 300}
        maybe(p["classifier_params"], "batch_size", r)
    if r.random() < 0.5:
        raw["method"]["model"] = {"classifier_id": "mlp", "classifier_params": {"hidden": [1000, 1000]}}
        maybe(raw["method"]["model"]["classifier_params"], "batch_size", r)
    if r.random() < 0.3:
        raw["augmentation"] = {"weak": {"steps": [{"id": "x", "params": {"batch_size": 9999}}]}}
    return raw


FIELDS = dict(pre="max_preprocess_batch_size", batch="max_method_batch_size", sup="max_method_sup_batch_size", chunk="max_graph_chunk_size", train="max_train_samples", test="max_test_samples")


def limit_spec(r):
    out = {}
    if r.random() < 0.5:
        out["profile"] = r.choice(["v100", "h100", "auto"])
    for n, f in FIELDS.items():
        if r.random() < 0.4:
            out[f] = r.choice(NUMS)
    return out


def pure(a):
    from bench.limits import apply_limits
    from bench.schema import LimitsConfig
    i, seed = a
    r = random.Random(f"lim:{i}:{seed}")
    raw, lim = config(r), limit_spec(r)
    cfg = LimitsConfig(**lim) if r.random() < 0.9 or lim else None
    ev = []
    for _ in range(3):
        if _ == 2:  # the search changes method parameters, the limits are applied again
            raw = copy.deepcopy(raw)
            maybe(raw["method"]["params"], "batch_size", r, 1)
            if "classifier_params" in raw["method"]["params"]:
                maybe(raw["method"]["params"]["classifier_params"], "batch_size", r, 1)
        e = dict(kind="apply", before=leaves(raw), after=[], sections=[k for k in ("dataset", "graph") if k in raw], changed=False, err="")
        try:
            raw, changes, _res = apply_limits(copy.deepcopy(raw), limits=cfg, strict=lim.get("profile") != "auto" and r.random() < 0.3)
            e.update(after=leaves(raw), changed=bool(changes))
        except Exception as ex:  # noqa: BLE001
            e["err"] = f"{type(ex).__name__}: {ex}"[:200]
        ev.append(e)
    return dict(id=f"pure{i}", key="apply", profile=lim.get("profile", ""), explicit={n: lim.get(f, 0) for n, f in FIELDS.items()}, ev=ev)


def real(a):
    """A whole run: the configuration it leaves behind, and what its method works with."""
    from vf import bench_drv as B
    i, seed = a
    r = random.Random(f"limrun:{i}:{seed}")
    B.install()
    B.CTL.clear()
    cfg = B.base(r.choice(["inductive", "transductive"]))
    num = lambda: r.choice(NUMS)  # noqa: E731
    p = cfg["method"]["params"] = {"a": 1, "classifier_params": {"depth": 2000}}
    for k in ("batch_size", "sup_batch_size"):
        if r.random() < 0.7:
            p[k] = num()
    if r.random() < 0.7:
        p["classifier_params"]["batch_size"] = num()
    for k in ("max_train_samples", "max_test_samples"):
        if r.random() < 0.5:
            cfg["dataset"]["options"][k] = r.choice([num(), None])
    if "graph" in cfg and r.random() < 0.6:
        cfg["graph"]["spec"]["chunk_size"] = num()
    for _ in range(r.randint(0, 2)):
        cfg["preprocess"]["plan"]["steps"].append({"id": "core.to_numpy", "enabled": False, "params": {"batch_size": num()}})
    lim = limit_spec(r)
    cfg["limits"] = lim
    with B.Home() as h:
        before = leaves({k: v for k, v in cfg.items()})
        o, log = h.run(cfg)
        got = B.read_run(h.out_dirs(cfg)[0])
    err = "" if o["code"] == 0 else str(o)
    conf = got["config"]
    conf["method"]["device"].pop("resolved_device", None)
    rep = {k: got["run"]["config"][k] for k in ("dataset", "preprocess", "graph", "method")}
    rep["method"] = {k: v for k, v in rep["method"].items() if k in ("params", "model")}
    ev = [dict(kind="apply", before=before, after=leaves(conf), sections=[k for k in ("dataset", "graph") if k in cfg],
               changed=bool(got["run"]["resolution"]["limits"]["changes"]), err=err)]
    spec = [e["spec"] for e in log if e["op"] == "fit"][0]
    ev.append(dict(kind="used", before=[], after=leaves({"method": {"params": {k: getattr(spec, k) for k in ("batch_size", "sup_batch_size", "classifier_params")}}}) + leaves(rep), sections=[], changed=False, err=err))
    return dict(id=f"run{i}", key="run", profile=lim.get("profile", ""), explicit={n: lim.get(f, 0) for n, f in FIELDS.items()}, ev=ev)


def run(ctx):
    from vf.proc import pmap
    ctx.model_check("LimitsModel", cfg_text=CFG % (ctx.pick(3, 4), "none", "RunsWithin CapsPresent NeverRaised OthersKept Twice"), workers=8)
    for b, inv in (("raise", "NeverRaised"), ("null", "CapsPresent"), ("everywhere", "OthersKept"), ("once", "RunsWithin")):
        ctx.model_check("LimitsModel", cfg_text=CFG % (3, b, inv), expect=f"{inv} is violated")
    traces = pmap(pure, [(i, ctx.seed) for i in range(ctx.pick(300, 6000))])
    traces += pmap(real, [(i, ctx.seed) for i in range(ctx.pick(60, 1500))])
    for t in traces:
        if any(e["changed"] for e in t["ev"]):
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "configurations that the limits change"
    ctx.judge("LimitsTrace", traces, workers=8)
