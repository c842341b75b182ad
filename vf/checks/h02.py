"""H02: see spec/HpoSearch.tla, HpoSearchModel.tla and HpoSearchTrace.tla."""
import copy
import math
import random

from vf import enc
from vf import bench_drv as B
from vf.checks.b04 import FIELDS, NUMS, leaves

CFG = 'SPECIFICATION Spec\nCONSTANTS\n NT=%d\n NR=%d\n Scores={%s}\n Broken="%s"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
NAN = 2000000000


def pleaves(params):
    return leaves({"method": {"params": params}})


def pl_spec(spec):
    """What the method was built with, as parameter leaves (defaults it was not given are left out by the caller)."""
    out = {k: getattr(spec, k) for k in ("a", "b", "c", "batch_size", "sup_batch_size")}
    out["classifier_params"] = dict(spec.classifier_params)
    return out


def space(r, kind):
    pool = ["a", "b", "batch_size", "sup_batch_size", "classifier_params.depth", "classifier_params.batch_size"]
    sp = {}
    for leaf in r.sample(pool, r.choice([1, 1, 2, 2, 3])):
        vals = r.sample(NUMS, r.choice([1, 2, 3])) if "batch" in leaf else r.sample([0, 1, 2, -3, "x", "yy", True, 2.5], r.choice([1, 2, 3]))
        v = vals
        if kind == "random" and r.random() < 0.7:
            v = r.choice([{"dist": "choice", "values": vals}, {"dist": "randint", "low": 1, "high": 90},
                          {"dist": "uniform", "low": 0.5, "high": 2}] if "batch" not in leaf else [{"dist": "randint", "low": 1, "high": 900}])
        B.set_path(sp, "method.params." + leaf, v)
    return sp


def scenario(a):
    i, seed = a
    r = random.Random(f"h02:{i}:{seed}")
    kind = r.choice(["inductive", "inductive", "transductive"])
    cfg = B.base(kind)
    if "graph" in cfg:
        cfg["graph"]["spec"]["chunk_size"] = 4
    sk = r.choice(["grid", "random"])
    sp = space(r, sk)
    params = {"a": r.choice([1, "q", 7]), "b": r.choice([0, 3])}
    for k in ("batch_size", "sup_batch_size"):
        if r.random() < 0.6:
            params[k] = r.choice(NUMS)
    params["classifier_params"] = {"depth": 2}
    if r.random() < 0.5:
        params["classifier_params"]["batch_size"] = r.choice(NUMS)
    cfg["method"]["params"] = params
    lim = {}
    if r.random() < 0.6:
        if r.random() < 0.5:
            lim["profile"] = r.choice(["v100", "h100"])
        for n in ("batch", "sup"):
            if r.random() < 0.6:
                lim[FIELDS[n]] = r.choice(NUMS[:9])
        cfg["limits"] = lim
    reps = r.choice([1, 1, 2, 3, 4])
    split = r.choice(["train", "val", "test"])
    metric = r.choice(B.METRIC_NAMES)
    direction = r.choice(["maximize", "minimize"])
    n_trials = r.choice([1, 2, 4, 6])
    reports = r.sample(["train", "val", "test"], r.choice([1, 2, 3]))
    cfg["evaluation"] = {"report_splits": reports, "metrics": [r.choice(B.METRIC_NAMES)]}
    cfg["search"] = {"enabled": True, "kind": sk, "seed": r.choice([0, 1, 77]), "n_trials": n_trials, "repeats": reps,
                     "objective": {"split": split, "metric": metric, "direction": direction, "aggregate": "mean"}, "space": sp}
    cfg["run"]["seed"] = r.choice([0, 3, 2**31])
    cfg["run"]["fail_fast"] = r.random() < 0.4
    cfg["dataset"]["options"]["seed"] = r.choice([1, 2, 3])
    if r.random() < 0.2:
        cfg["dataset"]["options"]["official_test"] = False
    return one(r, i, cfg, lim, reps, split, metric, direction)


class Boom(RuntimeError):
    pass


def one(r, i, cfg, lim, reps, split, metric, direction):
    from modssc.hpo import Space
    s = cfg["search"]
    space_ = Space.from_dict(copy.deepcopy(s["space"]))
    trials = list(space_.iter_grid()) if s["kind"] == "grid" else list(space_.iter_random(seed=s["seed"], n_trials=s["n_trials"]))
    n = len(trials)
    lo = r.choice([1, 2, 3])  # few distinct scores: ties are common
    table = [[NAN if r.random() < r_nan else r.randint(-lo, lo) for _ in range(reps)] for r_nan in [r.choice([0, 0, 0.1, 1])] * n for _ in [0]]
    if r.random() < 0.3:  # the first trials say NaN
        for k in range(min(n, r.randint(1, 2))):
            table[k] = [NAN] * reps
    failat = [0, 0]
    if r.random() < 0.25:
        k = r.randint(1, n + 1)
        failat = [k, r.randint(1, reps) if k <= n else 1]
    st = dict(fits=0)

    def on_fit(m, e):
        st["fits"] += 1
        e["n"] = st["fits"]
        k, q = (st["fits"] - 1) // reps + 1, (st["fits"] - 1) % reps + 1
        if failat == [k, q]:
            raise Boom("scripted failure")

    def score(name, y_true, y_pred):
        B.LOG[-1]["n"] = st["fits"]
        k, q = (st["fits"] - 1) // reps, (st["fits"] - 1) % reps
        v = table[k][q] if k < n else 0
        return math.nan if v == NAN else v * 0.75

    B.install()
    B.CTL.clear()
    B.CTL.update(fit=on_fit, metric=score)
    with B.Home() as h:
        plain = copy.deepcopy(cfg)
        del plain["search"]
        plain["evaluation"] = {"report_splits": ["train", "val", "test"], "metrics": ["vf_other"]}
        plain["run"]["output_dir"] = "plain"
        fit0, B.CTL["fit"] = B.CTL["fit"], None
        o0, log0 = h.run(plain)
        if o0["code"] != 0:
            raise RuntimeError(f"plain run failed: {o0} {cfg}")
        ys = [enc.tok(e["y_true"]) for e in log0 if e["op"] == "metric"]
        labels = dict(zip(["train", "val", "test"], ys))
        seed0 = [e["seed"] for e in log0 if e["op"] == "fit"][0]
        B.CTL["fit"] = fit0
        st["fits"] = 0
        o, log = h.run(cfg)
        dirs = h.out_dirs(cfg)
        got = B.read_run(dirs[0]) if len(dirs) == 1 else dict(run=None, config=None, trials=None, error=None, files=[])
    pids = lambda patch: pleaves(patch["method"]["params"])  # noqa: E731
    ev = []
    given = {x["id"] for x in pleaves(cfg["method"]["params"])} | {x["id"] for t in trials for x in pids(t.patch)}
    for e in log:
        if e["op"] == "fit":
            mine = [x for x in pleaves(pl_spec(e["spec"])) if x["id"] in given]
            # a parameter nobody set keeps the method's default (None): it is no leaf of the trial
            mine = [x for x in mine if not (x["t"] == "null")]
            k, q = (e["n"] - 1) // reps, (e["n"] - 1) % reps
            ev.append(dict(op="fit", params=mine, seed=B.seed_name(e["seed"])))
            key = f"{cfg['run']['seed']}:" + (f"{k}:{q}" if e["n"] <= n * reps else "final")
            ev.append(dict(op="seed", key=key, v=B.seed_name(e["seed"])))
        elif e["op"] == "metric":
            if e["name"] not in (metric, cfg["evaluation"]["metrics"][0]):
                continue
            ev.append(dict(op="score", y=enc.tok(e["y_true"]), n=e["n"]))
    ev.append(dict(op="seed", key=f"{cfg['run']['seed']}:final", v=B.seed_name(seed0)))

    def num(v, unit=16):
        v = float(v)
        return NAN if math.isnan(v) else int(v * unit) if abs(v) < 1e6 and v * unit == int(v * unit) else 1999999999

    for t in got["trials"] or []:
        ob = t["objective"]
        ev.append(dict(op="trial", index=t["index"], params=enc.tok(t["params"]), patch=pids(t["patch"]),
                       values=[NAN if math.isnan(x) else int(x / 0.75) if x / 0.75 == int(x / 0.75) else 1999999999 for x in ob["values"]],
                       value=num(ob["value"]), split=ob["split"], metric=ob["metric"]))
    rj = got["run"] or {}
    hp = rj.get("hpo")
    ev.append(dict(op="summary", has=bool(hp), best=hp["best_index"] if hp else 0, score=num(hp["best_score"]) if hp else 0,
                   params=enc.tok(hp["best_params"]) if hp else "", patch=pids(hp["best_patch"]) if hp else [], n=hp["n_trials"] if hp else 0))
    conf = got["config"] or {"method": {"params": {}}}

    def rest(c):
        c = copy.deepcopy(c)
        c["method"].pop("params", None)
        c["method"].get("device", {}).pop("resolved_device", None)
        return enc.tok(c)

    ev.append(dict(op="final", params=pleaves(conf["method"]["params"]), rest=rest(conf),
                   ran=enc.tok(rj["config"]["method"]["params"]) if rj else "?", written=enc.tok(conf["method"]["params"])))
    status = rj.get("run", {}).get("status", "none")
    ev.append(dict(op="result", status=status, raised=o["raised"], code=o["code"], names="scripted failure" in str(rj.get("error")) and "scripted failure" in str(got["error"]) and "Boom" in str(rj.get("error"))))
    return dict(id=f"s{i}", key=f"{s['kind']}/{cfg['method']['kind']}", base=pleaves(cfg["method"]["params"]), patches=[pids(t.patch) for t in trials],
                params=[enc.tok(t.params) for t in trials], repeats=reps, dir=direction, runseed=str(cfg["run"]["seed"]), profile=lim.get("profile", ""),
                explicit={a: lim.get(f, 0) for a, f in FIELDS.items()}, scores=table, failat=failat, labels=labels, split=split, metric=metric,
                reports=cfg["evaluation"]["report_splits"], rest=rest(cfg), failfast=cfg["run"]["fail_fast"], error="Boom", ev=ev, n=n)


def run(ctx):
    from vf.proc import pmap
    good = "BestWins FinalIsTheWinner EveryTrialRuns TrialsWithinLimits OneWinner"
    ctx.model_check("HpoSearchModel", cfg_text=CFG % (ctx.pick(3, 4), 2, ctx.pick("0,1", "0,1"), "none", good), workers=8)
    for b, inv in (("last", "BestWins"), ("nansticks", "BestWins"), ("lastrepeat", "BestWins"), ("dirflip", "BestWins"), ("lasttrial", "FinalIsTheWinner"), ("unclamped", "TrialsWithinLimits")):
        ctx.model_check("HpoSearchModel", cfg_text=CFG % (2, 2, "0,1", b, inv), expect=f"{inv} is violated")
    B.install()
    traces = pmap(scenario, [(i, ctx.seed) for i in range(ctx.pick(250, 5000))])
    for t in traces:
        if t["n"] > 1 and len({str(x) for x in t["scores"]}) > 1:
            ctx.nontrivial.add(t["id"])
    ctx.notes["rule"] = "searches over more than one trial whose scores differ"
    # seeds are one function over all the runs
    seeds = {}
    for t in traces:
        for e in t["ev"]:
            if e["op"] == "seed":
                seeds.setdefault(e["key"], {})[e["v"]] = e
        t["ev"] = [e for e in t["ev"] if e["op"] != "seed"]
    t0 = dict(traces[0], id="seeds", key="seeds", ev=[e for d in seeds.values() for e in d.values()])
    ctx.judge("HpoSearchTrace", traces + [t0], workers=8)
