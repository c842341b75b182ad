"""B03: see spec/SeedSweep.tla, SeedSweepModel.tla and SeedSweepTrace.tla."""
import copy
import json
import math
import random
import shutil

import yaml

from vf import bench_drv as B
from vf import enc

CFG = 'SPECIFICATION Spec\nCONSTANTS\n NS=%d\n Vals={%s}\n Broken="%s"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
NAN = 1000000000
SECS = ("sampling", "preprocess", "views", "graph", "augmentation", "search")


class Boom(RuntimeError):
    pass


def leaves(node, path=""):
    if isinstance(node, dict) and node:
        return [x for k in node for x in leaves(node[k], f"{path}.{k}" if path else str(k))]
    return [dict(id=path, v=enc.tok(node))]


def config(r):
    kind = r.choice(["inductive", "inductive", "transductive"])
    cfg = B.base(kind)
    cfg["run"]["fail_fast"] = r.random() < 0.4
    cfg["run"]["seed"] = r.choice([0, 4, 9])
    cfg["method"]["params"]["a"] = r.choice([1, 2])
    cfg["dataset"]["options"]["seed"] = r.choice([1, 2])
    if r.random() < 0.3:
        cfg["run"]["log_level"] = r.choice(["none", "basic"])
    for s in ("sampling", "preprocess", "graph"):
        if s in cfg and r.random() < 0.4:
            cfg[s].pop("seed", None)
    if kind == "inductive" and r.random() < 0.4:
        cfg["views"] = {"plan": {"views": [{"name": "p", "columns": {"mode": "random", "fraction": 0.5}}, {"name": "q", "columns": {"mode": "complement", "complement_of": "p"}}]}}
        if r.random() < 0.5:
            cfg["views"]["seed"] = 13
    if kind == "inductive" and r.random() < 0.4:
        cfg["augmentation"] = {"enabled": True, "modality": "tabular", "weak": {"steps": [{"id": "tabular.gaussian_noise", "params": {"std": 0.5}}]},
                               "strong": {"steps": [{"id": "tabular.gaussian_noise", "params": {"std": 2.0}}]}}
        if r.random() < 0.5:
            cfg["augmentation"]["seed"] = 21
    if r.random() < 0.4:
        cfg["search"] = {"enabled": True, "kind": r.choice(["grid", "random"]), "n_trials": 2, "repeats": 1,
                         "objective": {"split": "val", "metric": "vf_score", "direction": "maximize", "aggregate": "mean"},
                         "space": {"method": {"params": {"a": r.choice([[1, 2], [5], [7, 5, 6]])}}}}
        if cfg["search"]["kind"] == "random":
            cfg["search"]["space"] = {"method": {"params": {"b": {"dist": "randint", "low": 1, "high": 99}}}}
            cfg["search"]["seed"] = r.choice([0, 5])
        if r.random() < 0.5:
            cfg["search"]["seed"] = r.choice([0, 5])
    rep = r.sample(["train", "val", "test"], r.choice([1, 2, 3]))
    mets = r.choice([["vf_score"], ["vf_other", "vf_score"]])
    cfg["evaluation"] = dict(report_splits=rep, metrics=mets)
    return cfg


def data_tok(d):
    fields = sorted(n for n in dir(d) if not n.startswith("_") and n not in ("meta",) and not callable(getattr(d, n)))
    return [[n, enc.digest(enc.tok(plain(getattr(d, n))))] for n in fields]


def plain(x):
    import numpy as np
    if x is None or isinstance(x, (int, float, str, bool)):
        return x
    if isinstance(x, np.ndarray):
        return enc.arr(x, 10**6)
    if isinstance(x, dict) or hasattr(x, "items"):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if hasattr(x, "__dict__") or hasattr(x, "__dataclass_fields__"):
        names = getattr(x, "__dataclass_fields__", None) or vars(x)
        return {n: plain(getattr(x, n)) for n in names if n != "meta"}
    return str(type(x))


class Script:
    """What happens in each run, by its place in the order of runs."""

    def __init__(self, root, plan, table):
        self.root, self.plan, self.table = root, plan, table
        self.k = 0
        self.sees = {}
        self.calls = 0

    def start(self):
        """The directory of the run that is going on; runs that are over have a record, or were made to crash."""
        k = len(list(self.root.rglob("run.json"))) + self.crashed + 1
        if k != self.k:
            self.k, self.calls, self.fits = k, 0, 0
            self.sees[k] = []
        ds = [d.parent for d in self.root.rglob("config.yaml") if not (d.parent / "run.json").exists()]
        return ds[0] if len(ds) == 1 else None

    crashed = 0

    def last(self):
        """Is this the fit of the run itself, after any search?"""
        return self.fits == self.n_trials + 1

    def fit(self, m, e):
        d = self.start()
        self.fits += 1
        self.sees[self.k].append(["fit", e["seed"], enc.tok([m.spec.a, m.spec.b]), data_tok(e["data"])])
        how = self.plan[self.k - 1] if self.k <= len(self.plan) else "ok"
        if self.last() or (self.early and how != "crash"):
            if how == "fail":
                raise Boom(f"scripted {self.k}")
            if how == "crash":
                shutil.rmtree(d)
                self.crashed += 1

    early = False

    def metric(self, name, yt, yp):
        self.calls += 1
        base = self.table[self.k - 1] if self.k <= len(self.table) else 0
        v = math.nan if base == NAN else ((base + 7 * self.calls + sum((i + 1) * int(y) for i, y in enumerate(yt))) % 41 - 8) / 8
        self.sees[self.k].append(["metric", name, enc.tok(yt), enc.tok(v)])
        return v


def attach(sc):
    B.CTL.clear()
    B.CTL.update(fit=sc.fit, metric=sc.metric)


def scaled(v, k):
    return NAN if v != v else round(v * k)


def scenario(a):
    i, seed = a
    r = random.Random(f"b03:{i}:{seed}")
    B.install()
    cfg = config(r)
    n = r.choice([1, 2, 2, 3, 3, 4, 5])
    by_count = r.random() < 0.4
    if by_count:
        seeds = [cfg["run"]["seed"] + k for k in range(n)]
        if r.random() < 0.4:
            cfg["run"]["seeds"] = r.sample(range(50), 3)
    else:
        seeds = r.sample([0, 1, 2, 7, 2**31 - 1, 123456], n)
        cfg["run"]["seeds"] = list(seeds)
    p_bad = r.choice([0, 0.3, 0.5, 1])
    plan = [r.choice(["fail", "fail", "crash"]) if r.random() < p_bad else "ok" for _ in seeds]
    table = [NAN if r.random() < 0.05 else r.randint(0, 40) for _ in seeds]
    ff = cfg["run"]["fail_fast"]
    if r.random() < 0.1:
        with B.Home() as h:
            o, log = h.run(cfg, num_runs=r.choice([0, -1, -3]))
            return dict(id=f"bad{i}", key="refused", seeds=seeds, ev=[dict(op="refused", raised=o["raised"], runs=len(log))])
    n_tr = 0
    if "search" in cfg:
        n_tr = len(cfg["search"]["space"]["method"]["params"].get("a", [1, 2])) if cfg["search"]["kind"] == "grid" else 2
    ev = []
    searched = list(cfg["search"]["space"]["method"]["params"]) if n_tr else []
    base = strip(leaves(cfg), searched)  # the search puts its choice into the configuration
    alone = {}
    with B.Home() as h:
        for s in sorted(set(seeds)):
            c = copy.deepcopy(cfg)
            c["run"].pop("seeds", None)
            c["run"].update(seed=s, output_dir=f"alone{s}")
            for x in SECS:
                if x in c:
                    c[x]["seed"] = s
            k = next(j for j, t in enumerate(seeds) if t == s)
            sc = Script(h.root / f"alone{s}", [], [table[k]])
            sc.n_trials, sc.fits = n_tr, 0
            attach(sc)
            o, _ = h.run(c)
            if o["code"] != 0:
                raise RuntimeError(f"alone: {o} {c}")
            alone[s] = enc.digest(enc.tok(sc.sees))
            ev.append(dict(op="alone", seed=s, sees=alone[s]))
        sc = Script(h.root / "out", plan, table)
        sc.n_trials, sc.fits, sc.early = n_tr, 0, r.random() < 0.4
        attach(sc)
        o, _ = h.run(cfg, num_runs=n if by_count else None)
        roots = sorted((h.root / "out").glob("*"))
        root = roots[0] if len(roots) == 1 else None
        dirs = sorted((d for d in root.iterdir() if d.is_dir()), key=lambda d: (d.stat().st_ctime_ns)) if root else []
        runs = []
        for d in dirs:
            g = B.read_run(d)
            runs.append((g["run"]["run"]["started_at"], g, d))
        runs.sort(key=lambda x: x[0])
        names = sorted([s, m] for s in cfg["evaluation"]["report_splits"] for m in cfg["evaluation"]["metrics"])
        agg = summary(root)
        # the runs in order: those that crashed left nothing
        it = iter(runs)
        for k in range(1, sc.k + 1):
            how = plan[k - 1] if k <= len(plan) else "?"
            nothing = dict(seed=0, status="", run="", error="", metrics="", dir="", there=False)
            if how == "crash":
                ev.append(dict(op="run", seed=seeds[k - 1], leaves=[], sees="", how="crash", vals=[0] * len(names), entry=nothing, seedtok="", nametok="", outtok="", hash="", want=""))
                continue
            try:
                _, g, d = next(it)
            except StopIteration:
                break
            run = g["run"]
            c = copy.deepcopy(g["config"])
            c["method"]["device"].pop("resolved_device", None)  # what the run found, not what it was told
            ok = run["run"]["status"] == "success"
            vals = [scaled(run["metrics"][s][m], 8) if ok else 0 for s, m in names]
            ev.append(dict(op="run", seed=run["run"]["seed"], leaves=strip(leaves(c), searched), sees=enc.digest(enc.tok({1: sc.sees[k]})), how="ok" if ok else "fail", vals=vals,
                           entry=entry(run["run"]["seed"], run["run"]["status"], run["run"]["run_id"], run["error"], run["metrics"], d.name),
                           seedtok=enc.tok(run["run"]["seed"]), nametok=enc.tok(f"r-seed{run['run']['seed']}"), outtok=enc.tok(str(root)),
                           hash=run["hashes"]["config_hash"], want=asked(cfg, run["run"]["seed"], root)))
        for _ in it:
            ev.append(dict(op="run", seed=-1, leaves=[], sees="", how="extra", vals=[], entry={}, seedtok="", nametok="", outtok="", hash="", want=""))
        ev.append(dict(op="end", raised=o["raised"], ecode=o.get("ecode", ""), code=o["code"], agg=agg))
    secs = sorted(k for k in cfg if isinstance(cfg[k], dict))
    return dict(id=f"sw{i}", key="sweep", seeds=seeds, ff=ff, plan=plan, base=base, secs=secs, leaves=names, ev=ev)


def asked(cfg, seed, root):
    """The name (a hash) of what one run of the sweep was asked for."""
    from bench.utils.hashing import hash_any
    c = copy.deepcopy(cfg)
    c["run"].pop("seeds", None)
    c["run"].update(seed=seed, name=f"{cfg['run']['name']}-seed{seed}", output_dir=str(root))
    for x in SECS:
        if isinstance(c.get(x), dict):
            c[x]["seed"] = seed
    return hash_any(json.loads(json.dumps(c)))


def records(a):
    """A summary made from the records that runs left: any mixture of outcomes and of metrics."""
    i, seed = a
    r = random.Random(f"b03rec:{i}:{seed}")
    import pathlib

    from bench.orchestrators import reporting
    n = r.randint(1, 6)
    seeds = r.sample(range(100), n)
    names = sorted([s, m] for s in r.sample(["train", "val", "test"], r.choice([1, 2])) for m in r.choice([["acc"], ["acc", "f1"]]))
    ev, paths = [], []
    with B.Home() as h:
        for k, s in enumerate(seeds):
            how = r.choice(["ok", "ok", "fail", "failmet", "crash"])
            vals = [NAN if r.random() < 0.04 else r.randint(-20, 40) for _ in names]
            e = dict(op="rec", seed=s, ok=how == "ok", vals=vals if how == "ok" else [0] * len(names), entry=dict(there=False))
            if how != "crash":
                met = None
                if how != "fail":
                    met = {}
                    for (sp, m), v in zip(names, vals):
                        met.setdefault(sp, {})[m] = math.nan if v == NAN else v / 8
                d = h.root / f"run{k}"
                d.mkdir()
                st = "success" if how == "ok" else "failed"
                err = None if how == "ok" else "ValueError: x"
                (d / "run.json").write_text(json.dumps(dict(run=dict(seed=s, name="n", run_id=f"i{k}", status=st, error_code=None), metrics=met, error=err)))
                paths.append(d / "run.json")
                e["entry"] = entry(s, st, f"i{k}", err, met, d.name)
            ev.append(e)
        reporting.write_seed_sweep_summary(output_dir=h.root / "o", config_path=pathlib.Path("c.yaml"), base_name="b", requested_seeds=list(seeds), run_json_paths=paths)
        agg = summary(h.root / "o")
    ev.append(dict(op="sum", agg=agg))
    return dict(id=f"rec{i}", key="records", seeds=seeds, leaves=names, ev=ev)


def summary(root):
    if not root or not (root / "aggregate.json").exists():
        return []
    import pathlib
    j = json.loads((root / "aggregate.json").read_text())
    sw = j["sweep"]
    lv = sorted([s, m] for s in j["metrics"] for m in j["metrics"][s])
    ms = [j["metrics"][s][m] for s, m in lv]
    return [dict(requested=sw["requested_seeds"], nreq=sw["requested_run_count"], good=sw["successful_run_count"], failed=sw["failed_run_count"], status=sw["status"],
                 leaves=lv, metrics=[dict(count=x["count"], values=[scaled(v, 8) for v in x["values"]], mean=scaled(x["mean"], 1000), std=scaled(x["std"], 100),
                                          min=scaled(x["min"], 8), max=scaled(x["max"], 8)) for x in ms],
                 entries=[entry(x["seed"], x["status"], x["run_id"], x["error"], x["metrics"], pathlib.Path(x["run_dir"]).name) for x in j["runs"]])]


def strip(ls, searched):
    return [x for x in ls if x["id"] not in [f"method.params.{p}" for p in searched]]


def entry(seed, status, run, error, metrics, d):
    return dict(seed=seed, status=status, run=run, error=error or "", metrics=enc.tok(metrics), dir=d, there=True)


def run(ctx):
    from vf.proc import pmap
    inv = "EverySeedOnce StopsOnlyWhenTold StopsAtOnce OnlyTheSeedChanges SeedEverywhere Summed CountsRight StatusRight StatsRight ToldRight"
    ctx.model_check("SeedSweepModel", cfg_text=CFG % (ctx.pick(3, 4), "0,3,5", "none", inv), workers=8)
    for b, x in (("uncounted", "CountsRight"), ("unwritten", "Summed"), ("stops", "StopsOnlyWhenTold"), ("goeson", "StopsAtOnce"), ("polluted", "StatsRight"), ("dedup", "EverySeedOnce"),
                 ("stale", "SeedEverywhere"), ("code0", "ToldRight"), ("spread", "StatsRight")):
        ctx.model_check("SeedSweepModel", cfg_text=CFG % (3, "0,3,5", b, x), expect=f"{x} is violated", workers=8)
    B.install()
    traces = pmap(scenario, [(i, ctx.seed) for i in range(ctx.pick(220, 3000))])
    from bench.orchestrators import reporting
    if hasattr(reporting, "write_seed_sweep_summary"):
        traces += pmap(records, [(i, ctx.seed) for i in range(ctx.pick(300, 5000))])
    for t in traces:
        if len(t["seeds"]) > 1:
            ctx.nontrivial.add(t["id"])
    from collections import Counter
    ctx.notes["outcomes"] = dict(Counter(h for t in traces for h in t.get("plan", [])))
    ctx.notes["rule"] = "sweeps over more than one seed"
    ctx.judge("SeedSweepTrace", traces, workers=8)
