# needs: fsgate
"""B02: see spec/RunDirs.tla, RunDirsModel.tla and RunDirsTrace.tla."""
import copy
import json
import random
import re

from vf import bench_drv as B
from vf import enc

CFG = 'SPECIFICATION Spec\nCONSTANTS\n NRuns=%d\n NNames=6\n Broken="%s"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
# stages that a configuration alone makes fail, and the scripted ones
STAGES = ["dataset", "benchrule", "step", "metric_name", "split_name", "method_id", "sampling", "preprocess", "views", "graph", "augment", "param", "fit", "predict", "score", "trial", "late"]


class StageError(RuntimeError):
    pass


class CodedError(RuntimeError):
    code = "E_BENCH_SCRIPTED"


def failing_config(cfg, stage, k):
    """Make cfg fail at stage, naming k; returns (error type, text that the report must name, error code)."""
    tag = f"nosuch{k}"
    if stage == "dataset":
        cfg["dataset"]["id"] = f"vfprov:{tag}"
        return "ConnectionError", "provider failed", "E_BENCH_RUNTIME"
    if stage == "benchrule":
        cfg["run"]["benchmark_mode"] = True
        cfg["run"]["fail_fast"] = True
        return "BenchConfigError", "dataset.download", "E_BENCH_DOWNLOAD_FORBIDDEN"
    if stage == "step":
        cfg["preprocess"]["plan"]["steps"].append({"id": tag})
        return None, tag, "E_BENCH_RUNTIME"
    if stage == "metric_name":
        cfg["evaluation"]["metrics"] = ["vf_score", tag]
        return "BenchConfigError", tag, "E_BENCH_CONFIG"
    if stage == "split_name":
        cfg["evaluation"]["report_splits"] = ["val", tag]
        return "BenchConfigError", tag, "E_BENCH_CONFIG"
    if stage == "method_id":
        cfg["method"]["id"] = tag
        return None, tag, "E_BENCH_RUNTIME"
    if stage == "sampling":
        cfg["sampling"]["plan"]["labeling"] = {"mode": tag, "value": 2}
        return None, "", "E_BENCH_RUNTIME"
    if stage == "preprocess":
        cfg["preprocess"]["plan"]["steps"].append({"id": "core.cast_dtype", "params": {"dtype": tag}})
        return None, tag, "E_BENCH_RUNTIME"
    if stage == "views":
        cfg["views"] = {"seed": 1, "plan": {"views": [{"name": "a", "columns": {"mode": tag}}, {"name": "b", "columns": {"mode": "all"}}]}}
        return None, "", "E_BENCH_RUNTIME"
    if stage == "graph":
        cfg["graph"] = {"enabled": True, "cache": False, "spec": {"scheme": tag}}
        return None, "", "E_BENCH_RUNTIME"
    if stage == "augment":
        cfg["method"].update(kind="inductive", id="vf_ind")
        cfg["augmentation"] = {"enabled": True, "modality": "tabular", "weak": {"steps": [{"id": tag}]}, "strong": {"steps": [{"id": tag}]}}
        return None, tag, "E_BENCH_RUNTIME"
    if stage == "param":
        cfg["method"]["params"][tag] = 1
        return "TypeError", tag, "E_BENCH_RUNTIME"
    return None, f"scripted {k}", "?"


def plan_run(r, k, group):
    """One run: its configuration and what it does."""
    kind = r.choice(["inductive", "inductive", "transductive"])
    stage = r.choice(STAGES) if r.random() < 0.4 else ""
    if group is not None:
        kind, stage = "inductive", r.choice(["", "", "", "fit", "score", "trial", "late"]) if group["mixed"] else ""
    cfg = B.base(kind)
    cfg["method"]["device"]["resolved_device"] = "cpu"
    cfg["run"]["fail_fast"] = r.random() < 0.4 if group is None else group["ff"]
    cfg["method"]["params"]["a"] = r.choice([1, 2])
    reports = r.sample(["train", "val", "test"], r.choice([1, 2, 3])) if group is None else ["val", "test"]
    mets = r.choice([["vf_score"], ["vf_other", "vf_score"]]) if group is None else ["vf_score"]
    cfg["evaluation"].update(report_splits=reports, metrics=mets)
    cfg["evaluation"].pop("split_for_model_selection")
    search = (r.random() < 0.4 if group is None else group["search"]) or stage in ("trial", "late")
    if search:
        cfg["search"] = {"enabled": True, "kind": "grid", "objective": {"split": "val", "metric": "vf_score", "direction": "maximize", "aggregate": "mean"},
                         "space": {"method": {"params": {"a": r.choice([[1, 2], [2], [1]]) if group is None else group["space"]}}}}
    err, text, ecode = "", "", ""
    if group is None:
        cfg["run"]["seed"] = r.choice([0, 3, 11])
        if r.random() < 0.5 or stage:
            cfg["dataset"]["options"]["mark"] = f"nosuch{k}"  # no provider looks at it
    if stage:
        err, text, ecode = failing_config(cfg, stage, k)
        if ecode == "?":
            coded = r.random() < 0.3
            err, ecode = ("CodedError", "E_BENCH_SCRIPTED") if coded else ("StageError", "E_BENCH_RUNTIME")
    else:
        err = ""
    return dict(k=k, cfg=cfg, stage=stage, err=err, text=text, ecode=ecode, search=search, reports=reports, mets=mets)


def hooks(p):
    """What the scripted method does in run p, and how its number shows."""
    k, st = p["k"], dict(fit=0, met=0)

    def boom():
        raise (CodedError if p["err"] == "CodedError" else StageError)(f"scripted {k}")

    n_trials = len(p["cfg"]["search"]["space"]["method"]["params"]["a"]) if p["search"] else 0

    def fit(m, e):
        st["fit"] += 1
        p["ran"] = m.spec.a
        if (p["stage"] == "fit") or (p["stage"] == "trial" and st["fit"] == n_trials) or (p["stage"] == "late" and st["fit"] == n_trials + 1):
            boom()

    def predict(m, X):
        if p["stage"] == "predict":
            boom()
        import numpy as np
        x = X.X if hasattr(X, "X") else X
        return np.tile(np.arange(2, dtype=float), (int(np.asarray(x).shape[0]), 1))

    def metric(name, yt, yp):
        st["met"] += 1
        if p["stage"] == "score":
            boom()
        v = k * 100 + st["met"]
        p.setdefault("values", []).append([name, v])
        return v

    B.CTL.clear()
    B.CTL.update(fit=fit, predict=predict, metric=metric)


def one_dir(d, marks):
    got = B.read_run(d)
    text = {}
    for f in sorted(x for x in d.rglob("*") if x.is_file()):
        text[str(f.relative_to(d))] = f.read_text(errors="replace")
    seen = set()
    for name, t in text.items():
        for k, tag in marks.items():
            if re.search(rf"(nosuch|scripted ){k}\b", t):
                seen.add(k)
        if name in ("run.json", "hpo/trials.jsonl"):
            vals = []
            if name == "run.json":
                try:
                    j = json.loads(t)
                except ValueError:
                    continue
                for m in (j.get("metrics") or {}).values():
                    vals += list(m.values())
                if j.get("hpo"):
                    vals.append(j["hpo"]["best_score"])
            else:
                for ln in t.splitlines():
                    try:
                        vals += json.loads(ln)["objective"]["values"]
                    except (ValueError, KeyError):
                        pass
            for v in vals:
                if v == v and int(v) // 100 in marks:
                    seen.add(int(v) // 100)
    return dict(path=d, got=got, seen=seen, dig=enc.digest(text))


def snapshot(root, plans, ended):
    """The directories now, with the runs whose results they hold."""
    marks = {p["k"]: p for p in plans}
    out = []
    if not root.exists():
        return []
    ds = [one_dir(d, marks) for d in sorted(root.iterdir()) if d.is_dir()]
    for d in ds:
        p = marks.get(next(iter(d["seen"]))) if len(d["seen"]) == 1 else None
        g = d["got"]
        j = g["run"] or {}
        run = j.get("run", {})
        err = j.get("error") or ""
        rec = []
        if j.get("metrics") and p:
            rec = [[s, m, j["metrics"][s][m]] for s in p["reports"] for m in p["mets"] if s in j["metrics"] and m in j["metrics"][s]]
            if {s for s in j["metrics"]} != set(p["reports"]):
                rec = [["?"]]
        ev = []
        if p:
            vals = p.get("values", [])
            want = len(p["reports"]) * len(p["mets"])
            last = vals[-want:] if len(vals) >= want else []
            names = [(s, m) for s in p["reports"] for m in p["mets"]]
            if [m for _, m in names] == [m for m, _ in last]:
                ev = [[s, m, float(v)] for (s, m), (_, v) in zip(names, last)]
        out.append(dict(name=d["path"].name, dig=d["dig"], marks=sorted(d["seen"]), formed=bool(j) and "run" in j and "status" in run and "config.yaml" in g["files"] and run.get("finished_at") is not None,
                        status=str(run.get("status", "")), runname=str(run.get("name", "")), runseed=str(run.get("seed", "")), error=err, ecode=str(run.get("error_code") or ""),
                        recorded=enc.tok(rec) if rec else "", evaluated=enc.tok(ev) if ev else "", leaves=len(ev),
                        nametype=bool(p) and err.split(":")[0] == p.get("told", ""), nametext=bool(p) and p["text"] in err,
                        traceback="Traceback" in (g["error"] or "") and bool(p) and p.get("told", "") in (g["error"] or "") and p["text"] in (g["error"] or ""),
                        id=str(run.get("run_id", "")), ran=str(p.get("ran")) if p else "", config=str(((g["config"] or {}).get("method") or {}).get("params", {}).get("a")),
                        told=str(((j.get("config") or {}).get("method") or {}).get("params", {}).get("a"))))
    return out


def describe(p):
    fail = bool(p["stage"])
    c = p["cfg"]["run"]
    return dict(expect="killed" if p.get("killed") else "failed" if fail else "success", raises=fail and (c["fail_fast"] or c.get("benchmark_mode", False)), err=p.get("told", "") if fail else "",
                name=c["name"], seed=str(c["seed"]), ecode=p["ecode"] if fail else "", leaves=len(p["reports"]) * len(p["mets"]), stage=p["stage"])


def settle(p, o):
    p["told"] = p["err"] or o["raised"]
    return dict(op="end", run=p["k"], raised=o["raised"], code=o["code"])


def tell(plans, snap):
    """Where the caller is not told the type of a failure, the record must at least name one."""
    for p in plans:
        if p["stage"] and not p.get("told"):
            for d in snap:
                if d["marks"] == [p["k"]]:
                    p["told"] = d["error"].split(":")[0] if ":" in d["error"] else "?"


def sequence(a):
    i, seed = a
    r = random.Random(f"b02s:{i}:{seed}")
    prepare()
    plans, ev = [], []
    with B.Home() as h:
        n = r.randint(2, 5)
        group = dict(mixed=True, ff=r.random() < 0.5, search=r.random() < 0.5, space=r.choice([[1, 2], [2]]))
        gcfg = None
        for k in range(1, n + 1):
            p = plan_run(r, k, group if r.random() < 0.6 else None)
            plans.append(p)
            hooks(p)
            o, log = h.run(copy.deepcopy(p["cfg"]))
            ev.append(settle(p, o))
            snap = snapshot(h.root / "out", plans, None)
            if p["stage"] and not p["told"]:  # the record is the only place that names the type
                for d in snap:
                    if d["marks"] == [k]:
                        p["told"] = d["error"].split(":")[0] if ":" in d["error"] else "?"
                snap = snapshot(h.root / "out", plans, None)
            ev.append(dict(op="disk", dirs=snap))
            if not p["stage"] and not p["search"]:
                for d in snap:
                    if d["marks"] == [k]:
                        ev.append(dict(op="id", key=enc.tok(p["cfg"]), v=d["id"]))
    return dict(id=f"seq{i}", key="sequence", runs=[describe(p) for p in plans], ev=ev, stages=[p["stage"] for p in plans])


def concurrent(a):
    from vf.proc import Scheduled
    i, seed = a
    r = random.Random(f"b02c:{i}:{seed}")
    prepare()
    n = r.choice([2, 2, 3])
    mixed = r.random() < 0.3
    search = r.random() < 0.6
    plans = []
    for k in range(1, n + 1):
        g = dict(mixed=mixed, ff=False, search=search, space=[2])
        plans.append(plan_run(r, k, g))
    same = plans[0]["cfg"]["method"]["params"]["a"]
    for p in plans:
        if r.random() < 0.7:
            p["cfg"]["method"]["params"]["a"] = same
    ev = []
    with B.Home() as h:
        (h.root / "out").mkdir()

        def body(p):
            def f():
                hooks(p)
                o, _ = h.run(copy.deepcopy(p["cfg"]))
                return o, p.get("values", []), p.get("ran")
            return f
        segs = []
        for _ in range(r.randint(2, 12)):
            segs.append((r.randrange(n), r.choice([1, 1, 2, 3, 5])))
        if r.random() < 0.2:
            q = r.randrange(n)
            segs.append((q, "kill"))
            plans[q]["killed"] = True
        s = Scheduled([body(p) for p in plans], h.root / "out")
        try:
            s.run(segs)
            for p, pr in zip(plans, s.procs):
                res = pr["result"]
                if p.get("killed") and res[0] == "ok":
                    p["killed"] = False
                if res[0] == "ok":
                    o, p["values"], p["ran"] = res[1]
                elif not p.get("killed"):
                    raise RuntimeError(f"run process ended oddly: {res}")
                else:
                    o = dict(raised="", code=0)
                ev.append(settle(p, o))
        finally:
            s.close()
        snap = snapshot(h.root / "out", plans, None)
        ev.append(dict(op="disk", dirs=snap))
        # one more run with the same configuration, after the others
        p = plan_run(r, n + 1, dict(mixed=False, ff=False, search=search, space=[2]))
        plans.append(p)
        hooks(p)
        o, _ = h.run(copy.deepcopy(p["cfg"]))
        ev.append(settle(p, o))
        ev.append(dict(op="disk", dirs=snapshot(h.root / "out", plans, None)))
    return dict(id=f"con{i}", key="concurrent", runs=[describe(p) for p in plans], ev=ev, stages=[p["stage"] for p in plans])


def sweeps(a):
    from vf.proc import Scheduled
    i, seed = a
    r = random.Random(f"b02w:{i}:{seed}")
    prepare()
    n, m = 2, r.choice([1, 2])
    plans = [plan_run(r, k, dict(mixed=False, ff=False, search=False, space=[2])) for k in range(1, n + 1)]
    for p in plans:
        p["cfg"] = plans[0]["cfg"]
    ev = []
    with B.Home() as h:
        (h.root / "out").mkdir()

        def body(p):
            def f():
                hooks(p)
                return h.run(copy.deepcopy(p["cfg"]), num_runs=m)[0]
            return f
        s = Scheduled([body(p) for p in plans], h.root / "out")
        try:
            s.run([(r.randrange(n), r.choice([1, 2, 3, 5, 9])) for _ in range(r.randint(1, 10))])
            for p, pr in zip(plans, s.procs):
                o = pr["result"][1] if pr["result"][0] == "ok" else dict(raised="died", code=-1)
                ev.append(settle(p, o))
        finally:
            s.close()
        roots = []
        for d in sorted(h.root.glob("out/*-sweep-*")):
            ms = set()
            for x in d.iterdir():
                if x.is_dir():
                    ms |= one_dir(x, {p["k"]: p for p in plans})["seen"]
            lists, cnt = set(), 0
            if (d / "aggregate.json").exists():
                j = json.loads((d / "aggregate.json").read_text())
                cnt = len(j["runs"])
                for x in j["runs"]:
                    for mm in (x["metrics"] or {}).values():
                        lists |= {int(v) // 100 for v in mm.values()}
            roots.append(dict(name=d.name, marks=sorted(ms), lists=sorted(lists), n=cnt))
    ev.append(dict(op="sweeps", roots=roots, runs=[p["k"] for p in plans], n=m))
    return dict(id=f"swp{i}", key="sweeps", runs=[describe(p) for p in plans], ev=ev, stages=[])


def prepare():
    from vf import fakeprov
    B.install()
    fakeprov.install()
    fakeprov.CONTROL.update(dir="/nonexistent", failhere=True)

    import vf.fakeprov as f
    f.FakeProvider.load_canonical = staticmethod(_fail)


def _fail(*a, **k):
    raise ConnectionError("provider failed")


def work(a):
    return dict(s=sequence, c=concurrent, w=sweeps)[a[0]](a[1:])


def run(ctx):
    from vf.proc import pmap
    inv = "OneOwner Recorded TrueOutcome Complete"
    ctx.model_check("RunDirsModel", cfg_text=CFG % (ctx.pick(2, 3), "none", inv), workers=8)
    for b, x in (("exists", "OneOwner"), ("loser", "Recorded"), ("renameover", "OneOwner"), ("silent", "Recorded"), ("unrecorded", "Recorded"), ("fresh", "Recorded")):
        ctx.model_check("RunDirsModel", cfg_text=CFG % (2 if b not in ("renameover",) else 3, b, x), expect=f"{x} is violated", workers=8)
    prepare()
    k = ctx.pick(1, 12)
    items = [("s", i, ctx.seed) for i in range(120 * k)] + [("c", i, ctx.seed) for i in range(90 * k)] + [("w", i, ctx.seed) for i in range(20 * k)]
    traces = pmap(work, items)
    for t in traces:
        if len(t["ev"]) > 2:
            ctx.nontrivial.add(t["id"])
    from collections import Counter
    ctx.notes["stages failed"] = dict(Counter(s for t in traces for s in t["stages"] if s))
    ctx.notes["rule"] = "histories of several runs into one output directory"
    ctx.judge("RunDirsTrace", traces, workers=8)
