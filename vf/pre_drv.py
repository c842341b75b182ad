"""Random symbolic preprocessing scenarios and their execution on the real pipeline."""
from __future__ import annotations

import random

import numpy as np

from vf import enc, symsteps as S

OUTS = ["features.X"] * 6 + ["raw.X", "raw.X", "tokens.ids", "labels.y", "aux.c", "nothing"]
INKS = [""] * 8 + ["raw.X", "features.X", "labels.y", "tokens.ids", "graph.mask.m", "graph.mask.m", "graph.edge_index"]
REQS = ["features.X", "raw.X", "labels.y", "graph.edge_index", "graph.edge_weight", "tokens.ids", "graph.mask.m", "absent"]
MODS = ["tabular", "text", "graph", "audio"]


def random_dataset(r: random.Random, i: int) -> dict:
    mod = r.choice(["tabular", "tabular", "text", "graph", "graph", ""])

    def part(s):
        d = {"raw.X": f"X{i}{s}", "raw.y": f"y{i}{s}"}
        if mod == "graph" or r.random() < 0.25:
            d["graph.edge_index"] = f"E{i}{s}"
        if r.random() < 0.3:
            d["graph.mask.m"] = f"M{i}{s}"
        return d
    hastest = r.random() < 0.75
    return dict(name=f"d{i}", mod=mod, hastest=hastest, tr=part("a"), te=part("b") if hastest else {"-": "-"})


def twin(r: random.Random, d: dict) -> tuple[dict, str]:
    """The same dataset with one value of one split changed."""
    q = dict(d, name=d["name"] + "t", tr=dict(d["tr"]), te=dict(d["te"]))
    part = q["te"] if d["hastest"] and r.random() < 0.5 else q["tr"]
    k = "graph.mask.m" if "graph.mask.m" in part and r.random() < 0.6 else r.choice(sorted(part))
    part[k] = part[k] + "t"
    return q, k


def random_step(r: random.Random) -> dict:
    sid = r.choice(list(S.CAT))
    return dict(id=sid, on=r.random() < 0.9, w=str(r.randrange(2)), wrap=r.choice(S.WRAPS) if r.random() < 0.6 else "s",
                mods=sorted(r.sample(MODS, r.randint(1, 2))) if r.random() < 0.12 else [],
                req=sorted(r.sample(REQS, r.randint(1, 2))) if r.random() < 0.25 else [],
                ink=r.choice(INKS) if sid == "s.from" or r.random() < 0.05 else "")


def random_plan(r: random.Random, n: int = 5) -> dict:
    steps = [random_step(r) for _ in range(r.randint(0, n))]
    if r.random() < 0.03:
        steps.append(dict(random_step(r), id="s.unknown"))
    return dict(steps=steps, out=r.choice(OUTS))


def nudge(r: random.Random, p: dict) -> dict:
    """The same plan with one thing about it changed."""
    q = dict(out=p["out"], steps=[dict(s) for s in p["steps"]])
    k = r.randrange(6)
    if k == 0 or not q["steps"]:
        q["out"] = r.choice(OUTS)
    elif k == 1:
        q["steps"].insert(r.randrange(len(q["steps"]) + 1), random_step(r))
    elif k == 2:
        q["steps"].pop(r.randrange(len(q["steps"])))
    elif k == 3:
        s = r.choice(q["steps"])
        s["on"] = not s["on"]
    elif k == 4:
        s = r.choice(q["steps"])
        s["w"] = "1" if s["w"] == "0" else "0"
    else:
        i = r.randrange(len(q["steps"]))
        q["steps"][i] = random_step(r)
    return q


def to_plan(p: dict):
    from modssc.preprocess.plan import PreprocessPlan, StepConfig

    steps = []
    for s in p["steps"]:
        params = {"w": s["w"], "wrap": s["wrap"]}
        if s["ink"]:
            params["input_key"] = s["ink"]
        steps.append(StepConfig(step_id=s["id"], params=params, modalities=tuple(s["mods"]),
                                requires_fields=tuple(s["req"]), enabled=s["on"]))
    return PreprocessPlan(steps=tuple(steps), output_key=p["out"])


def make_dataset(d: dict, identified: bool = True):
    from modssc.data_loader.types import LoadedDataset, Split

    def part(a):
        return Split(X=a["raw.X"], y=a["raw.y"], edges=a.get("graph.edge_index"),
                     masks={"m": a["graph.mask.m"]} if "graph.mask.m" in a else None)
    meta = {"k": d["name"]}
    if d["mod"]:
        meta["modality"] = d["mod"]
    if identified:
        meta["dataset_fingerprint"] = "fp-" + d["name"]
    return LoadedDataset(train=part(d["tr"]), test=part(d["te"]) if d["hastest"] else None, meta=meta)


KINDS = {"KeyError": "missing artefact"}


def err_kind(e: Exception) -> str:
    m = str(e)
    if type(e).__name__ == "PreprocessValidationError":
        return "unknown step" if "Unknown step" in m else "no fitting rows" if "fit_indices is None" in m else m
    if isinstance(e, KeyError):
        return "missing artefact"
    return f"{type(e).__name__}: {m}"[:200]


def split_out(s) -> dict:
    e = s.edges
    if isinstance(e, dict) and set(e) == {"edge_index", "edge_weight"}:
        ei, ew = e["edge_index"], e["edge_weight"]
    else:
        ei, ew = e, None
    return dict(X=S.token(s.X), y=S.token(s.y), edges="-" if ei is None else S.token(ei),
                weight="-" if ew is None else S.token(ew),
                masks="-" if s.masks is None else ",".join(f"{k}={v}" for k, v in sorted(s.masks.items())))


NOSPLIT = dict(X="-", y="-", edges="-", weight="-", masks="-")


def call(ds, p: dict, *, seed: int, fit, cache: bool, cache_dir, purge: bool, reg) -> dict:
    from modssc.preprocess.api import preprocess

    S.LOG.clear()
    ev = dict(err="", run=[], skip=[], log=[], tr=NOSPLIT, te=NOSPLIT, hastest=False, atr={"-": "-"}, ate={"-": "-"}, fp="",
              meta=True, reasons=True)
    try:
        before = dict(ds.meta)
        r = preprocess(ds, to_plan(p), seed=seed, fit_indices=None if fit is None else np.asarray(fit, dtype=np.int64),
                       cache=cache, cache_dir=str(cache_dir), purge_unused_artifacts=purge, registry=reg)
        d = r.dataset
        ev.update(run=[dict(id=s.step_id, i=s.index + 1) for s in r.plan.steps],
                  skip=[dict(id=s.step_id, i=s.index + 1) for s in r.plan.skipped],
                  reasons=all(isinstance(s.reason, str) and s.reason for s in r.plan.skipped),
                  tr=split_out(d.train), fp=r.preprocess_fingerprint,
                  atr={"-": "-", **{k: S.token(v) for k, v in r.train_artifacts.data.items()}},
                  meta=ds.meta == before and all(d.meta.get(k) == v for k, v in before.items()))
        if d.test is not None:
            ev.update(hastest=True, te=split_out(d.test),
                      ate={"-": "-", **{k: S.token(v) for k, v in r.test_artifacts.data.items()}})
    except Exception as e:  # noqa: BLE001
        ev["err"] = err_kind(e)
    ev["log"] = [dict(id=a, role=b, v=c) for a, b, c in S.LOG]
    return ev


def digest_result(ev: dict) -> str:
    return enc.digest(ev["err"] and "error", ev["tr"], ev["te"], ev["hastest"])
