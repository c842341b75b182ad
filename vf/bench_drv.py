"""Runs of the real benchmark driver with scripted methods and scripted metrics.

Each history runs in a forked child with directories of its own; what the methods and the
metrics see is recorded in LOG, what the run leaves behind is read from its directories."""
from __future__ import annotations

import copy
import json
import logging
import os
import pathlib
import shutil
import tempfile
from dataclasses import dataclass, field
from typing import Any

import numpy as np

from vf import enc

LOG: list = []
CTL: dict = {}
READY = []


@dataclass(frozen=True)
class Spec:
    a: Any = 0
    b: Any = 0
    c: Any = "c0"
    batch_size: Any = None
    sup_batch_size: Any = None
    classifier_params: Any = field(default_factory=dict)


class Scripted:
    kind = "?"

    def __init__(self, spec=None):
        self.spec = spec if spec is not None else Spec()

    def fit(self, data, *, device=None, seed=0):
        e = dict(op="fit", kind=self.kind, spec=self.spec, seed=int(seed), device=device, data=data)
        LOG.append(e)
        hook = CTL.get("fit")
        if hook:
            hook(self, e)
        self.n = 0
        return self

    def predict_proba(self, X):
        LOG.append(dict(op="predict", X=X))
        hook = CTL.get("predict")
        if hook:
            return hook(self, X)
        x = X.X if hasattr(X, "X") else X
        n = int(np.asarray(x).shape[0])
        return np.tile(np.arange(CTL.get("classes", 2), dtype=float), (n, 1))


def _info(kind, mid):
    if kind == "inductive":
        from modssc.inductive.base import MethodInfo
    else:
        from modssc.transductive.base import MethodInfo
    return MethodInfo(method_id=mid, name=mid, year=2000, family="scripted") if kind == "inductive" else MethodInfo(method_id=mid, name=mid, year=2000, family="scripted")


class Ind(Scripted):
    kind = "inductive"


class Trans(Scripted):
    kind = "transductive"


@dataclass(frozen=True)
class BackSpec:
    a: Any = 0
    backend: str = "auto"


class Back(Scripted):
    kind = "inductive"

    def __init__(self, spec=None):
        self.spec = spec if spec is not None else BackSpec()


def metric(name):
    def f(y_true, y_pred):
        LOG.append(dict(op="metric", name=name, y_true=np.array(y_true), y_pred=np.array(y_pred)))
        hook = CTL.get("metric")
        return float(hook(name, y_true, y_pred)) if hook else 0.0
    return f


METRIC_NAMES = ("vf_score", "vf_other")


def install():
    """Register the scripted parts through the public registries, before the driver is imported."""
    if READY:
        return
    from modssc.evaluation import metrics as m
    from modssc.inductive import registry as ir
    from modssc.transductive import registry as tr
    for n in METRIC_NAMES:
        m.METRICS[n] = metric(n)
    Ind.info, Trans.info, Back.info = _info("inductive", "vf_ind"), _info("transductive", "vf_trans"), _info("inductive", "vf_back")
    ir.available_methods(), tr.available_methods()
    ir.register_method("vf_ind", "vf.bench_drv:Ind", status="implemented")
    ir.register_method("vf_back", "vf.bench_drv:Back", status="implemented")
    tr.register_method("vf_trans", "vf.bench_drv:Trans", status="implemented")
    import bench.main  # noqa: F401
    READY.append(1)


def base(kind="inductive", **over):
    """A small configuration that runs."""
    cfg = {
        "run": {"name": "r", "seed": 3, "output_dir": "out", "fail_fast": False},
        "dataset": {"id": "toy", "options": {"n_samples": 24, "n_features": 2, "n_classes": 2, "seed": 1}},
        "sampling": {"seed": 5, "plan": {
            "split": {"kind": "holdout", "test_fraction": 0.25, "val_fraction": 0.25, "stratify": False, "shuffle": True},
            "labeling": {"mode": "fraction", "value": 0.5, "strategy": "proportional", "min_per_class": 1},
            "imbalance": {"kind": "none"},
            "policy": {"respect_official_test": True, "allow_override_official": False}}},
        "preprocess": {"seed": 6, "cache": False, "plan": {"output_key": "features.X", "steps": [{"id": "core.ensure_2d"}, {"id": "core.to_numpy"}]}},
        "method": {"kind": kind, "id": "vf_ind" if kind == "inductive" else "vf_trans", "device": {"device": "cpu", "dtype": "float32"}, "params": {"a": 1}},
        "evaluation": {"split_for_model_selection": "val", "report_splits": ["val", "test"], "metrics": ["vf_score"]},
    }
    if kind == "transductive":
        cfg["graph"] = {"enabled": True, "seed": 7, "cache": False,
                        "spec": {"scheme": "knn", "k": 3, "metric": "euclidean", "backend": "numpy", "symmetrize": "or"}}
    for k, v in over.items():
        cfg[k] = v
    return cfg


def read_run(d: pathlib.Path):
    out = dict(dir=d.name, files=sorted(str(p.relative_to(d)) for p in d.rglob("*") if p.is_file()), run=None, config=None, trials=None, error=None)
    import yaml
    if (d / "run.json").exists():
        try:
            out["run"] = json.loads((d / "run.json").read_text())
        except ValueError:  # a killed run may leave a part of it
            out["torn"] = True
    if (d / "config.yaml").exists():
        out["config"] = yaml.safe_load((d / "config.yaml").read_text())
    if (d / "hpo" / "trials.jsonl").exists():
        out["trials"] = [json.loads(x) for x in (d / "hpo" / "trials.jsonl").read_text().splitlines()]
    if (d / "error.txt").exists():
        out["error"] = (d / "error.txt").read_text()
    return out


class Home:
    """A scratch place for one history."""

    def __enter__(self):
        self.root = pathlib.Path(tempfile.mkdtemp(prefix="vfbench", dir=os.environ.get("VF_SCRATCH")))
        os.environ["MODSSC_CACHE_ROOT"] = str(self.root / "cache")
        for k in ("MODSSC_CACHE_DIR", "MODSSC_OUTPUT_DIR", "MODSSC_PREPROCESS_CACHE_DIR", "MODSSC_GRAPH_CACHE_DIR"):
            os.environ.pop(k, None)
        self.cwd = os.getcwd()
        os.chdir(self.root)
        logging.disable(logging.CRITICAL)
        self.n = 0
        return self

    def __exit__(self, *a):
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)

    def write(self, cfg, name=None):
        import yaml
        self.n += 1
        p = self.root / (name or f"cfg{self.n}-{os.getpid()}.yaml")
        p.write_text(yaml.safe_dump(cfg, sort_keys=False) if not isinstance(cfg, str) else cfg)
        return p

    def run(self, cfg, num_runs=None):
        """(outcome, log): outcome is code, or the exception's name and text."""
        from bench.main import run_experiment
        LOG.clear()
        p = self.write(cfg)
        try:
            code = run_experiment(p, num_runs=num_runs) if num_runs is not None else run_experiment(p)
            out = dict(raised="", text="", code=int(code))
        except Exception as ex:  # noqa: BLE001
            out = dict(raised=type(ex).__name__, text=str(ex)[:300], code=-1, ecode=str(getattr(ex, "code", "")))
        return out, list(LOG)

    def out_dirs(self, cfg):
        d = self.root / cfg["run"].get("output_dir", "modssc_cache/output")
        return sorted((x for x in d.iterdir() if x.is_dir()), key=lambda x: x.name) if d.exists() else []


def set_path(d, dotted, v):
    ks = dotted.split(".")
    for k in ks[:-1]:
        d = d.setdefault(k, {})
    d[ks[-1]] = v


def seed_name(s):
    return f"s{int(s)}"


def toks(params):
    return enc.tok(copy.deepcopy(params))
