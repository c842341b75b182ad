"""A dataset provider whose every read is numbered, so that its traces are visible in the data."""
from __future__ import annotations

import os
import pathlib
import time

import numpy as np

CONTROL: dict = {"dir": None, "shape": "std", "marks": None}


def install() -> None:
    from modssc.data_loader import providers

    providers.PROVIDERS["vfprov"] = "vf.fakeprov:FakeProvider"


def content(name: str, k: int, shape: str = "std"):
    """The dataset that read number k of dataset `name` returns (k visible in every part)."""
    from modssc.data_loader.types import LoadedDataset, Split

    n = 3 + (k % 3)
    base = k * 100
    X = (np.arange(n * 2).reshape(n, 2) + base).astype(np.float32)
    y = np.arange(n, dtype=np.int64) + base
    train = Split(X=X, y=y)
    test = None
    if shape == "graph":
        edges = np.array([[0, 1, 2], [1, 2, 0]], dtype=np.int64)
        train = Split(X=X, y=y, edges=np.concatenate([edges, np.full((2, 1), k % n)], axis=1),
                      masks={"train": np.arange(n) % 2 == k % 2, "val": np.arange(n) == 0})
    elif shape == "text":
        train = Split(X=np.array([f"{name} {k} é {i}" for i in range(n)], dtype=object),
                      y=np.array([f"c{k}_{i % 2}" for i in range(n)], dtype=object))
        test = Split(X=np.array([f"t {k} {i}" for i in range(2)], dtype=object),
                     y=np.array([f"c{k}_0", f"c{k}_1"], dtype=object))
    elif k % 2 == 0 or shape == "both":
        test = Split(X=X[:2] + 50, y=y[:2] + 50)
    return LoadedDataset(train=train, test=test, meta={"ver": k, "name": name, "modality": "tabular"})


def counter_path(name: str) -> pathlib.Path:
    return pathlib.Path(CONTROL["dir"]) / f"reads-{name}"


def reads(name: str) -> int:
    p = counter_path(name)
    return int(p.read_text()) if p.exists() else 0


def set_fail(name: str, on: bool) -> None:
    p = pathlib.Path(CONTROL["dir"]) / f"fail-{name}"
    if on:
        p.write_text("x")
    elif p.exists():
        p.unlink()


class FakeProvider:
    name = "vfprov"
    required_extra = None

    def resolve(self, parsed, *, options):
        from modssc.data_loader.types import DatasetIdentity

        opts = dict(options)
        ident = opts.pop("_identity", {})
        name = parsed.reference
        return DatasetIdentity(
            provider="vfprov", canonical_uri=ident.get("canonical_uri", f"vfprov:{name}"),
            dataset_id=ident.get("dataset_id", name), version=ident.get("version", "1"),
            modality=ident.get("modality", "tabular"), task=ident.get("task", "classification"),
            required_extra=None, resolved_kwargs=opts)

    def load_canonical(self, identity, *, raw_dir):
        name = identity.dataset_id
        p = counter_path(name)
        k = reads(name) + 1
        p.write_text(str(k))
        marks = CONTROL.get("marks")
        if marks:
            # observable inside/outside of the read (and a stop for the scheduler)
            fd = os.open(f"{marks}/enter-{os.getpid()}-{name}", os.O_CREAT | os.O_WRONLY)
            os.close(fd)
        if CONTROL.get("failhere") or (pathlib.Path(CONTROL["dir"]) / f"fail-{name}").exists():
            if marks:
                os.unlink(f"{marks}/enter-{os.getpid()}-{name}")
            raise ConnectionError("provider failed")
        ds = content(name, k, CONTROL["shape"])
        if CONTROL.get("hook"):
            ds = CONTROL["hook"](identity, k)
        if marks:
            os.unlink(f"{marks}/enter-{os.getpid()}-{name}")
        return ds

    def list(self, *, query=None):
        return None
