"""H01: see spec/Hpo.tla and spec/HpoTrace.tla."""
from __future__ import annotations

import copy
import itertools
import json
import math
import os
import random
import subprocess
import sys

import numpy as np

from vf import enc

KEYS = ["a", "b", "lr", "opt", "z", "A", "b1", "values", "low", "k_0"]


def mk_space(r, kinds, depth=3, plain=True):
    """A nested space: [(path, kind, payload)]."""
    out = []

    def walk(prefix, d):
        names = r.sample(KEYS, r.randint(1, 3))
        for k in names:
            if d > 0 and r.random() < 0.4:
                walk(prefix + (k,), d - 1)
            else:
                out.append((prefix + (k,), *leaf(r, r.choice(kinds))))

    walk(("method", "params") if r.random() < 0.7 else (), depth - 1)
    while len(out) > 5:
        out.pop(r.randrange(len(out)))
    return sorted(out, key=lambda x: x[0])


def leaf(r, kind):
    if kind in ("list", "choice"):
        n = r.choice([1, 2, 2, 3, 4])
        pool = [0, 1, 2, -1, 0.5, 1.0, "x", "y", "", True, False, None, [1, 2], [], "1", 10**12]
        v = r.sample(pool, n)
        if r.random() < 0.15:
            v.append(v[0])
        return kind, v
    if kind == "randint":
        lo = r.choice([0, 1, -5, 10**9])
        return kind, (lo, lo + r.choice([1, 2, 5, 100]))
    if kind == "uniform":
        lo = r.choice([0, 0.0, -1.5, 1e-9, 1e6])
        return kind, (lo, lo + r.choice([1, 0.25, 3e5]))
    lo = r.choice([1e-5, 1, 0.1, 1e-300, 3e7, 1e300])
    hi = lo * r.choice([10, 1.5, 1e4]) if r.random() < 0.7 else float(np.nextafter(lo * 1.0, math.inf))
    return "loguniform", (lo, hi)


def to_dict(leaves, r=None):
    """The mapping that declares the leaves, its keys in any order."""
    d = {}
    for path, kind, p in (r.sample(leaves, len(leaves)) if r else leaves):
        cur = d
        for k in path[:-1]:
            cur = cur.setdefault(k, {})
        if kind == "list":
            cur[path[-1]] = copy.deepcopy(p)
        elif kind == "choice":
            it = [("dist", "choice"), ("values", copy.deepcopy(p))]
            cur[path[-1]] = dict(it if r is None or r.random() < 0.5 else it[::-1])
        else:
            it = [("dist", kind), ("low", p[0]), ("high", p[1])]
            cur[path[-1]] = dict(r.sample(it, 3) if r else it)
    return d


def tokens(leaves):
    return [dict(path=list(p), kind=k, vals=[enc.tok(x) for x in v] if k in ("list", "choice") else [],
                 wide=k in ("uniform", "loguniform") and v[1] > v[0] * 1.2 and v[1] - v[0] > 0) for p, k, v in leaves]


def look(d, path):
    for k in path:
        d = d[k]
    return d


def read(leaves, tr):
    """The trial's value of every leaf, and whether the patch is nothing but these."""
    vals, whole = [], {}
    for path, kind, p in leaves:
        v = look(tr.patch, path)
        sg = lambda x: (x > 0) - (x < 0)  # noqa: E731
        rng = kind in ("randint", "uniform", "loguniform")
        vals.append(dict(tok=enc.tok(v), type=type(v).__name__, above=sg(v - p[0]) if rng else 0, below=sg(p[1] - v) if rng else 0))
        cur = whole
        for k in path[:-1]:
            cur = cur.setdefault(k, {})
        cur[path[-1]] = v
    flat = {".".join(p): look(tr.patch, p) for p, _, _ in leaves}
    return vals, enc.tok(whole) == enc.tok(tr.patch), [enc.tok(tr.params.get(".".join(p), "missing")) for p, _, _ in leaves] if len(flat) == len(tr.params) else ["?"]


def leaves_of(d):
    out = []

    def walk(n, p):
        if isinstance(n, dict) and n:
            for k in n:
                walk(n[k], p + [k])
        else:
            out.append(dict(p=p, v=enc.tok(n)))

    walk(d, [])
    return sorted(out, key=lambda x: json.dumps(x["p"]))


def scribble(o):
    if isinstance(o, dict):
        for k in list(o):
            scribble(o[k])
        o["scribbled"] = 1
    elif isinstance(o, list):
        for x in o:
            scribble(x)
        o.append("scribbled")


def rand_base(r, leaves):
    base = {"run": {"seed": r.randrange(9)}, "method": {"params": {"keep": [1, {"x": [2]}], "opt": r.choice([{"lr": 1, "deep": {"q": [3]}}, 5, {}])}, "kind": "inductive"}}
    for path, _, _ in leaves:
        if r.random() < 0.6:
            cur = base
            for k in path[:-1]:
                if not isinstance(cur.get(k), dict):
                    cur[k] = {"other": 4} if r.random() < 0.5 else {}
                cur = cur[k]
            cur[path[-1]] = r.choice([0, "old", None, [7, [8]]])
    return base


def bad_space(r):
    good = to_dict(mk_space(r, ["list"]))
    bad = r.choice([
        {}, {"a": []}, {"a": {}}, {"a": 3}, {"a": "x"}, {"a": None}, {"": [1]}, {1: [1]}, [1], None, {"a": {"b": {"c": []}}},
        {"a": {"dist": "normal", "low": 0, "high": 1}}, {"a": {"dist": "uniform"}}, {"a": {"dist": "uniform", "low": 0}},
        {"a": {"dist": "uniform", "high": 1}}, {"a": {"dist": "uniform", "low": 1, "high": 1}}, {"a": {"dist": "uniform", "low": 2, "high": 1}},
        {"a": {"dist": "uniform", "low": "0", "high": 1}}, {"a": {"dist": "uniform", "low": True, "high": 2}},
        {"a": {"dist": "uniform", "low": 0, "high": 1, "values": [1]}}, {"a": {"dist": "uniform", "low": 0, "high": 1, "step": 1}},
        {"a": {"dist": "uniform", "low": math.nan, "high": 1}}, {"a": {"dist": "uniform", "low": 0, "high": math.inf}}, {"a": {"dist": "uniform", "low": -math.inf, "high": 0.0}},
        {"a": {"dist": "uniform", "low": 0, "high": math.nan}}, {"a": {"dist": "loguniform", "low": 1, "high": math.nan}}, {"a": {"dist": "loguniform", "low": 1, "high": math.inf}},
        {"a": {"dist": "loguniform", "low": 0, "high": 1}}, {"a": {"dist": "loguniform", "low": -1, "high": 1}}, {"a": {"dist": "loguniform", "low": 2, "high": 1}}, {"a": {"dist": "loguniform", "low": 1}},
        {"a": {"dist": "loguniform", "low": 1, "high": 2, "values": [1]}},
        {"a": {"dist": "randint", "low": 0, "high": 0}}, {"a": {"dist": "randint", "low": 0.5, "high": 3}}, {"a": {"dist": "randint", "low": 0, "high": 3.0}}, {"a": {"dist": "randint", "low": False, "high": 3}}, {"a": {"dist": "randint", "low": 4, "high": 3}},
        {"a": {"dist": "randint", "high": 3}}, {"a": {"dist": "randint", "low": 0, "high": 3, "values": [1]}},
        {"a": {"dist": "choice"}}, {"a": {"dist": "choice", "values": []}}, {"a": {"dist": "choice", "values": (1, 2)}}, {"a": {"dist": "choice", "values": [1], "low": 0}}, {"a": {"dist": "choice", "values": [1], "high": 0}},
        {"a": {"dist": "choice", "values": "ab"}}, {"a": {"dist": None, "values": [1]}}, {"a": {"dist": "", "values": [1]}}, {"a": {"dist": 1}}, {"a": {"dist": "Uniform", "low": 0, "high": 1}}, {"dist": "uniform", "low": 0, "high": 1},
    ])
    if isinstance(bad, dict) and bad and "dist" not in bad and r.random() < 0.5 and all(isinstance(k, str) for k in bad):
        bad = {**bad, **{k: v for k, v in good.items() if k not in bad}}
        if r.random() < 0.5:
            bad = {"outer": bad}
    return bad


def stir(r):
    np.random.seed(r.randrange(1 << 30)), random.seed(r.randrange(1 << 30)), np.random.rand(r.randrange(5))


def trace(args):
    from modssc.hpo import Space, deep_merge

    i, seed, n = args
    r = random.Random(seed * 3_000_017 + i)
    ev = []
    spaces = [mk_space(r, ["list", "choice"]), mk_space(r, ["list", "choice", "uniform", "randint", "loguniform"]), mk_space(r, ["uniform", "loguniform"])]
    while math.prod(len(p) for _, _, p in spaces[0]) > 150:
        spaces[0].pop()
    seeds = [r.randrange(1 << r.choice([2, 31, 60])) for _ in range(2)]
    for _ in range(n):
        w = r.random()
        j = r.randrange(3)
        leaves = spaces[j]
        d = to_dict(leaves, r)
        before = enc.tok(d)
        if w < 0.3:
            j = 0
            leaves = spaces[0]
            d = to_dict(leaves, r)
            before = enc.tok(d)
            e = dict(kind="grid", space=f"{j}", leaves=tokens(leaves), trials=[], idx=[], params=[], whole=True, err="")
            try:
                for tr in Space.from_dict(d).iter_grid():
                    v, wh, fl = read(leaves, tr)
                    e["trials"].append([x["tok"] for x in v]), e["idx"].append(tr.index), e["params"].append(fl)
                    e["whole"] &= wh
            except Exception as ex:  # noqa: BLE001
                e["err"] = f"{type(ex).__name__}: {ex}"[:100]
            e["whole"] &= enc.tok(d) == before
            ev.append(e)
        elif w < 0.6:
            s, m = r.choice(seeds), r.choice([1, 2, 5, 9, 9, 20, 70, 130])
            e = dict(kind="random", space=f"{j}", seed=str(s), n=m, leaves=tokens(leaves), trials=[], idx=[], params=[], whole=True, err="")
            try:
                stir(r)
                sp = Space.from_dict(d)
                other = sp.iter_random(r.choice(seeds), 7)
                for tr in sp.iter_random(s, m):
                    if r.random() < 0.4:
                        next(other, None)
                        stir(r)
                    v, wh, fl = read(leaves, tr)
                    e["trials"].append(v), e["idx"].append(tr.index), e["params"].append(fl)
                    e["whole"] &= wh
            except Exception as ex:  # noqa: BLE001
                e["err"] = f"{type(ex).__name__}: {ex}"[:100]
            e["whole"] &= enc.tok(d) == before
            ev.append(e)
        elif w < 0.8:
            base = rand_base(r, leaves)
            b0 = leaves_of(base)
            sp = Space.from_dict(d)
            trs = list(sp.iter_random(r.choice(seeds), 3))
            tr = r.choice(trs)
            p0 = leaves_of(tr.patch)
            merged = deep_merge(base, tr.patch)
            ev.append(dict(kind="merge", base=b0, patch=p0, merged=leaves_of(merged), after=leaves_of(base), patchafter=leaves_of(tr.patch)))
            view = lambda: [leaves_of(base), [leaves_of(t.patch) for t in trs], enc.tok(d), [enc.tok(t.params) for t in trs]]  # noqa: E731
            v0 = view()
            again = [enc.tok(t.patch) for t in sp.iter_random(1, 2)]
            scribble(merged)
            ev.append(dict(kind="keep", same=view() == v0 and [enc.tok(t.patch) for t in sp.iter_random(1, 2)] == again))
        else:
            b = bad_space(r)
            e = dict(kind="bad", err="", what=repr(b)[:200])
            try:
                sp = Space.from_dict(b)
            except Exception as ex:  # noqa: BLE001
                e["err"] = type(ex).__name__
            ev.append(e)
            if r.random() < 0.3:
                e = dict(kind="bad", err="", what="n_trials / grid over a range")
                try:
                    if r.random() < 0.5:
                        list(Space.from_dict(d).iter_random(1, r.choice([0, -1, -5])))
                    else:
                        dd = {**to_dict(spaces[0]), "w": {"dist": r.choice(["uniform", "loguniform", "randint"]), "low": 1, "high": 3}}
                        list(Space.from_dict(dd).iter_grid())
                except Exception as ex:  # noqa: BLE001
                    e["err"] = type(ex).__name__
                ev.append(e)
    return dict(id=f"h{i}", key="space", ev=ev)


def occur(args):
    """Over many draws every value of a short list, and every part of a range, occurs."""
    from modssc.hpo import Space

    i, seed = args
    r = random.Random(seed * 91 + i)
    leaves = [(("l",), "list", list(range(r.randint(1, 5)))), (("c",), "choice", ["u", "v", "w"]), (("n",), "randint", (3, 3 + r.randint(1, 5))),
              (("u",), "uniform", (-1.0, 3.0)), (("g",), "loguniform", (1e-4, 1e2))]
    got = {p[0]: [] for p, _, _ in leaves}
    for t in Space.from_dict(to_dict(leaves, r)).iter_random(r.randrange(1 << 31), 400):
        for k in got:
            got[k].append(t.patch[k])
    q = lambda xs, cuts: len({sum(x >= c for c in cuts) for x in xs}) == len(cuts) + 1  # noqa: E731
    seen = [set(got["l"]) == set(leaves[0][2]), set(got["c"]) == {"u", "v", "w"}, set(got["n"]) == set(range(*leaves[2][2])),
            q(got["u"], [0.0, 1.0, 2.0]), q(got["g"], [1e-3, 1e-2, 1e-1, 1e0, 1e1])]
    return dict(id=f"o{i}", key="occur", ev=[dict(kind="many", seen=seen)])


def remote(n, seed):
    from modssc.hpo import Space

    out = []
    for i in range(n):
        r = random.Random(seed * 5 + i)
        leaves = mk_space(r, ["list", "choice", "uniform", "randint", "loguniform"])
        s = r.randrange(1 << 40)
        e = dict(kind="random", space="x", seed=str(s), n=4, leaves=tokens(leaves), trials=[], idx=[], params=[], whole=True, err="")
        for tr in Space.from_dict(to_dict(leaves)).iter_random(s, 4):
            v, wh, fl = read(leaves, tr)
            e["trials"].append(v), e["idx"].append(tr.index), e["params"].append(fl)
        out.append(e)
    return out


def run(ctx):
    from vf.proc import pmap
    import modssc.hpo  # noqa: F401

    base = "SPECIFICATION Spec\nCONSTANTS\n MaxLeaves=3\n MaxVals=%d\n CarryLost=%s\n InPlace=%s\nINVARIANT Complete\nINVARIANT NoRepeat\nINVARIANT BaseKept\nINVARIANT OnlyDeclared\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("HpoModel", cfg_text=base % (ctx.pick(3, 4), "FALSE", "FALSE"), workers=8)
    ctx.model_check("HpoModel", cfg_text=base % (2, "TRUE", "FALSE"), expect="Complete is violated")
    ctx.model_check("HpoModel", cfg_text=base % (2, "FALSE", "TRUE"), expect="BaseKept is violated")
    traces = pmap(trace, [(i, ctx.seed, 10) for i in range(ctx.pick(300, 8000))]) + pmap(occur, [(i, ctx.seed) for i in range(ctx.pick(14, 140))])
    n = ctx.pick(40, 400)
    here = remote(n, ctx.seed)
    p = subprocess.run([sys.executable, "-c", f"import json; from vf.checks import h01; print('RR'+json.dumps(h01.remote({n},{ctx.seed})))"],
                       capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED="77"), timeout=300)
    line = [z for z in p.stdout.splitlines() if z.startswith("RR")]
    if not line:
        raise RuntimeError(p.stderr[-800:])
    traces += [dict(id=f"r{k}", key="process", ev=[a, b]) for k, (a, b) in enumerate(zip(here, json.loads(line[0][2:])))]
    for t in traces:
        for e in t["ev"]:
            ctx.nontrivial.add(enc.digest(e))
    ctx.notes["rule"] = "distinct recorded enumerations, draws, merges and rejections"
    ctx.judge("HpoTrace", traces, workers=8)
