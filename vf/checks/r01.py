"""R01: see spec/Registry.tla and spec/RegistryTrace.tla.

Every trace is made in a process of its own, forked before anything of ModSSC was imported."""
from __future__ import annotations

import os
import random
import sys
import threading
from importlib import import_module

from vf import enc

HEAVY = {"torch", "torch_geometric", "sklearn", "transformers", "faiss", "tensorflow", "tensorflow_datasets", "torchaudio", "torchvision",
         "datasets", "openml", "sentence_transformers", "open_clip", "scipy", "pandas", "librosa", "soundfile", "PIL"}
METHODS = ("inductive", "transductive")
STATIC = ("step", "model", "dataset", "provider", "metric")
ALL = METHODS + ("classifier", "backend", "op") + STATIC
MODALITIES = {"op": ["vision", "text", "tabular", "audio", "graph"], "model": ["text", "vision", "audio"]}
LIGHT = {"inductive": ["pseudo_label", "self_training", "co_training"], "transductive": ["label_propagation", "tsvm", "laplace_learning"],
         "classifier": ["knn", "svm_rbf", "logreg"], "backend": ["knn/numpy", "knn/sklearn", "logreg/torch"],
         "op": ["text.lowercase", "core.identity", "tabular.swap_noise", "vision.cutout"],
         "step": ["core.to_numpy", "core.pca", "labels.encode"], "model": ["stub:text", "stub:audio"], "dataset": ["toy", "iris"],
         "provider": ["toy", "hf", "pyg"], "metric": ["accuracy", "macro_f1"]}
PATHS = ["vf.regtargets:Alpha", "vf.regtargets:Beta"]
BAD_PATHS = ["nocolon", "a:b:c", ":", "m:", ":C", "", None, 7, b"m:C", "vf.regtargets:Alpha:"]


def reg_mod(reg):
    return import_module({"inductive": "modssc.inductive.registry", "transductive": "modssc.transductive.registry",
                          "classifier": "modssc.supervised.api", "backend": "modssc.supervised.registry",
                          "op": "modssc.data_augmentation.registry", "step": "modssc.preprocess.registry",
                          "model": "modssc.preprocess.models", "dataset": "modssc.data_loader.api",
                          "provider": "modssc.data_loader.providers", "metric": "modssc.evaluation.metrics"}[reg])


def path_of(o):
    return f"{o.__module__}:{o.__qualname__}"


def load(path):
    mod, _, name = path.partition(":")
    o = import_module(mod)
    for part in name.split("."):
        o = getattr(o, part)
    return o


def listing(reg, filt):
    m = reg_mod(reg)
    if reg in METHODS:
        return m.available_methods(available_only=(filt == "usable"))
    if reg == "classifier":
        return [d["key"] for d in m.available_classifiers()] if filt == "all" else import_module("modssc.supervised.registry").list_classifiers()
    if reg == "backend":
        return [f"{d['key']}/{b}" for d in import_module("modssc.supervised.api").available_classifiers() for b in d["backends"]]
    if reg == "op":
        return m.available_ops() if filt == "all" else m.available_ops(modality=filt)
    if reg == "step":
        return m.available_steps()
    if reg == "model":
        return m.available_models() if filt == "all" else m.available_models(modality=filt)
    if reg == "dataset":
        return m.available_datasets()
    if reg == "provider":
        return m.get_provider_names() if filt == "all" else import_module("modssc.data_loader.api").available_providers()
    return m.list_metrics()


def backend_target(d):
    return f"{d['factory']}|{d['required_extra']}|{bool(d['supports_gpu'])}|{d['notes']}"


def lookup(reg, name, builtin, deep=False):
    """(target, the name it describes itself under, the answer itself)"""
    m = reg_mod(reg)
    if reg in METHODS:
        c = m.get_method_class(name)
        return path_of(c), (m.get_method_info(name).method_id if builtin else name), None
    if reg == "classifier":
        d = m.classifier_info(name)
        return f"{d['description']}|{tuple(d['preferred_backends'])}", d["key"], d
    if reg == "backend":
        c, _, b = name.partition("/")
        bs = m.get_backend_spec(c, b)
        info = import_module("modssc.supervised.api").classifier_info(c)
        says = f"{c}/{bs.backend}"
        if backend_target(info["backends"][b]) != backend_target(vars(bs)):
            says = "two answers"
        if deep and builtin:
            cls = load(bs.factory)
            says = f"{cls.classifier_id}/{cls.backend}"
        return backend_target(vars(bs)), says, info
    if reg == "op":
        d = m.op_info(name)
        o = m.get_op(name)
        says = d["op_id"]
        if builtin and (o.op_id != name or d["modality"] != o.modality):
            says = f"{o.op_id} {o.modality}"
        return path_of(type(o)), says, d
    if reg in ("step", "model"):
        d = m.step_info(name) if reg == "step" else m.model_info(name)
        if deep:
            assert isinstance(load(d["import_path"]), type)
        if reg == "model" and m.model_spec(name).model_id != d["id"]:
            return d["import_path"], "two answers", d
        return f"{d['import_path']}|{d.get('default_kwargs')}|{d.get('modalities', d.get('modality'))}|{d['required_extra']}", d["id"], d
    if reg == "dataset":
        s = m.dataset_info(name)
        p = import_module("modssc.data_loader.providers").create_provider(s.provider)
        return f"{s.uri}|{sorted(s.source_kwargs.items()) if s.source_kwargs else ''}", s.key if p.name == s.provider else p.name, None
    if reg == "provider":
        p = m.create_provider(name)
        return path_of(type(p)), p.name, None
    import numpy as np

    y = np.array([0, 1, 1, 2])
    r = m.evaluate(y, y, [name])
    m.METRICS  # noqa: B018
    return name, (name if r == {name: 1.0} else str(r)), r


def unknown_errors(reg):
    if reg in METHODS:
        return (KeyError,)
    if reg in ("classifier", "backend"):
        e = import_module("modssc.supervised.errors")
        return (e.UnknownClassifierError,) if reg == "classifier" else (e.UnknownBackendError, e.UnknownClassifierError)
    if reg == "op":
        return (import_module("modssc.data_augmentation.errors").DataAugmentationValidationError,)
    if reg in ("step", "model"):
        return (import_module("modssc.preprocess.errors").PreprocessValidationError,)
    if reg in ("dataset", "provider"):
        e = import_module("modssc.data_loader.errors")
        return (e.UnknownDatasetError,) if reg == "dataset" else (e.ProviderNotFoundError,)
    return (ValueError,)


# ------------------------------------------------------------------ calls
def do_list(reg, filt, base=None):
    ev = dict(op="list", reg=reg, filter=filt, names=[], heavy=[], out="ok")
    try:
        ev["names"] = [str(x) for x in listing(reg, filt)]
    except Exception as e:  # noqa: BLE001
        ev["out"] = f"crash:{type(e).__name__}: {e}"[:200]
    if base is not None:
        ev["heavy"] = sorted((HEAVY & {x.split(".")[0] for x in set(sys.modules)}) - base)
    if reg in ("dataset", "classifier", "backend", "provider") and filt not in ("all",):
        ev["filter"] = "all"
    return ev


def do_get(reg, name, builtin, deep=False, keep=None):
    ev = dict(op="get", reg=reg, id=name, out="ok", target="", says="")
    try:
        ev["target"], ev["says"], ans = lookup(reg, name, builtin, deep)
        if keep is not None and ans is not None:
            keep.append(ans)
    except unknown_errors(reg) as e:
        ev["out"] = "unknown"
        if reg in METHODS and type(e) is not KeyError:
            ev["out"] = f"crash:{type(e).__name__}"
    except Exception as e:  # noqa: BLE001
        ev["out"] = f"crash:{type(e).__name__}: {e}"[:200]
    return ev


def do_register(reg, name, what, kind="implemented", ops=()):
    """what: a path (methods), (description, preferred) | (factory, extra, gpu, notes) | an operation class"""
    idk = "name" if isinstance(name, str) else "other"
    ev = dict(op="register", reg=reg, id=str(name), idkind=idk, parent="", target="", kind=str(kind), pathkind="text", parts=[""], complete=True, out="ok")
    own: tuple = (ValueError,)
    if reg in METHODS:
        ev["target"] = str(what)
        ev["pathkind"] = "text" if isinstance(what, str) else "other"
        ev["parts"] = what.split(":") if isinstance(what, str) else [""]
    elif reg == "classifier":
        ev["target"], ev["kind"] = f"{what[0]}|{tuple(what[1])}", ""
    elif reg == "backend":
        ev["target"] = backend_target(dict(zip(("factory", "required_extra", "supports_gpu", "notes"), what)))
        ev["parent"], ev["kind"] = name.split("/")[0], ""
    else:
        ev["target"], ev["kind"] = path_of(what), str(getattr(what, "modality", "none"))
        ev["complete"] = hasattr(what, "op_id") and hasattr(what, "modality")
    try:
        if reg in METHODS:
            reg_mod(reg).register_method(name, what, status=kind)
        elif reg == "classifier":
            import_module("modssc.supervised.registry").register_classifier(key=name, description=what[0], preferred_backends=tuple(what[1]))
        elif reg == "backend":
            c, b = name.split("/")
            own = (ValueError,) + unknown_errors("classifier")
            reg_mod(reg).register_backend(classifier_id=c, backend=b, factory=what[0], required_extra=what[1], supports_gpu=what[2], notes=what[3])
        else:
            own = unknown_errors("op")
            reg_mod("op").register_op(name)(what)
    except own:
        ev["out"] = "refused"
    except Exception as e:  # noqa: BLE001
        ev["out"] = f"crash:{type(e).__name__}: {e}"[:200]
    return ev


def spoil(ans, depth=0):
    """Change everything inside an answer a lookup gave."""
    if depth > 4:
        return
    if isinstance(ans, dict):
        for k, v in list(ans.items()):
            if isinstance(v, (dict, list)):
                spoil(v, depth + 1)
            else:
                ans[k] = "spoiled"
        ans["spoiled"] = 1
    elif isinstance(ans, list):
        for v in ans:
            spoil(v, depth + 1)
        ans.append("spoiled")


# ------------------------------------------------------------------ scenarios
def builtins():
    out = []
    for reg in ALL:
        usable = set(listing(reg, "usable")) if reg in METHODS else set()
        for name in listing(reg, "all"):
            kind = ""
            if reg in METHODS:
                kind = "implemented" if name in usable else "planned"
            elif reg in MODALITIES:
                kind = reg_mod(reg).op_info(name)["modality"] if reg == "op" else reg_mod(reg).model_info(name)["modality"]
            try:
                target = lookup(reg, name, True)[0]
            except Exception as e:  # noqa: BLE001
                target = f"unresolvable: {e}"[:120]
            out.append(dict(reg=reg, id=name, target=target, kind=kind))
    return out


TABLE: list = []


def table(*regs):
    return [b for b in TABLE if b["reg"] in regs]


def known(reg):
    return {b["id"]: b for b in TABLE if b["reg"] == reg}


def any_register(r, reg, ops, used):
    kn = known(reg)
    name = r.choice(LIGHT[reg] + ["vf.new", "vf.other", "vf.new", " vf.new", "VF.new"])
    if reg in METHODS:
        if r.random() < 0.25:
            what = r.choice(BAD_PATHS)
        elif name in kn and r.random() < 0.5:
            what = kn[name]["target"]
        else:
            what = r.choice(PATHS)
        kind = kn[name]["kind"] if name in kn else used.setdefault((reg, name), r.choice(["implemented", "planned"]))
        if r.random() < 0.12:
            kind = r.choice(["done", "", None, 3])
        if r.random() < 0.1:
            name = r.choice(["", None, 5, b"x", 0])
        return do_register(reg, name, what, kind)
    if reg == "classifier":
        if name in kn and r.random() < 0.5:
            d, _, p = kn[name]["target"].rpartition("|")
            return do_register(reg, name, (d, eval(p)))  # noqa: S307
        return do_register(reg, name, (r.choice(["one", "two"]), r.choice([("sklearn", "numpy"), ("b1",), ()])))
    if reg == "backend":
        name = r.choice(LIGHT["backend"] + ["knn/vf", "vf.new/numpy", "vf.new/vf", "nowhere/numpy", "svm_rbf/numpy"])
        if name in kn and r.random() < 0.5:
            f, x, g, n = kn[name]["target"].split("|", 3)
            return do_register(reg, name, (f, None if x == "None" else x, g == "True", n))
        return do_register(reg, name, (r.choice(PATHS), r.choice([None, "sklearn"]), r.random() < 0.5, ""))
    own = [o for o in ops]
    if name in kn and r.random() < 0.4:
        try:
            own = [load(kn[name]["target"])]
        except Exception:  # noqa: BLE001
            return do_get("op", name, True)
    return do_register(reg, name, r.choice(own))


def history(args):
    i, seed = args
    r = random.Random(seed * 7717 + i)
    regs = r.choice([("inductive",), ("transductive",), ("classifier", "backend"), ("op",), ("inductive", "transductive"), STATIC,
                     ("op", "classifier", "backend", "step", "model")])
    mine = [x for x in regs if x not in STATIC]

    def go():
        from vf import regtargets

        ops = regtargets.ops() if "op" in regs else []
        ev, used, keep = [], {}, []
        if "op" in regs and r.random() < 0.5:   # their modules are imported by then
            ev += [do_get("op", n, True) for n in r.sample(LIGHT["op"], 2)]
        for _ in range(r.randint(6, 14)):
            x = r.random()
            reg = r.choice(regs)
            if x < 0.45 and mine:
                ev.append(any_register(r, r.choice(mine), ops, used))
            elif x < 0.7:
                filts = ["all"] + (["usable"] if reg in METHODS + ("classifier", "provider") else MODALITIES.get(reg, []))
                ev.append(do_list(reg, r.choice(filts)))
            elif x < 0.75 and keep:
                for a in keep:
                    spoil(a)
                ev.append(dict(op="edit"))
                keep.clear()
            else:
                names = LIGHT[reg] + ["vf.new", "vf.other", " vf.new", "VF.new", "nope", "", "Knn", "nowhere/x", "knn/none", "knn/"]
                name = r.choice(names)
                if reg == "dataset" and ":" in name:
                    continue
                ev.append(do_get(reg, name, name in known(reg), deep=False, keep=keep))
        # whatever happened, the listings and a look at some names
        for reg in regs:
            ev.append(do_list(reg, "all"))
            for name in r.sample(LIGHT[reg], 2) + ["vf.new", "vf.other"]:
                ev.append(do_get(reg, name, name in known(reg)))
        return ev

    return dict(id=f"h{i}", key="history", builtins=table(*regs), ev=child(go), regs=list(regs))


def child(fn, timeout=120):
    from vf.core import MachineryError
    from vf.proc import in_child

    st, v = in_child(fn, timeout)[:2]
    if st != "ok":
        raise MachineryError(f"registry child: {st} {v}")
    return v


def everything(reg):
    """Every listed name, after the listing, in a clean process."""
    names = sorted(known(reg))

    def go():
        return [do_list(reg, "all")] + [do_get(reg, n, True, deep=True) for n in names] + [do_get(reg, "vf.nope", False)] + [do_list(reg, "all")]

    return dict(id=f"e-{reg}", key="everything", builtins=table(reg), ev=child(go, 600), regs=[reg])


def clean(args):
    """Listings in a process that has imported nothing."""
    i, seed = args
    r = random.Random(seed * 31 + i)
    todo = [(reg, f) for reg in ALL for f in ["all"] + (["usable"] if reg in METHODS else []) + MODALITIES.get(reg, [])]
    r.shuffle(todo)

    def go():
        base = HEAVY & {x.split(".")[0] for x in sys.modules}
        return [do_list(reg, f, base) for reg, f in todo[:r.choice([1, 4, 40])]]

    return dict(id=f"c{i}", key="clean", builtins=TABLE, ev=child(go), regs=list(ALL))


CLI = [("inductive", ["inductive", "methods", "list"]), ("transductive", ["transductive", "methods", "list"]), ("classifier", ["supervised", "list"]),
       ("op", ["augmentation", "list"]), ("dataset", ["datasets", "list"]), ("step", ["preprocess", "steps", "list"]),
       ("model", ["preprocess", "models", "list"]), ("metric", ["evaluation", "list"]), ("provider", ["datasets", "providers"])]


def cli(args):
    """The command line's listings: the registered names occur as words, nothing optional is loaded."""
    reg, argv = args
    names = sorted(known(reg))

    def go():
        import re

        base = HEAVY & {x.split(".")[0] for x in sys.modules}
        from typer.testing import CliRunner

        from modssc.cli.app import app

        res = CliRunner().invoke(app, argv)
        words = set(re.split(r"[\s,\[\]\"'|]+|: |:\n", res.output))
        return [dict(op="list", reg=reg, filter="all", names=[n for n in names if n in words], out="ok" if res.exit_code == 0 else f"crash:{res.exit_code}",
                     heavy=sorted((HEAVY & {x.split(".")[0] for x in sys.modules}) - base))]

    return dict(id=f"cli-{reg}", key="cli", builtins=table(reg), ev=child(go), regs=[reg])


def auto(args):
    i, seed = args
    r = random.Random(seed * 13 + i)

    def go():
        from modssc.supervised import api, registry
        from modssc.supervised.errors import OptionalDependencyError, UnknownBackendError

        ev = []
        for n in range(12):
            prefs = r.sample(["b1", "b2", "b3", "b4"], r.randint(0, 4))
            reg = r.sample(["b1", "b2", "b3"], r.randint(0, 3))
            registry.register_classifier(key=f"vf{n}", description="d", preferred_backends=tuple(prefs))
            have = []
            for b in reg:
                extra = r.choice([None, "json", "vf_missing_package"])
                registry.register_backend(classifier_id=f"vf{n}", backend=b, factory=f"vf.regtargets:{b.upper()}", required_extra=extra)
                have.append(dict(name=b, there=extra != "vf_missing_package", extra=extra or ""))
            try:
                c = type(api.create_classifier(f"vf{n}")).__name__.lower()
            except OptionalDependencyError:
                c = "missing extra"
            except UnknownBackendError:
                c = "unknown backend"
            except Exception as e:  # noqa: BLE001
                c = f"crash:{type(e).__name__}"
            ev.append(dict(op="auto", prefs=prefs, have=have, chosen=c))
            for b in ["b1", "b2", "b3", "b4"]:          # named backends: that one, or unknown
                try:
                    c = type(api.create_classifier(f"vf{n}", backend=b)).__name__.lower()
                except UnknownBackendError:
                    c = "unknown backend"
                except Exception as e:  # noqa: BLE001
                    c = f"crash:{type(e).__name__}"
                ev.append(dict(op="auto", prefs=[b], have=[dict(h, there=True, extra="") for h in have], chosen=c))
        return ev

    return dict(id=f"a{i}", key="auto", builtins=TABLE[:1], ev=child(go), regs=["backend"])


def auto_builtin(_):
    def go():
        from modssc.supervised import api

        ev = []
        for d in api.available_classifiers():
            if d["key"] == "audio_pretrained":
                continue
            have = [dict(name=b, there=True, extra="") for b in d["backends"]]
            try:
                c = api.create_classifier(d["key"]).backend
            except Exception as e:  # noqa: BLE001
                c = f"crash:{type(e).__name__}: {e}"[:100]
            ev.append(dict(op="auto", prefs=list(d["preferred_backends"]), have=have, chosen=c))
        return ev

    return dict(id="ab", key="auto", builtins=TABLE[:1], ev=child(go, 300), regs=["backend"])


def race(args):
    """Two threads at the first use: one is stopped after k lines of registry code until the other is done (or waits for it)."""
    i, seed, lines = args
    r = random.Random(seed * 101 + i)
    regs = r.choice([("classifier", "backend"), ("inductive",), ("transductive",), ("op",)])

    def go():
        for reg in regs:
            reg_mod(reg)
        from vf import regtargets

        ops = regtargets.ops() if "op" in regs else []
        k = r.choice([r.randint(0, 12), r.randint(0, 80), r.randint(0, lines[regs[0]])])
        src = os.path.dirname(sys.modules["modssc"].__file__)

        def plan(who):
            out = []
            for _ in range(r.choice([1, 1, 2, 3])):
                reg = r.choice(regs)
                x = r.random()
                kn = known(reg)
                if x < 0.4:
                    out.append(("list", reg, "all"))
                elif x < 0.75:
                    out.append(("get", reg, r.choice(LIGHT[reg] + ["nope"])))
                else:
                    name = r.choice([f"vf.{who}", LIGHT[reg][0]])
                    if reg == "backend":
                        name = r.choice([f"knn/{who}", "knn/numpy"])
                    what = PATHS[0] if reg in METHODS else ("x", ("b1",)) if reg == "classifier" else (PATHS[0], None, False, "") if reg == "backend" else ops[0]
                    if reg in METHODS + ("classifier",) and name in kn and r.random() < 0.4:
                        what = kn[name]["target"]
                        if reg == "classifier":
                            d, _, p = what.rpartition("|")
                            what = (d, eval(p))  # noqa: S307
                    out.append(("register", reg, name, what))
            return out

        plans, calls = [plan("a"), plan("b")], []
        paused, done, count, armed = threading.Event(), threading.Event(), [0], [False]

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(src):
                return None
            if event == "line" and armed[0]:
                count[0] += 1
                if count[0] == k:
                    paused.set()
                    done.wait(0.25)
            return tracer

        def perform(p):
            for c in p:
                calls.append(do_list(c[1], c[2]) if c[0] == "list" else do_get(c[1], c[2], c[2] in known(c[1]))
                             if c[0] == "get" else do_register(c[1], c[2], c[3]))

        def first():
            sys.settrace(tracer)
            armed[0] = True
            try:
                perform(plans[0])
            finally:
                sys.settrace(None)
                paused.set()

        def second():
            paused.wait(20)
            perform(plans[1])
            done.set()

        ts = [threading.Thread(target=f) for f in (first, second)]
        for th in ts:
            th.start()
        for th in ts:
            th.join(40)
        ev = [dict(op="par", calls=calls)]
        for reg in regs:
            ev.append(do_list(reg, "all"))
            for name in LIGHT[reg][:2] + ["vf.a", "vf.b", "knn/a", "knn/b"]:
                ev.append(do_get(reg, name, name in known(reg)))
        return ev, count[0]

    ev, n = child(go)
    return dict(id=f"t{i}", key="race", builtins=table(*regs), ev=ev, regs=list(regs), lines=n)


def run(ctx):
    from vf.proc import pmap

    cfg = "SPECIFICATION Spec\nCONSTANTS\n Callers={c1, c2}\n MaxCalls=%d\n Broken={%s}\nINVARIANTS ANameMeansOneTarget BuiltinsStay TypeOK\nCHECK_DEADLOCK FALSE\n"
    ctx.model_check("RegistryModel", cfg_text=cfg % (ctx.pick(4, 5), ""), workers=8)
    for b, inv in [("late builtins", "ANameMeansOneTarget"), ("no lock", "ANameMeansOneTarget"), ("loaded too early", "BuiltinsStay"), ("no clash check", "ANameMeansOneTarget"),
                   ("any path", "ANameMeansOneTarget"), ("write first", "BuiltinsStay"), ("planned too", "ANameMeansOneTarget")]:
        ctx.model_check("RegistryModel", cfg_text=cfg % (4, f'"{b}"'), expect=f"{inv} is violated", workers=8)
    assert not any(m.startswith("modssc") for m in sys.modules)
    TABLE[:] = child(builtins, 300)
    s = ctx.seed
    traces = pmap(clean, [(i, s) for i in range(ctx.pick(14, 70))]) + pmap(cli, CLI)
    ctx.log("lists")
    import torch  # noqa: F401  (from here on, forked processes need not load it again)
    import sklearn.neighbors  # noqa: F401

    lines = {"classifier": 1200, "inductive": 520, "transductive": 420, "op": 30}
    traces += pmap(everything, list(ALL)) + pmap(auto_builtin, [0])
    traces += pmap(auto, [(i, s) for i in range(ctx.pick(14, 140))])
    ctx.log("everything")
    traces += pmap(history, [(i, s) for i in range(ctx.pick(420, 8000))])
    ctx.log("histories")
    traces += pmap(race, [(i, s, lines) for i in range(ctx.pick(280, 6000))])
    for t in traces:
        for e in t["ev"]:
            ctx.nontrivial.add(enc.digest([t["regs"], e]))
    ctx.notes["rule"] = "distinct recorded calls on registries"
    ctx.judge("RegistryTrace", traces, workers=8)
