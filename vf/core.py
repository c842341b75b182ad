"""Shared machinery of the checks: scratch space, TLC runs, verdicts, evidence."""
from __future__ import annotations

import atexit
import json
import os
import pathlib
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VF_REPO", "/repo"))
SPEC = VERIF / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"


class MachineryError(RuntimeError):
    """The check itself failed (not a verdict about the code)."""


_scratch: pathlib.Path | None = None


def scratch_root() -> pathlib.Path:
    global _scratch
    if _scratch is None:
        inherited = os.environ.get("VF_SCRATCH")
        if inherited:
            _scratch = pathlib.Path(inherited)
        else:
            _scratch = pathlib.Path(tempfile.mkdtemp(prefix="vf-"))
        pid = os.getpid()

        def _clean() -> None:
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)

        atexit.register(_clean)
    return _scratch


_n = 0


def scratch_dir(tag: str = "d") -> pathlib.Path:
    global _n
    _n += 1
    d = scratch_root() / f"{tag}-{os.getpid()}-{_n}"
    d.mkdir(parents=True)
    return d


def drop(d: pathlib.Path) -> None:
    assert str(d).startswith(str(scratch_root()))
    shutil.rmtree(d, ignore_errors=True)


class Ctx:
    def __init__(self, prop: str, tier: str, seed: int):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.evaluations = 0
        self.samples: list = []
        self.notes: dict = {}
        self.models: list = []
        self.assumptions: list[str] = []
        self.violations: list[dict] = []
        self.nontrivial: set = set()
        self.known: dict[str, str] = {}

    def log(self, *a) -> None:
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- TLC
    def tlc(self, module: str, *, cfg: str | None = None, cfg_text: str | None = None,
            env: dict | None = None, workers: int = 4, timeout: int = 600,
            extra: tuple = (), heap: str = "3g") -> str:
        meta = scratch_dir("tlc")
        if cfg_text is not None:
            cfgp = meta / f"{module}.cfg"
            cfgp.write_text(cfg_text)
        else:
            cfgp = SPEC / (cfg or f"{module}.cfg")
        e = dict(os.environ)
        e.pop("LD_PRELOAD", None)
        e.update(env or {})
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
               "-XX:TieredStopAtLevel=1" if self.quick else "-XX:+TieredCompilation",
               f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC", "-workers", str(workers),
               "-metadir", str(meta / "m"), "-noGenerateSpecTE", "-deadlock",
               "-config", str(cfgp), *extra, str(SPEC / f"{module}.tla")]
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=e, cwd=meta)
        except subprocess.TimeoutExpired as exc:
            raise MachineryError(f"TLC timed out on {module}") from exc
        finally:
            pass
        out = r.stdout + r.stderr
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            g, d = m[-1]
            self.transitions += int(g)
            self.states += int(d)
        drop(meta)
        return out

    def model_check(self, module: str, *, cfg: str | None = None, cfg_text: str | None = None,
                    workers: int = 4, timeout: int = 600, expect: str = "ok") -> dict:
        """Explore a specification exhaustively; its invariants are the property on the model."""
        t = time.time()
        out = self.tlc(module, cfg=cfg, cfg_text=cfg_text, workers=workers, timeout=timeout)
        ok = "Model checking completed. No error has been found." in out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        info = dict(model=module, cfg=cfg or "inline", distinct=int(m[-1][1]) if m else 0,
                    generated=int(m[-1][0]) if m else 0, wall_s=round(time.time() - t, 1))
        self.models.append(info)
        if expect == "ok" and not ok:
            raise MachineryError(f"model {module} {cfg}: {out[-3000:]}")
        if expect != "ok" and expect not in out:
            raise MachineryError(f"model {module} {cfg} should have violated {expect}: {out[-2000:]}")
        self.log(f"model {module} {cfg or ''}: {info['distinct']} states in {info['wall_s']}s")
        return info

    def judge(self, module: str, traces: list[dict], *, cfg: str | None = None,
              env: dict | None = None, workers: int = 4, timeout: int = 800,
              describe=None, report: bool = True, extra_text: str = "") -> list[dict]:
        """Let TLC judge recorded traces; each rejected one becomes a violation."""
        if not traces:
            raise MachineryError(f"{module}: no traces recorded")
        d = scratch_dir("tr")
        f = d / "trace.ndjson"
        with f.open("w") as fh:
            for t in traces:
                fh.write(json.dumps(t) + "\n")
        t0 = time.time()
        cfg_text = (SPEC / (cfg or f"{module}.cfg")).read_text() + extra_text
        out = self.tlc(module, cfg_text=cfg_text, env={"TRACE": str(f), **(env or {})}, workers=workers,
                       timeout=timeout)
        drop(d)
        verdicts = {}
        for m in re.finditer(r'<<"V", (\d+), (\d+), "([^"]*)">>', out):
            verdicts[int(m.group(1))] = (int(m.group(2)), m.group(3))
        if len(verdicts) != len(traces):
            raise MachineryError(
                f"{module}: {len(verdicts)} verdicts for {len(traces)} traces\n{out[-4000:]}")
        rejected = []
        for i, t in enumerate(traces, 1):
            n, c = verdicts[i]
            if report:
                self.traces += 1
                self.events += len(t["ev"])
            if c != "ok":
                rejected.append(dict(trace=i, event=n, clause=c, at=t["ev"][n - 1] if 0 < n <= len(t["ev"]) else None, scenario=t))
        if report:
            self.log(f"judged {len(traces)} traces / {sum(len(t['ev']) for t in traces)} events "
                     f"with {module}: {len(rejected)} rejected ({time.time() - t0:.1f}s)")
            for r in rejected:
                self.violation(r["clause"], r, spec=module,
                               key=str(r["scenario"].get("key", r["scenario"].get("id", ""))))
            if traces and len(self.samples) < 6:
                self.samples.append(_shorten(traces[len(traces) // 2]))
        return rejected

    # ----------------------------------------------------------- verdicts
    def violation(self, clause: str, detail, *, spec: str = "", key: str = "") -> None:
        if len(self.violations) < 200:
            self.violations.append(dict(clause=clause, spec=spec, key=key, detail=detail))

    def finish(self, level: str) -> int:
        known = [k for k in load_known() if k.get("property") == self.prop and k.get("status") == "known"]
        remaining, hits = [], {}
        for v in self.violations:
            k = next((k for k in known if k["clause"] == v["clause"]
                      and re.fullmatch(k["key"], v["key"])), None)
            if k is None:
                remaining.append(v)
            else:
                hits.setdefault(k["id"], k)
        for k in known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}"
                  + ("" if k["id"] in hits else " (not reached in this run)"))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, events_judged=self.events,
                   evaluations=self.evaluations or self.events,
                   distinct_nontrivial=len(self.nontrivial) or self.traces,
                   rule=self.notes.pop("rule", "each recorded trace is one scenario run on the real code"),
                   samples=self.samples or ["none"], models=self.models, **self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(remaining))
        edir = VERIF / "evidence"
        edir.mkdir(exist_ok=True)
        (edir / f"{self.prop}.json").write_text(json.dumps(ev, indent=1, default=str) + "\n")
        if remaining:
            rdir = edir / "replay"
            rdir.mkdir(exist_ok=True)
            path = rdir / f"{self.prop}.json"
            path.write_text(json.dumps(dict(property=self.prop, seed=self.seed, tier=self.tier,
                                            violations=remaining[:20]), indent=1, default=str) + "\n")
            for v in remaining[:8]:
                self.log("rejected:", v["spec"], v["clause"], json.dumps(v["detail"].get("at", v["detail"]) if isinstance(v["detail"], dict) else v["detail"],
                                                                          default=str)[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        self.log("held:", f"{self.traces} traces, {self.states} states")
        return 0


def _shorten(o, n=14, depth=0):
    if isinstance(o, dict):
        return {k: _shorten(v, n, depth + 1) for k, v in list(o.items())[:20]}
    if isinstance(o, list):
        s = [_shorten(v, n, depth + 1) for v in o[:n]]
        return s + ["..."] if len(o) > n else s
    return o


def load_known() -> list[dict]:
    p = VERIF / "known_findings.json"
    return json.loads(p.read_text()) if p.exists() else []


BASE_ENV = {
    "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "CUDA_VISIBLE_DEVICES": "",
    "TF_CPP_MIN_LOG_LEVEL": "3", "TF_ENABLE_ONEDNN_OPTS": "0", "HF_HUB_OFFLINE": "1",
    "HF_DATASETS_OFFLINE": "1", "TRANSFORMERS_OFFLINE": "1", "LANG": "C.UTF-8",
}


def build_fsgate(dest: pathlib.Path) -> pathlib.Path:
    so = dest / "fsgate.so"
    subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", str(so),
                    str(VERIF / "native" / "fsgate.c"), "-ldl"], check=True)
    return so


def main(argv: list[str]) -> int:
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 2:
        tier = argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import importlib

    src = (VERIF / "vf" / "checks" / f"{prop.lower()}.py").read_text()
    if os.environ.get("VF_INNER") != "1":
        root = scratch_root()
        env = dict(os.environ)
        env.update(BASE_ENV)
        env.update(VF_INNER="1", VF_SCRATCH=str(root), PYTHONPYCACHEPREFIX=str(root / "pyc"),
                   PYTHONPATH=f"{VERIF}/vf/site:{VERIF}:{REPO / 'src'}:{REPO}", TMPDIR=str(root),
                   HOME=str(root / "home"), XDG_CACHE_HOME=str(root / "xdg"),
                   MPLCONFIGDIR=str(root / "mpl"), MODSSC_CACHE_ROOT=str(root / "mc"))
        for k in ("MODSSC_CACHE_DIR",):
            env.pop(k, None)
        (root / "home").mkdir()
        if "# needs: fsgate" in src:
            so = build_fsgate(root)
            env.update(LD_PRELOAD=str(so), VF_FSGATE=str(so))
        p = subprocess.Popen([PY, "-W", "ignore", "-m", "vf", prop, tier], env=env, cwd=str(root),
                             start_new_session=True)
        try:
            rc = p.wait(timeout=880 if tier == "quick" else 6 * 3600)
        except subprocess.TimeoutExpired:
            print("check timed out")
            rc = 2
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        return rc if rc in (0, 1) else 2

    import logging

    logging.disable(logging.WARNING)
    ctx = Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(f"vf.checks.{prop.lower()}")
        mod.run(ctx)
        rc = ctx.finish(getattr(mod, "LEVEL", "model_checking"))
    except BaseException:  # noqa: BLE001
        traceback.print_exc()
        # a verdict already reached stands even if a later stage of the check fails
        if ctx.violations:
            return ctx.finish("model_checking")
        return 2
    return rc
