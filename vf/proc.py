"""Processes: parallel map, crash injection at file-system calls, controlled schedules."""
from __future__ import annotations

import ctypes
import os
import pickle
import select
import signal
import sys
import time
import traceback

from vf.core import MachineryError


def _gate():
    so = os.environ.get("VF_FSGATE")
    if not so:
        raise MachineryError("fsgate not loaded (missing '# needs: fsgate')")
    lib = ctypes.CDLL(so)
    lib.fsgate_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_int]
    lib.fsgate_count.restype = ctypes.c_long
    return lib


def _read_all(fd: int) -> bytes:
    out = b""
    while True:
        try:
            b = os.read(fd, 1 << 16)
        except InterruptedError:
            continue
        if not b:
            return out
        out += b


def in_child(fn, timeout: float = 120.0):
    """Run fn() in a forked child; ('ok', value) | ('exc', text) | ('died', code)."""
    r, w = os.pipe()
    sys.stdout.flush(), sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            signal.alarm(int(timeout) + 1)
            try:
                res = ("ok", fn())
            except BaseException:  # noqa: BLE001
                res = ("exc", traceback.format_exc())
            data = pickle.dumps(res)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        except BaseException:  # noqa: BLE001
            code = 99
        os._exit(code)
    os.close(w)
    data = _read_all(r)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if data:
        try:
            return pickle.loads(data)
        except Exception:  # noqa: BLE001
            pass
    return ("died", os.waitstatus_to_exitcode(st))


def crash_child(fn, prefix, at: int, torn: bool = False, timeout: float = 60.0):
    """Run fn() in a child that dies before its at-th file-system call below prefix.

    at = 0 never dies.  Returns (outcome, value, number of calls seen or None)."""
    def body():
        g = _gate()
        g.fsgate_arm(str(prefix).encode(), at, 1 if torn else 0)
        v = fn()
        n = g.fsgate_count()
        g.fsgate_disarm()
        return v, n

    kind, v = in_child(body, timeout)
    if kind == "ok":
        return "done", v[0], v[1]
    if kind == "died" and v == 137:
        return "crashed", None, None
    if kind == "died":
        raise MachineryError(f"crash child ended with {v}")
    raise MachineryError(f"crash child failed: {v}")


def op_log(fn, prefix) -> list[str]:
    """The file-system calls fn() makes below prefix, in order."""
    r, w = os.pipe()

    def body():
        os.close(r)
        g = _gate()
        g.fsgate_arm(str(prefix).encode(), 0, 0)
        g.fsgate_log(w)
        try:
            fn()
        finally:
            g.fsgate_disarm()
        return None

    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            body()
        except BaseException:  # noqa: BLE001
            traceback.print_exc()
        os._exit(0)
    os.close(w)
    data = _read_all(r)
    os.close(r)
    os.waitpid(pid, 0)
    return data.decode().splitlines()


def pmap(fn, items: list, procs: int = 7, timeout: float = 800.0) -> list:
    """Map in forked workers (dynamic distribution by stride); exceptions are machinery errors."""
    items = list(items)
    if not items:
        return []
    procs = max(1, min(procs, len(items)))

    def work(k):
        return [(i, fn(items[i])) for i in range(k, len(items), procs)]

    pipes = []
    sys.stdout.flush(), sys.stderr.flush()
    for k in range(procs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                res = ("ok", work(k))
            except BaseException:  # noqa: BLE001
                res = ("exc", traceback.format_exc())
            data = pickle.dumps(res)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
            os._exit(0)
        os.close(w)
        pipes.append((pid, r))
    out = [None] * len(items)
    bufs = {r: b"" for _, r in pipes}
    live = set(bufs)
    end = time.time() + timeout
    while live:
        rs, _, _ = select.select(list(live), [], [], max(0.1, end - time.time()))
        if not rs and time.time() > end:
            for pid, _ in pipes:
                os.kill(pid, signal.SIGKILL)
            raise MachineryError("parallel workers timed out")
        for r in rs:
            b = os.read(r, 1 << 20)
            if not b:
                live.discard(r)
                os.close(r)
            else:
                bufs[r] += b
    for pid, r in pipes:
        os.waitpid(pid, 0)
        if not bufs[r]:
            raise MachineryError("a parallel worker died")
        kind, v = pickle.loads(bufs[r])
        if kind != "ok":
            raise MachineryError("parallel worker failed:\n" + v)
        for i, x in v:
            out[i] = x
    return out


class Scheduled:
    """Processes that stop before every file-system call below prefix until released."""

    def __init__(self, fns, prefix):
        self.prefix = str(prefix)
        self.procs = []
        self.log: list[tuple[int, str]] = []
        sys.stdout.flush(), sys.stderr.flush()
        for i, fn in enumerate(fns):
            or_, ow = os.pipe()
            ir, iw = os.pipe()
            rr, rw = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(or_), os.close(iw), os.close(rr)
                for p in self.procs:
                    for f in (p["out"], p["go"], p["res"]):
                        try:
                            os.close(f)
                        except OSError:
                            pass
                try:
                    signal.alarm(60)
                    g = _gate()
                    g.fsgate_arm(self.prefix.encode(), 0, 0)
                    g.fsgate_step(ow, ir)
                    # a first stop before anything happens
                    try:
                        res = ("ok", fn())
                    except BaseException as e:  # noqa: BLE001
                        res = ("exc", type(e).__name__, str(e)[:300])
                    g.fsgate_disarm()
                    data = pickle.dumps(res)
                    off = 0
                    while off < len(data):
                        off += os.write(rw, data[off:])
                except BaseException:  # noqa: BLE001
                    traceback.print_exc()
                os._exit(0)
            os.close(ow), os.close(ir), os.close(rw)
            self.procs.append(dict(pid=pid, out=or_, go=iw, res=rr, buf=b"", op=None, done=False,
                                   result=None, killed=False))
        for i in range(len(fns)):
            self._settle(i)

    def _settle(self, i, wait: float = 20.0):
        """Wait until process i stops before a call, or ends.  False: it is waiting for others."""
        p = self.procs[i]
        end = time.time() + wait
        while True:
            if b"\n" in p["buf"]:
                line, p["buf"] = p["buf"].split(b"\n", 1)
                p["op"] = line.decode()
                return True
            t = end - time.time()
            if t <= 0:
                return False
            rs, _, _ = select.select([p["out"]], [], [], t)
            if not rs:
                return False
            b = os.read(p["out"], 4096)
            if not b:
                data = _read_all(p["res"])
                p["done"] = True
                p["op"] = None
                p["result"] = pickle.loads(data) if data else ("died",)
                os.waitpid(p["pid"], 0)
                return True
            p["buf"] += b

    def enabled(self):
        return [i for i, p in enumerate(self.procs) if not p["done"] and p["op"] is not None]

    def step(self, i, wait: float = 0.6):
        p = self.procs[i]
        self.log.append((i, p["op"]))
        p["op"] = None
        os.write(p["go"], b"g")
        return self._settle(i, wait)

    def poll(self, wait: float = 0.3):
        for i, p in enumerate(self.procs):
            if not p["done"] and p["op"] is None:
                self._settle(i, wait)

    def kill(self, i):
        p = self.procs[i]
        self.log.append((i, "KILL"))
        p["killed"] = True
        os.kill(p["pid"], signal.SIGKILL)
        _read_all(p["out"])
        os.waitpid(p["pid"], 0)
        p["done"], p["op"], p["result"] = True, None, ("died",)

    def run(self, segments, limit: int = 40000):
        """segments: list of (process, steps | None); afterwards everyone runs to the end in order."""
        n = 0
        for i, k in list(segments) + [(i, None) for i in range(len(self.procs))]:
            if k == "kill":
                if not self.procs[i]["done"]:
                    self.kill(i)
                continue
            c = 0
            while not self.procs[i]["done"] and c < (600 if k is None else k):
                if self.procs[i]["op"] is None:
                    if not self._settle(i, 0.3):
                        break  # blocked on the others
                    continue
                self.step(i)
                c += 1
                n += 1
                if n > limit:
                    raise MachineryError("schedule does not end")
        # drain whoever was blocked
        for _ in range(100):
            rest = [i for i, p in enumerate(self.procs) if not p["done"]]
            if not rest:
                break
            for i in rest:
                for _k in range(600):
                    if self.procs[i]["done"]:
                        break
                    if self.procs[i]["op"] is None and not self._settle(i, 0.3):
                        break
                    if self.procs[i]["op"] is not None:
                        self.step(i)
        return self

    def close(self):
        for i, p in enumerate(self.procs):
            if not p["done"]:
                self.kill(i)
            for f in ("out", "go", "res"):
                try:
                    os.close(p[f])
                except OSError:
                    pass
