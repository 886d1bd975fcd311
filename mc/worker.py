"""Worker process: executes groups of cases on the real code (imported from /repo)."""
import faulthandler
import hashlib
import importlib
import json
import os
import sys
import threading
import time
import traceback

OUT = os.fdopen(os.dup(1), "w", buffering=1)
os.dup2(2, 1)          # anything the code under test prints goes to stderr
sys.stdout = sys.stderr


def emit(d):
    OUT.write("@@" + json.dumps(d, default=str) + "\n")
    OUT.flush()


def _h(obj):
    return hashlib.blake2b(repr(obj).encode(), digest_size=8).hexdigest()


class Stop(Exception):
    pass


class Violated(Exception):
    pass


class Ctx:
    CASE_LIMIT = 240.0
    MAX_FAILS = 25

    def __init__(self, group):
        self.group = group
        self.only = group.get("only")
        self.states, self.outcomes = set(), set()
        self.transitions = self.traces = self.cases = 0
        self.extra = {}
        self.case = None
        self.sample = None
        self.nfail = 0
        self.t_case = time.time()

    # -- bookkeeping -------------------------------------------------------
    def state(self, obj):
        """record a distinct explored state (input / configuration / reached history state)"""
        self.states.add(_h((self.group["name"], obj)))

    def outcome(self, obj):
        self.outcomes.add(_h(obj))

    def step(self, n=1):
        """n operations of the real code executed"""
        self.transitions += n

    def validated(self, n=1):
        """n complete executions compared with the reference model"""
        self.traces += n

    def alive(self):
        """called inside long cases: the watchdog measures the time since the last call"""
        self.t_case = time.time()

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    # -- verdicts ----------------------------------------------------------
    def fail(self, msg, sub=None, sig=None):
        s = sig or (self.group["name"] + "|" + json.dumps(self.case, sort_keys=True, default=str) + ("|" + str(sub) if sub is not None else ""))
        emit({"t": "fail", "case": self.case, "msg": str(msg), "sig": s})
        self.nfail += 1
        if self.nfail >= self.MAX_FAILS:
            raise Stop()

    def check(self, cond, msg, sub=None, sig=None):
        if not cond:
            self.fail(msg() if callable(msg) else msg, sub, sig)
            return False
        return True

    def close(self, got, want, what, rtol=1e-9, atol=1e-9, sub=None, sig=None):
        """got (code under test) must equal want (reference model)"""
        import numpy as np
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            self.fail("%s: shape %s, reference %s" % (what, g.shape, w.shape), sub, sig)
            return False
        if g.dtype == object or w.dtype == object:
            ok = bool(np.all(g == w))
        else:
            with np.errstate(all="ignore"):
                scale = max(1.0, float(np.max(np.abs(w[np.isfinite(w)]))) if w.size and np.any(np.isfinite(w)) else 1.0)
                fin = np.isfinite(w)
                ok = bool(np.all(np.abs(np.where(fin, g, 0) - np.where(fin, w, 0)) <= atol * scale + rtol * np.abs(np.where(fin, w, 0)))) \
                    and bool(np.all(np.isfinite(g) == fin))
        if not ok:
            self.fail("%s: got %s, reference %s" % (what, np.array2string(g, threshold=30), np.array2string(w, threshold=30)), sub, sig)
        return ok

    # -- enumeration -------------------------------------------------------
    def each(self, cases, fn):
        for c in cases:
            c = json.loads(json.dumps(c))
            if self.only is not None and c != self.only:
                continue
            self.case = c
            self.cases += 1
            self.t_case = time.time()
            if self.sample is None:
                self.sample = c
            emit({"t": "case", "case": c})
            try:
                fn(c)
            except Stop:
                raise
            except Violated as e:
                self.fail(str(e))
            except Exception as e:   # the code under test must not raise on valid input
                tb = traceback.format_exc()
                self.fail("exception %s: %s\n%s" % (type(e).__name__, e, tb[-1800:]))


_REAL_MPI = {}


def real_mpi():
    """plain `import jVMC` means the real mpi4py again, whatever a simulated world left behind"""
    mine = lambda k, p: k == p or k.startswith(p + ".")
    if not _REAL_MPI:
        import mpi4py.MPI  # noqa
        _REAL_MPI.update({k: m for k, m in sys.modules.items() if mine(k, "mpi4py")})
    if sys.modules.get("mpi4py") is not _REAL_MPI["mpi4py"]:
        for k in [k for k in sys.modules if mine(k, "jVMC") or mine(k, "mpi4py")]:
            del sys.modules[k]
        sys.modules.update(_REAL_MPI)


def main():
    faulthandler.enable()
    pid, tier = sys.argv[1:3]
    mod = importlib.import_module("checks." + pid.lower())
    cur = [None]

    def watchdog():
        while True:
            time.sleep(2)
            c = cur[0]
            if c is not None and time.time() - c.t_case > c.CASE_LIMIT:
                faulthandler.dump_traceback()
                os._exit(97)
    threading.Thread(target=watchdog, daemon=True).start()
    if hasattr(mod, "worker_init"):
        mod.worker_init(tier)
    emit({"t": "ready"})
    for line in sys.stdin:
        g = json.loads(line)
        ctx = Ctx(g)
        cur[0] = ctx
        try:
            real_mpi()
            mod.run(g, ctx)
        except Stop:
            pass
        except Exception as e:
            ctx.fail("exception outside a case: %s\n%s" % (e, traceback.format_exc()[-1800:]))
        cur[0] = None
        emit({"t": "done", "states": sorted(ctx.states), "outcomes": sorted(ctx.outcomes), "transitions": ctx.transitions,
              "traces": ctx.traces, "cases": ctx.cases, "sample": ctx.sample, "extra": ctx.extra})
        emit({"t": "ready"})
    os._exit(0)


if __name__ == "__main__":
    main()
