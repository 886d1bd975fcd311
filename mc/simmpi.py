"""Simulated MPI world with a controlled scheduler.

N ranks live in one process: for each rank the package jVMC is imported afresh
against a stand-in ``mpi4py`` whose communicator belongs to that rank.  The rank
bodies run in threads, but only the rank that holds the baton executes; the baton
can move only at communication calls (and at explicitly hooked points such as file
opens).  A *schedule* is the sequence of choices made at the points where more than
one rank could run.  Deadlock (nobody can run) and collectives that do not match
(different kind / root / operation / buffer size at the same position) are errors of
the program under test.

Delivery semantics per collective are the weakest that MPI guarantees: the root of a
broadcast/scatter and the leaves of a reduce/gather may return without waiting.
"""
import importlib
import pickle
import sys
import threading
import types

import numpy as np


class Mismatch(Exception):
    pass


class Deadlock(Exception):
    pass


class Aborted(BaseException):
    pass


class _Op:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return self.name


SUM = _Op("SUM", lambda a, b: a + b)
PROD = _Op("PROD", lambda a, b: a * b)
MAX = _Op("MAX", lambda a, b: np.maximum(a, b))
MIN = _Op("MIN", lambda a, b: np.minimum(a, b))
LAND = _Op("LAND", lambda a, b: np.logical_and(a, b))
LOR = _Op("LOR", lambda a, b: np.logical_or(a, b))
IN_PLACE = "IN_PLACE"


def _buf(b):
    if isinstance(b, (list, tuple)):
        return b[0]
    return b


class Comm:
    def __init__(self, world, rank):
        self.w, self.r = world, rank

    def Get_rank(self):
        return self.r

    def Get_size(self):
        return self.w.n

    rank = property(lambda s: s.r)
    size = property(lambda s: s.w.n)

    # every collective goes through here -----------------------------------
    def _c(self, kind, payload, meta=None, root=None, mode="all"):
        return self.w.collective(self.r, kind, payload, (meta, root), root, mode)

    def Barrier(self):
        self._c("Barrier", None)
    barrier = Barrier

    def Allreduce(self, send, recv, op=SUM):
        rb = np.asarray(_buf(recv))
        sb = np.array(rb if send is IN_PLACE else np.asarray(_buf(send)), copy=True)
        if sb.size != rb.size or sb.dtype != rb.dtype:
            raise Mismatch("Allreduce: send buffer %s %s, receive buffer %s %s" % (sb.shape, sb.dtype, rb.shape, rb.dtype))
        parts = self._c("Allreduce", sb, (sb.size, str(sb.dtype), op.name))
        acc = parts[0].reshape(-1).copy()
        for p in parts[1:]:
            acc = op.f(acc, p.reshape(-1))
        rb[...] = acc.reshape(rb.shape)

    def allreduce(self, obj, op=SUM):
        parts = self._c("allreduce", pickle.dumps(obj), op.name)
        acc = pickle.loads(parts[0])
        for p in parts[1:]:
            acc = op.f(acc, pickle.loads(p))
        return acc

    def Reduce(self, send, recv, op=SUM, root=0):
        sb = np.array(np.asarray(_buf(recv if send is IN_PLACE else send)), copy=True)
        parts = self._c("Reduce", sb, (sb.size, str(sb.dtype), op.name), root, "toroot")
        if self.r == root:
            acc = parts[0].reshape(-1).copy()
            for p in parts[1:]:
                acc = op.f(acc, p.reshape(-1))
            rb = np.asarray(_buf(recv))
            rb[...] = acc.reshape(rb.shape)

    def reduce(self, obj, op=SUM, root=0):
        parts = self._c("reduce", pickle.dumps(obj), op.name, root, "toroot")
        if self.r != root:
            return None
        acc = pickle.loads(parts[0])
        for p in parts[1:]:
            acc = op.f(acc, pickle.loads(p))
        return acc

    def Bcast(self, buf, root=0):
        b = np.asarray(_buf(buf))
        parts = self._c("Bcast", np.array(b, copy=True) if self.r == root else None, (b.size, str(b.dtype)), root, "fromroot")
        if self.r != root:
            b[...] = parts[root].reshape(b.shape)

    def bcast(self, obj=None, root=0):
        parts = self._c("bcast", pickle.dumps(obj) if self.r == root else None, None, root, "fromroot")
        return pickle.loads(parts[root]) if self.r != root else obj

    def Scatter(self, send, recv, root=0):
        rb = np.asarray(_buf(recv))
        parts = self._c("Scatter", np.array(np.asarray(_buf(send)), copy=True) if self.r == root else None,
                        (rb.size, str(rb.dtype)), root, "fromroot")
        rb[...] = parts[root].reshape(self.w.n, -1)[self.r].reshape(rb.shape)

    def scatter(self, obj, root=0):
        parts = self._c("scatter", pickle.dumps(obj) if self.r == root else None, None, root, "fromroot")
        return pickle.loads(parts[root])[self.r]

    def Allgather(self, send, recv):
        sb = np.array(np.asarray(_buf(send)), copy=True)
        parts = self._c("Allgather", sb, (sb.size, str(sb.dtype)))
        rb = np.asarray(_buf(recv))
        rb[...] = np.concatenate([p.reshape(-1) for p in parts]).reshape(rb.shape)

    def Allgatherv(self, send, recv):
        sb = np.array(np.asarray(_buf(send)), copy=True)
        parts = self._c("Allgatherv", sb, str(sb.dtype))
        rb = np.asarray(_buf(recv))
        rb.reshape(-1)[...] = np.concatenate([p.reshape(-1) for p in parts])

    def allgather(self, obj):
        parts = self._c("allgather", pickle.dumps(_host(obj)))
        return [pickle.loads(p) for p in parts]

    def Gather(self, send, recv, root=0):
        sb = np.array(np.asarray(_buf(send)), copy=True)
        parts = self._c("Gather", sb, (sb.size, str(sb.dtype)), root, "toroot")
        if self.r == root:
            rb = np.asarray(_buf(recv))
            rb[...] = np.concatenate([p.reshape(-1) for p in parts]).reshape(rb.shape)

    def gather(self, obj, root=0):
        parts = self._c("gather", pickle.dumps(_host(obj)), None, root, "toroot")
        return [pickle.loads(p) for p in parts] if self.r == root else None

    def alltoall(self, objs):
        parts = self._c("alltoall", pickle.dumps(objs))
        return [pickle.loads(p)[self.r] for p in parts]

    def Abort(self, code=1):
        raise RuntimeError("MPI Abort(%s)" % code)

    def Dup(self):
        return self
    Clone = Dup


def _host(obj):
    return obj


class World:
    """n ranks; `points` of the last run hold (enabled ranks, chosen index)."""

    def __init__(self, n):
        self.n = n
        self.mods = [None] * n
        self.comms = [Comm(self, r) for r in range(n)]
        self._import_rank = None
        self.reset()

    # ---- module instances ------------------------------------------------
    def _fake(self, r):
        pkg = types.ModuleType("mpi4py")
        M = types.ModuleType("mpi4py.MPI")
        M.COMM_WORLD = self.comms[r]
        for k, v in dict(SUM=SUM, PROD=PROD, MAX=MAX, MIN=MIN, LAND=LAND, LOR=LOR, IN_PLACE=IN_PLACE, DOUBLE="d", FLOAT="f", INT="i",
                         LONG="l", INT64_T="q", INT32_T="i", COMPLEX="F", DOUBLE_COMPLEX="D", C_DOUBLE_COMPLEX="D", BOOL="?", C_BOOL="?",
                         BYTE="b", CHAR="c", Comm=Comm, Intracomm=Comm).items():
            setattr(M, k, v)
        import time
        M.Wtime = time.perf_counter
        M.Is_initialized = lambda: True
        M.Finalize = lambda: None
        M.Init = lambda: None
        M.Get_processor_name = lambda: "simulated"
        pkg.MPI = M
        pkg.rc = types.SimpleNamespace(initialize=True, finalize=True)
        return {"mpi4py": pkg, "mpi4py.MPI": M}

    def _swap(self, r):
        if self.mods[r] is None:
            return
        for k in [k for k in sys.modules if k == "jVMC" or k.startswith("jVMC.") or k == "mpi4py" or k.startswith("mpi4py.")]:
            del sys.modules[k]
        sys.modules.update(self.mods[r])

    def _save(self, r):
        self.mods[r] = {k: m for k, m in sys.modules.items()
                        if k == "jVMC" or k.startswith("jVMC.") or k == "mpi4py" or k.startswith("mpi4py.")}

    def load(self):
        """import one private copy of jVMC per rank; returns the list of copies"""
        out = []
        for r in range(self.n):
            for k in [k for k in sys.modules if k == "jVMC" or k.startswith("jVMC.") or k == "mpi4py" or k.startswith("mpi4py.")]:
                del sys.modules[k]
            sys.modules.update(self._fake(r))
            out.append(importlib.import_module("jVMC"))
            importlib.import_module("jVMC.util")
            self._save(r)
        self.pkgs = out
        return out

    # ---- scheduling ------------------------------------------------------
    def reset(self):
        self.pos = [0] * self.n               # collectives entered per rank
        self.slots = {}                       # index -> {rank: (kind, payload, meta)}
        self.points, self.trace = [], []
        self.state = ["new"] * self.n         # new / ready / wait / done
        self.pred = [None] * self.n
        self.err = [None] * self.n
        self.res = [None] * self.n
        self.abort = False
        self.ncoll = 0

    def run(self, bodies, schedule=(), swap=True):
        """run bodies[r](); returns per-rank results.  schedule: choice indices."""
        self.reset()
        self.schedule = list(schedule)
        self.do_swap = swap
        self.sem = [threading.Semaphore(0) for _ in range(self.n)]
        self.main = threading.Semaphore(0)
        self.cur = None

        def thread(r):
            self.sem[r].acquire()
            try:
                if not self.abort:
                    self.res[r] = bodies[r]()
            except Aborted:
                pass
            except BaseException as e:       # noqa
                self.err[r] = e
                self.abort = True
            self.state[r] = "done"
            if self.do_swap:
                self._save(r)
            self._next(r)

        ts = [threading.Thread(target=thread, args=(r,), daemon=True) for r in range(self.n)]
        self.state = ["ready"] * self.n
        for t in ts:
            t.start()
        self._next(None)
        self.main.acquire()
        for t in ts:
            t.join()
        for r in range(self.n):
            if self.err[r] is not None:
                e = self.err[r]
                raise e
        if len(set(self.pos)) > 1:
            raise Mismatch("ranks executed different numbers of collectives: %s" % (self.pos,))
        return self.res

    def _enabled(self):
        out = []
        for r in range(self.n):
            if self.state[r] == "ready" or (self.state[r] == "wait" and (self.abort or self.pred[r]())):
                out.append(r)
        return out

    def _next(self, r):
        """called by the baton holder (or None at start): choose who runs next and hand over"""
        en = self._enabled()
        if not en:
            if all(s == "done" for s in self.state):
                self.main.release()
                return False
            # nobody can run: deadlock
            stuck = ["rank %d in %s" % (q, self.trace_of(q)) for q in range(self.n) if self.state[q] == "wait"]
            q = next(q for q in range(self.n) if self.state[q] == "wait")
            if self.err[q] is None and not self.abort:
                self.err[q] = Deadlock("deadlock: " + "; ".join(stuck))
            self.abort = True
            en = self._enabled()
        # canonical order: running rank first if still enabled, then ascending
        if r in en:
            en = [r] + [q for q in en if q != r]
        c = 0
        if len(en) > 1 and not self.abort:
            i = len(self.points)
            c = self.schedule[i] if i < len(self.schedule) else 0
            if c >= len(en):
                self.err[en[0]] = RuntimeError("schedule replay diverged")
                self.abort = True
                c = 0
            self.points.append((tuple(en), c, r in en))
        q = en[c]
        self.cur = q
        self.state[q] = "running"
        if q == r:
            return True
        self.sem[q].release()
        return False

    def yield_point(self, r, pred=None):
        """rank r offers the baton; it continues once pred() holds and it is chosen"""
        if self.abort:
            raise Aborted()
        self.state[r] = "wait" if pred else "ready"
        self.pred[r] = pred
        if self.do_swap:
            self._save(r)
        if not self._next(r):
            self.sem[r].acquire()
        if self.do_swap:
            self._swap(r)
        if self.abort:
            raise Aborted()

    def trace_of(self, r):
        return [t[2] for t in self.trace if t[0] == r][-1:] or ["start"]

    # ---- collectives -----------------------------------------------------
    def collective(self, r, kind, payload, meta, root, mode):
        if self.cur is None or threading.current_thread() is threading.main_thread():
            raise Mismatch("communication outside of a simulated run")
        self.yield_point(r)
        i = self.pos[r]
        self.pos[r] += 1
        self.ncoll += 1
        self.trace.append((r, i, kind))
        slot = self.slots.setdefault(i, {})
        for q, (k2, _, m2) in slot.items():
            if k2 != kind or m2 != meta:
                raise Mismatch("collective %d: rank %d calls %s%s but rank %d called %s%s" % (i, r, kind, meta, q, k2, m2))
        slot[r] = (kind, payload, meta)
        if mode == "all" or (mode == "toroot" and r == root):
            self.yield_point(r, lambda: len(slot) == self.n)
        elif mode == "fromroot" and r != root:
            self.yield_point(r, lambda: root in slot)
        return {q: v[1] for q, v in slot.items()} if mode != "all" and len(slot) < self.n else [slot[q][1] for q in range(self.n)]


def explore(world, make_bodies, check, bound, max_runs=None, delay=False):
    """All schedules with at most `bound` preemptions (delay=True: at most `bound` deviations of any kind from the
    default schedule, i.e. delay bounding); check(results, choices) on each.
    Returns (schedules run, points seen, complete?)"""
    stack = [[]]
    runs = pts = 0
    complete = True
    while stack:
        prefix = stack.pop()
        if max_runs is not None and runs >= max_runs:
            complete = False
            break
        res = world.run(make_bodies(), prefix)
        points = list(world.points)
        choices = [p[1] for p in points]
        runs += 1
        pts += len(points)
        check(res, choices)
        cost = 0
        for i, (en, c, running) in enumerate(points):
            if i >= len(prefix):
                for alt in range(1, len(en)):
                    if cost + (1 if running or delay else 0) <= bound:
                        stack.append(choices[:i] + [alt])
            if (running or delay) and c != 0:
                cost += 1
    return runs, pts, complete

