"""C17: OutputManager histories against a dictionary model; several processes under all schedules."""
import itertools

LEVEL = "model_checking"
RULE = ("hist: every sequence of manager operations up to the depth bound on a real HDF5 file, file contents and checkpoint queries compared with a "
        "dictionary-of-lists model; nprocs: every sequence up to a smaller bound on 2 and 3 simulated processes, under every schedule with at most the stated number of "
        "preemptions, scheduling points at communication calls and file opens; time: every sequence of timing operations under a controlled clock")
ASSUMPTIONS = ["real-valued records whose shape does not change within a data set; names of error data and data sets are not reused within a file",
               "HDF5 itself is trusted; a process other than rank 0 that writes error data does so after the file has been created"]
NDEV = 1
OPS = ["GA", "GB", "G/", "O1", "O2", "M1", "M2", "C", "E", "D", "Dg", "R", "RA", "N", "Q"]
TOPS = ["s0", "p0", "s1", "p1", "a0", "a1", "pr"]


def groups(tier):
    gs = []
    for a in OPS:
        for b in OPS:
            gs.append({"name": "hist-%s-%s" % (a, b), "kind": "hist", "pre": [a, b], "depth": 4 if tier == "quick" else 5, "tier": tier, "cost": 4})
    for P in (2, 3):
        for a in MOPS:
            gs.append({"name": "procs-P%d-%s" % (P, a), "kind": "procs", "P": P, "first": a, "tier": tier, "cost": 10 * P})
    for a in TOPS:
        gs.append({"name": "time-%s" % a, "kind": "time", "first": a, "tier": tier, "cost": 2})
    return gs


MOPS = ["O1", "C", "M1", "GA", "G/", "Q", "E1", "D1", "S"]


def run(g, ctx):
    import os, shutil, tempfile
    import h5py
    from mc.jx import jnp, np
    quick = g["tier"] == "quick"
    base = tempfile.mkdtemp(prefix="c17.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        if g["kind"] == "hist":
            hist(g, ctx, base, h5py, np, jnp)
        elif g["kind"] == "procs":
            procs(g, ctx, base, h5py, np, jnp)
        else:
            timing(g, ctx, base, np)
    finally:
        shutil.rmtree(base, ignore_errors=True)


class Model:
    """file: path -> list of records (appendable) or array; checkpoints per group"""

    def __init__(self, np):
        self.np = np
        self.file, self.group = {}, "/"

    def p(self, *a):
        return "/".join(x for x in (self.group.strip("/"),) + a if x)

    def rec(self, path, v):
        self.file.setdefault(path, []).append(self.np.array(v, dtype=float))


def contents(h5py, fn):
    out = {}

    def visit(name, obj):
        if isinstance(obj, h5py.Dataset):
            out[name] = obj[...]
    with h5py.File(fn, "r") as f:
        f.visititems(visit)
    return out


def values(np, jnp, o, k):
    """records written by operation o at position k (all distinct)"""
    x = 10.0 * k
    wrap = jnp.array if k % 2 else np.array
    if o == "O1":
        return 0.5 * k, {"energy": {"mean": wrap([x + 1.0]), "var": wrap([x + 2.0])}, "mag": {"mean": wrap([x, x + 3.0, x + 4.0])}}
    if o == "O2":
        return 0.5 * k + 0.25, {"corr": {"mean": wrap([[x, 1.0 - x], [2.0, x * x]])}, "energy": {"mean": wrap([x + 5.0]), "MC_error": wrap(x + 0.125)}}
    if o == "M1":
        return 1.5 * k, {"snr": wrap([x, 2 * x, 7.0]), "res": wrap(x + 0.5)}
    if o == "M2":
        return 1.5 * k + 1, {"spec": wrap([x, -1.0]), "res": wrap(x + 0.75)}
    if o == "C":
        return [2.0, 0.0, 5.5, 3.0, 2.0][k % 5], wrap([x + 0.1, x + 0.2, x + 0.3])
    return None


def apply_model(m, o, v, name):
    np = m.np
    if o in ("O1", "O2"):
        m.rec(m.p("observables", "times"), v[0])
        for key, d in v[1].items():
            for nm, val in d.items():
                m.rec(m.p("observables", key, nm), val)
    elif o in ("M1", "M2"):
        m.rec(m.p("metadata", "times"), v[0])
        for key, val in v[1].items():
            m.rec(m.p("metadata", key), val)
    elif o == "C":
        m.rec(m.p("network_checkpoints", "times"), v[0])
        m.rec(m.p("network_checkpoints", "checkpoints"), v[1])
    elif o.startswith("G"):
        m.group = "/" + o[1:] if o != "G/" else "/"
    elif o in ("E", "E1"):
        m.file["error_data/" + name] = np.arange(3.0)
    elif o in ("D", "D1"):
        m.file[name] = np.arange(6.0).reshape(2, 3)
    elif o == "Dg":
        m.file["grp/" + name] = np.arange(4)
    elif o == "R":
        m.group = "/"
    elif o == "RA":
        m.group = "/A"
    elif o == "N":
        m.file, m.group = {}, "/"


def apply_real(OM, fn, o, v, name, om, np, jnp):
    if o in ("O1", "O2"):
        om.write_observables(v[0], **v[1])
    elif o in ("M1", "M2"):
        om.write_metadata(v[0], **v[1])
    elif o == "C":
        om.write_network_checkpoint(v[0], v[1])
    elif o.startswith("G"):
        om.set_group(o[1:])
    elif o == "E":
        om.write_error_data(name, jnp.arange(3.0))
    elif o == "E1":
        om.write_error_data(name, np.arange(3.0), mpiRank=1)
    elif o == "D":
        om.write_dataset(name, np.arange(6.0).reshape(2, 3))
    elif o == "D1":
        om.write_dataset(name, np.arange(6.0).reshape(2, 3), mpiRank=1)
    elif o == "Dg":
        om.write_dataset(name, jnp.arange(4), groupname="grp")
    elif o == "R":
        om = OM(fn, append=True)
    elif o == "RA":
        om = OM(fn, group="A", append=True)
    elif o == "N":
        om = OM(fn)
    return om


def compare_file(ctx, np, got, m, what):
    if not ctx.check(set(got) == set(m.file), "%s: data sets %s, expected %s" % (what, sorted(got), sorted(m.file))):
        return
    for k, v in m.file.items():
        w = np.array(v)
        ctx.close(np.asarray(got[k], dtype=float), np.asarray(w, dtype=float), "%s: %s" % (what, k), rtol=0, atol=0)


def queries(np, m, few=False):
    """(kwargs, expected time, expected weights) for the current group"""
    t = m.file.get(m.p("network_checkpoints", "times"))
    if not t:
        return []
    c = m.file[m.p("network_checkpoints", "checkpoints")]
    out = [({}, t[-1], c[-1])] + [({"idx": i}, t[i], c[i]) for i in (range(len(t)) if not few else [0])]
    for q in (0.0, 1.9, 2.6, 4.0, 100.0) if not few else (2.6,):
        d = [abs(float(x) - q) for x in t]
        best = [i for i in range(len(t)) if d[i] <= min(d) + 1e-12]
        out.append(({"time": q}, [t[i] for i in best], [c[i] for i in best]))
    return out


def judge_query(ctx, np, q, res, what):
    kw, t, c = q
    rt, rw = float(res[0]), np.asarray(res[1])
    if isinstance(t, list):
        ok = any(float(a) == rt and rw.shape == b.shape and np.array_equal(b, rw) for a, b in zip(t, c))
    else:
        ok = float(t) == rt and np.array_equal(c, rw)
    ctx.check(ok, "%s: get_network_checkpoint(%s) = %s %s, expected %s %s" % (what, kw, rt, rw, t, c))


def hist(g, ctx, base, h5py, np, jnp):
    import os
    import jVMC
    OM = jVMC.util.OutputManager

    def case(c):
        fn = os.path.join(base, "f.h5")
        if os.path.exists(fn):
            os.unlink(fn)
        m = Model(np)
        om = OM(fn)
        for k, o in enumerate(c["h"]):
            v = values(np, jnp, o, k)
            name = "x%d" % k
            if o == "Q":
                for q in queries(np, m):
                    judge_query(ctx, np, q, om.get_network_checkpoint(**q[0]), "step %d of %s" % (k, c["h"]))
                    ctx.step()
            else:
                om = apply_real(OM, fn, o, v, name, om, np, jnp)
                apply_model(m, o, v, name)
            ctx.step()
            ctx.state(tuple(c["h"][:k + 1]))
        got = contents(h5py, fn)
        compare_file(ctx, np, got, m, str(c["h"]))
        for q in queries(np, m):
            judge_query(ctx, np, q, om.get_network_checkpoint(**q[0]), "end of %s" % c["h"])
        with h5py.File(fn, "r") as f:
            ctx.check(m.group in f, "current group %s missing" % m.group)
        ctx.validated()
        ctx.outcome(sorted((k, np.asarray(v).tobytes()) for k, v in got.items()))
    rest = g["depth"] - 2
    hs = [g["pre"] + list(t) for t in itertools.product(OPS, repeat=rest)]
    if g["pre"][0] == g["pre"][1] == "GA":
        hs = [list(t) for k in range(0, 3) for t in itertools.product(OPS, repeat=k)] + hs
    # the order of two operations that only switch group or reopen at the very end is irrelevant
    hs = [h for h in hs if not (len(h) >= 2 and h[-1] in ("GA", "GB", "G/", "R", "RA") and h[-2] in ("GA", "GB", "G/", "R", "RA"))]
    ctx.each([{"h": h} for h in hs], case)


def procs(g, ctx, base, h5py, np, jnp):
    import os
    from mc.simmpi import World, explore
    P = g["P"]
    w = World(P)
    RealFile = h5py.File
    opened = []

    class File(RealFile):
        def __init__(self, name, mode="r", *a, **k):
            import threading
            if threading.current_thread() is not threading.main_thread():
                r = w.cur
                w.yield_point(r)
                opened.append((r, mode))
            super().__init__(name, mode, *a, **k)
    h5py.File = File
    try:
        pk = w.load()
        quick = ctx.group["tier"] == "quick"
        bound = 1 if quick else 2

        def case(c):
            fn = os.path.join(base, "f.h5")
            hs = c["h"]
            m = Model(np)
            plan = []
            for k, o in enumerate(hs):
                v = values(np, jnp, o, k)
                plan.append((o, v, "x%d" % k, queries(np, m, True) if o == "Q" else None))
                apply_model(m, o, v, "x%d" % k)
            final_q = queries(np, m, True)[:1] if quick else queries(np, m, True)

            def make():
                if os.path.exists(fn):
                    os.unlink(fn)
                del opened[:]

                def body(r):
                    def f():
                        OM = pk[r].util.OutputManager
                        comm = pk[r].mpi_wrapper.comm
                        om = OM(fn)
                        out = []
                        for o, v, name, q in plan:
                            if o == "Q":
                                out += [om.get_network_checkpoint(**x[0]) for x in q]
                            elif o == "S":
                                comm.Barrier()
                            else:
                                if o in ("E1", "D1"):
                                    comm.Barrier()
                                om = apply_real(OM, fn, o, v, name, om, np, jnp)
                                if o in ("E1", "D1"):
                                    comm.Barrier()
                        out += [om.get_network_checkpoint(**x[0]) for x in final_q]
                        return out
                    return f
                return [body(r) for r in range(P)]
            qs = [x for _, _, _, q in plan if q for x in q] + final_q

            def judge(res, sched):
                for r in range(P):
                    ctx.check(len(res[r]) == len(qs), "rank %d answered %d queries" % (r, len(res[r])))
                    for q, a in zip(qs, res[r]):
                        judge_query(ctx, np, q, a, "rank %d, schedule %s of %s" % (r, sched, hs))
                ow = {r for r, mode in opened if r != 0}
                allowed = {1} if any(o in ("E1", "D1") for o in hs) else set()
                ctx.check(ow <= allowed, "ranks %s opened the file in %s" % (ow, hs))
                h5py.File = RealFile
                try:
                    compare_file(ctx, np, contents(h5py, fn), m, "schedule %s of %s" % (sched, hs))
                finally:
                    h5py.File = File
                ctx.validated()
            runs, pts, complete = explore(w, make, judge, bound, max_runs=None if not quick else 300)
            ctx.step(pts)
            ctx.count("schedules", runs)
            ctx.count("histories_with_truncated_schedules", 0 if complete else 1)
            ctx.state(tuple(hs))
        hs = [[g["first"]] + list(t) for k in range(0, 3) for t in itertools.product(MOPS, repeat=k)]
        if quick:     # length 3 only where a checkpoint is written and queried afterwards
            hs = [h for h in hs if len(h) <= 2 or (P == 2 and "C" in h and h[2] == "Q")]
        ctx.each([{"h": h} for h in hs], case)
    finally:
        h5py.File = RealFile


def timing(g, ctx, base, np):
    import os
    import time as T
    import io, sys, re
    import jVMC
    now = [100.0]
    mod = sys.modules[jVMC.util.OutputManager.__module__]

    def clock(f):
        """every clock function of the time module, wherever the code under test got it from"""
        for o in [T] + ([mod] if mod is not T else []):
            for k in list(vars(o)):
                if vars(o)[k] in reals:
                    swapped.append((o, k, vars(o)[k]))
                    setattr(o, k, f)
    reals = [T.perf_counter, T.time, T.monotonic, T.process_time]
    swapped = []

    def case(c):
        fn = os.path.join(base, "t.h5")
        if os.path.exists(fn):
            os.unlink(fn)
        om = jVMC.util.OutputManager(fn)
        m, start, last = {}, {}, {}
        clock(lambda: now[0])
        try:
            for k, o in enumerate(c["h"] + ["pr"]):
                now[0] += 0.5 + k
                nm = "ab"[int(o[1])] if o[1] in "01" else None
                if o[0] == "s":
                    om.start_timing(nm)
                    start[nm] = now[0]
                    m.setdefault(nm, 0.0)
                elif o == "p0" or o == "p1":
                    om.stop_timing(nm)
                    m[nm] = m.get(nm, 0.0) + now[0] - start[nm]
                elif o[0] == "a":
                    om.add_timing(nm, 0.25 * (k + 1))
                    m[nm] = m.get(nm, 0.0) + 0.25 * (k + 1)
                else:
                    buf, old = io.StringIO(), sys.stdout
                    sys.stdout = buf
                    try:
                        om.print_timings()
                    finally:
                        sys.stdout = old
                    shown = {a: float(b) for a, b in re.findall(r"\* (\w+): ([-0-9.]+)s", buf.getvalue())}
                    want = {x: m[x] - last.get(x, 0.0) for x in m}
                    ctx.check(set(shown) == set(want) and all(abs(shown[x] - want[x]) < 2e-6 for x in want), "printed %s, expected %s in %s" % (shown, want, c["h"]))
                    last = dict(m)
                ctx.step()
                ctx.state(tuple(c["h"][:k + 1]) + (k,))
        finally:
            while swapped:
                setattr(*swapped.pop())
        ctx.validated()
        ctx.outcome(sorted(m.items()))

    def legal(h):
        st = set()
        for o in h:
            if o[0] == "s":
                st.add(o[1])
            elif o in ("p0", "p1"):
                if o[1] not in st:
                    return False
        return True
    hs = [[g["first"]] + list(t) for k in range(0, 5) for t in itertools.product(TOPS, repeat=k)]
    ctx.each([{"h": h} for h in hs if legal(h)], case)
