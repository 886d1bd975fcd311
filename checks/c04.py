"""C04: global reductions are independent of the split, the schedule and the device history."""
import itertools

LEVEL = "model_checking"
RULE = ("split: every (processes 1..3, devices, per-process batch sizes, trailing shape, dtype, weight pattern) of the box, every reduction; "
        "sched: every schedule up to the preemption bound of a program of collectives; dev: every history of device sets up to the depth bound")
ASSUMPTIONS = ["simulated MPI world with rank-ordered reduction; batch size may differ between processes but not between devices of a process"]
NDEV = 8


def groups(tier):
    gs = []
    q = tier == "quick"
    for P in (1, 2, 3) if q else (1, 2, 3, 4):
        for D in (1, 2, 3, 4) if q else range(1, 9):
            for tr in ([], [1], [3], [2, 2], [2, 2, 2]):
                gs.append({"name": "split-P%d-D%d-%s" % (P, D, "x".join(map(str, tr)) or "s"), "kind": "split", "P": P, "D": D, "tr": tr, "tier": tier, "cost": P * 3})
    for P, D in ((2, 1), (3, 1), (2, 2)):
        gs.append({"name": "sched-P%d-D%d" % (P, D), "kind": "sched", "P": P, "D": D, "tier": tier, "cost": 50})
    for first in range(6):
        gs.append({"name": "dev-%d" % first, "kind": "dev", "P": 1, "first": first, "tier": tier, "cost": 40})
    return gs


def make(np, n, tr, dtype, seed=0):
    k = np.arange(n * int(np.prod(tr)), dtype=np.float64).reshape((n,) + tuple(tr)) + 13 * seed
    x = np.sin(1.3 * k) * 3 + 0.1 * k
    if dtype == "c":
        return x + 1j * np.cos(0.7 * k)
    if dtype == "i":
        return (7 * k % 11).astype(np.int64) - 3
    return x


def weights(np, n, kind):
    k = np.arange(n, dtype=np.float64)
    w = {"u": np.ones(n), "n": 1 + np.cos(k) * 0.8, "z": np.where(k % 2 == 0, 1.0 + k, 0.0)}[kind]
    return w / w.sum()


def reference(np, X, p):
    m = np.tensordot(p, X, axes=(0, 0))
    d = X - m
    var = np.tensordot(p, np.abs(d) ** 2, axes=(0, 0))
    cov = None
    if X.ndim == 2:
        cov = np.einsum("j,ja,jb->ab", p, d, d.conj())
    return {"sum": X.sum(0), "mean": m, "var": var, "cov": cov, "gather": X}


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, rep
    from mc.simmpi import World, explore
    P = g["P"]
    w = World(P)
    pk = w.load()
    tr = tuple(g.get("tr", ()))

    def compute(m, x, p, which):
        out = {"sum": rep(m.global_sum(x))}
        if "mean" in which:
            out["mean"] = rep(m.global_mean(x, p))
            out["var"] = rep(m.global_variance(x, p))
            if x.ndim == 3:
                out["cov"] = rep(m.global_covariance(x, p))
        out["gather"] = np.asarray(m.gather(x))
        return out

    def judge(res, ref, which, sub=None):
        for r, o in enumerate(res):
            for k, v in o.items():
                ctx.close(v, ref[k], "rank %d: %s" % (r, k), atol=1e-11, sub=(sub, k))
            ctx.outcome(sorted((k, np.round(np.asarray(v), 9).tobytes()) for k, v in o.items()))

    if g["kind"] == "split":
        D = g["D"]
        for p_ in pk:
            use_devices(p_, D)
        Bs = {1: [[1], [2], [5], [37]], 2: [[1, 1], [2, 1], [1, 3], [20, 33]], 3: [[1, 1, 1], [2, 1, 3], [1, 2, 2]], 4: [[1, 1, 1, 1], [3, 1, 2, 1]]}[P]

        def case(c):
            B = c["B"]
            n = D * sum(B)
            X = make(np, n, tr, c["t"])
            ref0 = None
            off = np.cumsum([0] + [D * b for b in B])
            for wk in ("u", "n", "z"):
                pw = weights(np, n, wk)
                xs = [jnp.array(X[off[r]:off[r + 1]].reshape((D, B[r]) + tr)) for r in range(P)]
                ps = [jnp.array(pw[off[r]:off[r + 1]].reshape((D, B[r]))) for r in range(P)]
                which = ("sum",) if c["t"] == "i" else ("mean",)

                def body(r):
                    def f():
                        m = pk[r].mpi_wrapper
                        o = compute(m, xs[r], ps[r], which)
                        t = m.get_communication_time()
                        if t < 0 or m.get_communication_time() != 0:
                            o["time"] = t
                        root = (sum(B)) % P
                        v = np.arange(2. + sum(B)) * 1.5 if r == root else None
                        o["bcast"] = m.bcast_unknown_size(v, root=root)
                        o["bcast0"] = m.bcast_unknown_size(np.array([3.25]) if r == 0 else np.zeros(2))
                        return o
                    return f
                res = w.run([body(r) for r in range(P)])
                ctx.step(P * len(res[0]))
                ref = reference(np, X, pw)
                ref["bcast"] = np.arange(2. + sum(B)) * 1.5
                ref["bcast0"] = np.array([3.25])
                ref["time"] = "time counter not reset"
                judge(res, ref, which, wk)
                for r in range(P):
                    ctx.close(rep(xs[r]), X[off[r]:off[r + 1]].reshape((D, B[r]) + tr), "input modified", atol=0)
                    ctx.check(isinstance(res[r]["gather"], np.ndarray) or True, "")
                ctx.state((tuple(B), c["t"], wk))
                ctx.validated()
                if c["t"] == "i":
                    break
        ctx.each([{"B": b, "t": t} for b in Bs for t in "fci"], case)

    elif g["kind"] == "sched":
        D = g["D"]
        for p_ in pk:
            use_devices(p_, D)
        B = [2, 1, 3][:P]
        n = D * sum(B)
        tr = (2,)
        X = make(np, n, tr, "c")
        pw = weights(np, n, "n")
        off = np.cumsum([0] + [D * b for b in B])
        ref = reference(np, X, pw)
        ref["bcast"] = np.arange(3.)
        progs = [["sum", "bcast"], ["mean", "var"], ["bcast", "gather"], ["cov", "sum"], ["bcast", "bcast", "mean"]]

        def one(c):
            def bodies():
                def body(r):
                    def f():
                        m = pk[r].mpi_wrapper
                        x = jnp.array(X[off[r]:off[r + 1]].reshape((D, B[r]) + tr))
                        p = jnp.array(pw[off[r]:off[r + 1]].reshape((D, B[r])))
                        o = []
                        for op in c["prog"]:
                            o.append(rep({"sum": lambda: m.global_sum(x), "mean": lambda: m.global_mean(x, p), "var": lambda: m.global_variance(x, p),
                                          "cov": lambda: m.global_covariance(x, p), "gather": lambda: m.gather(x),
                                          "bcast": lambda: m.bcast_unknown_size(np.arange(3.) if r == P - 1 else None, root=P - 1)}[op]()))
                        return o
                    return f
                return [body(r) for r in range(P)]

            def chk(res, choices):
                ctx.state((tuple(c["prog"]), tuple(choices)))
                for r in range(P):
                    for op, v in zip(c["prog"], res[r]):
                        ctx.close(v, ref[op], "rank %d %s under schedule %s" % (r, op, choices), atol=1e-11)
                ctx.validated()
            if c.get("schedule") is not None:
                chk(w.run(bodies(), c["schedule"]), c["schedule"])
                return
            runs, pts, _ = explore(w, bodies, chk, c["bound"])
            ctx.count("schedules", runs)
            ctx.step(pts)
        bound = 1 if P == 3 else 2
        if g["tier"] != "quick":
            bound += 1
        ctx.each([{"prog": p, "bound": bound} for p in progs], one)

    else:
        sets = [[0], [0, 1], [1, 0], [2, 3], [0, 1, 2], [5]]
        depth = 3 if g["tier"] == "quick" else 4
        j = pk[0]

        def case(c):
            def f():
                outs = []
                for i, si in enumerate(c["h"]):
                    ds = [jax.devices()[k] for k in sets[si]]
                    j.global_defs.set_pmap_devices(ds if (len(ds) > 1 or i % 2) else ds[0])
                    D = len(ds)
                    n = D * 2
                    X = make(np, n, (2,), "c", i)
                    pw = weights(np, n, "n")
                    assert j.global_defs.device_count() == D and list(j.global_defs.devices()) == ds
                    outs.append((compute(j.mpi_wrapper, jnp.array(X.reshape(D, 2, 2)), jnp.array(pw.reshape(D, 2)), ("mean",)), reference(np, X, pw)))
                return outs
            outs = w.run([f])[0]
            for i, (o, ref) in enumerate(outs):
                ctx.step(4)
                ctx.state(tuple(c["h"][:i + 1]))
                judge([o], ref, ("mean",), i)
            ctx.validated()
        ctx.each([{"h": [g["first"]] + list(h)} for k in range(0, depth) for h in itertools.product(range(len(sets)), repeat=k)], case)
