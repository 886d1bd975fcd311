"""C21: measure and ground_state_search."""
import itertools

LEVEL = "model_checking"
RULE = ("measure: every dictionary of operators up to the size bound (single operators, lists, tuples with arguments, one or two names) x sampler kind x requested size x processes x devices, against dense linear algebra on the recorded sample; "
        "loop: every sequence of energy variances up to the length bound x numSteps x tolerance x shift x observables x output, with a scripted solver that records every call; "
        "real: ground_state_search with TDVP and MinSR against a numpy loop")
ASSUMPTIONS = ["local estimators of single operators are decided by C08, single solver calls by C15/C16", "lattices of 2 and 3 sites"]
NDEV = 2
OPN = ["zz", "x", "y", "t", "c"]


def groups(tier):
    gs = []
    full = tier != "quick"
    for sam in ("exact", "mcw", "mcmc"):
        for P, D in ((1, 1), (1, 2), (2, 1)) + (((2, 2), (3, 1)) if full else ()):
            for net in ("cpxrbm", "rbm"):
                if not full and net == "rbm" and (P, D) == (1, 1):
                    continue
                gs.append({"name": "measure-%s-%s-P%dD%d" % (sam, net, P, D), "kind": "measure", "sam": sam, "net": net, "P": P, "D": D, "tier": tier, "cost": 12})
    for i in range(5 if full else 4):
        gs.append({"name": "loop-%d" % i, "kind": "loop", "n": i, "tier": tier, "cost": 6})
    for sol in ("tdvp", "minsr"):
        for P, D in ((1, 1), (2, 1), (1, 2)):
            gs.append({"name": "real-%s-P%dD%d" % (sol, P, D), "kind": "real", "sol": sol, "P": P, "D": D, "tier": tier, "cost": 8})
    return gs


def terms_of(name, n):
    from mc.jx import jnp
    return {"zz": [(1.0, [(0, "Sz"), (n - 1, "Sz")])],
            "x": [(0.7, [(l, "Sx")]) for l in range(n)],
            "y": [(1.0, [(0, "Sy")]), (0.3, [(1, "Sz")])],
            "t": [((lambda t: 1.0 + t), [(0, "Sx")]), ((lambda t: jnp.cos(t)), [(1, "Sz")])],
            "c": [(0.5, [(0, "Sx"), (1, "Sy")]), (0.25, [(n - 1, "Sz")])]}[name]


class Rec:
    """passes calls on to a sampler and records what it returns"""

    def __init__(self, s):
        self.s, self.got, self.req = s, [], []

    def sample(self, *a, **k):
        r = self.s.sample(*a, **k)
        self.got.append(r)
        self.req.append(k.get("numSamples", a[1] if len(a) > 1 else None))
        return r

    def __getattr__(self, k):
        return getattr(self.s, k)


def run(g, ctx):
    import os, shutil, tempfile
    from mc.jx import jax, jnp, np, flat
    from mc import zoo, dense
    from mc.nets import all_configs, table_index
    from mc.simmpi import World
    quick = g["tier"] == "quick"
    n = 2 if g["kind"] == "real" else 3
    cfg = all_configs((n,))
    base = tempfile.mkdtemp(prefix="c21.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        if g["kind"] == "measure":
            measure(g, ctx, n, cfg, quick)
        elif g["kind"] == "loop":
            loop(g, ctx, n, cfg, quick, base)
        else:
            real(g, ctx, n, cfg, quick, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def measure(g, ctx, n, cfg, quick):
    from mc.jx import jax, jnp, np, flat
    from mc import zoo, dense
    from mc.nets import table_index
    from mc.simmpi import World
    P, D = g["P"], g["D"]
    w = World(P)
    pk = w.load()
    R = [type("R", (), {})() for _ in range(P)]
    idx = np.array([3, 0, 5, 6, 1, 7, 2, 4, 4, 1, 0, 7])

    def setup(r):
        J, k = pk[r], R[r]
        J.global_defs.set_pmap_devices(jax.devices()[:D])
        k.psi = J.vqs.NQS(batchSize=5, seed=4, **zoo.make(J, g["net"], (n,)))
        k.psi(jnp.asarray(cfg[:D]).reshape((D, 1, n)))
        p = np.array(k.psi.get_parameters())
        k.psi.set_parameters(jnp.asarray(p + 0.3 * np.sin(1 + 1.7 * np.arange(p.size))))
        if g["sam"] == "exact":
            k.sam = J.sampler.ExactSampler(k.psi, (n,))
        elif g["sam"] == "mcmc":
            k.sam = J.sampler.MCSampler(k.psi, (n,), 5, updateProposer=J.sampler.propose_spin_flip, numChains=2, numSamples=12, thermalizationSweeps=1, sweepSteps=n)
        else:
            per = (12 // (P * D)) * D
            wt = 1.0 + 0.8 * np.sin(1 + 2.0 * np.arange(per * P))
            wt[3] = 0.0
            k.sam = dense.Scripted(J, k.psi, cfg[idx[r * per:(r + 1) * per]].reshape((D, -1, n)), (wt / wt.sum())[r * per:(r + 1) * per].reshape((D, -1)))
        k.rec = Rec(k.sam)
        k.ops = {o: dense.build(J.operator, terms_of(o, n)) for o in OPN}
    w.run([lambda r=r: setup(r) for r in range(P)])

    def amp():
        R0 = R[0]
        return np.asarray(R0.psi(jnp.asarray(cfg).reshape((D, -1, n)))).ravel()
    full = w.run([(amp if r == 0 else (lambda: None)) for r in range(P)])[0]
    vec = np.exp(full)

    # items: (operator, how it is passed, time argument)
    items = [("zz", "o", None), ("x", "o", None), ("y", "o", None), ("c", "o", None), ("t", "t", 0.0), ("t", "t", 0.8)]

    def one(k, it):
        return k.ops[it[0]] if it[1] == "o" else (k.ops[it[0]], it[2])

    def case(c):
        def body(r):
            k = R[r]
            d = {}
            for nm, st, its in c["d"]:
                vals = [one(k, it) for it in its]
                d[nm] = vals[0] if st == "single" else (vals if st == "list" else tuple(vals))
            k.rec.got, k.rec.req = [], []
            kw = {} if c["N"] is None else {"numSamples": c["N"]}
            par = np.array(k.psi.get_parameters())
            res = pk[r].util.measure(d, k.psi, k.rec, **kw)
            assert np.array_equal(par, np.array(k.psi.get_parameters())), "measure changed the parameters"
            return {a: {b: np.asarray(v) for b, v in x.items()} for a, x in res.items()}, k.rec.got, k.rec.req, k.rec.get_last_number_of_samples()
        out = w.run([lambda r=r: body(r) for r in range(P)])
        S = [np.asarray(x[1][0][0]).reshape(-1, n) for x in out]
        for r, x in enumerate(out):
            ctx.check(len(x[1]) == 1, "rank %d: %d samples drawn for one measurement" % (r, len(x[1])))
            ctx.check(x[2] == [c["N"]], "rank %d: sample size requested: %s, asked for %s" % (r, x[2], c["N"]))
        s = np.concatenate(S)
        p = np.concatenate([np.asarray(x[1][0][2]).ravel() for x in out])
        i = table_index(s, 2)
        N = out[0][3]
        for nm, st, its in c["d"]:
            mean, var = [], []
            for it in its:
                M = dense.dense(n, terms_of(it[0], n), it[2] or 0.0)
                E = (M[i] * np.exp(full[None, :] - full[i][:, None])).sum(1)
                m = p @ E
                mean.append(m)
                var.append(np.real(p @ np.abs(E - m) ** 2))
                if g["sam"] == "exact":
                    ex = (vec.conj() @ M @ vec) / (vec.conj() @ vec)
                    ctx.check(abs(m - ex) < 1e-9, "reference")
            for r, x in enumerate(out):
                res = x[0]
                ctx.check(set(res) == {d[0] for d in c["d"]}, "names %s" % list(res))
                what = "rank %d, %s %s" % (r, nm, its)
                ctx.close(res[nm]["mean"], np.real(np.array(mean)), what + ": mean", rtol=1e-9, atol=1e-10)
                ctx.close(res[nm]["variance"], np.array(var), what + ": variance", rtol=1e-8, atol=1e-10)
                ctx.close(res[nm]["MC_error"], np.sqrt(np.array(var)) / np.sqrt(N), what + ": MC_error", rtol=1e-7, atol=1e-8)
        ctx.step()
        ctx.state(str(c))
        ctx.validated()
        ctx.outcome(np.round(np.concatenate([out[0][0][d[0]]["mean"] for d in c["d"]]), 6).tobytes())
    lists = [[it] for it in items] + [list(x) for x in itertools.permutations(items, 2)]
    if not quick:
        lists += [list(x) for x in itertools.permutations(items, 3)]
    else:
        lists += [[items[0], items[4], items[2]], [items[5], items[4], items[1]], [items[3], items[3], items[0]]]
    ds = []
    for k, l in enumerate(lists):
        ds.append([("a", ["list", "tuple"][k % 2] if len(l) > 1 else "list", l)])
        if len(l) == 1 and l[0][1] == "o":
            ds.append([("a", "single", l)])
    for k, (l, m) in enumerate(itertools.product(lists[:6], lists[4:10])):
        ds.append([("b", "single" if len(l) == 1 and l[0][1] == "o" else "list", l), ("a", "list", m)])
    Ns = {"exact": [None, 5], "mcw": [None, 7], "mcmc": [None, 8]}[g["sam"]]
    if P * D > 1 and quick:
        ds = ds[::3]
    ctx.each([{"d": d, "N": Ns[k % 2]} for k, d in enumerate(ds)], case)


def loop(g, ctx, n, cfg, quick, base):
    import h5py, os
    from mc.jx import jax, jnp, np
    from mc import zoo, dense
    import jVMC
    jVMC.global_defs.set_pmap_devices(jax.devices()[:1])
    psi = jVMC.vqs.NQS(batchSize=8, seed=4, **zoo.make(jVMC, "cpxrbm", (n,)))
    psi(jnp.asarray(cfg[:1])[None])
    P0 = np.array(psi.get_parameters())
    H = dense.build(jVMC.operator, terms_of("x", n))
    obs_ops = {"zz": dense.build(jVMC.operator, terms_of("zz", n)), "m": [dense.build(jVMC.operator, terms_of("x", n)), dense.build(jVMC.operator, terms_of("y", n))]}
    Mzz, Mx, My = (dense.dense(n, terms_of(o, n)) for o in ("zz", "x", "y"))
    sam = jVMC.sampler.ExactSampler(psi, (n,))
    TOL = 1e-3
    VAL = {"h": 0.7, "e": TOL, "l": 1e-6, "H": 55.0}

    def expectation(par):
        cur = psi.get_parameters()
        psi.set_parameters(jnp.asarray(par))
        v = np.exp(np.asarray(psi(jnp.asarray(cfg)[None])).ravel())
        psi.set_parameters(cur)
        return [np.real(v.conj() @ M @ v / (v.conj() @ v)) for M in (Mzz, Mx, My)]
    direction = 0.3 * np.cos(1.0 + np.arange(P0.size))

    def solver(kind, log, seq):
        Base = jVMC.util.TDVP if kind != "minsr" else jVMC.util.MinSR

        class Scripted(Base):
            def __call__(self, p, t, *, psi, hamiltonian, **kw):
                k = len(log)
                log.append({"p": np.array(p), "t": t, "psi": psi, "H": hamiltonian, "kw": kw, "shift": getattr(self, "diagonalShift", None)})
                self.k = k
                return jnp.asarray(direction * (k + 1))

            def get_energy_variance(self):
                return jnp.asarray(VAL[seq[self.k]])

            def get_energy_mean(self):
                return jnp.asarray(-1.0)
        if kind == "minsr":
            return Scripted(sam)
        return Scripted(sam, diagonalShift=kind, makeReal="real", rhsPrefactor=1.0)

    def case(c):
        seq, ns, tol = c["v"], c["n"], {"t": TOL, "big": 3.0, "0": 0.0}[c["tol"]]
        log = []
        eq = solver(c["shift"], log, seq + "h" * 8)
        psi.set_parameters(jnp.asarray(P0))
        fn = os.path.join(base, "f.h5")
        if os.path.exists(fn):
            os.remove(fn)
        outp = jVMC.util.OutputManager(fn) if c["out"] else None
        kw = {}
        if c["obs"]:
            kw["observables"] = obs_ops
        if c["out"]:
            kw["outp"] = outp
        jVMC.util.ground_state_search(psi, H, eq, sam, numSteps=ns, varianceTol=tol, stepSize=c["dt"], **kw)
        want = 0
        for k in range(ns):
            want += 1
            if VAL[(seq + "h" * 8)[k]] <= tol:
                break
        if not ctx.check(len(log) == want, "%s: %d steps made, expected %d" % (c, len(log), want)):
            return
        p, pars = P0.copy(), [P0.copy()]
        sh = c["shift"] if c["shift"] != "minsr" else None
        for k, e in enumerate(log):
            ctx.close(e["p"], p, "%s: parameters of step %d" % (c, k), rtol=1e-12)
            ctx.check(e["psi"] is psi and e["H"] is H, "%s: step %d called for other objects" % (c, k))
            ctx.check(e["kw"].get("intStep") == 0, "%s: intStep %s" % (c, e["kw"].get("intStep")))
            if sh is not None:
                ctx.check(abs(e["shift"] - sh * 0.95 ** k) <= 1e-12, "%s: diagonal shift %s in step %d, expected %s" % (c, e["shift"], k, sh * 0.95 ** k))
            p = p + c["dt"] * direction * (k + 1)
            pars.append(p.copy())
        ctx.close(psi.get_parameters(), p, "%s: final parameters" % c, rtol=1e-12)
        if sh is not None and log:
            ctx.check(abs(eq.diagonalShift - sh * 0.95 ** len(log)) <= 1e-12, "%s: final shift %s" % (c, eq.diagonalShift))
        if c["out"] and c["obs"]:
            with h5py.File(fn, "r") as f:
                t = f["observables/times"][...]
                zz, m = f["observables/zz/mean"][...], f["observables/m/mean"][...]
                ctx.check(np.array_equal(t, np.arange(want + 1.0)), "%s: recorded times %s" % (c, t))
                ex = np.array([expectation(q) for q in pars])
                ctx.close(zz.reshape(-1), ex[:, 0], "%s: recorded zz" % c, rtol=1e-9, atol=1e-10)
                ctx.close(m.reshape(-1, 2), ex[:, 1:], "%s: recorded m" % c, rtol=1e-9, atol=1e-10)
        ctx.step(max(want, 1))
        ctx.state(str(c))
        ctx.validated()
        ctx.outcome((want, c["shift"]))
    cases = []
    k = 0
    ns = g["n"]
    for v in (["".join(x) for x in itertools.product("helH", repeat=ns)] if ns < 4 else ["".join(x) for x in itertools.product("hel", repeat=ns)]):
        for tol in ("t", "big", "0"):
            if tol == "0" and ns and "e" in v:
                continue
            for out, obs in ((False, False), (True, False), (False, True), (True, True)):
                k += 1
                cases.append({"v": v, "n": ns, "tol": tol, "out": out, "obs": obs, "dt": [0.1, 1.0, 0.37][k % 3], "shift": [0.0, 0.5, 10.0, "minsr"][(k // 2) % 4]})
    if quick and ns == 3:
        cases = cases[::2]
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()) if False else contextlib.nullcontext():
        ctx.each(cases, case)


def real(g, ctx, n, cfg, quick, base):
    from mc.jx import jax, jnp, np, flat
    from mc import zoo, dense
    from mc.simmpi import World
    P, D = g["P"], g["D"]
    w = World(P)
    pk = w.load()
    R = [type("R", (), {})() for _ in range(P)]
    terms = dense.tfim(n)
    M = dense.dense(n, terms)

    def setup(r):
        J, k = pk[r], R[r]
        J.global_defs.set_pmap_devices(jax.devices()[:D])
        k.psi = J.vqs.NQS(batchSize=4, seed=4, **zoo.make(J, "cpxrbm", (n,)))
        k.psi(jnp.asarray(cfg[:D]).reshape((D, 1, n)))
        k.sam = J.sampler.ExactSampler(k.psi, (n,))
        k.H = dense.build(J.operator, terms)
        k.P0 = np.array(k.psi.get_parameters())
    w.run([lambda r=r: setup(r) for r in range(P)])
    P0 = R[0].P0 + 0.3 * np.sin(1 + 1.7 * np.arange(R[0].P0.size))

    def data(par):
        def body():
            k = R[0]
            k.psi.set_parameters(jnp.asarray(par))
            x = jnp.asarray(cfg).reshape((D, -1, n))
            return np.asarray(k.psi(x)).ravel(), flat(k.psi.gradients(x))
        l, O = w.run([(body if r == 0 else (lambda: None)) for r in range(P)])[0]
        p = np.exp(2 * np.real(l))
        p = p / p.sum()
        E = (M * np.exp(l[None, :] - l[:, None])).sum(1)
        return O, E, p

    def reference(c):
        from checks.c15 import reference as tdvp_ref
        from checks.c16 import solutions
        par, sh, en = P0.copy(), c["shift"], []
        for k in range(c["n"]):
            O, E, p = data(par)
            if g["sol"] == "tdvp":
                ref = tdvp_ref(np, O, E, p, {"q": "real", "x": 1.0, "shift": sh, "pinvTol": 0.0, "pinvCutoff": 1e-6, "snrTol": 2, "exact": True})
                par = par + c["dt"] * ref["cand"][-1][0]
            else:
                u = solutions(np, O, E, p, 1e-6)[0][0]
                z = par + c["dt"] * u
                # complex parameter vectors [re, im] stand for re + i im, tensor by tensor
                def eff():
                    R[0].psi.set_parameters(jnp.asarray(z))
                    return np.array(R[0].psi.get_parameters())
                par = w.run([(eff if r == 0 else (lambda: None)) for r in range(P)])[0]
            m = p @ E
            v = np.real(p @ np.abs(E - m) ** 2)
            sh *= 0.95
            en.append((np.real(m), v))
            if v <= c["tol"]:
                break
        return par, en

    def case(c):
        par, en = reference(c)

        def body(r):
            k, J = R[r], pk[r]
            k.psi.set_parameters(jnp.asarray(P0))
            if g["sol"] == "tdvp":
                eq = J.util.TDVP(k.sam, pinvTol=0.0, pinvCutoff=1e-6, makeReal="real", rhsPrefactor=1.0, diagonalShift=c["shift"])
            else:
                eq = J.util.MinSR(k.sam, pinvTol=1e-6, makeReal="real")
            J.util.ground_state_search(k.psi, k.H, eq, k.sam, numSteps=c["n"], varianceTol=c["tol"], stepSize=c["dt"])
            return np.array(k.psi.get_parameters()), float(eq.get_energy_mean()), float(eq.get_energy_variance())
        for r, (p, m, v) in enumerate(w.run([lambda r=r: body(r) for r in range(P)])):
            ctx.close(p, par, "%s: rank %d: parameters after the search" % (c, r), rtol=1e-5, atol=1e-6)
            ctx.close(np.array([m, v]), np.array(en[-1]), "%s: rank %d: energy mean and variance of the last step" % (c, r), rtol=1e-5, atol=1e-7)
        ctx.step(len(en))
        ctx.state(str(c))
        ctx.validated()
        ctx.outcome((len(en), c["shift"]))
    # tolerances placed between the variances that occur
    _, en = reference({"n": 4, "dt": 0.2, "shift": 0.0, "tol": -1})
    vs = sorted(v for _, v in en)
    tols = [0.0, 1e3] + [0.5 * (a + b) for a, b in zip(vs, vs[1:])]
    ctx.each([{"n": k, "dt": dt, "shift": s, "tol": t} for k in (1, 2, 3) for dt in (0.2, 0.05) for s in ((0.0, 1.0) if g["sol"] == "tdvp" else (0.0,)) for t in tols], case)
