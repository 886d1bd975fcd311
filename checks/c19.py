"""C19: distributed programs give the serial numbers on every process, under every schedule."""
import itertools

LEVEL = "model_checking"
RULE = ("seq: every sequence of program steps up to the length bound, for every (processes, devices, network, Hamiltonian) in the box, run on simulated processes in the default schedule and compared, step by step and process by process, with the serial run; "
        "sched: every program step (and pairs of them) under every schedule with at most the stated number of deviations from the default schedule (delay bounding, any process may be delayed at any communication call): same numbers, same sequence of collectives, no deadlock")
ASSUMPTIONS = ["exact enumeration of the basis; processes interact through MPI collectives only (file access by one process is covered by C17)",
               "collectives follow the MPI standard with the weakest synchronisation it allows (roots of broadcasts and leaves of reductions need not wait)"]
NDEV = 2
STEPS = ["meas", "euler", "heun", "ada", "minsr", "gs", "ckpt", "stats", "mc", "povm"]


def groups(tier):
    gs = []
    full = tier != "quick"
    for P, D in ((2, 1), (3, 1), (2, 2), (1, 2)) + (((4, 1), (3, 2)) if full else ()):
        for i, net in enumerate(("cpxrbm", "two")):
            for n in (2, 3):
                if not full and n == 2 + (P + D + i) % 2:
                    continue
                gs.append({"name": "seq-P%dD%d-%s-%d" % (P, D, net, n), "kind": "seq", "P": P, "D": D, "net": net, "n": n, "tier": tier, "cost": 10 * P})
    for P in (2, 3):
        for a in STEPS:
            if not full and P == 3 and a in ("ada", "gs"):
                continue
            gs.append({"name": "sched-P%d-%s" % (P, a), "kind": "sched", "P": P, "D": 1, "net": "cpxrbm", "n": 2, "first": a, "tier": tier, "cost": 20 * P})
    return gs


def run(g, ctx):
    import os, shutil, tempfile
    base = tempfile.mkdtemp(prefix="c19.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        body(g, ctx, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


class Prog:
    """P processes of D devices holding one wave function each, and the steps they can perform"""

    def __init__(self, P, D, net, n, base, tag):
        from mc.jx import jax, jnp, np
        from mc.simmpi import World
        from mc import zoo, dense
        from mc.nets import all_configs, TableNet
        self.P, self.D, self.n = P, D, n
        self.w = World(P)
        self.pk = self.w.load()
        self.R = [type("R", (), {})() for _ in range(P)]
        self.base, self.tag, self.runs = base, tag, 0
        cfg = all_configs((n,))
        pc = all_configs((2,), 4)

        def setup(r):
            J, k = self.pk[r], self.R[r]
            J.global_defs.set_pmap_devices(jax.devices()[:D])
            k.psi = J.vqs.NQS(batchSize=4, seed=4, **zoo.make(J, net, (n,)))
            k.psi(jnp.asarray(cfg[:D]).reshape((D, 1, n)))
            k.H = dense.build(J.operator, dense.cpx(n))
            # a second instance for calls without a time argument (operators are recompiled when the number of arguments changes)
            k.H0 = dense.build(J.operator, dense.cpx(n))
            k.obs = {"h": k.H0, "m": [dense.build(J.operator, [(1.0, [(0, "Sz")])]), dense.build(J.operator, [(1.0, [(n - 1, "Sx")])])]}
            k.sam = J.sampler.ExactSampler(k.psi, (n,))
            k.eq = J.util.TDVP(k.sam, pinvTol=1e-9, pinvCutoff=1e-7, makeReal="real", rhsPrefactor=1.0, diagonalShift=0.1)
            k.eqt = J.util.TDVP(k.sam, pinvTol=1e-9, pinvCutoff=1e-5, makeReal="real", rhsPrefactor=1.j)
            k.ms = J.util.MinSR(k.sam, pinvTol=1e-6)
            k.sq = lambda x: jnp.real(x) ** 2
            k.mc = J.sampler.MCSampler(k.psi, (n,), 11, updateProposer=J.sampler.propose_spin_flip, numChains=2, numSamples=5, thermalizationSweeps=1, sweepSteps=2)
            k.P0 = np.array(k.psi.get_parameters())
            k.povm = J.operator.POVM({"dim": "1D", "L": 2})
            k.pnet = J.vqs.NQS(TableNet(shape=(2,), lDim=4, cpx=False, scale=0.3), batchSize=8, seed=1)
            k.pnet(jnp.asarray(pc[:D]).reshape((D, 1, 2)))
            k.psam = J.sampler.ExactSampler(k.pnet, (2,), lDim=4, logProbFactor=1)
        self.w.run([lambda r=r: setup(r) for r in range(P)])
        P0 = self.R[0].P0
        self.start = P0 + 0.3 * np.sin(1 + 1.7 * np.arange(P0.size))

    def bodies(self, steps, gsteps=2):
        from mc.jx import jax, jnp, np
        import os
        self.runs += 1
        fn = os.path.join(self.base, "%s-%d.h5" % (self.tag, self.runs))

        def one(r):
            J, k = self.pk[r], self.R[r]
            psi = k.psi
            psi.set_parameters(jnp.asarray(self.start))
            outp = None
            out = []
            t = 0.0
            eq, eqt, ms = k.eq, k.eqt, k.ms
            eq.set_diagonal_shift(0.1)
            ada = J.util.stepper.AdaptiveHeun(timeStep=0.05, tol=1e-3, maxStep=0.2)
            for j, s in enumerate(steps):
                p = psi.get_parameters()
                if s == "meas":
                    o = J.util.measure(k.obs, psi, k.sam)
                    out.append([np.asarray(o[a][b]) for a in ("h", "m") for b in ("mean", "variance", "MC_error")])
                elif s == "euler":
                    q, dt = J.util.stepper.Euler(timeStep=0.1).step(t, eq, p, psi=psi, hamiltonian=k.H)
                    psi.set_parameters(q)
                    out.append([np.asarray(q), np.asarray(dt), np.asarray(eq.get_energy_mean()), np.asarray(eq.get_energy_variance()), np.asarray(eq.get_residuals()[0]), np.sort(np.asarray(eq.get_spectrum()))])
                elif s == "heun":
                    q, dt = J.util.stepper.Heun(timeStep=0.05).step(t, eqt, p, psi=psi, hamiltonian=k.H)
                    psi.set_parameters(q)
                    t += dt
                    out.append([np.asarray(q), np.asarray(eqt.get_energy_mean()), np.asarray(eqt.get_energy_variance())])
                elif s == "ada":
                    nrm = lambda v: jnp.real(jnp.conj(v).dot(eqt.S_dot(v)))
                    q, dt = ada.step(t, eqt, p, normFunction=nrm, psi=psi, hamiltonian=k.H)
                    psi.set_parameters(q)
                    t += dt
                    out.append([np.asarray(q), np.asarray(dt), np.asarray(ada.dt)])
                elif s == "minsr":
                    u = ms(p, t, psi=psi, hamiltonian=k.H, intStep=0)
                    psi.set_parameters(p + 0.05 * u)
                    psi.set_parameters(jnp.real(psi.get_parameters()))
                    out.append([np.asarray(u), np.asarray(ms.get_energy_mean()), np.asarray(psi.get_parameters())])
                elif s == "gs":
                    if outp is None:
                        outp = J.util.OutputManager(fn)
                    outp.set_group("g%d" % j)
                    J.util.ground_state_search(psi, k.H, eq, k.sam, numSteps=gsteps, stepSize=0.05, observables=k.obs, outp=outp)
                    out.append([np.asarray(psi.get_parameters()), np.asarray(eq.get_energy_mean())])
                elif s == "ckpt":
                    if outp is None:
                        outp = J.util.OutputManager(fn)
                    outp.write_network_checkpoint(1.0 * j, p)
                    outp.write_network_checkpoint(1.0 * j + 0.5, p + 1.0)
                    outp.write_observables(t, e={"mean": np.array([1.0 * j])})
                    a, b = outp.get_network_checkpoint(time=1.0 * j)
                    c, d = outp.get_network_checkpoint()
                    psi.set_parameters(jnp.asarray(b) + 0.01)
                    out.append([np.asarray(a), np.asarray(b), np.asarray(c), np.asarray(d)])
                elif s == "stats":
                    c, l, w_ = k.sam.sample()
                    E = J.stats.SampledObs(k.H0.get_O_loc(c, psi, l), w_)
                    G = J.stats.SampledObs(psi.gradients(c), w_)
                    out.append([np.asarray(x) for x in (E.mean(), E.var(), G.covar(E), G.covar(), G.covar_data(E).mean(), G.covar_var(E), G.transform(k.sq).mean())])
                elif s == "mc":
                    c, l, w_ = k.mc.sample(numSamples=5)
                    tot = J.mpi_wrapper.global_sum(w_)
                    out.append([np.asarray(tot).ravel(), np.array(bool(np.all((np.asarray(c) == 0) | (np.asarray(c) == 1))))])
                elif s == "povm":
                    o = J.operator.povm.measure_povm(k.povm, k.psam)
                    out.append([np.asarray(o[a][b]) for a in sorted(o) for b in ("mean", "variance")])
            return out
        return [lambda r=r: one(r) for r in range(self.P)]


def body(g, ctx, base):
    from mc.jx import np
    from mc.simmpi import explore
    import contextlib, io, os
    quick = g["tier"] == "quick"
    ser = Prog(1, 1, g["net"], g["n"], base, "s")
    par = Prog(g["P"], g["D"], g["net"], g["n"], base, "p")
    cache = {}

    def silent(f):
        with contextlib.redirect_stdout(io.StringIO()):
            return f()

    def serial(steps):
        k = tuple(steps)
        if k not in cache:
            cache[k] = silent(lambda: ser.w.run(ser.bodies(steps)))[0]
        return cache[k]

    def compare(res, steps, what):
        want = serial(steps)
        for r, out in enumerate(res):
            for j, (a, b) in enumerate(zip(out, want)):
                for x, y in zip(a, b):
                    if not ctx.close(x, y, "%s: step %d (%s) on rank %d against the serial run" % (what, j, steps[j], r), rtol=1e-6, atol=1e-8):
                        return False
        return True

    def clean():
        for f in os.listdir(base):
            os.remove(os.path.join(base, f))
    if g["kind"] == "seq":
        def case(c):
            res = silent(lambda: par.w.run(par.bodies(c["s"])))
            compare(res, c["s"], str(c["s"]))
            ctx.step(len(c["s"]))
            ctx.count("collectives", par.w.ncoll)
            ctx.state(tuple(c["s"]))
            ctx.validated()
            ctx.outcome(np.round(res[0][-1][0], 6).tobytes())
            clean()
        depth = 2 if quick else 3
        ctx.each([{"s": list(s)} for k in range(1, depth + 1) for s in itertools.product(STEPS, repeat=k)], case)
        return

    def case(c):
        seen = set()

        def chk(res, choices):
            compare(res, c["s"], "%s, schedule %s" % (c["s"], choices))
            ctx.alive()
            seen.add(tuple(t[2] for t in par.w.trace if t[0] == 0))
        runs, pts, complete = silent(lambda: explore(par.w, lambda: par.bodies(c["s"]), chk, c["bound"], delay=True))
        ctx.check(len(seen) == 1, "%s: rank 0 executes different sequences of collectives in different schedules" % c["s"])
        ctx.step(pts)
        ctx.count("schedules", runs)
        ctx.count("incomplete_explorations", 0 if complete else 1)
        ctx.state(str(c))
        ctx.validated()
        clean()
    P = g["P"]
    cs = [{"s": [g["first"]], "bound": 1}]
    if not quick:
        cs += [{"s": [g["first"], b], "bound": 1} for b in STEPS if P == 2 or b in ("meas", "ckpt", "minsr")]
        if P == 2 and g["first"] not in ("ada", "gs"):
            cs += [{"s": [g["first"]], "bound": 2}]
    ctx.each(cs, case)
