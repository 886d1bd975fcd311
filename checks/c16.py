"""C16: MinSR against a numpy minimum-norm solution of the pooled, weighted, centred equation."""
import itertools

LEVEL = "model_checking"
RULE = ("box: every (network, Hamiltonian, sampler kind, sample count, processes, devices, tolerance) in the bounds: update compared with -pinv(Obar) Ebar (numpy SVD of the pooled Jacobian), "
        "effect on the parameters compared with the natural-gradient step for holomorphic networks; hist: every history of calls (parameters, time, intStep, tolerance, output manager) up to the depth bound; "
        "several processes run in the simulated MPI world")
ASSUMPTIONS = ["gradients and network amplitudes are those reported by the wave function (decided by C09, C10)",
               "eigenvalues of the kernel equal to the tolerance within rounding may be kept or discarded; tolerances of 1e-10 and above"]
NDEV = 2
NETS = ["cpxrbm", "rbm", "two", "nonholo", "table", "ffn"]
OPS = ["A0", "A1", "B0", "B-", "A0t", "tol", "A0o"]


def groups(tier):
    gs = []
    full = tier != "quick"
    for i, net in enumerate(NETS):
        for j, sam in enumerate(("exact", "mc", "mcw")):
            for P, D in ((1, 1), (1, 2), (2, 1), (2, 2)) + (((3, 1),) if full else ()):
                if not full and sam != "exact" and (i + j + P + D) % 2:
                    continue
                gs.append({"name": "box-%s-%s-P%dD%d" % (net, sam, P, D), "kind": "box", "net": net, "sam": sam, "P": P, "D": D, "ham": ["tfim", "cpx", "time"][(i + j) % 3], "tier": tier, "cost": 6 * P})
    for a in range(len(OPS)):
        for sam, P, D in (("exact", 1, 2), ("mcw", 2, 1)):
            gs.append({"name": "hist-%s-P%d-%d" % (sam, P, a), "kind": "hist", "net": "cpxrbm" if sam == "exact" else "two", "sam": sam, "P": P, "D": D, "ham": "time", "first": a, "tier": tier, "cost": 10})
    return gs


def solutions(np, O, E, p, tol):
    """all admissible updates: eigenvalues of the kernel equal to the tolerance within rounding may go either way"""
    keep = p > 0
    O, E, p = O[keep], E[keep], p[keep]
    Ob = np.sqrt(p)[:, None] * (O - p @ O)
    Eb = np.sqrt(p) * (E - p @ E)
    U, s, Vh = np.linalg.svd(Ob, full_matrices=False)
    ev = s ** 2 / s[0] ** 2
    fuzz = 1e-6 * tol + 1e-13
    sure = ev > tol + fuzz
    maybe = np.nonzero(~sure & (ev > tol - fuzz))[0]
    out = []
    for k in range(2 ** len(maybe)):
        m = sure.copy()
        for b, i in enumerate(maybe):
            m[i] = bool(k >> b & 1)
        inv = np.where(m, 1.0 / np.where(m, s, 1.0), 0.0)
        out.append(-(Vh.conj().T @ (inv * (U.conj().T @ Eb))))
    return out, float(np.min(ev[sure])), len(maybe), Ob, Eb


def run(g, ctx):
    from mc.jx import jax, jnp, np, flat
    from mc import zoo, dense
    from mc.nets import all_configs, table_index
    from mc.simmpi import World
    P, D = g["P"], g["D"]
    n = 2 if g["net"] == "table" else 3
    w = World(P)
    pk = w.load()
    cfg = all_configs((n,))
    terms = dense.FAMILY[g["ham"]](n)
    exact = g["sam"] == "exact"
    quick = g["tier"] == "quick"
    N = 0 if exact else {1: 4, 2: 8 if P * D < 4 else 4}[2 if n == 3 else 1]
    base_idx = np.array([3, 0, 5, 6, 1, 7, 2, 4, 4, 1, 0, 7]) % 2 ** n

    class Rank:
        pass
    R = [Rank() for _ in range(P)]

    def setup(r):
        J = pk[r]
        J.global_defs.set_pmap_devices(jax.devices()[:D])
        k = R[r]
        k.J = J
        k.H = dense.build(J.operator, terms)
        k.psi = J.vqs.NQS(batchSize=5, seed=4, **zoo.make(J, g["net"], (n,)))
        if exact:
            k.sam = J.sampler.ExactSampler(k.psi, (n,))
        else:
            per = (12 // (P * D)) * D
            c = cfg[base_idx[r * per:(r + 1) * per]].reshape((D, -1, n))
            wt = np.ones(per * P) if g["sam"] == "mc" else 1.0 + 0.8 * np.sin(1 + 2.0 * np.arange(per * P))
            if g["sam"] == "mcw":
                wt[3] = 0.0
            k.sam = dense.Scripted(J, k.psi, c, (wt / wt.sum())[r * per:(r + 1) * per].reshape((D, -1)))
            k.psi(jnp.asarray(c))
        k.P0 = np.array(k.psi.get_parameters())
        k.out = None
    w.run([lambda r=r: setup(r) for r in range(P)])
    P0 = R[0].P0
    for k in R:
        ctx.check(np.array_equal(k.P0, P0), "initial parameters differ between processes")
    PA = P0 + 0.3 * np.sin(1 + 1.7 * np.arange(P0.size))
    PB = P0 + 0.4 * np.cos(2 + 2.9 * np.arange(P0.size))
    holo = R[0].psi.holomorphic

    def observe(par, t):
        k = R[0]
        k.psi.set_parameters(jnp.asarray(par))
        sh = lambda a: jnp.asarray(a).reshape((D, -1) + a.shape[1:])
        full = np.asarray(k.psi(sh(cfg))).reshape(-1)
        Ofull = flat(k.psi.gradients(sh(cfg)))
        if exact:
            idx = np.arange(2 ** n)
            p = np.exp(2 * np.real(full))
            p = p / p.sum()
        else:
            idx = np.concatenate([table_index(np.asarray(q.sam.c).reshape(-1, n), 2) for q in R])
            p = np.concatenate([np.asarray(q.sam.w).reshape(-1) for q in R])
        M = dense.dense(n, terms, t)
        E = (M[idx] * np.exp(full[None, :] - full[idx][:, None])).sum(1)
        k.psi.set_parameters(jnp.asarray(P0))
        return Ofull[idx], E, p
    with_comm = {}

    def obs(a, t):
        if (a, t) not in with_comm:
            box = [None]

            def body():
                box[0] = observe(PA if a == "A" else PB, t)
            w2 = w
            w2.run([(body if r == 0 else (lambda: None)) for r in range(P)])
            with_comm[(a, t)] = box[0]
        return with_comm[(a, t)]

    def call(eqs, a, t, **kw):
        par = PA if a == "A" else PB

        def body(r):
            k = R[r]
            kk = dict(kw)
            if kk.pop("out", False):
                kk["outp"] = k.out
            u = eqs[r](jnp.asarray(par), t, psi=k.psi, hamiltonian=k.H, **kk)
            return np.asarray(u)
        return w.run([lambda r=r: body(r) for r in range(P)])

    def judge(us, a, t, tol, what):
        O, E, p = obs(a, t)
        sols, smin, amb, Ob, Eb = solutions(np, O, E, p, tol)
        for r, u in enumerate(us):
            ctx.check(u.shape == P0.shape and np.all(np.isfinite(u)), "%s: rank %d: update %s" % (what, r, u))
            ok = any(np.max(np.abs(u - s)) <= 1e-6 * max(1.0, np.max(np.abs(s))) * max(1.0, 1e-7 / smin) for s in sols)
            if not ctx.check(ok, lambda: "%s: rank %d: update %s, minimum-norm solution %s (%d admissible)" % (what, r, u, sols[0], len(sols))):
                return None
        for k in R:
            ctx.check(np.array_equal(np.array(k.psi.get_parameters()), P0), what + ": parameters of the wave function changed")
        ctx.count("ambiguous_singular_values", amb)
        rows = int(np.sum(p > 0))
        if holo and amb == 0 and smin > 1e-6:
            # the step taken by the (complex) parameters is the natural-gradient step
            dO, dE = Ob, Eb
            S = np.real(dO.conj().T @ dO)
            F = np.real(dO.conj().T @ dE)
            want = -np.linalg.pinv(S, rcond=tol, hermitian=True) @ F
            k = R[0]
            tau = 0.25

            def eff():
                k.psi.set_parameters(jnp.asarray(P0 + tau * us[0]))
                x = (np.array(k.psi.get_parameters()) - P0) / tau
                k.psi.set_parameters(jnp.asarray(P0))
                return x
            got = w.run([(eff if r == 0 else (lambda: None)) for r in range(P)])[0]
            ctx.close(got, want, what + ": parameter change against the pseudo-inverse natural-gradient step", rtol=1e-5, atol=1e-6 * max(1.0, np.max(np.abs(want))))
            ctx.count("natural_gradient_agreement")
        m = p @ E
        return np.real(m), np.real(p @ np.abs(E - m) ** 2)

    def energies(eqs, me, what):
        for e in eqs:
            ctx.close(e.get_energy_mean(), np.array(me[0]), what + ": energy mean", rtol=1e-9)
            ctx.close(e.get_energy_variance(), np.array(me[1]), what + ": energy variance", rtol=1e-9, atol=1e-12)

    if g["kind"] == "box":
        def case(c):
            eqs = w.run([lambda r=r: R[r].J.util.MinSR(R[r].sam, pinvTol=c["tol"], makeReal=c["q"], diagonalizeOnDevice=c["dev"]) for r in range(P)])
            kw = {} if c["int"] is None else {"intStep": c["int"]}
            us = call(eqs, c["par"], c["t"], numSamples=12, **kw)
            me = judge(us, c["par"], c["t"], c["tol"], str(c))
            if me is not None and c["int"] == 0:
                energies(eqs, me, str(c))
            ctx.step()
            ctx.state(str(c))
            ctx.validated()
            ctx.outcome(np.round(us[0], 6).tobytes())
        cases = []
        k = 0
        for tol in (1e-10, 1e-8, 1e-6, 1e-4, 1e-2, 0.3):
            for par in "AB":
                for t in (0.0, 0.7):
                    for q in ("real", "imag"):
                        k += 1
                        cases.append({"tol": tol, "par": par, "t": t, "q": q, "dev": bool(k // 2 % 2), "int": [0, None, 1, 0][k % 4]})
        ctx.each(cases[::2] if quick and P > 1 else cases, case)
        return

    import os, shutil, tempfile
    base = tempfile.mkdtemp(prefix="c16.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)

    def mk(r):
        R[r].out = R[r].J.util.OutputManager(os.path.join(base, "o.h5"))
    w.run([lambda r=r: mk(r) for r in range(P)])

    def case(c):
        eqs = w.run([lambda r=r: R[r].J.util.MinSR(R[r].sam, pinvTol=1e-6) for r in range(P)])
        tol, first = 1e-6, None
        for j, o in enumerate(c["h"]):
            what = "step %d (%s) of %s" % (j, o, c["h"])
            if o == "tol":
                tol = 1e-2 if tol == 1e-6 else 1e-6
                for e in eqs:
                    e.set_pinv_tol(tol)
            else:
                t = 0.9 if o.endswith("t") else 0.0
                kw = {} if o[1] == "-" else {"intStep": int(o[1])}
                if o.endswith("o"):
                    kw["out"] = True
                us = call(eqs, o[0], t, **kw)
                me = judge(us, o[0], t, tol, what)
                if me is None:
                    return
                if kw.get("intStep") == 0:
                    first = me
                if first is not None:
                    energies(eqs, first, what)
            ctx.step()
            ctx.state(tuple(c["h"][:j + 1]))
        ctx.validated()
    depth = 3 if quick else 4
    hs = [[OPS[g["first"]]] + list(x) for k in range(depth) for x in itertools.product(OPS, repeat=k)]
    try:
        ctx.each([{"h": h} for h in hs if h[-1][0] in "AB"], case)
    finally:
        shutil.rmtree(base, ignore_errors=True)
