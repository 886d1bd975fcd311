"""C15: TDVP against a numpy implementation of the stated equation."""
import itertools

LEVEL = "model_checking"
RULE = ("box: every combination of (makeReal, rhsPrefactor, diagonal shift, snrTol, pinvTol/pinvCutoff, cross validation, intStep) for every (network, Hamiltonian, sampler kind, devices), "
        "update, S, spectrum, residuals, SNR, energy mean and variance compared with a numpy solution of the stated equation on the same sample; "
        "hist: every history of calls (parameters, time, intStep, shift, cross validation, output manager) up to the depth bound")
ASSUMPTIONS = ["gradients and network amplitudes are those reported by the wave function (decided by C09, C10)", "lattices of 2 and 3 sites",
               "signal-to-noise ratios are compared for non-degenerate eigenvalues well above rounding; where the residual of a cutoff equals pinvTol within rounding either side is accepted"]
NDEV = 2
NETS = ["cpxrbm", "rbm", "two", "nonholo", "table", "ffn"]


def groups(tier):
    gs = []
    full = tier != "quick"
    for i, net in enumerate(NETS):
        for j, sam in enumerate(("exact", "mc", "mcw")):
            for D in (1, 2):
                if not full and sam == "mcw" and D == 1 + i % 2:
                    continue
                gs.append({"name": "box-%s-%s-D%d" % (net, sam, D), "kind": "box", "net": net, "sam": sam, "D": D, "ham": ["tfim", "cpx", "time"][(i + j) % 3], "tier": tier, "cost": 10})
    for a in range(len(CALLS)):
        for sam in ("exact", "mc"):
            gs.append({"name": "hist-%s-%d" % (sam, a), "kind": "hist", "net": "cpxrbm" if sam == "exact" else "two", "sam": sam, "D": 2, "ham": "time", "first": a, "tier": tier, "cost": 8})
    return gs


CALLS = ["A0", "A1", "B0", "B-", "A0t", "shift", "cv", "A0o", "nocv"]




def reference(np, O, E, p, cfg):
    """the stated equation; returns a dict with all reported quantities and the admissible (update, residual, cutoff)"""
    from mc.dense import stats
    S0, F0, mE, vE, dO, dE = stats(O, E, p)
    x = cfg["x"]
    q = (lambda a: np.real(a)) if cfg["q"] == "real" else (lambda a: 1j * np.imag(a))
    F0 = -x * F0
    S, F = q(S0), q(F0)
    if cfg["shift"] > 1e-10:
        S = S + np.diag(cfg["shift"] * np.diag(S))
    ev, V = np.linalg.eigh(S)
    VtF = V.conj().T @ F
    data = (V.conj().T @ q(-x * (dO.conj() * dE[:, None])).T).T
    m = p @ data
    var = p @ np.abs(data - m) ** 2
    N = len(p)
    with np.errstate(all="ignore"):
        snr = np.where(VtF == 0, 0.0, np.sqrt(np.abs(N * np.abs(VtF) ** 2 / var)))
        rel = np.abs(ev / ev[-1])
        inv = np.where(rel > 1e-14, 1.0 / ev, 0.0)
    Fn = np.linalg.norm(F)
    cand = []
    # eigenvectors of (near-)degenerate eigenvalues are not unique, and the SNR of their components depends on the choice
    amb = np.zeros(len(ev), dtype=bool)
    if not cfg["exact"]:
        for k in range(len(ev)):
            for j in range(len(ev)):
                if j != k and abs(ev[k] - ev[j]) < 1e-6 * np.max(np.abs(ev)) and rel[k] > 1e-3 * cfg["pinvCutoff"]:
                    amb[k] = True
    res, cut = 1.0, max(1e-2, 1.25 * cfg["pinvCutoff"])
    tol, cutoff = cfg["pinvTol"], cfg["pinvCutoff"]
    while cut > cutoff:
        cut *= 0.8
        with np.errstate(all="ignore"):
            reg = 1 / (1 + (max(cut, cutoff) / rel) ** 6)
            if not cfg["exact"]:
                reg = reg * (1 / (1 + (cfg["snrTol"] / snr) ** 6))
        reg = np.where(np.isfinite(reg), reg, 0.0)
        pe = inv * reg
        res = np.linalg.norm((pe * ev - 1) * VtF) / (Fn if Fn > 0 else 1.0)
        fuzzy = abs(res / tol - 1) < (0.9 if tol < 1e-11 else 1e-5)
        fuzzy = fuzzy or np.any(amb)
        if res <= tol or cut <= cutoff or fuzzy:
            cand.append((np.real(V @ (pe * VtF)), res, max(cut, cutoff)))
            if not fuzzy:
                break
    return {"S": S, "S0": S0, "F0": F0, "ev": ev, "snr": snr, "mE": mE, "vE": vE, "cand": cand, "V": V, "F": F, "rel": rel, "amb": amb}


def run(g, ctx):
    from mc.jx import jax, jnp, np, flat
    from mc import zoo, dense
    from mc.nets import all_configs, table_index
    import jVMC
    D, n = g["D"], 3 if g["net"] != "table" else 2
    jVMC.global_defs.set_pmap_devices(jax.devices()[:D])
    quick = g["tier"] == "quick"
    terms = dense.FAMILY[g["ham"]](n)
    H = dense.build(jVMC.operator, terms)
    psi = jVMC.vqs.NQS(batchSize=5, seed=4, **zoo.make(jVMC, g["net"], (n,)))
    cfg = all_configs((n,))
    exact = g["sam"] == "exact"
    if exact:
        sam = jVMC.sampler.ExactSampler(psi, (n,))
    else:
        k = np.arange(8)
        idx = np.array([3, 0, 5, 6, 1, 7, 2, 4, 4, 1, 0, 7])[: 8 if n == 2 else 12] % 2 ** n
        c = cfg[idx].reshape((D, -1, n))
        w = np.ones(len(idx)) if g["sam"] == "mc" else 1.0 + 0.8 * np.sin(1 + 2.0 * np.arange(len(idx)))
        if g["sam"] == "mcw":
            w[3] = 0.0
        sam = dense.Scripted(jVMC, psi, c, (w / w.sum()).reshape((D, -1)))
        psi(jnp.asarray(c))
    P0 = np.array(psi.get_parameters())
    PA = P0 + 0.3 * np.sin(1 + 1.7 * np.arange(P0.size))
    PB = P0 + 0.4 * np.cos(2 + 2.9 * np.arange(P0.size))

    def observe(par, t):
        """sample, gradients and local energies at parameters par"""
        psi.set_parameters(jnp.asarray(par))
        if exact:
            a = cfg
            l = np.asarray(psi(jnp.asarray(cfg)[None] if D == 1 else jnp.asarray(cfg).reshape((D, -1, n)))).reshape(-1)
            p = np.exp(2 * np.real(l))
            p = p / p.sum()
            full = l
            O = flat(psi.gradients(jnp.asarray(cfg).reshape((D, -1, n))))
        else:
            a = np.asarray(sam.c).reshape(-1, n)
            p = np.asarray(sam.w).reshape(-1)
            full = np.asarray(psi(jnp.asarray(cfg).reshape((D, -1, n)))).reshape(-1)
            O = flat(psi.gradients(sam.c))
        M = dense.dense(n, terms, t)
        i = table_index(a, 2)
        E = (M[i] * np.exp(full[None, :] - full[i][:, None])).sum(1)
        psi.set_parameters(jnp.asarray(P0))
        return O, E, p

    def judge_update(upd, ref, what):
        upd = np.asarray(upd)
        ok = False
        for u, res, cut in ref["cand"]:
            sc = max(1e-3, np.max(np.abs(u)))
            if upd.shape == u.shape and np.all(np.isfinite(upd)):
                d = upd - u if not np.any(ref["amb"]) else (ref["V"].conj().T @ (upd - u))[~ref["amb"]]
                ok = ok or np.max(np.abs(d), initial=0.0) <= 2e-5 * sc
        ctx.count("directions_judged", int(np.sum(~ref["amb"])))
        ctx.check(ok, lambda: "%s: update %s, the stated equation gives %s (cutoff %s)" % (what, upd, ref["cand"][-1][0], ref["cand"][-1][2]))
        return ok

    def judge_state(eq, ref, upd, cfgd, what):
        """quantities reported for the first integration stage"""
        ctx.close(eq.get_energy_mean(), np.real(ref["mE"]), what + ": energy mean", rtol=1e-9)
        ctx.close(eq.get_energy_variance(), np.array(ref["vE"]), what + ": energy variance", rtol=1e-9)
        ctx.close(np.sort(np.asarray(eq.get_spectrum())), ref["ev"], what + ": spectrum", rtol=1e-7, atol=1e-10)
        err, res = eq.get_residuals()
        want = abs(1 + np.real(upd @ (ref["S0"] @ upd) - 2 * np.real(upd @ ref["F0"])) / ref["vE"])
        ctx.close(err, np.array(want), what + ": tdvp error", rtol=1e-6, atol=1e-7)
        ctx.check(np.any(ref["amb"]) or any(abs(float(res) - r) <= 1e-6 * max(r, 1e-7) + 1e-13 for _, r, _ in ref["cand"]), "%s: residual %s, expected one of %s" % (what, res, [r for _, r, _ in ref["cand"]]))
        md = eq.get_metadata()
        if "pinv_cutoff" in md:
            ctx.check(any(abs(float(md["pinv_cutoff"]) / c - 1) < 1e-9 for _, _, c in ref["cand"]), "%s: cutoff %s, expected %s" % (what, md["pinv_cutoff"], [c for _, _, c in ref["cand"]]))
        ev = ref["ev"]
        snr = np.asarray(eq.get_snr()).ravel()
        ctx.check(snr.shape == ev.shape, what + ": SNR shape")
        for k in range(len(ev)):
            gap = min([abs(ev[k] - ev[j]) for j in range(len(ev)) if j != k] or [1.0])
            if ref["rel"][k] > 1e-6 and gap > 1e-5 * abs(ev[-1]) and ref["snr"][k] > 1e-6 and ref["snr"][k] < 1e6:
                ctx.check(abs(snr[k] / ref["snr"][k] - 1) < 1e-4, "%s: SNR of eigenvalue %d is %s, expected %s" % (what, k, snr[k], ref["snr"][k]))

    if g["kind"] == "box":
        obs = {}

        def case(c):
            key = (c["par"], c["t"])
            if key not in obs:
                obs[key] = observe(PA if c["par"] == "A" else PB, c["t"])
            O, E, p = obs[key]
            cf = dict(c, exact=exact, x=1j if c["x"] == "i" else (1.0 if c["x"] == "1" else 0.6 - 0.8j))
            ref = reference(np, O, E, p, cf)
            if np.max(np.abs(ref["S"])) < 1e-12:
                return      # q[S] = 0: there is no equation to solve
            eq = jVMC.util.TDVP(sam, snrTol=c["snrTol"], pinvTol=c["pinvTol"], pinvCutoff=c["pinvCutoff"], makeReal=c["q"], rhsPrefactor=cf["x"], diagonalShift=c["shift"],
                                crossValidation=c["cv"], diagonalizeOnDevice=c["dev"])
            kw = {} if c["int"] is None else {"intStep": c["int"]}
            par = jnp.asarray(PA if c["par"] == "A" else PB)
            psi.set_parameters(jnp.asarray(P0))
            upd = eq(par, c["t"], psi=psi, hamiltonian=H, numSamples=12, **kw)
            ctx.step()
            what = str(c)
            ctx.check(np.array_equal(np.array(psi.get_parameters()), P0), what + ": parameters of the wave function changed")
            if judge_update(upd, ref, what):
                ctx.close(eq.get_S(), ref["S"], what + ": S", rtol=1e-8, atol=1e-10)
                if cf["x"] == 1.0 and not c["cv"]:
                    so = lambda a: jVMC.stats.SampledObs(jnp.asarray(a).reshape((D, len(p) // D) + a.shape[1:]), jnp.asarray(p).reshape((D, -1)))
                    S_, F_ = eq.get_sr_equation(so(E), so(O))
                    ctx.close(S_, ref["S"], what + ": S of get_sr_equation", rtol=1e-8, atol=1e-10)
                    ctx.close(np.asarray(F_).ravel(), ref["F"], what + ": F of get_sr_equation", rtol=1e-8, atol=1e-10)
                if c["int"] == 0:
                    judge_state(eq, ref, np.asarray(upd), cf, what)
            ctx.state(what)
            ctx.validated()
            ctx.outcome(np.round(np.asarray(upd), 6).tobytes())
        cases = []
        k = 0
        for q, x in (("imag", "i"), ("real", "1"), ("imag", "c"), ("real", "i"), ("real", "c")):
            for shift in (0.0, 0.1, 10.0):
                for tol, cut in ((1e-14, 1e-8), (1e-2, 1e-8), (1e-14, 1e-3), (1e-4, 1e-2)):
                    for snr in ((2,) if exact else (2, 1e-3, 0.5)):
                        for cv in ((False, True) if (shift == 0.1 or not quick) and snr != 0.5 else (False,)):
                            if q == "imag" and shift > 0:
                                continue
                            k += 1
                            cases.append({"q": q, "x": x, "shift": shift, "pinvTol": tol, "pinvCutoff": cut, "snrTol": snr, "cv": cv, "int": [0, 0, None, 1, 0][k % 5] if not cv else 0,
                                          "par": "AB"[k % 2], "t": [0.0, 0.7][k % 2], "dev": bool((k // 2) % 2)})
        if quick:
            cases = [c for i, c in enumerate(cases) if c["cv"] or i % 2 == 0 or exact]
        ctx.each(cases, case)
        return

    import os, shutil, tempfile
    base = tempfile.mkdtemp(prefix="c15.", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    outp = jVMC.util.OutputManager(os.path.join(base, "o.h5"))
    obs = {(a, t): observe(PA if a == "A" else PB, t) for a in "AB" for t in (0.0, 0.9)}

    def case(c):
        eq = jVMC.util.TDVP(sam, snrTol=1e-2, pinvTol=1e-6, pinvCutoff=1e-6, makeReal="real", rhsPrefactor=1.0, diagonalShift=0.0)
        psi.set_parameters(jnp.asarray(P0))
        shift, cv, first = 0.0, False, None
        for k, o in enumerate(c["h"]):
            what = "step %d (%s) of %s" % (k, o, c["h"])
            if o == "shift":
                shift = 0.5 - shift
                eq.set_diagonal_shift(shift)
            elif o in ("cv", "nocv"):
                cv = o == "cv"
                if cv:
                    eq.set_cross_validation()
                else:
                    eq.set_cross_validation(False)
            else:
                t = 0.9 if o.endswith("t") else 0.0
                kw = {} if o[1] == "-" else {"intStep": int(o[1])}
                if o.endswith("o"):
                    kw["outp"] = outp
                par = jnp.asarray(PA if o[0] == "A" else PB)
                cf = {"q": "real", "x": 1.0, "shift": shift, "pinvTol": 1e-6, "pinvCutoff": 1e-6, "snrTol": 1e-2, "exact": exact}
                ref = reference(np, *obs[(o[0], t)], cf)
                upd = np.asarray(eq(par, t, psi=psi, hamiltonian=H, **kw))
                ctx.check(np.array_equal(np.array(psi.get_parameters()), P0), what + ": parameters changed")
                if not judge_update(upd, ref, what):
                    return
                ctx.close(eq.get_S(), ref["S"], what + ": S", rtol=1e-8, atol=1e-10)
                v = np.cos(np.arange(P0.size))
                ctx.close(eq.S_dot(jnp.asarray(v)), ref["S0"] @ v, what + ": S_dot", rtol=1e-8, atol=1e-10)
                if kw.get("intStep") == 0:
                    first = (ref, upd, cf)
                if first is not None:
                    if kw.get("intStep") == 0:
                        judge_state(eq, first[0], first[1], cf, what)
                    else:       # quantities of the first stage persist
                        ctx.close(eq.get_energy_mean(), np.real(first[0]["mE"]), what + ": energy mean of the first stage", rtol=1e-9)
                        ctx.close(eq.get_energy_variance(), np.array(first[0]["vE"]), what + ": energy variance of the first stage", rtol=1e-9)
                        ctx.close(np.sort(np.asarray(eq.get_spectrum())), first[0]["ev"], what + ": spectrum of the first stage", rtol=1e-7, atol=1e-10)
            ctx.step()
            ctx.state(tuple(c["h"][:k + 1]))
        ctx.validated()
    depth = 3 if quick else 4
    hs = [[CALLS[g["first"]]] + list(t) for k in range(depth) for t in itertools.product(CALLS, repeat=k)]
    try:
        ctx.each([{"h": h} for h in hs if h[-1][0] in "AB"], case)
    finally:
        shutil.rmtree(base, ignore_errors=True)
