"""C18: POVM operators, frames and measurements against dense density matrices."""
import itertools

LEVEL = "model_checking"
RULE = ("terms: every ordered list of terms up to the size bound over an alphabet of (name, ordered sites) on 3 and 4 sites (incl. user-defined two- and three-body unitary, dissipative and imaginary-time terms): complete generator (all 4^N outcomes) "
        "compared with the frame transform of the dense Lindblad right-hand side; hist: every history of adding (shared, reused, changed) descriptions to two operators and evaluating them up to the depth bound; "
        "frame: grid of frame angles x every matrix of a spanning family x mode; measure: density matrices x lattices x devices x processes x exact and scripted samples")
ASSUMPTIONS = ["matrix elements of modulus up to 1e-6 are dropped by the library; generators are compared to 1e-5", "the distance-zero correlator is not an expectation value of the density matrix and is compared with its defining average only"]
NDEV = 2
S2 = [(0, 1), (1, 0), (1, 2), (2, 0), (0, 2)]
ALPHA = ([("X", (0,)), ("Y", (1,)), ("Z", (2,)), ("decayup", (0,)), ("decaydown", (1,)), ("dephasing", (2,)), ("imZ", (1,))]
         + [("XX", (0, 1)), ("YY", (2, 1)), ("ZZ", (2, 0)), ("ZZ", (0, 1)), ("AB", (0, 1)), ("AB", (1, 0)), ("AB", (2, 0)), ("AB", (0, 2)), ("hop", (1, 2)), ("imAB", (2, 1))]
         + [("three", (0, 1, 2)), ("three", (2, 0, 1)), ("three", (0, 2, 1))])
SMALL = [0, 3, 4, 8, 10, 11, 12, 14, 17, 19]


def groups(tier):
    gs = []
    full = tier != "quick"
    for i in range(len(ALPHA)):
        gs.append({"name": "terms-%d" % i, "kind": "terms", "first": i, "N": 3, "tier": tier, "cost": 10})
    gs.append({"name": "terms4", "kind": "terms4", "N": 4, "tier": tier, "cost": 12})
    for i in range(len(HOPS)):
        gs.append({"name": "hist-%s" % HOPS[i], "kind": "hist", "first": i, "N": 3, "tier": tier, "cost": 10})
    for i in range(6 if full else 3):
        gs.append({"name": "frame-%d" % i, "kind": "frame", "i": i, "tier": tier, "cost": 8})
    for dim, L in (("1D", 2), ("1D", 3), ("2D", 2)):
        for P, D in ((1, 1), (1, 2), (2, 1)) + (((2, 2), (3, 1)) if full else ()):
            gs.append({"name": "measure-%s-L%d-P%dD%d" % (dim, L, P, D), "kind": "measure", "dim": dim, "L": L, "P": P, "D": D, "tier": tier, "cost": 8})
    return gs


HOPS = ["A1", "A2", "B1", "B3", "A3", "reuse", "evA", "evB"]


def pauli(np):
    X = np.array([[0, 1], [1, 0]], complex)
    Y = np.array([[0, -1j], [1j, 0]])
    Z = np.diag([1.0 + 0j, -1.0])
    return X, Y, Z


def library(np):
    """name -> (kind, matrix)"""
    X, Y, Z = pauli(np)
    up, dn = (X + 1j * Y) / 2, (X - 1j * Y) / 2
    k = np.kron
    AB = k(up, Z) + 0.3 * k(np.eye(2), X)
    hop = k(up, dn) + k(dn, up) + 0.4 * k(Z, np.eye(2))
    three = k(k(up, Z), X) + 0.5 * k(k(np.eye(2), Y), np.eye(2))
    return {"X": ("uni", X), "Y": ("uni", Y), "Z": ("uni", Z), "XX": ("uni", k(X, X)), "YY": ("uni", k(Y, Y)), "ZZ": ("uni", k(Z, Z)),
            "decayup": ("dis", up), "decaydown": ("dis", dn), "dephasing": ("dis", Z), "imZ": ("imag", Z), "imAB": ("imag", k(Z, X) + 0.3 * k(X, np.eye(2))),
            "AB": ("dis", AB), "hop": ("uni", hop), "three": ("dis", three)}


def rhs(np, kind, A, rho):
    Ad = A.conj().T
    if kind == "uni":
        return -1j * (A @ rho - rho @ A)
    if kind == "dis":
        return A @ rho @ Ad - 0.5 * (Ad @ A @ rho + rho @ Ad @ A)
    return -(A @ rho + rho @ A)


def kronM(np, M, n):
    """all n-body frame elements, outcome (a_1..a_n) with a_1 slowest"""
    out = M
    for _ in range(n - 1):
        out = np.einsum("aij,bkl->abikjl", out, M).reshape(len(out) * 4, out.shape[1] * 2, out.shape[2] * 2)
    return out


def omega(np, kind, A, M, n):
    """Omega[a, b] = sum_c Tr(M^a L(M^c)) T^-1_cb for an n-body term on its own sites"""
    Mn = kronM(np, M, n)
    T = np.real(np.einsum("aij,bji->ab", Mn, Mn))
    LM = np.array([rhs(np, kind, A, m) for m in Mn])
    G = np.real(np.einsum("aij,cji->ac", Mn, LM))
    return G @ np.linalg.inv(T)


def embed(np, Om, sites, N):
    """generator on N sites; outcome index with site 0 slowest"""
    n = len(sites)
    rest = [s for s in range(N) if s not in sites]
    full = np.kron(Om, np.eye(4 ** len(rest))).reshape((4,) * (2 * N))
    order = list(sites) + rest
    perm = [order.index(s) for s in range(N)]
    return full.transpose(perm + [N + p for p in perm]).reshape(4 ** N, 4 ** N)


def run(g, ctx):
    from mc.jx import jax, jnp, np
    quick = g["tier"] == "quick"
    if g["kind"] == "measure":
        return measure(g, ctx, quick)
    import jVMC
    jVMC.global_defs.set_pmap_devices(jax.devices()[:1])
    op = jVMC.operator
    LIB = library(np)
    if g["kind"] == "frame":
        return frames(g, ctx, quick, jVMC, LIB)
    N = g["N"]
    cfg = np.array(list(itertools.product(range(4), repeat=N)), dtype=np.int32)
    rank = np.array([4 ** (N - 1 - k) for k in range(N)])
    povm = op.POVM({"dim": "1D", "L": N}, theta=0.4, phi=0.9)
    M = np.asarray(povm.M)
    for nm, (kind, A) in LIB.items():
        if nm not in povm.operators:
            n = int(round(np.log2(len(A))))
            Mn = jnp.asarray(kronM(np, M, n))
            Ti = jnp.asarray(np.linalg.inv(np.real(np.einsum("aij,bji->ab", np.asarray(Mn), np.asarray(Mn)))))
            tab = op.matrix_to_povm(jnp.asarray(A), Mn, Ti, mode=kind)
            {"uni": povm.add_unitary, "dis": povm.add_dissipator, "imag": povm.add_imaginary}[kind](nm, tab)
    cache = {}

    def term(nm, sites):
        if (nm, sites) not in cache:
            kind, A = LIB[nm]
            cache[(nm, sites)] = embed(np, omega(np, kind, A, M, len(sites)), sites, N)
        return cache[(nm, sites)]

    def generator(o):
        sp, el = o.get_s_primes(jnp.asarray(cfg)[None])
        sp, el = np.asarray(sp), np.asarray(el)[0]
        sp = sp.reshape((len(cfg), -1, N))
        G = np.zeros((4 ** N, 4 ** N), dtype=el.dtype)
        for k in range(sp.shape[1]):
            np.add.at(G, (np.arange(len(cfg)), sp[:, k] @ rank), el[:, k])
        return G

    def judge(o, terms, what):
        G = generator(o)
        want = sum((s * term(nm, st) for nm, s, st in terms), np.zeros((4 ** N, 4 ** N)))
        ok = ctx.close(G, want, what + ": generator", rtol=0, atol=1e-5 * max(1, len(terms)))
        if all(LIB[nm][0] != "imag" for nm, _, _ in terms):
            ctx.check(np.max(np.abs(G.sum(0))) < 1e-4, "%s: total probability is not conserved (%s)" % (what, np.max(np.abs(G.sum(0)))))
        ctx.step(len(cfg))
        return ok

    if g["kind"] in ("terms", "terms4"):
        STR = [1.0, -0.7, 2.5, 0.4]

        def case(c):
            o = op.POVMOperator(povm)
            ts = []
            for k, (nm, st) in enumerate(c["t"]):
                d = {"name": nm, "strength": STR[k], "sites": tuple(st)}
                d0 = dict(d)
                o.add(d)
                ctx.check(d == d0, "the description was changed to %s" % d)
                ts.append((nm, STR[k], tuple(st)))
            judge(o, ts, str(c["t"]))
            ctx.state(str(c["t"]))
            ctx.validated()
        if g["kind"] == "terms":
            a = g["first"]
            lists = [[a]] + [[a, b] for b in range(len(ALPHA))]
            if a in SMALL:
                sub = SMALL if not quick else SMALL[::2] + [17]
                lists += [[a, b, d] for b in sub for d in sub if (not quick or b != d)]
            ctx.each([{"t": [ALPHA[i] for i in l]} for l in lists], case)
        else:
            al = [("X", (3,)), ("AB", (0, 3)), ("AB", (3, 1)), ("AB", (2, 3)), ("dephasing", (0,)), ("ZZ", (1, 2))]
            ctx.each([{"t": list(l)} for k in (1, 2, 3) for l in itertools.permutations(al, k) if k < 3 or not quick or l[0][0] == "AB"], case)
        return

    if g["kind"] == "hist":
        D = {"1": ("AB", 1.0, (0, 1)), "2": ("ZZ", 0.5, (0, 2)), "3": ("X", -2.0, (0,))}

        def case(c):
            O = {"A": op.POVMOperator(povm), "B": op.POVMOperator(povm)}
            model = {"A": [], "B": []}
            d = {k: {"name": v[0], "strength": v[1], "sites": v[2]} for k, v in D.items()}
            for k, o in enumerate(c["h"]):
                what = "step %d (%s) of %s" % (k, o, c["h"])
                if o == "reuse":      # the caller reuses description 1 for the next term
                    d["1"]["sites"] = (1, 2) if d["1"]["sites"] == (0, 1) else (0, 1)
                    d["1"]["strength"] = d["1"]["strength"] + 0.5
                elif o.startswith("ev"):
                    if not model[o[2]]:
                        return
                    if not judge(O[o[2]], model[o[2]], what):
                        return
                else:
                    x = d[o[1]]
                    before = dict(x)
                    O[o[0]].add(x)
                    ctx.check(x == before, "%s: description changed to %s" % (what, x))
                    model[o[0]].append((x["name"], x["strength"], x["sites"]))
                ctx.state(tuple(c["h"][:k + 1]))
            ctx.validated()
        hs = []
        depth = 5 if quick else 6
        for k in range(1, depth):
            for t in itertools.product(HOPS, repeat=k):
                h = [HOPS[g["first"]]] + list(t)
                if not h[-1].startswith("ev") or h[0].startswith("ev") or h[0] == "reuse" or any(h[i] == h[i + 1] and h[i].startswith("ev") for i in range(len(h) - 1)):
                    continue
                # an evaluation needs a term; a reuse needs an earlier and a later use of description 1
                if any(e.startswith("ev") and not any(x[0] == e[2] for x in h[:i]) for i, e in enumerate(h)):
                    continue
                if any(e == "reuse" and not any(x in ("A1", "B1") for x in h[:i]) for i, e in enumerate(h)):
                    continue
                if h[-1] == "evB" and h[-2][0] == "A" and "evA" in h:
                    continue
                hs.append(h)
        if quick:
            hs = [h for i, h in enumerate(hs) if len(h) < 5 or i % 5 == 0]
        ctx.each([{"h": h} for h in hs], case)


def frames(g, ctx, quick, jVMC, LIB):
    from mc.jx import jax, jnp, np
    op = jVMC.operator
    X, Y, Z = pauli(np)
    angles = [0.0, 0.3, np.pi / 2, 2.1, np.pi, -0.8]
    cases = [{"theta": t, "phi": p} for i, t in enumerate(angles) for j, p in enumerate(angles) if (i + j) % (3 if quick else 6) == g["i"]]
    E1 = [np.eye(2), X, Y, Z, X + 0.5 * Z, (X + 1j * Y) / 2, (X - 1j * Y) / 2, np.array([[1, 0], [0, 0]]), np.array([[0, 1j], [0.5, 2]]), np.array([[1, 2 - 1j], [2 + 1j, -1]])]
    states = {"z_up": [1, 0], "z_down": [0, 1], "x_up": [1, 1], "x_down": [1, -1], "y_up": [1, 1j], "y_down": [1, -1j]}

    def case(c):
        povm = op.POVM({"dim": "1D", "L": 2}, theta=c["theta"], phi=c["phi"])
        M = np.asarray(povm.M)
        ctx.check(M.shape == (4, 2, 2), "frame shape")
        ctx.close(M.sum(0), np.eye(2), "frame elements add up to the identity", atol=1e-10)
        ctx.close(M, M.conj().transpose(0, 2, 1), "frame elements are Hermitian", atol=1e-12)
        ctx.check(np.min(np.linalg.eigvalsh(M)) > -1e-10, "frame elements are positive")
        T = np.real(np.einsum("aij,bji->ab", M, M))
        ctx.check(np.linalg.matrix_rank(T, tol=1e-8) == 4, "frame is informationally complete")
        ctx.close(T, (2 * np.eye(4) + np.ones((4, 4))) / 12, "frame is symmetric (SIC)", atol=1e-9)
        ctx.close(povm.T, T, "overlap matrix", atol=1e-12)
        ctx.close(povm.T_inv, np.linalg.inv(T), "inverse overlap matrix", atol=1e-9)
        # orientation: the first element points along the rotated z axis
        d = np.real(np.array([np.trace(M[0] @ s) for s in (X, Y, Z)])) * 2
        th, ph = c["theta"], c["phi"]
        ctx.close(abs(np.array(d[2])), np.array(abs(np.cos(th))), "first frame element has polar angle theta", atol=1e-9)
        Ti = np.linalg.inv(T)
        for k, A in enumerate(E1):
            A = np.asarray(A, complex)
            herm = np.allclose(A, A.conj().T)
            for mode, alt in (("unitary", "uni"), ("dissipative", "dis"), ("imaginary", "imag")):
                if mode != "dissipative" and not herm:
                    continue
                want = omega(np, alt, A, M, 1)
                for m in (mode, alt):
                    ctx.close(op.matrix_to_povm(jnp.asarray(A), povm.M, povm.T_inv, mode=m), want, "matrix %d, mode %s" % (k, m), atol=1e-9)
            if herm:
                o = np.asarray(op.matrix_to_povm(jnp.asarray(A), povm.M, povm.T_inv, mode="obs"))
                for rho in (np.array([[0.7, 0.1 - 0.2j], [0.1 + 0.2j, 0.3]]), np.array([[0.2, 0.3j], [-0.3j, 0.8]])):
                    p = np.real(np.einsum("aij,ji->a", M, rho))
                    ctx.close(o @ p, np.real(np.trace(rho @ A)), "observable %d" % k, atol=1e-9)
        for nm, v in states.items():
            v = np.array(v, complex)
            v = v / np.linalg.norm(v)
            p = np.asarray(op.povm.get_1_particle_distributions(nm, povm))
            ctx.close(p, np.real(np.einsum("i,aij,j->a", v.conj(), M, v)), "one-particle distribution " + nm, atol=1e-9)
        for nm, (kind, A) in LIB.items():
            if nm in povm.operators:
                ctx.close(povm.operators[nm], omega(np, kind, A, M, int(round(np.log2(len(A))))), "table of " + nm, atol=1e-9)
        for nm, A in (("X", X), ("Y", Y), ("Z", Z)):
            ctx.close(np.asarray(povm.observables[nm]), np.real(Ti @ np.einsum("aij,ji->a", M, A)), "observable " + nm, atol=1e-9)
        ctx.step(20)
        ctx.state((c["theta"], c["phi"]))
        ctx.validated()
    ctx.each(cases, case)


def measure(g, ctx, quick):
    from mc.jx import jax, jnp, np
    from mc.nets import TableNet, all_configs, table_index
    from mc.dense import Scripted
    from mc.simmpi import World
    P, D, L = g["P"], g["D"], g["L"]
    shape = (L,) if g["dim"] == "1D" else (L, L)
    n = int(np.prod(shape))
    w = World(P)
    pk = w.load()
    cfg = all_configs(shape, 4)
    flatc = cfg.reshape(len(cfg), -1)
    R = [type("R", (), {})() for _ in range(P)]
    net = TableNet(shape=shape, lDim=4, cpx=False)

    def setup(r):
        J, k = pk[r], R[r]
        J.global_defs.set_pmap_devices(jax.devices()[:D])
        k.povm = J.operator.POVM({"dim": g["dim"], "L": L}, theta=0.4, phi=0.9)
        k.psi = J.vqs.NQS(net, batchSize=16, seed=1)
        k.psi(jnp.asarray(cfg[:D]).reshape((D, 1) + shape))
        k.sam = J.sampler.ExactSampler(k.psi, shape, lDim=4, logProbFactor=1)
    w.run([lambda r=r: setup(r) for r in range(P)])
    M = np.asarray(R[0].povm.M)
    paul = dict(zip("XYZ", pauli(np)))

    def on(site, A):
        out = np.eye(1)
        for s in range(n):
            out = np.kron(out, A if s == site else np.eye(2))
        return out

    def rho_of(k):
        d = 2 ** n
        i = np.arange(d * d).reshape(d, d)
        A = np.sin(1.0 + (k + 1) * i) + 1j * np.cos(0.3 + 1.9 * i + k)
        rho = A @ A.conj().T
        v = np.exp(0.7j * np.arange(d) * (k + 1))
        rho = rho / np.trace(rho) + [0.2, 0.5, 0.05][k % 3] * np.outer(v, v.conj()) / d
        return rho / np.trace(rho)
    rhos = [rho_of(k) for k in range(3)]
    # probabilities of all outcomes, site 0 first in the Kronecker products
    Mn = kronM(np, M, n)
    rank = np.array([4 ** (n - 1 - k) for k in range(n)])
    lat = np.arange(n).reshape(shape)
    obs = {nm: np.asarray(R[0].povm.observables[nm]) for nm in "XYZ"}

    def judge(res, rho, s, p, N, names, what):
        for nm in names:
            tab = obs[nm] if nm in obs else extra[nm]
            A = paul.get(nm, extraA)
            per = tab[s]
            x = per.mean(1)
            m = p @ x
            ctx.close(res[nm]["mean"], m, what + nm + ": mean", atol=1e-9)
            ctx.close(res[nm]["variance"], p @ (x - m) ** 2, what + nm + ": variance", atol=1e-9)
            ctx.close(res[nm]["MC_error"], np.sqrt(p @ (x - m) ** 2) / np.sqrt(N), what + nm + ": MC_error", atol=1e-9)
            if rho is not None:
                ctx.close(res[nm]["mean"], np.mean([np.real(np.trace(rho @ on(i, A))) for i in range(n)]), what + nm + ": expectation value", atol=1e-8)
            for l in range(L):
                key = "%s_corr_L%d" % (nm, l)
                if not ctx.check(key in res, "%s: %s missing from %s" % (what, key, list(res))):
                    continue
                sh = np.roll(lat, l, axis=0).ravel()
                y = (per * per[:, sh]).mean(1)
                my = p @ y
                ctx.close(res[key]["mean"], my - m ** 2, what + key + ": mean", atol=1e-9)
                ctx.close(res[key]["variance"], p @ (y - my) ** 2, what + key + ": variance", atol=1e-8)
                ctx.close(res[key]["MC_error"], np.sqrt(p @ (y - my) ** 2) / np.sqrt(N), what + key + ": MC_error", atol=1e-9)
                if rho is not None and l > 0:
                    ex = np.mean([np.real(np.trace(rho @ on(i, A) @ on(int(sh[i]), A))) for i in range(n)])
                    ctx.close(res[key]["mean"], ex - m ** 2, what + key + ": connected correlator", atol=1e-7)
    extraA = (paul["X"] + 2 * paul["Z"]) / 2
    extra = {"W": np.asarray(pk[0].operator.matrix_to_povm(jnp.asarray(extraA), R[0].povm.M, R[0].povm.T_inv, mode="obs"))}

    def case(c):
        rho = rhos[c["rho"]]
        pr = np.real(np.einsum("aij,ji->a", Mn, rho))[flatc @ rank]
        assert np.min(pr) > 0
        logp = np.log(pr)
        kw = {}
        names = ["X", "Y", "Z"]
        if c["obs"] == "W":
            names = ["W", "Y"]
        elif c["obs"] == "Z":
            names = ["Z"]

        def body(r):
            k, J = R[r], pk[r]
            k.psi.set_parameters(jnp.asarray(logp))
            o = None if c["obs"] is None else {nm: jnp.asarray(obs[nm] if nm in obs else extra[nm]) for nm in names}
            if c["sam"] == "exact":
                if c["pass"]:
                    s, _, p = k.sam.sample()
                    if c["pass"] == "numpy":
                        s, p = np.asarray(s), np.asarray(p)
                    return J.operator.povm.measure_povm(k.povm, k.sam, sampleConfigs=s, probs=p, observables=o), float("inf"), None
                return J.operator.povm.measure_povm(k.povm, k.sam, observables=o), float("inf"), None
            per = 6 // D * D
            idx = (7 * np.arange(per * P) + 3 * c["rho"]) % len(cfg)
            wt = 1.0 + 0.8 * np.sin(1 + 2.0 * np.arange(per * P))
            wt = wt / wt.sum()
            sl = slice(r * per, (r + 1) * per)
            sam = Scripted(J, k.psi, cfg[idx[sl]].reshape((D, -1) + shape), wt[sl].reshape((D, -1)))
            return J.operator.povm.measure_povm(k.povm, sam, observables=o), per * P, (flatc[idx], wt)
        for r, (res, N, s) in enumerate(w.run([lambda r=r: body(r) for r in range(P)])):
            what = "rank %d, %s: " % (r, c)
            if s is None:
                judge(res, rho, flatc, pr, N, names, what)
            else:
                judge(res, None, s[0], s[1], N, names, what)
            ctx.check({k.split("_corr")[0] for k in res} == set(names), "%snames %s" % (what, list(res)))
        ctx.step()
        ctx.state(str(c))
        ctx.validated()
        ctx.outcome(c["rho"])
    ctx.each([{"rho": k, "sam": s, "obs": o, "pass": p} for k in range(3) for s in ("exact", "script") for o in (None, "W", "Z")
              for p in ((None, "jax", "numpy") if s == "exact" else (None,))], case)
