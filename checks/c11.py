"""C11: symmetry orbits as groups and covariance of symmetrised wave functions."""
import itertools

LEVEL = "model_checking"
RULE = ("orbit: every lattice size of the box x every subset of symmetries (any order of arguments) x every admissible combination of quantum numbers; the group is "
        "generated independently from signed site permutations, then compared as a set with the real orbit; closure, inverse, identity and multiplicativity of "
        "factors are checked for all pairs.  net: symmetrised networks, every configuration x every group element x every averaging function")
ASSUMPTIONS = ["admissible = the assignment of factors to the generators extends to a character of the generated group",
               "averaging with non-positive factors is used with complex amplitudes", "chains up to 8 (quick) / 10 sites, square lattices up to 3x3 (quick) / 4x4"]
NDEV = 2
S1 = ["translation", "reflection", "spinflip"]
S2 = ["translation", "reflection", "rotation", "spinflip"]


def subsets(x):
    return [list(c) for k in range(len(x) + 1) for c in itertools.combinations(x, k)]


def groups(tier):
    gs = []
    for L in range(1, 9 if tier == "quick" else 11):
        gs.append({"name": "orbit-1D-%d" % L, "kind": "orbit", "dim": 1, "L": L, "tier": tier, "cost": L})
    for L in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
        for sub in subsets(S2):
            gs.append({"name": "orbit-2D-%d-%s" % (L, "".join(x[:2] for x in sub)), "kind": "orbit", "dim": 2, "L": L, "sub": sub, "tier": tier, "cost": L * L * (1 + len(sub))})
    for L in (2, 3, 4, 5):
        gs.append({"name": "net-1D-%d" % L, "kind": "net", "dim": 1, "L": L, "tier": tier, "cost": 12 + L})
    for sub in subsets(S2):
        gs.append({"name": "net-2D-2-%s" % "".join(x[:2] for x in sub), "kind": "net", "dim": 2, "L": 2, "sub": sub, "tier": tier, "cost": 10})
    gs.append({"name": "net-2D-3", "kind": "net", "dim": 2, "L": 3, "sub": ["translation"], "tier": tier, "cost": 12})
    gs.append({"name": "net-2D-3rs", "kind": "net", "dim": 2, "L": 3, "sub": ["rotation", "spinflip"], "tier": tier, "cost": 12})
    return gs


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, rep
    from mc.nets import TableNet, all_configs
    import jVMC
    sy = jVMC.util.symmetries
    L, dim = g["L"], g["dim"]
    quick = g["tier"] == "quick"
    n = L ** dim
    get = sy.get_orbit_1D if dim == 1 else sy.get_orbit_2D_square

    def gens(sub, fac):
        """generators as (map, sign, factor): (g s)_i = sign * s_map(i)"""
        out = []
        if dim == 1:
            if "translation" in sub:
                out.append((tuple((i - 1) % L for i in range(L)), 1, fac["translation"]))
            if "reflection" in sub:
                out.append((tuple(L - 1 - i for i in range(L)), 1, fac["reflection"]))
        else:
            at = lambda x, y: (x % L) * L + y % L
            sites = [(x, y) for x in range(L) for y in range(L)]
            if "translation" in sub:
                out.append((tuple(at(x - 1, y) for x, y in sites), 1, fac["translation"]))
                out.append((tuple(at(x, y - 1) for x, y in sites), 1, fac["translation"]))
            if "reflection" in sub:
                out.append((tuple(at(L - 1 - x, y) for x, y in sites), 1, fac["reflection"]))
                out.append((tuple(at(x, L - 1 - y) for x, y in sites), 1, fac["reflection"]))
            if "rotation" in sub:
                out.append((tuple(at(L - 1 - y, x) for x, y in sites), 1, fac["rotation"]))
        if "spinflip" in sub:
            out.append((tuple(range(n)), -1, fac["spinflip"]))
        return out

    def group(sub, fac):
        """{(map, sign): factor} or None if the factors are not a character"""
        e = (tuple(range(n)), 1)
        G, todo = {e: 1.0 + 0j}, [e]
        while todo:
            m, sg = todo.pop()
            f = G[(m, sg)]
            for gm, gs_, gf in gens(sub, fac):
                h = (tuple(m[gm[i]] for i in range(n)), sg * gs_)
                v = f * gf
                if h in G:
                    if abs(G[h] - v) > 1e-9:
                        return None
                else:
                    G[h] = v
                    todo.append(h)
        return G

    def real(orb):
        o, f = np.asarray(orb.orbit), np.asarray(orb.factor)
        if not ctx.check(o.ndim == 3 and o.shape[1:] == (n, n) and f.shape == (o.shape[0],), "shapes %s %s" % (o.shape, f.shape)):
            return None
        out = []
        for M, x in zip(o, f):
            a = np.abs(M)
            ok = np.array_equal(a.sum(0), np.ones(n)) and np.array_equal(a.sum(1), np.ones(n)) and a.max() == 1 and (M.sum() in (n, -n))
            if not ctx.check(ok, "not a signed permutation:\n%s" % M):
                return None
            out.append(((tuple(int(i) for i in a.argmax(1)), int(np.sign(M.sum()))), complex(x)))
        return out

    def qnums(sub, roots):
        names = [x for x in sub]
        opts = []
        for x in names:
            if x in ("spinflip", "reflection"):
                opts.append([1.0, -1.0])
            elif x == "rotation":
                opts.append([1.0, -1.0, 1j, -1j] if roots else [1.0, -1.0])
            else:
                opts.append([1.0] + ([-1.0] if L % 2 == 0 else []) + ([np.exp(2j * np.pi / L)] if L > 2 else []) + ([np.exp(2j * np.pi * (L - 1) / L)] if L > 3 and roots else []))
        return [dict(zip(names, c)) for c in itertools.product(*opts)]

    def call(sub, fac, explicit=True):
        return get(L, *sub, **({k + "_factor": v for k, v in fac.items()} if explicit else {}))

    if g["kind"] == "orbit":
        def case(c):
            sub = c["sub"]
            res = {}
            for q, fac in enumerate(qnums(sub, True)):
                G = group(sub, fac)
                if G is None:
                    continue
                orders = list(itertools.permutations(sub)) if (q == 0 and len(sub) <= 3 and n <= 9) else [sub, sub[::-1]]
                for od in orders[:3]:
                    R = real(call(list(od), fac))
                    ctx.step()
                    if R is None:
                        return
                    ctx.state((L, tuple(od), q))
                    keys = [r[0] for r in R]
                    ctx.check(len(set(keys)) == len(keys), "operations repeated: %d of %d distinct" % (len(set(keys)), len(keys)), q)
                    ctx.check(set(keys) == set(G), "orbit has %d operations, group has %d (missing %s, extra %s)" % (
                        len(set(keys)), len(G), list(set(G) - set(keys))[:2], list(set(keys) - set(G))[:2]), q)
                    bad = [(k, f, G[k]) for k, f in R if k in G and abs(f - G[k]) > 1e-6]
                    ctx.check(not bad, "factor of operation %s" % (bad[:1],), q)
                    ctx.validated()
                D = dict(R)
                e = (tuple(range(n)), 1)
                ctx.check(e in D and abs(D[e] - 1) < 1e-12, "identity missing or with factor", q)
                if len(R) <= 80 or (len(R) <= 160 and q == 0):
                    for (a, fa) in R:
                        for (b, fb) in R:
                            h = (tuple(a[0][b[0][i]] for i in range(n)), a[1] * b[1])
                            if not (h in D and abs(D[h] - fa * fb) < 1e-6):
                                ctx.fail("not closed / not multiplicative: %s %s" % (a, b), q)
                                return
                    ctx.count("pairs", len(R) ** 2)
                ctx.outcome((len(R), np.round([x for _, x in R], 6).tobytes()))
            # default factors are one
            R = real(call(sub, {}, explicit=False))
            if R is not None:
                ctx.check(all(abs(f - 1) < 1e-12 for _, f in R), "default factors")
        subs = subsets(S1) if dim == 1 else [g["sub"]]
        ctx.each([{"sub": s} for s in subs], case)

    else:
        use_devices(jVMC, 1)
        shape = (L,) * dim
        allc = all_configs(shape)
        code = {tuple(int(v) for v in c.ravel()): i for i, c in enumerate(allc)}
        s = jnp.array(allc[None])
        sw = jVMC.nets.sym_wrapper
        AVG = {"exp": sw.avgFun_Coefficients_Exp, "log": sw.avgFun_Coefficients_Log, "sep": sw.avgFun_Coefficients_Sep}

        def act(h):
            """index of g s for every configuration"""
            x = 2 * allc.reshape(len(allc), n) - 1
            y = (h[1] * x[:, list(h[0])] + 1) // 2
            return np.array([code[tuple(int(v) for v in c)] for c in y])

        nets = {"table": lambda: TableNet(shape=shape), "table_real": lambda: TableNet(shape=shape, cpx=False), "cpxrbm": lambda: jVMC.nets.CpxRBM(numHidden=2, bias=True)}

        def case(c):
            sub, fac = c["sub"], qnums(c["sub"], False)[c["q"]]
            G = group(sub, fac)
            if G is None:
                return
            orb = call(sub, fac)
            psi0 = jVMC.vqs.NQS(nets[c["net"]]())
            bare = rep(psi0(s))[0]
            if c["how"] == "nqs":
                psi = jVMC.vqs.NQS(nets[c["net"]](), orbit=orb, avgFun=AVG[c["avg"]])
            else:
                psi = jVMC.vqs.NQS(sw.SymNet(orbit=orb, net=nets[c["net"]](), avgFun=AVG[c["avg"]]))
            psi(s)
            psi.set_parameters(psi0.get_parameters())
            got = rep(psi(s))[0]
            ctx.step(2)
            ctx.state(repr(c))
            ks = list(G)
            perm = [act(h) for h in ks]
            f = np.array([G[h] for h in ks])
            O = np.stack([bare[p] for p in perm])          # orbit values psi(g s)
            if c["avg"] == "exp":
                want = (f[:, None] * np.exp(O)).sum(0)
                have = np.exp(got)
                for h, p in zip(ks, perm):
                    if not ctx.close(have[p] * G[h], have + 0j, "Psi(g s) g=%s factor %s" % (h, G[h]), sub=str(h)):
                        break
                    ctx.count("group_actions", len(p))
            elif c["avg"] == "log":
                want, have = O.mean(0), got
            else:
                want = np.sqrt(np.mean(np.exp(2 * O.real), 0)) * np.exp(1j * np.angle(np.mean(np.exp(1j * O.imag), 0)))
                have = np.exp(got)
            if c["avg"] != "exp":
                for h, p in zip(ks, perm):
                    ctx.close(have[p], have, "invariance under %s" % (h,), sub=str(h))
            ctx.close(have + 0j, want + 0j, "symmetrised amplitudes")
            ctx.outcome(np.round(have, 6).tobytes())
            ctx.validated()
        cases = []
        for sub in (subsets(S1) if dim == 1 else [g["sub"]]):
            for q in range(len(qnums(sub, False))):
                for net in nets:
                    if net == "table_real" and q > 0:
                        continue
                    for avg in AVG:
                        if avg != "exp" and q > 0:
                            continue
                        if net == "cpxrbm" and (avg != "exp" or (quick and q > 1)):
                            continue
                        cases.append({"sub": sub, "q": q, "net": net, "avg": avg, "how": "nqs" if q % 2 == 0 else "symnet"})
        ctx.each(cases, case)
