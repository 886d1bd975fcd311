"""C03: ExactSampler = exact enumeration with normalised weights, for every split and history."""
import itertools

LEVEL = "model_checking"
RULE = ("box: every (shape, lDim, logProbFactor, processes 1..3, devices 1..8) of the list; histories: every sequence of "
        "{sample, sample at explicit parameters A/B, set parameters A/B} up to the depth bound on the real sampler; reference: dense table")
ASSUMPTIONS = ["log-amplitudes within +-60 (the sampler exponentiates relative to the previous norm)", "multi-process runs use the simulated MPI world"]
NDEV = 8


def groups(tier):
    gs = []
    shapes = [((1,), 2), ((2,), 2), ((3,), 2), ((4,), 2), ((2, 2), 2), ((2, 3), 2), ((1,), 3), ((2,), 3), ((3,), 3), ((2, 2), 3), ((1,), 4), ((2,), 4), ((3,), 4), ((1,), 5), ((2,), 5)]
    if tier != "quick":
        shapes += [((5,), 2), ((7,), 2), ((3, 3), 2), ((4,), 3), ((4,), 4), ((2, 1), 6), ((8,), 2)]
    for P in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
        for sh, l in shapes:
            gs.append({"name": "box-P%d-%s-l%d" % (P, "x".join(map(str, sh)), l), "P": P, "shape": list(sh), "lDim": l, "tier": tier, "cost": P * l ** (sum(sh))})
    for P, D in [(1, 1), (1, 3), (2, 2)]:
        for kind in ("cpx", "rbm"):
            gs.append({"name": "hist-P%d-D%d-%s" % (P, D, kind), "P": P, "D": D, "kind": kind, "tier": tier, "cost": 30})
    return gs


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, flat, rep
    from mc.simmpi import World
    from mc.nets import TableNet, all_configs, table_index
    P = g["P"]
    w = World(P)
    pk = w.load()

    def judge(outs, table, lDim, shape, lpf, sub):
        """outs: per rank (configs, logPsi, p); table: complex log amplitudes per basis state"""
        n = int(np.prod(shape))
        dim = lDim ** n
        cs = np.concatenate([flat(o[0]).reshape(-1, n) for o in outs])
        lp = np.concatenate([flat(o[1]) for o in outs])
        p = np.concatenate([flat(o[2]) for o in outs])
        if not ctx.check(cs.shape[0] == lp.shape[0] == p.shape[0], "inconsistent shapes", sub):
            return
        for o in outs:
            ctx.check(rep(o[0]).shape[2:] == tuple(shape), "configuration shape %s" % (rep(o[0]).shape,), sub)
        ctx.check(bool(np.all((cs >= 0) & (cs < lDim))), "invalid basis configuration", sub)
        idx = table_index(cs, lDim)
        nz = p != 0
        ctx.check(bool(np.all(np.isfinite(p))), "non-finite weight", sub)
        cnt = np.bincount(idx[nz], minlength=dim)
        ctx.check(bool(np.all(cnt == 1)), lambda: "states counted %s times (index: count) %s" % (sorted(set(cnt.tolist())), {int(i): int(cnt[i]) for i in np.nonzero(cnt != 1)[0][:8]}), sub)
        ctx.close(lp, table[idx], "log-amplitudes of returned configurations", sub=sub)
        e = table.real / lpf
        want = np.exp(e - e.max())
        want /= want.sum()
        got = np.zeros(dim)
        np.add.at(got, idx, p)
        ctx.close(got, want, "weights", atol=1e-11, sub=sub)
        ctx.close(p.sum(), 1.0, "sum of weights", atol=1e-11, sub=sub)
        ctx.outcome(np.round(got, 9).tobytes())
        ctx.validated()

    if g["name"].startswith("box"):
        shape, lDim = tuple(g["shape"]), g["lDim"]
        n = int(np.prod(shape))
        dim = lDim ** n
        Ds = range(1, 9) if (g["tier"] != "quick" or P == 1) else (1, 2, 3, 4, 7)

        def case(c):
            D, lpf = c["D"], c["lpf"]

            def body(r):
                def f():
                    j = pk[r]
                    use_devices(j, D)
                    psi = j.vqs.NQS(TableNet(shape=shape, lDim=lDim, scale=0.7), seed=1, batchSize=7)
                    s = j.sampler.ExactSampler(psi, shape, lDim=lDim, logProbFactor=lpf)
                    o1 = s.sample()
                    o2 = s.sample()
                    return o1, o2, rep(psi.get_parameters())
                return f
            res = w.run([body(r) for r in range(P)])
            ctx.step(2 * P)
            th = res[0][2]
            table = th[:dim] + 1j * th[dim:]
            ctx.state((P, D, shape, lDim, lpf))
            for k in (0, 1):
                judge([r[k] for r in res], table, lDim, shape, lpf, k)
        ctx.each([{"D": D, "lpf": lpf} for D in Ds for lpf in ((0.5, 1.0) if n <= 2 else (0.5,) if lDim != 4 else (1.0,))], case)
        return

    # histories
    D, kind = g["D"], g["kind"]
    shape = (3,)
    dim = 8
    al = ["s", "sA", "sB", "pA", "pB", "pC"]
    depth = 3 if g["tier"] == "quick" else 5
    if kind == "rbm":
        al = ["s", "sA", "pA", "pB"]
    objs = []

    def setup(r):
        def f():
            j = pk[r]
            use_devices(j, D)
            net = TableNet(shape=shape, scale=0.4) if kind == "cpx" else j.nets.CpxRBM(numHidden=2, bias=True)
            psi = j.vqs.NQS(net, seed=3)
            s = j.sampler.ExactSampler(psi, shape)
            return psi, s, rep(psi.get_parameters())
        return f
    objs = w.run([setup(r) for r in range(P)])
    th0 = objs[0][2]
    k = np.arange(th0.size)
    if kind == "cpx":
        th = {"0": th0, "A": np.concatenate([40 + np.sin(3. + k[:dim]), np.cos(k[:dim])]), "B": np.concatenate([-55 + 2 * np.cos(1.1 * k[:dim]), k[:dim] * 0.2]),
              "C": np.concatenate([np.where(k[:dim] == 3, 3.0, -20.0), k[:dim] * 0.0])}
    else:
        th = {"0": th0, "A": 1.5 * np.sin(1. + k), "B": 0.3 * np.cos(2. * k)}
    confs = all_configs(shape)

    def table(name):
        if kind == "cpx":
            return th[name][:dim] + 1j * th[name][dim:]
        t = th[name]
        # CpxRBM: tree order bias (2), kernel (3,2), each as [re, im]
        b = t[0:2] + 1j * t[2:4]
        K = (t[4:10] + 1j * t[10:16]).reshape(3, 2)
        x = (2 * confs - 1) @ K + b
        return np.log(np.cosh(x)).sum(-1)
    # the table is compared modulo 2 pi i branches for the RBM
    tabs = {n: table(n) for n in th}

    def case(c):
        def body(r):
            def f():
                j = pk[r]
                psi, _, _ = objs[r]
                psi.set_parameters(jnp.array(th["0"]))
                s = j.sampler.ExactSampler(psi, shape)
                out = []
                for op in c["h"]:
                    if op == "s":
                        out.append(s.sample())
                    elif op[0] == "s":
                        out.append(s.sample(parameters=jnp.array(th[op[1]])))
                    else:
                        psi.set_parameters(jnp.array(th[op[1]]))
                        out.append(None)
                return out, rep(psi.get_parameters())
            return f
        res = w.run([body(r) for r in range(P)])
        cur = "0"
        for i, op in enumerate(c["h"]):
            ctx.step(P)
            ctx.state((tuple(c["h"][:i + 1]),))
            if op[0] == "p":
                cur = op[1]
                continue
            used = cur if op == "s" else op[1]
            outs = [r[0][i] for r in res]
            if kind == "rbm":
                outs = [(o[0], rep(o[1]).real + 0j, o[2]) for o in outs]
                judge(outs, tabs[used].real + 0j, 2, shape, 0.5, i)
            else:
                judge(outs, tabs[used], 2, shape, 0.5, i)
        for r in range(P):
            ctx.close(res[r][1], th[cur], "parameters of psi after the history", atol=1e-13)
    hs = [h for k2 in range(1, depth + 1) for h in itertools.product(al, repeat=k2) if h[-1][0] == "s"]
    ctx.each([{"h": list(h)} for h in hs], case)
