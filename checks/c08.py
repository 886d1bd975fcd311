"""C08: local estimators for every operator kind, wave function kind, batching and device split."""
import itertools

LEVEL = "model_checking"
RULE = ("box: every (operator kind, wave function kind, devices, configurations per device, operator batch size, log-amplitudes given or not) with network batch "
        "sizes cycling through their menu, all evaluated on one operator object, configurations cycling through all basis states; hist: every "
        "sequence of evaluations (sample set, batch size, wave function, arguments) up to the depth bound on one operator; est: the estimator function for every "
        "operator, configuration and a menu of parameters; compared with sum_s' O_ss' psi(s')/psi(s) from the tables of the operator and the amplitudes")
ASSUMPTIONS = ["plain (non-logarithmic) amplitudes are complex or positive; amplitudes do not vanish",
               "lattices of 3 and 4 sites, up to 7 (quick) / 11 (thorough) configurations per device, up to 3 devices"]
NDEV = 3
OPS = ["tfim", "time", "sy", "hop", "diag", "sp", "zero", "custom", "custom2", "povmlike", "2d"]
COMBOS = [("tfim", "log"), ("time", "log"), ("sy", "plain"), ("hop", "log"), ("diag", "log"), ("sp", "log"), ("zero", "log"), ("custom", "log"),
          ("custom2", "plain"), ("povmlike", "real"), ("tfim", "real"), ("time", "plain"), ("2d", "log")]


def groups(tier):
    gs = []
    for D in (1, 2, 3):
        for o, p in COMBOS:
            gs.append({"name": "box-D%d-%s-%s" % (D, o, p), "kind": "box", "D": D, "op": o, "psi": p, "tier": tier, "cost": 5})
    for first in range(6):
        gs.append({"name": "hist-%d" % first, "kind": "hist", "first": first, "tier": tier, "cost": 6})
    for o in OPS:
        gs.append({"name": "est-%s" % o, "kind": "est", "op": o, "tier": tier, "cost": 3})
    return gs


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, rep
    from mc.nets import TableNet, all_configs, table_index
    import flax.linen as nn
    import jVMC
    import jVMC.operator as op
    quick = g["tier"] == "quick"

    class PlainNet(nn.Module):
        shape: tuple

        @nn.compact
        def __call__(self, s):
            return jnp.exp(TableNet(shape=self.shape)(s))

    class Custom(op.Operator):
        """compile() returns a plain function"""

        def __init__(self, **kw):
            super().__init__(**kw)

        def compile(self):
            def fun(s, *args):
                t = args[0] if args else 1.0
                sp = jnp.stack([s, s.at[0].set(1 - s[0]), s.at[2].set(0)])
                return sp, jnp.array([0.5, 0.25, 1.0]) * t * jnp.array([1.0, 1.0 + s[1], s[2] - 0.5])
            return fun

    class Custom2(Custom):
        """compile() returns (function, preprocessor)"""

        def compile(self):
            return super().compile(), lambda *a: ((a[0] * 2.0 if a else 1.0),)

    def shape_of(o):
        return (2, 2) if o == "2d" else (3,)

    # (terms: prefactor (number or function), [(site, map, elements, fermionic)])
    SX, SY, SZ = ([1, 0], [1, 1], 0), ([1, 0], [1j, -1j], 0), ([0, 1], [-1, 1], 0)
    SP, CR, AN = ([1, 0], [1, 0], 0), ([1, 0], [1, 0], 1), ([1, 0], [0, 1], 1)

    def terms(o):
        n = 3
        if o == "tfim":
            return [(-1.0, [(l, "Sz"), ((l + 1) % n, "Sz")]) for l in range(n)] + [(-0.7, [(l, "Sx")]) for l in range(n)]
        if o == "2d":
            return [(-1.0, [(a, "Sz"), (b, "Sz")]) for a, b in ((0, 1), (2, 3), (0, 2), (1, 3))] + [(-0.7 - 0.2 * l, [(l, "Sx")]) for l in range(4)]
        if o == "time":
            return [((lambda t, l=l: jnp.cos(t + l)), [(l, "Sx")]) for l in range(n)] + [(0.5, [(0, "Sz"), (2, "Sz")]), ((lambda t: t), [(1, "Sz")])]
        if o == "sy":
            return [(1.0, [(l, "Sy")]) for l in range(n)] + [(0.3, [(0, "Sx"), (1, "Sy")])]
        if o == "hop":
            return [(1.0, [(l, "creation"), (m, "annihilation")]) for l in range(n) for m in range(n) if l != m]
        if o == "diag":
            return [(1.0, [(0, "Sz")]), (2.0, [(1, "number"), (2, "number")])]
        if o == "sp":
            return [(1.0, [(1, "Sp")])]
        if o == "zero":
            return [(1.0, [(0, "Sp"), (0, "Sp")])]
        return None
    TAB = {"Sx": SX, "Sy": SY, "Sz": SZ, "Sp": SP, "creation": CR, "annihilation": AN, "number": ([0, 1], [0, 1], 0)}

    def make(o, **kw):
        if o == "custom":
            return Custom(**kw)
        if o == "custom2":
            return Custom2(**kw)
        if o == "povmlike":
            return Custom(**kw)
        H = op.BranchFreeOperator(**kw)
        for pre, loc in terms(o):
            H.add(op.scal_opstr(pre, tuple(getattr(op, nm)(i) for i, nm in loc)))
        return H

    def row(o, s, args):
        """reference matrix elements {s': O_ss'}"""
        out = {}
        if terms(o) is None:
            t = args[0] if args else 1.0
            if o == "custom2" and args:
                t = 2 * t
            s = list(s)
            for sp, m in ((s, 0.5), ([1 - s[0]] + s[1:], 0.25 * (1.0 + s[1])), (s[:2] + [0], s[2] - 0.5)):
                out[tuple(sp)] = out.get(tuple(sp), 0) + m * t
            return out
        for pre, loc in terms(o):
            c, el = list(s), complex(pre(*args) if callable(pre) else pre)
            for i, nm in reversed(loc):
                m, e, fm = TAB[nm]
                el *= e[c[i]]
                if fm:
                    el *= (-1) ** sum(c[i + 1:])
                c[i] = m[c[i]]
            out[tuple(c)] = out.get(tuple(c), 0) + el
        return out

    def psi_of(kind, shape, batch=1000):
        if kind == "log":
            return jVMC.vqs.NQS(TableNet(shape=shape), batchSize=batch)
        if kind == "real":
            return jVMC.vqs.NQS(TableNet(shape=shape, cpx=False), batchSize=batch)
        return jVMC.vqs.NQS(PlainNet(shape=shape), logarithmic=False, batchSize=batch)

    def amplitudes(params, allc):
        """log psi of all configurations from the parameter tables"""
        fl = {}

        def walk(d):
            for k, v in d.items():
                walk(v) if hasattr(v, "items") else fl.__setitem__(k, np.asarray(v))
        walk(params["params"])
        i = table_index(allc.reshape(len(allc), -1), 2)
        return fl["a"][i] + (1j * fl["b"][i] if "b" in fl else 0)

    def want(o, samples, logp, args):
        out = []
        for s in samples.reshape(-1, int(np.prod(shape_of(o)))):
            s = tuple(int(x) for x in s)
            out.append(sum(v * np.exp(logp[sp] - logp[s]) for sp, v in row(o, s, args).items()))
        return np.array(out).reshape(samples.shape[:2])

    def table(psi, shape):
        allc = all_configs(shape)
        la = amplitudes(psi.parameters, allc)
        return {tuple(int(x) for x in c.ravel()): la[i] for i, c in enumerate(allc)}

    if g["kind"] == "box":
        D, o = g["D"], g["op"]
        use_devices(jVMC, D)
        shape = shape_of(o)
        allc = all_configs(shape)
        H = make(o)
        nbs = [1000, 1, 2, 3, 5]
        psis = [psi_of(g["psi"], shape, b) for b in nbs]
        args = (0.8,) if o in ("time", "custom", "custom2") else ()
        Bs = range(1, 8) if quick else range(1, 12)
        cnt = itertools.count()

        def case(c):
            B, eb = c["B"], c["eb"]
            k = c["k"]
            psi = psis[k % len(psis)]
            samples = allc[(np.arange(D * B) * 3 + 5 * k) % len(allc)].reshape((D, B) + shape)
            H.ElocBatchSize = eb
            s = jnp.array(samples)
            lp = None
            if k % 2 == 0:
                lp = psi(s)
                if not psi.logarithmic:
                    lp = jnp.log(lp)
            keep = None if lp is None else rep(lp).copy()
            psi(s)
            got = rep(H.get_O_loc(s, psi, lp, *args))
            ctx.step()
            ctx.state((D, B, eb, k % 2, k % 5))
            ctx.close(got, want(o, samples, table(psi, shape), args), "O_loc")
            ctx.check(np.array_equal(rep(s), samples) and (lp is None or np.array_equal(rep(lp), keep)), "inputs modified")
            ctx.outcome(np.round(got, 6).tobytes())
            ctx.validated()
        ctx.each([{"B": B, "eb": eb, "k": B * 13 + j} for B in Bs for j, eb in enumerate([-1, 1, 2, 3, 4, 5, B, B + 1])], case)

    elif g["kind"] == "hist":
        use_devices(jVMC, 2)
        shape = (3,)
        allc = all_configs(shape)
        P = {"a": psi_of("log", shape, 2), "b": psi_of("real", shape), "p": psi_of("plain", shape)}
        sets = {"x": allc[[0, 1, 2, 3, 4, 5]].reshape(2, 3, 3), "y": allc[[7, 7, 0, 6]].reshape(2, 2, 3), "z": allc[[1, 4, 2, 6, 3, 0, 0, 7, 5, 5]].reshape(2, 5, 3)}
        MENU = [("x", -1, "a", (0.8,)), ("y", -1, "b", (2.1,)), ("z", 2, "a", (0.8,)), ("x", 2, "p", (-1.0,)), ("z", -1, "p", (2.1,)), ("y", 1, "a", (0.8,))]
        H, H2 = make("time"), make("tfim")

        def case(c):
            for m in c["h"]:
                s_, eb, p_, args = MENU[m]
                psi, samples = P[p_], sets[s_]
                s = jnp.array(samples)
                psi(s)
                H.ElocBatchSize = eb
                got = rep(H.get_O_loc(s, psi, None, *args))
                ctx.close(got, want("time", samples, table(psi, shape), args), "O_loc of evaluation %s" % (MENU[m],), sub=m)
                H2.ElocBatchSize = -eb if eb > 0 else 2
                got = rep(H2.get_O_loc(s, psi))
                ctx.close(got, want("tfim", samples, table(psi, shape), ()), "O_loc of second operator %s" % (MENU[m],), sub=m)
                ctx.step(2)
                ctx.state(tuple(c["h"]))
            ctx.validated()
            if len(c["h"]) == 2:
                psi = P["a"]
                th = psi.get_parameters()
                psi.set_parameters(np.asarray(th) * 0.9 + 0.01)
        d = 3 if quick else 4
        ctx.each([{"h": [g["first"]] + list(h)} for k in range(0, d) for h in itertools.product(range(len(MENU)), repeat=k)], case)

    elif g["kind"] == "est":
        o = g["op"]
        shape = shape_of(o)
        allc = all_configs(shape)
        use_devices(jVMC, 1)
        H = make(o)

        def case(c):
            psi = psi_of(c["psi"], shape)
            psi(jnp.array(allc)[None])
            args = (c["t"],) if o in ("time", "custom", "custom2") else ()
            th = np.asarray(psi.get_parameters())
            for k in range(3):
                if c["evalfirst"] and k == 1:
                    H.get_O_loc(jnp.array(allc)[None], psi, None, *args)
                psi.set_parameters(th * (1.0 - 0.3 * k) + 0.1 * k * np.cos(np.arange(th.size)))
                f = H.get_estimator_function(psi, *args)
                est = f if k == 0 else jax.jit(f)
                lp = table(psi, shape)
                got = np.array([complex(est(psi.parameters, jnp.array(s))) for s in allc])
                ctx.close(got, want(o, allc[None], lp, args)[0] + 0j, "estimator at parameters %d" % k, sub=k)
                ctx.close(rep(H.get_O_loc(jnp.array(allc)[None], psi, None, *args))[0] + 0j, got, "O_loc against estimator", sub=k)
                ctx.step(len(allc) + 1)
                ctx.state((o, c["psi"], c["t"], k))
                ctx.validated()
        ctx.each([{"psi": p, "t": t, "evalfirst": e} for p in ("log", "real", "plain") for t, e in ((0.8, False), (2.1, True))], case)
