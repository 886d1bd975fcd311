"""C09: evaluation of wave functions under batching, devices, and parameter histories."""
import itertools

LEVEL = "model_checking"
RULE = ("box: every (network, devices, configurations per device, batch size) of the box, configurations cycling through the basis, compared with the bare network "
        "applied to each configuration alone; hist: every sequence over {set numpy, set jax, set zero, update, update numpy, overwrite passed array, evaluate, "
        "get/keep, set back, gradients} up to the depth bound on the real object, with a plain vector as model; after every operation get_parameters, at the end "
        "evaluation, gradients and all vectors handed out or passed in are compared")
ASSUMPTIONS = ["parameter vectors have the dtype the network uses (float64)", "up to 9 (quick) / 13 (thorough) configurations per device, up to 3 devices"]
NDEV = 3
NETS = ["table", "cpxrbm", "two", "sym", "rnn", "nonholo"]


def groups(tier):
    gs = []
    for D in (1, 2, 3):
        for nt in NETS:
            gs.append({"name": "box-D%d-%s" % (D, nt), "kind": "box", "D": D, "net": nt, "tier": tier, "cost": 6})
    for nt in ("table", "cpxrbm", "two", "sym", "nonholo", "rbm"):
        for f in range(len(OPS)):
            gs.append({"name": "hist-%s-%s" % (nt, OPS[f]), "kind": "hist", "net": nt, "first": OPS[f], "tier": tier, "cost": 5})
    gs.append({"name": "init", "kind": "init", "tier": tier, "cost": 3})
    return gs


OPS = ["setN", "setJ", "set0", "upJ", "upN", "mut", "ev", "get", "back", "grad", "mutg"]


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, rep
    from mc.nets import all_configs
    from mc import zoo
    import jVMC
    quick = g["tier"] == "quick"
    shape = (3,)
    allc = all_configs(shape)

    def layout(psi):
        """index of each parameter entry in the vector, from the code itself"""
        n = np.asarray(psi.get_parameters()).size
        keep = psi.get_parameters()
        psi.set_parameters(jnp.arange(1.0, n + 1))
        t = jax.tree_util.tree_map(lambda x: np.asarray(x), psi.parameters)
        psi.set_parameters(keep)

        def build(v):
            def leaf(x):
                if np.iscomplexobj(x):
                    return jnp.array(v[np.rint(x.real).astype(int) - 1] + 1j * v[np.rint(x.imag).astype(int) - 1])
                return jnp.array(v[np.rint(x).astype(int) - 1])
            return jax.tree_util.tree_map(leaf, t)
        return build, n

    if g["kind"] == "box":
        D = g["D"]
        use_devices(jVMC, D)
        kw = zoo.make(jVMC, g["net"], shape)
        Bs = range(1, 10) if quick else range(1, 14)
        batches = list(range(1, 11)) + [1000] if not quick else [1, 2, 3, 4, 5, 7, 8, 9, 10, 1000]
        psis = {b: jVMC.vqs.NQS(batchSize=b, **kw) for b in batches}
        ref = {}

        def case(c):
            B, b = c["B"], c["b"]
            psi = psis[b]
            idx = (np.arange(D * B) * 3 + 5 * B + 2 * b) % len(allc)
            s = jnp.array(allc[idx].reshape((D, B) + shape))
            if not psi.initialized:
                psi(s)
                n = np.asarray(psi.get_parameters()).size
                v = 0.4 * np.cos(1.3 * np.arange(n) + 0.4)
                psi.set_parameters(v)
            if b not in ref:
                build, n = layout(psi)
                p = build(np.asarray(psi.get_parameters()))
                f = jax.jit(lambda x: psi.net.apply(p, x))
                ref[b] = np.array([complex(f(jnp.array(x))) for x in allc])
            got = rep(psi(s))
            ctx.step()
            ctx.state((D, B, b))
            ctx.check(got.shape == (D, B), "shape %s, expected %s" % (got.shape, (D, B)))
            ctx.close(got.reshape(-1) + 0j, ref[b][idx], "psi(s)")
            ctx.check(np.array_equal(rep(s).reshape((-1,) + shape), allc[idx]), "input modified")
            ctx.outcome(np.round(got, 8).tobytes())
            ctx.validated()
        ctx.each([{"B": B, "b": b} for B in Bs for b in batches], case)

    elif g["kind"] == "hist":
        use_devices(jVMC, 1)
        kw = zoo.make(jVMC, g["net"], shape)
        s = jnp.array(allc[None])
        pool = jVMC.vqs.NQS(**kw)
        pool(s)
        build, n = layout(pool)
        v0 = np.asarray(pool.get_parameters()).copy()
        A, B_ = 0.3 * np.cos(np.arange(n)), 0.2 * np.sin(1 + np.arange(n))
        fe = jax.jit(lambda p: jnp.array([pool.net.apply(p, x) for x in jnp.array(allc)]))
        cache = {}

        def amps(v):
            k = np.round(v, 9).tobytes()
            if k not in cache:
                cache[k] = np.asarray(fe(build(v)))
            return cache[k]
        gcache = {}
        gpsi = jVMC.vqs.NQS(**kw)
        gpsi(s)

        psi = pool        # one object; every history starts by restoring the initial vector

        def case(c):
            psi.set_parameters(jnp.array(v0))
            m = v0.copy()
            given, handed, back = [], [], [v0.copy()]
            for k, o in enumerate(c["h"]):
                what = "step %d of %s" % (k, c["h"])
                if o == "setN":
                    a = (A * (1 + k)).copy()
                    given.append([a, a.copy()])
                    psi.set_parameters(a)
                    m = a.copy()
                elif o == "setJ":
                    a = jnp.array(B_ * (1 + k))
                    given.append([a, np.array(a)])
                    psi.set_parameters(a)
                    m = np.array(a)
                elif o == "set0":
                    psi.set_parameters(np.zeros(n))
                    m = np.zeros(n)
                elif o == "upJ":
                    psi.update_parameters(jnp.array(0.5 * A))
                    m = m + 0.5 * A
                elif o == "upN":
                    a = (0.25 * B_).copy()
                    given.append([a, a.copy()])
                    psi.update_parameters(a)
                    m = m + 0.25 * B_
                elif o == "mut":                       # the caller reuses the arrays it passed in
                    for e in given:
                        if isinstance(e[0], np.ndarray):
                            e[0] += 1.0
                            e[1] = e[0].copy()
                elif o == "mutg":                      # the caller modifies a vector it was handed
                    v = psi.get_parameters()
                    if isinstance(v, np.ndarray) and v.flags.writeable:
                        v += 1.0
                elif o == "ev":
                    ctx.close(rep(psi(s))[0] + 0j, amps(m) + 0j, "evaluation at " + what)
                elif o == "get":
                    v = psi.get_parameters()
                    handed.append((v, np.array(v)))
                    back.append(np.array(v))
                elif o == "back":
                    psi.set_parameters(back[-1].copy())
                    m = back[-1].copy()
                elif o == "grad":
                    gpsi.set_parameters(jnp.array(m))
                    ctx.close(rep(psi.gradients(s))[0], rep(gpsi.gradients(s))[0], "gradients at " + what)
                ctx.step()
                ctx.state(tuple(c["h"][:k + 1]))
                if not ctx.close(np.asarray(psi.get_parameters()), m, "parameters at " + what, rtol=1e-12, atol=1e-12):
                    return
            ctx.close(rep(psi(s))[0] + 0j, amps(m) + 0j, "final evaluation")
            f, p = psi.get_sampler_net()
            ctx.close(np.array([float(f(p, x)) for x in jnp.array(allc[[1, 6]])]), np.real(amps(m))[[1, 6]], "get_sampler_net")
            for a, keep in given:
                ctx.check(np.array_equal(np.asarray(a), keep), "array passed in was modified")
            for v, keep in handed:
                ctx.check(np.array_equal(np.asarray(v), keep), "vector handed out was modified")
            ctx.validated()
            ctx.outcome(np.round(m, 6).tobytes())
        d = 3 if quick else 4
        ctx.each([{"h": [g["first"]] + list(h)} for k in range(0, d) for h in itertools.product(OPS, repeat=k)], case)

    elif g["kind"] == "init":
        # initialisation: same seed, same parameters, whatever is called first; different batch sizes agree
        use_devices(jVMC, 1)
        s = jnp.array(allc[None])

        def case(c):
            kw = zoo.make(jVMC, c["net"], shape)
            res = []
            for first in ("call", "grad", "init"):
                for b in (1, 3, 1000):
                    psi = jVMC.vqs.NQS(batchSize=b, seed=c["seed"], **kw)
                    ctx.check(psi.get_parameters() is None, "parameters before initialisation")
                    try:
                        psi.set_parameters(np.zeros(3))
                        ctx.fail("set_parameters accepted before the network is initialised")
                    except RuntimeError:
                        pass
                    {"call": psi, "grad": psi.gradients, "init": psi.init_net}[first](s)
                    res.append((np.asarray(psi.get_parameters()), rep(psi(s))))
                    psi.init_net(s)
                    ctx.check(np.array_equal(np.asarray(psi.get_parameters()), res[-1][0]), "initialisation repeated")
            for p, e in res[1:]:
                ctx.close(p, res[0][0], "initial parameters")
                ctx.close(e, res[0][1], "initial evaluation")
            ctx.state((c["net"], c["seed"]))
            ctx.step(9)
            ctx.validated()
        ctx.each([{"net": nt, "seed": sd} for nt in ("cpxrbm", "two", "rbm") for sd in (0, 1234)], case)
