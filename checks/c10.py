"""C10: gradients against central differences along every entry of the parameter vector."""
import itertools

LEVEL = "model_checking"
RULE = ("fd: every network of the menu x every parameter point x every configuration of the lattice x every entry of the parameter vector, the real gradients() "
        "against central differences of the real evaluation along that entry, and gradients_dict through grad_dict_to_vec_map; box: every (network class, devices, "
        "configurations per device, batch size) against the single-configuration gradients; first: every choice of the configuration seen first (which "
        "drives the detection of holomorphicity)")
ASSUMPTIONS = ["logarithmic networks; the gradient of a complex, non-holomorphic network does not vanish on the first configuration seen",
               "central differences with step 1e-5: agreement to 2e-6 relative", "lattices of 3 sites (and 2x2), up to 3 devices"]
NDEV = 3
NETS = ["table", "table_real", "rbm", "cpxrbm", "cpxrbm_ns", "ffn", "cnn", "cpxcnn", "rnn", "nonholo", "holo", "jastrow", "jastrow_cpx", "two", "two_explicit",
        "sym", "sym_two", "sym_log"]


def groups(tier):
    gs = [{"name": "fd-" + n, "kind": "fd", "net": n, "tier": tier, "cost": 5} for n in NETS]
    for n in ("table", "cpxrbm", "nonholo", "two"):
        for D in (1, 2, 3):
            gs.append({"name": "box-D%d-%s" % (D, n), "kind": "box", "D": D, "net": n, "tier": tier, "cost": 8})
    for n in ("jastrow", "jastrow_cpx", "cpxrbm", "cpxrbm_ns", "holo", "nonholo", "two"):
        gs.append({"name": "first-" + n, "kind": "first", "net": n, "tier": tier, "cost": 5})
    return gs


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, rep
    from mc.nets import all_configs
    from mc import zoo
    import jVMC
    quick = g["tier"] == "quick"

    def flat_from_dict(psi, gd):
        """(configurations, parameters) array assembled from gradients_dict with grad_dict_to_vec_map"""
        idx = [np.asarray(x) for x in jax.tree_util.tree_leaves(psi.grad_dict_to_vec_map())]
        lv = [rep(x) for x in jax.tree_util.tree_leaves(gd)]
        n = sum(x.size for x in idx)
        out = np.full(lv[0].shape[:2] + (n,), np.nan, complex)
        for i, x in zip(idx, lv):
            out[..., i.ravel()] = x.reshape(x.shape[:2] + (-1,))
        return out

    def fd(psi, s, v):
        h = 1e-5
        cols = []
        for k in range(v.size):
            e = np.zeros(v.size)
            e[k] = h
            psi.set_parameters(jnp.array(v + e))
            a = rep(psi(s))
            psi.set_parameters(jnp.array(v - e))
            b = rep(psi(s))
            d = a - b
            if np.iscomplexobj(d):         # phases are defined modulo 2 pi
                d = d.real + 1j * (np.mod(d.imag + np.pi, 2 * np.pi) - np.pi)
            cols.append(d / (2 * h))
        psi.set_parameters(jnp.array(v))
        return np.stack(cols, -1)

    def points(v0, net):
        n = v0.size
        return [v0, v0 + 0.3 * np.cos(1.7 * np.arange(n) + 0.3), 0.5 * np.sin(0.9 * np.arange(n) + 1.1)]

    if g["kind"] == "fd":
        use_devices(jVMC, 1)

        def case(c):
            shape = tuple(c["shape"])
            allc = all_configs(shape)
            psi = jVMC.vqs.NQS(batchSize=c["b"], **zoo.make(jVMC, g["net"], shape))
            s = jnp.array(allc[None])
            psi(s)
            v0 = np.asarray(psi.get_parameters()).copy()
            for k, v in enumerate(points(v0, g["net"])):
                psi.set_parameters(jnp.array(v))
                want = fd(psi, s, v)
                got = rep(psi.gradients(s))
                ctx.close(got + 0j, want + 0j, "gradients at parameter point %d" % k, rtol=2e-6, atol=2e-6, sub=k)
                ctx.close(flat_from_dict(psi, psi.gradients_dict(s)), got + 0j, "gradients_dict at parameter point %d" % k, sub="d%d" % k)
                ctx.check(np.array_equal(np.asarray(psi.get_parameters()), v), "gradients changed the parameters")
                ctx.step(2 * v.size + 2)
                ctx.count("entries", v.size * len(allc))
                ctx.state((g["net"], c["b"], k))
                ctx.outcome(np.round(got, 6).tobytes())
            ctx.validated()
        sh = [[3]] if g["net"] in ("rnn", "sym", "sym_two", "sym_log") else [[3], [2, 2]]
        ctx.each([{"shape": x, "b": b} for x in sh for b in (3, 1000)], case)

    elif g["kind"] == "first":
        use_devices(jVMC, 1)
        shape = (3,)
        allc = all_configs(shape)

        def case(c):
            psi = jVMC.vqs.NQS(**zoo.make(jVMC, g["net"], shape))
            order = np.roll(np.arange(8), -c["first"])
            s = jnp.array(allc[order][None])
            {"call": psi, "grad": psi.gradients, "dict": psi.gradients_dict}[c["via"]](s[:, :c["n"]])
            v = points(np.asarray(psi.get_parameters()), g["net"])[1]
            psi.set_parameters(jnp.array(v))
            got = rep(psi.gradients(s))
            ctx.close(got + 0j, fd(psi, s, v) + 0j, "gradients", rtol=2e-6, atol=2e-6)
            ctx.close(flat_from_dict(psi, psi.gradients_dict(s)), got + 0j, "gradients_dict")
            ctx.step(2 * v.size + 2)
            ctx.state((g["net"], c["first"], c["n"], c["via"]))
            ctx.validated()
        ctx.each([{"first": f, "n": 1 if f % 2 else 8, "via": v} for f in range(8) for v in (("call", "grad", "dict")[f % 3],)], case)

    elif g["kind"] == "box":
        D = g["D"]
        use_devices(jVMC, D)
        shape = (3,)
        allc = all_configs(shape)
        Bs = range(1, 6) if quick else range(1, 10)
        batches = (1, 2, 3, 4, 7) if quick else tuple(range(1, 11))
        psis = {}
        ref = {}

        def case(c):
            B, b = c["B"], c["b"]
            idx = (np.arange(D * B) * 3 + 5 * B + 2 * b) % len(allc)
            s = jnp.array(allc[idx].reshape((D, B) + shape))
            if b not in psis:
                psi = psis[b] = jVMC.vqs.NQS(batchSize=b, **zoo.make(jVMC, g["net"], shape))
                psi(s)
                v = points(np.asarray(psi.get_parameters()), g["net"])[1]
                psi.set_parameters(jnp.array(v))
            psi = psis[b]
            v = np.asarray(psi.get_parameters())
            if "r" not in ref:
                n = -(-len(allc) // D) * D
                sa = jnp.array(np.concatenate([allc, allc])[:n].reshape((D, -1) + shape))
                ref["r"] = fd(psi, sa, v).reshape(n, -1)
            got = rep(psi.gradients(s))
            ctx.check(got.shape == (D, B, v.size), "shape %s" % (got.shape,))
            ctx.close(got.reshape(D * B, -1) + 0j, ref["r"][idx] + 0j, "gradients", rtol=2e-6, atol=2e-6)
            ctx.close(flat_from_dict(psi, psi.gradients_dict(s)), got + 0j, "gradients_dict")
            ctx.step(2)
            ctx.state((D, B, b))
            ctx.validated()
        ctx.each([{"B": B, "b": b} for B in Bs for b in batches], case)
