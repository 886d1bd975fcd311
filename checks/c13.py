"""C13: autoregressive networks: normalisation on every configuration, sampling with every random choice enumerated."""
import itertools

LEVEL = "model_checking"
RULE = ("norm: every network of the (dimension, lattice size, cell, depth, inputDim, output mode, logProbFactor) box at several parameter vectors, evaluated on every configuration of the lattice; "
        "sample: the random choices of sample() enumerated on a Sobol' net of 2^15 points of the random-choice space, frequencies of every configuration compared with the evaluated probability; "
        "sym: the same with lattice symmetrisation through MCSampler")
ASSUMPTIONS = ["real parameters (for complex parameters the repository's own tests pin an unnormalised output)",
               "random numbers are jax.random draws from the key passed in; frequencies agree with probabilities up to the discretisation error of the net, bounded by 0.005 (observed: 0.001)",
               "symmetrisation: separate averaging of probability and phase for pure states, exponential averaging (a sum over the orbit, compared up to its constant norm) for real probability distributions"]
NDEV = 2
TOL = 5e-3


def box(tier):
    full = tier != "quick"
    out = []
    for cell in ("RNN", "LSTM", "GRU", "custom"):
        for depth in (1, 2, 3) if full else (1, 2):
            for d in (2, 3, 4):
                for real in (True, False):
                    for L in (1, 2, 3, 4):
                        if d ** L > 64 or (cell == "custom" and depth > 1) or (not full and (L + d + depth + real) % 2):
                            continue
                        out.append(dict(dim=1, L=L, cell=cell, depth=depth, d=d, real=real, lpf=0.5 if (L + d) % 2 else 1.0))
                    for L in (1, 2, 3):
                        if d ** (L * L) > 512 or cell == "custom" or (not full and (L + d + depth + real) % 2):
                            continue
                        out.append(dict(dim=2, L=L, cell=cell, depth=depth, d=d, real=real, lpf=0.5 if (L + d) % 2 else 1.0))
    return out


def groups(tier):
    gs = []
    b = box(tier)
    per = 3
    for i in range(0, len(b), per):
        gs.append({"name": "norm-%d" % (i // per), "kind": "norm", "nets": b[i:i + per], "cost": 5, "tier": tier})
    s = [x for x in b if x["cell"] != "custom" and x["d"] ** (x["L"] ** x["dim"]) <= 64 and x["L"] ** x["dim"] * x["d"] <= 12]
    for i in range(0, len(s), 2):
        gs.append({"name": "sample-%d" % (i // 2), "kind": "sample", "nets": s[i:i + 2], "cost": 8, "tier": tier})
    for lpf in (0.5, 1.0):
        for dim, L in ((1, 3), (1, 4), (2, 2)):
            for syms in ([["translation"], ["reflection"], ["translation", "reflection"]] + ([["translation", "reflection", "spinflip"]] if dim == 1 else [["rotation"], ["rotation", "spinflip"]])):
                gs.append({"name": "sym-%dD-L%d-%s-%s" % (dim, L, lpf, "+".join(syms)), "kind": "sym", "dim": dim, "L": L, "lpf": lpf, "syms": syms, "cost": 8, "tier": tier})
    return gs


def make_net(J, c):
    from mc.jx import jnp, np, jax
    import flax.linen as nn
    cls = J.nets.RNN1DGeneral if c["dim"] == 1 else J.nets.RNN2DGeneral
    cell = c["cell"]
    if cell == "custom":
        class Cell(nn.Module):
            @nn.compact
            def __call__(self, carry, state):
                h = jnp.tanh(nn.Dense(features=3, param_dtype=jnp.float64)(jnp.concatenate([carry[0], state])))
                return h[None, :], h
        cell = [[Cell()], jnp.zeros((1, 1, 3))]
    return cls(L=c["L"], hiddenSize=3 if c["cell"] == "custom" else 2, depth=c["depth"], inputDim=c["d"], cell=cell, realValuedOutput=c["real"], logProbFactor=c["lpf"])


def shape(c):
    return (c["L"],) if c["dim"] == 1 else (c["L"], c["L"])


def param_sets(np, n):
    k = np.arange(n)
    return [None, np.sin(1 + 1.3 * k), 2.5 * np.cos(0.4 + 2.1 * k), np.zeros(n), -4.0 * np.sin(0.2 + 0.9 * k)]


def run(g, ctx):
    from mc.jx import jax, jnp, np
    import jVMC
    jVMC.global_defs.set_pmap_devices(jax.devices()[:1])
    {"norm": norm, "sample": sample, "sym": sym}[g["kind"]](g, ctx, jVMC, np, jnp, jax)


class Direct:
    """user-supplied cells carry an array and cannot be wrapped by NQS (modules have to be hashable there): the module itself"""

    def __init__(self, net, s, jax, jnp):
        from jax.flatten_util import ravel_pytree
        self.p, self.unravel = ravel_pytree(net.init(jax.random.PRNGKey(2), jnp.asarray(s)))
        self.f = jax.jit(lambda p, x: jax.vmap(lambda y: net.apply(self.unravel(p), y))(x))

    def get_parameters(self):
        return self.p

    def set_parameters(self, p):
        self.p = p

    def __call__(self, x):
        return self.f(self.p, x[0])[None]


def norm(g, ctx, J, np, jnp, jax):
    from mc.nets import all_configs

    def case(c):
        cfg = all_configs(shape(c), c["d"])
        psi = J.vqs.NQS(make_net(J, c), seed=2, batchSize=100) if c["cell"] != "custom" else Direct(make_net(J, c), cfg[0], jax, jnp)
        psi(jnp.asarray(cfg)[None])
        for k, p in enumerate(param_sets(np, psi.get_parameters().size)):
            if p is not None:
                psi.set_parameters(jnp.asarray(p))
            l = np.asarray(psi(jnp.asarray(cfg)[None]))[0]
            ctx.step(len(cfg))
            ctx.check(bool(np.all(np.isfinite(l))), "non-finite output for parameters %d" % k, k)
            ctx.close(np.sum(np.exp(np.real(l) / c["lpf"])), np.array(1.0), "%s, parameters %d: probabilities of all configurations sum to" % (c, k), rtol=1e-9, sub=k)
            if c["real"]:
                ctx.check(bool(np.all(np.abs(np.imag(l)) < 1e-14)), "output is not real", k)
            ctx.state((str(c), k))
            ctx.outcome(np.round(l, 9).tobytes())
        ctx.validated()
    ctx.each(g["nets"], case)


def frequencies(J, psi, c, np, n, lpf, sh):
    from mc import prng
    from mc.nets import table_index
    prng.C.reset("sobol", n=n, dims=64)
    sam = J.sampler.MCSampler(psi, sh, prng.key(3), numSamples=n, logProbFactor=lpf, mu=1 if lpf == 1.0 else 2)
    x, l, p = sam.sample()
    x = np.asarray(x).reshape(n, -1)
    return x, np.asarray(l).reshape(n), table_index(x, c["d"])


def sample(g, ctx, J, np, jnp, jax):
    from mc.nets import all_configs
    n = 2 ** 15

    def case(c):
        sh = shape(c)
        cfg = all_configs(sh, c["d"])
        psi = J.vqs.NQS(make_net(J, c), seed=2, batchSize=4096)
        psi(jnp.asarray(cfg)[None])
        for k, p in enumerate(param_sets(np, psi.get_parameters().size)):
            if k in (0, 3) and g["tier"] == "quick":
                continue
            if p is not None:
                psi.set_parameters(jnp.asarray(p))
            P = np.exp(np.real(np.asarray(psi(jnp.asarray(cfg)[None]))[0]) / c["lpf"])
            x, l, idx = frequencies(J, psi, c, np, n, c["lpf"], sh)
            ctx.step(n)
            if not ctx.check(bool(np.all((x >= 0) & (x < c["d"]))), "invalid sample"):
                return
            f = np.bincount(idx, minlength=len(cfg)) / n
            bad = int(np.argmax(np.abs(f - P)))
            ctx.check(abs(f[bad] - P[bad]) < TOL, "%s, parameters %d: configuration %s is generated with probability %.4f but evaluates to %.4f" % (c, k, cfg[bad].tolist(), f[bad], P[bad]), k)
            ctx.count("random_assignments", n)
            ctx.state((str(c), k))
            ctx.outcome(f.tobytes())
        ctx.validated()
    ctx.each(g["nets"], case)


def sym(g, ctx, J, np, jnp, jax):
    from mc.nets import all_configs
    n = 2 ** 15
    L, dim, lpf = g["L"], g["dim"], g["lpf"]
    orb = (J.util.symmetries.get_orbit_1D if dim == 1 else J.util.symmetries.get_orbit_2D_square)(L, *g["syms"])

    def case(c):
        sh = shape(c)
        cfg = all_configs(sh, 2)
        avg = J.nets.sym_wrapper.avgFun_Coefficients_Sep if lpf == 0.5 else J.nets.sym_wrapper.avgFun_Coefficients_Exp
        psi = J.vqs.NQS(make_net(J, c), seed=2, batchSize=4096, orbit=orb, avgFun=avg)
        psi(jnp.asarray(cfg)[None])
        for k, p in enumerate(param_sets(np, psi.get_parameters().size)):
            if p is None or k == 3:
                continue
            psi.set_parameters(jnp.asarray(p))
            P = np.exp(np.real(np.asarray(psi(jnp.asarray(cfg)[None]))[0]) / lpf)
            if lpf == 0.5:
                ctx.close(P.sum(), np.array(1.0), "%s: symmetrised probabilities sum to" % g["syms"], rtol=1e-9, sub=k)
            P = P / P.sum()      # the exponential average is a sum over the orbit, normalised up to the number of elements
            x, l, idx = frequencies(J, psi, c, np, n, lpf, sh)
            ctx.step(n)
            if not ctx.check(bool(np.all((x >= 0) & (x < 2))), "invalid sample"):
                return
            f = np.bincount(idx, minlength=len(cfg)) / n
            bad = int(np.argmax(np.abs(f - P)))
            ctx.check(abs(f[bad] - P[bad]) < TOL, "%s, parameters %d: configuration %s is generated with probability %.4f but evaluates to %.4f" % (g["syms"], k, cfg[bad].tolist(), f[bad], P[bad]), k)
            ctx.count("random_assignments", n)
            ctx.state((str(c), k))
            ctx.outcome(f.tobytes())
        ctx.validated()
    ctx.each([dict(dim=dim, L=L, cell="RNN", depth=1, d=2, real=r, lpf=lpf) for r in ((True, False) if lpf == 0.5 else (True,))], case)
