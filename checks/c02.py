"""C02: MCSampler's contract on counts, validity, amplitudes, weights and parameters."""
import itertools

LEVEL = "model_checking"
RULE = ("box: every (numSamples, multipleOf) for every (processes, devices, chains, sampling kind), all returned arrays compared with the stated contract; "
        "weights: every (mu, logProbFactor, network kind); hist: every history of sampler calls up to the depth bound against a model of the parameters and sizes in force; "
        "ratio: acceptance ratios of chains whose accepted updates are known")
ASSUMPTIONS = ["wave functions return logarithmic amplitudes", "the set of devices does not change during the life of a sampler",
               "hist: with two peaked wave functions a chain of 60 single spin flips on two sites reaches the peak (fails with probability below 1e-12 for the fixed seed)"]
NDEV = 3
OPS = ["s", "sA", "sB", "n5", "m3", "N4", "key", "pA", "pB"]


def groups(tier):
    gs = []
    full = tier != "quick"
    for kind in ("mcmc", "gen", "gen2"):
        for P in (1, 2, 3):
            for D in (1, 2, 3):
                if kind == "gen2" and (P, D) != (1, 2):
                    continue
                for nc in (1, 2, 3):
                    if (P + D + nc) % 2 and P > 1 and not full:
                        continue
                    if kind != "mcmc" and nc != 1 + (P + D) % 3:
                        continue
                    gs.append({"name": "box-%s-P%d-D%d-c%d" % (kind, P, D, nc), "kind": "box", "net": kind, "P": P, "D": D, "nc": nc, "tier": tier, "cost": 15 * P})
    for kind in ("mcmc", "gen"):
        for D in (1, 2):
            for a in OPS:
                gs.append({"name": "hist-%s-D%d-%s" % (kind, D, a), "kind": "hist", "net": kind, "D": D, "first": a, "depth": 3 if not full else 4, "cost": 12})
    for net in ("table", "table_real", "two", "rbm", "sym"):
        gs.append({"name": "weights-%s" % net, "kind": "weights", "net": net, "cost": 12})
    for P in (1, 2):
        for D in (1, 2):
            gs.append({"name": "ratio-P%d-D%d" % (P, D), "kind": "ratio", "P": P, "D": D, "cost": 10})
    return gs


def run(g, ctx):
    {"box": box, "hist": hist, "weights": weights, "ratio": ratio}[g["kind"]](g, ctx)


def gen_nets():
    from mc.jx import jax, jnp, np
    import flax.linen as nn

    class Gen(nn.Module):
        """direct sampling from the table exp(2 a): an independent generator"""
        n: int = 2

        def setup(self):
            self.a = self.param("a", lambda k, sh: jnp.sin(1.0 + jnp.arange(sh[0], dtype=jnp.float64)), (2 ** self.n,))

        def __call__(self, s):
            a = jnp.asarray(self.a)
            return a[jnp.sum(s.ravel() * 2 ** jnp.arange(self.n))] - 0.5 * jax.scipy.special.logsumexp(2 * a)

        def sample(self, num, key):
            idx = jax.random.categorical(key, 2 * jnp.asarray(self.a), shape=(num,))
            return ((idx[:, None] // 2 ** jnp.arange(self.n)) % 2).astype(jnp.int32)
    return Gen


def make_psi(J, kind, bs=4):
    from mc.nets import TableNet
    Gen = gen_nets()
    if kind == "mcmc":
        return J.vqs.NQS(TableNet(shape=(2,)), batchSize=bs, seed=1)
    if kind == "gen":
        return J.vqs.NQS(Gen(), batchSize=bs, seed=1)
    return J.vqs.NQS((Gen(), TableNet(shape=(2,), cpx=False)), batchSize=bs, seed=1)


def logpsi(np, kind, p, x):
    p = np.asarray(p)
    i = x[..., 0] + 2 * x[..., 1]
    if kind == "mcmc":
        return p[:4][i] + 1j * p[4:][i]
    n = 0.5 * np.log(np.sum(np.exp(2 * (p[:4] - p[:4].max())))) + p[:4].max()
    if kind == "gen":
        return p[i] - n
    return p[:4][i] - n + 1j * p[4:][i]


def judge(ctx, np, kind, res, D, req, mult, params, lpf, mu, after, glob, what):
    """res: per rank (configs, logPsi, p); returns False on violation"""
    tot = 0
    wsum = 0.0
    ok = True
    raw = []
    for r, (x, l, w) in enumerate(res):
        if not ctx.check(x.ndim == 3 and x.shape[0] == D and x.shape[2] == 2 and l.shape == x.shape[:2] and w.shape == x.shape[:2],
                         "%s: rank %d returns shapes %s %s %s" % (what, r, x.shape, l.shape, w.shape)):
            return False
        ok &= ctx.check(bool(np.all((x == 0) | (x == 1))) and np.issubdtype(x.dtype, np.integer), "%s: invalid configurations %s" % (what, x.tolist()))
        ok &= ctx.check(x.shape[1] % mult == 0, "%s: %d samples per device, not a multiple of %d" % (what, x.shape[1], mult))
        tot += x.shape[0] * x.shape[1]
        wsum += w.sum()
        if ok:
            lp = logpsi(np, kind, params, x)
            ok &= ctx.close(l, lp, "%s: rank %d log amplitudes" % (what, r), rtol=1e-12, atol=1e-12)
            raw.append((np.exp((1 / lpf - mu) * np.real(lp)) if kind == "mcmc" else np.ones(lp.shape), w))
    ok &= ctx.check({int(x) for x in glob} == {tot}, "%s: %d samples returned, get_last_number_of_samples %s" % (what, tot, glob))
    ok &= ctx.check(tot >= req, "%s: %d samples returned, %d requested" % (what, tot, req))
    ok &= ctx.check(abs(wsum - 1) < 1e-10, "%s: weights sum to %s" % (what, wsum))
    if ok and tot:
        z = sum(a.sum() for a, _ in raw)
        for a, w in raw:
            ok &= ctx.close(w, a / z, "%s: weights" % what, rtol=1e-10, atol=1e-12)
    ok &= ctx.check(all(np.array_equal(a, b) for a, b in after), "%s: parameters of the wave function changed" % what)
    return ok


def proposer(J):
    return J.sampler.propose_spin_flip


def box(g, ctx):
    from mc.jx import jax, jnp, np
    from mc.simmpi import World
    P, D, nc, kind = g["P"], g["D"], g["nc"], g["net"]
    w = World(P)
    pk = w.load()
    objs = []
    for r in range(P):
        pk[r].global_defs.set_pmap_devices(jax.devices()[:D])

    def build(r):
        def f():
            psi = make_psi(pk[r], kind)
            sam = pk[r].sampler.MCSampler(psi, (2,), 11, updateProposer=proposer(pk[r]), numChains=nc, numSamples=6, thermalizationSweeps=1, sweepSteps=1)
            return psi, sam
        return f
    objs = w.run([build(r) for r in range(P)])

    def case(c):
        def body(r):
            def f():
                psi, sam = objs[r]
                p0 = np.array(psi.get_parameters())
                x, l, q = sam.sample(numSamples=c["n"], multipleOf=c["m"])
                return (np.array(x), np.array(l), np.array(q)), sam.get_last_number_of_samples(), (p0, np.array(psi.get_parameters()))
            return f
        out = w.run([body(r) for r in range(P)])
        ctx.step(P)
        judge(ctx, np, kind, [o[0] for o in out], D, c["n"], c["m"], out[0][2][0], 0.5, 2, [o[2] for o in out], [o[1] for o in out], str(c))
        ctx.state((c["n"], c["m"]))
        ctx.validated()
        ctx.outcome(tuple(o[0][0].shape for o in out))
    full = g["tier"] != "quick"
    Ns = [1, 2, 3, 4, 5, 7, 8, 12, 13] if not full else range(1, 25)
    Ms = [1, 2, 3, 4] if not full else range(1, 7)
    ctx.each([{"n": n, "m": m} for n in Ns for m in Ms], case)


def peaked(np, kind, where):
    a = np.full(4, -40.0)
    a[where] = 0.0
    return np.concatenate([a, np.array([0.1, 0.2, -0.3, 0.4])]) if kind == "mcmc" else a


def hist(g, ctx):
    from mc.jx import jax, jnp, np
    import jVMC
    D, kind = g["D"], g["net"]
    jVMC.global_defs.set_pmap_devices(jax.devices()[:D])
    psi = make_psi(jVMC, kind)
    sam = jVMC.sampler.MCSampler(psi, (2,), 5, updateProposer=proposer(jVMC), numChains=2, numSamples=2, thermalizationSweeps=10, sweepSteps=6)
    par = {"A": peaked(np, kind, 0), "B": peaked(np, kind, 3)}
    at = {"A": [0, 0], "B": [1, 1]}

    def case(c):
        # known initial situation
        psi.set_parameters(jnp.asarray(par["A"]))
        sam.set_number_of_samples(2)
        cur, num = "A", 2
        for k, o in enumerate(c["h"]):
            what = "step %d (%s) of %s" % (k, o, c["h"])
            if o == "N4":
                sam.set_number_of_samples(9)
                num = 9
            elif o == "key":
                sam.set_random_key(jax.random.PRNGKey(k))
            elif o[0] == "p":
                cur = o[1]
                psi.set_parameters(jnp.asarray(par[cur]))
            else:
                kw, req, mult, used = {}, num, 1, cur
                if o in ("sA", "sB"):
                    used = o[1]
                    kw["parameters"] = jnp.asarray(par[used])
                if o == "n5":
                    kw["numSamples"] = req = 5
                if o == "m3":
                    kw["multipleOf"] = mult = 3
                res = tuple(np.array(a) for a in sam.sample(**kw))
                after = np.array(psi.get_parameters())
                ok = judge(ctx, np, kind, [res], D, req, mult, par[used], 0.5, 2, [(par[cur], after)], [sam.get_last_number_of_samples()], what)
                if ok:
                    ctx.check(bool(np.all(res[0] == np.array(at[used]))), "%s: samples %s are not drawn at the parameters in force (peak at %s)" % (what, res[0].tolist(), at[used]))
            ctx.step()
            ctx.state(tuple(c["h"][:k + 1]))
        ctx.validated()
        ctx.outcome((cur, num))
    hs = [[g["first"]] + list(t) for k in range(g["depth"]) for t in itertools.product(OPS, repeat=k)]
    ctx.each([{"h": h} for h in hs if h[-1][0] in "snm"], case)


def weights(g, ctx):
    from mc.jx import jax, jnp, np
    from mc import zoo
    import jVMC
    jVMC.global_defs.set_pmap_devices(jax.devices()[:2])

    def case(c):
        psi = jVMC.vqs.NQS(batchSize=3, seed=4, **zoo.make(jVMC, g["net"], (3,)))
        sam = jVMC.sampler.MCSampler(psi, (3,), 5, updateProposer=proposer(jVMC), numChains=2, numSamples=10, thermalizationSweeps=2, sweepSteps=3, mu=c["mu"], logProbFactor=c["lpf"])
        for call in range(2):
            x, l, w = sam.sample()
            ctx.step()
            want = np.array(psi(x))
            ctx.close(np.array(l), want, "log amplitudes", rtol=1e-10)
            a = np.exp((1 / c["lpf"] - c["mu"]) * np.real(want))
            ctx.close(np.array(w), a / a.sum(), "weights for mu=%s logProbFactor=%s" % (c["mu"], c["lpf"]), rtol=1e-10)
            x = np.array(x)
            ctx.check(x.shape == (2, 6, 3) and bool(np.all((x == 0) | (x == 1))), "samples %s" % (x.shape,))
            psi.update_parameters(0.3 * jnp.cos(jnp.arange(psi.get_parameters().size)))
        ctx.state((c["mu"], c["lpf"]))
        ctx.validated()
        ctx.outcome(np.array(w).tobytes())
    ctx.each([{"mu": mu, "lpf": lpf} for mu in (0, 0.5, 1, 1.3, 2) for lpf in (0.5, 1.0, 0.25)], case)


def ratio(g, ctx):
    from mc.jx import jax, jnp, np
    from mc.simmpi import World
    P, D = g["P"], g["D"]
    w = World(P)
    pk = w.load()
    for r in range(P):
        pk[r].global_defs.set_pmap_devices(jax.devices()[:D])

    def once(key, s, info):
        """always proposes the other value of site 0; only 0 -> 1 is ever accepted with the peaked state"""
        return s.at[0].set(1 - s[0])

    def case(c):
        def body(r):
            def f():
                J = pk[r]
                psi = make_psi(J, "mcmc")
                sam = J.sampler.MCSampler(psi, (2,), 11, updateProposer=once, numChains=c["nc"], numSamples=c["n"], thermalizationSweeps=c["th"], sweepSteps=c["sw"])
                up = np.concatenate([[-400.0, 400.0, -400.0, 400.0], np.zeros(4)])
                out = []
                for call in c["calls"]:
                    if call == "flat":
                        psi.set_parameters(jnp.zeros(8))
                    else:
                        psi.set_parameters(jnp.asarray(up if call == "up" else -up))
                    sam.sample()
                    out.append(np.array(sam.acceptance_ratio()).ravel())
                return out
            return f
        out = w.run([body(r) for r in range(P)])
        for r in range(P):
            state = 0
            for k, call in enumerate(c["calls"]):
                per = -(-(-(-c["n"] // P)) // (D * c["nc"]))
                upd = c["th"] * c["sw"] + c["sw"] * per
                if call == "flat":
                    acc = upd
                    state = (state + upd) % 2
                else:
                    tgt = 1 if call == "up" else 0
                    acc = 1 if state != tgt else 0
                    state = tgt
                ctx.close(out[r][k], np.array([acc / upd]), "acceptance ratio of call %d (%s) on rank %d of %s" % (k, call, r, c), rtol=1e-12)
                ctx.step()
        ctx.state((str(c),))
        ctx.validated()
        ctx.outcome(str(out))
    cs = []
    for calls in (["up"], ["flat"], ["up", "up"], ["flat", "up", "down"], ["up", "down", "flat"]):
        for th, sw, nc, n in ((0, 1, 1, 12), (1, 2, 2, 12), (2, 3, 1, 24)):
            cs.append({"calls": calls, "th": th, "sw": sw, "nc": nc, "n": n})
    ctx.each(cs, case)
