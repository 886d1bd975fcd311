"""C12: the Markov chain kernel, with every random choice enumerated."""
import itertools

LEVEL = "model_checking"
RULE = ("prop: every built-in proposal from every configuration under every value of every random choice (product grid of the generator's draws), giving exact transition "
        "counts; kernel: one and two updates and two successive calls from every start state under all random choices of proposal and acceptance, transition counts "
        "compared as integers with the Metropolis matrix; count: deterministic proposals over the (thermalisation, sweep, chains, samples, devices) box; streams: all keys seen by all chains, devices, processes and steps")
ASSUMPTIONS = ["random numbers are jax.random draws from the sampler's key; floats are explored at the 8 or 64 equidistant strata of the unit interval, chosen such that the acceptance probabilities fall on strata boundaries",
               "wave functions return logarithmic amplitudes; proposals supplied by the user are symmetric"]
NDEV = 3
NETS = ["table", "table_real", "two", "sym"]


def groups(tier):
    gs = []
    full = tier != "quick"
    P = [("spin_flip", (1,)), ("spin_flip", (2,)), ("spin_flip", (5,)), ("spin_flip", (2, 2)), ("spin_flip", (3, 2)),
         ("POVM_outcome", (1,)), ("POVM_outcome", (2,)), ("POVM_outcome", (3,)), ("POVM_outcome", (2, 2)),
         ("spin_flip_Z2", (1,)), ("spin_flip_Z2", (2,)), ("spin_flip_Z2", (3,)), ("spin_flip_Z2", (2, 2)), ("spin_flip_Z2", (5,)),
         ("spin_flip_zeroMag", (2,)), ("spin_flip_zeroMag", (4,)), ("spin_flip_zeroMag", (2, 2)), ("spin_flip_zeroMag", (1, 4)), ("spin_flip_zeroMag", (2, 1)), ("spin_flip_zeroMag", (4, 1))]
    if full:
        P += [("POVM_outcome", (4,)), ("spin_flip_Z2", (2, 3)), ("spin_flip", (7,))]
    for f, sh in P:
        gs.append({"name": "prop-%s-%s" % (f, "x".join(map(str, sh))), "kind": "prop", "f": f, "shape": list(sh), "cost": 60 if "zeroMag" in f else 5})
    for net in NETS:
        for mu in (0, 0.5, 1, 2):
            gs.append({"name": "kernel1-%s-mu%s" % (net, mu), "kind": "kernel", "net": net, "mu": mu, "steps": 1, "calls": 1, "cost": 30, "tier": tier})
            if net in ("table", "two") or full:
                gs.append({"name": "kernel2-%s-mu%s" % (net, mu), "kind": "kernel", "net": net, "mu": mu, "steps": 2, "calls": 1, "cost": 40, "tier": tier})
    for mu in (1, 2):
        for net in ("table", "two"):
            for how in ("set", "explicit"):
                gs.append({"name": "calls-%s-mu%s-%s" % (net, mu, how), "kind": "kernel", "net": net, "mu": mu, "steps": 1, "calls": 2, "how": how, "cost": 40, "tier": tier})
    for D in (1, 2, 3):
        for nc in (1, 2, 3):
            gs.append({"name": "count-D%d-c%d" % (D, nc), "kind": "count", "D": D, "nc": nc, "tier": tier, "cost": 30})
    for P_ in (1, 2, 3):
        for D in (1, 2):
            gs.append({"name": "streams-P%d-D%d" % (P_, D), "kind": "streams", "P": P_, "D": D, "cost": 10 * P_})
    return gs


def run(g, ctx):
    ctx.CASE_LIMIT = 400.0
    {"prop": prop, "kernel": kernel, "count": count, "streams": streams}[g["kind"]](g, ctx)


def strongly_connected(adj):
    def reach(a):
        seen, st = {0}, [0]
        while st:
            x = st.pop()
            for y in range(len(a)):
                if a[x][y] and y not in seen:
                    seen.add(y)
                    st.append(y)
        return len(seen) == len(a)
    return reach(adj) and reach([list(r) for r in zip(*adj)])


def prop(g, ctx):
    from math import lcm
    from mc.jx import jax, jnp, np
    from mc import prng
    from mc.nets import all_configs, table_index
    import jVMC
    f = getattr(jVMC.sampler, "propose_" + g["f"])
    shape = tuple(g["shape"])
    N = int(np.prod(shape))
    lDim = 4 if "POVM" in g["f"] else 2
    R = {"spin_flip": N, "POVM_outcome": lcm(N, 3), "spin_flip_Z2": lcm(N, 5), "spin_flip_zeroMag": lcm(max(N // 2, 1), 5)}[g["f"]]
    R = max(R, 2)
    cfg = all_configs(shape, lDim)
    if "zeroMag" in g["f"]:
        cfg = cfg[cfg.reshape(len(cfg), -1).sum(-1) == N // 2]
    where = {int(i): k for k, i in enumerate(table_index(cfg.reshape(len(cfg), -1), lDim))}
    fv = jax.jit(jax.vmap(f, in_axes=(0, None, None)))

    def run_all(n, s):
        prng.C.pos.clear()
        return np.asarray(jax.device_get(fv(jax.random.split(prng.key(5), n + 1)[:n], jnp.asarray(s), None))), prng.C.count()
    state = {}

    def case(c):
        if "n" not in state:
            prng.C.reset("grid", R)
            out, k = run_all(prng.FAN, cfg[0])
            state["k"], state["n"] = k, R ** k
            ctx.count("random_choices_per_proposal", k)
        n = state["n"]
        exact = n <= 3 * 10 ** 6
        n = max(min(n, 10 ** 6), prng.FAN)
        prng.C.reset("grid", R)
        T = np.zeros((len(cfg), len(cfg)), dtype=np.int64)
        for i, s in enumerate(cfg):
            out, k = run_all(n, s)
            ctx.step(n)
            ctx.count("random_assignments", n)
            if not ctx.check(out.shape == (n,) + shape, "proposal has shape %s" % (out.shape[1:],), i):
                return
            ctx.check(np.issubdtype(out.dtype, np.integer), "proposal dtype %s" % out.dtype, i)
            flat = out.reshape(n, -1)
            u, cnt = np.unique(flat, axis=0, return_counts=True)
            for x, m in zip(u, cnt):
                ok = bool(np.all((x >= 0) & (x < lDim)))
                j = where.get(int(table_index(x, lDim))) if ok else None
                if not ctx.check(j is not None, "%s proposes %s from %s: not a configuration of the sector" % (g["f"], x.tolist(), s.tolist()), i):
                    return
                T[i, j] += m
            ctx.state((i, tuple(T[i])))
            ctx.validated()
        if exact and k == state["k"] and n == state["n"]:
            bad = np.argwhere(T != T.T)
            ctx.check(len(bad) == 0, lambda: "%s is not symmetric: %s -> %s %d times, back %d times of %d" % (
                g["f"], cfg[bad[0][0]].tolist(), cfg[bad[0][1]].tolist(), T[tuple(bad[0])], T[tuple(bad[0][::-1])], n))
        ctx.check(len(cfg) == 1 or strongly_connected((T > 0).tolist()), "%s cannot reach every configuration" % g["f"])
        ctx.outcome(T.tobytes())
    ctx.each([{}], case)


def kernel(g, ctx):
    from mc.jx import jax, jnp, np
    from mc import prng
    from mc.nets import all_configs, TableNet
    import jVMC
    jVMC.global_defs.set_pmap_devices(jax.devices()[:1])
    mu, steps, calls = g["mu"], g["steps"], g["calls"]
    shape, N = (2,), 2
    cfg = all_configs(shape)
    size = {"leaves": 2 * steps * calls}
    # |psi|^mu on the grid of multiples of 1/8
    tables = {"A": [1, 1 / 2, 1 / 4, 1 / 8], "B": [1 / 8, 1, 1, 1 / 2], "C": [1 / 8, 1 / 4, 1 / 2, 1 / 2]}
    orbit = None
    if g["net"] == "sym":
        tables = {"A": [1, 1 / 2, 1 / 2, 1 / 8], "B": [1 / 8, 1, 1, 1 / 2]}
    if calls == 2:
        tables = {"A": tables["A"], "B": tables["B"]}

    def params(w):
        a = np.log(np.array(w)) / (mu if mu else 1.0)
        b = np.array([0.3, -1.0, 2.0, 0.7])
        if g["net"] in ("table", "two"):
            return jnp.asarray(np.concatenate([a, b]))
        if g["net"] == "table_real":
            return jnp.asarray(a)
        # symmetrised under reflection: the table is symmetric, phase too
        return jnp.asarray(np.concatenate([a, np.array([0.3, -1.0, -1.0, 0.7])]))

    def make(n):
        if g["net"] == "two":
            return jVMC.vqs.NQS((TableNet(shape=shape, cpx=False), TableNet(shape=shape, cpx=False)), batchSize=n, seed=3)
        if g["net"] == "sym":
            return jVMC.vqs.NQS(TableNet(shape=shape), batchSize=n, seed=3, orbit=jVMC.util.symmetries.get_orbit_1D(2, "reflection"))
        return jVMC.vqs.NQS(TableNet(shape=shape, cpx=g["net"] == "table"), batchSize=n, seed=3)

    def proposer(key, s, info):
        i = jax.random.bits(key, (), dtype=jnp.uint32) % 2
        return s.at[i].set(1 - s[i])

    def T(w):
        w = np.array(w) if mu else np.ones(4)
        M = np.zeros((4, 4))
        for s in range(4):
            for b in (1, 2):
                M[s, s ^ b] += 0.5 * min(1.0, w[s ^ b] / w[s])
            M[s, s] = 1 - M[s].sum()
        return M

    def case(c):
        # the number of random choices per execution is discovered: repeat on the larger product grid if there are more
        while not attempt(c):
            size["leaves"] = prng.C.count()

    def attempt(c):
        leaves = size["leaves"]
        if leaves > 6:
            ctx.count("executions_without_verdict_too_many_random_choices")
            return True
        R = 64 if leaves == 2 else 8
        n = R ** leaves
        prng.C.reset("grid", R)
        psi = make(n)
        s0 = cfg[c["s"]]
        therm = 1 if steps == 2 and c["split"] == "therm" else 0
        sweep = 2 if steps == 2 and c["split"] == "sweep" else 1
        sam = jVMC.sampler.MCSampler(psi, shape, prng.key(3), updateProposer=proposer, numChains=n, numSamples=n, thermalizationSweeps=therm,
                                     sweepSteps=sweep, initState=jnp.asarray(s0), mu=mu, logProbFactor=1.0 if g["net"] == "table_real" else 0.5)
        seq = c["tables"]
        psi.set_parameters(params(tables[seq[0]]))
        M = np.eye(4)
        acc = 0.0
        for k, t in enumerate(seq):
            if k and g["how"] == "set":
                psi.set_parameters(params(tables[t]))
                out = sam.sample()
            elif k:
                out = sam.sample(parameters=params(tables[t]))
            else:
                out = sam.sample()
            for _ in range(steps):
                M = M @ T(tables[t])
            ctx.step(n * steps)
            x = np.asarray(out[0]).reshape(-1, N)
            if not ctx.check(x.shape == (n, N) and set(np.unique(x)) <= {0, 1}, "invalid samples of shape %s" % (x.shape,)):
                return True
            if prng.C.count() > leaves:
                return False
            cnt = np.bincount(x[:, 0] + 2 * x[:, 1], minlength=4)
            want = M[c["s"]] * n
            ctx.check(bool(np.all(np.abs(cnt - want) <= 2)), "from %s after call %d: transition counts %s of %d, detailed balance for |psi|^%s requires %s" % (
                s0.tolist(), k + 1, cnt.tolist(), n, mu, want.tolist()))
            ctx.outcome(cnt.tobytes())
        ctx.state((c["s"], tuple(seq), c["split"]))
        ctx.count("random_assignments", n)
        ctx.validated()
        return True
    cases = []
    for s in range(4):
        for split in (["-"] if steps == 1 else ["therm", "sweep"]):
            for seq in ([[t] for t in tables] if calls == 1 else [["A", "B"], ["B", "A"]]):
                if ctx.group["tier"] == "quick" and steps == 2 and ((s + len(split) + ord(seq[0][0])) % 2):
                    continue
                cases.append({"s": s, "split": split, "tables": seq})
    ctx.each(cases, case)


def count(g, ctx):
    from mc.jx import jax, jnp, np
    from mc.nets import all_configs
    import jVMC
    from mc.nets import TableNet
    D, nc = g["D"], g["nc"]
    jVMC.global_defs.set_pmap_devices(jax.devices()[:D])
    shape = (8,)
    bits = 2 ** np.arange(8)

    def counter(key, s, info):
        """the binary counter: proposes s + info (mod 256)"""
        v = (jnp.sum(s * bits) + (1 if info is None else info)) % 256
        return ((v // bits) % 2).astype(s.dtype)

    def case(c):
        psi = jVMC.vqs.NQS(jVMC.nets.RBM(numHidden=1), batchSize=16, seed=1)
        kw = {} if c["inc"] is None else {"updateProposerArg": c["inc"]}
        init = ((c["init"] // bits) % 2).astype(np.int32)
        sam = jVMC.sampler.MCSampler(psi, shape, 7, updateProposer=counter, numChains=nc, numSamples=c["n"], thermalizationSweeps=c["therm"], sweepSteps=c["sweep"],
                                     initState=jnp.asarray(init), mu=0, **kw)
        inc = c["inc"] or 1
        pos = c["init"]
        for call in range(2):
            out = sam.sample()
            v = (np.asarray(out[0]).reshape(D, -1, 8) * bits).sum(-1)
            per = -(-c["n"] // (D * nc))
            pos += c["therm"] * c["sweep"] * inc
            want = []
            for i in range(per):
                pos += c["sweep"] * inc
                want += [pos % 256] * nc
            for d in range(D):
                ctx.check(sorted(v[d].tolist()) == sorted(want), "call %d, device %d: %d chains with thermalisation %d, sweeps of %d visited %s, expected %s" % (
                    call + 1, d, nc, c["therm"], c["sweep"], sorted(v[d].tolist()), sorted(want)))
            r = np.asarray(sam.acceptance_ratio()).ravel()
            ctx.check(bool(np.all(np.abs(r - 1.0) < 1e-12)), "acceptance ratio %s although every update is accepted" % r)
            ctx.step(D * nc * (c["therm"] + per) * c["sweep"])
        ctx.state(json_key(c))
        ctx.validated()
        ctx.outcome(tuple(v.ravel().tolist()))
    full = g["tier"] != "quick"
    cases = []
    for therm in range(0, 4):
        for sweep in (1, 2, 3) if not full else range(1, 6):
            for n in ((1, 4, 7) if not full else range(1, 10)):
                k = therm + sweep + n
                cases.append({"therm": therm, "sweep": sweep, "n": n, "init": 5 * (k % 3), "inc": [None, 1, 3][k % 3]})
    if not full:
        cases = [c for i, c in enumerate(cases) if (i + D + nc) % 3 == 0]
    ctx.each(cases, case)


def json_key(c):
    return tuple(sorted((k, str(v)) for k, v in c.items()))


def streams(g, ctx):
    from mc.jx import jax, jnp, np
    from mc.simmpi import World
    import flax.linen as nn
    P, D = g["P"], g["D"]
    w = World(P)
    pk = w.load()
    for r in range(P):
        pk[r].global_defs.set_pmap_devices(jax.devices()[:D])

    class Const(nn.Module):
        @nn.compact
        def __call__(self, s):
            a = self.param("a", lambda k, sh: jnp.zeros(sh), (1,))
            return jnp.asarray(a)[0] + 0.0 * jnp.sum(s)

    class Gen(nn.Module):
        """'samples' are the keys handed to the network"""
        @nn.compact
        def __call__(self, s):
            a = self.param("a", lambda k, sh: jnp.zeros(sh), (1,))
            return jnp.asarray(a)[0] + 0.0 * jnp.sum(s)

        def sample(self, n, key):
            kd = jax.vmap(lambda k: jax.lax.bitcast_convert_type(k, jnp.int32))(jax.random.split(key, n))
            return kd

    def proposer(key, s, info):
        return jax.lax.bitcast_convert_type(key, jnp.int32).astype(s.dtype)

    def case(c):
        def body(r):
            def f():
                J = pk[r]
                if c["kind"] == "mcmc":
                    psi = J.vqs.NQS(Const(), batchSize=8, seed=1)
                    key = c["seed"] if c["how"] == "int" else jax.random.PRNGKey(c["seed"])
                    sam = J.sampler.MCSampler(psi, (2,), key, updateProposer=proposer, numChains=c["nc"], numSamples=0, thermalizationSweeps=0, sweepSteps=c["sweep"], mu=0)
                else:
                    psi = J.vqs.NQS(Gen(), batchSize=8, seed=1)
                    key = c["seed"] if c["how"] == "int" else jax.random.PRNGKey(c["seed"])
                    sam = J.sampler.MCSampler(psi, (2,), key, numChains=c["nc"], numSamples=0)
                out = []
                if c["how"] == "set":
                    sam.set_random_key(jax.random.PRNGKey(c["seed"] + 1000))
                for call in range(2):
                    x = sam.sample(numSamples=P * D * c["nc"] * 2)[0]
                    out.append(np.asarray(jax.device_get(x)).reshape(-1, 2))
                return np.concatenate(out)
            return f
        res = w.run([body(r) for r in range(P)])
        ctx.step(2 * P)
        allk = np.concatenate(res)
        u = np.unique(allk, axis=0)
        ctx.check(len(u) == len(allk), "%d random keys are shared between chains, devices, processes or calls (of %d)" % (len(allk) - len(u), len(allk)))
        ctx.state(json_key(c))
        ctx.validated()
        ctx.count("keys", len(allk))
    cases = [{"kind": k, "how": h, "seed": s, "nc": nc, "sweep": sw} for k in ("mcmc", "gen") for h in ("int", "key", "set") for s in (0, 1234)
             for nc in (1, 2) if s == 0 or nc == 2 for sw in ((1, 3) if k == "mcmc" else (1,))]
    ctx.each(cases, case)
