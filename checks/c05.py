"""C05: SampledObs statistics against the pooled-sample reference, for all operation chains and splits."""
import itertools

LEVEL = "model_checking"
RULE = ("chain: every sequence of {transform, linear transform, select, subset, covar_data} up to the depth bound applied to the real object, all statistics "
        "queried in every reached state, and the root queried again at the end; grid: dtypes x weight patterns x splits over processes/devices; "
        "grad: mean_and_grad against the derivative of the dense expectation value, over all histories of parameter sets")
ASSUMPTIONS = ["weights normalised to one over all processes; subsets with vanishing total weight are not valid inputs"]
NDEV = 4
SPLITS = [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (3, 1)]
OPS = ["T", "L", "S0", "S1", "U0", "U1", "U2", "C"]


def groups(tier):
    gs = []
    for P, D in SPLITS:
        for t in "fc":
            for wk in "unz":
                gs.append({"name": "chain-P%d-D%d-%s-%s" % (P, D, t, wk), "kind": "chain", "P": P, "D": D, "t": t, "w": wk, "tier": tier, "cost": 5 * P})
    for P, D in SPLITS:
        gs.append({"name": "pair-P%d-D%d" % (P, D), "kind": "pair", "P": P, "D": D, "tier": tier, "cost": 3 * P})
        gs.append({"name": "grad-P%d-D%d" % (P, D), "kind": "grad", "P": P, "D": D, "tier": tier, "cost": 12 * P})
    return gs


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, rep
    from mc.simmpi import World
    from checks.c04 import make, weights
    P, D = g["P"], g["D"]
    w = World(P)
    pk = w.load()
    for p_ in pk:
        use_devices(p_, D)
    B = [5, 4, 6][:P]
    off = np.cumsum([0] + [D * b for b in B])
    n = int(off[-1])

    class Ref:
        """pooled samples; X[r] has shape (D, B_r, ...), W[r] (D, B_r)"""

        def __init__(self, X, W):
            self.X, self.W = X, W

        def pool(self):
            X = np.concatenate([x.reshape((-1,) + x.shape[2:]) for x in self.X])
            W = np.concatenate([x.reshape(-1) for x in self.W])
            return X, W

        def stats(self):
            X, W = self.pool()
            m = np.tensordot(W, X, axes=(0, 0))
            d = X - m
            o = {"mean": m, "var": np.tensordot(W, np.abs(d) ** 2, axes=(0, 0)),
                 "covar": np.tensordot(np.conj(d) * W.reshape((-1,) + (1,) * (d.ndim - 1)), d, axes=(0, 0))}
            if d.ndim == 2:
                cd = np.einsum("ja,jb->jab", d.conj(), d)
                o["covar_var"] = np.tensordot(W, np.abs(cd) ** 2, axes=(0, 0)) - np.abs(o["covar"]) ** 2
                dw = d * np.sqrt(W)[:, None]
                o["tangent_kernel"] = dw @ dw.conj().T
            return o

        def mean(self):
            X, W = self.pool()
            return np.tensordot(W, X, axes=(0, 0))

    def sq(x):
        return x ** 2 + 0.5

    def lin(x):
        return 2.0 * x

    V = {k: np.sin(np.arange(2 * k).reshape(2, k) + 1.0) + 1j * np.cos(np.arange(2 * k).reshape(2, k)) for k in (1, 2, 3, 4, 9)}

    def enabled(ref, op):
        k = ref.X[0].shape[2:]
        if op == "L":
            return len(k) == 2 and k[0] in V
        if op == "S0":
            return k[0] >= 1
        if op == "S1":
            return k[0] >= 2
        if op[0] == "U":
            sl = {"U0": slice(0, None, 2), "U1": slice(1, None, 2), "U2": slice(1, 3)}[op]
            W = [x[:, sl] for x in ref.W]
            return all(x.shape[1] > 0 for x in W) and sum(x.sum() for x in W) > 1e-3
        if op == "C":
            return len(k) == 1
        return True

    def ref_apply(ref, op):
        if op == "T":
            return Ref([sq(x) for x in ref.X], ref.W)
        if op == "L":
            v = V[ref.X[0].shape[2]]
            return Ref([np.matmul(v, lin(x)) for x in ref.X], ref.W)
        if op == "S0":
            ix = np.array([ref.X[0].shape[2] - 1])
            return Ref([x[:, :, ix] for x in ref.X], ref.W)
        if op == "S1":
            ix = np.array([1, 0, 1])
            return Ref([x[:, :, ix] for x in ref.X], ref.W)
        if op[0] == "U":
            sl = {"U0": slice(0, None, 2), "U1": slice(1, None, 2), "U2": slice(1, 3)}[op]
            W = [x[:, sl] for x in ref.W]
            nrm = sum(x.sum() for x in W)
            return Ref([x[:, sl] for x in ref.X], [x / nrm for x in W])
        if op == "C":
            m = ref.mean()
            return Ref([np.einsum("dja,djb->djab", np.conj(x - m), x - m) for x in ref.X], ref.W)

    def impl_apply(o, op, k):
        if op == "T":
            return o.transform(sq)
        if op == "L":
            return o.transform(nonLinearFun=lin, linearFun=jnp.array(V[k[0]]))
        if op == "S0":
            return o.select(jnp.array([k[0] - 1]))
        if op == "S1":
            return o.select(jnp.array([1, 0, 1]))
        if op == "U0":
            return o.subset(step=2)
        if op == "U1":
            return o.subset(start=1, step=2)
        if op == "U2":
            return o.subset(start=1, end=3)
        if op == "C":
            return o.covar_data()

    def query(o, two):
        q = {"mean": rep(o.mean()), "var": rep(o.var()), "covar": rep(o.covar())}
        if two:
            q["covar_var"] = rep(o.covar_var())
            q["tangent_kernel"] = rep(o.tangent_kernel())
        return q

    def compare(q, ref, what, sub):
        for k, v in q.items():
            ctx.close(v, ref[k], "%s: %s" % (what, k), atol=1e-9, rtol=1e-9, sub=(sub, k))

    def parts(X, W):
        return ([X[off[r]:off[r + 1]].reshape((D, B[r]) + X.shape[1:]) for r in range(P)],
                [W[off[r]:off[r + 1]].reshape((D, B[r])) for r in range(P)])

    if g["kind"] == "chain":
        depth = 2 if g["tier"] == "quick" else 3
        X = make(np, n, (2,), g["t"])
        W = weights(np, n, g["w"])
        root = Ref(*parts(X, W))
        chains = []

        def grow(ref, h):
            chains.append(h)
            if len(h) < depth:
                for op in OPS:
                    if enabled(ref, op):
                        grow(ref_apply(ref, op), h + [op])
        grow(root, [])

        def case(c):
            refs = [root]
            for op in c["h"]:
                refs.append(ref_apply(refs[-1], op))

            def body(r):
                def f():
                    j = pk[r]
                    o0 = j.stats.SampledObs(jnp.array(root.X[r]), jnp.array(root.W[r]))
                    o = o0
                    for i, op in enumerate(c["h"]):
                        o = impl_apply(o, op, refs[i].X[0].shape[2:])
                    q = query(o, refs[-1].X[0].ndim == 3)
                    return q, query(o0, True), query(o, refs[-1].X[0].ndim == 3)
                return f
            res = w.run([body(r) for r in range(P)])
            ctx.step(P * (len(c["h"]) + 10))
            ctx.state(tuple(c["h"]))
            ref = refs[-1].stats()
            for r in range(P):
                compare(res[r][0], ref, "rank %d" % r, "q")
                compare(res[r][1], root.stats(), "rank %d, original object" % r, "root")
                compare(res[r][2], ref, "rank %d, second query" % r, "q2")
            ctx.outcome(np.round(ref["var"], 8).tobytes())
            ctx.validated()
        ctx.each([{"h": h} for h in chains], case)

    elif g["kind"] == "pair":
        def case(c):
            W = weights(np, n, c["w"])
            X1 = make(np, n, tuple(c["k1"]), c["t1"])
            X2 = make(np, n, tuple(c["k2"]), c["t2"], 5)
            p1, wp = parts(X1, W)
            p2, _ = parts(X2, W)

            def body(r):
                def f():
                    j = pk[r]
                    a = j.stats.SampledObs(jnp.array(p1[r]), jnp.array(wp[r]))
                    b = j.stats.SampledObs(jnp.array(p2[r]), jnp.array(wp[r]))
                    cd = a.covar_data(b)
                    out = {"covar": rep(a.covar(b)), "covar_var": rep(a.covar_var(b)), "cd_mean": rep(cd.mean()), "cd_var": rep(cd.var()),
                           "covar_ba": rep(b.covar(a))}
                    sub1, sub2 = a.subset(start=0, step=2), b.subset(start=0, step=2)
                    out["sub_covar"] = rep(sub1.covar(sub2))
                    return out
                return f
            res = w.run([body(r) for r in range(P)])
            ctx.step(P * 8)
            ctx.state((c["w"], tuple(c["k1"]), tuple(c["k2"]), c["t1"], c["t2"]))
            Y1, Y2 = X1.reshape(n, -1), X2.reshape(n, -1)

            def cov(Y1, Y2, W):
                d1, d2 = Y1 - W @ Y1, Y2 - W @ Y2
                return np.einsum("j,ja,jb->ab", W, d1.conj(), d2), np.einsum("ja,jb->jab", d1.conj(), d2)
            C12, cd = cov(Y1, Y2, W)
            m = np.tensordot(W, cd, axes=(0, 0))
            sel = np.concatenate([(np.arange(D * b).reshape(D, b)[:, ::2] + o).ravel() for o, b in zip(off, B)])
            ref = {"covar": C12, "covar_ba": cov(Y2, Y1, W)[0], "covar_var": np.tensordot(W, np.abs(cd) ** 2, axes=(0, 0)) - np.abs(C12) ** 2,
                   "cd_mean": m, "cd_var": np.tensordot(W, np.abs(cd - m) ** 2, axes=(0, 0)),
                   "sub_covar": cov(Y1[sel], Y2[sel], W[sel] / W[sel].sum())[0]}
            for r in range(P):
                compare(res[r], ref, "rank %d" % r, "pair")
            ctx.validated()
        ctx.each([{"w": wk, "k1": k1, "k2": k2, "t1": t1, "t2": t2} for wk in "unz" for k1 in ([], [3]) for k2 in ([], [1], [2]) for t1 in "fc" for t2 in "fc"], case)

    else:
        from mc.nets import TableNet, all_configs
        shape = (2,)
        dim = 4
        confs = all_configs(shape)
        # distribute all basis states plus repetitions over the slots, weights = |psi|^2 / multiplicity
        order = np.array([(5 * i + 1) % dim for i in range(n)])
        mult = np.bincount(order, minlength=dim)
        k = np.arange(2 * dim)
        ths = [0.3 * np.sin(1.0 + 2.1 * k), 0.4 * np.cos(1.7 * k)]

        def est(p, s):
            i = jnp.sum(s * jnp.array([1, 2]))
            a, b = p["params"]["a"], p["params"]["b"]
            return a[i] * b[(i + 1) % dim] + 1j * jnp.sin(a[(i + 2) % dim]) + b[i] ** 2

        def diag_prob(th):
            p = jnp.exp(2 * th[:dim])
            return p / p.sum()

        def F(th, part):
            par = {"params": {"a": th[:dim], "b": th[dim:]}}
            E = jax.vmap(lambda s: est(par, s))(jnp.array(confs))
            v = jnp.sum(diag_prob(th) * E)
            return jnp.real(v) if part == 0 else jnp.imag(v)
        refm = [np.array(F(jnp.array(t), 0) + 1j * F(jnp.array(t), 1)) for t in ths]
        refg = [np.array(jax.grad(F)(jnp.array(t), 0) + 1j * jax.grad(F)(jnp.array(t), 1)) for t in ths]

        def refstat(t, wt):
            par = {"params": {"a": jnp.array(t[:dim]), "b": jnp.array(t[dim:])}}
            E = np.array(jax.vmap(lambda s: est(par, s))(jnp.array(confs)))
            m = (wt * E).sum()
            return m, (wt * np.abs(E - m) ** 2).sum()
        depth = 2 if g["tier"] == "quick" else 3
        al = ["g", "m0", "m1", "v"]

        def case(c):
            wts = np.array(diag_prob(jnp.array(ths[c["th"]])))
            W = (wts / mult)[order]
            X = confs[order]
            xs, ws = parts(X, W)

            def body(r):
                def f():
                    j = pk[r]
                    psi = j.vqs.NQS(TableNet(shape=shape, scale=0.5), seed=1)
                    psi(jnp.array(xs[r]))
                    psi.set_parameters(jnp.array(ths[c["th"]]))
                    o = j.stats.SampledObs(jnp.array(xs[r]), jnp.array(ws[r]), estimator=est, params=psi.parameters)
                    out = []
                    for op in c["h"]:
                        if op == "g":
                            m, gr = o.mean_and_grad(psi, psi.parameters)
                            out.append((rep(m), rep(gr)))
                        elif op[0] == "m":
                            t = ths[int(op[1])]
                            out.append(rep(o.mean({"params": {"a": jnp.array(t[:dim]), "b": jnp.array(t[dim:])}})))
                        else:
                            out.append((rep(o.mean()), rep(o.var())))
                    return out
                return f
            res = w.run([body(r) for r in range(P)])
            ctx.step(P * len(c["h"]))
            ctx.state((c["th"], tuple(c["h"])))
            for r in range(P):
                cur = c["th"]
                for i, op in enumerate(c["h"]):
                    v = res[r][i]
                    if op == "g":
                        cur = c["th"]
                        ctx.close(v[0].ravel(), refm[cur].ravel(), "rank %d mean_and_grad mean" % r, sub=i)
                        ctx.close(v[1].ravel(), refg[cur].ravel(), "rank %d mean_and_grad gradient" % r, sub=i)
                    elif op[0] == "m":
                        cur = int(op[1])
                        ctx.close(v.ravel(), np.array([refstat(ths[cur], wts)[0]]), "rank %d mean(params)" % r, sub=i)
                    else:
                        m, va = refstat(ths[cur], wts)
                        ctx.close(v[0].ravel(), np.array([m]), "rank %d mean after history" % r, sub=i)
                        ctx.close(v[1].ravel(), np.array([va]), "rank %d var after history" % r, sub=i)
            ctx.validated()
        ctx.each([{"th": t, "h": list(h)} for t in (0, 1) for kk in range(1, depth + 1) for h in itertools.product(al, repeat=kk)], case)
