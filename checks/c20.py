"""C20: every network of the ansatz library against an independent numpy evaluation of its formula, on every configuration."""
import itertools

LEVEL = "model_checking"
RULE = ("every basis configuration of every lattice shape in the bounds x every network setting in the box (sizes, layers, filters larger and smaller than the lattice, strides, biases, activations, boundaries) x parameter settings: "
        "network output compared with a plain numpy evaluation of the documented formula, and with its value on every translated configuration; "
        "every descriptor of init_net in the box, built twice")
ASSUMPTIONS = ["orbits of lattice symmetries (decided by C11) and autoregressive networks (decided by C13) are taken from the library inside init_net", "parameter magnitudes of order one"]
NDEV = 1
SHAPES1 = [(1,), (2,), (3,), (4,), (5,)]
SHAPES2 = [(2, 2), (2, 3), (3, 2), (3, 3), (1, 3)]


def groups(tier):
    gs = []
    for sh in SHAPES1 + SHAPES2 + ([(6,), (2, 4), (4, 2)] if tier != "quick" else []):
        for kind in ("rbm", "ffn", "cnn", "cpxcnn", "cnnsym", "two"):
            if kind == "cnnsym" and len(sh) == 2 and sh[0] != sh[1]:
                continue
            gs.append({"name": "%s-%s" % (kind, "x".join(map(str, sh))), "kind": kind, "shape": sh, "tier": tier, "cost": 4 if kind.endswith("cnn") else 2})
    gs.append({"name": "activations", "kind": "act", "tier": tier})
    for sh in [(3,), (4,), (2, 2)]:
        for part in range(3):
            gs.append({"name": "descr-%s-%d" % ("x".join(map(str, sh)), part), "kind": "descr", "shape": sh, "part": part, "tier": tier, "cost": 8})
    return gs


# ---- numpy reference -------------------------------------------------------
def conv(np, x, W, b, strides, pad):
    """x: (batch, spatial..., c_in); W: (f..., c_in, c_out); pad: list of (lo, hi, mode)"""
    nd = x.ndim - 2
    for ax, (lo, hi, mode) in enumerate(pad):
        ax += 1
        n = x.shape[ax]
        if mode == "wrap":
            idx = [(i % n) for i in range(-lo, n + hi)]
            x = np.take(x, idx, axis=ax)
        else:
            z = list(x.shape)
            z[ax] = lo
            y = list(x.shape)
            y[ax] = hi
            x = np.concatenate([np.zeros(z, x.dtype), x, np.zeros(y, x.dtype)], axis=ax)
    f = W.shape[:nd]
    out = [(x.shape[a + 1] - f[a]) // strides[a] + 1 for a in range(nd)]
    res = np.zeros(x.shape[:1] + tuple(out) + (W.shape[-1],), dtype=np.result_type(x, W))
    for pos in itertools.product(*map(range, out)):
        acc = 0
        for k in itertools.product(*map(range, f)):
            acc = acc + x[(slice(None),) + tuple(p * s + q for p, s, q in zip(pos, strides, k))] @ W[k]
        res[(slice(None),) + pos] = acc + (b if b is not None else 0)
    return res


def layers_of(tree, np):
    """[(kernel, bias or None)] in the order of the layers"""
    import re

    out = []

    def walk(t):
        if "kernel" in t:
            out.append((np.asarray(t["kernel"]), np.asarray(t["bias"]) if "bias" in t else None))
            return
        for k in sorted(t, key=lambda s: [int(x) if x.isdigit() else x for x in re.split(r"(\d+)", s)]):
            walk(t[k])
    walk(tree)
    return out


def logcosh(np, z):
    return np.log(np.cosh(z))


def run(g, ctx):
    from mc.jx import jax, jnp, np
    from mc.nets import all_configs
    import jVMC
    nets = jVMC.nets
    quick = g["tier"] == "quick"
    ACT = {"square": (nets.square, lambda x: x ** 2),
           "poly5": (nets.poly5, lambda x: x - x ** 3 / 3 + 2 * x ** 5 / 15),
           "poly6": (nets.poly6, lambda x: x ** 2 / 2 - x ** 4 / 12 + x ** 6 / 45),
           "elu": (jax.nn.elu, lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0)))),
           "relu": (jax.nn.relu, lambda x: np.maximum(x, 0)),
           "tanh": (jnp.tanh, np.tanh),
           "log_cosh": (nets.log_cosh, lambda x: logcosh(np, x))}

    if g["kind"] == "act":
        from jVMC.nets.activation_functions import activationFunctions as table
        pts = np.linspace(-1.5, 1.5, 31)
        z = (pts[:, None] + 1j * pts[None, :]).ravel()

        def case(c):
            f, ref = ACT[c["f"]]
            if c["f"] in table:
                f = table[c["f"]]
            x = pts if c["real"] else z
            got, want = np.asarray(f(jnp.asarray(x))), ref(x)
            if c["f"] == "log_cosh":
                got, want = np.exp(got), np.cosh(x)
            ctx.close(got, want, c["f"], rtol=1e-7, atol=1e-7)
            if c["f"] == "log_cosh":      # no overflow
                big = np.array([-800.0, 800.0]) + (0 if c["real"] else 0.3j)
                ctx.close(np.asarray(f(jnp.asarray(big))), np.abs(big.real) - np.log(2) + 1j * np.sign(big.real) * np.imag(big), "log_cosh at large arguments", rtol=1e-9)
            ctx.step(len(x))
            ctx.state(str(c))
            ctx.validated()
        ctx.each([{"f": f, "real": r} for f in ACT for r in (True, False) if r or f not in ("elu", "relu")], case)
        return

    shape = tuple(g["shape"])
    nd = len(shape)
    cfg = all_configs(shape)
    spins = 2.0 * cfg - 1

    def pattern(tree, which):
        """deterministic parameters of the same structure; which = 0 keeps the initial ones"""
        if which == 0:
            return tree
        leaves, td = jax.tree_util.tree_flatten(tree)
        out, off = [], 0
        for l in leaves:
            k = off + np.arange(l.size)
            v = 0.5 * np.sin(1.3 * which + 0.9 * k + 0.01 * k ** 2)
            if np.iscomplexobj(np.asarray(l)):
                v = v + 0.4j * np.cos(0.7 * which + 1.1 * k)
            out.append(jnp.asarray(v.reshape(l.shape) * (1.0 if l.ndim < 3 else 1.5 / np.sqrt(np.prod(l.shape[:-1]))), dtype=l.dtype))
            off += l.size
        return jax.tree_util.tree_unflatten(td, out)

    def compare(net, ref, what, symm=False, logs=False, pats=(0, 1, 2)):
        init = jax.jit(net.init)(jax.random.PRNGKey(3), jnp.asarray(cfg[0]))["params"]
        apply = jax.jit(jax.vmap(net.apply, in_axes=(None, 0)))
        for w in pats:
            tree = pattern(init, w)
            par = {"params": tree}
            got = np.asarray(apply(par, jnp.asarray(cfg)))
            if not ctx.check(got.shape == (len(cfg),), "%s: output shape %s" % (what, got.shape)):
                return
            want = ref(tree, cfg)
            if logs:      # logarithms of complex numbers: compare amplitudes
                ctx.close(np.exp(got), np.exp(want), "%s, parameters %d" % (what, w), rtol=1e-8, atol=1e-12)
            else:
                ctx.close(got, want, "%s, parameters %d" % (what, w), rtol=1e-7, atol=1e-7)
            ctx.check(np.iscomplexobj(got) == np.iscomplexobj(want), "%s: output type %s" % (what, got.dtype))
            if symm:
                key = {c.tobytes(): i for i, c in enumerate(cfg)}
                for sh in itertools.product(*map(range, shape)):
                    idx = [key[np.ascontiguousarray(np.roll(c, sh, axis=tuple(range(nd)))).tobytes()] for c in cfg]
                    ctx.close(got[idx], got, "%s: translated by %s" % (what, sh), rtol=1e-9, atol=1e-10)
            ctx.step(len(cfg))
        ctx.state(what)
        ctx.validated()

    def ref_cnn(c, cpx, tree, s, F, st, periodic):
        x = (2.0 * s - 1)[..., None]
        acts = [ACT[a][1] for a in c["act"]]
        ls = layers_of(tree, np)
        for l, (W, b) in enumerate(ls):
            if periodic:
                pad = [(0, f - 1, "wrap") for f in F]
            elif not cpx:
                pad = [(f - 1, f - 1, "zero") for f in F]
            else:
                pad = []
                for a, f in enumerate(F):
                    n = x.shape[a + 1]
                    tot = max((-(-n // st[a]) - 1) * st[a] + f - n, 0)
                    pad.append((tot // 2, tot - tot // 2, "zero"))
            x = acts[min(l, len(acts) - 1)](conv(np, x, W, b, st, pad))
        return np.sum(x.reshape(len(x), -1), axis=1) / np.sqrt(x[0].size)

    def check_bias(tree, c, what):
        for l, (W, b) in enumerate(layers_of(tree, np)):
            has = c["flb"] if l == 0 else c["bias"]
            ctx.check((b is not None) == bool(has), "%s: bias of layer %d" % (what, l))

    if g["kind"] == "rbm":
        def case(c):
            cls = {"RBM": nets.RBM, "CpxRBM": nets.CpxRBM, "NS": nets.CpxRBM_Nospinflip}[c["net"]]
            net = cls(numHidden=c["h"], bias=c["bias"])

            def ref(tree, s):
                (W, b), = layers_of(tree, np)
                ctx.check((b is not None) == c["bias"] and W.shape == (s[0].size, c["h"]), "%s: parameters %s" % (c, W.shape))
                s = s.reshape(len(s), -1)
                x = s * 1.0 if c["net"] == "NS" else 2.0 * s - 1
                return np.sum(logcosh(np, x @ W + (b if b is not None else 0)), axis=1)
            compare(net, ref, str(c), logs=c["net"] != "RBM")
        ctx.each([{"net": n, "h": h, "bias": b} for n in ("RBM", "CpxRBM", "NS") for h in (1, 2, 3) for b in (False, True)], case)

    elif g["kind"] == "ffn":
        def case(c):
            net = nets.FFN(layers=tuple(c["layers"]), bias=c["bias"], actFun=tuple(ACT[a][0] for a in c["act"]))

            def ref(tree, s):
                ls = layers_of(tree, np)
                ctx.check([W.shape[1] for W, _ in ls] == list(c["layers"]) + [1], "%s: layer sizes" % c)
                acts = [ACT[a][1] for a in c["act"]]
                x = 2.0 * s.reshape(len(s), -1) - 1
                for l, (W, b) in enumerate(ls):
                    ctx.check((b is not None) == c["bias"], "%s: bias" % c)
                    x = acts[min(l, len(acts) - 1)](x @ W + (b if b is not None else 0))
                return np.sum(x, axis=1)
            compare(net, ref, str(c))
        ctx.each([{"layers": l, "bias": b, "act": a} for l in ([1], [3], [2, 3], [2, 1, 2]) for b in (False, True)
                  for a in (["elu"], ["tanh"], ["tanh", "square"], ["square", "elu", "tanh"]) if len(a) <= len(l) + 1], case)

    elif g["kind"] in ("cnn", "cpxcnn"):
        cpx = g["kind"] == "cpxcnn"

        def case(c):
            F, st = tuple(c["F"]), tuple(c["st"])
            cls = nets.CpxCNN if cpx else nets.CNN
            net = cls(F=F, channels=tuple(c["ch"]), strides=st, actFun=tuple(ACT[a][0] for a in c["act"]), bias=c["bias"], firstLayerBias=c["flb"], periodicBoundary=c["per"])

            def ref(tree, s):
                check_bias(tree, c, str(c))
                return ref_cnn(c, cpx, tree, s, F, st, c["per"])
            compare(net, ref, str(c), symm=c["per"] and all(x == 1 for x in st), pats=(0, 1) if quick else (0, 1, 2))
        fs = [tuple([f] * nd) for f in (1, 2, 3)] + ([(1, 2), (3, 1)] if nd == 2 else [(4,), (6,)])
        ss = [tuple([1] * nd)] + [tuple([2] * nd)] + ([(1, 2), (2, 1)] if nd == 2 else [])
        acts = [["poly6"], ["square", "poly5"]] if cpx else [["elu"], ["tanh", "square"]]
        cases, k = [], 0
        for F in fs:
            for st in ss:
                for ch in ([1], [2], [2, 2], [2, 3, 1]):
                    for per in (True, False):
                        if len(cfg) > 64 and (len(ch) > 2 or (F[0] + st[0] + len(ch)) % 2) and quick:
                            continue
                        k += 1
                        if quick and nd == 2 and (k + fs.index(F) + ss.index(st)) % 3:
                            continue
                        if quick and nd == 1 and len(ch) == 3 and (k // 2 + fs.index(F)) % 2:
                            continue
                        cases.append({"F": F, "st": st, "ch": ch, "per": per, "bias": bool(k % 2) if k % 3 else not k % 2, "flb": bool((k // 2) % 2), "act": acts[(k // 3) % 2]})
        ctx.each(cases, case)

    elif g["kind"] == "cnnsym":
        sym = jVMC.util.symmetries

        def case(c):
            F = tuple([2] * nd)
            st = tuple([1] * nd)
            orb = (sym.get_orbit_1D if nd == 1 else sym.get_orbit_2D_square)(shape[0], *c["sy"])
            net = nets.CpxCNNSym(orbit=orb, F=F, channels=(2, 1), strides=st, actFun=(nets.poly6,), bias=c["bias"], firstLayerBias=c["flb"])
            O = np.asarray(orb.orbit)
            c2 = {"act": ["poly6"]}

            def ref(tree, s):
                return np.mean([ref_cnn(c2, True, tree, (s.reshape(len(s), -1) @ o.T).reshape(s.shape), F, st, True) for o in O], axis=0)
            compare(net, ref, str(c), symm="translation" in c["sy"], pats=(0, 1))
        ctx.each([{"sy": list(sy), "bias": b, "flb": f} for k in range(3) for sy in itertools.combinations(("translation", "reflection"), k) for b, f in ((True, False), (False, True))], case)

    elif g["kind"] == "two":
        def case(c):
            mk = {"rbm": lambda: nets.RBM(numHidden=2, bias=True), "ffn": lambda: nets.FFN(layers=(2,), actFun=(jnp.tanh,)), "cnn": lambda: nets.CNN(F=tuple([2] * nd), channels=(2,), strides=tuple([1] * nd))}
            a, b = mk[c["a"]](), mk[c["b"]]()
            net = nets.TwoNets(nets=(a, b))
            psi = jVMC.vqs.NQS(net, batchSize=4, seed=5)
            psi(jnp.asarray(cfg[:1])[None])
            psi2 = jVMC.vqs.NQS((mk[c["a"]](), mk[c["b"]]()), batchSize=4, seed=5)
            for w in (0, 1):
                tree = pattern(psi.params, w)
                keys = sorted(tree.keys())
                ctx.check(len(keys) == 2, "two networks expected, found %s" % keys)
                va = np.asarray(jax.vmap(lambda s: a.apply({"params": tree[keys[0]]}, s))(jnp.asarray(cfg)))
                vb = np.asarray(jax.vmap(lambda s: b.apply({"params": tree[keys[1]]}, s))(jnp.asarray(cfg)))
                got = np.asarray(jax.vmap(lambda s: net.apply({"params": tree}, s))(jnp.asarray(cfg)))
                ctx.close(got, va + 1j * vb, "%s: first + i second" % c, rtol=1e-10)
                re = np.asarray(jax.vmap(lambda s: net.apply({"params": tree}, s, method=net.eval_real))(jnp.asarray(cfg)))
                ctx.close(re, va, "%s: eval_real" % c, rtol=1e-10)
                psi.set_parameters(jnp.concatenate([l.ravel() for l in jax.tree_util.tree_flatten(tree)[0]]))
                ctx.close(np.asarray(psi(jnp.asarray(cfg)[None])).ravel(), va + 1j * vb, "%s: NQS" % c, rtol=1e-10)
                psi2(jnp.asarray(cfg[:1])[None])
                psi2.set_parameters(psi.get_parameters())
                ctx.close(np.asarray(psi2(jnp.asarray(cfg)[None])).ravel(), va + 1j * vb, "%s: NQS of a tuple" % c, rtol=1e-10)
                ctx.step(len(cfg))
            ctx.state(str(c))
            ctx.validated()
        ctx.each([{"a": a, "b": b} for a in ("rbm", "ffn", "cnn") for b in ("rbm", "ffn", "cnn")], case)

    elif g["kind"] == "descr":
        import copy
        sym = jVMC.util.symmetries
        one = tuple([1] * nd)
        N = int(np.prod(shape))
        D = {
            "RBM": {"numHidden": 2, "bias": True}, "CpxRBM": {"numHidden": 2, "bias": True},
            "FFN": {"layers": (2, 2), "bias": True, "actFun": ["tanh", "elu"]},
            "CNN": {"F": (2,) * nd, "channels": (2, 1), "strides": (1,) * nd, "actFun": ["elu"]},
            "CpxCNN": {"F": (2,) * nd, "channels": (2,), "strides": (1,) * nd, "actFun": ["poly6"]},
            ("RNN" if nd == 1 else "RNN2D"): {"L": shape[0], "hiddenSize": 2, "depth": 1, "inputDim": 2, "actFun": "tanh"},
        }
        classes = {"RBM": nets.RBM, "CpxRBM": nets.CpxRBM, "FFN": nets.FFN, "CNN": nets.CNN, "CpxCNN": nets.CpxCNN, "RNN": nets.RNN1DGeneral, "RNN2D": nets.RNN2DGeneral}
        table = {k: v[0] for k, v in ACT.items()}

        def direct(t):
            p = copy.deepcopy(D[t])
            if "actFun" in p:
                p["actFun"] = tuple(table[a] for a in p["actFun"]) if isinstance(p["actFun"], list) else table[p["actFun"]]
            return classes[t](**{k: tuple(v) if isinstance(v, list) else v for k, v in p.items()})

        def case(c):
            d = {"batch_size": 4, "net1": {"type": c["a"], "parameters": copy.deepcopy(D[c["a"]])}}
            if c["b"]:
                d["net2"] = {"type": c["b"], "parameters": copy.deepcopy(D[c["b"]])}
                if c["b"].startswith("RNN"):
                    return
            fac = {}
            for s in c["sy"]:
                d[s] = True
            if c["fac"] is not None and "translation" in c["sy"]:
                d["translation_factor"] = c["fac"]
                fac["translation_factor"] = c["fac"]
            d0 = copy.deepcopy(d)
            p1 = jVMC.util.util.init_net(d, shape, 7)
            ctx.check(d == d0, "init_net changed its descriptor to %s" % d)
            p2 = jVMC.util.util.init_net(d, shape, 7)
            ctx.check(d == d0, "init_net changed its descriptor to %s" % d)
            p3 = jVMC.util.util.init_net(d, shape, 8)
            x = jnp.asarray(cfg)[None]
            v1, v2 = np.asarray(p1(x)).ravel(), np.asarray(p2(x)).ravel()
            ctx.check(np.array_equal(v1, v2), "%s: two wave functions of the same descriptor differ" % c)
            ctx.check(np.array_equal(np.asarray(p1.get_parameters()), np.asarray(p2.get_parameters())), "%s: parameters differ" % c)
            ctx.check(not np.array_equal(np.asarray(p1.get_parameters()), np.asarray(p3.get_parameters())), "%s: the seed is ignored" % c)
            ctx.check(p1.batchSize == 4, "%s: batch size %s" % (c, p1.batchSize))
            orb = (sym.get_orbit_1D if nd == 1 else sym.get_orbit_2D_square)(shape[0], *c["sy"], **{k: v for k, v in fac.items()})
            O, f = np.asarray(orb.orbit), np.asarray(orb.factor).ravel()
            net = direct(c["a"]) if not c["b"] else nets.TwoNets(nets=(direct(c["a"]), direct(c["b"])))
            tree = p1.params
            # the parameters of the plain ansatz inside the symmetrised one
            while set(tree.keys()) == {"net"}:
                tree = tree["net"]
            orbits = np.array([[((o @ (2 * s.ravel() - 1) + 1) // 2).reshape(shape) for o in O] for s in cfg]).astype(cfg.dtype)
            plain = np.asarray(jax.vmap(jax.vmap(lambda s: net.apply({"params": tree}, s)))(jnp.asarray(orbits)))
            if c["a"].startswith("RNN"):
                re, im = np.real(plain), np.imag(plain)
                want = np.sqrt(np.mean(np.exp(2 * re), axis=1)) * np.exp(1j * np.angle(np.mean(np.exp(1j * im), axis=1)))
            else:
                want = np.sum(np.exp(plain) * f[None, :], axis=1)
            ctx.close(np.exp(v1), want, "%s: amplitudes" % c, rtol=1e-8, atol=1e-12)
            ctx.step(len(cfg))
            ctx.state(str(c))
            ctx.validated()
        base = []
        sys_ = [[], ["translation"], ["reflection"], ["translation", "reflection"], ["spinflip"], ["translation", "spinflip"]] + ([["rotation"], ["rotation", "reflection", "translation"]] if nd == 2 else [])
        for a in D:
            for b in [None, "RBM", "FFN", "CNN"]:
                if b and a.startswith("Cpx"):
                    continue
                for i, sy in enumerate(sys_):
                    if quick and b and (i + len(a) + len(b)) % 4:
                        continue
                    if quick and not b and nd == 2 and i in (4, 5):
                        continue
                    base.append({"a": a, "b": b, "sy": sy, "fac": -1 if a == "CpxRBM" and sy == ["translation"] and shape[0] % 2 == 0 else None})
        ctx.each([c for i, c in enumerate(base) if i % 3 == g["part"]], case)
