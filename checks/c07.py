"""C07: algebra of operator expressions and histories of adding / evaluating."""
import itertools

LEVEL = "model_checking"
RULE = ("expr: every ordering of every leaf multiset (numbers, numpy scalars, functions of the arguments, local operators, plain dictionaries) x every bracketing, "
        "built with * on the real classes, plus all OpStr/scal_opstr/tuple forms; every intermediate node is added as a string of its own, so that "
        "modified operands are seen; evaluated at several arguments.  hist: every history of add / += / evaluate (three argument tuples) / get_O_loc up to the "
        "depth bound.  many: 0..60 prefactors in several placements on 1..5 simulated processes")
ASSUMPTIONS = ["functions of the arguments are jax-traceable; products of two bare functions are not expressible in Python and not explored"]
NDEV = 1

MULTI = [["2", "f", "A", "B"], ["f", "g", "A", "B"], ["2", "z", "A", "C"], ["n", "f", "A", "d"], ["2", "f", "g", "A"], ["n", "z", "A", "B"],
         ["i", "h", "A", "C"], ["j", "A", "B", "C"]]


def groups(tier):
    gs = []
    ms = MULTI if tier == "quick" else MULTI + [["2", "f", "A", "B", "C"], ["f", "g", "h", "A", "B"], ["n", "f", "A", "B", "d"], ["2", "z", "f", "A", "C"]]
    for m in ms:
        n = 2 if len(m) == 4 else 12
        for part in range(n):
            gs.append({"name": "expr-%s-%d" % ("".join(m), part), "kind": "expr", "m": m, "part": part, "of": n, "tier": tier, "cost": 6})
    for i in range(7):
        gs.append({"name": "flat-%d" % i, "kind": "flat", "i": i, "tier": tier, "cost": 9})
    L = HIST
    d = 4 if tier == "quick" else 5
    for a in (("aX", "aF", "aG") if tier == "quick" else ("aX", "aF", "aG", "aT")):
        for b in L:
            gs.append({"name": "hist-%s-%s" % (a, b), "kind": "hist", "pre": [a, b], "depth": d, "tier": tier, "cost": 9})
    for P in (1, 2, 3, 4, 5):
        gs.append({"name": "many-P%d" % P, "kind": "many", "P": P, "tier": tier, "cost": 10 * P})
    return gs


HIST = ["aX", "aF", "aG", "aT", "E1", "E2", "E3", "O2"]


def trees(leaves):
    if len(leaves) == 1:
        yield leaves[0]
        return
    for k in range(1, len(leaves)):
        for l in trees(leaves[:k]):
            for r in trees(leaves[k:]):
                yield [l, r]


PRE = "2fgzhnij"


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, rep
    import jVMC
    import jVMC.operator as op
    quick = g["tier"] == "quick"

    def f(t, u=0.3):
        return 1.0 + 2.0 * t + u

    def gg(t, u=0.3):
        return t ** 2 - 3.0j * u

    def h(*a):
        return 0.5 * a[0] - 1.0
    NUM = {"2": 2.0, "z": 0.5 - 1.5j, "n": np.float64(3.0), "i": 3, "j": np.complex128(1j + 2)}
    FUN = {"f": f, "g": gg, "h": h}
    OPT = {"A": (0, [1, 0], [2.0, 3.0]), "B": (0, [0, 1], [1.0, 5.0]), "C": (1, [1, 0], [1.0, 1.0j]), "d": (1, [1, 0], [4.0, 1.5])}

    def leaf(x, base):
        if x in NUM:
            return NUM[x]
        if x in FUN:
            return FUN[x]
        off, m, e = OPT[x]
        kw = dict(idx=base + off, map=jnp.array(m, dtype=np.int32), matEls=jnp.array(e, dtype=complex), diag=(m == [0, 1]))
        return dict(kw) if x == "d" else op.LocalOp(**kw)

    def flatten(t):
        return [t] if isinstance(t, str) else flatten(t[0]) + flatten(t[1])

    def legal(t):
        if isinstance(t, str):
            return True
        l, r = flatten(t[0]), flatten(t[1])
        if not (legal(t[0]) and legal(t[1])):
            return False
        if all(x in PRE for x in l + r) and any(x in FUN for x in l + r):
            return False                       # function * number is not Python
        if l == ["d"] and r == ["d"]:
            return False
        if l == ["d"] and all(x in PRE for x in r) or r == ["d"] and all(x in PRE for x in l):
            return False                       # dict * number is not Python either
        return True

    def build(t, base, nodes):
        if isinstance(t, str):
            v = leaf(t, base)
        else:
            v = build(t[0], base, nodes) * build(t[1], base, nodes)
        if any(x not in PRE for x in flatten(t)):
            nodes.append((flatten(t), v))
        return v

    def meaning(letters, base, args):
        pre = 1.0
        string = []
        for x in letters:
            if x in NUM:
                pre = pre * complex(NUM[x])
            elif x in FUN:
                pre = pre * complex(FUN[x](*args))
            else:
                off, m, e = OPT[x]
                string.append((base + off, m, e))
        return pre, string

    def reference(terms, s):
        out = {}
        for pre, string in terms:
            c, el = list(s), complex(pre)
            for i, m, e in reversed(string):
                el *= e[c[i]]
                c[i] = m[c[i]]
            out[tuple(c)] = out.get(tuple(c), 0) + el
        return {k: v for k, v in out.items() if abs(v) > 1e-9}

    def sparse(sp, me, n):
        sp, me = rep(sp), rep(me)
        sp = sp.reshape((n, me.shape[2], sp.shape[-1]))
        me = me.reshape(n, me.shape[2])
        out = []
        for k in range(n):
            d = {}
            for c, m in zip(sp[k], me[k]):
                if m != 0:
                    c = tuple(int(x) for x in c)
                    d[c] = d.get(c, 0) + m
            out.append({c: m for c, m in d.items() if abs(m) > 1e-9})
        return out

    def compare(got, cfg, terms, what):
        for s, o in zip(cfg, got):
            r = reference(terms, [int(x) for x in s])
            good = set(r) == set(o) and all(abs(r[k] - o[k]) < 1e-8 * (1 + abs(r[k])) for k in r)
            if not ctx.check(good, lambda: "%s on %s: got %s, reference %s" % (what, list(s), o, r), what):
                return False
        ctx.validated()
        return True

    ARGS = [(0.7,), (1.9,), (0.7, -0.4), (0.7,)]

    def evaluate(exprs, cfg, argsets, what):
        """exprs: list of (letters, value, base)"""
        H = op.BranchFreeOperator()
        for j, (letters, v, base) in enumerate(exprs):
            if isinstance(v, dict):
                v = (v,)
            if j % 2:
                H += v
            else:
                H.add(v)
        for a in argsets:
            got = sparse(*H.get_s_primes(jnp.array(cfg)[None], *a), len(cfg))
            ctx.step()
            ctx.outcome(repr([sorted((k, np.round(v, 5)) for k, v in d.items()) for d in got]))
            if not compare(got, cfg, [meaning(l, b, a) for l, _, b in exprs], "%s at %s" % (what, a)):
                return

    K = 8

    def pattern_cfg(n):
        return np.array([[p[i % 2] for i in range(2 * n)] for p in itertools.product((0, 1), repeat=2)], dtype=np.int32)

    if g["kind"] == "expr":
        ts = [t for p in sorted(set(itertools.permutations(g["m"]))) for t in trees(list(p)) if legal(t)]
        ts = ts[g["part"]::g["of"]]

        def case(c):
            nodes = []
            for k, t in enumerate(c["t"]):
                mine = []
                build(t, 2 * k, mine)
                nodes += [(l, v, 2 * k) for l, v in mine]
                ctx.state(repr(t))
            evaluate(nodes, pattern_cfg(len(c["t"])), ARGS if any(x in FUN for x in g["m"]) else [(), (0.7,), ()], str(c["t"]))
            ctx.count("expressions", len(c["t"]))
        ctx.each([{"t": ts[i:i + K]} for i in range(0, len(ts), K)], case)

    elif g["kind"] == "flat":
        # all OpStr / scal_opstr / tuple forms
        def mk(form, letters, base):
            vs = [leaf(x, base) for x in letters]
            ops_ = [v for v, x in zip(vs, letters) if x not in PRE]
            pre = [v for v, x in zip(vs, letters) if x in PRE]
            if form == "opstr":
                return op.OpStr(*vs)
            if form == "scal-tuple":
                r = tuple(ops_)
                for p in reversed(pre):
                    r = op.scal_opstr(p, r)
                return r
            if form == "scal-opstr":
                r = op.OpStr(*ops_)
                for p in pre:
                    r = op.scal_opstr(p, r)
                return r
            if form == "scal-pretuple":        # tuple that already carries prefactors
                return op.scal_opstr(pre[0], op.OpStr(*(pre[1:] + ops_)))
            if form == "opstr*tuple":
                return op.OpStr(*(pre + ops_[:1])) * tuple(ops_[1:]) if len(ops_) > 1 else op.OpStr(*(pre + ops_))
            if form == "opstr*=":
                r = op.OpStr(*ops_)
                for p in pre:
                    r = r * p
                return r
            if form == "split":
                return op.OpStr(*(pre[:1] + ops_[:1])) * op.OpStr(*(pre[1:] + ops_[1:])) if len(ops_) > 1 and len(pre) > 1 else op.OpStr(*vs)
        forms = ["opstr", "scal-tuple", "scal-opstr", "scal-pretuple", "opstr*tuple", "opstr*=", "split"]
        sets = [["2", "A"], ["f", "A"], ["2", "f", "A", "B"], ["f", "g", "A", "C"], ["z", "g", "h", "B", "A", "C"], ["n", "j", "f", "A", "B", "A"],
                ["2", "z", "n", "C", "A"], ["f", "f", "B", "A", "B"], ["i", "f", "g", "h", "A", "A", "C"]]

        def case(c):
            m = sets[c["m"]]
            orders = sorted(set(itertools.permutations(m)))
            if len(orders) > 16:
                orders = orders[::len(orders) // (16 if quick else 120)]
            for b in range(0, len(orders), K):
                ex = []
                for k, o in enumerate(orders[b:b + K]):
                    letters = list(o)
                    ex.append((letters, mk(c["form"], letters, 2 * k), 2 * k))
                    ctx.state((c["form"], o))
                evaluate(ex, pattern_cfg(K), ARGS[:3], "%s %s" % (c["form"], m))
                ctx.count("expressions", len(ex))
        ctx.each([{"form": f_, "m": i} for f_ in forms[g["i"]:g["i"] + 1] for i in range(len(sets))], case)

    elif g["kind"] == "hist":
        from mc.nets import TableNet, all_configs, table_index
        cfg = all_configs((4,))[[0, 3, 5, 10, 15, 6]]
        allc = all_configs((4,))
        use_devices(jVMC, 1)
        psi = jVMC.vqs.NQS(TableNet(shape=(4,)))
        la = rep(psi(jnp.array(allc)[None]))[0]
        logp = {tuple(int(x) for x in c): la[i] for i, c in enumerate(allc)}
        A = {"E1": (0.7,), "E2": (1.9,), "E3": (0.7, -0.4), "O2": (1.9,)}
        MENU = {"aX": (["A", "B"], 0), "aF": (["f", "C"], 2), "aG": (["2", "g", "B", "A"], 2), "aT": (["B"], 2)}

        def case(c):
            H = op.BranchFreeOperator()
            added = []
            for k, o in enumerate(c["h"]):
                if o[0] == "a":
                    letters, base = MENU[o]
                    vs = [leaf(x, base) for x in letters]
                    v = tuple(vs) if o in ("aX", "aT") else op.OpStr(*vs)
                    if o in ("aX", "aG"):
                        H.add(v)
                    else:
                        H += v
                    added.append((letters, v, base))
                else:
                    terms = [meaning(l, b, A[o]) for l, _, b in added]
                    ctx.step()
                    if o == "O2":
                        got = rep(H.get_O_loc(jnp.array(cfg)[None], psi, None, *A[o]))[0]
                        want = [sum(v * np.exp(logp[sp] - logp[tuple(int(x) for x in s)]) for sp, v in reference(terms, [int(x) for x in s]).items()) for s in cfg]
                        ctx.close(got, np.array(want) + 0j, "O_loc at step %d of %s" % (k, c["h"]))
                    else:
                        got = sparse(*H.get_s_primes(jnp.array(cfg)[None], *A[o]), len(cfg))
                        compare(got, cfg, terms, "step %d of %s" % (k, c["h"]))
                ctx.state(tuple(c["h"][:k + 1]))
            ctx.validated()
        # complete histories of the given depth that end with an evaluation
        d = g["depth"]
        hs = []
        for t in itertools.product(HIST, repeat=d - 2):
            hh = g["pre"] + list(t)
            if hh[-1][0] == "a":
                continue
            if quick and "O2" in hh[:-1]:
                continue
            if sum(x[0] == "a" for x in hh) == 1 and sum(x[0] != "a" for x in hh) == 3 and quick and hh.count(hh[-1]) > 2:
                continue
            hs.append({"h": hh})
        ctx.each(hs, case)

    elif g["kind"] == "many":
        from mc.simmpi import World, explore
        P = g["P"]
        use_w = World(P)
        pk = use_w.load()
        L = 4

        def strings(o, n, place):
            """n prefactors; place decides which strings carry one"""
            out = []
            base_ops = [("Sx", 0), ("Sy", 1), ("Sx", 2), ("Sp", 3)]
            k = j = 0
            while j < n or k < n + 3:
                nm, i = base_ops[k % 4]
                loc = [(nm, i)] + ([("Sz", (i + 1) % 4)] if k % 3 == 0 else [])
                with_pre = j < n and (place == "all" or (place == "late" and k >= 3) or (place == "alt" and k % 2 == 1) or (place == "mid" and k != n // 2 and k != n // 2 + 1))
                out.append((j if with_pre else None, loc))
                j += with_pre
                k += 1
            return out
        tab = {"Sx": ([1, 0], [1, 1]), "Sy": ([1, 0], [1j, -1j]), "Sz": ([0, 1], [-1, 1]), "Sp": ([1, 0], [1, 0])}
        cfg = np.array(list(itertools.product((0, 1), repeat=L)), dtype=np.int32)

        def coef(j):
            return (lambda t: jnp.cos(0.1 * j) * t + 0.01 * j) if j % 5 == 0 else 0.3 + 0.05 * j - 0.02j * j

        def case(c):
            n, place = c["n"], c["place"]
            st = strings(None, n, place)
            cs = [coef(j) for j in range(n)]

            def body(r):
                def fn():
                    o = pk[r].operator
                    H = o.BranchFreeOperator()
                    for j, loc in st:
                        ls = tuple(getattr(o, nm)(i) for nm, i in loc)
                        H.add(ls if j is None else o.scal_opstr(cs[j], ls))
                    return [sparse(*H.get_s_primes(jnp.array(cfg)[None], t), len(cfg)) for t in (0.5, 2.0, 0.5)]
                return fn
            res = use_w.run([body(r) for r in range(P)])
            ctx.step(3 * P)
            ctx.state((n, place))
            for r in range(P):
                for k, t in enumerate((0.5, 2.0, 0.5)):
                    terms = []
                    for j, loc in st:
                        pre = 1.0 if j is None else (complex(cs[j](t)) if callable(cs[j]) else cs[j])
                        terms.append((pre, [(i, tab[nm][0], tab[nm][1]) for nm, i in loc]))
                    compare(res[r][k], cfg, terms, "rank %d/%d n=%d %s t=%s" % (r, P, n, place, t))
        ns = (0, 1, 49, 50, 51, 53, 60) if quick else tuple(range(45, 61)) + (0, 1, 2, 100)
        pl = ("all", "late", "alt", "mid")
        ctx.each([{"n": n, "place": p} for n in ns for p in (pl if n > 1 else pl[:1])], case)
