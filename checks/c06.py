"""C06: matrix elements of BranchFreeOperator against table composition, dense Pauli algebra and CAR."""
import itertools

LEVEL = "model_checking"
RULE = ("every string of local operators up to the length bound over all sites of the lattice x every basis configuration, executed on the real "
        "get_s_primes (a) one operator per string, (b) all strings with one first letter summed with distinct prefactors, (c) every ordered "
        "pair/triple of menu strings (mixed lengths, diagonal and off-diagonal), (d) two-dimensional lattices, (e) local dimension 3 and 4 with user-defined "
        "tables, (f) all products of two and three fermionic operators and their anticommutators; compared with composition of the tables, with the dense "
        "Kronecker product for Pauli strings on distinct sites, and with the canonical anticommutation relations")
ASSUMPTIONS = ["matrix elements of magnitude <= 1e-6 are treated as zero by design and not exercised",
               "lattices of up to 4 sites, strings of up to 3 (quick) / 4 (thorough) local operators; fermionic operators with local dimension 2"]
NDEV = 2

SPIN = ["Id", "Sx", "Sy", "Sz", "Sp", "Sm"]
FERM = ["creation", "annihilation", "number"]


def groups(tier):
    gs = []
    th = tier != "quick"
    for a in SPIN:
        for i in range(3):
            gs.append({"name": "sum-%s%d" % (a, i), "kind": "sum", "first": [a, i], "L": [3], "alpha": SPIN, "len": 3 if not th else 4, "tier": tier, "cost": 4})
    for a in FERM:
        for i in range(4):
            gs.append({"name": "fsum-%s%d" % (a, i), "kind": "sum", "first": [a, i], "L": [4], "alpha": FERM, "len": 3, "tier": tier, "cost": 4})
    for a in SPIN:
        for i in range(2):
            gs.append({"name": "single-%s%d" % (a, i), "kind": "single", "first": [a, i], "L": [2], "alpha": SPIN, "tier": tier, "cost": 8})
    for a in ("Sy", "Sp", "Sz"):
        for i in range(4):
            gs.append({"name": "2d-%s%d" % (a, i), "kind": "sum", "first": [a, i], "L": [2, 2], "alpha": ["Sx", "Sy", "Sz", "Sp", "Sm"], "len": 2, "tier": tier, "cost": 3})
    for a in FERM:
        gs.append({"name": "2df-%s" % a, "kind": "sum", "first": [a, None], "L": [2, 2] if a != "number" else [1, 4], "alpha": FERM, "len": 2, "tier": tier, "cost": 4})
    for lDim in (3, 4):
        for j in range(3):
            gs.append({"name": "ldim%d-%d" % (lDim, j), "kind": "ldim", "lDim": lDim, "first": j, "tier": tier, "cost": 4})
    for j in range(8):
        gs.append({"name": "mix-%d" % j, "kind": "mix", "j": j, "tier": tier, "cost": 10})
    gs.append({"name": "pauli", "kind": "pauli", "tier": tier, "cost": 6})
    gs.append({"name": "car", "kind": "car", "tier": tier, "cost": 6})
    return gs


def run(g, ctx):
    from mc.jx import jax, jnp, np, use_devices, rep
    from mc.nets import all_configs
    import jVMC
    import jVMC.operator as op

    TAB = {  # the documented local operators: (s -> s', matrix element of s)
        "Id": ([0, 1], [1, 1]), "Sx": ([1, 0], [1, 1]), "Sy": ([1, 0], [1j, -1j]), "Sz": ([0, 1], [-1, 1]),
        "Sp": ([1, None], [1, 0]), "Sm": ([None, 0], [0, 1]), "number": ([0, 1], [0, 1]),
        "creation": ([1, None], [1, 0]), "annihilation": ([None, 0], [0, 1])}

    class Letter:
        def __init__(self, name, idx, tab=None, real=None):
            self.name, self.idx = name, idx
            self.map, self.mat = tab if tab is not None else TAB[name]
            self.fermi = name in ("creation", "annihilation")
            self.real = real if real is not None else getattr(op, name)(idx)

        def __repr__(self):
            return "%s%d" % (self.name, self.idx)

    def apply(string, s):
        """reference: rightmost operator acts first; returns (s', element) or None"""
        s = list(s)
        el = 1.0 + 0j
        for l in reversed(string):
            v = s[l.idx]
            m = l.mat[v]
            if m == 0:
                return None
            el *= m
            if l.fermi:
                el *= (-1) ** sum(1 for k in range(l.idx + 1, len(s)) if s[k] == 1)
            s[l.idx] = l.map[v]
        return tuple(s), el

    def reference(terms, s):
        out = {}
        for pre, string in terms:
            r = apply(string, s)
            if r is not None:
                out[r[0]] = out.get(r[0], 0) + pre * r[1]
        return {k: v for k, v in out.items() if abs(v) > 1e-9}

    def actual(terms, cfg, D=1, lDim=2):
        """sparse vectors of the real operator for all configurations (cfg: (n, *shape))"""
        use_devices(jVMC, D)
        H = op.BranchFreeOperator(lDim=lDim)
        for pre, string in terms:
            ls = tuple(l.real for l in string)
            H.add(ls if pre == 1 else op.scal_opstr(pre, ls))
        n = cfg.shape[0]
        s = jnp.array(cfg).reshape((D, n // D) + cfg.shape[1:])
        sp, me = H.get_s_primes(s)
        ctx.step()
        sp, me = rep(sp), rep(me)
        ok = me.ndim == 3 and me.shape[:2] == (D, n // D) and sp.shape == (D, me.shape[1] * me.shape[2]) + cfg.shape[1:]
        if not ctx.check(ok, "shapes of get_s_primes: configurations %s, matrix elements %s" % (sp.shape, me.shape)):
            return None
        sp = sp.reshape((n, me.shape[2], int(np.prod(cfg.shape[1:]))))
        me = me.reshape(n, me.shape[2])
        out = []
        for k in range(n):
            d = {}
            for c, m in zip(sp[k], me[k]):
                if m != 0:
                    c = tuple(int(x) for x in c)
                    d[c] = d.get(c, 0) + m
            out.append({c: m for c, m in d.items() if abs(m) > 1e-9})
        return out

    def compare(terms, cfg, D=1, lDim=2, sub=None):
        got = actual(terms, cfg, D, lDim)
        if got is None:
            return
        for c, o in zip(cfg.reshape(cfg.shape[0], -1), got):
            s = tuple(int(x) for x in c)
            ctx.state((s, sub))
            r = reference(terms, s)
            good = set(r) == set(o) and all(abs(r[k] - o[k]) < 1e-8 * (1 + abs(r[k])) for k in r)
            ctx.outcome(sorted((k, round(v.real, 6), round(v.imag, 6)) for k, v in r.items()))
            if not ctx.check(good, lambda: "%s on %s: got %s, reference %s" % (str(terms)[:600], s, str(o)[:600], str(r)[:600]), sub):
                return
        ctx.validated()

    kind = g["kind"]
    if kind in ("sum", "single"):
        shape = tuple(g["L"])
        n = int(np.prod(shape))
        cfg = all_configs(shape)
        letters = [Letter(a, i) for a in g["alpha"] for i in range(n)]
        first = [Letter(g["first"][0], i) for i in ([g["first"][1]] if g["first"][1] is not None else range(n))]
    if kind == "sum":
        def case(c):
            k, D = c["len"], c["D"]
            strings = [(f,) + t for f in first for t in itertools.product(letters, repeat=k - 1)]
            for b in range(0, len(strings), 400):
                terms = [(1.0 + 0.37 * np.sqrt(3 + j) + 0.11j * np.sqrt(7 + 5 * j), st) for j, st in enumerate(strings[b:b + 400])]
                compare(terms, cfg, D, sub="%d-%d-%d" % (k, D, b))
                ctx.count("strings", len(terms))
        lens = range(1, g["len"] + 1)
        ctx.each([{"len": k, "D": 1 + k % 2} for k in lens], case)
    elif kind == "single":
        def case(c):
            st = (first[0],) + tuple(Letter(a, i) for a, i in c["rest"])
            compare([(1, st)], cfg, sub=str(c))
            ctx.count("strings")
        rests = [[]] + [[[l.name, l.idx]] for l in letters]
        ctx.each([{"rest": r} for r in rests], case)
    elif kind == "ldim":
        lDim = g["lDim"]
        tabs = []
        shift = [(v + 1) % lDim for v in range(lDim)]
        tabs.append(("R", (shift, [1.0 + 0.5 * v for v in range(lDim)]), False))
        tabs.append(("N", (list(range(lDim)), [float(v) for v in range(lDim)]), True))
        tabs.append(("B", ([max(v - 1, 0) for v in range(lDim)], [0.0] + [np.sqrt(v) * 1j for v in range(1, lDim)]), False))

        def mk(t, i):
            name, (m, e), diag = t
            return Letter(name, i, (m, e), real=op.LocalOp(idx=i, map=jnp.array(m, dtype=np.int32), matEls=jnp.array(e, dtype=complex), diag=diag))
        letters = [mk(t, i) for t in tabs for i in range(3)] + [Letter("Id", 1, (list(range(lDim)), [1] * lDim), real=op.Id(1, lDim=lDim))]
        cfg = all_configs((3,), lDim)
        D = 1

        def case(c):
            f = letters[3 * g["first"] + c["i"]]
            terms = []
            for k in (1, 2, 3):
                for t in itertools.product(letters, repeat=k - 1):
                    terms.append((0.7 + 0.1j * len(terms) + 0.3 * np.sqrt(len(terms) + 2), (f,) + t))
            compare(terms, cfg, 1, lDim, sub=c["i"])
            ctx.count("strings", len(terms))
        ctx.each([{"i": i} for i in range(3)], case)
    elif kind == "mix":
        M = [[("Sz", 0)], [("Sz", 0), ("Sz", 1)], [("Sx", 1)], [("Sp", 0), ("Sm", 2)], [("Id", 1)], [("Sx", 0), ("Sy", 1), ("Sz", 2)],
             [("number", 2)], [("Sm", 1)]]
        if g["tier"] != "quick":
            M += [[("Sy", 2), ("Sy", 2)], [("creation", 0), ("annihilation", 2)]]
        cfg = all_configs((3,))

        def case(c):
            terms = [((1 if w == 0 else 0.5 * w - 0.25j * (q + 1)), tuple(Letter(a, i) for a, i in M[m])) for q, (m, w) in enumerate(c["t"])]
            compare(terms, cfg, 1 + len(terms) % 2, sub=str(c["t"]))
        cases = [{"t": [[g["j"], 0]]}]
        cases += [{"t": [[g["j"], w], [b, w2]]} for b in range(len(M)) for w, w2 in ((0, 0), (1, 0), (0, 2))]
        cases += [{"t": [[g["j"], 0], [b, 1], [d, 2]]} for b in range(len(M)) for d in range(b, len(M))]
        ctx.each(cases, case)
    elif kind == "pauli":
        # dense <s|O|s'>, independent of the tables
        P = {"Id": np.eye(2), "Sx": np.array([[0, 1], [1, 0]]), "Sz": np.diag([-1., 1.]), "Sy": np.array([[0, 1j], [-1j, 0]])}
        cfg = all_configs((3,))

        def case(c):
            names = c["p"]
            want = np.ones((1, 1))
            for a in names:
                want = np.kron(want, P[a])      # site 0 is the slowest index
            order = c["order"]
            got = actual([(1, tuple(Letter(names[i], i) for i in order))], cfg)
            M = np.zeros((8, 8), complex)
            for s, d in zip(cfg, got):
                for sp, v in d.items():
                    M[int(s[0]) * 4 + int(s[1]) * 2 + int(s[2]), sp[0] * 4 + sp[1] * 2 + sp[2]] += v
            ctx.close(M, want, "dense matrix of %s" % names)
            ctx.validated()
        ctx.each([{"p": list(p), "order": list(o)} for p in itertools.product(P, repeat=3) for o in ((0, 1, 2), (2, 0, 1))], case)
    elif kind == "car":
        def case(c):
            L = c["L"]
            cfg = all_configs((L,))
            i, j = c["i"], c["j"]

            def anti(a, b):
                return actual([(1, (a, b)), (1, (b, a))], cfg)
            C, A = (lambda k: Letter("creation", k)), (lambda k: Letter("annihilation", k))
            for nm, (x, y), want in (("{c,c+}", (A(i), C(j)), 1 if i == j else 0), ("{c,c}", (A(i), A(j)), 0), ("{c+,c+}", (C(i), C(j)), 0)):
                got = anti(x, y)
                for s, d in zip(cfg, got):
                    w = {tuple(int(v) for v in s): 1.0} if want else {}
                    ok = set(d) == set(w) and all(abs(d[k] - w[k]) < 1e-9 for k in w)
                    ctx.check(ok, "%s sites %d,%d on %s gives %s" % (nm, i, j, s, d), nm)
                ctx.validated()
        ctx.each([{"L": L, "i": i, "j": j} for L in (2, 3, 4) for i in range(L) for j in range(L)], case)
