"""C14: ODE steppers."""
import itertools

LEVEL = "model_checking"
RULE = ("every (stepper, right-hand side, state type, initial step, tolerance, maximal step, norm) of the menus and every sequence of right-hand sides up to the depth "
        "bound on one stepper object; all calls received by the right-hand side are recorded; every accepted step is recomputed from the formula")
ASSUMPTIONS = ["right-hand sides and norms return finite numbers; norms return numpy/jax scalars", "sequences of up to 3 (quick) / 4 steps"]
NDEV = 1
RHS = ["lin", "self", "buffer", "time", "zero", "stiff", "quad"]


def groups(tier):
    gs = []
    for st in ("Euler", "Heun", "HeunDt"):
        gs.append({"name": "fixed-" + st, "kind": "fixed", "st": st, "tier": tier, "cost": 2})
    for a in RHS:
        for y in ("np", "jnp", "cpx"):
            gs.append({"name": "adapt-%s-%s" % (a, y), "kind": "adapt", "rhs": a, "y": y, "tier": tier, "cost": 5})
    return gs


def run(g, ctx):
    from mc.jx import jax, jnp, np
    import jVMC
    st = jVMC.util.stepper
    quick = g["tier"] == "quick"
    M = np.array([[-0.3, 1.1, 0.2], [-1.0, -0.2, 0.0], [0.1, 0.4, -0.7]])
    y0s = {"np": lambda: np.array([1.0, -0.5, 0.25]), "jnp": lambda: jnp.array([1.0, -0.5, 0.25]), "cpx": lambda: np.array([1.0 + 1j, -0.5, 0.25j])}

    def math(name, y, t, p):
        """right-hand side as a mathematical function"""
        y = np.asarray(y)
        return {"lin": lambda: p * (M @ y), "self": lambda: y.copy(), "buffer": lambda: p * np.sin(t) * (M.T @ y), "time": lambda: p * np.cos(3 * t) + 0 * y,
                "zero": lambda: 0 * y, "stiff": lambda: -30.0 * y, "quad": lambda: np.array([p * y[1], -y[0] * y[0], t + 0 * y[2]])}[name]()

    class F:
        """what the stepper calls; records calls; may return its argument or one of two reused buffers"""

        def __init__(self, name, p):
            self.name, self.p, self.calls = name, p, []
            self.buf = None

        def __call__(self, y, t, **kw):
            self.calls.append((y, np.array(y), float(t), dict(kw)))
            if self.name == "self":
                return y
            v = math(self.name, y, t, self.p)
            return jnp.array(v) if isinstance(y, jnp.ndarray) else v

    def unchanged(f, what):
        for obj, val, t, kw in f.calls:
            ctx.check(np.array_equal(np.asarray(obj), val), "%s: array given to the right-hand side was overwritten afterwards" % what)

    def heun(name, p, y, t, dt):
        k0 = math(name, y, t, p)
        k1 = math(name, y + dt * k0, t + dt, p)
        return y + 0.5 * dt * (k0 + k1)

    if g["kind"] == "fixed":
        def case(c):
            dt0 = c["dt"]
            s = st.Euler(timeStep=dt0) if g["st"] == "Euler" else st.Heun(timeStep=dt0)
            dt = dt0
            y = y0s[c["y"]]()
            t = c["t"]
            for k, name in enumerate(c["rhs"]):
                if g["st"] != "Euler" and c.get("set") and k == 1:
                    dt = 0.5 * dt0
                    s.set_dt(dt)
                f = F(name, 1.5)
                extra = {"foo": object(), "psi": 7}
                use = dt
                if g["st"] == "HeunDt":
                    extra["dt"] = use = 0.3 * dt * (k + 1)
                keep = np.array(y)
                yn, used = s.step(t, f, y, **extra)
                ctx.step()
                ctx.state((g["st"], c["dt"], c["y"], tuple(c["rhs"][:k + 1])))
                ctx.check(np.array_equal(np.asarray(y), keep), "input modified")
                unchanged(f, name)
                ya = np.asarray(y)
                want = ya + use * math(name, ya, t, 1.5) if g["st"] == "Euler" else heun(name, 1.5, ya, t, use)
                ctx.close(np.asarray(yn), want, "step %d" % k, rtol=1e-12, atol=1e-12)
                ctx.check(abs(used - use) < 1e-15, "reported step %s, in force %s" % (used, use))
                ex = [(ya, t)] if g["st"] == "Euler" else [(ya, t), (ya + use * math(name, ya, t, 1.5), t + use)]
                ctx.check(len(f.calls) == len(ex), "%d evaluations" % len(f.calls))
                for i, ((_, yv, tv, kw), (ye, te)) in enumerate(zip(f.calls, ex)):
                    ctx.check(kw.pop("intStep", None) == i, "intStep of call %d" % i)
                    ctx.check(set(kw) == set(extra) and all(kw[x] is extra[x] for x in extra), "arguments %s" % kw)
                    ctx.close(yv, ye, "argument of call %d" % i, rtol=1e-12, atol=1e-12)
                    ctx.check(abs(tv - te) < 1e-12, "time of call %d: %s, expected %s" % (i, tv, te))
                y, t = yn, t + used
            ctx.validated()
            ctx.outcome(np.round(np.asarray(y), 8).tobytes())
        ctx.each([{"dt": dt, "y": y, "t": t, "rhs": list(r), "set": r[0] == "lin"} for dt in (1e-3, 0.1, 0.7) for y in y0s for t in (0.0, 2.5)
                  for r in itertools.product(RHS, repeat=2 if quick else 3)], case)
        return

    NORMS = {"default": (None, lambda v: np.linalg.norm(v)), "weighted": ((lambda v: np.sqrt(np.real(np.conj(v) @ (np.diag([4.0, 1.0, 9.0]) @ v)))),
             lambda v: np.sqrt(np.real(np.conj(v) @ (np.diag([4.0, 1.0, 9.0]) @ v)))), "max": ((lambda v: jnp.max(jnp.abs(v))), lambda v: np.max(np.abs(v)))}

    def trial(name, p, y, t, dt):
        full = heun(name, p, y, t, dt)
        mid = heun(name, p, y, t, 0.5 * dt)
        k01 = math(name, mid, t + 0.5 * dt, p)
        two = heun(name, p, mid, t + 0.5 * dt, 0.5 * dt)
        k0 = math(name, y, t, p)
        args = [(y, t), (y + dt * k0, t + dt), (y + 0.5 * dt * k0, t + 0.5 * dt), (mid, t + 0.5 * dt), (mid + 0.5 * dt * k01, t + dt)]
        return full, two, args

    def case(c):
        tol, mx = c["tol"], c["mx"]
        s = st.AdaptiveHeun(timeStep=c["dt"], tol=tol, maxStep=mx)
        y, t = y0s[g["y"]](), c["t"]
        code, ref = NORMS[c["norm"]]
        nxt = min(c["dt"], mx)
        p = 1.5
        for k, name in enumerate([g["rhs"]] + c["rest"]):
            f = F(name, p)
            keep = np.array(y)
            extra = {"p": p, "foo": "x"}
            kw = dict(extra)
            if code is not None:
                kw["normFunction"] = code
            yn, used = s.step(t, f, y, **kw)
            used = float(used)
            what = "step %d (%s)" % (k, name)
            ctx.step()
            ctx.state((g["rhs"], g["y"], c["dt"], tol, mx, c["norm"], tuple(c["rest"][:k])))
            ctx.check(np.array_equal(np.asarray(y), keep), "input modified in " + what)
            unchanged(f, what)
            ya = np.asarray(y)
            # replay the trials from the recorded calls: every pass starts a new step size
            dts, cur = [], nxt
            for _, yv, tv, kk in f.calls:
                i = kk.pop("intStep", None)
                ctx.check(kk == extra, "arguments %s in %s" % (kk, what))
                if i == 1:
                    dts.append(tv - t)
            if not ctx.check(len(dts) >= 1 and abs(dts[0] - nxt) < 1e-9 * max(1, nxt), "first trial of %s uses step %s, expected %s" % (what, dts[:1], nxt)):
                return
            errs = []
            for j, d in enumerate(dts):
                full, two, args = trial(name, p, ya, t, d)
                errs.append(float(ref(two - full)))
            ctx.check(all(d <= mx * (1 + 1e-9) for d in dts), "%s: trial steps %s exceed maxStep %s" % (what, dts, mx))

            def suggest(d, e):
                fac = 2.0 if e == 0 else min(2.0, max(0.2, 0.9 * (tol / e) ** (1.0 / 3)))
                return min(mx, d * fac)
            # the rounding error of the difference decides when it is at machine precision
            noise = 1e-13 * (1 + float(np.max(np.abs(ya))))
            for a, b, e in zip(dts, dts[1:], errs):
                ctx.check(0.2 - 1e-6 <= b / a <= 2 + 1e-6, "%s: step changed from %s to %s" % (what, a, b))
                if e > 50 * noise:
                    ctx.check(e > tol * (1 - 1e-6), "%s: step %s with error %s rejected" % (what, a, e))
                    ctx.check(abs(b - suggest(a, e)) < 2e-3 * b + 1e-12, "%s: next trial %s, expected %s" % (what, b, suggest(a, e)))
            ctx.check(abs(used - dts[-1]) < 1e-9 * max(1.0, used), "%s: reports step %s but the last trial used %s" % (what, used, dts[-1]))
            full, two, args = trial(name, p, ya, t, used)
            err = float(ref(two - full))
            ctx.close(np.asarray(yn), two, "result of " + what, rtol=1e-11, atol=1e-11)
            ctx.check(err <= tol * (1 + 1e-6) + noise, "%s: accepted with error %s, tolerance %s" % (what, err, tol))
            last = {}
            for (_, yv, tv, _), i in zip(f.calls, range(len(f.calls))):
                pass
            # arguments of the last pass (intStep 0 may have been evaluated once for all passes)
            tail = f.calls[-4:]
            for j, (_, yv, tv, _) in enumerate(tail):
                ctx.close(yv, args[j + 1][0], "%s: argument with intStep %d" % (what, j + 1), rtol=1e-11, atol=1e-11)
                ctx.check(abs(tv - args[j + 1][1]) < 1e-9, "%s: time with intStep %d" % (what, j + 1))
            ctx.close(f.calls[0][1], ya, "%s: first argument" % what)
            ctx.check(f.calls[0][2] == t, "%s: first time" % what)
            nxt = float(s.dt)
            ctx.check(nxt <= mx * (1 + 1e-9), "%s schedules step %s above maxStep" % (what, nxt))
            ctx.check(nxt <= 2.0001 * used and (nxt >= 0.1999 * used or nxt == mx), "%s: step %s followed by %s" % (what, used, nxt))
            if err > 50 * noise or name == "zero":
                ctx.check(abs(nxt - suggest(used, err)) < 2e-3 * nxt + 1e-12, "%s: suggests %s, expected %s" % (what, nxt, suggest(used, err)))
            y, t = yn, t + used
        ctx.validated()
        ctx.outcome(np.round(np.asarray(y), 8).tobytes())

    def intsteps(c):
        """order of intStep numbers"""
        s = st.AdaptiveHeun(timeStep=c["dt"], tol=c["tol"], maxStep=c["mx"])
        f = F(g["rhs"], 1.5)
        s.step(c["t"], f, y0s[g["y"]](), p=1.5)
        seq = [kk["intStep"] for _, _, _, kk in f.calls]
        ctx.check(seq[:5] == [0, 1, 2, 3, 4], "intStep numbers %s" % seq)
        ctx.check(all((b == a + 1) if a < 4 else b in (0, 1) for a, b in zip(seq, seq[1:])) and seq[-1] == 4, "intStep numbers %s" % seq)
        case(c)
    rests = [list(r) for k in range(0, 2 if quick else 3) for r in itertools.product(RHS, repeat=k)] + [[a, g["rhs"]] for a in RHS]
    ctx.each([{"dt": dt, "tol": tol, "mx": mx, "norm": nm, "t": t, "rest": r} for dt, t in ((1e-3, 0.0), (0.2, 1.0), (5.0, 0.0)) for tol in (1e-7, 1e-3, 0.5)
              for mx in (1e-2, 0.4, 10.0) for nm in NORMS for r in (rests if nm == "default" else rests[:2])], intsteps)
