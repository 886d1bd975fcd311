"""C01: splitting of sampling work over processes, devices and chains."""
import itertools

LEVEL = "model_checking"
RULE = ("every (processes, rank, numSamples, devices, chains) of the box, and every length-2/3 history of requests followed by "
        "first_sample_id; all ranks run as private copies of jVMC under the simulated MPI scheduler")
ASSUMPTIONS = ["process counts up to 9 (quick) / 16 (thorough), numSamples up to 70 exhaustively plus a few large values"]
NDEV = 1


def groups(tier):
    P = range(1, 10) if tier == "quick" else range(1, 17)
    return [{"name": "box-P%d" % p, "P": p, "tier": tier, "cost": p} for p in P] + \
           [{"name": "hist-P%d" % p, "P": p, "tier": tier, "cost": p} for p in (1, 2, 3, 4)]


def run(g, ctx):
    from mc.simmpi import World
    P = g["P"]
    w = World(P)
    pk = w.load()
    quick = g["tier"] == "quick"
    Ns = list(range(1, 71)) + [97, 100, 128, 1000, 1001, 4095, 10007, 2**31 + 11]
    Ds = (1, 2, 3, 4, 8) if quick else range(1, 9)
    Cs = (1, 2, 3, 5, 16) if quick else (1, 2, 3, 4, 5, 6, 7, 8, 16, 50)

    def distribute(calls):
        """run the calls on all ranks; returns per rank list of (samples, total, first id)"""
        def body(r):
            def f():
                m = pk[r].mpi_wrapper
                out = []
                for c in calls:
                    if c[1] is None:
                        a, b = m.distribute_sampling(c[0])
                        out.append((int(a), int(b), int(m.first_sample_id())))
                    elif c[2] is None:
                        a, b = m.distribute_sampling(c[0], localDevices=c[1])
                        out.append((int(a), int(b), None))
                    else:
                        a, b = m.distribute_sampling(c[0], localDevices=c[1], numChainsPerDevice=c[2])
                        out.append((int(a), int(b), None))
                return out
            return f
        ctx.step(len(calls) * P)
        return w.run([body(r) for r in range(P)])

    def judge(call, res, sub):
        N, D, C = call
        tot = {x[1] for x in res}
        if not ctx.check(len(tot) == 1, "processes disagree on the number of samples: %s" % (res,), sub):
            return
        tot = tot.pop()
        if D is None:
            ctx.check(tot == N, "total %s, requested %s" % (tot, N), sub)
            pos = 0
            for r, (a, _, first) in enumerate(res):
                ctx.check(first == pos and a >= 0, "request %d: rank %d starts at %s with %d samples, expected start %d" % (N, r, first, a, pos), sub)
                ctx.check(a in (N // P, -(-N // P)), "unbalanced share %d of %d on %d processes" % (a, N, P), sub)
                pos = first + a
            ctx.check(pos == N, "shares cover %d of %d samples" % (pos, N), sub)
        else:
            dc = D * (C or 1)
            gen = sum(x[0] for x in res) * dc
            ctx.check(gen == tot, "%s: processes generate %d samples but report %d" % (call, gen, tot), sub)
            ctx.check(tot >= N, "%s: only %d samples" % (call, tot), sub)
            for r, x in enumerate(res):
                lo, hi = -(-(N // P) // dc), -(-(-(-N // P)) // dc)
                ctx.check(lo <= x[0] <= hi, "%s: rank %d runs %d samples per chain, expected between %d and %d" % (call, r, x[0], lo, hi), sub)
            # excess only from rounding each share up
            ctx.check(tot - N <= P * (dc - 1), "%s: excess %d" % (call, tot - N), sub)
            shares = [N // P + (1 if r < N % P else 0) for r in range(P)]
            ctx.check(tot == sum(-(-s // dc) for s in shares) * dc, "%s: total %d exceeds per-process rounding" % (call, tot), sub)
        ctx.outcome((tot, tuple(res)))

    if g["name"].startswith("box"):
        def case(c):
            N = c["N"]
            calls = [[N, None, None]] + [[N, D, None] for D in Ds] + [[N, D, C] for D in Ds for C in Cs]
            out = distribute(calls)
            for i, call in enumerate(calls):
                ctx.state((P, tuple(call)))
                judge(call, [out[r][i] for r in range(P)], i)
                ctx.validated()
        ctx.each([{"N": N} for N in Ns], case)
    else:
        menu = [[1, None, None], [5, None, None], [8, None, None], [13, None, None], [7, 2, 3], [10, 1, None], [64, 4, 1], [3, 3, 5]]
        depth = 3 if not quick else 2

        def case(c):
            out = distribute(c["h"])
            for i, call in enumerate(c["h"]):
                ctx.state((P, tuple(map(tuple, c["h"][:i + 1]))))
                judge(call, [out[r][i] for r in range(P)], i)
            ctx.validated()
        ctx.each([{"h": list(h)} for k in range(2, depth + 2) for h in itertools.product(menu, repeat=k)], case)
