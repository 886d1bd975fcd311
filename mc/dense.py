"""Dense reference for spin Hamiltonians (site k <-> bit k of the table index), independent of jVMC's operator code."""
from mc.jx import np
from mc.nets import all_configs

# row tables: local operator applied to s: (s', element)
TAB = {"Sx": ([1, 0], [1, 1]), "Sy": ([1, 0], [1j, -1j]), "Sz": ([0, 1], [-1, 1])}


def dense(n, terms, t=0.0):
    """terms: [(prefactor or function of t, [(site, name), ...])] -> matrix H[s, s']"""
    M = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for i in range(2 ** n):
        s = [(i >> k) & 1 for k in range(n)]
        for pre, loc in terms:
            c, el = list(s), complex(pre(t) if callable(pre) else pre)
            for site, nm in reversed(loc):
                m, e = TAB[nm]
                el *= e[c[site]]
                c[site] = m[c[site]]
            M[i, sum(b << k for k, b in enumerate(c))] += el
    return M


def build(op, terms, **kw):
    H = op.BranchFreeOperator(**kw)
    for pre, loc in terms:
        H.add(op.scal_opstr(pre, tuple(getattr(op, nm)(i) for i, nm in loc)))
    return H


def tfim(n, g=-0.7):
    return [(-1.0, [(l, "Sz"), (l + 1, "Sz")]) for l in range(n - 1)] + [(g + 0.1 * l, [(l, "Sx")]) for l in range(n)]


def cpx(n):
    return tfim(n) + [(0.3, [(l, "Sy")]) for l in range(n)] + [(0.25, [(0, "Sx"), (n - 1, "Sy")])]


def timedep(n):
    from mc.jx import jnp
    return [((lambda t, l=l: jnp.cos(t + l)), [(l, "Sx")]) for l in range(n)] + [(0.5, [(0, "Sz"), (n - 1, "Sz")]), ((lambda t: 1.0 + t), [(0, "Sz")]), (0.4, [(0, "Sy")])]


FAMILY = {"tfim": tfim, "cpx": cpx, "time": timedep}


class Scripted:
    """a sampler that returns prescribed configurations and weights (amplitudes at the parameters in force)"""

    def __init__(self, jVMC, psi, configs, weights):
        from mc.jx import jnp
        self.J, self.psi = jVMC, psi
        self.c, self.w = jnp.asarray(configs), jnp.asarray(weights)
        self.requests = []

    def sample(self, parameters=None, numSamples=None, multipleOf=1):
        self.requests.append(numSamples)
        assert parameters is None
        self.J.mpi_wrapper.distribute_sampling(int(self.c.shape[0] * self.c.shape[1]) * self.J.mpi_wrapper.commSize, localDevices=int(self.c.shape[0]))
        return self.c, self.psi(self.c), self.w

    def get_last_number_of_samples(self):
        return int(self.c.shape[0] * self.c.shape[1]) * self.J.mpi_wrapper.commSize

    def set_number_of_samples(self, N):
        pass


def stats(O, E, p):
    """weighted mean / covariances of gradients O (N, P) and local energies E (N,)"""
    mO, mE = p @ O, p @ E
    dO, dE = O - mO, E - mE
    S = (dO.conj() * p[:, None]).T @ dO
    F = (dO.conj() * p[:, None]).T @ dE
    return S, F, mE, float(np.real(p @ np.abs(dE) ** 2)), dO, dE
