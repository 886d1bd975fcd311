"""Small networks with known closed forms (flax modules independent of jVMC)."""
from mc.jx import *
import flax.linen as nn


class TableNet(nn.Module):
    """log psi(s) = a[i(s)] + i b[i(s)], i(s) = sum_k s_k lDim^k : an arbitrary wave function"""
    shape: tuple
    lDim: int = 2
    cpx: bool = True
    scale: float = 1.0

    @nn.compact
    def __call__(self, s):
        n = int(np.prod(self.shape))
        dim = self.lDim ** n
        idx = jnp.sum(s.ravel() * jnp.array([self.lDim ** k for k in range(n)]))
        init = lambda key, sh: self.scale * jnp.sin(1.0 + 1.7 * jnp.arange(sh[0], dtype=jnp.float64))
        a = self.param("a", init, (dim,))
        if not self.cpx:
            return jnp.asarray(a)[idx]
        init2 = lambda key, sh: self.scale * jnp.cos(0.3 + 2.3 * jnp.arange(sh[0], dtype=jnp.float64))
        b = self.param("b", init2, (dim,))
        return jnp.asarray(a)[idx] + 1.j * jnp.asarray(b)[idx]


def table_index(configs, lDim):
    """index into the table for configs of shape (..., *shape) flattened to (..., n)"""
    c = np.asarray(configs)
    return (c * np.array([lDim ** k for k in range(c.shape[-1])])).sum(-1)


def all_configs(shape, lDim=2):
    n = int(np.prod(shape))
    i = np.arange(lDim ** n)
    return np.stack([(i // lDim ** k) % lDim for k in range(n)], -1).reshape((-1,) + tuple(shape)).astype(np.int32)
