"""An enumerating pseudo-random generator for jax.

Every random number a program draws becomes a choice owned by the explorer.  A key carries
(lineage, index): `split` derives child lineages; a fan-out of FAN or more children
(or a draw of FAN or more numbers) enumerates *executions*: child i belongs to execution i.
A draw at lineage p in execution k returns the value of the p-th choice in execution k, where
the choices of all executions form
  - the full product grid  {0..R-1}^choices      (mode "grid"), or
  - a Sobol' net of 2^m points                   (mode "sobol").
The bits handed out are uniform both in their high bits (floats) and modulo R (integers).
"""
import threading
from mc.jx import *
from jax.extend import random as jxr

FAN = 64
_MIX = (np.uint32(2654435761), np.uint32(2246822519), np.uint32(3266489917))


class Choices:
    """host side table: lineage -> choice number"""

    def __init__(self):
        self.lock = threading.Lock()
        self.reset()

    def reset(self, mode="grid", R=2, n=0, dims=0):
        self.pos, self.mode, self.R, self.n = {}, mode, R, n
        self.net = None
        if mode == "sobol":
            from scipy.stats import qmc
            self.net = qmc.Sobol(dims, scramble=False, bits=30).random(n)

    def count(self):
        return len(self.pos)

    def value(self, path, k, width):
        with self.lock:
            path, k = np.asarray(path), np.asarray(k)
            path, k = np.broadcast_arrays(path, k)
            out = np.zeros(path.shape, dtype=np.uint64)
            u, inv = np.unique(path, return_inverse=True)
            inv = inv.reshape(path.shape)
            for j, p in enumerate(u):
                if int(p) not in self.pos:
                    self.pos[int(p)] = len(self.pos)
                d = self.pos[int(p)]
                m = inv == j
                kk = k[m].astype(np.int64)
                R = self.R
                if self.mode == "grid":
                    dig = (kk // R ** d) % R
                    q = 2 ** width // R
                    tab = np.array([(i * q + q // 2) // R * R + i for i in range(R)], dtype=np.uint64)
                    out[m] = tab[dig]
                else:
                    x = self.net[kk % self.n, d % self.net.shape[1]]
                    # high bits: the point of the net (centred); low bits: the same point bit-reversed (uniform modulo any small number)
                    m15 = np.floor(x * 2.0 ** 16).astype(np.uint64)
                    rev = np.zeros_like(m15)
                    for b in range(16):
                        rev |= ((m15 >> np.uint64(b)) & np.uint64(1)) << np.uint64(15 - b)
                    if width == 64:
                        hi = (m15 << np.uint64(48)) | np.uint64(1 << 47)
                        want = np.floor(x * 315).astype(np.int64)           # value modulo 3^2*5*7
                        mid = ((want - (hi % np.uint64(315)).astype(np.int64) - rev.astype(np.int64)) * pow(65536, -1, 315)) % 315
                        out[m] = hi + (mid.astype(np.uint64) << np.uint64(16)) + rev
                    elif width == 32:
                        out[m] = (m15 << np.uint64(16)) | rev
                    else:
                        out[m] = m15 >> np.uint64(16 - width)
            return out


C = Choices()


def _mix(a, b):
    x = jnp.uint32(a) ^ (jnp.uint32(b) * _MIX[0] + _MIX[1])
    x = (x ^ (x >> 15)) * _MIX[1]
    x = (x ^ (x >> 13)) * _MIX[2]
    return x ^ (x >> 16)


def _seed(s):
    s = jnp.asarray(s)
    return jnp.stack([_mix(jnp.uint32(17), s.astype(jnp.uint32)), jnp.uint32(0)])


def _split(key, shape):
    n = int(np.prod(shape))
    i = jnp.arange(n, dtype=jnp.uint32)
    if n >= FAN:
        # children enumerate executions; the last one (used to carry on) also starts a lineage of its own
        p = jnp.where(i == n - 1, _mix(key[0], 0x7fffffff), jnp.broadcast_to(_mix(key[0], 0x7ffffffe), (n,)))
        k = i
    else:
        p = jax.vmap(lambda j: _mix(key[0], j + 1))(i)
        k = jnp.broadcast_to(key[1], (n,))
    return jnp.stack([p, k], -1).reshape(tuple(shape) + (2,))


def _bits(key, bit_width, shape):
    n = int(np.prod(shape))
    i = jnp.arange(n, dtype=jnp.uint32)
    if n >= FAN:
        p, k = jnp.broadcast_to(_mix(key[0], 0x3fffffff), (n,)), i
    else:
        p, k = jax.vmap(lambda j: _mix(key[0], j + 0x1000))(i), jnp.broadcast_to(key[1], (n,))
    dt = {8: np.uint8, 16: np.uint16, 32: np.uint32, 64: np.uint64}[bit_width]
    out = jax.pure_callback(lambda p, k: C.value(p, k, bit_width).astype(dt), jax.ShapeDtypeStruct((n,), dt), p, k, vectorized=True)
    return out.reshape(shape)


def _fold(key, data):
    return jnp.stack([_mix(key[0], data ^ 0x55555), key[1]])


IMPL = jxr.define_prng_impl(key_shape=(2,), seed=_seed, split=_split, random_bits=_bits, fold_in=_fold, name="enum", tag="enum")


def key(seed=0):
    return jxr.key(seed, impl=IMPL) if hasattr(jxr, "key") else jax.random.key(seed, impl=IMPL)
