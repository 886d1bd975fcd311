"""The networks exercised by the checks (jVMC's own and small independent ones)."""
from mc.jx import *
import flax.linen as nn
from mc.nets import TableNet


class Nonholo(nn.Module):
    """complex parameters, output not holomorphic in them"""
    @nn.compact
    def __call__(self, s):
        x = 2.0 * s.ravel() - 1
        w = self.param("w", lambda k, sh: (jnp.cos(jnp.arange(sh[0] * sh[1])) + 1j * jnp.sin(0.7 * jnp.arange(sh[0] * sh[1]) + 0.2)).reshape(sh), (2, x.size))
        v = self.param("v", lambda k, sh: jnp.array([0.3 - 0.2j, 0.1 + 0.5j]), (2,))
        w, v = jnp.asarray(w), jnp.asarray(v)
        h = w @ x
        return jnp.sum(v * jnp.abs(h) ** 2) + jnp.sum(jnp.conj(h) * v ** 2) + 0.2 * h[0] ** 2


class Holo(nn.Module):
    """complex parameters of several shapes, holomorphic"""
    @nn.compact
    def __call__(self, s):
        x = 2.0 * s.ravel() - 1
        W = jnp.asarray(self.param("W", lambda k, sh: (0.3 * jnp.cos(jnp.arange(sh[0] * sh[1])) + 0.2j * jnp.sin(jnp.arange(sh[0] * sh[1]))).reshape(sh), (2, x.size)))
        b = jnp.asarray(self.param("b", lambda k, sh: jnp.array([0.3 - 0.2j, 0.1 + 0.5j]), (2,)))
        a = jnp.asarray(self.param("a", lambda k, sh: (0.1 * jnp.arange(sh[0]) + 0.05j), (x.size,)))
        return jnp.sum((W @ x + b) ** 3) + jnp.dot(a, x)


class Jastrow(nn.Module):
    """real parameters, gradient vanishes on the empty configuration"""
    cpx: bool = False

    @nn.compact
    def __call__(self, s):
        x = 1.0 * s.ravel()
        J = jnp.asarray(self.param("J", lambda k, sh: jnp.sin(1.0 + jnp.arange(sh[0] * sh[1])).reshape(sh), (x.size, x.size)))
        r = x @ J @ x
        if not self.cpx:
            return r
        K = jnp.asarray(self.param("K", lambda k, sh: jnp.cos(1.0 + jnp.arange(sh[0])), (x.size,)))
        return r + 1j * (K @ x) ** 2


def make(jVMC, name, shape=(3,)):
    """returns keyword arguments for NQS"""
    n = jVMC.nets
    F = tuple([2] * len(shape))
    st = tuple([1] * len(shape))
    sym = lambda *a: jVMC.util.symmetries.get_orbit_1D(shape[0], *a)
    t = {
        "table": lambda: dict(net=TableNet(shape=shape)),
        "table_real": lambda: dict(net=TableNet(shape=shape, cpx=False)),
        "rbm": lambda: dict(net=n.RBM(numHidden=2, bias=True)),
        "cpxrbm": lambda: dict(net=n.CpxRBM(numHidden=2, bias=True)),
        "cpxrbm_ns": lambda: dict(net=n.CpxRBM_Nospinflip(numHidden=2, bias=True)) if hasattr(n, "CpxRBM_Nospinflip") else dict(net=n.rbm.CpxRBM_Nospinflip(numHidden=2, bias=True)),
        "ffn": lambda: dict(net=n.FFN(layers=(3, 2), bias=True, actFun=(jnp.tanh,))),
        "cnn": lambda: dict(net=n.CNN(F=F, channels=(2, 1), strides=st)),
        "cpxcnn": lambda: dict(net=n.CpxCNN(F=F, channels=(2,), strides=st)),
        "rnn": lambda: dict(net=n.RNN1DGeneral(L=int(np.prod(shape)), hiddenSize=2)),
        "nonholo": lambda: dict(net=Nonholo()),
        "holo": lambda: dict(net=Holo()),
        "jastrow": lambda: dict(net=Jastrow()),
        "jastrow_cpx": lambda: dict(net=Jastrow(cpx=True)),
        "two": lambda: dict(net=(n.RBM(numHidden=2, bias=True), n.FFN(layers=(2,), bias=True, actFun=(jnp.tanh,)))),
        "two_explicit": lambda: dict(net=n.two_nets_wrapper.TwoNets(nets=(n.RBM(numHidden=1, bias=True), n.RBM(numHidden=2)))),
        "sym": lambda: dict(net=n.CpxRBM(numHidden=1, bias=True), orbit=sym("translation", "reflection")),
        "sym_two": lambda: dict(net=(n.RBM(numHidden=1, bias=True), n.RBM(numHidden=2, bias=True)), orbit=sym("translation")),
        "sym_log": lambda: dict(net=n.CpxRBM(numHidden=1, bias=True), orbit=sym("translation"), avgFun=n.sym_wrapper.avgFun_Coefficients_Log),
    }
    return t[name]()
