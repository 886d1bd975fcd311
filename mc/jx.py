"""jax set-up shared by the checks (imported in worker processes only)."""
import warnings
warnings.filterwarnings("ignore")
import os
import numpy as np
import jax
jax.config.update("jax_enable_x64", True)
import jax.numpy as jnp


def devices(k):
    ds = jax.devices()
    assert len(ds) >= k, "need %d host devices, have %d" % (k, len(ds))
    return ds[:k]


def use_devices(jVMC, k):
    jVMC.global_defs.set_pmap_devices(devices(k))


def split(x, sizes):
    """split x along axis 0 into consecutive blocks"""
    out, i = [], 0
    for n in sizes:
        out.append(x[i:i + n])
        i += n
    return out


def rep(x):
    return np.asarray(jax.device_get(x))


def flat(x):
    """(devices, batch, ...) -> (devices*batch, ...) on the host"""
    x = rep(x)
    return x.reshape((-1,) + x.shape[2:])
