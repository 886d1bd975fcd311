From 682eb63741b746f2c1691498c8bf4bc6f4d99c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:21 +0000
Subject: [PATCH 01/36] fix: ExactSampler enumerates every basis state exactly
 once for any device count

---
 jVMC/sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6376bd4..6c70637 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -417,11 +417,11 @@ class ExactSampler:
 
         deviceCount = global_defs.device_count()
 
-        self.numStatesPerDevice = [(myNumStates + deviceCount - 1) // deviceCount] * deviceCount
-        self.numStatesPerDevice[-1] += myNumStates - deviceCount * self.numStatesPerDevice[0]
-        self.numStatesPerDevice = jnp.array(self.numStatesPerDevice)
+        # Every device holds the same number of entries; surplus entries are padding (zero probability)
+        entriesPerDevice = max(1, int(myNumStates + deviceCount - 1) // deviceCount)
+        self.numStatesPerDevice = jnp.clip(myNumStates - entriesPerDevice * jnp.arange(deviceCount), 0, entriesPerDevice)
 
-        totalNumStates = deviceCount * self.numStatesPerDevice[0]
+        totalNumStates = deviceCount * entriesPerDevice
 
         intReps = jnp.arange(myFirstState, myFirstState + totalNumStates)
         intReps = intReps.reshape((global_defs.device_count(), -1))
-- 
2.43.0


From 9ff428948c09f33165732f833382f7e2b695dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:21 +0000
Subject: [PATCH 02/36] fix: propose_POVM_outcome stays within the four
 outcomes and is symmetric

---
 jVMC/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 6c70637..4436f56 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -23,7 +23,7 @@ def propose_POVM_outcome(key, s, info):
     key, subkey = random.split(key)
     idx = random.randint(subkey, (1,), 0, s.size)[0]
     idx = jnp.unravel_index(idx, s.shape)
-    update = (s[idx] + random.randint(key, (1,), 0, 3) % 4)
+    update = (s[idx] + random.randint(key, (1,), 1, 4)[0]) % 4
     return s.at[idx].set(update)
 
 
-- 
2.43.0


From fc464befbdec10495ef49d8d73445b281438f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:21 +0000
Subject: [PATCH 03/36] fix: global_variance sums over all devices

---
 jVMC/mpi_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 73afa5e..02294d4 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,7 +43,7 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), in_axes=(0, None, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
         mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
-- 
2.43.0


From 2a9b5b2bb48d8b04aa030dd28ecc045dd1b2bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:57 +0000
Subject: [PATCH 04/36] fix: global_mean and global_variance reduce the batch
 dimension for data of any shape

---
 jVMC/mpi_wrapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 02294d4..75cff16 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -43,8 +43,8 @@ def jit_my_stuff():
     if global_defs.pmap_devices_updated(mpiPmapDevices):
         _sum_up_pmapd = global_defs.pmap_for_my_devices(lambda x: jax.lax.psum(jnp.sum(x, axis=0), 'i'), axis_name='i')
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
-        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('ij, ij, i -> j', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
-        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.dot(p, data), axis=0), in_axes=(0, 0))
+        _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('i..., i..., i -> ...', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
+        mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.tensordot(p, data, axes=(0, 0)), axis=0), in_axes=(0, 0))
         cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
 
         mpiPmapDevices = global_defs.myPmapDevices
-- 
2.43.0


From 86f520bc2ca0f8dddf41ff2308985e1c66a239b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 05/36] fix: global_covariance returns the documented (centred)
 covariance matrix

---
 jVMC/mpi_wrapper.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/jVMC/mpi_wrapper.py b/jVMC/mpi_wrapper.py
index 75cff16..5df598e 100644
--- a/jVMC/mpi_wrapper.py
+++ b/jVMC/mpi_wrapper.py
@@ -17,9 +17,10 @@ import time
 communicationTime = 0.
 
 
-def _cov_helper(data, p):
+def _cov_helper(data, mean, p):
+    data = data - mean
     return jnp.expand_dims(
-        jnp.matmul(jnp.conj(jnp.transpose(data)), jnp.multiply(p[:, None], data)),
+        jnp.matmul(jnp.transpose(data), jnp.multiply(p[:, None], jnp.conj(data))),
         axis=0
     )
 
@@ -45,7 +46,7 @@ def jit_my_stuff():
         # _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.conj(data - mean).dot(p[..., None] * (data - mean)), 'i'), axis_name='i', in_axes=(0, None, 0))
         _sum_sq_pmapd = global_defs.pmap_for_my_devices(lambda data, mean, p: jax.lax.psum(jnp.einsum('i..., i..., i -> ...', jnp.conj(data - mean[None, ...]), (data - mean[None, ...]), p), 'i'), axis_name='i', in_axes=(0, None, 0))
         mean_helper = global_defs.pmap_for_my_devices(lambda data, p: jnp.expand_dims(jnp.tensordot(p, data, axes=(0, 0)), axis=0), in_axes=(0, 0))
-        cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, 0))
+        cov_helper = global_defs.pmap_for_my_devices(_cov_helper, in_axes=(0, None, 0))
 
         mpiPmapDevices = global_defs.myPmapDevices
 
@@ -240,7 +241,9 @@ def global_covariance(data, p):
 
     jit_my_stuff()
 
-    return global_sum(cov_helper(data, p))
+    mean = global_mean(data, p)
+
+    return global_sum(cov_helper(data, mean, p))
 
 
 def bcast_unknown_size(data, root=0):
-- 
2.43.0


From 76bf4bf25a689e1a6c853d685ce934240dc29155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 06/36] fix: SampledObs.mean_and_grad sums the estimator
 gradient over all devices

---
 jVMC/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 5c246ca..128d604 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -224,7 +224,7 @@ class SampledObs():
         self._compute_data_and_mean(obs)
 
         obsGrad = self._estimator_grad(params, self._configs)
-        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[None,...] )
+        obsGradMean = mpi.global_sum( _mean_helper(obsGrad,self._weights)[:, None,...] )
 
         psiGrad = SampledObs( 2.0*jnp.real( psi.gradients(self._configs) ), self._weights )
 
-- 
2.43.0


From fff3395d79bc833667177fecf0b65ee9bf892b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 07/36] fix: samples of vanishing weight do not turn statistics
 into NaN

---
 jVMC/stats.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/jVMC/stats.py b/jVMC/stats.py
index 128d604..2d2eb32 100644
--- a/jVMC/stats.py
+++ b/jVMC/stats.py
@@ -25,6 +25,10 @@ _subset_data_prep = None
 
 statsPmapDevices = None
 
+def _nonzero(w):
+    # Samples of vanishing weight (e.g. padding) carry no data, avoid 0 / 0
+    return jnp.where(w > 0, w, 1.)
+
 def jit_my_stuff():
     # This is a helper function to make sure that pmap'd functions work with the actual choice of devices
     # at all times.
@@ -61,14 +65,14 @@ def jit_my_stuff():
                                         jnp.sum(
                                             jnp.abs( 
                                                 jax.vmap(lambda a,b: jnp.outer(a,b))(jnp.conj(data1), data2),
-                                            )**2 / w[...,None,None],
+                                            )**2 / _nonzero(w)[...,None,None],
                                             axis=0),
                                     in_axes=(0, 0, 0)
                                     )
-        _covar_data_helper = jVMC.global_defs.pmap_for_my_devices(lambda data1, data2, w: jax.vmap(lambda a,b,w: jnp.outer(a,b) / w)(jnp.conj(data1), data2, w), in_axes=(0, 0, 0))
+        _covar_data_helper = jVMC.global_defs.pmap_for_my_devices(lambda data1, data2, w: jax.vmap(lambda a,b,w: jnp.outer(a,b) / _nonzero(w))(jnp.conj(data1), data2, w), in_axes=(0, 0, 0))
         _trafo_helper_1 = jVMC.global_defs.pmap_for_my_devices(
                                 lambda data, w, mean, f: f(
-                                    jax.vmap(lambda x,y: x/jnp.sqrt(y), in_axes=(0,0))(data, w) 
+                                    jax.vmap(lambda x,y: x/jnp.sqrt(_nonzero(y)), in_axes=(0,0))(data, w) 
                                     + mean
                                     ), 
                                 in_axes=(0, 0, None), static_broadcasted_argnums=(3,))
@@ -76,7 +80,7 @@ def jit_my_stuff():
                                 lambda data, w, mean, v, f: 
                                     jnp.matmul(v, 
                                                 f(
-                                                jax.vmap(lambda x,y: x/jnp.sqrt(y), in_axes=(0,0))(data, w) 
+                                                jax.vmap(lambda x,y: x/jnp.sqrt(_nonzero(y)), in_axes=(0,0))(data, w) 
                                                 + mean
                                                 )
                                     ), 
-- 
2.43.0


From 0e93ac703a0c816be856047c8810e9caabe6ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:01 +0000
Subject: [PATCH 08/36] fix: products of operator prefactors can be evaluated
 with operator arguments

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 6db54f9..924a0ca 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -196,7 +196,7 @@ import copy
 def _id_prefactor(*args, val=1.0, **kwargs):
     return val
 
-def _prod_fun(f1, f2, *args, **kwargs):
+def _prod_fun(*args, f1, f2, **kwargs):
     return f1(*args) * f2(*args)
 
 
-- 
2.43.0


From 95ce5d21de5f62b655131335d400b037363ba65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:02 +0000
Subject: [PATCH 09/36] fix: numpy scalars multiply operator strings as
 prefactors

---
 jVMC/operator/branch_free.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 924a0ca..3b897ad 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -204,6 +204,8 @@ class OpStr(tuple):
     """This class provides the interface for operator strings
     """
 
+    __array_ufunc__ = None  # numpy scalars are prefactors, see __rmul__
+
     def __init__(self, *args):
 
         super(OpStr, self).__init__()
@@ -288,6 +290,8 @@ class LocalOp(dict):
         * "fermionic": Boolean indicating, whether this is a fermionic operator
     """
 
+    __array_ufunc__ = None  # numpy scalars are prefactors, see __rmul__
+
     def __init__(self, **kwargs):
         for k in kwargs.keys():
             self[k] = kwargs[k]
-- 
2.43.0


From 8a58b1ecac565c6b53eeadb2c8390ab58f2fce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:02 +0000
Subject: [PATCH 10/36] fix: BranchFreeOperator works on configurations of any
 shape

---
 jVMC/operator/branch_free.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 3b897ad..11fa732 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -453,7 +453,7 @@ class BranchFreeOperator(Operator):
         sp = jnp.array([s] * numOps)
 
         ######## fermions ########
-        mask = jnp.tril(jnp.ones((s.shape[-1],s.shape[-1]),dtype=int),-1).T
+        mask = jnp.tril(jnp.ones((s.size,s.size),dtype=int),-1).T
         ##########################
 
         def apply_fun(c, x):
-- 
2.43.0


From cdd78bce1924725796e8b2c0eb37fa006d6bd378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:02 +0000
Subject: [PATCH 11/36] fix: distributed evaluation of many operator prefactors

---
 jVMC/operator/branch_free.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/jVMC/operator/branch_free.py b/jVMC/operator/branch_free.py
index 11fa732..d7f7148 100644
--- a/jVMC/operator/branch_free.py
+++ b/jVMC/operator/branch_free.py
@@ -429,16 +429,11 @@ class BranchFreeOperator(Operator):
                 myStart = nEls * rank
                 myEnd = min(myStart+nEls, N)
 
-                firstIdx = [0] + [prefactor[nEls * r][0]-1 for r in range(1,commSize)]
-                lastIdx = [prefactor[min(nEls * (r+1), N-1)][0]-1 for r in range(commSize-1)] + [len(init)]
+                vals = np.array([f(*args) for _,f in prefactor[myStart:myEnd]], dtype=init.dtype)
 
-                res = init[firstIdx[rank]:lastIdx[rank]]
-
-                for i,f in prefactor[myStart:myEnd]:
-                    res[i-firstIdx[rank]] = f(*args)
+                res = init
+                res[[i for i,_ in prefactor]] = np.concatenate(comm.allgather(vals), axis=0)
 
-                res = np.concatenate(comm.allgather(res), axis=0)
-                
             return (jnp.array(res), )
 
         return functools.partial(self._get_s_primes, idxC=self.idxC, mapC=self.mapC, matElsC=self.matElsC, diag=self.diag, fermiC=self.fermionicC, prefactor=self.prefactor),\
-- 
2.43.0


From f1f0316c9652fcb4f3f65153360841a9906d962a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:17 +0000
Subject: [PATCH 12/36] fix: get_O_loc takes the logarithm of all plain wave
 function amplitudes

---
 jVMC/operator/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 8d62072..62f0219 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -181,6 +181,8 @@ class Operator(metaclass=abc.ABCMeta):
 
         if logPsiS is None:
             logPsiS = psi(samples)
+            if not psi.logarithmic:
+                logPsiS = jnp.log(logPsiS)
 
         if self.ElocBatchSize > 0:
             return self.get_O_loc_batched(samples, psi, logPsiS, self.ElocBatchSize, *args)
@@ -269,8 +271,12 @@ class Operator(metaclass=abc.ABCMeta):
 
             sp, _ = self.get_s_primes(batch, *args)
 
-            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, psi(sp))
-        
+            logPsiSP = psi(sp)
+            if not psi.logarithmic:
+                logPsiSP = jnp.log(logPsiSP)
+
+            OlocBatch = self.get_O_loc_unbatched(logPsiSbatch, logPsiSP)
+
             OlocBatch = self._get_Oloc_slice_pmapd(OlocBatch, 0, remainder)
 
             Oloc = self._insert_Oloc_batch_pmapd(Oloc, OlocBatch, numBatches * batchSize)
-- 
2.43.0


From 8e97fb3a1264cc0cef69a4ec5f49b21cf7f4d1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:17 +0000
Subject: [PATCH 13/36] fix: get_estimator_function supports plain compile()
 functions and plain amplitudes

---
 jVMC/operator/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/jVMC/operator/base.py b/jVMC/operator/base.py
index 62f0219..9bc35fb 100644
--- a/jVMC/operator/base.py
+++ b/jVMC/operator/base.py
@@ -305,6 +305,7 @@ class Operator(metaclass=abc.ABCMeta):
         """
 
         op_fun = self.compile()
+        op_fun_args = args
         if type(op_fun) is tuple:
             op_fun_args = op_fun[1](*args)
             op_fun = op_fun[0]
@@ -318,6 +319,8 @@ class Operator(metaclass=abc.ABCMeta):
             log_psi_sp = jax.vmap(lambda s: net_fun(params,s))(sp)
 
             #return jnp.dot(matEls, jnp.exp(log_psi_sp - log_psi_s))
+            if not psi.logarithmic:
+                return jnp.sum(matEls * log_psi_sp / log_psi_s)
             return jnp.sum(matEls * jnp.exp(log_psi_sp - log_psi_s))
 
         return op_estimator
-- 
2.43.0


From 3edb786de0bb45d355088bb8a8f51074c6ab07fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 14/36] fix: NQS.set_parameters does not alias the array of the
 caller

---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 150c3f3..0ca7fa2 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -422,7 +422,7 @@ class NQS:
         if isinstance(P, flax.core.frozen_dict.FrozenDict):
             self.params = P
         else:
-            self.params = self._param_unflatten(P)
+            self.params = self._param_unflatten(jnp.array(P))
 
     # **  end def set_parameters
 
-- 
2.43.0


From fa1ed6a8830f3318ab238572fb081ac0deda3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 15/36] fix: networks with real parameters are never treated as
 holomorphic

---
 jVMC/vqs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 0ca7fa2..079f882 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -201,7 +201,7 @@ class NQS:
                 return jnp.concatenate([p.ravel() for p in tree_flatten(t)[0]])
             grads_r = make_flat( jax.grad(lambda a,b: jnp.real(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
             grads_i = make_flat( jax.grad(lambda a,b: jnp.imag(self.net.apply(a,b)))(self.parameters, s[0,0,...])["params"] )
-            if isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
+            if not self.realParams and isclose(jnp.linalg.norm(grads_r - 1.j * grads_i)/grads_r.shape[0], 0.0, abs_tol=1e-14):
                 self.holomorphic = True
                 self.flat_gradient_function = flat_gradient_holo
             else:
-- 
2.43.0


From fe94ecce5799e676ed87f405150121e892fb1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:06 +0000
Subject: [PATCH 16/36] fix: gradients_dict for networks with complex
 parameters that are not holomorphic

---
 jVMC/vqs.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/jVMC/vqs.py b/jVMC/vqs.py
index 079f882..414185b 100644
--- a/jVMC/vqs.py
+++ b/jVMC/vqs.py
@@ -75,6 +75,12 @@ def dict_gradient(fun, params, arg):
     gi = tree_map(lambda x: x.ravel(), gi)
     return tree_map(lambda x,y: x + 1.j*y, gr, gi)
 
+def dict_gradient_cpx_nonholo(fun, params, arg):
+    gr = grad(lambda p, y: jnp.real(fun.apply(p, y)))(params, arg)["params"]
+    gi = grad(lambda p, y: jnp.imag(fun.apply(p, y)))(params, arg)["params"]
+    split = lambda x: jnp.concatenate([jnp.real(x.ravel()), -jnp.imag(x.ravel())])
+    return tree_map(lambda x,y: split(x) + 1.j*split(y), gr, gi)
+
 
 def dict_gradient_real(fun, params, arg):
     g = grad(lambda p, y: jnp.real(fun.apply(p, y)))(params, arg)["params"]
@@ -210,6 +216,7 @@ class NQS:
                     self.dict_gradient_function = dict_gradient
                 else:
                     self.flat_gradient_function = flat_gradient_cpx_nonholo
+                    self.dict_gradient_function = dict_gradient_cpx_nonholo
 
             self.paramShapes = [(p.size, p.shape) for p in tree_flatten(self.parameters["params"])[0]]
             self.netTreeDef = jax.tree_util.tree_structure(self.parameters["params"])
@@ -305,7 +312,6 @@ class NQS:
         
         self.init_net(s)
 
-        # Here we need to add the treatment for the complex non-holomorphic case
         gradOut = self._get_gradients_dict_pmapd(self.net, self.parameters, s, self.batchSize, self.dict_gradient_function)
 
         if self.holomorphic:
@@ -322,8 +328,7 @@ class NQS:
         start = 0
         P = jnp.arange(2*self.numParameters)
         for s in self.paramShapes:
-            # Here we need to add the treatment for the complex non-holomorphic case
-            if self.holomorphic:
+            if not self.realParams:
                 PTreeShape.append( ( P[start:start + 2*s[0]]) )
                 start += 2*s[0]
             else:
-- 
2.43.0


From 7e246787315f38aee11e7fe4ad9cfcd27da9953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 17/36] fix: AdaptiveHeun does not overwrite arrays seen or
 returned by the right hand side

---
 jVMC/util/stepper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/util/stepper.py b/jVMC/util/stepper.py
index 1edce22..06538c4 100644
--- a/jVMC/util/stepper.py
+++ b/jVMC/util/stepper.py
@@ -144,17 +144,17 @@ class AdaptiveHeun:
 
             y = yInitial.copy()
             k0 = f(y, t, **rhsArgs, intStep=0)
-            y += dt * k0
+            y = y + dt * k0
             k1 = f(y, t + dt, **rhsArgs, intStep=1)
             dy0 = 0.5 * dt * (k0 + k1)
 
             # now with half step size
-            y -= 0.5 * dt * k0
+            y = y - 0.5 * dt * k0
             k10 = f(y, t + 0.5 * dt, **rhsArgs, intStep=2)
             dy1 = 0.25 * dt * (k0 + k10)
             y = yInitial + dy1
             k01 = f(y, t + 0.5 * dt, **rhsArgs, intStep=3)
-            y += 0.5 * dt * k01
+            y = y + 0.5 * dt * k01
             k11 = f(y, t + dt, **rhsArgs, intStep=4)
             dy1 += 0.25 * dt * (k01 + k11)
 
-- 
2.43.0


From f52c16a02c12e4499a8e4026d3026f2445a2fecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:29 +0000
Subject: [PATCH 18/36] fix: AdaptiveHeun never exceeds maxStep, also in its
 first step

---
 jVMC/util/stepper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/stepper.py b/jVMC/util/stepper.py
index 06538c4..f557b9f 100644
--- a/jVMC/util/stepper.py
+++ b/jVMC/util/stepper.py
@@ -136,7 +136,7 @@ class AdaptiveHeun:
 
         fe = 0.5
 
-        dt = self.dt
+        dt = min(self.dt, self.maxStep)
 
         yInitial = y.copy()
 
-- 
2.43.0


From a34fcce28777ec5a8c4f8ffeb511da1069bda4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 19/36] fix: OutputManager.set_group can return to the root
 group

---
 jVMC/util/output_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index b3b7c67..9c37d21 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -23,6 +23,7 @@ class OutputManager:
 
     def set_group(self, group):
 
+        self.currentGroup = "/"
         if group != "/":
             self.currentGroup = "/" + group
 
-- 
2.43.0


From 38e0ad38c9bc80057d7d16a3fb3d8f7f027c05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:21 +0000
Subject: [PATCH 20/36] fix: OutputManager.write_dataset accepts any data and
 prints nothing

---
 jVMC/util/output_manager.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/jVMC/util/output_manager.py b/jVMC/util/output_manager.py
index 9c37d21..f748cac 100644
--- a/jVMC/util/output_manager.py
+++ b/jVMC/util/output_manager.py
@@ -177,7 +177,6 @@ class OutputManager:
                     if not groupname in f["/"]:
                         f.create_group("/" + groupname)
 
-                print(data.shape)
                 f.create_dataset("/" + groupname + "/" + name, data=np.array(data))
 
     def start_timing(self, name):
-- 
2.43.0


From 8b4e93ca68a463a732d87a2990205e2ca87aaa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:05 +0000
Subject: [PATCH 21/36] fix: MCSampler.sample returns the promised number of
 samples with multipleOf

---
 jVMC/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 4436f56..68a1105 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -232,6 +232,7 @@ class MCSampler:
     def _get_samples_gen(self, params, numSamples, multipleOf=1):
 
         numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=multipleOf)
+        numSamples *= multipleOf  # samples per device
 
         tmpKeys = random.split(self.key[0], 3 * global_defs.device_count())
         self.key = tmpKeys[:global_defs.device_count()]
@@ -264,7 +265,9 @@ class MCSampler:
         # Initialize sampling stuff
         self._mc_init(params)
 
-        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=np.lcm(self.numChains, multipleOf))
+        numSamplesMultiple = int(np.lcm(self.numChains, multipleOf))
+        numSamples, self.globNumSamples = mpi.distribute_sampling(numSamples, localDevices=global_defs.device_count(), numChainsPerDevice=numSamplesMultiple)
+        numSamples *= numSamplesMultiple // self.numChains  # samples per chain
         numSamplesStr = str(numSamples)
 
         # check whether _get_samples is already compiled for given number of samples
-- 
2.43.0


From 6bcbb63560be9bcee792bc47c4bafb5396955806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:05 +0000
Subject: [PATCH 22/36] fix: MCSampler.set_random_key gives every process its
 own random stream

---
 jVMC/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index 68a1105..ba2b9c4 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -166,7 +166,8 @@ class MCSampler:
             * ``key``: Key (jax.random.PRNGKey)
         """
 
-        self.key = jax.random.split(key, global_defs.device_count())
+        self.key = jax.random.split(key, mpi.commSize)[mpi.rank]
+        self.key = jax.random.split(self.key, global_defs.device_count())
 
     def get_last_number_of_samples(self):
         """Return last number of samples.
-- 
2.43.0


From d117388a159209ea95f427ea817127ae032c4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:05 +0000
Subject: [PATCH 23/36] fix: propose_spin_flip_zeroMag works for configurations
 of any shape

---
 jVMC/sampler.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/jVMC/sampler.py b/jVMC/sampler.py
index ba2b9c4..daa9c73 100644
--- a/jVMC/sampler.py
+++ b/jVMC/sampler.py
@@ -46,8 +46,8 @@ def propose_spin_flip_zeroMag(key, s, info):
 
     # can't use jnp.where because then it is not jit-compilable
     # find indices based on cumsum
-    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
-    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.shape[0] * s.shape[1] / 2 + 1)
+    bound_up = jax.random.randint(idxKeyUp, (1,), 1, s.size // 2 + 1)
+    bound_down = jax.random.randint(idxKeyDown, (1,), 1, s.size // 2 + 1)
 
     id_up = jnp.searchsorted(jnp.cumsum(s), bound_up)
     id_down = jnp.searchsorted(jnp.cumsum(1 - s), bound_down)
@@ -55,8 +55,8 @@ def propose_spin_flip_zeroMag(key, s, info):
     idx_up = jnp.unravel_index(id_up, s.shape)
     idx_down = jnp.unravel_index(id_down, s.shape)
 
-    s = s.at[idx_up[0], idx_up[1]].set(0)
-    s = s.at[idx_down[0], idx_down[1]].set(1)
+    s = s.at[idx_up].set(0)
+    s = s.at[idx_down].set(1)
 
     # On average, do a global spin flip every 30 updates to
     # reflect Z_2 symmetry
-- 
2.43.0


From c6f321d6116fd0a170b6be6aaaca6685345f636b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:17 +0000
Subject: [PATCH 24/36] fix: RNN2DGeneral can be used with GRU cells

---
 jVMC/nets/rnn2d_general.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/nets/rnn2d_general.py b/jVMC/nets/rnn2d_general.py
index fc4a73f..feacedc 100644
--- a/jVMC/nets/rnn2d_general.py
+++ b/jVMC/nets/rnn2d_general.py
@@ -129,7 +129,7 @@ class RNN2DGeneral(nn.Module):
                 self.cells = [LSTMCell(features=self.hiddenSize) for _ in range(self.depth)]
                 self.zero_carry = jnp.zeros((self.L, self.depth, 2, self.hiddenSize), dtype=self.dtype)
             elif self.cell == "GRU":
-                self.cells = [GRUCell() for _ in range(self.depth)]
+                self.cells = [GRUCell(features=self.hiddenSize) for _ in range(self.depth)]
             else:
                 ValueError("Cell name not recognized.")
         else:
@@ -246,10 +246,10 @@ class GRUCell(nn.Module):
     def __call__(self, carryH, carryV, state):
         cellCarryH = nn.Dense(features=carryH.shape[-1],
                               use_bias=True,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         cellCarryV = nn.Dense(features=carryV.shape[-1],
                               use_bias=False,
-                              dtype=global_defs.tReal)
+                              param_dtype=global_defs.tReal)
         current_carry, newR = nn.GRUCell(features=self.features, param_dtype=global_defs.tReal)(cellCarryH(carryH) + cellCarryV(carryV), state)
 
         return current_carry, newR[0]
-- 
2.43.0


From 96d410215358436344ab9cf9b2bc7f58ac841dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:21 +0000
Subject: [PATCH 25/36] fix: TDVP works with pinvCutoff of 1e-2 and above

---
 jVMC/util/tdvp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 92824ef..85edd33 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -193,7 +193,7 @@ class TDVP:
         self.invEv = jnp.where(jnp.abs(self.ev / self.ev[-1]) > 1e-14, 1. / self.ev, 0.)
 
         residual = 1.0
-        cutoff = 1e-2
+        cutoff = max(1e-2, 1.25 * self.pinvCutoff)
         F_norm = jnp.linalg.norm(F)
         while residual > self.pinvTol and cutoff > self.pinvCutoff:
             cutoff *= 0.8
-- 
2.43.0


From d5e94dd8c8d8493a40471a475c6e7354d5136412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:21 +0000
Subject: [PATCH 26/36] fix: TDVP.get_sr_equation no longer passes an unknown
 argument

---
 jVMC/util/tdvp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 85edd33..7e20275 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -131,12 +131,15 @@ class TDVP:
 
         return self.S
 
-    def get_tdvp_equation(self, Eloc, gradients):
+    def get_tdvp_equation(self, Eloc, gradients, rhsPrefactor=None):
+
+        if rhsPrefactor is None:
+            rhsPrefactor = self.rhsPrefactor
 
         self.ElocMean = Eloc.mean()[0]
         self.ElocVar = Eloc.var()[0]
 
-        self.F0 = (-self.rhsPrefactor) * gradients.covar(Eloc).ravel()
+        self.F0 = (-rhsPrefactor) * gradients.covar(Eloc).ravel()
         F = self.makeReal(self.F0)
 
         self.S0 = gradients.covar()
-- 
2.43.0


From 39b916bedde55d37a9d17ae5b7850194a01f482a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:05 +0000
Subject: [PATCH 27/36] fix: TDVP returns a zero update, not NaN, where the
 force vanishes identically

---
 jVMC/util/tdvp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jVMC/util/tdvp.py b/jVMC/util/tdvp.py
index 7e20275..de98f37 100644
--- a/jVMC/util/tdvp.py
+++ b/jVMC/util/tdvp.py
@@ -181,7 +181,9 @@ class TDVP:
                     )
         self.rhoVar = EO.var().ravel()
 
-        self.snr = jnp.sqrt(jnp.abs(mpi.globNumSamples * (jnp.conj(self.VtF) * self.VtF) / self.rhoVar)).ravel()
+        # Components of the force that vanish identically carry no signal
+        snr = jnp.sqrt(jnp.abs(mpi.globNumSamples * (jnp.conj(self.VtF) * self.VtF) / self.rhoVar))
+        self.snr = jnp.where(self.VtF == 0., 0., snr).ravel()
 
     def solve(self, Eloc, gradients):
         # Get TDVP equation from MC data
@@ -205,11 +207,11 @@ class TDVP:
 
             if not isinstance(self.sampler, jVMC.sampler.ExactSampler):
                 # Construct a soft cutoff based on the SNR
-                regularizer *= 1. / (1. + (self.snrTol / self.snr)**6)
+                regularizer *= jnp.where(self.snr > 0., 1. / (1. + (self.snrTol / self.snr)**6), 0.)
 
             pinvEv = self.invEv * regularizer
 
-            residual = jnp.linalg.norm((pinvEv * self.ev - jnp.ones_like(pinvEv)) * self.VtF) / F_norm
+            residual = jnp.linalg.norm((pinvEv * self.ev - jnp.ones_like(pinvEv)) * self.VtF) / jnp.where(F_norm > 0., F_norm, 1.)
 
         update = jnp.real(jnp.dot(self.V, (pinvEv * self.VtF)))
 
-- 
2.43.0


From a7e48424eb17ec233b3796ad925bb78e78b90c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:45 +0000
Subject: [PATCH 28/36] fix: RBM couples all sites of multi-dimensional
 configurations

---
 jVMC/nets/rbm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/rbm.py b/jVMC/nets/rbm.py
index 229c291..eed3e67 100644
--- a/jVMC/nets/rbm.py
+++ b/jVMC/nets/rbm.py
@@ -85,6 +85,6 @@ class RBM(nn.Module):
                                         dtype=global_defs.tReal)
                         )
 
-        return jnp.sum(jnp.log(jnp.cosh(layer(2 * s - 1))))
+        return jnp.sum(jnp.log(jnp.cosh(layer(2 * s.ravel() - 1))))
 
 # ** end class RBM
-- 
2.43.0


From ed6231d619071e0169e3bbd2eaa783fa856a437e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:45 +0000
Subject: [PATCH 29/36] fix: CpxCNN with periodic boundaries does not zero-pad
 its convolutions

---
 jVMC/nets/cnn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/nets/cnn.py b/jVMC/nets/cnn.py
index 6593831..3c2ec0c 100644
--- a/jVMC/nets/cnn.py
+++ b/jVMC/nets/cnn.py
@@ -140,9 +140,9 @@ class CpxCNN(nn.Module):
             #    x = jnp.pad(x, pads, 'constant', constant_values=0)
             x = f(nn.Conv(features=c, kernel_size=tuple(self.F),
                           strides=self.strides,
+                          padding=[(0, 0)] * len(self.strides) if self.periodicBoundary else 'SAME',
                           use_bias=b, **init_args)(x))
 
-        # strides=self.strides, padding=[(0, 0)] * len(self.strides),
         nrm = jnp.sqrt(jnp.prod(jnp.array(x.shape[reduceDims[-1]:])))
 
         return jnp.sum(x, axis=reduceDims) / nrm
-- 
2.43.0


From 5396564257e7ae7293531d7509fbf531d664e734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:45 +0000
Subject: [PATCH 30/36] fix: init_net builds two-network states

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 16c9eed..49b847c 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -76,7 +76,7 @@ def init_net(descr, dims, seed=0):
 
         model1 = get_net(descr["net1"], dims)
         model2 = get_net(descr["net2"], dims)
-        model = jVMC.nets.two_nets_wrapper.TwoNets(net1=model1, net2=model2)
+        model = jVMC.nets.two_nets_wrapper.TwoNets(nets=(model1, model2))
         isGenerator = "sample" in dir(model1)
 
     avgFun = jVMC.nets.sym_wrapper.avgFun_Coefficients_Sep if isGenerator else jVMC.nets.sym_wrapper.avgFun_Coefficients_Exp
-- 
2.43.0


From a5f24a56ab83772313d45bf9f752440308b28d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:45 +0000
Subject: [PATCH 31/36] fix: init_net leaves the network descriptor unchanged

---
 jVMC/util/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 49b847c..4147464 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -14,6 +14,7 @@ import jVMC.nets.activation_functions as act_funs
 import jVMC.util.symmetries as sym
 
 import collections
+import copy
 
 
 def get_iterable(x):
@@ -32,6 +33,9 @@ def init_net(descr, dims, seed=0):
 
         return act_funs.activationFunctions[actFuns]
 
+    # Keep the descriptor passed in unchanged
+    descr = copy.deepcopy(descr)
+
     netTypes = {
         "RBM": jVMC.nets.RBM,
         "FFN": jVMC.nets.FFN,
-- 
2.43.0


From 2e9e7a513cf2a3e57400691a62c44f7392e65cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:51 +0000
Subject: [PATCH 32/36] fix: ground_state_search also iterates for varianceTol
 of one and above

---
 jVMC/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jVMC/util/util.py b/jVMC/util/util.py
index 4147464..043cada 100644
--- a/jVMC/util/util.py
+++ b/jVMC/util/util.py
@@ -187,7 +187,7 @@ def ground_state_search(psi, ham, tdvpEquation, sampler, numSteps=200, varianceT
             obs = measure(observables, psi, sampler)
             outp.write_observables(n, **obs)
 
-    varE = 1.0
+    varE = np.inf
 
     while n < numSteps and varE > varianceTol:
 
-- 
2.43.0


From 9ae468810a2738a50ee8354f45a52a42c18b496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 33/36] fix: POVMOperator.add copies the operator description
 instead of modifying it

---
 jVMC/operator/povm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 53c5502..2584e55 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -355,8 +355,7 @@ class POVMOperator(Operator):
             * ``opDescr``: Operator dictionary to be added to the operator.
         """
         id = len(self.ops) + 1
-        opDescr["id"] = id
-        self.ops.append(opDescr)
+        self.ops.append({**opDescr, "id": id})
         self.compiled = False
 
     def _get_s_primes(self, s, *args):
-- 
2.43.0


From 9ca1afa0cedf8982e1198cef40d401c184fe743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 34/36] fix: measure_povm reports the standard error of the
 mean of each quantity

---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 2584e55..c48faf9 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -37,14 +37,14 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         result[name] = {}
         result[name]["mean"] = jnp.array(mpi.global_mean(results[0][..., None], probs)[0])
         result[name]["variance"] = jnp.array(mpi.global_variance(results[0][..., None], probs)[0])
-        result[name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+        result[name]["MC_error"] = jnp.array(jnp.sqrt(result[name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
         for key, value in results[1].items():
             result_name = name + "_corr_L" + str(key)
             result[result_name] = {}
             result[result_name]["mean"] = jnp.array(mpi.global_mean(value[..., None], probs)[0] - result[name]["mean"]**2)
             result[result_name]["variance"] = jnp.array(mpi.global_variance(value[..., None], probs)[0])
-            result[result_name]["MC_error"] = jnp.array(result[name]["variance"] / jnp.sqrt(sampler.get_last_number_of_samples()))
+            result[result_name]["MC_error"] = jnp.array(jnp.sqrt(result[result_name]["variance"]) / jnp.sqrt(sampler.get_last_number_of_samples()))
 
     return result
 
-- 
2.43.0


From c992b85d51c5477cff2eaf8319e8c4fa5864fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 35/36] fix: measure_povm accepts numpy arrays of
 configurations

---
 jVMC/operator/povm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index c48faf9..5249456 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -24,11 +24,11 @@ def measure_povm(povm, sampler, sampleConfigs=None, probs=None, observables=None
         * ``probs``: optional, the associated probabilities
         * ``observables``: optional, observables for which expectation values are computed
     """
-    if sampleConfigs == None:
+    if sampleConfigs is None:
         # sampleConfigs, sampleLogPsi, probs = sampler.sample(p, numSamples)
         sampleConfigs, sampleLogPsi, probs = sampler.sample()
 
-    if observables == None:
+    if observables is None:
         observables = povm.observables
     result = {}
 
-- 
2.43.0


From 31b2541f9f385cbf036ac6944980e1750ff6b329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:34 +0000
Subject: [PATCH 36/36] fix: POVM.evaluate_observable works for 2D systems on
 several devices

---
 jVMC/operator/povm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jVMC/operator/povm.py b/jVMC/operator/povm.py
index 5249456..1cf5935 100644
--- a/jVMC/operator/povm.py
+++ b/jVMC/operator/povm.py
@@ -323,12 +323,12 @@ class POVM():
                 correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin)
             return self._spin_average_pmapd(resPerSamplePerSpin), correlators
         else:
-            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(1, -1, self.system_data["L"]**2)).reshape(1, -1, self.system_data["L"], self.system_data["L"])
+            resPerSamplePerSpin = self._evaluate_magnetization_pmapd(operator, states.reshape(states.shape[0], -1, self.system_data["L"]**2)).reshape(states.shape[0], -1, self.system_data["L"], self.system_data["L"])
             correlators = {}
             for corrLen in np.arange(self.system_data["L"]):
                 corrPerSamplePerSpin = self._evaluate_correlators_pmapd(resPerSamplePerSpin, corrLen)
-                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2))
-            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(1, -1, self.system_data["L"]**2)), correlators
+                correlators[corrLen] = self._spin_average_pmapd(corrPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2))
+            return self._spin_average_pmapd(resPerSamplePerSpin.reshape(states.shape[0], -1, self.system_data["L"]**2)), correlators
 
 
 class POVMOperator(Operator):
-- 
2.43.0

