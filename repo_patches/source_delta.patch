From 5b98b2c27aede9d1ec2e3d0e23ab61cc682b0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 01/13] fix: keep bose_fct from touching the global warning
 filters

`warnings.catch_warnings` replaces and restores process-wide state, so calls of
`bose_fct` overlapping in threads can leave the filter installed for ever.
`np.errstate` is local to the thread.
---
 gftool/statistics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/gftool/statistics.py b/gftool/statistics.py
index 41d4654..2e190fd 100644
--- a/gftool/statistics.py
+++ b/gftool/statistics.py
@@ -5,8 +5,6 @@ Per default, the functions refer to Fermi statistics,
 a tailing '_b' indicates Bose statistics instead.
 """
 
-from warnings import catch_warnings, filterwarnings
-
 import numpy as np
 from scipy import linalg
 from scipy.special import expit, logit
@@ -50,8 +48,7 @@ def bose_fct(eps, beta):
     res = np.empty_like(betaeps)
     small = betaeps < 700
 
-    with catch_warnings():
-        filterwarnings("ignore", message="divide by zero encountered.*", category=RuntimeWarning)
+    with np.errstate(divide="ignore"):
         res[small] = 1./np.expm1(betaeps[small])
     # avoid overflows for big numbers using negative exponents
     res[~small] = -np.exp(-betaeps[~small])/np.expm1(-betaeps[~small])
-- 
2.43.0


From d0dee459294f5a6ac93de2f2615b3300ebc9215c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 02/13] fix: log of solve_fxdocc_root fails for root methods
 without `nit`

The results of the methods 'hybr' and 'lm' have no attribute `nit`, thus every
call using them ended with an AttributeError.
---
 gftool/cpa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/cpa.py b/gftool/cpa.py
index 707997c..1282dfa 100644
--- a/gftool/cpa.py
+++ b/gftool/cpa.py
@@ -408,7 +408,8 @@ def solve_fxdocc_root(iws, e_onsite, concentration, hilbert_trafo: Callable[[com
         )
 
     sol = optimize.root(root_eq, x0=x0, **root_kwds)
-    LOGGER.debug("CPA self-energy root found after %s iterations.", sol.nit)
+    LOGGER.debug("CPA self-energy root found after %s iterations.",
+                 sol.get("nit", "unknown number of"))
     if not sol.success:
         raise RuntimeError(sol.message)
     mu, self_cpa_re, self_cpa_im = _split(sol.x, shapes)
-- 
2.43.0


From 94d6ad178f89844221eb638161b90289bd00ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 03/13] fix: check convergence before logging diagnostics in
 beb.solve_root

With logging at level INFO the decomposition for the diagnostics is calculated
from the (possibly non-finite) iterate of a failed search, so it raised
LinAlgError where the RuntimeError is raised with logging off.
---
 gftool/beb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gftool/beb.py b/gftool/beb.py
index 94e556e..9d5043d 100644
--- a/gftool/beb.py
+++ b/gftool/beb.py
@@ -398,7 +398,10 @@ def solve_root(z, e_onsite, concentration, hopping, hilbert_trafo: Callable[[com
         root_kwds['callback'] = lambda _, f: LOGGER.debug('Residue: %s', np.linalg.norm(f))
 
     sol = optimize.root(root_eq, x0=self_beb_z0, **root_kwds)
-    LOGGER.info("BEB self-energy root found after %s iterations.", sol.nit)
+    if not sol.success:
+        raise RuntimeError(sol.message)
+    LOGGER.info("BEB self-energy root found after %s iterations.",
+                sol.get("nit", "unknown number of"))
 
     if LOGGER.isEnabledFor(logging.INFO):
         # check condition number in matrix diagonalization to make sure it is well defined
@@ -408,6 +411,4 @@ def solve_root(z, e_onsite, concentration, hopping, hilbert_trafo: Callable[[com
         max_cond = np.max(np.linalg.cond(dec.rv))
         LOGGER.info("Maximal coordination number for diagonalization: %s", max_cond)
 
-    if not sol.success:
-        raise RuntimeError(sol.message)
     return sol.x
-- 
2.43.0


From a12f1afbc373dcfe03a1d6725c0a10b4526c5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 04/13] fix: give the CPA root search its own writable starting
 guess

`restrict_self_root_eq` projects the iterate in place, which fails for the
read-only array of `np.broadcast_to` (method 'df-sane') and must not happen in
the array of the caller.
---
 gftool/cpa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/cpa.py b/gftool/cpa.py
index 1282dfa..6b0497e 100644
--- a/gftool/cpa.py
+++ b/gftool/cpa.py
@@ -232,10 +232,10 @@ def solve_root(z, e_onsite, concentration, hilbert_trafo: Callable[[complex], co
     concentration = np.array(concentration)
     if self_cpa_z0 is None:  # static average + 0j to make it complex array
         self_cpa_z0 = np.sum(e_onsite * concentration, axis=-1) + 0j
-        self_cpa_z0, __ = np.broadcast_arrays(self_cpa_z0, z)
+        self_cpa_z0 = np.broadcast_arrays(self_cpa_z0, z)[0].copy()
     else:  # make sure that `self_cpa_z0` has right shape of output for root
         output = np.broadcast(z, e_onsite[..., 0], concentration[..., 0], self_cpa_z0)
-        self_cpa_z0 = np.broadcast_to(self_cpa_z0, shape=output.shape)
+        self_cpa_z0 = np.broadcast_to(self_cpa_z0, shape=output.shape).copy()
     root_eq = partial(restrict_self_root_eq if restricted else self_root_eq,
                       z=z, e_onsite=e_onsite, concentration=concentration,
                       hilbert_trafo=hilbert_trafo)
-- 
2.43.0


From 8f63cb8afdf57c5216f2aaf732b2e8962d12f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 05/13] fix: give the BEB root search its own writable starting
 guess

`restrict_self_root_eq` projects the iterate in place, which fails for the
read-only array of `np.broadcast_to` (method 'df-sane').
---
 gftool/beb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/beb.py b/gftool/beb.py
index 9d5043d..6415d86 100644
--- a/gftool/beb.py
+++ b/gftool/beb.py
@@ -387,7 +387,7 @@ def solve_root(z, e_onsite, concentration, hopping, hilbert_trafo: Callable[[com
             assert np.all(self_beb_z0[diag_idx].imag <= 0)
     else:  # to use in root, self_beb_z0 has to have the correct shape
         output = np.broadcast(z, e_onsite[..., 0], concentration[..., 0], self_beb_z0[..., 0, 0])
-        self_beb_z0 = np.broadcast_to(self_beb_z0, shape=output.shape + np.asarray(hopping).shape)
+        self_beb_z0 = np.broadcast_to(self_beb_z0, shape=output.shape + np.asarray(hopping).shape).copy()
     root_eq = partial(restrict_self_root_eq if restricted else self_root_eq,
                       **self_root_part.keywords)
 
-- 
2.43.0


From 53f47d18eb0579c686c0e4a546f10c0018a57ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 06/13] fix: do not modify the array returned by a user's
 fourier back-end

A back-end which keeps the array it returns (e.g. a memoized one) got its data
overwritten, so further calls gave wrong results; read-only arrays failed.
---
 gftool/fourier.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 839d472..3383ff4 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -387,7 +387,7 @@ def iw2tau(gf_iw, beta, moments=(1.,), fourier=iw2tau_dft, n_fit=0):
     else:
         pole_gf = PoleGf.from_moments(moments[..., newaxis, :])
     gf_iw = gf_iw - pole_gf.eval_z(iws)
-    gf_tau = fourier(gf_iw, beta=beta)
+    gf_tau = fourier(gf_iw, beta=beta).copy()  # array belongs to `fourier`
     tau = np.linspace(0, beta, num=gf_tau.shape[-1])
     gf_tau += pole_gf.eval_tau(tau, beta=beta)
     return gf_tau
@@ -652,7 +652,7 @@ def tau2iv(gf_tau, beta, fourier=tau2iv_ft_lin):
     g1 = (gf_tau[..., -1] - gf_tau[..., 0])  # = 1/z moment = jump of Gf at 0^{±}
     tau = np.linspace(0, beta, num=gf_tau.shape[-1])
     gf_tau = gf_tau - g1[..., newaxis]/beta*tau  # remove jump by linear shift
-    gf_iv = fourier(gf_tau, beta=beta)
+    gf_iv = fourier(gf_tau, beta=beta).copy()  # array belongs to `fourier`
     ivs = matsubara_frequencies_b(range(1, gf_iv.shape[-1]), beta=beta)
     gf_iv[..., 1:] += g1[..., newaxis]/ivs
     gf_iv[..., 0] += .5 * g1 * beta  # `iv_{n=0}` = 0 has to be treated separately
@@ -985,7 +985,7 @@ def tau2iw(gf_tau, beta, n_pole=None, moments=None, fourier=tau2iw_ft_lin):
     pole_gf = PoleGf.from_tau(gf_tau[..., newaxis, :], n_pole=n_pole, beta=beta,
                               moments=moments[..., newaxis, :])
     gf_tau = gf_tau - pole_gf.eval_tau(tau, beta)
-    gf_iw = fourier(gf_tau, beta=beta)
+    gf_iw = fourier(gf_tau, beta=beta).copy()  # array belongs to `fourier`
     iws = matsubara_frequencies(range(gf_iw.shape[-1]), beta=beta)
     gf_iw += pole_gf.eval_z(iws)
     return gf_iw
-- 
2.43.0


From 4ab6e91fadb62cac9792a5ccb99ecc8488aaa349 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 07/13] fix: yield copies in pade.calc_iterator

The arrays handed out were views of the state of the recursion, so a consumer
modifying an approximant in place corrupted all following ones.
---
 gftool/pade.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 01f991f..458824f 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -400,7 +400,7 @@ def calc_iterator(z_out, z_in, coeff):
         B2 = 1 + mult_im
         pade, pade_prev = (pade + mult_im*pade_prev)/B2, pade
 
-        yield pade.reshape(target_shape)
+        yield pade.reshape(target_shape).copy()  # consumer must not alter the recursion
 
 
 def Averager(z_in, coeff, *, valid_pades, kind: KindSelector):
-- 
2.43.0


From a687ad3ed0479c622817140b752c410a8ad204b0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 08/13] fix: Mod_Averager fails without docstrings

With `python -OO` the docstring is None and has no attribute `format`.
---
 gftool/pade.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index 458824f..eb3463d 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -625,7 +625,8 @@ def Mod_Averager(z_in, coeff, mod_fct, *, valid_pades, kind: KindSelector, vecto
             std = _nan_std(mod_pade)
 
         return Result(x=pade_avg, err=std)
-    mod_average.__doc__ = mod_average.__doc__.format(mod_fct=mod_fct)
+    if mod_average.__doc__:  # docstrings are stripped by `python -OO`
+        mod_average.__doc__ = mod_average.__doc__.format(mod_fct=mod_fct)
     return mod_average
 
 
-- 
2.43.0


From 28106ffc12aff8f13e8d66cc7eacfc3615b0a5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:34:33 +0000
Subject: [PATCH 09/13] fix: no calculation with uninitialized memory in the
 retarded pole function

`np.exp(..., where=...)` without `out` leaves the other elements uninitialized,
multiplying these raised spurious floating-point warnings.
---
 gftool/basis/pole.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gftool/basis/pole.py b/gftool/basis/pole.py
index 1ee5c64..0f3be6c 100644
--- a/gftool/basis/pole.py
+++ b/gftool/basis/pole.py
@@ -380,7 +380,8 @@ def gf_tau(tau, poles, weights, beta):
 
 def _single_pole_gf_ret_t(tt, pole):
     """Retarded time Green's function for a single `pole`."""
-    return np.where(tt >= 0, -1j*np.exp(-1j*pole*tt, where=(tt >= 0)), 0)
+    retarded = tt >= 0
+    return np.where(retarded, -1j*np.exp(-1j*pole*np.where(retarded, tt, 0)), 0)
 
 
 def gf_ret_t(tt, poles, weights):
-- 
2.43.0


From 53c2d563d745e8e4cd2130177311b6a66e3f96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Wed, 18 Nov 2026 12:40:01 +0000
Subject: [PATCH 10/13] fix: restrict_self_root_eq must not modify its argument

The functions set the imaginary part of the given self-energy to zero in place,
so evaluating the root equation twice gave different results. Only the root
searches, which own their iterate, keep using the in-place version.
---
 gftool/beb.py | 7 ++++++-
 gftool/cpa.py | 9 +++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/gftool/beb.py b/gftool/beb.py
index 6415d86..8cbb99f 100644
--- a/gftool/beb.py
+++ b/gftool/beb.py
@@ -267,6 +267,11 @@ def self_root_eq(self_beb_z, z, e_onsite, concentration, hopping_dec: SpecDec,
 
 def restrict_self_root_eq(self_beb_z, *args, **kwds):
     """Wrap `self_root_eq` to restrict the solutions to `diagonal(self_beb_z).imag > 0`."""
+    return _restrict_self_root_eq(np.array(self_beb_z), *args, **kwds)
+
+
+def _restrict_self_root_eq(self_beb_z, *args, **kwds):
+    """Projects `self_beb_z` **in place**, the root searches rely on it to converge."""
     diag_idx = (..., np.eye(*self_beb_z.shape[-2:], dtype=bool))
     self_diag = self_beb_z[diag_idx]
     unphysical = self_diag.imag > 0
@@ -388,7 +393,7 @@ def solve_root(z, e_onsite, concentration, hopping, hilbert_trafo: Callable[[com
     else:  # to use in root, self_beb_z0 has to have the correct shape
         output = np.broadcast(z, e_onsite[..., 0], concentration[..., 0], self_beb_z0[..., 0, 0])
         self_beb_z0 = np.broadcast_to(self_beb_z0, shape=output.shape + np.asarray(hopping).shape).copy()
-    root_eq = partial(restrict_self_root_eq if restricted else self_root_eq,
+    root_eq = partial(_restrict_self_root_eq if restricted else self_root_eq,
                       **self_root_part.keywords)
 
     root_kwds.setdefault("method", "krylov")
diff --git a/gftool/cpa.py b/gftool/cpa.py
index 6b0497e..153ba54 100644
--- a/gftool/cpa.py
+++ b/gftool/cpa.py
@@ -148,6 +148,11 @@ def self_fxdpnt_eq(self_cpa_z, z, e_onsite, concentration,
 
 def restrict_self_root_eq(self_cpa_z, *args, **kwds):
     """Wrap `self_root_eq` to restrict the solutions to `self_cpa_z.imag > 0`."""
+    return _restrict_self_root_eq(np.array(self_cpa_z), *args, **kwds)
+
+
+def _restrict_self_root_eq(self_cpa_z, *args, **kwds):
+    """Projects `self_cpa_z` **in place**, the root searches rely on it to converge."""
     unphysical = self_cpa_z.imag > 0
     if np.all(~unphysical):  # no need for restrictions
         return self_root_eq(self_cpa_z, *args, **kwds)
@@ -236,7 +241,7 @@ def solve_root(z, e_onsite, concentration, hilbert_trafo: Callable[[complex], co
     else:  # make sure that `self_cpa_z0` has right shape of output for root
         output = np.broadcast(z, e_onsite[..., 0], concentration[..., 0], self_cpa_z0)
         self_cpa_z0 = np.broadcast_to(self_cpa_z0, shape=output.shape).copy()
-    root_eq = partial(restrict_self_root_eq if restricted else self_root_eq,
+    root_eq = partial(_restrict_self_root_eq if restricted else self_root_eq,
                       z=z, e_onsite=e_onsite, concentration=concentration,
                       hilbert_trafo=hilbert_trafo)
 
@@ -388,7 +393,7 @@ def solve_fxdocc_root(iws, e_onsite, concentration, hilbert_trafo: Callable[[com
     LOGGER.debug("ATA chemical potential: %s", mu)
 
     x0, shapes = _join([mu], self_cpa_nomu.real, self_cpa_nomu.imag)
-    self_root_eq_ = partial(restrict_self_root_eq if restricted else self_root_eq,
+    self_root_eq_ = partial(_restrict_self_root_eq if restricted else self_root_eq,
                             z=iws, concentration=concentration, hilbert_trafo=hilbert_trafo)
 
     def root_eq(mu_selfcpa):
-- 
2.43.0


From 7df739d7f033e12bd1ac018348d905656c92c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:34 +0000
Subject: [PATCH 11/13] fix: Laplace transform phases of extended precision
 with numexpr

numexpr supports no extended precision, so that the transforms raised a
TypeError for such input, only if the optional numexpr is installed.
---
 gftool/fourier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gftool/fourier.py b/gftool/fourier.py
index 3383ff4..c305283 100644
--- a/gftool/fourier.py
+++ b/gftool/fourier.py
@@ -87,6 +87,7 @@ import numpy as np
 from numpy import newaxis
 from scipy.optimize import minimize_scalar
 
+from gftool import _precision
 from gftool._util import _gu_matvec
 from gftool.basis.pole import PoleFct, PoleGf
 from gftool.hermpade import Hermite2, pade
@@ -106,6 +107,8 @@ _trapezoid = np.trapz if int(np.__version__.split('.')[0]) < 2 else np.trapezoid
 
 
 def _phase_numexpr(z, tt):
+    if np.result_type(z, tt) in _precision.PRECISE_TYPES:  # not supported by `numexpr`
+        return _phase_numpy(z, tt)
     return ne.evaluate('exp(1j*z*tt)', local_dict={'z': z, 'tt': tt})
 
 
-- 
2.43.0


From 4599273ec344b3908b56d3b7a19bc142ed86b83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:47 +0000
Subject: [PATCH 12/13] fix: search for the number of poles always ends

For `degree > 0` the number of poles was not reduced if the null-space has
dimension `degree` or `degree + 1`, for `n_poles0=0` it could not grow.
---
 gftool/polepade.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gftool/polepade.py b/gftool/polepade.py
index c02656c..f22ae2b 100644
--- a/gftool/polepade.py
+++ b/gftool/polepade.py
@@ -248,10 +248,10 @@ def number_poles(z, fct_z, *, degree=-1, weight=None, n_poles0: Opt[int] = None,
                 )
                 return n_poles
             # increase number of poles
-            n_poles = min(2*n_poles, max_n_poles)
+            n_poles = min(max(2*n_poles, n_poles + 1), max_n_poles)
         else:  # already too many poles
             max_n_poles = n_poles - 1
-            n_poles = n_poles - (null_dim - degree)//2
+            n_poles = n_poles - max((null_dim - degree)//2, 1)  # make sure the search ends
 
 
 def poles(z, fct_z, *, n: Opt[int] = None, m: int, vandermond=polynomial.polyvander, weight=None):
-- 
2.43.0


From 2df42df3171369fcb8c7f065664a371952d3f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:50 +0000
Subject: [PATCH 13/13] =?UTF-8?q?fix:=20rank=20Pad=C3=A9=20approximants=20?=
 =?UTF-8?q?of=20every=20element=20of=20a=20stack=20on=20its=20own?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

FilterHighVariance (and FilterNegImagNum) mixed up the elements of stacked
input: the approximants removed for one element were removed for all others.
---
 gftool/pade.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gftool/pade.py b/gftool/pade.py
index eb3463d..fc2d083 100644
--- a/gftool/pade.py
+++ b/gftool/pade.py
@@ -179,7 +179,7 @@ def FilterNegImagNum(abs_num=None, rel_num=None):
 
         keep = np.argsort(badness, axis=0)[:abs_num_]  # abs_num_ best results
         is_valid = np.zeros_like(badness, dtype=bool)
-        is_valid[keep] = True
+        np.put_along_axis(is_valid, keep, True, axis=0)
         is_valid[badness <= 0] = True
         LOGGER.debug("Filter Padés with positive imaginary part (keep best %s): %s",
                      abs_num_, np.count_nonzero(is_valid, axis=0))
@@ -232,20 +232,22 @@ def FilterHighVariance(rel_num: Opt[float] = None, abs_num: Opt[int] = None):
         # why iterative?
         # Awful Padés might give wrong features in average, so it should be corrected
         abs_num_ = int(rel_num*N_pades) if abs_num is None else abs_num
-        bad = []  # isin needs list not set
+        bad = np.zeros(pade.shape[:-1], dtype=bool)
         for nn in range(N_pades, abs_num_, -1):
             diff = nn*pade - pade_sum  # 50% of time
             distance = _gu_sum(diff.real**2 + diff.imag**2)  # 40% of time
             badness = np.argsort(distance, axis=0)[::-1]  # truncate what is not needed
-            newbad = badness[np.isin(badness, bad, invert=True)][0]
-            bad.append(newbad)
-            pade_sum -= pade[newbad]
+            # the worst which was not removed yet, for every element of the stack
+            worst = np.argmin(np.take_along_axis(bad, badness, axis=0), axis=0)
+            newbad = np.take_along_axis(badness, worst[np.newaxis], axis=0)
+            np.put_along_axis(bad, newbad, True, axis=0)
+            pade_sum -= np.take_along_axis(pade, newbad[..., np.newaxis], axis=0)[0]
         try:
             is_valid = np.ones_like(distance, dtype=bool)
         except UnboundLocalError:
             LOGGER.warning("Not enough Padés to filter (#Padés = %s)", N_pades)
             return np.ones_like(pade[..., 0], dtype=bool)
-        is_valid[badness[:-abs_num_]] = False
+        np.put_along_axis(is_valid, badness[:-abs_num_], False, axis=0)
         # assert set(badness[:-abs_num_]) == set(bad)  # FIXME
         return is_valid
     return filter_high_variance
-- 
2.43.0

