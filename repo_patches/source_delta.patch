From b5108ebf4c421293c4b3365ebad42c43ff7b2e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 01/47] fix: Observation and GMix equality use both operands'
 parts and sizes

---
 ngmix/gmix/gmix.py   | 3 +++
 ngmix/observation.py | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index e0b8107..67e0193 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -437,6 +437,9 @@ class GMix(object):
         self_data = self.get_data()
         gm_data = gm.get_data()
 
+        if self_data.size != gm_data.size:
+            return False
+
         for n in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
             if not np.all(self_data[n] == gm_data[n]):
                 return False
diff --git a/ngmix/observation.py b/ngmix/observation.py
index e21b580..5caa835 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -763,13 +763,18 @@ class Observation(MetadataMixin):
                 self_has = obs_has = True
             else:
                 self_has = getattr(self, has)()
-                obs_has = getattr(self, has)()
+                obs_has = getattr(obs, has)()
             if self_has or obs_has:
                 if self_has and obs_has:
 
                     self_data = getattr(self, attr)
                     obs_data = getattr(obs, attr)
-                    if not np.all(self_data == obs_data):
+                    if atype == 'array':
+                        # False when the shapes differ
+                        same = np.array_equal(self_data, obs_data)
+                    else:
+                        same = self_data == obs_data
+                    if not same:
                         return False
                 else:
                     return False
-- 
2.43.0


From ce81ed5ab92f186809e30d38936ce07c856fc412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 02/47] fix: a rejected Observation edit leaves the observation
 unchanged

---
 ngmix/observation.py | 65 ++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 5caa835..5c4d1f7 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -7,6 +7,7 @@ import copy
 import numpy as np
 from .jacobian import Jacobian, UnitJacobian, DiagonalJacobian
 from .gmix import GMix
+from .gexceptions import GMixFatalError
 
 from .pixels import make_pixels
 
@@ -341,10 +342,7 @@ class Observation(MetadataMixin):
                     "vs %s" % (image.shape, image_old.shape))
             assert image.shape == image_old.shape, mess
 
-        self._image = image
-
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update('_image', image, update_pixels)
 
     def set_weight(self, weight, update_pixels=True):
         """
@@ -371,9 +369,7 @@ class Observation(MetadataMixin):
         else:
             weight = np.zeros(image.shape) + 1.0
 
-        self._weight = weight
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update('_weight', weight, update_pixels)
 
     def set_mfrac(self, mfrac):
         """
@@ -534,10 +530,7 @@ class Observation(MetadataMixin):
             assert isinstance(jacobian, Jacobian), mess
             jac = jacobian.copy()
 
-        self._jacobian = jac
-
-        if update_pixels:
-            self.update_pixels()
+        self._set_and_update('_jacobian', jac, update_pixels)
 
     def get_jacobian(self):
         """
@@ -553,10 +546,10 @@ class Observation(MetadataMixin):
         """
         Set a psf Observation
         """
-        if self.has_psf():
-            del self._psf
-
-        if psf is not None:
+        if psf is None:
+            if self.has_psf():
+                del self._psf
+        else:
             mess = "psf must be of Observation, got %s" % type(psf)
             assert isinstance(psf, Observation), mess
             self._psf = psf
@@ -602,10 +595,10 @@ class Observation(MetadataMixin):
             The GMix to use to set the internal GMix.
         """
 
-        if self.has_gmix():
-            del self._gmix
-
-        if gmix is not None:
+        if gmix is None:
+            if self.has_gmix():
+                del self._gmix
+        else:
             mess = "gmix must be of type GMix, got %s" % type(gmix)
             assert isinstance(gmix, GMix), mess
             self._gmix = gmix.copy()
@@ -794,9 +787,7 @@ class Observation(MetadataMixin):
         """
         # only update if value is changed
         do_update = False if store_pixels == self._store_pixels else True
-        self._store_pixels = store_pixels
-        if do_update:
-            self.update_pixels()
+        self._set_and_update('_store_pixels', store_pixels, do_update)
 
     @property
     def ignore_zero_weight(self):
@@ -810,9 +801,7 @@ class Observation(MetadataMixin):
         calls update_pixels after ignore_zero_weight is set if needed
         """
         do_update = False if ignore_zero_weight == self._ignore_zero_weight else True
-        self._ignore_zero_weight = ignore_zero_weight
-        if do_update:
-            self.update_pixels()
+        self._set_and_update('_ignore_zero_weight', ignore_zero_weight, do_update)
 
     def update_pixels(self):
         """
@@ -832,6 +821,25 @@ class Observation(MetadataMixin):
         pixels.flags['WRITEABLE'] = False
         self._pixels = pixels
 
+    def _set_and_update(self, name, value, update_pixels):
+        """
+        set the attribute and optionally update the pixels.  If the pixels
+        cannot be made with the new value, the old one is kept
+        """
+        had_value = hasattr(self, name)
+        old_value = getattr(self, name, None)
+
+        setattr(self, name, value)
+        if update_pixels:
+            try:
+                self.update_pixels()
+            except Exception:
+                if had_value:
+                    setattr(self, name, old_value)
+                else:
+                    delattr(self, name)
+                raise
+
     def _get_view(self, data):
         """return a view of some numpy data.
 
@@ -860,7 +868,12 @@ class Observation(MetadataMixin):
 
     def __exit__(self, exception_type, exception_value, traceback):
         self._writeable = False
-        self.update_pixels()
+        try:
+            self.update_pixels()
+        except GMixFatalError:
+            # the old pixels do not represent the current data
+            self._pixels = None
+            raise
 
 
 class ObsList(list, MetadataMixin):
-- 
2.43.0


From f7d66489db39ea1f930f628eb51718eddfb9ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 03/47] fix: dilated psf and target psf do not share cache
 entries

---
 ngmix/metacal/metacal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index dbf3a3d..ae34cd2 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -305,7 +305,8 @@ class MetacalDilatePSF(object):
         return psf_grown
 
     def _do_dilate(self, psf, shear, doshear=False):
-        key = self._get_psf_key(shear, doshear)
+        # the same key is used for the image and object in get_target_psf
+        key = 'dilated-' + self._get_psf_key(shear, doshear)
         if key not in self._psf_cache:
             self._psf_cache[key] = _do_dilate(psf, shear)
 
-- 
2.43.0


From eb8a713cb171471c14c6c8af62c869fbb0f6d9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:44 +0000
Subject: [PATCH 04/47] fix: MetacalFitGaussPSF does not write its fit into the
 caller's psf

---
 ngmix/metacal/metacal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ngmix/metacal/metacal.py b/ngmix/metacal/metacal.py
index ae34cd2..aada6e9 100644
--- a/ngmix/metacal/metacal.py
+++ b/ngmix/metacal/metacal.py
@@ -685,7 +685,10 @@ class MetacalFitGaussPSF(MetacalGaussPSF):
         # try adaptive moments first
         fitter = AdmomFitter(rng=self.rng)
 
-        res = run_psf_fitter(obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry)
+        res = run_psf_fitter(
+            obs=psfobs, fitter=fitter, guesser=guesser, ntry=ntry,
+            set_result=False,
+        )
 
         if res['flags'] == 0:
             e1, e2 = res['e']
-- 
2.43.0


From d6f311b426ed10a0a9573a9655e915caa9579c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 05/47] fix: psf flux guessers do not reuse the fluxes of
 another or a changed observation

---
 ngmix/guessers.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index 90d1d98..ea8f260 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -93,16 +93,11 @@ class TPSFFluxGuesser(object):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
 
     def _get_psf_fluxes(self, obs):
-        oid = id(obs)
-        if oid != self._id_last:
-            self._id_last = oid
-            fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
-            self._psf_fluxes = fdict['flux']
-        return self._psf_fluxes
+        # always calculated: the id of the obs does not identify its data
+        fdict = _get_psf_fluxes(rng=self.rng, obs=obs)
+        return fdict['flux']
 
     def __call__(self, obs, nrand=1):
         """
@@ -162,8 +157,6 @@ class TPSFFluxAndPriorGuesser(TPSFFluxGuesser):
         self.rng = rng
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
 
     def __call__(self, obs, nrand=1):
         """
@@ -337,8 +330,6 @@ class BDFPSFFluxGuesser(TPSFFluxGuesser):
     def __init__(self, T, prior):
         self.T = T
         self.prior = prior
-        self._id_last = None
-        self._psf_fluxes = None
         self.rng = self.prior.cen_prior.rng
 
     def __call__(self, obs, nrand=1):
-- 
2.43.0


From 3ff11e85056799e151c877e89e1397789d7f82ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 06/47] fix: copies of named mixtures keep the current
 components

GMixModel, GMixCM and GMixCoellip were copied from the parameters they were
built with, so a copy lost changes made with set_flux, and the changes made by
get_sheared and make_round
---
 ngmix/gmix/gmix.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 67e0193..6c19e58 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -937,6 +937,7 @@ class GMixModel(GMix):
         Get a new GMix with the same parameters
         """
         gmix = GMixModel(self._pars, self._model_name)
+        gmix._data[:] = self._data[:]
         return gmix
 
     def set_cen(self, row, col):
@@ -979,7 +980,9 @@ class GMixCM(GMixModel):
         """
         Get a new GMix with the same parameters
         """
-        return GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        gmix = GMixCM(self._fracdev, self._TdByTe, self._pars,)
+        gmix._data[:] = self._data[:]
+        return gmix
 
     def _fill(self, pars):
         """
@@ -1064,6 +1067,7 @@ class GMixCoellip(GMixModel):
         Get a new GMix with the same parameters
         """
         gmix = GMixCoellip(self._pars)
+        gmix._data[:] = self._data[:]
         return gmix
 
 
-- 
2.43.0


From 531a5177e4d11f47b80e6b94d3b4a281ec17b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 07/47] fix: make_round updates the determinants

the normalizations were calculated with the determinants of the original
mixture
---
 ngmix/gmix/gmix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index 6c19e58..f16f422 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -583,6 +583,7 @@ class GMix(object):
             gdata["irc"][i] = 0.0
             gdata["irr"][i] = 0.5 * Ti * factor
             gdata["icc"][i] = 0.5 * Ti * factor
+            gdata["det"][i] = gdata["irr"][i] * gdata["icc"][i]
 
         return gm
 
-- 
2.43.0


From 93af43450d72447a971ad515aa92b3b60dbce8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 08/47] fix: norms are not marked set when setting them failed

if a gaussian other than the first had a bad covariance, the first attempt to
evaluate the mixture raised GMixRangeError but later ones used nan norms
---
 ngmix/gmix/gmix_nb.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ngmix/gmix/gmix_nb.py b/ngmix/gmix/gmix_nb.py
index c444e26..ae621b8 100644
--- a/ngmix/gmix/gmix_nb.py
+++ b/ngmix/gmix/gmix_nb.py
@@ -174,8 +174,10 @@ def gmix_set_norms(gmix):
     gmix:
        gaussian mixture
     """
-    for gauss in gmix:
-        gauss2d_set_norm(gauss)
+    # the flag of the first gaussian is the one checked to see if the norms are
+    # set, so it must be the last to be set
+    for i in range(gmix.size - 1, -1, -1):
+        gauss2d_set_norm(gmix[i])
 
 
 @njit
-- 
2.43.0


From ce1a1a569c073b3b12c7da6eca60505723a6afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:09 +0000
Subject: [PATCH 09/47] fix: get_model_ngauss accepts the names of all models

'cm', 'bd', 'bdf' and 'bdc' were only known by number
---
 ngmix/gmix/gmix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index f16f422..d275e60 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -1152,9 +1152,13 @@ _gmix_ngauss_dict = {
     GMIX_DEV: 10,
     "dev": 10,
     GMIX_CM: 16,
+    "cm": 16,
     GMIX_BD: 16,
+    "bd": 16,
     GMIX_BDF: 16,
+    "bdf": 16,
     GMIX_BDC: 16,
+    "bdc": 16,
     "em1": 1,
     "em2": 2,
     "em3": 3,
-- 
2.43.0


From 8a94397d3d82d83295a808054818bbcd56c83658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 10/47] fix: a refused fill leaves the parameters of a mixture
 as they were

the components were unchanged but the parameters were replaced, and copying
the mixture then failed
---
 ngmix/gmix/gmix.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ngmix/gmix/gmix.py b/ngmix/gmix/gmix.py
index d275e60..21a17b0 100644
--- a/ngmix/gmix/gmix.py
+++ b/ngmix/gmix/gmix.py
@@ -404,12 +404,14 @@ class GMix(object):
             The parameters
         """
 
-        self._pars[:] = pars
+        new_pars = np.zeros(self._npars)
+        new_pars[:] = pars
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._pars,
+            gm, new_pars,
         )
+        self._pars = new_pars
 
     def copy(self):
         """
@@ -996,12 +998,14 @@ class GMixCM(GMixModel):
             The parameters
         """
 
-        self._pars[:] = pars
+        new_pars = np.zeros(self._npars)
+        new_pars[:] = pars
 
         gm = self.get_data()
         self._fill_func(
-            gm, self._fracdev, self._TdByTe, self._Tfactor, self._pars,
+            gm, self._fracdev, self._TdByTe, self._Tfactor, new_pars,
         )
+        self._pars = new_pars
 
     def __repr__(self):
         rep = super(GMixCM, self).__repr__()
-- 
2.43.0


From c90912eb89451d89ac0d618b984ccbde8cde1b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 11/47] fix: a refused recentring of a Jacobian leaves the
 centre as it was

---
 ngmix/jacobian/jacobian.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ngmix/jacobian/jacobian.py b/ngmix/jacobian/jacobian.py
index 044525a..61f1250 100644
--- a/ngmix/jacobian/jacobian.py
+++ b/ngmix/jacobian/jacobian.py
@@ -211,14 +211,15 @@ class Jacobian(object):
         """
 
         if 'row' in kw:
-            self._data['row0'] = kw['row']
-            self._data['col0'] = kw['col']
+            row0, col0 = kw['row'], kw['col']
         elif 'x' in kw:
-            self._data['row0'] = kw['y']
-            self._data['col0'] = kw['x']
+            row0, col0 = kw['y'], kw['x']
         else:
             raise ValueError("expected row=,col= or x=,y=")
 
+        self._data['row0'] = row0
+        self._data['col0'] = col0
+
     def copy(self):
         """
         get a new Jacobian with the same values as self
-- 
2.43.0


From 590afc61af69dd8540dd22a102852935b440daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 12/47] fix: a refused Shape.set_g1g2 leaves the shape as it
 was

---
 ngmix/shape.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ngmix/shape.py b/ngmix/shape.py
index f05c125..c33fa16 100644
--- a/ngmix/shape.py
+++ b/ngmix/shape.py
@@ -74,12 +74,12 @@ class Shape(object):
         g1,g2: scalar
             "reduced shear" shapes
         """
-        self.g1 = g1
-        self.g2 = g2
-
         g = numpy.sqrt(g1 * g1 + g2 * g2)
         if g >= 1.0:
             raise GMixRangeError("g out of range: %.16g" % g)
+
+        self.g1 = g1
+        self.g2 = g2
         self.g = g
 
     def get_sheared(self, s1, s2=None):
-- 
2.43.0


From a8b5a68c7d9c6f1a66604cdb38b070bbedadf79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 13/47] fix: the error of a ratio with zero numerator is finite

---
 ngmix/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ngmix/util.py b/ngmix/util.py
index 3bfb67d..7c7ce15 100644
--- a/ngmix/util.py
+++ b/ngmix/util.py
@@ -62,9 +62,10 @@ def get_ratio_var(a, b, var_a, var_b, cov_ab):
     if np.any(b == 0):
         raise ValueError("zero in denominator")
 
-    rsq = (a/b)**2
+    # written so that a is not in a denominator: a == 0 is a good value
+    r = a/b
 
-    var = rsq * (var_a/a**2 + var_b/b**2 - 2*cov_ab/(a*b))
+    var = (var_a + r**2 * var_b - 2*r*cov_ab) / b**2
     return var
 
 
-- 
2.43.0


From 27e329f31330c5a3454a4084f09820ce16b1f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:23 +0000
Subject: [PATCH 14/47] fix: adaptive moments do not change the guess they are
 given

---
 ngmix/admom/admom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/admom/admom.py b/ngmix/admom/admom.py
index 771d672..0fa2ca3 100644
--- a/ngmix/admom/admom.py
+++ b/ngmix/admom/admom.py
@@ -361,7 +361,8 @@ class AdmomFitter(object):
 
     def _get_guess(self, obs, guess):
         if isinstance(guess, GMix):
-            guess_gmix = guess
+            # the weight is updated in place as the fit proceeds
+            guess_gmix = guess.copy()
         else:
             Tguess = guess  # noqa
             guess_gmix = self._generate_guess(obs=obs, Tguess=Tguess)
-- 
2.43.0


From e62406c73477adbc3d7dfa1503d43d6476e0ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 15/47] fix: covariance of bounded fits with recent scipy

scipy's leastsq returns a zero based permutation, but the bounded path took
one from it, so the covariance of fits with bounds had its rows and columns
permuted.
---
 ngmix/fitting/leastsqbound.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index cfee383..fbe3b6a 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -532,15 +532,16 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     x = i2e(retval[0])  # internal params to external params
 
     if full_output:
+        # the permutation starts at 1 or at 0, depending on the scipy version
+        ipvt = retval[1]['ipvt'] - retval[1]['ipvt'].min()
         # convert fjac from internal params to external
         grad = _internal2external_grad(retval[0], bounds)
-        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad,
-                             retval[1]['ipvt'] - 1)).T
+        retval[1]['fjac'] = (retval[1]['fjac'].T / take(grad, ipvt)).T
         cov_x = None
         if info in [1, 2, 3, 4]:
             from numpy.linalg import inv
             from numpy.linalg import LinAlgError
-            perm = take(eye(n), retval[1]['ipvt'] - 1, 0)
+            perm = take(eye(n), ipvt, 0)
             r = triu(transpose(retval[1]['fjac'])[:n, :])
             R = dot(r, perm)
             try:
-- 
2.43.0


From a407b2ba1cda2c58853685d74df1960cdcb28ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 16/47] fix: failed least squares runs return every entry of
 the result

When leastsq raised, run_leastsq returned a result without pars_err and ier.
---
 ngmix/fitting/leastsqbound.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index fbe3b6a..f3a3ee6 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -133,7 +133,9 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
             res["pars"] = pars
             res["pars_cov0"] = pcov
             res["pars_cov"] = pcov
+            res["pars_err"] = perr
             res["nfev"] = -1
+            res["ier"] = -1
             res["flags"] = LM_FUNC_NOTFINITE
             res["errmsg"] = "not finite"
             LOGGER.debug("not finite")
@@ -146,7 +148,9 @@ def run_leastsq(func, guess, n_prior_pars, **keys):
         res["pars"] = pars
         res["pars_cov0"] = pcov
         res["pars_cov"] = pcov
+        res["pars_err"] = perr
         res["nfev"] = -1
+        res["ier"] = -1
 
         res["flags"] = DIV_ZERO
         res["errmsg"] = "zero division"
-- 
2.43.0


From 0091841199cb055e07a2d688ee8e1e06455adc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:32 +0000
Subject: [PATCH 17/47] fix: bounded least squares stays in its bounds

The transform from internal parameters could leave the bounds by rounding.
---
 ngmix/fitting/leastsqbound.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index f3a3ee6..b57d9ca 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -12,7 +12,7 @@ import logging
 import warnings
 
 from numpy import take, eye, triu, transpose, dot, finfo
-from numpy import empty_like, sqrt, cos, sin, arcsin, asarray
+from numpy import empty_like, sqrt, cos, sin, arcsin, asarray, minimum
 from numpy import atleast_1d, shape, issubdtype, dtype, inexact
 from scipy.optimize import _minpack, leastsq
 from ..util import print_pars
@@ -228,11 +228,14 @@ def _internal2external_lambda(bound):
     if lower is None and upper is None:  # no constraints
         return lambda x: x
     elif upper is None:     # only lower bound
-        return lambda x: lower - 1. + sqrt(x * x + 1.)
+        return lambda x: lower + (sqrt(x * x + 1.) - 1.)
     elif lower is None:     # only upper bound
-        return lambda x: upper + 1. - sqrt(x * x + 1.)
+        return lambda x: upper - (sqrt(x * x + 1.) - 1.)
     else:
-        return lambda x: lower + ((upper - lower) / 2.) * (sin(x) + 1.)
+        # rounding may not carry the parameter beyond the upper bound
+        return lambda x: minimum(
+            lower + ((upper - lower) / 2.) * (sin(x) + 1.), upper
+        )
 
 
 def _external2internal_func(bounds):
-- 
2.43.0


From 5b4cfe59a764b5cf316e47c58a9fddd521dd66a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 18/47] fix: bounded least squares truncated an integer guess

---
 ngmix/fitting/leastsqbound.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/leastsqbound.py b/ngmix/fitting/leastsqbound.py
index b57d9ca..e2b01f9 100644
--- a/ngmix/fitting/leastsqbound.py
+++ b/ngmix/fitting/leastsqbound.py
@@ -457,7 +457,7 @@ def leastsqbound(func, x0, args=(), bounds=None, Dfun=None, full_output=0,
     i2e = _internal2external_func(bounds)
     e2i = _external2internal_func(bounds)
 
-    x0 = asarray(x0).flatten()
+    x0 = asarray(x0, dtype=float).flatten()
     i0 = e2i(x0)
     n = len(x0)
     if len(bounds) != n:
-- 
2.43.0


From c45a5f0d77fcfe575a607cf1ebb504a956d532d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 19/47] fix: FlatPrior.get_lnprob_array returns one value per
 point

---
 ngmix/priors/priors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 54001a8..1e25393 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -137,7 +137,7 @@ class FlatPrior(PriorBase):
                 "[%s,%s]" % (self.minval, self.maxval)
             )
 
-        return retval
+        return vals*0 + retval
 
     def get_fdiff(self, val):
         """
-- 
2.43.0


From a8d973b9787048d13e693e3bfd30906f4f4f5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 20/47] fix: TruncatedGaussian.get_lnprob_array raises out of
 range as documented

It returned -inf, also at the limits themselves, which are in range for the
scalar forms.
---
 ngmix/priors/priors.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ngmix/priors/priors.py b/ngmix/priors/priors.py
index 1e25393..574cb76 100644
--- a/ngmix/priors/priors.py
+++ b/ngmix/priors/priors.py
@@ -1103,14 +1103,11 @@ class TruncatedGaussian(PriorBase):
         val: array
             The locations at which to evaluate
         """
-        lnp = np.zeros(val.size)
-        lnp -= np.inf
-        (w,) = np.where((val > self.minval) & (val < self.maxval))
+        (w,) = np.where((val < self.minval) | (val > self.maxval))
         if w.size > 0:
-            diff = val[w] - self.mean
-            lnp[w] = -0.5 * diff * diff * self.ivar
-
-        return lnp
+            raise GMixRangeError("values were out of range")
+        diff = val - self.mean
+        return -0.5 * diff * diff * self.ivar
 
     def get_fdiff(self, val):
         """
-- 
2.43.0


From 4b9bbca76141855bd06b945e174ae2e514a730a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 21/47] fix: CenPrior.get_prob_array works for arrays

---
 ngmix/priors/multivariate.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ngmix/priors/multivariate.py b/ngmix/priors/multivariate.py
index 755eea7..a0c9055 100644
--- a/ngmix/priors/multivariate.py
+++ b/ngmix/priors/multivariate.py
@@ -2,6 +2,8 @@
 Convention is that all priors should have peak ln(prob)==0. This
 helps use in priors for LM fitting
 """
+import numpy as np
+
 from .priors import PriorBase
 
 
@@ -61,6 +63,8 @@ class CenPrior(PriorBase):
         d2 = self.cen2 - x2
         return -0.5 * d1 * d1 * self.s2inv1 - 0.5 * d2 * d2 * self.s2inv2
 
+    get_lnprob_array = get_lnprob_scalar
+
     def get_lnprob_scalar_sep(self, x1, x2):
         """
         log probability at the specified point, but separately
@@ -81,8 +85,11 @@ class CenPrior(PriorBase):
         lnp = -0.5 * d1 * d1 * self.s2inv1 - 0.5 * d2 * d2 * self.s2inv2
         return exp(lnp)
 
-    get_prob_array = get_prob_scalar
-    get_lnprob_array = get_lnprob_scalar
+    def get_prob_array(self, x1, x2):
+        """
+        probability at the specified points
+        """
+        return np.exp(self.get_lnprob_array(x1, x2))
 
     def sample(self, nrand=None):
         """
-- 
2.43.0


From 9cd86c18dcc7b54bb8b190cf92d8ecc2b9eb8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 22/47] fix: GPriorBA samples follow the prior for any width

The numerical search for the peak of the 1d prior found none when it started
where the prior is flat: for narrow priors (sample2d) and wide ones (sample1d)
the samples were then uniform.
---
 ngmix/priors/shape.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index 37d742d..0230260 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -517,6 +517,22 @@ class GPriorBA(GPriorBase):
         self.sig2inv = 1.0 / self.sig2
         self.sig4inv = 1.0 / self.sig4
 
+    def set_maxval1d(self, maxguess=None):
+        """
+        Set the max value of the 1d distribution, which is known analytically
+
+        parameters
+        ----------
+        maxguess: float
+            Not used
+        """
+        # the root in [0, 1) of the derivative, a quadratic in g^2
+        b = 1.0 + 5.0 * self.sig2
+        gsq = 2.0 * self.sig2 / (b + sqrt(b ** 2 - 4.0 * self.sig2))
+
+        self.maxval1d_loc = sqrt(gsq)
+        self.maxval1d = self.get_prob_scalar1d(self.maxval1d_loc)
+
     def get_fdiff(self, g1, g2):
         """
         Compute sqrt(-2ln(p)) ~ (data - mode)/err for using with LM fitters.
-- 
2.43.0


From 748dcc28f5ff6ab945f5415766524df8e77be5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 23/47] fix: GPriorBA forgets the peak value when its
 parameters change

---
 ngmix/priors/shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ngmix/priors/shape.py b/ngmix/priors/shape.py
index 0230260..1d27ab2 100644
--- a/ngmix/priors/shape.py
+++ b/ngmix/priors/shape.py
@@ -516,6 +516,9 @@ class GPriorBA(GPriorBase):
         self.sig4 = self.sigma ** 4
         self.sig2inv = 1.0 / self.sig2
         self.sig4inv = 1.0 / self.sig4
+        # no longer the peak
+        if hasattr(self, "maxval1d"):
+            del self.maxval1d
 
     def set_maxval1d(self, maxguess=None):
         """
-- 
2.43.0


From 7d9950165f3df41b24e31618f6a98ead1cf3151c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 24/47] fix: joint bulge+disk priors accept a tuple of flux
 priors

---
 ngmix/joint_prior.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 69c478a..8b264dc 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -301,6 +301,7 @@ class PriorBDSep(PriorSimpleSep):
         self.fracdev_prior = fracdev_prior
 
         if isinstance(F_prior, (list, tuple)):
+            F_prior = list(F_prior)
             self.nband = len(F_prior)
         else:
             self.nband = 1
@@ -507,6 +508,7 @@ class PriorBDFSep(PriorSimpleSep):
         self.fracdev_prior = fracdev_prior
 
         if isinstance(F_prior, (list, tuple)):
+            F_prior = list(F_prior)
             self.nband = len(F_prior)
         else:
             self.nband = 1
-- 
2.43.0


From d28f040fe65287fb6ceef09727dbb1589c586988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 25/47] fix: PriorCoellipSame lists its bounds one per
 parameter

---
 ngmix/joint_prior.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 8b264dc..9c1f0c0 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -902,16 +902,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         some_have_bounds = False
 
-        allp = [self.T_prior]*ngauss + self.F_priors
+        allp = [self.T_prior]*ngauss + self.F_priors*ngauss
 
         for i, p in enumerate(allp):
             if p.has_bounds():
                 some_have_bounds = True
-                pbounds = [(p.bounds[0], p.bounds[1])]
+                bounds.append((p.bounds[0], p.bounds[1]))
             else:
-                pbounds = [(None, None)]
-
-            bounds += [pbounds] * self.ngauss
+                bounds.append((None, None))
 
         if not some_have_bounds:
             bounds = None
-- 
2.43.0


From 5cd300f63f382bde74f45cf2e4b2da2adbcaf705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 26/47] fix: PriorCoellipSame.sample drew the first size as a
 sum of two

---
 ngmix/joint_prior.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 9c1f0c0..2722eac 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -1011,16 +1011,14 @@ class PriorCoellipSame(PriorSimpleSep):
 
         cen1, cen2 = self.cen_prior.sample(nrand)
         g1, g2 = self.g_prior.sample2d(nrand)
-        T = self.T_prior.sample(nrand)
 
         samples[:, 0] = cen1
         samples[:, 1] = cen2
         samples[:, 2] = g1
         samples[:, 3] = g2
-        samples[:, 4] = T
 
         for i in range(ngauss):
-            samples[:, 4+i] += self.T_prior.sample(nrand)
+            samples[:, 4 + i] = self.T_prior.sample(nrand)
 
         F_prior = self.F_priors[0]
         for i in range(ngauss):
-- 
2.43.0


From 14006da1bbad255f3d5469d477762a072949a0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:29 +0000
Subject: [PATCH 27/47] fix: PriorCoellipSame.get_lnprob_array uses all of the
 components

---
 ngmix/joint_prior.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/ngmix/joint_prior.py b/ngmix/joint_prior.py
index 2722eac..740f493 100644
--- a/ngmix/joint_prior.py
+++ b/ngmix/joint_prior.py
@@ -943,6 +943,35 @@ class PriorCoellipSame(PriorSimpleSep):
 
         return lnp
 
+    def get_lnprob_array(self, pars):
+        """
+        log probability for array input [N,ndims]
+
+        Parameters
+        ----------
+        pars: array
+            Array of parameters values
+        """
+
+        if pars.shape[1] != self.npars:
+            raise ValueError(
+                'pars size %d expected %d' % (pars.shape[1], self.npars)
+            )
+
+        ngauss = self.ngauss
+
+        lnp = self.cen_prior.get_lnprob_array(pars[:, 0], pars[:, 1])
+        lnp += self.g_prior.get_lnprob_array2d(pars[:, 2], pars[:, 3])
+
+        for i in range(ngauss):
+            lnp += self.T_prior.get_lnprob_array(pars[:, 4 + i])
+
+        F_prior = self.F_priors[0]
+        for i in range(ngauss):
+            lnp += F_prior.get_lnprob_array(pars[:, 4 + ngauss + i])
+
+        return lnp
+
     def fill_fdiff(self, pars, fdiff):
         """
         set sqrt(-2ln(p)) ~ (model-data)/err
-- 
2.43.0


From 2523073f1cbe0b0478da0e0e0e788ad2a4aae818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:26 +0000
Subject: [PATCH 28/47] fix: BDGuesser put its fracdev guess in place of
 logTratio

---
 ngmix/guessers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index ea8f260..c35aef6 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -463,7 +463,7 @@ class BDGuesser(object):
         guess[:, 4] = self.T * (1.0 + r)
 
         # fracdev prior
-        guess[:, 5] = rng.uniform(low=0.4, high=0.6, size=nrand)
+        guess[:, 6] = rng.uniform(low=0.4, high=0.6, size=nrand)
 
         for band in range(nband):
             r = rng.uniform(low=-0.1, high=0.1, size=nrand)
-- 
2.43.0


From f1b30135dae8f6d1230bfc2ffbb7b687371aa22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 29/47] fix: psf mixture guesses are valid for small pixels

The off-diagonal moments of guesses with three or more gaussians were drawn in
an absolute range, so for pixels of less than about 0.1 most guesses had
impossible covariances.
---
 ngmix/guessers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/ngmix/guessers.py b/ngmix/guessers.py
index c35aef6..849b992 100644
--- a/ngmix/guessers.py
+++ b/ngmix/guessers.py
@@ -919,21 +919,21 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em3_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em3_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em3_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em3_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -949,28 +949,28 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em4_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em4_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em4_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em4_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
@@ -986,35 +986,35 @@ class GMixPSFGuesser(object):
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[0] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[1] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[1] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
 
             flux * _em5_pguess[2] * (1.0 + rng.uniform(low=-0.1, high=0.1)),
             rng.uniform(low=-0.1, high=0.1),
             rng.uniform(low=-0.1, high=0.1),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
-            rng.uniform(low=-0.01, high=0.01),
+            rng.uniform(low=-0.05 * sigma2, high=0.05 * sigma2),
             _em5_fguess[2] * sigma2 * (1.0 + rng.uniform(low=-0.1, high=0.1)),
         ])
 
-- 
2.43.0


From 1c3925fcb94582bd8e53be93437deb4a0fcef6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 30/47] fix: flux of spergel and moffat fits was the shape
 parameter

---
 ngmix/fitting/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index d6642b2..960fb7a 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -859,7 +859,7 @@ def _set_flux(res, nband):
 
     if model == 'bd':
         start = 7
-    elif model == 'bdf':
+    elif model in ['bdf', 'spergel', 'moffat']:
         start = 6
     else:
         start = 5
-- 
2.43.0


From 80d294335d99bc0cf51b04503ea17849aa7c9d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:56 +0000
Subject: [PATCH 31/47] fix: galsim fits treat a shape on the unit circle as
 out of range

---
 ngmix/fitting/galsim_results.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index c58d03d..140c517 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -133,6 +133,10 @@ class GalsimFitModel(FitModel):
         g1 = pars[2]
         g2 = pars[3]
 
+        # galsim accepts |g| == 1 but cannot draw it
+        if g1 ** 2 + g2 ** 2 >= 1:
+            raise GMixRangeError("g >= 1: %g %g" % (g1, g2))
+
         # argh another generic error
         try:
             model = model.shear(g1=g1, g2=g2)
-- 
2.43.0


From 527e232293ad7438f9ffecc894e4a4234c826cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:13 +0000
Subject: [PATCH 32/47] fix: fits convolve each epoch with its own psf, not as
 the first epoch does

---
 ngmix/fitting/results.py | 37 +++++++------------------------------
 1 file changed, 7 insertions(+), 30 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 960fb7a..4263b33 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -265,11 +265,6 @@ class FitModel(dict):
         initialize the list of lists of gaussian mixtures
         """
 
-        if self.obs[0][0].has_psf_gmix():
-            self.dopsf = True
-        else:
-            self.dopsf = False
-
         gmix_all0 = MultiBandGMixList()
         gmix_all = MultiBandGMixList()
 
@@ -282,7 +277,7 @@ class FitModel(dict):
 
             for obs in obs_list:
                 gm0 = self._make_model(band_pars)
-                if self.dopsf:
+                if obs.has_psf_gmix():
                     psf_gmix = obs.psf.gmix
                     gm = gm0.convolve(psf_gmix)
                 else:
@@ -310,10 +305,6 @@ class FitModel(dict):
         Fill the list of lists of gmix objects for the given parameters
         """
 
-        if not self.dopsf:
-            self._fill_gmix_all_nopsf(pars)
-            return
-
         for band, obs_list in enumerate(self.obs):
             gmix_list0 = self._gmix_all0[band]
             gmix_list = self._gmix_all[band]
@@ -322,29 +313,15 @@ class FitModel(dict):
 
             for i, obs in enumerate(obs_list):
 
-                psf_gmix = obs.psf.gmix
-
-                gm0 = gmix_list0[i]
                 gm = gmix_list[i]
 
-                gm0._fill(band_pars)
-                self._convolve_gmix(gm, gm0, psf_gmix)
-
-    def _fill_gmix_all_nopsf(self, pars):
-        """
-        Fill the list of lists of gmix objects for the given parameters
-        """
-
-        for band, obs_list in enumerate(self.obs):
-            gmix_list = self._gmix_all[band]
+                if obs.has_psf_gmix():
+                    gm0 = gmix_list0[i]
 
-            band_pars = self.get_band_pars(pars=pars, band=band)
-
-            for i, obs in enumerate(obs_list):
-
-                gm = gmix_list[i]
-
-                gm._fill(band_pars)
+                    gm0._fill(band_pars)
+                    self._convolve_gmix(gm, gm0, obs.psf.gmix)
+                else:
+                    gm._fill(band_pars)
 
     def _get_priors(self, pars):
         """
-- 
2.43.0


From 5465265a348d4ba4a786dc1bafa0a04bf0730d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:52 +0000
Subject: [PATCH 33/47] fix: residuals of simple fits with a prior had a
 spurious last entry

---
 ngmix/fitting/results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 4263b33..7d09bc9 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -809,8 +809,8 @@ def get_lm_n_prior_pars(model, nband):
         # center1 + center2 + shape + T + fracdev + fluxes
         npp = 1 + 1 + 1 + 1 + 1 + nband
     elif model in ['exp', 'dev', 'gauss', 'turb']:
-        # simple models
-        npp = 1 + 1 + 1 + 1 + 1 + nband
+        # center1 + center2 + shape + T + fluxes
+        npp = 1 + 1 + 1 + 1 + nband
     else:
         raise ValueError('bad model: %s' % model)
 
-- 
2.43.0


From 49a033ec9325d055d34696c8eb026766896571bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 34/47] fix: template fluxes use only the pixels with positive
 weight

---
 ngmix/fitting/results.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 7d09bc9..cec0ffe 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -558,15 +558,17 @@ class PSFFluxFitModel(dict):
             for iobs in range(nobs):
                 obs = self.obs[iobs]
 
-                im = obs.image
-                wt = obs.weight
+                # only pixels with positive weight are used
+                w = np.where(obs.weight > 0)
+                im = obs.image[w]
+                wt = obs.weight[w]
 
                 if ipass == 1:
-                    model = self._get_model(iobs)
+                    model = self._get_model(iobs)[w]
                     xcorr_sum += (model * im * wt).sum()
                     msq_sum += (model * model * wt).sum()
                 else:
-                    model = self._get_model(iobs, flux=flux)
+                    model = self._get_model(iobs, flux=flux)[w]
 
                     chi2 += self._get_chi2(model, im, wt)
 
-- 
2.43.0


From 257c039f40f17d6c5d47247f0a9b5e870281f82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:36 +0000
Subject: [PATCH 35/47] fix: template fluxes with an infinite error are flagged

---
 ngmix/fitting/results.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index cec0ffe..5af52c5 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -591,7 +591,7 @@ class PSFFluxFitModel(dict):
         else:
 
             arg = chi2 / msq_sum / (self.totpix - 1)
-            if arg >= 0.0:
+            if np.isfinite(arg) and arg >= 0.0:
                 flux_err = np.sqrt(arg)
             else:
                 flags |= BAD_VAR
-- 
2.43.0


From 3fec6fd4d79a179a27a3f798be6f6bb3fef907dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:37 +0000
Subject: [PATCH 36/47] fix: galsim template fluxes got chi^2 from a rescaled
 template

---
 ngmix/fitting/galsim_results.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/fitting/galsim_results.py b/ngmix/fitting/galsim_results.py
index 140c517..f10ac47 100644
--- a/ngmix/fitting/galsim_results.py
+++ b/ngmix/fitting/galsim_results.py
@@ -538,8 +538,8 @@ class GalsimPSFFitModel(PSFFluxFitModel):
         """
 
         if flux is not None:
-            model = self.template_list[iobs].copy()
-            model *= flux / model.sum()
+            # templates are normalized, even when part is out of the image
+            model = self.template_list[iobs] * flux
         else:
             model = self.template_list[iobs]
 
-- 
2.43.0


From ef004e0b7fcb8dc89362b3bb23037cde77717867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 37/47] fix: template fluxes of templates whose sum is zero

The model for the chi squared was the template rescaled to a sum of
norm * flux, which is nan when the template, used as it was given, sums to
zero.  The model is the flux times the template.
---
 ngmix/fitting/results.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ngmix/fitting/results.py b/ngmix/fitting/results.py
index 5af52c5..438471a 100644
--- a/ngmix/fitting/results.py
+++ b/ngmix/fitting/results.py
@@ -620,9 +620,7 @@ class PSFFluxFitModel(dict):
         """
         if self.use_template:
             if flux is not None:
-                model = self.template_list[iobs].copy()
-                norm = self.norm_list[iobs]
-                model *= (norm * flux) / model.sum()
+                model = self.template_list[iobs] * flux
             else:
                 model = self.template_list[iobs]
 
-- 
2.43.0


From 553282254d4d96c51a2e8c54240a4bee24b61fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 38/47] fix: gaussian weighted moments have the same units when
 flagged

The pixel area was taken out of the sums, flux and norm only for unflagged
results, and never of the moments by name MF and M00, so a flagged result had
its flux and sums off by the pixel area.
---
 ngmix/gaussmom.py | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/ngmix/gaussmom.py b/ngmix/gaussmom.py
index a8f4b49..e99f55c 100644
--- a/ngmix/gaussmom.py
+++ b/ngmix/gaussmom.py
@@ -51,26 +51,19 @@ class GaussMom(object):
         measure weighted moments
         """
 
-        res = self.weight.get_weighted_moments(
+        sums = self.weight.get_weighted_sums(
             obs=obs, with_higher_order=self.with_higher_order,
         )
 
-        if res['flags'] != 0:
-            return res
-
         # need to take out the pixel area factor since new ngmix is in flux
-        # units
-        area = obs.jacobian.area
-        fac = 1/area
-        res['flux'] *= fac
-        res['flux_err'] *= fac
-        res['pars'][5] *= fac
-        res["sums"] *= fac
-        res["sums_cov"] *= fac**2
-        res["sums_norm"] *= fac
-        res["wsum"] *= fac
-        res["sums_err"] *= fac
-        return res
+        # units.  Do this before the summary statistics so that all of them are
+        # in the same units, also when the result is flagged
+        fac = 1/obs.jacobian.area
+        sums["sums"] *= fac
+        sums["sums_cov"] *= fac**2
+        sums["wsum"] *= fac
+
+        return ngmix.gmix.get_weighted_moments_stats(sums)
 
     def _set_mompars(self):
         T = ngmix.moments.fwhm_to_T(self.fwhm)
-- 
2.43.0


From 791d567671c517419ba8e1b0dd068859f7d7511b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 39/47] fix: aperture fluxes of rows which are not finite are
 flagged

A row with a size or shape that is not a number got its whole flux and no
flag.
---
 ngmix/gaussap.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 546f05e..1304304 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -94,6 +94,7 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
         tpars = _get_band_pars(pars, model, i, band)
 
         if model == 'cm':
+            _check_finite([fracdev[i], TdByTe[i]])
             gm = GMixCM(
                 fracdev[i],
                 TdByTe[i],
@@ -111,6 +112,11 @@ def _do_gap(weight_fwhm, fracdev, TdByTe, pars, model, i, band):
     return flux, flags
 
 
+def _check_finite(pars):
+    if not np.all(np.isfinite(pars)):
+        raise GMixRangeError('parameters are not finite: %s' % (pars,))
+
+
 def _prepare(pars,
              model,
              weight_fwhm,
@@ -147,6 +153,8 @@ def _get_band_pars(pars, model, index, band):
     tpars[0:npars-1] = pars[index, 0:npars-1]
     tpars[-1] = pars[index, flux_start+band]
 
+    _check_finite(tpars)
+
     tpars[4] = tpars[4].clip(min=0.0001)
 
     return tpars
-- 
2.43.0


From 2ccca8eb70ae905f9e6986521ae5a6aa99ac1f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 40/47] fix: aperture fluxes of a catalogue with no rows

---
 ngmix/gaussap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ngmix/gaussap.py b/ngmix/gaussap.py
index 1304304..fc16e73 100644
--- a/ngmix/gaussap.py
+++ b/ngmix/gaussap.py
@@ -162,9 +162,9 @@ def _get_band_pars(pars, model, index, band):
 
 def _get_nband(pars, model):
     if model == 'bdf':
-        nband = len(pars[0])-7+1
+        nband = pars.shape[1]-7+1
     else:
-        nband = len(pars[0])-6+1
+        nband = pars.shape[1]-6+1
 
     return nband
 
-- 
2.43.0


From 1fa6110ffa7348fa52f249676af776d986291e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 41/47] fix: mixture log probabilities far from all components

Below -9.99e9 they were minus infinity, except for a single component.
---
 ngmix/gmix_ndim/gmix_ndim_nb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim_nb.py b/ngmix/gmix_ndim/gmix_ndim_nb.py
index 0a2bd31..6e03ec4 100644
--- a/ngmix/gmix_ndim/gmix_ndim_nb.py
+++ b/ngmix/gmix_ndim/gmix_ndim_nb.py
@@ -33,7 +33,8 @@ def gmixnd_get_prob(log_pnorms,
 
     n_dim = means.shape[1]
     n_gauss = log_pnorms.size
-    lnpmax = -9.99e9
+    # lower than any finite value, but finite so differences are defined
+    lnpmax = -1.0e308
 
     for i in range(n_gauss):
 
-- 
2.43.0


From 5581aabd17020a1eddb22a69ea8a85b6df844e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 42/47] fix: n-dimensional mixtures sample from the mixture
 they hold

Having sampled or fit, setting or loading another mixture left the previous
one in place for samples.
---
 ngmix/gmix_ndim/gmix_ndim.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index d63fb07..7c76abd 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -68,6 +68,10 @@ class GMixND(object):
 
         self._calc_icovars_and_norms()
 
+        # a sampler for a mixture set previously
+        if hasattr(self, "_gmm"):
+            del self._gmm
+
         self.tmp_lnprob = numpy.zeros(self.ngauss)
         self.xdiff = numpy.zeros(self.ndim)
 
@@ -107,8 +111,8 @@ class GMixND(object):
         if not gmm.converged_:
             print("DID NOT CONVERGE")
 
-        self._gmm = gmm
         self.set_mixture(gmm.weights_, gmm.means_, gmm.covariances_)
+        self._gmm = gmm
 
         if doplot:
             plt = self.plot(data=data, **keys)
-- 
2.43.0


From 1d4c42a03b9cacb66156d817dbfa7cbfad00613e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 43/47] fix: n-dimensional mixtures refuse points of another
 dimension

They read past the end of the point.
---
 ngmix/gmix_ndim/gmix_ndim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ngmix/gmix_ndim/gmix_ndim.py b/ngmix/gmix_ndim/gmix_ndim.py
index 7c76abd..51d28d9 100644
--- a/ngmix/gmix_ndim/gmix_ndim.py
+++ b/ngmix/gmix_ndim/gmix_ndim.py
@@ -270,9 +270,14 @@ class GMixND(object):
 
     def _get_prob(self, pars, dolog, component=None):
         """
-        version with no checking
+        version with no checking of the component
         """
 
+        if pars.ndim != 1 or pars.size != self.ndim:
+            raise ValueError(
+                "expected %d parameters, got shape %s" % (self.ndim, pars.shape)
+            )
+
         if component is None:
             return gmixnd_get_prob(
                 self.log_pnorms,
-- 
2.43.0


From 483b6c6df0b27059ad47c4a238c23940de2c4523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 44/47] fix: a k-space psf which does not match is not kept

It was stored before being checked, and the previous one lost.
---
 ngmix/observation.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 5c4d1f7..5681137 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1249,20 +1249,19 @@ class KObservation(MetadataMixin):
             The PSF as a KObservation. If not None, the shape of the psf image
             should match the observation image.
         """
-        if self.has_psf():
-            del self._psf
-
-        if psf is None:
-            return
+        if psf is not None:
+            assert isinstance(psf, KObservation)
 
-        assert isinstance(psf, KObservation)
+            if psf.kimage.array.shape != self.kimage.array.shape:
+                raise ValueError("psf kimage must have "
+                                 "same shape as kimage")
+            assert np.allclose(psf.kimage.scale, self.kimage.scale)
 
-        self._psf = psf
+        if self.has_psf():
+            del self._psf
 
-        if psf.kimage.array.shape != self.kimage.array.shape:
-            raise ValueError("psf kimage must have "
-                             "same shape as kimage")
-        assert np.allclose(psf.kimage.scale, self.kimage.scale)
+        if psf is not None:
+            self._psf = psf
 
     def _set_jacobian(self):
         """
-- 
2.43.0


From 834a581701dc344a24a830f832b934171510fc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:41 +0000
Subject: [PATCH 45/47] fix: make_kobs added entries to the metadata of its
 input

---
 ngmix/observation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 5681137..8536c0c 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1571,7 +1571,8 @@ def make_kobs(mb_obs, interp=DEFAULT_XINTERP):
             else:
                 psf_kobs = None
 
-            meta = iidict['meta']
+            meta = {}
+            meta.update(iidict['meta'])
             meta['realspace_gsimage'] = iidict['realspace_gsimage']
             meta['scale'] = iidict['scale']
             kobs = KObservation(
-- 
2.43.0


From 9bfa76b19381cf87c9d14eac16d00c2720adc753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:14 +0000
Subject: [PATCH 46/47] fix: galsim fits ignored the jacobian centers of image
 and psf

make_iilist made the interpolated images about the middle of each stamp, so
epochs whose jacobian centers lie differently on the pixels were not aligned,
a psf off the middle of its stamp shifted the object, and the fitted center
was not relative to the jacobian center
---
 ngmix/observation.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ngmix/observation.py b/ngmix/observation.py
index 8536c0c..d20eecb 100644
--- a/ngmix/observation.py
+++ b/ngmix/observation.py
@@ -1375,6 +1375,16 @@ class KMultiBandObsList(list, MetadataMixin):
         super(KMultiBandObsList, self).__setitem__(index, kobs_list)
 
 
+def _get_galsim_offset(obs):
+    """
+    get the offset of the jacobian center from the galsim true center of the
+    image, in the (x, y) convention of galsim
+    """
+    nrow, ncol = obs.image.shape
+    row0, col0 = obs.jacobian.get_cen()
+    return (col0 - (ncol - 1)/2, row0 - (nrow - 1)/2)
+
+
 def make_iilist(obs, interp=DEFAULT_XINTERP):
     """
     make a multi-band interpolated image list, as well as the maximum of
@@ -1428,6 +1438,7 @@ def make_iilist(obs, interp=DEFAULT_XINTERP):
             ii = galsim.InterpolatedImage(
                 gsimage,
                 x_interpolant=interp,
+                offset=_get_galsim_offset(obs),
             )
             if hasattr(ii, 'SBProfile'):
                 gsvers = 1
@@ -1446,6 +1457,7 @@ def make_iilist(obs, interp=DEFAULT_XINTERP):
                 psf_ii = galsim.InterpolatedImage(
                     psf_gsimage,
                     x_interpolant=interp,
+                    offset=_get_galsim_offset(obs.psf),
                 )
                 # make dimensions odd
                 if gsvers == 1:
-- 
2.43.0


From 4ac05f53b9801af55cfe097b0073085da030c53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 47/47] fix: EM used pixels of zero weight when it prepared the
 observation itself

---
 ngmix/em/em.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/ngmix/em/em.py b/ngmix/em/em.py
index c49bddb..68a946a 100644
--- a/ngmix/em/em.py
+++ b/ngmix/em/em.py
@@ -86,18 +86,23 @@ def prep_obs(obs):
         The obs with new background level and the applied background level
     """
 
-    imsky, sky = prep_image(obs.image)
-    if obs.has_psf():
-        newobs = Observation(
-            imsky,
-            jacobian=obs.jacobian,
-            psf=obs.psf,
-        )
-    else:
-        newobs = Observation(
-            imsky,
-            jacobian=obs.jacobian,
-        )
+    # pixels without weight are filled with the model when fitting; what they
+    # hold must not set the sky
+    image = obs.image
+    masked = obs.weight <= 0
+    if masked.any():
+        image = image.copy()
+        image[masked] = image[~masked].min()
+
+    imsky, sky = prep_image(image)
+
+    newobs = Observation(
+        imsky,
+        weight=obs.weight,
+        jacobian=obs.jacobian,
+        psf=obs.psf if obs.has_psf() else None,
+        ignore_zero_weight=False,
+    )
 
     return newobs, sky
 
-- 
2.43.0

