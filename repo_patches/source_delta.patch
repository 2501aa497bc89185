From dfe1253c73071f3fa37e36e24768ef3943d5f2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:32 +0000
Subject: [PATCH 01/94] fix: forget the break error of an earlier fit when no
 break is kept

---
 turbustat/statistics/base_pspec2.py                   | 1 +
 turbustat/statistics/delta_variance/delta_variance.py | 1 +
 turbustat/statistics/wavelets/wavelet_transform.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 3af1cba..7b97718 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -154,6 +154,7 @@ class StatisticBase_PSpec2D(object):
         '''
 
         self._bootstrap_flag = bootstrap
+        self._brk_err = None
 
         if fit_unbinned:
             yy_freq, xx_freq = make_radial_freq_arrays(self.ps2D.shape)
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 989d282..5151c3c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -336,6 +336,7 @@ class DeltaVariance(BaseStatisticMixIn):
             xhigh = self.lags.max() * 1.01
 
         self._fit_range = [xlow, xhigh]
+        self._brk_err = None
 
         within_limits = np.logical_and(lower_limit, upper_limit)
 
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0057818..b0c975f 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -283,6 +283,7 @@ class Wavelet(BaseStatisticMixIn):
             xhigh = pix_scales.max() * 1.01
 
         self._fit_range = [xlow, xhigh]
+        self._brk_err = None
 
         within_limits = np.logical_and(lower_limit, upper_limit)
 
-- 
2.43.0


From 76956aeec276b8d5b9a8062c956b2b50889cf8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:32 +0000
Subject: [PATCH 02/94] fix: Wavelet break point has units of pixels, not
 inverse pixels

---
 turbustat/statistics/wavelets/wavelet_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index b0c975f..3021d28 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -322,7 +322,7 @@ class Wavelet(BaseStatisticMixIn):
                     x = x[good_pts]
                     y = y[good_pts]
 
-                    self._brk = 10**model.brk / u.pix
+                    self._brk = 10**model.brk * u.pix
 
                     self._slope = model.slopes
 
@@ -332,12 +332,12 @@ class Wavelet(BaseStatisticMixIn):
 
                         self._slope_err = stderrs[1:-1]
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            stderrs[-1] * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
                         self._brk_err = np.log(10) * self.brk.value * \
-                            model.brk_err / u.pix
+                            model.brk_err * u.pix
 
                     self.fit = model.fit
 
-- 
2.43.0


From 96ba8484988ff697a5d35929a236d976fbb78449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:32 +0000
Subject: [PATCH 03/94] fix: drop the azimuthal mask of an earlier run when
 none is requested

---
 turbustat/statistics/base_pspec2.py | 3 +++
 turbustat/statistics/scf/scf.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 7b97718..67447d7 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -102,6 +102,9 @@ class StatisticBase_PSpec2D(object):
             self._freqs, self._ps1D, self._ps1D_stddev, self._azim_mask = out
         else:
             self._freqs, self._ps1D, self._ps1D_stddev = out
+            # Drop the mask of an earlier run with azimuthal constraints
+            if hasattr(self, "_azim_mask"):
+                del self._azim_mask
 
         # Attach units to freqs
         self._freqs = self.freqs / u.pix
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index fdb0cde..62283ef 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -278,6 +278,9 @@ class SCF(BaseStatisticMixIn):
                 self._azim_mask = out
         else:
             self._lags, self._scf_spectrum, self._scf_spectrum_stddev = out
+            # Drop the mask of an earlier run with azimuthal constraints
+            if hasattr(self, "_azim_mask"):
+                del self._azim_mask
 
         roll_lag_diff = np.abs(self.roll_lags[1] - self.roll_lags[0])
 
-- 
2.43.0


From 9091a9c03e5719de3405093e22e1c2b815983d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:32 +0000
Subject: [PATCH 04/94] fix: re-running PDF must not use the previous bin
 centres as bin edges

---
 turbustat/statistics/pdf/compare_pdf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index cfd0eaa..f11bf85 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -74,6 +74,7 @@ class PDF(BaseStatisticMixIn):
         else:
             self._normalization_type = "None"
 
+        self._input_bins = bins
         self._bins = bins
 
         self._pdf = None
@@ -91,17 +92,16 @@ class PDF(BaseStatisticMixIn):
             Bins to compute the PDF from. Overrides initial bin input.
         '''
 
-        if bins is not None:
-            self._bins = bins
+        if bins is None:
+            bins = self._input_bins
 
         # If the number of bins is not given, use sqrt of data length.
-        if self.bins is None:
-            self._bins = np.sqrt(self.data.shape[0])
-            self._bins = int(np.round(self.bins))
+        if bins is None:
+            bins = int(np.round(np.sqrt(self.data.shape[0])))
 
         # norm_weights = np.ones_like(self.data) / self.data.shape[0]
 
-        self._pdf, bin_edges = np.histogram(self.data, bins=self.bins,
+        self._pdf, bin_edges = np.histogram(self.data, bins=bins,
                                             density=True)
                                             # weights=norm_weights)
 
-- 
2.43.0


From faf5bff0f9a9f97b8336fc249821995f2c15efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:37 +0000
Subject: [PATCH 05/94] fix: DeltaVariance kept convolved arrays are readable
 and belong to the last run

---
 turbustat/statistics/delta_variance/delta_variance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 5151c3c..871c2fd 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -175,6 +175,9 @@ class DeltaVariance(BaseStatisticMixIn):
 
         '''
 
+        self._convolved_arrays = []
+        self._convolved_weights = []
+
         self._delta_var = np.empty((len(self.lags)))
         self._delta_var_error = np.empty((len(self.lags)))
 
@@ -267,14 +270,14 @@ class DeltaVariance(BaseStatisticMixIn):
         if len(self._convolved_arrays) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_arrays
 
     @property
     def convolve_weights(self):
         if len(self._convolved_weights) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_weights
 
     @property
     def delta_var(self):
-- 
2.43.0


From dd063290ddf311a01ccf528a49f17fdbd0c6e065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:34 +0000
Subject: [PATCH 06/94] fix: make a fitted PDF picklable so save_results works
 after an MLE fit

---
 turbustat/statistics/pdf/compare_pdf.py | 92 ++++++++++++++-----------
 1 file changed, 52 insertions(+), 40 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index f11bf85..133f221 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -12,6 +12,57 @@ from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types, threed_types, input_data
 
 
+class _PDFLikelihood(GenericLikelihoodModel):
+    """
+    Likelihood of the data for a scipy.stats distribution. Defined at the
+    module level so that fitted objects can be pickled.
+    """
+
+    def __init__(self, endog, dist, floc, fscale, loc, scale):
+
+        self._dist = dist
+        self._floc = floc
+        self._fscale = fscale
+        self._loc = loc
+        self._scale = scale
+
+        # Get the number of parameters from shapes.
+        # Add one for scales, since we're assuming loc is frozen.
+        # Keeping loc=0 is appropriate for log-normal models.
+        self.nparams = 1 if dist.shapes is None else \
+            len(dist.shapes.split(",")) + 1
+
+        super(_PDFLikelihood, self).__init__(endog)
+
+    def loglike(self, params):
+        if np.isnan(params).any():
+            return - np.inf
+
+        if not self._floc and not self._fscale:
+            loc = params[-2]
+            scale = params[-1]
+            cut = -2
+        elif not self._floc:
+            loc = params[-1]
+            scale = self._scale
+            cut = -1
+        elif not self._fscale:
+            scale = params[-1]
+            loc = self._loc
+            cut = -1
+
+        loglikes = \
+            self._dist.logpdf(self.endog, *params[:cut],
+                              scale=scale,
+                              loc=loc)
+
+        if not np.isfinite(loglikes).all():
+            return -np.inf
+
+        else:
+            return loglikes.sum()
+
+
 class PDF(BaseStatisticMixIn):
     '''
     Create the PDF of a given array.
@@ -213,45 +264,6 @@ class PDF(BaseStatisticMixIn):
 
         self._do_fit = True
 
-        class Likelihood(GenericLikelihoodModel):
-
-            # Get the number of parameters from shapes.
-            # Add one for scales, since we're assuming loc is frozen.
-            # Keeping loc=0 is appropriate for log-normal models.
-            nparams = 1 if model.shapes is None else \
-                len(model.shapes.split(",")) + 1
-
-            _loc = loc
-            _scale = scale
-
-            def loglike(self, params):
-                if np.isnan(params).any():
-                    return - np.inf
-
-                if not floc and not fscale:
-                    loc = params[-2]
-                    scale = params[-1]
-                    cut = -2
-                elif not floc:
-                    loc = params[-1]
-                    scale = self._scale
-                    cut = -1
-                elif not fscale:
-                    scale = params[-1]
-                    loc = self._loc
-                    cut = -1
-
-                loglikes = \
-                    model.logpdf(self.endog, *params[:cut],
-                                 scale=scale,
-                                 loc=loc)
-
-                if not np.isfinite(loglikes).all():
-                    return -np.inf
-
-                else:
-                    return loglikes.sum()
-
         def emcee_fit(model, init_params, burnin=200, steps=2000, thin=10):
 
             try:
@@ -290,7 +302,7 @@ class PDF(BaseStatisticMixIn):
 
         init_params = np.array(init_params)
 
-        self._model = Likelihood(self.data)
+        self._model = _PDFLikelihood(self.data, model, floc, fscale, loc, scale)
 
         self._scipy_model = model
 
-- 
2.43.0


From 63f0b8afe38f7df9f8c424f499fd77c135264db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:51 +0000
Subject: [PATCH 07/94] fix: DeltaVariance_Distance with un-common lags and
 pre-computed statistics

---
 .../delta_variance/delta_variance.py          | 45 +++++++++++++------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 871c2fd..8cc55a6 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -714,7 +714,7 @@ class DeltaVariance_Distance(object):
 
     def __init__(self, dataset1, dataset2, weights1=None, weights2=None,
                  diam_ratio=1.5, lags=None, use_common_lags=True,
-                 delvar_kwargs={}, delvar2_kwargs=None):
+                 delvar_kwargs={}, delvar2_kwargs=None, lags2=None):
         super(DeltaVariance_Distance, self).__init__()
 
         if isinstance(dataset1, DeltaVariance):
@@ -724,7 +724,7 @@ class DeltaVariance_Distance(object):
             _given_data1 = True
             dataset1 = copy(input_data(dataset1, no_header=False))
 
-        if isinstance(dataset1, DeltaVariance):
+        if isinstance(dataset2, DeltaVariance):
             _given_data2 = False
             self.delvar2 = dataset2
         else:
@@ -798,15 +798,14 @@ class DeltaVariance_Distance(object):
             self.delvar1.run(**delvar_kwargs)
         else:
             # Check if we need to re-run the statistic if the lags are wrong.
-            if lags1 is not None:
-                if not (self.delvar1.lags == lags1).all():
-                    self.delvar1.run(**delvar_kwargs)
+            needs_run = self._match_lags(self.delvar1, lags1)
 
             if not hasattr(self.delvar1, "_slope"):
                 warn("DeltaVariance given as dataset1 does not have a fitted"
                      " slope. Re-running delta variance.")
-                if lags1 is not None:
-                    self.delvar1._lags = lags1
+                needs_run = True
+
+            if needs_run:
                 self.delvar1.run(**delvar_kwargs)
 
         if delvar2_kwargs is None:
@@ -818,16 +817,36 @@ class DeltaVariance_Distance(object):
                                          diam_ratio=diam_ratio, lags=lags2)
             self.delvar2.run(**delvar2_kwargs)
         else:
-            if lags2 is not None:
-                if not (self.delvar2.lags == lags2).all():
-                    self.delvar2.run(**delvar2_kwargs)
+            needs_run = self._match_lags(self.delvar2, lags2)
 
             if not hasattr(self.delvar2, "_slope"):
                 warn("DeltaVariance given as dataset2 does not have a fitted"
                      " slope. Re-running delta variance.")
-                if lags2 is not None:
-                    self.delvar2._lags = lags2
-                self.delvar2.run(**delvar_kwargs)
+                needs_run = True
+
+            if needs_run:
+                self.delvar2.run(**delvar2_kwargs)
+
+    @staticmethod
+    def _match_lags(delvar, lags):
+        '''
+        Set the lags of a given DeltaVariance when they differ from the
+        requested ones. Returns whether the lags were changed.
+        '''
+        if lags is None:
+            return False
+
+        if not hasattr(lags, "unit"):
+            lags = lags * u.pix
+
+        pix_lags = delvar._to_pixel(lags)
+
+        if np.array_equal(delvar._to_pixel(delvar.lags).value,
+                          pix_lags.value):
+            return False
+
+        delvar.lags = pix_lags
+        return True
 
     @property
     def curve_distance(self):
-- 
2.43.0


From 70545443ddfae931c205901b86b03e8e9673f015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 08/94] fix: SCF_Distance mixes up which data set is
 pre-computed and keeps stale lags

---
 turbustat/statistics/scf/scf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 62283ef..0b0371d 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -119,6 +119,7 @@ class SCF(BaseStatisticMixIn):
                                         " pixel, angular, or physical (if a"
                                         " distance is given) units.")
         self._roll_lags = value
+        self.size = value.size
 
     @property
     def scf_surface(self):
@@ -869,12 +870,12 @@ class SCF_Distance(object):
             else:
                 roll_lags1 = roll_lags
 
-            if not _has_data1:
+            if not _has_data2:
                 roll_lags2 = self.scf2._to_pixel(self.scf2.roll_lags)
             else:
                 roll_lags2 = roll_lags
 
-            if not (roll_lags1 == roll_lags2).all():
+            if not np.array_equal(roll_lags1.value, roll_lags2.value):
                 raise ValueError("The roll lags must match when using pre-computed SCFs.")
 
         elif scale > 1.0:
@@ -900,7 +901,7 @@ class SCF_Distance(object):
             needs_run1 = False
 
             if roll_lags1.size != self.scf1.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags1 == self.scf1._to_pixel(self.scf1.roll_lags)).all()
 
@@ -931,7 +932,7 @@ class SCF_Distance(object):
             needs_run2 = False
 
             if roll_lags2.size != self.scf2.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags2 == self.scf2._to_pixel(self.scf2.roll_lags)).all()
 
-- 
2.43.0


From 776413f05778d82ea6053d7768e43ba57df346c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 09/94] fix: PSpec_Distance accepts fit_kwargs and leaves the
 caller's dictionary alone

---
 turbustat/statistics/pspec_bispec/pspec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index bc040aa..3ee6be2 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -286,11 +286,11 @@ class PSpec_Distance(object):
             this_pspec_kwargs.pop('high_cut', None)
             this_pspec_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec_kwargs:
-                this_pspec_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = copy(this_pspec_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[0]
 
             self.pspec1.run(low_cut=low_cut[0], high_cut=high_cut[0],
-                            fit_kwargs={'brk': breaks[0]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec_kwargs)
         # else:
@@ -314,11 +314,11 @@ class PSpec_Distance(object):
             this_pspec2_kwargs.pop('high_cut', None)
             this_pspec2_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec2_kwargs:
-                this_pspec2_kwargs['fit_kwargs'].pop('brk', None)
+            fit2_kwargs = copy(this_pspec2_kwargs.pop('fit_kwargs', {}))
+            fit2_kwargs['brk'] = breaks[1]
 
             self.pspec2.run(low_cut=low_cut[1], high_cut=high_cut[1],
-                            fit_kwargs={'brk': breaks[1]},
+                            fit_kwargs=fit2_kwargs,
                             fit_2D=False,
                             **this_pspec2_kwargs)
 
-- 
2.43.0


From bcb76d5bb4cbffbfc21bd0d1d7f420101275f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 10/94] fix: VCA_Distance uses radial_pspec_kwargs2 for the
 second cube

---
 turbustat/statistics/vca_vcs/vca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8baa9d8..8021f6f 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -308,7 +308,7 @@ class VCA_Distance(object):
             self.vca2.run(fit_kwargs={'brk': breaks[1]},
                           low_cut=low_cut[1],
                           high_cut=high_cut[1],
-                          radial_pspec_kwargs=radial_pspec_kwargs,
+                          radial_pspec_kwargs=radial_pspec_kwargs2,
                           fit_2D=False)
 
     def distance_metric(self, verbose=False, xunit=u.pix**-1,
-- 
2.43.0


From 583db290b6b009fa0f442c45b80dd5ec78ae9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 11/94] fix: compare PDF_Distance statistic names by value

---
 turbustat/statistics/pdf/compare_pdf.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 133f221..6c1d083 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -705,22 +705,22 @@ class PDF_Distance(object):
             Save the figure when a file name is given.
         '''
 
-        if statistic is 'all':
+        if statistic == 'all':
             self.compute_hellinger_distance()
             self.compute_ks_distance()
             # self.compute_ad_distance()
             if self._do_fit:
                 self.compute_lognormal_distance()
-        elif statistic is 'hellinger':
+        elif statistic == 'hellinger':
             self.compute_hellinger_distance()
-        elif statistic is 'ks':
+        elif statistic == 'ks':
             self.compute_ks_distance()
-        elif statistic is 'lognormal':
+        elif statistic == 'lognormal':
             if not self._do_fit:
                 raise Exception("Fitting must be enabled to compute the"
                                 " lognormal distance.")
             self.compute_lognormal_distance()
-        # elif statistic is 'ad':
+        # elif statistic == 'ad':
         #     self.compute_ad_distance()
         else:
             raise TypeError("statistic must be 'all',"
-- 
2.43.0


From f9672280461389cb3e33509b6e9b1556354b40b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:01 +0000
Subject: [PATCH 12/94] fix: Wavelet_Distance honours num

---
 turbustat/statistics/wavelets/wavelet_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 3021d28..63c37cb 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -656,7 +656,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt1 = Wavelet(dataset1, scales=scales)
+            self.wt1 = Wavelet(dataset1, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
@@ -673,7 +673,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt2 = Wavelet(dataset2, scales=scales)
+            self.wt2 = Wavelet(dataset2, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
-- 
2.43.0


From 4f4a6f38dd470b1e04bb6afc0c1b68f95e4cb2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:26 +0000
Subject: [PATCH 13/94] fix: compare SCF boundary names by value

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 0b0371d..368eafd 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -200,7 +200,7 @@ class SCF(BaseStatisticMixIn):
                     shift_func = fourier_shift
                 tmp = shift_func(tmp, y_shift, axis=2)
 
-            if boundary is "cut":
+            if boundary == "cut":
                 # Always round up to the nearest integer.
                 x_shift = np.ceil(x_shift).astype(int)
                 y_shift = np.ceil(y_shift).astype(int)
@@ -220,7 +220,7 @@ class SCF(BaseStatisticMixIn):
 
                 data_slice = (slice(None), x_slice_data, y_slice_data)
                 tmp_slice = (slice(None), x_slice_tmp, y_slice_tmp)
-            elif boundary is "continuous":
+            elif boundary == "continuous":
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
-- 
2.43.0


From 96328f6f41b9f6e8a012d7445aac6ccb29620140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 14/94] fix: StatMoments_Distance keeps a usable number of bins
 for a re-computed first map

---
 turbustat/statistics/stat_moments/highstatmoments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 41e95fd..77afb6d 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -593,7 +593,7 @@ class StatMoments_Distance(object):
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments1`.")
                 self.moments1.radius = radius1
-                self.moments1.nbins = nbins
+                self.moments1.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
-- 
2.43.0


From 9a7964fa42e08cfa90aef746f6cccbe87e6d581a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:06 +0000
Subject: [PATCH 15/94] fix: Genus_Distance honours numpts

---
 turbustat/statistics/genus/genus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index b90d0f5..36ea353 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -553,12 +553,14 @@ class Genus_Distance(object):
         img2 = standardize(img2)
 
         self.genus1 = Genus(img1, smoothing_radii=smoothing_radii,
+                            numpts=numpts,
                             min_value=min_value[0], max_value=max_value[0],
                             lowdens_percent=lowdens_percent[0],
                             highdens_percent=highdens_percent[0])
         self.genus1.run(**genus_kwargs)
 
         self.genus2 = Genus(img2, smoothing_radii=smoothing_radii,
+                            numpts=numpts,
                             min_value=min_value[1], max_value=max_value[1],
                             lowdens_percent=lowdens_percent[1],
                             highdens_percent=highdens_percent[1])
-- 
2.43.0


From dd1fbaa299e58bf47d4667e62a6333f1fed2c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:35 +0000
Subject: [PATCH 16/94] fix: Dendrogram_Distance leaves the caller's
 dictionaries alone and re-runs with the requested min_deltas

---
 .../statistics/dendrograms/dendro_stats.py    | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 784e79e..097bde5 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -539,6 +539,12 @@ class Dendrogram_Distance(object):
         if dendro2_kwargs is None:
             dendro2_kwargs = dendro_kwargs
 
+        # These are always set below. Don't alter the given dictionaries.
+        dendro_kwargs = {key: dendro_kwargs[key] for key in dendro_kwargs
+                         if key not in ('make_hists', 'verbose')}
+        dendro2_kwargs = {key: dendro2_kwargs[key] for key in dendro2_kwargs
+                          if key not in ('make_hists', 'verbose')}
+
         # if fiducial_model is not None:
         #     self.dendro1 = fiducial_model
         # elif isinstance(dataset1, str):
@@ -547,20 +553,18 @@ class Dendrogram_Distance(object):
             self.dendro1 = dataset1
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro1, "_tail_slope")
-            match_deltas = (self.dendro1.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro1.min_deltas,
+                                          min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
+                self.dendro1.min_deltas = min_deltas
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
             self.dendro1 = Dendrogram_Stats(dataset1, min_deltas=min_deltas,
                                             dendro_params=dendro_params1)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro1.run(verbose=False, make_hists=False,
                              **dendro_kwargs)
 
@@ -570,21 +574,19 @@ class Dendrogram_Distance(object):
             self.dendro2 = dataset2
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro2, "_tail_slope")
-            match_deltas = (self.dendro2.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro2.min_deltas,
+                                          min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
+                self.dendro2.min_deltas = min_deltas
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
             self.dendro2 = \
                 Dendrogram_Stats(dataset2, min_deltas=min_deltas,
                                  dendro_params=dendro_params2)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro2.run(verbose=False, make_hists=False,
                              **dendro2_kwargs)
 
-- 
2.43.0


From 792476653a983f1b26874a89519b9531c7140e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:05 +0000
Subject: [PATCH 17/94] fix: run leaves the caller's pyfftw_kwargs and
 fit_kwargs alone

---
 turbustat/statistics/mvc/mvc.py            | 1 +
 turbustat/statistics/pspec_bispec/pspec.py | 2 ++
 turbustat/statistics/vca_vcs/vca.py        | 2 ++
 turbustat/statistics/vca_vcs/vcs.py        | 1 +
 4 files changed, 6 insertions(+)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index d284fef..ca2601e 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -273,6 +273,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 3ee6be2..fac1245 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -177,10 +177,12 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8021f6f..2541c9e 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -183,10 +183,12 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 50edf6f..eb6a7b2 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -371,6 +371,7 @@ class VCS(BaseStatisticMixIn):
         '''
 
         # Remove threads if in dict
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
         self.compute_pspec(use_pyfftw=use_pyfftw, threads=threads,
-- 
2.43.0


From 5b90c886ed0b60891a19983c98e1da5daf3c5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:16 +0000
Subject: [PATCH 18/94] fix: PowerSpectrum does not alter the given weights and
 accepts them in any input form

---
 turbustat/io/input_base.py                 | 2 +-
 turbustat/statistics/pspec_bispec/pspec.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/io/input_base.py b/turbustat/io/input_base.py
index 08ed027..ece69d6 100644
--- a/turbustat/io/input_base.py
+++ b/turbustat/io/input_base.py
@@ -72,7 +72,7 @@ def input_data(data, no_header=False, need_copy=False):
         elif isinstance(data, tuple) or isinstance(data, list):
             if len(data) != 2:
                 raise TypeError("Must have two items: data and the header.")
-            output_data = data
+            output_data = [make_copy(data[0], need_copy), data[1]]
 
         elif isinstance(data, np.ndarray):
             if not no_header:
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index fac1245..a1c0bbe 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -10,7 +10,7 @@ from copy import copy
 from ..rfft_to_fft import rfft_to_fft
 from ..base_pspec2 import StatisticBase_PSpec2D
 from ..base_statistic import BaseStatisticMixIn
-from ...io import common_types, twod_types
+from ...io import common_types, twod_types, input_data
 from ..fitting_utils import check_fit_limits
 
 
@@ -50,6 +50,8 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
         if weights is None:
             weights = np.ones(self.data.shape)
         else:
+            weights = input_data(weights, no_header=True, need_copy=True)
+
             # Get rid of all NaNs
             isnan = np.isnan(self.data)
 
-- 
2.43.0


From e5896e6d391243d69c48eea8522c878008bb496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:24 +0000
Subject: [PATCH 19/94] fix: distance_metric does not alter the given or
 default plot dictionaries

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++++
 turbustat/statistics/dendrograms/dendro_stats.py      | 8 ++++++++
 turbustat/statistics/mvc/mvc.py                       | 4 ++++
 turbustat/statistics/pca/pca.py                       | 4 ++++
 turbustat/statistics/pdf/compare_pdf.py               | 4 ++++
 turbustat/statistics/pspec_bispec/pspec.py            | 4 ++++
 turbustat/statistics/scf/scf.py                       | 4 ++++
 turbustat/statistics/stat_moments/highstatmoments.py  | 4 ++++
 turbustat/statistics/vca_vcs/vca.py                   | 4 ++++
 turbustat/statistics/vca_vcs/vcs.py                   | 4 ++++
 turbustat/statistics/wavelets/wavelet_transform.py    | 4 ++++
 11 files changed, 48 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 8cc55a6..39bd0ba 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -949,6 +949,10 @@ class DeltaVariance_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 097bde5..0207fad 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -649,6 +649,10 @@ class Dendrogram_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
@@ -776,6 +780,10 @@ class Dendrogram_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index ca2601e..318b4eb 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -470,6 +470,10 @@ class MVC_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 18d5766..d6bce51 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -1163,6 +1163,10 @@ class PCA_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 6c1d083..f550f66 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -734,6 +734,10 @@ class PDF_Distance(object):
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index a1c0bbe..e134962 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -373,6 +373,10 @@ class PSpec_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 368eafd..bc8b276 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -1011,6 +1011,10 @@ class SCF_Distance(object):
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 77afb6d..8d48374 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -696,6 +696,10 @@ class StatMoments_Distance(object):
             defaults1 = {'color': 'b', 'label': '1'}
             defaults2 = {'color': 'g', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 2541c9e..e8b3761 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -358,6 +358,10 @@ class VCA_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index eb6a7b2..61ca795 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -516,6 +516,10 @@ class VCS_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 63c37cb..54e0ac8 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -719,6 +719,10 @@ class Wavelet_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Don't alter the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
-- 
2.43.0


From c1b3b8786455e16c01658224c5247d73eb3a25ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:15 +0000
Subject: [PATCH 20/94] fix: Lm_Seg drops the weights of the points it drops

---
 turbustat/statistics/lm_seg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 0f972d1..55be3fe 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -65,6 +65,8 @@ class Lm_Seg(object):
 
         self.y = self.y[good_vals]
         self.x = self.x[good_vals]
+        if self.weights is not None:
+            self.weights = self.weights[good_vals]
 
         if self.x.size <= 3 or self.y.size <= 3:
             raise Warning("Not enough finite points to fit.")
@@ -94,7 +96,7 @@ class Lm_Seg(object):
 
         # Before we get into the loop, make sure that this was a bad fit
         if epsil_0 < tol:
-            warnings.warning('Initial epsilon is smaller than tolerance. \
+            warnings.warn('Initial epsilon is smaller than tolerance. \
                              The tolerance should be set smaller.')
             return init_lm
 
-- 
2.43.0


From 675125dff61d03a5cb7ee0c4a84413c994be7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:46 +0000
Subject: [PATCH 21/94] fix: Moments honours scale, units=False and mask_name
 and records the unit of moment 0

---
 turbustat/moments/make_moments.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 0b3ce45..a2a544a 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -136,7 +136,7 @@ class Moments(object):
         if not units:
             self._moment0 = self._moment0.value
             self._moment1 = self._moment1.value
-            self._moment2 = self._moment2.value
+            self._linewidth = self._linewidth.value
 
     def make_moment_errors(self, axis=0, scale=None):
         '''
@@ -160,8 +160,9 @@ class Moments(object):
             self._moment1_err = np.zeros_like(self.moment1)
             self._linewidth_err = np.zeros_like(self.linewidth)
 
-        elif self.scale is not None:
-            scale = self.scale
+        else:
+            if scale is None:
+                scale = self.scale
 
             self._moment0_err = moment0_error(self.cube, scale,
                                               how=self.moment_how, axis=axis)
@@ -272,7 +273,8 @@ class Moments(object):
         Generate headers for the moments.
         '''
 
-        bunits = [self.cube.unit, self.cube.spectral_axis.unit,
+        bunits = [self.cube.unit * self.cube.spectral_axis.unit,
+                  self.cube.spectral_axis.unit,
                   self.cube.spectral_axis.unit,
                   self.cube.unit * self.cube.spectral_axis.unit]
 
@@ -393,8 +395,8 @@ class Moments(object):
         self = Moments(fits_name, scale=scale)
 
         if mask_name is not None:
-            mask = fits.getdata(mask_name)
-            self.with_mask(mask=mask)
+            mask = fits.getdata(mask_name).astype(bool)
+            self.apply_mask(mask=mask)
 
         # Moment 0
         if moment0 is not None:
@@ -858,7 +860,7 @@ def _try_remove_unit(arr):
 #         self = Mask_and_Moments(fits_name, scale=scale)
 
 #         if mask_name is not None:
-#             mask = fits.getdata(mask_name)
+#             mask = fits.getdata(mask_name).astype(bool)
 #             self.with_mask(mask=mask)
 
 #         # Moment 0
-- 
2.43.0


From 0d629b611748d928eb04b926fd586b16077dd26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:44 +0000
Subject: [PATCH 22/94] fix: VCS fit without a good break point, and with
 log_break=False

---
 turbustat/statistics/vca_vcs/vcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 61ca795..a908e94 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -197,11 +197,13 @@ class VCS(BaseStatisticMixIn):
                 if i >= breaks.size:
                     warnings.warn("No good break point found. Returned fit\
                                    does not include a break!")
+                    breaks = breaks[-1]
                     break
 
             # return self
 
-        if not log_break:
+        # Estimated breaks are already in log
+        elif not log_break:
             breaks = np.log10(breaks)
 
         # Fit the final model with whichever breaks were passed.
-- 
2.43.0


From f9ba62996e74d314387b24bb89304a0c10f0da8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:15 +0000
Subject: [PATCH 23/94] fix: accept spectral-cube objects with units in all
 statistics

---
 turbustat/io/input_base.py          | 13 +++++++++++--
 turbustat/statistics/genus/genus.py |  8 +++++---
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/turbustat/io/input_base.py b/turbustat/io/input_base.py
index ece69d6..7e19981 100644
--- a/turbustat/io/input_base.py
+++ b/turbustat/io/input_base.py
@@ -3,6 +3,7 @@ from __future__ import print_function, absolute_import, division
 
 from astropy.io.fits.hdu.image import _ImageBaseHDU
 from astropy.io import fits
+import astropy.units as u
 import numpy as np
 
 try:
@@ -24,7 +25,7 @@ twod_types = ["spectral_cube.Projection", "spectral_cube.Slice"]
 threed_types = ["SpectralCube"]
 
 
-def input_data(data, no_header=False, need_copy=False):
+def input_data(data, no_header=False, need_copy=False, keep_unit=False):
     '''
     Accept a variety of input data forms and return those expected by the
     various statistics.
@@ -40,6 +41,9 @@ def input_data(data, no_header=False, need_copy=False):
         When enabled, returns only the data without the header.
     need_copy : bool, optional
         Return a copy of the data when enabled.
+    keep_unit : bool, optional
+        Return data that have a unit as an `~astropy.units.Quantity`. By
+        default, only the values are returned.
 
     Returns
     -------
@@ -61,7 +65,9 @@ def input_data(data, no_header=False, need_copy=False):
                            data.header]
             sc_def = True
         elif isinstance(data, LowerDimensionalObject):
-            output_data = [make_copy(data, need_copy), data.header]
+            # Slicing these also slices their WCS, so pass on the array only
+            output_data = [make_copy(u.Quantity(data, copy=False), need_copy),
+                           data.header]
             sc_def = True
     else:
         sc_def = False
@@ -88,6 +94,9 @@ def input_data(data, no_header=False, need_copy=False):
                             " or a tuple or list containing the data and"
                             " header, in that order.")
 
+    if not keep_unit and isinstance(output_data[0], u.Quantity):
+        output_data[0] = output_data[0].value
+
     if no_header:
         return output_data[0]
 
diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 36ea353..23b71a3 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -80,13 +80,15 @@ class Genus(BaseStatisticMixIn):
                  distance=None):
         super(Genus, self).__init__()
 
-        if isinstance(img, np.ndarray):
+        # Projections are arrays, too, but have a header
+        if isinstance(img, np.ndarray) and not hasattr(img, 'header'):
             self.need_header_flag = False
-            self.data = input_data(img, no_header=True)
+            self.data = input_data(img, no_header=True, keep_unit=True)
             self.header = None
         else:
             self.need_header_flag = True
-            self.data, self.header = input_data(img, no_header=False)
+            self.data, self.header = input_data(img, no_header=False,
+                                                keep_unit=True)
 
         if distance is not None:
             self.distance = distance
-- 
2.43.0


From d8672cb34e4729372d1ff9fad73f9fc7c3000132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:32 +0000
Subject: [PATCH 24/94] fix: FFTs with pyfftw handle big-endian data and use
 the requested threads

---
 turbustat/statistics/rfft_to_fft.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/rfft_to_fft.py b/turbustat/statistics/rfft_to_fft.py
index 67c07c5..c7a1b23 100644
--- a/turbustat/statistics/rfft_to_fft.py
+++ b/turbustat/statistics/rfft_to_fft.py
@@ -52,7 +52,9 @@ def rfft_to_fft(image, keep_rfft=False, use_pyfftw=False,
 
     if use_pyfftw:
         if PYFFTW_FLAG:
-            fft_abs = np.abs(rfftn(image, **pyfftw_kwargs))
+            # FFTW needs the native byte order
+            image = np.asarray(image, dtype=image.dtype.newbyteorder('='))
+            fft_abs = np.abs(rfftn(image, threads=threads, **pyfftw_kwargs))
         else:
             use_pyfftw = False
             warn("pyfftw is not installed")
-- 
2.43.0


From 1fead439484fddc2687d268c0fc7fe0f7ab27c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 25/94] fix: the covariance matrix skips missing values in
 every channel pair and takes integer data

---
 turbustat/statistics/threeD_to_twoD.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 73e614f..c365e7c 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -134,16 +134,13 @@ def var_cov_cube(cube, mean_sub=False, progress_bar=True):
         bar = ProgressBar(n_velchan)
 
     for i, chan in enumerate(_iter_2D(cube)):
-        # Set the nans to tiny values
-        chan[np.isnan(chan)] = np.finfo(chan.dtype).eps
-
         norm_chan = chan
         if mean_sub:
-            norm_chan -= np.nanmean(chan)
+            norm_chan = chan - np.nanmean(chan)
         for j, chan2 in enumerate(_iter_2D(cube[:i + 1, :, :])):
             norm_chan2 = chan2
             if mean_sub:
-                norm_chan2 -= np.nanmean(chan2)
+                norm_chan2 = chan2 - np.nanmean(chan2)
 
             divisor = np.sum(np.isfinite(norm_chan * norm_chan2))
 
-- 
2.43.0


From 6450633b24e27dd6aed685bbc7e59d678dd8e660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 26/94] fix: StatMoments without periodic boundaries takes
 integer data

---
 turbustat/statistics/stat_moments/highstatmoments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 8d48374..65aa78d 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -141,8 +141,9 @@ class StatMoments(BaseStatisticMixIn):
             pad_img = np.pad(self.data, pix_rad, mode="wrap")
             pad_weights = np.pad(self.weights, pix_rad, mode="wrap")
         else:
-            pad_img = np.pad(self.data, pix_rad, padwithnans)
-            pad_weights = np.pad(self.weights, pix_rad, padwithnans)
+            pad_img = np.pad(self.data.astype(float), pix_rad, padwithnans)
+            pad_weights = np.pad(self.weights.astype(float), pix_rad,
+                                 padwithnans)
 
         circle_mask = circular_region(pix_rad)
 
-- 
2.43.0


From c34367f177b5111577fc76e4181bba7c68a8f8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:11 +0000
Subject: [PATCH 27/94] fix: SCF compares only channels present in both spectra

---
 turbustat/statistics/scf/scf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index bc8b276..09d6083 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -224,11 +224,16 @@ class SCF(BaseStatisticMixIn):
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
+            # Only channels present in both spectra can be compared
+            missing = np.isnan(self.data[data_slice] - tmp[tmp_slice])
+
             values = \
                 np.nansum(((self.data[data_slice] - tmp[tmp_slice]) ** 2),
                           axis=0) / \
-                (np.nansum(self.data[data_slice] ** 2, axis=0) +
-                 np.nansum(tmp[tmp_slice] ** 2, axis=0))
+                (np.nansum(np.where(missing, 0., self.data[data_slice]) ** 2,
+                           axis=0) +
+                 np.nansum(np.where(missing, 0., tmp[tmp_slice]) ** 2,
+                           axis=0))
 
             scf_value = 1. - \
                 np.sqrt(np.nansum(values) / np.sum(np.isfinite(values)))
-- 
2.43.0


From 0fc0f81c745a567c3d339fbcf6572817e9a944a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:26 +0000
Subject: [PATCH 28/94] fix: missing values carry no weight in StatMoments

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 65aa78d..8fef4be 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -796,6 +796,9 @@ def compute_moments(img, weights):
 
     '''
 
+    # Missing values carry no weight
+    weights = np.where(np.isnan(img), 0., weights)
+
     mean = np.nansum(img * weights) / np.nansum(weights)
     variance = np.nansum(weights * (img - mean) ** 2.) / np.nansum(weights)
 
-- 
2.43.0


From a8037e6dcf84eea3371ad1480c3d8139dcb0b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:26 +0000
Subject: [PATCH 29/94] fix: StatMoments.run honours min_frac

---
 turbustat/statistics/stat_moments/highstatmoments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 8fef4be..6cb3dcc 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -470,6 +470,7 @@ class StatMoments(BaseStatisticMixIn):
 
         self.array_moments()
         self.compute_spatial_distrib(periodic=periodic, radius=radius,
+                                     min_frac=min_frac,
                                      show_progress=show_progress)
         self.make_spatial_histograms(**hist_kwargs)
 
-- 
2.43.0


From b856ef1d643b9a81e08c71f483f02168943d4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:33 +0000
Subject: [PATCH 30/94] fix: the beam area used by Genus converts both FWHMs to
 sigmas

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 23b71a3..5ffbbc9 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -275,7 +275,7 @@ class Genus(BaseStatisticMixIn):
             major = self._to_pixel(major)
             minor = self._to_pixel(minor)
             # the area of a Gaussian beam is 2 pi sigma^2, and major/minor are FWHMs
-            pix_area = 2 * np.pi * major * minor / np.sqrt(8*np.log(2))
+            pix_area = 2 * np.pi * major * minor / (8*np.log(2))
             min_size = int(np.floor(pix_area.value))
         else:
             if isinstance(min_size, u.Quantity):
-- 
2.43.0


From 8678a51e953984054f4f5e54a01e7224f298f57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:29 +0000
Subject: [PATCH 31/94] fix: Genus match_kernel gives the kernel the shape of
 the data

---
 turbustat/statistics/genus/genus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 5ffbbc9..d5866c7 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -308,8 +308,8 @@ class Genus(BaseStatisticMixIn):
             else:
                 if match_kernel:
                     kernel = Gaussian2DKernel(width,
-                                              x_size=self.data.shape[0],
-                                              y_size=self.data.shape[1])
+                                              x_size=self.data.shape[1],
+                                              y_size=self.data.shape[0])
                 else:
                     kernel = Gaussian2DKernel(width)
 
-- 
2.43.0


From 88f0f39e56f6d1c297a06ce4c8342972868e94b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:29 +0000
Subject: [PATCH 32/94] fix: make_genus_stats_table returns one table per
 smoothing radius

---
 turbustat/statistics/genus/genus.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index d5866c7..4e553b4 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -380,8 +380,6 @@ class Genus(BaseStatisticMixIn):
 
             tab.add_column(Column(std_vals, name='data_std'))
 
-            genus_tables.append(tab)
-
             if hasattr(radius, 'unit'):
                 radius_vals = ([radius.value] * len(self.thresholds)) * radius.unit
             else:
-- 
2.43.0


From 3d3e832d8b4120c28e968c50d6937111d699b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:23 +0000
Subject: [PATCH 33/94] fix: MVC handles pixels missing in only some of the
 moment maps

---
 turbustat/statistics/mvc/mvc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 318b4eb..c7e962a 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -79,10 +79,10 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         self.shape = self.centroid.shape
 
         # Get rid of nans.
-        isnan = np.logical_and(np.isnan(self.centroid),
-                               np.isnan(self.moment0))
-        isnan = np.logical_and(isnan,
-                               np.isnan(self.linewidth))
+        isnan = np.logical_or(np.isnan(self.centroid),
+                              np.isnan(self.moment0))
+        isnan = np.logical_or(isnan,
+                              np.isnan(self.linewidth))
 
         if isnan.any():
             # Need to make copies to avoid making changes to original data
-- 
2.43.0


From 55faead69757ff66cb52e982d8a84e9c8ba510ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:23 +0000
Subject: [PATCH 34/94] fix: missing values carry no weight in DeltaVariance
 when weights are given

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 39bd0ba..03229cb 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -69,6 +69,10 @@ class DeltaVariance(BaseStatisticMixIn):
             self.weights = np.isfinite(self.data).astype(float)
         else:
             self.weights = input_data(weights, no_header=True)
+            # Missing values carry no weight
+            missing = ~np.isfinite(self.data * self.weights)
+            if missing.any():
+                self.weights = np.where(missing, 0., self.weights)
 
         if distance is not None:
             self.distance = distance
-- 
2.43.0


From 429e6472d3c6c7f1724923ab748fc6cf1aaec855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:40 +0000
Subject: [PATCH 35/94] fix: VCS averages over the spectra that have data,
 whatever their sign

---
 turbustat/statistics/vca_vcs/vcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index a908e94..54d3299 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -42,6 +42,7 @@ class VCS(BaseStatisticMixIn):
             self.data = self.data.copy()
             self.data[isnan] = 0.
             self._has_nan_flag = True
+            self._good_pixel_count = np.sum(~isnan.all(axis=0))
 
         self.vel_channels = np.arange(1, self.data.shape[0], 1)
 
@@ -66,7 +67,7 @@ class VCS(BaseStatisticMixIn):
 
         if self._has_nan_flag:
             # Is this the best way to be averaging the data?
-            good_pixel_count = np.sum(self.data.max(axis=0) != 0)
+            good_pixel_count = self._good_pixel_count
         else:
             good_pixel_count = \
                 float(self.data.shape[1] * self.data.shape[2])
-- 
2.43.0


From e389178d01869b83915cfbd16ad2781dd07bb66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:51 +0000
Subject: [PATCH 36/94] fix: the 'spectra' format of Cramer_Distance picks the
 brightest spectra in non-square cubes

---
 turbustat/statistics/threeD_to_twoD.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index c365e7c..34a2c11 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -69,7 +69,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
     Rearrange data into a 2D object using the given format.
     '''
 
-    if data_format is "spectra":
+    if data_format == "spectra":
         if num_spec is None:
             raise ValueError('Must specify num_spec for data format',
                              'spectra.')
@@ -84,12 +84,12 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
         y = np.empty((num_spec,), dtype=int)
 
         for i in range(num_spec):
-            x[i] = int(bright_spectra[i] / cube.shape[1])
+            x[i] = int(bright_spectra[i] / cube.shape[2])
             y[i] = int(bright_spectra[i] % cube.shape[2])
 
         data_matrix = cube[:, x, y]
 
-    elif data_format is "intensity":
+    elif data_format == "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
                                      p=p)
 
@@ -100,7 +100,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
     # Normalize by rescaling the data to an interval between 0 and 1
     # Ignore all values of 0, since they're just filled in.
     if normalize:
-        data_matrix /= np.linalg.norm(data_matrix, ord=2)
+        data_matrix = data_matrix / np.linalg.norm(data_matrix, ord=2)
 
     return data_matrix
 
-- 
2.43.0


From 7c73b36451bf5d0aba6979dc632277358ed5030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:03 +0000
Subject: [PATCH 37/94] fix: Cramer_Distance does not re-seed numpy's global
 random state

---
 turbustat/statistics/cramer/cramer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/cramer/cramer.py b/turbustat/statistics/cramer/cramer.py
index 1bc1d59..aade6b7 100644
--- a/turbustat/statistics/cramer/cramer.py
+++ b/turbustat/statistics/cramer/cramer.py
@@ -95,7 +95,7 @@ class Cramer_Distance(object):
         if samps1 != samps2:
 
             # Set the seed due to the sampling
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
             if samps1 < samps2:
 
@@ -103,8 +103,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix2.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix2[i, :], samps1,
-                                         replace=False)
+                        rng.choice(self.data_matrix2[i, :], samps1,
+                                   replace=False)
 
                 self._data_matrix2 = new_data
 
@@ -114,8 +114,8 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix1.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix1[i, :], samps2,
-                                         replace=False)
+                        rng.choice(self.data_matrix1[i, :], samps2,
+                                   replace=False)
 
                 self._data_matrix1 = new_data
 
-- 
2.43.0


From 4844aa6faaa9e79c84560e2a5fff03f8c2bb7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:09 +0000
Subject: [PATCH 38/94] fix: Dendrogram_Stats.make_hists uses the given bins
 for every histogram

---
 turbustat/statistics/dendrograms/dendro_stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 0207fad..28efbc3 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -222,17 +222,18 @@ class Dendrogram_Stats(BaseStatisticMixIn):
 
         hists = []
 
+        given_bins = kwargs.pop('bins', None)
+
         for value in self.values:
 
             if len(value) < min_number:
                 hists.append([np.zeros((0, ))] * 2)
                 continue
 
-            if 'bins' not in kwargs:
+            if given_bins is None:
                 bins = int(np.sqrt(len(value)))
             else:
-                bins = kwargs['bins']
-                kwargs.pop('bins')
+                bins = given_bins
 
             hist, bins = np.histogram(value, bins=bins, **kwargs)
             bin_cents = (bins[:-1] + bins[1:]) / 2
-- 
2.43.0


From 52f8edb103f65669b988ae383cd7b65e17d3fa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 39/94] fix: Dendrogram_Distance.histogram_stat can be repeated

---
 turbustat/statistics/dendrograms/dendro_stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 28efbc3..3682e22 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -513,6 +513,7 @@ class Dendrogram_Distance(object):
                               "Dendrogram_Stats.")
 
         self.nbins = nbins
+        self._input_nbins = nbins
 
         if min_deltas is None:
             # min_deltas = np.append(np.logspace(-1.5, -0.7, 8),
@@ -722,12 +723,12 @@ class Dendrogram_Distance(object):
             Set the color, symbol, and label for dataset2.
         '''
 
-        if self.nbins == "best":
+        if self._input_nbins == "best":
             self.nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
                           zip(self.dendro1.numfeatures[:self.cutoff],
                               self.dendro2.numfeatures[:self.cutoff])]
         else:
-            self.nbins = [self.nbins] * \
+            self.nbins = [self._input_nbins] * \
                 len(self.dendro1.numfeatures[:self.cutoff])
 
         self.nbins = np.array(self.nbins, dtype=int)
-- 
2.43.0


From b2771477b0dc6e499992bf60e12c25de9fa21215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 40/94] fix: MVC.save_results drops all the data unless
 keep_data is set

---
 turbustat/statistics/mvc/mvc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index c7e962a..835a6f0 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -217,6 +217,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
 
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
+            self_copy._data = None
             self_copy._centroid = None
             self_copy._moment0 = None
             self_copy._linewidth = None
-- 
2.43.0


From c3fd52e38544d1fe8a28899093fbcfc73ea78e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:05:34 +0000
Subject: [PATCH 41/94] fix: the beam survives save_results and load_results

---
 turbustat/statistics/base_statistic.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/turbustat/statistics/base_statistic.py b/turbustat/statistics/base_statistic.py
index 4b9aa9d..fc82532 100644
--- a/turbustat/statistics/base_statistic.py
+++ b/turbustat/statistics/base_statistic.py
@@ -125,6 +125,20 @@ class BaseStatisticMixIn(object):
             self.data, self.header = input_data(data,
                                                 need_copy=need_copy)
 
+    def __getstate__(self):
+        # The properties of a Beam do not survive being copied or pickled.
+        state = self.__dict__.copy()
+        beam = state.get('_beam')
+        if beam is not None:
+            state['_beam'] = (beam.major, beam.minor, beam.pa)
+        return state
+
+    def __setstate__(self, state):
+        self.__dict__.update(state)
+        if isinstance(state.get('_beam'), tuple):
+            major, minor, pa = state['_beam']
+            self._beam = Beam(major=major, minor=minor, pa=pa)
+
     def save_results(self, output_name, keep_data=False):
         '''
         Save the results of the SCF to avoid re-computing.
-- 
2.43.0


From a97e33189d23e5b75dab84e3479a401afe858247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:09:26 +0000
Subject: [PATCH 42/94] fix: plot_fit of power-spectra handles fits with a
 break and other units

---
 turbustat/statistics/base_pspec2.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 67447d7..b29bf2f 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -719,8 +719,12 @@ class StatisticBase_PSpec2D(object):
                                    capsize=10, elinewidth=3)
 
         xvals_plot = np.log10(xvals[fit_index]).ravel()
-        # y_fit = self.fit.fittedvalues
-        y_fit = self.fit.predict(sm.add_constant(xvals_plot))
+        # The fit is in pixel frequencies
+        fit_freqs = np.log10(self.freqs.value[fit_index]).ravel()
+        if isinstance(self.slope, np.ndarray):
+            y_fit = self._model.model(fit_freqs)
+        else:
+            y_fit = self.fit.predict(sm.add_constant(fit_freqs))
 
         ax_1D.plot(xvals_plot, y_fit, linestyle='-',
                    label=label, linewidth=3, color=fit_color)
-- 
2.43.0


From cb526377bf155391577cc2d7709416e6074379cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 43/94] fix: uncertainties of the two-dimensional fit come from
 the fit that is kept

---
 turbustat/statistics/elliptical_powerlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index 7b51b77..de31e82 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -114,8 +114,8 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
             model_f = LogEllipticalPowerLaw2D(*p0_f)
 
             fitter_f = fitting.LevMarLSQFitter()
-            fit_model_f = fitter(model_f, x, y, values, weights=weights,
-                                 estimate_jacobian=True)
+            fit_model_f = fitter_f(model_f, x, y, values, weights=weights,
+                                   estimate_jacobian=True)
 
             resids_f = np.sum(np.abs(values - fit_model_f(x, y)))
 
-- 
2.43.0


From d0d93a7a0e083fe5a4ab4bceb17bb14d98e93906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:36 +0000
Subject: [PATCH 44/94] fix: DeltaVariance.lags set in angular or physical
 units are used as such

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 03229cb..e5bbbef 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -120,7 +120,7 @@ class DeltaVariance(BaseStatisticMixIn):
                              " the image size. Remove these lags from the "
                              "array.")
 
-        self._lags = values
+        self._lags = pix_lags
 
     @property
     def weights(self):
-- 
2.43.0


From cf5eff85cd891e7d07052cd8325543e92ab2a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:33 +0000
Subject: [PATCH 45/94] fix: residuals in DeltaVariance.plot_fit do not depend
 on the unit of the axis

---
 turbustat/statistics/delta_variance/delta_variance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index e5bbbef..4893c2f 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -578,7 +578,8 @@ class DeltaVariance(BaseStatisticMixIn):
         ax.grid(True)
 
         if show_residual:
-            resids = self.delta_var - 10**self.fitted_model(np.log10(lags))
+            resids = self.delta_var - \
+                10**self.fitted_model(np.log10(self.lags.value))
             ax_r.errorbar(lags[fin_vals], resids[fin_vals],
                           yerr=self.delta_var_error[fin_vals],
                           fmt="{}-".format(symbol), color=color,
-- 
2.43.0


From 772767cbc541eb52fa85add69baccc8cddd3b135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:48 +0000
Subject: [PATCH 46/94] fix: PDF.fit_pdf with both loc and scale fixed, and the
 plotted CDF uses the fitted loc

---
 turbustat/statistics/pdf/compare_pdf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index f550f66..1ba98de 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -50,6 +50,10 @@ class _PDFLikelihood(GenericLikelihoodModel):
             scale = params[-1]
             loc = self._loc
             cut = -1
+        else:
+            scale = self._scale
+            loc = self._loc
+            cut = None
 
         loglikes = \
             self._dist.logpdf(self.endog, *params[:cut],
@@ -288,7 +292,9 @@ class PDF(BaseStatisticMixIn):
 
         # Do an initial fit with the scipy model
         if floc and fscale:
-            init_params = model.fit(self.data)
+            init_params = model.fit(self.data, floc=loc, fscale=scale)
+            # Remove loc and scale from the params
+            init_params = init_params[:-2]
         elif floc:
             init_params = model.fit(self.data, floc=loc)
             # Remove loc from the params
@@ -503,7 +509,7 @@ class PDF(BaseStatisticMixIn):
                     ax2.semilogx(vals,
                                  self._scipy_model.cdf(vals, *params,
                                                        scale=scale,
-                                                       loc=0),
+                                                       loc=loc),
                                  '--', color=fit_color)
             plt.grid(True)
             plt.xlabel(xlabel)
-- 
2.43.0


From dcfe9310e7ad3c022cc68863883f5b75ec1b90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:54 +0000
Subject: [PATCH 47/94] fix: PCA.noise_ACF is the mean of the noise images, not
 its negative

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index d6bce51..4d09a6c 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -332,7 +332,7 @@ class PCA(BaseStatisticMixIn):
 
         acors = self.autocorr_images(n_eigs=n_eigs)
 
-        noise_ACF = np.nansum(acors, axis=0) / float(n_eigs)
+        noise_ACF = np.nansum(acors, axis=0) / float(len(acors))
 
         return noise_ACF
 
-- 
2.43.0


From 35392b90254e93f8ca64ffb2689927328d4ac4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:54 +0000
Subject: [PATCH 48/94] fix: PCA.eigimages keeps the orientation of the data
 and works for a single eigenvector

---
 turbustat/statistics/pca/pca.py | 37 +++++++++++++--------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 4d09a6c..b915105 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -222,7 +222,9 @@ class PCA(BaseStatisticMixIn):
             # n_eigs of those.
             iterat = self._valid_eigenvectors()[n_eigs:]
 
-        for ct, idx in enumerate(iterat):
+        eigimgs = []
+
+        for idx in iterat:
             eigimg = np.zeros(self.data.shape[1:], dtype=float)
             for channel in range(self.data.shape[0]):
                 if self._mean_sub:
@@ -234,15 +236,9 @@ class PCA(BaseStatisticMixIn):
                     eigimg += np.nan_to_num(self.data[channel] *
                                             np.real_if_close(
                                                 self.eigvecs[channel, idx]))
-            if ct == 0:
-                eigimgs = eigimg
-            else:
-                eigimgs = np.dstack((eigimgs, eigimg))
+            eigimgs.append(eigimg)
 
-        if eigimgs.ndim == 3:
-            return eigimgs.swapaxes(0, 2)
-        else:
-            return eigimgs
+        return np.array(eigimgs)
 
     def autocorr_images(self, n_eigs=None):
         '''
@@ -267,21 +263,17 @@ class PCA(BaseStatisticMixIn):
         # Calculate the eigenimages
         eigimgs = self.eigimages(n_eigs=n_eigs)
 
-        for idx, image in enumerate(eigimgs):
+        acors = []
+
+        for image in eigimgs:
             fftx = np.fft.fft2(image)
             fftxs = np.conjugate(fftx)
             acor = np.fft.ifft2((fftx - fftx.mean()) * (fftxs - fftxs.mean()))
             acor = np.fft.fftshift(acor)
 
-            if idx == 0:
-                acors = acor.real
-            else:
-                acors = np.dstack((acors, acor.real))
+            acors.append(acor.real)
 
-        if acors.ndim == 3:
-            return acors.swapaxes(0, 2)
-        else:
-            return acors
+        return np.array(acors)
 
     def autocorr_spec(self, n_eigs=None):
         '''
@@ -302,16 +294,15 @@ class PCA(BaseStatisticMixIn):
         if n_eigs is None:
             n_eigs = self.n_eigs
 
+        acors = []
+
         for idx in range(n_eigs):
             fftx = np.fft.fft(self.eigvecs[:, idx])
             fftxs = np.conjugate(fftx)
             acor = np.fft.ifft((fftx - fftx.mean()) * (fftxs - fftxs.mean()))
-            if idx == 0:
-                acors = acor.real
-            else:
-                acors = np.dstack((acors, acor.real))
+            acors.append(acor.real)
 
-        return acors.swapaxes(0, 1).squeeze()
+        return np.array(acors).T
 
     def noise_ACF(self, n_eigs=-10):
         '''
-- 
2.43.0


From 4fbe25fd6a55b1974fdabea2980a87361edca145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:54 +0000
Subject: [PATCH 49/94] fix: PCA.model evaluates the fitted line

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index b915105..662a26d 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -639,7 +639,7 @@ class PCA(BaseStatisticMixIn):
         '''
         Model with the fit parameters from `~PCA.fit_plaw`
         '''
-        return self.index * x + np.log10(self.intercept)
+        return self.index * x + np.log10(self.intercept().value)
 
     def sonic_length(self, T_k=10 * u.K, mu=1.36, use_gamma=True,
                      unit=u.pix):
-- 
2.43.0


From 86d2d475223baf13dda84e2b466e85e684bb5221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:13 +0000
Subject: [PATCH 50/94] fix: residual_bootstrap uses every residual and the
 weights of the fit

---
 turbustat/statistics/fitting_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/fitting_utils.py b/turbustat/statistics/fitting_utils.py
index edc9beb..aa0f7f9 100644
--- a/turbustat/statistics/fitting_utils.py
+++ b/turbustat/statistics/fitting_utils.py
@@ -332,10 +332,10 @@ def residual_bootstrap(fit_model, nboot=1000, seed=38574895,
 
         for _ in range(nboot):
 
-            y_resamp = y + y_res[np.random.choice(y_res.size - 1, y_res.size)]
+            y_resamp = y + y_res[np.random.choice(y_res.size, y_res.size)]
 
             resamp_mod = fit_model.model.__class__(y_resamp,
-                                                   fit_model.model.exog)
+                                                   fit_model.model.wexog)
             resamp_fit = resamp_mod.fit(**fit_kwargs)
 
             if debug:
-- 
2.43.0


From 9b44e74dc8155f463b4e5d89f452a829a67f3a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:19 +0000
Subject: [PATCH 51/94] fix: WidthEstimate1D does not alter the given spectra

---
 turbustat/statistics/pca/width_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 36c2755..b88ea03 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -352,7 +352,7 @@ def WidthEstimate1D(inList, method='walk-down'):
                 scales[idx] = np.abs(output.stddev.value) * np.sqrt(2)
             scale_errors[idx] = errors[-1] * np.sqrt(2)
         elif method == "walk-down":
-            y /= y.max()
+            y = y / y.max()
             # Starting from the first point, start walking down the curve until
             # 1/e is reached
             for i, val in enumerate(y):
-- 
2.43.0


From 20b3dd96f7da17605bd41dcb651349e2125d02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:31 +0000
Subject: [PATCH 52/94] fix: EllipseModel parameters are real for near-circular
 points

---
 turbustat/statistics/stats_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index c355f22..57e56e4 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -311,7 +311,8 @@ class EllipseModel(object):
         if a > c:
             phi += 0.5 * np.pi
 
-        self.params = np.nan_to_num([x0, y0, width, height, phi])
+        # Rounding can leave a null imaginary part for near-circular points.
+        self.params = np.real(np.nan_to_num([x0, y0, width, height, phi]))
 
         return True
 
-- 
2.43.0


From 5649aec443004c3ef69bfbc904bbb6b566c97221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:10 +0000
Subject: [PATCH 53/94] fix: simulated fields with an odd size have the
 requested size and power law

---
 turbustat/simulator/gen_field.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index a4a1d0f..9c70f13 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -99,30 +99,21 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
 
         output[1:Np1 + 1, 1:Np1 + 1, 0] = \
             np.conj(output[imsize:Np1:-1, imsize:Np1:-1, 0])
-        output[1:Np1 + 1, 1:Np1 + 1, -1] = \
-            np.conj(output[imsize:Np1:-1, imsize:Np1:-1, -1])
 
         # And the conjugates off the diagonal must also equal:
         output[1:Np1 + 1, imsize:Np1:-1, 0] = \
             np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
-        output[1:Np1 + 1, imsize:Np1:-1, 0] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
 
         # The 2D equivalents along the 0 frequency
         output[1:Np1 + 1, 0, 0] = np.conj(output[imsize:Np1:-1, 0, 0])
-        output[1:Np1 + 1, 0, -1] = np.conj(output[imsize:Np1:-1, 0, -1])
         output[0, 1:Np1 + 1, 0] = np.conj(output[0, imsize:Np1:-1, 0])
-        output[0, 1:Np1 + 1, -1] = np.conj(output[0, imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
     output[0, 0, 0] = output[0, 0, 0].real + 1j * 0.0
-    output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
+    if imsize % 2 == 0:
+        output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
-    newmap = np.fft.irfftn(output)
+    newmap = np.fft.irfftn(output, s=(imsize,) * 3)
 
     # Normalize to the correct amplitude.
     newmap /= (np.sqrt(np.sum(newmap**2)) / np.sqrt(newmap.size)) / amp
@@ -225,10 +216,10 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
 
     else:
         output[1:Np1 + 1, 0] = np.conj(output[imsize:Np1:-1, 0])
-        output[1:Np1 + 1, -1] = np.conj(output[imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
-    output[0, -1] = output[0, -1].real + 1j * 0.0
+    if imsize % 2 == 0:
+        output[0, -1] = output[0, -1].real + 1j * 0.0
     output[0, 0] = output[0, 0].real + 1j * 0.0
 
     if return_fft:
@@ -252,6 +243,6 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
 
         return np.fft.fftshift(full_powermap)
 
-    newmap = np.fft.irfft2(output)
+    newmap = np.fft.irfft2(output, s=(imsize, imsize))
 
     return newmap
-- 
2.43.0


From 09add16c12e01bca44e145fc5c02f9648fff7604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:56 +0000
Subject: [PATCH 54/94] fix: make_ppv handles velocity limits and channel
 widths in any velocity unit

---
 turbustat/simulator/make_cube.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/turbustat/simulator/make_cube.py b/turbustat/simulator/make_cube.py
index 8b61321..5fd7bb6 100644
--- a/turbustat/simulator/make_cube.py
+++ b/turbustat/simulator/make_cube.py
@@ -121,6 +121,10 @@ def make_ppv(vel_field, dens_field, los_axis=0,
         if not v_max.unit.is_equivalent(u.km / u.s):
             raise u.UnitsError("v_max must be given in velocity units.")
 
+    # The velocity axis is defined in the units of the velocity field
+    v_min = v_min.to(vel_field.unit)
+    v_max = v_max.to(vel_field.unit)
+
     if v_min > v_max:
         raise ValueError("v_min > v_max is not allowed.")
 
@@ -144,10 +148,10 @@ def make_ppv(vel_field, dens_field, los_axis=0,
 
         v_eff = np.sqrt(dv_sq + 2 * v_therm_sq).to(vel_field.unit)
 
-        N_chan = int(np.ceil(del_v / (v_eff / 2.)).value)
+        N_chan = int(np.ceil((del_v / (v_eff / 2.)).to(u.one).value))
 
     else:
-        N_chan = int(np.ceil(del_v / chan_width))
+        N_chan = int(np.ceil((del_v / chan_width).to(u.one).value))
 
     if verbose:
         print("Number of spectral channels {}".format(N_chan))
@@ -158,7 +162,7 @@ def make_ppv(vel_field, dens_field, los_axis=0,
     if N_chan < 6:
         warn("<6 channels will be used ({} channels). Recommend increasing the"
              " number of channels. See Esquivel et al. (2003) and Chepurnov & "
-             "Lazarian (2009).")
+             "Lazarian (2009).".format(N_chan))
 
     if N_chan > max_chan:
         raise ValueError("Number of channels larger than set maximum"
-- 
2.43.0


From 1af0615a96e0cfc9887789b175e444322b57f0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:15 +0000
Subject: [PATCH 55/94] fix: make_ppv keeps voxels whose velocity is on a
 channel edge

---
 turbustat/simulator/spectrum.pyx | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/turbustat/simulator/spectrum.pyx b/turbustat/simulator/spectrum.pyx
index 4de3b18..5073a65 100644
--- a/turbustat/simulator/spectrum.pyx
+++ b/turbustat/simulator/spectrum.pyx
@@ -35,7 +35,7 @@ def generate_spectrum(np.ndarray[np.float64_t, ndim=1] vel,
 
     '''
 
-    cdef int i, jj, ni
+    cdef int i, jj, ni, n_chan
     cdef np.ndarray[np.uint8_t, ndim=1, cast=True] contribs
     cdef np.ndarray[np.float64_t, ndim=1] spectrum
     cdef np.ndarray[np.float64_t, ndim=1] sigma
@@ -43,11 +43,17 @@ def generate_spectrum(np.ndarray[np.float64_t, ndim=1] vel,
     cdef np.ndarray[np.float64_t, ndim=1] term2
 
     spectrum = np.zeros_like(vel_edges[:-1])
+    n_chan = spectrum.shape[0]
 
     for i, (vel_l, vel_h) in enumerate(zip(vel_edges[:-1], vel_edges[1:])):
 
         # Find locations of all contributions at this velocity
-        contribs = (vel > vel_l) & (vel < vel_h)
+        # (a velocity on an edge belongs to the channel above it, apart from
+        # the last edge)
+        if i == n_chan - 1:
+            contribs = (vel >= vel_l) & (vel <= vel_h)
+        else:
+            contribs = (vel >= vel_l) & (vel < vel_h)
 
         if not contribs.any():
             continue
-- 
2.43.0


From 0c1cddf87f7aa23e84794aa9bc3d1d51aa20bd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:15 +0000
Subject: [PATCH 56/94] fix: simulated headers of non-square maps and with a
 frequency axis

---
 turbustat/io/sim_tools.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/turbustat/io/sim_tools.py b/turbustat/io/sim_tools.py
index 51cb56a..3247881 100644
--- a/turbustat/io/sim_tools.py
+++ b/turbustat/io/sim_tools.py
@@ -66,15 +66,16 @@ def create_cube_header(pixel_scale, spec_pixel_scale, beamfwhm, imshape,
               'BMAJ': beamfwhm.to(u.deg).value,
               'BMIN': beamfwhm.to(u.deg).value,
               'BPA': 0.0,
-              'CRPIX1': imshape[1] / 2.,
-              'CRPIX2': imshape[2] / 2.,
+              'CRPIX1': imshape[2] / 2.,
+              'CRPIX2': imshape[1] / 2.,
               'CRVAL1': 0.0,
               'CRVAL2': 0.0,
               'CTYPE1': 'GLON-CAR',
               'CTYPE2': 'GLAT-CAR',
               'CUNIT1': 'deg',
               'CUNIT2': 'deg',
-              'CRVAL3': v0.to(spec_pixel_scale.unit).value,
+              'CRVAL3': v0.to(spec_pixel_scale.unit,
+                              equivalencies=u.doppler_radio(restfreq)).value,
               'CUNIT3': spec_pixel_scale.unit.to_string(),
               'CDELT3': spec_pixel_scale.value,
               'CRPIX3': 1,
@@ -117,8 +118,8 @@ def create_image_header(pixel_scale, beamfwhm, imshape,
               'BMAJ': beamfwhm.to(u.deg).value,
               'BMIN': beamfwhm.to(u.deg).value,
               'BPA': 0.0,
-              'CRPIX1': imshape[0] / 2.,
-              'CRPIX2': imshape[1] / 2.,
+              'CRPIX1': imshape[1] / 2.,
+              'CRPIX2': imshape[0] / 2.,
               'CRVAL1': 0.0,
               'CRVAL2': 0.0,
               'CTYPE1': 'GLON-CAR',
-- 
2.43.0


From 69b017c9daa8cc7f34b17e2e115e13abe90ae5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:59 +0000
Subject: [PATCH 57/94] fix: masked voxels add no noise to the moment errors,
 and cubes without a mask work

---
 turbustat/moments/_moment_errs.py | 33 +++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/turbustat/moments/_moment_errs.py b/turbustat/moments/_moment_errs.py
index 93340f2..f670fa5 100644
--- a/turbustat/moments/_moment_errs.py
+++ b/turbustat/moments/_moment_errs.py
@@ -211,6 +211,17 @@ def moment2_error(cube, scale, axis=0, how='auto', moment0=None, moment1=None,
                       header=cube._nowcs_header)
 
 
+def _included(cube, view=(slice(None),) * 3):
+    '''
+    The voxels that are used in the moments.
+    '''
+
+    if cube._mask is None:
+        return np.isfinite(cube.filled_data[view])
+
+    return cube._mask.include(data=cube._data, wcs=cube._wcs, view=view)
+
+
 def _slice0(cube, axis, scale):
     """
     0th moment along an axis, calculated slicewise
@@ -242,8 +253,7 @@ def _slice0(cube, axis, scale):
 
     for i in range(cube.shape[axis]):
         view[axis] = i
-        plane = cube._mask.include(data=cube._data, wcs=cube._wcs,
-                                   view=tuple(view))
+        plane = _included(cube, tuple(view))
         valid |= plane
 
         if _scale_cube:
@@ -314,7 +324,8 @@ def _slice1(cube, axis, scale, moment0, moment1):
         else:
             noise_plane = scale
 
-        result += np.power((term1 - term2) * noise_plane, 2)
+        result += np.power((term1 - term2) * noise_plane, 2) * \
+            _included(cube, tuple(view))
 
     return np.sqrt(result)
 
@@ -376,7 +387,8 @@ def _slice2(cube, axis, scale, moment0, moment1, moment2,
         else:
             noise_plane = scale
 
-        term1 += np.power((term11 - term12) * noise_plane, 2)
+        term1 += np.power((term11 - term12) * noise_plane, 2) * \
+            _included(cube, tuple(view))
 
         term2 += np.nan_to_num(plane) * (pix_cen[tuple(view)] - moment1)
 
@@ -399,11 +411,15 @@ def _cube0(cube, axis, scale):
     else:
         noise_plane = scale
 
+    include = _included(cube)
+
     error_arr = \
         np.sqrt(
-            np.sum(cube._mask.include(data=cube._data, wcs=cube._wcs) *
+            np.sum(include *
                    noise_plane**2, axis=axis)) * cube._pix_size_slice(axis)
 
+    error_arr[~include.any(axis=axis)] = np.nan
+
     return error_arr
 
 
@@ -439,8 +455,8 @@ def _cube1(cube, axis, scale, moment0, moment1):
     term2 = moment1 / axis_sum
 
     result = np.sqrt(np.sum(np.power((term1 - term2) *
-                                     np.nan_to_num(noise_plane), 2),
-                            axis=axis))
+                                     np.nan_to_num(noise_plane), 2) *
+                            _included(cube), axis=axis))
 
     good_pix = np.isfinite(moment0) + np.isfinite(moment1)
 
@@ -476,7 +492,8 @@ def _cube2(cube, axis, scale, moment0, moment1, moment2,
     term11 = np.power((pix_cen - moment1), 2) / axis_sum
     term12 = moment2 / axis_sum
 
-    term1 = np.sum(np.power((term11 - term12) * noise_plane, 2), axis=axis)
+    term1 = np.sum(np.power((term11 - term12) * noise_plane, 2) *
+                   _included(cube), axis=axis)
 
     term21 = u.Quantity(np.nan_to_num(plane) * (pix_cen - moment1))
 
-- 
2.43.0


From 966b73d2d4d1006fed60e093258e2ed7ee83c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:59 +0000
Subject: [PATCH 58/94] fix: Moments errors with any method, noise in other
 units and moments without units

---
 turbustat/moments/make_moments.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index a2a544a..236c178 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -164,16 +164,26 @@ class Moments(object):
             if scale is None:
                 scale = self.scale
 
+            # The errors are in the units of the cube
+            scale = scale.to(self.cube.unit)
+
+            spec_unit = self.cube.spectral_axis.unit
+            moment0 = u.Quantity(self.moment0, self.cube.unit * spec_unit)
+            moment1 = u.Quantity(self.moment1, spec_unit)
+
+            # There is no 'ray' method for the errors
+            how = 'slice' if self.moment_how == 'ray' else self.moment_how
+
             self._moment0_err = moment0_error(self.cube, scale,
-                                              how=self.moment_how, axis=axis)
+                                              how=how, axis=axis)
             self._moment1_err = moment1_error(self.cube, scale,
-                                              how=self.moment_how,
-                                              axis=axis, moment0=self.moment0,
-                                              moment1=self.moment1)
+                                              how=how,
+                                              axis=axis, moment0=moment0,
+                                              moment1=moment1)
             self._linewidth_err = \
                 linewidth_sigma_err(self.cube, scale,
-                                    how=self.moment_how, moment0=self.moment0,
-                                    moment1=self.moment1,
+                                    how=how, moment0=moment0,
+                                    moment1=moment1,
                                     moment1_err=self.moment1_err)
 
     @property
-- 
2.43.0


From 3c57469f4c0972a435e298ea16fae412b6b1e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:13 +0000
Subject: [PATCH 59/94] fix: Dendrogram_Stats accepts min_deltas given as a
 list or a single value

---
 turbustat/statistics/dendrograms/dendro_stats.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 3682e22..23874b5 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -97,14 +97,12 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             self._min_deltas = np.array([self.dendro_params["min_delta"]])
         else:
             # Multiple values given. Ensure they are in increasing order
+            value = np.atleast_1d(value)
             if not (np.diff(value) > 0).all():
                 raise ValueError("Multiple values of min_delta must be given "
                                  "in increasing order.")
 
-            if not isinstance(value, np.ndarray):
-                self._min_deltas = np.array([value])
-            else:
-                self._min_deltas = value
+            self._min_deltas = value
 
     def autoset_min_deltas(self, num=10):
         '''
-- 
2.43.0


From 3c1c91e1816e26b2b68feb067e1d8f878a3991dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:13 +0000
Subject: [PATCH 60/94] fix: dendrograms are saved when asked for and
 load_dendrogram works

---
 .../statistics/dendrograms/dendro_stats.py    | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 23874b5..7aa4d81 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -15,6 +15,7 @@ Requires the astrodendro package (http://github.com/astrodendro/dendro-core)
 import numpy as np
 from warnings import warn
 import statsmodels.api as sm
+from astropy.io import fits
 from astropy.utils.console import ProgressBar
 import warnings
 
@@ -149,6 +150,13 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             Enable when the data is periodic in the spatial dimensions.
         '''
 
+        if save_dendro:
+            if dendro_name is None:
+                raise ValueError("dendro_name must be given to save the "
+                                 "dendrogram.")
+            if not dendro_name.endswith(".hdf5"):
+                dendro_name += ".hdf5"
+
         self._numfeatures = np.empty(self.min_deltas.shape, dtype=int)
         self._values = []
 
@@ -171,6 +179,10 @@ class Dendrogram_Stats(BaseStatisticMixIn):
                                    neighbours=neighbours)
         else:
             d = dendro_obj
+
+        if save_dendro:
+            d.save_to(dendro_name)
+
         self._numfeatures[0] = len(d)
         self._values.append(np.array([struct.vmax for struct in
                                       d.all_structures]))
@@ -338,7 +350,14 @@ class Dendrogram_Stats(BaseStatisticMixIn):
 
         dendro = Dendrogram.load_from(hdf5_file)
 
-        self = Dendrogram_Stats(dendro.data, min_deltas=min_deltas,
+        # The dendrogram only has a WCS if it was given when it was computed
+        if dendro.wcs is not None:
+            header = dendro.wcs.to_header()
+        else:
+            header = fits.Header()
+
+        self = Dendrogram_Stats(dendro.data, header=header,
+                                min_deltas=min_deltas,
                                 dendro_params=dendro.params)
 
         return self
-- 
2.43.0


From 76ed0aa56e28deac1fcfd1a514452d21de7a2c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:13 +0000
Subject: [PATCH 61/94] fix: mecdf ignores the padding of rows with fewer bins

---
 turbustat/statistics/dendrograms/mecdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/dendrograms/mecdf.py b/turbustat/statistics/dendrograms/mecdf.py
index fe273b1..e999036 100644
--- a/turbustat/statistics/dendrograms/mecdf.py
+++ b/turbustat/statistics/dendrograms/mecdf.py
@@ -35,6 +35,6 @@ def mecdf(arr):
     ecdf = np.empty(arr.shape)
 
     for n in range(nrows):
-        ecdf[n, :] = np.cumsum(arr[n, :]/np.sum(arr[n, :].astype(float)))
+        ecdf[n, :] = np.cumsum(arr[n, :]/np.nansum(arr[n, :].astype(float)))
 
     return ecdf
-- 
2.43.0


From 7f85125598ee1f8b28c567435ada650c9ed39f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:22 +0000
Subject: [PATCH 62/94] fix: missing values in the brightest spectra do not
 spoil the Cramer distance

---
 turbustat/statistics/threeD_to_twoD.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 34a2c11..a62852c 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -89,6 +89,9 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
 
         data_matrix = cube[:, x, y]
 
+        # Missing values are filled with zeros, as they are for 'intensity'
+        data_matrix = np.where(np.isfinite(data_matrix), data_matrix, 0.0)
+
     elif data_format == "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
                                      p=p)
-- 
2.43.0


From 3d68a623af781e84172a03543ba6c762069c3e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:48 +0000
Subject: [PATCH 63/94] fix: channel widths in other spectral units, and
 rounding of their ratio, when regridding cubes

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 33c542c..e4ef84b 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -109,7 +109,9 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
             if channel_width.unit.is_equivalent(u.pix):
                 channel_width = int((np.ceil(channel_width.value)))
             elif channel_width.unit.is_equivalent(cube.spectral_axis.unit):
-                channel_width = int((np.ceil(channel_width / orig_width)).value)
+                # Avoid rounding errors adding another channel
+                ratio = (channel_width / orig_width).to(u.one).value
+                channel_width = int(np.ceil(np.round(ratio, 6)))
             else:
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
@@ -137,7 +139,9 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
         else:
             target_resolution = channel_width.to(current_resolution.unit)
 
-        diff_factor = np.abs(target_resolution / current_resolution).value
+        # Avoid rounding errors changing the number of channels
+        diff_factor = np.round(np.abs(target_resolution /
+                                      current_resolution).value, 6)
 
         if diff_factor == 1:
             warn("The requested channel width match the original channel "
-- 
2.43.0


From e479df788650536f3461bd35fdc5c9bad58d2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:48 +0000
Subject: [PATCH 64/94] fix: spectral_regrid_cube uses the given downsampling
 function

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index e4ef84b..4457747 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -116,7 +116,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
 
-        return cube.downsample_axis(channel_width, axis=0)
+        return cube.downsample_axis(channel_width, axis=0,
+                                    estimator=downsamp_function)
 
     else:
         # Must then be regrid
-- 
2.43.0


From 3143e81cee8d7d18738eacb55ad004c3d0674d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:48 +0000
Subject: [PATCH 65/94] fix: VCS fits include the highest frequency for an odd
 number of channels

---
 turbustat/statistics/vca_vcs/vcs.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 54d3299..eedc546 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -140,8 +140,8 @@ class VCS(BaseStatisticMixIn):
         # component when fitting. We'll cut off the total power frequency too
         # in case it causes an extra break point (which seems to happen).
         shape = self.freqs.size
-        rfreqs = self.freqs[1:shape // 2].value
-        ps1D = self.ps1D[1:shape // 2]
+        rfreqs = self.freqs[1:(shape + 1) // 2].value
+        ps1D = self.ps1D[1:(shape + 1) // 2]
 
         y = np.log10(ps1D[clip_func(rfreqs, self.low_cut.value,
                                     self.high_cut.value)])
@@ -297,8 +297,8 @@ class VCS(BaseStatisticMixIn):
             ")$^{-1})$"
 
         shape = self.freqs.size
-        rfreqs = self.freqs[1:shape // 2]
-        ps1D = self.ps1D[1:shape // 2]
+        rfreqs = self.freqs[1:(shape + 1) // 2]
+        ps1D = self.ps1D[1:(shape + 1) // 2]
 
         good_interval = clip_func(rfreqs.value, self.low_cut.value,
                                   self.high_cut.value)
-- 
2.43.0


From e6e5fe5ad9b570dd533aecb0429f267a49185f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:29 +0000
Subject: [PATCH 66/94] fix: VCA of a single (thick) channel

---
 turbustat/statistics/vca_vcs/vca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index e8b3761..9134ab2 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -115,7 +115,10 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
                                    threads=threads,
                                    **pyfftw_kwargs))
 
-        self._ps2D = np.power(fft, 2.).sum(axis=0)
+        self._ps2D = np.power(fft, 2.)
+        # Nothing to sum over when only one channel is left
+        if self._ps2D.ndim == 3:
+            self._ps2D = self._ps2D.sum(axis=0)
 
         if beam_correct:
             self.compute_beam_pspec()
-- 
2.43.0


From bec3c4efef4dd4140e6074367c2f3e955947204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:32 +0000
Subject: [PATCH 67/94] fix: 2D power-law fits of faint images (no lower limit
 on the amplitude)

---
 turbustat/statistics/elliptical_powerlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index de31e82..6b9e30b 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -229,7 +229,7 @@ class LogEllipticalPowerLaw2D(Fittable2DModel):
         Power-law index.
     """
 
-    logamplitude = Parameter(default=0., bounds=(-10, None))
+    logamplitude = Parameter(default=0.)
     ellip_transf = Parameter(default=1, bounds=(-50, 50))
     theta = Parameter(default=0, bounds=(-np.pi, np.pi))
     gamma = Parameter(default=-1, bounds=(-20., 20.))
-- 
2.43.0


From 4bf610ca8c0a72ce37899c4df41b98f2787140e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:32 +0000
Subject: [PATCH 68/94] fix: delta-variance interpolates the weights over the
 same missing pixels as the image

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 4893c2f..4eef1bb 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -206,6 +206,10 @@ class DeltaVariance(BaseStatisticMixIn):
                 raise ValueError("boundary must be 'wrap' or 'fill'. "
                                  "Given {}".format(boundary))
 
+            if nan_treatment == 'interpolate':
+                # The weights have to be interpolated over the same pixels
+                pad_weights = np.where(np.isnan(pad_img), np.nan, pad_weights)
+
             img_core = \
                 convolution_wrapper(pad_img, core, boundary=boundary,
                                     fill_value=0. if nan_treatment=='fill' else np.nan,
-- 
2.43.0


From 0432d93eab8e10f495e5cc531ab935852b9cd99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:34 +0000
Subject: [PATCH 69/94] fix: power of the beam at the Nyquist frequency for
 even image sizes

---
 turbustat/statistics/base_pspec2.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index b29bf2f..5a202d4 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -63,11 +63,15 @@ class StatisticBase_PSpec2D(object):
             raise AttributeError("Beam correction cannot be applied since"
                                  " no beam object was given.")
 
+        yshape, xshape = self._ps2D.shape
+
+        # A kernel with an even size is centred between pixels, and has no
+        # power at the Nyquist frequency. Keep it centred on a pixel.
         beam_kern = self._beam.as_kernel(self._ang_size,
-                                         y_size=self._ps2D.shape[0],
-                                         x_size=self._ps2D.shape[1])
+                                         y_size=yshape + 1 - yshape % 2,
+                                         x_size=xshape + 1 - xshape % 2)
 
-        beam_fft = fftshift(rfft_to_fft(beam_kern.array))
+        beam_fft = fftshift(rfft_to_fft(beam_kern.array[:yshape, :xshape]))
 
         self._beam_pow = np.abs(beam_fft**2)
 
-- 
2.43.0


From 5466bab11e5fb392d2d4cb822bc89febf655c378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 70/94] fix: padding functions keep the data when nothing is
 padded at the end

---
 turbustat/statistics/stats_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index 57e56e4..835b936 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -608,11 +608,11 @@ def padwithzeros(vector, pad_width, iaxis, kwargs):
     Pad array with zeros.
     '''
     vector[:pad_width[0]] = 0
-    vector[-pad_width[1]:] = 0
+    vector[vector.size - pad_width[1]:] = 0
     return vector
 
 
 def padwithnans(vector, pad_width, iaxis, kwargs):
     vector[:pad_width[0]] = np.nan
-    vector[-pad_width[1]:] = np.nan
+    vector[vector.size - pad_width[1]:] = np.nan
     return vector
-- 
2.43.0


From a8d16070c58d59b30f034c4afb783ea61a7e13b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 71/94] fix: kl_divergence compares the same bins when some are
 missing

---
 turbustat/statistics/stats_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index 835b936..bf6cb08 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -101,10 +101,10 @@ def kl_divergence(P, Q):
 
     kl_divergence : float
     '''
-    P = P[~np.isnan(P)]
-    Q = Q[~np.isnan(Q)]
-    P = P[np.isfinite(P)]
-    Q = Q[np.isfinite(Q)]
+    # Keep the bins of P and Q aligned
+    good = np.isfinite(P) & np.isfinite(Q)
+    P = P[good]
+    Q = Q[good]
     return np.nansum(np.where(Q != 0, P * np.log(P / Q), 0))
 
 
-- 
2.43.0


From cb332cc1e712048de28883f6eb17ba9f2060a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 72/94] fix: angle of fitted ellipses at exactly 45 degrees

---
 turbustat/statistics/stats_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index bf6cb08..778a3c0 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -308,7 +308,7 @@ class EllipseModel(object):
         # angle of counterclockwise rotation of major-axis of ellipse
         # to x-axis [eqn. 23] from [2].
         phi = 0.5 * np.arctan((2. * b) / (a - c))
-        if a > c:
+        if a >= c:
             phi += 0.5 * np.pi
 
         # Rounding can leave a null imaginary part for near-circular points.
-- 
2.43.0


From eb58e5d9ae484ddc9e468bb524344cf83582099b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 73/94] fix: ellipse fits give the axes in a fixed order, and
 their errors do not mix them

---
 turbustat/statistics/stats_utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index 778a3c0..79213ba 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -272,6 +272,8 @@ class EllipseModel(object):
         # M*|a b c >=l|a b c >. Find eigenvalues and eigenvectors
         # from this equation [eqn. 28]
         eig_vals, eig_vecs = np.linalg.eig(M)
+        # Real for noise-free input, up to rounding of degenerate pairs
+        eig_vecs = np.real(eig_vecs)
 
         # eigenvector must meet constraint 4ac - b^2 to be valid.
         cond = 4 * np.multiply(eig_vecs[0, :], eig_vecs[2, :]) \
@@ -280,6 +282,10 @@ class EllipseModel(object):
         # seeks for empty matrix
         if 0 in a1.shape or len(a1.ravel()) != 3:
             return False
+        # The sign of the eigenvector is arbitrary. Fix it so that the axes are
+        # always in the same order.
+        if a1[0, 0] < 0:
+            a1 = -a1
         a, b, c = a1.ravel()
 
         # |d f g> = -S3^(-1)*S2^(T)*|a b c> [eqn. 24]
-- 
2.43.0


From da79daf00ac53d83c88420058c48349ec797e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:17 +0000
Subject: [PATCH 74/94] fix: 2D Gaussian width fits of elongated
 autocorrelations

---
 turbustat/statistics/pca/width_estimate.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index b88ea03..3e46642 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -403,9 +403,18 @@ def fit_2D_gaussian(xmat, ymat, z):
     Return fitted model parameters
     '''
 
-    g = astropy_models.Gaussian2D(x_mean=[0], y_mean=[0], x_stddev=[1],
-                                  y_stddev=[1], amplitude=z.max(),
-                                  theta=[0],
+    # Start from the second moments of the peak. The angle is undefined for a
+    # round starting point, and the fit cannot recover from it.
+    peak = z > np.exp(-1) * z.max()
+    xpk, ypk = xmat[peak], ymat[peak]
+    moments = 2 * np.array([[np.mean(xpk * xpk), np.mean(xpk * ypk)],
+                            [np.mean(xpk * ypk), np.mean(ypk * ypk)]])
+    vals, vecs = np.linalg.eigh(moments)
+    y_std, x_std = np.sqrt(np.maximum(vals, 1.))
+
+    g = astropy_models.Gaussian2D(x_mean=[0], y_mean=[0], x_stddev=[x_std],
+                                  y_stddev=[y_std], amplitude=z.max(),
+                                  theta=[np.arctan2(vecs[1, 1], vecs[0, 1])],
                                   fixed={'amplitude': True,
                                          'x_mean': True,
                                          'y_mean': True}) + \
-- 
2.43.0


From 1137b85e29cb25b9661e87bdb29cc4457119e61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:30 +0000
Subject: [PATCH 75/94] fix: 'xinterpolate' widths follow the fitted ellipse

---
 turbustat/statistics/pca/width_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 3e46642..ec50fb8 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -139,7 +139,7 @@ def WidthEstimate2D(inList, method='contour', noise_ACF=0,
                 theta = output.theta_0.value
 
             rmat = ((xmat * np.cos(theta) + ymat * np.sin(theta))**2 +
-                    (-xmat * np.sin(theta) + ymat * np.cos(theta))**2 *
+                    (-xmat * np.sin(theta) + ymat * np.cos(theta))**2 /
                     aspect**2)**0.5
             rvec = rmat.ravel()
             zvec = z.ravel()
@@ -151,7 +151,7 @@ def WidthEstimate2D(inList, method='contour', noise_ACF=0,
             spl = LSQUnivariateSpline(zvec, rvec, zvec[dz:-dz:dz])
 
             x_scales[idx] = spl(np.exp(-1)) / np.sqrt(2)
-            y_scales[idx] = spl(np.exp(-1)) / np.sqrt(2)
+            y_scales[idx] = aspect * spl(np.exp(-1)) / np.sqrt(2)
 
             # Need to implement some error estimation
             x_scale_errors[idx] = 0.0
-- 
2.43.0


From 5e0860a51a200e93789797b85139be119f54cc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:57 +0000
Subject: [PATCH 76/94] fix: interpolated and fitted spectral widths for odd
 numbers of channels and any amplitude

---
 turbustat/statistics/pca/width_estimate.py | 25 ++++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index ec50fb8..8f053c3 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -313,10 +313,11 @@ def WidthEstimate1D(inList, method='walk-down'):
     for idx, y in enumerate(inList.T):
         x = np.fft.fftfreq(len(y)) * len(y)
         if method == 'interpolate':
-            minima = argrelmin(y)[0]
-            if minima[0] > 1:
+            minima = _first_minimum(y)
+            if minima > 1:
                 warn("Error estimation not implemented for interpolation!")
-                interpolator = interp1d(y[0:minima[0] + 1], x[0:minima[0] + 1])
+                interpolator = interp1d(y[0:minima + 1] / y.max(),
+                                        np.abs(x)[0:minima + 1])
                 try:
                     scales[idx] = interpolator(np.exp(-1))
                 except ValueError:
@@ -327,10 +328,10 @@ def WidthEstimate1D(inList, method='walk-down'):
             g = models.Gaussian1D(amplitude=y[0], mean=[0], stddev=[10],
                                   fixed={'amplitude': True, 'mean': True})
             fit_g = fitting.LevMarLSQFitter()
-            minima = argrelmin(y)[0]
-            if minima[0] > 1:
-                xtrans = np.abs(x)[0:minima[0]]
-                yfit = y[0:minima[0]]
+            minima = _first_minimum(y)
+            if minima > 1:
+                xtrans = np.abs(x)[0:minima]
+                yfit = y[0:minima]
             else:
                 xtrans = np.abs(x)
                 yfit = y
@@ -377,6 +378,16 @@ def WidthEstimate1D(inList, method='walk-down'):
     return scales, scale_errors
 
 
+def _first_minimum(y):
+    '''
+    Position of the first local minimum. For an odd number of channels, the two
+    channels furthest from the peak are equal and there may be none.
+    '''
+    minima = argrelmin(y)[0]
+
+    return minima[0] if minima.size > 0 else y.size // 2
+
+
 def fit_2D_ellipse(pts, **bootstrap_kwargs):
     '''
     Return ellipse widths
-- 
2.43.0


From 9855dbe1169a0995ad0bb36f7b5fe0c6a96b481d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:09 +0000
Subject: [PATCH 77/94] fix: Gaussian fits of spectral widths of a few channels

---
 turbustat/statistics/pca/width_estimate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 8f053c3..1a5a129 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -325,7 +325,11 @@ def WidthEstimate1D(inList, method='walk-down'):
                     scales[idx] = np.nan
                 # scale_errors[idx] = ??
         elif method == 'fit':
-            g = models.Gaussian1D(amplitude=y[0], mean=[0], stddev=[10],
+            # Start from the first channel below 1/e of the peak. The fit does
+            # not converge from a width that is much too large.
+            below = y < np.exp(-1) * y[0]
+            guess = max(np.argmax(below), 1) / np.sqrt(2) if below.any() else 10
+            g = models.Gaussian1D(amplitude=y[0], mean=[0], stddev=[guess],
                                   fixed={'amplitude': True, 'mean': True})
             fit_g = fitting.LevMarLSQFitter()
             minima = _first_minimum(y)
-- 
2.43.0


From 48ca56ee422232ed113c20e3b6d2a8841408e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:37 +0000
Subject: [PATCH 78/94] fix: confidence interval of the sonic length uses the
 sampled slopes and has length units

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 662a26d..285a06d 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -721,7 +721,7 @@ class PCA(BaseStatisticMixIn):
                 slopes = np.array([brunt_index_correct(slope)
                                    for slope in slopes])
 
-            all_lambds = np.power(c_s / 10 ** intercepts, 1. / index)
+            all_lambds = np.power(c_s.value / 10 ** intercepts, 1. / slopes)
 
             lambd_error_range = np.percentile(all_lambds, percentiles)
 
-- 
2.43.0


From d204bf921f72cf1d649e3740a58a2e5a811daa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:37 +0000
Subject: [PATCH 79/94] fix: propagated error of the sonic length

---
 turbustat/statistics/pca/pca.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 285a06d..8aabba2 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -699,11 +699,10 @@ class PCA(BaseStatisticMixIn):
         if self._fit_method == 'odr':
             # Added in quadrature and simplified
             index_err = np.abs(index - index_error_range[0])
-            intercept_err = 0.434 * np.abs(self.intercept() -
-                                           self.intercept_error_range()[0]) / \
-                self.intercept()
+            intercept_err = np.abs(self.intercept() -
+                                   self.intercept_error_range()[0])
 
-            term1 = np.log10(c_s / self.intercept()) * \
+            term1 = np.log(c_s / self.intercept()) * \
                 (index_err / index)
             term2 = intercept_err / self.intercept()
             lambd_error = (lambd / index) * \
-- 
2.43.0


From 7b41f1dd8de21c06e477dce18f739ae4fce0f8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:15 +0000
Subject: [PATCH 80/94] fix: standard error of the break point of segmented
 fits

---
 turbustat/statistics/lm_seg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 55be3fe..4db522d 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -294,10 +294,11 @@ def brk_errs(params, cov):
     # Var gamma
     term1 = cov[3, 3]
 
-    # Var beta * (beta/gamma)^2`
+    # Var beta * (gamma/beta)^2
     term2 = cov[2, 2] * (params[3] / params[2])**2.
 
     # Correlation b/w gamma and beta
     term3 = 2 * cov[3, 2] * (params[3] / params[2])
 
-    return np.sqrt(term1 + term2 + term3)
+    # The break is updated by gamma / beta
+    return np.sqrt(term1 + term2 - term3) / np.abs(params[2])
-- 
2.43.0


From 690075d4b741e950911a607a95875b357e3a0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:15 +0000
Subject: [PATCH 81/94] fix: bootstrapped errors of segmented fits belong to
 the reported slopes and break

---
 turbustat/statistics/base_pspec2.py           |  8 ++---
 .../delta_variance/delta_variance.py          |  8 ++---
 turbustat/statistics/lm_seg.py                | 31 +++++++++++++++++++
 turbustat/statistics/vca_vcs/vcs.py           |  5 +--
 .../statistics/wavelets/wavelet_transform.py  |  8 ++---
 5 files changed, 41 insertions(+), 19 deletions(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 5a202d4..ab6873f 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -263,12 +263,10 @@ class StatisticBase_PSpec2D(object):
                     self._slope = brk_fit.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(brk_fit.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            brk_fit.bootstrap_errs(**bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            brk_err / u.pix
 
                     else:
                         self._slope_err = brk_fit.slope_errs
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 4eef1bb..6483354 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -393,12 +393,10 @@ class DeltaVariance(BaseStatisticMixIn):
                     self._slope = model.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(model.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            model.bootstrap_errs(**bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] * u.pix
+                            brk_err * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 4db522d..4d17565 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -33,6 +33,8 @@ import numpy as np
 import warnings
 from copy import copy
 
+from .fitting_utils import residual_bootstrap
+
 
 class Lm_Seg(object):
     """
@@ -245,6 +247,35 @@ class Lm_Seg(object):
                     np.sqrt(self.param_errs[s + 1] **
                             2 + self._slope_errs[:s]**2)
 
+    def bootstrap_errs(self, **bootstrap_kwargs):
+        '''
+        Bootstrapped standard errors of the slopes and the break point.
+
+        Parameters
+        ----------
+        bootstrap_kwargs : passed to
+            `~turbustat.statistics.fitting_utils.residual_bootstrap`
+
+        Returns
+        -------
+        slope_errs : `~numpy.ndarray`
+            Error for each of `~Lm_Seg.slopes`.
+        brk_err : float
+            Error of the break point.
+        '''
+
+        samps = residual_bootstrap(self.fit, return_samps=True,
+                                   **bootstrap_kwargs)
+
+        if self.break_fail_flag:
+            return np.std(samps[:, 1:], axis=0), 0.0
+
+        # Slopes after the break are given as the change in slope.
+        slope_errs = np.std(np.cumsum(samps[:, 1:-1], axis=1), axis=0)
+        brk_err = np.std(samps[:, -1] / samps[:, 2])
+
+        return slope_errs, brk_err
+
     @property
     def slopes(self):
         return self._slopes
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index eedc546..752d502 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -212,10 +212,7 @@ class VCS(BaseStatisticMixIn):
         self.fit.fit_model(verbose=fit_verbose, cov_type='HC3')
 
         if bootstrap:
-            stderrs = residual_bootstrap(self.fit.fit,
-                                         **bootstrap_kwargs)
-
-            self._slope_errs = stderrs[1:-1]
+            self._slope_errs = self.fit.bootstrap_errs(**bootstrap_kwargs)[0]
         else:
             self._slope_errs = self.fit.slope_errs
 
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 54e0ac8..f8f6d53 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -327,12 +327,10 @@ class Wavelet(BaseStatisticMixIn):
                     self._slope = model.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(model.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            model.bootstrap_errs(**bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] * u.pix
+                            brk_err * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
-- 
2.43.0


From c3a7577902b0d14957555ea05dde351517be339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:23 +0000
Subject: [PATCH 82/94] fix: break error of segmented fits uses the covariance
 of the final fit

---
 turbustat/statistics/lm_seg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 4d17565..517424c 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -204,7 +204,7 @@ class Lm_Seg(object):
         self._errs = self.fit.bse
 
         if not self.break_fail_flag:
-            self.brk_err = brk_errs(self.params, fit.cov_params())
+            self.brk_err = brk_errs(self.params, self.fit.cov_params())
         else:
             self.brk_err = 0.0
 
-- 
2.43.0


From 753c30feeb3d20368846316739eae71d887fdf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:13 +0000
Subject: [PATCH 83/94] fix: covariance errors of elliptical fits with fixed
 ellipticity

---
 turbustat/statistics/elliptical_powerlaw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index 6b9e30b..8e5a827 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -181,7 +181,11 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
                      "carefully.")
                 stderrs = np.zeros((4,)) * np.nan
             else:
-                stderrs = np.sqrt(np.abs(np.diag(cov_matrix)))
+                # Only parameters left free have an entry in the covariance.
+                free = np.array([not fit_model.fixed[name]
+                                 for name in fit_model.param_names])
+                stderrs = np.zeros((4,)) * np.nan
+                stderrs[free] = np.sqrt(np.abs(np.diag(cov_matrix)))
 
         params = fit_model.parameters
     else:
-- 
2.43.0


From ecddcc5854226ea906fd0988408b3b8eaa08ad41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:13 +0000
Subject: [PATCH 84/94] fix: bootstrapped elliptical fits keep the radial
 weights

---
 turbustat/statistics/elliptical_powerlaw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index 8e5a827..19f69a8 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -138,7 +138,8 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
 
                 resamp_vals = values + resid[np.random.permutation(resid.size)]
 
-                boot_model = boot_fit(fit_model, x, y, resamp_vals)
+                boot_model = boot_fit(fit_model, x, y, resamp_vals,
+                                      weights=weights)
 
                 params[:, i] = boot_model.parameters
 
-- 
2.43.0


From ae31293b4d6c6fdd714d0d6ed822991233e7f7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:13 +0000
Subject: [PATCH 85/94] fix: covariance errors of radially weighted elliptical
 fits scale with the residuals

---
 turbustat/statistics/elliptical_powerlaw.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index 19f69a8..efc5cdf 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -185,6 +185,12 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
                 # Only parameters left free have an entry in the covariance.
                 free = np.array([not fit_model.fixed[name]
                                  for name in fit_model.param_names])
+                if weights is not None:
+                    # astropy takes weights as absolute uncertainties, but
+                    # the radial weights are only relative ones.
+                    resid = (values - fit_model(x, y)) * weights
+                    dof = resid.size - free.sum()
+                    cov_matrix = cov_matrix * np.sum(resid**2) / dof
                 stderrs = np.zeros((4,)) * np.nan
                 stderrs[free] = np.sqrt(np.abs(np.diag(cov_matrix)))
 
-- 
2.43.0


From cc9cc8d403940bb9727b6e0a1f35bacd2144cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:08 +0000
Subject: [PATCH 86/94] fix: SCF power-law fits drop lag bins without scatter
 instead of failing

---
 turbustat/statistics/scf/scf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 09d6083..9b4a97a 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -356,7 +356,10 @@ class SCF(BaseStatisticMixIn):
         # Converting to the log stds doesn't matter since the weights
         # remain proportional to 1/sigma^2, and an overal normalization is
         # applied in the fitting routine.
-        weights = self.scf_spectrum_stddev[within_limits] ** -2
+        # Bins without scatter have no defined weight.
+        stddev = self.scf_spectrum_stddev[within_limits]
+        stddev[stddev == 0.] = np.nan
+        weights = stddev ** -2
 
         model = sm.WLS(y, x, missing='drop', weights=weights)
 
-- 
2.43.0


From e04a09180b871d45a300f1fcd8f0e0ee43341efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 87/94] fix: segmented model is evaluated at the fitted break,
 and without one when none was kept

---
 turbustat/statistics/lm_seg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 517424c..b267ba1 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -213,10 +213,11 @@ class Lm_Seg(object):
     def model(self, x=None, model_return=False):
         p = self.params
 
-        trans_pt = np.abs(x - self.brk).argmin()
-
-        mod_eqn = lambda k: p[0] + p[1] * k * (k < self.brk) + \
-            ((p[1] + p[2]) * k + (-p[2]) * k[trans_pt]) * (k >= self.brk)
+        if self.break_fail_flag:
+            mod_eqn = lambda k: p[0] + p[1] * k
+        else:
+            mod_eqn = lambda k: p[0] + p[1] * k * (k < self.brk) + \
+                ((p[1] + p[2]) * k + (-p[2]) * self.brk) * (k >= self.brk)
 
         if model_return or x is None:
             return mod_eqn
-- 
2.43.0


From 226fc0259f0a7183d15cb388ed12c96ae1042f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 88/94] fix: PCA.plot_fit shows the requested number of
 eigenvalues

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 8aabba2..04137be 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -793,7 +793,7 @@ class PCA(BaseStatisticMixIn):
             if n_eigs is None:
                 n_eigs = self.n_eigs
 
-            plt.bar(np.arange(1, self.n_eigs + 1), self.eigvals[:n_eigs],
+            plt.bar(np.arange(1, n_eigs + 1), self.eigvals[:n_eigs],
                     0.5, color=color)
             plt.xlim([0, n_eigs + 1])
             plt.xlabel('Eigenvalues')
-- 
2.43.0


From 5becb5900eb11c385d550688de5e2157fed6c207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 89/94] fix: trace plots of fits with one free parameter

---
 turbustat/statistics/pdf/compare_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 1ba98de..6505198 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -407,7 +407,7 @@ class PDF(BaseStatisticMixIn):
 
         import matplotlib.pyplot as plt
 
-        fig, axes = plt.subplots(npars, 1, sharex=True)
+        fig, axes = plt.subplots(npars, 1, sharex=True, squeeze=False)
         for i, ax in enumerate(axes.ravel()):
             ax.plot(self._mcmc_chain.flatchain[:, i], **kwargs)
             ax.set_ylabel("par{}".format(i + 1))
-- 
2.43.0


From 40b8add9225d84ea8f7f58768ce522bbe79cbdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 90/94] fix: SCF.plot_fit can draw into a figure with one panel

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 9b4a97a..b6070a7 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -630,9 +630,9 @@ class SCF(BaseStatisticMixIn):
                 ax2, ax_r = axes
         elif len(axes) == 1:
             if show_radial:
-                ax = axes[0]
-            else:
                 ax2 = axes[0]
+            else:
+                ax = axes[0]
         else:
             if show_surface:
                 if show_radial:
-- 
2.43.0


From dae4d7e387202c2a684f5ddcb89736ca3a09086d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:12 +0000
Subject: [PATCH 91/94] fix: Tsallis.plot_fit with a single lag

---
 turbustat/statistics/tsallis/tsallis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/tsallis/tsallis.py b/turbustat/statistics/tsallis/tsallis.py
index 2ec342c..fa94cb2 100644
--- a/turbustat/statistics/tsallis/tsallis.py
+++ b/turbustat/statistics/tsallis/tsallis.py
@@ -290,11 +290,12 @@ class Tsallis(BaseStatisticMixIn):
         if fit_color is None:
             fit_color = color
 
-        fig, axes = plt.subplots(len(self.lags), 1, sharex=True)
+        fig, axes = plt.subplots(len(self.lags), 1, sharex=True,
+                                 squeeze=False)
 
         for vals in zip(self.lags, self.lag_distribs,
                         self.lag_arrays, self.tsallis_params,
-                        axes):
+                        axes.ravel()):
 
             lag, dist, arr, params, ax = vals
 
-- 
2.43.0


From c77481c34a9cde6692e7c71a14d4d6ea3237304c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 92/94] fix: SCF_Distance takes the number of lags from given
 SCFs that still need to be run

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index b6070a7..ba7b130 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -964,8 +964,8 @@ class SCF_Distance(object):
             # params
             self.scf2.compute_spectrum()
 
-        if not needs_run1 and not needs_run2:
-            self.size = self.scf1.size
+        # Given SCFs set the number of lags
+        self.size = self.scf1.size
 
     def distance_metric(self, weighted=True, verbose=False,
                         plot_kwargs1={'color': 'b', 'marker': 'D',
-- 
2.43.0


From 50b801386fad0f500af4e7a21ab650ca68fe7413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:34 +0000
Subject: [PATCH 93/94] fix: a single break given with units applies to both
 data sets of a distance

---
 turbustat/statistics/mvc/mvc.py            | 2 +-
 turbustat/statistics/pspec_bispec/pspec.py | 2 +-
 turbustat/statistics/vca_vcs/vca.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 835a6f0..70a3d00 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -384,7 +384,7 @@ class MVC_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if pspec2_kwargs is None:
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index e134962..58ff432 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -265,7 +265,7 @@ class PSpec_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if pspec2_kwargs is None:
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 9134ab2..93dca77 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -272,7 +272,7 @@ class VCA_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and np.ndim(breaks) == 0:
             breaks = [breaks] * 2
 
         if radial_pspec_kwargs2 is None:
-- 
2.43.0


From 58e5fe5e5f35bcf2cc2bd2c75e9ffd77582eff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:33 +0000
Subject: [PATCH 94/94] fix: Genus_Distance normalizes by area when the pixel
 scales differ

---
 turbustat/statistics/genus/genus.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 4e553b4..5c043a9 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -607,12 +607,12 @@ class Genus_Distance(object):
 
         points = np.linspace(min_pt, max_pt, 2 * num_pts)
 
-        # Divide each by the area of the data. genus1 is additionally
-        # adjusted by the scale factor of the angular size between the
-        # datasets.
+        # Divide each by the area of the data. Both areas are in units of the
+        # smaller of the two pixels.
         genus1 = self.genus1.genus_stats[0, :] / \
-            float(self.genus1.data.size / self.scale)
-        genus2 = self.genus2.genus_stats[0, :] / float(self.genus2.data.size)
+            float(self.genus1.data.size / min(self.scale, 1.)**2)
+        genus2 = self.genus2.genus_stats[0, :] / \
+            float(self.genus2.data.size * max(self.scale, 1.)**2)
 
         interp1 = \
             InterpolatedUnivariateSpline(self.genus1.thresholds,
-- 
2.43.0

