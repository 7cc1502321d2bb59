From fd830795cb99fb684b38852b37eaac4d93a5724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:07 +0000
Subject: [PATCH 01/65] fix: locate the data point nearest to x in
 find_nearest_cluster2 (IndexError right of the data, wrong neighbour inside)

---
 src/diffpy/srmise/dataclusters.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index c79d5fb..87a4330 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -255,8 +255,10 @@ class DataClusters:
             raise Exception("Cannot cluster next point while status is INIT.")
 
         idx = np.searchsorted(self.x, x)
-        if idx > 0 or idx >= len(self.x):
+        if idx == 0:
             return self.find_nearest_cluster(idx)
+        elif idx >= len(self.x):
+            return self.find_nearest_cluster(len(self.x) - 1)
         else:
             # Choose adjacent index nearest to x
             if (self.x[idx] - x) < (x - self.x[idx - 1]):
-- 
2.43.0


From e047d55f8584e94d6c911d0297354a521484f4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 02/65] fix: combine/find adjacent clusters when runs have
 different lengths; reject non-contiguous runs before changing anything

---
 src/diffpy/srmise/dataclusters.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 87a4330..15f8995 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -359,42 +359,42 @@ class DataClusters:
         None
         """
         # Ensure that the same clusters aren't combined multiple times.
-        combine_flat = np.array(combine).ravel()
+        combine_flat = np.array([idx for c in combine for idx in c], dtype=int)
         if len(combine_flat) != len(np.unique(combine_flat)):
             raise ValueError("Cannot combine a single cluster multiple times.")
 
         for c in combine:
             # Test that all clusters are contiguous and adjacent
-            first = c[0]
-            for i in range(c[0], c[-1]):
-                if c[i + 1 - first] - 1 != c[i - first]:
+            for left, right in zip(c[:-1], c[1:]):
+                if right - 1 != left:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " are not contiguous and/or increasing.",
                             ]
                         )
                     )
-                if self.clusters[i + 1, 0] - self.clusters[i, 1] != 1:
+                if self.clusters[right, 0] - self.clusters[left, 1] != 1:
                     raise ValueError(
                         "".join(
                             [
                                 "Clusters  ",
-                                str(c[i]),
+                                str(left),
                                 " and ",
-                                str(c[i + 1]),
+                                str(right),
                                 " have unclustered points between them.",
                             ]
                         )
                     )
 
-            # update cluster endpoints
+        # update cluster endpoints
+        for c in combine:
             self.clusters[c[0], 1] = self.clusters[c[-1], 1]
-        todelete = np.array([c[1:] for c in combine]).ravel()
+        todelete = np.array([idx for c in combine for idx in c[1:]], dtype=int)
         self.clusters = np.delete(self.clusters, todelete, 0)
 
     def find_adjacent_clusters(self):
@@ -431,7 +431,12 @@ class DataClusters:
             if right_idx > left_idx:
                 adj.append(range(left_idx, right_idx + 1))
             left_idx = right_idx + 1  # set for next possible left_idx
-        return np.array(adj)
+        if len(set(len(a) for a in adj)) > 1:
+            # Runs of different lengths cannot form a rectangular array.
+            ragged = np.empty(len(adj), dtype=object)
+            ragged[:] = [np.array(a) for a in adj]
+            return ragged
+        return np.array(adj, dtype=int)
 
     def cut(self, idx):
         """Return slice(s) for data given cluster index (or indices).
-- 
2.43.0


From a52d44f6d6219c237f041ed605473cd8d80eb0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 03/65] fix: cluster_boundaries returns finite (x, y) pairs, as
 plot and animate need

---
 src/diffpy/srmise/dataclusters.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index 15f8995..bb8df34 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -457,13 +457,14 @@ class DataClusters:
         """Return sequence with (x,y) of all cluster boundaries."""
         boundaries = []
         for cluster in self.clusters:
-            xlo = np.mean(self.x[cluster[0] - 1 : cluster[0] + 1])
-            ylo = np.mean(self.y[cluster[0] - 1 : cluster[0] + 1])
+            lo = max(cluster[0] - 1, 0)
+            xlo = np.mean(self.x[lo : cluster[0] + 1])
+            ylo = np.mean(self.y[lo : cluster[0] + 1])
             xhi = np.mean(self.x[cluster[1] : cluster[1] + 2])
             yhi = np.mean(self.y[cluster[1] : cluster[1] + 2])
             boundaries.append((xlo, ylo))
             boundaries.append((xhi, yhi))
-        return np.unique(boundaries)
+        return np.unique(boundaries, axis=0)
 
     def plot(self, *args, **kwds):
         """Plot the data with vertical lines at the cluster divisions.
-- 
2.43.0


From 80f07e02f099f9aa24c9853a25451ec16f5968c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:23 +0000
Subject: [PATCH 04/65] fix: reset_clusters restores the state of a newly
 constructed clustering

---
 src/diffpy/srmise/dataclusters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/dataclusters.py b/src/diffpy/srmise/dataclusters.py
index bb8df34..7ecc83d 100644
--- a/src/diffpy/srmise/dataclusters.py
+++ b/src/diffpy/srmise/dataclusters.py
@@ -129,7 +129,7 @@ class DataClusters:
         """Reset all progress on clustering."""
         self.clusters = np.array([[self.data_order[-1], self.data_order[-1]]])
         self.current_idx = self.data_order.size - 1
-        self.lastcluster_idx = 0
+        self.lastcluster_idx = None
         self.lastpoint_idx = self.data_order[-1]
 
         if self.status != self.INIT:
-- 
2.43.0


From 268d1d871d1e77fa3dc0b1dce2f97ff802c1b4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 05/65] fix: order the polynomial baseline's derivatives like
 its parameters

---
 src/diffpy/srmise/baselines/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/polynomial.py b/src/diffpy/srmise/baselines/polynomial.py
index df0f379..3fbfd6a 100644
--- a/src/diffpy/srmise/baselines/polynomial.py
+++ b/src/diffpy/srmise/baselines/polynomial.py
@@ -160,7 +160,7 @@ class Polynomial(BaselineFunction):
         # polynomial is just x^nth.
         for idx in range(self.npars):
             if free[idx]:
-                jacobian[idx] = np.power(r, idx)
+                jacobian[idx] = np.power(r, self.degree - idx)
         return jacobian
 
     def _transform_parametersraw(self, pars, in_format, out_format):
-- 
2.43.0


From 7eee9ba781b1ea4a8e71c5edbdb963048bbc3871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 06/65] fix: Gaussian jacobian no longer raises AttributeError

---
 src/diffpy/srmise/peaks/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 2c9b713..83c322d 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -272,7 +272,7 @@ class Gaussian(PeakFunction):
             Only columns corresponding to `True` values in `free` are computed.
         """
         jacobian = [None, None, None]
-        if (free is False).sum() == self.npars:
+        if np.sum(np.logical_not(free)) == self.npars:
             return jacobian
 
         # Optimization
-- 
2.43.0


From b21ffeb6784350e9f6123f624077e16cfe892d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 07/65] fix: Arbitrary baseline has npars parameters, and works
 without a jacobian

---
 src/diffpy/srmise/baselines/arbitrary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/baselines/arbitrary.py b/src/diffpy/srmise/baselines/arbitrary.py
index d0f8c99..5b656f2 100644
--- a/src/diffpy/srmise/baselines/arbitrary.py
+++ b/src/diffpy/srmise/baselines/arbitrary.py
@@ -68,7 +68,7 @@ class Arbitrary(BaselineFunction):
         # Define parameterdict
         # e.g. {"a_0":0, "a_1":1, "a_2":2, "a_3":3} if npars is 4.
         parameterdict = {}
-        for d in range(testnpars + 1):
+        for d in range(testnpars):
             parameterdict["a_" + str(d)] = d
         formats = ["internal"]
         default_formats = {
@@ -164,7 +164,7 @@ class Arbitrary(BaselineFunction):
         """
         nfree = None
         if self.jacobianf is None:
-            nfree = (pars is True).sum()
+            nfree = np.sum(free)
             if nfree != 0:
                 emsg = "No jacobian routine provided to Arbitrary."
                 raise NotImplementedError(emsg)
-- 
2.43.0


From a886b88a016e567f728af46db605d0a747601532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 08/65] fix: nanospherical baseline treats a negative radius as
 its positive equivalent, and takes the scale derivative's sign from the scale

---
 src/diffpy/srmise/baselines/nanospherical.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/baselines/nanospherical.py b/src/diffpy/srmise/baselines/nanospherical.py
index c788b6b..0e2a02e 100644
--- a/src/diffpy/srmise/baselines/nanospherical.py
+++ b/src/diffpy/srmise/baselines/nanospherical.py
@@ -115,7 +115,7 @@ class NanoSpherical(BaselineFunction):
             return jacobian
 
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 if free[0]:
                     jacobian[0] = 0.0
                 if free[1]:
@@ -152,13 +152,12 @@ class NanoSpherical(BaselineFunction):
         array-like
             The partial Jacobian of the nanoparticle baseline wrt scale without bounds checking.
         """
-        np.abs(pars[0])
         R = np.abs(pars[1])
         rdivR = r / R
         # From abs'(s) in derivative, which is equivalent to sign(s) except at 0 where it
         # is undefined. Since s=0 is equivalent to the absence of a nanoparticle, sign will
         # be fine.
-        sign = np.sign(pars[1])
+        sign = np.sign(pars[0])
         return -sign * r * (1 - (3.0 / 4.0) * rdivR + (1.0 / 16.0) * rdivR**3)
 
     def _jacobianrawradius(self, pars, r):
@@ -247,7 +246,7 @@ class NanoSpherical(BaselineFunction):
             emsg = "Argument pars must have " + str(self.npars) + " elements."
             raise ValueError(emsg)
         if np.isscalar(r):
-            if r <= 0.0 or r >= 2.0 * pars[1]:
+            if r <= 0.0 or r >= 2.0 * np.abs(pars[1]):
                 return 0.0
             else:
                 return self._valueraw2(pars, r)
@@ -296,7 +295,7 @@ class NanoSpherical(BaselineFunction):
             The slice object for which r > 0 and r < twice the radius
         """
         low = r.searchsorted(0.0, side="right")
-        high = r.searchsorted(2.0 * pars[1], side="left")
+        high = r.searchsorted(2.0 * np.abs(pars[1]), side="left")
         return slice(low, high)
 
     def getmodule(self):
-- 
2.43.0


From d0ba96b2eb494c75831ce368e28654b14651658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:43 +0000
Subject: [PATCH 09/65] fix: FromSequence keeps the first character of a
 baseline file's data

---
 src/diffpy/srmise/baselines/fromsequence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/baselines/fromsequence.py b/src/diffpy/srmise/baselines/fromsequence.py
index 6333977..e8f38c2 100644
--- a/src/diffpy/srmise/baselines/fromsequence.py
+++ b/src/diffpy/srmise/baselines/fromsequence.py
@@ -262,7 +262,7 @@ class FromSequence(BaselineFunction):
 
         res = re.search(rb"^[^#]", datastring, re.M)
         if res:
-            datastring = datastring[res.end() :].strip()
+            datastring = datastring[res.start() :].strip()
 
         x = []
         y = []
-- 
2.43.0


From 4e3fe6c00775a09449417f90923479ac75260a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:30 +0000
Subject: [PATCH 10/65] fix: extended grid for termination ripples no longer
 includes a rounding artefact at r=0 (NaN values)

---
 src/diffpy/srmise/peaks/terminationripples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index 315e02a..a4c172d 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -382,7 +382,9 @@ class TerminationRipples(PeakFunction):
             The extended r, slice giving original range.
         """
         ext = self.extension * 2 * np.pi / self.qmax
-        left_ext = np.arange(r[0] - dr, max(0.0, r[0] - ext - dr), -dr)[::-1]
+        # Stop half a step short of the origin, so that rounding never leaves
+        # a spurious point at or next to r=0, where the base may be singular.
+        left_ext = np.arange(r[0] - dr, max(dr / 2, r[0] - ext - dr), -dr)[::-1]
         right_ext = np.arange(r[-1] + dr, r[-1] + ext + dr, dr)
         ext_r = np.concatenate((left_ext, r, right_ext))
         ext_slice = slice(len(left_ext), len(ext_r) - len(right_ext))
-- 
2.43.0


From bcfb0564c32c1531f51863dfb5bfe241ecee263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 11/65] fix: termination-ripple jacobian is the derivative of
 the rippled value (same grid), also at scalars and single points

---
 src/diffpy/srmise/peaks/terminationripples.py | 42 ++++++++++---------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/diffpy/srmise/peaks/terminationripples.py b/src/diffpy/srmise/peaks/terminationripples.py
index a4c172d..5d5f197 100644
--- a/src/diffpy/srmise/peaks/terminationripples.py
+++ b/src/diffpy/srmise/peaks/terminationripples.py
@@ -231,34 +231,38 @@ class TerminationRipples(PeakFunction):
             )
 
         # normally r will be a sequence, but also allow single numeric values
-        try:
-            if len(r) > 1:
-                dr = (r[-1] - r[0]) / (len(r) - 1)
-            else:
-                # dr is ad hoc if r is a single point
-                dr = 2 * np.pi / (self.supersample * self.qmax)
 
+        dr_super = 2 * np.pi / (self.supersample * self.qmax)
+        if np.isscalar(r):
+            # dr is ad hoc if r is a single point.
+            (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr_super)
+            jac = self._jacobianraw(peak.pars, ext_r, peak.free)
+            for idx in range(len(jac)):
+                if jac[idx] is not None:
+                    jac[idx] = self.cut_freq(jac[idx], dr_super)[ext_slice][0]
+            return jac
+        else:
             if rng is None:
                 rng = slice(0, len(r))
+
+            # Use the same grid as value(), so this is its derivative.
+            dr = (r[-1] - r[0]) / (len(r) - 1) if len(r) > 1 else dr_super
+            segments = int(np.ceil(dr / dr_super))
+            dr_segmented = dr / segments
+
             rpart = r[rng]
-            (ext_r, ext_slice) = self.extend_grid(rpart, dr)
+            if segments > 1:
+                rpart = np.arange(rpart[0], rpart[-1] + dr_segmented / 2, dr_segmented)
+
+            (ext_r, ext_slice) = self.extend_grid(rpart, dr_segmented)
             jac = self._jacobianraw(peak.pars, ext_r, peak.free)
             output = [None for j in jac]
             for idx in range(len(output)):
                 if jac[idx] is not None:
-                    jac[idx] = self.cut_freq(jac[idx], dr)
+                    jac[idx] = self.cut_freq(jac[idx], dr_segmented)
                     output[idx] = r * 0.0
-                    output[idx][rng] = jac[idx][ext_slice]
+                    output[idx][rng] = jac[idx][ext_slice][::segments]
             return output
-        except TypeError:
-            # dr is ad hoc if r is a single point.
-            dr = 2 * np.pi / (self.supersample * self.qmax)
-            (ext_r, ext_slice) = self.extend_grid(np.array([r]), dr)
-            jac = self._jacobianraw(peak.pars, ext_r, peak.free)
-            for idx in range(len(output)):
-                if jac[idx] is not None:
-                    jac[idx] = self.cut_freq(jac[idx], dr)[ext_slice][0]
-            return jac
 
     def value(self, peak, r, rng=None):
         """Calculate (rippled) value of peak, possibly restricted by
@@ -316,7 +320,7 @@ class TerminationRipples(PeakFunction):
             # of sampling needed to avoid the worst of these discretization
             # issues is difficult to determine without detailed knowledge
             # of the underlying function.
-            dr = (r[-1] - r[0]) / (len(r) - 1)
+            dr = (r[-1] - r[0]) / (len(r) - 1) if len(r) > 1 else dr_super
             segments = int(np.ceil(dr / dr_super))
             dr_segmented = dr / segments
 
-- 
2.43.0


From eab80e7cd688a0b152c9af6f1b89fb193613f247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 12/65] fix: match_at rescales the free peaks when some peaks
 cannot be scaled

---
 src/diffpy/srmise/peaks/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index 7e57c10..ec05d39 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -191,7 +191,7 @@ class Peaks(ModelParts):
                 self[:] = orig[:]
                 any_scaled = False
                 scale = (y - fixed_height) / (height - fixed_height)
-                for peak, s in (self, scaled):
+                for peak, s in zip(self, scaled):
                     if s:
                         # "or" is short-circuited, so scale_at() must be first
                         # to guarantee it is called.
-- 
2.43.0


From c231a99627061263d9b8f8b2f5a8405466d1e310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 13/65] fix: scale_at raises SrMiseScalingError instead of
 returning NaN or zero-width peaks

---
 src/diffpy/srmise/peaks/base.py          | 2 +-
 src/diffpy/srmise/peaks/gaussian.py      | 3 +++
 src/diffpy/srmise/peaks/gaussianoverr.py | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index ec05d39..da00cc1 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -260,7 +260,7 @@ class Peak(ModelPart):
         try:
             adj_pars = self._owner.scale_at(self.pars, x, scale)
         except SrMiseScalingError as err:
-            logger.debug("Cannot scale peak:", err)
+            logger.debug("Cannot scale peak: %s", err)
             return False
 
         # Check if a fixed parameter was changed.
diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 83c322d..6d6890f 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -233,6 +233,9 @@ class Gaussian(PeakFunction):
         tpars[0] = mu2
         tpars[1] = sigma2
         tpars[2] = area2
+        if not (np.all(np.isfinite(tpars)) and sigma2 > 0):
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
         try:
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index c47191a..a50bedc 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -247,6 +247,9 @@ class GaussianOverR(PeakFunction):
         tpars[0] = mu2
         tpars[1] = sigma2
         tpars[2] = area2
+        if not (np.all(np.isfinite(tpars)) and sigma2 > 0):
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
         try:
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
-- 
2.43.0


From e9e4dcfba6f0b93d6515530d17364dd05db6093a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 14/65] fix: factories reject an owner or base index just past
 the end of the list

---
 src/diffpy/srmise/basefunction.py   | 2 +-
 src/diffpy/srmise/baselines/base.py | 2 +-
 src/diffpy/srmise/peaks/base.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/basefunction.py b/src/diffpy/srmise/basefunction.py
index 861a85d..dbb0328 100644
--- a/src/diffpy/srmise/basefunction.py
+++ b/src/diffpy/srmise/basefunction.py
@@ -487,7 +487,7 @@ class BaseFunction(object):
         # Correctly initialize the base function, if one exists.
         if pdict["base"] is not None:
             idx = pdict["base"]
-            if idx > len(baselist):
+            if idx >= len(baselist):
                 emsg = "Dependent base function not in baselist."
                 raise ValueError(emsg)
             pdict["base"] = baselist[idx]
diff --git a/src/diffpy/srmise/baselines/base.py b/src/diffpy/srmise/baselines/base.py
index fabf835..3ce3962 100644
--- a/src/diffpy/srmise/baselines/base.py
+++ b/src/diffpy/srmise/baselines/base.py
@@ -190,7 +190,7 @@ class Baseline(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
diff --git a/src/diffpy/srmise/peaks/base.py b/src/diffpy/srmise/peaks/base.py
index da00cc1..e87f061 100644
--- a/src/diffpy/srmise/peaks/base.py
+++ b/src/diffpy/srmise/peaks/base.py
@@ -297,7 +297,7 @@ class Peak(ModelPart):
 
         # Correctly initialize the base function, if one exists.
         idx = pdict["owner"]
-        if idx > len(ownerlist):
+        if idx >= len(ownerlist):
             emsg = "Dependent base function not in ownerlist."
             raise ValueError(emsg)
         pdict["owner"] = ownerlist[idx]
-- 
2.43.0


From 39f9d93cf06836db45eeae1683f7c62644b572e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 15/65] fix: join_adjacent removes out-of-order peaks on the
 wrong side of the border, as documented

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index c1a64c5..552a6dc 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -853,7 +853,7 @@ class ModelCluster(object):
                 if new_model[i]["position"] == border_x and i > 0 and new_model[i - 1]["position"] == border_x:
                     del new_model[i]
                 elif new_ids[i] != i:
-                    if (new_model[i]["position"] > border_x and new_ids[i] < len(left.model)) and (
+                    if (new_model[i]["position"] > border_x and new_ids[i] < len(left.model)) or (
                         new_model[i]["position"] < border_x and new_ids[i] >= len(left.model)
                     ):
                         del new_model[i]
-- 
2.43.0


From 29f836afcd6b84d537d9fdf3c7c2e62f0de98e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 16/65] fix: slice of a whole-range ModelCluster can be changed

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 552a6dc..3a481a6 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -499,7 +499,7 @@ class ModelCluster(object):
             # Sets self.slice, self.size, self.r_cluster, self.y_cluster,
             # and self.error_cluster.
             if args[4] is None:
-                self.change_slice(slice(len(self.r_data)))
+                self.change_slice(slice(0, len(self.r_data)))
             else:
                 self.change_slice(args[4])
 
-- 
2.43.0


From 320f9842ce3617bd7c16c767dfa7029a37b73c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 17/65] fix: augment keeps the models whose quality it
 measured, and works with non-removable peaks

---
 src/diffpy/srmise/modelcluster.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 3a481a6..225d6a7 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1425,6 +1425,8 @@ class ModelCluster(object):
             for i in range(len(test_models)):
                 self.model = test_models[i]
                 self.fit()
+                # The fit may have reverted to a copy of the model.
+                test_models[i] = self.model
                 test_quals[i] = self.quality()
 
             args = test_quals.argsort()
@@ -1434,7 +1436,8 @@ class ModelCluster(object):
                 del source_model[args[-1]]
             else:
                 break  # Best possible model has been found.
-        self.replacepeaks(best_model, slice(len(self.model)))
+        self.model = best_model
+        self.model.sort(key="position")
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-- 
2.43.0


From 22d0fc829b1566461bcbce14aa9ec40ee046f290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 18/65] fix: prune compares the quality of the models it keeps,
 counting free parameters only

---
 src/diffpy/srmise/modelcluster.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 225d6a7..482ebd9 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1553,7 +1553,11 @@ class ModelCluster(object):
                     ]
                     logger.debug("\n".join(msg), len(check_models), len(best_model), i)
 
-                    addpars = best_model.npars() - check_models[i].npars() - best_model[i].npars(count_fixed=False)
+                    addpars = (
+                        best_model.npars(count_fixed=False)
+                        - check_models[i].npars(count_fixed=False)
+                        - best_model[i].npars(count_fixed=False)
+                    )
 
                     # Remove contribution of (effectively) fixed peaks
                     y = np.array(y_nobl)
@@ -1579,6 +1583,9 @@ class ModelCluster(object):
 
                     prune_mc.fit(ntrials=int(np.sqrt(len(y)) + 50), estimate=False)
 
+                    # The fit may have reverted to a copy of the model.
+                    check_models[i] = prune_mc.model
+
                     qual = prune_mc.quality(kshift=addpars)
                     check_qual = np.append(check_qual, qual)
                     check_qualidx = np.append(check_qualidx, i)
-- 
2.43.0


From 56b5dd80b3c8f5b2bfd28d65e04af69c6d4384a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 19/65] fix: covariance transformation uses G V G^T, and
 accepts baselines and parts without parameters

---
 src/diffpy/srmise/modelcluster.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 482ebd9..0063688 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -173,13 +173,13 @@ class ModelCovariance(object):
             if kwds["parts"] == "peaks":
                 parts = range(len(self.model) - 1)
             elif kwds["parts"] == "baseline":
-                parts = [-1]
+                parts = [len(self.model) - 1]
             else:
                 parts = kwds["parts"]
         else:
             parts = range(len(self.model))
 
-        # Calculate V_y = G Transpose(V_x) G
+        # Calculate V_y = G V_x Transpose(G)
         # where V_y is the covariance matrix in terms of the parameterization y,
         # V_x is the current covariance matrix, and G is the gradient matrix of
         # the variable transformation x->y.  That is, G_ij = dy_i/dx_j.
@@ -191,6 +191,8 @@ class ModelCovariance(object):
         g = np.identity(self.cov.shape[0])
 
         for i in parts:
+            if len(self.mmap[i]) == 0:
+                continue  # No parameters to transform
             start = self.mmap[i][0]
             stop = self.mmap[i][-1] + 1
             p = self.model[i]
@@ -223,7 +225,7 @@ class ModelCovariance(object):
             g[start:stop, start:stop] = subg
 
         g = np.matrix(g)
-        self.cov = np.array(g * np.matrix(self.cov).transpose() * g)
+        self.cov = np.array(g * np.matrix(self.cov) * g.transpose())
 
         return
 
-- 
2.43.0


From 8a0afaf5e6201e41d97e8e8aa9f3e8d493c33ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 20/65] fix: keep the parameterization of a part whose
 covariance cannot be transformed

---
 src/diffpy/srmise/modelcluster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 0063688..0648190 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -203,13 +203,13 @@ class ModelCovariance(object):
                     "Transformation gradient not implemented for part %i: %s.  Ignoring transformation."
                     % (i, str(p))
                 )
-                subg = np.identity(p.npars(True))
+                continue
             except Exception as e:
                 logger.warning(
                     "Transformation gradient failed for part %i: %s. "
                     "Failed with message %s. Ignoring transformation." % (i, str(p), str(e))
                 )
-                subg = np.identity(p.npars(True))
+                continue
 
             # Now transform the parameters to match
             try:
-- 
2.43.0


From d7aab49a950ce6273cce1e600e2ec17f22318766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 21/65] fix: setcovariance discards the parameter maps of a
 previous model

---
 src/diffpy/srmise/modelcluster.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 0648190..35a0de1 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -104,6 +104,7 @@ class ModelCovariance(object):
             ]
             raise ValueError("".join(emsg))
 
+        self.clear()
         self.model = model.copy()
 
         # The free/fixed status of every parameter in the model
-- 
2.43.0


From 08be4865acc3406b9cd8ec480608d9d1a526fa0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:53 +0000
Subject: [PATCH 22/65] fix: covariance scales with the number of fitted
 points, and is left undefined for a singular fit

---
 src/diffpy/srmise/modelparts.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index d4d17ae..b22de83 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -210,9 +210,12 @@ class ModelParts(list):
         if cov is not None:
             pcov = f[1]
             fvec = f[2]["fvec"]
-            dof = len(r) - len(freepars)
-            cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
+            dof = len(fvec) - len(freepars)
             try:
+                if pcov is None or dof <= 0:
+                    cov.clear()
+                else:
+                    cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
                 logger.warning("Covariance not defined.  Fit may not have converged.")
-- 
2.43.0


From 65faddd59f0894538dfe2bae46c68084a7be357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 23/65] fix: model evaluators are found by name in
 diffpy.srmise.modelevaluators, so saved sessions can be read back

---
 src/diffpy/srmise/modelevaluators/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srmise/modelevaluators/__init__.py b/src/diffpy/srmise/modelevaluators/__init__.py
index 0efb8dc..4b39221 100644
--- a/src/diffpy/srmise/modelevaluators/__init__.py
+++ b/src/diffpy/srmise/modelevaluators/__init__.py
@@ -13,3 +13,5 @@
 ##############################################################################
 
 # __init__.py file for modelevalutors module
+from diffpy.srmise.modelevaluators.aic import AIC  # noqa
+from diffpy.srmise.modelevaluators.aicc import AICc  # noqa
-- 
2.43.0


From c6d6c6d8a1cb3c9d48e1fc0d591df7c4bbb7ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 24/65] fix: read saved sessions as text

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 48e3419..6d48011 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -316,7 +316,7 @@ class PeakExtraction(object):
         self
         """
         try:
-            self.readstr(open(filename, "rb").read())
+            self.readstr(open(filename, "r").read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
-- 
2.43.0


From 558c74af4e47ba6ac6c268df7cd7e5dcb97b44c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 25/65] fix: valid regular expression for the
 effective-uncertainty column of saved sessions

---
 src/diffpy/srmise/peakextraction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 6d48011..d2b20eb 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -386,7 +386,7 @@ class PeakExtraction(object):
         res = re.search(r"\bdy\b", start_data_info)
         if res:
             hasdy = True
-        res = re.search(r"\edy\b", start_data_info)
+        res = re.search(r"\bedy\b", start_data_info)
         if res:
             hasedy = True
 
-- 
2.43.0


From ea7f5335e45b028b078bff3ea87eb6fa90140e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 26/65] fix: plain PeakExtraction sessions (without metadata)
 can be written and read

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index d2b20eb..c3603d3 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -707,10 +707,10 @@ class PeakExtraction(object):
 
     def writemetadata(self):
         """Return string for metadata not defined by srmise class."""
-        return
+        return ""
 
-    def readmetadata(self):
-        """Return string for metadata not defined by srmise class."""
+    def readmetadata(self, metastr):
+        """Read metadata not defined by srmise class from string."""
         return
 
     def writesummary(self):
-- 
2.43.0


From 02b6b299486212f1797a270cdde388ba3073404b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 27/65] fix: reject saved sessions whose data rows do not match
 the declared columns

---
 src/diffpy/srmise/peakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index c3603d3..b3ced2d 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -508,6 +508,7 @@ class PeakExtraction(object):
                 split_line = line.split()
                 if len(arrays) != len(split_line):
                     emsg = "Number of value fields does not match that given by '%s'" % start_data_info
+                    raise IndexError(emsg)
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-- 
2.43.0


From 425106d56c405a62930adf6c79d3b66fecf5aa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 28/65] fix: malformed model data raises SrMiseDataFormatError,
 with a printable message

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 35a0de1..e9655bf 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -763,7 +763,7 @@ class ModelCluster(object):
                 for a, v in zip(arrays, line.split()):
                     a.append(float(v))
         except (ValueError, IndexError) as err:
-            raise SrMiseDataFormatError(err)
+            raise SrMiseDataFormatError(str(err))
         if hasr:
             r_data = np.array(r_data)
         if hasy:
-- 
2.43.0


From 931f48bcdec1c40f3fceaaa72b449be7bdf67f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 29/65] fix: unset model evaluator, resolution and peak
 functions survive saving and reading

---
 src/diffpy/srmise/modelcluster.py   |  3 ++-
 src/diffpy/srmise/peakextraction.py | 13 +++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index e9655bf..676285d 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -717,7 +717,8 @@ class ModelCluster(object):
         res = re.search(r"^ModelEvaluator=(.*)$", header, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        error_method = getattr(module, res.groups()[0].strip())
+        error_method = res.groups()[0].strip()
+        error_method = None if error_method == "None" else getattr(module, error_method)
 
         # slice
         res = re.search(r"^slice=(.*)$", header, re.M)
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index b3ced2d..80301d1 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -459,13 +459,14 @@ class PeakExtraction(object):
         rx = {"f": r"[-+]?(\d+(\.\d*)?|\d*\.\d+)([eE][-+]?\d+)?"}
         regexp = r"\bcres *= *(%(f)s)\b" % rx
         res = re.search(regexp, srmisemetadata, re.I)
-        self.cres = float(res.groups()[0])
+        self.cres = float(res.groups()[0]) if res else None
 
         # error_method
         res = re.search(r"^ModelEvaluator=(.*)$", srmisemetadata, re.M)
         __import__("diffpy.srmise.modelevaluators")
         module = sys.modules["diffpy.srmise.modelevaluators"]
-        self.error_method = getattr(module, res.groups()[0].strip())
+        error_method = res.groups()[0].strip()
+        self.error_method = None if error_method == "None" else getattr(module, error_method)
 
         # range
         res = re.search(r"^Range=(.*)$", srmisemetadata, re.M)
@@ -598,7 +599,8 @@ class PeakExtraction(object):
             else:  # should be a ModelPart
                 allbf.append(self.baseline.owner())
         if self.extracted is not None:
-            allpf.extend(self.extracted.peak_funcs)
+            if self.extracted.peak_funcs is not None:
+                allpf.extend(self.extracted.peak_funcs)
             allpf.extend([p.owner() for p in self.extracted.model])
             if self.extracted.baseline is not None:
                 allbf.append(self.extracted.baseline.owner())
@@ -646,7 +648,10 @@ class PeakExtraction(object):
             lines.append("pf=%s" % repr([safepf.index(p) for p in self.pf]))
 
         # Clustering resolution
-        lines.append("cres=%g" % self.cres)
+        if self.cres is None:
+            lines.append("cres=None")
+        else:
+            lines.append("cres=%g" % self.cres)
         # Model evaluator
         if self.error_method is None:
             lines.append("ModelEvaluator=None")
-- 
2.43.0


From 5ad17a3b4162e9940975629704c501e5e9a53d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 30/65] fix: model clusters without baseline or peak functions
 can be written

---
 src/diffpy/srmise/modelcluster.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 676285d..fa37245 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -548,7 +548,8 @@ class ModelCluster(object):
             writepf = False
         else:
             pfbaselist = [p.owner() for p in self.model]
-            pfbaselist.extend(self.peak_funcs)
+            if self.peak_funcs is not None:
+                pfbaselist.extend(self.peak_funcs)
             pfbaselist = list(set(pfbaselist))
             pfbaselist = BaseFunction.safefunctionlist(pfbaselist)
             writepf = True
@@ -557,7 +558,9 @@ class ModelCluster(object):
             blfbaselist = kwds["blfbaselist"]
             writeblf = False
         else:
-            blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
+            blfbaselist = []
+            if self.baseline is not None:
+                blfbaselist = BaseFunction.safefunctionlist([self.baseline.owner()])
             writeblf = True
 
         lines = []
-- 
2.43.0


From ae55f6652d089565a8157ee3d057d854748eb362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 31/65] fix: a file lacking a section of the saved session
 format is reported as such

---
 src/diffpy/srmise/peakextraction.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 80301d1..cdabd1d 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -354,6 +354,11 @@ class PeakExtraction(object):
         safepf = []
         safebf = []
 
+        results = start_data = metadata = srmisemetadata = initial_peaks = None
+        baselineobject = peakfunctions = baselinefunctions = None
+        header = datastring
+        start_data_info = ""
+
         # find where the results section starts
         res = re.search(r"^#+ Results\s*(?:#.*\s+)*", datastring, re.M)
         if res:
@@ -420,6 +425,19 @@ class PeakExtraction(object):
             baselinefunctions = header[res.end() :].strip()
             header = header[: res.start()]
 
+        if None in (
+            results,
+            start_data,
+            metadata,
+            srmisemetadata,
+            initial_peaks,
+            baselineobject,
+            peakfunctions,
+            baselinefunctions,
+        ):
+            emsg = "Required section not found."
+            raise SrMiseDataFormatError(emsg)
+
         #  Instantiating baseline functions
         res = re.split(r"(?m)^#+ BaselineFunction \d+\s*(?:#.*\s+)*", baselinefunctions)
         for s in res[1:]:
-- 
2.43.0


From 9fef8599a6d612502d7ee8d78370ed2f690c8ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 32/65] fix: extraction and fitting leave the given baseline
 and initial peaks unchanged

---
 src/diffpy/srmise/peakextraction.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index cdabd1d..9998004 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -856,7 +856,7 @@ class PeakExtraction(object):
 
         # Make sure all required extraction variables have some value
         self.defaultvars()
-        bl = self.baseline
+        bl = self.baseline.copy()
 
         # Copy initial_peaks
         # While it would be nice to integrate them into extracted model naturally
@@ -1406,8 +1406,8 @@ class PeakExtraction(object):
 
         # Set up ModelCluster
         ext = ModelCluster(
-            self.initial_peaks,
-            self.baseline,
+            self.initial_peaks.copy(),
+            self.baseline.copy(),
             x,
             y,
             dy,
-- 
2.43.0


From d87628e84948a0a9f1d16665e5a6218b45707b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 33/65] fix: PeakExtraction.plot passes its keywords on

---
 src/diffpy/srmise/peakextraction.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 9998004..e97d981 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -281,7 +281,7 @@ class PeakExtraction(object):
         """
         plt.clf()
         if self.extracted is not None:
-            plt.plot(*self.extracted.plottable(kwds))
+            plt.plot(*self.extracted.plottable(**kwds))
         else:
 
             # Make sure all required extraction variables have some value
@@ -301,7 +301,7 @@ class PeakExtraction(object):
                 self.error_method,
                 self.pf,
             )
-            plt.plot(*mcluster.plottable(kwds))
+            plt.plot(*mcluster.plottable(**kwds))
 
     def read(self, filename):
         """Load PeakExtraction object from file.
-- 
2.43.0


From 760b2e742f14ffa9be2a67f5fc7b79f97c422ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 34/65] fix: completing a partial range does not change the
 sequence given by the user, and accepts tuples

---
 src/diffpy/srmise/peakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index e97d981..0b23f91 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -222,6 +222,7 @@ class PeakExtraction(object):
         if self.rng is None or "rng" in args:
             self.rng = [self.x[0], self.x[-1]]
         else:
+            self.rng = list(self.rng)
             if self.rng[0] is None:
                 self.rng[0] = self.x[0]
             if self.rng[1] is None:
-- 
2.43.0


From 5ed5c93f92d439a858d99db0bb2abd56476b72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 35/65] fix: reload stability results whose baseline is given
 as a function to estimate

---
 src/diffpy/srmise/peakstability.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/peakstability.py b/src/diffpy/srmise/peakstability.py
index 77e3928..4e902ae 100644
--- a/src/diffpy/srmise/peakstability.py
+++ b/src/diffpy/srmise/peakstability.py
@@ -60,7 +60,7 @@ class PeakStability:
                 if r[2] is not None:
                     kwds = r[2]
                     if hasattr(bl, "estimate_parameters"):
-                        r[2] = bl.actualize(default_input="internal", **kwds)
+                        r[2] = bl.actualize(in_format="internal", **kwds)
                     else:
                         r[2] = bl.owner().actualize(in_format="internal", **kwds)
         finally:
-- 
2.43.0


From f004fb559b4801f18fc06772d1063129e73e516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 36/65] fix: a PDF file that is not text is reported as an
 unsupported file

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 3965fe3..520e9c8 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -206,7 +206,7 @@ class PDFDataSet(PDFComponent):
             with open(filename, "rb") as file:
                 file_content = file.read().decode("utf-8")
             self.readStr(file_content)
-        except PDFDataFormatError as err:
+        except (PDFDataFormatError, UnicodeDecodeError) as err:
             basename = os.path.basename(filename)
             emsg = ("Could not open '%s' due to unsupported file format " + "or corrupted data. [%s]") % (
                 basename,
-- 
2.43.0


From e90d103ec82b06dc443714ab52e44c277e9e7322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 37/65] fix: load saved AIC tables

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 91cd34c..b4915a3 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -163,7 +163,7 @@ class MultimodelSelection(PeakStability):
         em = self.ppe.error_method
 
         self.aics = aics_in
-        self.dgs = np.sort(aics_in.keys())
+        self.dgs = np.sort(list(aics_in.keys()))
 
         for i, dg in enumerate(self.dgs):
             self.dgs_idx[dg] = i
-- 
2.43.0


From ae612d5e30d43fb5ea615c651c09badce7cec24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 38/65] fix: classbestdgs and modelbestdgs consider only the
 requested uncertainties

---
 src/diffpy/srmise/multimodelselection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index b4915a3..8ba3d11 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -544,7 +544,7 @@ class MultimodelSelection(PeakStability):
         if dgs is None:
             dgs = self.dgs
         bestdgs = []
-        for dg in self.dgs:
+        for dg in dgs:
             if self.sortedclassprobs[dg][-1] == cls:
                 bestdgs.append(dg)
         return bestdgs
-- 
2.43.0


From ae51ead8c73a2fedaebf8bb8f64fca9bd22678c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 39/65] fix: MultimodelSelection.get accepts the documented dG
 argument, with keywords

---
 src/diffpy/srmise/multimodelselection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 8ba3d11..aff6b83 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -918,7 +918,8 @@ class MultimodelSelection(PeakStability):
         fdict = {
             "aic": self.get_aic,
             "class": self.get_class,
-            "dg": lambda x: x,
+            "dg": lambda x, **kwds: x,
+            "dG": lambda x, **kwds: x,
             "model": self.get_model,
             "nfree": self.get_nfree,
             "prob": self.get_prob,
-- 
2.43.0


From 8ce33dbe28d6d3e96d912128c370ba3cf269b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 40/65] fix: plot3dclassprobs works with current matplotlib and
 Python 3

---
 src/diffpy/srmise/multimodelselection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index aff6b83..5ce6754 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -612,7 +612,7 @@ class MultimodelSelection(PeakStability):
         "cbaxis" - The colorbar axis, if it exists.
         "cb" - The colorbar, if it exists.
         """
-        from matplotlib import cm, colorbar, colors
+        from matplotlib import colorbar, colors
         from matplotlib.collections import PolyCollection
 
         fig = kwds.pop("figure", plt.gcf())
@@ -627,8 +627,8 @@ class MultimodelSelection(PeakStability):
         probfilter = kwds.pop("probfilter", [0.0, 1.0])
         class_size = kwds.pop("class_size", "number")
         norm = kwds.pop("norm", "auto")
-        cmap = kwds.pop("cmap", cm.get_cmap("jet"))
-        highlight_cmap = kwds.pop("highlight_cmap", cm.get_cmap("gray"))
+        cmap = kwds.pop("cmap", plt.get_cmap("jet"))
+        highlight_cmap = kwds.pop("highlight_cmap", plt.get_cmap("gray"))
         title = kwds.pop("title", True)
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
@@ -646,7 +646,7 @@ class MultimodelSelection(PeakStability):
                     (xs[0], 0),
                     (xs[-1], 0),
                 )  # points to close the vertices
-                verts.append(np.concatenate([[p0], zip(xs, ys), [p1], [p0]]))
+                verts.append(np.concatenate([[p0], list(zip(xs, ys)), [p1], [p0]]))
                 zlabels.append(i)
 
         #  Define face colors
-- 
2.43.0


From ab95d14caca7089d689f8caafbb61f13575f8347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 41/65] fix: trace files can be read back, with their own
 counter and recursion level

---
 src/diffpy/srmise/srmiselog.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index d5fcd6f..c09e9a7 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -42,6 +42,8 @@ import logging
 import os.path
 import re
 
+import numpy as np  # noqa: F401 (slices of traces may hold numpy integers)
+
 from diffpy.srmise.srmiseerrors import SrMiseDataFormatError, SrMiseFileError, SrMiseLogError
 
 # Default settings ###
@@ -247,7 +249,7 @@ class TracePeaks(object):
         "recursion" - The recursion level of mc
         """
         try:
-            return self.readstr(open(filename, "rb").read())
+            return self.readstr(open(filename, "r").read())
         except SrMiseDataFormatError as err:
             logger.exception("")
             basename = os.path.basename(filename)
@@ -296,14 +298,14 @@ class TracePeaks(object):
 
         res = re.search(r"^recursion=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            recursion = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'recursion' not found."
             raise SrMiseDataFormatError(emsg)
 
         res = re.search(r"^counter=(.*)$", header, re.M)
         if res:
-            eval(res.groups()[0].strip())
+            counter = eval(res.groups()[0].strip())
         else:
             emsg = "Required field 'counter' not found."
             raise SrMiseDataFormatError(emsg)
@@ -311,8 +313,8 @@ class TracePeaks(object):
         return {
             "mc": mc,
             "clusters": clusters,
-            "recursion": self.recursion,
-            "counter": self.counter,
+            "recursion": recursion,
+            "counter": counter,
         }
 
     def pushr(self):
-- 
2.43.0


From d4b95f78f38a8bcdba193978e9599265d7314d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 42/65] fix: addfilelog accepts level names, and lower levels
 reach the file

---
 src/diffpy/srmise/srmiselog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index c09e9a7..4a6a20d 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -88,7 +88,10 @@ def addfilelog(filename, level=defaultlevel, format=defaultformat):
     """
     global fh
     fh = logging.FileHandler(filename)
+    level = LEVELS.get(level, level)
     fh.setLevel(level)
+    if level < logger.getEffectiveLevel():
+        logger.setLevel(level)
     formatter = logging.Formatter(format)
     fh.setFormatter(formatter)
     logger.addHandler(fh)
-- 
2.43.0


From 6f028467ac5fbd7fa975f3f9d70339ac5d742b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:41 +0000
Subject: [PATCH 43/65] fix: stored traces hold copies of the peaks, unaffected
 by further extraction

---
 src/diffpy/srmise/srmiselog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/srmiselog.py b/src/diffpy/srmise/srmiselog.py
index 4a6a20d..278e4d6 100644
--- a/src/diffpy/srmise/srmiselog.py
+++ b/src/diffpy/srmise/srmiselog.py
@@ -210,7 +210,7 @@ class TracePeaks(object):
         for m in args:
             clusters.append(m.slice)
         for m in args[1:]:
-            mc.replacepeaks(m.model)
+            mc.replacepeaks(m.model.copy())
         return {
             "mc": mc,
             "clusters": clusters,
-- 
2.43.0


From cf5576b2fd1ddb03b9cc49d2dd3cdbeb98a6f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 44/65] fix: command-line options --pf and --me find the peak
 functions and model evaluators

---
 src/diffpy/srmise/applications/extract.py | 33 +++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 3dd4eaa..93ccdc9 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -33,6 +33,27 @@ def _baseline_namespace():
     }
 
 
+def _peak_namespace():
+    """Return the peak function classes supported by the CLI."""
+    from diffpy.srmise.peaks.gaussian import Gaussian
+    from diffpy.srmise.peaks.gaussianoverr import GaussianOverR
+    from diffpy.srmise.peaks.terminationripples import TerminationRipples
+
+    return {
+        "Gaussian": Gaussian,
+        "GaussianOverR": GaussianOverR,
+        "TerminationRipples": TerminationRipples,
+    }
+
+
+def _modelevaluator_namespace():
+    """Return the model evaluator classes supported by the CLI."""
+    from diffpy.srmise.modelevaluators.aic import AIC
+    from diffpy.srmise.modelevaluators.aicc import AICc
+
+    return {"AIC": AIC, "AICc": AICc}
+
+
 def main():
     """Default SrMise entry-point."""
     usage = (
@@ -447,7 +468,11 @@ def main():
 
     if options.peakfunction:
         try:
-            options.peakfunction = eval("peaks." + options.peakfunction)
+            options.peakfunction = eval(
+                options.peakfunction,
+                {"__builtins__": {}},
+                _peak_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
@@ -463,7 +488,11 @@ def main():
 
     if options.modelevaluator:
         try:
-            options.modelevaluator = eval("modelevaluators." + options.modelevaluator)
+            options.modelevaluator = eval(
+                options.modelevaluator,
+                {"__builtins__": {}},
+                _modelevaluator_namespace(),
+            )
         except Exception as err:
             print(err)
             print(
-- 
2.43.0


From 12680fd2a728b945aae157a99a4bb38a44a83687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 45/65] fix: a command-line baseline without parameters
 (--bseq) is no longer ignored

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 93ccdc9..bf0336d 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -573,7 +573,7 @@ def main():
         pdict = {}
         if options.peakfunction:
             pdict["pf"] = [options.peakfunction]
-        if options.baseline:
+        if options.baseline is not None:
             pdict["baseline"] = options.baseline
         if options.cres:
             pdict["cres"] = options.cres
-- 
2.43.0


From 913fa301f64f3a807346d3f872dbaf6bbe12fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 46/65] fix: command-line options --no-nyquist and --no-scale
 take effect

---
 src/diffpy/srmise/applications/extract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index bf0336d..4acd111 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -598,11 +598,11 @@ def main():
             pdict["rng"] = list(options.rng)
         if options.qmax:
             pdict["qmax"] = options.qmax if options.qmax == "automatic" else float(options.qmax)
-        if options.nyquist:
+        if options.nyquist is not None:
             pdict["nyquist"] = options.nyquist
         if options.supersample:
             pdict["supersample"] = options.supersample
-        if options.scale:
+        if options.scale is not None:
             pdict["scale"] = options.scale
         if options.modelevaluator:
             pdict["error_method"] = options.modelevaluator
-- 
2.43.0


From 1d3a07e59eea32eafb7a3caadf054bc0196198a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 47/65] fix: --dg-mode ptp-fraction works with NumPy 2

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index 4acd111..c7f7d93 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -591,7 +591,7 @@ def main():
         elif options.dg_mode == "max-fraction":
             pdict["effective_dy"] = options.dg * ext.y.max() * np.ones(len(ext.x))
         elif options.dg_mode == "ptp-fraction":
-            pdict["effective_dy"] = options.dg * ext.y.ptp() * np.ones(len(ext.y))
+            pdict["effective_dy"] = options.dg * np.ptp(ext.y) * np.ones(len(ext.y))
         elif options.dg_mode == "dG-fraction":
             pdict["effective_dy"] = options.dg * ext.dy
         if options.rng:
-- 
2.43.0


From b71c83ccc0ec9bc0b64824416c6d944092ddf761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 48/65] fix: default uncertainty of the command line is 5% of
 the maximum when the PDF reports none, as documented

---
 src/diffpy/srmise/applications/extract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/extract.py b/src/diffpy/srmise/applications/extract.py
index c7f7d93..b20db5a 100755
--- a/src/diffpy/srmise/applications/extract.py
+++ b/src/diffpy/srmise/applications/extract.py
@@ -580,7 +580,7 @@ def main():
         if options.dg_mode is None:
             if options.dg:
                 options.dg_mode = "absolute"
-            elif ext.dy is None:
+            elif ext.dy is None or not np.all(ext.dy > 0):
                 options.dg_mode = "max-fraction"
             else:
                 options.dg_mode = "dG-fraction"
-- 
2.43.0


From 579d688501befc515f4755e74c4262308ca5a9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 49/65] fix: distances to compare are read as text, keeping the
 first digit

---
 src/diffpy/srmise/applications/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index b4d28c0..dfa446e 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -560,7 +560,7 @@ def readcompare(filename):
     """
     # TODO: Make this safer
     try:
-        datastring = open(filename, "rb").read()
+        datastring = open(filename, "r").read()
     except Exception as err:
         raise err
 
@@ -568,7 +568,7 @@ def readcompare(filename):
 
     res = re.search(r"^[^#]", datastring, re.M)
     if res:
-        datastring = datastring[res.end() :].strip()
+        datastring = datastring[res.start() :].strip()
 
     distances = []
 
-- 
2.43.0


From 109330ce7e498a0291cf1d14ea3cff3abc266d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 50/65] fix: parameters given as integers are not truncated
 when converted or fitted

---
 src/diffpy/srmise/modelparts.py          | 2 +-
 src/diffpy/srmise/peaks/gaussian.py      | 2 +-
 src/diffpy/srmise/peaks/gaussianoverr.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index b22de83..9883792 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -530,7 +530,7 @@ class ModelPart(object):
         if len(pars) != owner.npars:
             emsg = "The length of pars must equal the number of parameters " + "specified by the model part owner."
             raise ValueError(emsg)
-        self.pars = np.array(pars[:])  # pars[:] in case pars is a ModelPart
+        self.pars = np.array(pars[:], dtype=float)  # pars[:] in case pars is a ModelPart
 
         if free is None:
             self.free = np.array([True for p in pars], dtype=bool)
diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index 6d6890f..dd2e3c5 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -333,7 +333,7 @@ class Gaussian(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index a50bedc..a90840c 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -400,7 +400,7 @@ class GaussianOverR(PeakFunction):
         array_like
             The transformed parameters in the `out_format`.
         """
-        temp = np.array(pars)
+        temp = np.array(pars, dtype=float)
 
         # Do I need to change anything?  The internal parameters may need to be
         # placed into the preferred range, even though their interpretation does
-- 
2.43.0


From c1999bfb95eafe0c2da8ec87f9a6c3a75108652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 51/65] fix: putting a very large width parameter into its
 preferred range keeps the peak unchanged

---
 src/diffpy/srmise/peaks/gaussian.py      | 9 ++++-----
 src/diffpy/srmise/peaks/gaussianoverr.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index dd2e3c5..cad047d 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -345,11 +345,10 @@ class Gaussian(PeakFunction):
         if in_format == "internal":
             # put the parameter for width in the "physical" quadrant [-pi/2,pi/2],
             # where .5*(sin(p)+1) covers fwhm = [0, maxwidth]
-            n = np.floor((temp[1] + np.pi / 2) / np.pi)
-            if np.mod(n, 2) == 0:
-                temp[1] = temp[1] - np.pi * n
-            else:
-                temp[1] = np.pi * n - temp[1]
+            # without changing the sine, which subtracting multiples of pi from
+            # the very large values a fit can reach would.
+            if np.abs(temp[1]) > np.pi / 2:
+                temp[1] = np.arctan2(np.sin(temp[1]), np.abs(np.cos(temp[1])))
             temp[2] = np.abs(temp[2])  # map negative area to equivalent positive one
         elif in_format == "pwa":
             if temp[1] > self.maxwidth:
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index a90840c..dc2fb55 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -412,11 +412,10 @@ class GaussianOverR(PeakFunction):
         if in_format == "internal":
             # put the parameter for width in the "physical" quadrant [-pi/2,pi/2],
             # where .5*(sin(p)+1) covers fwhm = [0, maxwidth]
-            n = np.floor((temp[1] + np.pi / 2) / np.pi)
-            if np.mod(n, 2) == 0:
-                temp[1] = temp[1] - np.pi * n
-            else:
-                temp[1] = np.pi * n - temp[1]
+            # without changing the sine, which subtracting multiples of pi from
+            # the very large values a fit can reach would.
+            if np.abs(temp[1]) > np.pi / 2:
+                temp[1] = np.arctan2(np.sin(temp[1]), np.abs(np.cos(temp[1])))
             temp[2] = np.abs(temp[2])  # map negative area to equivalent positive one
         elif in_format == "pwa":
             if temp[1] > self.maxwidth:
-- 
2.43.0


From b2eee963c3979ef421e7a2ffd4a70a14b56a8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:19 +0000
Subject: [PATCH 52/65] fix: pruning ends when only peaks which are not
 removable remain

---
 src/diffpy/srmise/modelcluster.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index fa37245..735be7b 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1604,6 +1604,10 @@ class ModelCluster(object):
                     if qual < best_qual:
                         check_models[i] = None
 
+            # None of the remaining peaks may be removed.
+            if len(check_qual) == 0:
+                break
+
             arg = check_qual.argsort()
 
             msg = [
-- 
2.43.0


From 137d98b0d2e044ae565af6fef685cc91d7b57ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 53/65] fix: scaling to a width the internal parameter cannot
 resolve is refused instead of giving NaN

---
 src/diffpy/srmise/peaks/gaussian.py      | 5 +++++
 src/diffpy/srmise/peaks/gaussianoverr.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/diffpy/srmise/peaks/gaussian.py b/src/diffpy/srmise/peaks/gaussian.py
index cad047d..ddc2a55 100644
--- a/src/diffpy/srmise/peaks/gaussian.py
+++ b/src/diffpy/srmise/peaks/gaussian.py
@@ -240,6 +240,11 @@ class Gaussian(PeakFunction):
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
             raise SrMiseScalingError(str(err))
+        # The internal parameter cannot resolve widths much below maxwidth.
+        tsigma = self.transform_parameters(tpars, in_format="internal", out_format="mu_sigma_area")[1]
+        if not np.isclose(tsigma, sigma2, rtol=1e-3, atol=0):
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
         return tpars
 
     def _jacobianraw(self, pars, r, free):
diff --git a/src/diffpy/srmise/peaks/gaussianoverr.py b/src/diffpy/srmise/peaks/gaussianoverr.py
index dc2fb55..d3431ce 100644
--- a/src/diffpy/srmise/peaks/gaussianoverr.py
+++ b/src/diffpy/srmise/peaks/gaussianoverr.py
@@ -254,6 +254,11 @@ class GaussianOverR(PeakFunction):
             tpars = self.transform_parameters(tpars, in_format="mu_sigma_area", out_format="internal")
         except SrMiseTransformationError as err:
             raise SrMiseScalingError(str(err))
+        # The internal parameter cannot resolve widths much below maxwidth.
+        tsigma = self.transform_parameters(tpars, in_format="internal", out_format="mu_sigma_area")[1]
+        if not np.isclose(tsigma, sigma2, rtol=1e-3, atol=0):
+            emsg = "".join(["Cannot scale by ", str(scale), " at ", str(x), "."])
+            raise SrMiseScalingError(emsg)
         return tpars
 
     def _jacobianraw(self, pars, r, free):
-- 
2.43.0


From d030135785b73645a7ee651bd6e36e4be7eba6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 54/65] fix: augmenting does not add an estimated peak to a
 model left without peaks

---
 src/diffpy/srmise/modelcluster.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 735be7b..4f062c3 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -1448,7 +1448,7 @@ class ModelCluster(object):
 
         # TODO: Do I need this? If test_model contains peaks
         # by reference, the fit peaks will change as well.
-        self.fit()
+        self.fit(estimate=False)
         msg = [
             "Best model after fit is:",
             "%s",
-- 
2.43.0


From ae2d668490e15b92b72b4bd2e1df9de0552f0d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:49 +0000
Subject: [PATCH 55/65] fix: the metadata section of PDF files with CRLF line
 ends is read

---
 src/diffpy/srmise/pdfdataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/pdfdataset.py b/src/diffpy/srmise/pdfdataset.py
index 520e9c8..bc65b8f 100644
--- a/src/diffpy/srmise/pdfdataset.py
+++ b/src/diffpy/srmise/pdfdataset.py
@@ -249,7 +249,7 @@ class PDFDataSet(PDFComponent):
 
         # find where the metadata starts
         metadata = ""
-        res = re.search(r"^#+ +metadata\b\n", header, re.M)
+        res = re.search(r"^#+ +metadata\b[ \t\r]*\n", header, re.M)
         if res:
             metadata = header[res.end() :]
             header = header[: res.start()]
-- 
2.43.0


From 9445dee9cbbc349a06e55f97fba565fd73512f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 56/65] fix: setting new data forgets the qmax found in former
 data

---
 src/diffpy/srmise/pdfpeakextraction.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index 3744bb8..e36f44a 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -100,6 +100,7 @@ class PDFPeakExtraction(PeakExtraction):
             The y-coordinates of the data.
         """
         PeakExtraction.setdata(self, x, y, dx, dy)
+        self.qmax_fromdata = None
         try:
             self.qmax_fromdata = find_qmax(self.x, self.y)[0]
         except Exception:
-- 
2.43.0


From 7fc61d947cf960e82f42570d6f0e4daa22f5423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:37 +0000
Subject: [PATCH 57/65] fix: extraction does not add back an estimated peak
 after all were pruned

---
 src/diffpy/srmise/pdfpeakextraction.py | 4 ++--
 src/diffpy/srmise/peakextraction.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index e36f44a..dbc024b 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -496,7 +496,7 @@ class PDFPeakExtraction(PeakExtraction):
                         self.error_method,
                         self.pf,
                     )
-                    ext.fit()  # Clean up parameters after resampling.
+                    ext.fit(estimate=False)  # Clean up parameters after resampling.
 
                     ext.prune()
 
@@ -537,7 +537,7 @@ class PDFPeakExtraction(PeakExtraction):
 
         # Fit model with baseline, report covariance matrix
         cov = ModelCovariance()
-        ext.fit(fitbaseline=True, cov=cov, cov_format="default_output")
+        ext.fit(fitbaseline=True, estimate=False, cov=cov, cov_format="default_output")
         tracer.emit(ext)
 
         logger.info("Model after fitting with baseline:")
diff --git a/src/diffpy/srmise/peakextraction.py b/src/diffpy/srmise/peakextraction.py
index 0b23f91..66ab3ce 100644
--- a/src/diffpy/srmise/peakextraction.py
+++ b/src/diffpy/srmise/peakextraction.py
@@ -1377,7 +1377,7 @@ class PeakExtraction(object):
         # Also calculates covariance at this level.
         if recursion_depth == 1:
             cov = ModelCovariance()
-            mclusters[0].fit(fitbaseline=True, cov=cov)
+            mclusters[0].fit(fitbaseline=True, estimate=False, cov=cov)
 
         # Update calculated instance variables
         self.extraction_type = "extract_single"
-- 
2.43.0


From f9ccf45ced7aa7d8ac5594c43ccd2faee7787b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:27 +0000
Subject: [PATCH 58/65] fix: the covariance of a fit lists the parts of the
 fitted model in its order, without peaks dropped

---
 src/diffpy/srmise/modelcluster.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/diffpy/srmise/modelcluster.py b/src/diffpy/srmise/modelcluster.py
index 4f062c3..fd53a07 100644
--- a/src/diffpy/srmise/modelcluster.py
+++ b/src/diffpy/srmise/modelcluster.py
@@ -138,6 +138,24 @@ class ModelCovariance(object):
                             rawj += 1
                     rawi += 1
 
+    def keepparts(self, parts):
+        """Keep only some parts of the model, and their rows and columns of the covariance matrix.
+
+        Parameters
+        ----------
+        parts : list of int
+            The indices of the model parts to keep, in their new order.
+        """
+        if self.cov is None:
+            emsg = "Cannot select parts of undefined covariance matrix."
+            raise SrMiseUndefinedCovarianceError(emsg)
+
+        idx = [n for i in parts for n in self.mmap[i]]
+        if len(idx) == 0:
+            self.clear()
+            return
+        self.setcovariance(ModelParts([self.model[i] for i in parts]), np.array(self.cov)[np.ix_(idx, idx)])
+
     def transform(self, in_format, out_format, **kwds):
         """Transform parameters and covariance matrix under specified
         change of variables.
@@ -1104,8 +1122,15 @@ class ModelCluster(object):
         else:
             self.model = fmodel
 
+        # Sorting and cleaning may change which peak is which, and the covariance must agree
+        fit_parts = [id(p) for p in fmodel]
         self.model.sort()
         self.cleanfit()
+        if cov is not None and cov.cov is not None:
+            parts = list(self.model)
+            if fmodel is not self.model:
+                parts.append(self.baseline)
+            cov.keepparts([fit_parts.index(id(p)) for p in parts])
         new_qual = self.quality()
 
         # Test for fit improvement
-- 
2.43.0


From e37ce1402780b4eb9dcb99b4e07586c4e1f93e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:48 +0000
Subject: [PATCH 59/65] fix: a file of distances which cannot be read is
 ignored, as the message says

---
 src/diffpy/srmise/applications/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index dfa446e..8db4fa5 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -577,6 +577,7 @@ def readcompare(filename):
             distances.append(float(line))
     except (ValueError, IndexError):
         print("Could not read distances from '%s'. Ignoring file." % filename)
+        return None
 
     if len(distances) == 0:
         return None
-- 
2.43.0


From 6bf70a36498340c21c668b57505816eefbc40ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:35 +0000
Subject: [PATCH 60/65] fix: figures with every residual masked keep their
 limits

---
 src/diffpy/srmise/applications/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index 8db4fa5..033350b 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -299,7 +299,7 @@ def makeplot(ppe_or_stability, ip=None, **kwds):
     min_gr = kwds.get("min_gr", np.min([np.min(gr) for gr in all_gr]) / scale) * scale
     max_gr = kwds.get("max_gr", np.max([np.max(gr) for gr in all_gr]) / scale) * scale
 
-    if show_residual:
+    if show_residual and np.ma.count(gr_res) > 0:
         min_res = np.min(gr_res)
         max_res = np.max(gr_res)
     else:
-- 
2.43.0


From 64f6d8491f379cf5ee02e10b4384d16db98c3328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 61/65] fix: series of positions are shown whatever the order
 of the uncertainties

---
 src/diffpy/srmise/applications/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/applications/plot.py b/src/diffpy/srmise/applications/plot.py
index 033350b..55d8d7a 100755
--- a/src/diffpy/srmise/applications/plot.py
+++ b/src/diffpy/srmise/applications/plot.py
@@ -140,8 +140,8 @@ def dgseries(stability, **kwds):
 
     scale = kwds.get("scale", 1.0)
 
-    dgmin = kwds.get("dgmin", stability.results[0][0]) * scale
-    dgmax = kwds.get("dgmax", stability.results[-1][0]) * scale
+    dgmin = kwds.get("dgmin", min(result[0] for result in stability.results)) * scale
+    dgmax = kwds.get("dgmax", max(result[0] for result in stability.results)) * scale
 
     pmin = kwds.get("pmin", 0.0)
     pmax = kwds.get("pmax", np.inf)
-- 
2.43.0


From cd53e48d4d597cedaa453a730340ec19b03688cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:55 +0000
Subject: [PATCH 62/65] fix: plot3dclassprobs scales highlighted uncertainties,
 and takes any sequence of them

---
 src/diffpy/srmise/multimodelselection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 5ce6754..4c0db39 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -633,7 +633,7 @@ class MultimodelSelection(PeakStability):
         p_alpha = kwds.pop("p_alpha", 0.7)
         scale = kwds.pop("scale", 1.0)
 
-        xs = dGs * scale
+        xs = np.array(dGs) * scale
         verts = []
         zs = []
         zlabels = []
@@ -692,7 +692,7 @@ class MultimodelSelection(PeakStability):
         for dG, ci in zip(highlight, color_idx):
             for z_logical, z_plot in zip(zlabels, zs):
                 ax.plot(
-                    [dG, dG],
+                    [dG * scale, dG * scale],
                     [z_plot, z_plot],
                     [0, self.classprobs[dG][z_logical]],
                     color=highlight_cmap(ci),
-- 
2.43.0


From 79c50c2c7a889a5a1a4b1e98dc182c3903b98d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:18 +0000
Subject: [PATCH 63/65] fix: animations of probabilities show the best model,
 leave the results alone and work with current matplotlib

---
 src/diffpy/srmise/multimodelselection.py | 26 ++++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/diffpy/srmise/multimodelselection.py b/src/diffpy/srmise/multimodelselection.py
index 4c0db39..fb95c5d 100644
--- a/src/diffpy/srmise/multimodelselection.py
+++ b/src/diffpy/srmise/multimodelselection.py
@@ -226,9 +226,10 @@ class MultimodelSelection(PeakStability):
         plt.ion()
         plt.subplot(211)
         best_idx = self.sortedprobs[self.dgs[0]][-1]
-        (line,) = plt.plot(self.dgs, self.aicprobs[self.dgs[0]])
+        errs = [result[0] for result in self.results]
+        (line,) = plt.plot(errs, self.aicprobs[self.dgs[0]])
         vline = plt.axvline(self.dgs[0])
-        (dot,) = plt.plot(self.dgs[best_idx], self.aicprobs[self.dgs[0]][best_idx], "ro")
+        (dot,) = plt.plot(errs[best_idx], self.aicprobs[self.dgs[0]][best_idx], "ro")
 
         plt.subplot(212)
         self.setcurrent(best_idx)
@@ -236,15 +237,14 @@ class MultimodelSelection(PeakStability):
         for dg in self.dgs[1:]:
             plt.ioff()
             line.set_ydata(self.aicprobs[dg])
-            vline.set_xdata(dg)
+            vline.set_xdata([dg, dg])
             if self.sortedprobs[dg][-1] != best_idx:
                 best_idx = self.sortedprobs[dg][-1]
-                s = slice(0, len(self.ppe.extracted.model))
-                self.ppe.extracted.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
                 plt.cla()
                 plt.plot(*self.ppe.extracted.plottable())
-            dot.set_xdata(self.dgs[best_idx])
-            dot.set_ydata(self.aicprobs[dg][best_idx])
+            dot.set_xdata([errs[best_idx]])
+            dot.set_ydata([self.aicprobs[dg][best_idx]])
             plt.ion()
             plt.draw()
             if step:
@@ -277,7 +277,7 @@ class MultimodelSelection(PeakStability):
         arrow_right = arrow_left + 0.05 * arrow_left
         (line,) = plt.plot(range(len(self.classes)), self.classprobs[self.dgs[0]])
         (dot,) = plt.plot(
-            self.dgs[best_idx],
+            bestclass_idx,
             self.classprobs[self.dgs[0]][bestclass_idx],
             "ro",
         )
@@ -306,20 +306,20 @@ class MultimodelSelection(PeakStability):
             plt.ioff()
             line.set_ydata(self.classprobs[dg])
             dgarrow.xy = (arrow_right, dg)
-            dgarrow.xytext = (arrow_left, dg)
+            dgarrow.set_position((arrow_left, dg))
             if self.sortedclassprobs[dg][-1] != bestclass_idx:
                 bestclass_idx = self.sortedclassprobs[dg][-1]
                 best_idx = self.sortedclasses[dg][bestclass_idx][-1]
-                s = slice(0, len(tempcluster.model))
-                tempcluster.replacepeaks(self.results[best_idx][1], s)
+                self.setcurrent(best_idx)
+                tempcluster = ModelCluster(self.ppe.extracted)
                 plt.cla()
                 val = tempcluster.plottable()
                 minval = np.min(val[1::2])
                 [r, res] = tempcluster.plottable_residual()
                 plt.plot(*val)
                 plt.plot(r, minval - np.max(res) + res)
-            dot.set_xdata(bestclass_idx)
-            dot.set_ydata(self.classprobs[dg][bestclass_idx])
+            dot.set_xdata([bestclass_idx])
+            dot.set_ydata([self.classprobs[dg][bestclass_idx]])
             plt.ion()
             plt.draw()
             if step:
-- 
2.43.0


From 98281849a3e6c05df1a9dfc5c61ba1ded6e7228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:41 +0000
Subject: [PATCH 64/65] fix: covariances of fitted parameters put into their
 preferred range have the right sign

---
 src/diffpy/srmise/modelparts.py | 35 ++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srmise/modelparts.py b/src/diffpy/srmise/modelparts.py
index 9883792..7c4b8c8 100644
--- a/src/diffpy/srmise/modelparts.py
+++ b/src/diffpy/srmise/modelparts.py
@@ -199,6 +199,11 @@ class ModelParts(list):
             emsg = "Fit did not succeed -- " + str(f[3])
             raise SrMiseFitError(emsg)
 
+        # Cleaning up may replace a parameter by an equivalent one which changes in the
+        # opposite direction, e.g. a negative area, and so the sign of its covariances.
+        if cov is not None:
+            signs = np.concatenate([p._cleansigns()[p.free] for p in self])
+
         # clean up parameters
         for p in self:
             p.pars = p.owner().transform_parameters(p.pars, in_format="internal", out_format="internal")
@@ -215,7 +220,7 @@ class ModelParts(list):
                 if pcov is None or dof <= 0:
                     cov.clear()
                 else:
-                    cov.setcovariance(self, pcov * np.sum(fvec**2) / dof)
+                    cov.setcovariance(self, pcov * np.outer(signs, signs) * np.sum(fvec**2) / dof)
                 cov.transform(in_format="internal", out_format=cov_format)
             except SrMiseUndefinedCovarianceError:
                 logger.warning("Covariance not defined.  Fit may not have converged.")
@@ -570,6 +575,34 @@ class ModelPart(object):
             raise SrMiseStaticOwnerError(emsg)
         self._owner = owner
 
+    def _cleansigns(self):
+        """Return direction in which each parameter moves, -1 or 1, when restored
+        to the preferred range of the internal format.
+
+        It is -1 for parameters replaced by an equivalent one which changes in the
+        opposite direction, e.g. a negative area.
+
+        Returns
+        -------
+        signs : array-like
+            The sign for each parameter, fixed and free.
+        """
+
+        def clean(pars):
+            return self._owner.transform_parameters(pars, in_format="internal", out_format="internal")
+
+        raw = np.array(self.pars, dtype=float)
+        cleaned = clean(raw)
+        signs = np.ones(len(raw))
+        for i in range(len(raw)):
+            if cleaned[i] == raw[i]:
+                continue
+            step = np.zeros(len(raw))
+            step[i] = 1e-6 * max(1.0, 1e-6 * abs(raw[i]))
+            if clean(raw + step)[i] < clean(raw - step)[i]:
+                signs[i] = -1.0
+        return signs
+
     def compress(self):
         """Return part parameters with non-free values removed.
 
-- 
2.43.0


From bc2fce61be845df5246e9211396f904e1e304cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:11 +0000
Subject: [PATCH 65/65] fix: summaries of results can be written when the
 baseline is a function still to be estimated

---
 src/diffpy/srmise/pdfpeakextraction.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/diffpy/srmise/pdfpeakextraction.py b/src/diffpy/srmise/pdfpeakextraction.py
index dbc024b..d255aec 100644
--- a/src/diffpy/srmise/pdfpeakextraction.py
+++ b/src/diffpy/srmise/pdfpeakextraction.py
@@ -826,10 +826,12 @@ class PDFPeakExtraction(PeakExtraction):
         # Quality of fit
         lines.append("# Quality reported by ModelEvaluator: %s" % self.extracted.quality().stat)
         lines.append("# Free parameters in extracted peaks: %s" % self.extracted.model.npars(count_fixed=False))
-        if self.baseline is not None:
-            fblpars = self.baseline.npars(count_fixed=False)
-        else:
+        if self.baseline is None:
             fblpars = 0
+        elif isinstance(self.baseline, BaseFunction):
+            fblpars = self.baseline.npars  # no value is known yet, and none is fixed
+        else:
+            fblpars = self.baseline.npars(count_fixed=False)
         lines.append("# Free parameters in baseline: %s" % fblpars)
         lines.append("# Length of data in final fit: %s" % len(self.extracted.r_data))
 
-- 
2.43.0

