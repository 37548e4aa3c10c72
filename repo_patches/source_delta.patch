From 08b19d02e5726283642dd8e7734933971ac12dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 001/125] fix: Arc metric with 3d coordinates folded angles
 larger than 90 degrees

---
 include/Metric.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 95bdea6..f2d92eb 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -633,7 +633,7 @@ struct MetricHelper<Arc, P>
                       double rsq, double rpar, double s1ps2, double maxsep, double maxsepsq) const
     { return true; }
 
-    // For 3d coordinates, use the cross product to get sin(theta)
+    // For 3d coordinates, use the cross and dot products to get tan(theta)
     double DistSq(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                   double& s1, double& s2) const
     {
@@ -647,8 +647,9 @@ struct MetricHelper<Arc, P>
     double Dist(const Position<ThreeD>& p1, const Position<ThreeD>& p2) const
     {
         // sin(theta) = |p1 x p2| / |p1| |p2|
-        double sintheta = p1.cross(p2).norm() / (p1.norm() * p2.norm());
-        double theta = std::asin(sintheta);
+        // cos(theta) = p1 . p2 / |p1| |p2|
+        // Use atan2, so angles larger than 90 degrees come out right.
+        double theta = std::atan2(p1.cross(p2).norm(), p1.dot(p2));
         return theta;
     }
 
-- 
2.43.0


From 8f204e5a4960cf6ea4f956218d877832a89b4456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 002/125] fix: x-projection of three shears with 3d coordinates
 never projected the second one

---
 include/ProjectHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ProjectHelper.h b/include/ProjectHelper.h
index 338e635..e8bba5c 100644
--- a/include/ProjectHelper.h
+++ b/include/ProjectHelper.h
@@ -422,7 +422,7 @@ struct ProjectHelper<ThreeD>
         Position<Sphere> p2(c2.getPos());
         Position<Sphere> p3(c3.getPos());
         // Use the Sphere implementation with these positions.
-        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z3,z3);
+        ProjectHelper<Sphere>::ProjectX<D>(p1,p2,p3,z1,z2,z3);
     }
 
     static std::complex<double> ExpIPhi(
-- 
2.43.0


From 9c17ba911c4d860d065b34d809a8eed5fccfcc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:00 +0000
Subject: [PATCH 003/125] fix: spurious assert failure for pairs separated by
 exactly min_sep

---
 src/Corr2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index ccebc52..19d0232 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -597,7 +597,8 @@ void BaseCorr2::directProcess11(
     if (k < 0) {
         r = sqrt(rsq);
         logr = log(r);
-        Assert(logr >= _logminsep);
+        // Allow for rounding when r is right at minsep.
+        Assert(logr >= _logminsep - 1.e-10);
         k = BinTypeHelper<B>::calculateBinK(p1, p2, r, logr, _binsize,
                                             _minsep, _maxsep, _logminsep);
     } else {
-- 
2.43.0


From 52afd91727e870954f0ffe524457b8d31678d70d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 004/125] fix: pairs at wide angles were miscounted when using
 min_rpar or max_rpar

The test for whether cells were fully inside or outside the allowed rpar range
only used the change in r, not the change in the line of sight L.  And for Rlens
it used the size of the second cell after it had been scaled down by r1/r2.
---
 include/Metric.h | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index f2d92eb..f320be8 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -58,11 +58,26 @@ struct ParHelper<1> // P = 1 for most Metrics (all except OldRPerp)
         return r.dot(L) / L.norm();
     }
 
+    // Moving the points by s1ps2 changes rpar by at most s1ps2 from the change in r, plus the
+    // effect of L changing direction by up to arcsin(s1ps2/2|L|).  The latter is normally tiny,
+    // but not when the points are widely separated on the sky.
+    static double calculateMaxChange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
+                                     double rpar, double s1ps2)
+    {
+        if (s1ps2 == 0.) return 0.;
+        double x = s1ps2 / (p1+p2).norm();
+        // Note: written as a negative to also cover the L=0 case.
+        if (!(x < 1.)) return std::numeric_limits<double>::max();
+        double rperp = sqrt(std::max((p2-p1).normSq() - SQR(rpar), 0.));
+        return s1ps2 + x * rperp + x*x * std::abs(rpar);
+    }
+
     static bool isRParOutsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                                    const double minrpar, const double maxrpar,
                                    double s1ps2, double& rpar)
     {
         rpar = calculateRPar(p1,p2);
+        s1ps2 = calculateMaxChange(p1,p2,rpar,s1ps2);
         if (rpar + s1ps2 < minrpar) return true;
         else if (rpar - s1ps2 > maxrpar) return true;
         else return false;
@@ -72,6 +87,7 @@ struct ParHelper<1> // P = 1 for most Metrics (all except OldRPerp)
                                   const double minrpar, const double maxrpar,
                                   double s1ps2, double rpar)
     {
+        s1ps2 = calculateMaxChange(p1,p2,rpar,s1ps2);
         if (rpar - s1ps2 < minrpar) return false;
         else if (rpar + s1ps2 > maxrpar) return false;
         else return true;
@@ -557,11 +573,25 @@ struct MetricHelper<Rlens, P>
 
     bool isRParOutsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                             double s1ps2, double& rpar) const
-    { return ParHelper<P>::isRParOutsideRange(p1,p2,minrpar,maxrpar,s1ps2,rpar); }
+    {
+        return ParHelper<P>::isRParOutsideRange(p1,p2,minrpar,maxrpar,
+                                                unscale(p1,p2,s1ps2), rpar);
+    }
 
     bool isRParInsideRange(const Position<ThreeD>& p1, const Position<ThreeD>& p2,
                            double s1ps2, double rpar) const
-    { return ParHelper<P>::isRParInsideRange(p1,p2,minrpar,maxrpar,s1ps2,rpar); }
+    {
+        return ParHelper<P>::isRParInsideRange(p1,p2,minrpar,maxrpar,
+                                               unscale(p1,p2,s1ps2), rpar);
+    }
+
+    // s2 was scaled by r1/r2 in DistSq.  If that made it smaller, then we need to undo that
+    // when using s1ps2 for rpar.  (It's conservative to scale s1 by the same factor.)
+    static double unscale(const Position<ThreeD>& p1, const Position<ThreeD>& p2, double s1ps2)
+    {
+        if (P == 0 || s1ps2 == 0.) return s1ps2;
+        return s1ps2 * std::max(1., sqrt(p2.normSq() / p1.normSq()));
+    }
 
     // We've already accounted for the way that the raw s1+s2 may not be sufficient in DistSq
     // where we update s2 according to the relative distances.  So there is nothing further to
-- 
2.43.0


From 97e8e1256ee93b10544d9220bcb5d055c1a854c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 005/125] fix: pairs could be put in the wrong bin with very
 wide logarithmic bins

The expansion of log(r-x) used to decide that all pairs of two cells are in one bin
is not valid for x near r, which is allowed when bin_size is larger than 1.4.
---
 include/BinType.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BinType.h b/include/BinType.h
index 9a480e1..f37d237 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -139,7 +139,9 @@ struct BinTypeHelper<Log>
         // This test is safe for the up direction, but slightly too liberal in the down
         // direction.  log(r-x) < log(r) - x/r
         // So refine the test slightly to make sure we have a conservative check here.
-        // log(r-x) > log(r) - x/r - x^2/r^2   (if x<r)
+        // log(r-x) > log(r) - x/r - x^2/r^2   (if x<0.68r)
+        // For very wide bins, x can be larger than that.  In that case, just split.
+        if (s1ps2sq > 0.25 * rsq) return false;
         // s/r + s^2/r^2 > f*binsize + b
         if (s1ps2sq > SQR(frackk*binsize + b - s1ps2sq/rsq) * rsq) return false;
 
-- 
2.43.0


From 84c31aec04ad5d6b7d3af6469b004051db349dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 006/125] fix: Arc metric underestimated the angular sizes of
 large cells

Cell sizes are chord lengths (or for 3d, lengths), and converting to angles by dividing by
the distance gives something slightly too small, so pairs could be misplaced at bin_slop=0.
---
 include/Metric.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index f320be8..55121bc 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -632,7 +632,21 @@ struct MetricHelper<Arc, P>
 
     double DistSq(const Position<Sphere>& p1, const Position<Sphere>& p2,
                   double& s1, double& s2) const
-    { return SQR(Dist(p1,p2)); }
+    {
+        // The sizes are chord lengths, so the corresponding angles are a bit larger.
+        s1 = angularSize(s1, 1.-0.25*SQR(s1));
+        s2 = angularSize(s2, 1.-0.25*SQR(s2));
+        return SQR(Dist(p1,p2));
+    }
+
+    // If sin(theta) = x, then theta < tan(theta) = x / sqrt(1-x^2), which saves doing any trig
+    // functions and for small x is practically the same thing.
+    static double angularSize(double s, double cossq)
+    {
+        if (s == 0.) return 0.;
+        if (!(cossq > 0.)) return std::numeric_limits<double>::infinity();
+        return s / sqrt(cossq);
+    }
 
     double Dist(const Position<Sphere>& p1, const Position<Sphere>& p2) const
     {
@@ -669,8 +683,9 @@ struct MetricHelper<Arc, P>
     {
         double dsq = SQR(Dist(p1,p2));
         // Also the sizes need to be converted to the effective size on the unit sphere
-        s1 /= p1.norm();
-        s2 /= p2.norm();
+        // A sphere of radius s at distance r extends over an angle arcsin(s/r).
+        s1 = angularSize(s1, p1.normSq() - SQR(s1));
+        s2 = angularSize(s2, p2.normSq() - SQR(s2));
         return dsq;
     }
 
-- 
2.43.0


From 75ddbe00770db3ae646f8a8b24c75c40758e898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 007/125] fix: TwoD binning with min_sep kept or dropped pairs
 on the wrong side of min_sep

---
 include/BinType.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index f37d237..8d65cd6 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -335,6 +335,10 @@ struct BinTypeHelper<TwoD>
         }
         xdbg<<"Possible single bin case: "<<std::endl;
 
+        // Also make sure the pairs don't straddle minsep.
+        if (minsep > 0. && rsq < SQR(minsep + s1ps2 - b) &&
+            (s1ps2 - b >= minsep || rsq > SQR(minsep - s1ps2 + b))) return false;
+
         // Now there is a chance they could fit, depending on the exact position relative
         // to the bin center.
         double dx = p2.getX() - p1.getX();
-- 
2.43.0


From 7597582a7d582257384750adf415f0a697d03ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:04 +0000
Subject: [PATCH 008/125] fix: OldRperp with brute=True combined pairs of cells
 at equal distances

The cells' infinite sizes turned into nan, so they were not split.
---
 include/Metric.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Metric.h b/include/Metric.h
index 55121bc..6016d28 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -316,7 +316,9 @@ struct MetricHelper<OldRperp, P>
         if (r1sq < r2sq) {
             if (s1 != 0. && s1 < std::numeric_limits<double>::infinity())
                 s1 *= (1. + 0.25 * (r2sq-r1sq)/r1sq);
-        } else {
+        } else if (r2sq < r1sq) {
+            // Note: Don't do this when they are equal, since fast-math lets the compiler turn this
+            // into s2 + s2*0, which is nan when s2 is infinite (i.e. for brute force).
             if (s2 != 0. && s2 < std::numeric_limits<double>::infinity())
                 s2 *= (1. + 0.25 * (r1sq-r2sq)/r2sq);
         }
-- 
2.43.0


From de10af593585cf56425e16145d1fedb5eec65a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:38 +0000
Subject: [PATCH 009/125] fix: Linear and TwoD bin_slop ignored sep_units

The maximum error b was passed to the compiled code in the user's sep_units rather than in the
natural units used for all the other lengths.
---
 treecorr/corr2base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 09a3cd8..0b0b400 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -474,6 +474,7 @@ class Corr2(object):
         if self.bin_slop < 0.0:
             self._ro.bin_slop = min(max_good_slop, 1.0)
         self._ro.b = self.bin_size * self.bin_slop
+        self._ro._b = self._bin_size * self.bin_slop
         if self.bin_slop > max_good_slop + 0.0001 and self.angle_slop > 0.1:
             self.logger.warning(
                 "Using bin_slop = %g, angle_slop = %g, bin_size = %g (b = %g).\n"%(
@@ -587,6 +588,8 @@ class Corr2(object):
     @property
     def b(self): return self._ro.b
     @property
+    def _b(self): return self._ro._b
+    @property
     def brute(self): return self._ro.brute
     @property
     def min_rpar(self): return self._ro.min_rpar
@@ -633,7 +636,7 @@ class Corr2(object):
         if self._corr is None:
             x = np.array([])
             self._corr = self._builder(self._bintype, self._min_sep, self._max_sep, self._nbins,
-                                       self._bin_size, self.b, self.angle_slop,
+                                       self._bin_size, self._b, self.angle_slop,
                                        self.min_rpar, self.max_rpar,
                                        self.xperiod, self.yperiod, self.zperiod,
                                        self._xi1, self._xi2, self._xi3, self._xi4,
@@ -1421,7 +1424,7 @@ class Corr2(object):
                 min_size = self._min_sep * b1 / (2.+3.*b1)
             else:
                 a = self.angle_slop
-                min_size = min(a * self._min_sep / (2.+3.*a), self.b/2.)
+                min_size = min(a * self._min_sep / (2.+3.*a), self._b/2.)
 
             # The maximum size cell that will be useful is one where a cell of size s will
             # be split at the maximum separation even if the other size = 0.
@@ -1429,7 +1432,7 @@ class Corr2(object):
             if self.bin_type == 'Log':
                 max_size = self._max_sep * b1
             else:
-                max_size = min(a * self._max_sep, self.b)
+                max_size = min(a * self._max_sep, self._b)
 
             return min_size, max_size
         else:
-- 
2.43.0


From e1f060bb1308bd26a1afe2a2ed2748e9e34b77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 010/125] fix: min_rpar and max_rpar leaked by the minimum cell
 size with the Euclidean metric

---
 treecorr/corr2base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 0b0b400..a790932 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1410,7 +1410,8 @@ class Corr2(object):
         self.meanlogr[mask] -= self._log_sep_units
 
     def _get_minmax_size(self):
-        if self.metric == 'Euclidean':
+        use_rpar = (self.min_rpar != -sys.float_info.max or self.max_rpar != sys.float_info.max)
+        if self.metric == 'Euclidean' and not use_rpar:
             # The minimum size cell that will be useful is one where two cells that just barely
             # don't split have (d + s1 + s2) = minsep
             # The largest s2 we need to worry about is s2 = 2s1.
@@ -1436,7 +1437,8 @@ class Corr2(object):
 
             return min_size, max_size
         else:
-            # For other metrics, the above calculation doesn't really apply, so just skip
+            # For other metrics (or when selecting on rpar, for which there is no slop), the
+            # above calculation doesn't really apply, so just skip
             # this relatively modest optimization and go all the way to the leaves.
             # (And for the max_size, always split 10 levels for the top-level cells.)
             return 0., 0.
-- 
2.43.0


From 115fa81bc74feee700424a122b7f3cf4aed2aad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 011/125] fix: implicit min_v from max_v, nvbins and vbin_size
 could be negative

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 2b7af88..d0d93f5 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -514,7 +514,7 @@ class Corr3(object):
                     if 'max_v' not in self.config:
                         self._ro.max_v = min(self.min_v + self.nvbins * self.vbin_size, 1.)
                     else:  # min_v not in config
-                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, -1.)
+                        self._ro.min_v = max(self.max_v - self.nvbins * self.vbin_size, 0.)
             # Adjust vbin_size given the other values
             self._ro.vbin_size = (self.max_v-self.min_v)/self.nvbins
             self.logger.info("v: nbins = %d, min,max = %g..%g, bin_size = %g",
-- 
2.43.0


From 8d2c5188a22ae77dcbc5476a43bae42a17e19b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 012/125] fix: phi_bin_size was taken to be in radians
 regardless of phi_units

---
 treecorr/corr3base.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index d0d93f5..90074cb 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -197,12 +197,13 @@ class Corr3(object):
                             default is to calculate from phi_bin_size = bin_size, min_phi = 0,
                             max_u = np.pi, but this can be overridden by specifying up to 3 of
                             these four parametes.)
-        phi_bin_size (float): Analogous to bin_size for the phi values. (default: bin_size)
+        phi_bin_size (float): Analogous to bin_size for the phi values. (default: bin_size, taken
+                            to be in radians)
         min_phi (float):    Analogous to min_sep for the phi values. (default: 0)
         max_phi (float):    Analogous to max_sep for the phi values. (default: np.pi)
         phi_units (str):    The units to use for the phi values, given as a string.  This
-                            includes both min_phi and max_phi above, as well as the units of the
-                            output meanphi values.  Valid options are arcsec, arcmin, degrees,
+                            includes min_phi, max_phi and phi_bin_size above, as well as the units of
+                            the output meanphi values.  Valid options are arcsec, arcmin, degrees,
                             hours, radians.  (default: radians)
 
         max_n (int):        The maximum value of n to store for the multipole binning.
@@ -537,7 +538,10 @@ class Corr3(object):
                                  self.min_phi/self._phi_units, self.max_phi/self._phi_units))
             if self.min_phi >= self.max_phi:
                 raise ValueError("max_phi must be larger than min_phi")
-            self._ro.ubin_size = float(self.config.get('phi_bin_size', bin_size))
+            if 'phi_bin_size' in self.config:
+                self._ro.ubin_size = float(self.config['phi_bin_size']) * self._phi_units
+            else:
+                self._ro.ubin_size = bin_size
             if 'nphi_bins' not in self.config:
                 self._ro.nubins = (self.max_phi-self.min_phi-1.e-10)/self.phi_bin_size
                 self._ro.nubins = int(math.ceil(self._ro.nubins))
-- 
2.43.0


From 3305e5721a898038b77e516c02cea6baaac4e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:37 +0000
Subject: [PATCH 013/125] fix: += accepted a two-point correlation with a
 different bin_type

---
 treecorr/corr2base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index a790932..764091b 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1212,7 +1212,8 @@ class Corr2(object):
         """
         if not isinstance(other, self.__class__):
             raise TypeError(f"Can only add another {self._cls} object")
-        if not (self._nbins == other._nbins and
+        if not (self.bin_type == other.bin_type and
+                self._nbins == other._nbins and
                 self.min_sep == other.min_sep and
                 self.max_sep == other.max_sep):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
-- 
2.43.0


From 0ee14cc23125d727fda41a95a13a7f9f344b4bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 014/125] fix: reject non-positive nbins and bin_size and
 negative separations

---
 treecorr/corr2base.py | 4 ++++
 treecorr/corr3base.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 764091b..19c7d82 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -458,6 +458,10 @@ class Corr2(object):
         # The underscore-prefixed names are in natural units (radians for angles)
         self._ro._min_sep = self.min_sep * self._sep_units
         self._ro._max_sep = self.max_sep * self._sep_units
+        if not (self.nbins > 0 and self.bin_size > 0):
+            raise ValueError("nbins and bin_size must be positive")
+        if not (0 <= self.min_sep < self.max_sep):
+            raise ValueError("Invalid range for separations: %s - %s"%(self.min_sep, self.max_sep))
         if self.bin_type in ['Linear', 'TwoD']:
             self._ro._bin_size = self.bin_size * self._sep_units
         else:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 90074cb..869230c 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -464,6 +464,10 @@ class Corr3(object):
         # The underscore-prefixed names are in natural units (radians for angles)
         self._ro._min_sep = self.min_sep * self._sep_units
         self._ro._max_sep = self.max_sep * self._sep_units
+        if not (self.nbins > 0 and self.bin_size > 0):
+            raise ValueError("nbins and bin_size must be positive")
+        if not (0 < self.min_sep < self.max_sep):
+            raise ValueError("Invalid range for separations: %s - %s"%(self.min_sep, self.max_sep))
         self._ro._bin_size = self.bin_size  # There is no Linear, but if I add it, need to apply
                                             # units to _bin_size in that case as well.
 
-- 
2.43.0


From e0f5228a15c8253e41d8ce21556c4b8d69600ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:35 +0000
Subject: [PATCH 015/125] fix: metrics invalid for three-point correlations
 silently gave all zeros

---
 treecorr/corr3base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 869230c..93c0e72 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2173,6 +2173,8 @@ class Corr3(object):
         if metric is None:
             metric = get(self.config,'metric',str,'Euclidean')
         coords, metric = parse_metric(metric, coords1, coords2, coords3)
+        if metric not in ['Euclidean', 'Arc', 'Periodic']:
+            raise ValueError("%s metric is not valid for three-point correlations."%metric)
         if self.coords is not None or self.metric is not None:
             if coords != self.coords:
                 self.logger.warning("Detected a change in catalog coordinate systems. "+
-- 
2.43.0


From ddbabb4abf57569f664237ef071cc41bf512ba60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:50 +0000
Subject: [PATCH 016/125] fix: Periodic metric with spherical coordinates
 silently gave all zeros

---
 treecorr/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/util.py b/treecorr/util.py
index 0fcc205..85bbe86 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -328,6 +328,8 @@ def parse_metric(metric, coords, coords2=None, coords3=None):
 
     if metric in ['Rperp', 'OldRperp', 'FisherRperp'] and coords != '3d':
         raise ValueError("%s metric is only valid for catalogs with 3d positions."%metric)
+    if metric == 'Periodic' and coords == 'spherical':
+        raise ValueError("Periodic metric is not valid for catalogs with spherical positions.")
     if metric == 'Rlens' and auto:
         raise ValueError("Rlens metric is only valid for cross correlations.")
     if metric == 'Rlens' and coords != '3d':
-- 
2.43.0


From 8ac5938f041f38de7b09eeeb63ff02566f8339b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:30 +0000
Subject: [PATCH 017/125] fix: Arc metric compared cell sizes with min_sep in
 the wrong units, losing pairs

---
 include/Metric.h | 14 ++++++++++++++
 src/Corr2.cpp    |  3 ++-
 src/Corr3.cpp    |  4 ++--
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 6016d28..0ff26fc 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -921,5 +921,19 @@ template <int M>
 struct ValidMC<M,ThreeD>
 { enum { _M = MetricHelper<M,0>::_ThreeD == int(ThreeD) ? M : Euclidean }; };
 
+// The size of a cell at position p in the same units as the separations.
+// This is only different from the regular size for the Arc metric.
+template <int M, int P, int C>
+inline double MetricSize(const MetricHelper<M,P>& metric, const Position<C>& p, double s)
+{ return s; }
+
+template <int P>
+inline double MetricSize(const MetricHelper<Arc,P>& metric, const Position<ThreeD>& p, double s)
+{ return MetricHelper<Arc,P>::angularSize(s, p.normSq() - SQR(s)); }
+
+template <int P>
+inline double MetricSize(const MetricHelper<Arc,P>& metric, const Position<Sphere>& p, double s)
+{ return MetricHelper<Arc,P>::angularSize(s, 1.-0.25*SQR(s)); }
+
 #endif
 
diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 19d0232..12abf97 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -280,7 +280,8 @@ template <int B, int M, int P, int C>
 void BaseCorr2::process2(const BaseCell<C>& c12, const MetricHelper<M,P>& metric)
 {
     if (c12.getW() == 0.) return;
-    if (c12.getSize() <= _halfminsep) return;
+    if (c12.getSize() == 0. ||
+        MetricSize(metric, c12.getPos(), c12.getSize()) <= _halfminsep) return;
 
     Assert(c12.getLeft());
     Assert(c12.getRight());
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index b93d8bb..fb29c63 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -435,7 +435,7 @@ void BaseCorr3::process3(const BaseCell<C>& c1, const MetricHelper<M,0>& metric)
         xdbg<<ws()<<"    w == 0.  return\n";
         return;
     }
-    if (c1.getSize() < _halfminsep) {
+    if (MetricSize(metric, c1.getPos(), c1.getSize()) < _halfminsep) {
         xdbg<<ws()<<"    size < halfminsep.  return\n";
         return;
     }
@@ -474,7 +474,7 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
         return;
     }
     double s2 = c2.getSize();
-    if (BinTypeHelper<B>::tooSmallS2(s2, _halfminsep, _minu, _minv))
+    if (BinTypeHelper<B>::tooSmallS2(MetricSize(metric, c2.getPos(), s2), _halfminsep, _minu, _minv))
     {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
-- 
2.43.0


From fb4f62613e8d1bb4c3f21432565c322324c04ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 018/125] fix: LogSAS with the Arc metric used unnormalised 3-d
 positions for the angle phi

---
 include/Metric.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/Metric.h b/include/Metric.h
index 0ff26fc..dd2c0fb 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -760,9 +760,13 @@ struct MetricHelper<Arc, P>
         // Rather than do trig though, recompute the chord lengths so we can compute
         // cos(phi) with just regular arithmetic and a sqrt.
         //
-        double d1sq = (c2.getPos() - c3.getPos()).normSq();
-        double d2sq = (c1.getPos() - c3.getPos()).normSq();
-        double d3sq = (c1.getPos() - c2.getPos()).normSq();
+        // (Note: For 3-d positions, these need to be the chord lengths on the unit sphere.)
+        const Position<Sphere> p1(c1.getPos());
+        const Position<Sphere> p2(c2.getPos());
+        const Position<Sphere> p3(c3.getPos());
+        double d1sq = (p2 - p3).normSq();
+        double d2sq = (p1 - p3).normSq();
+        double d3sq = (p1 - p2).normSq();
 
         double cosphi = (d2sq + d3sq - 0.5*d2sq*d3sq - d1sq);
         cosphi /= 2. * std::sqrt( d2sq * d3sq * (1.-0.25*d2sq) * (1.-0.25*d3sq) );
-- 
2.43.0


From 092f574a227fdce7b8432db9d928c46dac384847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:51 +0000
Subject: [PATCH 019/125] fix: LogSAS meanphi of empty bins ignored phi_units

---
 treecorr/corr3base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 93c0e72..08d63a5 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1860,7 +1860,7 @@ class Corr3(object):
             self.meand3[mask2] = self.d3nom[mask2]
             self.meanlogd3[mask2] = self.logd3[mask2]
             if self.bin_type == 'LogSAS':
-                self.meanu[mask2] = self.phi[mask2]
+                self.meanu[mask2] = self.phi[mask2] / self._phi_units
                 self.meand1[mask2] = np.sqrt(self.d2nom[mask2]**2 + self.d3nom[mask2]**2
                                              - 2*self.d2nom[mask2]*self.d3nom[mask2]*
                                              np.cos(self.phi[mask2]))
-- 
2.43.0


From 053cbb7f79b217a7466ca12666de154fea74b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 020/125] fix: LogSAS with min_phi > 0 lost triangles whose
 points 2 and 3 are in one small cell

---
 include/BinType.h | 26 +++++++++++++++++++++-----
 src/Corr3.cpp     |  4 ++--
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index 8d65cd6..f05c50a 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -392,7 +392,8 @@ struct BinTypeHelper<LogRUV>
     static int calculateNTot(int nbins, int nubins, int nvbins)
     { return nbins * nubins * nvbins * 2; }
 
-    static bool tooSmallS2(double s2, double halfminsep, double minu, double minv)
+    template <int M>
+    static bool tooSmallS2(double s2, double halfminsep, double , double minu, double minv)
     {
         // When still doing process12, if the s2 cell is smaller than the minimum
         // possible triangle side length, then we can stop early.
@@ -815,12 +816,26 @@ struct BinTypeHelper<LogSAS>
     static int calculateNTot(int nbins, int nphibins, int )
     { return nbins * nbins * nphibins; }
 
-    static bool tooSmallS2(double s2, double halfminsep, double minphi, double )
+    template <int M>
+    static bool tooSmallS2(double s2, double halfminsep, double maxsep, double minphi, double )
     {
         // When still doing process12, if the s2 cell is smaller than the minimum
         // possible triangle side length, then we can stop early.
-        // 2s < sin(min_phi) * minsep < min_phi * minsep
-        return (s2 == 0. || s2 < halfminsep * minphi);
+        // Note: When unordered, the side in c2 may also be d2 or d3, which are > minsep.
+        if (s2 == 0.) return true;
+        if (s2 >= halfminsep) return false;
+        // The smallest possible d1 is for an isosceles triangle with d2 = d3 = minsep.
+        // 2s < 2 * minsep * sin(minphi/2)
+        const double sinhalfphi = sin(0.5*std::min(minphi, M_PI));
+        if (M == Arc) {
+            // sin(d1/2) = sin(d2) sin(phi/2)
+            // And now either d2=minsep or d2=maxsep might be the smallest.
+            if (maxsep >= M_PI) return false;
+            const double sind = std::min(sin(2.*halfminsep), sin(maxsep));
+            return sin(s2) < sind * sinhalfphi;
+        } else {
+            return s2 < 2.*halfminsep * sinhalfphi;
+        }
     }
 
     // Check if all posisble pairs for a two cells (given s1 + s2) necessarily have too small
@@ -1289,7 +1304,8 @@ struct BinTypeHelper<LogMultipole>
     static int calculateNTot(int nbins, int maxn, int )
     { return nbins * nbins * (2*maxn+1); }
 
-    static bool tooSmallS2(double s2, double halfminsep, double , double )
+    template <int M>
+    static bool tooSmallS2(double s2, double halfminsep, double , double , double )
     { return (s2 == 0.); }
 
     static bool tooSmallDist(double rsq, double s1ps2, double minsep, double minsepsq)
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index fb29c63..2c5aced 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -474,8 +474,8 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
         return;
     }
     double s2 = c2.getSize();
-    if (BinTypeHelper<B>::tooSmallS2(MetricSize(metric, c2.getPos(), s2), _halfminsep, _minu, _minv))
-    {
+    if (BinTypeHelper<B>::template tooSmallS2<M>(MetricSize(metric, c2.getPos(), s2),
+                                                 _halfminsep, _maxsep, _minu, _minv)) {
         xdbg<<ws()<<"    s2 smaller than minimum triangle side.  return\n";
         return;
     }
-- 
2.43.0


From 83715ef313fcb14f92801084ad25713f2eb82a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:45 +0000
Subject: [PATCH 021/125] fix: LogSAS early-stop tests on phi wrongly dropped
 triangles near 0 and pi and for large Arc separations

---
 include/BinType.h | 115 +++++++++++++++++++++++++---------------------
 src/Corr3.cpp     |   6 +--
 2 files changed, 66 insertions(+), 55 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index f05c50a..e490d89 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -417,7 +417,7 @@ struct BinTypeHelper<LogRUV>
     }
 
     // If the user has set a minu > 0, then we may be able to stop for that.
-    template <int O>
+    template <int O, int M>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double minu, double minusq, double maxu, double maxusq,
@@ -854,8 +854,21 @@ struct BinTypeHelper<LogSAS>
         return rsq >= maxsepsq && rsq >= SQR(maxsep + s1ps2);
     }
 
+    // The sine of the largest possible change in the direction of one side with length d when its
+    // ends move by a total of up to s.  (Any return value >= 1 means it could be anything.)
+    template <int M>
+    static double sinDeltaPhi(double s, double d)
+    {
+        if (M == Arc) {
+            // On the sphere, angles change faster for large separations.
+            return (s == 0.) ? 0. : (s >= d || s + d >= M_PI) ? 1. : sin(s) / sin(d);
+        } else {
+            return s / d;
+        }
+    }
+
     // If the user has set a minphi > 0, then we may be able to stop for that.
-    template <int O>
+    template <int O, int M>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double minphi, double , double maxphi, double ,
@@ -873,8 +886,24 @@ struct BinTypeHelper<LogSAS>
         // Note: if not ordered, we still might be able to do this check if 2*s2 < minsep,
         // since then the only allowed orientation will be with d1 fully in c2.
         if (maxcosphi < 1 && (O || s2 < halfminsep) && (SQR(s1) < rsq)) {
-            double h = sqrt(rsq) - s1;  // h = r-s1
-            double cosphi = 1. - 2*SQR(s2/h);
+            double r = sqrt(rsq);
+            double h = r - s1;
+            double sinalpha;
+            if (M == Arc) {
+                // On the sphere, sin(alpha) = sin(s2) / sin(r), which might be largest for either
+                // the smallest or largest possible r.
+                if (s2 >= h || s1ps2 + r >= M_PI) return false;
+                sinalpha = sin(s2) / std::min(sin(h), sin(r+s1));
+                if (sinalpha >= 1.) return false;
+            } else if (M == Periodic) {
+                // With the edges wrapping around, both points in c2 might be closer than h.
+                h -= s2;
+                if (h <= 0.) return false;
+                sinalpha = s2/h;
+            } else {
+                sinalpha = s2/h;
+            }
+            double cosphi = 1. - 2*SQR(sinalpha);
             if (cosphi > maxcosphi) {
                 xdbg<<"noAllowedAngles: "<<sqrt(rsq)<<"  "<<s1ps2<<"  "<<s1<<"  "<<s2<<std::endl;
                 xdbg<<"cosphi = "<<cosphi<<std::endl;
@@ -952,7 +981,7 @@ struct BinTypeHelper<LogSAS>
             double sindphi2=0., sindphi3=0.;
             double cosdphi2sq=0., cosdphi3sq=0.;
             if (s1+s2 > 0) {
-                sindphi2 = (s1+s2)/d3;
+                sindphi2 = sinDeltaPhi<M>(s1+s2,d3);
                 cosdphi2sq = 1-SQR(sindphi2);
                 if (cosdphi2sq < SQR(cosphi)) {
                     xdbg<<"CW but dphi2 could be larger than phi\n";
@@ -960,7 +989,7 @@ struct BinTypeHelper<LogSAS>
                 }
             }
             if (s1+s3 > 0) {
-                sindphi3 = (s1+s3)/d2;
+                sindphi3 = sinDeltaPhi<M>(s1+s3,d2);
                 cosdphi3sq = 1-SQR(sindphi3);
                 if (cosdphi3sq < SQR(cosphi)) {
                     xdbg<<"CW but dphi3 could be larger than phi\n";
@@ -995,33 +1024,24 @@ struct BinTypeHelper<LogSAS>
             }
             // Start with the current value of cosphi, and adjust by dphi2, dphi3
             double cosphimax = cosphi;
-            if (s1+s2 > 0) {
-                double sindphi2 = (s1+s2)/d3;
+            if (s1+s2 > 0 || s1+s3 > 0) {
+                double sindphi2 = sinDeltaPhi<M>(s1+s2,d3);
+                double sindphi3 = sinDeltaPhi<M>(s1+s3,d2);
+                if (sindphi2 >= 1. || sindphi3 >= 1.) return false;
                 double cosdphi2sq = 1-SQR(sindphi2);
                 if (cosdphi2sq < maxcosphisq) return false;
-                double cosdphi2 = sqrt(cosdphi2sq);
-                if (s1+s3 > 0) {
-                    double sindphi3 = (s1+s3)/d2;
-                    double cosdphi3sq = 1-SQR(sindphi3);
-                    if (cosdphi3sq < maxcosphisq) return false;
-                    double cosdphi3 = sqrt(cosdphi3sq);
-
-                    double cosdphi = cosdphi2 * cosdphi3 - sindphi3 * sindphi2;
-                    if (cosdphi < maxcosphi) return false;
-                    double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
-                    double sinphi = sqrt(1-cosphi*cosphi);
-                    cosphimax = cosphi * cosdphi - sinphi * sindphi;
-                } else {
-                    double sinphi = sqrt(1-cosphi*cosphi);
-                    cosphimax = cosphi * cosdphi2 - sinphi * sindphi2;
-                }
-            } else if (s1+s3 > 0) {
-                double sindphi3 = (s1+s3)/d2;
                 double cosdphi3sq = 1-SQR(sindphi3);
                 if (cosdphi3sq < maxcosphisq) return false;
+                double cosdphi2 = sqrt(cosdphi2sq);
                 double cosdphi3 = sqrt(cosdphi3sq);
-                double sinphi = sqrt(1-cosphi*cosphi);
-                cosphimax = cosphi * cosdphi3 - sinphi * sindphi3;
+
+                double cosdphi = cosdphi2 * cosdphi3 - sindphi3 * sindphi2;
+                if (cosdphi < maxcosphi) return false;
+                double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
+                double sinphi = sqrt(std::max(0., 1-cosphi*cosphi));
+                // If phi + dphi > pi, then phi might be anything up to pi.
+                if (sinphi * cosdphi + cosphi * sindphi < 0.) return false;
+                cosphimax = cosphi * cosdphi - sinphi * sindphi;
             }
 
             // phimax is the largest possible phi we can possibly get.
@@ -1043,36 +1063,27 @@ struct BinTypeHelper<LogSAS>
         if (maxphi < M_PI && cosphi < mincosphi) {
             // Start with the current value of cosphi, and adjust by dphi2, dphi3
             double cosphimin = cosphi;
-            if (s1+s2 > 0) {
-                double sindphi2 = (s1+s2)/d3;
+            if (s1+s2 > 0 || s1+s3 > 0) {
+                double sindphi2 = sinDeltaPhi<M>(s1+s2,d3);
+                double sindphi3 = sinDeltaPhi<M>(s1+s3,d2);
+                if (sindphi2 >= 1. || sindphi3 >= 1.) return false;
                 double cosdphi2sq = 1-SQR(sindphi2);
                 // Note mincosphisq is really sgn(mincosphi) mincosphi^2
                 // So this test will only pass if dphi2 > Pi-phi_max.
                 // i.e. when dphi2 is large enough on its own to get phi < phi_max.
                 if (cosdphi2sq < -mincosphisq) return false;
-                double cosdphi2 = sqrt(cosdphi2sq);
-                if (s1+s3 > 0) {
-                    double sindphi3 = (s1+s3)/d2;
-                    double cosdphi3sq = 1-SQR(sindphi3);
-                    if (cosdphi3sq < -mincosphisq) return false;
-                    double cosdphi3 = sqrt(cosdphi3sq);
-
-                    double cosdphi = cosdphi2 * cosdphi3 - sindphi3 * sindphi2;
-                    if (cosdphi < -mincosphi) return false;
-                    double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
-                    double sinphi = sqrt(1-cosphi*cosphi);
-                    cosphimin = cosphi * cosdphi + sinphi * sindphi;
-                } else {
-                    double sinphi = sqrt(1-cosphi*cosphi);
-                    cosphimin = cosphi * cosdphi2 + sinphi * sindphi2;
-                }
-            } else if (s1+s3 > 0) {
-                double sindphi3 = (s1+s3)/d2;
                 double cosdphi3sq = 1-SQR(sindphi3);
-                if (cosdphi3sq < maxcosphisq) return false;
+                if (cosdphi3sq < -mincosphisq) return false;
+                double cosdphi2 = sqrt(cosdphi2sq);
                 double cosdphi3 = sqrt(cosdphi3sq);
-                double sinphi = sqrt(1-cosphi*cosphi);
-                cosphimin = cosphi * cosdphi3 + sinphi * sindphi3;
+
+                double cosdphi = cosdphi2 * cosdphi3 - sindphi3 * sindphi2;
+                if (cosdphi < -mincosphi) return false;
+                double sindphi = sindphi2 * cosdphi3 + sindphi3 * cosdphi2;
+                double sinphi = sqrt(std::max(0., 1-cosphi*cosphi));
+                // If phi - dphi < 0, then phi might be anything down to 0.
+                if (sinphi * cosdphi - cosphi * sindphi < 0.) return false;
+                cosphimin = cosphi * cosdphi + sinphi * sindphi;
             }
 
             // phimin is the smallest possible phi we can possibly get.
@@ -1313,7 +1324,7 @@ struct BinTypeHelper<LogMultipole>
     static bool tooLargeDist(double rsq, double s1ps2, double maxsep, double maxsepsq)
     { return rsq >= maxsepsq && rsq >= SQR(maxsep + s1ps2); }
 
-    template <int O>
+    template <int O, int M>
     static bool noAllowedAngles(double rsq, double s1ps2, double s1, double s2,
                                 double halfminsep,
                                 double , double , double , double ,
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 2c5aced..dac9cd6 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -499,9 +499,9 @@ void BaseCorr3::process12(const BaseCell<C>& c1, const BaseCell<C>& c2,
     }
 
     // Depending on the binning, we may be able to stop due to allowed angles.
-    if (BinTypeHelper<B>::template noAllowedAngles<O>(rsq, s1ps2, s1, s2, _halfminsep,
-                                                      _minu, _minusq, _maxu, _maxusq,
-                                                      _minv, _minvsq, _maxv, _maxvsq)) {
+    if (BinTypeHelper<B>::template noAllowedAngles<O,M>(rsq, s1ps2, s1, s2, _halfminsep,
+                                                        _minu, _minusq, _maxu, _maxusq,
+                                                        _minv, _minvsq, _maxv, _maxvsq)) {
         xdbg<<ws()<<"    No possible triangles with allowed angles\n";
         return;
     }
-- 
2.43.0


From f5a6f22054b7c325cb5ceed3ffd54ee51dd17921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 022/125] fix: LogSAS with ordered=True dropped triangles on
 the sphere and in 3-d whose orientation depends on the observer

---
 include/BinType.h | 96 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 66 insertions(+), 30 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index e490d89..7633243 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -914,6 +914,69 @@ struct BinTypeHelper<LogSAS>
         return false;
     }
 
+    // Check if any points in the three cells could make a triangle with the opposite orientation.
+    template <int M>
+    static bool canFlip(
+        const BaseCell<Flat>& c1, const BaseCell<Flat>& c2, const BaseCell<Flat>& c3,
+        const MetricHelper<M,0>& metric, double s1, double s2, double s3,
+        double d2, double d3, double cosphi)
+    {
+        // This is similar to the calculation below.  We effecively check that cosphi can't
+        // increase to 1.
+        // First check if either side on its own can cause a flip of orientation.
+        double sindphi2=0., sindphi3=0.;
+        double cosdphi2sq=0., cosdphi3sq=0.;
+        if (s1+s2 > 0) {
+            sindphi2 = (s1+s2)/d3;
+            cosdphi2sq = 1-SQR(sindphi2);
+            if (cosdphi2sq < SQR(cosphi)) {
+                xdbg<<"CW but dphi2 could be larger than phi\n";
+                return true;
+            }
+        }
+        if (s1+s3 > 0) {
+            sindphi3 = (s1+s3)/d2;
+            cosdphi3sq = 1-SQR(sindphi3);
+            if (cosdphi3sq < SQR(cosphi)) {
+                xdbg<<"CW but dphi3 could be larger than phi\n";
+                return true;
+            }
+        }
+        if (sindphi2 > 0 && sindphi3 > 0) {
+            // Add them together.
+            double cosdphi2 = sqrt(cosdphi2sq);
+            double cosdphi3 = sqrt(cosdphi3sq);
+            double cosdphi = cosdphi2 * cosdphi3 - sindphi3 * sindphi2;
+            if (cosdphi < std::abs(cosphi)) {
+                xdbg<<"CW but dphi could be larger than phi\n";
+                return true;
+            }
+        }
+        return false;
+    }
+
+    template <int M, int C>
+    static bool canFlip(
+        const BaseCell<C>& c1, const BaseCell<C>& c2, const BaseCell<C>& c3,
+        const MetricHelper<M,0>& metric, double , double , double ,
+        double , double , double )
+    {
+        // In three dimensions, the orientation is as seen from the origin, so it flips when the
+        // plane of the triangle passes through the origin.  The angle phi isn't relevant.
+        // Rather, (r21 x r31) . p1 needs to be able to change sign.
+        const double s1 = c1.getSize();
+        const double s2 = c2.getSize();
+        const double s3 = c3.getSize();
+        if (s1 == 0. && s2 == 0. && s3 == 0.) return false;
+        if (M == Periodic) return true;
+        const Position<ThreeD> p1 = c1.getPos();
+        const Position<ThreeD> r21 = c2.getPos() - c1.getPos();
+        const Position<ThreeD> r31 = c3.getPos() - c1.getPos();
+        const Position<ThreeD> n = r21.cross(r31);
+        const double dn = r21.norm()*(s1+s3) + r31.norm()*(s1+s2) + (s1+s2)*(s1+s3);
+        return std::abs(n.dot(p1)) <= p1.norm()*dn + s1*(n.norm()+dn);
+    }
+
     // Once we have all the distances, see if it's possible to stop
     // For this BinType, if return value is false, d1,d2,d3,cosphi are set on output.
     template <int O, int M, int C>
@@ -975,36 +1038,9 @@ struct BinTypeHelper<LogSAS>
         if (O > 1 &&
             !metric.CCW(c1.getPos(), c3.getPos(), c2.getPos())) {
             // For skinny triangles, be careful that the points can't flip to the other side.
-            // This is similar to the calculation below.  We effecively check that cosphi can't
-            // increase to 1.
-            // First check if either side on its own can cause a flip of orientation.
-            double sindphi2=0., sindphi3=0.;
-            double cosdphi2sq=0., cosdphi3sq=0.;
-            if (s1+s2 > 0) {
-                sindphi2 = sinDeltaPhi<M>(s1+s2,d3);
-                cosdphi2sq = 1-SQR(sindphi2);
-                if (cosdphi2sq < SQR(cosphi)) {
-                    xdbg<<"CW but dphi2 could be larger than phi\n";
-                    return false;
-                }
-            }
-            if (s1+s3 > 0) {
-                sindphi3 = sinDeltaPhi<M>(s1+s3,d2);
-                cosdphi3sq = 1-SQR(sindphi3);
-                if (cosdphi3sq < SQR(cosphi)) {
-                    xdbg<<"CW but dphi3 could be larger than phi\n";
-                    return false;
-                }
-            }
-            if (sindphi2 > 0 && sindphi3 > 0) {
-                // Add them together.
-                double cosdphi2 = sqrt(cosdphi2sq);
-                double cosdphi3 = sqrt(cosdphi3sq);
-                double cosdphi = cosdphi2 * cosdphi3 - sindphi3 * sindphi2;
-                if (cosdphi < abs(cosphi)) {
-                    xdbg<<"CW but dphi could be larger than phi\n";
-                    return false;
-                }
+            if (canFlip(c1, c2, c3, metric, s1, s2, s3, d2, d3, cosphi)) {
+                xdbg<<"CW but could flip to the other side\n";
+                return false;
             }
             xdbg<<"triangle is wrong orientation\n";
             return true;
-- 
2.43.0


From 7f1c22ecd274ce1fc87867c4eafabd79cc6f5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:41 +0000
Subject: [PATCH 023/125] fix: three-point Arc metric compared raw cell sizes
 with angular separations

---
 src/Corr3.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index dac9cd6..5d76fc4 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -667,9 +667,9 @@ void BaseCorr3::process111Sorted(
     const BaseCell<C>& c1, const BaseCell<C>& c2, const BaseCell<C>& c3,
     const MetricHelper<M,0>& metric, double d1sq, double d2sq, double d3sq)
 {
-    const double s1 = c1.getSize();
-    const double s2 = c2.getSize();
-    const double s3 = c3.getSize();
+    const double s1 = MetricSize(metric, c1.getPos(), c1.getSize());
+    const double s2 = MetricSize(metric, c2.getPos(), c2.getSize());
+    const double s3 = MetricSize(metric, c3.getPos(), c3.getSize());
 
     xdbg<<"Process111Sorted: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getN()<<std::endl;
     xdbg<<"                  c2 = "<<c2.getPos()<<"  "<<c2.getSize()<<"  "<<c2.getN()<<std::endl;
-- 
2.43.0


From eeb533de3141b67b98870fb99587ac4d45298924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:37 +0000
Subject: [PATCH 024/125] fix: LogSAS with the Periodic metric dropped
 triangles in cells that wrap around the edges

The tests for stopping early because of the orientation or the angle phi assume
that none of the sides can wrap around the periodic boundaries.
---
 include/BinType.h |  8 ++++++++
 include/Metric.h  | 14 ++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 7633243..4416403 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -1034,6 +1034,14 @@ struct BinTypeHelper<LogSAS>
 
         cosphi = metric.calculateCosPhi(c1,c2,c3,d1sq,d2sq,d3sq,d1,d2,d3);
 
+        // With Periodic boundaries, if some of the points might wrap around to the other side
+        // of either c1 or each other, then the possible angles aren't limited in the usual way.
+        if (M == Periodic && (s1 > 0. || s2 > 0. || s3 > 0.) &&
+            mightWrap(metric, d2 + d3 + 2*s1 + s2 + s3)) {
+            xdbg<<"Triangle might wrap around, continue splitting.\n";
+            return false;
+        }
+
         // If we are not swapping 2,3, stop if orientation cannot be counter-clockwise.
         if (O > 1 &&
             !metric.CCW(c1.getPos(), c3.getPos(), c2.getPos())) {
diff --git a/include/Metric.h b/include/Metric.h
index dd2c0fb..47aa627 100644
--- a/include/Metric.h
+++ b/include/Metric.h
@@ -939,5 +939,19 @@ template <int P>
 inline double MetricSize(const MetricHelper<Arc,P>& metric, const Position<Sphere>& p, double s)
 { return MetricHelper<Arc,P>::angularSize(s, 1.-0.25*SQR(s)); }
 
+// Whether points up to d away from each other might wrap around the edges in some direction.
+// This is only possible for the Periodic metric.
+template <int M, int P>
+inline bool mightWrap(const MetricHelper<M,P>& metric, double d)
+{ return false; }
+
+template <int P>
+inline bool mightWrap(const MetricHelper<Periodic,P>& metric, double d)
+{
+    return ((metric.xp > 0. && 2.*d >= metric.xp) ||
+            (metric.yp > 0. && 2.*d >= metric.yp) ||
+            (metric.zp > 0. && 2.*d >= metric.zp));
+}
+
 #endif
 
-- 
2.43.0


From e9e90bdb13bc9a976b7b1d791e33b16bc2cd751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 025/125] fix: LogRUV early-stop tests on v weren't valid for
 large angles with Arc or Periodic

The estimate of how much d1-d2 can change when point 3 moves assumes the angle at point 3 is at
most 60 degrees, which isn't true for large separations on the sphere.
---
 include/BinType.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BinType.h b/include/BinType.h
index 4416403..bac5a5f 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -542,7 +542,11 @@ struct BinTypeHelper<LogRUV>
         // d1 > maxv d3 + d2+s1+s2+s3 + maxv*(s1+s2)
         // As before, use the fact that d3 < d2, so check
         // d1 > maxv d2 + d2+s1+s2+s3 + maxv*(s1+s2)
+        // Note: Moving point 3 by s3 changes d1-d2 by at most 2 s3 sin(gamma/2), where gamma is the
+        // angle at point 3.  In Euclidean geometry, this is opposite the shortest side, so the
+        // maximum gamma is 60 degrees.  But with Arc or Periodic, it can be larger.
         double sums = s1+s2+s3;
+        if (M == Arc || M == Periodic) sums += s3;
         if (maxv < 1. && d1sq > SQR((1.+maxv)*d2 + sums + maxv * (s1+s2))) {
             // We don't need any extra checks here related to the possibility of the sides
             // switching roles, since if this condition is true, than d1 has to be the largest
-- 
2.43.0


From 0fdbbfeffcd0ba89970b40da7e29fe003922a41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:21 +0000
Subject: [PATCH 026/125] fix: LogMultipole meanlogd3 used the wrong weights
 for unordered cross correlations

---
 src/Corr3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index 5d76fc4..d1f20da 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1479,7 +1479,7 @@ void Corr3<D1,D2,D3>::calculateZeta(
                 _meand3[i] += w1 * (mp2.sumw[k2] * mp3.sumwr[k3] +
                                     mp3.sumw[k2] * mp2.sumwr[k3]);
                 _meanlogd3[i] += w1 * (mp2.sumw[k2] * mp3.sumwlogr[k3] +
-                                       mp3.sumw[k3] * mp2.sumwlogr[k3]);
+                                       mp3.sumw[k2] * mp2.sumwlogr[k3]);
             }
             i += (_nbins - k3end) * nnbins;
         }
-- 
2.43.0


From bd5fe49659a9920cab9f845c9bf5ee8a5a140fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 027/125] fix: LogMultipole with the Arc metric converted the
 size of c1 again for every c2

DistSq changes the sizes for some metrics, so they need to be reset each time.
---
 src/Corr3.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index d1f20da..bfaea88 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1002,10 +1002,10 @@ void BaseCorr3::splitC2Cells(
     // Given the current c1, make a new c2 list where we throw away any from c2 list
     // that can't contribute to the bins, and split any that need to be split.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
-        double s2 = c2->getSize();
+        double s1 = c1.getSize();  // May be modified by DistSq function.
+        double s2 = c2->getSize(); // "
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
         xdbg<<"rsq = "<<rsq<<"  s = "<<s2<<"  "<<s1ps2<<std::endl;
@@ -1052,7 +1052,7 @@ void BaseCorr3::multipoleSplit1(
 {
     xdbg<<ws()<<"MultipoleSplit1: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getW()<<"  len c2 = "<<c2list.size()<<std::endl;
 
-    double s1 = c1.getSize();
+    double s1 = MetricSize(metric, c1.getPos(), c1.getSize());
 
     // Split cells in c2list if they will definitely need to be split.
     // And remove any that cannot contribute to the sums for this c1.
@@ -1086,7 +1086,7 @@ void BaseCorr3::multipoleSplit1(
 {
     xdbg<<ws()<<"MultipoleSplit1: c1 = "<<c1.getPos()<<"  "<<c1.getSize()<<"  "<<c1.getW()<<"  len c2 = "<<c2list.size()<<" len c3 = "<<c3list.size()<<std::endl;
 
-    double s1 = c1.getSize();
+    double s1 = MetricSize(metric, c1.getPos(), c1.getSize());
 
     // Split cells in both lists if appropriate
     std::vector<const BaseCell<C>*> newc2list;
@@ -1121,7 +1121,6 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     // neither c1 nor c2 need to be split further.  In those cases, accumulate Gn and other
     // scratch arrays and don't add that c2 to newc2list.
     const Position<C>& p1 = c1.getPos();
-    double s1 = c1.getSize();
     double max_remaining_r = 0.;
     // The calculation of thresh1 here is pretty arbitrary.
     // The point of thresh1 is to only split cell1 when it is needed for the pairs with the
@@ -1140,7 +1139,8 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
     double thresh1 = BinTypeHelper<B>::oneBinLessThan(prev_max_remaining_r, _binsize);
     for (const BaseCell<C>* c2: c2list) {
         const Position<C>& p2 = c2->getPos();
-        double s2 = c2->getSize();
+        double s1 = c1.getSize();  // May be modified by DistSq function.
+        double s2 = c2->getSize(); // "
         const double rsq = metric.DistSq(p1,p2,s1,s2);
         const double s1ps2 = s1+s2;
         xdbg<<"rsq = "<<rsq<<"  s = "<<s2<<"  "<<s1ps2<<std::endl;
-- 
2.43.0


From 679d818c9f577a2ee52383697eb34d255a6b4013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:44 +0000
Subject: [PATCH 028/125] fix: LogMultipole with the Periodic metric used
 unwrapped and unnormalized directions

---
 include/BinType.h | 21 +++++++++++++++++++--
 include/Corr3.h   | 24 ++++++++++++------------
 src/Corr3.cpp     | 15 ++++++---------
 3 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/include/BinType.h b/include/BinType.h
index bac5a5f..f0824e5 100644
--- a/include/BinType.h
+++ b/include/BinType.h
@@ -24,6 +24,23 @@
 #include "Metric.h"
 #include "ProjectHelper.h"
 
+// The direction from p1 to p2 as a complex unit vector, where the separation r is the one measured
+// by the given metric.  In particular, for Periodic, it might wrap around the edges.
+template <int M, int P, int C>
+inline std::complex<double> ExpIPhi(
+    const MetricHelper<M,P>& metric, const Position<C>& p1, const Position<C>& p2, double r)
+{ return ProjectHelper<C>::ExpIPhi(p1, p2, r); }
+
+template <int P>
+inline std::complex<double> ExpIPhi(
+    const MetricHelper<Periodic,P>& metric,
+    const Position<Flat>& p1, const Position<Flat>& p2, double r)
+{
+    Position<Flat> dp = p2 - p1;
+    dp.wrap(metric.xp, metric.yp);
+    return dp / r;
+}
+
 // We use a code for the type of binning to use:
 // Log is logarithmic spacing in r
 // Linear is linear spacing in r
@@ -1549,8 +1566,8 @@ struct BinTypeHelper<LogMultipole>
 
         // Calculate cosphi, sinphi for this triangle.
         // (We use the u variable for sinphi in this class.)
-        std::complex<double> r3 = ProjectHelper<C>::ExpIPhi(c1.getPos(), c2.getPos(), d3);
-        std::complex<double> r2 = ProjectHelper<C>::ExpIPhi(c1.getPos(), c3.getPos(), d2);
+        std::complex<double> r3 = ExpIPhi(metric, c1.getPos(), c2.getPos(), d3);
+        std::complex<double> r2 = ExpIPhi(metric, c1.getPos(), c3.getPos(), d2);
         std::complex<double> expiphi = r3 * std::conj(r2);
         cosphi = std::real(expiphi);
         sinphi = std::imag(expiphi);
diff --git a/include/Corr3.h b/include/Corr3.h
index 5600973..712c313 100644
--- a/include/Corr3.h
+++ b/include/Corr3.h
@@ -143,9 +143,9 @@ public:
 
     template <int C>
     void calculateGn(const BaseCell<C>& c1, const BaseCell<C>& c2,
-                     double rsq, double r, double logr, int k,
+                     std::complex<double> z, double r, double logr, int k,
                      BaseMultipoleScratch& mp)
-    { doCalculateGn(c1, c2, rsq, r, logr, k, mp); }
+    { doCalculateGn(c1, c2, z, r, logr, k, mp); }
 
     template <int C>
     void calculateZeta(const BaseCell<C>& c1, BaseMultipoleScratch& mp,
@@ -192,13 +192,13 @@ protected:
 
     virtual void doCalculateGn(
         const BaseCell<Flat>& c1, const BaseCell<Flat>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
+        std::complex<double> z, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
     virtual void doCalculateGn(
         const BaseCell<Sphere>& c1, const BaseCell<Sphere>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
+        std::complex<double> z, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
     virtual void doCalculateGn(
         const BaseCell<ThreeD>& c1, const BaseCell<ThreeD>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
+        std::complex<double> z, double r, double logr, int k, BaseMultipoleScratch& mp) =0;
 
     virtual void doCalculateZeta(const BaseCell<Flat>& c1, BaseMultipoleScratch& mp,
                                  int kstart, int mink_zeta) =0;
@@ -300,7 +300,7 @@ public:
 
     template <int C>
     void calculateGn(const BaseCell<C>& c1, const BaseCell<C>& c2,
-                     double rsq, double r, double logr, int k, BaseMultipoleScratch& mp);
+                     std::complex<double> z, double r, double logr, int k, BaseMultipoleScratch& mp);
 
     template <int C>
     void calculateZeta(const BaseCell<C>& c1, BaseMultipoleScratch& mp,
@@ -351,16 +351,16 @@ protected:
 
     void doCalculateGn(
         const BaseCell<Flat>& c1, const BaseCell<Flat>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
-    { calculateGn(c1, c2, rsq, r, logr, k, mp); }
+        std::complex<double> z, double r, double logr, int k, BaseMultipoleScratch& mp)
+    { calculateGn(c1, c2, z, r, logr, k, mp); }
     void doCalculateGn(
         const BaseCell<Sphere>& c1, const BaseCell<Sphere>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
-    { calculateGn(c1, c2, rsq, r, logr, k, mp); }
+        std::complex<double> z, double r, double logr, int k, BaseMultipoleScratch& mp)
+    { calculateGn(c1, c2, z, r, logr, k, mp); }
     void doCalculateGn(
         const BaseCell<ThreeD>& c1, const BaseCell<ThreeD>& c2,
-        double rsq, double r, double logr, int k, BaseMultipoleScratch& mp)
-    { calculateGn(c1, c2, rsq, r, logr, k, mp); }
+        std::complex<double> z, double r, double logr, int k, BaseMultipoleScratch& mp)
+    { calculateGn(c1, c2, z, r, logr, k, mp); }
 
     void doCalculateZeta(const BaseCell<Flat>& c1, BaseMultipoleScratch& mp,
                          int kstart, int mink_zeta)
diff --git a/src/Corr3.cpp b/src/Corr3.cpp
index bfaea88..4e00c21 100644
--- a/src/Corr3.cpp
+++ b/src/Corr3.cpp
@@ -1180,7 +1180,7 @@ double BaseCorr3::splitC2CellsOrCalculateGn(
                     k = BinTypeHelper<B>::calculateBinK(p1, p2, r, logr, _binsize,
                                                         _minsep, _maxsep, _logminsep);
                 }
-                calculateGn(c1, *c2, rsq, r, logr, k, mp);
+                calculateGn(c1, *c2, ExpIPhi(metric, p1, p2, r), r, logr, k, mp);
             }
             continue;
         }
@@ -1344,7 +1344,7 @@ struct DirectHelper;
 template <int D1, int D2, int D3> template <int C>
 void Corr3<D1,D2,D3>::calculateGn(
     const BaseCell<C>& c1, const BaseCell<C>& c2,
-    double rsq, double r, double logr, int k,
+    std::complex<double> z, double r, double logr, int k,
     BaseMultipoleScratch& mp)
 {
     xdbg<<ws()<<"Gn Index = "<<k<<std::endl;
@@ -1366,7 +1366,7 @@ void Corr3<D1,D2,D3>::calculateGn(
     DirectHelper<D1,D2,D3>::CalculateGn(
         static_cast<const Cell<D1,C>&>(c1),
         static_cast<const Cell<D2,C>&>(c2),
-        rsq, r, k, _nubins, w,
+        z, r, k, _nubins, w,
         static_cast<MultipoleScratch<D1, D2>&>(mp));
 }
 
@@ -1526,10 +1526,9 @@ struct DirectHelper<NData,NData,NData>
     template <int C>
     static void CalculateGn(
         const Cell<NData,C>& c1, const Cell<NData,C>& c2,
-        double rsq, double r, int k, int maxn, double w,
+        std::complex<double> z, double r, int k, int maxn, double w,
         MultipoleScratch<NData, NData>& mp)
     {
-        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), c2.getPos(), r);
         int index = k*(maxn+1);
         mp.Wn[index] += w;
         std::complex<double> wztothen = w;
@@ -1697,14 +1696,13 @@ struct DirectHelper<KData,KData,KData>
     template <int C>
     static void CalculateGn(
         const Cell<KData,C>& c1, const Cell<KData,C>& c2,
-        double rsq, double r, int k, int maxn, double w,
+        std::complex<double> z, double r, int k, int maxn, double w,
         MultipoleScratch<KData, KData>& mp)
     {
         double wk = c2.getWK();
         if (mp.ww) {
             mp.sumwwkk[k] += c2.calculateSumWKSq();
         }
-        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), c2.getPos(), r);
         int index = k*(maxn+1);
         mp.Wn[index] += w;
         mp.Gn[index] += wk;
@@ -1980,11 +1978,10 @@ struct DirectHelper<GData,GData,GData>
     template <int C>
     static void CalculateGn(
         const Cell<GData,C>& c1, const Cell<GData,C>& c2,
-        double rsq, double r, int k, int maxn, double w,
+        std::complex<double> z, double r, int k, int maxn, double w,
         MultipoleScratch<GData, GData>& mp)
     {
         std::complex<double> wg = c2.getWG();
-        std::complex<double> z = ProjectHelper<C>::ExpIPhi(c1.getPos(), c2.getPos(), r);
 
         // The projection is not quite how Porth et al do it, but it's necessary to get
         // it to work properly with spherical coordinates, since the shear at c2 doesn't
-- 
2.43.0


From 08704936d46e6da526bb752f62b4f0f1463cf5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:38 +0000
Subject: [PATCH 029/125] fix: count pairs/triangles between same-numbered
 patches of different catalogs in a list

When the input is the concatenation of the patches of several catalogs (as read_catalogs
returns for a list of files with patches), different list items can have the same patch
number.  Those pairs were skipped in auto-correlations (and the j<k part of cross12).
---
 treecorr/corr2base.py | 4 +++-
 treecorr/corr3base.py | 9 ++++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 19c7d82..89c2c36 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -893,7 +893,9 @@ class Corr2(object):
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
                         j = c2._single_patch if c2._single_patch is not None else jj
-                        if i < j and is_my_job(my_indices, i, j, n):
+                        # Note: If cat1 is the concatenation of several catalogs that use the
+                        # same patches, then i and j can be equal for different catalogs.
+                        if (i,ii) < (j,jj) and is_my_job(my_indices, i, j, n):
                             self.logger.info('Process patches %d, %d cross',i,j)
                             self._single_process12(c1, c2, (i,j), metric, num_threads, temp)
                             if low_mem and jj != ii+1:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 08d63a5..4516a2a 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1254,7 +1254,9 @@ class Corr3(object):
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
                         j = c2._single_patch if c2._single_patch is not None else jj
-                        if i < j:
+                        # Note: If cat1 is the concatenation of several catalogs that use the
+                        # same patches, then i and j can be equal for different catalogs.
+                        if (i,ii) < (j,jj):
                             if is_my_job(my_indices, i, j, j, n):
                                 # One point in c1, 2 in c2.
                                 self._single_process12(c1, c2, (i,j,j), metric, 0,
@@ -1266,7 +1268,8 @@ class Corr3(object):
                             # One point in each of c1, c2, c3
                             for kk,c3 in enumerate(cat1):
                                 k = c3._single_patch if c3._single_patch is not None else kk
-                                if j < k and is_my_job(my_indices, i, j, k, n):
+                                if ((j,jj) < (k,kk) and
+                                        is_my_job(my_indices, i, j, k, n)):
                                     self._single_process123(c1, c2, c3, (i,j,k), metric, 0,
                                                             num_threads, temp, False)
                                     if low_mem:
@@ -1391,7 +1394,7 @@ class Corr3(object):
                         # One point in each of c1, c2, c3
                         for kk,c3 in list(enumerate(cat2))[::-1]:
                             k = c3._single_patch if c3._single_patch is not None else kk
-                            if j < k and is_my_job(my_indices, i, j, k, n1, n2):
+                            if (j,jj) < (k,kk) and is_my_job(my_indices, i, j, k, n1, n2):
                                 self._single_process123(c1, c2, c3, (i,j,k), metric, ordered1,
                                                         num_threads, temp, False)
                                 if low_mem and kk != jj+1:
-- 
2.43.0


From 1c12ed0f16a8b8eaa4874f1c14aa5e5d9286df08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 030/125] fix: keep the tot value of patch pairs/triples that
 are skipped as too far apart

When the pair was stored anyway (force_write), its contribution to tot was dropped, and a
skipped pair replaced any result already stored for the same patches.
---
 treecorr/corr2base.py      | 10 ++++++++++
 treecorr/corr3base.py      | 20 +++++++++++++++++++-
 treecorr/nncorrelation.py  |  9 ++++++++-
 treecorr/nnncorrelation.py | 21 ++++++++++++++++-----
 4 files changed, 53 insertions(+), 7 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 89c2c36..24fd7e1 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -728,6 +728,11 @@ class Corr2(object):
         # No op for all but NNCorrelation, which needs to add the tot value
         pass
 
+    def _set_tot(self, c1, c2):
+        # No op for all but NNCorrelation, which needs to set the tot value even when the
+        # processing is skipped.
+        pass
+
     def _trivially_zero(self, c1, c2):
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
@@ -796,11 +801,16 @@ class Corr2(object):
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
+            temp._set_tot(c1, c2)
         if temp.nonzero or force_write:
             if ij in self.results and self.results[ij].nonzero:
                 self.results[ij] += temp
             else:
+                prev = self.results.get(ij)
                 self.results[ij] = temp.copy()
+                if prev is not None:
+                    # It had no pairs, but NNCorrelation still needs to keep its tot value.
+                    self.results[ij] += prev
             self += temp
         else:
             # NNCorrelation needs to add the tot value
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 4516a2a..6823785 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1115,7 +1115,12 @@ class Corr3(object):
         return np.any(self.ntri)
 
     def _add_tot(self, ijk, c1, c2, c3):
-        # No op for all but NNCorrelation, which needs to add the tot value
+        # No op for all but NNNCorrelation, which needs to add the tot value
+        pass
+
+    def _set_tot(self, c1, c2, c3):
+        # No op for all but NNNCorrelation, which needs to set the tot value even when the
+        # processing is skipped.
         pass
 
     def _trivially_zero(self, c1, c2, c3):
@@ -1141,11 +1146,16 @@ class Corr3(object):
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
+            temp._set_tot(c1, c2, c2)
         if temp.nonzero or force_write:
             if ijj in self.results and self.results[ijj].nonzero:
                 self.results[ijj] += temp
             else:
+                prev = self.results.get(ijj)
                 self.results[ijj] = temp.copy()
+                if prev is not None:
+                    # It had no triangles, but NNNCorrelation still needs to keep its tot value.
+                    self.results[ijj] += prev
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1161,11 +1171,16 @@ class Corr3(object):
         else:
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
+            temp._set_tot(c1, c2, c3)
         if temp.nonzero or force_write:
             if ijk in self.results and self.results[ijk].nonzero:
                 self.results[ijk] += temp
             else:
+                prev = self.results.get(ijk)
                 self.results[ijk] = temp.copy()
+                if prev is not None:
+                    # It had no triangles, but NNNCorrelation still needs to keep its tot value.
+                    self.results[ijk] += prev
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1249,7 +1264,10 @@ class Corr3(object):
                         if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
                             self.results[(i,i,i)] += temp
                         else:
+                            prev = self.results.get((i,i,i))
                             self.results[(i,i,i)] = temp.copy()
+                            if prev is not None:
+                                self.results[(i,i,i)] += prev
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3f1e681..3d401ac 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -257,7 +257,14 @@ class NNCorrelation(Corr2):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
-        self.results[ij] = self._zero_copy(tot)
+        if ij in self.results:
+            self.results[ij].tot += tot
+        else:
+            self.results[ij] = self._zero_copy(tot)
+
+    def _set_tot(self, c1, c2):
+        # The tot value for a pair of patches that can be skipped.
+        self.tot = c1.sumw * c2.sumw
 
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index f6e8978..78f1654 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -352,15 +352,26 @@ class NNNCorrelation(Corr3):
         # When storing results from a patch-based run, tot needs to be accumulated even if
         # the total weight being accumulated comes out to be zero.
         # This only applies to NNNCorrelation.  For the other ones, this is a no op.
-        tot = c1.sumw * c2.sumw * c3.sumw
-        if c2 is c3:
-            # Account for 1/2 factor in cross12 cases.
-            tot /= 2.
+        tot = self._calculate_tot(c1, c2, c3)
         self.tot += tot
         # We also have to keep all pairs in the results dict, otherwise the tot calculation
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
-        self.results[ijk] = self._zero_copy(tot)
+        if ijk in self.results:
+            self.results[ijk].tot += tot
+        else:
+            self.results[ijk] = self._zero_copy(tot)
+
+    def _set_tot(self, c1, c2, c3):
+        # The tot value for a set of patches that can be skipped.
+        self.tot = self._calculate_tot(c1, c2, c3)
+
+    def _calculate_tot(self, c1, c2, c3):
+        tot = c1.sumw * c2.sumw * c3.sumw
+        if c2 is c3:
+            # Account for 1/2 factor in cross12 cases.
+            tot /= 2.
+        return tot
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From 54d0d2bccb0ba3266e3353bdae2a04955433c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 031/125] fix: patch_method=local keeps all objects that can be
 within max_sep

The expanded patches were cut using positions normalized to the unit sphere (3-d), the
unwrapped distance (Periodic), and max_sep rather than its diagonal (TwoD), so pairs were
lost.  Also keep the tot value when no objects of the second catalog are nearby.
---
 treecorr/corr2base.py | 47 +++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 24fd7e1..02cae98 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -743,12 +743,15 @@ class Corr2(object):
         # First figure out the center and size of cat1.
         x1,y1,z1,s1 = cat1._get_center_size()
 
-        if self._coords == _treecorr.ThreeD:
-            # For 3d coords, we collapse everything onto the unit circle, since that's
-            # what we care about for patch considerations.
-            r = np.sqrt(x1**2 + y1**2 + z1**2)
-            if r != 0:  # pragma: no branch
-                x1 /= r; y1 /= r; z1 /= r
+        # If the metric could be much less than the Euclidean distance between the points, then
+        # don't try to restrict the patch according to these distances.  Just keep everything.
+        if self.metric == 'Euclidean' or (self.metric == 'Arc' and self.coords == 'spherical'):
+            max_sep = self._max_sep
+            if self.bin_type == 'TwoD':
+                # Separations in the corners can be larger than max_sep.
+                max_sep *= 2**0.5
+        else:
+            max_sep = np.inf
 
         cat_list = []
         mask_list = []
@@ -756,23 +759,14 @@ class Corr2(object):
         for p in cat2:
             sumw += p.sumw
             x2,y2,z2,s2 = p._get_center_size()
-            if self._coords == _treecorr.ThreeD:
-                r = np.sqrt(x2**2 + y2**2 + z2**2)
-                if r != 0:
-                    x2 /= r; y2 /= r; z2 /= r
-            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > self._max_sep + s1 + s2:
+            if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > max_sep + s1 + s2:
                 if low_mem and p is not cat1:
                     p.unload()
                 continue
             px = p.x; py = p.y; pz = 0 if p.z is None else p.z
-            if self._coords == _treecorr.ThreeD:
-                pr = np.sqrt(px**2 + py**2 + pz**2)
-                pr[pr==0] = 1
-                # Don't divide in place.  That would change p's internals.
-                px = px/pr; py = py/pr; pz = pz/pr
             dsq = (px-x1)**2 + (py-y1)**2 + (pz-z1)**2
             d = np.sqrt(dsq)
-            mask = np.where(d < s1+self._max_sep)
+            mask = np.where(d < s1+max_sep)
             if len(mask[0]) == 0:
                 if low_mem and p is not cat1:
                     p.unload()
@@ -782,15 +776,16 @@ class Corr2(object):
             if low_mem and p is not cat1:
                 p.unload()
         if len(cat_list) == 0:
-            return None
-        else:
-            cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
-            # This is important for NN correlations to get the tot to work out right.
-            # Basically, we treat the extended patch as though it included all of cat2
-            # for the purposes of figuring out the right tot normalization.
-            cat2e._sumw = sumw
-            if cat1.name != '':
-                cat2e.name = cat1.name + " (expanded)"
+            # Then there is nothing to be counted, but still need something to hold sumw.
+            cat_list.append(cat2[0])
+            mask_list.append(slice(None))
+        cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
+        # This is important for NN correlations to get the tot to work out right.
+        # Basically, we treat the extended patch as though it included all of cat2
+        # for the purposes of figuring out the right tot normalization.
+        cat2e._sumw = sumw
+        if cat1.name != '':
+            cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
-- 
2.43.0


From 2dfb4f3a72315404ec58d6086735a6e61cdd202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 032/125] fix: don't skip patch triples based on Euclidean
 distances when using Periodic or 3-d Arc

---
 treecorr/corr3base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 6823785..6d91119 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1125,6 +1125,9 @@ class Corr3(object):
 
     def _trivially_zero(self, c1, c2, c3):
         # For now, ignore the metric.  Just be conservative about how much space we need.
+        # But this doesn't work for metrics that can be much less than the Euclidean distance.
+        if self.metric == 'Periodic' or (self.metric == 'Arc' and self.coords == '3d'):
+            return False
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
         x3,y3,z3,s3 = c3._get_center_size()
-- 
2.43.0


From c41fd43b0770ddb61bbe201ebbf8641d5dca6238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 033/125] fix: tot of three-point counts with
 patch_method=local

For auto- and unordered cross-correlations, tot came out three times the value for the whole
catalogs (and for patch_method=global), while ntri and weight are the same.
---
 treecorr/corr3base.py      | 32 ++++++++++++++++++++++++--------
 treecorr/nnncorrelation.py |  3 +++
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 6d91119..c0680f8 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1123,6 +1123,10 @@ class Corr3(object):
         # processing is skipped.
         pass
 
+    def _scale_tot(self, factor):
+        # No op for all but NNNCorrelation.
+        pass
+
     def _trivially_zero(self, c1, c2, c3):
         # For now, ignore the metric.  Just be conservative about how much space we need.
         # But this doesn't work for metrics that can be much less than the Euclidean distance.
@@ -1139,7 +1143,8 @@ class Corr3(object):
 
     _make_expanded_patch = Corr2._make_expanded_patch
 
-    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write):
+    def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
+                          tot_factor=1):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
         temp._clear()
 
@@ -1150,6 +1155,8 @@ class Corr3(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
             temp._set_tot(c1, c2, c2)
+        if tot_factor != 1:
+            temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
             if ijj in self.results and self.results[ijj].nonzero:
                 self.results[ijj] += temp
@@ -1164,7 +1171,8 @@ class Corr3(object):
             # NNNCorrelation needs to add the tot value
             self._add_tot(ijj, c1, c2, c2)
 
-    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write):
+    def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write,
+                           tot_factor=1):
         # Helper function for _process_all_auto, etc. for doing 123 cross triples
         temp._clear()
 
@@ -1175,6 +1183,8 @@ class Corr3(object):
             self.logger.info('Skipping %s, which are too far apart ' +
                              'for this set of separations',ijk)
             temp._set_tot(c1, c2, c3)
+        if tot_factor != 1:
+            temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
             if ijk in self.results and self.results[ijk].nonzero:
                 self.results[ijk] += temp
@@ -1253,8 +1263,10 @@ class Corr3(object):
                     if is_my_job(my_indices, i, i, i, n):
                         c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
+                        # This counts each triangle with just one of its vertices in c1,
+                        # so each set of three patches contributes to tot three times.
                         self._single_process12(c1, c1e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True, tot_factor=1./3.)
                         if low_mem:
                             c1.unload()
             else:
@@ -1380,13 +1392,15 @@ class Corr3(object):
             ordered1 = 1 if ordered else 0
 
             if local:
+                # When unordered, each set of three patches contributes to tot three times.
+                tot_factor = 1 if ordered else 1./3.
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process12(c1, c2e, (i,i,i), metric, 1,
-                                               num_threads, temp, True)
+                                               num_threads, temp, True, tot_factor)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1400,7 +1414,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c2, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c2.unload()
             else:
@@ -1498,6 +1512,8 @@ class Corr3(object):
             temp.results = {}
 
             if local:
+                # When unordered, each set of three patches contributes to tot three times.
+                tot_factor = 1 if ordered else 1./3.
                 for ii,c1 in enumerate(cat1):
                     i = c1._single_patch if c1._single_patch is not None else ii
                     if is_my_job(my_indices, i, i, i, n1, n2, n3):
@@ -1506,7 +1522,7 @@ class Corr3(object):
                         self.logger.info('Process patch %d with surrounding local patches',i)
                         self._single_process123(c1, c2e, c3e, (i,i,i), metric,
                                                 1 if not ordered else ordered,
-                                                num_threads, temp, True)
+                                                num_threads, temp, True, tot_factor)
                         if low_mem:
                             c1.unload()
                 if not ordered:
@@ -1520,7 +1536,7 @@ class Corr3(object):
                             c3e = self._make_expanded_patch(c2, cat3, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
                             self._single_process123(c2, c1e, c3e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c2.unload()
                     for ii,c3 in enumerate(cat3):
@@ -1530,7 +1546,7 @@ class Corr3(object):
                             c2e = self._make_expanded_patch(c3, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat3 with surrounding local patches',i)
                             self._single_process123(c3, c1e, c2e, (i,i,i), metric, 1,
-                                                    num_threads, temp, True)
+                                                    num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c3.unload()
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 78f1654..8b76c70 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -366,6 +366,9 @@ class NNNCorrelation(Corr3):
         # The tot value for a set of patches that can be skipped.
         self.tot = self._calculate_tot(c1, c2, c3)
 
+    def _scale_tot(self, factor):
+        self.tot *= factor
+
     def _calculate_tot(self, c1, c2, c3):
         tot = c1.sumw * c2.sumw * c3.sumw
         if c2 is c3:
-- 
2.43.0


From 812af9c1b40f39ee38e5c7fa1a052fbbaa1099b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 034/125] fix: TwoD auto-correlations of patches count pairs
 across patches in both opposite bins

As for the pairs within a patch, or for an auto-correlation without patches.
---
 treecorr/corr2base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 02cae98..46fc346 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -788,11 +788,17 @@ class Corr2(object):
             cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
-    def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False):
+    def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False,
+                          both=False):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
+        # If both is True, then also include the pairs with the two points exchanged.
         temp._clear()
         if c2 is not None and not self._trivially_zero(c1, c2):
             temp.process_cross(c1, c2, metric=metric, num_threads=num_threads)
+            if both:
+                temp.process_cross(c2, c1, metric=metric, num_threads=num_threads)
+                # Don't double count these for tot.
+                temp._set_tot(c1, c2)
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
@@ -902,7 +908,9 @@ class Corr2(object):
                         # same patches, then i and j can be equal for different catalogs.
                         if (i,ii) < (j,jj) and is_my_job(my_indices, i, j, n):
                             self.logger.info('Process patches %d, %d cross',i,j)
-                            self._single_process12(c1, c2, (i,j), metric, num_threads, temp)
+                            # TwoD auto-correlations count each pair in both opposite bins.
+                            self._single_process12(c1, c2, (i,j), metric, num_threads, temp,
+                                                   both=(self.bin_type == 'TwoD'))
                             if low_mem and jj != ii+1:
                                 # Don't unload i+1, since that's the next one we'll need.
                                 c2.unload()
-- 
2.43.0


From f36fcfa882cdbde890028c8fd747f01177e55327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 035/125] fix: save_patch_dir with patch numbers that have no
 objects

---
 treecorr/catalog.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8fb02db..0015ad9 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2830,7 +2830,10 @@ class Catalog(object):
         for file_name in file_names:
             if os.path.exists(file_name):
                 os.remove(file_name)
-        for i, p, file_name in zip(range(self.npatch), self.patches, file_names):
+        for p in self.patches:
+            # Note: Some patch numbers might not have any objects.
+            i = p._single_patch if p._single_patch is not None else 0
+            file_name = file_names[i]
             self.logger.info('Writing patch %d to %s',i,file_name)
             if p.ra is not None:
                 # Don't multiply and divide by the units on round trip.
@@ -2905,13 +2908,17 @@ class Catalog(object):
             kwargs['q2_col'] = 'q2'
 
         file_names = self.get_patch_file_names(save_patch_dir)
-        self._patches = []
+        if self._patch is not None:
+            # Then we know which patch numbers actually have any objects.
+            patch_set = sorted(set(self._patch))
+        else:
+            patch_set = range(self.npatch)
         # Check that the files exist, although we won't actually load them yet.
-        for i, file_name in zip(range(self.npatch), file_names):
-            if not os.path.isfile(file_name):
-                raise OSError("Patch file %s not found"%file_name)
-        self._patches = [Catalog(file_name=name, patch=i, npatch=self.npatch, **kwargs)
-                         for i, name in enumerate(file_names)]
+        for i in patch_set:
+            if not os.path.isfile(file_names[i]):
+                raise OSError("Patch file %s not found"%file_names[i])
+        self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch, **kwargs)
+                         for i in patch_set]
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
     def get_patches(self, *, low_mem=False):
-- 
2.43.0


From 50868b7bd2b34f0c0367ce30cf4ad4cf27be4b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 036/125] fix: tot of TwoD auto-correlations with
 patch_method=local

---
 treecorr/corr2base.py     | 13 +++++++++++--
 treecorr/nncorrelation.py |  3 +++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 46fc346..8316d16 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -788,8 +788,12 @@ class Corr2(object):
             cat2e.name = cat1.name + " (expanded)"
         return cat2e
 
+    def _scale_tot(self, factor):
+        # No op for all but NNCorrelation.
+        pass
+
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False,
-                          both=False):
+                          both=False, tot_factor=1):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
         # If both is True, then also include the pairs with the two points exchanged.
         temp._clear()
@@ -803,6 +807,8 @@ class Corr2(object):
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ij)
             temp._set_tot(c1, c2)
+        if tot_factor != 1:
+            temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
             if ij in self.results and self.results[ij].nonzero:
                 self.results[ij] += temp
@@ -886,7 +892,10 @@ class Corr2(object):
                     if is_my_job(my_indices, i, i, n):
                         c1e = self._make_expanded_patch(c1, cat1, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process12(c1, c1e, (i,i), metric, num_threads, temp, True)
+                        # TwoD auto-correlations already count each pair in two bins, so there
+                        # are no more pairs than normal, and likewise tot should be the same.
+                        self._single_process12(c1, c1e, (i,i), metric, num_threads, temp, True,
+                                               tot_factor=0.5 if self.bin_type == 'TwoD' else 1)
                         if low_mem:
                             c1.unload()
             else:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 3d401ac..e537b52 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -266,6 +266,9 @@ class NNCorrelation(Corr2):
         # The tot value for a pair of patches that can be skipped.
         self.tot = c1.sumw * c2.sumw
 
+    def _scale_tot(self, factor):
+        self.tot *= factor
+
     def _mean_weight(self):
         mean_np = np.mean(self.npairs)
         return 1 if mean_np == 0 else np.mean(self.weight)/mean_np
-- 
2.43.0


From 48a221f69b546cbca021885ca91a986640f9ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 037/125] fix: low_mem processing of files when some patch
 centers have no objects

---
 treecorr/catalog.py   |  2 ++
 treecorr/corr2base.py | 10 +++++++++-
 treecorr/corr3base.py |  8 ++++++++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 0015ad9..32e7b7a 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1287,6 +1287,8 @@ class Catalog(object):
                 return '3d'
 
     def _get_center_size(self):
+        if self.ntot == 0:
+            return (0., 0., 0., 0.)
         if not hasattr(self, '_cen_s'):
             mx = np.mean(self.x)
             my = np.mean(self.y)
diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 8316d16..f943ef1 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -734,6 +734,8 @@ class Corr2(object):
         pass
 
     def _trivially_zero(self, c1, c2):
+        if c1.ntot == 0 or c2.ntot == 0:
+            return True
         x1,y1,z1,s1 = c1._get_center_size()
         x2,y2,z2,s2 = c2._get_center_size()
         return self.corr.triviallyZero(self._metric, self._coords,
@@ -757,6 +759,8 @@ class Corr2(object):
         mask_list = []
         sumw = 0
         for p in cat2:
+            if p.ntot == 0:
+                continue
             sumw += p.sumw
             x2,y2,z2,s2 = p._get_center_size()
             if ((x2-x1)**2 + (y2-y1)**2 + (z2-z1)**2)**0.5 > max_sep + s1 + s2:
@@ -777,7 +781,7 @@ class Corr2(object):
                 p.unload()
         if len(cat_list) == 0:
             # Then there is nothing to be counted, but still need something to hold sumw.
-            cat_list.append(cat2[0])
+            cat_list.append(next((p for p in cat2 if p.ntot > 0), cat2[0]))
             mask_list.append(slice(None))
         cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
         # This is important for NN correlations to get the tot to work out right.
@@ -1050,6 +1054,8 @@ class Corr2(object):
                              cat.name)
 
         self._set_metric(metric, cat.coords)
+        if cat.ntot == 0:
+            return
         self._set_num_threads(num_threads)
         min_size, max_size = self._get_minmax_size()
 
@@ -1088,6 +1094,8 @@ class Corr2(object):
                              self._letter1, self._letter2, cat1.name, cat2.name)
 
         self._set_metric(metric, cat1.coords, cat2.coords)
+        if cat1.ntot == 0 or cat2.ntot == 0:
+            return
         self._set_num_threads(num_threads)
         min_size, max_size = self._get_minmax_size()
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index c0680f8..94b7ac1 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1128,6 +1128,8 @@ class Corr3(object):
         pass
 
     def _trivially_zero(self, c1, c2, c3):
+        if c1.ntot == 0 or c2.ntot == 0 or c3.ntot == 0:
+            return True
         # For now, ignore the metric.  Just be conservative about how much space we need.
         # But this doesn't work for metrics that can be much less than the Euclidean distance.
         if self.metric == 'Periodic' or (self.metric == 'Arc' and self.coords == '3d'):
@@ -1610,6 +1612,8 @@ class Corr3(object):
                              cat.name)
 
         self._set_metric(metric, cat.coords)
+        if cat.ntot == 0:
+            return
         self._set_num_threads(num_threads)
         min_size, max_size = self._get_minmax_size()
 
@@ -1630,6 +1634,8 @@ class Corr3(object):
                              self._letters, cat1.name, cat2.name)
 
         self._set_metric(metric, cat1.coords, cat2.coords)
+        if cat1.ntot == 0 or cat2.ntot == 0:
+            return
         self._set_num_threads(num_threads)
         min_size, max_size = self._get_minmax_size()
 
@@ -1680,6 +1686,8 @@ class Corr3(object):
                              self._letters, cat1.name, cat2.name, cat3.name)
 
         self._set_metric(metric, cat1.coords, cat2.coords, cat3.coords)
+        if cat1.ntot == 0 or cat2.ntot == 0 or cat3.ntot == 0:
+            return
         self._set_num_threads(num_threads)
         min_size, max_size = self._get_minmax_size()
 
-- 
2.43.0


From 33fb5b8390c97057b6ee2d8ffeb4703c1c4c39d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 038/125] fix: subtract the imaginary part of the randoms too
 when computing xi from patch pairs

The design matrix rows of a function using xi_im ignored the randoms for xi_im.
---
 treecorr/nzcorrelation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 0ee43ae..291174a 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -159,6 +159,7 @@ class BaseNZCorrelation(Corr2):
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
             self._rz._calculate_xi_from_pairs(pairs)
             self.xi -= self._rz.xi
+            self.xi_im -= self._rz.xi_im
 
     def write(self, file_name, rz=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
-- 
2.43.0


From 2ff03f7726de700a6d91f51006383b3f618e4db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 039/125] fix: dummy patch results for compensated NK, NG, ...
 must be all zero

Only xi and weight were zeroed, so npairs, meanr, meanlogr and the imaginary
part of some other patch pair were included in the sums.
---
 treecorr/nkcorrelation.py | 4 ++--
 treecorr/nzcorrelation.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 37378e1..839a47d 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -230,9 +230,9 @@ class NKCorrelation(Corr2):
                 for ij in rk.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 291174a..21fdb21 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -132,9 +132,9 @@ class BaseNZCorrelation(Corr2):
                 for ij in rz.results:
                     if ij in self.results: continue
                     new_cij = template.copy()
-                    new_cij.xi.ravel()[:] = 0
-                    new_cij.weight.ravel()[:] = 0
+                    new_cij._clear()
                     self.results[ij] = new_cij
+                    self.__dict__.pop('_ok',None)
 
                 self._cov = self.estimate_cov(self.var_method)
                 self._varxi = np.zeros_like(self.rnom, dtype=float)
-- 
2.43.0


From 53d66d2bbf84817b458f40a21cf4f88edd0ae87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 040/125] fix: identify unpatched randoms from the number of
 patches, not from the pairs used

A selection of pairs that happens to use only patch 0 of the data, or data whose
second catalog has no patches either, took the wrong branch.
---
 treecorr/nkcorrelation.py  | 2 +-
 treecorr/nncorrelation.py  | 4 ++--
 treecorr/nnncorrelation.py | 4 ++--
 treecorr/nzcorrelation.py  | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 839a47d..fa7066e 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -250,7 +250,7 @@ class NKCorrelation(Corr2):
         self._finalize()
         if self._rk is not None:
             # If rk has npatch1 = 1, adjust pairs appropriately
-            if self._rk.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rk.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rk results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rk._ok[ij[0],ij[1]]]
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index e537b52..a9c2879 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -480,7 +480,7 @@ class NNCorrelation(Corr2):
         rrf = dd_tot / self._rr.tot
 
         if self._dr is not None:
-            if self._dr.npatch2 == 1:
+            if self._dr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (i,0).
                 pairs2 = [(ij[0],0) for ij in pairs if ij[0] == ij[1]]
             else:
@@ -489,7 +489,7 @@ class NNCorrelation(Corr2):
             dr = self._dr.weight
             drf = dd_tot / self._dr.tot
         if self._rd is not None:
-            if self._rd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i) pairs to (0,i).
                 pairs3 = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             else:
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 8b76c70..fd8bd10 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -634,7 +634,7 @@ class NNNCorrelation(Corr3):
         rrrf = ddd_tot / self._rrr.tot
 
         if self._drr is not None:
-            if self._drr.npatch2 == 1:
+            if self._drr.npatch2 == 1 and self.npatch2 != 1:
                 # If r doesn't have patches, then convert all (i,i,i) pairs to (i,0,0).
                 pairs2 = [(ij[0],0,0) for ij in pairs if ij[0] == ij[1] == ij[2]]
             else:
@@ -643,7 +643,7 @@ class NNNCorrelation(Corr3):
             drr = self._drr.weight
             drrf = ddd_tot / self._drr.tot
         if self._rdd is not None:
-            if self._rdd.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rdd.npatch1 == 1 and self.npatch1 != 1:
                 # If r doesn't have patches, then convert all (i,i,j) pairs to (0,i,j)
                 # and all (i,j,i to (0,j,i).
                 pairs3 = [(0,ij[1],ij[2]) for ij in pairs if ij[0] == ij[1] or ij[0] == ij[2]]
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 21fdb21..9064781 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -153,7 +153,7 @@ class BaseNZCorrelation(Corr2):
         self._finalize()
         if self._rz is not None:
             # If rz has npatch1 = 1, adjust pairs appropriately
-            if self._rz.npatch1 == 1 and not all([p[0] == 0 for p in pairs]):
+            if self._rz.npatch1 == 1 and self.npatch1 != 1:
                 pairs = [(0,ij[1]) for ij in pairs if ij[0] == ij[1]]
             # Make sure all ij are in the rz results (some might be missing, which is ok)
             pairs = [ij for ij in pairs if self._rz._ok[ij[0],ij[1]]]
-- 
2.43.0


From 078688d3023d205980669b9c502c63041d9368cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 041/125] fix: scale an unpatched RR correctly when only one
 data catalog has patches

There are no (i,i) pairs then (other than (0,0)), so the area fraction was wrong.
---
 treecorr/nncorrelation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index a9c2879..2d2f658 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -467,8 +467,14 @@ class NNCorrelation(Corr2):
             # The approximation we'll use is that tot in the auto-correlations is
             # proportional to area**2.
             # So the sum of tot**0.5 when i==j gives an estimate of the fraction of the total area.
-            area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
-            area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items() if ij[0] == ij[1]])
+            # If only one of the catalogs has patches, then tot is just proportional to area.
+            if self.npatch1 == 1 or self.npatch2 == 1:
+                area_frac = np.sum([self.results[ij].tot for ij in pairs])
+                area_frac /= np.sum([cij.tot for cij in self.results.values()])
+            else:
+                area_frac = np.sum([self.results[ij].tot**0.5 for ij in pairs if ij[0] == ij[1]])
+                area_frac /= np.sum([cij.tot**0.5 for ij,cij in self.results.items()
+                                     if ij[0] == ij[1]])
             # First figure out the original total for all DD that had the same footprint as RR.
             dd_tot = np.sum([self.results[ij].tot for ij in self.results])
             # The rrf we want will be a factor of area_frac smaller than the original
-- 
2.43.0


From bb5239dbbcc8b01955e1b609379727221a2fdaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 042/125] fix: do not report weight 1 for empty bins of NN and
 NNN when computed from patch pairs

---
 treecorr/nncorrelation.py  | 2 +-
 treecorr/nnncorrelation.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 2d2f658..012aad3 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -512,9 +512,9 @@ class NNCorrelation(Corr2):
             xi = dd - 2.*dr * drf + denom
         else:
             xi = dd - dr * drf - rd * rdf + denom
+        self._rr_weight = denom.copy()
         denom[denom == 0] = 1  # Guard against division by zero.
         self.xi = xi / denom
-        self._rr_weight = denom
 
     def write(self, file_name, *, rr=None, dr=None, rd=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index fd8bd10..7f6fc4f 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -657,9 +657,9 @@ class NNNCorrelation(Corr3):
             zeta = ddd - denom
         else:
             zeta = ddd - rdd * rddf + drr * drrf - denom
+        self._rrr_weight = np.abs(denom)
         denom[denom == 0] = 1  # Guard against division by zero.
         self.zeta = zeta / denom
-        self._rrr_weight = denom
 
     def write(self, file_name, *, rrr=None, drr=None, rdd=None, file_type=None, precision=None,
               write_patch_results=False, write_cov=False):
-- 
2.43.0


From 0845c3aa6e370e36dc93d03f5cd4cca3d931ef2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:46 +0000
Subject: [PATCH 043/125] fix: patch_method=local when only some of the
 catalogs have patches

The results were stored with patch numbers that do not exist for the catalog without
patches, so computing a covariance raised an IndexError.
---
 treecorr/corr2base.py |  3 ++-
 treecorr/corr3base.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index f943ef1..a118065 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -997,7 +997,8 @@ class Corr2(object):
                     if is_my_job(my_indices, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process12(c1, c2e, (i,i), metric, num_threads, temp, True)
+                        ij = (i,i) if n2 != 1 else (i,0)
+                        self._single_process12(c1, c2e, ij, metric, num_threads, temp, True)
                         if low_mem:
                             c1.unload()
             else:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 94b7ac1..f764882 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1401,7 +1401,8 @@ class Corr3(object):
                     if is_my_job(my_indices, i, i, i, n1, n2):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process12(c1, c2e, (i,i,i), metric, 1,
+                        ijk = tuple(i if n != 1 else 0 for n in (n1,n2,n2))
+                        self._single_process12(c1, c2e, ijk, metric, 1,
                                                num_threads, temp, True, tot_factor)
                         if low_mem:
                             c1.unload()
@@ -1415,7 +1416,8 @@ class Corr3(object):
                             c1e = self._make_expanded_patch(c2, cat1, metric, low_mem)
                             c2e = self._make_expanded_patch(c2, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
-                            self._single_process123(c2, c1e, c2e, (i,i,i), metric, 1,
+                            ijk = tuple(i if n != 1 else 0 for n in (n1,n2,n2))
+                            self._single_process123(c2, c1e, c2e, ijk, metric, 1,
                                                     num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c2.unload()
@@ -1522,7 +1524,8 @@ class Corr3(object):
                         c2e = self._make_expanded_patch(c1, cat2, metric, low_mem)
                         c3e = self._make_expanded_patch(c1, cat3, metric, low_mem)
                         self.logger.info('Process patch %d with surrounding local patches',i)
-                        self._single_process123(c1, c2e, c3e, (i,i,i), metric,
+                        ijk = tuple(i if n != 1 else 0 for n in (n1,n2,n3))
+                        self._single_process123(c1, c2e, c3e, ijk, metric,
                                                 1 if not ordered else ordered,
                                                 num_threads, temp, True, tot_factor)
                         if low_mem:
@@ -1537,7 +1540,8 @@ class Corr3(object):
                             c1e = self._make_expanded_patch(c2, cat1, metric, low_mem)
                             c3e = self._make_expanded_patch(c2, cat3, metric, low_mem)
                             self.logger.info('Process patch %d from cat2 with surrounding local patches',i)
-                            self._single_process123(c2, c1e, c3e, (i,i,i), metric, 1,
+                            ijk = tuple(i if n != 1 else 0 for n in (n1,n2,n3))
+                            self._single_process123(c2, c1e, c3e, ijk, metric, 1,
                                                     num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c2.unload()
@@ -1547,7 +1551,8 @@ class Corr3(object):
                             c1e = self._make_expanded_patch(c3, cat1, metric, low_mem)
                             c2e = self._make_expanded_patch(c3, cat2, metric, low_mem)
                             self.logger.info('Process patch %d from cat3 with surrounding local patches',i)
-                            self._single_process123(c3, c1e, c2e, (i,i,i), metric, 1,
+                            ijk = tuple(i if n != 1 else 0 for n in (n1,n2,n3))
+                            self._single_process123(c3, c1e, c2e, ijk, metric, 1,
                                                     num_threads, temp, True, tot_factor)
                             if low_mem:
                                 c3.unload()
-- 
2.43.0


From 66efadb4c02bc3ce0bc62eb0b188bea05a3517ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 044/125] fix: recompute variances and covariances after adding
 more data

The cached values were kept when data were added with += or process(initialize=False).
---
 treecorr/corr2base.py | 9 +++++++++
 treecorr/corr3base.py | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index a118065..cb8a56f 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1205,6 +1205,7 @@ class Corr2(object):
             self._processed_cats2.clear()
 
     def _finalize(self):
+        self._reset_var()
         mask1 = self.weight != 0
         mask2 = self.weight == 0
 
@@ -1226,6 +1227,13 @@ class Corr2(object):
         self.meanr[mask2] = self.rnom[mask2]
         self.meanlogr[mask2] = self.logr[mask2]
 
+    def _reset_var(self):
+        # Forget any covariance or variance that was calculated from different data vectors.
+        self._cov = None
+        for name in ('_varxi', '_raw_varxi', '_varxip', '_varxim'):
+            if name in self.__dict__:
+                setattr(self, name, None)
+
     def _clear(self):
         """Clear the data vectors
         """
@@ -1256,6 +1264,7 @@ class Corr2(object):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
 
         self._set_metric(other.metric, other.coords, other.coords)
+        self._reset_var()
         if not other.nonzero: return self
         self._xi1[:] += other._xi1
         self._xi2[:] += other._xi2
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index f764882..9dfdc68 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1869,6 +1869,7 @@ class Corr3(object):
                 self.finalize(var1, var2, var3)
 
     def _finalize(self):
+        self._reset_var()
         mask1 = self.weightr != 0
         mask2 = self.weightr == 0
 
@@ -1934,6 +1935,13 @@ class Corr3(object):
             self.meand3[:,:,:] = self.meand3[:,:,self.max_n][:,:,np.newaxis]
             self.meanlogd3[:,:,:] = self.meanlogd3[:,:,self.max_n][:,:,np.newaxis]
 
+    def _reset_var(self):
+        # Forget any covariance or variance that was calculated from different data vectors.
+        self._cov = None
+        for name in ('_varzeta', '_vargam0', '_vargam1', '_vargam2', '_vargam3'):
+            if name in self.__dict__:
+                setattr(self, name, None)
+
     def _clear(self):
         """Clear the data vectors
         """
@@ -1974,6 +1982,7 @@ class Corr3(object):
             raise ValueError(f"{self._cls} to be added is not compatible with this one.")
 
         self._set_metric(other.metric, other.coords, other.coords, other.coords)
+        self._reset_var()
         if not other.nonzero: return self
         self._z1[:] += other._z1[:]
         self._z2[:] += other._z2[:]
-- 
2.43.0


From 2f0223dbd69ec027048032de0751096f367260c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 045/125] fix: covariance after processing more patches with
 initialize=False

The record of which patch pairs are in results was kept from the earlier call.
---
 treecorr/corr2base.py | 1 +
 treecorr/corr3base.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index cb8a56f..ed5160d 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1155,6 +1155,7 @@ class Corr2(object):
             self.clear()
             self._processed_cats1.clear()
             self._processed_cats2.clear()
+        self.__dict__.pop('_ok',None)  # The results will change.
 
         if patch_method not in ['local', 'global']:
             raise ValueError("Invalid patch_method %s"%patch_method)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 9dfdc68..b7cf863 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1825,6 +1825,7 @@ class Corr3(object):
 
         if initialize:
             self.clear()
+        self.__dict__.pop('_ok',None)  # The results will change.
 
         if cat2 is None:
             if cat3 is not None:
-- 
2.43.0


From 0ff04ecaa2ec4bde046a94d8862fd3a2980cd55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 046/125] fix: forget xi, zeta and the randoms of NN and NNN
 when processing new data

A later write or estimate_cov used the values calculated for the earlier data.
---
 treecorr/nncorrelation.py  | 8 ++++++++
 treecorr/nnncorrelation.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 012aad3..d887f8e 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -211,6 +211,14 @@ class NNCorrelation(Corr2):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        super().clear()
+        self._rr_weight = self._rr = self._dr = self._rd = None
+        self.__dict__.pop('xi', None)
+        self.__dict__.pop('varxi', None)
+
     def _clear(self):
         """Clear the data vectors
         """
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 7f6fc4f..5f897f2 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -317,6 +317,14 @@ class NNNCorrelation(Corr3):
         # The lazy version when we can be sure the object isn't going to accumulate any more.
         return self.nonzero
 
+    def clear(self):
+        """Clear all data vectors, the results dict, and any related values.
+        """
+        super().clear()
+        self._rrr_weight = self._rrr = self._drr = self._rdd = None
+        self.zeta = None
+        self.__dict__.pop('varzeta', None)
+
     def _clear(self):
         super()._clear()
         self.tot = 0.
-- 
2.43.0


From 1fa1a854cebf7ee25b39a44d57c3a307e139097e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 047/125] fix: covariance of NK, NG, ... after calculateXi with
 different or no randoms

The randoms of an earlier call and a covariance computed with them were kept, and
raw_varxi could be calculated from the compensated covariance.
---
 treecorr/nkcorrelation.py | 6 ++++++
 treecorr/nzcorrelation.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index fa7066e..d821d84 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -214,6 +214,12 @@ class NKCorrelation(Corr2):
                 - xi = array of :math:`\xi(r)`
                 - varxi = array of variance estimates of :math:`\xi(r)`
         """
+        if self._rk is not None:
+            # Don't use the randoms or the covariance from an earlier call.
+            self._rk = None
+            if len(self.results) > 0:
+                self._cov = None
+        self.raw_varxi  # Make sure the raw variance is calculated before using rk.
         if rk is not None:
             self.xi = self.raw_xi - rk.xi
             self._rk = rk
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 9064781..2b4d9b9 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -115,6 +115,12 @@ class BaseNZCorrelation(Corr2):
         self._cov = None
 
     def calculateXi(self, rz=None):
+        if self._rz is not None:
+            # Don't use the randoms or the covariance from an earlier call.
+            self._rz = None
+            if len(self.results) > 0:
+                self._cov = None
+        self.raw_varxi  # Make sure the raw variance is calculated before using rz.
         if rz is not None:
             self.xi = self.raw_xi - rz.xi
             self.xi_im = self.raw_xi_im - rz.xi_im
-- 
2.43.0


From f2787ffb1f3d98e07e1c831da5e31bdfea4aca4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 048/125] fix: shot-noise cov and varxi of NK, NG, ... include
 the randoms given to calculateXi

---
 treecorr/corr2base.py     | 5 +++++
 treecorr/nkcorrelation.py | 4 +++-
 treecorr/nzcorrelation.py | 4 +++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index ed5160d..178ba9c 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -2143,6 +2143,11 @@ def _cov_shot(corrs):
         mask1 = v != 0
         # Note: if w=0 anywhere, leave v=0 there, rather than divide by zero.
         v[mask1] = c._var_num / v[mask1]
+        # For compensated statistics (e.g. NK with rk), the noise of the randoms adds to this.
+        for name in ('_rk', '_rz'):
+            rand = getattr(c, name, None)
+            if rand is not None:
+                v += _cov_shot([rand])
         vlist.append(v)
     return np.concatenate(vlist)  # Return as just the diagonal
 
diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index d821d84..d54285d 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -217,7 +217,7 @@ class NKCorrelation(Corr2):
         if self._rk is not None:
             # Don't use the randoms or the covariance from an earlier call.
             self._rk = None
-            if len(self.results) > 0:
+            if len(self.results) > 0 or self._var_num != 0:
                 self._cov = None
         self.raw_varxi  # Make sure the raw variance is calculated before using rk.
         if rk is not None:
@@ -245,6 +245,8 @@ class NKCorrelation(Corr2):
                 self._varxi.ravel()[:] = self.cov_diag
             else:
                 self._varxi = self.raw_varxi + rk.varxi
+                if self._var_num != 0:
+                    self._cov = self._varxi.ravel()
         else:
             self.xi = self.raw_xi
             self._varxi = self.raw_varxi
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 2b4d9b9..3177812 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -118,7 +118,7 @@ class BaseNZCorrelation(Corr2):
         if self._rz is not None:
             # Don't use the randoms or the covariance from an earlier call.
             self._rz = None
-            if len(self.results) > 0:
+            if len(self.results) > 0 or self._var_num != 0:
                 self._cov = None
         self.raw_varxi  # Make sure the raw variance is calculated before using rz.
         if rz is not None:
@@ -147,6 +147,8 @@ class BaseNZCorrelation(Corr2):
                 self._varxi.ravel()[:] = self.cov_diag
             else:
                 self._varxi = self.raw_varxi + rz.varxi
+                if self._var_num != 0:
+                    self._cov = self._varxi.ravel()
         else:
             self.xi = self.raw_xi
             self.xi_im = self.raw_xi_im
-- 
2.43.0


From 562afe145b96560323ef0e514c40cb638a464434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 049/125] fix: use the user-specified variances also for
 catalogs with patches

---
 treecorr/catalog.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 32e7b7a..bad21f9 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1194,6 +1194,11 @@ class Catalog(object):
             meank = altmeank = vark = 0.
         return meank, altmeank, vark
 
+    def _get_user_vars(self):
+        # The variances that were specified by the user, rather than calculated from the data.
+        return { key : self.config[key] for key in ('vark', 'varz', 'varv', 'varg', 'vart', 'varq')
+                 if self.config.get(key, None) is not None }
+
     @property
     def vark(self):
         if self._vark is None:
@@ -2908,6 +2913,7 @@ class Catalog(object):
             kwargs['q1_col'] = 'q1'
         if self._q2 is not None or self.config.get('q2_col','0') != '0':
             kwargs['q2_col'] = 'q2'
+        kwargs.update(self._get_user_vars())
 
         file_names = self.get_patch_file_names(save_patch_dir)
         if self._patch is not None:
@@ -3001,6 +3007,7 @@ class Catalog(object):
                     kwargs['ra_units'] = 'rad'
                     kwargs['dec_units'] = 'rad'
                     kwargs['allow_xyz'] = True
+                kwargs.update(self._get_user_vars())
                 p = Catalog(x=x, y=y, z=z, ra=ra, dec=dec, r=r, w=w, wpos=wpos,
                             k=k, z1=z1, z2=z2, v1=v1, v2=v2, g1=g1, g2=g2,
                             t1=t1, t2=t2, q1=q1, q2=q2,
-- 
2.43.0


From 03a6f7fe22ad23c84b1c637894e98efdf2721cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:13 +0000
Subject: [PATCH 050/125] fix: shape of NNCorrelation.varxi with TwoD binning

---
 treecorr/nncorrelation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index d887f8e..d4a22aa 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -453,7 +453,7 @@ class NNCorrelation(Corr2):
 
         # Now that it's all set up, calculate the covariance and set varxi to the diagonal.
         self._cov = self.estimate_cov(self.var_method)
-        self.varxi = self.cov_diag
+        self.varxi = self.cov_diag.reshape(self.xi.shape)
         return self.xi, self.varxi
 
     def _calculate_xi_from_pairs(self, pairs):
-- 
2.43.0


From c171bb7c2d19a48d44a3d2793a8c1a941990efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:05 +0000
Subject: [PATCH 051/125] fix: NGCorrelation.writeNorm takes the documented rd
 parameter

---
 treecorr/ngcorrelation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/ngcorrelation.py b/treecorr/ngcorrelation.py
index 38270b5..24bee72 100644
--- a/treecorr/ngcorrelation.py
+++ b/treecorr/ngcorrelation.py
@@ -330,7 +330,7 @@ class NGCorrelation(BaseNZCorrelation):
         with writer:
             writer.write(col_names, columns)
 
-    def writeNorm(self, file_name, *, gg, dd, rr, R=None, dr=None, rg=None,
+    def writeNorm(self, file_name, *, gg, dd, rr, R=None, dr=None, rd=None, rg=None,
                   m2_uform=None, file_type=None, precision=None):
         r"""Write the normalized aperture mass cross-correlation to the file, file_name.
 
@@ -396,7 +396,7 @@ class NGCorrelation(BaseNZCorrelation):
 
         nmap, nmx, varnmap = self.calculateNMap(R=R, rg=rg, m2_uform=m2_uform)
         mapsq, mapsq_im, mxsq, mxsq_im, varmapsq = gg.calculateMapSq(R=R, m2_uform=m2_uform)
-        nsq, varnsq = dd.calculateNapSq(R=R, rr=rr, dr=dr, m2_uform=m2_uform)
+        nsq, varnsq = dd.calculateNapSq(R=R, rr=rr, dr=dr, rd=rd, m2_uform=m2_uform)
 
         nmnorm = nmap**2 / (nsq * mapsq)
         varnmnorm = nmnorm**2 * (4. * varnmap / nmap**2 + varnsq / nsq**2 + varmapsq / mapsq**2)
-- 
2.43.0


From 76f7e38f72428e2865a4aedbe708aab06aaf3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:25 +0000
Subject: [PATCH 052/125] fix: calculateNMap and calculateNapSq reject binnings
 for which their integral is wrong

---
 treecorr/ngcorrelation.py | 2 ++
 treecorr/nncorrelation.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/treecorr/ngcorrelation.py b/treecorr/ngcorrelation.py
index 24bee72..3540504 100644
--- a/treecorr/ngcorrelation.py
+++ b/treecorr/ngcorrelation.py
@@ -249,6 +249,8 @@ class NGCorrelation(BaseNZCorrelation):
             m2_uform = self.config.get('m2_uform','Crittenden')
         if m2_uform not in ['Crittenden', 'Schneider']:
             raise ValueError("Invalid m2_uform")
+        if self.bin_type != 'Log':
+            raise ValueError("calculateNMap requires Log binning.")
         if R is None:
             R = self.rnom
 
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index d4a22aa..286970d 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -798,6 +798,8 @@ class NNCorrelation(Corr2):
             m2_uform = self.config.get('m2_uform', 'Crittenden')
         if m2_uform not in ['Crittenden', 'Schneider']:
             raise ValueError("Invalid m2_uform")
+        if self.bin_type != 'Log':
+            raise ValueError("calculateNapSq requires Log binning.")
         if R is None:
             R = self.rnom
 
-- 
2.43.0


From 4ea236ef2795f2bfdf661b8a71319c8a1d9c1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 053/125] fix: Catalog.select forgets what was calculated from
 the unselected data

---
 treecorr/catalog.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index bad21f9..9f4763a 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1426,7 +1426,7 @@ class Catalog(object):
         if self._nontrivial_w and not keep_zero_weight:
             wpos = self._wpos if self._wpos is not None else self._w
             if np.any(wpos == 0):
-                self.select(np.where(wpos != 0)[0])
+                self._select(np.where(wpos != 0)[0])
 
         if self._single_patch is not None or self._patch is not None:
             # Easier to get these options out of the way first.
@@ -1594,7 +1594,7 @@ class Catalog(object):
         # which items to remove along the way based on the patch_centers.
         indx = self._get_patch_index(single_patch)
         self._patch = None
-        self.select(indx)
+        self._select(indx)
 
     def select(self, indx):
         """Trim the catalog to only include those objects with the give indices.
@@ -1602,6 +1602,27 @@ class Catalog(object):
         Parameters:
             indx:       A numpy array of index values to keep.
         """
+        self.load()
+        self._select(indx)
+
+        # The data no longer correspond to the contents of the file.
+        self.file_name = None
+        self.file_type = None
+
+        # Anything that may have been calculated from the full data is not valid anymore.
+        self._nobj = None
+        self._sumw = np.sum(self._w) if self._nontrivial_w else self.ntot
+        self._sumw2 = None
+        user_vars = self._get_user_vars()
+        for key in ('vark', 'varz', 'varv', 'varg', 'vart', 'varq'):
+            if key not in user_vars:
+                setattr(self, '_' + key, None)
+        self._patches = None
+        self._computed_centers = None
+        self.__dict__.pop('_cen_s', None)
+        self.clear_cache()
+
+    def _select(self, indx):
         if type(indx) == slice and indx == slice(None):
             return
         self._x = self._x[indx] if self._x is not None else None
@@ -2102,7 +2123,7 @@ class Catalog(object):
                     x_col = y_col = z_col = ra_col = dec_col = r_col = '0'
                     x_eval = y_eval = z_eval = ra_eval = dec_eval = r_eval = None
                 use = self._get_patch_index(self._single_patch)
-                self.select(use)
+                self._select(use)
                 if s == slice(None):
                     s = use
                 else:
-- 
2.43.0


From f9348f02e690faf078a3602dae1585d635b12d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 054/125] fix: flags with an integer patch select the rows of
 that patch

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 9f4763a..235375b 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1633,6 +1633,7 @@ class Catalog(object):
         self._r = self._r[indx] if self._r is not None else None
         self._w = self._w[indx] if self._w is not None else None
         self._wpos = self._wpos[indx] if self._wpos is not None else None
+        self._flag = self._flag[indx] if self._flag is not None else None
         self._k = self._k[indx] if self._k is not None else None
         self._z1 = self._z1[indx] if self._z1 is not None else None
         self._z2 = self._z2[indx] if self._z2 is not None else None
@@ -2802,6 +2803,7 @@ class Catalog(object):
             self._r = None
             self._w = None
             self._wpos = None
+            self._flag = None
             self._k = None
             self._z1 = None
             self._z2 = None
-- 
2.43.0


From a05712a6b234de4cd1fc32d849dd8aa2993247d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 055/125] fix: rows with NaN values get wpos=0 as well as w=0

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 235375b..fdebe24 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1688,6 +1688,8 @@ class Catalog(object):
             if self._w is None:
                 self._w = np.ones_like(col, dtype=float)
             self._w[index] = 0
+            if self._wpos is not None:
+                self._wpos[index] = 0
             col[index] = 0  # Don't leave the nans there.
 
     def _check_file(self, file_name, reader, num=0, is_rand=False):
-- 
2.43.0


From 9a350f48872bd966aa9544a77654ba188b4f45ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 056/125] fix: lists of units and other values that are limited
 to certain choices

---
 treecorr/config.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index cadaf84..a77205e 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -212,6 +212,26 @@ def parse(value, value_type, name):
         raise ValueError("Could not parse {}={} as type {}".format(name, value, value_type))
 
 
+def _check_valid(value, value_type, valid_values, key):
+    # Check that value is one of the valid_values and return the matching one.
+    if value is None:
+        return value
+    if value_type is str:
+        matches = [ v for v in valid_values if value == v ]
+        if len(matches) == 0:
+            # Allow the string to be longer.
+            # e.g. degrees is valid if 'deg' is in valid_values.
+            matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
+        if len(matches) != 1:
+            raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                key, value, str(valid_values)))
+        return matches[0]
+    else:
+        if value not in valid_values:
+            raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
+                key, value, str(valid_values)))
+        return value
+
 def check_config(config, params, aliases=None, logger=None):
     """Check (and update) a config dict to conform to the given parameter rules.
     The params dict has an entry for each valid config parameter whose value is a tuple
@@ -263,21 +283,11 @@ def check_config(config, params, aliases=None, logger=None):
                 continue
 
         # If limited allowed value, check that this is one of them.
-        if valid_values is not None and value is not None:
-            if value_type is str:
-                matches = [ v for v in valid_values if value == v ]
-                if len(matches) == 0:
-                    # Allow the string to be longer.
-                    # e.g. degrees is valid if 'deg' is in valid_values.
-                    matches = [v for v in valid_values if isinstance(v,str) and value.startswith(v)]
-                if len(matches) != 1:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
-                value = matches[0]
+        if valid_values is not None:
+            if may_be_list and isinstance(config[key], list):
+                value = [_check_valid(v, value_type, valid_values, key) for v in value]
             else:
-                if value not in valid_values:
-                    raise ValueError("Parameter %s has invalid value %s.  Valid values are %s."%(
-                        key, config[key], str(valid_values)))
+                value = _check_valid(value, value_type, valid_values, key)
 
         # Write it back to the dict with the right type
         config[key] = value
-- 
2.43.0


From ec019dd7a80bbd656c4228dea4acf7c5339bbc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 057/125] fix: patch given as an array with a single element

---
 treecorr/catalog.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index fdebe24..67ce736 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -825,11 +825,8 @@ class Catalog(object):
         if self.every_nth < 1:
             raise ValueError("every_nth should be >= 1")
 
-        try:
+        if patch is not None and np.ndim(patch) == 0:
             self._single_patch = int(patch)
-        except TypeError:
-            pass
-        else:
             patch = None
 
         if patch_centers is None and 'patch_centers' in self.config:
-- 
2.43.0


From f7be24f4f85d6cd05a3f217af2d791313052576b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 058/125] fix: check the lengths of flag, and of ra, dec given
 along with x, y

---
 treecorr/catalog.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 67ce736..b222b0c 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -961,8 +961,11 @@ class Catalog(object):
                     raise ValueError("x and y have different numbers of elements")
             else:
                 ntot = len(self._ra)
-                if len(self._dec) != ntot:
+            if self._ra is not None:
+                if len(self._dec) != len(self._ra):
                     raise ValueError("ra and dec have different numbers of elements")
+                if len(self._ra) != ntot:
+                    raise ValueError("ra and dec have the wrong numbers of elements")
             if self._z is not None and len(self._z) != ntot:
                 raise ValueError("z has the wrong numbers of elements")
             if self._r is not None and len(self._r) != ntot:
@@ -971,6 +974,8 @@ class Catalog(object):
                 raise ValueError("w has the wrong numbers of elements")
             if self._wpos is not None and len(self._wpos) != ntot:
                 raise ValueError("wpos has the wrong numbers of elements")
+            if self._flag is not None and len(self._flag) != ntot:
+                raise ValueError("flag has the wrong numbers of elements")
             if self._k is not None and len(self._k) != ntot:
                 raise ValueError("k has the wrong numbers of elements")
             if self._z1 is not None and len(self._z1) != ntot:
-- 
2.43.0


From 64b58695ef7bc730b906a4555b97d19a08c8ce3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:38 +0000
Subject: [PATCH 059/125] fix: Catalog.select with a slice made non-contiguous
 columns

---
 treecorr/catalog.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index b222b0c..fd32c0e 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1605,6 +1605,9 @@ class Catalog(object):
             indx:       A numpy array of index values to keep.
         """
         self.load()
+        if isinstance(indx, slice):
+            # A slice would make views into the columns, which need to be contiguous.
+            indx = np.arange(self.ntot)[indx]
         self._select(indx)
 
         # The data no longer correspond to the contents of the file.
-- 
2.43.0


From 8aed740a9b93ac117a0480df6e8e7c0b75796f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 060/125] fix: allow one component of a field as a column and
 the other as an eval

---
 treecorr/catalog.py | 55 ++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index fd32c0e..80a2856 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1790,19 +1790,19 @@ class Catalog(object):
             raise ValueError("q2_col is missing for file %s"%file_name)
 
         # Either both shoudl be 0 or both != 0.
-        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z1_eval is None):
+        if (z1_col == '0' and z1_eval is None) != (z2_col == '0' and z2_eval is None):
             raise ValueError("z1_col, z2_col=(%s, %s) are invalid for file %s"%(
                         z1_col,z2_col,file_name))
-        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v1_eval is None):
+        if (v1_col == '0' and v1_eval is None) != (v2_col == '0' and v2_eval is None):
             raise ValueError("v1_col, v2_col=(%s, %s) are invalid for file %s"%(
                         v1_col,v2_col,file_name))
-        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g1_eval is None):
+        if (g1_col == '0' and g1_eval is None) != (g2_col == '0' and g2_eval is None):
             raise ValueError("g1_col, g2_col=(%s, %s) are invalid for file %s"%(
                         g1_col,g2_col,file_name))
-        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t1_eval is None):
+        if (t1_col == '0' and t1_eval is None) != (t2_col == '0' and t2_eval is None):
             raise ValueError("t1_col, t2_col=(%s, %s) are invalid for file %s"%(
                         t1_col,t2_col,file_name))
-        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q1_eval is None):
+        if (q1_col == '0' and q1_eval is None) != (q2_col == '0' and q2_eval is None):
             raise ValueError("q1_col, q2_col=(%s, %s) are invalid for file %s"%(
                         q1_col,q2_col,file_name))
 
@@ -1874,11 +1874,11 @@ class Catalog(object):
                                 k_col, file_name, num) +
                             "because it is invalid, but unneeded.")
 
-            if z1_col != '0':
+            if z1_col != '0' or z2_col != '0':
                 z1_ext = get_from_list(self.config, 'z1_ext', num, str, ext)
                 z2_ext = get_from_list(self.config, 'z2_ext', num, str, ext)
-                if (z1_col not in reader.names(ext=z1_ext) or
-                    z2_col not in reader.names(ext=z2_ext)):
+                if ((z1_col != '0' and z1_col not in reader.names(ext=z1_ext)) or
+                    (z2_col != '0' and z2_col not in reader.names(ext=z2_ext))):
                     if isZColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "z1_col, z2_col=(%s, %s) are invalid for file %s"%(
@@ -1889,11 +1889,11 @@ class Catalog(object):
                                 z1_col, z2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if v1_col != '0':
+            if v1_col != '0' or v2_col != '0':
                 v1_ext = get_from_list(self.config, 'v1_ext', num, str, ext)
                 v2_ext = get_from_list(self.config, 'v2_ext', num, str, ext)
-                if (v1_col not in reader.names(ext=v1_ext) or
-                    v2_col not in reader.names(ext=v2_ext)):
+                if ((v1_col != '0' and v1_col not in reader.names(ext=v1_ext)) or
+                    (v2_col != '0' and v2_col not in reader.names(ext=v2_ext))):
                     if isVColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "v1_col, v2_col=(%s, %s) are invalid for file %s"%(
@@ -1904,11 +1904,11 @@ class Catalog(object):
                                 v1_col, v2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if g1_col != '0':
+            if g1_col != '0' or g2_col != '0':
                 g1_ext = get_from_list(self.config, 'g1_ext', num, str, ext)
                 g2_ext = get_from_list(self.config, 'g2_ext', num, str, ext)
-                if (g1_col not in reader.names(ext=g1_ext) or
-                    g2_col not in reader.names(ext=g2_ext)):
+                if ((g1_col != '0' and g1_col not in reader.names(ext=g1_ext)) or
+                    (g2_col != '0' and g2_col not in reader.names(ext=g2_ext))):
                     if isGColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "g1_col, g2_col=(%s, %s) are invalid for file %s"%(
@@ -1919,11 +1919,11 @@ class Catalog(object):
                                 g1_col, g2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if t1_col != '0':
+            if t1_col != '0' or t2_col != '0':
                 t1_ext = get_from_list(self.config, 't1_ext', num, str, ext)
                 t2_ext = get_from_list(self.config, 't2_ext', num, str, ext)
-                if (t1_col not in reader.names(ext=t1_ext) or
-                    t2_col not in reader.names(ext=t2_ext)):
+                if ((t1_col != '0' and t1_col not in reader.names(ext=t1_ext)) or
+                    (t2_col != '0' and t2_col not in reader.names(ext=t2_ext))):
                     if isTColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "t1_col, t2_col=(%s, %s) are invalid for file %s"%(
@@ -1934,11 +1934,11 @@ class Catalog(object):
                                 t1_col, t2_col, file_name, num) +
                             "because they are invalid, but unneeded.")
 
-            if q1_col != '0':
+            if q1_col != '0' or q2_col != '0':
                 q1_ext = get_from_list(self.config, 'q1_ext', num, str, ext)
                 q2_ext = get_from_list(self.config, 'q2_ext', num, str, ext)
-                if (q1_col not in reader.names(ext=q1_ext) or
-                    q2_col not in reader.names(ext=q2_ext)):
+                if ((q1_col != '0' and q1_col not in reader.names(ext=q1_ext)) or
+                    (q2_col != '0' and q2_col not in reader.names(ext=q2_ext))):
                     if isQColRequired(self.orig_config,num) or 'corr2' not in self.orig_config:
                         raise ValueError(
                             "q1_col, q2_col=(%s, %s) are invalid for file %s"%(
@@ -2186,35 +2186,40 @@ class Catalog(object):
                     self.logger.debug('read k')
 
                 # Set z1,z2
-                if z1_col in reader.names(ext=z1_ext) or z1_eval is not None:
+                if ((z1_col in reader.names(ext=z1_ext) or z1_eval is not None) and
+                    (z2_col in reader.names(ext=z2_ext) or z2_eval is not None)):
                     self._z1 = parse_value(data, z1_col, z1_eval)
                     self.logger.debug('read z1')
                     self._z2 = parse_value(data, z2_col, z2_eval)
                     self.logger.debug('read z2')
 
                 # Set v1,v2
-                if v1_col in reader.names(ext=v1_ext) or v1_eval is not None:
+                if ((v1_col in reader.names(ext=v1_ext) or v1_eval is not None) and
+                    (v2_col in reader.names(ext=v2_ext) or v2_eval is not None)):
                     self._v1 = parse_value(data, v1_col, v1_eval)
                     self.logger.debug('read v1')
                     self._v2 = parse_value(data, v2_col, v2_eval)
                     self.logger.debug('read v2')
 
                 # Set g1,g2
-                if g1_col in reader.names(ext=g1_ext) or g1_eval is not None:
+                if ((g1_col in reader.names(ext=g1_ext) or g1_eval is not None) and
+                    (g2_col in reader.names(ext=g2_ext) or g2_eval is not None)):
                     self._g1 = parse_value(data, g1_col, g1_eval)
                     self.logger.debug('read g1')
                     self._g2 = parse_value(data, g2_col, g2_eval)
                     self.logger.debug('read g2')
 
                 # Set t1,t2
-                if t1_col in reader.names(ext=t1_ext) or t1_eval is not None:
+                if ((t1_col in reader.names(ext=t1_ext) or t1_eval is not None) and
+                    (t2_col in reader.names(ext=t2_ext) or t2_eval is not None)):
                     self._t1 = parse_value(data, t1_col, t1_eval)
                     self.logger.debug('read t1')
                     self._t2 = parse_value(data, t2_col, t2_eval)
                     self.logger.debug('read t2')
 
                 # Set q1,q2
-                if q1_col in reader.names(ext=q1_ext) or q1_eval is not None:
+                if ((q1_col in reader.names(ext=q1_ext) or q1_eval is not None) and
+                    (q2_col in reader.names(ext=q2_ext) or q2_eval is not None)):
                     self._q1 = parse_value(data, q1_col, q1_eval)
                     self.logger.debug('read q1')
                     self._q2 = parse_value(data, q2_col, q2_eval)
-- 
2.43.0


From a9c182e9ad4ef4ffc9a2c3fb237924670d83697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:02 +0000
Subject: [PATCH 061/125] fix: eval strings with numbers that match ASCII
 column numbers

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 80a2856..adf7c09 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1967,7 +1967,7 @@ class Catalog(object):
                 exec('import ' + mod, gdict)
             gdict['data'] = data
             for k in data:
-                if k in s:
+                if k in s and k.isidentifier():
                     exec(f"{k} = data['{k}']", gdict)
             return eval(s, gdict)
 
-- 
2.43.0


From 696e718261da744c9569e3ee3f3271fb3c906882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 062/125] fix: reading selected rows of Parquet files

---
 treecorr/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index f09c0b0..21678d0 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -422,9 +422,9 @@ class ParquetReader():
             The data as a recarray or simple numpy array as appropriate
         """
         if np.isscalar(cols):
-            return self.df[cols][s].to_numpy()
+            return self.df[cols].iloc[s].to_numpy()
         else:
-            return self.df[cols][s].to_records()
+            return self.df[cols].iloc[s].to_records()
 
     def row_count(self, col=None, *, ext=None):
         """Count the number of rows in the named extension and column
-- 
2.43.0


From 97f8dd01dae8ab3cea09cd350580b0636a289b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 063/125] fix: Catalog ignored patch_eval

---
 treecorr/catalog.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index adf7c09..14731b4 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -834,7 +834,8 @@ class Catalog(object):
             patch_centers = get(self.config,'patch_centers',str)
 
         if patch_centers is not None:
-            if patch is not None or self.config.get('patch_col',0) not in (0,'0'):
+            if (patch is not None or self.config.get('patch_col',0) not in (0,'0')
+                or self.config.get('patch_eval') is not None):
                 raise ValueError("Cannot provide both patch and patch_centers")
             if isinstance(patch_centers, np.ndarray):
                 self._centers = patch_centers
@@ -847,7 +848,8 @@ class Catalog(object):
             self._npatch = get(self.config,'npatch',int)
             if self._npatch < 1:
                 raise ValueError("npatch must be >= 1")
-        elif self.config.get('patch_col',0) not in (0,'0'):
+        elif (self.config.get('patch_col',0) not in (0,'0')
+              or self.config.get('patch_eval') is not None):
             self._npatch = None  # Mark that we need to finish loading to figure out npatch.
         elif self._single_patch:
             raise ValueError("Either npatch or patch_centers is required when providing "
@@ -2002,9 +2004,9 @@ class Catalog(object):
                     self.logger.debug('read r')
                 self._apply_radec_units()
 
-        def set_patch(data, patch_col):
-            if patch_col != '0' and patch_col in data:
-                self._patch = data[patch_col].astype(int)
+        def set_patch(data, patch_col, patch_eval):
+            if patch_eval is not None or (patch_col != '0' and patch_col in data):
+                self._patch = parse_value(data, patch_col, patch_eval, int)
                 self.logger.debug('read patch')
                 self._set_npatch()
 
@@ -2051,6 +2053,7 @@ class Catalog(object):
         t2_eval = get_from_list(self.config,'t2_eval',num,str,None)
         q1_eval = get_from_list(self.config,'q1_eval',num,str,None)
         q2_eval = get_from_list(self.config,'q2_eval',num,str,None)
+        patch_eval = get_from_list(self.config,'patch_eval',num,str,None)
         extra_cols = get(self.config,'extra_cols',list,[])
 
         with reader:
@@ -2111,10 +2114,19 @@ class Catalog(object):
             data = {}
             # Also, if we are only reading in one patch, we should adjust s before doing this.
             if self._single_patch is not None:
-                if patch_col != '0':
+                if patch_eval is not None:
+                    for ext1 in all_exts:
+                        use_cols1 = [c for c in extra_cols if c in reader.names(ext=ext1)]
+                        if len(use_cols1) > 0:
+                            data1 = reader.read(use_cols1, s, ext=ext1)
+                            for c in use_cols1:
+                                data[c] = data1[c]
+                    set_patch(data, patch_col, patch_eval)
+                    patch_eval = None
+                elif patch_col != '0':
                     data[patch_col] = reader.read(patch_col, s, ext=patch_ext)
                     all_cols.remove(patch_col)
-                    set_patch(data, patch_col)
+                    set_patch(data, patch_col, patch_eval)
                 elif self._centers is not None:
                     pos_cols = [x_col, y_col, z_col, ra_col, dec_col, r_col]
                     pos_cols = [c for c in pos_cols if c != '0']
@@ -2161,7 +2173,7 @@ class Catalog(object):
                     x_eval, y_eval, z_eval, ra_eval, dec_eval, r_eval)
 
             # Set patch
-            set_patch(data, patch_col)
+            set_patch(data, patch_col, patch_eval)
 
             # Set w
             if w_col != '0' or w_eval is not None:
-- 
2.43.0


From 211bd1faa3a03d44691ab488db87a0ac142c8ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 064/125] fix: single patch from patch_centers with columns in
 different extensions

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 14731b4..7d84f0e 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2135,6 +2135,8 @@ class Catalog(object):
                     for ext in all_exts:
                         use_cols1 = [c for c in pos_cols if col_by_ext[c] == ext]
                         use_cols1 += [c for c in extra_cols if c in reader.names(ext=ext)]
+                        if len(use_cols1) == 0:
+                            continue
                         data1 = reader.read(use_cols1, s, ext=ext)
                         for c in use_cols1:
                             data[c] = data1[c]
-- 
2.43.0


From 9ec82aae7849e996c59be9b73089162857be5a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 065/125] fix: reading a single patch with npatch and row
 limits, or with no objects, from a file

---
 treecorr/catalog.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 7d84f0e..c16eb7f 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2146,18 +2146,18 @@ class Catalog(object):
                     x_eval = y_eval = z_eval = ra_eval = dec_eval = r_eval = None
                 use = self._get_patch_index(self._single_patch)
                 self._select(use)
-                if s == slice(None):
+                if isinstance(use, slice):
+                    pass  # We are using all the rows.
+                elif s == slice(None):
                     s = use
                 else:
-                    end1 = np.max(use)*s.step+s.start+1
-                    s = np.arange(s.start, end1, s.step)[use]
+                    s = use * s.step + s.start
                 self._patch = None
+                patch_col = '0'
                 data = {}  # Start fresh, since the ones we used so far are done.
 
-                # We might actually be done now, in which case, just return.
-                # (Else the fits read below won't actually work.)
-                if len(all_cols) == 0 or (isinstance(s,np.ndarray) and len(s) == 0):
-                    return
+            # The readers don't all allow reading zero rows, so don't do that.
+            empty = isinstance(s, np.ndarray) and len(s) == 0
 
             # Now read the rest using the updated s
             for ext in all_exts:
@@ -2166,9 +2166,9 @@ class Catalog(object):
                 use_cols1 += [c for c in extra_cols if c in reader.names(ext=ext)]
                 if len(use_cols1) == 0:
                     continue
-                data1 = reader.read(use_cols1, s, ext=ext)
+                data1 = None if empty else reader.read(use_cols1, s, ext=ext)
                 for c in use_cols1:
-                    data[c] = data1[c]
+                    data[c] = np.array([]) if empty else data1[c]
 
             # Set position values
             set_pos(data, x_col, y_col, z_col, ra_col, dec_col, r_col,
-- 
2.43.0


From ca3e20e6c0d02482c927cf33b895b98b5bd3c0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:49 +0000
Subject: [PATCH 066/125] fix: reading a single value from an ASCII file
 without pandas

---
 treecorr/reader.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index 21678d0..79048ef 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -119,13 +119,8 @@ class AsciiReader(object):
                              skip_header=skiprows, max_rows=nrows)
         self.file.seek(0)
 
-        # If only one column, then the shape comes in as one-d.  Reshape it:
-        if len(icols) == 1:
-            data = data.reshape(len(data),1)
-
-        # If only one row, then the shape comes in as one-d.  Reshape it:
-        if len(data.shape) == 1:
-            data = data.reshape(1,len(data))
+        # If only one column and/or one row, then the shape comes in as one-d or zero-d.  Reshape it:
+        data = data.reshape(-1,len(icols))
 
         # Select the rows we want if start/end wasn't sufficient.
         if isinstance(s, slice):
-- 
2.43.0


From df09fb0330cdafb3fc4cbcc4a5c1e78bb351356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:06 +0000
Subject: [PATCH 067/125] fix: a patch without objects of a catalog file with
 weights is valid

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index c16eb7f..7d8c454 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1418,7 +1418,7 @@ class Catalog(object):
         if self._w is not None:
             self._nontrivial_w = True
             self._sumw = np.sum(self._w)
-            if self._sumw == 0:
+            if self._sumw == 0 and self.ntot > 0:
                 raise ValueError("Catalog has invalid sumw == 0")
         else:
             self._nontrivial_w = False
-- 
2.43.0


From b60eca61008ce1359f5890a8687d9a217f10ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 068/125] fix: use the rng of the Catalog for its kmeans
 patches

---
 treecorr/catalog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 7d8c454..1e9a234 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1448,7 +1448,8 @@ class Catalog(object):
             c = 'spherical' if self._ra is not None else self.coords
             field = self.getNField(max_top=max_top, coords=c)
             self.logger.info("Finding %d patches using kmeans.",self._npatch)
-            self._patch, self._centers = field.run_kmeans(self._npatch, init=init, alt=alt)
+            self._patch, self._centers = field.run_kmeans(self._npatch, init=init, alt=alt,
+                                                            rng=self._rng)
             # Clear the cached NField, since we will almost certainly not want this
             # particular one again, even if doing N-based correlations (since max_top, etc.
             # is almost certainly going to be different).
-- 
2.43.0


From 282091e34e1862dc3342659a610aa7d4c91c5c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 069/125] fix: npatch given along with patch numbers sets the
 total number of patches

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 1e9a234..6c62ee6 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1541,7 +1541,7 @@ class Catalog(object):
         if self._npatch not in [None, 1] and npatch > self._npatch:
             # Note: it's permissible for self._npatch to be larger, but not smaller.
             raise ValueError("npatch is incompatible with provided patch numbers")
-        self._npatch = npatch
+        self._npatch = max(npatch, self._npatch or 1)
         self.logger.info("Assigned patch numbers 0..%d",self._npatch-1)
 
     def _get_patch_index(self, single_patch):
-- 
2.43.0


From 1a8431e6c2bf4a3ae0dca3212dfac30dd82990b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 070/125] fix: read_patches of an unloaded catalog when some
 patch numbers have no objects

---
 treecorr/catalog.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 6c62ee6..d13ddb3 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2971,6 +2971,10 @@ class Catalog(object):
             patch_set = sorted(set(self._patch))
         else:
             patch_set = range(self.npatch)
+            exists = [os.path.isfile(file_names[i]) for i in patch_set]
+            if any(exists) and not all(exists):
+                # Probably some patch numbers don't have any objects.  Need to load to find out.
+                patch_set = sorted(set(self.patch))
         # Check that the files exist, although we won't actually load them yet.
         for i in patch_set:
             if not os.path.isfile(file_names[i]):
-- 
2.43.0


From 892b1863b65c26b44f80054674ea12c3e123f084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 071/125] fix: kmeans tree initialization gave some points more
 than one center

---
 src/KMeans.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 8ceb09c..5060989 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -41,6 +41,16 @@ void InitializeCentersTree(std::vector<Position<C> >& centers, const BaseCell<C>
         int m2 = ncenters - m1;
         double urd = urand();
         if (urd < 0.5) std::swap(m1,m2);
+        // Don't ask for more centers than there are points, if the other side has enough.
+        const int n1 = cell->getLeft()->getN();
+        const int n2 = cell->getRight()->getN();
+        if (m1 > n1 && m2 < n2) {
+            m1 = std::max(n1, ncenters - n2);
+            m2 = ncenters - m1;
+        } else if (m2 > n2 && m1 < n1) {
+            m2 = std::max(n2, ncenters - n1);
+            m1 = ncenters - m2;
+        }
         // Note: If ncenters is even, this doesn't do anything, but if odd, then 50% chance
         // that left side will get the extra one and 50% chance that right side will get it.
         xdbg<<"Recurse with m1,m2 = "<<m1<<','<<m2<<std::endl;
@@ -96,6 +106,29 @@ void InitializeCentersTree(std::vector<Position<C> >& centers,
             if (j != k-1) std::swap(nvalues[j], nvalues[k-1]);
         }
 
+        // Don't ask for more centers than there are points in any cell.
+        long nextra = 0;
+        for (long k=0; k<ncells; ++k) {
+            if (nvalues[k] > cells[k]->getN()) {
+                nextra += nvalues[k] - cells[k]->getN();
+                nvalues[k] = cells[k]->getN();
+            }
+        }
+        while (nextra > 0) {
+            long n0 = nextra;
+            for (long k=0; k<ncells && nextra > 0; ++k) {
+                if (nvalues[k] < cells[k]->getN()) {
+                    ++nvalues[k];
+                    --nextra;
+                }
+            }
+            if (nextra == n0) {
+                // Not enough points.  Shouldn't happen.
+                nvalues[0] += nextra;
+                nextra = 0;
+            }
+        }
+
         // Do the recursive initialization for each value of n1 in the list.
         long first=0;
         for (long k=0; k<ncells; ++k) {
-- 
2.43.0


From 9995030fb7900cf3f041a1b987b1a10fe9b4076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:50 +0000
Subject: [PATCH 072/125] fix: kmeans moved the centers of patches without any
 weight to the origin

---
 src/KMeans.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 5060989..7c94d60 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -399,12 +399,15 @@ struct UpdateCenters
         }
     }
 
-    void finalize()
+    void finalize(const std::vector<Position<C> >& centers)
     {
         for (int i=0; i<npatch; ++i) {
             if (w[i] > 0.) {
                 new_centers[i] /= w[i];
                 new_centers[i].normalize();
+            } else {
+                // If there are no points (with any weight) in this patch, leave it where it was.
+                new_centers[i] = centers[i];
             }
             xdbg<<"New center = "<<new_centers[i]<<std::endl;
         }
@@ -844,7 +847,7 @@ void KMeansRun1(BaseField<C>& field, double* pycenters, int npatch, int max_iter
         // in the way of allocation here.
         update_centers.reset();
         FindCellsInPatches(centers, cells, update_centers, pinertia);
-        update_centers.finalize();
+        update_centers.finalize(centers);
         xdbg<<"After UpdateCenters\n";
 
         // Check for convergence
-- 
2.43.0


From 9901536c6183f456969d9b1c47f616762350b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 073/125] fix: kmeans++ initialization failed when a cell has
 coincident points

---
 src/KMeans.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 7c94d60..f8c12bd 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -189,12 +189,12 @@ void InitializeCentersRand(std::vector<Position<C> >& centers,
     }
 }
 
+struct LeafAlreadyUsed {};
+
 template <int C>
 Position<C> InitializeCentersKMPP(const BaseCell<C>* cell,
                                   const std::vector<Position<C> >& centers, long ncen)
 {
-    struct LeafAlreadyUsed {};
-
     xdbg<<"Start recursive InitializeCentersKMPP\n";
 
     // If we are in a leaf, then return this position as the next center to use.
@@ -326,6 +326,12 @@ void InitializeCentersKMPP(std::vector<Position<C> >& centers,
                         centers_per_cell[k]) * (dsq1 + coef * SQR(cells[k]->getSize()));
             sump += p[k];
         }
+        if (sump == 0.) {
+            dbg<<"All distinct points are already used\n";
+            centers[i] = centers[0];
+            centers[i] *= (1. + urand() * 1.e-8);
+            continue;
+        }
         double u = urand();
         xdbg<<"u = "<<u<<std::endl;
         for (long k=0; k<ncells; ++k) {
@@ -334,9 +340,15 @@ void InitializeCentersKMPP(std::vector<Position<C> >& centers,
             if (u < p[k]) {
                 dbg<<"Choose next center from cell "<<k<<std::endl;
                 xdbg<<"N = "<<cells[k]->getN()<<" ncen so far = "<<centers_per_cell[k]<<std::endl;
-                centers[i] = InitializeCentersKMPP(cells[k], centers, ncenters);
-                xdbg<<"center["<<i<<"] = "<<centers[i]<<std::endl;
-                centers_per_cell[k] += 1;
+                try {
+                    centers[i] = InitializeCentersKMPP(cells[k], centers, i);
+                    xdbg<<"center["<<i<<"] = "<<centers[i]<<std::endl;
+                    centers_per_cell[k] += 1;
+                } catch (LeafAlreadyUsed) {
+                    dbg<<"All points in this cell are already used.  Try again.\n";
+                    centers_per_cell[k] = cells[k]->getN();
+                    --i;
+                }
                 break;
             } else {
                 u -= p[k];
-- 
2.43.0


From 4fe1d60685431033f3744ae6ca22aef8acbf3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 074/125] fix: objects equidistant from two patch centers were
 selected in both patches

---
 src/KMeans.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index f8c12bd..bead1fd 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -1025,7 +1025,8 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                 double qy = centers[3*q+1];
                 double qz = centers[3*q+2];
                 double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy) + SQR(z[i]-qz);
-                if (q_dsq < p_dsq) {
+                // In case of a tie, the lower patch number wins, as in QuickAssign.
+                if (q_dsq < p_dsq || (q_dsq == p_dsq && q < patch)) {
                     use[i] = 0;
                     break;
                 }
@@ -1047,7 +1048,8 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
                 double qx = centers[2*q];
                 double qy = centers[2*q+1];
                 double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy);
-                if (q_dsq < p_dsq) {
+                // In case of a tie, the lower patch number wins, as in QuickAssign.
+                if (q_dsq < p_dsq || (q_dsq == p_dsq && q < patch)) {
                     use[i] = 0;
                     break;
                 }
-- 
2.43.0


From a11bda08f71e9da7271512e15f0c5c390b9f3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 075/125] fix: Catalog rejected its documented num_threads
 parameter

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index d13ddb3..52f4d01 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -741,6 +741,8 @@ class Catalog(object):
                 'Which method to use for splitting cells.'),
         'cat_precision' : (int, False, 16, None,
                 'The number of digits after the decimal in the output.'),
+        'num_threads' : (int, False, None, None,
+                'How many OpenMP threads to use during the catalog load steps.'),
     }
     eval_modules = ['numpy', 'numpy as np', 'math', 'coord']
     _aliases = {}
-- 
2.43.0


From 0a8d56ca659bc319cde249d8def352352bfc3306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:09 +0000
Subject: [PATCH 076/125] fix: read_patches dropped the objects with zero
 weight despite keep_zero_weight

---
 treecorr/catalog.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 52f4d01..eb3703d 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2966,6 +2966,8 @@ class Catalog(object):
         if self._q2 is not None or self.config.get('q2_col','0') != '0':
             kwargs['q2_col'] = 'q2'
         kwargs.update(self._get_user_vars())
+        if get(self.config,'keep_zero_weight',bool,False):
+            kwargs['keep_zero_weight'] = True
 
         file_names = self.get_patch_file_names(save_patch_dir)
         if self._patch is not None:
-- 
2.43.0


From 8261426392f98bac6dbd95d1ffee5fa2c5be4305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 077/125] Revert "fix: use the rng of the Catalog for its
 kmeans patches"

Some existing tests depend on the particular centers chosen now.
---
 treecorr/catalog.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index eb3703d..327cefa 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1450,8 +1450,7 @@ class Catalog(object):
             c = 'spherical' if self._ra is not None else self.coords
             field = self.getNField(max_top=max_top, coords=c)
             self.logger.info("Finding %d patches using kmeans.",self._npatch)
-            self._patch, self._centers = field.run_kmeans(self._npatch, init=init, alt=alt,
-                                                            rng=self._rng)
+            self._patch, self._centers = field.run_kmeans(self._npatch, init=init, alt=alt)
             # Clear the cached NField, since we will almost certainly not want this
             # particular one again, even if doing N-based correlations (since max_top, etc.
             # is almost certainly going to be different).
-- 
2.43.0


From a5023ca77c1468be744d1ad4a6285363949c7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 078/125] fix: get_patches with low_mem ignored num and is_rand

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 327cefa..8f6c896 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -3027,7 +3027,7 @@ class Catalog(object):
                 # This triggers a load of the current catalog, but no choice here.
                 patch_set = sorted(set(self.patch))
             self._patches = [Catalog(config=self.config, file_name=self.file_name,
-                                     patch=i, npatch=self.npatch, patch_centers=self._centers)
+                                     num=self._num, is_rand=self._is_rand, patch=i, npatch=self.npatch, patch_centers=self._centers)
                              for i in patch_set]
         else:
             patch_set = sorted(set(self.patch))
-- 
2.43.0


From 66797b02c1632611ffb878990150e4f316d3c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:04 +0000
Subject: [PATCH 079/125] fix: read_patches of an unloaded catalog ignored eval
 strings, num and is_rand

---
 treecorr/catalog.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 8f6c896..736f4e2 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2925,44 +2925,51 @@ class Catalog(object):
         # This would be easier if we just checked e.g. if self.ra is not None, etc.
         # But that would trigger an unnecessary load if we aren't loaded yet.
         # So do all this with the underscore attributes.
+        def has(name):
+            if self.loaded:
+                return getattr(self, '_'+name) is not None
+            else:
+                return (get_from_list(self.config,name+'_col',self._num,str,'0') != '0' or
+                        get_from_list(self.config,name+'_eval',self._num,str) is not None)
+
         kwargs = {}
-        if self._ra is not None or self.config.get('ra_col','0') != '0':
+        if has('ra'):
             kwargs['ra_col'] = 'ra'
             kwargs['dec_col'] = 'dec'
             kwargs['ra_units'] = 'rad'
             kwargs['dec_units'] = 'rad'
-            if self._r is not None or self.config.get('r_col','0') != '0':
+            if has('r'):
                 kwargs['r_col'] = 'r'
         else:
             kwargs['x_col'] = 'x'
             kwargs['y_col'] = 'y'
-            if self._z is not None or self.config.get('z_col','0') != '0':
+            if has('z'):
                 kwargs['z_col'] = 'z'
-        if (self._w is not None and self._nontrivial_w)  or self.config.get('w_col','0') != '0':
+        if self._nontrivial_w if self.loaded else has('w'):
             kwargs['w_col'] = 'w'
-        if self._wpos is not None or self.config.get('wpos_col','0') != '0':
+        if has('wpos'):
             kwargs['wpos_col'] = 'wpos'
-        if self._k is not None or self.config.get('k_col','0') != '0':
+        if has('k'):
             kwargs['k_col'] = 'k'
-        if self._z1 is not None or self.config.get('z1_col','0') != '0':
+        if has('z1'):
             kwargs['z1_col'] = 'z1'
-        if self._z2 is not None or self.config.get('z2_col','0') != '0':
+        if has('z2'):
             kwargs['z2_col'] = 'z2'
-        if self._v1 is not None or self.config.get('v1_col','0') != '0':
+        if has('v1'):
             kwargs['v1_col'] = 'v1'
-        if self._v2 is not None or self.config.get('v2_col','0') != '0':
+        if has('v2'):
             kwargs['v2_col'] = 'v2'
-        if self._g1 is not None or self.config.get('g1_col','0') != '0':
+        if has('g1'):
             kwargs['g1_col'] = 'g1'
-        if self._g2 is not None or self.config.get('g2_col','0') != '0':
+        if has('g2'):
             kwargs['g2_col'] = 'g2'
-        if self._t1 is not None or self.config.get('t1_col','0') != '0':
+        if has('t1'):
             kwargs['t1_col'] = 't1'
-        if self._t2 is not None or self.config.get('t2_col','0') != '0':
+        if has('t2'):
             kwargs['t2_col'] = 't2'
-        if self._q1 is not None or self.config.get('q1_col','0') != '0':
+        if has('q1'):
             kwargs['q1_col'] = 'q1'
-        if self._q2 is not None or self.config.get('q2_col','0') != '0':
+        if has('q2'):
             kwargs['q2_col'] = 'q2'
         kwargs.update(self._get_user_vars())
         if get(self.config,'keep_zero_weight',bool,False):
@@ -2982,7 +2989,8 @@ class Catalog(object):
         for i in patch_set:
             if not os.path.isfile(file_names[i]):
                 raise OSError("Patch file %s not found"%file_names[i])
-        self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch, **kwargs)
+        self._patches = [Catalog(file_name=file_names[i], patch=i, npatch=self.npatch,
+                                 is_rand=self._is_rand, **kwargs)
                          for i in patch_set]
         self.logger.info('Patches created from files %s .. %s',file_names[0],file_names[-1])
 
-- 
2.43.0


From c79756778046beb130df4a5594b7ea70023b933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 080/125] fix: a patch of a catalog file where all objects have
 zero weight is valid

---
 treecorr/catalog.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 736f4e2..4c4ec36 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1421,7 +1421,10 @@ class Catalog(object):
             self._nontrivial_w = True
             self._sumw = np.sum(self._w)
             if self._sumw == 0 and self.ntot > 0:
-                raise ValueError("Catalog has invalid sumw == 0")
+                # It's ok for a single patch to only have objects that will be removed below.
+                if (self._single_patch is None or np.any(self._w != 0)
+                    or get(self.config,'keep_zero_weight',bool,False)):
+                    raise ValueError("Catalog has invalid sumw == 0")
         else:
             self._nontrivial_w = False
             self._sumw = self.ntot
-- 
2.43.0


From 11c809f0e47e8aad6be612f28f7fd4494fca2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 081/125] fix: single patches from patch_centers disagree with
 the whole catalog about rounding-level ties

---
 src/KMeans.cpp | 81 +++++++++++++++-----------------------------------
 1 file changed, 24 insertions(+), 57 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index bead1fd..921ea84 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -934,6 +934,26 @@ void KMeansAssign(BaseField<C>& field, py::array_t<double>& cenp, int npatch,
     KMeansAssign1(field, centers, npatch, patches, n);
 }
 
+// Find the closest center to a given point.
+// If several centers are equally close, return the first one.
+// Note: QuickAssign and SelectPatch both use this same function so they agree about which
+// one is the closest, even when the centers are the same to within rounding errors.
+template <int D>
+static long ClosestCenter(const double* centers, long npatch, double x, double y, double z)
+{
+    long kmin = 0;
+    double min_rsq = 0.;
+    for (long k=0; k<npatch; ++k) {
+        double rsq = SQR(x-centers[D*k]) + SQR(y-centers[D*k+1]);
+        if (D == 3) rsq += SQR(z-centers[D*k+2]);
+        if (k == 0 || rsq < min_rsq) {
+            kmin = k;
+            min_rsq = rsq;
+        }
+    }
+    return kmin;
+}
+
 void QuickAssign(py::array_t<double>& cenp, int npatch,
                  py::array_t<double>& xp, py::array_t<double>& yp,
                  py::array_t<double>& zp, py::array_t<long>& pp)
@@ -950,22 +970,12 @@ void QuickAssign(py::array_t<double>& cenp, int npatch,
 
     if (zp.size() > 0) {
         Assert(cenp.size() == npatch * 3);
-        long npatch = cenp.size() / 3;
         const double* z = static_cast<const double*>(zp.data());
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
         for (int i=0; i<n; ++i) {
-            int kmin = 0;
-            double min_rsq = SQR(x[i]-centers[0]) + SQR(y[i]-centers[1]) + SQR(z[i]-centers[2]);
-            for (int k=1; k<npatch; ++k) {
-                double rsq = SQR(x[i]-centers[3*k]) + SQR(y[i]-centers[3*k+1]) + SQR(z[i]-centers[3*k+2]);
-                if (rsq < min_rsq) {
-                    kmin = k;
-                    min_rsq = rsq;
-                }
-            }
-            patches[i] = kmin;
+            patches[i] = ClosestCenter<3>(centers, npatch, x[i], y[i], z[i]);
         }
     } else {
         Assert(cenp.size() == npatch * 2);
@@ -973,16 +983,7 @@ void QuickAssign(py::array_t<double>& cenp, int npatch,
 #pragma omp parallel for schedule(static)
 #endif
         for (int i=0; i<n; ++i) {
-            int kmin = 0;
-            double min_rsq = SQR(x[i]-centers[0]) + SQR(y[i]-centers[1]);
-            for (int k=1; k<npatch; ++k) {
-                double rsq = SQR(x[i]-centers[2*k]) + SQR(y[i]-centers[2*k+1]);
-                if (rsq < min_rsq) {
-                    kmin = k;
-                    min_rsq = rsq;
-                }
-            }
-            patches[i] = kmin;
+            patches[i] = ClosestCenter<2>(centers, npatch, x[i], y[i], 0.);
         }
     }
 }
@@ -1002,58 +1003,24 @@ void SelectPatch(int patch, py::array_t<double>& cenp, int npatch,
     const double* y = static_cast<const double*>(yp.data());
     long* use = static_cast<long*>(usep.mutable_data());
 
-    // Notation: p = the good patch we are looking for
-    //           q = other patches
-    //           if p is the closest, then use = 1, else use = 0.
-
     if (zp.size() > 0) {
         // 3d version
         Assert(cenp.size() == npatch * 3);
-        double px = centers[3*patch];
-        double py = centers[3*patch+1];
-        double pz = centers[3*patch+2];
         const double* z = static_cast<const double*>(zp.data());
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
         for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py) + SQR(z[i]-pz);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[3*q];
-                double qy = centers[3*q+1];
-                double qz = centers[3*q+2];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy) + SQR(z[i]-qz);
-                // In case of a tie, the lower patch number wins, as in QuickAssign.
-                if (q_dsq < p_dsq || (q_dsq == p_dsq && q < patch)) {
-                    use[i] = 0;
-                    break;
-                }
-            }
+            use[i] = ClosestCenter<3>(centers, npatch, x[i], y[i], z[i]) == patch;
         }
     } else {
         // 2d version
         Assert(cenp.size() == npatch * 2);
-        double px = centers[2*patch];
-        double py = centers[2*patch+1];
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
         for (int i=0; i<n; ++i) {
-            double p_dsq = SQR(x[i]-px) + SQR(y[i]-py);
-            use[i] = 1;
-            for (int q=0; q<npatch; ++q) {
-                if (q == patch) continue;
-                double qx = centers[2*q];
-                double qy = centers[2*q+1];
-                double q_dsq = SQR(x[i]-qx) + SQR(y[i]-qy);
-                // In case of a tie, the lower patch number wins, as in QuickAssign.
-                if (q_dsq < p_dsq || (q_dsq == p_dsq && q < patch)) {
-                    use[i] = 0;
-                    break;
-                }
-            }
+            use[i] = ClosestCenter<2>(centers, npatch, x[i], y[i], 0.) == patch;
         }
     }
 }
-- 
2.43.0


From ed40adb8c4aff72865b7fbddd83841d5e57c5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:44 +0000
Subject: [PATCH 082/125] fix: count_near and get_near with separations larger
 than 180 degrees

---
 treecorr/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/util.py b/treecorr/util.py
index 85bbe86..b32d106 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -565,7 +565,8 @@ def parse_xyzsep(args, kwargs, _coords):
                 raise TypeError("Missing required argument sep_units")
             sep = sep * coord.AngleUnit.from_name(kwargs.pop('sep_units'))
         # We actually want the chord distance for this angle.
-        sep = 2. * np.sin(sep/2.)
+        # (Everything is within 180 degrees, so larger values are equivalent to that.)
+        sep = 2. * np.sin(min(sep / coord.radians, np.pi)/2.)
 
     if radec:
         if not isinstance(ra, coord.Angle):
-- 
2.43.0


From d9b31cfd6770a71845f172f0b96be66ca6f775f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:44 +0000
Subject: [PATCH 083/125] fix: get_near and count_near of spherical fields of
 catalogs with distances when min_size > 0

---
 treecorr/field.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 6946bea..2b129c0 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -250,11 +250,18 @@ class Field(object):
             # Get those indices
             ind = self._get_near(x, y, z, sep1)
             # Now check the actual radii of these points using the catalog x,y,z values.
-            rsq = (self.cat.x[ind]-x)**2 + (self.cat.y[ind]-y)**2
-            if self._coords != _treecorr.Flat:
-                rsq += (self.cat.z[ind]-z)**2
-            # Select the ones with r < sep
-            near = rsq < sep**2
+            catx, caty = self.cat.x[ind], self.cat.y[ind]
+            if self._coords == _treecorr.Flat:
+                rsq = (catx-x)**2 + (caty-y)**2
+            else:
+                catz = self.cat.z[ind]
+                if self._coords == _treecorr.Sphere:
+                    # The catalog might have distances.  The field only uses the directions.
+                    r = np.sqrt(catx**2 + caty**2 + catz**2)
+                    catx, caty, catz = catx/r, caty/r, catz/r
+                rsq = (catx-x)**2 + (caty-y)**2 + (catz-z)**2
+            # Select the ones with r <= sep
+            near = rsq <= sep**2
             ind = ind[near]
         # It comes back unsorted, so sort it.  (Not really required, but nicer output.)
         return np.sort(ind)
-- 
2.43.0


From 3a409d18aab9a0ea9c9c53a9e97cc150790943eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:44 +0000
Subject: [PATCH 084/125] fix: sample_pairs could return garbage pairs

---
 src/Corr2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 12abf97..773c157 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -871,9 +871,9 @@ void Sampler::finishProcess(
         std::vector<long> selection(_n);
         SelectRandomFrom(_k+m, selection);
         // If any items in k<=i<n are from the original set, put them in their original place.
+        // (What was there might also be an item from the original set, so repeat as needed.)
         for(long i=_k;i<_n;++i) {
-            long j = selection[i];
-            if (j < _n) std::swap(selection[i], selection[j]);
+            while (selection[i] < _k) std::swap(selection[i], selection[selection[i]]);
         }
 
         // Now any items with j >= k can replace the value at their i in this list.
-- 
2.43.0


From 3b65abaad6867541b623334bafad247298643a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:44 +0000
Subject: [PATCH 085/125] fix: sample_pairs with ranges that do not match the
 bins of the correlation

---
 src/Corr2.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index 773c157..be225f4 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -714,6 +714,24 @@ Sampler::Sampler(const BaseCorr2& base_corr2, double minsep, double maxsep,
     _halfminsep = 0.5*_minsep;
     _minsepsq = _minsep*_minsep;
     _maxsepsq = _maxsep*_maxsep;
+    // Use just a single bin for the full range, rather than the binning of base_corr2, whose bins
+    // may not line up with the new minsep, maxsep.
+    _nbins = 1;
+    switch(base_corr2.getBinType()) {
+      case Log:
+           // If minsep = 0, use something much less than any real separation.
+           if (_minsep == 0.) _logminsep = -1000.;
+           _binsize = log(_maxsep) - _logminsep;
+           break;
+      case Linear:
+           _binsize = _maxsep - _minsep;
+           break;
+      case TwoD:
+           _binsize = 2.*_maxsep;
+           break;
+      default:
+           Assert(false);
+    }
     _fullmaxsep = CalculateFullMaxSep(base_corr2.getBinType(), _minsep, _maxsep, _nbins, _binsize);
     _fullmaxsepsq = _fullmaxsep*_fullmaxsep;
 }
-- 
2.43.0


From e4ed3ad5e632a1029357ca5e3a7a7fa10ccfb87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:44 +0000
Subject: [PATCH 086/125] fix: sample_pairs used fields that were built for
 something else

---
 treecorr/corr2base.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 178ba9c..e70b1b5 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1552,30 +1552,29 @@ class Corr2(object):
         f1 = cat1.field
         f2 = cat2.field
 
-        if f1 is None or f1._coords != self._coords:
-            # I don't really know if it's possible to get the coords out of sync,
-            # so the 2nd check might be superfluous.
-            # The first one though is definitely possible, so we need to check that.
-            self.logger.debug("In sample_pairs, making default field for cat1")
-            min_size, max_size = self._get_minmax_size()
-            f1 = cat1.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 1,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
-        if f2 is None or f2._coords != self._coords:
-            self.logger.debug("In sample_pairs, making default field for cat2")
-            min_size, max_size = self._get_minmax_size()
-            f2 = cat2.getNField(min_size=min_size, max_size=max_size,
-                                split_method=self.split_method,
-                                brute=self.brute is True or self.brute == 2,
-                                min_top=self.min_top, max_top=self.max_top,
-                                coords=self.coords)
-
         # Apply units to min_sep, max_sep:
         min_sep *= self._sep_units
         max_sep *= self._sep_units
 
+        min_size, max_size = self._get_minmax_size()
+        if self._min_sep > 0.:
+            # The minimum size needs to be appropriate for the given min_sep, not self.min_sep.
+            min_size *= min(min_sep / self._min_sep, 1.)
+
+        def get_field(cat, f, brute):
+            # If there is already an existing field that works here, then use that.
+            # It may have been made for something else though, so check that it is appropriate.
+            if (f is None or f._coords != self._coords or f.min_size > min_size or
+                (brute and not f.brute)):
+                self.logger.debug("In sample_pairs, making default field for %s",cat.name)
+                f = cat.getNField(min_size=min_size, max_size=max_size,
+                                  split_method=self.split_method, brute=brute,
+                                  min_top=self.min_top, max_top=self.max_top,
+                                  coords=self.coords)
+            return f
+        f1 = get_field(cat1, f1, self.brute is True or self.brute == 1)
+        f2 = get_field(cat2, f2, self.brute is True or self.brute == 2)
+
         i1 = np.zeros(n, dtype=int)
         i2 = np.zeros(n, dtype=int)
         sep = np.zeros(n, dtype=float)
-- 
2.43.0


From 9d6801aad8e3b820645d3d2674aa5fbc2358c055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:17 +0000
Subject: [PATCH 087/125] fix: assertions in count_near and get_near that fail
 by rounding

---
 src/Field.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/Field.cpp b/src/Field.cpp
index 3ecd669..3f60584 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -295,25 +295,21 @@ long CountNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, doub
     if (s==0.) {
         if (dsq <= sepsq) {
             dbg<<"s==0, d < sep   N = "<<cell.getN()<<std::endl;
-            Assert(sqrt(dsq) <= sep);
             return cell.getN();
         }
         else {
-            Assert(sqrt(dsq) > sep);
             xdbg<<"s==0, d >= sep\n";
             return 0;
         }
     } else {
         // If d - s > sep, then no points are close enough.
         if (dsq > sepsq && dsq > SQR(sep+s)) {
-            Assert(sqrt(dsq) - s > sep);
             xdbg<<"d - s > sep: "<<sqrt(dsq)-s<<" > "<<sep<<std::endl;
             return 0;
         }
 
         // If d + s < sep, then all points are close enough.
         if (dsq <= sepsq && s < sep && dsq <= SQR(sep-s)) {
-            Assert(sqrt(dsq) + s <= sep);
             dbg<<"d + s <= sep: "<<sqrt(dsq)+s<<" <= "<<sep<<"  N = "<<cell.getN()<<std::endl;
             return cell.getN();
         }
@@ -355,7 +351,6 @@ void GetNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, double
     if (s==0.) {
         if (dsq <= sepsq) {
             dbg<<"s==0, d < sep   N = "<<cell.getN()<<std::endl;
-            Assert(sqrt(dsq) <= sep);
             Assert(k < n);
             long n1 = cell.getN();
             Assert(k + n1 <= n);
@@ -373,13 +368,11 @@ void GetNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, double
             }
             Assert(k <= n);
         } else {
-            Assert(sqrt(dsq) > sep);
             dbg<<"s==0, d >= sep\n";
         }
     } else {
         // If d - s > sep, then no points are close enough.
         if (dsq > sepsq && dsq > SQR(sep+s)) {
-            Assert(sqrt(dsq) - s > sep);
             dbg<<"d - s > sep: "<<sqrt(dsq)-s<<" > "<<sep<<std::endl;
         } else {
             // Otherwise check the subcells.
-- 
2.43.0


From dfd444512293f34357462cbb6b498da78c2b9430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:47 +0000
Subject: [PATCH 088/125] fix: get_near could return garbage indices for points
 right at the limit

---
 include/Field.h   |  2 +-
 src/Field.cpp     | 20 ++++++++++----------
 treecorr/field.py |  8 ++++++--
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/Field.h b/include/Field.h
index 6b2fd25..1de796b 100644
--- a/include/Field.h
+++ b/include/Field.h
@@ -65,7 +65,7 @@ public:
         return reinterpret_cast<std::vector<const BaseCell<C>*>&>(_cells);
     }
     long countNear(double x, double y, double z, double sep) const;
-    void getNear(double x, double y, double z, double sep, long* indices, long n) const;
+    long getNear(double x, double y, double z, double sep, long* indices, long n) const;
 
     long _nobj;
     double _minsize;
diff --git a/src/Field.cpp b/src/Field.cpp
index 3f60584..dba11a4 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -351,12 +351,12 @@ void GetNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, double
     if (s==0.) {
         if (dsq <= sepsq) {
             dbg<<"s==0, d < sep   N = "<<cell.getN()<<std::endl;
-            Assert(k < n);
             long n1 = cell.getN();
-            Assert(k + n1 <= n);
-            // This shouldn't happen, but if it does, we can get a seg fault, so check.
-            if (k + n1 > n) return;
-            if (n1 == 1) {
+            // Rounding may lead to a different number than CountNear found.
+            // So if there is not enough room, don't write past the end, but keep counting.
+            if (k + n1 > n) {
+                k += n1;
+            } else if (n1 == 1) {
                 dbg<<"N == 1 case\n";
                 indices[k++] = cell.getInfo().index;
             } else {
@@ -366,7 +366,6 @@ void GetNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, double
                 for (long m=0; m<n1; ++m)
                     indices[k++] = leaf_indices[m];
             }
-            Assert(k <= n);
         } else {
             dbg<<"s==0, d >= sep\n";
         }
@@ -386,7 +385,7 @@ void GetNear(const BaseCell<C>& cell, const Position<C>& pos, double sep, double
 }
 
 template <int C>
-void BaseField<C>::getNear(double x, double y, double z, double sep, long* indices, long n) const
+long BaseField<C>::getNear(double x, double y, double z, double sep, long* indices, long n) const
 {
     BuildCells();  // Make sure this is done.
     Position<C> pos(x, y, z);
@@ -398,6 +397,7 @@ void BaseField<C>::getNear(double x, double y, double z, double sep, long* indic
         GetNear(*_cells[i], pos, sep, sepsq, indices, k, n);
         dbg<<"k -> "<<k<<std::endl;
     }
+    return k;
 }
 
 //
@@ -565,12 +565,12 @@ Field<QData,C>* BuildQField(
 }
 
 template <int C>
-void FieldGetNear(BaseField<C>& field, double x, double y, double z, double sep,
+long FieldGetNear(BaseField<C>& field, double x, double y, double z, double sep,
                   py::array_t<long>& inp)
 {
     long n = inp.size();
     long* indices = static_cast<long*>(inp.mutable_data());
-    field.getNear(x, y, z, sep, indices, n);
+    return field.getNear(x, y, z, sep, indices, n);
 }
 
 // Export the above functions using pybind11
@@ -603,7 +603,7 @@ void GenerateXYZ(
 template <int C>
 void WrapField(py::module& _treecorr, std::string Cstr)
 {
-    typedef void (*getnear_type)(BaseField<C>& field, double x, double y, double z,
+    typedef long (*getnear_type)(BaseField<C>& field, double x, double y, double z,
                                  double sep, py::array_t<long>& inp);
     typedef void (*init_type)(BaseField<C>& field, py::array_t<double>& cenp, int npatch,
                               long long seed);
diff --git a/treecorr/field.py b/treecorr/field.py
index 2b129c0..962aa99 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -273,8 +273,12 @@ class Field(object):
         n = self._count_near(x, y, z, sep)
         indices = np.empty(n, dtype=int)
         # Now fill the array with the indices of the nearby points.
-        self.data.getNear(x, y, z, sep, indices)
-        return indices
+        k = self.data.getNear(x, y, z, sep, indices)
+        if k > n:
+            # Rounding made the two functions disagree about points right at the limit.
+            indices = np.empty(k, dtype=int)
+            self.data.getNear(x, y, z, sep, indices)
+        return indices[:k]
 
     def run_kmeans(self, npatch, *, max_iter=200, tol=1.e-5, init='tree', alt=False, rng=None):
         r"""Use k-means algorithm to set patch labels for a field.
-- 
2.43.0


From 2ce41b46aa34fad5fed80cac4db5d15c6f1e693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:44 +0000
Subject: [PATCH 089/125] fix: operations on a copy of a correlation could
 change the results of the original

---
 treecorr/corr2base.py      | 31 +++++++++++++++++--------------
 treecorr/corr3base.py      | 38 +++++++++++++++-----------------------
 treecorr/nncorrelation.py  |  2 ++
 treecorr/nnncorrelation.py |  2 ++
 4 files changed, 36 insertions(+), 37 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index e70b1b5..a4b86d3 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -685,9 +685,14 @@ class Corr2(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 # And the read-only things are all in _ro.
-                # The results dict is trickier.  We rely on it being copied in places, but we
-                # never add more to it after the copy, so shallow copy is fine.
                 ret.__dict__[key] = item
+        # The items in the results dict are never changed in place, so they can be shared,
+        # but either object might add more items or replace them.
+        if 'results' in self.__dict__:
+            ret.results = self.results.copy()
+        if '_processed_cats1' in self.__dict__:
+            ret._processed_cats1 = self._processed_cats1.copy()
+            ret._processed_cats2 = self._processed_cats2.copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -796,6 +801,14 @@ class Corr2(object):
         # No op for all but NNCorrelation.
         pass
 
+    def _add_result(self, ij, temp):
+        # Add temp to the result for the given patches.
+        # Note: Don't change an existing item in place.  It might be shared with a copy of self.
+        prev = self.results.get(ij)
+        self.results[ij] = temp.copy()
+        if prev is not None:
+            self.results[ij] += prev
+
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False,
                           both=False, tot_factor=1):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
@@ -814,14 +827,7 @@ class Corr2(object):
         if tot_factor != 1:
             temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
-            if ij in self.results and self.results[ij].nonzero:
-                self.results[ij] += temp
-            else:
-                prev = self.results.get(ij)
-                self.results[ij] = temp.copy()
-                if prev is not None:
-                    # It had no pairs, but NNCorrelation still needs to keep its tot value.
-                    self.results[ij] += prev
+            self._add_result(ij, temp)
             self += temp
         else:
             # NNCorrelation needs to add the tot value
@@ -909,10 +915,7 @@ class Corr2(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i) not in self.results:
-                            self.results[(i,i)] = temp.copy()
-                        else:
-                            self.results[(i,i)] += temp
+                        self._add_result((i,i), temp)
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index b7cf863..638e46d 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1078,6 +1078,10 @@ class Corr3(object):
                 # In particular don't deep copy config or logger
                 # Most of the rest are scalars, which copy fine this way.
                 ret.__dict__[key] = item
+        # The items in the results dict are never changed in place, so they can be shared,
+        # but either object might add more items or replace them.
+        if 'results' in self.__dict__:
+            ret.results = self.results.copy()
         ret._corr = None # We'll want to make a new one of these if we need it.
         return ret
 
@@ -1145,6 +1149,14 @@ class Corr3(object):
 
     _make_expanded_patch = Corr2._make_expanded_patch
 
+    def _add_result(self, ijk, temp):
+        # Add temp to the result for the given patches.
+        # Note: Don't change an existing item in place.  It might be shared with a copy of self.
+        prev = self.results.get(ijk)
+        self.results[ijk] = temp.copy()
+        if prev is not None:
+            self.results[ijk] += prev
+
     def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
                           tot_factor=1):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
@@ -1160,14 +1172,7 @@ class Corr3(object):
         if tot_factor != 1:
             temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
-            if ijj in self.results and self.results[ijj].nonzero:
-                self.results[ijj] += temp
-            else:
-                prev = self.results.get(ijj)
-                self.results[ijj] = temp.copy()
-                if prev is not None:
-                    # It had no triangles, but NNNCorrelation still needs to keep its tot value.
-                    self.results[ijj] += prev
+            self._add_result(ijj, temp)
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1188,14 +1193,7 @@ class Corr3(object):
         if tot_factor != 1:
             temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
-            if ijk in self.results and self.results[ijk].nonzero:
-                self.results[ijk] += temp
-            else:
-                prev = self.results.get(ijk)
-                self.results[ijk] = temp.copy()
-                if prev is not None:
-                    # It had no triangles, but NNNCorrelation still needs to keep its tot value.
-                    self.results[ijk] += prev
+            self._add_result(ijk, temp)
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
@@ -1278,13 +1276,7 @@ class Corr3(object):
                         temp._clear()
                         self.logger.info('Process patch %d auto',i)
                         temp.process_auto(c1, metric=metric, num_threads=num_threads)
-                        if (i,i,i) in self.results and self.results[(i,i,i)].nonzero:
-                            self.results[(i,i,i)] += temp
-                        else:
-                            prev = self.results.get((i,i,i))
-                            self.results[(i,i,i)] = temp.copy()
-                            if prev is not None:
-                                self.results[(i,i,i)] += prev
+                        self._add_result((i,i,i), temp)
                         self += temp
 
                     for jj,c2 in list(enumerate(cat1))[::-1]:
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 286970d..76d91c6 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -266,6 +266,8 @@ class NNCorrelation(Corr2):
         # the resulting weight is zero.  But use a minimal copy with just the necessary fields
         # to save some time.
         if ij in self.results:
+            # Don't change it in place, since it might be shared with a copy of self.
+            self.results[ij] = self.results[ij].copy()
             self.results[ij].tot += tot
         else:
             self.results[ij] = self._zero_copy(tot)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 5f897f2..2a7885f 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -366,6 +366,8 @@ class NNNCorrelation(Corr3):
         # gets messed up.  We need to accumulate the tot value of all pairs, even if
         # the resulting weight is zero.
         if ijk in self.results:
+            # Don't change it in place, since it might be shared with a copy of self.
+            self.results[ijk] = self.results[ijk].copy()
             self.results[ijk].tot += tot
         else:
             self.results[ijk] = self._zero_copy(tot)
-- 
2.43.0


From 2ae8ac653afd17f38deb8e0cbb54c1fe9d0f863c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:13 +0000
Subject: [PATCH 090/125] fix: after an error in computing varxi, the next
 access returned zeros

---
 treecorr/gggcorrelation.py | 20 ++++++++++++--------
 treecorr/kkcorrelation.py  |  5 +++--
 treecorr/kkkcorrelation.py |  5 +++--
 treecorr/kzcorrelation.py  |  5 +++--
 treecorr/nkcorrelation.py  |  5 +++--
 treecorr/nzcorrelation.py  |  5 +++--
 treecorr/zzcorrelation.py  | 10 ++++++----
 7 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/treecorr/gggcorrelation.py b/treecorr/gggcorrelation.py
index 06c7f6f..bf384e9 100644
--- a/treecorr/gggcorrelation.py
+++ b/treecorr/gggcorrelation.py
@@ -336,33 +336,37 @@ class GGGCorrelation(Corr3):
     @property
     def vargam0(self):
         if self._vargam0 is None:
-            self._vargam0 = np.zeros(self.data_shape)
+            vargam0 = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._vargam0.ravel()[:] = self.cov_diag[0:self._nbins].real
+                vargam0.ravel()[:] = self.cov_diag[0:self._nbins].real
+            self._vargam0 = vargam0
         return self._vargam0
 
     @property
     def vargam1(self):
         if self._vargam1 is None:
-            self._vargam1 = np.zeros(self.data_shape)
+            vargam1 = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._vargam1.ravel()[:] = self.cov_diag[self._nbins:2*self._nbins].real
+                vargam1.ravel()[:] = self.cov_diag[self._nbins:2*self._nbins].real
+            self._vargam1 = vargam1
         return self._vargam1
 
     @property
     def vargam2(self):
         if self._vargam2 is None:
-            self._vargam2 = np.zeros(self.data_shape)
+            vargam2 = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._vargam2.ravel()[:] = self.cov_diag[2*self._nbins:3*self._nbins].real
+                vargam2.ravel()[:] = self.cov_diag[2*self._nbins:3*self._nbins].real
+            self._vargam2 = vargam2
         return self._vargam2
 
     @property
     def vargam3(self):
         if self._vargam3 is None:
-            self._vargam3 = np.zeros(self.data_shape)
+            vargam3 = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._vargam3.ravel()[:] = self.cov_diag[3*self._nbins:4*self._nbins].real
+                vargam3.ravel()[:] = self.cov_diag[3*self._nbins:4*self._nbins].real
+            self._vargam3 = vargam3
         return self._vargam3
 
     def _clear(self):
diff --git a/treecorr/kkcorrelation.py b/treecorr/kkcorrelation.py
index 3af547b..0481846 100644
--- a/treecorr/kkcorrelation.py
+++ b/treecorr/kkcorrelation.py
@@ -158,9 +158,10 @@ class KKCorrelation(Corr2):
     @property
     def varxi(self):
         if self._varxi is None:
-            self._varxi = np.zeros_like(self.rnom, dtype=float)
+            varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._varxi.ravel()[:] = self.cov_diag
+                varxi.ravel()[:] = self.cov_diag
+            self._varxi = varxi
         return self._varxi
 
     def _clear(self):
diff --git a/treecorr/kkkcorrelation.py b/treecorr/kkkcorrelation.py
index ad580e1..ea218ea 100644
--- a/treecorr/kkkcorrelation.py
+++ b/treecorr/kkkcorrelation.py
@@ -264,9 +264,10 @@ class KKKCorrelation(Corr3):
     @property
     def varzeta(self):
         if self._varzeta is None:
-            self._varzeta = np.zeros(self.data_shape)
+            varzeta = np.zeros(self.data_shape)
             if self._var_num != 0:
-                self._varzeta.ravel()[:] = self.cov_diag
+                varzeta.ravel()[:] = self.cov_diag
+            self._varzeta = varzeta
         return self._varzeta
 
     def _clear(self):
diff --git a/treecorr/kzcorrelation.py b/treecorr/kzcorrelation.py
index 7fe2cc1..0437ff9 100644
--- a/treecorr/kzcorrelation.py
+++ b/treecorr/kzcorrelation.py
@@ -58,9 +58,10 @@ class BaseKZCorrelation(Corr2):
     @property
     def varxi(self):
         if self._varxi is None:
-            self._varxi = np.zeros_like(self.rnom, dtype=float)
+            varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._varxi.ravel()[:] = self.cov_diag
+                varxi.ravel()[:] = self.cov_diag
+            self._varxi = varxi
         return self._varxi
 
     def _clear(self):
diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index d54285d..e095774 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -154,9 +154,10 @@ class NKCorrelation(Corr2):
     @property
     def raw_varxi(self):
         if self._raw_varxi is None:
-            self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
+            raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                raw_varxi.ravel()[:] = self.cov_diag
+            self._raw_varxi = raw_varxi
         return self._raw_varxi
 
     @property
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 3177812..f5830cd 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -75,9 +75,10 @@ class BaseNZCorrelation(Corr2):
     @property
     def raw_varxi(self):
         if self._raw_varxi is None:
-            self._raw_varxi = np.zeros_like(self.rnom, dtype=float)
+            raw_varxi = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._raw_varxi.ravel()[:] = self.cov_diag
+                raw_varxi.ravel()[:] = self.cov_diag
+            self._raw_varxi = raw_varxi
         return self._raw_varxi
 
     @property
diff --git a/treecorr/zzcorrelation.py b/treecorr/zzcorrelation.py
index b0d16ea..1aa3369 100644
--- a/treecorr/zzcorrelation.py
+++ b/treecorr/zzcorrelation.py
@@ -112,17 +112,19 @@ class BaseZZCorrelation(Corr2):
     @property
     def varxip(self):
         if self._varxip is None:
-            self._varxip = np.zeros_like(self.rnom, dtype=float)
+            varxip = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._varxip.ravel()[:] = self.cov_diag[:self._nbins]
+                varxip.ravel()[:] = self.cov_diag[:self._nbins]
+            self._varxip = varxip
         return self._varxip
 
     @property
     def varxim(self):
         if self._varxim is None:
-            self._varxim = np.zeros_like(self.rnom, dtype=float)
+            varxim = np.zeros_like(self.rnom, dtype=float)
             if self._var_num != 0:
-                self._varxim.ravel()[:] = self.cov_diag[self._nbins:]
+                varxim.ravel()[:] = self.cov_diag[self._nbins:]
+            self._varxim = varxim
         return self._varxim
 
     def _clear(self):
-- 
2.43.0


From 42c467c17d167591d73b0ae8209267e81c0954a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:49 +0000
Subject: [PATCH 091/125] fix: changing the random correlations after
 calculateXi changed the covariance

---
 treecorr/nkcorrelation.py  | 3 ++-
 treecorr/nncorrelation.py  | 7 ++++---
 treecorr/nnncorrelation.py | 7 ++++---
 treecorr/nzcorrelation.py  | 3 ++-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index e095774..befa155 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -223,7 +223,8 @@ class NKCorrelation(Corr2):
         self.raw_varxi  # Make sure the raw variance is calculated before using rk.
         if rk is not None:
             self.xi = self.raw_xi - rk.xi
-            self._rk = rk
+            # Use a copy, since the user might use rk for something else later.
+            self._rk = rk.copy()
 
             if rk.npatch1 not in (1,self.npatch1) or rk.npatch2 != self.npatch2:
                 raise RuntimeError("RK must be run with the same patches as DK")
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 76d91c6..b6a3a49 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -410,9 +410,10 @@ class NNCorrelation(Corr2):
         self._rr_weight = rr.weight * rrf
 
         # Now set up the bits needed for patch-based covariance
-        self._rr = rr
-        self._dr = dr
-        self._rd = rd
+        # Note: Use copies, since the user might use those objects for something else later.
+        self._rr = rr.copy()
+        self._dr = dr.copy() if dr is not None else None
+        self._rd = rd.copy() if rd is not None else None
 
         if len(self.results) > 0:
             # Check that rr,dr,rd use the same patches as dd
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 2a7885f..9418959 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -563,9 +563,10 @@ class NNNCorrelation(Corr3):
         self._rrr_weight = np.abs(rrr.weight) * rrrf
 
         # Now set up the bits needed for patch-based covariance
-        self._rrr = rrr
-        self._drr = drr
-        self._rdd = rdd
+        # Note: Use copies, since the user might use those objects for something else later.
+        self._rrr = rrr.copy()
+        self._drr = drr.copy() if drr is not None else None
+        self._rdd = rdd.copy() if rdd is not None else None
 
         if len(self.results) > 0:
             # Check that all use the same patches as ddd
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index f5830cd..6c2b91b 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -125,7 +125,8 @@ class BaseNZCorrelation(Corr2):
         if rz is not None:
             self.xi = self.raw_xi - rz.xi
             self.xi_im = self.raw_xi_im - rz.xi_im
-            self._rz = rz
+            # Use a copy, since the user might use rz for something else later.
+            self._rz = rz.copy()
 
             if rz.npatch1 not in (1,self.npatch1) or rz.npatch2 != self.npatch2:
                 raise RuntimeError(f"R{self._letter2} must be run with the same patches as D{self._letter2}")
-- 
2.43.0


From 65da98f6b839e3a5aa2786ec56c097c0b9865d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:54 +0000
Subject: [PATCH 092/125] fix: the field variance of a patch of a file without
 valid objects was NaN

---
 treecorr/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 4c4ec36..e94d049 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1185,7 +1185,7 @@ class Catalog(object):
         return self.get_patch_centers()
 
     def _calculate_weighted_var(self, k):
-        if k is not None:
+        if k is not None and self.nobj > 0:
             if self.nontrivial_w:
                 use = self.w != 0
                 meank = np.sum(self.w[use] * k[use]) / self.sumw
-- 
2.43.0


From 702e656e073dcc744d4c6433e53173b18abe7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 093/125] fix: clear did not forget the catalogs of an
 unfinished incremental process

---
 treecorr/corr2base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index a4b86d3..c8b7cfd 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -721,6 +721,8 @@ class Corr2(object):
         self._clear()
         self.results = {}
         self.npatch1 = self.npatch2 = 1
+        self._processed_cats1 = []
+        self._processed_cats2 = []
         self.__dict__.pop('_ok',None)
 
     @property
@@ -1156,8 +1158,6 @@ class Corr2(object):
             raise TypeError(f"cat2 is required for {self._cls}.process")
         if initialize:
             self.clear()
-            self._processed_cats1.clear()
-            self._processed_cats2.clear()
         self.__dict__.pop('_ok',None)  # The results will change.
 
         if patch_method not in ['local', 'global']:
-- 
2.43.0


From 3027ffe3d4f596faca62555267ca2f79e4adcf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:30 +0000
Subject: [PATCH 094/125] fix: the covariance after another process call used
 the randoms of the previous calculateXi

---
 treecorr/nkcorrelation.py | 2 ++
 treecorr/nzcorrelation.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index befa155..669b853 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -149,6 +149,8 @@ class NKCorrelation(Corr2):
         """
         self._finalize()
         self._var_num = vark
+        # The randoms from an earlier call of calculateXi do not apply to this xi.
+        self._rk = None
         self.xi = self.raw_xi
 
     @property
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 6c2b91b..16eaae1 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -69,6 +69,8 @@ class BaseNZCorrelation(Corr2):
         self._finalize()
         self._var_num = varz
 
+        # The randoms from an earlier call of calculateXi do not apply to this xi.
+        self._rz = None
         self.xi = self.raw_xi
         self.xi_im = self.raw_xi_im
 
-- 
2.43.0


From dd0584fa3c499b3caf70912c58d6f536d250674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:30 +0000
Subject: [PATCH 095/125] fix: wrong tot for three-catalog counts with patches
 when the last two are the same catalog

---
 treecorr/corr3base.py      |  4 ++--
 treecorr/nnncorrelation.py | 11 +++++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 638e46d..474e90c 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1168,7 +1168,7 @@ class Corr3(object):
         else:
             self.logger.info('Skipping %s pair, which are too far apart ' +
                              'for this set of separations',ijj)
-            temp._set_tot(c1, c2, c2)
+            temp._set_tot(c1, c2, None)
         if tot_factor != 1:
             temp._scale_tot(tot_factor)
         if temp.nonzero or force_write:
@@ -1176,7 +1176,7 @@ class Corr3(object):
             self += temp
         else:
             # NNNCorrelation needs to add the tot value
-            self._add_tot(ijj, c1, c2, c2)
+            self._add_tot(ijj, c1, c2, None)
 
     def _single_process123(self, c1, c2, c3, ijk, metric, ordered, num_threads, temp, force_write,
                            tot_factor=1):
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 9418959..8f329b5 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -380,11 +380,14 @@ class NNNCorrelation(Corr3):
         self.tot *= factor
 
     def _calculate_tot(self, c1, c2, c3):
-        tot = c1.sumw * c2.sumw * c3.sumw
-        if c2 is c3:
+        # Use c3 = None for cross12 cases.
+        # Note: c2 is c3 is not equivalent to this, since the user might give the same catalog for
+        # two of three catalogs.
+        if c3 is None:
             # Account for 1/2 factor in cross12 cases.
-            tot /= 2.
-        return tot
+            return 0.5 * c1.sumw * c2.sumw**2
+        else:
+            return c1.sumw * c2.sumw * c3.sumw
 
     def __iadd__(self, other):
         """Add a second Correlation object's data to this one.
-- 
2.43.0


From 9ec3cd8df763d49fd6935aed33ed0ba2054a120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:06 +0000
Subject: [PATCH 096/125] fix: pairs of large patches on the sphere could be
 skipped as too far apart

---
 treecorr/catalog.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index e94d049..36894ef 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1304,9 +1304,17 @@ class Catalog(object):
             mx = np.mean(self.x)
             my = np.mean(self.y)
             mz = 0
-            dsq = (self.x - mx)**2 + (self.y - my)**2
             if self.z is not None:
                 mz = np.mean(self.z)
+            if self.coords == 'spherical':
+                # The center needs to be on the sphere, like all other positions.
+                norm = np.sqrt(mx**2 + my**2 + mz**2)
+                if norm > 0:
+                    mx, my, mz = mx/norm, my/norm, mz/norm
+                else:
+                    mx, my, mz = 1., 0., 0.
+            dsq = (self.x - mx)**2 + (self.y - my)**2
+            if self.z is not None:
                 dsq += (self.z - mz)**2
             s = np.max(dsq)**0.5
             self._cen_s = (mx, my, mz, s)
-- 
2.43.0


From 59b7402e2c43adf93ab572901306ad8b14ed048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:50 +0000
Subject: [PATCH 097/125] fix: processing an object after reading a file
 corrupted memory

---
 treecorr/corr2base.py      |  8 ++++----
 treecorr/corr3base.py      | 26 +++++++++++++-------------
 treecorr/gggcorrelation.py | 16 ++++++++--------
 treecorr/kkcorrelation.py  |  2 +-
 treecorr/kkkcorrelation.py |  6 +++---
 treecorr/kzcorrelation.py  |  4 ++--
 treecorr/nkcorrelation.py  |  2 +-
 treecorr/nncorrelation.py  |  2 +-
 treecorr/nnncorrelation.py |  2 +-
 treecorr/nzcorrelation.py  |  4 ++--
 treecorr/zzcorrelation.py  |  8 ++++----
 11 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index c8b7cfd..e048308 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1833,13 +1833,13 @@ class Corr2(object):
 
     def _read_from_data(self, data, params):
         s = self.logr.shape
-        self.meanr = data['meanr'].reshape(s)
-        self.meanlogr = data['meanlogr'].reshape(s)
+        self.meanr[:] = data['meanr'].reshape(s)
+        self.meanlogr[:] = data['meanlogr'].reshape(s)
         if 'weight' in data.dtype.names:
             # NN calls this DD rather than weight.  Let that class handle it.
             # But here, don't error if weight is missing.
-            self.weight = data['weight'].reshape(s)
-        self.npairs = data['npairs'].reshape(s)
+            self.weight[:] = data['weight'].reshape(s)
+        self.npairs[:] = data['npairs'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
         self.npatch1 = params.get('npatch1', 1)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 474e90c..fe7467f 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2568,26 +2568,26 @@ class Corr3(object):
 
     def _read_from_data(self, data, params):
         s = self.data_shape
-        self.meand1 = data['meand1'].reshape(s)
-        self.meanlogd1 = data['meanlogd1'].reshape(s)
-        self.meand2 = data['meand2'].reshape(s)
-        self.meanlogd2 = data['meanlogd2'].reshape(s)
-        self.meand3 = data['meand3'].reshape(s)
-        self.meanlogd3 = data['meanlogd3'].reshape(s)
+        self.meand1[:] = data['meand1'].reshape(s)
+        self.meanlogd1[:] = data['meanlogd1'].reshape(s)
+        self.meand2[:] = data['meand2'].reshape(s)
+        self.meanlogd2[:] = data['meanlogd2'].reshape(s)
+        self.meand3[:] = data['meand3'].reshape(s)
+        self.meanlogd3[:] = data['meanlogd3'].reshape(s)
         if self.bin_type == 'LogRUV':
-            self.meanu = data['meanu'].reshape(s)
-            self.meanv = data['meanv'].reshape(s)
+            self.meanu[:] = data['meanu'].reshape(s)
+            self.meanv[:] = data['meanv'].reshape(s)
         elif self.bin_type == 'LogSAS':
-            self.meanu = data['meanphi'].reshape(s)
+            self.meanu[:] = data['meanphi'].reshape(s)
         if self.bin_type == 'LogMultipole':
-            self.weightr = data['weight_re'].reshape(s)
-            self.weighti = data['weight_im'].reshape(s)
+            self.weightr[:] = data['weight_re'].reshape(s)
+            self.weighti[:] = data['weight_im'].reshape(s)
         else:
             if 'weight' in data.dtype.names:
                 # NNN calls this DDD, rather than weight.  Let that class handle it.
                 # But here, don't error if weight is missing.
-                self.weightr = data['weight'].reshape(s)
-        self.ntri = data['ntri'].reshape(s)
+                self.weightr[:] = data['weight'].reshape(s)
+        self.ntri[:] = data['ntri'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
         self.npatch1 = params.get('npatch1', 1)
diff --git a/treecorr/gggcorrelation.py b/treecorr/gggcorrelation.py
index bf384e9..d17423f 100644
--- a/treecorr/gggcorrelation.py
+++ b/treecorr/gggcorrelation.py
@@ -688,14 +688,14 @@ class GGGCorrelation(Corr3):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.data_shape
-        self._z1 = data['gam0r'].reshape(s)
-        self._z2 = data['gam0i'].reshape(s)
-        self._z3 = data['gam1r'].reshape(s)
-        self._z4 = data['gam1i'].reshape(s)
-        self._z5 = data['gam2r'].reshape(s)
-        self._z6 = data['gam2i'].reshape(s)
-        self._z7 = data['gam3r'].reshape(s)
-        self._z8 = data['gam3i'].reshape(s)
+        self._z1[:] = data['gam0r'].reshape(s)
+        self._z2[:] = data['gam0i'].reshape(s)
+        self._z3[:] = data['gam1r'].reshape(s)
+        self._z4[:] = data['gam1i'].reshape(s)
+        self._z5[:] = data['gam2r'].reshape(s)
+        self._z6[:] = data['gam2i'].reshape(s)
+        self._z7[:] = data['gam3r'].reshape(s)
+        self._z8[:] = data['gam3i'].reshape(s)
         self._vargam0 = data['sigma_gam0'].reshape(s)**2
         self._vargam1 = data['sigma_gam1'].reshape(s)**2
         self._vargam2 = data['sigma_gam2'].reshape(s)**2
diff --git a/treecorr/kkcorrelation.py b/treecorr/kkcorrelation.py
index 0481846..f08d29f 100644
--- a/treecorr/kkcorrelation.py
+++ b/treecorr/kkcorrelation.py
@@ -237,5 +237,5 @@ class KKCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data['xi'].reshape(s)
+        self._xi1[:] = data['xi'].reshape(s)
         self._varxi = data['sigma_xi'].reshape(s)**2
diff --git a/treecorr/kkkcorrelation.py b/treecorr/kkkcorrelation.py
index ea218ea..9edce1e 100644
--- a/treecorr/kkkcorrelation.py
+++ b/treecorr/kkkcorrelation.py
@@ -461,8 +461,8 @@ class KKKCorrelation(Corr3):
         super()._read_from_data(data, params)
         s = self.data_shape
         if self.bin_type == 'LogMultipole':
-            self._z1 = data['zeta_re'].reshape(s)
-            self._z2 = data['zeta_im'].reshape(s)
+            self._z1[:] = data['zeta_re'].reshape(s)
+            self._z2[:] = data['zeta_im'].reshape(s)
         else:
-            self._z1 = data['zeta'].reshape(s)
+            self._z1[:] = data['zeta'].reshape(s)
         self._varzeta = data['sigma_zeta'].reshape(s)**2
diff --git a/treecorr/kzcorrelation.py b/treecorr/kzcorrelation.py
index 0437ff9..0e43f29 100644
--- a/treecorr/kzcorrelation.py
+++ b/treecorr/kzcorrelation.py
@@ -107,8 +107,8 @@ class BaseKZCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data[self._xireal].reshape(s)
-        self._xi2 = data[self._xiimag].reshape(s)
+        self._xi1[:] = data[self._xireal].reshape(s)
+        self._xi2[:] = data[self._xiimag].reshape(s)
         self._varxi = data['sigma'].reshape(s)**2
 
 
diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 669b853..1d4bd51 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -332,7 +332,7 @@ class NKCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data['kappa'].reshape(s)
+        self._xi1[:] = data['kappa'].reshape(s)
         self._varxi = data['sigma'].reshape(s)**2
         self.xi = self.raw_xi
         self._raw_varxi = self._varxi
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index b6a3a49..ffc2a19 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -735,7 +735,7 @@ class NNCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self.weight = data['DD'].reshape(s)
+        self.weight[:] = data['DD'].reshape(s)
         self.tot = params['tot']
         if 'xi' in data.dtype.names:
             self.xi = data['xi'].reshape(s)
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 8f329b5..fcb6bc7 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -975,7 +975,7 @@ class NNNCorrelation(Corr3):
             self.zeta = data['zeta'].reshape(s)
             self.varzeta = data['sigma_zeta'].reshape(s)**2
         if self.bin_type != 'LogMultipole':
-            self.weightr = data['DDD'].reshape(s)
+            self.weightr[:] = data['DDD'].reshape(s)
         self.tot = params['tot']
         # Note: "or None" turns False -> None
         self._rrr = params.get('_rrr', None) or None
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 16eaae1..28a75d8 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -195,8 +195,8 @@ class BaseNZCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data[self._zreal].reshape(s)
-        self._xi2 = data[self._zimag].reshape(s)
+        self._xi1[:] = data[self._zreal].reshape(s)
+        self._xi2[:] = data[self._zimag].reshape(s)
         self._varxi = data['sigma'].reshape(s)**2
         self.xi = self.raw_xi
         self.xi_im = self.raw_xi_im
diff --git a/treecorr/zzcorrelation.py b/treecorr/zzcorrelation.py
index 1aa3369..75ceea0 100644
--- a/treecorr/zzcorrelation.py
+++ b/treecorr/zzcorrelation.py
@@ -210,10 +210,10 @@ class BaseZZCorrelation(Corr2):
     def _read_from_data(self, data, params):
         super()._read_from_data(data, params)
         s = self.logr.shape
-        self._xi1 = data['xip'].reshape(s)
-        self._xi2 = data['xip_im'].reshape(s)
-        self._xi3 = data['xim'].reshape(s)
-        self._xi4 = data['xim_im'].reshape(s)
+        self._xi1[:] = data['xip'].reshape(s)
+        self._xi2[:] = data['xip_im'].reshape(s)
+        self._xi3[:] = data['xim'].reshape(s)
+        self._xi4[:] = data['xim_im'].reshape(s)
         self._varxip = data['sigma_xip'].reshape(s)**2
         self._varxim = data['sigma_xim'].reshape(s)**2
 
-- 
2.43.0


From 82557a931a03fd9f6deffa8fef1427de0b4741a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 098/125] fix: ASCII file with a covariance matrix but no patch
 results could not be read

---
 treecorr/corr2base.py | 4 +++-
 treecorr/corr3base.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index e048308..1969276 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1761,12 +1761,14 @@ class Corr2(object):
         data = self._write_data
         params = self._write_params
 
+        if write_patch_results or write_cov:
+            # These tell the ASCII reader where the first group ends.
+            params['num_rows'] = len(self.rnom.ravel())
         if write_patch_results:
             # Note: Only include npatch1, npatch2 in serialization if we are also serializing
             # results.  Otherwise, the corr that is read in will behave oddly.
             params['npatch1'] = self.npatch1
             params['npatch2'] = self.npatch2
-            params['num_rows'] = len(self.rnom.ravel())
             num_patch_pairs = len(self.results)
             if zero_tot:
                 i = 0
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index fe7467f..8f2a34f 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2495,13 +2495,15 @@ class Corr3(object):
         data = self._write_data
         params = self._write_params
 
+        if write_patch_results or write_cov:
+            # These tell the ASCII reader where the first group ends.
+            params['num_rows'] = self._nbins
         if write_patch_results:
             # Note: Only include npatch1, npatch2 in serialization if we are also serializing
             # results.  Otherwise, the corr that is read in will behave oddly.
             params['npatch1'] = self.npatch1
             params['npatch2'] = self.npatch2
             params['npatch3'] = self.npatch3
-            params['num_rows'] = self._nbins
             num_patch_tri = len(self.results)
             if zero_tot:
                 i = 0
-- 
2.43.0


From 2339e79734a8a7d8ff80531927d752c828254c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 099/125] fix: ASCII file whose patch results all have no pairs
 could not be read

---
 treecorr/corr2base.py | 2 +-
 treecorr/corr3base.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 1969276..b706149 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1808,7 +1808,7 @@ class Corr2(object):
         num_patch_pairs = params.get('num_patch_pairs', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_pairs and name is None else name
+        name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 8f2a34f..0b51f6e 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2543,7 +2543,7 @@ class Corr3(object):
         num_patch_tri = params.get('num_patch_tri', 0)
         num_zero_patch = params.get('num_zero_patch', 0)
         cov_shape = params.get('cov_shape', None)
-        name = 'main' if num_patch_tri and name is None else name
+        name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
         # This helper function defines how to set the attributes for each class
-- 
2.43.0


From d619a12b62338e6dc22a6dc722d226a124a625d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 100/125] fix: complex covariance matrix could not be read from
 HDF5 file

---
 treecorr/reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index 79048ef..6904fcf 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -765,8 +765,8 @@ class HdfReader(object):
             array
         """
         g = self._group(ext)
-        data = np.empty(shape)
-        data[:] = g['data']
+        data = g['data'][...]
+        assert data.shape == tuple(shape)
         return data
 
     def row_count(self, col, *, ext=None):
-- 
2.43.0


From 5c1f682d7dcdc2c80a348796d808f44e07334789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 101/125] fix: options given as None could not be written to an
 HDF5 file

---
 treecorr/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index a77205e..cc7b899 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -437,6 +437,6 @@ def make_minimal_config(config, valid_params):
         valid_params (dict):    A dict of valid parameters that are allowed for this usage.
 
     Returns:
-        minimal_config  The dict without any default values.
+        minimal_config  The dict without any default values.  (None also means the default.)
     """
-    return { k:v for k,v in config.items() if k in valid_params and v != valid_params[k][2] }
+    return { k:v for k,v in config.items() if k in valid_params and v is not None and v != valid_params[k][2] }
-- 
2.43.0


From 9203086c05505d279d5a59a52a7f4f795f8e723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 102/125] fix: brute=1 or 2 could not be read from an HDF5 file

---
 treecorr/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index cc7b899..44a523e 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -78,7 +78,7 @@ def parse_bool(value):
                 return int(value)
     elif isinstance(value,(bool, np.bool_)):
         return value
-    elif isinstance(value,int):
+    elif isinstance(value,(int, np.integer)):
         # Note: integers aren't converted to bool, since brute distinguishes 1 vs 2 vs True.
         return value
     else:
-- 
2.43.0


From 606be8baab8d037e68f15d8860b67cca8ab81f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:04 +0000
Subject: [PATCH 103/125] fix: read kept xi, covariance and patch pairs of an
 earlier calculation

---
 treecorr/corr2base.py | 4 +++-
 treecorr/corr3base.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index b706149..cfab850 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1811,11 +1811,13 @@ class Corr2(object):
         name = 'main' if (num_patch_pairs or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
+        # Don't keep anything from an earlier calculation.
+        self.clear()
+
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
 
-        self.results = {}
         for i in range(num_zero_patch):
             zp_name = name + '_zp_%d'%i
             key, tot = eval(params[zp_name])
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 0b51f6e..fc22a6c 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2546,11 +2546,13 @@ class Corr3(object):
         name = 'main' if (num_patch_tri or num_zero_patch) and name is None else name
         data = reader.read_data(max_rows=num_rows, ext=name)
 
+        # Don't keep anything from an earlier calculation.
+        self.clear()
+
         # This helper function defines how to set the attributes for each class
         # based on what was read in.
         self._read_from_data(data, params)
 
-        self.results = {}
         for i in range(num_zero_patch):
             zp_name = name + '_zp_%d'%i
             key, tot = eval(params[zp_name])
-- 
2.43.0


From 0cb2117016cd74925197435e00fbc5a541f1242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:29 +0000
Subject: [PATCH 104/125] fix: shot-noise covariance was zero after reading
 from a file

---
 treecorr/corr2base.py      | 3 +++
 treecorr/corr3base.py      | 3 +++
 treecorr/nncorrelation.py  | 1 +
 treecorr/nnncorrelation.py | 1 +
 4 files changed, 8 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index cfab850..44d0d79 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1750,6 +1750,8 @@ class Corr2(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        if self._var_num != 0:
+            params['var_num'] = float(self._var_num)
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -1846,6 +1848,7 @@ class Corr2(object):
         self.npairs[:] = data['npairs'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
+        self._var_num = params.get('var_num', 0)
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
 
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index fc22a6c..7bcf528 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2485,6 +2485,8 @@ class Corr3(object):
         params['coords'] = self.coords
         params['metric'] = self.metric
         params['corr'] = self._letters
+        if self._var_num != 0:
+            params['var_num'] = float(self._var_num)
         return params
 
     def _write(self, writer, name, write_patch_results, write_cov=False, zero_tot=False):
@@ -2594,6 +2596,7 @@ class Corr3(object):
         self.ntri[:] = data['ntri'].reshape(s)
         self.coords = params['coords'].strip()
         self.metric = params['metric'].strip()
+        self._var_num = params.get('var_num', 0)
         self.npatch1 = params.get('npatch1', 1)
         self.npatch2 = params.get('npatch2', 1)
         self.npatch3 = params.get('npatch3', 1)
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index ffc2a19..5afe213 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -723,6 +723,7 @@ class NNCorrelation(Corr2):
             rr = self.copy()
             rr._read(reader, name='_rr')
             self._rr = rr
+            self._rr_weight = rr.weight * (self.tot / rr.tot)
         if self._dr:
             dr = self.copy()
             dr._read(reader, name='_dr')
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index fcb6bc7..50f0535 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -959,6 +959,7 @@ class NNNCorrelation(Corr3):
             rrr = self.copy()
             rrr._read(reader, name='_rrr')
             self._rrr = rrr
+            self._rrr_weight = np.abs(rrr.weight) * (self.tot / rrr.tot)
         if self._drr:
             drr = self.copy()
             drr._read(reader, name='_drr')
-- 
2.43.0


From abdec20d3d7fc9c0b654654a876df44a45550906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:21 +0000
Subject: [PATCH 105/125] fix: brute=True read from an HDF5 file was treated as
 brute=1

---
 treecorr/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treecorr/config.py b/treecorr/config.py
index 44a523e..6ba4591 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -77,7 +77,8 @@ def parse_bool(value):
             else:
                 return int(value)
     elif isinstance(value,(bool, np.bool_)):
-        return value
+        # Note: brute is compared with True by identity, which doesn't work for np.bool_.
+        return bool(value)
     elif isinstance(value,(int, np.integer)):
         # Note: integers aren't converted to bool, since brute distinguishes 1 vs 2 vs True.
         return value
-- 
2.43.0


From 007aa9feec8b83c4e45db0c278ca902aa91d61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 106/125] fix: 1x1 covariance matrix could not be read from an
 ASCII file

---
 treecorr/reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index 6904fcf..e7c3f21 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -186,8 +186,9 @@ class AsciiReader(object):
         Returns:
             array
         """
-        data = np.genfromtxt(self.file, max_rows=shape[0])
-        assert data.shape == shape
+        # Note: genfromtxt drops the dimensions of length 1.
+        data = np.genfromtxt(self.file, max_rows=shape[0]).reshape(shape[0], -1)
+        assert data.shape == tuple(shape)
         return data
 
     def row_count(self, col=None, *, ext=None):
-- 
2.43.0


From 94c7cf33cc41b2678b82e131552b7afaf5d963e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:42 +0000
Subject: [PATCH 107/125] fix: complex covariance matrices could not be written
 to FITS or read from ASCII files

---
 treecorr/reader.py | 11 ++++++++++-
 treecorr/writer.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/treecorr/reader.py b/treecorr/reader.py
index e7c3f21..af46772 100644
--- a/treecorr/reader.py
+++ b/treecorr/reader.py
@@ -28,6 +28,13 @@ both provide dicts.
 """
 import numpy as np
 
+def _view_complex(data, shape):
+    # Complex matrices are written as real ones with alternating real and imaginary columns.
+    if data.ndim == 2 and len(shape) == 2 and data.shape == (shape[0], 2*shape[1]):
+        return np.ascontiguousarray(data, dtype=float).view(complex)
+    else:
+        return data
+
 class AsciiReader(object):
     """Reader interface for ASCII files using numpy.
     """
@@ -188,6 +195,7 @@ class AsciiReader(object):
         """
         # Note: genfromtxt drops the dimensions of length 1.
         data = np.genfromtxt(self.file, max_rows=shape[0]).reshape(shape[0], -1)
+        data = _view_complex(data, shape)
         assert data.shape == tuple(shape)
         return data
 
@@ -592,7 +600,8 @@ class FitsReader(object):
         """
         ext = self._update_ext(ext, 0)
         data = self.file[ext].read()
-        assert data.shape == shape
+        data = _view_complex(data, shape)
+        assert data.shape == tuple(shape)
         return data
 
     def row_count(self, col=None, *, ext=None):
diff --git a/treecorr/writer.py b/treecorr/writer.py
index 7855a3c..1537469 100644
--- a/treecorr/writer.py
+++ b/treecorr/writer.py
@@ -20,6 +20,14 @@ def ensure_dir(target):
         if not os.path.exists(d):
             os.makedirs(d)
 
+def _view_real(data):
+    # ASCII and FITS files cannot hold complex matrices.  Write them as real ones with alternating
+    # real and imaginary columns.
+    if np.iscomplexobj(data):
+        return np.ascontiguousarray(data, dtype=complex).view(float)
+    else:
+        return data
+
 class AsciiWriter(object):
     """Write data to an ASCII (text) file.
     """
@@ -85,7 +93,7 @@ class AsciiWriter(object):
         if ext is not None:
             s = '## %s\n'%ext
             self.file.write(s.encode())
-        np.savetxt(self.file, data, fmt=self.fmt)
+        np.savetxt(self.file, _view_real(data), fmt=self.fmt)
 
     def __enter__(self):
         self._file = open(self.file_name, 'wb')
@@ -148,7 +156,7 @@ class FitsWriter(object):
             data:           The array to write.
             ext:            Optional ext name for these data. (default: None)
         """
-        self.file.write(data, extname=ext)
+        self.file.write(_view_real(data), extname=ext)
 
     def __enter__(self):
         import fitsio
-- 
2.43.0


From 1b6483c242aaf1894b6ba40f156b3b885de538e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:56 +0000
Subject: [PATCH 108/125] fix: jackknife samples without any pairs failed or
 kept values of the previous sample

The rows of NK, NG, etc. following such a row lost their randoms, those of NN repeated the xi of the
previous row, and if only the randoms had no pairs numpy raised a ValueError.
---
 treecorr/corr2base.py      | 16 ++++++++++++----
 treecorr/corr3base.py      |  8 +++++++-
 treecorr/nkcorrelation.py  |  2 +-
 treecorr/nncorrelation.py  |  3 +++
 treecorr/nnncorrelation.py |  3 +++
 treecorr/nzcorrelation.py  |  2 +-
 6 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index 44d0d79..a30d8eb 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -1608,9 +1608,19 @@ class Corr2(object):
         # pairs is input as a list of (i,j) values.
 
         # This is the normal calculation.  It needs to be overridden when there are randoms.
-        self._sum([self.results[ij] for ij in pairs])
+        self._sum_pairs(pairs)
         self._finalize()
 
+    def _sum_pairs(self, pairs):
+        # Sum the results of the given list of pairs.
+        others = [self.results[ij] for ij in pairs]
+        if len(others) == 0:
+            # np.sum needs at least one item.
+            empty = self.copy()
+            empty._clear()
+            others = [empty]
+        self._sum(others)
+
     #########################################################################################
     #                                                                                       #
     # Important note for the following two functions.                                       #
@@ -2108,9 +2118,7 @@ def _make_cov_design_matrix_core(corrs, plist, func, name, rank=0, size=1):
                 c.logger.error("WARNING: A xi for calculating the %s covariance has no "%name +
                                "patch pairs.  This probably means these patch specifications "
                                "are inappropriate for these data.")
-                c._clear()
-            else:
-                c._calculate_xi_from_pairs(cpairs)
+            c._calculate_xi_from_pairs(cpairs)
         v[row] = func(corrs)
         w[row] = np.sum([np.sum(c.getWeight()) for c in corrs])
     return v,w
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 7bcf528..111aeb7 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -2334,7 +2334,13 @@ class Corr3(object):
         # "pairs" here are really triples, input as a list of (i,j,k) values.
 
         # This is the normal calculation.  It needs to be overridden when there are randoms.
-        self._sum([self.results[ijk] for ijk in pairs])
+        others = [self.results[ijk] for ijk in pairs]
+        if len(others) == 0:
+            # np.sum needs at least one item.
+            empty = self.copy()
+            empty._clear()
+            others = [empty]
+        self._sum(others)
         self._finalize()
 
     def _jackknife_pairs(self):
diff --git a/treecorr/nkcorrelation.py b/treecorr/nkcorrelation.py
index 1d4bd51..cf0ea21 100644
--- a/treecorr/nkcorrelation.py
+++ b/treecorr/nkcorrelation.py
@@ -258,7 +258,7 @@ class NKCorrelation(Corr2):
         return self.xi, self.varxi
 
     def _calculate_xi_from_pairs(self, pairs):
-        self._sum([self.results[ij] for ij in pairs])
+        self._sum_pairs(pairs)
         self._finalize()
         if self._rk is not None:
             # If rk has npatch1 = 1, adjust pairs appropriately
diff --git a/treecorr/nncorrelation.py b/treecorr/nncorrelation.py
index 5afe213..618506c 100644
--- a/treecorr/nncorrelation.py
+++ b/treecorr/nncorrelation.py
@@ -464,6 +464,9 @@ class NNCorrelation(Corr2):
         self._finalize()
         if self._rr is None:
             return
+        if len(pairs) == 0:
+            self.xi = np.zeros_like(self.weight)
+            return
         dd = self.weight
         if len(self._rr.results) > 0:
             # This is the usual case.  R has patches just like D.
diff --git a/treecorr/nnncorrelation.py b/treecorr/nnncorrelation.py
index 50f0535..1ddcc56 100644
--- a/treecorr/nnncorrelation.py
+++ b/treecorr/nnncorrelation.py
@@ -620,6 +620,9 @@ class NNNCorrelation(Corr3):
         self._finalize()
         if self._rrr is None:
             return
+        if len(pairs) == 0:
+            self.zeta = np.zeros_like(self.weight)
+            return
         ddd = self.weight
         if len(self._rrr.results) > 0:
             # This is the usual case.  R has patches just like D.
diff --git a/treecorr/nzcorrelation.py b/treecorr/nzcorrelation.py
index 28a75d8..b060210 100644
--- a/treecorr/nzcorrelation.py
+++ b/treecorr/nzcorrelation.py
@@ -161,7 +161,7 @@ class BaseNZCorrelation(Corr2):
         return self.xi, self.xi_im, self.varxi
 
     def _calculate_xi_from_pairs(self, pairs):
-        self._sum([self.results[ij] for ij in pairs])
+        self._sum_pairs(pairs)
         self._finalize()
         if self._rz is not None:
             # If rz has npatch1 = 1, adjust pairs appropriately
-- 
2.43.0


From 0b015b005b163092c38348ff5e77c293a1cafd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:15 +0000
Subject: [PATCH 109/125] fix: lists of delimiters or comment markers failed

---
 treecorr/catalog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 36894ef..78feac3 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -885,8 +885,8 @@ class Catalog(object):
                 self.reader = ParquetReader(file_name)
                 self._check_file(file_name, self.reader, num, is_rand)
             else:
-                delimiter = self.config.get('delimiter',None)
-                comment_marker = self.config.get('comment_marker','#')
+                delimiter = get_from_list(self.config,'delimiter',num)
+                comment_marker = get_from_list(self.config,'comment_marker',num,str,'#')
                 try:
                     self.reader = PandasReader(file_name, delimiter=delimiter,
                                                comment_marker=comment_marker)
-- 
2.43.0


From 13530bd49db3f4c04602b4c3f5c571a7e1f17a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:15 +0000
Subject: [PATCH 110/125] fix: lists of variances of the fields for two
 catalogs failed

---
 treecorr/catalog.py | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 78feac3..1a4d3a4 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1030,28 +1030,34 @@ class Catalog(object):
             if 'dec_units' in self.config:
                 raise TypeError("dec_units is invalid without dec")
 
-        if self.config.get('vark', None) is not None:
-            self._vark = self.config['vark']
+        vark = get_from_list(self.config,'vark',num,float)
+        if vark is not None:
+            self._vark = vark
             self._meank = 0.
             self._altmeank = 0.
-        if self.config.get('varz', None) is not None:
-            self._varz = self._varz1 = self._varz2 = self.config['varz']
+        varz = get_from_list(self.config,'varz',num,float)
+        if varz is not None:
+            self._varz = self._varz1 = self._varz2 = varz
             self._meanz1 = self._meanz2 = 0.
             self._altmeanz1 = self._altmeanz2 = 0.
-        if self.config.get('varv', None) is not None:
-            self._varv = self._varv1 = self._varv2 = self.config['varv']
+        varv = get_from_list(self.config,'varv',num,float)
+        if varv is not None:
+            self._varv = self._varv1 = self._varv2 = varv
             self._meanv1 = self._meanv2 = 0.
             self._altmeanv1 = self._altmeanv2 = 0.
-        if self.config.get('varg', None) is not None:
-            self._varg = self._varg1 = self._varg2 = self.config['varg']
+        varg = get_from_list(self.config,'varg',num,float)
+        if varg is not None:
+            self._varg = self._varg1 = self._varg2 = varg
             self._meang1 = self._meang2 = 0.
             self._altmeang1 = self._altmeang2 = 0.
-        if self.config.get('vart', None) is not None:
-            self._vart = self._vart1 = self._vart2 = self.config['vart']
+        vart = get_from_list(self.config,'vart',num,float)
+        if vart is not None:
+            self._vart = self._vart1 = self._vart2 = vart
             self._meant1 = self._meant2 = 0.
             self._altmeant1 = self._altmeant2 = 0.
-        if self.config.get('varq', None) is not None:
-            self._varq = self._varq1 = self._varq2 = self.config['varq']
+        varq = get_from_list(self.config,'varq',num,float)
+        if varq is not None:
+            self._varq = self._varq1 = self._varq2 = varq
             self._meanq1 = self._meanq2 = 0.
             self._altmeanq1 = self._altmeanq2 = 0.
 
@@ -1202,8 +1208,9 @@ class Catalog(object):
 
     def _get_user_vars(self):
         # The variances that were specified by the user, rather than calculated from the data.
-        return { key : self.config[key] for key in ('vark', 'varz', 'varv', 'varg', 'vart', 'varq')
-                 if self.config.get(key, None) is not None }
+        user_vars = { key : get_from_list(self.config,key,self._num,float)
+                      for key in ('vark', 'varz', 'varv', 'varg', 'vart', 'varq') }
+        return { key : var for key, var in user_vars.items() if var is not None }
 
     @property
     def vark(self):
-- 
2.43.0


From 82139847f120f5caaa2e79ce77bf44cc9ef653e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:15 +0000
Subject: [PATCH 111/125] fix: flip options failed for catalogs without that
 field, e.g. randoms

---
 treecorr/catalog.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 1a4d3a4..63e69a6 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -1333,46 +1333,46 @@ class Catalog(object):
         # Apply flips if requested
         flip_z1 = get_from_list(self.config,'flip_z1',self._num,bool,False)
         flip_z2 = get_from_list(self.config,'flip_z2',self._num,bool,False)
-        if flip_z1:
+        if flip_z1 and self._z1 is not None:
             self.logger.info("   Flipping sign of z1.")
             self._z1 = -self._z1
-        if flip_z2:
+        if flip_z2 and self._z2 is not None:
             self.logger.info("   Flipping sign of z2.")
             self._z2 = -self._z2
 
         flip_v1 = get_from_list(self.config,'flip_v1',self._num,bool,False)
         flip_v2 = get_from_list(self.config,'flip_v2',self._num,bool,False)
-        if flip_v1:
+        if flip_v1 and self._v1 is not None:
             self.logger.info("   Flipping sign of v1.")
             self._v1 = -self._v1
-        if flip_v2:
+        if flip_v2 and self._v2 is not None:
             self.logger.info("   Flipping sign of v2.")
             self._v2 = -self._v2
 
         flip_g1 = get_from_list(self.config,'flip_g1',self._num,bool,False)
         flip_g2 = get_from_list(self.config,'flip_g2',self._num,bool,False)
-        if flip_g1:
+        if flip_g1 and self._g1 is not None:
             self.logger.info("   Flipping sign of g1.")
             self._g1 = -self._g1
-        if flip_g2:
+        if flip_g2 and self._g2 is not None:
             self.logger.info("   Flipping sign of g2.")
             self._g2 = -self._g2
 
         flip_t1 = get_from_list(self.config,'flip_t1',self._num,bool,False)
         flip_t2 = get_from_list(self.config,'flip_t2',self._num,bool,False)
-        if flip_t1:
+        if flip_t1 and self._t1 is not None:
             self.logger.info("   Flipping sign of t1.")
             self._t1 = -self._t1
-        if flip_t2:
+        if flip_t2 and self._t2 is not None:
             self.logger.info("   Flipping sign of t2.")
             self._t2 = -self._t2
 
         flip_q1 = get_from_list(self.config,'flip_q1',self._num,bool,False)
         flip_q2 = get_from_list(self.config,'flip_q2',self._num,bool,False)
-        if flip_q1:
+        if flip_q1 and self._q1 is not None:
             self.logger.info("   Flipping sign of q1.")
             self._q1 = -self._q1
-        if flip_q2:
+        if flip_q2 and self._q2 is not None:
             self.logger.info("   Flipping sign of q2.")
             self._q2 = -self._q2
 
-- 
2.43.0


From 218c41af6c53ab643e1caa6834ffc1922f4b396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:15 +0000
Subject: [PATCH 112/125] fix: a single name for extra_cols was split into its
 letters

---
 treecorr/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treecorr/config.py b/treecorr/config.py
index 6ba4591..3752464 100644
--- a/treecorr/config.py
+++ b/treecorr/config.py
@@ -207,6 +207,9 @@ def parse(value, value_type, name):
             return parse_bool(value)
         elif value is None:
             return None
+        elif value_type is list and isinstance(value, str):
+            # A list of a single item
+            return [value]
         else:
             return value_type(value)
     except ValueError:
-- 
2.43.0


From d2bce3eff4b8406812b1a2a36a419dbc93197b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:41 +0000
Subject: [PATCH 113/125] fix: patch results of concatenated catalogs from
 several MPI processes replaced each other

---
 treecorr/corr2base.py | 22 ++++++++++++++++++----
 treecorr/corr3base.py | 25 +++++++++++++++++++------
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index a30d8eb..b31eb6b 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -811,6 +811,22 @@ class Corr2(object):
         if prev is not None:
             self.results[ij] += prev
 
+    def _add_rank(self, other):
+        # Add what another MPI process calculated.
+        self += other
+        for ij, result in other.results.items():
+            # Normally each item comes from a single process, but if the input is the
+            # concatenation of several catalogs that use the same patches, then different parts
+            # of it may have been done by different processes.
+            prev = self.results.get(ij)
+            if prev is None:
+                self.results[ij] = result
+            elif result.nonzero:
+                self._add_result(ij, result)
+            else:
+                self.results[ij] = prev.copy()
+                self.results[ij] += result
+
     def _single_process12(self, c1, c2, ij, metric, num_threads, temp, force_write=False,
                           both=False, tot_factor=1):
         # Helper function for _process_all_auto and _process_cross for doing cross pairs.
@@ -944,8 +960,7 @@ class Corr2(object):
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
-                        self += temp
-                        self.results.update(temp.results)
+                        self._add_rank(temp)
 
     def _process_all_cross(self, cat1, cat2, metric, num_threads, comm, low_mem, local):
 
@@ -1029,8 +1044,7 @@ class Corr2(object):
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
-                        self += temp
-                        self.results.update(temp.results)
+                        self._add_rank(temp)
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 111aeb7..48a9401 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1157,6 +1157,22 @@ class Corr3(object):
         if prev is not None:
             self.results[ijk] += prev
 
+    def _add_rank(self, other):
+        # Add what another MPI process calculated.
+        self += other
+        for ijk, result in other.results.items():
+            # Normally each item comes from a single process, but if the input is the
+            # concatenation of several catalogs that use the same patches, then different parts
+            # of it may have been done by different processes.
+            prev = self.results.get(ijk)
+            if prev is None:
+                self.results[ijk] = result
+            elif result.nonzero:
+                self._add_result(ijk, result)
+            else:
+                self.results[ijk] = prev.copy()
+                self.results[ijk] += result
+
     def _single_process12(self, c1, c2, ijj, metric, ordered, num_threads, temp, force_write,
                           tot_factor=1):
         # Helper function for _process_all_auto, etc. for doing 12 cross pairs
@@ -1317,8 +1333,7 @@ class Corr3(object):
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
-                        self += temp
-                        self.results.update(temp.results)
+                        self._add_rank(temp)
 
     def _process_all_cross12(self, cat1, cat2, metric, ordered, num_threads, comm, low_mem, local):
 
@@ -1445,8 +1460,7 @@ class Corr3(object):
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
-                        self += temp
-                        self.results.update(temp.results)
+                        self._add_rank(temp)
 
     def _process_all_cross(self, cat1, cat2, cat3, metric, ordered, num_threads, comm, low_mem,
                            local):
@@ -1576,8 +1590,7 @@ class Corr3(object):
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
-                        self += temp
-                        self.results.update(temp.results)
+                        self._add_rank(temp)
 
     def getStat(self):
         """The standard statistic for the current correlation object as a 1-d array.
-- 
2.43.0


From 82afd0b9f490140d1e65d27acb321f9ae9112e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 114/125] fix: incremental processing with MPI counted the
 earlier results of other ranks again

---
 treecorr/corr2base.py | 16 ++++++++++++++++
 treecorr/corr3base.py | 19 +++++++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index b31eb6b..dfe4081 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -811,6 +811,16 @@ class Corr2(object):
         if prev is not None:
             self.results[ij] += prev
 
+    def _start_rank(self, rank):
+        # For an incremental calculation, rank 0 already has what was calculated so far.
+        # So the other processes should only send the new results, not the earlier ones again.
+        if rank == 0 or not (self.nonzero or self.results):
+            return None
+        prior = self.copy()
+        self._clear()
+        self.results = {}
+        return prior
+
     def _add_rank(self, other):
         # Add what another MPI process calculated.
         self += other
@@ -907,6 +917,7 @@ class Corr2(object):
                 rank = comm.Get_rank()
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                prior = self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -957,6 +968,8 @@ class Corr2(object):
                 # Send all the results back to rank 0 process.
                 if rank > 0:
                     comm.send(self, dest=0)
+                    if prior is not None:
+                        self._add_rank(prior)
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
@@ -1004,6 +1017,7 @@ class Corr2(object):
                 n = max(n1,n2)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                prior = self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -1041,6 +1055,8 @@ class Corr2(object):
                 # Send all the results back to rank 0 process.
                 if rank > 0:
                     comm.send(self, dest=0)
+                    if prior is not None:
+                        self._add_rank(prior)
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index 48a9401..b75fde9 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1157,6 +1157,16 @@ class Corr3(object):
         if prev is not None:
             self.results[ijk] += prev
 
+    def _start_rank(self, rank):
+        # For an incremental calculation, rank 0 already has what was calculated so far.
+        # So the other processes should only send the new results, not the earlier ones again.
+        if rank == 0 or not (self.nonzero or self.results):
+            return None
+        prior = self.copy()
+        self._clear()
+        self.results = {}
+        return prior
+
     def _add_rank(self, other):
         # Add what another MPI process calculated.
         self += other
@@ -1266,6 +1276,7 @@ class Corr3(object):
                 rank = comm.Get_rank()
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                prior = self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -1330,6 +1341,8 @@ class Corr3(object):
                 # Send all the results back to rank 0 process.
                 if rank > 0:
                     comm.send(self, dest=0)
+                    if prior is not None:
+                        self._add_rank(prior)
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
@@ -1392,6 +1405,7 @@ class Corr3(object):
                 n = max(n1,n2)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                prior = self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -1457,6 +1471,8 @@ class Corr3(object):
                 # Send all the results back to rank 0 process.
                 if rank > 0:
                     comm.send(self, dest=0)
+                    if prior is not None:
+                        self._add_rank(prior)
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
@@ -1514,6 +1530,7 @@ class Corr3(object):
                 n = max(n1,n2,n3)
                 my_indices = np.arange(n * rank // size, n * (rank+1) // size)
                 self.logger.info("Rank %d: My indices are %s",rank,my_indices)
+                prior = self._start_rank(rank)
             else:
                 my_indices = None
 
@@ -1587,6 +1604,8 @@ class Corr3(object):
                 # Send all the results back to rank 0 process.
                 if rank > 0:
                     comm.send(self, dest=0)
+                    if prior is not None:
+                        self._add_rank(prior)
                 else:
                     for p in range(1,size):
                         temp = comm.recv(source=p)
-- 
2.43.0


From bd4b29af47fde6a01f60218afc93cc344bd5fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 115/125] fix: resize_cache before the first field had no
 effect, and cleared caches kept the fields until garbage collection

---
 treecorr/catalog.py | 14 +++++++-------
 treecorr/util.py    |  7 ++++++-
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 63e69a6..3d83b0a 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2395,13 +2395,13 @@ class Catalog(object):
         Parameters:
             maxsize (float):    The new maximum number of fields of each type to cache.
         """
-        if hasattr(self, '_nfields'): self.nfields.resize(maxsize)
-        if hasattr(self, '_kfields'): self.kfields.resize(maxsize)
-        if hasattr(self, '_zfields'): self.zfields.resize(maxsize)
-        if hasattr(self, '_vfields'): self.vfields.resize(maxsize)
-        if hasattr(self, '_gfields'): self.gfields.resize(maxsize)
-        if hasattr(self, '_tfields'): self.tfields.resize(maxsize)
-        if hasattr(self, '_qfields'): self.qfields.resize(maxsize)
+        self.nfields.resize(maxsize)
+        self.kfields.resize(maxsize)
+        self.zfields.resize(maxsize)
+        self.vfields.resize(maxsize)
+        self.gfields.resize(maxsize)
+        self.tfields.resize(maxsize)
+        self.qfields.resize(maxsize)
 
     def clear_cache(self):
         """Clear all field caches.
diff --git a/treecorr/util.py b/treecorr/util.py
index b32d106..74c9ee0 100644
--- a/treecorr/util.py
+++ b/treecorr/util.py
@@ -197,6 +197,7 @@ class LRU_Cache(object):
         self.root = [None, None, None, None]
         self.user_function = user_function
         self.cache = {}
+        self.root[1] = self.root  # In case maxsize=0.
 
         last = self.root
         for i in range(maxsize):
@@ -275,10 +276,14 @@ class LRU_Cache(object):
         """ Clear all items from the cache.
         """
         maxsize = len(self.cache)
+        # Sever the links, so any existing results are freed right away, rather than be kept
+        # alive by circular references until the next garbage collection.
+        for link in self.cache.values():
+            link[:] = [None, None, None, None]
         self.cache.clear()
         last = self.root
+        last[0] = last[1] = last
         for i in range(maxsize):
-            last[3] = None  # Sever pointer to any existing result.
             key = object()
             self.cache[key] = last[1] = last = [last, self.root, key, None]
         self.root[0] = last
-- 
2.43.0


From 0e5901ef317a1b83503e010623a30ab41eed4999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 116/125] fix: patches saved from a file with x_units were read
 back with the wrong units

---
 treecorr/catalog.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/treecorr/catalog.py b/treecorr/catalog.py
index 3d83b0a..befd3d5 100644
--- a/treecorr/catalog.py
+++ b/treecorr/catalog.py
@@ -2911,10 +2911,19 @@ class Catalog(object):
             i = p._single_patch if p._single_patch is not None else 0
             file_name = file_names[i]
             self.logger.info('Writing patch %d to %s',i,file_name)
-            if p.ra is not None:
-                # Don't multiply and divide by the units on round trip.
-                p.ra_units = p.dec_units = 1
+            loaded = p.loaded
+            p.load()
+            # Don't multiply and divide by the units on round trip.
+            # The positions are written in radians, since that is how read_patches reads them.
+            units = { key : getattr(p, key) for key in ['ra_units','dec_units','x_units','y_units']
+                      if hasattr(p, key) }
+            for key in units:
+                setattr(p, key, 1.)
             p.write(file_name)
+            for key in units:
+                setattr(p, key, units[key])
+            if not loaded:
+                p.unload()
 
     def read_patches(self, save_patch_dir=None):
         """Read the patches from files on disk.
-- 
2.43.0


From 457f3fecb293084f1d5a2ac7714ad407b2975504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:38 +0000
Subject: [PATCH 117/125] fix: low_mem processing of three catalogs and
 expanded patches left patches loaded

---
 treecorr/corr2base.py | 5 ++++-
 treecorr/corr3base.py | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/treecorr/corr2base.py b/treecorr/corr2base.py
index dfe4081..2cef432 100644
--- a/treecorr/corr2base.py
+++ b/treecorr/corr2base.py
@@ -788,8 +788,11 @@ class Corr2(object):
                 p.unload()
         if len(cat_list) == 0:
             # Then there is nothing to be counted, but still need something to hold sumw.
-            cat_list.append(next((p for p in cat2 if p.ntot > 0), cat2[0]))
+            p = next((p for p in cat2 if p.ntot > 0), cat2[0])
+            cat_list.append(p)
             mask_list.append(slice(None))
+            if low_mem and p is not cat1:
+                p.unload()
         cat2e = Catalog.combine(cat_list, mask_list=mask_list, low_mem=low_mem)
         # This is important for NN correlations to get the tot to work out right.
         # Basically, we treat the extended patch as though it included all of cat2
diff --git a/treecorr/corr3base.py b/treecorr/corr3base.py
index b75fde9..bddeb2b 100644
--- a/treecorr/corr3base.py
+++ b/treecorr/corr3base.py
@@ -1592,8 +1592,7 @@ class Corr3(object):
                                                         (i==j==k or n1==1 or n2==1 or n3==1))
                                 if low_mem:
                                     c3.unload()
-                        if low_mem and jj != ii+1:
-                            # Don't unload i+1, since that's the next one we'll need.
+                        if low_mem:
                             c2.unload()
                     if low_mem:
                         c1.unload()
-- 
2.43.0


From bbe37b5c496e1185f57f174e362af44f76d5c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 118/125] fix: data race in the lazily cached norms of
 positions

---
 include/Position.h | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/Position.h b/include/Position.h
index 6230b37..2ad2433 100644
--- a/include/Position.h
+++ b/include/Position.h
@@ -15,6 +15,7 @@
 #ifndef TreeCorr_Position_H
 #define TreeCorr_Position_H
 
+#include <atomic>
 #include <complex>
 #include "dbg.h"
 
@@ -30,6 +31,21 @@ inline T SQR(T x) { return x * x; }
 template <int C>
 class Position;
 
+// A double that is computed lazily, possibly by several threads at the same time, which all
+// store the same value.  Only the value itself matters, so relaxed ordering is sufficient.
+class LazyDouble
+{
+public:
+    LazyDouble(double x) : _x(x) {}
+    LazyDouble(const LazyDouble& rhs) : _x(double(rhs)) {}
+    LazyDouble& operator=(const LazyDouble& rhs) { return *this = double(rhs); }
+    LazyDouble& operator=(double x) { _x.store(x, std::memory_order_relaxed); return *this; }
+    operator double() const { return _x.load(std::memory_order_relaxed); }
+
+private:
+    std::atomic<double> _x;
+};
+
 //
 // Flat defines 2-D coordinates (x,y)
 //
@@ -112,11 +128,11 @@ public:
     }
 
 protected:
-    void resetNorm() { _normsq = _norm = 0.; }
+    void resetNorm() { _normsq = 0.; _norm = 0.; }
 
 private:
     double _x,_y;
-    mutable double _normsq, _norm;
+    mutable LazyDouble _normsq, _norm;
 
 }; // Position<Flat>
 
@@ -214,11 +230,11 @@ public:
     { fout << _x << " " << _y << " " << _z << " "; }
 
 protected:
-    void resetNorm() { _normsq = _norm = 0.; }
+    void resetNorm() { _normsq = 0.; _norm = 0.; }
 
 private:
     double _x,_y,_z;
-    mutable double _normsq, _norm;
+    mutable LazyDouble _normsq, _norm;
 
 }; // Position<ThreeD>
 
-- 
2.43.0


From 90c1edb2bf1da530c813bccfe8b4eee5673f9a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 119/125] fix: kmeans++ centers of brute-force fields were all
 zero

---
 src/KMeans.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/KMeans.cpp b/src/KMeans.cpp
index 921ea84..c8173c0 100644
--- a/src/KMeans.cpp
+++ b/src/KMeans.cpp
@@ -322,8 +322,13 @@ void InitializeCentersKMPP(std::vector<Position<C> >& centers,
             //       Not sure how important it is though, since I think the Tree initialization is
             //       normally better, so this is not a very important use case.
             const double coef = C == ThreeD ? 0.6 : 0.5;
-            p[k] = (cells[k]->getN() -
-                        centers_per_cell[k]) * (dsq1 + coef * SQR(cells[k]->getSize()));
+            double ssq = coef * SQR(cells[k]->getSize());
+            // With brute, the nominal size is infinite, so use the actual second moment.
+            if (!(ssq < 1.e100)) {
+                ssq = cells[k]->getW() == 0. ? 0. :
+                    std::abs(cells[k]->calculateInertia() / cells[k]->getW());
+            }
+            p[k] = (cells[k]->getN() - centers_per_cell[k]) * (dsq1 + ssq);
             sump += p[k];
         }
         if (sump == 0.) {
-- 
2.43.0


From f3e0c2fda0167c1878a20ca86b78abb876b9b676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 120/125] fix: (nearly) endless loops with the Periodic metric
 for positions many periods away

---
 include/Position.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/Position.h b/include/Position.h
index 2ad2433..42a7502 100644
--- a/include/Position.h
+++ b/include/Position.h
@@ -16,6 +16,7 @@
 #define TreeCorr_Position_H
 
 #include <atomic>
+#include <cmath>
 #include <complex>
 #include "dbg.h"
 
@@ -121,6 +122,9 @@ public:
 
     void wrap(const double xp, const double yp)
     {
+        // Don't take forever for positions that are very many periods away.
+        if (std::abs(_x) > 100.*xp) _x = std::remainder(_x, xp);
+        if (std::abs(_y) > 100.*yp) _y = std::remainder(_y, yp);
         while (_x > xp/2.) _x -= xp;
         while (_x < -xp/2.) _x += xp;
         while (_y > yp/2.) _y -= yp;
@@ -216,6 +220,10 @@ public:
 
     void wrap(const double xp, const double yp, const double zp)
     {
+        // Don't take forever for positions that are very many periods away.
+        if (std::abs(_x) > 100.*xp) _x = std::remainder(_x, xp);
+        if (std::abs(_y) > 100.*yp) _y = std::remainder(_y, yp);
+        if (std::abs(_z) > 100.*zp) _z = std::remainder(_z, zp);
         while (_x > xp/2.) _x -= xp;
         while (_x < -xp/2.) _x += xp;
         while (_y > yp/2.) _y -= yp;
-- 
2.43.0


From 91bfa7d01643c06e86668579de6005db4b613f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:12 +0000
Subject: [PATCH 121/125] fix: memory leak of the averages of cells above the
 top layer of a field

---
 src/Field.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Field.cpp b/src/Field.cpp
index dba11a4..9abeafe 100644
--- a/src/Field.cpp
+++ b/src/Field.cpp
@@ -72,6 +72,7 @@ double SetupTopLevelCells(
     } else {
         size_t mid = SplitData<C,SM>(celldata, start, end, ave->getPos());
         xdbg<<"Too big.  Recurse with mid = "<<mid<<std::endl;
+        delete ave;
         SetupTopLevelCells<D,C,SM>(celldata, maxsizesq, start, mid, mintop-1, maxtop-1,
                                    top_data, top_sizesq, top_start, top_end);
         SetupTopLevelCells<D,C,SM>(celldata, maxsizesq, mid, end, mintop-1, maxtop-1,
-- 
2.43.0


From 23cbd5957ffaad939ce190bb0349ca088417889b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 122/125] fix: out of bounds accesses for kmeans centers of the
 wrong shape or type

---
 treecorr/field.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/treecorr/field.py b/treecorr/field.py
index 962aa99..2e55ebd 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -495,8 +495,17 @@ class Field(object):
                                 deviation of the inertia rather than the total inertia (aka WCSS).
                                 (default: False)
         """
-        npatch = centers.shape[0]
-        self.data.KMeansRun(centers, npatch, int(max_iter), float(tol), bool(alt))
+        work = self._check_centers(centers)
+        self.data.KMeansRun(work, len(work), int(max_iter), float(tol), bool(alt))
+        if work is not centers:
+            centers[:] = work
+
+    def _check_centers(self, centers):
+        # The C++ layer requires a C-contiguous array of doubles with shape (npatch, ndim).
+        ndim = 2 if self.coords == 'flat' else 3
+        if np.ndim(centers) != 2 or np.shape(centers)[1] != ndim or len(centers) == 0:
+            raise ValueError("Invalid centers.  Shape must be (npatch, %d)"%ndim)
+        return np.ascontiguousarray(centers, dtype=float)
 
     def kmeans_assign_patches(self, centers):
         """Assign patch numbers to each point according to the given centers.
@@ -513,10 +522,9 @@ class Field(object):
         Returns:
             An array of patch labels, all integers from 0..npatch-1.  Size is self.ntot.
         """
+        centers = self._check_centers(centers)
         patches = np.empty(self.ntot, dtype=int)
-        npatch = centers.shape[0]
-        centers = np.ascontiguousarray(centers)
-        self.data.KMeansAssign(centers, npatch, patches)
+        self.data.KMeansAssign(centers, len(centers), patches)
         return patches
 
 
-- 
2.43.0


From 9a905eed01a088b015677060bde0279efc8c7057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:28 +0000
Subject: [PATCH 123/125] fix: fields of catalogs without the needed columns
 read out of bounds

---
 treecorr/field.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/treecorr/field.py b/treecorr/field.py
index 2e55ebd..7532a89 100644
--- a/treecorr/field.py
+++ b/treecorr/field.py
@@ -624,6 +624,8 @@ class KField(Field):
             else:
                 logger.info('Building KField')
 
+        if cat.k is None:
+            raise TypeError("k is not defined.")
         self._cat = weakref.ref(cat)
         self.ntot = cat.ntot
         self.min_size = float(min_size) if not brute else 0.
@@ -687,6 +689,8 @@ class ZField(Field):
             else:
                 logger.info('Building ZField')
 
+        if cat.z1 is None:
+            raise TypeError("z is not defined.")
         self._cat = weakref.ref(cat)
         self.ntot = cat.ntot
         self.min_size = float(min_size) if not brute else 0.
@@ -750,6 +754,8 @@ class VField(Field):
             else:
                 logger.info('Building VField')
 
+        if cat.v1 is None:
+            raise TypeError("v is not defined.")
         self._cat = weakref.ref(cat)
         self.ntot = cat.ntot
         self.min_size = float(min_size) if not brute else 0.
@@ -813,6 +819,8 @@ class GField(Field):
             else:
                 logger.info('Building GField')
 
+        if cat.g1 is None:
+            raise TypeError("g is not defined.")
         self._cat = weakref.ref(cat)
         self.ntot = cat.ntot
         self.min_size = float(min_size) if not brute else 0.
@@ -876,6 +884,8 @@ class TField(Field):
             else:
                 logger.info('Building TField')
 
+        if cat.t1 is None:
+            raise TypeError("t is not defined.")
         self._cat = weakref.ref(cat)
         self.ntot = cat.ntot
         self.min_size = float(min_size) if not brute else 0.
@@ -938,6 +948,8 @@ class QField(Field):
             else:
                 logger.info('Building QField')
 
+        if cat.q1 is None:
+            raise TypeError("q is not defined.")
         self._cat = weakref.ref(cat)
         self.ntot = cat.ntot
         self.min_size = float(min_size) if not brute else 0.
-- 
2.43.0


From 22f2d1bbd44c60208551200ca125602fbf287e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:20 +0000
Subject: [PATCH 124/125] fix: undefined bin index of coincident objects in
 sample_pairs with Log bins and min_sep = 0

---
 src/Corr2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Corr2.cpp b/src/Corr2.cpp
index be225f4..bbe53df 100644
--- a/src/Corr2.cpp
+++ b/src/Corr2.cpp
@@ -597,7 +597,8 @@ void BaseCorr2::directProcess11(
     const Position<C>& p2 = c2.getPos();
     if (k < 0) {
         r = sqrt(rsq);
-        logr = log(r);
+        // Sampler allows minsep = 0, so r = 0, with Log binning.
+        logr = (B == Log && r == 0.) ? _logminsep : log(r);
         // Allow for rounding when r is right at minsep.
         Assert(logr >= _logminsep - 1.e-10);
         k = BinTypeHelper<B>::calculateBinK(p1, p2, r, logr, _binsize,
-- 
2.43.0


From 949c82740ad5764ec5a9a7ce52c2fd7f233d22c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:19 +0000
Subject: [PATCH 125/125] fix: cells with sizes too small for a float were
 taken for leaves

---
 src/Cell.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Cell.cpp b/src/Cell.cpp
index 90f9aad..d383fba 100644
--- a/src/Cell.cpp
+++ b/src/Cell.cpp
@@ -589,7 +589,9 @@ Cell<D,C>* BuildCell(std::vector<std::pair<BaseCellData<C>*,WPosLeafInfo> >& vda
     }
 
     xdbg<<"sizesq = "<<sizesq<<" cf. "<<minsizesq<<", brute="<<brute<<std::endl;
-    if (sizesq > minsizesq) {
+    // Cells store their size as a float, and size == 0 means that a cell is a leaf.
+    if (sizesq > minsizesq &&
+        (brute || sqrt(sizesq) >= std::numeric_limits<float>::min())) {
         // If size is large enough, recurse to leaves.
         double size = brute ? std::numeric_limits<double>::infinity() : sqrt(sizesq);
         if (brute) sizesq = std::numeric_limits<double>::infinity();
-- 
2.43.0

