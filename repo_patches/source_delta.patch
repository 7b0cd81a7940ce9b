From bd881741ff1c8c1af31b4b66e1b5519782676413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:51 +0000
Subject: [PATCH 01/23] fix: PowerSeries3d y-derivative with predefined z
 scales by the y coefficient

Evaluate_derivative_y_z_predefined passed x where the derivative coefficient of y is evaluated, wrong for domains opened in y.
---
 src/MathUtils/PowerSeries3d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/PowerSeries3d.h b/src/MathUtils/PowerSeries3d.h
index d085734..c7ac335 100644
--- a/src/MathUtils/PowerSeries3d.h
+++ b/src/MathUtils/PowerSeries3d.h
@@ -436,7 +436,7 @@ namespace mathutils {
       double xunit = AffineTransformationSegmentToUnit_x(x);
       double yunit = AffineTransformationSegmentToUnit_y(y);
 
-      return Evaluate_derivative_y_unit_zunit_predefined(x, xunit, yunit, cij);
+      return Evaluate_derivative_y_unit_zunit_predefined(y, xunit, yunit, cij);
 
     }
 
-- 
2.43.0


From 5e1b2639b6ab718c9d0acd8c0b57113546c89830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:20 +0000
Subject: [PATCH 02/23] fix: rad2deg into another vector compiles and returns
 the converted values

It converted the const source (which does not compile) and returned nothing.
---
 src/MathUtils/Unit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Unit.h b/src/MathUtils/Unit.h
index 50f2dd9..c3dbaa8 100644
--- a/src/MathUtils/Unit.h
+++ b/src/MathUtils/Unit.h
@@ -52,7 +52,8 @@ namespace mathutils {
   // TODO : faire la meme inplace...
   inline std::vector<T> rad2deg(const std::vector<T> &vector, std::vector<T> &out) {
     out = vector;
-    rad2deg(vector);
+    rad2deg(out);
+    return out;
   }
 
 
-- 
2.43.0


From 72ab1a9e301c9cf72f590c4883bb1d65e653dbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:35 +0000
Subject: [PATCH 03/23] fix: Vector2d::infNorm takes absolute values

It returned the largest signed component, e.g. -1 for (-1, -3), unlike Vector3d, Vector6d and VectorN.
---
 src/MathUtils/Vector2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Vector2d.h b/src/MathUtils/Vector2d.h
index 0cfec94..21903f8 100644
--- a/src/MathUtils/Vector2d.h
+++ b/src/MathUtils/Vector2d.h
@@ -220,7 +220,7 @@ namespace mathutils {
 
     template <class Scalar>
     Scalar Vector2d<Scalar>::infNorm() const {
-        return this->Eigen::Matrix<Scalar, 2, 1>::maxCoeff();
+        return this->Eigen::Matrix<Scalar, 2, 1>::template lpNorm<Eigen::Infinity>();
     }
 
     template <class Scalar>
-- 
2.43.0


From 0e6ea194362e58ae5e8e5bfd420fde5205b65827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:31 +0000
Subject: [PATCH 04/23] fix: IsSymmetric returned true for every matrix

---
 src/MathUtils/Matrix.h   | 9 +--------
 src/MathUtils/Matrix33.h | 9 +--------
 src/MathUtils/Matrix66.h | 9 +--------
 3 files changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/MathUtils/Matrix.h b/src/MathUtils/Matrix.h
index eb7821f..fe37d1a 100644
--- a/src/MathUtils/Matrix.h
+++ b/src/MathUtils/Matrix.h
@@ -286,14 +286,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool MatrixMN<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return IsSquare() && this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index e0a5002..d636313 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -279,14 +279,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix33<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 23f2b91..cee0ea8 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -272,14 +272,7 @@ namespace mathutils {
 
     template <class Scalar>
     bool Matrix66<Scalar>::IsSymmetric() const {
-        auto a = this->isApprox(this->adjoint());
-        // FIXME: finir implementation :::
-//        auto a = (this->adjoint() == this);
-//        return this
-//        if (this->adjoint() == this) {
-//            return true;
-//        }
-        return true;
+        return this->isApprox(this->adjoint());
     }
 
     template <class Scalar>
-- 
2.43.0


From 049273ec608b68e5eecc0e0168b69ad2d7f0b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:31 +0000
Subject: [PATCH 05/23] fix: Matrix66::at() const was declared but not defined

---
 src/MathUtils/Matrix66.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index cee0ea8..7aeea5f 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -197,6 +197,11 @@ namespace mathutils {
     // =================================================================================================================
     // =================================================================================================================
 
+    template <class Scalar>
+    inline Scalar Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) const {
+        return this->operator()(irow, icol);
+    }
+
     template <class Scalar>
     inline Scalar& Matrix66<Scalar>::at(unsigned int irow, unsigned int icol) {
         return this->operator()(irow, icol);
-- 
2.43.0


From 94d2d3e43895baea2c8315beabcde885db8914fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:22 +0000
Subject: [PATCH 06/23] fix: arange returned linspace(start, num*step) instead
 of start + i*step in [start, stop[

---
 src/MathUtils/VectorGeneration.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/MathUtils/VectorGeneration.h b/src/MathUtils/VectorGeneration.h
index 82a220a..373d2ea 100644
--- a/src/MathUtils/VectorGeneration.h
+++ b/src/MathUtils/VectorGeneration.h
@@ -46,10 +46,14 @@ namespace mathutils {
         assert (start < stop);
         assert (step > 0.);
 
-        auto num = floor((stop-start)/step);
-        auto final_stop = num * step;
+        // Number of values start + i*step lying in [start, stop[
+        auto num = (unsigned int)ceil((stop-start)/step);
 
-        return linspace(start, final_stop, (unsigned int)num);
+        std::vector<Real> out(num);
+        for (unsigned int i=0; i<num; ++i) {
+            out[i] = start + i*step;
+        }
+        return out;
     }
 
 
-- 
2.43.0


From 6fcb6dc0472ee630049b9e05a70e9405d59f2857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:25 +0000
Subject: [PATCH 07/23] fix: Dirac used the integer abs when only <cmath> is
 included (EIGEN_DONT_VECTORIZE, non-x86)

---
 src/MathUtils/Functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/Functions.h b/src/MathUtils/Functions.h
index c1e431c..b556e85 100644
--- a/src/MathUtils/Functions.h
+++ b/src/MathUtils/Functions.h
@@ -65,7 +65,7 @@ namespace mathutils {
 
       std::vector<Real> out(n);
       for (unsigned long i=0; i<n; i++) {
-          if (abs(x[i] - x_impulse) < dx_2) { // FIXME: le critere n'est pas robuste
+          if (fabs(x[i] - x_impulse) < dx_2) { // FIXME: le critere n'est pas robuste
               out[i] = height;
           } else {
               out[i] = 0.;
-- 
2.43.0


From 46c9999133089e7c8a7cde89509b4543dae5793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:46 +0000
Subject: [PATCH 08/23] fix: extrapolating 1D interpolation threw
 std::out_of_range above the last abscissa

---
 src/MathUtils/Interp1d.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index ef607cb..6eaa13e 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -178,6 +178,7 @@ namespace mathutils {
     auto index = std::distance(this->xcoord->begin(), upper);
 
     if (index == 0) index = 1;  // Bug fix for x == xmin
+    if (index == (long)this->ndata) index = this->ndata - 1;  // x > xmax : last segment
 
     YScalar a_ = a.at(index - 1);
     YScalar b_ = b.at(index - 1);
-- 
2.43.0


From ec33d783e6dec9cd549f9a16a15e30f404a7b095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:46 +0000
Subject: [PATCH 09/23] fix: initialising a 1D interpolator again kept the
 coefficients of the previous data

---
 src/MathUtils/Interp1d.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Interp1d.h b/src/MathUtils/Interp1d.h
index 6eaa13e..99fd009 100644
--- a/src/MathUtils/Interp1d.h
+++ b/src/MathUtils/Interp1d.h
@@ -148,6 +148,8 @@ namespace mathutils {
 
     Interp1d<XReal, YScalar>::Initialize(x, y);
 
+    a.clear();
+    b.clear();
     a.reserve(this->ndata);
     b.reserve(this->ndata);
 
-- 
2.43.0


From e151775142220a334580f559966af14b069cbb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:20 +0000
Subject: [PATCH 10/23] fix: initialising a 2D interpolator again kept the
 coefficients of the previous data

---
 src/MathUtils/Interp2d.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MathUtils/Interp2d.h b/src/MathUtils/Interp2d.h
index 74fc19c..3b75c48 100644
--- a/src/MathUtils/Interp2d.h
+++ b/src/MathUtils/Interp2d.h
@@ -114,6 +114,10 @@ namespace mathutils {
 
         Interp2d<Real>::Initialize(x, y, data);
 
+        a1.clear();
+        a2.clear();
+        a3.clear();
+        a4.clear();
         a1.reserve(this->ndata);
         a2.reserve(this->ndata);
         a3.reserve(this->ndata);
-- 
2.43.0


From c6fd5d1b8f8298c63aa8c7c23752659da18d4d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:59 +0000
Subject: [PATCH 11/23] fix: Integrate1d::SetIntegrationMethod invalidates the
 cached result

---
 src/MathUtils/Integration1d.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Integration1d.h b/src/MathUtils/Integration1d.h
index d1e8c83..dc46fa4 100644
--- a/src/MathUtils/Integration1d.h
+++ b/src/MathUtils/Integration1d.h
@@ -60,7 +60,10 @@ namespace mathutils {
             c_DataSource = VECTOR;
         }
 
-        void SetIntegrationMethod(INTEGRATION_METHOD method) { m_IntegrationMethod = method; }
+        void SetIntegrationMethod(INTEGRATION_METHOD method) {
+            m_IntegrationMethod = method;
+            c_Computed = false;
+        }
 
         INTEGRATION_METHOD GetIntegrationMethod() const { return m_IntegrationMethod; }
 
-- 
2.43.0


From 6fa12cce27bbbf8a13936e5e92578f2a489db3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:02 +0000
Subject: [PATCH 12/23] fix: quaternionToEulerAnglesZYX returned NaN when
 rounding put the pitch sine beyond 1

---
 src/MathUtils/Geometry.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/Geometry.h b/src/MathUtils/Geometry.h
index 1ad4906..c4ffade 100644
--- a/src/MathUtils/Geometry.h
+++ b/src/MathUtils/Geometry.h
@@ -5,6 +5,8 @@
 #ifndef MATHUTILS_GEOMETRY_H
 #define MATHUTILS_GEOMETRY_H
 
+#include <algorithm>
+
 #include <Eigen/Dense>
 
 namespace mathutils {
@@ -15,7 +17,8 @@ namespace mathutils {
     euler_angles(0) = atan2(
         2.0 * q.w() * q.x() + 2.0 * q.y() * q.z(),
         q.w() * q.w() - q.x() * q.x() - q.y() * q.y() + q.z() * q.z());
-    euler_angles(1) = -asin(2.0 * q.x() * q.z() - 2.0 * q.w() * q.y());
+    // Rounding may carry the sine slightly beyond 1 at the gimbal lock.
+    euler_angles(1) = -asin(std::max(-1.0, std::min(1.0, 2.0 * q.x() * q.z() - 2.0 * q.w() * q.y())));
     euler_angles(2) = atan2(
         2.0 * q.w() * q.z() + 2.0 * q.x() * q.y(),
         q.w() * q.w() + q.x() * q.x() - q.y() * q.y() - q.z() * q.z());
-- 
2.43.0


From 14d748bc82044dd9a016bdd4a56320577a4a340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:02 +0000
Subject: [PATCH 13/23] fix: two mistyped coefficients of E1_approximation for
 x >= 4

---
 src/MathUtils/BoostFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 98406a8..2dca2e2 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -530,11 +530,11 @@ namespace mathutils {
                                 5.4199632588522559414924e1,
                                 1.1635769915320848035459e3,
                                 1.2842808586627297365998e4,
-                                7.9231787645279043698718e4,
+                                7.9231787945279043698718e4,
                                 2.7858134710520842139357e5,
                                 5.4616842050691155735758e5,
                                 5.5903756210022864003380e5,
-                                5.5989762083608489777411e5,
+                                2.5989762083608489777411e5,
                                 3.9147856245556345627078e4};
       assert (pj.size() == qj.size());
 
-- 
2.43.0


From fd27c58e34b8fa8bc5ee691b0718ce4e740ad91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:02 +0000
Subject: [PATCH 14/23] fix: derivatives of J_n and I_n were NaN at the origin

---
 src/MathUtils/BoostFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/BoostFunctions.h b/src/MathUtils/BoostFunctions.h
index 2dca2e2..527156c 100644
--- a/src/MathUtils/BoostFunctions.h
+++ b/src/MathUtils/BoostFunctions.h
@@ -31,7 +31,7 @@ namespace mathutils {
     if(order == 0) {
       return -boost::math::cyl_bessel_j(1, x); // J0' = -J1.
     } else {
-      return boost::math::cyl_bessel_j(order - 1, x) - (order / x) * boost::math::cyl_bessel_j(order, x);
+      return 0.5 * (boost::math::cyl_bessel_j(order - 1, x) - boost::math::cyl_bessel_j(order + 1, x));
     }
   }
 
@@ -63,7 +63,7 @@ namespace mathutils {
     if(order == 0) {
       return boost::math::cyl_bessel_i(1, x); // I0' = I1.
     } else {
-      return boost::math::cyl_bessel_i(order - 1, x) - (order / x) * boost::math::cyl_bessel_i(order, x);
+      return 0.5 * (boost::math::cyl_bessel_i(order - 1, x) + boost::math::cyl_bessel_i(order + 1, x));
     }
   }
 
-- 
2.43.0


From 3f559efa74e69e8e44348f5b3873519fbd03f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:02 +0000
Subject: [PATCH 15/23] fix: computing the Chebyshev coefficients twice no
 longer accumulates

Compute_ai, Compute_aij and Compute_aijk added to the coefficients of the
previous call, so the series was wrong after a second computation.
---
 src/MathUtils/ChebyshevSeries1d.h | 1 +
 src/MathUtils/ChebyshevSeries2d.h | 1 +
 src/MathUtils/ChebyshevSeries3d.h | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/MathUtils/ChebyshevSeries1d.h b/src/MathUtils/ChebyshevSeries1d.h
index 845bac6..a750306 100644
--- a/src/MathUtils/ChebyshevSeries1d.h
+++ b/src/MathUtils/ChebyshevSeries1d.h
@@ -57,6 +57,7 @@ namespace mathutils {
       // aij.
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
+        m_ai(i) = T(0.);
         for (int r = 0; r <= m_order_x; ++r) {
           double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
           m_ai(i) += this->m_function->Evaluate(x.at(r)) * Ti;
diff --git a/src/MathUtils/ChebyshevSeries2d.h b/src/MathUtils/ChebyshevSeries2d.h
index eb3b21a..51e1fe2 100644
--- a/src/MathUtils/ChebyshevSeries2d.h
+++ b/src/MathUtils/ChebyshevSeries2d.h
@@ -70,6 +70,7 @@ namespace mathutils {
       // The Clenshaw algorithm cannot be used as x_tilde and y_tilde depend on r and s.
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
+          m_aij(i, j) = T(0.);
           for (int r = 0; r <= m_order_x; ++r) {
             double Ti = Chebyshev_polynomial(i, x_tilde.at(r));
             for (int s = 0; s <= m_order_y; ++s) {
diff --git a/src/MathUtils/ChebyshevSeries3d.h b/src/MathUtils/ChebyshevSeries3d.h
index 3369ba8..7d71c8e 100644
--- a/src/MathUtils/ChebyshevSeries3d.h
+++ b/src/MathUtils/ChebyshevSeries3d.h
@@ -83,6 +83,7 @@ namespace mathutils {
       for (int i = 0; i <= m_order_x; ++i) {
         for (int j = 0; j <= m_order_y; ++j) {
           for (int k = 0; k <= m_order_z; ++k) {
+            m_aijk.at(k)(i, j) = T(0.);
             for (int r = 0; r <= m_order_x; ++r) {
               double xtilde = x_tilde.at(r);
               double Ti = Chebyshev_polynomial(i, xtilde);
-- 
2.43.0


From 8b961b04b9655bdd3cdeb161b6828946366d605a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:59 +0000
Subject: [PATCH 16/23] fix: copy of a RegularGridInterpolator that is not
 complete yet

---
 src/MathUtils/RegularGridInterpolator.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index 9635b18..de57c7e 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -118,7 +118,12 @@ RegularGridInterpolator<Real, _dim>::operator=(const RegularGridInterpolator &ot
   m_data.resize(ex);
   m_data = other.m_data;
 
-  _BuildInterpolator();
+  // An interpolator that is not complete yet has nothing to interpolate
+  if (other.IsValid()) {
+    _BuildInterpolator();
+  } else {
+    c_interpolator.reset();
+  }
   return *this;
 }
 
-- 
2.43.0


From 75a11474cc187cf55eb05d765727f93144b9ab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:03 +0000
Subject: [PATCH 17/23] fix: surrounding nodes of a point below the grid are
 the first ones, not the last ones

---
 src/MathUtils/RegularGridNearest.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 2bab210..75e46ef 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -81,9 +81,9 @@ namespace mathutils {
     bool IsValid() const;
 
    private:
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const;
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<int, _dim> &cell_index, unsigned int v) const;
 
-    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<size_t, _dim> &cell_index,
+    GridNode<Data_t, _dim, Coord_t> GetNode(const std::array<int, _dim> &cell_index,
                                             const std::array<size_t, _dim> &v_index) const;
 
    private:
@@ -234,12 +234,12 @@ namespace mathutils {
     nodes.reserve(1 << _dim);
 
     // Get the cell origin lower indices
-    std::array<size_t, _dim> indices;
+    std::array<int, _dim> indices;
 
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       auto xi = point[dim];
 
-      unsigned int icell;
+      int icell;
 
       // Looking for the cell in which the xi point lies
       const auto &coord = m_grid_list[dim];
@@ -271,7 +271,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index, unsigned int v) const {
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<int, _dim> &cell_index, unsigned int v) const {
     std::array<size_t, _dim> v_index;
     for (unsigned int dim = 0; dim < _dim; ++dim) {
       v_index[dim] = (v >> (_dim - dim - 1)) & 1;  // test if the i-th bit is set
@@ -281,7 +281,7 @@ namespace mathutils {
 
   template<typename Data_t, size_t _dim, typename Coord_t>
   GridNode<Data_t, _dim, Coord_t>
-  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<size_t, _dim> &cell_index,
+  RegularGridNearest<Data_t, _dim, Coord_t>::GetNode(const std::array<int, _dim> &cell_index,
                                                      const std::array<size_t, _dim> &v_index) const {
 
     std::array<size_t, _dim> indices;
-- 
2.43.0


From 67eb39eb1babc8c45818f1c6b2885d1e6003f1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:03 +0000
Subject: [PATCH 18/23] fix: RegularGridNearest::GetData returned no value

---
 src/MathUtils/RegularGridNearest.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/RegularGridNearest.h b/src/MathUtils/RegularGridNearest.h
index 75e46ef..2e0df4c 100644
--- a/src/MathUtils/RegularGridNearest.h
+++ b/src/MathUtils/RegularGridNearest.h
@@ -179,7 +179,7 @@ namespace mathutils {
   template<typename Data_t, size_t _dim, typename Coord_t>
   Data_t
   RegularGridNearest<Data_t, _dim, Coord_t>::GetData(const std::array<Coord_t, _dim> &point) const {
-
+    return Nearest(point).val();
   }
 
 
-- 
2.43.0


From 9e1e9584737460df6304402544f0d85052598f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:52 +0000
Subject: [PATCH 19/23] fix: a moved LookupTable1D keeps its interpolation
 method

---
 src/MathUtils/LookupTable1D.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable1D.h b/src/MathUtils/LookupTable1D.h
index 1837128..ba10efc 100644
--- a/src/MathUtils/LookupTable1D.h
+++ b/src/MathUtils/LookupTable1D.h
@@ -42,6 +42,7 @@ namespace mathutils {
     /// Move constructor allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D &operator=(LookupTable1D &&table) {
       if (this != &table) {
+        interp_method = table.interp_method;
         Xcoords = std::move(table.Xcoords);
         assoc = std::move(table.assoc);
         Ydata = std::move(table.Ydata);
@@ -52,7 +53,8 @@ namespace mathutils {
 
     /// Move operator allowing to move the interpolators vector storing unique_ptr instances
     LookupTable1D(LookupTable1D &&table)
-        : Xcoords(std::move(table.Xcoords)),
+        : interp_method(table.interp_method),
+          Xcoords(std::move(table.Xcoords)),
           assoc(std::move(table.assoc)),
           Ydata(std::move(table.Ydata)),
           interpolators(std::move(table.interpolators)) {};
-- 
2.43.0


From ef09ff60456b871edd1be33f99a48dc0bdaa58ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:52 +0000
Subject: [PATCH 20/23] fix: LookupTable2d::Eval(name, coord) did not compile

---
 src/MathUtils/LookupTable2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MathUtils/LookupTable2D.h b/src/MathUtils/LookupTable2D.h
index 2bc6d3a..b6b86dc 100644
--- a/src/MathUtils/LookupTable2D.h
+++ b/src/MathUtils/LookupTable2D.h
@@ -136,7 +136,7 @@ namespace mathutils {
 
     template <class Real>
     Real LookupTable2d<Real>::Eval(const std::string name, const std::vector<Real> coord) const {
-        return interpolators.at(GetIndex(name))->Eval(coord);
+        return interpolators.at(GetIndex(name))->Eval(coord[0], coord[1]);
     }
 
     template <class Real>
-- 
2.43.0


From f1fd42e72e7e7067f0c82de3e627c8d45471fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:34 +0000
Subject: [PATCH 21/23] fix: keep tiny negative angles inside the half-open
 normalisation interval

Normalize_0_360(-1e-20) returned 360 and Normalize_0_2PI(-1e-20) returned
2*pi, both excluded from the documented interval.
---
 src/MathUtils/Angles.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MathUtils/Angles.h b/src/MathUtils/Angles.h
index cc2af7e..ac71ff8 100644
--- a/src/MathUtils/Angles.h
+++ b/src/MathUtils/Angles.h
@@ -43,6 +43,7 @@ namespace mathutils {
     Real angle = modulo360(a);
     if (angle < 0) {
       angle += 360;
+      if (angle >= 360) angle = 0;  // a tiny negative angle rounds up to a full turn
     }
     return angle;
   }
@@ -63,6 +64,7 @@ namespace mathutils {
     Real angle = modulo2pi(a);
     if (angle < 0) {
       angle += MU_2PI;
+      if (angle >= (Real) MU_2PI) angle = 0;  // a tiny negative angle rounds up to a full turn
     }
     return angle;
   }
-- 
2.43.0


From 1989032d6f067e769f43213db86950886a82ad5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:42 +0000
Subject: [PATCH 22/23] fix: RegularGridInterpolator reports the added
 coordinate limits before AddVar

GetCoordMinVal/GetCoordMaxVal returned 0 until the values were given (the
limits were only filled when the interpolator was built).
---
 src/MathUtils/RegularGridInterpolator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/RegularGridInterpolator.h b/src/MathUtils/RegularGridInterpolator.h
index de57c7e..3447d61 100644
--- a/src/MathUtils/RegularGridInterpolator.h
+++ b/src/MathUtils/RegularGridInterpolator.h
@@ -233,7 +233,7 @@ Real RegularGridInterpolator<Real, _dim>::GetCoordMaxVal(unsigned int idx) const
     std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension" << std::endl;
     exit(EXIT_FAILURE);
   }
-  return m_limits[idx].second;
+  return m_grid_list.at(idx).back();
 }
 
 template<typename Real, size_t _dim>
@@ -242,7 +242,7 @@ Real RegularGridInterpolator<Real, _dim>::GetCoordMinVal(unsigned int idx) const
     std::cerr << "In RegularGridInterpolator, requesting a coordinate with index that is out of dimension" << std::endl;
     exit(EXIT_FAILURE);
   }
-  return m_limits[idx].first;
+  return m_grid_list.at(idx).front();
 }
 
 }  // end namespace mathutils
-- 
2.43.0


From 827cfd9f061e13436d9d2e5a0b2b353568e2890d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:05 +0000
Subject: [PATCH 23/23] fix: Matrix33/Matrix66 LeastSquareSolver stopped on an
 Eigen assertion (thin factors of a fixed-size matrix)

---
 src/MathUtils/Matrix33.h | 2 +-
 src/MathUtils/Matrix66.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MathUtils/Matrix33.h b/src/MathUtils/Matrix33.h
index d636313..d183f69 100644
--- a/src/MathUtils/Matrix33.h
+++ b/src/MathUtils/Matrix33.h
@@ -145,7 +145,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
diff --git a/src/MathUtils/Matrix66.h b/src/MathUtils/Matrix66.h
index 7aeea5f..6b8f5e9 100644
--- a/src/MathUtils/Matrix66.h
+++ b/src/MathUtils/Matrix66.h
@@ -143,7 +143,7 @@ namespace mathutils {
       // A typename has to be used because the rhs is not necessary a Matrix66.
       template<typename T>
       T LeastSquareSolver(const T& b) const {
-        return (this->bdcSvd(Eigen::ComputeThinU | Eigen::ComputeThinV).solve(b));
+        return (this->bdcSvd(Eigen::ComputeFullU | Eigen::ComputeFullV).solve(b));
       }
 
       // No LeastSquareSolverContraint because it requires the structure MatrixMN for C and d, which is not available here.
-- 
2.43.0

