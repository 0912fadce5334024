From 28f572fef25d469d3d07126f22af3f5025a14847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 01/65] fix: cartesian derivatives of potentials defined in
 cylindrical or spherical coordinates on the z axis

The chain rule is inapplicable at R=0, where the coordinate transformation is degenerate: the mixed
derivative d2Phi/dxdy was set to d2Phi/dR2, dPhi/dy to dPhi/dR at phi=0, and for potentials evaluated
in spherical coordinates (BasisSet) all derivatives were NaN. Evaluate the function along x, y and
the diagonal instead.
---
 src/coord.cpp               | 65 +++++++++++++++++++++++++++++++++++++
 src/coord.h                 | 21 ++++++++++++
 src/potential_composite.cpp |  8 +++++
 3 files changed, 94 insertions(+)

diff --git a/src/coord.cpp b/src/coord.cpp
index 8132a76..3107f5b 100644
--- a/src/coord.cpp
+++ b/src/coord.cpp
@@ -918,6 +918,71 @@ HessAxi toHess(const GradCyl& srcGrad, const HessCyl& srcHess,
     return dest;
 }
 
+//------ evaluation of gradients/hessians in cartesian coordinates on the z axis, where the ------//
+//------ derivatives of transformation to cylindrical or spherical coordinates are undefined -----//
+namespace {
+/// azimuthal directions along which the function is evaluated: x axis, y axis, and the diagonal
+const double PHI_DIR[3] = { 0, M_PI/2, M_PI/4 };
+}
+
+template<>
+bool evalDegenerate(const IScalarFunction<Cyl>& F, const PosCar& pos,
+    double* value, GradCar* deriv, HessCar* deriv2, double time)
+{
+    if(!(pos.x==0 && pos.y==0))
+        return false;
+    GradCyl grad[3];
+    HessCyl hess[3];
+    for(int d=0; d<(deriv2 ? 3 : 2); d++)
+        F.evalScalar(PosCyl(0, pos.z, PHI_DIR[d]), d==0 ? value : NULL,
+            &grad[d], deriv2 ? &hess[d] : NULL, time);
+    if(deriv) {
+        deriv->dx = grad[0].dR;
+        deriv->dy = grad[1].dR;
+        deriv->dz = grad[0].dz;
+    }
+    if(deriv2) {
+        deriv2->dx2  = hess[0].dR2;
+        deriv2->dy2  = hess[1].dR2;
+        deriv2->dz2  = hess[0].dz2;
+        deriv2->dxdy = hess[2].dR2 - 0.5 * (hess[0].dR2 + hess[1].dR2);
+        deriv2->dxdz = hess[0].dRdz;
+        deriv2->dydz = hess[1].dRdz;
+    }
+    return true;
+}
+
+template<>
+bool evalDegenerate(const IScalarFunction<Sph>& F, const PosCar& pos,
+    double* value, GradCar* deriv, HessCar* deriv2, double time)
+{
+    if(!(pos.x==0 && pos.y==0 && pos.z!=0))
+        return false;
+    const double r = fabs(pos.z), sign = pos.z>0 ? 1 : -1;
+    GradSph grad[3];
+    HessSph hess[3];
+    for(int d=0; d<(deriv2 ? 3 : 2); d++)
+        F.evalScalar(PosSph(r, pos.z>0 ? 0 : M_PI, PHI_DIR[d]), d==0 ? value : NULL,
+            &grad[d], deriv2 ? &hess[d] : NULL, time);
+    if(deriv) {
+        deriv->dx = grad[0].dtheta / r * sign;
+        deriv->dy = grad[1].dtheta / r * sign;
+        deriv->dz = grad[0].dr * sign;
+    }
+    if(deriv2) {
+        double der2[3];  // second derivatives in the direction perpendicular to the z axis
+        for(int d=0; d<3; d++)
+            der2[d] = (hess[d].dtheta2 / r + grad[d].dr) / r;
+        deriv2->dx2  = der2[0];
+        deriv2->dy2  = der2[1];
+        deriv2->dz2  = hess[0].dr2;
+        deriv2->dxdy = der2[2] - 0.5 * (der2[0] + der2[1]);
+        deriv2->dxdz = (hess[0].drdtheta - grad[0].dtheta / r) / r;
+        deriv2->dydz = (hess[1].drdtheta - grad[1].dtheta / r) / r;
+    }
+    return true;
+}
+
 //------ conversion of derivatives of f(r) into gradients/hessians in different coord.sys. ------//
 template<>
 void evalAndConvertSph(const math::IFunction& F,
diff --git a/src/coord.h b/src/coord.h
index 5a28012..5979b59 100644
--- a/src/coord.h
+++ b/src/coord.h
@@ -823,6 +823,25 @@ template<typename srcCS, typename destCS>
 HessT<destCS> toHess(const GradT<srcCS>& srcGrad, const HessT<srcCS>& srcHess,
     const PosDerivT<destCS, srcCS>& deriv, const PosDeriv2T<destCS, srcCS>& deriv2);
 
+/** Evaluate the value of a scalar function and its derivatives at a point where the coordinate
+    transformation from outputCS to evalCS is degenerate (on the z axis), and hence the chain rule
+    used in `evalAndConvert` is not applicable.
+    \return  true if the point is indeed degenerate, and all requested quantities have been computed;
+    false if nothing was done and the general procedure should be used (this is the default).
+*/
+template<typename evalCS, typename outputCS>
+inline bool evalDegenerate(const IScalarFunction<evalCS>& /*F*/, const PosT<outputCS>& /*pos*/,
+    double* /*value*/, GradT<outputCS>* /*deriv*/, HessT<outputCS>* /*deriv2*/, double /*time*/)
+{  return false; }
+
+/// specialization for a function of cylindrical coordinates
+template<> bool evalDegenerate(const IScalarFunction<Cyl>& F, const PosCar& pos,
+    double* value, GradCar* deriv, HessCar* deriv2, double time);
+
+/// specialization for a function of spherical coordinates
+template<> bool evalDegenerate(const IScalarFunction<Sph>& F, const PosCar& pos,
+    double* value, GradCar* deriv, HessCar* deriv2, double time);
+
 /** All-mighty routine for evaluating the value of a scalar function and its derivatives
     in a different coordinate system (evalCS), and converting them to the target
     coordinate system (outputCS).
@@ -838,6 +857,8 @@ void evalAndConvert(const IScalarFunction<evalCS>& F,
 {
     bool needDeriv = deriv!=NULL || deriv2!=NULL;
     bool needDeriv2= deriv2!=NULL;
+    if(needDeriv && evalDegenerate<evalCS, outputCS>(F, pos, value, deriv, deriv2, time))
+        return;
     GradT<evalCS> evalGrad;
     HessT<evalCS> evalHess;
     PosDerivT <outputCS, evalCS> coordDeriv;
diff --git a/src/potential_composite.cpp b/src/potential_composite.cpp
index 6a058f0..e3c45ea 100644
--- a/src/potential_composite.cpp
+++ b/src/potential_composite.cpp
@@ -308,6 +308,14 @@ Composite::Composite(const std::vector<PtrPotential>& _components) :
 void Composite::evalCar(const coord::PosCar &pos,
     double* potential, coord::GradCar* deriv, coord::HessCar* deriv2, double time) const
 {
+    if(pos.x==0 && pos.y==0) {
+        // coordinate transformations are degenerate on the z axis, so the gradients/hessians cannot be
+        // accumulated in other coordinate systems: ask each component to deal with this case itself
+        evalComponents<coord::Cyl, coord::Sph>(
+            components, std::vector<char>(components.size(), CoordT<coord::Car>::id),
+            pos, potential, deriv, deriv2, time);
+        return;
+    }
     evalComponents<coord::Cyl, coord::Sph>(
         components, componentTypes, pos, potential, deriv, deriv2, time);
 }
-- 
2.43.0


From 9adf68ea130da799bc0a88b3961cd2145099e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 02/65] fix: uninitialized azimuthal second derivatives in
 PerfectEllipsoid

---
 src/potential_perfect_ellipsoid.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/potential_perfect_ellipsoid.cpp b/src/potential_perfect_ellipsoid.cpp
index 4fa0d86..a74403f 100644
--- a/src/potential_perfect_ellipsoid.cpp
+++ b/src/potential_perfect_ellipsoid.cpp
@@ -134,6 +134,7 @@ void PerfectEllipsoid::evalAxi(const coord::PosAxi& pos,
         deriv2->drho2   = Phi * d2Mdrho2_over_M   + norm * M * (2 * dlnMdrho * dGrho + d2Grho);
         deriv2->dnu2    = Phi * d2Mdnu2_over_M    + norm * M * (2 * dlnMdnu  * dGnu  + d2Gnu);
         deriv2->drhodnu = Phi * d2Mdrhodnu_over_M + norm * M * (dlnMdrho * dGnu + dlnMdnu * dGrho);
+        deriv2->drhodphi = deriv2->dnudphi = deriv2->dphi2 = 0;
     }
 }
 
-- 
2.43.0


From 60884e73fe52f4e570cd462e0d91465c8818248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 03/65] fix: null pointer dereference in BasisSet when only the
 second derivative is requested (lmax=0)

---
 src/potential_multipole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 720179e..c203833 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -2310,7 +2310,7 @@ void BasisSet::evalSph(const coord::PosSph &pos,
     if(ind.lmax == 0) {   // fast track in the spherical case
         if(potential)
             *potential = Phi_lm[0];
-        if(needGrad) {
+        if(grad) {
             grad->dr = dPhi_lm[0];
             grad->dtheta = grad->dphi = 0;
         }
-- 
2.43.0


From 2703fc2ce0fea45c5f0064106ded2e2880252f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 04/65] fix: sign of second derivatives of KeplerBinary
 potential

---
 src/potential_analytic.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/potential_analytic.cpp b/src/potential_analytic.cpp
index 315eab2..4540b65 100644
--- a/src/potential_analytic.cpp
+++ b/src/potential_analytic.cpp
@@ -210,12 +210,12 @@ void KeplerBinary::evalCar(const coord::PosCar &pos,
             deriv->dz += z * minvr * invr2;
         }
         if(deriv2) {
-            deriv2->dx2  += minvr * invr2 * (3 * pow_2(x) * invr2 - 1);
-            deriv2->dy2  += minvr * invr2 * (3 * pow_2(y) * invr2 - 1);
-            deriv2->dz2  += minvr * invr2 * (3 * pow_2(z) * invr2 - 1);
-            deriv2->dxdy += minvr * pow_2(invr2) * 3 * x * y;
-            deriv2->dydz += minvr * pow_2(invr2) * 3 * y * z;
-            deriv2->dxdz += minvr * pow_2(invr2) * 3 * x * z;
+            deriv2->dx2  += minvr * invr2 * (1 - 3 * pow_2(x) * invr2);
+            deriv2->dy2  += minvr * invr2 * (1 - 3 * pow_2(y) * invr2);
+            deriv2->dz2  += minvr * invr2 * (1 - 3 * pow_2(z) * invr2);
+            deriv2->dxdy -= minvr * pow_2(invr2) * 3 * x * y;
+            deriv2->dydz -= minvr * pow_2(invr2) * 3 * y * z;
+            deriv2->dxdz -= minvr * pow_2(invr2) * 3 * x * z;
         }
     }
 }
-- 
2.43.0


From 7dff2d8b1f6ef68c94f9dc835c11b8fc1e60c878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 05/65] fix: NaN second derivative of a spherical cored Dehnen
 potential at the origin

---
 src/potential_dehnen.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/potential_dehnen.cpp b/src/potential_dehnen.cpp
index a769fb4..8ee8431 100644
--- a/src/potential_dehnen.cpp
+++ b/src/potential_dehnen.cpp
@@ -119,6 +119,10 @@ void Dehnen::evalCar(const coord::PosCar &pos,
             deriv2->dxdy = val2 * xr * yr;
             deriv2->dydz = val2 * yr * zr;
             deriv2->dxdz = val2 * zr * xr;
+            if(r==0 && gamma==0) {  // isotropic and finite at the center of a cored model
+                deriv2->dx2  = deriv2->dy2  = deriv2->dz2  = mass / pow_3(scalerad);
+                deriv2->dxdy = deriv2->dydz = deriv2->dxdz = 0;
+            }
         }
         return;
     }
-- 
2.43.0


From 7cb0a4351594721f370f426166fc7246c5b0e342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 06/65] fix: CylSpline lost the m=1 part of the force on the z
 axis

The R-derivative of the |m|=1 azimuthal harmonics of the potential does not vanish at R=0 (only the
harmonics themselves do); setting it to zero produced a wrong force and a discontinuous second
derivative everywhere inside the first radial grid segment.
---
 src/potential_cylspline.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index 4035940..eaf54a0 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -211,8 +211,10 @@ void computeFourierCoefs(const BaseDensityOrPotential &src,
                     int m = indices[i];
                     double val = coefs_m[useSine ? m+mmax : m];
                     coefs[q].at(m+mmax)(iR, iz) =
-                        // at R=0, all non-axisymmetric harmonics must vanish
-                        (iR==0 && m!=0) || (fabs(val) < norm * EPS_COEF) ? 0 :
+                        // at R=0, all non-axisymmetric harmonics must vanish,
+                        // except the R-derivative (q==1) of the |m|=1 terms
+                        (iR==0 && m!=0 && !(q==1 && abs(m)==1 && isFinite(val))) ||
+                        (fabs(val) < norm * EPS_COEF) ? 0 :
                         val / (m==0 ? 2*M_PI : M_PI);
                 }
             }
@@ -273,6 +275,11 @@ void computePotentialHarmonicAtPoint(int m, double R, double z, double R0, doubl
         values[0] += -mass * s;
         if(useDerivs)
             values[2] += mass * s * (z0-z) / t;
+    } else
+    if(abs(m)==1 && useDerivs && R0==0) {
+        // the potential itself vanishes at R0=0, but its derivative does not
+        double t1 = t + EPS2_SOFTENING;
+        values[1] += -0.5 * mass * R / (t1 * sqrt(t1));
     }
 }
 
@@ -333,9 +340,12 @@ public:
         // workaround for the n-dimensional quadrature routine: it seems to be unable
         // to properly handle cases when one of components of the integrand is identically zero,
         // that's why we output 1 instead, and zero it out later
-        if(useDerivs && R0==0)
+        if(useDerivs && R0==0 && abs(m)!=1)
             for(size_t p=0; p<npoints; p++)
                 values[p * nvalues + 1] = 1;
+        if(useDerivs && R0==0 && abs(m)==1)
+            for(size_t p=0; p<npoints; p++)
+                values[p * nvalues] = values[p * nvalues + 2] = 1;
         if(useDerivs && isZReflSymmetric(dens) && z0==0)
             for(size_t p=0; p<npoints; p++)
                 values[p * nvalues + 2] = 1;
@@ -408,8 +418,10 @@ void computePotentialCoefsFromDensity(const BaseDensity &dens,
                     result, error, &numEval);
                 if(gridz[iz]==0 && isZReflSymmetric(dens))
                     result[2] = 0;
-                if(gridR[iR]==0)
+                if(gridR[iR]==0 && abs(m)!=1)
                     result[1] = 0;
+                if(gridR[iR]==0 && abs(m)==1)
+                    result[0] = result[2] = 0;
                 for(unsigned int q=0; q<numQuantitiesOutput; q++)
                     output[q].at(m+mmax)(iR,iz) += result[q];
             }
@@ -1022,8 +1034,8 @@ shared_ptr<const CylSpline> CylSpline::create(
                         dPhidz[mm](iR, iz) = 0; // z-derivative is zero in the symmetry plane
         }
         for(unsigned int mm=0; mm<dPhidR.size(); mm++)
-            if(dPhidR[mm].cols()>0)  // loop over all non-empty harmonics
-                dPhidR[mm](0, iz) = 0;  // R-derivative at R=0 should always be zero
+            if(dPhidR[mm].cols()>0 && abs((int)mm-mmaxSrc) != 1)  // loop over all non-empty harmonics
+                dPhidR[mm](0, iz) = 0;  // R-derivative at R=0 should be zero, except for |m|=1
     }
     // resize the coefficients back to the requested order and symmetry
     restrictFourierCoefs<3>(mmax, symExp, coefs, gridz);
@@ -1183,7 +1195,7 @@ CylSpline::CylSpline(
             spl[mm] = haveDerivs ?
                 math::PtrInterpolator2d(new math::QuinticSpline2d(gridR, gridz, val, derR, derz)) :
                 math::PtrInterpolator2d(new math::CubicSpline2d(gridR, gridz, val,
-                    /*regularize*/false, /*dPhi/dR at R=0*/0, /*other derivs unspecified*/NAN, NAN, NAN));
+                    /*regularize*/false, /*dPhi/dR at R=0*/ abs(m)==1 ? NAN : 0, /*other derivs unspecified*/NAN, NAN, NAN));
             // check if this non-trivial harmonic breaks any symmetry
             if(m!=0)  // no z-rotation symmetry because m!=0 coefs are non-zero
                 mysym &= ~coord::ST_ZROTATION;
-- 
2.43.0


From b01ab4478ee3bbff4692d2591b628f96511b1454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 07/65] fix: out-of-bounds access when constructing CylSpline
 from density without derivatives

---
 src/potential_cylspline.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index eaf54a0..6200bf8 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -992,7 +992,11 @@ shared_ptr<const CylSpline> CylSpline::create(
 
     std::vector< math::Matrix<double> > coefs[3]; // Phi, dPhidR, dPhidz
     computePotentialCoefsFromDensity(*dens, mmax, gridR, gridz, useDerivs, /*output*/coefs);
-    restrictFourierCoefs<3>(mmax, symExp, coefs, gridz);  // enforce z-reflection symmetry if needed
+    // enforce z-reflection symmetry if needed (derivatives are only available if requested)
+    if(useDerivs)
+        restrictFourierCoefs<3>(mmax, symExp, coefs, gridz);
+    else
+        restrictFourierCoefs<1>(mmax, symExp, coefs, gridz);
     return shared_ptr<const CylSpline>(new CylSpline(gridR, gridz, coefs[0], coefs[1], coefs[2]));
 }
 
-- 
2.43.0


From a6d3656936f49548ecbc16ee016d594529f43f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 08/65] fix: projected potential was computed with respect to a
 differently oriented central line of sight

---
 src/potential_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index efbe0e9..959c129 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -127,7 +127,7 @@ public:
             needPhi? &Phi : NULL, needGrad? &grad_int : NULL, needHess? &hess_int : NULL, time);
         int numOutputs = 0;
         if(needPhi) {
-            pot.eval(coord::PosCar(0, 0, Z), &Phi0, NULL, NULL, time);
+            pot.eval(orientation.fromRotated(coord::PosCar(0, 0, Z)), &Phi0, NULL, NULL, time);
             values[numOutputs++] = nan2num((Phi-Phi0) * dZds);
         }
         if(needGrad) {
-- 
2.43.0


From 717f5abe1d2e3dd7ccbb1e2705740f96f69a54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:47 +0000
Subject: [PATCH 09/65] fix: density of a non-axisymmetric potential on the z
 axis

The Laplacian at R=0 was computed as if the second derivatives along x and y were equal.
---
 src/potential_base.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/potential_base.cpp b/src/potential_base.cpp
index 2598c7f..03957b9 100644
--- a/src/potential_base.cpp
+++ b/src/potential_base.cpp
@@ -56,8 +56,14 @@ double BasePotential::densityCyl(const coord::PosCyl &pos, double time) const
     double derivR_over_R = deriv.dR / pos.R;
     double deriv2phi_over_R2 = deriv2.dphi2 / pow_2(pos.R);
     if(pos.R <= fabs(pos.z) * SQRT_DBL_EPSILON) {  // close to or exactly on the z axis
+        // the sum of second derivatives along two perpendicular directions in the x-y plane,
+        // which are different if the potential is not axisymmetric
         derivR_over_R = deriv2.dR2;
         deriv2phi_over_R2 = 0;
+        if(!isZRotSymmetric(symmetry())) {
+            eval(coord::PosCyl(pos.R, pos.z, pos.phi + M_PI/2), NULL, NULL, &deriv2, time);
+            std::swap(derivR_over_R, deriv2.dR2);
+        }
     }
     double result = (deriv2.dR2 + derivR_over_R + deriv2.dz2 + deriv2phi_over_R2);
     if(!(fabs(result) > EPSREL_DENSITY_DER * (fabs(deriv2.dR2) + fabs(derivR_over_R) +
@@ -75,8 +81,14 @@ double BasePotential::densitySph(const coord::PosSph &pos, double time) const
     math::sincos(pos.theta, sintheta, costheta);
     double derivr_over_r = deriv.dr / pos.r;
     double derivtheta_cottheta = deriv.dtheta * costheta / sintheta;
-    if(sintheta==0)
+    if(sintheta==0) {
+        // similarly, need to sum the derivatives along two perpendicular directions
         derivtheta_cottheta = deriv2.dtheta2;
+        if(!isZRotSymmetric(symmetry())) {
+            eval(coord::PosSph(pos.r, pos.theta, pos.phi + M_PI/2), NULL, NULL, &deriv2, time);
+            std::swap(derivtheta_cottheta, deriv2.dtheta2);
+        }
+    }
     double angular_part = (deriv2.dtheta2 + derivtheta_cottheta + 
         (sintheta!=0 ? deriv2.dphi2 / pow_2(sintheta) : 0) ) / pow_2(pos.r);
     if(pos.r==0) {
-- 
2.43.0


From 49ea4de17023a667e8843ba6a768accbf235bbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 10/65] fix: enclosed mass of a CylSpline potential

It was estimated from the force in the equatorial plane alone, which is wrong by tens of percent
(and not even monotonic with radius) for a flattened potential; use the spherically averaged force.
---
 src/potential_cylspline.cpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index 6200bf8..f35085e 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -1462,26 +1462,16 @@ void CylSpline::getCoefs(
 
 double CylSpline::enclosedMass(double radius) const
 {
-    if(radius==0)
-        return 0;
+    if(radius < INFINITY)
+        // average the radial force over the sphere (its value in the equatorial plane is not enough,
+        // since the potential is usually far from spherical)
+        return BasePotential::enclosedMass(radius);
+    // total mass is determined by the asymptotic expansion outside the grid
     int mmax = (spl.size()-1)/2;
-    double Rscaled = asinh(radius/Rscale);
-    if( Rscaled<spl[mmax]->xmin() || Rscaled>spl[mmax]->xmax() ) {
-        // outside the grid definition region, use the asymptotic expansion
-        if(radius == INFINITY)
-            radius = sinh(spl[mmax]->xmax()) * 1e20;
-        coord::GradCyl grad;
-        asymptOuter->eval(coord::PosCyl(radius, 0, 0), NULL, &grad);
-        return grad.dR * pow_2(radius);
-    }
-    // use the radial derivative of the m=0 harmonic to estimate the enclosed mass
-    double dRscaleddR = 1 / sqrt(pow_2(radius) + pow_2(Rscale)), Phi0, dPhi0dRscaled;
-    spl[mmax]->evalDeriv(Rscaled, 0, &Phi0, &dPhi0dRscaled);
-    if(logScaling) {
-        Phi0 = -exp(Phi0);
-        dPhi0dRscaled *= Phi0;
-    }
-    return dPhi0dRscaled * dRscaleddR * pow_2(radius);
+    radius = sinh(spl[mmax]->xmax()) * 1e20;
+    coord::GradCyl grad;
+    asymptOuter->eval(coord::PosCyl(radius, 0, 0), NULL, &grad);
+    return grad.dR * pow_2(radius);
 }
 
 }  // namespace potential
-- 
2.43.0


From 977fd6f0a558554c78463e76e83c6baaf911772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:43 +0000
Subject: [PATCH 11/65] fix: spurious convergence of the total mass estimate

The extrapolated mass was accepted when two subsequent estimates happened to be close to each other, e.g.,
near a maximum of the estimate (off by up to 20% for exponential disks with some values of scale radius).
---
 src/potential_base.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/potential_base.cpp b/src/potential_base.cpp
index 03957b9..90f6fc3 100644
--- a/src/potential_base.cpp
+++ b/src/potential_base.cpp
@@ -177,7 +177,7 @@ double BaseDensity::totalMass() const
     double rad=32;
     double mass1, mass2 = enclosedMass(rad), mass3 = enclosedMass(rad*2);
     double massEst=0, massEstPrev;
-    int numIter=0;
+    int numIter=0, numConverged=0;
     const int maxNumIter=20;
     do{
         rad *= 2;
@@ -190,7 +190,13 @@ double BaseDensity::totalMass() const
         massEstPrev = massEst>0 ? massEst : mass3;
         massEst = (mass2 * mass2 - mass1 * mass3) / (2 * mass2 - mass1 - mass3);
         numIter++;
-    } while(numIter<maxNumIter && (massEst<0 || fabs((massEstPrev-massEst)/massEst)>EPSREL_DENSITY_INT));
+        // two subsequent estimates may agree by coincidence when still far from the asymptotic regime,
+        // so need to have three of them before declaring convergence
+        if(massEst<0 || fabs((massEstPrev-massEst)/massEst)>EPSREL_DENSITY_INT)
+            numConverged = 0;
+        else
+            numConverged++;
+    } while(numIter<maxNumIter && numConverged<2);
     if(!isFinite(massEst) || massEst<=0)
         // (negative means that mass is growing at least logarithmically with radius)
         massEst = INFINITY;   // total mass seems to be infinite
-- 
2.43.0


From 8c646b8d55bcca9cf61bdfd3eefab0bcccef2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 12/65] fix: inadmissible parameters of elementary potentials
 were silently accepted

---
 src/potential_analytic.h          | 43 ++++++++++++++++++++++++++-----
 src/potential_dehnen.cpp          |  2 ++
 src/potential_perfect_ellipsoid.h |  6 ++++-
 3 files changed, 43 insertions(+), 8 deletions(-)

diff --git a/src/potential_analytic.h b/src/potential_analytic.h
index b957019..954ab90 100644
--- a/src/potential_analytic.h
+++ b/src/potential_analytic.h
@@ -5,6 +5,7 @@
 */
 #pragma once
 #include "potential_base.h"
+#include <stdexcept>
 
 namespace potential{
 
@@ -13,7 +14,11 @@ namespace potential{
 class Plummer: public BasePotentialSphericallySymmetric{
 public:
     Plummer(double _mass, double _scaleRadius) :
-        mass(_mass), scaleRadius(_scaleRadius) {}
+        mass(_mass), scaleRadius(_scaleRadius)
+    {
+        if(!(scaleRadius >= 0))
+            throw std::invalid_argument("Plummer: scale radius must be non-negative");
+    }
     virtual std::string name() const { return myName(); }
     static std::string myName() { return "Plummer"; }
     virtual double enclosedMass(const double radius) const;
@@ -36,7 +41,11 @@ private:
 class Isochrone: public BasePotentialSphericallySymmetric{
 public:
     Isochrone(double _mass, double _scaleRadius) :
-        mass(_mass), scaleRadius(_scaleRadius) {}
+        mass(_mass), scaleRadius(_scaleRadius)
+    {
+        if(!(scaleRadius >= 0))
+            throw std::invalid_argument("Isochrone: scale radius must be non-negative");
+    }
     virtual std::string name() const { return myName(); }
     static std::string myName() { return "Isochrone"; }
     virtual double totalMass() const { return mass; }
@@ -54,7 +63,11 @@ private:
 class NFW: public BasePotentialSphericallySymmetric{
 public:
     NFW(double _mass, double _scaleRadius) :
-        mass(_mass), scaleRadius(_scaleRadius) {}
+        mass(_mass), scaleRadius(_scaleRadius)
+    {
+        if(!(scaleRadius > 0))
+            throw std::invalid_argument("NFW: scale radius must be positive");
+    }
     virtual std::string name() const { return myName(); }
     static std::string myName() { return "NFW"; }
     virtual double totalMass() const { return INFINITY; }
@@ -73,7 +86,11 @@ private:
 class MiyamotoNagai: public BasePotentialCyl{
 public:
     MiyamotoNagai(double _mass, double _scaleRadiusA, double _scaleRadiusB) :
-        mass(_mass), scaleRadiusA(_scaleRadiusA), scaleRadiusB(_scaleRadiusB) {};
+        mass(_mass), scaleRadiusA(_scaleRadiusA), scaleRadiusB(_scaleRadiusB)
+    {
+        if(!(scaleRadiusA >= 0 && scaleRadiusB >= 0))
+            throw std::invalid_argument("MiyamotoNagai: scale radii must be non-negative");
+    }
     virtual coord::SymmetryType symmetry() const { return coord::ST_AXISYMMETRIC; }
     virtual std::string name() const { return myName(); }
     static std::string myName() { return "MiyamotoNagai"; }
@@ -100,7 +117,10 @@ public:
         double lengthUnit=1) :
         v0squared(pow_2(v0)), coreRadius2(pow_2(coreRadius)),
         p2(pow_2(axisRatioYtoX)), q2(pow_2(axisRatioZtoX)), lengthUnit2(pow_2(lengthUnit))
-    {}
+    {
+        if(!(axisRatioYtoX > 0 && axisRatioZtoX > 0))
+            throw std::invalid_argument("Logarithmic: axis ratios must be positive");
+    }
     virtual coord::SymmetryType symmetry() const {
         return p2==1 ? (q2==1 ? coord::ST_SPHERICAL : coord::ST_AXISYMMETRIC) : coord::ST_TRIAXIAL; }
     virtual std::string name() const { return myName(); }
@@ -122,7 +142,11 @@ private:
 class Harmonic: public BasePotentialCar{
 public:
     Harmonic(double Omega, double axisRatioYtoX=1, double axisRatioZtoX=1) :
-        Omega2(pow_2(Omega)), p2(pow_2(axisRatioYtoX)), q2(pow_2(axisRatioZtoX)) {}
+        Omega2(pow_2(Omega)), p2(pow_2(axisRatioYtoX)), q2(pow_2(axisRatioZtoX))
+    {
+        if(!(axisRatioYtoX > 0 && axisRatioZtoX > 0))
+            throw std::invalid_argument("Harmonic: axis ratios must be positive");
+    }
     virtual coord::SymmetryType symmetry() const {
         return p2==1 ? (q2==1 ? coord::ST_SPHERICAL : coord::ST_AXISYMMETRIC) : coord::ST_TRIAXIAL; }
     virtual std::string name() const { return myName(); }
@@ -169,7 +193,12 @@ struct KeplerBinaryParams {
 /** Time-dependent potential of a binary BH on a Kepler orbit in the x-y plane, centered at origin */
 class KeplerBinary: public BasePotentialCar {
 public:
-    KeplerBinary(const KeplerBinaryParams& _params) : params(_params) {}
+    KeplerBinary(const KeplerBinaryParams& _params) : params(_params)
+    {
+        if(!(params.q >= 0 && params.sma >= 0 && params.ecc >= 0 && params.ecc <= 1))
+            throw std::invalid_argument("KeplerBinary: mass ratio and semimajor axis "
+                "must be non-negative, eccentricity must be between 0 and 1");
+    }
     virtual std::string name() const { return myName(); }
     static std::string myName() { return "KeplerBinary"; }
     virtual coord::SymmetryType symmetry() const
diff --git a/src/potential_dehnen.cpp b/src/potential_dehnen.cpp
index 8ee8431..365a98b 100644
--- a/src/potential_dehnen.cpp
+++ b/src/potential_dehnen.cpp
@@ -32,6 +32,8 @@ Dehnen::Dehnen(double _mass, double _scalerad, double _gamma, double _axisRatioY
         throw std::invalid_argument("Dehnen potential: scale radius must be positive");
     if(gamma<0 || gamma>2)
         throw std::invalid_argument("Dehnen potential: gamma must lie in the range [0:2]");
+    if(!(axisRatioY>0 && axisRatioZ>0))
+        throw std::invalid_argument("Dehnen potential: axis ratios must be positive");
 }
 
 double Dehnen::densityCar(const coord::PosCar& pos, double /*time*/) const
diff --git a/src/potential_perfect_ellipsoid.h b/src/potential_perfect_ellipsoid.h
index c4420f7..4640183 100644
--- a/src/potential_perfect_ellipsoid.h
+++ b/src/potential_perfect_ellipsoid.h
@@ -5,6 +5,7 @@
 */
 #pragma once
 #include "potential_base.h"
+#include <stdexcept>
 
 namespace potential{
 
@@ -76,7 +77,10 @@ class PerfectEllipsoid: public BasePotentialCyl {
 public:
     PerfectEllipsoid(double _mass, double _scaleRadiusA, double _scaleRadiusB) :
         mass(_mass), scaleRadiusA(_scaleRadiusA), scaleRadiusB(_scaleRadiusB)
-    {}
+    {
+        if(!(scaleRadiusA > 0 && scaleRadiusB > 0))
+            throw std::invalid_argument("PerfectEllipsoid: scale radius and axis ratio must be positive");
+    }
 
     virtual coord::SymmetryType symmetry() const {
         return scaleRadiusA == scaleRadiusB ? coord::ST_SPHERICAL : coord::ST_AXISYMMETRIC; }
-- 
2.43.0


From 79f084c4a5f870178f0562bb62cf1f7a3fc93cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 13/65] fix: 'file' argument of an elementary potential was
 silently ignored

---
 src/potential_factory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 8fa40da..b819bf7 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1762,6 +1762,8 @@ PtrPotential createPotential(
         }
         // 6. the remaining alternative is an elementary potential, or an error
         default:
+            if(!param.file.empty())
+                throw std::invalid_argument("createPotential: cannot provide both type and file");
             bunch.componentsPot.push_back(createAnalyticPotential(param));
         }
     }
-- 
2.43.0


From 520f9558df9854065ca0450d6e0e07b825d26a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 14/65] fix: Multipole with lmax=2 lost m=1 harmonics of models
 symmetric w.r.t. two reflections

---
 src/potential_multipole.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index c203833..4995d81 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -694,7 +694,8 @@ void sphHarmTransformInverseDeriv(
     const double C_lm[], const double dC_lm[], const double d2C_lm[],
     double *val, coord::GradSph *grad, coord::HessSph *hess)
 {
-    if(ind.lmax==2 && ind.mmin()==0 && ind.step==2) {  // an optimized special case
+    // an optimized special case with the only possible terms being l=0,m=0; l=2,m=0; l=2,m=2
+    if(ind.lmax==2 && ind.mmin()==0 && ind.step==2 && (ind.mmax==0 || ind.lmin(1) > ind.lmax)) {
         sphHarmTransformInverseDeriv2(ind, pos, C_lm, dC_lm, d2C_lm, val, grad, hess);
         return;
     }
-- 
2.43.0


From 733743f9bddcde59b861189daa97baa32ea14c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:23 +0000
Subject: [PATCH 15/65] fix: last line of a text file was ignored if not
 terminated by newline

---
 src/particles_io.cpp      | 2 +-
 src/potential_factory.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles_io.cpp b/src/particles_io.cpp
index b1d4d4a..74521b6 100644
--- a/src/particles_io.cpp
+++ b/src/particles_io.cpp
@@ -103,7 +103,7 @@ ParticleArrayAux readSnapshotText(const std::string& fileName, const units::Exte
     ParticleArrayAux points;
     std::string buffer;
     std::vector<std::string> fields;
-    while(std::getline(strm, buffer) && !strm.eof())
+    while(std::getline(strm, buffer))
     {
         if(!buffer.empty() && utils::isComment(buffer[0]))  // commented line
             continue;
diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index b819bf7..006c754 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -1138,7 +1138,7 @@ static void readTimeDependentArray(
     if(!strm)
         throw std::runtime_error(errorTimeDependentArray(K, str));
     std::string buffer;
-    while(std::getline(strm, buffer) && !strm.eof()) {
+    while(std::getline(strm, buffer)) {
         if(!buffer.empty() && utils::isComment(buffer[0]))  // commented line
             continue;
         fields = utils::splitString(buffer, ";, \t");
-- 
2.43.0


From 7308efccb945fec342ae0990b99133d045bbc92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 16/65] fix: blank values in configuration files were not
 stripped of whitespace (failed to parse with CRLF line endings)

---
 src/utils_config.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils_config.cpp b/src/utils_config.cpp
index eccdc6d..3092f10 100644
--- a/src/utils_config.cpp
+++ b/src/utils_config.cpp
@@ -39,8 +39,7 @@ void KeyValueMap::add(const char* line)
         if(indx!=std::string::npos && indx>0)
             buffer.erase(0, indx);
         indx = buffer.find_last_not_of(" \t\n\r");        // and trailing spaces at the end of the line
-        if(indx!=std::string::npos && indx+1<buffer.size())
-            buffer.erase(indx+1);
+        buffer.erase(indx==std::string::npos ? 0 : indx+1);  // (a blank value becomes an empty string)
         // do not allow a key to appear twice (there is no way to store and retrieve
         // two separate values, so they are banned outright)
         if(contains(key))
-- 
2.43.0


From ecd1c7e657fb7379b31045ac435384d4aaba97f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:20 +0000
Subject: [PATCH 17/65] fix: export of a BasisSet potential with nmax=0 failed

---
 src/potential_factory.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/potential_factory.cpp b/src/potential_factory.cpp
index 006c754..26e44a2 100644
--- a/src/potential_factory.cpp
+++ b/src/potential_factory.cpp
@@ -869,7 +869,10 @@ void writePotentialBasisSet(std::ostream& strm, const BasisSet& pot,
     strm << "r0="   << utils::toString(r0, 15) << "\n";
     strm << "symmetry=" << getSymmetryNameByType(pot.symmetry()) << "\n";
     strm << "Coefficients\n#Phi\n";
-    writeSphericalHarmonics(strm, math::createUniformGrid(coefs[0].size(), 0, coefs[0].size()-1), coefs);
+    std::vector<double> indices(coefs[0].size());  // 0..nmax
+    for(unsigned int n=0; n<indices.size(); n++)
+        indices[n] = n;
+    writeSphericalHarmonics(strm, indices, coefs);
 }
 
 void writePotentialMultipole(std::ostream& strm, const Multipole& pot,
-- 
2.43.0


From 9af5130fc32fe7ff46ab225fda2f127f52c36ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:42 +0000
Subject: [PATCH 18/65] fix: total mass estimate when the extrapolation does
 not formally converge

---
 src/potential_base.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/potential_base.cpp b/src/potential_base.cpp
index 90f6fc3..89844fe 100644
--- a/src/potential_base.cpp
+++ b/src/potential_base.cpp
@@ -176,8 +176,10 @@ double BaseDensity::totalMass() const
     // default implementation attempts to estimate the asymptotic behaviour of density as r -> infinity
     double rad=32;
     double mass1, mass2 = enclosedMass(rad), mass3 = enclosedMass(rad*2);
-    double massEst=0, massEstPrev;
-    int numIter=0, numConverged=0;
+    double massEst=0, massEstPrev, change=INFINITY, changePrev;
+    // estimate with the smallest variation among three subsequent ones
+    double massBest=0, changeBest=INFINITY;
+    int numIter=0;
     const int maxNumIter=20;
     do{
         rad *= 2;
@@ -192,11 +194,17 @@ double BaseDensity::totalMass() const
         numIter++;
         // two subsequent estimates may agree by coincidence when still far from the asymptotic regime,
         // so need to have three of them before declaring convergence
-        if(massEst<0 || fabs((massEstPrev-massEst)/massEst)>EPSREL_DENSITY_INT)
-            numConverged = 0;
-        else
-            numConverged++;
-    } while(numIter<maxNumIter && numConverged<2);
+        changePrev = change;
+        change = massEst>0 ? fabs((massEstPrev-massEst)/massEst) : INFINITY;
+        if(fmax(change, changePrev) < changeBest) {
+            changeBest = fmax(change, changePrev);
+            massBest   = massEst;
+        }
+    } while(numIter<maxNumIter && changeBest>EPSREL_DENSITY_INT);
+    // the extrapolation amplifies the integration errors when the mass nearly stops growing with radius,
+    // so if it did not formally converge, the last estimate is not necessarily the most accurate one
+    if(changeBest<0.01)
+        return massBest;
     if(!isFinite(massEst) || massEst<=0)
         // (negative means that mass is growing at least logarithmically with radius)
         massEst = INFINITY;   // total mass seems to be infinite
-- 
2.43.0


From 26a23cf934d2002829d327ec4ff5fb6e17671df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 19/65] fix: final state of the orbit if updated by a runtime
 function, and continuation of the orbit by another run()

---
 src/orbit.cpp | 17 +++++++++++++++--
 src/orbit.h   |  2 ++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/orbit.cpp b/src/orbit.cpp
index 122d984..672aff0 100644
--- a/src/orbit.cpp
+++ b/src/orbit.cpp
@@ -55,6 +55,7 @@ coord::PosVelCar BaseOrbitIntegrator::run(const double totalTime)
     size_t numSteps = 0;
     double sign = totalTime>0 ? +1 : -1;   // integrate forward (+1) or backward (-1) in time
     double currentTime = solver->getTime(), endTime = totalTime + currentTime;
+    stateChanged = false;
     while(true) {
         if(!(solver->doStep(sign>0 ? +0.0 : -0.0) * sign > 0.)) {
             // signal of error
@@ -63,14 +64,24 @@ coord::PosVelCar BaseOrbitIntegrator::run(const double totalTime)
             break;
         }
         double prevTime = currentTime;
-        currentTime = fmin(solver->getTime()*sign, endTime*sign) * sign;
+        double solverTime = solver->getTime();
+        currentTime = fmin(solverTime*sign, endTime*sign) * sign;
         bool contin = true;
+        stateChanged = false;
         for(size_t i=0; contin && i<fncs.size(); i++)
             contin &= fncs[i]->processTimestep(prevTime, currentTime);
+        if(stateChanged && solver->getTime() != solverTime)
+            currentTime = solver->getTime();  // a runtime function has reset both the state and the time
         if(!contin || currentTime*sign >= endTime*sign || ++numSteps >= maxNumSteps)
             break;
     }
-    return getSol(currentTime);
+    // the last timestep of the ODE solver may extend beyond the end time, so the final state is obtained
+    // by interpolation, unless it was updated by a runtime function at the end of this timestep
+    const coord::PosVelCar result = getSol(stateChanged ? solver->getTime() : currentTime);
+    // make sure that the next call to run() will continue from the current state and time
+    if(solver->getTime() != currentTime)
+        init(result, currentTime);
+    return result;
 }
 
 template<typename CoordT>
@@ -79,6 +90,7 @@ void OrbitIntegrator<CoordT>::init(const coord::PosVelCar& ic, double time)
     double posvel[6];
     coord::toPosVel<coord::Car, CoordT>(ic).unpack_to(posvel);
     solver->init(posvel, time);
+    stateChanged = true;
 }
 
 // a different implementation for the cartesian case, where the integration is performed
@@ -100,6 +112,7 @@ void OrbitIntegrator<coord::Car>::init(const coord::PosVelCar& ic, double time)
     else
         ic.unpack_to(posvel);
     solver->init(posvel, time);
+    stateChanged = true;
 }
 
 template<>
diff --git a/src/orbit.h b/src/orbit.h
index c50a444..1ae62e3 100644
--- a/src/orbit.h
+++ b/src/orbit.h
@@ -160,6 +160,7 @@ class BaseOrbitIntegrator: public math::IOdeSystemHermite {
     std::vector<PtrRuntimeFnc> fncs; ///< list of runtime functions attached to the given orbit
 protected:
     shared_ptr<math::BaseOdeSolver> solver; ///< the actual ODE integrator
+    bool stateChanged;               ///< set to true each time the orbit state is assigned by init()
 public:
     /// gravitational potential in which the orbit is computed (accessible to runtime functions)
     const potential::BasePotential& potential;
@@ -172,6 +173,7 @@ public:
         const OrbitIntParams& params)
     :
         maxNumSteps(params.maxNumSteps),
+        stateChanged(false),
         potential(_potential), Omega(_Omega)
     {
         if(params.useHermite)
-- 
2.43.0


From 1b4f222b4418c268b5e8525ac4a8b95673bb374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:56 +0000
Subject: [PATCH 20/65] fix: deviation vectors missing at the last output time
 when the initial time is large

---
 src/orbit_variational.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/orbit_variational.cpp b/src/orbit_variational.cpp
index 02891a2..8236d1a 100644
--- a/src/orbit_variational.cpp
+++ b/src/orbit_variational.cpp
@@ -164,9 +164,9 @@ bool RuntimeVariational::processTimestep(double tbegin, double tend)
     // 2. if needed, store the deviation vector(s) at regular intervals of time
     if(outputDeviationVectors && samplingInterval > 0 && samplingInterval < INFINITY) {
         double sign = tend>=tbegin ? +1 : -1;  // integrating forward or backward in time
-        ptrdiff_t ibegin = static_cast<ptrdiff_t>(sign * (tbegin-t0) / samplingInterval);
-        ptrdiff_t iend   = static_cast<ptrdiff_t>(sign * (tend-t0)   / samplingInterval * (1 + ROUNDOFF));
-        double dtroundoff = ROUNDOFF * fmax(fabs(tend), fabs(tbegin));
+        double dtroundoff = ROUNDOFF * fmax(fmax(fabs(tend), fabs(tbegin)), fabs(t0));
+        ptrdiff_t ibegin = static_cast<ptrdiff_t>((sign * (tbegin-t0) - dtroundoff) / samplingInterval);
+        ptrdiff_t iend   = static_cast<ptrdiff_t>((sign * (tend-t0)   + dtroundoff) / samplingInterval);
         for(ptrdiff_t iout=std::max<ptrdiff_t>(ibegin, 1); iout<=iend; iout++) {
             double tout = sign * samplingInterval * iout + t0;
             if(sign * tout >= sign * tbegin - dtroundoff && sign * tout <= sign * tend + dtroundoff)
-- 
2.43.0


From c62bb813b0ee9894e581b89105bce3022deb1c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 21/65] fix: repeated timestamps in the recorded trajectory
 when a timestep is below the floating-point precision

---
 src/orbit.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/orbit.cpp b/src/orbit.cpp
index 672aff0..709a0f7 100644
--- a/src/orbit.cpp
+++ b/src/orbit.cpp
@@ -39,8 +39,10 @@ bool RuntimeTrajectory::processTimestep(const double tbegin, const double tend)
         // store trajectory at every integration timestep
         if(trajectory.empty())  // add the initial point
             trajectory.push_back(Trajectory::value_type(orbint.getSol(tbegin), tbegin));
-        // add the current point (at the end of the timestep)
-        trajectory.push_back(Trajectory::value_type(orbint.getSol(tend), tend));
+        // add the current point (at the end of the timestep), unless the timestep was so small
+        // that the time has not changed at the floating-point precision
+        if(tend != tbegin)
+            trajectory.push_back(Trajectory::value_type(orbint.getSol(tend), tend));
     }
     return true;
 }
-- 
2.43.0


From 5b984176f89ea1d229694ca7fa1602c0fa8cfc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:29 +0000
Subject: [PATCH 22/65] fix: crash in orbit() when the interpolated orbit could
 not be created (Python objects were deallocated without holding the GIL)

---
 src/interface_python.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 72ee59c..818ef6b 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -7288,10 +7288,12 @@ static PyTypeObject OrbitType = {
 /// In other cases, the output array will be populated with one (if outputTime==false) or two
 /// new PyObject* elements per orbit: the numpy array of timestamps (only if outputTime==true)
 /// and another numpy array of phase-space points.
-/// \return  true on success, false if failed to allocate arrays
-/// (in this case, PyErr_SetString is called to report the error)
+/// \param[out] errorMessage  is assigned in case of an error (Python exceptions cannot be raised
+/// in this routine, because it is called from different threads that do not hold the GIL).
+/// \return  true on success, false if failed to allocate arrays or construct the interpolators
 bool createOrbit(int dtype, const orbit::Trajectory &traj,
-    double Omega, bool outputTime, double normFactor, /*output*/ PyObject* output[])
+    double Omega, bool outputTime, double normFactor,
+    /*output*/ PyObject* output[], std::string& errorMessage)
 {
     npy_intp size = traj.size();
     if(dtype == NPY_OBJECT) {
@@ -7359,8 +7361,11 @@ bool createOrbit(int dtype, const orbit::Trajectory &traj,
                 ", "  +utils::toString(((SplineObject*)orbit->z)->spl.get()));
         }
         catch(std::exception& ex) {
+            // this routine is called without holding the GIL, so it needs to be acquired again
+            // in order to deallocate the Orbit object and the three Spline objects
+            PyAcquireGIL lock;
             Py_DECREF(orbit);
-            raisePythonException(ex);
+            errorMessage = ex.what();
             return false;
         }
         *output = (PyObject*)orbit;   // place the pointer for the newly created Orbit
@@ -7878,7 +7883,7 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                     PyArray_DATA(result_arrays[numTargets])) +
                     orb * result_numCols[numTargets];
                 // store the orbit in the output array in the form depending on dtype
-                if(!createOrbit(dtype, traj, Omega, /*outputTime*/true, /*normFactor*/1, output))
+                if(!createOrbit(dtype, traj, Omega, /*outputTime*/true, /*normFactor*/1, output, errorMessage))
                     fail = true;
             }
 
@@ -7895,7 +7900,7 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                     // their dimensions should be scaled by position (first 3 vectors) or velocity
                     double normFactor = vec<3 ? conv->lengthUnit : conv->velocityUnit;
                     if(!createOrbit(dtype, deviationVectors[vec], Omega,
-                        /*outputTime*/false, normFactor, output))
+                        /*outputTime*/false, normFactor, output, errorMessage))
                         fail = true;
                 }
             }
-- 
2.43.0


From 04eff674040d592b7e10195a9355920249a48da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:47 +0000
Subject: [PATCH 23/65] fix: mapIsochrone gave a wrong result for the radial
 angle outside the range 0..2pi

---
 src/actions_isochrone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions_isochrone.cpp b/src/actions_isochrone.cpp
index f32b6a8..2520152 100644
--- a/src/actions_isochrone.cpp
+++ b/src/actions_isochrone.cpp
@@ -79,7 +79,7 @@ coord::PosVelCyl mapIsochrone(
     math::sincos(eta, sineta, coseta);
     double ra = 1 - ecc * coseta;   // Kepler problem:  r / a = 1 - e cos(eta)
     double tanhalfeta = coseta==-1 ? INFINITY : sineta / (1 + coseta);
-    double thetar   = aa.thetar - (eta>M_PI ? 2*M_PI : 0);
+    double thetar   = math::wrapAngle(aa.thetar) - (eta>M_PI ? 2*M_PI : 0);
     double psi1     = atan(fac1 * tanhalfeta);
     double psi2     = atan(fac2 * tanhalfeta);
     double psi      = aa.thetaz - LL1 * thetar + psi1 + psi2 * L/L1;
-- 
2.43.0


From e478f95e5b63bf1189ca712e218543963dd4c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:36 +0000
Subject: [PATCH 24/65] fix: frequencies of nearly circular orbits in spherical
 potentials

---
 src/actions_spherical.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 45ccb13..7a867c8 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -159,6 +159,22 @@ inline double integr(const math::IFunction& poten,
         0, math::scale(scaling, R), integrOrder(R1/R2)) + add;
 }
 
+/// compute the frequencies of radial and azimuthal motion for the standalone functions
+void computeFrequencies(const potential::BasePotential& pot,
+    double E, double L, double R1, double R2, /*output*/ double& Omegar, double& Omegaz)
+{
+    if(!(R2 <= R1 * (1 + 1e-5))) {  // normal case
+        potential::Sphericalized<potential::BasePotential> sphPot(pot);
+        Omegar = M_PI / integr<MODE_OMEGAR>(sphPot, E, L, R1, R2);
+        Omegaz = Omegar * integr<MODE_OMEGAZ>(sphPot, E, L, R1, R2) / M_PI;
+    } else {
+        // nearly circular orbit: the radial velocity is dominated by roundoff errors,
+        // while the epicyclic approximation is accurate to second order in eccentricity
+        double Omega;  // same as nu in a spherical potential, ignored
+        epicycleFreqs(pot, 0.5 * (R1+R2), Omegar, Omegaz, Omega);
+    }
+}
+
 /// helper function to find the upper limit of integral for the radial phase,
 /// such that its value equals the target
 class RadiusFromPhaseFinder: public math::IFunction {
@@ -574,8 +590,7 @@ coord::PosVelCyl mapSpherical(
     findPlanarOrbitExtent(pot, E, L, R1, R2);
     Frequencies freq;
     potential::Sphericalized<potential::BasePotential> sphPot(pot);
-    freq.Omegar = M_PI / integr<MODE_OMEGAR>(sphPot, E, L, R1, R2);
-    freq.Omegaz = freq.Omegar * integr<MODE_OMEGAZ>(sphPot, E, L, R1, R2) / M_PI;
+    computeFrequencies(pot, E, L, R1, R2, /*output*/ freq.Omegar, freq.Omegaz);
     freq.Omegaphi = freq.Omegaz * math::sign(aa.Jphi);
     if(freqout)  // freak out only if requested
         *freqout = freq;
@@ -611,12 +626,7 @@ void evalSpherical(const potential::BasePotential& pot, const coord::PosVelCyl&
     // if angles are requested, frequencies need to be computed as well
     if(ang || freqout) {
         Frequencies freq;
-        if(R2 > R1 * (1 + 1e-8)) {  // normal case
-            freq.Omegar = M_PI / integr<MODE_OMEGAR>(sphPot, E, L, R1, R2);
-            freq.Omegaz = freq.Omegar * integr<MODE_OMEGAZ>(sphPot, E, L, R1, R2) / M_PI;
-        } else {  // degenerate case of a purely circular orbit
-            epicycleFreqs(pot, point.R, freq.Omegar, freq.Omegaz, /*ignored*/ freq.Omegaphi);
-        }
+        computeFrequencies(pot, E, L, R1, R2, /*output*/ freq.Omegar, freq.Omegaz);
         freq.Omegaphi = freq.Omegaz * math::sign(point.vphi);
         if(freqout)  // freak out only if requested
             *freqout = freq;
-- 
2.43.0


From 4f3fd72c7ab77828d5084e995b1bab8167b6c1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 25/65] fix: angle computation in spherical potentials produced
 zero theta_z at points very close to the pericenter

---
 src/actions_spherical.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index 7a867c8..d6583b5 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -108,13 +108,13 @@ public:
         // r cannot be zero because the integrand is never evaluated at endpoints of the interval
         double Phi = potential.value(r);
         double vr2 = 2*(E-Phi) - pow_2(L/r);
-        if(vr2<=0 || !isFinite(vr2) || r==R1) return 0;
+        if(vr2<=0 || !isFinite(vr2) || r<=R1) return 0;  // r<R1 is possible due to roundoff errors
         double vr  = sqrt(vr2);
         if(mode==MODE_JR)     return vr;
         if(mode==MODE_OMEGAR) return 1/vr;
-        if(mode==MODE_OMEGAZ) return L/(r*r*vr) - 1/(sqrt(pow_2(r/R1)-1)*r);
+        if(mode==MODE_OMEGAZ) return L/(r*r*vr) - 1/(sqrt((r-R1)/R1*(r/R1+1))*r);
         // in the latter case, a singular term with analytic antiderivative
-        // is subtracted from the integrand
+        // is subtracted from the integrand (it remains finite for any r>R1)
         assert(!"Invalid mode in action integrand");
         return 0;
     }
-- 
2.43.0


From a2479e76839e56a173e440adf4ae979ac6117dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:16 +0000
Subject: [PATCH 26/65] fix: angles in the isochrone potential at or very close
 to the peri/apocenter

---
 src/actions_isochrone.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/actions_isochrone.cpp b/src/actions_isochrone.cpp
index 2520152..f8832e9 100644
--- a/src/actions_isochrone.cpp
+++ b/src/actions_isochrone.cpp
@@ -33,10 +33,12 @@ void evalIsochrone(
         double psi  = atan2(pointCyl.z * L,  -pointCyl.R * point.vtheta * point.r);
         double chi  = atan2(pointCyl.z * point.vphi, -point.vtheta * point.r);
         double eta  = atan2(k1, k2);                         // eccentric anomaly
-        double sineta     = k1 / sqrt(k1*k1 + k2*k2);        // sin(eta)
-        double tanhalfeta = eta==0 ? 0 : -k2/k1 + 1/sineta;  // tan(eta/2)
-        ang->thetar   = math::wrapAngle(eta - sineta * ecc );
-        ang->thetaz   = math::wrapAngle(psi + 0.5 * (1 + L/L1) * (ang->thetar - (eta<0 ? 2*M_PI : 0))
+        double k          = sqrt(k1*k1 + k2*k2);
+        double sineta     = eta==0 ? 0 : k1 / k;             // sin(eta)
+        double tanhalfeta = eta==0 ? 0 : k2>=0 ? k1 / (k + k2) : (k - k2) / k1;  // tan(eta/2)
+        double thr        = eta - sineta * ecc;              // theta_r in the range -pi..pi
+        ang->thetar   = math::wrapAngle(thr);
+        ang->thetaz   = math::wrapAngle(psi + 0.5 * (1 + L/L1) * thr
                       - atan(fac1 * tanhalfeta) - atan(fac2 * tanhalfeta) * L/L1 );
         ang->thetaphi = math::wrapAngle(point.phi - chi + math::sign(Lz) * ang->thetaz);
         if(pointCyl.z==0 && pointCyl.vz==0)  // if Jz=0, the value of theta_z is meaningless
-- 
2.43.0


From 8654aacd77f32b9c5873bb10d1f68e9165cc28c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 27/65] fix: peri/apocenter radii of nearly circular orbits
 could be spoiled by roundoff errors in root refinement, leading to infinite
 frequencies

---
 src/potential_utils.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index 959c129..11cb55d 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -352,7 +352,7 @@ public:
 };
 
 /// root polishing routine to improve the accuracy of peri/apocenter radii determination
-inline double refineRoot(const math::IFunction& pot, double R, double E, double L)
+inline double refineRoot(const math::IFunction& pot, double R, double Rcirc, double E, double L)
 {
     double val, der, der2;
     pot.evalDeriv(R, &val, &der, &der2);
@@ -361,7 +361,9 @@ inline double refineRoot(const math::IFunction& pot, double R, double E, double
     double Fp = pow_2(L/R)/R - der;
     double Fpp= -3*pow_2(L/(R*R)) - der2;
     double dR = -F / (Fp - 0.5 * F * Fpp / Fp);
-    return fabs(dR) < 0.25*R ? R+dR : R;  // precaution to avoid unpredictably large corrections
+    // precaution to avoid unpredictably large corrections, in particular those dominated by
+    // roundoff errors for nearly circular orbits, when both F and Fp are very small
+    return fabs(dR) < 0.25*R && fabs(dR) < 0.5 * fabs(R-Rcirc) ? R+dR : R;
 }
 
 /// helper class for finding the minimum or a given value of the potential along the line of sight
@@ -713,8 +715,8 @@ void findPlanarOrbitExtent(const BasePotential& potential, double E, double L, d
             R1 = Rcirc * (1-offset);
             R2 = Rcirc * (1+offset);
             // root polishing to improve the accuracy of peri/apocenter radii determination
-            R1 = fmin(Rcirc, refineRoot(axipot, R1, E, L));
-            R2 = fmax(Rcirc, refineRoot(axipot, R2, E, L));
+            R1 = fmin(Rcirc, refineRoot(axipot, R1, Rcirc, E, L));
+            R2 = fmax(Rcirc, refineRoot(axipot, R2, Rcirc, E, L));
         } else {
             // normal case
             RPeriApoRootFinder fnc(axipot, E, L);
@@ -1168,8 +1170,8 @@ void Interpolator2d::findPlanarOrbitExtent(double E, double L,
     R1 = (1 - sqrt(intR1.value(scaledE, Lrel))) * Rc;
     R2 = (1 + sqrt(intR2.value(scaledE, Lrel))) * Rc;
     // one iteration of root polishing
-    R1 = fmin(refineRoot(*this, R1, E, L), Rc);
-    R2 = fmax(refineRoot(*this, R2, E, L), Rc);
+    R1 = fmin(refineRoot(*this, R1, Rc, E, L), Rc);
+    R2 = fmax(refineRoot(*this, R2, Rc, E, L), Rc);
 }
 
 
-- 
2.43.0


From 382f639d94fb4efb7e6ad3f4163bd8fb80b0218c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:49 +0000
Subject: [PATCH 28/65] fix: angles of circular orbits in the isochrone
 potential were NaN or zero

---
 src/actions_isochrone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actions_isochrone.cpp b/src/actions_isochrone.cpp
index f8832e9..89409bd 100644
--- a/src/actions_isochrone.cpp
+++ b/src/actions_isochrone.cpp
@@ -24,7 +24,7 @@ void evalIsochrone(
     }
     if(ang) {
         double j0invsq = M*b / pow_2(J0);
-        double ecc  = sqrt(pow_2(1-j0invsq) - pow_2(L/J0));
+        double ecc  = sqrt(fmax(0, pow_2(1-j0invsq) - pow_2(L/J0)));  // protect against roundoff
         double fac1 = (1 + ecc - j0invsq) * J0 / L;
         double fac2 = (1 + ecc + j0invsq) * J0 / L1;
         // below are quantities that depend on position along the orbit
-- 
2.43.0


From c503db35da91b027a87d05cf2968359439a6198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:11 +0000
Subject: [PATCH 29/65] fix: theta_phi was always zero for orbits in the
 equatorial plane (Staeckel/Fudge action finders)

---
 src/actions_staeckel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index ccaa2f8..efca03a 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -590,7 +590,8 @@ AxisymGenFuncDerivatives computeGenFuncDerivatives(
     // the integral over nu is split into the analytically computed singular part
     // and the remaining regular part integrated numerically
     double delta_minus_nu_max = fnc.point.coordsys.Delta2 - lim.nu_max;
-    double singpart = 2 * sqrt(-2 * lim.nu_max / integrand.dfdnu_at_nu_max / delta_minus_nu_max ) *
+    double singpart = lim.nu_max==0 ? 0 :  // for a planar orbit, the derivative at nu=0 is undefined
+        2 * sqrt(-2 * lim.nu_max / integrand.dfdnu_at_nu_max / delta_minus_nu_max ) *
         (atan(sqrt( lim.nu_max / delta_minus_nu_max)) -
          atan(sqrt((lim.nu_max - fabs(fnc.point.nu)) / delta_minus_nu_max)));
     der.dSdLz = fnc.Lz==0 ? 0 : fnc.point.phi +
-- 
2.43.0


From 22286cb83ec0d6265cbe80895a83f2b4de895df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 30/65] fix: frequencies of nearly circular (shell) orbits in
 Staeckel/Fudge action finders were dominated by numerical noise

---
 src/actions_staeckel.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index efca03a..03dbed5 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -37,6 +37,11 @@ static const double ACCURACY_RANGE = 1e-6;
 /** minimum range of variation of nu, lambda that is considered to be non-zero */
 static const double MINIMUM_RANGE = 1e-10;
 
+/** if the relative width of the range of lambda is smaller than this value, compute the derivatives
+    of actions in the limiting case of a shell orbit: the integrals along a very narrow interval are
+    dominated by roundoff errors, while the limiting value is accurate to second order in its width */
+static const double NARROW_RANGE = 1e-2;
+
 /// accuracy parameter determining the spacing of the interpolation grid along the energy axis
 static const double ACCURACY_INTERP2 = 1e-4;
 
@@ -491,6 +496,9 @@ AxisymActionDerivatives computeActionDerivatives(
     const AxisymFunctionBase& fnc, const AxisymIntLimits& lim)
 {
     AxisymActionDerivatives der;
+    const double lambda_mid = 0.5 * (lim.lambda_min + lim.lambda_max);
+    const bool narrow = lim.lambda_max - lim.lambda_min <=
+        NARROW_RANGE * (lim.lambda_min - fnc.point.coordsys.Delta2);
     AxisymIntegrand integrand(fnc, lim.nu_max);
     math::ScaledIntegrand<math::ScalingCub>
         transf_l(math::ScalingCub(lim.lambda_min, lim.lambda_max), integrand),
@@ -499,22 +507,22 @@ AxisymActionDerivatives computeActionDerivatives(
     // derivatives w.r.t. E
     integrand.a = AxisymIntegrand::aminus1;
     integrand.c = AxisymIntegrand::czero;
-    der.dJrdE = (lim.lambda_min==lim.lambda_max ? 
-        integrand.limitingIntegralValue(lim.lambda_min) :
+    der.dJrdE = (narrow ?
+        integrand.limitingIntegralValue(lambda_mid) :
         math::integrateGL(transf_l, 0, 1, lim.integrOrder) ) / (4*M_PI);
     der.dJzdE = math::integrateGL(transf_n, 0, 1, lim.integrOrder) / (2*M_PI);
     // derivatives w.r.t. I3
     integrand.a = AxisymIntegrand::aminus1;
     integrand.c = AxisymIntegrand::cminus1;
-    der.dJrdI3 = - (lim.lambda_min==lim.lambda_max ? 
-        integrand.limitingIntegralValue(lim.lambda_min) :
+    der.dJrdI3 = - (narrow ?
+        integrand.limitingIntegralValue(lambda_mid) :
         math::integrateGL(transf_l, 0, 1, lim.integrOrder) ) / (4*M_PI);
     der.dJzdI3 = -math::integrateGL(transf_n, 0, 1, lim.integrOrder) / (2*M_PI);
     // derivatives w.r.t. Lz
     integrand.a = AxisymIntegrand::aminus2;
     integrand.c = AxisymIntegrand::czero;
-    der.dJrdLz = -fnc.Lz * (lim.lambda_min==lim.lambda_max ? 
-        integrand.limitingIntegralValue(lim.lambda_min) :
+    der.dJrdLz = -fnc.Lz * (narrow ?
+        integrand.limitingIntegralValue(lambda_mid) :
         math::integrateGL(transf_l, 0, 1, lim.integrOrder) ) / (4*M_PI);
     // the following integral is split into the analytically computed singular part
     // and the remaining regular part integrated numerically
-- 
2.43.0


From 2fe83b65b94765cde2a6f15973a6fa2457b5d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:51 +0000
Subject: [PATCH 31/65] fix: theta_z was off by pi for downward-moving orbits
 at z=0 (Staeckel/Fudge action finders)

---
 src/actions_staeckel.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index 03dbed5..5ae296f 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -647,11 +647,12 @@ Angles computeAngles(const AxisymIntDerivatives& derI, const AxisymGenFuncDeriva
     on the angles (assuming that the actions are constant); in principle, this may be used
     to skip the computation of the matrix of integral derivatives (not presently implemented).
     \param[in]  fnc  is the instance of `AxisymFunctionStaeckel` or `AxisymFunctionFudge`.
+    \param[in]  vz   is the vertical velocity (only its sign is needed, and only when z=0).
     \param[out] act  if not NULL, store actions in this variable.
     \param[out] ang  if not NULL, store angles in this variable.
     \param[out] freq if not NULL, store frequencies in this variable.
 */
-void evalAxisym(const AxisymFunctionBase& fnc,
+void evalAxisym(const AxisymFunctionBase& fnc, double vz,
     Actions* act, Angles* ang, Frequencies* freq)
 {
     if(!isFinite(fnc.E+fnc.I3+fnc.Lz) || fnc.E>=0) {
@@ -672,7 +673,8 @@ void evalAxisym(const AxisymFunctionBase& fnc,
             *freq = derI;
         if(ang) {
             AxisymGenFuncDerivatives derS = computeGenFuncDerivatives(fnc, lim);
-            bool addPiToThetaZ = fnc.point.nudot<0 && fnc.Lz!=0;
+            // nudot is always zero in the equatorial plane, so use the direction of vertical motion
+            bool addPiToThetaZ = (fnc.point.nu==0 ? vz<0 : fnc.point.nudot<0) && fnc.Lz!=0;
             *ang = computeAngles(derI, derS, addPiToThetaZ);
         }
     }
@@ -686,7 +688,8 @@ void evalAxisymStaeckel(
     const potential::OblatePerfectEllipsoid& potential, const coord::PosVelCyl& point,
     Actions* act, Angles* ang, Frequencies* freq)
 {
-    evalAxisym(findIntegralsOfMotionOblatePerfectEllipsoid(potential, point), act, ang, freq);
+    evalAxisym(findIntegralsOfMotionOblatePerfectEllipsoid(potential, point), point.vz,
+        act, ang, freq);
 }
 
 void evalAxisymFudge(
@@ -698,7 +701,7 @@ void evalAxisymFudge(
     if(focalDistance<=0)
         focalDistance = fmax(point.R, 1.) * 1e-4;   // this is a temporary workaround!
     evalAxisym(findIntegralsOfMotionAxisymFudge(potential, point, coord::ProlSph(focalDistance)),
-        act, ang, freq);
+        point.vz, act, ang, freq);
 }
 
 
-- 
2.43.0


From d4efb7392007ca584a1e2aeacbdf5a684b50d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 32/65] fix: value of the cored DoublePowerLaw DF at J=0 was
 zero instead of the finite central value

---
 src/df_halo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/df_halo.cpp b/src/df_halo.cpp
index ddb922b..2e3aa54 100644
--- a/src/df_halo.cpp
+++ b/src/df_halo.cpp
@@ -102,9 +102,10 @@ void DoublePowerLaw::evalDeriv(const actions::Actions &J,
     if(par.Jcutoff>0)   // exponential cutoff at large J
         *value *= exp(-gJcz);
     if(par.Jcore>0) {   // central core of nearly-constant f(J) at small J
-        if(h==0)
-            *value = par.norm / pow_3(2*M_PI * par.J0);
-        *value *= math::pow(1 + par.Jcore/h * (par.Jcore/h - beta), -0.5*par.slopeIn);
+        if(h==0)  // limiting value at J=0, where the power-law factor is cancelled by the core factor
+            *value = par.norm / pow_3(2*M_PI * par.J0) * math::pow(par.J0 / par.Jcore, par.slopeIn);
+        else
+            *value *= math::pow(1 + par.Jcore/h * (par.Jcore/h - beta), -0.5*par.slopeIn);
     }
     // add the odd part if necessary
     double rot = par.rotFrac!=0 && par.Jphi0!=INFINITY ? par.rotFrac * tanh(J.Jphi / par.Jphi0) : 0;
-- 
2.43.0


From 9e6c8b5eab5c655a8bf5a873bca87f3e910235d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 33/65] fix: rotating DoublePowerLaw DF with Jphi0=0 was NaN at
 Jphi=0

---
 src/df_halo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/df_halo.cpp b/src/df_halo.cpp
index 2e3aa54..db8cd05 100644
--- a/src/df_halo.cpp
+++ b/src/df_halo.cpp
@@ -108,7 +108,7 @@ void DoublePowerLaw::evalDeriv(const actions::Actions &J,
             *value *= math::pow(1 + par.Jcore/h * (par.Jcore/h - beta), -0.5*par.slopeIn);
     }
     // add the odd part if necessary
-    double rot = par.rotFrac!=0 && par.Jphi0!=INFINITY ? par.rotFrac * tanh(J.Jphi / par.Jphi0) : 0;
+    double rot = par.rotFrac!=0 && J.Jphi!=0 && par.Jphi0!=INFINITY ? par.rotFrac * tanh(J.Jphi / par.Jphi0) : 0;
     *value *= (1+rot);
 
     if(deriv) {
-- 
2.43.0


From b30d31c6789784dafa7e2ef44ed687c43053fa34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 34/65] fix: QuasiIsothermal DF was NaN instead of zero at
 large radii, where the velocity dispersion underflows

---
 src/df_disk.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/df_disk.cpp b/src/df_disk.cpp
index 918d68a..b6a4877 100644
--- a/src/df_disk.cpp
+++ b/src/df_disk.cpp
@@ -51,14 +51,22 @@ void QuasiIsothermal::evalDeriv(const actions::Actions &J,
     // suppression factor for counterrotating orbits
     negJphi = J.Jphi>0 ? 0. : 2*Omega * J.Jphi,
     // arguments of q-exponential functions for Jr, Jz and Rcirc(J)
-    argJr   = (kappa * J.Jr - negJphi) * invsigmarsq,
-    argJz   = nu * J.Jz * invsigmazsq,
-    argRc   = Rcirc / par.Rdisk;
-    *value  = 1./(2*M_PI*M_PI) * par.Sigma0 * (1 - par.qJphi) * (1 - par.qJr) * (1 - par.qJz) *
-        nu * Omega / kappa * invsigmarsq * invsigmazsq *
-        math::qexp(-argRc, -par.qJphi) *
+    argJr   = J.Jr==0 && negJphi==0 ? 0 : (kappa * J.Jr - negJphi) * invsigmarsq,
+    argJz   = J.Jz==0 ? 0 : nu * J.Jz * invsigmazsq,
+    argRc   = Rcirc / par.Rdisk,
+    expterm = math::qexp(-argRc, -par.qJphi) *
         math::qexp(-argJr, -par.qJr) *
         math::qexp(-argJz, -par.qJz);
+    if(expterm == 0) {
+        // at large radii, the velocity dispersions may become extremely small, so that their inverse
+        // squares overflow, but the DF itself is zero: avoid an indeterminate result
+        *value = 0;
+        if(deriv)
+            deriv->dbyJr = deriv->dbyJz = deriv->dbyJphi = 0;
+        return;
+    }
+    *value  = 1./(2*M_PI*M_PI) * par.Sigma0 * (1 - par.qJphi) * (1 - par.qJr) * (1 - par.qJz) *
+        nu * Omega / kappa * invsigmarsq * invsigmazsq * expterm;
 
     if(deriv) {
         double
-- 
2.43.0


From 615efe4127a56afd969171f242ff941ca7f8bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:42 +0000
Subject: [PATCH 35/65] fix: anisotropic QuasiSpherical DF was NaN instead of
 zero for Q>=0

---
 src/df_spherical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/df_spherical.cpp b/src/df_spherical.cpp
index 62468f4..3aeeb08 100644
--- a/src/df_spherical.cpp
+++ b/src/df_spherical.cpp
@@ -605,7 +605,7 @@ void QuasiSphericalCOM::evalDeriv(const ClassicalIntegrals& ints,
         deriv->dbyLz = 0;
     }
     // check for invalid range - this shouldn't happen in normal circumstances, so be picky here
-    if(ints.L<0 || fabs(ints.Lz)>ints.L || P<0)
+    if(ints.L<0 || fabs(ints.Lz)>ints.L || (Q<0 && P<0))
         *value = NAN;
 }
 
-- 
2.43.0


From 08d099310b04653818e16b1a38073c5ec13248a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 36/65] fix: account for selection functions depending on
 velocity or on the sign of z in DF integration

---
 src/galaxymodel_base.cpp | 29 ++++++++++++++++++-----------
 src/galaxymodel_base.h   |  8 ++++++++
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index 5439d05..28760d3 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -344,7 +344,9 @@ public:
         orientation(_orientation), smin(0), smax(1),
         // if the orientation is face-on AND at least one velocity component is not known
         // (has infinite error), we may save effort by integrating only over the region Z>=0
-        halfZ(orientation.isFaceOn() && (velerr.vz == INFINITY || velerr.vx==INFINITY))
+        // (also requires that the selection function does not depend on the sign of z or velocity)
+        halfZ(orientation.isFaceOn() && (velerr.vz == INFINITY || velerr.vx==INFINITY) &&
+            model.selFunc.isVelocityIndependent() && model.selFunc.isZReflSymmetric())
     {
         // check that the input uncertainties are coherent
         if((velerr.vx==INFINITY) ^ (velerr.vy==INFINITY))
@@ -507,13 +509,16 @@ template<> struct Scaling<false> {
     typedef coord::PosCar  Type;
     const coord::PosCar pos;    ///< 3d point in the intrinsic coordinate system of the model
     const bool symmetrizevRvz;  ///< if the DF is invariant w.r.t {v_R,v_z <-> -v_R,v_z}, use only v_z>=0
+    static const bool halfZ = false;  ///< not relevant in the non-projected case
     double vesc, zeta;          ///< escape speed and the ratio of circular to escape speed
 
-    Scaling(const potential::BasePotential& pot,
+    // the symmetry holds for any axisymmetric system and possibly even more generally,
+    // provided that the selection function does not depend on velocity
+    Scaling(const potential::BasePotential& pot, const BaseSelectionFunction& selFunc,
         const coord::PosCar& obspos, const coord::Orientation& orientation)
     :
         pos(orientation.fromRotated(obspos)),
-        symmetrizevRvz(true) // this holds for any axisymmetric system and possibly even more generally
+        symmetrizevRvz(selFunc.isVelocityIndependent())
     {
         getVesc(pos, pot, vesc, zeta);
     }
@@ -534,19 +539,21 @@ template<> struct Scaling<true> {
     const coord::PosProj obspos;            ///< 2d point in the observed coordinate system
     const coord::Orientation& orientation;  ///< conversion between intrinsic and observed coords
     const bool symmetrizevRvz;  ///< if the DF is invariant w.r.t {v_R,v_z <-> -v_R,v_z}, use only v_z>=0
+    const bool halfZ;           ///< whether one may limit the integration to Z>0 half-space
 
-    Scaling(const potential::BasePotential& _pot,
+    Scaling(const potential::BasePotential& _pot, const BaseSelectionFunction& selFunc,
         const coord::PosProj& _obspos, const coord::Orientation& _orientation)
     :
         pot(_pot), obspos(_obspos), orientation(_orientation),
-        symmetrizevRvz(true) // this holds for any axisymmetric system and possibly even more generally
+        symmetrizevRvz(selFunc.isVelocityIndependent()),
+        halfZ(orientation.isFaceOn() && selFunc.isVelocityIndependent() && selFunc.isZReflSymmetric())
     {}
 
     /// projected: input variables are scaled Z-coordinate and all three velocity components
     coord::PosVelCar unscale(const double vars[], double &jac) const
     {
         double Z;
-        if(orientation.isFaceOn()) {
+        if(halfZ) {
             // integrating over the half-space Z>=0 using the following transformation
             Z = math::unscale(math::ScalingSemiInf(), vars[0], &jac);
             jac *= 2;   // factor of 2 compensates that we integrate over half-space only
@@ -582,7 +589,7 @@ public:
     :
         DFIntegrandNdim(model, separate),
         orientation(_orientation),
-        scaling(model.potential, obspoint, orientation),
+        scaling(model.potential, model.selFunc, obspoint, orientation),
         needVel(_needVel), needVel2(_needVel2)
     {}
 
@@ -615,7 +622,7 @@ public:
         coord::Vel2Car VEL2;
         VEL2.vx2 = VEL2.vy2 = VEL2.vz2 = VEL2.vxvy = VEL2.vxvz = VEL2.vyvz = 0;
         outerProduct(VEL, VEL2);  // compute the second moment of velocity
-        if(Projected && orientation.isFaceOn()) {
+        if(scaling.halfZ) {
             // add a contribution from {R,-z,vR,-vz}, which projects onto the same X,Y point
             // and has the same vX,vY, but negative sign of vZ, which cancels VEL.vz
             VEL.vz = 0;
@@ -630,7 +637,7 @@ public:
             coord::VelCar VELm = orientation.toRotated(coord::VelCar(
                 -pv.vx * costwophi - pv.vy * sintwophi, -pv.vx * sintwophi + pv.vy * costwophi, -pv.vz));
             outerProduct(VELm, VEL2);  // add to the second moment
-            if(Projected && orientation.isFaceOn()) {
+            if(scaling.halfZ) {
                 VELm.vz = 0;    // cancels for the same reason as above
                 VEL2.vxvz = 0;
                 VEL2.vyvz = 0;
@@ -719,7 +726,7 @@ public:
     :
         DFIntegrandNdim(model, separate),
         orientation(_orientation),
-        scaling(model.potential, point, orientation),
+        scaling(model.potential, model.selFunc, point, orientation),
         bsplvX(gridvX), bsplvY(gridvY), bsplvZ(gridvZ),
         NX(bsplvX.numValues()), NY(bsplvY.numValues()), NZ(bsplvZ.numValues()),
         Ntotal(1 + NX + NY + NZ)
@@ -822,7 +829,7 @@ public:
     virtual void eval(const double vars[], double values[]) const
     {
         try{
-            Scaling<true> scaling(model.potential,
+            Scaling<true> scaling(model.potential, selectionFunctionTrivial,
                 coord::PosProj(/*X*/vars[0], /*Y*/vars[1]), orientation);
             double jac;
             coord::PosVelCar posvel = scaling.unscale(/*Z and velocity components*/ &vars[2], jac);
diff --git a/src/galaxymodel_base.h b/src/galaxymodel_base.h
index c838ed0..064c694 100644
--- a/src/galaxymodel_base.h
+++ b/src/galaxymodel_base.h
@@ -27,6 +27,10 @@ public:
         for(size_t p=0; p<npoints; p++)
             values[p] = value(points[p]);
     }
+    /// whether the function depends only on the position but not on the velocity
+    virtual bool isVelocityIndependent() const { return false; }
+    /// whether the function is invariant under the change of sign of both z and v_z
+    virtual bool isZReflSymmetric() const { return false; }
 };
 
 /** A trivial selection function that is identically unity */
@@ -34,6 +38,8 @@ class SelectionFunctionTrivial: public BaseSelectionFunction {
 public:
     SelectionFunctionTrivial() {}
     virtual double value(const coord::PosVelCar& /*point*/) const { return 1; }
+    virtual bool isVelocityIndependent() const { return true; }
+    virtual bool isZReflSymmetric() const { return true; }
 };
 
 /** A single instance of the trivial selection function used as a default ingredient in GalaxyModel */
@@ -49,6 +55,8 @@ class SelectionFunctionDistance: public BaseSelectionFunction {
 public:
     SelectionFunctionDistance(const coord::PosCar& point0, double radius, double steepness);
     virtual double value(const coord::PosVelCar& point) const;
+    virtual bool isVelocityIndependent() const { return true; }
+    virtual bool isZReflSymmetric() const { return point0.z == 0; }
 };
 
 
-- 
2.43.0


From 4dbfe0a53a504e253988aa614841ff37606fc858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 37/65] fix: wrong array filled when the evaluation of a
 distribution function fails

---
 src/galaxymodel_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index 28760d3..e7e2198 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -276,7 +276,7 @@ public:
         }
         catch(std::exception& e) {
             FILTERMSG(utils::VL_WARNING, "DFIntegrandNdim", std::string(e.what()));
-            std::fill(sf, df + npoints * dflen, 0);  // quietly replace output with zeroes
+            std::fill(df, df + npoints * dflen, 0);  // quietly replace output with zeroes
         }
 
         // 5. perform actual calculation of output values for each [valid and selected] input point
-- 
2.43.0


From 1c2601a50076761107f8c8db2619224412594c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 38/65] fix: GalaxyModel.totalMass(separate=True) returned only
 the first component

---
 src/galaxymodel_base.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index e7e2198..ea6298d 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -486,12 +486,12 @@ public:
 
 private:
     virtual unsigned int numVars()   const { return 6; }
-    virtual unsigned int numValues() const { return 1; }
+    virtual unsigned int numValues() const { return dflen; }
 
-    /// output contains just one value of DF (even for a multicomponent DF)
+    /// output array contains the value of DF (or all values for a multicomponent DF)
     virtual void outputValues(const coord::PosVelCar& , const double dfval[], double values[]) const
     {
-        values[0] = dfval[0];
+        std::copy(dfval, dfval+dflen, values);
     }
 };
 
-- 
2.43.0


From f692f24bcf820ff0fe508ac39adece8e636cf273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:28 +0000
Subject: [PATCH 39/65] fix: DF integration spoiled by roundoff at exactly
 radial velocities for DFs singular at L=0

---
 src/galaxymodel_base.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index ea6298d..bf76ee3 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -252,6 +252,15 @@ public:
             double mult = jac[p] * sf[p];  // overall weight of this point (jacobian * sel.fnc.)
             if(mult > 0 && isFinite(mult)) {
                 actions::Actions acts = model.actFinder.actions(toPosVelCyl(posvel[p]));
+                // if the velocity is directed along the radius (this is frequently encountered
+                // since such points lie on the symmetry axis of the scaled velocity space),
+                // the angular momentum is zero up to roundoff errors: make it exactly zero,
+                // so that points where the DF is singular (e.g., in radially anisotropic models)
+                // are skipped, instead of having an arbitrary and possibly very large value
+                if(acts.Jz + fabs(acts.Jphi) < 1e-13 * sqrt(
+                    (pow_2(posvel[p].x)  + pow_2(posvel[p].y)  + pow_2(posvel[p].z)) *
+                    (pow_2(posvel[p].vx) + pow_2(posvel[p].vy) + pow_2(posvel[p].vz))))
+                    acts.Jz = acts.Jphi = 0;
                 // FIXME: in some cases the Fudge action finder may fail and produce
                 // zero values of Jr,Jz instead of very large ones, which may lead to
                 // unrealistically high DF values. We therefore ignore these points
-- 
2.43.0


From b87be188047aa19ab917d778d226ceeb9b7181bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:54 +0000
Subject: [PATCH 40/65] fix: sampleNdim silently returned NaN samples when the
 boundaries are infinite

---
 src/math_sample.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/math_sample.cpp b/src/math_sample.cpp
index bd59fdd..782c374 100644
--- a/src/math_sample.cpp
+++ b/src/math_sample.cpp
@@ -239,6 +239,8 @@ Sampler::Sampler(const IFunctionNdim& _fnc, const double _xlower[], const double
             throw std::runtime_error(
             "sampleNdim: upper boundary of sampling region must be larger than the lower boundary");
     }
+    if(!isFinite(volume))
+        throw std::runtime_error("sampleNdim: boundaries of sampling region must be finite");
 }
 
 double Sampler::computeResult()
-- 
2.43.0


From f09b530ce2e4727ce2e734b4b17de0ce8e9bf610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:54 +0000
Subject: [PATCH 41/65] fix: spherical Jeans model with beta>1 silently
 assigned NaN velocities

---
 src/galaxymodel_jeans.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/galaxymodel_jeans.cpp b/src/galaxymodel_jeans.cpp
index 8e7236d..f813946 100644
--- a/src/galaxymodel_jeans.cpp
+++ b/src/galaxymodel_jeans.cpp
@@ -46,6 +46,8 @@ public:
 math::LogLogSpline createJeansSphModel(
     const math::IFunction &dens, const math::IFunction &pot, double beta)
 {
+    if(!(beta <= 1.))
+        throw std::invalid_argument("createJeansSphModel: beta should not exceed unity");
     JeansSphIntegrand fnc(pot, dens, beta);
     // create an appropriate grid in log(r) and convert it to grid in r
     std::vector<double> gridr = math::createInterpolationGrid(math::LogLogScaledFnc(fnc), EPSDER2);
-- 
2.43.0


From 12dd798fbc8bffb25603d65a3cb8fb21e9c7397c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 42/65] fix: lost update of the out-of-bounds flag in
 TargetLOSVD constructor

---
 src/galaxymodel_losvd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index a7b1701..682595a 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -210,7 +210,8 @@ TargetLOSVD<N>::TargetLOSVD(const LOSVDParams& params) :
     for(int i = 0; i < (int)numApertures; i++) {
         bool apOutOfBounds = math::computeBsplineIntegralsOverPolygon(
             params.apertures[i], bsplx, bsply, &apertureMatrix(i, 0));
-        outOfBounds |= apOutOfBounds;
+        if(apOutOfBounds)   // do not write 'false' over a value set by another thread
+            outOfBounds = true;
     }
     if(outOfBounds)
         throw std::invalid_argument("TargetLOSVD: datacube does not cover all apertures");
-- 
2.43.0


From 65b03ce04133aceb5a00f07f1353abc60f87161b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:38 +0000
Subject: [PATCH 43/65] fix: data race on the error message in OpenMP-parallel
 loops

---
 src/actions_spherical.cpp   |  6 ++++
 src/actions_staeckel.cpp    |  6 ++++
 src/galaxymodel_base.cpp    |  9 +++--
 src/interface_python.cpp    | 71 +++++++++++++++++++++++++++++--------
 src/math_sample.cpp         |  9 +++--
 src/potential_cylspline.cpp | 18 +++++++---
 src/potential_multipole.cpp | 27 ++++++++++----
 src/potential_utils.cpp     |  3 ++
 8 files changed, 120 insertions(+), 29 deletions(-)

diff --git a/src/actions_spherical.cpp b/src/actions_spherical.cpp
index d6583b5..963cb11 100644
--- a/src/actions_spherical.cpp
+++ b/src/actions_spherical.cpp
@@ -410,6 +410,9 @@ math::QuinticSpline2d createActionInterpolator(const potential::Interpolator2d&
             // derivative w.r.t. X will be obtained from 1d spline after all W values are computed
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
@@ -523,6 +526,9 @@ math::QuinticSpline2d createEnergyInterpolator(const potential::Interpolator2d&
             }
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
diff --git a/src/actions_staeckel.cpp b/src/actions_staeckel.cpp
index 5ae296f..112f8f9 100644
--- a/src/actions_staeckel.cpp
+++ b/src/actions_staeckel.cpp
@@ -737,6 +737,9 @@ void createGridFocalDistance(
             grid2dR(iE, iL) = Rsh / Rc;
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
@@ -886,6 +889,9 @@ ActionFinderAxisymFudge::ActionFinderAxisymFudge(
             }
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
diff --git a/src/galaxymodel_base.cpp b/src/galaxymodel_base.cpp
index bf76ee3..bd02ca5 100644
--- a/src/galaxymodel_base.cpp
+++ b/src/galaxymodel_base.cpp
@@ -40,8 +40,13 @@ void computeDensityParallel(const potential::BaseDensity& density,
             values[i] = density.density(pos[i]);
         }
         catch(std::exception& e) {
-            errorMsg = e.what();
-            stop = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            {
+                errorMsg = e.what();
+                stop = true;
+            }
         }
     }
     if(cbrk.triggered())
diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index 818ef6b..a8c47c0 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -1256,8 +1256,13 @@ public:
                         }
                         catch(std::exception& ex)
                         {
-                            errorMessage = ex.what();
-                            stop = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                            {
+                                errorMessage = ex.what();
+                                stop = true;
+                            }
                         }
                     }
                 } else /*chunk > 0*/ {
@@ -1271,8 +1276,13 @@ public:
                         }
                         catch(std::exception& ex)
                         {
-                            errorMessage = ex.what();
-                            stop = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                            {
+                                errorMessage = ex.what();
+                                stop = true;
+                            }
                         }
                     }
                 }
@@ -6189,6 +6199,9 @@ PyObject* Target_value(TargetObject* self, PyObject* args, PyObject* namedArgs)
             }
         }
         catch(std::exception& ex) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = ex.what();
         }
     }
@@ -6409,12 +6422,22 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                 }
             }
             catch(std::exception& ex) {
-                errorMessage = ex.what();
-                fail = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                {
+                    errorMessage = ex.what();
+                    fail = true;
+                }
             }
             if(cbrk.triggered()) {
-                errorMessage = cbrk.message();
-                fail = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                {
+                    errorMessage = cbrk.message();
+                    fail = true;
+                }
             }
         }
     } else {
@@ -6462,12 +6485,22 @@ PyObject* ghMoments(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                         static_cast<galaxymodel::StorageNumT>(dstrow[m]);
             }
             catch(std::exception& ex) {
-                errorMessage = ex.what();
-                fail = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                {
+                    errorMessage = ex.what();
+                    fail = true;
+                }
             }
             if(cbrk.triggered()) {
-                errorMessage = cbrk.message();
-                fail = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                {
+                    errorMessage = cbrk.message();
+                    fail = true;
+                }
             }
         }
     }
@@ -7365,7 +7398,10 @@ bool createOrbit(int dtype, const orbit::Trajectory &traj,
             // in order to deallocate the Orbit object and the three Spline objects
             PyAcquireGIL lock;
             Py_DECREF(orbit);
-            errorMessage = ex.what();
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            { errorMessage = ex.what(); }
             return false;
         }
         *output = (PyObject*)orbit;   // place the pointer for the newly created Orbit
@@ -7862,8 +7898,13 @@ PyObject* orbit(PyObject* /*self*/, PyObject* args, PyObject* namedArgs)
                 // performing any necessary procedures before going out of scope
             }
             catch(std::exception& ex) {
-                errorMessage = ex.what();
-                fail = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                {
+                    errorMessage = ex.what();
+                    fail = true;
+                }
             }
             // remaining procedures are trivial and should not raise exceptions
 
diff --git a/src/math_sample.cpp b/src/math_sample.cpp
index 782c374..48cf12b 100644
--- a/src/math_sample.cpp
+++ b/src/math_sample.cpp
@@ -302,8 +302,13 @@ void Sampler::evalFncLoop(PointEnum firstPointIndex, PointEnum lastPointIndex)
         }
         // guard against possible exceptions, since they must not leave the OpenMP parallel section
         catch(std::exception& e) {
-            errorMsg = e.what();
-            badValueOccured = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            {
+                errorMsg = e.what();
+                badValueOccured = true;
+            }
         }
         for(PointEnum i=0; i<npoints; i++) {
             double val = fncValues[pointIndex + i];
diff --git a/src/potential_cylspline.cpp b/src/potential_cylspline.cpp
index f35085e..a39fd99 100644
--- a/src/potential_cylspline.cpp
+++ b/src/potential_cylspline.cpp
@@ -427,8 +427,13 @@ void computePotentialCoefsFromDensity(const BaseDensity &dens,
             }
         }
         catch(std::exception& e) {
-            errorMsg = e.what();
-            stop = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            {
+                errorMsg = e.what();
+                stop = true;
+            }
         }
     }
     if(cbrk.triggered())
@@ -548,8 +553,13 @@ void computePotentialCoefsFromParticles(
                 }
             }
             catch(std::exception& e) {
-                errorMsg = e.what();
-                stop = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                {
+                    errorMsg = e.what();
+                    stop = true;
+                }
             }
             // copy the thread-local array into the global array of coefficients
             for(unsigned int i=0; i<indices.size(); i++)
diff --git a/src/potential_multipole.cpp b/src/potential_multipole.cpp
index 4995d81..4759afa 100644
--- a/src/potential_multipole.cpp
+++ b/src/potential_multipole.cpp
@@ -305,8 +305,13 @@ void computeSphericalHarmonicsFromParticles(
                 }
             }
             catch(std::exception& e) {
-                errorMsg = e.what();
-                stop = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                {
+                    errorMsg = e.what();
+                    stop = true;
+                }
             }
         }
     }
@@ -890,8 +895,13 @@ void computeDensityCoefsFromParticles(
                 coefs[nonzeroCoefs[h]][k] = splc(gridLogRadii[k]) * coefs[0][k];
         }
         catch(std::exception& e) {
-            errorMsg = e.what();
-            stop = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            {
+                errorMsg = e.what();
+                stop = true;
+            }
         }
     }
     if(cbrk.triggered())
@@ -2098,8 +2108,13 @@ void computePotentialCoefsBSE(
                 }
             }
             catch(std::exception& e) {
-                errorMsg = e.what();
-                stop = true;
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+                {
+                    errorMsg = e.what();
+                    stop = true;
+                }
             }
         }
         // reduction step: add the coefficients collected in this thread to the global array
diff --git a/src/potential_utils.cpp b/src/potential_utils.cpp
index 11cb55d..f4a35f6 100644
--- a/src/potential_utils.cpp
+++ b/src/potential_utils.cpp
@@ -1125,6 +1125,9 @@ Interpolator2d::Interpolator2d(const BasePotential& potential) :
             gridW1dY(iE, sizeL-1) = gridW2dY(iE, sizeL-1) = -2*Om2kap2;
         }
         catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
             errorMessage = e.what();
         }
     }
-- 
2.43.0


From 47b196b24e2127ceb08144f9395880f34d918a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:30 +0000
Subject: [PATCH 44/65] fix: Ctrl-Break handler stack is modified concurrently
 from several threads

---
 src/utils.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index abeb365..0c36db5 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -215,18 +215,29 @@ CtrlBreakHandler::CtrlBreakHandler()
 {
     // this class could be instantiated multiple times in nested routines,
     // but the break flag is cleared only for the outermost one.
-    if(prevCtrlBreakHandler.empty())
-        ctrlBreakTriggered = false;
-    // store the previous signal handler on the stack, and set the new one
-    prevCtrlBreakHandler.push_back(signal(SIGINT, customCtrlBreakHandler));
+    // Moreover, these routines may be called from several threads at once (e.g., in Python).
+#ifdef _OPENMP
+#pragma omp critical(CtrlBreakHandler)
+#endif
+    {
+        if(prevCtrlBreakHandler.empty())
+            ctrlBreakTriggered = false;
+        // store the previous signal handler on the stack, and set the new one
+        prevCtrlBreakHandler.push_back(signal(SIGINT, customCtrlBreakHandler));
+    }
 }
 
 CtrlBreakHandler::~CtrlBreakHandler()
 {
     // restore the previous handler once the instance of the class is destroyed
-    assert(!prevCtrlBreakHandler.empty());       // it must have been set in the constructor
-    signal(SIGINT, prevCtrlBreakHandler.back()); // restore the previous handler
-    prevCtrlBreakHandler.pop_back();             // and eliminate it from the stack
+#ifdef _OPENMP
+#pragma omp critical(CtrlBreakHandler)
+#endif
+    {
+        assert(!prevCtrlBreakHandler.empty());       // it must have been set in the constructor
+        signal(SIGINT, prevCtrlBreakHandler.back()); // restore the previous handler
+        prevCtrlBreakHandler.pop_back();             // and eliminate it from the stack
+    }
 }
 
 bool CtrlBreakHandler::triggered() { return ctrlBreakTriggered; }
-- 
2.43.0


From 6b2010ff50e16e75ff9779fd854f8d11d9c08532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:30 +0000
Subject: [PATCH 45/65] fix: derivatives of a distribution function for more
 than 1024 points are stored at wrong places

---
 src/interface_python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interface_python.cpp b/src/interface_python.cpp
index a8c47c0..013c9ea 100644
--- a/src/interface_python.cpp
+++ b/src/interface_python.cpp
@@ -4154,7 +4154,7 @@ public:
         for(npy_intp i=0; i<npoints; i++)
             act[i] = convertActions(&inputBuffer[(i + indexStart) * 3]);
         df.evalmany(npoints, act, /*separate*/false, &outputBuffer[0][indexStart],
-            der ? (df::DerivByActions*)(&outputBuffer[1][indexStart]) : NULL);
+            der ? (df::DerivByActions*)(&outputBuffer[1][indexStart*3]) : NULL);
         for(npy_intp indexPoint=indexStart; indexPoint<indexEnd; indexPoint++)
             outputBuffer[0][indexPoint] /=  // DF dimension: M L^-3 V^-3
                 conv->massUnit / pow_3(conv->velocityUnit * conv->lengthUnit);
-- 
2.43.0


From 2c2fa112b9d30d1f15002254c72796335b683856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:24 +0000
Subject: [PATCH 46/65] fix: exceptions in user-defined density terminate the
 program in JeansAxi

---
 src/galaxymodel_jeans.cpp | 166 +++++++++++++++++++++-----------------
 1 file changed, 94 insertions(+), 72 deletions(-)

diff --git a/src/galaxymodel_jeans.cpp b/src/galaxymodel_jeans.cpp
index f813946..26e81d9 100644
--- a/src/galaxymodel_jeans.cpp
+++ b/src/galaxymodel_jeans.cpp
@@ -133,33 +133,44 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
     // perform the integration in z direction at each point of the radial grid
     const int GLORDER = 6;  // order of Gauss-Legendre integration
     const double *glnodes = math::GLPOINTS[GLORDER], *glweights = math::GLWEIGHTS[GLORDER];
+    std::string errorMsg;  // store the exception that may occur in user-defined functions
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int iR=0; iR<gridRsize; iR++) {
-        double R = gridR[iR];
-        double result = 0.;
-        // sum up integrals over the segments of the grid in z, starting from the outermost one
-        // (from the last point to infinity)
-        for(int iz=gridzsize-1; iz>=0; iz--) {
-            for(int k=0; k<GLORDER; k++) {
-                double z, w;  // z-coordinate of the k-th point in the quadrature rule and its weight
-                if(iz<gridzsize-1) {
-                    z = gridz[iz] + (gridz[iz+1]-gridz[iz]) * glnodes[k];
-                    w = (gridz[iz+1]-gridz[iz]) * glweights[k];
-                } else {  // scaling transformation on the last segment: z = zmax/t, 0<t<1
-                    z = gridz[gridzsize-1] / glnodes[k];
-                    w = gridz[gridzsize-1] / pow_2(glnodes[k]) * glweights[k];
+        try{
+            double R = gridR[iR];
+            double result = 0.;
+            // sum up integrals over the segments of the grid in z, starting from the outermost one
+            // (from the last point to infinity)
+            for(int iz=gridzsize-1; iz>=0; iz--) {
+                for(int k=0; k<GLORDER; k++) {
+                    double z, w;  // z-coordinate of the k-th point in the quadrature rule and its weight
+                    if(iz<gridzsize-1) {
+                        z = gridz[iz] + (gridz[iz+1]-gridz[iz]) * glnodes[k];
+                        w = (gridz[iz+1]-gridz[iz]) * glweights[k];
+                    } else {  // scaling transformation on the last segment: z = zmax/t, 0<t<1
+                        z = gridz[gridzsize-1] / glnodes[k];
+                        w = gridz[gridzsize-1] / pow_2(glnodes[k]) * glweights[k];
+                    }
+                    double rho = axiDens.density(coord::PosCyl(R, z, 0));
+                    coord::GradCyl grad;
+                    axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
+                    result += rho * grad.dz * w;
                 }
-                double rho = axiDens.density(coord::PosCyl(R, z, 0));
-                coord::GradCyl grad;
-                axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
-                result += rho * grad.dz * w;
+                rhosigmaz2(iR, iz) = result;
+                rhoval(iR, iz)     = axiDens.density(coord::PosCyl(R, gridz[iz], 0));
             }
-            rhosigmaz2(iR, iz) = result;
-            rhoval(iR, iz)     = axiDens.density(coord::PosCyl(R, gridz[iz], 0));
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            { errorMsg = e.what(); }
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in JeansAxi: "+errorMsg);
 
 #else
 
@@ -188,68 +199,79 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
     // this will represent the integral of r.h.s.
     const math::BsplineInterpolator1d<3> fint(gridfemz);
 
+    std::string errorMsg;  // store the exception that may occur in user-defined functions
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int iR=0; iR<gridRsize; iR++) {
-        double R = gridR[iR];
-        std::vector<double> pointrho(femzsize), pointrhs(femzsize);
-        // collect values of two functions at integration points
-        for(int kz=0; kz<femzsize; kz++) {
-            double z     = femzpoints[kz];
-            double rho   = axiDens.density(coord::PosCyl(R, z, 0));
-            coord::GradCyl grad;
-            axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
-            pointrho[kz] = rho;
-            pointrhs[kz] = -rho * grad.dz * femzweights[kz];  // multiply by dz/dt
-        }
-        // construct FEM representations of both rho and  rhs = -rho dPhi/dt
-        std::vector<double> projrhs = femz.computeProjVector(pointrhs);
-        std::vector<double> projrho = femz.computeProjVector(pointrho);
-        std::vector<double> ampldEdt= math::solveBand(mat, projrhs);
-        std::vector<double> amplrho = math::solveBand(mat, projrho);
-        // integrate the B-spline representation of r.h.s. to obtain the amplitudes
-        // of B-spline representation of  E = rho sigma_z^2
-        std::vector<double> amplE   = femz.interp.antideriv(ampldEdt);
-        // and subtract the last element (the boundary condition is that E(infinity)=0)
-        const double maxamplE = fabs(amplE.back()) * 1e-12;
-        for(int iz=0; iz<(int)amplE.size(); iz++) {
-            amplE[iz] -= amplE.back();
-            // also zero out the elements of negligible magnitude -
-            // this will trigger extrapolation at large radii later on
-            if(fabs(amplE[iz]) < maxamplE)
-                amplE[iz] = 0.;
-        }
+        try{
+            double R = gridR[iR];
+            std::vector<double> pointrho(femzsize), pointrhs(femzsize);
+            // collect values of two functions at integration points
+            for(int kz=0; kz<femzsize; kz++) {
+                double z     = femzpoints[kz];
+                double rho   = axiDens.density(coord::PosCyl(R, z, 0));
+                coord::GradCyl grad;
+                axiPot.eval(coord::PosCyl(R, z, 0), NULL, &grad);
+                pointrho[kz] = rho;
+                pointrhs[kz] = -rho * grad.dz * femzweights[kz];  // multiply by dz/dt
+            }
+            // construct FEM representations of both rho and  rhs = -rho dPhi/dt
+            std::vector<double> projrhs = femz.computeProjVector(pointrhs);
+            std::vector<double> projrho = femz.computeProjVector(pointrho);
+            std::vector<double> ampldEdt= math::solveBand(mat, projrhs);
+            std::vector<double> amplrho = math::solveBand(mat, projrho);
+            // integrate the B-spline representation of r.h.s. to obtain the amplitudes
+            // of B-spline representation of  E = rho sigma_z^2
+            std::vector<double> amplE   = femz.interp.antideriv(ampldEdt);
+            // and subtract the last element (the boundary condition is that E(infinity)=0)
+            const double maxamplE = fabs(amplE.back()) * 1e-12;
+            for(int iz=0; iz<(int)amplE.size(); iz++) {
+                amplE[iz] -= amplE.back();
+                // also zero out the elements of negligible magnitude -
+                // this will trigger extrapolation at large radii later on
+                if(fabs(amplE[iz]) < maxamplE)
+                    amplE[iz] = 0.;
+            }
 
-        // if the density is not computed accurately enough (e.g. it comes from a Multipole or CylSpline
-        // potential approximation), then the entire high-z tail of the solution is unreliable;
-        // we try to detect these cases and extrapolate both rho and rho sigma_z^2 to higher z
-        // as power-laws (rho may be completely wrong but having sigma_z^2 ~ 1/z is quite reasonable)
-        int iz = 0;
-        for(; iz<gridzsize; iz++) {
-            // same as femz.interp.integrate(gridfemz[iz], gridfemz.back(), ampldEdz);
-            rhosigmaz2(iR, iz) =    fint.interpolate(gridfemz[iz], amplE);
-            rhoval(iR, iz) = femz.interp.interpolate(gridfemz[iz], amplrho);
-            // check if things get wrong
-            if(iz>2 &&
-                (amplE[iz] <= 0 || amplrho[iz] <= 0 || rhoval(iR, iz) <= 0 || rhosigmaz2(iR, iz) <= 0)) {
-                // assume that the next-to-last point was still ok (the last one might be already wrong),
-                // and restart in the regime of extrapolation
-                iz -= 1;
-                break;
+            // if the density is not computed accurately enough (e.g. it comes from a Multipole or CylSpline
+            // potential approximation), then the entire high-z tail of the solution is unreliable;
+            // we try to detect these cases and extrapolate both rho and rho sigma_z^2 to higher z
+            // as power-laws (rho may be completely wrong but having sigma_z^2 ~ 1/z is quite reasonable)
+            int iz = 0;
+            for(; iz<gridzsize; iz++) {
+                // same as femz.interp.integrate(gridfemz[iz], gridfemz.back(), ampldEdz);
+                rhosigmaz2(iR, iz) =    fint.interpolate(gridfemz[iz], amplE);
+                rhoval(iR, iz) = femz.interp.interpolate(gridfemz[iz], amplrho);
+                // check if things get wrong
+                if(iz>2 &&
+                    (amplE[iz] <= 0 || amplrho[iz] <= 0 || rhoval(iR, iz) <= 0 || rhosigmaz2(iR, iz) <= 0)) {
+                    // assume that the next-to-last point was still ok (the last one might be already wrong),
+                    // and restart in the regime of extrapolation
+                    iz -= 1;
+                    break;
+                }
+            }
+            // check if we haven't processed all points in the normal interpolation regime
+            // and need to extrapolate points starting from iz
+            // (so that iz-1 is the index of the last reliable point)
+            for(int ez=iz; ez<gridzsize; ez++) {
+                // extrapolate to high z as power laws
+                const double OUTER_GAMMA = -5.;   // power-law index for density - quite arbitrary
+                rhoval    (iR, ez) = rhoval(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA);
+                // we wish that sigma_z^2 drops as 1/r in absense of more reliable information
+                rhosigmaz2(iR, ez) = rhosigmaz2(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA-1);
             }
         }
-        // check if we haven't processed all points in the normal interpolation regime
-        // and need to extrapolate points starting from iz
-        // (so that iz-1 is the index of the last reliable point)
-        for(int ez=iz; ez<gridzsize; ez++) {
-            // extrapolate to high z as power laws
-            const double OUTER_GAMMA = -5.;   // power-law index for density - quite arbitrary
-            rhoval    (iR, ez) = rhoval(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA);
-            // we wish that sigma_z^2 drops as 1/r in absense of more reliable information
-            rhosigmaz2(iR, ez) = rhosigmaz2(iR, iz-1) * pow(gridz[ez] / gridz[iz-1], OUTER_GAMMA-1);
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            { errorMsg = e.what(); }
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in JeansAxi: "+errorMsg);
 #endif
 
     for(int iz=0; iz<gridzsize; iz++) {
-- 
2.43.0


From 3e22df1a87294e41156a15e5db39e1ebeb466ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:24 +0000
Subject: [PATCH 47/65] fix: exceptions in user-defined functions terminate the
 program in Target

---
 src/galaxymodel_losvd.cpp | 121 ++++++++++++++++++++++++--------------
 1 file changed, 77 insertions(+), 44 deletions(-)

diff --git a/src/galaxymodel_losvd.cpp b/src/galaxymodel_losvd.cpp
index 682595a..85f9dca 100644
--- a/src/galaxymodel_losvd.cpp
+++ b/src/galaxymodel_losvd.cpp
@@ -463,30 +463,41 @@ void TargetLOSVD<N>::computeDFProjection(const GalaxyModel& model, StorageNumT*
     double* cubedata = datacube.data();
     int numPixels = (bsplx.xvalues().size()-1) * (bsply.xvalues().size()-1);
     // loop over pixels of the 2d B-spline grid in the image plane
+    std::string errorMsg;  // store the exception that may occur in user-defined functions
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int p=0; p<numPixels; p++) {
-        const int indx = p % (bsplx.xvalues().size()-1), indy = p / (bsplx.xvalues().size()-1),
-        nx = bsplx.numValues(), nv = bsplv.numValues();
-        // integration in a 2d rectangular pixel: X, Y are projected coords in the image plane
-        double Xlim[2] = { bsplx.xvalues()[indx], bsplx.xvalues()[indx+1] };
-        double Ylim[2] = { bsply.xvalues()[indy], bsply.xvalues()[indy+1] };
-        std::vector<double> result(fnc.numValues());
-        computeProjection(model, fnc, Xlim, Ylim, orientation,
-            &result[0], EPSREL_PIXEL_MASS, MAX_NUM_EVAL_LOSVD_DF);
-        // add the computed integrals to the output array
+        try{
+            const int indx = p % (bsplx.xvalues().size()-1), indy = p / (bsplx.xvalues().size()-1),
+            nx = bsplx.numValues(), nv = bsplv.numValues();
+            // integration in a 2d rectangular pixel: X, Y are projected coords in the image plane
+            double Xlim[2] = { bsplx.xvalues()[indx], bsplx.xvalues()[indx+1] };
+            double Ylim[2] = { bsply.xvalues()[indy], bsply.xvalues()[indy+1] };
+            std::vector<double> result(fnc.numValues());
+            computeProjection(model, fnc, Xlim, Ylim, orientation,
+                &result[0], EPSREL_PIXEL_MASS, MAX_NUM_EVAL_LOSVD_DF);
+            // add the computed integrals to the output array
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            for(int ky=0; ky<=N; ky++)
-                for(int kx=0; kx<=N; kx++)
-                    for(int iv=0; iv<nv; iv++)
-                        cubedata[ ((indy + ky) * nx + indx + kx) * nv + iv ] +=
-                            result[ (ky * (N+1) + kx) * nv + iv ];
+            {
+                for(int ky=0; ky<=N; ky++)
+                    for(int kx=0; kx<=N; kx++)
+                        for(int iv=0; iv<nv; iv++)
+                            cubedata[ ((indy + ky) * nx + indx + kx) * nv + iv ] +=
+                                result[ (ky * (N+1) + kx) * nv + iv ];
+            }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            { errorMsg = e.what(); }
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in Target: "+errorMsg);
 
     // 2nd stage: convert the collected datacube into the output array of LOSVDs in each aperture
     finalizeDatacube(datacube, output);
@@ -501,35 +512,46 @@ std::vector<double> TargetLOSVD<N>::computeDensityProjection(const potential::Ba
     std::vector<double> pixelMasses(bsplx.numValues() * bsply.numValues());
     int numPixels = (bsplx.xvalues().size()-1) * (bsply.xvalues().size()-1);
     // loop over pixels of the 2d B-spline grid in the image plane
+    std::string errorMsg;  // store the exception that may occur in user-defined functions
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int p=0; p<numPixels; p++) {
-        int ix = p % (bsplx.xvalues().size()-1), iy = p / (bsplx.xvalues().size()-1);
-        // integration in a 3d slab: X, Y are projected coords in the image plane
-        // (inside the current pixel), and w is the scaled Z coordinate (mapped onto the interval [0:1])
-        double xywlow[3] = { bsplx.xvalues()[ix  ], bsply.xvalues()[iy  ], 0 };
-        double xywupp[3] = { bsplx.xvalues()[ix+1], bsply.xvalues()[iy+1], 1 };
-        double result[ (N+1) * (N+1) ];  // number of nonzero 2d basis elements in each pixel
-        // compute the integrals
-        math::integrateNdim(fnc, xywlow, xywupp, EPSREL_PIXEL_MASS, MAX_NUM_EVAL_PIXEL_MASS, result);
-        // get the offset of the B-spline values in the output array
-        double dummy[N+1];
-        int indx = bsplx.nonzeroComponents(xywlow[0], 0, dummy),
-            indy = bsply.nonzeroComponents(xywlow[1], 0, dummy);
-        assert(indx == ix && indy == iy &&
-            ix + N < (int)bsplx.numValues() && iy + N < (int)bsply.numValues());
-        const int nx = bsplx.numValues();
-        // add the computed integrals to the output array
+        try{
+            int ix = p % (bsplx.xvalues().size()-1), iy = p / (bsplx.xvalues().size()-1);
+            // integration in a 3d slab: X, Y are projected coords in the image plane
+            // (inside the current pixel), and w is the scaled Z coordinate (mapped onto the interval [0:1])
+            double xywlow[3] = { bsplx.xvalues()[ix  ], bsply.xvalues()[iy  ], 0 };
+            double xywupp[3] = { bsplx.xvalues()[ix+1], bsply.xvalues()[iy+1], 1 };
+            double result[ (N+1) * (N+1) ];  // number of nonzero 2d basis elements in each pixel
+            // compute the integrals
+            math::integrateNdim(fnc, xywlow, xywupp, EPSREL_PIXEL_MASS, MAX_NUM_EVAL_PIXEL_MASS, result);
+            // get the offset of the B-spline values in the output array
+            double dummy[N+1];
+            int indx = bsplx.nonzeroComponents(xywlow[0], 0, dummy),
+                indy = bsply.nonzeroComponents(xywlow[1], 0, dummy);
+            assert(indx == ix && indy == iy &&
+                ix + N < (int)bsplx.numValues() && iy + N < (int)bsply.numValues());
+            const int nx = bsplx.numValues();
+            // add the computed integrals to the output array
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            for(int kx=0; kx<=N; kx++)
-                for(int ky=0; ky<=N; ky++)
-                    pixelMasses[(iy + ky) * nx + ix + kx] += result[ky * (N+1) + kx];
+            {
+                for(int kx=0; kx<=N; kx++)
+                    for(int ky=0; ky<=N; ky++)
+                        pixelMasses[(iy + ky) * nx + ix + kx] += result[ky * (N+1) + kx];
+            }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            { errorMsg = e.what(); }
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in Target: "+errorMsg);
 
     // 2nd stage: convert these projections to the aperture masses (simultaneously convolving with PSF)
     std::vector<double> result(apertureConvolutionMatrix.rows());
@@ -584,24 +606,35 @@ void TargetKinemShell<N>::computeDFProjection(const GalaxyModel& model, StorageN
     const double *glnodes = math::GLPOINTS[GLORDER], *glweights = math::GLWEIGHTS[GLORDER];
     math::Matrix<double> datacube = newDatacube();
     const int size = (bspl.xvalues().size()-1) * GLORDER;
+    std::string errorMsg;  // store the exception that may occur in user-defined functions
 #ifdef _OPENMP
 #pragma omp parallel for schedule(static)
 #endif
     for(int n=0; n<size; n++) {
-        int i=n/GLORDER, k=n%GLORDER;  // decompose the combined index into the grid segment and offset
-        double r = bspl.xvalues()[i] * (1-glnodes[k]) + bspl.xvalues()[i+1] * glnodes[k];
-        double dens;
-        coord::Vel2Car vel2;
-        computeMoments(model, coord::PosCar(r,0,0), &dens, NULL, &vel2);
-        double mult = dens * glweights[k] * 4*M_PI*r*r * (bspl.xvalues()[i+1] - bspl.xvalues()[i]);
+        try{
+            int i=n/GLORDER, k=n%GLORDER;  // decompose the combined index into the grid segment and offset
+            double r = bspl.xvalues()[i] * (1-glnodes[k]) + bspl.xvalues()[i+1] * glnodes[k];
+            double dens;
+            coord::Vel2Car vel2;
+            computeMoments(model, coord::PosCar(r,0,0), &dens, NULL, &vel2);
+            double mult = dens * glweights[k] * 4*M_PI*r*r * (bspl.xvalues()[i+1] - bspl.xvalues()[i]);
 #ifdef _OPENMP
 #pragma omp critical
 #endif
-        {
-            bspl.addPoint(&r, mult *  vel2.vx2, datacube.data());
-            bspl.addPoint(&r, mult * (vel2.vy2 + vel2.vz2), datacube.data() + bspl.numValues());
+            {
+                bspl.addPoint(&r, mult *  vel2.vx2, datacube.data());
+                bspl.addPoint(&r, mult * (vel2.vy2 + vel2.vz2), datacube.data() + bspl.numValues());
+            }
+        }
+        catch(std::exception& e) {
+#ifdef _OPENMP
+#pragma omp critical(ErrorMessage)
+#endif
+            { errorMsg = e.what(); }
         }
     }
+    if(!errorMsg.empty())
+        throw std::runtime_error("Error in Target: "+errorMsg);
     finalizeDatacube(datacube, output);
 }
 
-- 
2.43.0


From f87490f73e63d3c08a90a8659bf25e91ba211ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 48/65] fix: BsplineInterpolator1d::eval wrote basis functions
 past its temporary array instead of the output array

---
 src/math_spline.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index a7e2ea4..aecd8be 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -1888,8 +1888,7 @@ void BsplineInterpolator1d<N>::eval(const double* x, double values[]) const
     const int size = xval.size(), ind = binSearch(*x, &xval[0], size);
     if(ind<0 || ind>=size-1)
         return;
-    double bspl[N+1];
-    bsplineValues<N>(*x, ind, &xval[0], size, bspl+ind);
+    bsplineValues<N>(*x, ind, &xval[0], size, values+ind);
 }
 
 template<int N>
-- 
2.43.0


From 6b886ec6cce200011916b268b9a4f3f1023501f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:41 +0000
Subject: [PATCH 49/65] fix: integral of a spline with a function read outside
 of its cache when it did not start in the first segment

---
 src/math_spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index aecd8be..486194c 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -793,7 +793,7 @@ double integratePiecewise(const BaseInterpolator1d& S, const IFunctionIntegral&
         double t1 = CONV ? x-xval[i+1] : std::max(x1, xval[i]);
         double t2 = CONV ? x-xval[i]   : std::min(x2, xval[i+1]);
         I0[i-i1] = F.integrate(t1, t2, 0);
-        sum += I0[i];
+        sum += I0[i-i1];
     }
 
     double result = 0;
-- 
2.43.0


From cd3eee640039009ee6c7fcd75942b9c2a982bded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:58 +0000
Subject: [PATCH 50/65] fix: solveCubic lost two of the three roots when the
 leading coefficient is very small

---
 src/math_core.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 7fdad13..37ce112 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -677,6 +677,18 @@ int solveCubic(double a3, double a2, double a1, double a0, /*output*/ double res
 {
     if(a3==0)
         return solveQuadratic(a2, a1, a0, result);
+    double a[4] = {a0, a1, a2, a3};
+    int nroots;
+    double rbig = a1 / a2 - a2 / a3;
+    if(isFinite(rbig) && a2 * a2 > 1e4 * fabs(a3) * fmax(fabs(a1), sqrt(fabs(a0 * a2)))) {
+        // one root is much larger than the other two, which would be lost to roundoff errors
+        // in the general formula: determine it first and deflate the polynomial
+        rbig = polishRoot<3>(a, rbig);
+        double q1 = a1 + a0 / rbig, q2 = a2 + q1 / rbig;
+        nroots = solveQuadratic(q2, q1, a0, result);
+        result[nroots++] = rbig;
+    } else {
+
     // first reduce the equation to a depressed cubic: t^3 + 3 Q t - 2 R = 0
     double inva3 = 1 / a3;
     double s = -1./3 * a2 * inva3;
@@ -687,7 +699,6 @@ int solveCubic(double a3, double a2, double a1, double a0, /*output*/ double res
         return 1;
     }
     double D = pow_3(Q) + pow_2(R);
-    int nroots;
     if(fabs(D) <= 2 * DBL_EPSILON * pow_2(R)) {
         nroots = 2;
         // one double root and one single root; implies Q<0
@@ -707,8 +718,9 @@ int solveCubic(double a3, double a2, double a1, double a0, /*output*/ double res
         result[2] = 2*a * cos(phi) + s;
     }
 
+    }  // end of the general case
+
     // polish the roots
-    double a[4] = {a0, a1, a2, a3};
     for(int p=0; p<nroots; p++)
         result[p] = polishRoot<3>(a, result[p]);
 
-- 
2.43.0


From 206bee761f325fcdcfeb88ce55b51dad974a4676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:58 +0000
Subject: [PATCH 51/65] fix: extrema and roots of a quintic spline were lost in
 segments where it is a polynomial of a lower degree

---
 src/math_spline.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index 486194c..65fda4c 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -1050,7 +1050,14 @@ public:
         b = ((6 * sl - 4 * sh) * dx + 32 * dl + 28 * dh) * dx - 60 * dy,
         c = (((1.5 * sh - 4.5 * sl) * dx - 18 * dl - 12 * dh) * dx + 30 * dy) * dx,
         d = sl * pow_2(pow_2(dx)),
-        e = dl * pow_2(pow_2(dx));
+        e = dl * pow_2(pow_2(dx)),
+        // the leading coefficients that vanish up to roundoff errors must be ignored
+        eps = 1e-13,
+        fmax= 30 * (fabs(fval[index]) + fabs(fval[index+1])),
+        amax= 2.5 * (fabs(sh) + fabs(sl)) * dx + 15 * (fabs(dh) + fabs(dl)) + fmax / dx,
+        bmax= ((6 * fabs(sl) + 4 * fabs(sh)) * dx + 32 * fabs(dl) + 28 * fabs(dh)) * dx + fmax * 2;
+        if(fabs(a) < eps * amax)
+            return solveCubic(fabs(b) < eps * bmax ? 0 : b, c, d, e, roots);
         return solveQuartic(a, b, c, d, e, roots);
     }
 };
-- 
2.43.0


From c29b471fb094010ed980b55177042c0793585346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:58 +0000
Subject: [PATCH 52/65] fix: createNonuniformGrid and createSymmetricGrid
 failed for the smallest numbers of nodes

---
 src/math_spline.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/math_spline.cpp b/src/math_spline.cpp
index 65fda4c..91155ab 100644
--- a/src/math_spline.cpp
+++ b/src/math_spline.cpp
@@ -4279,6 +4279,11 @@ std::vector<double> createNonuniformGrid(unsigned int nnodes, double xmin, doubl
         grid[0] = 0;
         nnodes--;
     }
+    if(nnodes<=2) {  // no intermediate nodes, hence no adjustable spacing
+        grid[indexstart] = xmin;
+        grid.back() = xmax;
+        return grid;
+    }
     if(fcmp(static_cast<double>(nnodes), ratio, 1e-12)==0) { // no need for non-uniform grid
         for(unsigned int i=0; i<nnodes; i++)
             grid[i+indexstart] = xmin+(xmax-xmin)*i/(nnodes-1);
-- 
2.43.0


From c2fb331310c9314b8aa3078ee27768a458cdf2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:48 +0000
Subject: [PATCH 53/65] fix: solveQuartic found no roots of symmetric
 polynomials because of roundoff errors

---
 src/math_core.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 37ce112..158d221 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -752,7 +752,12 @@ int solveQuartic(double a4, double a3, double a2, double a1, double a0, /*output
     // may use any root of the above equation - pick up the one that gives nonnegative discriminants
     // and is computed most accurately (unfortunately this still seems to fail occasionally
     // in the case of multiple roots or when the quartic function has nearly symmetric minima)
-    double w = NAN, m = NAN, z = NAN, minerr = INFINITY;
+    double w = NAN, m = NAN, z = NAN;
+    // in the first pass the discriminants must be strictly nonnegative; if there is no such root
+    // (e.g., when the quartic is symmetric), the second pass takes into account the roundoff errors
+    int pass = 0;
+    for(; pass<2 && w!=w; pass++) {
+    double minerr = INFINITY;
     for(int p=0; p<nroots; p++) {
         double absw = fabs(result[p]);
         double absc = fmax(fmax(fmax(absw, fabs(b2)) * absw, fabs(b1)) * absw, fabs(b0));
@@ -763,13 +768,15 @@ int solveQuartic(double a4, double a3, double a2, double a1, double a0, /*output
             minerr = errm2z2;
             double m2 = 0.25 * a[3] * a[3] - a[2] + result[p];
             double z2 = 0.25 * pow_2(result[p]) - a[0];
-            if(m2 >= 0 && z2 >= 0) {
+            double tol = pass * 10 * errm2z2;
+            if(m2 >= -tol && z2 >= -tol) {
                 w = result[p];
-                m = sqrt(m2);
-                z = sqrt(z2);  // z = (0.25 * a[3] * w - 0.5 * a[1]) / m;
+                m = sqrt(fmax(m2, 0));
+                z = sqrt(fmax(z2, 0));  // z = (0.25 * a[3] * w - 0.5 * a[1]) / m;
             }
         }
     }
+    }
     if(w != w)
         return 0;
     if(a[3] * w < 2 * a[1])
@@ -778,9 +785,10 @@ int solveQuartic(double a4, double a3, double a2, double a1, double a0, /*output
     nroots += solveQuadratic(1, 0.5*a[3] - m, 0.5*w - z, result);
     nroots += solveQuadratic(1, 0.5*a[3] + m, 0.5*w + z, result + nroots);
 
-    // polish the roots
+    // polish the roots (more thoroughly if they are expected to be inaccurate)
     for(int p=0; p<nroots; p++)
-        result[p] = polishRoot<4>(a, result[p]);
+        for(int k=0; k<(pass==1 ? 1 : 10); k++)
+            result[p] = polishRoot<4>(a, result[p]);
 
     // sort the roots
     switch(nroots) {
-- 
2.43.0


From add4c885d0c73d75bd1dd0bc27d611e283a49085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:17 +0000
Subject: [PATCH 54/65] fix: celestial coordinate conversions were inaccurate
 or undefined close to the poles

---
 py/pygama.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/py/pygama.py b/py/pygama.py
index 94403dc..37cc086 100644
--- a/py/pygama.py
+++ b/py/pygama.py
@@ -195,13 +195,20 @@ def transformCelestialCoords(rotationMatrix, lon, lat,
     y = sina * cosd
     z = sind
     M = rotationMatrix  # shorthand
-    sinB = M[2,0]*x + M[2,1]*y + M[2,2]*z
-    B =  _numpy.arcsin(sinB)
-    L = (_numpy.arctan2( M[1,0]*x + M[1,1]*y + M[1,2]*z, M[0,0]*x + M[0,1]*y + M[0,2]*z ) + _numpy.pi) % (2*_numpy.pi) - _numpy.pi
+    X = M[0,0]*x + M[0,1]*y + M[0,2]*z
+    Y = M[1,0]*x + M[1,1]*y + M[1,2]*z
+    Z = M[2,0]*x + M[2,1]*y + M[2,2]*z
+    B =  _numpy.arctan2(Z, (X*X + Y*Y)**0.5)   # more accurate near the poles than arcsin(Z)
+    L = (_numpy.arctan2(Y, X) + _numpy.pi) % (2*_numpy.pi) - _numpy.pi
     if pmlon is None:
         return L, B
-    T = _numpy.arctan2( M[2,0]*y - M[2,1]*x, M[2,2] - sinB * sind )
-    sinT, cosT = _numpy.sin(T), _numpy.cos(T)
+    # the angle between the directions of the two poles: use the projections of the unit vector
+    # in the direction of increasing input longitude onto the output longitude and latitude directions,
+    # which remain well-defined even at the poles of either coordinate system
+    sinL, cosL, sinB, cosB = _numpy.sin(L), _numpy.cos(L), _numpy.sin(B), _numpy.cos(B)
+    Xa, Ya, Za = M[0,1]*cosa - M[0,0]*sina, M[1,1]*cosa - M[1,0]*sina, M[2,1]*cosa - M[2,0]*sina
+    cosT = Ya*cosL - Xa*sinL
+    sinT = cosB*-Za + sinB * (Xa*cosL + Ya*sinL)
     if sigmalon is None:
         return L, B, cosT * pmlon + sinT * pmlat, -sinT * pmlon + cosT * pmlat
     sigmaL = (sigmalon**2 * cosT**2 + sigmalat**2 * sinT**2 + 2*sigmacorr * sigmalon * sigmalat * cosT * sinT)**0.5
@@ -232,13 +239,15 @@ def getCelestialCoords(x, y, z, vx=None, vy=None, vz=None):
     R2   = x*x + y*y
     dist = (R2 + z*z)**0.5
     lon  = _numpy.arctan2(y, x)
-    lat  = _numpy.arcsin (z / dist)
+    R    = R2**0.5
+    lat  = _numpy.arctan2(z, R)   # more accurate near the poles than arcsin(z/dist)
     if vx is None:
         return lon, lat, dist
-    R    = R2**0.5
+    sina, cosa = _numpy.sin(lon), _numpy.cos(lon)  # well-defined even at the poles
+    vR   = vx * cosa + vy * sina
     vlos = (vx * x + vy * y + vz * z) / dist
-    pmlon= (vy * x - vx * y) / R / dist
-    pmlat= (vz - z / dist * vlos) / R
+    pmlon= (vy * cosa - vx * sina) / dist
+    pmlat= (vz * R - vR * z) / dist**2
     return lon, lat, dist, pmlon, pmlat, vlos
 
 
-- 
2.43.0


From 39c9d88d5460de0bec66bd9ed4da577d968b0ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:35 +0000
Subject: [PATCH 55/65] fix: bsplineInterp and ghInterp failed for scalar, list
 or multidimensional input

---
 py/pygama.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py/pygama.py b/py/pygama.py
index 37cc086..a5c8f8a 100644
--- a/py/pygama.py
+++ b/py/pygama.py
@@ -525,6 +525,7 @@ def _bsplineGaussLegendre(grid):
     (e.g. products of B-splines or monomials). Use a 4-point rule, sufficient for polynomials up to
     degree 7 (e.g. a B-spline of degree 3 times x^4, or a product of two B-splines of degrees <=3)
     '''
+    grid  = _numpy.asarray(grid)
     nodes = _numpy.hstack((
         grid[1:] * 0.0694318442029737 + grid[:-1] * 0.9305681557970263,
         grid[1:] * 0.3300094782075719 + grid[:-1] * 0.6699905217924281,
@@ -545,9 +546,10 @@ def bsplineInterp(degree, grid, ampl, x):
         extgrid = numpy.hstack((numpy.repeat(grid[0], degree), grid, numpy.repeat(grid[-1], degree))),  or
     (2) agama.Spline(grid, ampl=ampl)(x)  (in this case degree is inferred as len(ampl)-len(grid)+1).
     '''
-    if _numpy.size(x) == 1:
+    if _numpy.ndim(x) == 0:
         return            _numpy.dot(_bsplines(degree, grid, x), ampl)
-    return _numpy.array([ _numpy.dot(_bsplines(degree, grid, X), ampl) for X in x])
+    return _numpy.array([ _numpy.dot(_bsplines(degree, grid, X), ampl)
+        for X in _numpy.ravel(x)], dtype=float).reshape(_numpy.shape(x))
 
 
 def bsplineIntegrals(degree, grid, power=0):
@@ -601,9 +603,9 @@ def bsplineMatrix(degree1, grid1, degree2=None, grid2=None):
 def ghInterp(ampl, center, width, coefs, x):
     '''
     Compute the function specified by a Gauss-Hermite expansion with the given
-    amplitude, center and width, and a list of N>=2 GH coefficients, at point(s) xarr.
+    amplitude, center and width, and a list of N>=2 GH coefficients, at point(s) x.
     '''
-    xscaled = (x[:,None] - center) / width
+    xscaled = (_numpy.asarray(x)[...,None] - center) / width
     norm    = (0.5/_numpy.pi)**0.5 * ampl / width * _numpy.exp(-0.5 * xscaled**2)
     if not coefs is None and len(coefs) >= 2:
         hpp = 1.0
-- 
2.43.0


From 1617da5fdedb943e443deaf22393d17383addbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:40 +0000
Subject: [PATCH 56/65] fix: getViewingAngles returned a wrong position angle
 for the face-on orientation

---
 py/pygama.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py/pygama.py b/py/pygama.py
index a5c8f8a..55c4be4 100644
--- a/py/pygama.py
+++ b/py/pygama.py
@@ -460,9 +460,11 @@ def getViewingAngles(SXp, SYp, eta, Sx, Sy, Sz):
         alpha = pi/2
     else:
         alpha = _numpy.arctan( ( (1-v*v) * (1-u*u) / (p*p-v*v) / (u*u-p*p) * (p*p-q*q) / (1-q*q) )**0.5 )
-    if p-v < 1e-12:
+    if 1-u < 1e-12:   # corresponds to alpha=0, including the face-on orientation (u=1, v=p)
+        psi   = pi/2
+    elif p-v < 1e-12:
         psi   = 0
-    elif u-p < 1e-12 or v-q < 1e-12 or 1-u < 1e-12:
+    elif u-p < 1e-12 or v-q < 1e-12:
         psi   = pi/2
     else:
         psi   = _numpy.arctan( ( (1-v*v) / (1-u*u) * (p*p-v*v) / (v*v-q*q) * (u*u-q*q) / (u*u-p*p) )**0.5 )
-- 
2.43.0


From 76dad46d149b27bc99ed808da5431289318f9c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:13 +0000
Subject: [PATCH 57/65] fix: JeansAxi could not be constructed when the total
 mass is slightly overestimated

---
 src/galaxymodel_jeans.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/galaxymodel_jeans.cpp b/src/galaxymodel_jeans.cpp
index 26e81d9..2fa4da9 100644
--- a/src/galaxymodel_jeans.cpp
+++ b/src/galaxymodel_jeans.cpp
@@ -116,6 +116,9 @@ JeansAxi::JeansAxi(const potential::BaseDensity &dens, const potential::BasePote
     double Mtotal = dens.totalMass();
     double rmin = getRadiusByMass(dens, Mtotal * MIN_MASS_FRAC);
     double rmax = getRadiusByMass(dens, Mtotal * (1.-MIN_MASS_FRAC));
+    // both masses are computed with a finite accuracy, so the target value might not be reached anywhere
+    for(double frac=MIN_MASS_FRAC*4; !isFinite(rmax) && frac<0.01; frac*=4)
+        rmax = getRadiusByMass(dens, Mtotal * (1.-frac));
     if(!isFinite(rmin+rmax))
         throw std::runtime_error("JeansAxi: cannot construct grid (Mtotal=" + utils::toString(Mtotal) +
             ", rmin=" + utils::toString(rmin) + ", rmax=" + utils::toString(rmax) + ")");
-- 
2.43.0


From 677be5088ef411c233c547a30b5b0062a0ea66c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:16 +0000
Subject: [PATCH 58/65] fix: fcmp returned the opposite sign when its first
 argument is zero

---
 src/math_core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math_core.cpp b/src/math_core.cpp
index 158d221..31884dd 100644
--- a/src/math_core.cpp
+++ b/src/math_core.cpp
@@ -103,7 +103,7 @@ double functionWrapper(double x, void* param)
 int fcmp(double x, double y, double eps)
 {
     if(x==0)
-        return y<-eps ? -1 : y>eps ? +1 : 0;
+        return y<-eps ? +1 : y>eps ? -1 : 0;
     if(y==0)
         return x<-eps ? -1 : x>eps ? +1 : 0;
     if(x!=x)
-- 
2.43.0


From b06894c6b7caa35237bb37255763be33ffd1fce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:24 +0000
Subject: [PATCH 59/65] fix: auxiliary column of writeSphericalIsotropicModel
 was misaligned when grid nodes were eliminated

---
 src/galaxymodel_spherical.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/galaxymodel_spherical.cpp b/src/galaxymodel_spherical.cpp
index bc7a1b5..919c515 100644
--- a/src/galaxymodel_spherical.cpp
+++ b/src/galaxymodel_spherical.cpp
@@ -757,16 +757,16 @@ void writeSphericalIsotropicModel(
     const math::IFunction& df,
     const potential::BasePotential& pot,
     const std::vector<double>& inputgridh,
-    const std::vector<double>& aux)
+    const std::vector<double>& inputaux)
 {
     if(!isSpherical(pot))
         throw std::invalid_argument("writeSphericalIsotropicModel: potential must be spherical");
-    if(!aux.empty() && aux.size() != inputgridh.size())
+    if(!inputaux.empty() && inputaux.size() != inputgridh.size())
         throw std::runtime_error("writeSphericalIsotropicModel: "
             "aux, if provided, should match gridh in length");
 
     // construct a suitable grid in h, if not provided
-    std::vector<double> gridh(inputgridh);
+    std::vector<double> gridh(inputgridh), aux(inputaux);
     if(gridh.empty()) {
         // estimate the range of log(h) where the DF varies considerably
         std::vector<double> gridLogh =
@@ -791,6 +791,8 @@ void writeSphericalIsotropicModel(
             i++;
         } else {
             gridh.erase(gridh.begin()+i);
+            if(!aux.empty())
+                aux.erase(aux.begin()+i);  // keep it aligned with gridh
         }
     }
     size_t npoints = gridh.size();
-- 
2.43.0


From ca964e24e498b9f1cc0e0a9ac285c0efa716769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:24 +0000
Subject: [PATCH 60/65] fix: BandMatrix::elem returned wrong elements when the
 bandwidth exceeds half of the matrix size

---
 src/math_linalg.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/math_linalg.cpp b/src/math_linalg.cpp
index 243ce96..d074010 100644
--- a/src/math_linalg.cpp
+++ b/src/math_linalg.cpp
@@ -183,7 +183,18 @@ NumT BandMatrix<NumT>::elem(size_t index, size_t &row, size_t &col) const
         width = 2*band+1,                           // width of one normal row
         total = nRows * width - band * (band+1),    // total number of nonzero elements
         nclip = pow_2(band) + band * (band+1) / 2;  // number of elements in clipped areas
-    if(index < nclip) {
+    if(nRows < 2*band) {
+        // the clipped areas overlap, so some rows are clipped on both sides: need to go through all rows
+        matrixRangeCheck(index < total);
+        for(row=0; ; row++) {
+            size_t left = row>band ? row-band : 0, right = std::min(nRows, row+band+1);
+            if(index < right-left) {
+                col = left+index;
+                break;
+            }
+            index -= right-left;
+        }
+    } else if(index < nclip) {
         // first few rows have clipped left edge
         row = 0;
         col = index;
-- 
2.43.0


From a9460b01a79594979c3c69fd8492caf7d2e72450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:27 +0000
Subject: [PATCH 61/65] fix: sign of the energy of the innermost region in
 SphericalIsotropicModel

---
 src/galaxymodel_spherical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/galaxymodel_spherical.cpp b/src/galaxymodel_spherical.cpp
index 919c515..68c9f9a 100644
--- a/src/galaxymodel_spherical.cpp
+++ b/src/galaxymodel_spherical.cpp
@@ -342,8 +342,8 @@ SphericalIsotropicModel::SphericalIsotropicModel(const potential::PhaseVolume& _
     // analytic integrals from h=0 to h=gridh[0]
     totalEkin   = gridf[0] * pow_2(gridh[0]) / gridg[0] / (1 + innerEslope + innerfslope) * 1.5;
     totalEnergy = gridf[0] * gridh[0] * (innerEslope >= 0 ?
-        -Phi0   / (1 + innerfslope) :
-        -innerE / (1 + innerfslope + innerEslope) );
+        Phi0   / (1 + innerfslope) :
+        innerE / (1 + innerfslope + innerEslope) );
 
     // 4a. integrate over all interior segments
     const double *glnodes1 = math::GLPOINTS[GLORDER1], *glweights1 = math::GLWEIGHTS[GLORDER1];
-- 
2.43.0


From 5a88fc01a649d6f6256dcf5bed64535982f7d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:27 +0000
Subject: [PATCH 62/65] fix: FokkerPlanckSolver used an uninitialised drain
 matrix for an absorbing boundary without loss-cone drain

---
 src/galaxymodel_fokkerplanck.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/galaxymodel_fokkerplanck.cpp b/src/galaxymodel_fokkerplanck.cpp
index ee8e715..92cc26e 100644
--- a/src/galaxymodel_fokkerplanck.cpp
+++ b/src/galaxymodel_fokkerplanck.cpp
@@ -1166,7 +1166,7 @@ double FokkerPlanckSolver::evolve(double deltat)
         data->prevRelaxationMatrix[comp] = relaxationMatrix;
 
         // sink term in the lhs:  lhsMatrix -= deltat * drainMatrix
-        if(data->absorbingBoundaryCondition)
+        if(data->lossConeDrain)
             math::blas_daxpy(-deltat, data->drainMatrix[comp], lhsMatrix);
 
         // source term in the rhs
@@ -1216,7 +1216,7 @@ double FokkerPlanckSolver::evolve(double deltat)
         }
 
         // keep track of mass and energy removed from the system through the loss cone
-        if(data->absorbingBoundaryCondition) {
+        if(data->lossConeDrain) {
             // compute the change of DF resulting from the loss-cone term alone:
             // solve the same matrix equation L f_{new,LC} = R f_old, 
             // but with R = weightMatrix, L = weightMatrix - deltat * drainMatrix
-- 
2.43.0


From f8f832ecef65cc5226c01510834547ee8645b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:27 +0000
Subject: [PATCH 63/65] fix: Raga lost the last trajectory sample of every
 particle due to a roundoff error in its time

---
 src/raga_potential.cpp  | 5 +++--
 src/raga_relaxation.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/raga_potential.cpp b/src/raga_potential.cpp
index 0a25da8..a788d9d 100644
--- a/src/raga_potential.cpp
+++ b/src/raga_potential.cpp
@@ -11,9 +11,10 @@ bool RuntimePotential::processTimestep(double tbegin, double tend)
 {
     double t;
     while(t = outputTimestep * (outputIter - outputFirst + 1),
-        t>tbegin && t<=tend && outputIter != outputLast)
+        // the last sample should not be lost if its time exceeds the end of the episode by a roundoff error
+        t>tbegin && t<=tend*(1+1e-12) && outputIter != outputLast)
     {
-        (outputIter++)->first = toPosCyl(orbint.getSol(t));
+        (outputIter++)->first = toPosCyl(orbint.getSol(fmin(t, tend)));
     }
     return true;
 }
diff --git a/src/raga_relaxation.cpp b/src/raga_relaxation.cpp
index ada782b..e85077e 100644
--- a/src/raga_relaxation.cpp
+++ b/src/raga_relaxation.cpp
@@ -19,9 +19,10 @@ bool RuntimeRelaxation::processTimestep(double tbegin, double tend)
     // taken at regular intervals of time
     double timestep = tend-tbegin, tsamp;
     while(tsamp = outputTimestep * (outputIter - outputFirst + 1),
-        tsamp>tbegin && tsamp<=tend && outputIter != outputLast)
+        // the last sample should not be lost if its time exceeds the end of the episode by a roundoff error
+        tsamp>tbegin && tsamp<=tend*(1+1e-12) && outputIter != outputLast)
     {
-        double E = totalEnergy(potentialSph, orbint.getSol(tsamp));
+        double E = totalEnergy(potentialSph, orbint.getSol(fmin(tsamp, tend)));
         *(outputIter++) = relaxationModel.phasevol(E);
     }
 
-- 
2.43.0


From b15f8a8d3a3b1d4be6f7c0b57c68fdbdbd3deac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:27 +0000
Subject: [PATCH 64/65] fix: Raga capture radii of single and binary black
 holes were swapped

---
 src/raga_losscone.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raga_losscone.cpp b/src/raga_losscone.cpp
index 79030ba..4de49b9 100644
--- a/src/raga_losscone.cpp
+++ b/src/raga_losscone.cpp
@@ -122,8 +122,8 @@ RagaTaskLosscone::RagaTaskLosscone(
 
 void RagaTaskLosscone::createRuntimeFnc(orbit::BaseOrbitIntegrator& orbint, unsigned int particleIndex)
 {
-    double Mbh0 = bh.sma==0 ? bh.mass / (1 + bh.q) : bh.mass;
-    double Mbh1 = bh.sma==0 ? bh.mass / (1 + bh.q) * bh.q : 0;
+    double Mbh0 = bh.sma>0 ? bh.mass / (1 + bh.q) : bh.mass;
+    double Mbh1 = bh.sma>0 ? bh.mass / (1 + bh.q) * bh.q : 0;
     double captureRadius[2] = {
         fmax(8 * Mbh0 / pow_2(params.speedOfLight),
             particles.point(particleIndex).stellarRadius *
-- 
2.43.0


From 59873d0b740dece77f644455c7cb07555230b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:27 +0000
Subject: [PATCH 65/65] fix: Raga changed the mass ratio of a binary black hole
 ignoring captureMassFraction

---
 src/raga_losscone.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/raga_losscone.cpp b/src/raga_losscone.cpp
index 4de49b9..ea8f961 100644
--- a/src/raga_losscone.cpp
+++ b/src/raga_losscone.cpp
@@ -198,8 +198,8 @@ void RagaTaskLosscone::finishEpisode()
         // add the mass of captured particles to the mass(es) of the black hole(s)
         if(numBH>1) {  // adjust the mass ratio of the binary
             bh.q =
-                (bh.mass * bh.q + capturedMass[1] * (1 + bh.q)) /
-                (bh.mass        + capturedMass[0] * (1 + bh.q));
+                (bh.mass * bh.q + capturedMass[1] * params.captureMassFraction * (1 + bh.q)) /
+                (bh.mass        + capturedMass[0] * params.captureMassFraction * (1 + bh.q));
         }
         bh.mass += (capturedMass[0] + capturedMass[1]) * params.captureMassFraction;
         totalNumCaptured += sortedCaptures.size();
-- 
2.43.0

