From 74bdea5b13dfb3b0a52d78ac5e53e779d187e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 01/58] fix: quintic kernel wzeta had the wrong sign and no
 normalisation (d(phi)/dh kernel)

---
 src/Headers/SmoothingKernel.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index f05c1f8..44e04e4 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -349,17 +349,14 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wzeta(const FLOAT s)
 {
   if (s < (FLOAT) 1.0)
-    return (FLOAT) 33.0*s*s - (FLOAT) 15.0*pow(s,4) + (FLOAT) 5.0*pow(s,6) -
-      (FLOAT) 1.42857142857*pow(s,7) - (FLOAT) 34.14285714;
+    return (1.0/30.0)*(-33.0*s*s + 15.0*pow(s,4) - 5.0*pow(s,6) + (10.0/7.0)*pow(s,7) +
+      (239.0/7.0));
   else if (s < 2.0)
-    return (FLOAT) 25.5*s*s + (FLOAT) 25.0*pow(s,3) - (FLOAT) 52.5*pow(s,4)
-      + (FLOAT) 30.0*pow(s,5) - (FLOAT) 7.5*pow(s,6)
-      + (FLOAT) 0.7142857143*pow(s,7) - 33.785714286;
+    return (1.0/30.0)*(-25.5*s*s - 25.0*pow(s,3) + 52.5*pow(s,4) - 30.0*pow(s,5) +
+      7.5*pow(s,6) - (5.0/7.0)*pow(s,7) + (473.0/14.0));
   else if (s < (FLOAT) 3.0)
-    return (FLOAT) 121.5*s*s - (FLOAT) 135.0*pow(s,3) +
-      (FLOAT) 67.5*pow(s,4) - (FLOAT) 18.0*pow(s,5) +
-      (FLOAT) 2.5*pow(s,6) - (FLOAT) 0.142857143*pow(s,7) -
-      (FLOAT) 52.07142857;
+    return (1.0/30.0)*(-121.5*s*s + 135.0*pow(s,3) - 67.5*pow(s,4) + 18.0*pow(s,5) -
+      2.5*pow(s,6) + (1.0/7.0)*pow(s,7) + (729.0/14.0));
   else
     return 0.0;
 }
-- 
2.43.0


From 0370f075821def5bf53ccdb6fb3bd44ba298e095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 02/58] fix: quintic gravity kernels use the normalisation of
 the density kernel (1/30, not 12/359)

---
 src/Headers/SmoothingKernel.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index 44e04e4..7b3010e 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -371,12 +371,12 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wgrav(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
+    return (1.0/30.0)*(22.0*s - 12.0*pow(s,3) + (30.0/7.0)*pow(s,5) - (5.0/4.0)*pow(s,6));
   else if (s < 2.0)
-    return (12.0/359.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
+    return (1.0/30.0)*(17.0*s + (75.0/4.0)*s*s - 42.0*pow(s,3) +
       25.0*pow(s,4) - (45.0/7.0)*pow(s,5) + (5.0/8.0)*pow(s,6) + (5.0/56.0)/(s*s));
   else if (s < 3.0)
-    return (12.0/359.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
+    return (1.0/30.0)*(81.0*s - (405.0/4.0)*pow(s,2) + 54.0*pow(s,3) -
       15.0*pow(s,4) + (15.0/7.0)*pow(s,5) - (1.0/8.0)*pow(s,6) - (507.0/56.0)/(s*s));
   else
     return 1.0/(s*s);
@@ -392,13 +392,13 @@ template <int ndim>
 inline FLOAT QuinticKernel<ndim>::wpot(const FLOAT s)
 {
   if (s < 1.0)
-    return (12.0/359.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
+    return (1.0/30.0)*(-11.0*s*s + 3.0*pow(s,4) - (5.0/7.0)*pow(s,6) +
       (5.0/28.0)*pow(s,7) + (478.0/14.0));
   else if (s < 2.0)
-    return (12.0/359.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
+    return (1.0/30.0)*(-(17.0/2.0)*s*s - (25.0/4.0)*pow(s,3) + (21.0/2.0)*pow(s,4) -
       5.0*pow(s,5) + (15.0/14.0)*pow(s,6) - (5.0/56.0)*pow(s,7) + (473.0/14.0) + (5.0/56.0)/s);
   else if (s < 3.0)
-    return (12.0/359.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
+    return (1.0/30.0)*(-(81.0/2.0)*s*s + (135.0/4.0)*pow(s,3) - (27.0/2.0)*pow(s,4) +
       3.0*pow(s,5) - (5.0/14.0)*pow(s,6) + (1.0/56.0)*pow(s,7) + (729.0/14.0) - (507.0/56.0)/s);
   else
     return 1.0/s;
-- 
2.43.0


From a7d386954309bbd3534852ac0310be9348b2c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:14 +0000
Subject: [PATCH 03/58] fix: Gaussian kernel womega is -(ndim*W + s*dW/ds)

---
 src/Headers/SmoothingKernel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/SmoothingKernel.h b/src/Headers/SmoothingKernel.h
index 7b3010e..950f897 100644
--- a/src/Headers/SmoothingKernel.h
+++ b/src/Headers/SmoothingKernel.h
@@ -480,7 +480,7 @@ inline FLOAT GaussianKernel<ndim>::womega(const FLOAT s)
 {
   if (s < kernrange)
     return (kernnorm)*
-      ((FLOAT) 2.0*s*exp(-s*s) - (ndim)*exp(-s*s));
+      ((FLOAT) 2.0*s*s*exp(-s*s) - (ndim)*exp(-s*s));
   else
     return (FLOAT) 0.0;
 }
-- 
2.43.0


From 4f41a32c22c47aeebece21e9a6ebae128de53d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 04/58] fix: polytropic pressure uses the polytropic exponent
 eta_eos, like its internal energy

---
 src/Thermal/PolytropicEOS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Thermal/PolytropicEOS.cpp b/src/Thermal/PolytropicEOS.cpp
index 8e73688..a7acf4a 100644
--- a/src/Thermal/PolytropicEOS.cpp
+++ b/src/Thermal/PolytropicEOS.cpp
@@ -33,7 +33,7 @@
 template <int ndim>
 Polytropic<ndim>::Polytropic(Parameters* simparams, SimUnits *units):
   EOS<ndim>(simparams->floatparams["eta_eos"]),
-  eta(simparams->floatparams["gamma_eos"]),
+  eta(simparams->floatparams["eta_eos"]),
   Kpoly(simparams->floatparams["Kpoly"])
 {
 }
-- 
2.43.0


From cad721fb5f9997ad6a9d4914a5e8534405a917ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:10 +0000
Subject: [PATCH 05/58] fix: adiabatic temperature includes the mean molecular
 weight

---
 src/Thermal/AdiabaticEOS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Thermal/AdiabaticEOS.cpp b/src/Thermal/AdiabaticEOS.cpp
index 4422fbf..cdaa506 100644
--- a/src/Thermal/AdiabaticEOS.cpp
+++ b/src/Thermal/AdiabaticEOS.cpp
@@ -92,7 +92,7 @@ FLOAT Adiabatic<ndim>::SpecificInternalEnergy(const EosParticleProxy<ndim>&part)
 template <int ndim>
 FLOAT Adiabatic<ndim>::Temperature(const EosParticleProxy<ndim>&part)
 {
-  return gammam1*part.u;
+  return mu_bar*gammam1*part.u;
 }
 
 
-- 
2.43.0


From 0852daa7f3d0912c54759fea2a8ffb142e4a9260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:39 +0000
Subject: [PATCH 06/58] fix: fractional overlap of boxes that share an edge

---
 src/Headers/InlineFuncs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Headers/InlineFuncs.h b/src/Headers/InlineFuncs.h
index 670af38..771b649 100644
--- a/src/Headers/InlineFuncs.h
+++ b/src/Headers/InlineFuncs.h
@@ -415,10 +415,10 @@ inline FLOAT FractionalBoxOverlap
     if (box1max[k] <= box2min[k] || box1min[k] >= box2max[k]) {
       overlap *= (FLOAT) 0.0;
     }
-    else if (box1min[k] > box2min[k] && box1max[k] < box2max[k]) {
+    else if (box1min[k] >= box2min[k] && box1max[k] <= box2max[k]) {
       overlap *= (box1max[k] - box1min[k]);
     }
-    else if (box1min[k] < box2min[k] && box1max[k] > box2max[k]) {
+    else if (box1min[k] <= box2min[k] && box1max[k] >= box2max[k]) {
       overlap *= (box2max[k] - box2min[k]);
     }
     else if (box1min[k] < box2min[k] && box1max[k] < box2max[k]) {
-- 
2.43.0


From ab223746fd0da99c440402da3840b678e954fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 07/58] fix: VerifyUniqueIds tests the count of every id, not
 only of the last one

---
 src/Headers/InlineFuncs.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Headers/InlineFuncs.h b/src/Headers/InlineFuncs.h
index 771b649..8cda5d7 100644
--- a/src/Headers/InlineFuncs.h
+++ b/src/Headers/InlineFuncs.h
@@ -512,7 +512,7 @@ inline void compute_displs (std::vector<int>& displs, std::vector<int>& counts)
 //=================================================================================================
 inline bool VerifyUniqueIds(const int N, const int Nrange, const int *values)
 {
-  int i,j;
+  int i;
   int *counter = new int[Nrange];
   for (i=0; i<Nrange; i++) counter[i] = 0;
 
@@ -526,8 +526,7 @@ inline bool VerifyUniqueIds(const int N, const int Nrange, const int *values)
     counter[i]++;
   }
 
-  for (j=0; j<N; j++) {
-    assert(counter[i] == 0 || counter[i] == 1);
+  for (i=0; i<Nrange; i++) {
     if (!(counter[i] == 0 || counter[i] == 1)) {
       cout << "Invalid counter : " << i << "    count : " << counter[i] << endl;
       delete[] counter;
-- 
2.43.0


From db7fd02ae9e9ff823ad3659a685e4460cc168f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:27 +0000
Subject: [PATCH 08/58] fix: gaussrand uses the requested mean and width

---
 src/Headers/RandomNumber.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Headers/RandomNumber.h b/src/Headers/RandomNumber.h
index 5f1b8c3..36cabc9 100644
--- a/src/Headers/RandomNumber.h
+++ b/src/Headers/RandomNumber.h
@@ -116,7 +116,7 @@ public:
       U = floatrand();
       V = floatrand();
     };
-    return sqrt(-2.0*log(U))*cos(2*pi*V);
+    return mean + sigma*sqrt(-2.0*log(U))*cos(2*pi*V);
   }
 
   void PrintRandomNumberRange(void)
@@ -163,7 +163,7 @@ class DefaultSystemRand : public RandomNumber
       U = floatrand();
       V = floatrand();
     };
-    return sqrt(-2.0*log(U))*cos(2*pi*V);
+    return mean + sigma*sqrt(-2.0*log(U))*cos(2*pi*V);
   }
 
   void PrintRandomNumberRange(void)
-- 
2.43.0


From 444a6f26597d7700630c93830e6a0addfa2ee79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 09/58] fix: a gigajoule is 1e9 J

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index fa423e1..e87d1f9 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -389,7 +389,7 @@ DOUBLE EnergyUnit::SIUnit(string unit_string)
 {
   if (unit_string == "J") return 1.0;
   else if (unit_string == "erg") return 1.0e-7;
-  else if (unit_string == "GJ") return 1.0e12;
+  else if (unit_string == "GJ") return 1.0e9;
   else if (unit_string == "eV") return e_charge;
   else if (unit_string == "10^40erg") return 1.0e33;
   else if (unit_string == "") return 1.0;
-- 
2.43.0


From 3e7787d69fbb88c09b6f8d1f65eda17062791ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 10/58] fix: cgs pressure unit, 1 Pa is 10 dyn/cm^2

---
 src/Common/SimUnits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index e87d1f9..6aa4587 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -952,7 +952,7 @@ void SimUnits::SetupUnits(Parameters *params)
   press.outscale = (m.outscale*m.outSI) /
     (r.outscale*r.outSI*t.outscale*t.outSI*t.outscale*t.outSI);
   press.outscale = press.outscale / press.outSI;
-  press.outcgs   = 0.1*press.outSI;
+  press.outcgs   = 10.0*press.outSI;
 
   // Force units
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From 982851ed07710405548185712d6820c29dad1d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 11/58] fix: force unit is taken from the finunit/foutunit
 parameters

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index 6aa4587..ba080b7 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -958,8 +958,8 @@ void SimUnits::SetupUnits(Parameters *params)
   //-----------------------------------------------------------------------------------------------
   f.inunit   = params->stringparams["finunit"];
   f.outunit  = params->stringparams["foutunit"];
-  f.inSI     = f.SIUnit(params->stringparams["forceinunit"]);
-  f.outSI    = f.SIUnit(params->stringparams["forceoutunit"]);
+  f.inSI     = f.SIUnit(params->stringparams["finunit"]);
+  f.outSI    = f.SIUnit(params->stringparams["foutunit"]);
   f.inscale  = (m.inscale*m.inSI*r.inscale*r.inSI)/
     (t.inscale*t.inscale*t.inSI*t.inSI);
   f.inscale  = f.inscale / f.inSI;
-- 
2.43.0


From 52a9ba25c7861a73f52f16fcc02473faec99ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 12/58] fix: luminosity unit has dimensions of energy per time

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index ba080b7..b24154f 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1036,9 +1036,9 @@ void SimUnits::SetupUnits(Parameters *params)
   L.outunit  = params->stringparams["Loutunit"];
   L.inSI     = L.SIUnit(params->stringparams["Linunit"]);
   L.outSI    = L.SIUnit(params->stringparams["Loutunit"]);
-  L.inscale  = m.inscale*m.inSI/(t.inscale*t.inSI);
+  L.inscale  = m.inscale*m.inSI*pow(r.inscale*r.inSI,2)/pow(t.inscale*t.inSI,3);
   L.inscale  = L.inscale / L.inSI;
-  L.outscale = m.outscale*m.outSI/(t.outscale*t.outSI);
+  L.outscale = m.outscale*m.outSI*pow(r.outscale*r.outSI,2)/pow(t.outscale*t.outSI,3);
   L.outscale = L.outscale / L.outSI;
   L.outcgs   = 1.0e7*L.outSI;
 
-- 
2.43.0


From 0cda2a4f04483594405a2963fcf23a81069fd2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:22 +0000
Subject: [PATCH 13/58] fix: SI values printed for the time and acceleration
 units

---
 src/Common/SimUnits.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Common/SimUnits.cpp b/src/Common/SimUnits.cpp
index b24154f..ee02349 100644
--- a/src/Common/SimUnits.cpp
+++ b/src/Common/SimUnits.cpp
@@ -1132,13 +1132,13 @@ void SimUnits::OutputScalingFactors(Parameters *params)
        << "     (SI = " << m.outscale*m.outSI << " kg )" << endl;
   cout << "Time unit    = "
        << t.outscale << " " << params->stringparams["toutunit"]
-       << "     (SI = " << t.outscale*m.outSI << " s )" << endl;
+       << "     (SI = " << t.outscale*t.outSI << " s )" << endl;
   cout << "Velocity unit = "
        << v.outscale << " " << params->stringparams["voutunit"]
        << "     (SI = " << v.outscale*v.outSI << " m_s )" << endl;
   cout << "Accel. unit  = "
        << a.outscale << " " << params->stringparams["aoutunit"]
-       << "     (SI = " << a.outscale*m.outSI << " m_s2 )" << endl;
+       << "     (SI = " << a.outscale*a.outSI << " m_s2 )" << endl;
   cout << "Density unit  = "
        << rho.outscale << " " << params->stringparams["rhooutunit"]
        << "     (SI = " << rho.outscale*rho.outSI << " kg_m3 )" << endl;
-- 
2.43.0


From ada7c1567a7345d331b6c6bfdca22a2b4c40003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:14 +0000
Subject: [PATCH 14/58] fix: 6th-order Hermite snap sums over all stars
 (nearest periodic images)

---
 src/Nbody/NbodyHermite6TS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Nbody/NbodyHermite6TS.cpp b/src/Nbody/NbodyHermite6TS.cpp
index 9bd4fa4..2751639 100644
--- a/src/Nbody/NbodyHermite6TS.cpp
+++ b/src/Nbody/NbodyHermite6TS.cpp
@@ -151,6 +151,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       for (int k=0; k<ndim; k++) dr[k] = star[j]->r[k] - star[i]->r[k];
       for (int k=0; k<ndim; k++) dv[k] = star[j]->v[k] - star[i]->v[k];
       for (int k=0; k<ndim; k++) da[k] = star[j]->a[k] - star[i]->a[k];
+      NearestPeriodicVector(simbox, dr, dr_corr);
       drsqd = DotProduct(dr,dr,ndim) + small_number_dp;
       dvsqd = DotProduct(dv,dv,ndim);
       invdrsqd = 1.0/drsqd;
@@ -164,7 +165,7 @@ private(a, adot, afac, aperiodic, bfac, da, dr, dr_corr, drdt, drsqd, dv, dvsqd,
       afac = DotProduct(dv,dr,ndim)*invdrsqd;
       bfac = dvsqd*invdrsqd + afac*afac + DotProduct(da,dr,ndim)*invdrsqd;
 
-      for (int k=0; k<ndim; k++) star[i]->a2dot[k] =
+      for (int k=0; k<ndim; k++) star[i]->a2dot[k] +=
         star[j]->m*da[k]*invdrsqd*invdrmag - 6.0*afac*adot[k] - 3.0*bfac*a[k];
 
     }
-- 
2.43.0


From 02dd881218ccd37772ceed7e62aae79784009497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 15/58] fix: GradhSph potential-minimum flag used the previous
 neighbour's distance

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 17e7049..9beffa3 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -272,8 +272,8 @@ int GradhSph<ndim, kernelclass>::ComputeH
     parti.flags.set(potmin);
     for (j=0; j<Nneib; j++) {
       const DensityParticle &ngb = ngbs[j];
-      FLOAT drsqd = DotProduct(dr,dr,ndim);
       for (k=0; k<ndim; k++) dr[k] = ngb.r[k] - parti.r[k];
+      FLOAT drsqd = DotProduct(dr,dr,ndim);
       if (ngb.gpot > (FLOAT) 1.000000001*parti.gpot &&
           drsqd*invhsqd < kern.kernrangesqd) parti.flags.unset(potmin);
     }
-- 
2.43.0


From 4a2ba07e90d5fe17e50a2920d57f06f3de5c4408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 16/58] fix: Morris-Monaghan switch grew under expansion in
 combined hydro+gravity forces

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 9beffa3..a49cdd9 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -578,7 +578,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphHydroGravForces
   parti.dudt    -= eos->Pressure(parti)*parti.div_v*invrho_i*parti.invomega;
   if (tdavisc == mm97) {
     parti.dalphadt = (FLOAT) 0.1*parti.sound*(alpha_visc_min - parti.alpha)*invh_i +
-        max(parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
+        max(-parti.div_v,(FLOAT) 0.0)*(alpha_visc - parti.alpha);
   }
 
   return;
-- 
2.43.0


From fe120a79bf6934933a550578e32c9eb87c7447f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:32 +0000
Subject: [PATCH 17/58] fix: SPH gravity forces read the neighbour level from
 an unrelated particle

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index a49cdd9..81a7ad4 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -638,7 +638,7 @@ void GradhSph<ndim, kernelclass>::ComputeSphGravForces
     for (k=0; k<ndim; k++) parti.atree[k] += neibpart[j].m*dr[k]*paux;
     parti.gpot += neibpart[j].m*gaux;
 
-    parti.levelneib = max(parti.levelneib,sphdata[j].level);
+    parti.levelneib = max(parti.levelneib,neibpart[j].level);
   }
 
   //===============================================================================================
-- 
2.43.0


From 5e68b964bc7d3b88a75aeeae4bc020ff6114876a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 18/58] fix: GradhSph smoothing-length iteration accepted an
 unconverged h equal to the neighbour-list limit

---
 src/GradhSph/GradhSph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GradhSph/GradhSph.cpp b/src/GradhSph/GradhSph.cpp
index 81a7ad4..2dcd357 100644
--- a/src/GradhSph/GradhSph.cpp
+++ b/src/GradhSph/GradhSph.cpp
@@ -252,7 +252,7 @@ int GradhSph<ndim, kernelclass>::ComputeH
 
     // If the smoothing length is too large for the neighbour list, exit routine and flag neighbour
     // list error in order to generate a larger neighbour list (not properly implemented yet).
-    if (parti.h > hmax) return 0;
+    if (parti.h >= hmax) return 0;
 
   } while (parti.h > h_lower_bound && parti.h < h_upper_bound);
   //===============================================================================================
-- 
2.43.0


From 6ad29165254941367ab2c01b095a48613829ea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:13 +0000
Subject: [PATCH 19/58] fix: MFV smoothing-length iteration tested its starting
 h for convergence

---
 src/MeshlessFV/MfvCommon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index 5747412..a9c69f1 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -169,8 +169,8 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
     rho       = part.m*ndens;
 
     // If h changes below some fixed tolerance, exit iteration loop
-    if (part.rho > (FLOAT) 0.0 && part.h > h_lower_bound &&
-        fabs(part.h - h_fac*pow(volume,MeshlessFV<ndim>::invndim)) < h_converge) break;
+    if (ndens > (FLOAT) 0.0 && h > h_lower_bound &&
+        fabs(h - h_fac*pow(volume,MeshlessFV<ndim>::invndim))*invh < h_converge) break;
 
 
     // Use fixed-point iteration, i.e. h_new = h_fac*(m/rho_old)^(1/ndim), for now.  If this does
@@ -204,7 +204,7 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
 
     // If the smoothing length is too large for the neighbour list, exit routine and flag neighbour
     // list error in order to generate a larger neighbour list (not properly implemented yet).
-    if (h > hmax) return 0;
+    if (h >= hmax) return 0;
 
   } while (h > h_lower_bound && h < h_upper_bound);
   //===============================================================================================
@@ -213,7 +213,7 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
   // Compute other terms once number density and smoothing length are known
   part.ndens     = ndens ;
   part.rho       = rho ;
-  part.h         = h_fac*pow(volume, MeshlessFV<ndim>::invndim);
+  part.h         = max(h_fac*pow(volume, MeshlessFV<ndim>::invndim), h_lower_bound);
   part.hfactor   = pow(1/part.h, ndim+1);
   part.hrangesqd = kern.kernrangesqd*part.h*part.h;
   part.div_v     = (FLOAT) 0.0;
-- 
2.43.0


From 7e3dd537b3112b245c2b8832ec860194af96dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:13 +0000
Subject: [PATCH 20/58] fix: MFV grad-h terms used the previous step's values
 instead of the new sums

---
 src/MeshlessFV/MfvCommon.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvCommon.cpp b/src/MeshlessFV/MfvCommon.cpp
index a9c69f1..5ac5dad 100644
--- a/src/MeshlessFV/MfvCommon.cpp
+++ b/src/MeshlessFV/MfvCommon.cpp
@@ -217,9 +217,9 @@ int MfvCommon<ndim, kernelclass,SlopeLimiter>::ComputeH
   part.hfactor   = pow(1/part.h, ndim+1);
   part.hrangesqd = kern.kernrangesqd*part.h*part.h;
   part.div_v     = (FLOAT) 0.0;
-  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*part.invomega/part.ndens;
+  part.invomega  = (FLOAT) 1.0 + (FLOAT) MeshlessFV<ndim>::invndim*part.h*invomega/part.ndens;
   part.invomega  = (FLOAT) 1.0/part.invomega;
-  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*part.zeta*part.invomega/part.ndens;
+  part.zeta      = -(FLOAT) MeshlessFV<ndim>::invndim*part.m*part.h*zeta*part.invomega/part.ndens;
   
 
   // Set important thermal variables here
-- 
2.43.0


From 8d1653b66a97118a98b949544cec65a9632579e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:01 +0000
Subject: [PATCH 21/58] fix: MFV smoothing-length floor in sinks read an
 uninitialised shadowed member

---
 src/Headers/MeshlessFV.h      | 4 ++--
 src/MeshlessFV/MeshlessFV.cpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index e0933fe..7961222 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -63,8 +63,10 @@ class MeshlessFV : public FV<ndim>
 public:
 
   using Hydrodynamics<ndim>::allocated;
+  using Hydrodynamics<ndim>::create_sinks;
   using Hydrodynamics<ndim>::eos;
   using Hydrodynamics<ndim>::h_fac;
+  using Hydrodynamics<ndim>::hmin_sink;
   using Hydrodynamics<ndim>::hydrodata_unsafe;
   using Hydrodynamics<ndim>::hydro_forces;
   using Hydrodynamics<ndim>::invndim;
@@ -160,10 +162,8 @@ public:
 
   // MeshlessFV particle counters and main particle data array
   //-----------------------------------------------------------------------------------------------
-  int create_sinks;                    ///< Create new sink particles?
   int fixed_sink_mass;                 ///< Fix masses of sink particles
   FLOAT msink_fixed;                   ///< Fixed sink mass value
-  FLOAT hmin_sink;                     ///< Minimum smoothing length of sinks
   string riemann_solver;               ///< Selected Riemann solver
   string slope_limiter;                ///< Selected slope limiter
   string timestep_limiter;            ///< Time of limiter used for block timesteps
diff --git a/src/MeshlessFV/MeshlessFV.cpp b/src/MeshlessFV/MeshlessFV.cpp
index ea9936d..1fdfd1a 100644
--- a/src/MeshlessFV/MeshlessFV.cpp
+++ b/src/MeshlessFV/MeshlessFV.cpp
@@ -64,6 +64,7 @@ MeshlessFV<ndim>::MeshlessFV(int _hydro_forces, int _self_gravity, FLOAT _accel_
 
   Nhydromax       = intparams["Nhydromax"];
   create_sinks    = intparams["create_sinks"];
+  hmin_sink       = big_number;
   fixed_sink_mass = intparams["fixed_sink_mass"];
   msink_fixed     = floatparams["m1"];
 
-- 
2.43.0


From 1dbf9aa7f0168f82448e1152714898c58bf3bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:01 +0000
Subject: [PATCH 22/58] fix: accreting mass from an MFV particle also removes
 its energy

---
 src/Headers/MeshlessFV.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index 7961222..00d2752 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -115,7 +115,7 @@ public:
     MeshlessFVParticle<ndim>& mfvpart = static_cast<MeshlessFVParticle<ndim>& > (part);
     mfvpart.m -= dm;
     mfvpart.dQ[irho] -= dm;
-    //mfvpart.dQ[ietot] -= dm*part.u;
+    mfvpart.dQ[ietot] -= dm*(part.u + (FLOAT) 0.5*DotProduct(mfvpart.v, mfvpart.v, ndim));
     for (int k=0; k<ndim; k++) mfvpart.dQ[k] -= dm*mfvpart.v[k];
   }
 
-- 
2.43.0


From 83029d4e9a391966a9980b38300de1e9df9a6b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:01 +0000
Subject: [PATCH 23/58] fix: MFV predictor used the full step in the
 gravitational work of a partial step

---
 src/MeshlessFV/MfvIntegration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index 293df49..9eb56cb 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -79,8 +79,8 @@ void MfvIntegration<ndim,ParticleType>::AdvanceParticles
     // Add the acceleration / change in energy due to gravity
     for (int k=0; k<ndim; k++) {
       Qcons[ietot] += 0.5 * dt *
-          (part.a0[k]*(part.Qcons0[k] + 0.5*part.Qcons0[irho]*part.a0[k]*part.dt) +
-           part.a0[k]*(Qcons[k]       + 0.5*     Qcons [irho]*part.a0[k]*part.dt));
+          (part.a0[k]*(part.Qcons0[k] + 0.5*part.Qcons0[irho]*part.a0[k]*dt) +
+           part.a0[k]*(Qcons[k]       + 0.5*     Qcons [irho]*part.a0[k]*dt));
 
       Qcons[k] += 0.5*(part.Qcons0[irho] + Qcons[irho])*part.a0[k]*dt;
     }
-- 
2.43.0


From 8e1b7b254fcec77b6745e1d91390725ab0d4367c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:01 +0000
Subject: [PATCH 24/58] fix: gravitational work of exchanged mass cancelled
 between the two MFV particles

---
 src/MeshlessFV/MfvIntegration.cpp | 2 +-
 src/MeshlessFV/MfvMuscl.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index 9eb56cb..ae0a2d4 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -168,7 +168,7 @@ void MfvIntegration<ndim,ParticleType>::EndTimestep
 
         Qcons[k] += 0.5 * part.dt * (part.Qcons0[irho]*part.a0[k] + Qcons[irho]*part.a[k]);
       }
-      Qcons[ietot] += 0.5 *
+      Qcons[ietot] += 0.25 *
          (DotProduct(part.a0, part.rdmdt, ndim) + DotProduct(part.a, part.rdmdt, ndim));
 
       // Add any cooling:
diff --git a/src/MeshlessFV/MfvMuscl.cpp b/src/MeshlessFV/MfvMuscl.cpp
index 019b8b8..7faac9f 100644
--- a/src/MeshlessFV/MfvMuscl.cpp
+++ b/src/MeshlessFV/MfvMuscl.cpp
@@ -241,7 +241,7 @@ void MfvMuscl<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     // Compute mass-loss moments for gravitational correction terms
     for (k=0; k<ndim; k++) {
       part.rdmdt[k]        -= (part.r[k] - neibpart[j].r[k])*DotProduct(flux[irho], Aij, ndim) * dt;
-      neibpart[j].rdmdt[k] += (part.r[k] - neibpart[j].r[k])*DotProduct(flux[irho], Aij, ndim) * dt;
+      neibpart[j].rdmdt[k] -= (part.r[k] - neibpart[j].r[k])*DotProduct(flux[irho], Aij, ndim) * dt;
     }
   }
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From e7de5674590500ce940229c8e1d49b436fb2c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 25/58] fix: MFV Runge-Kutta face area vector pointed the wrong
 way (pressure pulled particles together)

---
 src/MeshlessFV/MfvRungeKutta.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index 4753401..d4fe823 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -107,28 +107,28 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
       for (k=0; k<ndim; k++) {
         psitildaj[k] = 0;
         for (int kk=0; kk<ndim; kk++)
-          psitildaj[k] += part.B[k][kk]*draux[kk]*part.hfactor*
+          psitildaj[k] -= part.B[k][kk]*draux[kk]*part.hfactor*
               kern.w0_s2(drsqd*invh_i*invh_i)*volume_i;
       }
     }
     else {
       double dr = sqrt(drsqd) + small_number ;
       double w = part.hfactor*volume_i * kern.w1(dr*invh_i);
-      for (k=0; k<ndim; k++)  psitildaj[k] = - (draux[k]/dr) * w;
+      for (k=0; k<ndim; k++)  psitildaj[k] = + (draux[k]/dr) * w;
     }
 
     if (not neibpart[j].flags.check(bad_gradients)) {
       for (k=0; k<ndim; k++) {
       psitildai[k] = 0;
       for (int kk=0; kk<ndim; kk++)
-        psitildai[k] -= neibpart[j].B[k][kk]*draux[kk]*neibpart[j].hfactor*
+        psitildai[k] += neibpart[j].B[k][kk]*draux[kk]*neibpart[j].hfactor*
           kern.w0_s2(drsqd*invh_j*invh_j)*volume_j;
       }
     }
     else {
       double dr = sqrt(drsqd) + small_number ;
       double w = neibpart[j].hfactor*volume_j * kern.w1(dr*invh_j);
-      for (k=0; k<ndim; k++) psitildai[k] = + (draux[k]/dr) * w;
+      for (k=0; k<ndim; k++) psitildai[k] = - (draux[k]/dr) * w;
     }
 
     // Compute the face area
-- 
2.43.0


From e8f28d9387ec3bd339f36a2d7b70bbffdf0e95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:24 +0000
Subject: [PATCH 26/58] fix: MFV Runge-Kutta evolved the left state with the
 gradients of the right particle

---
 src/MeshlessFV/MfvRungeKutta.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/MeshlessFV/MfvRungeKutta.cpp b/src/MeshlessFV/MfvRungeKutta.cpp
index d4fe823..4687c25 100644
--- a/src/MeshlessFV/MfvRungeKutta.cpp
+++ b/src/MeshlessFV/MfvRungeKutta.cpp
@@ -82,7 +82,8 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
   FLOAT Wleft[nvar];                   // Primitive vector for LHS of Riemann problem
   FLOAT Wright[nvar];                  // Primitive vector for RHS of Riemann problem
   FLOAT Wdot[nvar];                    // Time derivative of primitive vector
-  FLOAT gradW[nvar][ndim];             // Gradient of primitive vector
+  FLOAT gradWleft[nvar][ndim];         // Gradient of primitive vector for LHS
+  FLOAT gradWright[nvar][ndim];        // Gradient of primitive vector for RHS
   FLOAT dW[nvar];                      // Change in primitive quantities
   const FLOAT dt = timestep*(FLOAT) part.nstep;    // Timestep of given particle
 
@@ -151,13 +152,13 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
 
     // Compute slope-limited values for LHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - part.r[k];
-    limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(part, neibpart[j], draux, gradWleft, dW);
     for (var=0; var<nvar; var++) Wleft[var] = part.Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wleft[k] -= vface[k];
 
     // Compute slope-limited values for RHS
     for (k=0; k<ndim; k++) draux[k] = rface[k] - neibpart[j].r[k];
-    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradW, dW);
+    limiter.ComputeLimitedSlopes(neibpart[j], part, draux, gradWright, dW);
     for (var=0; var<nvar; var++) Wright[var] = neibpart[j].Wprim[var] + dW[var];
     for (k=0; k<ndim; k++) Wright[k] -= vface[k];
 
@@ -179,12 +180,12 @@ void MfvRungeKutta<ndim, kernelclass,SlopeLimiter>::ComputeGodunovFlux
     }
 
     // Time-integrate LHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wleft, gradW, part.sound, Wdot);
+    this->CalculatePrimitiveTimeDerivative(Wleft, gradWleft, part.sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += part.a[k];
     for (var=0; var<nvar; var++) Wleft[var] += (FLOAT) Wdot[var]*dt;
 
     // Time-integrate RHS state to half-timestep value
-    this->CalculatePrimitiveTimeDerivative(Wright, gradW, neibpart[j].sound, Wdot);
+    this->CalculatePrimitiveTimeDerivative(Wright, gradWright, neibpart[j].sound, Wdot);
     for (k=0; k<ndim; k++) Wdot[k] += neibpart[j].a[k];
     for (var=0; var<nvar; var++) Wright[var] += (FLOAT) Wdot[var]*dt;
 
-- 
2.43.0


From ac73309fa968e1203ad0798c0453c36eaff43e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 27/58] fix: dead particles no longer limit the global timestep

---
 src/Common/Simulation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index b6b3711..4058f1a 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1700,6 +1700,7 @@ void Simulation<ndim>::ComputeGlobalTimestep() {
  #pragma omp for
          for (i=0; i<hydro->Nhydro; i++) {
            Particle<ndim>& part = hydro->GetParticlePointer(i);
+           if (part.flags.is_dead()) continue;
            part.flags.set(end_timestep) ;
            part.level     = 0;
            part.levelneib = 0;
-- 
2.43.0


From 2f849f743b6dc490150982dcfcadef643be5c388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 28/58] fix: global timestep divided by the number of integer
 steps per full step

---
 src/Common/Simulation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index 4058f1a..f8a7200 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1738,13 +1738,13 @@ void Simulation<ndim>::ComputeGlobalTimestep() {
      dt = dt_min;
      MPI_Allreduce(&dt, &dt_min, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
  #endif
-     timestep = dt_min;
+     timestep = dt_min / (DOUBLE) nresync;
 
      // Set minimum timestep for all hydro and N-body particles
      if (hydro != NULL)
-       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = timestep;
+       for (i=0; i<hydro->Nhydro; i++) hydro->GetParticlePointer(i).dt_next = dt_min;
      if (nbody != NULL)
-       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = timestep;
+       for (i=0; i<nbody->Nnbody; i++) nbody->nbodydata[i]->dt_next = dt_min;
 
    }
    //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From 787270b4233673b1c83425465b8ad894c481595f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 29/58] fix: timestep of a resynchronised block step computed
 before particles use it

---
 src/Common/Simulation.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index f8a7200..c25a715 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -1853,6 +1853,9 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
     level_max  = Nlevels - 1;
     level_step = level_max + integration_step - 1;
     dt_max     = timestep*pow(2.0, level_max);
+    nresync    = pow(2, level_step);
+    assert(nresync > 0);
+    timestep   = dt_max / (DOUBLE) nresync;
 
     // Calculate the maximum level occupied by all SPH particles
     level_max_hydro = min(ComputeTimestepLevel(dt_min_hydro, dt_max), level_max);
@@ -1919,10 +1922,6 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       }
     }
 
-    nresync = pow(2, level_step);
-    assert(nresync > 0);
-    timestep = dt_max / (DOUBLE) nresync;
-
   }
   // If not resynchronising, check if any hydro/N-body particles need to move
   // up or down timestep levels.
-- 
2.43.0


From c509c6902ab0abdf0680b71e9f4dadee4fc09e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 30/58] fix: real timesteps refreshed together with the integer
 timesteps

---
 src/Common/Simulation.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Common/Simulation.cpp b/src/Common/Simulation.cpp
index c25a715..139c265 100644
--- a/src/Common/Simulation.cpp
+++ b/src/Common/Simulation.cpp
@@ -2140,13 +2140,17 @@ void Simulation<ndim>::ComputeBlockTimesteps(void)
       for (i=0; i<hydro->Nhydro; i++) {
         Particle<ndim>& part = hydro->GetParticlePointer(i);
         if (part.flags.is_dead()) continue;
-        if (part.nlast == n) part.nstep = pow(2, level_step - part.level);
+        if (part.nlast == n) {
+          part.nstep   = pow(2, level_step - part.level);
+          part.dt_next = part.nstep * timestep;
+        }
       }
     }
     if (nbody != NULL) {
       for (i=0; i<nbody->Nnbody; i++) {
         if (nbody->nbodydata[i]->nlast == n) {
-          nbody->nbodydata[i]->nstep = pow(2, level_step - nbody->nbodydata[i]->level);
+          nbody->nbodydata[i]->nstep   = pow(2, level_step - nbody->nbodydata[i]->level);
+          nbody->nbodydata[i]->dt_next = nbody->nbodydata[i]->nstep * timestep;
         }
       }
     }
-- 
2.43.0


From 541dee51e84a4f3c44d36551d9c47a2f11cff8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 31/58] fix: shortened leapfrog KDK step keeps dt consistent
 with nstep

---
 src/Hydrodynamics/SphLeapfrogKDK.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogKDK.cpp b/src/Hydrodynamics/SphLeapfrogKDK.cpp
index 88fb25b..e73ab30 100644
--- a/src/Hydrodynamics/SphLeapfrogKDK.cpp
+++ b/src/Hydrodynamics/SphLeapfrogKDK.cpp
@@ -285,7 +285,7 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
  (const int level_diff_max,            ///< [in] Max. allowed SPH neib dt diff
   const int level_step,                ///< [in] Level of base timestep
   const int n,                         ///< [in] Integer time in block time struct
-  const FLOAT timetep,                 ///< [in] Current time-step
+  const FLOAT timestep,                ///< [in] Current time-step
   Hydrodynamics<ndim>* hydro)
 {
   int dn;                              // Integer time since beginning of step
@@ -316,7 +316,10 @@ int SphLeapfrogKDK<ndim, ParticleType>::CheckTimesteps
 
       // If new level is correctly synchronised, then change all quantities
       if (dn%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+        if (dn > 0) {
+          part.nstep = dn;
+          part.dt    = part.nstep*timestep;
+        }
         part.level  = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From 37d2567bd3f629652fc9472e3794263d792d8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 32/58] fix: shortened leapfrog DKD step keeps dt consistent
 with nstep and stays synchronised

---
 src/Hydrodynamics/SphLeapfrogDKD.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Hydrodynamics/SphLeapfrogDKD.cpp b/src/Hydrodynamics/SphLeapfrogDKD.cpp
index 5375fec..2fb78a8 100644
--- a/src/Hydrodynamics/SphLeapfrogDKD.cpp
+++ b/src/Hydrodynamics/SphLeapfrogDKD.cpp
@@ -225,7 +225,7 @@ int SphLeapfrogDKD<ndim, ParticleType>::CheckTimesteps
  (const int level_diff_max,            ///< [in] Max. allowed SPH neib dt diff
   const int level_step,                ///< [in] Level of base timestep
   const int n,                         ///< [in] Integer time in block time struct
-  const FLOAT timetep,                 ///< [in] Current time-step
+  const FLOAT timestep,                ///< [in] Current time-step
   Hydrodynamics<ndim>* hydro)
 {
   int dn;                              // Integer time since beginning of step
@@ -255,10 +255,12 @@ int SphLeapfrogDKD<ndim, ParticleType>::CheckTimesteps
       level_new = part.levelneib - level_diff_max;
       nnewstep = pow(2,level_step - level_new);
 
-      // If new level is correctly synchronised at the half-step of the
-      // new-step (where acceleration is computed), then change all quantities
-      if ((2*dn)%nnewstep == 0) {
-        if (dn > 0) part.nstep = dn;
+      // If new level is correctly synchronised, then change all quantities
+      if (dn%nnewstep == 0) {
+        if (dn > 0) {
+          part.nstep = dn;
+          part.dt    = part.nstep*timestep;
+        }
         part.level = level_new;
         part.flags.set(active);
         activecount++;
-- 
2.43.0


From dff6115ab84fe3a8220ccb13eb3e70cb3da157af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 33/58] fix: stellar table lookup outside the tabulated masses

---
 src/Nbody/Nbody.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/Nbody/Nbody.cpp b/src/Nbody/Nbody.cpp
index bc4b889..76a2ca4 100644
--- a/src/Nbody/Nbody.cpp
+++ b/src/Nbody/Nbody.cpp
@@ -187,11 +187,15 @@ void Nbody<ndim>::UpdateStellarProperties(void)
 {
   int i;                               // Star counter
   int jbin;                            // Stellar table bin number
+  int jnext;                           // Bin number of upper interpolation point
   FLOAT frac;                          // Linear interpolation weighting factor
   FLOAT ms;                            // Mass of star
 
   debug2("[Nbody::UpdateStellarProperties]");
 
+  // If no table has been loaded, there are no stellar properties to set
+  if (Nstellartable < 1) return;
+
   //-----------------------------------------------------------------------------------------------
   for (i=0; i<Nstar; i++) {
     ms = nbodydata[i]->m;
@@ -201,19 +205,25 @@ void Nbody<ndim>::UpdateStellarProperties(void)
       if (ms >= stellartable[jbin].mass && ms < stellartable[jbin+1].mass) break;
     }
 
-    // If mass exceeds last bin, simply use largest mass values for stellar properties
+    // If mass lies outside the table, simply use the values of the first/last entry.
     // Otherwise, use linear interpolation between tabulated values
-    if (jbin == Nstellartable-1) {
-      jbin = Nstellartable - 2;
-      frac = 1.0;
+    if (ms < stellartable[0].mass) {
+      jbin  = 0;
+      jnext = 0;
+      frac  = 0.0;
+    }
+    else if (jbin == Nstellartable-1) {
+      jnext = jbin;
+      frac  = 0.0;
     }
     else {
-      frac = (ms - stellartable[jbin].mass)/(stellartable[jbin+1].mass - stellartable[jbin].mass);
+      jnext = jbin + 1;
+      frac  = (ms - stellartable[jbin].mass)/(stellartable[jnext].mass - stellartable[jbin].mass);
     }
 
     // Set all stellar properties (only NLyC for now)
     nbodydata[i]->NLyC =
-      pow(10.0, (1.0 - frac)*stellartable[jbin].NLyC + frac*stellartable[jbin+1].NLyC);
+      pow(10.0, (1.0 - frac)*stellartable[jbin].NLyC + frac*stellartable[jnext].NLyC);
 
   }
   //-----------------------------------------------------------------------------------------------
-- 
2.43.0


From f7a5c7f48f21762d5aa19b90127a427ac4350298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 34/58] fix: meshless conserved variables reflected at mirror
 boundaries

---
 src/Headers/Integration.h         |  1 +
 src/MeshlessFV/MfvIntegration.cpp | 50 +++++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+)

diff --git a/src/Headers/Integration.h b/src/Headers/Integration.h
index 0313092..0011d9c 100644
--- a/src/Headers/Integration.h
+++ b/src/Headers/Integration.h
@@ -185,6 +185,7 @@ public:
   void CorrectionTerms(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *){};
   void EndTimestep(const int, const FLOAT, const FLOAT, Hydrodynamics<ndim> *);
   int CheckTimesteps(const int, const int, const int, const FLOAT, Hydrodynamics<ndim> *);
+  void CheckBoundaries(DomainBox<ndim> &, Hydrodynamics<ndim> *);
   DOUBLE Timestep(Particle<ndim> &, Hydrodynamics<ndim> *);
 
  private:
diff --git a/src/MeshlessFV/MfvIntegration.cpp b/src/MeshlessFV/MfvIntegration.cpp
index ae0a2d4..321f585 100644
--- a/src/MeshlessFV/MfvIntegration.cpp
+++ b/src/MeshlessFV/MfvIntegration.cpp
@@ -269,6 +269,56 @@ int MfvIntegration<ndim,ParticleType>::CheckTimesteps
   return activecount;
  }
 
+//=================================================================================================
+//  MfvIntegration::CheckBoundaries
+/// Check all particles to see if any have crossed the simulation bounding box.  The conserved
+/// variables (from which the velocity is recomputed) and the fluxes accumulated so far must be
+/// reflected as well if a particle crosses a mirror or wall boundary in the middle of a step.
+//=================================================================================================
+template <int ndim, template <int> class ParticleType>
+void MfvIntegration<ndim,ParticleType>::CheckBoundaries
+ (DomainBox<ndim>& simbox,             ///< Domain box object
+  Hydrodynamics<ndim>* hydro)          ///< Pointer to hydrodynamics object
+{
+  debug2("[MfvIntegration::CheckBoundaries]");
+
+  MeshlessFV<ndim>* mfv = reinterpret_cast<MeshlessFV<ndim>*>(hydro);
+  MeshlessFVParticle<ndim>* partdata = mfv->GetMeshlessFVParticleArray();
+
+  // Reflect all particles that have crossed a mirror or wall boundary
+  //-----------------------------------------------------------------------------------------------
+#pragma omp parallel for default(none) shared(mfv,partdata,simbox)
+  for (int i=0; i<mfv->Nhydro; i++) {
+    MeshlessFVParticle<ndim>& part = partdata[i];
+
+    for (int k=0; k<ndim; k++) {
+      for (int side=0; side<2; side++) {
+        const int boundary = (side == 0) ? simbox.boundary_lhs[k] : simbox.boundary_rhs[k];
+        const FLOAT wall   = (side == 0) ? simbox.min[k] : simbox.max[k];
+
+        if (boundary != mirrorBoundary && boundary != wallBoundary) continue;
+        if (side == 0 ? part.r[k] >= wall : part.r[k] <= wall) continue;
+
+        reflect(part, k, wall);
+        part.r0[k]     = (FLOAT) 2.0*wall - part.r0[k];
+        part.v0[k]     = -part.v0[k];
+        part.a0[k]     = -part.a0[k];
+        part.Qcons0[k] = -part.Qcons0[k];
+        part.rdmdt[k]  = -part.rdmdt[k];
+        part.rdmdt0[k] = -part.rdmdt0[k];
+      }
+    }
+  }
+  //-----------------------------------------------------------------------------------------------
+
+  // Re-position all particles that have crossed a periodic boundary
+  TimeIntegration<ndim>::CheckBoundaries(simbox, hydro);
+
+  return;
+}
+
+
+
 //=================================================================================================
 //  SphLeapfrogKDK::SetActiveParticles
 /// Set or unset the active flag for all particles based upon whther the particles need a force
-- 
2.43.0


From dcfe9e2003b634a776d3e49b4a76d339e239d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 35/58] fix: oct-tree root cell given its bounding box

---
 src/Tree/OctTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 9aadf5e..30f0722 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -281,6 +281,8 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
   for (k=0; k<ndim; k++) celldata[0].cexit[0][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].cexit[1][k] = -1;
   for (k=0; k<ndim; k++) celldata[0].v[k]= (FLOAT) 0.0;
+  for (k=0; k<ndim; k++) celldata[0].bb.min[k] = bbmin[k];
+  for (k=0; k<ndim; k++) celldata[0].bb.max[k] = bbmax[k];
   for (k=0; k<ndim; k++) {
     celldata[0].rcentre[k] = (FLOAT) 0.5*(celldata[0].bb.min[k] + celldata[0].bb.max[k]);
     cellSize = max(cellSize, celldata[0].bb.max[k] - celldata[0].rcentre[k]);
-- 
2.43.0


From dd5b21b5243b0de51cbb39bbb1c29f75caf96ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 36/58] fix: oct-tree cell array enlarged when the children do
 not fit

---
 src/Tree/OctTree.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index 30f0722..c2c6f22 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -306,6 +306,23 @@ void OctTree<ndim,ParticleType,TreeCell>::BuildTree
     while (!allDone) {
       cellSize *= (FLOAT) 0.5;
 
+      // Enlarge the cell array (and move the end-of-walk marker) if there is no room for all children
+      if (Ncell + Nlist*Noctchild > Ncellmax) {
+        const int Ncellmaxold = Ncellmax;
+        ReallocateMemory(Ntotmax, 2*(Ncell + Nlist*Noctchild));
+        for (c=0; c<Ncellmaxold; c++) {
+          if (celldata[c].cnext == Ncellmaxold) celldata[c].cnext = Ncellmax;
+        }
+        for (c=Ncellmaxold; c<Ncellmax; c++) {
+          celldata[c].N      = 0;
+          celldata[c].ifirst = -1;
+          celldata[c].ilast  = -1;
+          celldata[c].copen  = -1;
+          celldata[c].cnext  = Ncellmax;
+          celldata[c].id     = c;
+        }
+      }
+
 
       // Loop over all unfinished cells to find new child cell occupancy
       //-------------------------------------------------------------------------------------------
-- 
2.43.0


From 41ef4fe2b50e3f768f3194de68c42e5846c3cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 37/58] fix: oct-tree velocity boxes reset before stocking

---
 src/Tree/OctTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index c2c6f22..a2a0d50 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -525,6 +525,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
       for (k=0; k<ndim; k++) cell.bb.max[k]   = -big_number;
       for (k=0; k<ndim; k++) cell.hbox.min[k] = big_number;
       for (k=0; k<ndim; k++) cell.hbox.max[k] = -big_number;
+      for (k=0; k<ndim; k++) cell.vbox.min[k] = big_number;
+      for (k=0; k<ndim; k++) cell.vbox.max[k] = -big_number;
       for (k=0; k<5; k++) cell.q[k] = (FLOAT) 0.0;
 
 
-- 
2.43.0


From 285a253618d5b1c63ce77bb10bbc9d9d2b78402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:02 +0000
Subject: [PATCH 38/58] fix: oct-tree leaves of massless particles get their
 geometry

---
 src/Tree/OctTree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/OctTree.cpp b/src/Tree/OctTree.cpp
index a2a0d50..98a3afd 100644
--- a/src/Tree/OctTree.cpp
+++ b/src/Tree/OctTree.cpp
@@ -590,6 +590,8 @@ void OctTree<ndim,ParticleType,TreeCell>::StockTree
         if (cell.m > 0) {
           for (k=0; k<ndim; k++) cell.r[k] /= cell.m;
           for (k=0; k<ndim; k++) cell.v[k] /= cell.m;
+        }
+        if (cell.N > 0) {
           for (k=0; k<ndim; k++) cell.rcell[k] = (FLOAT) 0.5*(cell.bb.min[k] + cell.bb.max[k]);
           for (k=0; k<ndim; k++) dr[k] = (FLOAT) 0.5*(cell.bb.max[k] - cell.bb.min[k]);
           cell.cdistsqd = max(DotProduct(dr,dr,ndim),cell.hmax*cell.hmax)/thetamaxsqd;
-- 
2.43.0


From 3b7432e768190235dad2819601b88bf5c13125f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 39/58] fix: use-after-free of the particle being mirrored when
 the ghost list grows

---
 src/Headers/GhostNeighbours.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 297ea0c..3dc4467 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -411,7 +411,7 @@ private:
 	int _MakeReflectedScatterGatherGhosts(vector<ParticleType>& ngbs) const {
 	  int nc = 1 ;
 	  const int old_size = ngbs.size()-1;
-	  const ParticleType& real_particle = ngbs.back();
+	  const ParticleType real_particle = ngbs.back();
 	  FLOAT h2 = real_particle.hrangesqd ;
 
 	  // Loop over the possible directions for reflections
-- 
2.43.0


From 2ffe319fee388582d1c33f9ad64f4c926c6bdb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 40/58] fix: periodic correction set to zero along non-periodic
 axes

---
 src/Headers/GhostNeighbours.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Headers/GhostNeighbours.hpp b/src/Headers/GhostNeighbours.hpp
index 3dc4467..ecf10fb 100644
--- a/src/Headers/GhostNeighbours.hpp
+++ b/src/Headers/GhostNeighbours.hpp
@@ -189,6 +189,8 @@ public:
               else
                 dr_corr[k] = 0 ;
             }
+            else
+              dr_corr[k] = 0 ;
           }
         }
       return bound ;
-- 
2.43.0


From e488277a54ecc394c886b08fd21bceaf75d777d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 41/58] fix: type of a demoted neighbour read from the particle
 itself

---
 src/Headers/NeighbourManager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Headers/NeighbourManager.h b/src/Headers/NeighbourManager.h
index 2223acf..efd37b0 100644
--- a/src/Headers/NeighbourManager.h
+++ b/src/Headers/NeighbourManager.h
@@ -460,7 +460,7 @@ private:
         neiblist.push_back(Nneib);
         neib_idx.push_back(i);
         Nneib++;
-      } else if (keep_direct && gravmask[neibdata[Nneib].ptype]) {
+      } else if (keep_direct && gravmask[partdata[i].ptype]) {
         // Hydro candidates that fail the test get demoted to direct neighbours
         neibdata.push_back(partdata[i]);
         directlist.push_back(Nneib);
-- 
2.43.0


From 742bbe54888f7305980a7f3aefaefb6ecafe9969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 42/58] fix: stars only attracted by particle types that
 gravitate

---
 src/Tree/Tree.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 6796d3b..2c7f9eb 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -804,7 +804,7 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
       else if (celldata[cc].copen == -1 && Nneib + Nleafmax <= Nneibmax) {
         i = celldata[cc].ifirst;
         while (i != -1) {
-          if (!partdata[i].flags.is_dead()) neiblist[Nneib++] = i;
+          if (!partdata[i].flags.is_dead() && gravmask[partdata[i].ptype]) neiblist[Nneib++] = i;
           if (i == celldata[cc].ilast) break;
           i = inext[i];
         };
@@ -825,8 +825,9 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
       // If cell is a leaf-cell with only one particle, more efficient to
       // compute the gravitational contribution from the particle than the cell
       if (celldata[cc].copen == -1 && celldata[cc].N == 1 && Ndirect + Nneib < Ndirectmax) {
-        if (!partdata[celldata[cc].ifirst].flags.is_dead()) {
-          directlist[Ndirect++] = celldata[cc].ifirst;
+        i = celldata[cc].ifirst;
+        if (!partdata[i].flags.is_dead() && gravmask[partdata[i].ptype]) {
+          directlist[Ndirect++] = i;
         }
       }
       else if (Ngravcell < Ngravcellmax && celldata[cc].N > 0) {
@@ -853,7 +854,7 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeStarGravityInteractionList
       else if (celldata[cc].copen == -1 && Ndirect + Nleafmax <= Ndirectmax) {
         i = celldata[cc].ifirst;
         while (i != -1) {
-          if (!partdata[i].flags.is_dead()) directlist[Ndirect++] = i;
+          if (!partdata[i].flags.is_dead() && gravmask[partdata[i].ptype]) directlist[Ndirect++] = i;
           if (i == celldata[cc].ilast) break;
           i = inext[i];
         };
-- 
2.43.0


From 8d797aa0eb311d1214af553407973997bccdbcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:04 +0000
Subject: [PATCH 43/58] fix: cell distance and approach velocity of distant
 signals when cells overlap along an axis

---
 src/Tree/Tree.cpp | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 2c7f9eb..06c590b 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -946,25 +946,22 @@ bool Tree<ndim,ParticleType,TreeCell>::ComputeSignalVelocityFromDistantInteracti
 
     // Also open the cell if waves can interact within dt_min
     if (!open) {
-      // Compute the minimum distance between the cells and the dvdr
+      // Compute the minimum distance between the cells and a lower limit for dvdr.  The cells may
+      // still overlap along some of the axes, where the minimum separation is zero.
       FLOAT dvdr = 0 ;
       FLOAT rmin = 0 ;
       for(k=0; k<ndim; k++) {
-        if (dr[k] > 0) {
-          FLOAT drk = dr[k] - width[k] ;
-          rmin += drk*drk ;
-
-          dvdr += drk * (other.vbox.min[k] - cell.vbox.max[k]) ;
-        }
-        else {
-          FLOAT drk = dr[k] + width[k] ;
-          rmin += drk*drk ;
-
-          dvdr += drk * (other.vbox.max[k] - cell.vbox.min[k]) ;
-        }
+        const FLOAT drk   = max(fabs(dr[k]) - width[k], (FLOAT) 0.0) ;
+        const FLOAT dvmin = other.vbox.min[k] - cell.vbox.max[k] ;
+        const FLOAT dvmax = other.vbox.max[k] - cell.vbox.min[k] ;
+        FLOAT dvk = 0 ;
+        if (dr[k] > -width[k]) dvk = max(dvk, -dvmin) ;
+        if (dr[k] <  width[k]) dvk = max(dvk,  dvmax) ;
+        rmin += drk*drk ;
+        dvdr += dvk*dvk ;
       }
-      rmin  = sqrt(rmin) ;
-      dvdr /= rmin + small_number ;
+      rmin = sqrt(rmin) ;
+      dvdr = -sqrt(dvdr) ;
 
       FLOAT vsig = cell.maxsound + other.maxsound - dvdr ;
 
-- 
2.43.0


From ced1338754ef2c7115f8d50230d2e095b20cea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 44/58] fix: inverse smoothing length of new sinks follows
 their own smoothing length

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index f6b33c6..f6ac1ea 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -320,7 +320,7 @@ void Sinks<ndim>::CreateNewSinkParticle
 
   // Calculate all other sink properties based on radius and SPH particle properties
   sink[Nsink].star->h            = hydro->kernp->invkernrange*sink[Nsink].radius;
-  sink[Nsink].star->invh         = (FLOAT) 1.0/part.h;
+  sink[Nsink].star->invh         = (FLOAT) 1.0/sink[Nsink].star->h;
   sink[Nsink].star->radius       = sink[Nsink].radius;
   //sink[Nsink].star->hfactor      = pow(sink[Nsink].star->invh,ndim);
   sink[Nsink].star->m            = part.m;
-- 
2.43.0


From df90b37123f66f78691b60fc83770b79575cb7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 45/58] fix: fixed maximum number of sinks respected when
 several form in one search

---
 src/Nbody/Sinks.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index f6ac1ea..fe55cad 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -270,7 +270,7 @@ void Sinks<ndim>::SearchForNewSinkParticles
       Nsink++;
     }
 
-  } while (isink != -1);
+  } while (isink != -1 && (Nsink < Nsinkfixed || Nsinkfixed == -1));
   //===============================================================================================
 
 
-- 
2.43.0


From 758c0131d4621899a56c8fd9aa5a42889265e1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 46/58] fix: sinks whose gas all belongs to an overlapping sink
 accrete nothing

---
 src/Nbody/Sinks.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index fe55cad..8ada39b 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -525,6 +525,9 @@ void Sinks<ndim>::AccreteMassToSinks
 
       }
 
+      // All gas inside this sink may already belong to another (overlapping) sink
+      if (Nneib == 0) continue;
+
       // Sort particle ids by increasing distance from the sink
       InsertionSortIds(Nneib, ilist, rsqdlist);
 
-- 
2.43.0


From 174119ce800b60ea44c4ca4888ace010bf1fa8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:58 +0000
Subject: [PATCH 47/58] fix: overlap test of new sinks uses the radius the sink
 would get

---
 src/Headers/Sinks.h |  1 +
 src/Nbody/Sinks.cpp | 28 ++++++++++++++++++----------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/Headers/Sinks.h b/src/Headers/Sinks.h
index 396f7ed..2f770f0 100644
--- a/src/Headers/Sinks.h
+++ b/src/Headers/Sinks.h
@@ -141,6 +141,7 @@ class Sinks
                                  Hydrodynamics<ndim> *, Nbody<ndim> *);
   void CreateNewSinkParticle(const int, const FLOAT, Particle<ndim>&,
                              Hydrodynamics<ndim> *, Nbody<ndim> *);
+  FLOAT NewSinkRadius(const FLOAT, Hydrodynamics<ndim> *);
   void AccreteMassToSinks(const int, const FLOAT,
                           Hydrodynamics<ndim> *, Nbody<ndim> *);
 
diff --git a/src/Nbody/Sinks.cpp b/src/Nbody/Sinks.cpp
index 8ada39b..952aa46 100644
--- a/src/Nbody/Sinks.cpp
+++ b/src/Nbody/Sinks.cpp
@@ -187,7 +187,7 @@ void Sinks<ndim>::SearchForNewSinkParticles
         if (part.rho < -dadr/drsqd ) sink_flag = false;
 
         // If hydro particle neighbours a nearby sink, skip to next particle
-        if (drsqd < pow(sink_radius*part.h + sink[s].radius, 2)) sink_flag = false;
+        if (drsqd < pow(NewSinkRadius(part.h, hydro) + sink[s].radius, 2)) sink_flag = false;
 
         // Skip looping over other sinks if sink candidate has already been excluded
         if (!sink_flag) break;
@@ -279,6 +279,22 @@ void Sinks<ndim>::SearchForNewSinkParticles
 
 
 
+//=================================================================================================
+//  Sinks::NewSinkRadius
+/// Radius of a sink formed from a hydro particle of the given smoothing length.
+//=================================================================================================
+template <int ndim>
+FLOAT Sinks<ndim>::NewSinkRadius
+ (const FLOAT h,                       ///< [in] Smoothing length of hydro particle
+  Hydrodynamics<ndim> *hydro)          ///< [in] Object containing hydro ptcls
+{
+  if (sink_radius_mode == "fixed") return sink_radius;
+  else if (sink_radius_mode == "hmult") return sink_radius*h;
+  else return hydro->kernp->kernrange*h;
+}
+
+
+
 //=================================================================================================
 //  Sinks::CreateNewSinkParticle
 /// Create a new sink particle from specified SPH particle 'isink' and then
@@ -307,15 +323,7 @@ void Sinks<ndim>::CreateNewSinkParticle
   nbody->nbodydata[nbody->Nnbody] = &(nbody->stardata[nbody->Nstar]);
 
   // Calculate new sink radius depending on chosen sink parameter
-  if (sink_radius_mode == "fixed") {
-    sink[Nsink].radius = sink_radius;
-  }
-  else if (sink_radius_mode == "hmult") {
-    sink[Nsink].radius = sink_radius*part.h;
-  }
-  else {
-    sink[Nsink].radius = hydro->kernp->kernrange*part.h;
-  }
+  sink[Nsink].radius = NewSinkRadius(part.h, hydro);
 
 
   // Calculate all other sink properties based on radius and SPH particle properties
-- 
2.43.0


From 207494bbc8ce373b3871a4977560a98149f93f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:47 +0000
Subject: [PATCH 48/58] fix: boundary ghosts of particles faster than their
 cell's mean are no longer missed

---
 src/Tree/Tree.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 06c590b..993cd6f 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -1109,9 +1109,9 @@ void Tree<ndim,ParticleType,TreeCell>::GenerateBoundaryGhostParticles
 
     // If x-bounding box overlaps edge of x-domain, open cell
     //-------------------------------------------------------------------------------------------
-    if (cellptr->bb.min[j] + min((FLOAT) 0.0,cellptr->v[j]*tghost) <
+    if (cellptr->bb.min[j] + min((FLOAT) 0.0,cellptr->vbox.min[j]*tghost) <
         simbox.min[j] + ghost_range*cellptr->hmax ||
-        cellptr->bb.max[j] + max((FLOAT) 0.0,cellptr->v[j]*tghost) >
+        cellptr->bb.max[j] + max((FLOAT) 0.0,cellptr->vbox.max[j]*tghost) >
         simbox.max[j] - ghost_range*cellptr->hmax) {
 
       // If not a leaf-cell, then open cell to first child cell
-- 
2.43.0


From 3012d94652127d190fcf15554101f63703709039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:42 +0000
Subject: [PATCH 49/58] fix: Ewald potential correction interpolated like the
 force

---
 src/Common/Ewald.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index d3c941c..669d68f 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -651,7 +651,7 @@ void Ewald<ndim>::CalculatePeriodicCorrection
         wf[6]*ewald_field[indexBase3 + Ngrid[0]] + wf[7] * ewald_field[indexBase3 + Ngrid[0] + 1];
     }
 
-    gpotcorr += m*ewald_field[indexBase0];
+    gpotcorr += m*grEwald[0];
     for (k=0; k<ndim; k++) {
       acorr[k] += m*grEwald[k+1]*sgn(dr[k]);
     }
-- 
2.43.0


From bc42c65f6984acc2b51e2d2e230c19efd7de58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:40 +0000
Subject: [PATCH 50/58] fix: long-range Ewald sums of two periodic axes cut off
 along the axis they belong to

---
 src/Common/Ewald.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/Common/Ewald.cpp b/src/Common/Ewald.cpp
index 669d68f..372c245 100644
--- a/src/Common/Ewald.cpp
+++ b/src/Common/Ewald.cpp
@@ -226,7 +226,7 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
         es_nfx = 0;
         es_nfz = (int) (1+(gr_bhewaldseriesn)*ratio_p);
         cr3 = pow(ratio_p,2);
-        cf3 = 1.0/cr1;
+        cf3 = 1.0/cr3;
         Lewald[0] = 4*simbox.half[1];
         Ncells[0] = 4*(nEwaldGrid - 2)+1;
         break;
@@ -370,23 +370,23 @@ Ewald<ndim>::Ewald(DomainBox<ndim> &simbox, int _gr_bhewaldseriesn, int _in, int
                   }
                   else if (ewald_periodicity == 5) {
                     ewald_field[ewald_index] +=
-                      PotLong2p1i(ewald_dzeta, linv, ratio_pinv, z, x, y, hi, hk, ewc1, ewc2);
+                      PotLong2p1i(ewald_dzeta, linv, ratio_pinv, z, x, y, hk, hi, ewc1, ewc2);
                     ewald_field[ewald_index + one_component] +=
-                      hk*ratio_pinv*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, z, x, y, hi, hk, ewc1, ewc2));
+                      hi*ratio_pinv*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, z, x, y, hk, hi, ewc1, ewc2));
                     ewald_field[ewald_index + 2*one_component] +=
-                      AccLong2p1iIso(ewald_dzeta, linv, ratio_pinv, z, x, y, hi, hk, ewc1, ewc2);
+                      AccLong2p1iIso(ewald_dzeta, linv, ratio_pinv, z, x, y, hk, hi, ewc1, ewc2);
                     ewald_field[ewald_index + 3*one_component] +=
-                      hi*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, z, x, y, hi, hk, ewc1, ewc2));
+                      hk*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, z, x, y, hk, hi, ewc1, ewc2));
                   }
                   else if (ewald_periodicity == 6) {
                     ewald_field[ewald_index] +=
-                      PotLong2p1i(ewald_dzeta, linv,ratio_pinv, y, z, x, hk, hj, ewc1, ewc2);
+                      PotLong2p1i(ewald_dzeta, linv,ratio_pinv, y, z, x, hj, hk, ewc1, ewc2);
                     ewald_field[ewald_index + one_component] +=
-                      AccLong2p1iIso(ewald_dzeta, linv, ratio_pinv, y, z, x, hk, hj, ewc1, ewc2);
+                      AccLong2p1iIso(ewald_dzeta, linv, ratio_pinv, y, z, x, hj, hk, ewc1, ewc2);
                     ewald_field[ewald_index + 2*one_component] +=
-                      hk*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, y, z, x, hk, hj, ewc1, ewc2));
+                      hj*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, y, z, x, hj, hk, ewc1, ewc2));
                     ewald_field[ewald_index + 3*one_component] +=
-                      hj*ratio_pinv*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, y, z, x, hk, hj, ewc1, ewc2));
+                      hk*ratio_pinv*(AccLong2p1iPer(ewald_dzeta, linv, ratio_pinv, y, z, x, hj, hk, ewc1, ewc2));
                   }
                   else if (ewald_periodicity == 7) {
                     if ((pow(hi,2)+pow(hj,2)+pow(hk,2)) > 0) {
-- 
2.43.0


From 87f273119e5310166d71abcc505001fb28025c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:17 +0000
Subject: [PATCH 51/58] fix: test-particle dust drag checks the neighbours, not
 the first particles, for being dead

---
 src/Common/Dust.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index 3f11433..dbd241c 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -509,14 +509,13 @@ void DustSphNgbFinder<ndim, ParticleType>::FindNeibAndDoInterp
         }  while (Nneib < 0) ;
 
         // Make local copies of important neib information (mass and position)
-        for (jj=0; jj<Nneib; jj++) {
-          if (sphdata[j].flags.is_dead()){
-        	Nneib-- ;
-        	continue ;
-          }
-
-          j        = neiblist[jj];
+        const int Nneibfound = Nneib;
+        Nneib = 0;
+        for (int n=0; n<Nneibfound; n++) {
+          j = neiblist[n];
+          if (sphdata[j].flags.is_dead()) continue;
 
+          jj        = Nneib++;
           m[jj]     = sphdata[j].m;
           ptype[jj] = sphdata[j].ptype;
           for (k=0; k<ndim; k++) pos[ndim*jj + k] = sphdata[j].r[k];
-- 
2.43.0


From 2f669cd92a36eacfb4944bd848e1b5befa2269c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:46 +0000
Subject: [PATCH 52/58] fix: meshless position update after drag divides the
 momentum change by the mass

---
 src/Common/Dust.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Common/Dust.cpp b/src/Common/Dust.cpp
index dbd241c..adef868 100644
--- a/src/Common/Dust.cpp
+++ b/src/Common/Dust.cpp
@@ -126,7 +126,8 @@ void update_particle(MeshlessFVParticle<ndim>& part, FLOAT* acc, FLOAT dudt, dou
 
   // Update the particle position according to the drag terms.
   for(int k=0; k<ndim; k++) {
-    part.v[k] = part.v0[k] + part.dQ[k] + part.a0[k]*dt ;
+    const FLOAT m0 = part.Qcons0[MeshlessFV<ndim>::irho] ;
+    part.v[k] = (part.Qcons0[k] + part.dQ[k] + 0.5*(m0 + part.m)*part.a0[k]*dt) / part.m ;
     part.r[k] = part.r0[k] + 0.5*(part.v0[k] + part.v[k])*dt;
     part.flags.set(update_density) ;
   }
-- 
2.43.0


From c5b0bfd8129dd1f63952965e0912260fe24e2c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:56 +0000
Subject: [PATCH 53/58] fix: supernova schedule is not read past its end, in
 positions or in time

---
 src/Feedback/SupernovaDriver.cpp | 11 ++++++-----
 src/Headers/Supernova.h          |  1 +
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Feedback/SupernovaDriver.cpp b/src/Feedback/SupernovaDriver.cpp
index d1df4d2..cab95e5 100644
--- a/src/Feedback/SupernovaDriver.cpp
+++ b/src/Feedback/SupernovaDriver.cpp
@@ -170,13 +170,13 @@ SilccSupernovaDriver<ndim>::SilccSupernovaDriver
   string SNfile;
   string line;
   int i;
-  int nSN;
 
   Minj = floatparams["Minj"]/(units.m.outscale);
   Rinj = floatparams["Rinj"]/(units.r.outscale);
   SNfile = stringparams["SNfile_name"];
   R_therm_kin = floatparams["R_therm_kin"];
   SNid = 0;
+  nSN  = 0;
 
   cout << "Minj: " << Minj << endl;
   cout << "Rinj: " << Rinj << endl;
@@ -200,7 +200,7 @@ SilccSupernovaDriver<ndim>::SilccSupernovaDriver
 
     // read table
     //---------------------------------------------------------------------------------------------
-    while (getline(file, line)) {
+    while (i < nSN && getline(file, line)) {
       istringstream istr(line);
 
       if (istr >> SNtime[i] >> SNposx[i] >> SNposy[i] >> SNposz[i] >> SNEinj[i]) {
@@ -214,6 +214,7 @@ SilccSupernovaDriver<ndim>::SilccSupernovaDriver
       }
     }
     //---------------------------------------------------------------------------------------------
+    nSN = i;
 
   }
   //-----------------------------------------------------------------------------------------------
@@ -244,15 +245,15 @@ void SilccSupernovaDriver<ndim>::Update
 
   // Create supernova at requested time (and ensure that only one is made)
   //-----------------------------------------------------------------------------------------------
-  if (t >= SNtime[SNid]) {
+  if (SNid < nSN && t >= SNtime[SNid]) {
 
     cout << "ADDING SUPERNOVA " << SNid <<  " !!" << endl;
 
     FLOAT SNpos[ndim];
     //FLOAT Rinj        = hydro->GetParticlePointer(0).h; //(FLOAT) 0.0;
     SNpos[0] = SNposx[SNid];
-    SNpos[1] = SNposy[SNid];
-    SNpos[2] = SNposz[SNid];
+    if (ndim > 1) SNpos[1%ndim] = SNposy[SNid];
+    if (ndim > 2) SNpos[2%ndim] = SNposz[SNid];
 
     supernova.SupernovaInjection(n, level_step, level_max, SNid, t, SNpos, SNEinj[SNid],
                                  R_therm_kin, Minj, Rinj, hydro, neibsearch, randnumb);
diff --git a/src/Headers/Supernova.h b/src/Headers/Supernova.h
index c00339f..f0e43bf 100644
--- a/src/Headers/Supernova.h
+++ b/src/Headers/Supernova.h
@@ -179,6 +179,7 @@ public:
   using SupernovaDriver<ndim>::supernova;
 
   int SNid;
+  int nSN;                             ///< No. of supernovae in the table
   FLOAT tsupernova;
   FLOAT Minj;
   FLOAT Rinj;
-- 
2.43.0


From efff4600e70af7236ebc5af9eb19482610a98dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:56 +0000
Subject: [PATCH 54/58] fix: supernova energy given to existing particles,
 ghosts and meshless particles is kept

---
 src/Feedback/Supernova.cpp          | 29 +++++++++++------
 src/Headers/Hydrodynamics.h         |  2 ++
 src/Headers/MeshlessFV.h            |  1 +
 src/Hydrodynamics/Hydrodynamics.cpp | 48 +++++++++++++++++++++--------
 src/MeshlessFV/MeshlessFV.cpp       | 19 ++++++++++++
 5 files changed, 76 insertions(+), 23 deletions(-)

diff --git a/src/Feedback/Supernova.cpp b/src/Feedback/Supernova.cpp
index 99762ac..e197954 100644
--- a/src/Feedback/Supernova.cpp
+++ b/src/Feedback/Supernova.cpp
@@ -105,6 +105,14 @@ void Supernova<ndim>::SupernovaInjection
                                                hydro->Nhydro, Nneibmax, neiblist);
   };
 
+  // Periodic ghosts stand for their original particles, and mirror ghosts for nothing that can be
+  // heated, so only keep the former in the list.
+  int Nkept = 0;
+  for (j=0; j<Nneib; j++) {
+    if (!hydro->GetParticlePointer(neiblist[j]).flags.is_mirror()) neiblist[Nkept++] = neiblist[j];
+  }
+  Nneib = Nkept;
+
   // Total number of hot SN particles = new particles + existing particles within sphere
   nSNinject = Ninject + Nneib;
 #ifdef OUTPUT_ALL
@@ -126,20 +134,21 @@ void Supernova<ndim>::SupernovaInjection
   for (j=0; j<Nneib; j++) {
     i = neiblist[j];
 
-    Particle<ndim>& part = hydro->GetParticlePointer(i);
-
-    // determine radial velocity vector for this particle
-    for (k=0; k<ndim; k++) dr[k] = part.r[k] - SNpos[k];
+    // determine radial velocity vector for this particle (or its ghost)
+    for (k=0; k<ndim; k++) dr[k] = hydro->GetParticlePointer(i).r[k] - SNpos[k];
     drsqd = DotProduct(dr, dr, ndim);
     drmag = sqrt(drsqd) + small_number;
-    part.u += uinj;
 
-    for (k=0;k<ndim;k++){
-      part.v[k] = (part.r[k] - SNpos[k])/drmag * vrad_mag;
+    // If particle is a ghost, then find the original particle
+    while (i >= hydro->Nhydro) i = hydro->GetParticlePointer(i).iorig;
+    Particle<ndim>& part = hydro->GetParticlePointer(i);
+
+    part.u += uinj;
+    for (k=0; k<ndim; k++) part.v[k] = dr[k]/drmag * vrad_mag;
 
-      // reset acceleration to 0??
-      part.a[k] = (FLOAT) 0.0;
-    }
+    // Begin a new step so the new velocity and energy are not over-written from those at the
+    // beginning of the current step
+    hydro->RestartTimestep(part, sim);
   }
 
   // Loop over all new particles, create them one by one and initialize
diff --git a/src/Headers/Hydrodynamics.h b/src/Headers/Hydrodynamics.h
index a2edd85..b3b56f0 100644
--- a/src/Headers/Hydrodynamics.h
+++ b/src/Headers/Hydrodynamics.h
@@ -92,6 +92,8 @@ public:
   void CreateBoundaryGhostParticle(const int, const int, const int, const FLOAT, const FLOAT);
   Particle<ndim>& CreateNewParticle(const int, const FLOAT, const FLOAT,
                                     const FLOAT*, const FLOAT*, SimulationBase*);
+  void RestartTimestep(Particle<ndim> &part, SimulationBase*);
+  virtual void ResetStepQuantities(Particle<ndim> &part) {};
 
 
   // Functions needed to hide some implementation details
diff --git a/src/Headers/MeshlessFV.h b/src/Headers/MeshlessFV.h
index 00d2752..df31064 100644
--- a/src/Headers/MeshlessFV.h
+++ b/src/Headers/MeshlessFV.h
@@ -119,6 +119,7 @@ public:
     for (int k=0; k<ndim; k++) mfvpart.dQ[k] -= dm*mfvpart.v[k];
   }
 
+  virtual void ResetStepQuantities(Particle<ndim> &);
   virtual void ZeroAccelerations();
 
 
diff --git a/src/Hydrodynamics/Hydrodynamics.cpp b/src/Hydrodynamics/Hydrodynamics.cpp
index 8fde04a..d30691d 100644
--- a/src/Hydrodynamics/Hydrodynamics.cpp
+++ b/src/Hydrodynamics/Hydrodynamics.cpp
@@ -153,33 +153,55 @@ Particle<ndim>& Hydrodynamics<ndim>::CreateNewParticle
   // Set all particle properties from given arguments
   part.iorig     = inew;
   part.ptype     = ptype;
-  part.level     = sim->level_max;
-  part.levelneib = sim->level_max;
-  part.nstep     = pow(2,sim->level_step - part.level);
-  part.nlast     = sim->n - part.nstep;
-  part.tlast     = sim->t;
   part.m         = m;
   part.h         = (FLOAT) 1.0;
   part.u         = u;
-  part.u0        = u;
-  part.dudt      = (FLOAT) 0.0;
   for (int k=0; k<ndim; k++) part.r[k] = r[k];
   for (int k=0; k<ndim; k++) part.v[k] = v[k];
-  for (int k=0; k<ndim; k++) part.a[k] = (FLOAT) 0.0;
-  for (int k=0; k<ndim; k++) part.r0[k] = r[k];
-  for (int k=0; k<ndim; k++) part.v0[k] = v[k];
-  for (int k=0; k<ndim; k++) part.a0[k] = (FLOAT) 0.0;
-
 
   // Set particle flag to active to ensure force is computed asap
   part.flags = none;
-  part.flags.set(active);
+  RestartTimestep(part, sim);
 
   return part;
 }
 
 
 
+//=================================================================================================
+//  Hydrodynamics::RestartTimestep
+/// End the current step of a particle whose properties have been set (or changed) by hand, so that
+/// its current properties are those at the beginning of its next step.
+//=================================================================================================
+template <int ndim>
+void Hydrodynamics<ndim>::RestartTimestep
+ (Particle<ndim> &part,                ///< [inout] Particle that has been created or changed
+  SimulationBase* sim)                 ///< [in] Simulation object
+{
+  part.level     = sim->level_max;
+  part.levelneib = sim->level_max;
+  part.nstep     = pow(2,sim->level_step - part.level);
+  part.nlast     = sim->n - part.nstep;
+  part.tlast     = sim->t;
+  part.dt        = (FLOAT) 0.0;
+  part.dt_next   = (FLOAT) 0.0;
+  part.u0        = part.u;
+  part.dudt      = (FLOAT) 0.0;
+  part.dudt0     = (FLOAT) 0.0;
+  for (int k=0; k<ndim; k++) part.a[k] = (FLOAT) 0.0;
+  for (int k=0; k<ndim; k++) part.r0[k] = part.r[k];
+  for (int k=0; k<ndim; k++) part.v0[k] = part.v[k];
+  for (int k=0; k<ndim; k++) part.a0[k] = (FLOAT) 0.0;
+  part.flags.set(active);
+
+  // Set any further quantities used by the hydrodynamics scheme
+  ResetStepQuantities(part);
+
+  return;
+}
+
+
+
 //=================================================================================================
 //  Hydrodynamics::ComputeBoundingBox
 /// Calculate the bounding box containing all hydro particles.
diff --git a/src/MeshlessFV/MeshlessFV.cpp b/src/MeshlessFV/MeshlessFV.cpp
index 1fdfd1a..dc47d97 100644
--- a/src/MeshlessFV/MeshlessFV.cpp
+++ b/src/MeshlessFV/MeshlessFV.cpp
@@ -293,6 +293,25 @@ void MeshlessFV<3>::InitialSmoothingLengthGuess(void)
   return;
 }
 
+//=================================================================================================
+//  MeshlessFV::ResetStepQuantities
+/// Set the conserved variables from the current particle properties at the beginning of a step.
+//=================================================================================================
+template <int ndim>
+void MeshlessFV<ndim>::ResetStepQuantities(Particle<ndim> &part_gen)
+{
+  MeshlessFVParticle<ndim>& part = static_cast<MeshlessFVParticle<ndim>& >(part_gen);
+
+  part.Qcons0[irho] = part.m;
+  for (int k=0; k<ndim; k++) part.Qcons0[k] = part.m*part.v[k];
+  part.Qcons0[ietot] = part.m*(part.u + (FLOAT) 0.5*DotProduct(part.v, part.v, ndim));
+  for (int var=0; var<nvar; var++) part.dQ[var] = (FLOAT) 0.0;
+  for (int var=0; var<nvar; var++) part.dQdt[var] = (FLOAT) 0.0;
+  for (int k=0; k<ndim; k++) part.rdmdt[k] = (FLOAT) 0.0;
+  for (int k=0; k<ndim; k++) part.rdmdt0[k] = (FLOAT) 0.0;
+  part.cooling = (FLOAT) 0.0;
+}
+
 //=================================================================================================
 //  MeshlessFV::ZeroAccelerations
 /// Initialise key variables before force calculations
-- 
2.43.0


From 9214488adec5ced2519c112d0ae9389cc9485160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:21 +0000
Subject: [PATCH 55/58] fix: gather search does not write before an already
 overflowed list

---
 src/Tree/Tree.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Tree/Tree.cpp b/src/Tree/Tree.cpp
index 993cd6f..670f333 100644
--- a/src/Tree/Tree.cpp
+++ b/src/Tree/Tree.cpp
@@ -224,6 +224,8 @@ int Tree<ndim,ParticleType,TreeCell>::ComputeGatherNeighbourList
   assert(partdata != NULL);
   assert(neiblist != NULL);
 
+  // Exit immediately if we have overflowed the neighbour list buffer
+  if (Nneib == -1) return -1;
 
   //===============================================================================================
   while (cc < Ncell) {
-- 
2.43.0


From 5848df6a8d003ddac80ba0647afd8bb1687f0aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:20 +0000
Subject: [PATCH 56/58] fix: skip parameter-file lines without an equals sign

---
 src/Common/Parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index df7c847..6f272e5 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -139,7 +139,7 @@ void Parameters::ParseLine
 
   // If line is not in the correct format (either equals is not present,
   // or equals is before the colon) then skip line and return.
-  if (equal_pos >= length || (colon_pos < length && colon_pos > equal_pos)) return;
+  if (equal_pos < 0 || equal_pos >= length || (colon_pos < length && colon_pos > equal_pos)) return;
 
   // Extract variable name and value from line
   std::string var_name = paramline.substr(colon_pos+1, equal_pos-colon_pos-1);
-- 
2.43.0


From 756d4aa1e63c91ed7e199f1f57648cffef25af06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:20 +0000
Subject: [PATCH 57/58] fix: also trim tabs and carriage returns from
 parameter-file lines

---
 src/Common/Parameters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index 6f272e5..b07b542 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -681,7 +681,7 @@ std::string Parameters::TrimWhiteSpace
 
   // Loop over all characters and ignore any white-space characters
   for (unsigned int i=0; i<instr.length(); i++) {
-    if (instr[i] != ' ') outstr += instr[i];
+    if (instr[i] != ' ' && instr[i] != '\t' && instr[i] != '\r') outstr += instr[i];
   }
 
   return outstr;
-- 
2.43.0


From 63f13fc4e27798bae8317a698602d439ef852d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:28 +0000
Subject: [PATCH 58/58] fix: write float parameters with all their digits

---
 src/Common/Parameters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Common/Parameters.cpp b/src/Common/Parameters.cpp
index b07b542..ddb5842 100644
--- a/src/Common/Parameters.cpp
+++ b/src/Common/Parameters.cpp
@@ -558,6 +558,7 @@ string Parameters::GetParameter
   }
   else if (floatparams.count(key) == 1) {
     std::stringstream value;
+    value.precision(17);
     value << floatparams[key];
     return value.str();
   }
@@ -644,6 +645,7 @@ void Parameters::RecordParametersToFile(void)
   debug1("[Parameters::RecordParametersToFile]");
 
   outfile.open(filename.c_str());
+  outfile.precision(17);
 
   // Write all integer parameters
   std::map <std::string, int>::iterator it;
-- 
2.43.0

