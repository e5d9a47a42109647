From c4b0205fa0945ccdbd920476b0164a270cb7c2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:38 +0000
Subject: [PATCH 01/34] fix: zero-frequency round trips use np.float, which
 NumPy >= 1.24 no longer has

The interior variant also applied it to an array. Every evaluation that
includes the zeroth Matsubara frequency analytically (README example) died.
---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6e4b0d9..56da6a2 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -230,7 +230,7 @@ class SphereSphere:
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
         lss = np.arange(lmin, self.lssmax+1)[np.newaxis, np.newaxis, :]
-        sgn = (-1)**np.float(lss-l1)        
+        sgn = (-1.0)**(lss-l1)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
         distance_dep = np.log(r1/r2) + l1*np.log(r1/L)+2*lss*np.log(L/r2) + l2*np.log(r1/L)
@@ -261,7 +261,7 @@ class SphereSphere:
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
-        lss = np.arange(lmin, self.lssmax+1, dtype = np.float)[np.newaxis, np.newaxis, :]
+        lss = np.arange(lmin, self.lssmax+1, dtype = float)[np.newaxis, np.newaxis, :]
         sgn = (-1)**(lss-l2)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
-- 
2.43.0


From 73756cee5681e949b47dda462ac131339c74e051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:59 +0000
Subject: [PATCH 02/34] fix: lniknu mixed up arguments that are not sorted

With arguments on both sides of 1e-3 the l=0,1 values were returned in the
order (small, large) instead of the order of the arguments.
---
 CasimirRio/bessel_sk.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 655f4d9..a268b50 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -71,8 +71,9 @@ def lniknu(x, lmax):
         i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
         i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
         i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0 = np.append(i0sm, i0lg, axis=0)
-        i1 = np.append(i1sm, i1lg, axis=0)
+        i0, i1 = np.empty(x.shape), np.empty(x.shape)
+        i0[sm], i0[lg] = i0sm, i0lg
+        i1[sm], i1[lg] = i1sm, i1lg
     else:
         if xsm.shape[0] == 0:
             i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-- 
2.43.0


From 2ba14358921c902b9426ae9be12f31ae8d5d320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:59 +0000
Subject: [PATCH 03/34] fix: continued fraction for I(nu)/I(nu+1) was truncated
 too early for large x

140 terms are not enough beyond x of about 1000 (relative error 1.6e-2 at
x=5000, 0.3 at x=2e4), and the depth was chosen from the last argument only.
---
 CasimirRio/bessel_sk.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index a268b50..0c9e3c0 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -35,9 +35,10 @@ def fraction(x):
            http://dx.doi.org/10.2307/2006491
 
     """
-    if len(x[0, :]) == 1:
-        return x[:, 0]
-    return x[:, 0] + 1 / fraction(x[:, 1::])
+    result = x[:, -1]
+    for n in range(x.shape[1]-2, -1, -1):
+        result = x[:, n] + 1 / result
+    return result
 
 def fnu(x, nu):
     """returns I(nu, x)/I(nu+1, x)
@@ -46,8 +47,9 @@ def fnu(x, nu):
 
     """
     Nmax = 80
-    if x[-1] > 100:
-        Nmax = 140
+    if np.max(x) > 100:
+        # the fraction converges like exp(-Nmax**2/x)
+        Nmax = max(140, int(6*np.sqrt(np.max(x)))+1)
     n = np.arange(1, Nmax+1).reshape(1, Nmax)
     x = x[..., np.newaxis]
     an = 2 * (nu + n) / x
-- 
2.43.0


From e87022fbf30e10003f3605e1a940a0c5ed2316a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:06 +0000
Subject: [PATCH 04/34] fix: Gaunt coefficients near lppmin were lost to an
 unstable recursion

For abs(m) close to min(l, lp) and lp well above l the downward recursion
amplifies rounding errors, e.g. l=60, lp=120, m=60 gave -2.4e-6 instead of
4.4e-12 at lppmin, where interior translation coefficients have their
largest Bessel function.
---
 CasimirRio/cython_gaunt.pyx | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/CasimirRio/cython_gaunt.pyx b/CasimirRio/cython_gaunt.pyx
index 2c5affc..5e647bd 100644
--- a/CasimirRio/cython_gaunt.pyx
+++ b/CasimirRio/cython_gaunt.pyx
@@ -26,10 +26,12 @@ def gaunt(int l, int lp, int m):
     cdef double b2  
     cdef np.ndarray[np.float64_t, ndim=1] alphas = np.zeros(alphadim, np.float64)
     cdef int idx
+    cdef int match
     cdef double p
     cdef double amax
     cdef double M_PI = 3.14159265358979328462
     cdef np.ndarray[np.float64_t, ndim=1] gaunts = np.zeros(gauntdim, np.float64)
+    cdef np.ndarray[np.float64_t, ndim=1] up = np.zeros(gauntdim, np.float64)
         
     if abs(m) > min(l, lp):
         return gaunts
@@ -59,6 +61,22 @@ def gaunt(int l, int lp, int m):
                         alphas[2*idx+2])*gaunts[idx+1] -
                        alphas[2*idx+3]*gaunts[idx+2])/
             (alphas[2*idx]))
+    # where the coefficients fall off towards lppmin (abs(m) close to l or lp)
+    # the downward recursion is unstable: recur upward from lppmin to the first
+    # maximum and match both solutions there
+    match = 0
+    if gauntdim > 1:
+        up[0] = 1.0
+        up[1] = (4.0*m*m+alphas[0])/alphas[1]
+        while match < gauntdim-1 and abs(up[match+1]) > abs(up[match]):
+            match += 1
+            if match < gauntdim-1:
+                up[match+1] = (((4.0*m*m+alphas[2*match-1] +
+                                alphas[2*match])*up[match] -
+                               alphas[2*match-2]*up[match-1])/
+                    alphas[2*match+1])
+    for idx in range(match):
+        gaunts[idx] = up[idx]*(gaunts[match]/up[match])
     # Gaunt coefficients Y^(lpp, l, lp)_(0, m, -m) as defined in
     # Rasch et al. (4.1)
     for idx in range(gauntdim):
-- 
2.43.0


From c7574336557564245c7feb3b2fa869bc18909f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:31 +0000
Subject: [PATCH 05/34] fix: zero-frequency internal Mie coefficients of plasma
 materials

The ratio K(l-1)/K(l) carried a spurious factor w_P R/c/(2l-1) and was
not cut to lmin..lmax, so that the TE coefficient of a cavity in a plasma
differed from the k -> 0 limit and lmin > 1 raised a ValueError.
---
 CasimirRio/scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 10306f7..511ba6b 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -237,8 +237,8 @@ class scattering:
             except IndexError:
                 wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
-                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :]
-                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])*wPR_c/(2*l-1)#k_wp[0:-1]/k_wp[1:]*wPR_c/(2*l-1)
+                k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
+                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
                 bTE = (-(mu0_e*l + mu0_i*k_fracterm )
                        /( (l+1)*mu0_e - mu0_i*k_fracterm )
-- 
2.43.0


From b5e0d428847c2d9c5ebfb31d9e647e2cdd6d383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 06/34] fix: zero-frequency Mie coefficients of magnetic or
 multi-oscillator plasmas

Only the first oscillator was looked at and the static permeability was left
out of the argument of the Bessel functions.
---
 CasimirRio/scattering.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 511ba6b..3f18707 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -9,6 +9,14 @@ from scipy.special import gammaln
 import bessel_sk
 from helper_functions import ln_2dbl, lfac
 
+def plasma_frequency(material):
+    """effective plasma frequency of all oscillators without restoring force
+       and dissipation, which determine epsilon(k) for k -> 0
+
+    """
+    return np.sqrt(sum(params[0]**2 for params in material.e_properties
+                       if params[1] == 0 and params[2] == 0))
+
 class scattering:
     def __init__(self, mat1, mat2):
         """Mie scattering at a solid sphere of material mat1 which is 
@@ -59,12 +67,8 @@ class scattering:
         bTM = (l+1)/l
         if not self.mat1.is_perfect_conductor:
             mu0_sp = self.mat1.mu(k)
-            wPR_c = np.array([0])
-            try:
-                wPR_c = np.array([self.mat1.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
             if not self.mat1.is_sigma_finite:
+                wPR_c = plasma_frequency(self.mat1)*np.sqrt(mu0_sp)*R/2.998e14
                 ifraction = bessel_sk.i_fraction(wPR_c, l-0.5)[:, 0]
                 i_frac_term = (-l + wPR_c * ifraction)
                 bTE = ((mu0_md*i_frac_term - mu0_sp*(l+1))
@@ -232,11 +236,8 @@ class scattering:
         sgn = (-1)**(l)
         bTM = l/(l+1)
         if not self.mat2.is_perfect_conductor:
-            try:
-                wPR_c = np.array([self.mat2.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
+                wPR_c = plasma_frequency(self.mat2)*np.sqrt(mu0_e)*R/2.998e14
                 k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, lmin-1:]
                 k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])
                 k_fracterm = -l-wPR_c*k_ratio
-- 
2.43.0


From 3b91aa77f26da5c185a078fb8b727c0e8e6a9e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 07/34] fix: translation coefficients ignored the permeability
 of the medium

The Mie coefficients use the refractive index sqrt(epsilon*mu), the
translations between the spheres used sqrt(epsilon).
---
 CasimirRio/translation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/translation.py b/CasimirRio/translation.py
index e4fb086..c9e6dd0 100644
--- a/CasimirRio/translation.py
+++ b/CasimirRio/translation.py
@@ -51,7 +51,7 @@ class translation:
             self.trans_k0 = self.trans_k0_int
         if not (k == 0).any():
             self.bessels = bessel_sk.trans_bessels(self.k*self.L*
-                 np.sqrt(self.medium.epsilon(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
+                 np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)), self.lmax+self.lssmax+1, self.ext_flag)
         self.forceFlag = forceFlag
         if self.forceFlag:
             self.get_vl1l2 = self.get_vl1l2_force
@@ -181,7 +181,7 @@ class translation:
         lppmax = l1+l2
         lpp = np.arange(abs(l1-l2), lppmax+1, 2)[np.newaxis, :]
         gaunt = self.gnt(l1, l2, self.m)
-        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)))[:, np.newaxis]
+        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)))[:, np.newaxis]
         sphB, skalierung = self.get_scaled_bessels(l1, l2, lpp)
         sphB_gnt = sphB * gaunt
         sgn_ba = (-1)**lpp
-- 
2.43.0


From 2f738c8ef57e1c43e5c3076fa166a73181d9ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 08/34] fix: first round trip of an instance failed for m > 1

Freshly computed Mie coefficients were not cut to l >= m, cached ones were.
---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 56da6a2..81d88c6 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -148,8 +148,8 @@ class SphereSphere:
             self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
                 np.newaxis, :], self.MieB[2][np.newaxis, :, np.newaxis,
                                                np.newaxis, :],axis=0)          
-            mieA = self.MieA
-            mieB = self.MieB
+            mieA = self.MieA[:, :, lmin-1::, :, :]
+            mieB = self.MieB[:, :, :, :, lmin-1::]
             self.K = k.copy()
         V = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
                         self.ext_flag, 0).trans_ab()
-- 
2.43.0


From c32b077658490df20a28d58f57ea6efb0e2845b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 09/34] fix: zero-frequency results depended on the first m
 asked for

The cached Mie coefficients started at l = max(1, m) of the first call while
later calls cut them as if they started at l = 1.
---
 CasimirRio/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 81d88c6..ab41752 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -198,16 +198,16 @@ class SphereSphere:
                 raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
                                           " is not yet implemented for stratified spheres")
             self.MieA_k0 = scattering(self.mat1, self.mat3
-                                   ).mie_k0(lmin, self.lmax, self.r1
+                                   ).mie_k0(1, self.lmax, self.r1
                                          )[:, :, np.newaxis, np.newaxis]
             if not self.ext_flag:
                 self.MieB_k0 = scattering(self.mat3, self.mat2
-                    ).mie_internal_k0(lmin, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
+                    ).mie_internal_k0(1, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
             else:
                 self.MieB_k0 = scattering(self.mat2, self.mat3
-                             ).mie_k0(lmin, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
-            mieA_k0 = self.MieA_k0
-            mieB_k0 = self.MieB_k0
+                             ).mie_k0(1, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
+            mieA_k0 = self.MieA_k0[:, lmin-1::, :, :]
+            mieB_k0 = self.MieB_k0[:, :, :, lmin-1::]
         V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
                         self.ext_flag, 0).trans_ab()
         V_k0 = [V_k0[0][:, np.newaxis, :], V_k0[0][:, np.newaxis,:].transpose(1,2,0),
-- 
2.43.0


From 6e24e5ddc68e75c5805ab9e95d16172a5ec77ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:00 +0000
Subject: [PATCH 10/34] fix: mie_stratified shortened the lists of materials
 and radii of the caller

---
 CasimirRio/stratified_sphere_scattering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/stratified_sphere_scattering.py b/CasimirRio/stratified_sphere_scattering.py
index 8c0cb0d..6361918 100644
--- a/CasimirRio/stratified_sphere_scattering.py
+++ b/CasimirRio/stratified_sphere_scattering.py
@@ -42,9 +42,8 @@ class StratifiedMieScattering(scattering):
         scInnermost = scattering(self.mat_list[0], self.mat_list[1])
         inner_Mie = scInnermost.mie(k, lmin, lmax, self.r_list[0])
         if self.mat_list[-1] == self.mat_list[-2] and len(self.mat_list) >=3:
-            self.mat_list.pop(-1)
-            self.r_list.pop(-1)
-            return self.mie_stratified(k, lmin, lmax) 
+            return StratifiedMieScattering(self.mat_list[:-1],
+                                self.r_list[:-1]).mie_stratified(k, lmin, lmax)
             
         for i in range(1, len(self.r_list)):
             ri, ra = self.r_list[i-1], self.r_list[i]
-- 
2.43.0


From e8c6f8c5bcf3652fe23eb4d10872475a88f799f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 11/34] fix: numeric zeroth Matsubara term failed when it is
 the only one

F_alle(np.array([0])) with analytic_n0=False (layered spheres) raised an
IndexError, e.g. for nmax=0 or a slice width of 1.
---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d88fe6a..219bc27 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -156,6 +156,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
-- 
2.43.0


From 320b5cd62f97551e819e8f2ade722a9db547644d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 12/34] fix: a call of force() changed later free energies and
 entropies

forceFlag stayed set, so that the free energy was then evaluated without the
analytic zeroth Matsubara term or failed.
---
 CasimirRio/thermodynamics.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 219bc27..d881bd3 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -85,9 +85,12 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """compute the Casimir force times 2π/ℏc in units of micrometers squared
 
         """
-        self.forceFlag = 1
         if self.force_matsubaras is None:
-            self.force_matsubaras = self.get_f_matsubaras(0)
+            self.forceFlag = 1
+            try:
+                self.force_matsubaras = self.get_f_matsubaras(0)
+            finally:
+                self.forceFlag = 0
         Ts = self.deltaT*np.arange(1, self.maxstep+1)
         Force_T = Ts*np.array([self.force_matsubaras[::i].sum()
                                for i in range(1, self.maxstep+1)])
-- 
2.43.0


From cc49fdd4497e4cfef46ebe59364d61462362f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 13/34] fix: PFA energy of two spheres failed if the first one
 is the larger

---
 CasimirRio/PFA.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 45c7cba..09280bc 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -171,7 +171,7 @@ class SphereSpherePFA:
         """
         Lrho = lambda rho: self.distance(r1, r2, d, rho)
         freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),
-                                           n0_shielding), 0, r1)[0]
+                                           n0_shielding), 0, min(r1, r2))[0]
         return freeE
 
     def spheresphereForce(self, r1, r2, T, d, n0_shielding = False):
@@ -196,7 +196,8 @@ class SphereSpherePFA:
         if d > r1+r2:
             delta_z = d-r1*sqrt(1-(rho/r1)**2)-r2*sqrt(1-(rho/r2)**2)   
         else:
-            delta_z = r2*sqrt(1-(rho/r2)**2)-d-r1*sqrt(1-(rho/r1)**2)   
+            rs, rg = min(r1, r2), max(r1, r2)
+            delta_z = rg*sqrt(1-(rho/rg)**2)-d-rs*sqrt(1-(rho/rs)**2)   
         return delta_z
 
 
-- 
2.43.0


From 644c28cc9fdbba5f6e3d7d128f73dd0cbb54a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 14/34] fix: PFA force ignored n0_shielding

---
 CasimirRio/PFA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 09280bc..6e95116 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -183,7 +183,8 @@ class SphereSpherePFA:
         nenner = r1+r2
         if d < r1+r2:
             nenner = max(r1, r2)-min(r1, r2)
-        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0))
+        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0),
+                                                              n0_shielding)
         return force
 
     def distance(self, r1, r2, d, rho):
-- 
2.43.0


From b251ddfaefbc035effd0de8bcc4549832cac82e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 15/34] fix: raw_PFA.get_f_matsubaras overwrote the wavenumbers
 of the caller

For integer wavenumbers 1e-20 was moreover rounded to 0.
---
 CasimirRio/raw_PFA.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index a4dcb1f..7b4b382 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -107,6 +107,7 @@ class SphereSpherePFA:
         """
         assert type(matsubaras) == np.ndarray
         if matsubaras[0] == 0:
+            matsubaras = matsubaras.astype(float)
             matsubaras[0] = 1e-20
         norm = 2*np.pi
         integralTE = lambda kn: quad(
-- 
2.43.0


From 5fbeaa03b5f0f59ffc0683bc4e9bfd303c1a0948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 16/34] fix: third run of a job overwrote the result of the
 second one

---
 CasimirRio/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 492fae1..cde965a 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -149,7 +149,7 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    if os.path.exists(foutput):
+    while os.path.exists(foutput):
         foutput += "1"
     outfile = open(foutput, "w")
     comment = job_infos()
-- 
2.43.0


From e476345c2533464c7375625d4a479a22e2ad19de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 17/34] fix: balance() accessed memory outside of non-square
 matrices

---
 CasimirRio/matrix_balancing.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/matrix_balancing.pyx b/CasimirRio/matrix_balancing.pyx
index ccd75ee..98e2921 100644
--- a/CasimirRio/matrix_balancing.pyx
+++ b/CasimirRio/matrix_balancing.pyx
@@ -14,6 +14,8 @@ def balance(np.ndarray[np.float64_t, ndim=2] matrix, double conv = 0.95):
     cdef double f = 0
     cdef double s = 0
     cdef int converged = 0
+    if matrix.shape[1] != n:
+        raise ValueError("matrix to be balanced has to be a square matrix")
     while converged == 0:
         converged = 1
         for i in range(n):
-- 
2.43.0


From 8642f14101eaefe3d86d7511831cec4cd3a00a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:43 +0000
Subject: [PATCH 18/34] fix: balance() did not terminate if a row or column
 norm overflows

---
 CasimirRio/matrix_balancing.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/matrix_balancing.pyx b/CasimirRio/matrix_balancing.pyx
index 98e2921..50375e2 100644
--- a/CasimirRio/matrix_balancing.pyx
+++ b/CasimirRio/matrix_balancing.pyx
@@ -24,7 +24,7 @@ def balance(np.ndarray[np.float64_t, ndim=2] matrix, double conv = 0.95):
                 if not j == i:
                     c += abs(matrix[j, i])**2
                     r += abs(matrix[i, j])**2
-            if not(abs(r) <= 1e-320  or abs(c) <= 1e-320):
+            if not(abs(r) <= 1e-320  or abs(c) <= 1e-320 or c+r > 1e308):
                 s = c + r
                 c = c**0.5
                 r = r**0.5
-- 
2.43.0


From ffc5d6796744025723e53dc606c3274005afcee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:10 +0000
Subject: [PATCH 19/34] fix: single round-trip sum used xrange, which Python 3
 does not have

---
 CasimirRio/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index ab41752..bd20e19 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -523,7 +523,7 @@ class SphereSphere:
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
         TrM_matsubaras_m = np.array([np.trace(A[i,:,:]+D[i,:,:]) 
-                    for i in xrange(len(matsubaras))])
+                    for i in range(len(matsubaras))])
         th_m_max = round(np.log(self.precision)/np.log(0.5))
         if mmax == "automatic":
             mmax = round(np.log(self.precision)/np.log(0.5))
@@ -535,11 +535,11 @@ class SphereSphere:
             sh = np.shape(A)
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                            for i in xrange(len(matsubaras))])
+                            for i in range(len(matsubaras))])
                 return TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                                    for i in xrange(len(matsubaras))])
+                                    for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
                 return TrM_matsubaras_m
         return TrM_matsubaras_m
-- 
2.43.0


From 7bf5e20091608e5aa51adff1d42a72ed93817f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:10 +0000
Subject: [PATCH 20/34] fix: sign of the single round-trip approximation

ln det(1-M) is approximately -Tr(M): equal spheres came out as repelling each
other and order=1 of the round-trip expansion differed by its sign.
---
 CasimirRio/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index bd20e19..0a193dc 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -518,7 +518,7 @@ class SphereSphere:
 
     def mSum_oneRoundtrip(self, matsubaras, mmax="automatic"):# ??? Was hat das mit der Geometrie zu tun?
         """The analog of mSumme but calculating ln det(1-M(matsubaras)) in 
-           single round-trip approximation as Trace(M(matsubaras))
+           single round-trip approximation as -Trace(M(matsubaras))
 
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
@@ -536,13 +536,13 @@ class SphereSphere:
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
                             for i in range(len(matsubaras))])
-                return TrM_matsubaras_m
+                return -TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
                                     for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
-                return TrM_matsubaras_m
-        return TrM_matsubaras_m
+                return -TrM_matsubaras_m
+        return -TrM_matsubaras_m
 
     def mSum_roundtrips(self, matsubaras, order="automatic", forceFlag=0):
         m = 0
-- 
2.43.0


From b4a7f583711cb589558bc94cf1b211ae15a38721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:10 +0000
Subject: [PATCH 21/34] fix: single round-trip zeroth Matsubara term failed
 when it is the only one

---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d881bd3..db8bb96 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -196,6 +196,8 @@ class oneRoundtrip(finiteT):
         if matsubaras[0] == 0.:
             if not self.forceFlag:
                 F_n_0 = 0.5 * self.geometry.mSum_oneRoundtrip(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSum_oneRoundtrip(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSum_trace_dot_oneRoundtrip(np.array([1e-10]))
-- 
2.43.0


From 8dd49af3c4026fcd900cdca86090e55d6b0d5586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:30 +0000
Subject: [PATCH 22/34] fix: CoatedSphereSphere could not be used

lssmax and forceFlag were passed on as l_offset and lssmax and the Mie
coefficients were asked for without lmin.
---
 CasimirRio/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 0a193dc..4eacf5d 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -608,7 +608,8 @@ class CoatedSphereSphere(SphereSphere):
     def __init__(self, r1_i, r1_a, mat1_core, mat1_coat, r2_i, r2_a,
                  mat2_core, mat2_coat, L, matMd, lmax, lssmax, forceFlag=0):
         SphereSphere.__init__(self, r1_a, r2_a, L, mat1_coat, mat2_coat,
-                               matMd, lmax, lssmax, forceFlag)
+                               matMd, lmax=lmax, lssmax=lssmax,
+                               forceFlag=forceFlag)
         self.r1_i = r1_i
         self.r2_i = r2_i
         self.r1_a = r1_a
@@ -635,11 +636,11 @@ class CoatedSphereSphere(SphereSphere):
         else:
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
-                ).mie_coated(k, self.lmax, self.r1_i,
+                ).mie_coated(k, 1, self.lmax, self.r1_i,
                              self.r1_a)[..., np.newaxis, np.newaxis]
             self.MieB = coated_miescattering(self.mat2core, self.mat2coat,
                                              self.matMd).mie_coated(
-                k, self.lssmax, self.r2_i, self.r2_a)
+                k, 1, self.lssmax, self.r2_i, self.r2_a)
             self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
                                                  np.newaxis, :]**ext_VZ,
                                   self.MieB[2][np.newaxis, :, np.newaxis,
-- 
2.43.0


From 57386c35af4068accf6dcb0cadd4391c6187d075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:30 +0000
Subject: [PATCH 23/34] fix: zeroth Matsubara term of coated spheres neglected
 their cores

CoatedSphereSphere has no analytic zero-frequency limit; the one of solid
spheres of the coating material was used.
---
 CasimirRio/thermodynamics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index db8bb96..13c6186 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -32,7 +32,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                              but given was", nprocs)
         self.nprocs = nprocs
         self.analytic_n0 = analytic_n0
-        if type(geom.mat1) == list or type(geom.mat2) == list:
+        if (type(geom.mat1) == list or type(geom.mat2) == list
+            or isinstance(geom, geometry.CoatedSphereSphere)):
             self.analytic_n0 = False
         self.nmax = nmax# ??? Was ist wenn nmax<maxstep gewählt ist?
         self.Tmax = Tmax
-- 
2.43.0


From c927bca5b0d8fb951245886f415bb14ec98a2727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:30 +0000
Subject: [PATCH 24/34] fix: transform() overwrote its argument and failed for
 tuples

---
 CasimirRio/materials_converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/materials_converter.py b/CasimirRio/materials_converter.py
index ced384a..dc0dd17 100644
--- a/CasimirRio/materials_converter.py
+++ b/CasimirRio/materials_converter.py
@@ -10,7 +10,7 @@ def transform(params):
     eV = 1.60218e-19
     hbar = 1.05457e-34
     omega_eV = eV/hbar
-    t_params = params.copy()
+    t_params = [list(osciallator) for osciallator in params]
     for i, osciallator in enumerate(params):
         t_params[i][0] = sqrt(osciallator[0]*(osciallator[1]*omega_eV)**2)
         t_params[i][1] = osciallator[1]*omega_eV
-- 
2.43.0


From fea3746d0e1859b12ee65a8409dddce71e9c0d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:13 +0000
Subject: [PATCH 25/34] fix: force() returned free energies or failed

The derivatives of the translation coefficients that the force evaluation asks
for (get_vl1l2_force) were missing, one of the four products had no derivative,
and up to the first slice of frequencies ln det(1-M) was summed up instead of
Tr (1-M)^-1 dM/dL. The geometry is put back into its energy mode afterwards.
---
 CasimirRio/geometry.py       |  4 ++++
 CasimirRio/thermodynamics.py | 14 +++++++++-----
 CasimirRio/translation.py    | 28 ++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 4eacf5d..0c43735 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -311,6 +311,7 @@ class SphereSphere:
             dct["V01"] = V[5]/V[0] + V[6]/V[1]
             dct["V23"] = V72 + V83
             dct["V03"] = V[5]/V[0] + V83
+            dct["V21"] = V72 + V[6]/V[1]
         mEE = ne.evaluate("skal * aTE*(V0*bTE*V1*V01\
                                        + V2*bTM*V3*V23)", dct).sum(axis=3)
         mEM = ne.evaluate("skal * aTE*(V0*bTE*V3*V03\
@@ -362,6 +363,7 @@ class SphereSphere:
             dct["V01"] = V[5]/V[0] + V[6]/V[1]
             dct["V23"] = V72 + V83
             dct["V03"] = V[5]/V[0] + V83
+            dct["V21"] = V72 + V[6]/V[1]
         mEE1 = ne.evaluate("skal * aTE*(V0*bTE*V1*V01)", dct).sum(axis=3)
         mEE2 = ne.evaluate("skal * aTE*(V2*bTM*V3*V23)", dct).sum(axis=3)
         mEM1 = ne.evaluate("skal * aTE*(V0*bTE*V3*V03)", dct).sum(axis=3)
@@ -594,11 +596,13 @@ class SphereSphere:
         bigM = self.supermatrix(0, matsubaras, 0)
         bigM_force = self.supermatrix(0, matsubaras, 1)
         mSum = trace_dot_3d(bigM, bigM_force)
+        self.forceFlag = 0
         for m in range(1, self.lmax+1):
             vorher = mSum.copy()
             bigM = self.supermatrix(m, matsubaras, 0)
             bigM_force = self.supermatrix(m, matsubaras, 1)
             mSum += 2*trace_dot_3d(bigM, bigM_force)
+            self.forceFlag = 0
             if abs(abs(vorher/mSum)-1).all() < 1e-5:
                 return mSum
         return mSum
diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 13c6186..c7d01e1 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -152,8 +152,15 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
         """create an array with elements F(matsubaras)
 
         """
+        if self.forceFlag:
+            if not matsubaras[0] == 0:
+                return self.geometry.mSum_trace_dot(matsubaras)
+            F_n_0 = 0.5 * self.geometry.mSum_trace_dot(np.array([1e-10]))
+            if len(matsubaras) == 1:
+                return F_n_0
+            return np.append(F_n_0, self.geometry.mSum_trace_dot(matsubaras[1:]))
         if matsubaras[0] == 0:
-            if not self.forceFlag and self.analytic_n0:
+            if self.analytic_n0:
                 F_n_0 = 0.5 * self.geometry.mSumme_k0()
                 if len(matsubaras) == 1:
                     return F_n_0
@@ -165,10 +172,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
-            if self.forceFlag:
-                return self.geometry.mSum_trace_dot(matsubaras)
-            else:
-                return self.geometry.mSumme(matsubaras)
+            return self.geometry.mSumme(matsubaras)
 
     def l_konvergenz(self, r1, r2, L, mat1, mat2, mat3,
                      lssmax1, lssmax2, lmax1, lmax2):
diff --git a/CasimirRio/translation.py b/CasimirRio/translation.py
index c9e6dd0..e6cf614 100644
--- a/CasimirRio/translation.py
+++ b/CasimirRio/translation.py
@@ -199,4 +199,32 @@ class translation:
         return [vEE_ab.sum(axis=-1), vEE_ba.sum(axis=-1),
                 vEM_ab.sum(axis=-1), vEM_ba.sum(axis=-1), skalierung]
 
+    def get_vl1l2_force(self, l1, l2):
+        """ The derivatives of the scaled translation coefficients of get_vl1l2
+            with respect to L. The scaling factor is the one of get_vl1l2.
+
+        """
+        lppmax = l1+l2
+        lpp = np.arange(abs(l1-l2), lppmax+1, 2)[np.newaxis, :]
+        gaunt = self.gnt(l1, l2, self.m)
+        nL = (self.k*self.L*np.sqrt(self.medium.epsilon(self.k)*self.medium.mu(self.k)))[:, np.newaxis]
+        sphB, skalierung = self.get_scaled_bessels(l1, l2, lpp)
+        # x*i_l'(x) = l*i_l(x) + x*i_(l+1)(x), x*k_l'(x) = l*k_l(x) - x*k_(l+1)(x)
+        sphB_next = np.exp(self.bessels[:, lpp.flatten()+1]
+                           - skalierung[:, np.newaxis])
+        sgn_next = 1-2*self.ext_flag
+        x_dsphB = lpp*sphB + sgn_next*nL*sphB_next
+        sgn_ba = (-1)**lpp
+        sgn_int_ext = (-1)**(lpp-(lpp-1)*self.ext_flag)
+        m = self.m
+        l1p = l1*(l1+1)
+        l2p = l2*(l2+1)
+        common_ab = (sgn_int_ext * (-1)**m * np.sqrt(np.pi) * gaunt / self.L
+                     * np.sqrt((2*lpp+1) / (l1p*l2p)))*(2/np.pi)**(self.ext_flag)
+        vEE_ab = (l1p + l2p -lpp*(lpp+1)) * common_ab * x_dsphB
+        vEM_ab = 2 * self.m * nL * common_ab * (sphB + x_dsphB)
+        vEE_ba = vEE_ab * sgn_ba
+        vEM_ba = - vEM_ab * sgn_ba
+        return [vEE_ab.sum(axis=-1), vEE_ba.sum(axis=-1),
+                vEM_ab.sum(axis=-1), vEM_ba.sum(axis=-1), skalierung]
 
-- 
2.43.0


From 06bd39faeb4cc7460173e7aeac259f8b7dc04f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:06 +0000
Subject: [PATCH 26/34] fix: supermatrix() and force sums left the force flag
 of the geometry changed

---
 CasimirRio/geometry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 0c43735..3598751 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -586,8 +586,12 @@ class SphereSphere:
            matrices returned by the blockmatrices() method.
 
         """
+        former_flag = self.forceFlag
         self.forceFlag = forceFlag
-        Ms = self.blockmatrices(m, matsubaras)
+        try:
+            Ms = self.blockmatrices(m, matsubaras)
+        finally:
+            self.forceFlag = former_flag
         bigM = np.append(Ms[0], Ms[1], axis=2)
         bigM = np.append(bigM, np.append(Ms[2], Ms[3], axis=2), axis=1)
         return bigM
@@ -596,13 +600,11 @@ class SphereSphere:
         bigM = self.supermatrix(0, matsubaras, 0)
         bigM_force = self.supermatrix(0, matsubaras, 1)
         mSum = trace_dot_3d(bigM, bigM_force)
-        self.forceFlag = 0
         for m in range(1, self.lmax+1):
             vorher = mSum.copy()
             bigM = self.supermatrix(m, matsubaras, 0)
             bigM_force = self.supermatrix(m, matsubaras, 1)
             mSum += 2*trace_dot_3d(bigM, bigM_force)
-            self.forceFlag = 0
             if abs(abs(vorher/mSum)-1).all() < 1e-5:
                 return mSum
         return mSum
-- 
2.43.0


From f40d81d57c533d136c370db6f01c53ca0e7d9c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:58 +0000
Subject: [PATCH 27/34] fix: plane-plane pressure was half of minus the
 derivative of the free energy

---
 CasimirRio/PFA.py     | 8 ++++----
 CasimirRio/raw_PFA.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 6e95116..575ab78 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -41,8 +41,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def pressureRoundTrip(self, k_perp, kn, L):
@@ -54,8 +54,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE)+
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE)+
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index 7b4b382..dc74d1d 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -30,8 +30,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
-- 
2.43.0


From d59e2158e1852addf70ff32ed838c97a075d20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:00 +0000
Subject: [PATCH 28/34] fix: balance(None) crashed the interpreter

---
 CasimirRio/matrix_balancing.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/matrix_balancing.pyx b/CasimirRio/matrix_balancing.pyx
index 50375e2..df7aee2 100644
--- a/CasimirRio/matrix_balancing.pyx
+++ b/CasimirRio/matrix_balancing.pyx
@@ -4,7 +4,7 @@ cimport cython
 
 @cython.cdivision(True)
 @cython.boundscheck(False)
-def balance(np.ndarray[np.float64_t, ndim=2] matrix, double conv = 0.95):
+def balance(np.ndarray[np.float64_t, ndim=2] matrix not None, double conv = 0.95):
     cdef int n = matrix.shape[0]
     cdef int beta = 2
     cdef int i = 0
-- 
2.43.0


From c5d154b96f365aea400bd663ad7edfe856ce40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:27 +0000
Subject: [PATCH 29/34] fix: worker ignored analytic_n0 of the job file

---
 CasimirRio/worker.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index cde965a..9fbe86c 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -107,11 +107,12 @@ def do_calculation():
         nmax = config.get("thermodynamics", "nmax")
         if not nmax == "automatic":
             print("nmax has to be given as integer or \"automatic\"") 
+    analytic_n0 = True
     try:
-        analytic_n0 = config.get("geometry", "analytic_n0")
+        analytic_n0 = config.getboolean("geometry", "analytic_n0")
     except ValueError:
-        print("analytic_n0 is not given correctly: ", analytic_n0)
-    analytic_n0 = True
+        print("analytic_n0 is not given correctly: ",
+              config.get("geometry", "analytic_n0"))
     if type(geom.r1) == list or type(geom.r2) == list:
         analytic_n0 = False
     Tmax = config.getfloat("thermodynamics", "Tmax")
-- 
2.43.0


From a7a22e7e2fd5cbb933477d046b499492e54d60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:34 +0000
Subject: [PATCH 30/34] fix: force in single round-trip approximation called a
 method which does not exist

---
 CasimirRio/geometry.py       | 11 +++++++++++
 CasimirRio/thermodynamics.py |  4 +++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 3598751..fec9452 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -609,6 +609,17 @@ class SphereSphere:
                 return mSum
         return mSum
 
+    def mSum_trace_dot_oneRoundtrip(self, matsubaras):
+        """The analog of mSum_trace_dot in single round-trip approximation,
+           i.e. the distance derivative of Trace(M(matsubaras))
+
+        """
+        mSum = np.trace(self.supermatrix(0, matsubaras, 1), axis1=1, axis2=2)
+        for m in range(1, self.lmax+1):
+            mSum = mSum + 2*np.trace(self.supermatrix(m, matsubaras, 1),
+                                     axis1=1, axis2=2)
+        return mSum
+
 
 class CoatedSphereSphere(SphereSphere):
     def __init__(self, r1_i, r1_a, mat1_core, mat1_coat, r2_i, r2_a,
diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index c7d01e1..ce0c62b 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -206,11 +206,13 @@ class oneRoundtrip(finiteT):
                 F_n_alle = self.geometry.mSum_oneRoundtrip(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSum_trace_dot_oneRoundtrip(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSum_trace_dot_oneRoundtrip(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
             if self.forceFlag:
-                return self.geometry.mSum_trace_dot(matsubaras)
+                return self.geometry.mSum_trace_dot_oneRoundtrip(matsubaras)
             else:
                 return self.geometry.mSum_oneRoundtrip(matsubaras)
 
-- 
2.43.0


From b5d903e1dde1a068a3778cdaddc07a97a5daa736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:54 +0000
Subject: [PATCH 31/34] fix: jobs which run at the same time could overwrite
 the result of each other

---
 CasimirRio/worker.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 9fbe86c..bd529ca 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -150,9 +150,12 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    while os.path.exists(foutput):
-        foutput += "1"
-    outfile = open(foutput, "w")
+    outfile = None
+    while outfile is None:
+        try:
+            outfile = open(foutput, "x")
+        except FileExistsError:
+            foutput += "1"
     comment = job_infos()
     outfile.write(comment)
     outfile.close()
-- 
2.43.0


From 2c4d15199a7ef35df4b1e5ef94834de8093517ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:54 +0000
Subject: [PATCH 32/34] fix: a quantity which cannot be written left a result
 file without data

---
 CasimirRio/worker.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index bd529ca..3f87061 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -13,6 +13,7 @@ import sys
 import geometry
 import thermodynamics
 import materials
+import io
 import os
 import numpy as np
 
@@ -150,17 +151,17 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
+    comment = job_infos()
+    data = io.BytesIO()
+    np.savetxt(data, result, delimiter=",")
     outfile = None
     while outfile is None:
         try:
             outfile = open(foutput, "x")
         except FileExistsError:
             foutput += "1"
-    comment = job_infos()
     outfile.write(comment)
-    outfile.close()
-    outfile = open(foutput, "ab")
-    np.savetxt(outfile, result, delimiter=",")
+    outfile.write(data.getvalue().decode())
     outfile.close()
 
 save_result(result, foutput)
-- 
2.43.0


From 62d83c7ce1ce847077621b5fe675aa4d801a2643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:47 +0000
Subject: [PATCH 33/34] fix: an interrupted calculation left Mie-coefficients
 of other wavenumbers in the cache

---
 CasimirRio/geometry.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index fec9452..b5fa7f9 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -126,6 +126,7 @@ class SphereSphere:
                 V.extend(Vdiff)
             return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
         else:
+            self.K = None   # no valid cache, should one of the following fail
             if type(self.mat1)== list:
                 self.MieA = strat_scat(self.mat1, self.r1
                  ).mie_stratified(k, 1, self.lmax)[..., np.newaxis, np.newaxis]
@@ -651,6 +652,7 @@ class CoatedSphereSphere(SphereSphere):
         if np.shape(self.K) == np.shape(k) and (self.K == k).all():
             mieA, mieB = self.MieA, self.MieB
         else:
+            self.K = None
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
                 ).mie_coated(k, 1, self.lmax, self.r1_i,
-- 
2.43.0


From f844fe4bb39073a669fa014bc35525b3a5633d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:58 +0000
Subject: [PATCH 34/34] fix: the Drude fit to tabulated data converged to
 unphysical parameters

---
 CasimirRio/data_inter_extrapolation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/data_inter_extrapolation.py b/CasimirRio/data_inter_extrapolation.py
index 1d28bd0..3c018f0 100644
--- a/CasimirRio/data_inter_extrapolation.py
+++ b/CasimirRio/data_inter_extrapolation.py
@@ -34,7 +34,9 @@ class data_interp_extrap:
            the fitfunc fitting function
 
         """
-        fit_params, opt = curve_fit(fitfunc, self.xdata, self.ydata)
+        # start from the Drude parameters suggested by the ends of the data
+        start = [self.xdata[-1]*np.sqrt(abs(self.ydata[-1]-1)), self.xdata[0]]
+        fit_params, opt = curve_fit(fitfunc, self.xdata, self.ydata, p0=start)
         return fitfunc(omega_desired, fit_params[0], fit_params[1])
 
     def get_drude_data(self, omega):
-- 
2.43.0

