From 63652ea7c06189558918a990fabfa779d864130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 001/161] fix: Legendre recursions and Gaussian weights for
 maximum degrees 0 and 1

---
 gravity_toolkit/associated_legendre.py  | 21 ++++++++++++---------
 gravity_toolkit/gauss_weights.py        |  3 ++-
 gravity_toolkit/legendre_polynomials.py |  5 +++--
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index cfb11ab..724250a 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -116,11 +116,12 @@ def plm_colombo(LMAX, x,
 
     # Calculating the initial polynomials for the recursion
     plm[0,0,:] = 1.0
-    plm[1,0,:] = np.sqrt(3.0)*x
-    plm[1,1,:] = np.sqrt(3.0)*u
-    # calculating first derivatives for harmonics of degree 1
-    dplm[1,0,:] = (1.0/u)*(x*plm[1,0,:] - np.sqrt(3)*plm[0,0,:])
-    dplm[1,1,:] = (x/u)*plm[1,1,:]
+    if (LMAX > 0):
+        plm[1,0,:] = np.sqrt(3.0)*x
+        plm[1,1,:] = np.sqrt(3.0)*u
+        # calculating first derivatives for harmonics of degree 1
+        dplm[1,0,:] = (1.0/u)*(x*plm[1,0,:] - np.sqrt(3)*plm[0,0,:])
+        dplm[1,1,:] = (x/u)*plm[1,1,:]
     for l in range(2, LMAX+1):
         for m in range(0, l):# Zonal and Tesseral harmonics (non-sectorial)
             # Computes the non-sectorial terms from previously computed
@@ -215,7 +216,8 @@ def plm_holmes(LMAX, x,
 
     # Calculate P(l,0). These are not scaled.
     p[0,:] = 1.0
-    p[1,:]  = np.sqrt(3.0)*x
+    if (LMAX > 0):
+        p[1,:]  = np.sqrt(3.0)*x
     k = 1
     for l in range(2, LMAX+1):
         k += l
@@ -245,9 +247,10 @@ def plm_holmes(LMAX, x,
         p[k-LMAX,:] = p[k-LMAX,:] * rescalem
 
     # Calculate P(LMAX,LMAX)
-    rescalem = rescalem * u
-    kstart += m+2
-    p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
+    if (LMAX > 0):
+        rescalem = rescalem * u
+        kstart += LMAX+1
+        p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
     # reshape Legendre polynomials to output dimensions
     for m in range(LMAX+1):
         for l in range(m,LMAX+1):
diff --git a/gravity_toolkit/gauss_weights.py b/gravity_toolkit/gauss_weights.py
index 29849fb..994b01a 100755
--- a/gravity_toolkit/gauss_weights.py
+++ b/gravity_toolkit/gauss_weights.py
@@ -81,7 +81,8 @@ def gauss_weights(hw, LMAX, CUTOFF=1e-10):
         # weight for degree 0
         wl[0] = 1.0/(2.0*np.pi)
         # weight for degree 1
-        wl[1] = wl[0]*((1.0+np.exp(-2.0*b))/(1.0-np.exp(-2.0*b))-1.0/b)
+        if (LMAX > 0):
+            wl[1] = wl[0]*((1.0+np.exp(-2.0*b))/(1.0-np.exp(-2.0*b))-1.0/b)
         # valid flag
         valid = True
         # spherical harmonic degree
diff --git a/gravity_toolkit/legendre_polynomials.py b/gravity_toolkit/legendre_polynomials.py
index 2aaedc2..a56ad43 100755
--- a/gravity_toolkit/legendre_polynomials.py
+++ b/gravity_toolkit/legendre_polynomials.py
@@ -91,10 +91,11 @@ def legendre_polynomials(lmax, x, ASTYPE=np.float64):
 
     # Initialize the recurrence relation
     ptemp[0,:] = 1.0
-    ptemp[1,:] = x
     # Normalization is geodesy convention
     pl[0,:] = ptemp[0,:]
-    pl[1,:] = np.sqrt(3.0)*ptemp[1,:]
+    if (lmax > 0):
+        ptemp[1,:] = x
+        pl[1,:] = np.sqrt(3.0)*ptemp[1,:]
     for l in range(2,lmax+1):
         ptemp[l,:] = (((2.0*l)-1.0)/l)*x*ptemp[l-1,:] - ((l-1.0)/l)*ptemp[l-2,:]
         # Normalization is geodesy convention
-- 
2.43.0


From 46dd81208201361de7f3fbb69ed7bed4fac4866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 002/161] fix: truncate Mohlenkamp Legendre derivatives to MMAX

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index 724250a..c867666 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -311,7 +311,7 @@ def plm_mohlenkamp(LMAX, x,
 
     # Initialize the output Legendre polynomials
     plm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
-    dplm = np.zeros((LMAX+1, LMAX+1, sx), dtype=astype)
+    dplm = np.zeros((LMAX+1, MMAX+1, sx), dtype=astype)
     # Jacobi polynomial for the recurrence relation
     jlmm = np.zeros((LMAX+1, MMAX+1, sx))
     # for x=cos(th): u= sin(th)
-- 
2.43.0


From 9a45b27c363dda89074effa5a34c90872a14bcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 003/161] fix: underflow in Holmes Legendre recursion for
 single precision output

---
 gravity_toolkit/associated_legendre.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index c867666..65d28ce 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -175,7 +175,9 @@ def plm_holmes(LMAX, x,
     """
 
     # removing singleton dimensions of x
-    x = np.atleast_1d(x).flatten().astype(astype)
+    # the scaled recursion needs the range of at least double precision
+    ptype = np.promote_types(astype, np.float64)
+    x = np.atleast_1d(x).flatten().astype(ptype)
     # length of the x array
     jm = len(x)
     # verify data type of spherical harmonic truncation
@@ -187,9 +189,9 @@ def plm_holmes(LMAX, x,
     scalef = 1.0e-280
 
     # allocate for multiplicative factors, and plms
-    f1 = np.zeros(((LMAX+1)*(LMAX+2)//2), dtype=astype)
-    f2 = np.zeros(((LMAX+1)*(LMAX+2)//2), dtype=astype)
-    p = np.zeros(((LMAX+1)*(LMAX+2)//2,jm), dtype=astype)
+    f1 = np.zeros(((LMAX+1)*(LMAX+2)//2), dtype=ptype)
+    f2 = np.zeros(((LMAX+1)*(LMAX+2)//2), dtype=ptype)
+    p = np.zeros(((LMAX+1)*(LMAX+2)//2,jm), dtype=ptype)
     plm = np.zeros((LMAX+1,LMAX+1,jm), dtype=astype)
     dplm = np.zeros((LMAX+1,LMAX+1,jm), dtype=astype)
 
-- 
2.43.0


From 6e35cd798c8d869ebfe43eba29364be5d3fa8499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 004/161] fix: fourier_legendre for odd degrees and MMAX less
 than LMAX

---
 gravity_toolkit/fourier_legendre.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 6cc8b5c..0aca7f6 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -48,12 +48,18 @@ def fourier_legendre(lmax, mmax):
         Fourier coefficients
     """
 
+    # the recursion requires an even maximum degree of at least 4
+    if (lmax % 2) or (lmax < 4):
+        lpad = np.maximum(lmax + (lmax % 2), 4)
+        return fourier_legendre(lpad, lpad)[:lmax+1,:lmax+1,:lmax+1]
+
     # allocate for output fourier coefficients
     plm = np.zeros((lmax+1,lmax+1,lmax+1))
     l_even = np.arange(0,lmax+1,2)
     l_odd = np.arange(1,lmax,2)
-    m_even = np.arange(0,mmax+1,2)
-    m_odd = np.arange(1,mmax,2)
+    # fourier coefficients extend to the maximum degree for every order
+    m_even = np.arange(0,lmax+1,2)
+    m_odd = np.arange(1,lmax,2)
 
     # First compute m=0, m=1 terms
     # Compute m = 0, l = even terms
-- 
2.43.0


From 026d7f4781f5da5ab3f196a457e42c63d1e4437c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 005/161] fix: harmonic_transform for MMAX less than LMAX

---
 gravity_toolkit/harmonic_summation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonic_summation.py b/gravity_toolkit/harmonic_summation.py
index 3eed02c..a9f969f 100755
--- a/gravity_toolkit/harmonic_summation.py
+++ b/gravity_toolkit/harmonic_summation.py
@@ -182,7 +182,7 @@ def harmonic_transform(clm1, slm1, lon, lat,
     # calculate Ylms summation for each theta band
     for k in range(0,thmax):
         # summation over all spherical harmonic degrees
-        delta_M[:,k] = np.sum(PLM[:,:,k]*Ylms[:,:],axis=0)/2.0
+        delta_M[:,k] = np.sum(PLM[:,:MMAX+1,k]*Ylms[:,:],axis=0)/2.0
 
     # output spatial field from FFT transformation
     s = np.zeros((phimax,thmax))
-- 
2.43.0


From 2d67f7ba367adaa8b08410da9285e1407edf58c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 006/161] fix: degree and normalization of the zonal gradient
 coefficients

---
 gravity_toolkit/fourier_legendre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 0aca7f6..dcec05f 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -273,7 +273,7 @@ def legendre_gradient(lmax, mmax):
         lminus2 = np.arange(l-2,-1,-1)# from l-2 to 0
         lminus1 = np.arange(l-1,0,-1)# from l-1 to 1
         wlm[l,m,:] = np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l,m+1,:])
+            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l-1,m+1,:])
 
     # m-1 terms, m-1=0 has different coefficients
     # m=1 term
@@ -287,7 +287,7 @@ def legendre_gradient(lmax, mmax):
         lplus2 = np.arange(l+2,2*l+1)# from l+2 to 2*l
         lplus1 = np.arange(l+1,2*l)# from l+1 to (2*l-1)
         wlm[l,m,:] += np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lplus2*lplus1)/4.0), plm[l-1,m-1,:])
+            np.dot(np.diag(np.sqrt(lplus2*lplus1/4.0)), plm[l-1,m-1,:])
     # normalizations
     for l in range(1, lmax+1):
         wlm[l,:,:] /= np.sqrt((l+1)*l)
-- 
2.43.0


From 79686010f124c2108d764a1260b3f32ef6f45394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 007/161] fix: harmonic_gradients for odd LMAX and MMAX less
 than LMAX

---
 gravity_toolkit/harmonic_gradients.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index dfc5ae3..8eb6657 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -101,18 +101,18 @@ def harmonic_gradients(clm1, slm1, lon, lat,
     # generate Vlm coefficients (vlm and wlm)
     vlm, wlm = legendre_gradient(LMAX, MMAX)
 
-    dlm = np.zeros((LMAX+1,LMAX+1,2))
+    dlm = np.zeros((LMAX+1,MMAX+1,2))
     # minus sign is because lat and theta change with opposite sign
     for l in range(0,LMAX+1):
         dlm[l,:,0] = -clm[l,:]*np.sqrt((l+1.0)*l)
         dlm[l,:,1] = -slm[l,:]*np.sqrt((l+1.0)*l)
 
-    m_even = np.arange(0,MMAX+2,2)
-    m_odd = np.arange(1,MMAX,2)
+    m_even = np.arange(0,MMAX+1,2)
+    m_odd = np.arange(1,MMAX+1,2)
 
     # Calculate fourier coefficients from legendre coefficients
-    d_cos = np.zeros((LMAX+1,thmax,2))
-    d_sin = np.zeros((LMAX+1,thmax,2))
+    d_cos = np.zeros((MMAX+1,thmax,2))
+    d_sin = np.zeros((MMAX+1,thmax,2))
     cnk = np.cos(np.dot(th[:,np.newaxis],ll))
     snk = np.sin(np.dot(th[:,np.newaxis],ll))
 
-- 
2.43.0


From 86afae20badc13b6e64ccb6d08f9c8f675e992f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 008/161] fix: pairing of cosine and sine coefficients in
 meridional gradients

---
 gravity_toolkit/harmonic_gradients.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 8eb6657..71e4b9d 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -127,8 +127,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_even,:,0] = np.dot(wtmp[:,:,1],np.transpose(snk))
     d_sin[m_even,:,0] = np.dot(-wtmp[:,:,0],np.transpose(snk))
-    d_cos[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
-    d_sin[m_even,:,1] = np.dot(-vtmp[:,:,0],np.transpose(snk))
+    d_cos[m_even,:,1] = np.dot(vtmp[:,:,0],np.transpose(snk))
+    d_sin[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
 
     # m = odd terms (vlm,wlm cosine series)
     wtmp = np.zeros((len(m_odd),LMAX+1,2))
@@ -141,8 +141,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_odd,:,0] = np.dot(wtmp[:,:,1],np.transpose(cnk))
     d_sin[m_odd,:,0] = np.dot(-wtmp[:,:,0],np.transpose(cnk))
-    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
-    d_sin[m_odd,:,1] = np.dot(-vtmp[:,:,0],np.transpose(cnk))
+    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,0],np.transpose(cnk))
+    d_sin[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
 
     # Calculating cos(m*phi) and sin(m*phi)
     ccos = np.cos(np.dot(mm,phi))
-- 
2.43.0


From 28500faa41c6513bfddff085ac54e5d433098e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 009/161] fix: default LMAX in clenshaw_summation

---
 gravity_toolkit/clenshaw_summation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gravity_toolkit/clenshaw_summation.py b/gravity_toolkit/clenshaw_summation.py
index 19a9b68..949603f 100644
--- a/gravity_toolkit/clenshaw_summation.py
+++ b/gravity_toolkit/clenshaw_summation.py
@@ -122,6 +122,10 @@ def clenshaw_summation(clm, slm, lon, lat,
     if (len(lat) != len(lon)):
         raise ValueError('Incompatible vector dimensions (lon, lat)')
 
+    # if LMAX is not specified, will use the size of the input harmonics
+    if (LMAX == 0):
+        LMAX = np.shape(clm)[0]-1
+
     # calculate colatitude and longitude in radians
     th = (90.0 - lat)*np.pi/180.0
     phi = np.squeeze(lon*np.pi/180.0)
-- 
2.43.0


From 0ccb8394cd6639e032800c5899ed1b73b023ede9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 010/161] fix: gen_point_load for a single point

---
 gravity_toolkit/gen_point_load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/gen_point_load.py b/gravity_toolkit/gen_point_load.py
index 8cf05d8..4c37c47 100644
--- a/gravity_toolkit/gen_point_load.py
+++ b/gravity_toolkit/gen_point_load.py
@@ -173,7 +173,7 @@ def spherical_harmonic_matrix(l, data, phi, theta, coeff):
     # spherical harmonic orders up to degree l
     m = np.arange(0, l+1)
     # calculate Euler's of spherical harmonic order multiplied by azimuth phi
-    mphi = np.exp(1j*np.dot(np.squeeze(phi)[:,np.newaxis], m[np.newaxis,:]))
+    mphi = np.exp(1j*np.dot(phi[:,np.newaxis], m[np.newaxis,:]))
     # reshape data to order
     D = np.kron(np.ones((1, l+1)), data[:,np.newaxis])
     # calculate spherical harmonics and multiply by coefficients and data
-- 
2.43.0


From 60659057f9433b10b5cf646deed6f01c77552b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 011/161] fix: geostrophic_currents with load Love numbers as a
 tuple

---
 gravity_toolkit/harmonic_gradients.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 71e4b9d..4d3211b 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -220,7 +220,8 @@ def geostrophic_currents(clm1, slm1, lon, lat,
 
     # Setting units factor for output
     # extract arrays of kl, hl, and ll Love Numbers
-    factors = units(lmax=LMAX).harmonic(*LOVE)
+    hl, kl, ll = LOVE
+    factors = units(lmax=LMAX).harmonic(hl, kl, ll)
     coeff = factors.g_wmo*factors.rho_e/(6.0*factors.omega*DENSITY)
 
     # if plms are not pre-computed: calculate Legendre polynomials
@@ -234,9 +235,9 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     for l in range(1, LMAX):
         # truncate to degree and order
         mm = np.arange(0, np.min([l,MMAX])+1)
-        temp1 = (l - 1.0)/(1.0 + LOVE.kl[l-1]) * \
+        temp1 = (l - 1.0)/(1.0 + kl[l-1]) * \
             np.sqrt((l**2 - mm**2)*(2.0*l - 1.0)/(2.0*l + 1))
-        temp2 = (l + 2.0)/(1.0 + LOVE.kl[l+1]) * \
+        temp2 = (l + 2.0)/(1.0 + kl[l+1]) * \
             np.sqrt(((l+1)**2 - mm**2)*(2.0*l + 3.0)/(2.0*l + 1))
         clm[l,mm,0] = coeff*wl[l]*(temp1*clm1[l-1,mm] - temp2*clm1[l+1,mm])
         slm[l,mm,0] = coeff*wl[l]*(temp1*slm1[l-1,mm] - temp2*slm1[l+1,mm])
@@ -244,7 +245,7 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     for l in range(0, LMAX+1):
         # truncate to degree and order
         mm = np.arange(0, np.min([l,MMAX])+1)
-        temp = mm*(2.0*l + 1.0)/(1.0 + LOVE.kl[l])
+        temp = mm*(2.0*l + 1.0)/(1.0 + kl[l])
         clm[l,mm,1] = -coeff*wl[l]*temp*slm1[l,mm]
         slm[l,mm,1] = coeff*wl[l]*temp*clm1[l,mm]
 
-- 
2.43.0


From 106a2897a93e9f3ca022f79e234c26a0265d4025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:28 +0000
Subject: [PATCH 012/161] fix: geostrophic_currents ignored LMIN

---
 gravity_toolkit/harmonic_gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 4d3211b..12a832c 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -252,8 +252,8 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     # Truncating harmonics to degree and order LMAX
     # removing coefficients below LMIN and above MMAX
     mm = np.arange(0, MMAX+1)
-    clm[LMIN:LMAX+1,mm,:] = clm[LMIN:LMAX+1,mm,:]
-    slm[LMIN:LMAX+1,mm,:] = slm[LMIN:LMAX+1,mm,:]
+    clm[:LMIN,:,:] = 0.0
+    slm[:LMIN,:,:] = 0.0
 
     # Calculate fourier coefficients from legendre coefficients
     d_cos = np.zeros((MMAX+1,thmax,2))# [m,th]
-- 
2.43.0


From 2ca2e06810d26669f79d098a8a6258533ead36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 013/161] fix: polar endpoints in Fourier harmonic analysis

---
 gravity_toolkit/gen_harmonics.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 8044f69..48e64fc 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -287,7 +287,9 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     n_even = len(m_even)
     n_odd = len(m_odd)
 
-    if np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).all():
+    # colatitude limits (for either orientation of the latitudes)
+    th0, th1 = np.min(theta), np.max(theta)
+    if np.isclose([th0,th1],[0.0,np.pi]).all():
         # non-endpoints
         nt = np.dot(mm,theta[1:nlat-1][np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,1:nlat-1],np.cos(nt).T)
@@ -296,16 +298,13 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         theta_sc[m_odd,:] = 2.0*np.dot(dsin[m_odd,1:nlat-1],np.sin(nt).T)
 
         # endpoints
-        theta_cc[m_even,:] += np.dot((dcos[m_even,0]*np.cos(theta[0]) +
-            dcos[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_even,:] += np.dot((dsin[m_even,0]*np.cos(theta[0]) +
-            dsin[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_cc[m_odd,:] += np.dot((dcos[m_odd,0]*np.sin(theta[0]) +
-            dcos[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_odd,:] += np.dot((dsin[m_odd,0]*np.sin(theta[0]) +
-            dsin[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-
-    elif not np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).any():
+        nt = np.dot(mm,theta[[0,nlat-1]][np.newaxis,:])
+        theta_cc[m_even,:] += np.dot(dcos[m_even,:][:,[0,nlat-1]],np.cos(nt).T)
+        theta_sc[m_even,:] += np.dot(dsin[m_even,:][:,[0,nlat-1]],np.cos(nt).T)
+        theta_cc[m_odd,:] += np.dot(dcos[m_odd,:][:,[0,nlat-1]],np.sin(nt).T)
+        theta_sc[m_odd,:] += np.dot(dsin[m_odd,:][:,[0,nlat-1]],np.sin(nt).T)
+
+    elif not np.isclose([th0,th1],[0.0,np.pi]).any():
         nt = np.dot(mm,theta[np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,:],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,:],np.cos(nt).T)
-- 
2.43.0


From 9ca044ed950326a00320310a68956ad6274b7208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 014/161] fix: truncating harmonics to order 0

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f021275..0c8d406 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1614,7 +1614,7 @@ class harmonics(object):
         temp = self.copy()
         # set new degree and order
         self.lmax = np.copy(lmax)
-        self.mmax = np.copy(mmax) if mmax else np.copy(lmax)
+        self.mmax = np.copy(mmax)
         # truncation levels
         l1 = self.lmax+1 if (temp.lmax > self.lmax) else temp.lmax+1
         m1 = self.mmax+1 if (temp.mmax > self.mmax) else temp.mmax+1
-- 
2.43.0


From ceb125052333ff311446d3d9adfde43db2e29c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 015/161] fix: Fourier harmonic analysis for odd LMAX and MMAX
 less than LMAX

---
 gravity_toolkit/gen_harmonics.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 48e64fc..af60cd6 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -254,6 +254,15 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         spherical harmonic order to MMAX
     """
 
+    # the fourier series are calculated for an even maximum degree and for
+    # all orders: expand if necessary and then truncate the harmonics
+    if (LMAX % 2) or (MMAX != LMAX):
+        lpad = LMAX + (LMAX % 2)
+        if (np.ndim(PLM) != 0):
+            PLM = np.pad(PLM, (0, lpad - LMAX))
+        Ylms = fourier(data, lon, lat, LMAX=lpad, MMAX=lpad, PLM=PLM)
+        return Ylms.truncate(LMAX, mmax=MMAX)
+
     # dimensions of the longitude and latitude arrays
     nlon = np.int64(len(lon))
     nlat = np.int64(len(lat))
-- 
2.43.0


From 62c1f5349eb6585988668265e49e29e25ed242bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 016/161] fix: last tabulated load Love number was overwritten
 by extrapolation

---
 gravity_toolkit/read_love_numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f1b2f44..f579127 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -204,7 +204,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
     # maximum degree of the Love/Shida numbers dataset
-    for lint in range(l,LMAX+1):
+    for lint in range(l+1,LMAX+1):
         # linearly extrapolate to maximum degree
         for n in ('hl','kl','ll'):
             love[n][lint] = 2.0*love[n][lint-1] - love[n][lint-2]
-- 
2.43.0


From 9bddaa31ca92c09fe5e5cc707508650e58372049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 017/161] fix: attributes of the pascal units

---
 gravity_toolkit/units.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index 6fb2010..039b0ec 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -303,6 +303,7 @@ class units(object):
             mmCH=('mm','Horizontal_Elastic_Crustal_Deformation'),
             microGal=(u'\u03BCGal', 'Gravitational_Undulation'),
             mbar=('mbar', 'Equivalent_Surface_Pressure'),
+            Pa=('Pa', 'Equivalent_Surface_Pressure'),
             cmVCU=('cm', 'Viscoelastic_Crustal_Uplift'),
             mVCU=('meters', 'Viscoelastic_Crustal_Uplift')
         )
-- 
2.43.0


From 9769abd6377949bfa018c692687addb311bb7dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 018/161] fix: spatial unit factor of millimeters geoid height

---
 gravity_toolkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index 039b0ec..366b6fb 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -240,7 +240,7 @@ class units(object):
         # mmwe, millimeters water equivalent [kg/m^2]
         self.mmwe = 3.0*fraction/(1.0+2.0*self.l)/(40.0*np.pi*self.rad_e*self.rho_e)
         # mmGH, millimeters geoid height
-        self.mmGH = np.ones((self.lmax+1))/(4.0*np.pi*self.rad_e)
+        self.mmGH = np.ones((self.lmax+1))/(40.0*np.pi*self.rad_e)
         # microGal, microGal gravity perturbations
         self.microGal = (self.rad_e**2.0)/(4.0*np.pi*1.e6*self.GM)/(self.l+1.0)
         # return the degree dependent unit conversions
-- 
2.43.0


From fc336e557a8833b5cf538f1cf4a8e9eefe7b2110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 019/161] fix: maximum degree of Love number tables with
 fortran exponents

---
 gravity_toolkit/read_love_numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f579127..f2cc9fe 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -154,7 +154,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     rx = re.compile(regex_pattern, re.VERBOSE)
 
     # extract maximum spherical harmonic degree from final line in file
-    degree = rx.findall(file_contents[-1])[COLUMNS.index('l')]
+    degree = rx.findall(file_contents[-1].replace('D','E'))[COLUMNS.index('l')]
     if LMAX is None and (degree == 'inf'):
         LMAX = np.copy(_default_max_degree)
     elif LMAX is None:
-- 
2.43.0


From 48e5c927b8118ed24b010dc078f57fb613ff5118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 020/161] fix: area of a spherical cap given its mass in
 gigatonnes

---
 gravity_toolkit/gen_spherical_cap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 208d888..83f79f7 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -189,7 +189,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
     elif (UNITS == 2):
         # Input data is in gigatonnes (Gt)
         # calculate spherical cap area from angular radius
-        area = np.pi*(alpha*factors.rad_e)**2
+        area = 2.0*np.pi*(1.0 - np.cos(alpha))*factors.rad_e**2
         # the 1.e15 converts from gigatons/cm^2 to cm of water
         # 1 g/cm^3 = 1000 kg/m^3 = density water
         # 1 Gt = 1 Pg = 1.e15 g
-- 
2.43.0


From 33c4fdb4f4540410e18e7d68db0ee42de47bb0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 021/161] fix: spherical cap and disc loads for MMAX of zero

---
 gravity_toolkit/gen_disc_load.py     | 2 +-
 gravity_toolkit/gen_spherical_cap.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index 015b391..90b41eb 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -191,7 +191,7 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = np.squeeze(plmout[:,:MMAX+1,:], axis=2)
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 83f79f7..867e35d 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -234,7 +234,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
     if PLM is None:
         plmout,_ = plm_holmes(LMAX, np.cos(th))
         # truncate precomputed plms to order
-        plmout = np.squeeze(plmout[:,:MMAX+1,:])
+        plmout = np.squeeze(plmout[:,:MMAX+1,:], axis=2)
     else:
         # truncate precomputed plms to degree and order
         plmout = PLM[:LMAX+1,:MMAX+1]
-- 
2.43.0


From 3385164d62d8db8da6ed378ffa510eeddfe8c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:01 +0000
Subject: [PATCH 022/161] fix: zonal harmonics of spherical cap and disc loads
 with recent numpy

---
 gravity_toolkit/gen_disc_load.py     | 4 ++--
 gravity_toolkit/gen_spherical_cap.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index 90b41eb..ba8e097 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -181,8 +181,8 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
         # unnormalizing Legendre polynomials
         # sqrt(2*l - 1) == sqrt(2*(l-1) + 1)
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
-        pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
-        pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
+        pl_lower = pl_matrix[l-1,0]/np.sqrt(2.0*l-1.0)
+        pl_upper = pl_matrix[l+1,0]/np.sqrt(2.0*l+3.0)
         pl_alpha[l] = (pl_lower - pl_upper)/2.0
 
     # Calculate Legendre Polynomials using Holmes and Featherstone relation
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 867e35d..6d0a1bd 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -223,8 +223,8 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
         # unnormalizing Legendre polynomials
         # sqrt(2*l - 1) == sqrt(2*(l-1) + 1)
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
-        pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
-        pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
+        pl_lower = pl_matrix[l-1,0]/np.sqrt(2.0*l-1.0)
+        pl_upper = pl_matrix[l+1,0]/np.sqrt(2.0*l+3.0)
         pl_alpha[l] = (pl_lower - pl_upper)/2.0
 
     # Calculating Legendre Polynomials
-- 
2.43.0


From d17dd9a87076163c6ebe2182230e7500a1e03384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 023/161] fix: geocentric gravitational constant of the secular
 Love number

---
 gravity_toolkit/sea_level_equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/sea_level_equation.py b/gravity_toolkit/sea_level_equation.py
index 712853f..88be655 100644
--- a/gravity_toolkit/sea_level_equation.py
+++ b/gravity_toolkit/sea_level_equation.py
@@ -238,7 +238,7 @@ def sea_level_equation(loadClm, loadSlm, glon, glat, land_function, LMAX=0,
         klf = 0.00328475/0.00348118
     if (FLUID_LOVE == 1):
         # Munk and MacDonald (1960) secular love number with IERS and PREM values
-        GM = 3.98004418e14# geocentric gravitational constant [m^3/s^2]
+        GM = 3.986004418e14# geocentric gravitational constant [m^3/s^2]
         Re = 6.371e6# mean radius of the Earth [m]
         omega = 7.292115e-5# mean rotation rate of the Earth [radians/s]
         C_moi = 0.33068# reduced polar moment of inertia (C/Ma^2)
-- 
2.43.0


From 1b9847fa22edfbf4bc1ee293b01eb390c61dd45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 024/161] fix: scaling a harmonics time series by a variable

---
 gravity_toolkit/harmonics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 0c8d406..b898205 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1702,6 +1702,8 @@ class harmonics(object):
                 temp.clm[:,:,i] = v*self.clm
                 temp.slm[:,:,i] = v*self.slm
         elif (np.ndim(var) == 1) and (self.ndim == 3):
+            temp.clm = np.zeros((temp.lmax+1,temp.mmax+1,len(var)))
+            temp.slm = np.zeros((temp.lmax+1,temp.mmax+1,len(var)))
             for i,v in enumerate(var):
                 temp.clm[:,:,i] = v*self.clm[:,:,i]
                 temp.slm[:,:,i] = v*self.slm[:,:,i]
-- 
2.43.0


From 122ab7c205a5e3075c1bc86746766b205d7593b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 025/161] fix: stale amplitude and complex form after harmonics
 are modified

---
 gravity_toolkit/harmonics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index b898205..1861622 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -108,7 +108,7 @@ from gravity_toolkit.time import adjust_months,calendar_to_grace
 from gravity_toolkit.destripe_harmonics import destripe_harmonics
 from gravity_toolkit.read_gfc_harmonics import read_gfc_harmonics
 from gravity_toolkit.read_GRACE_harmonics import read_GRACE_harmonics
-from gravity_toolkit.utilities import import_dependency, reify
+from gravity_toolkit.utilities import import_dependency
 
 # attempt imports
 geoidtk = import_dependency('geoid_toolkit')
@@ -1830,7 +1830,7 @@ class harmonics(object):
         # return the destriped field
         return temp
 
-    @reify
+    @property
     def amplitude(self):
         """
         Degree amplitude of the spherical harmonics
@@ -1876,7 +1876,7 @@ class harmonics(object):
         """
         return np.ndim(self.clm)
 
-    @reify
+    @property
     def ilm(self):
         """
         Complex form of the spherical harmonics
-- 
2.43.0


From 1c40ca80d02d83827ee1feb76a06a3bff6c31dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 026/161] fix: dates of harmonics merged from a list with
 recent numpy

---
 gravity_toolkit/harmonics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 1861622..2565ca9 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -663,8 +663,8 @@ class harmonics(object):
             self.clm[:,:,t] = object_list[i].clm[:self.lmax+1,:self.mmax+1]
             self.slm[:,:,t] = object_list[i].slm[:self.lmax+1,:self.mmax+1]
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
-- 
2.43.0


From d080aafeb9e4d66bd2102bba7201f4a422d2cf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 027/161] fix: squeezing harmonics with a single order or
 without updating dimensions

---
 gravity_toolkit/harmonics.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 2565ca9..3fa58c2 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1408,20 +1408,17 @@ class harmonics(object):
         update_dimensions: bool, default True
             Update the degree and order dimensions
         """
-        # squeeze singleton dimensions
-        try:
+        # number of dimensions for a single field
+        ndim = 1 if self.flattened else 2
+        # squeeze singleton (temporal) dimensions
+        if (self.ndim > ndim) and (self.shape[-1] == 1):
             self.clm = np.squeeze(self.clm, axis=-1)
             self.slm = np.squeeze(self.slm, axis=-1)
             self.time = np.squeeze(self.time)
             self.month = np.squeeze(self.month)
-        except ValueError as exc:
-            pass
         # assign degree and order fields
         if update_dimensions:
             self.update_dimensions()
-        else:
-            self.ndim = self.clm.ndim
-            self.shape = self.clm.shape
         return self
 
     def flatten(self, date=True):
-- 
2.43.0


From f2be0a6e96d34c5005f28efbce4784c4f5ee0447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 028/161] fix: string representation and length of harmonics
 with months

---
 gravity_toolkit/harmonics.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 3fa58c2..6810a1e 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1887,15 +1887,15 @@ class harmonics(object):
         properties.append(f"    max_degree: {self.lmax}")
         if self.mmax and (self.mmax != self.lmax):
             properties.append(f"    max_order: {self.mmax}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
         """Number of months
         """
-        return len(self.month) if np.any(self.month) else 0
+        return np.size(self.month) if np.any(self.month) else 0
 
     def __iter__(self):
         """Iterate over GRACE/GRACE-FO months
-- 
2.43.0


From 21b6eb7c9b81c90221c0cdfcf6db67aaf08b4784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 029/161] fix: subsetting harmonics with repeated months

---
 gravity_toolkit/harmonics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 6810a1e..bc0130b 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1557,8 +1557,6 @@ class harmonics(object):
         """
         # check if months is an array or a single value
         months = np.atleast_1d(months)
-        # number of months
-        n = len(months)
         # check that all months are available
         months_check = list(set(months) - set(self.month))
         if months_check:
@@ -1566,6 +1564,8 @@ class harmonics(object):
             raise IOError(f'GRACE/GRACE-FO months {m} not Found')
         # indices to sort data objects
         months_list = [i for i,m in enumerate(self.month) if m in months]
+        # number of months
+        n = len(months_list)
         # output harmonics object
         temp = harmonics(lmax=np.copy(self.lmax), mmax=np.copy(self.mmax))
         # create output harmonics
-- 
2.43.0


From 7d7dbd92d7ec19b94adcae73266756b0ffadcec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 030/161] fix: reading harmonics from ascii file objects

---
 gravity_toolkit/harmonics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index bc0130b..f98032e 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -250,7 +250,10 @@ class harmonics(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with open(self.filename, mode='r', encoding='utf8') as f:
-- 
2.43.0


From e0aa238f55e2dc794162bb50225ddd6de201e977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 031/161] fix: reading harmonics from SHM files

---
 gravity_toolkit/harmonics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f98032e..fb5bf27 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -566,6 +566,8 @@ class harmonics(object):
         # copy variables for gravity model
         self.clm = Ylms['clm'].copy()
         self.slm = Ylms['slm'].copy()
+        # spherical harmonic order of the model
+        self.mmax = np.int64(self.shape[1] - 1)
         self.time = Ylms['time'].copy()
         self.month = np.int64(calendar_to_grace(self.time))
         # copy header information for gravity model
@@ -724,7 +726,7 @@ class harmonics(object):
             return harmonics().from_gfc(filename, **kwargs)
         elif (format == 'SHM'):
             # spherical harmonic model
-            return harmonics().from_SHM(filename, self.lmax, **kwargs)
+            return harmonics(lmax=self.lmax).from_SHM(filename, **kwargs)
 
     def from_dict(self, d, **kwargs):
         """
-- 
2.43.0


From 832f3f3f7d84d0aab57585dc852701606f25d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 032/161] fix: iterating over harmonics without dates

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index fb5bf27..52a3faf 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1921,7 +1921,7 @@ class harmonics(object):
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-        except AttributeError as exc:
+        except (AttributeError, TypeError) as exc:
             pass
         # subset filename if applicable
         if getattr(self, 'filename'):
-- 
2.43.0


From 027cb14bc8dcaaf85d67e81323679de5cc09c158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 033/161] fix: reading spatial fields from ascii file objects

---
 gravity_toolkit/spatial.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 255b57e..009e8c4 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -242,7 +242,10 @@ class spatial(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
@@ -1855,7 +1858,10 @@ class scaling_factors(spatial):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From 666c78e38c65d5734b81e429314d33cb57fe6d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 034/161] fix: reading dates of spatial ascii files

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 009e8c4..905b21b 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -279,7 +279,7 @@ class spatial(object):
         self.data = np.zeros((nlat, nlon))
         self.mask = np.zeros((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
-        columns = [c for c in kwargs['columns'] if (c != 'time')]
+        columns = [c for c in kwargs['columns'] if date or (c != 'time')]
         # extract spatial data array and convert to matrix
         # for each line in the file
         header = kwargs['header']
-- 
2.43.0


From 7987896414d305ba27163a0b3da3e05d3cb0b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 035/161] fix: grid indices of spatial ascii files

---
 gravity_toolkit/spatial.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 905b21b..b24a34a 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -264,14 +264,20 @@ class spatial(object):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
             self.lon = np.zeros((kwargs['nlon']))
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
+        # coordinates of the first grid cell (if known) and
+        # rounding of the line coordinates to grid indices
+        if (None not in kwargs['extent']):
+            lon0, lat0, offset = (extent[0], extent[3], 0.5)
+        else:
+            lon0, lat0, offset = (0.0, 90.0, 0.01)
         # get spatial dimensions
         nlat = len(self.lat)
         nlon = len(self.lon)
@@ -288,8 +294,8 @@ class spatial(object):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0 - np.float64(d['lat']))//dlat)
+            ilon = np.int64(np.floor((np.float64(d['lon']) - lon0)/dlon + offset))
+            ilat = np.int64(np.floor((lat0 - np.float64(d['lat']))/dlat + offset))
             self.data[ilat, ilon] = np.float64(d['data'])
             self.mask[ilat, ilon] = False
             self.lon[ilon] = np.float64(d['lon'])
@@ -1880,14 +1886,20 @@ class scaling_factors(spatial):
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
             self.lon = np.zeros((kwargs['nlon']))
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
+        # coordinates of the first grid cell (if known) and
+        # rounding of the line coordinates to grid indices
+        if (None not in kwargs['extent']):
+            lon0, lat0, offset = (extent[0], extent[3], 0.5)
+        else:
+            lon0, lat0, offset = (0.0, 90.0, 0.01)
         # get spatial dimensions
         nlat = len(self.lat)
         nlon = len(self.lon)
@@ -1904,8 +1916,8 @@ class scaling_factors(spatial):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0-np.float64(d['lat']))//dlat)
+            ilon = np.int64(np.floor((np.float64(d['lon']) - lon0)/dlon + offset))
+            ilat = np.int64(np.floor((lat0 - np.float64(d['lat']))/dlat + offset))
             # get scaling factor, error and magnitude
             self.data[ilat,ilon] = np.float64(d['data'])
             self.error[ilat,ilon] = np.float64(d['error'])
-- 
2.43.0


From bdd11a4af0515959ae4dcfa9c06a591505d4451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 036/161] fix: grid cells missing from spatial ascii files are
 invalid

---
 gravity_toolkit/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index b24a34a..e5c65c4 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -282,8 +282,9 @@ class spatial(object):
         nlat = len(self.lat)
         nlon = len(self.lon)
         # output spatial data
+        # grid cells that are not in the file are invalid
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if date or (c != 'time')]
         # extract spatial data array and convert to matrix
@@ -1904,8 +1905,9 @@ class scaling_factors(spatial):
         nlat = len(self.lat)
         nlon = len(self.lon)
         # output spatial data
+        # grid cells that are not in the file are invalid
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
         # extract spatial data array and convert to matrix
-- 
2.43.0


From caf34567aaf05a3616c6ea01982baefddf7b14b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 037/161] fix: spatial files with as many latitudes as
 longitudes were transposed

---
 gravity_toolkit/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index e5c65c4..67b73aa 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -412,7 +412,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lat) != sz[0]) and \
+            (len(self.lon) == sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
@@ -536,7 +537,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lat) != sz[0]) and \
+            (len(self.lon) == sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
-- 
2.43.0


From c8cc6b3720f565121d3bbb3d5a985dccf775e629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 038/161] fix: dates of spatial fields merged from a list with
 recent numpy

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 67b73aa..28fe061 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -658,8 +658,8 @@ class spatial(object):
             if hasattr(object_list[i], 'error'):
                 self.error[:,:,t] = object_list[i].error[:,:].copy()
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
-- 
2.43.0


From 024841ea770f645c5cd786fd7d60c0894ee00489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 039/161] fix: string representation and length of spatial
 objects with months

---
 gravity_toolkit/spatial.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 28fe061..52580e3 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1714,15 +1714,15 @@ class spatial(object):
         properties.append(f"    extent: {extent}")
         shape = ', '.join(map(str, self.shape))
         properties.append(f"    shape: {shape}")
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
         """Number of months
         """
-        return len(self.month) if np.any(self.month) else 0
+        return np.size(self.month) if np.any(self.month) else 0
 
     def __iter__(self):
         """Iterate over GRACE/GRACE-FO months
-- 
2.43.0


From d0d3cd0a30df7a32e7a5d82bd61c8a8c948a79c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 040/161] fix: iterating over spatial objects without dates

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 52580e3..92c7c74 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1745,7 +1745,7 @@ class spatial(object):
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-        except AttributeError as exc:
+        except (AttributeError, TypeError) as exc:
             pass
         # subset output spatial error
         try:
-- 
2.43.0


From f896927926aa0abc4a6b67d8ab0741e9fc51fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 041/161] fix: longitude spacing when extending spatial grids

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 92c7c74..ac6cc96 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1273,7 +1273,7 @@ class spatial(object):
         temp.lon = np.zeros((nx+2), dtype=self.lon.dtype)
         temp.lon[0] = self.lon[0] - self.spacing[0]
         temp.lon[1:-1] = self.lon[:]
-        temp.lon[-1] = self.lon[-1] + self.spacing[1]
+        temp.lon[-1] = self.lon[-1] + self.spacing[0]
         # attempt to extend possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From 9683d19a71ddfb4e6f27e7d3d865183beca2f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 042/161] fix: GRACE months when flipping spatial objects in
 time

---
 gravity_toolkit/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index ac6cc96..4c6c78d 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1530,6 +1530,7 @@ class spatial(object):
             temp.lon = temp.lon[::-1].copy()
         elif (axis == 2):
             temp.time = temp.time[::-1].copy()
+            temp.month = temp.month[::-1].copy()
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From 96dafade6069a232a58b03814d715744294dd418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 043/161] fix: subsetting spatial objects with repeated months

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 4c6c78d..15acb05 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1364,8 +1364,6 @@ class spatial(object):
         """
         # check if months is an array or a single value
         months = np.atleast_1d(months)
-        # number of months
-        n = len(months)
         # check that all months are available
         months_check = list(set(months) - set(self.month))
         if months_check:
@@ -1373,6 +1371,8 @@ class spatial(object):
             raise IOError(f'GRACE/GRACE-FO months {m} not Found')
         # indices to sort data objects
         months_list = [i for i,m in enumerate(self.month) if m in months]
+        # number of months
+        n = len(months_list)
         # output spatial object
         temp = self.zeros_like()
         # create output spatial object
-- 
2.43.0


From 3b01f954da2a5398fc783823533169e86f782ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 044/161] fix: arithmetic of undated spatial series

---
 gravity_toolkit/spatial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 15acb05..57da6b0 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1434,10 +1434,10 @@ class spatial(object):
         elif (np.ndim(var) == 2) and (self.ndim == 2):
             temp.data = self.data + var
         elif (np.ndim(var) == 2) and (self.ndim == 3):
-            for i,t in enumerate(self.time):
+            for i in range(self.shape[2]):
                 temp.data[:,:,i] = self.data[:,:,i] + var
         elif (np.ndim(var) == 3) and (self.ndim == 3):
-            for i,t in enumerate(self.time):
+            for i in range(self.shape[2]):
                 temp.data[:,:,i] = self.data[:,:,i] + var[:,:,i]
         # update mask
         temp.update_mask()
@@ -1469,10 +1469,10 @@ class spatial(object):
         elif (np.ndim(var) == 2) and (self.ndim == 2):
             temp.data = var*self.data
         elif (np.ndim(var) == 2) and (self.ndim == 3):
-            for i,t in enumerate(self.time):
+            for i in range(self.shape[2]):
                 temp.data[:,:,i] = var*self.data[:,:,i]
         elif (np.ndim(var) == 3) and (self.ndim == 3):
-            for i,t in enumerate(self.time):
+            for i in range(self.shape[2]):
                 temp.data[:,:,i] = var[:,:,i]*self.data[:,:,i]
         # update mask
         temp.update_mask()
@@ -1506,7 +1506,7 @@ class spatial(object):
             pass
         # calculate the spatial anomalies by removing the mean field
         if apply:
-            for i,t in enumerate(self.time):
+            for i in range(self.shape[2]):
                 self.data[:,:,i] -= temp.data[:,:]
         # update mask
         temp.update_mask()
-- 
2.43.0


From 345d69a8859bd09fa5e831dcf2efb908d67b02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 045/161] fix: fill values in powers of spatial objects

---
 gravity_toolkit/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 57da6b0..21dd1f8 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1595,6 +1595,8 @@ class spatial(object):
         """
         temp = self.copy()
         temp.data = np.power(self.data,power)
+        # update mask
+        temp.update_mask()
         return temp
 
     def max(self):
-- 
2.43.0


From 0756b387f1ea6409c039142ac3ff95cf53434eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 046/161] fix: anomalies of spatial objects at invalid cells

---
 gravity_toolkit/spatial.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 21dd1f8..ad6eb4e 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1508,6 +1508,9 @@ class spatial(object):
         if apply:
             for i in range(self.shape[2]):
                 self.data[:,:,i] -= temp.data[:,:]
+                # anomalies are invalid where there is no valid mean field
+                self.mask[:,:,i] |= temp.mask[:,:]
+            self.replace_masked()
         # update mask
         temp.update_mask()
         return temp
-- 
2.43.0


From bbc3918bb3447618abc849977751e7a8bd3b5cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 047/161] fix: copies and files sharing the attributes of an
 object

---
 gravity_toolkit/harmonics.py | 8 ++++----
 gravity_toolkit/spatial.py   | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 52a3faf..5f81879 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -828,7 +828,7 @@ class harmonics(object):
         kwargs.setdefault('months_units','number')
         kwargs.setdefault('months_longname','GRACE_month')
         kwargs.setdefault('field_mapping',{})
-        attributes = self.attributes.get('ROOT') or {}
+        attributes = copy.copy(self.attributes.get('ROOT') or {})
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('title',None)
         kwargs.setdefault('source',None)
@@ -973,7 +973,7 @@ class harmonics(object):
         kwargs.setdefault('months_units','number')
         kwargs.setdefault('months_longname','GRACE_month')
         kwargs.setdefault('field_mapping',{})
-        attributes = self.attributes.get('ROOT') or {}
+        attributes = copy.copy(self.attributes.get('ROOT') or {})
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('title',None)
         kwargs.setdefault('source',None)
@@ -1324,9 +1324,9 @@ class harmonics(object):
         temp = harmonics(lmax=self.lmax, mmax=self.mmax)
         # copy attributes or update attributes dictionary
         if isinstance(self.attributes, list):
-            setattr(temp,'attributes',self.attributes)
+            setattr(temp, 'attributes', copy.deepcopy(self.attributes))
         elif isinstance(self.attributes, dict):
-            temp.attributes.update(self.attributes)
+            temp.attributes.update(copy.deepcopy(self.attributes))
         # try to assign variables to self
         for key in ['clm','slm','time','month','filename']:
             try:
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index ad6eb4e..64cd7a2 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -821,7 +821,7 @@ class spatial(object):
         kwargs.setdefault('latname','lat')
         kwargs.setdefault('timename','time')
         kwargs.setdefault('field_mapping',{})
-        attributes = self.attributes.get('ROOT') or {}
+        attributes = copy.copy(self.attributes.get('ROOT') or {})
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
@@ -965,7 +965,7 @@ class spatial(object):
         kwargs.setdefault('latname','lat')
         kwargs.setdefault('timename','time')
         kwargs.setdefault('field_mapping',{})
-        attributes = self.attributes.get('ROOT') or {}
+        attributes = copy.copy(self.attributes.get('ROOT') or {})
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
@@ -1198,9 +1198,9 @@ class spatial(object):
         temp = spatial(fill_value=self.fill_value)
         # copy attributes or update attributes dictionary
         if isinstance(self.attributes, list):
-            setattr(temp,'attributes',self.attributes)
+            setattr(temp, 'attributes', copy.deepcopy(self.attributes))
         elif isinstance(self.attributes, dict):
-            temp.attributes.update(self.attributes)
+            temp.attributes.update(copy.deepcopy(self.attributes))
         # assign variables to self
         var = ['lon','lat','data','mask','error','time','month','filename']
         for key in var:
-- 
2.43.0


From 7903354f38fe67850598f4d62b912697d864b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 048/161] fix: copying scaling factors without errors

---
 gravity_toolkit/spatial.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 64cd7a2..f785060 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1204,11 +1204,9 @@ class spatial(object):
         # assign variables to self
         var = ['lon','lat','data','mask','error','time','month','filename']
         for key in var:
-            try:
-                val = getattr(self, key)
+            val = getattr(self, key, None)
+            if val is not None:
                 setattr(temp, key, copy.copy(val))
-            except AttributeError:
-                pass
         # update mask
         temp.replace_masked()
         return temp
@@ -1223,11 +1221,9 @@ class spatial(object):
         temp.lat = self.lat.copy()
         var = ['data','mask','error','time','month']
         for key in var:
-            try:
-                val = getattr(self, key)
+            val = getattr(self, key, None)
+            if val is not None:
                 setattr(temp, key, np.zeros_like(val))
-            except AttributeError:
-                pass
         # update mask
         temp.replace_masked()
         return temp
@@ -1250,7 +1246,7 @@ class spatial(object):
             # try expanding spatial error
             try:
                 self.error = self.error[:,:,None]
-            except AttributeError as exc:
+            except (AttributeError, TypeError) as exc:
                 pass
         # update mask
         self.update_mask()
-- 
2.43.0


From 3f6bdd10c7079c67edc58412e8e541ccc5436828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 049/161] fix: reading scaling factors from ascii files

---
 gravity_toolkit/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index f785060..230d78d 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1911,6 +1911,8 @@ class scaling_factors(spatial):
         # output spatial data
         # grid cells that are not in the file are invalid
         self.data = np.zeros((nlat, nlon))
+        self.error = np.zeros((nlat, nlon))
+        self.magnitude = np.zeros((nlat, nlon))
         self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
@@ -1925,7 +1927,7 @@ class scaling_factors(spatial):
             ilon = np.int64(np.floor((np.float64(d['lon']) - lon0)/dlon + offset))
             ilat = np.int64(np.floor((lat0 - np.float64(d['lat']))/dlat + offset))
             # get scaling factor, error and magnitude
-            self.data[ilat,ilon] = np.float64(d['data'])
+            self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
             self.magnitude[ilat,ilon] = np.float64(d['magnitude'])
             # set mask
-- 
2.43.0


From 403f71cce556e4402070858c8482a5724973546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 050/161] fix: writing spatial files changed the dimensions of
 the object

---
 gravity_toolkit/spatial.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 230d78d..ddf9fab 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -870,33 +870,35 @@ class spatial(object):
         if kwargs['reference']:
             kwargs['attributes']['ROOT']['reference'] = kwargs['reference']
         # netCDF4 dimension variables
+        # copy of the object to keep its dimensions unchanged
+        output = copy.copy(self)
         dimensions = []
         dimensions.append('lat')
         dimensions.append('lon')
         # expand dimensions if containing date variables
         if kwargs['date']:
-            self.expand_dims()
+            output.expand_dims()
             dimensions.append('time')
         dims = tuple(kwargs['field_mapping'][key] for key in dimensions)
         # defining the NetCDF dimensions and variables
         nc = {}
         # NetCDF dimensions
         for i,field in enumerate(dimensions):
-            temp = getattr(self,field)
+            temp = getattr(output,field)
             key = kwargs['field_mapping'][field]
             fileID.createDimension(key, len(temp))
             nc[key] = fileID.createVariable(key, temp.dtype, (key,))
         # NetCDF spatial data
         variables = set(kwargs['field_mapping'].keys()) - set(dimensions)
         for field in sorted(variables):
-            temp = getattr(self,field)
+            temp = getattr(output,field)
             ndim = temp.ndim
             key = kwargs['field_mapping'][field]
             nc[key] = fileID.createVariable(key, temp.dtype, dims[:ndim],
                 fill_value=self.fill_value, zlib=True)
         # filling NetCDF variables
         for field,key in kwargs['field_mapping'].items():
-            nc[key][:] = getattr(self,field)
+            nc[key][:] = getattr(output,field)
             # filling netCDF dataset attributes
             for att_name,att_val in kwargs['attributes'][key].items():
                 # skip variable attribute if None
@@ -1014,18 +1016,20 @@ class spatial(object):
         if kwargs['reference']:
             kwargs['attributes']['ROOT']['reference'] = kwargs['reference']
         # HDF5 dimension variables
+        # copy of the object to keep its dimensions unchanged
+        output = copy.copy(self)
         dimensions = []
         dimensions.append('lat')
         dimensions.append('lon')
         # expand dimensions if containing date variables
         if kwargs['date']:
-            self.expand_dims()
+            output.expand_dims()
             dimensions.append('time')
         dims = tuple(kwargs['field_mapping'][key] for key in dimensions)
         # Defining the HDF5 dataset variables
         h5 = {}
         for field,key in kwargs['field_mapping'].items():
-            temp = getattr(self,field)
+            temp = getattr(output,field)
             key = kwargs['field_mapping'][field]
             h5[key] = fileID.create_dataset(key, temp.shape,
                 data=temp, dtype=temp.dtype, compression='gzip')
-- 
2.43.0


From 5d8bc3f15cf29c28c85c661e7556388484e2bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 051/161] fix: writing merged spatial objects

---
 gravity_toolkit/spatial.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index ddf9fab..3c924a8 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -821,7 +821,11 @@ class spatial(object):
         kwargs.setdefault('latname','lat')
         kwargs.setdefault('timename','time')
         kwargs.setdefault('field_mapping',{})
-        attributes = copy.copy(self.attributes.get('ROOT') or {})
+        if isinstance(self.attributes, list):
+            # attributes of the objects in a merged list
+            attributes = {}
+        else:
+            attributes = copy.copy(self.attributes.get('ROOT') or {})
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
@@ -967,7 +971,11 @@ class spatial(object):
         kwargs.setdefault('latname','lat')
         kwargs.setdefault('timename','time')
         kwargs.setdefault('field_mapping',{})
-        attributes = copy.copy(self.attributes.get('ROOT') or {})
+        if isinstance(self.attributes, list):
+            # attributes of the objects in a merged list
+            attributes = {}
+        else:
+            attributes = copy.copy(self.attributes.get('ROOT') or {})
         kwargs.setdefault('attributes',dict(ROOT=attributes))
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
-- 
2.43.0


From fb6f013bd860395b9361e487fde71790da8ce19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 052/161] fix: attributes of harmonics converted from a
 dictionary

---
 gravity_toolkit/harmonics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 5f81879..f0c8e11 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -747,7 +747,12 @@ class harmonics(object):
         self.lmax = np.max(d['l'])
         self.mmax = np.max(d['m'])
         # add attributes to root if in dictionary
-        self.attributes['ROOT'] = d.get('attributes')
+        attributes = d.get('attributes')
+        if isinstance(attributes, dict) and ('ROOT' in attributes):
+            # attributes from a converted harmonics object
+            self.attributes.update(attributes)
+        else:
+            self.attributes['ROOT'] = attributes
         # assign degree and order fields
         self.update_dimensions()
         return self
-- 
2.43.0


From 18ba4b04fc620d15618b2297dbc05e3e799827ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 053/161] fix: repeated GRACE months became month 0 without
 surrounding months

---
 gravity_toolkit/time.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 8ad52ce..a297999 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -383,6 +383,10 @@ def adjust_months(grace_month):
         elif (mon == mp1) and ((mon == (mm1 + 2)) or (mp2 == (mp1 + 1))):
             # case where month should be -1
             m[j] = grace_month[j] - 1
+        else:
+            # case where the month cannot be verified
+            # from the months surrounding it
+            m[j] = np.copy(grace_month[j])
     # update months and remove singleton dimensions if necessary
     return np.squeeze(m)
 
-- 
2.43.0


From 1e3f1d7259cd129d7fe8bb13b8a7413c7e618c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 054/161] fix: Julian days of arrays of calendar dates

---
 gravity_toolkit/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index a297999..047fd2f 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -451,7 +451,8 @@ def calendar_to_julian(year_decimal):
     # calculate year
     year = np.floor(year_decimal)
     # calculation of day of the year
-    dpy = calendar_days(year).sum()
+    dpy = np.array([calendar_days(y).sum() for y in np.atleast_1d(year)])
+    dpy = dpy.reshape(np.shape(year))
     DofY = dpy*(year_decimal % 1)
     # Calculation of the Julian date from year and DofY
     JD = np.array(367.0*year - np.floor(7.0*year/4.0) -
-- 
2.43.0


From 83bf04c4c75f229ce19ab96d068aed736130b543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:16 +0000
Subject: [PATCH 055/161] fix: Julian days of calendar dates were one day early

---
 gravity_toolkit/time.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 047fd2f..f4410a1 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -453,7 +453,8 @@ def calendar_to_julian(year_decimal):
     # calculation of day of the year
     dpy = np.array([calendar_days(y).sum() for y in np.atleast_1d(year)])
     dpy = dpy.reshape(np.shape(year))
-    DofY = dpy*(year_decimal % 1)
+    # (January 1 = 1)
+    DofY = 1.0 + dpy*(year_decimal % 1)
     # Calculation of the Julian date from year and DofY
     JD = np.array(367.0*year - np.floor(7.0*year/4.0) -
         np.floor(3.0*(np.floor((7.0*year - 1.0)/700.0) + 1.0)/4.0) +
-- 
2.43.0


From df940afaed63a548694757a51e215d5fa194b65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 056/161] fix: months occurring more than twice became month 0

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index f4410a1..0881371 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -357,7 +357,7 @@ def adjust_months(grace_month):
     # find unique months
     _,i,c = np.unique(grace_month,return_inverse=True,return_counts=True)
     # simple unique months case
-    case1, = np.nonzero(c[i] == 1)
+    case1, = np.nonzero(c[i] != 2)
     m[case1] = grace_month[case1]
     # Special Months cases
     case2, = np.nonzero(c[i] == 2)
-- 
2.43.0


From 77cef26114f603991a49295c2b1bf62b946acd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 057/161] fix: days since an epoch of dates around non-leap
 century years

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 0881371..b56354a 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -587,7 +587,7 @@ def convert_calendar_dates(year, month, day, hour=0.0, minute=0.0, second=0.0,
     # calculate date in Modified Julian Days (MJD) from calendar date
     # MJD: days since November 17, 1858 (1858-11-17T00:00:00)
     MJD = 367.0*year - np.floor(7.0*(year + np.floor((month+9.0)/12.0))/4.0) - \
-        np.floor(3.0*(np.floor((year + (month - 9.0)/7.0)/100.0) + 1.0)/4.0) + \
+        np.floor(3.0*(np.floor((year + np.trunc((month - 9.0)/7.0))/100.0) + 1.0)/4.0) + \
         np.floor(275.0*month/9.0) + day + hour/24.0 + minute/1440.0 + \
         second/86400.0 + 1721028.5 - 2400000.5
     # convert epochs to datetime variables
-- 
2.43.0


From 6a61f33b3050f9e85b623381adf56ff350689437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:26 +0000
Subject: [PATCH 058/161] fix: months of lists with a single object

---
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f0c8e11..cb20b83 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -675,7 +675,7 @@ class harmonics(object):
                 self.filename.append(object_list[i].filename)
         # adjust months to fix special cases if necessary
         if kwargs['date']:
-            self.month = adjust_months(self.month)
+            self.month = np.atleast_1d(adjust_months(self.month))
         # assign degree and order fields
         self.update_dimensions()
         # clear the input list to free memory
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 3c924a8..d123675 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -668,7 +668,7 @@ class spatial(object):
                 self.attributes.append(object_list[i].attributes)
         # adjust months to fix special cases if necessary
         if kwargs['date']:
-            self.month = adjust_months(self.month)
+            self.month = np.atleast_1d(adjust_months(self.month))
         # update mask
         self.update_mask()
         # clear the input list to free memory
-- 
2.43.0


From 64178347d35dff8281394037ed3e1b83887b57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:54 +0000
Subject: [PATCH 059/161] fix: drift rates above the truncation of the
 harmonics

---
 gravity_toolkit/read_GRACE_harmonics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_GRACE_harmonics.py b/gravity_toolkit/read_GRACE_harmonics.py
index 4a628e8..b53fbc8 100644
--- a/gravity_toolkit/read_GRACE_harmonics.py
+++ b/gravity_toolkit/read_GRACE_harmonics.py
@@ -233,8 +233,10 @@ def read_GRACE_harmonics(input_file, LMAX, **kwargs):
             l1 = np.int64(line_contents[1])
             m1 = np.int64(line_contents[2])
             # Reading Drift rates for low degree harmonics
-            drift_c[l1,m1] = np.float64(line_contents[3])
-            drift_s[l1,m1] = np.float64(line_contents[4])
+            # if degree and order are below the truncation limits
+            if ((l1 <= LMAX) and (m1 <= MMAX)):
+                drift_c[l1,m1] = np.float64(line_contents[3])
+                drift_s[l1,m1] = np.float64(line_contents[4])
 
     # Adding drift rates to clm and slm for RL04
     # if drift rates exist at any time, will add to harmonics
-- 
2.43.0


From ebbf49d505d45a74961097aef8660fe2ccbf320e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 060/161] fix: file names of Swarm dealiasing products

---
 gravity_toolkit/read_gfc_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_gfc_harmonics.py b/gravity_toolkit/read_gfc_harmonics.py
index d344488..17b08fb 100644
--- a/gravity_toolkit/read_gfc_harmonics.py
+++ b/gravity_toolkit/read_gfc_harmonics.py
@@ -178,7 +178,7 @@ def read_gfc_harmonics(input_file, TIDE=None, FLAG='gfc'):
     elif re.match(swarm_model, input_file.name):
         # compile numerical expression operator for parameters from files
         # Swarm: dealiasing products for Swarm data
-        rx = re.compile(swarm_data, re.VERBOSE | re.IGNORECASE)
+        rx = re.compile(swarm_model, re.VERBOSE | re.IGNORECASE)
         # extract parameters from input filename
         PROD,trunc,month,year,SFX = rx.findall(input_file.name).pop()
         # number of days in each month for the calendar year
-- 
2.43.0


From e03df5ad0893903fb7962d0159c147df9a0f939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 061/161] fix: months of gfc harmonics with dates

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index cb20b83..70a1166 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -530,7 +530,7 @@ class harmonics(object):
         if kwargs['date']:
             self.time = Ylms['time'].copy()
             # adjust months to fix special cases if necessary
-            self.month = adjust_months(Ylms['month'])
+            self.month = np.int64(calendar_to_grace(self.time))
         # geophysical parameters of gravity model
         self.GM = np.float64(Ylms['earth_gravity_constant'])
         self.R = np.float64(Ylms['radius'])
-- 
2.43.0


From 686860c9afa239fd98109b8e9048cb465d71c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 062/161] fix: dates of SLR solutions with current numpy
 versions

---
 gravity_toolkit/SLR/C20.py            | 16 ++++++++--------
 gravity_toolkit/SLR/C30.py            |  2 +-
 gravity_toolkit/SLR/C50.py            |  2 +-
 gravity_toolkit/read_SLR_harmonics.py |  2 +-
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 992018f..8944f51 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -330,7 +330,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[2])
@@ -390,7 +390,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                date_conv[t] = gravity_toolkit.time.convert_calendar_decimal(
+                date_conv[t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 C20_input[t] = np.float64(line_contents[2])
@@ -425,16 +425,16 @@ def C20(SLR_file, AOD=True, HEADER=True):
             # there is only one solution for the month
             if (count == 1):
                 i = np.nonzero(mon == dinput['month'][t])
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
             # there is a special solution for the month
             # will the solution flagged with slr_flag
             elif (count == 2):
                 i = np.nonzero((mon == dinput['month'][t]) & slr_flag)
-                dinput['time'][t] = date_conv[i]
-                dinput['data'][t] = C20_input[i]
-                dinput['error'][t] = eC20_input[i]
+                dinput['time'][t], = date_conv[i]
+                dinput['data'][t], = C20_input[i]
+                dinput['error'][t], = eC20_input[i]
 
     # The 'Special Months' (Nov 2011, Dec 2011 and April 2012) with
     # Accelerometer shutoffs make the relation between month number
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 84c2dda..3cd9d3b 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -161,7 +161,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[5])
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index af93dad..53dff90 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -143,7 +143,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[10])
diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 9d596fe..39259b9 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -208,7 +208,7 @@ def read_CSR_monthly_6x1(SLR_file, SCALE=1e-10, HEADER=True):
         Ylms['MJD'][d] = np.mean(np.array(line_contents[5:7],dtype=np.float64))
         # date of the mid-point of the arc given in years
         YY,MM = np.array(line_contents[3:5])
-        Ylms['time'][d] = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
+        Ylms['time'][d], = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
         # add 1 to counter
         count += 1
 
-- 
2.43.0


From efab1894a40cdfffda8bf2864317e98885437a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:32 +0000
Subject: [PATCH 063/161] fix: SLR file names as strings

---
 gravity_toolkit/read_SLR_harmonics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 39259b9..6cfb376 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -88,6 +88,7 @@ def read_SLR_harmonics(SLR_file, **kwargs):
     **kwargs: dict
         keyword arguments for input readers
     """
+    SLR_file = pathlib.Path(SLR_file).expanduser().absolute()
     if bool(re.search(r'gsfc_slr_5x5c61s61', SLR_file.name, re.I)):
         return read_GSFC_weekly_6x1(SLR_file, **kwargs)
     elif bool(re.search(r'CSR_Monthly_5x5_Gravity_Harmonics', SLR_file.name, re.I)):
-- 
2.43.0


From 050f56d37ac4ce6c5cb174434460af67c6d737ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:29 +0000
Subject: [PATCH 064/161] fix: months of SLR records with a single month

---
 gravity_toolkit/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index b56354a..7501bb6 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -349,6 +349,7 @@ def adjust_months(grace_month):
     For GSFC: Oct 2018 (202) is centered in Nov 2018 (203)
     """
     # verify dimensions
+    shape = np.shape(grace_month)
     grace_month = np.atleast_1d(grace_month)
     # number of months
     nmon = len(grace_month)
@@ -387,8 +388,8 @@ def adjust_months(grace_month):
             # case where the month cannot be verified
             # from the months surrounding it
             m[j] = np.copy(grace_month[j])
-    # update months and remove singleton dimensions if necessary
-    return np.squeeze(m)
+    # return the updated months with the dimensions of the input
+    return m.reshape(shape)
 
 # PURPOSE: convert calendar dates to GRACE/GRACE-FO months
 def calendar_to_grace(year,month=1,around=np.floor):
-- 
2.43.0


From 1104624a6cf986f4923829614f0e4a1ed143c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 065/161] fix: maximum order of GIA harmonics given as MMAX

---
 gravity_toolkit/read_GIA_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_GIA_model.py b/gravity_toolkit/read_GIA_model.py
index 39da6de..5f5e673 100755
--- a/gravity_toolkit/read_GIA_model.py
+++ b/gravity_toolkit/read_GIA_model.py
@@ -719,7 +719,7 @@ class gia(harmonics):
         kwargs.setdefault('verbose',False)
         # catch case where MMAX is entered
         if ('MMAX' in kwargs.keys()):
-            kwargs['mmax'] = np.copy(kwargs['mmax'])
+            kwargs['mmax'] = kwargs['MMAX']
         # read data from GIA file
         Ylms = read_GIA_model(self.filename, GIA=kwargs['GIA'],
             LMAX=self.lmax, MMAX=kwargs['mmax'])
-- 
2.43.0


From 71714cd67526ee1bb9e7db7a1056be4ade667bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 066/161] fix: file names of monthly dealiasing geocenter files

---
 gravity_toolkit/geocenter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index c30b562..31199f4 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -156,7 +156,7 @@ class geocenter(object):
         """
 
         # full path to AOD geocenter for month (using glo coefficients)
-        granule = f'AOD1B_{release} {product}_{year:4.0f}_{month:02.0f}.txt'
+        granule = f'AOD1B_{release}_{product}_{year:4.0f}_{month:02.0f}.txt'
         AOD1B_file = self.directory.joinpath(granule)
         # check that file exists
         if not AOD1B_file.exists():
-- 
2.43.0


From 9ec3c389ff8e9f227938eeaef4f4064a6117f433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 067/161] fix: radius of derived geocenter objects

---
 gravity_toolkit/geocenter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 31199f4..47034a0 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -793,7 +793,7 @@ class geocenter(object):
         kwargs.setdefault('fields',['time','month',
             'C10','C11','S11','eC10','eC11','eS11',
             'X','Y','Z'])
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         # try to assign variables to self
         for key in kwargs['fields']:
             try:
@@ -1077,7 +1077,7 @@ class geocenter(object):
         indices: int, default Ellipsis
             indices of input ``geocenter`` object to compute mean
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         # calculate mean static field
         temp.C10 = np.mean(self.C10[indices])
         temp.C11 = np.mean(self.C11[indices])
@@ -1163,7 +1163,7 @@ class geocenter(object):
         var: float
             scalar value to which the ``geocenter`` object will be multiplied
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         # multiply by a single constant or a time-variable scalar
@@ -1181,7 +1181,7 @@ class geocenter(object):
         power: float
             power to which the ``geocenter`` object will be raised
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         temp.time = np.copy(self.time)
         temp.month = np.copy(self.month)
         temp.C10 = np.power(self.C10,power)
@@ -1233,7 +1233,7 @@ class geocenter(object):
     def __next__(self):
         """Get the next month of data
         """
-        temp = geocenter()
+        temp = geocenter(radius=self.radius)
         try:
             temp.time = self.time[self.__index__].copy()
             temp.month = self.month[self.__index__].copy()
-- 
2.43.0


From 4f88bf7a8bd92e052e350c504f5ac818108fe54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 068/161] fix: string representation of geocenter objects

---
 gravity_toolkit/geocenter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 47034a0..e0732b5 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -1214,9 +1214,9 @@ class geocenter(object):
         """String representation of the ``geocenter`` object
         """
         properties = ['gravity_toolkit.geocenter']
-        if self.month:
-            properties.append(f"    start_month: {min(self.month)}")
-            properties.append(f"    end_month: {max(self.month)}")
+        if np.any(self.month):
+            properties.append(f"    start_month: {np.min(self.month)}")
+            properties.append(f"    end_month: {np.max(self.month)}")
         return '\n'.join(properties)
 
     def __len__(self):
-- 
2.43.0


From 52603d7b6c3b211e0dcf2c4103122941f71521e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 069/161] fix: SLR geocenter files without dealiasing products

---
 gravity_toolkit/geocenter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index e0732b5..7afe9a8 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -343,12 +343,14 @@ class geocenter(object):
 
         # directory setup for AOD1b data starting with input degree 1 file
         # this will verify that the input paths work
-        base_dir = self.filename.parent.parent
-        self.directory = base_dir.joinpath('AOD1B', kwargs['release'], 'geocenter')
-        # check that AOD1B directory exists
-        if not self.directory.exists():
-            msg = f'{str(self.directory)} not found in file system'
-            raise FileNotFoundError(msg)
+        if kwargs['AOD']:
+            base_dir = self.filename.parent.parent
+            self.directory = base_dir.joinpath('AOD1B', kwargs['release'],
+                'geocenter')
+            # check that AOD1B directory exists
+            if not self.directory.exists():
+                msg = f'{str(self.directory)} not found in file system'
+                raise FileNotFoundError(msg)
 
         # Input geocenter file and split lines
         with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From f0ccc55f237009d381022a576efde4042529c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 070/161] fix: low-degree replacements with current numpy
 versions

---
 gravity_toolkit/grace_input_months.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b4cb61d..af70c8e 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -682,7 +682,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C20_input['month'] == grace_month)
             if (count != 0):
-                k, = np.nonzero(C20_input['month'] == grace_month)
+                k, = np.flatnonzero(C20_input['month'] == grace_month)
                 grace_Ylms['clm'][2,0,i] = np.copy(C20_input['data'][k])
                 grace_Ylms['eclm'][2,0,i] = np.copy(C20_input['error'][k])
 
@@ -697,7 +697,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C21_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C21_input['month'] == grace_month)
+                k, = np.flatnonzero(C21_input['month'] == grace_month)
                 grace_Ylms['clm'][2,1,i] = np.copy(C21_input['C2m'][k])
                 grace_Ylms['slm'][2,1,i] = np.copy(C21_input['S2m'][k])
                 grace_Ylms['eclm'][2,1,i] = np.copy(C21_input['eC2m'][k])
@@ -714,7 +714,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C22_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C22_input['month'] == grace_month)
+                k, = np.flatnonzero(C22_input['month'] == grace_month)
                 grace_Ylms['clm'][2,2,i] = np.copy(C22_input['C2m'][k])
                 grace_Ylms['slm'][2,2,i] = np.copy(C22_input['S2m'][k])
                 grace_Ylms['eclm'][2,2,i] = np.copy(C22_input['eC2m'][k])
@@ -731,7 +731,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C30_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C30_input['month'] == grace_month)
+                k, = np.flatnonzero(C30_input['month'] == grace_month)
                 grace_Ylms['clm'][3,0,i] = np.copy(C30_input['data'][k])
                 grace_Ylms['eclm'][3,0,i] = np.copy(C30_input['error'][k])
 
@@ -746,7 +746,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C40_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C40_input['month'] == grace_month)
+                k, = np.flatnonzero(C40_input['month'] == grace_month)
                 grace_Ylms['clm'][4,0,i] = np.copy(C40_input['data'][k])
                 grace_Ylms['eclm'][4,0,i] = np.copy(C40_input['error'][k])
 
@@ -761,7 +761,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C50_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C50_input['month'] == grace_month)
+                k, = np.flatnonzero(C50_input['month'] == grace_month)
                 grace_Ylms['clm'][5,0,i] = np.copy(C50_input['data'][k])
                 grace_Ylms['eclm'][5,0,i] = np.copy(C50_input['error'][k])
 
@@ -790,7 +790,6 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 raise IOError(f'No Matching Geocenter Months ({gm})')
         # for each considered date
         for i,grace_month in enumerate(months):
-            k, = np.nonzero(DEG1_input.month == grace_month)
             count = np.count_nonzero(DEG1_input.month == grace_month)
             # Degree 1 is missing for particular month
             if (count == 0) and kwargs['MODEL_DEG1']:
@@ -799,6 +798,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 grace_Ylms['clm'][1,1,i] = np.copy(C11_model[i])
                 grace_Ylms['slm'][1,1,i] = np.copy(S11_model[i])
             else:# using coefficients from data file
+                k, = np.flatnonzero(DEG1_input.month == grace_month)
                 grace_Ylms['clm'][1,0,i] = np.copy(DEG1_input.C10[k])
                 grace_Ylms['clm'][1,1,i] = np.copy(DEG1_input.C11[k])
                 grace_Ylms['slm'][1,1,i] = np.copy(DEG1_input.S11[k])
-- 
2.43.0


From bfb76e149d05ec7a41f00f597b6e5b1d76950565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:19 +0000
Subject: [PATCH 071/161] fix: degree one files given as strings

---
 gravity_toolkit/grace_input_months.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index af70c8e..d047664 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -588,7 +588,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 f'TN-13_GEOC_{PROC}_{DREL}.txt')
             JPL = True
         # read degree one files from JPL GRACE Tellus
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_tellus(DEG1_file,JPL=JPL)
@@ -630,7 +630,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             '{0}_{1}_{2}_{3}.txt'.format(*args))
         # read degree one files from Sutterley and Velicogna (2019)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_UCI(DEG1_file)
@@ -641,7 +641,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             f'gad_gsm.{DREL}.txt')
         # read degree one files from Swenson et al. (2008)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_swenson(DEG1_file)
@@ -653,7 +653,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat')
         # read degree one files from GFZ GravIS
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_gravis(DEG1_file)
-- 
2.43.0


From ba1ce8358819076019ad7b186f266801ad5eb92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 072/161] fix: months of date files with a single line

---
 gravity_toolkit/grace_find_months.py  | 3 ++-
 gravity_toolkit/grace_months_index.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_find_months.py b/gravity_toolkit/grace_find_months.py
index 2105fb0..c190383 100644
--- a/gravity_toolkit/grace_find_months.py
+++ b/gravity_toolkit/grace_find_months.py
@@ -118,7 +118,8 @@ def grace_find_months(base_dir, PROC, DREL, DSET='GSM'):
     dtype = np.dtype({'names':names, 'formats':formats})
     # read GRACE/GRACE-FO date ascii file
     # skip the header row and extract dates (decimal format) and months
-    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype,
+        ndmin=1)
     # date info dictionary
     var_info = {}
     var_info['time'] = date_input['t']
diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 00531d7..135c5b9 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -123,7 +123,7 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
                 var_name = f'{pr}_{rl}'
                 # skip the header line
                 var_info[var_name] = np.loadtxt(grace_date_file,
-                    skiprows=1, dtype=dtype)
+                    skiprows=1, dtype=dtype, ndmin=1)
                 # Finding the maximum month measured
                 if (var_info[var_name]['mon'].max() > max_mon):
                     # if the maximum month in this dataset is greater
-- 
2.43.0


From 74f0ce1a3c002f424f2ab596fe1e8ad5bbf11db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 073/161] fix: atmospheric corrections truncated to order

---
 gravity_toolkit/grace_input_months.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index d047664..d87a862 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -894,8 +894,8 @@ def read_ecmwf_corrections(base_dir, LMAX, months, MMAX=None):
 
     # create output atmospheric corrections to be removed/added to data
     atm_corr = {}
-    atm_corr['clm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
-    atm_corr['slm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
+    atm_corr['clm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
+    atm_corr['slm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
     atm_corr['files'] = sorted(corr_file.values())
     # for each considered date
     for i,grace_month in enumerate(months):
-- 
2.43.0


From 5ae3f3e0b69dc30fb7afee95ee6ac7e0898ec877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 074/161] fix: index of months without a permissions mode

---
 gravity_toolkit/grace_months_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 135c5b9..85e510f 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -178,7 +178,8 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
     # close months file
     fid.close()
     # set the permissions level of the output file
-    grace_months_file.chmod(mode=MODE)
+    if MODE is not None:
+        grace_months_file.chmod(mode=MODE)
 
 # PURPOSE: create argument parser
 def arguments():
-- 
2.43.0


From 06eb7bcbf6e04e0aa735256b4e8a9d70c50e8731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:21 +0000
Subject: [PATCH 075/161] fix: laser ranging files with a single record

---
 gravity_toolkit/SLR/C20.py | 2 +-
 gravity_toolkit/SLR/C30.py | 2 +-
 gravity_toolkit/SLR/C40.py | 2 +-
 gravity_toolkit/SLR/C50.py | 2 +-
 gravity_toolkit/SLR/CS2.py | 4 ++--
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 8944f51..432bdf0 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -160,7 +160,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
         dtype['names'] = ('time','C20','delta','sigma','AOD','start','end')
         dtype['formats'] = ('f','f8','f','f','f','f','f')
         # header text is commented and won't be read
-        file_input = np.loadtxt(SLR_file, dtype=dtype)
+        file_input = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # date and GRACE/GRACE-FO month
         dinput['time'] = file_input['time']
         dinput['month'] = gravity_toolkit.time.calendar_to_grace(dinput['time'])
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 3cd9d3b..f808ad5 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -180,7 +180,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
             dinput[key] = val[:t]
     elif bool(re.search(r'C30_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file,skiprows=1)
+        LARES_input = np.loadtxt(SLR_file, skiprows=1, ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C30 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C30_MEAN
diff --git a/gravity_toolkit/SLR/C40.py b/gravity_toolkit/SLR/C40.py
index b1dd7ab..1c21c7f 100644
--- a/gravity_toolkit/SLR/C40.py
+++ b/gravity_toolkit/SLR/C40.py
@@ -97,7 +97,7 @@ def C40(SLR_file, C40_MEAN=0.0, DATE=None, **kwargs):
         dinput['error'] = np.zeros_like(DATE,dtype='f8')
     elif bool(re.search(r'C40_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file, skiprows=1)
+        LARES_input = np.loadtxt(SLR_file, skiprows=1, ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C40 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C40_MEAN
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index 53dff90..16dbe45 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -169,7 +169,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
         dinput['error'] = np.zeros_like(DATE,dtype='f8')
     elif bool(re.search(r'C50_LARES', SLR_file.name, re.I)):
         # read LARES filtered values
-        LARES_input = np.loadtxt(SLR_file, skiprows=1)
+        LARES_input = np.loadtxt(SLR_file, skiprows=1, ndmin=2)
         dinput['time'] = LARES_input[:,0].copy()
         # convert C50 from anomalies to absolute
         dinput['data'] = 1e-10*LARES_input[:,1] + C50_MEAN
diff --git a/gravity_toolkit/SLR/CS2.py b/gravity_toolkit/SLR/CS2.py
index 372fad2..ee75225 100644
--- a/gravity_toolkit/SLR/CS2.py
+++ b/gravity_toolkit/SLR/CS2.py
@@ -134,7 +134,7 @@ def CS2(SLR_file, ORDER=1, DATE=None, HEADER=True):
         # Column 1: Approximate mid-point of 7-day solution (years)
         # Column 2: Solution from SLR (normalized)
         # Column 3: Solution from SLR (normalized)
-        content = np.loadtxt(SLR_file, dtype=dtype)
+        content = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # duplicate time and harmonics
         tdec = np.repeat(content['time'],7)
         c2m = np.repeat(content['C2'],7)
@@ -199,7 +199,7 @@ def CS2(SLR_file, ORDER=1, DATE=None, HEADER=True):
         # Column 6: Mean value of Atmosphere-Ocean De-aliasing model (1E-10)
         # Column 7: Mean value of Atmosphere-Ocean De-aliasing model (1E-10)
         # Columns 8-9: Start and end dates of data used in solution
-        content = np.loadtxt(SLR_file, dtype=dtype)
+        content = np.loadtxt(SLR_file, dtype=dtype, ndmin=1)
         # date and GRACE/GRACE-FO month
         dinput['time'] = content['time'].copy()
         dinput['month'] = gravity_toolkit.time.calendar_to_grace(dinput['time'])
-- 
2.43.0


From 8ca5fd0f72f5a2f951140093a83797bbf4581bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 076/161] fix: averages of fields over JPL mascons

---
 gravity_toolkit/mascons.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 2a8f08c..cdf112b 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -160,7 +160,7 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
         mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
-            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J]/nlt)
+            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J])
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-- 
2.43.0


From b204a7849fce8e1559dba54775477fba0225712e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 077/161] fix: centers of GSFC mascons are left as they are

---
 gravity_toolkit/mascons.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index cdf112b..f5bf73b 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -63,6 +63,7 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
+    lon_center = np.array(lon_center)
     gt180, = np.nonzero(lon_center > 180)
     lon_center[gt180] -= 360.0
     # remove singleton dimensions
@@ -219,6 +220,7 @@ def from_gsfc(mscdata, grid_spacing, lon_center, lat_center, lon_span, lat_span,
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
+    lon_center = np.array(lon_center)
     gt180, = np.nonzero(lon_center > 180)
     lon_center[gt180] -= 360.0
 
-- 
2.43.0


From d16cdbd9ab32dd2c0a4ad30bede1dde2b1bfd3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:15 +0000
Subject: [PATCH 078/161] fix: errors of piecewise fits to data of known error

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index e234900..3f31f0d 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -311,7 +311,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         NORMEQ = np.dot(Hinv,np.transpose(DMAT))
         temp_err = np.zeros((n_terms))
         for i in range(0,n_terms):
-            temp_err[i] = np.sum((NORMEQ[i,:]*P_err)**2)
+            temp_err[i] = np.sqrt(np.sum((NORMEQ[i,:]*P_err)**2))
         # Recalculating beta2 error
         beta_err = np.copy(temp_err)
         beta_err[2] = np.sqrt(temp_err[1]**2 + temp_err[2]**2)
-- 
2.43.0


From d748b7c117cc465cef3253767808c18e2941aaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 079/161] fix: weighted fits with lists and arrays of errors

---
 gravity_toolkit/time_series/piecewise.py | 2 ++
 gravity_toolkit/time_series/regress.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 3f31f0d..362f7e0 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -209,6 +209,8 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         # Weighted Least-Squares fitting
         if (np.ndim(DATA_ERR) == 0):
             raise ValueError('Input DATA_ERR for Weighted Least-Squares')
+        # copy so that the input errors are left as they are
+        DATA_ERR = np.squeeze(np.array(DATA_ERR, dtype=np.float64))
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
diff --git a/gravity_toolkit/time_series/regress.py b/gravity_toolkit/time_series/regress.py
index bca9ecd..f05315e 100755
--- a/gravity_toolkit/time_series/regress.py
+++ b/gravity_toolkit/time_series/regress.py
@@ -220,6 +220,8 @@ def regress(t_in, d_in, ORDER=1, CYCLES=[0.5,1.0], TERMS=[],
         # Weighted Least-Squares fitting
         if (np.ndim(DATA_ERR) == 0):
             raise ValueError('Input DATA_ERR for Weighted Least-Squares')
+        # copy so that the input errors are left as they are
+        DATA_ERR = np.squeeze(np.array(DATA_ERR, dtype=np.float64))
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
-- 
2.43.0


From c765df7a4c111b1e10f5c2f98df98cda8c92332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 080/161] fix: piecewise fits stay continuous at the break time

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 362f7e0..7b1969f 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -192,7 +192,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         DMAT.append(t_in**o)
     # Linear Term 2 (change from linear term1: trend2 = beta1+beta2)
     P_x1 = np.zeros((nmax))
-    P_x1[nco:] = t_in[nco:] - tco
+    P_x1[nco:] = np.maximum(t_in[nco:] - tco, 0.0)
     DMAT.append(P_x1)
     # add cyclical terms (0.5=semi-annual, 1=annual)
     for c in CYCLES:
-- 
2.43.0


From 9c2616c6fb4031a3c7188e3b580dfa3e2fc5b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 081/161] fix: frequency range of Lomb-Scargle periodograms

---
 gravity_toolkit/time_series/lomb_scargle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/lomb_scargle.py b/gravity_toolkit/time_series/lomb_scargle.py
index f24c332..89589d6 100755
--- a/gravity_toolkit/time_series/lomb_scargle.py
+++ b/gravity_toolkit/time_series/lomb_scargle.py
@@ -116,7 +116,7 @@ def lomb_scargle(t_in, d_in, **kwargs):
     if kwargs['OMEGA']:
         OMEGA = np.atleast_1d(kwargs['OMEGA'])
     elif kwargs['FREQUENCY']:
-        OMEGA = np.atleast_1d(kwargs['FREQUENCY'])/(2.0*np.pi)
+        OMEGA = 2.0*np.pi*np.atleast_1d(kwargs['FREQUENCY'])
     elif kwargs['PERIOD']:
         OMEGA = (2.0*np.pi)/np.atleast_1d(kwargs['PERIOD'])
     else:
-- 
2.43.0


From e789edebd4926d52e88524e10648332920b16c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:27 +0000
Subject: [PATCH 082/161] fix: Savitzky-Golay filter with current numpy
 versions

---
 gravity_toolkit/time_series/savitzky_golay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/savitzky_golay.py b/gravity_toolkit/time_series/savitzky_golay.py
index a95e4a0..ccf8e23 100644
--- a/gravity_toolkit/time_series/savitzky_golay.py
+++ b/gravity_toolkit/time_series/savitzky_golay.py
@@ -123,10 +123,10 @@ def savitzky_golay(t_in, y_in, WINDOW=None, ORDER=2, DERIV=0,
     for n in range(0, (nmax-(2*half_window))):
         yran = y_in[n + np.arange(0, 2*half_window+1)]
         # Vandermonde matrix for the time-series
-        b = np.mat([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
+        b = np.array([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
             for k in range(n, n+2*half_window+1)])
         # compute the pseudoinverse of the design matrix
-        m=np.linalg.pinv(b).A[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
+        m=np.linalg.pinv(b)[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
         # pad the signal at the extremes with values taken from the signal
         firstvals = yran[0] - np.abs(yran[1:half_window+1][::-1] - yran[0])
         lastvals = yran[-1] + np.abs(yran[-half_window-1:-1][::-1] - yran[-1])
-- 
2.43.0


From dc3b2279db7c645777a86564fe2fbba244b324d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:33 +0000
Subject: [PATCH 083/161] fix: shifting a grid to its own starting longitude
 failed

---
 gravity_toolkit/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 36c93f0..a13f11d 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1155,20 +1155,22 @@ def shift_grid(lon0, data, lon, CYCLIC=360.0):
     """
     start_idx = 0 if (np.fabs(lon[-1]-lon[0]-CYCLIC) > 1.e-4) else 1
     i0 = np.argmin(np.fabs(lon-lon0))
+    # index of the start of the grid after shifting
+    i1 = len(lon) - i0
     # shift longitudinal values
     if np.ma.isMA(lon):
         shift_lon = np.ma.zeros(lon.shape,lon.dtype)
     else:
         shift_lon = np.zeros(lon.shape,lon.dtype)
-    shift_lon[0:-i0] = lon[i0:] - CYCLIC
-    shift_lon[-i0:] = lon[start_idx:i0+start_idx]
+    shift_lon[:i1] = lon[i0:] - CYCLIC
+    shift_lon[i1:] = lon[start_idx:i0+start_idx]
     # shift data values
     if np.ma.isMA(data):
         shift_data = np.ma.zeros(data.shape,data.dtype)
     else:
         shift_data = np.zeros(data.shape,data.dtype)
-    shift_data[:,:-i0] = data[:,i0:]
-    shift_data[:,-i0:] = data[:,start_idx:i0+start_idx]
+    shift_data[:,:i1] = data[:,i0:]
+    shift_data[:,i1:] = data[:,start_idx:i0+start_idx]
     # return the shifted values
     return (shift_data, shift_lon)
 
-- 
2.43.0


From b23c66213c03bfd90174e1521764ef47f986b1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:14 +0000
Subject: [PATCH 084/161] fix: creating a unique file never ended if the file
 could not be created

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 4c8c046..2f55c1a 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -398,7 +398,7 @@ def create_unique_file(filename: str | pathlib.Path):
         try:
             # open file descriptor only if the file doesn't exist
             fd = filename.open(mode='xb')
-        except OSError:
+        except FileExistsError:
             pass
         else:
             # return the file descriptor
-- 
2.43.0


From dd8217cf83cb89870953555c1b8912f751ced9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:15 +0000
Subject: [PATCH 085/161] fix: get_data_path returned nothing for pathlib paths

---
 gravity_toolkit/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 2f55c1a..2d13208 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -108,7 +108,7 @@ def get_data_path(relpath: list | str | pathlib.Path):
     if isinstance(relpath, list):
         # use *splat operator to extract from list
         return filepath.joinpath(*relpath)
-    elif isinstance(relpath, str):
+    elif isinstance(relpath, (str, pathlib.Path)):
         return filepath.joinpath(relpath)
 
 
-- 
2.43.0


From a88442b697373fd4d95369f477edc06af055a6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 086/161] fix: unix times depended on the local time zone or
 ignored UTC offsets

---
 gravity_toolkit/utilities.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 2d13208..bafb20a 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -299,13 +299,17 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # remove the offset from UTC (if the string has one)
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
     except (TypeError, ValueError):
         return None
     else:
+        # times without an offset are in UTC
+        if parsed_time.tzinfo is None:
+            parsed_time = parsed_time.replace(tzinfo=dateutil.tz.UTC)
         return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
-- 
2.43.0


From 7f600524abf26619e4f5cd310d3cd66ddad295f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 087/161] fix: CMR queries dropped the last page of granules
 and failed without results

---
 gravity_toolkit/utilities.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index bafb20a..906ce6b 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1717,7 +1717,7 @@ def cmr_filter_json(
     granule_mtimes = []
     # check that there are urls for request
     if ('feed' not in search_results) or ('entry' not in search_results['feed']):
-        return (granule_names,granule_urls)
+        return (granule_names,granule_urls,granule_mtimes)
     # descriptor links for each endpoint
     rel = {}
     rel['data'] = "http://esipfed.org/ns/fedsearch/1.1/data#"
@@ -1904,12 +1904,14 @@ def cmr(
         # read the CMR search as JSON
         search_page = json.loads(response.read().decode('utf8'))
         ids,urls,mtimes = cmr_filter_json(search_page, endpoint=endpoint)
-        if not urls or cmr_search_after is None:
-            break
         # extend lists
         granule_names.extend(ids)
         granule_urls.extend(urls)
         granule_mtimes.extend(mtimes)
+        # end the search if there are no further pages of results
+        entries = search_page.get('feed', {}).get('entry')
+        if not entries or cmr_search_after is None:
+            break
     # return the list of granule ids, urls and modification times
     return (granule_names, granule_urls, granule_mtimes)
 
-- 
2.43.0


From c7f07a4a2891f7b1f48d3772610c6c0b072d9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 088/161] fix: CMR granules without a link shifted the urls of
 all following granules

---
 gravity_toolkit/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 906ce6b..92f049e 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1724,11 +1724,11 @@ def cmr_filter_json(
     rel['s3'] = "http://esipfed.org/ns/fedsearch/1.1/s3#"
     # iterate over references and get cmr location
     for entry in search_results['feed']['entry']:
-        granule_names.append(entry['title'])
-        granule_mtimes.append(get_unix_time(entry['updated'],
-            format='%Y-%m-%dT%H:%M:%S.%f%z'))
         for link in entry['links']:
             if (link['rel'] == rel[endpoint]):
+                granule_names.append(entry['title'])
+                granule_mtimes.append(get_unix_time(entry['updated'],
+                    format='%Y-%m-%dT%H:%M:%S.%f%z'))
                 granule_urls.append(link['href'])
                 break
     # return the list of urls, granule ids and modified times
-- 
2.43.0


From 31debcec294977faf7cc1f43db0183e2d3cfeff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 089/161] fix: truncated downloads replaced local files

---
 gravity_toolkit/utilities.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 92f049e..3609c9d 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -798,6 +798,11 @@ def from_http(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # verify that the complete file was transferred
+        length = response.headers.get('Content-Length')
+        if length and (remote_buffer.tell() != int(length)):
+            msg = 'Incomplete download from {0}'
+            raise Exception(msg.format(posixpath.join(*HOST)))
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
@@ -1498,6 +1503,11 @@ def from_drive(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # verify that the complete file was transferred
+        length = response.headers.get('Content-Length')
+        if length and (remote_buffer.tell() != int(length)):
+            msg = 'Incomplete download from {0}'
+            raise Exception(msg.format(posixpath.join(*HOST)))
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
-- 
2.43.0


From 4b58047fb5dc9eb972e86eb35f9485000a07044e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 090/161] fix: retrying a login failed if the first password
 was not typed

---
 gravity_toolkit/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 3609c9d..85e95dd 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -948,6 +948,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From f357a818785cda8aef6582fd949fda909cae70da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 091/161] fix: convert_harmonics could not write ascii files

---
 scripts/convert_harmonics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index bc9b97a..ff7865c 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -204,7 +204,8 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
         # append to list
         Ylms_list.append(output_Ylms)
     # convert Ylms list for output spherical harmonics
-    Ylms = gravtk.harmonics().from_list(Ylms_list, date=DATE, clear=True)
+    Ylms = gravtk.harmonics().from_list(Ylms_list, date=DATE,
+        clear=True).squeeze()
     # copy attribute to output harmonics
     Ylms.attributes['ROOT'] = copy.copy(attributes)
 
-- 
2.43.0


From 159ed589ea936432988414cb19011ddb866de5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 092/161] fix: combine_harmonics failed for a maximum order
 below the maximum degree

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 17df8b3..825a42b 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -282,7 +282,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,t] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
 
     # outputting data to file
     grid.squeeze().to_file(filename=OUTPUT_FILE, format=dataform,
-- 
2.43.0


From ba85e580b87c76451517e7e7c3cdd5d5d3200e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 093/161] fix: combine_harmonics failed for files without dates

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 825a42b..c1a958a 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -226,7 +226,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
     grid = gravtk.spatial()
     grid.time = np.copy(input_Ylms.time)
     grid.month = np.copy(input_Ylms.month)
-    nt = len(input_Ylms.time)
+    nt = input_Ylms.shape[-1]
 
     # Output Degree Spacing
     dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
-- 
2.43.0


From eed0eff123de9d8582146b9b1d8021c5e17cb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 094/161] fix: combine_harmonics could not remove a mean from
 files in an index

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index c1a958a..2dc5aed 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -182,7 +182,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
     # remove mean file from input Ylms
     if MEAN_FILE:
         mean_Ylms = gravtk.harmonics().from_file(MEAN_FILE,
-            format=DATAFORM, date=False)
+            format=dataform, date=False)
         input_Ylms.subtract(mean_Ylms)
 
     # read arrays of kl, hl, and ll Love Numbers
-- 
2.43.0


From db16fc4e6f0dc53bbaef89485194f4497b0929c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 095/161] fix: maps failed when removing fields from a file

---
 scripts/grace_raster_grids.py | 2 +-
 scripts/grace_spatial_maps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index af4db8e..7f7e184 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -363,7 +363,7 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['ROOT']['lineage'].append(Ylms.name)
+                attributes['ROOT']['lineage'].append(pathlib.Path(REMOVE_FILE).name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index ea65903..62befcd 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -370,7 +370,7 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 # HDF5 (.H5)
                 Ylms = gravtk.harmonics().from_file(REMOVE_FILE,
                     format=REMOVEFORM)
-                attributes['lineage'].append(Ylms.name)
+                attributes['lineage'].append(pathlib.Path(REMOVE_FILE).name)
             elif REMOVEFORM in ('index-ascii','index-netCDF4','index-HDF5'):
                 # read from index file
                 _,removeform = REMOVEFORM.split('-')
-- 
2.43.0


From 47169023a071c95dc2341334841136b2c82849a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:33 +0000
Subject: [PATCH 096/161] fix: scaled maps failed when removing fields

---
 scripts/scale_grace_maps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 3f29117..03a7fc1 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -324,6 +324,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         POLE_TIDE=POLE_TIDE)
     # create harmonics object from GRACE/GRACE-FO data
     GRACE_Ylms = gravtk.harmonics().from_dict(Ylms)
+    # full path to directory for specific GRACE/GRACE-FO product
+    directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
     # use a mean file for the static field to remove
     if MEAN_FILE:
         # read data form for input mean file (ascii, netCDF4, HDF5, gfc)
@@ -408,7 +410,7 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     fargs = (PROC,DREL,DSET,LMAX,order_str,ds_str,atm_str,GRACE_Ylms.month[0],
         GRACE_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
-    GRACE_Ylms.directory = pathlib.Path(Ylms['directory']).expanduser().absolute()
+    GRACE_Ylms.directory = directory
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
-- 
2.43.0


From 87b3d5ca70dbe2315ff254194219fc6d80db5295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:33 +0000
Subject: [PATCH 097/161] fix: grace_spatial_error could not write ascii files

---
 scripts/grace_spatial_error.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index f20672b..efa0541 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -447,6 +447,7 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
 
     # Multiplying by c/s(phi#m) to get spatial maps (lon,lat)
     delta.data = np.sqrt(np.dot(ccos.T,d_cos) + np.dot(ssin.T,d_sin)).T
+    delta.mask = np.zeros_like(delta.data, dtype=bool)
 
     # output file format
     file_format = '{0}{1}_L{2:d}{3}{4}{5}_ERR_{6:03d}-{7:03d}.{8}'
-- 
2.43.0


From bd52195cc97caa25ad76094dbe8fe36a85a31421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 098/161] fix: convert_harmonics transposed grids with as many
 rows as columns

---
 scripts/convert_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/convert_harmonics.py b/scripts/convert_harmonics.py
index ff7865c..0daf420 100644
--- a/scripts/convert_harmonics.py
+++ b/scripts/convert_harmonics.py
@@ -194,7 +194,7 @@ def convert_harmonics(INPUT_FILE, OUTPUT_FILE,
     Ylms_list = []
     for i,spatial_data in enumerate(input_spatial):
         # convert spatial field to spherical harmonics
-        output_Ylms = gravtk.gen_stokes(spatial_data.data.T,
+        output_Ylms = gravtk.gen_stokes(spatial_data.data,
             spatial_data.lon, spatial_data.lat, UNITS=UNITS,
             LMIN=0, LMAX=LMAX, MMAX=MMAX, PLM=PLM, LOVE=LOVE)
         # calculate date information
-- 
2.43.0


From b869b08ed6f1a3068491ceb6f0ad2b30a3bdd763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 099/161] fix: stored errors in ascii files were scaled with a
 month number

---
 scripts/calc_mascon.py            | 17 +++++++++++------
 scripts/grace_spatial_error.py    | 19 ++++++++++++-------
 scripts/monte_carlo_degree_one.py | 17 +++++++++++------
 scripts/scale_grace_maps.py       | 17 +++++++++++------
 4 files changed, 45 insertions(+), 25 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 48f7dd7..f1bce17 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -526,6 +526,12 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
         GRACE_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -537,12 +543,6 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -583,6 +583,11 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
         nsmth = np.int64(delta_Ylms.month)
+        # ascii files do not contain the number of smoothed points
+        if (DATAFORM == 'ascii'):
+            smth = gravtk.time_series.smooth(GRACE_Ylms.time,
+                GRACE_Ylms.clm[0,0,:], HFWTH=HFWTH)
+            nsmth = len(smth['data'])
 
     # Calculating the number of cos and sin harmonics between LMIN and LMAX
     # taking into account MMAX (if MMAX == LMAX then LMAX-MMAX=0)
diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index efa0541..c22345d 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -313,6 +313,13 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         GRACE_Ylms.month[-1],suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # 365/10/2 = 18.25 (next highest is 19)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -324,13 +331,6 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # 365/10/2 = 18.25 (next highest is 19)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -371,6 +371,11 @@ def grace_spatial_error(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
         nsmth = np.int64(delta_Ylms.month)
+        # ascii files do not contain the number of smoothed points
+        if (DATAFORM == 'ascii'):
+            smth = gravtk.time_series.smooth(GRACE_Ylms.time,
+                GRACE_Ylms.clm[0,0,:], HFWTH=HFWTH)
+            nsmth = len(smth['data'])
 
     # Output spatial data object
     delta = gravtk.spatial()
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 7ecb2b6..767d6cb 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -520,6 +520,12 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         GSM_Ylms.month[-1], suffix[DATAFORM])
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     DELTA_FILE = GSM_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -531,12 +537,6 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -577,6 +577,11 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
         nsmth = np.int64(delta_Ylms.month)
+        # ascii files do not contain the number of smoothed points
+        if (DATAFORM == 'ascii'):
+            smth = gravtk.time_series.smooth(tdec,
+                GSM_Ylms.clm[0,0,:], HFWTH=HFWTH)
+            nsmth = len(smth['data'])
 
     # Calculating cos/sin of phi arrays
     # output [m,phi]
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index 03a7fc1..cc8a2b6 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -412,6 +412,12 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
     delta_format = '{0}_{1}_{2}_DELTA_CLM_L{3:d}{4}{5}{6}_{7:03d}-{8:03d}.{9}'
     GRACE_Ylms.directory = directory
     DELTA_FILE = GRACE_Ylms.directory.joinpath(delta_format.format(*fargs))
+    # Smoothing Half-Width (CNES is a 10-day solution)
+    # All other solutions are monthly solutions (HFWTH for annual = 6)
+    if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
+        HFWTH = 19
+    else:
+        HFWTH = 6
     # check full path of the GRACE directory for delta file
     # if file was previously calculated: will read file
     # else: will calculate the GRACE/GRACE-FO error
@@ -423,12 +429,6 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = gravtk.harmonics(lmax=LMAX, mmax=MMAX)
         delta_Ylms.clm = np.zeros((LMAX+1, MMAX+1))
         delta_Ylms.slm = np.zeros((LMAX+1, MMAX+1))
-        # Smoothing Half-Width (CNES is a 10-day solution)
-        # All other solutions are monthly solutions (HFWTH for annual = 6)
-        if ((PROC == 'CNES') and (DREL in ('RL01','RL02'))):
-            HFWTH = 19
-        else:
-            HFWTH = 6
         # Equal to the noise of the smoothed time-series
         # for each spherical harmonic order
         for m in range(0,MMAX+1):# MMAX+1 to include MMAX
@@ -469,6 +469,11 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
         delta_Ylms = delta_Ylms.truncate(lmax=LMAX, mmax=MMAX)
         tsmth = np.squeeze(delta_Ylms.time)
         nsmth = np.int64(delta_Ylms.month)
+        # ascii files do not contain the number of smoothed points
+        if (DATAFORM == 'ascii'):
+            smth = gravtk.time_series.smooth(GRACE_Ylms.time,
+                GRACE_Ylms.clm[0,0,:], HFWTH=HFWTH)
+            nsmth = len(smth['data'])
 
     # Output spatial data object
     grid = gravtk.spatial()
-- 
2.43.0


From fbdac096971b31c84aafdf6e87f4595267075873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:51 +0000
Subject: [PATCH 100/161] fix: fields could not be removed from a single month

---
 scripts/calc_mascon.py        | 3 ++-
 scripts/grace_raster_grids.py | 3 ++-
 scripts/grace_spatial_maps.py | 3 ++-
 scripts/scale_grace_maps.py   | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index f1bce17..1c1650f 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -431,7 +431,8 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 Ylms = gravtk.harmonics().from_index(REMOVE_FILE,
                     format=removeform)
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.expand_dims().subset(GRACE_Ylms.month).truncate(
+                lmax=LMAX, mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index 7f7e184..7b9b70d 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -372,7 +372,8 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
                     format=removeform)
                 attributes['ROOT']['lineage'].extend([f.name for f in Ylms.filename])
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.expand_dims().subset(GRACE_Ylms.month).truncate(
+                lmax=LMAX, mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index 62befcd..c2b44ce 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -379,7 +379,8 @@ def grace_spatial_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                     format=removeform)
                 attributes['lineage'].extend([f.name for f in Ylms.filename])
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.expand_dims().subset(GRACE_Ylms.month).truncate(
+                lmax=LMAX, mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index cc8a2b6..aa822b2 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -384,7 +384,8 @@ def scale_grace_maps(base_dir, PROC, DREL, DSET, LMAX, RAD,
                 Ylms = gravtk.harmonics().from_index(REMOVE_FILE,
                     format=removeform)
             # reduce to GRACE/GRACE-FO months and truncate to degree and order
-            Ylms = Ylms.subset(GRACE_Ylms.month).truncate(lmax=LMAX,mmax=MMAX)
+            Ylms = Ylms.expand_dims().subset(GRACE_Ylms.month).truncate(
+                lmax=LMAX, mmax=MMAX).expand_dims()
             # distribute removed Ylms uniformly over the ocean
             if REDISTRIBUTE_REMOVED:
                 # calculate ratio between total removed mass and
-- 
2.43.0


From 8c2225bd0463252906f915a4409975d6b5397129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 101/161] fix: regression of regional maps failed for ascii
 files

---
 scripts/piecewise_grace_maps.py | 5 ++++-
 scripts/regress_grace_maps.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index f936dc1..622a83d 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -171,6 +171,8 @@ def piecewise_grace_maps(LMAX, RAD,
 
     # Output Degree Spacing
     dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
+    # grid bounds for reading non-global ascii files
+    extent = [None]*4
     # Output Degree Interval
     if (INTERVAL == 1):
         # (-180:180,90:-90)
@@ -187,6 +189,7 @@ def piecewise_grace_maps(LMAX, RAD,
         lat = np.arange(maxlat-dlat/2.0, minlat-dlat/2.0, -dlat)
         nlon = len(lon)
         nlat = len(lat)
+        extent = [lon[0], lon[-1], lat[-1], lat[0]]
 
     # input data spatial object
     spatial_list = []
@@ -197,7 +200,7 @@ def piecewise_grace_maps(LMAX, RAD,
         input_file = OUTPUT_DIRECTORY.joinpath(input_format.format(*fargs))
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
-            dinput = gravtk.spatial().from_ascii(input_file,
+            dinput = gravtk.spatial().from_ascii(input_file, extent=extent,
                 spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 62be313..1864af5 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -170,6 +170,8 @@ def regress_grace_maps(LMAX, RAD,
 
     # Output Degree Spacing
     dlon,dlat = (DDEG[0],DDEG[0]) if (len(DDEG) == 1) else (DDEG[0],DDEG[1])
+    # grid bounds for reading non-global ascii files
+    extent = [None]*4
     # Output Degree Interval
     if (INTERVAL == 1):
         # (-180:180,90:-90)
@@ -186,6 +188,7 @@ def regress_grace_maps(LMAX, RAD,
         lat = np.arange(maxlat-dlat/2.0, minlat-dlat/2.0, -dlat)
         nlon = len(lon)
         nlat = len(lat)
+        extent = [lon[0], lon[-1], lat[-1], lat[0]]
 
     # input data spatial object
     spatial_list = []
@@ -196,7 +199,7 @@ def regress_grace_maps(LMAX, RAD,
         input_file = OUTPUT_DIRECTORY.joinpath(input_format.format(*fargs))
         # read GRACE/GRACE-FO spatial file
         if (DATAFORM == 'ascii'):
-            dinput = gravtk.spatial().from_ascii(input_file,
+            dinput = gravtk.spatial().from_ascii(input_file, extent=extent,
                 spacing=[dlon,dlat], nlon=nlon, nlat=nlat)
         elif (DATAFORM == 'netCDF4'):
             # netcdf (.nc)
-- 
2.43.0


From 22dfee5ca262e0aa25bee4faea0f8701504a6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 102/161] fix: regression maps of tidal aliasing terms listed
 first were mislabeled

---
 scripts/piecewise_grace_maps.py | 3 +++
 scripts/regress_grace_maps.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 622a83d..0d12341 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -242,6 +242,9 @@ def piecewise_grace_maps(LMAX, RAD,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # tidal aliasing terms are fit after the cyclical terms
+    CYCLES = sorted(CYCLES, key=lambda c: np.any(np.isclose(c,
+        np.array(list(tidal_aliasing.values()))/365.25)))
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index 1864af5..a9222d9 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -242,6 +242,9 @@ def regress_grace_maps(LMAX, RAD,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # tidal aliasing terms are fit after the cyclical terms
+    CYCLES = sorted(CYCLES, key=lambda c: np.any(np.isclose(c,
+        np.array(list(tidal_aliasing.values()))/365.25)))
     # extra terms for tidal aliasing components or custom fits
     TERMS = []
     term_index = []
-- 
2.43.0


From c83b494810763bbc9e608437a152ed8f007999ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 103/161] fix: mascon fits as geoid coefficients used one
 coefficient for every row

---
 scripts/calc_mascon.py             | 2 +-
 scripts/calc_sensitivity_kernel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 1c1650f..0705480 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -661,7 +661,7 @@ def calc_mascon(base_dir, PROC, DREL, DSET, LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
 
     # Fitting the sensitivity kernel from the input kernel
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index f3563e2..e49d5e9 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -337,7 +337,7 @@ def calc_sensitivity_kernel(LMAX, RAD,
     elif (FIT_METHOD == 2):
         # Fitting Sensitivity Kernel as geoid coefficients
         for i in range(n_harm):
-            MA_lm[:,:] = M_lm[i,:]*wt_lm[i]
+            MA_lm[i,:] = M_lm[i,:]*wt_lm[i]
         fit_factor = wt_lm*np.ones((n_harm))
         inv_fit_factor = np.ones((n_harm))
 
-- 
2.43.0


From 202e5843470e7a166ccbab8c4d9d1e3c5bb1ad01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 104/161] fix: mascons of a single month could not be
 reconstructed

---
 scripts/mascon_reconstruct.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/mascon_reconstruct.py b/scripts/mascon_reconstruct.py
index 78ab550..73c69ce 100644
--- a/scripts/mascon_reconstruct.py
+++ b/scripts/mascon_reconstruct.py
@@ -243,7 +243,8 @@ def mascon_reconstruct(DSET, LMAX, RAD,
         args = (mascon_name,dset_str,gia_str.upper(),atm_str,ocean_str,
             LMAX,order_str,gw_str,ds_str)
         file_input = '{0}{1}{2}{3}{4}_L{5:d}{6}{7}{8}.txt'.format(*args)
-        mascon_data_input = np.loadtxt(OUTPUT_DIRECTORY.joinpath(file_input))
+        mascon_data_input = np.loadtxt(
+            OUTPUT_DIRECTORY.joinpath(file_input), ndmin=2)
 
         # convert mascon time-series from Gt to cmwe
         mascon_sigma = 1e15*mascon_data_input[:,2]/total_area
-- 
2.43.0


From 35cc9d94dbe5f941aaca410233f6296356dd1ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 105/161] fix: oblateness of 3-hour dealiasing fields dropped
 half of the epochs

---
 scripts/aod1b_oblateness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/aod1b_oblateness.py b/scripts/aod1b_oblateness.py
index 047d2ca..edf71f8 100644
--- a/scripts/aod1b_oblateness.py
+++ b/scripts/aod1b_oblateness.py
@@ -229,7 +229,7 @@ def aod1b_oblateness(base_dir,
                 # close the input file for day
                 fid.close()
                 # write to file for each hour
-                for h in range(4):
+                for h in range(n_time):
                     print(fstr.format(YY,MM,DD,hours[h],C20[h]),file=f)
 
             # close the tar file
-- 
2.43.0


From 88478e5b928b1f7fc7509f65f2068baa18a33d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 106/161] fix: dealiasing date files rounded times to single
 precision

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index d597675..d371181 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -168,7 +168,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
     grace_date_file = f'{PROC}_{DREL}_DATES.txt'
     # names and formats of GRACE/GRACE-FO date ascii file
     names = ('t','mon','styr','stday','endyr','endday','total')
-    formats = ('f','i','i','i','i','i','i')
+    formats = ('f8','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     input_date_file = grace_dir.joinpath('GSM', grace_date_file)
     date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype)
-- 
2.43.0


From 5fddaf4fb4b14469855df59d976cbed2e60d2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 107/161] fix: dealiasing products failed for a single month of
 data

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index d371181..2c3cafd 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -171,7 +171,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
     formats = ('f8','i','i','i','i','i','i')
     dtype = np.dtype({'names':names, 'formats':formats})
     input_date_file = grace_dir.joinpath('GSM', grace_date_file)
-    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(input_date_file, skiprows=1, dtype=dtype, ndmin=1)
     tdec = date_input['t']
     grace_month = date_input['mon']
     start_yr = date_input['styr']
-- 
2.43.0


From fe3c52c191ecc233422ef5dfba35f40d248309cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:40 +0000
Subject: [PATCH 108/161] fix: dealiasing products failed for periods over the
 end of a year

---
 scripts/dealiasing_monthly_mean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/dealiasing_monthly_mean.py b/scripts/dealiasing_monthly_mean.py
index 2c3cafd..c8dbd02 100755
--- a/scripts/dealiasing_monthly_mean.py
+++ b/scripts/dealiasing_monthly_mean.py
@@ -191,7 +191,7 @@ def dealiasing_monthly_mean(base_dir, PROC=None, DREL=None, DSET=None,
         # check if GRACE/GRACE-FO month crosses years
         if (start_yr[t] != end_yr[t]):
             # check if start_yr is a Leap Year or Standard Year
-            dpy = gravtk.time.calendar_days(start_yr[t]).sum()
+            dpy = int(gravtk.time.calendar_days(start_yr[t]).sum())
             # list of Julian Days to read from both start and end year
             julian_days_to_read = []
             # add days to read from start and end years
-- 
2.43.0


From 00fc2078a44c775bb859c114dbd539716505d4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:37 +0000
Subject: [PATCH 109/161] fix: interrupted transfers left incomplete files that
 were never synced again

---
 scripts/esa_costg_swarm_sync.py    |  4 +++-
 scripts/gfz_icgem_costg_ftp.py     |  6 +++++-
 scripts/gfz_isdc_dealiasing_ftp.py |  6 +++++-
 scripts/gfz_isdc_grace_ftp.py      |  6 +++++-
 scripts/itsg_graz_grace_sync.py    |  5 ++++-
 scripts/podaac_cumulus.py          | 13 +++++++++----
 6 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/scripts/esa_costg_swarm_sync.py b/scripts/esa_costg_swarm_sync.py
index 2f9a696..4832fa7 100644
--- a/scripts/esa_costg_swarm_sync.py
+++ b/scripts/esa_costg_swarm_sync.py
@@ -204,9 +204,11 @@ def http_pull_file(remote_file, remote_mtime, local_file, TIMEOUT=120,
                 request = gravtk.utilities.urllib2.Request(remote_file)
                 response = gravtk.utilities.urllib2.urlopen(request,
                     timeout=TIMEOUT)
+                # read the complete file before replacing the local file
+                remote_buffer = io.BytesIO(response.read())
                 # copy remote file contents to local file
                 with local_file.open(mode='wb') as f:
-                    shutil.copyfileobj(response, f, CHUNK)
+                    shutil.copyfileobj(remote_buffer, f, CHUNK)
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_icgem_costg_ftp.py b/scripts/gfz_icgem_costg_ftp.py
index 9b7b0e8..0055e5d 100644
--- a/scripts/gfz_icgem_costg_ftp.py
+++ b/scripts/gfz_icgem_costg_ftp.py
@@ -47,6 +47,7 @@ UPDATE HISTORY:
 """
 from __future__ import print_function
 
+import io
 import sys
 import os
 import re
@@ -213,9 +214,12 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
             else:
                 # path to remote file
                 remote_file = posixpath.join(*remote_path[1:])
+                # read the complete file before replacing the local file
+                remote_buffer = io.BytesIO()
+                ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
                 # copy remote file contents to local file
                 with local_file.open(mode='wb') as f:
-                    ftp.retrbinary(f'RETR {remote_file}', f.write)
+                    f.write(remote_buffer.getvalue())
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_isdc_dealiasing_ftp.py b/scripts/gfz_isdc_dealiasing_ftp.py
index 73394d0..d5d6f43 100644
--- a/scripts/gfz_isdc_dealiasing_ftp.py
+++ b/scripts/gfz_isdc_dealiasing_ftp.py
@@ -48,6 +48,7 @@ UPDATE HISTORY:
 """
 from __future__ import print_function
 
+import io
 import sys
 import os
 import re
@@ -181,9 +182,12 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
         remote_ftp_url = posixpath.join('ftp://',*remote_path)
         logging.info(f'{remote_ftp_url} -->')
         logging.info(f'\t{local_file}{OVERWRITE}\n')
+        # read the complete file before replacing the local file
+        remote_buffer = io.BytesIO()
+        ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
         # copy remote file contents to local file
         with local_file.open(mode='wb') as f:
-            ftp.retrbinary(f'RETR {remote_file}', f.write)
+            f.write(remote_buffer.getvalue())
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
diff --git a/scripts/gfz_isdc_grace_ftp.py b/scripts/gfz_isdc_grace_ftp.py
index f8a9187..cfa47b9 100644
--- a/scripts/gfz_isdc_grace_ftp.py
+++ b/scripts/gfz_isdc_grace_ftp.py
@@ -65,6 +65,7 @@ UPDATE HISTORY:
 """
 from __future__ import print_function
 
+import io
 import sys
 import os
 import re
@@ -334,9 +335,12 @@ def ftp_mirror_file(ftp,remote_path,remote_mtime,local_file,
             else:
                 # path to remote file
                 remote_file = posixpath.join(*remote_path[1:])
+                # read the complete file before replacing the local file
+                remote_buffer = io.BytesIO()
+                ftp.retrbinary(f'RETR {remote_file}', remote_buffer.write)
                 # copy remote file contents to local file
                 with local_file.open(mode='wb') as f:
-                    ftp.retrbinary(f'RETR {remote_file}', f.write)
+                    f.write(remote_buffer.getvalue())
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/itsg_graz_grace_sync.py b/scripts/itsg_graz_grace_sync.py
index c765a4c..cfc7d1a 100755
--- a/scripts/itsg_graz_grace_sync.py
+++ b/scripts/itsg_graz_grace_sync.py
@@ -48,6 +48,7 @@ UPDATE HISTORY:
 """
 from __future__ import print_function
 
+import io
 import sys
 import os
 import re
@@ -205,10 +206,12 @@ def http_pull_file(remote_file,remote_mtime,local_file,
                 timeout=TIMEOUT)
             # chunked transfer encoding size
             CHUNK = 16 * 1024
+            # read the complete file before replacing the local file
+            remote_buffer = io.BytesIO(response.read())
             # copy contents to local file using chunked transfer encoding
             # transfer should work properly with ascii and binary data formats
             with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response, f, CHUNK)
+                shutil.copyfileobj(remote_buffer, f, CHUNK)
             # keep remote modification time of file and local access time
             os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
             local_file.chmod(mode=MODE)
diff --git a/scripts/podaac_cumulus.py b/scripts/podaac_cumulus.py
index 8942606..95da6c9 100644
--- a/scripts/podaac_cumulus.py
+++ b/scripts/podaac_cumulus.py
@@ -71,6 +71,7 @@ UPDATE HISTORY:
 """
 from __future__ import print_function
 
+import io
 import sys
 import os
 import re
@@ -330,13 +331,15 @@ def http_pull_file(remote_file, remote_mtime, local_file,
         request = gravtk.utilities.urllib2.Request(remote_file)
         response = gravtk.utilities.urllib2.urlopen(request,
             timeout=TIMEOUT)
+        # read the complete file before replacing the local file
+        remote_buffer = io.BytesIO(response.read())
         # copy remote file contents to local file
         if GZIP:
             with gzip.GzipFile(local_file, 'wb', 9, None, remote_mtime) as f:
-                shutil.copyfileobj(response, f)
+                shutil.copyfileobj(remote_buffer, f)
         else:
             with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response, f, CHUNK)
+                shutil.copyfileobj(remote_buffer, f, CHUNK)
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
@@ -367,13 +370,15 @@ def s3_pull_file(response, remote_mtime, local_file,
         logging.info(f'{str(local_file)}{OVERWRITE}')
         # chunked transfer encoding size
         CHUNK = 16 * 1024
+        # read the complete file before replacing the local file
+        remote_buffer = io.BytesIO(response['Body'].read())
         # copy remote file contents to local file
         if GZIP:
             with gzip.GzipFile(local_file, 'wb', 9, None, remote_mtime) as f:
-                shutil.copyfileobj(response['Body'], f)
+                shutil.copyfileobj(remote_buffer, f)
         else:
             with local_file.open(mode='wb') as f:
-                shutil.copyfileobj(response['Body'], f, CHUNK)
+                shutil.copyfileobj(remote_buffer, f, CHUNK)
         # keep remote modification time of file and local access time
         os.utime(local_file, (local_file.stat().st_atime, remote_mtime))
         local_file.chmod(mode=MODE)
-- 
2.43.0


From f780e54a13de1fe20d394c5feeec36bca2f8aceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:49 +0000
Subject: [PATCH 110/161] fix: interrupted transfers left incomplete monthly
 tar files

---
 scripts/gfz_isdc_dealiasing_ftp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/gfz_isdc_dealiasing_ftp.py b/scripts/gfz_isdc_dealiasing_ftp.py
index d5d6f43..96dfe1d 100644
--- a/scripts/gfz_isdc_dealiasing_ftp.py
+++ b/scripts/gfz_isdc_dealiasing_ftp.py
@@ -122,7 +122,8 @@ def gfz_isdc_dealiasing_ftp(base_dir, DREL, YEAR=None, MONTHS=None, TAR=False,
             # if compressing into monthly tar files
             if TAR and (file_count > 0) and (TEST or CLOBBER):
                 # copy each gzip file and store within monthly tar files
-                tar = tarfile.open(name=local_tar_file, mode='w:gz')
+                tar_buffer = io.BytesIO()
+                tar = tarfile.open(fileobj=tar_buffer, mode='w:gz')
                 for fi,remote_mtime in zip(remote_files,remote_mtimes):
                     # remote version of each input file
                     remote = [ftp.host,'grace','Level-1B','GFZ','AOD',DREL,Y,fi]
@@ -135,8 +136,10 @@ def gfz_isdc_dealiasing_ftp(base_dir, DREL, YEAR=None, MONTHS=None, TAR=False,
                     tar_info.mtime = remote_mtime
                     tar_info.size = remote_buffer.getbuffer().nbytes
                     tar.addfile(tarinfo=tar_info, fileobj=remote_buffer)
-                # close tar file and set permissions level to MODE
+                # write the complete tar file and set permissions level to MODE
                 tar.close()
+                with local_tar_file.open(mode='wb') as f:
+                    f.write(tar_buffer.getvalue())
                 logging.info(f' --> {local_tar_file}\n')
                 local_tar_file.chmod(mode=MODE)
             elif (file_count > 0) and not TAR:
-- 
2.43.0


From acaf5d6ead56d5206fb708f5716ef6b885892c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:55 +0000
Subject: [PATCH 111/161] fix: cnes_grace_sync failed without a log file

---
 scripts/cnes_grace_sync.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/cnes_grace_sync.py b/scripts/cnes_grace_sync.py
index 00232e1..f0b2a92 100755
--- a/scripts/cnes_grace_sync.py
+++ b/scripts/cnes_grace_sync.py
@@ -179,6 +179,7 @@ def cnes_grace_sync(DIRECTORY, DREL=[], TIMEOUT=None, LOG=False,
         logging.info(f'CNES Sync Log ({today})')
     else:
         # standard output (terminal output)
+        fid1 = sys.stdout
         logging.basicConfig(level=logging.INFO)
 
     # DATA RELEASES (RL01, RL02, RL03, RL04)
-- 
2.43.0


From bac64ce7d489a4556c5377becc8bcc0c17074732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 112/161] fix: atmospheric corrections could not be read with a
 directory name as documented

---
 gravity_toolkit/grace_input_months.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index d87a862..d2768f2 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -855,6 +855,8 @@ def read_ecmwf_corrections(base_dir, LMAX, months, MMAX=None):
     files: list
         atmospheric correction files
     """
+    # directory setup
+    base_dir = pathlib.Path(base_dir).expanduser().absolute()
     # correction files
     corr_file = {}
     corr_file['GAE'] = 'TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz'
-- 
2.43.0


From a6156ae1cd8b9c01fb845128919e977db8ebe8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 113/161] fix: monte carlo geocenter failed without an existing
 output directory

---
 scripts/monte_carlo_degree_one.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 767d6cb..9c6db64 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -360,6 +360,8 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
 
     # output directory
     DIRECTORY = base_dir.joinpath('geocenter')
+    # create output directory if currently non-existent
+    DIRECTORY.mkdir(mode=MODE, parents=True, exist_ok=True)
     # list object of output files for file logs (full path)
     output_files = []
 
-- 
2.43.0


From 087aa59ce08a961c948c1f5a619652e58e70b79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 114/161] fix: degree one with an external ocean model always
 failed

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index bf0f538..b7c0527 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -620,7 +620,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
         # removing the mean of the ecco spherical harmonic coefficients
         OBP_Ylms.mean(apply=True)
         # converting ecco degree 1 harmonics to coefficients of mass
-        OBP = gravtk.geocenter.from_harmonics(OBP_Ylms).scale(dfactor[1])
+        OBP = gravtk.geocenter().from_harmonics(OBP_Ylms).scale(dfactor[1])
 
     # Calculating cos/sin of phi arrays
     # output [m,phi]
-- 
2.43.0


From cdb8fcd293e963a2df91a172324a19556c9b8ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 115/161] fix: dealiasing part of degree one was normalized
 twice

---
 scripts/calc_degree_one.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index b7c0527..50f10d0 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -967,9 +967,9 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     nc['AOD'] = {}
     g1 = fileID.createGroup('AOD')
     g1.description = f'Atmospheric and oceanic dealiasing'
-    gac = GAC.scale(1.0/dfactor[1])
-    for key in gac.fields:
-        var = gac.get(key)
+    # (coefficients are already fully normalized)
+    for key in GAC.fields:
+        var = GAC.get(key)
         nc['AOD'][key] = g1.createVariable(key, var.dtype,
             ('time',), zlib=True)
         nc['AOD'][key][:] = var[:]
-- 
2.43.0


From b96b4d44b0e1736d2135f3b2dfc8e8caba24adbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:32 +0000
Subject: [PATCH 116/161] fix: degree one with atmospheric corrections failed
 for a maximum order

---
 scripts/calc_degree_one.py        | 2 +-
 scripts/monte_carlo_degree_one.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 50f10d0..2486a81 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -595,7 +595,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
     ATM_Ylms.month[:] = np.copy(GSM_Ylms.month)
     if ATM:
         atm_corr = gravtk.read_ecmwf_corrections(base_dir,
-            LMAX, ATM_Ylms.month)
+            LMAX, ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
         # removing the mean of the atmospheric jump correction coefficients
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 9c6db64..0760b97 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -497,7 +497,7 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
     ATM_Ylms.time[:] = np.copy(GSM_Ylms.time)
     ATM_Ylms.month[:] = np.copy(GSM_Ylms.month)
     if ATM:
-        atm_corr = gravtk.read_ecmwf_corrections(base_dir,LMAX,ATM_Ylms.month)
+        atm_corr = gravtk.read_ecmwf_corrections(base_dir,LMAX,ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
         # removing the mean of the atmospheric jump correction coefficients
-- 
2.43.0


From eedddf2ce3cb8628f27dc185c4e0e4f8dc8c5e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:48 +0000
Subject: [PATCH 117/161] fix: adjustment and corrections of monte carlo
 geocenter were restored in other units

---
 scripts/monte_carlo_degree_one.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 0760b97..a0fc430 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -769,9 +769,9 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
                 DMAT, res, rnk, s = scipy.linalg.lstsq(IMAT, (CMAT-GMAT),
                     lapack_driver=SOLVER)
             # save geocenter for iteration and time t after restoring GIA+ATM
-            iteration.C10[t,n_iter] = DMAT[0]+gia.C10[t]+atm.C10[t]
-            iteration.C11[t,n_iter] = DMAT[1]+gia.C11[t]+atm.C11[t]
-            iteration.S11[t,n_iter] = DMAT[2]+gia.S11[t]+atm.S11[t]
+            iteration.C10[t,n_iter] = DMAT[0] + dfactor[1]*(gia.C10[t] + atm.C10[t])
+            iteration.C11[t,n_iter] = DMAT[1] + dfactor[1]*(gia.C11[t] + atm.C11[t])
+            iteration.S11[t,n_iter] = DMAT[2] + dfactor[1]*(gia.S11[t] + atm.S11[t])
         # remove mean of each solution for iteration
         iteration.C10[:,n_iter] -= iteration.C10[:,n_iter].mean()
         iteration.C11[:,n_iter] -= iteration.C11[:,n_iter].mean()
-- 
2.43.0


From 3ad8b2747c3de11538eafe5fac75d768ab18271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:33 +0000
Subject: [PATCH 118/161] fix: raster grids exceeded their bounds

---
 scripts/grace_raster_grids.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index 7b9b70d..f5edf0e 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -463,8 +463,8 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
     dx,dy = np.broadcast_to(np.atleast_1d(SPACING),(2,))
     xmin,xmax,ymin,ymax = np.copy(BOUNDS)
     # create x and y from spacing and bounds
-    output['x'] = np.arange(xmin + dx/2.0, xmax + dx, dx)
-    output['y'] = np.arange(ymin + dx/2.0, ymax + dy, dy)
+    output['x'] = np.arange(xmin + dx/2.0, xmax, dx)
+    output['y'] = np.arange(ymin + dy/2.0, ymax, dy)
     ny,nx = (len(output['y']),len(output['x']))
     gridx, gridy = np.meshgrid(output['x'],output['y'])
     gridlon, gridlat = transformer.transform(gridx, gridy)
-- 
2.43.0


From 60f9b028b794aee09db2224549a16065d245627b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 119/161] fix: clenshaw summation failed for harmonics
 truncated in order

---
 gravity_toolkit/clenshaw_summation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gravity_toolkit/clenshaw_summation.py b/gravity_toolkit/clenshaw_summation.py
index 949603f..6611053 100644
--- a/gravity_toolkit/clenshaw_summation.py
+++ b/gravity_toolkit/clenshaw_summation.py
@@ -125,6 +125,11 @@ def clenshaw_summation(clm, slm, lon, lat,
     # if LMAX is not specified, will use the size of the input harmonics
     if (LMAX == 0):
         LMAX = np.shape(clm)[0]-1
+    # extend harmonics that are truncated in order
+    orders = LMAX + 1 - np.shape(clm)[1]
+    if (orders > 0):
+        clm = np.pad(clm, ((0,0), (0,orders)))
+        slm = np.pad(slm, ((0,0), (0,orders)))
 
     # calculate colatitude and longitude in radians
     th = (90.0 - lat)*np.pi/180.0
-- 
2.43.0


From 6e221b4a1dccef9d1fa69b8338fd40b383dfccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:50 +0000
Subject: [PATCH 120/161] fix: raster grids failed for projections of a sphere

---
 scripts/grace_raster_grids.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index f5edf0e..c11b0a8 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -472,7 +472,9 @@ def grace_raster_grids(base_dir, PROC, DREL, DSET, LMAX, RAD,
     # semimajor axis of ellipsoid [m]
     a_axis = crs1.ellipsoid.semi_major_metre
     # ellipsoidal flattening
-    flat = 1.0/crs1.ellipsoid.inverse_flattening
+    # (spherical figures have an inverse flattening of 0)
+    inverse_flattening = crs1.ellipsoid.inverse_flattening
+    flat = 1.0/inverse_flattening if inverse_flattening else 0.0
     # calculate geocentric latitude and convert to degrees
     latitude_geocentric = geoidtk.spatial.geocentric_latitude(
         gridlon, gridlat, a_axis=a_axis, flat=flat)
-- 
2.43.0


From 452afa904a59cc1ba7b47cfa74fa1bcc1fa491ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:23 +0000
Subject: [PATCH 121/161] fix: reducing GFZ RL05a files to the newest version
 failed

---
 gravity_toolkit/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 7501bb6..c214b62 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -298,7 +298,7 @@ def reduce_by_date(granules):
     # COSTG: International Combined Time-variable Gravity Fields
     args = r'UTCSR|EIGEN|GFZOP|JPLEM|JPLMSC|GRGS|COSTG'
     regex_pattern = (r'(.*?)-2_(\d{{4}})(\d{{3}})-(\d{{4}})(\d{{3}})_(.*?)_'
-        r'({0})_(.*?)_(\d{{2}})(\d{{2}})(.*?)(\.gz|\.gfc)?$').format(args)
+        r'({0})_(.*?)_(\d{{2}})(\d{{2}}|\da)(.*?)(\.gz|\.gfc)?$').format(args)
     rx = re.compile(regex_pattern, re.VERBOSE)
     # for each unique date
     for d in sorted(set(date_list)):
@@ -317,7 +317,8 @@ def reduce_by_date(granules):
                 PFX,SY,SD,EY,ED,AUX,PRC,F1,DRL,VER,F2,SFX = \
                     rx.findall(file_basename).pop()
                 # append to list of file versions
-                versions.append(int(VER))
+                # (the GFZ RL05a products are denoted by 005a)
+                versions.append((int(VER.rstrip('a')), VER))
             # find file with newest version
             i = versions.index(max(versions))
             unique_list.append(granules[indices[i]])
-- 
2.43.0


From 13993169da5cbeb6af68e03cacce4822d2e713c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 122/161] fix: plots of time series failed with current numpy

---
 scripts/geocenter_compare_tellus.py     | 6 +++---
 scripts/geocenter_monte_carlo.py        | 2 +-
 scripts/geocenter_ocean_models.py       | 2 +-
 scripts/geocenter_processing_centers.py | 2 +-
 scripts/quick_mascon_plot.py            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/geocenter_compare_tellus.py b/scripts/geocenter_compare_tellus.py
index 992df24..e9b0e64 100644
--- a/scripts/geocenter_compare_tellus.py
+++ b/scripts/geocenter_compare_tellus.py
@@ -97,7 +97,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
@@ -123,7 +123,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
                 for i,m in enumerate(months):
                     valid = np.count_nonzero(DEG1.month == m)
                     if valid:
-                        mm, = np.nonzero(DEG1.month == m)
+                        mm, = np.flatnonzero(DEG1.month == m)
                         tdec[i] = DEG1.time[mm]
                         data[i] = val[mm]
                 # plot all dates
@@ -149,7 +149,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/geocenter_monte_carlo.py b/scripts/geocenter_monte_carlo.py
index 925627a..c814473 100644
--- a/scripts/geocenter_monte_carlo.py
+++ b/scripts/geocenter_monte_carlo.py
@@ -88,7 +88,7 @@ def geocenter_monte_carlo(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
         for i,m in enumerate(months):
             valid = np.count_nonzero(DEG1.month == m)
             if valid:
-                mm, = np.nonzero(DEG1.month == m)
+                mm, = np.flatnonzero(DEG1.month == m)
                 tdec[i] = DEG1.time[mm]
                 data[i,:] = val[mm,:]
 
diff --git a/scripts/geocenter_ocean_models.py b/scripts/geocenter_ocean_models.py
index cbbeb7b..c6fa972 100644
--- a/scripts/geocenter_ocean_models.py
+++ b/scripts/geocenter_ocean_models.py
@@ -95,7 +95,7 @@ def geocenter_ocean_models(grace_dir,PROC,DREL,MODEL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/geocenter_processing_centers.py b/scripts/geocenter_processing_centers.py
index 252c9d0..ab17e8b 100644
--- a/scripts/geocenter_processing_centers.py
+++ b/scripts/geocenter_processing_centers.py
@@ -107,7 +107,7 @@ def geocenter_processing_centers(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index a2fc933..154068e 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -133,7 +133,7 @@ def run_plot(i, input_file,
         for t,m in enumerate(months):
             valid = np.count_nonzero(dinput[:,0] == m)
             if valid:
-                mm, = np.nonzero(dinput[:,0] == m)
+                mm, = np.flatnonzero(dinput[:,0] == m)
                 tdec[t] = dinput[mm,1]
                 data[t] = dinput[mm,2] - dinput[0,2]
                 if error:
-- 
2.43.0


From f0279e95ddff71b44ad3aa3b3632190238b72daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 123/161] fix: plots of time series failed without months of
 both missions

---
 scripts/geocenter_compare_tellus.py     | 12 +++++++-----
 scripts/geocenter_monte_carlo.py        | 12 +++++++-----
 scripts/geocenter_ocean_models.py       | 10 ++++++----
 scripts/geocenter_processing_centers.py | 12 +++++++-----
 scripts/quick_mascon_plot.py            | 12 +++++++-----
 5 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/scripts/geocenter_compare_tellus.py b/scripts/geocenter_compare_tellus.py
index e9b0e64..5efc708 100644
--- a/scripts/geocenter_compare_tellus.py
+++ b/scripts/geocenter_compare_tellus.py
@@ -162,11 +162,13 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             acc = gravtk.time.convert_calendar_decimal(2016,9,day=3,hour=12,minute=12)
             ax[j].axvline(acc,color='0.5',ls='dashed',lw=0.5,dashes=(8,4))
             # vertical lines for end of the GRACE mission and start of GRACE-FO
-            jj, = np.flatnonzero(DEG1.month == 186)
-            kk, = np.flatnonzero(DEG1.month == 198)
-            vs = ax[j].axvspan(DEG1.time[jj],DEG1.time[kk],
-                color='0.5',ls='dashed',alpha=0.15)
-            vs._dashes = (4,2)
+            # (if the time series includes both missions)
+            jj = np.flatnonzero(DEG1.month == 186)
+            kk = np.flatnonzero(DEG1.month == 198)
+            if (len(jj) > 0) and (len(kk) > 0):
+                vs = ax[j].axvspan(DEG1.time[jj[0]],DEG1.time[kk[0]],
+                    color='0.5',ls='dashed',alpha=0.15)
+                vs._dashes = (4,2)
             # axis label
             ax[j].set_title(ylabels[key], style='italic', fontsize=14)
             artist = matplotlib.offsetbox.AnchoredText(axes_labels[key], pad=0.,
diff --git a/scripts/geocenter_monte_carlo.py b/scripts/geocenter_monte_carlo.py
index c814473..f1f01d3 100644
--- a/scripts/geocenter_monte_carlo.py
+++ b/scripts/geocenter_monte_carlo.py
@@ -118,11 +118,13 @@ def geocenter_monte_carlo(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
         acc = gravtk.time.convert_calendar_decimal(2016,9,day=3,hour=12,minute=12)
         ax[j].axvline(acc,color='0.5',ls='dashed',lw=0.5,dashes=(8,4))
         # vertical lines for end of the GRACE mission and start of GRACE-FO
-        jj, = np.flatnonzero(DEG1.month == 186)
-        kk, = np.flatnonzero(DEG1.month == 198)
-        vs = ax[j].axvspan(DEG1.time[jj],DEG1.time[kk],
-            color='0.5',ls='dashed',alpha=0.15)
-        vs._dashes = (4,2)
+        # (if the time series includes both missions)
+        jj = np.flatnonzero(DEG1.month == 186)
+        kk = np.flatnonzero(DEG1.month == 198)
+        if (len(jj) > 0) and (len(kk) > 0):
+            vs = ax[j].axvspan(DEG1.time[jj[0]],DEG1.time[kk[0]],
+                color='0.5',ls='dashed',alpha=0.15)
+            vs._dashes = (4,2)
         # axis label
         ax[j].set_title(ylabels[key], style='italic', fontsize=14)
         artist = matplotlib.offsetbox.AnchoredText(axes_labels[key], pad=0.,
diff --git a/scripts/geocenter_ocean_models.py b/scripts/geocenter_ocean_models.py
index c6fa972..9fea822 100644
--- a/scripts/geocenter_ocean_models.py
+++ b/scripts/geocenter_ocean_models.py
@@ -109,10 +109,12 @@ def geocenter_ocean_models(grace_dir,PROC,DREL,MODEL,START_MON,END_MON,MISSING):
     # add axis labels and adjust font sizes for axis ticks
     for j,key in enumerate(fig_labels):
         # vertical lines for end of the GRACE mission and start of GRACE-FO
-        jj, = np.flatnonzero(DEG1.month == 186)
-        kk, = np.flatnonzero(DEG1.month == 198)
-        ax[j].axvspan(DEG1.time[jj],DEG1.time[kk],
-            color='0.5',ls='dashed',alpha=0.15)
+        # (if the time series includes both missions)
+        jj = np.flatnonzero(DEG1.month == 186)
+        kk = np.flatnonzero(DEG1.month == 198)
+        if (len(jj) > 0) and (len(kk) > 0):
+            ax[j].axvspan(DEG1.time[jj[0]],DEG1.time[kk[0]],
+                color='0.5',ls='dashed',alpha=0.15)
         # axis label
         ax[j].set_title(ylabels[key], style='italic', fontsize=14)
         artist = matplotlib.offsetbox.AnchoredText(axes_labels[key], pad=0.,
diff --git a/scripts/geocenter_processing_centers.py b/scripts/geocenter_processing_centers.py
index ab17e8b..84b6e2a 100644
--- a/scripts/geocenter_processing_centers.py
+++ b/scripts/geocenter_processing_centers.py
@@ -119,11 +119,13 @@ def geocenter_processing_centers(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
         acc = gravtk.time.convert_calendar_decimal(2016,9,day=3,hour=12,minute=12)
         ax[j].axvline(acc,color='0.5',ls='dashed',lw=0.5,dashes=(8,4))
         # vertical lines for end of the GRACE mission and start of GRACE-FO
-        jj, = np.flatnonzero(DEG1.month == 186)
-        kk, = np.flatnonzero(DEG1.month == 198)
-        vs = ax[j].axvspan(DEG1.time[jj],DEG1.time[kk],
-            color='0.5',ls='dashed',alpha=0.15)
-        vs._dashes = (4,2)
+        # (if the time series includes both missions)
+        jj = np.flatnonzero(DEG1.month == 186)
+        kk = np.flatnonzero(DEG1.month == 198)
+        if (len(jj) > 0) and (len(kk) > 0):
+            vs = ax[j].axvspan(DEG1.time[jj[0]],DEG1.time[kk[0]],
+                color='0.5',ls='dashed',alpha=0.15)
+            vs._dashes = (4,2)
         # axis label
         ax[j].set_title(ylabels[key], style='italic', fontsize=14)
         artist = matplotlib.offsetbox.AnchoredText(axes_labels[key], pad=0.,
diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index 154068e..0b047e3 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -156,11 +156,13 @@ def run_plot(i, input_file,
             color=l.get_color(), alpha=0.25, zorder=zorder)
     # vertical lines for end of the GRACE mission and start of GRACE-FO
     if monthly & ((i == 0) | individual):
-        jj, = np.flatnonzero(dinput[:,0] == 186)
-        kk, = np.flatnonzero(dinput[:,0] == 198)
-        vs = plt.gca().axvspan(dinput[jj,1],dinput[kk,1],
-            color='0.5',ls='dashed',alpha=0.15)
-        vs._dashes = (4,3)
+        # (if the time series includes both missions)
+        jj = np.flatnonzero(dinput[:,0] == 186)
+        kk = np.flatnonzero(dinput[:,0] == 198)
+        if (len(jj) > 0) and (len(kk) > 0):
+            vs = plt.gca().axvspan(dinput[jj[0],1],dinput[kk[0],1],
+                color='0.5',ls='dashed',alpha=0.15)
+            vs._dashes = (4,3)
     # if on the first axes or creating individual plots
     if (i == 0) | individual:
         # add labels
-- 
2.43.0


From 807313d7ab7f20125acb0934f83dd2fc5ee7e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:17 +0000
Subject: [PATCH 124/161] fix: plots of more than one processing center failed

---
 scripts/geocenter_compare_tellus.py | 2 +-
 scripts/geocenter_ocean_models.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/geocenter_compare_tellus.py b/scripts/geocenter_compare_tellus.py
index 5efc708..201dcf8 100644
--- a/scripts/geocenter_compare_tellus.py
+++ b/scripts/geocenter_compare_tellus.py
@@ -203,7 +203,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
         # save figure to file
         OUTPUT_FIGURE = f'TN13_SV19_{pr}_{DREL}.pdf'
         plt.savefig(grace_dir.joinpath(OUTPUT_FIGURE), format='pdf', dpi=300)
-        plt.clf()
+        plt.close(fig)
 
 # PURPOSE: create argument parser
 def arguments():
diff --git a/scripts/geocenter_ocean_models.py b/scripts/geocenter_ocean_models.py
index 9fea822..c9bc1d2 100644
--- a/scripts/geocenter_ocean_models.py
+++ b/scripts/geocenter_ocean_models.py
@@ -149,7 +149,7 @@ def geocenter_ocean_models(grace_dir,PROC,DREL,MODEL,START_MON,END_MON,MISSING):
     # save figure to file
     OUTPUT_FIGURE = f'SV19_{PROC}_{DREL}_ocean_models.pdf'
     plt.savefig(grace_dir.joinpath(OUTPUT_FIGURE), format='pdf', dpi=300)
-    plt.clf()
+    plt.close(fig)
 
 # PURPOSE: create argument parser
 def arguments():
-- 
2.43.0


From 4b53496db4a02df8622174681ef7e3afbc7072f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:17 +0000
Subject: [PATCH 125/161] fix: individual plots of mascons were not saved in
 the output directory

---
 scripts/quick_mascon_plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index 0b047e3..e92762b 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -253,7 +253,8 @@ def main():
         # for each figure number
         for num in plt.get_fignums():
             fig = plt.figure(num)
-            output = f'{args.output_file.stem}_{num}{args.output_file.suffix}'
+            output = args.output_file.with_name(
+                f'{args.output_file.stem}_{num}{args.output_file.suffix}')
             # save the figure file
             fig.savefig(output,
                 metadata={'Title':pathlib.Path(sys.argv[0]).name},
-- 
2.43.0


From e76b5cf0116a69489959b24cee6c39ad8ca8b8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:37 +0000
Subject: [PATCH 126/161] fix: terms of mascon regressions were mislabeled

---
 scripts/quick_mascon_regress.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/quick_mascon_regress.py b/scripts/quick_mascon_regress.py
index 2fcad34..0b9d88d 100755
--- a/scripts/quick_mascon_regress.py
+++ b/scripts/quick_mascon_regress.py
@@ -111,6 +111,9 @@ def run_regress(input_file,
     tidal_aliasing['M2'] = 13.5
     tidal_aliasing['S2'] = 161.0
     tidal_aliasing['K2'] = 1362.7
+    # tidal aliasing terms are fit after the cyclical terms
+    cycles = sorted(cycles, key=lambda c: np.any(np.isclose(c,
+        np.array(list(tidal_aliasing.values()))/365.25)))
     # extra terms for tidal aliasing components or custom fits
     terms = []
     term_index = []
-- 
2.43.0


From 28e6a06d84122a0b6a93e9ccd8b72d49e6c49afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 127/161] fix: log files of program runs were empty or failed
 to be written

---
 gravity_toolkit/utilities.py        | 2 +-
 scripts/calc_degree_one.py          | 6 +++---
 scripts/calc_mascon.py              | 4 ++--
 scripts/calc_sensitivity_kernel.py  | 4 ++--
 scripts/dealiasing_global_uplift.py | 4 ++--
 scripts/grace_mean_harmonics.py     | 4 ++--
 scripts/grace_raster_grids.py       | 4 ++--
 scripts/grace_spatial_error.py      | 4 ++--
 scripts/grace_spatial_maps.py       | 4 ++--
 scripts/monte_carlo_degree_one.py   | 6 +++---
 scripts/piecewise_grace_maps.py     | 4 ++--
 scripts/regress_grace_maps.py       | 4 ++--
 scripts/scale_grace_maps.py         | 4 ++--
 13 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 85e95dd..58aa89e 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -401,7 +401,7 @@ def create_unique_file(filename: str | pathlib.Path):
     while counter:
         try:
             # open file descriptor only if the file doesn't exist
-            fd = filename.open(mode='xb')
+            fd = filename.open(mode='x', encoding='utf8')
         except FileExistsError:
             pass
         else:
diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 2486a81..82a28be 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -1353,13 +1353,13 @@ def output_log_file(input_arguments, output_files, n_iter):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
         logging.info(f'{arg}: {value}')
     # print number of iterations used in calculation
-    if arguments.iterative:
+    if input_arguments.iterative:
         logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(n_iter))
     # print output files
     logging.info('\n\nOUTPUT FILES:')
@@ -1376,7 +1376,7 @@ def output_error_log_file(input_arguments):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/calc_mascon.py b/scripts/calc_mascon.py
index 0705480..dcf1975 100644
--- a/scripts/calc_mascon.py
+++ b/scripts/calc_mascon.py
@@ -733,7 +733,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -753,7 +753,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/calc_sensitivity_kernel.py b/scripts/calc_sensitivity_kernel.py
index e49d5e9..ab354c0 100644
--- a/scripts/calc_sensitivity_kernel.py
+++ b/scripts/calc_sensitivity_kernel.py
@@ -474,7 +474,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -494,7 +494,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/dealiasing_global_uplift.py b/scripts/dealiasing_global_uplift.py
index fd6fa23..e2c34e8 100644
--- a/scripts/dealiasing_global_uplift.py
+++ b/scripts/dealiasing_global_uplift.py
@@ -370,7 +370,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -390,7 +390,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_mean_harmonics.py b/scripts/grace_mean_harmonics.py
index 8745640..fed00c9 100644
--- a/scripts/grace_mean_harmonics.py
+++ b/scripts/grace_mean_harmonics.py
@@ -306,7 +306,7 @@ def output_log_file(input_arguments, output_file):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -325,7 +325,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_raster_grids.py b/scripts/grace_raster_grids.py
index c11b0a8..d7fac26 100644
--- a/scripts/grace_raster_grids.py
+++ b/scripts/grace_raster_grids.py
@@ -541,7 +541,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -561,7 +561,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_spatial_error.py b/scripts/grace_spatial_error.py
index c22345d..3625cab 100755
--- a/scripts/grace_spatial_error.py
+++ b/scripts/grace_spatial_error.py
@@ -478,7 +478,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -498,7 +498,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/grace_spatial_maps.py b/scripts/grace_spatial_maps.py
index c2b44ce..8b81ae4 100755
--- a/scripts/grace_spatial_maps.py
+++ b/scripts/grace_spatial_maps.py
@@ -495,7 +495,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -515,7 +515,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index a0fc430..86c9fb8 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -1158,13 +1158,13 @@ def output_log_file(input_arguments, output_files):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
         logging.info(f'{arg}: {value}')
     # print number of monte carlo iterations used in calculation
-    logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(arguments.runs))
+    logging.info('\n\nNUMBER OF ITERATIONS: {0:d}'.format(input_arguments.runs))
     # print output files
     logging.info('\n\nOUTPUT FILES:')
     for f in output_files:
@@ -1180,7 +1180,7 @@ def output_error_log_file(input_arguments):
     DIRECTORY = pathlib.Path(input_arguments.directory).joinpath('geocenter')
     # create a unique log and open the log file
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/piecewise_grace_maps.py b/scripts/piecewise_grace_maps.py
index 0d12341..04c7fef 100755
--- a/scripts/piecewise_grace_maps.py
+++ b/scripts/piecewise_grace_maps.py
@@ -487,7 +487,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -507,7 +507,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/regress_grace_maps.py b/scripts/regress_grace_maps.py
index a9222d9..124321b 100755
--- a/scripts/regress_grace_maps.py
+++ b/scripts/regress_grace_maps.py
@@ -479,7 +479,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -499,7 +499,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
diff --git a/scripts/scale_grace_maps.py b/scripts/scale_grace_maps.py
index aa822b2..aa283c5 100644
--- a/scripts/scale_grace_maps.py
+++ b/scripts/scale_grace_maps.py
@@ -640,7 +640,7 @@ def output_log_file(input_arguments, output_files):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
@@ -660,7 +660,7 @@ def output_error_log_file(input_arguments):
     # create a unique log and open the log file
     DIRECTORY = pathlib.Path(input_arguments.output_directory)
     fid = gravtk.utilities.create_unique_file(DIRECTORY.joinpath(LOGFILE))
-    logging.basicConfig(stream=fid, level=logging.INFO)
+    logging.basicConfig(stream=fid, level=logging.INFO, force=True)
     # print argument values sorted alphabetically
     logging.info('ARGUMENTS:')
     for arg, value in sorted(vars(input_arguments).items()):
-- 
2.43.0


From f88e16d7fe3179e685971bd837dea29b060f5ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:48 +0000
Subject: [PATCH 128/161] fix: color maps of map programs with current
 matplotlib

---
 scripts/plot_AIS_GrIS_maps.py      | 2 +-
 scripts/plot_AIS_grid_3maps.py     | 2 +-
 scripts/plot_AIS_grid_4maps.py     | 2 +-
 scripts/plot_AIS_grid_maps.py      | 2 +-
 scripts/plot_AIS_grid_movie.py     | 2 +-
 scripts/plot_AIS_regional_maps.py  | 2 +-
 scripts/plot_AIS_regional_movie.py | 2 +-
 scripts/plot_GrIS_grid_3maps.py    | 2 +-
 scripts/plot_GrIS_grid_5maps.py    | 2 +-
 scripts/plot_GrIS_grid_maps.py     | 2 +-
 scripts/plot_GrIS_grid_movie.py    | 2 +-
 scripts/plot_QML_grid_3maps.py     | 2 +-
 scripts/plot_global_grid_3maps.py  | 2 +-
 scripts/plot_global_grid_4maps.py  | 2 +-
 scripts/plot_global_grid_5maps.py  | 2 +-
 scripts/plot_global_grid_9maps.py  | 2 +-
 scripts/plot_global_grid_maps.py   | 2 +-
 scripts/plot_global_grid_movie.py  | 2 +-
 18 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 898d70b..8e1a820 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -391,7 +391,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 86065c6..b0146dd 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -299,7 +299,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index baac669..8ffc36a 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -300,7 +300,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_maps.py b/scripts/plot_AIS_grid_maps.py
index 585a13f..e087138 100644
--- a/scripts/plot_AIS_grid_maps.py
+++ b/scripts/plot_AIS_grid_maps.py
@@ -310,7 +310,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index 94f68ba..e397e38 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -314,7 +314,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_regional_maps.py b/scripts/plot_AIS_regional_maps.py
index b935a79..fd9fdb1 100644
--- a/scripts/plot_AIS_regional_maps.py
+++ b/scripts/plot_AIS_regional_maps.py
@@ -389,7 +389,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 528aa0b..d0f79e8 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -394,7 +394,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index b317cee..7ca4649 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -316,7 +316,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index a766d8f..5809f76 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -299,7 +299,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_maps.py b/scripts/plot_GrIS_grid_maps.py
index 440970c..b3461d0 100644
--- a/scripts/plot_GrIS_grid_maps.py
+++ b/scripts/plot_GrIS_grid_maps.py
@@ -323,7 +323,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 39fa1b5..7f47408 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -335,7 +335,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index d9ec864..3225aaf 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -305,7 +305,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index e20993e..a099695 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 7763322..4734446 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index f58cc31..755cac4 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -177,7 +177,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 8c58483..850fd9a 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_maps.py b/scripts/plot_global_grid_maps.py
index f23ac3f..33409ea 100644
--- a/scripts/plot_global_grid_maps.py
+++ b/scripts/plot_global_grid_maps.py
@@ -174,7 +174,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 3d629a0..4feadf6 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -173,7 +173,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
-- 
2.43.0


From 587e58cf5e32a841722ea77c000ee191536dd97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:48 +0000
Subject: [PATCH 129/161] fix: removing grids in programs with multiple maps

---
 scripts/plot_AIS_GrIS_maps.py     | 2 +-
 scripts/plot_AIS_grid_3maps.py    | 2 +-
 scripts/plot_AIS_grid_4maps.py    | 2 +-
 scripts/plot_GrIS_grid_3maps.py   | 2 +-
 scripts/plot_GrIS_grid_5maps.py   | 2 +-
 scripts/plot_QML_grid_3maps.py    | 2 +-
 scripts/plot_global_grid_3maps.py | 2 +-
 scripts/plot_global_grid_4maps.py | 2 +-
 scripts/plot_global_grid_5maps.py | 2 +-
 scripts/plot_global_grid_9maps.py | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 8e1a820..4142d0a 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -500,7 +500,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index b0146dd..65451a8 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -395,7 +395,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index 8ffc36a..87a788d 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -395,7 +395,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index 7ca4649..1718246 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -412,7 +412,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index 5809f76..0eff501 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -396,7 +396,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index 3225aaf..c390d76 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -401,7 +401,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index a099695..13ee118 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -261,7 +261,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 4734446..c998317 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -261,7 +261,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index 755cac4..c7d0055 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -267,7 +267,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 850fd9a..5c3739e 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -262,7 +262,7 @@ def plot_grid(base_dir, FILENAMES,
                 field_mapping=field_mapping)
 
         # remove offset and scale to units
-        if (REMOVE != 0.0) or (SCALE_FACTOR != 1.0):
+        if (REMOVE_FILE is not None) or (SCALE_FACTOR != 1.0):
             dinput = dinput.offset(-REMOVE).scale(SCALE_FACTOR)
 
         # update masked values
-- 
2.43.0


From 8401bdfd5eb6d4b78c01c8f275606bed681bdc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:48 +0000
Subject: [PATCH 130/161] fix: default format of programs with multiple maps

---
 scripts/plot_AIS_GrIS_maps.py     | 2 +-
 scripts/plot_AIS_grid_3maps.py    | 2 +-
 scripts/plot_AIS_grid_4maps.py    | 2 +-
 scripts/plot_GrIS_grid_3maps.py   | 2 +-
 scripts/plot_GrIS_grid_5maps.py   | 2 +-
 scripts/plot_QML_grid_3maps.py    | 2 +-
 scripts/plot_global_grid_3maps.py | 2 +-
 scripts/plot_global_grid_4maps.py | 2 +-
 scripts/plot_global_grid_5maps.py | 2 +-
 scripts/plot_global_grid_9maps.py | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 4142d0a..a009290 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -699,7 +699,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 65451a8..b9c5463 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -590,7 +590,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index 87a788d..e7dc4bf 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -592,7 +592,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index 1718246..bd3fb85 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -608,7 +608,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index 0eff501..42ba4d1 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -592,7 +592,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index c390d76..7fb1912 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -596,7 +596,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index 13ee118..b5910dc 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -448,7 +448,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index c998317..8d5c39c 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -450,7 +450,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index c7d0055..06077a9 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -456,7 +456,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 5c3739e..ed06adb 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -451,7 +451,7 @@ def arguments():
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
         type=str, nargs='+',
-        default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        default=['netCDF4'], choices=['ascii','netCDF4','HDF5'],
         help='Input data format')
     # variable names (for ascii names of columns)
     parser.add_argument('--variables','-v',
-- 
2.43.0


From 1c270718bb159d3050e7551a0c731a85517feb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:48 +0000
Subject: [PATCH 131/161] fix: movie frames of maps and their contours

---
 scripts/plot_AIS_grid_movie.py     | 8 ++++----
 scripts/plot_AIS_regional_movie.py | 8 ++++----
 scripts/plot_GrIS_grid_movie.py    | 8 ++++----
 scripts/plot_global_grid_movie.py  | 6 +++---
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index e397e38..3d207b1 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -550,8 +550,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
@@ -577,7 +577,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
@@ -600,7 +600,7 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [cntr.remove() for cntr in contours]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index d0f79e8..998abce 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -639,8 +639,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
@@ -666,7 +666,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
@@ -689,7 +689,7 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [cntr.remove() for cntr in contours]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 7f47408..8559bf3 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -572,8 +572,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
@@ -599,7 +599,7 @@ def animate_grid(base_dir, FILENAME,
                 contours.append(ax1.contour(lon, lat, data, reduce_clevs,
                     colors='0.2', linestyles='solid',
                     transform=ccrs.PlateCarree()))
-                contours.append(ax1.contour(lon, lat, data, 0,
+                contours.append(ax1.contour(lon, lat, data, [0],
                     colors='red', linestyles='solid', linewidths=1.5,
                     transform=ccrs.PlateCarree()))
             # plot line contour for global average
@@ -622,7 +622,7 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [cntr.remove() for cntr in contours]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 4feadf6..cea49b5 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -381,8 +381,8 @@ def animate_grid(base_dir, FILENAME,
             if (INTERVAL == 1) and (np.max(dinput.lon) > 180):# (0:360, 90:-90)
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0,data.mask,dinput.lon)
-                img = gravtk.tools.interp_grid(shift_data,lon180,data.lat,lonsin,latsin,order)
-                msk = gravtk.tools.interp_grid(shift_mask,lon180,data.lat,lonsin,latsin,order)
+                img = gravtk.tools.interp_grid(shift_data,lon180,dinput.lat,lonsin,latsin,order)
+                msk = gravtk.tools.interp_grid(shift_mask,lon180,dinput.lat,lonsin,latsin,order)
             elif (INTERVAL == 2) and (np.max(dinput.lon) > 180):# DDEG/2
                 shift_data,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.data,dinput.lon)
                 shift_mask,lon180 = gravtk.tools.shift_grid(180.0+dlon,data.mask,dinput.lon)
@@ -438,7 +438,7 @@ def animate_grid(base_dir, FILENAME,
             # add to movie
             writer.grab_frame()
             # clear figure axes of any contour collections
-            [c.remove() for cntr in contours for c in cntr.collections]
+            [cntr.remove() for cntr in contours]
     # change the permissions mode
     FIGURE_FILE.chmod(mode=MODE)
 
-- 
2.43.0


From 63239b6e2ebc572e60845869012901d34c0d621f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:48 +0000
Subject: [PATCH 132/161] fix: index formats of movie programs

---
 scripts/plot_AIS_grid_movie.py     | 4 +++-
 scripts/plot_AIS_regional_movie.py | 4 +++-
 scripts/plot_GrIS_grid_movie.py    | 4 +++-
 scripts/plot_global_grid_movie.py  | 4 +++-
 4 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index 3d207b1..fbe0b90 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -623,7 +623,9 @@ def arguments():
         help='Working data directory')
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
-        type=str, default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        type=str, default='netCDF4',
+        choices=['ascii','netCDF4','HDF5',
+            'index-ascii','index-netCDF4','index-HDF5'],
         help='Input data format')
     # land-sea mask
     lsmask = gravtk.utilities.get_data_path(['data','landsea_hd.nc'])
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 998abce..22d9e9e 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -716,7 +716,9 @@ def arguments():
         required=True, help='Region to plot')
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
-        type=str, default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        type=str, default='netCDF4',
+        choices=['ascii','netCDF4','HDF5',
+            'index-ascii','index-netCDF4','index-HDF5'],
         help='Input data format')
     # land-sea mask
     lsmask = gravtk.utilities.get_data_path(['data','landsea_hd.nc'])
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 8559bf3..840629d 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -645,7 +645,9 @@ def arguments():
         help='Working data directory')
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
-        type=str, default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        type=str, default='netCDF4',
+        choices=['ascii','netCDF4','HDF5',
+            'index-ascii','index-netCDF4','index-HDF5'],
         help='Input data format')
     # land-sea mask
     lsmask = gravtk.utilities.get_data_path(['data','landsea_hd.nc'])
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index cea49b5..4adbe45 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -461,7 +461,9 @@ def arguments():
         help='Working data directory')
     # Input data format (ascii, netCDF4, HDF5)
     parser.add_argument('--format','-F',
-        type=str, default='netCDF4', choices=['ascii','netCDF4','HDF5'],
+        type=str, default='netCDF4',
+        choices=['ascii','netCDF4','HDF5',
+            'index-ascii','index-netCDF4','index-HDF5'],
         help='Input data format')
     # land-sea mask
     lsmask = gravtk.utilities.get_data_path(['data','landsea_hd.nc'])
-- 
2.43.0


From f9c92bae0c761a57702b9ead500001fb6f14eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:48 +0000
Subject: [PATCH 133/161] fix: orientation of maps of grids with descending
 latitudes

---
 scripts/plot_AIS_GrIS_maps.py      | 4 ++--
 scripts/plot_AIS_grid_3maps.py     | 4 ++--
 scripts/plot_AIS_grid_4maps.py     | 4 ++--
 scripts/plot_AIS_grid_maps.py      | 4 ++--
 scripts/plot_AIS_grid_movie.py     | 4 ++--
 scripts/plot_AIS_regional_maps.py  | 4 ++--
 scripts/plot_AIS_regional_movie.py | 4 ++--
 scripts/plot_GrIS_grid_3maps.py    | 4 ++--
 scripts/plot_GrIS_grid_5maps.py    | 4 ++--
 scripts/plot_GrIS_grid_maps.py     | 4 ++--
 scripts/plot_GrIS_grid_movie.py    | 4 ++--
 scripts/plot_QML_grid_3maps.py     | 4 ++--
 scripts/plot_global_grid_3maps.py  | 4 ++--
 scripts/plot_global_grid_4maps.py  | 4 ++--
 scripts/plot_global_grid_5maps.py  | 4 ++--
 scripts/plot_global_grid_9maps.py  | 4 ++--
 scripts/plot_global_grid_maps.py   | 4 ++--
 scripts/plot_global_grid_movie.py  | 4 ++--
 18 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index a009290..53a1630 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -507,8 +507,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index b9c5463..1e35d8b 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -402,8 +402,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index e7dc4bf..d469520 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -402,8 +402,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_AIS_grid_maps.py b/scripts/plot_AIS_grid_maps.py
index e087138..ffa015d 100644
--- a/scripts/plot_AIS_grid_maps.py
+++ b/scripts/plot_AIS_grid_maps.py
@@ -386,8 +386,8 @@ def plot_grid(base_dir, FILENAME,
     if (SCALE_FACTOR != 1.0):
         dinput = dinput.scale(SCALE_FACTOR)
 
-    # if dlat is negative
-    if (np.sign(dlat) == -1):
+    # if latitudes are descending
+    if (dinput.lat[0] > dinput.lat[-1]):
         dinput = dinput.flip(axis=0)
 
     # setup stereographic map
diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index fbe0b90..befcbd5 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -392,8 +392,8 @@ def animate_grid(base_dir, FILENAME,
     if (SCALE_FACTOR != 1.0):
         dinput = dinput.scale(SCALE_FACTOR)
 
-    # if dlat is negative
-    if (np.sign(dlat) == -1):
+    # if latitudes are descending
+    if (dinput.lat[0] > dinput.lat[-1]):
         dinput = dinput.flip(axis=0)
 
     # create movie writer objects
diff --git a/scripts/plot_AIS_regional_maps.py b/scripts/plot_AIS_regional_maps.py
index fd9fdb1..b9c250a 100644
--- a/scripts/plot_AIS_regional_maps.py
+++ b/scripts/plot_AIS_regional_maps.py
@@ -465,8 +465,8 @@ def plot_grid(base_dir, FILENAME,
     if (SCALE_FACTOR != 1.0):
         dinput = dinput.scale(SCALE_FACTOR)
 
-    # if dlat is negative
-    if (np.sign(dlat) == -1):
+    # if latitudes are descending
+    if (dinput.lat[0] > dinput.lat[-1]):
         dinput = dinput.flip(axis=0)
 
     # setup stereographic map
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 22d9e9e..84a27fc 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -472,8 +472,8 @@ def animate_grid(base_dir, FILENAME,
     if (SCALE_FACTOR != 1.0):
         dinput = dinput.scale(SCALE_FACTOR)
 
-    # if dlat is negative
-    if (np.sign(dlat) == -1):
+    # if latitudes are descending
+    if (dinput.lat[0] > dinput.lat[-1]):
         dinput = dinput.flip(axis=0)
 
     # create movie writer objects
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index bd3fb85..77c197e 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -419,8 +419,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index 42ba4d1..fd068e1 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -403,8 +403,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_GrIS_grid_maps.py b/scripts/plot_GrIS_grid_maps.py
index b3461d0..ead4c9e 100644
--- a/scripts/plot_GrIS_grid_maps.py
+++ b/scripts/plot_GrIS_grid_maps.py
@@ -399,8 +399,8 @@ def plot_grid(base_dir, FILENAME,
     if (SCALE_FACTOR != 1.0):
         dinput = dinput.scale(SCALE_FACTOR)
 
-    # if dlat is negative
-    if (np.sign(dlat) == -1):
+    # if latitudes are descending
+    if (dinput.lat[0] > dinput.lat[-1]):
         dinput = dinput.flip(axis=0)
 
     # setup stereographic map
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 840629d..c56e7d9 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -413,8 +413,8 @@ def animate_grid(base_dir, FILENAME,
     if (SCALE_FACTOR != 1.0):
         dinput = dinput.scale(SCALE_FACTOR)
 
-    # if dlat is negative
-    if (np.sign(dlat) == -1):
+    # if latitudes are descending
+    if (dinput.lat[0] > dinput.lat[-1]):
         dinput = dinput.flip(axis=0)
 
     # create movie writer objects
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index 7fb1912..63b5238 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -408,8 +408,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index b5910dc..16200d1 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -268,8 +268,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 8d5c39c..54dfbfc 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -268,8 +268,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index 06077a9..2eac995 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -274,8 +274,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index ed06adb..b3bb4af 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -269,8 +269,8 @@ def plot_grid(base_dir, FILENAMES,
         if MASK is not None:
             dinput.replace_invalid(fill_value=dinput.fill_value, mask=mask)
 
-        # if dlat is negative
-        if (np.sign(dlat) == -1):
+        # if latitudes are descending
+        if (dinput.lat[0] > dinput.lat[-1]):
             dinput = dinput.flip(axis=0)
 
         # calculate image coordinates
diff --git a/scripts/plot_global_grid_maps.py b/scripts/plot_global_grid_maps.py
index 33409ea..f43fb5d 100644
--- a/scripts/plot_global_grid_maps.py
+++ b/scripts/plot_global_grid_maps.py
@@ -244,8 +244,8 @@ def plot_grid(base_dir, FILENAME,
     if (SCALE_FACTOR != 1.0):
         dinput = dinput.scale(SCALE_FACTOR)
 
-    # if dlat is negative
-    if (np.sign(dlat) == -1):
+    # if latitudes are descending
+    if (dinput.lat[0] > dinput.lat[-1]):
         dinput = dinput.flip(axis=0)
 
     # setup Plate Carree projection
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 4adbe45..de393db 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -245,8 +245,8 @@ def animate_grid(base_dir, FILENAME,
     if (SCALE_FACTOR != 1.0):
         dinput = dinput.scale(SCALE_FACTOR)
 
-    # if dlat is negative
-    if (np.sign(dlat) == -1):
+    # if latitudes are descending
+    if (dinput.lat[0] > dinput.lat[-1]):
         dinput = dinput.flip(axis=0)
 
     # create movie writer objects
-- 
2.43.0


From 0999063d67a27e98ac2f9ab8f8233f0fc9ba92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 134/161] fix: drainage basins in maps of both ice sheets

---
 scripts/plot_AIS_GrIS_maps.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 53a1630..2151ce0 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -189,12 +189,12 @@ def info(args):
 
 # PURPOSE: plot Rignot 2012 drainage basin polylines
 def plot_rignot_basins(ax, base_dir, HEM, projection):
-    region_directory = base_dir.joinpath(*region_dir)
+    region_directory = base_dir.joinpath(*region_dir[HEM])
     # for each region
-    for reg in region_title:
+    for reg in region_title[HEM]:
         # read the regional polylines
         region_file = region_directory.joinpath(region_filename[HEM].format(reg))
-        region_ll = np.loadtxt(region_file, dtype=region_dtype)
+        region_ll = np.loadtxt(region_file, dtype=region_dtype[HEM])
         # converting region lat/lon into plot coordinates
         points = projection.transform_points(ccrs.PlateCarree(),
             region_ll['lon'], region_ll['lat'])
@@ -217,8 +217,12 @@ def plot_IMBIE2_basins(ax, base_dir, HEM):
         for indice in i:
             # extract Polar-Stereographic coordinates for record
             points = np.array(shape_entities[indice].points)
-            ax.plot(points[:,0], points[:,1], c='k',
-                transform=projection[HEM])
+            # IMBIE-2 basins can have multiple parts
+            parts = shape_entities[indice].parts
+            parts.append(len(points))
+            for p1,p2 in zip(parts[:-1],parts[1:]):
+                ax.plot(points[p1:p2,0], points[p1:p2,1], c='k',
+                    transform=projection[HEM])
     elif (HEM == 'N'):
         # no GIC or islands
         i=[i for i,a in enumerate(shape_attributes) if a[0] in IMBIE_title[HEM]]
-- 
2.43.0


From 4df06cec6983c8ac6fb23be5874806b0a8f421b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 135/161] fix: ascii grids with other names for the data column

---
 gravity_toolkit/spatial.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index d123675..7cfa2b2 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -287,6 +287,10 @@ class spatial(object):
         self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if date or (c != 'time')]
+        # column with the data: the first that is not a coordinate if unnamed
+        coordinates = ('lon','lat','time')
+        field = 'data' if ('data' in columns) else \
+            [c for c in columns if c not in coordinates][0]
         # extract spatial data array and convert to matrix
         # for each line in the file
         header = kwargs['header']
@@ -297,7 +301,7 @@ class spatial(object):
             # convert line coordinates to integers
             ilon = np.int64(np.floor((np.float64(d['lon']) - lon0)/dlon + offset))
             ilat = np.int64(np.floor((lat0 - np.float64(d['lat']))/dlat + offset))
-            self.data[ilat, ilon] = np.float64(d['data'])
+            self.data[ilat, ilon] = np.float64(d[field])
             self.mask[ilat, ilon] = False
             self.lon[ilon] = np.float64(d['lon'])
             self.lat[ilat] = np.float64(d['lat'])
-- 
2.43.0


From 989ef4b17b15cbb4a24f6fe2e6010a0ec3db3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:51 +0000
Subject: [PATCH 136/161] fix: register color maps with current matplotlib

---
 gravity_toolkit/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index a13f11d..c7b2c56 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -59,6 +59,7 @@ try:
 except (AttributeError, ImportError, ModuleNotFoundError) as exc:
     warnings.warn("ipywidgets not available", ImportWarning)
 try:
+    import matplotlib
     import matplotlib.cm as cm
     import matplotlib.colors as colors
 except (AttributeError, ImportError, ModuleNotFoundError) as exc:
@@ -1023,7 +1024,7 @@ def from_cpt(filename, use_extremes=True, **kwargs):
         cmap = cmap.with_extremes(**extremes)
     # register colormap to be recognizable by cm.get_cmap()
     try:
-        cm.register_cmap(name=name, cmap=cmap)
+        matplotlib.colormaps.register(cmap, name=name, force=True)
     except:
         pass
     # return the colormap
@@ -1107,7 +1108,7 @@ def custom_colormap(N, map_name, **kwargs):
     cmap = colors.LinearSegmentedColormap(map_name, cdict, **kwargs)
     # register colormap to be recognizable by cm.get_cmap()
     try:
-        cm.register_cmap(name=map_name, cmap=cmap)
+        matplotlib.colormaps.register(cmap, name=map_name, force=True)
     except:
         pass
     # return the colormap
-- 
2.43.0


From 544abf3b0c33da9141e79d974fca9a487b8d8efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:37 +0000
Subject: [PATCH 137/161] fix: file patterns of solutions when no mission is
 listed

---
 gravity_toolkit/utilities.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 58aa89e..6a5de97 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -2079,6 +2079,8 @@ def compile_regex_pattern(
         raise ValueError(f'Unknown Level-2 product {DSET}')
     if isinstance(version, int):
         version = str(version).zfill(2)
+    # solutions of either mission if none is listed
+    satellite = mission or r'(?:GRAC|GRFO)'
     # compile regular expression operator for inputs
     if ((DSET == 'GSM') and (PROC == 'CSR') and (DREL in ('RL04','RL05'))):
         # CSR GSM: only monthly degree 60 products
@@ -2090,12 +2092,12 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'CSR') and (DREL == 'RL06')):
         # CSR GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, satellite, solution, release.zfill(2), version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_UTCSR_{2}_{3}{4}(\.gz)?$'
     elif ((DSET == 'GSM') and (PROC == 'CSR') and (DREL.endswith('LRI'))):
         # CSR GSM LRI solutions: monthly products for mission and solution
         release, version = re.findall(r'(\d+)\.(\d+)', DREL).pop()
-        args = (DSET, mission, r'EA01', release.zfill(2), version.zfill(2))
+        args = (DSET, satellite, r'EA01', release.zfill(2), version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_UTCSR_{2}_{3}{4}(\.gz)?$'
     elif ((DSET == 'GSM') and (PROC == 'GFZ') and (DREL == 'RL04')):
         # GFZ RL04: only unconstrained solutions (not GK2 products)
@@ -2109,7 +2111,7 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'GFZ') and (DREL == 'RL06')):
         # GFZ GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, satellite, solution, release.zfill(2), version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_GFZOP_{2}_{3}{4}(\.gz)?$'
     elif (PROC == 'JPL') and DREL in ('RL04','RL05'):
         # JPL: RL04a and RL05a products (denoted by 0001)
@@ -2119,7 +2121,7 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'JPL') and (DREL == 'RL06')):
         # JPL GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, satellite, solution, release.zfill(2), version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_JPLEM_{2}_{3}{4}(\.gz)?$'
     elif (PROC == 'CNES'):
         # CNES: use products in standard format
-- 
2.43.0


From b037770173b0aa3b5ca7a25ac32e265d0f2dd32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:56 +0000
Subject: [PATCH 138/161] fix: file names of another case were matched by the
 start of longer names

---
 gravity_toolkit/geocenter.py | 2 +-
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 7afe9a8..7616aa4 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -129,7 +129,7 @@ class geocenter(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    f.name.lower() == self.filename.name.lower()]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 70a1166..6312bf7 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -183,7 +183,7 @@ class harmonics(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    f.name.lower() == self.filename.name.lower()]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 7cfa2b2..b54d3ea 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -156,7 +156,7 @@ class spatial(object):
             if not self.filename.exists():
                 # search for filename without case dependence
                 f = [f.name for f in self.filename.parent.iterdir() if
-                    re.match(self.filename.name, f.name, re.I)]
+                    f.name.lower() == self.filename.name.lower()]
                 if not f:
                     msg = f'{filename} not found in file system'
                     raise FileNotFoundError(msg)
-- 
2.43.0


From 2c0fa4786fd521c273b3454926faaf3dc4442c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 139/161] fix: geocenter files did not state their atmospheric
 corrections

---
 scripts/calc_degree_one.py        | 3 +++
 scripts/monte_carlo_degree_one.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index 82a28be..3db8ef4 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -598,6 +598,9 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
             LMAX, ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
+        # add attributes for atmospheric corrections
+        attributes['atmospheric_correction'] = 'Fagiolini et al. (2015)'
+        attributes['lineage'].extend(atm_corr['files'])
         # removing the mean of the atmospheric jump correction coefficients
         ATM_Ylms.mean(apply=True)
     # truncate to degree and order LMAX/MMAX
diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 86c9fb8..4d1b136 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -500,6 +500,9 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
         atm_corr = gravtk.read_ecmwf_corrections(base_dir,LMAX,ATM_Ylms.month, MMAX=MMAX)
         ATM_Ylms.clm[:,:,:] = np.copy(atm_corr['clm'])
         ATM_Ylms.slm[:,:,:] = np.copy(atm_corr['slm'])
+        # add attributes for atmospheric corrections
+        attributes['atmospheric_correction'] = 'Fagiolini et al. (2015)'
+        attributes['lineage'].extend(atm_corr['files'])
         # removing the mean of the atmospheric jump correction coefficients
         ATM_Ylms.mean(apply=True)
     # truncate to degree and order LMAX/MMAX
-- 
2.43.0


From b244bf1e11bb03e5a996333136ee2a480f23bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 140/161] fix: attributes of monte carlo geocenter files were
 not written

---
 scripts/monte_carlo_degree_one.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scripts/monte_carlo_degree_one.py b/scripts/monte_carlo_degree_one.py
index 4d1b136..8b313af 100644
--- a/scripts/monte_carlo_degree_one.py
+++ b/scripts/monte_carlo_degree_one.py
@@ -876,6 +876,9 @@ def monte_carlo_degree_one(base_dir, PROC, DREL, LMAX, RAD,
             nc[key].setncattr(att_name, att_val)
 
     # define global attributes
+    for att_name, att_val in attributes.items():
+        fileID.setncattr(att_name, att_val)
+    # define creation date attribute
     fileID.date_created = time.strftime('%Y-%m-%d',time.localtime())
     # close the output file
     fileID.close()
-- 
2.43.0


From ac0a0df67443228b7025ea7a529447230c84f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:47 +0000
Subject: [PATCH 141/161] fix: replaced C30 of LARES was stated under another
 name

---
 gravity_toolkit/grace_input_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index d2768f2..a87ff8a 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -499,7 +499,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         # read SLR file
         C30_input = gravity_toolkit.SLR.C30(SLR_file)
         FLAGS.append('_wLARES_C30')
-        attributes['SLR_C30'] = ('CSR LARES', SLR_file.name)
+        attributes['SLR C30'] = ('CSR LARES', SLR_file.name)
     elif (kwargs['SLR_C30'] == 'GFZ'):
         GravIS_file = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
         SLR_file = base_dir.joinpath(GravIS_file)
-- 
2.43.0


From 83b693d417c5b16a97c7ee8a857c9af1372f0c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:17 +0000
Subject: [PATCH 142/161] fix: frame transformations changed the dictionary
 love numbers came from

---
 gravity_toolkit/read_love_numbers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f2cc9fe..3deeece 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -89,6 +89,7 @@ UPDATE HISTORY:
     Written 01/2012
 """
 import io
+import copy
 import re
 import logging
 import pathlib
@@ -461,7 +462,7 @@ class love_numbers(object):
         """
         # retrieve each Load Love/Shida Number
         for key in ('hl','kl','ll'):
-            setattr(self, key, d.get(key))
+            setattr(self, key, copy.copy(d.get(key)))
         self.lmax = len(self.hl) - 1
         # calculate spherical harmonic degree
         self.update_dimensions()
-- 
2.43.0


From 94ac7241e9944ee1c5147d5f51bbbc7acbad321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:29 +0000
Subject: [PATCH 143/161] fix: flipped and transposed grids shared their data
 with the original

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index b54d3ea..4b10e3b 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1549,7 +1549,7 @@ class spatial(object):
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.flip(getattr(self, key), axis=axis))
+                setattr(temp, key, np.flip(getattr(self, key), axis=axis).copy())
             except Exception as exc:
                 pass
         # update mask
@@ -1570,7 +1570,7 @@ class spatial(object):
         # attempt to transpose possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.transpose(getattr(self, key), axes=axes))
+                setattr(temp, key, np.transpose(getattr(self, key), axes=axes).copy())
             except Exception as exc:
                 pass
         # update mask
-- 
2.43.0


From 9a343547582635822593986e6226db9b42cf91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:19 +0000
Subject: [PATCH 144/161] fix: selecting another release in notebooks failed
 for every center

---
 gravity_toolkit/tools.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index c7b2c56..a411037 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -428,13 +428,13 @@ class widgets:
     def set_max_degree(self, sender):
         """function for setting max degree of a product
         """
-        if (self.center == 'CNES'):
+        if (self.center.value == 'CNES'):
             LMAX = dict(RL01=50,RL02=50,RL03=80,RL04=90,RL05=90)
-        elif (self.center in ('CSR','JPL')):
+        elif (self.center.value in ('CSR','JPL')):
             # CSR RL04/5/6 at LMAX 60
             # JPL RL04/5/6 at LMAX 60
             LMAX = dict(RL04=60,RL05=60,RL06=60)
-        elif (self.center == 'GFZ'):
+        elif (self.center.value == 'GFZ'):
             # GFZ RL04/5 at LMAX 90
             # GFZ RL06 at LMAX 60
             LMAX = dict(RL04=90,RL05=90,RL06=60)
-- 
2.43.0


From fb36a58358130a042e40fec9fb7b578e5863d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:19 +0000
Subject: [PATCH 145/161] fix: colormaps of notebooks used a function
 matplotlib has removed

---
 gravity_toolkit/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index a411037..467befd 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -894,7 +894,7 @@ class colormap:
     def value(self):
         """return string for Matplotlib colormaps
         """
-        return copy.copy(cm.get_cmap(self.name.value + self._r))
+        return copy.copy(matplotlib.colormaps[self.name.value + self._r])
 
     @property
     def norm(self):
-- 
2.43.0


From c23a27b8389159d38a607d70609fb13c752babd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:19 +0000
Subject: [PATCH 146/161] fix: pole tide control of notebooks did not follow
 the product

---
 gravity_toolkit/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 467befd..7242ed2 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -420,7 +420,7 @@ class widgets:
         self.release.observe(self.set_pole_tide)
         self.release.observe(self.set_atm_corr)
         # watch data product widget for changes
-        self.release.observe(self.set_pole_tide)
+        self.product.observe(self.set_pole_tide)
         # watch spherical harmonic degree widget for changes
         self.lmax.observe(self.set_max_order)
 
-- 
2.43.0


From 1b1692855854d2247fa191b20a78070bafc79c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:14 +0000
Subject: [PATCH 147/161] fix: notebooks first offered releases and products
 the center does not have

---
 gravity_toolkit/tools.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 7242ed2..91f68ff 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -187,7 +187,7 @@ class widgets:
         # dropdown menu for setting data release
         self.release = ipywidgets.Dropdown(
             description='Release:',
-            options=['RL04', 'RL05', 'RL06'],
+            options=self.valid_releases,
             value=self.defaults[1],
             disabled=False,
             style=self.style,
@@ -201,7 +201,7 @@ class widgets:
         # GSM: corrected monthly GRACE/GRACE-FO static field product
         self.product = ipywidgets.Dropdown(
             description='Product:',
-            options=['GAC', 'GAD', 'GSM'],
+            options=self.valid_products,
             value=self.defaults[2],
             disabled=False,
             style=self.style,
@@ -230,20 +230,19 @@ class widgets:
         self.release.observe(self.update_months)
 
 
-    # function for setting the data release
-    def set_release(self, sender):
-        """function for updating available releases
+    @property
+    def valid_releases(self):
+        """Returns the data releases of the selected processing center
         """
         if (self.center.value == 'CNES'):
             releases = ['RL01','RL02','RL03', 'RL04', 'RL05']
         else:
             releases = ['RL04', 'RL05', 'RL06']
-        self.release.options=releases
-        self.release.value=releases[-1]
+        return releases
 
-    # function for setting the data product
-    def set_product(self, sender):
-        """function for updating available products
+    @property
+    def valid_products(self):
+        """Returns the data products of the selected center and release
         """
         if (self.center.value == 'CNES'):
             products = {}
@@ -257,7 +256,21 @@ class widgets:
             valid_products = ['GAC', 'GAD', 'GSM']
         elif (self.center.value in ('GFZ','JPL')):
             valid_products = ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']
-        self.product.options=valid_products
+        return valid_products
+
+    # function for setting the data release
+    def set_release(self, sender):
+        """function for updating available releases
+        """
+        releases = self.valid_releases
+        self.release.options=releases
+        self.release.value=releases[-1]
+
+    # function for setting the data product
+    def set_product(self, sender):
+        """function for updating available products
+        """
+        self.product.options=self.valid_products
         self.product.value=self.defaults[2]
 
     # function for updating the available months
-- 
2.43.0


From ed48aae0767efe5784855a65e45e2d373db3b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:56 +0000
Subject: [PATCH 148/161] fix: figures in the jpg format could not be saved

---
 scripts/plot_AIS_GrIS_maps.py     | 3 ++-
 scripts/plot_AIS_grid_3maps.py    | 3 ++-
 scripts/plot_AIS_grid_4maps.py    | 3 ++-
 scripts/plot_AIS_grid_maps.py     | 3 ++-
 scripts/plot_AIS_regional_maps.py | 3 ++-
 scripts/plot_GrIS_grid_3maps.py   | 3 ++-
 scripts/plot_GrIS_grid_5maps.py   | 3 ++-
 scripts/plot_GrIS_grid_maps.py    | 3 ++-
 scripts/plot_QML_grid_3maps.py    | 3 ++-
 scripts/plot_global_grid_3maps.py | 3 ++-
 scripts/plot_global_grid_4maps.py | 3 ++-
 scripts/plot_global_grid_5maps.py | 3 ++-
 scripts/plot_global_grid_9maps.py | 3 ++-
 scripts/plot_global_grid_maps.py  | 3 ++-
 scripts/quick_mascon_plot.py      | 6 ++++--
 15 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 2151ce0..172b1e8 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -677,7 +677,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 1e35d8b..b1c1bd6 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -564,7 +564,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index d469520..b0706b0 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -566,7 +566,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_AIS_grid_maps.py b/scripts/plot_AIS_grid_maps.py
index ffa015d..1f7f201 100644
--- a/scripts/plot_AIS_grid_maps.py
+++ b/scripts/plot_AIS_grid_maps.py
@@ -556,7 +556,8 @@ def plot_grid(base_dir, FILENAME,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_AIS_regional_maps.py b/scripts/plot_AIS_regional_maps.py
index b9c250a..41b045d 100644
--- a/scripts/plot_AIS_regional_maps.py
+++ b/scripts/plot_AIS_regional_maps.py
@@ -644,7 +644,8 @@ def plot_grid(base_dir, FILENAME,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index 77c197e..75f7121 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -582,7 +582,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index fd068e1..4ddee95 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -566,7 +566,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_GrIS_grid_maps.py b/scripts/plot_GrIS_grid_maps.py
index ead4c9e..784d5f0 100644
--- a/scripts/plot_GrIS_grid_maps.py
+++ b/scripts/plot_GrIS_grid_maps.py
@@ -570,7 +570,8 @@ def plot_grid(base_dir, FILENAME,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index 63b5238..8862d8b 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -570,7 +570,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index 16200d1..2404b84 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -422,7 +422,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 54dfbfc..9fa6836 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -424,7 +424,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index 2eac995..89ddcf8 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -430,7 +430,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index b3bb4af..795efe8 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -425,7 +425,8 @@ def plot_grid(base_dir, FILENAMES,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/plot_global_grid_maps.py b/scripts/plot_global_grid_maps.py
index f43fb5d..5af83a2 100644
--- a/scripts/plot_global_grid_maps.py
+++ b/scripts/plot_global_grid_maps.py
@@ -409,7 +409,8 @@ def plot_grid(base_dir, FILENAME,
     # save to file
     logging.info(str(FIGURE_FILE))
     plt.savefig(FIGURE_FILE,
-        metadata={'Title':pathlib.Path(sys.argv[0]).name},
+        metadata=None if (FIGURE_FORMAT == 'jpg') else
+            {'Title':pathlib.Path(sys.argv[0]).name},
         dpi=FIGURE_DPI, format=FIGURE_FORMAT)
     plt.clf()
     # change the permissions mode
diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index e92762b..ae2ccda 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -257,7 +257,8 @@ def main():
                 f'{args.output_file.stem}_{num}{args.output_file.suffix}')
             # save the figure file
             fig.savefig(output,
-                metadata={'Title':pathlib.Path(sys.argv[0]).name},
+                metadata=None if (args.figure_format == 'jpg') else
+                    {'Title':pathlib.Path(sys.argv[0]).name},
                 dpi=args.figure_dpi,
                 format=args.figure_format
             )
@@ -266,7 +267,8 @@ def main():
     elif args.output_file:
         # save the figure file
         plt.savefig(args.output_file,
-            metadata={'Title':pathlib.Path(sys.argv[0]).name},
+            metadata=None if (args.figure_format == 'jpg') else
+                {'Title':pathlib.Path(sys.argv[0]).name},
             dpi=args.figure_dpi,
             format=args.figure_format
         )
-- 
2.43.0


From 0378597eaa86e382382f82e695b8bc42bde440a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:51 +0000
Subject: [PATCH 149/161] fix: error notebook asked an array for its units

---
 notebooks/GRACE-Spatial-Error.ipynb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebooks/GRACE-Spatial-Error.ipynb b/notebooks/GRACE-Spatial-Error.ipynb
index 98eddaf..3ceaf60 100644
--- a/notebooks/GRACE-Spatial-Error.ipynb
+++ b/notebooks/GRACE-Spatial-Error.ipynb
@@ -336,7 +336,7 @@
     "\n",
     "# dfactor is the degree dependent coefficients\n",
     "# for converting to spherical harmonic output units\n",
-    "factors = gravtk.units(lmax=LMAX).harmonic(hl,kl,ll).mmwe\n",
+    "factors = gravtk.units(lmax=LMAX).harmonic(hl,kl,ll)\n",
     "# mmwe, millimeters water equivalent\n",
     "dfactor = factors.get('mmwe')\n",
     "# units strings for output plots\n",
-- 
2.43.0


From 2406f5c5955d7be3b32aca656d81b274fac74c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:51 +0000
Subject: [PATCH 150/161] fix: notebooks passed the endpoint control and not
 its value

---
 notebooks/GRACE-Geostrophic-Maps.ipynb | 2 +-
 notebooks/GRACE-Harmonic-Plots.ipynb   | 2 +-
 notebooks/GRACE-Spatial-Error.ipynb    | 2 +-
 notebooks/GRACE-Spatial-Maps.ipynb     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/notebooks/GRACE-Geostrophic-Maps.ipynb b/notebooks/GRACE-Geostrophic-Maps.ipynb
index 194c880..3b7c5b8 100644
--- a/notebooks/GRACE-Geostrophic-Maps.ipynb
+++ b/notebooks/GRACE-Geostrophic-Maps.ipynb
@@ -91,7 +91,7 @@
     "# if updating the local data\n",
     "if widgets.update.value:\n",
     "    # run podaac sync program to get latest data\n",
-    "    !podaac_cumulus.py --directory=$widgets.base_directory --endpoint=$widgets.endpoint\n",
+    "    !podaac_cumulus.py --directory=$widgets.base_directory --endpoint=$widgets.endpoint.value\n",
     "    # run GRACE date program to verify months\n",
     "    !run_grace_date.py --directory=$widgets.base_directory --verbose\n",
     "    # get geocenter data from Sutterley and Velicogna (2019)\n",
diff --git a/notebooks/GRACE-Harmonic-Plots.ipynb b/notebooks/GRACE-Harmonic-Plots.ipynb
index 3882815..a94cda4 100644
--- a/notebooks/GRACE-Harmonic-Plots.ipynb
+++ b/notebooks/GRACE-Harmonic-Plots.ipynb
@@ -89,7 +89,7 @@
     "# if updating the local data\n",
     "if widgets.update.value:\n",
     "    # run podaac sync program to get latest data\n",
-    "    !podaac_cumulus.py --directory=$widgets.base_directory --endpoint=$widgets.endpoint\n",
+    "    !podaac_cumulus.py --directory=$widgets.base_directory --endpoint=$widgets.endpoint.value\n",
     "    # run GRACE date program to verify months\n",
     "    !run_grace_date.py --directory=$widgets.base_directory --verbose\n",
     "    # get geocenter data from Sutterley and Velicogna (2019)\n",
diff --git a/notebooks/GRACE-Spatial-Error.ipynb b/notebooks/GRACE-Spatial-Error.ipynb
index 3ceaf60..36c85f7 100644
--- a/notebooks/GRACE-Spatial-Error.ipynb
+++ b/notebooks/GRACE-Spatial-Error.ipynb
@@ -86,7 +86,7 @@
     "# if updating the local data\n",
     "if widgets.update.value:\n",
     "    # run podaac sync program to get latest data\n",
-    "    !podaac_cumulus.py --directory=$widgets.base_directory --endpoint=$widgets.endpoint\n",
+    "    !podaac_cumulus.py --directory=$widgets.base_directory --endpoint=$widgets.endpoint.value\n",
     "    # run GRACE date program to verify months\n",
     "    !run_grace_date.py --directory=$widgets.base_directory --verbose\n",
     "    # get geocenter data from Sutterley and Velicogna (2019)\n",
diff --git a/notebooks/GRACE-Spatial-Maps.ipynb b/notebooks/GRACE-Spatial-Maps.ipynb
index 5d65403..ceb2bd4 100644
--- a/notebooks/GRACE-Spatial-Maps.ipynb
+++ b/notebooks/GRACE-Spatial-Maps.ipynb
@@ -101,7 +101,7 @@
     "# if updating the local data\n",
     "if widgets.update.value:\n",
     "    # run podaac sync program to get latest data\n",
-    "    !podaac_cumulus.py --directory=$widgets.base_directory --endpoint=$widgets.endpoint\n",
+    "    !podaac_cumulus.py --directory=$widgets.base_directory --endpoint=$widgets.endpoint.value\n",
     "    # run GRACE date program to verify months\n",
     "    !run_grace_date.py --directory=$widgets.base_directory --verbose\n",
     "    # get geocenter data from Sutterley and Velicogna (2019)\n",
-- 
2.43.0


From 240eded07bf22e6055877ca1387131887a58e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:51 +0000
Subject: [PATCH 151/161] fix: currents of the notebook used polynomials of
 other latitudes

---
 notebooks/GRACE-Geostrophic-Maps.ipynb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/notebooks/GRACE-Geostrophic-Maps.ipynb b/notebooks/GRACE-Geostrophic-Maps.ipynb
index 3b7c5b8..c94c0b7 100644
--- a/notebooks/GRACE-Geostrophic-Maps.ipynb
+++ b/notebooks/GRACE-Geostrophic-Maps.ipynb
@@ -470,7 +470,7 @@
     "    # convert spherical harmonics to output spatial grid\n",
     "    currents = gravtk.geostrophic_currents(Ylms.clm, Ylms.slm,\n",
     "        grid.lon, grid.lat[valid], LMAX=LMAX, MMAX=MMAX,\n",
-    "        RAD=RAD, LOVE=LOVE, PLM=PLM)\n",
+    "        RAD=RAD, LOVE=LOVE, PLM=PLM[:,:,valid])\n",
     "    # transpose to outputs to latxlon\n",
     "    grid.data[valid,:,:,i] = currents.transpose(1,0,2)\n",
     "# update the mask and replace fill values\n",
-- 
2.43.0


From 90a977d96c83102bf24a507cbbab2997e6727793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:30 +0000
Subject: [PATCH 152/161] fix: fits of the maps notebook stopped above second
 order

---
 notebooks/GRACE-Spatial-Maps.ipynb | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/notebooks/GRACE-Spatial-Maps.ipynb b/notebooks/GRACE-Spatial-Maps.ipynb
index ceb2bd4..af3966c 100644
--- a/notebooks/GRACE-Spatial-Maps.ipynb
+++ b/notebooks/GRACE-Spatial-Maps.ipynb
@@ -744,6 +744,10 @@
     "    variable_longname = ['Constant','Trend']\n",
     "elif (ORDER == 2):# Quadratic\n",
     "    variable_longname = ['Constant','Linear','Quadratic']\n",
+    "elif (ORDER == 3):# Cubic\n",
+    "    variable_longname = ['Constant','Linear','Quadratic','Cubic']\n",
+    "elif (ORDER == 4):# Quartic\n",
+    "    variable_longname = ['Constant','Linear','Quadratic','Cubic','Quartic']\n",
     "unit_suffix = [' yr$^{{{0:d}}}$'.format(-o) if o else '' for o in range(ORDER+1)]\n",
     "# strings for cyclical terms\n",
     "cyclic_longname = {}\n",
-- 
2.43.0


From e92a207c11e57f9d6f983384290ff3cd207bca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:07 +0000
Subject: [PATCH 153/161] fix: color bars of ranges below ten steps had no
 levels

---
 gravity_toolkit/tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 91f68ff..504f61d 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -839,11 +839,12 @@ class colormap:
         )
 
         # slider for steps in color bar
-        step = (self.vmax-self.vmin)//kwargs['steps']
+        # (at least 1 to have valid levels)
+        step = max((self.vmax-self.vmin)//kwargs['steps'], 1)
         self.step = ipywidgets.IntSlider(
             value=step,
-            min=0,
-            max=self.vmax-self.vmin,
+            min=1,
+            max=max(self.vmax-self.vmin, 1),
             step=1,
             description='Plot Step:',
             disabled=False,
-- 
2.43.0


From 6fd3c073398050bca52cb45229ba6182b0bde33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:07 +0000
Subject: [PATCH 154/161] fix: fit maps of the notebook could not show a higher
 range

---
 notebooks/GRACE-Spatial-Maps.ipynb | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/notebooks/GRACE-Spatial-Maps.ipynb b/notebooks/GRACE-Spatial-Maps.ipynb
index af3966c..098bff7 100644
--- a/notebooks/GRACE-Spatial-Maps.ipynb
+++ b/notebooks/GRACE-Spatial-Maps.ipynb
@@ -783,10 +783,12 @@
     "    i = variableDropdown.index\n",
     "    cmin = np.min(out.data[:,:,i]).astype(np.int64)\n",
     "    cmax = np.ceil(np.max(out.data[:,:,i])).astype(np.int64)\n",
-    "    cmap2.range.min = cmin\n",
+    "    # keep the minimum below the maximum when updating the limits\n",
+    "    cmap2.range.min = min(cmin, cmap2.range.max)\n",
     "    cmap2.range.max = cmax\n",
+    "    cmap2.range.min = cmin\n",
     "    cmap2.range.value = [cmin,cmax]\n",
-    "    cmap2.step.max = cmax - cmin\n",
+    "    cmap2.step.max = max(cmax - cmin, 1)\n",
     "\n",
     "# watch variable widget for changes\n",
     "variableDropdown.observe(set_range_and_step)\n",
-- 
2.43.0


From a3dbdd47ba87f058f21b24fa1e730f6d71cb2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:16 +0000
Subject: [PATCH 155/161] fix: negative unit codes named units from the end of
 the list

---
 gravity_toolkit/units.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gravity_toolkit/units.py b/gravity_toolkit/units.py
index 366b6fb..f7b44e0 100644
--- a/gravity_toolkit/units.py
+++ b/gravity_toolkit/units.py
@@ -280,6 +280,9 @@ class units(object):
             'cmVCU' # 6: cmVCU, cm viscoelastic crustal uplift (GIA)
         ]
         try:
+            # negative codes would index from the end of the list
+            if (var < 0):
+                raise IndexError('Negative units code')
             return named_units[var]
         except Exception as exc:
             raise ValueError(f'Unknown units code {var}') from exc
-- 
2.43.0


From bf816173e534aa73b37cc54236b5981c478d33f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:16 +0000
Subject: [PATCH 156/161] fix: unknown GIA model types were read as models
 without uplift

---
 gravity_toolkit/read_GIA_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gravity_toolkit/read_GIA_model.py b/gravity_toolkit/read_GIA_model.py
index 5f5e673..b0706cd 100755
--- a/gravity_toolkit/read_GIA_model.py
+++ b/gravity_toolkit/read_GIA_model.py
@@ -220,6 +220,11 @@ def read_GIA_model(input_file, GIA=None, MMAX=None, DATAFORM=None, **kwargs):
     gia_Ylms['url'] = None
     gia_Ylms['title'] = None
 
+    # verify that the GIA model type is known
+    # (no GIA model returns empty harmonics)
+    if (GIA is not None) and (GIA not in _known_gia_types):
+        raise ValueError(f'Unknown GIA model type {GIA}')
+
     # GIA model citations and references
     if (GIA == 'IJ05-R2'):
         # IJ05-R2: Ivins R2 GIA Models
-- 
2.43.0


From aa044be6fcb51b635bf2f13c671d907a27a30ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:16 +0000
Subject: [PATCH 157/161] fix: unknown file formats were read as nothing and
 written nowhere

---
 gravity_toolkit/harmonics.py | 9 +++++++++
 gravity_toolkit/spatial.py   | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 6312bf7..7540d52 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -621,6 +621,8 @@ class harmonics(object):
             elif (kwargs['format'] == 'HDF5'):
                 # HDF5 (.H5)
                 h.append(harmonics().from_HDF5(f, date=kwargs['date']))
+            else:
+                raise ValueError(f'Unknown file format {kwargs["format"]}')
         # create a single harmonic object from the list
         return self.from_list(h,date=kwargs['date'],sort=kwargs['sort'])
 
@@ -727,6 +729,8 @@ class harmonics(object):
         elif (format == 'SHM'):
             # spherical harmonic model
             return harmonics(lmax=self.lmax).from_SHM(filename, **kwargs)
+        else:
+            raise ValueError(f'Unknown file format {format}')
 
     def from_dict(self, d, **kwargs):
         """
@@ -1087,6 +1091,9 @@ class harmonics(object):
         kwargs: dict
             keyword arguments for output writers
         """
+        # verify that the file format is known
+        if format not in ('ascii', 'netCDF4', 'HDF5'):
+            raise ValueError(f'Unknown file format {format}')
         # Write index file of output spherical harmonics
         self.filename = pathlib.Path(filename).expanduser().absolute()
         fid = open(self.filename, mode='w', encoding='utf8')
@@ -1144,6 +1151,8 @@ class harmonics(object):
         elif (format == 'HDF5'):
             # HDF5 (.H5)
             self.to_HDF5(filename, date=date, **kwargs)
+        else:
+            raise ValueError(f'Unknown file format {format}')
 
     def to_dict(self):
         """
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 4b10e3b..6c939bc 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -607,6 +607,8 @@ class spatial(object):
             elif (kwargs['format'] == 'HDF5'):
                 # HDF5 (.H5)
                 s.append(spatial().from_HDF5(f, **kwargs))
+            else:
+                raise ValueError(f'Unknown file format {kwargs["format"]}')
         # create a single spatial object from the list
         return self.from_list(s,date=kwargs['date'],sort=kwargs['sort'])
 
@@ -716,6 +718,8 @@ class spatial(object):
         elif (format == 'HDF5'):
             # HDF5 (.H5)
             return spatial().from_HDF5(filename, date=date, **kwargs)
+        else:
+            raise ValueError(f'Unknown file format {format}')
 
     def from_dict(self, d, **kwargs):
         """
@@ -1100,6 +1104,9 @@ class spatial(object):
         kwargs: dict
             keyword arguments for output writers
         """
+        # verify that the file format is known
+        if format not in ('ascii', 'netCDF4', 'HDF5'):
+            raise ValueError(f'Unknown file format {format}')
         # Write index file of output spatial files
         self.filename = pathlib.Path(filename).expanduser().absolute()
         fid = self.filename.open(mode='w', encoding='utf8')
@@ -1157,6 +1164,8 @@ class spatial(object):
         elif (format == 'HDF5'):
             # HDF5 (.H5)
             self.to_HDF5(filename, date=date, **kwargs)
+        else:
+            raise ValueError(f'Unknown file format {format}')
 
     def default_field_mapping(self, variables):
         """
-- 
2.43.0


From c64270a619fbcfe3f498ca0856c38d0dd452308a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:16 +0000
Subject: [PATCH 158/161] fix: unknown output formats of Love numbers returned
 nothing

---
 gravity_toolkit/read_love_numbers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index 3deeece..1eb5198 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -271,6 +271,8 @@ def love_number_formatter(love, FORMAT='tuple'):
         return zip(love['hl'], love['kl'], love['ll'])
     elif (FORMAT == 'class'):
         return love_numbers().from_dict(love)
+    else:
+        raise ValueError(f'Unknown Love Numbers Format {FORMAT}')
 
 # PURPOSE: read input file and extract contents
 def extract_love_numbers(love_numbers_file):
-- 
2.43.0


From 21760943d1a6590bc4da5220ee7e62dbfa479a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:29 +0000
Subject: [PATCH 159/161] fix: unknown output formats of Julian days returned
 nothing

---
 gravity_toolkit/time.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index c214b62..5694513 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -849,3 +849,5 @@ def convert_julian(JD, **kwargs):
         return (year, month, day, hour, minute, second)
     elif (kwargs['format'] == 'zip'):
         return zip(year, month, day, hour, minute, second)
+    else:
+        raise ValueError(f'Unknown output format {kwargs["format"]}')
-- 
2.43.0


From 517a1ea5b29104c7c58e694a679962d972d36f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:33:07 +0000
Subject: [PATCH 160/161] fix: integer longitudes and coefficients were refused
 or truncated

---
 gravity_toolkit/destripe_harmonics.py | 4 ++--
 gravity_toolkit/gen_harmonics.py      | 3 +--
 gravity_toolkit/gen_stokes.py         | 2 +-
 gravity_toolkit/mascons.py            | 8 ++++----
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/gravity_toolkit/destripe_harmonics.py b/gravity_toolkit/destripe_harmonics.py
index 932c0e0..3378ebc 100644
--- a/gravity_toolkit/destripe_harmonics.py
+++ b/gravity_toolkit/destripe_harmonics.py
@@ -105,8 +105,8 @@ def destripe_harmonics(
         MMAX = np.copy(LMAX)
 
     # output filtered coefficients (copy to not modify input)
-    Wclm = clm1.copy()
-    Wslm = slm1.copy()
+    Wclm = clm1.astype(np.float64)
+    Wslm = slm1.astype(np.float64)
     # matrix size declarations
     clmeven = np.zeros((LMAX), dtype=np.float64)
     slmeven = np.zeros((LMAX), dtype=np.float64)
diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index af60cd6..524fbfa 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -167,8 +167,7 @@ def integration(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     dth = dlat*np.pi/180.0
 
     # reformatting longitudes to range 0:360 (if previously -180:180)
-    if np.count_nonzero(lon < 0):
-        lon[lon < 0] += 360.0
+    lon = np.where(lon < 0, lon + 360.0, lon)
     # calculate longitude and colatitude arrays in radians
     phi = np.reshape(lon,(1,nlon))*np.pi/180.0# reshape to 1xnlon
     th = (90.0 - np.squeeze(lat))*np.pi/180.0# remove singleton dimensions
diff --git a/gravity_toolkit/gen_stokes.py b/gravity_toolkit/gen_stokes.py
index 5856ee3..3a285c1 100755
--- a/gravity_toolkit/gen_stokes.py
+++ b/gravity_toolkit/gen_stokes.py
@@ -137,7 +137,7 @@ def gen_stokes(data, lon, lat, LMIN=0, LMAX=60, MMAX=None, UNITS=1,
     dth = dlat*np.pi/180.0
 
     # reformatting longitudes to range 0:360 (if previously -180:180)
-    lon = np.squeeze(lon.copy())
+    lon = np.squeeze(lon.astype(np.float64))
     if np.any(lon < 0):
         lon_ind, = np.nonzero(lon < 0)
         lon[lon_ind] += 360.0
diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index f5bf73b..7011983 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -63,14 +63,14 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
-    lon_center = np.array(lon_center)
+    lon_center = np.array(lon_center, dtype=np.float64)
     gt180, = np.nonzero(lon_center > 180)
     lon_center[gt180] -= 360.0
     # remove singleton dimensions
     lat = np.squeeze(lat)
     lon = np.squeeze(lon)
     # for mascons centered on 180: use 0:360
-    alon = np.copy(lon)
+    alon = np.array(lon, dtype=np.float64)
     lt0, = np.nonzero(lon < 0)
     alon[lt0] += 360.0
 
@@ -220,7 +220,7 @@ def from_gsfc(mscdata, grid_spacing, lon_center, lat_center, lon_span, lat_span,
     # number of mascons
     nmas = len(lon_center)
     # convert mascon centers to -180:180
-    lon_center = np.array(lon_center)
+    lon_center = np.array(lon_center, dtype=np.float64)
     gt180, = np.nonzero(lon_center > 180)
     lon_center[gt180] -= 360.0
 
@@ -229,7 +229,7 @@ def from_gsfc(mscdata, grid_spacing, lon_center, lat_center, lon_span, lat_span,
     lat = np.arange(90.0-grid_spacing/2.0,-90.0-grid_spacing/2.0,-grid_spacing)
     nlon, nlat = (len(lon),len(lat))
     # for mascons centered on 180: use 0:360
-    alon = np.copy(lon)
+    alon = np.array(lon, dtype=np.float64)
     lt0, = np.nonzero(lon < 0)
     alon[lt0] += 360.0
 
-- 
2.43.0


From 5eb57ada805d5858db756b0f43f99d4e712e4dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:56 +0000
Subject: [PATCH 161/161] fix: models without uplift of the notebooks are named
 [None]

---
 gravity_toolkit/read_GIA_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_GIA_model.py b/gravity_toolkit/read_GIA_model.py
index b0706cd..0433388 100755
--- a/gravity_toolkit/read_GIA_model.py
+++ b/gravity_toolkit/read_GIA_model.py
@@ -221,8 +221,8 @@ def read_GIA_model(input_file, GIA=None, MMAX=None, DATAFORM=None, **kwargs):
     gia_Ylms['title'] = None
 
     # verify that the GIA model type is known
-    # (no GIA model returns empty harmonics)
-    if (GIA is not None) and (GIA not in _known_gia_types):
+    # (no GIA model returns empty harmonics: '[None]' in the notebooks)
+    if (GIA not in (None, '[None]')) and (GIA not in _known_gia_types):
         raise ValueError(f'Unknown GIA model type {GIA}')
 
     # GIA model citations and references
-- 
2.43.0

