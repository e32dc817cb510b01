From 570060ff83485fcc92a2c507074d88072999836c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 01/72] fix: scale spherical harmonic time series by a
 time-variable scalar

---
 gravity_toolkit/harmonics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index f021275..74c3b8f 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1702,6 +1702,8 @@ class harmonics(object):
                 temp.clm[:,:,i] = v*self.clm
                 temp.slm[:,:,i] = v*self.slm
         elif (np.ndim(var) == 1) and (self.ndim == 3):
+            temp.clm = np.zeros_like(self.clm)
+            temp.slm = np.zeros_like(self.slm)
             for i,v in enumerate(var):
                 temp.clm[:,:,i] = v*self.clm[:,:,i]
                 temp.slm[:,:,i] = v*self.slm[:,:,i]
-- 
2.43.0


From d30c7f5da356b62d585a9ff574919bd70353363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 02/72] fix: read Swarm dealiasing files and reject unknown gfc
 filenames

---
 gravity_toolkit/read_gfc_harmonics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_gfc_harmonics.py b/gravity_toolkit/read_gfc_harmonics.py
index d344488..e731b70 100644
--- a/gravity_toolkit/read_gfc_harmonics.py
+++ b/gravity_toolkit/read_gfc_harmonics.py
@@ -178,7 +178,7 @@ def read_gfc_harmonics(input_file, TIDE=None, FLAG='gfc'):
     elif re.match(swarm_model, input_file.name):
         # compile numerical expression operator for parameters from files
         # Swarm: dealiasing products for Swarm data
-        rx = re.compile(swarm_data, re.VERBOSE | re.IGNORECASE)
+        rx = re.compile(swarm_model, re.VERBOSE | re.IGNORECASE)
         # extract parameters from input filename
         PROD,trunc,month,year,SFX = rx.findall(input_file.name).pop()
         # number of days in each month for the calendar year
@@ -186,6 +186,8 @@ def read_gfc_harmonics(input_file, TIDE=None, FLAG='gfc'):
         # create start and end date lists
         start_date = [int(year),int(month),1,0,0,0]
         end_date = [int(year),int(month),dpm[int(month)-1],23,59,59]
+    else:
+        raise ValueError(f'Unknown file format for {input_file.name}')
 
     # python dictionary with model input and headers
     ZIP = bool(re.search('ZIP', SFX, re.IGNORECASE))
-- 
2.43.0


From 300e734083cab9aa88315991669e7f98cb3114c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 03/72] fix: require a breakpoint for the piecewise regression

---
 gravity_toolkit/time_series/piecewise.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index e234900..ab61a87 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -182,6 +182,8 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
     elif BREAK_TIME is not None:
         nco = np.argmin(np.abs(t_in - BREAK_TIME))
         tco = np.copy(BREAK_TIME)
+    else:
+        raise ValueError('BREAKPOINT or BREAK_TIME is required')
 
     # create design matrix for sharp breakpoint piecewise regression
     # y = beta_0 + beta_1*t + e (for x <= alpha)
-- 
2.43.0


From 6dc658016808cd460d1cf426c9a5487896a6aac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 04/72] fix: extend global matrices with the longitude spacing

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 255b57e..f3a0d93 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1261,7 +1261,7 @@ class spatial(object):
         temp.lon = np.zeros((nx+2), dtype=self.lon.dtype)
         temp.lon[0] = self.lon[0] - self.spacing[0]
         temp.lon[1:-1] = self.lon[:]
-        temp.lon[-1] = self.lon[-1] + self.spacing[1]
+        temp.lon[-1] = self.lon[-1] + self.spacing[0]
         # attempt to extend possible data variables
         for key in ['data','mask','error']:
             try:
-- 
2.43.0


From 67c0f665867af80e24f3cd76be6f56e13eb4ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 05/72] fix: keep masked values when raising a spatial field to
 a power

---
 gravity_toolkit/spatial.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index f3a0d93..46ccfb6 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1582,6 +1582,8 @@ class spatial(object):
         """
         temp = self.copy()
         temp.data = np.power(self.data,power)
+        # update mask
+        temp.update_mask()
         return temp
 
     def max(self):
-- 
2.43.0


From 30b0335dcd3c28e9598e9c87ab45d27c071d39fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 06/72] fix: merge dated objects with single valued arrays
 under current numpy

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 74c3b8f..80a28dd 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -663,8 +663,8 @@ class harmonics(object):
             self.clm[:,:,t] = object_list[i].clm[:self.lmax+1,:self.mmax+1]
             self.slm[:,:,t] = object_list[i].slm[:self.lmax+1,:self.mmax+1]
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 46ccfb6..bd4108c 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -646,8 +646,8 @@ class spatial(object):
             if hasattr(object_list[i], 'error'):
                 self.error[:,:,t] = object_list[i].error[:,:].copy()
             if kwargs['date']:
-                self.time[t] = np.atleast_1d(object_list[i].time)
-                self.month[t] = np.atleast_1d(object_list[i].month)
+                self.time[t] = np.squeeze(object_list[i].time)
+                self.month[t] = np.squeeze(object_list[i].month)
             # append filename to list
             if getattr(object_list[i], 'filename'):
                 self.filename.append(object_list[i].filename)
-- 
2.43.0


From 859f6a660c417fa3c3b4120401e13bfc39304b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:48 +0000
Subject: [PATCH 07/72] fix: Julian days of decimal years were one day early

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 8ad52ce..41dd725 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -452,7 +452,7 @@ def calendar_to_julian(year_decimal):
     # Calculation of the Julian date from year and DofY
     JD = np.array(367.0*year - np.floor(7.0*year/4.0) -
         np.floor(3.0*(np.floor((7.0*year - 1.0)/700.0) + 1.0)/4.0) +
-        DofY + 1721058.5, dtype=np.float64)
+        DofY + 1721059.5, dtype=np.float64)
     return JD
 
 # days per month in a leap and a standard year
-- 
2.43.0


From c90156583b04e9e7728fa37cfdb6cce2084aaf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:46 +0000
Subject: [PATCH 08/72] fix: days of March to August were one off in century
 years

---
 gravity_toolkit/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 41dd725..908e293 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -581,7 +581,7 @@ def convert_calendar_dates(year, month, day, hour=0.0, minute=0.0, second=0.0,
     # calculate date in Modified Julian Days (MJD) from calendar date
     # MJD: days since November 17, 1858 (1858-11-17T00:00:00)
     MJD = 367.0*year - np.floor(7.0*(year + np.floor((month+9.0)/12.0))/4.0) - \
-        np.floor(3.0*(np.floor((year + (month - 9.0)/7.0)/100.0) + 1.0)/4.0) + \
+        np.floor(3.0*(np.floor((year + np.trunc((month - 9.0)/7.0))/100.0) + 1.0)/4.0) + \
         np.floor(275.0*month/9.0) + day + hour/24.0 + minute/1440.0 + \
         second/86400.0 + 1721028.5 - 2400000.5
     # convert epochs to datetime variables
-- 
2.43.0


From 6b4620a61cfeb7907ee125f8369a826adb5a7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 09/72] fix: assign scalar polynomials in disc and cap loads
 under current numpy

---
 gravity_toolkit/gen_disc_load.py     | 2 +-
 gravity_toolkit/gen_spherical_cap.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/gen_disc_load.py b/gravity_toolkit/gen_disc_load.py
index 015b391..075b212 100644
--- a/gravity_toolkit/gen_disc_load.py
+++ b/gravity_toolkit/gen_disc_load.py
@@ -183,7 +183,7 @@ def gen_disc_load(data, lon, lat, area, LMAX=60, MMAX=None, UNITS=2,
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
         pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
         pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
-        pl_alpha[l] = (pl_lower - pl_upper)/2.0
+        pl_alpha[l] = np.squeeze(pl_lower - pl_upper)/2.0
 
     # Calculate Legendre Polynomials using Holmes and Featherstone relation
     # this would be the plm for the center of the disc load
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 208d888..61cb5cc 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -225,7 +225,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
         # sqrt(2*l + 3) == sqrt(2*(l+1) + 1)
         pl_lower = pl_matrix[l-1]/np.sqrt(2.0*l-1.0)
         pl_upper = pl_matrix[l+1]/np.sqrt(2.0*l+3.0)
-        pl_alpha[l] = (pl_lower - pl_upper)/2.0
+        pl_alpha[l] = np.squeeze(pl_lower - pl_upper)/2.0
 
     # Calculating Legendre Polynomials
     # added option to precompute plms to improve computational speed
-- 
2.43.0


From b0c645e4a579a9a9db375554cfe02165970e04f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:45 +0000
Subject: [PATCH 10/72] fix: transform harmonics truncated in order

---
 gravity_toolkit/harmonic_summation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonic_summation.py b/gravity_toolkit/harmonic_summation.py
index 3eed02c..a9f969f 100755
--- a/gravity_toolkit/harmonic_summation.py
+++ b/gravity_toolkit/harmonic_summation.py
@@ -182,7 +182,7 @@ def harmonic_transform(clm1, slm1, lon, lat,
     # calculate Ylms summation for each theta band
     for k in range(0,thmax):
         # summation over all spherical harmonic degrees
-        delta_M[:,k] = np.sum(PLM[:,:,k]*Ylms[:,:],axis=0)/2.0
+        delta_M[:,k] = np.sum(PLM[:,:MMAX+1,k]*Ylms[:,:],axis=0)/2.0
 
     # output spatial field from FFT transformation
     s = np.zeros((phimax,thmax))
-- 
2.43.0


From edc8776a952e04f7604c3805270205500dee5d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:07 +0000
Subject: [PATCH 11/72] fix: remove degrees below LMIN from geostrophic
 currents

---
 gravity_toolkit/harmonic_gradients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index dfc5ae3..5bdaa65 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -251,8 +251,8 @@ def geostrophic_currents(clm1, slm1, lon, lat,
     # Truncating harmonics to degree and order LMAX
     # removing coefficients below LMIN and above MMAX
     mm = np.arange(0, MMAX+1)
-    clm[LMIN:LMAX+1,mm,:] = clm[LMIN:LMAX+1,mm,:]
-    slm[LMIN:LMAX+1,mm,:] = slm[LMIN:LMAX+1,mm,:]
+    clm[:LMIN,:,:] = 0.0
+    slm[:LMIN,:,:] = 0.0
 
     # Calculate fourier coefficients from legendre coefficients
     d_cos = np.zeros((MMAX+1,thmax,2))# [m,th]
-- 
2.43.0


From c95d3e367047dc47088019f0adcc77bb4497d0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 12/72] fix: gradients of harmonics truncated in order or of
 odd order

---
 gravity_toolkit/harmonic_gradients.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 5bdaa65..245240d 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -99,20 +99,20 @@ def harmonic_gradients(clm1, slm1, lon, lat,
     mm = np.arange(0,MMAX+1)[:, np.newaxis]# mmax+1 to include mmax
 
     # generate Vlm coefficients (vlm and wlm)
-    vlm, wlm = legendre_gradient(LMAX, MMAX)
+    vlm, wlm = legendre_gradient(LMAX, LMAX)
 
-    dlm = np.zeros((LMAX+1,LMAX+1,2))
+    dlm = np.zeros((LMAX+1,MMAX+1,2))
     # minus sign is because lat and theta change with opposite sign
     for l in range(0,LMAX+1):
         dlm[l,:,0] = -clm[l,:]*np.sqrt((l+1.0)*l)
         dlm[l,:,1] = -slm[l,:]*np.sqrt((l+1.0)*l)
 
-    m_even = np.arange(0,MMAX+2,2)
-    m_odd = np.arange(1,MMAX,2)
+    m_even = np.arange(0,MMAX+1,2)
+    m_odd = np.arange(1,MMAX+1,2)
 
     # Calculate fourier coefficients from legendre coefficients
-    d_cos = np.zeros((LMAX+1,thmax,2))
-    d_sin = np.zeros((LMAX+1,thmax,2))
+    d_cos = np.zeros((MMAX+1,thmax,2))
+    d_sin = np.zeros((MMAX+1,thmax,2))
     cnk = np.cos(np.dot(th[:,np.newaxis],ll))
     snk = np.sin(np.dot(th[:,np.newaxis],ll))
 
-- 
2.43.0


From f9ec19c68950ff60d2857bddf306c1ebf3a0e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 13/72] fix: angular frequencies of a frequency range

---
 gravity_toolkit/time_series/lomb_scargle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/lomb_scargle.py b/gravity_toolkit/time_series/lomb_scargle.py
index f24c332..a0cd882 100755
--- a/gravity_toolkit/time_series/lomb_scargle.py
+++ b/gravity_toolkit/time_series/lomb_scargle.py
@@ -116,7 +116,7 @@ def lomb_scargle(t_in, d_in, **kwargs):
     if kwargs['OMEGA']:
         OMEGA = np.atleast_1d(kwargs['OMEGA'])
     elif kwargs['FREQUENCY']:
-        OMEGA = np.atleast_1d(kwargs['FREQUENCY'])/(2.0*np.pi)
+        OMEGA = np.atleast_1d(kwargs['FREQUENCY'])*(2.0*np.pi)
     elif kwargs['PERIOD']:
         OMEGA = (2.0*np.pi)/np.atleast_1d(kwargs['PERIOD'])
     else:
-- 
2.43.0


From 460c857f2be16f2b1260821c11dccd485a0d2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 14/72] fix: propagated errors of piecewise regressions are
 standard deviations

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index ab61a87..70dfe70 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -313,7 +313,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         NORMEQ = np.dot(Hinv,np.transpose(DMAT))
         temp_err = np.zeros((n_terms))
         for i in range(0,n_terms):
-            temp_err[i] = np.sum((NORMEQ[i,:]*P_err)**2)
+            temp_err[i] = np.sqrt(np.sum((NORMEQ[i,:]*P_err)**2))
         # Recalculating beta2 error
         beta_err = np.copy(temp_err)
         beta_err[2] = np.sqrt(temp_err[1]**2 + temp_err[2]**2)
-- 
2.43.0


From a587f69db1c911e7609807a0a4aa2729521bc1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 15/72] fix: keep the input uncertainties of weighted
 regressions

---
 gravity_toolkit/time_series/piecewise.py | 2 +-
 gravity_toolkit/time_series/regress.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/piecewise.py b/gravity_toolkit/time_series/piecewise.py
index 70dfe70..210384c 100755
--- a/gravity_toolkit/time_series/piecewise.py
+++ b/gravity_toolkit/time_series/piecewise.py
@@ -214,7 +214,7 @@ def piecewise(t_in, d_in, BREAK_TIME=None, BREAKPOINT=None,
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
-            DATA_ERR[DATA_ERR == 0.0] = np.finfo(np.float64).eps
+            DATA_ERR = np.where(DATA_ERR == 0.0, np.finfo(np.float64).eps, DATA_ERR)
         # Weight Precision
         wi = np.squeeze(DATA_ERR**(-2))
         # If uncorrelated weights are the diagonal
diff --git a/gravity_toolkit/time_series/regress.py b/gravity_toolkit/time_series/regress.py
index bca9ecd..fd324cd 100755
--- a/gravity_toolkit/time_series/regress.py
+++ b/gravity_toolkit/time_series/regress.py
@@ -223,7 +223,7 @@ def regress(t_in, d_in, ORDER=1, CYCLES=[0.5,1.0], TERMS=[],
         # check if any error values are 0 (prevent infinite weights)
         if np.count_nonzero(DATA_ERR == 0.0):
             # change to minimum floating point value
-            DATA_ERR[DATA_ERR == 0.0] = np.finfo(np.float64).eps
+            DATA_ERR = np.where(DATA_ERR == 0.0, np.finfo(np.float64).eps, DATA_ERR)
         # Weight Precision
         wi = np.squeeze(DATA_ERR**(-2))
         # If uncorrelated weights are the diagonal
-- 
2.43.0


From 21bda59cc566f5dfd63ad068ed88e805bd4371c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:46 +0000
Subject: [PATCH 16/72] fix: Savitzky-Golay filter under current numpy

---
 gravity_toolkit/time_series/savitzky_golay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/time_series/savitzky_golay.py b/gravity_toolkit/time_series/savitzky_golay.py
index a95e4a0..ccf8e23 100644
--- a/gravity_toolkit/time_series/savitzky_golay.py
+++ b/gravity_toolkit/time_series/savitzky_golay.py
@@ -123,10 +123,10 @@ def savitzky_golay(t_in, y_in, WINDOW=None, ORDER=2, DERIV=0,
     for n in range(0, (nmax-(2*half_window))):
         yran = y_in[n + np.arange(0, 2*half_window+1)]
         # Vandermonde matrix for the time-series
-        b = np.mat([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
+        b = np.array([[(t_in[k]-t_in[n+half_window])**i for i in order_range]
             for k in range(n, n+2*half_window+1)])
         # compute the pseudoinverse of the design matrix
-        m=np.linalg.pinv(b).A[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
+        m=np.linalg.pinv(b)[DERIV]*RATE**DERIV*scipy.special.factorial(DERIV)
         # pad the signal at the extremes with values taken from the signal
         firstvals = yran[0] - np.abs(yran[1:half_window+1][::-1] - yran[0])
         lastvals = yran[-1] + np.abs(yran[-half_window-1:-1][::-1] - yran[-1])
-- 
2.43.0


From bc624a7a67f4753612f1607ac32072a7bb45918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 17/72] fix: read spherical harmonic models with from_file

---
 gravity_toolkit/harmonics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 80a28dd..01583b5 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -721,7 +721,8 @@ class harmonics(object):
             return harmonics().from_gfc(filename, **kwargs)
         elif (format == 'SHM'):
             # spherical harmonic model
-            return harmonics().from_SHM(filename, self.lmax, **kwargs)
+            return harmonics(lmax=self.lmax, mmax=self.mmax).from_SHM(filename,
+                **kwargs)
 
     def from_dict(self, d, **kwargs):
         """
-- 
2.43.0


From aaa5e2cd95788812938e25b9327fd258806e710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 18/72] fix: squeeze harmonics without updating dimensions

---
 gravity_toolkit/harmonics.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 01583b5..b04dc2c 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1420,9 +1420,6 @@ class harmonics(object):
         # assign degree and order fields
         if update_dimensions:
             self.update_dimensions()
-        else:
-            self.ndim = self.clm.ndim
-            self.shape = self.clm.shape
         return self
 
     def flatten(self, date=True):
-- 
2.43.0


From 43ef3a3c2021d6f37758f18b0c4cb726549f0184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 19/72] fix: degree one of the ocean bottom pressure model

---
 scripts/calc_degree_one.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/calc_degree_one.py b/scripts/calc_degree_one.py
index bf0f538..b7c0527 100755
--- a/scripts/calc_degree_one.py
+++ b/scripts/calc_degree_one.py
@@ -620,7 +620,7 @@ def calc_degree_one(base_dir, PROC, DREL, MODEL, LMAX, RAD,
         # removing the mean of the ecco spherical harmonic coefficients
         OBP_Ylms.mean(apply=True)
         # converting ecco degree 1 harmonics to coefficients of mass
-        OBP = gravtk.geocenter.from_harmonics(OBP_Ylms).scale(dfactor[1])
+        OBP = gravtk.geocenter().from_harmonics(OBP_Ylms).scale(dfactor[1])
 
     # Calculating cos/sin of phi arrays
     # output [m,phi]
-- 
2.43.0


From fab443bdc063f08dafe05d92d8792bbfc789c579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 20/72] fix: limits of the image mosaic in regional movies

---
 scripts/plot_AIS_regional_movie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 528aa0b..6d6e964 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -500,7 +500,7 @@ def animate_grid(base_dir, FILENAME,
     # plot image of MODIS mosaic of Antarctica as base layer
     if BASEMAP:
         # plot MODIS mosaic of Antarctica
-        plot_image_mosaic(ax1, base_dir)
+        plot_image_mosaic(ax1, base_dir, xlimits, ylimits)
 
     # calculate image coordinates
     mx = np.int64((xlimits[1]-xlimits[0])/1000.)+1
-- 
2.43.0


From fbc7b161eba63d96a26a88da6e48bc8be0906e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:49 +0000
Subject: [PATCH 21/72] fix: get color maps of plots under current matplotlib

---
 scripts/plot_AIS_GrIS_maps.py      | 2 +-
 scripts/plot_AIS_grid_3maps.py     | 2 +-
 scripts/plot_AIS_grid_4maps.py     | 2 +-
 scripts/plot_AIS_grid_maps.py      | 2 +-
 scripts/plot_AIS_grid_movie.py     | 2 +-
 scripts/plot_AIS_regional_maps.py  | 2 +-
 scripts/plot_AIS_regional_movie.py | 2 +-
 scripts/plot_GrIS_grid_3maps.py    | 2 +-
 scripts/plot_GrIS_grid_5maps.py    | 2 +-
 scripts/plot_GrIS_grid_maps.py     | 2 +-
 scripts/plot_GrIS_grid_movie.py    | 2 +-
 scripts/plot_QML_grid_3maps.py     | 2 +-
 scripts/plot_global_grid_3maps.py  | 2 +-
 scripts/plot_global_grid_4maps.py  | 2 +-
 scripts/plot_global_grid_5maps.py  | 2 +-
 scripts/plot_global_grid_9maps.py  | 2 +-
 scripts/plot_global_grid_maps.py   | 2 +-
 scripts/plot_global_grid_movie.py  | 2 +-
 18 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/scripts/plot_AIS_GrIS_maps.py b/scripts/plot_AIS_GrIS_maps.py
index 898d70b..8e1a820 100644
--- a/scripts/plot_AIS_GrIS_maps.py
+++ b/scripts/plot_AIS_GrIS_maps.py
@@ -391,7 +391,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_3maps.py b/scripts/plot_AIS_grid_3maps.py
index 86065c6..b0146dd 100644
--- a/scripts/plot_AIS_grid_3maps.py
+++ b/scripts/plot_AIS_grid_3maps.py
@@ -299,7 +299,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_4maps.py b/scripts/plot_AIS_grid_4maps.py
index baac669..8ffc36a 100644
--- a/scripts/plot_AIS_grid_4maps.py
+++ b/scripts/plot_AIS_grid_4maps.py
@@ -300,7 +300,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_maps.py b/scripts/plot_AIS_grid_maps.py
index 585a13f..e087138 100644
--- a/scripts/plot_AIS_grid_maps.py
+++ b/scripts/plot_AIS_grid_maps.py
@@ -310,7 +310,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_grid_movie.py b/scripts/plot_AIS_grid_movie.py
index 94f68ba..e397e38 100644
--- a/scripts/plot_AIS_grid_movie.py
+++ b/scripts/plot_AIS_grid_movie.py
@@ -314,7 +314,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_regional_maps.py b/scripts/plot_AIS_regional_maps.py
index b935a79..fd9fdb1 100644
--- a/scripts/plot_AIS_regional_maps.py
+++ b/scripts/plot_AIS_regional_maps.py
@@ -389,7 +389,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_AIS_regional_movie.py b/scripts/plot_AIS_regional_movie.py
index 6d6e964..05e7da6 100644
--- a/scripts/plot_AIS_regional_movie.py
+++ b/scripts/plot_AIS_regional_movie.py
@@ -394,7 +394,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_3maps.py b/scripts/plot_GrIS_grid_3maps.py
index b317cee..7ca4649 100644
--- a/scripts/plot_GrIS_grid_3maps.py
+++ b/scripts/plot_GrIS_grid_3maps.py
@@ -316,7 +316,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_5maps.py b/scripts/plot_GrIS_grid_5maps.py
index a766d8f..5809f76 100644
--- a/scripts/plot_GrIS_grid_5maps.py
+++ b/scripts/plot_GrIS_grid_5maps.py
@@ -299,7 +299,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_maps.py b/scripts/plot_GrIS_grid_maps.py
index 440970c..b3461d0 100644
--- a/scripts/plot_GrIS_grid_maps.py
+++ b/scripts/plot_GrIS_grid_maps.py
@@ -323,7 +323,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_GrIS_grid_movie.py b/scripts/plot_GrIS_grid_movie.py
index 39fa1b5..7f47408 100644
--- a/scripts/plot_GrIS_grid_movie.py
+++ b/scripts/plot_GrIS_grid_movie.py
@@ -335,7 +335,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Greenland as basemap
     if BASEMAP:
diff --git a/scripts/plot_QML_grid_3maps.py b/scripts/plot_QML_grid_3maps.py
index d9ec864..3225aaf 100644
--- a/scripts/plot_QML_grid_3maps.py
+++ b/scripts/plot_QML_grid_3maps.py
@@ -305,7 +305,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
 
     # if using MODIS mosaic of Antarctica as basemap
     if BASEMAP:
diff --git a/scripts/plot_global_grid_3maps.py b/scripts/plot_global_grid_3maps.py
index e20993e..a099695 100644
--- a/scripts/plot_global_grid_3maps.py
+++ b/scripts/plot_global_grid_3maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_4maps.py b/scripts/plot_global_grid_4maps.py
index 7763322..4734446 100644
--- a/scripts/plot_global_grid_4maps.py
+++ b/scripts/plot_global_grid_4maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_5maps.py b/scripts/plot_global_grid_5maps.py
index f58cc31..755cac4 100644
--- a/scripts/plot_global_grid_5maps.py
+++ b/scripts/plot_global_grid_5maps.py
@@ -177,7 +177,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_9maps.py b/scripts/plot_global_grid_9maps.py
index 8c58483..850fd9a 100644
--- a/scripts/plot_global_grid_9maps.py
+++ b/scripts/plot_global_grid_9maps.py
@@ -176,7 +176,7 @@ def plot_grid(base_dir, FILENAMES,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_maps.py b/scripts/plot_global_grid_maps.py
index f23ac3f..33409ea 100644
--- a/scripts/plot_global_grid_maps.py
+++ b/scripts/plot_global_grid_maps.py
@@ -174,7 +174,7 @@ def plot_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
diff --git a/scripts/plot_global_grid_movie.py b/scripts/plot_global_grid_movie.py
index 3d629a0..4feadf6 100644
--- a/scripts/plot_global_grid_movie.py
+++ b/scripts/plot_global_grid_movie.py
@@ -173,7 +173,7 @@ def animate_grid(base_dir, FILENAME,
         cmap = gravtk.tools.from_cpt(CPT_FILE)
     else:
         # colormap
-        cmap = copy.copy(cm.get_cmap(COLOR_MAP))
+        cmap = copy.copy(plt.get_cmap(COLOR_MAP))
     # grey color map for bad values
     cmap.set_bad('w',0.5)
 
-- 
2.43.0


From 418bc823e06b8389d39e25e9f08d18078691638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:52 +0000
Subject: [PATCH 22/72] fix: get and register color maps under current
 matplotlib

---
 gravity_toolkit/tools.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 36c93f0..31c5063 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -59,6 +59,7 @@ try:
 except (AttributeError, ImportError, ModuleNotFoundError) as exc:
     warnings.warn("ipywidgets not available", ImportWarning)
 try:
+    import matplotlib
     import matplotlib.cm as cm
     import matplotlib.colors as colors
 except (AttributeError, ImportError, ModuleNotFoundError) as exc:
@@ -893,7 +894,7 @@ class colormap:
     def value(self):
         """return string for Matplotlib colormaps
         """
-        return copy.copy(cm.get_cmap(self.name.value + self._r))
+        return copy.copy(matplotlib.colormaps[self.name.value + self._r])
 
     @property
     def norm(self):
@@ -1023,7 +1024,7 @@ def from_cpt(filename, use_extremes=True, **kwargs):
         cmap = cmap.with_extremes(**extremes)
     # register colormap to be recognizable by cm.get_cmap()
     try:
-        cm.register_cmap(name=name, cmap=cmap)
+        matplotlib.colormaps.register(cmap, name=name)
     except:
         pass
     # return the colormap
@@ -1107,7 +1108,7 @@ def custom_colormap(N, map_name, **kwargs):
     cmap = colors.LinearSegmentedColormap(map_name, cdict, **kwargs)
     # register colormap to be recognizable by cm.get_cmap()
     try:
-        cm.register_cmap(name=map_name, cmap=cmap)
+        matplotlib.colormaps.register(cmap, name=map_name)
     except:
         pass
     # return the colormap
-- 
2.43.0


From e60572d1a809d513a4ba9ed1c39cc68341eb07f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:14 +0000
Subject: [PATCH 23/72] fix: combine harmonics truncated in order

---
 scripts/combine_harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/combine_harmonics.py b/scripts/combine_harmonics.py
index 17df8b3..825a42b 100644
--- a/scripts/combine_harmonics.py
+++ b/scripts/combine_harmonics.py
@@ -282,7 +282,7 @@ def combine_harmonics(INPUT_FILE, OUTPUT_FILE,
         Ylms.convolve(dfactor*wt)
         # convert spherical harmonics to output spatial grid
         grid.data[:,:,t] = gravtk.harmonic_summation(Ylms.clm, Ylms.slm,
-            grid.lon, grid.lat, LMAX=LMAX, PLM=PLM).T
+            grid.lon, grid.lat, LMAX=LMAX, MMAX=MMAX, PLM=PLM).T
 
     # outputting data to file
     grid.squeeze().to_file(filename=OUTPUT_FILE, format=dataform,
-- 
2.43.0


From 2c324a82e5fab14ae40bfe6513b0dadcdac11c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 24/72] fix: accept the documented timeout of token requests

---
 gravity_toolkit/utilities.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 4c8c046..2ec578f 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1023,6 +1023,7 @@ def get_token(
         build: bool = True,
         context: ssl.SSLContext = _default_ssl_context,
         urs: str = 'urs.earthdata.nasa.gov',
+        timeout: int | None = None,
     ):
     """
     Generate a NASA Earthdata User Token
@@ -1062,7 +1063,7 @@ def get_token(
     # create post response with Earthdata token API
     try:
         request = urllib2.Request(HOST, method='POST')
-        response = urllib2.urlopen(request)
+        response = urllib2.urlopen(request, timeout=timeout)
     except urllib2.HTTPError as exc:
         logging.debug(exc.code)
         raise RuntimeError(exc.reason) from exc
@@ -1080,6 +1081,7 @@ def list_tokens(
         build: bool = True,
         context: ssl.SSLContext = _default_ssl_context,
         urs: str = 'urs.earthdata.nasa.gov',
+        timeout: int | None = None,
     ):
     """
     List the current associated NASA Earthdata User Tokens
@@ -1119,7 +1121,7 @@ def list_tokens(
     # create get response with Earthdata list tokens API
     try:
         request = urllib2.Request(HOST)
-        response = urllib2.urlopen(request)
+        response = urllib2.urlopen(request, timeout=timeout)
     except urllib2.HTTPError as exc:
         logging.debug(exc.code)
         raise RuntimeError(exc.reason) from exc
@@ -1138,6 +1140,7 @@ def revoke_token(
         build: bool = True,
         context: ssl.SSLContext = _default_ssl_context,
         urs: str = 'urs.earthdata.nasa.gov',
+        timeout: int | None = None,
     ):
     """
     Generate a NASA Earthdata User Token
@@ -1176,7 +1179,7 @@ def revoke_token(
     # create post response with Earthdata revoke tokens API
     try:
         request = urllib2.Request(url, method='POST')
-        response = urllib2.urlopen(request)
+        response = urllib2.urlopen(request, timeout=timeout)
     except urllib2.HTTPError as exc:
         logging.debug(exc.code)
         raise RuntimeError(exc.reason) from exc
-- 
2.43.0


From cb6367cc471d411d12f16c3a773eba7366663952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:47 +0000
Subject: [PATCH 25/72] fix: documented parameter names

---
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 gravity_toolkit/time.py      | 2 +-
 gravity_toolkit/tools.py     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index b04dc2c..e9dcc10 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1715,7 +1715,7 @@ class harmonics(object):
 
         Parameters
         ----------
-        var: float
+        power: float
             power to which the ``harmonics`` object will be raised
         """
         # assign degree and order fields
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index bd4108c..9a4034f 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1534,7 +1534,7 @@ class spatial(object):
 
         Parameters
         ----------
-        axis: int or NoneType, default None
+        axes: int or NoneType, default None
             order of the output axes
         """
         # output spatial object
diff --git a/gravity_toolkit/time.py b/gravity_toolkit/time.py
index 908e293..59ede9e 100644
--- a/gravity_toolkit/time.py
+++ b/gravity_toolkit/time.py
@@ -436,7 +436,7 @@ def calendar_to_julian(year_decimal):
 
     Parameters
     ----------
-    year: np.ndarray
+    year_decimal: np.ndarray
         calendar year
 
     Returns
diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 31c5063..22058e2 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1182,7 +1182,7 @@ def interp_grid(data, xin, yin, xout, yout, order=0):
 
     Parameters
     ----------
-    datain: np.ndarray
+    data: np.ndarray
         input data grid to be interpolated
     xin: np.ndarray
         input x-coordinate array (monotonically increasing)
-- 
2.43.0


From fa97f7636192b110f56cae5bb57d223570de0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 26/72] fix: documented defaults and option values

---
 gravity_toolkit/associated_legendre.py |  2 +-
 gravity_toolkit/destripe_harmonics.py  |  2 +-
 gravity_toolkit/gen_spherical_cap.py   |  2 +-
 gravity_toolkit/harmonics.py           |  4 ++--
 gravity_toolkit/spatial.py             |  6 +++---
 gravity_toolkit/time_series/regress.py |  2 +-
 gravity_toolkit/time_series/smooth.py  |  4 ++--
 gravity_toolkit/utilities.py           | 18 +++++++++---------
 8 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index cfb11ab..a77cf0b 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -42,7 +42,7 @@ def associated_legendre(LMAX, x,
     method: str, default 'holmes'
         Method for computing the associated Legendre polynomials
 
-            - ``'columbo'``
+            - ``'colombo'``
             - ``'holmes'``
             - ``'mohlenkamp'``
     MMAX: int or NoneType, default None
diff --git a/gravity_toolkit/destripe_harmonics.py b/gravity_toolkit/destripe_harmonics.py
index 932c0e0..e1b6336 100644
--- a/gravity_toolkit/destripe_harmonics.py
+++ b/gravity_toolkit/destripe_harmonics.py
@@ -85,7 +85,7 @@ def destripe_harmonics(
         Upper bound of Spherical Harmonic Orders
     ROUND: bool, default True
         use round to find nearest even
-    NARROW: bool, default True
+    NARROW: bool, default False
         set harmonics to 0 if less than window size
 
     Returns
diff --git a/gravity_toolkit/gen_spherical_cap.py b/gravity_toolkit/gen_spherical_cap.py
index 61cb5cc..09905ea 100755
--- a/gravity_toolkit/gen_spherical_cap.py
+++ b/gravity_toolkit/gen_spherical_cap.py
@@ -126,7 +126,7 @@ def gen_spherical_cap(data, lon, lat, LMAX=60, MMAX=None,
             - ``2``: gigatonnes of mass (Gt)
             - ``3``: mm water equivalent thickness (mm w.e., kg/m\ :sup:`2`)
             - list: custom unit conversion factor
-    PLM: np.ndarray, default 0
+    PLM: np.ndarray or NoneType, default None
         Input Legendre polynomials
     LOVE: tuple or NoneType, default None
         Input load Love numbers up to degree LMAX (``hl``, ``kl``, ``ll``)
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index e9dcc10..4879985 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -491,7 +491,7 @@ class harmonics(object):
         ----------
         filename: str
             full path of input gfc file
-        date: bool, default True
+        date: bool, default False
             gfc file has date information
         tide: str or NoneType, default None
             permanent tide system of output gravity fields
@@ -632,7 +632,7 @@ class harmonics(object):
             files contains date information
         sort: bool, default True
             sort ``harmonics`` objects by date information
-        clear: bool, default True
+        clear: bool, default False
             clear the list of ``harmonics`` objects from memory
         """
         # set default keyword arguments
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 9a4034f..f95b2b8 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -319,7 +319,7 @@ class spatial(object):
                 - ``'gzip'``
                 - ``'zip'``
                 - ``'bytes'``
-        varname: str, default 'data'
+        varname: str, default 'z'
             name for data variable
         lonname: str, default 'lon'
             name for longitude variable
@@ -435,7 +435,7 @@ class spatial(object):
                 - ``'gzip'``
                 - ``'zip'``
                 - ``'bytes'``
-        varname: str, default 'data'
+        varname: str, default 'z'
             name for data variable
         lonname: str, default 'lon'
             name for longitude variable
@@ -607,7 +607,7 @@ class spatial(object):
             files contains date information
         sort: bool, default True
             sort ``spatial`` objects by date information
-        clear: bool, default True
+        clear: bool, default False
             clear the list of ``spatial`` objects from memory
         """
         # set default keyword arguments
diff --git a/gravity_toolkit/time_series/regress.py b/gravity_toolkit/time_series/regress.py
index fd324cd..e7ba02c 100755
--- a/gravity_toolkit/time_series/regress.py
+++ b/gravity_toolkit/time_series/regress.py
@@ -145,7 +145,7 @@ def regress(t_in, d_in, ORDER=1, CYCLES=[0.5,1.0], TERMS=[],
         Standard deviation of output error
     CONF: float, default 0
         Confidence interval of output error
-    AICc: bool, default False
+    AICc: bool, default True
         Use second order AIC for small sample sizes :cite:p:`Burnham:2002ms`
 
     Returns
diff --git a/gravity_toolkit/time_series/smooth.py b/gravity_toolkit/time_series/smooth.py
index 247e934..662da76 100755
--- a/gravity_toolkit/time_series/smooth.py
+++ b/gravity_toolkit/time_series/smooth.py
@@ -100,14 +100,14 @@ def smooth(t_in, d_in, HFWTH=6, MOVING=False, DATA_ERR=0, WEIGHT=0,
         half-width of the moving average
     MOVING: bool, default False
         calculates centered moving average using mean of window
+    DATA_ERR: float or list
+        input error for known and equal errors
     WEIGHT: smoothing algorithm that backward models dates before
         half-width and forward models dates after half-width
 
             - ``0``: use unweighted Loess filter
             - ``1``: use linear weights with Loess filter
             - ``2``: use gaussian weights with Loess filter
-    DATA_ERR: float or list
-        input error for known and equal errors
     STDEV: float, default 0
         Standard deviation of output error
     CONF: float, default 0
diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 2ec578f..d7cfaa4 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -959,9 +959,9 @@ def build_opener(
 
     Parameters
     ----------
-    username: str or NoneType, default None
+    username: str or NoneType
         NASA Earthdata username
-    password: str or NoneType, default None
+    password: str or NoneType
         NASA Earthdata password
     context: obj, default gravity_toolkit.utilities._default_ssl_context
         SSL context for ``urllib`` opener object
@@ -1038,12 +1038,12 @@ def get_token(
         NASA Earthdata password
     build: bool, default True
         Build opener and check WebDAV credentials
-    timeout: int or NoneType, default None
-        timeout in seconds for blocking operations
     context: obj, default gravity_toolkit.utilities._default_ssl_context
         SSL context for ``urllib`` opener object
     urs: str, default 'urs.earthdata.nasa.gov'
         NASA Earthdata URS 3 host
+    timeout: int or NoneType, default None
+        timeout in seconds for blocking operations
 
     Returns
     -------
@@ -1096,12 +1096,12 @@ def list_tokens(
         NASA Earthdata password
     build: bool, default True
         Build opener and check WebDAV credentials
-    timeout: int or NoneType, default None
-        timeout in seconds for blocking operations
     context: obj, default gravity_toolkit.utilities._default_ssl_context
         SSL context for ``urllib`` opener object
     urs: str, default 'urs.earthdata.nasa.gov'
         NASA Earthdata URS 3 host
+    timeout: int or NoneType, default None
+        timeout in seconds for blocking operations
 
     Returns
     -------
@@ -1157,12 +1157,12 @@ def revoke_token(
         NASA Earthdata password
     build: bool, default True
         Build opener and check WebDAV credentials
-    timeout: int or NoneType, default None
-        timeout in seconds for blocking operations
     context: obj, default gravity_toolkit.utilities._default_ssl_context
         SSL context for ``urllib`` opener object
     urs: str, default 'urs.earthdata.nasa.gov'
         NASA Earthdata URS 3 host
+    timeout: int or NoneType, default None
+        timeout in seconds for blocking operations
     """
     # attempt to build urllib2 opener and check credentials
     if build:
@@ -2053,7 +2053,7 @@ def compile_regex_pattern(
             - ``'BA01'``: unconstrained monthly gravity field solution to d/o 60
             - ``'BB01'``: unconstrained monthly gravity field solution to d/o 96
             - ``'BC01'``: computed monthly dealiasing solution to d/o 180
-    version: str, default '0'
+    version: str or NoneType, default any version
         GRACE/GRACE-FO Level-2 data version
     """
     # verify inputs
-- 
2.43.0


From 2ed4879bb682a7636521d416a2f0fa4ded5a13cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 27/72] fix: converting mascon centers to -180:180 altered the
 longitude array of the caller

---
 gravity_toolkit/mascons.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index 2a8f08c..d7da443 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -62,7 +62,8 @@ def to_gsfc(gdata, lon, lat, lon_center, lat_center, lon_span, lat_span):
     """
     # number of mascons
     nmas = len(lon_center)
-    # convert mascon centers to -180:180
+    # convert mascon centers to -180:180 (without altering the input array)
+    lon_center = np.copy(lon_center)
     gt180, = np.nonzero(lon_center > 180)
     lon_center[gt180] -= 360.0
     # remove singleton dimensions
@@ -218,7 +219,8 @@ def from_gsfc(mscdata, grid_spacing, lon_center, lat_center, lon_span, lat_span,
 
     # number of mascons
     nmas = len(lon_center)
-    # convert mascon centers to -180:180
+    # convert mascon centers to -180:180 (without altering the input array)
+    lon_center = np.copy(lon_center)
     gt180, = np.nonzero(lon_center > 180)
     lon_center[gt180] -= 360.0
 
-- 
2.43.0


From 70ebf49b50075fccafff346336674237c517e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 28/72] fix: harmonic integration altered the longitude array
 of the caller

---
 gravity_toolkit/gen_harmonics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 8044f69..c300ac5 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -167,8 +167,9 @@ def integration(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     dth = dlat*np.pi/180.0
 
     # reformatting longitudes to range 0:360 (if previously -180:180)
+    # (without altering the input array)
     if np.count_nonzero(lon < 0):
-        lon[lon < 0] += 360.0
+        lon = np.where(lon < 0, lon + 360.0, lon)
     # calculate longitude and colatitude arrays in radians
     phi = np.reshape(lon,(1,nlon))*np.pi/180.0# reshape to 1xnlon
     th = (90.0 - np.squeeze(lat))*np.pi/180.0# remove singleton dimensions
-- 
2.43.0


From 5775d27aba59ca1de9d252c80bb2106e805d24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 29/72] fix: copies of an object shared the attributes
 dictionaries of the original

---
 gravity_toolkit/harmonics.py | 4 ++--
 gravity_toolkit/spatial.py   | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 4879985..da05d70 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1320,9 +1320,9 @@ class harmonics(object):
         temp = harmonics(lmax=self.lmax, mmax=self.mmax)
         # copy attributes or update attributes dictionary
         if isinstance(self.attributes, list):
-            setattr(temp,'attributes',self.attributes)
+            setattr(temp,'attributes',copy.deepcopy(self.attributes))
         elif isinstance(self.attributes, dict):
-            temp.attributes.update(self.attributes)
+            temp.attributes.update(copy.deepcopy(self.attributes))
         # try to assign variables to self
         for key in ['clm','slm','time','month','filename']:
             try:
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index f95b2b8..6b05bbf 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -653,7 +653,8 @@ class spatial(object):
                 self.filename.append(object_list[i].filename)
             # append attributes to list
             if getattr(object_list[i], 'attributes'):
-                self.attributes.append(object_list[i].attributes)
+                self.attributes.append(
+                    copy.deepcopy(object_list[i].attributes))
         # adjust months to fix special cases if necessary
         if kwargs['date']:
             self.month = adjust_months(self.month)
@@ -1186,9 +1187,9 @@ class spatial(object):
         temp = spatial(fill_value=self.fill_value)
         # copy attributes or update attributes dictionary
         if isinstance(self.attributes, list):
-            setattr(temp,'attributes',self.attributes)
+            setattr(temp,'attributes',copy.deepcopy(self.attributes))
         elif isinstance(self.attributes, dict):
-            temp.attributes.update(self.attributes)
+            temp.attributes.update(copy.deepcopy(self.attributes))
         # assign variables to self
         var = ['lon','lat','data','mask','error','time','month','filename']
         for key in var:
-- 
2.43.0


From 94c172f750c34ddda344eb4fc258c57273247589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 30/72] fix: flipped and transposed grids were views of the
 original data

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 6b05bbf..93c380b 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1522,7 +1522,7 @@ class spatial(object):
         # attempt to reverse possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.flip(getattr(self, key), axis=axis))
+                setattr(temp, key, np.flip(getattr(temp, key), axis=axis))
             except Exception as exc:
                 pass
         # update mask
@@ -1543,7 +1543,7 @@ class spatial(object):
         # attempt to transpose possible data variables
         for key in ['data','mask','error']:
             try:
-                setattr(temp, key, np.transpose(getattr(self, key), axes=axes))
+                setattr(temp, key, np.transpose(getattr(temp, key), axes=axes))
             except Exception as exc:
                 pass
         # update mask
-- 
2.43.0


From 533588503c2fa1899a6f4c116369d81ec2132cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:12 +0000
Subject: [PATCH 31/72] fix: transforming love numbers read from a dictionary
 altered that dictionary

---
 gravity_toolkit/read_love_numbers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index f1b2f44..a76d4b8 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -90,6 +90,7 @@ UPDATE HISTORY:
 """
 import io
 import re
+import copy
 import logging
 import pathlib
 import numpy as np
@@ -461,7 +462,7 @@ class love_numbers(object):
         """
         # retrieve each Load Love/Shida Number
         for key in ('hl','kl','ll'):
-            setattr(self, key, d.get(key))
+            setattr(self, key, copy.copy(d.get(key)))
         self.lmax = len(self.hl) - 1
         # calculate spherical harmonic degree
         self.update_dimensions()
-- 
2.43.0


From f77712d0c6b993b0bf0c16a4c48cf43439ff866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 32/72] fix: writing a file altered the attributes and field
 mapping of the caller

---
 gravity_toolkit/harmonics.py | 6 ++++++
 gravity_toolkit/spatial.py   | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index da05d70..a55ed71 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -826,6 +826,9 @@ class harmonics(object):
         kwargs.setdefault('field_mapping',{})
         attributes = self.attributes.get('ROOT') or {}
         kwargs.setdefault('attributes',dict(ROOT=attributes))
+        # use copies to not alter the dictionaries of the caller
+        for key in ('field_mapping','attributes'):
+            kwargs[key] = copy.deepcopy(kwargs[key])
         kwargs.setdefault('title',None)
         kwargs.setdefault('source',None)
         kwargs.setdefault('reference',None)
@@ -971,6 +974,9 @@ class harmonics(object):
         kwargs.setdefault('field_mapping',{})
         attributes = self.attributes.get('ROOT') or {}
         kwargs.setdefault('attributes',dict(ROOT=attributes))
+        # use copies to not alter the dictionaries of the caller
+        for key in ('field_mapping','attributes'):
+            kwargs[key] = copy.deepcopy(kwargs[key])
         kwargs.setdefault('title',None)
         kwargs.setdefault('source',None)
         kwargs.setdefault('reference',None)
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 93c380b..c628e18 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -812,6 +812,9 @@ class spatial(object):
         kwargs.setdefault('field_mapping',{})
         attributes = self.attributes.get('ROOT') or {}
         kwargs.setdefault('attributes',dict(ROOT=attributes))
+        # use copies to not alter the dictionaries of the caller
+        for key in ('field_mapping','attributes'):
+            kwargs[key] = copy.deepcopy(kwargs[key])
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
         kwargs.setdefault('time_units','years')
@@ -956,6 +959,9 @@ class spatial(object):
         kwargs.setdefault('field_mapping',{})
         attributes = self.attributes.get('ROOT') or {}
         kwargs.setdefault('attributes',dict(ROOT=attributes))
+        # use copies to not alter the dictionaries of the caller
+        for key in ('field_mapping','attributes'):
+            kwargs[key] = copy.deepcopy(kwargs[key])
         kwargs.setdefault('units',None)
         kwargs.setdefault('longname',None)
         kwargs.setdefault('time_units','years')
-- 
2.43.0


From 6968d3d5eab72e2c674a9f46313e196f14090c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:45 +0000
Subject: [PATCH 33/72] fix: writing a grid to netCDF4 or HDF5 changed the
 dimensions of the grid

---
 gravity_toolkit/spatial.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index c628e18..c0b9c34 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -866,29 +866,31 @@ class spatial(object):
         dimensions.append('lat')
         dimensions.append('lon')
         # expand dimensions if containing date variables
+        # (using a copy to not alter the object)
+        obj = copy.deepcopy(self)
         if kwargs['date']:
-            self.expand_dims()
+            obj.expand_dims()
             dimensions.append('time')
         dims = tuple(kwargs['field_mapping'][key] for key in dimensions)
         # defining the NetCDF dimensions and variables
         nc = {}
         # NetCDF dimensions
         for i,field in enumerate(dimensions):
-            temp = getattr(self,field)
+            temp = getattr(obj,field)
             key = kwargs['field_mapping'][field]
             fileID.createDimension(key, len(temp))
             nc[key] = fileID.createVariable(key, temp.dtype, (key,))
         # NetCDF spatial data
         variables = set(kwargs['field_mapping'].keys()) - set(dimensions)
         for field in sorted(variables):
-            temp = getattr(self,field)
+            temp = getattr(obj,field)
             ndim = temp.ndim
             key = kwargs['field_mapping'][field]
             nc[key] = fileID.createVariable(key, temp.dtype, dims[:ndim],
                 fill_value=self.fill_value, zlib=True)
         # filling NetCDF variables
         for field,key in kwargs['field_mapping'].items():
-            nc[key][:] = getattr(self,field)
+            nc[key][:] = getattr(obj,field)
             # filling netCDF dataset attributes
             for att_name,att_val in kwargs['attributes'][key].items():
                 # skip variable attribute if None
@@ -1013,14 +1015,16 @@ class spatial(object):
         dimensions.append('lat')
         dimensions.append('lon')
         # expand dimensions if containing date variables
+        # (using a copy to not alter the object)
+        obj = copy.deepcopy(self)
         if kwargs['date']:
-            self.expand_dims()
+            obj.expand_dims()
             dimensions.append('time')
         dims = tuple(kwargs['field_mapping'][key] for key in dimensions)
         # Defining the HDF5 dataset variables
         h5 = {}
         for field,key in kwargs['field_mapping'].items():
-            temp = getattr(self,field)
+            temp = getattr(obj,field)
             key = kwargs['field_mapping'][field]
             h5[key] = fileID.create_dataset(key, temp.shape,
                 data=temp, dtype=temp.dtype, compression='gzip')
-- 
2.43.0


From c8c0a582b8553bbeeacca1d33eead70b082e6965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 34/72] fix: conversion to a masked array changed the dates of
 the harmonics object

---
 gravity_toolkit/harmonics.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index a55ed71..50bb490 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1165,12 +1165,10 @@ class harmonics(object):
         """
         Convert a ``harmonics`` object to a masked numpy array
         """
-        # assign degree and order fields
-        self.update_dimensions()
-        # verify dimensions and get shape
-        ndim_prev = np.copy(self.ndim)
-        self.expand_dims()
-        l1,m1,nt = self.shape
+        # output to a copy with a third dimension
+        temp = self.copy()
+        temp.expand_dims()
+        l1,m1,nt = temp.shape
         # create single triangular matrices with harmonics
         Ylms = np.ma.zeros((self.lmax+1,2*self.lmax+1,nt))
         Ylms.mask = np.ones((self.lmax+1,2*self.lmax+1,nt),dtype=bool)
@@ -1178,14 +1176,11 @@ class harmonics(object):
             mm = np.abs(m)
             for l in range(mm,self.lmax+1):
                 if (m < 0):
-                    Ylms.data[l,self.lmax+m,:] = self.slm[l,mm,:]
+                    Ylms.data[l,self.lmax+m,:] = temp.slm[l,mm,:]
                     Ylms.mask[l,self.lmax+m,:] = False
                 else:
-                    Ylms.data[l,self.lmax+m,:] = self.clm[l,mm,:]
+                    Ylms.data[l,self.lmax+m,:] = temp.clm[l,mm,:]
                     Ylms.mask[l,self.lmax+m,:] = False
-        # reshape to previous
-        if (self.ndim != ndim_prev):
-            self.squeeze()
         # return the triangular matrix
         return Ylms
 
-- 
2.43.0


From ebc94152f1892512c5497160e1aea817ef1379b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:36 +0000
Subject: [PATCH 35/72] fix: keep the orientation of square grids when reading
 netCDF4 and HDF5 files

---
 gravity_toolkit/spatial.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index c0b9c34..9394e71 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -402,7 +402,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lon) == sz[0]) and \
+            (len(self.lat) != sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
@@ -526,7 +527,8 @@ class spatial(object):
         fileID.close()
         # switching data array to lat/lon if lon/lat
         sz = self.data.shape
-        if (self.data.ndim == 2) and (len(self.lon) == sz[0]):
+        if (self.data.ndim == 2) and (len(self.lon) == sz[0]) and \
+            (len(self.lat) != sz[0]):
             self.data = self.data.T
         # set fill value and mask
         if '_FillValue' in self.attributes['data'].keys():
-- 
2.43.0


From 43f84401aefb3de2b77dcf35b63bb09a60bc27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:58 +0000
Subject: [PATCH 36/72] fix: write fields without default attributes to netCDF4
 and HDF5 files

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 9394e71..9c81388 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -894,7 +894,7 @@ class spatial(object):
         for field,key in kwargs['field_mapping'].items():
             nc[key][:] = getattr(obj,field)
             # filling netCDF dataset attributes
-            for att_name,att_val in kwargs['attributes'][key].items():
+            for att_name,att_val in kwargs['attributes'].get(key,{}).items():
                 # skip variable attribute if None
                 if not att_val:
                     continue
@@ -1031,7 +1031,7 @@ class spatial(object):
             h5[key] = fileID.create_dataset(key, temp.shape,
                 data=temp, dtype=temp.dtype, compression='gzip')
             # filling HDF5 dataset attributes
-            for att_name,att_val in kwargs['attributes'][key].items():
+            for att_name,att_val in kwargs['attributes'].get(key,{}).items():
                 # skip variable attribute if None
                 if not att_val:
                     continue
-- 
2.43.0


From e2044424af7b2d12fca97432cc286ac0e91e80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:10 +0000
Subject: [PATCH 37/72] fix: keep scalar values when converting from
 dictionaries

---
 gravity_toolkit/geocenter.py | 2 +-
 gravity_toolkit/harmonics.py | 2 +-
 gravity_toolkit/spatial.py   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index c30b562..8f389df 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -821,7 +821,7 @@ class geocenter(object):
         # assign dictionary variables to self
         for key in kwargs['fields']:
             try:
-                setattr(self, key, temp[key].copy())
+                setattr(self, key, copy.copy(temp[key]))
             except (AttributeError, KeyError):
                 pass
         return self
diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 50bb490..160c383 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -736,7 +736,7 @@ class harmonics(object):
         # assign dictionary variables to self
         for key in ['l','m','clm','slm','time','month']:
             try:
-                setattr(self, key, d[key].copy())
+                setattr(self, key, copy.copy(d[key]))
             except (AttributeError, KeyError):
                 pass
         # maximum degree and order
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 9c81388..441ffb2 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -716,7 +716,7 @@ class spatial(object):
         # assign variables to self
         for key in ['lon','lat','data','error','time','month','directory']:
             try:
-                setattr(self, key, d[key].copy())
+                setattr(self, key, copy.copy(d[key]))
             except (AttributeError, KeyError):
                 pass
         # create output mask for data
-- 
2.43.0


From b47b489e1190893ef4880d40b8288b59a6fdfcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:22 +0000
Subject: [PATCH 38/72] fix: read the dates of ascii grids

---
 gravity_toolkit/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 441ffb2..dce92c6 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -276,7 +276,7 @@ class spatial(object):
         self.data = np.zeros((nlat, nlon))
         self.mask = np.zeros((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
-        columns = [c for c in kwargs['columns'] if (c != 'time')]
+        columns = [c for c in kwargs['columns'] if (date or (c != 'time'))]
         # extract spatial data array and convert to matrix
         # for each line in the file
         header = kwargs['header']
-- 
2.43.0


From ea9a29323882d802bcd9abf481f41ffb72ee7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:24 +0000
Subject: [PATCH 39/72] fix: read the columns of ascii scaling factors

---
 gravity_toolkit/spatial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index dce92c6..eacb638 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -1902,6 +1902,8 @@ class scaling_factors(spatial):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
+        self.error = np.zeros((nlat, nlon))
+        self.magnitude = np.zeros((nlat, nlon))
         self.mask = np.zeros((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
@@ -1916,7 +1918,7 @@ class scaling_factors(spatial):
             ilon = np.int64(np.float64(d['lon'])/dlon)
             ilat = np.int64((90.0-np.float64(d['lat']))//dlat)
             # get scaling factor, error and magnitude
-            self.data[ilat,ilon] = np.float64(d['data'])
+            self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
             self.magnitude[ilat,ilon] = np.float64(d['magnitude'])
             # set mask
-- 
2.43.0


From 4b266436ae9bb2a567da252e4b24936f3c202c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:42 +0000
Subject: [PATCH 40/72] fix: mask the points that ascii grids do not list

---
 gravity_toolkit/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index eacb638..550bac8 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -274,7 +274,7 @@ class spatial(object):
         nlon = len(self.lon)
         # output spatial data
         self.data = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (date or (c != 'time'))]
         # extract spatial data array and convert to matrix
@@ -1904,7 +1904,7 @@ class scaling_factors(spatial):
         self.data = np.zeros((nlat, nlon))
         self.error = np.zeros((nlat, nlon))
         self.magnitude = np.zeros((nlat, nlon))
-        self.mask = np.zeros((nlat, nlon), dtype=bool)
+        self.mask = np.ones((nlat, nlon), dtype=bool)
         # remove time from list of column names if not date
         columns = [c for c in kwargs['columns'] if (c != 'time')]
         # extract spatial data array and convert to matrix
-- 
2.43.0


From 5b942baa3ed076b07f94826591edebaf7171a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:18 +0000
Subject: [PATCH 41/72] fix: place ascii grids within the given extent

---
 gravity_toolkit/spatial.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 550bac8..73ab2c8 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -258,15 +258,21 @@ class spatial(object):
             self.lon = np.linspace(extent[0], extent[1], kwargs['nlon'])
             dlon = np.abs(self.lon[1] - self.lon[0])
             dlat = np.abs(self.lat[1] - self.lat[0])
+            # edges of the first grid cell
+            lon0, lat0 = (extent[0] - dlon/2.0, extent[3] + dlat/2.0)
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
+            # edges of the first grid cell
+            lon0, lat0 = (extent[0] - dlon/2.0, extent[3] + dlat/2.0)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
             self.lon = np.zeros((kwargs['nlon']))
+            # edges of the first grid cell
+            lon0, lat0 = (0.0, 90.0)
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
         # get spatial dimensions
@@ -285,8 +291,8 @@ class spatial(object):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0 - np.float64(d['lat']))//dlat)
+            ilon = np.int64((np.float64(d['lon']) - lon0)/dlon)
+            ilat = np.int64((lat0 - np.float64(d['lat']))//dlat)
             self.data[ilat, ilon] = np.float64(d['data'])
             self.mask[ilat, ilon] = False
             self.lon[ilon] = np.float64(d['lon'])
@@ -1886,15 +1892,21 @@ class scaling_factors(spatial):
             self.lon = np.linspace(extent[0], extent[1], kwargs['nlon'])
             dlon = np.abs(self.lon[1] - self.lon[0])
             dlat = np.abs(self.lat[1] - self.lat[0])
+            # edges of the first grid cell
+            lon0, lat0 = (extent[0] - dlon/2.0, extent[3] + dlat/2.0)
         elif (None not in kwargs['extent']) and (None not in kwargs['spacing']):
             extent = kwargs.get('extent')
             dlon, dlat = kwargs.get('spacing')
-            self.lat = np.arange(extent[3], extent[2] - dlat, dlat)
-            self.lon = np.arange(extent[0], extent[1] + dlon, dlon)
+            self.lat = np.arange(extent[3], extent[2] - dlat/2.0, -dlat)
+            self.lon = np.arange(extent[0], extent[1] + dlon/2.0, dlon)
+            # edges of the first grid cell
+            lon0, lat0 = (extent[0] - dlon/2.0, extent[3] + dlat/2.0)
         elif kwargs['nlat'] and kwargs['nlon'] and (None not in kwargs['spacing']):
             dlon, dlat = kwargs.get('spacing')
             self.lat = np.zeros((kwargs['nlat']))
             self.lon = np.zeros((kwargs['nlon']))
+            # edges of the first grid cell
+            lon0, lat0 = (0.0, 90.0)
         else:
             raise ValueError('Unknown dimensions for input ``spatial`` object')
         # get spatial dimensions
@@ -1915,8 +1927,8 @@ class scaling_factors(spatial):
             # convert fortran exponentials if applicable
             d = {c:r.replace('D','E') for c,r in zip(columns,rx.findall(line))}
             # convert line coordinates to integers
-            ilon = np.int64(np.float64(d['lon'])/dlon)
-            ilat = np.int64((90.0-np.float64(d['lat']))//dlat)
+            ilon = np.int64((np.float64(d['lon']) - lon0)/dlon)
+            ilat = np.int64((lat0 - np.float64(d['lat']))//dlat)
             # get scaling factor, error and magnitude
             self.data[ilat,ilon] = np.float64(d['kfactor'])
             self.error[ilat,ilon] = np.float64(d['error'])
-- 
2.43.0


From a425c8583b0a9d8af5aff9d1c7b993a724b5fe84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:56 +0000
Subject: [PATCH 42/72] fix: read ascii files from binary streams

---
 gravity_toolkit/harmonics.py |  5 ++++-
 gravity_toolkit/spatial.py   | 10 ++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 160c383..47fa318 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -250,7 +250,10 @@ class harmonics(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with open(self.filename, mode='r', encoding='utf8') as f:
diff --git a/gravity_toolkit/spatial.py b/gravity_toolkit/spatial.py
index 73ab2c8..5a9b4e9 100644
--- a/gravity_toolkit/spatial.py
+++ b/gravity_toolkit/spatial.py
@@ -242,7 +242,10 @@ class spatial(object):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
@@ -1876,7 +1879,10 @@ class scaling_factors(spatial):
                 file_contents = z.read(stem).decode('ISO-8859-1').splitlines()
         elif (kwargs['compression'] == 'bytes'):
             # read input file object and split lines
-            file_contents = self.filename.read().splitlines()
+            file_contents = self.filename.read()
+            if isinstance(file_contents, bytes):
+                file_contents = file_contents.decode('ISO-8859-1')
+            file_contents = file_contents.splitlines()
         else:
             # read input ascii file (.txt, .asc) and split lines
             with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From daed82dafa794ee74895dfc3a037d5e0bc71aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:48 +0000
Subject: [PATCH 43/72] fix: keep the last degree of load Love number files

---
 gravity_toolkit/read_love_numbers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index a76d4b8..8c21f69 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -205,7 +205,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
     # maximum degree of the Love/Shida numbers dataset
-    for lint in range(l,LMAX+1):
+    for lint in range(l+1,LMAX+1):
         # linearly extrapolate to maximum degree
         for n in ('hl','kl','ll'):
             love[n][lint] = 2.0*love[n][lint-1] - love[n][lint-2]
-- 
2.43.0


From c08058645d4275cc7b07cf6ebe41e5aa2cff4691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:00 +0000
Subject: [PATCH 44/72] fix: interpolate load Love numbers between degrees
 above and below the truncation

---
 gravity_toolkit/read_love_numbers.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_love_numbers.py b/gravity_toolkit/read_love_numbers.py
index 8c21f69..1bd854b 100755
--- a/gravity_toolkit/read_love_numbers.py
+++ b/gravity_toolkit/read_love_numbers.py
@@ -172,6 +172,8 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
         love[n] = np.zeros((LMAX+1))
     # check if needing to interpolate between degrees
     flag = np.ones((LMAX+1),dtype=bool)
+    # all Love/Shida numbers in the file (including degrees above LMAX)
+    table = {n:[] for n in COLUMNS}
     # for each line in the file (skipping header lines)
     for file_line in file_contents[HEADER:]:
         # find numerical instances in line
@@ -180,6 +182,9 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
         # spherical harmonic degree
         degree = love_numbers[COLUMNS.index('l')]
         l = _default_max_degree if (degree == 'inf') else int(degree)
+        table['l'].append(l)
+        for n in ('hl','kl','ll'):
+            table[n].append(np.float64(love_numbers[COLUMNS.index(n)]))
         # truncate to spherical harmonic degree LMAX
         if (l <= LMAX):
             # convert Love/Shida numbers to float
@@ -187,7 +192,7 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
             # gravitational potential kl
             # horizontal displacement ll (Shida number)
             for n in ('hl','kl','ll'):
-                love[n][l] = np.float64(love_numbers[COLUMNS.index(n)])
+                love[n][l] = table[n][-1]
             # set interpolation flag for degree
             flag[l] = False
 
@@ -198,9 +203,10 @@ def read_love_numbers(love_numbers_file, LMAX=None, HEADER=2,
     # if needing to linearly interpolate Love/Shida numbers
     if np.any(flag):
         # linearly interpolate following Wahr (1998)
+        indices = np.argsort(table['l'])
         for n in ('hl','kl','ll'):
             love[n][flag] = np.interp(love['l'][flag],
-                love['l'][~flag], love[n][~flag])
+                np.array(table['l'])[indices], np.array(table[n])[indices])
 
     # if needing to linearly extrapolate Love/Shida numbers
     # NOTE: use caution if extrapolating far beyond the
-- 
2.43.0


From a581d625a1788a0e7ca62ec3716eb33a11e75470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:58 +0000
Subject: [PATCH 45/72] fix: skip drift rates of release 4 files above the
 truncation

---
 gravity_toolkit/read_GRACE_harmonics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/read_GRACE_harmonics.py b/gravity_toolkit/read_GRACE_harmonics.py
index 4a628e8..b53fbc8 100644
--- a/gravity_toolkit/read_GRACE_harmonics.py
+++ b/gravity_toolkit/read_GRACE_harmonics.py
@@ -233,8 +233,10 @@ def read_GRACE_harmonics(input_file, LMAX, **kwargs):
             l1 = np.int64(line_contents[1])
             m1 = np.int64(line_contents[2])
             # Reading Drift rates for low degree harmonics
-            drift_c[l1,m1] = np.float64(line_contents[3])
-            drift_s[l1,m1] = np.float64(line_contents[4])
+            # if degree and order are below the truncation limits
+            if ((l1 <= LMAX) and (m1 <= MMAX)):
+                drift_c[l1,m1] = np.float64(line_contents[3])
+                drift_s[l1,m1] = np.float64(line_contents[4])
 
     # Adding drift rates to clm and slm for RL04
     # if drift rates exist at any time, will add to harmonics
-- 
2.43.0


From f266cbc497976ed0a4075696402966c9b5882869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 46/72] fix: compute degree one Legendre polynomials with
 plm_holmes

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index a77cf0b..efe588b 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -246,7 +246,7 @@ def plm_holmes(LMAX, x,
 
     # Calculate P(LMAX,LMAX)
     rescalem = rescalem * u
-    kstart += m+2
+    kstart += LMAX+1
     p[kstart,:] = pmm * np.sqrt(2*LMAX+1) / np.sqrt(2*LMAX) * rescalem
     # reshape Legendre polynomials to output dimensions
     for m in range(LMAX+1):
-- 
2.43.0


From 04a335c1e1908d8762574a43096591e6274421c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 47/72] fix: truncate derivatives of plm_mohlenkamp to the
 order

---
 gravity_toolkit/associated_legendre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index efe588b..a8f40a9 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -357,4 +357,4 @@ def plm_mohlenkamp(LMAX, x,
                 flm = np.sqrt(((l**2.0 - mm**2.0)*(2.0*l + 1.0))/(2.0*l - 1.0))
                 dplm[l,mm,:]= (1.0/u)*(l*x*plm[l,mm,:] - flm*plm[l-1,mm,:])
     # return the legendre polynomials and their first derivative
-    return plm, dplm
+    return plm, dplm[:,:MMAX+1,:]
-- 
2.43.0


From 408c83d65b66d7e84334fe95478776a03b7bfb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:50 +0000
Subject: [PATCH 48/72] fix: degree and factor of the zonal Fourier
 coefficients of legendre_gradient

---
 gravity_toolkit/fourier_legendre.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index 6cc8b5c..fc70481 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -267,7 +267,7 @@ def legendre_gradient(lmax, mmax):
         lminus2 = np.arange(l-2,-1,-1)# from l-2 to 0
         lminus1 = np.arange(l-1,0,-1)# from l-1 to 1
         wlm[l,m,:] = np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l,m+1,:])
+            np.dot(np.diag(np.sqrt(lminus2*lminus1/4.0)), plm[l-1,m+1,:])
 
     # m-1 terms, m-1=0 has different coefficients
     # m=1 term
@@ -281,7 +281,7 @@ def legendre_gradient(lmax, mmax):
         lplus2 = np.arange(l+2,2*l+1)# from l+2 to 2*l
         lplus1 = np.arange(l+1,2*l)# from l+1 to (2*l-1)
         wlm[l,m,:] += np.sqrt(dfactor) * \
-            np.dot(np.diag(np.sqrt(lplus2*lplus1)/4.0), plm[l-1,m-1,:])
+            np.dot(np.diag(np.sqrt(lplus2*lplus1/4.0)), plm[l-1,m-1,:])
     # normalizations
     for l in range(1, lmax+1):
         wlm[l,:,:] /= np.sqrt((l+1)*l)
-- 
2.43.0


From 56a1a676e5504a69140bdea9979775caa9ae70ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:26 +0000
Subject: [PATCH 49/72] fix: zonal and meridional directions of
 harmonic_gradients

---
 gravity_toolkit/harmonic_gradients.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/harmonic_gradients.py b/gravity_toolkit/harmonic_gradients.py
index 245240d..56779b5 100644
--- a/gravity_toolkit/harmonic_gradients.py
+++ b/gravity_toolkit/harmonic_gradients.py
@@ -102,10 +102,10 @@ def harmonic_gradients(clm1, slm1, lon, lat,
     vlm, wlm = legendre_gradient(LMAX, LMAX)
 
     dlm = np.zeros((LMAX+1,MMAX+1,2))
-    # minus sign is because lat and theta change with opposite sign
+    # vlm are coefficients of derivatives with respect to latitude
     for l in range(0,LMAX+1):
-        dlm[l,:,0] = -clm[l,:]*np.sqrt((l+1.0)*l)
-        dlm[l,:,1] = -slm[l,:]*np.sqrt((l+1.0)*l)
+        dlm[l,:,0] = clm[l,:]*np.sqrt((l+1.0)*l)
+        dlm[l,:,1] = slm[l,:]*np.sqrt((l+1.0)*l)
 
     m_even = np.arange(0,MMAX+1,2)
     m_odd = np.arange(1,MMAX+1,2)
@@ -127,8 +127,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_even,:,0] = np.dot(wtmp[:,:,1],np.transpose(snk))
     d_sin[m_even,:,0] = np.dot(-wtmp[:,:,0],np.transpose(snk))
-    d_cos[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
-    d_sin[m_even,:,1] = np.dot(-vtmp[:,:,0],np.transpose(snk))
+    d_cos[m_even,:,1] = np.dot(vtmp[:,:,0],np.transpose(snk))
+    d_sin[m_even,:,1] = np.dot(vtmp[:,:,1],np.transpose(snk))
 
     # m = odd terms (vlm,wlm cosine series)
     wtmp = np.zeros((len(m_odd),LMAX+1,2))
@@ -141,8 +141,8 @@ def harmonic_gradients(clm1, slm1, lon, lat,
 
     d_cos[m_odd,:,0] = np.dot(wtmp[:,:,1],np.transpose(cnk))
     d_sin[m_odd,:,0] = np.dot(-wtmp[:,:,0],np.transpose(cnk))
-    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
-    d_sin[m_odd,:,1] = np.dot(-vtmp[:,:,0],np.transpose(cnk))
+    d_cos[m_odd,:,1] = np.dot(vtmp[:,:,0],np.transpose(cnk))
+    d_sin[m_odd,:,1] = np.dot(vtmp[:,:,1],np.transpose(cnk))
 
     # Calculating cos(m*phi) and sin(m*phi)
     ccos = np.cos(np.dot(mm,phi))
-- 
2.43.0


From 231ed5c47cd3fbccc75a168d0b3dcad4d49110ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:49 +0000
Subject: [PATCH 50/72] fix: Fourier coefficients of Legendre functions for
 truncated orders and odd degrees

---
 gravity_toolkit/fourier_legendre.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/gravity_toolkit/fourier_legendre.py b/gravity_toolkit/fourier_legendre.py
index fc70481..dc7555f 100755
--- a/gravity_toolkit/fourier_legendre.py
+++ b/gravity_toolkit/fourier_legendre.py
@@ -51,16 +51,17 @@ def fourier_legendre(lmax, mmax):
     # allocate for output fourier coefficients
     plm = np.zeros((lmax+1,lmax+1,lmax+1))
     l_even = np.arange(0,lmax+1,2)
-    l_odd = np.arange(1,lmax,2)
-    m_even = np.arange(0,mmax+1,2)
-    m_odd = np.arange(1,mmax,2)
+    l_odd = np.arange(1,lmax+1,2)
+    # Fourier coefficients extend to lmax for every order
+    m_even = np.arange(0,lmax+1,2)
+    m_odd = np.arange(1,lmax+1,2)
 
     # First compute m=0, m=1 terms
     # Compute m = 0, l = even terms
     plm[l_even,0,0] = 1.0
     p1 = (l_even*(l_even+1.0))*plm[l_even,0,0]
     plm[l_even,0,2] = p1 / (l_even*(l_even+1.0)-2.0)
-    for j in range(2,lmax,2):# equivalent to 2:lmax-2
+    for j in range(2,lmax-1,2):# equivalent to 2:lmax-2
         p1 = 2.0*(l_even*(l_even+1.0)-j**2.0)*plm[l_even,0,j]
         p2 = ((j-2.0)*(j-1.0)-l_even*(l_even+1.0))*plm[l_even,0,j-2]
         dfactor = (l_even*(l_even+1.0)-(j+2.0)*(j+1.0))
@@ -71,7 +72,7 @@ def fourier_legendre(lmax, mmax):
     plm[l_even,0,0] = plm[l_even,0,0]/2.0
     # Normalize overall sum to 2 for m == 0
     norm = np.zeros((len(l_even)))
-    for j in range(0,lmax+2,2):# equivalent to 0:lmax
+    for j in range(0,lmax+1,2):# equivalent to 0:lmax
         ptemp = np.squeeze(plm[l_even[:, np.newaxis],0,m_even])
         dtemp = 1.0/(1.0-j-m_even) + 1.0/(1.0+j-m_even) + \
             1.0/(1.0-j+m_even) + 1.0/(1.0+j+m_even)
@@ -79,7 +80,7 @@ def fourier_legendre(lmax, mmax):
             np.dot(ptemp, dtemp)/2.0
     # normalize plms
     norm = np.sqrt(norm/2.0)
-    for l in range(0,lmax+2,2):# equivalent to 0:lmax
+    for l in range(0,lmax+1,2):# equivalent to 0:lmax
         plm[l,0,:] = plm[l,0,:]/norm[l//2]
 
 
@@ -110,7 +111,7 @@ def fourier_legendre(lmax, mmax):
     # Compute m = 1, l = even terms
     plm[l_even,1,0] = 0.0
     plm[l_even,1,2] = 1.0
-    for j in range(2,lmax,2):# equivalent to 2:lmax-2
+    for j in range(2,lmax-1,2):# equivalent to 2:lmax-2
         p1 = 2.0*(l_even*(l_even+1)-j**2.0-2.0)*plm[l_even,1,j]
         p2 = ((j-2.0)*(j-1.0)-l_even*(l_even+1))*plm[l_even,1,j-2]
         dfactor = (l_even*(l_even+1.0)-(j+2.0)*(j+1.0))
@@ -119,7 +120,7 @@ def fourier_legendre(lmax, mmax):
     # Normalize overall sum to 4 for m == 1
     # different norm than that of the cosine series
     norm = np.zeros((len(l_even)))
-    for j in range(0,lmax+2,2):# equivalent to 0:lmax
+    for j in range(0,lmax+1,2):# equivalent to 0:lmax
         ptemp = np.squeeze(plm[l_even[:, np.newaxis],1,m_even])
         dtemp = -1.0/(1.0-j-m_even) + 1.0/(1+j-m_even) + \
             1.0/(1.0-j+m_even) - 1.0/(1+j+m_even)
@@ -127,7 +128,7 @@ def fourier_legendre(lmax, mmax):
             np.dot(ptemp, dtemp)/2.0
     # normalize plms
     norm = np.sqrt(norm/4.0)
-    for l in range(0,lmax+2,2):# equivalent to 0:lmax
+    for l in range(0,lmax+1,2):# equivalent to 0:lmax
         plm[l,1,:] = plm[l,1,:]/norm[l//2]
 
     # Compute m = 1, l = odd terms
@@ -173,9 +174,9 @@ def fourier_legendre(lmax, mmax):
         plm[l+2,m+2,m_odd] = (p1 - p2 + p3) / dfactor
 
     # m = even terms
-    for m in range(2,lmax,2):# equivalent to 2:lmax-2
+    for m in range(2,lmax-1,2):# equivalent to 2:lmax-2
         # m = even, > 2, l = even terms
-        for l in range(m,lmax,2):# equivalent to m:lmax-2
+        for l in range(m,lmax-1,2):# equivalent to m:lmax-2
             p1 = np.sqrt((l+m+2.0)*(l+m+1.0)/(2.0*l+1.0))*plm[l,m,m_even]
             p2 = np.sqrt((l-m+1.0)*(l-m+2.0)/(2.0*l+5.0))*plm[l+2,m,m_even]
             p3 = np.sqrt((l-m)*(l-m-1.0)/(2.0*l+1.0))*plm[l,m+2,m_even]
-- 
2.43.0


From 598f85e1a4321d15d5c638ccf2915f3985f1a2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 51/72] fix: truncated orders and odd degrees in the Fourier
 method of gen_harmonics

---
 gravity_toolkit/gen_harmonics.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index c300ac5..06cb336 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -263,6 +263,10 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     # Colatitude in radians
     theta = ((90.0 - np.squeeze(lat))*np.pi/180.0)
 
+    # upper bound of spherical harmonic orders (default = LMAX)
+    mmax = np.copy(LMAX) if MMAX is None else MMAX
+    # Fourier series extend to LMAX for every order
+    MMAX = np.copy(LMAX)
     # MMAX+1 to include MMAX
     mm = np.arange(MMAX+1)[:, np.newaxis]
     # Calculate cos and sin coefficients of signal
@@ -284,7 +288,7 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     theta_cc = np.zeros((MMAX+1,MMAX+1))
     theta_sc = np.zeros((MMAX+1,MMAX+1))
     m_even = np.arange(0,MMAX+1,2)
-    m_odd = np.arange(1,MMAX,2)
+    m_odd = np.arange(1,MMAX+1,2)
     n_even = len(m_even)
     n_odd = len(m_odd)
 
@@ -350,7 +354,7 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
 
     # m = even terms
     k_even = np.zeros((n_even,n_even))
-    for n in range(0,MMAX+2,2):
+    for n in range(0,MMAX+1,2):
         k_even[:,n//2] = 0.5*(1.0/(1.0-m_even-n) + 1.0/(1.0+m_even-n) +
             1.0/(1.0-m_even+n) + 1.0/(1.0+m_even+n))
 
@@ -361,8 +365,8 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
 
     # calculate spherical harmonics for m == even terms
     l_even = np.arange(0,LMAX+1,2)
-    l_odd = np.arange(1,LMAX,2)
-    for m in range(0,MMAX+2,2):
+    l_odd = np.arange(1,LMAX+1,2)
+    for m in range(0,MMAX+1,2):
         temp = np.dot(plm[l_even,m,m_even[:,np.newaxis]].T,k_even)
         Ylms.clm[l_even,m] = np.dot(theta_cc[m,m_even[:,np.newaxis]].T,temp.T)
         Ylms.slm[l_even,m] = np.dot(theta_sc[m,m_even[:,np.newaxis]].T,temp.T)
@@ -372,7 +376,7 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
 
     # m = odd terms
     k_even = np.zeros((n_even,n_even))
-    for n in range(0,MMAX+2,2):
+    for n in range(0,MMAX+1,2):
         k_even[:,n//2] = 0.5*(-1.0/(1-m_even-n) + 1.0/(1.0+m_even-n) +
             1.0/(1.0-m_even+n) - 1.0/(1.0+m_even+n))
 
@@ -383,7 +387,7 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
 
     # calculate spherical harmonics for m == odd terms
     l_even = np.arange(2,LMAX+1,2)# do not in include l=0
-    l_odd = np.arange(1,LMAX,2)
+    l_odd = np.arange(1,LMAX+1,2)
     for m in range(1,MMAX+1,2):
         temp = np.dot(plm[l_even,m,m_even[:,np.newaxis]].T,k_even)
         Ylms.clm[l_even,m] = np.dot(theta_cc[m,m_even[:,np.newaxis]].T,temp.T)
@@ -398,5 +402,9 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     Ylms.clm[:,1:MMAX+1] /= 4.0
     Ylms.slm[:,1:MMAX+1] /= 4.0
 
+    # truncate to the upper bound of spherical harmonic orders
+    if (mmax < LMAX):
+        Ylms.truncate(LMAX, mmax=mmax)
+
     # return the output spherical harmonics object
     return Ylms
-- 
2.43.0


From a640c6170f1639b4c2c521e8003bc813031aa5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:02 +0000
Subject: [PATCH 52/72] fix: truncate harmonics to order zero

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 47fa318..4f310a5 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -1616,7 +1616,7 @@ class harmonics(object):
         temp = self.copy()
         # set new degree and order
         self.lmax = np.copy(lmax)
-        self.mmax = np.copy(mmax) if mmax else np.copy(lmax)
+        self.mmax = np.copy(mmax)
         # truncation levels
         l1 = self.lmax+1 if (temp.lmax > self.lmax) else temp.lmax+1
         m1 = self.mmax+1 if (temp.mmax > self.mmax) else temp.mmax+1
-- 
2.43.0


From 0ebee340a86f478577d53322a9fdf717c9de7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:09 +0000
Subject: [PATCH 53/72] fix: contributions of the poles to the Fourier method
 of gen_harmonics

---
 gravity_toolkit/gen_harmonics.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 06cb336..6956174 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -301,14 +301,11 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         theta_sc[m_odd,:] = 2.0*np.dot(dsin[m_odd,1:nlat-1],np.sin(nt).T)
 
         # endpoints
-        theta_cc[m_even,:] += np.dot((dcos[m_even,0]*np.cos(theta[0]) +
-            dcos[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_even,:] += np.dot((dsin[m_even,0]*np.cos(theta[0]) +
-            dsin[m_even,nlat-1]*np.cos(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_cc[m_odd,:] += np.dot((dcos[m_odd,0]*np.sin(theta[0]) +
-            dcos[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
-        theta_sc[m_odd,:] += np.dot((dsin[m_odd,0]*np.sin(theta[0]) +
-            dsin[m_odd,nlat-1]*np.sin(theta[nlat-1]))[:,np.newaxis], mm.T)
+        n0 = np.dot(mm,theta[[0,nlat-1]][np.newaxis,:])
+        theta_cc[m_even,:] += np.dot(dcos[m_even[:,np.newaxis],[0,nlat-1]],np.cos(n0).T)
+        theta_sc[m_even,:] += np.dot(dsin[m_even[:,np.newaxis],[0,nlat-1]],np.cos(n0).T)
+        theta_cc[m_odd,:] += np.dot(dcos[m_odd[:,np.newaxis],[0,nlat-1]],np.sin(n0).T)
+        theta_sc[m_odd,:] += np.dot(dsin[m_odd[:,np.newaxis],[0,nlat-1]],np.sin(n0).T)
 
     elif not np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).any():
         nt = np.dot(mm,theta[np.newaxis,:])
-- 
2.43.0


From aa69fce95021e00cfa617a4954bd53c354196378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:18 +0000
Subject: [PATCH 54/72] fix: poles of ascending latitudes in the Fourier method
 of gen_harmonics

---
 gravity_toolkit/gen_harmonics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/gen_harmonics.py b/gravity_toolkit/gen_harmonics.py
index 6956174..e1bee44 100644
--- a/gravity_toolkit/gen_harmonics.py
+++ b/gravity_toolkit/gen_harmonics.py
@@ -292,7 +292,9 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
     n_even = len(m_even)
     n_odd = len(m_odd)
 
-    if np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).all():
+    # colatitudes of the endpoints for grids from either pole
+    endpoints = np.sort([theta[0],theta[nlat-1]])
+    if np.isclose(endpoints,[0.0,np.pi]).all():
         # non-endpoints
         nt = np.dot(mm,theta[1:nlat-1][np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,1:nlat-1],np.cos(nt).T)
@@ -307,7 +309,7 @@ def fourier(data, lon, lat, LMAX=60, MMAX=None, PLM=0, **kwargs):
         theta_cc[m_odd,:] += np.dot(dcos[m_odd[:,np.newaxis],[0,nlat-1]],np.sin(n0).T)
         theta_sc[m_odd,:] += np.dot(dsin[m_odd[:,np.newaxis],[0,nlat-1]],np.sin(n0).T)
 
-    elif not np.isclose([theta[0],theta[nlat-1]],[0.0,np.pi]).any():
+    elif not np.isclose(endpoints,[0.0,np.pi]).any():
         nt = np.dot(mm,theta[np.newaxis,:])
         theta_cc[m_even,:] = 2.0*np.dot(dcos[m_even,:],np.cos(nt).T)
         theta_sc[m_even,:] = 2.0*np.dot(dsin[m_even,:],np.cos(nt).T)
-- 
2.43.0


From d2a0fffb9aa58f1f5b8bc515bde1b64600611de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:37 +0000
Subject: [PATCH 55/72] fix: derivatives of zonal Legendre functions at the
 poles

---
 gravity_toolkit/associated_legendre.py  | 6 ++++++
 gravity_toolkit/legendre_polynomials.py | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/gravity_toolkit/associated_legendre.py b/gravity_toolkit/associated_legendre.py
index a8f40a9..fc72d3d 100644
--- a/gravity_toolkit/associated_legendre.py
+++ b/gravity_toolkit/associated_legendre.py
@@ -140,6 +140,8 @@ def plm_colombo(LMAX, x,
         # calculate first derivatives for sectorial harmonics
         dplm[l,l,:] = np.longdouble(l)*(x/u)*plm[l,l,:]
 
+    # zonal derivatives are zero at the poles (x == +/-1)
+    dplm[:,0,np.abs(x) == 1] = 0.0
     # return the legendre polynomials and their first derivative
     # truncating orders to MMAX
     return plm[:,:MMAX+1,:], dplm[:,:MMAX+1,:]
@@ -260,6 +262,8 @@ def plm_holmes(LMAX, x,
                 flm = np.sqrt(((l**2.0 - m**2.0)*(2.0*l + 1.0))/(2.0*l - 1.0))
                 dplm[l,m,:]= (1.0/u)*(l*x*plm[l,m,:] - flm*plm[l-1,m,:])
 
+    # zonal derivatives are zero at the poles (x == +/-1)
+    dplm[:,0,np.abs(x) == 1] = 0.0
     # return the legendre polynomials and their first derivative
     # truncating orders to MMAX
     return plm[:,:MMAX+1,:], dplm[:,:MMAX+1,:]
@@ -356,5 +360,7 @@ def plm_mohlenkamp(LMAX, x,
             else:
                 flm = np.sqrt(((l**2.0 - mm**2.0)*(2.0*l + 1.0))/(2.0*l - 1.0))
                 dplm[l,mm,:]= (1.0/u)*(l*x*plm[l,mm,:] - flm*plm[l-1,mm,:])
+    # zonal derivatives are zero at the poles (x == +/-1)
+    dplm[:,0,np.abs(x) == 1] = 0.0
     # return the legendre polynomials and their first derivative
     return plm, dplm[:,:MMAX+1,:]
diff --git a/gravity_toolkit/legendre_polynomials.py b/gravity_toolkit/legendre_polynomials.py
index 2aaedc2..3ced160 100755
--- a/gravity_toolkit/legendre_polynomials.py
+++ b/gravity_toolkit/legendre_polynomials.py
@@ -106,6 +106,8 @@ def legendre_polynomials(lmax, x, ASTYPE=np.float64):
     for l in range(1,lmax+1):
         fl = np.sqrt(((l**2.0) * (2.0*l + 1.0)) / (2.0*l - 1.0))
         dpl[l,:] = (1.0/u)*(l*x*pl[l,:] - fl*pl[l-1,:])
+        # Overwrite polar case (x == +/-1)
+        dpl[l,u0] = 0.0
 
     # return the legendre polynomials and their first derivative
     return (pl, dpl)
-- 
2.43.0


From 6fff560da5893396fc32a812acfa53dd7bd6ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:46 +0000
Subject: [PATCH 56/72] fix: replace low degree coefficients with single values
 in monthly series

---
 gravity_toolkit/grace_input_months.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index b4cb61d..af70c8e 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -682,7 +682,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C20_input['month'] == grace_month)
             if (count != 0):
-                k, = np.nonzero(C20_input['month'] == grace_month)
+                k, = np.flatnonzero(C20_input['month'] == grace_month)
                 grace_Ylms['clm'][2,0,i] = np.copy(C20_input['data'][k])
                 grace_Ylms['eclm'][2,0,i] = np.copy(C20_input['error'][k])
 
@@ -697,7 +697,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C21_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C21_input['month'] == grace_month)
+                k, = np.flatnonzero(C21_input['month'] == grace_month)
                 grace_Ylms['clm'][2,1,i] = np.copy(C21_input['C2m'][k])
                 grace_Ylms['slm'][2,1,i] = np.copy(C21_input['S2m'][k])
                 grace_Ylms['eclm'][2,1,i] = np.copy(C21_input['eC2m'][k])
@@ -714,7 +714,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C22_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C22_input['month'] == grace_month)
+                k, = np.flatnonzero(C22_input['month'] == grace_month)
                 grace_Ylms['clm'][2,2,i] = np.copy(C22_input['C2m'][k])
                 grace_Ylms['slm'][2,2,i] = np.copy(C22_input['S2m'][k])
                 grace_Ylms['eclm'][2,2,i] = np.copy(C22_input['eC2m'][k])
@@ -731,7 +731,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C30_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C30_input['month'] == grace_month)
+                k, = np.flatnonzero(C30_input['month'] == grace_month)
                 grace_Ylms['clm'][3,0,i] = np.copy(C30_input['data'][k])
                 grace_Ylms['eclm'][3,0,i] = np.copy(C30_input['error'][k])
 
@@ -746,7 +746,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C40_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C40_input['month'] == grace_month)
+                k, = np.flatnonzero(C40_input['month'] == grace_month)
                 grace_Ylms['clm'][4,0,i] = np.copy(C40_input['data'][k])
                 grace_Ylms['eclm'][4,0,i] = np.copy(C40_input['error'][k])
 
@@ -761,7 +761,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         for i,grace_month in enumerate(months):
             count = np.count_nonzero(C50_input['month'] == grace_month)
             if (count != 0) and (grace_month > 176):
-                k, = np.nonzero(C50_input['month'] == grace_month)
+                k, = np.flatnonzero(C50_input['month'] == grace_month)
                 grace_Ylms['clm'][5,0,i] = np.copy(C50_input['data'][k])
                 grace_Ylms['eclm'][5,0,i] = np.copy(C50_input['error'][k])
 
@@ -790,7 +790,6 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 raise IOError(f'No Matching Geocenter Months ({gm})')
         # for each considered date
         for i,grace_month in enumerate(months):
-            k, = np.nonzero(DEG1_input.month == grace_month)
             count = np.count_nonzero(DEG1_input.month == grace_month)
             # Degree 1 is missing for particular month
             if (count == 0) and kwargs['MODEL_DEG1']:
@@ -799,6 +798,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 grace_Ylms['clm'][1,1,i] = np.copy(C11_model[i])
                 grace_Ylms['slm'][1,1,i] = np.copy(S11_model[i])
             else:# using coefficients from data file
+                k, = np.flatnonzero(DEG1_input.month == grace_month)
                 grace_Ylms['clm'][1,0,i] = np.copy(DEG1_input.C10[k])
                 grace_Ylms['clm'][1,1,i] = np.copy(DEG1_input.C11[k])
                 grace_Ylms['slm'][1,1,i] = np.copy(DEG1_input.S11[k])
-- 
2.43.0


From 0d8237dc7419b2d3f8bc1468b51aefe598e8b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:46 +0000
Subject: [PATCH 57/72] fix: order limit of the atmospheric jump corrections

---
 gravity_toolkit/grace_input_months.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index af70c8e..d054b53 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -894,8 +894,8 @@ def read_ecmwf_corrections(base_dir, LMAX, months, MMAX=None):
 
     # create output atmospheric corrections to be removed/added to data
     atm_corr = {}
-    atm_corr['clm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
-    atm_corr['slm'] = np.zeros((LMAX+1, LMAX+1, n_cons))
+    atm_corr['clm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
+    atm_corr['slm'] = np.zeros((LMAX+1, MMAX+1, n_cons))
     atm_corr['files'] = sorted(corr_file.values())
     # for each considered date
     for i,grace_month in enumerate(months):
-- 
2.43.0


From 121d65c3b8f50a85939fcd0c427878edb2544dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:46 +0000
Subject: [PATCH 58/72] fix: path of the degree one file given as text

---
 gravity_toolkit/grace_input_months.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index d054b53..d87a862 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -588,7 +588,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
                 f'TN-13_GEOC_{PROC}_{DREL}.txt')
             JPL = True
         # read degree one files from JPL GRACE Tellus
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_tellus(DEG1_file,JPL=JPL)
@@ -630,7 +630,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             '{0}_{1}_{2}_{3}.txt'.format(*args))
         # read degree one files from Sutterley and Velicogna (2019)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_UCI(DEG1_file)
@@ -641,7 +641,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             f'gad_gsm.{DREL}.txt')
         # read degree one files from Swenson et al. (2008)
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_swenson(DEG1_file)
@@ -653,7 +653,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         default_geocenter = base_dir.joinpath('geocenter',
             'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat')
         # read degree one files from GFZ GravIS
-        DEG1_file = kwargs.get('DEG1_FILE') or default_geocenter
+        DEG1_file = pathlib.Path(kwargs.get('DEG1_FILE') or default_geocenter)
         # log geocenter file if debugging
         logging.debug(f'Reading Geocenter file: {DEG1_file}')
         DEG1_input = gravity_toolkit.geocenter().from_gravis(DEG1_file)
-- 
2.43.0


From e53b584e1fea126d8d43cedb4e408aca0d72cc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:46 +0000
Subject: [PATCH 59/72] fix: attribute name of the LARES degree three zonal

---
 gravity_toolkit/grace_input_months.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_input_months.py b/gravity_toolkit/grace_input_months.py
index d87a862..90238f3 100644
--- a/gravity_toolkit/grace_input_months.py
+++ b/gravity_toolkit/grace_input_months.py
@@ -499,7 +499,7 @@ def grace_input_months(base_dir, PROC, DREL, DSET, LMAX, start_mon, end_mon,
         # read SLR file
         C30_input = gravity_toolkit.SLR.C30(SLR_file)
         FLAGS.append('_wLARES_C30')
-        attributes['SLR_C30'] = ('CSR LARES', SLR_file.name)
+        attributes['SLR C30'] = ('CSR LARES', SLR_file.name)
     elif (kwargs['SLR_C30'] == 'GFZ'):
         GravIS_file = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
         SLR_file = base_dir.joinpath(GravIS_file)
-- 
2.43.0


From f93d2bc54d760d94d4e5c2c244be02ca348885b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:56 +0000
Subject: [PATCH 60/72] fix: single values of monthly geocenter and mascon
 plots

---
 scripts/geocenter_compare_tellus.py     | 6 +++---
 scripts/geocenter_monte_carlo.py        | 2 +-
 scripts/geocenter_ocean_models.py       | 2 +-
 scripts/geocenter_processing_centers.py | 2 +-
 scripts/quick_mascon_plot.py            | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/scripts/geocenter_compare_tellus.py b/scripts/geocenter_compare_tellus.py
index 992df24..e9b0e64 100644
--- a/scripts/geocenter_compare_tellus.py
+++ b/scripts/geocenter_compare_tellus.py
@@ -97,7 +97,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
@@ -123,7 +123,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
                 for i,m in enumerate(months):
                     valid = np.count_nonzero(DEG1.month == m)
                     if valid:
-                        mm, = np.nonzero(DEG1.month == m)
+                        mm, = np.flatnonzero(DEG1.month == m)
                         tdec[i] = DEG1.time[mm]
                         data[i] = val[mm]
                 # plot all dates
@@ -149,7 +149,7 @@ def geocenter_compare_tellus(grace_dir,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/geocenter_monte_carlo.py b/scripts/geocenter_monte_carlo.py
index 925627a..c814473 100644
--- a/scripts/geocenter_monte_carlo.py
+++ b/scripts/geocenter_monte_carlo.py
@@ -88,7 +88,7 @@ def geocenter_monte_carlo(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
         for i,m in enumerate(months):
             valid = np.count_nonzero(DEG1.month == m)
             if valid:
-                mm, = np.nonzero(DEG1.month == m)
+                mm, = np.flatnonzero(DEG1.month == m)
                 tdec[i] = DEG1.time[mm]
                 data[i,:] = val[mm,:]
 
diff --git a/scripts/geocenter_ocean_models.py b/scripts/geocenter_ocean_models.py
index cbbeb7b..c6fa972 100644
--- a/scripts/geocenter_ocean_models.py
+++ b/scripts/geocenter_ocean_models.py
@@ -95,7 +95,7 @@ def geocenter_ocean_models(grace_dir,PROC,DREL,MODEL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/geocenter_processing_centers.py b/scripts/geocenter_processing_centers.py
index 252c9d0..ab17e8b 100644
--- a/scripts/geocenter_processing_centers.py
+++ b/scripts/geocenter_processing_centers.py
@@ -107,7 +107,7 @@ def geocenter_processing_centers(grace_dir,PROC,DREL,START_MON,END_MON,MISSING):
             for i,m in enumerate(months):
                 valid = np.count_nonzero(DEG1.month == m)
                 if valid:
-                    mm, = np.nonzero(DEG1.month == m)
+                    mm, = np.flatnonzero(DEG1.month == m)
                     tdec[i] = DEG1.time[mm]
                     data[i] = val[mm]
             # plot all dates
diff --git a/scripts/quick_mascon_plot.py b/scripts/quick_mascon_plot.py
index a2fc933..154068e 100644
--- a/scripts/quick_mascon_plot.py
+++ b/scripts/quick_mascon_plot.py
@@ -133,7 +133,7 @@ def run_plot(i, input_file,
         for t,m in enumerate(months):
             valid = np.count_nonzero(dinput[:,0] == m)
             if valid:
-                mm, = np.nonzero(dinput[:,0] == m)
+                mm, = np.flatnonzero(dinput[:,0] == m)
                 tdec[t] = dinput[mm,1]
                 data[t] = dinput[mm,2] - dinput[0,2]
                 if error:
-- 
2.43.0


From b44daddce697f83737241c47b9a347a8677348e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:05 +0000
Subject: [PATCH 61/72] fix: decimal date and index of a line are single values
 in the SLR readers

---
 gravity_toolkit/SLR/C20.py            | 8 ++++----
 gravity_toolkit/SLR/C30.py            | 2 +-
 gravity_toolkit/SLR/C50.py            | 2 +-
 gravity_toolkit/read_SLR_harmonics.py | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/gravity_toolkit/SLR/C20.py b/gravity_toolkit/SLR/C20.py
index 992018f..456469d 100644
--- a/gravity_toolkit/SLR/C20.py
+++ b/gravity_toolkit/SLR/C20.py
@@ -330,7 +330,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[2])
@@ -390,7 +390,7 @@ def C20(SLR_file, AOD=True, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                date_conv[t] = gravity_toolkit.time.convert_calendar_decimal(
+                date_conv[t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 C20_input[t] = np.float64(line_contents[2])
@@ -424,14 +424,14 @@ def C20(SLR_file, AOD=True, HEADER=True):
             count = np.count_nonzero(mon == dinput['month'][t])
             # there is only one solution for the month
             if (count == 1):
-                i = np.nonzero(mon == dinput['month'][t])
+                i, = np.flatnonzero(mon == dinput['month'][t])
                 dinput['time'][t] = date_conv[i]
                 dinput['data'][t] = C20_input[i]
                 dinput['error'][t] = eC20_input[i]
             # there is a special solution for the month
             # will the solution flagged with slr_flag
             elif (count == 2):
-                i = np.nonzero((mon == dinput['month'][t]) & slr_flag)
+                i, = np.flatnonzero((mon == dinput['month'][t]) & slr_flag)
                 dinput['time'][t] = date_conv[i]
                 dinput['data'][t] = C20_input[i]
                 dinput['error'][t] = eC20_input[i]
diff --git a/gravity_toolkit/SLR/C30.py b/gravity_toolkit/SLR/C30.py
index 84c2dda..3cd9d3b 100644
--- a/gravity_toolkit/SLR/C30.py
+++ b/gravity_toolkit/SLR/C30.py
@@ -161,7 +161,7 @@ def C30(SLR_file, C30_MEAN=9.5717395773300e-07, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[5])
diff --git a/gravity_toolkit/SLR/C50.py b/gravity_toolkit/SLR/C50.py
index af93dad..53dff90 100644
--- a/gravity_toolkit/SLR/C50.py
+++ b/gravity_toolkit/SLR/C50.py
@@ -143,7 +143,7 @@ def C50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
                 YY,MM,DD,hh,mm,ss = gravity_toolkit.time.convert_julian(
                     MJD+2400000.5, format='tuple')
                 # converting from month, day, year into decimal year
-                dinput['time'][t] = gravity_toolkit.time.convert_calendar_decimal(
+                dinput['time'][t], = gravity_toolkit.time.convert_calendar_decimal(
                     YY, MM, day=DD, hour=hh)
                 # Spherical Harmonic data for line
                 dinput['data'][t] = np.float64(line_contents[10])
diff --git a/gravity_toolkit/read_SLR_harmonics.py b/gravity_toolkit/read_SLR_harmonics.py
index 9d596fe..39259b9 100644
--- a/gravity_toolkit/read_SLR_harmonics.py
+++ b/gravity_toolkit/read_SLR_harmonics.py
@@ -208,7 +208,7 @@ def read_CSR_monthly_6x1(SLR_file, SCALE=1e-10, HEADER=True):
         Ylms['MJD'][d] = np.mean(np.array(line_contents[5:7],dtype=np.float64))
         # date of the mid-point of the arc given in years
         YY,MM = np.array(line_contents[3:5])
-        Ylms['time'][d] = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
+        Ylms['time'][d], = gravity_toolkit.time.convert_calendar_decimal(YY,MM)
         # add 1 to counter
         count += 1
 
-- 
2.43.0


From f2f7ea84d11ece76610122ec12977545f72fbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:26 +0000
Subject: [PATCH 62/72] fix: geocenter files of laser ranging without the
 dealiasing model need no release

---
 gravity_toolkit/geocenter.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gravity_toolkit/geocenter.py b/gravity_toolkit/geocenter.py
index 8f389df..f98fed1 100644
--- a/gravity_toolkit/geocenter.py
+++ b/gravity_toolkit/geocenter.py
@@ -343,12 +343,13 @@ class geocenter(object):
 
         # directory setup for AOD1b data starting with input degree 1 file
         # this will verify that the input paths work
-        base_dir = self.filename.parent.parent
-        self.directory = base_dir.joinpath('AOD1B', kwargs['release'], 'geocenter')
-        # check that AOD1B directory exists
-        if not self.directory.exists():
-            msg = f'{str(self.directory)} not found in file system'
-            raise FileNotFoundError(msg)
+        if kwargs['AOD']:
+            base_dir = self.filename.parent.parent
+            self.directory = base_dir.joinpath('AOD1B', kwargs['release'], 'geocenter')
+            # check that AOD1B directory exists
+            if not self.directory.exists():
+                msg = f'{str(self.directory)} not found in file system'
+                raise FileNotFoundError(msg)
 
         # Input geocenter file and split lines
         with self.filename.open(mode='r', encoding='utf8') as f:
-- 
2.43.0


From 95b8887fe0c0f5cf0fc383b4fe04aafb7690ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:50 +0000
Subject: [PATCH 63/72] fix: order of a GIA object given as MMAX

---
 gravity_toolkit/read_GIA_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/read_GIA_model.py b/gravity_toolkit/read_GIA_model.py
index 39da6de..5f5e673 100755
--- a/gravity_toolkit/read_GIA_model.py
+++ b/gravity_toolkit/read_GIA_model.py
@@ -719,7 +719,7 @@ class gia(harmonics):
         kwargs.setdefault('verbose',False)
         # catch case where MMAX is entered
         if ('MMAX' in kwargs.keys()):
-            kwargs['mmax'] = np.copy(kwargs['mmax'])
+            kwargs['mmax'] = kwargs['MMAX']
         # read data from GIA file
         Ylms = read_GIA_model(self.filename, GIA=kwargs['GIA'],
             LMAX=self.lmax, MMAX=kwargs['mmax'])
-- 
2.43.0


From 1e10c215757679edc046eddc3cceddde4eb7bdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 64/72] fix: tables of a single monthly solution

---
 gravity_toolkit/grace_date.py         | 2 +-
 gravity_toolkit/grace_find_months.py  | 2 +-
 gravity_toolkit/grace_months_index.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/gravity_toolkit/grace_date.py b/gravity_toolkit/grace_date.py
index 6201292..05adfe6 100644
--- a/gravity_toolkit/grace_date.py
+++ b/gravity_toolkit/grace_date.py
@@ -254,7 +254,7 @@ def grace_date(base_dir, PROC='', DREL='', DSET='', OUTPUT=True, MODE=0o775):
     # For CSR and GFZ: Nov 2011 (119) is centered in Oct 2011 (118)
     # For JPL: Dec 2011 (120) is centered in Jan 2012 (121)
     # For all: May 2015 (161) is centered in Apr 2015 (160)
-    mon = gravity_toolkit.time.adjust_months(mon)
+    mon = np.atleast_1d(gravity_toolkit.time.adjust_months(mon))
 
     # Output GRACE/GRACE-FO date ascii file
     if OUTPUT:
diff --git a/gravity_toolkit/grace_find_months.py b/gravity_toolkit/grace_find_months.py
index 2105fb0..8d44c3f 100644
--- a/gravity_toolkit/grace_find_months.py
+++ b/gravity_toolkit/grace_find_months.py
@@ -118,7 +118,7 @@ def grace_find_months(base_dir, PROC, DREL, DSET='GSM'):
     dtype = np.dtype({'names':names, 'formats':formats})
     # read GRACE/GRACE-FO date ascii file
     # skip the header row and extract dates (decimal format) and months
-    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype)
+    date_input = np.loadtxt(grace_date_file, skiprows=1, dtype=dtype, ndmin=1)
     # date info dictionary
     var_info = {}
     var_info['time'] = date_input['t']
diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 00531d7..135c5b9 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -123,7 +123,7 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
                 var_name = f'{pr}_{rl}'
                 # skip the header line
                 var_info[var_name] = np.loadtxt(grace_date_file,
-                    skiprows=1, dtype=dtype)
+                    skiprows=1, dtype=dtype, ndmin=1)
                 # Finding the maximum month measured
                 if (var_info[var_name]['mon'].max() > max_mon):
                     # if the maximum month in this dataset is greater
-- 
2.43.0


From 52b0275fd157aeee5e7410b53332edaea7d6b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 65/72] fix: permissions of the index of months are not set by
 default

---
 gravity_toolkit/grace_months_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/grace_months_index.py b/gravity_toolkit/grace_months_index.py
index 135c5b9..85e510f 100644
--- a/gravity_toolkit/grace_months_index.py
+++ b/gravity_toolkit/grace_months_index.py
@@ -178,7 +178,8 @@ def grace_months_index(base_dir, DREL=['RL06','rl06v2.0'], MODE=None):
     # close months file
     fid.close()
     # set the permissions level of the output file
-    grace_months_file.chmod(mode=MODE)
+    if MODE is not None:
+        grace_months_file.chmod(mode=MODE)
 
 # PURPOSE: create argument parser
 def arguments():
-- 
2.43.0


From a6a9e9df3d63ccb20278e9e60955ef24ae7a9ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:38 +0000
Subject: [PATCH 66/72] fix: granule patterns without a mission or version

---
 gravity_toolkit/utilities.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index d7cfaa4..16af047 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -2065,6 +2065,11 @@ def compile_regex_pattern(
         raise ValueError(f'Unknown Level-2 product {DSET}')
     if isinstance(version, int):
         version = str(version).zfill(2)
+    elif version is None:
+        # any version
+        version = r'\d+'
+    # Release-06 granules list the mission: any mission if not given
+    MISSION = mission or r'(GRAC|GRFO)'
     # compile regular expression operator for inputs
     if ((DSET == 'GSM') and (PROC == 'CSR') and (DREL in ('RL04','RL05'))):
         # CSR GSM: only monthly degree 60 products
@@ -2076,12 +2081,12 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'CSR') and (DREL == 'RL06')):
         # CSR GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, MISSION, solution, release.zfill(2), version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_UTCSR_{2}_{3}{4}(\.gz)?$'
     elif ((DSET == 'GSM') and (PROC == 'CSR') and (DREL.endswith('LRI'))):
         # CSR GSM LRI solutions: monthly products for mission and solution
         release, version = re.findall(r'(\d+)\.(\d+)', DREL).pop()
-        args = (DSET, mission, r'EA01', release.zfill(2), version.zfill(2))
+        args = (DSET, MISSION, r'EA01', release.zfill(2), version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_UTCSR_{2}_{3}{4}(\.gz)?$'
     elif ((DSET == 'GSM') and (PROC == 'GFZ') and (DREL == 'RL04')):
         # GFZ RL04: only unconstrained solutions (not GK2 products)
@@ -2095,7 +2100,7 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'GFZ') and (DREL == 'RL06')):
         # GFZ GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, MISSION, solution, release.zfill(2), version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_GFZOP_{2}_{3}{4}(\.gz)?$'
     elif (PROC == 'JPL') and DREL in ('RL04','RL05'):
         # JPL: RL04a and RL05a products (denoted by 0001)
@@ -2105,7 +2110,7 @@ def compile_regex_pattern(
     elif ((DSET == 'GSM') and (PROC == 'JPL') and (DREL == 'RL06')):
         # JPL GSM RL06: monthly products for mission and solution
         release, = re.findall(r'\d+', DREL)
-        args = (DSET, mission, solution, release.zfill(2), version.zfill(2))
+        args = (DSET, MISSION, solution, release.zfill(2), version.zfill(2))
         pattern = r'{0}-2_\d+-\d+_{1}_JPLEM_{2}_{3}{4}(\.gz)?$'
     elif (PROC == 'CNES'):
         # CNES: use products in standard format
-- 
2.43.0


From 9506f4198b7c6063694addc358375ed492d6185e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:04 +0000
Subject: [PATCH 67/72] fix: averages of grids over JPL mascons

The averages were divided by the number of latitudes within the mascon,
and mascons with latitudes but without longitudes were not masked.
---
 gravity_toolkit/mascons.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/mascons.py b/gravity_toolkit/mascons.py
index d7da443..de04e7d 100644
--- a/gravity_toolkit/mascons.py
+++ b/gravity_toolkit/mascons.py
@@ -157,15 +157,17 @@ def to_jpl(gdata, lon, lat, lon_bound, lat_bound):
         # indices for grid points within the mascon
         I, = np.nonzero((lat >= lat_bound[k,1]) & (lat < lat_bound[k,0]))
         J, = np.nonzero((lon >= lon_bound[k,0]) & (lon < lon_bound[k,2]))
-        nlt = np.count_nonzero((lat >= lat_bound[k,1]) & (lat < lat_bound[k,0]))
+        # number of grid points within the mascon
+        npts = len(I)*len(J)
         I,J = (I[np.newaxis,:], J[:,np.newaxis])
         # calculate average data for mascon bin
-        mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
-            np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J]/nlt)
+        if (npts > 0):
+            mascon_array['data'][k] = np.mean((np.cos(lat[I]*np.pi/180.0) /
+                np.mean(np.cos(lat[I]*np.pi/180.0)))*gdata[I,J])
         # calculate coordinates of mascon center
         mascon_array['lat'][k] = (lat_bound[k,1]+lat_bound[k,0])/2.0
         mascon_array['lon'][k] = (lon_bound[k,1]+lon_bound[k,2])/2.0
-        mascon_array['mask'][k] = bool(nlt == 0)
+        mascon_array['mask'][k] = bool(npts == 0)
         # Do a check at the poles to make the lat/lon equal to +/-90/0
         if (np.abs(lat_bound[k,0]) == 90):
             mascon_array['lat'][k] = lat_bound[k,0]
-- 
2.43.0


From d9797de00e08aa7916eeffec726a179dc0bb5ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:04 +0000
Subject: [PATCH 68/72] fix: shift of grids that already begin at the longitude

---
 gravity_toolkit/tools.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/tools.py b/gravity_toolkit/tools.py
index 22058e2..9364182 100644
--- a/gravity_toolkit/tools.py
+++ b/gravity_toolkit/tools.py
@@ -1161,15 +1161,17 @@ def shift_grid(lon0, data, lon, CYCLIC=360.0):
         shift_lon = np.ma.zeros(lon.shape,lon.dtype)
     else:
         shift_lon = np.zeros(lon.shape,lon.dtype)
-    shift_lon[0:-i0] = lon[i0:] - CYCLIC
-    shift_lon[-i0:] = lon[start_idx:i0+start_idx]
+    # number of columns from the starting longitude
+    n0 = len(lon) - i0
+    shift_lon[:n0] = lon[i0:] - CYCLIC
+    shift_lon[n0:] = lon[start_idx:i0+start_idx]
     # shift data values
     if np.ma.isMA(data):
         shift_data = np.ma.zeros(data.shape,data.dtype)
     else:
         shift_data = np.zeros(data.shape,data.dtype)
-    shift_data[:,:-i0] = data[:,i0:]
-    shift_data[:,-i0:] = data[:,start_idx:i0+start_idx]
+    shift_data[:,:n0] = data[:,i0:]
+    shift_data[:,n0:] = data[:,start_idx:i0+start_idx]
     # return the shifted values
     return (shift_data, shift_lon)
 
-- 
2.43.0


From 12294bbd3ff113e52b8fedd0d79ac14130012830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:45 +0000
Subject: [PATCH 69/72] fix: granules of the catalogue without an address

---
 gravity_toolkit/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 16af047..68ac36c 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -1716,19 +1716,19 @@ def cmr_filter_json(
     granule_mtimes = []
     # check that there are urls for request
     if ('feed' not in search_results) or ('entry' not in search_results['feed']):
-        return (granule_names,granule_urls)
+        return (granule_names,granule_urls,granule_mtimes)
     # descriptor links for each endpoint
     rel = {}
     rel['data'] = "http://esipfed.org/ns/fedsearch/1.1/data#"
     rel['s3'] = "http://esipfed.org/ns/fedsearch/1.1/s3#"
     # iterate over references and get cmr location
     for entry in search_results['feed']['entry']:
-        granule_names.append(entry['title'])
-        granule_mtimes.append(get_unix_time(entry['updated'],
-            format='%Y-%m-%dT%H:%M:%S.%f%z'))
         for link in entry['links']:
             if (link['rel'] == rel[endpoint]):
+                granule_names.append(entry['title'])
                 granule_urls.append(link['href'])
+                granule_mtimes.append(get_unix_time(entry['updated'],
+                    format='%Y-%m-%dT%H:%M:%S.%f%z'))
                 break
     # return the list of urls, granule ids and modified times
     return (granule_names,granule_urls,granule_mtimes)
-- 
2.43.0


From 570bc0afbce801aa7373342205fbd86f7c8e2e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:10 +0000
Subject: [PATCH 70/72] fix: times of dates without a time zone

---
 gravity_toolkit/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 68ac36c..47c2630 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -306,7 +306,8 @@ def get_unix_time(
     except (TypeError, ValueError):
         return None
     else:
-        return parsed_time.timestamp()
+        # dates without a time zone are in UTC
+        return calendar.timegm(parsed_time.utctimetuple())
 
 # PURPOSE: output a time string in isoformat
 def isoformat(time_string: str):
-- 
2.43.0


From 743bb9c6033e82c7cf9a7c8ffc0a404631042cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:11 +0000
Subject: [PATCH 71/72] fix: prompt for the password when credentials are
 refused

---
 gravity_toolkit/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gravity_toolkit/utilities.py b/gravity_toolkit/utilities.py
index 47c2630..8dd39e2 100644
--- a/gravity_toolkit/utilities.py
+++ b/gravity_toolkit/utilities.py
@@ -940,6 +940,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From 0a7be7673fa355c3058289f4b77df22a8e8a091b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:51 +0000
Subject: [PATCH 72/72] fix: calculate the month of dated gfc files from their
 date

---
 gravity_toolkit/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gravity_toolkit/harmonics.py b/gravity_toolkit/harmonics.py
index 4f310a5..76228c5 100644
--- a/gravity_toolkit/harmonics.py
+++ b/gravity_toolkit/harmonics.py
@@ -530,7 +530,7 @@ class harmonics(object):
         if kwargs['date']:
             self.time = Ylms['time'].copy()
             # adjust months to fix special cases if necessary
-            self.month = adjust_months(Ylms['month'])
+            self.month = adjust_months(calendar_to_grace(self.time))
         # geophysical parameters of gravity model
         self.GM = np.float64(Ylms['earth_gravity_constant'])
         self.R = np.float64(Ylms['radius'])
-- 
2.43.0

