From ab6ae8df58faf28e9cce0d02cf4a8356a4c8d9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 01/47] fix: reading a band parameter equal to zero raised
 AssertionError

---
 cuprates_transport/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5e63a84..0be4101 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -106,11 +106,11 @@ class BandStructure:
 
     def __getitem__(self, key):
         try:
-            assert self._band_params[key]
+            value = self._band_params[key]
         except KeyError:
             print(key + " is not a defined band parameter")
         else:
-            return self._band_params[key]
+            return value
 
     def get_band_param(self, key):
         return self[key]
-- 
2.43.0


From 72ce490291c5c4f38a3e43236e033cc69d30c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 02/47] fix: set_mu_to_doping left the Fermi surface of the
 previous mu in place

---
 cuprates_transport/bandstructure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 0be4101..145b271 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -261,12 +261,12 @@ class BandStructure:
         return n_per_kz, p_per_kz
 
     def diff_doping(self, mu, p_target):
-        self._band_params["mu"] = mu
+        self["mu"] = mu
         return self.doping() - p_target
 
     def set_mu_to_doping(self, p_target, ptol=0.001):
-        self._band_params["mu"] = optimize.brentq(self.diff_doping, -10, 10,
-                                                  args=(p_target,), xtol=ptol)
+        self["mu"] = optimize.brentq(self.diff_doping, -10, 10,
+                                     args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
         if self.march_square is True:
-- 
2.43.0


From 49413de1ca41b5e77b9a484490d397a53f003351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 03/47] fix: assigning band_params aliased the caller's
 dictionary

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 145b271..e488f7f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -123,7 +123,7 @@ class BandStructure:
         return self._band_params
 
     def _set_band_params(self, band_params):
-        self._band_params = band_params
+        self._band_params = deepcopy(band_params)
         self.erase_Fermi_surface()
     band_params = property(_get_band_params, _set_band_params)
 
-- 
2.43.0


From 19bf329173e6db3182ce37a5c56834d729f81734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 04/47] fix: assigning scattering_params aliased the caller's
 dictionary

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 0723b3b..93ac0c2 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -82,7 +82,7 @@ class Scattering:
         return self._scattering_params
 
     def _set_scattering_params(self, scattering_params):
-        self._scattering_params = scattering_params
+        self._scattering_params = deepcopy(scattering_params)
         # Set scattering rate model parameters as class attributes
         for param, value in self._scattering_params.items():
             setattr(self, param, value)  # Set each parameter as an attribute
-- 
2.43.0


From 2c6cd0dfdfe76be7b574d84bcab8dc3969b7427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 05/47] fix: k_max aliased the caller's list and the shared
 default list

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index e488f7f..5b692dc 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -76,7 +76,7 @@ class BandStructure:
         # Number of subdivisions of the FBZ in units of Pi
         self.resolution = [res if res % 2 != 0 else res + 1 for res in resolution]
         # Unitless bounds of the Brillouin zone : k_x = [- k_max / a ... + k_max / a]
-        self.k_max = k_max # list
+        self.k_max = list(k_max) # own copy, the default list is shared
 
         # Whether to use or not the marching square for higher symmetries
         self.march_square = march_square
-- 
2.43.0


From 7e7e6761f97283f1675616173f9ed74b2014c447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 06/47] fix: setting N_time before the first runTransport
 raised TypeError

---
 cuprates_transport/conductivity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0d818a9..0daf733 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -115,6 +115,8 @@ class Conductivity(Scattering):
         return self._N_time
     def _set_N_time(self, N_time):
         self._N_time = N_time
+        if self.time_max is None: # no time grid yet, runTransport builds it
+            return
         self.dtime = self.time_max / self._N_time
         self.time_array = np.arange(0, self.time_max, self.dtime)
         # integrand for tau_function
-- 
2.43.0


From 9d345309a6ddc0b239e850f8a0a367ed85131daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 07/47] fix: rounding of arange could add an N_time+1-th time
 step

---
 cuprates_transport/conductivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 0daf733..f932bf7 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -118,7 +118,7 @@ class Conductivity(Scattering):
         if self.time_max is None: # no time grid yet, runTransport builds it
             return
         self.dtime = self.time_max / self._N_time
-        self.time_array = np.arange(0, self.time_max, self.dtime)
+        self.time_array = self.dtime * np.arange(self._N_time)
         # integrand for tau_function
         self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1]
     N_time = property(_get_N_time, _set_N_time)
@@ -186,7 +186,7 @@ class Conductivity(Scattering):
         # Time parameters
         self.time_max = 8 * self.tau_total_max()  # in picoseconds
         self.dtime = self.time_max / self.N_time
-        self.time_array = np.arange(0, self.time_max, self.dtime)
+        self.time_array = self.dtime * np.arange(self._N_time)
         self.dtime_array = np.append(0, self.dtime * np.ones_like(self.time_array))[:-1] # integrand for tau_function
 
     def B_func(self):
-- 
2.43.0


From a81f69c68de9aba27bcd66f7c60760836392da73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 08/47] fix: quantities of the previous Fermi surface survived
 erasing or a new discretization

---
 cuprates_transport/bandstructure.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 5b692dc..e60863f 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -145,6 +145,7 @@ class BandStructure:
     def erase_Fermi_surface(self):
         self.kf  = None
         self.vf  = None
+        self.mass = None
         self.dkf = None
         self.dks = None
         self.dkz = None
@@ -269,6 +270,12 @@ class BandStructure:
                                      args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
+        # Discard what only describes the previously discretized surface
+        self.mass = None
+        self.dks  = None
+        self.dkz  = None
+        self.dos_epsilon = None
+        self.number_of_points_per_kz_list = []
         if self.march_square is True:
             self.kf, self.dkf = self.marching_square(epsilon)
         else:
-- 
2.43.0


From d6d76013903153cb80f3a771853c8ced7a91c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 09/47] fix: marching_square crashed when the first kz slice
 has no contour

---
 cuprates_transport/bandstructure.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index e60863f..008748e 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -370,6 +370,8 @@ class BandStructure:
         # Meshgrid for kx and ky
         kxx, kyy = np.meshgrid(kx_a, ky_a, indexing='ij')
         self.number_of_points_per_kz_list = []
+        kxf, kyf, kzf, dkf = np.empty(0), np.empty(0), np.empty(0), np.empty(0)
+        self.dks, self.dkz = np.empty(0), np.empty(0)
         # Loop over the kz array
         for j, kz in enumerate(kz_a):
             contours = measure.find_contours(self.energy_func(kxx, kyy, kz), epsilon)
@@ -407,26 +409,20 @@ class BandStructure:
                     x_int = x_dump
                     y_int = y_dump
                 # Put in an array /////////////////////////////////////////////////////#
-                if i == 0 and j == 0:  # for first contour and first kz
-                    kxf = x_int / self.a
-                    kyf = y_int / self.b
-                    # self.a (and not b) because anisotropy is taken into account earlier
-                    kzf = kz * np.ones_like(x_int)
-                    dkf = dks * dkz * np.ones_like(x_int)
-                    self.dks = dks * np.ones_like(x_int)
-                    self.dkz = dkz * np.ones_like(x_int)
-                else:
-                    kxf = np.append(kxf, x_int / self.a)
-                    kyf = np.append(kyf, y_int / self.b)
-                    kzf = np.append(kzf, kz * np.ones_like(x_int))
-                    dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
-                    self.dks = np.append(self.dks, dks * np.ones_like(x_int))
-                    self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
+                kxf = np.append(kxf, x_int / self.a)
+                kyf = np.append(kyf, y_int / self.b)
+                # self.a (and not b) because anisotropy is taken into account earlier
+                kzf = np.append(kzf, kz * np.ones_like(x_int))
+                dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
+                self.dks = np.append(self.dks, dks * np.ones_like(x_int))
+                self.dkz = np.append(self.dkz, dkz * np.ones_like(x_int))
             if self.a == self.b:
                 # discretize one fourth of FS, therefore need * 4
                 self.number_of_points_per_kz_list.append(4 * number_of_points_per_kz)
             else:
                 self.number_of_points_per_kz_list.append(number_of_points_per_kz)
+        if kxf.size == 0:
+            raise ValueError("No Fermi surface at this energy.")
         # dim -> (n, i0) = (xyz, position on FS)
         kf = np.vstack([kxf, kyf, kzf])
         return kf, dkf
-- 
2.43.0


From 6ae9082d7ede4c9639c77d6f2f73d4cc63fdc6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 10/47] fix: marching_square measured contour lengths wrongly
 for a != b

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 008748e..aeb8972 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -386,6 +386,7 @@ class BandStructure:
                 else:
                     x = (contour[:, 0] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[0]
                     y = (contour[:, 1] / (2*self.res_xy_rough - 1) - 0.5) * 2*self.k_max[1]
+                    y *= self.a / self.b # like x in units of 1 / a, for the path length
                 # path
                 ds = sqrt(np.diff(x)**2 + np.diff(y)**2)  # segment lengths
                 s = np.zeros_like(x)  # arrays of zeros
@@ -410,7 +411,7 @@ class BandStructure:
                     y_int = y_dump
                 # Put in an array /////////////////////////////////////////////////////#
                 kxf = np.append(kxf, x_int / self.a)
-                kyf = np.append(kyf, y_int / self.b)
+                kyf = np.append(kyf, y_int / self.a)
                 # self.a (and not b) because anisotropy is taken into account earlier
                 kzf = np.append(kzf, kz * np.ones_like(x_int))
                 dkf = np.append(dkf, dks * dkz * np.ones_like(x_int))
-- 
2.43.0


From e13b2d169ccf66b5311818f128c0479aa3c18110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 11/47] fix: a constant non-zero velocity component had no
 array shape

---
 cuprates_transport/bandstructure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index aeb8972..0092f5b 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -174,6 +174,8 @@ class BandStructure:
         for i, v in enumerate(self.v_sym):
             if v == 0:
                 self.v_sym[i] = "numpy.zeros_like(" + k_list[i] + ")"
+            elif not v.free_symbols & {kx, ky, kz}:
+                self.v_sym[i] = "(" + str(v) + ") * numpy.ones_like(" + k_list[i] + ")"
 
         # Lambdafity //////////////////////////////////////////////////////////
         epsilon_func = sp.lambdify(self.var_sym, self.energy_sym, 'numpy')
-- 
2.43.0


From 88e76c9bef6499005b0c9936a366c61c537a9bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 12/47] fix: gamma_dos_func ignored the velocities it is given
 and crashed in a field

---
 cuprates_transport/scattering.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 93ac0c2..044f5bf 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -155,8 +155,9 @@ class Scattering:
         Reminder: (v_F_max / v_F) = ( dos_k / dos_k_max)
         """
         dos_max = np.max(self.bandObject.dos_k)
+        dos_k = 1 / (hbar * sqrt(vx**2 + vy**2 + vz**2))
         # value to normalize the DOS to a quantity without units
-        return self.gamma_dos_max * (self.bandObject.dos_k / dos_max)
+        return self.gamma_dos_max * (dos_k / dos_max)
 
     # @scattering_method
     # def gamma_cmfp_func(self, vx, vy, vz):
-- 
2.43.0


From 07279560cc6af7456758cf0fc14fb2d3e02f05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 13/47] fix: omegac_tau_func passed kz as the z velocity

---
 cuprates_transport/conductivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index f932bf7..84d2959 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -321,7 +321,7 @@ class Conductivity(Scattering):
         prefactor = hbar / (2 * pi * e * self._Bamp)
         ## Function of k
         kf0, kf1, kf2 = kf[0, :], kf[1, :], kf[2, :]
-        vf0, vf1, vf2 = vf[0, :], vf[1, :], kf[2, :]
+        vf0, vf1, vf2 = vf[0, :], vf[1, :], vf[2, :]
         inverse_omegac_tau_k = (prefactor * 2*pi*kf_perp / vf_perp / picosecond *
                                 self.tau_tot_func(kf0, kf1, kf2, vf0, vf1, vf2))
         self.omegac_tau_k = 1 / inverse_omegac_tau_k
-- 
2.43.0


From 966126f835cd268cbf39d688bb1fec788f66103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 14/47] fix: ADMR never set the total hole doping and
 accumulated the filling over runs

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 8905099..0e06eb7 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -66,9 +66,10 @@ class ADMR:
 
     #---------------------------------------------------------------------------
     def update_total_doping(self):
+        self.total_filling = 0
         for i in range(len(self.condObject_list)):
             self.total_filling += self.condObject_list[i].bandObject.n
-        self.total_hole_dopin = 1 - self.total_filling
+        self.total_hole_doping = 1 - self.total_filling
 
     def file_name_func(self):
         # To point to bandstructure parameters, we use just one band
-- 
2.43.0


From 4b52e65cca5d85b50e8012cddcf796e44f820dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 15/47] fix: the theta grid of a fit had one angle too few for
 its step

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index d421b6d..eff534b 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -42,7 +42,7 @@ class FitAnglesADMR:
         Btheta_min = min(Btheta_min_list)
         Btheta_max = max(Btheta_max_list)
         Btheta_steps = min(Btheta_steps_list)
-        N = int((Btheta_max-Btheta_min) / Btheta_steps)
+        N = int(np.ceil((Btheta_max-Btheta_min) / Btheta_steps - 1e-9)) + 1
         self.Btheta_array = np.linspace(Btheta_min, Btheta_max, N)
         return self.Bphi_array, self.Btheta_array
 
-- 
2.43.0


From 33148c9c3b798455d0da6e2c1bdc285744f856e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 16/47] fix: compute_fitness ignored a candidate with an entry
 equal to zero

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index eff534b..1693b40 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -205,10 +205,10 @@ class Fitness:
                 for T in self.T_list:
                     self.update_conditions(T, band, param, x[i])
 
-    def compute_fitness(self, x=np.array([0])):
+    def compute_fitness(self, x=None):
         """Compute chi2 = sum((sim[i] - data[i])**2)"""
         ## Update the params_dict with fit values
-        if x.all()!=0:
+        if x is not None:
             self.update_parameters(x)
         ## Compute sim, then diff
         diff_array = np.empty(0)
-- 
2.43.0


From 85eca534c57f970dae7f178905d243a1015a2f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 17/47] fix: fit parameters outside band_params and
 scattering_params had no effect

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 1693b40..21b6449 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -116,6 +116,12 @@ class SimADMR:
 
     def update_params(self):
         for i, band in enumerate(self.bands_list):
+            condObject = self.admrObject.condObject_list[i]
+            for name in ("a", "b", "c", "energy_scale"):
+                setattr(condObject.bandObject, name, self.params_dict[band][name])
+            for name in ("Bamp", "T"):
+                if name in self.params_dict[band].keys():
+                    setattr(condObject, name, self.params_dict[band][name])
             band_params = self.params_dict[band]["band_params"]
             scattering_params = self.params_dict[band]["scattering_params"]
             self.admrObject.condObject_list[i].bandObject.band_params =  band_params
-- 
2.43.0


From 296b4edaa1d3dda845afdcdae13cd17e375b013f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:32 +0000
Subject: [PATCH 18/47] fix: free parameters in scattering_params were ignored
 by the one-temperature fits

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 4 ++++
 cuprates_transport/fitting_admr_series_oneT.py   | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index bff76df..ce9b8fb 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -161,6 +161,8 @@ class FittingADMRParallel:
                 self.member[pars_name] = self.pars[pars_name]
             elif pars_name in self.member["band_params"].keys():
                 self.member["band_params"][pars_name] = self.pars[pars_name]
+            elif pars_name in self.member["scattering_params"].keys():
+                self.member["scattering_params"][pars_name] = self.pars[pars_name]
 
         ## Compute ADMR ------------------------------------------------------------
         self.generate_admr()
@@ -400,6 +402,8 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
             fit_object.member[pars_name] = res.x[i]
         elif pars_name in fit_object.member["band_params"].keys():
             fit_object.member["band_params"][pars_name] = res.x[i]
+        elif pars_name in fit_object.member["scattering_params"].keys():
+            fit_object.member["scattering_params"][pars_name] = res.x[i]
         print(pars_name + " : " + "{0:g}".format(res.x[i]))
     ## Save BEST member to JSON
     fit_object.save_member_to_json(filename=filename)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index ef2c0f8..2de2aaa 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -34,6 +34,8 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.pars.add(param_name, value = self.init_member["scattering_params"][param_name], min = param_range[0], max = param_range[-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
         ## Differential evolution
         self.population  = population
@@ -164,6 +166,8 @@ class FittingADMR:
                 self.member[param_name] = self.pars[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = self.pars[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = self.pars[param_name].value
             print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
 
         ## Compute ADMR ------------------------------------------------------------
@@ -213,6 +217,8 @@ class FittingADMR:
                 self.member[param_name] = out.params[param_name].value
             elif param_name in self.init_member["band_params"].keys():
                 self.member["band_params"][param_name] = out.params[param_name].value
+            elif param_name in self.init_member["scattering_params"].keys():
+                self.member["scattering_params"][param_name] = out.params[param_name].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From 0957269623a32b4a2f1ba659f5bd7f9919dd5487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 19/47] fix: free scattering parameters were rejected by the
 series multi-temperature fit

---
 cuprates_transport/fitting_admr_series_multi_T.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index a09cd42..9ebd14d 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -39,6 +39,9 @@ class FittingADMR:
                 self.pars.add(param_name, value = self.init_member[param_name], min = param_range[0], max = param_range[-1])
             elif param_name in self.init_member["band_params"].keys():
                 self.pars.add(param_name, value = self.init_member["band_params"][param_name], min = param_range[0], max = param_range[-1])
+            else: # scattering parameters, one set of values per temperature
+                for T in self.data_T_list:
+                    self.pars.add(param_name + "_" + str(T), value = self.init_member["scattering_params"][T][param_name], min = param_range[T][0], max = param_range[T][-1])
         self.method      = method # "shgo", "differential_evolution", "leastsq"
 
         ## Create a dictionnary member that contains dictionnaries for each temperatures
@@ -49,7 +52,7 @@ class FittingADMR:
         for param_name, param_value in init_member.items(): # then break the dictionaries of temperatures in member
             if type(param_value)==dict and param_name!="band_params":
                 for T in self.data_T_list:
-                    self.member_dict[T][param_name] = init_member[param_name][T]
+                    self.member_dict[T][param_name] = deepcopy(init_member[param_name][T])
 
         ## Objects
         if pipi_FSR==False:
@@ -199,6 +202,8 @@ class FittingADMR:
                     self.member_dict[T][param_name] = self.pars[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
                     self.member_dict[T]["band_params"][param_name] = self.pars[param_name].value
+                else:
+                    self.member_dict[T]["scattering_params"][param_name] = self.pars[param_name + "_" + str(T)].value
 
         # Print params
         for param_name in self.ranges_dict.keys():
@@ -209,6 +214,9 @@ class FittingADMR:
                         print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
             elif param_name in self.init_member["band_params"].keys():
                         print(param_name + " : " + "{0:g}".format(self.pars[param_name].value))
+            else:
+                        for T in self.data_T_list:
+                            print(param_name + "_" + str(T) + " : " + "{0:g}".format(self.pars[param_name + "_" + str(T)].value))
 
         ## Compute ADMR ------------------------------------------------------------
         self.produce_ADMR_object()
@@ -269,6 +277,8 @@ class FittingADMR:
                     self.member_dict[T][param_name] = out.params[param_name].value
                 elif param_name in self.init_member["band_params"].keys():
                     self.member_dict[T]["band_params"][param_name] = out.params[param_name].value
+                else:
+                    self.member_dict[T]["scattering_params"][param_name] = out.params[param_name + "_" + str(T)].value
 
         ## Save BEST member to JSON
         self.save_member_to_json(filename=filename)
-- 
2.43.0


From d93d8a7cc96d6cc5c8c2c232eff656fcbee37f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 20/47] fix: fits crashed after the search on names ADMR no
 longer has

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 4 ++--
 cuprates_transport/fitting_admr_series_multi_T.py | 6 +++---
 cuprates_transport/fitting_admr_series_oneT.py    | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index ce9b8fb..8bbf3f9 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -319,7 +319,7 @@ class FittingADMRParallel:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.condObject_dict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -327,7 +327,7 @@ class FittingADMRParallel:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 9ebd14d..8fa46e7 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -331,11 +331,11 @@ class FittingADMR:
             fig.text(0.84,0.84, r"$T$ (data) = " + str(self.member_dict[T]["data_T"]) + " K", fontsize=14)
             fig.text(0.84,0.79, r"$T$ (sim) = " + str(self.member_dict[T]["T"]) + " K", fontsize=14)
             fig.text(0.84,0.74, r"$p$ (data) = " + "{0:.2f}".format(self.member_dict[T]["data_p"]), fontsize=14)
-            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].totalHoleDoping), fontsize=14)
+            fig.text(0.84,0.69, r"$p$ (sim) = " + "{0:.3f}".format(self.admrObject_dict[T].total_hole_doping), fontsize=14)
             #############################################
 
             #############################################
-            axes.set_xlim(0, self.admrObject.Btheta_max)
+            axes.set_xlim(0, self.admrObject_dict[T].Btheta_max)
             # axes.set_ylim(1+1.2*(min_y-1),1.2*(max_y-1)+1)
             axes.tick_params(axis='x', which='major', pad=7)
             axes.tick_params(axis='y', which='major', pad=8)
@@ -393,7 +393,7 @@ class FittingADMR:
                 plt.close(fig)
 
             ## Figure Parameters //////////////////////////////////////////////////////#
-            for iniCondObject in self.admrObject_dict[T].initialCondObjectDict.values():
+            for iniCondObject in self.admrObject_dict[T].condObject_list:
                 fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 2de2aaa..21c5158 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -237,7 +237,7 @@ class FittingADMR:
         if filename==None:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+            "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
         path = self.folder + "/" + filename + ".json"
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
@@ -355,7 +355,7 @@ class FittingADMR:
             plt.close(fig)
 
         ## Figure Parameters //////////////////////////////////////////////////////#
-        for iniCondObject in self.admrObject.initialCondObjectDict.values():
+        for iniCondObject in self.admrObject.condObject_list:
             fig_list.append(iniCondObject.figParameters(fig_show=fig_show))
 
         ## Save figures list --------------
@@ -363,7 +363,7 @@ class FittingADMR:
             if figname==None:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
-                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.fileNameFunc()
+                "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
             path = self.folder + "/" + figname + ".pdf"
             file_figures = PdfPages(path)
             for fig in fig_list:
-- 
2.43.0


From b7140d09ebc4ff3260f9b47c7528b94c236e4da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 21/47] fix: series fits with the default folder wrote to the
 root of the filesystem

---
 cuprates_transport/fitting_admr_series_multi_T.py | 11 ++++++-----
 cuprates_transport/fitting_admr_series_oneT.py    |  7 ++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 8fa46e7..8183ef8 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -1,4 +1,5 @@
 import json
+import os
 import numpy as np
 import time
 from copy import deepcopy
@@ -288,19 +289,19 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member_dict = json.load(f)
 
 
     def save_member_to_json(self, filename=None):
         self.produce_ADMR_object()
         if filename==None:
-            path = self.folder + "/data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
+            path = os.path.join(self.folder, "data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_")
             for T in self.data_T_list:
                 path += "{0:.1f}".format(self.member_dict[T]["data_T"]) + "K_"
             path += "fit_.json"
         else:
-            path = self.folder + "/" + filename + ".json"
+            path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member_dict, f, indent=4)
 
@@ -399,12 +400,12 @@ class FittingADMR:
         ## Save figures list --------------
         if fig_save == True:
             if figname==None:
-                path = self.folder + "/data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_"
+                path = os.path.join(self.folder, "data_" + "p" + "{0:.2f}".format(self.member_dict[self.data_T_list[0]]["data_p"]) + "_T_")
                 for T in self.data_T_list:
                     path += "{0:.1f}".format(self.member_dict[T]["data_T"]) + "K_"
                 path += "fit_.pdf"
             else:
-                path = self.folder + "/" + figname + ".pdf"
+                path = os.path.join(self.folder, figname + ".pdf")
 
             file_figures = PdfPages(path)
             for fig in fig_list:
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 21c5158..cc19b05 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -1,4 +1,5 @@
 import json
+import os
 import numpy as np
 import time
 from copy import deepcopy
@@ -228,7 +229,7 @@ class FittingADMR:
 
 
     def load_member_from_json(self):
-        with open(self.folder + "/" + self.json_name, "r") as f:
+        with open(os.path.join(self.folder, self.json_name), "r") as f:
             self.member = json.load(f)
 
 
@@ -238,7 +239,7 @@ class FittingADMR:
             filename = "data_" + \
             "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
             "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-        path = self.folder + "/" + filename + ".json"
+        path = os.path.join(self.folder, filename + ".json")
         with open(path, 'w') as f:
             json.dump(self.member, f, indent=4)
 
@@ -364,7 +365,7 @@ class FittingADMR:
                 figname = "data_" + \
                 "p" + "{0:.2f}".format(self.member["data_p"]) + "_" + \
                 "T" + "{0:.1f}".format(self.member["data_T"]) + "_fit_" + self.admrObject.file_name_func()
-            path = self.folder + "/" + figname + ".pdf"
+            path = os.path.join(self.folder, figname + ".pdf")
             file_figures = PdfPages(path)
             for fig in fig_list:
                 file_figures.savefig(fig)
-- 
2.43.0


From 537e8f026c2825e59a22d0043262108505b4777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 22/47] fix: a reloaded multi-temperature member had lost its
 temperature keys

---
 cuprates_transport/fitting_admr_series_multi_T.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 8183ef8..a94dad4 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -290,7 +290,9 @@ class FittingADMR:
 
     def load_member_from_json(self):
         with open(os.path.join(self.folder, self.json_name), "r") as f:
-            self.member_dict = json.load(f)
+            member_dict = json.load(f)
+        # JSON turns the temperatures used as keys into strings
+        self.member_dict = {T: member_dict[str(T)] for T in self.data_T_list}
 
 
     def save_member_to_json(self, filename=None):
-- 
2.43.0


From f0d1d132d76199bf54bd23a2db14918c6444b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 23/47] fix: figMultipleFS2D changed the filling and doping of
 the band

---
 cuprates_transport/bandstructure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 0092f5b..977cb3d 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -553,6 +553,10 @@ class BandStructure:
         kx = np.linspace(-4*self.k_max[0] / self.a, 4*self.k_max[0] / self.a, self.res_xy_rough)
         ky = np.linspace(-4*self.k_max[1] / self.b, 4*self.k_max[1] / self.b, self.res_xy_rough)
         kxx, kyy = np.meshgrid(kx, ky, indexing = 'ij')
+        ## Total doping on a fine grid, a plot must not change self.n and self.p
+        n, p = self.n, self.p
+        p_tot = self.doping()
+        self.n, self.p = n, p
         ## Figure
         fig, axes = plt.subplots(1, 1, figsize=(7.5, 5.6))
         fig.subplots_adjust(left=0.14, right=0.75, bottom=0.20, top=0.9)
@@ -571,7 +575,7 @@ class BandStructure:
         # Adding the third value line
         fig.text(0.76, 0.68, r"$" + f"{a_z:g}" + r"\pi/c$", color="#f3d36b", fontsize=18)  # k_z
         fig.text(0.88, 0.68, (np.round(doping_per_kz[2], 3)), color="#f3d36b", fontsize=18)  # p_z
-        fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(self.doping(), 3)), fontsize = 18)
+        fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(p_tot, 3)), fontsize = 18)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, pi/self.c), 0, colors = '#ee9c54', linewidths = 3)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 2*pi/self.c), 0, colors = '#f3d36b', linewidths = 3)
-- 
2.43.0


From 27d231d3357d14e613811993b281356ff18cc7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 24/47] fix: rounding of arange could add a theta angle, series
 fits gained one per call

---
 cuprates_transport/admr.py                        | 3 ++-
 cuprates_transport/fitting_admr_parallel_oneT.py  | 2 +-
 cuprates_transport/fitting_admr_series_multi_T.py | 2 +-
 cuprates_transport/fitting_admr_series_oneT.py    | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 0e06eb7..84086b3 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -22,7 +22,8 @@ class ADMR:
         self.Btheta_max   = Btheta_max # in degrees
         self.Btheta_step  = Btheta_step # in degrees
         self.Btheta_norm = Btheta_norm # in degrees, rzz = rhozz / rhozz ( Btheta_norm )
-        self.Btheta_array = np.arange(self.Btheta_min, self.Btheta_max + self.Btheta_step, self.Btheta_step)
+        # the end of arange is just below max + step, not to gain an angle from rounding
+        self.Btheta_array = np.arange(self.Btheta_min, self.Btheta_max + (1 - 1e-9) * self.Btheta_step, self.Btheta_step)
         self.Bphi_array = np.array(Bphi_array)
 
         # Resistivity array rho_zz
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 8bbf3f9..8f4d2e4 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -105,7 +105,7 @@ class FittingADMRParallel:
     def load_Btheta_data(self):
         """Creates the theta angles at the selected temperatures and phi"""
         Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
+                                 self.member["Btheta_max"] + (1 - 1e-9) * self.member["Btheta_step"],
                                  self.member["Btheta_step"])
         ## Create Bphi
         self.load_Bphi_data()
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index a94dad4..a47c639 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -120,7 +120,7 @@ class FittingADMR:
         for T in self.data_T_list:
             ## Create Initial Btheta
             Btheta_array = np.arange(self.member_dict[T]["Btheta_min"],
-                                     self.member_dict[T]["Btheta_max"] + self.member_dict[T]["Btheta_step"],
+                                     self.member_dict[T]["Btheta_max"] + (1 - 1e-9) * self.member_dict[T]["Btheta_step"],
                                      self.member_dict[T]["Btheta_step"])
             ## Create Bphi
             self.load_Bphi_data()
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index cc19b05..b448eb6 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -96,7 +96,7 @@ class FittingADMR:
     def load_Btheta_data(self):
         ## Create Initial Btheta
         Btheta_array = np.arange(self.member["Btheta_min"],
-                                 self.member["Btheta_max"] + self.member["Btheta_step"],
+                                 self.member["Btheta_max"] + (1 - 1e-9) * self.member["Btheta_step"],
                                  self.member["Btheta_step"])
         ## Create Bphi
         self.load_Bphi_data()
-- 
2.43.0


From 14510fb898fe4dc1c18e0f9d7caaf832a28c74b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 25/47] fix: figScatteringColor overwrote gamma_min instead of
 setting gamma_max

---
 cuprates_transport/conductivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 84d2959..accdb85 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -429,7 +429,7 @@ class Conductivity(Scattering):
         if gamma_min == None:
             gamma_min = min(gamma_min_list)
         if gamma_max == None:
-            gamma_min = min(gamma_min_list)
+            gamma_max = max(gamma_max_list)
         line.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes)
         cbar.minorticks_on()
-- 
2.43.0


From 015cc97a8c6d2d0e02643c5d78a2e199fa7a1ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 26/47] fix: runFit reported an existing method as missing, and
 a missing one as NameError

---
 cuprates_transport/fitting_admr_series_multi_T.py | 10 +++++-----
 cuprates_transport/fitting_admr_series_oneT.py    |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index a47c639..99686a8 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -251,20 +251,20 @@ class FittingADMR:
         ## Run fit algorithm
         if self.method=="least_square":
             out = minimize(self.compute_diff, self.pars)
-        if self.method=="shgo":
+        elif self.method=="shgo":
             out = minimize(self.compute_diff, self.pars,
                            method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n=100, iters=20)
-        if self.method=="ampgo":
+        elif self.method=="ampgo":
             out = minimize(self.compute_diff, self.pars,
                            method='ampgo')
-        if self.method=="dual_annealing":
+        elif self.method=="dual_annealing":
             out = minimize(self.compute_diff, self.pars,
                            method='dual_annealing')
-        if self.method=="differential_evolution":
+        elif self.method=="differential_evolution":
             out = minimize(self.compute_diff, self.pars,
                            method='differential_evolution')
         else:
-            print("This method does not exist in the class")
+            raise ValueError("This method does not exist in the class")
 
         ## Display fit report
         report_fit(out)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index b448eb6..570ab14 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -197,17 +197,17 @@ class FittingADMR:
         ## Run fit algorithm
         if self.method=="least_square":
             out = minimize(self.compute_diff, self.pars)
-        if self.method=="shgo":
+        elif self.method=="shgo":
             out = minimize(self.compute_diff, self.pars,
                            method='shgo', sampling_method='sobol', options={"f_tol": 1e-16}, n = 100, iters=20)
-        if self.method=="differential_evolution":
+        elif self.method=="differential_evolution":
             out = minimize(self.compute_diff, self.pars,
                            method='differential_evolution')
-        if self.method=="ampgo":
+        elif self.method=="ampgo":
             out = minimize(self.compute_diff, self.pars,
                            method='ampgo')
         else:
-            print("This method does not exist in the class")
+            raise ValueError("This method does not exist in the class")
 
         ## Display fit report
         report_fit(out)
-- 
2.43.0


From 40b51583c3dfc4f6a4d8bdc39318b993158f5640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:44 +0000
Subject: [PATCH 27/47] fix: scattering_models aliased the caller's list

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 044f5bf..7155abd 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -23,7 +23,7 @@ def scattering_method(func):
 class Scattering:
     def __init__(self, scattering_models, scattering_params, **kwargs):
 
-        self.scattering_models = scattering_models
+        self.scattering_models = list(scattering_models) # own copy
         self._scattering_params = deepcopy(scattering_params)
         self.gamma_tot = np.empty(1) # [ps^-1] total scattering rate array
 
-- 
2.43.0


From eafd8d637bc7ae9d21f98793a26f8f1b9ead30e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 28/47] fix: omegac_tau_func fails on the 3D surface because of
 the unused dks

---
 cuprates_transport/conductivity.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index accdb85..8c686d3 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -313,7 +313,6 @@ class Conductivity(Scattering):
             return 0
 
     def omegac_tau_func(self):
-        dks = self.bandObject.dks / Angstrom # in m^-1
         kf = self.bandObject.kf
         vf = self.bandObject.vf # in m / s
         kf_perp = sqrt(kf[0, :]**2 + kf[1, :]**2) / Angstrom  # kf perp to B in m
-- 
2.43.0


From cc37e744de844caae1510e80eeb5d31c0f975c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:39 +0000
Subject: [PATCH 29/47] fix: figScatteringPhi fails when the z velocity does
 not depend on kx and ky

---
 cuprates_transport/conductivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 8c686d3..43860df 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -470,7 +470,7 @@ class Conductivity(Scattering):
             # one want to scale to units of kx and ky
             kx = (contour[:, 0] / (mesh_xy - 1) -0.5) * 2*pi / bObj.a
             ky = (contour[:, 1] / (mesh_xy - 1) -0.5) * 2*pi / bObj.b
-            vx, vy, vz = bObj.velocity_func(kx, ky, kz)
+            vx, vy, vz = bObj.velocity_func(kx, ky, kz * np.ones_like(kx))
 
             gamma_kz = 1 / self.tau_tot_func(kx, ky, kz, vx, vy, vz)
 
-- 
2.43.0


From 0b9f5ea9609a8c5080dab23a02d606a3477689b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:42 +0000
Subject: [PATCH 30/47] fix: figures coloured all but the last piece of the
 Fermi surface off the colour bar's scale

---
 cuprates_transport/conductivity.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 43860df..3acd17a 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -429,7 +429,8 @@ class Conductivity(Scattering):
             gamma_min = min(gamma_min_list)
         if gamma_max == None:
             gamma_max = max(gamma_max_list)
-        line.set_clim(gamma_min, gamma_max)
+        for piece in axes.collections: # one scale for all the pieces of the Fermi surface
+            piece.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes)
         cbar.minorticks_on()
         cbar.ax.set_ylabel(r'$\Gamma_{\rm tot}$ ( THz )', rotation=270, labelpad=40)
@@ -687,7 +688,8 @@ class Conductivity(Scattering):
             line = axes_srate.add_collection(lc)
         gamma_max = max(gamma_max_list)
         gamma_min = min(gamma_min_list)
-        line.set_clim(gamma_min, gamma_max)
+        for piece in axes_srate.collections: # one scale for all the pieces of the Fermi surface
+            piece.set_clim(gamma_min, gamma_max)
         cbar = fig.colorbar(line, ax=axes_srate)
         cbar.minorticks_on()
         cbar.ax.tick_params(labelsize=10)
-- 
2.43.0


From 00d045e5922faf94fae69257a3e5a38704ba9007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:45 +0000
Subject: [PATCH 31/47] fix: figMultipleFS2D drew contours at other kz than it
 labels when k_max is not 2 pi

---
 cuprates_transport/bandstructure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 977cb3d..ac991d1 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -577,8 +577,8 @@ class BandStructure:
         fig.text(0.88, 0.68, (np.round(doping_per_kz[2], 3)), color="#f3d36b", fontsize=18)  # p_z
         fig.text(0.76, 0.54, r"$p_{\rm tot}$ = " + str(np.round(p_tot, 3)), fontsize = 18)
         axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 0), 0, colors = '#ff0000', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, pi/self.c), 0, colors = '#ee9c54', linewidths = 3)
-        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, 2*pi/self.c), 0, colors = '#f3d36b', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/2/self.c), 0, colors = '#ee9c54', linewidths = 3)
+        axes.contour(kxx*self.a, kyy*self.b, self.energy_func(kxx, kyy, self.k_max[2]/self.c), 0, colors = '#f3d36b', linewidths = 3)
         axes.set_xlim(-self.k_max[0], self.k_max[0])
         axes.set_ylim(-self.k_max[1], self.k_max[1])
         axes.tick_params(axis='x', which='major', pad=7)
-- 
2.43.0


From 452be0a0102b516ac4b7ffd6196451ec84aa9051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 32/47] fix: right-hand axis of figADMR was scaled by the first
 angle, not the normalization angle

---
 cuprates_transport/admr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/admr.py b/cuprates_transport/admr.py
index 84086b3..76fd833 100644
--- a/cuprates_transport/admr.py
+++ b/cuprates_transport/admr.py
@@ -241,7 +241,8 @@ class ADMR:
         axes.set_xlabel(r"$\theta$ ( $^{\circ}$ )", labelpad = 8)
         axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( " + str(self.Btheta_norm) + " )", labelpad = 8)
         ymin, ymax = axes.axis()[2:]
-        axes2.set_ylim(ymin * self.rhozz_array[0, 0] * 1e5, ymax * self.rhozz_array[0, 0] * 1e5)
+        rhozz_norm = np.interp(self.Btheta_norm, self.Btheta_array, self.rhozz_array[0, :])
+        axes2.set_ylim(ymin * rhozz_norm * 1e5, ymax * rhozz_norm * 1e5)
         axes2.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 40, rotation = 270)
 
         axes.legend(loc = 0, fontsize = 14, frameon = False, numpoints = 1, markerscale = 1, handletextpad = 0.5)
-- 
2.43.0


From 9c349df6d3f5e3f72afae427ee64e35601ff9373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 33/47] fix: fig_compare of the multi-T parallel fit drew Ohm m
 under an mOhm cm axis

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 21b6449..6e22f4b 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -259,8 +259,8 @@ class Fitness:
                 data = self.rzz_data_dict[T]
                 sim = self.rzz_sim_dict[T]
             else:
-                data = self.rhozz_data_dict[T]
-                sim = self.rhozz_sim_dict[T]
+                data = self.rhozz_data_dict[T] * 1e5
+                sim = self.rhozz_sim_dict[T] * 1e5
                 axes.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 8)
             ## Plotting
             for i, phi in enumerate(self.phis_dict[T]):
-- 
2.43.0


From 85f23110593ab01e2cd04c555cc558839186a444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 34/47] fix: fig_compare failed on more than six azimuths

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 4 ++--
 cuprates_transport/fitting_admr_parallel_oneT.py   | 8 ++++----
 cuprates_transport/fitting_admr_series_multi_T.py  | 8 ++++----
 cuprates_transport/fitting_admr_series_oneT.py     | 8 ++++----
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 6e22f4b..be751ca 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -265,9 +265,9 @@ class Fitness:
             ## Plotting
             for i, phi in enumerate(self.phis_dict[T]):
                 line = axes.plot(self.thetas_dict[T], data[i,:], label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
                 line = axes.plot(self.thetas_dict[T], sim[i,:])
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
             ## Labels
             axes.set_xlim(np.min(self.thetas_dict[T]), np.max(self.thetas_dict[T]))
             axes.tick_params(axis='x', which='major', pad=7)
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 8f4d2e4..d27eb50 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -276,20 +276,20 @@ class FittingADMRParallel:
             axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_data_dict[phi], self.rzz_data_dict[phi], label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_array, self.admrObject.rzz_array[i,:])
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
         else:
             axes.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 8)
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_data_dict[phi], self.rhozz_data_dict[phi] * 1e5, label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_array, self.admrObject.rhozz_array[i,:] * 1e5)
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
 
         ######################################################
         plt.legend(loc = 0, fontsize = 14, frameon = False, numpoints=1, markerscale = 1, handletextpad=0.5)
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 99686a8..068fc80 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -353,20 +353,20 @@ class FittingADMR:
                 axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
                 for i, phi in enumerate(self.Bphi_dict[T]):
                     line = axes.plot(self.Btheta_data_dict[T, phi], self.rzz_data_dict[T, phi], label = r"$\phi$ = " + str(phi))
-                    plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                    plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
                 for i, phi in enumerate(self.Bphi_dict[T]):
                     line = axes.plot(self.Btheta_dict[T], self.admrObject_dict[T].rzz_array[i,:])
-                    plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                    plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
             else:
                 axes.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 8)
                 for i, phi in enumerate(self.Bphi_dict[T]):
                     line = axes.plot(self.Btheta_data_dict[T, phi], self.rhozz_data_dict[T, phi] * 1e5, label = r"$\phi$ = " + str(phi))
-                    plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                    plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
                 for i, phi in enumerate(self.Bphi_dict[T]):
                     line = axes.plot(self.Btheta_dict[T], self.admrObject_dict[T].rhozz_array[i,:] * 1e5)
-                    plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                    plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
 
             ######################################################
             plt.legend(loc = 0, fontsize = 14, frameon = False, numpoints=1, markerscale = 1, handletextpad=0.5)
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index 570ab14..b00cb03 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -313,20 +313,20 @@ class FittingADMR:
             axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_data_dict[phi], self.rzz_data_dict[phi], label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_array, self.admrObject.rzz_array[i,:])
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
         else:
             axes.set_ylabel(r"$\rho_{\rm zz}$ ( m$\Omega$ cm )", labelpad = 8)
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_data_dict[phi], self.rhozz_data_dict[phi] * 1e5, label = r"$\phi$ = " + str(phi))
-                plt.setp(line, ls ="-", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 7, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="-", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 7, mec = colors[i % len(colors)], mew= 0)
 
             for i, phi in enumerate(self.Bphi_array):
                 line = axes.plot(self.Btheta_array, self.admrObject.rhozz_array[i,:] * 1e5)
-                plt.setp(line, ls ="--", c = colors[i], lw = 2, marker = "", mfc = colors[i], ms = 5, mec = colors[i], mew= 0)
+                plt.setp(line, ls ="--", c = colors[i % len(colors)], lw = 2, marker = "", mfc = colors[i % len(colors)], ms = 5, mec = colors[i % len(colors)], mew= 0)
 
         ######################################################
         plt.legend(loc = 0, fontsize = 14, frameon = False, numpoints=1, markerscale = 1, handletextpad=0.5)
-- 
2.43.0


From 058044b01917877e82ab79263543f6b8e5a98a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 35/47] fix: local variables of a scattering model were taken
 for its arguments

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 7155abd..47b28e0 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -249,7 +249,7 @@ class Scattering:
         # Execute each method in scattering_params
         for model in self.scattering_models:
             func = getattr(self, model)
-            func_args = func.__code__.co_varnames
+            func_args = func.__code__.co_varnames[:func.__code__.co_argcount]
             if "epsilon" in func_args:
                 self.gamma_tot += func(epsilon)
             elif "vx" in func_args:
-- 
2.43.0


From d1db939260f7fb2abf8933a0b2e114dfbd6b98b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 36/47] fix: band parameters named like Sympy objects (E, I, S,
 beta...) were not taken as parameters

---
 cuprates_transport/bandstructure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index ac991d1..73f217b 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -68,7 +68,8 @@ class BandStructure:
 
         # Create the dispersion and velocity functions
         self.band_model = band_model
-        self.energy_sym = sp.sympify(band_model)
+        # every variable is a plain symbol, also if its name means something to Sympy (E, I, S, beta...)
+        self.energy_sym = sp.sympify(band_model, locals={var.name: sp.Symbol(var.name) for var in self.var_sym})
         self.energy_velocity_definition()
 
         # Discretization
-- 
2.43.0


From ce998cfa5e2a2533451c030bd7cd7c2a8ba3b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 37/47] fix: the orbit solver gave up silently when orbits turn
 many times between two time samples

---
 cuprates_transport/conductivity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 3acd17a..2f5515c 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -212,6 +212,7 @@ class Conductivity(Scattering):
             kf0 = self.bandObject.kf.flatten()
             # Sovle differential equation
             self.kft = odeint(self.movement_equation, kf0, self.time_array,
+                              mxstep = 100000, # an orbit can turn many times between two samples
                               rtol = self.rtol, atol = self.atol).transpose()
             # Reshape arrays
             self.kft.shape = (3, len_kf, len_t)
-- 
2.43.0


From 966256dda2836fa900074652d5d3b674bbfc4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 38/47] fix: the total scattering rate at integer wave vectors
 could not be computed

---
 cuprates_transport/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/scattering.py b/cuprates_transport/scattering.py
index 47b28e0..f458672 100644
--- a/cuprates_transport/scattering.py
+++ b/cuprates_transport/scattering.py
@@ -245,7 +245,7 @@ class Scattering:
     def tau_tot_func(self, kx, ky, kz, vx, vy, vz, epsilon = 0):
         """Computes the total lifetime based on the input model
         for the scattering rate"""
-        self.gamma_tot = np.zeros_like(kx)
+        self.gamma_tot = np.zeros_like(kx, dtype=float)
         # Execute each method in scattering_params
         for model in self.scattering_models:
             func = getattr(self, model)
-- 
2.43.0


From 2a2427573e5ec9bf546ed997dc818b4432b1a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 39/47] fix: two workers could report the same member number

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index d27eb50..e5b9cea 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -183,7 +183,7 @@ class FittingADMRParallel:
         if verbose:
             with globals()['shared_num_member'].get_lock():
                 globals()['shared_num_member'].value += 1
-            num_member = globals()['shared_num_member'].value
+                num_member = globals()['shared_num_member'].value
             num_gen = np.floor(num_member / (self.popsize*len(self.bounds))) + 1
 
             print('Gen ' + str(int(num_gen)) + ' ---- ' +
-- 
2.43.0


From c1fa47128e5d36169e7573943517175e82c19f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 40/47] fix: the last member of a generation was reported as of
 the next

---
 cuprates_transport/fitting_admr_parallel_oneT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index e5b9cea..3bbf13b 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -184,7 +184,7 @@ class FittingADMRParallel:
             with globals()['shared_num_member'].get_lock():
                 globals()['shared_num_member'].value += 1
                 num_member = globals()['shared_num_member'].value
-            num_gen = np.floor(num_member / (self.popsize*len(self.bounds))) + 1
+            num_gen = np.floor((num_member - 1) / (self.popsize*len(self.bounds))) + 1
 
             print('Gen ' + str(int(num_gen)) + ' ---- ' +
             'Member ' + str(num_member) + ' ---- ' +
-- 
2.43.0


From 96cc6cc2f981138cc332567234357dff48bcdca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 41/47] fix: a new best candidate sharing a coordinate with the
 one before was not reported

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 cuprates_transport/fitting_admr_parallel_oneT.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index be751ca..370537a 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -352,7 +352,7 @@ def fit_admr_parallel(params_dict, bounds_dict, data_dict,
         globals()['iteration'] += 1
         text = "gen %d | %.1f s | convergence: %.3f" % (globals()['iteration'], (time() - globals()['time_iter']), convergence) + "/1 |"
         globals()['time_iter'] = time()
-        if (xk != globals()['best_x']).all():
+        if np.any(xk != globals()['best_x']):
             globals()['best_x'] = xk
             # obj_val = fit_object.compute_diff2(xk, verbose=False)
             # text += "\tNew best:" + str([round(x, 10) for x in xk]) + "\tchi^2: %.3e" % obj_val
diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 3bbf13b..1c04293 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -377,7 +377,7 @@ def fit_admr_parallel(init_member, bounds_dict, data_dict,
             globals()['iteration'] += 1
             text = "Iteration: %d\titer time: %.3f\tconvergence: %.3e" % (globals()['iteration'], (time.time() - globals()['time_iter']), convergence)
             globals()['time_iter'] = time.time()
-            if (xk != globals()['best_x']).all():
+            if np.any(xk != globals()['best_x']):
                 globals()['best_x'] = xk
                 # obj_val = fit_object.compute_diff2(xk, verbose=False)
                 sys.stdout.flush()
-- 
2.43.0


From 9f5b70527d2e3f9df01072da9c6ba8db764d46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:25 +0000
Subject: [PATCH 42/47] fix: after a refused discretization the band still
 showed the surface of another level

---
 cuprates_transport/bandstructure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 73f217b..4b6c958 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -273,7 +273,11 @@ class BandStructure:
                                      args=(p_target,), xtol=ptol)
 
     def discretize_fermi_surface(self, epsilon=0):
-        # Discard what only describes the previously discretized surface
+        # Discard the previously discretized surface (there may be none at this energy)
+        self.kf  = None
+        self.vf  = None
+        self.dkf = None
+        self.dos_k = None
         self.mass = None
         self.dks  = None
         self.dkz  = None
-- 
2.43.0


From bcda15b7defc9a60884a54255a94059ba228e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:31 +0000
Subject: [PATCH 43/47] fix: a refused thermal run left the band at one of its
 levels

---
 cuprates_transport/conductivity.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 2f5515c..5d9df86 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -161,7 +161,11 @@ class Conductivity(Scattering):
             self.vft_epsilon        = {}
             self.t_o_tau_epsilon    = {}
             for epsilon in self.epsilon_array:
-                self.bandObject.runBandStructure(epsilon = epsilon, printDoping=False)
+                try:
+                    self.bandObject.runBandStructure(epsilon = epsilon, printDoping=False)
+                except (ValueError, RuntimeError): # no Fermi surface at this level
+                    self.bandObject.runBandStructure(epsilon = 0, printDoping=False)
+                    raise
                 self.solve_movement()
                 self.t_o_tau_func(epsilon)
                 self.dos_k_epsilon[epsilon]      = self.bandObject.dos_k
-- 
2.43.0


From b57ac667643892c19b2017a8243eea0b2ccb5cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:31 +0000
Subject: [PATCH 44/47] fix: the table of figParameters showed scattering
 parameters as first given, not those in force

---
 cuprates_transport/conductivity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cuprates_transport/conductivity.py b/cuprates_transport/conductivity.py
index 5d9df86..d4dcbab 100644
--- a/cuprates_transport/conductivity.py
+++ b/cuprates_transport/conductivity.py
@@ -606,8 +606,8 @@ class Conductivity(Scattering):
         for label, value in self.bandObject._band_params.items():
             labels_dict[label] = value
         labels_dict["# of BZ"] = self.bandObject.number_of_bz
-        for param, value in self._scattering_params.items():
-            labels_dict[param] = value
+        for param in self._scattering_params:
+            labels_dict[param] = getattr(self, param) # the value in force
 
         ## Subfigure that serves the table of parameters
         fig, axes = plt.subplots(1, 1, figsize=(10.5, 5.8))
-- 
2.43.0


From 77496628a36f97acc6628862833d775be64fe8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 45/47] fix: fits normalized the data at theta = 0 but the
 simulation at Btheta_norm

---
 cuprates_transport/fitting_admr_parallel_oneT.py  | 1 +
 cuprates_transport/fitting_admr_series_multi_T.py | 1 +
 cuprates_transport/fitting_admr_series_oneT.py    | 1 +
 3 files changed, 3 insertions(+)

diff --git a/cuprates_transport/fitting_admr_parallel_oneT.py b/cuprates_transport/fitting_admr_parallel_oneT.py
index 1c04293..24e17a1 100644
--- a/cuprates_transport/fitting_admr_parallel_oneT.py
+++ b/cuprates_transport/fitting_admr_parallel_oneT.py
@@ -90,6 +90,7 @@ class FittingADMRParallel:
         self.admrObject = ADMR([self.condObject], **self.member, show_progress=False)
         self.admrObject.Btheta_array = self.Btheta_array
         self.admrObject.Bphi_array = self.Bphi_array
+        self.admrObject.Btheta_norm = 0 # as the data
 
 
     def load_Bphi_data(self):
diff --git a/cuprates_transport/fitting_admr_series_multi_T.py b/cuprates_transport/fitting_admr_series_multi_T.py
index 068fc80..b08f758 100644
--- a/cuprates_transport/fitting_admr_series_multi_T.py
+++ b/cuprates_transport/fitting_admr_series_multi_T.py
@@ -101,6 +101,7 @@ class FittingADMR:
             self.admrObject_dict[T] = ADMR([self.condObject_dict[T]], **self.member_dict[T])
             self.admrObject_dict[T].Btheta_array = self.Btheta_dict[T]
             self.admrObject_dict[T].Bphi_array   = self.Bphi_dict[T]
+            self.admrObject_dict[T].Btheta_norm  = 0 # as the data
 
 
     def load_Bphi_data(self):
diff --git a/cuprates_transport/fitting_admr_series_oneT.py b/cuprates_transport/fitting_admr_series_oneT.py
index b00cb03..0afe9ed 100644
--- a/cuprates_transport/fitting_admr_series_oneT.py
+++ b/cuprates_transport/fitting_admr_series_oneT.py
@@ -81,6 +81,7 @@ class FittingADMR:
         self.admrObject = ADMR([self.condObject], **self.member)
         self.admrObject.Btheta_array = self.Btheta_array
         self.admrObject.Bphi_array = self.Bphi_array
+        self.admrObject.Btheta_norm = 0 # as the data
 
 
     def load_Bphi_data(self):
-- 
2.43.0


From 69956d7ee9007426ccfea2e272de20dcf9cf27c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 46/47] fix: fig_compare of the multi-T parallel fit labelled
 any normalization angle as 0

---
 cuprates_transport/fitting_admr_parallel_multiT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/fitting_admr_parallel_multiT.py b/cuprates_transport/fitting_admr_parallel_multiT.py
index 370537a..b57cc2e 100644
--- a/cuprates_transport/fitting_admr_parallel_multiT.py
+++ b/cuprates_transport/fitting_admr_parallel_multiT.py
@@ -255,7 +255,7 @@ class Fitness:
             colors = ['#000000', '#3B528B', '#FF0000', '#C7E500', '#ff0080', '#dfdf00']
             ## Select if normalized or not
             if self.normalized_data==True:
-                axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( 0 )", labelpad = 8)
+                axes.set_ylabel(r"$\rho_{\rm zz}$ / $\rho_{\rm zz}$ ( " + str(self.angles_obj_dict[T].Btheta_norm) + " )", labelpad = 8)
                 data = self.rzz_data_dict[T]
                 sim = self.rzz_sim_dict[T]
             else:
-- 
2.43.0


From dc5bde203b069b27447dcec7c6ff2cd4eb926d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 47/47] fix: the kz axis of figDiscretizeFS3D was labelled ky

---
 cuprates_transport/bandstructure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cuprates_transport/bandstructure.py b/cuprates_transport/bandstructure.py
index 4b6c958..45f83d4 100644
--- a/cuprates_transport/bandstructure.py
+++ b/cuprates_transport/bandstructure.py
@@ -546,7 +546,7 @@ class BandStructure:
         axes.set_yticks([-self.k_max[1], 0., self.k_max[1]])
         axes.set_yticklabels([r"-" + f"{a_y:g}" + r"$\pi$", "0", f"{a_y:g}" + r"$\pi$"])
         a_z = np.round(self.k_max[2] / pi, 1)
-        axes.set_zlabel(r"$k_{\rm y}$", labelpad = 12)
+        axes.set_zlabel(r"$k_{\rm z}$", labelpad = 12)
         axes.set_zticks([-self.k_max[2], 0., self.k_max[2]])
         axes.set_zticklabels([r"-" + f"{a_z:g}" + r"$\pi$", "0", f"{a_z:g}" + r"$\pi$"])
         plt.show()
-- 
2.43.0

