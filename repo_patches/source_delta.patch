From 887de71fd50dae659dd2ca88df3d78a7242913e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 01/35] fix: use the given exit-azimuth in the bistatic
 interaction-term

The interaction-coefficients always added pi to the exit azimuth (the monostatic
relation), so bistatic results did not match the requested exit direction.
---
 src/rt1_model/_calc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a2cc6c9..b7dc22a 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -349,7 +349,7 @@ class RT1(object):
             p_0 = sp.Symbol("phi_0")
 
         theta_0 = sp.Symbol("theta_0")
-        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0]
+        self._geom_ang_symbs = [theta_0, theta_0, p_0, p_0 + sp.pi]
 
     def set_bistatic(self, t_0=None, t_ex=None, p_0=None, p_ex=None):
         """
@@ -949,7 +949,7 @@ class RT1(object):
         angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(
-            theta_s, angs[1], phi_s, angs[3] + sp.pi
+            theta_s, angs[1], phi_s, angs[3]
         ).doit()
         volexp = self.V.legendre_expansion(
             sp.pi - angs[0], theta_s, angs[2], phi_s
-- 
2.43.0


From 7ae5e38505a7f2ae0eeafda50fa86bccf18c4d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 02/35] fix: exchange directions correctly if bistatic angles
 are fixed

The second part of the interaction-term requires fn-coefficients for exchanged
incidence- and exit-directions. Exchanging the arguments has no effect on angles whose
values are already inserted in the coefficients, so results depended on which angles
were fixed.
---
 src/rt1_model/_calc.py | 61 ++++++++++++++++++++++++++++++------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index b7dc22a..be199f5 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -338,6 +338,7 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fnevals_ex_ = None
 
         if p_0 is not None:
             assert isinstance(
@@ -372,6 +373,7 @@ class RT1(object):
         self._fixed_angles.clear()
         self._fn_ = None
         self._fnevals_ = None
+        self._fnevals_ex_ = None
 
         angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
@@ -855,13 +857,7 @@ class RT1(object):
 
             tic = timeit.default_timer()
 
-            # define new lambda-functions for each fn-coefficient
-            variables = sp.var(
-                ("theta_0", "phi_0", "theta_ex", "phi_ex")
-                + tuple(map(str, self.param_dict.keys()))
-            )
-
-            self._fnevals_ = _lambdify(variables, self._fn)
+            self._fnevals_ = self._lambdify_coefficients(self._fn)
             return self._fnevals_
 
             toc = timeit.default_timer()
@@ -872,6 +868,30 @@ class RT1(object):
         else:
             return None
 
+    @property
+    def _fnevals_ex(self):
+        # functions to evaluate the fn-coefficients for exchanged incidence- and exit
+        # directions. (Only required if the values of fixed angles are inserted in
+        # the fn-coefficients, since otherwise exchanging the arguments is sufficient.)
+        fnevals = getattr(self, "_fnevals_ex_", None)
+        if fnevals is not None:
+            return fnevals
+
+        t_0, t_ex, p_0, p_ex = self._geom_ang_symbs
+        fn = self._extract_coefficients(
+            self._calc_interaction_expansion([t_ex, t_0, p_ex, p_0])
+        )
+        self._fnevals_ex_ = self._lambdify_coefficients(fn)
+        return self._fnevals_ex_
+
+    def _lambdify_coefficients(self, fn):
+        # define new lambda-functions for each fn-coefficient
+        variables = sp.var(
+            ("theta_0", "phi_0", "theta_ex", "phi_ex")
+            + tuple(map(str, self.param_dict.keys()))
+        )
+        return _lambdify(variables, fn)
+
     def _extract_coefficients(self, expr):
         """
         Extract Fn coefficients from given forumula.
@@ -916,7 +936,7 @@ class RT1(object):
 
         return fn
 
-    def _calc_interaction_expansion(self):
+    def _calc_interaction_expansion(self, angs=None):
         """
         Evaluate the polar-integral from the definition of the fn-coefficients.
 
@@ -933,6 +953,12 @@ class RT1(object):
             4. Expand again to ensure that a fully expanded expression
                is returned (to be used as input in _extract_coefficients() )
 
+        Parameters
+        ----------
+        angs : list, optional
+            The angles [t_0, t_ex, p_0, p_ex] to use.
+            If None, the angles of the selected geometry are used.
+
         Returns
         -------
         res : sympy expression
@@ -946,7 +972,8 @@ class RT1(object):
         theta_s = sp.Symbol("theta_s")
         phi_s = sp.Symbol("phi_s")
 
-        angs = self._geom_ang_symbs
+        if angs is None:
+            angs = self._geom_ang_symbs
 
         brdfexp = self.SRF.legendre_expansion(
             theta_s, angs[1], phi_s, angs[3]
@@ -1126,15 +1153,15 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = np.broadcast_arrays(
-            self.t_ex,
-            self.p_ex,
-            self.t_0,
-            self.p_0,
-            *self.param_dict.values(),
-        )
+        if self._monostatic or not self._fixed_angles:
+            angs, fnevals = (self.t_ex, self.p_ex, self.t_0, self.p_0), self._fnevals
+        else:
+            # fixed angles cannot be exchanged via the function arguments
+            angs, fnevals = (self.t_0, self.p_0, self.t_ex, self.p_ex), self._fnevals_ex
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
+        args = np.broadcast_arrays(*angs, *self.param_dict.values())
+
+        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fnevals(*args)))
 
         multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
         S = np.sum(fn * multip, axis=0)
-- 
2.43.0


From cfe783ee535a3b976ced5c6a5f238ab61fffe6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 03/35] fix: exit-angle dependency of the volume derivative
 with respect to tau

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index be199f5..bbf3724 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1183,7 +1183,7 @@ class RT1(object):
             * self.omega
             * (self._mu_0 / (self._mu_0 + self._mu_ex))
             * (
-                (1.0 / self._mu_0 + 1.0 / self._mu_ex ** (-1))
+                (1.0 / self._mu_0 + 1.0 / self._mu_ex)
                 * np.exp(-self.tau / self._mu_0 - self.tau / self._mu_ex)
             )
             * self.V.calc(self.t_0, self.t_ex, self.p_0, self.p_ex, self.param_dict)
-- 
2.43.0


From d0406eb4f00a77297170dc8fba7d99c098f1b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:40 +0000
Subject: [PATCH 04/35] fix: normalize the sigma0 jacobian by the incident
 intensity

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index bbf3724..80d9c5c 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1567,7 +1567,7 @@ class RT1(object):
         """
 
         if self.sig0 is True and self.dB is False:
-            norm = 4.0 * np.pi * self._mu_0
+            norm = 4.0 * np.pi * self._mu_0 / self.I0
         elif self.dB is True:
             norm = 10.0 / (np.log(10.0) * (self._surface() + self._volume()))
         else:
-- 
2.43.0


From cca133f1300210dd2b418fb3dced42e335362c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 05/35] fix: evaluate the full chain-rule for jacobian
 parameters used in multiple places

---
 src/rt1_model/_calc.py | 84 +++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 37 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 80d9c5c..0a9c6a5 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1372,6 +1372,15 @@ class RT1(object):
 
         return _lambdify(args, diff)
 
+    def _eval_dparam_ddummy(self, param, key):
+        # numerical value of the inner derivative (dparam / dkey)
+        if getattr(self, f"_{param}") == str(key):
+            return 1.0
+
+        return self._dparam_ddummy_lambda(param, key)(
+            self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
+        )
+
     def _d_volume_ddummy(self, key):
         """
         Volume contribution derivative with respect to a given parameter (incl. bsf).
@@ -1386,26 +1395,8 @@ class RT1(object):
             Numerical value of dIvol/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("tau"):
-            inner = self._dparam_ddummy_lambda("tau", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dtau() * inner
-        elif str(key) in self._get_param_symbs("omega"):
-            inner = self._dparam_ddummy_lambda("omega", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_domega() * inner
-
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dvolume_dbsf() * inner
-        else:
+        # direct dependency of the scattering distribution
+        if str(key) in map(str, self.V.phase_function.free_symbols):
             dIvol = (
                 self.I0
                 * self.omega
@@ -1416,7 +1407,17 @@ class RT1(object):
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
             )
-            return (1.0 - self.bsf) * dIvol
+            ret = (1.0 - self.bsf) * dIvol
+        else:
+            ret = np.zeros(1)
+
+        # use chain rule for all parameters that depend on the key
+        for param in ("tau", "omega", "NormBRDF", "bsf"):
+            if str(key) in self._get_param_symbs(param):
+                inner = self._eval_dparam_ddummy(param, key)
+                ret = ret + getattr(self, f"_dvolume_d{param}")() * inner
+
+        return ret
 
     @lru_cache()
     def _d_volume_dummy_lambda(self, key):
@@ -1463,20 +1464,8 @@ class RT1(object):
             Numerical value of dIsurf/dkey for the given set of parameters
 
         """
-        inner = None
-        # Check symbols used to specify parameters.
-        # If yes, use chain rule to evaluate derivatives
-        if str(key) in self._get_param_symbs("NormBRDF"):
-            inner = self._dparam_ddummy_lambda("NormBRDF", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dNormBRDF() * inner
-        elif str(key) in self._get_param_symbs("bsf"):
-            inner = self._dparam_ddummy_lambda("bsf", key)(
-                self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
-            )
-            return self._dsurface_dbsf() * inner
-        else:
+        # direct dependency of the scattering distribution
+        if str(key) in map(str, self.SRF.phase_function.free_symbols):
             dI_bs = (
                 self.I0
                 * self._mu_0
@@ -1487,7 +1476,17 @@ class RT1(object):
 
             dI_s = (np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex))) * dI_bs
 
-            return self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+            ret = self.NormBRDF * ((1.0 - self.bsf) * dI_s + self.bsf * dI_bs)
+        else:
+            ret = np.zeros(1)
+
+        # use chain rule for all parameters that depend on the key
+        for param in ("tau", "omega", "NormBRDF", "bsf"):
+            if str(key) in self._get_param_symbs(param):
+                inner = self._eval_dparam_ddummy(param, key)
+                ret = ret + getattr(self, f"_dsurface_d{param}")() * inner
+
+        return ret
 
     @lru_cache()
     def _d_surface_dummy_lambda(self, key):
@@ -1574,8 +1573,19 @@ class RT1(object):
             norm = 1.0
 
         jac = []
+        # symbols that are used in any of the definitions
+        symbs = {
+            *self._all_param_symbs,
+            *map(str, self.V.phase_function.free_symbols),
+            *map(str, self.SRF.phase_function.free_symbols),
+        }
+
         for key in param_list:
-            if key == "omega":
+            if key in self.param_dict and key in symbs:
+                jac += [
+                    (self._d_surface_ddummy(key) + self._d_volume_ddummy(key)) * norm
+                ]
+            elif key == "omega":
                 jac += [(self._dsurface_domega() + self._dvolume_domega()) * norm]
             elif key == "tau":
                 jac += [(self._dsurface_dtau() + self._dvolume_dtau()) * norm]
-- 
2.43.0


From a22e517addfd49163d6f1135bef6d71f856dee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 06/35] fix: one row per measurement in the sparse jacobian for
 any parameter shape

---
 src/rt1_model/_calc.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 0a9c6a5..06dfa48 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1611,8 +1611,18 @@ class RT1(object):
             # column represents the derivatives with respect to the optimized parameter)
             jac_columns = []
 
+            # make sure each derivative has one value for each measurement
+            shape = np.shape(self._surface() + self._volume())
+
             for key, j in zip(param_list, jac):
-                if np.size(self.param_dict[key]) == 1:
+                j = np.broadcast_to(j, shape)
+
+                if key in self.param_dict:
+                    value = self.param_dict[key]
+                else:
+                    value = getattr(self, key)
+
+                if np.size(value) == 1:
                     # Static parameters are affected by all measurements, so the
                     # corresponding row of the scipy-jacobian is given by the ravelled
                     # rt1-jacobian values.
-- 
2.43.0


From db42477be46de96e121e633075a295aa80f2fef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 07/35] fix: do not inject parameter symbols into the module
 namespace

---
 src/rt1_model/_calc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 06dfa48..fc86bf2 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -886,7 +886,7 @@ class RT1(object):
 
     def _lambdify_coefficients(self, fn):
         # define new lambda-functions for each fn-coefficient
-        variables = sp.var(
+        variables = sp.symbols(
             ("theta_0", "phi_0", "theta_ex", "phi_ex")
             + tuple(map(str, self.param_dict.keys()))
         )
-- 
2.43.0


From a2ca2daf5ed2be9905cea957ae39bec8b0b7cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 08/35] fix: compiled functions no longer depend on previously
 set parameter names and order

---
 src/rt1_model/_calc.py | 57 ++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index fc86bf2..f0a46e4 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -886,11 +886,18 @@ class RT1(object):
 
     def _lambdify_coefficients(self, fn):
         # define new lambda-functions for each fn-coefficient
-        variables = sp.symbols(
-            ("theta_0", "phi_0", "theta_ex", "phi_ex")
-            + tuple(map(str, self.param_dict.keys()))
-        )
-        return _lambdify(variables, fn)
+        # (only use symbols that are required to evaluate the coefficients to remain
+        # independent of the names and the order of the currently set parameters)
+        angs = ["theta_0", "phi_0", "theta_ex", "phi_ex"]
+        symbs = {str(s) for f in fn for s in getattr(f, "free_symbols", [])}
+        names = [*angs, *sorted(symbs.difference(angs))]
+
+        func = _lambdify([sp.Symbol(name) for name in names], list(fn))
+
+        def fnevals(**kwargs):
+            return func(*(kwargs[name] for name in names))
+
+        return fnevals
 
     def _extract_coefficients(self, expr):
         """
@@ -1113,6 +1120,16 @@ class RT1(object):
 
         return S2 + hlp1
 
+    def _eval_fn(self, fnevals, *angs):
+        # numerical evaluation of the fn-coefficients (arguments are assigned by name
+        # since the order of the parameters in the param_dict is arbitrary)
+        names = ["theta_0", "phi_0", "theta_ex", "phi_ex", *self.param_dict]
+        args = np.broadcast_arrays(*angs, *self.param_dict.values())
+
+        return np.broadcast_arrays(
+            *(np.atleast_1d(i) for i in fnevals(**dict(zip(names, args))))
+        )
+
     def _calc_Fint_1(self):
         """
         Numerical evaluation of the F_int() function.
@@ -1126,16 +1143,10 @@ class RT1(object):
             Numerical value of F_int for the given set of parameters
 
         """
-        args = np.broadcast_arrays(
-            self.t_0,
-            self.p_0,
-            self.t_ex,
-            self.p_ex,
-            *self.param_dict.values(),
+        fn = self._eval_fn(
+            self._fnevals, self.t_0, self.p_0, self.t_ex, self.p_ex
         )
 
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in self._fnevals(*args)))
-
         multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
         S = np.sum(fn * multip, axis=0)
         return S
@@ -1159,9 +1170,7 @@ class RT1(object):
             # fixed angles cannot be exchanged via the function arguments
             angs, fnevals = (self.t_0, self.p_0, self.t_ex, self.p_ex), self._fnevals_ex
 
-        args = np.broadcast_arrays(*angs, *self.param_dict.values())
-
-        fn = np.broadcast_arrays(*(np.atleast_1d(i) for i in fnevals(*args)))
+        fn = self._eval_fn(fnevals, *angs)
 
         multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1403,7 +1412,7 @@ class RT1(object):
                 * self._mu_0
                 / (self._mu_0 + self._mu_ex)
                 * (1.0 - np.exp(-(self.tau / self._mu_0) - (self.tau / self._mu_ex)))
-                * self._d_volume_dummy_lambda(key)(
+                * self._d_volume_dummy_lambda(key, *self.param_dict)(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
             )
@@ -1420,7 +1429,7 @@ class RT1(object):
         return ret
 
     @lru_cache()
-    def _d_volume_dummy_lambda(self, key):
+    def _d_volume_dummy_lambda(self, key, *param_names):
         """
         Get a function to compute direct volume-contribution parameter derivatives.
 
@@ -1431,6 +1440,8 @@ class RT1(object):
         ----------
         key : str
             the parameter to use.
+        param_names : str
+            the names of all parameters that are passed to the returned function.
 
         Returns
         -------
@@ -1443,7 +1454,7 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
         return _lambdify(
             args,
@@ -1469,7 +1480,7 @@ class RT1(object):
             dI_bs = (
                 self.I0
                 * self._mu_0
-                * self._d_surface_dummy_lambda(key)(
+                * self._d_surface_dummy_lambda(key, *self.param_dict)(
                     self.t_0, self.t_ex, self.p_0, self.p_ex, **self.param_dict
                 )
             )
@@ -1489,7 +1500,7 @@ class RT1(object):
         return ret
 
     @lru_cache()
-    def _d_surface_dummy_lambda(self, key):
+    def _d_surface_dummy_lambda(self, key, *param_names):
         """
         Get a function to compute direct surface-contribution parameter derivatives.
 
@@ -1500,6 +1511,8 @@ class RT1(object):
         ----------
         key : str
             the parameter to use.
+        param_names : str
+            the names of all parameters that are passed to the returned function.
 
         Returns
         -------
@@ -1512,7 +1525,7 @@ class RT1(object):
         phi_0 = sp.Symbol("phi_0")
         phi_ex = sp.Symbol("phi_ex")
 
-        args = (theta_0, theta_ex, phi_0, phi_ex) + tuple(self.param_dict.keys())
+        args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
         return _lambdify(
             args,
-- 
2.43.0


From d6e13c064ac055015cb3fba482972538ac65dd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:22 +0000
Subject: [PATCH 09/35] fix: drop stale coefficients if the scattering
 functions are replaced

---
 src/rt1_model/_calc.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f0a46e4..bcb61c5 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -219,6 +219,33 @@ class RT1(object):
         """
         return self._param_dict
 
+    @property
+    def V(self):
+        """The volume-scattering phase function."""
+        return self._V
+
+    @V.setter
+    def V(self, value):
+        self._V = value
+        self._reset_coefficients()
+
+    @property
+    def SRF(self):
+        """The surface-scattering phase function (BRDF)."""
+        return self._SRF
+
+    @SRF.setter
+    def SRF(self, value):
+        self._SRF = value
+        self._reset_coefficients()
+
+    def _reset_coefficients(self):
+        # reset everything that has been derived from the scattering functions
+        self._fn_ = None
+        self._fnevals_ = None
+        self._fnevals_ex_ = None
+        self._clear_cache()
+
     @property
     def NormBRDF(self):
         """Normalization factor for the surface BRDF."""
-- 
2.43.0


From 684c8dc1654352a39da85258519f0a722f9b9023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 10/35] fix: one value per direction for scattering functions
 that do not use all angles

---
 src/rt1_model/_scatter.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_scatter.py b/src/rt1_model/_scatter.py
index 3ced2b1..d509e79 100644
--- a/src/rt1_model/_scatter.py
+++ b/src/rt1_model/_scatter.py
@@ -2,6 +2,7 @@
 
 from functools import lru_cache, wraps, partial, update_wrapper
 
+import numpy as np
 import sympy as sp
 from . import _log
 from .helpers import _lambdify, _parse_sympy_param
@@ -172,7 +173,15 @@ class _Scatter:
         """
         func = self._lambda_func(*param_dict.keys())
 
-        return func(t_0, t_ex, p_0, p_ex, **param_dict)
+        ret = func(t_0, t_ex, p_0, p_ex, **param_dict)
+
+        # make sure to return one value for each direction, even if the function does
+        # not depend on all of the angles
+        shape = np.broadcast_shapes(*map(np.shape, (t_0, t_ex, p_0, p_ex, ret)))
+        if np.shape(ret) != shape:
+            ret = np.broadcast_to(ret, shape).copy()
+
+        return ret
 
     def _register_plotfuncs(self):
         # register quick-plot functions for distribution functions
-- 
2.43.0


From e40d19c9afcc2e60c8e5a834776c95718d6fb0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 11/35] fix: correctly broadcast contributions and interaction
 coefficients of different shapes

---
 src/rt1_model/_calc.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index bcb61c5..dc66ea3 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -579,11 +579,13 @@ class RT1(object):
 
             if self.int_Q is True:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol + Iint, Isurf, Ivol, Iint)),
+                    np.stack(
+                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
+                    ),
                 )
             else:
                 ret = self._convert_sig0_db(
-                    np.stack((Isurf + Ivol, Isurf, Ivol)),
+                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
                 )
 
             return ret
@@ -1174,8 +1176,10 @@ class RT1(object):
             self._fnevals, self.t_0, self.p_0, self.t_ex, self.p_ex
         )
 
-        multip = self._mu_0_x * self._S2_mu(self._mu_0, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        # sum up the individual terms separately, since the shapes of the coefficients
+        # and the angles can have a different number of dimensions
+        S2 = self._S2_mu(self._mu_0, self.tau)
+        S = sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_0_x, S2))
         return S
 
     def _calc_Fint_2(self):
@@ -1199,8 +1203,10 @@ class RT1(object):
 
         fn = self._eval_fn(fnevals, *angs)
 
-        multip = self._mu_ex_x * self._S2_mu(self._mu_ex, self.tau)
-        S = np.sum(fn * multip, axis=0)
+        # sum up the individual terms separately, since the shapes of the coefficients
+        # and the angles can have a different number of dimensions
+        S2 = self._S2_mu(self._mu_ex, self.tau)
+        S = sum(f * mux * s2 for f, mux, s2 in zip(fn, self._mu_ex_x, S2))
         return S
 
     # %% derivatives (tau, omega, NormBRDF, bsf)
-- 
2.43.0


From 1912974c3e0f65243d66bdf882aa9ecf306def35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 12/35] fix: evaluate the limits of the interaction-term for
 tau=0, nadir and grazing angles

---
 src/rt1_model/_calc.py | 64 +++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 38 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index dc66ea3..f89155e 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -14,7 +14,7 @@ import timeit
 
 import numpy as np
 import sympy as sp
-from scipy.special import expi, expn
+from scipy.special import expi, expn, factorial
 from scipy.sparse import vstack, block_diag, csr_matrix
 
 from . import _log, get_lambda_backend
@@ -544,40 +544,11 @@ class RT1(object):
         try:
             self.update_params(**params)
 
-            if isinstance(self.tau, (int, float)):
-                Isurf = self._surface()
-                # differentiation for non-existing canopy, as otherwise NAN values
-                if self.tau > 0.0:
-                    Ivol = self._volume()
-                    if self.int_Q is True:
-                        Iint = self._interaction()
-                    else:
-                        Iint = np.array([0.0])
-                else:
-                    Ivol = np.full_like(Isurf, 0.0)
-                    Iint = np.full_like(Isurf, 0.0)
-            else:
-                Isurf = self._surface()
-                Ivol = self._volume()
-                # TODO this should be fixed more properly
-                # (i.e. for tau=0, no interaction-term should be calculated)
-                if self.int_Q is True:
-                    Iint = self._interaction()
-                    # check if there are nan-values present that result from
-                    # (self.tau = 0) and replace them with 0
-                    wherenan = np.isnan(Iint)
-                    if np.any(wherenan) and np.allclose(
-                        *np.broadcast_arrays(wherenan, self.tau == 0.0)
-                    ):
-                        _log.debug(
-                            "Warning replacing nan-values caused by tau=0 "
-                            "in the interaction-term with 0!",
-                        )
-                        Iint[np.where(wherenan)] = 0.0
-                    else:
-                        pass
+            Isurf = self._surface()
+            Ivol = self._volume()
 
             if self.int_Q is True:
+                Iint = self._interaction()
                 ret = self._convert_sig0_db(
                     np.stack(
                         np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
@@ -1129,11 +1100,28 @@ class RT1(object):
 
     def _S2_mu(self, mu, tau):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
-        hlp1 = (
-            np.exp(-tau / mu) * np.log(mu / (1.0 - mu))
-            - expi(-tau)
-            + np.exp(-tau / mu) * expi(tau / mu - tau)
-        )
+        x = tau * (1.0 - mu) / mu
+
+        with np.errstate(divide="ignore", over="ignore", invalid="ignore"):
+            log_mu = np.log(mu / (1.0 - mu))
+            hlp1 = np.exp(-tau / mu) * (log_mu + expi(x)) - expi(-tau)
+
+            # use the limit (mu -> 1) for nadir
+            hlp1 = np.where(
+                x == 0,
+                np.exp(-tau) * (np.euler_gamma + np.log(tau)) - expi(-tau),
+                hlp1,
+            )
+            # use the asymptotic series if expi(x) exceeds the floating-point range
+            hlp1 = np.where(
+                x > 500,
+                np.exp(-tau / mu) * log_mu
+                + np.exp(-tau) * sum(factorial(k) / x ** (k + 1) for k in range(9))
+                - expi(-tau),
+                hlp1,
+            )
+            # all terms cancel out if there is no canopy
+            hlp1 = np.where(tau == 0, 0.0, hlp1)
 
         # cache the results of the expn-evaluations to speed up the S2 loop
         @lru_cache()
-- 
2.43.0


From d53e0b2d2ec6871262de5de3420eed819cfd6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 13/35] fix: pickling or copying a model no longer removes its
 plot-methods

---
 src/rt1_model/_calc.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index f89155e..a1f19ed 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -127,15 +127,18 @@ class RT1(object):
     def __getstate__(self):
         # this is required since functions created by
         # symengine are currently not pickleable!
+        # (use a copy of the attributes to keep the original object unchanged)
+        state = self.__dict__.copy()
+
         _log.warning("Dropping fn-coefficients to allow pickling...")
         for delkey in ["_RT1__fn"]:
-            if delkey in self.__dict__:
+            if delkey in state:
                 _log.warning(f"Removing {delkey}")
-                del self.__dict__[delkey]
+                del state[delkey]
         for Nonekey in ["_fn_input"]:
-            if Nonekey in self.__dict__:
+            if Nonekey in state:
                 _log.warning(f"Setting {Nonekey} to None")
-                self.__dict__[Nonekey] = None
+                state[Nonekey] = None
 
         if get_lambda_backend() == "symengine":
             _log.warning(
@@ -145,9 +148,9 @@ class RT1(object):
 
         # drop plot-functions (they are not pickleable and re-attached on unpickle)
         for key in ["analyze", "analyze3d"]:
-            self.__dict__[key] = None
+            state.pop(key, None)
 
-        return self.__dict__
+        return state
 
     def _clear_cache(self, *keys):
         if keys:
-- 
2.43.0


From 9ffa4fa5fbea3be02a3a34e047d7ac7f0961b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 14/35] fix: validate geometry settings before changing the
 model

---
 src/rt1_model/_calc.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a1f19ed..7b3336d 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -362,6 +362,10 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        assert p_0 is None or isinstance(
+            p_0, (int, float, np.number)
+        ), "The p_0 angle must be a number for monostatic geometry!"
+
         self._monostatic = True
 
         self._clear_geom_cache()
@@ -371,9 +375,6 @@ class RT1(object):
         self._fnevals_ex_ = None
 
         if p_0 is not None:
-            assert isinstance(
-                p_0, (int, float, np.number)
-            ), "The p_0 angle must be a number for monostatic geometry!"
             self._p_0 = np.atleast_1d(p_0)
             self._fixed_angles.add("p_0")
         else:
@@ -396,6 +397,13 @@ class RT1(object):
             via :py:meth:`set_geometry`. The default is None.
 
         """
+        angs = [t_0, t_ex, p_0, p_ex]
+
+        for ang in angs:
+            assert ang is None or isinstance(
+                ang, (int, float, np.number)
+            ), "The fixed angle must be a number!"
+
         # handle bistatic assignments
         self._monostatic = False
 
@@ -405,7 +413,6 @@ class RT1(object):
         self._fnevals_ = None
         self._fnevals_ex_ = None
 
-        angs = [t_0, t_ex, p_0, p_ex]
         attrnames = ["t_0", "t_ex", "p_0", "p_ex"]
 
         symbs = [sp.Symbol(i) for i in ("theta_0", "theta_ex", "phi_0", "phi_ex")]
@@ -417,9 +424,6 @@ class RT1(object):
                 geom += "v"
                 geom_ang_symbs.append(symb)
             else:
-                assert isinstance(
-                    ang, (int, float, np.number)
-                ), "The fixed angle must be a number!"
                 geom += "f"
                 geom_ang_symbs.append(ang)
                 setattr(self, f"_{attr}", np.atleast_1d(ang))
@@ -428,7 +432,7 @@ class RT1(object):
         self._geom_ang_symbs = geom_ang_symbs
 
     def _sanitize_geometry_parameter(self, name, value):
-        assert name not in self._fixed_angles, "The angle {name} is fixed!"
+        assert name not in self._fixed_angles, f"The angle {name} is fixed!"
         assert value is not None, "You cannot set a geometry-angle to 'None'!"
         return np.atleast_1d(value)
 
@@ -471,10 +475,16 @@ class RT1(object):
                 "by the relations: (t_ex = t_0) and (p_ex = p_0 + pi)!"
             )
 
+        # make sure all provided angles are valid before changing any of them
+        values = {
+            key: self._sanitize_geometry_parameter(key, val)
+            for key, val in kwargs.items()
+        }
+
         self._clear_geom_cache()
 
-        for key, val in kwargs.items():
-            setattr(self, f"_{key}", self._sanitize_geometry_parameter(key, val))
+        for key, val in values.items():
+            setattr(self, f"_{key}", val)
 
     def update_params(self, **kwargs):
         """
-- 
2.43.0


From 21a9c9e066b8094a7bf181cfe059fa208a709ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 15/35] fix: use a copy of the angle-arrays provided by the
 user

---
 src/rt1_model/_calc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 7b3336d..65c55f9 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -434,7 +434,8 @@ class RT1(object):
     def _sanitize_geometry_parameter(self, name, value):
         assert name not in self._fixed_angles, f"The angle {name} is fixed!"
         assert value is not None, "You cannot set a geometry-angle to 'None'!"
-        return np.atleast_1d(value)
+        # use a copy to avoid issues if the provided array is changed later on
+        return np.array(value, ndmin=1)
 
     def set_geometry(self, **kwargs):
         """
-- 
2.43.0


From 365fac1c3b51a0b7e5449b4794461f334a9f7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 16/35] fix: support the documented log-format 'basic'

---
 src/rt1_model/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 5d648fb..13591c8 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -109,6 +109,7 @@ def _set_logfmt(fmt=None, datefmt=None):
 
 _log_format_presets = {
     "minimal": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
+    "basic": ("%(asctime)s.%(msecs)03d: %(message)s", "%H:%M:%S"),
     "timed": (
         "%(asctime)s.%(msecs)03d %(levelname)s: %(message)s",
         "%H:%M:%S",
-- 
2.43.0


From fad5fb81f41fa7bd2942655132727c953f8d348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 17/35] fix: invalid log-formats no longer change the log-level

---
 src/rt1_model/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 13591c8..f608fcd 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -169,6 +169,10 @@ def set_loglevel(level, fmt="timed"):
     if isinstance(level, str):
         level = level.upper()
 
+    if fmt is not None:
+        # make sure the format is valid before changing anything
+        _logging.Formatter(_log_format_presets.get(fmt, (fmt,))[0])
+
     _log.setLevel(level)
     _ensure_handler().setLevel(level)
 
-- 
2.43.0


From 2c4e6f396f2a8c02803e6cd0ba09adc5d64781cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 18/35] fix: use the center of the range and the provided name
 for analyzer sliders

---
 src/rt1_model/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index e24be4e..df19e5d 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -544,9 +544,9 @@ class Analyze:
     def _parse_parameters(**kwargs):
         paramdicts = dict()
         for key, val in kwargs.items():
-            p = dict(zip(["valmin", "valmax", "valinit"], val))
+            p = dict(zip(["valmin", "valmax", "valinit", "label"], val))
 
-            p.setdefault("valinit", (p["valmax"] - p["valmin"]) / 2)
+            p.setdefault("valinit", (p["valmax"] + p["valmin"]) / 2)
             p.setdefault("label", key)
 
             paramdicts[key] = p
-- 
2.43.0


From 8797ebf163cb428d906286f979969a72bf256d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:51 +0000
Subject: [PATCH 19/35] fix: support sympy-expressions and constant strings as
 parameter definition

---
 src/rt1_model/_calc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 65c55f9..a549aeb 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -760,8 +760,8 @@ class RT1(object):
     def _get_param_symbs(self, param):
         """Symbols used to define tau, omega, NormBRDF and bsf."""
         p = getattr(self, f"_{param}")
-        if isinstance(p, str):
-            expr = _parse_sympy_param(getattr(self, f"_{param}"))
+        if isinstance(p, (str, sp.Basic)):
+            expr = _parse_sympy_param(p)
 
             symbs = list(map(str, expr.free_symbols))
         else:
@@ -775,12 +775,13 @@ class RT1(object):
         if not isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
             return None
 
-        func = _lambdify(
-            self._get_param_symbs(param),
-            getattr(self, f"_{param}"),
-        )
+        symbs = self._get_param_symbs(param)
+        if len(symbs) == 0:
+            # constant expressions do not require a compiled function
+            value = float(_parse_sympy_param(getattr(self, f"_{param}")))
+            return lambda: value
 
-        return func
+        return _lambdify(symbs, getattr(self, f"_{param}"))
 
     def _eval_param(self, param):
         """
@@ -1396,7 +1397,7 @@ class RT1(object):
         # make sure to explicitly parse the equation to support parameter-names
         # such as "N", "S", or "Q"
 
-        if isinstance(getattr(self, f"_{param}"), str):
+        if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
             diff = sp.diff(
                 _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
             )
-- 
2.43.0


From ec4680ef6bddb1469e3bf2be56038ae311e11fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:41 +0000
Subject: [PATCH 20/35] fix: report the names of all missing parameters in both
 backends

---
 src/rt1_model/_calc.py    | 75 +++++++++++++++++++--------------------
 src/rt1_model/_scatter.py |  8 +++++
 2 files changed, 45 insertions(+), 38 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index a549aeb..87b410b 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -555,48 +555,42 @@ class RT1(object):
         Iint : array_like(float)
                Interaction contribution
         """
-        try:
-            self.update_params(**params)
+        self.update_params(**params)
+        self._check_missing_params()
 
-            Isurf = self._surface()
-            Ivol = self._volume()
+        Isurf = self._surface()
+        Ivol = self._volume()
 
-            if self.int_Q is True:
-                Iint = self._interaction()
-                ret = self._convert_sig0_db(
-                    np.stack(
-                        np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)
-                    ),
-                )
-            else:
-                ret = self._convert_sig0_db(
-                    np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
-                )
-
-            return ret
-
-        except TypeError as ex:
-            symbs = (
-                {
-                    *self._all_param_symbs,
-                    *map(
-                        str,
-                        [
-                            *self.V.phase_function.free_symbols,
-                            *self.SRF.phase_function.free_symbols,
-                        ],
-                    ),
-                }
-                - {"phi_0", "phi_ex", "theta_0", "theta_ex"}
-                - set(self.param_dict)
+        if self.int_Q is True:
+            Iint = self._interaction()
+            ret = self._convert_sig0_db(
+                np.stack(np.broadcast_arrays(Isurf + Ivol + Iint, Isurf, Ivol, Iint)),
+            )
+        else:
+            ret = self._convert_sig0_db(
+                np.stack(np.broadcast_arrays(Isurf + Ivol, Isurf, Ivol)),
             )
 
-            if len(symbs) > 0:
-                raise TypeError(
-                    f"Model evaluation requires parameter specification for {symbs}."
-                )
-            else:
-                raise ex
+        return ret
+
+    def _check_missing_params(
+        self, params=("tau", "omega", "NormBRDF", "bsf"), V=True, SRF=True, ignore=()
+    ):
+        # raise an error if there are missing parameter specifications for the provided
+        # model parameters and (if requested) the scattering distribution functions
+        symbs = set(chain(*map(self._get_param_symbs, params)))
+
+        if V is True:
+            symbs.update(self.V._param_names)
+        if SRF is True:
+            symbs.update(self.SRF._param_names)
+
+        symbs.difference_update(self.param_dict, ignore)
+
+        if len(symbs) > 0:
+            raise TypeError(
+                f"Model evaluation requires parameter specification for {symbs}."
+            )
 
     def surface(self, **params):
         """
@@ -618,6 +612,7 @@ class RT1(object):
 
         """
         self.update_params(**params)
+        self._check_missing_params(["tau", "NormBRDF", "bsf"], V=False)
 
         return self._convert_sig0_db(self._surface())
 
@@ -659,6 +654,7 @@ class RT1(object):
 
         """
         self.update_params(**params)
+        self._check_missing_params(["tau", "omega", "bsf"], SRF=False)
 
         return self._convert_sig0_db(self._volume())
 
@@ -698,6 +694,7 @@ class RT1(object):
 
         """
         self.update_params(**params)
+        self._check_missing_params()
 
         return self._convert_sig0_db(self._interaction())
 
@@ -1613,6 +1610,8 @@ class RT1(object):
               omega, tau and NormBRDF
 
         """
+        # (derivatives do not necessarily depend on the value of the parameter itself)
+        self._check_missing_params(ignore=param_list)
 
         if self.sig0 is True and self.dB is False:
             norm = 4.0 * np.pi * self._mu_0 / self.I0
diff --git a/src/rt1_model/_scatter.py b/src/rt1_model/_scatter.py
index d509e79..03ae57e 100644
--- a/src/rt1_model/_scatter.py
+++ b/src/rt1_model/_scatter.py
@@ -105,6 +105,14 @@ class _Scatter:
 
         return pfunc
 
+    @property
+    @lru_cache()
+    def _param_names(self):
+        # names of all parameters required to evaluate the scattering function
+        return set(map(str, self.phase_function.free_symbols)).difference(
+            ["theta_0", "theta_ex", "phi_0", "phi_ex"]
+        )
+
     def legendre_expansion(self, t_0, t_ex, p_0, p_ex):
         """
         Legendre-expansion of the scattering distribution function.
-- 
2.43.0


From 4654d7c5522cfd4fc74a2ffdba3405cb7003621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 21/35] fix: HG_nadirnorm is also defined for a vanishing
 asymmetry-parameter

---
 src/rt1_model/surface.py | 51 ++++++++++++----------------------------
 1 file changed, 15 insertions(+), 36 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 31532ae..926e1ef 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -222,27 +222,23 @@ class HG_nadirnorm(SurfaceScatter):
         self.t = _parse_sympy_param(t)
 
     @property
-    def phase_function(self):
-        """Define Phase function as sympy object."""
+    def _nadir_hemreflect(self):
+        # hemispherical reflectance at nadir-incidence of the HenyeyGreenstein function
+        # (written such that it is also defined for t=0 or a[0]=0)
+        x = 1.0 + self.t**2.0
+        y = x - 2.0 * self.a[0] * self.t
 
-        nadir_hemreflect = 4 * (
-            (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
-            / (
-                2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-            )
+        return (
+            2.0
+            * (1.0 - self.t**2.0)
+            / (sp.sqrt(y) * (x - self.a[0] * self.t + sp.sqrt(x * y)))
         )
 
-        func = (1.0 / nadir_hemreflect) * (
+    @property
+    def phase_function(self):
+        """Define Phase function as sympy object."""
+
+        func = (1.0 / self._nadir_hemreflect) * (
             (1.0 - self.t**2.0)
             / (
                 (sp.pi)
@@ -256,25 +252,8 @@ class HG_nadirnorm(SurfaceScatter):
     @property
     def legendre_coefficients(self):
         """Legendre coefficients of the BRDF."""
-        nadir_hemreflect = 4 * (
-            (1.0 - self.t**2.0)
-            * (
-                1.0
-                - self.t * (-self.t + self.a[0])
-                - sp.sqrt(
-                    (1 + self.t**2 - 2 * self.a[0] * self.t) * (1 + self.t**2)
-                )
-            )
-            / (
-                2.0
-                * self.a[0] ** 2.0
-                * self.t**2.0
-                * sp.sqrt(1.0 + self.t**2.0 - 2.0 * self.a[0] * self.t)
-            )
-        )
-
         n = sp.Symbol("n")
-        legendre_coefficients = (1.0 / nadir_hemreflect) * (
+        legendre_coefficients = (1.0 / self._nadir_hemreflect) * (
             (1.0 / (sp.pi)) * (2.0 * n + 1) * self.t**n
         )
 
-- 
2.43.0


From 2a88598bb76db36284eefab48e3a3016d37f80ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:53 +0000
Subject: [PATCH 22/35] fix: CosineLobe with power 0 is only non-zero in the
 respective half-space

---
 src/rt1_model/surface.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/rt1_model/surface.py b/src/rt1_model/surface.py
index 926e1ef..523cbe6 100644
--- a/src/rt1_model/surface.py
+++ b/src/rt1_model/surface.py
@@ -146,12 +146,9 @@ class CosineLobe(SurfaceScatter):
         return (
             1.0
             / sp.pi
-            * (
-                self.scattering_angle_symbolic
-                * (1.0 + sp.sign(self.scattering_angle_symbolic))
-                / 2.0
-            )
-            ** self.i
+            * self.scattering_angle_symbolic**self.i
+            * (1.0 + sp.sign(self.scattering_angle_symbolic))
+            / 2.0
         )
 
 
-- 
2.43.0


From f3d4ccaa78ba7c70e0d50b994f78a8a2b41004fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 23/35] fix: support constant functions and tuples in polarplot

---
 src/rt1_model/plot.py | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index df19e5d..766005d 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -86,9 +86,14 @@ def polarplot(
         plotted on top of each other.
 
     """
+    if V_SRF is None:
+        assert False, "Error: You must provide a volume- or surface object!"
+
+    functions = list(V_SRF) if isinstance(V_SRF, (tuple, list)) else [V_SRF]
+
     if aprox is True:
         try:
-            V_SRF.ncoefs
+            [i.ncoefs for i in functions]
         except Exception:
             _log.warning(
                 "To print scatter function approximations, ncoefs must be provided!"
@@ -102,9 +107,6 @@ def polarplot(
         "Error: plotrange-multiplier " + "for polarplot must be a floating-point number"
     )
 
-    if V_SRF is None:
-        assert False, "Error: You must provide a volume- or surface object!"
-
     use_colors = ["k", "r", "g", "b", "c", "m", "y"]
 
     if param_dict is None:
@@ -113,7 +115,9 @@ def polarplot(
         param_dict = [param_dict]
 
     # Check if all required parameters have been provided in the param_dict
-    required_symbs = set(map(str, V_SRF.phase_function.free_symbols)) - {
+    required_symbs = {
+        str(s) for i in functions for s in i.phase_function.free_symbols
+    } - {
         "phi_0",
         "phi_ex",
         "theta_0",
@@ -134,23 +138,23 @@ def polarplot(
         fig = ax.figure
         assert ax.name == "polar", "You must provide axes in polar-projection!"
 
-    if isinstance(V_SRF, SurfaceScatter):
-        if label is None:
-            label = "Surface-Scattering Phase Function"
-        angs = ["theta_ex", "theta_s", "phi_ex", "phi_s"]
+    # plot scattering distribution function
+    for n_V_SRF, V_SRF in enumerate(functions):
+        if isinstance(V_SRF, SurfaceScatter):
+            if label is None:
+                label = "Surface-Scattering Phase Function"
+            angs = ["theta_ex", "theta_s", "phi_ex", "phi_s"]
 
-        thetass = np.arange(-np.pi / 2.0, np.pi / 2.0, 0.01)
+            thetass = np.arange(-np.pi / 2.0, np.pi / 2.0, 0.01)
 
-    if isinstance(V_SRF, VolumeScatter):
-        if label is None:
-            label = "Volume-Scattering Phase Function"
+        if isinstance(V_SRF, VolumeScatter):
+            if label is None:
+                label = "Volume-Scattering Phase Function"
 
-        angs = ["theta_0", "theta_s", "phi_0", "phi_s"]
+            angs = ["theta_0", "theta_s", "phi_0", "phi_s"]
 
-        thetass = np.arange(0.0, 2.0 * np.pi, 0.01)
+            thetass = np.arange(0.0, 2.0 * np.pi, 0.01)
 
-    # plot scattering distribution function
-    for n_V_SRF, V_SRF in enumerate(np.atleast_1d(V_SRF)):
         for n_p, params in enumerate(param_dict):
             # define a plotfunction of the legendre-approximation of p
             if aprox is True:
@@ -172,6 +176,8 @@ def polarplot(
                     radapprox = np.array(
                         phasefunktapprox(ti, thetass, 0.0, 0.0, **params)
                     ).squeeze()
+                    # (constant functions do not depend on the angles)
+                    radapprox = np.broadcast_to(radapprox, thetass.shape)
                 # set theta direction to clockwise
                 ax.set_theta_direction(-1)
                 # set theta to start at z-axis
-- 
2.43.0


From 1c4cda95a8ed0af809a9f60d4bc620b7d7e9ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 24/35] fix: support arrays of NormBRDF in hemreflect for both
 backends

---
 src/rt1_model/plot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 766005d..9c39991 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -330,6 +330,8 @@ def hemreflect(
     elif SRF is not None:
         BRDF = SRF.calc
         NormBRDF = param_dict.get("NormBRDF", 1)
+        # NormBRDF is not required to evaluate the BRDF
+        param_dict = {key: val for key, val in param_dict.items() if key != "NormBRDF"}
     else:
         assert False, "Error: You must provide either R or SRF"
 
-- 
2.43.0


From 0f9e90e58d9aa22dcef61328b839a2376f2cf024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:32 +0000
Subject: [PATCH 25/35] fix: unused parameters no longer affect the shape of
 results

---
 src/rt1_model/_calc.py   |  8 +++++---
 src/rt1_model/helpers.py | 12 +++++++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 87b410b..8f0a4ad 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1152,11 +1152,13 @@ class RT1(object):
     def _eval_fn(self, fnevals, *angs):
         # numerical evaluation of the fn-coefficients (arguments are assigned by name
         # since the order of the parameters in the param_dict is arbitrary)
-        names = ["theta_0", "phi_0", "theta_ex", "phi_ex", *self.param_dict]
-        args = np.broadcast_arrays(*angs, *self.param_dict.values())
+        names = ["theta_0", "phi_0", "theta_ex", "phi_ex"]
 
         return np.broadcast_arrays(
-            *(np.atleast_1d(i) for i in fnevals(**dict(zip(names, args))))
+            *(
+                np.atleast_1d(i)
+                for i in fnevals(**dict(zip(names, angs)), **self.param_dict)
+            )
         )
 
     def _calc_Fint_1(self):
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index c1b0e73..3cba1ba 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -65,13 +65,23 @@ def _lambdify(variables, functions):
         )
 
         var_names = list(map(str, variables))
+        used_names = {
+            str(s)
+            for f in np.atleast_1d(funcs)
+            for s in getattr(f, "free_symbols", [])
+        }
 
         def lambda_func(*args, **kwargs):
             # allow similar call signature as sympy functions
             # (e.g. both args and kwargs)
+            # (parameters that are not used must not affect the shape of the result)
             return seng_lambda_func(
                 *np.broadcast_arrays(
-                    *args, *(kwargs[key] for key in var_names[len(args) :])
+                    *args,
+                    *(
+                        kwargs[key] if key in used_names else 0.0
+                        for key in var_names[len(args) :]
+                    ),
                 )
             )
 
-- 
2.43.0


From 16939215931f8b20d4c24e8f4ade98584556bbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:12 +0000
Subject: [PATCH 26/35] fix: support read-only arrays as input of compiled
 symengine functions

---
 src/rt1_model/helpers.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 3cba1ba..f6685a5 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -75,15 +75,15 @@ def _lambdify(variables, functions):
             # allow similar call signature as sympy functions
             # (e.g. both args and kwargs)
             # (parameters that are not used must not affect the shape of the result)
-            return seng_lambda_func(
-                *np.broadcast_arrays(
-                    *args,
-                    *(
-                        kwargs[key] if key in used_names else 0.0
-                        for key in var_names[len(args) :]
-                    ),
-                )
+            values = (
+                *args,
+                *(
+                    kwargs[key] if key in used_names else 0.0
+                    for key in var_names[len(args) :]
+                ),
             )
+            # use copies since symengine does not accept read-only arrays
+            return seng_lambda_func(*np.broadcast_arrays(*map(np.array, values)))
 
     elif backend == "sympy":
         # using sympy's lambdify without "common subexpression
-- 
2.43.0


From be00ebc2c77311c2fde3102628216d71e99b0355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 27/35] fix: derivatives with respect to parameters of
 cosine-lobes

---
 src/rt1_model/_calc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 8f0a4ad..645eeba 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1562,11 +1562,15 @@ class RT1(object):
 
         args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
-        return _lambdify(
-            args,
-            sp.diff(self.SRF.phase_function, sp.Symbol(key)),
+        # the derivative of sign() (used to clip cosine-lobes) is left unevaluated by
+        # sympy... it is 0 wherever it is defined
+        diff = sp.diff(self.SRF.phase_function, sp.Symbol(key)).replace(
+            lambda e: isinstance(e, sp.Derivative) and isinstance(e.expr, sp.sign),
+            lambda e: sp.S.Zero,
         )
 
+        return _lambdify(args, diff)
+
     def jacobian(self, param_list=["omega", "tau", "NormBRDF"], format="list"):
         """
         Return the jacobian of the total backscatter (without interaction contribution).
-- 
2.43.0


From be1ce8ab64522fcf575e647e8ae87140d686dbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:40 +0000
Subject: [PATCH 28/35] fix: unused parameters named like symengine's cse
 symbols

---
 src/rt1_model/helpers.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index f6685a5..9aa82b3 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -54,23 +54,30 @@ def _lambdify(variables, functions):
         # using symengines own "common subexpression elimination"
         # routine to perform lambdification
 
+        var_names = list(map(str, variables))
+        used_names = {
+            str(s)
+            for f in np.atleast_1d(funcs)
+            for s in getattr(f, "free_symbols", [])
+        }
+
+        # variables that are not used in the functions must be renamed, otherwise the
+        # symbols created by the cse routine (x0, x1, ...) can collide with them
+        seng_var = [
+            v if str(v) in used_names else sp.Symbol(f"_unused_{i}")
+            for i, v in enumerate(var)
+        ]
+
         # llvm backend is used to allow pickling of the functions
         # see https://github.com/symengine/symengine.py/issues/294
         seng_lambda_func = Lambdify(
-            var,
+            seng_var,
             funcs,
             order="F",
             cse=True,
             backend="llvm",
         )
 
-        var_names = list(map(str, variables))
-        used_names = {
-            str(s)
-            for f in np.atleast_1d(funcs)
-            for s in getattr(f, "free_symbols", [])
-        }
-
         def lambda_func(*args, **kwargs):
             # allow similar call signature as sympy functions
             # (e.g. both args and kwargs)
-- 
2.43.0


From a45264c0c3b5d58ab9ed337a2fefdebacf344f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:55 +0000
Subject: [PATCH 29/35] fix: practically vanishing contributions in the 3D
 analyzer

---
 src/rt1_model/plot.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 9c39991..26a939f 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -793,6 +793,9 @@ class Analyze3D:
         with self._cx_set_intq():
             res = self.R.calc()
 
+        # avoid numerical issues in the shading of (practically) vanishing contributions
+        res = np.where(np.abs(res) < 1e-30, 0.0, res)
+
         x = res * np.sin(self.R.t_ex) * np.cos(self.R.p_ex)
         y = res * np.sin(self.R.t_ex) * np.sin(self.R.p_ex)
         z = res * np.cos(self.R.t_ex)
-- 
2.43.0


From 4f7b68bbabab85e41a9510983585f71b0de86735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:04 +0000
Subject: [PATCH 30/35] fix: combine docstrings with References or Examples

---
 src/rt1_model/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index 9aa82b3..fdb4ab4 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -150,7 +150,7 @@ def append_numpy_docstring(*funcs):
                 # combine references and example strings with a newline
                 for key in ["References", "Examples"]:
                     if f_doc[key]:
-                        comb[key] += "\n" + f_doc[key]
+                        comb[key] = [*comb[key], "", *f_doc[key]]
 
                 # combine parameter descriptions (override existing descriptions)
                 for p in f_doc["Parameters"]:
-- 
2.43.0


From 2c88c1974aec0444dceba99152ec40d223939fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:18 +0000
Subject: [PATCH 31/35] fix: layout of the sparse jacobian depended on obsolete
 parameter values

The values of re-defined parameters (R.tau = ...) that remain in the param_dict have
no effect on the results but they were used to decide if a parameter is static or
dynamic.
---
 src/rt1_model/_calc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 645eeba..6c50fd2 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -1671,7 +1671,10 @@ class RT1(object):
             for key, j in zip(param_list, jac):
                 j = np.broadcast_to(j, shape)
 
-                if key in self.param_dict:
+                # (obsolete values of re-defined parameters must not be considered)
+                if key in self.param_dict and (
+                    key in symbs or key not in ("tau", "omega", "NormBRDF", "bsf")
+                ):
                     value = self.param_dict[key]
                 else:
                     value = getattr(self, key)
-- 
2.43.0


From 1cbf587c954340b39f31ab87aca7c28a2af781ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 32/35] fix: symengine backend was accepted even if symengine
 is not installed

---
 src/rt1_model/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index f608fcd..86050ac 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -47,6 +47,11 @@ def set_lambda_backend(lambda_backend):
         "sympy",
         "symengine",
     ], f"Lambda backend {lambda_backend} is not defined!"
+
+    if lambda_backend == "symengine":
+        # make sure the (optional) dependency is available
+        import symengine  # noqa: F401
+
     _init_lambda_backend = lambda_backend
 
     _log.debug(f"Lambda backend set to {lambda_backend}")
-- 
2.43.0


From 26aa68cfcfff85f9ae5c1877d2876ff4f995b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:45 +0000
Subject: [PATCH 33/35] fix: 'from rt1_model import *' failed if matplotlib is
 not installed

---
 src/rt1_model/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rt1_model/__init__.py b/src/rt1_model/__init__.py
index 86050ac..559ca24 100644
--- a/src/rt1_model/__init__.py
+++ b/src/rt1_model/__init__.py
@@ -57,7 +57,7 @@ def set_lambda_backend(lambda_backend):
     _log.debug(f"Lambda backend set to {lambda_backend}")
 
 
-from ._calc import RT1
+from ._calc import RT1, _register_plotfuncs
 from . import volume
 from . import surface
 
@@ -65,11 +65,14 @@ __all__ = [
     "RT1",
     "volume",
     "surface",
-    "plot",
     "set_lambda_backend",
     "get_lambda_backend",
 ]
 
+# (plotting requires matplotlib which is an optional dependency)
+if _register_plotfuncs:
+    __all__ += ["plot"]
+
 
 @lru_cache()
 def _ensure_handler():
-- 
2.43.0


From c488439d3e25996e38632e119c44e388d8006a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 34/35] fix: derivatives with respect to symbols that have
 assumptions

---
 src/rt1_model/_calc.py   | 14 ++++----------
 src/rt1_model/helpers.py |  9 +++++++++
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/rt1_model/_calc.py b/src/rt1_model/_calc.py
index 6c50fd2..630f171 100644
--- a/src/rt1_model/_calc.py
+++ b/src/rt1_model/_calc.py
@@ -18,7 +18,7 @@ from scipy.special import expi, expn, factorial
 from scipy.sparse import vstack, block_diag, csr_matrix
 
 from . import _log, get_lambda_backend
-from .helpers import _lambdify, _parse_sympy_param
+from .helpers import _diff, _lambdify, _parse_sympy_param
 
 try:
     from .plot import Analyze, Analyze3D
@@ -1397,10 +1397,7 @@ class RT1(object):
         # such as "N", "S", or "Q"
 
         if isinstance(getattr(self, f"_{param}"), (str, sp.Basic)):
-            diff = sp.diff(
-                _parse_sympy_param(getattr(self, f"_{param}")), sp.Symbol(key)
-            )
-            return diff
+            return _diff(_parse_sympy_param(getattr(self, f"_{param}")), key)
         else:
             return 1
 
@@ -1491,10 +1488,7 @@ class RT1(object):
 
         args = (theta_0, theta_ex, phi_0, phi_ex) + param_names
 
-        return _lambdify(
-            args,
-            sp.diff(self.V.phase_function, sp.Symbol(key)),
-        )
+        return _lambdify(args, _diff(self.V.phase_function, key))
 
     def _d_surface_ddummy(self, key):
         """
@@ -1564,7 +1558,7 @@ class RT1(object):
 
         # the derivative of sign() (used to clip cosine-lobes) is left unevaluated by
         # sympy... it is 0 wherever it is defined
-        diff = sp.diff(self.SRF.phase_function, sp.Symbol(key)).replace(
+        diff = _diff(self.SRF.phase_function, key).replace(
             lambda e: isinstance(e, sp.Derivative) and isinstance(e.expr, sp.sign),
             lambda e: sp.S.Zero,
         )
diff --git a/src/rt1_model/helpers.py b/src/rt1_model/helpers.py
index fdb4ab4..7817a83 100644
--- a/src/rt1_model/helpers.py
+++ b/src/rt1_model/helpers.py
@@ -16,6 +16,15 @@ def _parse_sympy_param(val):
         return val
 
 
+def _diff(expr, name):
+    # derivative of an expression with respect to the parameter with the given name
+    # (symbols with assumptions, e.g. positive=True, differ from ordinary symbols)
+    return sum(
+        (sp.diff(expr, s) for s in expr.free_symbols if str(s) == str(name)),
+        sp.S.Zero,
+    )
+
+
 def _lambdify(variables, functions):
     """
     Lambdify a list of functions with the selected lambda_backend.
-- 
2.43.0


From 997db6ed2ec89fa77166a3fe2a0a0a54c6af022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:31 +0000
Subject: [PATCH 35/35] fix: check the arguments of the analyzers before
 changing the model

---
 src/rt1_model/plot.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/rt1_model/plot.py b/src/rt1_model/plot.py
index 26a939f..c2a2f8b 100644
--- a/src/rt1_model/plot.py
+++ b/src/rt1_model/plot.py
@@ -468,6 +468,15 @@ class Analyze:
 
         self.R = R
 
+        # check all arguments before changing anything
+        symbs = _check_params(self.R, parameters)
+        self.param_dict = {key: val for key, val in parameters.items() if key in symbs}
+        self._slider_params = self._parse_parameters(**self.param_dict)
+
+        assert (
+            range_parameter is None or range_parameter in self._slider_params
+        ), f"The range_parameter '{range_parameter}' is not one of the parameters!"
+
         if self.R._monostatic is False:
             _log.warning("The analyze-plot shows results for monostatic geometry!")
 
@@ -477,13 +486,9 @@ class Analyze:
         # number of intermediate parameter values to calculate (for range-indication)
         self._n_mima_samples = 20
 
-        symbs = _check_params(self.R, parameters)
-        self.param_dict = {key: val for key, val in parameters.items() if key in symbs}
-
         self._lines = None
         self._range_lines = set()
 
-        self._slider_params = self._parse_parameters(**self.param_dict)
         self._init_figure()
         self._update(None)
 
@@ -679,6 +684,16 @@ class Analyze3D:
 
         self.R = R
 
+        # check all arguments before changing anything
+        # only use parameters that are actually assigned
+        # (to avoid broadcasting issues with obsolete parameters)
+        symbs = _check_params(self.R, parameters)
+        self.param_dict = {key: val for key, val in parameters.items() if key in symbs}
+        self._slider_params = Analyze._parse_parameters(**self.param_dict)
+
+        self._contributions = contributions
+        self._use_contribs = ["tsvi".index(i) for i in contributions]
+
         if self.R.dB is True:
             import warnings
 
@@ -689,9 +704,6 @@ class Analyze3D:
 
         self._samples = samples
 
-        self._contributions = contributions
-        self._use_contribs = ["tsvi".index(i) for i in contributions]
-
         self._labels = ["Total", "Surface", "Volume", "Interaction"]
         self._colors = ["C0", "C1", "C2", "C3"]
 
@@ -714,14 +726,8 @@ class Analyze3D:
 
         self._inc_range = (0.1, 89.9)
 
-        # only use parameters that are actually assigned
-        # (to avoid broadcasting issues with obsolete parameters)
-        symbs = _check_params(self.R, parameters)
-        self.param_dict = {key: val for key, val in parameters.items() if key in symbs}
-
         self._artists = set()
 
-        self._slider_params = Analyze._parse_parameters(**self.param_dict)
         self._init_figure()
         self._update(None)
 
-- 
2.43.0

