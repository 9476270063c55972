From 4ebc6d67a10a547eb3886040529d916ee4657010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 01/20] fix: keep the BAW seed price between the strike and the
 perpetual boundary

When |b|*t exceeds 2*sigma*sqrt(t) the exponent of the seed is positive and
the seed lands outside that interval (even below zero), giving nan or wildly
wrong, negative prices.
---
 src/finoptions/basic_american_options/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 50b60bc..48846b2 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -413,7 +413,7 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (Su - self._K)
         )
-        Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
+        Si = self._K + (Su - self._K) * (1 - _np.exp(min(h2, 0)))
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
@@ -474,7 +474,7 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (self._K - Su)
         )
-        Si = Su + (self._K - Su) * _np.exp(h1)
+        Si = Su + (self._K - Su) * _np.exp(min(h1, 0))
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
-- 
2.43.0


From 38e9a8f99ddb6e468d7287e8ff7da17212e2fcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 02/20] fix: finite difference delta, lambda and gamma of
 Black76Option

They perturb the underlying as "S", which Black76Option calls FT, and
raised a TypeError.
---
 src/finoptions/vanillaoptions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 0479872..2c03d62 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -587,6 +587,9 @@ class Black76Option(GBSOption):
         None
         """
 
+        if x == "S":
+            x = "FT"  # the finite difference greeks refer to the underlying as S
+
         tmp = self.get_params()
         tmp[x] = value
 
-- 
2.43.0


From 5d15a6c8b724a262e84e8c5ec62d36bd4ffeba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 03/20] fix: rho of vanilla options with an array cost of carry

rho() and greeks() raised "truth value of an array is ambiguous" although
arrays are supported for every vanilla parameter.
---
 src/finoptions/vanillaoptions.py | 35 ++++++++++++++------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 2c03d62..8ce95e5 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -300,31 +300,26 @@ class GBSOption(Option):
         if method == "analytic":
             if call == True:
                 price = self.call()
-                if self._b != 0:
-                    result = (
-                        self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(self._d2)
+                )
             else:
                 price = self.put()
-                if self._b != 0:
-                    result = (
-                        -self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(-self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    -self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(-self._d2)
+                )
 
-            return result
+            # element by element, as b may be an array
+            return _np.where(self._b != 0, result, -self._t * price)[()]
         elif method == "fdm":
             # This only works if the cost to carry b is zero....
-            if self._b == 0:
+            if _np.all(self._b == 0):
                 return self._greeks.rho(call=call)
             else:
                 raise ValueError(
-- 
2.43.0


From 58b5806a5322d73a0c448727ba1d890ea3e03b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 04/20] fix: payoff of the relative performance option is a
 ratio

Q1*S1 / Q2*S2 evaluates as Q1*S1*S2/Q2; the documented payoff is
(Q1*S1)/(Q2*S2).
---
 src/finoptions/spread_options/bitree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index bbaafd2..e5bcff8 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -219,7 +219,7 @@ class BionomialSpreadAllTypes(_Option):
         elif option == 7: # Exchange option
             return _np.maximum(0, z*(Q2*S2 - Q1*S1))
         elif option == 8: # Outperformance option
-            return _np.maximum(0, z*((Q1*S1 / Q2*S2) - K))
+            return _np.maximum(0, z*((Q1*S1)/(Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
         
-- 
2.43.0


From f19ce5485dd56b57f69a7e3f5df6b2f65fb542f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 05/20] fix: Monte Carlo trace prints the cumulative average

It divided the sum over all loops by the number of loops so far.
---
 src/finoptions/monte_carlo_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index acd98fb..48d9137 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -293,7 +293,7 @@ class MonteCarloOption:  # _Option
                 i,
                 "\t:",
                 iteration[i],
-                _np.sum(iteration) / (i + 1),
+                _np.mean(iteration[: i + 1]),
                 end="",
             )
         print("\n")
-- 
2.43.0


From 02d48d6ea736bfd933110c6fee4d40f69c166e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:38 +0000
Subject: [PATCH 06/20] fix: resample Sobol innovations that are minus infinity

Only the maximum was tested, so a Sobol coordinate of exactly 0 went
through as -inf and call() returned a tuple of internals.
---
 src/finoptions/monte_carlo_options/mc_innovations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/mc_innovations.py b/src/finoptions/monte_carlo_options/mc_innovations.py
index a1e356e..d2d6793 100644
--- a/src/finoptions/monte_carlo_options/mc_innovations.py
+++ b/src/finoptions/monte_carlo_options/mc_innovations.py
@@ -35,7 +35,7 @@ class NormalSobolInnovations(Innovations):
         sobol = self._get_sobol(scramble)
 
         # avoid inf
-        while _np.abs(_np.max(sobol)) == _np.inf:
+        while not _np.all(_np.isfinite(sobol)):
             sobol = self._get_sobol(scramble)
 
         if self._eps is None:
-- 
2.43.0


From 2f62ac5195684d925d833f79629ab1becfc5994f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 07/20] fix: names of the two-asset lattice options

BionomialSpreadOption reported itself as BionomialMinOption and
BionomialSpreadAllTypes as BionomialSpreadOption.
---
 src/finoptions/spread_options/bitree3d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index e5bcff8..da104a2 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -110,7 +110,7 @@ class BionomialSpreadAllTypes(_Option):
     ----------
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
-    __name__ = "BionomialSpreadOption"
+    __name__ = "BionomialSpreadAllTypes"
     __title__ = "Rubinstein Binomial Tree Spread Option Model"
 
     def __init__(
@@ -745,7 +745,7 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
     >>> opt.put()
     >>> opt.greeks(call=True)
     """
-    __name__ = "BionomialMinOption"
+    __name__ = "BionomialSpreadOption"
     __title__ = "Binomial Tree Spread Option Model"
 
     def __init__(
-- 
2.43.0


From fa1b48c2f56493bc1001ee1cfb6775f124da9d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 08/20] fix: name and title of TIANBinomialTreeOption

It inherited those of the CRR tree, so its summary and repr named the wrong
model.
---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index b2010f1..fbec3b5 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -504,6 +504,9 @@ class TIANBinomialTreeOption(CRRBinomialTreeOption):
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
 
+    __name__ = "TIANBinomialTreeOption"
+    __title__ = "TIAN Binomial Tree Model"
+
     def _calc_price(self, z, n, type, tree=False):
         dt = self._t / n
         M = _np.exp(self._b * dt)
-- 
2.43.0


From 2ee31f0cefc6333871667e0c3f04fce4244ab23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 09/20] fix: title of Black76Option

---
 src/finoptions/vanillaoptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 8ce95e5..fa97ad0 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -550,7 +550,7 @@ class Black76Option(GBSOption):
     """
 
     __name__ = "Black76Option"
-    __title__ = "Black 1977 Option"
+    __title__ = "Black 1976 Option"
 
     def __init__(self, FT, K, t, r, sigma=None):
         super().__init__(FT, K, t, r, b=0, sigma=sigma)
-- 
2.43.0


From 01f74dd3a21b8b515fc923561918e3b42e084ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 10/20] fix: symmetric Heston-Nandi GARCH fits leave out gamma

~True is -2 and so truthy: the symmetric fit estimated gamma, filtered h and
z with it, and then reported gamma as 0.
---
 src/finoptions/heston_nandi_options/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index dcd5431..8f4f74f 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -251,7 +251,6 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     omega = x0[1]
     alpha = x0[2]
     beta = x0[3]
-    gamma = x0[4]
 
     # Transform - to keep them between 0 and 1:
     omega = 1 / (1 + _np.exp(-omega))
@@ -259,8 +258,8 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     beta = 1 / (1 + _np.exp(-beta))
 
     # Add gamma if selected:
-    if ~symmetric:
-        gam = gamma
+    if not symmetric:
+        gam = x0[4]
     else:
         gam = 0
 
@@ -313,7 +312,7 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     par_alpha = -_np.log((1-alpha)/alpha)  # for 3
     par_beta = -_np.log((1-beta)/beta)     # for 4
     par_start = [lamb, par_omega, par_alpha, par_beta]
-    if ~symmetric:
+    if not symmetric:
         par_start.append(gam)
 
     # Initial Log Likelihood:
@@ -351,7 +350,7 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     opt['estimate'][3] = beta
     
     if symmetric: 
-        opt['estimate'][4] = 0
+        opt['estimate'] = _np.append(opt['estimate'], 0.0)
     gam = opt['estimate'][4]
 
     # names(opt$estimate) = c("lambda", "omega", "alpha", "beta", "gamma")
-- 
2.43.0


From 373724b0ea81c3421db047a99c117c035b5a8c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:33 +0000
Subject: [PATCH 11/20] fix: terminate the BAW critical price search when its
 slope cycles

The slope used by fOptions contains N(d1) where the derivative has n(d1); for
a cost of carry close to the rate (calls), or short maturities (puts), the
iteration then never ends. Use the derivative after 100 steps.
---
 src/finoptions/basic_american_options/__init__.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 48846b2..77a56ea 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -435,9 +435,14 @@ class BAWAmericanApproxOption(_Option):
             / Q2
         )
         E = 0.000001
+        steps = 0
 
         # Newton Raphson algorithm for finding critical price Si
         while abs(LHS - RHS) / self._K > E:
+            # the slope bi of fOptions can cycle forever for b close to r, in that
+            # case go on with the derivative of RHS, which has n(d1) for its N(d1)
+            steps += 1
+            slope = self._CND if steps < 100 else self._NDF
             Si = (self._K + RHS - bi * Si) / (1 - bi)
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
@@ -452,7 +457,7 @@ class BAWAmericanApproxOption(_Option):
                 + (
                     1
                     - _np.exp((self._b - self._r) * self._t)
-                    * self._CND(d1)
+                    * slope(d1)
                     / (self._sigma * _np.sqrt(self._t))
                 )
                 / Q2
@@ -496,9 +501,13 @@ class BAWAmericanApproxOption(_Option):
             / Q1
         )
         E = 0.000001
+        steps = 0
 
         # Newton Raphson algorithm for finding critical price Si
         while abs(LHS - RHS) / self._K > E:
+            # as in _bawKc, go on with n(d1) for N(d1) where the slope bi cycles
+            steps += 1
+            slope = self._CND if steps < 100 else self._NDF
             Si = (self._K - RHS + bi * Si) / (1 + bi)
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
@@ -515,7 +524,7 @@ class BAWAmericanApproxOption(_Option):
                 - (
                     1
                     + _np.exp((self._b - self._r) * self._t)
-                    * self._CND(-d1)
+                    * slope(-d1)
                     / (self._sigma * _np.sqrt(self._t))
                 )
                 / Q1
-- 
2.43.0


From a2495693d4ab9c934ba64dcb3d009310f7c3c263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:21 +0000
Subject: [PATCH 12/20] fix: vega and gamma in the greeks of puts are those of
 the put

GreeksFDM and the numerically priced options differentiated the call for
vega and gamma whatever side greeks() was asked for. They coincide for
European options only.
---
 src/finoptions/base.py                        | 20 +++++++-------
 .../basic_american_options/__init__.py        | 27 +++++++++----------
 .../binomial_tree_options/__init__.py         | 16 +++++------
 src/finoptions/spread_options/bitree3d.py     | 18 ++++++-------
 src/finoptions/vanillaoptions.py              | 14 +++++-----
 5 files changed, 46 insertions(+), 49 deletions(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 713d069..96a3f8f 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -214,20 +214,20 @@ class GreeksFDM:
         # multiple by 1 to return float vs array for single element arrays. Multi-element arrays returned as normal
         return fd(self._opt._t) * -1
 
-    def vega(self):
+    def vega(self, call: bool = True):
         """
         Method to return vega greek for either call or put options using Finite Difference Methods.
 
         Parameters
         ----------
-        None
+        call : bool
+            Returns vega greek for call option if True, else returns vega greek for put options. By default True.
 
         Returns
         -------
         float
         """
-        # same for both call and put options
-        fd = self._make_partial_der("sigma", True, self._opt, n=1)
+        fd = self._make_partial_der("sigma", call, self._opt, n=1)
 
         # multiple by 1 to return float vs array for single element arrays. Multi-element arrays returned as normal
         return fd(self._opt._sigma) * 1
@@ -270,20 +270,20 @@ class GreeksFDM:
             price = self._opt.put()
         return self.delta(call=call) * self._opt._S / price
 
-    def gamma(self):
+    def gamma(self, call: bool = True):
         """
         Method to return gamma greek for either call or put options using Finite Difference Methods.
 
         Parameters
         ----------
-        None
+        call : bool
+            Returns gamma greek for call option if True, else returns gamma greek for put options. By default True.
 
         Returns
         -------
         float
         """
-        # same for both call and put options
-        fd = self._make_partial_der("S", True, self._opt, n=2)
+        fd = self._make_partial_der("S", call, self._opt, n=2)
 
         # multiple by 1 to return float vs array for single element arrays. Multi-element arrays returned as normal
         return fd(self._opt._S) * 1
@@ -303,10 +303,10 @@ class GreeksFDM:
         gk = {
             "delta": self.delta(call),
             "theta": self.theta(call),
-            "vega": self.vega(),
+            "vega": self.vega(call),
             "rho": self.rho(call),
             "lambda": self.lamb(call),
-            "gamma": self.gamma(),
+            "gamma": self.gamma(call),
         }
 
         return gk
diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 77a56ea..c96c222 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -637,8 +637,8 @@ class BAWAmericanApproxOption(_Option):
         return self._greeks.lamb(call=call)
 
     @docstring_from(GreeksFDM.gamma)
-    def gamma(self):
-        return self._greeks.gamma()
+    def gamma(self, call: bool = True):
+        return self._greeks.gamma(call=call)
 
     @docstring_from(GreeksFDM.greeks)
     def greeks(self, call: bool = True):
@@ -646,20 +646,19 @@ class BAWAmericanApproxOption(_Option):
         gk = {
             "delta": self.delta(call),
             "theta": self.theta(call),
-            "vega": self.vega(),
+            "vega": self.vega(call),
             "rho": self.rho(call),
             "lambda": self.lamb(call),
-            "gamma": self.gamma(),
+            "gamma": self.gamma(call),
         }
 
         return gk
 
     @docstring_from(GreeksFDM.vega)
-    def vega(self):
-        # same for both call and put options
+    def vega(self, call: bool = True):
         # over-rode parent class vega as it is unstable for larger step sizes of sigma.
         fd = self._greeks._make_partial_der(
-            "sigma", True, self, n=1, step=self._sigma / 10
+            "sigma", call, self, n=1, step=self._sigma / 10
         )
         return float(fd(self._sigma))
 
@@ -751,8 +750,8 @@ class BSAmericanApproxOption(_Option):
         return self._greeks.rho(call=call)
 
     @docstring_from(GreeksFDM.gamma)
-    def gamma(self):
-        return self._greeks.gamma()
+    def gamma(self, call: bool = True):
+        return self._greeks.gamma(call=call)
 
     @docstring_from(GreeksFDM.greeks)
     def greeks(self, call: bool = True):
@@ -760,10 +759,10 @@ class BSAmericanApproxOption(_Option):
         gk = {
             "delta": self.delta(call),
             "theta": self.theta(call),
-            "vega": self.vega(),
+            "vega": self.vega(call),
             "rho": self.rho(call),
             "lambda": self.lamb(call),
-            "gamma": self.gamma(),
+            "gamma": self.gamma(call),
         }
 
         return gk
@@ -777,9 +776,9 @@ class BSAmericanApproxOption(_Option):
         return self.delta(call=call) * self._S / price
 
     @docstring_from(GreeksFDM.vega)
-    def vega(self):
-        # same for both call and put options, overriden as it needs smaller step sizes
-        fd = self._make_partial_der("sigma", True, self, n=1, step=self._sigma / 10)
+    def vega(self, call: bool = True):
+        # overriden as it needs smaller step sizes
+        fd = self._make_partial_der("sigma", call, self, n=1, step=self._sigma / 10)
         return fd(self._sigma) * 1
 
     def call(self):
diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index fbec3b5..64429e1 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -280,8 +280,8 @@ class CRRBinomialTreeOption(_Option):
         return self._greeks.theta(call=call)
 
     @docstring_from(GreeksFDM.vega)
-    def vega(self):
-        return self._greeks.vega()
+    def vega(self, call: bool = True):
+        return self._greeks.vega(call=call)
 
     @docstring_from(GreeksFDM.rho)
     def rho(self, call: bool = True):
@@ -292,8 +292,8 @@ class CRRBinomialTreeOption(_Option):
         return self._greeks.lamb(call=call)
 
     @docstring_from(GreeksFDM.gamma)
-    def gamma(self):
-        return self._greeks.gamma()
+    def gamma(self, call: bool = True):
+        return self._greeks.gamma(call=call)
 
     @docstring_from(GreeksFDM.greeks)
     def greeks(self, call: bool = True):
@@ -663,8 +663,8 @@ class TrinomialTreeOption(CRRBinomialTreeOption):
         return self._greeks.theta(call=call)
 
     @docstring_from(GreeksFDM.vega)
-    def vega(self):
-        return self._greeks.vega()
+    def vega(self, call: bool = True):
+        return self._greeks.vega(call=call)
 
     @docstring_from(GreeksFDM.rho)
     def rho(self, call: bool = True):
@@ -675,8 +675,8 @@ class TrinomialTreeOption(CRRBinomialTreeOption):
         return self._greeks.lamb(call=call)
 
     @docstring_from(GreeksFDM.gamma)
-    def gamma(self):
-        return self._greeks.gamma()
+    def gamma(self, call: bool = True):
+        return self._greeks.gamma(call=call)
 
     @docstring_from(GreeksFDM.greeks)
     def greeks(self, call: bool = True):
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index da104a2..9e9907b 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -300,10 +300,9 @@ class BionomialSpreadAllTypes(_Option):
         return self._greeks.theta(call=call)
 
     @docstring_from(GreeksFDM.vega)
-    def vega(self):
-        # same for both call and put options
-        fd1 = self._greeks._make_partial_der("sigma1", True, self, n=1)
-        fd2 = self._greeks._make_partial_der("sigma2", True, self, n=1)
+    def vega(self, call: bool = True):
+        fd1 = self._greeks._make_partial_der("sigma1", call, self, n=1)
+        fd2 = self._greeks._make_partial_der("sigma2", call, self, n=1)
 
         out = dict(
             sigma1 = fd1(self._sigma1) * 1,
@@ -331,10 +330,9 @@ class BionomialSpreadAllTypes(_Option):
         return out
 
     @docstring_from(GreeksFDM.gamma)
-    def gamma(self):
-        # same for both call and put options
-        fd1 = self._greeks._make_partial_der("S1", True, self, n=2)
-        fd2 = self._greeks._make_partial_der("S2", True, self, n=2)
+    def gamma(self, call: bool = True):
+        fd1 = self._greeks._make_partial_der("S1", call, self, n=2)
+        fd2 = self._greeks._make_partial_der("S2", call, self, n=2)
         
         out = dict(
             S1 = fd1(self._S1) * 1,
@@ -348,10 +346,10 @@ class BionomialSpreadAllTypes(_Option):
         gk = {
             "delta": self.delta(call),
             "theta": self.theta(call),
-            "vega": self.vega(),
+            "vega": self.vega(call),
             "rho": self.rho(call),
             "lambda": self.lamb(call),
-            "gamma": self.gamma(),
+            "gamma": self.gamma(call),
         }
 
         return gk
diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index fa97ad0..c812236 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -799,22 +799,22 @@ class MiltersenSchwartzOption(Option):
     def theta(self, call: bool = True):
         return self._greeks.theta(call=call)
 
-    def vega(self):
+    def vega(self, call: bool = True):
         """
         Method to return vega greek for either call or put options using Finite Difference Methods.
 
         Parameters
         ----------
-        None
+        call : bool
+            Returns vega greek for call option if True, else returns vega greek for put options. By default True.
 
         Returns
         -------
         float
         """
-        # same for both call and put options
-        fdS = self._greeks._make_partial_der("sigmaS", True, self, n=1)
-        fdE = self._greeks._make_partial_der("sigmaE", True, self, n=1)
-        fdF = self._greeks._make_partial_der("sigmaF", True, self, n=1)
+        fdS = self._greeks._make_partial_der("sigmaS", call, self, n=1)
+        fdE = self._greeks._make_partial_der("sigmaE", call, self, n=1)
+        fdF = self._greeks._make_partial_der("sigmaF", call, self, n=1)
         result = _np.array(
             (
                 fdS(self._sigmaS) * 1,
@@ -835,7 +835,7 @@ class MiltersenSchwartzOption(Option):
         gk = {
             "delta": self.delta(call),
             "theta": self.theta(call),
-            "vega": self.vega(),
+            "vega": self.vega(call),
             "lambda": self.lamb(call),
             "gamma": self.gamma(),
             # "CofC": self.c_of_c(call),
-- 
2.43.0


From 372e62937fc87f61774ea371b0f4e7866e5ebc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:22 +0000
Subject: [PATCH 13/20] fix: price Roll-Geske-Whaley calls whose critical price
 is out of reach

At high volatilities the critical price search gives up above 1e8; the
European value of never exercising, already computed there, is now returned
instead of raising. Implied volatilities, whose search brackets such
volatilities, failed for ordinary options.
---
 src/finoptions/basic_american_options/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index c96c222..110eb86 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -131,10 +131,11 @@ class RollGeskeWhaleyOption(_Option):
             ).call()
 
         if HighS > self._big:
+            # critical price out of reach, priced as never exercised
             result = _GBSOption(
                 Sx, self._K, self._t, self._r, b=self._r, sigma=self._sigma
             ).call()
-            raise ValueError("HighS > big setting")
+            return result
 
         LowS = 0
         I = HighS * 0.5
-- 
2.43.0


From 1813a3f2a2bb5dbf8a8104c4de6fca5f4428d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 14/20] fix: lengths of simulated HN-GARCH series follow the
 given innovations

---
 src/finoptions/heston_nandi_options/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 8f4f74f..b66ee6f 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -411,8 +411,12 @@ def hngarch_sim(lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma = 0,
     # Innovations:
     if inno is None:
         inno = _np.random.normal(0, 1, n)
+    else:
+        n = len(inno)
     if (inno_start is None) & (n_start > 0):
         inno_start = _np.random.normal(0, 1, n_start)
+    elif inno_start is not None:
+        n_start = len(inno_start)
 
     if inno_start is not None:
         x = _np.concatenate((inno_start, inno))
-- 
2.43.0


From 66871cef823ed6baf6dbe792b57824202001fbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:42 +0000
Subject: [PATCH 15/20] fix: HN-GARCH simulation with integer innovations is
 not truncated

---
 src/finoptions/heston_nandi_options/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index b66ee6f..1671cc1 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -419,9 +419,9 @@ def hngarch_sim(lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma = 0,
         n_start = len(inno_start)
 
     if inno_start is not None:
-        x = _np.concatenate((inno_start, inno))
+        x = _np.concatenate((inno_start, inno)).astype(float)
     else:
-        x = inno.copy()
+        x = _np.array(inno, dtype=float)
     h = x.copy()
     Z = x.copy()
     
-- 
2.43.0


From de5ad6efeea0af15e3d97b9517dd052f60f05091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:15 +0000
Subject: [PATCH 16/20] fix: HN-GARCH fit reports the likelihood of its
 estimates, not NaN of an abandoned line search

---
 src/finoptions/heston_nandi_options/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 1671cc1..2630b92 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -327,8 +327,6 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     # Estimate Parameters:
     res = _minimize(_llhHNGarch, par_start, args=(trace, symmetric, rfr, x), method='L-BFGS-B', **kw_nlm)
 
-    # Log-Likelihood:
-    opt['minimum'] = -res.fun + len(x)*_np.sqrt(2*_np.pi)
     # opt['params'] = params
     # opt['symmetric'] = symmetric
     opt['estimate'] = res.x
@@ -338,6 +336,9 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     opt['h'] = final.h
     opt['z'] = final.z
 
+    # Log-Likelihood:
+    opt['minimum'] = -final.llhHNGarch + len(x)*_np.sqrt(2*_np.pi)
+
     # Backtransform Estimated parameters:
     lamb = opt['estimate'][0]
     omega = (1 / (1+_np.exp(-opt['estimate'][1])))
-- 
2.43.0


From e01c102ad8c830f72095b9485812ce23d72e6442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:23 +0000
Subject: [PATCH 17/20] fix: HN-GARCH fit no longer ends worse than its start
 after inadmissible trial parameters

---
 src/finoptions/heston_nandi_options/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 2630b92..0db092e 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -288,6 +288,12 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     return params
 
 
+def _objHNGarch(*args):
+    # inadmissible parameters have no likelihood; NaN would mislead the line search
+    llh = _llhHNGarch(*args)
+    return llh if _np.isfinite(llh) else 1e10
+
+
 def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma = 0, rf = 0, symmetric = True, trace = True, **kw_nlm):
     # A function implemented by Diethelm Wuertz
 
@@ -325,7 +331,7 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
         print(opt['value'])
     
     # Estimate Parameters:
-    res = _minimize(_llhHNGarch, par_start, args=(trace, symmetric, rfr, x), method='L-BFGS-B', **kw_nlm)
+    res = _minimize(_objHNGarch, par_start, args=(trace, symmetric, rfr, x), method='L-BFGS-B', **kw_nlm)
 
     # opt['params'] = params
     # opt['symmetric'] = symmetric
-- 
2.43.0


From d9582d79418cc297d5849732b50403214038af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:24 +0000
Subject: [PATCH 18/20] fix: Heston-Nandi delta and gamma integrate to an
 accuracy that scales with the price

---
 src/finoptions/heston_nandi_options/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 0db092e..e2488a1 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -149,7 +149,7 @@ class HestonNandiOption:  # _Option
         delta2 = _quad(
             _fdeltaHN, low_lim, high_lim, 
             args=(0, self._lamb, self._omega, self._alpha, self._beta, self._gamma, self._S, self._K, self._t, self._r),
-            epsabs=_eps, epsrel=_eps,
+            epsabs=_eps/self._S, epsrel=_eps,
             )
        
         # Compute Call and Put Delta :
@@ -165,13 +165,13 @@ class HestonNandiOption:  # _Option
         gamma1 = _quad(
             _fgammaHN, low_lim, high_lim, 
             args=(1, self._lamb, self._omega, self._alpha, self._beta, self._gamma, self._S, self._K, self._t, self._r),
-            epsabs=_eps, epsrel=_eps,
+            epsabs=_eps/self._S, epsrel=_eps,
             )
         
         gamma2 = _quad(
             _fgammaHN, low_lim, high_lim, 
             args=(0, self._lamb, self._omega, self._alpha, self._beta, self._gamma, self._S, self._K, self._t, self._r),
-            epsabs=_eps, epsrel=_eps,
+            epsabs=_eps/self._S**2, epsrel=_eps,
             )
        
         # Compute Call and Put Delta :
-- 
2.43.0


From cab97ade1d1a9f77639c790d3d45a18870b91a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 19/20] fix: rho of the Barone-Adesi Whaley option does not
 step to negative rates

---
 src/finoptions/basic_american_options/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 110eb86..b48ea1d 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -631,7 +631,11 @@ class BAWAmericanApproxOption(_Option):
 
     @docstring_from(GreeksFDM.rho)
     def rho(self, call: bool = True):
-        return self._greeks.rho(call=call)
+        # larger steps reach rates below zero, where the search for the critical price may not end.
+        fd = self._greeks._make_partial_der(
+            "r", call, self, n=1, step=self._r / 10
+        )
+        return float(fd(self._r))
 
     @docstring_from(GreeksFDM.lamb)
     def lamb(self, call: bool = True):
-- 
2.43.0


From dbc56d5fd5198d8269e4de69ccac51a8779b72b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 20/20] fix: bivariate normal distribution of nan is nan, so
 that greeks of Roll-Geske-Whaley options are numbers

---
 src/finoptions/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 96a3f8f..1b39da8 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -127,6 +127,9 @@ class _Base(ABC):
             result = self._CBND(a, 0, rho1) + self._CBND(b, 0, rho2) - delta
             return result
 
+        # no case applies to nan
+        return _np.nan
+
 
 class Derivative(_Base):
     pass
-- 
2.43.0

