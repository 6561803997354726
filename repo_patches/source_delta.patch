From 7f97f546071add90ff977711ee5e33a6dd3488a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 01/23] fix: relative performance spread option divides by
 Q2*S2

The payoff of option 8 is documented as max(0, (Q1*S1)/(Q2*S2) - K); the
expression multiplied by S2 instead.
---
 src/finoptions/spread_options/bitree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index bbaafd2..f89be5a 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -219,7 +219,7 @@ class BionomialSpreadAllTypes(_Option):
         elif option == 7: # Exchange option
             return _np.maximum(0, z*(Q2*S2 - Q1*S1))
         elif option == 8: # Outperformance option
-            return _np.maximum(0, z*((Q1*S1 / Q2*S2) - K))
+            return _np.maximum(0, z*((Q1*S1) / (Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
         
-- 
2.43.0


From 32884a6af6c9ae31ee6b4adf884957173e582441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 02/23] fix: finite difference delta, lambda and gamma of
 Black76Option

GreeksFDM perturbs the parameter S, which Black76Option calls FT, so these
greeks raised a TypeError with method='fdm'.
---
 src/finoptions/vanillaoptions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 0479872..9ced4b1 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -587,6 +587,10 @@ class Black76Option(GBSOption):
         None
         """
 
+        # the futures price plays the role of S, e.g. in the finite difference greeks
+        if x == "S":
+            x = "FT"
+
         tmp = self.get_params()
         tmp[x] = value
 
-- 
2.43.0


From 5bed9aeda1c0929b04f4922c4e527ad45a78b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:03 +0000
Subject: [PATCH 03/23] fix: rho of the vanilla options for an array of
 cost-of-carry rates

rho() and greeks() raised 'truth value of an array is ambiguous' when b was
an array, although the vanilla options accept arrays for any parameter.
---
 src/finoptions/vanillaoptions.py | 36 ++++++++++++++------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 9ced4b1..10d1fee 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -300,31 +300,27 @@ class GBSOption(Option):
         if method == "analytic":
             if call == True:
                 price = self.call()
-                if self._b != 0:
-                    result = (
-                        self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                carry = (
+                    self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(self._d2)
+                )
             else:
                 price = self.put()
-                if self._b != 0:
-                    result = (
-                        -self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(-self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                carry = (
+                    -self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(-self._d2)
+                )
 
-            return result
+            # b may be an array, in which case the convention is chosen per element.
+            # [()] returns a float vs a 0-d array when all parameters are scalars.
+            return _np.where(_np.not_equal(self._b, 0), carry, -self._t * price)[()]
         elif method == "fdm":
             # This only works if the cost to carry b is zero....
-            if self._b == 0:
+            if _np.all(_np.equal(self._b, 0)):
                 return self._greeks.rho(call=call)
             else:
                 raise ValueError(
-- 
2.43.0


From 6814194cb65fc160465ad10fdd240158de4e460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 04/23] fix: TIAN tree and named spread options report under
 their own name

TIANBinomialTreeOption inherited the CRR name and title, and
BionomialSpreadOption's repr said BionomialMinOption.
---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 src/finoptions/spread_options/bitree3d.py        | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index b2010f1..fbec3b5 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -504,6 +504,9 @@ class TIANBinomialTreeOption(CRRBinomialTreeOption):
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
 
+    __name__ = "TIANBinomialTreeOption"
+    __title__ = "TIAN Binomial Tree Model"
+
     def _calc_price(self, z, n, type, tree=False):
         dt = self._t / n
         M = _np.exp(self._b * dt)
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index f89be5a..3f39002 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -745,7 +745,7 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
     >>> opt.put()
     >>> opt.greeks(call=True)
     """
-    __name__ = "BionomialMinOption"
+    __name__ = "BionomialSpreadOption"
     __title__ = "Binomial Tree Spread Option Model"
 
     def __init__(
-- 
2.43.0


From 390cf178d750f0ef3923d9ac5c59121b6d76dc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 05/23] fix: Monte Carlo trace prints the cumulative average of
 the loops so far

It divided the sum over all loops by the number of loops printed so far.
---
 src/finoptions/monte_carlo_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index acd98fb..a1bad93 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -293,7 +293,7 @@ class MonteCarloOption:  # _Option
                 i,
                 "\t:",
                 iteration[i],
-                _np.sum(iteration) / (i + 1),
+                _np.sum(iteration[: i + 1]) / (i + 1),
                 end="",
             )
         print("\n")
-- 
2.43.0


From e48f855279ee18d7123916f3a724bbae07b82024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 06/23] fix: symmetric Heston-Nandi GARCH likelihood and fit

~symmetric is truthy for every Python bool, so gamma entered the likelihood
of a symmetric model: the fit optimised gamma, then reported gamma = 0 with
the h, z and likelihood of another parameter vector.
---
 src/finoptions/heston_nandi_options/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index dcd5431..3e80252 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -259,7 +259,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     beta = 1 / (1 + _np.exp(-beta))
 
     # Add gamma if selected:
-    if ~symmetric:
+    if not symmetric:
         gam = gamma
     else:
         gam = 0
@@ -312,9 +312,8 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     par_omega = -_np.log((1-omega)/omega)  # for 2
     par_alpha = -_np.log((1-alpha)/alpha)  # for 3
     par_beta = -_np.log((1-beta)/beta)     # for 4
-    par_start = [lamb, par_omega, par_alpha, par_beta]
-    if ~symmetric:
-        par_start.append(gam)
+    # gamma always has a slot; the likelihood ignores it for a symmetric model
+    par_start = [lamb, par_omega, par_alpha, par_beta, gam]
 
     # Initial Log Likelihood:
     opt = dict()
-- 
2.43.0


From 65ef641b048bcba24ebc85d8c4fbd53876b589a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 07/23] fix: Barone-Adesi Whaley critical price search
 terminates and converges

The unguarded Newton iteration looped forever for a cost of carry just below
the rate, and left the domain of the formula (nan critical price, so negative
or nan option values) for small volatilities with a large carry. Newton steps
are now kept inside a bracket of the critical price.
---
 .../basic_american_options/__init__.py        | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 50b60bc..53913ca 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -389,6 +389,10 @@ class BAWAmericanApproxOption(_Option):
     __name__ = "BAWAmericanApproxOption"
     __title__ = "Barone-Adesi and Whaley Approximation"
 
+    # limits of the search for the critical price
+    _max_newton = 50
+    _max_steps = 250
+
     def __init__(
         self, S: float, K: float, t: float, r: float, b: float, sigma: float = None
     ):
@@ -414,6 +418,7 @@ class BAWAmericanApproxOption(_Option):
             / (Su - self._K)
         )
         Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
+        Si = max(Si, self._K)
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
@@ -436,9 +441,21 @@ class BAWAmericanApproxOption(_Option):
         )
         E = 0.000001
 
+        # the critical price lies above the strike
+        lo, hi = self._K, _np.inf
+
         # Newton Raphson algorithm for finding critical price Si
-        while abs(LHS - RHS) / self._K > E:
+        for step in range(self._max_steps):
+            if abs(LHS - RHS) / self._K <= E:
+                break
+            if LHS < RHS:
+                lo = Si
+            else:
+                hi = Si
             Si = (self._K + RHS - bi * Si) / (1 - bi)
+            # the Newton step may leave the bracket or stall: double or bisect instead
+            if not lo < Si < hi or step > self._max_newton:
+                Si = 2 * lo if hi == _np.inf else (lo + hi) / 2
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
             ) / (self._sigma * _np.sqrt(self._t))
@@ -475,6 +492,7 @@ class BAWAmericanApproxOption(_Option):
             / (self._K - Su)
         )
         Si = Su + (self._K - Su) * _np.exp(h1)
+        Si = min(Si, self._K)
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
@@ -497,9 +515,21 @@ class BAWAmericanApproxOption(_Option):
         )
         E = 0.000001
 
+        # the critical price lies below the strike
+        lo, hi = 0, self._K
+
         # Newton Raphson algorithm for finding critical price Si
-        while abs(LHS - RHS) / self._K > E:
+        for step in range(self._max_steps):
+            if abs(LHS - RHS) / self._K <= E:
+                break
+            if LHS < RHS:
+                hi = Si
+            else:
+                lo = Si
             Si = (self._K - RHS + bi * Si) / (1 + bi)
+            # the Newton step may leave the bracket or stall: bisect instead
+            if not lo < Si < hi or step > self._max_newton:
+                Si = (lo + hi) / 2
             d1 = (
                 _np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
             ) / (self._sigma * _np.sqrt(self._t))
-- 
2.43.0


From 80002f4fe231b7887d00398ac40a0b2ea6ce9b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 08/23] fix: Barone-Adesi Whaley option values at a zero
 interest rate

r / (1 - exp(-r t)) was 0 / 0, so the critical price was nan and both call
and put fell through to their (possibly negative) exercise value.
---
 src/finoptions/basic_american_options/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 53913ca..a4e2c8f 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -404,6 +404,12 @@ class BAWAmericanApproxOption(_Option):
 
         self._greeks = GreeksFDM(self)
 
+    def _bawX(self):
+        # 2 r / (sigma^2 (1 - exp(-r t))), whose limit for r = 0 is 2 / (sigma^2 t)
+        if self._r == 0:
+            return 2 / (self._sigma ** 2 * self._t)
+        return 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+
     def _bawKc(self):
         # Newton Raphson algorithm to solve for the critical commodity
         # price for a Call.
@@ -419,7 +425,7 @@ class BAWAmericanApproxOption(_Option):
         )
         Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
         Si = max(Si, self._K)
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._bawX()
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
@@ -493,7 +499,7 @@ class BAWAmericanApproxOption(_Option):
         )
         Si = Su + (self._K - Su) * _np.exp(h1)
         Si = min(Si, self._K)
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._bawX()
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
@@ -580,7 +586,7 @@ class BAWAmericanApproxOption(_Option):
         else:
             Sk = self._bawKc()
             n = 2 * self._b / self._sigma ** 2
-            X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+            X = self._bawX()
             d1 = (
                 _np.log(Sk / self._K) + (self._b + self._sigma ** 2 / 2) * self._t
             ) / (self._sigma * _np.sqrt(self._t))
@@ -623,7 +629,7 @@ class BAWAmericanApproxOption(_Option):
 
         Sk = self._bawKp()
         n = 2 * self._b / self._sigma ** 2
-        X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
+        X = self._bawX()
         d1 = (_np.log(Sk / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
         )
-- 
2.43.0


From eca77b5f21b06842929857d2f192f931f8e4e413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:13 +0000
Subject: [PATCH 09/23] fix: delta, lambda and gamma of RollGeskeWhaleyOption
 for low asset prices

The widest finite difference steps leave the domain of the model there. The
bivariate normal returned None instead of nan for the resulting nan
arguments, so the greeks raised a TypeError instead of skipping the step.
---
 src/finoptions/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 713d069..98e48cc 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -127,6 +127,9 @@ class _Base(ABC):
             result = self._CBND(a, 0, rho1) + self._CBND(b, 0, rho2) - delta
             return result
 
+        # only reached if an argument is nan
+        return _np.nan
+
 
 class Derivative(_Base):
     pass
-- 
2.43.0


From 193d387c2b9b13b9c8e963559ecd7860ab91a0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:05 +0000
Subject: [PATCH 10/23] fix: greeks of RollGeskeWhaleyOption that evaluate an
 asset price of zero

The search for the critical asset price doubled a starting value of 0
forever; finite difference steps reach S = 0 for S near 1.
---
 src/finoptions/basic_american_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index a4e2c8f..1d6a5aa 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -119,7 +119,7 @@ class RollGeskeWhaleyOption(_Option):
 
         HighS = self._S
 
-        while (ci - HighS - self._D + self._K > 0) & (HighS < self._big):
+        while (ci - HighS - self._D + self._K > 0) & (0 < HighS < self._big):
             HighS = HighS * 2
             ci = _GBSOption(
                 HighS,
-- 
2.43.0


From a93b1f37ff384d1f40d051b99b497219e6100a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 11/23] fix: RollGeskeWhaleyOption implied volatility and
 unreachable critical prices

---
 src/finoptions/basic_american_options/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 1d6a5aa..1787e4b 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -131,10 +131,11 @@ class RollGeskeWhaleyOption(_Option):
             ).call()
 
         if HighS > self._big:
+            # no asset price in reach makes early exercise worthwhile
             result = _GBSOption(
                 Sx, self._K, self._t, self._r, b=self._r, sigma=self._sigma
             ).call()
-            raise ValueError("HighS > big setting")
+            return result
 
         LowS = 0
         I = HighS * 0.5
-- 
2.43.0


From 8bbbe937a794762b37052080a5e12a06505ad958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:10 +0000
Subject: [PATCH 12/23] fix: implied volatilities of arrays at low volatility

---
 src/finoptions/base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 98e48cc..d92c574 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -553,10 +553,18 @@ class Option(Derivative):
         if self._check_array(price, *self.get_params().values()):
             # if arrays, use root function
             a = self._max_array(price, *self.get_params().values())
-            if verbose == True:
-                sol = _root(_func, args=(self, call, price), x0=_np.ones_like(a))
-            else:
-                sol = _root(_func, args=(self, call, price), x0=_np.ones_like(a)).x
+            sol = _root(_func, args=(self, call, price), x0=_np.ones_like(a))
+            for x0 in (0.5, 0.25, 0.1):
+                if sol.success:
+                    break
+                # low volatilities may be out of reach from the first start
+                sol = _root(
+                    _func,
+                    args=(self, call, price),
+                    x0=_np.full_like(a, x0, dtype=float),
+                )
+            if verbose != True:
+                sol = sol.x
         else:
             # if scalars use root_scalar function
             if verbose == True:
-- 
2.43.0


From 1c2cba17a8f1b169c31002d597d5c864c6d7e188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:50 +0000
Subject: [PATCH 13/23] fix: Heston-Nandi GARCH fit leaves the stationary
 region for good

The optimizer's line search can step outside of the stationary region, where
the likelihood is NaN. It then never came back: the fit ended early, spent up
to a minute there and reported a NaN minimum. The minimum is now that of the
returned estimate, not of the optimizer's last trial.
---
 src/finoptions/heston_nandi_options/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index 3e80252..a8af4f4 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -325,10 +325,14 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
         print(opt['value'])
     
     # Estimate Parameters:
-    res = _minimize(_llhHNGarch, par_start, args=(trace, symmetric, rfr, x), method='L-BFGS-B', **kw_nlm)
+    # Outside of the stationary region the likelihood is not defined. As in R's nlm, the
+    # optimizer sees a large value there.
+    def _objective(x0):
+        llh = _llhHNGarch(x0, trace, symmetric, rfr, x)
+        return llh if _np.isfinite(llh) else 1e10
+
+    res = _minimize(_objective, par_start, method='L-BFGS-B', **kw_nlm)
 
-    # Log-Likelihood:
-    opt['minimum'] = -res.fun + len(x)*_np.sqrt(2*_np.pi)
     # opt['params'] = params
     # opt['symmetric'] = symmetric
     opt['estimate'] = res.x
@@ -338,6 +342,9 @@ def hngarch_fit(x, lamb = -0.5, omega = None, alpha = None, beta = 0.1, gamma =
     opt['h'] = final.h
     opt['z'] = final.z
 
+    # Log-Likelihood:
+    opt['minimum'] = -final.llhHNGarch + len(x)*_np.sqrt(2*_np.pi)
+
     # Backtransform Estimated parameters:
     lamb = opt['estimate'][0]
     omega = (1 / (1+_np.exp(-opt['estimate'][1])))
-- 
2.43.0


From 9f621b6e3b7b3167cc0a5568070b854ac50dacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 14/23] fix: a Monte Carlo loop that returns Inf is handed over
 with trace on, too

Printing the trace of the (innovations, path, payoffs) tuple raised an
exception.
---
 src/finoptions/monte_carlo_options/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index a1bad93..848503b 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -249,7 +249,7 @@ class MonteCarloOption:  # _Option
         [1] Haug E.G., The Complete Guide to Option Pricing Formulas
         """
         iteration = self._sim_mc(call=True)
-        if self._trace:
+        if self._trace and isinstance(iteration, _np.ndarray):
             self._print_trace(iteration)
 
         return iteration
@@ -278,7 +278,7 @@ class MonteCarloOption:  # _Option
         [1] Haug E.G., The Complete Guide to Option Pricing Formulas
         """
         iteration = self._sim_mc(call=False)
-        if self._trace:
+        if self._trace and isinstance(iteration, _np.ndarray):
             self._print_trace(iteration)
 
         return iteration
-- 
2.43.0


From f75913ad0c7f1a609b8de439f0fe78078464b947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:39 +0000
Subject: [PATCH 15/23] fix: Sobol innovations of minus infinity are drawn
 again

A scrambled Sobol point can be exactly zero (about one value in 1e9), and its
normal quantile is -Inf, not Inf.
---
 src/finoptions/monte_carlo_options/mc_innovations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/mc_innovations.py b/src/finoptions/monte_carlo_options/mc_innovations.py
index a1e356e..9b3d9c7 100644
--- a/src/finoptions/monte_carlo_options/mc_innovations.py
+++ b/src/finoptions/monte_carlo_options/mc_innovations.py
@@ -35,7 +35,7 @@ class NormalSobolInnovations(Innovations):
         sobol = self._get_sobol(scramble)
 
         # avoid inf
-        while _np.abs(_np.max(sobol)) == _np.inf:
+        while _np.max(_np.abs(sobol)) == _np.inf:
             sobol = self._get_sobol(scramble)
 
         if self._eps is None:
-- 
2.43.0


From bbeb938131be1f29ca0357a4d7d16bc595b859d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:28 +0000
Subject: [PATCH 16/23] fix: trinomial tree refuses an unknown exercise style
 instead of returning a node

---
 src/finoptions/binomial_tree_options/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index fbec3b5..4436eed 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -630,6 +630,8 @@ class TrinomialTreeOption(CRRBinomialTreeOption):
                     OptionValue[i] = self._euro(i, OptionValue, Df, pu, pd, pm)
                 elif type == "american":
                     OptionValue[i] = self._amer(i, j, OptionValue, Df, pu, pd, pm, self._K, d, self._S, u, z)
+                else:
+                    raise ValueError("type must be either 'european' or 'american'")
                 # fmt: on
                 tr = _np.append(tr, OptionValue[i])
 
-- 
2.43.0


From 1aade94c29aa758358e2b6963972f619b808ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:01 +0000
Subject: [PATCH 17/23] fix: lattice options refuse arrays instead of mixing
 the contracts node by node

---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index 4436eed..0d79dcf 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -157,6 +157,9 @@ class CRRBinomialTreeOption(_Option):
         type: str = "european",
         n: int = 5,
     ):
+        if self._check_array(S, K, t, r, b, sigma) == True:
+            raise TypeError("Arrays not supported as arguments for this option class")
+
         self._S = S
         self._K = K
         self._t = t
-- 
2.43.0


From 6594a4cfaaefbe8440c87eb2837d0134a68d2e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 18/23] fix: Roll-Geske-Whaley critical price search
 independent of the unit of money

---
 src/finoptions/basic_american_options/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 1787e4b..8f1db24 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -82,9 +82,9 @@ class RollGeskeWhaleyOption(_Option):
         self._D = D
         self._sigma = sigma
 
-        # Settings:
-        self._big = 100000000
-        self._eps = 1.0e-5
+        # Settings, in units of the strike price:
+        self._big = 1.0e6 * K
+        self._eps = 1.0e-7 * K
 
         self._greeks = GreeksFDM(self)
 
@@ -130,7 +130,7 @@ class RollGeskeWhaleyOption(_Option):
                 sigma=self._sigma,
             ).call()
 
-        if HighS > self._big:
+        if ci - HighS - self._D + self._K > 0:
             # no asset price in reach makes early exercise worthwhile
             result = _GBSOption(
                 Sx, self._K, self._t, self._r, b=self._r, sigma=self._sigma
-- 
2.43.0


From a7699e86fa38622286584ceb2b2803cf7be2b548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:35 +0000
Subject: [PATCH 19/23] fix: finite difference steps in proportion to small
 prices

---
 src/finoptions/base.py                            | 14 +++++++++++++-
 src/finoptions/basic_american_options/__init__.py |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index d92c574..1732485 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -177,10 +177,22 @@ class GreeksFDM:
             else:
                 return tmp.put()
 
-        fd = _nd.Derivative(_func, **kwargs)
+        fd = _nd.Derivative(_func, **self._step_options(wrt, opt, kwargs))
 
         return fd
 
+    def _step_options(self, wrt, opt, kwargs):
+        """
+        Options of the finite difference steps. numdifftools' nominal step is at least one,
+        which is more than a small price itself: a price moves in proportion, as it does at 100.
+        """
+        if wrt in ("S", "S1", "S2", "FT"):
+            x = _np.abs(getattr(opt, "_" + wrt))
+            nominal = _np.log(_np.e - 1 + x).clip(min=1)
+            kwargs["step_nom"] = _np.minimum(nominal, 0.05 * x)
+
+        return kwargs
+
     def delta(self, call: bool = True):
         """
         Method to return delta greek for either call or put options using Finite Difference Methods.
diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 8f1db24..4538fb2 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -762,7 +762,7 @@ class BSAmericanApproxOption(_Option):
             else:
                 return tmp.put()["OptionPrice"]
 
-        fd = _nd.Derivative(_func, **kwargs)
+        fd = _nd.Derivative(_func, **self._greeks._step_options(wrt, opt, kwargs))
 
         return fd
 
-- 
2.43.0


From 4fc2086c9feb2fd9d65568586b1f762f1b948cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:28 +0000
Subject: [PATCH 20/23] fix: implied volatilities of a grid (two-dimensional
 array) of prices

---
 src/finoptions/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 1732485..171575a 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -565,16 +565,22 @@ class Option(Derivative):
         if self._check_array(price, *self.get_params().values()):
             # if arrays, use root function
             a = self._max_array(price, *self.get_params().values())
-            sol = _root(_func, args=(self, call, price), x0=_np.ones_like(a))
+
+            def _flat(sigma, *args):
+                # the root finder works on vectors, the contracts may be a grid
+                return _np.ravel(_func(_np.reshape(sigma, a.shape), *args))
+
+            sol = _root(_flat, args=(self, call, price), x0=_np.ones_like(a))
             for x0 in (0.5, 0.25, 0.1):
                 if sol.success:
                     break
                 # low volatilities may be out of reach from the first start
                 sol = _root(
-                    _func,
+                    _flat,
                     args=(self, call, price),
                     x0=_np.full_like(a, x0, dtype=float),
                 )
+            sol.x = sol.x.reshape(a.shape)
             if verbose != True:
                 sol = sol.x
         else:
-- 
2.43.0


From e59c18199947fca3776e1716fa26b51a8b43f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:18 +0000
Subject: [PATCH 21/23] fix: Bjerksund-Stensland prices of large amounts
 overflow

S ** Beta and I ** (-Beta) overflow and underflow for low volatilities and
large (or tiny) prices, and their product is nan. Use powers of S / I.
---
 src/finoptions/basic_american_options/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 4538fb2..766490a 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -875,13 +875,13 @@ class BSAmericanApproxOption(_Option):
             ht = -(b * Time + 2 * sigma * _np.sqrt(Time)) * B0 / (BInfinity - B0)
             # Trigger Price I:
             I = B0 + (BInfinity - B0) * (1 - _np.exp(ht))
-            alpha = (I - X) * I ** (-Beta)
             if S >= I:
                 result = dict(OptionPrice=S - X, TriggerPrice=I)
             else:
                 result = dict(
-                    OptionPrice=alpha * S ** Beta
-                    - alpha * self._bsPhi(S, Time, Beta, I, I, r, b, sigma)
+                    # alpha = (I - X) * I ** (-Beta); powers of S / I do not overflow
+                    OptionPrice=(I - X) * (S / I) ** Beta
+                    - (I - X) * self._bsPhi(S / I, Time, Beta, 1, 1, r, b, sigma)
                     + self._bsPhi(S, Time, 1, I, I, r, b, sigma)
                     - self._bsPhi(S, Time, 1, X, I, r, b, sigma)
                     - X * self._bsPhi(S, Time, 0, I, I, r, b, sigma)
-- 
2.43.0


From 05b8477589db64846bd5bbb5c799c94228b5e1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:27 +0000
Subject: [PATCH 22/23] fix: Bjerksund-Stensland price of a contract far out of
 the money is nan

(I / S) ** kappa overflows for low volatilities, times zero is nan. Add the
exponents, which stay small.
---
 src/finoptions/basic_american_options/__init__.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 766490a..9a65e75 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -900,15 +900,11 @@ class BSAmericanApproxOption(_Option):
             sigma * _np.sqrt(Time)
         )
         kappa = 2 * b / (sigma ** 2) + (2 * gamma - 1)
-        result = (
-            _np.exp(lamb)
-            * S ** gamma
-            * (
-                self._CND(d)
-                - (I / S) ** kappa
-                * self._CND(d - 2 * _np.log(I / S) / (sigma * _np.sqrt(Time)))
-            )
-        )
+        # (I / S) ** kappa may overflow where S ** gamma makes up for it, so add the exponents
+        front = lamb + gamma * _np.log(S)
+        result = _np.exp(front) * self._CND(d) - _np.exp(
+            front + kappa * _np.log(I / S)
+        ) * self._CND(d - 2 * _np.log(I / S) / (sigma * _np.sqrt(Time)))
 
         return result
 
-- 
2.43.0


From 8bf3220bdba9a4ceb5b4417ebef192ae54de80dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:28 +0000
Subject: [PATCH 23/23] fix: the Heston-Nandi likelihood of far-off starting
 values is infinite

---
 src/finoptions/heston_nandi_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index a8af4f4..e1d5fee 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -275,7 +275,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     # fmt: on
 
     # Calculate Log - Likelihood for Normal Distribution:
-    llhHNGarch = -_np.sum(_np.log(_norm.pdf(z) / _np.sqrt(h)))
+    llhHNGarch = -_np.sum(_norm.logpdf(z) - 0.5 * _np.log(h))
     if trace:
         print("Parameter Estimate\n")
         print(lamb, omega, alpha, beta, gam)
-- 
2.43.0

