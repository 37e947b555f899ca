From f3eeb80c5d7083667c9075d31137de06bfab53be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:28 +0000
Subject: [PATCH 01/71] fix: remainder of an ExpInt whose exponent is a small
 ExpInt

exp_mod() passed the ExpInt exponent on to pow() whenever it was below the
cycle start, which raised TypeError.
---
 Code/Exp_Int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e412781..0aada4b 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -202,7 +202,7 @@ class ExpTerm:
     return new_coef * exp_int(self.base, new_exp)
 
   def mod(self, m : int) -> int:
-    return (exp_mod(self.base, self.exponent, m) * self.coef) % m
+    return (exp_mod(self.base, try_simplify(self.exponent), m) * self.coef) % m
 
   def mul_int(self, n : int):
     assert isinstance(n, int), n
-- 
2.43.0


From f2f94c686a355ad540c338e654d8b7cbb0a4e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:42 +0000
Subject: [PATCH 02/71] fix: allow dividing an ExpInt by a negative integer

The sign put on the common factor was dropped again by gcd() (which returns a
non-negative value), so the denominator stayed negative and an assert failed.
---
 Code/Exp_Int.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 0aada4b..269c5e0 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -279,13 +279,13 @@ class ExpInt:
 
   def normalize(self):
     common = gcd(self.const, self.denom)
-    # Force denominator to be postitive
-    common = abs(common) * sign(self.denom)
     assert isinstance(common, int), (common, repr(self.denom))
     if common != 1:
       for term in self.terms:
         common = gcd(common, term.coef)
         assert isinstance(common, int), (common, repr(term.coef))
+    # Force denominator to be postitive
+    common *= sign(self.denom)
     if common != 1:
       self.const //= common
       self.denom //= common
-- 
2.43.0


From e62dd41bd9b9d1be4d2d0c3de0587abdf4c40519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:01 +0000
Subject: [PATCH 03/71] fix: a power whose ExpInt exponent evaluates to 0 is 1,
 not a huge number

try_eval() returning 0 was mistaken for 'too big to evaluate'.
---
 Code/Exp_Int.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 269c5e0..55b67e0 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -160,7 +160,7 @@ class ExpTerm:
     if self.is_const:
       exp_as_int = try_eval(self.exponent)
 
-      if not exp_as_int:
+      if exp_as_int is None:
         assert isinstance(self.exponent, ExpInt), self.exponent
         # For large enough exponent, the coeficient and even base don't have much effect.
         (height, top) = self.exponent.tower_value
-- 
2.43.0


From 0f42250dd826982d85a9f01b8a9e54ed55b7af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:27 +0000
Subject: [PATCH 04/71] fix: compare ExpInts whose tower heights overlap

Tower values were compared as plain tuples, so any number stored with the larger
height won: exp_int(2, 1001) > 10**400 was True and 3 * 2^999 - 2^1000 was
negative. Bring both values to the same height first.
---
 Code/Exp_Int.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 55b67e0..caecd4a 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -1,6 +1,7 @@
 """Library for representing very large integers of the form: a b^n + c"""
 
 from fractions import Fraction
+from functools import cmp_to_key
 import math
 
 from Algebraic_Expression import Expression, min_val, variables, substitute
@@ -109,6 +110,23 @@ def tower_value(x):
   else:
     return (0, abs(x))
 
+def tower_cmp(a, b):
+  """Compare two tower values. Returns negative, 0 or positive (like C's strcmp).
+  The heights alone do not decide: e.g. (0, 10^400) > (1, 300) = 10^300."""
+  (height_a, top_a) = a
+  (height_b, top_b) = b
+  while height_a < height_b:
+    if top_a <= 0:
+      return -1
+    top_a = math.log10(top_a)
+    height_a += 1
+  while height_b < height_a:
+    if top_b <= 0:
+      return 1
+    top_b = math.log10(top_b)
+    height_b += 1
+  return (top_a > top_b) - (top_a < top_b)
+
 def sign(x):
   if isinstance(x, ExpInt):
     return x.sign
@@ -306,15 +324,19 @@ class ExpInt:
       else:
         # At least one term is too large to fit in an `int`.
         max_pos_tower = max((term.tower_value for term in self.terms
-                             if term.sign > 0), default = tower_value(0))
+                             if term.sign > 0), default = tower_value(0),
+                            key = cmp_to_key(tower_cmp))
         max_neg_tower = max((term.tower_value for term in self.terms
-                             if term.sign < 0), default = tower_value(0))
-        if max_pos_tower == max_neg_tower:
+                             if term.sign < 0), default = tower_value(0),
+                            key = cmp_to_key(tower_cmp))
+        order = tower_cmp(max_pos_tower, max_neg_tower)
+        if order == 0:
           raise ExpIntException(f"Cannot evalulate sign of ExpInt: {self}    ({max_pos_tower} == {max_neg_tower})")
-        self.tower_value = max(max_pos_tower, max_neg_tower)
-        if max_neg_tower > max_pos_tower:
+        if order < 0:
+          self.tower_value = max_neg_tower
           self.sign = -1
         else:
+          self.tower_value = max_pos_tower
           self.sign = 1
 
         # Tweak tower value for denom
@@ -477,7 +499,7 @@ class ExpInt:
       # self > 0 > other
       return True
 
-    return self.tower_value > tower_value(other)
+    return tower_cmp(self.tower_value, tower_value(other)) > 0
 
   def __ge__(self, other):
     assert is_const(self), self
@@ -492,7 +514,7 @@ class ExpInt:
       # self > 0 > other
       return True
 
-    return self.tower_value >= tower_value(other)
+    return tower_cmp(self.tower_value, tower_value(other)) >= 0
 
   # Boilerplate
   def __neg__(self):
-- 
2.43.0


From af4c64c6ee33cd67817a4aef57517048ecf9698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:00 +0000
Subject: [PATCH 05/71] fix: exact sign and size of a sum of powers

The sign and size of an ExpInt were those of its largest single term, so sums
like 9 * 2^2000 - 3 * 2^2001 - 2^2002 (< 0) counted as positive and
2^2000 + 2^1999 counted as smaller than 5 * 2^1998. Add up the leading terms
exactly.
---
 Code/Exp_Int.py | 67 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index caecd4a..ff2b87d 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -267,6 +267,30 @@ def normalize_terms(terms):
   return new_terms
 
 
+def leading_term(terms, const):
+  """Return (coef, exponent) such that `sum(terms) + const ~= coef * base^exponent`.
+  The sign is exact, the relative error is < 2^-64 and if exponent <= 0 then the
+  value is exact. Returns None if an exponent is too big to be an `int`."""
+  base = terms[0].base
+  parts = [(try_eval(term.exponent), term.coef) for term in terms] + [(0, const)]
+  if any(exponent is None for (exponent, _) in parts):
+    return None
+  parts.sort(reverse=True)
+  max_rest = sum(abs(coef) for (_, coef) in parts)
+  coef = 0
+  exponent = 0
+  for (next_exponent, next_coef) in parts:
+    if coef:
+      gap = exponent - next_exponent
+      if exponent >= EXP_THRESHOLD and gap > max_rest.bit_length() + 64:
+        # The remaining terms are insignificant.
+        break
+      coef *= base**gap
+    coef += next_coef
+    exponent = next_exponent
+  return (coef, exponent)
+
+
 class ExpInt:
   """An integer represented by a formula: `(a1 b^n1 + a2 b^n2 + ... + c) / d` """
   def __init__(self, terms, const : int, denom : int):
@@ -313,31 +337,36 @@ class ExpInt:
   def eval(self):
     self.is_const = all(term.is_const for term in self.terms)
     if self.is_const:
-      term_values = [try_eval(term) for term in self.terms]
-      if all(term_values):
-        # All terms are small enough to fit in `int`s. We can represent the sum
+      lead = leading_term(self.terms, self.const)
+      if lead and lead[1] <= 0:
+        # The sum is small enough to fit in an `int`. We can represent it
         # percisely here.
-        value = (sum(term_values) + self.const) // self.denom
+        value = lead[0] // (self.denom * self.terms[0].base**-lead[1])
         self.tower_value = tower_value(value)
         self.sign = sign(value)
 
       else:
-        # At least one term is too large to fit in an `int`.
-        max_pos_tower = max((term.tower_value for term in self.terms
-                             if term.sign > 0), default = tower_value(0),
-                            key = cmp_to_key(tower_cmp))
-        max_neg_tower = max((term.tower_value for term in self.terms
-                             if term.sign < 0), default = tower_value(0),
-                            key = cmp_to_key(tower_cmp))
-        order = tower_cmp(max_pos_tower, max_neg_tower)
-        if order == 0:
-          raise ExpIntException(f"Cannot evalulate sign of ExpInt: {self}    ({max_pos_tower} == {max_neg_tower})")
-        if order < 0:
-          self.tower_value = max_neg_tower
-          self.sign = -1
+        # The sum is too large to fit in an `int`.
+        if lead:
+          lead_term = ExpTerm(self.terms[0].base, *lead)
+          self.tower_value = lead_term.tower_value
+          self.sign = lead_term.sign
         else:
-          self.tower_value = max_pos_tower
-          self.sign = 1
+          max_pos_tower = max((term.tower_value for term in self.terms
+                               if term.sign > 0), default = tower_value(0),
+                              key = cmp_to_key(tower_cmp))
+          max_neg_tower = max((term.tower_value for term in self.terms
+                               if term.sign < 0), default = tower_value(0),
+                              key = cmp_to_key(tower_cmp))
+          order = tower_cmp(max_pos_tower, max_neg_tower)
+          if order == 0:
+            raise ExpIntException(f"Cannot evalulate sign of ExpInt: {self}    ({max_pos_tower} == {max_neg_tower})")
+          if order < 0:
+            self.tower_value = max_neg_tower
+            self.sign = -1
+          else:
+            self.tower_value = max_pos_tower
+            self.sign = 1
 
         # Tweak tower value for denom
         if self.denom != 1:
-- 
2.43.0


From ec61feeabff8880ef957565dae340f86d0a10c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:00 +0000
Subject: [PATCH 06/71] fix: take the base into account in the size of b^(10^x)

2^(2x) compared greater than 5^x for huge x = 10^top because only the size of the
exponent was considered.
---
 Code/Exp_Int.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index ff2b87d..989a0da 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -184,6 +184,9 @@ class ExpTerm:
         (height, top) = self.exponent.tower_value
         assert top >= 0, top
         # self = b^(10^^height[^top]) ~= 10^^(height+1)[^top]
+        if height == 1:
+          # self = b^10^top = 10^10^(top + log log b)
+          top = prec_add(top, math.log10(math.log10(self.base)))
         self.tower_value = (height + 1, top)
 
       else:
-- 
2.43.0


From a7c75fa98a1088a4ae0a11c5f08bff661d09d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:00 +0000
Subject: [PATCH 07/71] fix: print the approximate size of huge negative
 numbers

They are < 10**10 but do not evaluate to an int, so formatting them raised
TypeError.
---
 Code/Halting_Lib.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Halting_Lib.py b/Code/Halting_Lib.py
index e3fef50..040b3ae 100644
--- a/Code/Halting_Lib.py
+++ b/Code/Halting_Lib.py
@@ -16,6 +16,9 @@ def big_int_approx_str(value):
   if value in (math.inf, -math.inf) or not is_const(value):
     return str(value)
 
+  if value < 0:
+    return "-" + big_int_approx_str(-value)
+
   if value < 10**10:
     return f"{try_eval(value):_}"
 
-- 
2.43.0


From 4a827f60ee3eb9acaa7d9b0861c0f24762c997fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:47 +0000
Subject: [PATCH 08/71] fix: sum of cubes squared the coefficient

series_sum(c * k^3) returned c^2 (N(N-1)/2)^2, so step counts of rules whose
cost is cubic were wrong.
---
 Code/Macro/Proof_System.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 588f2e6..41e6d8f 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -1477,7 +1477,8 @@ def series_sum(expr : Algebraic_Expression, k : Variable, N):
     elif k_pow == 3:
       # sum_{k=0}^{N-1}(coef * k^3) = coef * (N(N-1)/2)^2
       # https://proofwiki.org/wiki/Sum_of_Sequence_of_Cubes
-      total += ((rest * N * (N - 1)) // 2)**2
+      sum_k = (N * (N - 1)) // 2
+      total += rest * sum_k * sum_k
     else:
       raise NotImplementedError(f"Cannot series sum {term} over {k}")
   return total
-- 
2.43.0


From 8eaf10fdf4de609bf558fbb6fb22be4184df3d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:11 +0000
Subject: [PATCH 09/71] fix: minimum of a symbolic power whose exponent can be
 0

min_val() divided two ints with '/', and the float result failed an assert.
---
 Code/Exp_Int.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 989a0da..5059a83 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -385,8 +385,11 @@ class ExpInt:
       if -math.inf in min_terms:
         self.min_value = -math.inf
       else:
-        min_terms = sum(min_terms)
-        self.min_value = (min_terms + min_val(self.const)) / self.denom
+        min_numer = sum(min_terms) + min_val(self.const)
+        if isinstance(min_numer, int):
+          self.min_value = min_numer // self.denom
+        else:
+          self.min_value = min_numer / self.denom
         assert isinstance(self.min_value, (ExpInt, int)), self
       self.vars = set(variables(self.const) | variables(self.denom))
       for term in self.terms:
-- 
2.43.0


From 46705d2f23fcd6b569cec0d488ab0fb5a30d0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 10/71] fix: minimum count above which an exponential rule does
 not decrease

compute_min() looped forever when log_b() hit the bound exactly, and only looked
at the minimum itself: x -> (2^x + 29)/16 grows at 2 but decreases at 3, so the
rule was wrongly taken to apply forever.
---
 Code/Macro/Rule_Func.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index c7cca12..83a6f97 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -2,7 +2,7 @@
 Func types used by Rules in Proof_System.
 """
 
-import math
+from fractions import Fraction
 
 from Algebraic_Expression import Expression, VariableToExpression
 from Exp_Int import ExpInt, exp_int
@@ -119,19 +119,15 @@ class Pow_Func(Func):
   __str__ = __repr__
 
   def compute_min(self, min):
-    # Increase min enough to guarantee that this is an increasing function.
-    #   (a b^{u x + v} + c)/d > x
-    #   ux + v > log_b(dx-c) - log_b(a)
-    #   x > (log_b(dx-c) - log_b(a) - v) / u
-    av = self.const_exp + math.log(self.coef_base, self.base)
-    while True:
-      dxc = self.denom * min - self.const_base
-      if dxc <= 0:
-        return min
-      else:
-        x_bound = (math.log(dxc, self.base) - av) / self.coef_exp
-        if min > x_bound:
-          return min
-        else:
-          # TODO: Add tests that actually use this logic.
-          min = math.ceil(x_bound)
+    # Increase min enough to guarantee that this is a non-decreasing function
+    # for all x >= min:
+    #   f(x) = (a b^{u x + v} + c)/d >= x
+    # Since f is convex it is enough that f(min) >= min and that the next step
+    # increases f by at least 1.
+    def numer(x):
+      return (self.coef_base * Fraction(self.base)**(self.coef_exp * x + self.const_exp)
+              + self.const_base)
+    while (numer(min) < self.denom * min or
+           numer(min + 1) - numer(min) < self.denom):
+      min += 1
+    return min
-- 
2.43.0


From 15eb2376ae9355712d64e47450456ae5bc553f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:29 +0000
Subject: [PATCH 11/71] fix: repeated linear rule at its fixed point

x -> 2x - 3 applied to 3 cancels the power, which failed an assert.
---
 Code/Macro/Rule_Func.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Macro/Rule_Func.py b/Code/Macro/Rule_Func.py
index 83a6f97..2c21c65 100644
--- a/Code/Macro/Rule_Func.py
+++ b/Code/Macro/Rule_Func.py
@@ -87,6 +87,9 @@ class Mult_Func(Func):
     # a --(1)--> (m+1) a + c  =>  a --(n)--> ((am + c) m^n - c) / m
     m = self.coef - 1
     a = start
+    if a*m + self.const == 0:
+      # Fixed point
+      return start
     # We use a custom integer class for this since `num_reps` can
     # be very large!
     m_n = exp_int(base = self.coef, exponent = num_reps)
-- 
2.43.0


From c12080625d7e8b3197b540f6f3a942d393fc410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:40 +0000
Subject: [PATCH 12/71] fix: linear recurrence detection with a step limit of 1

With max_steps=1 the search loop is never entered and the final check
read the unset variable steps_reset (UnboundLocalError).
---
 Code/Lin_Recur_Detect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/Lin_Recur_Detect.py b/Code/Lin_Recur_Detect.py
index e816422..f4ded59 100644
--- a/Code/Lin_Recur_Detect.py
+++ b/Code/Lin_Recur_Detect.py
@@ -45,6 +45,7 @@ def lin_detect_not_min(tm : Turing_Machine.Simple_Machine,
   sim = Direct_Simulator.DirectSimulator(tm)
   states_last_seen = {sim.state: sim.step_num}
   sim.step()
+  steps_reset = sim.step_num
 
   while (not max_steps or sim.step_num < max_steps) and not result.success:
     # Brent's algorithm for loop detection:
-- 
2.43.0


From e42e934c2a9f3d300ab5ab84bbc65906786a2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:36 +0000
Subject: [PATCH 13/71] fix: run_options with the prover turned off

With --no-prover sim.prover is None and reporting its statistics raised
AttributeError.
---
 Code/Macro_Simulator.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index ed3573a..d1c0974 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -175,13 +175,14 @@ def simulate_machine(machine : Turing_Machine.Turing_Machine,
       if sim.step_num > 0:
         sim_info.result.log10_num_steps = int(math.log10(sim.step_num))
 
-      sim_info.result.num_rules_proven = sim.prover.num_rules
-      sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
-      sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
-      sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
-      sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
-      sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
-      sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
+      if sim.prover:
+        sim_info.result.num_rules_proven = sim.prover.num_rules
+        sim_info.result.num_meta_diff_rules_proven = sim.prover.num_meta_diff_rules
+        sim_info.result.num_linear_rules_proven = sim.prover.num_linear_rules
+        sim_info.result.num_exponential_rules_proven = sim.prover.num_exponential_rules
+        sim_info.result.num_gen_rules_proven = sim.prover.num_gen_rules
+        sim_info.result.num_collatz_rules = sim.prover.num_collatz_rules
+        sim_info.result.num_proofs_failed = sim.prover.num_failed_proofs
 
     # Various Unknown conditions
     if sim.tape.compressed_size() > sim_info.parameters.max_tape_blocks:
-- 
2.43.0


From 4f045fd19fd02aed21a835dab46555c5b4c725a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:34 +0000
Subject: [PATCH 14/71] fix: set is_decided only after the data of the verdict

run_timer turns a timeout into an exception at an arbitrary instant. If
it struck inside set_halting / set_not_halting / set_inf_recur the record
was left decided without its data: with is_decided set but not yet
is_halting, a halting machine was even recorded as infinite.
---
 Code/Halting_Lib.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/Code/Halting_Lib.py b/Code/Halting_Lib.py
index 040b3ae..f4651cb 100644
--- a/Code/Halting_Lib.py
+++ b/Code/Halting_Lib.py
@@ -140,8 +140,8 @@ def set_halting(tm_status  : io_pb2.BBStatus,
                 from_state  : Optional[int],
                 from_symbol : Optional[int]):
   """Specify that we know that this machine halts."""
-  tm_status.halt_status.is_decided = True
-  tm_status.halt_status.is_halting = True
+  # Note: `is_decided` is set last so that an exception (timeout) while we are
+  # in here cannot leave behind a decided status without its data.
   set_big_int(tm_status.halt_status.halt_steps, halt_steps)
   if halt_score is not None:
     set_big_int(tm_status.halt_status.halt_score, halt_score)
@@ -149,6 +149,8 @@ def set_halting(tm_status  : io_pb2.BBStatus,
     tm_status.halt_status.from_state = from_state
   if from_symbol is not None:
     tm_status.halt_status.from_symbol = from_symbol
+  tm_status.halt_status.is_halting = True
+  tm_status.halt_status.is_decided = True
 
   # NOTE: We are treating Halting machines as Not Quasihalting.
   # Technically, Aaronson's definition calls Halting machines Quasihalting also.
@@ -157,14 +159,14 @@ def set_halting(tm_status  : io_pb2.BBStatus,
 def set_not_halting(tm_status  : io_pb2.BBStatus,
                     inf_reason : io_pb2.InfReason):
   """Specify that we know that this machine does not halt."""
-  tm_status.halt_status.is_decided = True
   tm_status.halt_status.is_halting = False
   tm_status.halt_status.inf_reason = inf_reason
+  tm_status.halt_status.is_decided = True
 
 def set_not_quasihalting(tm_status : io_pb2.BBStatus):
   """Specify that we know that this machine does not quasihalt."""
-  tm_status.quasihalt_status.is_decided = True
   tm_status.quasihalt_status.is_quasihalting = False
+  tm_status.quasihalt_status.is_decided = True
 
 
 def set_inf_recur(tm_status : io_pb2.BBStatus,
@@ -188,17 +190,17 @@ def set_inf_recur(tm_status : io_pb2.BBStatus,
         q_state = state
         q_last_seen = states_last_seen[state]
 
-  # Either way, we have made a conclusive decision.
-  tm_status.quasihalt_status.is_decided = True
   if q_state == None:
     # We can definitively say that this machine does NOT quasihalt.
     # Instead it enters Lin Recurrence cycling through all states forever.
     tm_status.quasihalt_status.is_quasihalting = False
   else:
-    tm_status.quasihalt_status.is_quasihalting = True
     # Quasihalting time is technically the step after the last time a specific
     # state was last seen.
     set_big_int(tm_status.quasihalt_status.quasihalt_steps, q_last_seen + 1)
     # Note: A TM may quasihalt at different times with respect to different
     # states. This is guaranteed to be the final quasihalt (max steps).
     tm_status.quasihalt_status.quasihalt_state = q_state
+    tm_status.quasihalt_status.is_quasihalting = True
+  # Either way, we have made a conclusive decision.
+  tm_status.quasihalt_status.is_decided = True
-- 
2.43.0


From 5c82405442af2636a3c833485d32c37254291505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:23 +0000
Subject: [PATCH 15/71] fix: quasihalt status of a machine that repeats inside
 a macro symbol

All states visited in the last macro transition were taken to be part of
the repeat, including those only visited before it, so a machine could be
recorded as not quasihalting although it abandons states (or with the
wrong quasihalting state and step). Mark the states of the repeat with
last_seen = inf and keep the last visits of the others.
---
 Code/Macro/Simulator.py      | 10 ++++++++--
 Code/Macro/Turing_Machine.py |  8 ++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/Code/Macro/Simulator.py b/Code/Macro/Simulator.py
index fbc64c0..723214c 100644
--- a/Code/Macro/Simulator.py
+++ b/Code/Macro/Simulator.py
@@ -181,8 +181,14 @@ class Simulator(object):
     # Apply transition
     if self.op_state == Turing_Machine.INF_REPEAT:
       self.inf_reason = io_pb2.INF_MACRO_STEP
-      # TODO(shawn): This is not 100% accurate. We should only ignore states involved in the repeat-in-place, but trans.states_last_seen could include some states before the repeat.
-      self.inf_recur_states = list(trans.states_last_seen.keys())
+      # States visited by the repeat-in-place itself are last seen at infinity.
+      # All others were last seen on the way there.
+      self.inf_recur_states = []
+      for state, trans_last_seen in trans.states_last_seen.items():
+        if trans_last_seen == math.inf:
+          self.inf_recur_states.append(state)
+        elif self.compute_steps and self.states_last_seen is not None:
+          self.states_last_seen[state] = self.step_num + trans_last_seen
     # Chain move
     elif trans.state_out == self.state and trans.dir_out == self.dir and \
        self.op_state == Turing_Machine.RUNNING:
diff --git a/Code/Macro/Turing_Machine.py b/Code/Macro/Turing_Machine.py
index f3af892..ebf302f 100644
--- a/Code/Macro/Turing_Machine.py
+++ b/Code/Macro/Turing_Machine.py
@@ -6,6 +6,7 @@ Abstract Turing Machine model with basic NxM TM and Macro-Machine derivatives
 """
 
 from functools import total_ordering
+import math
 from optparse import OptionParser, OptionGroup
 import sys
 import string
@@ -104,6 +105,8 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
   # If `old_config` is ever repeated, we know it will repeat forever.
   # Format: (state, dir, pos, tape)
   old_config = None
+  # Value of num_base_steps when `old_config` was saved.
+  old_base_steps = 0
   # Arbitrarily start looking for repeats after ~100 steps (~0.1ms).
   next_config_save = 128
 
@@ -127,6 +130,10 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       # Found a repeated config.
       condition = INF_REPEAT
       condition_details = [pos]
+      # Only the states visited since `old_config` are part of the repeat.
+      for seen_state, last_seen in states_last_seen.items():
+        if last_seen >= old_base_steps:
+          states_last_seen[seen_state] = math.inf
       break
     if num_loops >= next_config_save:
       # Brent's algorithm for loop detection:
@@ -135,6 +142,7 @@ def sim_limited(tm, state, start_tape, pos, dir, max_loops=10_000) -> Transition
       #   any repeat which starts at `init_time` and has period `period`
       #   we'll detect the repeat by step `2 * max(init_time, period)`.
       old_config = (state, dir, pos, list(tape))
+      old_base_steps = num_base_steps
       next_config_save *= 2
 
     if num_loops > max_loops:
-- 
2.43.0


From 980c2d0c847bd44e0ab868c5b42ff82aaa81d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:28 +0000
Subject: [PATCH 16/71] fix: CTL4 looked at the wrong end of the tape for run
 lengths

---
 Code/CTL4.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/CTL4.py b/Code/CTL4.py
index 24f4419..28a1d44 100755
--- a/Code/CTL4.py
+++ b/Code/CTL4.py
@@ -114,11 +114,11 @@ def test_CTL(base_tm, cutoff, block_size=1, offset=None, use_backsymbol=True, ve
         B = set([sim.tape.tape[d][1].symbol])
         if len(sim.tape.tape[d]) >= 3:
           A.add(sim.tape.tape[d][2].symbol)
-        if sim.tape.tape[d][-2].num > 2:
+        if sim.tape.tape[d][1].num > 2:
           A.add(sim.tape.tape[d][1].symbol)
       else:
         B = set([sim.tape.tape[d][2].symbol])
-        if sim.tape.tape[d][-3].num > 1:
+        if sim.tape.tape[d][2].num > 1:
           A.add(sim.tape.tape[d][2].symbol)
     # Only one non-zero symbols not in A
     # Set C to the zero symbol
-- 
2.43.0


From 1516264b018187bf4cd03288be525aedfefd514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 17/71] fix: backtracking filter on records called a function
 that does not exist

---
 Code/Backtracking_Filter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 95fa922..cdf31fa 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -12,6 +12,7 @@ import sys
 from Common import HALT_STATE
 import Halting_Lib
 import IO
+from Macro import Turing_Machine
 
 import io_pb2
 
@@ -19,6 +20,15 @@ import io_pb2
 # Constants
 BACKTRACK = "Backtrack"
 
+def get_ttable(tm):
+  """Table of (symbol_out, dir_out, state_out). Both halting and undefined
+  transitions are represented by state_out = HALT_STATE."""
+  return [[(trans.symbol_out, trans.dir_out,
+            trans.state_out if trans.condition == Turing_Machine.RUNNING
+            else HALT_STATE)
+           for trans in row]
+          for row in tm.trans_table]
+
 def get_info(TTable):
   """Finds all halt transitions, transitions that could get to
   each state and all of the single-sided symbols."""
@@ -185,7 +195,7 @@ def backtrack_ttable(TTable, steps, max_width):
 def backtrack(tm_record, num_steps, max_width):
   info = tm_record.proto.filter.backtrack
   with IO.Timer(info.result):
-    TTable = IO.parse_ttable(tm_record.tm().ttable_str())
+    TTable = get_ttable(tm_record.tm())
     # Run the simulator/filter on this machine
     result = backtrack_ttable(TTable, num_steps, max_width)
 
-- 
2.43.0


From 16b0eee2841652a10801fdca6a014a7b304b2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 18/71] fix: backtracking filter on machines without halting
 transition

---
 Code/Backtracking_Filter.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index cdf31fa..3424b64 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -164,7 +164,8 @@ def backtrack_ttable(TTable, steps, max_width):
   giving up if there are more than |max_width| possible configs."""
   # Get initial ttable info.
   halts, to_state, dir_to_symbol = get_info(TTable)
-  combined_result = None
+  combined_result = BacktrackResult(success = True, halted = False,
+                                    max_steps = 0, max_width = 0, num_nodes = 0)
   # See if all halts cannot be reached
   for halt_state, halt_symbol in halts:
     for symbol_out, dir_out, state_out in TTable[halt_state]:
@@ -184,10 +185,7 @@ def backtrack_ttable(TTable, steps, max_width):
     if not result.success:
       return result
 
-    if combined_result:
-      combined_result.merge(result)
-    else:
-      combined_result = result
+    combined_result.merge(result)
 
   # If all halt states cannot be reached, we have succeeded!
   return combined_result
-- 
2.43.0


From df4dd5804534dd76337baf8b295f29dfecc3e669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:17 +0000
Subject: [PATCH 19/71] fix: backtracking filter ignored a halt in the initial
 configuration

---
 Code/Backtracking_Filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index 3424b64..cf60e70 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -129,6 +129,12 @@ def backtrack_single_halt(halt_state, halt_symbol,
   pos_configs = [Partial_Config(halt_state, halt_symbol)]
   max_width_seen = len(pos_configs)
   num_nodes = 0
+  if is_init_config(pos_configs[0]):
+    # The very first transition halts.
+    return BacktrackResult(success = False, halted = True,
+                           max_steps = 0, max_width = max_width_seen,
+                           num_nodes = num_nodes)
+  i = -1
   for i in range(steps):
     # All configurations that could lead to pos_configs in one step.
     prev_configs = []
-- 
2.43.0


From 8dee7863b059abb536386d3ffdbd99a87086eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 20/71] fix: continuing an enumeration expanded already halted
 machines again

---
 Code/Enumerate.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index d161d41..5566438 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -151,6 +151,12 @@ class Enumerator(object):
       # raise
     return tm_record
 
+  def halts_at_undefined_transition(self, tm_record : TM_Record) -> bool:
+    halt_status = tm_record.proto.status.halt_status
+    trans = tm_record.tm().get_trans_object(symbol_in = halt_status.from_symbol,
+                                            state_in = halt_status.from_state)
+    return trans.condition == Turing_Machine.UNDEFINED
+
   def expand_undefined_transition(self, old_tm_record : TM_Record) -> None:
     """Push Turing Machines with each possible transition at this state and symbol"""
     assert old_tm_record.is_halting()
@@ -173,13 +179,14 @@ class Enumerator(object):
 
     elif tm_record.is_halting():
       self.num_halt += 1
-      # All halting machines (during enumeration) are actually reaching
-      # undefined cells.
-      # Push all the possible non-halting transitions onto the stack.
-      self.expand_undefined_transition(tm_record)
-      # Modify this TM to explicitly halt on this transition so that when we
-      # save it as halting below the ttable reflects that.
-      tm_record.standardize_halt_trans()
+      # Halting machines are normally reaching undefined cells (except for those
+      # read from --infile which were already expanded by a previous run).
+      if self.halts_at_undefined_transition(tm_record):
+        # Push all the possible non-halting transitions onto the stack.
+        self.expand_undefined_transition(tm_record)
+        # Modify this TM to explicitly halt on this transition so that when we
+        # save it as halting below the ttable reflects that.
+        tm_record.standardize_halt_trans()
 
     elif tm_record.is_unknown_quasihalting():
       self.num_inf_quasi_unknown += 1
-- 
2.43.0


From e6882e504f7a316304c7e42e16986ece9931e1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:38 +0000
Subject: [PATCH 21/71] fix: allow_no_halt was lost when continuing an
 enumeration

---
 Code/Enumerate.py    | 2 ++
 Code/IO/TM_Record.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index 5566438..2a72dd3 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -207,6 +207,8 @@ def enum_initial_tms(options):
         # Clear previous results, so that we only see the results from this run.
         tm_record.proto.ClearField("status")
         tm_record.proto.ClearField("filter")
+        if options.allow_no_halt:
+          tm_record.update_tm(TM_Enum.TM_Enum(tm_record.tm(), allow_no_halt = True))
         yield tm_record
   else:
     assert options.states and options.symbols, (options.states, options.symbols)
diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 025d812..d5ec99b 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -150,6 +150,7 @@ class TM_Record:
   def update_tm(self, tm_enum : TM_Enum.TM_Enum) -> None:
     self.tme = tm_enum
     write_tm(self.tme.tm, self.proto.tm)
+    self.proto.tm.allow_no_halt = self.tme.allow_no_halt
 
   def tm_enum(self):
     if not self.tme:
-- 
2.43.0


From e816e7307b28f1f16c813b914dd40e89cac00873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 22/71] fix: machines stored as a list read back with every
 transition equal to the first

---
 Code/IO/TM_Record.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index d5ec99b..72fc8b9 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -108,6 +108,7 @@ def tm_from_list(tm_list : io_pb2.TMList) -> Turing_Machine.Simple_Machine:
   for state_in in range(tm_list.num_states):
     for symbol_in in range(tm_list.num_symbols):
       symbol_out, dir_out, state_out = tm_list.ttable_list[i:i+3]
+      i += 3
       if symbol_out != -1:
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
   return Turing_Machine.tm_from_quintuples(quints,
-- 
2.43.0


From ce4b1ab7a4926eb15d0d8269fc0012fa2a3ec1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 23/71] fix: storing a machine as a list changed the machine
 itself

---
 Code/IO/TM_Record.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 72fc8b9..e32baed 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -91,14 +91,16 @@ def unpack_tm(pack : bytes) -> Turing_Machine.Simple_Machine:
                                            symbols = list(range(symbol_in)))
 
 def tm_to_list(tm : Turing_Machine.Simple_Machine, tm_list : io_pb2.TMList) -> None:
+  tm_list.Clear()
   tm_list.num_states = tm.num_states
   tm_list.num_symbols = tm.num_symbols
   for state in range(tm.num_states):
     for symbol in range(tm.num_symbols):
       trans = tm.get_trans_object(symbol, state)
+      symbol_out = trans.symbol_out
       if trans.condition == Turing_Machine.UNDEFINED:
-        trans.symbol_out = -1
-      tm_list.ttable_list.append(trans.symbol_out)
+        symbol_out = -1
+      tm_list.ttable_list.append(symbol_out)
       tm_list.ttable_list.append(trans.dir_out)
       tm_list.ttable_list.append(trans.state_out)
 
-- 
2.43.0


From f5dc018ac8abc5c1bd4eaeafa7242113285b190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 24/71] fix: machines with 8 symbols do not fit the packed form

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index e32baed..2f23f7a 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -129,7 +129,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
     raise NotImplementedError(f"Unexpected ttable type: {type}")
 
 def write_tm(tm : Turing_Machine.Simple_Machine, proto_tm : io_pb2.TuringMachine):
-  if tm.num_states <= 7 and tm.num_symbols <= 8:
+  if tm.num_states <= 7 and tm.num_symbols <= 7:
     proto_tm.ttable_packed = pack_tm(tm)
   else:
     tm_to_list(tm, proto_tm.ttable_list)
-- 
2.43.0


From f43317af7206b44acb8fef8d6f566d42f7ab1f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 25/71] fix: halting transition of machines that do not fit the
 packed form

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 2f23f7a..5bdf2fb 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -181,7 +181,7 @@ class TM_Record:
     self.tme.set_halt_trans(
       state_in = self.proto.status.halt_status.from_state,
       symbol_in = self.proto.status.halt_status.from_symbol)
-    self.proto.tm.ttable_packed = pack_tm(self.tme.tm)
+    write_tm(self.tme.tm, self.proto.tm)
 
 
   def is_unknown_halting(self):
-- 
2.43.0


From cf706f3acd9883ee80eb09ccc9a686756ddca4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:26 +0000
Subject: [PATCH 26/71] fix: reading a machine stored as text

---
 Code/IO/TM_Record.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index 5bdf2fb..b8c2050 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -122,7 +122,7 @@ def read_tm(proto_tm : io_pb2.TuringMachine) -> Turing_Machine.Simple_Machine:
   if type == "ttable_packed":
     return unpack_tm(proto_tm.ttable_packed)
   elif type == "ttable_str":
-    return IO.StdText.parse_tm(proto_tm.ttable_str)
+    return parse_tm(proto_tm.ttable_str)
   elif type == "ttable_list":
     return tm_from_list(proto_tm.ttable_list)
   else:
-- 
2.43.0


From 9b7b30ad5a44ccf51cd249fd8c1bc543585dcfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:08 +0000
Subject: [PATCH 27/71] fix: --num-enum together with --no-output

---
 Code/Enumerate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Code/Enumerate.py b/Code/Enumerate.py
index 2a72dd3..df9849c 100755
--- a/Code/Enumerate.py
+++ b/Code/Enumerate.py
@@ -83,7 +83,8 @@ class Enumerator(object):
     """
     while True:
       if self.options.num_enum and self.tm_num >= self.options.num_enum:
-        self.pout.write("Ran requested number of TMs...\n")
+        if self.pout:
+          self.pout.write("Ran requested number of TMs...\n")
         break
 
       # While we have machines to run, pop one off the stack ...
-- 
2.43.0


From 83fb71ff8d8a40ef11cb4c0f457d8c8e8678b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 28/71] fix: compressed text files were opened in binary mode

---
 Code/IO/Morphett.py | 4 ++--
 Code/IO/StdText.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 31ab454..9a9f15f 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -21,7 +21,7 @@ class Writer:
 
   def __enter__(self):
     if ".gz" in self.outfilename.suffixes:
-      self.outfile = gzip.open(self.outfilename, "w")
+      self.outfile = gzip.open(self.outfilename, "wt")
     else:
       self.outfile = open(self.outfilename, "w")
     return self
@@ -59,7 +59,7 @@ class Reader:
 
   def __enter__(self):
     if ".gz" in self.infilename.suffixes:
-      self.infile = gzip.open(self.infilename, "r")
+      self.infile = gzip.open(self.infilename, "rt")
     else:
       self.infile = open(self.infilename, "r")
     return self
diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index b5b3c37..5ad55d7 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -36,7 +36,7 @@ class Writer:
   def __enter__(self):
     if self.outfilename:
       if ".gz" in self.outfilename.suffixes:
-        self.outfile = gzip.open(self.outfilename, "w")
+        self.outfile = gzip.open(self.outfilename, "wt")
       else:
         self.outfile = open(self.outfilename, "w")
     return self
@@ -80,7 +80,7 @@ class Reader:
   def __enter__(self):
     if self.infilename:
       if ".gz" in self.infilename.suffixes:
-        self.infile = gzip.open(self.infilename, "r")
+        self.infile = gzip.open(self.infilename, "rt")
       else:
         self.infile = open(self.infilename, "r")
     return self
-- 
2.43.0


From c381eb77fdc4604841148c497c136ddae416dde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:49 +0000
Subject: [PATCH 29/71] fix: writing in Morphett format changed the machine

---
 Code/IO/Morphett.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 9a9f15f..17d90b2 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -33,7 +33,7 @@ class Writer:
   def write_record(self, tm_record : TM_Record) -> None:
     tm = tm_record.tm()
     # Morphett uses _ for blank symbol.
-    tm.symbols[0] = "_"
+    symbols = ["_"] + list(tm.symbols[1:])
     for state_in in range(tm.num_states):
       for symbol_in in range(tm.num_symbols):
         trans = tm.get_trans_object(symbol_in, state_in)
@@ -43,8 +43,8 @@ class Writer:
           else:
             state_out = tm.states[trans.state_out]
           # Write out one quintuple per line.
-          print(tm.states[state_in], tm.symbols[symbol_in],
-                tm.symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
+          print(tm.states[state_in], symbols[symbol_in],
+                symbols[trans.symbol_out], DIRS[trans.dir_out], state_out,
                 file=self.outfile)
 
   def flush(self):
-- 
2.43.0


From a0425112e8c50370b521e9bbc0780125eef9cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 30/71] fix: Morphett files of machines with unused states or
 symbols

---
 Code/IO/Morphett.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 17d90b2..54f826e 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -87,6 +87,12 @@ class Reader:
           states.append(state_in)
         if symbol_in not in symbols:
           symbols.append(symbol_in)
+    # Add states and symbols for which all transitions are undefined.
+    for (_, _, symbol_out, _, state_out) in quints:
+      if state_out != -1 and state_out not in states:
+        states.append(state_out)
+      if symbol_out not in symbols:
+        symbols.append(symbol_out)
     tm = Turing_Machine.tm_from_quintuples(quints, states, symbols)
     tm_enum = TM_Enum.TM_Enum(tm, allow_no_halt = False)
     tm_record = TM_Record.TM_Record(tm_enum = tm_enum)
-- 
2.43.0


From 5b2ce00f104dadd1b25753040594cd214b53e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 31/71] fix: Morphett reader read unsupported moves as some
 machine

---
 Code/IO/Morphett.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Code/IO/Morphett.py b/Code/IO/Morphett.py
index 54f826e..056ba94 100644
--- a/Code/IO/Morphett.py
+++ b/Code/IO/Morphett.py
@@ -10,6 +10,8 @@ from Macro import Turing_Machine
 import TM_Enum
 
 
+class IO_Error(Exception): pass
+
 DIRS = "lr"
 
 
@@ -81,6 +83,8 @@ class Reader:
         (state_in, symbol_in, symbol_out, dir_out, state_out) = line.split()
         if state_out.lower().startswith("halt"):
           state_out = -1
+        if dir_out not in DIRS or "*" in (state_in, symbol_in, symbol_out, state_out):
+          raise IO_Error(f"Unsupported transition (only moves l and r, no wildcards): {line}")
         dir_out = DIRS.find(dir_out)
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
         if state_in not in states:
-- 
2.43.0


From a06204ffc060344dbf847ba8b758f0cd000cd4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 32/71] fix: text that is no machine was accepted by parse_tm

---
 Code/IO/TM_Record.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Code/IO/TM_Record.py b/Code/IO/TM_Record.py
index b8c2050..c901f0b 100644
--- a/Code/IO/TM_Record.py
+++ b/Code/IO/TM_Record.py
@@ -19,6 +19,7 @@ def parse_tm(line : str) -> Turing_Machine.Simple_Machine:
   num_states = len(rows)
   max_symbol = 0
   for state_in, row in enumerate(rows):
+    assert row and len(row) == len(rows[0]), f"Invalid TM format: {line}"
     for symbol_in, i in enumerate(range(0, len(row), 3)):
       max_symbol = max(max_symbol, symbol_in)
       trans_str = row[i:i+3]
@@ -27,11 +28,11 @@ def parse_tm(line : str) -> Turing_Machine.Simple_Machine:
         symbol_out = SYMBOLS_DISPLAY.find(trans_str[0])
         dir_out = DIRS_DISPLAY.find(trans_str[1])
         state_out = STATES_DISPLAY.find(trans_str[2])
+        assert symbol_out >= 0, trans_str
+        assert dir_out in [0, 1], trans_str
+        assert state_out >= 0, trans_str
         if state_out >= num_states:
           state_out = -1
-        assert symbol_out >= 0
-        assert dir_out in [0, 1]
-        assert state_out >= -1
         quints.append((state_in, symbol_in, symbol_out, dir_out, state_out))
   return Turing_Machine.tm_from_quintuples(quints, states = list(range(num_states)),
                                            symbols = list(range(max_symbol + 1)))
-- 
2.43.0


From fe97c30b5ae6d3a6967eab10581e3c2e8cbe0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 33/71] fix: skip_record on BBC databases

---
 Code/IO/BBC.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index a08720b..7564f03 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -107,9 +107,8 @@ class Reader:
 
   def skip_record(self) -> bool:
     """Skip ahead 1 record. Return False if no records left in file."""
-    # whence = 1 means (from current position).
-    pb_bytes = self.infile.seek(_BYTES_PER_RECORD, 1)
-    return pb_bytes == _BYTES_PER_RECORD
+    tm_bytes = self.infile.read(_BYTES_PER_RECORD)
+    return len(tm_bytes) == _BYTES_PER_RECORD
 
   def get_tm(self, tm_num) -> TM_Record:
     # whence = 0 means (from the start).
-- 
2.43.0


From 31797e62a392c31fcf10a6cfa976214b373843d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 34/71] fix: BBC index readers could not be used in a with
 statement

---
 Code/IO/BBC.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Code/IO/BBC.py b/Code/IO/BBC.py
index 7564f03..0dde688 100644
--- a/Code/IO/BBC.py
+++ b/Code/IO/BBC.py
@@ -146,6 +146,7 @@ class IndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "rb")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
@@ -163,7 +164,7 @@ class IndexReader:
         return
       elif len(n_bytes) != 4:
         raise IO_Error("Unexpected EOF while reading block "
-                       f"(expected 4 bytes, got {len(len_bytes)}).")
+                       f"(expected 4 bytes, got {len(n_bytes)}).")
       # Big Endian (>), 4 bytes (L).
       yield struct.unpack(">L", n_bytes)[0]
 
@@ -177,6 +178,7 @@ class TextIndexReader:
   def __enter__(self):
     self.db_reader.__enter__()
     self.index_file = open(self.index_filename, "r")
+    return self
 
   def __exit__(self, *args):
     self.db_reader.__exit__(args)
-- 
2.43.0


From 0e3f4a4365d1037eb96547177ae5af9c34dc98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 35/71] fix: old text format of machines that are not stored
 packed

---
 Code/IO/OldText.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/IO/OldText.py b/Code/IO/OldText.py
index 8865f50..8951967 100644
--- a/Code/IO/OldText.py
+++ b/Code/IO/OldText.py
@@ -118,7 +118,7 @@ class ReaderWriter(object):
     io_record = Record()
     if self.log_number is not None:
       io_record.log_number = self.log_number
-    io_record.tm = TM_Record.unpack_tm(tm_record.proto.tm.ttable_packed)
+    io_record.tm = tm_record.tm()
 
     if tm_record.is_unknown_halting():
       io_record.category = Exit_Condition.UNKNOWN
-- 
2.43.0


From 2e4f0ae560434ce3dd728a7755fbe00067839d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:50 +0000
Subject: [PATCH 36/71] fix: machines too large for the standard text format
 were written as an empty line

---
 Code/IO/StdText.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Code/IO/StdText.py b/Code/IO/StdText.py
index 5ad55d7..c397b78 100644
--- a/Code/IO/StdText.py
+++ b/Code/IO/StdText.py
@@ -22,6 +22,12 @@ import TM_Enum
 
 parse_tm = TM_Record.parse_tm
 
+def format_tm(tm : Turing_Machine.Simple_Machine) -> str:
+  tm_str = tm.ttable_str()
+  if not tm_str:
+    raise ValueError(f"Cannot write {tm.num_states}x{tm.num_symbols} TM in standard text format.")
+  return tm_str
+
 class Writer:
   def __init__(self, source : Path | str | TextIO):
     self.outfilename : Path | None
@@ -46,7 +52,7 @@ class Writer:
       self.outfile.close()
 
   def write_record(self, tm_record : TM_Record) -> None:
-    self.outfile.write(tm_record.tm().ttable_str())
+    self.outfile.write(format_tm(tm_record.tm()))
     halt_status = tm_record.proto.status.halt_status
     if halt_status.is_halting:
       # Remove _ from int strings so that we can sort them with `sort`.
@@ -59,7 +65,7 @@ class Writer:
 
   def write_tm(self, tm : Turing_Machine.Simple_Machine) -> None:
     """Convenience method to just write a TM directly without wrapping it in a record."""
-    self.outfile.write(tm.ttable_str())
+    self.outfile.write(format_tm(tm))
     self.outfile.write("\n")
 
   def flush(self):
-- 
2.43.0


From b62508085c38e082cc1b4872d34d5339f88df5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:00 +0000
Subject: [PATCH 37/71] fix: tall exponent towers could not be stored in a
 record

Pickling recursed through the exponents and failed with RecursionError for
formulas with more than about a thousand layers (the arithmetic supports 10,000).
---
 Code/Exp_Int.py | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 5059a83..e2086bf 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -294,6 +294,37 @@ def leading_term(terms, const):
   return (coef, exponent)
 
 
+def flatten(x):
+  """List all ExpInts nested inside of `x`, each one after the ones it depends upon.
+  Exponents which are ExpInts are replaced by the (wrapped) index of their entry."""
+  layers = []
+  index = {}
+  todo = [x]
+  while todo:
+    y = todo[-1]
+    nested = [term.exponent for term in y.terms
+              if isinstance(term.exponent, ExpInt) and id(term.exponent) not in index]
+    if nested:
+      todo += nested
+    else:
+      todo.pop()
+      if id(y) not in index:
+        index[id(y)] = len(layers)
+        layers.append((y.const, y.denom, [
+          (term.base, term.coef,
+           (index[id(term.exponent)],) if isinstance(term.exponent, ExpInt) else term.exponent)
+          for term in y.terms]))
+  return layers
+
+def unflatten(layers):
+  values = []
+  for (const, denom, terms) in layers:
+    values.append(ExpInt(
+      [ExpTerm(base, coef, values[exponent[0]] if isinstance(exponent, tuple) else exponent)
+       for (base, coef, exponent) in terms], const, denom))
+  return values[-1]
+
+
 class ExpInt:
   """An integer represented by a formula: `(a1 b^n1 + a2 b^n2 + ... + c) / d` """
   def __init__(self, terms, const : int, denom : int):
@@ -410,6 +441,11 @@ class ExpInt:
   def tex_formula(self):
     return tex_formula(self)
 
+  def __reduce__(self):
+    # Pickle as a flat list of all the layers. Default pickling would recurse
+    # through the exponents and fail (RecursionError) for tall towers.
+    return (unflatten, (flatten(self),))
+
   def __repr__(self):
     return self.formula_str
   def __str__(self):
-- 
2.43.0


From 52f00dddf1da6c59b4f0a1baa80b40c3c73fced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:47 +0000
Subject: [PATCH 38/71] fix: skipping records counted a truncated record as
 complete

Seeking past the end of a file is not an error, so IO_Count reported one record
too many (without any error) for a file cut off inside its last record.
---
 Code/IO/Proto.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Code/IO/Proto.py b/Code/IO/Proto.py
index 9f0317a..45338f1 100644
--- a/Code/IO/Proto.py
+++ b/Code/IO/Proto.py
@@ -107,8 +107,13 @@ class Reader:
     """Skip ahead 1 record. Return False if no records left in file."""
     pb_len = self._read_message_len()
     if pb_len != None:
-      # Skip ahead pb_len bytes.
-      pb_bytes = self.infile.seek(pb_len, 1)
+      # Skip ahead pb_len bytes. Seeking past the end of the file is not an error,
+      # so read the last byte to make sure that the whole record is there.
+      if pb_len > 0:
+        self.infile.seek(pb_len - 1, 1)
+        if not self.infile.read(1):
+          raise IO_Error("Unexpected EOF while skipping data block "
+                         f"(expected {pb_len} bytes)")
       return True
     return False
 
-- 
2.43.0


From 357c14c6cc4be7ee49d1112d5242a65bd1a1af55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:07 +0000
Subject: [PATCH 39/71] fix: TNF ordered symbols by first read instead of first
 write

Tree Normal Form (as produced by Enumerate / TM_Enum) numbers symbols in
the order they are first written. Machines which write two new symbols
before reading either back were changed although already in TNF.
---
 Code/TNF.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Code/TNF.py b/Code/TNF.py
index 777d178..149e5f6 100755
--- a/Code/TNF.py
+++ b/Code/TNF.py
@@ -65,15 +65,18 @@ def to_TNF(tm : Turing_Machine.Simple_Machine, max_steps : int) -> Turing_Machin
     if sim.step_num > max_steps or sim.halted:
       return None
 
+    cur_trans = tm.get_trans_object(sim.tape.read(), sim.state)
     sim.step()
 
     if sim.state in unordered_states:
       state_order.append(sim.state)
       unordered_states.remove(sim.state)
-    cur_symb = sim.tape.read()
-    if cur_symb in unordered_symbols:
-      symbol_order.append(cur_symb)
-      unordered_symbols.remove(cur_symb)
+    # Symbols are ordered by when they are first written (like states by when
+    # they are first entered), same as in TM_Enum and Enumerate.
+    if (cur_trans.condition == Turing_Machine.RUNNING
+        and cur_trans.symbol_out in unordered_symbols):
+      symbol_order.append(cur_trans.symbol_out)
+      unordered_symbols.remove(cur_trans.symbol_out)
 
     if len(unordered_states) == 1:
       state_order.append(unordered_states.pop())
-- 
2.43.0


From 2ae9a7e126a2496b72a26f56a58108f342c07ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:18 +0000
Subject: [PATCH 40/71] fix: LNF was not the least permutation of the machine

Both directions are now tried for every permutation. Before, the choice was
made from the (old symbol 0) transition of the first state, which is wrong if
that is not the first cell of the permuted table or if it halts, and the
unpermuted machine was considered without standardizing its halts.
---
 Code/LNF.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/Code/LNF.py b/Code/LNF.py
index bc53e52..85aa572 100644
--- a/Code/LNF.py
+++ b/Code/LNF.py
@@ -10,9 +10,7 @@ from Macro import Turing_Machine
 import TNF
 
 
-def permute(old_tm, state_order, symbol_order):
-  # L < R
-  swap_dirs = (old_tm.trans_table[state_order[0]][0].dir_out == Turing_Machine.RIGHT)
+def permute(old_tm, state_order, symbol_order, swap_dirs):
   perm_tm = TNF.permute_table(old_tm, state_order, symbol_order, swap_dirs)
 
   # Find new state number corresponding to start state (old 0) and symbol.
@@ -38,16 +36,19 @@ def iter_perms(xs):
 
 def brute_lnf(old_tm):
   """Calculate LNF using brute-force method."""
-  best_str = old_tm.ttable_str()
-  best_tm = old_tm
+  best_str = None
+  best_tm = None
   for state_order in iter_perms(list(range(old_tm.num_states))):
     for symbol_order in iter_perms(list(range(old_tm.num_symbols))):
-      perm_tm = permute(old_tm, state_order, symbol_order)
-      perm_str = perm_tm.ttable_str()
-      # print(f" Debug: {state_order} / {perm_str}")
-      if perm_str < best_str:
-        best_str = perm_str
-        best_tm = perm_tm
+      # Try both directions: which is smaller depends upon the first transition
+      # (of the permuted table) which actually moves.
+      for swap_dirs in (False, True):
+        perm_tm = permute(old_tm, state_order, symbol_order, swap_dirs)
+        perm_str = perm_tm.ttable_str()
+        # print(f" Debug: {state_order} / {perm_str}")
+        if best_str is None or perm_str < best_str:
+          best_str = perm_str
+          best_tm = perm_tm
   return best_tm
 
 
-- 
2.43.0


From 217081fdc958a1e3e5cd1d7d86cbeefea6de219a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 41/71] fix: malformed TM lines made the C++ programs read out
 of bounds

Truncated transitions, rows of different lengths, empty lines and transitions
to states or symbols which are not in the table are refused now.
---
 cpp/src/turing_machine.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 443fe8a..79fe945 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -134,6 +134,7 @@ TuringMachine* ReadTuringMachine(std::istream* instream,
       // Each trans in a row takes up exactly 3 bytes, Ex: "1RB".
       // End of row is indicated by an underscore ("_").
       for (;i < line.size() && line[i] != '_'; i += 3) {
+        ASSERT(i + 3 <= line.size());
         TuringMachine::LookupResult trans;
         if (line[i] == '-') {
           // Undecided transition
@@ -165,6 +166,18 @@ TuringMachine* ReadTuringMachine(std::istream* instream,
       transitions.push_back(row);
       i += 1;
     }
+
+    // Make sure that the TM can't leave the table.
+    ASSERT(!transitions.empty());
+    const int num_states = transitions.size();
+    const int num_symbols = transitions[0].size();
+    for (const auto& row : transitions) {
+      ASSERT(row.size() == num_symbols && num_symbols > 0);
+      for (const auto& trans : row) {
+        ASSERT(trans.state < num_states);
+        ASSERT(trans.symbol < num_symbols || trans.state < 0);
+      }
+    }
     return new TuringMachine(transitions, base_name);
   } else {
     // Couldn't read line, so we're done.
-- 
2.43.0


From e63f27f45e312139e9a7fb487cae18334c0907af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 42/71] fix: direct_sim and lin_recur crashed if there is no
 such TM

They dereferenced a null pointer if the file does not exist or has no such
line (and lin_recur shifted by out of range amounts).
---
 cpp/src/direct_sim.cpp     | 4 ++++
 cpp/src/lin_recur_main.cpp | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/cpp/src/direct_sim.cpp b/cpp/src/direct_sim.cpp
index 5a07653..29e6d47 100644
--- a/cpp/src/direct_sim.cpp
+++ b/cpp/src/direct_sim.cpp
@@ -15,6 +15,10 @@ void DirectSimMain(const std::string& tm_filename, const long line_num,
                    const long num_steps) {
   std::unique_ptr<TuringMachine> tm(
     ReadTuringMachine(tm_filename, line_num));
+  if (tm == nullptr) {
+    std::cerr << "No TM at line " << line_num << " of " << tm_filename << std::endl;
+    std::exit(1);
+  }
 
   std::cout << "Starting simulation" << std::endl;
   Timer timer;
diff --git a/cpp/src/lin_recur_main.cpp b/cpp/src/lin_recur_main.cpp
index 2fa04fa..072f087 100644
--- a/cpp/src/lin_recur_main.cpp
+++ b/cpp/src/lin_recur_main.cpp
@@ -17,6 +17,10 @@ void LinRecurMain(const std::string& tm_filename, const long line_num,
                   const long max_steps) {
   std::unique_ptr<TuringMachine> tm(
     ReadTuringMachine(tm_filename, line_num));
+  if (tm == nullptr) {
+    std::cerr << "No TM at line " << line_num << " of " << tm_filename << std::endl;
+    std::exit(1);
+  }
 
   std::cout << "Running Lin Recur Detection" << std::endl;
   Timer timer;
@@ -50,6 +54,10 @@ int main(int argc, char* argv[]) {
     const std::string tm_filename(argv[1]);
     const long line_num = std::stol(argv[2]);
     const long log2_max_steps = std::stol(argv[3]);
+    if (log2_max_steps < 0 || log2_max_steps > 62) {
+      std::cerr << "log2(max_steps) must be between 0 and 62" << std::endl;
+      return 1;
+    }
     const long max_steps = 1L << log2_max_steps;  // 2^log2_max_steps
 
     busy_beaver::LinRecurMain(tm_filename, line_num, max_steps);
-- 
2.43.0


From 148574942301d167354007ac9da8b72b8e2f27ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 43/71] fix: C++ LinRecurDetect with max_steps <= 1

It returned an uninitialized max_ref_config_step and did not notice machines
halting on the first step.
---
 cpp/src/lin_recur.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/src/lin_recur.cpp b/cpp/src/lin_recur.cpp
index 54e2bcd..ceafcb0 100644
--- a/cpp/src/lin_recur.cpp
+++ b/cpp/src/lin_recur.cpp
@@ -44,8 +44,12 @@ LinRecurResult LinRecurDetect(const TuringMachine& tm, const long max_steps) {
   // TODO: states_last_seen = {sim.state: sim.step_num}
   // TODO: Consider Seek(1024) or something like this to avoid lots of early copies.
   sim.Step();
+  if (sim.is_halted()) {
+    return {true, false, 0, 0, 0, sim.last_state(), sim.last_symbol(),
+            0, sim.step_num()};
+  }
 
-  long init_step_num;
+  long init_step_num = 0;
   while (sim.step_num() < max_steps) {
     init_step_num = sim.step_num();
     const long steps_reset = 2 * init_step_num;
-- 
2.43.0


From cca6b07073a16f2014b13e933239453af3daaa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 44/71] fix: lr_enum only_unknown was uninitialized when built
 without Boost

---
 cpp/src/lin_recur_enumerator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/src/lin_recur_enumerator.cpp b/cpp/src/lin_recur_enumerator.cpp
index 7cc0ffc..6a2b627 100644
--- a/cpp/src/lin_recur_enumerator.cpp
+++ b/cpp/src/lin_recur_enumerator.cpp
@@ -33,6 +33,7 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     out_unknown_stream_(&out_unknown_buf_),
 #endif
     max_steps_(max_steps),
+    only_unknown(only_unknown_in),
     proc_id_(proc_id)
 {
 #ifdef BOOST_FOUND
@@ -42,8 +43,6 @@ LinRecurEnum::LinRecurEnum(const bool allow_no_halt,
     file_suffix = ".gz";
   }
 
-  only_unknown = only_unknown_in;
-
   out_halt_stream_2_   .open(out_halt_filename    + file_suffix, std::ios::out | std::ios::binary);
   out_inf_stream_2_    .open(out_inf_filename     + file_suffix, std::ios::out | std::ios::binary);
   out_unknown_stream_2_.open(out_unknown_filename + file_suffix, std::ios::out | std::ios::binary);
-- 
2.43.0


From 6a2679a404a8b68dfe226a9b5b8e2fe40008195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 45/71] fix: continued C++ enumeration counted undecided cells
 as writing symbol 1

So for TMs which had only written 0s so far (lb_enum starts with A0->0R?) the
continued enumeration also listed TMs writing 2 before 1 (not in TNF).
---
 cpp/src/turing_machine.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 79fe945..33a623c 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -31,7 +31,9 @@ TuringMachine::TuringMachine(
   for (const auto& row : transitions_) {
     for (const LookupResult& trans : row) {
       max_state = std::max(max_state, trans.state);
-      max_symbol = std::max(max_symbol, trans.symbol);
+      if (!trans.undecided) {
+        max_symbol = std::max(max_symbol, trans.symbol);
+      }
       if (trans.state < 0) {
         num_halts += 1;
       }
-- 
2.43.0


From e3db1c2b8e6f4f50f25ba78e3d501fa343405ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:38 +0000
Subject: [PATCH 46/71] fix: enumerating TMs with 1 state or 1 symbol accessed
 out of bounds

lb_enum 1 2 tried transitions to state B and lr_enum always starts with 1RB.
---
 cpp/src/lr_enum.cpp        | 4 ++++
 cpp/src/turing_machine.cpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/cpp/src/lr_enum.cpp b/cpp/src/lr_enum.cpp
index 516784b..850620e 100644
--- a/cpp/src/lr_enum.cpp
+++ b/cpp/src/lr_enum.cpp
@@ -49,6 +49,10 @@ int main(int argc, char* argv[]) {
   } else {
     const int num_states = std::stoi(argv[1]);
     const int num_symbols = std::stoi(argv[2]);
+    if (num_states < 2 || num_symbols < 2) {
+      std::cerr << "lr_enum needs at least 2 states and 2 symbols" << std::endl;
+      return 1;
+    }
     const long max_steps = std::stol(argv[3]);
     const std::string out_halt_filename(argv[4]);
     const std::string out_inf_filename(argv[5]);
diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 33a623c..13f6079 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -10,7 +10,8 @@ namespace busy_beaver {
 // Empty TM
 TuringMachine::TuringMachine(int num_states, int num_symbols)
     : num_states_(num_states), num_symbols_(num_symbols),
-      max_next_state_(1), max_next_symbol_(1),
+      max_next_state_(std::min(1, num_states - 1)),
+      max_next_symbol_(std::min(1, num_symbols - 1)),
       next_move_left_ok_(false), num_halts_(num_states * num_symbols),
       hereditary_name_() {
   const LookupResult empty_trans = {1, +1, HaltState, true};
-- 
2.43.0


From ca4334bced09c5878d1e290fa3c1e5bb88838de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:15 +0000
Subject: [PATCH 47/71] fix: continued C++ enumeration of the blank TM also
 moved left first

lb_enum with 0 initial steps leaves just the blank TM to continue from. All TMs
and their mirror images were enumerated instead of only those in TNF.
---
 cpp/src/turing_machine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/src/turing_machine.cpp b/cpp/src/turing_machine.cpp
index 13f6079..f2005bd 100644
--- a/cpp/src/turing_machine.cpp
+++ b/cpp/src/turing_machine.cpp
@@ -29,10 +29,12 @@ TuringMachine::TuringMachine(
   State max_state = 0;
   Symbol max_symbol = 0;
   int num_halts = 0;
+  bool is_blank = true;  // No transition decided yet.
   for (const auto& row : transitions_) {
     for (const LookupResult& trans : row) {
       max_state = std::max(max_state, trans.state);
       if (!trans.undecided) {
+        is_blank = false;
         max_symbol = std::max(max_symbol, trans.symbol);
       }
       if (trans.state < 0) {
@@ -45,8 +47,7 @@ TuringMachine::TuringMachine(
   num_symbols_ = transitions_[0].size();
   max_next_state_ = std::min(max_state + 1, num_states_ - 1);
   max_next_symbol_ = std::min(max_symbol + 1, num_symbols_ - 1);
-  // Assume we aren't starting with completely blank TM.
-  next_move_left_ok_ = true;
+  next_move_left_ok_ = !is_blank;
   num_halts_ = num_halts;
 }
 
-- 
2.43.0


From 069488e9869080432c4d16b7d55198ad748a4331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:28 +0000
Subject: [PATCH 48/71] fix: MPI work queue sliced its job lists with floats

With Python 3 max_queue_size * 3 / 4 is a float, so workers (after the first
queue size update) and master (with long queues) raised TypeError.
---
 Code/MPI_Work_Queue.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/MPI_Work_Queue.py b/Code/MPI_Work_Queue.py
index d0ebed7..ae675ce 100644
--- a/Code/MPI_Work_Queue.py
+++ b/Code/MPI_Work_Queue.py
@@ -131,7 +131,7 @@ class MPI_Worker_Work_Queue(Work_Queue.Work_Queue):
     while comm.Iprobe(source=self.master, tag=UPDATE_MAX_QUEUE_SIZE):
       self.max_queue_size = comm.recv(source=self.master,
                                       tag=UPDATE_MAX_QUEUE_SIZE)
-      self.target_queue_size = self.max_queue_size * 3 / 4
+      self.target_queue_size = self.max_queue_size * 3 // 4
     self.update_max_queue_size_time += self.time_diff()
 
   def _send_extra(self):
@@ -261,7 +261,7 @@ class Master(object):
       worker_queue_size[0] = len(self.master_queue)
       max_queue_size = max(sum(worker_queue_size) // len(worker_queue_size),
                            MAX_NUM_JOBS_PER_BATCH)
-      target_queue_size = max_queue_size * 3 / 4
+      target_queue_size = max_queue_size * 3 // 4
       if time.time() - self.last_update_time > self.update_interval:
         for rank in range(1, num_proc):
           if update_requests[rank]:
-- 
2.43.0


From 027e9d79b806ca67132731dbbf8f78f88d1f673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:40 +0000
Subject: [PATCH 49/71] fix: Lin_Recur filter trusted the result of a previous
 timed out attempt

---
 Code/Lin_Recur_Detect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Code/Lin_Recur_Detect.py b/Code/Lin_Recur_Detect.py
index f4ded59..05f7b96 100644
--- a/Code/Lin_Recur_Detect.py
+++ b/Code/Lin_Recur_Detect.py
@@ -42,6 +42,8 @@ def lin_detect_not_min(tm : Turing_Machine.Simple_Machine,
   """Detect Lin Recurrence without knowing the period or start time.
   The result is a point at which it is in Lin Recurrence, not necessarily the
   time that it has started LR."""
+  # Forget the result of any previous (perhaps timed out) attempt.
+  result.success = False
   sim = Direct_Simulator.DirectSimulator(tm)
   states_last_seen = {sim.state: sim.step_num}
   sim.step()
-- 
2.43.0


From 4fffabca1755c2aa3b5c393bc53b83211aab2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:40 +0000
Subject: [PATCH 50/71] fix: a timeout after the verdict was recorded as out of
 time as well

---
 Code/Macro_Simulator.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Code/Macro_Simulator.py b/Code/Macro_Simulator.py
index d1c0974..deabea3 100755
--- a/Code/Macro_Simulator.py
+++ b/Code/Macro_Simulator.py
@@ -64,8 +64,14 @@ def run_timer(tm_record : TM_Record, options,
 
   except Alarm.AlarmException:
     Alarm.ALARM.cancel_alarm()
-    tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = (
-      time.time() - start_time)
+    status = tm_record.proto.status
+    if not status.quasihalt_status.is_decided:
+      status.ClearField("quasihalt_status")
+    if not status.halt_status.is_decided:
+      # Forget anything we were just in the middle of writing.
+      status.ClearField("halt_status")
+      tm_record.proto.filter.simulator.result.unknown_info.over_time.elapsed_time_sec = (
+        time.time() - start_time)
 
 def run_options(tm_record : TM_Record, options) -> None:
   """Run the Accelerated Turing Machine Simulator, running a few simple filters
-- 
2.43.0


From a29d38ddfceb2e138d55add02f746389031fd393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 51/71] fix: old text format could not be written for some
 kinds of results

---
 Code/IO/OldText.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/Code/IO/OldText.py b/Code/IO/OldText.py
index 8951967..f1c32ed 100644
--- a/Code/IO/OldText.py
+++ b/Code/IO/OldText.py
@@ -30,10 +30,22 @@ inf_reason2str = {
   io_pb2.INF_REVERSE_ENGINEER: "Reverse_Engineer",
   io_pb2.INF_LIN_RECUR: "Lin_Recur",
   io_pb2.INF_CTL: "CTL",
+  io_pb2.INF_BACKTRACK: "Backtrack",
+  io_pb2.INF_CLOSED_GRAPH: "Closed_Graph",
 }
 str2inf_reason = {s: inf_reason for (inf_reason, s) in inf_reason2str.items()}
 
 
+def display_big_int(field):
+  """Integers are written in full, values without a reasonable decimal
+  representation (or missing) as one word."""
+  value = Halting_Lib.get_big_int(field)
+  if isinstance(value, int) and abs(value) < 10**4000:
+    return value
+  else:
+    return Halting_Lib.big_int_approx_str(value)
+
+
 SYMBOLS_DISPLAY = string.digits
 DIRS_DISPLAY = "LR"
 STATES_DISPLAY = string.ascii_uppercase[:-1]  # Don't allow Z
@@ -141,6 +153,9 @@ class ReaderWriter(object):
       elif unk_reason == "over_steps_in_macro":
         reason = Exit_Condition.OVER_STEPS_IN_MACRO
         args = ()
+      elif unk_reason == "threw_exception":
+        reason = Exit_Condition.ERROR
+        args = ()
       else:
         raise Exception(unknown_info)
 
@@ -149,8 +164,8 @@ class ReaderWriter(object):
     elif tm_record.is_halting():
       io_record.category = Exit_Condition.HALT
       io_record.category_reason = (
-        Halting_Lib.get_big_int(tm_record.proto.status.halt_status.halt_score),
-        Halting_Lib.get_big_int(tm_record.proto.status.halt_status.halt_steps))
+        display_big_int(tm_record.proto.status.halt_status.halt_score),
+        display_big_int(tm_record.proto.status.halt_status.halt_steps))
 
     else:
       io_record.category = Exit_Condition.INFINITE
@@ -162,7 +177,7 @@ class ReaderWriter(object):
       elif tm_record.is_quasihalting():
         quasihalt_info = (
           tm_record.proto.status.quasihalt_status.quasihalt_state,
-          Halting_Lib.get_big_int(tm_record.proto.status.quasihalt_status.quasihalt_steps))
+          display_big_int(tm_record.proto.status.quasihalt_status.quasihalt_steps))
 
       else:
         quasihalt_info = ("No_Quasihalt", "N/A")
-- 
2.43.0


From 7cd3fa530c33dd7393c9fdf00fd7779622758fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 52/71] fix: IO_Sample reported one record too many

---
 Code/IO_Sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Code/IO_Sample.py b/Code/IO_Sample.py
index c4e725d..4e87253 100755
--- a/Code/IO_Sample.py
+++ b/Code/IO_Sample.py
@@ -11,7 +11,7 @@ import IO
 
 
 def sample(in_filenames, out_filename, sample_size):
-  num_records = 1
+  num_records = 0
   num_read = 0
   sample = []
   for in_filename in in_filenames:
@@ -23,7 +23,7 @@ def sample(in_filenames, out_filename, sample_size):
               break
             num_read += 1
             sample.append(tm_record)
-          elif random.random() < sample_size / num_records:
+          elif random.random() < sample_size / (num_records + 1):
             # Replace one of the existing sampled TMs with decreasing chance.
             if not (tm_record := reader.read_record()):
               break
-- 
2.43.0


From 78bc8baea67a03d0f761b10f326b3c56adb657ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 53/71] fix: CTL and backtracking filters erased known
 quasihalting results

---
 Code/Backtracking_Filter.py | 1 -
 Code/CTL_Filter.py          | 1 -
 2 files changed, 2 deletions(-)

diff --git a/Code/Backtracking_Filter.py b/Code/Backtracking_Filter.py
index cf60e70..3cd048b 100755
--- a/Code/Backtracking_Filter.py
+++ b/Code/Backtracking_Filter.py
@@ -210,7 +210,6 @@ def backtrack(tm_record, num_steps, max_width):
     info.result.max_width = result.max_width
     info.result.num_nodes = result.num_nodes
     # Note: quasihalting result is not computed when using Backtracking filter.
-    tm_record.proto.status.quasihalt_status.is_decided = False
     if result.success:
       assert not result.halted
       Halting_Lib.set_not_halting(tm_record.proto.status, io_pb2.INF_BACKTRACK)
diff --git a/Code/CTL_Filter.py b/Code/CTL_Filter.py
index d9ad4c5..5540c63 100755
--- a/Code/CTL_Filter.py
+++ b/Code/CTL_Filter.py
@@ -55,7 +55,6 @@ def filter(tm_record, type, block_size, offset, cutoff, use_backsymbol):
       info.result.num_iters = num_iters
       Halting_Lib.set_not_halting(tm_record.proto.status, io_pb2.INF_CTL)
       # Note: quasihalting result is not computed when using CTL filters.
-      tm_record.proto.status.quasihalt_status.is_decided = False
       return True
   return False
 
-- 
2.43.0


From 3382b2b3376309520907b1654c12d335bfc6669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 54/71] fix: Zero_Reflexive divided by zero on an empty file

---
 Code/Zero_Reflexive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/Zero_Reflexive.py b/Code/Zero_Reflexive.py
index 92d41fe..176badd 100644
--- a/Code/Zero_Reflexive.py
+++ b/Code/Zero_Reflexive.py
@@ -41,7 +41,7 @@ def main():
         if num_total % 100_000 == 0:
           print(f" ... {num_zero_reflexive:_} / {num_total:_} = {num_zero_reflexive / num_total:.2%} ({time.time() - start_time:_.0f}s)")
 
-    print(f"# Zero Reflexive TMs: {num_zero_reflexive:_} / {num_total:_} = {num_zero_reflexive / num_total:.2%} ({time.time() - start_time:_.0f}s)")
+    print(f"# Zero Reflexive TMs: {num_zero_reflexive:_} / {num_total:_} = {num_zero_reflexive / max(num_total, 1):.2%} ({time.time() - start_time:_.0f}s)")
 
 if __name__ == "__main__":
   main()
-- 
2.43.0


From ab912cacbd210c02368f11329767020658517fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 55/71] fix: Find_Record only found TMs stored in packed format

---
 Code/Find_Record.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Code/Find_Record.py b/Code/Find_Record.py
index 08dacdc..a4315e5 100755
--- a/Code/Find_Record.py
+++ b/Code/Find_Record.py
@@ -5,15 +5,14 @@ from pathlib import Path
 import time
 
 import IO
-from IO.TM_Record import pack_tm
 
 
 def find(tm_std, in_filename):
   tm = IO.parse_tm(tm_std)
-  ttable_bytes = pack_tm(tm)
+  ttable_str = tm.ttable_str()
   with IO.Reader(in_filename) as reader:
     for record_num, tm_record in enumerate(reader):
-      if tm_record.proto.tm.ttable_packed == ttable_bytes:
+      if tm_record.ttable_str() == ttable_str:
         print(record_num)
         print(tm_record.proto)
         print("ttable:", tm_record.ttable_str())
-- 
2.43.0


From 84daa153f61717f39a2d0a56645070d7a09b95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:07 +0000
Subject: [PATCH 56/71] fix: TM_Analyze failed unless some TM was simulated for
 10 steps

---
 Code/TM_Analyze.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/TM_Analyze.py b/Code/TM_Analyze.py
index 389860f..3a8555e 100755
--- a/Code/TM_Analyze.py
+++ b/Code/TM_Analyze.py
@@ -217,7 +217,7 @@ class TMStats:
     print(f"  - num_loops         : Mean {self.sim_num_loops.mean():9_.0f}  Max {self.sim_num_loops.max_value:9_d}")
     # self.print_hist(self.sim_num_loops.log_hist)
     # print()
-    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_d}")
+    print(f"  - log10(num_steps)  : Mean {self.sim_log10_num_steps.mean():9_.0f}  Max {self.sim_log10_num_steps.max_value:9_d}  Min {self.sim_log10_num_steps.min_value:9_}")
     print(f"  - num_rules_proven  : Mean {self.sim_num_rules_proven.mean():9_.0f}  Max {self.sim_num_rules_proven.max_value:9_d}  (Set in {self.sim_num_rules_proven.count / self.count:7.2%})")
     print(f"  - num_linear_rules  : Mean {self.sim_num_linear_rules_proven.mean():9_.0f}  Max {self.sim_num_linear_rules_proven.max_value:9_d}  (Set in {self.sim_num_linear_rules_proven.count / self.count:7.2%})")
     print(f"  - num_exponential_rules  : Mean {self.sim_num_exponential_rules_proven.mean():9_.0f}  Max {self.sim_num_exponential_rules_proven.max_value:9_d}  (Set in {self.sim_num_exponential_rules_proven.count / self.count:7.2%})")
-- 
2.43.0


From c64b934bf95490fb6fa8e2d6b30c3a6a6174cd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:06 +0000
Subject: [PATCH 57/71] fix: count parser silently ignored text around a term

---
 rust/src/count_expr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index 125c2d0..bf2d1fb 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -751,7 +751,7 @@ impl FromStr for VarSum {
         let parts = s.split('+').collect::<Vec<&str>>();
         for part in parts {
             // Parse things like "12", "x", "2n", "4a" using regular expressions:
-            let re = Regex::new(r"^(?P<coef>\d+)?(?P<var>[a-z])|(?P<const>\d+)$").unwrap();
+            let re = Regex::new(r"^(?:(?P<coef>\d+)?(?P<var>[a-z])|(?P<const>\d+))$").unwrap();
             let caps = re
                 .captures(part)
                 .ok_or(ParseError::CountRegexFailed(part.to_string()))?;
-- 
2.43.0


From 9df710acffa5e265bc5d5c2ddaa346ac4fb53d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:22 +0000
Subject: [PATCH 58/71] fix: bound variables captured free ones in symbolic
 counts

---
 rust/src/count_expr.rs | 63 +++++++++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/rust/src/count_expr.rs b/rust/src/count_expr.rs
index bf2d1fb..aba6bae 100644
--- a/rust/src/count_expr.rs
+++ b/rust/src/count_expr.rs
@@ -171,10 +171,21 @@ impl VarSum {
             };
         }
         // First we add bound variables for all RecursiveExpr substitutions to `new_var_sum`.
-        for (x, count, _) in rec_subst.iter() {
-            // If `x` is free in `expr`, we cannot do the substitution below as simply.
-            // TODO: Replace `x` with a new (unused) variable in this case.
-            assert!(!new_var_sum.free_vars().contains(x));
+        // The bound variable for `rec_expr` is `x`, unless that would capture a variable which is
+        // free in its scope: `new_var_sum` and all of the previous `rec_expr`s.
+        let mut scope_vars = new_var_sum.free_vars();
+        let mut all_vars = scope_vars.clone();
+        for (x, _, rec_expr) in rec_subst.iter() {
+            all_vars.insert(*x);
+            all_vars.extend(rec_expr.free_vars());
+        }
+        for (x, count, rec_expr) in rec_subst.iter_mut() {
+            if scope_vars.contains(x) {
+                *x = Variable::new_unused(&all_vars);
+                all_vars.insert(*x);
+            }
+            scope_vars.insert(*x);
+            scope_vars.extend(rec_expr.free_vars());
             new_var_sum += VarSum::from(*x) * *count;
         }
         // Then, for each RecursiveExpr substitution, we apply the substitution via function application.
@@ -263,6 +274,20 @@ impl Function {
         vars
     }
 
+    // Equivalent function whose bound variable is not in `used_vars`.
+    fn rename_bound_var(&self, used_vars: &HashSet<Variable>) -> Function {
+        if !used_vars.contains(&self.bound_var) {
+            return self.clone();
+        }
+        let mut all_vars = self.expr.free_vars();
+        all_vars.extend(used_vars);
+        let new_var = Variable::new_unused(&all_vars);
+        Function {
+            bound_var: new_var,
+            expr: self.apply(new_var.into()),
+        }
+    }
+
     pub fn is_identity(&self) -> bool {
         self.expr == CountExpr::from(self.bound_var)
     }
@@ -277,7 +302,8 @@ impl Function {
     // Compose two functions (applying the first, first).
     // f.compose(g): x -> g(f(x))
     pub fn compose(&self, g: &Function) -> Function {
-        let f = self.clone();
+        // Make sure that x does not capture a free variable of g.
+        let f = self.rename_bound_var(&g.free_vars());
         Function {
             // x
             bound_var: f.bound_var,
@@ -295,31 +321,36 @@ impl Function {
 
     fn known_equal(&self, other: &Function) -> bool {
         // Support alpha equivalence (two functions being equal up to renaming of bound variables).
-        // TODO: unwrap ...
-        let other_renamed = other
-            .expr
-            .subst(&VarSubst::single(other.bound_var, self.bound_var.into()))
-            .unwrap();
-        self.expr.known_equal(&other_renamed)
+        let renamed = self.rename_bound_var(&other.free_vars());
+        let other_renamed = other.apply(renamed.bound_var.into());
+        renamed.expr.known_equal(&other_renamed)
     }
 }
 
 impl RecursiveExpr {
     pub fn free_vars(&self) -> HashSet<Variable> {
-        let mut vars = self.func.expr.free_vars();
+        let mut vars = self.func.free_vars();
         vars.extend(self.num_repeats.free_vars());
         vars.extend(self.base.free_vars());
         vars
     }
 
     pub fn subst(&self, var_subst: &VarSubst) -> Result<RecursiveExpr, VarSubstError> {
+        // The bound variable must not capture variables which are substituted into the function.
+        let subst_vars = self
+            .func
+            .free_vars()
+            .iter()
+            .filter_map(|x| var_subst.get(x))
+            .flat_map(|expr| expr.free_vars())
+            .collect();
+        let func = self.func.rename_bound_var(&subst_vars);
         let new_func = Function {
-            bound_var: self.func.bound_var,
-            expr: self
-                .func
+            bound_var: func.bound_var,
+            expr: func
                 .expr
                 // Ignore the bound variable in the substitution!
-                .subst(&var_subst.without(&self.func.bound_var))?,
+                .subst(&var_subst.without(&func.bound_var))?,
         };
         Ok(RecursiveExpr {
             func: Box::new(new_func),
-- 
2.43.0


From 0dbb90874ca544619ca2bbf2b231c76417ba730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:48 +0000
Subject: [PATCH 59/71] fix: substitution ignored variables in exponential
 coefficients

x * 2^x with x := 3 became 3 * 2^x (and such an expression was taken to be
linear).
---
 Code/Algebraic_Expression.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Code/Algebraic_Expression.py b/Code/Algebraic_Expression.py
index baf6c24..8e65c31 100644
--- a/Code/Algebraic_Expression.py
+++ b/Code/Algebraic_Expression.py
@@ -147,7 +147,8 @@ class Term:
 
   def substitute(self, subs):
     """Substitute values from dict 'subs' to get an int."""
-    return reduce(operator.mul, [vp.substitute(subs) for vp in self.vars]) * self.coef
+    return (reduce(operator.mul, [vp.substitute(subs) for vp in self.vars])
+            * substitute(self.coef, subs))
 
 def Term_from_string(input):
   input_split = input.split()
@@ -243,7 +244,8 @@ class Expression:
 
   def substitute(self, subs):
     """Substitute values from dict 'subs' to get an int."""
-    val = sum([t.substitute(subs) for t in self.terms]) + self.const
+    val = (sum([t.substitute(subs) for t in self.terms])
+           + substitute(self.const, subs))
     return simp_frac(val)
 
 
@@ -278,7 +280,8 @@ class Expression:
   def as_strictly_linear(self):
     """Returns (var, slope, const) if this is a linear (non-constant) expression."""
     if (len(self.terms) == 1 and len(self.terms[0].vars) == 1 and
-            self.terms[0].vars[0].pow == 1):
+            self.terms[0].vars[0].pow == 1 and
+            all(is_const(scalar) for scalar in self.scalars())):
       return (self.terms[0].vars[0].var, self.terms[0].coef, self.const)
 
   def variable_restricted(self):
-- 
2.43.0


From 469cb5478b839e0e331ca119321b4c2317b63c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 60/71] fix: multiplying powers with variables raised
 AttributeError

---
 Code/Exp_Int.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index e2086bf..427b254 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -56,6 +56,9 @@ def is_simple(value):
 def try_eval(x):
   """Return integer value (if it's small enough) or None (if too big)."""
   if isinstance(x, (ExpInt, ExpTerm)):
+    if not x.is_const:
+      # Contains variables, no single value.
+      return None
     (height, top) = x.tower_value
     assert top >= 0, (top, x.formula_str)
     if height == 0:
-- 
2.43.0


From 889f2db631b3703c1cb497163e550ea301067ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:23 +0000
Subject: [PATCH 61/71] fix: linear rule with two decreasing exponents crashed
 inside a proof

---
 Code/Macro/Proof_System.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Code/Macro/Proof_System.py b/Code/Macro/Proof_System.py
index 41e6d8f..81e2b30 100755
--- a/Code/Macro/Proof_System.py
+++ b/Code/Macro/Proof_System.py
@@ -1279,6 +1279,12 @@ class Proof_System(object):
     for i, (cur, func) in enumerate(zip(current_list, rule.func_list)):
       if func and func.is_decreasing:
         this_reps, this_final = func.max_reps(cur)
+        if num_reps is not None and not (is_const(num_reps) and is_const(this_reps)):
+          # Which one is smaller depends on the values of the variables.
+          if self.verbose:
+            self.print_this("++ Multiple decreasing exponents for expressions ++")
+            print()
+          return False, None
         if not num_reps or this_reps < num_reps:
           num_reps = this_reps
           limit_index = i
-- 
2.43.0


From c62431a95238db0a50889addd758e52dae4d3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:59 +0000
Subject: [PATCH 62/71] fix: power sums with constant and variable terms
 crashed

---
 Code/Exp_Int.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 427b254..3cf3697 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -215,12 +215,14 @@ class ExpTerm:
       self.vars = variables(self.coef) | variables(self.exponent)
 
   def min_val(self):
+    if self.is_const:
+      return self.coef * exp_int(self.base, self.exponent)
     return self.min_value
   def variables(self):
     return self.vars
   def substitute(self, assignment):
     if self.is_const:
-      return self
+      return self.coef * exp_int(self.base, self.exponent)
     new_coef = substitute(self.coef, assignment)
     new_exp = substitute(self.exponent, assignment)
     return new_coef * exp_int(self.base, new_exp)
@@ -415,7 +417,7 @@ class ExpInt:
 
     else:  # not self.is_const
       assert is_const(self.denom), self
-      min_terms = [term.min_value for term in self.terms]
+      min_terms = [term.min_val() for term in self.terms]
       if -math.inf in min_terms:
         self.min_value = -math.inf
       else:
@@ -427,7 +429,7 @@ class ExpInt:
         assert isinstance(self.min_value, (ExpInt, int)), self
       self.vars = set(variables(self.const) | variables(self.denom))
       for term in self.terms:
-        self.vars.update(term.vars)
+        self.vars.update(variables(term))
       self.vars = frozenset(self.vars)
 
   def min_val(self):
-- 
2.43.0


From 5485eed22c2fc3cc8e25e75531f65f1ace0899df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:00 +0000
Subject: [PATCH 63/71] fix: venn_diff crashed on a repeated common line

---
 Tools/venn_diff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/venn_diff.py b/Tools/venn_diff.py
index f2e32a7..2994360 100755
--- a/Tools/venn_diff.py
+++ b/Tools/venn_diff.py
@@ -20,7 +20,7 @@ def venn_diff(in_left, in_right, out_inter, out_lonly, out_ronly):
   for line in in_right:
     if line in left_all:
       # Line is in both left and right
-      left_only.remove(line)
+      left_only.discard(line)
       out_inter.write(line)
 
     else:
-- 
2.43.0


From b325e2a32ac06239c0938933e7198f38542b0a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:37 +0000
Subject: [PATCH 64/71] fix: substituting 0 into an exponent evaluated the
 power to a float

---
 Code/Exp_Int.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/Exp_Int.py b/Code/Exp_Int.py
index 3cf3697..3fc680f 100644
--- a/Code/Exp_Int.py
+++ b/Code/Exp_Int.py
@@ -441,7 +441,10 @@ class ExpInt:
       return self
     numer = sum(term.substitute(assignment) for term in self.terms)
     numer += substitute(self.const, assignment)
-    return numer / substitute(self.denom, assignment)
+    denom = substitute(self.denom, assignment)
+    if isinstance(numer, int):
+      return numer // denom
+    return numer / denom
 
   def tex_formula(self):
     return tex_formula(self)
-- 
2.43.0


From 76d7912974481a03f8ed02de3932743fcffb7db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:15 +0000
Subject: [PATCH 65/71] fix: compare the size of unknown.pb as a number in
 filter.sh

---
 Tools/filter.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/filter.sh b/Tools/filter.sh
index ee139aa..6507fc0 100755
--- a/Tools/filter.sh
+++ b/Tools/filter.sh
@@ -37,6 +37,6 @@ cp ${WORK_DIR}/unknown.pb ${ROOT_DIR}/unknown.pb
 # Human readable stuff
 time ${TOOLS_DIR}/../Code/TM_Analyze.py ${WORK_DIR}/out.pb
 # Only convert to text if it's reasonably small.
-if [[ "$(wc -c < ${ROOT_DIR}/unknown.pb)" < 1000000 ]]; then
+if (( $(wc -c < ${ROOT_DIR}/unknown.pb) < 1000000 )); then
   ${TOOLS_DIR}/../Code/IO_Convert.py ${ROOT_DIR}/unknown.{pb,txt}
 fi
-- 
2.43.0


From 0934306dde8fb6cf669f2e33021841bcf993efd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:16 +0000
Subject: [PATCH 66/71] fix: compare the size of unknown.txt as a number in
 sbatch_filter_setup.sh

---
 Tools/sbatch_filter_setup.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/sbatch_filter_setup.sh b/Tools/sbatch_filter_setup.sh
index e1de59c..e9ddf82 100644
--- a/Tools/sbatch_filter_setup.sh
+++ b/Tools/sbatch_filter_setup.sh
@@ -22,7 +22,7 @@ rm -rf ${WORK_DIR}
 mkdir -p ${WORK_DIR}/split/in/ ${WORK_DIR}/logs/
 
 # Pull in holdouts from previous filter (skip this copy if holdouts file is too large).
-if [[ "$(wc -c < ${ROOT_DIR}/unknown.txt)" < 10000000000 ]]; then
+if (( $(wc -c < ${ROOT_DIR}/unknown.txt) < 10000000000 )); then
   cp ${ROOT_DIR}/unknown.txt ${WORK_DIR}/in.txt
 fi
 
-- 
2.43.0


From 7eb6c77f01c38b0f902a72daafbbc9e00b5a6f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:16 +0000
Subject: [PATCH 67/71] fix: merge halt.unk.pb and qhalt.unk.pb of all shards
 in sbatch_filter_finish.sh

---
 Tools/sbatch_filter_finish.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Tools/sbatch_filter_finish.sh b/Tools/sbatch_filter_finish.sh
index c41f8e8..44ffa12 100644
--- a/Tools/sbatch_filter_finish.sh
+++ b/Tools/sbatch_filter_finish.sh
@@ -31,7 +31,7 @@ fi
 cat ${WORK_DIR}/split/0*/unknown.txt > ${ROOT_DIR}/unknown.txt
 
 # Combine outputs
-for x in halt.{small,large}.pb unknown.pb qhalt.{small,large}.pb infinite.pb; do
+for x in halt.{small,large,unk}.pb unknown.pb qhalt.{small,large,unk}.pb infinite.pb; do
   cat ${WORK_DIR}/split/0*/${x} > ${WORK_DIR}/${x}
 done
 
-- 
2.43.0


From fd3ad6585c9d285b097c98e0af497879cdffbe49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:16 +0000
Subject: [PATCH 68/71] fix: do not merge halt and infinite lists that
 lr_enum_local_parallel_dev_null.sh never writes

---
 cpp/scripts/lr_enum_local_parallel_dev_null.sh | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cpp/scripts/lr_enum_local_parallel_dev_null.sh b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
index 33d25c3..b46b571 100755
--- a/cpp/scripts/lr_enum_local_parallel_dev_null.sh
+++ b/cpp/scripts/lr_enum_local_parallel_dev_null.sh
@@ -67,13 +67,9 @@ echo
 date
 echo "(4) Merging the results"
 if [ "${COMPRESS_OUTPUT}" = "false" ]; then
-  cat ${DATA_DIR}/halt_init.txt* ${DATA_DIR}/halt_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/halt_final.txt
-  cat ${DATA_DIR}/inf_init.txt* ${DATA_DIR}/inf_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/inf_final.txt
   # Note: We don't include ${DATA_DIR}/unknown_init.txt which is redundant.
   cat ${DATA_DIR}/unknown_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/unknown_final.txt
 else
-  cat ${DATA_DIR}/halt_init.txt* ${DATA_DIR}/halt_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/halt_final.txt.gz
-  cat ${DATA_DIR}/inf_init.txt* ${DATA_DIR}/inf_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/inf_final.txt.gz
   # Note: We don't include ${DATA_DIR}/unknown_init.txt which is redundant.
   cat ${DATA_DIR}/unknown_part_*_of_${NUM_PROCESSES}* > ${DATA_DIR}/unknown_final.txt.gz
 fi
-- 
2.43.0


From a9d8bc57fe8dac8c69912e1c73c56ae02ac6fd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:52 +0000
Subject: [PATCH 69/71] fix: ngram_entropy reads the tape window by position

---
 Code/ngram_entropy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Code/ngram_entropy.py b/Code/ngram_entropy.py
index c84f970..99bbba3 100644
--- a/Code/ngram_entropy.py
+++ b/Code/ngram_entropy.py
@@ -21,7 +21,7 @@ def extract_window(sim, window_size : int):
   # window is centered on TM head.
   start = sim.tape.position - (window_size // 2)
   end = start + window_size
-  tape_window = tuple(sim.tape.read(pos) for pos in range(start, end))
+  tape_window = tuple(sim.tape.read_pos(pos) for pos in range(start, end))
   return (sim.state, tape_window)
 
 def entropy(counts) -> float:
-- 
2.43.0


From 33ac3a2d41c43cfce2838381d0bf0321d4382d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:52 +0000
Subject: [PATCH 70/71] fix: Curses_Sim stops extending its buffer once the
 machine has halted

---
 Code/Curses_Sim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Code/Curses_Sim.py b/Code/Curses_Sim.py
index 0b5074d..05c7f87 100644
--- a/Code/Curses_Sim.py
+++ b/Code/Curses_Sim.py
@@ -125,8 +125,11 @@ class VisSim:
     self.cur_line += vert_offset
     if self.cur_line < 0:
       self.cur_line = 0
-    while self.cur_line + curses.LINES > self.sim.step_num:
+    while (not self.sim.halted and
+           self.cur_line + curses.LINES > self.sim.step_num):
       self.expand_pad(self.pad_height() + self.buffer_size)
+    # A halted machine has no further lines to scroll to.
+    self.cur_line = min(self.cur_line, self.pad_height() - 1)
     self.draw()
 
   def move_hor(self, hor_offset):
-- 
2.43.0


From 91ea8ad628926a99297574cb46a6ee0562d07aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:52 +0000
Subject: [PATCH 71/71] fix: Curses_Sim can draw the bottom right cell of its
 buffer

---
 Code/Curses_Sim.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/Code/Curses_Sim.py b/Code/Curses_Sim.py
index 05c7f87..fd7e9f6 100644
--- a/Code/Curses_Sim.py
+++ b/Code/Curses_Sim.py
@@ -118,7 +118,13 @@ class VisSim:
       else:
         text = " "
       self.log("Writing", line_num, col_num, repr(text), attr)
-      self.pad.addstr(line_num, col_num, text, attr)
+      try:
+        self.pad.addstr(line_num, col_num, text, attr)
+      except curses.error:
+        # Writing the bottom right cell succeeds, but then the cursor cannot
+        # advance and curses reports that as an error.
+        if (line_num, col_num) != (self.pad_height() - 1, self.pad_width() - 1):
+          raise
 
   def move_vert(self, vert_offset):
     # TODO: if self.cur_line +
-- 
2.43.0

