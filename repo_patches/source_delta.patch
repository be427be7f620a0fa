From bba567054912362a0887b70a2664c681e5709a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 01/23] fix: frexp() mantissa of a number with uncertainty has
 a usable linear part

---
 uncertainties/umath_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index fde92fe..b0580cd 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -395,7 +395,7 @@ def frexp(x):
                 # With frexp(x) = (m, e), x = m*2**e, so m = x*2**-e
                 # and therefore dm/dx = 2**-e (as e in an integer that
                 # does not vary when x changes):
-                LinearCombination([2**-exponent, aff_func._linear_part])),
+                LinearCombination([(2**-exponent, aff_func._linear_part)])),
             # The exponent is an integer and is supposed to be
             # continuous (errors must be small):
             exponent)
-- 
2.43.0


From a0a55a2967f6ab08fde51d197b799f1000f13f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 02/23] fix: integer % number with uncertainty

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 818615e..f616adc 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2521,7 +2521,7 @@ def get_ops_with_reflection():
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
-        'mod': ("1.", "partial_derivative(float.__mod__, 1)(x, y)"),
+        'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
         'truediv': ("1/y", "-x/y**2")
-- 
2.43.0


From b17a0820aa3b1aaf5255968f567cebb2eb5579cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 03/23] fix: umath.hypot() with more (or less) than two
 coordinates

---
 uncertainties/umath_core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index b0580cd..01f9c7b 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -197,8 +197,10 @@ fixed_derivatives = {
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-    'hypot': [lambda x, y: x/math.hypot(x, y),
-              lambda x, y: y/math.hypot(x, y)],
+    # hypot() accepts more than two coordinates in newer Python versions
+    # (additional derivatives are calculated numerically):
+    'hypot': [lambda *coords: coords[0]/math.hypot(*coords),
+              lambda *coords: coords[1]/math.hypot(*coords)],
     'log': [log_der0,
             lambda x, y: -math.log(x, y)/y/math.log(y)],
     'log10': [lambda x: 1/x/math.log(10)],
-- 
2.43.0


From 78fc11bb088923872548a58b4fe47e3cebe67dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 04/23] fix: reject -inf as a standard deviation

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f616adc..3f05a70 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2783,7 +2783,7 @@ class Variable(AffineScalarFunc):
         # (Note: if NaN < 0 is False, there is no need to test
         # separately for NaN. But this is not guaranteed, even if it
         # should work on most platforms.)
-        if std_dev < 0 and not isinfinite(std_dev):
+        if std_dev < 0 and not isnan(std_dev):
             raise NegativeStdDev("The standard deviation cannot be negative")
 
         self._std_dev = CallableStdDev(std_dev)
-- 
2.43.0


From c8b06bd25e552dc06e5c5fb6868401808081f83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 05/23] fix: wrap() of a bound method uses the derivative of
 the right argument with keyword arguments

---
 uncertainties/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3f05a70..7a89c77 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -590,7 +590,12 @@ def wrap(f, derivatives_args=[], derivatives_kwargs={}):
         # arguments (and therefore to use inspect.getfullargspec())
         # because they are already handled by derivatives_kwargs.
 
-        for (index, name) in enumerate(argspec.args):
+        arg_names = argspec.args
+        if inspect.ismethod(f):
+            # The already bound first argument cannot be passed again:
+            arg_names = arg_names[1:]
+
+        for (index, name) in enumerate(arg_names):
 
             # The following test handles the case of
             # positional-or-keyword parameter for which automatic
-- 
2.43.0


From 98d3c897dcf6d95380d49a9557d0e96577a43693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:40 +0000
Subject: [PATCH 06/23] fix: exact variables do not contribute to covariances,
 even with a NaN derivative

---
 uncertainties/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 7a89c77..f010536 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2916,7 +2916,10 @@ def covariance_matrix(nums_with_uncert):
                 ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
                 # var is a variable common to both numbers with
                 # uncertainties:
-                for var in vars1.intersection(derivatives2)),
+                for var in vars1.intersection(derivatives2)
+                # Variables with no uncertainty do not contribute, even
+                # if a derivative is NaN (see error_components()):
+                if var._std_dev != 0),
                 # The result is always a float (sum() with no terms
                 # returns an integer):
                 0.))
-- 
2.43.0


From a1c32d12945262edaed2129256891525aee5b636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 07/23] fix: the precision of the g and empty formats applies
 when the uncertainty is zero or not finite

---
 uncertainties/core.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index f010536..9f7d256 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1156,6 +1156,13 @@ def format_num(nom_val_main, error_main, common_exp,
     # over common_exp):
     special_error = not error_main or isinfinite(error_main)
 
+    # Format suffix for parts that are represented with no trailing
+    # zeros (the precision, if any, is a number of significant digits):
+    if fmt_parts['prec']:
+        nicer_fmt_suffix = '.%s%s' % (fmt_parts['prec'], fmt_parts['type'] or 'g')
+    else:
+        nicer_fmt_suffix = fmt_parts['type']
+
     # Nicer representation of the main nominal part, with no trailing
     # zeros, when the error does not have a defined number of
     # significant digits:
@@ -1164,7 +1171,7 @@ def format_num(nom_val_main, error_main, common_exp,
         # exponent is taken care of by common_exp, so it is
         # formatted without an exponent (otherwise, the exponent
         # would have to be handled for the LaTeX option):
-        fmt_suffix_n = (fmt_parts['prec'] or '')+fmt_parts['type']
+        fmt_suffix_n = nicer_fmt_suffix
     else:
         fmt_suffix_n = '.%d%s' % (prec, main_pres_type)
 
@@ -1374,7 +1381,7 @@ def format_num(nom_val_main, error_main, common_exp,
                 # Only some formats have a nicer representation:
                 and fmt_parts['type'] in ('', 'g', 'G')):
                 # The error can be formatted independently:
-                fmt_suffix_e = (fmt_parts['prec'] or '')+fmt_parts['type']
+                fmt_suffix_e = nicer_fmt_suffix
             else:
                 fmt_suffix_e = '.%d%s' % (prec, main_pres_type)
         else:
-- 
2.43.0


From 69c8fc11a9bb8419f7215b2ed56077d2efc9843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:36 +0000
Subject: [PATCH 08/23] fix: ufloat_fromstr() raises ValueError for exponents
 that are out of range

---
 uncertainties/core.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 9f7d256..466e189 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2970,6 +2970,19 @@ else:
 # in parentheses would not be sufficient.
 POSITIVE_DECIMAL_UNSIGNED_OR_NON_FINITE = r'((\d*)(\.\d*)?|nan|NAN|inf|INF)'
 
+def power_of_10(exponent_str):
+    '''
+    Return the float power of 10 whose exponent is given by a string
+    (in normal or superscript characters).
+
+    ValueError is raised if the exponent is incorrect or too large.
+    '''
+    exponent = nrmlze_superscript(exponent_str)
+    try:
+        return 10.**exponent
+    except OverflowError:
+        raise ValueError('Exponent out of range: %s' % exponent_str)
+
 # Regexp for a number with uncertainty (e.g., "-1.234(2)e-6"), where
 # the uncertainty is optional (in which case the uncertainty is
 # implicit). The uncertainty can also be nan or NAN:
@@ -3038,7 +3051,7 @@ def parse_error_in_parentheses(representation):
 
     # Global exponent:
     if exponent:
-        factor = 10.**nrmlze_superscript(exponent)
+        factor = power_of_10(exponent)
     else:
         factor = 1
 
@@ -3095,7 +3108,7 @@ def to_float(value_str):
     match = PRETTY_PRINT_MATCH(value_str)
     if match:
         try:
-            return float(match.group(1))*10.**nrmlze_superscript(match.group(2))
+            return float(match.group(1))*power_of_10(match.group(2))
         except ValueError:
             raise ValueError('Mantissa or exponent incorrect in pretty-print'
                              ' form %s' % value_str)
@@ -3145,12 +3158,10 @@ def str_to_number_with_uncert(representation):
         exp_value_str = match.group('exp_value')
 
         try:
-            exponent = nrmlze_superscript(exp_value_str)
+            factor = power_of_10(exp_value_str)
         except ValueError:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
 
-        factor = 10.**exponent
-
         representation = match.group('simple_num_with_uncert')
     else:
         factor = 1  # No global exponential factor
-- 
2.43.0


From 230b03656a16a5cb4997efd137c4dd02775ceb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:39 +0000
Subject: [PATCH 09/23] fix: ufloat_fromstr() with very many digits does not
 raise OverflowError

---
 uncertainties/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 466e189..b2cdac5 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3076,7 +3076,8 @@ def parse_error_in_parentheses(representation):
         else:
             num_digits_after_period = len(main_dec)-1
 
-        uncert_value = int(uncert_int)/10.**num_digits_after_period
+        # (No float overflow can happen with very many digits.)
+        uncert_value = float('%se-%d' % (uncert_int, num_digits_after_period))
 
     # We apply the exponent to the uncertainty as well:
     uncert_value *= factor
-- 
2.43.0


From 31304f2c0026a92e25fd932501ff2b48afb6670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:40 +0000
Subject: [PATCH 10/23] fix: ufloat_fromstr() does not ignore what follows a
 newline

---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index b2cdac5..49c9a7c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3085,7 +3085,7 @@ def parse_error_in_parentheses(representation):
     return (value, uncert_value)
 
 # Regexp for catching the two variable parts of -1.2×10⁻¹²:
-PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\s*×\\s*10(.*)').match
+PRETTY_PRINT_MATCH = re.compile(u'(.*?)\\s*×\\s*10(.*)$').match
 
 def to_float(value_str):
     '''
@@ -3167,7 +3167,7 @@ def str_to_number_with_uncert(representation):
     else:
         factor = 1  # No global exponential factor
 
-    match = re.match(u'(.*)(?:\\+/-|±)(.*)', representation)
+    match = re.match(u'(.*)(?:\\+/-|±)(.*)$', representation)
     if match:
 
         (nom_value, uncert) = match.groups()
-- 
2.43.0


From 99a0e13c08f7a14cf71ed60328ecc0a54c1851ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 11/23] fix: ufloat_fromstr() applies a factored exponent to
 the short-hand notation too

---
 uncertainties/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 49c9a7c..d613e91 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -3183,9 +3183,10 @@ def str_to_number_with_uncert(representation):
     else:
         # Form with error parentheses or no uncertainty:
         try:
-            parsed_value = parse_error_in_parentheses(representation)
+            (nom_value, uncert) = parse_error_in_parentheses(representation)
         except NotParenUncert:
             raise ValueError(cannot_parse_ufloat_msg_pat % representation)
+        parsed_value = (nom_value*factor, uncert*factor)
 
     return parsed_value
 
-- 
2.43.0


From 9f9d61b25c9024e6d615d6087772cb0f49833d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:04 +0000
Subject: [PATCH 12/23] fix: ufloat_fromstr() rejects an exponent marker
 without an exponent

---
 uncertainties/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index d613e91..1cc74b2 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2995,7 +2995,7 @@ NUMBER_WITH_UNCERT_RE_STR = u'''
     (?:\\(%s\\))?  # Optional uncertainty
     (?:
         (?:[eE]|\\s*×\\s*10)
-        (.*)
+        (.+)
     )?  # Optional exponent
     ''' % (POSITIVE_DECIMAL_UNSIGNED_OR_NON_FINITE,
            POSITIVE_DECIMAL_UNSIGNED_OR_NON_FINITE)
-- 
2.43.0


From ddf6d15a0613a839201bd6ae6877d4361e79e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:31 +0000
Subject: [PATCH 13/23] fix: short-hand notation of an uncertainty when the
 nominal value is not finite

---
 uncertainties/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 1cc74b2..d84f841 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1213,8 +1213,10 @@ def format_num(nom_val_main, error_main, common_exp,
             # keep it as it is, in this case (e.g. 1.2(3.4), as this
             # makes the result easier to read); the shorthand
             # notation then essentially coincides with the +/-
-            # notation:
-            if first_digit(uncert) >= 0 and prec > 0:
+            # notation. A nominal value which is not finite has no last
+            # digit that the uncertainty could refer to:
+            if ((first_digit(uncert) >= 0 or isinfinite(nom_val_main))
+                and prec > 0):
                 # This case includes a zero rounded error with digits
                 # after the decimal point:
                 uncert_str = '%.*f' % (prec, uncert)
-- 
2.43.0


From 7aa379410e4cab973150f62a75a7cf0ff8cf65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:55 +0000
Subject: [PATCH 14/23] fix: correlated_values() and correlated_values_norm()
 with numpy.matrix objects

---
 uncertainties/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index d84f841..3018afc 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -168,6 +168,9 @@ else:
         # such variables (with the help of numpy.ix_()), and creating 
         # them separately.
         
+        # (numpy.matrix objects have different semantics.)
+        covariance_mat = numpy.asarray(covariance_mat)
+
         std_devs = numpy.sqrt(numpy.diag(covariance_mat))
 
         # For numerical stability reasons, we go through the correlation
@@ -228,7 +231,8 @@ else:
         #
         # The covariance matrix is diagonalized in order to define
         # the independent variables that model the given values:
-        (variances, transform) = numpy.linalg.eigh(correlation_mat)
+        (variances, transform) = numpy.linalg.eigh(
+            numpy.asarray(correlation_mat))
 
         # Numerical errors might make some variances negative: we set
         # them to zero:
-- 
2.43.0


From 04e19f9914568dbabbf0b082640a763a9ec90a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 15/23] fix: unumpy.arcsinh() is defined, like in NumPy

---
 uncertainties/unumpy/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 3507db4..56f49a8 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -725,4 +725,9 @@ Original documentation:
 
         __all__.append(unumpy_name)
 
+    # arcsinh() is the name used by NumPy; asinh() is only kept because
+    # it used to be the only name of this function:
+    this_module.arcsinh = this_module.asinh
+    __all__.append('arcsinh')
+
 define_vectorized_funcs()
-- 
2.43.0


From f6d5162ad66597174780e1f0850bbe90c99217e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:51 +0000
Subject: [PATCH 16/23] fix: unumpy.matrix objects can be multiplied by a
 number with uncertainty on the right

---
 uncertainties/unumpy/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index 56f49a8..b32d816 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -614,6 +614,13 @@ class matrix(numpy.matrix):
         else:
             return numeric.dot(other, self)  # The order is important
 
+    def __mul__(self, other):
+        # Numbers with uncertainties are not scalars for NumPy:
+        if isinstance(other, uncert_core.AffineScalarFunc):
+            return numeric.dot(self, other)
+        else:
+            return super(matrix, self).__mul__(other)
+
     def getI(self):
         """Matrix inverse or pseudo-inverse."""
         m, n = self.shape
-- 
2.43.0


From 2aae93b82228f0a684d7b9be801fd2eef735ba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 17/23] fix: comparing a number with uncertainty to a complex
 number raised TypeError

---
 uncertainties/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 3018afc..287830c 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -802,7 +802,9 @@ def force_aff_func_args(func):
 
         try:
             y_with_uncert = to_affine_scalar(y)
-        except NotUpcast:
+        # TypeError: some numbers (like complex ones) have no float
+        # version:
+        except (NotUpcast, TypeError):
             # This module does not know how to handle the comparison:
             # (example: y is a NumPy array, in which case the NumPy
             # array will decide that func() should be applied
-- 
2.43.0


From 50fe97bf2a1d28bc62a18139c61b09175706e8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 18/23] fix: dividing by a very large or very small number with
 uncertainty raised OverflowError or ZeroDivisionError

---
 uncertainties/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 287830c..45f5d73 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2537,14 +2537,14 @@ def get_ops_with_reflection():
         # effect.  Since '/' is applied to
         # AffineScalarFunc._nominal_value numbers, it is applied on
         # floats, and is therefore the "usual" mathematical division.
-        'div': ("1/y", "-x/y**2"),
+        'div': ("1/y", "-x/y/y"),
         'floordiv': ("0.", "0."),  # Non exact: there is a discontinuity
         # The derivative wrt the 2nd arguments is something like (..., x//y),
         # but it is calculated numerically, for convenience:
         'mod': ("1.", "partial_derivative(float.__mod__, 1)(float(x), y)"),
         'mul': ("y", "x"),
         'sub': ("1.", "-1."),
-        'truediv': ("1/y", "-x/y**2")
+        'truediv': ("1/y", "-x/y/y")
         }
 
     # Conversion to Python functions:
-- 
2.43.0


From 0c082f8707fc947de3bc0d87a8e788c64d3ba337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 19/23] fix: std_dev of quantities with very large or very
 small uncertainties raised OverflowError or lost precision

---
 uncertainties/core.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 45f5d73..a721278 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -34,6 +34,7 @@ except ImportError:
 
 import copy
 import warnings
+import functools
 import itertools
 import inspect
 import numbers
@@ -1851,8 +1852,10 @@ class AffineScalarFunc(object):
         #std_dev value (in fact, many intermediate AffineScalarFunc do
         #not need to have their std_dev calculated: only the final
         #AffineScalarFunc returned to the user does).
-        return CallableStdDev(sqrt(sum(
-            delta**2 for delta in self.error_components().values())))
+        # math.hypot() works even when the squares of the components are
+        # too large or too small for a float:
+        return CallableStdDev(functools.reduce(
+            math.hypot, self.error_components().values(), 0.))
 
     # Abbreviation (for formulas, etc.):
     s = std_dev
-- 
2.43.0


From e4d431dc8f97261d1204b88755525be341f9e0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:45 +0000
Subject: [PATCH 20/23] fix: derivatives of atan, asinh, acosh, atan2, erf and
 erfc were NaN for very large (or very small) arguments

---
 uncertainties/umath_core.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/uncertainties/umath_core.py b/uncertainties/umath_core.py
index 01f9c7b..3e34891 100644
--- a/uncertainties/umath_core.py
+++ b/uncertainties/umath_core.py
@@ -180,20 +180,20 @@ erf_coef = 2/math.sqrt(math.pi)  # Optimization for erf()
 fixed_derivatives = {
     # In alphabetical order, here:
     'acos': [lambda x: -1/math.sqrt(1-x**2)],
-    'acosh': [lambda x: 1/math.sqrt(x**2-1)],
+    'acosh': [lambda x: 1/math.sqrt(x-1)/math.sqrt(x+1)],
     'asin': [lambda x: 1/math.sqrt(1-x**2)],
-    'asinh': [lambda x: 1/math.sqrt(1+x**2)],
-    'atan': [lambda x: 1/(1+x**2)],
-    'atan2': [lambda y, x: x/(x**2+y**2),  # Correct for x == 0
-              lambda y, x: -y/(x**2+y**2)],  # Correct for x == 0
+    'asinh': [lambda x: 1/math.hypot(1, x)],
+    'atan': [lambda x: 1/(1+x*x)],
+    'atan2': [lambda y, x: x/math.hypot(x, y)/math.hypot(x, y),  # Correct for x == 0
+              lambda y, x: -y/math.hypot(x, y)/math.hypot(x, y)],  # Correct for x == 0
     'atanh': [lambda x: 1/(1-x**2)],
     'copysign': [_deriv_copysign,
                  lambda x, y: 0],
     'cos': [lambda x: -math.sin(x)],
     'cosh': [math.sinh],
     'degrees': [lambda x: math.degrees(1)],
-    'erf': [lambda x: math.exp(-x**2)*erf_coef],
-    'erfc': [lambda x: -math.exp(-x**2)*erf_coef],
+    'erf': [lambda x: math.exp(-x*x)*erf_coef],
+    'erfc': [lambda x: -math.exp(-x*x)*erf_coef],
     'exp': [math.exp],
     'expm1': [math.exp],
     'fabs': [_deriv_fabs],
-- 
2.43.0


From 11e765e1aa2b10c4219b0fa7d8b8c27e329903e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:36 +0000
Subject: [PATCH 21/23] fix: covariance_matrix() and correlation_matrix() with
 very large or very small uncertainties

---
 uncertainties/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index a721278..325bba5 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -2931,7 +2931,9 @@ def covariance_matrix(nums_with_uncert):
         for expr2 in nums_with_uncert[:i1]:
             derivatives2 = expr2.derivatives  # Optimization
             coefs_expr1.append(sum(
-                ((derivatives1[var]*derivatives2[var]*var._std_dev**2)
+                # (The variance of var might not be a valid float.)
+                ((derivatives1[var]*var._std_dev)
+                 *(derivatives2[var]*var._std_dev)
                 # var is a variable common to both numbers with
                 # uncertainties:
                 for var in vars1.intersection(derivatives2)
@@ -2962,7 +2964,17 @@ else:
         numbers with uncertainties, as a NumPy array of floats.
         '''
 
-        cov_mat = numpy.array(covariance_matrix(nums_with_uncert))
+        def scaled(num_with_uncert):
+            '''
+            Same number, with a unit standard deviation, if possible.
+            '''
+            std_dev = num_with_uncert.std_dev
+            return (num_with_uncert/std_dev if 0 < std_dev < float('inf')
+                    else num_with_uncert)
+
+        # The covariances of the original numbers might not be valid floats:
+        cov_mat = numpy.array(covariance_matrix(
+            list(map(scaled, nums_with_uncert))))
 
         std_devs = numpy.sqrt(cov_mat.diagonal())
 
-- 
2.43.0


From 22d8ca62343749fcd2245acb0f7fe83a5630befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:28 +0000
Subject: [PATCH 22/23] fix: copying and pickling of long calculations
 (RecursionError)

---
 uncertainties/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/uncertainties/core.py b/uncertainties/core.py
index 325bba5..c1317c5 100644
--- a/uncertainties/core.py
+++ b/uncertainties/core.py
@@ -1598,6 +1598,12 @@ class LinearCombination(object):
         self.linear_combo = derivatives
 
     def __getstate__(self):
+        # Long calculations are nested as deeply as they have steps:
+        # the expansion prevents the copying of the nested linear
+        # combinations from going too deep (RecursionError):
+        if not self.expanded():
+            self.expand()
+            self.linear_combo.default_factory = None
         # Not false, otherwise __setstate__() will not be called:
         return (self.linear_combo,)
 
-- 
2.43.0


From d8208bf547055fab02d514b17cf9b27cb6b8f1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:49 +0000
Subject: [PATCH 23/23] fix: array functions of variables with a NaN or
 infinite uncertainty gave NaN derivatives

---
 uncertainties/unumpy/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uncertainties/unumpy/core.py b/uncertainties/unumpy/core.py
index b32d816..bf9149b 100644
--- a/uncertainties/unumpy/core.py
+++ b/uncertainties/unumpy/core.py
@@ -217,6 +217,9 @@ def wrap_array_func(func):
             # minimum variable shift.
 
             shift_var = max(var._std_dev/1e5, 1e-8*abs(var._nominal_value))
+            # Standard deviations that are not finite give no scale:
+            if uncert_core.isinfinite(shift_var):
+                shift_var = 1e-8*abs(var._nominal_value)
             # An exceptional case is that of var being exactly zero.
             # In this case, an arbitrary shift is used for the
             # numerical calculation of the derivative.  The resulting
-- 
2.43.0

