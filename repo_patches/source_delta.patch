From 596cd16797b7209c6bd85f53fb5f0a296629f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 01/33] fix: recognise polynomials without relying on
 assertions

Under python -O the assert statements vanish and non-polynomials were
accepted with wrong coefficients; raise AssertionError explicitly.
---
 src/simpy/polynomial.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/simpy/polynomial.py b/src/simpy/polynomial.py
index 2fbea6a..f46902e 100644
--- a/src/simpy/polynomial.py
+++ b/src/simpy/polynomial.py
@@ -36,20 +36,25 @@ def _to_const_polynomial(expr: Expr, var: Symbol, answer: List[Rat] = None, mult
 
     elif isinstance(expr, Prod):
         # has to be product of 2 terms: a constant and a power.
-        assert len(expr.terms) == 2
+        if len(expr.terms) != 2:
+            raise AssertionError(f"Not allowed expr for polynomial: {expr}")
         const, other = expr.terms
-        assert isinstance(const, Rat)
+        if not isinstance(const, Rat):
+            raise AssertionError(f"Not allowed expr for polynomial: {expr}")
         _to_const_polynomial(other, var, answer, multiplier=const)
     elif isinstance(expr, Power):
-        assert expr.base == var
-        assert (
+        if expr.base != var:
+            raise AssertionError(f"Not allowed expr for polynomial: {expr}")
+        if not (
             isinstance(expr.exponent, Rat)
             and expr.exponent.value == int(expr.exponent.value)
             and expr.exponent.value >= 1
-        )
+        ):
+            raise AssertionError(f"Not allowed expr for polynomial: {expr}")
         _add_answer(1, int(expr.exponent.value))
     elif isinstance(expr, Symbol):
-        assert expr == var
+        if expr != var:
+            raise AssertionError(f"Not allowed expr for polynomial: {expr}")
         _add_answer(Rat(1), 1)
     else:
         raise AssertionError(f"Not allowed expr for polynomial: {expr}")
-- 
2.43.0


From bbec39ec84b5d3a803d98b35633e8e313425127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 02/33] fix: import on Python 3.11 and later

A dataclass field default may not be unhashable there, and e is; log has
its own constructor with that default, so the field default is unused.
---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0f8311c..211d497 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1549,7 +1549,7 @@ def _repr(inner: Expr, label: str) -> str:
 @dataclass
 class log(Expr):
     inner: Expr
-    base: Expr = e
+    base: Expr
 
     @property
     def _label(self):
-- 
2.43.0


From 62246482e0948747d1f0f4dc0e0e75646771e73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 03/33] fix: inverse trig functions of zero no longer crash

---
 src/simpy/expr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 211d497..788e110 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1976,7 +1976,7 @@ class asin(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in sin.special_values}
+        return {"0": Rat(0)}
 
 
 class acos(TrigFunction):
@@ -1989,7 +1989,7 @@ class acos(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in cos.special_values}
+        return {"0": pi / 2}
 
 
 class atan(TrigFunction):
@@ -2002,7 +2002,7 @@ class atan(TrigFunction):
 
     @classproperty
     def _special_values(cls):
-        return {v: k for k, v in tan.special_values}
+        return {"0": Rat(0)}
 
 
 class Abs(SingleFunc):
-- 
2.43.0


From f24eca546865ff19cf4cbd77456840b52b3d0650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 04/33] fix: numeric evaluation of a bare symbol

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 788e110..85af369 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -794,7 +794,7 @@ class Symbol(Expr):
         return subs.get(self.name, self)
 
     def _evalf(self, subs):
-        return super()._evalf()
+        return super()._evalf(subs)
 
     def diff(self, var) -> Rat:
         return Rat(1) if self == var else Rat(0)
-- 
2.43.0


From 3e11eac042221f355940cc2c411b6316c98221f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 05/33] fix: building a logarithm never overwrites an existing
 one

---
 src/simpy/expr.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 85af369..8833ef0 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1588,7 +1588,7 @@ class log(Expr):
     @cast
     def __new__(cls, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
         if skip_checks:
-            super().__new__(cls)
+            return super().__new__(cls)
 
         if inner == 1:
             return Rat(0)
@@ -1602,11 +1602,16 @@ class log(Expr):
             if isinstance(base, Float):
                 return Float(math.log(inner.value) / math.log(base.value))
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        instance.base = base
+        return instance
 
     def __init__(self, inner: Expr, base: Expr = e, *, skip_checks: bool = False):
-        self.inner = inner
-        self.base = base
+        # inner and base are already set in __new__, which may also have returned an already existing log.
+        if skip_checks:
+            self.inner = inner
+            self.base = base
         self.__post_init__()
 
     def diff(self, var) -> Expr:
-- 
2.43.0


From 940622896155794f9c597a30bccddaa21a459e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 06/33] fix: logarithms to other bases keep their base

---
 src/simpy/expr.py              | 14 ++++++++++----
 src/simpy/simplify/simplify.py | 17 +++++++++--------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8833ef0..8a8551e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1556,7 +1556,7 @@ class log(Expr):
         if self.base == e:
             return "ln"
         elif isinstance(self.base, Rat) and self.base.is_int:
-            return "log" + self.base
+            return f"log{self.base}"
         else:
             return f"log[base={self.base}]"
 
@@ -1570,8 +1570,10 @@ class log(Expr):
         return log(inner, base)
 
     def _expand(self) -> Expr:
-        assert self.inner.expandable(), f"Cannot expand {self}"
-        return self.__class__(self.inner.expand())
+        assert self.expandable(), f"Cannot expand {self}"
+        inner = self.inner.expand() if self.inner.expandable() else self.inner
+        base = self.base.expand() if self.base.expandable() else self.base
+        return log(inner, base)
 
     def children(self) -> List[Expr]:
         return [self.inner, self.base]
@@ -1615,12 +1617,16 @@ class log(Expr):
         self.__post_init__()
 
     def diff(self, var) -> Expr:
+        if self.base != e:
+            return (log(self.inner) / log(self.base)).diff(var)
         return self.inner.diff(var) / self.inner
 
     def _evalf(self, subs: Dict[str, "Expr"]):
         inner = self.inner._evalf(subs)
         base = self.base._evalf(subs)
-        return Const(math.log(inner.value)) if isinstance(inner, Num) and isinstance(base, Num) else log(inner, base)
+        if isinstance(inner, Num) and isinstance(base, Num):
+            return Const(math.log(inner.value) / math.log(base.value))
+        return log(inner, base)
 
 
 @cast
diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 2960f29..4e5b2fb 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -33,29 +33,30 @@ def _log_perform(expr: Expr) -> Optional[Expr]:
     if not isinstance(expr, log):
         return
     inner = expr.inner
+    base = expr.base
     # IDK if this should be in simplify or if it should be like expand, in a diff function
     # like you can move stuff together or move stuff apart
     if isinstance(inner, Power):
-        return log(inner.base) * inner.exponent
+        return log(inner.base, base) * inner.exponent
     if isinstance(inner, Prod):
-        return Sum([log(t) for t in inner.terms])
+        return Sum([log(t, base) for t in inner.terms])
     if isinstance(inner, Sum) and isinstance(inner.factor(), Prod):
-        return Sum([log(t) for t in inner.factor().terms])
+        return Sum([log(t, base) for t in inner.factor().terms])
 
     # let's agree on some standards
     # i dont love this, can change
     if isinstance(inner, (sec, csc, cot)):
-        return -1 * log(inner.reciprocal_class(inner.inner))
+        return -1 * log(inner.reciprocal_class(inner.inner), base)
 
     # ugly patch lmfao. need better overall philosophy for this stuff.
     if isinstance(inner, Abs) and isinstance(inner.inner, Power):
-        return log(abs(inner.inner.base)) * inner.inner.exponent
+        return log(abs(inner.inner.base), base) * inner.inner.exponent
     if isinstance(inner, Abs) and isinstance(inner.inner, Prod):
-        return Sum([log(abs(term)) for term in inner.inner.terms])
+        return Sum([log(abs(term), base) for term in inner.inner.terms])
     if isinstance(inner, Abs) and isinstance(inner.inner, Sum) and isinstance(inner.inner.factor(), Prod):
-        return Sum([log(abs(term)) for term in inner.inner.factor().terms])
+        return Sum([log(abs(term), base) for term in inner.inner.factor().terms])
 
-    return log(inner)
+    return log(inner, base)
 
 
 def pythagorean_simplification(expr: Expr, **kwargs) -> Expr:
-- 
2.43.0


From 779e1ca7bd5732551984f2cbfe2fae762a297319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 07/33] fix: floats and infinities are fully initialised

---
 src/simpy/expr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 8a8551e..02f6406 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -479,6 +479,7 @@ class Float(Num, Expr):
 
     def __init__(self, value):
         self.value = value
+        super().__post_init__()
 
     def latex(self):
         return repr(self)
@@ -656,7 +657,7 @@ class Infinity(Num, Expr):
     value = float("inf")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self) -> str:
         return "\\infty"
@@ -675,7 +676,7 @@ class NegInfinity(Num, Expr):
     value = float("-inf")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self) -> str:
         return "-\\infty"
@@ -694,7 +695,7 @@ class NaN(Num, Expr):
     value = float("NaN")
 
     def __init__(self):
-        pass
+        super().__post_init__()
 
     def latex(self):
         return NotImplemented
-- 
2.43.0


From 784a3d149aedd89efee5fac2bef5a5c29fe40d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 08/33] fix: latex of not-a-number is text

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 02f6406..c8da62e 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -698,7 +698,7 @@ class NaN(Num, Expr):
         super().__post_init__()
 
     def latex(self):
-        return NotImplemented
+        return "\\text{NaN}"
 
 
 pi = Pi()
-- 
2.43.0


From 6730c71b49e2c3d49011fbdaea9b45bfa74247e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 09/33] fix: differentiating without a variable raises when it
 is ambiguous

---
 src/simpy/expr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index c8da62e..dafac66 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2077,7 +2077,7 @@ def symbols(symbols: str) -> Union[Symbol, List[Symbol]]:
 
 
 @cast
-def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
+def diff(expr: Expr, var: Optional[Symbol] = None) -> Expr:
     """Takes the derivative of expr relative to var. If expr has only one symbol in it, var doesn't need to be specified."""
     if not hasattr(expr, "diff"):
         raise NotImplementedError(f"Differentiation of {expr} not implemented")
@@ -2085,7 +2085,7 @@ def diff(expr: Expr, var: Optional[Symbol]) -> Expr:
     if var is None:
         symbols = expr.symbols()
         if len(symbols) != 1:
-            return ValueError(f"Must provide variable of differentiation for {var}")
+            raise ValueError(f"Must provide variable of differentiation for {expr}")
         var = symbols[0]
 
     return expr.diff(var)
-- 
2.43.0


From 259dbb2d17c99cddc709e4bd9fd514c2d149a845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 10/33] fix: invalid multinomial coefficient raises

---
 src/simpy/combinatorics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/combinatorics.py b/src/simpy/combinatorics.py
index 8a6eaa8..6bd3657 100644
--- a/src/simpy/combinatorics.py
+++ b/src/simpy/combinatorics.py
@@ -34,7 +34,7 @@ def generate_permutations(i: int, n: int) -> List[List[int]]:
 
 def multinomial_coefficient(xs: List[int], n: int) -> int:
     if sum(xs) > n:
-        return "Invalid input: sum of xs must not exceed n."
+        raise ValueError("Invalid input: sum of xs must not exceed n.")
 
     # Calculate factorial of n and the individual components x1, x2 ..., and the remaining items
     numerator = math.factorial(n)
-- 
2.43.0


From 5056b1447b1358615a32f8d59f9fed067951a8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 11/33] fix: symbols of an expression come in a fixed order

---
 src/simpy/expr.py  | 5 +++--
 src/simpy/regex.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index dafac66..cc2bffe 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -242,8 +242,9 @@ class Expr(ABC):
         raise NotImplementedError(f"Cannot get the derivative of {self.__class__.__name__}")
 
     def _symbols(self) -> List["Symbol"]:
-        str_set = {symbol.name for e in self.children() for symbol in e.symbols()}
-        return [Symbol(name=s) for s in str_set]
+        # a dict instead of a set because it keeps the order of appearance
+        names = dict.fromkeys(symbol.name for e in self.children() for symbol in e.symbols())
+        return [Symbol(name=s) for s in names]
 
     def symbols(self) -> List["Symbol"]:
         """Get all symbols in the expression."""
diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index e7480c0..d21bc0e 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -96,8 +96,9 @@ def get_anys(expr: Expr) -> List[Any_]:
         if isinstance(expr, Any_):
             return [expr]
 
-        str_set = set([symbol.key for e in expr.children() for symbol in get_anys(e)])
-        return [Any_(s) for s in str_set]
+        # a dict instead of a set because it keeps the order of appearance
+        keys = dict.fromkeys(symbol.key for e in expr.children() for symbol in get_anys(e))
+        return [Any_(s) for s in keys]
 
     if not hasattr(expr, "_any_cache"):
         expr._any_cache = ga(expr)
-- 
2.43.0


From ecc7303744b8038f6558515362baf31c92a02529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:01 +0000
Subject: [PATCH 12/33] fix: flattening does not modify the operands

---
 src/simpy/expr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index cc2bffe..28f77fa 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -296,8 +296,7 @@ class Associative:
         new_terms = []
         for t in terms:
             if isinstance(t, cls):
-                t._flatten()
-                new_terms += t.terms
+                new_terms += cls._flatten_terms(t.terms)
             else:
                 new_terms += [t]
         return new_terms
-- 
2.43.0


From 7dded87159c690f6d2dae4cb91f11c3173cdc45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:04 +0000
Subject: [PATCH 13/33] fix: a single unchecked term is not overwritten

---
 src/simpy/expr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 28f77fa..39c0665 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -904,9 +904,10 @@ class Sum(Associative, Expr):
     def __init__(self, terms: List[Expr], *, skip_checks: Union[bool, Literal["sort"]] = False):
         # Overrides the shit that does self.terms = terms because i've already set terms
         # in __new__.
-        if skip_checks is True:
+        # A single term means that __new__ returned that term itself, which must not be modified.
+        if skip_checks is True and len(terms) > 1:
             self.terms = terms
-        if skip_checks == "sort":
+        if skip_checks == "sort" and len(terms) > 1:
             self.terms = self._sort_terms(terms)
         super().__post_init__()
 
@@ -1177,7 +1178,8 @@ class Prod(Associative, Expr):
         return instance
 
     def __init__(self, terms: List[Expr], *, skip_checks: bool = False):
-        if skip_checks:
+        # A single term means that __new__ returned that term itself, which must not be modified.
+        if skip_checks and len(terms) > 1:
             self.terms = terms
         # terms are already set in __new__
         super().__post_init__()
-- 
2.43.0


From 1424b3ff0cd8d286a8840d5593dc64df79cc6dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 14/33] fix: equality up to a variable does not confuse two
 variables

---
 src/simpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/utils.py b/src/simpy/utils.py
index 5308dd3..cee5077 100644
--- a/src/simpy/utils.py
+++ b/src/simpy/utils.py
@@ -32,7 +32,7 @@ def eq_with_var(a: Tuple[Expr, Symbol], b: Tuple[Expr, Symbol]) -> bool:
         if isinstance(e1, Symbol):
             if e1 == a_var:
                 return e2 == b_var
-            return e1 == e2
+            return e1 == e2 and e2 != b_var
         c1 = e1.children()
         c2 = e2.children()
         if c1 == [] or c2 == []:
-- 
2.43.0


From c86736307fa89aba23d38ca600b41d1ef742928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 15/33] fix: sec/tan rewriting of sums

---
 src/simpy/simplify/simplify.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 4e5b2fb..187b715 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -343,16 +343,15 @@ def sectan(sum: Expr) -> Optional[Expr]:
 
     for s in secs:
         new = replace_factory(condition, perform)(s)
-        new = new.expand() if new.expandable() else s
-        assert isinstance(new, Sum)
-        tans.extend(new.terms)
+        new = new.expand() if new.expandable() else new
+        tans.extend(new.terms if isinstance(new, Sum) else [new])
 
     new_sum = Sum(tans + others)
     if not isinstance(new_sum, Sum):
         # This must mean that we simplified the sum into one term
         return new_sum
 
-    if len(new_sum.terms) < sum.terms:
+    if len(new_sum.terms) < len(sum.terms):
         return new_sum
 
 
-- 
2.43.0


From eec6ff4161b85e91366d8cd1d45d45291f576fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 16/33] fix: derivative of an absolute value

---
 src/simpy/expr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 39c0665..10e8c3f 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2051,8 +2051,7 @@ class Abs(SingleFunc):
         return super().__new__(cls)
 
     def diff(self, var) -> Expr:
-        warnings.warn(f"Differentiation of {self} not implemented, so returning diff of {self.inner}.")
-        return self.inner.diff(var)
+        return self.inner / self * self.inner.diff(var)
 
     def _evalf(self, subs: Dict[str, Expr]) -> Expr:
         return Abs(self.inner._evalf(subs))
-- 
2.43.0


From aa7d31a185b9dc4ef04a4e544fc04e8c86a8fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 17/33] fix: product-to-sum keeps the plain factors next to
 powers

---
 src/simpy/simplify/product_to_sum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/simplify/product_to_sum.py b/src/simpy/simplify/product_to_sum.py
index 26d81e0..5b9e174 100644
--- a/src/simpy/simplify/product_to_sum.py
+++ b/src/simpy/simplify/product_to_sum.py
@@ -73,7 +73,7 @@ def _product_to_sum_unit(expr: Expr, *, multiplier: Expr = None) -> Optional[Lis
             return
 
         if any(not isinstance(t, (sin, cos)) for t in new_expr.terms):
-            new_terms = [product_to_sum_unit(t) for t in new_expr.terms if not isinstance(t, (sin, cos))]
+            new_terms = [t if isinstance(t, (sin, cos)) else product_to_sum_unit(t) for t in new_expr.terms]
             return _product_to_sum(Prod(new_terms).expand().terms, multiplier=const)
 
         return _perform_on_terms(
-- 
2.43.0


From f9fa3e43f51b65e3575509ea78d53a2225ea177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 18/33] fix: printed function arguments keep their brackets

---
 src/simpy/expr.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 10e8c3f..90b588d 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1544,8 +1544,6 @@ class SingleFunc(Expr):
 
 def _repr(inner: Expr, label: str) -> str:
     inner_repr = inner.__repr__()
-    if inner_repr[0] == "(" and inner_repr[-1] == ")":
-        return f"{label}{inner_repr}"
     return f"{label}({inner_repr})"
 
 
-- 
2.43.0


From c117be112edd21113b52e8719014c47e6d481d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 19/33] fix: printed powers bracket operands that are powers

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 90b588d..396fe83 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1355,7 +1355,7 @@ class Power(Expr):
 
     def __repr__(self) -> str:
         def _term_repr(term):
-            if isinstance(term, Sum) or isinstance(term, Prod) or isfractionorneg(term) or islongsymbol(term):
+            if isinstance(term, (Sum, Prod, Power)) or isfractionorneg(term) or islongsymbol(term):
                 return "(" + repr(term) + ")"
             return repr(term)
 
-- 
2.43.0


From c0f4dd72aaa3f3a319302aa42f76e7cb990a57f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 20/33] fix: printed powers bracket negative float bases

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 396fe83..9eaf671 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1078,7 +1078,7 @@ def deconstruct_power(expr: Expr) -> Tuple[Expr, Expr]:
     return expr._deconstruct_power_cache
 
 
-isfractionorneg = lambda x: isinstance(x, Rat) and (x.value.denominator != 1 or x < 0)
+isfractionorneg = lambda x: isinstance(x, Rat) and x.value.denominator != 1 or isinstance(x, Num) and x.value < 0
 islongsymbol = lambda x: isinstance(x, Symbol) and len(x.name) > 1 or x.__class__.__name__ == "Any_" and len(x.key) > 1
 
 
-- 
2.43.0


From bb5c553c8c7f2dd1de5e4f21f83e89128ac6e686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 21/33] fix: comparing numbers is symmetric and never raises

---
 src/simpy/expr.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 9eaf671..705182a 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -419,8 +419,9 @@ class Num(ABC):
         # default, override if necessary.
         return repr(self.value)
 
-    @cast
     def __eq__(self, other):
+        if isinstance(other, (Fraction, float, int)):
+            other = Const(other)
         return isinstance(other, Num) and self.value == other.value
 
     @cast
@@ -638,6 +639,8 @@ class Pi(Num, Expr):
     def latex(self) -> str:
         return "\\pi"
 
+    __eq__ = Num.__eq__
+
 
 @dataclass
 class E(Num, Expr):
@@ -649,8 +652,7 @@ class E(Num, Expr):
     def latex(self) -> str:
         return "e"
 
-    def __eq__(self, other) -> bool:
-        return isinstance(other, E)
+    __eq__ = Num.__eq__
 
 
 class Infinity(Num, Expr):
-- 
2.43.0


From 406ba05ee55014eeec2788db9b3550e8dcc460a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 22/33] fix: roots of rational numbers are exact

---
 src/simpy/expr.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 705182a..0730a60 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -732,6 +732,24 @@ def accumulate(*consts: List[Accumulateable], type_: Literal["sum", "prod"] = "s
         return Const(operation(c.value for c in consts))
 
 
+def _integer_power(n: int, x: Fraction) -> Optional[int]:
+    """n^x (where x >= 0) if it is an integer, None otherwise."""
+    q = x.denominator
+    if q == 1 or n == 1:
+        return n**x.numerator
+    if n < 0:
+        return None
+    # it is an integer if and only if n is a perfect q-th power
+    low, high = 1, 1 << (n.bit_length() // q + 1)
+    while low < high:
+        mid = (low + high) // 2
+        if mid**q < n:
+            low = mid + 1
+        else:
+            high = mid
+    return low**x.numerator if low**q == n else None
+
+
 def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
     """If returns None, means it cannot be simplified."""
     if isinstance(b, (Infinity, NegInfinity, Float)) or isinstance(x, (Infinity, NegInfinity, Float)):
@@ -746,9 +764,9 @@ def _accumulate_power(b: Accumulateable, x: Accumulateable) -> Optional[Expr]:
 
     if isinstance(b, Rat) and isinstance(x, Rat):
         # If the answer is rational, return right away
-        num = b.value.numerator ** abs(x.value)
-        den = b.value.denominator ** abs(x.value)
-        isint = lambda x: int(x.real) == x
+        num = _integer_power(b.value.numerator, abs(x.value))
+        den = _integer_power(b.value.denominator, abs(x.value))
+        isint = lambda x: x is not None
         if isint(num) and isint(den):
             if x > 0:
                 return Rat(int(num), int(den))
-- 
2.43.0


From 662d8d7f78ec08e986d2ad5f901a0e6936110b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:30 +0000
Subject: [PATCH 23/33] fix: integer powers of fractions never go through
 floats

---
 src/simpy/expr.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 0730a60..268f002 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -576,10 +576,8 @@ class Rat(Num, Expr):
 
     @cast
     def __pow__(self, other) -> Expr:
-        if isinstance(other, Rat):
-            value = self.value**other.value
-            if isinstance(value, Fraction):
-                return Rat(value)
+        if isinstance(other, Rat) and other.is_int and (self.value != 0 or other.value >= 0):
+            return Rat(self.value**other.value)
         return super().__pow__(other)
 
     @cast
-- 
2.43.0


From 42cf56bb03eb7cbc03867f49e09f94e398bb1a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 24/33] fix: floor division and remainder of plain numbers by
 fractions

---
 src/simpy/expr.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 268f002..d84980c 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -597,6 +597,12 @@ class Rat(Num, Expr):
             return Rat(self.value // other.value)
         return NotImplemented
 
+    @cast
+    def __rfloordiv__(self, other) -> "Rat":
+        if isinstance(other, Rat):
+            return Rat(other.value // self.value)
+        return NotImplemented
+
     def latex(self) -> str:
         from .latex import group
 
@@ -614,6 +620,12 @@ class Rat(Num, Expr):
         else:
             return NotImplemented
 
+    @cast
+    def __rmod__(self, other) -> "Rat":
+        if isinstance(other, Rat):
+            return Rat(other.value % self.value)
+        return NotImplemented
+
     @property
     def is_int(self) -> bool:
         return self.value.denominator == 1
-- 
2.43.0


From 9ee4ae609c7dd60e1b32d89a10d3390e8fce18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 25/33] fix: recognise a finished tree in the breadth-first
 search

---
 src/simpy/integration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/integration.py b/src/simpy/integration.py
index 11c634b..5383120 100644
--- a/src/simpy/integration.py
+++ b/src/simpy/integration.py
@@ -172,7 +172,7 @@ class Integration:
 
     def _get_next_node_post_heuristic_breadth_first(self, node: Node) -> Node:
         root = node.root
-        if root.unfinished_leaves == 0:
+        if len(root.unfinished_leaves) == 0:
             if root.is_failed:
                 return None
             return "SOLVED"
-- 
2.43.0


From 4a6c75400675519ea89978ece257884e1e4a26b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:40 +0000
Subject: [PATCH 26/33] fix: partial fractions with non-linear factors no
 longer crash

---
 src/simpy/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index b1347b3..de4c424 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -915,6 +915,10 @@ class PartialFractions(Transform):
         d1_list = to_const_polynomial(d1, node.var)
         d2_list = to_const_polynomial(d2, node.var)
 
+        if not (d1_list.size == d2_list.size == 2):
+            # Only linear factors are supported.
+            return False
+
         matrix = np.array([d2_list, d1_list]).T
         inv = invert(matrix)
         if inv is None:
-- 
2.43.0


From 3e65d3ad0b78c62120a84315391c60d273507a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:24 +0000
Subject: [PATCH 27/33] fix: a failed search node reports being unsolved as a
 boolean

---
 src/simpy/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simpy/transforms.py b/src/simpy/transforms.py
index de4c424..f8e6585 100644
--- a/src/simpy/transforms.py
+++ b/src/simpy/transforms.py
@@ -140,6 +140,8 @@ class Node:
         if self.type == "OR":
             return any(child.is_solved for child in self.children)
 
+        return False
+
     @property
     def is_failed(self) -> bool:
         # Is not solveable if one branch is not solveable and it has no "OR"s
-- 
2.43.0


From d3f3ff70ef49ae4bf114eee3712d092a8421efc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 28/33] fix: factoring a sum with decimal coefficients no
 longer crashes

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index d84980c..fae84fb 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1032,7 +1032,7 @@ class Sum(Associative, Expr):
         for c in coeffs[1:]:
             x: Rat = c / common_coeff
             y: Rat = common_coeff / c
-            if x.value.denominator == 1 or y.value.denominator == 1:
+            if isinstance(x, Rat) and isinstance(y, Rat) and (x.value.denominator == 1 or y.value.denominator == 1):
                 common_coeff = min(abs(c), abs(common_coeff))
             else:
                 common_coeff = None
-- 
2.43.0


From f6084416d0aa8a475b4bdfe0eb21c8e2ab08e890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:40 +0000
Subject: [PATCH 29/33] fix: sin^2 + cos^2 simplification removes exactly the
 two terms it combines

---
 src/simpy/simplify/simplify.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/simpy/simplify/simplify.py b/src/simpy/simplify/simplify.py
index 187b715..993d110 100644
--- a/src/simpy/simplify/simplify.py
+++ b/src/simpy/simplify/simplify.py
@@ -106,9 +106,15 @@ def _pythagorean_perform(sum: Expr) -> Optional[Expr]:
 
     both_inners = sin_cos_condition(sum)
     if len(both_inners) > 0:
-        new_terms = [t for t in sum.terms if not is_thing_squared(t, (sin, cos)) in both_inners]
-        new_terms += [el[1] for el in both_inners]
-        return Sum(new_terms)
+        remaining = list(sum.terms)
+        combined = []
+        for el in both_inners:
+            # a term may match several pairs, but it can only be used up once
+            pair = [t for t in remaining if is_thing_squared(t, sin) == el or is_thing_squared(t, cos) == el]
+            if len(pair) == 2:
+                remaining = [t for t in remaining if t not in pair]
+                combined.append(el[1])
+        return Sum(remaining + combined)
 
     ##------------ Simplify 1 +/- cls(...)^2 ------------##
     # - for this case: what if there is a constant (or variable) common factor?
-- 
2.43.0


From 108590020db146604652585212848862407cc152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:21 +0000
Subject: [PATCH 30/33] fix: the absolute value of a subtraction keeps the
 negated operand it was simplified to

---
 src/simpy/expr.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index fae84fb..541e5d3 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -2076,7 +2076,13 @@ class Abs(SingleFunc):
         if _is_strictly_positive(inner):
             return inner
 
-        return super().__new__(cls)
+        instance = super().__new__(cls)
+        instance.inner = inner
+        return instance
+
+    def __init__(self, inner: Expr):
+        # inner is already set in __new__, which may also have returned an already existing Abs.
+        super().__post_init__()
 
     def diff(self, var) -> Expr:
         return self.inner / self * self.inner.diff(var)
-- 
2.43.0


From aad4ecf87fedc3fed1dfc98d284d18fe4142955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:27 +0000
Subject: [PATCH 31/33] fix: csc, sec and cot evaluate to floats instead of
 dying of a TypeError

---
 src/simpy/expr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 541e5d3..96fd8c6 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1844,7 +1844,7 @@ class TrigFunction(SingleFunc, ABC):
     def _evalf(self, subs):
         inner = self.inner._evalf(subs)
         if isinstance(inner, Num):
-            return Float(self._func(inner.value))
+            return Float(self.__class__._func(inner.value))
         return self.__class__(inner)
 
     def latex(self) -> str:
-- 
2.43.0


From d8875a6917b46c094ac522cff059d78c30c54a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:30 +0000
Subject: [PATCH 32/33] fix: powers whose base and exponent both contain the
 variable can be differentiated

---
 src/simpy/expr.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/simpy/expr.py b/src/simpy/expr.py
index 96fd8c6..f8eaeb4 100644
--- a/src/simpy/expr.py
+++ b/src/simpy/expr.py
@@ -1532,9 +1532,7 @@ class Power(Expr):
             return log(self.base) * self * self.exponent.diff(var)
 
         # if both base and exponent contain var
-        raise NotImplementedError("Power differentiation not implemented for both base and exponent containing var")
-        # new_power = Power(e, self.exponent * log(self.base))
-        # return new_power.diff(var)
+        return self * (self.exponent.diff(var) * log(self.base) + self.exponent * self.base.diff(var) / self.base)
 
     @property
     def is_subtraction(self) -> bool:
-- 
2.43.0


From 85fd6e8b4a92181d5a723997fb7fca4702584f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:45 +0000
Subject: [PATCH 33/33] fix: pattern matching in a sum picked contradicting
 terms and stopped with an AssertionError

---
 src/simpy/regex.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simpy/regex.py b/src/simpy/regex.py
index d21bc0e..44b3b32 100644
--- a/src/simpy/regex.py
+++ b/src/simpy/regex.py
@@ -146,7 +146,8 @@ def consolidate(query_matches: _qmatches, expr: Sum) -> EqResult:
     for query_term_repr, query_term_values in query_matches.items():
         has_match = False
         for expr_term_repr, matches in query_term_values.items():
-            if all(
+            # don't contradict the terms that have already been chosen.
+            if _matches_eq({k: v[0] for k, v in final.items()}, matches) and all(
                 any(_matches_eq(matches2, matches) for matches2 in query_term_values2.values())
                 for query_term_values2 in query_matches.values()
             ):
-- 
2.43.0

