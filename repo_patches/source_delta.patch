From d69241c2d8723c533eeb30494fc60bfed2dd90fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 01/43] fix: intersection of a union with a set meeting several
 intervals in points

---
 src/sets.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index c15833f..3d54e12 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -320,17 +320,10 @@ class Union(Set):
         if isinstance(x, FiniteNominal):
             return self.nominals & x
         if isinstance(x, (FiniteReal, Interval)):
-            atoms = self.atoms & x
-            intervals = [i & x for i in self.intervals]
-            intervalsne = [i for i in intervals if i is not EmptySet]
-            if atoms is EmptySet:
-                if not intervalsne:
-                    return EmptySet
-                if len(intervalsne) == 1:
-                    return intervalsne[0]
-            if not intervalsne:
-                return atoms
-            return Union(atoms, *intervalsne)
+            # An interval may meet x in a point, so that more than one
+            # term can be a FiniteReal.
+            terms = [self.atoms & x] + [i & x for i in self.intervals]
+            return reduce(lambda a,b: a|b, terms)
         if isinstance(x, Union):
             terms = [self & v for v in x.values]
             return reduce(lambda a,b: a |b, terms)
-- 
2.43.0


From a457abc20e2542cd9f2b5419c62b4ca338c249cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 02/43] fix: equal FiniteNominal sets have equal hashes

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 3d54e12..b5b0888 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -92,7 +92,7 @@ class FiniteNominal(Set):
             and bool(self.b) == bool(x.b) \
             and self.values == x.values
     def __hash__(self):
-        x = (self.__class__, self.values, self.b)
+        x = (self.__class__, self.values, bool(self.b))
         return hash(x)
     def __repr__(self):
         str_values = ', '.join(repr(x) for x in self.values)
-- 
2.43.0


From 46bd56de37b5b694edf263d99446e65e9bfe9b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:13 +0000
Subject: [PATCH 03/43] fix: union of mixed nominal/point sets having no
 interval

---
 src/sets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sets.py b/src/sets.py
index b5b0888..94f31a7 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -357,6 +357,8 @@ class Union(Set):
         return iter(self.args)
 
 def union_intervals(intervals):
+    if not intervals:
+        return []
     intervals_sorted = sorted(intervals, key=lambda i:i.a)
     blocks = [intervals_sorted[0]]
     for interval in intervals_sorted[1:]:
-- 
2.43.0


From 4b08ed3c6def966e9b6017001ad29dc672281b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 04/43] fix: union_intervals merges intervals that share an
 excluded endpoint

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 94f31a7..b738e4a 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -359,7 +359,7 @@ class Union(Set):
 def union_intervals(intervals):
     if not intervals:
         return []
-    intervals_sorted = sorted(intervals, key=lambda i:i.a)
+    intervals_sorted = sorted(intervals, key=lambda i: (i.a, bool(i.left_open)))
     blocks = [intervals_sorted[0]]
     for interval in intervals_sorted[1:]:
         interval_union = blocks[-1] | interval
-- 
2.43.0


From 1a14513687af2e9c91c7ee63d733bbc1f9244c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 05/43] fix: probability of an interval with non-integer or
 negative bounds on an integer-valued leaf

---
 src/spe.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index d5f0856..df79a38 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -8,7 +8,10 @@ from fractions import Fraction
 from functools import reduce
 from inspect import getfullargspec
 from itertools import chain
+from math import ceil
 from math import exp
+from math import floor
+from math import isinf
 from math import log
 
 from .dnf import dnf_factor
@@ -917,11 +920,10 @@ class DiscreteLeaf(RealLeaf):
         logps = [self.logpdf__(x) for x in values]
         return logps[0] if len(logps) == 1 else logsumexp(logps)
     def logprob_interval__(self, values):
-        offsetl = not values.left_open and int_or_isinf_neg(values.left)
-        offsetr = values.right_open and int_or_isinf_pos(values.right)
-        xl = float_to_int(values.left) - offsetl
-        xu = float_to_int(values.right) - offsetr
-        logFl = self.logcdf(xl)
+        xl, xu = integer_bounds(values)
+        if xu < xl:
+            return -inf
+        logFl = self.logcdf(xl - 1)
         logFu = self.logcdf(xu)
         return logdiffexp(logFu, logFl)
 
@@ -1057,6 +1059,15 @@ def spe_cache_duplicate_subtrees(spe, memo):
         return memo[spe]
     assert False, '%s is not an spe' % (spe,)
 
+def integer_bounds(interval):
+    """Least and greatest integers in interval (least > greatest if none)."""
+    (xl, xu) = (interval.left, interval.right)
+    if not isinf(xl):
+        xl = int(floor(xl)) + 1 if interval.left_open else int(ceil(xl))
+    if not isinf(xu):
+        xu = int(ceil(xu)) - 1 if interval.right_open else int(floor(xu))
+    return (xl, xu)
+
 def func_evaluate(spe, func, samples):
     args = func_symbols(spe, func)
     sample_kwargs = [{X.token: s[X] for X in args} for s in samples]
-- 
2.43.0


From 4ece657a7f5222078536d9b939de0f2779d5477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:06 +0000
Subject: [PATCH 06/43] fix: an atomic numeric leaf gives zero probability to
 sets of strings

---
 src/spe.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index df79a38..610ae6b 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -949,11 +949,13 @@ class AtomicLeaf(LeafSPE):
     def sample__(self, N, prng):
         return [{self.symbol : self.value}] * N
     def logprob__(self, event):
-        interval = event.solve()
-        return 0 if self.value in interval else -inf
+        values = self.support & event.solve()
+        return -inf if values is EmptySet else 0
     def condition__(self, event):
-        interval = event.solve()
-        assert self.value in interval, 'Measure zero condition %s' % (event,)
+        values = self.support & event.solve()
+        if values is EmptySet:
+            raise ValueError('Conditioning event "%s" has probability zero'
+                % (str(event)))
         return self
 
     def __hash__(self):
-- 
2.43.0


From ff43b1c2f47749d5c15345c18463bedc1f201cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:03 +0000
Subject: [PATCH 07/43] fix: conditioning a leaf on a set with values of
 probability zero (isolated points, non-integer bounds)

---
 src/spe.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 610ae6b..ff79e18 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -774,11 +774,24 @@ class RealLeaf(LeafSPE):
         raise NotImplementedError()
 
     def flatten_values_contiguous(self, values):
+        # Values having probability zero under any distribution (isolated
+        # points if continuous, and non-integers if discrete) are omitted.
         if isinstance(values, Interval):
-            return [values]
+            if not isinstance(self, DiscreteLeaf):
+                return [values]
+            (xl, xu) = integer_bounds(values)
+            if xu < xl:
+                return []
+            if int_or_isinf_neg(values.left) and int_or_isinf_pos(values.right):
+                return [values]
+            return [Range(xl, xu)]
         if isinstance(values, FiniteReal):
-            assert isinstance(self, DiscreteLeaf)
-            blocks = partition_finite_real_contiguous(values)
+            if not isinstance(self, DiscreteLeaf):
+                return []
+            integers = [int(floor(v)) for v in values if floor(v) == v]
+            if not integers:
+                return []
+            blocks = partition_finite_real_contiguous(FiniteReal(*integers))
             return [Range(min(v), max(v)) for v in blocks]
         if isinstance(values, Union):
             subvalues = (self.flatten_values_contiguous(v) for v in values)
-- 
2.43.0


From 0328c7067285ed4aece4aea19c9f4c8dc0c29cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 08/43] fix: density and constraining of an atomic leaf

---
 src/spe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index ff79e18..9ea2e69 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -964,6 +964,11 @@ class AtomicLeaf(LeafSPE):
     def logprob__(self, event):
         values = self.support & event.solve()
         return -inf if values is EmptySet else 0
+    def logpdf__(self, x):
+        return 0 if not isinstance(x, str) and x == self.value else -inf
+    def constrain__(self, x):
+        assert not isinf_neg(self.logpdf__(x))
+        return self
     def condition__(self, event):
         values = self.support & event.solve()
         if values is EmptySet:
-- 
2.43.0


From 9e776a698bc21c88c6658aaeb5f6894afc2ce1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 09/43] fix: constraining a leaf keeps its derived variables

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 9ea2e69..c877519 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -834,7 +834,7 @@ class RealLeaf(LeafSPE):
 
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
-        return AtomicLeaf(self.symbol, x)
+        return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
         d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
-- 
2.43.0


From 788fb056d9940a1ad9a5f11aa19a6209ea555a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 10/43] fix: atomic leaves with different derived variables are
 not equal

---
 src/spe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index c877519..fd38b64 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -977,12 +977,14 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value)
+        e = tuple(self.env.items())
+        x = (self.__class__, self.symbol, self.value, e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.value == x.value
+            and self.value == x.value \
+            and self.env == x.env
 
 # ==============================================================================
 # Nominal distribution.
-- 
2.43.0


From 5a9f7750031f936262e932c275672b21f5ded6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 11/43] fix: log density of a nominal value with weight zero

---
 src/spe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index fd38b64..3c727cc 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1008,6 +1008,8 @@ class NominalLeaf(LeafSPE):
         if x not in self.dist:
             return -inf
         w = self.dist[x]
+        if w == 0:
+            return -inf
         return log(w.numerator) - log(w.denominator)
 
     def transform(self, symbol, expr):
-- 
2.43.0


From 9477843816160bac392d095c751abb9c27c33d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:58 +0000
Subject: [PATCH 12/43] fix: number minus expression

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 686c074..13ebffa 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -203,7 +203,7 @@ class Transform():
     def __sub__(self, x):
         return self + (-1 * x)
     def __rsub__(self, x):
-        return self - x
+        return -self + x
     # Negation.
     def __neg__(self):
         return -1 * self
-- 
2.43.0


From eaadf1627844c07791033e08d7378ecd821caab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 13/43] fix: mixture components are merged when equal, not when
 their hashes agree

---
 src/sym_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 05d809a..9903ac2 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -45,10 +45,9 @@ def powerset(values, start=0):
 def partition_list_blocks(values):
     partition = OrderedDict([])
     for i, v in enumerate(values):
-        x = hash(v)
-        if x not in partition:
-            partition[x] = []
-        partition[x].append(i)
+        if v not in partition:
+            partition[v] = []
+        partition[v].append(i)
     return list(partition.values())
 
 def partition_finite_real_contiguous(x):
-- 
2.43.0


From 42e1cd9dbebb8903b733ee384297415e62596d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 14/43] fix: simplifying a mixture whose first component is a
 leaf and another is not

---
 src/spe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 3c727cc..e53e5a7 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -360,11 +360,9 @@ class PartialSumSPE(SPE):
         return NotImplemented
 
 def spe_simplify_sum(spe):
-    if isinstance(spe.children[0], LeafSPE):
+    if all(isinstance(c, LeafSPE) for c in spe.children):
         return spe_simplify_sum_leaf(spe)
-    if isinstance(spe.children[0], ProductSPE):
-        return spe_simplify_sum_product(spe)
-    assert False, 'Invalid children of SumSPE: %s' % (spe.children,)
+    return spe_simplify_sum_product(spe)
 
 def spe_simplify_sum_leaf(spe):
     assert all(isinstance(c, LeafSPE) for c in spe.children)
-- 
2.43.0


From c04dd37601ee0622fc58605b548dd0ac3147479c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:23 +0000
Subject: [PATCH 15/43] fix: leaves with different probability tables are not
 equal

---
 src/spe.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index e53e5a7..8f451b4 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -830,12 +830,19 @@ class RealLeaf(LeafSPE):
         # Unknown set.
         assert False, 'Unknown set type: %s' % (values,)
 
+    def get_table(self):
+        # Values and probabilities of rv_discrete, not in args or kwds.
+        xk = getattr(self.dist.dist, 'xk', ())
+        pk = getattr(self.dist.dist, 'pk', ())
+        return (tuple(xk), tuple(pk))
+
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
         return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
+        d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()),
+            self.get_table())
         e = tuple(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
@@ -845,6 +852,7 @@ class RealLeaf(LeafSPE):
             and self.dist.dist.name == x.dist.dist.name \
             and self.dist.args == x.dist.args \
             and self.dist.kwds == x.dist.kwds \
+            and self.get_table() == x.get_table() \
             and self.support == x.support \
             and self.conditioned == x.conditioned \
             and self.env == x.env
-- 
2.43.0


From 410f946e9e7284934346adfd4cce8a9cddc62402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 16/43] fix: queries with memo=False

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 8f451b4..8564c41 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -54,7 +54,7 @@ def memoize(f):
     def f_(*args):
         (spe, event_factor, memo) = args
         if memo is False:
-            return f(spe, event_factor_to_event, memo)
+            return f(spe, event_factor, memo)
         m = getattr(memo, table)
         key = spe.get_memo_key(event_factor)
         if key not in m:
-- 
2.43.0


From a13ade97e72b722e64f9f8968c0dd88584930ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 17/43] fix: negation of an unsatisfiable event on a nominal
 variable

---
 src/transforms.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 13ebffa..0cea5da 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -867,7 +867,7 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 intersection = self.values & event.values
                 if intersection is EmptySet:
-                    return EventFiniteReal(self.subexpr, EmptySet)
+                    return make_event_empty(self, event)
                 if isinstance(intersection, FiniteReal):
                     return EventFiniteReal(self.subexpr, intersection)
                 if isinstance(intersection, FiniteNominal):
@@ -887,7 +887,7 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 union = self.values | event.values
                 if union is EmptySet:
-                    return EventFiniteReal(self.subexpr, EmptySet)
+                    return make_event_empty(self, event)
                 if isinstance(union, FiniteReal):
                     return EventFiniteReal(self.subexpr, union)
                 if isinstance(union, FiniteNominal):
@@ -1071,7 +1071,7 @@ class EventFiniteNominal(EventBasic):
     def __str__(self):
         return '%s << %s' % (str(self.subexpr), str(self.values))
     def __invert__(self):
-        values_not = ~self.values
+        values_not = Strings if self.values is EmptySet else ~self.values
         return EventFiniteNominal(self.subexpr, values_not)
 
 class EventCompound(Event):
@@ -1230,6 +1230,13 @@ def make_subexpr(subexpr, expr=None):
     raise TypeError('Invalid subexpr %s with type %s'
         % (subexpr, str(type(subexpr))))
 
+def make_event_empty(a, b):
+    # Unsatisfiable event; its negation depends on the kind of values.
+    nominal = isinstance(a, EventFiniteNominal) \
+        and isinstance(b, EventFiniteNominal)
+    constructor = EventFiniteNominal if nominal else EventFiniteReal
+    return constructor(a.subexpr, EmptySet)
+
 def make_event(event):
     if isinstance(event, Event):
         return event
-- 
2.43.0


From c8abe827617b49d1139f20a613053194c17dc9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 18/43] fix: an unsatisfiable event on a variable normalizes to
 nothing

---
 src/dnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnf.py b/src/dnf.py
index aef0777..4c9ee59 100644
--- a/src/dnf.py
+++ b/src/dnf.py
@@ -66,7 +66,7 @@ def dnf_factor(event, lookup=None):
 def dnf_normalize(event):
     if isinstance(event, EventBasic):
         if isinstance(event.subexpr, Id):
-            return event
+            return event if event.values is not EmptySet else None
     # Given an arbitrary event, rewrite in terms of only Id by
     # solving the subexpressions and return the resulting DNF formula,
     # or None if all solutions evaluate to EmptySet.
-- 
2.43.0


From af576ff1ecce7d4650890e70a740a33080c96b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 19/43] fix: sums and differences of expressions that are
 constant

---
 src/transforms.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 0cea5da..45c55c8 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -102,10 +102,10 @@ class Transform():
         if poly_x.subexpr != poly_self.subexpr:
             raise ValueError('Incompatible subexpressions in "%s + %s"'
                 % (str(self), x))
-        sym_poly_a = sympy.Poly(poly_self.symexpr)
-        sym_poly_b = sympy.Poly(poly_x.symexpr)
+        sym_poly_a = sympy.Poly(poly_self.symexpr, symX)
+        sym_poly_b = sympy.Poly(poly_x.symexpr, symX)
         sym_poly_c = sym_poly_a + sym_poly_b
-        coeffs = sym_poly_c.all_coeffs()[::-1]
+        coeffs = get_poly_coeffs(sym_poly_c)
         return Poly(poly_self.subexpr, coeffs)
     def __add__(self, x):
         # Try to add x as a number.
@@ -147,7 +147,7 @@ class Transform():
         sym_poly_a = sympy.Poly(poly_self.symexpr, symX)
         sym_poly_b = sympy.Poly(poly_x.symexpr, symX)
         sym_poly_c = sym_poly_a * sym_poly_b
-        coeffs = sym_poly_c.all_coeffs()[::-1]
+        coeffs = get_poly_coeffs(sym_poly_c)
         return Poly(poly_self.subexpr, coeffs)
     def __mul__(self, x):
         # Try to multiply x as a number.
@@ -1222,6 +1222,11 @@ def make_sympy_polynomial(coeffs):
     terms = [c*symX**i for (i,c) in enumerate(coeffs)]
     return sympy.Add(*terms)
 
+def get_poly_coeffs(sym_poly):
+    # Coefficients in increasing degree; a constant has a zero linear term.
+    coeffs = sym_poly.all_coeffs()[::-1]
+    return coeffs if len(coeffs) > 1 else coeffs + [0]
+
 def make_subexpr(subexpr, expr=None):
     if isinstance(subexpr, Transform):
         if expr is not None:
-- 
2.43.0


From 498deea53faec3270822bf82be30481dd0a25862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 20/43] fix: value of a logarithm is a number

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 45c55c8..d9eb4dd 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -501,7 +501,7 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return {sympy.log(x, self.base) if x > 0 else -oo}
+        return sympy.log(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From ea4383a6e53cbf69fbb9e9178ff13053df63e4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 21/43] fix: value of a piecewise expression

---
 src/transforms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index d9eb4dd..3f2b27d 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -719,10 +719,12 @@ class Piecewise(Transform):
         events_prime = [event.subs(env) for event in self.events]
         return Piecewise(subexprs_prime, events_prime)
     def evaluate(self, assignment):
-        raise NotImplementedError()
+        (symbol,) = self.symbols
+        return self.ffwd(symbol.evaluate(assignment))
     def ffwd(self, x):
+        (symbol,) = self.symbols
         index = next(i for i, domain in enumerate(self.domains) if x in domain)
-        return self.subexprs[index].ffwd(x)
+        return self.subexprs[index].evaluate({symbol: x})
     def finv(self, y):
         xs_list = get_piecewise_inverse(lambda subexpr: subexpr.finv(y),
             self.subexprs, self.domains)
-- 
2.43.0


From bf7f6a0d27224a915bbc309383d1285d4ac27fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:05 +0000
Subject: [PATCH 22/43] fix: solving exponentials whose base is at most one

---
 src/transforms.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 3f2b27d..1b4dc98 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -351,7 +351,9 @@ class Injective(Transform):
         (a, b) = (ys.left, ys.right)
         a_prime = next(iter(self.finv(a)))
         b_prime = next(iter(self.finv(b)))
-        ys_prime = transform_interval(ys, a_prime, b_prime)
+        ys_prime = transform_interval(ys, a_prime, b_prime) \
+            if a_prime < b_prime else \
+            transform_interval(ys, b_prime, a_prime, flip=True)
         return self.subexpr.invert(ys_prime)
 
 class Identity(Injective):
@@ -447,7 +449,7 @@ class Exponential(Injective):
     def domain(self):
         return ExtReals
     def range(self):
-        return ExtRealsPos
+        return ExtRealsPos if self.base != 1 else FiniteReal(1)
     def subs(self, env):
         if not expr_in_env(self, env):
             return self
@@ -462,10 +464,12 @@ class Exponential(Injective):
     def finv(self, y):
         if not y in self.range():
             return EmptySet
+        if self.base == 1:
+            return ExtReals
         if isinf_pos(y):
-            return FiniteReal(oo)
+            return FiniteReal(oo if self.base > 1 else -oo)
         if y <= 0:
-            return FiniteReal(-oo)
+            return FiniteReal(-oo if self.base > 1 else oo)
         return FiniteReal(sympy.log(y, self.base))
     def __eq__(self, x):
         return isinstance(x, Exponential) \
-- 
2.43.0


From ce71136cc51ac57ed1df9ce278a3ee4d0017977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 23/43] fix: expressions and events are not numbers whatever
 their variable is called

---
 src/sym_util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sym_util.py b/src/sym_util.py
index 9903ac2..0c146a6 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -67,6 +67,10 @@ def sympify_number(x):
     if isinstance(x, (int, float)):
         return x
     msg = 'Expected a numeric term, not %s' % (x,)
+    # Expressions and events are not numbers, even if the name of a variable
+    # (e.g., E, pi, oo) is a constant in sympy.
+    if hasattr(x, 'get_symbols'):
+        raise TypeError(msg)
     try:
         # String fallback in sympify has been deprecated since SymPy 1.6. Use
         # sympify(str(obj)) or sympy.core.sympify.converter or obj._sympy_
-- 
2.43.0


From c3c13581849e93a935a0ae8d338297484210f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 24/43] fix: dividing a variable by an irrational constant

---
 src/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 1b4dc98..a29a9c1 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -176,7 +176,9 @@ class Transform():
     # Division by x.
     def __truediv__number(self, x):
         x_val = sympify_number(x)
-        return sympy.Rational(1, x_val) * self
+        x_inv = sympy.Pow(x_val, -1) if isinstance(x_val, sympy.Basic) \
+            else sympy.Rational(1, x_val)
+        return x_inv * self
     def __truediv__(self, x):
         # Try to divide by x as a number.
         try:
-- 
2.43.0


From 8263ad2b6c744a39e047b989e1802f370942b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 25/43] fix: numerical solutions of polynomials with repeated,
 missing or touching roots

---
 src/poly.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index df634cd..19857cb 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -56,12 +56,14 @@ def solve_poly_inequality_symbolically(expr, b, strict):
 
 def solve_poly_inequality_numerically(expr, b, strict):
     poly = expr - b
-    symX = get_poly_symbol(expr)
-    # Obtain numerical roots.
-    roots = sympy.nroots(poly)
-    zeros = sorted([r for r in roots if r.is_real])
+    # Obtain distinct numerical roots.
+    zeros = get_poly_real_zeros(poly)
     if not zeros:
-        return sympy.EmptySet
+        f_zero = poly.subs(get_poly_symbol(expr), 0) \
+            if get_symbols(expr) else poly
+        return Reals if (f_zero < 0 or (f_zero == 0 and not strict)) \
+            else EmptySet
+    symX = get_poly_symbol(expr)
     # Construct intervals around roots.
     mk_intvl = lambda a, b: \
         Interval(a, b, left_open=strict, right_open=strict)
@@ -79,7 +81,20 @@ def solve_poly_inequality_numerically(expr, b, strict):
     f_xs_probe = [poly.subs(symX, x) for x in xs_probe]
     # Return intervals where poly is less than zero.
     idxs = [i for i, fx in enumerate(f_xs_probe) if fx < 0]
-    return make_union(*[intervals[i] for i in idxs])
+    # Include isolated zeros, which may not border any such interval.
+    points = EmptySet if strict else FiniteReal(*zeros)
+    return make_union(points, *[intervals[i] for i in idxs])
+
+def get_poly_real_zeros(poly):
+    # Distinct real roots in increasing order (none if poly is constant).
+    if not get_symbols(poly):
+        return []
+    # Drop repeated factors, whose roots nroots fails to find reliably.
+    poly_exact = sympy.Poly(poly, get_poly_symbol(poly)).to_exact()
+    if poly_exact.domain.is_ZZ or poly_exact.domain.is_QQ:
+        poly = poly_exact.sqf_part().as_expr()
+    roots = sympy.nroots(poly)
+    return sorted(set(r for r in roots if r.is_real))
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -93,6 +108,8 @@ def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Maximum value of polynomial is positive infinity.
     else:
         if strict:
+            if not get_symbols(expr):
+                return ExtReals if ext else Reals
             xinf = solve_poly_equality_inf(expr, -oo) if ext else EmptySet
             return Reals | xinf
         else:
@@ -126,12 +143,16 @@ def solve_poly_equality_symbolically(expr, b):
     return sympy.Intersection(soln_lt, soln_gt)
 
 def solve_poly_equality_numerically(expr, b):
-    roots = sympy.nroots(expr-b)
-    zeros = [r for r in roots if r.is_real]
-    return FiniteReal(*zeros)
+    poly = expr - b
+    if not get_symbols(poly):
+        return Reals if poly == 0 else EmptySet
+    zeros = get_poly_real_zeros(poly)
+    return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
     assert isinf(b)
+    if not get_symbols(expr):
+        return EmptySet
     symX = get_poly_symbol(expr)
     val_pos_inf = limit(expr, symX, oo)
     val_neg_inf = limit(expr, symX, -oo)
-- 
2.43.0


From edd903c075dfda9db109841b90dfa34fc3dcc101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:29 +0000
Subject: [PATCH 26/43] fix: compare numbers in sets by value, not by
 type-dependent hash

---
 src/math_util.py | 15 +++++++++++++++
 src/sets.py      | 29 +++++++++++++----------------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/math_util.py b/src/math_util.py
index 09a6a66..3af2e52 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -53,3 +53,18 @@ def random(x):
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
 float_to_int = lambda a: a if isinf(a) else int(a)
+
+# Numbers of different types (e.g., Python and sympy floats) can be equal but
+# have different hashes, so do not rely on hashes to compare them.
+def unique_numbers(values):
+    unique = []
+    for v in values:
+        if not any(v == u for u in unique):
+            unique.append(v)
+    return unique
+
+def hash_number(x):
+    try:
+        return hash(float(x))
+    except OverflowError:
+        return hash(x)
diff --git a/src/sets.py b/src/sets.py
index b738e4a..ca70b90 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -4,10 +4,12 @@
 from functools import reduce
 from itertools import chain
 
+from .math_util import hash_number
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
 from .math_util import isinf_neg
 from .math_util import isinf_pos
+from .math_util import unique_numbers
 
 inf = float('inf')
 oo = inf
@@ -107,7 +109,7 @@ class FiniteNominal(Set):
 class FiniteReal(Set):
     def __init__(self, *values):
         assert values
-        self.values = frozenset(values)
+        self.values = frozenset(unique_numbers(values))
     def __contains__(self, x):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
@@ -122,10 +124,7 @@ class FiniteReal(Set):
             [Interval.Lopen(values[-1], inf)])
         return Union(*intervals)
     def __and__(self, x):
-        if isinstance(x, FiniteReal):
-            values = self.values & x.values
-            return FiniteReal(*values) if values else EmptySet
-        if isinstance(x, Interval):
+        if isinstance(x, (FiniteReal, Interval)):
             values = {v for v in self.values if v in x}
             return FiniteReal(*values) if values else EmptySet
         if isinstance(x, FiniteNominal):
@@ -135,23 +134,19 @@ class FiniteReal(Set):
         return NotImplemented
     def __or__(self, x):
         if isinstance(x, FiniteReal):
-            values = self.values | x.values
-            return FiniteReal(*values)
+            return FiniteReal(*self.values, *x.values)
         if isinstance(x, Interval):
             # Merge endpoints.
-            values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open:
-                values.remove(interval.a)
+            if interval.a in self and interval.left_open:
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open:
-                values.remove(interval.b)
+            if interval.b in self and interval.right_open:
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
                     right_open=None)
-            values = {v for v in values if v not in interval}
+            values = {v for v in self.values if v not in interval}
             return Union(FiniteReal(*values), interval) if values else interval
         if isinstance(x, FiniteNominal):
             return Union(self, x)
@@ -160,9 +155,10 @@ class FiniteReal(Set):
         return NotImplemented
     def __eq__(self, x):
         return isinstance(x, FiniteReal) \
-            and self.values == x.values
+            and len(self) == len(x) \
+            and all(v in x for v in self.values)
     def __hash__(self):
-        x = (self.__class__, self.values)
+        x = (self.__class__, frozenset(hash_number(v) for v in self.values))
         return hash(x)
     def __repr__(self):
         return 'FiniteReal(%s)' % (', '.join(repr(x) for x in self.values))
@@ -257,7 +253,8 @@ class Interval(Set):
             and bool(self.left_open) == bool(x.left_open) \
             and bool(self.right_open) == bool(x.right_open)
     def __hash__(self):
-        x = (self.__class__, self.a, self.b, self.left_open, self.right_open)
+        x = (self.__class__, hash_number(self.a), hash_number(self.b),
+            bool(self.left_open), bool(self.right_open))
         return hash(x)
     def __repr__(self):
         return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
-- 
2.43.0


From cc447e56e43443055d2c309d2862ea7d0a7dc42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 27/43] fix: equal expressions and distributions have equal
 hashes

Constants of different number types, the order of derived variables and of
nominal outcomes changed the hash of objects that compare equal; a Piecewise
could not be hashed at all.
---
 src/spe.py        |  9 +++++----
 src/transforms.py | 10 ++++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 8564c41..95205b1 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -21,6 +21,7 @@ from .dnf import dnf_to_disjoint_union
 from .math_util import allclose
 from .math_util import flip
 from .math_util import float_to_int
+from .math_util import hash_number
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
 from .math_util import isinf_neg
@@ -843,7 +844,7 @@ class RealLeaf(LeafSPE):
     def __hash__(self):
         d = (self.dist.dist.name, self.dist.args, frozenset(self.dist.kwds.items()),
             self.get_table())
-        e = tuple(self.env.items())
+        e = frozenset(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
@@ -983,8 +984,8 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        e = tuple(self.env.items())
-        x = (self.__class__, self.symbol, self.value, e)
+        e = frozenset(self.env.items())
+        x = (self.__class__, self.symbol, hash_number(self.value), e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
@@ -1057,7 +1058,7 @@ class NominalLeaf(LeafSPE):
         return NominalLeaf(self.symbol, {x: 1})
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, tuple(self.dist.items()))
+        x = (self.__class__, self.symbol, frozenset(self.dist.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
diff --git a/src/transforms.py b/src/transforms.py
index a29a9c1..78b990e 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -14,6 +14,7 @@ from sympy.abc import X as symX
 from sympy.calculus.util import function_range
 from sympy.calculus.util import limit
 
+from .math_util import hash_number
 from .math_util import isinf_neg
 from .math_util import isinf_pos
 
@@ -485,7 +486,7 @@ class Exponential(Injective):
             return 'exp(%s)' % (str(self.subexpr),)
         return '%s**(%s)' % (self.base, str(self.subexpr))
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        x = (self.__class__, self.subexpr, hash_number(self.base))
         return hash(x)
 
 class Logarithm(Injective):
@@ -528,7 +529,7 @@ class Logarithm(Injective):
             return 'log2(%s)' % (str(self.subexpr),)
         return 'log(%s; %s)' % (str(self.subexpr), self.base)
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        x = (self.__class__, self.subexpr, hash_number(self.base))
         return hash(x)
 
 # ==============================================================================
@@ -700,7 +701,8 @@ class Poly(Transform):
         terms = [term_to_str(i, c)  for i, c in enumerate(self.coeffs)]
         return ' + '.join([t for t in terms if t])
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.coeffs)
+        coeffs = tuple(hash_number(c) for c in self.coeffs)
+        x = (self.__class__, self.subexpr, coeffs)
         return hash(x)
 
 # ==============================================================================
@@ -763,7 +765,7 @@ class Piecewise(Transform):
         ]
         return ' + '.join(strings)
     def __hash__(self):
-        x = (self.__class__, self.subexprs, self.events)
+        x = (self.__class__, tuple(self.subexprs), tuple(self.events))
         return hash(x)
 
 def get_piecewise_symbol(subexprs, events):
-- 
2.43.0


From b84db46444d74351eb513ccc5d44c232f8aebcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 28/43] fix: events on quartics whose critical points sympy
 cannot classify

---
 src/transforms.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 78b990e..e2be31f 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -643,7 +643,12 @@ class Poly(Transform):
     def domain(self):
         return ExtReals
     def range(self):
-        result = function_range(self.symexpr, symX, sympy.Reals)
+        try:
+            result = function_range(self.symexpr, symX, sympy.Reals)
+        except TypeError:
+            # Sympy cannot decide which critical points are real. The range
+            # only serves to skip values that have no solutions.
+            return ExtReals
         if isinstance(result, sympy.FiniteSet):
             return FiniteReal(*[float(x) for x in result.args])
         pos_inf = FiniteReal(oo) if result.right == oo else EmptySet
-- 
2.43.0


From 2ce9251157c336e853e00413e491857275727531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 29/43] fix: conditions with and, or, not and chained
 comparisons

Python's own and/or/not on events kept only one operand, and a chained
comparison kept only its last one, so that part of the condition was silently
dropped. Comparisons of plain constants stay Python comparisons.
---
 src/compilers/sppl_to_python.py | 39 ++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 31b5d7d..8ea5b9f 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -14,6 +14,7 @@ from types import SimpleNamespace
 from collections import namedtuple
 from collections import OrderedDict
 from contextlib import contextmanager
+from functools import reduce
 
 from astunparse import unparse
 
@@ -142,7 +143,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         if isinstance(target, ast.Subscript):
             assert target.value.id in self.variables, unode
             assert self.variables[target.value.id][0] == 'array', unode
-        value_prime = SPPL_Transformer_Compare().visit(node.value)
+        value_prime = SPPL_Transformer_Compare(self.variables).visit(node.value)
         src_value = unparse(value_prime).replace(os.linesep, '')
         src_targets = unparse(node.targets).replace(os.linesep, '')
         idt = get_indentation(self.indentation)
@@ -231,7 +232,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.indentation += 4
         for i, (test, body) in enumerate(unrolled):
             # Write the test.
-            test_prime = SPPL_Transformer_Compare().visit(test)
+            test_prime = SPPL_Transformer_Compare(self.variables).visit(test)
             src_test = unparse(test_prime).strip()
             idt = get_indentation(self.indentation)
             self.command.write('%s%s,' % (idt, src_test))
@@ -257,7 +258,7 @@ class SPPL_Visitor(ast.NodeVisitor):
             assert len(node.args) == 1, unode
             idt = get_indentation(self.indentation)
             event = node.args[0]
-            event_prime = SPPL_Transformer_Compare().visit(event)
+            event_prime = SPPL_Transformer_Compare(self.variables).visit(event)
             src_event = unparse(event_prime).strip()
             self.command.write('%sCondition(%s),' % (idt, src_event))
             self.command.write('\n')
@@ -293,10 +294,38 @@ def unroll_ifexp(target, node):
     return expr
 
 class SPPL_Transformer_Compare(ast.NodeTransformer):
+    def __init__(self, variables):
+        self.variables = variables
+    def is_random(self, node):
+        visitor_name = SPPL_Visitor_Name(frozenset(), self.variables)
+        visitor_name.visit(node)
+        return bool(visitor_name.variables)
+    def visit_BoolOp(self, node):
+        node = self.generic_visit(node)
+        # Python truth values (which come first) are left to Python.
+        values = [v for v in node.values if not self.is_random(v)]
+        events = [v for v in node.values if self.is_random(v)]
+        if not events:
+            return node
+        op = ast.BitAnd() if isinstance(node.op, ast.And) else ast.BitOr()
+        event = reduce(lambda x, e: ast.BinOp(left=x, op=op, right=e), events)
+        if not values:
+            return event
+        return ast.BoolOp(op=node.op, values=values + [event])
+    def visit_UnaryOp(self, node):
+        node = self.generic_visit(node)
+        if isinstance(node.op, ast.Not) and self.is_random(node.operand):
+            return ast.UnaryOp(op=ast.Invert(), operand=node.operand)
+        return node
     def visit_Compare(self, node):
-        # TODO: Implement or/and.
-        if len(node.ops) > 1:
+        if not self.is_random(node):
             return node
+        if len(node.ops) > 1:
+            terms = [node.left] + node.comparators
+            return self.visit(ast.BoolOp(op=ast.And(), values=[
+                ast.Compare(left=left, ops=[op], comparators=[right])
+                for left, op, right in zip(terms, node.ops, terms[1:])
+            ]))
         if isinstance(node.ops[0], ast.In):
             return ast.BinOp(
                 left=node.left,
-- 
2.43.0


From 73e6c3fb7905463f9d2022742f11734ca795bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 30/43] fix: constants and variables assigned from calls of
 attributes

c = math.sqrt(2) crashed with an AttributeError.
---
 src/compilers/sppl_to_python.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 8ea5b9f..75187a4 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -97,12 +97,14 @@ class SPPL_Visitor(ast.NodeVisitor):
                 self.distributions[d] = None
 
         # Assigning an array.
-        if isinstance(value, ast.Call) and value.func.id == 'array':
+        func = value.func if isinstance(value, ast.Call) else None
+        func_id = func.id if isinstance(func, ast.Name) else None
+        if func_id == 'array':
             return self.visit_Assign_array(node)
         # Assigning a distribution.
         if visitor_name.distributions:
             # Assigning distribution (directly).
-            if isinstance(value, ast.Call) and value.func.id in DISTRIBUTIONS:
+            if func_id in DISTRIBUTIONS:
                 return self.visit_Assign_sample_or_transform(node, 'Sample')
             # Assigning distribution (mixture).
             if isinstance(value, ast.BinOp) and isinstance(value.op, ast.BitOr):
-- 
2.43.0


From 33ce16c40fb626a6a7e23da76cd0fe051ef14767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 31/43] fix: repeated assignments of constants keep their order

A statement that occurs twice was emitted only at its first position.
---
 src/compilers/sppl_to_python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 75187a4..81c2ac6 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -53,7 +53,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         self.context = ['global']
         self.command = stream or io.StringIO()
         self.imports = []
-        self.constants = OrderedDict()
+        self.constants = []
         self.variables = OrderedDict()
         self.distributions = OrderedDict()
 
@@ -158,7 +158,7 @@ class SPPL_Visitor(ast.NodeVisitor):
         if self.distributions:
             assert False, 'constants only before sampling %s' % (unode,)
         str_node = unode.strip()
-        self.constants[str_node] = None
+        self.constants.append(str_node)
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
-- 
2.43.0


From c0defedf9fad67e9289f550b5564e419f187143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 32/43] fix: switch over a list whose expression contains 'in'

The greedy pattern split the cases at the last 'in', which may be that of a
comprehension.
---
 src/compilers/sppl_to_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 81c2ac6..c4ad509 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -381,7 +381,7 @@ class SPPL_Compiler():
         source_prime = os.linesep.join(l for l in lines if l.strip())
         source_prime = source_prime.replace('~=', '=')
         source_prime = re.sub(
-            r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+)\s*in\s+(.+)\s*\)\s*:',
+            r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+?)\s+in\s+(.+)\s*\)\s*:',
             r"\1for \3 in switch(\2, \4):",
             source_prime, flags=re.MULTILINE)
         return source_prime
-- 
2.43.0


From 0f1a1109a075bf3eeaeed113cf34d9ab28433a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 33/43] fix: keep '~=' inside strings and comments

---
 src/compilers/sppl_to_python.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index c4ad509..7fc92fc 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -379,7 +379,11 @@ class SPPL_Compiler():
     def preprocess(self):
         lines = self.source.split(os.linesep)
         source_prime = os.linesep.join(l for l in lines if l.strip())
-        source_prime = source_prime.replace('~=', '=')
+        # Replace ~= with =, except in strings and comments.
+        source_prime = re.sub(
+            r'("(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|#[^\n]*)|~=',
+            lambda match: match.group(1) or '=',
+            source_prime)
         source_prime = re.sub(
             r'^(\s*)switch\s*\((.+)\)\s*cases\s*\((.+?)\s+in\s+(.+)\s*\)\s*:',
             r"\1for \3 in switch(\2, \4):",
-- 
2.43.0


From b399661596cd022e7014c75ba854af292713a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 34/43] fix: exact numbers survive serialisation to a
 dictionary

Rationals came back as floats, pi, log, exp and roots of polynomials could not
be evaluated, and atoms at exact numbers were not JSON friendly.
---
 src/compilers/spe_to_dict.py | 46 +++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 671648b..468e831 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -3,11 +3,21 @@
 
 """Convert SPE to JSON friendly dictionary."""
 
+import ast
+
 from fractions import Fraction
 
 import scipy.stats
+
+# Needed for "eval"
+from sympy import CRootOf
 from sympy import E
+from sympy import Integer
+from sympy import exp
+from sympy import log
+from sympy import pi
 from sympy import sqrt
+from sympy.abc import x
 
 from ..spe import AtomicLeaf
 from ..spe import ContinuousLeaf
@@ -33,11 +43,35 @@ from ..transforms import EventFiniteNominal
 from ..transforms import EventOr
 from ..transforms import EventAnd
 
+class ExactNumbers(ast.NodeTransformer):
+    """Make integers in arithmetic exact, so that 1/3 is not a float."""
+    def visit_BinOp(self, node):
+        node = self.generic_visit(node)
+        node.left = self.to_integer(node.left)
+        node.right = self.to_integer(node.right)
+        return node
+    def to_integer(self, node):
+        if isinstance(node, ast.UnaryOp):
+            node.operand = self.to_integer(node.operand)
+        if isinstance(node, ast.Constant) and isinstance(node.value, int):
+            return ast.Call(ast.Name('Integer', ast.Load()), [node], [])
+        return node
+
+def eval_repr(string):
+    """Evaluate the repr of a number, set, transform, or event."""
+    tree = ExactNumbers().visit(ast.parse(string, mode='eval'))
+    return eval(compile(ast.fix_missing_locations(tree), '<repr>', 'eval'))
+
+def number_from_dict(value):
+    return eval_repr(value) if isinstance(value, str) else value
+
+def number_to_dict(value):
+    return value if isinstance(value, (int, float)) else repr(value)
+
 def env_from_dict(env):
     if env is None:
         return None
-    # Used in eval.
-    return {eval(k): eval(v) for k, v in env.items()}
+    return {eval_repr(k): eval_repr(v) for k, v in env.items()}
 
 def env_to_dict(env):
     if len(env) == 1:
@@ -62,20 +96,20 @@ def spe_from_dict(metadata):
         return NominalLeaf(symbol, dist)
     if metadata['class'] == 'AtomicLeaf':
         symbol = Id(metadata['symbol'])
-        value = float(metadata['value'])
+        value = number_from_dict(metadata['value'])
         env = env_from_dict(metadata['env'])
         return AtomicLeaf(symbol, value, env=env)
     if metadata['class'] == 'ContinuousLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = eval_repr(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return ContinuousLeaf(symbol, dist, support, conditioned, env=env)
     if metadata['class'] == 'DiscreteLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = eval_repr(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return DiscreteLeaf(symbol, dist, support, conditioned, env=env)
@@ -104,7 +138,7 @@ def spe_to_dict(spe):
         return {
             'class'        : 'AtomicLeaf',
             'symbol'       : spe.symbol.token,
-            'value'        : spe.value,
+            'value'        : number_to_dict(spe.value),
             'env'          : env_to_dict(spe.env),
         }
     if isinstance(spe, ContinuousLeaf):
-- 
2.43.0


From 795b3b8b8f3d2c64d4a477b206173f1c6c89d848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:14 +0000
Subject: [PATCH 35/43] fix: tables of values survive serialisation to a
 dictionary

The values of rv_discrete are in neither args nor kwds of the frozen object.
---
 src/compilers/spe_to_dict.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 468e831..c23aacc 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -79,10 +79,16 @@ def env_to_dict(env):
     return {repr(k): repr(v) for k, v in env.items()}
 
 def scipy_dist_from_dict(dist):
+    if dist['name'] == 'rv_discrete':
+        return scipy.stats.rv_discrete(**dist['kwds']).freeze()
     constructor = getattr(scipy.stats, dist['name'])
     return constructor(*dist['args'], **dist['kwds'])
 
 def scipy_dist_to_dict(dist):
+    if hasattr(dist.dist, 'xk'):
+        # Values and probabilities of rv_discrete, not in args or kwds.
+        values = (dist.dist.xk.tolist(), dist.dist.pk.tolist())
+        return {'name': 'rv_discrete', 'args': (), 'kwds': {'values': values}}
     return {
         'name': dist.dist.name,
         'args': dist.args,
-- 
2.43.0


From dbec0f92db6313f7634a3ef6dbae91d2a0ad5fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 36/43] fix: ranges of distributions that left out part of
 their mass

genlogistic, gumbel_l, loggamma, powernorm and tukeylambda range over all reals,
cosine over [-pi, pi], kstwobign (which has no parameter n) over the positive
reals, and the low end of hypergeom is max(0, N-M+n).
---
 src/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index d1816f0..7c3d4d3 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -149,7 +149,7 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi/2, sympy.pi/2)
+    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -219,7 +219,7 @@ class foldnorm(ContinuousReal):
 class genlogistic(ContinuousReal):
     """A generalized logistic continuous random variable."""
     dist = scipy.stats.genlogistic
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class gennorm(ContinuousReal):
     """A generalized normal continuous random variable."""
@@ -294,7 +294,7 @@ class gumbel_r(ContinuousReal):
 class gumbel_l(ContinuousReal):
     """A left-skewed Gumbel continuous random variable."""
     dist = scipy.stats.gumbel_l
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class halfcauchy(ContinuousReal):
     """A Half-Cauchy continuous random variable."""
@@ -364,7 +364,7 @@ class ksone(ContinuousReal):
 class kstwobign(ContinuousReal):
     """Kolmogorov-Smirnov two-sided test for large N."""
     dist = scipy.stats.kstwobign
-    def get_domain(self): return Interval(0, sympy.sqrt(self.kwargs['n']))
+    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class laplace(ContinuousReal):
     """A Laplace continuous random variable."""
@@ -394,7 +394,7 @@ class logistic(ContinuousReal):
 class loggamma(ContinuousReal):
     """A log gamma continuous random variable."""
     dist = scipy.stats.loggamma
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return Reals
 
 class loglaplace(ContinuousReal):
     """A log-Laplace continuous random variable."""
@@ -485,7 +485,7 @@ class powerlognorm(ContinuousReal):
 class powernorm(ContinuousReal):
     """A power normal continuous random variable."""
     dist = scipy.stats.powernorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
@@ -551,7 +551,7 @@ class truncnorm(ContinuousReal):
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
     dist = scipy.stats.tukeylambda
-    def get_domain(self): return RealsPosLoc(self.kwargs)
+    def get_domain(self): return Reals
 
 class uniform(ContinuousReal):
     """A uniform continuous random variable."""
@@ -637,7 +637,7 @@ class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
     def get_domain(self):
-        low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
+        low = max(0, self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
         high = min(self.kwargs['n'], self.kwargs['N'])
         return Range(low, high)
 
-- 
2.43.0


From e06f9d87643a97b1412909c60e8bed9f097f8266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 37/43] fix: ranges of shifted and scaled continuous
 distributions

loc and scale were ignored by the ranges of 16 distributions, so that events lost
some or all of their probability.
---
 src/distributions.py | 44 ++++++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index 7c3d4d3..5241056 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -78,6 +78,18 @@ def RealsPosLoc(kwargs):
         return Interval(kwargs['loc'], oo)
     return RealsPos
 
+def RealsNegLoc(kwargs):
+    if 'loc' in kwargs:
+        return Interval(-oo, kwargs['loc'])
+    return RealsNeg
+
+def IntervalLocScale(left, right, kwargs):
+    loc = kwargs.get('loc', 0)
+    scale = kwargs.get('scale', 1)
+    left_loc = loc + left * scale if left != -oo else left
+    right_loc = loc + right * scale if right != oo else right
+    return Interval(left_loc, right_loc)
+
 def UnitIntervalLocScale(kwargs):
     loc = kwargs.get('loc', 0)
     scale = kwargs.get('scale', 1)
@@ -94,7 +106,7 @@ class alpha(ContinuousReal):
 class anglit(ContinuousReal):
     """An anglit continuous random variable."""
     dist = scipy.stats.anglit
-    def get_domain(self): return Interval(-sympy.pi/4, sympy.pi/4)
+    def get_domain(self): return IntervalLocScale(-sympy.pi/4, sympy.pi/4, self.kwargs)
 
 class arcsine(ContinuousReal):
     """An arcsine continuous random variable."""
@@ -149,7 +161,7 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return IntervalLocScale(-sympy.pi, sympy.pi, self.kwargs)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -244,9 +256,9 @@ class genextreme(ContinuousReal):
         if c == 0:
             return Reals
         elif c > 0:
-            return Interval(-oo, 1/c)
+            return IntervalLocScale(-oo, 1/c, self.kwargs)
         elif c < 0:
-            return Interval(1/c, oo)
+            return IntervalLocScale(1/c, oo, self.kwargs)
         assert False, 'Bad argument "c" for genextreme: %s' % (self.kwargs,)
 
 class gausshyper(ContinuousReal):
@@ -269,7 +281,7 @@ class genhalflogistic(ContinuousReal):
     dist = scipy.stats.genhalflogistic
     def get_domain(self):
         assert self.kwargs['c'] > 0
-        return Interval(0, 1./self.kwargs['c'])
+        return IntervalLocScale(0, 1./self.kwargs['c'], self.kwargs)
 
 class geninvgauss(ContinuousReal):
     """A Generalized Inverse Gaussian continuous random variable."""
@@ -379,7 +391,7 @@ class levy(ContinuousReal):
 class levy_l(ContinuousReal):
     """A left-skewed Levy continuous random variable."""
     dist = scipy.stats.levy_l
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return RealsNegLoc(self.kwargs)
 
 class levy_stable(ContinuousReal):
     """A Levy-stable continuous random variable."""
@@ -409,7 +421,7 @@ class lognorm(ContinuousReal):
 class loguniform(ContinuousReal):
     """A loguniform or reciprocal continuous random variable."""
     dist = scipy.stats.loguniform
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
+    def get_domain(self): return IntervalLocScale(self.kwargs['a'], self.kwargs['b'], self.kwargs)
 
 class lomax(ContinuousReal):
     """A Lomax (Pareto of the second kind) continuous random variable."""
@@ -465,7 +477,7 @@ class norminvgauss(ContinuousReal):
 class pareto(ContinuousReal):
     """A Pareto continuous random variable."""
     dist = scipy.stats.pareto
-    def get_domain(self): return Interval(1, oo)
+    def get_domain(self): return IntervalLocScale(1, oo, self.kwargs)
 
 class pearson3(ContinuousReal):
     """A pearson type III continuous random variable."""
@@ -490,7 +502,7 @@ class powernorm(ContinuousReal):
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
     dist = scipy.stats.rdist
-    def get_domain(self): return Interval(-1, 1)
+    def get_domain(self): return IntervalLocScale(-1, 1, self.kwargs)
 
 class rayleigh(ContinuousReal):
     """A Rayleigh continuous random variable."""
@@ -510,7 +522,7 @@ class recipinvgauss(ContinuousReal):
 class semicircular(ContinuousReal):
     """A semicircular continuous random variable."""
     dist = scipy.stats.semicircular
-    def get_domain(self): return Interval(-1, 1)
+    def get_domain(self): return IntervalLocScale(-1, 1, self.kwargs)
 
 class skewnorm(ContinuousReal):
     """A skew-normal random variable."""
@@ -541,12 +553,12 @@ class triang(ContinuousReal):
 class truncexpon(ContinuousReal):
     """A truncated exponential continuous random variable."""
     dist = scipy.stats.truncexpon
-    def get_domain(self): return Interval(0, self.kwargs['b'])
+    def get_domain(self): return IntervalLocScale(0, self.kwargs['b'], self.kwargs)
 
 class truncnorm(ContinuousReal):
     """A truncated normal continuous random variable."""
     dist = scipy.stats.truncnorm
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
+    def get_domain(self): return IntervalLocScale(self.kwargs['a'], self.kwargs['b'], self.kwargs)
 
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
@@ -564,12 +576,12 @@ class uniform(ContinuousReal):
 class vonmises(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return IntervalLocScale(-sympy.pi, sympy.pi, self.kwargs)
 
 class vonmises_line(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises_line
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self): return IntervalLocScale(-sympy.pi, sympy.pi, self.kwargs)
 
 class wald(ContinuousReal):
     """A Wald continuous random variable."""
@@ -584,12 +596,12 @@ class weibull_min(ContinuousReal):
 class weibull_max(ContinuousReal):
     """Weibull maximum continuous random variable."""
     dist = scipy.stats.weibull_max
-    def get_domain(self): return RealsNeg
+    def get_domain(self): return RealsNegLoc(self.kwargs)
 
 class wrapcauchy(ContinuousReal):
     """A wrapped Cauchy continuous random variable."""
     dist = scipy.stats.wrapcauchy
-    def get_domain(self): return Interval(0, 2*sympy.pi)
+    def get_domain(self): return IntervalLocScale(0, 2*sympy.pi, self.kwargs)
 
 # ==============================================================================
 # DiscreteReal
-- 
2.43.0


From ce757b1c9bc660ee5f3252af1e254c7835de2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 38/43] fix: ranges of shifted discrete distributions

loc was ignored by the ranges of the bounded discrete distributions and of those
over the positive integers.
---
 src/distributions.py | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index 5241056..298e697 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -612,28 +612,42 @@ from .sets import IntegersPos0
 from .sets import Range
 from .spe import DiscreteLeaf
 
+def RangeLoc(start, stop, kwargs):
+    loc = kwargs.get('loc', 0)
+    return Range(start + loc, stop + loc)
+
+def IntegersPosLoc(kwargs):
+    if 'loc' in kwargs:
+        return Interval.Lopen(kwargs['loc'], oo)
+    return IntegersPos
+
+def IntegersPos0Loc(kwargs):
+    if 'loc' in kwargs:
+        return Interval(kwargs['loc'], oo)
+    return IntegersPos0
+
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
     dist = scipy.stats.bernoulli
-    def get_domain(self): return Range(0, 1)
+    def get_domain(self): return RangeLoc(0, 1, self.kwargs)
 
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
-    def get_domain(self): return Range(0, self.kwargs['n'])
+    def get_domain(self): return RangeLoc(0, self.kwargs['n'], self.kwargs)
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
-    def get_domain(self): return Range(0, self.kwargs['n'])
+    def get_domain(self): return RangeLoc(0, self.kwargs['n'], self.kwargs)
 
 class boltzmann(DiscreteReal):
     """A Boltzmann (Truncated Discrete Exponential) random variable."""
     dist = scipy.stats.boltzmann
-    def get_domain(self): return Range(0, self.kwargs['N'])
+    def get_domain(self): return RangeLoc(0, self.kwargs['N'], self.kwargs)
 
 class dlaplace(DiscreteReal):
     """A Laplacian discrete random variable."""
@@ -651,32 +665,34 @@ class hypergeom(DiscreteReal):
     def get_domain(self):
         low = max(0, self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
         high = min(self.kwargs['n'], self.kwargs['N'])
-        return Range(low, high)
+        return RangeLoc(low, high, self.kwargs)
 
 class logser(DiscreteReal):
     """A Logarithmic (Log-Series, Series) discrete random variable."""
     dist = scipy.stats.logser
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return IntegersPosLoc(self.kwargs)
 
 class nbinom(DiscreteReal):
     """A negative binomial discrete random variable."""
     dist = scipy.stats.nbinom
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return IntegersPos0Loc(self.kwargs)
 
 class planck(DiscreteReal):
     """A Planck discrete exponential random variable."""
     dist = scipy.stats.planck
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return IntegersPos0Loc(self.kwargs)
 
 class poisson(DiscreteReal):
     """A Poisson discrete random variable."""
     dist = scipy.stats.poisson
-    def get_domain(self): return IntegersPos0
+    def get_domain(self): return IntegersPos0Loc(self.kwargs)
 
 class randint(DiscreteReal):
     """A uniform discrete random variable."""
     dist = scipy.stats.randint
-    def get_domain(self): return Interval.Ropen(self.kwargs['low'], self.kwargs['high'])
+    def get_domain(self):
+        loc = self.kwargs.get('loc', 0)
+        return Interval.Ropen(self.kwargs['low'] + loc, self.kwargs['high'] + loc)
 
 class skellam(DiscreteReal):
     """A Skellam discrete random variable."""
@@ -686,12 +702,12 @@ class skellam(DiscreteReal):
 class zipf(DiscreteReal):
     """A Zipf discrete random variable."""
     dist = scipy.stats.zipf
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return IntegersPosLoc(self.kwargs)
 
 class yulesimon(DiscreteReal):
     """A Yule-Simon discrete random variable."""
     dist = scipy.stats.yulesimon
-    def get_domain(self): return IntegersPos
+    def get_domain(self): return IntegersPosLoc(self.kwargs)
 
 class atomic(randint):
     """An atomic discrete random variable."""
-- 
2.43.0


From fe376e0bbd485e6d24f03d39dc30a315594f9c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 39/43] fix: shuffle samples of a mixture, not blocks of
 samples

All samples from one component were adjacent, so that the samples at most
positions of a batch did not have the law of the mixture.
---
 src/spe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 95205b1..91f52fe 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -245,9 +245,10 @@ class SumSPE(BranchSPE):
     def sample_many(self, func, N, prng=None):
         selections = logflip(self.weights, self.indexes, N, prng)
         counts = Counter(selections)
-        samples = [func(i, counts[i]) for i in counts]
+        blocks = [func(i, counts[i]) for i in counts]
+        samples = list(chain.from_iterable(blocks))
         random(prng).shuffle(samples)
-        return list(chain.from_iterable(samples))
+        return samples
 
     def transform(self, symbol, expr):
         children = [spe.transform(symbol, expr) for spe in self.children]
-- 
2.43.0


From bb8255205fa3bcac54821e6274c7f6f9a5357bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:05 +0000
Subject: [PATCH 40/43] fix: render discrete leaves as such

The case of DiscreteLeaf was never reached, because it is a RealLeaf.
---
 src/render.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/render.py b/src/render.py
index 7493e8e..90e7177 100644
--- a/src/render.py
+++ b/src/render.py
@@ -37,17 +37,18 @@ def render_nested_lists(spe):
             ['value', spe.value],
             ['env', dict(spe.env)]]
         ]
-    if isinstance(spe, RealLeaf):
-        return ['RealLeaf', [
+    if isinstance(spe, DiscreteLeaf):
+        return ['DiscreteLeaf', [
             ['symbol', spe.symbol],
             ['env', dict(spe.env)],
             ['dist', (spe.dist.dist.name, spe.dist.args, spe.dist.kwds)],
             ['support', spe.support],
             ['conditioned', spe.conditioned]]
         ]
-    if isinstance(spe, DiscreteLeaf):
-        return ['DiscreteLeaf', [
+    if isinstance(spe, RealLeaf):
+        return ['RealLeaf', [
             ['symbol', spe.symbol],
+            ['env', dict(spe.env)],
             ['dist', (spe.dist.dist.name, spe.dist.args, spe.dist.kwds)],
             ['support', spe.support],
             ['conditioned', spe.conditioned]]
-- 
2.43.0


From 4d014d1172dfdf06afbc671932ddb4b75592ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:13 +0000
Subject: [PATCH 41/43] fix: mutual information with an event of probability
 one

Rounding made the probability of both events failing slightly positive, which
divided by zero gave an infinite mutual information.
---
 src/spe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 91f52fe..cd46788 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -99,7 +99,8 @@ class SPE():
         lp10 = self.logprob(A & ~B, memo)
         lp01 = self.logprob(~A & B, memo)
         # lp00 = self.logprob(~A & ~B, memo)
-        lp00 = logdiffexp(0, logsumexp([lp11, lp10, lp01]))
+        lp00 = logdiffexp(0, logsumexp([lp11, lp10, lp01])) \
+            if not isinf_neg(lpA0) and not isinf_neg(lpB0) else -inf
         m11 = exp(lp11) * (lp11 - (lpA1 + lpB1)) if not isinf_neg(lp11) else 0
         m10 = exp(lp10) * (lp10 - (lpA1 + lpB0)) if not isinf_neg(lp10) else 0
         m01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp01) else 0
-- 
2.43.0


From 5b6e34a85af45c5029657bf1cddb903e5951cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:11 +0000
Subject: [PATCH 42/43] fix: union of intervals whose end points are open by a
 SymPy truth value

Solving a polynomial inequality gives such intervals; joining two of them
at the same end point compared the truth values, which raises TypeError.
---
 src/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index ca70b90..bb691b8 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -174,8 +174,9 @@ class Interval(Set):
         assert a < b
         self.a = a
         self.b = b
-        self.left_open = left_open or isinf_neg(self.a)
-        self.right_open = right_open or isinf_pos(self.b)
+        # SymPy truth values cannot be ordered (see __or__).
+        self.left_open = bool(left_open or isinf_neg(self.a))
+        self.right_open = bool(right_open or isinf_pos(self.b))
         # SymPy compatibility.
         (self.left, self.right) = (a, b)
     def __contains__(self, x):
-- 
2.43.0


From 323d6a4ff474ba19986af53f3de216ca6e6ae3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:53 +0000
Subject: [PATCH 43/43] fix: render distributions as source that compiles to
 the same distribution

Atoms, positional and vector arguments, tables, exact numbers, sets, events
and transformations were rendered as text which either does not compile or
compiles to another distribution; arrays were not declared, and fresh branch
variables could coincide with variables of the model.
---
 src/compilers/spe_to_sppl.py | 180 ++++++++++++++++++++++++++++++-----
 1 file changed, 158 insertions(+), 22 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index d6714a0..48fce0e 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -3,27 +3,145 @@
 
 """Convert SPE to SPPL."""
 
+import re
+
+from fractions import Fraction
 from io import StringIO
 from math import exp
 
+import sympy
+
+from ..math_util import isinf_neg
+from ..math_util import isinf_pos
+from ..sets import EmptySet
+from ..sets import FiniteNominal
+from ..sets import FiniteReal
+from ..sets import Interval
+from ..spe import AtomicLeaf
 from ..spe import RealLeaf
 from ..spe import NominalLeaf
 from ..spe import ProductSPE
 from ..spe import SumSPE
+from ..transforms import Abs
+from ..transforms import EventBasic
+from ..transforms import EventCompound
+from ..transforms import Exponential
+from ..transforms import Identity
+from ..transforms import Logarithm
+from ..transforms import Piecewise
+from ..transforms import Poly
+from ..transforms import Radical
+from ..transforms import Reciprocal
 
 get_indentation = lambda i: ' ' * i
 float_to_str = lambda x,fw: '%1.*f' % (fw, float(x)) if fw else str(x)
+
+def number_to_str(x):
+    """Source of a number in a set, an atom or a definition."""
+    if isinf_neg(x):
+        return '-inf'
+    if isinf_pos(x):
+        return 'inf'
+    if isinstance(x, sympy.Integer):
+        return str(x)
+    if isinstance(x, sympy.Float):
+        return repr(float(x))
+    if isinstance(x, Fraction) and x.denominator != 1:
+        return 'sympy.Rational(%s, %s)' % (x.numerator, x.denominator)
+    if isinstance(x, sympy.Expr):
+        return 'sympy.sympify(%s)' % (repr(str(x)),)
+    return str(x)
+
+def set_to_str(values):
+    """Source of a set of values of an event."""
+    if values is EmptySet:
+        return 'EmptySet'
+    if isinstance(values, FiniteNominal):
+        items = ''.join('%s, ' % (repr(x),) for x in sorted(values.values))
+        return 'FiniteNominal(%sb=%s)' % (items, values.b)
+    if isinstance(values, FiniteReal):
+        items = ', '.join(number_to_str(x) for x in values)
+        return 'FiniteReal(%s)' % (items,)
+    if isinstance(values, Interval):
+        return 'Interval(%s, %s, left_open=%s, right_open=%s)' % (
+            number_to_str(values.left),
+            number_to_str(values.right),
+            bool(values.left_open),
+            bool(values.right_open))
+    assert False, 'Unknown set %s' % (values,)
+
+def transform_to_str(expr):
+    """Source of the definition of a derived variable."""
+    name = type(expr).__name__
+    if isinstance(expr, Identity):
+        return expr.token
+    if isinstance(expr, (Abs, Reciprocal)):
+        args = []
+    elif isinstance(expr, Radical):
+        args = [str(expr.degree)]
+    elif isinstance(expr, (Exponential, Logarithm)):
+        args = [number_to_str(expr.base)]
+    elif isinstance(expr, Poly):
+        coeffs = ', '.join(number_to_str(c) for c in expr.coeffs)
+        args = ['[%s]' % (coeffs,)]
+    elif isinstance(expr, EventBasic):
+        args = [set_to_str(expr.values)]
+    elif isinstance(expr, EventCompound):
+        events = ', '.join(transform_to_str(e) for e in expr.subexprs)
+        return '%s([%s])' % (name, events)
+    elif isinstance(expr, Piecewise):
+        exprs = ', '.join(transform_to_str(e) for e in expr.subexprs)
+        events = ', '.join(transform_to_str(e) for e in expr.events)
+        return '%s([%s], [%s])' % (name, exprs, events)
+    else:
+        assert False, 'Unknown transform %s' % (expr,)
+    return '%s(%s)' % (name, ', '.join([transform_to_str(expr.subexpr)] + args))
+
+def get_dist_keywords(dist):
+    """Parameters of a scipy distribution by name."""
+    shapes = dist.dist.shapes
+    names = (shapes.split(', ') if shapes else []) + ['loc', 'scale']
+    kwds = dict(zip(names, dist.args))
+    kwds.update(dist.kwds)
+    return kwds
+
+def get_arrays(spe):
+    """Lengths of the arrays whose elements are variables of spe."""
+    arrays = {}
+    for symbol in spe.get_symbols():
+        match = re.match(r'^(\w+)\[(\d+)\]$', symbol.token)
+        if match:
+            (name, index) = (match.group(1), int(match.group(2)))
+            arrays[name] = max(arrays.get(name, 0), index + 1)
+    return arrays
+
 class _SPPL_Render_State:
     def __init__(self, stream=None, branches=None, indentation=None,
-            fwidth=None):
+            fwidth=None, tokens=None):
         self.stream = stream or StringIO()
         self.branches = branches or []
         self.indentation = indentation or 0
         self.fwidth = fwidth
+        self.tokens = tokens or frozenset()
+        self.n_branches = 0
+    def fresh_branch_var(self):
+        while True:
+            branch_var = 'branch_var_%s' % (self.n_branches,)
+            self.n_branches += 1
+            if branch_var not in self.tokens:
+                return branch_var
+    def write_line(self, line):
+        self.stream.write('%s%s' % (get_indentation(self.indentation), line))
+        self.stream.write('\n')
+    def write_definitions(self, spe):
+        for i, (var, expr) in enumerate(spe.env.items()):
+            if 1 <= i:
+                self.write_line('%s ~= %s' % (var, transform_to_str(expr)))
+
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
     dist_pairs = [
-        '\'%s\' : %s' % (k, float_to_str(v, fwidth))
+        '%s : %s' % (repr(k), float_to_str(v, fwidth))
         for (k, v) in dist.items()
     ]
     # Write each outcome on new line.
@@ -41,6 +159,20 @@ def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     stream.write('%s%s ~= choice({%s%s%s})' %
         (idt, symbol, dist_op, dist_str, dist_cl))
     stream.write('\n')
+
+def render_sppl_dist(dist, fwidth):
+    if getattr(dist.dist, 'xk', None) is not None:
+        # A table of values, which has no parameters.
+        pairs = ', '.join(
+            '%s: %s' % (number_to_str(x), float_to_str(p, fwidth))
+            for x, p in zip(dist.dist.xk, dist.dist.pk))
+        return 'discrete({%s})' % (pairs,)
+    kwds = ', '.join([
+        '%s=%s' % (k, float_to_str(v, fwidth))
+        for k, v in get_dist_keywords(dist).items()
+    ])
+    return '%s(%s)' % (dist.dist.name, kwds)
+
 def render_sppl_helper(spe, state):
     if isinstance(spe, NominalLeaf):
         assert len(spe.env) == 1
@@ -51,24 +183,20 @@ def render_sppl_helper(spe, state):
             state.indentation,
             state.fwidth)
         return state
+    if isinstance(spe, AtomicLeaf):
+        value = number_to_str(spe.value)
+        # Any distribution with a density at the value will do.
+        state.write_line('%s ~= norm(loc=%s)' % (spe.symbol, value))
+        state.write_line('constrain({%s: %s})' % (spe.symbol, value))
+        state.write_definitions(spe)
+        return state
     if isinstance(spe, RealLeaf):
-        kwds = ', '.join([
-            '%s=%s' % (k, float_to_str(v, state.fwidth))
-            for k, v in spe.dist.kwds.items()
-        ])
-        dist = '%s(%s)' % (spe.dist.dist.name, kwds)
-        idt = get_indentation(state.indentation)
-        state.stream.write('%s%s ~= %s' % (idt, spe.symbol, dist))
-        state.stream.write('\n')
+        dist = render_sppl_dist(spe.dist, state.fwidth)
+        state.write_line('%s ~= %s' % (spe.symbol, dist))
         if spe.conditioned:
-            event = spe.symbol << spe.support
-            # TODO: Consider using repr(event)
-            state.stream.write('%scondition(%s)' % (idt, event))
-            state.stream.write('\n')
-        for i, (var, expr) in enumerate(spe.env.items()):
-            if 1 <= i:
-                state.stream.write('%s%s ~= %s' % (idt, var, expr))
-                state.stream.write('\n')
+            support = set_to_str(spe.support)
+            state.write_line('condition(%s << %s)' % (spe.symbol, support))
+        state.write_definitions(spe)
         return state
     if isinstance(spe, ProductSPE):
         for child in spe.children:
@@ -79,7 +207,7 @@ def render_sppl_helper(spe, state):
             return state
         if len(spe.children) == 1:
             return render_sppl_helper(spe.children[0], state)
-        branch_var = 'branch_var_%s' % (len(state.branches))
+        branch_var = state.fresh_branch_var()
         branch_idxs = [str(i) for i in range(len(spe.children))]
         branch_dist = {k: exp(w) for k, w in zip(branch_idxs, spe.weights)}
         state.branches.append((branch_var, branch_dist))
@@ -100,13 +228,21 @@ def render_sppl_helper(spe, state):
 def render_sppl(spe, stream=None, fwidth=None):
     if stream is None:
         stream = StringIO()
-    state = _SPPL_Render_State(fwidth=fwidth)
+    tokens = frozenset(symbol.token for symbol in spe.get_symbols())
+    state = _SPPL_Render_State(fwidth=fwidth, tokens=tokens)
     state = render_sppl_helper(spe, state)
     assert state.indentation == 0
-    # Write the import.
-    stream.write('from sppl.distributions import *')
+    # Write the imports.
+    stream.write('import sympy')
     stream.write('\n')
+    for module in ['distributions', 'sets', 'transforms']:
+        stream.write('from sppl.%s import *' % (module,))
+        stream.write('\n')
     stream.write('\n')
+    # Write the arrays (if any).
+    for array, n in sorted(get_arrays(spe).items()):
+        stream.write('%s = array(%d)' % (array, n))
+        stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
         render_sppl_choice(branch_var, branch_dist, stream, 0, fwidth)
-- 
2.43.0

