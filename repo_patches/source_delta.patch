From 0fc2a8bcff9754835ba89ed8c2809c233eb6f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 01/56] fix: aibasis: order preclosed sets by size

Sorting sets by their partial order <= leaves the result undefined; a set
could come before one of its subsets and the basis was not canonical.
---
 fca/algorithms/aibasis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/aibasis.py b/fca/algorithms/aibasis.py
index 1ea2d86..0bbaa44 100644
--- a/fca/algorithms/aibasis.py
+++ b/fca/algorithms/aibasis.py
@@ -87,7 +87,8 @@ def update_preclosed(i, cxt, preclosed, close):
             basis.append(impl)
             mod_extra.append(non_min_mod[j])
         
-    mod_extra.sort(key=lambda x: x[1])
+    # sets are only partially ordered by <=, smaller ones have to come first
+    mod_extra.sort(key=lambda x: len(x[1]))
     
     return new_preclosed + mod_extra, basis
 
-- 
2.43.0


From 7c4020cc0eabe57562fc2d943044a5b267ad245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 02/56] fix: lin_closure: count premises per position, return a
 copy

Equal implications shared one counter, so a repeated implication fired before
its premise was complete. Without implications the argument itself was
returned.
---
 fca/algorithms/closure_operators.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 3d2258f..e86709d 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -124,23 +124,24 @@ def lin_closure(s, implications):
     
     """
     def decrease_count(i):
-        imp = current_imps[i]
-        if count[imp] == 0:
+        ind = current_imps[i]
+        if count[ind] == 0:
             return set()
-        count[imp] -= 1
-        if count[imp] == 0:
-            return imp._conclusion
+        count[ind] -= 1
+        if count[ind] == 0:
+            return implications[ind]._conclusion
         return set()
     
     if not implications:
-        return s
+        return s.copy()
     new_closure = s.copy()
     new_closure = reduce(set.union,
                          [imp._conclusion for imp in implications if not imp.premise],
                          new_closure)
-    count_ls = [(imp, len(imp.premise)) for imp in implications]
-    count = dict(count_ls)
-    imps_ls = [(attr, imp) for imp in implications for attr in imp.premise]
+    # equal implications may occur more than once, so count them by position
+    count = [len(imp.premise) for imp in implications]
+    imps_ls = [(attr, ind) for ind, imp in enumerate(implications)
+               for attr in imp.premise]
     imps = defaultdict(list)
     for n,v in imps_ls:
         imps[n].append(v)
-- 
2.43.0


From cfe3763183af582491f1bd0f877d318557bd9703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 03/56] fix: Context: keep the number of columns of a table
 without rows

---
 fca/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 51dc172..1f5cd49 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -242,7 +242,9 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=bool)
+        # a table without rows still has columns
+        self.np_table = np.array(cross_table, dtype=bool).reshape(
+            (len(_objects), len(_attributes)))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
         self.attribute_indices = {att: ind
-- 
2.43.0


From 81d7e0ca078535f73c9fea0babb2fb558295bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 04/56] fix: Context: renamed duplicates may clash with other
 names

['a_1', 'a', 'a'] became ['a_1', 'a_1', 'a_2'].
---
 fca/context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 1f5cd49..d9fcb3e 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -220,7 +220,7 @@ class Context(object):
                     " columns (=%i) must agree" % (len(attributes),
                         len(cross_table[0])))
         _attributes = attributes[:]
-        if len(set(attributes)) < len(attributes):
+        while len(set(_attributes)) < len(_attributes):
             for att in _attributes:
                 if _attributes.count(att) > 1:
                     indices = [i for i, x in enumerate(_attributes) if x == att]
@@ -230,7 +230,7 @@ class Context(object):
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
         _objects = objects[:]
-        if len(set(objects)) < len(objects):
+        while len(set(_objects)) < len(_objects):
             for obj in _objects:
                 if _objects.count(obj) > 1:
                     indices = [i for i, x in enumerate(_objects) if x == obj]
-- 
2.43.0


From 4603c7b8fcdefe9bdc0e7c3669887c1b3eaa8965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 05/56] fix: object implications: usable default, no stale
 cache

The default confirmed=None always raised TypeError, and a basis once computed
was returned after any later change of the context.
---
 fca/context.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index d9fcb3e..23648c6 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -309,13 +309,10 @@ class Context(object):
     @basis_computation
     def get_object_implications(self, 
                                 basis=fca.algorithms.compute_dg_basis,
-                                confirmed=None):
+                                confirmed=[]):
         cxt = self.transpose()
-        if not self._obj_imp_basis:
-            self._obj_imp_basis = basis(cxt, imp_basis=confirmed)
-        return self._obj_imp_basis
+        return basis(cxt, imp_basis=confirmed)
     
-    _obj_imp_basis = None
     object_implications = property(get_object_implications)
         
     def examples(self):
-- 
2.43.0


From 37cb98f83d8b4dc5d3981677b240d9a6932db944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 06/56] fix: basis computation leaves no caching lookups on the
 context

A failing or interrupted computation left the memoised lookups in place, so
that every later query answered for the old table; nested and concurrent
computations failed with AttributeError.
---
 fca/context.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 23648c6..1547789 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -96,16 +96,12 @@ def clear_cxt_vars(cxt):
 
 def basis_computation(f):
     def _f(*args, **kwargs):
-        old_obj_intent = args[0].get_object_intent_by_index 
-        old_att_extent = args[0].get_attribute_extent_by_index
-        args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
-        args[0].get_attribute_extent_by_index = memo(args[0].get_attribute_extent_by_index)
-        result = f(*args, **kwargs)
-        del args[0].get_attribute_extent_by_index.cache
-        del args[0].get_object_intent_by_index.cache
-        args[0].get_object_intent_by_index = old_obj_intent
-        args[0].get_attribute_extent_by_index = old_att_extent
-        return result
+        # The caching lookups live on a view of the context: the context itself
+        # is not touched, whether f fails, is re-entered or runs in parallel.
+        view = copy.copy(args[0])
+        view.get_object_intent_by_index = memo(view.get_object_intent_by_index)
+        view.get_attribute_extent_by_index = memo(view.get_attribute_extent_by_index)
+        return f(view, *args[1:], **kwargs)
     _f.__name__ = f.__name__
     return _f
 
-- 
2.43.0


From fcc1d72418bcd9f87b239ce2f01ed3eeb2a937d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 07/56] fix: Context.__eq__: equal text does not mean equal
 contexts

Attributes ['a, b'] and ['a', 'b'] print alike.
---
 fca/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 1547789..9305694 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -667,9 +667,7 @@ class Context(object):
     def __eq__(self, other):
         if type(other) != Context:
             raise TypeError("An input object should be a context!")
-        if self.__repr__() == other.__repr__():
-            return True
-        elif (len(self.objects) != len(other.objects) or
+        if (len(self.objects) != len(other.objects) or
               len(self.attributes) != len(other.attributes)):
             return False
         elif (set(self.objects) != set(other.objects) or
-- 
2.43.0


From be0112c843a69a40ca894aea2daf4b5b9c69dd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 08/56] fix: delete_attributes: a name given twice is deleted
 once

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 9305694..8b34b79 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -410,7 +410,7 @@ class Context(object):
         self.__init__(new_table, self.objects, self.attributes)
 
     def delete_attributes(self, names):
-        att_inds = [self.attribute_indices[name] for name in names]
+        att_inds = list({self.attribute_indices[name] for name in names})
         self.np_table = np.delete(self.np_table, att_inds, 1)
         new_table = self.np_table.tolist()
         for att_index in sorted(att_inds, reverse=True):
-- 
2.43.0


From 9d844fc39f37a731cd4cd03c55d5276da602ecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 09/56] fix: reduce_objects: no overflow, no skipped objects

numpy booleans made the row code a 64 bit integer, which overflows from 64
attributes on, and an index was looked up among row codes, which left some
reducible objects in place.
---
 fca/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 8b34b79..4ba43d1 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -725,8 +725,6 @@ class Context(object):
         reducible = set()
         M = (1 << len(self.attributes)) - 1              #set of attributes repr
         for i in range(len(keys)):                      #checking if i reducible
-            if i in reducible:
-                continue 
             rest = keys[:i] + keys[i+1:]
             current = new = M
             for j in rest:
@@ -790,7 +788,7 @@ def list2int(lst):
     input lst - list of 1 and 0. Treat as binary number, make it decimal integer
     """
     def foo(x, y):
-        return (x << 1) + y
+        return (x << 1) + int(y)
     return reduce(foo, reversed(lst), 0)
 
 
-- 
2.43.0


From 41086d41629686ff5f02da433824bc4a23cc6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:51 +0000
Subject: [PATCH 10/56] fix: compound: concatenate rows instead of adding
 arrays

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 4ba43d1..0c35ba4 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -776,7 +776,7 @@ class Context(object):
         @note: original context remains unchanged
         """
         complementary_cxt = self.complementary() 
-        compound_table = [self.table[i] + complementary_cxt.table[i]
+        compound_table = [list(self.table[i]) + list(complementary_cxt.table[i])
                           for i in range(len(self.objects))]
         return Context(compound_table,
                        self.objects,
-- 
2.43.0


From 2d2784d38126ac673cc7ec29ff8f31420877ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 11/56] fix: iterative_norris: hand out concepts with their
 final extent

Concepts were yielded before all of their objects were known and kept changing
(together with their hash) afterwards.
---
 fca/algorithms/norris.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fca/algorithms/norris.py b/fca/algorithms/norris.py
index 53042c6..7011eae 100644
--- a/fca/algorithms/norris.py
+++ b/fca/algorithms/norris.py
@@ -58,7 +58,12 @@ def iterative_norris(context):
     for ex in context.examples():
         examples.append(ex)
 
-    top_cpt = Concept([], context.attributes)
+    def extent(intent):
+        # complete from the start: a concept does not change once handed out
+        return {context.objects[j] for j in range(len(examples))
+                if intent.issubset(examples[j])}
+
+    top_cpt = Concept(extent(set(context.attributes)), context.attributes)
     #
     yield top_cpt
     #
@@ -66,9 +71,7 @@ def iterative_norris(context):
     for i in range(len(context)):
         cs_for_loop = cs[:]
         for c in cs_for_loop:
-            if c.intent.issubset(examples[i]):
-                c.extent.add(context.objects[i])
-            else:
+            if not c.intent.issubset(examples[i]):
                 new_intent = c.intent & examples[i]
                 new = True
                 for j in range(i):
@@ -77,8 +80,7 @@ def iterative_norris(context):
                         new = False
                         break
                 if new:
-                    new_cpt = Concept({context.objects[i]} | c.extent,
-                                      new_intent)
+                    new_cpt = Concept(extent(new_intent), new_intent)
                     yield new_cpt
                     cs.append(new_cpt)
 
-- 
2.43.0


From e88290941fdd36d573c485ae2ceb5dda2115ad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 12/56] fix: Concept.__hash__: agree with __eq__

The hash depended on meta, so annotating the concepts of a lattice made every
lookup of their parents fail with KeyError.
---
 fca/concept.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/concept.py b/fca/concept.py
index 6903edb..26f8ab1 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -68,7 +68,8 @@ class Concept(object):
                 self.intent == other.intent)
 
     def __hash__(self):
-        return hash(str(self))
+        # meta is not part of the identity of a concept, see __eq__
+        return hash((frozenset(self.extent), frozenset(self.intent)))
 
     def pairs(self):
         if not self.extent or not self.intent:
-- 
2.43.0


From 94f259b87132ab46c5f8ca38d90c12d555401f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 13/56] fix: implications over names that cannot be sorted
 together

read_cxt may return both numbers and strings as names; hashing an implication
and computing a basis sorted them and failed with TypeError.
---
 fca/algorithms/dg_basis.py | 9 ++++++---
 fca/implication.py         | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/dg_basis.py b/fca/algorithms/dg_basis.py
index 4a61e40..f5475ed 100644
--- a/fca/algorithms/dg_basis.py
+++ b/fca/algorithms/dg_basis.py
@@ -16,7 +16,8 @@ def compute_dg_basis(cxt,
     Compute Duquenne-Guigues basis for a given *cxt* using 
     optimized Ganter algorithm
     """
-    aclose = lambda attributes: closure_operators.aclosure(attributes, cxt)
+    aclose = lambda attributes: closure_operators.oprime(
+        closure_operators.aprime(attributes, cxt), cxt)
     return generalized_compute_dg_basis(cxt.attributes, 
                                         aclose,
                                         close=close,
@@ -31,7 +32,8 @@ def compute_dg_basis_simple(cxt,
     Compute Duquenne-Guigues basis for a given *cxt* using 
     optimized Ganter algorithm and simple closure.
     """
-    aclose = lambda attributes: closure_operators.aclosure(attributes, cxt)
+    aclose = lambda attributes: closure_operators.oprime(
+        closure_operators.aprime(attributes, cxt), cxt)
     return generalized_compute_dg_basis(cxt.attributes, 
                                         aclose,
                                         close=close,
@@ -104,7 +106,8 @@ def dg_basis_iter_simple(cxt,
     Compute iterator over Duquenne-Guigues basis for a given *cxt* using 
     optimized Ganter algorithm and simple closure.
     """
-    aclose = lambda attributes: closure_operators.aclosure(attributes, cxt)
+    aclose = lambda attributes: closure_operators.oprime(
+        closure_operators.aprime(attributes, cxt), cxt)
     return generalized_dg_basis_iter(cxt.attributes, 
                                      aclose,
                                      close=close,
diff --git a/fca/implication.py b/fca/implication.py
index c9c8135..8bf003b 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -79,7 +79,7 @@ class Implication(object):
             return 0
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.premise), frozenset(self.conclusion)))
             
     def is_respected(self, some_set):
         """Checks whether *some_set* respects an implication or not"""
-- 
2.43.0


From 3b1caf4aadad1b442a599776cf0105999a5a9be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 14/56] fix: filter_concepts: modes "abs" and "part" work again

sorted() takes the key by keyword only; a part of fewer than two concepts or
more than all of them indexed past the end.
---
 fca/algorithms/filtering/filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index c36b142..8ad8a5a 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -30,7 +30,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     
     def _filter_abs(lattice, indexes, n):
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:int(n)]
             
         return fca.ConceptSystem([c[0] for c in filtered_concepts])
@@ -38,11 +38,11 @@ def filter_concepts(lattice, function, mode, opt=1):
     def _filter_part(lattice, indexes, part):
         n = int(len(lattice) * part)
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-        eps = values[n-2][1]-values[n-1][1]
+        eps = values[n-2][1]-values[n-1][1] if 2 <= n <= len(values) else 0
         
         other_concepts = sorted_indexes[n:]
         for concept in other_concepts:
-- 
2.43.0


From 68fee7c0aa239636503cd7f92d088b95daf709e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 15/56] fix: no bare except where an interrupt must get through

compute_probability turned KeyboardInterrupt and MemoryError into wrong values.
---
 fca/algorithms/filtering/probability.py | 6 +++---
 fca/algorithms/scaling.py               | 2 +-
 fca/implication.py                      | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fca/algorithms/filtering/probability.py b/fca/algorithms/filtering/probability.py
index 8b0b97c..fd8a006 100644
--- a/fca/algorithms/filtering/probability.py
+++ b/fca/algorithms/filtering/probability.py
@@ -25,7 +25,7 @@ def compute_probability(lattice):
             for attr in not_B:
                 try:
                     mult += log(1 - ((p_m[attr]) ** k))
-                except:
+                except ValueError:
                     mult_is_zero = True
                     break
             if mult_is_zero:
@@ -37,7 +37,7 @@ def compute_probability(lattice):
                     t = k * log_p_B + (n - k) * log((1 - p_B)) + mult
                     t = exp(t)
                     # print k, t
-            except:
+            except (ValueError, OverflowError):
                 t = 0
             nom = list(range(n - k + 1, n + 1))
             den = list(range(1, k + 1))
@@ -53,7 +53,7 @@ def compute_probability(lattice):
         for attr in subset:
             try:
                 ans += log(p_m[attr])
-            except:
+            except ValueError:
                 pass
         return ans
 
diff --git a/fca/algorithms/scaling.py b/fca/algorithms/scaling.py
index 4360ccb..350a455 100644
--- a/fca/algorithms/scaling.py
+++ b/fca/algorithms/scaling.py
@@ -49,7 +49,7 @@ def scale_mvcontext(mvcontext, scales):
                     else:
                         try:
                             value = float(mvcontext[obj][attr_index])
-                        except:
+                        except (TypeError, ValueError):
                             value = str(mvcontext[obj][attr_index])
                         if eval(scale.objects[row], {"value" : value}):
                             derived_attr[obj] = scale[row][col]
diff --git a/fca/implication.py b/fca/implication.py
index 8bf003b..0d915bb 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -60,7 +60,7 @@ class Implication(object):
             short_conclusion = self._conclusion - self._premise
             conclusion = ", ".join([element
                                     for element in sorted(short_conclusion)])
-        except:
+        except TypeError:
             premise = ", ".join([str(element)
                                  for element in sorted(self._premise)])
             short_conclusion = self._conclusion - self._premise
@@ -127,7 +127,7 @@ class NegativeImplication(Implication):
             conclusion = ("not (" +
                           ", ".join([element for element in self.conclusion]) +
                           ")")
-        except:
+        except TypeError:
             premise = ", ".join([str(element) for element in self.premise])
             conclusion = ("not (" +
                           ", ".join([str(element)
-- 
2.43.0


From 8cc8295d7a8a7f58896f035d897c92efd7a0aa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:32 +0000
Subject: [PATCH 16/56] fix: algorithm2: empty relations; algorithm2_weighted
 never worked

An empty relation divided by zero; the weighted variant took objects for
attributes and always ended in the "stuck" assertion.
---
 fca/algorithms/factors.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index fa3e54b..4b43789 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -82,6 +82,8 @@ def algorithm2(cxt, fidelity=1):
     """
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
@@ -137,12 +139,14 @@ def algorithm2_weighted(cxt, fidelity=1):
 
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
         to_remove = set()
         while True:
-            D_objs = cxt.oprime(D)
+            D_objs = cxt.aprime(D)
             ls_measures = [(score(_oplus(D_objs, j, cxt, U)), j)
                            for j in set(cxt.attributes) - D]
             if ls_measures:
-- 
2.43.0


From eb77a8b4c8aea951ab51053b71d5cb0ac7cc2f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 17/56] fix: ExplorationDB: deleting examples and attributes

The methods called do not exist in Context. An attribute that the confirmed
implications mention is not deleted: the relative basis could not be computed.
---
 fca/algorithms/exploration_/exploration.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 70dda74..45025f7 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -65,6 +65,11 @@ class ExplorationDB(object):
                 if not imp.is_respected(intent):
                     raise IllegalContextModification()
 
+    def _is_used(self, attribute):
+        """Is *attribute* mentioned in the background knowledge?"""
+        return any(attribute in imp.premise | imp.conclusion
+                   for imp in self._implications)
+
     @base_modifier
     def confirm_implication(self, imp):
         """docstring for confirm_implication"""
@@ -84,7 +89,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_example(self, name):
-        self._cxt.delete_object_by_name(name)
+        self._cxt.delete_object(name)
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
@@ -106,7 +111,9 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_attribute(self, name):
-        self._cxt.delete_attribute_by_name(name)
+        if self._is_used(name):
+            raise IllegalContextModification()
+        self._cxt.delete_attribute(name)
 
     @context_modifier
     def touch(self):
-- 
2.43.0


From 0c1aeb69c33a8a1ca6281eba42cd1e30efcf3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 18/56] fix: ExplorationDB.edit_attribute: check what is about
 to be stored

set.add() returns None, so any confirmed implication made the check fail with
TypeError; a name already in use was accepted, and an attribute could be
renamed away from under the confirmed implications.
---
 fca/algorithms/exploration_/exploration.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 45025f7..a84dc36 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -124,18 +124,16 @@ class ExplorationDB(object):
         intents = []
         for obj in self._cxt.objects:
             if obj in extent:
-                intents.append(self._cxt.get_object_intent(obj).add(old_name))
+                intents.append(self._cxt.get_object_intent(obj) | {old_name})
             else:
-                intents.append(self._cxt.get_object_intent(obj).discard(old_name))
+                intents.append(self._cxt.get_object_intent(obj) - {old_name})
         self._check_intents(intents)
 
-        first = False
-        for attribute in self._cxt.attributes:
-            if name == attribute:
-                if first:
-                    raise NotUniqueAttributeName()
-                else:
-                    first = True
+        if name != old_name:
+            if name in self._cxt.attributes:
+                raise NotUniqueAttributeName()
+            if self._is_used(old_name):
+                raise IllegalContextModification()
         self._cxt.set_attribute_extent(extent, old_name)
         self._cxt.rename_attribute(old_name, name)
             
-- 
2.43.0


From 42280c2732136eb986405ffa83f0aea0fc48312f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 19/56] fix: ExplorationDB.edit_example: refuse before changing
 anything

---
 fca/algorithms/exploration_/exploration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index a84dc36..c2c1045 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -94,14 +94,13 @@ class ExplorationDB(object):
     @context_modifier
     def edit_example(self, name, old_name, intent):
         old_intent = self._cxt.get_object_intent(old_name)
+        if old_name != name and name in self._cxt.objects:
+            raise NotUniqueObjectName()
         if intent != old_intent:
             self._check_intents([intent])
             self._cxt.set_object_intent(intent, old_name)
         if old_name != name:
-            if name in self._cxt.objects:
-                raise NotUniqueObjectName()
-            else:
-                self._cxt.rename_object(old_name, name)
+            self._cxt.rename_object(old_name, name)
         
     @context_modifier
     def add_attribute(self, name, extent):
-- 
2.43.0


From 4a684b8514a9ed795f54bad4997821c2479e27cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 20/56] fix: ExplorationDB: refuse implications that the
 examples contradict

An implication with a counterexample among the examples, or about unknown
attributes, was accepted; the latter made every further step fail.
---
 fca/algorithms/exploration_/exploration.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index c2c1045..634dfaa 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -2,6 +2,7 @@
 # encoding: utf-8
 from copy import copy, deepcopy
 from fca import Context
+from fca.algorithms.closure_operators import simple_closure
 from fca.partial_context import PartialContext
 
 class ExplorationException(Exception):
@@ -59,11 +60,17 @@ class ExplorationDB(object):
                                                 confirmed=self._implications,
                                                 cond=cond)
     
-    def _check_intents(self, intents):
+    def _check_intents(self, intents, implications=None):
+        if implications is None:
+            implications = self._implications
         for intent in intents:
-            for imp in self._implications:
+            for imp in implications:
                 if not imp.is_respected(intent):
                     raise IllegalContextModification()
+            # a partial example is a pair (certain, possible)
+            if (type(intent) == tuple and
+                    not simple_closure(intent[0], implications) <= intent[1]):
+                raise IllegalContextModification()
 
     def _is_used(self, attribute):
         """Is *attribute* mentioned in the background knowledge?"""
@@ -73,6 +80,9 @@ class ExplorationDB(object):
     @base_modifier
     def confirm_implication(self, imp):
         """docstring for confirm_implication"""
+        if not imp.premise | imp.conclusion <= set(self._cxt.attributes):
+            raise IllegalContextModification()
+        self._check_intents(self._cxt.intents(), self._implications + [imp])
         self._implications.append(imp)
         
     @base_modifier
-- 
2.43.0


From 8031d8c29101acb9acaace1d7708e7e5db08698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 21/56] fix: AttributeExploration: a step with several parts is
 all or nothing

---
 fca/algorithms/exploration_/exploration.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 634dfaa..884c2fa 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -89,6 +89,15 @@ class ExplorationDB(object):
     def unconfirm_implication(self, imp):
         self._implications.remove(imp)
     
+    def check_examples(self, names, intents):
+        """Raise an exception unless all these examples can be added"""
+        if len(names) != len(intents):
+            raise ExplorationException("Every example needs an intent")
+        self._check_intents(intents)
+        if len(set(self._cxt.objects).union(names)) < (len(self._cxt.objects) +
+                                                       len(names)):
+            raise NotUniqueObjectName()
+
     @context_modifier
     def add_example(self, name, intent):
         self._check_intents([intent])
@@ -182,8 +191,15 @@ class AttributeExploration(object):
         
     def confirm_implications(self, imps):
         """docstring for confirm_implication"""
-        for i in imps:
-            self.db.confirm_implication(i)
+        confirmed = []
+        try:
+            for i in imps:
+                self.db.confirm_implication(i)
+                confirmed.append(i)
+        except Exception:
+            for i in confirmed:
+                self.db.unconfirm_implication(i)
+            raise
         self.db.complete()
 
     def reject_implication(self, imp):
@@ -194,6 +210,7 @@ class AttributeExploration(object):
             examples, intents = [examples], [intents]
         if imp.is_respected(intents[0]):
             raise NotCounterexample()
+        self.db.check_examples(examples, intents)
         for i in range(len(examples)):
             self.db.add_example(examples[i], intents[i])
         self.db.complete()
-- 
2.43.0


From 629776a24ce5c16d5059c37fa50e02960a59f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 22/56] fix: ExplorationDB.complete: completed examples change
 the open questions

---
 fca/algorithms/exploration_/exploration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 884c2fa..da6277a 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -167,6 +167,7 @@ class ExplorationDB(object):
     def get_attribute_names(self):
         return self._cxt.attributes
         
+    @context_modifier
     def complete(self):
         # TODO: refactor
         if type(self._cxt) == PartialContext:
-- 
2.43.0


From 762e98b1342d29ca87d3560b7c3021c3df376e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:10 +0000
Subject: [PATCH 23/56] fix: BasicExploration: an edit must respect both kinds
 of implications

Editing an attribute changes the intents of objects and vice versa, but only
one side was checked against the confirmed implications.
---
 fca/algorithms/exploration.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fca/algorithms/exploration.py b/fca/algorithms/exploration.py
index fc0ae0f..b983e3b 100644
--- a/fca/algorithms/exploration.py
+++ b/fca/algorithms/exploration.py
@@ -206,6 +206,13 @@ class BasicExploration(object):
     def edit_attribute(self, new_extent, name):
         if not self.check_extent_for_conflicts(new_extent):
             raise BasisConflict(new_extent)
+        # the intents change as well
+        for obj in self.context.objects:
+            intent = self.context.get_object_intent(obj) - {name}
+            if obj in new_extent:
+                intent.add(name)
+            if not self.check_intent_for_conflicts(intent):
+                raise BasisConflict(intent)
         else:
             self.context.set_attribute_extent(new_extent, name)
             self.recompute_basis()
@@ -213,6 +220,13 @@ class BasicExploration(object):
     def edit_object(self, new_intent, name):
         if not self.check_intent_for_conflicts(new_intent):
             raise BasisConflict(new_intent)
+        # the extents change as well
+        for att in self.context.attributes:
+            extent = self.context.get_attribute_extent(att) - {name}
+            if att in new_intent:
+                extent.add(name)
+            if not self.check_extent_for_conflicts(extent):
+                raise BasisConflict(extent)
         else:
             self.context.set_object_intent(new_intent, name)
             self.recompute_basis()
-- 
2.43.0


From 279ed9b7a5a1a00247c84b87e1307053f45e01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 24/56] fix: BasicExploration: refuse names already in use

The context renames clashing names, which left confirmed implications about
the old name behind.
---
 fca/algorithms/exploration.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/fca/algorithms/exploration.py b/fca/algorithms/exploration.py
index b983e3b..5eb4a39 100644
--- a/fca/algorithms/exploration.py
+++ b/fca/algorithms/exploration.py
@@ -41,6 +41,14 @@ class NotCounterExampleConclusion(WrongCounterExample):
                   "conclusion"
         return output
 
+class NotUniqueName(ExplorationException):
+
+    def __init__(self, name):
+        self.name = name
+
+    def __str__(self):
+        return "{0} is already in use".format(self.name)
+
 class BasicExploration(object):
     """
     Exploration class for basic exploration algorithm
@@ -135,6 +143,7 @@ class BasicExploration(object):
             
         # if counter example is correct, we add new object to context
         # and recompute stem base with confirmed implications as basis
+        self._check_new_name(name, self.context.objects)
         self.context.add_object_with_intent(intent, name)
         self.recompute_basis()
             
@@ -158,9 +167,15 @@ class BasicExploration(object):
             
         # if counter example is correct, we add new attribute to context
         # and recompute stem base with confirmed implications as basis
+        self._check_new_name(name, self.context.attributes)
         self.context.add_attribute_with_extent(extent, name)
         self.recompute_basis()    
         
+    def _check_new_name(self, name, names):
+        # The context would rename both, but confirmed implications would not
+        if name in names:
+            raise NotUniqueName(name)
+
     def check_extent_for_conflicts(self, extent):
         """
         Checks new attribute with *extent* for conflicts with confirmed
@@ -193,6 +208,7 @@ class BasicExploration(object):
         if not self.check_intent_for_conflicts(intent):
             raise BasisConflict(intent)
         else:
+            self._check_new_name(name, self.context.objects)
             self.context.add_object_with_intent(intent, name)
             self.recompute_basis()
             
@@ -200,6 +216,7 @@ class BasicExploration(object):
         if not self.check_extent_for_conflicts(extent):
             raise BasisConflict(extent)
         else:
+            self._check_new_name(name, self.context.attributes)
             self.context.add_attribute_with_extent(extent, name)
             self.recompute_basis()
             
-- 
2.43.0


From d42737a217bc63579ee046255c61dd393a9a2865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 25/56] fix: exploration2: sessions no longer share one context

All sessions modified the same context, and each new session redirected the
background knowledge check of the others to its own.
---
 fca/algorithms/exploration2/exploration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration2/exploration.py b/fca/algorithms/exploration2/exploration.py
index 8dd900f..1089eca 100644
--- a/fca/algorithms/exploration2/exploration.py
+++ b/fca/algorithms/exploration2/exploration.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python
 # -*- coding: utf-8 -*-
 
-from copy import copy
+from copy import copy, deepcopy
 
 import fca
 
@@ -112,5 +112,5 @@ class Exploration(object):
         self._cxt = copy(cxt)
 
     def create_session(self):
-        return ExplorationSession(self._cxt)
+        return ExplorationSession(deepcopy(self._cxt))
 
-- 
2.43.0


From 33e26a3c632971cef764397ce0e23e4df3e53ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 26/56] fix: subseteq_table: integer indices, empty tables

No PartialContext could be constructed.
---
 fca/compare_context.py | 53 ++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/fca/compare_context.py b/fca/compare_context.py
index 1d49fdc..342555c 100644
--- a/fca/compare_context.py
+++ b/fca/compare_context.py
@@ -1,28 +1,25 @@
-""" Comparing contexts """
-
-
-def subseteq_table(table_left, table_right):
-    """
-    Checks whether one binary relation of two sets (presented as bool table) is
-    subset or equals another. Tables should be given as lists of bool lists and
-    should have the same dimensions. Result is bool.
-    table_left ?\subseteq table_right
-    """
-    if len(table_left) != len(table_right):
-        raise ValueError("Number of rows in left table (=%i) and number of rows"
-                         "in right table (=%i) must agree" % (len(table_left),
-                                                              len(table_right)))
-    elif (len(table_left) != 0) and len(table_left[0]) != len(table_right[0]):
-        raise ValueError("Number of columns in left table (=%i) and number of"
-                         "columns in right table (=%i) must agree"
-                         %(len(table_left[0]), len(table_right[0])))
-
-    row_length = len(table_left)
-    table_size = row_length * len(table_left[0])
-    for i in range(table_size):
-        a = (i / row_length)
-        b = (i % row_length)
-        if not (table_left[b][a] <= table_right[b][a]):
-            return False
-
-    return True
+""" Comparing contexts """
+
+
+def subseteq_table(table_left, table_right):
+    """
+    Checks whether one binary relation of two sets (presented as bool table) is
+    subset or equals another. Tables should be given as lists of bool lists and
+    should have the same dimensions. Result is bool.
+    table_left ?\subseteq table_right
+    """
+    if len(table_left) != len(table_right):
+        raise ValueError("Number of rows in left table (=%i) and number of rows"
+                         "in right table (=%i) must agree" % (len(table_left),
+                                                              len(table_right)))
+    elif (len(table_left) != 0) and len(table_left[0]) != len(table_right[0]):
+        raise ValueError("Number of columns in left table (=%i) and number of"
+                         "columns in right table (=%i) must agree"
+                         %(len(table_left[0]), len(table_right[0])))
+
+    for row_left, row_right in zip(table_left, table_right):
+        for left, right in zip(row_left, row_right):
+            if not (left <= right):
+                return False
+
+    return True
-- 
2.43.0


From 8542ae132005d932dcb78b0b246bcc00ab375ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 27/56] fix: PartialContext: follow the renaming of clashing
 names

---
 fca/partial_context.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index ebe336c..03f2838 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -29,10 +29,11 @@ class PartialContext(object):
         if not subseteq_table(x_table, q_table):
             raise ValueError('x table should be \subseteq q table')
         else:
-            self.objects = copy(objects)
-            self.attributes = copy(attributes)
-            self.x_context = Context(x_table, objects[:], self.attributes[:])
-            self.q_context = Context(q_table, objects[:], self.attributes[:])
+            self.x_context = Context(x_table, objects[:], attributes[:])
+            self.q_context = Context(q_table, objects[:], attributes[:])
+            # clashing names have been renamed
+            self.objects = copy(self.x_context.objects)
+            self.attributes = copy(self.x_context.attributes)
 
     def __deepcopy__(self, memo):
         return PartialContext(deepcopy(self.x_context.table, memo),
@@ -93,7 +94,7 @@ class PartialContext(object):
             raise ValueError('inconsistent partial example')
         self.x_context.add_object_with_intent(intent[0], name)
         self.q_context.add_object_with_intent(intent[1], name)
-        self.objects.append(name)
+        self.objects = copy(self.x_context.objects)
         
     def complete(self, implications):
         for o in self.objects:
-- 
2.43.0


From 0054a135e2f4d321deda9d4485ac335f84d78189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 28/56] fix: PartialContext.complete: refuse before anything is
 modified

---
 fca/partial_context.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fca/partial_context.py b/fca/partial_context.py
index 03f2838..eb277f6 100644
--- a/fca/partial_context.py
+++ b/fca/partial_context.py
@@ -97,14 +97,15 @@ class PartialContext(object):
         self.objects = copy(self.x_context.objects)
         
     def complete(self, implications):
+        # refuse before anything is modified
+        for xintent, qintent in self.intents():
+            if not closure(xintent, implications) <= qintent:
+                raise ValueError(
+                    'implications are inconsistent with the partial context')
         for o in self.objects:
             xintent = self.x_context.get_object_intent(o)
             new_xintent = closure(xintent, implications)
             qintent = self.q_context.get_object_intent(o)
-            if not new_xintent <= qintent:
-                # TODO: undo the modifications
-                raise ValueError(
-                    'implications are inconsistent with the partial context')
             self.x_context.set_object_intent(new_xintent, o)
             new_qintent = set([a for a in qintent
                                  if a in new_xintent or
-- 
2.43.0


From 03b08393153ebc47ecfb75e4c781e49d8e41b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 29/56] fix: patterns: occurrence means a common object

The closure equals the set of all attributes also when an object has all of
them: such objects were overlooked, on either side.
---
 fca/algorithms/patterns.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 369fc39..e29344e 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -88,8 +88,7 @@ class NotANegativePattern(NotAPatternException):
 def iterate_positive_concepts(positive_cxt, negative_cxt):
     reduced_pos_cxt = positive_cxt.reduce_attributes().reduce_objects()
     for cpt in reduced_pos_cxt.concepts:
-        if negative_cxt.aclosure(cpt.intent) == set(
-                negative_cxt.attributes):
+        if cpt.extent and not negative_cxt.aprime(cpt.intent):
             yield cpt
 
 
@@ -130,9 +129,9 @@ class BasicPatternExploration:
         return sorted(out, key=lambda x: -x[1])
 
     def confirm_pattern(self, pattern):
-        if self.positive_cxt.aclosure(pattern) == set(self.positive_cxt.attributes):
+        if not self.positive_cxt.aprime(pattern):
             raise NotAPositivePattern(pattern)
-        elif self.negative_cxt.aclosure(pattern) != set(self.negative_cxt.attributes):
+        elif self.negative_cxt.aprime(pattern):
             raise NotANegativePattern(pattern)
         self.confirmed_patterns.append(frozenset(pattern))
         return self
-- 
2.43.0


From f4b68559f0c5645d9542e706c96c98c62638a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 30/56] fix: patterns: refuse negative examples that refute
 confirmed patterns

ConfirmedPatternsConflict was never raised.
---
 fca/algorithms/patterns.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index e29344e..178533f 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -150,6 +150,9 @@ class BasicPatternExploration:
         if pattern is not None:
             if set(pattern) - set(obj_intent) != set():
                 raise NotNegativeExample(obj_intent, pattern)
+        for confirmed in self.confirmed_patterns:
+            if confirmed <= set(obj_intent):
+                raise ConfirmedPatternsConflict(obj_intent, confirmed)
         self.negative_cxt.add_object_with_intent(obj_intent, obj_name)
         return self
 
-- 
2.43.0


From 5f2b29fe03e4746fd54d8e02255956d0f452cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 31/56] fix: patterns: rank the patterns of the default
 generator

It yields concepts, which cannot be unpacked into pairs.
---
 fca/algorithms/patterns.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 178533f..954f7a9 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -121,7 +121,9 @@ class BasicPatternExploration:
     def get_unconfirmed_patterns_with_examples(self):
         unexplained_examples = list(self.iterate_unexplained_examples())
         out = []
-        for pattern, freq in self.iterate_patterns_with_examples():
+        for item in self.iterate_patterns_with_examples():
+            # the default generator yields concepts, others may yield pairs
+            pattern = item.intent if isinstance(item, Concept) else item[0]
             if not self.is_explained(pattern):
                 covered_examples = [example[0] for example in unexplained_examples
                                     if pattern <= example[1]]
-- 
2.43.0


From c9a9389912aaa927821e77fcf5ea48e350a33ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 32/56] fix: ManyValuedContext: keep the values

All values were converted to bool, by deepcopy too, and add_object failed.
---
 fca/context.py   | 13 ++++++++-----
 fca/mvcontext.py |  9 +++++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 0c35ba4..8b77f92 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -194,6 +194,8 @@ class Context(object):
     1, 3, 4 => 2
     """
 
+    _dtype = bool
+
     def __init__(self, cross_table=None, objects=None, attributes=None):
         """Create a context from cross table and list of objects, list
         of attributes
@@ -239,7 +241,7 @@ class Context(object):
         self._objects = _objects
         self._attributes = _attributes
         # a table without rows still has columns
-        self.np_table = np.array(cross_table, dtype=bool).reshape(
+        self.np_table = np.array(cross_table, dtype=self._dtype).reshape(
             (len(_objects), len(_attributes)))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
@@ -356,7 +358,7 @@ class Context(object):
     def add_attribute(self, col, attr_name):
         """Add new attribute to context with given name"""
         # not optimised: not expected to be a usual operation
-        new_table = np.c_[self.np_table, col]
+        new_table = np.c_[self.np_table, np.array(col, dtype=self._dtype)]
         new_attributes = self.attributes + [attr_name]
         self.__init__(new_table, self.objects, new_attributes)
 
@@ -365,10 +367,11 @@ class Context(object):
 
         @note: very slow, not suitable for incrementally creating a context"""
         # not optimised: not expected to be a usual operation
-        if self.table.shape[0] > 0:
-            new_table = np.vstack((self.table, [row]))
+        row = np.array([row], dtype=self._dtype)
+        if self.np_table.shape[0] > 0:
+            new_table = np.vstack((self.np_table, row))
         else:
-            new_table = np.array([row])
+            new_table = row
         new_objects = self.objects + [obj_name]
         self.__init__(new_table, new_objects, self.attributes)
         
diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a1d1fd8..a36d685 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,8 @@
 Holds class for many valued context
 """
 
+import copy
+
 from fca import Context
 
 class ManyValuedContext(Context):
@@ -43,6 +45,8 @@ class ManyValuedContext(Context):
     [1, 2, 3, 1]
     """
 
+    _dtype = object
+
     def __init__(self, table=[], objects=[], attributes=[]):
         """Create a many valued context from table and list of objects, list
         of attributes
@@ -66,6 +70,11 @@ class ManyValuedContext(Context):
         # self._objects = objects
         # self._attributes = attributes
 
+    def __deepcopy__(self, memo):
+        return ManyValuedContext(copy.deepcopy(self.table, memo),
+                                 self.objects[:],
+                                 self.attributes[:])
+
     def get_objects(self):
         return self._objects
 
-- 
2.43.0


From c6776fa63d640b5c550ba14643fa352ab0b9a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 33/56] fix: NominalScale: values containing quotes

---
 fca/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/scale.py b/fca/scale.py
index 5d3ace0..b3bd830 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -38,7 +38,7 @@ class NominalScale(Scale):
             try:
                 return float(value)
             except ValueError:
-                return "'" + str(value) + "'"
+                return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
         values = list(set([foo(mvcontext[i][attribute])
-- 
2.43.0


From 9cd4e5e510ac87a8bcaabd5d0dfb3a3ac7624ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 34/56] fix: readers and writers of text formats under Python 3

Files were opened in binary mode for the csv module, and text was encoded or
decoded twice.
---
 fca/readwrite/comma_separated.py |  2 +-
 fca/readwrite/cxt.py             |  8 ++++----
 fca/readwrite/tab_separated.py   | 22 +++++++++++-----------
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 7867d44..ce03923 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,7 +36,7 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter=",")
     
     objects = []
diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index f119e5d..471a564 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -115,7 +115,7 @@ def write_cxt(context, path):
     output_file.close()
     
 def uwrite_cxt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
     output_file.write("B\n\n")
 
     output_file.write(str(len(context.objects))+"\n")
@@ -137,7 +137,7 @@ def uwrite_cxt(context, path):
     output_file.close()
     
 def uread_cxt(path):
-    input_file = open(path, "r")
+    input_file = open(path, "r", encoding="utf-8")
     assert input_file.readline().strip() == "B",\
         "File is not valid cxt"
     input_file.readline() # Empty line
@@ -145,8 +145,8 @@ def uread_cxt(path):
     number_of_attributes = int(input_file.readline().strip())
     input_file.readline() # Empty line
 
-    objects = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_objects)]
-    attributes = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_attributes)]
+    objects = [input_file.readline().strip() for i in range(number_of_objects)]
+    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
 
     table = []
     for i in range(number_of_objects):
diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 456f2a5..d23a2a8 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -79,7 +79,7 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read attributes names
 
@@ -105,7 +105,7 @@ def read_txt(path):
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
 
@@ -144,7 +144,7 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -172,7 +172,7 @@ def read_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -211,19 +211,19 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
     objects = []
     for obj in rec:
-        objects.append(str(obj, "utf-8").strip())
+        objects.append(str(obj).strip())
     
     rec = next(rdr) # read attributes names
 
     attributes = []
     for attr in rec:
-        attributes.append(str(attr, "utf-8").strip())
+        attributes.append(str(attr).strip())
     
     next(rdr) # empty line
     
@@ -239,7 +239,7 @@ def uread_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r", encoding="utf-8")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -262,12 +262,12 @@ def write_mv_txt(context, path):
     output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
 
-    output_file.write("\t".join(context.objects).encode("utf-8"))
+    output_file.write("\t".join(context.objects))
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes).encode("utf-8"))
+    output_file.write("\t".join(context.attributes))
     output_file.write("\n\n")
 
     for i in range(len(context.objects)):
-- 
2.43.0


From e0eadcbaccca7f827ac6f3f4e481115ec746d509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 35/56] fix: XML under Python 3, without module globals

The document was written as bytes of bytes and parsed as text. The state of the
parser was global, so that two readers could mix; names were corrupted where
the parser split them. Both readers share one implementation now.
---
 fca/readwrite/xml_.py | 116 ++++++------------------------------------
 1 file changed, 16 insertions(+), 100 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 5fefff8..f56ed87 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -28,7 +28,7 @@ def write_xml(path, cs):
     objects_ids = dict([(objects[i], "o{0}".format(i+1))  for i in range(len(objects))])
     attributes_ids = dict([(attributes[i], "a{0}".format(i+1))  for i in range(len(attributes))])
 
-    with open(path, "wb") as out:
+    with open(path, "w", encoding="utf-8") as out:
         impl = getDOMImplementation()
 
         newdoc = impl.createDocument(None, "conceptsystem", None)
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj.encode("utf-8"))
+            textnode = newdoc.createTextNode(obj)
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr.encode("utf-8"))
+            textnode = newdoc.createTextNode(attr)
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
@@ -85,7 +85,7 @@ def write_xml(path, cs):
         newdoc.writexml(out, indent="\n", addindent="\t", encoding="UTF-8")
 
 
-def read_xml(path):
+def read_xml(path, encoding=None):
     """Read concept system from valid xml file.
     
     Examples
@@ -98,8 +98,6 @@ def read_xml(path):
     (['obj1'], ['attr1', 'attr3'])
     ([], M)
     """
-    global new_obj, new_attr, cs, buffer
-    
     buffer = ""
     
     cs = fca.ConceptSystem()
@@ -118,8 +116,8 @@ def read_xml(path):
     new_meta = {}
     
     def start_element(name, attrs):
-        global new_obj, new_attr, buffer
-        global new_extent, new_intent, new_meta
+        nonlocal new_obj, new_attr, buffer
+        nonlocal new_extent, new_intent, new_meta
         if name == "object":
             if "id" in list(attrs.keys()):
                 buffer = ""
@@ -141,16 +139,18 @@ def read_xml(path):
             new_meta = {}
         
     def end_element(name):
-        global cs, new_intent, new_extent, new_meta
-        global new_obj, new_attr, buffer
+        nonlocal new_intent, new_extent, new_meta
+        nonlocal new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
+                buffer = buffer.strip()
                 d_objects[new_obj] = buffer
                 objects.append(buffer)
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
+                buffer = buffer.strip()
                 d_attributes[new_attr] = buffer
                 attributes.append(buffer)
                 new_attr = None
@@ -165,107 +165,23 @@ def read_xml(path):
             new_meta = {}
     
     def char_data(data):
-        global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
+        # the parser may deliver a name in any number of pieces
+        nonlocal buffer
         buffer += data
     
-    p = xml.parsers.expat.ParserCreate()
+    p = xml.parsers.expat.ParserCreate(encoding)
     
     p.StartElementHandler = start_element
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
     
     return cs
     
 def uread_xml(path):
-    global new_obj, new_attr, cs, buffer
-
-    buffer = ""
-
-    cs = fca.ConceptSystem()
-
-    new_obj = None
-    new_attr = None
-
-    objects = []
-    d_objects = {}
-
-    attributes = []
-    d_attributes = {}
-
-    new_intent = []
-    new_extent = []
-    new_meta = {}
-
-    def start_element(name, attrs):
-        global new_obj, new_attr, buffer
-        global new_extent, new_intent, new_meta
-        if name == "object":
-            if "id" in list(attrs.keys()):
-                buffer = ""
-                new_obj = attrs["id"]
-            elif "ref" in list(attrs.keys()):
-                new_extent.append(d_objects[attrs["ref"]])
-        elif name == "attribute":
-            if "id" in list(attrs.keys()):
-                buffer = ""
-                new_attr = attrs["id"]
-            elif "ref" in list(attrs.keys()):
-                new_intent.append(d_attributes[attrs["ref"]])
-        elif name == "meta":
-            for key in list(attrs.keys()):
-                new_meta[str(key).replace("_", " ")] = float(attrs[key])
-        elif name == "concept":
-            new_intent = []
-            new_extent = []
-            new_meta = {}
-
-    def end_element(name):
-        global cs, new_intent, new_extent, new_meta
-        global new_obj, new_attr, buffer
-        if name == "object":
-            if new_obj:
-                d_objects[new_obj] = buffer
-                objects.append(buffer)
-                new_obj = None
-                buffer = ""
-        elif name == "attribute":
-            if new_attr:
-                d_attributes[new_attr] = buffer
-                attributes.append(buffer)
-                new_attr = None
-                buffer = ""
-        elif name == "concept":
-            new_concept = fca.Concept(new_extent, new_intent)
-            new_concept.meta = new_meta
-            cs.append(new_concept)
-
-            new_extent = []
-            new_intent = []
-            new_meta = {}
-
-    def char_data(data):
-        global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
-        buffer += data
-
-    p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
-
-    p.StartElementHandler = start_element
-    p.EndElementHandler = end_element
-    p.CharacterDataHandler = char_data
-    
-    f = open(path)
-    p.ParseFile(f)
-
-    return cs
+    return read_xml(path, encoding="UTF-8")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From bd28623be16a1276c5bf0d6ea7be1e040880432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 36/56] fix: read_cxt: do not execute names

Names were passed to eval: loading a file could run any code, and names such as
"id" or "1/0" became builtins or errors.
---
 fca/readwrite/cxt.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index 471a564..022d2fd 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -1,8 +1,23 @@
 # -*- coding: utf-8 -*-
 """Holds function that read context from tab separated txt file"""
 
+import ast
+
 import fca
 
+def parse_name(string):
+    """
+    Return the value of *string* if it is a Python literal (e.g. a number) that
+    can be used as a name, otherwise *string* itself.
+    """
+    try:
+        name = ast.literal_eval(string)
+        hash(name)
+    except (ValueError, SyntaxError, TypeError, MemoryError, RecursionError):
+        return string
+    return name
+
+
 def read_cxt(path):
     """Read context from path, which is .cxt file
 
@@ -68,19 +83,11 @@ def read_cxt(path):
     objects = []
     for _ in range(number_of_objects):
         next_obj_s = input_file.readline().strip()
-        try:
-            next_obj = eval(next_obj_s)
-        except (NameError, SyntaxError):
-            next_obj = next_obj_s
-        objects.append(next_obj)
+        objects.append(parse_name(next_obj_s))
     attributes = []
     for _ in range(number_of_attributes):
         next_att_s = input_file.readline().strip()
-        try:
-            next_att = eval(next_att_s)
-        except (NameError, SyntaxError):
-            next_att = next_att_s
-        attributes.append(next_att)
+        attributes.append(parse_name(next_att_s))
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From 04689d276e450c967d562ebef82c90b4473d7f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:45 +0000
Subject: [PATCH 37/56] fix: read_cxt: notice files cut off in the middle of a
 name

Without objects or without attributes nothing follows the names, so the rest of
a cut name was taken for the whole.
---
 fca/readwrite/cxt.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index 022d2fd..649088b 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -18,6 +18,14 @@ def parse_name(string):
     return name
 
 
+def read_name(input_file):
+    """Read a line with a name, which must be complete"""
+    line = input_file.readline()
+    if not line.endswith("\n"):
+        raise ValueError("File is truncated")
+    return line.strip()
+
+
 def read_cxt(path):
     """Read context from path, which is .cxt file
 
@@ -82,11 +90,11 @@ def read_cxt(path):
     # objects = [input_file.readline().strip() for _ in range(number_of_objects)]
     objects = []
     for _ in range(number_of_objects):
-        next_obj_s = input_file.readline().strip()
+        next_obj_s = read_name(input_file)
         objects.append(parse_name(next_obj_s))
     attributes = []
     for _ in range(number_of_attributes):
-        next_att_s = input_file.readline().strip()
+        next_att_s = read_name(input_file)
         attributes.append(parse_name(next_att_s))
 
     table = []
@@ -152,8 +160,8 @@ def uread_cxt(path):
     number_of_attributes = int(input_file.readline().strip())
     input_file.readline() # Empty line
 
-    objects = [input_file.readline().strip() for i in range(number_of_objects)]
-    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
+    objects = [read_name(input_file) for i in range(number_of_objects)]
+    attributes = [read_name(input_file) for i in range(number_of_attributes)]
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From fffc06f3114408a5b12115d85c5bc47cb243ef03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 38/56] fix: close files when reading or writing fails

A file left open by a failed save flushed its buffer whenever it was collected,
possibly over the file written by a repeated save.
---
 fca/readwrite/comma_separated.py |  7 +++--
 fca/readwrite/cxt.py             | 28 ++++++++++++-----
 fca/readwrite/dot.py             | 14 ++++++---
 fca/readwrite/fimi.py            |  7 +++--
 fca/readwrite/tab_separated.py   | 54 ++++++++++++++++++++------------
 5 files changed, 74 insertions(+), 36 deletions(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index ce03923..6060f81 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,7 +36,11 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "r")
+    with open(path, "r") as input_file:
+        return _read_mv_csv(input_file)
+
+
+def _read_mv_csv(input_file):
     rdr = csv.reader(input_file, delimiter=",")
     
     objects = []
@@ -54,7 +58,6 @@ def read_mv_csv(path):
         for val in rec[1:]:
             line.append(val)
         table.append(line)
-    input_file.close()
 
     return fca.ManyValuedContext(table, objects, attributes)
 
diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index 649088b..6b95646 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -79,7 +79,11 @@ def read_cxt(path):
     AssertionError: File is not valid cxt
 
     """
-    input_file = open(path, "r")
+    with open(path, "r") as input_file:
+        return _read_cxt(input_file)
+
+
+def _read_cxt(input_file):
     assert input_file.readline().strip() == "B",\
         "File is not valid cxt"
     input_file.readline() # Empty line
@@ -102,13 +106,16 @@ def read_cxt(path):
         line = [c=="X" for c in input_file.readline().strip()]
         table.append(line)
 
-    input_file.close()
 
     return fca.Context(table, objects, attributes)
 
 
 def write_cxt(context, path):
-    output_file = open(path, "w")
+    with open(path, "w") as output_file:
+        _write_cxt(context, output_file)
+
+
+def _write_cxt(context, output_file):
     output_file.write("B\n\n")
 
     output_file.write(str(len(context.objects))+"\n")
@@ -127,10 +134,13 @@ def write_cxt(context, path):
         output_file.write("".join([cross[b] for b in context[i]]))
         output_file.write("\n")
 
-    output_file.close()
     
 def uwrite_cxt(context, path):
-    output_file = open(path, "w", encoding="utf-8")
+    with open(path, "w", encoding="utf-8") as output_file:
+        _uwrite_cxt(context, output_file)
+
+
+def _uwrite_cxt(context, output_file):
     output_file.write("B\n\n")
 
     output_file.write(str(len(context.objects))+"\n")
@@ -149,10 +159,13 @@ def uwrite_cxt(context, path):
         output_file.write("".join([cross[b] for b in context[i]]))
         output_file.write("\n")
 
-    output_file.close()
     
 def uread_cxt(path):
-    input_file = open(path, "r", encoding="utf-8")
+    with open(path, "r", encoding="utf-8") as input_file:
+        return _uread_cxt(input_file)
+
+
+def _uread_cxt(input_file):
     assert input_file.readline().strip() == "B",\
         "File is not valid cxt"
     input_file.readline() # Empty line
@@ -168,7 +181,6 @@ def uread_cxt(path):
         line = [c=="X" for c in input_file.readline().strip()]
         table.append(line)
 
-    input_file.close()
 
     return fca.Context(table, objects, attributes)
 
diff --git a/fca/readwrite/dot.py b/fca/readwrite/dot.py
index 6d86450..55a2f7c 100644
--- a/fca/readwrite/dot.py
+++ b/fca/readwrite/dot.py
@@ -22,7 +22,11 @@ def write_dot(cs, path):
 
     """
     assert len(path)!=0, "Filename can't be empty"
-    output_file = open(path, "w")
+    with open(path, "w") as output_file:
+        _write_dot(cs, output_file)
+
+
+def _write_dot(cs, output_file):
     output_file.write("digraph L{")
     output_file.write("\n")
     output_file.write("nodesep=.25;\n")
@@ -60,14 +64,17 @@ def write_dot(cs, path):
             output_file.write("c%i -> c%i\n" % (cs.index(p), i))
     output_file.write("}")
 
-    output_file.close()
 
 def uwrite_dot(cs, path, full=False):
     assert len(path)!=0, "Filename can't be empty"
     
     import codecs
     
-    output_file = codecs.open(path, "w", "utf-8")
+    with codecs.open(path, "w", "utf-8") as output_file:
+        _uwrite_dot(cs, output_file, full)
+
+
+def _uwrite_dot(cs, output_file, full):
     output_file.write("digraph L{")
     output_file.write("\n")
     output_file.write("nodesep=.25;\n")
@@ -117,7 +124,6 @@ def uwrite_dot(cs, path, full=False):
 
     output_file.write("}")
 
-    output_file.close()
 
 def find_own_objects(cs):
     """Return set of own objects for current concept"""
diff --git a/fca/readwrite/fimi.py b/fca/readwrite/fimi.py
index b618175..6ad8dc7 100644
--- a/fca/readwrite/fimi.py
+++ b/fca/readwrite/fimi.py
@@ -1,5 +1,9 @@
 def write_fimi(context, path):
-    output_file = open(path, "w")
+    with open(path, "w") as output_file:
+        _write_fimi(context, output_file)
+
+
+def _write_fimi(context, output_file):
 
     for o in context.objects:
         intent = context.get_object_intent(o)
@@ -7,4 +11,3 @@ def write_fimi(context, path):
             output_file.write('%s ' % a)
         output_file.write('\n')
 
-    output_file.close()
diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index d23a2a8..1e39871 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -16,7 +16,11 @@ def read_txt_with_names(path):
     Then tab separated 1 and 0, each line corresponds to one object.
 
     """
-    input_file = open(path, "r")
+    with open(path, "r") as input_file:
+        return _read_txt_with_names(input_file)
+
+
+def _read_txt_with_names(input_file):
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr)                            # read attributes names
 
@@ -37,12 +41,10 @@ def read_txt_with_names(path):
             elif num == "1":
                 line.append(True)
         table.append(line)
-    input_file.close()
 
     if len(attributes) != len(table[0]):
-        input_file = open(path, "r")
+        input_file.seek(0)
         attributes = input_file.readline().split("\t")[:-1]
-        input_file.close()
 
     return fca.Context(table, objects, attributes)
 
@@ -79,7 +81,11 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "r")
+    with open(path, "r") as input_file:
+        return _read_txt(input_file)
+
+
+def _read_txt(input_file):
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read attributes names
 
@@ -98,16 +104,14 @@ def read_txt(path):
             elif num == "1":
                 line.append(True)
         table.append(line)
-    input_file.close()
     # i + 1 ? 
     objects = ["".join(["g", str(i + 1)]) for i in range(len(table))]
 
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "r")
+        input_file.seek(0)
         attributes = input_file.readline().split("\t")[:-1]
-        input_file.close()
 
     return fca.Context(table, objects, attributes)
 
@@ -144,7 +148,11 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "r")
+    with open(path, "r") as input_file:
+        return _read_mv_txt(input_file)
+
+
+def _read_mv_txt(input_file):
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -166,16 +174,14 @@ def read_mv_txt(path):
         for num in rec:
             line.append(num)
         table.append(line)
-    input_file.close()
 
     # TODO: It's hack
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "r")
+        input_file.seek(0)
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
-        input_file.close()
 
     return fca.ManyValuedContext(table, objects, attributes)
 
@@ -211,7 +217,11 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "r", encoding="utf-8")
+    with open(path, "r", encoding="utf-8") as input_file:
+        return _uread_mv_txt(input_file)
+
+
+def _uread_mv_txt(input_file):
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -233,21 +243,23 @@ def uread_mv_txt(path):
         for num in rec:
             line.append(num)
         table.append(line)
-    input_file.close()
 
     # TODO: It's hack
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "r", encoding="utf-8")
+        input_file.seek(0)
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
-        input_file.close()
 
     return fca.ManyValuedContext(table, objects, attributes)
 
 def write_mv_txt(context, path):
-    output_file = open(path, "w")
+    with open(path, "w") as output_file:
+        _write_mv_txt(context, output_file)
+
+
+def _write_mv_txt(context, output_file):
 
     output_file.write("\t".join(context.objects))
     output_file.write("\n")
@@ -259,10 +271,13 @@ def write_mv_txt(context, path):
         output_file.write("\t".join([str(spam) for spam in context[i]]))
         output_file.write("\n")
 
-    output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w", encoding="utf-8")
+    with open(path, "w", encoding="utf-8") as output_file:
+        _uwrite_mv_txt(context, output_file)
+
+
+def _uwrite_mv_txt(context, output_file):
 
     output_file.write("\t".join(context.objects))
     output_file.write("\n")
@@ -274,7 +289,6 @@ def uwrite_mv_txt(context, path):
         output_file.write("\t".join([str(spam) for spam in context[i]]))
         output_file.write("\n")
 
-    output_file.close()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 2ec3538474a75a751e75be15c0ec43de97d74501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 39/56] fix: read_csv: "0" is not a cross

Every nonempty string was taken for True, so the table was always full.
---
 fca/readwrite/comma_separated.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 6060f81..c99606e 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -68,7 +68,9 @@ def read_csv(path):
     @note: uses *read_mv_csv* add then treats many valued context as binary
     """
     mvcxt = read_mv_csv(path)
-    return fca.Context(mvcxt.table, mvcxt.objects, mvcxt.attributes)
+    table = [[val.strip() not in ("", "0") for val in row]
+             for row in mvcxt.table]
+    return fca.Context(table, mvcxt.objects, mvcxt.attributes)
 
 if __name__ == "__main__":
     import doctest
-- 
2.43.0


From 5ba5586dcd012d70d9ebba54756f261777fd695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 40/56] fix: read_txt_with_names: objects called "0" or "1"

The name was read as a cell.
---
 fca/readwrite/tab_separated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 1e39871..8bded39 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -35,7 +35,7 @@ def _read_txt_with_names(input_file):
     for rec in rdr:
         objects.append(rec[0])                  # read objects names
         line = []
-        for num in rec:
+        for num in rec[1:]:
             if num == "0":
                 line.append(False)
             elif num == "1":
-- 
2.43.0


From a4d1c2cda8df8a487293e64ffbc9bfb842a220cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 41/56] fix: reading text tables without rows

---
 fca/readwrite/tab_separated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 8bded39..e37c46d 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -42,7 +42,7 @@ def _read_txt_with_names(input_file):
                 line.append(True)
         table.append(line)
 
-    if len(attributes) != len(table[0]):
+    if table and len(attributes) != len(table[0]):
         input_file.seek(0)
         attributes = input_file.readline().split("\t")[:-1]
 
@@ -109,7 +109,7 @@ def _read_txt(input_file):
 
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
-    if len(attributes) != len(table[0]):
+    if table and len(attributes) != len(table[0]):
         input_file.seek(0)
         attributes = input_file.readline().split("\t")[:-1]
 
-- 
2.43.0


From 0905b42f5ca177fabc9deba20be67f062bbda2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:42 +0000
Subject: [PATCH 42/56] fix: diagrams of lattices whose names are not strings

---
 fca/readwrite/dot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/dot.py b/fca/readwrite/dot.py
index 55a2f7c..1edd16a 100644
--- a/fca/readwrite/dot.py
+++ b/fca/readwrite/dot.py
@@ -45,7 +45,7 @@ def _write_dot(cs, output_file):
             if len(own_objects[cs[i]]) >= 5:
                 own_objects[cs[i]] = [str(len(own_objects[cs[i]]))]
             output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
+                     "\\n ".join(map(str, own_objects[cs[i]])))
             output_file.write(
                 "labeldistance=1,labelangle=270,color=transparent]\n")
         if len(own_attributes[cs[i]])!=0:
@@ -54,7 +54,7 @@ def _write_dot(cs, output_file):
             if len(own_attributes[cs[i]]) >= 5:
                 own_attributes[cs[i]] = [str(len(own_attributes[cs[i]]))]
             output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
+                     "\\n ".join(map(str, own_attributes[cs[i]])))
             output_file.write(
                 "labeldistance=2,labelangle=90,color=transparent]\n")
 
@@ -105,7 +105,7 @@ def _uwrite_dot(cs, output_file, full):
                 own_objects[cs[i]] = own_objects[cs[i]][:6] + ["..."]
             n = len(own_objects[cs[i]])
             output_file.write("[headlabel=\"%s\", " %\
-                     "\\n ".join(own_objects[cs[i]]))
+                     "\\n ".join(map(str, own_objects[cs[i]])))
             output_file.write(
                 "labeldistance={0},labelangle=270,color=transparent]\n".format(n/1.8 + 0.5))
         if len(own_attributes[cs[i]])!=0:
@@ -118,7 +118,7 @@ def _uwrite_dot(cs, output_file, full):
                 own_attributes[cs[i]] = own_attributes[cs[i]][:6] + ["..."]
             n = len(own_attributes[cs[i]])
             output_file.write("[taillabel=\"%s\", " %\
-                     "\\n ".join(own_attributes[cs[i]]))
+                     "\\n ".join(map(str, own_attributes[cs[i]])))
             output_file.write(
                 "labeldistance={0},labelangle=90,color=transparent]\n".format(n/1.8 + 0.5))
 
-- 
2.43.0


From c894b26a072e6f6a77f5f7c5af746603ef7aaf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:51 +0000
Subject: [PATCH 43/56] fix: NominalScale: missing values

A value that is no number and no text, e.g. None, raised TypeError, although
scaling accepts it.
---
 fca/scale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/scale.py b/fca/scale.py
index b3bd830..2271a31 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -37,7 +37,7 @@ class NominalScale(Scale):
         def foo(value):
             try:
                 return float(value)
-            except ValueError:
+            except (TypeError, ValueError):
                 return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
-- 
2.43.0


From 8e59c7eba60a811283bb1762befbae2512d9ece3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:11 +0000
Subject: [PATCH 44/56] fix: Implication.str2imp: empty premise or conclusion

' => a' was read as an implication with the empty name in its premise.
---
 fca/implication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index 0d915bb..0244be0 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -95,7 +95,7 @@ class Implication(object):
     @classmethod
     def str2imp(cls, string):
         def str2set(str_):
-            return set(map(str.strip, str_.split(',')))
+            return set(map(str.strip, str_.split(','))) - {''}
         str_premise, str_conclusion = string.split('=>')
         premise = str2set(str_premise)
         conclusion = str2set(str_conclusion)
-- 
2.43.0


From 775c1518a8c709b9226880322457d5da85b8ab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:38 +0000
Subject: [PATCH 45/56] fix: factorisation with conditions drops its last
 factor

With no attributes left to extend a factor with, algorithm2_w_condition stopped
without handing out the factor it had found.
---
 fca/algorithms/factors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index 4b43789..ce1e781 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -215,10 +215,13 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
             Dprime = cxt.aprime(D)
             ls_measures = [(len(_oplus(Dprime, j, cxt, U)), j)
                            for j in available_atts - D]
-            if not ls_measures:
+            if ls_measures:
+                maxDj = max(ls_measures, key=lambda x: x[0])
+            elif to_remove and good_factor(cpt=fca.Concept(C, D)):
+                maxDj = [0,]    # nothing to extend this factor with
+            else:
                 # print(f'Empty ls_measures. len(U) = {len(U)}, {set(u[1] for u in U)}, len(D) = {len(D)}, len(avail_atts) = {len(available_atts)}')
                 return
-            maxDj = max(ls_measures, key=lambda x: x[0])
             # print(D, Dprime, maxDj, V)
             # print(cxt)
             if maxDj[0] > V or not good_factor(cpt=fca.Concept(C, D)):  # update the values
-- 
2.43.0


From da7f2afa31d0a3600febb7bb56bec01779cafb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:38 +0000
Subject: [PATCH 46/56] fix: factorisation with conditions gives up on covered
 crosses

A factor that meets the size conditions but covers nothing new ended
algorithm2_w_condition with an exception.
---
 fca/algorithms/factors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index ce1e781..986f146 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -242,10 +242,10 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
                 else:
                     to_remove = to_remove_U
             elif good_factor(cpt=fca.Concept(C, D)):
-                if len(to_remove) == 0:
-                    raise Exception(
-                        f'Algorithm stuck, something went wrong, pairs left '
-                        f'{len(U)}')
+                if len(to_remove) == 0:  # covers nothing new, early restart
+                    U = {u for u in U if u[1] not in D}
+                    removed_atts |= D
+                    break
                 U -= to_remove
                 # print(f'Factor out: {len(C)}, {len(D)}')
                 yield fca.Concept(C, D), len(to_remove) / len_initial, (len_initial - len(U)) / len_initial
-- 
2.43.0


From 82c202319332cabcc3661a6f64c2c1cd97df39e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 47/56] fix: a many-valued context cannot be printed

---
 fca/mvcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a36d685..ac32872 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -132,6 +132,12 @@ class ManyValuedContext(Context):
 
     ############################
 
+    def __repr__(self):
+        output = ", ".join(map(str, self.attributes)) + "\n"
+        for obj, row in zip(self.objects, self.table):
+            output += "\t".join([str(obj)] + list(map(str, row))) + "\n"
+        return output
+
 if __name__ == "__main__":
     import doctest
     doctest.testmod()
-- 
2.43.0


From b5618cfe9955abae47ccd33ea0728ecbbfaedf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 48/56] fix: concepts and implications over numbers and strings
 cannot be printed

---
 fca/concept.py     | 12 ++++++++----
 fca/implication.py | 14 ++++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/fca/concept.py b/fca/concept.py
index 26f8ab1..3db0cf7 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -41,15 +41,19 @@ class Concept(object):
 
     def __str__(self):
         """Return a string representation of a concept"""
+        def in_order(names):
+            try:
+                return sorted(names)
+            except TypeError:
+                # numbers and strings together
+                return sorted(names, key=str)
         if len(self.intent) > 0:
-            e = list(self.extent)
-            e.sort()
+            e = in_order(self.extent)
         else:
             # TODO: Sometimes |intent| > 0, but extent is G.
             e = "G"
         if len(self.extent) > 0:
-            i = list(self.intent)
-            i.sort()
+            i = in_order(self.intent)
         else:
             # TODO: Sometimes |extent| > 0, but intent is M.
             i = "M"
diff --git a/fca/implication.py b/fca/implication.py
index 0244be0..5bcf279 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -54,18 +54,24 @@ class Implication(object):
     conclusion = property(get_reduced_conclusion)
         
     def __repr__(self):
+        def in_order(names):
+            try:
+                return sorted(names)
+            except TypeError:
+                # numbers and strings together
+                return sorted(names, key=str)
         try:
             premise = ", ".join([element
-                                 for element in sorted(self._premise)])
+                                 for element in in_order(self._premise)])
             short_conclusion = self._conclusion - self._premise
             conclusion = ", ".join([element
-                                    for element in sorted(short_conclusion)])
+                                    for element in in_order(short_conclusion)])
         except TypeError:
             premise = ", ".join([str(element)
-                                 for element in sorted(self._premise)])
+                                 for element in in_order(self._premise)])
             short_conclusion = self._conclusion - self._premise
             conclusion = ", ".join([str(element)
-                                    for element in sorted(short_conclusion)])
+                                    for element in in_order(short_conclusion)])
         return " => ".join((premise, conclusion,))
         
     def __unicode__(self):
-- 
2.43.0


From 554de54ed4830b49e5e6ce805f19ed9cfdc6c5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 49/56] fix: the copy of a negative implication is a positive
 one

---
 fca/implication.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index 5bcf279..35aa03d 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -33,7 +33,10 @@ class Implication(object):
         self._conclusion = set(conclusion)
         
     def __deepcopy__(self, memo):
-        return Implication(self._premise.copy(), self._conclusion.copy())
+        # of the same kind, whatever the constructor of that kind takes
+        result = self.__class__.__new__(self.__class__)
+        Implication.__init__(result, self._premise, self._conclusion)
+        return result
 
     def get_premise(self):
         """
-- 
2.43.0


From 9751e7b08eb6d55ffe3fad42d1a041e21a8d7aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:13 +0000
Subject: [PATCH 50/56] fix: a negative implication equals the positive one

---
 fca/implication.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fca/implication.py b/fca/implication.py
index 35aa03d..8307b10 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -130,6 +130,13 @@ class UnitImplication(Implication):
 
 
 class NegativeImplication(Implication):
+    def __eq__(self, other):
+        # says the opposite of the implication between the same sets
+        return (isinstance(other, NegativeImplication) and
+                super().__eq__(other))
+
+    __hash__ = Implication.__hash__
+
     def __repr__(self):
         try:
             premise = ", ".join([element for element in self.premise])
-- 
2.43.0


From 8d7ac81b9b9a415985af910268f35b533587b67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:59 +0000
Subject: [PATCH 51/56] fix: the text of a negative implication depends on the
 order of sets

---
 fca/implication.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/fca/implication.py b/fca/implication.py
index 8307b10..0d1de0f 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -3,6 +3,14 @@
 Contains class for implications
 """
 
+def in_order(names):
+    try:
+        return sorted(names)
+    except TypeError:
+        # numbers and strings together
+        return sorted(names, key=str)
+
+
 class Implication(object):
     """
     An Implication consists of two sets: *premise* and *conclusion*
@@ -57,12 +65,6 @@ class Implication(object):
     conclusion = property(get_reduced_conclusion)
         
     def __repr__(self):
-        def in_order(names):
-            try:
-                return sorted(names)
-            except TypeError:
-                # numbers and strings together
-                return sorted(names, key=str)
         try:
             premise = ", ".join([element
                                  for element in in_order(self._premise)])
@@ -139,15 +141,18 @@ class NegativeImplication(Implication):
 
     def __repr__(self):
         try:
-            premise = ", ".join([element for element in self.premise])
+            premise = ", ".join([element
+                                 for element in in_order(self.premise)])
             conclusion = ("not (" +
-                          ", ".join([element for element in self.conclusion]) +
+                          ", ".join([element
+                                     for element in in_order(self.conclusion)]) +
                           ")")
         except TypeError:
-            premise = ", ".join([str(element) for element in self.premise])
+            premise = ", ".join([str(element)
+                                 for element in in_order(self.premise)])
             conclusion = ("not (" +
                           ", ".join([str(element)
-                                     for element in self.conclusion]) +
+                                     for element in in_order(self.conclusion)]) +
                           ")")
         return " => ".join((premise, conclusion,))
 
-- 
2.43.0


From f2d3626a388a5dca97aeeed80cecb8339e45fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:59 +0000
Subject: [PATCH 52/56] fix: a unit implication equals the negative one over
 the same sets

---
 fca/implication.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/fca/implication.py b/fca/implication.py
index 0d1de0f..33a6f2f 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -83,6 +83,10 @@ class Implication(object):
         return self.__repr__()
 
     def __eq__(self, other):
+        # a negative implication says the opposite
+        if (isinstance(self, NegativeImplication) !=
+                isinstance(other, NegativeImplication)):
+            return 0
         if ((self.premise == other.premise) and
                 (self.conclusion == other.conclusion)):
             return 1
@@ -132,13 +136,6 @@ class UnitImplication(Implication):
 
 
 class NegativeImplication(Implication):
-    def __eq__(self, other):
-        # says the opposite of the implication between the same sets
-        return (isinstance(other, NegativeImplication) and
-                super().__eq__(other))
-
-    __hash__ = Implication.__hash__
-
     def __repr__(self):
         try:
             premise = ", ".join([element
-- 
2.43.0


From 2214eb9449534a1dbbcaf8cbecc42f350188e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:49 +0000
Subject: [PATCH 53/56] fix: text of a concept with names like 4 and '4'
 depends on the order of sets

---
 fca/concept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/concept.py b/fca/concept.py
index 3db0cf7..a6c0132 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -46,7 +46,7 @@ class Concept(object):
                 return sorted(names)
             except TypeError:
                 # numbers and strings together
-                return sorted(names, key=str)
+                return sorted(names, key=lambda x: (str(x), type(x).__name__))
         if len(self.intent) > 0:
             e = in_order(self.extent)
         else:
-- 
2.43.0


From a990f7182f81eb13957568cccad4dbbac6083d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:44 +0000
Subject: [PATCH 54/56] fix: a scale cannot be edited

---
 fca/context.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 8b77f92..7098bda 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -360,7 +360,7 @@ class Context(object):
         # not optimised: not expected to be a usual operation
         new_table = np.c_[self.np_table, np.array(col, dtype=self._dtype)]
         new_attributes = self.attributes + [attr_name]
-        self.__init__(new_table, self.objects, new_attributes)
+        Context.__init__(self, new_table, self.objects, new_attributes)
 
     def add_object(self, row, obj_name):
         """Add new object to context with given name
@@ -373,7 +373,7 @@ class Context(object):
         else:
             new_table = row
         new_objects = self.objects + [obj_name]
-        self.__init__(new_table, new_objects, self.attributes)
+        Context.__init__(self, new_table, new_objects, self.attributes)
         
     def add_object_with_intent(self, intent, obj_name):
         row = [(attr in intent) for attr in self.attributes]
@@ -389,28 +389,28 @@ class Context(object):
             new_column[i] = True
         self.np_table[:, self.attribute_indices[name]] = new_column
         new_table = self.np_table.tolist()
-        self.__init__(new_table, self.objects, self.attributes)
+        Context.__init__(self, new_table, self.objects, self.attributes)
 
     def set_object_intent(self, intent, name):
         new_row = [False]*len(self.attributes)
         for i in [self.attribute_indices[x] for x in intent]:
             new_row[i] = True
         self.table[self.object_indices[name]] = new_row
-        self.__init__(self.table, self.objects, self.attributes)
+        Context.__init__(self, self.table, self.objects, self.attributes)
 
     def delete_object(self, name):
         obj_index = self.object_indices[name]
         self.np_table = np.delete(self.np_table, obj_index, 0)
         new_table = self.np_table.tolist()
         del self.objects[obj_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        Context.__init__(self, new_table, self.objects, self.attributes)
 
     def delete_attribute(self, name):
         att_index = self.attribute_indices[name]
         self.np_table = np.delete(self.np_table, att_index, 1)
         new_table = self.np_table.tolist()
         del self.attributes[att_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        Context.__init__(self, new_table, self.objects, self.attributes)
 
     def delete_attributes(self, names):
         att_inds = list({self.attribute_indices[name] for name in names})
@@ -418,15 +418,15 @@ class Context(object):
         new_table = self.np_table.tolist()
         for att_index in sorted(att_inds, reverse=True):
             del self.attributes[att_index]
-        self.__init__(new_table, self.objects, self.attributes)
+        Context.__init__(self, new_table, self.objects, self.attributes)
 
     def rename_object(self, old_name, name):
         self.objects[self.object_indices[old_name]] = name
-        self.__init__(self.table, self.objects, self.attributes)
+        Context.__init__(self, self.table, self.objects, self.attributes)
 
     def rename_attribute(self, old_name, name):
         self.attributes[self.attribute_indices[old_name]] = name
-        self.__init__(self.table, self.objects, self.attributes)
+        Context.__init__(self, self.table, self.objects, self.attributes)
         
     def oprime_inds(self, obj_inds):
         """
-- 
2.43.0


From 70dcf71beaf49353e33ec7653a03dc9ee358fe5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:15 +0000
Subject: [PATCH 55/56] fix: nominal scales of columns with nan or infinite
 values

---
 fca/scale.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/fca/scale.py b/fca/scale.py
index 2271a31..4f8ec50 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -3,6 +3,8 @@
 Holds scale class for conceptual scaling
 """
 
+from math import inf
+
 from .context import Context
 
 class Scale(Context):
@@ -36,14 +38,19 @@ class NominalScale(Scale):
         """
         def foo(value):
             try:
-                return float(value)
+                number = float(value)
             except (TypeError, ValueError):
                 return repr(str(value))
+            # nan is not even equal to itself
+            return number if number == number else "nan"
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
         values = list(set([foo(mvcontext[i][attribute])
                            for i in range(len(mvcontext))]))
-        objects = ["value == {}".format(v) for v in values]
+        # infinite numbers and nan have no literal
+        objects = ["value != value" if v == "nan" else
+                   "value == float('{}')".format(v) if v in (inf, -inf) else
+                   "value == {}".format(v) for v in values]
         table = []
         for i in range(len(objects)):
             row = [False] * len(values)
-- 
2.43.0


From 19d0d80bdce99a66bd752ff1beee30e89d90b346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:48 +0000
Subject: [PATCH 56/56] fix: Context: arguments that are left out mean an empty
 table

Their declared defaults were refused with a TypeError, and the numbers
example, which gives the attributes alone, could not be started.
---
 fca/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fca/context.py b/fca/context.py
index 7098bda..9b0a655 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -210,6 +210,8 @@ class Context(object):
         #         cross_table = [list(i) for i in cross_table]
         #     except:
         #         raise NotTableException(cross_table)
+        cross_table, objects, attributes = (
+            [] if x is None else x for x in (cross_table, objects, attributes))
         if len(cross_table) != len(objects):
             raise ValueError("Number of objects (=%i) and number of cross table"
                    " rows(=%i) must agree" % (len(objects), len(cross_table)))
-- 
2.43.0

