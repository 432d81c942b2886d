From 8501721791cda12320044966b6abafe2c3b22880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 01/39] fix: renaming of repeated names must not collide with
 an existing name

---
 fca/context.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 51dc172..a4f28d8 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -225,7 +225,10 @@ class Context(object):
                 if _attributes.count(att) > 1:
                     indices = [i for i, x in enumerate(_attributes) if x == att]
                     for i in indices:
-                        _attributes[i] = str(att) + '_{}'.format(i)
+                        new_name = str(att) + '_{}'.format(i)
+                        while new_name in _attributes:
+                            new_name += '_'
+                        _attributes[i] = new_name
                     message =  "Not unique name of attribute '{}', ".format(att)
                     message += "renamed to '{}_n', n \in {}".format(att, indices)
                     module_logger.info(message)
@@ -235,7 +238,10 @@ class Context(object):
                 if _objects.count(obj) > 1:
                     indices = [i for i, x in enumerate(_objects) if x == obj]
                     for i in indices:
-                        _objects[i] = str(obj) + '_{}'.format(i)
+                        new_name = str(obj) + '_{}'.format(i)
+                        while new_name in _objects:
+                            new_name += '_'
+                        _objects[i] = new_name
                     message =  "Not unique name of object '{}', ".format(obj)
                     message += "renamed to '{}_n', n \in {}".format(obj, indices)
                     module_logger.info(message)
-- 
2.43.0


From 9ff01ceca4cbb54bfeb7edad0b6f00e555ab3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:05 +0000
Subject: [PATCH 02/39] fix: keep the number of table columns in contexts
 without objects

---
 fca/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index a4f28d8..8068bff 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -248,7 +248,8 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=bool)
+        self.np_table = np.array(cross_table, dtype=bool).reshape(
+            len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
         self.attribute_indices = {att: ind
-- 
2.43.0


From b0368de93356bfaa36b19b4024faf6d72f65b11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 03/39] fix: lin_closure must not count a repeated implication
 twice

---
 fca/algorithms/closure_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/closure_operators.py b/fca/algorithms/closure_operators.py
index 3d2258f..dea8439 100644
--- a/fca/algorithms/closure_operators.py
+++ b/fca/algorithms/closure_operators.py
@@ -140,7 +140,7 @@ def lin_closure(s, implications):
                          new_closure)
     count_ls = [(imp, len(imp.premise)) for imp in implications]
     count = dict(count_ls)
-    imps_ls = [(attr, imp) for imp in implications for attr in imp.premise]
+    imps_ls = [(attr, imp) for imp in count for attr in imp.premise]
     imps = defaultdict(list)
     for n,v in imps_ls:
         imps[n].append(v)
-- 
2.43.0


From ef478261388b4c82cc718db090655096ef014b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 04/39] fix: hash of a concept must agree with its equality and
 not depend on meta

---
 fca/concept.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/concept.py b/fca/concept.py
index 6903edb..8c772f9 100644
--- a/fca/concept.py
+++ b/fca/concept.py
@@ -68,7 +68,7 @@ class Concept(object):
                 self.intent == other.intent)
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.extent), frozenset(self.intent)))
 
     def pairs(self):
         if not self.extent or not self.intent:
-- 
2.43.0


From f11d57266dda95f8b52ff7ac2f85ebb9b83623b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 05/39] fix: hash of an implication must agree with its
 equality

---
 fca/implication.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/implication.py b/fca/implication.py
index c9c8135..8bf003b 100644
--- a/fca/implication.py
+++ b/fca/implication.py
@@ -79,7 +79,7 @@ class Implication(object):
             return 0
 
     def __hash__(self):
-        return hash(str(self))
+        return hash((frozenset(self.premise), frozenset(self.conclusion)))
             
     def is_respected(self, some_set):
         """Checks whether *some_set* respects an implication or not"""
-- 
2.43.0


From a84e88e4dcac069f7eb1632925063e07fbb6c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 06/39] fix: object implications failed without confirmed ones
 and were never recomputed

---
 fca/context.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 8068bff..eaa5702 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -314,13 +314,10 @@ class Context(object):
     @basis_computation
     def get_object_implications(self, 
                                 basis=fca.algorithms.compute_dg_basis,
-                                confirmed=None):
+                                confirmed=[]):
         cxt = self.transpose()
-        if not self._obj_imp_basis:
-            self._obj_imp_basis = basis(cxt, imp_basis=confirmed)
-        return self._obj_imp_basis
+        return basis(cxt, imp_basis=confirmed)
     
-    _obj_imp_basis = None
     object_implications = property(get_object_implications)
         
     def examples(self):
-- 
2.43.0


From 96498940af5f989b9b190d1543e5b3f973b17d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 07/39] fix: remove the temporary memoisation also when a basis
 computation raises

---
 fca/context.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index eaa5702..3e98252 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -100,11 +100,13 @@ def basis_computation(f):
         old_att_extent = args[0].get_attribute_extent_by_index
         args[0].get_object_intent_by_index = memo(args[0].get_object_intent_by_index)
         args[0].get_attribute_extent_by_index = memo(args[0].get_attribute_extent_by_index)
-        result = f(*args, **kwargs)
-        del args[0].get_attribute_extent_by_index.cache
-        del args[0].get_object_intent_by_index.cache
-        args[0].get_object_intent_by_index = old_obj_intent
-        args[0].get_attribute_extent_by_index = old_att_extent
+        try:
+            result = f(*args, **kwargs)
+        finally:
+            del args[0].get_attribute_extent_by_index.cache
+            del args[0].get_object_intent_by_index.cache
+            args[0].get_object_intent_by_index = old_obj_intent
+            args[0].get_attribute_extent_by_index = old_att_extent
         return result
     _f.__name__ = f.__name__
     return _f
-- 
2.43.0


From 3aac58596e640be28f593dd1e23641314d076799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 08/39] fix: contexts with the same printout but different
 names are not equal

---
 fca/context.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 3e98252..cd72c52 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -678,9 +678,7 @@ class Context(object):
     def __eq__(self, other):
         if type(other) != Context:
             raise TypeError("An input object should be a context!")
-        if self.__repr__() == other.__repr__():
-            return True
-        elif (len(self.objects) != len(other.objects) or
+        if (len(self.objects) != len(other.objects) or
               len(self.attributes) != len(other.attributes)):
             return False
         elif (set(self.objects) != set(other.objects) or
-- 
2.43.0


From b63fd5dc40e5648c867c1043ee8b7242077ca281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 09/39] fix: list2int overflowed on numpy rows of more than 63
 cells

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index cd72c52..42d01fa 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -802,7 +802,7 @@ def list2int(lst):
     """
     def foo(x, y):
         return (x << 1) + y
-    return reduce(foo, reversed(lst), 0)
+    return reduce(foo, map(int, reversed(lst)), 0)
 
 
 def make_random_context(num_obj, num_att, d):
-- 
2.43.0


From 753b3700b2f2b1ed2d347f3fb01cad30c0c6fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 10/39] fix: reduce_objects skipped rows whose position was the
 code of a reducible row

---
 fca/context.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 42d01fa..5fdc4b7 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -736,8 +736,6 @@ class Context(object):
         reducible = set()
         M = (1 << len(self.attributes)) - 1              #set of attributes repr
         for i in range(len(keys)):                      #checking if i reducible
-            if i in reducible:
-                continue 
             rest = keys[:i] + keys[i+1:]
             current = new = M
             for j in rest:
-- 
2.43.0


From a83d3fe035f026590f9bdb033d850ed496e7ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 11/39] fix: compound must join the rows, not add them

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 5fdc4b7..739829d 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -787,7 +787,7 @@ class Context(object):
         @note: original context remains unchanged
         """
         complementary_cxt = self.complementary() 
-        compound_table = [self.table[i] + complementary_cxt.table[i]
+        compound_table = [list(self.table[i]) + list(complementary_cxt.table[i])
                           for i in range(len(self.objects))]
         return Context(compound_table,
                        self.objects,
-- 
2.43.0


From 10c9a72470adcb48d4435d5fcbbf3c34134113ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 12/39] fix: delete_attributes removed further attributes when
 a name was repeated

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 739829d..5b783bd 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -424,7 +424,7 @@ class Context(object):
         att_inds = [self.attribute_indices[name] for name in names]
         self.np_table = np.delete(self.np_table, att_inds, 1)
         new_table = self.np_table.tolist()
-        for att_index in sorted(att_inds, reverse=True):
+        for att_index in sorted(set(att_inds), reverse=True):
             del self.attributes[att_index]
         self.__init__(new_table, self.objects, self.attributes)
 
-- 
2.43.0


From e948feb8f42633f0448337901ad96d979ec0b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:37 +0000
Subject: [PATCH 13/39] fix: order the modified preclosed sets by a linear
 extension of inclusion

---
 fca/algorithms/aibasis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/aibasis.py b/fca/algorithms/aibasis.py
index 1ea2d86..2f0776f 100644
--- a/fca/algorithms/aibasis.py
+++ b/fca/algorithms/aibasis.py
@@ -87,7 +87,7 @@ def update_preclosed(i, cxt, preclosed, close):
             basis.append(impl)
             mod_extra.append(non_min_mod[j])
         
-    mod_extra.sort(key=lambda x: x[1])
+    mod_extra.sort(key=lambda x: len(x[1]))
     
     return new_preclosed + mod_extra, basis
 
-- 
2.43.0


From 047263c305180d9527204400ec14da6bc091c53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 14/39] fix: many-valued contexts turned their values into
 booleans

---
 fca/context.py   | 4 +++-
 fca/mvcontext.py | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index 5b783bd..92983e6 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -200,6 +200,8 @@ class Context(object):
     1, 3, 4 => 2
     """
 
+    _dtype = bool                        # type of the table cells
+
     def __init__(self, cross_table=None, objects=None, attributes=None):
         """Create a context from cross table and list of objects, list
         of attributes
@@ -250,7 +252,7 @@ class Context(object):
 
         self._objects = _objects
         self._attributes = _attributes
-        self.np_table = np.array(cross_table, dtype=bool).reshape(
+        self.np_table = np.array(cross_table, dtype=self._dtype).reshape(
             len(_objects), len(_attributes))
         self.cross_table = self.np_table.tolist()
         self.object_indices = {obj: ind for ind, obj in enumerate(_objects)}
diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index a1d1fd8..2172ded 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -3,6 +3,8 @@
 Holds class for many valued context
 """
 
+import copy
+
 from fca import Context
 
 class ManyValuedContext(Context):
@@ -43,6 +45,8 @@ class ManyValuedContext(Context):
     [1, 2, 3, 1]
     """
 
+    _dtype = object                      # keep the values as given
+
     def __init__(self, table=[], objects=[], attributes=[]):
         """Create a many valued context from table and list of objects, list
         of attributes
@@ -66,6 +70,11 @@ class ManyValuedContext(Context):
         # self._objects = objects
         # self._attributes = attributes
 
+    def __deepcopy__(self, memo):
+        return ManyValuedContext(copy.deepcopy(self.table, memo),
+                                 self.objects[:],
+                                 self.attributes[:])
+
     def get_objects(self):
         return self._objects
 
-- 
2.43.0


From 038929948a38bfdcb99d785df6a3f4d854b52f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 15/39] fix: subseteq_table used float indices and failed on
 tables without rows

---
 fca/compare_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/compare_context.py b/fca/compare_context.py
index 1d49fdc..c085491 100644
--- a/fca/compare_context.py
+++ b/fca/compare_context.py
@@ -18,9 +18,9 @@ def subseteq_table(table_left, table_right):
                          %(len(table_left[0]), len(table_right[0])))
 
     row_length = len(table_left)
-    table_size = row_length * len(table_left[0])
+    table_size = row_length * len(table_left[0]) if row_length else 0
     for i in range(table_size):
-        a = (i / row_length)
+        a = (i // row_length)
         b = (i % row_length)
         if not (table_left[b][a] <= table_right[b][a]):
             return False
-- 
2.43.0


From 7f52a8aab78cd91b673d71a070eb8d8f755e6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 16/39] fix: pass the sort key by name in filter_concepts

---
 fca/algorithms/filtering/filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index c36b142..4326d40 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -30,7 +30,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     
     def _filter_abs(lattice, indexes, n):
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:int(n)]
             
         return fca.ConceptSystem([c[0] for c in filtered_concepts])
@@ -38,7 +38,7 @@ def filter_concepts(lattice, function, mode, opt=1):
     def _filter_part(lattice, indexes, part):
         n = int(len(lattice) * part)
         key_ = lambda x: x[1] #TODO: check if this works. before it was cmp
-        sorted_indexes = sorted(list(indexes.items()), key_, reverse=True)
+        sorted_indexes = sorted(list(indexes.items()), key=key_, reverse=True)
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-- 
2.43.0


From f3fea4121be93f8af888a49f9ee8a8e5589c7b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 17/39] fix: factorisation of a context without crosses divided
 by zero

---
 fca/algorithms/factors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index fa3e54b..a0e1ad8 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -82,6 +82,8 @@ def algorithm2(cxt, fidelity=1):
     """
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
@@ -137,6 +139,8 @@ def algorithm2_weighted(cxt, fidelity=1):
 
     U = set(cxt.object_attribute_pairs)
     len_initial = len(U)
+    if not len_initial:
+        return
     while (len_initial - len(U)) / len_initial < fidelity:
         D = set()
         V = 0
-- 
2.43.0


From 9f566ed3754a0daa9513809a4f40f07bcf228b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 18/39] fix: algorithm2_weighted must derive the attributes,
 not objects

---
 fca/algorithms/factors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index a0e1ad8..4b43789 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -146,7 +146,7 @@ def algorithm2_weighted(cxt, fidelity=1):
         V = 0
         to_remove = set()
         while True:
-            D_objs = cxt.oprime(D)
+            D_objs = cxt.aprime(D)
             ls_measures = [(score(_oplus(D_objs, j, cxt, U)), j)
                            for j in set(cxt.attributes) - D]
             if ls_measures:
-- 
2.43.0


From ec98630bd58496aa34f128058e10cd2b05ef624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 19/39] fix: read_cxt evaluated object and attribute names as
 code

---
 fca/readwrite/cxt.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index f119e5d..e33528d 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -1,6 +1,8 @@
 # -*- coding: utf-8 -*-
 """Holds function that read context from tab separated txt file"""
 
+import ast
+
 import fca
 
 def read_cxt(path):
@@ -69,16 +71,18 @@ def read_cxt(path):
     for _ in range(number_of_objects):
         next_obj_s = input_file.readline().strip()
         try:
-            next_obj = eval(next_obj_s)
-        except (NameError, SyntaxError):
+            next_obj = ast.literal_eval(next_obj_s)
+            hash(next_obj)
+        except (ValueError, SyntaxError, TypeError):
             next_obj = next_obj_s
         objects.append(next_obj)
     attributes = []
     for _ in range(number_of_attributes):
         next_att_s = input_file.readline().strip()
         try:
-            next_att = eval(next_att_s)
-        except (NameError, SyntaxError):
+            next_att = ast.literal_eval(next_att_s)
+            hash(next_att)
+        except (ValueError, SyntaxError, TypeError):
             next_att = next_att_s
         attributes.append(next_att)
 
-- 
2.43.0


From bcc8d8caea1cf57caef70704dd1517543215fe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 20/39] fix: uread_cxt decoded text that is already decoded

---
 fca/readwrite/cxt.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/readwrite/cxt.py b/fca/readwrite/cxt.py
index e33528d..fc1c201 100644
--- a/fca/readwrite/cxt.py
+++ b/fca/readwrite/cxt.py
@@ -119,7 +119,7 @@ def write_cxt(context, path):
     output_file.close()
     
 def uwrite_cxt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
     output_file.write("B\n\n")
 
     output_file.write(str(len(context.objects))+"\n")
@@ -141,7 +141,7 @@ def uwrite_cxt(context, path):
     output_file.close()
     
 def uread_cxt(path):
-    input_file = open(path, "r")
+    input_file = open(path, "r", encoding="utf-8")
     assert input_file.readline().strip() == "B",\
         "File is not valid cxt"
     input_file.readline() # Empty line
@@ -149,8 +149,8 @@ def uread_cxt(path):
     number_of_attributes = int(input_file.readline().strip())
     input_file.readline() # Empty line
 
-    objects = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_objects)]
-    attributes = [str(input_file.readline().strip(), "utf-8") for i in range(number_of_attributes)]
+    objects = [input_file.readline().strip() for i in range(number_of_objects)]
+    attributes = [input_file.readline().strip() for i in range(number_of_attributes)]
 
     table = []
     for i in range(number_of_objects):
-- 
2.43.0


From 7c1e8687b9d659f0342a22bd9386ed8e2db79a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 21/39] fix: tab separated readers and writers mixed up bytes
 and text

---
 fca/readwrite/tab_separated.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index 456f2a5..d23a2a8 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -79,7 +79,7 @@ def read_txt(path):
     ['a', 'b', 'c', 'd']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read attributes names
 
@@ -105,7 +105,7 @@ def read_txt(path):
     # TODO: It's hack
     # Strange things happen with csv in case of non standard characters
     if len(attributes) != len(table[0]):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         attributes = input_file.readline().split("\t")[:-1]
         input_file.close()
 
@@ -144,7 +144,7 @@ def read_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
@@ -172,7 +172,7 @@ def read_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -211,19 +211,19 @@ def uread_mv_txt(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r", encoding="utf-8")
     rdr = csv.reader(input_file, delimiter="\t")
     rec = next(rdr) # read objects names
     
     objects = []
     for obj in rec:
-        objects.append(str(obj, "utf-8").strip())
+        objects.append(str(obj).strip())
     
     rec = next(rdr) # read attributes names
 
     attributes = []
     for attr in rec:
-        attributes.append(str(attr, "utf-8").strip())
+        attributes.append(str(attr).strip())
     
     next(rdr) # empty line
     
@@ -239,7 +239,7 @@ def uread_mv_txt(path):
     # Strange things happen with csv in case some of "non standard" characters
     if ((len(table) != 0) and len(attributes) != len(table[0]))\
         or len(table) != len(objects):
-        input_file = open(path, "rb")
+        input_file = open(path, "r", encoding="utf-8")
         objects = input_file.readline().strip().split("\t")
         attributes = input_file.readline().strip().split("\t")
         input_file.close()
@@ -262,12 +262,12 @@ def write_mv_txt(context, path):
     output_file.close()
 
 def uwrite_mv_txt(context, path):
-    output_file = open(path, "w")
+    output_file = open(path, "w", encoding="utf-8")
 
-    output_file.write("\t".join(context.objects).encode("utf-8"))
+    output_file.write("\t".join(context.objects))
     output_file.write("\n")
 
-    output_file.write("\t".join(context.attributes).encode("utf-8"))
+    output_file.write("\t".join(context.attributes))
     output_file.write("\n\n")
 
     for i in range(len(context.objects)):
-- 
2.43.0


From 714b173d0de6e5114ce164061eedcf5f0ff80759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 22/39] fix: open comma separated files in text mode

---
 fca/readwrite/comma_separated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index 7867d44..ce03923 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -36,7 +36,7 @@ def read_mv_csv(path):
     ['attr1', 'attr2', 'attr3']
 
     """
-    input_file = open(path, "rb")
+    input_file = open(path, "r")
     rdr = csv.reader(input_file, delimiter=",")
     
     objects = []
-- 
2.43.0


From c7c8121eff77eb7952f8d549719844095671a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 23/39] fix: write_xml and read_xml mixed up bytes and text

---
 fca/readwrite/xml_.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 5fefff8..425b04f 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -28,7 +28,7 @@ def write_xml(path, cs):
     objects_ids = dict([(objects[i], "o{0}".format(i+1))  for i in range(len(objects))])
     attributes_ids = dict([(attributes[i], "a{0}".format(i+1))  for i in range(len(attributes))])
 
-    with open(path, "wb") as out:
+    with open(path, "w", encoding="utf-8") as out:
         impl = getDOMImplementation()
 
         newdoc = impl.createDocument(None, "conceptsystem", None)
@@ -38,7 +38,7 @@ def write_xml(path, cs):
         for obj in objects:
             obj_element = newdoc.createElement("object")
             obj_element.setAttribute("id", objects_ids[obj])
-            textnode = newdoc.createTextNode(obj.encode("utf-8"))
+            textnode = newdoc.createTextNode(obj)
             obj_element.appendChild(textnode)
             element.appendChild(obj_element)
         top_element.appendChild(element)
@@ -47,7 +47,7 @@ def write_xml(path, cs):
         for attr in attributes:
             attr_element = newdoc.createElement("attribute")
             attr_element.setAttribute("id", attributes_ids[attr])
-            textnode = newdoc.createTextNode(attr.encode("utf-8"))
+            textnode = newdoc.createTextNode(attr)
             attr_element.appendChild(textnode)
             element.appendChild(attr_element)
         top_element.appendChild(element)
@@ -177,8 +177,8 @@ def read_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
     
     return cs
     
@@ -262,8 +262,8 @@ def uread_xml(path):
     p.EndElementHandler = end_element
     p.CharacterDataHandler = char_data
     
-    f = open(path)
-    p.ParseFile(f)
+    with open(path, "rb") as f:
+        p.ParseFile(f)
 
     return cs
 
-- 
2.43.0


From 213ac6b7723fcf340fba3d648d6593e8e03a0695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:07 +0000
Subject: [PATCH 24/39] fix: read_xml dropped spaces next to escaped characters
 in names

---
 fca/readwrite/xml_.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/fca/readwrite/xml_.py b/fca/readwrite/xml_.py
index 425b04f..aa70d4a 100644
--- a/fca/readwrite/xml_.py
+++ b/fca/readwrite/xml_.py
@@ -145,14 +145,14 @@ def read_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
-                d_objects[new_obj] = buffer
-                objects.append(buffer)
+                d_objects[new_obj] = buffer.strip()
+                objects.append(buffer.strip())
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
-                d_attributes[new_attr] = buffer
-                attributes.append(buffer)
+                d_attributes[new_attr] = buffer.strip()
+                attributes.append(buffer.strip())
                 new_attr = None
                 buffer = ""
         elif name == "concept":
@@ -166,9 +166,6 @@ def read_xml(path):
     
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
         buffer += data
     
     p = xml.parsers.expat.ParserCreate()
@@ -230,14 +227,14 @@ def uread_xml(path):
         global new_obj, new_attr, buffer
         if name == "object":
             if new_obj:
-                d_objects[new_obj] = buffer
-                objects.append(buffer)
+                d_objects[new_obj] = buffer.strip()
+                objects.append(buffer.strip())
                 new_obj = None
                 buffer = ""
         elif name == "attribute":
             if new_attr:
-                d_attributes[new_attr] = buffer
-                attributes.append(buffer)
+                d_attributes[new_attr] = buffer.strip()
+                attributes.append(buffer.strip())
                 new_attr = None
                 buffer = ""
         elif name == "concept":
@@ -251,9 +248,6 @@ def uread_xml(path):
 
     def char_data(data):
         global buffer
-        if data[0] == "\n":
-            return
-        data = data.strip()
         buffer += data
 
     p = xml.parsers.expat.ParserCreate(encoding="UTF-8")
-- 
2.43.0


From 9921e0a8b98b272416ba41223e9d02f793818731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 25/39] fix: print the values of a many-valued context

---
 fca/mvcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fca/mvcontext.py b/fca/mvcontext.py
index 2172ded..8d7c0d3 100644
--- a/fca/mvcontext.py
+++ b/fca/mvcontext.py
@@ -75,6 +75,12 @@ class ManyValuedContext(Context):
                                  self.objects[:],
                                  self.attributes[:])
 
+    def __repr__(self):
+        output = ", ".join(map(str, self.attributes)) + "\n"
+        for obj, row in zip(self.objects, self.table):
+            output += str(obj) + "\t" + "\t".join(map(str, row)) + "\n"
+        return output
+
     def get_objects(self):
         return self._objects
 
-- 
2.43.0


From ad5f7c1c8620b6f0876ec9d74197866fff345cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 26/39] fix: exploration called deletion methods that do not
 exist

---
 fca/algorithms/exploration_/exploration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 70dda74..526511d 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -84,7 +84,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_example(self, name):
-        self._cxt.delete_object_by_name(name)
+        self._cxt.delete_object(name)
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
@@ -106,7 +106,7 @@ class ExplorationDB(object):
         
     @context_modifier
     def delete_attribute(self, name):
-        self._cxt.delete_attribute_by_name(name)
+        self._cxt.delete_attribute(name)
 
     @context_modifier
     def touch(self):
-- 
2.43.0


From 0f27c91719972bfa37bc81160dc021c3f52bdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 27/39] fix: a rejected edit_example must not change the intent

---
 fca/algorithms/exploration_/exploration.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index 526511d..f0b3fed 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -88,15 +88,14 @@ class ExplorationDB(object):
     
     @context_modifier
     def edit_example(self, name, old_name, intent):
+        if old_name != name and name in self._cxt.objects:
+            raise NotUniqueObjectName()
         old_intent = self._cxt.get_object_intent(old_name)
         if intent != old_intent:
             self._check_intents([intent])
             self._cxt.set_object_intent(intent, old_name)
         if old_name != name:
-            if name in self._cxt.objects:
-                raise NotUniqueObjectName()
-            else:
-                self._cxt.rename_object(old_name, name)
+            self._cxt.rename_object(old_name, name)
         
     @context_modifier
     def add_attribute(self, name, extent):
-- 
2.43.0


From f559726678ef8c89119b6debf000800fe8ebec4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 28/39] fix: edit_attribute of the exploration checked no
 intents and no names

---
 fca/algorithms/exploration_/exploration.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/fca/algorithms/exploration_/exploration.py b/fca/algorithms/exploration_/exploration.py
index f0b3fed..cbd7d70 100644
--- a/fca/algorithms/exploration_/exploration.py
+++ b/fca/algorithms/exploration_/exploration.py
@@ -115,19 +115,16 @@ class ExplorationDB(object):
     def edit_attribute(self, name, old_name, extent):
         intents = []
         for obj in self._cxt.objects:
+            intent = self._cxt.get_object_intent(obj)
             if obj in extent:
-                intents.append(self._cxt.get_object_intent(obj).add(old_name))
+                intent.add(old_name)
             else:
-                intents.append(self._cxt.get_object_intent(obj).discard(old_name))
+                intent.discard(old_name)
+            intents.append(intent)
         self._check_intents(intents)
 
-        first = False
-        for attribute in self._cxt.attributes:
-            if name == attribute:
-                if first:
-                    raise NotUniqueAttributeName()
-                else:
-                    first = True
+        if name != old_name and name in self._cxt.attributes:
+            raise NotUniqueAttributeName()
         self._cxt.set_attribute_extent(extent, old_name)
         self._cxt.rename_attribute(old_name, name)
             
-- 
2.43.0


From 86db817c0884f6bec60dfb9601683a129192b514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 29/39] fix: edits must respect confirmed implications of both
 kinds

---
 fca/algorithms/exploration.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/fca/algorithms/exploration.py b/fca/algorithms/exploration.py
index fc0ae0f..011d5eb 100644
--- a/fca/algorithms/exploration.py
+++ b/fca/algorithms/exploration.py
@@ -206,6 +206,11 @@ class BasicExploration(object):
     def edit_attribute(self, new_extent, name):
         if not self.check_extent_for_conflicts(new_extent):
             raise BasisConflict(new_extent)
+        new_intents = [self.context.get_object_intent(obj) - {name} |
+                       ({name} if obj in new_extent else set())
+                       for obj in self.context.objects]
+        if not all(map(self.check_intent_for_conflicts, new_intents)):
+            raise BasisConflict(new_extent)
         else:
             self.context.set_attribute_extent(new_extent, name)
             self.recompute_basis()
@@ -213,6 +218,11 @@ class BasicExploration(object):
     def edit_object(self, new_intent, name):
         if not self.check_intent_for_conflicts(new_intent):
             raise BasisConflict(new_intent)
+        new_extents = [self.context.get_attribute_extent(att) - {name} |
+                       ({name} if att in new_intent else set())
+                       for att in self.context.attributes]
+        if not all(map(self.check_extent_for_conflicts, new_extents)):
+            raise BasisConflict(new_intent)
         else:
             self.context.set_object_intent(new_intent, name)
             self.recompute_basis()
-- 
2.43.0


From 158ea49b3f317af6c2f7466550f3054f8f6b4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:21 +0000
Subject: [PATCH 30/39] fix: the default pattern generator yields concepts, not
 pairs

---
 fca/algorithms/patterns.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 369fc39..4828164 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -122,7 +122,8 @@ class BasicPatternExploration:
     def get_unconfirmed_patterns_with_examples(self):
         unexplained_examples = list(self.iterate_unexplained_examples())
         out = []
-        for pattern, freq in self.iterate_patterns_with_examples():
+        for item in self.iterate_patterns_with_examples():
+            pattern = item.intent if isinstance(item, Concept) else item[0]
             if not self.is_explained(pattern):
                 covered_examples = [example[0] for example in unexplained_examples
                                     if pattern <= example[1]]
-- 
2.43.0


From 4aee048aa836230d55d560228a0ba43a3c16861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 31/39] fix: adding a row or column to a many-valued context
 keeps its values as given

---
 fca/context.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/fca/context.py b/fca/context.py
index 92983e6..bd9a7cf 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -369,7 +369,7 @@ class Context(object):
     def add_attribute(self, col, attr_name):
         """Add new attribute to context with given name"""
         # not optimised: not expected to be a usual operation
-        new_table = np.c_[self.np_table, col]
+        new_table = np.c_[self.np_table, np.array(col, dtype=self._dtype)]
         new_attributes = self.attributes + [attr_name]
         self.__init__(new_table, self.objects, new_attributes)
 
@@ -378,10 +378,11 @@ class Context(object):
 
         @note: very slow, not suitable for incrementally creating a context"""
         # not optimised: not expected to be a usual operation
-        if self.table.shape[0] > 0:
-            new_table = np.vstack((self.table, [row]))
+        if self.np_table.shape[0] > 0:
+            new_table = np.vstack((self.np_table,
+                                   np.array([row], dtype=self._dtype)))
         else:
-            new_table = np.array([row])
+            new_table = np.array([row], dtype=self._dtype)
         new_objects = self.objects + [obj_name]
         self.__init__(new_table, new_objects, self.attributes)
         
-- 
2.43.0


From 4e954215b5c43965ef91bc7791884d0cdf26e790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:38 +0000
Subject: [PATCH 32/39] fix: a pattern occurs iff some object has it, also if
 an object has every attribute

---
 fca/algorithms/patterns.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/patterns.py b/fca/algorithms/patterns.py
index 4828164..adede39 100644
--- a/fca/algorithms/patterns.py
+++ b/fca/algorithms/patterns.py
@@ -88,8 +88,7 @@ class NotANegativePattern(NotAPatternException):
 def iterate_positive_concepts(positive_cxt, negative_cxt):
     reduced_pos_cxt = positive_cxt.reduce_attributes().reduce_objects()
     for cpt in reduced_pos_cxt.concepts:
-        if negative_cxt.aclosure(cpt.intent) == set(
-                negative_cxt.attributes):
+        if not negative_cxt.aprime(cpt.intent):
             yield cpt
 
 
@@ -131,9 +130,9 @@ class BasicPatternExploration:
         return sorted(out, key=lambda x: -x[1])
 
     def confirm_pattern(self, pattern):
-        if self.positive_cxt.aclosure(pattern) == set(self.positive_cxt.attributes):
+        if not self.positive_cxt.aprime(pattern):
             raise NotAPositivePattern(pattern)
-        elif self.negative_cxt.aclosure(pattern) != set(self.negative_cxt.attributes):
+        elif self.negative_cxt.aprime(pattern):
             raise NotANegativePattern(pattern)
         self.confirmed_patterns.append(frozenset(pattern))
         return self
-- 
2.43.0


From 4f2fd42d16280b9a9a93a8a155a00e1f2396e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 33/39] fix: object names 0 and 1 are not cells of the table

---
 fca/readwrite/tab_separated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/readwrite/tab_separated.py b/fca/readwrite/tab_separated.py
index d23a2a8..4310cc0 100644
--- a/fca/readwrite/tab_separated.py
+++ b/fca/readwrite/tab_separated.py
@@ -31,7 +31,7 @@ def read_txt_with_names(path):
     for rec in rdr:
         objects.append(rec[0])                  # read objects names
         line = []
-        for num in rec:
+        for num in rec[1:]:
             if num == "0":
                 line.append(False)
             elif num == "1":
-- 
2.43.0


From d73f6a2feb769d65d1ffbd5944726c882ba5232d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 34/39] fix: a 0 in a comma separated binary table is not a
 cross

---
 fca/readwrite/comma_separated.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fca/readwrite/comma_separated.py b/fca/readwrite/comma_separated.py
index ce03923..57d588c 100644
--- a/fca/readwrite/comma_separated.py
+++ b/fca/readwrite/comma_separated.py
@@ -65,7 +65,9 @@ def read_csv(path):
     @note: uses *read_mv_csv* add then treats many valued context as binary
     """
     mvcxt = read_mv_csv(path)
-    return fca.Context(mvcxt.table, mvcxt.objects, mvcxt.attributes)
+    table = [[val.strip() not in ("", "0") for val in row]
+             for row in mvcxt.table]
+    return fca.Context(table, mvcxt.objects, mvcxt.attributes)
 
 if __name__ == "__main__":
     import doctest
-- 
2.43.0


From 4ba37f01235e0c1540d3d88aea79eab4e0bb107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 35/39] fix: the conditional factorisation gave up when a
 factor covers nothing new

---
 fca/algorithms/factors.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fca/algorithms/factors.py b/fca/algorithms/factors.py
index 4b43789..2ac701b 100644
--- a/fca/algorithms/factors.py
+++ b/fca/algorithms/factors.py
@@ -239,10 +239,10 @@ def algorithm2_w_condition(cxt, fidelity: float = 1,
                 else:
                     to_remove = to_remove_U
             elif good_factor(cpt=fca.Concept(C, D)):
-                if len(to_remove) == 0:
-                    raise Exception(
-                        f'Algorithm stuck, something went wrong, pairs left '
-                        f'{len(U)}')
+                if len(to_remove) == 0:  # covers nothing new: early restart
+                    U = {u for u in U if u[1] not in D}
+                    removed_atts |= D
+                    break
                 U -= to_remove
                 # print(f'Factor out: {len(C)}, {len(D)}')
                 yield fca.Concept(C, D), len(to_remove) / len_initial, (len_initial - len(U)) / len_initial
-- 
2.43.0


From a8742602769bf5eaf10dfbce4528caa4bf008b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:38 +0000
Subject: [PATCH 36/39] fix: nominal scale of values with a quote or values
 that are no numbers

---
 fca/scale.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fca/scale.py b/fca/scale.py
index 5d3ace0..e085e1f 100644
--- a/fca/scale.py
+++ b/fca/scale.py
@@ -37,8 +37,8 @@ class NominalScale(Scale):
         def foo(value):
             try:
                 return float(value)
-            except ValueError:
-                return "'" + str(value) + "'"
+            except (TypeError, ValueError, OverflowError):
+                return repr(str(value))
         if type(attribute) == str:
             attribute = mvcontext.attributes.index(attribute)
         values = list(set([foo(mvcontext[i][attribute])
-- 
2.43.0


From db6d73d547a746036241d245ebbd937c19fea078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:57 +0000
Subject: [PATCH 37/39] fix: minimising a cover that lists an implication
 object twice lost it

---
 fca/algorithms/implication_covers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/implication_covers.py b/fca/algorithms/implication_covers.py
index ddafc21..d05c5eb 100644
--- a/fca/algorithms/implication_covers.py
+++ b/fca/algorithms/implication_covers.py
@@ -152,7 +152,7 @@ def minimize(cover, close=closure_operators.simple_closure):
         i += 1
         print('maximizing premise ', i)
         cover.remove(imp)
-        imp._premise = close(imp.premise, cover)
+        imp = Implication(close(imp.premise, cover), imp._conclusion)
         if not imp.conclusion <= imp.premise:
             cover.append(imp)
         print((len(cover), 'implications'))
-- 
2.43.0


From 333c0940c682a9fb116dce04432c067b3c72d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:36 +0000
Subject: [PATCH 38/39] fix: filtering by a part of less than one concept
 wrapped around or raised IndexError

---
 fca/algorithms/filtering/filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/algorithms/filtering/filter.py b/fca/algorithms/filtering/filter.py
index 4326d40..eb03740 100644
--- a/fca/algorithms/filtering/filter.py
+++ b/fca/algorithms/filtering/filter.py
@@ -42,7 +42,7 @@ def filter_concepts(lattice, function, mode, opt=1):
         filtered_concepts = sorted_indexes[:n]
         
         values = sorted_indexes
-        eps = values[n-2][1]-values[n-1][1]
+        eps = values[n-2][1]-values[n-1][1] if n > 1 else 0
         
         other_concepts = sorted_indexes[n:]
         for concept in other_concepts:
-- 
2.43.0


From 0277d36b41962e4952df6126011eaf3100d22916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:50 +0000
Subject: [PATCH 39/39] fix: wrong attribute names which are tuples raised
 TypeError in place of ValueError

---
 fca/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fca/context.py b/fca/context.py
index bd9a7cf..5059f99 100644
--- a/fca/context.py
+++ b/fca/context.py
@@ -654,7 +654,7 @@ class Context(object):
         if not set(attribute_names) <= set(self.attributes):
             wrong_attributes = ""
             for a in set(attribute_names) - set(self.attributes):
-                wrong_attributes += "\t%s\n" % a
+                wrong_attributes += "\t%s\n" % (a,)
             raise ValueError("Wrong attribute names:\n%s" % wrong_attributes)    
 
     ############################
-- 
2.43.0

