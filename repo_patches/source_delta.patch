From 9f43b42c2cf83ae530f9461cf503328203bf7e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:35 +0000
Subject: [PATCH 01/49] fix: decide membership in relations, clans and
 multiclans by elements, not ground set

{{}} was taken for a relation as well as a clan, depending on the order of questions, and {({}->1)}
for an absolute relation, because the ground set of an empty set is a subset of everything.
---
 algebraixlib/algebras/clans.py      | 5 +++--
 algebraixlib/algebras/multiclans.py | 5 +++--
 algebraixlib/algebras/relations.py  | 7 +++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c273c6c..5d93db3 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -404,7 +404,7 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_clan == CacheStatus.UNKNOWN:
-        is_clan = obj.get_ground_set().is_subset(get_ground_set())
+        is_clan = obj.is_set and all(_relations.is_member(elem) for elem in obj)
         obj.cache_clan(CacheStatus.from_bool(is_clan))
     return obj.cached_is_clan
 
@@ -433,7 +433,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
     # The `or` clause in this `if` statement is a safety thing. It should never hit.
     if obj.cached_absolute == CacheStatus.UNKNOWN or obj.cached_clan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
-        is_absolute_clan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_clan = obj.is_set and all(
+            _relations.is_absolute_member(elem) for elem in obj)
         if obj.cached_clan == CacheStatus.UNKNOWN:
             if is_absolute_clan:
                 # If it is an absolute clan, it is also a clan.
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index ff0539b..f8f73f0 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -373,7 +373,7 @@ def is_member(obj: _mo.MathObject) -> bool:
         this operation is cached.
     """
     if obj.cached_multiclan == CacheStatus.UNKNOWN:
-        is_multiclan = obj.get_ground_set().is_subset(get_ground_set())
+        is_multiclan = obj.is_multiset and all(_relations.is_member(elem) for elem in obj.data)
         obj.cache_multiclan(CacheStatus.from_bool(is_multiclan))
     return obj.cached_is_multiclan
 
@@ -404,7 +404,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_multiclan == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # multiclan.
-        is_absolute_mclan = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_mclan = obj.is_multiset and all(
+            _relations.is_absolute_member(elem) for elem in obj.data)
         if obj.cached_multiclan == CacheStatus.UNKNOWN:
             if is_absolute_mclan:
                 # If it is an absolute multiclan, it is also a multiclan.
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index bf0181b..c1fc29f 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -196,7 +196,9 @@ def is_member(obj: _mo.MathObject) -> bool:
         of this operation is cached.
     """
     if obj.cached_relation == CacheStatus.UNKNOWN:
-        is_relation = obj.get_ground_set().is_subset(get_ground_set())
+        # Not decided by ground set: that of an empty set is a subset of everything, which would make
+        # {{}} a relation.
+        is_relation = obj.is_set and all(elem.is_couplet for elem in obj)
         obj.cache_relation(CacheStatus.from_bool(is_relation))
     return obj.cached_is_relation
 
@@ -227,7 +229,8 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
             or obj.cached_relation == CacheStatus.UNKNOWN:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute
         # relation.
-        is_absolute_relation = obj.get_ground_set().is_subset(get_absolute_ground_set())
+        is_absolute_relation = obj.is_set and all(
+            _couplets.is_absolute_member(elem) for elem in obj)
         if obj.cached_relation == CacheStatus.UNKNOWN:
             if is_absolute_relation:
                 # If it is an absolute relation, it is also a relation.
-- 
2.43.0


From b844f52e229bead92f701fa2e96eb1033d30f89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 02/49] fix: allow the ground set of an empty set as right
 component of a Cartesian product

Couplet(1, Set()).get_ground_set() failed with an AssertionError while Couplet(Set(), 1) did not.
---
 algebraixlib/structure.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index f4a482f..95a6983 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -309,9 +309,7 @@ class CartesianProduct(Structure):
         :param right: The ground set of the :term:`right component` of a couplet. Must be an
             instance of `Structure`.
         """
-        right_is_struct = isinstance(right, Structure)
-        right_not_struct = type(right) != Structure
-        assert right_is_struct and right_not_struct
+        assert isinstance(right, Structure)
         self._left = left
         self._right = right
 
-- 
2.43.0


From 5f238ed453701f4ce9b10586b4f9457b014ebcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 03/49] fix: clans.from_set must not mark its result as
 right-regular

Every relation has another right component.
---
 algebraixlib/algebras/clans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 5d93db3..2a9f63d 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -703,7 +703,7 @@ def from_set(left: '( M )', *values: '( M )') -> 'PP(M x M)':
         direct_load=True)
     clan.cache_clan(CacheStatus.IS)
     clan.cache_functional(CacheStatus.IS).cache_right_functional(CacheStatus.IS)
-    clan.cache_regular(CacheStatus.IS).cache_right_regular(CacheStatus.IS)
+    clan.cache_regular(CacheStatus.IS)
     return clan
 
 
-- 
2.43.0


From 4b441ffbb59e9b54f3a93ab52d49de9bd9d96186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 04/49] fix: mark empty sets and multisets as right-regular

clans.is_right_regular(Set()) raised StopIteration.
---
 algebraixlib/mathobjects/multiset.py | 1 +
 algebraixlib/mathobjects/set.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index a68bfe1..0740e1f 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -66,6 +66,7 @@ def _init_cache_empty() -> int:
     flags.f.functional = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     # These three are defined for multiclans (multisets of relations), where they inherit the
     # definition from (non-multi) relations.
     flags.f.reflexive = CacheStatus.IS
diff --git a/algebraixlib/mathobjects/set.py b/algebraixlib/mathobjects/set.py
index 95507fb..be3d57f 100755
--- a/algebraixlib/mathobjects/set.py
+++ b/algebraixlib/mathobjects/set.py
@@ -93,6 +93,7 @@ def _init_cache_empty() -> int:
     flags.f.relation = CacheStatus.IS
     flags.f.functional = CacheStatus.IS
     flags.f.regular = CacheStatus.IS
+    flags.f.right_regular = CacheStatus.IS
     flags.f.right_functional = CacheStatus.IS
     flags.f.reflexive = CacheStatus.IS
     flags.f.symmetric = CacheStatus.IS
-- 
2.43.0


From 612aea301d4ded388db5b4967b1051ef41841fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:46 +0000
Subject: [PATCH 05/49] fix: multiclans.is_right_regular must cache and return
 right-regular, not regular

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index f8f73f0..c3c5c0a 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -610,8 +610,8 @@ def is_right_regular(mclan, _checked=True) -> bool:
         right_set = rel.get_right_set()
         right_regular = all(
             _relations.is_right_functional(rel) and right_set == rel.get_right_set() for rel in itr)
-        mclan.cache_regular(CacheStatus.from_bool(right_regular))
-    return mclan.cached_is_regular
+        mclan.cache_right_regular(CacheStatus.from_bool(right_regular))
+    return mclan.cached_is_right_regular
 
 
 def is_reflexive(mclan, _checked=True) -> bool:
-- 
2.43.0


From 78ae7b4d0614f997e5f48cdb72680e70fcdb1a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:33 +0000
Subject: [PATCH 06/49] fix: do not remember false facts about
 cross-(right-)functional unions

A relation that is not right-functional may be dropped from a cross-functional union (and one that is
not functional from a cross-right-functional union), so the result need not inherit the fact. The
result of lhs_cross_functional_union may be regular even if some left relations have no match.
---
 algebraixlib/algebras/clans.py      | 8 +-------
 algebraixlib/algebras/multiclans.py | 4 ----
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 2a9f63d..a23ebf5 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -163,8 +163,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if clan1.cached_is_not_right_functional or clan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -198,10 +196,8 @@ class Algebra:
             result.cache_clan(CacheStatus.IS)
             if lhs.cached_is_functional:
                 result.cache_functional(CacheStatus.IS)
-            if lhs.cached_is_not_right_functional or rhs.cached_is_not_right_functional:
+            if lhs.cached_is_not_right_functional:
                 result.cache_right_functional(CacheStatus.IS_NOT)
-            if not rhs.is_empty and not lhs_rest.is_empty:
-                result.cache_regular(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -232,8 +228,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_clan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if clan1.cached_is_not_functional or clan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index c3c5c0a..6e0f00a 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -162,8 +162,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_functional(CacheStatus.IS)
-            if mclan1.cached_is_not_right_functional or mclan2.cached_is_not_right_functional:
-                result.cache_right_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
@@ -192,8 +190,6 @@ class Algebra:
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             result.cache_right_functional(CacheStatus.IS)
-            if multiclan1.cached_is_not_functional or multiclan2.cached_is_not_functional:
-                result.cache_functional(CacheStatus.IS_NOT)
         return result
 
     @staticmethod
-- 
2.43.0


From bb9c8db9beffc99c0a039eda73e4c327429d1205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 07/49] fix: return the requested rows from order_slice and
 multiclan_to_listgen

A plain integer offset was replaced by the limit, a window inside the multiplicity of one relation
lost its start, and a limit of 0 failed with an AssertionError.
---
 algebraixlib/algebras/multiclans.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 6e0f00a..87edbcd 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -695,7 +695,7 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(offset, _mo.Atom) and isinstance(offset.value, int):
             pass
         elif isinstance(offset, int):
-            offset = _mo.Atom(limit)
+            offset = _mo.Atom(offset)
         elif offset is _undef.Undef():
             return _undef.make_or_raise_undef(2)
         else:
@@ -727,6 +727,9 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
     if start_offset == 0 and end_offset >= float('inf'):
         # Effectively no offset and limit. Return sorted list as-is.
         return counter_list
+    if end_offset <= start_offset:
+        # The window is empty.
+        return []
 
     # Find the list indices of the first and last tuple (representing a relation and a multiplicity)
     # and the resulting multiplicities in these first and last tuples (which may be different from
@@ -746,6 +749,9 @@ def _to_listgen_slice(counter_list: [()], offset, limit):
             end_index = index
             last_multiple = counter_list[end_index][1] - (start_offset_next_tuple - end_offset)
             assert counter_list[end_index][1] > (start_offset_next_tuple - end_offset)
+            if start_index == end_index:
+                # The window starts and ends in the same tuple.
+                first_multiple = last_multiple = end_offset - start_offset
             break
     if start_index is None:
         # No start_index found: start_offset is bigger than all existing offsets. Nothing selected.
-- 
2.43.0


From dde69920da53f469815184c5f92b94b49fb71f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 08/49] fix: accept an order that returns True or False in
 order_slice, as documented

Only an Atom was accepted.
---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 87edbcd..4b96adc 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -835,7 +835,7 @@ def order_slice_to_listgen(mclan: 'P(P(M x M) x N)', less_than_f,
         def __lt__(self, other) -> bool:
             assert isinstance(other, Key)
             result = self._lt(self._rel, other._rel)
-            return result.value
+            return result.value if isinstance(result, _mo.Atom) else result
 
     def make_key(multiset_tuple) -> Key:
         result = Key(relation=multiset_tuple[0], less_than=less_than_f)
-- 
2.43.0


From 591a4fa6bae2ee98fe7223d3e8eee762b15bc0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:07 +0000
Subject: [PATCH 09/49] fix: do not build the result of indexing a multiclan by
 changing an empty multiset

The result kept the remembered facts of an empty multiset and claimed to be a multiclan.
---
 algebraixlib/mathobjects/multiset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/mathobjects/multiset.py b/algebraixlib/mathobjects/multiset.py
index 0740e1f..efddd9a 100755
--- a/algebraixlib/mathobjects/multiset.py
+++ b/algebraixlib/mathobjects/multiset.py
@@ -305,12 +305,12 @@ class Multiset(MathObject):
     def _getitem_multiclan(self, left):
         """Return a multiset with the rights of all the couplets in all relations that have a
         left of ``left``."""
-        result = Multiset()
+        result = _collections.Counter()
         for rel in self:
             rel_result = rel[left]
             if rel_result is not _ud.Undef():
-                result.data.update(rel_result)
-        return result
+                result.update(rel_result)
+        return Multiset(result, direct_load=True)
 
     def _getitem_multirelation(self, left):
         """Return a multiset with the rights of all the couplets that have a left of ``left``."""
-- 
2.43.0


From 71a9cb31ff38eec86d6867b984423192d3b2a7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:27 +0000
Subject: [PATCH 10/49] fix: multiclans.get_rights_for_left of an empty
 multiclan

It raised StopIteration.
---
 algebraixlib/algebras/multiclans.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 4b96adc..15b0661 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -497,6 +497,8 @@ def get_rights_for_left(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True)
             return _undef.make_or_raise_undef(2)
         if left is _undef.Undef():
             return _mo.Set()
+    if mclan.is_empty:
+        return mclan
     clan_itr = iter(mclan)
     rights = _sets.multify(_relations.get_rights_for_left(next(clan_itr), left, _checked=False))
     for rel in clan_itr:
-- 
2.43.0


From 9fdf1607c480cbff725b6dce64ffc86ebd42b528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:49 +0000
Subject: [PATCH 11/49] fix: multiclans.superstrict keeps the multiplicities of
 its first argument

The multiplicity was looked up in the second argument, where the relation need not occur, leaving
elements with multiplicity 0.
---
 algebraixlib/algebras/multiclans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 15b0661..483f70e 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -295,7 +295,7 @@ class Algebra:
         result = _extension.binary_multi_extend(multiclan1, multiclan2, _functools.partial(
             _sets.superstrict, _checked=False), _checked=False)
         for elem, multi in result.data.items():
-            result.data[elem] = multiclan2.data[elem]
+            result.data[elem] = multiclan1.data[elem]
         if not result.is_empty:
             result.cache_multiclan(CacheStatus.IS)
             if multiclan1.cached_is_functional:
-- 
2.43.0


From 84d9d21de34b33f086168efeab28553f7a9b720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:56 +0000
Subject: [PATCH 12/49] fix: is_regular and is_right_regular of sets of clans

They raised AttributeError.
---
 algebraixlib/algebras/properties.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 271e2d4..1a667ba 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -332,9 +332,9 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_regular(elem1):
             mo.cache_regular(CacheStatus.IS_NOT)
             return False
-        elem1_lefts = elem1.get_lefts()
+        elem1_lefts = elem1.get_left_set()
         regular = all(
-            is_regular(elem, _checked=False) and elem.get_lefts() == elem1_lefts
+            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
             for elem in mo_iter)
         mo.cache_regular(CacheStatus.from_bool(regular))
         return mo.cached_is_regular
@@ -380,9 +380,9 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
         if not is_right_regular(elem1):
             mo.cache_right_regular(CacheStatus.IS_NOT)
             return False
-        elem1_rights = elem1.get_rights()
+        elem1_rights = elem1.get_right_set()
         right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_rights() == elem1_rights
+            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
             for elem in mo_iter)
         mo.cache_right_regular(CacheStatus.from_bool(right_regular))
         return mo.cached_is_right_regular
-- 
2.43.0


From 2439deb93d21b44ce158b6f1916138cea3ec4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 13/49] fix: a structure Union removes all members that a new
 member includes

---
 algebraixlib/structure.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index 95a6983..bee4a1c 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -409,18 +409,15 @@ class Union(Structure):
         def _add_element(new_element):
             """Add an element (a Structure) to the union if it is not already in it."""
             assert isinstance(new_element, Structure)
-            for existing_element in writeable_union:
+            for existing_element in list(writeable_union):
                 if new_element.is_subset(existing_element):
                     # To be added element is subset of existing element: nothing to add.
-                    break
+                    return
                 elif existing_element.is_subset(new_element):
-                    # To be added element is (real) superset of existing element: exchange them.
+                    # To be added element is (real) superset of existing element: remove the latter.
                     writeable_union.remove(existing_element)
-                    writeable_union.add(new_element)
-                    break
-            else:
-                # To be added element is neither subset nor superset of existing: add it.
-                writeable_union.add(new_element)
+            # To be added element is not a subset of any existing element: add it.
+            writeable_union.add(new_element)
 
         writeable_union = set()
         for new_structure in iterable:
-- 
2.43.0


From dc05cb63ad52ed5323a46a68121271862076399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 14/49] fix: a structure is a subset of a Union if a member of
 the Union includes it

---
 algebraixlib/structure.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index bee4a1c..d350cbd 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -161,6 +161,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(element) for element in other.data)
         return type(other) == GenesisSetA or type(other) == GenesisSetM
 
     def get_powerset_level(self, other: Structure) -> int:
@@ -215,6 +217,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(element) for element in other.data)
         return type(other) == GenesisSetM
 
     def get_powerset_level(self, other):
@@ -262,6 +266,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is a subset of ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return any(self.is_subset(element) for element in other.data)
         return type(other) == GenesisSetN
 
     def get_powerset_level(self, other):
@@ -544,6 +550,8 @@ class PowerSet(Structure):
             return True
         elif isinstance(other, PowerSet):
             return self._base_set.is_subset(other._base_set)
+        elif isinstance(other, Union):
+            return any(self.is_subset(element) for element in other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
-- 
2.43.0


From e4addd29f7745201678cf91a79d21f9b7d495fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 15/49] fix: a structure and the Union of only this structure
 are equal in both directions

---
 algebraixlib/structure.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index d350cbd..b047c8b 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -117,6 +117,8 @@ class Structure(object):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == Structure
 
     # ----------------------------------------------------------------------------------------------
@@ -181,6 +183,8 @@ class GenesisSetA(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetA
 
     # ----------------------------------------------------------------------------------------------
@@ -237,6 +241,8 @@ class GenesisSetM(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetM
 
     # ----------------------------------------------------------------------------------------------
@@ -286,6 +292,8 @@ class GenesisSetN(Structure):
         :return: ``True`` if ``self`` is structurally equivalent to ``other``.
         """
         assert isinstance(other, Structure)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return type(other) == GenesisSetN
 
     # ----------------------------------------------------------------------------------------------
@@ -377,6 +385,8 @@ class CartesianProduct(Structure):
         assert isinstance(other, Structure)
         if isinstance(other, CartesianProduct):
             return (self.left == other.left) and (self.right == other.right)
+        if isinstance(other, Union):
+            return other.is_same(self)
         return False
 
     # ----------------------------------------------------------------------------------------------
@@ -507,6 +517,9 @@ class Union(Structure):
         """Return a hash based on the member values. (It must match the implementation of `is_same`,
         to which `Structure.__eq__` redirects equality comparisons.) Is always cached.
         """
+        if len(self.data) == 1:
+            # 'self' is the same structure as its only element (see 'is_same').
+            return hash(_misc.get_single_iter_elem(self.data))
         return _misc.get_hash(_misc.get_full_class_name(self), self.data)
 
     def __repr__(self):
@@ -581,6 +594,8 @@ class PowerSet(Structure):
         assert isinstance(other, Structure)
         if isinstance(other, PowerSet):
             return self._base_set == other._base_set
+        if isinstance(other, Union):
+            return other.is_same(self)
         return False
 
     # ----------------------------------------------------------------------------------------------
-- 
2.43.0


From af6ff7a5a99039b274ecef30a341afc8b502ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:31 +0000
Subject: [PATCH 16/49] fix: the power set of an empty set is regular and
 right-regular

---
 algebraixlib/algebras/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index 48dd7af..be20334 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -569,8 +569,9 @@ def power_set(set_: _mo.Set):
             result.cache_absolute(set_.cached_absolute)
             result.cache_functional(set_.cached_functional)
             result.cache_right_functional(set_.cached_right_functional)
-            result.cache_regular(CacheStatus.IS_NOT)
-            result.cache_right_regular(CacheStatus.IS_NOT)
+            if not set_.is_empty:
+                result.cache_regular(CacheStatus.IS_NOT)
+                result.cache_right_regular(CacheStatus.IS_NOT)
     return result
 
 
-- 
2.43.0


From e6c094ebdf88b57fc0db4b5fb88ee27753b79785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 17/49] fix: parts of a partition may be (multi)clans even if
 the whole is not

---
 algebraixlib/partition.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/partition.py b/algebraixlib/partition.py
index 5499ef8..ac6ca68 100644
--- a/algebraixlib/partition.py
+++ b/algebraixlib/partition.py
@@ -17,6 +17,15 @@ r"""Operations for partitioning :term:`set`\s and :term:`multiset`\s."""
 import collections as _collections
 
 import algebraixlib.mathobjects as _mo
+from algebraixlib.cache_status import CacheStatus
+
+
+def _known_to_parts(cache_status: int) -> int:
+    """Return what being a clan or multiclan (``cache_status``) of a collection tells about its parts.
+
+    If the collection is not a clan or multiclan, some of its parts may still be one.
+    """
+    return CacheStatus.IS if cache_status == CacheStatus.IS else CacheStatus.UNKNOWN
 
 
 def _create_partition_dict_from_set(set_, class_invariant_func):
@@ -88,13 +97,13 @@ def partition(set_or_mset, class_invariant_func):
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         # Create the resulting Set of Sets from the partition components.
         return _mo.Set((_mo.Set(components, direct_load=True)
-            .cache_clan(set_or_mset.cached_clan)
+            .cache_clan(_known_to_parts(set_or_mset.cached_clan))
             for components in partition_dict.values()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         # Create the resulting Set of Multisets from the partition components.
         return _mo.Set((_mo.Multiset(counter, direct_load=True)
-            .cache_multiclan(set_or_mset.cached_multiclan)
+            .cache_multiclan(_known_to_parts(set_or_mset.cached_multiclan))
             for counter in partition_dict.values()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
@@ -119,12 +128,12 @@ def make_labeled_partition(set_or_mset, class_invariant_func):
     if set_or_mset.is_set:
         partition_dict = _create_partition_dict_from_set(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Set(components, direct_load=True)
-                .cache_clan(set_or_mset.cached_clan), direct_load=True)
+                .cache_clan(_known_to_parts(set_or_mset.cached_clan)), direct_load=True)
             for label, components in partition_dict.items()), direct_load=True)
     elif set_or_mset.is_multiset:
         partition_dict = _create_partition_dict_from_multiset(set_or_mset, class_invariant_func)
         return _mo.Set((_mo.Couplet(label, _mo.Multiset(counter, direct_load=True)
-                .cache_multiclan(set_or_mset.cached_multiclan), direct_load=True)
+                .cache_multiclan(_known_to_parts(set_or_mset.cached_multiclan)), direct_load=True)
             for label, counter in partition_dict.items()), direct_load=True)
     else:
         raise AssertionError('First argument must be Set or Multiset')
-- 
2.43.0


From e81301597d9e5dfb9d1082861a936b762b604147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:13 +0000
Subject: [PATCH 18/49] fix: unchecked unary_extend of Undef

---
 algebraixlib/extension.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/extension.py b/algebraixlib/extension.py
index 73729ac..4365216 100644
--- a/algebraixlib/extension.py
+++ b/algebraixlib/extension.py
@@ -111,7 +111,7 @@ def unary_extend(set_: 'P( M )', op, _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
     else:
         assert _sets.is_member_or_undef(set_)
-        if set is _undef.Undef():
+        if set_ is _undef.Undef():
             return _undef.make_or_raise_undef(2)
 
     def _get_values(_set):
-- 
2.43.0


From d8d4169e5460de9564eff3c1756b6a6caf1cc8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:32 +0000
Subject: [PATCH 19/49] fix: count power set levels through Unions inside of a
 PowerSet

---
 algebraixlib/structure.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index b047c8b..deb36bb 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -576,6 +576,11 @@ class PowerSet(Structure):
         """
 
         def recurse_through_powerset_levels(structure_under_test, powerset_level=0):
+            if type(structure_under_test) == Union:
+                # All members of a union must have the same level.
+                levels = {recurse_through_powerset_levels(element, powerset_level)
+                    for element in structure_under_test.data}
+                return levels.pop() if len(levels) == 1 else 0
             if type(structure_under_test) != PowerSet:
                 return 0
             powerset_level += 1
-- 
2.43.0


From c97898e0760ab6b463015bc27a9450567342107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:42 +0000
Subject: [PATCH 20/49] fix: a Cartesian product is a subset of a Union that
 contains M

---
 algebraixlib/structure.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/algebraixlib/structure.py b/algebraixlib/structure.py
index deb36bb..ded41c6 100644
--- a/algebraixlib/structure.py
+++ b/algebraixlib/structure.py
@@ -361,10 +361,7 @@ class CartesianProduct(Structure):
         elif isinstance(other, CartesianProduct):
             return is_subset_of_cart_prod(other)
         elif isinstance(other, Union):
-            for union_elem in other.data:
-                if isinstance(union_elem, CartesianProduct):
-                    if is_subset_of_cart_prod(union_elem):
-                        return True
+            return any(self.is_subset(union_elem) for union_elem in other.data)
         return False
 
     def get_powerset_level(self, other: Structure) -> int:
-- 
2.43.0


From 626389e367c5a1e876659b1bb0b345593e901230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:37 +0000
Subject: [PATCH 21/49] fix: the order of atoms of different types is
 transitive

---
 algebraixlib/mathobjects/atom.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/mathobjects/atom.py b/algebraixlib/mathobjects/atom.py
index f83ad58..62691ab 100755
--- a/algebraixlib/mathobjects/atom.py
+++ b/algebraixlib/mathobjects/atom.py
@@ -179,7 +179,9 @@ class Atom(MathObject):
                     return self.value < other.value
             except TypeError:
                 pass
-            return repr(self.value) < repr(other.value)
+            # Order by type first, so that values of different types can't be in a cycle (by 'repr'
+            # alone, 10 < 2.0 < 9 < 10).
+            return (self.type.__name__, repr(self.value)) < (other.type.__name__, repr(other.value))
         else:
             return super()._less_than(other)
 
-- 
2.43.0


From 5eb8c0d113ff92155525b9682f9592a211123501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:39 +0000
Subject: [PATCH 22/49] fix: wrong argument types raise UndefException at level
 1 in defined_at, some, big_union and big_intersect

---
 algebraixlib/algebras/clans.py      | 2 +-
 algebraixlib/algebras/multiclans.py | 2 +-
 algebraixlib/algebras/multisets.py  | 2 +-
 algebraixlib/algebras/sets.py       | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index a23ebf5..9f4c960 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -734,7 +734,7 @@ def diag(*args, _checked=True) -> 'PP(M x M)':
 def defined_at(clan: 'PP(M x M)', left: '( M )', _checked=True):
     r"""Return the :term:`relation`\s of ``clan`` that are defined for ``left``."""
     if not is_member(clan):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(clan)
     if left is _undef.Undef():
         return _undef.make_or_raise_undef(2)
     result = _extension.unary_extend(
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 483f70e..df94ac0 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -899,7 +899,7 @@ def diag(*args, _checked=True) -> 'P(P(M x M) x N)':
 def defined_at(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True):
     r"""Return the :term:`relation`\s of ``mclan`` that are defined for ``left``."""
     if not is_member(mclan):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(mclan)
     if left is _undef.Undef():
         return _undef.make_or_raise_undef(2)
     result = _extension.unary_multi_extend(
diff --git a/algebraixlib/algebras/multisets.py b/algebraixlib/algebras/multisets.py
index 18c534c..1e9cd97 100755
--- a/algebraixlib/algebras/multisets.py
+++ b/algebraixlib/algebras/multisets.py
@@ -511,7 +511,7 @@ def some(mset: _mo.Multiset):
         returned.
     """
     if not is_member(mset):
-        return _undef.make_or_raise_undef(2)
+        return _undef.make_or_raise_undef2(mset)
     if mset.cardinality == 0:
         return _undef.make_or_raise_undef(2)
     return next(iter(mset))
diff --git a/algebraixlib/algebras/sets.py b/algebraixlib/algebras/sets.py
index be20334..479acb3 100644
--- a/algebraixlib/algebras/sets.py
+++ b/algebraixlib/algebras/sets.py
@@ -480,7 +480,7 @@ def big_union(set_: 'PP( M )', _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
         for element in set_:
             if not is_member(element):
-                return _undef.make_or_raise_undef(2)
+                return _undef.make_or_raise_undef2(element)
     else:
         assert is_member_or_undef(set_)
         if set_ is _undef.Undef():
@@ -510,7 +510,7 @@ def big_intersect(set_: 'PP( M )', _checked=True) -> 'P( M )':
             return _undef.make_or_raise_undef2(set_)
         for element in set_:
             if not is_member(element):
-                return _undef.make_or_raise_undef(2)
+                return _undef.make_or_raise_undef2(element)
     else:
         assert is_member_or_undef(set_)
         if set_ is _undef.Undef():
-- 
2.43.0


From d86ca9dc7461106ed42d687d8983d6a83b3d348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:01 +0000
Subject: [PATCH 23/49] fix: defined_at does not treat undefined results as
 wrong arguments

---
 algebraixlib/algebras/clans.py      | 2 +-
 algebraixlib/algebras/multiclans.py | 2 +-
 algebraixlib/algebras/relations.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index 9f4c960..e4df869 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -741,7 +741,7 @@ def defined_at(clan: 'PP(M x M)', left: '( M )', _checked=True):
         clan, _functools.partial(_relations.defined_at, left=left, _checked=_checked),
         _checked=_checked)
     if result is _undef.Undef() or not result:
-        return _undef.make_or_raise_undef2(result)
+        return _undef.make_or_raise_undef(2)
     result.cache_clan(CacheStatus.IS)
     if not result.is_empty:
         if clan.cached_is_functional:
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index df94ac0..1f4f944 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -906,7 +906,7 @@ def defined_at(mclan: 'P(P(M x M) x N)', left: '( M )', _checked=True):
         mclan, _functools.partial(_relations.defined_at, left=left, _checked=_checked),
         _checked=_checked)
     if result is _undef.Undef() or not result:
-        return _undef.make_or_raise_undef2(result)
+        return _undef.make_or_raise_undef(2)
     result.cache_multiclan(CacheStatus.IS)
     if not result.is_empty:
         if mclan.cached_is_functional:
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index c1fc29f..d86fd85 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -611,5 +611,5 @@ def defined_at(rel, left, _checked=True):
     """Return ``rel`` if it has a :term:`couplet` with left component ``left`` else `Undef()`."""
     result = get_rights_for_left(rel, left, _checked)
     if result is _undef.Undef() or not result:
-        return _undef.make_or_raise_undef2(result)
+        return _undef.make_or_raise_undef(2)
     return rel
-- 
2.43.0


From 335ad27e2b57528c263d74d3fcc50c99bb1e5cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 24/49] fix: CSV import states regularity by the columns that
 rows have in common

---
 algebraixlib/import_export/csv.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 5017bc9..0ac9d3d 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -153,7 +153,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             yield key, val
 
     _util.get_left_cached.left_cache = {}
-    import_csv.regular = True  # Set to false if any row is missing one or more values
+    left_sets = set()  # The different sets of columns that have values in a row.
 
     assert ((index_column is not None) & (has_dup_rows is False)) or (index_column is None)
 
@@ -165,14 +165,13 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
         _index = 0
         for row in reader:
             filtered_row = {key: val for key, val in _filter_row(row)}
-            if import_csv.regular and len(row) != len(filtered_row):
-                import_csv.regular = False
             for key, val in types.items():
                 if key in filtered_row:
                     filtered_row[key] = val(filtered_row[key])
             if index_column is not None:
                 filtered_row[index_column] = _index
                 _index += 1
+            left_sets.add(frozenset(filtered_row))
             yield _mo.Set(
                 (_mo.Couplet(left=_util.get_left_cached(left), right=_mo.Atom(right),
                 direct_load=True) for left, right in filtered_row.items()), direct_load=True)\
@@ -183,18 +182,18 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
             return _mo.Multiset(_import_csv(csv_file_or_filepath),
                                 direct_load=True).cache_multiclan(
                 CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-                CacheStatus.from_bool(import_csv.regular))
+                CacheStatus.from_bool(len(left_sets) <= 1))
         else:
             return _mo.Set(_import_csv(csv_file_or_filepath), direct_load=True)\
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
-                .cache_regular(CacheStatus.from_bool(import_csv.regular))
+                .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
     else:
         with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-                    CacheStatus.from_bool(import_csv.regular))
+                    CacheStatus.from_bool(len(left_sets) <= 1))
             else:
                 return _mo.Set(_import_csv(file), direct_load=True)\
                     .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
-                    .cache_regular(CacheStatus.from_bool(import_csv.regular))
+                    .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
-- 
2.43.0


From f61b57670e40fdf3f1460a7b5301dbb15a870336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:44 +0000
Subject: [PATCH 25/49] fix: CSV import from a path keeps line breaks in quoted
 cells

---
 algebraixlib/import_export/csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index 0ac9d3d..bde9118 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -188,7 +188,7 @@ def import_csv(csv_file_or_filepath, types: {}=None, skip_rows: int=0, index_col
                 .cache_clan(CacheStatus.IS).cache_functional(CacheStatus.IS)\
                 .cache_regular(CacheStatus.from_bool(len(left_sets) <= 1))
     else:
-        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore') as file:
+        with open(csv_file_or_filepath, encoding='utf-8', errors='ignore', newline='') as file:
             if has_dup_rows:
                 return _mo.Multiset(_import_csv(file), direct_load=True).cache_multiclan(
                     CacheStatus.IS).cache_functional(CacheStatus.IS).cache_regular(
-- 
2.43.0


From 31ab99535b5e3095f75c9bde4d1feb0ed48507c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 26/49] fix: CSV export of empty clans and of lefts of
 different types

---
 algebraixlib/import_export/csv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/import_export/csv.py b/algebraixlib/import_export/csv.py
index bde9118..94cbb43 100755
--- a/algebraixlib/import_export/csv.py
+++ b/algebraixlib/import_export/csv.py
@@ -60,10 +60,10 @@ def export_csv(absolute_clan_or_multiclan, file_or_path, ordered_lefts=None, sor
         return False
 
     if ordered_lefts is None:
-        # Since this clan is regular, get first relation to acquire left set.
-        rel = next(iter(absolute_clan_or_multiclan))
+        # Since this clan is regular, its left set is the left set of all of its relations.
         # left_set is sorted to guarantee consistent iterations
-        ordered_lefts = sorted([left.value for left in rel.get_left_set()])
+        left_set = absolute_clan_or_multiclan.get_left_set()
+        ordered_lefts = [left.value for left in sorted(left_set)]
 
     # Generate dictionaries that associates left components with their right components for each
     # relation.
-- 
2.43.0


From ac329e8817b1924609946ebfadac8930eac70e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:11 +0000
Subject: [PATCH 27/49] fix: exported files are UTF-8 on every platform, as the
 importers expect

---
 algebraixlib/util/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 544d598..c2d2ede 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -149,7 +149,7 @@ def write_to_file_or_path(file_or_path, data_functor):
     """
     if isinstance(file_or_path, str):
         # 'with' syntax handles close no matter what.
-        with open(file_or_path, "w+", newline='') as out_file:
+        with open(file_or_path, "w+", encoding='utf-8', newline='') as out_file:
             data_functor(out_file)
     else:
         # Assume 'file_or_path' is a writer-type object.
-- 
2.43.0


From a80e99952c9f33434d89dbf5471f55bebc9bc25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:05 +0000
Subject: [PATCH 28/49] fix: JSON files are read as UTF-8 on every platform

import_json opened a path with the platform's default encoding, so that
the same document gave other strings (or an exception) than from a file
object.
---
 algebraixlib/import_export/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/json.py b/algebraixlib/import_export/json.py
index ec77a51..27fff88 100755
--- a/algebraixlib/import_export/json.py
+++ b/algebraixlib/import_export/json.py
@@ -49,5 +49,5 @@ def import_json(json_file_or_filepath) -> 'P( A x M )':
     if hasattr(json_file_or_filepath, "readlines"):  # support StringIO
         return _import_json(json_file_or_filepath)
     else:
-        with open(json_file_or_filepath) as file:
+        with open(json_file_or_filepath, encoding='utf-8') as file:
             return _import_json(file)
-- 
2.43.0


From e5053c5143ca602a22a54e0caa17d57035771400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:26 +0000
Subject: [PATCH 29/49] fix: XML import from a path honours the document's
 encoding

import_xml decoded files as UTF-8, so that documents that declare another
encoding raised UnicodeDecodeError or came out garbled.
---
 algebraixlib/import_export/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 89d6f37..3e866be 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -98,7 +98,7 @@ def import_xml(xml_file_or_filepath, convert_numerics: bool=False) -> 'P( A x M
     if hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
         return _import_xml(xml_file_or_filepath)
     else:
-        with open(xml_file_or_filepath, encoding='utf-8') as file:
+        with open(xml_file_or_filepath, 'rb') as file:  # The XML document declares its encoding.
             return _import_xml(file)
 
 
-- 
2.43.0


From 53726e8ffaa226cc1dc85897aea56d3109d2e24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:46 +0000
Subject: [PATCH 30/49] fix: MoJSON keeps tuples within tuples

The elements of a tuple were left to the JSON encoder, which writes a
tuple as a list, so that Atom(((1, 2), 3)) could not be read back.
---
 algebraixlib/import_export/mojson.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index 5d7c7cb..c43b9b5 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -40,11 +40,11 @@ def encode(obj):
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-        return {'__cls__': 'builtin.list', '__val__': obj}
+        return {'__cls__': 'builtin.list', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, range):
         return {'__cls__': 'builtin.range', '__val__': [obj.start, obj.stop, obj.step]}
     if isinstance(obj, tuple):
-        return {'__cls__': 'builtin.tuple', '__val__': obj}
+        return {'__cls__': 'builtin.tuple', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, _mo.Atom):
         return {'__cls__': 'Atom', '__val__': encode(obj.value)}
     if isinstance(obj, _mo.Couplet):
-- 
2.43.0


From d7a0c67b55356019f0652aabd2fb2c933c3fb689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:07 +0000
Subject: [PATCH 31/49] fix: RDF graphs import from file objects without a
 format

rdflib's guess_format raises TypeError for file objects, so that the
documented default (Turtle) was never used.
---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index f8a8904..d27824e 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -48,7 +48,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
     if rdf_format is None:
         try:
             rdf_format = _rdflib.util.guess_format(graph_file_or_filepath) or 'turtle'
-        except AttributeError:
+        except (AttributeError, TypeError):  # Not a path.
             rdf_format = 'turtle'
 
     graph = _rdflib.Graph()
-- 
2.43.0


From 145dc8c5db0d715339e80b08e39b04023630449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:27 +0000
Subject: [PATCH 32/49] fix: blank nodes of imported RDF graphs become IRIs

Graph.skolemize returns the skolemized graph; its result was ignored, so
that blank nodes remained blank nodes, against the documentation.
---
 algebraixlib/import_export/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index d27824e..e5c4699 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -53,7 +53,7 @@ def import_graph(graph_file_or_filepath, rdf_format: str=None) -> 'PP(A x A)':
 
     graph = _rdflib.Graph()
     graph.parse(source=graph_file_or_filepath, format=rdf_format)
-    graph.skolemize()
+    graph = graph.skolemize()
     return _convert_graph_to_mathobjects(graph)
 
 
-- 
2.43.0


From a111a3421ff537b525f9d5e1bd5b26f7035261c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 33/49] fix: triple_match matches the empty string

An empty string as constant raised IndexError.
---
 algebraixlib/util/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/rdf.py b/algebraixlib/util/rdf.py
index a37f8c5..99f07c0 100644
--- a/algebraixlib/util/rdf.py
+++ b/algebraixlib/util/rdf.py
@@ -122,7 +122,7 @@ def triple_match(rdf_graph: 'PP(A x M)', subject=None, predicate=None, object_=N
 
     def add(rdf_left, value):
         if value is not None:
-            if isinstance(value, str) and value[0] in '?$':
+            if isinstance(value, str) and value.startswith(('?', '$')):
                 projection[rdf_left] = value
             else:
                 pattern[rdf_left] = value
-- 
2.43.0


From e2d5ae963b71cb724e7090cb4fecad7bb95b4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 34/49] fix: export_table writes tables without rows

Exporting an empty clan raised StopIteration after the header.
---
 algebraixlib/import_export/rdf.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index e5c4699..5716514 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -194,10 +194,11 @@ class _ExportTable(_abc.ABC):
 
     def _write_body(self):
         self._body_start()
-        relation_itr = iter(self._clan)
-        self._write_row(next(relation_itr))
-        for relation in relation_itr:
-            self._row_between_relations()
+        is_first = True
+        for relation in self._clan:
+            if not is_first:
+                self._row_between_relations()
+            is_first = False
             self._write_row(relation)
         self._body_end()
 
-- 
2.43.0


From 09615be1915cfbe90d6b3e3f5adac29c74f7f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 35/49] fix: export_table writes valid JSON when a row misses
 its first value

The separator was written for every left but the first, also when nothing
had been written before it.
---
 algebraixlib/import_export/rdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index 5716514..a344aa2 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -293,6 +293,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
             self._file.write(']}')
         def _row_start(self):
             self._file.write('{')
+            self._is_row_empty = True
         def _row_between_relations(self):
             self._file.write(',')
         def _row_end(self):
@@ -301,8 +302,9 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
             pass
         def _write_item(self, left, right, prefix_separator):
             if right is not _ud.Undef():
-                if prefix_separator:
+                if not self._is_row_empty:
                     self._file.write(', ')
+                self._is_row_empty = False
                 self._write_atom(left)
                 self._file.write(': {"type":')
                 if isinstance(right.value, _rdflib.URIRef):
-- 
2.43.0


From e62bb017bfa350baca0290d589710290abeb560a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:12 +0000
Subject: [PATCH 36/49] fix: export_table escapes text in JSON

Quotation marks, backslashes and control characters were written as they
are, which made the document invalid.
---
 algebraixlib/import_export/rdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index a344aa2..e3674e4 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -15,6 +15,7 @@
 # If not, see <http://www.gnu.org/licenses/>.
 # --------------------------------------------------------------------------------------------------
 import abc as _abc
+import json as _json
 import rdflib as _rdflib
 
 import algebraixlib.algebras.clans as _clans
@@ -322,7 +323,9 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._write_atom(right)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
-            self._file.write('"' + str(atom.value) + '"')
+            self._write_text(str(atom.value))
+        def _write_text(self, text: str):
+            self._file.write(_json.dumps(text, ensure_ascii=False))
 
     assert _clans.is_absolute_member(table)
     sorted_lefts = sorted(lefts)
-- 
2.43.0


From d02f42fc4168ba4ba63686ebf77f0988cbe25858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:35 +0000
Subject: [PATCH 37/49] fix: export_table writes JSON literals in their lexical
 form

Booleans and dates were written as Python prints them ('True'), which is
not a value of the datatype written beside it.
---
 algebraixlib/import_export/rdf.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/rdf.py b/algebraixlib/import_export/rdf.py
index e3674e4..5273ab1 100644
--- a/algebraixlib/import_export/rdf.py
+++ b/algebraixlib/import_export/rdf.py
@@ -308,6 +308,7 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                 self._is_row_empty = False
                 self._write_atom(left)
                 self._file.write(': {"type":')
+                text = str(right.value)
                 if isinstance(right.value, _rdflib.URIRef):
                     self._file.write('"uri"')
                 elif isinstance(right.value, _rdflib.BNode):
@@ -319,8 +320,9 @@ def export_table(file_or_path, lefts: 'P( A )', table: 'PP(A x A)', out_format:
                         self._file.write(', "datatype":"')
                         self._file.write(lit.datatype)
                         self._file.write('"')
+                    text = str(lit)  # The lexical form that belongs to the datatype.
                 self._file.write(', "value":')
-                self._write_atom(right)
+                self._write_text(text)
                 self._file.write('}\n')
         def _write_atom(self, atom: _mo.Atom):
             self._write_text(str(atom.value))
-- 
2.43.0


From cdbc5daeb11516bfc489e2384a08459cb3efc05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 38/49] fix: create_simple_web_page works and escapes its
 content

The template holds a brace pair that str.format took for a field
(KeyError), and the object's text was inserted unescaped.
---
 algebraixlib/util/html.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/html.py b/algebraixlib/util/html.py
index 4200cd9..7484b4e 100755
--- a/algebraixlib/util/html.py
+++ b/algebraixlib/util/html.py
@@ -210,10 +210,11 @@ def create_simple_web_page(mathobj: _mo.MathObject) -> str:
         <h2>Input:</h2>
         <div id="dataAlgebraArea">{data_algebra_in!s}</div>
         <h2>Output:</h2>
-        <div id="latexArea">$$\(\require{color}\){latex_out}$$</div>
+        <div id="latexArea">$$\(\require{{color}}\){latex_out}$$</div>
     </body></html>
     """
     web_out = web_template.format(
-        data_algebra_in=mathobj, latex_out=_latexprinter.math_object_to_latex(mathobj))
+        data_algebra_in=_html.escape(str(mathobj)),
+        latex_out=_html.escape(_latexprinter.math_object_to_latex(mathobj)))
     print(web_out)
     return web_out
-- 
2.43.0


From a2b8112eff3c0f7920ef9bc83515f7ea3e95863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:32 +0000
Subject: [PATCH 39/49] fix: core does not repeat characters of short strings

When both parts together cover the string there is nothing to remove.
---
 algebraixlib/util/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index c2d2ede..7986a12 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -331,7 +331,7 @@ def core(string: str, begin_len: int=0, end_len: int=0) -> str:
     :param end_len: The length, in characters, of the ending part of the string.
     """
 
-    if begin_len > 0 and end_len > 0 and begin_len - end_len < len(string):
+    if begin_len > 0 and end_len > 0 and begin_len + end_len < len(string):
         string = string[:begin_len] + '\n...\n' + string[-end_len:]
     return string
 
-- 
2.43.0


From f9472821928923a6b775ecf086854c0001dd74a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 40/49] fix: short LaTeX of a set depends on its elements only

Whether couplets are parenthesized was decided by the elements that come
first in memory instead of the elements that are shown.
---
 algebraixlib/util/latexprinter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index 1d3bcb8..eca5964 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -198,11 +198,12 @@ def set_to_latex(set_: _mo.Set, short: bool=False, _depth: int=0):
         # Use comma delimiters for elements. Print on single line.
 
         # Add sorting to obtain predictable output.
-        elem_itr = iter(sorted(set_.data))
+        elems = sorted(set_.data)
+        elem_itr = iter(elems)
 
         if short and set_.cardinality > Config.short_set_len + 1:
             is_couplet_list = [elem.is_couplet
-                for elem in _itertools.islice(set_, Config.short_set_len)]
+                for elem in _itertools.islice(elems, Config.short_set_len)]
         else:
             is_couplet_list = [elem.is_couplet for elem in set_]
         parenthesize_couplets = any(is_couplet_list) and not all(is_couplet_list)
-- 
2.43.0


From ad204952b2c5fe70dfe94cac7826544aa5d1fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:36 +0000
Subject: [PATCH 41/49] fix: short LaTeX of a multiset has an ellipsis only if
 something is left out

The number of elements was counted with multiplicities, but elements are
shown once.
---
 algebraixlib/util/latexprinter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/util/latexprinter.py b/algebraixlib/util/latexprinter.py
index eca5964..a6aedc8 100755
--- a/algebraixlib/util/latexprinter.py
+++ b/algebraixlib/util/latexprinter.py
@@ -266,7 +266,7 @@ def mset_to_latex(mset: _mo.Multiset, short: bool=False, _depth: int=0):
 
     result = _Tokens.left_bracket_dyn + start
 
-    if short and mset.cardinality > Config.short_set_len + 1:
+    if short and len(mset.data) > Config.short_set_len + 1:
         result += separator.join(
             [latex_mset(elem_key, multiple) for elem_key, multiple in _itertools.islice(
                 sorted(mset.data.items()), Config.short_set_len)])
-- 
2.43.0


From 095ac67993a4f11acae75fe9123503f399d25d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 42/49] fix: xml_to_str ignored pre_len and post_len

---
 algebraixlib/import_export/xml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 3e866be..0856689 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -141,8 +141,8 @@ def xml_to_str(xml_file_or_filepath, indent_text='   ', truncate=True, max_line_
 
     xml_str = re.sub(r">.*<", _truncator, xml_str)
 
-    if pre_len > 0 > post_len:
-        return xml_str[:pre_len] + '\n...\n' + xml_str[post_len:]
+    if pre_len > 0 and post_len > 0 and len(xml_str) > pre_len + post_len:
+        return xml_str[:pre_len] + '\n...\n' + xml_str[-post_len:]
 
     return xml_str
 
-- 
2.43.0


From f16b85d3946fb5a8877515749a284fc5b4350bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 43/49] fix: xml_to_str of a path ignored the declared encoding

---
 algebraixlib/import_export/xml.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/algebraixlib/import_export/xml.py b/algebraixlib/import_export/xml.py
index 0856689..5e805d7 100755
--- a/algebraixlib/import_export/xml.py
+++ b/algebraixlib/import_export/xml.py
@@ -118,10 +118,7 @@ def xml_to_str(xml_file_or_filepath, indent_text='   ', truncate=True, max_line_
         that contains an ellipsis.) Ignored if 0 or if ``pre_len`` is 0.
     """
 
-    if not hasattr(xml_file_or_filepath, "readlines"):  # support StringIO
-        xml_file_or_filepath = open(xml_file_or_filepath, encoding='utf-8')
-
-    from xml.dom.minidom import parse
+    from xml.dom.minidom import parse  # Accepts file objects and paths.
     xml_data = parse(xml_file_or_filepath)
     xml_str = xml_data.toprettyxml(indent_text)
 
-- 
2.43.0


From 8e9f19b1e3e7c78241867877f81cf8c6688af618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 44/49] fix: print_var raised for braces in append

---
 algebraixlib/util/miscellaneous.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/algebraixlib/util/miscellaneous.py b/algebraixlib/util/miscellaneous.py
index 7986a12..4850749 100755
--- a/algebraixlib/util/miscellaneous.py
+++ b/algebraixlib/util/miscellaneous.py
@@ -130,9 +130,9 @@ def print_var(variable_name, frames_up: int=0, skip: bool=False, short: bool=Fal
         except Exception:
             format_str_len = ''
 
-        format_str = '{{variable_name}}{format_str_len} {format_str_val}{append}'.format(
-            format_str_len=format_str_len, format_str_val=format_str_val, append=append)
-        var_str = format_str.format(**format_vals)
+        format_str = '{{variable_name}}{format_str_len} {format_str_val}'.format(
+            format_str_len=format_str_len, format_str_val=format_str_val)
+        var_str = format_str.format(**format_vals) + append
         var_str_ind = _textwrap.indent(var_str, indent)
         if indent_first != indent:
             var_str_ind = indent_first + var_str_ind[len(indent):]
-- 
2.43.0


From befcdf1f50ee48cc6d78dac901c65f64cf1cdba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 45/49] fix: is_absolute_member failed if another thread
 examined the same object

---
 algebraixlib/algebras/clans.py      | 21 ++++++++++-----------
 algebraixlib/algebras/multiclans.py | 21 ++++++++++-----------
 algebraixlib/algebras/relations.py  | 21 ++++++++++-----------
 3 files changed, 30 insertions(+), 33 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index e4df869..c6cc06c 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -429,17 +429,16 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # The 'absolute' state has not yet been cached. Determine whether obj is an absolute clan.
         is_absolute_clan = obj.is_set and all(
             _relations.is_absolute_member(elem) for elem in obj)
-        if obj.cached_clan == CacheStatus.UNKNOWN:
-            if is_absolute_clan:
-                # If it is an absolute clan, it is also a clan.
-                obj.cache_clan(CacheStatus.IS)
-            else:
-                # If it is not an absolute clan, it may still be a clan.
-                is_clan = is_member(obj)
-                if not is_clan:
-                    # If it is neither an absolute clan nor a clan, exit. (That it is not a clan
-                    # has already been cached in is_member().)
-                    return False
+        if is_absolute_clan:
+            # If it is an absolute clan, it is also a clan.
+            obj.cache_clan(CacheStatus.IS)
+        else:
+            # If it is not an absolute clan, it may still be a clan.
+            is_clan = is_member(obj)
+            if not is_clan:
+                # If it is neither an absolute clan nor a clan, exit. (That it is not a clan
+                # has already been cached in is_member().)
+                return False
         # At this point, cached_clan == IS. Cache whether this is an absolute clan.
         assert obj.cached_is_clan
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_clan))
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 1f4f944..71769b3 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -402,17 +402,16 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # multiclan.
         is_absolute_mclan = obj.is_multiset and all(
             _relations.is_absolute_member(elem) for elem in obj.data)
-        if obj.cached_multiclan == CacheStatus.UNKNOWN:
-            if is_absolute_mclan:
-                # If it is an absolute multiclan, it is also a multiclan.
-                obj.cache_multiclan(CacheStatus.IS)
-            else:
-                # If it is not an absolute multiclan, it may still be a multiclan.
-                is_mclan = is_member(obj)
-                if not is_mclan:
-                    # If it is neither an absolute multiclan nor a multiclan, exit. (That it is
-                    # not a multiclan has already been cached in is_member().)
-                    return False
+        if is_absolute_mclan:
+            # If it is an absolute multiclan, it is also a multiclan.
+            obj.cache_multiclan(CacheStatus.IS)
+        else:
+            # If it is not an absolute multiclan, it may still be a multiclan.
+            is_mclan = is_member(obj)
+            if not is_mclan:
+                # If it is neither an absolute multiclan nor a multiclan, exit. (That it is
+                # not a multiclan has already been cached in is_member().)
+                return False
         # At this point, cached_multiclan == IS. Cache whether this is an absolute multiclan.
         assert obj.cached_is_multiclan
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_mclan))
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index d86fd85..12574cb 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -231,17 +231,16 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # relation.
         is_absolute_relation = obj.is_set and all(
             _couplets.is_absolute_member(elem) for elem in obj)
-        if obj.cached_relation == CacheStatus.UNKNOWN:
-            if is_absolute_relation:
-                # If it is an absolute relation, it is also a relation.
-                obj.cache_relation(CacheStatus.IS)
-            else:
-                # If it is not an absolute relation, it may still be a relation.
-                is_relation = is_member(obj)
-                if not is_relation:
-                    # If it is neither an absolute relation nor a relation, exit. (That it is not a
-                    # relation has already been cached in is_member().)
-                    return False
+        if is_absolute_relation:
+            # If it is an absolute relation, it is also a relation.
+            obj.cache_relation(CacheStatus.IS)
+        else:
+            # If it is not an absolute relation, it may still be a relation.
+            is_relation = is_member(obj)
+            if not is_relation:
+                # If it is neither an absolute relation nor a relation, exit. (That it is not a
+                # relation has already been cached in is_member().)
+                return False
         # At this point, cached_relation == IS. Cache whether this is an absolute relation.
         assert obj.cached_is_relation
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_relation))
-- 
2.43.0


From 70c6afb50f950ccc02f3cba5819aeb48d2cbb83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 46/49] fix: is_absolute_member was wrong if another thread
 examined the same object

---
 algebraixlib/algebras/clans.py      | 5 +++--
 algebraixlib/algebras/multiclans.py | 5 +++--
 algebraixlib/algebras/relations.py  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/algebraixlib/algebras/clans.py b/algebraixlib/algebras/clans.py
index c6cc06c..7e65001 100644
--- a/algebraixlib/algebras/clans.py
+++ b/algebraixlib/algebras/clans.py
@@ -442,8 +442,9 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # At this point, cached_clan == IS. Cache whether this is an absolute clan.
         assert obj.cached_is_clan
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_clan))
-    # At this point, cached_clan == IS. Return whether it is an absolute clan.
-    return obj.cached_is_absolute
+    # Return whether it is an absolute clan. (That it is a clan must be asked again:
+    # another thread may have found out that it is not since the first question.)
+    return obj.cached_is_clan and obj.cached_is_absolute
 
 
 # --------------------------------------------------------------------------------------------------
diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index 71769b3..f2d57a2 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -415,8 +415,9 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # At this point, cached_multiclan == IS. Cache whether this is an absolute multiclan.
         assert obj.cached_is_multiclan
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_mclan))
-    # At this point, cached_multiclan == IS. Return whether it is an absolute multiclan.
-    return obj.cached_is_absolute
+    # Return whether it is an absolute multiclan. (That it is a multiclan must be asked again:
+    # another thread may have found out that it is not since the first question.)
+    return obj.cached_is_multiclan and obj.cached_is_absolute
 
 
 # --------------------------------------------------------------------------------------------------
diff --git a/algebraixlib/algebras/relations.py b/algebraixlib/algebras/relations.py
index 12574cb..3e143ad 100644
--- a/algebraixlib/algebras/relations.py
+++ b/algebraixlib/algebras/relations.py
@@ -244,8 +244,9 @@ def is_absolute_member(obj: _mo.MathObject) -> bool:
         # At this point, cached_relation == IS. Cache whether this is an absolute relation.
         assert obj.cached_is_relation
         obj.cache_absolute(CacheStatus.from_bool(is_absolute_relation))
-    # At this point, cached_relation == IS. Return whether it is an absolute relation.
-    return obj.cached_is_absolute
+    # Return whether it is an absolute relation. (That it is a relation must be asked again:
+    # another thread may have found out that it is not since the first question.)
+    return obj.cached_is_relation and obj.cached_is_absolute
 
 
 # --------------------------------------------------------------------------------------------------
-- 
2.43.0


From e1e58bfa1829d028d245b49002bd1522ebac4493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:35 +0000
Subject: [PATCH 47/49] fix: slices of multiclans raised TypeError for the
 limit Undef()

---
 algebraixlib/algebras/multiclans.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebraixlib/algebras/multiclans.py b/algebraixlib/algebras/multiclans.py
index f2d57a2..8b09f33 100644
--- a/algebraixlib/algebras/multiclans.py
+++ b/algebraixlib/algebras/multiclans.py
@@ -705,10 +705,10 @@ def _to_listgen_check_args(mclan: 'P(P(M x M) x N)', offset: '( A )', limit: '(
         if isinstance(limit, _mo.Atom) \
                 and (isinstance(limit.value, int) or limit.value == float('inf')):
             pass
+        elif limit is _undef.Undef():  # Must be first: Undef() can't be compared.
+            return _undef.make_or_raise_undef(2)
         elif isinstance(limit, int) or limit == float('inf'):
             limit = _mo.Atom(limit)
-        elif limit is _undef.Undef():
-            return _undef.make_or_raise_undef(2)
         else:
             return _undef.make_or_raise_undef()
     else:
-- 
2.43.0


From 1289d91d678df72b30fbc54aa3288b3174a684e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 48/49] fix: MoJSON rounded the parts of complex numbers (str()
 instead of repr())

---
 algebraixlib/import_export/mojson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebraixlib/import_export/mojson.py b/algebraixlib/import_export/mojson.py
index c43b9b5..824a904 100755
--- a/algebraixlib/import_export/mojson.py
+++ b/algebraixlib/import_export/mojson.py
@@ -36,7 +36,7 @@ def encode(obj):
     if isinstance(obj, bytes):
         return {'__cls__': 'builtin.bytes', '__val__': [elem for elem in obj]}
     if isinstance(obj, complex):
-        return {'__cls__': 'builtin.complex', '__val__': str(obj)}
+        return {'__cls__': 'builtin.complex', '__val__': repr(obj)}
     if isinstance(obj, frozenset):
         return {'__cls__': 'builtin.frozenset', '__val__': [encode(elem) for elem in obj]}
     if isinstance(obj, list):
-- 
2.43.0


From 657ef816435d51a280860fe7a7324dbd8ab2e284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:13 +0000
Subject: [PATCH 49/49] fix: properties of sets of clans with elements that
 contain empty sets

The answer depended on the order of the elements, and is_regular and
is_right_regular raised TypeError.
---
 algebraixlib/algebras/properties.py | 41 ++++++++++++-----------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/algebraixlib/algebras/properties.py b/algebraixlib/algebras/properties.py
index 1a667ba..c73d785 100755
--- a/algebraixlib/algebras/properties.py
+++ b/algebraixlib/algebras/properties.py
@@ -327,17 +327,12 @@ def is_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
 
     # Check higher (not yet defined) algebras.
     if mo.get_ground_set().get_powerset_level(_clans.get_ground_set()) > 0:
-        mo_iter = iter(mo)
-        elem1 = next(mo_iter)
-        if not is_regular(elem1):
-            mo.cache_regular(CacheStatus.IS_NOT)
-            return False
-        elem1_lefts = elem1.get_left_set()
-        regular = all(
-            is_regular(elem, _checked=False) and elem.get_left_set() == elem1_lefts
-            for elem in mo_iter)
-        mo.cache_regular(CacheStatus.from_bool(regular))
-        return mo.cached_is_regular
+        # (An empty set in an element is not visible in the ground set.)
+        elems = [is_regular(elem, _checked=False) for elem in mo]
+        if not any(elem is _undef.Undef() for elem in elems):
+            regular = all(elems) and len({elem.get_left_set() for elem in mo}) == 1
+            mo.cache_regular(CacheStatus.from_bool(regular))
+            return mo.cached_is_regular
 
     # Nothing applied: 'regular' is not defined.
     mo.cache_regular(CacheStatus.N_A)
@@ -375,17 +370,12 @@ def is_right_regular(mo: _mo.MathObject, _checked: bool=True) -> bool:
 
     # Check higher (not yet defined) algebras.
     if mo.get_ground_set().get_powerset_level(_clans.get_ground_set()) > 0:
-        mo_iter = iter(mo)
-        elem1 = next(mo_iter)
-        if not is_right_regular(elem1):
-            mo.cache_right_regular(CacheStatus.IS_NOT)
-            return False
-        elem1_rights = elem1.get_right_set()
-        right_regular = all(
-            is_right_regular(elem, _checked=False) and elem.get_right_set() == elem1_rights
-            for elem in mo_iter)
-        mo.cache_right_regular(CacheStatus.from_bool(right_regular))
-        return mo.cached_is_right_regular
+        # (An empty set in an element is not visible in the ground set.)
+        elems = [is_right_regular(elem, _checked=False) for elem in mo]
+        if not any(elem is _undef.Undef() for elem in elems):
+            right_regular = all(elems) and len({elem.get_right_set() for elem in mo}) == 1
+            mo.cache_right_regular(CacheStatus.from_bool(right_regular))
+            return mo.cached_is_right_regular
 
     # Nothing applied: 'right-regular' is not defined.
     mo.cache_right_regular(CacheStatus.N_A)
@@ -409,9 +399,12 @@ def _is_powerset_property(mo: _mo.MathObject, ground_set, method) -> bool:
         if it  isn't an element of an n-th power set.
     """
     if mo.get_ground_set().get_powerset_level(ground_set) > 0:
+        all_true = True
         for element in mo:
             result = method(element)
-            if result is _undef.Undef() or not result:
+            if result is _undef.Undef():
+                # (An empty set in 'element' is not visible in the ground set.)
                 return result
-        return True
+            all_true = all_true and result
+        return all_true
     return _undef.Undef()
-- 
2.43.0

