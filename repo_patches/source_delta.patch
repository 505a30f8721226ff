From af3f04fe2f7849607fa75c4a19d1d3e1ed8e2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 01/54] fix: conjugating an index must only change its type
 letter

---
 neutrinomass/tensormethod/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index a6b5fef..75ddfb8 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -106,11 +106,12 @@ class Index(tensor.TensorIndex):
 
     @property
     def conj(self):
-        # conj takes you between dotted and undotted
+        # conj takes you between dotted and undotted (only the first character of
+        # the name encodes the type, so don't touch the rest of the label)
         if self.index_type in Index.get_lorentz_index_types().values():
             if self.index_type == "Undotted":
-                return Index(label=self.label.replace("u", "d"))
-            return Index(label=self.label.replace("d", "u"))
+                return Index(label=self.label.lower().replace("u", "d", 1))
+            return Index(label=self.label.lower().replace("d", "u", 1))
 
         # conj does nothing to isospin indices (implicit epsilon)
         # conj also does nothing to generation indices
-- 
2.43.0


From 36e684c8f8067ebe77de2e9188d1b4e42713ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:17 +0000
Subject: [PATCH 02/54] fix: keep the indices of an IndexedField as text when
 given as a list

---
 neutrinomass/tensormethod/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 75ddfb8..8eb33d0 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -668,6 +668,8 @@ class IndexedField(tensor.Tensor, Field):
         )
 
         # self.comm = FERMI if self.is_fermion else BOSE
+        if not isinstance(indices, str):
+            indices = " ".join(str(i) for i in indices)
         self.index_labels = indices
 
     @property
-- 
2.43.0


From f8f1ada3607d8d92db16bc24a26f410486cd624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 03/54] fix: a field stripped of its derivatives no longer
 carries the stripped data

---
 neutrinomass/tensormethod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 8eb33d0..89a1d41 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -872,7 +872,7 @@ class IndexedField(tensor.Tensor, Field):
             "nf": self.nf,
             "derivs": 0,
             "charges": {k: v for k, v in self.charges.items()},
-            "stripped": self.stripped,
+            "stripped": None,
         }
 
         kwargs = {**self.stripped, **other}
-- 
2.43.0


From 4ef9a711d105376b7678d2438eea7c02715c530b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 04/54] fix: make the hash of fields independent of the order
 of the charges

---
 neutrinomass/tensormethod/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 89a1d41..581a01a 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -459,7 +459,7 @@ class Field:
 
         # constructe hashable structures for each unhashable
         symmetry_tuple = tuple(map(tuple, self._dict["symmetry"]))
-        charges_tuple = tuple(self.charges.items())
+        charges_tuple = tuple(sorted(self.charges.items()))
 
         data = tuple(values) + (symmetry_tuple,) + (charges_tuple,)
         return hash(data)
@@ -792,7 +792,7 @@ class IndexedField(tensor.Tensor, Field):
         )
 
     def __hash__(self):
-        charges_tuple = tuple(self.charges.items())
+        charges_tuple = tuple(sorted(self.charges.items()))
         return hash(
             (
                 self.label,
-- 
2.43.0


From de42d9e658f29c5fd39b1d9d4ff106bf1ba08e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 05/54] fix: make completions hashable

---
 neutrinomass/completions/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 04b4c37..f3cc989 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -415,7 +415,8 @@ class Completion:
         )
 
     def __hash__(self):
-        return hash((self.operator, self.exotic_info(), self.partition))
+        info = frozenset(self.exotic_info().items())
+        return hash((self.operator, info, self.partition))
 
     def __deepcopy__(self, memo):
         return self.__class__(
-- 
2.43.0


From 3c24c955fe9c98f21c3d60a18a25c9cdf1f137de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:18 +0000
Subject: [PATCH 06/54] fix: contracting three colour indices gives only the
 epsilon contraction

---
 neutrinomass/tensormethod/contract.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index 7ef3183..e0a63bc 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -52,8 +52,10 @@ def colour_singlets(operators: List[Operator], overcomplete=False):
 
         if len(ups) == 3 and not downs:
             result.append(op * eps(" ".join(str(-i) for i in ups)))
+            continue
         elif len(downs) == 3 and not ups:
             result.append(op * eps(" ".join(str(-i) for i in downs)))
+            continue
         elif len(downs) == 3 and len(ups) == 3:
             result.append(
                 op
-- 
2.43.0


From 223e99330a71628b328e7667efb605d2bcbe3c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:18 +0000
Subject: [PATCH 07/54] fix: a failed construction of operators no longer leaks
 into the next one

---
 neutrinomass/tensormethod/contract.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index e0a63bc..df080e7 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -219,13 +219,15 @@ def term_lorentz_singlet(term: Operator) -> List[Operator]:
     return contract_su2(left=fst, right=prod, out=0, ignore=["i"])
 
 
-def construct_operators(expr_tree: Prod, _stack=[], ignore=[]) -> List[Operator]:
+def construct_operators(expr_tree: Prod, _stack=None, ignore=[]) -> List[Operator]:
     """Constructs Operator objects from product tree. There will be more than one
     since there will be many ways to contract the indices at each step.
 
     """
     # Algorithm logic: unload tree into a stack and read off elements, calling
     # contract on them and building up the operators.
+    if _stack is None:
+        _stack = []
 
     while isinstance(expr_tree, Prod):
         irrep, left, right = expr_tree
-- 
2.43.0


From 6fae88d65240cfc2b03ff51f59b771c9f26a01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:48 +0000
Subject: [PATCH 08/54] fix: removing relabellings copes with a repeated
 operator

---
 neutrinomass/tensormethod/contract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/contract.py b/neutrinomass/tensormethod/contract.py
index df080e7..499f865 100644
--- a/neutrinomass/tensormethod/contract.py
+++ b/neutrinomass/tensormethod/contract.py
@@ -312,7 +312,7 @@ def compare_singlets(left: Operator, right: Operator):
     """
 
     if left.nocoeff == right.nocoeff:
-        return True, []
+        return [[]]
 
     # Epsilons should be sufficient to look at.
     #
-- 
2.43.0


From 768b9a78881ee5e10028ff00f51de1c7d6da921f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:33 +0000
Subject: [PATCH 09/54] fix: terms that vanish identically are not part of the
 generated Lagrangian

---
 neutrinomass/tensormethod/lagrangian.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index b7ea95f..13a2c18 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -197,8 +197,12 @@ def generate_uv_terms(fields: set):
 
     eq = lambda x, y: x.nocoeff.safe_simplify() == y.nocoeff.safe_simplify()
     remove_equivalent(out, eq_func=eq)
-    # only keep terms that contain exotic fields
-    return [i for i in out if i != 0 and contains(i, [f.field for f in fields])]
+    # only keep nonvanishing terms that contain exotic fields
+    return [
+        i
+        for i in out
+        if i.safe_simplify() != 0 and contains(i, [f.field for f in fields])
+    ]
 
 
 def contains(term: Operator, fields: List[Field]):
-- 
2.43.0


From 853c26c9d2d618a2dcaa80cdf6add7d88c788db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 10/54] fix: contract more than two Lorentz indices of one kind

---
 neutrinomass/completions/completions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index d97eec2..7f14514 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -375,7 +375,7 @@ def get_lorentz_epsilons(fields: Tuple[IndexedField]) -> Tuple[bool, List[Tensor
     undotted, dotted, _, _, _, = prod.indices_by_type.values()
 
     # Reject vector contraction
-    if len(undotted) == 1 and len(dotted) == 1:
+    if len(undotted) % 2 == 1 and len(dotted) % 2 == 1:
         return False, []
 
     epsilons = []
@@ -386,7 +386,7 @@ def get_lorentz_epsilons(fields: Tuple[IndexedField]) -> Tuple[bool, List[Tensor
 
         # pair up all even indices; if odd, leave last index
         if len(indices) % 2 != 0:
-            indices.pop(-1)
+            indices = indices[:-1]
 
         for i, j in chunks(indices, 2):
             epsilons.append(eps(f"-{i} -{j}"))
-- 
2.43.0


From 1a976b236aa4ca5e713be4a6fd70c4a89f3ff094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 11/54] fix: collecting completions by field content loses none

---
 neutrinomass/completions/completions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 7f14514..3268653 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1102,12 +1102,10 @@ def collect_completions(
     if key is None:
         key = lambda x: x.exotic_info()
 
-    func = lambda c: tuple(sorted(key(c).values()))
-    for k, g in groupby(completions, key=func):
-        g_list = list(g)
+    func = lambda c: tuple(sorted(set(key(c).values())))
+    for c in completions:
         # slow_remove_equivalent_completions(g_list)
-        k = tuple(sorted(set(k)))
-        out[k] = g_list
+        out.setdefault(func(c), []).append(c)
 
     return out
 
-- 
2.43.0


From 002cbceeb67c844301522cc735cd042b8d9a7169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 12/54] fix: report a vanishing last term of a derivative
 operator

---
 neutrinomass/completions/completions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 3268653..6f7afd9 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -909,7 +909,7 @@ def construct_completion(partition, gauge_epsilons, graph) -> Union[str, tuple]:
             return proc_term
 
         if proc_term.safe_simplify() == 0:
-            return f"Vanishing coupling at {maybe_term} after derivative processing."
+            return f"Vanishing coupling at {prod} after derivative processing."
 
     # make sure the term is a singlet
     check_singlet(proc_term)
-- 
2.43.0


From a52c0a23cb9fae26a99e002e4ba42036eda01b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 13/54] fix: completions() looks at the operator it is given

---
 neutrinomass/completions/completions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 6f7afd9..aa1b233 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1270,11 +1270,11 @@ def deriv_operator_completions(
     return comps
 
 
-def completions(*args, **kwargs):
+def completions(operator: EffectiveOperator, *args, **kwargs):
     """General dispatch function for completions"""
     if "D" in operator.name:
-        return deriv_operator_completions(*args, **kwargs)
-    return operator_completions(*args, **kwargs)
+        return deriv_operator_completions(operator, *args, **kwargs)
+    return operator_completions(operator, *args, **kwargs)
 
 
 def collect_models(comps):
-- 
2.43.0


From 789081c4f1d1e972641f628a891280329da4583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 14/54] fix: undefined names in fixedpoint and
 multiset_equality

---
 neutrinomass/completions/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index fa1f298..95f9077 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 
 import re
+from collections import Counter
 from typing import List, Callable, TypeVar
 from copy import deepcopy
 
@@ -32,7 +33,7 @@ def foldr(func, xs, acc=None):
 def fixedpoint(f, x):
     """Applies f o f o f ... f(x) until output is unchanged."""
     app = f(x)
-    while application != x:
+    while app != x:
         return fixedpoint(f, app)
     return x
 
-- 
2.43.0


From 256593a120428be12250c6d934ee56ccb06d84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:25 +0000
Subject: [PATCH 15/54] fix: three interchangeable fields in an operator share
 one counter

---
 neutrinomass/completions/completions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index aa1b233..123974f 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -181,13 +181,16 @@ def indexed_fields_with_counters(op: Operator) -> Dict[IndexedField, int]:
         else:
             idxs.append(f.indices)
 
+    def share_counter(v, i, j):
+        # the field at position j gets the counter of the field at position i
+        v[j] = [v[j][0], v[i][1]]
+
     labelled_counts = {k: [[f, i] for i, f in enumerate(v)] for k, v in counts.items()}
     for k, v in labelled_counts.items():
         for (f1, i1), (f2, i2) in combinations(v, 2):
             if not f1.indices_by_type["Isospin"]:
                 # fields are interchangeable, replace
-                f2_idx = labelled_counts[k].index([f2, i2])
-                labelled_counts[k][f2_idx] = [f2, i1]
+                share_counter(v, i1, i2)
                 continue
 
             iso1 = f1.indices_by_type["Isospin"][0]
@@ -195,8 +198,7 @@ def indexed_fields_with_counters(op: Operator) -> Dict[IndexedField, int]:
             if [-iso1, -iso2] in idxs or [-iso2, -iso1] in idxs:
                 # combination of indices match an epsilon-index pair. In this
                 # case, need to replace i2 with i1
-                f2_idx = labelled_counts[k].index([f2, i2])
-                labelled_counts[k][f2_idx] = [f2, i1]
+                share_counter(v, i1, i2)
             else:
                 continue
 
-- 
2.43.0


From 198822413db93b07dbe0c1f447bb40070531698b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 16/54] fix: a copied completion keeps its topology

---
 neutrinomass/completions/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index f3cc989..c521cde 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -425,6 +425,7 @@ class Completion:
             graph=deepcopy(self.graph, memo),
             exotics=deepcopy(self.exotics, memo),
             terms=deepcopy(self.terms, memo),
+            topology=self.topology,
         )
 
     @property
-- 
2.43.0


From 1b5764b6ed9274ecfbed40fb8522fbfd3badc0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 17/54] fix: a copied Dirac fermion keeps its bar

---
 neutrinomass/completions/core.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index c521cde..8a250d0 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -71,6 +71,11 @@ class FieldType(IndexedField):
         return hash(tuple(dict_.items()))
 
     def __deepcopy__(self, memo):
+        # Dirac fermions also carry an (un)barred flag
+        flags = {}
+        if hasattr(self, "is_unbarred"):
+            flags["is_unbarred"] = self.is_unbarred
+
         return self.__class__(
             label=self.label,
             indices=deepcopy(self.indices, memo),
@@ -79,6 +84,7 @@ class FieldType(IndexedField):
             is_conj=self.is_conj,
             symmetry=deepcopy(self.symmetry, memo),
             comm=self.comm,
+            **flags,
         )
 
 
-- 
2.43.0


From d3c5ed0051912c92a4377770203650ed92c7f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:23 +0000
Subject: [PATCH 18/54] fix: the conjugate of a Dirac fermion keeps its latex

---
 neutrinomass/completions/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 8a250d0..972e506 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -306,6 +306,7 @@ class VectorLikeDiracFermion(FieldType):
             is_unbarred=self.is_unbarred,
             symmetry=self.symmetry,
             comm=self.comm,
+            latex=self.latex,
         )
 
     @property
@@ -325,6 +326,7 @@ class VectorLikeDiracFermion(FieldType):
             is_unbarred=self.is_unbarred,
             symmetry=self.symmetry,
             comm=self.comm,
+            latex=self.latex,
         )
 
     def dirac_partner(self):
-- 
2.43.0


From f20da0efe70381f055f24559c06741f2f96e5b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 19/54] fix: pattern matching of empty strings

---
 neutrinomass/utils/match.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/utils/match.py b/neutrinomass/utils/match.py
index 5edaa8c..0ecf48b 100644
--- a/neutrinomass/utils/match.py
+++ b/neutrinomass/utils/match.py
@@ -18,7 +18,7 @@ def _match_on_collection(pattern, data, frame):
 
 
 def is_pattern_var(symbol):
-    return isinstance(symbol, str) and symbol[0] == "?"
+    return isinstance(symbol, str) and symbol[:1] == "?"
 
 
 # TODO write matching tests
-- 
2.43.0


From 406e672222d6ec771da3f409b529ed6b8855686c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:30 +0000
Subject: [PATCH 20/54] fix: multiple_replace with an empty mapping leaves the
 text alone

---
 neutrinomass/completions/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neutrinomass/completions/utils.py b/neutrinomass/completions/utils.py
index 95f9077..61ab9af 100644
--- a/neutrinomass/completions/utils.py
+++ b/neutrinomass/completions/utils.py
@@ -48,6 +48,9 @@ def factors(n):
 
 
 def multiple_replace(mapping: dict, text: str) -> str:
+    if not mapping:
+        return text
+
     regex = re.compile("|".join(map(re.escape, mapping.keys())))
     return regex.sub(lambda mo: mapping[mo.group(0)], text)
 
-- 
2.43.0


From c9c544c77e6f6c0cb46cfa5b1b903106ccc67429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:02 +0000
Subject: [PATCH 21/54] fix: exported latex is read back as it was

---
 neutrinomass/database/export.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/database/export.py b/neutrinomass/database/export.py
index a8caf6b..8bd2976 100644
--- a/neutrinomass/database/export.py
+++ b/neutrinomass/database/export.py
@@ -22,7 +22,7 @@ def export_tensor(tensor):
             f"nf={tensor.nf}",
             f"dynkin='{tensor.dynkin}'",
             f"comm='{tensor.comm}'",
-            f"latex='{tensor.latex}'",
+            f"latex={tensor.latex!r}",
             f"is_conj={tensor.is_conj}",
         )
 
@@ -101,7 +101,10 @@ def export_terms(terms):
 
 
 def export_exotics(exotics: set):
-    return str(set([export_tensor(f) for f in exotics])).replace('"', "")
+    if not exotics:
+        return "set()"
+
+    return "{" + ", ".join(export_tensor(f) for f in exotics) + "}"
 
 
 def export_completion(c: Completion, lazy=True):
@@ -135,6 +138,6 @@ def export_completion(c: Completion, lazy=True):
         % (name, str(quantum_numbers), str(plain_terms), topo)
     )
     completion_string = f"Completion(operator={eff_op}, partition={part}, graph={graph}, exotics={exotics}, terms={terms}, topology='{topo}')"
-    export_string = f"""LazyCompletion(head={head}, tail="{completion_string}")"""
+    export_string = f"""LazyCompletion(head={head}, tail={completion_string!r})"""
 
     return export_string if lazy else completion_string
-- 
2.43.0


From b8bd920865b285320a338ed93fa526d19388dd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:02 +0000
Subject: [PATCH 22/54] fix: an exported Dirac fermion keeps its bar

---
 neutrinomass/database/export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/export.py b/neutrinomass/database/export.py
index 8bd2976..ab2b86e 100644
--- a/neutrinomass/database/export.py
+++ b/neutrinomass/database/export.py
@@ -30,10 +30,11 @@ def export_tensor(tensor):
         is_unbarred = None
         if hasattr(tensor, "is_unbarred"):
             is_unbarred = tensor.is_unbarred
-        kwargs += (f"is_unbarred={is_unbarred}",)
 
         kwargs_str = ", ".join(kwargs)
-        indexed_field = f"ExoticField(IndexedField({kwargs_str}))"
+        indexed_field = (
+            f"ExoticField(IndexedField({kwargs_str}), is_unbarred={is_unbarred})"
+        )
         return indexed_field
 
     if isinstance(tensor, Field):
-- 
2.43.0


From dec26488fe582134df1e7fc1a509ef1f82743a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 23/54] fix: operators with colour deltas are read back from
 their pickle form

---
 neutrinomass/tensormethod/core.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 581a01a..4cb0ac6 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -981,7 +981,12 @@ class Operator(tensor.TensMul):
 
         """
         fields = pickle_form["fields"]
-        epsilons = [eps(" ".join(indices)) for indices in pickle_form["epsilons"]]
+        epsilons = []
+        for indices in pickle_form["epsilons"]:
+            is_colour = len(indices) == 2 and indices[0].lstrip("-").startswith("c")
+            symbol = delta if is_colour else eps
+            epsilons.append(symbol(" ".join(indices)))
+
         indexed_fields = [IndexedField(**d) for d in fields]
         return cls(*indexed_fields, *epsilons)
 
-- 
2.43.0


From 5035a07daf21ae144e37f93f6d39f6c67aaae1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 24/54] fix: forcing a database keeps the models of all
 operators

---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index 5d2239c..d62aaae 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -287,8 +287,7 @@ class ModelDatabase:
             return
 
         self.is_forced = True
-        for k, v in self.data.items():
-            self.data = {k: [m.force() for m in v]}
+        self.data = {k: [m.force() for m in v] for k, v in self.data.items()}
 
     def democratic_remove_equivalent_models(self):
         """Removes duplicate models only by field content"""
-- 
2.43.0


From bff36876403aec976390f892b20b6e7483597207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 25/54] fix: a database read from files can be filtered

---
 neutrinomass/database/database.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index d62aaae..e1390b2 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -166,6 +166,7 @@ class ModelDatabase:
         if data is None:
             self.path = path
 
+            self.is_ordered = False
             # print("Initialising database...")
             filenames = glob(os.path.join(self.path, "*.dat"))
             mvdb_data = [dict(read_completions(f)) for f in filenames]
-- 
2.43.0


From 455bafd97998d6d49c7b69a8bde9269f1fb18ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 26/54] fix: models with one field have no related models
 instead of an error

---
 neutrinomass/database/database.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/database/database.py b/neutrinomass/database/database.py
index e1390b2..bb009ae 100644
--- a/neutrinomass/database/database.py
+++ b/neutrinomass/database/database.py
@@ -144,8 +144,7 @@ class ModelDataFrame(pd.DataFrame):
             prod = reduce(operator.mul, group)
             indices += list(self[self["democratic_num"] == prod].index)
 
-        indices.remove(index)
-        return self.loc[indices]
+        return self.loc[[i for i in indices if i != index]]
 
 
 class ModelDatabase:
-- 
2.43.0


From ec2de84cd8c7da2387d4b5a84189ed0e1a79ce77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:57 +0000
Subject: [PATCH 27/54] fix: fields stripped of their derivative keep their
 statistics and flavours

---
 neutrinomass/completions/completions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 123974f..1c21fa5 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -1181,8 +1181,7 @@ def operator_strip_derivs(op: Operator) -> List[Operator]:
             if field.derivs:
                 assert field.derivs == 1
                 n_derivs += 1
-                data = field.stripped
-                new_field = Field(**data, is_conj=field.is_conj)
+                new_field = field.strip_derivs()
                 indices = field.gauge_indices
                 new_fields.append((new_field, " ".join(str(i) for i in indices)))
                 # new_fields.append((new_field, indices))
-- 
2.43.0


From 962cc5ece9933b6e04618f711ff1e6e8a3e75424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 28/54] fix: closure rule making a charged Higgs from c(eb) nu
 conserves electric charge

---
 neutrinomass/database/closures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index de1be9f..61c95b7 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -118,7 +118,7 @@ RULES = {
     Op(c(hp), c(ub), RST): Op(Const(yu), d, Const(loop), RST),
     Op(hp, u, c(d), RST): Op(Const(g2), Const(loop), Const(loop), RST),
     # make hp
-    Op(c(eb), nu, RST): Op(Const(ye), hp, nu, nu, RST),
+    Op(c(eb), nu, RST): Op(Const(ye), c(hp), nu, nu, RST),
     # vev
     Op(h0, RST): Op(Const(v), RST),
     Op(c(h0), RST): Op(Const(v), RST),
-- 
2.43.0


From 4af624feefac317723ab5f535527cea2571837ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 29/54] fix: closure rule removing a charged Higgs with u c(d)
 conserves electric charge

---
 neutrinomass/database/closures.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index 61c95b7..87a1145 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -116,7 +116,9 @@ RULES = {
     Op(hp, d, RST): Op(Const(yu), c(ub), Const(loop), RST),
     Op(hp, ub, RST): Op(Const(yu), c(d), Const(loop), RST),
     Op(c(hp), c(ub), RST): Op(Const(yu), d, Const(loop), RST),
-    Op(hp, u, c(d), RST): Op(Const(g2), Const(loop), Const(loop), RST),
+    Op(c(hp), u, c(d), RST): Op(
+        Const(v), Const(g2), Const(loop), Const(loop), RST
+    ),
     # make hp
     Op(c(eb), nu, RST): Op(Const(ye), c(hp), nu, nu, RST),
     # vev
-- 
2.43.0


From 56533545844ece8a8ac4de6497f79069bb3e2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 30/54] fix: parse_operator tells index names such as i1 and
 i10 apart

---
 neutrinomass/database/closures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index 87a1145..1f9399f 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -223,8 +223,8 @@ def parse_operator(eff_op: Union[EffectiveOperator, Operator]):
     eval_str = ""
     indices = [("_i", "_j"), ("_k", "_l"), ("_m", "_n"), ("_p", "_q")]
     for (i, j), (a, b) in zip(epsilons, indices):
-        field_string = field_string.replace(str(-i), a)
-        field_string = field_string.replace(str(-j), b)
+        field_string = field_string.replace(f"[{-i}]", f"[{a}]")
+        field_string = field_string.replace(f"[{-j}]", f"[{b}]")
         field_string += f"*eps[{a}][{b}]"
 
     loop_ranges = [1, 1, 1, 1, 1, 1, 1, 1]
-- 
2.43.0


From ebee9363e231e320f44c0f6027142bbb1dcc69f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:02 +0000
Subject: [PATCH 31/54] fix: parse_operator expands only the SU(2) epsilons of
 an operator

---
 neutrinomass/database/closures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index 1f9399f..93992d9 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -215,7 +215,7 @@ def parse_operator(eff_op: Union[EffectiveOperator, Operator]):
 
             fields.append(label)
 
-        else:
+        elif expr.indices[0].tensor_index_type == ISOSPIN:
             epsilons.append(expr.indices)
             n_indices += 2
 
-- 
2.43.0


From 5cc59fac026aa10b5dc36f545bf7b652b7044854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 32/54] fix: closure rule for c(eb) c(d) u needs no quark mass
 insertions

---
 neutrinomass/database/closures.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/neutrinomass/database/closures.py b/neutrinomass/database/closures.py
index 93992d9..ebd75fb 100644
--- a/neutrinomass/database/closures.py
+++ b/neutrinomass/database/closures.py
@@ -86,8 +86,6 @@ RULES = {
         Const(loop),
         Const(loop),
         Const(loopv2),
-        Const(yu),
-        Const(yd),
         Const(ye),
         nu,
         RST,
-- 
2.43.0


From 2c75fc877ac2ea952060ffab652415c7ac6eab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 33/54] fix: charges of an exotic field are summed by name, not
 by position

---
 neutrinomass/completions/completions.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index 1c21fa5..dec724a 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -478,18 +478,14 @@ def exotic_field_and_term(
 
     fields = [f for f in op.tensors if isinstance(f, IndexedField)]
     exotic_charges = {}
-    pairs = list(map(lambda x: x.charges.items(), fields))
 
     # ensure no fields have missing or extra charges
-    fst, *rst = pairs
-    for pair in rst:
-        assert len(pair) == len(fst)
-
-    for n_pairs in zip(*pairs):
-        # fish out key
-        (k, _), *rst = n_pairs
-        # sum over values
-        exotic_charges[k] = sum(map(lambda x: x[1], n_pairs))
+    fst, *rst = [f.charges for f in fields]
+    for charges in rst:
+        assert charges.keys() == fst.keys()
+
+    for k in fst:
+        exotic_charges[k] = sum(charges[k] for charges in [fst, *rst])
 
     indices_by_type = op.indices_by_type.values()
     exotic_undotted, exotic_dotted, exotic_colour, exotic_isospin, _ = map(
-- 
2.43.0


From c16b77c3f74c0bad6100611eecf799dd884c04a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:23 +0000
Subject: [PATCH 34/54] fix: every internal line of a completion's diagram is
 labelled

---
 neutrinomass/completions/completions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index dec724a..ff94f96 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -767,7 +767,7 @@ def replace_and_mutate(
     gauge_epsilons: list,
     lorentz_epsilons: list,
     terms: list,
-    edge_dict: Dict[FieldType, Tuple[int, int]],
+    edge_dict: Dict[FieldType, List[Tuple[int, int]]],
     field_dict: Dict[tuple, str],
     graph: nx.Graph,
 ) -> Leaf:
@@ -810,7 +810,7 @@ def replace_and_mutate(
 
     # update edge_dict
     exotic_edge = get_connecting_edge(graph, nodes)
-    edge_dict[exotic_field] = exotic_edge
+    edge_dict.setdefault(exotic_field, []).append(exotic_edge)
 
     return Leaf(exotic_field, exotic_edge[0])
 
@@ -937,7 +937,10 @@ def partition_completion(partition) -> Union[Completion, FailedCompletion]:
     exotics = set(f for f in edge_dict.keys())
     eff_operator = EffectiveOperator(op.name, explicit_op)
 
-    new_edge_attrs = {v: {"particle": k.label} for k, v in edge_dict.items()}
+    # equal exotics (same label, no indices) may propagate along different edges
+    new_edge_attrs = {
+        edge: {"particle": k.label} for k, edges in edge_dict.items() for edge in edges
+    }
     nx.set_edge_attributes(graph, new_edge_attrs)
 
     return Completion(
-- 
2.43.0


From aad883f7b345a3b129cf5eb6d1194a0214b98185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 35/54] fix: conjugating a field under a derivative also
 conjugates what is under it

---
 neutrinomass/tensormethod/core.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 4cb0ac6..22f0543 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -230,6 +230,19 @@ class Index(tensor.TensorIndex):
         return {"label": self.label}
 
 
+def conj_stripped(stripped):
+    """Conjugate of the information kept about the field under a derivative."""
+    if stripped is None:
+        return None
+
+    undotted, dotted, colour_up, colour_down, isospin = stripped["dynkin"]
+    return {
+        **stripped,
+        "dynkin": dotted + undotted + colour_down + colour_up + isospin,
+        "charges": {k: -v for k, v in stripped["charges"].items()},
+    }
+
+
 class Field:
     def __init__(
         self,
@@ -514,7 +527,7 @@ class Field:
             latex=self.latex,
             nf=self.nf,
             derivs=self.derivs,
-            stripped=self.stripped,
+            stripped=conj_stripped(self.stripped),
         )
 
     def walked(self) -> Prod:
@@ -737,7 +750,7 @@ class IndexedField(tensor.Tensor, Field):
             comm=self.comm,
             nf=self.nf,
             derivs=self.derivs,
-            stripped=self.stripped,
+            stripped=conj_stripped(self.stripped),
         )
 
     @property
-- 
2.43.0


From ac23b6d923dd322b09e666f7eec7a76b3f4148d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 36/54] fix: the symmetry of a conjugated field follows its
 exchanged Dynkin labels

---
 neutrinomass/tensormethod/core.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 22f0543..ef2c2c6 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1,7 +1,7 @@
 #!/usr/bin/env python
 
 
-from collections import defaultdict
+from collections import Counter, defaultdict
 from copy import copy, deepcopy
 from itertools import groupby
 from string import ascii_lowercase
@@ -230,6 +230,19 @@ class Index(tensor.TensorIndex):
         return {"label": self.label}
 
 
+def conj_symmetry(symmetry, dynkin):
+    """The blocks of the symmetry follow the (non-zero) Dynkin labels, which change
+    places under conjugation.
+
+    """
+    present = [pos for pos, digit in enumerate(dynkin) if int(digit)]
+    if len(present) != len(symmetry):
+        return symmetry
+
+    blocks = dict(zip(present, symmetry))
+    return [blocks[pos] for pos in (1, 0, 3, 2, 4) if pos in blocks]
+
+
 def conj_stripped(stripped):
     """Conjugate of the information kept about the field under a derivative."""
     if stripped is None:
@@ -239,6 +252,7 @@ def conj_stripped(stripped):
     return {
         **stripped,
         "dynkin": dotted + undotted + colour_down + colour_up + isospin,
+        "symmetry": conj_symmetry(stripped["symmetry"], stripped["dynkin"]),
         "charges": {k: -v for k, v in stripped["charges"].items()},
     }
 
@@ -520,7 +534,7 @@ class Field:
             dynkin="".join(str(d) for d in dynkin),
             charges={k: -v for k, v in self.charges.items()},
             is_conj=(not self.is_conj),
-            symmetry=self.symmetry,
+            symmetry=conj_symmetry(self.symmetry, self.dynkin),
             history=self.history,
             multiplicity=self.multiplicity,
             comm=self.comm,
@@ -687,12 +701,22 @@ class IndexedField(tensor.Tensor, Field):
 
     @property
     def field(self):
+        # here the blocks of the symmetry follow the indices, there the Dynkin labels
+        symmetry = self.symmetry
+        slots = Counter((i.index_type, i.is_up) for i in self.indices)
+        slots = {k: v for k, v in slots.items() if k[0] != "Generation"}
+        if list(slots.values()) == [sum(block) for block in symmetry]:
+            types = Index.get_index_types().values()
+            order = [(t, is_up) for t in types for is_up in (True, False)]
+            blocks = dict(zip(slots, symmetry))
+            symmetry = [blocks[k] for k in order if k in blocks]
+
         return Field(
             label=self.label if not self.is_conj else self.label[:-1],
             dynkin=self.dynkin,
             charges=self.charges,
             is_conj=self.is_conj,
-            symmetry=self.symmetry,
+            symmetry=symmetry,
             comm=self.comm,
             latex=self.latex,
             nf=self.nf,
-- 
2.43.0


From eaa60f66479ff63b27390eeeb1d9cf82c70453ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 37/54] fix: keep_longest_invariants keeps the longest list,
 not the last

---
 neutrinomass/tensormethod/deriv_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/deriv_operators.py b/neutrinomass/tensormethod/deriv_operators.py
index e250ea6..2f961f6 100644
--- a/neutrinomass/tensormethod/deriv_operators.py
+++ b/neutrinomass/tensormethod/deriv_operators.py
@@ -96,8 +96,8 @@ def keep_longest_invariants(fieldstrings: List[Field]) -> List[Operator]:
     longest = None
     for fieldstring in fieldstrings:
         invs = invariants(*fieldstring)
-        if len(invs) > longest_len:
-            longest = invs
+        if invs and len(invs) >= longest_len:
+            longest, longest_len = invs, len(invs)
 
     if longest is None:
         return []
-- 
2.43.0


From 06e365b7c23a4f2d2ad059694943c72833fb77c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 38/54] fix: operators with three derivatives on one field are
 unwanted too

---
 neutrinomass/tensormethod/deriv_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/deriv_operators.py b/neutrinomass/tensormethod/deriv_operators.py
index 2f961f6..81b5936 100644
--- a/neutrinomass/tensormethod/deriv_operators.py
+++ b/neutrinomass/tensormethod/deriv_operators.py
@@ -81,7 +81,7 @@ def remove_unwanted_deriv_structures(fieldstrings: List[Field]) -> List[Field]:
             if field.derivs and field.lorentz_irrep not in ((1, 1), (0, 1), (1, 0)):
                 break
 
-            if field.derivs == 2:
+            if field.derivs >= 2:
                 break
 
         else:
-- 
2.43.0


From fe67fbb7f43d813dda464d957254d6ee45e62b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:26 +0000
Subject: [PATCH 39/54] fix: deep copies of indices, fields and operators keep
 what they hold

---
 neutrinomass/completions/core.py  |  2 +-
 neutrinomass/tensormethod/core.py | 14 +++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 972e506..5b1d000 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -77,7 +77,7 @@ class FieldType(IndexedField):
             flags["is_unbarred"] = self.is_unbarred
 
         return self.__class__(
-            label=self.label,
+            label=self.args[0],
             indices=deepcopy(self.indices, memo),
             charges=deepcopy(self.charges, memo),
             latex=self.latex,
diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index ef2c2c6..9af5252 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -104,6 +104,10 @@ class Index(tensor.TensorIndex):
         new_label = "-" + self.label if is_up else self.label[1:]
         return Index(label=new_label)
 
+    def __reduce_ex__(self, protocol):
+        # the name alone says neither whether the index is up nor its label
+        return self.__class__, (self.label,)
+
     @property
     def conj(self):
         # conj takes you between dotted and undotted (only the first character of
@@ -828,6 +832,10 @@ class IndexedField(tensor.Tensor, Field):
             self.is_conj,
         )
 
+    def __deepcopy__(self, memo):
+        # the tensor head keeps the symmetry of the indices
+        return self.__class__(**{**deepcopy(self._dict, memo), "label": self.args[0]})
+
     def __hash__(self):
         charges_tuple = tuple(sorted(self.charges.items()))
         return hash(
@@ -1224,7 +1232,11 @@ class Operator(tensor.TensMul):
         return f"${self.latex()}$"
 
     def __deepcopy__(self, memo):
-        return self.__class__(tensors=deepcopy(self.tensors, memo))
+        # epsilons and deltas are immutable
+        is_field = lambda t: isinstance(t, IndexedField)
+        return self.__class__(
+            *[deepcopy(t, memo) if is_field(t) else t for t in self.tensors]
+        )
 
     @property
     def mass_dim(self):
-- 
2.43.0


From 1c98e6b93badeca8851afee04d6fc2063dcab854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 40/54] fix: listing field strings leaves the Standard Model
 fields as they are

---
 neutrinomass/tensormethod/lagrangian.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/neutrinomass/tensormethod/lagrangian.py b/neutrinomass/tensormethod/lagrangian.py
index 13a2c18..590a88d 100644
--- a/neutrinomass/tensormethod/lagrangian.py
+++ b/neutrinomass/tensormethod/lagrangian.py
@@ -5,6 +5,7 @@ finding.
 
 """
 
+from copy import copy
 from itertools import combinations_with_replacement
 from alive_progress import alive_bar
 from sympy import Matrix
@@ -34,14 +35,19 @@ def make_coupling(symbol: str, indices: str, sym=None):
     return tensorhead(symbol, [Index(i) for i in indices_list], sym)
 
 
-def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None):
-    L.charges["l"] = 1
-    eb.charges["l"] = -1
-    Q.charges["l"] = 0
-    ub.charges["l"] = 0
-    db.charges["l"] = 0
-    H.charges["l"] = 0
+def with_lepton_number(field: Field) -> Field:
+    """A copy of a Standard Model field that also carries lepton number."""
+    lepton_numbers = {L: 1, eb: -1, Q: 0, ub: 0, db: 0, H: 0}
+    if field not in lepton_numbers:
+        return field
+
+    out = copy(field)
+    out.charges = {**field.charges, "l": lepton_numbers[field]}
+    return out
 
+
+def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None):
+    fields = tuple(with_lepton_number(f) for f in fields)
     conjs = tuple([f.conj for f in fields])
     if derivs:
         T = Field("D", "11000", charges={"y": 0, "3b": 0, "l": 0})
@@ -64,9 +70,6 @@ def npoint_fieldstrings(n, fields=(L, eb, Q, db, ub, H), derivs=False, func=None
                 terms += [singlets[0]]
             bar()
 
-    # for f in [L, eb, Q, ub, db, H]:
-    #     del f.charges["l"]
-
     return terms
 
 
-- 
2.43.0


From ec209e89f41c949efbf4252f20c03cef0445241b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 41/54] fix: importing smeft leaves the Standard Model fields
 as they are

---
 neutrinomass/tensormethod/smeft.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/neutrinomass/tensormethod/smeft.py b/neutrinomass/tensormethod/smeft.py
index 4d3949b..a62cd4c 100644
--- a/neutrinomass/tensormethod/smeft.py
+++ b/neutrinomass/tensormethod/smeft.py
@@ -2,6 +2,7 @@
 
 """Functions to generate ΔL = 2 SMEFT operators"""
 
+from copy import copy
 from typing import List
 from itertools import combinations_with_replacement
 
@@ -11,15 +12,18 @@ from neutrinomass.tensormethod.core import Field, Operator, Prod, decompose_prod
 # from neutrinomass.tensormethod.contract import construct_operators
 
 
-# add lepton number
-L.charges["L"] = 1
-Q.charges["L"] = 0
-H.charges["L"] = 0
-ub.charges["L"] = 0
-db.charges["L"] = 0
-eb.charges["L"] = -1
+def with_lepton_number(field: Field, lepton_number: int) -> Field:
+    """A copy of `field` that also carries lepton number."""
+    out = copy(field)
+    out.charges = {**field.charges, "L": lepton_number}
+    return out
+
 
-SM = [L, Q, H, eb, ub, db]
+# add lepton number (to copies: the fields are shared with other modules)
+SM = [
+    with_lepton_number(f, n)
+    for f, n in [(L, 1), (Q, 0), (H, 0), (eb, -1), (ub, 0), (db, 0)]
+]
 FIELDS = SM + [f.conj for f in SM]
 
 
-- 
2.43.0


From bcbc77f6b9ee27bc6a116b6b3f933773b2e87481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:10 +0000
Subject: [PATCH 42/54] fix: latex of operators with fields like S1, whose
 first letter is no name

---
 neutrinomass/tensormethod/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 9af5252..2b4ed34 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1161,12 +1161,6 @@ class Operator(tensor.TensMul):
     def latex(self, ignore=None):
         # ordering of fields within the oeprator and style of indices
         field_ordering = ["L", "e", "Q", "u", "d", "H", "B", "W", "G"]
-        for field in self.indexed_fields:
-            f, fc = field, field.conj
-            if hasattr(f, "label") and not f.label in field_ordering:
-                field_ordering.append(f.label.replace("~", ""))
-                field_ordering.append(fc.label.replace("~", ""))
-
         # indices i, j, ... q used for isospin
         isospin_indices = list(ascii_lowercase[8:])
         isospin_indices.remove("o")  # remove o because it's unsightly
@@ -1186,6 +1180,10 @@ class Operator(tensor.TensMul):
 
         # extract first non D in field name e.g. H for DDH
         first_non_deriv = lambda f: str(f).split("D")[-1][0]
+        for field in self.indexed_fields:
+            if first_non_deriv(field) not in field_ordering:
+                field_ordering.append(first_non_deriv(field))
+
         order_func = lambda f: field_ordering.index(first_non_deriv(f))
         sorted_fields = sorted(self.indexed_fields, key=order_func)
 
-- 
2.43.0


From 4337476d974aff9849c63bd9a9e7b12563aae8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 43/54] fix: latex of directly contracted indices uses one
 letter for both

---
 neutrinomass/tensormethod/core.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 2b4ed34..3ace9d7 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -898,9 +898,11 @@ class IndexedField(tensor.Tensor, Field):
             type_ = Index.get_index_labels()[index.index_type]
             # condition that style wants to be printed
             if type_ in style:
-                index_string = style[type_].pop(0)
-                index_dict[index] = index_string
-                indices.append(index_string)
+                # indices contracted directly share their letter
+                if -index not in index_dict:
+                    index_dict[-index] = style[type_].pop(0)
+                index_dict[index] = index_dict[-index]
+                indices.append(index_dict[index])
 
         if not indices:
             return self.get_latex()
-- 
2.43.0


From 1c60cedb6928cf1f1ddfb5bd27194edeadff6ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:34 +0000
Subject: [PATCH 44/54] fix: latex ignoring types of indices also ignores their
 epsilons

---
 neutrinomass/tensormethod/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 3ace9d7..1e3cf11 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1199,6 +1199,10 @@ class Operator(tensor.TensMul):
 
         latex_epsilons = []
         for epsilon in self.epsilons:
+            # nothing to contract if the indices are not shown
+            if Index.get_index_labels()[epsilon.indices[0].index_type] not in style:
+                continue
+
             symb = r"\epsilon"
             # tread deltas differently
             if str(epsilon)[0] == "K":
-- 
2.43.0


From 542739ed0f7f100b612a0bf9a2437ad3f2224790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 45/54] fix: latex of the conjugate of a derivative shows the
 conjugation

---
 neutrinomass/tensormethod/core.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 1e3cf11..8d57527 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -261,6 +261,18 @@ def conj_stripped(stripped):
     }
 
 
+def conj_latex(field):
+    """Latex of the conjugate: that of derivatives contains the tilde or dagger."""
+    if field.stripped is None:
+        return field.latex
+
+    old, new = [
+        strip_parens(Field(**{**field.stripped, "is_conj": is_conj}).get_latex())
+        for is_conj in (field.is_conj, not field.is_conj)
+    ]
+    return field.latex.replace(f"D{old})", f"D{new})")
+
+
 class Field:
     def __init__(
         self,
@@ -542,7 +554,7 @@ class Field:
             history=self.history,
             multiplicity=self.multiplicity,
             comm=self.comm,
-            latex=self.latex,
+            latex=conj_latex(self),
             nf=self.nf,
             derivs=self.derivs,
             stripped=conj_stripped(self.stripped),
@@ -774,7 +786,7 @@ class IndexedField(tensor.Tensor, Field):
             charges={k: -v for k, v in self.charges.items()},
             is_conj=(not is_conj),
             symmetry=self.symmetry,
-            latex=self.latex,
+            latex=conj_latex(self),
             comm=self.comm,
             nf=self.nf,
             derivs=self.derivs,
-- 
2.43.0


From c1572e6afda08dd1c5706382222a6e377a3a1e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 46/54] fix: completions relabelled are equivalent whatever
 order the labels sort in

---
 neutrinomass/completions/completions.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/completions/completions.py b/neutrinomass/completions/completions.py
index ff94f96..caeab2d 100644
--- a/neutrinomass/completions/completions.py
+++ b/neutrinomass/completions/completions.py
@@ -995,6 +995,18 @@ def sort_strings(terms: List[List[str]]):
     return set(map(lambda x: tuple(sorted(x)), data))
 
 
+def relabel_term(term, remapping):
+    """Return the term with its fields relabelled according to remapping."""
+    tensors = []
+    for tensor in term.tensors:
+        if isinstance(tensor, IndexedField):
+            label = multiple_replace(remapping, tensor.label)
+            tensor = IndexedField(**{**tensor._dict, "label": label})
+        tensors.append(tensor)
+
+    return Operator(*tensors)
+
+
 def check_remapping_on_terms(terms1, terms2, remapping):
     """Return the remapping on the field labels in the terms that would get you from
     one to the other, i.e. return the isomorphism if one exists, otherwise
@@ -1004,9 +1016,9 @@ def check_remapping_on_terms(terms1, terms2, remapping):
     new_terms = set()
     for term in terms1:
         for k, v in remapping.items():
-            simple = term.safe_simplify()
+            # the canonical form depends on the order of the labels
+            simple = relabel_term(term, remapping).safe_simplify()
             s = str(safe_nocoeff(simple))
-            s = multiple_replace(remapping, s)
             # remove generation indices in comparison
             s = re.sub(r"g[0-9]+_", "g_", s)
             # remove negative signs on indices
-- 
2.43.0


From e5cedfb11bd70393c1576c3ff74a7c1630c0baf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:56 +0000
Subject: [PATCH 47/54] fix: exporting a completion as JSON, whose lines carry
 labels of fields

---
 neutrinomass/database/json_serialiser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/database/json_serialiser.py b/neutrinomass/database/json_serialiser.py
index 454383a..c3d5047 100644
--- a/neutrinomass/database/json_serialiser.py
+++ b/neutrinomass/database/json_serialiser.py
@@ -89,8 +89,11 @@ def export_partition(expr):
 
 def export_graph(g: nx.Graph):
     data = nx.readwrite.json_graph.node_link_data(g)
-    for link in data["links"]:
-        link["particle"] = export_tensor(link["particle"])
+    # newer versions of networkx call the links edges
+    for link in data["links"] if "links" in data else data["edges"]:
+        # completions label lines with the labels of fields
+        if not isinstance(link["particle"], str):
+            link["particle"] = export_tensor(link["particle"])
 
     return data
 
-- 
2.43.0


From 5f3f58eed1018f10e3baa38752bf7f1cf9b58b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:12 +0000
Subject: [PATCH 48/54] fix: symbolic unitary matrices have a dagger too

---
 neutrinomass/analysis/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/analysis/utils.py b/neutrinomass/analysis/utils.py
index a6c7faa..ce940fb 100644
--- a/neutrinomass/analysis/utils.py
+++ b/neutrinomass/analysis/utils.py
@@ -101,7 +101,7 @@ class UnitaryMatrix(object):
         return self.val.T
 
     def get_dagger(self):
-        return self.val.getH()
+        return self.val.H
 
 
 # Measured squared neutrino mass differences
-- 
2.43.0


From b6b51a448bacfd53bc7ca571970764ed20fee142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 49/54] fix: filling free indices makes contracted ones of the
 same name way

---
 neutrinomass/tensormethod/core.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 8d57527..87ca7ba 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1147,6 +1147,17 @@ class Operator(tensor.TensMul):
                 store[Index.get_index_labels()[index_type]] += 1
                 replacements.append((i, new_index))
 
+        # contracted indices make way for the new ones
+        free = {i.label for i, _ in replacements}
+        taken = {new.name for _, new in replacements}
+        renamed = set()
+        for i in (i for t in self.tensors for i in t.indices):
+            if i.name in taken and i.label not in free and i.name not in renamed:
+                fresh = Index.fresh(Index.get_index_labels()[i.index_type])
+                replacements += [(i, fresh if i.is_up else -fresh)]
+                replacements += [(-i, -fresh if i.is_up else fresh)]
+                renamed.add(i.name)
+
         tensors = [t.fun_eval(*replacements) for t in self.tensors]
         prod = normalise_operator_input(*tensors)
         return Operator(*prod)
-- 
2.43.0


From 43804c242796013e57f11eb9c514f41d3d25d9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:30 +0000
Subject: [PATCH 50/54] fix: the bar of a conjugated Dirac fermion comes before
 the dagger

---
 neutrinomass/completions/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/completions/core.py b/neutrinomass/completions/core.py
index 5b1d000..a681ebe 100644
--- a/neutrinomass/completions/core.py
+++ b/neutrinomass/completions/core.py
@@ -339,7 +339,10 @@ class VectorLikeDiracFermion(FieldType):
 
         is_unbarred = self.is_unbarred
         symb = "~"  # indicate bar with circumflex
-        if is_unbarred:
+        if is_unbarred and self.is_conj:
+            # the dagger stays at the end
+            label = self.label[:-1] + symb + "†"
+        elif is_unbarred:
             label = self.label + symb
         else:
             label = self.label.replace(symb, "")
-- 
2.43.0


From cfdd79c43840def8e3414ed803806a78e2579907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 51/54] fix: stripping a derivative finds the index of the
 field's own chirality

---
 neutrinomass/tensormethod/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 87ca7ba..0c509ee 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -952,12 +952,13 @@ class IndexedField(tensor.Tensor, Field):
         field = self.strip_derivs()
         undotted, dotted, colour, isospin, _ = self.indices_by_type.values()
         indices = " ".join(str(i) for i in colour + isospin)
-        lorentz = undotted + dotted
+        # derivatives may leave indices of both types
+        same, other = (undotted, dotted) if field.is_left_fermion else (dotted, undotted)
         if field.is_fermion and self.derivs % 2 == 0:
-            lorentz = lorentz[0]
+            lorentz = same[0]
             indices = str(lorentz) + " " + indices
         elif field.is_fermion:
-            lorentz = lorentz[0].conj
+            lorentz = other[0].conj
             # add partial symbol to index name to show that it came from derivative
             lorentz = str(lorentz) + "∂"
             indices = str(lorentz) + " " + indices
-- 
2.43.0


From ec07ebe81b9ba98abd5011c0bae9dd7cc46bacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:05 +0000
Subject: [PATCH 52/54] fix: multiplying by an operator on the right keeps its
 fields

---
 neutrinomass/tensormethod/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index 0c509ee..d45a78f 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -1401,7 +1401,10 @@ def normalise_operator_input(*args):
     """
     new_product = []
     for fac in args:
-        if isinstance(fac, tensor.TensMul):
+        if isinstance(fac, Operator):
+            # sympy's arguments of an operator are no longer fields
+            new_product += fac.tensors
+        elif isinstance(fac, tensor.TensMul):
             new_product += list(fac.args)
         else:
             new_product.append(fac)
-- 
2.43.0


From a3a715413a5878747b03213b44eb85f237c93a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:51 +0000
Subject: [PATCH 53/54] fix: a term that is only a power of a derivative is
 read as a term

---
 neutrinomass/tensormethod/parse_hs.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/neutrinomass/tensormethod/parse_hs.py b/neutrinomass/tensormethod/parse_hs.py
index d6e8f9e..96f7e11 100644
--- a/neutrinomass/tensormethod/parse_hs.py
+++ b/neutrinomass/tensormethod/parse_hs.py
@@ -201,11 +201,12 @@ def parse_hs(expr, term=False):
     if is_number(expr):
         return proc_number(expr)
 
+    # a factor by itself is a term of its own
     if is_field(expr, term=term):
-        return proc_field(expr)
+        return proc_field(expr) if term else proc_term([proc_field(expr)])
 
     if is_deriv(expr):
-        return proc_deriv(expr)
+        return proc_deriv(expr) if term else proc_term([proc_deriv(expr)])
 
     # recursive calls
     # term is a product of fields (not power)
-- 
2.43.0


From 3e267e9086cf179ddff1ece616f10f0c05f9600e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:51 +0000
Subject: [PATCH 54/54] fix: an indexed field may carry a generation index
 alone

---
 neutrinomass/tensormethod/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutrinomass/tensormethod/core.py b/neutrinomass/tensormethod/core.py
index d45a78f..35ab450 100644
--- a/neutrinomass/tensormethod/core.py
+++ b/neutrinomass/tensormethod/core.py
@@ -650,7 +650,7 @@ class IndexedField(tensor.Tensor, Field):
             n_gauge_indices = (
                 len(indices) if GENERATION not in index_types else len(indices) - 1
             )
-            symmetry = [[1] * n_gauge_indices] if indices else []
+            symmetry = [[1] * n_gauge_indices] if n_gauge_indices else []
 
         if isinstance(label, tensor.TensorHead):
             tensor_head = label
-- 
2.43.0

