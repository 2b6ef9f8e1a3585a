From c32aaa69b8848d33c630d87efb7f6563b9f43fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 1/5] fix: substitute the whole expression when it is one of
 several args

SubsFunc returned the replacement of the last arg rather than that of the
expression itself, e.g. x.xreplace({x: 1, y: 2}) gave 2.
---
 src/protosym/core/tree.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index b89365a..cf5a62b 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -454,6 +454,7 @@ class SubsFunc:
     nargs: int
     atoms: list[Tree]
     operations: list[list[int]]
+    result: int
 
     def __new__(cls, expr: Tree, args: list[Tree]) -> SubsFunc:
         # A topological sort but exluding the args because they will be
@@ -506,6 +507,9 @@ class SubsFunc:
         obj.nargs = num_args
         obj.atoms = atoms
         obj.operations = operations
+        # If expr is itself one of the args then its value is the value of that
+        # arg rather than whatever happens to be at the top of the stack.
+        obj.result = indices[expr]
 
         return obj
 
@@ -522,7 +526,7 @@ class SubsFunc:
             children = [stack[i] for i in indices]
             stack.append(Tree(*children))
 
-        return stack[-1]
+        return stack[self.result]
 
 
 try:
-- 
2.43.0


From e39c06e5904d724dac9f082968f8ddd49df85885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:52 +0000
Subject: [PATCH 2/5] fix: convert SymPy Tuple() and f() that have no args

from_sympy rejected compound SymPy objects without args, so that
Matrix.from_sympy failed for every zero matrix.
---
 src/protosym/simplecas/sympy_conversions.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/protosym/simplecas/sympy_conversions.py b/src/protosym/simplecas/sympy_conversions.py
index e4a3289..601056c 100644
--- a/src/protosym/simplecas/sympy_conversions.py
+++ b/src/protosym/simplecas/sympy_conversions.py
@@ -90,14 +90,13 @@ def _from_sympy_cache(expr: sympy.Basic, cache: dict[sympy.Basic, Expr]) -> Expr
     ret = cache.get(expr)
     if ret is not None:
         return ret
-    elif expr.args:
-        ret = _from_sympy_cache_args(expr, sympy, cache)
     elif isinstance(expr, sympy.Integer):
         ret = Integer(expr.p)  # pyright: ignore
     elif isinstance(expr, sympy.Symbol):
         ret = Symbol(expr.name)  # pyright: ignore
     else:
-        raise NotImplementedError("Cannot convert " + type(expr).__name__)
+        # Note that Tuple() and f() are compound but have no args.
+        ret = _from_sympy_cache_args(expr, sympy, cache)
     cache[expr] = ret
     return ret
 
-- 
2.43.0


From 271e956fb90f4d4eccd1a51e56d756e469d48cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:43 +0000
Subject: [PATCH 3/5] fix: differentiation rule for an atomic pattern raises
 TypeError

---
 src/protosym/core/sym.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 6253994..5a2b2b5 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -651,10 +651,10 @@ class SymDifferentiator(Generic[T_sym]):
         dexpr_r = dexpr.rep
         sym_r = sym.rep
 
-        head = expr_r.children[0]
         args_lhs = expr_r.children[1:]
         if args_lhs.count(sym_r) != 1:
             raise TypeError("Multiple occurrences of wild symbol in pattern.")
+        head = expr_r.children[0]
         index = args_lhs.index(sym_r)
 
         rhsfunc = SubsFunc(dexpr_r, list(args_lhs))
-- 
2.43.0


From 404654b244ea39f638dc4d7b52cbcdc9414eaa43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:16 +0000
Subject: [PATCH 4/5] fix: make canonical construction safe when threads build
 the same object

WeakValueDictionary.setdefault is implemented in Python and is not atomic, so
two threads could both store an object for the same key.
---
 src/protosym/core/atom.py |  7 ++++++-
 src/protosym/core/sym.py  |  7 ++++++-
 src/protosym/core/tree.py | 10 ++++++++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/protosym/core/atom.py b/src/protosym/core/atom.py
index 1cc69de..2277e80 100644
--- a/src/protosym/core/atom.py
+++ b/src/protosym/core/atom.py
@@ -5,6 +5,7 @@ This module defines the :class:`AtomType` and :class:`Atom` types.
 
 from __future__ import annotations
 
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, cast
 from typing import Generic as _Generic
@@ -29,6 +30,9 @@ _T = _TypeVar("_T", bound=AnyValue, covariant=True)
 #
 _all_atoms: _WeakDict[Any, Any] = _WeakDict()
 
+# WeakValueDictionary.setdefault is not atomic so it needs a lock.
+_all_atoms_lock = _RLock()
+
 
 class AtomType(_Generic[_T]):
     """Identifier to distinguish different kinds of atoms.
@@ -169,7 +173,8 @@ class Atom(_Generic[_T]):
         # here then we will make sure to retrieve the object created there or
         # otherwise force the other thread to accept the value we have created
         # here.
-        obj = _all_atoms.setdefault(key, obj)
+        with _all_atoms_lock:
+            obj = _all_atoms.setdefault(key, obj)
 
         return obj
 
diff --git a/src/protosym/core/sym.py b/src/protosym/core/sym.py
index 5a2b2b5..566c9d3 100644
--- a/src/protosym/core/sym.py
+++ b/src/protosym/core/sym.py
@@ -10,6 +10,7 @@ by user-facing classes that derive from :class:`Sym`.
 
 from __future__ import annotations
 
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from typing import Any, Callable, Generic, Sequence, TypeVar, overload
 
@@ -133,6 +134,9 @@ class Sym:
 
     _all_expressions: _WeakDict[Any, Any] = _WeakDict()
 
+    # WeakValueDictionary.setdefault is not atomic so it needs a lock.
+    _all_expressions_lock = _RLock()
+
     rep: Tree
 
     def __new__(cls, tree_expr: Tree) -> Self:
@@ -153,7 +157,8 @@ class Sym:
         obj = super().__new__(cls)
         obj.rep = tree_expr
 
-        obj = cls._all_expressions.setdefault(key, obj)
+        with cls._all_expressions_lock:
+            obj = cls._all_expressions.setdefault(key, obj)
 
         return obj
 
diff --git a/src/protosym/core/tree.py b/src/protosym/core/tree.py
index cf5a62b..a04e072 100644
--- a/src/protosym/core/tree.py
+++ b/src/protosym/core/tree.py
@@ -6,6 +6,7 @@ This module defines classes for representing expressions in top-down tree form.
 from __future__ import annotations
 
 from dataclasses import dataclass
+from threading import RLock as _RLock
 from typing import TYPE_CHECKING as _TYPE_CHECKING
 from weakref import WeakValueDictionary as _WeakDict
 
@@ -27,6 +28,9 @@ __all__ = [
 
 _all_trees: _WeakDict[AnyAtom | tuple[Tree, ...], Tree] = _WeakDict()
 
+# WeakValueDictionary.setdefault is not atomic so it needs a lock.
+_all_trees_lock = _RLock()
+
 
 class Tree:
     """Base class for tree expressions.
@@ -127,7 +131,8 @@ class Tree:
         obj = object.__new__(cls)
         obj.children = children
 
-        obj = _all_trees.setdefault(children, obj)
+        with _all_trees_lock:
+            obj = _all_trees.setdefault(children, obj)
 
         return obj
 
@@ -145,7 +150,8 @@ class Tree:
         obj.value = value
         obj.children = ()
 
-        obj = _all_trees.setdefault(value, obj)
+        with _all_trees_lock:
+            obj = _all_trees.setdefault(value, obj)
 
         return obj
 
-- 
2.43.0


From fac9b60fefc616fea1fb7855b4740eb4d7737258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:17 +0000
Subject: [PATCH 5/5] fix: use an assigned value of None in forward evaluation

The recursive evaluation already did.
---
 src/protosym/core/evaluate.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/protosym/core/evaluate.py b/src/protosym/core/evaluate.py
index a961cdd..4c5e731 100644
--- a/src/protosym/core/evaluate.py
+++ b/src/protosym/core/evaluate.py
@@ -172,9 +172,8 @@ class Evaluator(Generic[_T]):
 
         # Convert all atoms to _T
         for atom in graph.atoms:
-            value_get = values.get(atom)
-            if value_get is not None:
-                value = value_get
+            if atom in values:
+                value = values[atom]
             else:
                 value = self.eval_atom(atom)
             stack.append(value)
-- 
2.43.0

