From 678484832b7aa796bacfc3608330289cf712c3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 01/30] fix: pickling a Grid raised NameError (super() named
 the Modes class)

---
 spherical_functions/SWSH_grids/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spherical_functions/SWSH_grids/__init__.py b/spherical_functions/SWSH_grids/__init__.py
index eae2382..3736470 100644
--- a/spherical_functions/SWSH_grids/__init__.py
+++ b/spherical_functions/SWSH_grids/__init__.py
@@ -101,14 +101,14 @@ class Grid(np.ndarray):
 
     # For pickling
     def __reduce__(self):
-        state = super(Modes, self).__reduce__()
+        state = super(Grid, self).__reduce__()
         new_attributes = state[2] + (self._metadata,)
         return (state[0], state[1], new_attributes)
 
     # For unpickling
     def __setstate__(self, state):
         self._metadata = copy.deepcopy(state[-1])
-        super(Modes, self).__setstate__(state[:-1])
+        super(Grid, self).__setstate__(state[:-1])
 
     @property
     def ndarray(self):
-- 
2.43.0


From a5f4a260e860f0b3c5a2d3926b68fc8d0dbbbae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 02/30] fix: Grid raised NameError instead of ValueError for
 too few grid points

---
 spherical_functions/SWSH_grids/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_grids/__init__.py b/spherical_functions/SWSH_grids/__init__.py
index 3736470..8c8f988 100644
--- a/spherical_functions/SWSH_grids/__init__.py
+++ b/spherical_functions/SWSH_grids/__init__.py
@@ -86,7 +86,7 @@ class Grid(np.ndarray):
         if spin_weight is None:
             raise ValueError("Spin weight must be specified")
         if n_theta < 2*abs(spin_weight)+1 or n_phi < 2*abs(spin_weight)+1:
-            raise ValueError(f"Input array must have at least {2*abs(s)+1} points in each direction to have any "
+            raise ValueError(f"Input array must have at least {2*abs(spin_weight)+1} points in each direction to have any "
                              f"nontrivial content for a field of spin weight {spin_weight}.")
         obj = input_array.view(cls)
         obj._metadata = metadata
-- 
2.43.0


From e888c043d20072535066cf14ad6e5dba7988c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:41 +0000
Subject: [PATCH 03/30] fix: Grid.subtract raised NameError instead of
 ValueError for different spin weights

---
 spherical_functions/SWSH_grids/algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_grids/algebra.py b/spherical_functions/SWSH_grids/algebra.py
index bb54bd1..32d1759 100644
--- a/spherical_functions/SWSH_grids/algebra.py
+++ b/spherical_functions/SWSH_grids/algebra.py
@@ -86,7 +86,7 @@ def add(self, other):
 def subtract(self, other):
     if isinstance(other, type(self)):
         if self.s != other.s:
-            raise ValueError(f"Cannot subtract functions with different spin weights ({s} and {other.s})")
+            raise ValueError(f"Cannot subtract functions with different spin weights ({self.s} and {other.s})")
         if self.n_theta != other.n_theta or self.n_phi != other.n_phi:
             raise ValueError(f"Shape mismatch: self.shape={self.shape}; other.shape={other.shape}")
         result = self.view(np.ndarray) - other.view(np.ndarray)
-- 
2.43.0


From e71cc2d4b89922e2ab1b9c89bcc798378f49b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 04/30] fix: Grid.modes raised NameError for every grid

---
 spherical_functions/SWSH_grids/utilities.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spherical_functions/SWSH_grids/utilities.py b/spherical_functions/SWSH_grids/utilities.py
index ecc4124..8d6bdd8 100644
--- a/spherical_functions/SWSH_grids/utilities.py
+++ b/spherical_functions/SWSH_grids/utilities.py
@@ -27,10 +27,12 @@ def modes(self, ell_max=None, **kwargs):
     import numpy as np
     import spinsfast
     from .. import Modes
-    ell_max = ell_max or (max(n_phi, n_theta) - 1) // 2
-    metadata = copy.copy
-    return Modes(spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max),
-                 spin_weight=self.s, ell_min=0, ell_max=ell_max, **metadata)
+    if ell_max is None:
+        ell_max = (max(self.n_phi, self.n_theta) - 1) // 2
+    metadata = copy.copy(self._metadata)
+    metadata.update(**kwargs)
+    metadata.update(spin_weight=self.s, ell_min=0, ell_max=ell_max)
+    return Modes(spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max), **metadata)
 
 
 def _check_broadcasting(self, array, reverse=False):
-- 
2.43.0


From 6fc7852bd833fd6bd77f2dff2390154ad738309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 05/30] fix: Grid.add/subtract/multiply/divide applied arrays
 of scalars along the grid axes

---
 spherical_functions/SWSH_grids/algebra.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/spherical_functions/SWSH_grids/algebra.py b/spherical_functions/SWSH_grids/algebra.py
index 32d1759..9f53072 100644
--- a/spherical_functions/SWSH_grids/algebra.py
+++ b/spherical_functions/SWSH_grids/algebra.py
@@ -79,8 +79,7 @@ def add(self, other):
     elif self.s != 0 and np.any(other):
         raise ValueError(f"It is not permitted to add non-zero scalars to a {type(self).__name__} object of non-zero spin weight")
     else:
-        result = self.view(np.ndarray) + other
-        return type(self)(result, **self._metadata)
+        return np.add(self, other)
 
 
 def subtract(self, other):
@@ -94,8 +93,7 @@ def subtract(self, other):
     elif self.s != 0 and np.any(other):
         raise ValueError(f"It is not permitted to subtract non-zero scalars from a {type(self).__name__} object of non-zero spin weight")
     else:
-        result = self.view(np.ndarray) - other
-        return type(self)(result, **self._metadata)
+        return np.subtract(self, other)
 
 
 def multiply(self, other, truncator=None):
@@ -121,9 +119,9 @@ def multiply(self, other, truncator=None):
         return type(self)(result, **metadata)
     else:
         if self._check_broadcasting(other):
-            return type(self)(self.view(np.ndarray) * other, **self._metadata)
+            return self * other
         elif self._check_broadcasting(other, reverse=True):
-            return type(self)(other * self.view(np.ndarray), **self._metadata)
+            return other * self
         else:
             raise ValueError(f"Cannot broadcast input array to this {type(self).__name__} object.  Note that the input array\n           "
                              "must broadcast to all but last two dimensions of this object; it is not allowed to\n           "
@@ -154,7 +152,7 @@ def divide(self, other):
         return type(self)(result, **metadata)
     else:
         if self._check_broadcasting(other):
-            return type(self)(self.view(np.ndarray) / other, **self._metadata)
+            return self / other
         else:
             raise ValueError(f"Cannot broadcast input array to this {type(self).__name__} object.  Note that the input array\n           "
                              "must broadcast to all but last two dimensions of this object; it is not allowed to\n           "
-- 
2.43.0


From 1c7cce6d3e2228a4e55b6fa255affa01e789416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 06/30] fix: Grid ** non-integer silently truncated the
 exponent

---
 spherical_functions/SWSH_grids/ufuncs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 66bd850..b134a24 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -135,6 +135,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 exponent = int(args[1])
             except:
                 return NotImplemented
+            if exponent != args[1]:
+                return NotImplemented  # only integer powers have an integer spin weight
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = exponent * args[0].s
             out_view = out if out is None else out[0].view(np.ndarray)
-- 
2.43.0


From 70776f6fafc5c06c4951d93ce29d99183c04d4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 07/30] fix: ufunc methods other than __call__ (outer, at, ...)
 on Modes and Grid were evaluated as plain calls

---
 spherical_functions/SWSH_grids/ufuncs.py | 4 ++++
 spherical_functions/SWSH_modes/ufuncs.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index b134a24..91a1b23 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -29,6 +29,10 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     if kwargs:
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
 
+    # Nor any of the other ufunc methods (reduce, accumulate, outer, at, ...)
+    if method != '__call__':
+        return NotImplemented
+
     if ufunc in [np.positive, np.negative]:
         out_view = out if out is None else out[0].view(np.ndarray)
         result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index af6ff46..38bd415 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -29,6 +29,10 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     if kwargs:
         raise NotImplementedError(f"Unrecognized arguments to {type(self).__name__}.__array_ufunc__: {kwargs}")
 
+    # Nor any of the other ufunc methods (reduce, accumulate, outer, at, ...)
+    if method != '__call__':
+        return NotImplemented
+
     if ufunc in [np.positive, np.negative]:
         out_view = out if out is None else out[0].view(np.ndarray)
         result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
-- 
2.43.0


From 94ccc0478b711ff45594ab49bc97d83633a32b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:12 +0000
Subject: [PATCH 08/30] fix: np.negative/np.positive of a plain array with
 out=Modes (or Grid) acted on the old content of out

---
 spherical_functions/SWSH_grids/ufuncs.py | 7 +++++--
 spherical_functions/SWSH_modes/ufuncs.py | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 91a1b23..6c1ce1c 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -34,10 +34,13 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         return NotImplemented
 
     if ufunc in [np.positive, np.negative]:
+        if not isinstance(args[0], type(self)):
+            return NotImplemented
+        metadata = copy.copy(args[0]._metadata)
         out_view = out if out is None else out[0].view(np.ndarray)
-        result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
+        result = type(self)(ufunc(args[0].view(np.ndarray), out=out_view), **metadata)
         if out is not None and isinstance(out[0], type(self)):
-            out[0]._metadata = copy.copy(self._metadata)
+            out[0]._metadata = metadata
 
     elif ufunc in [np.add, np.subtract]:
         if isinstance(args[0], type(self)) and isinstance(args[1], type(self)):
diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index 38bd415..411fe40 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -34,10 +34,13 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         return NotImplemented
 
     if ufunc in [np.positive, np.negative]:
+        if not isinstance(args[0], type(self)):
+            return NotImplemented
+        metadata = copy.copy(args[0]._metadata)
         out_view = out if out is None else out[0].view(np.ndarray)
-        result = type(self)(ufunc(self.view(np.ndarray), out=out_view), **self._metadata)
+        result = type(self)(ufunc(args[0].view(np.ndarray), out=out_view), **metadata)
         if out is not None and isinstance(out[0], type(self)):
-            out[0]._metadata = copy.copy(self._metadata)
+            out[0]._metadata = metadata
 
     elif ufunc in [np.add, np.subtract]:
         if isinstance(args[0], type(self)) and isinstance(args[1], type(self)):
-- 
2.43.0


From 8e7d7181443e3ef2ccd9655981576ec8ac89ac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 09/30] fix: Modes + and - with different spin weights raised
 TypeError rather than the documented ValueError

---
 spherical_functions/SWSH_modes/ufuncs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index 411fe40..f4fdb37 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -46,7 +46,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         if isinstance(args[0], type(self)) and isinstance(args[1], type(self)):
             m1, m2 = args[:2]
             if m1.s != m2.s:
-                return NotImplemented
+                raise ValueError(f"Cannot {ufunc.__name__} modes with different spin weights ({m1.s} and {m2.s})")
             s = m1.s
             ell_min = min(m1.ell_min, m2.ell_min)
             ell_max = max(m1.ell_max, m2.ell_max)
-- 
2.43.0


From 59f9d603c315b0edc8e15ed554a3769eba4a7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 10/30] fix: np.add/np.subtract of Modes with out= kept stale
 data, and was wrong when out was the second operand

---
 spherical_functions/SWSH_modes/ufuncs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index f4fdb37..1a524eb 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -51,11 +51,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             ell_min = min(m1.ell_min, m2.ell_min)
             ell_max = max(m1.ell_max, m2.ell_max)
             shape = np.broadcast(m1[..., 0], m2[..., 0]).shape + (LM_total_size(ell_min, ell_max),)
-            result = out or np.zeros(shape, dtype=complex)
-            if isinstance(result, tuple):
-                result = result[0]
-            if isinstance(result, type(self)):
-                result = result.view(np.ndarray)
+            result = np.zeros(shape, dtype=complex)
             i_s1 = LM_total_size(ell_min, m1.ell_min-1)
             i_s2 = i_s1+LM_total_size(m1.ell_min, m1.ell_max)
             i_o1 = LM_total_size(ell_min, m2.ell_min-1)
@@ -65,6 +61,9 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 result[..., i_o1:i_o2] -= m2.view(np.ndarray)
             else:
                 result[..., i_o1:i_o2] += m2.view(np.ndarray)
+            if out is not None:
+                np.copyto(out[0].view(np.ndarray), result)
+                result = out[0].view(np.ndarray)
             metadata = copy.copy(self._metadata)
             metadata['spin_weight'] = s
             metadata['ell_min'] = ell_min
-- 
2.43.0


From dc8bbf455502ac3d4c599b71ca0d5394587bc514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 11/30] fix: np.multiply of Modes with out= (and m1 *= m2)
 accumulated onto the old content of out

---
 spherical_functions/SWSH_modes/ufuncs.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index 1a524eb..dea5700 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -105,14 +105,13 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                 ]
             )
             result_shape = np.broadcast(s[..., 0], o[..., 0]).shape + (LM_total_size(result_ell_min, result_ell_max),)
-            result = out or np.zeros(result_shape, dtype=complex)
-            if isinstance(result, tuple):
-                result = result[0]
-            if isinstance(result, type(self)):
-                result = result.view(np.ndarray)
+            result = np.zeros(result_shape, dtype=complex)
             _multiplication_helper(s, args[0].ell_min, args[0].ell_max, args[0].s,
                                    o, args[1].ell_min, args[1].ell_max, args[1].s,
                                    result, result_ell_min, result_ell_max, result_s)
+            if out is not None:
+                np.copyto(out[0].view(np.ndarray), result)
+                result = out[0].view(np.ndarray)
             metadata = copy.copy(self._metadata)
             metadata['spin_weight'] = result_s
             metadata['ell_min'] = result_ell_min
-- 
2.43.0


From f0b41e67bcf4e58e589ca27a58f254c7863c8d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:51 +0000
Subject: [PATCH 12/30] fix: in-place scalar operations on Modes (m *= 2, m /=
 2, m += 0) and out=Modes raised TypeError

---
 spherical_functions/SWSH_modes/ufuncs.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index dea5700..cbee620 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -77,7 +77,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             scalars = np.asanyarray(args[1])
             if np.any(scalars) or not modes._check_broadcasting(scalars):
                 return NotImplemented
-            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         elif isinstance(args[1], type(self)):
@@ -85,7 +86,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             modes = args[1]
             if np.any(scalars) or not modes._check_broadcasting(scalars, reverse=True):
                 return NotImplemented
-            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         else:
@@ -125,7 +127,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             scalars = np.asanyarray(args[1])
             if not modes._check_broadcasting(scalars):
                 return NotImplemented
-            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         elif isinstance(args[1], type(self)):
@@ -133,7 +136,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             modes = args[1]
             if not modes._check_broadcasting(scalars, reverse=True):
                 return NotImplemented
-            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out), **self._metadata)
+            out_view = out if out is None else out[0].view(np.ndarray)
+            result = type(self)(ufunc(scalars[..., np.newaxis], modes.view(np.ndarray), out=out_view), **self._metadata)
             if out is not None and isinstance(out[0], type(self)):
                 out[0]._metadata = copy.copy(self._metadata)
         else:
@@ -146,7 +150,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
         scalars = np.asanyarray(args[1])
         if not modes._check_broadcasting(scalars):
             return NotImplemented
-        result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out), **self._metadata)
+        out_view = out if out is None else out[0].view(np.ndarray)
+        result = type(self)(ufunc(modes.view(np.ndarray), scalars[..., np.newaxis], out=out_view), **self._metadata)
         if out is not None and isinstance(out[0], type(self)):
             out[0]._metadata = copy.copy(self._metadata)
 
-- 
2.43.0


From ae504619568e3d2ab05e6b3d9711901a3ae8f842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:39 +0000
Subject: [PATCH 13/30] fix: HCalculator(0) wrote outside of its arrays

The recursion steps index the n=1 row, which does not exist for n_max=0.
---
 spherical_functions/WignerD/WignerDRecursion.py | 11 ++++++-----
 spherical_functions/recursions/wignerH.py       |  9 +++++----
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/spherical_functions/WignerD/WignerDRecursion.py b/spherical_functions/WignerD/WignerDRecursion.py
index a417b45..03a5b1f 100644
--- a/spherical_functions/WignerD/WignerDRecursion.py
+++ b/spherical_functions/WignerD/WignerDRecursion.py
@@ -447,10 +447,11 @@ class HCalculator(object):
         Hextra = Hextra.reshape((-1, cosβ.size))
         Hv = Hv.reshape((-1, cosβ.size))
         _step_1(Hnmpm)
-        _step_2(self.g, self.h, self.n_max, Hnmpm, Hextra, Hv, cosβ, sinβ)
-        _step_3(self.a, self.b, self.n_max, Hnmpm, Hextra, cosβ, sinβ)
-        _step_4(self.d, self.n_max, Hnmpm, Hv)
-        _step_5(self.d, self.n_max, Hnmpm, Hv)
-        _step_6(self.n_max, Hnmpm)
+        if self.n_max > 0:
+            _step_2(self.g, self.h, self.n_max, Hnmpm, Hextra, Hv, cosβ, sinβ)
+            _step_3(self.a, self.b, self.n_max, Hnmpm, Hextra, cosβ, sinβ)
+            _step_4(self.d, self.n_max, Hnmpm, Hv)
+            _step_5(self.d, self.n_max, Hnmpm, Hv)
+            _step_6(self.n_max, Hnmpm)
         Hnmpm.reshape((-1,)+cosβshape)
         return Hnmpm[:self.nmpm_total_size]  # Remove n_max+1 scratch space
diff --git a/spherical_functions/recursions/wignerH.py b/spherical_functions/recursions/wignerH.py
index cbac624..6d4e638 100644
--- a/spherical_functions/recursions/wignerH.py
+++ b/spherical_functions/recursions/wignerH.py
@@ -483,9 +483,10 @@ class HCalculator(object):
         Hv = workspace[self.wedge_size:self.wedge_size+(self.n_max+1)**2]
         Hextra = workspace[self.wedge_size+(self.n_max+1)**2:self.wedge_size+(self.n_max+1)**2+self.n_max+2]
         _step_1(Hwedge)
-        _step_2(self.g, self.h, self.n_max, Hwedge, Hextra, Hv, cosβ, sinβ)
-        _step_3(self.a, self.b, self.n_max, Hwedge, Hextra, cosβ, sinβ)
-        _step_4(self.d, self.n_max, Hwedge, Hv)
-        _step_5(self.d, self.n_max, Hwedge, Hv)
+        if self.n_max > 0:
+            _step_2(self.g, self.h, self.n_max, Hwedge, Hextra, Hv, cosβ, sinβ)
+            _step_3(self.a, self.b, self.n_max, Hwedge, Hextra, cosβ, sinβ)
+            _step_4(self.d, self.n_max, Hwedge, Hv)
+            _step_5(self.d, self.n_max, Hwedge, Hv)
         Hwedge.reshape((-1,)+cosβshape)
         return Hwedge
-- 
2.43.0


From 43e3065c19ebce9f832e210eb7d38bd00212b7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:39 +0000
Subject: [PATCH 14/30] =?UTF-8?q?fix:=20HCalculator=20lost=20the=20shape?=
 =?UTF-8?q?=20of=20cos=CE=B2,=20and=20failed=20for=20scalar=20or=20N-d=20i?=
 =?UTF-8?q?nput=20with=20a=20workspace?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The result of the final reshape was discarded, scalar sinβ and a workspace for
a scalar or N-d cosβ raised, and Fortran-ordered input was read in memory order.
---
 spherical_functions/WignerD/WignerDRecursion.py | 10 ++++++----
 spherical_functions/recursions/wignerH.py       |  9 +++++----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/spherical_functions/WignerD/WignerDRecursion.py b/spherical_functions/WignerD/WignerDRecursion.py
index 03a5b1f..77bace4 100644
--- a/spherical_functions/WignerD/WignerDRecursion.py
+++ b/spherical_functions/WignerD/WignerDRecursion.py
@@ -424,6 +424,7 @@ class HCalculator(object):
 
     def workspace(self, cosβ):
         """Return a new workspace sized for cosβ."""
+        cosβ = np.asarray(cosβ, dtype=float)
         return np.zeros((self.nmpm_total_size,) + cosβ.shape, dtype=float)
 
     def __call__(self, cosβ, sinβ=None, workspace=None):
@@ -434,15 +435,16 @@ class HCalculator(object):
         Hnmpm = workspace if workspace is not None else self.workspace(cosβ)
         Hextra = np.zeros((self.n_max+2,) + cosβ.shape, dtype=float)
         Hv = np.zeros(((self.n_max+1)**2,) + cosβ.shape, dtype=float)
-        cosβ = cosβ.ravel(order='K')
+        cosβ = cosβ.ravel()
         if sinβ is None:
             sinβ = np.sqrt(1 - cosβ**2)
         else:
+            sinβ = np.asarray(sinβ, dtype=float)
             if sinβ.shape != cosβshape:
                 raise ValueError(
                     f"Input cosβ and sinβ must be the same shape; their shapes are {cosβshape} and {sinβ.shape}."
                 )
-            sinβ = sinβ.ravel(order='K')
+            sinβ = sinβ.ravel()
         Hnmpm = Hnmpm.reshape((-1, cosβ.size))
         Hextra = Hextra.reshape((-1, cosβ.size))
         Hv = Hv.reshape((-1, cosβ.size))
@@ -453,5 +455,5 @@ class HCalculator(object):
             _step_4(self.d, self.n_max, Hnmpm, Hv)
             _step_5(self.d, self.n_max, Hnmpm, Hv)
             _step_6(self.n_max, Hnmpm)
-        Hnmpm.reshape((-1,)+cosβshape)
-        return Hnmpm[:self.nmpm_total_size]  # Remove n_max+1 scratch space
+        Hnmpm = Hnmpm[:self.nmpm_total_size]  # Remove n_max+1 scratch space
+        return Hnmpm.reshape((self.nmpm_total_size,)+cosβshape)
diff --git a/spherical_functions/recursions/wignerH.py b/spherical_functions/recursions/wignerH.py
index 6d4e638..1eb8881 100644
--- a/spherical_functions/recursions/wignerH.py
+++ b/spherical_functions/recursions/wignerH.py
@@ -469,16 +469,18 @@ class HCalculator(object):
         if np.max(cosβ) > 1.0 or np.min(cosβ) < -1.0:
             raise ValueError('Nonsensical value for range of cosβ: [{0}, {1}]'.format(np.min(cosβ), np.max(cosβ)))
         cosβshape = cosβ.shape
-        cosβ = cosβ.ravel(order='K')
+        cosβ = cosβ.ravel()
         if sinβ is None:
             sinβ = np.sqrt(1 - cosβ**2)
         else:
+            sinβ = np.asarray(sinβ, dtype=float)
             if sinβ.shape != cosβshape:
                 raise ValueError(
                     f"Input cosβ and sinβ must be the same shape; their shapes are {cosβshape} and {sinβ.shape}."
                 )
-            sinβ = sinβ.ravel(order='K')
+            sinβ = sinβ.ravel()
         workspace = workspace if workspace is not None else self.workspace(cosβ)
+        workspace = workspace.reshape((-1, cosβ.size))
         Hwedge = workspace[:self.wedge_size]
         Hv = workspace[self.wedge_size:self.wedge_size+(self.n_max+1)**2]
         Hextra = workspace[self.wedge_size+(self.n_max+1)**2:self.wedge_size+(self.n_max+1)**2+self.n_max+2]
@@ -488,5 +490,4 @@ class HCalculator(object):
             _step_3(self.a, self.b, self.n_max, Hwedge, Hextra, cosβ, sinβ)
             _step_4(self.d, self.n_max, Hwedge, Hv)
             _step_5(self.d, self.n_max, Hwedge, Hv)
-        Hwedge.reshape((-1,)+cosβshape)
-        return Hwedge
+        return Hwedge.reshape((self.wedge_size,)+cosβshape)
-- 
2.43.0


From 86e09a661452ab7d907083211591348805c0ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:52 +0000
Subject: [PATCH 15/30] fix: complex_powers(z, 0) wrote past the end of its
 output array

---
 spherical_functions/recursions/complex_powers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spherical_functions/recursions/complex_powers.py b/spherical_functions/recursions/complex_powers.py
index 1ceb1e2..ad0d6e2 100644
--- a/spherical_functions/recursions/complex_powers.py
+++ b/spherical_functions/recursions/complex_powers.py
@@ -53,6 +53,8 @@ def _complex_powers(zravel, M, zpowers):
             θ *= 1j
             z /= 1j
         zpowers[i, 0] = 1.0 + 0.0j
+        if M < 1:
+            continue
         zpowers[i, 1] = z
         clock = θ
         dc = -2 * np.sqrt(z).imag ** 2
-- 
2.43.0


From d0d7588241915407b18c2a35b61ec9fbbdaf35f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:09 +0000
Subject: [PATCH 16/30] fix: complex_powers raised for a preallocated array of
 the documented shape unless z was 1-d

---
 spherical_functions/recursions/complex_powers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spherical_functions/recursions/complex_powers.py b/spherical_functions/recursions/complex_powers.py
index ad0d6e2..b5079ff 100644
--- a/spherical_functions/recursions/complex_powers.py
+++ b/spherical_functions/recursions/complex_powers.py
@@ -38,8 +38,11 @@ def complex_powers(z, M, zpowers=None):
     """
     z = np.asarray(z, dtype=complex)
     zravel = z.ravel()
-    zpowers = zpowers if zpowers is not None else np.empty((z.size, M+1), dtype=complex)
-    _complex_powers(zravel, M, zpowers)
+    zpowers = zpowers if zpowers is not None else np.empty(z.shape+(M+1,), dtype=complex)
+    powers = zpowers.reshape((z.size, M+1))
+    _complex_powers(zravel, M, powers)
+    if not np.shares_memory(powers, zpowers):
+        zpowers[...] = powers.reshape(zpowers.shape)  # The reshape above had to make a copy
     return zpowers.reshape(z.shape+(M+1,))
 
 
-- 
2.43.0


From 17eccaa816044498edbc2de7d266601a3a58687d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 17/30] fix: Wigner 3-j symbols were wrong for j of about 100
 and more (32-bit overflow in the recurrence)

---
 spherical_functions/recursions/wigner3j.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spherical_functions/recursions/wigner3j.py b/spherical_functions/recursions/wigner3j.py
index 6c215a9..d9c9975 100644
--- a/spherical_functions/recursions/wigner3j.py
+++ b/spherical_functions/recursions/wigner3j.py
@@ -6,12 +6,12 @@ from .. import jit, jitclass
 
 @jit("float64(int32, int32, int32, int32)")
 def A(j, j2, j3, m1):
-    return math.sqrt((j**2 - (j2 - j3)**2) * ((j2 + j3 + 1)**2 - j**2) * (j**2 - m1**2))
+    return math.sqrt(1.0 * (j**2 - (j2 - j3)**2) * ((j2 + j3 + 1)**2 - j**2) * (j**2 - m1**2))
 
 
-@jit("int32(int32, int32, int32, int32, int32)")
+@jit("float64(int32, int32, int32, int32, int32)")
 def B(j, j2, j3, m2, m3):
-    return (2 * j + 1) * ((m2 + m3) * (j2 * (j2 + 1) - j3 * (j3 + 1)) - (m2 - m3) * j * (j + 1))
+    return (2.0 * j + 1.0) * ((m2 + m3) * (j2 * (j2 + 1) - j3 * (j3 + 1)) - (m2 - m3) * j * (j + 1))
 
 
 @jit("float64(int32, int32, int32, int32)")
-- 
2.43.0


From 0a95b9c43daf16fac957c0f54394031a9e45efcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 18/30] fix: Wigner_D_element(Ra, Rb, ell, mp, m) was taken for
 Euler angles and raised

So was (Ra, Rb, ell).  The number of arguments tells the two apart.
---
 spherical_functions/WignerD/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 0c70e6d..6b54c70 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -85,14 +85,13 @@ def Wigner_D_element(*args):
         Ra = args[0].a
         Rb = args[0].b
         mode_offset = 1
-    elif isinstance(args[0], numbers.Number) and isinstance(args[1], numbers.Number)\
-            and isinstance(args[2], numbers.Number):
+    elif len(args) in (4, 6) and all(isinstance(arg, numbers.Number) for arg in args[:3]):
         # UUUUGGGGLLLLYYYY.  The rotation is input as Euler angles
         R = quaternion.from_euler_angles(args[0], args[1], args[2])
         Ra = R.a
         Rb = R.b
         mode_offset = 3
-    elif isinstance(args[0], numbers.Complex) and isinstance(args[1], numbers.Complex):
+    elif len(args) in (3, 5) and all(isinstance(arg, numbers.Complex) for arg in args[:2]):
         # The rotation is input as the two parts of a single quaternion
         Ra = args[0]
         Rb = args[1]
-- 
2.43.0


From e8e89df65294e387b6668f7d19f16cfeda365da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 19/30] fix: Wigner_D_element(R, ell) with a single ell raised
 IndexError

---
 spherical_functions/WignerD/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 6b54c70..c13f12e 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -114,7 +114,7 @@ def Wigner_D_element(*args):
         indices = np.round(2*np.asarray(args[mode_offset])).astype(int)
         if (indices.ndim == 0 and indices.size == 1):
             # This was just a single ell value
-            twoell = indices[0]  # already multiplied by 2
+            twoell = int(indices)  # already multiplied by 2
             indices = np.array([[twoell, twomp, twom]
                                 for twomp in range(-twoell, twoell + 1, 2)
                                 for twom in range(-twoell, twoell + 1, 2)])
-- 
2.43.0


From 78b3df8886b30d964dff78c2242ad98c5ea2caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 20/30] fix: Wigner_D_element ignored
 sf.error_on_bad_indices=False and let some invalid indices through

The flag was copied at import, so setting it had no effect; indices of mixed
integer and half-integer type, and lists of ell values beyond sf.ell_max, were
never checked and read the wrong (or no) element of the coefficient table.
---
 spherical_functions/WignerD/__init__.py | 48 ++++++++++++++++---------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index c13f12e..79db6e7 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -17,7 +17,7 @@ import numba as nb
 import quaternion
 from .. import (jit, _Wigner_coefficient as _coeff,
                 Wigner_coefficient as coeff,
-                epsilon, error_on_bad_indices, LMpM_total_size,
+                epsilon, LMpM_total_size,
                 ell_max as sf_ell_max)
 
 
@@ -25,9 +25,27 @@ from .. import (jit, _Wigner_coefficient as _coeff,
 def _check_valid_indices(twoell, twomp, twom):
     if (twoell > 2*sf_ell_max or abs(twomp) > twoell or abs(twom) > twoell):
         return False
+    if ((twoell - twomp) % 2 != 0 or (twoell - twom) % 2 != 0):
+        return False
     return True
 
 
+def _valid_indices(indices):
+    """Return boolean array showing which of the [2*ell, 2*mp, 2*m] indices are valid
+
+    A ValueError is raised if any is invalid, unless `sf.error_on_bad_indices` has been set to False.
+
+    """
+    from .. import error_on_bad_indices  # Imported here because the user may change the value
+    valid = np.array([_check_valid_indices(*index) for index in indices], dtype=bool)
+    if error_on_bad_indices and not np.all(valid):
+        twoell, twomp, twom = indices[np.argmin(valid)]
+        raise ValueError(
+            "(ell,mp,m)=({0},{1},{2}) is not a valid set".format(twoell/2, twomp/2, twom/2)
+            + " of indices for Wigner's D matrix")
+    return valid
+
+
 def Wigner_D_element(*args):
     """Return elements of the Wigner D matrices
 
@@ -105,42 +123,40 @@ def Wigner_D_element(*args):
         # Assume these are the (ell, mp, m) indices
         ell, mp, m = args[mode_offset:]
         indices = np.array([[round(2*ell), round(2*mp), round(2*m)], ], dtype=int)
-        if (error_on_bad_indices and not _check_valid_indices(*(indices[0]))):
-            raise ValueError(
-                "(ell,mp,m)=({0},{1},{2})".format(ell, mp, m)
-                + " is not a valid set of indices for Wigner's D matrix")
         return_scalar = True
     elif (len(args) - mode_offset == 1):
         indices = np.round(2*np.asarray(args[mode_offset])).astype(int)
         if (indices.ndim == 0 and indices.size == 1):
             # This was just a single ell value
             twoell = int(indices)  # already multiplied by 2
+            if twoell < 0:
+                _valid_indices([[twoell, twoell, twoell]])
             indices = np.array([[twoell, twomp, twom]
                                 for twomp in range(-twoell, twoell + 1, 2)
-                                for twom in range(-twoell, twoell + 1, 2)])
+                                for twom in range(-twoell, twoell + 1, 2)], dtype=int).reshape((-1, 3))
             if (twoell == 0):
                 return_scalar = True
         elif (indices.ndim == 1 and indices.size > 0):
             # This a list of ell values
+            if np.any(indices < 0):
+                _valid_indices([[twoell, twoell, twoell] for twoell in indices])
             indices = np.array(
                 [[twoell, twomp, twom] for twoell in indices
                  for twomp in range(-twoell, twoell + 1, 2)
-                 for twom in range(-twoell, twoell + 1, 2)])
-        elif (indices.ndim == 2):
+                 for twom in range(-twoell, twoell + 1, 2)], dtype=int).reshape((-1, 3))
+        elif (indices.ndim == 2 and indices.shape[1] == 3):
             # This is an array of [ell,mp,m] values
-            if (error_on_bad_indices):
-                for twoell, twomp, twom in indices:
-                    if not _check_valid_indices(twoell, twomp, twom):
-                        raise ValueError(
-                            "(ell,mp,m)=({0},{1},{2}) is not a valid set".format(twoell/2, twomp/2, twom/2)
-                            + " of indices for Wigner's D matrix")
+            pass
         else:
             raise ValueError("Can't understand input indices")
     else:
         raise ValueError("Can't understand input indices")
 
-    elements = np.empty((len(indices),), dtype=complex)
-    _Wigner_D_element(Ra, Rb, indices, elements)
+    valid = _valid_indices(indices)
+    elements = np.zeros((len(indices),), dtype=complex)
+    valid_elements = np.empty((np.count_nonzero(valid),), dtype=complex)
+    _Wigner_D_element(Ra, Rb, indices[valid], valid_elements)
+    elements[valid] = valid_elements
 
     if (return_scalar):
         return elements[0]
-- 
2.43.0


From 972acb84c8f6336cdc607a11f6accccfa311231a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 21/30] fix: Wigner_D_element with an array of rotors truncated
 half-integer indices and skipped the index checks

It also failed for arrays that are not one-dimensional.
---
 spherical_functions/WignerD/__init__.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 79db6e7..cabfb7d 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -95,9 +95,19 @@ def Wigner_D_element(*args):
     """
     # Find the rotation from the args
     if isinstance(args[0], np.ndarray):
-        elements = np.empty_like(args[0], dtype=complex)
-        _Wigner_D_elements(quaternion.as_float_array(args[0]), args[1], args[2], args[3], elements)
-        return elements
+        if len(args) != 4:
+            raise ValueError("Can't understand input indices")
+        ell, mp, m = args[1:]
+        indices = np.array([[round(2*ell), round(2*mp), round(2*m)], ], dtype=int)
+        elements = np.zeros(args[0].size, dtype=complex)
+        if np.all(_valid_indices(indices)):
+            if indices[0, 0] % 2 == 0:
+                Rs = quaternion.as_float_array(args[0]).reshape((-1, 4))
+                _Wigner_D_elements(Rs, indices[0, 0]//2, indices[0, 1]//2, indices[0, 2]//2, elements)
+            else:
+                for i, R in enumerate(args[0].ravel()):
+                    _Wigner_D_element(R.a, R.b, indices, elements[i:i+1])
+        return elements.reshape(args[0].shape)
     elif isinstance(args[0], np.quaternion):
         # The rotation is input as a single quaternion
         Ra = args[0].a
-- 
2.43.0


From 2635b7836cd2c24a916a228c326fe562daed9ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:53 +0000
Subject: [PATCH 22/30] fix: Wigner_D_matrices, SWSH, and SWSH_grid read past
 the coefficient table for ell > sf.ell_max

The results were arbitrary numbers; ValueError is raised instead, as in Wigner_D_element.
---
 spherical_functions/SWSH/__init__.py    | 9 ++++++++-
 spherical_functions/WignerD/__init__.py | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH/__init__.py b/spherical_functions/SWSH/__init__.py
index 0761c89..8f746a8 100644
--- a/spherical_functions/SWSH/__init__.py
+++ b/spherical_functions/SWSH/__init__.py
@@ -5,7 +5,12 @@ import math
 import cmath
 import numpy as np
 import quaternion
-from .. import (Wigner_coefficient as coeff, epsilon, LM_range, jit)
+from .. import (Wigner_coefficient as coeff, epsilon, LM_range, jit, ell_max as sf_ell_max)
+
+
+def _check_ell_max(ell_max):
+    if ell_max > sf_ell_max:
+        raise ValueError(f"SWSHs are only implemented up to ell={sf_ell_max}; input ell={ell_max} is too large")
 
 
 def SWSH(R, s, indices):
@@ -35,6 +40,7 @@ def SWSH(R, s, indices):
 
     """
     indices = np.asarray(indices)
+    _check_ell_max(np.max(indices[..., 0], initial=0))
     if indices.size > 2 or not isinstance(R, np.ndarray):
         values = np.empty((indices.shape[0],), dtype=complex)
         _SWSH(R.a, R.b, s, indices, values)
@@ -77,6 +83,7 @@ def SWSH_grid(R_grid, s, ell_max):
         starting from ell=0 for compatibility with spinsfast.
 
     """
+    _check_ell_max(ell_max)
     indices = LM_range(0, ell_max)
     values = np.zeros(R_grid.shape + (indices.shape[0],), dtype=complex)
     it = np.nditer(R_grid, flags=['multi_index'])
diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index cabfb7d..3776ee0 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -408,6 +408,9 @@ def Wigner_D_matrices(R, ell_min, ell_max):
                  + "Input values ell_min={0} and ell_max={1} are not valid.\n".format(ell_min, ell_max)
                  + "Try `Wigner_D_element` with an explicit array of `indices` for half-integers.")
         raise ValueError(error)
+    if ell_max > sf_ell_max:
+        raise ValueError("Wigner_D_matrices is only implemented up to ell={0}; ".format(sf_ell_max)
+                         + "input ell_max={0} is too large".format(ell_max))
     matrices = np.empty((LMpM_total_size(ell_min, ell_max),), dtype=complex)
     _Wigner_D_matrices(R.a, R.b, ell_min, ell_max, matrices)
     return matrices
-- 
2.43.0


From d4c8dc68e4d560dfd8bdb9a60d4e969901f77cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:17 +0000
Subject: [PATCH 23/30] fix: in-place and out= operations on Grids overwrote
 their target before raising for a grid too small for the resulting spin
 weight

---
 spherical_functions/SWSH_grids/ufuncs.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/spherical_functions/SWSH_grids/ufuncs.py b/spherical_functions/SWSH_grids/ufuncs.py
index 6c1ce1c..3274f5a 100644
--- a/spherical_functions/SWSH_grids/ufuncs.py
+++ b/spherical_functions/SWSH_grids/ufuncs.py
@@ -33,6 +33,16 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     if method != '__call__':
         return NotImplemented
 
+    # Evaluate the result first, so that nothing is written to `out` if there is no such Grid
+    if out is not None:
+        result = self.__array_ufunc__(ufunc, method, *args)
+        if result is NotImplemented:
+            return NotImplemented
+        np.copyto(out[0].view(np.ndarray), result.view(np.ndarray))
+        if isinstance(out[0], type(self)):
+            out[0]._metadata = copy.copy(result._metadata)
+        return type(self)(out[0].view(np.ndarray), **result._metadata)
+
     if ufunc in [np.positive, np.negative]:
         if not isinstance(args[0], type(self)):
             return NotImplemented
-- 
2.43.0


From aee874544743ce11fcfc574d71a2fcb0fe047f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:17 +0000
Subject: [PATCH 24/30] fix: np.conjugate(modes, out=...) overwrote part of an
 output of the wrong size before raising ValueError

---
 spherical_functions/SWSH_modes/ufuncs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index cbee620..7351db1 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -158,7 +158,7 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
     elif ufunc in [np.conj, np.conjugate]:
         if isinstance(args[0], type(self)):
             s = args[0].view(np.ndarray)
-            c = np.zeros_like(s) if out is None else out[0]
+            c = np.zeros_like(s)
             for ell in range(abs(args[0].s), args[0].ell_max+1):
                 i = LM_index(ell, 0, args[0].ell_min)
                 if args[0].s%2 == 0:
@@ -171,6 +171,9 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
                         c[..., i_p], c[..., i_n] = np.conjugate(s[..., i_n]), np.conjugate(s[..., i_p])
                     else:
                         c[..., i_p], c[..., i_n] = -np.conjugate(s[..., i_n]), -np.conjugate(s[..., i_p])
+            if out is not None:
+                np.copyto(out[0].view(np.ndarray), c)
+                c = out[0].view(np.ndarray)
             metadata = copy.copy(args[0]._metadata)
             metadata['spin_weight'] = -args[0].s
             result = type(self)(c, **metadata)
-- 
2.43.0


From 0bca4ed37121ecbdc040d5188f278bdc69c3a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:27 +0000
Subject: [PATCH 25/30] fix: products of Modes with
 multiplication_truncator=None raised TypeError

---
 spherical_functions/SWSH_modes/algebra.py | 4 ++--
 spherical_functions/SWSH_modes/ufuncs.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/spherical_functions/SWSH_modes/algebra.py b/spherical_functions/SWSH_modes/algebra.py
index 6f9da29..5e7bfbb 100644
--- a/spherical_functions/SWSH_modes/algebra.py
+++ b/spherical_functions/SWSH_modes/algebra.py
@@ -245,8 +245,8 @@ def multiply(self, other, truncator=None):
             new_ell_max = max(
                 truncator((self.ell_max, other.ell_max))
                 for truncator in [
-                    self._metadata.get('multiplication_truncator', sum),
-                    other._metadata.get('multiplication_truncator', sum)
+                    self._metadata.get('multiplication_truncator') or sum,
+                    other._metadata.get('multiplication_truncator') or sum
                 ]
             )
         new_shape = np.broadcast(s[..., 0], o[..., 0]).shape + (LM_total_size(new_ell_min, new_ell_max),)
diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index 7351db1..e1204c9 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -102,8 +102,8 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             result_ell_max = max(
                 truncator((args[0].ell_max, args[1].ell_max))
                 for truncator in [
-                    args[0]._metadata.get('multiplication_truncator', sum),
-                    args[1]._metadata.get('multiplication_truncator', sum)
+                    args[0]._metadata.get('multiplication_truncator') or sum,
+                    args[1]._metadata.get('multiplication_truncator') or sum
                 ]
             )
             result_shape = np.broadcast(s[..., 0], o[..., 0]).shape + (LM_total_size(result_ell_min, result_ell_max),)
-- 
2.43.0


From dee907bd7b9c78b5ddbf61d9b292713a8aba9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:45 +0000
Subject: [PATCH 26/30] fix: np.absolute of Modes ignored out=, and failed with
 AttributeError where only out= is a Modes object

---
 spherical_functions/SWSH_modes/ufuncs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_modes/ufuncs.py b/spherical_functions/SWSH_modes/ufuncs.py
index e1204c9..a340a17 100644
--- a/spherical_functions/SWSH_modes/ufuncs.py
+++ b/spherical_functions/SWSH_modes/ufuncs.py
@@ -183,7 +183,10 @@ def __array_ufunc__(self, ufunc, method, *args, out=None, **kwargs):
             return NotImplemented
 
     elif ufunc is np.absolute:
-        return np.abs(args[0].ndarray)
+        if not isinstance(args[0], type(self)):
+            return NotImplemented
+        out_view = out if out is None else out[0].view(np.ndarray)
+        return np.absolute(args[0].view(np.ndarray), out=out_view)
 
     else:
         # I thought we filtered everything else out...
-- 
2.43.0


From a51a46ce4f4eb43f46efeebaa1bbb45352d88ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:26 +0000
Subject: [PATCH 27/30] fix: Wigner_D_element raised TypeError for read-only
 arrays of rotors (integer indices)

---
 spherical_functions/WignerD/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/WignerD/__init__.py b/spherical_functions/WignerD/__init__.py
index 3776ee0..1452a01 100644
--- a/spherical_functions/WignerD/__init__.py
+++ b/spherical_functions/WignerD/__init__.py
@@ -102,7 +102,7 @@ def Wigner_D_element(*args):
         elements = np.zeros(args[0].size, dtype=complex)
         if np.all(_valid_indices(indices)):
             if indices[0, 0] % 2 == 0:
-                Rs = quaternion.as_float_array(args[0]).reshape((-1, 4))
+                Rs = quaternion.as_float_array(args[0].flatten())
                 _Wigner_D_elements(Rs, indices[0, 0]//2, indices[0, 1]//2, indices[0, 2]//2, elements)
             else:
                 for i, R in enumerate(args[0].ravel()):
-- 
2.43.0


From 38205714a8a488ff9229b77a2a2b535be1aaeb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 28/30] fix: SWSH raised TypeError for read-only index arrays
 and for integers other than int64

---
 spherical_functions/SWSH/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH/__init__.py b/spherical_functions/SWSH/__init__.py
index 8f746a8..1a24e8d 100644
--- a/spherical_functions/SWSH/__init__.py
+++ b/spherical_functions/SWSH/__init__.py
@@ -43,7 +43,7 @@ def SWSH(R, s, indices):
     _check_ell_max(np.max(indices[..., 0], initial=0))
     if indices.size > 2 or not isinstance(R, np.ndarray):
         values = np.empty((indices.shape[0],), dtype=complex)
-        _SWSH(R.a, R.b, s, indices, values)
+        _SWSH(R.a, R.b, s, indices.astype(int, casting='same_kind'), values)
     else:
         values = np.empty((R.size,), dtype=complex)
         _SWSHs(quaternion.as_float_array(R.flatten()), s, indices[0], indices[1], values)
-- 
2.43.0


From b1ea7ae824558ae1bd7619db34e70f3adad77275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:48 +0000
Subject: [PATCH 29/30] fix: modes and grids of functions with ell_max below
 |s| must not let spinsfast access memory outside its arrays

---
 spherical_functions/SWSH_grids/utilities.py | 4 +++-
 spherical_functions/SWSH_modes/utilities.py | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/spherical_functions/SWSH_grids/utilities.py b/spherical_functions/SWSH_grids/utilities.py
index 8d6bdd8..c11f1cd 100644
--- a/spherical_functions/SWSH_grids/utilities.py
+++ b/spherical_functions/SWSH_grids/utilities.py
@@ -26,12 +26,14 @@ def modes(self, ell_max=None, **kwargs):
     import copy
     import numpy as np
     import spinsfast
-    from .. import Modes
+    from .. import Modes, LM_total_size
     if ell_max is None:
         ell_max = (max(self.n_phi, self.n_theta) - 1) // 2
     metadata = copy.copy(self._metadata)
     metadata.update(**kwargs)
     metadata.update(spin_weight=self.s, ell_min=0, ell_max=ell_max)
+    if ell_max < abs(self.s):  # There are no such modes, and spinsfast would write outside its arrays
+        return Modes(np.zeros(self.shape[:-2] + (LM_total_size(0, ell_max),), dtype=complex), **metadata)
     return Modes(spinsfast.map2salm(self.view(np.ndarray), self.s, ell_max), **metadata)
 
 
diff --git a/spherical_functions/SWSH_modes/utilities.py b/spherical_functions/SWSH_modes/utilities.py
index 2aab13c..fbb8fb0 100644
--- a/spherical_functions/SWSH_modes/utilities.py
+++ b/spherical_functions/SWSH_modes/utilities.py
@@ -77,6 +77,8 @@ def grid(self, n_theta=None, n_phi=None, **kwargs):
     metadata = copy.copy(self._metadata)
     metadata.pop('ell_max', None)
     metadata.update(**kwargs)
+    if 0 < self.ell_max < abs(self.s):  # The function is zero, and spinsfast would read outside its arrays
+        return Grid(np.zeros(self.shape[:-1] + (n_theta, n_phi), dtype=complex), **metadata)
     return Grid(spinsfast.salm2map(self.view(np.ndarray), self.s, self.ell_max, n_theta, n_phi), **metadata)
 
 
-- 
2.43.0


From b690fe62eb88b309b1afdcbd3d033d2ad54a8c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:08 +0000
Subject: [PATCH 30/30] fix: quaternion_angles divided by zero or gave nan for
 quaternions whose squared components underflow or overflow

---
 spherical_functions/recursions/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/spherical_functions/recursions/__init__.py b/spherical_functions/recursions/__init__.py
index b936af1..0eaa810 100644
--- a/spherical_functions/recursions/__init__.py
+++ b/spherical_functions/recursions/__init__.py
@@ -23,11 +23,13 @@ def quaternion_angles(R):
     quaternion, and are important terms in computing Wigner's 𝔇 matrices.
 
     """
-    a = R[0]**2 + R[3]**2
-    b = R[1]**2 + R[2]**2
-    sqrta = np.sqrt(a)
-    sqrtb = np.sqrt(b)
-    zᵦ = ((a - b) + 2j * sqrta * sqrtb) / (a + b)  # exp[iβ]
+    # Note that the squares of the components may overflow or underflow
+    sqrta = np.hypot(R[0], R[3])
+    sqrtb = np.hypot(R[1], R[2])
+    norm = np.hypot(sqrta, sqrtb)
+    cosβ_2 = sqrta / norm
+    sinβ_2 = sqrtb / norm
+    zᵦ = (cosβ_2 - sinβ_2) * (cosβ_2 + sinβ_2) + 2j * cosβ_2 * sinβ_2  # exp[iβ]
     zₚ = (R[0] + 1j * R[3]) / sqrta  # exp[i(α+γ)/2]
     zₘ = (R[2] - 1j * R[1]) / sqrtb  # exp[i(α-γ)/2]
     return zᵦ, zₚ, zₘ
-- 
2.43.0

