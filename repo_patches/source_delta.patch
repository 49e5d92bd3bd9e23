From 308bd651614cbd1ab58707d8bb17726b9757f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 01/86] fix: a nomial raised to the power 0 is 1, and powers
 print their exponent

P**0 raised AttributeError for posynomials and signomials, and the stored
expression of P**n recorded an exponent of 0.
---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d9142b1..464c130 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -236,10 +236,9 @@ class Signomial(Nomial):
 
     def __pow__(self, expo):
         if isinstance(expo, int) and expo >= 0:
-            p = 1
-            while expo > 0:
+            p = Monomial(1)
+            for _ in range(expo):
                 p *= self
-                expo -= 1
             p.ast = ("pow", (self, expo))
             return p
         return NotImplemented
-- 
2.43.0


From 06407e6627169ca3bcd8133791116f8cffc50909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 02/86] fix: a sum whose terms all cancel is zero, not an empty
 nomial

x - x had no terms at all: adding it to something raised TypeError, and it
did not compare equal to 0.  Adding a zero nomial stored a zero term.
---
 gpkit/nomials/map.py  | 4 ++++
 gpkit/nomials/math.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5c05a6a..9d5fbab 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -61,6 +61,10 @@ class NomialMap(HashVector):
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
         hmap.units = self.units
+        for exp in [exp for exp, c in hmap.items() if not c]:
+            del hmap[exp]  # zero nomials contribute no terms
+        if not hmap:  # make sure it's never an empty hmap
+            hmap[EMPTY_HV] = 0.0
         return hmap
 
     def diff(self, varkey):
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 464c130..eb79465 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -218,6 +218,8 @@ class Signomial(Nomial):
                         hmap[exp] = accumulated + new
                     elif accumulated:
                         del hmap[exp]
+            if not hmap:  # make sure it's never an empty hmap
+                hmap[EMPTY_HV] = 0.0
             hmap.units_of_product(self.hmap.units, other.hmap.units)
             out = Signomial(hmap)
             out.ast = ("mul", astorder)
-- 
2.43.0


From 40cc2391336a60dca02b2e850926751492470961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 03/86] fix: zero divided by a monomial is zero instead of an
 AttributeError

---
 gpkit/nomials/math.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index eb79465..d807084 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -315,6 +315,8 @@ class Monomial(Posynomial):
         "Divide other by this Monomial"
         if isinstance(other, Numbers + (Signomial,)):
             out = other * self**-1
+            if isinstance(out, Numbers):  # other is zero
+                return out
             out.ast = ("div", (other, self))
             return out
         return NotImplemented
-- 
2.43.0


From 44e029e805e4e81471e491651b07d8ffc7c46f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:11 +0000
Subject: [PATCH 04/86] fix: cache unit conversions by the units themselves,
 not by id() of temporary objects

---
 gpkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/units.py b/gpkit/units.py
index 39c3f18..08ad431 100644
--- a/gpkit/units.py
+++ b/gpkit/units.py
@@ -34,7 +34,7 @@ class GPkitUnits:
         "Cached unit division. Requires Quantity inputs."
         if numerator.units is denominator.units:
             return 1
-        key = (id(numerator.units), id(denominator.units))
+        key = (numerator.units, denominator.units)
         try:
             return self.division_cache[key]
         except KeyError:
-- 
2.43.0


From 4743ad091dce3f08cb83676e5552888f9340e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 05/86] fix: a posynomial <= 1 whose constant reaches 1 is
 infeasible, not a ZeroDivisionError or a sign flip

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d807084..b24af5a 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -432,7 +432,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
-        if coeff < -self.feastol:
+        if coeff <= 0:
             msg = "'%s' is infeasible by %.2g%%" % (self, -coeff*100)
             if fixed:
                 msg += " after substituting %s." % fixed
-- 
2.43.0


From 5815486c4279c4840a84d16b29fdcd2edb5402d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 06/86] fix: zeros in an array contribute no terms to its sum

---
 gpkit/nomials/array.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b276f5a..25bfbd0 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -163,7 +163,11 @@ class NomialArray(ReprMixin, np.ndarray):
                     p = p.to(hmap.units).magnitude
                 elif hmap.units and p and not np.isnan(p):
                     p /= float(hmap.units)
-                hmap[EMPTY_HV] = p + hmap.get(EMPTY_HV, 0)
+                p += hmap.pop(EMPTY_HV, 0)
+                if p:  # zeros contribute no terms
+                    hmap[EMPTY_HV] = p
+        if not hmap:  # make sure it's never an empty hmap
+            hmap[EMPTY_HV] = 0.0
         out = Signomial(hmap)
         out.ast = ("sum", (self, None))
         return out
-- 
2.43.0


From b0d4f85558eeb31b76b9ec03564fd5cb0c612a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 07/86] fix: deleting a KeyDict entry no longer disturbs other
 entries

---
 gpkit/keydict.py | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bc86f5d..daf5403 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -250,33 +250,26 @@ class KeyDict(KeyMap, dict):
         "Overloads del [] to work with all keys"
         if not hasattr(key, "key"):  # not a keyed object
             self.update_keymap()
-            keys = self.keymap[key]
+            keys = self.keymap.get(key)
             if not keys:
                 raise KeyError(key)
             for k in keys:
                 del self[k]
         else:
-            key = key.key
-            veckey, idx = self.parse_and_index(key)
-            if idx is None:
-                super().__delitem__(key)
-            else:
-                super().__getitem__(veckey)[idx] = np.nan
-                if isnan(super().__getitem__(veckey)).all():
-                    super().__delitem__(veckey)
-            copiedonwrite = set()  # to save time, .update() does not copy
-            mapkeys = set([key])
-            if key.keys:
-                mapkeys.update(key.keys)
-            for mapkey in mapkeys:
+            key, idx = self.parse_and_index(key.key)
+            if idx is not None:
+                self._copyonwrite(key)
+                super().__getitem__(key)[idx] = np.nan
+                if not isnan(super().__getitem__(key)).all():
+                    return  # the vector still has other values
+            super().__delitem__(key)
+            self._unmapped_keys.discard(key)
+            for mapkey in set([key]).union(key.keys):
                 if mapkey in self.keymap:
-                    if len(self.keymap[mapkey]) == 1:
+                    # to save time, .update() does not copy these sets
+                    self.keymap[mapkey] = self.keymap[mapkey].difference([key])
+                    if not self.keymap[mapkey]:
                         del self.keymap[mapkey]
-                        continue
-                    if mapkey not in copiedonwrite:
-                        self.keymap[mapkey] = set(self.keymap[mapkey])
-                        copiedonwrite.add(mapkey)
-                    self.keymap[mapkey].remove(key)
 
 
 class KeySet(KeyMap, set):
-- 
2.43.0


From fbf03e731434b91d41d754a09ffd5a4cb07fb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:52 +0000
Subject: [PATCH 08/86] fix: vector values are stored exactly, not as float32
 or truncated to integers

---
 gpkit/keydict.py           | 6 ++++--
 gpkit/nomials/variables.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index daf5403..d55ae2b 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -226,7 +226,7 @@ class KeyDict(KeyMap, dict):
         if key.shape: # now if we're setting an array...
             if getattr(value, "shape", None):   # is the value an array?
                 if value.dtype == INT_DTYPE:
-                    value = np.array(value, "f")  # convert to float
+                    value = np.array(value, float)  # convert to float
                 if dict.__contains__(self, key):
                     old = super().__getitem__(key)
                     if old.dtype != value.dtype:
@@ -240,9 +240,11 @@ class KeyDict(KeyMap, dict):
                     return  # successfully set only some indexes!
             elif not is_sweepvar(value): # or needs to be made one?
                 if not hasattr(value, "__len__"):
-                    value = np.full(key.shape, value, "f")
+                    value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
                     value = np.array([clean_value(key, v) for v in value])
+                    if value.dtype == INT_DTYPE:
+                        value = np.array(value, float)  # convert to float
         super().__setitem__(key, value)
         self.owned.add(key)
 
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 5997dc9..fccdfaa 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -141,7 +141,7 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         if value_option and not hasattr(values, "__call__"):
             if Vectorize.vectorization:
                 if not hasattr(values, "shape"):
-                    values = np.full(shape, values, "f")
+                    values = np.full(shape, values, float)
                 else:
                     values = np.broadcast_to(values, reversed(shape)).T
             elif not hasattr(values, "shape"):
-- 
2.43.0


From 81f5c24632870aa6ce81f73b783e3ba8d877ca86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:56 +0000
Subject: [PATCH 09/86] fix: writing to a KeyDict no longer writes to its
 copies

---
 gpkit/keydict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index d55ae2b..496656f 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -142,13 +142,16 @@ class KeyDict(KeyMap, dict):
         if not hasattr(self, "owned"):  # backwards pickle compatibility
             self.owned = set()
         if key not in self.owned:
-            super().__setitem__(key, super().__getitem__(key).copy())
+            value = super().__getitem__(key)
+            if hasattr(value, "copy"):  # e.g. sweep tuples are immutable
+                super().__setitem__(key, value.copy())
             self.owned.add(key)
 
     def update(self, *args, **kwargs):
         "Iterates through the dictionary created by args and kwargs"
         if not self and len(args) == 1 and isinstance(args[0], KeyDict):
             super().update(args[0])
+            args[0].owned = set()  # arrays are now shared by both KeyDicts
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
         else:
-- 
2.43.0


From e89ea11266811cf3d5dd37b7f3b24c01cefa1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:07 +0000
Subject: [PATCH 10/86] fix: recognise sweeps by the value of their marker, not
 its identity

---
 gpkit/small_scripts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 3d282d2..7af0c8c 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -51,8 +51,8 @@ def splitsweep(sub):
     "Splits a substitution into (is_sweepvar, sweepval)"
     try:
         sweep, value = sub
-        if sweep is "sweep" and (isinstance(value, Iterable) or  # pylint: disable=literal-comparison
-                                 hasattr(value, "__call__")):
+        if (isinstance(sweep, str) and sweep == "sweep" and
+                (isinstance(value, Iterable) or hasattr(value, "__call__"))):
             return True, value
     except (TypeError, ValueError):
         pass
-- 
2.43.0


From 35a6e9f092fb0e30ff0f7c386a64890049c9ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:18 +0000
Subject: [PATCH 11/86] fix: pickled nomials hash correctly when loaded in
 another process

---
 gpkit/small_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b66d714..19286ea 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -172,6 +172,10 @@ class HashVector(dict):
             self.hashvalue = reduce(xor, map(hash, self.items()), 0)
         return self.hashvalue
 
+    def __getstate__(self):
+        "Drops the cached hash, which is only valid in this process"
+        return {k: v for k, v in self.__dict__.items() if k != "hashvalue"}
+
     def copy(self):
         "Return a copy of this"
         hv = self.__class__(self)
-- 
2.43.0


From 55fa509692cc0a84d56ddf799fc0232ed4cdace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 12/86] fix: an element x[0] of a vector is not the scalar
 named 'x[0]'

---
 gpkit/varkey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 4fe35db..87f7ea6 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -36,6 +36,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
         self.key = self
         fullstr = self.str_without(["modelnums", "vec"])
         self.eqstr = fullstr + str(self.lineage) + self.unitrepr
+        if self.idx:  # distinguishes x[0] from a scalar named "x[0]"
+            self.eqstr += str(self.idx)
         self.hashvalue = hash(self.eqstr)
         self.keys = set((self.name, fullstr))
 
-- 
2.43.0


From 8461b9a7d66d97fad63e79930ff302515b56cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:48 +0000
Subject: [PATCH 13/86] fix: vector values may mix numbers, quantities,
 functions and sweeps

---
 gpkit/keydict.py              |  5 +++--
 gpkit/nomials/substitution.py | 14 ++++----------
 gpkit/small_scripts.py        | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 496656f..ec1bc7e 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -3,7 +3,7 @@ from collections import defaultdict
 from collections.abc import Hashable
 import numpy as np
 from .small_classes import Numbers, Quantity, FixedScalar
-from .small_scripts import is_sweepvar, isnan
+from .small_scripts import is_sweepvar, isnan, vec_array
 
 DIMLESS_QUANTITY = Quantity(1, "dimensionless")
 INT_DTYPE = np.dtype(int)
@@ -245,7 +245,8 @@ class KeyDict(KeyMap, dict):
                 if not hasattr(value, "__len__"):
                     value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
-                    value = np.array([clean_value(key, v) for v in value])
+                    value = vec_array([clean_value(key, v) for v in value],
+                                      key.shape)
                     if value.dtype == INT_DTYPE:
                         value = np.array(value, float)  # convert to float
         super().__setitem__(key, value)
diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 4e26b9a..f88259c 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -1,7 +1,6 @@
 "Scripts to parse and collate substitutions"
-import warnings as pywarnings
 import numpy as np
-from ..small_scripts import splitsweep
+from ..small_scripts import mag, splitsweep, vec_array
 from ..keydict import KeySet
 
 
@@ -38,16 +37,11 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
-        if not key.shape or not getattr(sub, "shape", hasattr(sub, "__len__")):
+        if not key.shape or not getattr(mag(sub), "shape",
+                                        hasattr(mag(sub), "__len__")):
             value = sub
         else:
-            with pywarnings.catch_warnings():
-                pywarnings.filterwarnings("error")
-                try:
-                    sub = np.array(sub) if not hasattr(sub, "shape") else sub
-                except Warning:  # pragma: no cover  #TODO: coverage this
-                    # ragged nested sequences, eg [[2]], [3, 4]], in py3.7+
-                    sub = np.array(sub, dtype=object)
+            sub = vec_array(sub, key.shape)
             if key.shape == sub.shape:
                 value = sub[key.idx]
                 sweepel, sweepval = splitsweep(value)
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 7af0c8c..35f1781 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -1,4 +1,5 @@
 """Assorted helper methods"""
+import warnings as pywarnings
 from collections.abc import Iterable
 import numpy as np
 
@@ -57,3 +58,36 @@ def splitsweep(sub):
     except (TypeError, ValueError):
         pass
     return False, None
+
+
+def vec_array(value, shape):
+    """Array of a (possibly nested) sequence meant for a vector of given shape.
+
+    Mixtures that numpy can't make a rectangle of numbers from, such as
+    ragged lists or lists containing sweeps or quantities, become an object
+    array of that shape with each element kept whole.
+    """
+    if hasattr(value, "shape"):
+        return value
+    if not any(is_sweepvar(element) for element in value):
+        with pywarnings.catch_warnings():
+            pywarnings.filterwarnings("error")
+            try:
+                return np.array(value)
+            except (Warning, TypeError, ValueError):
+                pass
+    arr = np.empty(shape, dtype=object)
+    _fill(arr, value)
+    return arr
+
+
+def _fill(arr, value):
+    "Sets each element of arr to that at the same place in nested value."
+    if len(value) != len(arr):
+        raise ValueError("cannot fill array of shape %s with %s"
+                         % (arr.shape, value))
+    for i, element in enumerate(value):
+        if len(arr.shape) > 1:
+            _fill(arr[i], element)
+        else:
+            arr[i] = element
-- 
2.43.0


From 60e6d99762939e2660866bc9e74a636a15ba0e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:52 +0000
Subject: [PATCH 14/86] fix: sweeping one element of a vector leaves its other
 elements constant or free

---
 gpkit/nomials/substitution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index f88259c..a9d6c18 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -37,6 +37,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
+        swept = sweepsub
         if not key.shape or not getattr(mag(sub), "shape",
                                         hasattr(mag(sub), "__len__")):
             value = sub
@@ -47,7 +48,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 sweepel, sweepval = splitsweep(value)
                 if sweepel:  # if only an element is swept
                     value = sweepval
-                    sweepsub = True
+                    swept = True
             elif sweepsub:
                 try:
                     np.broadcast(sub, np.empty(key.shape))
@@ -65,7 +66,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                                  (sub.shape, key.veckey, key.shape))
         if hasattr(value, "__call__") and not hasattr(value, "key"):
             linkedsweep[key] = value
-        elif sweepsub:
+        elif swept:
             sweep[key] = value
         else:
             try:
-- 
2.43.0


From 726c68312e79dcb57326d1dcfb46ba7e4f5059c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:29 +0000
Subject: [PATCH 15/86] fix: swept quantities are converted to their variable's
 units

---
 gpkit/nomials/substitution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index a9d6c18..7c330e6 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -1,7 +1,7 @@
 "Scripts to parse and collate substitutions"
 import numpy as np
 from ..small_scripts import mag, splitsweep, vec_array
-from ..keydict import KeySet
+from ..keydict import KeySet, clean_value
 
 
 def parse_subs(varkeys, substitutions, clean=False):
@@ -67,7 +67,9 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
         if hasattr(value, "__call__") and not hasattr(value, "key"):
             linkedsweep[key] = value
         elif swept:
-            sweep[key] = value
+            if isinstance(value, (list, tuple)):
+                value = [clean_value(key, v) for v in value]
+            sweep[key] = clean_value(key, value)  # in the key's units
         else:
             try:
                 assert np.isnan(value)
-- 
2.43.0


From 0686ac1336a103539e31bf2f601e41b55225c636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 16/86] fix: a vector element may be swept over a numpy array

---
 gpkit/constraints/prog_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3468b0c..fa6ca6f 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -157,7 +157,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         raise RuntimeWarning("No sweeps solved successfully.") from last_error
 
     solution["sweepvariables"] = KeyDict()
-    ksweep = KeyDict(sweep)
+    ksweep = {var.veckey or var for var in sweep}
     for var, val in list(solution["constants"].items()):
         if var in ksweep:
             solution["sweepvariables"][var] = val
-- 
2.43.0


From 3837d7021bba3f89ce097b8b3d7631e1c7aa0f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:57 +0000
Subject: [PATCH 17/86] fix: models may be created with, and replace, sweeps of
 whole vectors

---
 gpkit/keydict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index ec1bc7e..536d288 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -90,6 +90,8 @@ class KeyMap:
             return False
         if super().__contains__(key):  # pylint: disable=no-member
             if idx:
+                if is_sweepvar(super().__getitem__(key)):  # pylint: disable=no-member
+                    return True  # the whole vector is swept
                 try:
                     value = super().__getitem__(key)[idx]  # pylint: disable=no-member
                     return True if is_sweepvar(value) else not isnan(value)
@@ -230,7 +232,7 @@ class KeyDict(KeyMap, dict):
             if getattr(value, "shape", None):   # is the value an array?
                 if value.dtype == INT_DTYPE:
                     value = np.array(value, float)  # convert to float
-                if dict.__contains__(self, key):
+                if hasattr(dict.get(self, key), "dtype"):
                     old = super().__getitem__(key)
                     if old.dtype != value.dtype:
                         # e.g. replacing a number with a linked function
-- 
2.43.0


From b13afae88eabca69e573e4446360e8c158d750cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 18/86] fix: writing an element of a KeyDict's vector leaves
 the array it was given unchanged

---
 gpkit/keydict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 536d288..8c10bdc 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -252,7 +252,7 @@ class KeyDict(KeyMap, dict):
                     if value.dtype == INT_DTYPE:
                         value = np.array(value, float)  # convert to float
         super().__setitem__(key, value)
-        self.owned.add(key)
+        self.owned.discard(key)  # arrays may be shared with their provider
 
     def __delitem__(self, key):
         "Overloads del [] to work with all keys"
-- 
2.43.0


From f8c773297b3d67ecf7782f9c0aa440dcf500c1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:28 +0000
Subject: [PATCH 19/86] fix: numbers can replace functions and sweeps in a
 vector's values

---
 gpkit/keydict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 8c10bdc..fa756d9 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -234,7 +234,7 @@ class KeyDict(KeyMap, dict):
                     value = np.array(value, float)  # convert to float
                 if hasattr(dict.get(self, key), "dtype"):
                     old = super().__getitem__(key)
-                    if old.dtype != value.dtype:
+                    if old.dtype not in (value.dtype, np.dtype(object)):
                         # e.g. replacing a number with a linked function
                         newly_typed_array = np.array(old, dtype=value.dtype)
                         super().__setitem__(key, newly_typed_array)
-- 
2.43.0


From e51969a87872728e921f0c7a60141c235d6c1ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 20/86] fix: dividing a posynomial by its monomial bound never
 overwrites terms

---
 gpkit/nomials/math.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index b24af5a..60e2af5 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -460,9 +460,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         except ValueError:
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
-        hmap = p_lt.hmap.copy()
-        for exp in list(hmap):
-            hmap[exp-m_exp] = hmap.pop(exp)/m_c
+        hmap = NomialMap({exp-m_exp: c/m_c for exp, c in p_lt.hmap.items()})
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
-- 
2.43.0


From 05ae5e8d78df2f67e51a167b88039ea78d8ecd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:25 +0000
Subject: [PATCH 21/86] fix: substituting zero into a denominator makes a
 constraint infeasible instead of nan

---
 gpkit/nomials/map.py  | 2 +-
 gpkit/nomials/math.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 9d5fbab..feedd59 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -172,7 +172,7 @@ class NomialMap(HashVector):
 def subinplace(cp, exp, o_exp, vk, cval, squished):
     "Modifies cp by substituing cval/expval for vk in exp"
     x = exp[vk]
-    powval = float(cval)**x if cval != 0 or x >= 0 else np.sign(cval)*np.inf
+    powval = float(cval)**x if cval != 0 or x >= 0 else np.inf
     cp.csmap[o_exp] *= powval
     if exp in cp:
         c = cp.pop(exp)
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 60e2af5..33fabe0 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -474,6 +474,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
             hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
             if hmap is not None:
+                if np.inf in hmap.values():  # divided by a substituted zero
+                    raise PrimalInfeasible("'%s' is infeasible after"
+                                           " substituting %s." % (self, fixed))
                 if any(c <= 0 for c in hmap.values()):
                     raise InvalidGPConstraint("'%s' became Signomial after sub"
                                               "stituting %s" % (self, fixed))
-- 
2.43.0


From 88842db6b3b7252a5660fb28991c99ed5440d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:07 +0000
Subject: [PATCH 22/86] fix: constraints whose every term is zeroed by
 substitution are true, not a ZeroDivisionError

---
 gpkit/nomials/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index feedd59..0d5f486 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -160,8 +160,8 @@ class NomialMap(HashVector):
         origexps = list(orig.keys())
         selfexps = list(self.keys())
         for orig_exp, self_exp in self.expmap.items():
-            if self_exp not in self:  # can occur in tautological constraints
-                continue              #     after substitution
+            if not self.get(self_exp):  # can occur in tautological constraints
+                continue                #     after substitution
             fraction = self.csmap.get(orig_exp, orig[orig_exp])/self[self_exp]
             orig_idx = origexps.index(orig_exp)
             pmap[selfexps.index(self_exp)][orig_idx] = fraction
-- 
2.43.0


From 42f06510cd053d37edfd0a20aa2c62b0d6c110a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 23/86] fix: a vector's elements know their vector however they
 are created, so relaxed vector constants keep their values

---
 gpkit/varkey.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 87f7ea6..79887cb 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -46,9 +46,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
                 vecdescr = self.descr.copy()
                 del vecdescr["idx"]
                 self.veckey = VarKey(**vecdescr)
-            else:
-                self.keys.add(self.veckey)
-                self.keys.add(self.str_without(["idx", "modelnums"]))
+            self.keys.add(self.veckey)
+            self.keys.add(self.str_without(["idx", "modelnums"]))
 
     def __getstate__(self):
         "Stores varkey as its metadata dictionary, removing functions"
-- 
2.43.0


From d266c9bb456d7adbeadf13cbc669d3b537950c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:35 +0000
Subject: [PATCH 24/86] fix: ConstraintsRelaxed relaxes and reports every
 constraint of nested, vector and signomial sets

---
 gpkit/constraints/relax.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 5014723..78d3cb1 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -82,13 +82,14 @@ class ConstraintsRelaxed(ConstraintSet):
             original_constraints = ConstraintSet(original_constraints)
         self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
+        self.flat_originals = list(original_constraints.flat())
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(original_constraints), "C")
+            self.relaxvars = VectorVariable(len(self.flat_originals), "C")
 
         with SignomialsEnabled():
             relaxed_constraints = [
                 c.relaxed(self.relaxvars[i])
-                for i, c in enumerate(original_constraints.flat())]
+                for i, c in enumerate(self.flat_originals)]
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
@@ -105,11 +106,11 @@ class ConstraintsRelaxed(ConstraintSet):
                               range(len(self["relaxed constraints"])))
         for relaxval, i in relaxed:
             relax_percent = "%i%%" % (0.5+(relaxval-1)*100)
-            oldconstraint = self.original_constraints[i]
+            oldconstraint = self.flat_originals[i]
             newconstraint = self["relaxed constraints"][i][0]
             subs = {self.relaxvars[i]: relaxval}
-            relaxdleft = newconstraint.left.sub(subs)
-            relaxdright = newconstraint.right.sub(subs)
+            relaxdleft = newconstraint.left.sub(subs, require_positive=False)
+            relaxdright = newconstraint.right.sub(subs, require_positive=False)
             oldleftstr = str(oldconstraint.left)
             relaxedleftstr = str(relaxdleft)
             padding = len(relaxedleftstr) - len(oldleftstr)
-- 
2.43.0


From 32d7c463b4b6ce55d3ca0495bf03467856783f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 25/86] fix: debug works on models with nothing to relax, and
 excluded linked constants keep their values

---
 gpkit/constraints/model.py | 4 ++--
 gpkit/constraints/relax.py | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 06e5240..bfa5bf7 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -174,8 +174,8 @@ class Model(CostedConstraintSet):
         solveargs["process_result"] = False
 
         bounded = Bounded(self)
-        if self.substitutions:
-            tants = ConstantsRelaxed(bounded)
+        tants = ConstantsRelaxed(bounded)
+        if tants.freedvars:
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
         else:
             feas = Model(self.cost, bounded)
diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 78d3cb1..21ba8b5 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -174,9 +174,10 @@ class ConstantsRelaxed(ConstraintSet):
             if val == 0:
                 substitutions[const] = 0
                 continue
-            if include_only and const.name not in include_only:
-                continue
-            if const.name in exclude:
+            if ((include_only and const.name not in include_only)
+                    or const.name in exclude):
+                if const in linked:  # its inputs might become free
+                    substitutions[const] = val
                 continue
             # set up the lineage
             const.descr.pop("gradients", None)  # nothing wants an old gradient
@@ -236,6 +237,8 @@ class ConstantsRelaxed(ConstraintSet):
 def get_relaxed(relaxvals, mapped_list):
     "Returns 'relaxed' vals (those above an arbitrary threshold of 1.01)."
     sortrelaxed = sorted(zip(relaxvals, mapped_list), key=lambda x: -x[0])
+    if not sortrelaxed:  # there was nothing to relax
+        return []
     mostrelaxed = max(sortrelaxed[0][0], 1.01)
     for i, (val, _) in enumerate(sortrelaxed):
         if val <= 1.01 and (val-1) <= (mostrelaxed-1)/10:
-- 
2.43.0


From 49273ab8bca75ab67367150204dd28ef3a57406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 26/86] fix: nomials among the constraints are refused by name
 like other non-constraints

---
 gpkit/constraints/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 830d97b..47850fc 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -79,7 +79,7 @@ class ConstraintSet(list, ReprMixin):
         self.substitutions.cset = self
         self.bounded, self.meq_bounded = set(), defaultdict(set)
         for i, constraint in enumerate(self):
-            if hasattr(constraint, "vks"):
+            if hasattr(constraint, "vks") and hasattr(constraint, "bounded"):
                 self._update(constraint)
             elif not (hasattr(constraint, "as_hmapslt1")
                       or hasattr(constraint, "as_gpconstr")):
-- 
2.43.0


From fb2ea6216caa1a625ba0c7938490924eb90608f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:30 +0000
Subject: [PATCH 27/86] fix: sensitivities of costs whose terms merge or vanish
 on substitution reach the right variables

---
 gpkit/constraints/gp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 06ed88b..5c21fba 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -84,6 +84,8 @@ class GeometricProgram:
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
+        # substitution can merge, remove, and reorder the cost's monomials
+        self.cost_pmap = cost_hmap.mmap(cost.hmap)
         hmapgen = ConstraintSet.as_hmapslt1(constraints, self.substitutions)
         self.hmaps = [cost_hmap] + list(hmapgen)
         self.gen()  # Generate various maps into the posy- and monomials
@@ -304,8 +306,10 @@ class GeometricProgram:
         result["variables"].update(result["constants"])
         result["sensitivities"] = {"constraints": {}}
         la, self.nu_by_posy = self._generate_nula(solver_out)
-        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(self.nu_by_posy[0],
-                                                         self.cost.hmap))
+        cost_exps = list(self.cost.hmap)
+        cost_senss = sum(nu_i*fraction*cost_exps[idx] for (nu_i, mmap)
+                         in zip(self.nu_by_posy[0], self.cost_pmap)
+                         for idx, fraction in mmap.items())
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
         for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
-- 
2.43.0


From 64c01ae0754ac120f475fae78298fb3c1348cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 28/86] fix: sensitivities of linked variables reach every one
 of their inputs in full

---
 gpkit/constraints/gp.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 5c21fba..b06f05e 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -328,19 +328,17 @@ class GeometricProgram:
         result["sensitivities"]["models"] = dict(m_senss)
         # carry linked sensitivities over to their constants
         for v in list(v for v in gpv_ss if v.gradients):
-            dlogcost_dlogv = gpv_ss.pop(v)
             val = np.array(result["constants"][v])
-            for c, dv_dc in v.gradients.items():
-                with warnings.catch_warnings():  # skip pesky divide-by-zeros
-                    warnings.simplefilter("ignore")
-                    dlogv_dlogc = dv_dc * result["constants"][c]/val
-                    before = gpv_ss.get(c, 0)
-                    gpv_ss[c] = before + dlogcost_dlogv*dlogv_dlogc
-                if v in cost_senss:
-                    if c in self.cost.vks:
-                        dlogcost_dlogv = cost_senss.pop(v)
-                        before = cost_senss.get(c, 0)
-                        cost_senss[c] = before + dlogcost_dlogv*dlogv_dlogc
+            for senss in (gpv_ss, cost_senss):
+                if v not in senss:
+                    continue
+                dlogcost_dlogv = senss.pop(v)
+                for c, dv_dc in v.gradients.items():
+                    with warnings.catch_warnings():  # skip pesky divide-by-zeros
+                        warnings.simplefilter("ignore")
+                        dlogv_dlogc = dv_dc * result["constants"][c]/val
+                        before = senss.get(c, 0)
+                        senss[c] = before + dlogcost_dlogv*dlogv_dlogc
         result["sensitivities"]["cost"] = cost_senss
         result["sensitivities"]["variables"] = KeyDict(gpv_ss)
         result["sensitivities"]["constants"] = \
-- 
2.43.0


From 49ec18dda719a5f5ea6659d9a71a68903cc1a80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:25 +0000
Subject: [PATCH 29/86] fix: links to links are evaluated in dependency order,
 and formerly linked variables keep their own sensitivities

---
 gpkit/constraints/prog_factories.py | 71 +++++++++++++++++------------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index fa6ca6f..efb2c79 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -11,35 +11,48 @@ from ..exceptions import Infeasible
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    for v in linked:  # forget values from previous evaluations
+        constants.pop(v, None)
+    for v in constants:  # these might have been linked once
+        v.descr.pop("gradients", None)
+    if not linked:
+        return
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
-    kdc_plain = None
     array_calulated = {}
-    for v, f in linked.items():
-        try:
-            if v.veckey and v.veckey.original_fn:
-                if v.veckey not in array_calulated:
-                    ofn = v.veckey.original_fn
-                    array_calulated[v.veckey] = np.array(ofn(kdc))
-                out = array_calulated[v.veckey][v.idx]
-            else:
-                out = f(kdc)
-            constants[v] = out.x
-            v.descr["gradients"] = {adn.tag: grad
-                                    for adn, grad in out.d().items()
-                                    if adn.tag}  # else it's user-created
-        except Exception as exception:  # pylint: disable=broad-except
-            from .. import settings
-            if settings.get("ad_errors_raise", None):
-                raise
-            print("Warning: skipped auto-differentiation of linked variable"
-                  " %s because %s was raised. Set `gpkit.settings"
-                  "[\"ad_errors_raise\"] = True` to raise such Exceptions"
-                  " directly.\n" % (v, repr(exception)))
-            if kdc_plain is None:
-                kdc_plain = KeyDict(constants)
-            constants[v] = f(kdc_plain)
-            v.descr.pop("gradients", None)
+    waiting = dict(linked)
+    stuck = False  # whether none of the waiting could be evaluated
+    while waiting:
+        n_waiting = len(waiting)
+        for v, f in list(waiting.items()):
+            try:
+                if v.veckey and v.veckey.original_fn:
+                    if v.veckey not in array_calulated:
+                        ofn = v.veckey.original_fn
+                        array_calulated[v.veckey] = np.array(ofn(kdc))
+                    out = array_calulated[v.veckey][v.idx]
+                else:
+                    out = f(kdc)
+                constants[v] = out.x
+                v.descr["gradients"] = {adn.tag: grad
+                                        for adn, grad in out.d().items()
+                                        if adn.tag}  # else it's user-created
+            except Exception as exception:  # pylint: disable=broad-except
+                if isinstance(exception, KeyError) and not stuck:
+                    continue  # it may be linked to another linked variable
+                from .. import settings
+                if settings.get("ad_errors_raise", None):
+                    raise
+                print("Warning: skipped auto-differentiation of linked variable"
+                      " %s because %s was raised. Set `gpkit.settings"
+                      "[\"ad_errors_raise\"] = True` to raise such Exceptions"
+                      " directly.\n" % (v, repr(exception)))
+                constants[v] = f(KeyDict(constants))
+                v.descr.pop("gradients", None)
+                out = adnumber(maybe_flatten(constants[v]), v)
+            kdc[v] = out
+            del waiting[v]
+        stuck = len(waiting) == n_waiting
 
 
 def progify(program, return_attr=None):
@@ -56,8 +69,7 @@ def progify(program, return_attr=None):
         "Return program version of self"
         if not constants:
             constants, _, linked = parse_subs(self.varkeys, self.substitutions)
-            if linked:
-                evaluate_linked(constants, linked)
+            evaluate_linked(constants, linked)
         prog = program(self.cost, self, constants, **initargs)
         prog.model = self  # NOTE SIDE EFFECTS
         if return_attr:
@@ -138,8 +150,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     for i in range(N_passes):
         constants.update({var: sweep_vect[i]
                           for (var, sweep_vect) in sweep_vects.items()})
-        if linked:
-            evaluate_linked(constants, linked)
+        evaluate_linked(constants, linked)
         program, solvefn = genfunction(self, constants)
         self.program.append(program)  # NOTE: SIDE EFFECTS
         try:
-- 
2.43.0


From 4b571209a5fa850059c7ff2ff95609aef3aec7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 30/86] fix: variables on both sides of a signomial constraint
 are counted once in its sensitivities

---
 gpkit/nomials/math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 33fabe0..d5840a2 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -617,8 +617,7 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         self._negysig = Signomial(negy_hmap, require_positive=False)
         self._coeffsigs = {exp: Signomial(hmap, require_positive=False)
                            for exp, hmap in posy_hmaps.items()}
-        self._sigvars = {exp: (list(self._negysig.vks)
-                               + list(sig.vks))
+        self._sigvars = {exp: self._negysig.vks | sig.vks
                          for exp, sig in self._coeffsigs.items()}
         return p_ineq.as_hmapslt1(substitutions)
 
-- 
2.43.0


From ec7722328b6965d59110fc94366a057cd24112e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:37 +0000
Subject: [PATCH 31/86] fix: a constraint's sensitivities forget constants of
 earlier substitutions, and can be derived more than once

---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d5840a2..fc9def1 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -471,6 +471,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             fixed, _, _ = parse_subs(posy.vks, substitutions, clean=True)
             hmap = posy.hmap.sub(fixed, posy.vks, parsedsubs=True)
             self.pmap = hmap.mmap(posy.hmap)  # pylint: disable=attribute-defined-outside-init
+            self.const_mmap = None  # pylint: disable=attribute-defined-outside-init
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
             hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
             if hmap is not None:
@@ -492,12 +493,10 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             for i, mmap in enumerate(self.pmap):
                 for idx, percentage in mmap.items():
                     nu_[idx] += percentage*nu[i]
-            del self.pmap  # not needed after dual has been derived
-            if hasattr(self, "const_mmap"):
+            if self.const_mmap:
                 scale = (1-self.const_coeff)/self.const_coeff
                 for idx, percentage in self.const_mmap.items():
                     nu_[idx] += percentage * la*scale
-                del self.const_mmap  # not needed after dual has been derived
             nu = nu_
         self.v_ss = HashVector()
         if self.parent:
-- 
2.43.0


From 17c6db939feb9f0b3c31b5b0209b22a29c2ba159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 32/86] fix: an equality of a single variable bounds it

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index fc9def1..c505f12 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -520,7 +520,7 @@ class MonomialEquality(PosynomialInequality):
         self.bounded = set()
         self.meq_bounded = {}
         self._las = []
-        if self.unsubbed and len(self.vks) > 1:
+        if self.unsubbed:
             exp, = self.unsubbed[0].hmap
             for key, e in exp.items():
                 s_e = np.sign(e)
-- 
2.43.0


From fbe9f1754cf9d6f939f3078ba07368b1cb72a742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 33/86] fix: one solve's solver options no longer carry over to
 later solves

---
 gpkit/constraints/gp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index b06f05e..eeefb9c 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -191,8 +191,7 @@ class GeometricProgram:
             print(" for %i free variables" % len(self.varlocs))
             print("  in %i posynomial inequalities." % len(self.k))
 
-        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {})
-        solverargs.update(kwargs)
+        solverargs = dict(DEFAULT_SOLVER_KWARGS.get(solvername, {}), **kwargs)
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
         try:
-- 
2.43.0


From 2f9ed75965152eeea820f85376b80a1d678e79c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:30 +0000
Subject: [PATCH 34/86] fix: matrix entries zeroed out in place no longer reach
 MOSEK as duplicates

---
 gpkit/solvers/mosek_conif.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solvers/mosek_conif.py b/gpkit/solvers/mosek_conif.py
index 75c4b12..b3137c7 100644
--- a/gpkit/solvers/mosek_conif.py
+++ b/gpkit/solvers/mosek_conif.py
@@ -73,7 +73,7 @@ def optimize(*, c, A, k, p_idxs, **kwargs):
         log_c_lin = log_c[lin_idxs]
     else:
         log_c_lin = None  # A_lin won't be referenced later,
-        A_lse = A         # so no need to define it.
+        A_lse = A.tocoo()  # so no need to define it. NOTE: sums duplicates.
         log_c_lse = log_c
     k_lse = [k[i] for i in lse_posys]
     n_lse = sum(k_lse)
-- 
2.43.0


From fc0fbbae8377845aca94a1047f48082b55adb3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 35/86] fix: dual values of zero do not make a solution's dual
 cost undefined

---
 gpkit/constraints/gp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index eeefb9c..37a0be5 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -392,10 +392,13 @@ class GeometricProgram:
         if any(np.abs(A.T.dot(nu)) > tol):
             raise Infeasible("Dual: sum of nu^T * A did not vanish.")
         b = np.log(self.cs)
-        dual_cost = sum(
-            self.nu_by_posy[i].dot(
-                b[mi] - np.log(self.nu_by_posy[i]/la[i]))
-            for i, mi in enumerate(self.m_idxs) if la[i])
+        dual_cost = 0
+        for i, mi in enumerate(self.m_idxs):
+            if la[i]:
+                shares = self.nu_by_posy[i]/la[i]
+                # the limit of -nu*log(nu/la) as nu goes to zero is zero
+                shares = np.array([s if s > 0 else 1. for s in shares])
+                dual_cost += self.nu_by_posy[i].dot(b[mi] - np.log(shares))
         if not almost_equal(np.exp(dual_cost), cost):
             raise Infeasible("Dual cost %s does not match primal cost %s"
                              % (np.exp(dual_cost), cost))
-- 
2.43.0


From f33651935a3f4b0eed046057fe053aecc12e5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 36/86] fix: a program solved again does not return its
 previous result

---
 gpkit/constraints/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 37a0be5..5c8924a 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -191,6 +191,7 @@ class GeometricProgram:
             print(" for %i free variables" % len(self.varlocs))
             print("  in %i posynomial inequalities." % len(self.k))
 
+        self._result = None  # a previous solve's result no longer applies
         solverargs = dict(DEFAULT_SOLVER_KWARGS.get(solvername, {}), **kwargs)
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
-- 
2.43.0


From 51a0b993c3d3ae04ca0bc50a7ca77beb537316ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 37/86] fix: duals of the wrong length are refused instead of
 partly used

---
 gpkit/constraints/gp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 5c8924a..7157ecc 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -277,6 +277,8 @@ class GeometricProgram:
         if "nu" in solver_out:
             # solver gave us monomial sensitivities, generate posynomial ones
             solver_out["nu"] = nu = np.ravel(solver_out["nu"])
+            if len(nu) != len(self.cs):
+                raise RuntimeWarning("The dual solution was not returned.")
             nu_by_posy = [nu[mi] for mi in self.m_idxs]
             solver_out["la"] = la = np.array([sum(nup) for nup in nu_by_posy])
         elif "la" in solver_out:
@@ -284,6 +286,8 @@ class GeometricProgram:
             if len(la) == len(self.hmaps) - 1:
                 # assume solver dropped the cost's sensitivity (always 1.0)
                 la = np.hstack(([1.0], la))
+            if len(la) != len(self.hmaps):
+                raise RuntimeWarning("The dual solution was not returned.")
             # solver gave us posynomial sensitivities, generate monomial ones
             solver_out["la"] = la
             z = np.log(self.cs) + self.A.dot(solver_out["primal"])
-- 
2.43.0


From 53c132170a8bd72845647a5b4331cbcac0b40818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:13 +0000
Subject: [PATCH 38/86] fix: a failed solve whose debugging finds nothing still
 raises its error

---
 gpkit/constraints/gp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 7157ecc..082afdf 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -226,10 +226,12 @@ class GeometricProgram:
             elif isinstance(infeasibility, UnknownInfeasible):
                 msg = "The solver failed for an unknown reason."
             if (verbosity > 0 and solver_out["soltime"] < 1
-                    and hasattr(self, "model")):  # fast, top-level model
+                    and self.model is not None):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
-                return self.model.debug(solver=solver)
+                debugsol = self.model.debug(solver=solver)
+                if debugsol is not None:
+                    return debugsol
             # else, raise a clarifying error
             msg += (" Running `.debug()` may pinpoint the trouble. You can"
                     " also try another solver, or increase the verbosity.")
-- 
2.43.0


From b606c63195f91d0969184c4befe06b4f8a39ce6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 39/86] fix: constraints of undefined value are not taken for
 satisfied ones

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 082afdf..73cadf1 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -382,7 +382,7 @@ class GeometricProgram:
                              " solver-returned cost: %s vs %s." %
                              (primal_exp_vals[self.m_idxs[0]].sum(), cost))
         for mi in self.m_idxs[1:]:
-            if primal_exp_vals[mi].sum() > 1 + tol:
+            if not primal_exp_vals[mi].sum() <= 1 + tol:  # true of NaNs
                 raise Infeasible("Primal solution violates constraint: %s is "
                                  "greater than 1" % primal_exp_vals[mi].sum())
         # check dual sol #
-- 
2.43.0


From a997f541d93b00ddbdb09f397af5428e13d28b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:09 +0000
Subject: [PATCH 40/86] fix: solvers raising a bare Infeasible get their error
 reported

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 73cadf1..891b08f 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -223,7 +223,7 @@ class GeometricProgram:
             elif isinstance(infeasibility, DualInfeasible):
                 msg = ("The model ran to an infinitely low cost;"
                        " bounding the right variables would prevent this.")
-            elif isinstance(infeasibility, UnknownInfeasible):
+            else:
                 msg = "The solver failed for an unknown reason."
             if (verbosity > 0 and solver_out["soltime"] < 1
                     and self.model is not None):  # fast, top-level model
-- 
2.43.0


From 214770261cf724a5093d2226fb42c1893871529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 41/86] fix: signomial constraints infeasible at one
 approximation point can still be declared and solved

---
 gpkit/nomials/math.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index c505f12..d6cb118 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -404,9 +404,11 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
     """
     feastol = 1e-3
     # NOTE: follows .check_result's max default, but 1e-3 seems a bit lax...
+    local = False  # approximates another constraint, at some point
 
-    def __init__(self, left, oper, right):
+    def __init__(self, left, oper, right, *, local=False):
         ScalarSingleEquationConstraint.__init__(self, left, oper, right)
+        self.local = local
         if self.oper == "<=":
             p_lt, m_gt = self.left, self.right
         elif self.oper == ">=":
@@ -461,7 +463,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
         hmap = NomialMap({exp-m_exp: c/m_c for exp, c in p_lt.hmap.items()})
-        hmap = self._simplify_posy_ineq(hmap)
+        if not (self.local and hmap.get(EMPTY_HV, 0) >= 1):
+            # being infeasible here doesn't mean being infeasible elsewhere
+            hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
     def as_hmapslt1(self, substitutions):
@@ -513,9 +517,10 @@ class MonomialEquality(PosynomialInequality):
     "A Constraint of the form Monomial == Monomial."
     oper = "="
 
-    def __init__(self, left, right):
+    def __init__(self, left, right, *, local=False):
         # pylint: disable=super-init-not-called,non-parent-init-called
         ScalarSingleEquationConstraint.__init__(self, left, self.oper, right)
+        self.local = local
         self.unsubbed = self._gen_unsubbed(self.left, self.right)
         self.bounded = set()
         self.meq_bounded = {}
@@ -666,7 +671,8 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         posy, negy = siglt0.posy_negy()
         # default guess of 1.0 for unspecified negy variables
         x0 = {vk: x0.get(vk, 1) for vk in negy.vks}
-        pconstr = PosynomialInequality(posy, "<=", negy.mono_lower_bound(x0))
+        pconstr = PosynomialInequality(posy, "<=", negy.mono_lower_bound(x0),
+                                       local=True)
         pconstr.generated_by = self
         return pconstr
 
@@ -689,6 +695,7 @@ class SingleSignomialEquality(SignomialInequality):
         posy, negy = siglt0.posy_negy()
         # default guess of 1.0 for unspecified negy variables
         x0 = {vk: x0.get(vk, 1) for vk in siglt0.vks}
-        mec = (posy.mono_lower_bound(x0) == negy.mono_lower_bound(x0))
+        mec = MonomialEquality(posy.mono_lower_bound(x0),
+                               negy.mono_lower_bound(x0), local=True)
         mec.generated_by = self
         return mec
-- 
2.43.0


From bcbd229fc8527a38d4faf4b0a636f01996e2db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 42/86] fix: every sequential step is the approximation at the
 last solution, whatever terms vanish or appear there

Approximations that are constant at a point made later ones be written over
other constraints; variables missing from the first approximation kept their
initial guess; starting points keyed by strings were ignored; those of fixed
variables took the place of their values; and earlier steps' programs and
results were overwritten.
---
 gpkit/constraints/sgp.py | 90 +++++++++++++++++++---------------------
 1 file changed, 43 insertions(+), 47 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3217212..bd9bf91 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -1,7 +1,7 @@
 """Implement the SequentialGeometricProgram class"""
 import warnings as pywarnings
+from copy import copy
 from time import time
-from collections import defaultdict
 import numpy as np
 from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
                           InvalidPosynomial, InvalidSGPConstraint)
@@ -9,6 +9,7 @@ from ..keydict import KeyDict
 from ..nomials import Variable
 from .gp import GeometricProgram
 from ..nomials import PosynomialInequality, Posynomial
+from .set import ConstraintSet
 from .. import NamedVariables
 
 
@@ -63,10 +64,7 @@ class SequentialGeometricProgram:
         else:
             self.gpconstraints.append(self.slack >= 1)
         cost *= self.slack**pccp_penalty
-        self.approxconstraints = []
         self.sgpvks = set()
-        x0 = KeyDict(substitutions)
-        x0.varkeys = model.varkeys  # for string access and so forth
         for cs in model.flat():
             try:
                 if not hasattr(cs, "as_hmapslt1"):
@@ -78,27 +76,38 @@ class SequentialGeometricProgram:
                 if not hasattr(cs, "as_gpconstr"):
                     raise InvalidSGPConstraint(cs)
                 self.sgpconstraints.append(cs)
-                for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({}):
-                    constraint = (Posynomial(hmaplt1) <= self.slack)
-                    constraint.generated_by = cs
-                    self.approxconstraints.append(constraint)
-                    self.sgpvks.update(constraint.vks)
+                self.sgpvks.update(getattr(cs, "vks", []))
         if not self.sgpconstraints:
             raise UnnecessarySGP("""Model valid as a Geometric Program.
 
 SequentialGeometricPrograms should only be created with Models containing
 Signomial Constraints, since Models without Signomials have global
 solutions and can be solved with 'Model.solve()'.""")
+        x0 = KeyDict(substitutions)
+        x0.cset = model  # for string access and so forth
+        self.approxconstraints = self._approximate(x0)
         self._gp = GeometricProgram(
             cost, self.approxconstraints + self.gpconstraints,
             substitutions, checkbounds=checkbounds)
         self._gp.x0 = x0
-        self.a_idxs = defaultdict(list)
-        cost_mons = self._gp.k[0]
-        sp_mons = sum(self._gp.k[:1+len(self.approxconstraints)])
-        for row_idx, m_idx in enumerate(self._gp.A.row):
-            if cost_mons <= m_idx <= sp_mons:
-                self.a_idxs[self._gp.p_idxs[m_idx]].append(row_idx)
+        self._n_gphmaps = len(list(
+            ConstraintSet.as_hmapslt1(self.gpconstraints, substitutions)))
+
+    def _approximate(self, x0):
+        "Returns GP approximations of the signomial constraints at x0"
+        approxconstraints = []
+        for cs in self.sgpconstraints:
+            gpconstr = cs.as_gpconstr(x0)
+            if getattr(gpconstr, "local", False):  # may be infeasible at x0
+                posyslt1 = gpconstr.unsubbed
+            else:
+                posyslt1 = map(Posynomial, gpconstr.as_hmapslt1({}))
+            for posylt1 in posyslt1:
+                constraint = (posylt1 <= self.slack)
+                constraint.generated_by = cs
+                approxconstraints.append(constraint)
+                self.sgpvks.update(constraint.vks)
+        return approxconstraints
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
     def localsolve(self, solver=None, *, verbosity=1, x0=None, reltol=1e-4,
@@ -149,7 +158,7 @@ solutions and can be solved with 'Model.solve()'.""")
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
                     " iteration_limit=NEWLIMIT)`." % len(self.gps))
-            gp = self.gp(x0, cleanx0=True)
+            gp = self.gp(x0, cleanx0=bool(self.gps))
             self.gps.append(gp)  # NOTE: SIDE EFFECTS
             if verbosity > 1:
                 print("\nGP Solve %i" % len(self.gps))
@@ -216,35 +225,22 @@ solutions and can be solved with 'Model.solve()'.""")
         "Update self._gp for x0 and return it."
         if not x0:
             return self._gp  # return last generated
+        gp = copy(self._gp)  # those already solved are left as they were
+        gp.x0 = KeyDict(self._gp.x0)
+        gp.x0.cset = self._gp.x0.cset
         if not cleanx0:
-            x0 = KeyDict(x0)
-        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
-        p_idx = 0
-        for sgpc in self.sgpconstraints:
-            for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-                approxc = self.approxconstraints[p_idx]
-                approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
-                p_idx += 1  # p_idx=0 is the cost; sp constraints are after it
-                hmap, = approxc.as_hmapslt1(self._gp.substitutions)
-                self._gp.hmaps[p_idx] = hmap
-                m_idx = self._gp.m_idxs[p_idx].start
-                a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
-                for i, (exp, c) in enumerate(hmap.items()):
-                    self._gp.exps[m_idx + i] = exp
-                    self._gp.cs[m_idx + i] = c
-                    for var, x in exp.items():
-                        try:  # modify a particular A entry
-                            row_idx = a_idxs.pop()
-                            self._gp.A.row[row_idx] = m_idx + i
-                            self._gp.A.col[row_idx] = self._gp.varidxs[var]
-                            self._gp.A.data[row_idx] = x
-                        except IndexError:  # numbers of exps increased
-                            self.a_idxs[p_idx].append(len(self._gp.A.row))
-                            self._gp.A.row.append(m_idx + i)
-                            self._gp.A.col.append(self._gp.varidxs[var])
-                            self._gp.A.data.append(x)
-                for row_idx in a_idxs:  # number of exps decreased
-                    self._gp.A.row[row_idx] = 0  # zero out this entry
-                    self._gp.A.col[row_idx] = 0
-                    self._gp.A.data[row_idx] = 0
-        return self._gp
+            cset, x0_ = gp.x0.cset, x0
+            x0 = KeyDict()
+            x0.cset = cset
+            x0.update(x0_)
+        gp.x0.update({vk: x0[vk] for vk in self.sgpvks
+                      if vk in x0 and vk not in gp.substitutions})
+        self.approxconstraints = self._approximate(gp.x0)
+        approx = ConstraintSet.as_hmapslt1(self.approxconstraints,
+                                           gp.substitutions)
+        # only the approximations (after the cost) change with x0
+        gp.hmaps = (gp.hmaps[:1] + list(approx)
+                    + gp.hmaps[len(gp.hmaps)-self._n_gphmaps:])
+        gp.gen()
+        self._gp = gp
+        return gp
-- 
2.43.0


From 90e1fbd880ee0544c207a40a0a57398a7908640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 43/86] fix: sequential solves end on a cost rise at no
 verbosity or scale, and stop at their iteration limit

---
 gpkit/constraints/sgp.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index bd9bf91..de86dd3 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -153,7 +153,7 @@ solutions and can be solved with 'Model.solve()'.""")
         prevcost, cost, rel_improvement = None, None, None
         while rel_improvement is None or rel_improvement > reltol:
             prevcost = cost
-            if len(self.gps) > iteration_limit:
+            if len(self.gps) >= iteration_limit:
                 raise Infeasible(
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
@@ -178,13 +178,15 @@ solutions and can be solved with 'Model.solve()'.""")
             if prevcost is None:
                 continue
             rel_improvement = (prevcost - cost)/(prevcost + cost)
-            if cost*(1 - EPS) > prevcost + EPS and verbosity > -1:
-                pywarnings.warn(
-                    "SGP not convergent: Cost rose by %.2g%% on GP solve %i."
-                    " Details can be found in `m.program.results` or by"
-                    " solving at a higher verbosity. Note that convergence"
-                    " is not guaranteed for models with SignomialEqualities."
-                    % (100*(cost - prevcost)/prevcost, len(self.gps)))
+            if cost*(1 - EPS) > prevcost*(1 + EPS):
+                if verbosity > -1:
+                    pywarnings.warn(
+                        "SGP not convergent: Cost rose by %.2g%% on GP solve"
+                        " %i. Details can be found in `m.program.results` or by"
+                        " solving at a higher verbosity. Note that convergence"
+                        " is not guaranteed for models with"
+                        " SignomialEqualities."
+                        % (100*(cost - prevcost)/prevcost, len(self.gps)))
                 rel_improvement = cost = None
         # solved successfully!
         self.result = gp.generate_result(solver_out, verbosity=verbosity-3)
-- 
2.43.0


From a9a71fe5115429e3ec0bb2cc9f38672e8d6cddb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:33 +0000
Subject: [PATCH 44/86] fix: a negligible slack is removed from the cost's
 sensitivities too

---
 gpkit/constraints/sgp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index de86dd3..640c851 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -202,6 +202,7 @@ solutions and can be solved with 'Model.solve()'.""")
                 del self.result["freevariables"][self.slack.key]  # pylint: disable=no-member
                 del self.result["variables"][self.slack.key]  # pylint: disable=no-member
                 del self.result["sensitivities"]["variables"][self.slack.key]  # pylint: disable=no-member
+                self.result["sensitivities"]["cost"].pop(self.slack.key, None)  # pylint: disable=no-member
                 slackconstraint = self.gpconstraints[0]
                 del self.result["sensitivities"]["constraints"][slackconstraint]
             elif verbosity > -1:
-- 
2.43.0


From 296bad19c4e2891dab77e226f92263b41bb280ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 45/86] fix: sweeps and autosweeps put back the model's
 substitutions, whatever they were and however the sweep ends

---
 gpkit/constraints/model.py | 18 +++++++----------
 gpkit/tools/autosweep.py   | 40 ++++++++++++++++++++++++--------------
 2 files changed, 32 insertions(+), 26 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index bfa5bf7..8d349af 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -5,7 +5,7 @@ from ..nomials import Monomial
 from .prog_factories import progify, solvify
 from .gp import GeometricProgram
 from .sgp import SequentialGeometricProgram
-from ..tools.autosweep import autosweep_1d
+from ..tools.autosweep import autosweep_1d, temporary_substitutions
 from ..exceptions import InvalidGPConstraint
 from .. import NamedVariables
 from ..tools.docstring import expected_unbounded
@@ -137,16 +137,12 @@ class Model(CostedConstraintSet):
         "Sweeps {var: values} pairs in sweeps. Returns swept solutions."
         sols = []
         for sweepvar, sweepvals in sweeps.items():
-            original_val = self.substitutions.get(sweepvar, None)
-            self.substitutions.update({sweepvar: ('sweep', sweepvals)})
-            try:
-                sols.append(self.solve(**solveargs))
-            except InvalidGPConstraint:
-                sols.append(self.localsolve(**solveargs))
-            if original_val:
-                self.substitutions[sweepvar] = original_val
-            else:
-                del self.substitutions[sweepvar]
+            with temporary_substitutions(self):
+                self.substitutions.update({sweepvar: ('sweep', sweepvals)})
+                try:
+                    sols.append(self.solve(**solveargs))
+                except InvalidGPConstraint:
+                    sols.append(self.localsolve(**solveargs))
         return sols if len(sols) > 1 else sols[0]
 
     def autosweep(self, sweeps, tol=0.01, samplepoints=100, **solveargs):
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5a262a9..f410c37 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -1,12 +1,26 @@
 "Tools for optimal fits to GP sweeps"
 from time import time
+from contextlib import contextmanager
 import numpy as np
 from ..small_classes import Count
+from ..keydict import KeyDict
 from ..small_scripts import mag
 from ..solution_array import SolutionArray
 from ..exceptions import InvalidGPConstraint
 
 
+@contextmanager
+def temporary_substitutions(model):
+    "Changes to the model's substitutions made in this context are forgotten."
+    original = model.substitutions
+    model.substitutions = KeyDict(original)
+    model.substitutions.cset = original.cset
+    try:
+        yield
+    finally:
+        model.substitutions = original
+
+
 class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
     """Spans a line segment. May contain two subtrees that divide the segment.
 
@@ -225,30 +239,26 @@ class SolutionOracle:
 
 def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     "Autosweep a model over one sweepvar"
-    original_val = model.substitutions.get(sweepvar, None)
     start_time = time()
     solvekwargs.setdefault("verbosity", 1)
     solvekwargs["verbosity"] -= 1
     sols = Count().next
     firstsols = []
-    for bound in bounds:
-        model.substitutions.update({sweepvar: bound})
-        try:
-            model.solve(**solvekwargs)
-            firstsols.append(model.program.result)
-        except InvalidGPConstraint:
-            raise InvalidGPConstraint("only GPs can be autoswept.")
-        sols()
-    bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
-    tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    with temporary_substitutions(model):
+        for bound in bounds:
+            model.substitutions.update({sweepvar: bound})
+            try:
+                model.solve(**solvekwargs)
+                firstsols.append(model.program.result)
+            except InvalidGPConstraint:
+                raise InvalidGPConstraint("only GPs can be autoswept.")
+            sols()
+        bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
+        tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
     bst.nsols = sols()  # pylint: disable=attribute-defined-outside-init
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
         print("Autosweeping took %.3g seconds." % (time() - start_time))
-    if original_val:
-        model.substitutions[sweepvar] = original_val
-    else:
-        del model.substitutions[sweepvar]
     return bst
 
 
-- 
2.43.0


From 69ab21bf5aab3059d7785a4248ee6db8a9e0af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 46/86] fix: autosweep's bounds hold where the logcost's lower
 bound is zero

---
 gpkit/tools/autosweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index f410c37..c4cca3d 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -106,7 +106,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
         if value < self.bounds[0] or value > self.bounds[1]:
             raise ValueError("query value is outside bounds.")
         bst = self.min_bst(value)
-        if bst.splitlb:
+        if bst.splitlb is not None:
             if bound:
                 if bound == "lb":
                     splitcost = np.exp(bst.splitlb)
-- 
2.43.0


From d382c08dcdb2c79a4b2d2f36a49e1a3fca625f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 47/86] fix: variables whose sensitivities cancel keep their
 zero sensitivity

---
 gpkit/constraints/gp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 891b08f..70c5625 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -5,7 +5,8 @@ from time import time
 from collections import defaultdict
 import numpy as np
 from ..repr_conventions import lineagestr
-from ..small_classes import CootMatrix, SolverLog, Numbers, FixedScalar
+from ..small_classes import (CootMatrix, SolverLog, Numbers, FixedScalar,
+                             HashVector)
 from ..keydict import KeyDict
 from ..solution_array import SolutionArray
 from .set import ConstraintSet
@@ -313,9 +314,11 @@ class GeometricProgram:
         result["sensitivities"] = {"constraints": {}}
         la, self.nu_by_posy = self._generate_nula(solver_out)
         cost_exps = list(self.cost.hmap)
-        cost_senss = sum(nu_i*fraction*cost_exps[idx] for (nu_i, mmap)
-                         in zip(self.nu_by_posy[0], self.cost_pmap)
-                         for idx, fraction in mmap.items())
+        cost_senss = HashVector()
+        for nu_i, mmap in zip(self.nu_by_posy[0], self.cost_pmap):
+            for idx, fraction in mmap.items():
+                for vk, x in cost_exps[idx].items():  # even if they sum to zero
+                    cost_senss[vk] = nu_i*fraction*x + cost_senss.get(vk, 0)
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
         for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
-- 
2.43.0


From 6a6dd281e0089feaafbd8b5b8b6291b20970da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 48/86] fix: each program of a sweep keeps its own constants

---
 gpkit/constraints/prog_factories.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index efb2c79..15b428d 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -148,6 +148,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     self.program = []
     last_error = None
     for i in range(N_passes):
+        constants = dict(constants)  # since it's kept by the program
         constants.update({var: sweep_vect[i]
                           for (var, sweep_vect) in sweep_vects.items()})
         evaluate_linked(constants, linked)
-- 
2.43.0


From d8bd7c41fd36c5d5eadf41104bfb3974ec3ac68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:10 +0000
Subject: [PATCH 49/86] fix: what only some points of a sweep have stays
 aligned with its points, and atindex returns one point's data

---
 gpkit/small_classes.py  | 29 +++++++++++++++++++++++++----
 gpkit/solution_array.py | 17 +++++++++++++++++
 2 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 19286ea..7ca54bd 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -88,9 +88,10 @@ class DictOfLists(dict):
         "Appends a dict (of dicts) of lists to all held lists."
         if not hasattr(self, "initialized"):
             _enlist_dict(sol, self)
-            self.initialized = True  # pylint: disable=attribute-defined-outside-init
+            self.initialized = 1  # pylint: disable=attribute-defined-outside-init
         else:
-            _append_dict(sol, self)
+            _append_dict(sol, self, self.initialized)
+            self.initialized += 1
 
     def atindex(self, i):
         "Indexes into each list independently."
@@ -112,13 +113,30 @@ def _enlist_dict(d_in, d_out):
     return d_out
 
 
-def _append_dict(d_in, d_out):
+def _blank(item):
+    "Marks in a list of items like this one that a dict did not have any"
+    if isinstance(item, list):
+        return []
+    return np.full(item.shape, np.nan) if hasattr(item, "shape") else np.nan
+
+
+def _append_dict(d_in, d_out, n_prior):
     "Recursively travels dict d_out and appends items found in d_in."
     for k, v in d_in.items():
         if isinstance(v, dict):
-            d_out[k] = _append_dict(v, d_out[k])
+            if k not in d_out:
+                d_out[k] = v.__class__()
+            d_out[k] = _append_dict(v, d_out[k], n_prior)
         else:
+            if k not in d_out:
+                d_out[k] = [_blank(v) for _ in range(n_prior)]
             d_out[k].append(v)
+    for k, v in d_out.items():  # keep the lists of absent items aligned
+        if k not in d_in:
+            if isinstance(v, dict):
+                _append_dict({}, v, n_prior)
+            else:
+                v.append(_blank(v[0]))
     return d_out
 
 
@@ -143,6 +161,9 @@ def _enray(d_in, d_out):
         else:
             if len(v) == 1:
                 v, = v
+            elif isinstance(v[0], list):  # kept whole, may differ in length
+                v, lists = np.empty(len(v), dtype=object), v
+                v[:] = lists
             else:
                 v = np.array(v)
             d_out[k] = v
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8b59259..0785b89 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -237,6 +237,8 @@ def warnings_table(self, _, **kwargs):
         if not hasattr(data_vec, "shape"):
             data_vec = [data_vec]
         for i, data in enumerate(data_vec):
+            if not data:
+                continue  # there were no such warnings at this point
             data = sorted(data, key=lambda l: l[0])  # sort by msg
             title = wtype
             if len(data_vec) > 1:
@@ -355,6 +357,21 @@ class SolutionArray(DictOfLists):
         except KeyError:
             return 0
 
+    def atindex(self, i):
+        "Returns the solution at index i of this sweep."
+        if not -len(self) <= i < len(self):
+            raise IndexError("index %s is out of bounds for %i solution(s)"
+                             % (i, len(self)))
+        if len(self) == 1:  # not made of lists
+            sol = self.__class__()
+            sol.append(self)
+            sol.to_arrays()
+            return sol
+        sol = super().atindex(i)
+        for key in sol.get("constants", ()):  # not listed if never changing
+            sol["constants"][key] = sol["variables"][key]
+        return sol
+
     def __call__(self, posy):
         posy_subbed = self.subinto(posy)
         return getattr(posy_subbed, "c", posy_subbed)
-- 
2.43.0


From 0a50aba882e59d564f84b0823a4193abcf1a75ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 50/86] fix: values of vectorized variables keep their place
 and units

Inside a Vectorize environment lists were laid along the last dimension
instead of the variable's own, matrices were transposed, and Quantities lost
their units. Values with units given as monomials were ignored when not
passed by keyword.
---
 gpkit/nomials/variables.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index fccdfaa..ff7278e 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -7,7 +7,8 @@ from .math import Monomial
 from .map import NomialMap
 from ..globals import NamedVariables, Vectorize
 from ..varkey import VarKey
-from ..small_classes import Strings, Numbers, HashVector
+from ..units import Quantity
+from ..small_classes import Strings, Numbers, HashVector, FixedScalar
 from ..small_scripts import is_sweepvar
 
 
@@ -44,8 +45,8 @@ class Variable(Monomial):
             for arg in args:
                 if isinstance(arg, Strings) and "name" not in descr:
                     descr["name"] = arg
-                elif (isinstance(arg, Numbers) or hasattr(arg, "__call__")
-                      and "value" not in descr):
+                elif (isinstance(arg, Numbers + (FixedScalar,))
+                      or hasattr(arg, "__call__") and "value" not in descr):
                     descr["value"] = arg
                 elif (isinstance(arg, Iterable)
                       and not isinstance(arg, Strings)):
@@ -119,7 +120,7 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         for arg in args:
             if isinstance(arg, Strings) and "name" not in descr:
                 descr["name"] = arg
-            elif (isinstance(arg, (Numbers, Iterable))
+            elif (isinstance(arg, Numbers + (FixedScalar, Iterable))
                   and not isinstance(arg, Strings)
                   and "value" not in descr):
                 descr["value"] = arg
@@ -140,10 +141,7 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
             values = descr.pop(value_option)
         if value_option and not hasattr(values, "__call__"):
             if Vectorize.vectorization:
-                if not hasattr(values, "shape"):
-                    values = np.full(shape, values, float)
-                else:
-                    values = np.broadcast_to(values, reversed(shape)).T
+                values = vectorized(values, shape)
             elif not hasattr(values, "shape"):
                 values = np.array(values)
             if values.shape != shape:
@@ -178,6 +176,14 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         return obj
 
 
+def vectorized(values, shape):
+    "Repeats values along the trailing (vectorized) dimensions of shape"
+    if isinstance(values, Quantity):
+        return vectorized(values.magnitude, shape) * values.units
+    values = np.array(values)
+    return np.broadcast_to(values.T, tuple(reversed(shape))).T
+
+
 def veclinkedfn(linkedfn, i):
     "Generate an indexed linking function."
     def newlinkedfn(c):
-- 
2.43.0


From 4a572382002625d8d1e9760f48443c1b5eaa4946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:06 +0000
Subject: [PATCH 51/86] fix: leaving a nested SignomialsEnabled does not
 disable the outer one

---
 gpkit/globals.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 62b5bff..0795c75 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -50,7 +50,7 @@ settings = load_settings()
 
 class SignomialsEnabledMeta(type):
     "Metaclass to implement falsiness for SignomialsEnabled"
-    def __bool__(cls): return cls._true  # pylint: disable=multiple-statements
+    def __bool__(cls): return cls._depth > 0  # pylint: disable=multiple-statements
 
 class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-init
     """Class to put up and tear down signomial support in an instance of GPkit.
@@ -64,10 +64,10 @@ class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-
         >>>     constraints = [x >= 1-y]
         >>> gpkit.Model(x, constraints).localsolve()
     """
-    _true = False  # default signomial permissions
+    _depth = 0  # how many of these environments we are in
     # pylint: disable=multiple-statements
-    def __enter__(self): SignomialsEnabled._true = True
-    def __exit__(self, type_, val, traceback): SignomialsEnabled._true = False
+    def __enter__(self): SignomialsEnabled._depth += 1
+    def __exit__(self, type_, val, traceback): SignomialsEnabled._depth -= 1
 
 
 class Vectorize:
-- 
2.43.0


From 66d89d198e3cde7f568a2a53b051c42fc4782a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 52/86] fix: relaxing or bounding inside of a model's setup
 keeps variables' identities

---
 gpkit/constraints/bounded.py | 4 ++--
 gpkit/constraints/relax.py   | 7 ++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/bounded.py b/gpkit/constraints/bounded.py
index 8f87eda..3fbb5a6 100644
--- a/gpkit/constraints/bounded.py
+++ b/gpkit/constraints/bounded.py
@@ -1,7 +1,7 @@
 "Implements Bounded"
 from collections import defaultdict
 import numpy as np
-from .. import Variable
+from ..nomials import Variable
 from .set import ConstraintSet
 from ..small_scripts import appendsolwarning
 
@@ -22,7 +22,7 @@ def varkey_bounds(varkeys, lower, upper):
     """
     constraints = []
     for varkey in varkeys:
-        variable = Variable(**varkey.descr)
+        variable = Variable(varkey)
         if variable.units:  # non-dimensionalize the variable monomial
             variable.units = variable.hmap.units = None
         constraint = []
diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 21ba8b5..6fb6da7 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -2,6 +2,7 @@
 from .set import ConstraintSet
 from ..nomials import Variable, VectorVariable, parse_subs, NomialArray
 from ..keydict import KeyDict
+from ..varkey import VarKey
 from .. import NamedVariables, SignomialsEnabled
 from ..small_scripts import appendsolwarning, mag
 
@@ -189,15 +190,15 @@ class ConstantsRelaxed(ConstraintSet):
             # make the relaxation variable, free to get as large as it needs
             relaxedd = newconstd.copy()
             relaxedd["unitrepr"] = "-"  # and unitless, importantly
-            relaxvar = Variable(**relaxedd)
+            relaxvar = Variable(VarKey(**relaxedd))
             relaxvars.append(relaxvar)
             # the newly freed const can acquire a new value
             del substitutions[const]
-            freed = Variable(**const.descr)
+            freed = Variable(VarKey(**const.descr))
             self.freedvars.append(freed)
             # becuase the make the newconst will take its old value
             newconstd["lineage"] += (("OriginalValues", 0),)
-            newconst = Variable(**newconstd)
+            newconst = Variable(VarKey(**newconstd))
             substitutions[newconst] = val
             self._derelax_map[newconst.key] = const
             # add constraints so the newly freed's wiggle room
-- 
2.43.0


From e1f204985a9f4034e44a9828c614538c6b4c4714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 53/86] fix: elements of vector variables can be looked up in
 swept solutions

They were taken from the first point of the sweep, or raised.
---
 gpkit/keydict.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index fa756d9..32a6d7e 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -22,6 +22,12 @@ def clean_value(key, value):
     return value
 
 
+def full_index(veckey, idx, value):
+    "Returns idx, preceded by slices if value is an array of veckey's values"
+    sweepdims = getattr(value, "ndim", 0) - len(veckey.shape or idx)
+    return (slice(None),)*sweepdims + idx
+
+
 class KeyMap:
     """Helper class to provide KeyMapping to interfaces.
 
@@ -93,8 +99,9 @@ class KeyMap:
                 if is_sweepvar(super().__getitem__(key)):  # pylint: disable=no-member
                     return True  # the whole vector is swept
                 try:
-                    value = super().__getitem__(key)[idx]  # pylint: disable=no-member
-                    return True if is_sweepvar(value) else not isnan(value)
+                    value = super().__getitem__(key)  # pylint: disable=no-member
+                    value = value[full_index(key, idx, value)]
+                    return is_sweepvar(value) or not np.all(isnan(value))
                 except TypeError:
                     raise TypeError("%s has an idx, but its value in this"
                                     " KeyDict is the scalar %s."
@@ -183,7 +190,7 @@ class KeyDict(KeyMap, dict):
                 self._copyonwrite(k)
             val = dict.__getitem__(self, k)
             if idx:
-                val = val[idx]
+                val = val[full_index(key, idx, val)]
             if len(keys) == 1:
                 return val
             got[k] = val
@@ -226,7 +233,8 @@ class KeyDict(KeyMap, dict):
             if hasattr(value, "__call__"):  # a linked function
                 old = super().__getitem__(key)
                 super().__setitem__(key, np.array(old, dtype="object"))
-            super().__getitem__(key)[idx] = value
+            array = super().__getitem__(key)
+            array[full_index(key, idx, array)] = value
             return  # successfully set a single index!
         if key.shape: # now if we're setting an array...
             if getattr(value, "shape", None):   # is the value an array?
@@ -267,7 +275,8 @@ class KeyDict(KeyMap, dict):
             key, idx = self.parse_and_index(key.key)
             if idx is not None:
                 self._copyonwrite(key)
-                super().__getitem__(key)[idx] = np.nan
+                array = super().__getitem__(key)
+                array[full_index(key, idx, array)] = np.nan
                 if not isnan(super().__getitem__(key)).all():
                     return  # the vector still has other values
             super().__delitem__(key)
-- 
2.43.0


From c8ba0501f97dd9f3eacaec1cbf27767de78e690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 54/86] fix: almost_equal and diff compare vectors, sweeps, and
 computed variables

---
 gpkit/solution_array.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 0785b89..1875411 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -379,14 +379,21 @@ class SolutionArray(DictOfLists):
     def almost_equal(self, other, reltol=1e-3, sens_abstol=0.01):
         "Checks for almost-equality between two solutions"
         svars, ovars = self["variables"], other["variables"]
-        svks, ovks = set(svars), set(ovars)
-        if svks != ovks:
+        ssenss = self["sensitivities"]["variables"]
+        osenss = other["sensitivities"]["variables"]
+        if set(svars) != set(ovars):
             return False
-        for key in svks:
-            if abs(cast(np.divide, svars[key], ovars[key]) - 1) >= reltol:
+        for key in svars:
+            sval, oval = svars[key], ovars[key]
+            try:
+                rel_diff = abs(cast(np.divide, sval, oval) - 1)
+                absent_diff = cast(np.not_equal, sval != sval, oval != oval)  # pylint: disable=comparison-with-itself
+                senss_diff = abs(cast(sub, ssenss.get(key, 0),
+                                      osenss.get(key, 0)))
+            except ValueError:  # different numbers of solutions
                 return False
-            if abs(self["sensitivities"]["variables"][key]
-                   - other["sensitivities"]["variables"][key]) >= sens_abstol:
+            if (np.any(rel_diff >= reltol) or np.any(absent_diff)
+                    or np.any(senss_diff >= sens_abstol)):
                 return False
         return True
 
@@ -484,7 +491,7 @@ class SolutionArray(DictOfLists):
         if senssdiff:
             ssenss = self["sensitivities"]["variables"]
             osenss = other["sensitivities"]["variables"]
-            senss_delta = {vk: cast(sub, ssenss[vk], osenss[vk])
+            senss_delta = {vk: cast(sub, ssenss.get(vk, 0), osenss.get(vk, 0))
                            for vk in svks.intersection(ovks)}
             lines += var_table(senss_delta,
                                "Sensitivity Differences |above %g|" % sensstol,
-- 
2.43.0


From fac9c7b11f26142713d980fd6310a7fc3a21b7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:11 +0000
Subject: [PATCH 55/86] fix: comparing a solution with a sweep lines up
 vectors, and printing tables does not blank them

---
 gpkit/solution_array.py | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 1875411..6f63b2e 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -282,12 +282,16 @@ def unrolled_absmax(values):
     return finalval
 
 
-def cast(function, val1, val2):
-    "Relative difference between val1 and val2 (positive if val2 is larger)"
+def cast(function, val1, val2, *, swept=False):
+    """Applies a function to two values, which may have different dimensions.
+
+    The value with fewer is repeated along the last dimensions of the other
+    or, if only one is swept, along the first.
+    """
     with pywarnings.catch_warnings():  # skip those pesky divide-by-zeros
         pywarnings.simplefilter("ignore")
         if hasattr(val1, "shape") and hasattr(val2, "shape"):
-            if val1.ndim == val2.ndim:
+            if swept or val1.ndim == val2.ndim:
                 return function(val1, val2)
             lessdim, dimmest = sorted([val1, val2], key=lambda v: v.ndim)
             dimdelta = dimmest.ndim - lessdim.ndim
@@ -383,13 +387,16 @@ class SolutionArray(DictOfLists):
         osenss = other["sensitivities"]["variables"]
         if set(svars) != set(ovars):
             return False
+        swept = len(self) != len(other)
         for key in svars:
             sval, oval = svars[key], ovars[key]
             try:
-                rel_diff = abs(cast(np.divide, sval, oval) - 1)
-                absent_diff = cast(np.not_equal, sval != sval, oval != oval)  # pylint: disable=comparison-with-itself
+                rel_diff = abs(cast(np.divide, sval, oval, swept=swept) - 1)
+                # pylint: disable=comparison-with-itself
+                absent_diff = cast(np.not_equal, sval != sval, oval != oval,
+                                   swept=swept)
                 senss_diff = abs(cast(sub, ssenss.get(key, 0),
-                                      osenss.get(key, 0)))
+                                      osenss.get(key, 0), swept=swept))
             except ValueError:  # different numbers of solutions
                 return False
             if (np.any(rel_diff >= reltol) or np.any(absent_diff)
@@ -469,8 +476,10 @@ class SolutionArray(DictOfLists):
             lines.append("\n".join("  %s" % key for key in ovks - svks))
             lines.append("")
         sharedvks = svks.intersection(ovks)
+        swept = len(self) != len(other)
         if reldiff:
-            rel_diff = {vk: 100*(cast(np.divide, svars[vk], ovars[vk]) - 1)
+            rel_diff = {vk: 100*(cast(np.divide, svars[vk], ovars[vk],
+                                      swept=swept) - 1)
                         for vk in sharedvks}
             lines += var_table(rel_diff,
                                "Relative Differences |above %g%%|" % reltol,
@@ -480,7 +489,8 @@ class SolutionArray(DictOfLists):
                 lines.insert(-1, ("The largest is %+g%%."
                                   % unrolled_absmax(rel_diff.values())))
         if absdiff:
-            abs_diff = {vk: cast(sub, svars[vk], ovars[vk]) for vk in sharedvks}
+            abs_diff = {vk: cast(sub, svars[vk], ovars[vk], swept=swept)
+                        for vk in sharedvks}
             lines += var_table(abs_diff,
                                "Absolute Differences |above %g|" % abstol,
                                valfmt="%+.2g", vecfmt="%+8.2g",
@@ -491,7 +501,8 @@ class SolutionArray(DictOfLists):
         if senssdiff:
             ssenss = self["sensitivities"]["variables"]
             osenss = other["sensitivities"]["variables"]
-            senss_delta = {vk: cast(sub, ssenss.get(vk, 0), osenss.get(vk, 0))
+            senss_delta = {vk: cast(sub, ssenss.get(vk, 0), osenss.get(vk, 0),
+                                    swept=swept)
                            for vk in svks.intersection(ovks)}
             lines += var_table(senss_delta,
                                "Sensitivity Differences |above %g|" % sensstol,
@@ -805,7 +816,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
-            v[np.abs(v) <= minval] = np.nan
+            v = np.where(np.abs(v) <= minval, np.nan, v)
         model = lineagestr(k.lineage) if sortbymodel else ""
         msenss = -sortmodelsbysenss.get(model, 0) if sortmodelsbysenss else 0
         if hasattr(msenss, "shape"):
-- 
2.43.0


From b05916a871954f5c3e95f66f103c46db06ac2d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:09 +0000
Subject: [PATCH 56/86] fix: docstring tables declare exactly the variables
 their rows list

Labels keep their backslashes and quotes, rows and prose that merely end in
'Variables' or 'Constants' are not headers, rows contained in other rows do
not overwrite them, trailing spaces are allowed, values with commas and names
that are not identifiers are refused, bounds are read until the blank line,
and setup() may have annotations and multi-line strings.
---
 gpkit/tools/docstring.py | 152 +++++++++++++++++++++------------------
 1 file changed, 84 insertions(+), 68 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 5105ca7..1cc0643 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -18,13 +18,12 @@ def expected_unbounded(instance, doc):
             raise ValueError("multiple instances of %s" % flag)
 
         idx = doc.index(flag) + len(flag)
-        idx2 = doc[idx:].index("\n")
-        try:
-            idx3 = doc[idx:][idx2+1:].index("\n\n")
-        except ValueError:
-            idx3 = doc[idx:][idx2+1:].index("\n")
-        varstrs = doc[idx:][idx2+1:][:idx3].strip()
-        varstrs = varstrs.replace("\n", ", ")  # cross newlines
+        varlines = []
+        for line in doc[idx:].split("\n")[1:]:  # skips the underline
+            if not line.strip():  # whitespace only
+                break
+            varlines.append(line.strip().rstrip(","))
+        varstrs = ", ".join(varlines)  # cross newlines
         varstrs = re.sub(" +", " ", varstrs)   # multiple-whitespace removal
         if varstrs:
             for var in varstrs.split(", "):
@@ -78,31 +77,27 @@ parse_variables is no longer used directly with exec, but as a decorator:
 
     def __call__(self, function):  # pylint:disable=too-many-locals
         orig_lines, lineno = inspect.getsourcelines(function)
-        indent_length = 0
-        while orig_lines[1][indent_length] in [" ", "\t"]:
-            indent_length += 1
-        first_indent_length = indent_length
-        setup_lines = 1
-        while "):" not in orig_lines[setup_lines]:
-            setup_lines += 1
-        next_indented_idx = setup_lines + 1
-        # get the next indented line
-        while len(orig_lines[next_indented_idx]) <= indent_length + 1:
-            next_indented_idx += 1
-        while orig_lines[next_indented_idx][indent_length] in [" ", "\t"]:
-            indent_length += 1
-        second_indent = orig_lines[next_indented_idx][:indent_length]
-        parse_lines = [second_indent + line + "\n"
-                       for line in parse_varstring(self.string).split("\n")]
-        parse_lines += [second_indent + '# (@parse_variables spacer line)\n']
-        parse_lines += [second_indent + '# (setup spacer line)\n']*setup_lines
-        # make ast of these new lines, insert it into the original ast
-        new_lines = (orig_lines[1:setup_lines+1] + parse_lines
-                     + orig_lines[setup_lines+1:])
-        new_src = "\n".join([l[first_indent_length:-1] for l in new_lines
-                             if "#" not in l[:first_indent_length]])
-        new_ast = ast.parse(new_src, "<parse_variables>")
-        ast.increment_lineno(new_ast, n=lineno-len(parse_lines))
+        orig_src = "".join(orig_lines)
+        if orig_src[0] in " \t":  # a method, whose indentation is kept
+            orig_ast, = ast.parse("if True:\n" + orig_src).body
+            ast.increment_lineno(orig_ast, n=lineno-2)
+            function_ast, = orig_ast.body
+        else:
+            function_ast, = ast.parse(orig_src).body
+            ast.increment_lineno(function_ast, n=lineno-1)
+        # remove this decorator (and any that will be applied after it)
+        decorators = [ast.dump(d) for d in function_ast.decorator_list]
+        this = [i for i, d in enumerate(decorators) if "parse_variables" in d]
+        del function_ast.decorator_list[:this[0]+1 if this else 1]
+        # make ast of the declarations, numbering their lines as though their
+        # docstring were right above; insert it into the original ast
+        parsed_str = parse_varstring(self.string)
+        declarations = ast.parse(parsed_str, "<parse_variables>")
+        ast.increment_lineno(
+            declarations, n=max(lineno-2-parsed_str.count("\n"), 0))
+        has_docstring = ast.get_docstring(function_ast) is not None
+        function_ast.body[has_docstring:has_docstring] = declarations.body
+        new_ast = ast.Module([function_ast], [])
         code = compile(new_ast, inspect.getsourcefile(function), "exec",
                        dont_inherit=True)  # don't inherit __future__ from here
         out = {}
@@ -124,35 +119,44 @@ def parse_varstring(string):
     return "\n".join(out)
 
 
-def vv_declare(string, flag, idx2, countstr):
-    "Turns Variable declarations into VectorVariable ones"
-    length = string[len(flag):idx2].strip()
-    return countstr.replace("Variable(", "VectorVariable(%s, " % length)
+def vv_declare(length, declaration):
+    "Turns a Variable declaration into a VectorVariable one"
+    return declaration.replace("Variable(", "VectorVariable(%s, " % length, 1)
 
 
 # pylint: disable=unused-argument
-def constant_declare(string, flag, idx2, countstr):
-    "Turns Variable declarations into Constant ones"
-    return countstr.replace("')", "', constant=True)")
+def constant_declare(length, declaration):
+    "Turns a Variable declaration into a Constant one"
+    return declaration[:declaration.rindex(")")] + ", constant=True)\n"
+
+
+def is_underline(line):
+    "Whether the line contains only dashes (or the like) and whitespace"
+    return bool(line.strip()) and not line.strip().strip("-=~")
 
 
 # pylint: disable=too-many-locals
 def check_and_parse_flag(string, flag, declaration_func=None):
-    "Checks for instances of flag in string and parses them."
+    """Checks for tables whose header ends in flag, and parses them.
+
+    A header is an underlined line ending in flag (and, if the flag is not the
+    end of its line, the length of the vectors in that table).
+    """
     overallstr = ""
-    originalstr = string
     lineidxs = []
-    for _ in range(string.count(flag)):
-        countstr = ""
-        idx = string.index(flag)
-        string = string[idx:]
-        if idx == -1:
-            idx = 0
-            skiplines = 0
+    lines = string.split("\n")
+    for headidx, header in enumerate(lines[:-1]):
+        if not is_underline(lines[headidx+1]):
+            continue
+        if flag.endswith("\n"):
+            if not header.rstrip().endswith(flag.strip()):
+                continue
+            length = None
+        elif flag in header:
+            length = header[header.index(flag) + len(flag):].strip()
         else:
-            skiplines = 2
-        idx2 = 0 if "\n" in flag else string.index("\n")
-        for line in string[idx2:].split("\n")[skiplines:]:
+            continue
+        for idx, line in enumerate(lines[headidx+2:], headidx+2):
             if not line.strip():  # whitespace only
                 break
             try:
@@ -162,24 +166,27 @@ def check_and_parse_flag(string, flag, declaration_func=None):
                                  " not found on the line reading:\n"
                                  "    %s" % line)
             nameval = line[:line.index("[")].split()
-            labelstart = line.index("]") + 1
-            if labelstart >= len(line):
-                label = ""
-            else:
-                while line[labelstart] == " ":
-                    labelstart += 1
-                label = line[labelstart:].replace("'", "\\'")
-            countstr += variable_declaration(nameval, units, label, line)
+            label = line[line.index("]") + 1:].lstrip(" ")
+            declaration = variable_declaration(nameval, units, label, line)
+            if declaration_func is not None:
+                declaration = declaration_func(length, declaration)
+            overallstr += declaration
             # note that this is a 0-based line indexing
-            lineidxs.append(originalstr[:originalstr.index(line)].count("\n"))
-        if declaration_func is None:
-            overallstr += countstr
-        else:
-            overallstr += declaration_func(string, flag, idx2, countstr)
-        string = string[idx2+len(flag):]
+            lineidxs.append(idx)
     return overallstr, lineidxs
 
 
+def is_one_expression(string):
+    "Whether string would be exactly one argument of a function call"
+    try:
+        call = ast.parse("f(%s)" % string, mode="eval").body
+    except SyntaxError:
+        return False
+    return (isinstance(call, ast.Call) and isinstance(call.func, ast.Name)
+            and len(call.args) == 1 and not call.keywords
+            and not isinstance(call.args[0], (ast.Starred, ast.GeneratorExp)))
+
+
 PARSETIP = ("Is this line following the format `Name (optional Value) [Units]"
             " (Optional Description)` without any whitespace in the Name or"
             " Value fields?")
@@ -192,10 +199,19 @@ def variable_declaration(nameval, units, label, line, errorcatch=True):
                          " (separated by whitespace) were found between Value"
                          " '%s' and the Units `%s`. %s"
                          % (line, nameval[1], units, PARSETIP))
+    if not nameval or not nameval[0].isidentifier():
+        raise ValueError("while parsing the line '%s', a Name that can be"
+                         " assigned to was not found before the Units `%s`. %s"
+                         % (line, units, PARSETIP))
     if len(nameval) == 2:
-        out = ("{0} = self.{0} = Variable('{0}', {1}, '{2}', '{3}')")
+        if not is_one_expression(nameval[1]):
+            raise ValueError("while parsing the line '%s', the Value '%s'"
+                             " before the Units `%s` was not one Python"
+                             " expression. %s"
+                             % (line, nameval[1], units, PARSETIP))
+        out = "{0} = self.{0} = Variable({0!r}, {1}, {2!r}, {3!r})"
         out = out.format(nameval[0], nameval[1], units, label)
-    elif len(nameval) == 1:
-        out = ("{0} = self.{0} = Variable('{0}', '{1}', '{2}')")
+    else:
+        out = "{0} = self.{0} = Variable({0!r}, {1!r}, {2!r})"
         out = out.format(nameval[0], units, label)
     return out + "\n"
-- 
2.43.0


From 594be8f779e2920bc4dd699b76618a2ea7bf67e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:46 +0000
Subject: [PATCH 57/86] fix: missing bounds are found though the docstring
 declares variables outside the model

---
 gpkit/constraints/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 8d349af..ddd9d3c 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -110,12 +110,11 @@ class Model(CostedConstraintSet):
             self.missingbounds[bound] = (", but would gain it from any of"
                                          " these sets of bounds: " + bsets)
         # then add everything that's not in bounded
-        if len(bounded)+len(self.missingbounds) != 2*len(self.varkeys):
-            for key in self.varkeys:
-                for bound in ("upper", "lower"):
-                    if (key, bound) not in bounded:
-                        if (key, bound) not in self.missingbounds:
-                            self.missingbounds[(key, bound)] = ""
+        for key in self.vks:
+            for bound in ("upper", "lower"):
+                if (key, bound) not in bounded:
+                    if (key, bound) not in self.missingbounds:
+                        self.missingbounds[(key, bound)] = ""
         if self.missingbounds:  # anything unbounded? err!
             boundstrs = "\n".join("  %s has no %s bound%s" % (v, b, x)
                                   for (v, b), x
-- 
2.43.0


From bb40d236531468ba49f8fa7cae7fb19efd650576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 58/86] fix: printed products, powers, reductions and slices of
 expressions keep their parentheses

---
 gpkit/repr_conventions.py | 64 +++++++++++++++++++++++++--------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 1f07615..2cbcdb8 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -5,7 +5,7 @@ import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
-INSIDE_PARENS = re.compile(r"\(.*\)")
+INNERMOST_PARENS = re.compile(r"\([^()]*\)")
 
 if sys.platform[:3] == "win":  # pragma: no cover
     MUL = "*"
@@ -17,6 +17,7 @@ else:  # pragma: no cover
     PI_STR = "π"
     UNICODE_EXPONENTS = True
     UNIT_FORMATTING = ":P~"
+SUPERSCRIPTS = tuple("²³⁴⁵⁶⁷⁸⁹")
 
 def lineagestr(lineage, modelnums=True):
     "Returns properly formatted lineage string"
@@ -70,16 +71,37 @@ def strify(val, excluded):
     return val
 
 
-def parenthesize(string, addi=True, mult=True):
+def outside_parens(string):
+    "The parts of a string which are not within parentheses"
+    while True:
+        stripped = INNERMOST_PARENS.sub("", string)
+        if stripped == string:
+            return string
+        string = stripped
+
+
+def parenthesize(string, addi=True, mult=True, sign=False, expo=False):
     "Parenthesizes a string if it needs it and isn't already."
-    parensless = string if "(" not in string else INSIDE_PARENS.sub("", string)
+    parensless = outside_parens(string)
     bare_addi = (" + " in parensless or " - " in parensless)
-    bare_mult = ("·" in parensless or "/" in parensless)
-    if parensless and (addi and bare_addi) or (mult and bare_mult):
+    bare_mult = (MUL in parensless or "/" in parensless)
+    bare_sign = parensless.startswith("-")
+    bare_expo = ("^" in parensless
+                 or (expo == "any" and parensless[-1:] in SUPERSCRIPTS))
+    if parensless and ((addi and bare_addi) or (mult and bare_mult)
+                       or (sign and bare_sign) or (expo and bare_expo)):
         return "(%s)" % string
     return string
 
 
+def slicestr(idx):
+    "Turns a slice into the string that would index with it."
+    start = "" if not idx.start else idx.start
+    stop = "" if idx.stop is None or idx.stop >= sys.maxsize else idx.stop
+    step = "" if idx.step is None else ":%s" % idx.step
+    return "%s:%s%s" % (start, stop, step)
+
+
 class ReprMixin:
     "This class combines various printing methods for easier adoption."
     lineagestr = lineagestr
@@ -89,7 +111,7 @@ class ReprMixin:
     cached_strs = None
     ast = None
     # pylint: disable=too-many-branches, too-many-statements
-    def parse_ast(self, excluded=("units")):
+    def parse_ast(self, excluded=("units",)):
         "Turns the AST of this object's construction into a faithful string"
         if self.cached_strs is None:
             self.cached_strs = {}
@@ -125,7 +147,8 @@ class ReprMixin:
         elif oper == "neg":
             aststr = "-%s" % parenthesize(strify(values, excluded), mult=False)
         elif oper == "pow":
-            left = parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded),
+                                sign=True, expo="any")
             x = values[1]
             if left == "1":
                 aststr = "1"
@@ -139,11 +162,13 @@ class ReprMixin:
             else:
                 aststr = "%s^%s" % (left, x)
         elif oper == "prod":  # TODO: only do if it makes a shorter string
-            aststr = "%s.prod()" % parenthesize(strify(values[0], excluded))
+            aststr = "%s.prod()" % parenthesize(
+                strify(values[0], excluded), sign=True, expo=True)
         elif oper == "sum":  # TODO: only do if it makes a shorter string
-            aststr = "%s.sum()" % parenthesize(strify(values[0], excluded))
+            aststr = "%s.sum()" % parenthesize(
+                strify(values[0], excluded), sign=True, expo=True)
         elif oper == "index":  # TODO: label vectorization idxs
-            left = parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded), expo=True)
             idx = values[1]
             if left[-3:] == "[:]":  # pure variable access
                 left = left[:-3]
@@ -151,23 +176,18 @@ class ReprMixin:
                 elstrs = []
                 for el in idx:
                     if isinstance(el, slice):
-                        start = el.start or ""
-                        stop = (el.stop if el.stop and el.stop < sys.maxsize
-                                else "")
-                        step = ":%s" % el.step if el.step is not None else ""
-                        elstrs.append("%s:%s%s" % (start, stop, step))
-                    elif isinstance(el, Numbers):
-                        elstrs.append("%s" % el)
+                        elstrs.append(slicestr(el))
+                    else:
+                        elstrs.append("..." if el is Ellipsis else "%s" % el)
                 idx = ",".join(elstrs)
             elif isinstance(idx, slice):
-                start = idx.start or ""
-                stop = idx.stop if idx.stop and idx.stop < 1e6 else ""
-                step = ":%s" % idx.step if idx.step is not None else ""
-                idx = "%s:%s%s" % (start, stop, step)
+                idx = slicestr(idx)
             aststr = "%s[%s]" % (left, idx)
         else:
             raise ValueError(oper)
-        self.cached_strs[frozenset(excluded)] = aststr
+        if "unnecessary lineage" not in excluded:
+            # ...which lineage is unnecessary differs from model to model
+            self.cached_strs[frozenset(excluded)] = aststr
         return aststr
 
     def __repr__(self):
-- 
2.43.0


From 18146ba5ffa7a0ff97b07d614dfd5201cb2606ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 59/86] fix: elements of same-named vectors of different models
 print with their models' names

---
 gpkit/constraints/set.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 47850fc..71b4385 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -204,9 +204,15 @@ class ConstraintSet(list, ReprMixin):
     def name_collision_varkeys(self):
         "Returns the set of contained varkeys whose names are not unique"
         if self._name_collision_varkeys is None:
-            self._name_collision_varkeys = {
-                key for key in self.varkeys
-                if len(self.varkeys[key.str_without(["lineage", "vec"])]) > 1}
+            self._name_collision_varkeys = set()
+            samename = defaultdict(set)
+            for key in self.varkeys:
+                samename[key.str_without(["lineage", "vec"])].add(key)
+            for keys in samename.values():
+                if len(keys) > 1:
+                    self._name_collision_varkeys.update(keys)
+                    self._name_collision_varkeys.update(
+                        key.veckey for key in keys if key.veckey)
         return self._name_collision_varkeys
 
     def lines_without(self, excluded):
-- 
2.43.0


From 0a6210d59236cf840f289887e3fc970558845e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 60/86] fix: latex keeps coefficients near one

---
 gpkit/nomials/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/gpkit/nomials/core.py b/gpkit/nomials/core.py
index 9ab109c..1a65409 100644
--- a/gpkit/nomials/core.py
+++ b/gpkit/nomials/core.py
@@ -13,14 +13,12 @@ def nomial_latex_helper(c, pos_vars, neg_vars):
                 for (varl, x) in neg_vars]
     pvarstr = " ".join(sorted(pvarstrs))
     nvarstr = " ".join(sorted(nvarstrs))
-    cstr = "%.2g" % c
+    cstr = "%.4g" % c
     if pos_vars and cstr in ["1", "-1"]:
         cstr = cstr[:-1]
-    else:
-        cstr = "%.4g" % c
-        if "e" in cstr:  # use exponential notation
-            idx = cstr.index("e")
-            cstr = "%s \\times 10^{%i}" % (cstr[:idx], int(cstr[idx+1:]))
+    elif "e" in cstr:  # use exponential notation
+        idx = cstr.index("e")
+        cstr = "%s \\times 10^{%i}" % (cstr[:idx], int(cstr[idx+1:]))
 
     if pos_vars and neg_vars:
         return "%s\\frac{%s}{%s}" % (cstr, pvarstr, nvarstr)
-- 
2.43.0


From 86d2225daf2fb8c076fbb7623be0044b635f8621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:18 +0000
Subject: [PATCH 61/86] fix: signomial constraints that cannot hold say so when
 made

---
 gpkit/nomials/math.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d6cb118..f888928 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -669,6 +669,9 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         "Returns GP-compatible approximation at x0"
         siglt0, = self.unsubbed
         posy, negy = siglt0.posy_negy()
+        if negy is 0:  # pylint: disable=literal-comparison
+            raise PrimalInfeasible("%s is the infeasible constraint %s <= 0."
+                                   % (self, posy))
         # default guess of 1.0 for unspecified negy variables
         x0 = {vk: x0.get(vk, 1) for vk in negy.vks}
         pconstr = PosynomialInequality(posy, "<=", negy.mono_lower_bound(x0),
@@ -693,6 +696,9 @@ class SingleSignomialEquality(SignomialInequality):
         "Returns GP-compatible approximation at x0"
         siglt0, = self.unsubbed
         posy, negy = siglt0.posy_negy()
+        if posy is 0 or negy is 0:  # pylint: disable=literal-comparison
+            raise PrimalInfeasible("%s is the infeasible constraint %s = %s."
+                                   % (self, posy, negy))
         # default guess of 1.0 for unspecified negy variables
         x0 = {vk: x0.get(vk, 1) for vk in siglt0.vks}
         mec = MonomialEquality(posy.mono_lower_bound(x0),
-- 
2.43.0


From fa3ee7ab4e5365bd5fa73bc601a5454a4d49e467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 62/86] fix: variables evaluated from solutions may use each
 other, in any order

---
 gpkit/constraints/set.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 71b4385..ebaae11 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -189,9 +189,19 @@ class ConstraintSet(list, ReprMixin):
                 constraint.process_result(result)
         evalfn_vars = {v.veckey or v for v in self.unique_varkeys
                        if v.evalfn and v not in result["variables"]}
-        for v in evalfn_vars:
-            val = v.evalfn(result["variables"])
-            result["variables"][v] = result["freevariables"][v] = val
+        stuck = False  # whether none of the evalfn_vars could be evaluated
+        while evalfn_vars:
+            n_waiting = len(evalfn_vars)
+            for v in list(evalfn_vars):
+                try:
+                    val = v.evalfn(result["variables"])
+                except KeyError:
+                    if stuck:
+                        raise
+                    continue  # it may use another of the evalfn_vars
+                result["variables"][v] = result["freevariables"][v] = val
+                evalfn_vars.remove(v)
+            stuck = len(evalfn_vars) == n_waiting
 
     def __repr__(self):
         "Returns namespaced string."
-- 
2.43.0


From 0d37f8880debc01960d8765a736a942142b94aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 63/86] fix: links returning quantities that cannot be
 differentiated keep their value, in their variable's units

---
 gpkit/constraints/prog_factories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 15b428d..b8c8c9d 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -4,7 +4,7 @@ import numpy as np
 from ad import adnumber
 from ..nomials import parse_subs
 from ..solution_array import SolutionArray
-from ..keydict import KeyDict
+from ..keydict import KeyDict, clean_value
 from ..small_scripts import maybe_flatten
 from ..exceptions import Infeasible
 
@@ -47,7 +47,7 @@ def evaluate_linked(constants, linked):
                       " %s because %s was raised. Set `gpkit.settings"
                       "[\"ad_errors_raise\"] = True` to raise such Exceptions"
                       " directly.\n" % (v, repr(exception)))
-                constants[v] = f(KeyDict(constants))
+                constants[v] = clean_value(v, f(KeyDict(constants)))
                 v.descr.pop("gradients", None)
                 out = adnumber(maybe_flatten(constants[v]), v)
             kdc[v] = out
-- 
2.43.0


From 0da23f3426ac804c6955e2f1fe98c9cefc8a641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:22 +0000
Subject: [PATCH 64/86] fix: add nomials whose units are dimensionless to those
 without units

---
 gpkit/nomials/map.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 0d5f486..7e63b1c 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -2,7 +2,6 @@
 from collections import defaultdict
 import numpy as np
 from .. import units
-from ..exceptions import DimensionalityError
 from ..small_classes import HashVector, Strings, qty, EMPTY_HV
 from .substitution import parse_subs
 
@@ -55,10 +54,8 @@ class NomialMap(HashVector):
     def __add__(self, other):
         "Adds NomialMaps together"
         if self.units != other.units:
-            try:
-                other *= float(other.units/self.units)
-            except (TypeError, AttributeError):  # if one of those is None
-                raise DimensionalityError(self.units, other.units)
+            other *= float((other.units or DIMLESS_QUANTITY)
+                           / (self.units or DIMLESS_QUANTITY))
         hmap = HashVector.__add__(self, other)
         hmap.units = self.units
         for exp in [exp for exp, c in hmap.items() if not c]:
-- 
2.43.0


From e0d6fbd768ef8e65dcc4684663a6f22b33764714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:51 +0000
Subject: [PATCH 65/86] fix: derivatives lost the factor between units of the
 same kind

---
 gpkit/nomials/map.py  | 9 +++++++--
 gpkit/nomials/math.py | 8 +-------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 7e63b1c..a29bf91 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -67,8 +67,6 @@ class NomialMap(HashVector):
     def diff(self, varkey):
         "Differentiates a NomialMap with respect to a varkey"
         out = NomialMap()
-        out.units_of_product(self.units,
-                             1/varkey.units if varkey.units else None)
         for exp in self:
             if varkey in exp:
                 x = exp[varkey]
@@ -81,6 +79,13 @@ class NomialMap(HashVector):
                     exp.hashvalue ^= hash((varkey, x)) ^ hash((varkey, x-1))
                     exp[varkey] = x-1
                 out[exp] = c
+        if not out:  # make sure it's never an empty hmap
+            out[EMPTY_HV] = 0.0
+        # left unsimplified, because converting units scales coefficients
+        out_units = ((self.units or DIMLESS_QUANTITY)
+                     / (varkey.units or DIMLESS_QUANTITY))
+        if out_units.units != DIMLESS_QUANTITY.units:
+            out.units = qty(out_units.units)
         return out
 
     def sub(self, substitutions, varkeys, parsedsubs=False):
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index f888928..efd5342 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -76,13 +76,7 @@ class Signomial(Nomial):
         -------
         Signomial (or Posynomial or Monomial)
         """
-        var = var.key
-        if var not in self.vks:
-            diff = NomialMap({EMPTY_HV: 0.0})
-            diff.units = None
-        else:
-            diff = self.hmap.diff(var)
-        return Signomial(diff, require_positive=False)
+        return Signomial(self.hmap.diff(var.key), require_positive=False)
 
     def posy_negy(self):
         """Get the positive and negative parts, both as Posynomials
-- 
2.43.0


From 0f5d64d74428aa1987f64c3167b85eba3b28f560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:56 +0000
Subject: [PATCH 66/86] fix: sums of arrays starting with a Quantity had a unit
 that was not one of a nomial

---
 gpkit/nomials/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 25bfbd0..43edda2 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV
+from ..small_classes import HashVector, EMPTY_HV, qty
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -155,7 +155,7 @@ class NomialArray(ReprMixin, np.ndarray):
         hmap = NomialMap()
         for p in self.flat:  # pylint:disable=not-an-iterable
             if not hmap and hasattr(p, "units"):
-                hmap.units = p.units
+                hmap.units = p.units if hasattr(p, "hmap") else qty(p.units)
             if hasattr(p, "hmap"):
                 hmap += p.hmap
             else:
-- 
2.43.0


From a58373c767ee26889f84a6c386d391ec418066bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 67/86] fix: reports of several Bounded sets with the same
 bounds replaced each other

---
 gpkit/constraints/bounded.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/bounded.py b/gpkit/constraints/bounded.py
index 3fbb5a6..982b412 100644
--- a/gpkit/constraints/bounded.py
+++ b/gpkit/constraints/bounded.py
@@ -72,7 +72,9 @@ class Bounded(ConstraintSet):
         super().process_result(result)
         if "boundedness" not in result:
             result["boundedness"] = {}
-        result["boundedness"].update(self.check_boundaries(result))
+        for bound, vks in self.check_boundaries(result).items():
+            # other Bounded sets may have reported on the same bound
+            result["boundedness"].setdefault(bound, set()).update(vks)
 
     def check_boundaries(self, result):
         "Creates (and potentially prints) a dictionary of unbounded variables."
-- 
2.43.0


From 6721dc0bf4b7a289d18835d4e684ca63bc5ce213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:49 +0000
Subject: [PATCH 68/86] fix: relaxed constants of equal names lost all but one
 of their constraints

---
 gpkit/constraints/relax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 6fb6da7..a3b1076 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -203,9 +203,11 @@ class ConstantsRelaxed(ConstraintSet):
             self._derelax_map[newconst.key] = const
             # add constraints so the newly freed's wiggle room
             # is proportional to the value relaxvar, and it can't antirelax
-            relaxation_constraints[str(const)] = [relaxvar >= 1,
-                                                  newconst/relaxvar <= freed,
-                                                  freed <= newconst*relaxvar]
+            # (constants with different units may have the same name)
+            relaxation_constraints.setdefault(str(const), []).extend([
+                relaxvar >= 1,
+                newconst/relaxvar <= freed,
+                freed <= newconst*relaxvar])
         ConstraintSet.__init__(self, {
             "original constraints": constraints,
             "relaxation constraints": relaxation_constraints})
-- 
2.43.0


From 29b4c555b807ec68306a1fd339a41ac4f8491729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:32 +0000
Subject: [PATCH 69/86] fix: relaxed constants of equal names shared one
 relaxation variable

---
 gpkit/constraints/relax.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index a3b1076..86a7b0e 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -191,6 +191,10 @@ class ConstantsRelaxed(ConstraintSet):
             relaxedd = newconstd.copy()
             relaxedd["unitrepr"] = "-"  # and unitless, importantly
             relaxvar = Variable(VarKey(**relaxedd))
+            while any(relaxvar.key == r.key for r in relaxvars):
+                # another constant differs from this one only in its units
+                relaxedd["lineage"] += (self.lineage[-1],)
+                relaxvar = Variable(VarKey(**relaxedd))
             relaxvars.append(relaxvar)
             # the newly freed const can acquire a new value
             del substitutions[const]
-- 
2.43.0


From ee161c68b72a88acf30c45881193a2c7faf56054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:47 +0000
Subject: [PATCH 70/86] fix: don't cut a model's name out of variables' names
 in constraint tables

---
 gpkit/solution_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 6f63b2e..36414ad 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -188,7 +188,9 @@ def constraint_table(data, title, sortbymodel=True, showmodels=True, **_):
             if model or lines:
                 lines.append([("newmodelline",), model])
             previous_model = model
-        constrstr = constrstr.replace(model, "")
+        if model:  # which the constraint's variables needn't repeat
+            constrstr = re.sub(r"(?<![\w.])%s(?=\.)" % re.escape(model), "",
+                               constrstr)
         minlen, maxlen = 25, 80
         segments = [s for s in CONSTRSPLITPATTERN.split(constrstr) if s]
         constraintlines = []
-- 
2.43.0


From 2d982a5253964a640a70dbb1110c6b6d761df495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:47 +0000
Subject: [PATCH 71/86] fix: print each line of a table's arrays along one
 dimension

---
 gpkit/solution_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 36414ad..d3ff861 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -870,8 +870,8 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
                 if ncols <= dim_size <= maxcolumns:
                     horiz_dim, ncols = dim_idx, dim_size
             # align the array with horiz_dim by making it the last one
-            dim_order = list(range(last_dim_index))
-            dim_order.insert(horiz_dim, last_dim_index)
+            dim_order = list(range(last_dim_index + 1))
+            dim_order.append(dim_order.pop(horiz_dim))
             flatval = val.transpose(dim_order).flatten()
             vals = [vecfmt % v for v in flatval[:ncols]]
             bracket = " ] " if len(flatval) <= ncols else ""
-- 
2.43.0


From 0a4e6bdd7dbaaa8e5d232018ac1d3d55ce1641c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 72/86] fix: looking for a variable that isn't there made it
 seem to be

---
 gpkit/keydict.py        | 2 +-
 gpkit/solution_array.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 32a6d7e..714614f 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -303,4 +303,4 @@ class KeySet(KeyMap, set):
     def __getitem__(self, key):
         "Gets the keys corresponding to a particular key."
         key, _ = self.parse_and_index(key)
-        return self.keymap[key]
+        return self.keymap.get(key, set())  # without adding a blank entry
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index d3ff861..1248ba6 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -664,7 +664,7 @@ class SolutionArray(DictOfLists):
         showvars_out = set()
         for k in showvars:
             k, _ = self["variables"].parse_and_index(k)
-            keys = self["variables"].keymap[k]
+            keys = self["variables"].keymap.get(k, ())
             showvars_out.update(keys)
         return showvars_out
 
-- 
2.43.0


From fb8c4e2d333af4db38f26df8c665b00a5829fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:32 +0000
Subject: [PATCH 73/86] fix: list selected variables that only diff's argument
 has

---
 gpkit/solution_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 1248ba6..6db510b 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -453,7 +453,9 @@ class SolutionArray(DictOfLists):
         if showvars:
             lines[0] += " (for selected variables)"
             lines[1] += "========================="
-            showvars = self._parse_showvars(showvars)
+            # pylint: disable=protected-access
+            showvars = (self._parse_showvars(showvars)
+                        | other._parse_showvars(showvars))
             svks = {k for k in showvars if k in svars}
             ovks = {k for k in showvars if k in ovars}
         if constraintsdiff and other.modelstr and self.modelstr:
-- 
2.43.0


From 61c118325f8b93616d84fb7df3af2421b9b04454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:07 +0000
Subject: [PATCH 74/86] fix: Sankey diagrams of a variable, with constraints
 not in the program

---
 gpkit/interactive/sankey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 24c7f28..d3e65b9 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -122,7 +122,7 @@ class Sankey:
                 total_sens = -abs(self.csenss[cset]) or -EPS
             elif var is not None:
                 if cset.v_ss is None:
-                    if var.key in cset.varkeys:
+                    if var.key in cset.vks:
                         total_sens = EPS
                 elif var.key in cset.v_ss:
                     total_sens = cset.v_ss[var.key] or EPS
-- 
2.43.0


From 1e744cdb1e028a5e6a595d692fb5e7e8e40540a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:07 +0000
Subject: [PATCH 75/86] fix: each Sankey diagram has only its own links

---
 gpkit/interactive/sankey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index d3e65b9..7863e78 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -149,6 +149,9 @@ class Sankey:
                 showconstraints=True):
         "creates links and an ipython widget to show them"
         margins = dict(top=top, bottom=bottom, left=left, right=right)
+        if self.nodes:  # of another diagram, whose callbacks still use them
+            # pylint: disable=self-cls-assignment
+            self = self.__class__(self.solution, self.cset, self.csetlabel)
         self.minsenss = minsenss
         self.maxlinks = maxlinks
         self.showconstraints = showconstraints
-- 
2.43.0


From a184971ebee6d3599251e0c0b791264607ed4547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:07 +0000
Subject: [PATCH 76/86] fix: fixed variables of labeled models were left out of
 Sankey diagrams

---
 gpkit/interactive/sankey.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 7863e78..2ac98b3 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -94,8 +94,9 @@ class Sankey:
         "adds links of a given constraint set to self.links"
         total_sens = 0
         switchedtarget = False
-        if not labeled and isnamedmodel(cset):
-            if cset is not self.cset:  # top-level, no need to switch targets
+        if isnamedmodel(cset):
+            # if top-level or labeled, no need to switch targets
+            if cset is not self.cset and not labeled:
                 switchedtarget = target
                 target = self.add_node(target, cset.lineage[-1][0])
             if var is None:
-- 
2.43.0


From 124aed90b3c3579d8c4cb811859be21eefa6ea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:26 +0000
Subject: [PATCH 77/86] fix: the top 0 sensitivities were all of them

---
 gpkit/solution_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 6db510b..52a1d05 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -121,7 +121,8 @@ def topsenss_filter(data, showvars, nvars=5):
         topk.remove(k)
         if nvars > 3:  # always show at least 3
             nvars -= 1
-    return {k: data[k] for k in topk[-nvars:]}, filter_already_shown
+    topk = topk[-nvars:] if nvars else []
+    return {k: data[k] for k in topk}, filter_already_shown
 
 
 def insenss_table(data, _, maxval=0.1, **kwargs):
-- 
2.43.0


From a97ff871996a41bceed4f2ecc716a93036c6b927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:49 +0000
Subject: [PATCH 78/86] fix: nomials and "cost" could not be plotted over a
 sweep

---
 gpkit/solution_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 52a1d05..7626159 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -766,7 +766,7 @@ class SolutionArray(DictOfLists):
         "Plots a sweep for each posy"
         if len(self["sweepvariables"]) != 1:
             print("SolutionArray.plot only supports 1-dimensional sweeps")
-        if not hasattr(posys, "__len__"):
+        if isinstance(posys, Strings) or not hasattr(posys, "__len__"):
             posys = [posys]
         import matplotlib.pyplot as plt
         from .interactive.plot_sweep import assign_axes
@@ -775,6 +775,8 @@ class SolutionArray(DictOfLists):
         posys, axes = assign_axes(swept, posys, axes)
         for posy, ax in zip(posys, axes):
             y = self(posy) if posy not in [None, "cost"] else self["cost"]
+            if isinstance(y, NomialArray):  # posy was substituted into
+                y = np.reshape([mag(yi.value) for yi in y.flat], y.shape)
             ax.plot(x, y, color=GPBLU)
         if len(axes) == 1:
             axes, = axes
-- 
2.43.0


From 0c073424cda4515f6ff11353ec6f8aa81ced2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:02 +0000
Subject: [PATCH 79/86] fix: plotting an autosweep changed the list it was
 given

---
 gpkit/tools/autosweep.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index c4cca3d..d46615e 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -2,7 +2,7 @@
 from time import time
 from contextlib import contextmanager
 import numpy as np
-from ..small_classes import Count
+from ..small_classes import Count, Strings
 from ..keydict import KeyDict
 from ..small_scripts import mag
 from ..solution_array import SolutionArray
@@ -218,11 +218,10 @@ class SolutionOracle:
         import matplotlib.pyplot as plt
         from ..interactive.plot_sweep import assign_axes
         from .. import GPBLU
-        if not hasattr(posys, "__len__"):
+        if isinstance(posys, Strings) or not hasattr(posys, "__len__"):
             posys = [posys]
-        for i, posy in enumerate(posys):
-            if posy in [None, "cost"]:
-                posys[i] = self.bst.costposy
+        posys = [self.bst.costposy if posy in [None, "cost"] else posy
+                 for posy in posys]
         posys, axes = assign_axes(self.bst.sweptvar, posys, axes)
         for posy, ax in zip(posys, axes):
             if self._is_cost(posy):  # with small tol should look like a line
-- 
2.43.0


From 80c87720ea8de505ed8ff420ebdc3d0f28d80f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 80/86] fix: plot_1dsweepgrid failed for names, costs and
 unsubstituted variables

---
 gpkit/interactive/plot_sweep.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index a2d34fe..8118543 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -1,11 +1,12 @@
 "Implements plot_sweep1d function"
 import matplotlib.pyplot as plt
+from ..small_classes import Strings
 from ..exceptions import InvalidGPConstraint
 
 
 def assign_axes(var, posys, axes):
     "Assigns axes to posys, creating and formatting if necessary"
-    if not hasattr(posys, "__iter__"):
+    if isinstance(posys, Strings) or not hasattr(posys, "__iter__"):
         posys = [posys]
     N = len(posys)
     if axes is None:
@@ -22,7 +23,9 @@ def format_and_label_axes(var, posys, axes, ylabel=True):
     "Formats and labels axes"
     for posy, ax in zip(posys, axes):
         if ylabel:
-            if hasattr(posy, "key"):
+            if posy is None:
+                ylabel = "cost"
+            elif hasattr(posy, "key"):
                 ylabel = (posy.key.descr.get("label", posy.key.name)
                           + " [%s]" % posy.key.unitstr(dimless="-"))
             else:
@@ -63,7 +66,7 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
             origsol = model.solve(**solveargs)
         except InvalidGPConstraint:
             origsol = model.localsolve(**solveargs)
-    if not hasattr(posys, "__iter__"):
+    if isinstance(posys, Strings) or not hasattr(posys, "__iter__"):
         posys = [posys]
 
     N, S = len(posys), len(sweeps)
@@ -88,10 +91,12 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
             subaxes = axes[:, i]
 
         sol.plot(posys, subaxes)
-        if origsubs:
+        if swept in origsubs:
             for posy, ax in zip(posys, subaxes):
-                ax.plot(origsubs[swept], origsol(posy), "ko", markersize=4)
-        format_and_label_axes(swept, posys, subaxes, ylabel=(i == 0))
+                y = (origsol["cost"] if posy in [None, "cost"]
+                     else origsol(posy))
+                ax.plot(origsubs[swept], y, "ko", markersize=4)
+        format_and_label_axes(model[swept], posys, subaxes, ylabel=(i == 0))
         model.substitutions.update(origsubs)
 
     return f, axes
-- 
2.43.0


From 669ff9ef1e10228c20dd877fdff64c6fc775cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:49 +0000
Subject: [PATCH 81/86] fix: compare split names as long as its list of models
 into letters

---
 gpkit/interactive/plotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/interactive/plotting.py b/gpkit/interactive/plotting.py
index ee2d6b5..4c18b40 100644
--- a/gpkit/interactive/plotting.py
+++ b/gpkit/interactive/plotting.py
@@ -2,6 +2,7 @@
 import matplotlib.pyplot as plt
 import numpy as np
 from .plot_sweep import assign_axes
+from ..small_classes import Strings
 from .. import GPCOLORS
 
 
@@ -21,7 +22,8 @@ def compare(models, sweeps, posys, tol=0.001):
     posys, axes = assign_axes(sols[0].bst.sweptvar, posys, None)
     for posy, ax in zip(posys, axes):
         for i, sol in enumerate(sols):
-            if hasattr(posy, "__len__") and len(posy) == len(sols):
+            if (hasattr(posy, "__len__") and len(posy) == len(sols)
+                    and not isinstance(posy, Strings)):
                 p = posy[i]
             else:
                 p = posy
-- 
2.43.0


From 1d896e83dd477894042269cb48f257c7ce191356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:55 +0000
Subject: [PATCH 82/86] fix: arrays lost the units of quantities in products,
 quotients and comparisons

---
 gpkit/nomials/array.py    | 25 +++++++++++++++++++------
 gpkit/repr_conventions.py |  2 +-
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 43edda2..ed51d06 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV, qty
+from ..small_classes import HashVector, EMPTY_HV, Quantity, qty
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -21,6 +21,16 @@ def vec_recurse(element, function, *args, **kwargs):
     return function(element, *args, **kwargs)
 
 
+def with_units(other):
+    "Returns quantities as object arrays, which keep each element's units."
+    if not isinstance(other, Quantity):
+        return other
+    values = np.array(other.magnitude)
+    out = np.empty(values.shape, dtype=object)
+    out.flat = [value*other.units for value in values.ravel().tolist()]
+    return out
+
+
 def array_constraint(symbol, func):
     "Return function which creates constraints of the given operator."
     vecfunc = np.vectorize(func)
@@ -28,7 +38,7 @@ def array_constraint(symbol, func):
     def wrapped_func(self, other):
         "Creates array constraint from vectorized operator."
         if not isinstance(other, NomialArray):
-            other = NomialArray(other)
+            other = NomialArray(with_units(other))
         result = vecfunc(self, other)
         return ArrayConstraint(result, getattr(self, "key", self),
                                symbol, getattr(other, "key", other))
@@ -49,26 +59,29 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def __mul__(self, other, *, reverse_order=False):
         astorder = (self, other) if not reverse_order else (other, self)
-        out = NomialArray(np.ndarray.__mul__(self, other))
+        out = NomialArray(np.ndarray.__mul__(self, with_units(other)))
         out.ast = ("mul", astorder)
         return out
 
     def __truediv__(self, other):
-        out = NomialArray(np.ndarray.__truediv__(self, other))
+        out = NomialArray(np.ndarray.__truediv__(self, with_units(other)))
         out.ast = ("div", (self, other))
         return out
 
     def __rtruediv__(self, other):
-        out = (np.ndarray.__mul__(self**-1, other))
+        out = (np.ndarray.__mul__(self**-1, with_units(other)))
         out.ast = ("div", (other, self))
         return out
 
     def __add__(self, other, *, reverse_order=False):
         astorder = (self, other) if not reverse_order else (other, self)
-        out = (np.ndarray.__add__(self, other))
+        out = (np.ndarray.__add__(self, with_units(other)))
         out.ast = ("add", astorder)
         return out
 
+    def __sub__(self, other):
+        return np.ndarray.__sub__(self, with_units(other))
+
     # pylint: disable=multiple-statements
     def __rmul__(self, other): return self.__mul__(other, reverse_order=True)
     def __radd__(self, other): return self.__add__(other, reverse_order=True)
diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 2cbcdb8..2fdb0af 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -49,7 +49,7 @@ def latex_unitstr(units):
 
 def strify(val, excluded):
     "Turns a value into as pretty a string as possible."
-    if isinstance(val, Numbers):
+    if isinstance(val, Numbers) and not getattr(val, "shape", ()):
         isqty = hasattr(val, "magnitude")
         if isqty:
             units = val
-- 
2.43.0


From c9a5ca4892dd53629a1e26bb82b09541ceeca137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:58 +0000
Subject: [PATCH 83/86] fix: quantities swallowed the nomials they multiplied,
 whose units were then ignored

---
 gpkit/nomials/__init__.py | 8 ++++++++
 gpkit/nomials/array.py    | 3 +++
 gpkit/nomials/math.py     | 2 +-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/__init__.py b/gpkit/nomials/__init__.py
index e0bde07..be82663 100644
--- a/gpkit/nomials/__init__.py
+++ b/gpkit/nomials/__init__.py
@@ -10,3 +10,11 @@ from .substitution import parse_subs
 from .variables import Variable, ArrayVariable, VectorizableVariable
 
 VectorVariable = ArrayVariable
+
+try:  # have quantities leave operations with nomials to the nomials
+    from pint.compat import upcast_type_map
+    upcast_type_map.update({
+        "%s.%s" % (nomial.__module__, nomial.__name__): nomial for nomial in
+        (Signomial, Posynomial, Monomial, Variable, NomialArray)})
+except ImportError:  # this pint is too old to do so
+    pass
diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index ed51d06..858fb64 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -82,6 +82,9 @@ class NomialArray(ReprMixin, np.ndarray):
     def __sub__(self, other):
         return np.ndarray.__sub__(self, with_units(other))
 
+    def __rsub__(self, other):
+        return np.ndarray.__rsub__(self, with_units(other))
+
     # pylint: disable=multiple-statements
     def __rmul__(self, other): return self.__mul__(other, reverse_order=True)
     def __radd__(self, other): return self.__add__(other, reverse_order=True)
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index efd5342..0b2475c 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -190,7 +190,7 @@ class Signomial(Nomial):
         astorder = (self, other)
         if rev:
             astorder = tuple(reversed(astorder))
-        if isinstance(other, np.ndarray):
+        if isinstance(getattr(other, "magnitude", other), np.ndarray):
             s = NomialArray(self)
             s.ast = self.ast
             return s*other
-- 
2.43.0


From 0e9133e6284e07760b13e87de85f7d549d448050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:01 +0000
Subject: [PATCH 84/86] fix: linked functions' values were taken without their
 units when differentiated

---
 gpkit/constraints/prog_factories.py | 7 ++++---
 gpkit/nomials/variables.py          | 4 ++--
 gpkit/small_scripts.py              | 7 +++++++
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index b8c8c9d..b3e4e8c 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -5,7 +5,7 @@ from ad import adnumber
 from ..nomials import parse_subs
 from ..solution_array import SolutionArray
 from ..keydict import KeyDict, clean_value
-from ..small_scripts import maybe_flatten
+from ..small_scripts import maybe_flatten, nested_index
 from ..exceptions import Infeasible
 
 
@@ -29,10 +29,11 @@ def evaluate_linked(constants, linked):
                 if v.veckey and v.veckey.original_fn:
                     if v.veckey not in array_calulated:
                         ofn = v.veckey.original_fn
-                        array_calulated[v.veckey] = np.array(ofn(kdc))
-                    out = array_calulated[v.veckey][v.idx]
+                        array_calulated[v.veckey] = ofn(kdc)
+                    out = nested_index(array_calulated[v.veckey], v.idx)
                 else:
                     out = f(kdc)
+                out = clean_value(v, out)
                 constants[v] = out.x
                 v.descr["gradients"] = {adn.tag: grad
                                         for adn, grad in out.d().items()
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index ff7278e..c4772ed 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -9,7 +9,7 @@ from ..globals import NamedVariables, Vectorize
 from ..varkey import VarKey
 from ..units import Quantity
 from ..small_classes import Strings, Numbers, HashVector, FixedScalar
-from ..small_scripts import is_sweepvar
+from ..small_scripts import is_sweepvar, nested_index
 
 
 def addmodelstodescr(descr, addtonamedvars=None):
@@ -188,7 +188,7 @@ def veclinkedfn(linkedfn, i):
     "Generate an indexed linking function."
     def newlinkedfn(c):
         "Linked function that pulls out a particular index"
-        return np.array(linkedfn(c))[i]
+        return nested_index(linkedfn(c), i)
     return newlinkedfn
 
 
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 35f1781..25aa678 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -29,6 +29,13 @@ def maybe_flatten(value):
     return value
 
 
+def nested_index(values, idx):
+    "Index into an array or nested lists, whose elements keep their units"
+    for i in idx:
+        values = values[i]
+    return values
+
+
 def try_str_without(item, excluded, *, latex=False):
     "Try to call item.str_without(excluded); fall back to str(item)"
     if latex and hasattr(item, "latex"):
-- 
2.43.0


From 1600ba646d13c18edc5e4040e9f46a24ad1e9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:06 +0000
Subject: [PATCH 85/86] fix: relaxing constants failed on functions of linked
 variables, and mistook the units of others

---
 gpkit/constraints/relax.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 86a7b0e..c2c373e 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -1,5 +1,6 @@
 """Models for assessing primal feasibility"""
 from .set import ConstraintSet
+from .prog_factories import evaluate_linked
 from ..nomials import Variable, VectorVariable, parse_subs, NomialArray
 from ..keydict import KeyDict
 from ..varkey import VarKey
@@ -164,10 +165,11 @@ class ConstantsRelaxed(ConstraintSet):
         substitutions = KeyDict(constraints.substitutions)
         constants, _, linked = parse_subs(constraints.vks, substitutions)
         if linked:
-            kdc = KeyDict(constants)
             constrained_varkeys = constraints.constrained_varkeys()
-            constants.update({k: f(kdc) for k, f in linked.items()
-                              if k in constrained_varkeys})
+            evaluate_linked(constants, linked)
+            for k in linked:
+                if k not in constrained_varkeys:
+                    constants.pop(k, None)
 
         self._derelax_map = {}
         relaxvars, self.freedvars, relaxation_constraints = [], [], {}
-- 
2.43.0


From 6a04c916a8ba03e6a7f5dfda686e2d02392440da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:02 +0000
Subject: [PATCH 86/86] fix: LaTeX of constraints in lists or dictionaries was
 their Python representation

---
 gpkit/constraints/set.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index ebaae11..470a87c 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -257,11 +257,7 @@ class ConstraintSet(list, ReprMixin):
             lines.append("\\begin{array}{ll} \\text{}")
             if hasattr(self, "_rootlatex"):
                 lines.append(self._rootlatex(excluded))  # pylint: disable=no-member
-        for constraint in self:
-            cstr = try_str_without(constraint, excluded, latex=True)
-            if cstr[:6] != "    & ":  # require indentation
-                cstr = "    & " + cstr + " \\\\"
-            lines.append(cstr)
+        lines.extend(recursively_latex(self, excluded))
         if root:
             lines.append("\\end{array}")
         return "\n".join(lines)
@@ -270,6 +266,21 @@ class ConstraintSet(list, ReprMixin):
         "Return a ConstraintSetView of this ConstraintSet."
         return ConstraintSetView(self)
 
+def recursively_latex(iterable, excluded):
+    "Generates a LaTeX line for each constraint, however they're nested."
+    if isinstance(iterable, dict):
+        _, iterable = sort_constraints_dict(iterable)
+    lines = []
+    for constraint in iterable:
+        if hasattr(constraint, "__iter__") and not hasattr(constraint, "latex"):
+            lines.extend(recursively_latex(constraint, excluded))
+            continue
+        cstr = try_str_without(constraint, excluded, latex=True)
+        if cstr[:6] != "    & ":  # require indentation
+            cstr = "    & " + cstr + " \\\\"
+        lines.append(cstr)
+    return lines
+
 def recursively_line(iterable, excluded):
     "Generates lines in a recursive tree-like fashion, the better to indent."
     named_constraints = {}
-- 
2.43.0

