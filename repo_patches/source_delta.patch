From 28e0cadfea4379530d93cb6b988077d6405f896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 01/26] fix: reflected operators raised NameError instead of
 InconsistentSizeError/TypeError

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index a733582..82ad5b7 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -165,7 +165,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dc4acfb..8b4b5d4 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -211,7 +211,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
-- 
2.43.0


From 2b3dfedcde1edaefe984bf15a2d711c7423a9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 02/26] fix: reflected right shift swapped its operands

---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 82ad5b7..ff0a38e 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -414,7 +414,7 @@ class BitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8b4b5d4..228495a 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -532,7 +532,7 @@ class SMTBitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
-- 
2.43.0


From 63adf1155da55d9db677051d082e5cf3a7dc49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 03/26] fix: SMTBit had no reflected xor

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 228495a..5b0c5cc 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -148,7 +148,7 @@ class SMTBit(AbstractBit):
         return type(self)(smt.Xor(self.value, other.value))
 
     @bit_cast
-    def __xor__(self, other : 'SMTBit') -> 'SMTBit':
+    def __rxor__(self, other : 'SMTBit') -> 'SMTBit':
         return type(self)(smt.Xor(other.value, self.value))
 
     def ite(self, t_branch, f_branch):
-- 
2.43.0


From 8194266b538f20065d9fe701ae3bc3c560f2736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 04/26] fix: sext(0) raised ValueError

---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index ff0a38e..c792ad7 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -482,7 +482,7 @@ class BitVector(AbstractBitVector):
             raise ValueError()
 
         T = type(self).unsized_t
-        return self.concat(T[1](self[-1]).repeat(ext))
+        return self.concat(T[ext](-int(self[-1])))
 
     def ext(self, ext):
         return self.zext(ext)
-- 
2.43.0


From 550e6800866dd084d1b5824be65ae3fe273c188c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 05/26] fix: bvshl materialised 2**amount and failed for huge
 shift amounts

---
 hwtypes/bit_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index c792ad7..09ca511 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -283,7 +283,8 @@ class BitVector(AbstractBitVector):
 
     @bv_cast
     def bvshl(self, other):
-        return type(self)(self.as_uint() << other.as_uint())
+        # shifting by more than size bits is all zeros
+        return type(self)(self.as_uint() << min(other.as_uint(), self.size))
 
     @bv_cast
     def bvlshr(self, other):
-- 
2.43.0


From ef2be66d47560299fcfec3adf426e4e7218c299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 06/26] fix: SMT and z3 repeat built a result of the operand's
 width

---
 hwtypes/smt_bit_vector.py | 4 +++-
 hwtypes/z3_bit_vector.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 5b0c5cc..666c1e5 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -560,7 +560,9 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRepeat(self.value, other))
+        if other <= 0:
+            raise ValueError()
+        return type(self).unsized_t[self.size * other](smt.get_env().formula_manager.BVRepeat(self.value, other))
 
     @int_cast
     def sext(self, ext):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 582d6a8..82ee1b5 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -494,7 +494,9 @@ class z3BitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, n):
-        return type(self)(z3.RepeatBitVec(n, self.value))
+        if n <= 0:
+            raise ValueError()
+        return type(self).unsized_t[self.size * n](z3.RepeatBitVec(n, self.value))
 
     @int_cast
     def sext(self, ext):
-- 
2.43.0


From ef164837450ec85723c99f42116d08e70683cfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 07/26] fix: SMTFPVector.to_sbv looked up a key that does not
 exist

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4b7acd2..8437c33 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -180,7 +180,7 @@ class SMTFPVector(AbstractFPVector):
 
     def to_sbv(self, size : int) -> SMTBitVector:
         cls = type(self)
-        ufs = _uf_table[cls]['to_usbv']
+        ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
             name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
-- 
2.43.0


From c4c5aa79d42fbdd5e24445e27c7f9cd4bea8411b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 08/26] fix: assigning a Tuple item broke its equality and hash

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 918c530..12ca702 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -49,7 +49,7 @@ class Tuple(metaclass=TupleMeta):
         if isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
-            self._value_ = v
+            self._value_ = tuple(v)
         else:
             raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
 
-- 
2.43.0


From e8b429609ffae3f96da138548c2230905a304dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 09/26] fix: rebind_type raised NameError on modified types

---
 hwtypes/adt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 223750a..77c20eb 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -4,6 +4,7 @@ from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBi
 
 from .util import _issubclass
 from hwtypes.modifiers import unwrap_modifier, wrap_modifier, is_modified
+from hwtypes.modifiers import get_modifier, get_unmodified
 from .adt import Product, Sum, Tuple, Enum, TaggedUnion
 from inspect import isclass
 
@@ -126,7 +127,7 @@ def rebind_type(T, family):
     if not isclass(T):
         return T
     elif is_modified(T):
-        return get_modifier(T)(rebind_type(get_unmodified(T), family, dont_rebind, do_rebind, is_magma))
+        return get_modifier(T)(rebind_type(get_unmodified(T), family))
     elif issubclass(T, AbstractBitVector):
         return rebind_bitvector(T, AbstractBitVector, family.BitVector)
     elif issubclass(T, AbstractBit):
-- 
2.43.0


From 70f92f946a58acf2578b70e9430bcd2ce59cc2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 10/26] fix: ADT visitors called a leaf handler that was
 defined under another name

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 77c20eb..880523c 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -33,7 +33,7 @@ class _ADTVisitor(metaclass=ABCMeta):
     @abstractmethod
     def generic_visit(self, adt_t): pass
 
-    def visit_Leaf(self, adt_t):  pass
+    def visit_leaf(self, adt_t):  pass
 
     def visit_Enum(self, adt_t): pass
 
-- 
2.43.0


From 2f27bf65dbb9461878ae77134471506faa062f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 11/26] fix: polymorphic dispatch ignored NotImplemented from
 the second branch

---
 hwtypes/bit_vector_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector_util.py b/hwtypes/bit_vector_util.py
index 2545270..84a5339 100644
--- a/hwtypes/bit_vector_util.py
+++ b/hwtypes/bit_vector_util.py
@@ -170,7 +170,7 @@ def build_VCall(select, m0, m1):
         def VCall(*args, **kwargs):
             v0 = m0(*args, **kwargs)
             v1 = m1(*args, **kwargs)
-            if v0 is NotImplemented or v0 is NotImplemented:
+            if v0 is NotImplemented or v1 is NotImplemented:
                 return NotImplemented
             return select.ite(v0, v1)
         return Method(VCall)
-- 
2.43.0


From ae04d108e3158a4286cae8551a947b98a67c1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 12/26] fix: SMT and z3 make_constant could not be called on
 the type

---
 hwtypes/smt_bit_vector.py | 7 ++++---
 hwtypes/z3_bit_vector.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 666c1e5..b36824f 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -292,10 +292,11 @@ class SMTBitVector(AbstractBitVector):
         self._value = smt.simplify(self._value)
         assert self._value.get_type() is T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 82ee1b5..80c9f58 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -243,10 +243,11 @@ class z3BitVector(AbstractBitVector):
         self._value = z3.simplify(self._value)
         assert self._value.sort() == T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
-- 
2.43.0


From c1a72cc380b54cd1f1fbb6ab8530300db58eed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 13/26] fix: SMTBitVector from an object with __int__ did not
 reduce modulo 2**size

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index b36824f..231dd37 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -285,7 +285,7 @@ class SMTBitVector(AbstractBitVector):
 
         elif hasattr(value, '__int__'):
             value = int(value)
-            self._value = smt.BV(value, self.size)
+            self._value = smt.BV(value % (1 << self.size), self.size)
         else:
             raise TypeError("Can't coerce {} to SMTBitVector".format(type(value)))
 
-- 
2.43.0


From 86329a9b699b2b8619ef01f209263981f95e7c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 14/26] fix: SMT rotates failed for amounts larger than the
 width

---
 hwtypes/smt_bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 231dd37..b37cc3a 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -416,11 +416,11 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def bvrol(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % self.size))
 
     @int_cast
     def bvror(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % self.size))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From 142f70acdfd5a4ed74a8dae62ce89c70f27c10f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 15/26] fix: SMTBitVector.as_sint failed on one bit vectors

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index b37cc3a..0576616 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -602,7 +602,7 @@ class SMTBitVector(AbstractBitVector):
     def as_sint(self):
         #Avoids circular import
         from . import SMTInt
-        return SMTInt(self[:-1]) - SMTInt(self & (1<<(self.size-1)))
+        return SMTInt(self) - 2*SMTInt(self & (1<<(self.size-1)))
 #
 #    @classmethod
 #    def random(cls, width):
-- 
2.43.0


From 5ef3f9650a7e610fd01c0b6ee13a4c8bf6ac10d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 16/26] fix: validity of a type index depended on which types
 existed already

---
 hwtypes/bit_vector_abc.py |  6 ++++--
 hwtypes/fp_vector_abc.py  | 11 ++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 44d22a9..c8d4092 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -74,13 +74,15 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
 
     def __getitem__(cls, idx : int) -> 'AbstractBitVectorMeta':
         mcs = type(cls)
+        # must come before the cache look up as 8.0 and 8 are the same key
+        if not isinstance(idx, int):
+            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+
         try:
             return mcs._class_cache[cls, idx]
         except KeyError:
             pass
 
-        if not isinstance(idx, int):
-            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
         if idx < 0:
             raise ValueError('Size of BitVectors must be positive')
 
diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index 6b6a6e8..2fceb3f 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -43,18 +43,19 @@ class AbstractFPVectorMeta(ABCMeta):
 
     def __getitem__(cls, idx : tp.Tuple[int, int, RoundingMode, bool]):
         mcs = type(cls)
-        try:
-            return mcs._class_cache[cls, idx]
-        except KeyError:
-            pass
-
         if cls.is_bound:
             raise TypeError(f'{cls} is already bound')
 
+        # must come before the cache look up as e.g. True and 1 are the same key
         if len(idx) != 4 or tuple(map(type,idx)) != (int, int, RoundingMode, bool):
             raise IndexError(f'Constructing a floating point type requires:\n'
                     'exponent bits : int, mantisa bits : int, RoundingMode, ieee_compliance : bool')
 
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
         eb, mb, mode, ieee_compliance = idx
 
         if eb <= 0 or mb <= 0:
-- 
2.43.0


From a5e4d1295af647597955aa658eb5a87620bb30d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 17/26] fix: fp_abs of negative zero was negative

---
 hwtypes/fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index ff294a3..9ccabc9 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -139,8 +139,7 @@ class FPVector(AbstractFPVector):
 
     @set_context
     def fp_abs(self) -> 'FPVector':
-        v = self._value
-        return type(self)(v if v >= 0 else -v)
+        return type(self)(abs(self._value))
 
     @set_context
     def fp_neg(self) -> 'FPVector':
-- 
2.43.0


From 3fce84b60a970719ebfc58c2c84abe4b4425785a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 18/26] fix: AnonymousProduct.rebind raised TypeError

---
 hwtypes/adt_meta.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e0911c8..4704884 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -462,6 +462,17 @@ def __init__(self, {type_sig}):
     def field_dict(cls):
         return MappingProxyType(cls._field_table_)
 
+    def rebind(cls, A: type, B: type, rebind_sub_types: bool = False, rebind_recursive: bool = True):
+        new_fields = OrderedDict()
+        for field, T in cls.field_dict.items():
+            if T == A or (rebind_sub_types and _issubclass(T,A)):
+                new_fields[field] = B
+            elif rebind_recursive and isinstance(T, BoundMeta):
+                new_fields[field] = T.rebind(A, B, rebind_sub_types)
+            else:
+                new_fields[field] = T
+        return cls.unbound_t[new_fields]
+
 
 class ProductMeta(_AttrSyntax, AnonymousProductMeta):
     FIELDS_T = type
-- 
2.43.0


From 32245759276d85195cef067ea6fa453c86541f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:06 +0000
Subject: [PATCH 19/26] fix: strip_modifiers and push_modifiers raised
 TypeError on AnonymousProduct

---
 hwtypes/modifiers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index f26e514..e5f6aac 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -1,6 +1,6 @@
 import types
 import weakref
-from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta
+from .adt_meta import GetitemSyntax, AttrSyntax, EnumMeta, AnonymousProductMeta
 
 
 __ALL__ = ['new', 'make_modifier', 'is_modified', 'is_modifier', 'get_modifier', 'get_unmodified', 'strip_modifiers', 'push_modifiers']
@@ -142,6 +142,9 @@ def strip_modifiers(adt_t):
     elif isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
+    elif isinstance(adt_t, AnonymousProductMeta):
+        new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
+        return adt_t.unbound_t[new_fields]
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
         return adt_t.unbound_t[new_fields]
@@ -156,6 +159,9 @@ def push_modifiers(adt_t, mods=[]):
     if isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
         new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
+    elif isinstance(adt_t, AnonymousProductMeta):
+        new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
+        return adt_t.unbound_t[new_fields]
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
         return adt_t.unbound_t[new_fields]
-- 
2.43.0


From 4498ec147395c627f3bb54fa55a9bfef72f7c62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:42 +0000
Subject: [PATCH 20/26] fix: divide constant SMTInts exactly

---
 hwtypes/smt_int.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 9b7b17a..5a3c6bb 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -23,6 +23,15 @@ def int_cast(fn):
             return fn(self, other)
     return wrapped
 
+def _div(num, den):
+    # pysmt folds the division of two constants through floats, which is
+    # inexact for large constants
+    if num.is_constant() and den.is_constant() and not den.is_zero():
+        num, den = num.constant_value(), den.constant_value()
+        return smt.Int(num // den if den > 0 else -(num // -den))
+    return smt.Div(num, den)
+
+
 class SMTInt:
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC, prefix=AUTOMATIC):
         if (name is not AUTOMATIC or prefix is not AUTOMATIC) and value is not SMYBOLIC:
@@ -106,11 +115,11 @@ class SMTInt:
 
     @int_cast
     def __floordiv__(self, other: 'SMTInt') -> 'SMTInt':
-        return SMTInt(smt.Div(self.value, other.value))
+        return SMTInt(_div(self.value, other.value))
 
     @int_cast
     def __rfloordiv__(self, other: 'SMTInt') -> 'SMTInt':
-        return SMTInt(smt.Div(other.value, self.value))
+        return SMTInt(_div(other.value, self.value))
 
     @int_cast
     def __ge__(self, other: 'SMTInt') -> SMTBit:
-- 
2.43.0


From 64c3999dab943df464d87c7531acd209d42fd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:36 +0000
Subject: [PATCH 21/26] fix: rebind_keep_modifiers rebinds each field itself,
 not inside other fields

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 880523c..f134fd5 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -111,7 +111,7 @@ def rebind_keep_modifiers(adt, A, B):
         new_adt = adt
         for field in adt.fields:
             new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field)
+            new_adt = new_adt.rebind(field, new_field, rebind_recursive=False)
         return new_adt
     else:
         return adt
-- 
2.43.0


From 32756c96f3ba5334423ee0a2f88404c96e124b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:30 +0000
Subject: [PATCH 22/26] fix: OrderedFrozenDict hashes like the FrozenDicts it
 equals

---
 hwtypes/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/util.py b/hwtypes/util.py
index cf52ebc..e9d0817 100644
--- a/hwtypes/util.py
+++ b/hwtypes/util.py
@@ -37,7 +37,8 @@ class OrderedFrozenDict(FrozenDict):
 
     def __init__(self, *args, **kwargs):
         self._d = OrderedDict(*args, **kwargs)
-        self._hash = hash(tuple(self.items()))
+        # may equal a FrozenDict with the same items in any order
+        self._hash = hash(frozenset(self.items()))
 
 
 class TypedProperty:
-- 
2.43.0


From 92094f010e94525d01d18db171b8124811a89829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:31 +0000
Subject: [PATCH 23/26] fix: FPVector subclasses can be bound, gmpy2 contexts
 have no trap_expbound

---
 hwtypes/fp_vector.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 9ccabc9..cab266d 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -123,7 +123,6 @@ class FPVector(AbstractFPVector):
                         or c_ctx.trap_inexact != ctx.trap_inexact
                         or c_ctx.trap_erange != ctx.trap_erange
                         or c_ctx.trap_divzero != ctx.trap_divzero
-                        or c_ctx.trap_expbound != ctx.trap_expbound
                         or c_ctx.allow_complex != ctx.allow_complex):
                     # this basically should never happen unless some one does
                     # class Foo(FPVector):
-- 
2.43.0


From c7157a252f8a4d8da1be12b947d5c1b2d5a07da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:43 +0000
Subject: [PATCH 24/26] fix: SMTFPVector fp_min and fp_max take two operands

---
 hwtypes/smt_fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 8437c33..7b94261 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -19,8 +19,8 @@ _SIGS = [
     ('fp_sqrt', None, None,),
     ('fp_rem', None, None,None),
     ('fp_round_to_integral', None, None,),
-    ('fp_min', None, None,),
-    ('fp_max', None, None,),
+    ('fp_min', None, None, None,),
+    ('fp_max', None, None, None,),
     ('fp_leq', None, None, BOOL,),
     ('fp_lt', None, None, BOOL,),
     ('fp_geq', None, None, BOOL,),
-- 
2.43.0


From 465a320090b5a5eb2b1a107e2744a1a85aebd959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:52 +0000
Subject: [PATCH 25/26] fix: rebind_keep_modifiers replaces all fields at once

Rebinding field by field took the new type of one field for the old
type of another one when the replacement contains the replaced type.
---
 hwtypes/adt_util.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index f134fd5..e2473bc 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -1,5 +1,6 @@
 from abc import ABCMeta, abstractmethod
-from .adt_meta import BoundMeta
+from collections import OrderedDict
+from .adt_meta import BoundMeta, EnumMeta, AnonymousProductMeta, AttrSyntax
 from .bit_vector_abc import AbstractBitVectorMeta, AbstractBitVector, AbstractBit
 
 from .util import _issubclass
@@ -107,12 +108,22 @@ def rebind_keep_modifiers(adt, A, B):
 
     if _issubclass(adt,A):
         return B
+    elif isinstance(adt, EnumMeta):
+        return adt
+    # All fields are replaced at once, as the new type of one field
+    # may be the old type of another
+    elif isinstance(adt, (AttrSyntax, AnonymousProductMeta)):
+        new_fields = OrderedDict()
+        for name, T in adt.field_dict.items():
+            new_fields[name] = rebind_keep_modifiers(T, A, B)
+        if new_fields == adt.field_dict:
+            return adt
+        elif isinstance(adt, AttrSyntax):
+            return adt.unbound_t.from_fields(adt.__name__, new_fields, cache=adt.is_cached)
+        else:
+            return adt.unbound_t[new_fields]
     elif isinstance(adt, BoundMeta):
-        new_adt = adt
-        for field in adt.fields:
-            new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field, rebind_recursive=False)
-        return new_adt
+        return adt.unbound_t[[rebind_keep_modifiers(T, A, B) for T in adt.fields]]
     else:
         return adt
 
-- 
2.43.0


From 824ff4a0161a2b49ec26f1b96c6f9a0643047d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:59 +0000
Subject: [PATCH 26/26] fix: ADT classes with different special methods are
 different types

The class cache ignored all dunder attributes, so a second class of the
same name and fields was replaced by the first one and lost its own
special methods (or failed to be created if one of them used super).
---
 hwtypes/adt_meta.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 4704884..eb5fa6c 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -153,7 +153,9 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
             if cache:
                 ns_idx = set()
                 for k,v in ns.items():
-                    if not _is_dunder(k):
+                    # dunders which are not methods (__module__, __doc__, ...)
+                    # do not distinguish types
+                    if not _is_dunder(k) or _is_descriptor(v):
                         ns_idx.add((k,v))
 
                 if mcs.ORDERED:
-- 
2.43.0

