From 1e150e9bff994dcc154e6a42e2d352889e7eab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 01/41] fix: name InconsistentSizeError correctly in reflected
 operators

object() + BitVector[4](1) raised NameError instead of TypeError
---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index a733582..82ad5b7 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -165,7 +165,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index dc4acfb..8b4b5d4 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -211,7 +211,7 @@ def dispatch_roper(method: Method):
     def roper(self, other):
         try:
             other = _coerce(type(self), other)
-        except inconsistentsizeerror as e:
+        except InconsistentSizeError as e:
             raise e from None
         except TypeError:
             return NotImplemented
-- 
2.43.0


From a77453d93c3a71bda1ff91fc8b08d844b1f6b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:53 +0000
Subject: [PATCH 02/41] fix: build __rrshift__ as a reflected operator

8 >> BitVector[4](1) computed BitVector[4](1) >> 8
---
 hwtypes/bit_vector.py     | 2 +-
 hwtypes/smt_bit_vector.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 82ad5b7..ff0a38e 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -414,7 +414,7 @@ class BitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 8b4b5d4..228495a 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -532,7 +532,7 @@ class SMTBitVector(AbstractBitVector):
     __rlshift__ = dispatch_roper(__lshift__)
 
     __rshift__ = dispatch_oper(bvlshr)
-    __rrshift__ = dispatch_oper(__rshift__)
+    __rrshift__ = dispatch_roper(__rshift__)
 
     def __neg__(self): return self.bvneg()
 
-- 
2.43.0


From 9ba80b3ff8e9dbcb322c4e14c01552c78b2b6a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 03/41] fix: BitVector.sext(0) is the identity instead of
 ValueError

---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index ff0a38e..c792ad7 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -482,7 +482,7 @@ class BitVector(AbstractBitVector):
             raise ValueError()
 
         T = type(self).unsized_t
-        return self.concat(T[1](self[-1]).repeat(ext))
+        return self.concat(T[ext](-int(self[-1])))
 
     def ext(self, ext):
         return self.zext(ext)
-- 
2.43.0


From 7c2df888bf8e8b1c27e3aa36bccbedf20354a5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:15 +0000
Subject: [PATCH 04/41] fix: repeat of symbolic bit vectors returns the
 repeated width

SMTBitVector[4]().repeat(2) and z3BitVector[4]().repeat(2) raised TypeError
---
 hwtypes/smt_bit_vector.py | 2 +-
 hwtypes/z3_bit_vector.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 228495a..2d04ae7 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -560,7 +560,7 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRepeat(self.value, other))
+        return type(self).unsized_t[other * self.size](smt.get_env().formula_manager.BVRepeat(self.value, other))
 
     @int_cast
     def sext(self, ext):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 582d6a8..bf92c94 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -494,7 +494,7 @@ class z3BitVector(AbstractBitVector):
 
     @int_cast
     def repeat(self, n):
-        return type(self)(z3.RepeatBitVec(n, self.value))
+        return type(self).unsized_t[n * self.size](z3.RepeatBitVec(n, self.value))
 
     @int_cast
     def sext(self, ext):
-- 
2.43.0


From 0a389d1f02bbd27f4162caf541ebf00b78cc2652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:26 +0000
Subject: [PATCH 05/41] fix: SMTBit defines __rxor__ (it defined __xor__ twice)

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 2d04ae7..149e344 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -148,7 +148,7 @@ class SMTBit(AbstractBit):
         return type(self)(smt.Xor(self.value, other.value))
 
     @bit_cast
-    def __xor__(self, other : 'SMTBit') -> 'SMTBit':
+    def __rxor__(self, other : 'SMTBit') -> 'SMTBit':
         return type(self)(smt.Xor(other.value, self.value))
 
     def ite(self, t_branch, f_branch):
-- 
2.43.0


From fc95ec72d0d48fac3d546af7a78a455ff0d95ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:37 +0000
Subject: [PATCH 06/41] fix: SMTFPVector.to_sbv looks up the to_sbv functions
 (was a KeyError)

---
 hwtypes/smt_fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 4b7acd2..8437c33 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -180,7 +180,7 @@ class SMTFPVector(AbstractFPVector):
 
     def to_sbv(self, size : int) -> SMTBitVector:
         cls = type(self)
-        ufs = _uf_table[cls]['to_usbv']
+        ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
             name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
-- 
2.43.0


From 3e1fa24ce1572e85705b99c21e0381e66e992164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 07/41] fix: SMTFPVector can be subclassed before it is bound

class Foo(SMTFPVector) asked the unbound class for its size
---
 hwtypes/smt_fp_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 8437c33..c301d2f 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -72,6 +72,8 @@ class SMTFPVector(AbstractFPVector):
         self._value = value
 
     def __init_subclass__(cls):
+        if not cls.is_bound:
+            return
         _uf_table[cls] = ufs = dict()
         T = BVType(cls.size)
         for method_name, *args in _SIGS:
-- 
2.43.0


From 84b7e411d073fbd13e0ad69d53ffcdf30d5c09f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 08/41] fix: do not compare trap_expbound, which gmpy2 contexts
 no longer have

every subclass of a bound FPVector raised AttributeError
---
 hwtypes/fp_vector.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index ff294a3..b032b04 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -123,7 +123,6 @@ class FPVector(AbstractFPVector):
                         or c_ctx.trap_inexact != ctx.trap_inexact
                         or c_ctx.trap_erange != ctx.trap_erange
                         or c_ctx.trap_divzero != ctx.trap_divzero
-                        or c_ctx.trap_expbound != ctx.trap_expbound
                         or c_ctx.allow_complex != ctx.allow_complex):
                     # this basically should never happen unless some one does
                     # class Foo(FPVector):
-- 
2.43.0


From 79459a7a13ce22f7b75ce39cec8adeabeb379097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:08 +0000
Subject: [PATCH 09/41] fix: fp_abs clears the sign of negative zero

---
 hwtypes/fp_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index b032b04..69a9e5a 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -139,7 +139,7 @@ class FPVector(AbstractFPVector):
     @set_context
     def fp_abs(self) -> 'FPVector':
         v = self._value
-        return type(self)(v if v >= 0 else -v)
+        return type(self)(-v if gmpy2.is_signed(v) else v)
 
     @set_context
     def fp_neg(self) -> 'FPVector':
-- 
2.43.0


From 514cff62ebeec7340a64becf6e940c9e2f8e201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:20 +0000
Subject: [PATCH 10/41] fix: a Tuple stays hashable and comparable after item
 assignment

_value_ became a list, so t != an equal tuple and hash(t) raised TypeError
---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 918c530..12ca702 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -49,7 +49,7 @@ class Tuple(metaclass=TupleMeta):
         if isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
-            self._value_ = v
+            self._value_ = tuple(v)
         else:
             raise TypeError(f'Value {value} is not of type {type(self)[idx]}')
 
-- 
2.43.0


From c87d75a41c0f058b82c23ac3d76befd758796533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:32 +0000
Subject: [PATCH 11/41] fix: equal Sum and TaggedUnion values hash equal

---
 hwtypes/adt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 12ca702..6c2f55e 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -230,7 +230,7 @@ class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
             return NotImplemented
 
     def __hash__(self):
-        return hash(self._tag_) + hash(self._value_)
+        return hash(self._value_)
 
     def __repr__(self):
         return f'{type(self).__name__}({", ".join(f"{k}={v}" for k,v in self.value_dict.items())})'
-- 
2.43.0


From 4352227d45f4521c87db1dcf649b8eae2d96d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 12/41] fix: the ADT visitors' default leaf hook has the name
 visit() calls

---
 hwtypes/adt_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 223750a..2f74dbb 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -32,7 +32,7 @@ class _ADTVisitor(metaclass=ABCMeta):
     @abstractmethod
     def generic_visit(self, adt_t): pass
 
-    def visit_Leaf(self, adt_t):  pass
+    def visit_leaf(self, adt_t):  pass
 
     def visit_Enum(self, adt_t): pass
 
-- 
2.43.0


From fc27a5794513f02ee4d42573939af81fc5d9b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:52 +0000
Subject: [PATCH 13/41] fix: SMTBitVector wraps values converted through
 __int__

SMTBitVector[4](SIntVector[4](-1)) raised PysmtValueError
---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 149e344..82f2e39 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -285,7 +285,7 @@ class SMTBitVector(AbstractBitVector):
 
         elif hasattr(value, '__int__'):
             value = int(value)
-            self._value = smt.BV(value, self.size)
+            self._value = smt.BV(value % (1 << self.size), self.size)
         else:
             raise TypeError("Can't coerce {} to SMTBitVector".format(type(value)))
 
-- 
2.43.0


From 39604381bb982688855693c39e148605cba7291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 14/41] fix: SMTBitVector[1].as_sint no longer takes an empty
 slice

---
 hwtypes/smt_bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 82f2e39..9ecc0c2 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -599,7 +599,7 @@ class SMTBitVector(AbstractBitVector):
     def as_sint(self):
         #Avoids circular import
         from . import SMTInt
-        return SMTInt(self[:-1]) - SMTInt(self & (1<<(self.size-1)))
+        return SMTInt(self) - 2*SMTInt(self & (1<<(self.size-1)))
 #
 #    @classmethod
 #    def random(cls, width):
-- 
2.43.0


From 14eb0034e0f38d36fc1293ae3f66b71102798e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:11 +0000
Subject: [PATCH 15/41] fix: z3SIntVector.ext sign extends like the other
 signed vectors

---
 hwtypes/z3_bit_vector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index bf92c94..5c0f2be 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -558,6 +558,9 @@ class z3SIntVector(z3NumVector):
     def __le__(self, other):
         return self.bvsle(other)
 
+    def ext(self, other):
+        return self.sext(other)
+
 _Family_ = ht.TypeFamily(z3Bit, z3BitVector, z3UIntVector, z3SIntVector)
 
 
-- 
2.43.0


From 25896b690eff1a84db20b1ee41dc9406ad779f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:20 +0000
Subject: [PATCH 16/41] fix: z3Bit.ite of two z3Bits is a z3Bit, not a
 z3BitVector[1]

---
 hwtypes/z3_bit_vector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 5c0f2be..a44c8f3 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -139,6 +139,8 @@ class z3Bit(AbstractBit):
         elif isinstance(f_branch, BV_t):
             t_branch = fb_t(t_branch)
             T = fb_t
+        elif isinstance(t_branch, z3Bit) and isinstance(f_branch, z3Bit):
+            T = z3Bit
         else:
             t_branch = BV_t(t_branch)
             f_branch = BV_t(f_branch)
-- 
2.43.0


From d4b844508ce937309abf5db2be5353c06f640e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:33 +0000
Subject: [PATCH 17/41] fix: remainder by zero returns a new vector, not the
 operand itself

mutating the result through [i] = b changed the operand
---
 hwtypes/bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index c792ad7..383d268 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -382,7 +382,7 @@ class BitVector(AbstractBitVector):
     def bvurem(self, other):
         other = other.as_uint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_uint() % other)
 
     @bv_cast
@@ -396,7 +396,7 @@ class BitVector(AbstractBitVector):
     def bvsrem(self, other):
         other = other.as_sint()
         if other == 0:
-            return self
+            return type(self)(self)
         return type(self)(self.as_sint() % other)
 
     def __invert__(self): return self.bvnot()
-- 
2.43.0


From 5a1b4d13134e151731cfb5f04669a62a609c4419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:44 +0000
Subject: [PATCH 18/41] fix: a polymorphic method checks both branches for
 NotImplemented

---
 hwtypes/bit_vector_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector_util.py b/hwtypes/bit_vector_util.py
index 2545270..84a5339 100644
--- a/hwtypes/bit_vector_util.py
+++ b/hwtypes/bit_vector_util.py
@@ -170,7 +170,7 @@ def build_VCall(select, m0, m1):
         def VCall(*args, **kwargs):
             v0 = m0(*args, **kwargs)
             v1 = m1(*args, **kwargs)
-            if v0 is NotImplemented or v0 is NotImplemented:
+            if v0 is NotImplemented or v1 is NotImplemented:
                 return NotImplemented
             return select.ite(v0, v1)
         return Method(VCall)
-- 
2.43.0


From d0a7be549c8c0ada9c59008b1c69d95b5d32e241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 19/41] fix: make_constant of symbolic vectors is a class
 method, as declared

---
 hwtypes/smt_bit_vector.py | 7 ++++---
 hwtypes/z3_bit_vector.py  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 9ecc0c2..2313210 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -292,10 +292,11 @@ class SMTBitVector(AbstractBitVector):
         self._value = smt.simplify(self._value)
         assert self._value.get_type() is T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index a44c8f3..448fe9b 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -245,10 +245,11 @@ class z3BitVector(AbstractBitVector):
         self._value = z3.simplify(self._value)
         assert self._value.sort() == T
 
-    def make_constant(self, value, size:tp.Optional[int]=None):
+    @classmethod
+    def make_constant(cls, value, size:tp.Optional[int]=None):
         if size is None:
-            size = self.size
-        return type(self).unsized_t[size](value)
+            size = cls.size
+        return cls.unsized_t[size](value)
 
     @property
     def value(self):
-- 
2.43.0


From aae848a69f2a4fc02e3e1f007ee8b7116ef7a224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:05 +0000
Subject: [PATCH 20/41] fix: check the size of a BitVector before looking it up
 in the cache

BitVector[8.0] was a TypeError or BitVector[8] depending on history, and
BitVector[True] could name the type later returned for BitVector[1]
---
 hwtypes/bit_vector_abc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hwtypes/bit_vector_abc.py b/hwtypes/bit_vector_abc.py
index 44d22a9..a37c626 100644
--- a/hwtypes/bit_vector_abc.py
+++ b/hwtypes/bit_vector_abc.py
@@ -74,13 +74,16 @@ class AbstractBitVectorMeta(type): #:(ABCMeta):
 
     def __getitem__(cls, idx : int) -> 'AbstractBitVectorMeta':
         mcs = type(cls)
+        if not isinstance(idx, int):
+            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
+        # True == 1 and 8.0 == 8 must not share a cache entry with the int
+        idx = int(idx)
+
         try:
             return mcs._class_cache[cls, idx]
         except KeyError:
             pass
 
-        if not isinstance(idx, int):
-            raise TypeError('Size of BitVectors must be of type int not {}'.format(type(idx)))
         if idx < 0:
             raise ValueError('Size of BitVectors must be positive')
 
-- 
2.43.0


From 307fff916e0acfd364f9c0771990a182aaf3511c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 21/41] fix: check the parameters of an FPVector before looking
 them up in the cache

FPVector[8,7,RNE,1] was an IndexError or FPVector[8,7,RNE,True] depending on history
---
 hwtypes/fp_vector_abc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hwtypes/fp_vector_abc.py b/hwtypes/fp_vector_abc.py
index 6b6a6e8..b6331d6 100644
--- a/hwtypes/fp_vector_abc.py
+++ b/hwtypes/fp_vector_abc.py
@@ -43,11 +43,6 @@ class AbstractFPVectorMeta(ABCMeta):
 
     def __getitem__(cls, idx : tp.Tuple[int, int, RoundingMode, bool]):
         mcs = type(cls)
-        try:
-            return mcs._class_cache[cls, idx]
-        except KeyError:
-            pass
-
         if cls.is_bound:
             raise TypeError(f'{cls} is already bound')
 
@@ -55,6 +50,11 @@ class AbstractFPVectorMeta(ABCMeta):
             raise IndexError(f'Constructing a floating point type requires:\n'
                     'exponent bits : int, mantisa bits : int, RoundingMode, ieee_compliance : bool')
 
+        try:
+            return mcs._class_cache[cls, idx]
+        except KeyError:
+            pass
+
         eb, mb, mode, ieee_compliance = idx
 
         if eb <= 0 or mb <= 0:
-- 
2.43.0


From 63cc98f0f936b3eace05d7d4bed0b1210691970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 22/41] fix: rebind_type of a modified type

it called names that are not defined here (NameError)
---
 hwtypes/adt_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 2f74dbb..41e5388 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -126,7 +126,8 @@ def rebind_type(T, family):
     if not isclass(T):
         return T
     elif is_modified(T):
-        return get_modifier(T)(rebind_type(get_unmodified(T), family, dont_rebind, do_rebind, is_magma))
+        unmod, mods = unwrap_modifier(T)
+        return wrap_modifier(rebind_type(unmod, family), mods)
     elif issubclass(T, AbstractBitVector):
         return rebind_bitvector(T, AbstractBitVector, family.BitVector)
     elif issubclass(T, AbstractBit):
-- 
2.43.0


From 5ce00144999541298c408023c756c934ea5f7e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:37 +0000
Subject: [PATCH 23/41] fix: generated SMT names never reuse an existing symbol

the symbol of a collected SMTBitVector may still occur in live expressions
---
 hwtypes/smt_bit_vector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 2313210..a41459c 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -26,7 +26,8 @@ _name_table = weakref.WeakValueDictionary()
 
 def _gen_name(prefix='V'):
     name = f'{prefix}_{next(_var_counters[prefix])}'
-    while name in _name_table:
+    # a symbol outlives the object that created it
+    while name in _name_table or name in smt.get_env().formula_manager.symbols:
         name = f'{prefix}_{next(_var_counters[prefix])}'
     return name
 
-- 
2.43.0


From a94bc158056a97e645f114387f3c9b454c20c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:49 +0000
Subject: [PATCH 24/41] fix: SMTBitVector rotates take any amount, as
 BitVector's do

amounts of at least the width raised PysmtTypeError and negative ones built
ill formed terms
---
 hwtypes/smt_bit_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index a41459c..38c47d2 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -417,11 +417,11 @@ class SMTBitVector(AbstractBitVector):
 
     @int_cast
     def bvrol(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRol(self.value, other % (1 << self.size) % self.size))
 
     @int_cast
     def bvror(self, other):
-        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other))
+        return type(self)(smt.get_env().formula_manager.BVRor(self.value, other % (1 << self.size) % self.size))
 
     @bv_cast
     def bvcomp(self, other):
-- 
2.43.0


From 5d28815ae3edbf74e3fc905568e2da4f7b9ab7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 25/41] fix: rebind, strip_modifiers and push_modifiers of an
 AnonymousProduct

they indexed AnonymousProduct with a list of types, a TypeError
---
 hwtypes/adt_meta.py  | 12 +++++++++++-
 hwtypes/modifiers.py |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index e0911c8..96a79b8 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -110,6 +110,13 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
     def _from_idx(cls, idx):
         pass
 
+    def _idx_from_fields(cls, fields):
+        '''
+        Translates new types for the fields of cls, in the order of
+        cls.fields, to the index that binds them
+        '''
+        return fields
+
     def rebind(cls, A: type, B: type, rebind_sub_types: bool = False, rebind_recursive: bool = True):
         new_fields = []
         for T in cls.fields:
@@ -119,7 +126,7 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
                 new_fields.append(T.rebind(A, B, rebind_sub_types))
             else:
                 new_fields.append(T)
-        return cls.unbound_t[new_fields]
+        return cls.unbound_t[cls._idx_from_fields(new_fields)]
 
 
 
@@ -378,6 +385,9 @@ class AnonymousProductMeta(TupleMeta):
             raise TypeError()
         return OrderedFrozenDict(idx)
 
+    def _idx_from_fields(cls, fields):
+        return OrderedDict(zip(cls.field_dict, fields))
+
     def _from_idx(cls, idx):
         # need to build t so I can call super() in new and init
         #(hence cannot construct them in the namespace call back)
diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index f26e514..52b33d9 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -144,7 +144,7 @@ def strip_modifiers(adt_t):
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[new_fields]
+        return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
     else:
         return adt_t
 
@@ -158,7 +158,7 @@ def push_modifiers(adt_t, mods=[]):
         return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
     elif isinstance(adt_t, GetitemSyntax):
         new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[new_fields]
+        return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
     else:
         return wrap_modifier(adt_t, mods)
 
-- 
2.43.0


From c5e120564f4bb64ce662e5fcb4bb12465f58e45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:24 +0000
Subject: [PATCH 26/41] fix: SMTFPVector shares the table of SMT names in use

SMTFPVector and SMTBitVector variables of one name and size were one variable
---
 hwtypes/smt_fp_vector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index c301d2f..ba99638 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -4,7 +4,7 @@ import pysmt
 import pysmt.shortcuts as shortcuts
 from pysmt.typing import  BVType, BOOL, FunctionType
 
-from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC
+from .smt_bit_vector import SMTBit, SMTBitVector, SMTSIntVector, SMYBOLIC, AUTOMATIC, _name_table
 from .fp_vector_abc import AbstractFPVector, RoundingMode
 
 # using None to represent cls
@@ -35,7 +35,6 @@ _SIGS = [
     ('fp_is_positive', None, BOOL,),
 ]
 
-_name_table = weakref.WeakValueDictionary()
 _uf_table = weakref.WeakKeyDictionary()
 
 
-- 
2.43.0


From 1f9daf888afffca2aca9b5e761b09c8e2729cc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 27/41] fix: shifting a BitVector left by a huge amount yields
 zero

BitVector[64](1) << -1 built 1 << (2**64 - 1): MemoryError or OverflowError
---
 hwtypes/bit_vector.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 383d268..10b0d04 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -283,7 +283,9 @@ class BitVector(AbstractBitVector):
 
     @bv_cast
     def bvshl(self, other):
-        return type(self)(self.as_uint() << other.as_uint())
+        # do not build an int of 2**size bits only to mask it
+        shift = min(other.as_uint(), self.size)
+        return type(self)(self.as_uint() << shift)
 
     @bv_cast
     def bvlshr(self, other):
-- 
2.43.0


From 4fb6032cf93fa305dfb39803389f7e07b43e0bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 28/41] fix: a zero width BitVector has a signed value

as_sint, and so bool() and int() of a SIntVector[0], raised IndexError
---
 hwtypes/bit_vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hwtypes/bit_vector.py b/hwtypes/bit_vector.py
index 10b0d04..d46d967 100644
--- a/hwtypes/bit_vector.py
+++ b/hwtypes/bit_vector.py
@@ -447,7 +447,7 @@ class BitVector(AbstractBitVector):
 
     def as_sint(self):
         value = self._value
-        if self[-1]:
+        if self.size and self[-1]:
             value = value - (1 << self.size)
         return value
 
-- 
2.43.0


From 89e2069d0b851dc03c9704328c478c9962d24ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 29/41] fix: AnonymousProduct rejects reserved field names

---
 hwtypes/adt_meta.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 96a79b8..776a149 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -383,6 +383,9 @@ class AnonymousProductMeta(TupleMeta):
     def _get_idx(cls, idx):
         if not isinstance(idx, tp.Mapping):
             raise TypeError()
+        for field in idx:
+            if field in RESERVED_ATTRS:
+                raise ReservedNameError(f'Field name {field} is reserved by the type machinery')
         return OrderedFrozenDict(idx)
 
     def _idx_from_fields(cls, fields):
-- 
2.43.0


From 390a8a1438734c76ba3762851614092f2195ee35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:06 +0000
Subject: [PATCH 30/41] fix: Tuple rejects slice assignment, which bypassed
 field types

---
 hwtypes/adt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 6c2f55e..0438236 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -46,7 +46,9 @@ class Tuple(metaclass=TupleMeta):
         return self._value_[idx]
 
     def __setitem__(self, idx, value):
-        if isinstance(value, type(self)[idx]):
+        if isinstance(idx, slice):
+            raise TypeError('slice assignment is not supported')
+        elif isinstance(value, type(self)[idx]):
             v = list(self._value_)
             v[idx] = value
             self._value_ = tuple(v)
-- 
2.43.0


From 1e270bedf7be28377a137b9f8b3283644c813a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 31/41] fix: Product and TaggedUnion fields may be called self,
 cls or super

---
 hwtypes/adt.py      |  7 ++++---
 hwtypes/adt_meta.py | 25 +++++++++++++------------
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 0438236..2cea3c2 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -209,18 +209,19 @@ class Sum(metaclass=SumMeta):
 
 
 class TaggedUnion(Sum, metaclass=TaggedUnionMeta):
-    def __init__(self, **kwargs):
+    # not named self as that may be the name of a field
+    def __init__(_self_, **kwargs):
         if len(kwargs) == 0:
             raise ValueError('Must specify a value')
         elif len(kwargs) != 1:
             raise ValueError('Expected one value')
 
-        cls = type(self)
+        cls = type(_self_)
         field, value = next(iter(kwargs.items()))
         if field not in cls.field_dict:
             raise ValueError(f'Invalid field {field}')
 
-        setattr(self, field, value)
+        setattr(_self_, field, value)
 
     def __setitem__(self, T, value):
         raise TypeError(f'setitem syntax is not supported on {type(self)}')
diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 776a149..22eb416 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -236,17 +236,18 @@ class BoundMeta(_GetitemSyntax): #, metaclass=ABCMeta):
     # (UnboundType, (types...)) : BoundType
     _class_cache = weakref.WeakValueDictionary()
 
-    def __call__(cls, *args, **kwargs):
-        if not cls.is_bound:
-            obj = cls.__new__(cls, *args, **kwargs)
+    # not named cls as that may be the name of a field
+    def __call__(_cls_, *args, **kwargs):
+        if not _cls_.is_bound:
+            obj = _cls_.__new__(_cls_, *args, **kwargs)
             if not type(obj).is_bound:
                 raise TypeError('Cannot instance unbound type')
-            if isinstance(obj, cls):
+            if isinstance(obj, _cls_):
                 obj.__init__(*args, **kwargs)
             return obj
         else:
-            obj = cls.__new__(cls, *args, **kwargs)
-            if isinstance(obj, cls):
+            obj = _cls_.__new__(_cls_, *args, **kwargs)
+            if isinstance(obj, _cls_):
                 obj.__init__(*args, **kwargs)
             return obj
         return super().__call__(*args, **kwargs)
@@ -400,8 +401,8 @@ class AnonymousProductMeta(TupleMeta):
         t = super()._from_idx(idx)
         t._field_table_ = idx
 
-        name =  t.unbound_t.__name__
-        gs = {name : t}
+        # names that a field can't shadow
+        gs = {'_t_' : t, '_super_' : super}
 
         ls = {}
 
@@ -410,16 +411,16 @@ class AnonymousProductMeta(TupleMeta):
 
         # build __new__
         __new__ = f'''
-def __new__(cls, {type_sig}):
-    return super({name}, cls).__new__(cls, {arg_list})
+def __new__(_cls_, {type_sig}):
+    return _super_(_t_, _cls_).__new__(_cls_, {arg_list})
 '''
         exec(__new__, gs, ls)
         t.__new__ = ls['__new__']
 
         # build __init__
         __init__ = f'''
-def __init__(self, {type_sig}):
-    return super({name}, self).__init__({arg_list})
+def __init__(_self_, {type_sig}):
+    return _super_(_t_, _self_).__init__({arg_list})
 '''
         exec(__init__, gs, ls)
         t.__init__ = ls['__init__']
-- 
2.43.0


From bebaeaa2bc428921f5e40062b3fbee8f99658787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 32/41] fix: Sum values holding different members are unequal

---
 hwtypes/adt.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hwtypes/adt.py b/hwtypes/adt.py
index 2cea3c2..9657246 100644
--- a/hwtypes/adt.py
+++ b/hwtypes/adt.py
@@ -138,6 +138,10 @@ class Sum(metaclass=SumMeta):
 
     def __eq__(self, other):
         if isinstance(other, type(self)):
+            # values of different members are not comparable
+            for T in type(self).fields:
+                if isinstance(self._value_, T) != isinstance(other._value_, T):
+                    return False
             return self._value_ == other._value_
         else:
             return NotImplemented
-- 
2.43.0


From f12dde5824035f8d14cad2d1f52d5e4dc0c1ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:57 +0000
Subject: [PATCH 33/41] fix: rebind returns the type itself when nothing
 matches

---
 hwtypes/adt_meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index 22eb416..ac68ddd 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -126,6 +126,8 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
                 new_fields.append(T.rebind(A, B, rebind_sub_types))
             else:
                 new_fields.append(T)
+        if new_fields == list(cls.fields):
+            return cls
         return cls.unbound_t[cls._idx_from_fields(new_fields)]
 
 
-- 
2.43.0


From bf09e4a26f89d7bcd90dad015c0b7a57a14c4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 34/41] fix: rebind_keep_modifiers replaces all fields at once

---
 hwtypes/adt_meta.py | 17 +++++++++++++++++
 hwtypes/adt_util.py |  7 ++-----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/hwtypes/adt_meta.py b/hwtypes/adt_meta.py
index ac68ddd..e3bd57e 100644
--- a/hwtypes/adt_meta.py
+++ b/hwtypes/adt_meta.py
@@ -130,6 +130,14 @@ class _GetitemSyntax(type): #(metaclass=ABCMeta):
             return cls
         return cls.unbound_t[cls._idx_from_fields(new_fields)]
 
+    def _map_fields(cls, fn):
+        '''
+        Replaces every field T by fn(T), all at once
+        '''
+        new_fields = [fn(T) for T in cls.fields]
+        if new_fields == list(cls.fields):
+            return cls
+        return cls.unbound_t[cls._idx_from_fields(new_fields)]
 
 
 class _AttrSyntax(type): #, metaclass=ABCMeta):
@@ -230,6 +238,12 @@ class _AttrSyntax(type): #, metaclass=ABCMeta):
         else:
             return cls
 
+    def _map_fields(cls, fn):
+        new_fields = OrderedDict((k, fn(T)) for k, T in cls.field_dict.items())
+        if new_fields == cls.field_dict:
+            return cls
+        return cls.unbound_t.from_fields(cls.__name__, new_fields, cache=cls.is_cached)
+
 
 class BoundMeta(_GetitemSyntax): #, metaclass=ABCMeta):
     # for legacy reasons
@@ -648,3 +662,6 @@ class EnumMeta(_AttrSyntax, BoundMeta):
         # Enums aren't bound to types
         # could potentialy rebind values but that seems annoying
         return cls
+
+    def _map_fields(cls, fn):
+        return cls
diff --git a/hwtypes/adt_util.py b/hwtypes/adt_util.py
index 41e5388..dac1d3b 100644
--- a/hwtypes/adt_util.py
+++ b/hwtypes/adt_util.py
@@ -107,11 +107,8 @@ def rebind_keep_modifiers(adt, A, B):
     if _issubclass(adt,A):
         return B
     elif isinstance(adt, BoundMeta):
-        new_adt = adt
-        for field in adt.fields:
-            new_field = rebind_keep_modifiers(field, A, B)
-            new_adt = new_adt.rebind(field, new_field)
-        return new_adt
+        # not field by field, a new field may equal another old one
+        return adt._map_fields(lambda field: rebind_keep_modifiers(field, A, B))
     else:
         return adt
 
-- 
2.43.0


From fabeb3559f2d40cb0aeb18f9656e49ea6753c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:32 +0000
Subject: [PATCH 35/41] fix: stripping or pushing no modifiers returns the type
 itself

---
 hwtypes/modifiers.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/hwtypes/modifiers.py b/hwtypes/modifiers.py
index 52b33d9..b11244e 100644
--- a/hwtypes/modifiers.py
+++ b/hwtypes/modifiers.py
@@ -139,12 +139,8 @@ def strip_modifiers(adt_t):
     adt_t, _ = unwrap_modifier(adt_t)
     if not hasattr(adt_t, "unbound_t"):
         return adt_t
-    elif isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
-        new_fields = {n:strip_modifiers(sub_adt_t) for n, sub_adt_t in adt_t.field_dict.items()}
-        return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
-    elif isinstance(adt_t, GetitemSyntax):
-        new_fields = [strip_modifiers(sub_adt_t) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
+    elif isinstance(adt_t, (AttrSyntax, GetitemSyntax)) and not isinstance(adt_t, EnumMeta):
+        return adt_t._map_fields(strip_modifiers)
     else:
         return adt_t
 
@@ -153,12 +149,8 @@ def push_modifiers(adt_t, mods=[]):
     #remove modifiers from this level
     adt_t, new_mods = unwrap_modifier(adt_t)
     mods = new_mods + mods
-    if isinstance(adt_t, AttrSyntax) and not isinstance(adt_t, EnumMeta):
-        new_fields = {n:push_modifiers(sub_adt_t, mods) for n, sub_adt_t in adt_t.field_dict.items()}
-        return adt_t.unbound_t.from_fields(adt_t.__name__, new_fields)
-    elif isinstance(adt_t, GetitemSyntax):
-        new_fields = [push_modifiers(sub_adt_t, mods) for sub_adt_t in adt_t.fields]
-        return adt_t.unbound_t[adt_t._idx_from_fields(new_fields)]
+    if isinstance(adt_t, (AttrSyntax, GetitemSyntax)) and not isinstance(adt_t, EnumMeta):
+        return adt_t._map_fields(lambda sub_adt_t: push_modifiers(sub_adt_t, mods))
     else:
         return wrap_modifier(adt_t, mods)
 
-- 
2.43.0


From aab57513aad4135b2d082455165379efa0bdfd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:20 +0000
Subject: [PATCH 36/41] fix: a refused construction reserves no SMT name;
 unnamed SMTFPVectors do

---
 hwtypes/smt_bit_vector.py | 8 ++------
 hwtypes/smt_fp_vector.py  | 2 +-
 hwtypes/smt_int.py        | 4 +---
 hwtypes/z3_bit_vector.py  | 6 ++----
 4 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 38c47d2..1e391d3 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -74,16 +74,14 @@ class SMTBit(AbstractBit):
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
         elif prefix is not AUTOMATIC:
             name = _gen_name(prefix)
-            _name_table[name] = self
         elif name is AUTOMATIC and value is SMYBOLIC:
             name = _gen_name()
-            _name_table[name] = self
 
         if value is SMYBOLIC:
             self._value = smt.Symbol(name, BOOL)
+            _name_table[name] = self
         elif isinstance(value, pysmt.fnode.FNode):
             if value.get_type().is_bool_type():
                 self._value = value
@@ -238,13 +236,10 @@ class SMTBitVector(AbstractBitVector):
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
         elif prefix is not AUTOMATIC:
             name = _gen_name(prefix)
-            _name_table[name] = self
         elif name is AUTOMATIC and value is SMYBOLIC:
             name = _gen_name()
-            _name_table[name] = self
 
         self._name = name
 
@@ -252,6 +247,7 @@ class SMTBitVector(AbstractBitVector):
 
         if value is SMYBOLIC:
             self._value = smt.Symbol(name, T)
+            _name_table[name] = self
         elif isinstance(value, pysmt.fnode.FNode):
             t = value.get_type()
             if t is T:
diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index ba99638..72d8cba 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -47,7 +47,6 @@ class SMTFPVector(AbstractFPVector):
                 raise TypeError('Name must be string')
             elif name in _name_table:
                 raise ValueError(f'Name {name} already in use')
-            _name_table[name] = self
 
         T = BVType(self.size)
 
@@ -56,6 +55,7 @@ class SMTFPVector(AbstractFPVector):
                 value = shortcuts.FreshSymbol(T)
             else:
                 value = shortcuts.Symbol(name, T)
+            _name_table[value.symbol_name()] = self
         elif isinstance(value, pysmt.fnode.FNode):
             t = value.get_type()
             if t is not T:
diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index 9b7b17a..d171c56 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -36,16 +36,14 @@ class SMTInt:
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
         elif prefix is not AUTOMATIC:
             name = _gen_name(prefix)
-            _name_table[name] = self
         elif name is AUTOMATIC and value is SMYBOLIC:
             name = _gen_name()
-            _name_table[name] = self
 
         if value is SMYBOLIC:
             self._value = smt.Symbol(name, INT)
+            _name_table[name] = self
         elif isinstance(value, pysmt.fnode.FNode):
             if value.get_type().is_int_type():
                 self._value = value
diff --git a/hwtypes/z3_bit_vector.py b/hwtypes/z3_bit_vector.py
index 448fe9b..78913c0 100644
--- a/hwtypes/z3_bit_vector.py
+++ b/hwtypes/z3_bit_vector.py
@@ -65,13 +65,12 @@ class z3Bit(AbstractBit):
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
         elif name is AUTOMATIC and value is SMYBOLIC:
             name = _gen_name()
-            _name_table[name] = self
 
         if value is SMYBOLIC:
             self._value = z3.Bool(name)
+            _name_table[name] = self
         elif isinstance(value, z3.BoolRef):
             self._value = value
         elif isinstance(value, z3Bit):
@@ -192,16 +191,15 @@ class z3BitVector(AbstractBitVector):
                 raise ValueError(f'Name {name} already in use')
             elif _name_re.fullmatch(name):
                 warnings.warn('Name looks like an auto generated name, this might break things')
-            _name_table[name] = self
         elif name is AUTOMATIC and value is SMYBOLIC:
             name = _gen_name()
-            _name_table[name] = self
         self._name = name
 
         T = z3.BitVecSort(self.size)
 
         if value is SMYBOLIC:
             self._value = z3.BitVec(name, T)
+            _name_table[name] = self
         elif isinstance(value, z3.BitVecRef):
             t = value.sort()
             if t == T:
-- 
2.43.0


From aff1428b3845fb3f1e5c9ecb106548d1f6a9effd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:55 +0000
Subject: [PATCH 37/41] fix: dividing two constant SMTInts is exact

---
 hwtypes/smt_int.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_int.py b/hwtypes/smt_int.py
index d171c56..eaede16 100644
--- a/hwtypes/smt_int.py
+++ b/hwtypes/smt_int.py
@@ -23,6 +23,13 @@ def int_cast(fn):
             return fn(self, other)
     return wrapped
 
+def _div(left, right):
+    # pysmt folds the division of two constants in floating point
+    if left.is_int_constant() and right.is_int_constant() and not right.is_zero():
+        l, r = left.constant_value(), right.constant_value()
+        return smt.Int(l // r if r > 0 else -(l // -r))
+    return smt.Div(left, right)
+
 class SMTInt:
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC, prefix=AUTOMATIC):
         if (name is not AUTOMATIC or prefix is not AUTOMATIC) and value is not SMYBOLIC:
@@ -104,11 +111,11 @@ class SMTInt:
 
     @int_cast
     def __floordiv__(self, other: 'SMTInt') -> 'SMTInt':
-        return SMTInt(smt.Div(self.value, other.value))
+        return SMTInt(_div(self.value, other.value))
 
     @int_cast
     def __rfloordiv__(self, other: 'SMTInt') -> 'SMTInt':
-        return SMTInt(smt.Div(other.value, self.value))
+        return SMTInt(_div(other.value, self.value))
 
     @int_cast
     def __ge__(self, other: 'SMTInt') -> SMTBit:
-- 
2.43.0


From aeec5dade3a4b7e6a781def56b04dc3e156329b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:59 +0000
Subject: [PATCH 38/41] fix: SMTFPVector types of the same name do not share
 functions

---
 hwtypes/smt_fp_vector.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 72d8cba..2098ec9 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -37,6 +37,18 @@ _SIGS = [
 
 _uf_table = weakref.WeakKeyDictionary()
 
+def _uf_prefix(cls, fn_type):
+    # types of the same name must not share functions
+    used = {ufs['prefix'] for ufs in _uf_table.values()}
+    symbols = shortcuts.get_env().formula_manager.symbols
+    prefix = cls.__name__
+    n = 0
+    while prefix in used or (
+            f'{prefix}.fp_abs' in symbols
+            and symbols[f'{prefix}.fp_abs'].symbol_type() is not fn_type):
+        n += 1
+        prefix = f'{cls.__name__}!{n}'
+    return prefix
 
 class SMTFPVector(AbstractFPVector):
     def __init__(self, value=SMYBOLIC, *, name=AUTOMATIC):
@@ -73,13 +85,14 @@ class SMTFPVector(AbstractFPVector):
     def __init_subclass__(cls):
         if not cls.is_bound:
             return
-        _uf_table[cls] = ufs = dict()
         T = BVType(cls.size)
+        prefix = _uf_prefix(cls, FunctionType(T, [T]))
+        _uf_table[cls] = ufs = dict(prefix=prefix)
         for method_name, *args in _SIGS:
             args = [T if x is None else x for x in args]
             rtype = args[-1]
             params = args[:-1]
-            name = '.'.join((cls.__name__, method_name))
+            name = '.'.join((prefix, method_name))
             ufs[method_name] = shortcuts.Symbol(name, FunctionType(rtype, params))
 
         ufs['to_sbv'] = dict()
@@ -171,7 +184,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_ubv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_ubv[{size}]'))
+            name = '.'.join((_uf_table[cls]['prefix'], f'to_ubv[{size}]'))
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
@@ -183,7 +196,7 @@ class SMTFPVector(AbstractFPVector):
         cls = type(self)
         ufs = _uf_table[cls]['to_sbv']
         if size not in ufs:
-            name = '.'.join((cls.__name__, f'to_sbv[{size}]'))
+            name = '.'.join((_uf_table[cls]['prefix'], f'to_sbv[{size}]'))
             ufs[size] = shortcuts.Symbol(
                 name,
                 FunctionType(BVType(size), (BVType(self.size),))
-- 
2.43.0


From 7f4ea38ec1041c8b6870a33a91537a849310a8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:18 +0000
Subject: [PATCH 39/41] fix: SMTFPVector.fp_min and fp_max take two operands

---
 hwtypes/smt_fp_vector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hwtypes/smt_fp_vector.py b/hwtypes/smt_fp_vector.py
index 2098ec9..e568aa3 100644
--- a/hwtypes/smt_fp_vector.py
+++ b/hwtypes/smt_fp_vector.py
@@ -19,8 +19,8 @@ _SIGS = [
     ('fp_sqrt', None, None,),
     ('fp_rem', None, None,None),
     ('fp_round_to_integral', None, None,),
-    ('fp_min', None, None,),
-    ('fp_max', None, None,),
+    ('fp_min', None, None, None,),
+    ('fp_max', None, None, None,),
     ('fp_leq', None, None, BOOL,),
     ('fp_lt', None, None, BOOL,),
     ('fp_geq', None, None, BOOL,),
-- 
2.43.0


From 824c22dc0e803d8c2351206c3f6cffe7c995f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:46 +0000
Subject: [PATCH 40/41] fix: FPVector.random draws every mantissa and honours
 allow_inf=False

---
 hwtypes/fp_vector.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/hwtypes/fp_vector.py b/hwtypes/fp_vector.py
index 69a9e5a..a1df1d4 100644
--- a/hwtypes/fp_vector.py
+++ b/hwtypes/fp_vector.py
@@ -382,13 +382,11 @@ class FPVector(AbstractFPVector):
     @set_context
     def random(cls, allow_inf=True) -> 'FPVector':
         bias = (1 << (cls.exponent_size - 1)) - 1
+        sign = random.choice([-1, 1])
+        # scale an integer, a rounded fraction could reach the next exponent
+        mantissa = (1 << cls.mantissa_size) + random.getrandbits(cls.mantissa_size)
         if allow_inf:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
             exp = random.randint(1-bias, bias+1)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
         else:
-            sign = random.choice([-1, 1])
-            mantissa = gmpy2.mpfr_random(gmpy2.random_state()) + 1
             exp = random.randint(1-bias, bias)
-            return cls(mantissa*sign*(gmpy2.mpfr(2)**gmpy2.mpfr(exp)))
+        return cls(sign*mantissa*gmpy2.mpq(2)**(exp - cls.mantissa_size))
-- 
2.43.0


From d3b8a07e142e9b0b60c5022c4457a0b814d998f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:54 +0000
Subject: [PATCH 41/41] fix: SMTBitVector truncated concrete vectors of another
 width

---
 hwtypes/smt_bit_vector.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hwtypes/smt_bit_vector.py b/hwtypes/smt_bit_vector.py
index 1e391d3..728de99 100644
--- a/hwtypes/smt_bit_vector.py
+++ b/hwtypes/smt_bit_vector.py
@@ -169,10 +169,11 @@ class SMTBit(AbstractBit):
 
 
 def _coerce(T : tp.Type['SMTBitVector'], val : tp.Any) -> 'SMTBitVector':
-    if not isinstance(val, SMTBitVector):
-        return T(val)
-    elif val.size != T.size:
+    # concrete vectors too, T(val) would truncate them
+    if isinstance(val, AbstractBitVector) and val.size != T.size:
         raise InconsistentSizeError('Inconsistent size')
+    elif not isinstance(val, SMTBitVector):
+        return T(val)
     else:
         return val
 
-- 
2.43.0

