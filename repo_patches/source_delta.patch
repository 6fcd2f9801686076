From d6608c7f5d5fde85a3c2357c377cc4ed3236f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 01/46] fix: opcodes outside every range of a multi-range
 validator are invalid

---
 peak/assembler/assembler_util.py  | 2 +-
 peak/assembler2/assembler_util.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 779cb9f..707d467 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -118,6 +118,6 @@ def _gen_is_valid(
                 return ft.reduce(
                         operator.or_,
                         (f(opcode) for f in range_validators),
-                        opcode.get_family().Bit(1))
+                        opcode.get_family().Bit(0))
 
     return _validator_cache.setdefault(opcodes, is_valid)
-- 
2.43.0


From eedc809b48803942e37fda8e4e3028e6e48751d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 02/46] fix: key the validator cache on the width as well as
 the opcodes

---
 peak/assembler/assembler_util.py  | 10 ++++++----
 peak/assembler2/assembler_util.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 707d467..882a214 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -20,8 +20,10 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # the validator depends on the width as well as on the opcodes
+    key = opcodes, width
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +38,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +48,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +122,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 707d467..882a214 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -20,8 +20,10 @@ def _gen_is_valid(
     Generates an is_valid function from a set of opcodes.
     '''
     opcodes = tuple(sorted(opcodes))
+    # the validator depends on the width as well as on the opcodes
+    key = opcodes, width
     try:
-        return _validator_cache[opcodes]
+        return _validator_cache[key]
     except KeyError:
         pass
 
@@ -36,7 +38,7 @@ def _gen_is_valid(
     if is_range and implicit_lb and implicit_ub:
         def is_valid(opcode: AbstractBitVector) -> AbstractBit:
             return opcode.get_family().Bit(1)
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # The naive approach
     def is_valid(opcode: AbstractBitVector) -> AbstractBit:
@@ -46,7 +48,7 @@ def _gen_is_valid(
 
     if len(opcodes) < 3:
         # No point in doing anything fancy for less than 3 options
-        return _validator_cache.setdefault(opcodes, is_valid)
+        return _validator_cache.setdefault(key, is_valid)
 
     # Check for single contiguous range
     if is_range:
@@ -120,4 +122,4 @@ def _gen_is_valid(
                         (f(opcode) for f in range_validators),
                         opcode.get_family().Bit(0))
 
-    return _validator_cache.setdefault(opcodes, is_valid)
+    return _validator_cache.setdefault(key, is_valid)
-- 
2.43.0


From 6a77d1d3fbd29a2a2e76d3b7df76c14b9138945e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:58 +0000
Subject: [PATCH 03/46] fix: disassemble_tag raises ValueError instead of
 NameError on an invalid tag

---
 peak/assembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 088d2ee..cff3fda 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -74,7 +74,7 @@ class Assembler(AbstractAssembler):
         if not _issubclass(self.isa, Sum):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
-            raise ValueError(f'invalid tag: {opcode}')
+            raise ValueError(f'invalid tag: {tag}')
         return self._tag_dsm(tag)
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
-- 
2.43.0


From c09c25495468b7ebe743235df39dba5571b7187d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 04/46] fix: from_fields accepts zero width fields and tags

---
 peak/assembler/assembled_adt.py | 5 ++++-
 peak/assembler2/assembler.py    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 817d3f6..1dd3fef 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -38,12 +38,15 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
     slots = [bv_type[1](default_value) for i in range(width)]
     for field_name, (low, hi) in layout.items():
+        # zero width fields occupy no slot
+        if low == hi:
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 2d0ed00..9b20ba4 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -73,7 +73,7 @@ def _create_from_layout(width, layout, field_bvs):
             type(r0) == type(r1) == tuple
             and len(r0) == len(r1) == 2
             # ranges are not overlapping and are bounded by (0, width)
-            and 0 <= r0[0] < r0[1] <= r1[0] < r1[1] <= width
+            and 0 <= r0[0] <= r0[1] <= r1[0] <= r1[1] <= width
             for r0, r1 in zip(ranges, ranges[1:])):
         raise ValueError('invalid layout')
 
@@ -88,6 +88,9 @@ def _create_from_layout(width, layout, field_bvs):
 
     slots = [T[1]() for _ in range(width)]
     for field_name, (low, hi) in layout.items():
+        # zero width fields occupy no slot
+        if low == hi:
+            continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
     bv = ft.reduce(T.concat, (s for s in slots if s is not None))
-- 
2.43.0


From 5b0f9d6b8c793ef6987cba6b923669bce3487fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:33 +0000
Subject: [PATCH 05/46] fix: use the hwtypes names of the rounding modes in the
 variable rounding mode ops

---
 peak/float.py | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index e6b74a7..6548a01 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -136,19 +136,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -174,19 +174,19 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)(in1_rtz)
                         out = out_rtz
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                        in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                        in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
                         out_rdn = getattr(in0_rdn, op_name)(in1_rdn)
                         out = out_rdn
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                        in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                        in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                        in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
                         out = out_rmm
                     return out
@@ -210,16 +210,16 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rtz = getattr(in0_rtz, op_name)()
                         out = out_rtz.reinterpret_as_bv()
                     elif rm == RoundingMode.RDN:
-                        in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
+                        in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
                         out = out_rdn.reinterpret_as_bv()
                     elif rm == RoundingMode.RUP:
-                        in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
                     else:
                         assert  rm == RoundingMode.RMM
-                        in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
+                        in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
                     return out
@@ -255,22 +255,22 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rtz = in0_rtz.fp_fma(in1_rtz, in2_rtz)
                     out = out_rtz.reinterpret_as_bv()
                 elif rm == RoundingMode.RDN:
-                    in0_rdn = cast(RoundingMode_hwtypes.RDN, in0)
-                    in1_rdn = cast(RoundingMode_hwtypes.RDN, in1)
-                    in2_rdn = cast(RoundingMode_hwtypes.RDN, in2)
+                    in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
+                    in1_rdn = cast(RoundingMode_hwtypes.RTN, in1)
+                    in2_rdn = cast(RoundingMode_hwtypes.RTN, in2)
                     out_rdn = in0_rdn.fp_fma(in1_rdn, in2_rdn)
                     out = out_rdn.reinterpret_as_bv()
                 elif rm == RoundingMode.RUP:
-                    in0_rup = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rup = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rup = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
+                    in1_rup = cast(RoundingMode_hwtypes.RTP, in1)
+                    in2_rup = cast(RoundingMode_hwtypes.RTP, in2)
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
                 else:
                     assert  rm == RoundingMode.RMM
-                    in0_rmm = cast(RoundingMode_hwtypes.RUP, in0)
-                    in1_rmm = cast(RoundingMode_hwtypes.RUP, in1)
-                    in2_rmm = cast(RoundingMode_hwtypes.RUP, in2)
+                    in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
+                    in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
+                    in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
                     out_rmm = in0_rmm.fp_fma(in1_rmm, in2_rmm)
                     out = out_rmm.reinterpret_as_bv()
                 return out
-- 
2.43.0


From cbd6ceda67ada9033dd2c54c8e8ee9c21276ddb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 06/46] fix: const_rm Fma refers to the existing FMA closure

---
 peak/float.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/float.py b/peak/float.py
index 6548a01..55034eb 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -352,7 +352,7 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         @family_closure
         def _fp_fma(family):
             rm_ = family.get_constructor(RoundingMode)(rm)
-            FMA = fp_fma_fc(family)
+            FMA = fp_fma(family)
             @family.assemble(locals(), globals())
             class _FMA(Peak):
                 def __init__(self):
-- 
2.43.0


From ab18991423799006af1b6705a00edbaa16ce0c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 07/46] fix: drop asserts on unselected branches from the
 rounding mode ops

They are executed unconditionally once the branches are if-converted, which
made the ops unusable in PyXFamily.
---
 peak/float.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index 55034eb..a67b201 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -146,7 +146,6 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup.reinterpret_as_bv()
                     else:
-                        assert  rm == RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
@@ -184,7 +183,6 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rup = getattr(in0_rup, op_name)(in1_rup)
                         out = out_rup
                     else:
-                        assert  rm == RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                         out_rmm = getattr(in0_rmm, op_name)(in1_rmm)
@@ -218,7 +216,6 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                         out_rup = getattr(in0_rup, op_name)()
                         out = out_rup.reinterpret_as_bv()
                     else:
-                        assert  rm == RoundingMode.RMM
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
                         out = out_rmm.reinterpret_as_bv()
@@ -267,7 +264,6 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
                     out_rup = in0_rup.fp_fma(in1_rup, in2_rup)
                     out = out_rup.reinterpret_as_bv()
                 else:
-                    assert  rm == RoundingMode.RMM
                     in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                     in1_rmm = cast(RoundingMode_hwtypes.RNA, in1)
                     in2_rmm = cast(RoundingMode_hwtypes.RNA, in2)
-- 
2.43.0


From 9c4735da15d13be2368d0ddef26bef0f88d8540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 08/46] fix: the fp_is_* float ops return a Bit

---
 peak/float.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index a67b201..b0abec7 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -191,34 +191,42 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
             return Op
         return fc
 
+    # fp_is_* are predicates: they return a Bit instead of a float
+    def _gen_unary_out(op_name):
+        if op_name.startswith('fp_is_'):
+            return Bit, lambda v: v
+        else:
+            return Data, lambda v: v.reinterpret_as_bv()
+
     @lru_cache(None)
     def gen_unary(op_name):
+        Out, as_out = _gen_unary_out(op_name)
         @family_closure
         def fc(family: TypeFamily):
             cast = _get_cast(family)
             @family.assemble(locals(), globals())
             class Op(Peak, BlackBox):
-                def __call__(self, rm: RoundingMode, in0: Data) -> Data:
+                def __call__(self, rm: RoundingMode, in0: Data) -> Out:
                     if rm == RoundingMode.RNE:
                         in0_rne = cast(RoundingMode_hwtypes.RNE, in0)
                         out_rne = getattr(in0_rne, op_name)()
-                        out = out_rne.reinterpret_as_bv()
+                        out = as_out(out_rne)
                     elif rm == RoundingMode.RTZ:
                         in0_rtz = cast(RoundingMode_hwtypes.RTZ, in0)
                         out_rtz = getattr(in0_rtz, op_name)()
-                        out = out_rtz.reinterpret_as_bv()
+                        out = as_out(out_rtz)
                     elif rm == RoundingMode.RDN:
                         in0_rdn = cast(RoundingMode_hwtypes.RTN, in0)
                         out_rdn = getattr(in0_rdn, op_name)()
-                        out = out_rdn.reinterpret_as_bv()
+                        out = as_out(out_rdn)
                     elif rm == RoundingMode.RUP:
                         in0_rup = cast(RoundingMode_hwtypes.RTP, in0)
                         out_rup = getattr(in0_rup, op_name)()
-                        out = out_rup.reinterpret_as_bv()
+                        out = as_out(out_rup)
                     else:
                         in0_rmm = cast(RoundingMode_hwtypes.RNA, in0)
                         out_rmm = getattr(in0_rmm, op_name)()
-                        out = out_rmm.reinterpret_as_bv()
+                        out = as_out(out_rmm)
                     return out
             return Op
         return fc
@@ -284,16 +292,17 @@ def float_lib_gen(exp_bits: int, frac_bits: int, ieee_compliance: bool = False):
         assert isinstance(rm, RoundingMode)
 
         def gen_const_rm_unary(op_name):
+            Out, as_out = _gen_unary_out(op_name)
             @family_closure
             def fc(family):
                 cast = _get_cast_const_rm(rm, family)
 
                 @family.assemble(locals(), globals())
                 class Op(Peak, BlackBox):
-                    def __call__(self, in_: Data) -> Data:
+                    def __call__(self, in_: Data) -> Out:
                         in_float = cast(in_)
                         out_float = getattr(in_float, op_name)()
-                        out = out_float.reinterpret_as_bv()
+                        out = as_out(out_float)
                         return out
 
                 return Op
-- 
2.43.0


From b64f9731943d37f8602c5e3ee79c3ff02a180c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 09/46] fix: black boxes record keyword inputs in declaration
 order

---
 peak/black_box.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index c67f0f7..b6f5a5a 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -54,7 +54,8 @@ class BlackBox:
             else:
                 if kwargs.keys() != input_t.field_dict.keys():
                     raise ValueError(f"{self} need to call with input_t {list(input_t.field_dict.items())}")
-                self._input_vals = tuple(kwargs.values())
+                # record in declaration order, not in call order
+                self._input_vals = tuple(kwargs[k] for k in input_t.field_dict)
             return self._output_vals
         if hasattr(old_call, "_input_t"):
             assert hasattr(old_call, "_output_t")
-- 
2.43.0


From f49bd0684c06bbd2e3b958f488b89bd55ecbb164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:56 +0000
Subject: [PATCH 10/46] fix: RewriteRule detects unbound Const arch paths

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index bf6147e..4f0a111 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -220,7 +220,7 @@ class RewriteRule:
         arch_path_types = _create_path_to_adt(arch_fc.Py.input_t)
         self.ibinding = []
         for ir_path, arch_path in ibinding:
-            if ir_path is Unbound and isinstance(arch_path_types[arch_path], Const):
+            if ir_path is Unbound and issubclass(arch_path_types[arch_path], Const):
                 raise ValueError(f"Arch path {arch_path} needs to have a value")
             elif ir_path is not Unbound and not isinstance(ir_path, tuple):
                 #Build the python bitvector and verify it is valid
@@ -245,7 +245,7 @@ class RewriteRule:
         for ir_path, arch_path in self.ibinding:
             if isinstance(ir_path, tuple):
                 ir_paths.add(ir_path)
-            elif ir_path is Unbound and not isinstance(arch_path_types[arch_path], Const):
+            elif ir_path is Unbound and not issubclass(arch_path_types[arch_path], Const):
                 arch_paths.add(arch_path)
         return ir_paths, arch_paths
 
-- 
2.43.0


From afb9318159023c302517b9abcac26f6f8cd271d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 11/46] fix: rewrite rules bind constrained non Const paths to
 one of their constraints

---
 peak/mapper/mapper.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 4f0a111..b8869d9 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -844,7 +844,12 @@ def rr_from_solver(solver, irmapper):
     bv_ibinding = []
     for ir_path, arch_path in ibinding:
         if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
-            var = am.input_varmap[arch_path]
+            if arch_path in am.const_paths:
+                var = am.input_varmap[arch_path]
+            else:
+                # Constrained but universally quantified, so the solver
+                # has no say in its value. Any of the constraints will do
+                var = am.path_constraints[arch_path][0]
             bv_val = solved_to_bv(var, solver)
             ir_path = bv_val
         bv_ibinding.append((ir_path, arch_path))
-- 
2.43.0


From b3d03d7f9d0f9126b37fb65f067a4cbfc7e51bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:32 +0000
Subject: [PATCH 12/46] fix: path constraints on Enum leaves are compared as
 bitvectors

---
 peak/mapper/mapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index b8869d9..13dec11 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -197,6 +197,8 @@ class ArchMapper(SMTMapper):
             except Exception as e:
                 print("Invalid constraints for {path}")
                 raise e
+            # The leaves of the varmap are never assembled adts
+            constraints = tuple(c._value_ if isinstance(c, AssembledADT) else c for c in constraints)
             path_constraints[path] =constraints
 
         self.path_constraints = path_constraints
-- 
2.43.0


From ab75893124374eff3fc5c6bb276d82d1f1cbcff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:55 +0000
Subject: [PATCH 13/46] fix: read Consts that are also universally quantified
 from their existential copy

With the simple formula a Const arch path which is bound to the ir in some
bindings and unbound in others is replaced by ite(exists, forall), the value
for the rule has to come from the former.
---
 peak/mapper/mapper.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 13dec11..e899943 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -554,6 +554,9 @@ class IRMapper(SMTMapper):
 
 
 
+        # arch_path -> existentially quantified var holding the value of a Const
+        self.exists_varmap = dict(archmapper.input_varmap)
+
         use_input_sub = True
         #--------------------------------------------
         if simple_formula:
@@ -597,6 +600,9 @@ class IRMapper(SMTMapper):
             #name -> var
             name_to_var = {}
 
+            #name -> arch_path
+            name_to_arch_path = {}
+
             fb_conditions = {} #form/binding conditions in a list
             for fi, ibindings in enumerate(input_bindings):
                 fi_conditions = [form_var.match_index(fi)]
@@ -607,6 +613,7 @@ class IRMapper(SMTMapper):
                         arch_name = ".".join(["A"] + [str(p) for p in arch_path])
                         arch_var = archmapper.input_varmap[arch_path]
                         name_to_var[arch_name] = arch_var
+                        name_to_arch_path[arch_name] = arch_path
                         is_unbound = ir_path is Unbound
                         is_constrained = arch_path in self.archmapper.path_constraints
                         is_const = issubclass(arch_input_path_to_adt[arch_path], Const)
@@ -644,6 +651,7 @@ class IRMapper(SMTMapper):
                 e_conds = Or([(form_var.match_index(fi) & ib_var.match_index(bi)) for fi,bi in exists_fbs]).to_hwtypes()
                 sub_var = e_conds.ite(var_e, var_a)
                 overlap_subs.append((var, sub_var))
+                self.exists_varmap[name_to_arch_path[name]] = var_e
                 pysmt_forall_vars.remove(var.value)
                 pysmt_forall_vars.add(var_a.value)
                 #Will need to do an input transformation
@@ -847,7 +855,7 @@ def rr_from_solver(solver, irmapper):
     for ir_path, arch_path in ibinding:
         if (ir_path is Unbound) and (arch_path in am.const_paths or arch_path in am.path_constraints):
             if arch_path in am.const_paths:
-                var = am.input_varmap[arch_path]
+                var = im.exists_varmap[arch_path]
             else:
                 # Constrained but universally quantified, so the solver
                 # has no say in its value. Any of the constraints will do
-- 
2.43.0


From 9de8b09d426eadbe6dba0dd6f27604f6cbba0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 14/46] fix: a family is not equal to families of its
 subclasses

---
 peak/family.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/family.py b/peak/family.py
index 692ba2e..cc14354 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -35,7 +35,8 @@ class AbstractFamily(metaclass=ABCMeta):
             logger.debug('\n'.join(msg))
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        # A subclass may behave (and hash) differently
+        if type(other) is type(self):
             return True
         else:
             return NotImplemented
-- 
2.43.0


From e14f9eef7b42758be528b508ceb8aa53cead5473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 15/46] fix: SMTForms of an existing TaggedUnion value reads
 members by name

---
 peak/mapper/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index fb6dffa..ca88ece 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -130,7 +130,7 @@ class SMTForms(AssembledADTRecursor):
             if value is None:
                 sub_value = None
             else:
-                sub_value = value[field].value
+                sub_value = getattr(value, field_name).value
 
             sub_forms, sub_varmap, _sub_value = self(sub_aadt_t, path=path + (field_name,), value=sub_value)
             _value = aadt_t.from_fields(tag_bv=tag, **{field_name: _sub_value})
-- 
2.43.0


From 6e83d865f50b7acf4e1fbe148f19a4bf4d0afca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 16/46] fix: typecheck rejects a wrong number of outputs

---
 peak/features.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/peak/features.py b/peak/features.py
index 8e9562d..ca94a9c 100644
--- a/peak/features.py
+++ b/peak/features.py
@@ -85,6 +85,8 @@ def typecheck(call_fn):
         single_output = not isinstance(results, tuple)
         if single_output:
             results = (results,)
+        if len(results) != len(output_t.field_dict):
+            raise TypeError(f"expected {len(output_t.field_dict)} outputs but got {len(results)} in {call_fn}")
         for i, (oname, otype) in enumerate(output_t.field_dict.items()):
             if not isinstance(results[i], otype):
                 raise TypeError(f"result type for output {oname} : {type(results[i])} did not match expected type {otype} in {call_fn}")
-- 
2.43.0


From 72fdce409631df9790d72c9e87103851dc3b1385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:10 +0000
Subject: [PATCH 17/46] fix: size of an Enum fits its largest value

---
 peak/bitfield.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 2ca967b..e671055 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -25,7 +25,8 @@ def size(type):
     elif issubclass(type, AbstractBitVector):
         s = type.size
     elif issubclass(type, Enum):
-        return clog2(len(list(type.enumerate())))
+        # values need not be contiguous
+        return clog2(max(e._value_ for e in type.enumerate()) + 1)
     elif issubclass(type, Product):
         s = sum([size(getattr(type,key)) for key in type.field_dict])
     elif issubclass(type, Sum):
-- 
2.43.0


From baa3b71cf35b4272ca0f378fdaf277f630f002ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:47 +0000
Subject: [PATCH 18/46] fix: assemble negative signed vectors as their bits

---
 peak/assembler/assembler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index cff3fda..81488ab 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -269,7 +269,8 @@ def _field(isa : tp.Type[AbstractBitVector]):
     layout = {}
 
     def assembler(inst):
-        return int(inst)
+        # int(inst) is negative for negative signed vectors
+        return int(inst) & ((1 << width) - 1)
 
     def disassembler(opcode):
         return isa(opcode)
-- 
2.43.0


From b0a424b3a49dae823df85eb80d7cb96ca289a220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 19/46] fix: assemble bits and signed vectors in every family

---
 peak/assembler2/assembler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 9b20ba4..94a36a3 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -372,6 +372,9 @@ def _field(isa : tp.Type[AbstractBitVector]):
         raise TypeError()
 
     def asm(inst: 'isa', bv_type: tp.Type[AbstractBitVector]) -> AbstractBitVector:
+        if isinstance(inst, (Bit, BitVector)):
+            # not all families accept bits and negative signed vectors
+            inst = int(inst) & ((1 << width) - 1)
         return bv_type[width](inst)
 
     def from_fields(v):
-- 
2.43.0


From 4614eb55572d98d1a98b73bf97481fb9ec7fc7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 20/46] fix: disassemble_tag looks tags up by their value

---
 peak/assembler/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 81488ab..c846d17 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -75,7 +75,7 @@ class Assembler(AbstractAssembler):
             raise TypeError('can only disassemble tag for Sum')
         if not self.is_valid_tag(tag):
             raise ValueError(f'invalid tag: {tag}')
-        return self._tag_dsm(tag)
+        return self._tag_dsm(tag.as_uint())
 
     def is_valid_tag(self, tag: AbstractBitVector) -> AbstractBit:
         if not _issubclass(self.isa, Sum):
-- 
2.43.0


From 39649f7aa877fba136b71053f3db97ec69830ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 21/46] fix: tags of sums of sums do not depend on set order

---
 peak/assembler/assembler.py  | 21 ++++++++++++++++++++-
 peak/assembler2/assembler.py | 21 ++++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index c846d17..1c15a0c 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -177,6 +177,25 @@ def _tuple(isa: tp.Type[Tuple]):
     return assemble, disassemble, is_valid, width, layout
 
 
+def _stable_name(T: BoundMeta) -> str:
+    # An anonymous Sum is named after its options, which are in a set.
+    # Hence their order in the name changes from run to run.
+    if T.__bases__ == (Sum,) or T.__bases__ == (Tuple,):
+        base, = T.__bases__
+        names = [_stable_name(t) if isinstance(t, BoundMeta) else t.__name__
+                    for t in T.fields]
+        if base is Sum:
+            names.sort()
+        return f'{base.__name__}[{", ".join(names)}]'
+    return T.__name__
+
+
+def _sort_key(item):
+    # repr(item) with stable names
+    return tuple(_stable_name(x) if isinstance(x, BoundMeta) else repr(x)
+                    for x in item)
+
+
 def _sum(isa: tp.Type[Sum]):
     name_to_field = {}
     name_to_tag = {}
@@ -190,7 +209,7 @@ def _sum(isa: tp.Type[Sum]):
 
     sorted_fields = list(sorted(
         isa.field_dict.items(),
-        key=repr
+        key=_sort_key
     ))
 
     payload_width = 0
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 94a36a3..bfd0eed 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -243,6 +243,25 @@ def _extend_to_width(bv, w):
 
     return bv.zext(w - bv.size)
 
+def _stable_name(T: BoundMeta) -> str:
+    # An anonymous Sum is named after its options, which are in a set.
+    # Hence their order in the name changes from run to run.
+    if T.__bases__ == (Sum,) or T.__bases__ == (Tuple,):
+        base, = T.__bases__
+        names = [_stable_name(t) if isinstance(t, BoundMeta) else t.__name__
+                    for t in T.fields]
+        if base is Sum:
+            names.sort()
+        return f'{base.__name__}[{", ".join(names)}]'
+    return T.__name__
+
+
+def _sort_key(item):
+    # repr(item) with stable names
+    return tuple(_stable_name(x) if isinstance(x, BoundMeta) else repr(x)
+                    for x in item)
+
+
 def _sum(isa: tp.Type[Sum]):
     name_to_field = {}
     name_to_tag = {}
@@ -256,7 +275,7 @@ def _sum(isa: tp.Type[Sum]):
 
     sorted_fields = list(sorted(
         isa.field_dict.items(),
-        key=repr
+        key=_sort_key
     ))
 
     payload_width = 0
-- 
2.43.0


From d739a5e503dd467b7d3fadbcfaaed17626883cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 22/46] fix: build assembled values from signed fields
 symbolically

---
 peak/assembler/assembled_adt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index 1dd3fef..a93b3d0 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -49,7 +49,9 @@ def _create_from_layout(width, layout, field_bvs, bv_type: AbstractBitVector, de
             continue
         # need to add None to keep the indexing consistent
         slots[low:hi] = field_bvs[field_name], *(None for _ in range(low+1, hi))
-    bv = reduce(bv_type.concat, (_as_bv(s) for s in slots if s is not None))
+    slots = (_as_bv(s) for s in slots if s is not None)
+    # Need to cast to bv_type since smt can't concat signed and unsigned
+    bv = reduce(bv_type.concat, (bv_type[s.size](s) for s in slots))
     assert bv.size == width
     #Need to cast to bv_type since magma's concats do not return bv_type
     return bv_type[width](bv)
-- 
2.43.0


From bd80348e5916a3e8ed9b79c8baa7412ee03a6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:22 +0000
Subject: [PATCH 23/46] fix: build assembled values from both signed and
 unsigned fields (v2)

---
 peak/assembler2/assembled_adt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index ef850d3..5d480d8 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -176,7 +176,8 @@ class AssembledADT(metaclass=AssembledADTMeta):
     def from_fields(cls, *args, **kwargs):
         def _as_bv(v):
             if isinstance(v, AbstractBitVector):
-                bv_value = v
+                # signed and unsigned fields can't be mixed
+                bv_value = cls.bv_type[v.size](v)
             elif isinstance(v, AbstractBit):
                 bv_value = v.get_family().BitVector[1](v)
             elif isinstance(v, AssembledADT):
-- 
2.43.0


From 42dc4e2aac873cf216e182b4fa20ccecde7c11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:45 +0000
Subject: [PATCH 24/46] fix: registers of the Python family accept any adt

---
 peak/family.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index cc14354..81793e2 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -158,6 +158,11 @@ class _RewriterFamily(AbstractFamily):
     __ne__ = AbstractFamily.__ne__
 
 
+def _init_value(T, init):
+    # Not all adts can be constructed from a value of their own type
+    return init if isinstance(init, T) else T(init)
+
+
 _REG_CACHE = {}
 _ATTR_REG_CACHE = {}
 class _RegFamily(AbstractFamily):
@@ -183,7 +188,7 @@ class _RegFamily(AbstractFamily):
             @family.assemble(locals(), globals())
             class Register(Peak, cls.RegBase):
                 def __init__(self):
-                    self.value: T = T(init)
+                    self.value: T = _init_value(T, init)
 
                 def __call__(self, value: T, en: family.Bit) -> T:
                     assert value is not None
@@ -201,7 +206,7 @@ class _RegFamily(AbstractFamily):
             @family.assemble(locals(), globals())
             class Register(Peak, cls.RegBase):
                 def __init__(self):
-                    self.value: T = T(init)
+                    self.value: T = _init_value(T, init)
 
                 def __call__(self, value: T) -> T:
                     retvalue = self.value
@@ -231,7 +236,7 @@ class _RegFamily(AbstractFamily):
 
         class Register(Peak, cls.AttrRegBase):
             def __init__(self):
-                self.value: T = T(init)
+                self.value: T = _init_value(T, init)
 
             def _poke_(self, value):
                 if not isinstance(value, T):
-- 
2.43.0


From 198d00fed3369cf88ef78d5fec333e03ec5b1c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:32 +0000
Subject: [PATCH 25/46] fix: hardware adt values accept values of ports as
 fields

---
 peak/assembler/assembled_adt.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/peak/assembler/assembled_adt.py b/peak/assembler/assembled_adt.py
index a93b3d0..c88a79b 100644
--- a/peak/assembler/assembled_adt.py
+++ b/peak/assembler/assembled_adt.py
@@ -356,6 +356,13 @@ class MAADTMeta(AssembledADTMeta, m.MagmaProtocolMeta):
 
 
 class MagmaADT(AssembledADT, m.MagmaProtocol, metaclass=MAADTMeta):
+    def __init__(self, adt):
+        cls = type(self)
+        # values of ports differ from cls in their direction only
+        if isinstance(adt, MagmaADT) and type(adt).fields[:-1] == cls.fields[:-1]:
+            adt = adt._value_
+        super().__init__(adt)
+
     _get_magma_value_ = AssembledADT._to_bitvector_
 
 
-- 
2.43.0


From ec352a5a03f1607ee174352f4a75d67ba16b957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 26/46] fix: assembled families are not equal to families of
 their subclasses

---
 peak/family.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/family.py b/peak/family.py
index 81793e2..b70af2b 100644
--- a/peak/family.py
+++ b/peak/family.py
@@ -114,7 +114,7 @@ class _AsmFamily(AbstractFamily):
         return self.get_adt_t(adt_t).from_fields
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return (self._assembler == other._assembler
                     and self._aadt_t == other._aadt_t
                     and self._asm_extras == other._asm_extras)
@@ -147,7 +147,7 @@ class _RewriterFamily(AbstractFamily):
         return _compose(deco, s_deco)
 
     def __eq__(self, other):
-        if isinstance(other, type(self)):
+        if type(other) is type(self):
             return self._passes == other._passes
         else:
             return NotImplemented
-- 
2.43.0


From f32043c462a3df4af8a536ab8f795e0ac9523f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 27/46] fix: black boxes of a component are not remembered when
 it changes

---
 peak/black_box.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/peak/black_box.py b/peak/black_box.py
index b6f5a5a..8fd32b3 100644
--- a/peak/black_box.py
+++ b/peak/black_box.py
@@ -1,6 +1,3 @@
-from functools import lru_cache
-
-@lru_cache(None)
 def get_black_boxes(obj, path=()):
     """Gets references to all the black boxes in the hierarchical circuit"""
 
@@ -17,7 +14,6 @@ def get_black_boxes(obj, path=()):
             ret = {**ret, **get_black_boxes(obj, path + (field,))}
     return ret
 
-@lru_cache(None)
 def get_black_box(obj, path):
     """Gets a specific black box given a path"""
     # Hack to avoid circular import
-- 
2.43.0


From 13125c7334e7e422b9953e1828666b286bcc4059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 28/46] fix: rounding mode conversions work in the Python
 family

---
 peak/float.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/peak/float.py b/peak/float.py
index b0abec7..2b46625 100644
--- a/peak/float.py
+++ b/peak/float.py
@@ -40,14 +40,21 @@ def RoudningMode_utils(family):
             RoundingMode_hwtypes.RNA: RoundingMode.RMM,
         }[rm]
 
+    # In the python family enums compare as bools and can't be muxed
+    def ite(cond, t, f):
+        if isinstance(cond, (bool, Bit)):
+            return t if cond else f
+        else:
+            return cond.ite(t, f)
+
     def from_rm(rm: RoundingMode) -> BitVector[3]:
-        return (rm==RM.RNE).ite(
+        return ite(rm==RM.RNE,
             BV3(RM.RNE),
-            (rm==RM.RTZ).ite(
+            ite(rm==RM.RTZ,
                 BV3(RM.RTZ),
-                (rm == RM.RDN).ite(
+                ite(rm == RM.RDN,
                     BV3(RM.RDN),
-                    (rm == RM.RUP).ite(
+                    ite(rm == RM.RUP,
                         BV3(RM.RUP),
                         BV3(RM.RMM),
                     ),
@@ -56,13 +63,13 @@ def RoudningMode_utils(family):
         )
 
     def to_rm(rm: BitVector[3]) -> RoundingMode:
-        return (rm==BV3(RM.RNE)).ite(
+        return ite(rm==BV3(RM.RNE),
             RM_c(RM.RNE),
-            (rm==BV3(RM.RTZ)).ite(
+            ite(rm==BV3(RM.RTZ),
                 RM_c(RM.RTZ),
-                (rm == BV3(RM.RDN)).ite(
+                ite(rm == BV3(RM.RDN),
                     RM_c(RM.RDN),
-                    (rm == BV3(RM.RUP)).ite(
+                    ite(rm == BV3(RM.RUP),
                         RM_c(RM.RUP),
                         RM_c(RM.RMM),
                     ),
-- 
2.43.0


From 76f9a8a0adf8041f477673c3448b05a32f0a2ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:07 +0000
Subject: [PATCH 29/46] fix: bitfields of negative signed vectors are their
 bits

---
 peak/bitfield.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index e671055..f352122 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -61,7 +61,13 @@ def encode(inst, reverse=False):
     bitfield = getattr(inst, 'bitfield', 0)
     if isinstance(inst, (AbstractBit, AbstractBitVector, Enum)):
         # depreciated
-        word = inst._value_ if isinstance(inst,Enum) else int(inst)
+        if isinstance(inst, Enum):
+            word = inst._value_
+        elif isinstance(inst, AbstractBitVector):
+            # int of a signed vector may be negative
+            word = inst.as_uint()
+        else:
+            word = int(inst)
     else:
         typeinst = type(inst)
         if isinstance(inst,Product):
-- 
2.43.0


From 14586c76f33ea5b2e85c7b65a84a611c552ecb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:13 +0000
Subject: [PATCH 30/46] fix: sums of the legacy assembler accept bits

---
 peak/auto_assembler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/auto_assembler.py b/peak/auto_assembler.py
index d5a7b16..1c87185 100644
--- a/peak/auto_assembler.py
+++ b/peak/auto_assembler.py
@@ -133,8 +133,8 @@ def _sum(isa : Sum):
         tag, e = encoding[field]
         assert tag.size == tag_width, (tag, tag.size, tag_width)
         tag = tag.zext(width - tag_width)
-        pay_load = e(inst.value)
-        pay_load = pay_load.zext(width - pay_load.size)
+        # the option may be a Bit
+        pay_load = BitVector[width](e(inst.value))
         opcode |= tag
         opcode |= pay_load << tag_width
         return opcode
-- 
2.43.0


From 770b86eac19be4a419aae78d66c562421aeb2d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 31/46] fix: simple formulas map nested outputs

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index e899943..29eb9eb 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -663,7 +663,8 @@ class IRMapper(SMTMapper):
                 input_dict = aadt_product_to_dict(input_value)
                 outputs = obj(**input_dict)
                 output = wrap_outputs(outputs, mapper.output_aadt_t)
-                output_dict = {(k,): v for k, v in aadt_product_to_dict(output).items()}
+                # The bindings are between leaves, which may be nested in the outputs
+                _, output_dict, _ = SMTForms()(mapper.output_aadt_t, value=output)
                 bb_inputs = get_bb_inputs(obj)
                 return output_dict, bb_inputs
 
-- 
2.43.0


From 92e512f06fd88fb05f9a5fb442395cc7328faf74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:19 +0000
Subject: [PATCH 32/46] fix: rules can bind an ir input to multiple arch inputs

---
 peak/mapper/mapper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 29eb9eb..5f89009 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -259,13 +259,13 @@ class RewriteRule:
             raise ValueError("arch_inputs are wrong")
 
         ibinding = rebind_binding(self.ibinding, family)
-        ir_binding = []
+        # An ir path can be bound to multiple arch paths
+        ir_binding = [(val, ir_path) for ir_path, val in ir_inputs.items()]
         arch_binding = []
         for ir_path, arch_path in ibinding:
             if isinstance(ir_path, tuple):
                 assert ir_path in ir_inputs
                 val = ir_inputs[ir_path]
-                ir_binding.append((val, ir_path))
                 arch_binding.append((val, arch_path))
             elif ir_path is Unbound:
                 assert arch_path in arch_inputs
-- 
2.43.0


From c521674a8794b4f18dbcb44bb4043e382c343518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:29 +0000
Subject: [PATCH 33/46] fix: inputs of rules with sums are built in every
 family

---
 peak/mapper/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/utils.py b/peak/mapper/utils.py
index ca88ece..177916e 100644
--- a/peak/mapper/utils.py
+++ b/peak/mapper/utils.py
@@ -253,6 +253,11 @@ class SimplifyBinding(AssembledADTRecursor):
     @check_leaf(required=False)
     def sum(self, aadt_t, binding):
         builder = aadt_t.from_fields
+        # Paths are made of Py types, the fields are not if they are defined
+        # in terms of the family
+        if binding[0][1][0] not in aadt_t:
+            fam = aadt_t.bv_type.get_family()
+            binding = [(ir_path, (rebind_type(path[0], fam), *path[1:])) for ir_path, path in binding]
         return self.tagged_or_sum(aadt_t, binding, operator.getitem, builder)
 
 
@@ -357,7 +362,6 @@ def rebind_value(val, _family):
 def rebind_binding(binding, _family):
     ret_binding = []
     for ir_path, arch_path in binding:
-        arch_path = arch_path[:-1] + (rebind_type(arch_path[-1], _family),)
         if not (isinstance(ir_path, tuple) or ir_path is Unbound):
             ir_path = rebind_value(ir_path, _family)
         ret_binding.append((ir_path, arch_path))
-- 
2.43.0


From 3928ce1e2b65d0a4a0bbb6b13af50b1b6ba3061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:47 +0000
Subject: [PATCH 34/46] fix: constraints of paths that no binding uses do not
 hide wrong rules

---
 peak/mapper/mapper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 5f89009..5531a87 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -701,7 +701,8 @@ class IRMapper(SMTMapper):
                 arch_var = archmapper.input_varmap[path]
                 if is_const:
                     exist_constraints.append(Or(arch_var == c for c in constraints))
-                else:
+                elif arch_var.value in pysmt_forall_vars:
+                    # otherwise no binding uses the path
                     forall_constraints.append(Or(arch_var == c for c in constraints))
             preconditions += exist_constraints
             preconditions.append(Or(fb_conds))
-- 
2.43.0


From 612c49b872d88c394213db0aa7a46ed0532a0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:39 +0000
Subject: [PATCH 35/46] fix: multi instruction solutions are read while the
 solver exists

---
 peak/mapper/multi.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/peak/mapper/multi.py b/peak/mapper/multi.py
index d4b1451..92ac197 100644
--- a/peak/mapper/multi.py
+++ b/peak/mapper/multi.py
@@ -3,6 +3,7 @@ from functools import reduce
 from types import SimpleNamespace
 from hwtypes import strip_modifiers
 from peak import family as peak_family, family_closure, Peak, Const
+from peak.assembler import AssembledADT
 from .mapper import aadt_product_to_dict, external_loop_solve
 from .index_var import IndexVar, OneHot, Binary
 from .mapper import _get_peak_cls, _create_free_var, create_and_set_bb_outputs, wrap_outputs, is_valid, get_bb_inputs
@@ -275,21 +276,33 @@ def RR(solver, info):
     if solver is None:
         return None
 
+    # The values have to be read while the solver exists
+    N = info.N
+    block_info = info.block_info
+    arch_info = info.arch_info
+    bind_var = info.bind_var
+    bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
+    binding_indices = info.valid_bindings[bind_val]
+    # The input binding of each instruction
+    info.bindings = [block_info[i].bindings[binding_indices[i]] for i in range(N)]
+    # The Const inputs of each instruction
+    info.instructions = []
+    for i in range(N):
+        instrs = {field: block_info[i].arch_inputs[field] for field in arch_info.const_dict}
+        info.instructions.append({
+            field: solved_to_bv(instr._value_ if isinstance(instr, AssembledADT) else instr, solver)
+            for field, instr in instrs.items()
+        })
+    # The output binding of the last instruction
+    out_info = block_info[N]
+    info.output_binding = out_info.bindings[out_info.bind_var.decode(int(solved_to_bv(out_info.bind_var.var, solver)))]
+
     def get_info():
-        N = info.N
-        block_info = info.block_info
-        arch_info = info.arch_info
-        bind_var = info.bind_var
-        bind_val = bind_var.decode(int(solved_to_bv(bind_var.var, solver)))
         print(bind_var.var.value, bind_val)
-        binding_indices = info.valid_bindings[bind_val]
         for i in range(N):
             print("*"*100)
             print(f"Instruction {i}")
-            binding = block_info[i].bindings[binding_indices[i]]
-            pretty_print_binding(binding)
-            instrs = [block_info[i].arch_inputs[field] for field in arch_info.const_dict]
-            ivals = [solved_to_bv(instr._value_,solver) for instr in instrs]
-            print(ivals)
+            pretty_print_binding(info.bindings[i])
+            print(list(info.instructions[i].values()))
         return info
     return get_info
-- 
2.43.0


From ff971dbc9827adab8057d2ffe2066c2faee70d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:31 +0000
Subject: [PATCH 36/46] fix: assembler2 clears the bits no field occupies in
 from_fields

---
 peak/assembler2/assembler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index bfd0eed..5dbf058 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -86,7 +86,7 @@ def _create_from_layout(width, layout, field_bvs):
     assert T is not None
 
 
-    slots = [T[1]() for _ in range(width)]
+    slots = [T[1](0) for _ in range(width)]
     for field_name, (low, hi) in layout.items():
         # zero width fields occupy no slot
         if low == hi:
-- 
2.43.0


From a9b1a381d0db8622dc06beac6e6401f06898b776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:24 +0000
Subject: [PATCH 37/46] fix: validity of an opcode does not depend on the
 signedness of its type

---
 peak/assembler/assembler_util.py  | 6 +++---
 peak/assembler2/assembler_util.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index 882a214..f8725a1 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -55,13 +55,13 @@ def _gen_is_valid(
         if implicit_lb:
             # only need upper bound
             def is_valid(opcode: AbstractBitVector) -> AbstractBit:
-                return opcode <= max_op
+                return opcode.bvule(max_op)
         elif implicit_ub:
             def is_valid(opcode: AbstractBitVector) -> AbstractBit:
-                return min_op <= opcode
+                return opcode.bvuge(min_op)
         else:
             def is_valid(opcode: AbstractBitVector) -> AbstractBit:
-                return (min_op <= opcode) & (opcode <= max_op)
+                return opcode.bvuge(min_op) & opcode.bvule(max_op)
 
     # Check for 1 hot encoding
     elif all(x & (x - 1) == 0 for x in opcodes):
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index 882a214..f8725a1 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -55,13 +55,13 @@ def _gen_is_valid(
         if implicit_lb:
             # only need upper bound
             def is_valid(opcode: AbstractBitVector) -> AbstractBit:
-                return opcode <= max_op
+                return opcode.bvule(max_op)
         elif implicit_ub:
             def is_valid(opcode: AbstractBitVector) -> AbstractBit:
-                return min_op <= opcode
+                return opcode.bvuge(min_op)
         else:
             def is_valid(opcode: AbstractBitVector) -> AbstractBit:
-                return (min_op <= opcode) & (opcode <= max_op)
+                return opcode.bvuge(min_op) & opcode.bvule(max_op)
 
     # Check for 1 hot encoding
     elif all(x & (x - 1) == 0 for x in opcodes):
-- 
2.43.0


From a78a74db0e6fd68bb8209977f462df0d0c786bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:51 +0000
Subject: [PATCH 38/46] fix: sub assemblers have as many entries as they list

---
 peak/assembler/assembler_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/assembler/assembler_abc.py b/peak/assembler/assembler_abc.py
index ca52504..43c1a12 100644
--- a/peak/assembler/assembler_abc.py
+++ b/peak/assembler/assembler_abc.py
@@ -153,7 +153,7 @@ class Sub(tp.Mapping):
         yield from isa.field_dict
 
     def __len__(self):
-        return len(self.asm.isa.fields)
+        return len(self.asm.isa.field_dict)
 
 
     def __repr__(self):
-- 
2.43.0


From 7625da16e2ca2bf60cdb1346b639e3d096fd816b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 39/46] fix: bitfield encodings of sums do not depend on set
 order

---
 peak/bitfield.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index f352122..8823ad6 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -5,6 +5,8 @@ from magma.bitutils import clog2
 from hwtypes.adt import Enum, Sum, Product
 from hwtypes import AbstractBit, AbstractBitVector
 
+from peak.assembler.assembler import _stable_name
+
 def tag(tags: tp.Mapping[type, int]):
     def wrapper(sum: Sum):
         if not issubclass(sum, Sum):
@@ -47,7 +49,8 @@ def instkey(inst):
         # depreciated
         i = t.tags[type(inst._value_)]
     else:
-        i = list(t.fields).index(type(inst._value_))
+        # the fields of a Sum are in a set, whose order changes from run to run
+        i = sorted(t.fields, key=_stable_name).index(type(inst._value_))
     return i
 
 def bitfield(i):
-- 
2.43.0


From c008c80484b05e953170c9f487acb1e424bf5e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:47 +0000
Subject: [PATCH 40/46] fix: bitfields of tagged unions number members as
 declared

---
 peak/bitfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 8823ad6..619e218 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -2,7 +2,7 @@ import typing as tp
 
 from magma.bitutils import clog2
 
-from hwtypes.adt import Enum, Sum, Product
+from hwtypes.adt import Enum, Sum, Product, TaggedUnion
 from hwtypes import AbstractBit, AbstractBitVector
 
 from peak.assembler.assembler import _stable_name
@@ -40,7 +40,7 @@ def sumsize(type):
         if hasattr(type, 'tags'):
             s = clog2(max([val for val in type.tags.values()])+1)
         else:
-            s = clog2(len(type.fields))
+            s = clog2(len(type.field_dict))
     return s
 
 def instkey(inst):
@@ -48,6 +48,9 @@ def instkey(inst):
     if hasattr(t, 'tags'):
         # depreciated
         i = t.tags[type(inst._value_)]
+    elif isinstance(inst, TaggedUnion):
+        # members may have the same type
+        i, = (i for i, key in enumerate(t.field_dict) if getattr(inst, key).match)
     else:
         # the fields of a Sum are in a set, whose order changes from run to run
         i = sorted(t.fields, key=_stable_name).index(type(inst._value_))
-- 
2.43.0


From e5f8b3911321fcbcefc893d5ca56d4b82847e8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:13 +0000
Subject: [PATCH 41/46] fix: tags of sums do not depend on the family that
 declares them

---
 peak/assembler/assembler.py  | 17 +++++++++++++++--
 peak/assembler2/assembler.py | 17 +++++++++++++++--
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/peak/assembler/assembler.py b/peak/assembler/assembler.py
index 1c15a0c..9b6906f 100644
--- a/peak/assembler/assembler.py
+++ b/peak/assembler/assembler.py
@@ -177,12 +177,25 @@ def _tuple(isa: tp.Type[Tuple]):
     return assemble, disassemble, is_valid, width, layout
 
 
+def _py_type(T: type) -> type:
+    # The bits and vectors of each family have their own names. Use those of
+    # the Python family for all of them.
+    if _issubclass(T, AbstractBit):
+        return Bit if T is T.get_family().Bit else T
+    if _issubclass(T, AbstractBitVector):
+        fam, py_fam = T.get_family(), BitVector.get_family()
+        for kind in ('BitVector', 'Unsigned', 'Signed'):
+            if T is getattr(fam, kind)[T.size]:
+                return getattr(py_fam, kind)[T.size]
+    return T
+
+
 def _stable_name(T: BoundMeta) -> str:
     # An anonymous Sum is named after its options, which are in a set.
     # Hence their order in the name changes from run to run.
     if T.__bases__ == (Sum,) or T.__bases__ == (Tuple,):
         base, = T.__bases__
-        names = [_stable_name(t) if isinstance(t, BoundMeta) else t.__name__
+        names = [_stable_name(t) if isinstance(t, BoundMeta) else _py_type(t).__name__
                     for t in T.fields]
         if base is Sum:
             names.sort()
@@ -192,7 +205,7 @@ def _stable_name(T: BoundMeta) -> str:
 
 def _sort_key(item):
     # repr(item) with stable names
-    return tuple(_stable_name(x) if isinstance(x, BoundMeta) else repr(x)
+    return tuple(_stable_name(x) if isinstance(x, BoundMeta) else repr(_py_type(x))
                     for x in item)
 
 
diff --git a/peak/assembler2/assembler.py b/peak/assembler2/assembler.py
index 5dbf058..953ec6e 100644
--- a/peak/assembler2/assembler.py
+++ b/peak/assembler2/assembler.py
@@ -243,12 +243,25 @@ def _extend_to_width(bv, w):
 
     return bv.zext(w - bv.size)
 
+def _py_type(T: type) -> type:
+    # The bits and vectors of each family have their own names. Use those of
+    # the Python family for all of them.
+    if _issubclass(T, AbstractBit):
+        return Bit if T is T.get_family().Bit else T
+    if _issubclass(T, AbstractBitVector):
+        fam, py_fam = T.get_family(), BitVector.get_family()
+        for kind in ('BitVector', 'Unsigned', 'Signed'):
+            if T is getattr(fam, kind)[T.size]:
+                return getattr(py_fam, kind)[T.size]
+    return T
+
+
 def _stable_name(T: BoundMeta) -> str:
     # An anonymous Sum is named after its options, which are in a set.
     # Hence their order in the name changes from run to run.
     if T.__bases__ == (Sum,) or T.__bases__ == (Tuple,):
         base, = T.__bases__
-        names = [_stable_name(t) if isinstance(t, BoundMeta) else t.__name__
+        names = [_stable_name(t) if isinstance(t, BoundMeta) else _py_type(t).__name__
                     for t in T.fields]
         if base is Sum:
             names.sort()
@@ -258,7 +271,7 @@ def _stable_name(T: BoundMeta) -> str:
 
 def _sort_key(item):
     # repr(item) with stable names
-    return tuple(_stable_name(x) if isinstance(x, BoundMeta) else repr(x)
+    return tuple(_stable_name(x) if isinstance(x, BoundMeta) else repr(_py_type(x))
                     for x in item)
 
 
-- 
2.43.0


From 612a710985e3272743c23e00110eb91ea50716e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:26 +0000
Subject: [PATCH 42/46] fix: free inputs of rules are looked up by the paths
 the rule was checked with

---
 peak/mapper/mapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/peak/mapper/mapper.py b/peak/mapper/mapper.py
index 5531a87..022e994 100644
--- a/peak/mapper/mapper.py
+++ b/peak/mapper/mapper.py
@@ -241,7 +241,7 @@ class RewriteRule:
 
     def get_input_paths(self):
         #Input paths are ir_paths, and arch_paths which are not const and do not have a value
-        arch_path_types = _create_path_to_adt(self.arch_fc(self.family.SMTFamily()).input_t)
+        arch_path_types = _create_path_to_adt(self.arch_fc.Py.input_t)
         ir_paths = set()
         arch_paths = set()
         for ir_path, arch_path in self.ibinding:
-- 
2.43.0


From 9718ff15aa51a28c3e59f48339e8ab262c9c17af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:10 +0000
Subject: [PATCH 43/46] fix: don't enumerate the range between the opcodes of
 an enum

The assemblers built range(min, max) to find out whether the opcodes are
contiguous, and ran out of memory for enums with large sparse codes.
---
 peak/assembler/assembler_util.py  | 3 ++-
 peak/assembler2/assembler_util.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/peak/assembler/assembler_util.py b/peak/assembler/assembler_util.py
index f8725a1..f684940 100644
--- a/peak/assembler/assembler_util.py
+++ b/peak/assembler/assembler_util.py
@@ -30,7 +30,8 @@ def _gen_is_valid(
     min_op = opcodes[0]
     max_op = opcodes[-1]
 
-    is_range = opcodes == tuple(range(min_op, max_op + 1))
+    # opcodes may be far apart, don't build range(min_op, max_op + 1)
+    is_range = all(j == i + 1 for i, j in zip(opcodes, opcodes[1:]))
     implicit_lb = (min_op == 0)
     implicit_ub = (max_op == ((1 <<  width) - 1))
 
diff --git a/peak/assembler2/assembler_util.py b/peak/assembler2/assembler_util.py
index f8725a1..f684940 100644
--- a/peak/assembler2/assembler_util.py
+++ b/peak/assembler2/assembler_util.py
@@ -30,7 +30,8 @@ def _gen_is_valid(
     min_op = opcodes[0]
     max_op = opcodes[-1]
 
-    is_range = opcodes == tuple(range(min_op, max_op + 1))
+    # opcodes may be far apart, don't build range(min_op, max_op + 1)
+    is_range = all(j == i + 1 for i, j in zip(opcodes, opcodes[1:]))
     implicit_lb = (min_op == 0)
     implicit_ub = (max_op == ((1 <<  width) - 1))
 
-- 
2.43.0


From 6a4551e728ccde2ea6d4a0e2b4d4227ad252d1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:10 +0000
Subject: [PATCH 44/46] fix: size of fields of more than 32 bits in bitfield

magma's clog2 is 32 for every number above 2**31, so that enum members and
tags above 2**32 overlapped the fields next to them.
---
 peak/bitfield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/bitfield.py b/peak/bitfield.py
index 619e218..da6868d 100644
--- a/peak/bitfield.py
+++ b/peak/bitfield.py
@@ -28,7 +28,7 @@ def size(type):
         s = type.size
     elif issubclass(type, Enum):
         # values need not be contiguous
-        return clog2(max(e._value_ for e in type.enumerate()) + 1)
+        return max(e._value_ for e in type.enumerate()).bit_length()
     elif issubclass(type, Product):
         s = sum([size(getattr(type,key)) for key in type.field_dict])
     elif issubclass(type, Sum):
@@ -38,7 +38,7 @@ def size(type):
 def sumsize(type):
     if issubclass(type, Sum):
         if hasattr(type, 'tags'):
-            s = clog2(max([val for val in type.tags.values()])+1)
+            s = max(type.tags.values()).bit_length()
         else:
             s = clog2(len(type.field_dict))
     return s
-- 
2.43.0


From 9af7abfefb6e26de7a731ab0f9f444611287cb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:24 +0000
Subject: [PATCH 45/46] fix: values of the second implementation have only the
 attributes their type has

hasattr of a product, tuple or enum value (as family.gen_register does)
raised TypeError.
---
 peak/assembler2/assembled_adt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/peak/assembler2/assembled_adt.py b/peak/assembler2/assembled_adt.py
index 5d480d8..9615094 100644
--- a/peak/assembler2/assembled_adt.py
+++ b/peak/assembler2/assembled_adt.py
@@ -131,6 +131,9 @@ class AssembledADT(metaclass=AssembledADTMeta):
         return self._get(key, operator.getitem)
 
     def __getattr__(self, attr):
+        # hasattr should work
+        if attr not in getattr(type(self).adt_t, 'field_dict', ()):
+            raise AttributeError(f'{attr} not in {type(self).adt_t}')
         return self._get(attr, getattr)
 
     def _get(self, key, getter):
-- 
2.43.0


From 35ea2fbe88c09a0df703c725141be75b21455ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:19 +0000
Subject: [PATCH 46/46] fix: IR instructions may have an input called family

---
 peak/ir.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/peak/ir.py b/peak/ir.py
index 0a54c43..24c1b32 100644
--- a/peak/ir.py
+++ b/peak/ir.py
@@ -33,13 +33,13 @@ class IR:
                 t_to_tname[t] = f"t{idx}"
                 idx +=1
         class_src = [f"@_family_closure"]
-        class_src.append(f"def peak_fc(family):")
+        class_src.append(f"def peak_fc(_family_):")
         for t, tname in t_to_tname.items():
             class_src.append(f"{tab*1}_{tname} = {tname}")
         class_src.append(f"{tab*1}class {cls_name}(Peak):")
         output_types = ", ".join([f"{field} = _{t_to_tname[t]}" for field, t in outputs.items()])
         input_types = ", ".join([f"{field} : _{t_to_tname[t]}" for field, t in inputs.items()])
-        fun_call = "family, " + ", ".join(inputs.keys())
+        fun_call = "_family_, " + ", ".join(inputs.keys())
         class_src.append(f"{tab*2}@name_outputs({output_types})")
         class_src.append(f"{tab*2}def __call__(self, {input_types}):")
         class_src.append(f"{tab*3}return _fun_({fun_call})")
-- 
2.43.0

