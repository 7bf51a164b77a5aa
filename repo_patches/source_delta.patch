From 488e1f5a9e5f18486b38f4220b85a185d53639b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:44 +0000
Subject: [PATCH 01/33] fix: saturated subtraction of the most negative signed
 integer

subs negated its second operand which overflows for TYPE_MIN, so that
0 - TYPE_MIN gave TYPE_MIN instead of TYPE_MAX (scalar and cpu for all signed
types, x86 for i32 and i64).
---
 egg/platform_x86.py |  9 ++++++---
 egg/scalar.py       | 11 +++++++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index a84ccc5..741ccb6 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -276,7 +276,7 @@ def get_additional_include(func, platform, simd_ext):
                       '''.format(simd_ext=simd_ext)
     if func == 'subs':
         ret += '''#include <nsimd/x86/{simd_ext}/adds.h>
-                  #include <nsimd/x86/{simd_ext}/neg.h>
+                  #include <nsimd/x86/{simd_ext}/notb.h>
                   #include <nsimd/x86/{simd_ext}/sub.h>
                   #include <nsimd/x86/{simd_ext}/gt.h>
                   #include <nsimd/x86/{simd_ext}/set1.h>
@@ -3224,8 +3224,11 @@ def subs(simd_ext, typ):
                    'subs', simd_ext, typ)
 
     if typ in common.itypes:
-        return 'return nsimd_adds_{simd_ext}_{typ}({in0}, ' \
-               'nsimd_neg_{simd_ext}_{typ}({in1}));'.format(**fmtspec)
+        return \
+        '''/* a - b == ~(~a + b) and, contrary to -b, ~a never overflows */
+           return nsimd_notb_{simd_ext}_{typ}(nsimd_adds_{simd_ext}_{typ}(
+                      nsimd_notb_{simd_ext}_{typ}({in0}), {in1}));'''. \
+                      format(**fmtspec)
 
     min_ = common.limits[typ]['min']
 
diff --git a/egg/scalar.py b/egg/scalar.py
index 1545a84..9c568a2 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -334,8 +334,15 @@ def subs(typ):
                   }}
                   '''.format(**fmtspec)
     # Getting here means typ is signed
-    return 'return nsimd_scalar_adds_{typ}({in0}, ({typ})(-{in1}));'. \
-           format(**fmtspec)
+    int_max = 'NSIMD_' + typ.upper() + '_MAX'
+    int_min = 'NSIMD_' + typ.upper() + '_MIN'
+    return '''if ({in1} < 0 && {in0} > {int_max} + {in1}) {{
+                return {int_max};
+              }} else if ({in1} > 0 && {in0} < {int_min} + {in1}) {{
+                return {int_min};
+              }} else {{
+                return ({typ})({in0} - {in1});
+              }}'''.format(int_min=int_min, int_max=int_max, **fmtspec)
 
 # -----------------------------------------------------------------------------
 
-- 
2.43.0


From 322f440a21cdb284b14c71ee2bc3045d127c897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:18 +0000
Subject: [PATCH 02/33] fix: float/integer conversions on x86

- float to integer conversions truncate as for all other extensions, types
  and scalars instead of depending on the SIMD extension
- f32 to i64/u64 no longer goes through 32 bits integers
- i64 to f32 on AVX-512 no longer drops the upper 32 bits of its input
- u64 to/from f64 on AVX-512 Skylake does not treat its input as signed
---
 egg/platform_x86.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 741ccb6..92b8e97 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2356,8 +2356,11 @@ def convert1(simd_ext, from_typ, to_typ):
                  format(**fmtspec)
     if to_typ == 'f64' or from_typ == 'f64':
         if simd_ext == 'avx512_skylake':
-            return 'return _mm512_cvt{from_suf}{to_suf}({in0});'. \
-                   format(from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
+            # from/to u64 and truncation when going from f64 to integers
+            suf = {'i64': 'epi64', 'u64': 'epu64', 'f64': 'pd'}
+            return 'return _mm512_cvt{t}{from_suf}_{to_suf}({in0});'. \
+                   format(t='t' if from_typ == 'f64' else '',
+                          from_suf=suf[from_typ], to_suf=suf[to_typ],
                           **fmtspec)
         else:
             return emulate
@@ -2369,12 +2372,12 @@ def convert1(simd_ext, from_typ, to_typ):
         if simd_ext in avx512:
             return 'return _mm512_cvtepu32_ps({in0});'.format(**fmtspec)
     if to_typ == 'i32' and from_typ == 'f32':
-        return 'return {pre}cvtps_epi32({in0});'.format(**fmtspec)
+        return 'return {pre}cvttps_epi32({in0});'.format(**fmtspec)
     if to_typ == 'u32' and from_typ == 'f32':
         if simd_ext in sse + avx:
             return emulate
         if simd_ext in avx512:
-            return 'return _mm512_cvtps_epu32({in0});'.format(**fmtspec)
+            return 'return _mm512_cvttps_epu32({in0});'.format(**fmtspec)
 
 # -----------------------------------------------------------------------------
 # Reciprocal (at least 11 bits of precision)
@@ -2851,9 +2854,9 @@ def upcvt1(simd_ext, from_typ, to_typ):
     else:
         from_typ2 = from_typ[0] + str(int(fmtspec['typnbits']) * 2)
         if from_typ not in common.iutypes:
-            # getting here means that from_typ=f32 and to_typ=f64
+            # getting here means that from_typ=f32 and to_typ=i64 or u64
             with_intrinsic = \
-            '''nsimd_{simd_ext}_vf64x2 ret;
+            '''nsimd_{simd_ext}_v{to_typ}x2 ret;
                ret.v0 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
                             {lower_half}));
                ret.v1 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
@@ -2900,6 +2903,9 @@ def upcvt1(simd_ext, from_typ, to_typ):
     # return C code
     if from_typ == 'i32' and to_typ == 'f64':
         return with_intrinsic
+    # going through a 32 bits integer would overflow
+    if from_typ == 'f32' and to_typ in ['i64', 'u64']:
+        return with_intrinsic
     if (from_typ in common.ftypes and to_typ in common.iutypes) or \
        (from_typ in common.iutypes and to_typ in common.ftypes):
         return int_float
@@ -2997,12 +3003,6 @@ def downcvt1(opts, simd_ext, from_typ, to_typ):
             return 'return {};'.format(setr(simd_ext, to_typ,
                    '{pre}cvtep{from_typ}_ep{to_typ}({in0})'.format(**fmtspec),
                    '{pre}cvtep{from_typ}_ep{to_typ}({in1})'.format(**fmtspec)))
-        elif from_typ == 'i64' and to_typ == 'f32':
-            return 'return nsimd_cvt_{simd_ext}_f32_i32({});'. \
-                   format(setr(simd_ext, from_typ,
-                          '{pre}cvtepi64_epi32({in0})'.format(**fmtspec),
-                          '{pre}cvtepi64_epi32({in1})'.format(**fmtspec)),
-                          **fmtspec)
 
     # and then emulation
     le_to_typ = 2 * int(fmtspec['le'])
-- 
2.43.0


From 69db213970e01cc8899718648aaf1ab27bf29f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:56 +0000
Subject: [PATCH 03/33] fix: isnan and isinf for f16

The left shift meant to drop the exponent was done on 32 bits so that
infinities were reported as NaNs and never as infinities.
---
 include/nsimd/nsimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 36c6dd1..379a20e 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -2115,7 +2115,7 @@ void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
 NSIMD_INLINE int nsimd_isnan_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) != 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) & 0x3FF) != 0u)) {
     return 1;
   } else {
     return 0;
@@ -2145,7 +2145,7 @@ NSIMD_INLINE int nsimd_isnan_f64(f64 a) {
 NSIMD_INLINE int nsimd_isinf_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) == 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) & 0x3FF) == 0u)) {
     return 1;
   } else {
     return 0;
-- 
2.43.0


From c158228ccea0a89511676f9601a2e88df7961da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:14 +0000
Subject: [PATCH 04/33] fix: C++98 allocator throws std::bad_alloc when it
 cannot allocate

It returned NULL on failure and did not check for overflow contrary to the
C++11 version, so containers wrote through a null or too small pointer.
---
 include/nsimd/nsimd.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 379a20e..9266cc4 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1490,7 +1490,15 @@ public:
   const_pointer address(const_reference r) { return &r; }
 
   pointer allocate(size_type n) {
-    return reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    if (n > max_size()) {
+      throw std::bad_alloc();
+    }
+    pointer ptr =
+        reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    if (ptr == NULL) {
+      throw std::bad_alloc();
+    }
+    return ptr;
   }
 
   pointer allocate(size_type n, const void *) { return allocate(n); }
-- 
2.43.0


From 6801488cce9385ec194ac591a1652eb69df6ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:39 +0000
Subject: [PATCH 05/33] fix: cvt, upcvt, downcvt, reinterpret and reinterpretl
 on unrolled packs

The recursion on the tail of the pack passed a scalar where a pack type is
expected so that these functions did not compile for N > 1.
---
 egg/gen_adv_cxx_api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 0f0f275..4526f65 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -57,7 +57,10 @@ def get_cxx_advanced_generic(operator):
     if other_varsN != '':
         other_varsN = ', ' + other_varsN
     if not operator.closed:
-        varsN = ['typename ToPackType::value_type()'] + varsN
+        cdr_type = '{}<typename ToPackType::value_type, N - 1, SimdExt>'. \
+                   format('packl' if operator.params[0] == 'l' \
+                          else get_pack(operator.params[0]))
+        varsN = ['{}()'.format(cdr_type)] + varsN
     if need_tmpl_pack != None:
         varsN = ['{}<T, N - 1, SimdExt>()'.format(need_tmpl_pack)] + varsN
     vars1 = ', '.join(vars1)
@@ -91,7 +94,8 @@ def get_cxx_advanced_generic(operator):
             ret_car = \
                 '''typename simd_traits<typename ToPackType::value_type,
                        SimdExt>::simd_vectorx{} car = '''.format(num)
-        ret_cdr = 'packx{}<T, N - 1, SimdExt> cdr = '.format(num)
+        ret_cdr = '{} cdr = '.format(cdr_type if not operator.closed else
+                  'packx{}<T, N - 1, SimdExt>'.format(num))
         post_car = '; ret.set_car({})'.format(', '.join( \
             ['car.v{}'.format(i) for i in range(0, int(num))]))
         post_cdr = '; ret.set_cdr({})'.format(', '.join( \
-- 
2.43.0


From 08421d640a59877b0e7895115d971e88e3216bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:39 +0000
Subject: [PATCH 06/33] fix: SPMD while loops with inactive lanes

- the loop went on as long as the condition held in any lane, even for lanes
  that left the loop with k_break or k_return or that were already inactive,
  giving infinite loops
- lanes having executed k_continue once were turned off by the first k_endif
  of all following iterations
---
 include/nsimd/modules/spmd.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 10eb3d9..e329c39 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -639,17 +639,20 @@ inline bool any(bool a) { return a; }
     k_bool spmd_middle_mask_ = spmd_mask_;                                    \
     k_bool spmd_off_lanes_break_(false);                                      \
     (void)spmd_off_lanes_break_;                                              \
-    k_bool spmd_off_lanes_continue_(false);                                   \
-    (void)spmd_off_lanes_continue_;                                           \
     {                                                                         \
-      while (spmd::any(cond)) {                                               \
+      for (;;) {                                                              \
+        k_bool spmd_off_lanes_continue_(false);                               \
+        (void)spmd_off_lanes_continue_;                                       \
         k_bool spmd_cond_ =                                                   \
             spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(    \
-                cond);                                                        \
+                cond) && spmd_middle_mask_;                                   \
+        spmd_cond_ = spmd::clear_lanes(spmd_cond_, spmd_off_lanes_break_);    \
+        spmd_cond_ = spmd::clear_lanes(spmd_cond_, spmd_off_lanes_return_);   \
+        if (!spmd::any(spmd_cond_)) {                                         \
+          break;                                                              \
+        }                                                                     \
         {                                                                     \
-          k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;                \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);  \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
+          k_bool spmd_mask_ = spmd_cond_;
 
 // break statement (k_break)
 #define k_break                                                               \
-- 
2.43.0


From 8b13bc1b5e559a745395b13427ebb891527dfb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:27 +0000
Subject: [PATCH 07/33] fix: SPMD k_set on k_bool keeps the value of inactive
 lanes

It set inactive lanes to false, and did not compile for scalar values.
---
 include/nsimd/modules/spmd.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index e329c39..d2abeb7 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -595,15 +595,19 @@ void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
             nsimd::packl<S, N, SimdExt> &var, U value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(
-      mask && nsimd::pack<S, N, SimdExt>(int(value)));
+  nsimd::packl<S, N, SimdExt> lanes =
+      nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask);
+  var = value ? (var || lanes) : nsimd::andnotl(var, lanes);
 }
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
             nsimd::packl<S, N, SimdExt> &var,
             nsimd::packl<U, N, SimdExt> const &value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask && value);
+  nsimd::packl<S, N, SimdExt> lanes =
+      nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask);
+  var = (nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(value) && lanes) ||
+        nsimd::andnotl(var, lanes);
 }
 
 #define k_set(var, value) spmd::k_set_(spmd_mask_, var, value)
-- 
2.43.0


From a4b8a912713fbfd46a08317727785b7b2c427f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:27 +0000
Subject: [PATCH 08/33] fix: loading f16 logicals on AVX-512 treats -0.0 as
 false

As for all other floating point types and extensions.
---
 egg/platform_x86.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 92b8e97..9aa5f5a 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -1860,11 +1860,15 @@ def loadl(simd_ext, typ, aligned):
     if simd_ext in avx512:
         if typ == 'f16':
             return '''/* This can surely be improved but it is not our
-                         priority. Note that we take advantage of the fact that
-                         floating zero is represented as integer zero to
-                         simplify code. */
+                         priority. */
+                      int i;
                       nsimd_{simd_ext}_vlf16 ret;
-                      __mmask32 tmp = nsimd_loadlu_{simd_ext}_u16((u16*){in0});
+                      __mmask32 tmp = 0;
+                      for (i = 0; i < {le}; i++) {{
+                        if (nsimd_f16_to_f32({in0}[i]) != 0.0f) {{
+                          tmp |= (__mmask32)((__mmask32)1 << i);
+                        }}
+                      }}
                       ret.v0 = (__mmask16)(tmp & 0xFFFF);
                       ret.v1 = (__mmask16)((tmp >> 16) & 0xFFFF);
                       return ret;'''.format(**fmtspec)
-- 
2.43.0


From 4134b2c1881fa95ec6c4b130593f0f9932b8d2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:50 +0000
Subject: [PATCH 09/33] fix: masked stores on SSE2, SSE4.2, AVX and AVX2 do not
 touch inactive elements

_mm_maskmoveu_si128 faults when inactive elements are not accessible, which
made masked stores unusable at the end of an array.
---
 egg/platform_x86.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index 9aa5f5a..2c9f18d 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -1079,14 +1079,21 @@ def mask_store(simd_ext, typ, aligned):
                   }}'''.format(store_mask=store_mask, le2=le2, **fmtspec)
     suf2 = 'ps' if typ[1:] == '32' else 'pd'
     if simd_ext in sse:
-        if typ in common.iutypes:
-            return '_mm_maskmoveu_si128({in2}, {in0}, (char *){in1});'. \
-                   format(**fmtspec)
-        else:
-            return '''_mm_maskmoveu_si128(_mm_cast{suf2}_si128({in2}),
-                                          _mm_cast{suf2}_si128({in0}),
-                                          (char *){in1});'''. \
-                                          format(suf2=suf2, **fmtspec)
+        # _mm_maskmoveu_si128 may fault on inactive elements, so it cannot be
+        # used at the end of an array
+        return '''int i;
+                  {typ} buf[{le}];
+                  {utyp} mask[{le}];
+                  {pre}storeu{sufsi}({cast}buf, {in2});
+                  {pre}storeu{sufsi}(({mcast})mask, {in0});
+                  for (i = 0; i < {le}; i++) {{
+                    if (mask[i] != ({utyp})0) {{
+                      {in1}[i] = buf[i];
+                    }}
+                  }}'''.format(utyp='u' + typ[1:],
+                  cast=castsi(simd_ext, typ),
+                  mcast='__m128i *' if typ in common.iutypes else typ + ' *',
+                  **fmtspec)
     if typ in ['i8', 'u8', 'i16', 'u16'] and simd_ext != 'avx512_skylake':
         if simd_ext == 'avx512_knl':
             return \
-- 
2.43.0


From 812f5d137b71209818eeda1e845ea3b26b293c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:59 +0000
Subject: [PATCH 10/33] fix: CPU mask_for_loop_tail near INT_MAX

The lane index was added to the loop index, which overflows.
---
 egg/platform_cpu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/platform_cpu.py b/egg/platform_cpu.py
index c94f50b..25da8fb 100644
--- a/egg/platform_cpu.py
+++ b/egg/platform_cpu.py
@@ -537,7 +537,7 @@ def unzip(from_typ):
 
 def mask_for_loop_tail(typ):
     return func_body(
-           'ret.v{{i}} = {in0} + {{i}} < {in1} ? (u32)-1 : (u32)0;'. \
+           'ret.v{{i}} = {{i}} < {in1} - {in0} ? (u32)-1 : (u32)0;'. \
            format(**fmtspec), typ, True)
 
 # -----------------------------------------------------------------------------
-- 
2.43.0


From 0111b5b22a769a138f5457d1159095439216ce32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 11/33] fix: aligned_alloc_for returns NULL when the size in
 bytes overflows

---
 include/nsimd/nsimd.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 9266cc4..f4065a5 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1450,6 +1450,9 @@ NSIMD_INLINE void aligned_free(void *ptr) {
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T> T *aligned_alloc_for(nsimd_nat n) {
+  if (n < 0 || (size_t)n > ((size_t)-1) / 2 / sizeof(T)) {
+    return NULL;
+  }
   return (T *)aligned_alloc(n * (nsimd_nat)sizeof(T));
 }
 
-- 
2.43.0


From 4d02de2d9b147f98723badda637e1388c13c5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:08 +0000
Subject: [PATCH 12/33] fix: device_malloc and device_calloc return NULL on
 size overflow on CPUs

---
 include/nsimd/modules/memory_management.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 57ede59..7b2e2f6 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -205,11 +205,14 @@ void copy_to_host(T *const host_ptr, const T *const device_ptr, size_t sz) {
 #else
 
 template <typename T> T *device_malloc(size_t sz) {
+  if (sz > ((size_t)-1) / sizeof(T)) {
+    return NULL;
+  }
   return (T *)malloc(sz * sizeof(T));
 }
 
 template <typename T> T *device_calloc(size_t sz) {
-  return (T *)calloc(sz * sizeof(T), 1);
+  return (T *)calloc(sz, sizeof(T));
 }
 
 template <typename T> void device_free(T *ptr) { free((void *)ptr); }
-- 
2.43.0


From 38bfb54158c389785707f9ae8e2a9b2753c3ef25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:41 +0000
Subject: [PATCH 13/33] fix: SPMD while loops accept a constant condition

---
 include/nsimd/modules/spmd.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index d2abeb7..7553630 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -649,7 +649,8 @@ inline bool any(bool a) { return a; }
         (void)spmd_off_lanes_continue_;                                       \
         k_bool spmd_cond_ =                                                   \
             spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(    \
-                cond) && spmd_middle_mask_;                                   \
+                cond);                                                        \
+        spmd_cond_ = spmd_cond_ && spmd_middle_mask_;                         \
         spmd_cond_ = spmd::clear_lanes(spmd_cond_, spmd_off_lanes_break_);    \
         spmd_cond_ = spmd::clear_lanes(spmd_cond_, spmd_off_lanes_return_);   \
         if (!spmd::any(spmd_cond_)) {                                         \
-- 
2.43.0


From 845ec126403584f8383c1ead8ae7a8599fe93761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:58 +0000
Subject: [PATCH 14/33] fix: tet1d compute_size is inline so that several units
 can include tet1d

---
 include/nsimd/modules/tet1d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 1bd3c56..f58da5b 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -169,7 +169,7 @@ void cpu_kernel_component_wise_mask(T *dst, Mask const &mask, Expr const &expr,
 // ----------------------------------------------------------------------------
 // helper for computing sizes of 1D vectors
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
   assert(sz1 >= 0 || sz2 >= 0);
   assert((sz1 < 0 && sz2 >= 0) || (sz1 >= 0 && sz2 < 0) || (sz1 == sz2));
   if (sz1 < 0) {
@@ -179,7 +179,7 @@ nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
   }
 }
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
   return compute_size(compute_size(sz1, sz2), sz3);
 }
 
-- 
2.43.0


From e5c4d1802d9815989ca24a82c76df91368a0afe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:58 +0000
Subject: [PATCH 15/33] fix: tet1d infix shift operators compile and take an
 integer count

---
 egg/modules/tet1d/hatch.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index fcab484..a819942 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -811,7 +811,18 @@ def gen_functions(opts):
               return tet1d::{op_name}(node);
             }}'''.format(op_name=op_name,
                          cxx_operator=operator.cxx_operator);
-        if operator.cxx_operator != None and len(operator.params) == 3:
+        if operator.cxx_operator != None and op_name in ['shl', 'shr']:
+            functions += \
+            '''
+            template <typename Op, typename Left, typename Right,
+                      typename Extra>
+            node<{op_name}_t, node<Op, Left, Right, Extra>, none_t, none_t>
+            operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
+                                   int s) {{
+              return tet1d::{op_name}(node, s);
+            }}'''.format(op_name=op_name,
+                         cxx_operator=operator.cxx_operator);
+        elif operator.cxx_operator != None and len(operator.params) == 3:
             functions += '''
 
             template <typename Op, typename Left, typename Right,
-- 
2.43.0


From 1aa0a35a465a3e051edca24d55b834b57434138e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:17 +0000
Subject: [PATCH 16/33] fix: tet1d scalars mixed with converted expressions
 take the converted type

---
 egg/modules/tet1d/hatch.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/egg/modules/tet1d/hatch.py b/egg/modules/tet1d/hatch.py
index a819942..edd7868 100644
--- a/egg/modules/tet1d/hatch.py
+++ b/egg/modules/tet1d/hatch.py
@@ -829,21 +829,21 @@ def gen_functions(opts):
                       typename Extra, typename T>
             node<{op_name}_t, node<Op, Left, Right, Extra>,
                  node<scalar_t, none_t, none_t,
-                      typename node<Op, Left, Right, Extra>::in_type>, none_t>
+                      typename node<Op, Left, Right, Extra>::out_type>, none_t>
             operator{cxx_operator}(node<Op, Left, Right, Extra> const &node,
                                    T a) {{
-              typedef typename tet1d::node<Op, Left, Right, Extra>::in_type S;
+              typedef typename tet1d::node<Op, Left, Right, Extra>::out_type S;
               return tet1d::{op_name}(node, literal_to<S>::impl(a));
             }}
 
             template <typename T, typename Op, typename Left, typename Right,
                       typename Extra>
             node<{op_name}_t, node<scalar_t, none_t, none_t,
-                              typename node<Op, Left, Right, Extra>::in_type>,
+                              typename node<Op, Left, Right, Extra>::out_type>,
                  node<Op, Left, Right, Extra>, none_t>
             operator{cxx_operator}(T a,
                                    node<Op, Left, Right, Extra> const &node) {{
-              typedef typename tet1d::node<Op, Left, Right, Extra>::in_type S;
+              typedef typename tet1d::node<Op, Left, Right, Extra>::out_type S;
               return tet1d::{op_name}(literal_to<S>::impl(a), node);
             }}
 
-- 
2.43.0


From 85b154bf7f0c3d059b4e7555f79bbc63a49f231b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 17/33] fix: fixed_point scalar comparisons look at every
 fractional bit

---
 include/nsimd/modules/fixed_point/function/eq.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/eq_ulp.hpp    | 12 +++++-------
 .../nsimd/modules/fixed_point/function/greater.hpp   | 12 ++----------
 include/nsimd/modules/fixed_point/function/less.hpp  | 12 ++----------
 4 files changed, 10 insertions(+), 32 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/eq.hpp b/include/nsimd/modules/fixed_point/function/eq.hpp
index cb62c6f..b1cc916 100644
--- a/include/nsimd/modules/fixed_point/function/eq.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool operator==(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) == (b._raw & mask));
+  return (a._raw == b._raw);
 }
 
 } // namespace fixed_point
diff --git a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
index 2518f5a..5865d70 100644
--- a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
@@ -32,13 +32,11 @@ namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool equal_ulp(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b,
                const int &ulp) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  raw_type diff = (a._raw & mask) - (b._raw & mask);
-  diff = diff >> shift_size;
-  return (diff <= ulp & diff >= -ulp);
+  typedef typename fp_t<_lf, _rt>::positive_type pos_type;
+  const pos_type diff = (a._raw < b._raw)
+                            ? (pos_type)((pos_type)b._raw - (pos_type)a._raw)
+                            : (pos_type)((pos_type)a._raw - (pos_type)b._raw);
+  return ulp >= 0 && (u64)diff <= (u64)ulp;
 }
 
 } // namespace fixed_point
diff --git a/include/nsimd/modules/fixed_point/function/greater.hpp b/include/nsimd/modules/fixed_point/function/greater.hpp
index 22e75fa..7efed00 100644
--- a/include/nsimd/modules/fixed_point/function/greater.hpp
+++ b/include/nsimd/modules/fixed_point/function/greater.hpp
@@ -32,11 +32,7 @@ namespace fixed_point {
 
 template <u8 _lf, u8 _rt>
 bool gt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) > (b._raw & mask));
+  return (a._raw > b._raw);
 }
 
 template <u8 _lf, u8 _rt>
@@ -56,11 +52,7 @@ bool operator>(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool gte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) >= (b._raw & mask));
+  return (a._raw >= b._raw);
 }
 
 template <u8 _lf, u8 _rt>
diff --git a/include/nsimd/modules/fixed_point/function/less.hpp b/include/nsimd/modules/fixed_point/function/less.hpp
index b22f07c..b713553 100644
--- a/include/nsimd/modules/fixed_point/function/less.hpp
+++ b/include/nsimd/modules/fixed_point/function/less.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool lt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) < (b._raw & mask));
+  return (a._raw < b._raw);
 }
 
 template <u8 _lf, u8 _rt>
@@ -55,11 +51,7 @@ bool operator<(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool lte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) <= (b._raw & mask));
+  return (a._raw <= b._raw);
 }
 
 template <u8 _lf, u8 _rt>
-- 
2.43.0


From 874920883cd4f09c4efadf85bff28ac0d18a7e64 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 18/33] fix: fixed_point floor clears the fractional bits only

---
 include/nsimd/modules/fixed_point/function/floor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/modules/fixed_point/function/floor.hpp b/include/nsimd/modules/fixed_point/function/floor.hpp
index 6966afc..7fc236c 100644
--- a/include/nsimd/modules/fixed_point/function/floor.hpp
+++ b/include/nsimd/modules/fixed_point/function/floor.hpp
@@ -31,7 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> floor(const fp_t<_lf, _rt> &a) {
-  const int shift_size = 8 * sizeof(a._raw) - _lf;
+  const int shift_size = _rt;
   fp_t<_lf, _rt> res;
   res._raw = (a._raw >> (shift_size)) << shift_size;
   return res;
-- 
2.43.0


From f08b2f923034826439b9e8e041cbf0c74fbd0b18 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 19/33] fix: fixed_point conversions handle formats with 31
 fractional bits

---
 include/nsimd/modules/fixed_point/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/fixed.hpp b/include/nsimd/modules/fixed_point/fixed.hpp
index a85cf34..1a15b54 100644
--- a/include/nsimd/modules/fixed_point/fixed.hpp
+++ b/include/nsimd/modules/fixed_point/fixed.hpp
@@ -35,11 +35,11 @@ namespace nsimd {
 namespace fixed_point {
 
 template <typename T, u8 rt> static inline T float2int(const float val) {
-  return (T)roundf(val * (float)(1 << rt));
+  return (T)roundf(val * (float)((u64)1 << rt));
 }
 
 template <typename T, u8 rt> static inline float int2float(const T val) {
-  return (float)val / (float)(1 << rt);
+  return (float)val / (float)((u64)1 << rt);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 6081135bf40044dfe86b45987698860a8765872d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:31:28 +0000
Subject: [PATCH 20/33] fix: fixed_point pack comparison operators return
 logicals

---
 include/nsimd/modules/fixed_point.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/fixed_point.hpp b/include/nsimd/modules/fixed_point.hpp
index 88e9dbb..17b17d3 100644
--- a/include/nsimd/modules/fixed_point.hpp
+++ b/include/nsimd/modules/fixed_point.hpp
@@ -162,7 +162,7 @@ NSIMD_INLINE packl<T> eq(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator==(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator==(const pack<T> &a0, const pack<T> &a1) {
   return eq( a0 , a1 );
 }
 
@@ -174,7 +174,7 @@ NSIMD_INLINE packl<T> ne(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
   return ne( a0 , a1 );
 }
 
@@ -186,7 +186,7 @@ NSIMD_INLINE packl<T> le(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
   return le( a0 , a1 );
 }
 
@@ -198,7 +198,7 @@ NSIMD_INLINE packl<T> lt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<(const pack<T> &a0, const pack<T> &a1) {
   return lt( a0 , a1 );
 }
 
@@ -210,7 +210,7 @@ NSIMD_INLINE packl<T> ge(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
   return ge( a0 , a1 );
 }
 
@@ -222,7 +222,7 @@ NSIMD_INLINE packl<T> gt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>(const pack<T> &a0, const pack<T> &a1) {
   return gt( a0 , a1 );
 }
 
-- 
2.43.0


From 802593b75d6a5f954118a6f9bd3dbf0c01053084 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:31:57 +0000
Subject: [PATCH 21/33] fix: fixed_point sqrt terminates on zero and converges
 for all values

---
 .../modules/fixed_point/function/sqrt.hpp     | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/sqrt.hpp b/include/nsimd/modules/fixed_point/function/sqrt.hpp
index 37503aa..a759fdd 100644
--- a/include/nsimd/modules/fixed_point/function/sqrt.hpp
+++ b/include/nsimd/modules/fixed_point/function/sqrt.hpp
@@ -32,16 +32,22 @@ namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> sqrt(const fp_t<_lf, _rt> &a) {
   fp_t<_lf, _rt> x0, x1;
-  x0 = a;
-  // For the few cases tested, 10 iterations is more than enough to converge
-  for (int i = 0; i < 10; ++i) {
-    x1 = (x0 + (a / x0)) / 2;
-    if (x0._raw == 0 || (x0._raw - x1._raw) == 0)
-      break;
-    x0 = x1;
+
+  if (a._raw <= 0) {
+    x1._raw = 0;
+    return x1;
   }
 
-  return x1;
+  // First Newton step from a itself: from there on the iterates decrease to
+  // the square root. The sum is computed on the raw values as it does not
+  // always fit the format.
+  x1._raw = (a._raw + (a / a)._raw) / 2;
+  do {
+    x0 = x1;
+    x1._raw = (x0._raw + (a / x0)._raw) / 2;
+  } while (x1._raw < x0._raw);
+
+  return x0;
 }
 
 } // namespace fixed_point
-- 
2.43.0


From 8ec1b42be630da4d7b79b7d8c5e0d7fce9037446 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 18:34:11 +0000
Subject: [PATCH 22/33] fix: fixed_point ceil keeps integers

---
 include/nsimd/modules/fixed_point/function/ceil.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/ceil.hpp b/include/nsimd/modules/fixed_point/function/ceil.hpp
index 540bd77..0494329 100644
--- a/include/nsimd/modules/fixed_point/function/ceil.hpp
+++ b/include/nsimd/modules/fixed_point/function/ceil.hpp
@@ -32,9 +32,8 @@ namespace nsimd {
 namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> ceil(const fp_t<_lf, _rt> &a) {
-  const int shift_size = _lf;
   fp_t<_lf, _rt> res = floor(a);
-  if (0 == ((a._raw << (shift_size)) >> shift_size)) {
+  if (res._raw == a._raw) {
     return res;
   } else {
     return (res + constants::one<_lf, _rt>());
-- 
2.43.0


From 943e829512f941136e2873cbf3f36d505e425957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 23/33] fix: logical packs of several registers can be loaded
 and splatted

---
 egg/gen_adv_cxx_api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 4526f65..aa9b0a9 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -62,7 +62,9 @@ def get_cxx_advanced_generic(operator):
                           else get_pack(operator.params[0]))
         varsN = ['{}()'.format(cdr_type)] + varsN
     if need_tmpl_pack != None:
-        varsN = ['{}<T, N - 1, SimdExt>()'.format(need_tmpl_pack)] + varsN
+        varsN = ['{}<T, N - 1, SimdExt>()'. \
+                 format('packl' if operator.params[0] == 'l'
+                        else need_tmpl_pack)] + varsN
     vars1 = ', '.join(vars1)
     varsN = ', '.join(varsN)
 
-- 
2.43.0


From fc014d75da1349ed7e757b7064360ee208fe1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:07 +0000
Subject: [PATCH 24/33] fix: gathers and scatters of packs of several registers
 address all their elements

---
 egg/gen_adv_cxx_api.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index aa9b0a9..e8ec81a 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -46,6 +46,11 @@ def get_cxx_advanced_generic(operator):
         if arg[1] in ['vi', 'v', 'l']:
             return 'a{}.{}'.format(arg[0], member)
         elif (arg[1] in ['*', 'c*']) and N != '1':
+            if 'vi' in operator.params:
+                # offsets are relative to the same address for all registers
+                return 'a{}'.format(arg[0])
+            elif operator.name in ['gather_linear', 'scatter_linear']:
+                return 'a0 + len_ * a1'
             return 'a{} + len_'.format(arg[0])
         else:
             return 'a{}'.format(arg[0])
-- 
2.43.0


From 73f5e88a9d5f4c2a5ba2d1c56230d39910b0e3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:08 +0000
Subject: [PATCH 25/33] fix: iota and mask_for_loop_tail go on counting across
 the registers of a pack

---
 egg/gen_adv_cxx_api.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index e8ec81a..fcb9fe1 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -45,6 +45,9 @@ def get_cxx_advanced_generic(operator):
         member = 'car' if N == '1' else 'cdr'
         if arg[1] in ['vi', 'v', 'l']:
             return 'a{}.{}'.format(arg[0], member)
+        elif operator.name == 'mask_for_loop_tail' and N != '1' and \
+             arg[0] == 1:
+            return 'a1 - len_'
         elif (arg[1] in ['*', 'c*']) and N != '1':
             if 'vi' in operator.params:
                 # offsets are relative to the same address for all registers
@@ -117,7 +120,8 @@ def get_cxx_advanced_generic(operator):
         post_cdr = ''
         pack1_ret = ''
         packN_ret = ''
-    if '*' in operator.params[1:] or 'c*' in operator.params[1:]:
+    if '*' in operator.params[1:] or 'c*' in operator.params[1:] or \
+       operator.name in ['mask_for_loop_tail', 'iota']:
         # store*[au] does not contain any packx* argument, therefore the offset
         # cannot be correctly computed
         if operator.name in ['store2u', 'store2a']:
@@ -134,6 +138,11 @@ def get_cxx_advanced_generic(operator):
     else:
         int_len = ''
 
+    # the registers of a pack go on counting where the previous one stopped
+    if operator.name == 'iota':
+        post_cdr = '; ret.cdr = add(ret.cdr, pack<T, N - 1, SimdExt>(' \
+                   'to<T>(len_)))'
+
     sig = operator.get_generic_signature('cxx_adv')
     for k in sig:
         sig[k] = sig[k][:-1] # remove trailing ';'
-- 
2.43.0


From 19c7e9a18198a9f464aa94041559e289691f34be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:08 +0000
Subject: [PATCH 26/33] fix: logical operators accept a scalar on the left

---
 egg/gen_friendly_but_not_optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_friendly_but_not_optimized.py b/egg/gen_friendly_but_not_optimized.py
index 5ffbe5f..2999929 100644
--- a/egg/gen_friendly_but_not_optimized.py
+++ b/egg/gen_friendly_but_not_optimized.py
@@ -54,7 +54,7 @@ def get_impl(operator):
         template <typename S, typename T, int N, typename SimdExt>
         packl<T, N, SimdExt>
         operator{cxx_op}(S s, packl<T, N, SimdExt> const &v) {{
-          return {op_name}(pack<T, N, SimdExt>(bool(s)), v);
+          return {op_name}(packl<T, N, SimdExt>(bool(s)), v);
         }}
 
         template <typename T, typename S, int N, typename SimdExt>
-- 
2.43.0


From 0f85b54acca1cce4e820b4555777d2e4889b2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:08 +0000
Subject: [PATCH 27/33] fix: logical packs of several registers are built from
 a bool in C++20

---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 242837c..1f6665c 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -205,7 +205,7 @@ NSIMD_STRUCT packl {
   packl() {}
 
   // Ctor that splats
-  template <NSIMD_CONCEPT_VALUE_TYPE S> packl(S const &s) : cdr(s) {
+  template <NSIMD_CONCEPT_VALUE_TYPE_OR_BOOL S> packl(S const &s) : cdr(s) {
     car = set1l(int(s), T(), SimdExt());
   }
 
-- 
2.43.0


From 8a3424304b5e150a75f918d226010ccde15ffc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 28/33] fix: addv compiles on half-precision packs of several
 registers

---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 1f6665c..3f78380 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -534,7 +534,7 @@ T addv(pack<T, 1, SimdExt> const &a0) {
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 T addv(pack<T, N, SimdExt> const &a0) {
-  return addv(a0.car, T(), SimdExt()) + addv(a0.cdr);
+  return scalar_add(addv(a0.car, T(), SimdExt()), addv(a0.cdr));
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From e02a0b426856575175ad8b301b1f689f043fba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:20 +0000
Subject: [PATCH 29/33] fix: loads and stores of logicals by alignment compile
 in C++20

---
 include/nsimd/cxx_adv_api.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 3f78380..4f86770 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -878,7 +878,8 @@ template <> struct store_helper<aligned> {
     mask_storea(a0, a1, a2);
   }
 
-  template <NSIMD_CONCEPT_PACK P> static void storel(NSIMD_T *a0, P const &a1) {
+  template <NSIMD_CONCEPT_PACKL P>
+  static void storel(NSIMD_T *a0, P const &a1) {
     storela(a0, a1);
   }
 
@@ -912,7 +913,8 @@ template <> struct store_helper<unaligned> {
     mask_storeu(a0, a1, a2);
   }
 
-  template <NSIMD_CONCEPT_PACK P> static void storel(NSIMD_T *a0, P const &a1) {
+  template <NSIMD_CONCEPT_PACKL P>
+  static void storel(NSIMD_T *a0, P const &a1) {
     storelu(a0, a1);
   }
 
@@ -957,7 +959,7 @@ Pack masko_load(Packl const &pl, const typename Pack::value_type *ptr,
   return detail::load_helper<Pack, Alignment>::masko_load(pl, ptr, p);
 }
 
-template <NSIMD_CONCEPT_PACK SimdVector, NSIMD_CONCEPT_ALIGNMENT Alignment>
+template <NSIMD_CONCEPT_PACKL SimdVector, NSIMD_CONCEPT_ALIGNMENT Alignment>
 SimdVector loadl(const typename SimdVector::value_type *ptr) {
   return detail::load_helper<SimdVector, Alignment>::loadl(ptr);
 }
-- 
2.43.0


From b2c26883ed6d0848589dc8b8fe4f1d8a903254a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 30/33] fix: printing a logical pack writes its lanes as
 numbers

The lanes of an 8-bit logical were streamed as characters (control
characters 0 and 1) and a half-precision logical did not compile; they now
go through to_biggest() as the lanes of a pack do.
---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 4f86770..c1db682 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -182,7 +182,7 @@ NSIMD_STRUCT packl<T, 1, SimdExt> {
     os << "{ ";
     int n = len(a0);
     for (int i = 0; i < n; i++) {
-      os << buf[i];
+      os << to_biggest(buf[i]);
       if (i < n - 1) {
         os << ", ";
       }
-- 
2.43.0


From 332a0e17af2ca6c084e2ff74679c6018b9d67afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:02 +0000
Subject: [PATCH 31/33] fix: the random module can be included in several
 translation units

mulhilo32, mulhilo64 and the generated generators were neither inline nor
templates, so linking two translation units that include the module failed
with multiple definitions.
---
 egg/modules/random/hatch.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/egg/modules/random/hatch.py b/egg/modules/random/hatch.py
index 911499c..9780e7c 100644
--- a/egg/modules/random/hatch.py
+++ b/egg/modules/random/hatch.py
@@ -45,7 +45,8 @@ class Rand(object, metaclass=MAddToRands):
         for word_size, nwords_nrounds in self.wordsize_nwords_nrounds.items():
             for nwords, list_nrounds in nwords_nrounds.items():
                 for nrounds in list_nrounds:
-                    res += self.gen_signature(nwords, word_size, nrounds)+';'
+                    res += 'inline ' + \
+                           self.gen_signature(nwords, word_size, nrounds)+';'
 
         return res
 
@@ -194,7 +195,7 @@ class Philox(Rand):
 
     mullohi='''
 #if 1
-void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
+inline void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
   nsimd::packx2<u64> a64 = nsimd::upcvt(nsimd::packx2<u64>(), a);
   nsimd::packx2<u64> b64 = nsimd::upcvt(nsimd::packx2<u64>(), b);
 
@@ -209,7 +210,7 @@ void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
 
 #else
 
-void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
+inline void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
   nsimd::pack<u32> ah = nsimd::shr(a, 16);
   nsimd::pack<u32> bh = nsimd::shr(b, 16);
 
@@ -241,7 +242,7 @@ void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
 #endif
 
 #if 0
-void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
+inline void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
   u64 a_buf[8];
   u64 b_buf[8];
   u64 low_buf[8];
@@ -262,7 +263,7 @@ void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
 
 #else
 
-void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
+inline void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
   nsimd::pack<u64> ah = nsimd::shr(a, 32);
   nsimd::pack<u64> bh = nsimd::shr(b, 32);
 
-- 
2.43.0


From 6def73ebb72d237dc672e29b327b4d14ff6f5f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:15 +0000
Subject: [PATCH 32/33] fix: tet1d expressions may start an fma with two
 scalars

compute_size() of three operands asserted that one of the first two is an
array, so fma(2, 3, x) aborted unless NDEBUG was defined, although the size
of the third operand determines the size of the expression.
---
 include/nsimd/modules/tet1d.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index f58da5b..6e4a08d 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -180,6 +180,9 @@ inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
 }
 
 inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
+  if (sz1 < 0) {
+    return compute_size(sz2, sz3);
+  }
   return compute_size(compute_size(sz1, sz2), sz3);
 }
 
-- 
2.43.0


From 9ecea6517a328d365d05338f6bf8b9e85d067dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:58 +0000
Subject: [PATCH 33/33] fix: to_pack_interleave accepts a packx1 of one
 register

---
 include/nsimd/cxx_adv_api.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index c1db682..e2e0c69 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -1331,7 +1331,6 @@ template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> to_pack_interleave(const packx1<T, 1, SimdExt> &packx1_) {
   pack<T, 1, SimdExt> pack_1;
   pack_1.car = packx1_.v0.car;
-  pack_1.cdr = packx1_.v0.cdr;
   return pack_1;
 }
 
-- 
2.43.0

