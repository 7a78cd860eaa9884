From b9f1cbb66122f5190ecf360dde0d22297e015480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:27 +0000
Subject: [PATCH 01/43] fix: load2/store2/load4/store4 keep the order of
 structures on AVX, AVX2 and AVX-512

In-lane shuffles were used without gathering 128-bits lanes so that lane i of
the vectors was not the i-th structure for several types.
---
 egg/x86_load_store_deg234.py | 169 +++++++++++++++++++++++++++--------
 1 file changed, 131 insertions(+), 38 deletions(-)

diff --git a/egg/x86_load_store_deg234.py b/egg/x86_load_store_deg234.py
index b07ba6b..b395f34 100644
--- a/egg/x86_load_store_deg234.py
+++ b/egg/x86_load_store_deg234.py
@@ -48,6 +48,38 @@ def get_load_v0v1(simd_ext, typ, align, fmtspec):
 
 ###############################################################################
 
+# Most of the 256-bits shuffles work on both 128-bits lanes independently. For
+# the lanes of NSIMD vectors to be in the order of the structures in memory one
+# has to gather/dispatch 128-bits lanes before/after those shuffles.
+
+def perm128(typ, a, b):
+    suf = {'f32': 'ps', 'f64': 'pd'}.get(typ, 'si256')
+    return ('_mm256_permute2f128_{}({}, {}, 2 << 4)'.format(suf, a, b),
+            '_mm256_permute2f128_{}({}, {}, (3 << 4) | 1)'.format(suf, a, b))
+
+def get_load_v0v1_perm128(typ, align, fmtspec):
+    lo, hi = perm128(typ, 'v0', 'v1')
+    return '{load}\n{styp} v1_ = {hi};\nv0 = {lo};\nv1 = v1_;'. \
+           format(load=get_load_v0v1('avx', typ, align, fmtspec), lo=lo, hi=hi,
+                  **fmtspec)
+
+def get_load_v0v1v2v3_perm128(typ, align, fmtspec):
+    lo02, hi02 = perm128(typ, 'v0', 'v2')
+    lo13, hi13 = perm128(typ, 'v1', 'v3')
+    return '''{load}
+              {styp} v0_ = {lo02};
+              {styp} v1_ = {hi02};
+              {styp} v2_ = {lo13};
+              {styp} v3_ = {hi13};
+              v0 = v0_;
+              v1 = v1_;
+              v2 = v2_;
+              v3 = v3_;'''. \
+              format(load=get_load_v0v1v2v3('avx', typ, align, fmtspec),
+                     lo02=lo02, hi02=hi02, lo13=lo13, hi13=hi13, **fmtspec)
+
+###############################################################################
+
 def load2_sse(simd_ext, typ, align, fmtspec2):
     fmtspec = fmtspec2.copy()
     fmtspec['load_v0v1'] = get_load_v0v1('sse', typ, align, fmtspec)
@@ -126,7 +158,12 @@ def load2_avx(simd_ext, typ, align, fmtspec2):
     fmtspec['exhi_v0'] = x86.extract('avx', typ, x86.HI, 'v0')
     fmtspec['exlo_v1'] = x86.extract('avx', typ, x86.LO, 'v1')
     fmtspec['exhi_v1'] = x86.extract('avx', typ, x86.HI, 'v1')
-    fmtspec['load_v0v1'] = get_load_v0v1('avx', typ, align, fmtspec)
+    # all implementations below but these shuffle inside 128-bits lanes
+    if simd_ext == 'avx2' and typ in ['i8', 'u8'] or \
+       simd_ext == 'avx' and typ in ['i16', 'u16']:
+        fmtspec['load_v0v1'] = get_load_v0v1('avx', typ, align, fmtspec)
+    else:
+        fmtspec['load_v0v1'] = get_load_v0v1_perm128(typ, align, fmtspec)
     fmtspec['a'] = 'a' if align else 'u'
     if typ in ['i8', 'u8']:
         if simd_ext == 'avx2':
@@ -320,10 +357,15 @@ def load2_avx512(simd_ext, typ, align, fmtspec2):
         '''nsimd_{simd_ext}_v{typ}x2 ret;
            {load_v0v1}
 
-           __m256i A0a = {exlo_v0};
-           __m256i B0a = {exhi_v0};
-           __m256i A0b = {exlo_v1};
-           __m256i B0b = {exhi_v1};
+           __m256i v0a = {exlo_v0};
+           __m256i v0b = {exhi_v0};
+           __m256i v1a = {exlo_v1};
+           __m256i v1b = {exhi_v1};
+
+           __m256i A0a = _mm256_permute2f128_si256(v0a, v0b, 2 << 4);
+           __m256i B0a = _mm256_permute2f128_si256(v0a, v0b, (3 << 4) | 1);
+           __m256i A0b = _mm256_permute2f128_si256(v1a, v1b, 2 << 4);
+           __m256i B0b = _mm256_permute2f128_si256(v1a, v1b, (3 << 4) | 1);
 
            __m256i A1 = _mm256_unpacklo_epi16(A0a, B0a);
            __m256i B1 = _mm256_unpackhi_epi16(A0a, B0a);
@@ -359,8 +401,10 @@ def load2_avx512(simd_ext, typ, align, fmtspec2):
         return \
         '''nsimd_{simd_ext}_v{typ}x2 ret;
            {load_v0v1}
-           ret.v0 = _mm512_unpacklo{suf}(v0, v1);
-           ret.v1 = _mm512_unpackhi{suf}(v0, v1);
+           __m512i mask1 = _mm512_setr_epi64(0, 2, 4, 6, 8, 10, 12, 14);
+           __m512i mask2 = _mm512_setr_epi64(1, 3, 5, 7, 9, 11, 13, 15);
+           ret.v0 = _mm512_permutex2var{suf}(v0, mask1, v1);
+           ret.v1 = _mm512_permutex2var{suf}(v0, mask2, v1);
            return ret;'''.format(**fmtspec)
 
 ###############################################################################
@@ -380,6 +424,12 @@ def store2(simd_ext, typ, align, fmtspec2):
                 format(dest1=dest1, dest2=dest2, **fmtspec)
     if simd_ext in sse:
         return normal
+    lo, hi = perm128(typ, 'v0', 'v1')
+    normal = '''{styp} v0 = {pre}unpacklo{suf}({in1}, {in2});
+                {styp} v1 = {pre}unpackhi{suf}({in1}, {in2});
+                {store}({dest1}, {lo});
+                {store}({dest2}, {hi});'''. \
+                format(dest1=dest1, dest2=dest2, lo=lo, hi=hi, **fmtspec)
     fmtspec['exlo_in1'] = x86.extract(simd_ext, typ, x86.LO, common.in1)
     fmtspec['exhi_in1'] = x86.extract(simd_ext, typ, x86.HI, common.in1)
     fmtspec['exlo_in2'] = x86.extract(simd_ext, typ, x86.LO, common.in2)
@@ -425,8 +475,8 @@ def store2(simd_ext, typ, align, fmtspec2):
 
                {store}({dest1}, A1);
                {store}({dest2}, B1);'''. \
-               format(mergeA1=x86.setr('avx', typ, 'A1a', 'A1b'),
-                      mergeB1=x86.setr('avx', typ, 'B1a', 'B1b'),
+               format(mergeA1=x86.setr('avx', typ, 'A1a', 'B1a'),
+                      mergeB1=x86.setr('avx', typ, 'A1b', 'B1b'),
                       **fmtspec)
         if typ in ['i16', 'u16']:
             return \
@@ -454,13 +504,16 @@ def store2(simd_ext, typ, align, fmtspec2):
     if simd_ext == 'avx' and typ in ['i32', 'u32', 'i64', 'u64']:
         ftyp = '__m256' if typ in ['i32', 'u32'] else '__m256d'
         fsuf = 'ps' if typ in ['i32', 'u32'] else 'pd'
+        lo, hi = perm128(typ, 'w0', 'w1')
         return '''{ftyp} v0 = _mm256_castsi256_{fsuf}({in1});
                   {ftyp} v1 = _mm256_castsi256_{fsuf}({in2});
-                  {store}({dest1}, _mm256_cast{fsuf}_si256(
-                          _mm256_unpacklo_{fsuf}(v0, v1)));
-                  {store}({dest2}, _mm256_cast{fsuf}_si256(
-                          _mm256_unpackhi_{fsuf}(v0, v1)));'''. \
-                          format(ftyp=ftyp, fsuf=fsuf, **fmtspec)
+                  __m256i w0 = _mm256_cast{fsuf}_si256(
+                          _mm256_unpacklo_{fsuf}(v0, v1));
+                  __m256i w1 = _mm256_cast{fsuf}_si256(
+                          _mm256_unpackhi_{fsuf}(v0, v1));
+                  {store}({dest1}, {lo});
+                  {store}({dest2}, {hi});'''. \
+                  format(ftyp=ftyp, fsuf=fsuf, lo=lo, hi=hi, **fmtspec)
     if simd_ext in avx512:
         if typ in ['i8', 'u8']:
             return \
@@ -506,10 +559,19 @@ def store2(simd_ext, typ, align, fmtspec2):
                __m256i A1b = _mm256_unpacklo_epi16(A0b, B0b);
                __m256i B1b = _mm256_unpackhi_epi16(A0b, B0b);
 
+               __m256i A2a = {loa};
+               __m256i B2a = {hia};
+               __m256i A2b = {lob};
+               __m256i B2b = {hib};
+
                {store}({dest1}, {mergea});
                {store}({dest2}, {mergeb});'''.\
-               format(mergea=x86.setr(simd_ext, typ, 'A1a', 'B1a'),
-                      mergeb=x86.setr(simd_ext, typ, 'A1b', 'B1b'),
+               format(loa=perm128(typ, 'A1a', 'B1a')[0],
+                      hia=perm128(typ, 'A1a', 'B1a')[1],
+                      lob=perm128(typ, 'A1b', 'B1b')[0],
+                      hib=perm128(typ, 'A1b', 'B1b')[1],
+                      mergea=x86.setr(simd_ext, typ, 'A2a', 'B2a'),
+                      mergeb=x86.setr(simd_ext, typ, 'A2b', 'B2b'),
                       **fmtspec)
         if typ in ['i32', 'f32', 'u32']:
             return \
@@ -523,9 +585,11 @@ def store2(simd_ext, typ, align, fmtspec2):
                    {in1}, mask2, {in2}));'''.format(**fmtspec)
         if typ in ['i64', 'u64', 'f64']:
             return \
-            '''{store}({dest1}, _mm512_unpacklo{suf}({in1}, {in2}));
-               {store}({dest2}, _mm512_unpackhi{suf}({in1}, {in2}));'''. \
-               format(**fmtspec)
+            '''__m512i mask1 = _mm512_setr_epi64(0, 8, 1, 9, 2, 10, 3, 11);
+               __m512i mask2 = _mm512_setr_epi64(4, 12, 5, 13, 6, 14, 7, 15);
+               {store}({dest1}, _mm512_permutex2var{suf}({in1}, mask1, {in2}));
+               {store}({dest2}, _mm512_permutex2var{suf}(
+                   {in1}, mask2, {in2}));'''.format(**fmtspec)
 
 ###############################################################################
 
@@ -651,7 +715,14 @@ def load4_sse(simd_ext, typ, align, fmtspec2):
 
 def load4_avx(simd_ext, typ, align, fmtspec2):
     fmtspec = fmtspec2.copy()
-    fmtspec['load_v0v1v2v3'] = get_load_v0v1v2v3('avx', typ, align, fmtspec)
+    # some implementations below shuffle inside 128-bits lanes
+    if typ in ['f32', 'i32', 'u32'] or \
+       simd_ext == 'avx2' and typ in ['i16', 'u16']:
+        fmtspec['load_v0v1v2v3'] = get_load_v0v1v2v3_perm128(typ, align,
+                                                             fmtspec)
+    else:
+        fmtspec['load_v0v1v2v3'] = get_load_v0v1v2v3('avx', typ, align,
+                                                     fmtspec)
     fmtspec['exlo_v0'] = x86.extract('avx', typ, x86.LO, 'v0')
     fmtspec['exhi_v0'] = x86.extract('avx', typ, x86.HI, 'v0')
     fmtspec['exlo_v1'] = x86.extract('avx', typ, x86.LO, 'v1')
@@ -1024,14 +1095,23 @@ def load4_avx512(simd_ext, typ, align, fmtspec2):
 
            {load_v0v1v2v3}
 
-           __m256i A0a = {exlo_v0};
-           __m256i B0a = {exhi_v0};
-           __m256i C0a = {exlo_v1};
-           __m256i D0a = {exhi_v1};
-           __m256i A0b = {exlo_v2};
-           __m256i B0b = {exhi_v2};
-           __m256i C0b = {exlo_v3};
-           __m256i D0b = {exhi_v3};
+           __m256i v0a = {exlo_v0};
+           __m256i v0b = {exhi_v0};
+           __m256i v1a = {exlo_v1};
+           __m256i v1b = {exhi_v1};
+           __m256i v2a = {exlo_v2};
+           __m256i v2b = {exhi_v2};
+           __m256i v3a = {exlo_v3};
+           __m256i v3b = {exhi_v3};
+
+           __m256i A0a = _mm256_permute2f128_si256(v0a, v1a, 2 << 4);
+           __m256i B0a = _mm256_permute2f128_si256(v0a, v1a, (3 << 4) | 1);
+           __m256i C0a = _mm256_permute2f128_si256(v0b, v1b, 2 << 4);
+           __m256i D0a = _mm256_permute2f128_si256(v0b, v1b, (3 << 4) | 1);
+           __m256i A0b = _mm256_permute2f128_si256(v2a, v3a, 2 << 4);
+           __m256i B0b = _mm256_permute2f128_si256(v2a, v3a, (3 << 4) | 1);
+           __m256i C0b = _mm256_permute2f128_si256(v2b, v3b, 2 << 4);
+           __m256i D0b = _mm256_permute2f128_si256(v2b, v3b, (3 << 4) | 1);
 
            __m256i A1 = _mm256_unpacklo_epi16(A0a, C0a);
            __m256i B1 = _mm256_unpackhi_epi16(A0a, C0a);
@@ -1146,6 +1226,13 @@ def store4(simd_ext, typ, align, fmtspec2, v0, v1, v2, v3):
 
 ###############################################################################
 
+def store4_perm128(typ, align, fmtspec):
+    lo0, hi0 = perm128(typ, 'A', 'B')
+    lo1, hi1 = perm128(typ, 'C', 'D')
+    return store4('avx', typ, align, fmtspec, lo0, lo1, hi0, hi1)
+
+###############################################################################
+
 def store4_sse(typ, align, fmtspec2):
     fmtspec = fmtspec2.copy()
     if typ in ['i8', 'u8']:
@@ -1287,8 +1374,7 @@ def store4_avx(simd_ext, typ, align, fmtspec2):
                __m256i C = _mm256_unpacklo_epi16(B3, D3);
                __m256i D = _mm256_unpackhi_epi16(B3, D3);
 
-               {store}'''.format(store=store4('avx', typ, align, fmtspec,
-                                              'A', 'B', 'C', 'D'), **fmtspec)
+               {store}'''.format(store=store4_perm128(typ, align, fmtspec), **fmtspec)
         else:
             return \
             '''__m128i Wa = {exlo_in1};
@@ -1343,8 +1429,7 @@ def store4_avx(simd_ext, typ, align, fmtspec2):
            __m256 C = _mm256_unpacklo_ps(B3, D3);
            __m256 D = _mm256_unpackhi_ps(B3, D3);
 
-           {store}'''.format(store=store4('avx', typ, align, fmtspec,
-                                          'A', 'B', 'C', 'D'), **fmtspec)
+           {store}'''.format(store=store4_perm128(typ, align, fmtspec), **fmtspec)
     if typ in ['i32', 'u32']:
         if simd_ext == 'avx2':
             return \
@@ -1358,8 +1443,7 @@ def store4_avx(simd_ext, typ, align, fmtspec2):
                __m256i C = _mm256_unpacklo_epi32(B3, D3);
                __m256i D = _mm256_unpackhi_epi32(B3, D3);
 
-               {store}'''.format(store=store4('avx', typ, align, fmtspec,
-                                 'A', 'B', 'C', 'D'), **fmtspec)
+               {store}'''.format(store=store4_perm128(typ, align, fmtspec), **fmtspec)
         else:
             return \
             '''nsimd_store4{a}_avx_f32((f32 *){in0},
@@ -1505,15 +1589,24 @@ def store4_avx512(simd_ext, typ, align, fmtspec2):
            __m256i C4b = _mm256_unpacklo_epi16(B3, D3);
            __m256i D4b = _mm256_unpackhi_epi16(B3, D3);
 
+           __m256i A5a = _mm256_permute2f128_si256(A4a, B4a, 2 << 4);
+           __m256i B5a = _mm256_permute2f128_si256(C4a, D4a, 2 << 4);
+           __m256i C5a = _mm256_permute2f128_si256(A4a, B4a, (3 << 4) | 1);
+           __m256i D5a = _mm256_permute2f128_si256(C4a, D4a, (3 << 4) | 1);
+           __m256i A5b = _mm256_permute2f128_si256(A4b, B4b, 2 << 4);
+           __m256i B5b = _mm256_permute2f128_si256(C4b, D4b, 2 << 4);
+           __m256i C5b = _mm256_permute2f128_si256(A4b, B4b, (3 << 4) | 1);
+           __m256i D5b = _mm256_permute2f128_si256(C4b, D4b, (3 << 4) | 1);
+
            __m512i A = {mergeABa};
            __m512i B = {mergeCDa};
            __m512i C = {mergeABb};
            __m512i D = {mergeCDb};
 
-           {store}'''.format(mergeABa=x86.setr(simd_ext, typ, 'A4a', 'B4a'),
-                             mergeCDa=x86.setr(simd_ext, typ, 'C4a', 'D4a'),
-                             mergeABb=x86.setr(simd_ext, typ, 'A4b', 'B4b'),
-                             mergeCDb=x86.setr(simd_ext, typ, 'C4b', 'D4b'),
+           {store}'''.format(mergeABa=x86.setr(simd_ext, typ, 'A5a', 'B5a'),
+                             mergeCDa=x86.setr(simd_ext, typ, 'C5a', 'D5a'),
+                             mergeABb=x86.setr(simd_ext, typ, 'A5b', 'B5b'),
+                             mergeCDb=x86.setr(simd_ext, typ, 'C5b', 'D5b'),
                              store=store4(simd_ext, typ, align, fmtspec,
                                           'A', 'B', 'C', 'D'), **fmtspec)
     if typ in ['f32', 'i32', 'u32']:
-- 
2.43.0


From 65bacb06a1a63e70c5ad4333ca64ad83e6f10b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:27 +0000
Subject: [PATCH 02/43] fix: signed subs when the second operand is the
 smallest integer

---
 egg/platform_x86.py | 28 ++++++++++++++++++++++++----
 egg/scalar.py       | 11 ++++++++---
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index a84ccc5..d0f0d84 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -275,8 +275,8 @@ def get_additional_include(func, platform, simd_ext):
             ret += '''#include <nsimd/x86/{simd_ext}/to_logical.h>
                       '''.format(simd_ext=simd_ext)
     if func == 'subs':
-        ret += '''#include <nsimd/x86/{simd_ext}/adds.h>
-                  #include <nsimd/x86/{simd_ext}/neg.h>
+        ret += '''#include <nsimd/x86/{simd_ext}/andb.h>
+                  #include <nsimd/x86/{simd_ext}/xorb.h>
                   #include <nsimd/x86/{simd_ext}/sub.h>
                   #include <nsimd/x86/{simd_ext}/gt.h>
                   #include <nsimd/x86/{simd_ext}/set1.h>
@@ -3224,8 +3224,28 @@ def subs(simd_ext, typ):
                    'subs', simd_ext, typ)
 
     if typ in common.itypes:
-        return 'return nsimd_adds_{simd_ext}_{typ}({in0}, ' \
-               'nsimd_neg_{simd_ext}_{typ}({in1}));'.format(**fmtspec)
+        return \
+        '''/* Overflow happens if and only if the operands have different signs
+              and the sign of the result is not the one of the first operand.
+              Note that -{in1} cannot be used as -MIN does not exist. */
+           const nsimd_{simd_ext}_v{typ} ires =
+               nsimd_sub_{simd_ext}_{typ}({in0}, {in1});
+           const nsimd_{simd_ext}_v{typ} overflow =
+               nsimd_andb_{simd_ext}_{typ}(
+                   nsimd_xorb_{simd_ext}_{typ}({in0}, {in1}),
+                   nsimd_xorb_{simd_ext}_{typ}({in0}, ires));
+           const nsimd_{simd_ext}_v{typ} zero =
+               nsimd_set1_{simd_ext}_{typ}(({typ})0);
+           const nsimd_{simd_ext}_v{typ} min_max =
+               nsimd_if_else1_{simd_ext}_{typ}(
+                   nsimd_gt_{simd_ext}_{typ}(zero, {in0}),
+                   nsimd_set1_{simd_ext}_{typ}(({typ}){type_min}),
+                   nsimd_set1_{simd_ext}_{typ}(({typ}){type_max}));
+           return nsimd_if_else1_{simd_ext}_{typ}(
+                      nsimd_gt_{simd_ext}_{typ}(zero, overflow),
+                      min_max, ires);'''. \
+                      format(type_min=common.limits[typ]['min'],
+                             type_max=common.limits[typ]['max'], **fmtspec)
 
     min_ = common.limits[typ]['min']
 
diff --git a/egg/scalar.py b/egg/scalar.py
index 1545a84..376805f 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -333,9 +333,14 @@ def subs(typ):
                     return ({typ})({in0} - {in1});
                   }}
                   '''.format(**fmtspec)
-    # Getting here means typ is signed
-    return 'return nsimd_scalar_adds_{typ}({in0}, ({typ})(-{in1}));'. \
-           format(**fmtspec)
+    # Getting here means typ is signed, note that -{int_min} does not exist
+    int_max = 'NSIMD_' + typ.upper() + '_MAX'
+    int_min = 'NSIMD_' + typ.upper() + '_MIN'
+    return '''if ({in1} == {int_min}) {{
+                return {in0} >= 0 ? {int_max} : ({typ})({in0} - {in1});
+              }}
+              return nsimd_scalar_adds_{typ}({in0}, ({typ})(-{in1}));'''. \
+              format(int_min=int_min, int_max=int_max, **fmtspec)
 
 # -----------------------------------------------------------------------------
 
-- 
2.43.0


From 39c076dc85efb056a8c6f6b97d5aa1c98bdc1895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:27 +0000
Subject: [PATCH 03/43] fix: scalar abs of -0.0 is 0.0

---
 egg/scalar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egg/scalar.py b/egg/scalar.py
index 376805f..16fe069 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -376,12 +376,15 @@ def get_impl(operator, totyp, typ):
     if operator.name == 'abs':
         if typ == 'f16':
             return '''f32 tmp = nsimd_f16_to_f32({in0});
-                      return nsimd_f32_to_f16(tmp >= 0.0f ? tmp : -tmp);'''. \
+                      return nsimd_f32_to_f16(tmp <= 0.0f ? 0.0f - tmp
+                                                          : tmp);'''. \
                       format(**fmtspec)
         elif typ in common.utypes:
             return 'return {in0};'.format(**fmtspec)
         else:
-            return 'return ({typ})({in0} >= ({typ})0 ? {in0} : -{in0});'. \
+            # For floating point numbers, -0.0 has to give 0.0
+            return 'return ({typ})({in0} <= ({typ})0 ? ({typ})0 - {in0} ' \
+                                                    ': {in0});'. \
                    format(**fmtspec)
     if operator.name in ['min', 'max']:
         op = '<' if operator.name == 'min' else '>'
-- 
2.43.0


From 59f0c9256c9880852e0de7e7e0727514ced10c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:27 +0000
Subject: [PATCH 04/43] fix: x86 floating point to integer cvt truncates, u64
 to f64 cvt is unsigned

---
 egg/platform_x86.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index d0f0d84..cc51017 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2356,9 +2356,11 @@ def convert1(simd_ext, from_typ, to_typ):
                  format(**fmtspec)
     if to_typ == 'f64' or from_typ == 'f64':
         if simd_ext == 'avx512_skylake':
-            return 'return _mm512_cvt{from_suf}{to_suf}({in0});'. \
-                   format(from_suf=suf_ep(from_typ)[1:], to_suf=suf_ep(to_typ),
-                          **fmtspec)
+            t = 't' if from_typ == 'f64' else ''
+            from_suf = 'pd' if from_typ == 'f64' else 'ep' + from_typ
+            to_suf = 'pd' if to_typ == 'f64' else 'ep' + to_typ
+            return 'return _mm512_cvt{t}{from_suf}_{to_suf}({in0});'. \
+                   format(t=t, from_suf=from_suf, to_suf=to_suf, **fmtspec)
         else:
             return emulate
     if to_typ == 'f32' and from_typ == 'i32':
@@ -2369,12 +2371,12 @@ def convert1(simd_ext, from_typ, to_typ):
         if simd_ext in avx512:
             return 'return _mm512_cvtepu32_ps({in0});'.format(**fmtspec)
     if to_typ == 'i32' and from_typ == 'f32':
-        return 'return {pre}cvtps_epi32({in0});'.format(**fmtspec)
+        return 'return {pre}cvttps_epi32({in0});'.format(**fmtspec)
     if to_typ == 'u32' and from_typ == 'f32':
         if simd_ext in sse + avx:
             return emulate
         if simd_ext in avx512:
-            return 'return _mm512_cvtps_epu32({in0});'.format(**fmtspec)
+            return 'return _mm512_cvttps_epu32({in0});'.format(**fmtspec)
 
 # -----------------------------------------------------------------------------
 # Reciprocal (at least 11 bits of precision)
-- 
2.43.0


From be6d232dfd15479e62e8ba72d8f9d46563819602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:27 +0000
Subject: [PATCH 05/43] fix: x86 f32 to/from 64-bits integers conversions do
 not go through 32-bits integers

---
 egg/platform_x86.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/egg/platform_x86.py b/egg/platform_x86.py
index cc51017..d4bd659 100644
--- a/egg/platform_x86.py
+++ b/egg/platform_x86.py
@@ -2853,9 +2853,9 @@ def upcvt1(simd_ext, from_typ, to_typ):
     else:
         from_typ2 = from_typ[0] + str(int(fmtspec['typnbits']) * 2)
         if from_typ not in common.iutypes:
-            # getting here means that from_typ=f32 and to_typ=f64
+            # getting here means that from_typ=f32 and to_typ=i64 or u64
             with_intrinsic = \
-            '''nsimd_{simd_ext}_vf64x2 ret;
+            '''nsimd_{simd_ext}_v{to_typ}x2 ret;
                ret.v0 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
                             {lower_half}));
                ret.v1 = nsimd_cvt_{simd_ext}_{to_typ}_f64({pre}cvtps_pd(
@@ -2876,13 +2876,6 @@ def upcvt1(simd_ext, from_typ, to_typ):
            return ret;'''. \
            format(int_typ=from_typ[0] + to_typ[1:], lower_half=lower_half,
                   upper_half=upper_half, **fmtspec)
-    else:
-        int_float = \
-        '''return nsimd_upcvt_{simd_ext}_{to_typ}_{int_typ}(
-                      nsimd_cvt_{simd_ext}_{int_typ}_{from_typ}({in0}));'''. \
-                      format(int_typ=to_typ[0] + from_typ[1:],
-                             lower_half=lower_half, upper_half=upper_half,
-                             **fmtspec)
 
     # When no intrinsic is given we can use the trick of falling back to
     # the lower SIMD extension
@@ -2902,8 +2895,11 @@ def upcvt1(simd_ext, from_typ, to_typ):
     # return C code
     if from_typ == 'i32' and to_typ == 'f64':
         return with_intrinsic
-    if (from_typ in common.ftypes and to_typ in common.iutypes) or \
-       (from_typ in common.iutypes and to_typ in common.ftypes):
+    # Going through 32-bits integers is not possible as most of the values that
+    # fit into 64-bits integers do not fit into 32-bits ones.
+    if from_typ == 'f32' and to_typ in common.iutypes:
+        return with_intrinsic
+    if from_typ in common.iutypes and to_typ in common.ftypes:
         return int_float
     # if simd_ext == 'sse2':
     if simd_ext in sse:
@@ -2999,12 +2995,6 @@ def downcvt1(opts, simd_ext, from_typ, to_typ):
             return 'return {};'.format(setr(simd_ext, to_typ,
                    '{pre}cvtep{from_typ}_ep{to_typ}({in0})'.format(**fmtspec),
                    '{pre}cvtep{from_typ}_ep{to_typ}({in1})'.format(**fmtspec)))
-        elif from_typ == 'i64' and to_typ == 'f32':
-            return 'return nsimd_cvt_{simd_ext}_f32_i32({});'. \
-                   format(setr(simd_ext, from_typ,
-                          '{pre}cvtepi64_epi32({in0})'.format(**fmtspec),
-                          '{pre}cvtepi64_epi32({in1})'.format(**fmtspec)),
-                          **fmtspec)
 
     # and then emulation
     le_to_typ = 2 * int(fmtspec['le'])
-- 
2.43.0


From d10972f7f6d3a79e9d652bdca4d1aac3238a7f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:58 +0000
Subject: [PATCH 06/43] fix: scalar xorl is a logical exclusive or for any
 nonzero values

---
 egg/scalar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/scalar.py b/egg/scalar.py
index 16fe069..3071865 100644
--- a/egg/scalar.py
+++ b/egg/scalar.py
@@ -473,7 +473,7 @@ def get_impl(operator, totyp, typ):
         'eq': lambda: cmp('{in0} == {in1}', typ),
         'andl': lambda: 'return {in0} && {in1};'.format(**fmtspec),
         'orl': lambda: 'return {in0} || {in1};'.format(**fmtspec),
-        'xorl': lambda: 'return {in0} ^ {in1};'.format(**fmtspec),
+        'xorl': lambda: 'return (!{in0}) ^ (!{in1});'.format(**fmtspec),
         'andnotl': lambda: 'return {in0} && (!{in1});'.format(**fmtspec),
         'notl': lambda: 'return !{in0};'.format(**fmtspec),
         'shl': lambda: shift('shl', typ),
-- 
2.43.0


From 3eeb7c0795a1a9068351522be6dacddb15381de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:09 +0000
Subject: [PATCH 07/43] fix: nsimd_isnan_f16 and nsimd_isinf_f16 look at the
 mantissa bits only

---
 include/nsimd/nsimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 36c6dd1..379a20e 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -2115,7 +2115,7 @@ void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
 NSIMD_INLINE int nsimd_isnan_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) != 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) & 0x3FF) != 0u)) {
     return 1;
   } else {
     return 0;
@@ -2145,7 +2145,7 @@ NSIMD_INLINE int nsimd_isnan_f64(f64 a) {
 NSIMD_INLINE int nsimd_isinf_f16(f16 a) {
   /* We assume IEEE representation for f16's */
   u16 b = nsimd_scalar_reinterpret_u16_f16(a);
-  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) << 6) == 0u)) {
+  if ((((((u32)b) >> 10) & 0x1F) == 0x1F) && ((((u32)b) & 0x3FF) == 0u)) {
     return 1;
   } else {
     return 0;
-- 
2.43.0


From 2d271ab68c66fc20fc3351002b9b4f8a6cef889c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:39 +0000
Subject: [PATCH 08/43] fix: set1l, loadl* and mask_for_loop_tail on unrolled
 packl recurse on packl

---
 egg/gen_adv_cxx_api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 0f0f275..41410bd 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -32,7 +32,7 @@ def get_cxx_advanced_generic(operator):
         if param in ['v', 'vi']:
             return 'pack'
         elif param == 'l':
-            return 'pack'
+            return 'packl'
         else:
             return 'pack{}'.format(param[1:])
     args_list = common.enum(operator.params[1:])
-- 
2.43.0


From c23aaa6dc8cae104489f1ccae25dbafe032cb940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:39 +0000
Subject: [PATCH 09/43] fix: type conversions on unrolled packs recurse on the
 destination pack type

---
 egg/gen_adv_cxx_api.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 41410bd..618954d 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -57,7 +57,8 @@ def get_cxx_advanced_generic(operator):
     if other_varsN != '':
         other_varsN = ', ' + other_varsN
     if not operator.closed:
-        varsN = ['typename ToPackType::value_type()'] + varsN
+        varsN = ['{}<typename ToPackType::value_type, N - 1, SimdExt>()'. \
+                 format(get_pack(operator.params[0]))] + varsN
     if need_tmpl_pack != None:
         varsN = ['{}<T, N - 1, SimdExt>()'.format(need_tmpl_pack)] + varsN
     vars1 = ', '.join(vars1)
@@ -87,11 +88,13 @@ def get_cxx_advanced_generic(operator):
             ret_car = \
                 'typename simd_traits<T, SimdExt>::simd_vectorx{} car = '. \
                 format(num)
+            ret_cdr = 'packx{}<T, N - 1, SimdExt> cdr = '.format(num)
         else:
             ret_car = \
                 '''typename simd_traits<typename ToPackType::value_type,
                        SimdExt>::simd_vectorx{} car = '''.format(num)
-        ret_cdr = 'packx{}<T, N - 1, SimdExt> cdr = '.format(num)
+            ret_cdr = '''packx{}<typename ToPackType::value_type, N - 1,
+                                SimdExt> cdr = '''.format(num)
         post_car = '; ret.set_car({})'.format(', '.join( \
             ['car.v{}'.format(i) for i in range(0, int(num))]))
         post_cdr = '; ret.set_cdr({})'.format(', '.join( \
-- 
2.43.0


From d8363536053d1063fef52dc6ccdff310c24f5f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:39 +0000
Subject: [PATCH 10/43] fix: gather/scatter and their linear counterparts
 address all registers of unrolled packs

---
 egg/gen_adv_cxx_api.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index 618954d..e942cfb 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -46,6 +46,12 @@ def get_cxx_advanced_generic(operator):
         if arg[1] in ['vi', 'v', 'l']:
             return 'a{}.{}'.format(arg[0], member)
         elif (arg[1] in ['*', 'c*']) and N != '1':
+            if operator.name in ['gather', 'scatter']:
+                # offsets are relative to the base address for all registers
+                return 'a{}'.format(arg[0])
+            elif operator.name in ['gather_linear', 'scatter_linear']:
+                # the second argument is the step
+                return 'a{} + a1 * len_'.format(arg[0])
             return 'a{} + len_'.format(arg[0])
         else:
             return 'a{}'.format(arg[0])
@@ -109,7 +115,8 @@ def get_cxx_advanced_generic(operator):
         post_cdr = ''
         pack1_ret = ''
         packN_ret = ''
-    if '*' in operator.params[1:] or 'c*' in operator.params[1:]:
+    if ('*' in operator.params[1:] or 'c*' in operator.params[1:]) and \
+       operator.name not in ['gather', 'scatter']:
         # store*[au] does not contain any packx* argument, therefore the offset
         # cannot be correctly computed
         if operator.name in ['store2u', 'store2a']:
-- 
2.43.0


From 01f4230349d2d08f49c4145b3d52345bba3459c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:58 +0000
Subject: [PATCH 11/43] fix: iota and mask_for_loop_tail continue over all
 registers of unrolled packs

---
 egg/gen_adv_cxx_api.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/egg/gen_adv_cxx_api.py b/egg/gen_adv_cxx_api.py
index e942cfb..80f79dd 100644
--- a/egg/gen_adv_cxx_api.py
+++ b/egg/gen_adv_cxx_api.py
@@ -53,6 +53,9 @@ def get_cxx_advanced_generic(operator):
                 # the second argument is the step
                 return 'a{} + a1 * len_'.format(arg[0])
             return 'a{} + len_'.format(arg[0])
+        elif operator.name == 'mask_for_loop_tail' and arg[0] == 0 and \
+             N != '1':
+            return 'a0 + len_'
         else:
             return 'a{}'.format(arg[0])
     vars1 = [var(i, '1') for i in args_list] + ['T()'] + \
@@ -85,6 +88,10 @@ def get_cxx_advanced_generic(operator):
         ret_cdr = 'ret.cdr = '
         post_car = ''
         post_cdr = ''
+        if operator.name == 'iota':
+            # the following registers continue the sequence
+            post_cdr = '''; ret.cdr = add(ret.cdr, set1<
+                            pack<T, N - 1, SimdExt> >(to<T>(len_)))'''
         pack1_ret = '{} ret;'.format(ret1)
         packN_ret = '{} ret;'.format(retN)
     elif operator.params[0] in ['vx1', 'vx2', 'vx3', 'vx4']:
@@ -115,8 +122,9 @@ def get_cxx_advanced_generic(operator):
         post_cdr = ''
         pack1_ret = ''
         packN_ret = ''
-    if ('*' in operator.params[1:] or 'c*' in operator.params[1:]) and \
-       operator.name not in ['gather', 'scatter']:
+    if operator.name in ['iota', 'mask_for_loop_tail'] or \
+       (('*' in operator.params[1:] or 'c*' in operator.params[1:]) and \
+        operator.name not in ['gather', 'scatter']):
         # store*[au] does not contain any packx* argument, therefore the offset
         # cannot be correctly computed
         if operator.name in ['store2u', 'store2a']:
-- 
2.43.0


From d1576f384ee99ff3389b553ee935d11fb39ce009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 12/43] fix: addv on unrolled packs of f16

---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 242837c..2880550 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -534,7 +534,7 @@ T addv(pack<T, 1, SimdExt> const &a0) {
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 T addv(pack<T, N, SimdExt> const &a0) {
-  return addv(a0.car, T(), SimdExt()) + addv(a0.cdr);
+  return scalar_add(addv(a0.car, T(), SimdExt()), addv(a0.cdr));
 }
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From 51e0a9e1d98abb7d7e33b0705eb4c46e5ae32aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 13/43] fix: compound assignment operators use the SIMD
 extension of the pack

---
 include/nsimd/cxx_adv_api.hpp | 36 +++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index 2880550..b30e285 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -592,14 +592,14 @@ namespace nsimd {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator+=(pack<T, 1, SimdExt> const &other) {
-  this->car = add(this->car, other.car, T());
+  this->car = add(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator+=(pack<T, N, SimdExt> const &other) {
-  this->car = add(this->car, other.car, T());
+  this->car = add(this->car, other.car, T(), SimdExt());
   this->cdr += other.cdr;
   return *this;
 }
@@ -608,14 +608,14 @@ operator+=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator-=(pack<T, 1, SimdExt> const &other) {
-  this->car = sub(this->car, other.car, T());
+  this->car = sub(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator-=(pack<T, N, SimdExt> const &other) {
-  this->car = sub(this->car, other.car, T());
+  this->car = sub(this->car, other.car, T(), SimdExt());
   this->cdr -= other.cdr;
   return *this;
 }
@@ -624,14 +624,14 @@ operator-=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator*=(pack<T, 1, SimdExt> const &other) {
-  this->car = mul(this->car, other.car, T());
+  this->car = mul(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator*=(pack<T, N, SimdExt> const &other) {
-  this->car = mul(this->car, other.car, T());
+  this->car = mul(this->car, other.car, T(), SimdExt());
   this->cdr *= other.cdr;
   return *this;
 }
@@ -640,14 +640,14 @@ operator*=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator/=(pack<T, 1, SimdExt> const &other) {
-  this->car = div(this->car, other.car, T());
+  this->car = div(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator/=(pack<T, N, SimdExt> const &other) {
-  this->car = div(this->car, other.car, T());
+  this->car = div(this->car, other.car, T(), SimdExt());
   this->cdr /= other.cdr;
   return *this;
 }
@@ -656,14 +656,14 @@ operator/=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator|=(pack<T, 1, SimdExt> const &other) {
-  this->car = orb(this->car, other.car, T());
+  this->car = orb(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator|=(pack<T, N, SimdExt> const &other) {
-  this->car = orb(this->car, other.car, T());
+  this->car = orb(this->car, other.car, T(), SimdExt());
   this->cdr |= other.cdr;
   return *this;
 }
@@ -672,14 +672,14 @@ operator|=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator&=(pack<T, 1, SimdExt> const &other) {
-  this->car = andb(this->car, other.car, T());
+  this->car = andb(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator&=(pack<T, N, SimdExt> const &other) {
-  this->car = andb(this->car, other.car, T());
+  this->car = andb(this->car, other.car, T(), SimdExt());
   this->cdr &= other.cdr;
   return *this;
 }
@@ -688,14 +688,14 @@ operator&=(pack<T, N, SimdExt> const &other) {
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::
 operator^=(pack<T, 1, SimdExt> const &other) {
-  this->car = xorb(this->car, other.car, T());
+  this->car = xorb(this->car, other.car, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::
 operator^=(pack<T, N, SimdExt> const &other) {
-  this->car = xorb(this->car, other.car, T());
+  this->car = xorb(this->car, other.car, T(), SimdExt());
   this->cdr ^= other.cdr;
   return *this;
 }
@@ -703,13 +703,13 @@ operator^=(pack<T, N, SimdExt> const &other) {
 // left shift
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::operator<<=(int s) {
-  this->car = shl(this->car, s, T());
+  this->car = shl(this->car, s, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::operator<<=(int s) {
-  this->car = shl(this->car, s, T());
+  this->car = shl(this->car, s, T(), SimdExt());
   this->cdr <<= s;
   return *this;
 }
@@ -717,13 +717,13 @@ pack<T, N, SimdExt> &pack<T, N, SimdExt>::operator<<=(int s) {
 // right shift
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, 1, SimdExt> &pack<T, 1, SimdExt>::operator>>=(int s) {
-  this->car = shr(this->car, s, T());
+  this->car = shr(this->car, s, T(), SimdExt());
   return *this;
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, int N, NSIMD_CONCEPT_SIMD_EXT SimdExt>
 pack<T, N, SimdExt> &pack<T, N, SimdExt>::operator>>=(int s) {
-  this->car = shr(this->car, s, T());
+  this->car = shr(this->car, s, T(), SimdExt());
   this->cdr >>= s;
   return *this;
 }
-- 
2.43.0


From 21aef6246b43313e33ff6f81c8cea02fbdf50531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:18 +0000
Subject: [PATCH 14/43] fix: loadl and storel parametrized by the alignment
 deal with logicals

---
 include/nsimd/nsimd.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 379a20e..7f3bb91 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1952,25 +1952,25 @@ load4(const T *ptr, T, SimdExt, unaligned) {
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
 NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, aligned) {
+loadl(const T *ptr, T, aligned) {
   return loadla(ptr, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
 NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, unaligned) {
+loadl(const T *ptr, T, unaligned) {
   return loadlu(ptr, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, SimdExt, aligned) {
+NSIMD_NSVL(T, SimdExt)
+loadl(const T *ptr, T, SimdExt, aligned) {
   return loadla(ptr, T(), SimdExt());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-NSIMD_NSVL(T, NSIMD_SIMD)
-loadlu(const T *ptr, T, SimdExt, unaligned) {
+NSIMD_NSVL(T, SimdExt)
+loadl(const T *ptr, T, SimdExt, unaligned) {
   return loadlu(ptr, T(), SimdExt());
 }
 
@@ -2071,22 +2071,22 @@ void store4(T *ptr, NSIMD_NSV(T, SimdExt) a1, NSIMD_NSV(T, SimdExt) a2,
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
-void storel(T *ptr, NSIMD_NSV(T, NSIMD_SIMD) a1, T, aligned) {
+void storel(T *ptr, NSIMD_NSVL(T, NSIMD_SIMD) a1, T, aligned) {
   storela(ptr, a1, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T>
-void storel(T *ptr, NSIMD_NSV(T, NSIMD_SIMD) a1, T, unaligned) {
+void storel(T *ptr, NSIMD_NSVL(T, NSIMD_SIMD) a1, T, unaligned) {
   storelu(ptr, a1, T(), NSIMD_SIMD());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, aligned) {
+void storel(T *ptr, NSIMD_NSVL(T, SimdExt) a1, T, SimdExt, aligned) {
   storela(ptr, a1, T(), SimdExt());
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T, NSIMD_CONCEPT_SIMD_EXT SimdExt>
-void storel(T *ptr, NSIMD_NSV(T, SimdExt) a1, T, SimdExt, unaligned) {
+void storel(T *ptr, NSIMD_NSVL(T, SimdExt) a1, T, SimdExt, unaligned) {
   storelu(ptr, a1, T(), SimdExt());
 }
 
-- 
2.43.0


From fb4a974fa1fcd4ed15a2b791ad7b5565a37abf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:37 +0000
Subject: [PATCH 15/43] fix: C macros vif_else, vloadl, vstore2, vstore3 and
 vstore4 name existing functions

---
 include/nsimd/nsimd.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 7f3bb91..f9b5f7b 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1749,12 +1749,12 @@ T to(S value) {
 
 #define vif_else(a0, a1, a2, typel, type)                                     \
   NSIMD_PP_CAT_4(nsimd_if_else1_, NSIMD_SIMD, _, type)                        \
-  (NSIMD_PP_CAT_6(nsimd_vreinterpretl_, NSIMD_SIMD, _, type, _, typel)(a0),   \
+  (NSIMD_PP_CAT_6(nsimd_reinterpretl_, NSIMD_SIMD, _, type, _, typel)(a0),    \
    a1, a2)
 
 #define vif_else_e(a0, a1, a2, typel, type, simd_ext)                         \
   NSIMD_PP_CAT_4(nsimd_if_else1_, simd_ext, _, type)                          \
-  (NSIMD_PP_CAT_6(nsimd_vreinterpretl_, simd_ext, _, type, _, typel)(a0), a1, \
+  (NSIMD_PP_CAT_6(nsimd_reinterpretl_, simd_ext, _, type, _, typel)(a0), a1,  \
    a2)
 
 #if NSIMD_CXX > 0
@@ -1813,10 +1813,10 @@ if_else(NSIMD_NSVL(L, SimdExt) a0, NSIMD_NSV(T, SimdExt) a1,
   NSIMD_PP_CAT_6(nsimd_load4, alignment, _, simd_ext, _, type)(a0)
 
 #define vloadl(a0, type, alignment)                                           \
-  NSIMD_PP_CAT_6(nsimd_loadl, alignment_, NSIMD_SIMD, _, type)(a0)
+  NSIMD_PP_CAT_6(nsimd_loadl, alignment, _, NSIMD_SIMD, _, type)(a0)
 
 #define vloadl_e(a0, type, simd_ext, alignment)                               \
-  NSIMD_PP_CAT_6(nsimd_loadl, alignment_, simd_ext, _, type)(a0)
+  NSIMD_PP_CAT_6(nsimd_loadl, alignment, _, simd_ext, _, type)(a0)
 
 #define vstore(a0, a1, type, alignment)                                       \
   NSIMD_PP_CAT_6(nsimd_store, alignment, _, NSIMD_SIMD, _, type)(a0, a1)
@@ -1825,24 +1825,24 @@ if_else(NSIMD_NSVL(L, SimdExt) a0, NSIMD_NSV(T, SimdExt) a1,
   NSIMD_PP_CAT_6(nsimd_store, alignment, _, simd_ext, _, type)(a0, a1)
 
 #define vstore2(a0, a1, a2, type, alignment)                                  \
-  NSIMD_PP_CAT_4(nsimd_store2, alignment, _, NSIMD_SIMD, _, type)(a0, a1, a2)
+  NSIMD_PP_CAT_6(nsimd_store2, alignment, _, NSIMD_SIMD, _, type)(a0, a1, a2)
 
 #define vstore2_e(a0, a1, a2, type, simd_ext, alignment)                      \
-  NSIMD_PP_CAT_4(nsimd_store2, alignment, _, simd_ext, _, type)(a0, a1, a2)
+  NSIMD_PP_CAT_6(nsimd_store2, alignment, _, simd_ext, _, type)(a0, a1, a2)
 
 #define vstore3(a0, a1, a2, a3, type, alignment)                              \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
+  NSIMD_PP_CAT_6(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
   (a0, a1, a2, a3)
 
 #define vstore3_e(a0, a1, a2, a3, type, simd_ext, alignment)                  \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, simd_ext, _, type)(a0, a1, a2, a3)
+  NSIMD_PP_CAT_6(nsimd_store3, alignment, _, simd_ext, _, type)(a0, a1, a2, a3)
 
 #define vstore4(a0, a1, a2, a3, a4, type, alignment)                          \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, NSIMD_SIMD, _, type)             \
+  NSIMD_PP_CAT_6(nsimd_store4, alignment, _, NSIMD_SIMD, _, type)             \
   (a0, a1, a2, a3, a4)
 
 #define vstore4_e(a0, a1, a2, a3, a4, type, simd_ext, alignment)              \
-  NSIMD_PP_CAT_4(nsimd_store3, alignment, _, simd_ext, _, type)               \
+  NSIMD_PP_CAT_6(nsimd_store4, alignment, _, simd_ext, _, type)               \
   (a0, a1, a2, a3, a4)
 
 #define vstorel(a0, a1, type, alignment)                                      \
-- 
2.43.0


From 4daf28da71cd1628bf3444ca0081cfa792be4b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 16/43] fix: tet1d infix operators and masked outputs accept
 f16 scalars

---
 include/nsimd/modules/tet1d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 1bd3c56..1339050 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -272,6 +272,7 @@ template <> struct literal_to<f16> {
   template <typename S> static f16 impl(S a) {
     return nsimd_f32_to_f16(f32(a));
   }
+  static f16 impl(f16 a) { return a; }
 };
 
 // ----------------------------------------------------------------------------
-- 
2.43.0


From dd1c4b735dae26ac826a801fa667f2b4d044231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:56 +0000
Subject: [PATCH 17/43] fix: tet1d.hpp can be included in several translation
 units (compute_size is inline)

---
 include/nsimd/modules/tet1d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/tet1d.hpp b/include/nsimd/modules/tet1d.hpp
index 1339050..4cec737 100644
--- a/include/nsimd/modules/tet1d.hpp
+++ b/include/nsimd/modules/tet1d.hpp
@@ -169,7 +169,7 @@ void cpu_kernel_component_wise_mask(T *dst, Mask const &mask, Expr const &expr,
 // ----------------------------------------------------------------------------
 // helper for computing sizes of 1D vectors
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
   assert(sz1 >= 0 || sz2 >= 0);
   assert((sz1 < 0 && sz2 >= 0) || (sz1 >= 0 && sz2 < 0) || (sz1 == sz2));
   if (sz1 < 0) {
@@ -179,7 +179,7 @@ nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2) {
   }
 }
 
-nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
+inline nsimd::nat compute_size(nsimd::nat sz1, nsimd::nat sz2, nsimd::nat sz3) {
   return compute_size(compute_size(sz1, sz2), sz3);
 }
 
-- 
2.43.0


From e5eaf1b2a677beca3ba2bd6efaef4bb50a5cedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:06 +0000
Subject: [PATCH 18/43] fix: aligned_alloc_for and the C++98 allocator report
 negative, overflowing and failed requests

---
 include/nsimd/nsimd.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index f9b5f7b..3c14742 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -1450,6 +1450,10 @@ NSIMD_INLINE void aligned_free(void *ptr) {
 }
 
 template <NSIMD_CONCEPT_VALUE_TYPE T> T *aligned_alloc_for(nsimd_nat n) {
+  /* a negative count or a byte count that overflows cannot be satisfied */
+  if (n < 0 || (size_t)n > ((size_t)-1 >> 1) / sizeof(T)) {
+    return NULL;
+  }
   return (T *)aligned_alloc(n * (nsimd_nat)sizeof(T));
 }
 
@@ -1490,7 +1494,11 @@ public:
   const_pointer address(const_reference r) { return &r; }
 
   pointer allocate(size_type n) {
-    return reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    pointer ptr = reinterpret_cast<pointer>(aligned_alloc_for<T>((nsimd_nat)n));
+    if (ptr != NULL) {
+      return ptr;
+    }
+    throw std::bad_alloc();
   }
 
   pointer allocate(size_type n, const void *) { return allocate(n); }
-- 
2.43.0


From 57348644e10fde07308e9ad24ed303894ef26181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:06 +0000
Subject: [PATCH 19/43] fix: device_malloc and device_calloc report sizes that
 overflow instead of allocating a smaller block

---
 include/nsimd/modules/memory_management.hpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 57ede59..47e2e3f 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -39,6 +39,9 @@ namespace nsimd {
 
 template <typename T> T *device_malloc(size_t sz) {
   void *ret;
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   if (cudaMalloc(&ret, sz * sizeof(T)) != cudaSuccess) {
     return NULL;
   }
@@ -47,6 +50,9 @@ template <typename T> T *device_malloc(size_t sz) {
 
 template <typename T> T *device_calloc(size_t sz) {
   void *ret;
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   if (cudaMalloc(&ret, sz * sizeof(T)) != cudaSuccess) {
     return NULL;
   }
@@ -92,6 +98,9 @@ void copy_to_host(T *host_ptr, T *device_ptr, size_t sz) {
 
 template <typename T> T *device_malloc(size_t sz) {
   void *ret;
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   if (hipMalloc(&ret, sz * sizeof(T)) != hipSuccess) {
     return NULL;
   }
@@ -100,6 +109,9 @@ template <typename T> T *device_malloc(size_t sz) {
 
 template <typename T> T *device_calloc(size_t sz) {
   void *ret;
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   if (hipMalloc(&ret, sz * sizeof(T)) != hipSuccess) {
     return NULL;
   }
@@ -205,11 +217,14 @@ void copy_to_host(T *const host_ptr, const T *const device_ptr, size_t sz) {
 #else
 
 template <typename T> T *device_malloc(size_t sz) {
+  if (sz > (size_t)-1 / sizeof(T)) {
+    return NULL;
+  }
   return (T *)malloc(sz * sizeof(T));
 }
 
 template <typename T> T *device_calloc(size_t sz) {
-  return (T *)calloc(sz * sizeof(T), 1);
+  return (T *)calloc(sz, sizeof(T));
 }
 
 template <typename T> void device_free(T *ptr) { free((void *)ptr); }
-- 
2.43.0


From 7c536281c66c872180051a67cb2ec39c3e0b6dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:06 +0000
Subject: [PATCH 20/43] fix: pair_malloc, pair_calloc and pair_free allocate
 and release the whole host and device buffers on GPU builds

---
 include/nsimd/modules/memory_management.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/memory_management.hpp b/include/nsimd/modules/memory_management.hpp
index 47e2e3f..3f45a05 100644
--- a/include/nsimd/modules/memory_management.hpp
+++ b/include/nsimd/modules/memory_management.hpp
@@ -266,7 +266,7 @@ template <typename T> paired_pointers_t<T> pair_malloc(size_t sz) {
     ret.host_ptr = NULL;
     return ret;
   }
-  ret.host_ptr = (T *)malloc(sz);
+  ret.host_ptr = (T *)malloc(sz * sizeof(T));
   if (ret.host_ptr == NULL) {
     device_free(ret.device_ptr);
     ret.device_ptr = NULL;
@@ -299,7 +299,7 @@ template <typename T> paired_pointers_t<T> pair_calloc(size_t sz) {
     ret.host_ptr = NULL;
     return ret;
   }
-  ret.host_ptr = calloc(sz, 1);
+  ret.host_ptr = (T *)calloc(sz, sizeof(T));
   if (ret.host_ptr == NULL) {
     device_free(ret.device_ptr);
     ret.device_ptr = NULL;
@@ -325,7 +325,7 @@ template <typename T> paired_pointers_t<T> pair_calloc_or_exit(size_t sz) {
 
 template <typename T> void pair_free(paired_pointers_t<T> p) {
 #if defined(NSIMD_CUDA) || defined(NSIMD_ROCM) || defined(NSIMD_ONEAPI)
-  device_free(p.device_free);
+  device_free(p.device_ptr);
   free((void *)p.host_ptr);
 #else
   free((void *)p.host_ptr);
-- 
2.43.0


From 9b07fe1757ddab0c4af5cea5db09cf584f7af168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 21/43] fix: fixed_point scalar comparisons compare the whole
 number instead of dropping its low bits

---
 include/nsimd/modules/fixed_point/function/eq.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/eq_ulp.hpp    |  6 +-----
 .../nsimd/modules/fixed_point/function/greater.hpp   | 12 ++----------
 include/nsimd/modules/fixed_point/function/less.hpp  | 12 ++----------
 4 files changed, 6 insertions(+), 30 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/eq.hpp b/include/nsimd/modules/fixed_point/function/eq.hpp
index cb62c6f..f4db655 100644
--- a/include/nsimd/modules/fixed_point/function/eq.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool operator==(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) == (b._raw & mask));
+  return a._raw == b._raw;
 }
 
 } // namespace fixed_point
diff --git a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
index 2518f5a..0d00c58 100644
--- a/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
+++ b/include/nsimd/modules/fixed_point/function/eq_ulp.hpp
@@ -33,11 +33,7 @@ template <u8 _lf, u8 _rt>
 bool equal_ulp(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b,
                const int &ulp) {
   typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  raw_type diff = (a._raw & mask) - (b._raw & mask);
-  diff = diff >> shift_size;
+  raw_type diff = a._raw - b._raw;
   return (diff <= ulp & diff >= -ulp);
 }
 
diff --git a/include/nsimd/modules/fixed_point/function/greater.hpp b/include/nsimd/modules/fixed_point/function/greater.hpp
index 22e75fa..add8290 100644
--- a/include/nsimd/modules/fixed_point/function/greater.hpp
+++ b/include/nsimd/modules/fixed_point/function/greater.hpp
@@ -32,11 +32,7 @@ namespace fixed_point {
 
 template <u8 _lf, u8 _rt>
 bool gt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) > (b._raw & mask));
+  return a._raw > b._raw;
 }
 
 template <u8 _lf, u8 _rt>
@@ -56,11 +52,7 @@ bool operator>(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool gte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) >= (b._raw & mask));
+  return a._raw >= b._raw;
 }
 
 template <u8 _lf, u8 _rt>
diff --git a/include/nsimd/modules/fixed_point/function/less.hpp b/include/nsimd/modules/fixed_point/function/less.hpp
index b22f07c..0b0a48d 100644
--- a/include/nsimd/modules/fixed_point/function/less.hpp
+++ b/include/nsimd/modules/fixed_point/function/less.hpp
@@ -31,11 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <u8 _lf, u8 _rt>
 bool lt(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) < (b._raw & mask));
+  return a._raw < b._raw;
 }
 
 template <u8 _lf, u8 _rt>
@@ -55,11 +51,7 @@ bool operator<(const T &a, const fp_t<_lf, _rt> &b) {
 
 template <u8 _lf, u8 _rt>
 bool lte(const fp_t<_lf, _rt> &a, const fp_t<_lf, _rt> &b) {
-  typedef typename fp_t<_lf, _rt>::value_type raw_type;
-  const int shift_size = 8 * sizeof(raw_type) - _lf - _rt;
-  const raw_type max = -1;
-  const raw_type mask = (max << (shift_size));
-  return ((a._raw & mask) <= (b._raw & mask));
+  return a._raw <= b._raw;
 }
 
 template <u8 _lf, u8 _rt>
-- 
2.43.0


From b22a4b6f52e3a51f8a52b048ca31166d756ffbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 22/43] fix: fixed_point::floor clears the fractional bits only

---
 include/nsimd/modules/fixed_point/function/floor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/modules/fixed_point/function/floor.hpp b/include/nsimd/modules/fixed_point/function/floor.hpp
index 6966afc..7fc236c 100644
--- a/include/nsimd/modules/fixed_point/function/floor.hpp
+++ b/include/nsimd/modules/fixed_point/function/floor.hpp
@@ -31,7 +31,7 @@ namespace nsimd {
 namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> floor(const fp_t<_lf, _rt> &a) {
-  const int shift_size = 8 * sizeof(a._raw) - _lf;
+  const int shift_size = _rt;
   fp_t<_lf, _rt> res;
   res._raw = (a._raw >> (shift_size)) << shift_size;
   return res;
-- 
2.43.0


From 13ff2875fd76e577fdcb788e0b77fee8c046c6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 23/43] fix: fixed_point comparison operators on packs return
 packl

---
 include/nsimd/modules/fixed_point.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/nsimd/modules/fixed_point.hpp b/include/nsimd/modules/fixed_point.hpp
index 88e9dbb..17b17d3 100644
--- a/include/nsimd/modules/fixed_point.hpp
+++ b/include/nsimd/modules/fixed_point.hpp
@@ -162,7 +162,7 @@ NSIMD_INLINE packl<T> eq(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator==(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator==(const pack<T> &a0, const pack<T> &a1) {
   return eq( a0 , a1 );
 }
 
@@ -174,7 +174,7 @@ NSIMD_INLINE packl<T> ne(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator!=(const pack<T> &a0, const pack<T> &a1) {
   return ne( a0 , a1 );
 }
 
@@ -186,7 +186,7 @@ NSIMD_INLINE packl<T> le(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<=(const pack<T> &a0, const pack<T> &a1) {
   return le( a0 , a1 );
 }
 
@@ -198,7 +198,7 @@ NSIMD_INLINE packl<T> lt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator<(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator<(const pack<T> &a0, const pack<T> &a1) {
   return lt( a0 , a1 );
 }
 
@@ -210,7 +210,7 @@ NSIMD_INLINE packl<T> ge(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>=(const pack<T> &a0, const pack<T> &a1) {
   return ge( a0 , a1 );
 }
 
@@ -222,7 +222,7 @@ NSIMD_INLINE packl<T> gt(const pack<T> &a0, const pack<T> &a1) {
 }
 
 template <typename T>
-NSIMD_INLINE pack<T> operator>(const pack<T> &a0, const pack<T> &a1) {
+NSIMD_INLINE packl<T> operator>(const pack<T> &a0, const pack<T> &a1) {
   return gt( a0 , a1 );
 }
 
-- 
2.43.0


From dbe74c16d6d3948744105d9ba586282fb6488685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 24/43] fix: fixed_point::ceil tests the fractional bits for an
 integer

---
 include/nsimd/modules/fixed_point/function/ceil.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/function/ceil.hpp b/include/nsimd/modules/fixed_point/function/ceil.hpp
index 540bd77..0494329 100644
--- a/include/nsimd/modules/fixed_point/function/ceil.hpp
+++ b/include/nsimd/modules/fixed_point/function/ceil.hpp
@@ -32,9 +32,8 @@ namespace nsimd {
 namespace fixed_point {
 template <unsigned char _lf, unsigned char _rt>
 NSIMD_INLINE fp_t<_lf, _rt> ceil(const fp_t<_lf, _rt> &a) {
-  const int shift_size = _lf;
   fp_t<_lf, _rt> res = floor(a);
-  if (0 == ((a._raw << (shift_size)) >> shift_size)) {
+  if (res._raw == a._raw) {
     return res;
   } else {
     return (res + constants::one<_lf, _rt>());
-- 
2.43.0


From c279c9141b0381c9e6993fb05f0b777b50a60780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:31 +0000
Subject: [PATCH 25/43] fix: fixed_point conversions from and to float with 31
 or more fractional bits

---
 include/nsimd/modules/fixed_point/fixed.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nsimd/modules/fixed_point/fixed.hpp b/include/nsimd/modules/fixed_point/fixed.hpp
index a85cf34..1a15b54 100644
--- a/include/nsimd/modules/fixed_point/fixed.hpp
+++ b/include/nsimd/modules/fixed_point/fixed.hpp
@@ -35,11 +35,11 @@ namespace nsimd {
 namespace fixed_point {
 
 template <typename T, u8 rt> static inline T float2int(const float val) {
-  return (T)roundf(val * (float)(1 << rt));
+  return (T)roundf(val * (float)((u64)1 << rt));
 }
 
 template <typename T, u8 rt> static inline float int2float(const T val) {
-  return (float)val / (float)(1 << rt);
+  return (float)val / (float)((u64)1 << rt);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 6bd9cc5fa2c5c4e06379c89eb92556e17e5ce6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:49 +0000
Subject: [PATCH 26/43] fix: spmd k_while terminates when lanes break, return
 or are masked, and k_continue lasts one iteration

---
 include/nsimd/modules/spmd.hpp | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index 10eb3d9..a73f98f 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -639,17 +639,21 @@ inline bool any(bool a) { return a; }
     k_bool spmd_middle_mask_ = spmd_mask_;                                    \
     k_bool spmd_off_lanes_break_(false);                                      \
     (void)spmd_off_lanes_break_;                                              \
-    k_bool spmd_off_lanes_continue_(false);                                   \
-    (void)spmd_off_lanes_continue_;                                           \
-    {                                                                         \
-      while (spmd::any(cond)) {                                               \
-        k_bool spmd_cond_ =                                                   \
-            spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(    \
-                cond);                                                        \
-        {                                                                     \
-          k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;                \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);  \
-          spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
+    for (;;) {                                                                \
+      k_bool spmd_mask_ =                                                     \
+          spmd::clear_lanes(spmd_middle_mask_, spmd_off_lanes_break_);        \
+      spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);     \
+      spmd_mask_ =                                                            \
+          spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(      \
+              cond) &&                                                        \
+          spmd_mask_;                                                         \
+      if (!spmd::any(spmd_mask_)) {                                           \
+        break;                                                                \
+      }                                                                       \
+      spmd_middle_mask_ = spmd_mask_;                                         \
+      k_bool spmd_off_lanes_continue_(false);                                 \
+      (void)spmd_off_lanes_continue_;                                         \
+      {
 
 // break statement (k_break)
 #define k_break                                                               \
@@ -666,7 +670,6 @@ inline bool any(bool a) { return a; }
   }                                                                           \
   }                                                                           \
   }                                                                           \
-  }                                                                           \
   spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_return_);
 
 // return statement (k_return)
-- 
2.43.0


From 7a30b24011909b7adf0779799c9eb7e8027a82ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 27/43] fix: spmd k_elseif evaluates its condition for the
 lanes no earlier branch took

---
 include/nsimd/modules/spmd.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index a73f98f..b38e864 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -693,10 +693,11 @@ inline bool any(bool a) { return a; }
   spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_break_);          \
   spmd_mask_ = spmd::clear_lanes(spmd_mask_, spmd_off_lanes_continue_);       \
   spmd_middle_mask_ = spmd::clear_lanes(spmd_middle_mask_, spmd_cond_);       \
-  spmd_cond_ =                                                                \
-      spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(cond);    \
   {                                                                           \
-    k_bool spmd_mask_ = spmd_cond_ && spmd_middle_mask_;
+    k_bool spmd_mask_ = spmd_middle_mask_;                                    \
+    spmd_cond_ =                                                              \
+        spmd::to_k_bool_<spmd_KernelType_, spmd_ScalarBits_, spmd_N_>(cond);  \
+    spmd_mask_ = spmd_cond_ && spmd_middle_mask_;
 
 // else statement (k_else)
 #define k_else                                                                \
-- 
2.43.0


From f665310723a4456382cbfc0ba5865fee92b54de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:23 +0000
Subject: [PATCH 28/43] fix: spmd k_set on logicals leaves the inactive lanes
 unchanged and accepts every logical value

---
 include/nsimd/modules/spmd.hpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index b38e864..d145b21 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -594,16 +594,19 @@ void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
 
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var, U value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(
-      mask && nsimd::pack<S, N, SimdExt>(int(value)));
+            nsimd::packl<S, N, SimdExt> &var,
+            nsimd::packl<U, N, SimdExt> const &value) {
+  nsimd::packl<S, N, SimdExt> m =
+      nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask);
+  nsimd::packl<S, N, SimdExt> v =
+      nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(value);
+  var = nsimd::orl(nsimd::andl(m, v), nsimd::andnotl(var, m));
 }
 
-template <typename T, typename S, int N, typename SimdExt, typename U>
+template <typename T, typename S, int N, typename SimdExt>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
-            nsimd::packl<S, N, SimdExt> &var,
-            nsimd::packl<U, N, SimdExt> const &value) {
-  var = nsimd::reinterpretl<nsimd::packl<S, N, SimdExt> >(mask && value);
+            nsimd::packl<S, N, SimdExt> &var, bool value) {
+  k_set_(mask, var, nsimd::packl<S, N, SimdExt>(int(value)));
 }
 
 #define k_set(var, value) spmd::k_set_(spmd_mask_, var, value)
-- 
2.43.0


From a563ed3a3dceca7519ddfc3af50f8db350004c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 29/43] fix: logical operators accept a scalar on the left of a
 packl

---
 egg/gen_friendly_but_not_optimized.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/egg/gen_friendly_but_not_optimized.py b/egg/gen_friendly_but_not_optimized.py
index 5ffbe5f..2999929 100644
--- a/egg/gen_friendly_but_not_optimized.py
+++ b/egg/gen_friendly_but_not_optimized.py
@@ -54,7 +54,7 @@ def get_impl(operator):
         template <typename S, typename T, int N, typename SimdExt>
         packl<T, N, SimdExt>
         operator{cxx_op}(S s, packl<T, N, SimdExt> const &v) {{
-          return {op_name}(pack<T, N, SimdExt>(bool(s)), v);
+          return {op_name}(packl<T, N, SimdExt>(bool(s)), v);
         }}
 
         template <typename T, typename S, int N, typename SimdExt>
-- 
2.43.0


From 494704df63a0ca72c24a7f50eb7efe9b9ffae275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 30/43] fix: the random module's functions are inline, so that
 its header can be included in several translation units

---
 egg/modules/random/hatch.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/egg/modules/random/hatch.py b/egg/modules/random/hatch.py
index 911499c..57ef781 100644
--- a/egg/modules/random/hatch.py
+++ b/egg/modules/random/hatch.py
@@ -45,7 +45,8 @@ class Rand(object, metaclass=MAddToRands):
         for word_size, nwords_nrounds in self.wordsize_nwords_nrounds.items():
             for nwords, list_nrounds in nwords_nrounds.items():
                 for nrounds in list_nrounds:
-                    res += self.gen_signature(nwords, word_size, nrounds)+';'
+                    res += 'inline ' + \
+                           self.gen_signature(nwords, word_size, nrounds)+';'
 
         return res
 
@@ -194,7 +195,8 @@ class Philox(Rand):
 
     mullohi='''
 #if 1
-void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
+inline void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low,
+                      pack<u32> *high) {
   nsimd::packx2<u64> a64 = nsimd::upcvt(nsimd::packx2<u64>(), a);
   nsimd::packx2<u64> b64 = nsimd::upcvt(nsimd::packx2<u64>(), b);
 
@@ -209,7 +211,8 @@ void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
 
 #else
 
-void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
+inline void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low,
+                      pack<u32> *high) {
   nsimd::pack<u32> ah = nsimd::shr(a, 16);
   nsimd::pack<u32> bh = nsimd::shr(b, 16);
 
@@ -241,7 +244,8 @@ void mulhilo32(pack<u32> a, pack<u32> b, pack<u32> *low, pack<u32> *high) {
 #endif
 
 #if 0
-void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
+inline void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low,
+                      pack<u64> *high) {
   u64 a_buf[8];
   u64 b_buf[8];
   u64 low_buf[8];
@@ -262,7 +266,8 @@ void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
 
 #else
 
-void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
+inline void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low,
+                      pack<u64> *high) {
   nsimd::pack<u64> ah = nsimd::shr(a, 32);
   nsimd::pack<u64> bh = nsimd::shr(b, 32);
 
@@ -364,7 +369,7 @@ void mulhilo64(pack<u64> a, pack<u64> b, pack<u64> *low, pack<u64> *high) {
             in.v3 = low0;'''.format(word_size=word_size)
 
 
-        res = self.gen_signature (nwords, word_size, nrounds)
+        res = 'inline ' + self.gen_signature (nwords, word_size, nrounds)
         res += ' {{ nsimd::packx{}<u{}> out;'.format(nwords, word_size)
         res += bump_keys_init
         res += round_init
@@ -497,7 +502,7 @@ class ThreeFry(Rand):
             nsimd::set1(nsimd::pack<u64>(), (u64)0x1BD11BDAA9FC1A22ULL);'''. \
             format(nwords=nwords)
 
-        res = self.gen_signature(nwords, word_size, nrounds)
+        res = 'inline ' + self.gen_signature(nwords, word_size, nrounds)
 
         res += ' {{ nsimd::packx{}<u{}> out;'.format(nwords, word_size)
 
-- 
2.43.0


From fda2b63adef64d2157d888ba1e3e5b4bf0acd934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 31/43] fix: the library built by CMake contains the nsimd_ufp
 functions

---
 CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index d6ec947..74a7bc5 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -117,7 +117,7 @@ nsimd_get_compiler_argument(${simd} NSIMD_COMPILATION_OPTIONS)
 # -----------------------------------------------------------------------------
 # Object file selection
 
-set(NSIMD_OBJS "fp16;gpu;memory;api_cpu;rempitab;sleefsp;sleefdp")
+set(NSIMD_OBJS "fp16;gpu;memory;ufp;api_cpu;rempitab;sleefsp;sleefdp")
 
 if ("${simd}" STREQUAL "sse2")
   set(NSIMD_OBJS "${NSIMD_OBJS};api_sse2;sleef_sse2_f32;sleef_sse2_f64")
-- 
2.43.0


From fbc634167f87424a5c401ccb63a31c7b3873c640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:14 +0000
Subject: [PATCH 32/43] fix: CMake passes -DSVE2048 and -march as two arguments

---
 CMakeLists.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 74a7bc5..17e3cc0 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -90,7 +90,7 @@ function(nsimd_get_compiler_argument simd_ext argument)
     set(mapping_sve512 "-DSVE512;-march=armv8.2-a+sve;-msve-vector-bits=512")
     set(mapping_sve1024 "-DSVE1024;-march=armv8.2-a+sve"
                         ";-msve-vector-bits=1024")
-    set(mapping_sve2048 "-DSVE2048 -march=armv8.2-a+sve"
+    set(mapping_sve2048 "-DSVE2048;-march=armv8.2-a+sve"
                         ";-msve-vector-bits=2048")
     set(mapping_vmx "-DVMX;-mcpu=powerpc64le;-maltivec")
     set(mapping_vsx "-DVSX;-mcpu=powerpc64le;-mvsx")
-- 
2.43.0


From 1d6fdd6b848316dc0ce243b2a1cfb64661ef5c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:16 +0000
Subject: [PATCH 33/43] fix: the C++20 concept of SIMD extensions exists for
 SSE4.2

---
 include/nsimd/nsimd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/nsimd.h b/include/nsimd/nsimd.h
index 3c14742..4750987 100644
--- a/include/nsimd/nsimd.h
+++ b/include/nsimd/nsimd.h
@@ -414,7 +414,7 @@ namespace nsimd {
       struct cpu {};
       struct sse2 {};
       struct sse42 {};
-      #if nsIMD_CXX >= 2020
+      #if NSIMD_CXX >= 2020
         template <typename T>
         concept simd_ext_c = std::is_same_v<T, nsimd::cpu> ||
                              std::is_same_v<T, nsimd::sse2> ||
-- 
2.43.0


From 460e7b7666ce8e4f8eefdcc942827cf37c2dc7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:44 +0000
Subject: [PATCH 34/43] fix: loadl and storel on packl are accepted in C++20

---
 include/nsimd/cxx_adv_api.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index b30e285..dbfc7b0 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -878,7 +878,8 @@ template <> struct store_helper<aligned> {
     mask_storea(a0, a1, a2);
   }
 
-  template <NSIMD_CONCEPT_PACK P> static void storel(NSIMD_T *a0, P const &a1) {
+  template <NSIMD_CONCEPT_PACKL P>
+  static void storel(NSIMD_T *a0, P const &a1) {
     storela(a0, a1);
   }
 
@@ -912,7 +913,8 @@ template <> struct store_helper<unaligned> {
     mask_storeu(a0, a1, a2);
   }
 
-  template <NSIMD_CONCEPT_PACK P> static void storel(NSIMD_T *a0, P const &a1) {
+  template <NSIMD_CONCEPT_PACKL P>
+  static void storel(NSIMD_T *a0, P const &a1) {
     storelu(a0, a1);
   }
 
@@ -957,7 +959,7 @@ Pack masko_load(Packl const &pl, const typename Pack::value_type *ptr,
   return detail::load_helper<Pack, Alignment>::masko_load(pl, ptr, p);
 }
 
-template <NSIMD_CONCEPT_PACK SimdVector, NSIMD_CONCEPT_ALIGNMENT Alignment>
+template <NSIMD_CONCEPT_PACKL SimdVector, NSIMD_CONCEPT_ALIGNMENT Alignment>
 SimdVector loadl(const typename SimdVector::value_type *ptr) {
   return detail::load_helper<SimdVector, Alignment>::loadl(ptr);
 }
-- 
2.43.0


From 621a73a76af92931eda6c58110a7473cbc79cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:44 +0000
Subject: [PATCH 35/43] fix: an unrolled packl can be made from a bool in C++20

---
 include/nsimd/cxx_adv_api.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nsimd/cxx_adv_api.hpp b/include/nsimd/cxx_adv_api.hpp
index dbfc7b0..c4ba13d 100644
--- a/include/nsimd/cxx_adv_api.hpp
+++ b/include/nsimd/cxx_adv_api.hpp
@@ -205,7 +205,7 @@ NSIMD_STRUCT packl {
   packl() {}
 
   // Ctor that splats
-  template <NSIMD_CONCEPT_VALUE_TYPE S> packl(S const &s) : cdr(s) {
+  template <NSIMD_CONCEPT_VALUE_TYPE_OR_BOOL S> packl(S const &s) : cdr(s) {
     car = set1l(int(s), T(), SimdExt());
   }
 
-- 
2.43.0


From de181a6c34961e7951300a80d8fcfb6fb491212d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:31 +0000
Subject: [PATCH 36/43] fix: spmd k_set on a logical in a scalar kernel is
 accepted in C++20

---
 include/nsimd/modules/spmd.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/nsimd/modules/spmd.hpp b/include/nsimd/modules/spmd.hpp
index d145b21..dd3d45a 100644
--- a/include/nsimd/modules/spmd.hpp
+++ b/include/nsimd/modules/spmd.hpp
@@ -579,6 +579,12 @@ template <typename T, typename S> void k_set_(bool mask, T &var, S value) {
   }
 }
 
+template <typename S> void k_set_(bool mask, bool &var, S value) {
+  if (mask) {
+    var = bool(value);
+  }
+}
+
 template <typename T, typename S, int N, typename SimdExt, typename U>
 void k_set_(nsimd::packl<T, N, SimdExt> const &mask,
             nsimd::pack<S, N, SimdExt> &var, U value) {
-- 
2.43.0


From 1e413f58333e3918f1d62eac7f6f47920652150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:17 +0000
Subject: [PATCH 37/43] fix: the math objects of the scalable SVE library
 define the routines their headers declare

---
 egg/get_sleef_code.py |   2 +-
 src/renamesve.h       | 330 ++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 331 insertions(+), 1 deletion(-)

diff --git a/egg/get_sleef_code.py b/egg/get_sleef_code.py
index be4df55..89866df 100644
--- a/egg/get_sleef_code.py
+++ b/egg/get_sleef_code.py
@@ -191,7 +191,7 @@ def doit(opts):
         'avx512f': ['avx512_knl', 'avx512_skylake'],
         'neon32':  ['neon128'],
         'advsimd': ['aarch64'],
-        'sve':     ['sve128', 'sve256', 'sve512', 'sve1024', 'sve2048'],
+        'sve':     ['sve', 'sve128', 'sve256', 'sve512', 'sve1024', 'sve2048'],
         'vsx':     ['vmx', 'vsx']
     }
 
diff --git a/src/renamesve.h b/src/renamesve.h
index 0090869..af60627 100644
--- a/src/renamesve.h
+++ b/src/renamesve.h
@@ -1,6 +1,336 @@
 #ifndef RENAMESVE_H
                #define RENAMESVE_H
 
+               /* ------------------------------------------------------------------------- */
+                   /* Naming of functions sve */
+
+                   #ifdef NSIMD_SVE
+
+                   #ifdef DETERMINISTIC
+
+                   #define xsin nsimd_sleef_sin_u35d_sve_f64
+#define xsinf nsimd_sleef_sin_u35d_sve_f32
+#define xcos nsimd_sleef_cos_u35d_sve_f64
+#define xcosf nsimd_sleef_cos_u35d_sve_f32
+#define xsincos nsimd_sleef_sincos_u35d_sve_f64
+#define xsincosf nsimd_sleef_sincos_u35d_sve_f32
+#define xtan nsimd_sleef_tan_u35d_sve_f64
+#define xtanf nsimd_sleef_tan_u35d_sve_f32
+#define xasin nsimd_sleef_asin_u35d_sve_f64
+#define xasinf nsimd_sleef_asin_u35d_sve_f32
+#define xacos nsimd_sleef_acos_u35d_sve_f64
+#define xacosf nsimd_sleef_acos_u35d_sve_f32
+#define xatan nsimd_sleef_atan_u35d_sve_f64
+#define xatanf nsimd_sleef_atan_u35d_sve_f32
+#define xatan2 nsimd_sleef_atan2_u35d_sve_f64
+#define xatan2f nsimd_sleef_atan2_u35d_sve_f32
+#define xlog nsimd_sleef_log_u35d_sve_f64
+#define xlogf nsimd_sleef_log_u35d_sve_f32
+#define xcbrt nsimd_sleef_cbrt_u35d_sve_f64
+#define xcbrtf nsimd_sleef_cbrt_u35d_sve_f32
+#define xsin_u1 nsimd_sleef_sin_u10d_sve_f64
+#define xsinf_u1 nsimd_sleef_sin_u10d_sve_f32
+#define xcos_u1 nsimd_sleef_cos_u10d_sve_f64
+#define xcosf_u1 nsimd_sleef_cos_u10d_sve_f32
+#define xsincos_u1 nsimd_sleef_sincos_u10d_sve_f64
+#define xsincosf_u1 nsimd_sleef_sincos_u10d_sve_f32
+#define xtan_u1 nsimd_sleef_tan_u10d_sve_f64
+#define xtanf_u1 nsimd_sleef_tan_u10d_sve_f32
+#define xasin_u1 nsimd_sleef_asin_u10d_sve_f64
+#define xasinf_u1 nsimd_sleef_asin_u10d_sve_f32
+#define xacos_u1 nsimd_sleef_acos_u10d_sve_f64
+#define xacosf_u1 nsimd_sleef_acos_u10d_sve_f32
+#define xatan_u1 nsimd_sleef_atan_u10d_sve_f64
+#define xatanf_u1 nsimd_sleef_atan_u10d_sve_f32
+#define xatan2_u1 nsimd_sleef_atan2_u10d_sve_f64
+#define xatan2f_u1 nsimd_sleef_atan2_u10d_sve_f32
+#define xlog_u1 nsimd_sleef_log_u10d_sve_f64
+#define xlogf_u1 nsimd_sleef_log_u10d_sve_f32
+#define xcbrt_u1 nsimd_sleef_cbrt_u10d_sve_f64
+#define xcbrtf_u1 nsimd_sleef_cbrt_u10d_sve_f32
+#define xexp nsimd_sleef_exp_u10d_sve_f64
+#define xexpf nsimd_sleef_exp_u10d_sve_f32
+#define xpow nsimd_sleef_pow_u10d_sve_f64
+#define xpowf nsimd_sleef_pow_u10d_sve_f32
+#define xsinh nsimd_sleef_sinh_u10d_sve_f64
+#define xsinhf nsimd_sleef_sinh_u10d_sve_f32
+#define xcosh nsimd_sleef_cosh_u10d_sve_f64
+#define xcoshf nsimd_sleef_cosh_u10d_sve_f32
+#define xtanh nsimd_sleef_tanh_u10d_sve_f64
+#define xtanhf nsimd_sleef_tanh_u10d_sve_f32
+#define xsinh_u35 nsimd_sleef_sinh_u35d_sve_f64
+#define xsinhf_u35 nsimd_sleef_sinh_u35d_sve_f32
+#define xcosh_u35 nsimd_sleef_cosh_u35d_sve_f64
+#define xcoshf_u35 nsimd_sleef_cosh_u35d_sve_f32
+#define xtanh_u35 nsimd_sleef_tanh_u35d_sve_f64
+#define xtanhf_u35 nsimd_sleef_tanh_u35d_sve_f32
+#define xfastsin_u3500 nsimd_sleef_fastsin_u3500d_sve_f64
+#define xfastsinf_u3500 nsimd_sleef_fastsin_u3500d_sve_f32
+#define xfastcos_u3500 nsimd_sleef_fastcos_u3500d_sve_f64
+#define xfastcosf_u3500 nsimd_sleef_fastcos_u3500d_sve_f32
+#define xfastpow_u3500 nsimd_sleef_fastpow_u3500d_sve_f64
+#define xfastpowf_u3500 nsimd_sleef_fastpow_u3500d_sve_f32
+#define xasinh nsimd_sleef_asinh_u10d_sve_f64
+#define xasinhf nsimd_sleef_asinh_u10d_sve_f32
+#define xacosh nsimd_sleef_acosh_u10d_sve_f64
+#define xacoshf nsimd_sleef_acosh_u10d_sve_f32
+#define xatanh nsimd_sleef_atanh_u10d_sve_f64
+#define xatanhf nsimd_sleef_atanh_u10d_sve_f32
+#define xexp2 nsimd_sleef_exp2_u10d_sve_f64
+#define xexp2f nsimd_sleef_exp2_u10d_sve_f32
+#define xexp2_u35 nsimd_sleef_exp2_u35d_sve_f64
+#define xexp2f_u35 nsimd_sleef_exp2_u35d_sve_f32
+#define xexp10 nsimd_sleef_exp10_u10d_sve_f64
+#define xexp10f nsimd_sleef_exp10_u10d_sve_f32
+#define xexp10_u35 nsimd_sleef_exp10_u35d_sve_f64
+#define xexp10f_u35 nsimd_sleef_exp10_u35d_sve_f32
+#define xexpm1 nsimd_sleef_expm1_u10d_sve_f64
+#define xexpm1f nsimd_sleef_expm1_u10d_sve_f32
+#define xlog10 nsimd_sleef_log10_u10d_sve_f64
+#define xlog10f nsimd_sleef_log10_u10d_sve_f32
+#define xlog2 nsimd_sleef_log2_u10d_sve_f64
+#define xlog2f nsimd_sleef_log2_u10d_sve_f32
+#define xlog2_u35 nsimd_sleef_log2_u35d_sve_f64
+#define xlog2f_u35 nsimd_sleef_log2_u35d_sve_f32
+#define xlog1p nsimd_sleef_log1p_u10d_sve_f64
+#define xlog1pf nsimd_sleef_log1p_u10d_sve_f32
+#define xsincospi_u05 nsimd_sleef_sincospi_u05d_sve_f64
+#define xsincospif_u05 nsimd_sleef_sincospi_u05d_sve_f32
+#define xsincospi_u35 nsimd_sleef_sincospi_u35d_sve_f64
+#define xsincospif_u35 nsimd_sleef_sincospi_u35d_sve_f32
+#define xsinpi_u05 nsimd_sleef_sinpi_u05d_sve_f64
+#define xsinpif_u05 nsimd_sleef_sinpi_u05d_sve_f32
+#define xcospi_u05 nsimd_sleef_cospi_u05d_sve_f64
+#define xcospif_u05 nsimd_sleef_cospi_u05d_sve_f32
+#define xldexp nsimd_sleef_ldexp_sve_f64
+#define xldexpf nsimd_sleef_ldexp_sve_f32
+#define xilogb nsimd_sleef_ilogb_sve_f64
+#define xilogbf nsimd_sleef_ilogb_sve_f32
+#define xfma nsimd_sleef_fma_sve_f64
+#define xfmaf nsimd_sleef_fma_sve_f32
+#define xsqrt nsimd_sleef_sqrt_sve_f64
+#define xsqrtf nsimd_sleef_sqrt_sve_f32
+#define xsqrt_u05 nsimd_sleef_sqrt_u05d_sve_f64
+#define xsqrtf_u05 nsimd_sleef_sqrt_u05d_sve_f32
+#define xsqrt_u35 nsimd_sleef_sqrt_u35d_sve_f64
+#define xsqrtf_u35 nsimd_sleef_sqrt_u35d_sve_f32
+#define xhypot_u05 nsimd_sleef_hypot_u05d_sve_f64
+#define xhypotf_u05 nsimd_sleef_hypot_u05d_sve_f32
+#define xhypot_u35 nsimd_sleef_hypot_u35d_sve_f64
+#define xhypotf_u35 nsimd_sleef_hypot_u35d_sve_f32
+#define xfabs nsimd_sleef_fabs_sve_f64
+#define xfabsf nsimd_sleef_fabs_sve_f32
+#define xcopysign nsimd_sleef_copysign_sve_f64
+#define xcopysignf nsimd_sleef_copysign_sve_f32
+#define xfmax nsimd_sleef_fmax_sve_f64
+#define xfmaxf nsimd_sleef_fmax_sve_f32
+#define xfmin nsimd_sleef_fmin_sve_f64
+#define xfminf nsimd_sleef_fmin_sve_f32
+#define xfdim nsimd_sleef_fdim_sve_f64
+#define xfdimf nsimd_sleef_fdim_sve_f32
+#define xtrunc nsimd_sleef_trunc_sve_f64
+#define xtruncf nsimd_sleef_trunc_sve_f32
+#define xfloor nsimd_sleef_floor_sve_f64
+#define xfloorf nsimd_sleef_floor_sve_f32
+#define xceil nsimd_sleef_ceil_sve_f64
+#define xceilf nsimd_sleef_ceil_sve_f32
+#define xround nsimd_sleef_round_sve_f64
+#define xroundf nsimd_sleef_round_sve_f32
+#define xrint nsimd_sleef_rint_sve_f64
+#define xrintf nsimd_sleef_rint_sve_f32
+#define xnextafter nsimd_sleef_nextafter_sve_f64
+#define xnextafterf nsimd_sleef_nextafter_sve_f32
+#define xfrfrexp nsimd_sleef_frfrexp_sve_f64
+#define xfrfrexpf nsimd_sleef_frfrexp_sve_f32
+#define xexpfrexp nsimd_sleef_expfrexp_sve_f64
+#define xexpfrexpf nsimd_sleef_expfrexp_sve_f32
+#define xfmod nsimd_sleef_fmod_sve_f64
+#define xfmodf nsimd_sleef_fmod_sve_f32
+#define xremainder nsimd_sleef_remainder_sve_f64
+#define xremainderf nsimd_sleef_remainder_sve_f32
+#define xmodf nsimd_sleef_modf_sve_f64
+#define xmodff nsimd_sleef_modf_sve_f32
+#define xlgamma_u1 nsimd_sleef_lgamma_u10d_sve_f64
+#define xlgammaf_u1 nsimd_sleef_lgamma_u10d_sve_f32
+#define xtgamma_u1 nsimd_sleef_tgamma_u10d_sve_f64
+#define xtgammaf_u1 nsimd_sleef_tgamma_u10d_sve_f32
+#define xerf_u1 nsimd_sleef_erf_u10d_sve_f64
+#define xerff_u1 nsimd_sleef_erf_u10d_sve_f32
+#define xerfc_u15 nsimd_sleef_erfc_u15d_sve_f64
+#define xerfcf_u15 nsimd_sleef_erfc_u15d_sve_f32
+#define xgetInt nsimd_sleef_getInt_sve_f64
+#define xgetIntf nsimd_sleef_getInt_sve_f32
+#define xgetPtr nsimd_sleef_getPtr_sve_f64
+#define xgetPtrf nsimd_sleef_getPtr_sve_f32
+
+                   #else
+
+                   #define xsin nsimd_sleef_sin_u35_sve_f64
+#define xsinf nsimd_sleef_sin_u35_sve_f32
+#define xcos nsimd_sleef_cos_u35_sve_f64
+#define xcosf nsimd_sleef_cos_u35_sve_f32
+#define xsincos nsimd_sleef_sincos_u35_sve_f64
+#define xsincosf nsimd_sleef_sincos_u35_sve_f32
+#define xtan nsimd_sleef_tan_u35_sve_f64
+#define xtanf nsimd_sleef_tan_u35_sve_f32
+#define xasin nsimd_sleef_asin_u35_sve_f64
+#define xasinf nsimd_sleef_asin_u35_sve_f32
+#define xacos nsimd_sleef_acos_u35_sve_f64
+#define xacosf nsimd_sleef_acos_u35_sve_f32
+#define xatan nsimd_sleef_atan_u35_sve_f64
+#define xatanf nsimd_sleef_atan_u35_sve_f32
+#define xatan2 nsimd_sleef_atan2_u35_sve_f64
+#define xatan2f nsimd_sleef_atan2_u35_sve_f32
+#define xlog nsimd_sleef_log_u35_sve_f64
+#define xlogf nsimd_sleef_log_u35_sve_f32
+#define xcbrt nsimd_sleef_cbrt_u35_sve_f64
+#define xcbrtf nsimd_sleef_cbrt_u35_sve_f32
+#define xsin_u1 nsimd_sleef_sin_u10_sve_f64
+#define xsinf_u1 nsimd_sleef_sin_u10_sve_f32
+#define xcos_u1 nsimd_sleef_cos_u10_sve_f64
+#define xcosf_u1 nsimd_sleef_cos_u10_sve_f32
+#define xsincos_u1 nsimd_sleef_sincos_u10_sve_f64
+#define xsincosf_u1 nsimd_sleef_sincos_u10_sve_f32
+#define xtan_u1 nsimd_sleef_tan_u10_sve_f64
+#define xtanf_u1 nsimd_sleef_tan_u10_sve_f32
+#define xasin_u1 nsimd_sleef_asin_u10_sve_f64
+#define xasinf_u1 nsimd_sleef_asin_u10_sve_f32
+#define xacos_u1 nsimd_sleef_acos_u10_sve_f64
+#define xacosf_u1 nsimd_sleef_acos_u10_sve_f32
+#define xatan_u1 nsimd_sleef_atan_u10_sve_f64
+#define xatanf_u1 nsimd_sleef_atan_u10_sve_f32
+#define xatan2_u1 nsimd_sleef_atan2_u10_sve_f64
+#define xatan2f_u1 nsimd_sleef_atan2_u10_sve_f32
+#define xlog_u1 nsimd_sleef_log_u10_sve_f64
+#define xlogf_u1 nsimd_sleef_log_u10_sve_f32
+#define xcbrt_u1 nsimd_sleef_cbrt_u10_sve_f64
+#define xcbrtf_u1 nsimd_sleef_cbrt_u10_sve_f32
+#define xexp nsimd_sleef_exp_u10_sve_f64
+#define xexpf nsimd_sleef_exp_u10_sve_f32
+#define xpow nsimd_sleef_pow_u10_sve_f64
+#define xpowf nsimd_sleef_pow_u10_sve_f32
+#define xsinh nsimd_sleef_sinh_u10_sve_f64
+#define xsinhf nsimd_sleef_sinh_u10_sve_f32
+#define xcosh nsimd_sleef_cosh_u10_sve_f64
+#define xcoshf nsimd_sleef_cosh_u10_sve_f32
+#define xtanh nsimd_sleef_tanh_u10_sve_f64
+#define xtanhf nsimd_sleef_tanh_u10_sve_f32
+#define xsinh_u35 nsimd_sleef_sinh_u35_sve_f64
+#define xsinhf_u35 nsimd_sleef_sinh_u35_sve_f32
+#define xcosh_u35 nsimd_sleef_cosh_u35_sve_f64
+#define xcoshf_u35 nsimd_sleef_cosh_u35_sve_f32
+#define xtanh_u35 nsimd_sleef_tanh_u35_sve_f64
+#define xtanhf_u35 nsimd_sleef_tanh_u35_sve_f32
+#define xfastsin_u3500 nsimd_sleef_fastsin_u3500_sve_f64
+#define xfastsinf_u3500 nsimd_sleef_fastsin_u3500_sve_f32
+#define xfastcos_u3500 nsimd_sleef_fastcos_u3500_sve_f64
+#define xfastcosf_u3500 nsimd_sleef_fastcos_u3500_sve_f32
+#define xfastpow_u3500 nsimd_sleef_fastpow_u3500_sve_f64
+#define xfastpowf_u3500 nsimd_sleef_fastpow_u3500_sve_f32
+#define xasinh nsimd_sleef_asinh_u10_sve_f64
+#define xasinhf nsimd_sleef_asinh_u10_sve_f32
+#define xacosh nsimd_sleef_acosh_u10_sve_f64
+#define xacoshf nsimd_sleef_acosh_u10_sve_f32
+#define xatanh nsimd_sleef_atanh_u10_sve_f64
+#define xatanhf nsimd_sleef_atanh_u10_sve_f32
+#define xexp2 nsimd_sleef_exp2_u10_sve_f64
+#define xexp2f nsimd_sleef_exp2_u10_sve_f32
+#define xexp2_u35 nsimd_sleef_exp2_u35_sve_f64
+#define xexp2f_u35 nsimd_sleef_exp2_u35_sve_f32
+#define xexp10 nsimd_sleef_exp10_u10_sve_f64
+#define xexp10f nsimd_sleef_exp10_u10_sve_f32
+#define xexp10_u35 nsimd_sleef_exp10_u35_sve_f64
+#define xexp10f_u35 nsimd_sleef_exp10_u35_sve_f32
+#define xexpm1 nsimd_sleef_expm1_u10_sve_f64
+#define xexpm1f nsimd_sleef_expm1_u10_sve_f32
+#define xlog10 nsimd_sleef_log10_u10_sve_f64
+#define xlog10f nsimd_sleef_log10_u10_sve_f32
+#define xlog2 nsimd_sleef_log2_u10_sve_f64
+#define xlog2f nsimd_sleef_log2_u10_sve_f32
+#define xlog2_u35 nsimd_sleef_log2_u35_sve_f64
+#define xlog2f_u35 nsimd_sleef_log2_u35_sve_f32
+#define xlog1p nsimd_sleef_log1p_u10_sve_f64
+#define xlog1pf nsimd_sleef_log1p_u10_sve_f32
+#define xsincospi_u05 nsimd_sleef_sincospi_u05_sve_f64
+#define xsincospif_u05 nsimd_sleef_sincospi_u05_sve_f32
+#define xsincospi_u35 nsimd_sleef_sincospi_u35_sve_f64
+#define xsincospif_u35 nsimd_sleef_sincospi_u35_sve_f32
+#define xsinpi_u05 nsimd_sleef_sinpi_u05_sve_f64
+#define xsinpif_u05 nsimd_sleef_sinpi_u05_sve_f32
+#define xcospi_u05 nsimd_sleef_cospi_u05_sve_f64
+#define xcospif_u05 nsimd_sleef_cospi_u05_sve_f32
+#define xldexp nsimd_sleef_ldexp_sve_f64
+#define xldexpf nsimd_sleef_ldexp_sve_f32
+#define xilogb nsimd_sleef_ilogb_sve_f64
+#define xilogbf nsimd_sleef_ilogb_sve_f32
+#define xfma nsimd_sleef_fma_sve_f64
+#define xfmaf nsimd_sleef_fma_sve_f32
+#define xsqrt nsimd_sleef_sqrt_sve_f64
+#define xsqrtf nsimd_sleef_sqrt_sve_f32
+#define xsqrt_u05 nsimd_sleef_sqrt_u05_sve_f64
+#define xsqrtf_u05 nsimd_sleef_sqrt_u05_sve_f32
+#define xsqrt_u35 nsimd_sleef_sqrt_u35_sve_f64
+#define xsqrtf_u35 nsimd_sleef_sqrt_u35_sve_f32
+#define xhypot_u05 nsimd_sleef_hypot_u05_sve_f64
+#define xhypotf_u05 nsimd_sleef_hypot_u05_sve_f32
+#define xhypot_u35 nsimd_sleef_hypot_u35_sve_f64
+#define xhypotf_u35 nsimd_sleef_hypot_u35_sve_f32
+#define xfabs nsimd_sleef_fabs_sve_f64
+#define xfabsf nsimd_sleef_fabs_sve_f32
+#define xcopysign nsimd_sleef_copysign_sve_f64
+#define xcopysignf nsimd_sleef_copysign_sve_f32
+#define xfmax nsimd_sleef_fmax_sve_f64
+#define xfmaxf nsimd_sleef_fmax_sve_f32
+#define xfmin nsimd_sleef_fmin_sve_f64
+#define xfminf nsimd_sleef_fmin_sve_f32
+#define xfdim nsimd_sleef_fdim_sve_f64
+#define xfdimf nsimd_sleef_fdim_sve_f32
+#define xtrunc nsimd_sleef_trunc_sve_f64
+#define xtruncf nsimd_sleef_trunc_sve_f32
+#define xfloor nsimd_sleef_floor_sve_f64
+#define xfloorf nsimd_sleef_floor_sve_f32
+#define xceil nsimd_sleef_ceil_sve_f64
+#define xceilf nsimd_sleef_ceil_sve_f32
+#define xround nsimd_sleef_round_sve_f64
+#define xroundf nsimd_sleef_round_sve_f32
+#define xrint nsimd_sleef_rint_sve_f64
+#define xrintf nsimd_sleef_rint_sve_f32
+#define xnextafter nsimd_sleef_nextafter_sve_f64
+#define xnextafterf nsimd_sleef_nextafter_sve_f32
+#define xfrfrexp nsimd_sleef_frfrexp_sve_f64
+#define xfrfrexpf nsimd_sleef_frfrexp_sve_f32
+#define xexpfrexp nsimd_sleef_expfrexp_sve_f64
+#define xexpfrexpf nsimd_sleef_expfrexp_sve_f32
+#define xfmod nsimd_sleef_fmod_sve_f64
+#define xfmodf nsimd_sleef_fmod_sve_f32
+#define xremainder nsimd_sleef_remainder_sve_f64
+#define xremainderf nsimd_sleef_remainder_sve_f32
+#define xmodf nsimd_sleef_modf_sve_f64
+#define xmodff nsimd_sleef_modf_sve_f32
+#define xlgamma_u1 nsimd_sleef_lgamma_u10_sve_f64
+#define xlgammaf_u1 nsimd_sleef_lgamma_u10_sve_f32
+#define xtgamma_u1 nsimd_sleef_tgamma_u10_sve_f64
+#define xtgammaf_u1 nsimd_sleef_tgamma_u10_sve_f32
+#define xerf_u1 nsimd_sleef_erf_u10_sve_f64
+#define xerff_u1 nsimd_sleef_erf_u10_sve_f32
+#define xerfc_u15 nsimd_sleef_erfc_u15_sve_f64
+#define xerfcf_u15 nsimd_sleef_erfc_u15_sve_f32
+#define xgetInt nsimd_sleef_getInt_sve_f64
+#define xgetIntf nsimd_sleef_getInt_sve_f32
+#define xgetPtr nsimd_sleef_getPtr_sve_f64
+#define xgetPtrf nsimd_sleef_getPtr_sve_f32
+
+                   #endif
+
+                   #define rempi nsimd_sleef_rempi_sve
+                   #define rempif nsimd_sleef_rempif_sve
+                   #define rempisub nsimd_sleef_rempisub_sve
+                   #define rempisubf nsimd_sleef_rempisubf_sve
+                   #define gammak nsimd_gammak_sve
+                   #define gammafk nsimd_gammafk_sve
+
+                   #endif
+
                /* ------------------------------------------------------------------------- */
                    /* Naming of functions sve128 */
 
-- 
2.43.0


From 3190894559f681f7d12c4672f99474ced55c5888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:25 +0000
Subject: [PATCH 38/43] fix: POWER unaligned loads and stores do not
 dereference misaligned vectors

---
 egg/platform_ppc.py | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/egg/platform_ppc.py b/egg/platform_ppc.py
index 3e53073..8767f0d 100644
--- a/egg/platform_ppc.py
+++ b/egg/platform_ppc.py
@@ -220,6 +220,11 @@ def get_additional_include(func, platform, simd_ext):
         ret += '''#include <nsimd/ppc/vmx/{}.h>
                   '''.format(func)
 
+    if func in ['loadu', 'load2u', 'load3u', 'load4u',
+                'storeu', 'store2u', 'store3u', 'store4u']:
+        ret += '''#include <string.h>
+                  '''
+
     if func == 'neq':
         ret += '''#include <nsimd/ppc/{simd_ext}/eq.h>
                   #include <nsimd/ppc/{simd_ext}/notl.h>
@@ -451,8 +456,9 @@ def load1234(simd_ext, typ, deg, aligned):
         if aligned:
             return 'return vec_ld(0, {in0});'.format(**fmtspec)
         else:
-            return 'return *({ppc_typ}*){in0};'. \
-                   format(ppc_typ=native_type(typ), **fmtspec)
+            return '''nsimd_{simd_ext}_v{typ} ret;
+                      memcpy((void *)&ret, (const void *){in0}, 16);
+                      return ret;'''.format(**fmtspec)
 
     # From here deg >= 2
 
@@ -467,8 +473,9 @@ def load1234(simd_ext, typ, deg, aligned):
         'nsimd_{simd_ext}_v{typ}x{deg} ret;\n'. \
         format(deg=deg, **fmtspec) + \
         '\n'.join(
-          'nsimd_{simd_ext}_v{typ} in{i} = *(({ppc_typ}*){in0} + {i});'. \
-          format(i=i, ppc_typ=native_type(typ), **fmtspec) \
+          '''nsimd_{simd_ext}_v{typ} in{i};
+             memcpy((void *)&in{i}, (const void *)({in0} + {o}), 16);'''. \
+          format(i=i, o=i * get_len(typ), **fmtspec) \
                  for i in range(0, deg))
     if deg == 2:
         return '''{load}
@@ -664,8 +671,8 @@ def store1234(simd_ext, typ, deg, aligned):
         if aligned:
             return 'vec_st({in1}, 0, {in0});'.format(**fmtspec)
         else:
-            return '*({ppc_typ} *){in0} = {in1};'. \
-                   format(ppc_typ=native_type(typ), **fmtspec)
+            return 'memcpy((void *){in0}, (const void *)&{in1}, 16);'. \
+                   format(**fmtspec)
 
     # From here deg >= 2
 
@@ -674,9 +681,10 @@ def store1234(simd_ext, typ, deg, aligned):
                           format(i=i, o=i * 16, **fmtspec) \
                           for i in range(0, deg))
     else:
-        store = '\n'.join('*({ppc_typ} *)({in0} + {o}) = ret{i};'. \
-                          format(o=i * get_len(typ), ppc_typ=native_type(typ),
-                                 i=i, **fmtspec) for i in range(deg))
+        store = '\n'.join(
+                  'memcpy((void *)({in0} + {o}), (const void *)&ret{i}, 16);'. \
+                  format(o=i * get_len(typ), i=i, **fmtspec) \
+                  for i in range(deg))
     if deg == 2:
         return \
         '''nsimd_{simd_ext}_v{typ} ret0 = vec_mergeh({in1}, {in2});
-- 
2.43.0


From b4ff4692a439366ad9f5ce1689d8486725b3de28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:26 +0000
Subject: [PATCH 39/43] fix: POWER shra shifts unsigned lanes logically, as
 every other extension does

---
 egg/platform_ppc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/egg/platform_ppc.py b/egg/platform_ppc.py
index 8767f0d..4b663d4 100644
--- a/egg/platform_ppc.py
+++ b/egg/platform_ppc.py
@@ -879,6 +879,8 @@ def sqrt1(simd_ext, typ):
 def shift2(op, simd_ext, typ):
     if has_to_be_emulated(simd_ext, typ):
         return emulation_code(op, simd_ext, typ, ['v', 'v', 'p'])
+    if op == 'shra' and typ in common.utypes:
+        op = 'shr'
     return 'return vec_{ppcop}({in0}, vec_splats((u{typnbits}){in1}));'. \
            format(ppcop={'shl': 'sl', 'shr': 'sr', 'shra': 'sra'}[op],
                   **fmtspec)
-- 
2.43.0


From a38de5def1292b1124d6064d87a14aa78e3a9f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:09 +0000
Subject: [PATCH 40/43] fix: POWER gather of f16 uses the index of each lane

---
 egg/platform_ppc.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/egg/platform_ppc.py b/egg/platform_ppc.py
index 4b663d4..a8f4a2f 100644
--- a/egg/platform_ppc.py
+++ b/egg/platform_ppc.py
@@ -1644,18 +1644,18 @@ def gather(simd_ext, typ):
         return \
         '''nsimd_{simd_ext}_v{typ} ret;
            ret.v0 = vec_splats(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]));
-           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 1)]),
                                ret.v0, 1);
-           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 2)]),
                                ret.v0, 2);
-           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v0 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 3)]),
                                ret.v0, 3);
-           ret.v1 = vec_splats(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]));
-           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v1 = vec_splats(nsimd_f16_to_f32({in0}[vec_extract({in1}, 4)]));
+           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 5)]),
                                ret.v1, 1);
-           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 6)]),
                                ret.v1, 2);
-           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 0)]),
+           ret.v1 = vec_insert(nsimd_f16_to_f32({in0}[vec_extract({in1}, 7)]),
                                ret.v1, 3);
            return ret;'''.format(**fmtspec)
     elif has_to_be_emulated(simd_ext, typ):
-- 
2.43.0


From 6825b71f693685afd067280c872ad96b38705069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 41/43] fix: NEON downcvt of 64-bit integers to f32 rounds once

---
 egg/platform_arm.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/egg/platform_arm.py b/egg/platform_arm.py
index 2b626e4..025a3a8 100644
--- a/egg/platform_arm.py
+++ b/egg/platform_arm.py
@@ -1969,6 +1969,14 @@ def downcvt1(simd_ext, from_typ, to_typ):
                         ret.v1 = {in1};
                         return ret;
                       #endif'''.format(**fmtspec)
+        elif from_typ in ['i64', 'u64'] and to_typ == 'f32':
+            # going through f64 would round twice
+            return '''f32 buf[4];
+                      buf[0] = (f32)vgetq_lane_{suf}({in0}, 0);
+                      buf[1] = (f32)vgetq_lane_{suf}({in0}, 1);
+                      buf[2] = (f32)vgetq_lane_{suf}({in1}, 0);
+                      buf[3] = (f32)vgetq_lane_{suf}({in1}, 1);
+                      return vld1q_f32(buf);'''.format(**fmtspec)
         elif (from_typ in common.itypes and to_typ in common.itypes) or \
              (from_typ in common.utypes and to_typ in common.utypes):
             return '''return vcombine_{suf_to_typ}(vmovn_{suf}({in0}),
-- 
2.43.0


From e42ded94f09350fda100f6b25cb8e0cc195a10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:52 +0000
Subject: [PATCH 42/43] fix: SVE rsqrt11 of f16 has 11 bits

---
 egg/platform_arm.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/egg/platform_arm.py b/egg/platform_arm.py
index 025a3a8..311581a 100644
--- a/egg/platform_arm.py
+++ b/egg/platform_arm.py
@@ -1362,6 +1362,15 @@ def recs1(op, simd_ext, typ):
                       nsimd_set1_{simd_ext}_{typ}({cte}), {in0});'''. \
                       format(cte=cte, **fmtspec)
     elif op == 'rsqrt11':
+        if simd_ext in sve and typ == 'f16':
+            # Two roundings to f16 are too many for 11 bits
+            rsqrt = '''svcvt_f16_f32_x(svptrue_b32(),
+                         svdiv_f32_x(svptrue_b32(), svdup_n_f32(1.0f),
+                           svsqrt_f32_x(svptrue_b32(),
+                             svcvt_f32_f16_x(svptrue_b32(), {}))))'''
+            odd = 'svtrn2_f16({in0}, {in0})'.format(**fmtspec)
+            return 'return svtrn1_f16({}, {});'. \
+                   format(rsqrt.format(common.in0), rsqrt.format(odd))
         return \
         '''return nsimd_div_{simd_ext}_{typ}(
                       nsimd_set1_{simd_ext}_{typ}({cte}),
-- 
2.43.0


From 3645bf5188b630fd474e16a331b610b2950e7b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:44 +0000
Subject: [PATCH 43/43] fix: aarch64 rsqrt11 of f16 has 11 bits with native f16
 arithmetic

---
 egg/platform_arm.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/egg/platform_arm.py b/egg/platform_arm.py
index 311581a..ae2a395 100644
--- a/egg/platform_arm.py
+++ b/egg/platform_arm.py
@@ -1371,6 +1371,20 @@ def recs1(op, simd_ext, typ):
             odd = 'svtrn2_f16({in0}, {in0})'.format(**fmtspec)
             return 'return svtrn1_f16({}, {});'. \
                    format(rsqrt.format(common.in0), rsqrt.format(odd))
+        if simd_ext == 'aarch64' and typ == 'f16':
+            # Two roundings to f16 are too many for 11 bits
+            rsqrt = '''vcvt_f16_f32(vdivq_f32(vdupq_n_f32(1.0f),
+                         vsqrtq_f32(vcvt_f32_f16(vget_{{}}_f16({in0})))))'''. \
+                    format(**fmtspec)
+            return '''#ifdef NSIMD_ARM_FP16
+                         return vcombine_f16({}, {});
+                       #else
+                         return nsimd_div_{simd_ext}_{typ}(
+                           nsimd_set1_{simd_ext}_{typ}({cte}),
+                           nsimd_sqrt_{simd_ext}_{typ}({in0}));
+                       #endif'''. \
+                       format(rsqrt.format('low'), rsqrt.format('high'),
+                              cte=cte, **fmtspec)
         return \
         '''return nsimd_div_{simd_ext}_{typ}(
                       nsimd_set1_{simd_ext}_{typ}({cte}),
-- 
2.43.0

