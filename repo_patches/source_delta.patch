From a59abdc3d2406b921e92af40374b30237352334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 01/12] fix: horizontal min/max start from the neutral element

The accumulators were initialised with numeric_limits::min(), the smallest
positive number: the maximum of an all-negative buffer and the minimum of an
all-positive buffer were wrong, and the minmax minimum of an all-infinite
buffer came out finite.
---
 simd_horizontal_functions.hpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/simd_horizontal_functions.hpp b/simd_horizontal_functions.hpp
index 326fe40..f15bdc8 100644
--- a/simd_horizontal_functions.hpp
+++ b/simd_horizontal_functions.hpp
@@ -23,6 +23,7 @@
 #include "vec.hpp"
 
 #include <algorithm>            /* for max */
+#include <limits>
 
 #if defined(__GNUC__) && defined(NDEBUG)
 #define always_inline inline  __attribute__((always_inline))
@@ -36,7 +37,7 @@ namespace nova {
 template <typename F>
 inline F horizontal_max_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = -std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -49,7 +50,7 @@ inline F horizontal_max_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = -std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -71,7 +72,7 @@ inline F horizontal_max_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec(const F * in, unsigned int n)
 {
-    F current = std::numeric_limits<F>::min();
+    F current = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -84,7 +85,7 @@ inline F horizontal_min_vec(const F * in, unsigned int n)
 template <typename F>
 inline F horizontal_min_vec_simd(const F * in, unsigned int n)
 {
-    F init = std::numeric_limits<F>::min();
+    F init = std::numeric_limits<F>::infinity();
     vec<F> current(init);
 
     /* loop */
@@ -139,8 +140,8 @@ inline F horizontal_sum_vec_simd(const F * in, unsigned int n)
 template <typename F>
 inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
-    F current_min = std::numeric_limits<F>::max();
+    F current_max = -std::numeric_limits<F>::infinity();
+    F current_min = std::numeric_limits<F>::infinity();
     using namespace std;
 
     do {
@@ -155,8 +156,8 @@ inline void horizontal_minmax_vec(F & rmin, F & rmax, const F * in, unsigned int
 template <typename F>
 inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
-    vec<F> current_min(std::numeric_limits<F>::max());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
+    vec<F> current_min(std::numeric_limits<F>::infinity());
 
     /* loop */
     const size_t vec_size = vec<F>::size;
@@ -178,7 +179,7 @@ inline void horizontal_minmax_vec_simd(F & rmin, F & rmax, const F * in, unsigne
 template <typename F>
 inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    F current_max = std::numeric_limits<F>::min();
+    F current_max = -std::numeric_limits<F>::infinity();
     F current_sum = 0;
     using namespace std;
 
@@ -194,7 +195,7 @@ inline void horizontal_maxsum_vec(F & rmax, F & rsum, const F * in, unsigned int
 template <typename F>
 inline void horizontal_maxsum_vec_simd(F & rmax, F & rsum, const F * in, unsigned int n)
 {
-    vec<F> current_max(std::numeric_limits<F>::min());
+    vec<F> current_max(-std::numeric_limits<F>::infinity());
     vec<F> current_sum(F(0));
 
     /* loop */
-- 
2.43.0


From 24fae6c906e26bf053bc608ccfdec8872b3dc0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 02/12] fix: keep the ramp increment in the argument's own
 precision

The vectorised ramp argument narrowed its per-vector increment to float, so
double-precision ramps drifted away from the scalar version.
---
 detail/wrap_argument_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/wrap_argument_vector.hpp b/detail/wrap_argument_vector.hpp
index 399dec2..0b1dc47 100644
--- a/detail/wrap_argument_vector.hpp
+++ b/detail/wrap_argument_vector.hpp
@@ -91,7 +91,7 @@ struct vector_ramp_argument
 {
     always_inline vector_ramp_argument(FloatType const & base, FloatType const & slope)
     {
-        float vSlope = data.set_slope(base, slope);
+        FloatType vSlope = data.set_slope(base, slope);
         slope_.set_vec(vSlope);
     }
 
-- 
2.43.0


From 292014a807082fcd78fc0cc15866f7acb9aed464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 03/12] fix: make the addvec slope overloads usable

addvec(out, in, slope, n) modified a const argument and both addvec_simd
slope versions called a non-existing vec::set overload: none of them could be
instantiated.
---
 simd_memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index ca5430b..f21194e 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -368,7 +368,7 @@ inline void addvec(F * out, const F in, unsigned int n)
 }
 
 template <typename F>
-inline void addvec(F * out, const F in, const F slope, unsigned int n)
+inline void addvec(F * out, F in, const F slope, unsigned int n)
 {
     do {
         *out++ += in; in += slope;
@@ -460,7 +460,7 @@ inline void addvec_simd(F * out, const F in, const F slope, unsigned int n)
 {
     const int per_loop = vec<F>::objects_per_cacheline;
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     n /= per_loop;
     do
     {
@@ -487,7 +487,7 @@ template <unsigned int n, typename F>
 inline void addvec_simd(F * out, const F in, const F slope)
 {
     vec<F> vin; vin.set_slope(in, slope);
-    vec<F> vslope; vslope.set(slope * vec<F>::size);
+    vec<F> vslope; vslope.set_vec(slope * vec<F>::size);
     detail::addvec<F, n>::mp_iteration(out, vin, vslope);
 }
 
-- 
2.43.0


From d807a69df254737048c933b20b0afb735c8ece10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 04/12] fix: copyvec_simd does not read behind the end of its
 source

The preloading copy loop loaded one vector behind the last element of each
block, which faults if the source ends at a page boundary.
---
 simd_memory.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simd_memory.hpp b/simd_memory.hpp
index f21194e..1ca5e2f 100644
--- a/simd_memory.hpp
+++ b/simd_memory.hpp
@@ -295,10 +295,12 @@ struct copyvec
     {
         vec<F> val;
 
-        if (src_aligned)
-            val.load_aligned(src);
-        else
-            val.load(src);
+        if (n != offset) { // nothing to preload behind the last vector
+            if (src_aligned)
+                val.load_aligned(src);
+            else
+                val.load(src);
+        }
 
         store_aligned<dst_aligned>(loaded_value, dst);
         copyvec<F, src_aligned, dst_aligned, n-offset>::mp_iteration(dst+offset, src+offset, val);
-- 
2.43.0


From fd1079aaf7de3a5b6c3afa2114abe69c303b2ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 05/12] fix: AVX load_first clears the upper elements

The upper half of a casted 128 bit register is undefined.
---
 vec/vec_avx_double.hpp | 3 +--
 vec/vec_avx_float.hpp  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 29c6faa..6a01feb 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -141,8 +141,7 @@ public:
 
     void load_first(const double * data)
     {
-        clear();
-        data_ = _mm256_castpd128_pd256(_mm_load_sd(data));
+        data_ = _mm256_insertf128_pd(_mm256_setzero_pd(), _mm_load_sd(data), 0);
     }
 
     void store(double * dest) const
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index 350ace8..c4918c2 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -147,8 +147,7 @@ public:
 
     void load_first(const float * data)
     {
-        clear();
-        data_ = _mm256_castps128_ps256(_mm_load_ss(data));
+        data_ = _mm256_insertf128_ps(_mm256_setzero_ps(), _mm_load_ss(data), 0);
     }
 
     void store(float * dest) const
-- 
2.43.0


From d8d1c0b5c8092f7316ec5be155800d2b7407caf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 06/12] fix: AVX > and >= are false for NaN operands

The not-less-equal and not-less-than predicates are true for unordered
operands, so greater/greater_equal yielded 1 and exp(NaN) yielded FLT_MAX.
---
 vec/vec_avx_double.hpp | 8 ++++----
 vec/vec_avx_float.hpp  | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/vec/vec_avx_double.hpp b/vec/vec_avx_double.hpp
index 6a01feb..30f449b 100644
--- a/vec/vec_avx_double.hpp
+++ b/vec/vec_avx_double.hpp
@@ -242,8 +242,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 
@@ -271,8 +271,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
diff --git a/vec/vec_avx_float.hpp b/vec/vec_avx_float.hpp
index c4918c2..d7ca8e6 100644
--- a/vec/vec_avx_float.hpp
+++ b/vec/vec_avx_float.hpp
@@ -283,8 +283,8 @@ public:
 
     RELATIONAL_OPERATOR(<, _CMP_LT_OS)
     RELATIONAL_OPERATOR(<=, _CMP_LE_OS)
-    RELATIONAL_OPERATOR(>, _CMP_NLE_US)
-    RELATIONAL_OPERATOR(>=, _CMP_NLT_US)
+    RELATIONAL_OPERATOR(>, _CMP_GT_OS)
+    RELATIONAL_OPERATOR(>=, _CMP_GE_OS)
     RELATIONAL_OPERATOR(==, _CMP_EQ_OQ)
     RELATIONAL_OPERATOR(!=, _CMP_NEQ_UQ)
 #undef RELATIONAL_OPERATOR
@@ -315,8 +315,8 @@ public:
 
     RELATIONAL_MASK_OPERATOR(lt, _CMP_LT_OS)
     RELATIONAL_MASK_OPERATOR(le, _CMP_LE_OS)
-    RELATIONAL_MASK_OPERATOR(gt, _CMP_NLE_US)
-    RELATIONAL_MASK_OPERATOR(ge, _CMP_NLT_US)
+    RELATIONAL_MASK_OPERATOR(gt, _CMP_GT_OS)
+    RELATIONAL_MASK_OPERATOR(ge, _CMP_GE_OS)
     RELATIONAL_MASK_OPERATOR(eq, _CMP_EQ_OQ)
     RELATIONAL_MASK_OPERATOR(neq, _CMP_NEQ_UQ)
 
-- 
2.43.0


From b51f27a9278c3012fe003d232fe5659fb7825f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 07/12] fix: vec_round_float keeps arguments of 2^23 and above

Adding 2^23 rounds odd integers above 2^23 to even ones, so round, floor,
ceil and frac changed numbers that are already integral.
---
 detail/vec_math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index faf6be8..485c88b 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -60,8 +60,9 @@ always_inline VecType vec_round_float(VecType const & arg)
     const vec abs_arg = sign ^ arg;
     const vec two_to_23_ps (0x1.0p23f);
     const vec rounded = (abs_arg + two_to_23_ps) - two_to_23_ps;
+    const vec has_fraction = mask_lt(abs_arg, two_to_23_ps); // larger numbers are integral
 
-    return sign ^ rounded;
+    return select(arg, sign ^ rounded, has_fraction);
 }
 
 template <typename VecType>
-- 
2.43.0


From 5b7e595cdf1961c399d43b42fa8b78709134a675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 08/12] fix: trunc handles arguments outside of the range of
 long

The conversion to long is undefined for large numbers, infinities and NaN.
---
 detail/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/math.hpp b/detail/math.hpp
index 6dca81e..1ac79e9 100644
--- a/detail/math.hpp
+++ b/detail/math.hpp
@@ -294,7 +294,7 @@ inline double log2(double arg)
 template<typename float_type>
 inline float_type trunc(float_type const & arg)
 {
-    return (float_type)(long)arg;
+    return arg < 0 ? std::ceil(arg) : std::floor(arg);
 }
 
 
-- 
2.43.0


From 1ea3a9ab62268c2f5bdde6c66417282dcc84427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 09/12] fix: horizontal_min/horizontal_max consider the last
 element

The shuffle broadcasted element 2, so element 3 never took part.
---
 simd_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simd_utils.hpp b/simd_utils.hpp
index c2d008b..75e7533 100644
--- a/simd_utils.hpp
+++ b/simd_utils.hpp
@@ -118,7 +118,7 @@ inline float horizontal_min(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(3,2,3,2));
     xmm0 = _mm_min_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_min_ss(xmm0, xmm1);
@@ -129,7 +129,7 @@ inline float horizontal_max(__m128 args)
 {
     __m128 xmm0, xmm1;
     xmm0 = args;
-    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(2,2,2,2));
+    xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(3,2,3,2));
     xmm0 = _mm_max_ps(xmm0, xmm1);
     xmm1 = _mm_shuffle_ps(xmm0, xmm0, _MM_SHUFFLE(1,1,1,1));
     xmm0 = _mm_max_ss(xmm0, xmm1);
-- 
2.43.0


From 90d9d70743aa96bf87e2b500a8f8c4fff7f4b867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:06 +0000
Subject: [PATCH 10/12] fix: peak meters process every vector of the buffer

The loops are unrolled by four vectors, which is more than one cacheline with
avx: buffers of one cacheline ran over their end, and for other lengths the
last samples were dropped.
---
 simd_peakmeter.hpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/simd_peakmeter.hpp b/simd_peakmeter.hpp
index 4cfba27..61fe56c 100644
--- a/simd_peakmeter.hpp
+++ b/simd_peakmeter.hpp
@@ -60,8 +60,7 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
     /* loop */
     const size_t vec_size = vec<F>::size;
     const size_t unroll = 4 * vec_size;
-    n /= unroll;
-    do {
+    for (; n >= unroll; n -= unroll) {
         vec<F> in0, in1, in2, in3;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
@@ -78,7 +77,17 @@ inline F peak_vec_simd(const F * in, F * peak, unsigned int n)
 
         maximum = max_(maximum, local_max);
         in += unroll;
-    } while(--n);
+    }
+
+    /* remaining vectors, if n is not a multiple of the unrolled loop */
+    for (; n >= vec_size; n -= vec_size) {
+        vec<F> in0;
+        in0.load_aligned(in);
+
+        abs3 = abs(in0);
+        maximum = max_(maximum, abs3);
+        in += vec_size;
+    }
 
     /* horizonal accumulation */
     *peak = maximum.horizontal_max();
@@ -118,8 +127,7 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
     /* loop */
     const size_t vec_size = vec<F>::size;
     const size_t unroll = 4 * vec_size;
-    n /= unroll;
-    do {
+    for (; n >= unroll; n -= unroll) {
         vec<F> in0, in1, in2, in3;
         in0.load_aligned(in);
         in1.load_aligned(in+vec_size);
@@ -142,7 +150,17 @@ inline void peak_rms_vec_simd(const F * in, F * peak, F * squared_sum, unsigned
         local_squared_sum += sqr0 + sqr1 + sqr2 + sqr3;
 
         in += unroll;
-    } while(--n);
+    }
+
+    /* remaining vectors, if n is not a multiple of the unrolled loop */
+    for (; n >= vec_size; n -= vec_size) {
+        vec<F> in0;
+        in0.load_aligned(in);
+
+        maximum = max_(maximum, abs(in0));
+        local_squared_sum += square(in0);
+        in += vec_size;
+    }
 
     /* horizonal accumulation */
     *peak = maximum.horizontal_max();
-- 
2.43.0


From 89f8f13a6208d56e4070d5c188e4e82463d83c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:48 +0000
Subject: [PATCH 11/12] fix: acos(-0.5) belongs to the middle range

---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index 485c88b..fa16be3 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -434,7 +434,7 @@ always_inline VecType vec_acos_float(VecType const & arg)
     VecType ret_05_1 = two_asin;
 
     VecType ret_m05_1 = select(ret_m05_05, ret_05_1, mask_gt(arg, half));
-    VecType ret = select(ret_m1_m05, ret_m05_1, mask_gt(arg, -0.5));
+    VecType ret = select(ret_m1_m05, ret_m05_1, mask_ge(arg, -0.5));
 
     // |arg| > 1: return 0
     ret = select(ret, zero, mask_gt(abs_arg, one));
-- 
2.43.0


From b81716fbcdf586a27b43533e2e35c4647899099a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:09 +0000
Subject: [PATCH 12/12] fix: exp saturates at its overflow threshold

maxlogf rounds up to a float whose exponential is not representable: for
exactly this argument the exponent of the result ran into that of a NaN.
---
 detail/vec_math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/detail/vec_math.hpp b/detail/vec_math.hpp
index fa16be3..78e3b38 100644
--- a/detail/vec_math.hpp
+++ b/detail/vec_math.hpp
@@ -155,7 +155,7 @@ always_inline VecType vec_exp_float(VecType const & arg)
     const VecType max_float(std::numeric_limits<float>::max());
     const VecType zero = VecType::gen_zero();
 
-    VecType too_large = mask_gt(arg, maxlogf);
+    VecType too_large = mask_ge(arg, maxlogf);
     VecType too_small = mask_lt(arg, minlogf);
 
     VecType ret = select(approx, max_float, too_large);
-- 
2.43.0

