From c9f480e89a027094c1e2bd03b84a9cfee37c4d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:01 +0000
Subject: [PATCH 01/29] fix: line * line swapped the e23 and e12 components of
 its product

---
 public/klein/detail/x86/x86_geometric_product.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/klein/detail/x86/x86_geometric_product.hpp b/public/klein/detail/x86/x86_geometric_product.hpp
index e7de92e..67f235e 100644
--- a/public/klein/detail/x86/x86_geometric_product.hpp
+++ b/public/klein/detail/x86/x86_geometric_product.hpp
@@ -280,11 +280,11 @@ namespace detail
         __m128& p1 = *out;
         __m128& p2 = *(out + 1);
 
-        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 3, 1, 2, 1), KLN_SWIZZLE(b, 2, 3, 1, 1));
+        p1 = _mm_mul_ps(KLN_SWIZZLE(a, 2, 1, 3, 1), KLN_SWIZZLE(b, 1, 3, 2, 1));
         p1 = _mm_xor_ps(p1, flip);
         p1 = _mm_sub_ps(
             p1,
-            _mm_mul_ps(KLN_SWIZZLE(a, 2, 3, 1, 3), KLN_SWIZZLE(b, 3, 1, 2, 3)));
+            _mm_mul_ps(KLN_SWIZZLE(a, 1, 3, 2, 3), KLN_SWIZZLE(b, 2, 1, 3, 3)));
         __m128 a2 = _mm_unpackhi_ps(a, a);
         __m128 b2 = _mm_unpackhi_ps(b, b);
         p1        = _mm_sub_ss(p1, _mm_mul_ss(a2, b2));
-- 
2.43.0


From 532f0b7de6094133700fb098b041853e23b048f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 02/29] fix: rotor inverse ignored the scalar part of the rotor

---
 public/klein/rotor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 1ec3559..c8abf84 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -139,7 +139,7 @@ public:
 
     void invert() noexcept
     {
-        __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p1_, p1_));
+        __m128 inv_norm = detail::rsqrt_nr1(detail::dp_bc(p1_, p1_));
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_mul_ps(p1_, inv_norm);
         p1_             = _mm_xor_ps(_mm_set_ps(-0.f, -0.f, -0.f, 0.f), p1_);
-- 
2.43.0


From 3c58a34ba39b9099388606741c63ab97613ab9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 03/29] fix: assigning a translator to a motor dropped its unit
 scalar part

---
 public/klein/motor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/klein/motor.hpp b/public/klein/motor.hpp
index e4a60f4..4d9c4fb 100644
--- a/public/klein/motor.hpp
+++ b/public/klein/motor.hpp
@@ -127,7 +127,7 @@ public:
 
     motor& KLN_VEC_CALL operator=(translator t) noexcept
     {
-        p1_ = _mm_setzero_ps();
+        p1_ = _mm_set_ss(1.f);
         p2_ = t.p2_;
         return *this;
     }
-- 
2.43.0


From ad01d5ae5d498f078977737991228df78888b300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 04/29] fix: in-place batch application read input already
 overwritten by output

---
 public/klein/detail/x86/x86_sandwich.hpp      |  32 +++---
 .../klein/detail/x86/x86_sandwich_cxx11.inl   | 102 +++++++++---------
 2 files changed, 70 insertions(+), 64 deletions(-)

diff --git a/public/klein/detail/x86/x86_sandwich.hpp b/public/klein/detail/x86/x86_sandwich.hpp
index 0475525..7ae5f72 100644
--- a/public/klein/detail/x86/x86_sandwich.hpp
+++ b/public/klein/detail/x86/x86_sandwich.hpp
@@ -252,7 +252,7 @@ namespace detail
     //
     // Note: in and out are permitted to alias iff a == out.
     template <bool Variadic, bool Translate, bool InputP2>
-    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+    KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                       __m128 const& KLN_RESTRICT b,
                                       [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                       __m128* out,
@@ -364,7 +364,7 @@ namespace detail
         constexpr size_t stride = InputP2 ? 2 : 1;
         for (size_t i = 0; i != limit; ++i)
         {
-            __m128 const& p1_in = in[stride * i]; // a
+            __m128 p1_in        = in[stride * i]; // a
             __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
             __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -376,7 +376,7 @@ namespace detail
 
             if constexpr (InputP2)
             {
-                __m128 const& p2_in = in[2 * i + 1]; // d
+                __m128 p2_in        = in[2 * i + 1]; // d
                 __m128& p2_out      = out[2 * i + 1];
                 p2_out              = _mm_mul_ps(tmp, p2_in);
                 p2_out              = _mm_add_ps(
@@ -405,7 +405,7 @@ namespace detail
     // If Variadic is true, a and out must point to a contiguous block of memory
     // equivalent to __m128[count]
     template <bool Variadic = false, bool Translate = true>
-    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -497,14 +497,15 @@ namespace detail
         for (size_t i = 0; i != limit; ++i)
         {
             // Compute the lower block for components e1, e2, and e3
-            __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            __m128 a_i = a[i];
+            __m128& p  = out[i];
+            p          = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 1, 3, 2, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 2, 1, 3, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
 
             if constexpr (Translate)
             {
-                __m128 tmp5 = hi_dp(tmp4, a[i]);
+                __m128 tmp5 = hi_dp(tmp4, a_i);
                 p           = _mm_add_ps(p, tmp5);
             }
         }
@@ -512,7 +513,7 @@ namespace detail
 
     // Apply a motor to a point
     template <bool Variadic, bool Translate>
-    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+    KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                        __m128 b,
                                        [[maybe_unused]] __m128 const* KLN_RESTRICT c,
                                        __m128* out,
@@ -584,15 +585,16 @@ namespace detail
         size_t limit = Variadic ? count : 1;
         for (size_t i = 0; i != limit; ++i)
         {
-            __m128& p = out[i];
-            p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+            __m128 a_i = a[i];
+            __m128& p  = out[i];
+            p          = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 2, 1, 3, 0));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 1, 3, 2, 0)));
+            p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
 
             if constexpr (Translate)
             {
                 p = _mm_add_ps(
-                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+                    p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a_i, 0, 0, 0, 0)));
             }
         }
     }
diff --git a/public/klein/detail/x86/x86_sandwich_cxx11.inl b/public/klein/detail/x86/x86_sandwich_cxx11.inl
index 48231e9..65e4598 100644
--- a/public/klein/detail/x86/x86_sandwich_cxx11.inl
+++ b/public/klein/detail/x86/x86_sandwich_cxx11.inl
@@ -1,14 +1,14 @@
 // Implementation file for C++11 compatibility
 
 template <bool Variadic, bool Translate, bool InputP2>
-KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM(__m128 const* in,
                                   __m128 const& KLN_RESTRICT b,
                                   __m128 const* KLN_RESTRICT c,
                                   __m128* out,
                                   size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* in,
                                                     __m128 const& KLN_RESTRICT b,
                                                     __m128 const* KLN_RESTRICT c,
                                                     __m128* out,
@@ -65,7 +65,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 p1_in        = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -75,7 +75,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 p2_in        = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -90,7 +90,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, true>(__m128 const* KLN_RESTRICT i
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -147,7 +147,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 p1_in        = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -165,7 +165,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, true, false>(__m128 const* KLN_RESTRICT
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -196,7 +196,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[2 * i]; // a
+        __m128 p1_in        = in[2 * i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -206,7 +206,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
         p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-        __m128 const& p2_in = in[2 * i + 1]; // d
+        __m128 p2_in        = in[2 * i + 1]; // d
         __m128& p2_out      = out[2 * i + 1];
         p2_out              = _mm_mul_ps(tmp, p2_in);
         p2_out              = _mm_add_ps(
@@ -218,7 +218,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<true, false, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<true, false, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -249,7 +249,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128 const& p1_in = in[i]; // a
+        __m128 p1_in        = in[i]; // a
         __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
         __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -262,7 +262,7 @@ swMM<true, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT in,
+KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* in,
                                                      __m128 const& KLN_RESTRICT b,
                                                      __m128 const* KLN_RESTRICT c,
                                                      __m128* out,
@@ -317,7 +317,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT
     tmp6        = _mm_sub_ps(tmp6, _mm_mul_ps(b_xwyz, czero));
     tmp6        = _mm_mul_ps(tmp6, scale);
 
-    __m128 const& p1_in = in[0]; // a
+    __m128 p1_in        = in[0]; // a
     __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
     __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -327,7 +327,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT
     p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
     p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-    __m128 const& p2_in = in[1]; // d
+    __m128 p2_in        = in[1]; // d
     __m128& p2_out      = out[1];
     p2_out              = _mm_mul_ps(tmp, p2_in);
     p2_out = _mm_add_ps(p2_out, _mm_mul_ps(tmp2, KLN_SWIZZLE(p2_in, 1, 3, 2, 0)));
@@ -340,7 +340,7 @@ KLN_INLINE void KLN_VEC_CALL swMM<false, true, true>(__m128 const* KLN_RESTRICT
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
+swMM<false, true, false>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -395,7 +395,7 @@ swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
     tmp6        = _mm_sub_ps(tmp6, _mm_mul_ps(b_xwyz, czero));
     tmp6        = _mm_mul_ps(tmp6, scale);
 
-    __m128 const& p1_in = in[0]; // a
+    __m128 p1_in        = in[0]; // a
     __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
     __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -413,7 +413,7 @@ swMM<false, true, false>(__m128 const* KLN_RESTRICT in,
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
+swMM<false, false, true>(__m128 const* in,
                          __m128 const& KLN_RESTRICT b,
                          __m128 const* KLN_RESTRICT c,
                          __m128* out,
@@ -442,7 +442,7 @@ swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
     tmp3        = _mm_sub_ps(tmp3, _mm_mul_ps(b_xxxx, b_xzwy));
     tmp3        = _mm_mul_ps(tmp3, scale);
 
-    __m128 const& p1_in = in[0]; // a
+    __m128 p1_in        = in[0]; // a
     __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
     __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -452,7 +452,7 @@ swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
     p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp2, p1_in_xzwy));
     p1_out = _mm_add_ps(p1_out, _mm_mul_ps(tmp3, p1_in_xwyz));
 
-    __m128 const& p2_in = in[1]; // d
+    __m128 p2_in        = in[1]; // d
     __m128& p2_out      = out[1];
     p2_out              = _mm_mul_ps(tmp, p2_in);
     p2_out = _mm_add_ps(p2_out, _mm_mul_ps(tmp2, KLN_SWIZZLE(p2_in, 1, 3, 2, 0)));
@@ -461,7 +461,7 @@ swMM<false, false, true>(__m128 const* KLN_RESTRICT in,
 
 template <>
 KLN_INLINE void KLN_VEC_CALL
-swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
+swMM<false, false, false>(__m128 const* in,
                           __m128 const& KLN_RESTRICT b,
                           __m128 const* KLN_RESTRICT c,
                           __m128* out,
@@ -490,7 +490,7 @@ swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
     tmp3        = _mm_sub_ps(tmp3, _mm_mul_ps(b_xxxx, b_xzwy));
     tmp3        = _mm_mul_ps(tmp3, scale);
 
-    __m128 const& p1_in = in[0]; // a
+    __m128 p1_in        = in[0]; // a
     __m128 p1_in_xzwy   = KLN_SWIZZLE(p1_in, 1, 3, 2, 0);
     __m128 p1_in_xwyz   = KLN_SWIZZLE(p1_in, 2, 1, 3, 0);
 
@@ -502,14 +502,14 @@ swMM<false, false, false>(__m128 const* KLN_RESTRICT in,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -548,18 +548,19 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, true>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
-        __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        __m128 a_i = a[i];
+        __m128& p  = out[i];
+        p          = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
 
-        __m128 tmp5 = hi_dp(tmp4, a[i]);
+        __m128 tmp5 = hi_dp(tmp4, a_i);
         p           = _mm_add_ps(p, tmp5);
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -592,15 +593,16 @@ KLN_INLINE void KLN_VEC_CALL sw012<true, false>(__m128 const* KLN_RESTRICT a,
     for (size_t i = 0; i != count; ++i)
     {
         // Compute the lower block for components e1, e2, and e3
-        __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 1, 3, 2, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 2, 1, 3, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        __m128 a_i = a[i];
+        __m128& p  = out[i];
+        p          = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 1, 3, 2, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 2, 1, 3, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -647,7 +649,7 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, true>(__m128 const* KLN_RESTRICT a,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* a,
                                                  __m128 b,
                                                  __m128 const* KLN_RESTRICT c,
                                                  __m128* out,
@@ -685,14 +687,14 @@ KLN_INLINE void KLN_VEC_CALL sw012<false, false>(__m128 const* KLN_RESTRICT a,
 }
 
 template <bool Variadic, bool Translate>
-KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312(__m128 const* a,
                                    __m128 b,
                                    __m128 const* KLN_RESTRICT c,
                                    __m128* out,
                                    size_t count = 0) noexcept;
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* a,
                                                __m128 b,
                                                __m128 const* KLN_RESTRICT c,
                                                __m128* out,
@@ -728,17 +730,18 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, true>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        __m128 a_i = a[i];
+        __m128& p  = out[i];
+        p          = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
 
-        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a[i], 0, 0, 0, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp4, KLN_SWIZZLE(a_i, 0, 0, 0, 0)));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -768,15 +771,16 @@ KLN_INLINE void KLN_VEC_CALL sw312<true, false>(__m128 const* KLN_RESTRICT a,
 
     for (size_t i = 0; i != count; ++i)
     {
-        __m128& p = out[i];
-        p         = _mm_mul_ps(tmp1, KLN_SWIZZLE(a[i], 2, 1, 3, 0));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a[i], 1, 3, 2, 0)));
-        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a[i]));
+        __m128 a_i = a[i];
+        __m128& p  = out[i];
+        p          = _mm_mul_ps(tmp1, KLN_SWIZZLE(a_i, 2, 1, 3, 0));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp2, KLN_SWIZZLE(a_i, 1, 3, 2, 0)));
+        p = _mm_add_ps(p, _mm_mul_ps(tmp3, a_i));
     }
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* a,
                                                 __m128 b,
                                                 __m128 const* KLN_RESTRICT c,
                                                 __m128* out,
@@ -820,7 +824,7 @@ KLN_INLINE void KLN_VEC_CALL sw312<false, true>(__m128 const* KLN_RESTRICT a,
 }
 
 template <>
-KLN_INLINE void KLN_VEC_CALL sw312<false, false>(__m128 const* KLN_RESTRICT a,
+KLN_INLINE void KLN_VEC_CALL sw312<false, false>(__m128 const* a,
                                                  __m128 b,
                                                  __m128 const* KLN_RESTRICT c,
                                                  __m128* out,
-- 
2.43.0


From 6445e3825240cebda847a6acc0841bfc9519a6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 05/29] fix: translation column of a rotor's matrix was left
 uninitialised

---
 public/klein/detail/x86/x86_matrix.hpp       | 4 ++++
 public/klein/detail/x86/x86_matrix_cxx11.inl | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/public/klein/detail/x86/x86_matrix.hpp b/public/klein/detail/x86/x86_matrix.hpp
index d68fdd5..9c0c4e5 100644
--- a/public/klein/detail/x86/x86_matrix.hpp
+++ b/public/klein/detail/x86/x86_matrix.hpp
@@ -118,6 +118,10 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12(__m128 b,
         tmp = _mm_mul_ps(KLN_SWIZZLE(b, 0, 1, 3, 2), KLN_SWIZZLE(*c, 0, 2, 1, 3));
         c3 = _mm_mul_ps(_mm_set_ps(0.f, 2.f, 2.f, 2.f), _mm_sub_ps(tmp, c3));
     }
+    else
+    {
+        c3 = _mm_setzero_ps();
+    }
     if constexpr (Normalized)
     {
 #    ifdef KLEIN_SSE_4_1
diff --git a/public/klein/detail/x86/x86_matrix_cxx11.inl b/public/klein/detail/x86/x86_matrix_cxx11.inl
index 0f1e1f8..173e259 100644
--- a/public/klein/detail/x86/x86_matrix_cxx11.inl
+++ b/public/klein/detail/x86/x86_matrix_cxx11.inl
@@ -144,6 +144,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, true>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(c3, _mm_set_ps(1.f, 0.f, 0.f, 0.f), 0b1000);
 #else
@@ -187,6 +188,7 @@ KLN_INLINE void KLN_VEC_CALL mat4x4_12<false, false>(__m128 b,
     c2 = _mm_add_ps(c2, _mm_set_ps(0.f, b3_2 - b1_2, 0.f, 0.f));
 
     __m128& c3 = out[3];
+    c3         = _mm_setzero_ps();
 #ifdef KLEIN_SSE_4_1
     c3 = _mm_blend_ps(
         c3, _mm_set_ps(b0_2 + b1_2 + b2_2 + b3_2, 0.f, 0.f, 0.f), 0b1000);
-- 
2.43.0


From 6712e90bcc373bf51b44d6f9bd6843e9a5eec6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 06/29] fix: normalizing a plane did not scale its distance
 coefficient

---
 public/klein/plane.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/public/klein/plane.hpp b/public/klein/plane.hpp
index 83271e2..2576875 100644
--- a/public/klein/plane.hpp
+++ b/public/klein/plane.hpp
@@ -65,12 +65,7 @@ public:
     void normalize() noexcept
     {
         __m128 inv_norm = detail::rsqrt_nr1(detail::hi_dp_bc(p0_, p0_));
-#ifdef KLEIN_SSE_4_1
-        inv_norm = _mm_blend_ps(inv_norm, _mm_set_ss(1.f), 1);
-#else
-        inv_norm = _mm_add_ps(inv_norm, _mm_set_ss(1.f));
-#endif
-        p0_ = _mm_mul_ps(inv_norm, p0_);
+        p0_             = _mm_mul_ps(inv_norm, p0_);
     }
 
     /// Return a normalized copy of this plane.
-- 
2.43.0


From bae225559e11a88714f0485ca8bc341aa376c818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 07/29] fix: the norm of a zero or ideal plane and a zero
 distance were NaN

---
 public/klein/detail/x86/x86_sse.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/public/klein/detail/x86/x86_sse.hpp b/public/klein/detail/x86/x86_sse.hpp
index ea29a13..b640a1a 100644
--- a/public/klein/detail/x86/x86_sse.hpp
+++ b/public/klein/detail/x86/x86_sse.hpp
@@ -3,6 +3,8 @@
 // intrinsics
 #pragma once
 
+#include <cfloat>
+
 #ifndef SIMDE_ENABLE_NATIVE_ALIASES
 #    define SIMDE_ENABLE_NATIVE_ALIASES
 #endif
@@ -113,7 +115,10 @@ namespace detail
     // Sqrt Newton-Raphson is evaluated in terms of rsqrt_nr1
     KLN_INLINE __m128 KLN_VEC_CALL sqrt_nr1(__m128 a) noexcept
     {
-        return _mm_mul_ps(a, rsqrt_nr1(a));
+        // rsqrtps maps zero (and denormals) to infinity, so mask the product to
+        // produce a root of zero instead of 0 * inf
+        __m128 mask = _mm_cmpnlt_ps(a, _mm_set1_ps(FLT_MIN));
+        return _mm_and_ps(mask, _mm_mul_ps(a, rsqrt_nr1(a)));
     }
 
 #ifdef KLEIN_SSE_4_1
-- 
2.43.0


From 66e7a02cf70df3b9405bb424cee3ae125eb7cc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 08/29] fix: exponential of a zero branch was NaN

---
 public/klein/exp_log.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/klein/exp_log.hpp b/public/klein/exp_log.hpp
index 44e6a1d..d8c9d24 100644
--- a/public/klein/exp_log.hpp
+++ b/public/klein/exp_log.hpp
@@ -111,7 +111,8 @@ namespace kln
     float ang;
     _mm_store_ss(&ang, detail::sqrt_nr1(detail::hi_dp(b.p1_, b.p1_)));
     float cos_ang = std::cos(ang);
-    float sin_ang = std::sin(ang) / ang;
+    // sin(ang) / ang tends to 1 as the branch vanishes
+    float sin_ang = ang > 0.f ? std::sin(ang) / ang : 1.f;
 
     rotor out;
     out.p1_ = _mm_mul_ps(_mm_set1_ps(sin_ang), b.p1_);
-- 
2.43.0


From 3bd38b87e786163c13af4b0868277321bd7185ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 09/29] fix: logarithm of a rotor was NaN or inaccurate for
 small angles

---
 public/klein/exp_log.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/public/klein/exp_log.hpp b/public/klein/exp_log.hpp
index d8c9d24..134a018 100644
--- a/public/klein/exp_log.hpp
+++ b/public/klein/exp_log.hpp
@@ -90,12 +90,15 @@ namespace kln
 {
     float cos_ang;
     _mm_store_ss(&cos_ang, r.p1_);
-    float ang     = std::acos(cos_ang);
-    float sin_ang = std::sin(ang);
+    // The arc cosine loses the angle of a small rotation (and is undefined when
+    // the scalar part rounds past 1), so the sine is needed here too.
+    float sin_ang;
+    _mm_store_ss(&sin_ang, detail::sqrt_nr1(detail::hi_dp(r.p1_, r.p1_)));
+    float ang   = std::atan2(sin_ang, cos_ang);
+    float scale = sin_ang > 0.f ? ang / sin_ang : 1.f;
 
     branch out;
-    out.p1_ = _mm_mul_ps(r.p1_, detail::rcp_nr1(_mm_set1_ps(sin_ang)));
-    out.p1_ = _mm_mul_ps(out.p1_, _mm_set1_ps(ang));
+    out.p1_ = _mm_mul_ps(r.p1_, _mm_set1_ps(scale));
 #ifdef KLEIN_SSE_4_1
     out.p1_ = _mm_blend_ps(out.p1_, _mm_setzero_ps(), 1);
 #else
-- 
2.43.0


From 6c6a3478c1ee9f81fa1c95ef15553139dfca9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 10/29] fix: logarithm of a motor lost half turns and was
 inaccurate close to them

---
 public/klein/detail/x86/x86_exp_log.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index 4775933..fcd1df9 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -194,9 +194,10 @@ namespace detail
         // s_scalar = sinu
         // t_scalar = v cosu
 
-        bool p_zero = std::abs(p) < 1e-6;
-        float u = p_zero ? std::atan2(-q, t_scalar) : std::atan2(s_scalar, p);
-        float v = p_zero ? -q / s_scalar : t_scalar / p;
+        // s_scalar is non-negative so u is always determined by sinu and cosu. v
+        // is determined by whichever of the two is well away from zero.
+        float u = std::atan2(s_scalar, p);
+        float v = std::abs(p) < s_scalar ? -q / s_scalar : t_scalar / p;
 
         // Now, (u + v e0123) * n when exponentiated will give us the motor, so
         // (u + v e0123) * n is the logarithm. To proceed, we need to compute
-- 
2.43.0


From 3bb76ea7295ceccadc7088ad9983d08d5dbe93b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 11/29] fix: logarithm of a negated translator was that of the
 inverse translation

---
 public/klein/detail/x86/x86_exp_log.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index fcd1df9..ed42482 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -161,8 +161,10 @@ namespace detail
 
         if (mask == 0xf)
         {
+            // The scalar part is 1 or -1, and -1 - b is the same translation
+            // as 1 + b
             p1_out = _mm_setzero_ps();
-            p2_out = p2;
+            p2_out = _mm_mul_ps(p2, KLN_SWIZZLE(p1, 0, 0, 0, 0));
             return;
         }
 
-- 
2.43.0


From 5da9d7784d04f79f7e9bc4caa5b8b37d76b4cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 12/29] fix: exponential and logarithm overflowed to NaN for
 vanishing rotation angles

---
 public/klein/detail/x86/x86_exp_log.hpp | 26 ++++++++++++-------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index ed42482..abe49f3 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -35,10 +35,13 @@ namespace detail
         // the differences between the Taylor expansion of exp(ab) and
         // exp(a)exp(b)).
 
-        // Check if the bivector we're exponentiating is ideal
-        int mask = _mm_movemask_ps(_mm_cmpeq_ps(a, _mm_setzero_ps()));
+        // Broadcast dot(a, a) ignoring the scalar component to all components
+        // of a2
+        __m128 a2 = hi_dp_bc(a, a);
 
-        if (mask == 0xf)
+        // Check if the bivector we're exponentiating is ideal (up to a rotation
+        // so small that its square underflows)
+        if (_mm_comilt_ss(a2, _mm_set_ss(FLT_MIN)))
         {
             // When exponentiating an ideal line, the terms past the linear
             // term in the Taylor series expansion vanishes
@@ -58,9 +61,6 @@ namespace detail
         //
         // (a1^2 + a2^2 + a3^2) - 2(a1 b1 + a2 b2 + a3 b3) e0123
 
-        // Broadcast dot(a, a) ignoring the scalar component to all components
-        // of a2
-        __m128 a2 = hi_dp_bc(a, a);
         __m128 ab = hi_dp_bc(a, b);
 
         // Next, we need the sqrt of that quantity. Since e0123 squares to 0,
@@ -95,8 +95,7 @@ namespace detail
         // Notice how the products above actually commute
         norm_ideal = _mm_sub_ps(
             norm_ideal,
-            _mm_mul_ps(
-                a, _mm_mul_ps(ab, _mm_mul_ps(a2_sqrt_rcp, detail::rcp_nr1(a2)))));
+            _mm_mul_ps(norm_real, _mm_mul_ps(minus_v, a2_sqrt_rcp)));
 
         // The norm * our normalized bivector is the original bivector (a + b).
         // Thus, we have:
@@ -156,10 +155,11 @@ namespace detail
         __m128 bv_mask = _mm_set_ps(1.f, 1.f, 1.f, 0.f);
         __m128 a       = _mm_mul_ps(bv_mask, p1);
 
-        // Early out if we're taking the log of a motor without any rotation
-        int mask = _mm_movemask_ps(_mm_cmpeq_ps(a, _mm_setzero_ps()));
+        // Early out if we're taking the log of a motor without any rotation (or
+        // with a rotation so small that its square underflows)
+        __m128 a2 = hi_dp_bc(a, a);
 
-        if (mask == 0xf)
+        if (_mm_comilt_ss(a2, _mm_set_ss(FLT_MIN)))
         {
             // The scalar part is 1 or -1, and -1 - b is the same translation
             // as 1 + b
@@ -171,7 +171,6 @@ namespace detail
         __m128 b = _mm_mul_ps(bv_mask, p2);
 
         // Next, we need to compute the norm as in the exponential.
-        __m128 a2          = hi_dp_bc(a, a);
         __m128 ab          = hi_dp_bc(a, b);
         __m128 a2_sqrt_rcp = detail::rsqrt_nr1(a2);
         __m128 s           = _mm_mul_ps(a2, a2_sqrt_rcp);
@@ -208,8 +207,7 @@ namespace detail
         __m128 norm_ideal = _mm_mul_ps(b, a2_sqrt_rcp);
         norm_ideal        = _mm_sub_ps(
             norm_ideal,
-            _mm_mul_ps(
-                a, _mm_mul_ps(ab, _mm_mul_ps(a2_sqrt_rcp, detail::rcp_nr1(a2)))));
+            _mm_mul_ps(norm_real, _mm_mul_ps(minus_t, a2_sqrt_rcp)));
 
         __m128 uvec = _mm_set1_ps(u);
         p1_out      = _mm_mul_ps(uvec, norm_real);
-- 
2.43.0


From 9030993a9b1b8c17a3fc1af56511ee913f3d9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 13/29] fix: Euler angles detected gimbal lock with the wrong
 quantity

---
 public/klein/rotor.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index c8abf84..29c4464 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -203,18 +203,19 @@ public:
         euler_angles ea;
         float buf[4];
         store(buf);
-        float test = buf[1] * buf[2] + buf[3] * buf[0];
+        // Half the sine of the pitch
+        float test = buf[0] * buf[2] - buf[1] * buf[3];
 
-        if (test > 0.4999f)
+        if (test > 0.499999f)
         {
             ea.roll  = 2.f * std::atan2(buf[1], buf[0]);
             ea.pitch = pi_2;
             ea.yaw   = 0.f;
             return ea;
         }
-        else if (test < -0.4999f)
+        else if (test < -0.499999f)
         {
-            ea.roll  = -2.f * std::atan2(buf[1], buf[0]);
+            ea.roll  = 2.f * std::atan2(buf[1], buf[0]);
             ea.pitch = -pi_2;
             ea.yaw   = 0.f;
             return ea;
@@ -227,7 +228,7 @@ public:
         ea.roll = std::atan2(
             2 * (buf[0] * buf[1] + buf[2] * buf[3]), 1 - 2 * (buf1_2 + buf2_2));
 
-        float sinp = 2 * (buf[0] * buf[2] - buf[1] * buf[3]);
+        float sinp = 2 * test;
         if (std::abs(sinp) > 1)
         {
             ea.pitch = std::copysign(pi_2, sinp);
-- 
2.43.0


From c602334ac8ce1c77a5dc5fea91b17e9ced184325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 14/29] fix: storing a point, rotor or branch to an unaligned
 array crashed

---
 public/klein/line.hpp  | 2 +-
 public/klein/point.hpp | 2 +-
 public/klein/rotor.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/klein/line.hpp b/public/klein/line.hpp
index 55f24f1..6dc9ee9 100644
--- a/public/klein/line.hpp
+++ b/public/klein/line.hpp
@@ -342,7 +342,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float e12() const noexcept
diff --git a/public/klein/point.hpp b/public/klein/point.hpp
index 4542a98..5b93630 100644
--- a/public/klein/point.hpp
+++ b/public/klein/point.hpp
@@ -51,7 +51,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* data) const noexcept
     {
-        _mm_store_ps(data, p3_);
+        _mm_storeu_ps(data, p3_);
     }
 
     /// Normalize this point (division is done via rcpps with an additional
diff --git a/public/klein/rotor.hpp b/public/klein/rotor.hpp
index 29c4464..3b0305d 100644
--- a/public/klein/rotor.hpp
+++ b/public/klein/rotor.hpp
@@ -394,7 +394,7 @@ public:
     /// Store m128 contents into an array of 4 floats
     void store(float* buf) const noexcept
     {
-        _mm_store_ps(buf, p1_);
+        _mm_storeu_ps(buf, p1_);
     }
 
     [[nodiscard]] float scalar() const noexcept
-- 
2.43.0


From f68b6fdba2338284a81e03ec779edcfd0ea6401a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 15/29] fix: logarithm of a translation kept the motor's
 pseudoscalar part in the line

---
 public/klein/detail/x86/x86_exp_log.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/public/klein/detail/x86/x86_exp_log.hpp b/public/klein/detail/x86/x86_exp_log.hpp
index abe49f3..956c31f 100644
--- a/public/klein/detail/x86/x86_exp_log.hpp
+++ b/public/klein/detail/x86/x86_exp_log.hpp
@@ -154,6 +154,7 @@ namespace detail
         // from the motor.
         __m128 bv_mask = _mm_set_ps(1.f, 1.f, 1.f, 0.f);
         __m128 a       = _mm_mul_ps(bv_mask, p1);
+        __m128 b       = _mm_mul_ps(bv_mask, p2);
 
         // Early out if we're taking the log of a motor without any rotation (or
         // with a rotation so small that its square underflows)
@@ -164,12 +165,10 @@ namespace detail
             // The scalar part is 1 or -1, and -1 - b is the same translation
             // as 1 + b
             p1_out = _mm_setzero_ps();
-            p2_out = _mm_mul_ps(p2, KLN_SWIZZLE(p1, 0, 0, 0, 0));
+            p2_out = _mm_mul_ps(b, KLN_SWIZZLE(p1, 0, 0, 0, 0));
             return;
         }
 
-        __m128 b = _mm_mul_ps(bv_mask, p2);
-
         // Next, we need to compute the norm as in the exponential.
         __m128 ab          = hi_dp_bc(a, b);
         __m128 a2_sqrt_rcp = detail::rsqrt_nr1(a2);
-- 
2.43.0


From 937163a1380d19621ef55fc6a3522eaf2d728a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 16/29] fix: tokenizer never returned for a trailing variable
 of one letter or an unknown character

---
 sym/parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 56b2b64..66e031f 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -199,9 +199,9 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
             t.type = token_type::number;
             t.num  = tokenize_number(it, input.end());
         }
-        else if (it != input.end() - 1)
+        else if (std::isalpha(static_cast<unsigned char>(c)))
         {
-            if (c == 'e' && std::isdigit(*(it + 1)))
+            if (c == 'e' && it + 1 != input.end() && std::isdigit(*(it + 1)))
             {
                 t.type = token_type::element;
                 t.e    = tokenize_element(it, input.end(), algebra_);
@@ -212,6 +212,10 @@ std::vector<token> tokenize(std::string const& input, algebra const& algebra_)
                 t.id   = tokenize_identifier(it, input.end());
             }
         }
+        else
+        {
+            throw std::runtime_error("Unexpected character encountered");
+        }
         out.emplace_back(t);
     }
 
-- 
2.43.0


From 398cc51bbb8a023b508da250b92a10a968f66a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 17/29] fix: tokenizing a number of 32 or more digits wrote
 past its buffer

---
 sym/parser.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 66e031f..f0a61e8 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -67,14 +67,15 @@ static float tokenize_number(std::string::const_iterator& it,
 
     for (auto tmp = it; tmp != end; ++tmp)
     {
-        if (buf_size > 32)
-        {
-            throw std::runtime_error(
-                "Number with greater than 32 digits encountered");
-        }
-
         if (std::isdigit(*tmp) || *tmp == '.')
         {
+            // Leave room for the terminating null
+            if (buf_size == sizeof(buf) - 1)
+            {
+                throw std::runtime_error(
+                    "Number with greater than 31 digits encountered");
+            }
+
             buf[buf_size++] = *tmp;
         }
         else
-- 
2.43.0


From 0ee7530e54462694f755d09b706a768f5ae0c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 18/29] fix: basis indices outside of the algebra were accepted
 or silently dropped

---
 sym/parser.cpp | 5 +++++
 sym/parser.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index f0a61e8..79500d9 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -111,6 +111,11 @@ static element tokenize_element(std::string::const_iterator& it,
         {
             uint8_t bit = *it - '0';
 
+            if ((algebra_.pss() & (1 << bit)) == 0)
+            {
+                throw std::runtime_error("Basis index out of range");
+            }
+
             if ((out.value & (1 << bit)) > 0)
             {
                 throw std::runtime_error("Duplicate basis index");
diff --git a/sym/parser.hpp b/sym/parser.hpp
index e437112..2009fc5 100644
--- a/sym/parser.hpp
+++ b/sym/parser.hpp
@@ -23,7 +23,7 @@ struct identifier
 
 struct element
 {
-    uint8_t value;
+    uint32_t value;
     bool negative;
 };
 
-- 
2.43.0


From ed6f670ed4e22c73bafc18834cc45814e7c99b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 19/29] fix: input following a complete expression was ignored
 by the parser

---
 sym/parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 79500d9..d1bdd1f 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -449,5 +449,10 @@ mv parse(std::string const& input, algebra const& algebra_)
     std::vector<token> tokens = tokenize(input, algebra_);
 
     auto it = tokens.cbegin();
-    return parse_expr(it, tokens.cend(), algebra_);
+    mv result = parse_expr(it, tokens.cend(), algebra_);
+    if (it->type != token_type::eof)
+    {
+        throw std::runtime_error("Unexpected token after expression");
+    }
+    return result;
 }
\ No newline at end of file
-- 
2.43.0


From a827ed6243d0a94d8b1d589288df99e09a7cdea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 20/29] fix: terms pushed with a zero coefficient were kept in
 sums

---
 sym/ga.cpp   | 5 +++++
 sym/poly.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 4700893..e095a37 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -214,6 +214,11 @@ mv::mv(algebra const& a) noexcept
 
 mv& mv::push(uint32_t e, poly const& p) noexcept
 {
+    if (p.terms.empty())
+    {
+        return *this;
+    }
+
     auto it = terms.find(e);
     if (it == terms.end())
     {
diff --git a/sym/poly.cpp b/sym/poly.cpp
index 9a1a606..3b9600f 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -150,6 +150,11 @@ mon operator*(mon const& lhs, mon const& rhs) noexcept
 
 poly& poly::push(mon const& m, float f) noexcept
 {
+    if (f == 0.f)
+    {
+        return *this;
+    }
+
     auto it = terms.find(m);
     if (it == terms.end())
     {
-- 
2.43.0


From a18222b63203ed70594143f33cb84e4f6ec95ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 21/29] fix: coefficients of 1 and -1 without variables were
 not printed

---
 sym/poly.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sym/poly.cpp b/sym/poly.cpp
index 3b9600f..3d5e09a 100644
--- a/sym/poly.cpp
+++ b/sym/poly.cpp
@@ -276,6 +276,12 @@ operator<<(std::ostream& os,
 std::ostream& operator<<(std::ostream& os,
                          std::map<mon, float>::const_iterator const& it) noexcept
 {
+    if (it->first.factors.empty())
+    {
+        os << it->second;
+        return os;
+    }
+
     if (it->second == -1.f)
     {
         os << '-';
@@ -285,11 +291,6 @@ std::ostream& operator<<(std::ostream& os,
         os << it->second;
     }
 
-    if (it->first.factors.empty())
-    {
-        return os;
-    }
-
     auto factor = it->first.factors.cbegin();
     os << factor;
     ++factor;
-- 
2.43.0


From ad94991773e28fbd5ea689923030d288f8df5d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 22/29] fix: basis vectors beyond the ninth were left out when
 printing

---
 sym/ga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index e095a37..51ca54d 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -509,7 +509,7 @@ std::ostream& operator<<(std::ostream& os,
 
     os << " e";
 
-    for (size_t i = 0; i != 9; ++i)
+    for (size_t i = 0; i != 32; ++i)
     {
         if ((it->first & (1 << i)) > 0)
         {
-- 
2.43.0


From 2295739fded7c0c12c4195f2aafc2786090b6bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 23/29] fix: geometric product ignored basis vectors beyond the
 eighth

---
 sym/ga.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 51ca54d..483ded0 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -43,7 +43,7 @@ int32_t algebra::mul(uint32_t lhs, uint32_t rhs) const noexcept
     for (uint32_t i = 0; i != dim_; ++i)
     {
         uint8_t index = dim_ - i - 1;
-        uint8_t bit   = 1 << index;
+        uint32_t bit  = 1 << index;
         bool lhs_e    = (lhs & bit) > 0;
         bool rhs_e    = (rhs & bit) > 0;
 
-- 
2.43.0


From ea18e3e091cb67e56bbb2b7b4681112356be5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 24/29] fix: algebras whose pseudoscalar products cannot be
 encoded were accepted

---
 sym/ga.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index 483ded0..dc1c6e1 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -14,7 +14,8 @@ algebra::algebra(uint32_t p, uint32_t q, uint32_t r)
     , r_{r}
     , dim_{p + q + r}
 {
-    assert(dim_ < 32
+    // Products encode elements offset by one in a signed integer
+    assert(dim_ < 31
            && "Exceeded maximum metric size that can fit in a 32-bit integer");
 }
 
-- 
2.43.0


From 7a850ade938b8a3cea8e2fba341ec7b2a531d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 25/29] fix: shell took lines containing a decimal point or #
 for commands or comments

---
 sym/repl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sym/repl.cpp b/sym/repl.cpp
index 8415174..8518e62 100644
--- a/sym/repl.cpp
+++ b/sym/repl.cpp
@@ -28,7 +28,7 @@ void repl::run()
         bool issue_command = false;
         for (auto c : line)
         {
-            if (std::isspace(c))
+            if (std::isspace(static_cast<unsigned char>(c)))
             {
                 continue;
             }
@@ -48,6 +48,7 @@ void repl::run()
             else
             {
                 should_parse = true;
+                break;
             }
         }
 
-- 
2.43.0


From 51a45c7414f2a3cd8782d7b584668a31ae058d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:58 +0000
Subject: [PATCH 26/29] fix: printing a basis element token left the stream in
 hexadecimal mode

---
 sym/parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index d1bdd1f..6edfdeb 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -19,7 +19,8 @@ std::ostream& operator<<(std::ostream& os, element const& el)
     {
         os << '-';
     }
-    os << "e[0x" << std::hex << static_cast<int>(el.value) << ']';
+    os << "e[0x" << std::hex << static_cast<int>(el.value) << std::dec
+       << ']';
     return os;
 }
 
-- 
2.43.0


From 91b96519fc837a5306d0fa7efb1c8f706f756094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:15 +0000
Subject: [PATCH 27/29] fix: subtracting a multivector from itself in place
 erased terms being iterated

---
 sym/ga.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sym/ga.cpp b/sym/ga.cpp
index dc1c6e1..5a5ddeb 100644
--- a/sym/ga.cpp
+++ b/sym/ga.cpp
@@ -294,6 +294,13 @@ mv& mv::operator+=(mv const& other) noexcept
 
 mv& mv::operator-=(mv const& other) noexcept
 {
+    if (this == &other)
+    {
+        // Every term cancels, and terms must not be erased while iterating
+        terms.clear();
+        return *this;
+    }
+
     for (auto&& [e, p] : other.terms)
     {
         push(e, -p);
-- 
2.43.0


From 29292b6f3334617a1c037aca6110fa7bc5780ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 28/29] fix: comments of the C interface named the wrong
 components and order

---
 c_src/klein.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/c_src/klein.h b/c_src/klein.h
index e98e574..c0ab470 100644
--- a/c_src/klein.h
+++ b/c_src/klein.h
@@ -20,7 +20,7 @@ extern "C"
     /// exactly zero.
     typedef struct
     {
-        /// LSB (1, e12, e31, e23) MSB
+        /// LSB (1, e23, e31, e12) MSB
         __m128 p1;
 
         /// LSB (e0123, e01, e02, e03) MSB
@@ -31,7 +31,7 @@ extern "C"
     /// are modeled as points at infinity (i.e. ideal points)
     typedef struct
     {
-        /// LSB (e123, e021, e013, e032) MSB
+        /// LSB (e123, e032, e013, e021) MSB
         __m128 p3;
     } kln_direction;
 
@@ -41,13 +41,13 @@ extern "C"
     /// z\mathbf{e}_{021}$$
     typedef struct
     {
-        /// LSB (e123, e021, e013, e032) MSB
+        /// LSB (e123, e032, e013, e021) MSB
         __m128 p3;
     } kln_point;
 
     typedef struct
     {
-        /// LSB (1, e12, e31, e23) MSB
+        /// LSB (1, e23, e31, e12) MSB
         __m128 p1;
     } kln_rotor;
 
@@ -59,7 +59,7 @@ extern "C"
 
     typedef struct
     {
-        /// LSB (1, e12, e31, e23) MSB
+        /// LSB (1, e23, e31, e12) MSB
         __m128 p1;
 
         /// LSB (e0123, e01, e02, e03) MSB
@@ -79,7 +79,7 @@ extern "C"
     /// multivector:
     ///
     /// $$a\mathbf{e}_{01} + b\mathbf{e}_{02} + c\mathbf{e}_{03} +\
-    /// d\mathbf{e}_{12} + e\mathbf{e}_{31} + f\mathbf{e}_{23}$$
+    /// d\mathbf{e}_{23} + e\mathbf{e}_{31} + f\mathbf{e}_{12}$$
     void kln_line_init(kln_line* line,
                        float a,
                        float b,
@@ -88,8 +88,8 @@ extern "C"
                        float e,
                        float f);
 
-    /// Initialize a given point to the quantity $\mathbf{e}_{123} + x\mathbf{e}_{023} +\
-    /// y\mathbf{e}_{031} + z\mathbf{e}_{012}$.
+    /// Initialize a given point to the quantity $\mathbf{e}_{123} + x\mathbf{e}_{032} +\
+    /// y\mathbf{e}_{013} + z\mathbf{e}_{021}$.
     void kln_point_init(kln_point* point, float x, float y, float z);
 
     // VARIOUS GROUP ACTIONS
@@ -147,7 +147,7 @@ extern "C"
     kln_motor kln_compose_rotor_translator(kln_rotor const* rotor,
                                            kln_translator const* translator);
 
-    /// Compose a translator and a rotor to create a motor (translator * rotor)
+    /// Compose a translator and a rotor to create a motor (rotor * translator)
     kln_motor kln_compose_translator_rotor(kln_translator const* translator,
                                            kln_rotor const* rotor);
 
-- 
2.43.0


From 55cd1d06feec00a7ff8ba493c8c6ff7d8136b785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:26 +0000
Subject: [PATCH 29/29] fix: deeply nested parentheses overflowed the stack of
 the parser

---
 sym/parser.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sym/parser.cpp b/sym/parser.cpp
index 6edfdeb..20b5f67 100644
--- a/sym/parser.cpp
+++ b/sym/parser.cpp
@@ -449,6 +449,26 @@ mv parse(std::string const& input, algebra const& algebra_)
 {
     std::vector<token> tokens = tokenize(input, algebra_);
 
+    // Every open parenthesis is a level of recursion: bound it
+    constexpr size_t max_depth = 256;
+    size_t depth               = 0;
+    for (auto&& t : tokens)
+    {
+        if (t.type != token_type::delimiter)
+        {
+            continue;
+        }
+
+        if (t.delimiter == ')')
+        {
+            depth -= depth > 0 ? 1 : 0;
+        }
+        else if (++depth > max_depth)
+        {
+            throw std::runtime_error("Parentheses nested too deeply");
+        }
+    }
+
     auto it = tokens.cbegin();
     mv result = parse_expr(it, tokens.cend(), algebra_);
     if (it->type != token_type::eof)
-- 
2.43.0

