From 52f3334efe4e0b7e5245e175ef0aa22f94bcb482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:48 +0000
Subject: [PATCH 01/20] fix: OutputStageTanh no longer flips sign just below +8
 amplitudes

For an amplitude that is a power of two, the largest input below the upper
cutoff (zero + 8*amplitude - 1) rescales to exactly 8.0, which F3 cannot
represent: the left shift wraps to -8.0 and the stage returned -amplitude
instead of +amplitude. Saturate that input as well.
---
 internal/output.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/output.h b/internal/output.h
index 92bf7b9..8e3093c 100644
--- a/internal/output.h
+++ b/internal/output.h
@@ -368,7 +368,9 @@ struct OutputStageEvalBufferImpl<OutputStageTanh,
         output_stage.real_amplitude_as_int32;
 
     input_cutoff_min = real_zero_as_int32 - 8 * real_amplitude_as_int32;
-    input_cutoff_max = real_zero_as_int32 + 8 * real_amplitude_as_int32;
+    // The largest input below +8 amplitudes is saturated as well: rescaled to
+    // the F3 fixed-point format (which cannot represent +8) it may round to 8.
+    input_cutoff_max = real_zero_as_int32 + 8 * real_amplitude_as_int32 - 1;
     output_min = real_zero_as_int32 - real_amplitude_as_int32;
     output_max = real_zero_as_int32 + real_amplitude_as_int32;
 
-- 
2.43.0


From c1bee5e4098d53eb409d5279744a510bf6c63dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:41 +0000
Subject: [PATCH 02/20] fix: scalar RoundingHalfSum rounds negative halves like
 VRHADD and the SIMD forms

RoundingHalfSum is documented as equivalent to NEON VRHADD, i.e. (a+b+1)>>1,
and the NEON, SSE and AVX forms compute that. The scalar forms rounded negative
halves away from zero instead, e.g. (-3, 0) gave -2 instead of -1.
---
 fixedpoint/fixedpoint.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/fixedpoint/fixedpoint.h b/fixedpoint/fixedpoint.h
index 56e95c0..27b2ace 100644
--- a/fixedpoint/fixedpoint.h
+++ b/fixedpoint/fixedpoint.h
@@ -238,8 +238,7 @@ inline std::int32_t RoundingHalfSum(std::int32_t a, std::int32_t b) {
   std::int64_t a64 = a;
   std::int64_t b64 = b;
   std::int64_t sum = a64 + b64;
-  std::int64_t sign = sum >= 0 ? 1 : -1;
-  return static_cast<std::int32_t>((sum + sign) / 2);
+  return static_cast<std::int32_t>((sum + 1) >> 1);
 }
 
 template <>
@@ -247,8 +246,7 @@ inline std::int16_t RoundingHalfSum(std::int16_t a, std::int16_t b) {
   std::int32_t a32 = a;
   std::int32_t b32 = b;
   std::int32_t sum = a32 + b32;
-  std::int32_t sign = sum >= 0 ? 1 : -1;
-  return static_cast<std::int16_t>((sum + sign) / 2);
+  return static_cast<std::int16_t>((sum + 1) >> 1);
 }
 
 template <typename IntegerType>
-- 
2.43.0


From 97eff9dc24aaf02e0e70753d64fdbf0e90ec199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:41 +0000
Subject: [PATCH 03/20] fix: SSE and AVX All() and AVX Any() test the mask
 instead of always being true

testc(a, a) is 1 for every a, so All() and operator== on SSE/AVX fixed-point
values always returned true; ~testz(a, a) is never 0, so AVX Any() always
returned true.
---
 fixedpoint/fixedpoint_avx.h | 8 ++++----
 fixedpoint/fixedpoint_sse.h | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index f3fe732..d5e0a98 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -257,22 +257,22 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m256i a) {
-  return _mm256_testc_si256(a, a);
+  return _mm256_testc_si256(a, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x16_m256i a) {
-  return _mm256_testc_si256(a.v, a.v);
+  return _mm256_testc_si256(a.v, _mm256_set1_epi32(-1));
 }
 
 template <>
 inline bool Any(__m256i a) {
-  return BitNot(_mm256_testz_si256(a, a));
+  return !_mm256_testz_si256(a, a);
 }
 
 template <>
 inline bool Any(int16x16_m256i a) {
-  return BitNot(_mm256_testz_si256(a.v, a.v));
+  return !_mm256_testz_si256(a.v, a.v);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index fbaa26a..c5843a7 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -260,12 +260,12 @@ Hence, All means all 128bits set, and Any means any bit set.
 
 template <>
 inline bool All(__m128i a) {
-  return _mm_testc_si128(a, a);
+  return _mm_testc_si128(a, _mm_set1_epi32(-1));
 }
 
 template <>
 inline bool All(int16x8_m128i a) {
-  return _mm_testc_si128(a.v, a.v);
+  return _mm_testc_si128(a.v, _mm_set1_epi32(-1));
 }
 
 template <>
-- 
2.43.0


From d3368dcd425f6e7df13bf0b3158a7cbc09cf882a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:41 +0000
Subject: [PATCH 04/20] fix: SSE and AVX int32
 SaturatingRoundingDoublingHighMul saturate -1 * -1 to the maximum

INT32_MIN * INT32_MIN returned INT32_MIN; it is documented to saturate to the
maximum value, as the scalar, NEON and all int16 forms do.
---
 fixedpoint/fixedpoint_avx.h | 5 +++--
 fixedpoint/fixedpoint_sse.h | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index d5e0a98..2f4ca98 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -315,13 +315,14 @@ inline int16x16_m256i RoundingHalfSum(int16x16_m256i a, int16x16_m256i b) {
 
 template <>
 inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
-  __m256i min, saturation_mask, a0_a2, a1_a3, b0_b2, b1_b3;
+  __m256i min, max, saturation_mask, a0_a2, a1_a3, b0_b2, b1_b3;
   __m256i a0b0_a2b2, a1b1_a3b3, a0b0_a2b2_rounded, a1b1_a3b3_rounded;
   __m256i a0b0_a2b2_rounded_2x, a1b1_a3b3_rounded_2x, result;
   __m256i nudge;
 
   // saturation only happen if a == b == INT_MIN
   min = _mm256_set1_epi32(std::numeric_limits<std::int32_t>::min());
+  max = _mm256_set1_epi32(std::numeric_limits<std::int32_t>::max());
   saturation_mask = BitAnd(MaskIfEqual(a, b), MaskIfEqual(a, min));
 
   // a = a0 | a1 | a2 | a3
@@ -348,7 +349,7 @@ inline __m256i SaturatingRoundingDoublingHighMul(__m256i a, __m256i b) {
                               a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(saturation_mask, max, result);
 }
 
 template <>
diff --git a/fixedpoint/fixedpoint_sse.h b/fixedpoint/fixedpoint_sse.h
index c5843a7..e315c26 100644
--- a/fixedpoint/fixedpoint_sse.h
+++ b/fixedpoint/fixedpoint_sse.h
@@ -319,13 +319,14 @@ inline int16x8_m128i RoundingHalfSum(int16x8_m128i a, int16x8_m128i b) {
 
 template <>
 inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
-  __m128i min, saturation_mask, a0_a2, a1_a3, b0_b2, b1_b3;
+  __m128i min, max, saturation_mask, a0_a2, a1_a3, b0_b2, b1_b3;
   __m128i a0b0_a2b2, a1b1_a3b3, a0b0_a2b2_rounded, a1b1_a3b3_rounded;
   __m128i a0b0_a2b2_rounded_2x, a1b1_a3b3_rounded_2x, result;
   __m128i nudge;
 
   // saturation only happen if a == b == INT_MIN
   min = _mm_set1_epi32(std::numeric_limits<std::int32_t>::min());
+  max = _mm_set1_epi32(std::numeric_limits<std::int32_t>::max());
   saturation_mask = BitAnd(MaskIfEqual(a, b), MaskIfEqual(a, min));
 
   // a = a0 | a1 | a2 | a3
@@ -352,7 +353,7 @@ inline __m128i SaturatingRoundingDoublingHighMul(__m128i a, __m128i b) {
                            a1b1_a3b3_rounded_2x, 0xcc);
 
   // saturate those which overflowed
-  return SelectUsingMask(saturation_mask, min, result);
+  return SelectUsingMask(saturation_mask, max, result);
 }
 
 template <>
-- 
2.43.0


From 64c6c8684e861b1d21684cd9866d5c93a43a643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:39 +0000
Subject: [PATCH 05/20] fix: AVX int32 SelectUsingMask selects bit by bit, as
 documented

---
 fixedpoint/fixedpoint_avx.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index 2f4ca98..f0b8bef 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -152,9 +152,10 @@ inline int16x16_m256i ShiftRight(int16x16_m256i a, int offset) {
 template <>
 inline __m256i SelectUsingMask(__m256i if_mask, __m256i then_val,
                                __m256i else_val) {
-  return _mm256_castps_si256(_mm256_blendv_ps(_mm256_castsi256_ps(else_val),
-                                              _mm256_castsi256_ps(then_val),
-                                              _mm256_castsi256_ps(if_mask)));
+  // Bitwise, like the generic form: a blend would only look at the sign bit of
+  // each lane of the mask.
+  return _mm256_or_si256(_mm256_and_si256(if_mask, then_val),
+                         _mm256_andnot_si256(if_mask, else_val));
 }
 
 template <>
-- 
2.43.0


From 6ecf4527110ac0cb0a5301933b71d03b3cf3750d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:44:47 +0000
Subject: [PATCH 06/20] fix: AVX __m256i has eight int32 lanes, not four

---
 fixedpoint/fixedpoint_avx.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/fixedpoint/fixedpoint_avx.h b/fixedpoint/fixedpoint_avx.h
index f0b8bef..c5fb083 100644
--- a/fixedpoint/fixedpoint_avx.h
+++ b/fixedpoint/fixedpoint_avx.h
@@ -38,9 +38,7 @@ inline int16x16_m256i to_int16x16_m256i(__m256i w) {
 template <>
 struct FixedPointRawTypeTraits<__m256i> {
   typedef std::int32_t ScalarRawType;
-  // TODO: This can actually support up to 8 lanes, so we should either
-  // change to 8 or create int32x8_m256i struct to handle that case.
-  static const int kLanes = 4;
+  static const int kLanes = 8;
 };
 
 template <>
-- 
2.43.0


From 65be5f89d86609ad7f472e90eccf99d94f84cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:03 +0000
Subject: [PATCH 07/20] fix: meta gemm_q8/gemv_q8 with shift 0 no longer
 compute 1 << -1 as rounding offset

---
 meta/legacy_single_thread_gemm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/legacy_single_thread_gemm.h b/meta/legacy_single_thread_gemm.h
index d662e47..1a79099 100644
--- a/meta/legacy_single_thread_gemm.h
+++ b/meta/legacy_single_thread_gemm.h
@@ -63,7 +63,8 @@ void gemm_q8_strided(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      shift > 0 ? (1 << (shift - 1)) : 0;
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = result_stride;
@@ -107,7 +108,8 @@ void gemv_q8(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      shift > 0 ? (1 << (shift - 1)) : 0;
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = n;
-- 
2.43.0


From 5b47504bd9af0ec75ac7888ecd78e50202ec3031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:19 +0000
Subject: [PATCH 08/20] fix: meta gemm scratch sizes cover the padding and sums
 of shallow, wide right-hand sides

---
 meta/legacy_multi_thread_gemm.h | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/meta/legacy_multi_thread_gemm.h b/meta/legacy_multi_thread_gemm.h
index a1e48c3..33d98d9 100644
--- a/meta/legacy_multi_thread_gemm.h
+++ b/meta/legacy_multi_thread_gemm.h
@@ -30,6 +30,25 @@ namespace internal {
 
 const std::int32_t kMaxCacheFriendlySize = 256 * 1024;
 
+inline std::int32_t OptimalCacheFriendlyN(std::int32_t k) {
+  return std::max(1, 4 * (kMaxCacheFriendlySize / (k * 4)));
+}
+
+// Scratch needed by CacheFriendlyMatrixMatrix below: a packed strip of 2 lhs
+// rows and all the packed strips of 4 rhs rows of its largest chunk. Each strip
+// is padded to whole packs of 8 and carries its sums, which for small depths
+// takes several times the size of the data itself.
+inline std::int32_t CacheFriendlyScratch(std::int32_t n, std::int32_t k) {
+  const std::int32_t max_n =
+      n * k > kMaxCacheFriendlySize
+          ? std::min(n, 2 * OptimalCacheFriendlyN(k) - 1)
+          : n;
+  const std::int32_t lhs_strip = 32 + AlignTo<32>(2 * AlignTo<8>(k));
+  const std::int32_t rhs_strip = 32 + AlignTo<32>(4 * AlignTo<8>(k));
+  return std::max(4 * kMaxCacheFriendlySize,
+                  AlignTo<64>(lhs_strip + (max_n + 3) / 4 * rhs_strip));
+}
+
 template <typename IN_TYPE, typename OUT_TYPE, typename F>
 void CacheFriendlyMatrixMatrix(std::uint8_t* scratch, const IN_TYPE* lhs,
                                const IN_TYPE* rhs, std::int32_t m,
@@ -37,8 +56,7 @@ void CacheFriendlyMatrixMatrix(std::uint8_t* scratch, const IN_TYPE* lhs,
                                std::int32_t result_stride, const F& operation) {
   const std::int32_t rhs_size = n * k * sizeof(IN_TYPE);
   if (rhs_size > kMaxCacheFriendlySize) {
-    const std::int32_t optimal_n =
-        std::max(1, 4 * (kMaxCacheFriendlySize / (k * 4)));
+    const std::int32_t optimal_n = OptimalCacheFriendlyN(k);
     const std::int32_t chunks_count_less_one = n / optimal_n - 1;
     const std::int32_t chunk_size = optimal_n * k;
     for (int i = 0; i < chunks_count_less_one; ++i) {
@@ -84,7 +102,7 @@ class GemmQuantized8BitOperation : public Quantized8BitOperation {
 
   static std::int32_t ScratchPerThread(std::int32_t m, std::int32_t n,
                                        std::int32_t k) {
-    return 4 * kMaxCacheFriendlySize;
+    return CacheFriendlyScratch(n, k);
   }
 };
 
@@ -114,7 +132,7 @@ class GemmFloatOperation : public FloatOperation {
 
   static std::int32_t ScratchPerThread(std::int32_t m, std::int32_t n,
                                        std::int32_t k) {
-    return 4 * kMaxCacheFriendlySize;
+    return CacheFriendlyScratch(n, k);
   }
 };
 
@@ -143,7 +161,7 @@ class GemmInt32Operation : public Int32Operation {
 
   static std::int32_t ScratchPerThread(std::int32_t m, std::int32_t n,
                                        std::int32_t k) {
-    return 4 * kMaxCacheFriendlySize;
+    return CacheFriendlyScratch(n, k);
   }
 };
 
-- 
2.43.0


From 11ee66bc52328b36f8e962481972c47d3e49ddfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:46 +0000
Subject: [PATCH 09/20] fix: meta tasks refer to the caller's operation, not to
 a lambda's dead copy of it

---
 meta/legacy_multi_thread_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/legacy_multi_thread_common.h b/meta/legacy_multi_thread_common.h
index d4cec6f..65a2003 100644
--- a/meta/legacy_multi_thread_common.h
+++ b/meta/legacy_multi_thread_common.h
@@ -135,7 +135,7 @@ void MultiThreadedMatrixMatrix(gemmlowp::WorkersPool* pool,
   std::vector<Task*> tasks;
   std::for_each(
       task_rects.begin(), task_rects.end(),
-      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, operation,
+      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, &operation,
        scratch_per_thread](internal::TaskRect& rect) {
         tasks.push_back(new internal::MetaTask<IN_TYPE, OUT_TYPE, F>(
             task_scratch, lhs, rhs, rect, k, result, result_stride, operation));
-- 
2.43.0


From 67357f5b0c9907fc7e78cf305b0dadeb90475aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:47 +0000
Subject: [PATCH 10/20] fix: meta cache-friendly executors keep every task
 within the scratch they ask for

---
 meta/single_thread_gemm.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/meta/single_thread_gemm.h b/meta/single_thread_gemm.h
index 258de69..1c2a99b 100644
--- a/meta/single_thread_gemm.h
+++ b/meta/single_thread_gemm.h
@@ -413,6 +413,14 @@ inline int CalculateCacheFriendlyTasksCount(int cache_size, int constant_memory,
   return (chunks_count + available_chunks - 1) / available_chunks;
 }
 
+// Dimension of all the tasks but the last, in whole chunks so that no task,
+// including the last one, has more of them than the cache has room for.
+inline int CalculateCacheFriendlyTaskDim(int tasks_count, int total_dim,
+                                         int chunk_dim) {
+  const int chunks_count = (total_dim + chunk_dim - 1) / chunk_dim;
+  return chunk_dim * ((chunks_count + tasks_count - 1) / tasks_count);
+}
+
 template <typename Params>
 inline void UpdateCacheFriendlyTask(int m_offset, int m, int n_offset, int n,
                                     const Params& params, Params* task_params) {
@@ -467,7 +475,8 @@ class GemmExecutorPackRHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.n / cache_friendly_tasks_count;
+    const int cache_friendly_dim = internal::CalculateCacheFriendlyTaskDim(
+        cache_friendly_tasks_count, params.n, n);
 
     P task_params = params;
     for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
@@ -516,7 +525,8 @@ class GemmExecutorPackLHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.m / cache_friendly_tasks_count;
+    const int cache_friendly_dim = internal::CalculateCacheFriendlyTaskDim(
+        cache_friendly_tasks_count, params.m, m);
 
     P task_params = params;
     for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
-- 
2.43.0


From e8a8c9610983f62a0d73a6fb9a5d7f0ede5342f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:42 +0000
Subject: [PATCH 11/20] fix: aarch64 Requantize kernel for 7 leftovers declares
 that it clobbers v9

---
 meta/transform_kernels_arm_64.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/transform_kernels_arm_64.h b/meta/transform_kernels_arm_64.h
index 86b5411..426b2d3 100644
--- a/meta/transform_kernels_arm_64.h
+++ b/meta/transform_kernels_arm_64.h
@@ -847,7 +847,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 7>::Transform(
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
         [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
-      : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "cc", "memory");
+      : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc", "memory");
 }
 
 template <>
-- 
2.43.0


From 1d45516f530d2811890b63160b169739086abad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:43 +0000
Subject: [PATCH 12/20] fix: EightBitIntGemm fast path takes only vectors whose
 elements are adjacent

---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index a8d9b43..b83fb15 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -192,8 +192,9 @@ bool IsRowMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one row vector? (a vector is both row and column major)
-  if (rows == 1) {
+  // Is it a nicely packed one row vector? (a vector is both row and column
+  // major)
+  if (rows == 1 && (transpose || stride == 1)) {
     return true;
   }
 
@@ -206,8 +207,9 @@ bool IsColumnMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one column vector? (a vector is both row and column major)
-  if (cols == 1) {
+  // Is it a nicely packed one column vector? (a vector is both row and column
+  // major)
+  if (cols == 1 && (!transpose || stride == 1)) {
     return true;
   }
 
-- 
2.43.0


From 8fa5539db34ffb4537149f6ac48465543928154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:53 +0000
Subject: [PATCH 13/20] fix: unregister exiting threads from the profiler
 before freeing their label stack

Each thread created a key of its own to get a callback at its exit. The key of
the ThreadInfo itself is older, so its destructor runs first and frees the label
stack while the profiler may still sample it; and as these keys were never
deleted, the process ran out of them after about a thousand threads, from which
point exited threads stayed registered for good.
---
 profiling/instrumentation.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/profiling/instrumentation.h b/profiling/instrumentation.h
index c1f852e..90e25ed 100644
--- a/profiling/instrumentation.h
+++ b/profiling/instrumentation.h
@@ -159,19 +159,15 @@ inline std::set<ThreadInfo*>& ThreadsUnderProfiling() {
 }
 
 struct ThreadInfo {
-  pthread_key_t key;  // used only to get a callback at thread exit.
   ProfilingStack stack;
 
-  ThreadInfo() {
-    pthread_key_create(&key, ThreadExitCallback);
-    pthread_setspecific(key, this);
-    stack.lock = new Mutex();
-  }
+  ThreadInfo() { stack.lock = new Mutex(); }
 
-  static void ThreadExitCallback(void* ptr) {
+  // Called at thread exit, see ThreadLocalThreadInfo. The profiler thread must
+  // no longer see this thread by the time its stack is destroyed.
+  ~ThreadInfo() {
     ScopedLock sl(GlobalMutexes::Profiler());
-    ThreadInfo* self = static_cast<ThreadInfo*>(ptr);
-    ThreadsUnderProfiling().erase(self);
+    ThreadsUnderProfiling().erase(this);
   }
 };
 
-- 
2.43.0


From f46cdfc48ec2adc05dff310c477e2529d1c7db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:16 +0000
Subject: [PATCH 14/20] fix: split the rows of a multi-threaded product without
 overflowing

rows * (n + 1) exceeded 32 bits when rows * threads >= 2^31 (for example 12
million rows with 180 threads): tasks got negative or overlapping row ranges
and part of the result was never written.
---
 internal/multi_thread_gemm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/multi_thread_gemm.h b/internal/multi_thread_gemm.h
index 97183e7..2de6dde 100644
--- a/internal/multi_thread_gemm.h
+++ b/internal/multi_thread_gemm.h
@@ -695,7 +695,8 @@ void MultiThreadGemm(GemmContextType* context, const KernelBase& kernel,
     for (int n = 0; n < task_count; ++n) {
       int start_row = next_start_row;
       next_start_row = std::min(
-          rows, RoundUp<KernelFormat::kRows>(rows * (n + 1) / task_count));
+          rows, RoundUp<KernelFormat::kRows>(static_cast<int>(
+                    static_cast<std::int64_t>(rows) * (n + 1) / task_count)));
 
       int block_rows = next_start_row - start_row;
       auto lhs_block = lhs.block(start_row, 0, block_rows, depth);
-- 
2.43.0


From 25c60b54e8270135434557994739ff64025fd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:59 +0000
Subject: [PATCH 15/20] fix: free the std::thread that stands in for a joined
 pthread

On systems without pthread every worker thread leaked its std::thread object
when its context was destroyed.
---
 profiling/pthread_everywhere.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/pthread_everywhere.h b/profiling/pthread_everywhere.h
index 2569bbc..8113fc6 100644
--- a/profiling/pthread_everywhere.h
+++ b/profiling/pthread_everywhere.h
@@ -49,7 +49,10 @@ inline void pthread_create(pthread_t *thread, std::nullptr_t,
                            void *(*start_routine)(void *), void *arg) {
   *thread = new std::thread(start_routine, arg);
 }
-inline void pthread_join(pthread_t thread, std::nullptr_t) { thread->join(); }
+inline void pthread_join(pthread_t thread, std::nullptr_t) {
+  thread->join();
+  delete thread;
+}
 inline void pthread_mutex_init(pthread_mutex_t *mutex, std::nullptr_t) {
   *mutex = new std::mutex;
 }
-- 
2.43.0


From 32ff4ab5bd04b26b3d80427e9dbdb1daf7bb149a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:49:49 +0000
Subject: [PATCH 16/20] fix: float EightBitIntGemm with depth zero returned
 leftover scratch data

A product of depth zero writes nothing, and the conversion to float then
copied what an earlier call had left in the persistent scratch buffer (or
uninitialized memory) to the result. Leave the result alone, as the 8-bit
entry point does.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index b83fb15..d67528b 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -355,6 +355,12 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   }
 #endif
 
+  if (m == 0 || n == 0 || k == 0) {
+    // Vacuous GEMM: the product below is a no-op and the scratch memory holds
+    // whatever earlier calls left there.
+    return;
+  }
+
   // TODO(maciekc): implement a float output stage, get rid of scratch memory.
   Scratch* scratch = GetOrCreateGlobalScratch();
   if (transpose_c) {
-- 
2.43.0


From 047196614f05e471114ba790aad01abf733f331a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 12:50:11 +0000
Subject: [PATCH 17/20] fix: float EightBitIntGemm overflows its scratch size
 for large leading dimensions

The scratch copy of the result had the caller's leading dimension, and its
size was computed in int and passed as int32: a leading dimension around
2^29 or more (of a result of any size) gave a scratch buffer that was too
small, or none. Store the copy packed, and compute its size in size_t.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index d67528b..e45da86 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -144,7 +144,7 @@ class Scratch {
  public:
   Scratch() : buffer_(), buffer_32_(nullptr), size_(0) {}
 
-  void AssureSize(std::int32_t required_size) {
+  void AssureSize(std::size_t required_size) {
     if (size_ >= required_size) {
       return;
     }
@@ -167,7 +167,7 @@ class Scratch {
  private:
   std::unique_ptr<std::uint8_t[]> buffer_;
   std::uint8_t* buffer_32_;
-  std::int32_t size_;
+  std::size_t size_;
 };
 
 Scratch* global_scratch = nullptr;
@@ -363,17 +363,14 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
 
   // TODO(maciekc): implement a float output stage, get rid of scratch memory.
   Scratch* scratch = GetOrCreateGlobalScratch();
-  if (transpose_c) {
-    scratch->AssureSize(m * ldc * sizeof(std::int32_t));
-  } else {
-    scratch->AssureSize(n * ldc * sizeof(std::int32_t));
-  }
+  const int temp_ldc = transpose_c ? n : m;
+  scratch->AssureSize(static_cast<std::size_t>(m) * n * sizeof(std::int32_t));
   std::int32_t* temp_c = reinterpret_cast<std::int32_t*>(scratch->buffer());
 
 #define GEMMLOWP_HANDLE_INT32_CASE(ta, tb, tc)                               \
   if (transpose_a == ta && transpose_b == tb && transpose_c == tc) {         \
     EightBitIntGemmInt32Impl<ta, tb, tc>(context, m, n, k, a, a_offset, lda, \
-                                         b, b_offset, ldb, temp_c, ldc,      \
+                                         b, b_offset, ldb, temp_c, temp_ldc, \
                                          bit_depth);                         \
   }
 
@@ -392,7 +389,7 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
     // Row major.
     for (int i = 0; i < m; ++i) {
       float* dest_row = c + i * ldc;
-      std::int32_t* src_row = temp_c + i * ldc;
+      std::int32_t* src_row = temp_c + i * temp_ldc;
       for (int j = 0; j < n; ++j) {
         dest_row[j] = static_cast<float>(src_row[j]) * c_offset;
       }
@@ -401,7 +398,7 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
     // Column major.
     for (int i = 0; i < n; ++i) {
       float* dest_column = c + i * ldc;
-      std::int32_t* src_column = temp_c + i * ldc;
+      std::int32_t* src_column = temp_c + i * temp_ldc;
       for (int j = 0; j < m; ++j) {
         dest_column[j] = static_cast<float>(src_column[j]) * c_offset;
       }
-- 
2.43.0


From cf992a47be8085284a0b0339399b46dca6ded7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:12 +0000
Subject: [PATCH 18/20] fix: 4.25-bit kernel of the standalone testbed
 processed two depth steps per step

The loop body was there twice per 32 levels of depth, and the loop over blocks
of 512 levels ended on the flags of the inner counter: results were wrong for
almost every depth and the testbed aborted on its first kernel.
---
 standalone/neon-gemm-kernel-benchmark.cc | 43 +-----------------------
 1 file changed, 1 insertion(+), 42 deletions(-)

diff --git a/standalone/neon-gemm-kernel-benchmark.cc b/standalone/neon-gemm-kernel-benchmark.cc
index 9146179..986ef93 100644
--- a/standalone/neon-gemm-kernel-benchmark.cc
+++ b/standalone/neon-gemm-kernel-benchmark.cc
@@ -3263,48 +3263,6 @@ struct NEON_64bit_GEMM_Int425Operands {
         "ld1 {v7.16b}, [%[lhs_ptr]], #16\n"
         "sadalp v23.8h, v15.16b\n"
 
-        "mul v12.16b, v0.16b, v8.16b\n"
-        "mul v13.16b, v0.16b, v10.16b\n"
-        "ld1 {v0.16b}, [%[lhs_ptr]], #16\n"
-        "mul v14.16b, v2.16b, v8.16b\n"
-        "mul v15.16b, v2.16b, v10.16b\n"
-
-        "mla v12.16b, v1.16b, v9.16b\n"
-        "mla v13.16b, v1.16b, v11.16b\n"
-        "ld1 {v1.16b}, [%[lhs_ptr]], #16\n"
-        "mla v14.16b, v3.16b, v9.16b\n"
-        "ld1 {v2.16b}, [%[lhs_ptr]], #16\n"
-        "mla v15.16b, v3.16b, v11.16b\n"
-        "ld1 {v3.16b}, [%[lhs_ptr]], #16\n"
-
-        "sadalp v16.8h, v12.16b\n"
-        "sadalp v17.8h, v13.16b\n"
-        "sadalp v18.8h, v14.16b\n"
-        "sadalp v19.8h, v15.16b\n"
-
-        "mul v12.16b, v4.16b, v8.16b\n"
-        "mul v13.16b, v4.16b, v10.16b\n"
-        "ld1 {v4.16b}, [%[lhs_ptr]], #16\n"
-        "mul v14.16b, v6.16b, v8.16b\n"
-        "ld1 {v8.16b}, [%[rhs_ptr]], #16\n"
-        "mul v15.16b, v6.16b, v10.16b\n"
-
-        "mla v12.16b, v5.16b, v9.16b\n"
-        "mla v13.16b, v5.16b, v11.16b\n"
-        "ld1 {v5.16b}, [%[lhs_ptr]], #16\n"
-        "mla v14.16b, v7.16b, v9.16b\n"
-        "ld1 {v9.16b}, [%[rhs_ptr]], #16\n"
-        "mla v15.16b, v7.16b, v11.16b\n"
-        "ld1 {v10.16b}, [%[rhs_ptr]], #16\n"
-
-        "sadalp v20.8h, v12.16b\n"
-        "ld1 {v11.16b}, [%[rhs_ptr]], #16\n"
-        "sadalp v21.8h, v13.16b\n"
-        "ld1 {v6.16b}, [%[lhs_ptr]], #16\n"
-        "sadalp v22.8h, v14.16b\n"
-        "ld1 {v7.16b}, [%[lhs_ptr]], #16\n"
-        "sadalp v23.8h, v15.16b\n"
-
         "beq " GEMMLOWP_LABEL_32_DEPTH_AFTER_LOOP
         "f\n"
 
@@ -3324,6 +3282,7 @@ struct NEON_64bit_GEMM_Int425Operands {
         "sadalp v30.4s, v22.8h\n"
         "sadalp v31.4s, v23.8h\n"
 
+        "cmp %w[depth], #0\n"
         "bne " GEMMLOWP_LABEL_512_DEPTH_LOOP
         "b\n"
 
-- 
2.43.0


From 0e4a461f9eb9d76b4f1ba9a0f126cfdc94a6a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:43 +0000
Subject: [PATCH 19/20] fix: declare the depth counter that the SSE and AVX2
 kernels count down as in/out

The asm of these kernels decrements run_depth_cells, which it declared as an
input only: a compiler that expands Run() in place may keep using the old
value, and a second call in a row then runs with depth 0 minus 1.
---
 internal/kernel_avx.h |  7 +++----
 internal/kernel_sse.h | 12 +++++-------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/internal/kernel_avx.h b/internal/kernel_avx.h
index 2fe1249..1c55ef3 100644
--- a/internal/kernel_avx.h
+++ b/internal/kernel_avx.h
@@ -40,7 +40,7 @@ struct AVX2_64_Kernel24x8Depth2 : KernelBase {
            std::size_t run_depth) const override {
     ScopedProfilingLabel label("optimized kernel");
     assert(dst_row_stride == 1);
-    const std::int64_t run_depth_cells = run_depth / Format::kDepth;
+    std::int64_t run_depth_cells = run_depth / Format::kDepth;
     const std::int64_t dst_col_stride_q = dst_col_stride;
 
     /* Main loop */
@@ -344,10 +344,9 @@ struct AVX2_64_Kernel24x8Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+r"(run_depth_cells)
         :  // inputs
-        [start_depth] "r"(start_depth), [dst_col_stride_q] "r"(dst_col_stride_q),
-        [run_depth_cells] "r"(run_depth_cells)
+        [start_depth] "r"(start_depth), [dst_col_stride_q] "r"(dst_col_stride_q)
         :  // clobbers
         "cc", "memory", "%ymm0", "%ymm1", "%ymm2", "%ymm3", "%ymm4", "%ymm5", "%ymm6", "%ymm7",
         "%ymm8", "%ymm9", "%ymm10", "%ymm11", "%ymm12", "%ymm13", "%ymm14", "%ymm15", "%r12",
diff --git a/internal/kernel_sse.h b/internal/kernel_sse.h
index ba7959b..5f725f6 100644
--- a/internal/kernel_sse.h
+++ b/internal/kernel_sse.h
@@ -193,10 +193,9 @@ struct SSE4_32_Kernel4x4Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+g"(run_depth_cells)
         :  // inputs
-        [start_depth] "g"(start_depth), [dst_col_stride] "g"(dst_col_stride),
-        [run_depth_cells] "g"(run_depth_cells)
+        [start_depth] "g"(start_depth), [dst_col_stride] "g"(dst_col_stride)
         :  // clobbers
         "cc", "memory", "%xmm0", "%xmm1", "%xmm3", "%xmm2", "%xmm4", "%xmm5",
         "%xmm6", "%xmm7", "%eax", "%ecx");
@@ -219,7 +218,7 @@ struct SSE4_64_Kernel12x4Depth2 : KernelBase {
     ScopedProfilingLabel label("optimized kernel");
     assert(dst_row_stride == 1);
     (void)dst_row_stride;
-    const std::int64_t run_depth_cells = run_depth / Format::kDepth;
+    std::int64_t run_depth_cells = run_depth / Format::kDepth;
     const std::int64_t dst_col_stride_q = dst_col_stride;
 
     /* Main loop */
@@ -501,11 +500,10 @@ struct SSE4_64_Kernel12x4Depth2 : KernelBase {
 
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr)
+        [dst_ptr] "+r"(dst_ptr), [run_depth_cells] "+r"(run_depth_cells)
         :  // inputs
         [start_depth] "r"(start_depth),
-        [dst_col_stride_q] "r"(dst_col_stride_q),
-        [run_depth_cells] "r"(run_depth_cells)
+        [dst_col_stride_q] "r"(dst_col_stride_q)
         :  // clobbers
         "cc", "memory", "%xmm0", "%xmm1", "%xmm3", "%xmm2", "%xmm4", "%xmm5",
         "%xmm6", "%xmm7", "%xmm8", "%xmm9", "%xmm10", "%r12", "%r13", "%r14",
-- 
2.43.0


From c5b6dc8699e1a6727849b833ac162e827b55556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:38 +0000
Subject: [PATCH 20/20] fix: declare the column stride that the NEON kernels
 scale as in/out

The asm of these kernels multiplies dst_col_stride by 4 in its register, but
declared it as an input only: when Run() is expanded in place, a later use of
the stride by the compiler (such as a second call in a row) sees the scaled
value.  The aarch64 int8 kernel and the MSA kernel already declare it so.
---
 internal/kernel_neon.h | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/internal/kernel_neon.h b/internal/kernel_neon.h
index 9859637..0d19a65 100644
--- a/internal/kernel_neon.h
+++ b/internal/kernel_neon.h
@@ -272,10 +272,10 @@ struct NEON_32_Kernel12x4Depth2 : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "r0", "r1",
         // note: someone on internet says that quad registers are
@@ -644,9 +644,10 @@ struct NEON_32_Kernel12x4Depth2Assuming12BitProducts : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth), [dst_col_stride] "r"(dst_col_stride),
+        [start_depth] "r"(start_depth),
         [global_accumulators] "r"(&global_accumulators[0])
         :  // clobbers
         "cc", "memory", "r0", "r1",
@@ -908,10 +909,10 @@ struct NEON_32bit_GEMM_Int8Operands_LhsNonzero : KernelBase {
         "vst1.32 {d10, d11}, [r0]\n"
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [dst_ptr] "+r"(dst_ptr), [run_depth] "+r"(run_depth)
+        [dst_ptr] "+r"(dst_ptr), [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7",
         "d8", "d9", "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17",
@@ -1626,10 +1627,10 @@ struct NEON_64_Kernel12x8Depth2 : KernelBase {
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
         [dst_ptr] "+r"(dst_ptr),
-        [run_depth] "+r"(run_depth)
+        [run_depth] "+r"(run_depth),
+        [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [start_depth] "r"(start_depth),
-        [dst_col_stride] "r"(dst_col_stride)
+        [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6",
         "v7", "v8", "v9", "v10", "v11", "v12", "v13", "v14", "v15", "v16",
@@ -1895,9 +1896,9 @@ struct NEON_64_Kernel12x8Depth4_dotprod : KernelBase {
         "st1 {v31.16b}, [x0]\n"
         :  // outputs
         [lhs_ptr] "+r"(lhs_ptr), [rhs_ptr] "+r"(rhs_ptr),
-        [depth] "+r"(depth)
+        [depth] "+r"(depth), [dst_col_stride] "+r"(dst_col_stride)
         :  // inputs
-        [dst_ptr] "r"(dst_ptr), [dst_col_stride] "r"(dst_col_stride), [start_depth] "r"(start_depth)
+        [dst_ptr] "r"(dst_ptr), [start_depth] "r"(start_depth)
         :  // clobbers
         "cc", "memory", "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "v19", "v20", "v21", "v22",
-- 
2.43.0

