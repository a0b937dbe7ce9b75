// meta_gemm.cc: the ARM meta GEMM against exact integer / float models (C15).
// LEGACY: multi_thread_gemm_{q8,f,i32}, gemv and single-thread strided forms.
// Otherwise: Gemm<> and MultiThreadGemm<> with every executor, both right-hand
// layouts, strides, and scratch of exactly the size the library asks for.
#include <cstdint>
#include <iostream>
#include <map>
#include <memory>
#include <vector>

#ifdef LEGACY
#include "meta/legacy_multi_thread_gemm.h"
#else
#include "meta/multi_thread_gemm.h"
#include "meta/quantized_mul_kernels.h"
#include "meta/single_thread_gemm.h"
#include "meta/streams.h"
#endif
#include "gemm_common.h"
#include "pbt.h"

using pbt::G;
using pbt::Rng;
using pbt::strf;
using namespace gemmlowp::meta;

enum Kind { kQ8, kF, kI32 };
static const char* kKindNames[] = {"q8", "float", "int32"};

struct MetaCase {
  int m, n, k, ls, rs, os;  // strides in elements
  bool rhs_col;
  int32_t lo, ro, sum, mult, shift;
  float scale;
  std::vector<int16_t> l, r;  // l: m x k, r: k x n
  std::vector<int64_t> acc;
};

// Shapes: all residues of the kernel sizes, and depths / widths that cross the
// cache-friendly split and the task split.
inline void meta_shape(G& g, MetaCase* c, bool legacy) {
  const char* cls;
  switch (g.weighted({12, 8, 6, 3, 2, 2})) {
    case 0:
      cls = "tiny"; c->m = g.range(1, 9); c->n = g.range(1, 17); c->k = g.range(1, 33); break;
    case 1:
      cls = "small"; c->m = g.range(1, 40); c->n = g.range(1, 40); c->k = g.range(1, 130); break;
    case 2:
      cls = "vector"; c->k = g.range(1, 2048);
      if (g.boolean()) { c->m = 1; c->n = g.range(1, 90); } else { c->n = 1; c->m = g.range(1, 90); }
      break;
    case 3:
      cls = "deep"; c->k = g.pick<int>({2048, 2047, 2041, 1536, 1535, 1664, 1663, 1024, 1000}) ; c->m = g.range(1, 7); c->n = g.range(1, 30); break;
    case 4: {  // wide: rhs larger than the cache-friendly size, by 1 to 5 times
      cls = "wide";
      c->k = g.pick<int>({64, 100, 333, 1000, 1024, 2000, 2048});
      bool by_rows = !legacy && g.boolean();
      int k8 = (c->k + 7) / 8 * 8, lanes = by_rows ? 2 : 4;
      int per = legacy ? 262144 / c->k : lanes * ((262144 - 32 - k8 * (6 - lanes)) / (32 + lanes * k8));
      c->n = per * static_cast<int>(g.range(1, 5)) + static_cast<int>(g.signed_range(-9, 9));
      c->m = g.range(1, 4);
      if (by_rows) std::swap(c->m, c->n);
      break;
    }
    default: {  // shallow and very wide
      cls = "shallow";
      c->k = g.range(1, 40);
      c->n = g.range(2000, 70000);
      c->m = g.range(1, 3);
      int64_t budget = 1500000;
      if (int64_t(c->m) * c->n * c->k > budget) c->n = static_cast<int>(budget / (c->m * c->k));
      if (!legacy && g.boolean()) std::swap(c->m, c->n);
      break;
    }
  }
  g.label(std::string("shape:") + cls);
}

inline void meta_data(G& g, MetaCase* c, Kind kind, bool offsets) {
  vg::fill_bytes(g.weighted({4, 1, 1, 1, 1, 1, 1}), g.seed64(), 0, 255, c->m, c->k, &c->l);
  vg::fill_bytes(g.weighted({4, 1, 1, 1, 1, 1, 1}), g.seed64(), 0, 255, c->k, c->n, &c->r);
  c->lo = c->ro = 0;
  if (offsets) vg::gen_offsets(g, c->k * (kind == kQ8 ? 2 : 1), false, &c->lo, &c->ro);
  c->sum = 0; c->mult = 1; c->shift = 1; c->scale = 1.0f;
  vg::ref_accum(c->l, c->r, c->m, c->n, c->k, std::vector<int32_t>(c->m, c->lo), std::vector<int32_t>(c->n, c->ro), &c->acc);
  int64_t mn = 0, mx = 0;
  for (int64_t a : c->acc) { mn = std::min(mn, a); mx = std::max(mx, a); }
  if (kind == kQ8) {
    // Keep acc + sum, its product and the rounded product inside 31 bits.
    c->sum = static_cast<int32_t>(g.signed_range(-std::min<int64_t>(1000000, 2000000000 - mx), std::min<int64_t>(1000000, 2000000000 + mn)));
    if (g.chance(1, 3)) c->sum = static_cast<int32_t>(std::max<int64_t>(-2000000000 + -mn, std::min<int64_t>(2000000000 - mx, -mn)));
    int64_t a = std::max<int64_t>(1, std::max(std::llabs(mx + c->sum), std::llabs(mn + c->sum)));
    int64_t mm = std::max<int64_t>(1, 1000000000 / a);
    c->mult = static_cast<int32_t>(g.weighted({1, 3, 1}) == 1 ? g.range(1, std::min<int64_t>(mm, 100000)) : 1);
    if (g.chance(1, 8)) c->mult = -c->mult;
    // A shift that brings the result near the 8-bit range.
    int bits = 0;
    while ((a * std::abs(c->mult)) >> (bits + 8)) bits++;
    c->shift = static_cast<int32_t>(std::max<int64_t>(0, std::min<int64_t>(24, bits + g.signed_range(-3, 3))));
    if (g.chance(1, 10)) c->shift = 0;
  } else if (kind == kF) {
    c->scale = g.pick<float>({1.0f, 0.333f, 1.0f / 1234567.8f, -2.5f, 0.0f, 3.0e-5f, 1.0e10f});
  }
}

inline int32_t expect_q8(const MetaCase& c, int64_t acc) {
  int64_t v = (acc + c.sum) * c.mult + (c.shift > 0 ? int64_t(1) << (c.shift - 1) : 0);
  v >>= c.shift;
  return static_cast<int32_t>(std::max<int64_t>(0, std::min<int64_t>(255, v)));
}

template <typename T> struct OutT;
template <> struct OutT<uint8_t> {
  static const Kind kind = kQ8;
  static uint8_t want(const MetaCase& c, int64_t acc) { return static_cast<uint8_t>(expect_q8(c, acc)); }
};
template <> struct OutT<float> {
  static const Kind kind = kF;
  static float want(const MetaCase& c, int64_t acc) { return static_cast<float>(static_cast<int32_t>(acc)) * c.scale; }
};
template <> struct OutT<int32_t> {
  static const Kind kind = kI32;
  static int32_t want(const MetaCase& c, int64_t acc) { return static_cast<int32_t>(acc); }
};

// Buffers between inaccessible pages.
template <typename T>
struct Buffers {
  pbt::Guarded lhs, rhs, out, scratch;
  void init(G& g, const MetaCase& c, size_t scratch_bytes) {
    bool e1 = g.chance(3, 4), e2 = g.chance(3, 4), e3 = g.chance(3, 4);
    lhs.alloc(size_t(c.m - 1) * c.ls + c.k, e1);
    rhs.alloc(c.rhs_col ? size_t(c.k - 1) * c.rs + c.n : size_t(c.n - 1) * c.rs + c.k, e2);
    out.alloc((size_t(c.m - 1) * c.os + c.n) * sizeof(T), e3, sizeof(T));
    scratch.alloc(scratch_bytes, true, 32);
    Rng r(g.seed64());
    for (size_t i = 0; i < lhs.size(); i++) lhs.data()[i] = r.below(256);
    for (size_t i = 0; i < rhs.size(); i++) rhs.data()[i] = r.below(256);
    for (int i = 0; i < c.m; i++)
      for (int l = 0; l < c.k; l++) lhs.data()[size_t(i) * c.ls + l] = static_cast<uint8_t>(c.l[size_t(i) * c.k + l]);
    for (int j = 0; j < c.n; j++)
      for (int l = 0; l < c.k; l++)
        rhs.data()[c.rhs_col ? size_t(l) * c.rs + j : size_t(j) * c.rs + l] = static_cast<uint8_t>(c.r[size_t(l) * c.n + j]);
    for (size_t i = 0; i < out.size(); i++) out.data()[i] = 0xA5;
    lhs.readonly();
    rhs.readonly();
  }
  void check(G& g, const MetaCase& c, const char* what) {
    const T* o = reinterpret_cast<const T*>(out.data());
    for (int i = 0; i < c.m; i++)
      for (int j = 0; j < c.n; j++) {
        T want = OutT<T>::want(c, c.acc[size_t(i) * c.n + j]), got = o[size_t(i) * c.os + j];
        if (memcmp(&want, &got, sizeof(T)) && !(got == want))
          g.fail("%s: result(%d,%d) = %.9g expected %.9g (accumulator %lld)", what, i, j, (double)got, (double)want,
                 (long long)c.acc[size_t(i) * c.n + j]);
      }
    for (int i = 0; i < c.m - 1; i++)
      for (size_t b = (size_t(i) * c.os + c.n) * sizeof(T); b < (size_t(i) + 1) * c.os * sizeof(T); b++)
        if (out.data()[b] != 0xA5) g.fail("%s: wrote between result rows %d and %d", what, i, i + 1);
    if (!out.slack_intact()) g.fail("%s: wrote outside the result", what);
    if (!scratch.slack_intact()) g.fail("%s: wrote outside the scratch buffer", what);
  }
};

inline std::string describe_case(const MetaCase& c, Kind kind, const char* how, int threads) {
  std::string d = strf("%s %s %dx%dx%d strides %d,%d,%d threads %d offsets %d,%d", how, kKindNames[kind], c.m, c.n, c.k, c.ls, c.rs, c.os, threads, c.lo, c.ro);
  if (kind == kQ8) d += strf(" sum %d mult %d shift %d", c.sum, c.mult, c.shift);
  if (kind == kF) d += strf(" scale %g", c.scale);
  return d;
}

inline int gen_threads(G& g) { return g.chance(1, 2) ? 1 : g.pick<int>({2, 3, 4, 5, 8, 0}); }

#ifdef LEGACY
// ---- legacy ---------------------------------------------------------------------
template <typename T> struct Api;
template <> struct Api<uint8_t> {
  static int scratch(int m, int n, int k, int t) { return gemm_q8_scratch(m, n, k, t); }
  static int vscratch(int m, int n, int k, int t) { return gemv_q8_scratch(m, n, k, t); }
  static int per_thread(int m, int n, int k) { return internal::GemmQuantized8BitOperation::ScratchPerThread(m, n, k); }
  static void mt(gemmlowp::WorkersPool* p, int t, uint8_t* s, const uint8_t* l, const uint8_t* r, const MetaCase& c, uint8_t* o) {
    multi_thread_gemm_q8(p, t, s, l, r, c.m, c.n, c.k, c.lo, c.ro, c.sum, c.mult, c.shift, o);
  }
  static void mtv(gemmlowp::WorkersPool* p, int t, uint8_t* s, const uint8_t* l, const uint8_t* r, const MetaCase& c, uint8_t* o) {
    multi_thread_gemv_q8(p, t, s, l, r, c.n, c.k, c.lo, c.ro, c.sum, c.mult, c.shift, o);
  }
};
template <> struct Api<float> {
  static int scratch(int m, int n, int k, int t) { return gemm_f_scratch(m, n, k, t); }
  static int vscratch(int m, int n, int k, int t) { return gemv_f_scratch(m, n, k, t); }
  static void mt(gemmlowp::WorkersPool* p, int t, uint8_t* s, const uint8_t* l, const uint8_t* r, const MetaCase& c, float* o) {
    multi_thread_gemm_f(p, t, s, l, r, c.m, c.n, c.k, c.lo, c.ro, c.scale, o);
  }
  static void mtv(gemmlowp::WorkersPool* p, int t, uint8_t* s, const uint8_t* l, const uint8_t* r, const MetaCase& c, float* o) {
    multi_thread_gemv_f(p, t, s, l, r, c.n, c.k, c.lo, c.ro, c.scale, o);
  }
};
template <> struct Api<int32_t> {
  static int scratch(int m, int n, int k, int t) { return gemm_i32_scratch(m, n, k, t); }
  static int vscratch(int m, int n, int k, int t) { return gemv_i32_scratch(m, n, k, t); }
  static void mt(gemmlowp::WorkersPool* p, int t, uint8_t* s, const uint8_t* l, const uint8_t* r, const MetaCase& c, int32_t* o) {
    multi_thread_gemm_i32(p, t, s, l, r, c.m, c.n, c.k, c.lo, c.ro, o);
  }
  static void mtv(gemmlowp::WorkersPool* p, int t, uint8_t* s, const uint8_t* l, const uint8_t* r, const MetaCase& c, int32_t* o) {
    multi_thread_gemv_i32(p, t, s, l, r, c.n, c.k, c.lo, c.ro, o);
  }
};

template <typename T>
void legacy(G& g) {
  const Kind kind = OutT<T>::kind;
  MetaCase c;
  meta_shape(g, &c, true);
  bool gemv = g.chance(1, 4);
  if (gemv) {
    c.m = 1;
  }
  meta_data(g, &c, kind, true);
  c.ls = c.rs = c.k;
  c.os = c.n;
  c.rhs_col = false;
  int threads = gen_threads(g);
  g.describe(describe_case(c, kind, gemv ? "multi_thread_gemv" : "multi_thread_gemm", threads));
  g.label(strf("kind:%s", kKindNames[kind]));
  g.label(threads == 1 ? "single thread" : "multi thread");
  g.nontrivial(true);
  g.add_evals(uint64_t(c.m) * c.n);
  Buffers<T> b;
  b.init(g, c, gemv ? Api<T>::vscratch(c.m, c.n, c.k, threads) : Api<T>::scratch(c.m, c.n, c.k, threads));
  {
    gemmlowp::WorkersPool pool;
    if (gemv)
      Api<T>::mtv(&pool, threads, b.scratch.data(), b.lhs.data(), b.rhs.data(), c, reinterpret_cast<T*>(b.out.data()));
    else
      Api<T>::mt(&pool, threads, b.scratch.data(), b.lhs.data(), b.rhs.data(), c, reinterpret_cast<T*>(b.out.data()));
  }
  b.check(g, c, gemv ? "multi_thread_gemv" : "multi_thread_gemm");
}
void prop_legacy(G& g) {
  switch (g.draw(3)) {
    case 0: legacy<uint8_t>(g); return;
    case 1: legacy<float>(g); return;
    default: legacy<int32_t>(g); return;
  }
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"legacy", prop_legacy}}); }

#else
// ---- new interface --------------------------------------------------------------
template <typename T> struct KernelOf;
template <> struct KernelOf<uint8_t> { typedef QuantizedStaticPreprocessed K; };
template <> struct KernelOf<float> { typedef QuantizedStaticPreprocessedAsFloat K; };
template <> struct KernelOf<int32_t> { typedef QuantizedStaticPreprocessedAsInt32 K; };

inline void set_kernel(const MetaCase& c, QuantizedStaticPreprocessed* k) {
  k->count = c.k;
  k->multiplicative_offset = c.mult;
  k->rounding_offset = c.shift > 0 ? 1 << (c.shift - 1) : 0;
  k->shift = -c.shift;
}
inline void set_kernel(const MetaCase& c, QuantizedStaticPreprocessedAsFloat* k) { k->count = c.k; k->scale = c.scale; }
inline void set_kernel(const MetaCase& c, QuantizedStaticPreprocessedAsInt32* k) { k->count = c.k; }

template <typename T, typename Right, typename Executor, int KM, int KN>
void modern(G& g, const char* name) {
  typedef GemmParams<uint8_t, T, RowMajorWithSum, Right, typename KernelOf<T>::K, RowMajor> Params;
  typedef SimpleContext<gemmlowp::WorkersPool> Context;
  const Kind kind = OutT<T>::kind;
  MetaCase c;
  meta_shape(g, &c, false);
  // Packed operands beyond the cache size, so that the executor splits the work.
  bool left = strstr(name, "PackLHSCache"), right = strstr(name, "PackRHSCache");
  if ((left || right) && g.chance(1, 3)) {
    int& big = left ? c.m : c.n;
    int& small = left ? c.n : c.m;
    c.k = g.range(150, 2048);
    big = static_cast<int>(256 * 1024 * g.range(100, 330) / 100 / c.k) + static_cast<int>(g.range(0, 9));
    small = g.range(1, 6);
    g.label("shape:beyond cache");
  }
  c.rhs_col = std::is_same<Right, ColumnMajorWithSum>::value;
  meta_data(g, &c, kind, true);
  vg::Shape sh;
  sh.m = c.m; sh.n = c.n; sh.k = c.k;
  int rin = c.rhs_col ? c.n : c.k;
  auto pad = [&](int outer, int inner) {
    int p = vg::gen_pad(g, outer, inner, true, sh);
    // the longest pads only where the memory stays small
    return p > 200 && int64_t(outer) * p > 2000000 ? p % 61 : p;
  };
  c.ls = c.k + pad(c.m, c.k);
  c.rs = rin + pad(c.rhs_col ? c.k : c.n, rin);
  c.os = c.n + pad(c.m, c.n);
  bool mt = g.chance(1, 2);
  int threads = mt ? gen_threads(g) : 1;
  g.describe(describe_case(c, kind, strf("%s %s%s", name, c.rhs_col ? "column-major rhs" : "row-major rhs", mt ? " MultiThreadGemm" : " Gemm").c_str(), threads));
  g.label(strf("kind:%s", kKindNames[kind]));
  g.label(strf("executor:%s", name));
  g.label(mt ? "multi thread" : "single thread");
  g.nontrivial(true);
  g.add_evals(uint64_t(c.m) * c.n);

  Params p;
  p.m = c.m; p.n = c.n; p.k = c.k;
  p.left_stream.count = c.k;
  p.left_stream.stride = c.ls;
  p.left_stream.multiplicative_sum_offset = c.ro;
  p.left_stream.additive_sum_offset = static_cast<int32_t>(c.sum + static_cast<int64_t>(c.k) * c.lo * c.ro);
  p.right_stream.count = c.k;
  p.right_stream.stride = c.rs;
  p.right_stream.multiplicative_sum_offset = c.lo;
  p.right_stream.additive_sum_offset = 0;
  set_kernel(c, &p.fused_kernel.kernel);
  p.fused_kernel.output_stream.stride = c.os * sizeof(T);

  // The scratch the executor asks for, once per task.
  size_t scratch = Executor::template EstimateScratchSize<Params>(p, KM, KN, 8);
  int max_tasks = mt ? (threads == 0 ? ResolveMaxThreads(0) : threads) : 1;
  Buffers<T> b;
  b.init(g, c, scratch * max_tasks);
  p.lhs = b.lhs.data();
  p.rhs = b.rhs.data();
  p.result = reinterpret_cast<T*>(b.out.data());
  p.scratch = b.scratch.data();
  if (mt) {
    gemmlowp::WorkersPool pool;
    Context context(threads, &pool);
    MultiThreadGemm<Context, Executor, Params, KM, KN, 8>(&context, p);
  } else {
    Gemm<Executor, Params, KM, KN, 8>(p);
  }
  b.check(g, c, name);
}

template <typename T, typename Right>
void modern_any(G& g) {
  typedef GemmExecutorPackRHSCacheFriendly<> RHSCF;
  typedef GemmExecutorPackLHSCacheFriendly<> LHSCF;
  switch (g.draw(4)) {
    case 0: modern<T, Right, RHSCF, 2, 4>(g, "PackRHSCacheFriendly<2,4,8>"); return;
    case 1: modern<T, Right, LHSCF, 2, 4>(g, "PackLHSCacheFriendly<2,4,8>"); return;
    case 2: modern<T, Right, GemmExecutorPackLHS, 1, 8>(g, "PackLHS<1,8,8>"); return;
    default: modern<T, Right, GemmExecutorPackRHS, 3, 3>(g, "PackRHS<3,3,8>"); return;
  }
}
void prop_part0(G& g);
void prop_part1(G& g);
void prop_part2(G& g);
void prop_part3(G& g);
void prop_part4(G& g);
void prop_part5(G& g);
#if PART == 0
void prop_part0(G& g) { modern_any<uint8_t, RowMajorWithSum>(g); }
void prop_modern(G& g) {
  switch (g.draw(6)) {
    case 0: prop_part0(g); return;
    case 1: prop_part1(g); return;
    case 2: prop_part2(g); return;
    case 3: prop_part3(g); return;
    case 4: prop_part4(g); return;
    default: prop_part5(g); return;
  }
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"modern", prop_modern}}); }
#elif PART == 1
void prop_part1(G& g) { modern_any<uint8_t, ColumnMajorWithSum>(g); }
#elif PART == 2
void prop_part2(G& g) { modern_any<float, RowMajorWithSum>(g); }
#elif PART == 3
void prop_part3(G& g) { modern_any<float, ColumnMajorWithSum>(g); }
#elif PART == 4
void prop_part4(G& g) { modern_any<int32_t, RowMajorWithSum>(g); }
#else
void prop_part5(G& g) { modern_any<int32_t, ColumnMajorWithSum>(g); }
#endif
#endif
