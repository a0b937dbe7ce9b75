// gemm_common.h: generators and reference models shared by the GEMM harnesses.
#ifndef VERIF_GEMM_COMMON_H_
#define VERIF_GEMM_COMMON_H_

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <vector>

#include "pbt.h"
#include "public/gemmlowp.h"

namespace vg {

using gemmlowp::MapOrder;
using pbt::G;
using pbt::Rng;
using pbt::strf;

#ifdef VERIF_SLOW
const bool kSlow = true;
const int64_t kMacBudget = 60 * 1000;
const int64_t kMacBudgetBig = 1200 * 1000;
#else
const bool kSlow = false;
const int64_t kMacBudget = 600 * 1000;
const int64_t kMacBudgetBig = 8 * 1000 * 1000;
#endif

struct Shape {
  int m, n, k;
  const char* cls;
};

// A size biased to the borders of the register blocks used anywhere in the
// library (4, 8, 12, 16, 24, 32 wide).
inline int edge_size(G& g, int max) {
  static const int kBase[] = {4, 8, 12, 16, 24, 32, 48, 64, 96, 128, 256};
  int b = kBase[g.draw(sizeof(kBase) / sizeof(kBase[0]))];
  int mult = static_cast<int>(g.range(1, 4));
  int d = static_cast<int>(g.signed_range(-3, 3));
  int v = b * mult + d;
  if (v < 1) v = 1;
  if (v > max) v = 1 + v % max;
  return v;
}

// Shapes: every class is a different way a shape can be special.
inline Shape gen_shape(G& g) {
  Shape s;
  int64_t budget = kMacBudget;
  switch (g.weighted({14, 20, 24, 8, 8, 8, 6, 4, 4, 1, 5, 4})) {
    case 0:
      s.cls = "tiny";
      s.m = g.range(1, 9);
      s.n = g.range(1, 9);
      s.k = g.range(1, 20);
      break;
    case 1:
      s.cls = "small";
      s.m = g.range(1, 60);
      s.n = g.range(1, 60);
      s.k = g.range(1, 70);
      break;
    case 2:
      s.cls = "edge";
      s.m = edge_size(g, 400);
      s.n = edge_size(g, 400);
      s.k = g.boolean() ? edge_size(g, 600) : static_cast<int>(g.range(1, 40));
      break;
    case 3:
      s.cls = "gemv";  // matrix * vector
      s.m = g.range(1, 700);
      s.n = 1;
      s.k = g.range(1, 900);
      break;
    case 4:
      s.cls = "vecmat";  // vector * matrix
      s.m = 1;
      s.n = g.range(1, 700);
      s.k = g.range(1, 900);
      break;
    case 5:
      s.cls = "medium";
      s.m = g.range(1, 200);
      s.n = g.range(1, 200);
      s.k = g.range(1, 300);
      break;
    case 6:
      s.cls = "deep";
      s.m = g.range(1, 14);
      s.n = g.range(1, 14);
      s.k = g.range(500, kSlow ? 6000 : 33000);
      budget = kMacBudgetBig;
      break;
    case 7:
      s.cls = "thin";  // one long side, shallow
      s.m = g.range(1, 5);
      s.n = g.range(200, kSlow ? 2000 : 6000);
      s.k = g.range(1, 16);
      if (g.boolean()) std::swap(s.m, s.n);
      break;
    case 9: {
      s.cls = "extreme";  // one side around or beyond 2^15 .. 2^17
      int big = g.boolean() ? g.pick<int>({32768, 65536, kSlow ? 40000 : 131072}) + static_cast<int>(g.signed_range(-9, 9))
                            : static_cast<int>(g.range(30000, kSlow ? 66000 : 140000));
      int a = g.range(1, 3), b = g.range(1, kSlow ? 4 : 6);
      s.m = a;
      s.n = b;
      s.k = big;
      switch (g.draw(3)) {
        case 0: std::swap(s.m, s.k); break;
        case 1: std::swap(s.n, s.k); break;
        default: break;
      }
      budget = kMacBudgetBig;
      break;
    }
    case 10: {
      s.cls = "round";  // the sizes real layers have, and their neighbours
      static const int kRound[] = {100, 128, 200, 256, 384, 500, 512, 640, 768, 1000, 1024, 1280,
                                   1536, 2000, 2048, 3072, 4096, 5000, 8192, 10000, 16384};
      int big = kRound[g.draw(sizeof(kRound) / sizeof(kRound[0]))] + static_cast<int>(g.signed_range(-1, 1));
      int mid = kRound[g.draw(sizeof(kRound) / sizeof(kRound[0]))] + static_cast<int>(g.signed_range(-1, 1));
      budget = kMacBudgetBig / 4;
      int64_t room = std::max<int64_t>(1, budget / big);
      s.m = static_cast<int>(std::min<int64_t>(mid, room));
      s.n = static_cast<int>(g.range(1, std::max<int64_t>(1, std::min<int64_t>(40, room / s.m))));
      s.k = big;
      switch (g.draw(6)) {
        case 0: break;
        case 1: std::swap(s.m, s.n); break;
        case 2: std::swap(s.m, s.k); break;
        case 3: std::swap(s.n, s.k); break;
        case 4: std::swap(s.m, s.n); std::swap(s.n, s.k); break;
        default: std::swap(s.m, s.n); std::swap(s.m, s.k); break;
      }
      break;
    }
    case 11: {
      s.cls = "square";  // equal dimensions: a swapped one goes unnoticed elsewhere
      int a = g.boolean() ? static_cast<int>(g.range(1, 80)) : edge_size(g, 130);
      int b = g.boolean() ? static_cast<int>(g.range(1, 80)) : edge_size(g, 300);
      s.m = s.n = s.k = a;
      switch (g.draw(4)) {
        case 0: s.k = b; break;
        case 1: s.m = b; break;
        case 2: s.n = b; break;
        default: break;
      }
      budget = kSlow ? kMacBudget * 4 : kMacBudgetBig / 2;
      break;
    }
    default:
      s.cls = "large";
      s.m = g.range(1, 1400);
      s.n = g.range(1, 1400);
      s.k = g.range(1, 1400);
      budget = kMacBudgetBig;
      break;
  }
  // Respect the work budget by shrinking the largest dimension.
  while (static_cast<int64_t>(s.m) * s.n * s.k > budget) {
    int* p = &s.m;
    if (s.n > *p) p = &s.n;
    if (s.k > *p) p = &s.k;
    *p = *p * 2 / 3 + 1;
  }
  return s;
}

// Content patterns for 8-bit operands, always inside [lo, hi].
inline const char* fill_bytes(int pattern, uint64_t seed, int lo, int hi,
                              int rows, int cols,
                              std::vector<int16_t>* out /* row major */) {
  out->assign(static_cast<size_t>(rows) * cols, 0);
  Rng r(seed);
  size_t n = out->size();
  int16_t* p = out->data();
  if (n == 0) return "none";
  switch (pattern) {
    default:
    case 0:
      for (size_t i = 0; i < n; i++) p[i] = r.range(lo, hi);
      return "random";
    case 1:
      for (size_t i = 0; i < n; i++) p[i] = hi;
      return "allmax";
    case 2:
      for (size_t i = 0; i < n; i++) p[i] = lo;
      return "allmin";
    case 3:
      for (size_t i = 0; i < n; i++) p[i] = r.below(2) ? hi : lo;
      return "extremes";
    case 4: {  // sparse: mostly lo with a few random entries
      for (size_t i = 0; i < n; i++) p[i] = lo;
      size_t cnt = 1 + r.below(4);
      for (size_t i = 0; i < cnt; i++) p[r.below(n)] = r.range(lo, hi);
      return "sparse";
    }
    case 5:  // index-dependent ramp: every position distinguishable
      for (size_t i = 0; i < n; i++)
        p[i] = lo + static_cast<int>((i * 31 + seed) % (hi - lo + 1));
      return "ramp";
    case 6:  // near the sign boundary of the int8 re-biasing
      for (size_t i = 0; i < n; i++) {
        int v = (lo + hi + 1) / 2 + static_cast<int>(r.range(-2, 2));
        p[i] = std::min(hi, std::max(lo, v));
      }
      return "mid";
    case 7: {  // constant per line
      for (int i = 0; i < rows; i++) {
        int v = r.range(lo, hi);
        for (int j = 0; j < cols; j++) p[static_cast<size_t>(i) * cols + j] = v;
      }
      return "rowconst";
    }
    case 8: {
      std::vector<int> v(cols);
      for (auto& x : v) x = r.range(lo, hi);
      for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++) p[static_cast<size_t>(i) * cols + j] = v[j];
      return "colconst";
    }
  }
}
const int kPatterns = 9;

// A strided matrix living in guarded memory.
template <typename T>
struct Mat {
  int rows, cols, stride;
  bool row_major;
  pbt::Guarded mem;
  std::vector<uint8_t> snapshot;
  // Set when the matrix shares a place in memory with others (see Arena); its
  // contents are then in image and are put there before each use.
  uint8_t* ext = nullptr;
  std::vector<uint8_t> image;
  uint8_t* raw() const { return ext ? ext : mem.data(); }
  size_t bytes() const { return extent() * sizeof(T); }
  void move_to(uint8_t* p) {
    if (!ext) image.assign(raw(), raw() + bytes());
    ext = p;
  }
  void restore() {
    if (ext && !image.empty()) memcpy(ext, image.data(), image.size());
  }

  size_t extent() const {  // number of T from first to last element
    int major = row_major ? rows : cols, minor = row_major ? cols : rows;
    if (major == 0 || minor == 0) return 0;
    return static_cast<size_t>(major - 1) * stride + minor;
  }
  void init(int r, int c, bool rm, int pad, bool at_end) {
    rows = r;
    cols = c;
    row_major = rm;
    // the longest pads only where the memory stays small
    if (pad > 200 && static_cast<int64_t>(rm ? r : c) * pad > 3000000) pad = pad % 61;
    stride = (rm ? c : r) + pad;
    mem.alloc(extent() * sizeof(T), at_end, sizeof(T));
  }
  T* data() const { return reinterpret_cast<T*>(raw()); }
  T& at(int r, int c) const {
    return data()[row_major ? static_cast<size_t>(r) * stride + c
                            : static_cast<size_t>(c) * stride + r];
  }
  void set(const std::vector<int16_t>& v, uint64_t pad_seed) {
    // stride gaps hold junk that must not influence anything
    Rng r(pad_seed);
    size_t n = extent() * sizeof(T);
    for (size_t i = 0; i < n; i++) raw()[i] = static_cast<uint8_t>(r.next());
    for (int i = 0; i < rows; i++)
      for (int j = 0; j < cols; j++)
        at(i, j) = static_cast<T>(v[static_cast<size_t>(i) * cols + j]);
  }
  void junk(uint64_t seed) {
    Rng r(seed);
    size_t n = extent() * sizeof(T);
    for (size_t i = 0; i < n; i++) raw()[i] = static_cast<uint8_t>(r.next() >> 13);
  }
  void snap() { snapshot.assign(raw(), raw() + extent() * sizeof(T)); }
  bool unchanged() const {
    return memcmp(snapshot.data(), raw(), snapshot.size()) == 0 && mem.slack_intact();
  }
  // Only (r,c) cells may differ from the snapshot; gaps must be preserved.
  bool gaps_unchanged() const {
    if (!mem.slack_intact()) return false;
    if (extent() == 0) return true;
    int major = row_major ? rows : cols, minor = row_major ? cols : rows;
    const T* before = reinterpret_cast<const T*>(snapshot.data());
    for (int i = 0; i + 1 < major; i++)
      for (int j = minor; j < stride; j++)
        if (memcmp(&before[static_cast<size_t>(i) * stride + j],
                   &data()[static_cast<size_t>(i) * stride + j], sizeof(T)))
          return false;
    return true;
  }
};

// Memory in which the operands and results of successive calls lie at the same
// addresses, as the buffers of an application do.
struct Arena {
  std::vector<uint8_t> mem;
  size_t need[6] = {0, 0, 0, 0, 0, 0};
  uint8_t* base[6];
  void want(int i, size_t n) { need[i] = std::max(need[i], n); }
  void make() {
    size_t t = 64;
    for (size_t& n : need) t += n = (n + 63) / 64 * 64;
    mem.assign(t, 0);
    uint8_t* p = mem.data() + (64 - reinterpret_cast<uintptr_t>(mem.data()) % 64) % 64;
    for (int i = 0; i < 6; i++) {
      base[i] = p;
      p += need[i];
    }
  }
};

// A small matrix whose rows (or columns) are so far apart that it spans up to
// 2^31 elements.  Only the pages around the elements exist.
template <typename T>
struct Sparse {
  int rows, cols, stride;
  bool row_major;
  uint8_t* map = nullptr;
  size_t n = 0;
  ~Sparse() {
    if (map) munmap(map, n);
  }
  int major() const { return row_major ? rows : cols; }
  int minor() const { return row_major ? cols : rows; }
  bool init(G& g, int r, int c, bool rm, bool far) {
    rows = r;
    cols = c;
    row_major = rm;
    stride = minor() + static_cast<int>(g.draw(3));
    if (far) {
      int64_t most = (INT32_MAX - int64_t(minor())) / std::max(1, major() - 1);
      switch (g.weighted({2, 2, 3})) {
        case 0: stride = static_cast<int>(most - g.draw(100)); break;
        case 1: stride = static_cast<int>(std::min(most, int64_t(1) << g.range(20, 30))); break;
        default: stride = static_cast<int>(most - g.draw(most / 2)); break;
      }
    }
    uint64_t need = (static_cast<uint64_t>(std::max(0, major() - 1)) * stride + minor() + 64) * sizeof(T);
    n = static_cast<size_t>(need);
    if (n != need) return false;
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return false;
    map = static_cast<uint8_t*>(p);
    return true;
  }
  T* data() const { return reinterpret_cast<T*>(map) + 16; }
  T* line(int i) const { return data() + static_cast<size_t>(i) * stride; }
  T& at(int r, int c) const { return row_major ? line(r)[c] : line(c)[r]; }
  int margin(int i) const { return i + 1 == major() ? 16 : std::min(16, stride - minor()); }
  void junk(Rng* r) {
    for (int i = 0; i < major(); i++)
      for (int j = 0; j < minor() + margin(i); j++) line(i)[j] = static_cast<T>(j < minor() ? r->below(256) : 91);
  }
  bool gaps_unchanged() const {
    for (int j = -16; j < 0; j++)
      if (data()[j] != 0) return false;
    for (int i = 0; i < major(); i++)
      for (int j = minor(); j < minor() + margin(i); j++)
        if (line(i)[j] != 91) return false;
    return true;
  }
};

inline int gen_pad(G& g) {
  switch (g.weighted({50, 30, 20, 2})) {
    case 0: return 0;
    case 1: return g.range(1, 17);
    case 3: return g.range(200, 70000);
    default: return g.pick<int>({1, 16, 31, 64, 100});
  }
}

// Padding that makes the stride of a matrix with the given inner length equal
// to some other size of the product, sometimes.
inline int confusable_pad(G& g, int inner, const Shape& s) {
  int t = g.pick<int>({s.m, s.n, s.k, s.m + s.n, 2 * inner});
  return t > inner ? t - inner : 0;
}
inline int gen_pad(G& g, int rows, int cols, bool row_major, const Shape& s) {
  if (g.chance(1, 8)) return confusable_pad(g, row_major ? cols : rows, s);
  return gen_pad(g);
}

// Exact accumulators, 64-bit.  lhs: m x k, rhs: k x n (row major int16).
inline void ref_accum(const std::vector<int16_t>& lhs, const std::vector<int16_t>& rhs,
                      int m, int n, int k, const std::vector<int32_t>& lo,
                      const std::vector<int32_t>& ro, std::vector<int64_t>* acc) {
  acc->assign(static_cast<size_t>(m) * n, 0);
  // transpose rhs for locality
  std::vector<int32_t> rt(static_cast<size_t>(n) * k), l(k);
  for (int d = 0; d < k; d++)
    for (int j = 0; j < n; j++)
      rt[static_cast<size_t>(j) * k + d] = rhs[static_cast<size_t>(d) * n + j] + ro[j];
  for (int i = 0; i < m; i++) {
    for (int d = 0; d < k; d++) l[d] = lhs[static_cast<size_t>(i) * k + d] + lo[i];
    for (int j = 0; j < n; j++) {
      const int32_t* q = &rt[static_cast<size_t>(j) * k];
      int64_t s = 0;
      for (int d = 0; d < k; d++) s += static_cast<int64_t>(l[d]) * q[d];
      (*acc)[static_cast<size_t>(i) * n + j] = s;
    }
  }
}

// Offsets: typical zero points, plus the extremes that keep every term of the
// documented expansion inside int32 for this depth (so that no intermediate
// overflow is ever asked of the library).
inline int32_t max_offset_for(int k) {
  // |lo*sum(rhs)| <= off*255*k ; |lo*ro*k| <= off^2*k ; total below 2^31
  int64_t off = 1 << 14;
  while (off > 1 && (255ll * 255 + 2 * 255 * off + off * off) * k >= (1ll << 31) - 1) off = off * 3 / 4;
  return static_cast<int32_t>(off);
}
inline int32_t gen_offset(G& g, int k, bool is_signed) {
  int32_t mx = max_offset_for(k);
  int32_t v;
  switch (g.weighted({2, 5, 3, 2})) {
    case 0: v = 0; break;
    case 1: v = is_signed ? static_cast<int32_t>(g.signed_range(-128, 127)) : static_cast<int32_t>(-g.range(0, 255)); break;
    case 2: v = g.signed_range(-255, 255); break;
    default: v = g.signed_range(-mx, mx); break;
  }
  return std::max(-mx, std::min(mx, v));
}

// The largest magnitude one offset may have when the other side's is at most
// `other`, again with every term of the expansion inside int32.
inline int32_t max_far_offset(int k, int other) {
  return static_cast<int32_t>(std::max<int64_t>(0, ((1ll << 31) - 2) / (static_cast<int64_t>(std::max(k, 1)) * (255 + other)) - 255));
}
// Both offsets of a product: independent ones, or one small and one as far out
// as int32 arithmetic allows (shallow products reach beyond 2^16).
inline void gen_offsets(G& g, int k, bool is_signed, int32_t* lo, int32_t* ro) {
  *lo = gen_offset(g, k, is_signed);
  *ro = gen_offset(g, k, is_signed);
  if (!g.chance(1, 8)) return;
  int32_t small = static_cast<int32_t>(g.signed_range(-255, 255));
  int32_t mx = max_far_offset(k, std::abs(small));
  int32_t far = g.boolean() ? mx - static_cast<int32_t>(g.range(0, std::min(mx, 300)))
                            : static_cast<int32_t>(g.range(0, mx));
  if (mx == 0) return;
  if (g.boolean()) far = -far;
  *lo = small;
  *ro = far;
  if (g.boolean()) std::swap(*lo, *ro);
}

// A product large enough for `threads` workers: 16 rows and 64K multiplications
// each, plus a few.
inline Shape crowd_shape(G& g, int threads) {
  Shape s;
  s.cls = "crowd";
  s.m = 16 * threads + static_cast<int>(g.range(0, 40));
  s.n = static_cast<int>(g.range(8, 64));
  s.k = static_cast<int>(65536ll * threads / (static_cast<int64_t>(s.m) * s.n)) + static_cast<int>(g.range(1, 12));
  if (g.boolean()) std::swap(s.m, s.n);
  return s;
}

struct CtxCfg {
  int threads = 1;
  bool cache = false;
  int l1 = 0, l2 = 0;
  float f = 0;
  std::string str() const {
    return cache ? strf("threads=%d l1=%d l2=%d rhsf=%g", threads, l1, l2, f)
                 : strf("threads=%d", threads);
  }
};
inline CtxCfg gen_ctx(G& g, int thread_pct = 30, int cache_pct = 35) {
  CtxCfg c;
  if (g.chance(thread_pct, 100)) {
    switch (g.weighted({6, 2, 1})) {
      case 0: c.threads = g.range(2, 8); break;
      case 1: c.threads = g.range(9, 17); break;
      default: c.threads = 0; break;
    }
  }
  if (g.chance(cache_pct, 100)) {
    c.cache = true;
    c.l1 = g.pick<int>({16 * 1024, 1024, 2048, 4096, 8192, 300, 64 * 1024});
    c.l2 = g.pick<int>({256 * 1024, 4 * 1024, 16 * 1024, 40 * 1024, 64 * 1024, 1024, 1 << 20});
    c.f = g.pick<float>({0.75f, 1.0f, 0.5f, 0.9f, 0.25f});
  }
#ifdef VERIF_MINI
  c.threads = 1;  // the freestanding run-time has no threads
#endif
  return c;
}
inline void apply_ctx(const CtxCfg& c, gemmlowp::GemmContext* ctx) {
  ctx->set_max_num_threads(c.threads);
  if (c.cache) {
    ctx->set_l1_bytes_to_use(c.l1);
    ctx->set_l2_bytes_to_use(c.l2);
    ctx->set_l2_rhs_factor(c.f);
  }
}

}  // namespace vg
#endif
