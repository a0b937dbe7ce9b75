// exact.cc: raw int32 accumulators of the public GEMM entry points against an
// exact 64-bit model, scalar offsets (prop "scalar") and per-row / per-column
// offset vectors (prop "channel").
#include "gemm_common.h"

using namespace gemmlowp;
using namespace vg;

typedef VectorMap<const std::int32_t, VectorShape::Col> ColMap;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowMap;
typedef VectorDup<const std::int32_t, VectorShape::Col> ColDup;
typedef VectorDup<const std::int32_t, VectorShape::Row> RowDup;

typedef BitDepthParams<OperandRange<0, 255>, OperandRange<0, 15>> L8R4;

struct Args {
  GemmContext* ctx;
  int m, n, k;
  const void* lhs;
  const void* rhs;
  std::int32_t* res;
  int ls, rs, ds;
  int lo, ro;              // scalar offsets
  const std::int32_t *lov, *rov;  // vector offsets (or null -> dup)
};

enum OffMode { kScalar, kVecVec, kVecDup, kDupVec, kDupDup };

template <typename BD, typename In, MapOrder L, MapOrder R, MapOrder D, int Mode>
void call(const Args& a) {
  MatrixMap<const In, L> lhs(static_cast<const In*>(a.lhs), a.m, a.k, a.ls);
  MatrixMap<const In, R> rhs(static_cast<const In*>(a.rhs), a.k, a.n, a.rs);
  MatrixMap<std::int32_t, D> res(a.res, a.m, a.n, a.ds);
  const std::tuple<> empty;
  if (Mode == kScalar) {
    GemmWithOutputPipeline<In, std::int32_t, BD>(a.ctx, lhs, rhs, &res, a.lo, a.ro, empty);
  } else if (Mode == kVecVec) {
    GemmWithOutputPipelinePC<In, std::int32_t, BD>(a.ctx, lhs, rhs, &res, ColMap(a.lov, a.m),
                                                   RowMap(a.rov, a.n), empty);
  } else if (Mode == kVecDup) {
    GemmWithOutputPipelinePC<In, std::int32_t, BD>(a.ctx, lhs, rhs, &res, ColMap(a.lov, a.m),
                                                   RowDup(a.ro, a.n), empty);
  } else if (Mode == kDupVec) {
    GemmWithOutputPipelinePC<In, std::int32_t, BD>(a.ctx, lhs, rhs, &res, ColDup(a.lo, a.m),
                                                   RowMap(a.rov, a.n), empty);
  }
}

// int8 operands are packed by code that only exists for depth-contiguous
// storage (row-major LHS, column-major RHS).
template <typename BD, int Mode>
void dispatch_signed(bool dr, const Args& a) {
  const MapOrder RM = MapOrder::RowMajor, CM = MapOrder::ColMajor;
  if (dr) call<BD, std::int8_t, RM, CM, RM, Mode>(a);
  else call<BD, std::int8_t, RM, CM, CM, Mode>(a);
}

template <typename BD, typename In, int Mode>
void dispatch(bool lr, bool rr, bool dr, const Args& a) {
  const MapOrder RM = MapOrder::RowMajor, CM = MapOrder::ColMajor;
  switch ((lr ? 4 : 0) | (rr ? 2 : 0) | (dr ? 1 : 0)) {
    case 0: call<BD, In, CM, CM, CM, Mode>(a); break;
    case 1: call<BD, In, CM, CM, RM, Mode>(a); break;
    case 2: call<BD, In, CM, RM, CM, Mode>(a); break;
    case 3: call<BD, In, CM, RM, RM, Mode>(a); break;
    case 4: call<BD, In, RM, CM, CM, Mode>(a); break;
    case 5: call<BD, In, RM, CM, RM, Mode>(a); break;
    case 6: call<BD, In, RM, RM, CM, Mode>(a); break;
    case 7: call<BD, In, RM, RM, RM, Mode>(a); break;
  }
}


// Compiled in parts (one translation unit per bit-depth class and offset mode)
// so that a check builds them in parallel; PART 0 holds the driver.
void gemm_default(int mode, bool lr, bool rr, bool dr, const Args& a);
void gemm_nonzero(int mode, bool lr, bool rr, bool dr, const Args& a);
void gemm_l8r4(int mode, bool lr, bool rr, bool dr, const Args& a);
void gemm_signed(int mode, bool lr, bool rr, bool dr, const Args& a);

#ifdef CHANNEL
#define BY_MODE(BD, IN)                                               \
  if (mode == kVecVec) dispatch<BD, IN, kVecVec>(lr, rr, dr, a);      \
  else if (mode == kVecDup) dispatch<BD, IN, kVecDup>(lr, rr, dr, a); \
  else dispatch<BD, IN, kDupVec>(lr, rr, dr, a);
#else
#define BY_MODE(BD, IN) dispatch<BD, IN, kScalar>(lr, rr, dr, a);
#endif

#if PART == 1
void gemm_default(int mode, bool lr, bool rr, bool dr, const Args& a) {
  BY_MODE(DefaultL8R8BitDepthParams, std::uint8_t)
}
#elif PART == 2
void gemm_nonzero(int mode, bool lr, bool rr, bool dr, const Args& a) {
  BY_MODE(L8R8WithLhsNonzeroBitDepthParams, std::uint8_t)
}
#elif PART == 3
void gemm_l8r4(int mode, bool lr, bool rr, bool dr, const Args& a) { BY_MODE(L8R4, std::uint8_t) }
#elif PART == 4
void gemm_signed(int mode, bool lr, bool rr, bool dr, const Args& a) {
#ifdef GEMMLOWP_NEON
  typedef SignedL8R8WithLhsNonzeroBitDepthParams BD;
#ifdef CHANNEL
  if (mode == kVecVec) dispatch_signed<BD, kVecVec>(dr, a);
  else if (mode == kVecDup) dispatch_signed<BD, kVecDup>(dr, a);
  else dispatch_signed<BD, kDupVec>(dr, a);
#else
  dispatch_signed<BD, kScalar>(dr, a);
#endif
#endif
}
#elif PART == 0

#ifdef GEMMLOWP_NEON
const int kBitDepths = 4;
#else
const int kBitDepths = 3;  // the signed bit depths need NEON
#endif
void gemm(int bd, int mode, bool lr, bool rr, bool dr, const Args& a) {
  switch (bd) {
    case 0: gemm_default(mode, lr, rr, dr, a); break;
    case 1: gemm_nonzero(mode, lr, rr, dr, a); break;
    case 2: gemm_l8r4(mode, lr, rr, dr, a); break;
    default: gemm_signed(mode, lr, rr, dr, a); break;
  }
}

template <typename In>
void run_case(G& g, int bd, bool per_channel, int llo, int lhi, int rlo, int rhi) {
  Shape s = gen_shape(g);
  CtxCfg cfg = gen_ctx(g);
  if (g.chance(1, 120)) {  // many more workers than processors
    cfg.threads = static_cast<int>(g.range(9, kSlow ? 18 : 70));
    s = crowd_shape(g, cfg.threads);
  }
  bool lr = g.boolean(), rr = g.boolean(), dr = g.boolean();
  if (llo < 0) lr = true, rr = false;
  int lp = g.draw(kPatterns), rp = g.draw(kPatterns);
  uint64_t seed = g.seed64();
  std::vector<int16_t> L, R;
  const char* ln = fill_bytes(lp, seed, llo, lhi, s.m, s.k, &L);
  const char* rn = fill_bytes(rp, seed + 1, rlo, rhi, s.k, s.n, &R);
  bool sgn = llo < 0;
  std::vector<int32_t> lo(s.m), ro(s.n);
  int mode = kScalar;
  if (!per_channel) {
    int a, b;
    gen_offsets(g, s.k, sgn, &a, &b);
    std::fill(lo.begin(), lo.end(), a);
    std::fill(ro.begin(), ro.end(), b);
  } else {
    mode = g.pick<int>({kVecVec, kVecDup, kDupVec});
    int mx = max_offset_for(s.k);
    int span = g.boolean() ? std::min(255, mx) : mx;
    int span_l = span, span_r = span;
    if (g.chance(1, 6)) {  // one side far out, the other small
      span_l = std::min(255, mx);
      span_r = std::max(span_l, max_far_offset(s.k, span_l));
      if (g.boolean()) std::swap(span_l, span_r);
    }
    Rng r(seed + 2);
    bool distinct = g.chance(3, 4);
    int base_l = gen_offset(g, s.k, sgn), base_r = gen_offset(g, s.k, sgn);
    if (span_l != span_r) {
      base_l = static_cast<int>(r.range(-span_l, span_l));
      base_r = static_cast<int>(r.range(-span_r, span_r));
    }
    for (auto& x : lo) x = (mode == kDupVec || !distinct) ? base_l : static_cast<int>(r.range(-span_l, span_l));
    for (auto& x : ro) x = (mode == kVecDup || !distinct) ? base_r : static_cast<int>(r.range(-span_r, span_r));
  }
  Mat<In> ml, mr;
  Mat<std::int32_t> md;
  bool at_end = g.boolean();
  ml.init(s.m, s.k, lr, gen_pad(g, s.m, s.k, lr, s), at_end);
  mr.init(s.k, s.n, rr, gen_pad(g, s.k, s.n, rr, s), at_end);
  md.init(s.m, s.n, dr, gen_pad(g, s.m, s.n, dr, s), at_end);
  ml.set(L, seed + 3);
  mr.set(R, seed + 4);
  md.junk(seed + 5);
  g.describe(strf("%dx%dx%d(%s) bd=%d orders=%c%c%c strides=%d,%d,%d lhs=%s rhs=%s lo=%d.. ro=%d.. mode=%d %s seed=%llu",
                  s.m, s.k, s.n, s.cls, bd, lr ? 'R' : 'C', rr ? 'R' : 'C', dr ? 'R' : 'C', ml.stride,
                  mr.stride, md.stride, ln, rn, lo[0], ro[0], mode, cfg.str().c_str(),
                  (unsigned long long)seed));
  g.label(std::string("shape:") + s.cls);
  g.label(strf("bitdepth:%d", bd));
  g.label(strf("orders:%c%c%c", lr ? 'R' : 'C', rr ? 'R' : 'C', dr ? 'R' : 'C'));
  g.label(std::string("lhs:") + ln);
  g.label(cfg.threads == 1 ? "threads:1" : "threads:>1");
  g.label(cfg.cache ? "cache:custom" : "cache:default");
  g.label(s.m < s.n ? "dispatch:transposed" : "dispatch:direct");
  // Non-trivial: more than one register block in some direction, or a ragged
  // edge, with at least 2 levels of accumulation.
  g.nontrivial(s.k > 1 && (s.m > 4 || s.n > 4));
  std::vector<int64_t> acc;
  ref_accum(L, R, s.m, s.n, s.k, lo, ro, &acc);
  for (int64_t v : acc)
    if (v > INT32_MAX || v < INT32_MIN) {
      g.label("skipped:overflow");
      g.nontrivial(false);
      return;
    }
  GemmContext ctx;
  apply_ctx(cfg, &ctx);
  Args a;
  a.ctx = &ctx;
  a.m = s.m; a.n = s.n; a.k = s.k;
  a.lhs = ml.data(); a.rhs = mr.data(); a.res = md.data();
  a.ls = ml.stride; a.rs = mr.stride; a.ds = md.stride;
  a.lo = lo[0]; a.ro = ro[0];
  a.lov = lo.data(); a.rov = ro.data();
  gemm(bd, mode, lr, rr, dr, a);
  for (int i = 0; i < s.m; i++)
    for (int j = 0; j < s.n; j++)
      if (md.at(i, j) != acc[static_cast<size_t>(i) * s.n + j])
        g.fail("result(%d,%d)=%d expected %lld", i, j, md.at(i, j),
               (long long)acc[static_cast<size_t>(i) * s.n + j]);
  g.add_evals(static_cast<uint64_t>(s.m) * s.n);
}

void any_case(G& g, bool per_channel) {
  int bd = g.draw(kBitDepths);
  switch (bd) {
    case 0: run_case<std::uint8_t>(g, bd, per_channel, 0, 255, 0, 255); break;
    case 1: run_case<std::uint8_t>(g, bd, per_channel, 1, 255, 0, 255); break;
    case 2: run_case<std::uint8_t>(g, bd, per_channel, 0, 255, 0, 15); break;
    default: run_case<std::int8_t>(g, bd, per_channel, -127, 127, -128, 127); break;
  }
}
void prop_exact(G& g) {
#ifdef CHANNEL
  any_case(g, true);
#else
  any_case(g, false);
#endif
}

#ifdef CHANNEL
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"exact", prop_exact}}); }
#else
// Sizes whose products with each other or with the thread limit leave 16, 24
// or 32 bits; direct loops keep the reference cheap.
void prop_huge(G& g) {
  int m, n = g.range(1, 2), k, threads = 1;
  int cls = g.draw(3);
  if (cls == 0) {  // rows * threads around 2^31
    threads = g.range(150, 220);
    m = static_cast<int>((1ll << 31) / threads * g.range(95, 130) / 100) + g.range(0, 40);
    k = g.range(2, 3);
  } else if (cls == 1) {
    m = g.range(60000, 3000000);
    k = g.range(1, 5);
    threads = g.range(1, 9);
  } else {
    m = g.range(1, 6);
    k = g.range(60000, 3000000);
    threads = g.range(1, 9);
  }
  bool swap = g.boolean(), lr = g.boolean(), rr = g.boolean(), dr = g.boolean(), fac = g.boolean();
  if (swap) std::swap(m, n);
  int lo = g.range(-8, 8), ro = g.range(-8, 8);
  uint64_t seed = g.seed64();
  g.describe(strf("%dx%dx%d orders=%c%c%c lo=%d ro=%d threads=%d f=%d seed=%llu", m, k, n, lr ? 'R' : 'C', rr ? 'R' : 'C', dr ? 'R' : 'C',
                  lo, ro, threads, fac, (unsigned long long)seed));
  g.label(cls == 0 ? "huge:rows*threads" : cls == 1 ? "huge:rows" : "huge:depth");
  g.nontrivial(true);
  Rng r(seed);
  std::vector<std::uint8_t> a(static_cast<size_t>(m) * k), b(static_cast<size_t>(k) * n);
  std::vector<std::int32_t> c(static_cast<size_t>(m) * n, -77);
  for (size_t i = 0; i < a.size(); i += 8) {
    uint64_t x = r.next();
    for (size_t j = i; j < std::min(a.size(), i + 8); j++, x >>= 8) a[j] = x & 15;
  }
  for (size_t i = 0; i < b.size(); i += 8) {
    uint64_t x = r.next();
    for (size_t j = i; j < std::min(b.size(), i + 8); j++, x >>= 8) b[j] = x & 15;
  }
  GemmContext ctx;
  ctx.set_max_num_threads(threads);
  if (fac) ctx.set_l2_rhs_factor(0.75f);
  Args q;
  q.ctx = &ctx;
  q.m = m; q.n = n; q.k = k;
  q.lhs = a.data(); q.rhs = b.data(); q.res = c.data();
  q.ls = lr ? k : m; q.rs = rr ? n : k; q.ds = dr ? n : m;
  q.lo = lo; q.ro = ro;
  gemm(0, kScalar, lr, rr, dr, q);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      const std::uint8_t* pa = lr ? &a[static_cast<size_t>(i) * k] : &a[i];
      const std::uint8_t* pb = rr ? &b[j] : &b[static_cast<size_t>(j) * k];
      int64_t e = 0;
      for (int d = 0; d < k; d++, pa += lr ? 1 : m, pb += rr ? n : 1) e += (*pa + lo) * (*pb + ro);
      std::int32_t got = c[dr ? static_cast<size_t>(i) * n + j : static_cast<size_t>(j) * m + i];
      if (got != e) g.fail("result(%d,%d)=%d expected %lld", i, j, got, (long long)e);
    }
  g.add_evals(static_cast<uint64_t>(m) * n);
}

// Small matrices with strides of up to 2^31 elements.
void prop_sparse(G& g) {
  int m = g.range(1, 20), n = g.range(1, 20), k = g.range(1, 40);
  bool lr = g.boolean(), rr = g.boolean(), dr = g.boolean();
  int far = g.range(1, 7), threads = g.range(1, 4);
  int lo = g.range(-255, 255), ro = g.range(-255, 255);
  Sparse<std::uint8_t> a, b;
  Sparse<std::int32_t> c;
  bool ok = a.init(g, m, k, lr, far & 1) && b.init(g, k, n, rr, far & 2) && c.init(g, m, n, dr, far & 4);
  uint64_t seed = g.seed64();
  g.describe(strf("%dx%dx%d orders=%c%c%c strides=%d,%d,%d lo=%d ro=%d threads=%d seed=%llu", m, k, n, lr ? 'R' : 'C', rr ? 'R' : 'C',
                  dr ? 'R' : 'C', a.stride, b.stride, c.stride, lo, ro, threads, (unsigned long long)seed));
  if (!ok) {
    g.label("skipped:no address space");
    return;
  }
  Rng r(seed);
  a.junk(&r);
  b.junk(&r);
  c.junk(&r);
  GemmContext ctx;
  ctx.set_max_num_threads(threads);
  Args q;
  q.ctx = &ctx;
  q.m = m; q.n = n; q.k = k;
  q.lhs = a.data(); q.rhs = b.data(); q.res = c.data();
  q.ls = a.stride; q.rs = b.stride; q.ds = c.stride;
  q.lo = lo; q.ro = ro;
  gemm(0, kScalar, lr, rr, dr, q);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      int64_t e = 0;
      for (int d = 0; d < k; d++) e += (a.at(i, d) + lo) * (b.at(d, j) + ro);
      if (c.at(i, j) != e) g.fail("result(%d,%d)=%d expected %lld", i, j, c.at(i, j), (long long)e);
    }
  if (!c.gaps_unchanged()) g.fail("memory beside the result was written");
  g.label("huge:stride");
  g.nontrivial(m > 1 || n > 1);
  g.add_evals(static_cast<uint64_t>(m) * n);
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"exact", prop_exact}, {"huge", prop_huge}, {"sparse", prop_sparse}});
}
#endif
#endif  // PART 0
