// memory.cc: which memory a multiplication reads and writes (C06).  Operands,
// offset vectors and bias vectors sit against inaccessible pages and are made
// read-only; result padding is snapshotted; every case runs twice with
// different junk in operand padding and in the result.
#include "gemm_common.h"
#ifdef VERIF_ASAN
#include <sanitizer/asan_interface.h>
#endif

using namespace gemmlowp;
using namespace vg;

typedef VectorMap<const std::int32_t, VectorShape::Col> ColMap;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowMap;
const MapOrder RM = MapOrder::RowMajor, CM = MapOrder::ColMajor;

struct Args {
  GemmContext* ctx;
  int m, n, k;
  const void *lhs, *rhs;
  void* res;
  int ls, rs, ds;
  const std::int32_t *lov, *rov, *rowbias, *colbias;
};
// kinds: 0 uint8 via bias+scale, 1 int32 raw, 2 int16, 3 int8, 4 int32 + row bias, nonzero
const int kKinds = 5;
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_MSA)
const bool kHasInt8 = false;  // the int8 conversion has no SSE form
#else
const bool kHasInt8 = true;
#endif

template <typename Out, typename BD, MapOrder L, MapOrder R, MapOrder D, typename P>
void go(const Args& a, const P& pipeline) {
  MatrixMap<const std::uint8_t, L> lhs(static_cast<const std::uint8_t*>(a.lhs), a.m, a.k, a.ls);
  MatrixMap<const std::uint8_t, R> rhs(static_cast<const std::uint8_t*>(a.rhs), a.k, a.n, a.rs);
  MatrixMap<Out, D> res(static_cast<Out*>(a.res), a.m, a.n, a.ds);
  GemmWithOutputPipelinePC<std::uint8_t, Out, BD>(a.ctx, lhs, rhs, &res, ColMap(a.lov, a.m), RowMap(a.rov, a.n), pipeline);
}
template <typename Out, typename BD, MapOrder D, typename P>
void dispatch(bool lr, bool rr, const Args& a, const P& p) {
  if (lr && rr) go<Out, BD, RM, RM, D>(a, p);
  else if (lr) go<Out, BD, RM, CM, D>(a, p);
  else if (rr) go<Out, BD, CM, RM, D>(a, p);
  else go<Out, BD, CM, CM, D>(a, p);
}
template <typename Out, typename BD, typename P>
void dispatch3(bool lr, bool rr, bool dr, const Args& a, const P& p) {
  if (dr) dispatch<Out, BD, RM>(lr, rr, a, p);
  else dispatch<Out, BD, CM>(lr, rr, a, p);
}
void k_u8(bool lr, bool rr, bool dr, const Args& a);
void k_i32(bool lr, bool rr, bool dr, const Args& a);
void k_i16(bool lr, bool rr, bool dr, const Args& a);
void k_i8(bool lr, bool rr, bool dr, const Args& a);
void k_i32b(bool lr, bool rr, bool dr, const Args& a);

inline OutputStageQuantizeDownInt32ByFixedPoint fp_stage() {
  OutputStageQuantizeDownInt32ByFixedPoint s;
  s.result_fixedpoint_multiplier = 1500000000;
  s.result_shift = 9;
  s.result_offset_after_shift = 100;
  return s;
}
#if PART == 1
void k_u8(bool lr, bool rr, bool dr, const Args& a) {
  OutputStageBiasAddition<ColMap> b1;
  b1.bias_vector = ColMap(a.colbias, a.m);
  dispatch3<std::uint8_t, DefaultL8R8BitDepthParams>(lr, rr, dr, a, std::make_tuple(b1, fp_stage(), OutputStageSaturatingCastToUint8()));
}
#elif PART == 2
void k_i32(bool lr, bool rr, bool dr, const Args& a) {
  dispatch3<std::int32_t, DefaultL8R8BitDepthParams>(lr, rr, dr, a, std::make_tuple());
}
#elif PART == 3
void k_i16(bool lr, bool rr, bool dr, const Args& a) {
  OutputStageBiasAddition<RowMap> b1;
  b1.bias_vector = RowMap(a.rowbias, a.n);
  dispatch3<std::int16_t, DefaultL8R8BitDepthParams>(lr, rr, dr, a, std::make_tuple(b1, fp_stage(), OutputStageSaturatingCastToInt16()));
}
#elif PART == 4
void k_i8(bool lr, bool rr, bool dr, const Args& a) {
#if !defined(GEMMLOWP_SSE4) && !defined(GEMMLOWP_MSA)
  dispatch3<std::int8_t, L8R8WithLhsNonzeroBitDepthParams>(lr, rr, dr, a, std::make_tuple(fp_stage(), OutputStageSaturatingCastToInt8()));
#endif
}
#elif PART == 5
void k_i32b(bool lr, bool rr, bool dr, const Args& a) {
  OutputStageBiasAddition<RowMap> b1;
  b1.bias_vector = RowMap(a.rowbias, a.n);
  OutputStageBiasAddition<ColMap> b2;
  b2.bias_vector = ColMap(a.colbias, a.m);
  dispatch3<std::int32_t, L8R8WithLhsNonzeroBitDepthParams>(lr, rr, dr, a, std::make_tuple(b1, b2));
}
#else

inline int64_t srdhm(int64_t a, int64_t b) {  // round half up of a*b/2^31, saturating
  int64_t p = a * b;
  int64_t nudge = p >= 0 ? (1 << 30) : (1 - (1 << 30));
  return (p + nudge) / (int64_t(1) << 31);
}
inline int64_t rdpot(int64_t x, int s) {
  int64_t h = int64_t(1) << (s - 1);
  return x >= 0 ? (x + h) >> s : -((-x + h) >> s);
}

// ASan: padding between the lines of an operand or result is poisoned, so a
// read of it is reported even though the bytes are mapped.
template <typename T>
void poison(const Mat<T>& m, bool on) {
#ifdef VERIF_ASAN
  if (m.extent() == 0) return;
  int major = m.row_major ? m.rows : m.cols, minor = m.row_major ? m.cols : m.rows;
  for (int i = 0; i + 1 < major; i++) {
    T* p = m.data() + static_cast<size_t>(i) * m.stride;
    if (on) ASAN_POISON_MEMORY_REGION(p + minor, (m.stride - minor) * sizeof(T));
    else ASAN_UNPOISON_MEMORY_REGION(p + minor, (m.stride - minor) * sizeof(T));
  }
#endif
}

template <typename Out>
void run_case(G& g, int kind) {
  Shape s = gen_shape(g);
  int64_t budget = kMacBudget / 2;
  while (int64_t(s.m) * s.n * s.k > budget) {
    int* p = &s.m;
    if (s.n > *p) p = &s.n;
    if (s.k > *p) p = &s.k;
    *p = *p * 2 / 3 + 1;
  }
  CtxCfg cfg = gen_ctx(g);
  bool lr = g.boolean(), rr = g.boolean(), dr = g.boolean();
  int zero = g.weighted({30, 1, 1, 1});  // zero rows / columns / depth
  if (zero == 1) s.m = 0;
  if (zero == 2) s.n = 0;
  if (zero == 3) s.k = 0;
  int lp = g.draw(kPatterns), rp = g.draw(kPatterns);
  uint64_t seed = g.seed64();
  bool nz = kind >= 3;
  std::vector<int16_t> L, R;
  const char* ln = "-";
  const char* rn = "-";
  if (s.m) ln = fill_bytes(lp, seed, nz ? 1 : 0, 255, s.m, s.k, &L);
  if (s.n) rn = fill_bytes(rp, seed + 1, 0, 255, s.k, s.n, &R);
  bool end_l = g.boolean(), end_r = g.boolean(), end_d = g.boolean(), end_v = g.boolean();
  Mat<std::uint8_t> ml, mr;
  Mat<Out> md;
  ml.init(s.m, s.k, lr, gen_pad(g, s.m, s.k, lr, s), end_l);
  mr.init(s.k, s.n, rr, gen_pad(g, s.k, s.n, rr, s), end_r);
  md.init(s.m, s.n, dr, gen_pad(g, s.m, s.n, dr, s), end_d);
  pbt::Guarded lov(s.m * 4, end_v, 4), rov(s.n * 4, end_v, 4), rb(s.n * 4, end_v, 4), cb(s.m * 4, end_v, 4);
  int span = std::min(255, max_offset_for(s.k));
  Rng r(seed + 2);
  std::vector<int32_t> lo(s.m), ro(s.n), vrb(s.n), vcb(s.m);
  for (auto& x : lo) x = r.range(-span, span);
  for (auto& x : ro) x = r.range(-span, span);
  for (auto& x : vrb) x = r.range(-1000000, 1000000);
  for (auto& x : vcb) x = r.range(-1000000, 1000000);
  auto put = [](pbt::Guarded& gm, const std::vector<int32_t>& v) {
    if (!v.empty()) memcpy(gm.data(), v.data(), v.size() * 4);
    gm.readonly();
  };
  put(lov, lo); put(rov, ro); put(rb, vrb); put(cb, vcb);
  g.describe(strf("kind=%d %dx%dx%d(%s) orders=%c%c%c strides=%d,%d,%d ends=%d%d%d%d lhs=%s rhs=%s %s seed=%llu", kind, s.m, s.k, s.n,
                  s.cls, lr ? 'R' : 'C', rr ? 'R' : 'C', dr ? 'R' : 'C', ml.stride, mr.stride, md.stride, end_l, end_r, end_d,
                  end_v, ln, rn, cfg.str().c_str(), (unsigned long long)seed));
  std::vector<int64_t> acc;
  if (s.m && s.n) ref_accum(L, R, s.m, s.n, s.k, lo, ro, &acc);
  const int64_t kLim = (1ll << 31) - 4000000;
  for (int64_t v : acc)
    if (v > kLim || v < -kLim) return;
  Args a;
  a.m = s.m; a.n = s.n; a.k = s.k;
  a.lhs = ml.data(); a.rhs = mr.data(); a.res = md.data();
  a.ls = ml.stride; a.rs = mr.stride; a.ds = md.stride;
  a.lov = reinterpret_cast<const int32_t*>(lov.data());
  a.rov = reinterpret_cast<const int32_t*>(rov.data());
  a.rowbias = reinterpret_cast<const int32_t*>(rb.data());
  a.colbias = reinterpret_cast<const int32_t*>(cb.data());
  for (int round = 0; round < 2; round++) {
    if (round == 1) {
      // back to writable to change the padding junk
      ml.mem.writable();
      mr.mem.writable();
    }
    if (s.m) ml.set(L, seed + 3 + 10 * round);
    if (s.n) mr.set(R, seed + 4 + 10 * round);
    md.junk(seed + 5 + 10 * round);
    ml.snap(); mr.snap(); md.snap();
    ml.mem.readonly();
    mr.mem.readonly();
    poison(ml, true); poison(mr, true); poison(md, true);
    GemmContext ctx;
    apply_ctx(cfg, &ctx);
    a.ctx = &ctx;
    switch (kind) {
      case 0: k_u8(lr, rr, dr, a); break;
      case 1: k_i32(lr, rr, dr, a); break;
      case 2: k_i16(lr, rr, dr, a); break;
      case 3: k_i8(lr, rr, dr, a); break;
      default: k_i32b(lr, rr, dr, a); break;
    }
    poison(ml, false); poison(mr, false); poison(md, false);
    if (!md.gaps_unchanged()) g.fail("memory outside the result elements was written");
    if (!ml.unchanged() || !mr.unchanged()) g.fail("an operand was modified");
    if (s.k == 0) {
      if (!md.unchanged()) g.fail("a product of depth zero wrote to the result");
      continue;
    }
    for (int i = 0; i < s.m; i++)
      for (int j = 0; j < s.n; j++) {
        int64_t v = acc[static_cast<size_t>(i) * s.n + j];
        if (kind == 0) v += vcb[i];
        if (kind == 2) v += vrb[j];
        if (kind == 4) v += vcb[i] + vrb[j];
        if (kind == 0 || kind == 2 || kind == 3) {
          v = rdpot(srdhm(v, 1500000000), 9) + 100;
          int64_t l = std::numeric_limits<Out>::min(), h = std::numeric_limits<Out>::max();
          v = std::max(l, std::min(h, v));
        }
        if (md.at(i, j) != v)
          g.fail("round %d: result(%d,%d)=%lld expected %lld", round, i, j, (long long)md.at(i, j), (long long)v);
      }
  }
  g.label(std::string("shape:") + s.cls);
  g.label(strf("result-kind:%d", kind));
  g.label(zero ? "zero:yes" : "zero:no");
  g.label(ml.stride > (lr ? s.k : s.m) || mr.stride > (rr ? s.n : s.k) ? "operand-padding:yes" : "operand-padding:no");
  g.label(md.stride > (dr ? s.n : s.m) ? "result-padding:yes" : "result-padding:no");
  g.nontrivial(zero || (s.k > 1 && (s.m > 4 || s.n > 4)));
  g.add_evals(2ull * s.m * s.n);
}
void prop(G& g) {
  int kind = g.draw(kKinds);
  if (kind == 3 && !kHasInt8) kind = 1;
  switch (kind) {
    case 0: run_case<std::uint8_t>(g, 0); break;
    case 1: run_case<std::int32_t>(g, 1); break;
    case 2: run_case<std::int16_t>(g, 2); break;
    case 3: run_case<std::int8_t>(g, 3); break;
    default: run_case<std::int32_t>(g, 4); break;
  }
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"memory", prop}}); }
#endif
