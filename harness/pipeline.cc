// pipeline.cc: output pipelines against an interval model of every documented
// stage.  Prop "elementwise" (C03): stages whose value depends only on the
// accumulator.  Prop "positional" (C04): bias and per-channel stages.
//
// The accumulators are steered: a target output is drawn (near zero, near the
// saturation limits of the result type, at rounding ties, at int32 extremes),
// pulled back through the stages to an accumulator, and injected through a
// bias vector on top of a generated product.
#include <cmath>
#include <tuple>

#include "gemm_common.h"

using namespace gemmlowp;
using namespace vg;

struct Iv {  // value interval; bad = the documented arithmetic would overflow
  int64_t lo, hi;
  bool bad;
};
inline bool fits32(int64_t v) { return v >= INT32_MIN && v <= INT32_MAX; }
inline Iv mk(int64_t a, int64_t b, bool bad) {
  Iv r = {std::min(a, b), std::max(a, b), bad};
  if (!fits32(r.lo) || !fits32(r.hi)) r.bad = true;
  return r;
}

// nearest, ties away from zero
inline int64_t m_rdivpot(int64_t x, int s) {
  if (s == 0) return x;
  int64_t d = int64_t(1) << s, h = d >> 1;
  return x >= 0 ? (x + h) / d : -((-x + h) / d);
}
// nearest integer to a*b/2^31, ties upwards, saturated
inline int64_t m_srdhm(int64_t a, int64_t b) {
  if (a == INT32_MIN && b == INT32_MIN) return INT32_MAX;
  int64_t p = a * b + (int64_t(1) << 30);
  int64_t q = p >> 31;  // arithmetic: floor
  return q;
}

template <typename F>
Iv mono(const Iv& x, F f) {
  bool bad = x.bad;
  int64_t a = f(x.lo, &bad), b = f(x.hi, &bad);
  return mk(a, b, bad);
}

inline int64_t chk(int64_t v, bool* bad) {
  if (!fits32(v)) {
    *bad = true;
    return 0;
  }
  return v;
}

// ---- models: Iv eval(stage, x, row, col) ; double inv(stage, y, row, col) --
inline int64_t f_qdown(int64_t x, int64_t off, int64_t mult, int shift, bool* bad) {
  int64_t s = chk(x + off, bad);
  int64_t p = s * mult;
  return m_rdivpot(chk(p, bad), shift);
}
inline int64_t f_exp(int64_t x, int64_t mult, int e, int64_t off, bool* bad) {
  int64_t l = chk(x * (int64_t(1) << std::max(e, 0)), bad);
  return chk(m_rdivpot(m_srdhm(l, mult), std::max(-e, 0)) + off, bad);
}
inline Iv eval(const OutputStageQuantizeDownInt32ToUint8Scale& s, const Iv& x, int, int) {
  return mono(x, [&](int64_t v, bool* bad) { return f_qdown(v, s.result_offset, s.result_mult_int, s.result_shift, bad); });
}
inline double inv(const OutputStageQuantizeDownInt32ToUint8Scale& s, double y, int, int) {
  return y * std::ldexp(1.0, s.result_shift) / s.result_mult_int - s.result_offset;
}
template <VectorShape S>
Iv eval(const OutputStageQuantizeDownInt32ToUint8ScalePC<S>& s, const Iv& x, int r, int c) {
  int p = S == VectorShape::Col ? r : c;
  return mono(x, [&](int64_t v, bool* bad) { return f_qdown(v, *s.result_offset.data(p), *s.result_mult_int.data(p), s.result_shift, bad); });
}
template <VectorShape S>
double inv(const OutputStageQuantizeDownInt32ToUint8ScalePC<S>& s, double y, int r, int c) {
  int p = S == VectorShape::Col ? r : c;
  return y * std::ldexp(1.0, s.result_shift) / *s.result_mult_int.data(p) - *s.result_offset.data(p);
}
inline Iv eval(const OutputStageQuantizeDownInt32ByFixedPoint& s, const Iv& x, int, int) {
  return mono(x, [&](int64_t v, bool* bad) { return f_exp(v, s.result_fixedpoint_multiplier, -s.result_shift, s.result_offset_after_shift, bad); });
}
inline double inv(const OutputStageQuantizeDownInt32ByFixedPoint& s, double y, int, int) {
  if (!s.result_fixedpoint_multiplier) return y;
  return (y - s.result_offset_after_shift) * std::ldexp(1.0, 31 + s.result_shift) / s.result_fixedpoint_multiplier;
}
inline Iv eval(const OutputStageScaleInt32ByFixedPointAndExponent& s, const Iv& x, int, int) {
  return mono(x, [&](int64_t v, bool* bad) { return f_exp(v, s.result_fixedpoint_multiplier, s.result_exponent, s.result_offset_after_shift, bad); });
}
inline double inv(const OutputStageScaleInt32ByFixedPointAndExponent& s, double y, int, int) {
  if (!s.result_fixedpoint_multiplier) return y;
  return (y - s.result_offset_after_shift) * std::ldexp(1.0, 31 - s.result_exponent) / s.result_fixedpoint_multiplier;
}
template <VectorShape S>
Iv eval(const OutputStageScaleInt32ByFixedPointAndExponentPC<S>& s, const Iv& x, int r, int c) {
  int p = S == VectorShape::Col ? r : c;
  return mono(x, [&](int64_t v, bool* bad) { return f_exp(v, *s.result_fixedpoint_multiplier.data(p), *s.result_exponent.data(p), s.result_offset_after_shift, bad); });
}
template <VectorShape S>
double inv(const OutputStageScaleInt32ByFixedPointAndExponentPC<S>& s, double y, int r, int c) {
  int p = S == VectorShape::Col ? r : c;
  double m = *s.result_fixedpoint_multiplier.data(p);
  if (m == 0) return y;
  return (y - s.result_offset_after_shift) * std::ldexp(1.0, 31 - *s.result_exponent.data(p)) / m;
}
template <typename V>
Iv eval(const OutputStageBiasAddition<V>& s, const Iv& x, int r, int c) {
  int p = V::kShape == VectorShape::Col ? r : c;
  return mono(x, [&](int64_t v, bool* bad) { return chk(v + s.bias_vector(p), bad); });
}
template <typename V>
double inv(const OutputStageBiasAddition<V>& s, double y, int r, int c) {
  int p = V::kShape == VectorShape::Col ? r : c;
  return y - s.bias_vector(p);
}
inline Iv eval(const OutputStageClamp& s, const Iv& x, int, int) {
  return mono(x, [&](int64_t v, bool*) { return std::min<int64_t>(s.max, std::max<int64_t>(s.min, v)); });
}
inline double inv(const OutputStageClamp&, double y, int, int) { return y; }
inline Iv sat(const Iv& x, int64_t lo, int64_t hi) {
  return mono(x, [&](int64_t v, bool*) { return std::min(hi, std::max(lo, v)); });
}
inline Iv eval(const OutputStageSaturatingCastToUint8&, const Iv& x, int, int) { return sat(x, 0, 255); }
inline Iv eval(const OutputStageSaturatingCastToInt8&, const Iv& x, int, int) { return sat(x, -128, 127); }
inline Iv eval(const OutputStageSaturatingCastToInt16&, const Iv& x, int, int) { return sat(x, -32768, 32767); }
inline Iv eval(const OutputStageTruncatingCastToUint8&, const Iv& x, int, int) {
  Iv r = x;
  if (x.lo < 0 || x.hi > 255) r.bad = true;
  return r;
}
inline double inv(const OutputStageSaturatingCastToUint8&, double y, int, int) { return y; }
inline double inv(const OutputStageSaturatingCastToInt8&, double y, int, int) { return y; }
inline double inv(const OutputStageSaturatingCastToInt16&, double y, int, int) { return y; }
inline double inv(const OutputStageTruncatingCastToUint8&, double y, int, int) { return y; }
inline Iv eval(const OutputStageTanh& s, const Iv& x, int, int) {
  // tolerance of the 32-bit fixed-point tanh (C13; 5e-7 of the amplitude), plus
  // one unit for the rounding of the input and one for the truncation of the
  // output to integers.
  Iv r = x;
  int64_t Z = s.real_zero_as_int32, A = s.real_amplitude_as_int32;
  if (!fits32(x.lo - Z) || !fits32(x.hi - Z)) r.bad = true;
  double tol = 5e-7 * A + 2.01;
  double a = std::tanh(double(x.lo - Z) / A) * A + Z, b = std::tanh(double(x.hi - Z) / A) * A + Z;
  r.lo = std::max<int64_t>(Z - A, static_cast<int64_t>(std::floor(a - tol)));
  r.hi = std::min<int64_t>(Z + A, static_cast<int64_t>(std::ceil(b + tol)));
  if (x.hi <= Z - 8 * A) r.lo = r.hi = Z - A;
  if (x.lo >= Z + 8 * A) r.lo = r.hi = Z + A;
  return r;
}
inline double inv(const OutputStageTanh& s, double y, int, int) {
  double t = (y - s.real_zero_as_int32) / s.real_amplitude_as_int32;
  if (t >= 0.999999) return s.real_zero_as_int32 + 8.0 * s.real_amplitude_as_int32;
  if (t <= -0.999999) return s.real_zero_as_int32 - 8.0 * s.real_amplitude_as_int32;
  return std::atanh(t) * s.real_amplitude_as_int32 + s.real_zero_as_int32;
}

template <typename T, size_t I, bool End>
struct Fold {
  static Iv ev(const T& t, const Iv& x, int r, int c) {
    return Fold<T, I + 1, I + 1 == std::tuple_size<T>::value>::ev(t, eval(std::get<I>(t), x, r, c), r, c);
  }
  static double in(const T& t, double y, int r, int c) {
    double z = Fold<T, I + 1, I + 1 == std::tuple_size<T>::value>::in(t, y, r, c);
    return inv(std::get<I>(t), z, r, c);
  }
};
template <typename T, size_t I>
struct Fold<T, I, true> {
  static Iv ev(const T&, const Iv& x, int, int) { return x; }
  static double in(const T&, double y, int, int) { return y; }
};

// ---- stage generation ------------------------------------------------------
struct Env {  // what a stage generator may use
  G& g;
  int m, n;
  Rng rng;
  std::string desc;
  std::vector<std::shared_ptr<pbt::Guarded>> keep;
  std::vector<std::vector<int32_t>> copies;  // to verify vectors are left alone
  Env(G& gg, int m_, int n_, uint64_t seed) : g(gg), m(m_), n(n_), rng(seed) {}
  int32_t* vec(const std::vector<int32_t>& v) {
    auto p = std::make_shared<pbt::Guarded>();
    p->alloc(v.size() * 4, true, 4);
    memcpy(p->data(), v.data(), v.size() * 4);
    keep.push_back(p);
    copies.push_back(v);
    return reinterpret_cast<int32_t*>(p->data());
  }
  bool vectors_intact() const {
    for (size_t i = 0; i < keep.size(); i++)
      if (memcmp(keep[i]->data(), copies[i].data(), copies[i].size() * 4) || !keep[i]->slack_intact()) return false;
    return true;
  }
};

inline int32_t any32(Rng& r) {
  switch (r.below(8)) {
    case 0: return static_cast<int32_t>(r.next());
    case 1: return static_cast<int32_t>(r.range(-300, 300));
    case 2: return INT32_MAX - static_cast<int32_t>(r.below(3));
    case 3: return INT32_MIN + static_cast<int32_t>(r.below(3));
    case 4: return static_cast<int32_t>((int64_t(1) << r.below(31)) * (r.below(2) ? 1 : -1) + r.range(-1, 1));
    default: return static_cast<int32_t>(r.next()) >> r.below(31);
  }
}
inline void gen_qdown(Env& e, int32_t* off, int32_t* mult, int32_t* shift) {
  int mb = e.g.range(0, 16);
  *mult = 1 + static_cast<int32_t>(e.rng.below(uint64_t(1) << mb));
  if (e.g.chance(1, 8)) *mult = -*mult;
  if (shift) *shift = e.g.weighted({8, 1, 1}) == 0 ? e.g.range(0, std::min(31, mb + 10)) : (e.g.boolean() ? 31 : e.g.range(0, 31));
  int64_t lim = (int64_t(1) << 30) / std::abs(int64_t(*mult));
  *off = static_cast<int32_t>(e.g.boolean() ? e.rng.range(-1000, 1000) : e.rng.range(-lim, lim));
}
inline int32_t gen_fpmult(Env& e) {
  switch (e.g.weighted({8, 2, 1, 1, 1, 1})) {
    case 0: return static_cast<int32_t>(e.rng.range(1 << 30, INT32_MAX));
    case 1: return static_cast<int32_t>(e.rng.range(1, INT32_MAX));
    case 2: return INT32_MAX;
    case 3: return 1 << 30;
    case 4: return -static_cast<int32_t>(e.rng.range(1, INT32_MAX));
    default: return e.g.boolean() ? INT32_MIN : static_cast<int32_t>(e.rng.range(1, 3));
  }
}
inline int32_t gen_after(Env& e) {
  switch (e.g.weighted({4, 3, 1})) {
    case 0: return static_cast<int32_t>(e.g.signed_range(-255, 255));
    case 1: return static_cast<int32_t>(e.rng.range(-40000, 40000));
    default: return static_cast<int32_t>(e.rng.range(-(1 << 30), 1 << 30));
  }
}
inline void gen(Env& e, OutputStageQuantizeDownInt32ToUint8Scale* s) {
  gen_qdown(e, &s->result_offset, &s->result_mult_int, &s->result_shift);
  e.desc += strf(" qdown(%d,%d,%d)", s->result_offset, s->result_mult_int, s->result_shift);
}
inline void gen(Env& e, OutputStageQuantizeDownInt32ByFixedPoint* s) {
  s->result_fixedpoint_multiplier = gen_fpmult(e);
  s->result_shift = e.g.weighted({6, 1}) == 0 ? e.g.range(0, 20) : e.g.range(0, 31);
  s->result_offset_after_shift = gen_after(e);
  e.desc += strf(" fixedpoint(%d,%d,%d)", s->result_fixedpoint_multiplier, s->result_shift, s->result_offset_after_shift);
}
inline int32_t gen_exponent(Env& e) {
  return e.g.weighted({6, 1}) == 0 ? static_cast<int32_t>(e.g.signed_range(-16, 10)) : static_cast<int32_t>(e.g.signed_range(-31, 30));
}
inline void gen(Env& e, OutputStageScaleInt32ByFixedPointAndExponent* s) {
  s->result_fixedpoint_multiplier = gen_fpmult(e);
  s->result_exponent = gen_exponent(e);
  s->result_offset_after_shift = gen_after(e);
  e.desc += strf(" exponent(%d,%d,%d)", s->result_fixedpoint_multiplier, s->result_exponent, s->result_offset_after_shift);
}
inline void gen(Env& e, OutputStageClamp* s) {
  int32_t a, b;
  switch (e.g.weighted({3, 3, 1, 1})) {
    case 0: a = e.g.range(0, 255), b = e.g.range(0, 255); break;
    case 1: a = e.rng.range(-40000, 40000), b = e.rng.range(-40000, 40000); break;
    case 2: a = any32(e.rng), b = any32(e.rng); break;
    default: a = b = e.rng.range(-200, 300); break;
  }
  s->min = std::min(a, b);
  s->max = std::max(a, b);
  e.desc += strf(" clamp(%d,%d)", s->min, s->max);
}
inline void gen(Env& e, OutputStageTanh* s) {
  int bits = e.g.range(0, 26);
  s->real_amplitude_as_int32 = (1 << bits) + static_cast<int32_t>(e.rng.below(1u << bits));
  s->real_zero_as_int32 = static_cast<int32_t>(e.g.boolean() ? e.g.signed_range(-128, 128) : e.rng.range(-(1 << 28), 1 << 28));
  e.desc += strf(" tanh(%d,%d)", s->real_zero_as_int32, s->real_amplitude_as_int32);
}
inline void gen(Env& e, OutputStageSaturatingCastToUint8*) { e.desc += " ->u8"; }
inline void gen(Env& e, OutputStageSaturatingCastToInt8*) { e.desc += " ->i8"; }
inline void gen(Env& e, OutputStageSaturatingCastToInt16*) { e.desc += " ->i16"; }
inline void gen(Env& e, OutputStageTruncatingCastToUint8*) { e.desc += " ->u8trunc"; }
template <typename V>
struct Setter;
template <typename T, VectorShape S>
struct Setter<VectorMap<T, S>> {
  static void set(Env& e, VectorMap<T, S>* v) {
    int n = S == VectorShape::Col ? e.m : e.n;
    std::vector<int32_t> x(n);
    bool big = e.g.chance(1, 4);
    for (auto& y : x) y = big ? static_cast<int32_t>(e.rng.range(-(1 << 29), 1 << 29)) : static_cast<int32_t>(e.rng.range(-3000, 3000));
    *v = VectorMap<T, S>(e.vec(x), n);
    e.desc += strf(" bias%s%s", S == VectorShape::Col ? "Col" : "Row", big ? "(big)" : "");
  }
};
template <typename T, VectorShape S>
struct Setter<VectorDup<T, S>> {
  static void set(Env& e, VectorDup<T, S>* v) {
    int n = S == VectorShape::Col ? e.m : e.n;
    int32_t x = static_cast<int32_t>(e.rng.range(-3000, 3000));
    *v = VectorDup<T, S>(x, n);
    e.desc += strf(" biasdup(%d)", x);
  }
};
template <typename V>
void gen(Env& e, OutputStageBiasAddition<V>* s) {
  Setter<V>::set(e, &s->bias_vector);
}
template <VectorShape S>
void gen(Env& e, OutputStageQuantizeDownInt32ToUint8ScalePC<S>* s) {
  int n = S == VectorShape::Col ? e.m : e.n;
  std::vector<int32_t> off(n), mult(n);
  gen_qdown(e, &off[0], &mult[0], &s->result_shift);
  int64_t lim = (int64_t(1) << 30) / std::abs(int64_t(mult[0])), mm = std::abs(int64_t(mult[0]));
  bool neg = e.g.chance(1, 8);
  for (int i = 0; i < n; i++) {
    off[i] = static_cast<int32_t>(e.rng.range(-std::min<int64_t>(lim, 100000), std::min<int64_t>(lim, 100000)));
    mult[i] = static_cast<int32_t>(e.rng.range(1, mm * 2));
    if (neg && e.rng.below(2)) mult[i] = -mult[i];
  }
  s->result_offset = VectorMap<const int32_t, S>(e.vec(off), n);
  s->result_mult_int = VectorMap<const int32_t, S>(e.vec(mult), n);
  e.desc += strf(" qdownPC%s(shift=%d,mult~%lld)", S == VectorShape::Col ? "Col" : "Row", s->result_shift, (long long)mm);
}
template <VectorShape S>
void gen(Env& e, OutputStageScaleInt32ByFixedPointAndExponentPC<S>* s) {
  int n = S == VectorShape::Col ? e.m : e.n;
  std::vector<int32_t> mult(n), ex(n);
  int elo = gen_exponent(e), ehi = gen_exponent(e);
  if (elo > ehi) std::swap(elo, ehi);
  bool extreme = e.g.chance(1, 6);
  for (int i = 0; i < n; i++) {
    mult[i] = extreme ? any32(e.rng) : static_cast<int32_t>(e.rng.range(1 << 30, INT32_MAX));
    ex[i] = static_cast<int32_t>(e.rng.range(elo, ehi));
  }
  s->result_fixedpoint_multiplier = VectorMap<const int32_t, S>(e.vec(mult), n);
  s->result_exponent = VectorMap<const int32_t, S>(e.vec(ex), n);
  s->result_offset_after_shift = gen_after(e);
  e.desc += strf(" exponentPC%s(e=%d..%d,+%d)", S == VectorShape::Col ? "Col" : "Row", elo, ehi, s->result_offset_after_shift);
}
template <typename T, size_t I, bool End>
struct GenAll {
  static void go(Env& e, T* t) {
    gen(e, &std::get<I>(*t));
    GenAll<T, I + 1, I + 1 == std::tuple_size<T>::value>::go(e, t);
  }
};
template <typename T, size_t I>
struct GenAll<T, I, true> {
  static void go(Env&, T*) {}
};

// ---- one case ---------------------------------------------------------------
typedef VectorMap<const std::int32_t, VectorShape::Col> ColMap;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowMap;
typedef OutputStageBiasAddition<ColMap> InjectCol;

template <typename BD>
struct InType { typedef std::uint8_t T; static const int lo = 0, hi = 255; };
template <>
struct InType<SignedL8R8WithLhsNonzeroBitDepthParams> { typedef std::int8_t T; static const int lo = -127, hi = 127; };

template <typename BD, typename Dst, MapOrder D, typename Pipe>
void do_gemm(GemmContext* ctx, const Mat<typename InType<BD>::T>& ml, const Mat<typename InType<BD>::T>& mr, Mat<Dst>& md, int lo,
             int ro, const Pipe& pipe) {
  typedef typename InType<BD>::T In;
  MatrixMap<const In, MapOrder::RowMajor> lhs(ml.data(), ml.rows, ml.cols, ml.stride);
  MatrixMap<const In, MapOrder::ColMajor> rhs(mr.data(), mr.rows, mr.cols, mr.stride);
  MatrixMap<Dst, D> res(md.data(), md.rows, md.cols, md.stride);
  GemmWithOutputPipeline<In, Dst, BD>(ctx, lhs, rhs, &res, lo, ro, pipe);
}

// The stages as MakeStandardOutputPipeline builds them, where it can.
template <typename Pipe>
Pipe standard(const Pipe& p, bool*) { return p; }
inline std::tuple<OutputStageQuantizeDownInt32ToUint8Scale, OutputStageSaturatingCastToUint8> standard(
    const std::tuple<OutputStageQuantizeDownInt32ToUint8Scale, OutputStageSaturatingCastToUint8>& p, bool* used) {
  *used = true;
  auto& q = std::get<0>(p);
  return MakeStandardOutputPipeline(q.result_offset, q.result_mult_int, q.result_shift);
}
template <VectorShape S>
std::tuple<OutputStageQuantizeDownInt32ToUint8ScalePC<S>, OutputStageSaturatingCastToUint8> standard(
    const std::tuple<OutputStageQuantizeDownInt32ToUint8ScalePC<S>, OutputStageSaturatingCastToUint8>& p, bool* used) {
  *used = true;
  auto& q = std::get<0>(p);
  return MakeStandardOutputPipeline<S>(q.result_offset, q.result_mult_int, q.result_shift);
}
// The historical entry point, which fixes that pipeline.
template <typename BD, typename Dst, typename Pipe>
struct OldGemm {
  static bool go(GemmContext*, const Mat<typename InType<BD>::T>&, const Mat<typename InType<BD>::T>&, Mat<Dst>&, int, int, const Pipe&) { return false; }
};
typedef std::tuple<OutputStageQuantizeDownInt32ToUint8Scale, OutputStageSaturatingCastToUint8> StandardPipe;
template <typename BD>
struct OldGemm<BD, std::uint8_t, StandardPipe> {
  static bool go(GemmContext* ctx, const Mat<std::uint8_t>& ml, const Mat<std::uint8_t>& mr, Mat<std::uint8_t>& md, int lo, int ro, const StandardPipe& p) {
    MatrixMap<const std::uint8_t, MapOrder::RowMajor> lhs(ml.data(), ml.rows, ml.cols, ml.stride);
    MatrixMap<const std::uint8_t, MapOrder::ColMajor> rhs(mr.data(), mr.rows, mr.cols, mr.stride);
    MatrixMap<std::uint8_t, MapOrder::RowMajor> res(md.data(), md.rows, md.cols, md.stride);
    auto& q = std::get<0>(p);
    Gemm<std::uint8_t, BD>(ctx, lhs, rhs, &res, lo, ro, q.result_offset, q.result_mult_int, q.result_shift);
    return true;
  }
};

template <typename BD, typename Dst, typename... Stages>
void run_pipe(G& g, const char* name) {
  typedef std::tuple<Stages...> Plain;
  typedef std::tuple<InjectCol, Stages...> Inj;
  typedef typename InType<BD>::T In;
  Shape s = gen_shape(g);
  CtxCfg cfg = gen_ctx(g, 25, 25);
  bool dr = g.boolean();
  uint64_t seed = g.seed64();
  Env e(g, s.m, s.n, seed + 9);
  Plain stages;
  GenAll<Plain, 0, std::tuple_size<Plain>::value == 0>::go(e, &stages);
  bool inject = g.chance(3, 4);
  if (!inject) dr = true;  // halves the number of instantiations
  bool zero = inject && g.chance(1, 2);
  int lp = g.draw(kPatterns), rp = g.draw(kPatterns);
  std::vector<int16_t> L, R;
  fill_bytes(lp, seed, InType<BD>::lo, InType<BD>::hi, s.m, s.k, &L);
  fill_bytes(rp, seed + 1, InType<BD>::lo, InType<BD>::hi, s.k, s.n, &R);
  int lo, ro;
  gen_offsets(g, s.k, InType<BD>::lo < 0, &lo, &ro);
  if (zero) {  // product identically zero: the injected value is the accumulator
    int c = InType<BD>::hi / 2;
    for (auto& x : L) x = c;
    lo = -c;
  }
  std::vector<int64_t> acc;
  ref_accum(L, R, s.m, s.n, s.k, std::vector<int32_t>(s.m, lo), std::vector<int32_t>(s.n, ro), &acc);
  for (int64_t v : acc)
    if (!fits32(v)) return;
  // steer
  Rng tr(seed + 7);
  std::vector<int32_t> bias(s.m, 0);
  int64_t dlo = std::numeric_limits<Dst>::min(), dhi = std::numeric_limits<Dst>::max();
  if (inject) {
    for (int i = 0; i < s.m; i++) {
      int j = static_cast<int>(tr.below(s.n));
      int64_t P = acc[static_cast<size_t>(i) * s.n + j];
      bool ok = false;
      for (int t = 0; t < 12 && !ok; t++) {
        double y;
        switch (tr.below(6)) {
          case 0: y = static_cast<double>(tr.range(-3, 3)); break;
          case 1: y = static_cast<double>(dlo + tr.range(-2, 2)); break;
          case 2: y = static_cast<double>(dhi + tr.range(-2, 2)); break;
          case 3: y = static_cast<double>(tr.range(-400, 600)); break;
          default: y = static_cast<double>(tr.range(dlo, dhi)); break;
        }
        y += 0.5 * static_cast<double>(tr.below(2));
        double x = tr.below(6) == 0 ? static_cast<double>(any32(tr))
                                    : Fold<Plain, 0, std::tuple_size<Plain>::value == 0>::in(stages, y, i, j);
        x += static_cast<double>(tr.range(-1, 1));
        if (!(x >= -2147483648.0 && x < 2147483648.0)) continue;
        int64_t target = static_cast<int64_t>(std::floor(x));
        int64_t b = target - P;
        if (!fits32(b)) continue;
        Iv v = {target, target, false};
        if (Fold<Plain, 0, std::tuple_size<Plain>::value == 0>::ev(stages, v, i, j).bad) continue;
        bias[i] = static_cast<int32_t>(b);
        ok = true;
      }
    }
  }
  Mat<In> ml, mr;
  Mat<Dst> md;
  ml.init(s.m, s.k, true, gen_pad(g, s.m, s.k, true, s), true);
  mr.init(s.k, s.n, false, gen_pad(g, s.k, s.n, false, s), true);
  md.init(s.m, s.n, dr, gen_pad(g, s.m, s.n, dr, s), true);
  ml.set(L, seed + 3);
  mr.set(R, seed + 4);
  md.junk(seed + 5);
  g.describe(strf("%s %dx%dx%d(%s) dst=%c stride=%d lo=%d ro=%d%s%s |%s | %s seed=%llu", name, s.m, s.k, s.n, s.cls,
                  dr ? 'R' : 'C', md.stride, lo, ro, inject ? " injected" : "", zero ? " zeroproduct" : "",
                  e.desc.c_str(), cfg.str().c_str(), (unsigned long long)seed));
  g.label(std::string("pipe:") + name);
  g.label(std::string("shape:") + s.cls);
  g.label(inject ? "acc:injected" : "acc:product");
  g.label(s.m < s.n ? "dispatch:transposed" : "dispatch:direct");
  GemmContext ctx;
  apply_ctx(cfg, &ctx);
  InjectCol ic;
  int32_t* bp = e.vec(bias);
  ic.bias_vector = ColMap(bp, s.m);
  bool made = false, old = false;
  Plain built = seed & 1 ? standard(stages, &made) : stages;
  if (inject) {
    Inj p = std::tuple_cat(std::make_tuple(ic), built);
    if (dr) do_gemm<BD, Dst, MapOrder::RowMajor>(&ctx, ml, mr, md, lo, ro, p);
    else do_gemm<BD, Dst, MapOrder::ColMajor>(&ctx, ml, mr, md, lo, ro, p);
  } else {
    old = (seed & 2) && OldGemm<BD, Dst, Plain>::go(&ctx, ml, mr, md, lo, ro, stages);
    if (!old) do_gemm<BD, Dst, MapOrder::RowMajor>(&ctx, ml, mr, md, lo, ro, built);
  }
  if (made) g.label("built:MakeStandardOutputPipeline");
  if (old) g.label("entry:Gemm");
  uint64_t compared = 0;
  std::set<int64_t> seen;
  for (int i = 0; i < s.m; i++)
    for (int j = 0; j < s.n; j++) {
      int64_t a = acc[static_cast<size_t>(i) * s.n + j] + bias[i];
      if (!fits32(a)) continue;
      Iv x = {a, a, false};
      Iv w = Fold<Plain, 0, std::tuple_size<Plain>::value == 0>::ev(stages, x, i, j);
      if (w.bad) continue;
      compared++;
      int64_t got = md.at(i, j);
      if (seen.size() < 64) seen.insert(got);
      if (got < w.lo || got > w.hi)
        g.fail("result(%d,%d)=%lld expected %lld..%lld for accumulator %lld", i, j, (long long)got, (long long)w.lo,
               (long long)w.hi, (long long)a);
    }
  if (!e.vectors_intact()) g.fail("a parameter vector was modified");
  if (compared < 8) g.label("trivial:few-compared");
  else if (seen.size() < 3) g.label(std::string("trivial:few-distinct:") + (inject ? "inj:" : "plain:") + name);
  g.add_evals(compared);
  // Non-trivial: at least 8 entries compared and at least 3 distinct results.
  g.nontrivial(compared >= 8 && seen.size() >= 3);
}

typedef OutputStageQuantizeDownInt32ToUint8Scale QD;
typedef OutputStageQuantizeDownInt32ByFixedPoint FP;
typedef OutputStageScaleInt32ByFixedPointAndExponent EX;
typedef OutputStageClamp CL;
typedef OutputStageTanh TH;
typedef OutputStageSaturatingCastToUint8 U8;
typedef OutputStageSaturatingCastToInt8 I8;
typedef OutputStageSaturatingCastToInt16 I16;
typedef OutputStageTruncatingCastToUint8 T8;
typedef OutputStageBiasAddition<VectorMap<std::int32_t, VectorShape::Row>> BR;
typedef OutputStageBiasAddition<VectorMap<std::int32_t, VectorShape::Col>> BC;
typedef OutputStageBiasAddition<VectorMap<const std::int32_t, VectorShape::Row>> BRc;
typedef OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Row> QR;
typedef OutputStageQuantizeDownInt32ToUint8ScalePC<VectorShape::Col> QC;
typedef OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Row> ER;
typedef OutputStageScaleInt32ByFixedPointAndExponentPC<VectorShape::Col> EC;
typedef DefaultL8R8BitDepthParams D8;
typedef SignedL8R8WithLhsNonzeroBitDepthParams S8;
typedef std::int32_t i32;
typedef std::int16_t i16;
typedef std::int8_t i8;
typedef std::uint8_t u8;

// The cast to int8 does not exist in the SSE build; the truncating cast exists
// only where register blocks are scalar.
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_MSA)
#define HAVE_I8 0
#else
#define HAVE_I8 1
#endif
// The per-channel exponent stage does not compile for SSE or MSA.
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_MSA)
#define HAVE_EPC 0
#else
#define HAVE_EPC 1
#endif
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_NEON)
#define HAVE_T8 0
#else
#define HAVE_T8 1
#endif

typedef void (*Fn)(G&, const char*);
struct Entry {
  const char* name;
  Fn fn;
};
std::vector<Entry> part1();
std::vector<Entry> part2();
std::vector<Entry> part3();
std::vector<Entry> part4();
std::vector<Entry> part5();
std::vector<Entry> part6();
std::vector<Entry> part7();
std::vector<Entry> part8();
std::vector<Entry> part9();
std::vector<Entry> part10();

#define E(name, ...) {name, run_pipe<__VA_ARGS__>}
#if PART == 1
std::vector<Entry> part1() {
  return {E("qdown", D8, i32, QD), E("qdown,u8", D8, u8, QD, U8), E("qdown,i16", D8, i16, QD, I16),
#if HAVE_I8
          E("qdown,i8", D8, i8, QD, I8),
#endif
  };
}
#elif PART == 2
std::vector<Entry> part2() {
  return {E("fp", D8, i32, FP), E("fp,u8", D8, u8, FP, U8), E("fp,i16", D8, i16, FP, I16),
#if HAVE_I8
          E("fp,i8", D8, i8, FP, I8),
#endif
#if defined(GEMMLOWP_NEON)
          E("signed:fp,i8", S8, i8, FP, I8),
#endif
  };
}
#elif PART == 3
std::vector<Entry> part3() {
  return {E("exp", D8, i32, EX), E("exp,u8", D8, u8, EX, U8), E("exp,i16", D8, i16, EX, I16),
#if HAVE_I8
          E("exp,i8", D8, i8, EX, I8),
#endif
  };
}
#elif PART == 4
std::vector<Entry> part4() {
  return {E("clamp", D8, i32, CL), E("fp,clamp,u8", D8, u8, FP, CL, U8), E("clamp,qdown,u8", D8, u8, CL, QD, U8),
          E("exp,clamp,i16", D8, i16, EX, CL, I16),
#if HAVE_T8
          E("fp,clamp,u8trunc", D8, u8, FP, CL, T8),
#endif
  };
}
#elif PART == 5
std::vector<Entry> part5() {
  return {E("tanh", D8, i32, TH), E("tanh,qdown,u8", D8, u8, TH, QD, U8), E("exp,tanh,i16", D8, i16, EX, TH, I16)};
}
#elif PART == 6
std::vector<Entry> part6() {
  return {E("u8", D8, u8, U8), E("i16", D8, i16, I16),
#if HAVE_I8
          E("i8", D8, i8, I8),
#endif
          E("qdown,exp,clamp", D8, i32, QD, EX, CL),
          // the longest pipelines (with the injected bias: six stages)
          E("clamp,qdown,clamp,exp,i16", D8, i16, CL, QD, CL, EX, I16)};
}
#elif PART == 7
std::vector<Entry> part7() {
  return {E("biasRow", D8, i32, BR), E("biasCol", D8, i32, BC), E("biasRow,biasCol,clamp", D8, i32, BRc, BC, CL),
          E("biasRow,fp,u8", D8, u8, BR, FP, U8), E("biasCol,qdown,clamp,i16", D8, i16, BC, QD, CL, I16)};
}
#elif PART == 8
std::vector<Entry> part8() {
  return {E("qdownPCrow", D8, i32, QR), E("qdownPCcol", D8, i32, QC), E("qdownPCrow,u8", D8, u8, QR, U8),
          E("qdownPCcol,u8", D8, u8, QC, U8)};
}
#elif PART == 9
std::vector<Entry> part9() {
  return {
#if HAVE_EPC
      E("expPCrow", D8, i32, ER), E("expPCcol", D8, i32, EC), E("biasRow,expPCrow,clamp,u8", D8, u8, BR, ER, CL, U8),
      E("biasCol,expPCcol,i16", D8, i16, BC, EC, I16)
#endif
  };
}
#elif PART == 10
std::vector<Entry> part10() {
  return {
#if defined(GEMMLOWP_NEON)
          E("signed:biasCol,expPCcol,i8", S8, i8, BC, EC, I8),
          E("signed:biasRow,expPCrow,i8", S8, i8, BR, ER, I8),
#endif
#if HAVE_I8 && HAVE_EPC
          E("biasCol,expPCrow,clamp,i8", D8, i8, BC, ER, CL, I8),
          E("biasRow,qdownPCcol,i8", D8, i8, BR, QC, I8),
#endif
          E("biasRow,qdownPCcol,exp,i16", D8, i16, BR, QC, EX, I16),
          E("biasRow,biasCol,biasRow,fp,u8", D8, u8, BR, BC, BR, FP, U8)};
}
#else
void any(G& g, const std::vector<Entry>& v) {
  const Entry& e = v[g.draw(v.size())];
  e.fn(g, e.name);
}
#ifdef POSITIONAL
void prop(G& g) {
  static std::vector<Entry> v;
  if (v.empty())
    for (auto f : {part7, part8, part9, part10})
      for (auto& e : f()) v.push_back(e);
  any(g, v);
}
#else
void prop(G& g) {
  static std::vector<Entry> v;
  if (v.empty())
    for (auto f : {part1, part2, part3, part4, part5, part6})
      for (auto& e : f()) v.push_back(e);
  any(g, v);
}
#endif
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"pipeline", prop}}); }
#endif
