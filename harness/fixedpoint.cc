// fixedpoint.cc: integer primitives (C12), transcendental functions (C13) and
// the FixedPoint class (C14), scalar and SIMD, against exact / real models.
#include <string.h>
#include <cmath>

#include "fixedpoint/fixedpoint.h"
#include "pbt.h"

using namespace gemmlowp;
using pbt::G;
using pbt::Rng;
using pbt::strf;

// ---- lanes ----------------------------------------------------------------------
template <typename T> struct Lanes;
template <typename T> struct ScalarLanes {
  typedef T S;
  static const int n = 1;
  static T load(const S* p) { return *p; }
  static void store(S* p, T v) { *p = v; }
};
template <> struct Lanes<std::int32_t> : ScalarLanes<std::int32_t> { static const char* name() { return "int32"; } };
template <> struct Lanes<std::int16_t> : ScalarLanes<std::int16_t> { static const char* name() { return "int16"; } };
#ifdef GEMMLOWP_NEON
template <> struct Lanes<int32x4_t> {
  typedef std::int32_t S; static const int n = 4; static const char* name() { return "neon int32x4"; }
  static int32x4_t load(const S* p) { return vld1q_s32(p); }
  static void store(S* p, int32x4_t v) { vst1q_s32(p, v); }
};
template <> struct Lanes<int16x8_t> {
  typedef std::int16_t S; static const int n = 8; static const char* name() { return "neon int16x8"; }
  static int16x8_t load(const S* p) { return vld1q_s16(p); }
  static void store(S* p, int16x8_t v) { vst1q_s16(p, v); }
};
#endif
#ifdef GEMMLOWP_MSA
template <> struct Lanes<v4i32> {
  typedef std::int32_t S; static const int n = 4; static const char* name() { return "msa int32x4"; }
  static v4i32 load(const S* p) { v4i32 v; memcpy(&v, p, 16); return v; }
  static void store(S* p, v4i32 v) { memcpy(p, &v, 16); }
};
template <> struct Lanes<v8i16> {
  typedef std::int16_t S; static const int n = 8; static const char* name() { return "msa int16x8"; }
  static v8i16 load(const S* p) { v8i16 v; memcpy(&v, p, 16); return v; }
  static void store(S* p, v8i16 v) { memcpy(p, &v, 16); }
};
#endif
#ifdef GEMMLOWP_WASMSIMD
template <> struct Lanes<v128_t> {
  typedef std::int32_t S; static const int n = 4; static const char* name() { return "wasm int32x4"; }
  static v128_t load(const S* p) { return wasm_v128_load(p); }
  static void store(S* p, v128_t v) { wasm_v128_store(p, v); }
};
template <> struct Lanes<int16x8_v128_t> {
  typedef std::int16_t S; static const int n = 8; static const char* name() { return "wasm int16x8"; }
  static int16x8_v128_t load(const S* p) { return to_int16x8_v128_t(wasm_v128_load(p)); }
  static void store(S* p, int16x8_v128_t v) { wasm_v128_store(p, v.v); }
};
#endif
#if defined(GEMMLOWP_SSE4) || defined(GEMMLOWP_AVX2)
template <> struct Lanes<__m128i> {
  typedef std::int32_t S; static const int n = 4; static const char* name() { return "sse int32x4"; }
  static __m128i load(const S* p) { return _mm_loadu_si128(reinterpret_cast<const __m128i*>(p)); }
  static void store(S* p, __m128i v) { _mm_storeu_si128(reinterpret_cast<__m128i*>(p), v); }
};
template <> struct Lanes<int16x8_m128i> {
  typedef std::int16_t S; static const int n = 8; static const char* name() { return "sse int16x8"; }
  static int16x8_m128i load(const S* p) { return to_int16x8_m128i(_mm_loadu_si128(reinterpret_cast<const __m128i*>(p))); }
  static void store(S* p, int16x8_m128i v) { _mm_storeu_si128(reinterpret_cast<__m128i*>(p), v.v); }
};
#endif
#ifdef GEMMLOWP_AVX2
template <> struct Lanes<__m256i> {
  typedef std::int32_t S; static const int n = 8; static const char* name() { return "avx int32x8"; }
  static __m256i load(const S* p) { return _mm256_loadu_si256(reinterpret_cast<const __m256i*>(p)); }
  static void store(S* p, __m256i v) { _mm256_storeu_si256(reinterpret_cast<__m256i*>(p), v); }
};
template <> struct Lanes<int16x16_m256i> {
  typedef std::int16_t S; static const int n = 16; static const char* name() { return "avx int16x16"; }
  static int16x16_m256i load(const S* p) { return to_int16x16_m256i(_mm256_loadu_si256(reinterpret_cast<const __m256i*>(p))); }
  static void store(S* p, int16x16_m256i v) { _mm256_storeu_si256(reinterpret_cast<__m256i*>(p), v.v); }
};
#endif

template <template <typename> class Fn>
void each_type(int i, G& g) {
  switch (i) {
    case 0: Fn<std::int32_t>::run(g); return;
    case 1: Fn<std::int16_t>::run(g); return;
#ifdef GEMMLOWP_NEON
    case 2: Fn<int32x4_t>::run(g); return;
    default: Fn<int16x8_t>::run(g); return;
#elif defined(GEMMLOWP_MSA)
    case 2: Fn<v4i32>::run(g); return;
    default: Fn<v8i16>::run(g); return;
#elif defined(GEMMLOWP_WASMSIMD)
    case 2: Fn<v128_t>::run(g); return;
    default: Fn<int16x8_v128_t>::run(g); return;
#elif defined(GEMMLOWP_AVX2)
    case 2: Fn<__m256i>::run(g); return;
    case 3: Fn<int16x16_m256i>::run(g); return;
    case 4: Fn<__m128i>::run(g); return;
    default: Fn<int16x8_m128i>::run(g); return;
#elif defined(GEMMLOWP_SSE4)
    case 2: Fn<__m128i>::run(g); return;
    default: Fn<int16x8_m128i>::run(g); return;
#endif
  }
}
#if defined(GEMMLOWP_NEON) || defined(GEMMLOWP_MSA) || defined(GEMMLOWP_WASMSIMD)
const int kTypes = 4;
#elif defined(GEMMLOWP_AVX2)
const int kTypes = 6;
#elif defined(GEMMLOWP_SSE4)
const int kTypes = 4;
#else
const int kTypes = 2;
#endif

// Values biased to everything that is special.
struct Src {  // either a tape or a bulk generator
  G* g;
  Rng* r;
  uint64_t draw(uint64_t n) { return g ? g->draw(n) : r->below(n); }
};
template <typename S>
S value(Src& s) {
  const int bits = 8 * sizeof(S);
  const int64_t mn = std::numeric_limits<S>::min(), mx = std::numeric_limits<S>::max();
  int64_t v;
  switch (s.draw(7)) {
    case 0: v = static_cast<int64_t>(s.draw(9)) - 4; break;
    case 1: v = mn + static_cast<int64_t>(s.draw(4)); break;
    case 2: v = mx - static_cast<int64_t>(s.draw(4)); break;
    case 3: {
      v = int64_t(1) << s.draw(bits);
      v += static_cast<int64_t>(s.draw(5)) - 2;
      if (s.draw(2)) v = -v;
      break;
    }
    case 4: {  // halves and multiples near a power of two
      int64_t p = int64_t(1) << s.draw(bits - 1);
      v = p * static_cast<int64_t>(s.draw(9)) / 2 + static_cast<int64_t>(s.draw(3)) - 1;
      if (s.draw(2)) v = -v;
      break;
    }
    case 5: {
      v = static_cast<int64_t>(s.draw(uint64_t(1) << bits)) + mn;
      v >>= s.draw(bits);
      break;
    }
    default: v = static_cast<int64_t>(s.draw(uint64_t(1) << bits)) + mn; break;
  }
  return static_cast<S>(std::max(mn, std::min(mx, v)));
}

inline int64_t rdpot(int64_t x, int s) {
  if (s == 0) return x;
  int64_t h = int64_t(1) << (s - 1);
  return x >= 0 ? (x + h) >> s : -((-x + h) >> s);
}
inline int64_t floordiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

// ---- C12 ------------------------------------------------------------------------
enum {
  kAnd, kOr, kXor, kNot, kAdd, kSub, kNeg, kMul, kShl, kShr, kSelect, kNonZero, kZero, kEq, kNe, kGt, kGe, kLt, kLe,
  kAll, kAny, kHalfSum, kSatAdd, kSrdhm, kRdpot, kSatPot, kDup, kAddSat16, kRdpotVec, kOps
};
const char* kOpNames[] = {"BitAnd", "BitOr", "BitXor", "BitNot", "Add", "Sub", "Neg", "Mul", "ShiftLeft", "ShiftRight",
                          "SelectUsingMask", "MaskIfNonZero", "MaskIfZero", "MaskIfEqual", "MaskIfNotEqual",
                          "MaskIfGreaterThan", "MaskIfGreaterThanOrEqual", "MaskIfLessThan", "MaskIfLessThanOrEqual", "All",
                          "Any", "RoundingHalfSum", "SaturatingAdd", "SaturatingRoundingDoublingHighMul",
                          "RoundingDivideByPOT", "SaturatingRoundingMultiplyByPOT", "Dup", "AddSaturatingIf16Bit",
                          "RoundingDivideByPOT(per lane)"};

template <typename T, int E, int Stop>
struct SatPot {  // table of compile-time exponents
  static T run(int e, T x) {
    if (e == E) return SaturatingRoundingMultiplyByPOT<E>(x);
    return SatPot<T, E - 1, Stop>::run(e, x);
  }
};
template <typename T, int Stop>
struct SatPot<T, Stop, Stop> {
  static T run(int, T x) { return x; }
};

template <typename T, bool Is16> struct SatAddOp { static T run(T a, T b) { return AddSaturatingIf16Bit(a, b); } };
template <typename T> struct SatAddOp<T, true> { static T run(T a, T b) { return SaturatingAdd(a, b); } };

template <typename T> struct RdpotVec { static bool run(T x, T e, T* out) { return false; } };
#ifdef GEMMLOWP_NEON
template <> struct RdpotVec<int32x4_t> { static bool run(int32x4_t x, int32x4_t e, int32x4_t* o) { *o = RoundingDivideByPOT(x, e); return true; } };
template <> struct RdpotVec<int16x8_t> { static bool run(int16x8_t x, int16x8_t e, int16x8_t* o) { *o = RoundingDivideByPOT(x, e); return true; } };
#endif

template <typename T>
struct Prim {
  typedef Lanes<T> L;
  typedef typename L::S S;
  static const int n = L::n;
  static const int bits = 8 * sizeof(S);

  // One vector; throws on a mismatch.
  static void one(G& g, int op, Src& s) {
    S a[n], b[n], c[n], out[n];
    const int64_t mn = std::numeric_limits<S>::min(), mx = std::numeric_limits<S>::max();
    int sh = static_cast<int>(s.draw(bits));
    bool same = s.draw(4) == 0;
    for (int i = 0; i < n; i++) {
      a[i] = value<S>(s);
      b[i] = value<S>(s);
      c[i] = value<S>(s);
      if (same && s.draw(2)) b[i] = a[i];
      if (op == kSelect && s.draw(2)) a[i] = s.draw(2) ? -1 : 0;
    }
    bool isbool = false, got_b = false, want_b = false;
    int64_t want[n];
    int exps[n];
    const char* extra = "";
    T va = L::load(a), vb = L::load(b), vc = L::load(c), r = va;
    switch (op) {
      case kAnd: r = BitAnd(va, vb); for (int i = 0; i < n; i++) want[i] = static_cast<S>(a[i] & b[i]); break;
      case kOr: r = BitOr(va, vb); for (int i = 0; i < n; i++) want[i] = static_cast<S>(a[i] | b[i]); break;
      case kXor: r = BitXor(va, vb); for (int i = 0; i < n; i++) want[i] = static_cast<S>(a[i] ^ b[i]); break;
      case kNot: r = BitNot(va); for (int i = 0; i < n; i++) want[i] = static_cast<S>(~a[i]); break;
      case kAdd: case kSub: case kMul: case kNeg:  // overflow is undefined: keep inside the type
        for (int i = 0; i < n; i++) {
          int64_t w;
          for (;;) {
            w = op == kAdd ? int64_t(a[i]) + b[i] : op == kSub ? int64_t(a[i]) - b[i] : op == kMul ? int64_t(a[i]) * b[i] : -int64_t(a[i]);
            if (w >= mn && w <= mx) break;
            a[i] = a[i] / 2; b[i] = b[i] / 2;
          }
          want[i] = w;
        }
        va = L::load(a); vb = L::load(b);
        r = op == kAdd ? Add(va, vb) : op == kSub ? Sub(va, vb) : op == kMul ? Mul(va, vb) : Neg(va);
        break;
      case kShl:
        sh = std::min(sh, bits - 2);
        for (int i = 0; i < n; i++) {
          while (int64_t(a[i]) * (int64_t(1) << sh) < mn || int64_t(a[i]) * (int64_t(1) << sh) > mx) a[i] = a[i] / 2;
          want[i] = int64_t(a[i]) * (int64_t(1) << sh);
        }
        r = ShiftLeft(L::load(a), sh);
        break;
      case kShr: r = ShiftRight(va, sh); for (int i = 0; i < n; i++) want[i] = floordiv(a[i], int64_t(1) << sh); break;
      case kSelect:
        r = SelectUsingMask(va, vb, vc);
        for (int i = 0; i < n; i++) want[i] = static_cast<S>((a[i] & b[i]) | (~a[i] & c[i]));
        break;
      case kNonZero: r = MaskIfNonZero(va); for (int i = 0; i < n; i++) want[i] = a[i] ? -1 : 0; break;
      case kZero: r = MaskIfZero(va); for (int i = 0; i < n; i++) want[i] = a[i] ? 0 : -1; break;
      case kEq: r = MaskIfEqual(va, vb); for (int i = 0; i < n; i++) want[i] = a[i] == b[i] ? -1 : 0; break;
      case kNe: r = MaskIfNotEqual(va, vb); for (int i = 0; i < n; i++) want[i] = a[i] != b[i] ? -1 : 0; break;
      case kGt: r = MaskIfGreaterThan(va, vb); for (int i = 0; i < n; i++) want[i] = a[i] > b[i] ? -1 : 0; break;
      case kGe: r = MaskIfGreaterThanOrEqual(va, vb); for (int i = 0; i < n; i++) want[i] = a[i] >= b[i] ? -1 : 0; break;
      case kLt: r = MaskIfLessThan(va, vb); for (int i = 0; i < n; i++) want[i] = a[i] < b[i] ? -1 : 0; break;
      case kLe: r = MaskIfLessThanOrEqual(va, vb); for (int i = 0; i < n; i++) want[i] = a[i] <= b[i] ? -1 : 0; break;
      case kAll: case kAny: {
        isbool = true;
        int mode = s.draw(4);  // all, none, one odd lane, random
        int odd = s.draw(n);
        bool all = true, any = false;
        for (int i = 0; i < n; i++) {
          bool m = mode == 0 ? true : mode == 1 ? false : mode == 2 ? i == odd : mode == 3 ? i != odd : s.draw(2);
          a[i] = m ? -1 : 0;
          all = all && m;
          any = any || m;
        }
        va = L::load(a);
        got_b = op == kAll ? All(va) : Any(va);
        want_b = op == kAll ? all : any;
        break;
      }
      case kHalfSum:
        r = RoundingHalfSum(va, vb);
        for (int i = 0; i < n; i++) want[i] = floordiv(int64_t(a[i]) + b[i] + 1, 2);
        break;
      case kSatAdd: case kAddSat16:
        for (int i = 0; i < n; i++) {
          int64_t w = int64_t(a[i]) + b[i];
          if (bits == 32)  // plain addition for 32 bits: overflow undefined
            while (w < mn || w > mx) { a[i] = a[i] / 2; b[i] = b[i] / 2; w = int64_t(a[i]) + b[i]; }
          want[i] = std::max(mn, std::min(mx, w));
        }
        va = L::load(a); vb = L::load(b);
        r = op == kSatAdd ? SatAddOp<T, sizeof(S) == 2>::run(va, vb) : AddSaturatingIf16Bit(va, vb);
        break;
      case kSrdhm:
        r = SaturatingRoundingDoublingHighMul(va, vb);
        for (int i = 0; i < n; i++) {
          int64_t p = int64_t(a[i]) * b[i];
          int64_t w = floordiv(p + (int64_t(1) << (bits - 2)), int64_t(1) << (bits - 1));
          want[i] = std::min(mx, w);
        }
        break;
      case kRdpot: r = RoundingDivideByPOT(va, sh); for (int i = 0; i < n; i++) want[i] = rdpot(a[i], sh); break;
      case kSatPot: {
        int e = static_cast<int>(s.draw(2 * bits - 1)) - (bits - 1);
        sh = e;
        r = SatPot<T, bits - 1, -bits>::run(e, va);
        for (int i = 0; i < n; i++) {
          if (e <= 0) want[i] = rdpot(a[i], -e);
          else {
            __int128_t_ w = wide(a[i], e);
            want[i] = w < mn ? mn : w > mx ? mx : static_cast<int64_t>(w);
          }
        }
        break;
      }
      case kRdpotVec: {
        for (int i = 0; i < n; i++) {
          exps[i] = static_cast<int>(s.draw(bits));
          b[i] = exps[i];
          want[i] = rdpot(a[i], exps[i]);
        }
        if (!RdpotVec<T>::run(va, L::load(b), &r)) return;
        break;
      }
      default:
        r = Dup<T>(a[0]);
        for (int i = 0; i < n; i++) want[i] = a[0];
        break;
    }
    (void)extra;
    if (isbool) {
      if (got_b != want_b) g.fail("%s %s: got %d expected %d (lane 0 mask %d, lane %d mask %d)", L::name(), kOpNames[op], got_b, want_b, (int)a[0], n - 1, (int)a[n - 1]);
      return;
    }
    L::store(out, r);
    for (int i = 0; i < n; i++)
      if (out[i] != want[i])
        g.fail("%s %s lane %d: a=%d b=%d c=%d shift/exponent=%d gave %d expected %lld", L::name(), kOpNames[op], i, (int)a[i], (int)b[i],
               (int)c[i], sh, (int)out[i], (long long)want[i]);
  }
  typedef int64_t __int128_t_;
  static int64_t wide(int64_t x, int e) { return x * (int64_t(1) << e); }  // |x| <= 2^31, e <= 31: fits

  static void run(G& g) {
    // Code that walks an array asks the traits how many lanes to step by.
    if (FixedPointRawTypeTraits<T>::kLanes != n) {
      int k = FixedPointRawTypeTraits<T>::kLanes;
      g.fail("FixedPointRawTypeTraits<%s>::kLanes is %d but the type holds %d lanes", L::name(), k, n);
    }
    int op = g.draw(kOps);
    bool bulk = g.chance(2, 3);
    g.describe(strf("%s %s %s", L::name(), kOpNames[op], bulk ? "bulk" : "single"));
    g.label(std::string("op:") + kOpNames[op]);
    g.label(std::string("type:") + L::name());
    if (bulk) {
      Rng r(g.seed64());
      Src s = {nullptr, &r};
      for (int i = 0; i < 200; i++) one(g, op, s);
      g.add_evals(200 * n);
    } else {
      Src s = {&g, nullptr};
      one(g, op, s);
      g.add_evals(n);
    }
    g.nontrivial(true);
  }
};
#if !defined(ONLY) || ONLY == 12
void prop_prim(G& g) { each_type<Prim>(g.draw(kTypes), g); }
#else
void prop_prim(G&) {}
#endif

// ---- C13 ------------------------------------------------------------------------
enum { fExpInt, fExp, fOmx, fTanh, fOox, fLogistic, kFns };
const char* kFnNames[] = {"exp_on_interval", "exp_on_negative_values", "one_minus_x_over_one_plus_x", "tanh", "one_over_one_plus_x", "logistic"};

template <int IB, typename T>
T apply_ib(int fn, T x) {
  typedef FixedPoint<T, IB> F;
  F f = F::FromRaw(x);
  switch (fn) {
    case fExp: return exp_on_negative_values(f).raw();
    case fTanh: return gemmlowp::tanh(f).raw();
    default: return logistic(f).raw();
  }
}
template <typename T>
T apply(int fn, int ib, T x) {
  typedef FixedPoint<T, 0> F0;
  switch (fn) {
    case fExpInt: return exp_on_interval_between_negative_one_quarter_and_0_excl(F0::FromRaw(x)).raw();
    case fOmx: return one_minus_x_over_one_plus_x_for_x_in_0_1(F0::FromRaw(x)).raw();
    case fOox: return one_over_one_plus_x_for_x_in_0_1(F0::FromRaw(x)).raw();
    default: break;
  }
  switch (ib) {
    case 0: return apply_ib<0>(fn, x);
    case 1: return apply_ib<1>(fn, x);
    case 2: return apply_ib<2>(fn, x);
    case 3: return apply_ib<3>(fn, x);
    case 4: return apply_ib<4>(fn, x);
    case 5: return apply_ib<5>(fn, x);
    case 6: return apply_ib<6>(fn, x);
    case 7: return apply_ib<7>(fn, x);
    case 8: return apply_ib<8>(fn, x);
    case 9: return apply_ib<9>(fn, x);
    case 12: return apply_ib<12>(fn, x);
    case 20: return apply_ib<sizeof(typename FixedPointRawTypeTraits<T>::ScalarRawType) == 4 ? 20 : 12>(fn, x);
    default: return apply_ib<sizeof(typename FixedPointRawTypeTraits<T>::ScalarRawType) == 4 ? 28 : 12>(fn, x);
  }
}
template <typename T>
struct Func {
  typedef Lanes<T> L;
  typedef typename L::S S;
  static const int n = L::n;
  static const int bits = 8 * sizeof(S);
  static int tol(int fn) {
    static const int t32[] = {500, 500, 16, 310, 10, 155}, t16[] = {2, 2, 12, 12, 6, 7};
    return bits == 32 ? t32[fn] : t16[fn];
  }
  static int64_t ref(int fn, int ib, S x) {
    double d = static_cast<double>(x) / static_cast<double>(int64_t(1) << (bits - 1 - ib));
    double e;
    switch (fn) {
      case fExpInt: case fExp: e = std::exp(d); break;
      case fOmx: e = (1 - d) / (1 + d); break;
      case fTanh: e = std::tanh(d); break;
      case fOox: e = 1 / (1 + d); break;
      default: e = 1 / (1 + std::exp(-d)); break;
    }
    double s = std::round(e * static_cast<double>(int64_t(1) << (bits - 1)));
    return static_cast<int64_t>(std::min<double>(std::numeric_limits<S>::max(), std::max<double>(std::numeric_limits<S>::min(), s)));
  }
  static S domain(int fn, S x) {
    const S mn = std::numeric_limits<S>::min();
    switch (fn) {
      case fExpInt: {  // [-1/4, 0)
        int64_t lo = -(int64_t(1) << (bits - 3));
        int64_t v = x;
        if (v > 0) v = -v;
        if (v < lo) v = lo + (-v) % (-lo);
        return static_cast<S>(v);
      }
      case fExp: return x > 0 ? static_cast<S>(-x) : x;
      case fOmx: case fOox: return x < 0 ? (x == mn ? 0 : static_cast<S>(-x)) : x;
      default: return x;
    }
  }
  static void check(G& g, int fn, int ib, const S* in) {
    S out[n];
    L::store(out, apply<T>(fn, ib, L::load(in)));
    const S mx = std::numeric_limits<S>::max(), mn = std::numeric_limits<S>::min();
    for (int i = 0; i < n; i++) {
      S sc = apply<S>(fn, ib, in[i]);
      int64_t want = ref(fn, ib, in[i]);
      int64_t diff = std::llabs(int64_t(out[i]) - want);
      if (diff > tol(fn))
        g.fail("%s %s<%d>(raw %d) = raw %d, exact %lld, error %lld > %d", L::name(), kFnNames[fn], ib, (int)in[i], (int)out[i], (long long)want, (long long)diff, tol(fn));
      if (out[i] != sc) g.fail("%s %s<%d>(raw %d) = raw %d but scalar gives %d", L::name(), kFnNames[fn], ib, (int)in[i], (int)out[i], (int)sc);
      if (in[i] == 0) {
        if (fn == fExp && out[i] != mx) g.fail("%s exp(0) = raw %d, not one", L::name(), (int)out[i]);
        if (fn == fTanh && out[i] != 0) g.fail("%s tanh(0) = raw %d, not zero", L::name(), (int)out[i]);
        if (fn == fLogistic && out[i] != (int64_t(1) << (bits - 2))) g.fail("%s logistic(0) = raw %d, not one half", L::name(), (int)out[i]);
      }
      if (fn == fExp && out[i] < 0) g.fail("%s exp<%d>(raw %d) = raw %d is negative", L::name(), ib, (int)in[i], (int)out[i]);
      if (fn == fLogistic && out[i] < 0) g.fail("%s logistic<%d>(raw %d) = raw %d is negative", L::name(), ib, (int)in[i], (int)out[i]);
      if (in[i] != mn && in[i] != 0) {
        if (fn == fTanh && apply<S>(fn, ib, static_cast<S>(-in[i])) != -sc) g.fail("%s tanh<%d> is not odd at raw %d", L::name(), ib, (int)in[i]);
        if (fn == fLogistic && int64_t(apply<S>(fn, ib, static_cast<S>(-in[i]))) + sc != mx)
          g.fail("%s logistic<%d>(x) + logistic(-x) is not one at raw %d", L::name(), ib, (int)in[i]);
      }
    }
  }
  static void run(G& g) {
    static const int kIb[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20, 28};
    int fn = g.draw(kFns);
    int ib = (fn == fExp || fn == fTanh || fn == fLogistic) ? kIb[g.weighted({2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, bits == 32, bits == 32})] : 0;
    int mode = g.weighted({8, 16, 16, bits == 16 ? 1 : 0});
    g.describe(strf("%s %s<%d> mode %d", L::name(), kFnNames[fn], ib, mode));
    g.label(strf("fn:%s<%d>", kFnNames[fn], ib));
    g.label(std::string("type:") + L::name());
    S in[n];
    uint64_t ev = 0;
    if (mode == 0) {
      Src s = {&g, nullptr};
      for (int i = 0; i < n; i++) in[i] = domain(fn, value<S>(s));
      check(g, fn, ib, in);
      ev = n;
    } else {
      Rng r(g.seed64());
      Src s = {nullptr, &r};
      int64_t start = static_cast<int64_t>(value<S>(s));
      // Mode 3 visits every 16-bit input.
      const int vectors = mode == 3 ? 65536 / n : 256;
      for (int j = 0; j < vectors; j++) {
        for (int i = 0; i < n; i++) {
          if (mode == 1) in[i] = domain(fn, value<S>(s));
          else in[i] = domain(fn, static_cast<S>(start++));  // consecutive inputs
        }
        check(g, fn, ib, in);
        ev += n;
      }
    }
    g.add_evals(ev);
    g.nontrivial(true);
  }
};
#if !defined(ONLY) || ONLY == 13
void prop_func(G& g) { each_type<Func>(g.draw(kTypes), g); }
#else
void prop_func(G&) {}
#endif

// ---- C14 ------------------------------------------------------------------------
template <int A> struct Bits { static const int v = A; };
inline double pw(int e) { return std::ldexp(1.0, e); }

template <typename T>
struct Cls {
  typedef Lanes<T> L;
  typedef typename L::S S;
  static const int n = L::n;
  static const int bits = 8 * sizeof(S);
  static int64_t mn() { return std::numeric_limits<S>::min(); }
  static int64_t mx() { return std::numeric_limits<S>::max(); }
  static int64_t clampr(double v) { return static_cast<int64_t>(std::max<double>(mn(), std::min<double>(mx(), v))); }

  template <int IA, int IB>
  static void go(G& g, int op, Src& s) {
    typedef FixedPoint<T, IA> FA;
    typedef FixedPoint<T, IB> FB;
    typedef FixedPoint<S, IA> SA;
    S a[n], b[n], m[n], out[n];
    int64_t want[n];
    for (int i = 0; i < n; i++) { a[i] = value<S>(s); b[i] = value<S>(s); }
    const int fa = bits - 1 - IA;
    T r = L::load(a);
    FA xa = FA::FromRaw(L::load(a)), ya = FA::FromRaw(L::load(b));
    FB xb = FB::FromRaw(L::load(b));
    const char* nm = "";
    switch (op) {
      case 0: {  // FromDouble
        nm = "FromDouble";
        double d;
        switch (s.draw(5)) {
          case 0: d = static_cast<double>(a[0]) / pw(fa); break;
          case 1: d = (static_cast<double>(a[0]) + 0.5) / pw(fa); break;
          case 2: d = (static_cast<double>(a[0]) + (static_cast<double>(s.draw(1000001)) - 500000) / 1e6) / pw(fa); break;
          case 3: d = static_cast<double>(a[0]) * pw(static_cast<int>(s.draw(80)) - 40); break;
          default: d = (s.draw(2) ? 1 : -1) * (pw(IA) + (static_cast<double>(s.draw(5)) - 2) / pw(fa)); break;
        }
        r = FA::FromDouble(d).raw();
        double scaled = d * pw(fa);
        int64_t w = clampr(std::round(scaled));
        for (int i = 0; i < n; i++) want[i] = w;
        L::store(out, r);
        if (out[0] != w) g.fail("FixedPoint<%s,%d>::FromDouble(%.17g) = raw %d expected %lld", L::name(), IA, d, (int)out[0], (long long)w);
        break;
      }
      case 1: {  // ToDouble exact and round trip (scalar)
        nm = "ToDouble";
        SA x = SA::FromRaw(a[0]);
        double d = ToDouble(x);
        if (d != static_cast<double>(a[0]) / pw(fa)) g.fail("ToDouble(FixedPoint<%d bits,%d> raw %d) = %.17g", bits, IA, (int)a[0], d);
        if (SA::FromDouble(d).raw() != a[0]) g.fail("round trip of raw %d through double failed", (int)a[0]);
        return;
      }
      case 2: {
        nm = "Rescale";
        r = Rescale<IB>(xa).raw();
        for (int i = 0; i < n; i++) {
          int e = IA - IB;
          if (e <= 0) want[i] = rdpot(a[i], -e);
          else want[i] = clampr(static_cast<double>(a[i]) * pw(e));
        }
        break;
      }
      case 3: {
        nm = "product";
        FixedPoint<T, IA + IB> p = xa * xb;
        static_assert(decltype(p)::kIntegerBits == IA + IB, "integer bits of a product");
        r = p.raw();
        for (int i = 0; i < n; i++) want[i] = std::min(mx(), floordiv(int64_t(a[i]) * b[i] + (int64_t(1) << (bits - 2)), int64_t(1) << (bits - 1)));
        break;
      }
      case 4: case 5: case 6: {
        nm = op == 4 ? "sum" : op == 5 ? "difference" : "negation";
        for (int i = 0; i < n; i++)
          for (;;) {
            want[i] = op == 4 ? int64_t(a[i]) + b[i] : op == 5 ? int64_t(a[i]) - b[i] : -int64_t(a[i]);
            if (want[i] >= mn() && want[i] <= mx()) break;
            a[i] = a[i] / 2; b[i] = b[i] / 2;
          }
        xa = FA::FromRaw(L::load(a)); ya = FA::FromRaw(L::load(b));
        r = op == 4 ? (xa + ya).raw() : op == 5 ? (xa - ya).raw() : (-xa).raw();
        break;
      }
      case 7: {  // equality: all lanes
        int mode = s.draw(3), lane = s.draw(n);
        for (int i = 0; i < n; i++)
          if (mode == 0 || (mode == 1 && i != lane)) b[i] = a[i];
        bool eq = true;
        for (int i = 0; i < n; i++) eq = eq && a[i] == b[i];
        FA x = FA::FromRaw(L::load(a)), y = FA::FromRaw(L::load(b));
        if ((x == y) != eq) g.fail("FixedPoint<%s,%d> operator== gave %d expected %d (lane %d: %d vs %d)", L::name(), IA, x == y, eq, lane, (int)a[lane], (int)b[lane]);
        if ((x != y) == eq) g.fail("FixedPoint<%s,%d> operator!= gave %d expected %d", L::name(), IA, x != y, !eq);
        return;
      }
      case 8: {
        nm = "SelectUsingMask of a comparison";
        int c = s.draw(4);
        T mask = c == 0 ? MaskIfLessThan(xa, ya) : c == 1 ? MaskIfGreaterThan(xa, ya) : c == 2 ? MaskIfLessThanOrEqual(xa, ya) : MaskIfGreaterThanOrEqual(xa, ya);
        r = SelectUsingMask(mask, xa, ya).raw();
        for (int i = 0; i < n; i++) {
          bool t = c == 0 ? a[i] < b[i] : c == 1 ? a[i] > b[i] : c == 2 ? a[i] <= b[i] : a[i] >= b[i];
          want[i] = t ? a[i] : b[i];
        }
        break;
      }
      case 9: {
        nm = "constants";
        S z[n], o[n], q[n];
        L::store(z, FA::Zero().raw());
        L::store(o, FA::One().raw());
        L::store(q, FA::template ConstantPOT<-2>().raw());
        for (int i = 0; i < n; i++) {
          if (z[i] != 0) g.fail("Zero is raw %d", (int)z[i]);
          int64_t one = IA == 0 ? mx() : int64_t(1) << fa;
          if (o[i] != one) g.fail("One of FixedPoint<%s,%d> is raw %d", L::name(), IA, (int)o[i]);
          if (q[i] != (int64_t(1) << (fa - 2))) g.fail("ConstantPOT<-2> of FixedPoint<%s,%d> is raw %d", L::name(), IA, (int)q[i]);
        }
        return;
      }
      case 10: {
        nm = "ExactMulByPot";
        auto y = ExactMulByPot<IB>(xa);
        static_assert(decltype(y)::kIntegerBits == IA + IB, "integer bits");
        r = y.raw();
        for (int i = 0; i < n; i++) want[i] = a[i];
        break;
      }
      case 11: {
        nm = "SaturatingRoundingMultiplyByPOT";
        r = SaturatingRoundingMultiplyByPOT<IB - 4>(xa).raw();
        for (int i = 0; i < n; i++) want[i] = IB - 4 <= 0 ? rdpot(a[i], 4 - IB) : clampr(static_cast<double>(a[i]) * pw(IB - 4));
        break;
      }
      case 12: {
        nm = "bitwise";
        int c = s.draw(3);
        r = c == 0 ? (xa & ya).raw() : c == 1 ? (xa | ya).raw() : (xa ^ ya).raw();
        for (int i = 0; i < n; i++) want[i] = static_cast<S>(c == 0 ? a[i] & b[i] : c == 1 ? a[i] | b[i] : a[i] ^ b[i]);
        break;
      }
      case 13: {
        nm = "RoundingHalfSum";
        r = RoundingHalfSum(xa, ya).raw();
        for (int i = 0; i < n; i++) want[i] = floordiv(int64_t(a[i]) + b[i] + 1, 2);
        break;
      }
      default: {
        nm = "FromScalarRaw";
        r = FA::FromScalarRaw(a[0]).raw();
        for (int i = 0; i < n; i++) want[i] = a[0];
        break;
      }
    }
    L::store(out, r);
    (void)m;
    for (int i = 0; i < n; i++)
      if (out[i] != want[i])
        g.fail("%s of FixedPoint<%s,%d> and <%d>, lane %d: a=%d b=%d gave raw %d expected %lld", nm, L::name(), IA, IB, i, (int)a[i], (int)b[i], (int)out[i], (long long)want[i]);
  }
  typedef void (*Fn)(G&, int, Src&);
  static void run(G& g) {
    static const Fn fns[] = {go<0, 0>, go<0, 1>, go<1, 0>, go<2, 0>, go<0, 2>, go<4, 4>, go<4, 5>, go<6, 3>, go<3, 6>, go<5, 2>, go<7, 7>, go<8, 1>, go<1, 8>, go<13, 0>, go<12, 1>, go<0, 13>};
    int f = g.draw(sizeof(fns) / sizeof(fns[0]));
    int op = g.draw(15);
    bool bulk = g.chance(2, 3);
    g.describe(strf("%s formats #%d op %d %s", L::name(), f, op, bulk ? "bulk" : "single"));
    g.label(strf("class-op:%d", op));
    g.label(std::string("type:") + L::name());
    if (bulk) {
      Rng r(g.seed64());
      Src s = {nullptr, &r};
      for (int i = 0; i < 100; i++) fns[f](g, op, s);
      g.add_evals(100 * n);
    } else {
      Src s = {&g, nullptr};
      fns[f](g, op, s);
      g.add_evals(n);
    }
    g.nontrivial(true);
  }
};
#if !defined(ONLY) || ONLY == 14
void prop_class(G& g) { each_type<Cls>(g.draw(kTypes), g); }
#else
void prop_class(G&) {}
#endif

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"prim", prop_prim}, {"func", prop_func}, {"class", prop_class}});
}
