// quant.cc: the documented quantization recipe (C22).  The functions are the
// example's own; the oracle is real arithmetic in double.
#include <unistd.h>

#include <cmath>
#include <sstream>

// The example's main has no return statement, which only main may do without.
#define main unused_declaration(); void quantization_example_main
#include "doc/quantization_example.cc"
#undef main

#include "gemm_common.h"

using namespace gemmlowp;
using pbt::G;
using pbt::Rng;
using pbt::strf;

// Magnitudes from 2^-40 to 2^40, with exact powers of two and common values.
static float gen_mag(G& g) {
  switch (g.weighted({3, 3, 2, 1})) {
    case 0: return g.pick<float>({1.0f, 0.5f, 2.0f, 6.0f, 255.0f, 127.5f, 100.0f, 1e-3f, 0.1f});
    case 1: return std::ldexp(1.0f + g.draw(1 << 20) / 1048576.0f, static_cast<int>(g.signed_range(-8, 8)));
    case 2: return std::ldexp(1.0f + g.draw(1 << 20) / 1048576.0f, static_cast<int>(g.signed_range(-40, 40)));
    default: return std::ldexp(1.0f, static_cast<int>(g.signed_range(-20, 20)));
  }
}

static void gen_range(G& g, float* mn, float* mx) {
  float a = gen_mag(g), b = gen_mag(g);
  switch (g.weighted({4, 2, 2, 2, 2})) {
    case 0: *mn = -a; *mx = b; break;
    case 1: *mn = -a; *mx = a; break;
    case 2: *mn = 0; *mx = a; break;
    case 3: *mn = -a; *mx = 0; break;
    default:  // both ends on one side of zero
      *mn = std::min(a, b); *mx = std::max(a, b);
      if (g.boolean()) { float t = -*mn; *mn = -*mx; *mx = t; }
  }
}

static void check_params(G& g, float mn, float mx, const QuantizationParams& q) {
  double lo = std::min(mn, 0.f), hi = std::max(mx, 0.f), scale = q.scale;
  if (!(scale > 0)) g.fail("scale %g for range [%g, %g]", scale, mn, mx);
  if (std::fabs(scale * 255 - (hi - lo)) > 1e-6 * (hi - lo)) g.fail("scale %g: 255 steps make %g, the range [%g, %g] has %g", scale, scale * 255, mn, mx, hi - lo);
  double rlo = -scale * q.zero_point, rhi = scale * (255 - q.zero_point);
  if (rlo > lo + 0.5001 * scale || rhi < hi - 0.5001 * scale)
    g.fail("representable [%g, %g] misses more than half a step of [%g, %g] (zero point %d)", rlo, rhi, lo, hi, q.zero_point);
  // Real zero is exact in both directions.
  std::vector<float> z(1, 0.f), back(1, 1.f);
  std::vector<std::uint8_t> qz(1);
  Quantize(q, z, &qz);
  Dequantize(q, qz, &back);
  if (qz[0] != q.zero_point || back[0] != 0.f) g.fail("zero quantizes to %d (zero point %d) and back to %g", qz[0], q.zero_point, back[0]);
}

static void check_quantize(G& g, const QuantizationParams& q, const std::vector<float>& src, const std::vector<std::uint8_t>& dst,
                           const std::vector<float>& back) {
  double scale = q.scale;
  for (size_t i = 0; i < src.size(); i++) {
    double v = src[i] / scale + q.zero_point;
    double c = std::max(0.0, std::min(255.0, v));
    if (std::fabs(dst[i] - c) > 0.5 + 1e-4) g.fail("%g quantizes to %d, %.3f expected (scale %g, zero point %d)", src[i], dst[i], c, scale, q.zero_point);
    double r = scale * (int(dst[i]) - int(q.zero_point));
    if (std::fabs(back[i] - r) > 1e-6 * std::fabs(r)) g.fail("%d dequantizes to %g, %g expected", dst[i], back[i], r);
  }
}

static void check_multiplier(G& g, float real, std::int32_t q, int shift) {
  if (q < (1 << 30) || shift < 0) g.fail("multiplier %g: fixed-point %d, shift %d", real, q, shift);
  double got = std::ldexp(static_cast<double>(q), -31 - shift);
  if (std::fabs(got - real) > std::ldexp(0.5, -31 - shift)) g.fail("multiplier %.9g is represented as %.9g (%d, shift %d)", real, got, q, shift);
}

static void params(G& g) {
  float mn, mx;
  gen_range(g, &mn, &mx);
  g.describe(strf("range [%g, %g]", mn, mx));
  QuantizationParams q = ChooseQuantizationParams(mn, mx);
  check_params(g, mn, mx, q);
  Rng r(g.seed64());
  std::vector<float> v = {mn, mx, 0.f, mn / 2, mx / 2, mn * 3, mx * 3, -mx, -mn};
  for (int i = 0; i < 40; i++) v.push_back(mn + (mx - mn) * (r.below(1 << 24) / 16777216.0f));
  for (int i = 0; i < 20; i++) v.push_back(q.scale * (static_cast<int>(r.below(300)) - 20 - q.zero_point + 0.5f * r.below(2)));
  std::vector<std::uint8_t> d(v.size());
  std::vector<float> back(v.size());
  Quantize(q, v, &d);
  Dequantize(q, d, &back);
  check_quantize(g, q, v, d, back);
  // Multipliers over the whole open interval (0, 1).
  for (int i = 0; i < 20; i++) {
    float m = std::ldexp(1.0f + r.below(1 << 23) / 8388608.0f, -1 - static_cast<int>(r.below(r.below(2) ? 4 : 100)));
    if (r.below(10) == 0) m = 1.0f - std::ldexp(1.0f, -1 - static_cast<int>(r.below(24)));
    std::int32_t fq;
    int s;
    QuantizeMultiplierSmallerThanOne(m, &fq, &s);
    check_multiplier(g, m, fq, s);
  }
  g.nontrivial(mn != mx);
  g.add_evals(v.size() + 20);
}

template <MapOrder LO, MapOrder RO, MapOrder CO>
static void recipe(G& g, int m, int n, int k) {
  Rng r(g.seed64());
  float lmn, lmx, rmn, rmx;
  gen_range(g, &lmn, &lmx);
  gen_range(g, &rmn, &rmx);
  int pattern = g.weighted({4, 1, 1, 1});
  double narrow = g.pick<double>({1.0, 1.0, 0.3, 4.0, 0.05});
  int threads = g.range(1, 4);
  MatrixWithStorage<float, LO> fl(m, k), fld(m, k);
  MatrixWithStorage<float, RO> fr(k, n), frd(k, n);
  auto fill = [&](std::vector<float>& v, float lo, float hi) {
    for (auto& x : v) {
      float t = r.below(1 << 24) / 16777216.0f;
      if (pattern == 1) t = t < 0.5f ? 0.f : 1.f;
      if (pattern == 2) t = 1.f;
      if (pattern == 3) t = t * t * t;
      x = lo + (hi - lo) * t;
    }
  };
  fill(fl.Storage(), lmn, lmx);
  fill(fr.Storage(), rmn, rmx);
  MatrixWithStorage<float, CO> ref(m, n);
  auto refmap = ref.Map();
  FloatMatrixMultiplication(fl.ConstMap(), fr.ConstMap(), &refmap);
  float a0, a1, b0, b1, c0, c1;
  FindMinMax(fl.Map(), &a0, &a1);
  FindMinMax(fr.Map(), &b0, &b1);
  FindMinMax(ref.Map(), &c0, &c1);
  for (auto x : fl.Storage())
    if (x < a0 || x > a1) g.fail("%g outside of the found range [%g, %g]", x, a0, a1);
  c0 *= narrow;
  c1 *= narrow;
  g.describe(strf("%dx%dx%d, left [%g, %g], right [%g, %g], result [%g, %g], %d threads", m, n, k, a0, a1, b0, b1, c0, c1, threads));
  if ((a0 == 0 && a1 == 0) || (b0 == 0 && b1 == 0) || (c0 == 0 && c1 == 0)) return;
  QuantizationParams ql = ChooseQuantizationParams(a0, a1), qr = ChooseQuantizationParams(b0, b1), qc = ChooseQuantizationParams(c0, c1);
  check_params(g, a0, a1, ql);
  check_params(g, b0, b1, qr);
  check_params(g, c0, c1, qc);
  MatrixWithStorage<std::uint8_t, LO> ul(m, k);
  MatrixWithStorage<std::uint8_t, RO> ur(k, n);
  MatrixWithStorage<std::uint8_t, CO> uc(m, n);
  Quantize(ql, fl.Storage(), &ul.Storage());
  Quantize(qr, fr.Storage(), &ur.Storage());
  Dequantize(ql, ul.Storage(), &fld.Storage());
  Dequantize(qr, ur.Storage(), &frd.Storage());
  check_quantize(g, ql, fl.Storage(), ul.Storage(), fld.Storage());
  check_quantize(g, qr, fr.Storage(), ur.Storage(), frd.Storage());
  const float real_multiplier = ql.scale * qr.scale / qc.scale;
  if (!(real_multiplier > 0.f && real_multiplier < 1.f && real_multiplier >= std::ldexp(1.0f, -31))) {
    g.label("multiplier outside (2^-31, 1)");
    return;
  }
  std::int32_t fq;
  int shift;
  QuantizeMultiplierSmallerThanOne(real_multiplier, &fq, &shift);
  check_multiplier(g, real_multiplier, fq, shift);
  OutputStageQuantizeDownInt32ByFixedPoint down;
  down.result_offset_after_shift = qc.zero_point;
  down.result_fixedpoint_multiplier = fq;
  down.result_shift = shift;
  OutputStageSaturatingCastToUint8 cast;
  auto ucm = uc.Map();
  GemmContext ctx;
  ctx.set_max_num_threads(threads);
  GemmWithOutputPipeline<std::uint8_t, std::uint8_t, DefaultL8R8BitDepthParams>(&ctx, ul.ConstMap(), ur.ConstMap(), &ucm, -ql.zero_point, -qr.zero_point, std::make_tuple(down, cast));
  auto L = ul.Map();
  auto R = ur.Map();
  MatrixWithStorage<float, CO> fc(m, n);
  Dequantize(qc, uc.Storage(), &fc.Storage());
  std::set<int> distinct;
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      int64_t acc = 0;
      for (int d = 0; d < k; d++) acc += (int64_t(L(i, d)) - ql.zero_point) * (int64_t(R(d, j)) - qr.zero_point);
      // The real product of the dequantized operands, in result steps.
      double steps = static_cast<double>(acc) * ql.scale * qr.scale / qc.scale;
      double want = std::max(0.0, std::min(255.0, steps + qc.zero_point));
      if (std::fabs(ucm(i, j) - want) > 0.751 + 1e-6 * std::fabs(steps))
        g.fail("entry (%d, %d) is %d, real product %.4f", i, j, ucm(i, j), want);
      double real = want - qc.zero_point;
      if (std::fabs(fc.Map()(i, j) - real * qc.scale) > (0.752 + 2e-6 * std::fabs(steps)) * qc.scale) g.fail("entry (%d, %d) dequantizes to %g, real product %g", i, j, fc.Map()(i, j), real * qc.scale);
      distinct.insert(ucm(i, j));
    }
  g.nontrivial(distinct.size() >= 3);
  g.add_evals(int64_t(m) * n);
}

static void product(G& g) {
  int m, n, k;
  if (g.boolean()) {
    m = g.range(1, 12); n = g.range(1, 12); k = g.range(1, 24);
  } else {
    m = g.range(1, vg::kSlow ? 40 : 100); n = g.range(1, vg::kSlow ? 30 : 70); k = g.range(1, vg::kSlow ? 60 : 120);
  }
  const MapOrder R = MapOrder::RowMajor, C = MapOrder::ColMajor;
  switch (g.draw(4)) {
    case 0: return recipe<C, C, C>(g, m, n, k);
    case 1: return recipe<R, C, C>(g, m, n, k);
    case 2: return recipe<R, R, R>(g, m, n, k);
    default: return recipe<C, R, R>(g, m, n, k);
  }
}

// The example program itself, as printed; every call draws new matrices.
static void example(G& g) {
  int runs = g.range(1, 6);
  g.describe(strf("%d runs of the example program", runs));
  for (int i = 0; i < runs; i++) {
    std::ostringstream os;
    std::streambuf* old = std::cout.rdbuf(os.rdbuf());
    quantization_example_main();
    std::cout.rdbuf(old);
    std::string s = os.str();
    size_t p = s.rfind(":\n");
    if (p == std::string::npos) g.fail("no difference matrix printed");
    std::istringstream is(s.substr(p + 2));
    double v;
    int n = 0;
    while (is >> v) {
      n++;
      // 4 products of values in [-1, 1] at half a step each (1/255), one step
      // of a result range of at most 8.
      if (std::fabs(v) > 4 * (2 * 1.01 / 255) + 8.0 / 255) g.fail("difference %g between actual and reference result", v);
    }
    if (n != 6) g.fail("%d differences printed", n);
  }
  g.nontrivial();
  g.add_evals(runs);
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"params", params}, {"product", product}, {"example", example}});
}
