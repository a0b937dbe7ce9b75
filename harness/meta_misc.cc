// meta_misc.cc: element-wise transforms (C16) and packing (C17) of the ARM meta
// library against direct models, in guarded memory.
#include <cmath>
#include <cstdint>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <vector>

#ifdef TRANSFORM
#include "meta/multi_thread_transform.h"
#include "meta/single_thread_transform.h"
#include "meta/transform_kernels.h"
#else
#include "meta/streams.h"
#endif
#include "pbt.h"

using pbt::G;
using pbt::Rng;
using pbt::strf;
using namespace gemmlowp::meta;

#ifdef TRANSFORM
typedef SimpleContext<gemmlowp::WorkersPool> Context;

inline int gen_count(G& g) {
  switch (g.weighted({6, 4, 2})) {
    case 0: return g.range(1, 70);
    case 1: return g.range(1, 600);
    default: return g.range(8000, 60000);  // enough for several tasks
  }
}

template <typename Params>
void apply(G& g, const Params& p, int threads) {
  if (threads < 0) {
    Transform1D<Params, 16>(p);
    return;
  }
  gemmlowp::WorkersPool pool;
  Context ctx(threads, &pool);
  MultiThreadTransform1D<Context, Params, 16>(&ctx, p);
}
inline int gen_mode(G& g) { return g.boolean() ? -1 : g.pick<int>({1, 2, 3, 4, 7, 0}); }

template <typename T> T* at(pbt::Guarded& m) { return reinterpret_cast<T*>(m.data()); }

// An output may be any value that f gives within the float error `d` of `v`.
inline bool clamp_ok(int got, double v, double d, bool nearest_allowed, double lo, double hi) {
  auto cl = [&](double x) { return std::max(lo, std::min(hi, x)); };
  double a = cl(std::trunc(v - d)), b = cl(std::trunc(v + d));
  if (got >= a && got <= b) return true;
  if (!nearest_allowed) return false;
  a = cl(std::floor(v - d + 0.5) - (v - d + 0.5 == std::floor(v - d + 0.5) ? 1 : 0));
  b = cl(std::floor(v + d + 0.5));
  return got >= a && got <= b;
}

void t_quantize(G& g) {
  typedef Transform1DParams<float, std::uint8_t, Quantize> P;
  P p;
  int n = gen_count(g), mode = gen_mode(g);
  float lo = g.pick<float>({-100.0f, 0.0f, -1.0f, -6.0f, 3.5f, -0.001f}) , span = g.pick<float>({200.0f, 1.0f, 12.0f, 255.0f, 0.002f, 1000.0f});
  p.kernel.count = n;
  p.kernel.range_min = lo;
  p.kernel.range_scale = 255.0f / span;
  p.kernel.range_offset = g.pick<float>({0.0f, 0.0f, 10.0f, -20.0f, 0.5f});
  g.describe(strf("Quantize of %d elements min %g scale %g offset %g threads %d", n, lo, p.kernel.range_scale, p.kernel.range_offset, mode));
  pbt::Guarded in(n * 4, g.chance(3, 4), 4), out(n, g.chance(3, 4));
  Rng r(g.seed64());
  bool wild = g.chance(1, 4);
  for (int i = 0; i < n; i++) {
    float x = lo + span * static_cast<float>(r.below(100001)) / 100000.0f;
    if (r.below(8) == 0) x = lo + span * static_cast<float>(r.below(256)) / 255.0f;
    if (wild && r.below(4) == 0) x = static_cast<float>(static_cast<double>(r.range(-1000000, 1000000)) * std::pow(10.0, static_cast<double>(r.range(-3, 4))));
    at<float>(in)[i] = x;
  }
  in.readonly();
  p.input = at<float>(in);
  p.output = out.data();
  p.scratch = nullptr;
  apply(g, p, mode);
  for (int i = 0; i < n; i++) {
    double x = p.input[i], v = (x - lo) * p.kernel.range_scale + p.kernel.range_offset;
    double d = 1e-6 * (std::fabs(x) + std::fabs(lo)) * p.kernel.range_scale + 1e-6 * std::fabs(v) + 1e-6 * std::fabs(p.kernel.range_offset);
    if (!clamp_ok(out.data()[i], v, d, false, 0, 255))
      g.fail("Quantize element %d: %.9g gave %d expected %.9g truncated and clamped", i, x, out.data()[i], v);
  }
  if (!out.slack_intact()) g.fail("Quantize wrote outside the output");
  g.add_evals(n);
}

void t_dequantize(G& g) {
  typedef Transform1DParams<std::uint8_t, float, Dequantize> P;
  P p;
  int n = gen_count(g), mode = gen_mode(g);
  p.kernel.count = n;
  p.kernel.range_min = g.pick<float>({-100.0f, 0.0f, 1.5f, -0.25f});
  p.kernel.range_offset = g.pick<float>({0.0f, 0.0f, 128.0f, -7.0f});
  p.kernel.range_scale = g.pick<float>({200.0f / 255, 1.0f, 0.001f, -3.0f});
  g.describe(strf("Dequantize of %d elements min %g scale %g offset %g threads %d", n, p.kernel.range_min, p.kernel.range_scale, p.kernel.range_offset, mode));
  pbt::Guarded in(n, g.chance(3, 4)), out(n * 4, g.chance(3, 4), 4);
  Rng r(g.seed64());
  for (int i = 0; i < n; i++) in.data()[i] = r.below(256);
  in.readonly();
  p.input = in.data();
  p.output = at<float>(out);
  p.scratch = nullptr;
  apply(g, p, mode);
  for (int i = 0; i < n; i++) {
    double v = (double(p.input[i]) - p.kernel.range_offset) * p.kernel.range_scale + p.kernel.range_min;
    double d = 1e-6 * ((p.input[i] + std::fabs(p.kernel.range_offset)) * std::fabs(p.kernel.range_scale) + std::fabs(p.kernel.range_min));
    if (!(std::fabs(p.output[i] - v) <= d)) g.fail("Dequantize element %d: %d gave %.9g expected %.9g", i, p.input[i], p.output[i], v);
  }
  if (!out.slack_intact()) g.fail("Dequantize wrote outside the output");
  g.add_evals(n);
}

void t_requantize(G& g) {
  typedef Transform1DParams<std::int32_t, std::uint8_t, Requantize> P;
  P p;
  int n = gen_count(g), mode = gen_mode(g);
  p.kernel.count = n;
  double imin = g.pick<double>({-100.0, -1.0, 0.0, -500.0}), ispan = g.pick<double>({200.0, 1.0, 6.0, 1000.0});
  double omin = g.pick<double>({-100.0, -1.0, 0.0, 2.0}), ospan = g.pick<double>({200.0, 2.0, 6.0, 50.0});
  p.kernel.input_range_min = static_cast<float>(imin);
  p.kernel.input_range_scale = static_cast<float>(ispan / 4294967295.0);
  p.kernel.input_range_offset = -2147483648.0f;
  p.kernel.output_range_min = static_cast<float>(omin);
  p.kernel.one_over_output_range_scale = static_cast<float>(255.0 / ospan);
  p.kernel.output_range_offset = 0.0f;  // lowest value of the 8-bit output type
  g.describe(strf("Requantize of %d elements [%g,+%g] to [%g,+%g] threads %d", n, imin, ispan, omin, ospan, mode));
  pbt::Guarded in(n * 4, g.chance(3, 4), 4), out(n, g.chance(3, 4));
  Rng r(g.seed64());
  for (int i = 0; i < n; i++) {
    switch (r.below(4)) {
      case 0: at<int32_t>(in)[i] = static_cast<int32_t>(r.range(-2147483647 - 1, 2147483647)); break;
      case 1: at<int32_t>(in)[i] = r.below(2) ? 2147483647 : -2147483647 - 1; break;
      default: {  // inside the output range where possible
        double v = omin + ospan * static_cast<double>(r.below(1000001)) / 1e6;
        double q = (v - imin) / (ispan / 4294967295.0) - 2147483648.0;
        at<int32_t>(in)[i] = static_cast<int32_t>(std::max(-2147483648.0, std::min(2147483647.0, q)));
      }
    }
  }
  in.readonly();
  p.input = at<int32_t>(in);
  p.output = out.data();
  p.scratch = nullptr;
  apply(g, p, mode);
  // The rounding of a value may depend on the build (toward zero or to nearest),
  // but within one call every element is treated alike, wherever it stands.
  int nearest = -1;
  for (int i = 0; i < n; i++) {
    double real = (double(p.input[i]) + 2147483648.0) * p.kernel.input_range_scale + imin;
    double v = (real - omin) * p.kernel.one_over_output_range_scale;
    double d = 1e-6 * p.kernel.one_over_output_range_scale * (std::fabs(ispan) + std::fabs(imin) + std::fabs(omin)) + 1e-6 * std::fabs(v);
    int got = out.data()[i];
    if (!clamp_ok(got, v, d, true, 0, 255)) g.fail("Requantize element %d: %d gave %d expected %.9g rounded and clamped", i, p.input[i], got, v);
    if (v > 1 && v < 254) {
      double f = v - std::floor(v);
      if (f > 0.5 + d && f < 1 - d) {
        int up = got == static_cast<int>(std::floor(v)) + 1;
        if (nearest >= 0 && nearest != up) g.fail("Requantize element %d: %.9g gave %d, rounded %s while an earlier element was not", i, v, got, up ? "up" : "down");
        nearest = up;
      }
    }
  }
  if (!out.slack_intact()) g.fail("Requantize wrote outside the output");
  g.add_evals(n);
}

void t_minmax(G& g) {
  typedef Transform1DParams<std::uint8_t, std::uint8_t, MinMax<std::uint8_t>> P;
  P p;
  int n = gen_count(g), mode = gen_mode(g);
  p.kernel.count = n;
  int a = g.range(0, 255), b = g.range(0, 255);
  p.kernel.min = std::min(a, b);
  p.kernel.max = std::max(a, b);
  g.describe(strf("MinMax of %d elements to [%d,%d] threads %d", n, p.kernel.min, p.kernel.max, mode));
  pbt::Guarded in(n, g.chance(3, 4)), out(n, g.chance(3, 4));
  Rng r(g.seed64());
  for (int i = 0; i < n; i++) in.data()[i] = r.below(256);
  in.readonly();
  p.input = in.data();
  p.output = out.data();
  p.scratch = nullptr;
  apply(g, p, mode);
  for (int i = 0; i < n; i++) {
    int want = std::max<int>(p.kernel.min, std::min<int>(p.kernel.max, p.input[i]));
    if (out.data()[i] != want) g.fail("MinMax element %d: %d gave %d expected %d", i, p.input[i], out.data()[i], want);
  }
  if (!out.slack_intact()) g.fail("MinMax wrote outside the output");
  g.add_evals(n);
}

void t_biasadd(G& g) {
  typedef Transform1DParams<std::uint8_t, std::int32_t, BiasAdd<std::uint8_t>> P;
  P p;
  int n = g.chance(1, 8) ? g.range(1000, 2000) : g.range(1, 90), rows = g.range(1, 12);
  p.kernel.count = n;
  p.kernel.rows = rows;
  p.kernel.input_range_min = g.pick<float>({-100.0f, 0.0f, 1.0f});
  p.kernel.bias_range_min = g.pick<float>({-100.0f, 0.0f, -3.0f});
  p.kernel.output_range_min = g.pick<float>({-250.0f, 0.0f, -1000.0f});
  p.kernel.input_range_offset = 0.0f;  // lowest value of the 8-bit input types
  p.kernel.bias_range_offset = 0.0f;
  p.kernel.output_range_offset = g.pick<float>({-2147483648.0f, 0.0f, 1000.0f});
  p.kernel.input_range_scale = g.pick<float>({200.0f / 255, 1.0f / 255, 4.0f});
  p.kernel.bias_range_scale = g.pick<float>({200.0f / 255, 1.0f / 255, 4.0f});
  p.kernel.one_over_output_range_scale = g.pick<float>({4294967295.0f / 500.0f, 1.0f, 1000.0f});
  g.describe(strf("BiasAdd of %d rows of %d elements, input %g*%g bias %g*%g output %g %g %g", rows, n, p.kernel.input_range_min, p.kernel.input_range_scale,
                  p.kernel.bias_range_min, p.kernel.bias_range_scale, p.kernel.output_range_min, p.kernel.one_over_output_range_scale, p.kernel.output_range_offset));
  pbt::Guarded in(n * rows, g.chance(3, 4)), bias(n, g.chance(3, 4)), out(n * rows * 4, g.chance(3, 4), 4);
  Rng r(g.seed64());
  for (int i = 0; i < n * rows; i++) in.data()[i] = r.below(256);
  for (int i = 0; i < n; i++) bias.data()[i] = r.below(256);
  in.readonly();
  bias.readonly();
  p.input = in.data();
  p.kernel.bias = bias.data();
  p.output = at<int32_t>(out);
  p.scratch = nullptr;
  Transform1D<P, 16>(p);
  for (int i = 0; i < n * rows; i++) {
    double a = in.data()[i] * double(p.kernel.input_range_scale) + p.kernel.input_range_min;
    double b = bias.data()[i % n] * double(p.kernel.bias_range_scale) + p.kernel.bias_range_min;
    double v = (a + b - p.kernel.output_range_min) * p.kernel.one_over_output_range_scale + p.kernel.output_range_offset;
    double mag = (1020 + std::fabs(p.kernel.input_range_min) + 1020 + std::fabs(p.kernel.bias_range_min) + std::fabs(p.kernel.output_range_min)) * p.kernel.one_over_output_range_scale + std::fabs(p.kernel.output_range_offset);
    double d = 3e-7 * mag + 1;
    double w = std::max(-2147483648.0, std::min(2147483647.0, v));
    if (!(std::fabs(p.output[i] - w) <= d)) g.fail("BiasAdd element %d (column %d): input %d bias %d gave %d expected %.9g", i, i % n, in.data()[i], bias.data()[i % n], p.output[i], v);
  }
  if (!out.slack_intact()) g.fail("BiasAdd wrote outside the output");
  g.add_evals(n * rows);
}

void prop_transform(G& g) {
  int w = g.draw(5);
  static const char* names[] = {"quantize", "dequantize", "requantize", "minmax", "biasadd"};
  g.label(std::string("transform:") + names[w]);
  g.nontrivial(true);
  switch (w) {
    case 0: t_quantize(g); return;
    case 1: t_dequantize(g); return;
    case 2: t_requantize(g); return;
    case 3: t_minmax(g); return;
    default: t_biasadd(g); return;
  }
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"transform", prop_transform}}); }

#else
// ---- C17 ------------------------------------------------------------------------
template <typename Layout, int lanes, int left>
void pack(G& g, int count) {
  typedef Stream<std::uint8_t, lanes, 8, left, Layout> S;
  const bool col = std::is_same<Layout, ColumnMajorWithSum>::value;
  int stride = (col ? lanes : count) + (g.boolean() ? 0 : g.pick<int>({1, 2, 3, 7, 8, 13, 100}));
  Layout p;
  p.count = count;
  p.stride = stride;
  p.multiplicative_sum_offset = g.signed_range(-300, 300);
  p.additive_sum_offset = g.signed_range(-2000000, 2000000);
  g.describe(strf("pack %s lanes %d count %d stride %d multiplier %d addend %d", col ? "columns" : "rows", lanes, count, stride, p.multiplicative_sum_offset, p.additive_sum_offset));
  size_t bytes = col ? size_t(count - 1) * stride + lanes : size_t(lanes - 1) * stride + count;
  pbt::Guarded in(bytes, g.chance(3, 4)), out(S::PackedStride(p), true, 32);
  Rng r(g.seed64());
  int pattern = g.draw(3);
  for (size_t i = 0; i < bytes; i++) in.data()[i] = pattern == 0 ? r.below(256) : pattern == 1 ? 255 : (i * 31) & 255;
  auto src = [&](int lane, int i) -> int { return in.data()[col ? size_t(i) * stride + lane : size_t(lane) * stride + i]; };
  in.readonly();
  S::Pack(in.data(), p, out.data());
  int groups = (count + 7) / 8;
  for (int q = 0; q < groups; q++)
    for (int l = 0; l < lanes; l++)
      for (int e = 0; e < 8; e++) {
        int i = q * 8 + e, want = i < count ? src(l, i) : 0, got = out.data()[(size_t(q) * lanes + l) * 8 + e];
        if (got != want) g.fail("packed lane %d element %d is %d expected %d", l, i, got, want);
      }
  const uint8_t* sums = out.data() + size_t(groups) * lanes * 8;
  for (int l = 0; l < lanes; l++) {
    int64_t s = 0;
    for (int i = 0; i < count; i++) s += src(l, i);
    int32_t want = static_cast<int32_t>(s * p.multiplicative_sum_offset + p.additive_sum_offset), got;
    memcpy(&got, sums + l * 4, 4);
    if (got != want) g.fail("lane %d sum is %d expected %d", l, got, want);
  }
  if (!out.slack_intact()) g.fail("wrote outside the packed block");
  g.label(strf("lanes:%d", lanes));
  g.label(strf("leftovers:%d", left));
  g.add_evals(uint64_t(lanes) * count);
}
template <int lanes, int left>
void pack_layout(G& g, int count) {
  if (g.boolean()) pack<RowMajorWithSum, lanes, left>(g, count);
  else pack<ColumnMajorWithSum, lanes, left>(g, count);
}
template <int lanes>
void pack_lanes(G& g, int count) {
  switch (count % 8) {
    case 0: pack_layout<lanes, 0>(g, count); return;
    case 1: pack_layout<lanes, 1>(g, count); return;
    case 2: pack_layout<lanes, 2>(g, count); return;
    case 3: pack_layout<lanes, 3>(g, count); return;
    case 4: pack_layout<lanes, 4>(g, count); return;
    case 5: pack_layout<lanes, 5>(g, count); return;
    case 6: pack_layout<lanes, 6>(g, count); return;
    default: pack_layout<lanes, 7>(g, count); return;
  }
}
void prop_pack(G& g) {
  int lanes = g.range(1, 8), count;
  switch (g.weighted({4, 3, 1})) {
    case 0: count = g.range(1, 40); break;
    case 1: count = g.range(1, 300); break;
    default: count = g.range(1900, 2048); break;
  }
  g.nontrivial(true);
  switch (lanes) {
    case 1: pack_lanes<1>(g, count); return;
    case 2: pack_lanes<2>(g, count); return;
    case 3: pack_lanes<3>(g, count); return;
    case 4: pack_lanes<4>(g, count); return;
    case 5: pack_lanes<5>(g, count); return;
    case 6: pack_lanes<6>(g, count); return;
    case 7: pack_lanes<7>(g, count); return;
    default: pack_lanes<8>(g, count); return;
  }
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"pack", prop_pack}}); }
#endif
