// formats.cc: the generic packing / blocking / unpacking machinery through
// reference kernels of many block formats (C20), driven exactly as the
// repository's own test drives it.
#include "gemm_common.h"
#include "internal/kernel_reference.h"
#include "internal/multi_thread_gemm.h"
#include "internal/single_thread_gemm.h"

using namespace gemmlowp;
using namespace vg;

typedef VectorMap<const std::int32_t, VectorShape::Col> ColMap;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowMap;
typedef VectorDup<const std::int32_t, VectorShape::Col> ColDup;
typedef VectorDup<const std::int32_t, VectorShape::Row> RowDup;

template <int W, int D, CellOrder O, int C>
using KSide = KernelSideFormat<CellFormat<W, D, O>, C>;

template <typename Kernel, MapOrder L, MapOrder R, MapOrder Dst>
void gemm(bool multi, MultiThreadGemmContext* mc, SingleThreadGemmContext* sc, const Mat<std::uint8_t>& ml, const Mat<std::uint8_t>& mr,
          Mat<std::int32_t>& md, int lo, int ro) {
  MatrixMap<const std::uint8_t, L> lhs(ml.data(), ml.rows, ml.cols, ml.stride);
  MatrixMap<const std::uint8_t, R> rhs(mr.data(), mr.rows, mr.cols, mr.stride);
  MatrixMap<std::int32_t, Dst> res(md.data(), md.rows, md.cols, md.stride);
  const ColDup lov(lo, md.rows);
  const RowDup rov(ro, md.cols);
  const std::tuple<> empty;
  if (multi)
    MultiThreadGemm<typename Kernel::Format, std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams, L, R, Dst, ColDup, RowDup>(
        mc, Kernel(), lhs, rhs, &res, lov, rov, empty);
  else
    SingleThreadGemm<typename Kernel::Format, std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams, L, R, Dst, ColDup, RowDup>(
        sc, Kernel(), lhs, rhs, &res, lov, rov, empty);
}

template <typename Format>
void run_format(G& g, const char* name) {
  typedef ReferenceKernel<Format> Kernel;
  Shape s = gen_shape(g);
  while (int64_t(s.m) * s.n * s.k > 150000) {  // reference kernels are slow
    int* p = &s.m;
    if (s.n > *p) p = &s.n;
    if (s.k > *p) p = &s.k;
    *p = *p * 2 / 3 + 1;
  }
  if (s.m < s.n) std::swap(s.m, s.n);  // these entry points require rows >= cols
  CtxCfg cfg = gen_ctx(g, 50, 50);
  bool multi = g.boolean();
  int orders = g.draw(4);
  bool lr = orders & 1, rr = orders & 2, dr = orders == 1 || orders == 2;
  uint64_t seed = g.seed64();
  std::vector<int16_t> L, R;
  const char* ln = fill_bytes(g.draw(kPatterns), seed, 0, 255, s.m, s.k, &L);
  const char* rn = fill_bytes(g.draw(kPatterns), seed + 1, 0, 255, s.k, s.n, &R);
  int lo, ro;
  gen_offsets(g, s.k, false, &lo, &ro);
  Mat<std::uint8_t> ml, mr;
  Mat<std::int32_t> md;
  ml.init(s.m, s.k, lr, gen_pad(g, s.m, s.k, lr, s), true);
  mr.init(s.k, s.n, rr, gen_pad(g, s.k, s.n, rr, s), true);
  md.init(s.m, s.n, dr, gen_pad(g, s.m, s.n, dr, s), true);
  ml.set(L, seed + 3);
  mr.set(R, seed + 4);
  md.junk(seed + 5);
  g.describe(strf("%s %dx%dx%d(%s) %s orders=%c%c%c lhs=%s rhs=%s lo=%d ro=%d %s seed=%llu", name, s.m, s.k, s.n, s.cls,
                  multi ? "multi" : "single", lr ? 'R' : 'C', rr ? 'R' : 'C', dr ? 'R' : 'C', ln, rn, lo, ro, cfg.str().c_str(),
                  (unsigned long long)seed));
  std::vector<int64_t> acc;
  ref_accum(L, R, s.m, s.n, s.k, std::vector<int32_t>(s.m, lo), std::vector<int32_t>(s.n, ro), &acc);
  for (int64_t v : acc)
    if (v > INT32_MAX || v < INT32_MIN) return;
  GemmContext ctx;
  apply_ctx(cfg, &ctx);
  const MapOrder RM = MapOrder::RowMajor, CM = MapOrder::ColMajor;
  switch (orders) {
    case 0: gemm<Kernel, CM, CM, CM>(multi, &ctx, &ctx, ml, mr, md, lo, ro); break;
    case 1: gemm<Kernel, RM, CM, RM>(multi, &ctx, &ctx, ml, mr, md, lo, ro); break;
    case 2: gemm<Kernel, CM, RM, RM>(multi, &ctx, &ctx, ml, mr, md, lo, ro); break;
    default: gemm<Kernel, RM, RM, CM>(multi, &ctx, &ctx, ml, mr, md, lo, ro); break;
  }
  for (int i = 0; i < s.m; i++)
    for (int j = 0; j < s.n; j++)
      if (md.at(i, j) != acc[static_cast<size_t>(i) * s.n + j])
        g.fail("result(%d,%d)=%d expected %lld", i, j, md.at(i, j), (long long)acc[static_cast<size_t>(i) * s.n + j]);
  g.label(std::string("format:") + name);
  g.label(std::string("shape:") + s.cls);
  g.add_evals(static_cast<uint64_t>(s.m) * s.n);
  g.nontrivial(s.k > 1 && s.m > 4);
}

typedef void (*Fn)(G&, const char*);
struct Entry {
  const char* name;
  Fn fn;
};
#define F(w1, d1, o1, c1, w2, d2, o2, c2)                                                                       \
  {#w1 "x" #d1 #o1 "*" #c1 "," #w2 "x" #d2 #o2 "*" #c2,                                                          \
   run_format<KernelFormat<KSide<w1, d1, CellOrder::o1, c1>, KSide<w2, d2, CellOrder::o2, c2>>>}
std::vector<Entry> f1();
std::vector<Entry> f2();
std::vector<Entry> f3();
std::vector<Entry> f4();
std::vector<Entry> f5();
#if PART == 1
std::vector<Entry> f1() {
  return {F(1, 1, DepthMajor, 1, 1, 1, DepthMajor, 1), F(4, 2, DepthMajor, 3, 4, 2, DepthMajor, 1), F(4, 2, WidthMajor, 3, 4, 2, WidthMajor, 2),
          F(3, 4, DepthMajor, 2, 2, 4, WidthMajor, 1)};
}
#elif PART == 2
std::vector<Entry> f2() {
  return {F(4, 4, Diagonal, 1, 4, 4, Diagonal, 1), F(2, 2, Diagonal, 3, 2, 2, DepthMajor, 2), F(5, 2, WidthMajor, 1, 1, 2, DepthMajor, 4),
          F(4, 16, WidthMajor, 1, 4, 16, WidthMajor, 1)};
}
#elif PART == 3
std::vector<Entry> f3() {
  return {F(8, 1, DepthMajor, 1, 8, 1, WidthMajor, 2), F(1, 8, WidthMajor, 3, 7, 8, DepthMajor, 1), F(4, 2, DepthMajor, 5, 2, 2, Diagonal, 2),
          F(16, 8, WidthMajor, 1, 3, 8, DepthMajor, 1)};
}
#elif PART == 4
std::vector<Entry> f4() {
  return {F(4, 1, DepthMajor, 2, 3, 1, WidthMajor, 3), F(6, 16, DepthMajor, 1, 2, 16, WidthMajor, 3), F(2, 16, WidthMajor, 2, 2, 16, WidthMajor, 2),
          F(8, 8, Diagonal, 2, 8, 8, Diagonal, 1)};
}
#elif PART == 5
std::vector<Entry> f5() {
  return {F(20, 16, WidthMajor, 1, 3, 16, DepthMajor, 1), F(24, 16, DepthMajor, 1, 20, 16, WidthMajor, 1),
          F(16, 16, Diagonal, 1, 16, 16, Diagonal, 2), F(12, 4, WidthMajor, 3, 8, 4, DepthMajor, 3)};
}
#else
void prop(G& g) {
  static std::vector<Entry> v;
  if (v.empty())
    for (auto f : {f1, f2, f3, f4, f5})
      for (auto& e : f()) v.push_back(e);
  const Entry& e = v[g.draw(v.size())];
  e.fn(g, e.name);
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"formats", prop}}); }
#endif
