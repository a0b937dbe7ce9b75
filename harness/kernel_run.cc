// kernel_run.cc: the optimized kernels of the library on packed blocks (C28).
// A kernel overwrites (start depth 0) or adds to (any other) a block of
// results, whose columns lie a given stride apart.
#include <limits>

#include "pbt.h"
#include "public/gemmlowp.h"

using namespace gemmlowp;
using pbt::G;
using pbt::Rng;
using pbt::strf;

namespace {

// Position of element (w, d) of one side in its packed block, from the format.
template <typename Side>
size_t packed_pos(int w, int d) {
  typedef typename Side::Cell Cell;
  int cell = w / Cell::kWidth, wi = w % Cell::kWidth, dc = d / Cell::kDepth, di = d % Cell::kDepth;
  size_t base = (static_cast<size_t>(dc) * Side::kCells + cell) * Cell::kWidth * Cell::kDepth;
  if (Cell::kOrder == CellOrder::DepthMajor) return base + wi + di * Cell::kWidth;
  if (Cell::kOrder == CellOrder::WidthMajor) return base + di + wi * Cell::kDepth;
  int n = Cell::kWidth;
  return base + ((n + wi - di) * n + di) % (n * n);
}

const char* const kPat[] = {"random", "extremes", "allmax", "allmin", "sparse", "onehot"};
template <typename T>
struct Fill {
  // All values of the range [lo, hi] can occur.
  static T one(Rng& r, int pat, int64_t lo, int64_t hi) {
    switch (pat) {
      case 0: return static_cast<T>(r.range(lo, hi));
      case 1: return static_cast<T>(r.below(2) ? hi : lo);
      case 2: return static_cast<T>(hi);
      case 3: return static_cast<T>(lo);
      case 4: return static_cast<T>(r.below(6) ? 0 : r.range(lo, hi));
      default: return 0;
    }
  }
};

// A 64-byte aligned block with a canary on both sides.
template <typename T>
struct Block {
  std::vector<uint8_t> raw;
  uint8_t* p;
  size_t n;
  static const size_t kSide = 4096;  // some kernels load one step ahead
  explicit Block(size_t count) : raw(count * sizeof(T) + 2 * kSide + 64), n(count * sizeof(T)) {
    p = raw.data() + kSide;
    p += (64 - reinterpret_cast<uintptr_t>(p) % 64) % 64;
    for (size_t i = 0; i < raw.size(); i++) raw[i] = static_cast<uint8_t>(i * 7 + 3);
  }
  T* data() { return reinterpret_cast<T*>(p); }
  bool intact() const {
    for (size_t i = 0; i < raw.size(); i++)
      if ((raw.data() + i < p || raw.data() + i >= p + n) && raw[i] != static_cast<uint8_t>(i * 7 + 3)) return false;
    return true;
  }
};

const int kMost = 3;

// Runs a kernel on several right-hand blocks in a row.  Called by its own type
// it may be expanded in place: the loop's and these other values share the
// registers with it.
template <typename Kernel>
__attribute__((noinline)) bool in_place(const Kernel& k, std::int32_t* dst, size_t step, size_t stride, const std::uint8_t* lhs,
                                        const std::uint8_t* rhs, size_t rhs_step, size_t start, size_t depth, int calls,
                                        const volatile double* dv, const volatile int* iv) {
  double d0 = dv[0], d1 = dv[1], d2 = dv[2], d3 = dv[3], d4 = dv[4], d5 = dv[5], d6 = dv[6], d7 = dv[7];
  double e0 = dv[8], e1 = dv[9], e2 = dv[10], e3 = dv[11], e4 = dv[12], e5 = dv[13], e6 = dv[14], e7 = dv[15];
  int i0 = iv[0], i1 = iv[1], i2 = iv[2], i3 = iv[3];
  for (int c = 0; c < calls; c++) k.Kernel::Run(dst + c * step, 1, stride, lhs, rhs + c * rhs_step, start, depth);
  return d0 == dv[0] && d1 == dv[1] && d2 == dv[2] && d3 == dv[3] && d4 == dv[4] && d5 == dv[5] && d6 == dv[6] && d7 == dv[7] &&
         e0 == dv[8] && e1 == dv[9] && e2 == dv[10] && e3 == dv[11] && e4 == dv[12] && e5 == dv[13] && e6 == dv[14] &&
         e7 == dv[15] && i0 == iv[0] && i1 == iv[1] && i2 == iv[2] && i3 == iv[3];
}
// The same through the base class, as the library calls it.
__attribute__((noinline)) void by_base(const KernelBase& k, std::int32_t* dst, size_t step, size_t stride, const std::uint8_t* lhs,
                                       const std::uint8_t* rhs, size_t rhs_step, size_t start, size_t depth, int calls) {
  for (int c = 0; c < calls; c++) k.Run(dst + c * step, 1, stride, lhs, rhs + c * rhs_step, start, depth);
}

template <typename Kernel>
void run_kernel(G& g, const char* name, int rmax) {
  typedef typename Kernel::Format F;
  typedef typename F::Lhs::Scalar T;
  const bool sgn = std::numeric_limits<T>::is_signed;
  const int llo = sgn ? -127 : 0, lhi = sgn ? 127 : 255, rlo = sgn ? -128 : 0, rhi = rmax ? rmax : sgn ? 127 : 255;
  // The library packs depth in whole registers.
#if defined(__AVX2__)
  const int kUnit = 32;
#else
  const int kUnit = 16;
#endif
  static_assert(kUnit % F::kDepth == 0, "");
  int steps;
  switch (g.weighted({3, 4, 2, 1})) {
    case 0: steps = g.range(1, 4); break;
    case 1: steps = g.range(1, 20); break;
    case 2: steps = std::max<int>(1, static_cast<int>(g.range(1, 1040)) / kUnit); break;
    default: steps = std::max<int>(1, static_cast<int>(g.range(1000, 9000)) / kUnit); break;
  }
  const int depth = steps * kUnit, rows = F::kRows, cols = F::kCols;
  const int calls = static_cast<int>(g.range(1, kMost));
  const int stride = rows * static_cast<int>(g.weighted({3, 1}) == 0 ? 1 : g.range(1, 9));
  size_t start = 0;
  switch (g.weighted({4, 3, 2, 1})) {
    case 0: break;
    case 1: start = static_cast<size_t>(g.range(1, 200)) * F::kDepth; break;
    case 2: start = static_cast<size_t>(F::kDepth) << g.range(0, 20); break;
    default: start = 256 * static_cast<size_t>(g.range(1, 300)); break;
  }
  int lp = g.draw(6), rp = g.draw(6), ak = g.draw(3);
  uint64_t seed = g.seed64();
  g.describe(strf("%s depth %d from %llu stride %d lhs %s rhs %s initial %d calls %d seed %llu", name, depth, (unsigned long long)start, stride,
                  kPat[lp], kPat[rp], ak, calls, (unsigned long long)seed));
  g.label(name);
  g.label(start ? "accumulates" : "overwrites");
  g.nontrivial(steps > 1 && lp != 5 && rp != 5);
  const bool virt = seed & 1;
  Rng r(seed);
  const size_t rhs_step = static_cast<size_t>(cols) * depth, dst_step = static_cast<size_t>(stride) * cols;
  Block<T> lhs(static_cast<size_t>(rows) * depth), rhs(rhs_step * calls);
  Block<std::int32_t> dst(dst_step * calls);
  std::vector<T> L(static_cast<size_t>(rows) * depth), R(rhs_step * calls);
  for (auto& x : L) x = Fill<T>::one(r, lp, llo, lhi);
  for (auto& x : R) x = Fill<T>::one(r, rp, rlo, rhi);
  if (lp == 5) L[r.below(L.size())] = static_cast<T>(lhi);
  if (rp == 5) R[r.below(R.size())] = static_cast<T>(rlo ? rlo : rhi);
  for (int w = 0; w < rows; w++)
    for (int d = 0; d < depth; d++) lhs.data()[packed_pos<typename F::Lhs>(w, d)] = L[static_cast<size_t>(w) * depth + d];
  for (int c = 0; c < calls; c++)
    for (int w = 0; w < cols; w++)
      for (int d = 0; d < depth; d++)
        rhs.data()[c * rhs_step + packed_pos<typename F::Rhs>(w, d)] = R[c * rhs_step + static_cast<size_t>(w) * depth + d];
  std::vector<std::int32_t> expect(dst_step * calls);
  for (auto& x : expect) x = ak == 0 ? 0 : ak == 1 ? static_cast<std::int32_t>(r.next()) : static_cast<std::int32_t>(r.below(201)) - 100;
  for (size_t i = 0; i < expect.size(); i++) dst.data()[i] = expect[i];
  for (int j = 0; j < cols * calls; j++)
    for (int i = 0; i < rows; i++) {
      uint32_t a = start ? static_cast<uint32_t>(expect[i + static_cast<size_t>(j) * stride]) : 0;
      const T* l = &L[static_cast<size_t>(i) * depth];
      const T* q = &R[static_cast<size_t>(j) * depth];
      for (int d = 0; d < depth; d++) a += static_cast<uint32_t>(static_cast<int>(l[d]) * static_cast<int>(q[d]));
      expect[i + static_cast<size_t>(j) * stride] = static_cast<std::int32_t>(a);
    }
  std::vector<uint8_t> l0 = lhs.raw, r0 = rhs.raw;
  const Kernel kernel;
  const std::uint8_t* lb = reinterpret_cast<const std::uint8_t*>(lhs.data());
  const std::uint8_t* rb = reinterpret_cast<const std::uint8_t*>(rhs.data());
  volatile double dv[16];
  volatile int iv[4];
  for (auto& x : dv) x = static_cast<double>(r.below(1 << 20)) + 0.5;
  for (auto& x : iv) x = static_cast<int>(r.below(1 << 30));
  bool kept = true;
  if (virt) by_base(kernel, dst.data(), dst_step, stride, lb, rb, rhs_step, start, depth, calls);
  else kept = in_place(kernel, dst.data(), dst_step, stride, lb, rb, rhs_step, start, depth, calls, dv, iv);
  for (int j = 0; j < cols * calls; j++)
    for (int i = 0; i < stride; i++) {
      size_t at = i + static_cast<size_t>(j) * stride;
      if (dst.data()[at] != expect[at]) {
        if (i >= rows) g.fail("%s depth %d changes entry %d after column %d", name, depth, i - rows, j);
        g.fail("%s depth %d from %llu: block %d result(%d,%d) = %d expected %d", name, depth, (unsigned long long)start, j / cols, i, j % cols,
               dst.data()[at], expect[at]);
      }
    }
  if (!kept) g.fail("%s depth %d changes registers it does not declare", name, depth);
  if (!dst.intact()) g.fail("%s depth %d writes outside its results", name, depth);
  if (lhs.raw != l0 || rhs.raw != r0) g.fail("%s depth %d changes its operands", name, depth);
  g.label(virt ? "call:virtual" : "call:in place");
  g.add_evals(static_cast<uint64_t>(rows) * cols * calls);
}

typedef void (*Fn)(G&);
#define K(name, rmax) [](G& g) { run_kernel<name>(g, #name, rmax); }
// The kernel the library selects for some operand ranges.
#define D(lo, rmax)                                                                                                   \
  [](G& g) {                                                                                                           \
    run_kernel<DefaultKernel<BitDepthParams<OperandRange<lo, 255>, OperandRange<0, rmax>>>>(g, "default for " #lo "..255 x 0.." #rmax, \
                                                                                            rmax == 255 ? 0 : rmax);   \
  }
const Fn kKernels[] = {
    D(0, 255), D(1, 255), D(0, 15),
#ifdef GEMMLOWP_NEON_32
    K(NEON_32_Kernel12x4Depth2, 0),
    K(NEON_32_Kernel12x4Depth2Assuming12BitProducts, 15),
    K(NEON_32bit_GEMM_Int8Operands_LhsNonzero, 0),
#endif
#ifdef GEMMLOWP_NEON_64
    K(NEON_64_Kernel12x8Depth2, 0),
    K(NEON_64bit_GEMM_Int8Operands_LhsNonzero, 0),
#ifdef GEMMLOWP_DOTPROD_KERNEL
    K(NEON_64_Kernel12x8Depth4_dotprod, 0),
#endif
#endif
#ifdef GEMMLOWP_MSA
    K(MSA_Kernel12x8Depth2, 0),
    K(MSA_GEMM_Int8Operands_LhsNonzero, 0),
#endif
};
const int kN = sizeof(kKernels) / sizeof(kKernels[0]);

void prop_run(G& g) { kKernels[g.draw(kN)](g); }

}  // namespace

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"run", prop_run}}); }
