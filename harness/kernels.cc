// kernels.cc: the kernels of the standalone kernel testbed (C27).  Every
// kernel adds the product of two packed blocks to a block of accumulators.
#ifdef __mips  // what the freestanding runtime of that target lacks
#include <stdlib.h>
#include <time.h>
#include <algorithm>
#include <cstdlib>
#include <iostream>
#include <random>
#define clock_gettime(a, b) ((b)->tv_sec = 0, (b)->tv_nsec = 0)
#define atoi(x) 16
#define getenv(x) static_cast<const char*>(nullptr)
#endif
#define main static __attribute__((unused)) verif_testbed_main
#include "standalone/neon-gemm-kernel-benchmark.cc"
#undef main
#ifdef __mips
#undef atoi
#undef getenv
#undef clock_gettime
#endif

#include "pbt.h"

using pbt::G;
using pbt::Rng;
using pbt::strf;

namespace {

enum Range { kFull, kNo128, k7, k425 };

// Position of element (w, d) of one side in its packed block, from the format.
template <typename Side>
size_t packed_pos(int w, int d) {
  typedef typename Side::Cell Cell;
  int cell = w / Cell::kWidth, wi = w % Cell::kWidth, dc = d / Cell::kDepth, di = d % Cell::kDepth;
  size_t base = (static_cast<size_t>(dc) * Side::kCells + cell) * Cell::kWidth * Cell::kDepth;
  if (Cell::kOrder == CellOrder::DepthMajor) return base + wi + di * Cell::kWidth;
  if (Cell::kOrder == CellOrder::WidthMajor) return base + di + wi * Cell::kDepth;
  int n = Cell::kWidth;
  return base + ((n + wi - di) * n + di) % (n * n);
}

const char* const kPat[] = {"random", "extremes", "allmax", "allmin", "sparse", "onehot"};
template <typename T>
struct Fill {
  // All values of the range [lo, hi] can occur.
  static T one(Rng& r, int pat, int64_t lo, int64_t hi) {
    switch (pat) {
      case 0: return static_cast<T>(r.range(lo, hi));
      case 1: return static_cast<T>(r.below(2) ? hi : lo);
      case 2: return static_cast<T>(hi);
      case 3: return static_cast<T>(lo);
      case 4: return static_cast<T>(r.below(6) ? 0 : r.range(lo, hi));
      default: return 0;
    }
  }
};

// A 64-byte aligned block with a canary on both sides.
template <typename T>
struct Block {
  std::vector<uint8_t> raw;
  uint8_t* p;
  size_t n;
  static const size_t kSide = 4096;  // some kernels load one step ahead
  explicit Block(size_t count) : raw(count * sizeof(T) + 2 * kSide + 64), n(count * sizeof(T)) {
    p = raw.data() + kSide;
    p += (64 - reinterpret_cast<uintptr_t>(p) % 64) % 64;
    for (size_t i = 0; i < raw.size(); i++) raw[i] = static_cast<uint8_t>(i * 7 + 3);
  }
  T* data() { return reinterpret_cast<T*>(p); }
  bool intact() const {
    for (size_t i = 0; i < raw.size(); i++)
      if ((raw.data() + i < p || raw.data() + i >= p + n) && raw[i] != static_cast<uint8_t>(i * 7 + 3)) return false;
    return true;
  }
};

template <typename Acc>
struct Arith {  // modulo 2^32
  static Acc add(Acc a, int64_t l, int64_t r) {
    return static_cast<Acc>(static_cast<uint32_t>(a) + static_cast<uint32_t>(l) * static_cast<uint32_t>(r));
  }
  static Acc initial(Rng& r, int kind) {
    switch (kind) {
      case 0: return 0;
      case 1: return static_cast<Acc>(r.next());
      case 2: return static_cast<Acc>(r.below(201)) - (static_cast<Acc>(-1) < 0 ? 100 : 0);
      default: return static_cast<Acc>(r.below(2) ? 0x7fffffffu - r.below(3) : 0x80000000u + r.below(3));
    }
  }
};
template <>
struct Arith<float> {  // small multiples of 1/4: every sum is exact in any order
  static float add(float a, double l, double r) { return static_cast<float>(a + l * r); }
  static float initial(Rng& r, int kind) { return kind == 0 ? 0.f : (static_cast<int>(r.below(20001)) - 10000) * 0.25f; }
};
template <typename T>
T scaled(T v) { return v; }
template <>
float scaled(float v) { return v * 0.5f; }

template <typename Kernel>
void run_kernel(G& g, const char* name, Range range) {
  typedef typename Kernel::OperandType T;
  typedef typename Kernel::AccumulatorType Acc;
  typedef typename Kernel::Format F;
  const bool flt = std::is_same<T, float>::value;
  int64_t llo, lhi, rlo, rhi;
  switch (range) {
    case k7: llo = -63; lhi = 63; rlo = -64; rhi = 63; break;
    case k425: llo = -7; lhi = 7; rlo = -9; rhi = 9; break;
    case kNo128: llo = -127; lhi = 127; rlo = -128; rhi = 127; break;
    default:
      llo = rlo = flt ? -60 : static_cast<int64_t>(std::numeric_limits<T>::lowest());
      lhi = rhi = flt ? 60 : static_cast<int64_t>(std::numeric_limits<T>::max());
      break;
  }
  int steps;
  switch (g.weighted({3, 4, 2, 1})) {
    case 0: steps = g.range(1, 6); break;
    case 1: steps = g.range(1, 80); break;
    case 2: steps = std::max<int>(1, static_cast<int>(g.range(1, 1040)) / F::kDepth); break;
    default: steps = std::max<int>(1, static_cast<int>(g.range(1000, flt ? 2400 : 9000)) / F::kDepth); break;
  }
  const int depth = steps * F::kDepth, rows = F::kRows, cols = F::kCols;
  int lp = g.draw(6), rp = g.draw(6), ak = g.draw(4);
  uint64_t seed = g.seed64();
  g.describe(strf("%s depth %d lhs %s rhs %s initial %d seed %llu", name, depth, kPat[lp], kPat[rp], ak, (unsigned long long)seed));
  g.label(name);
  g.label(depth > 1024 ? "depth:beyond the testbed's" : "depth:short");
  g.nontrivial(steps > 1 && lp != 5 && rp != 5);
  Rng r(seed);
  Block<T> lhs(static_cast<size_t>(rows) * depth), rhs(static_cast<size_t>(cols) * depth);
  Block<Acc> acc(rows * cols);
  std::vector<T> L(static_cast<size_t>(rows) * depth), R(static_cast<size_t>(cols) * depth);
  for (auto& x : L) x = Fill<T>::one(r, lp, llo, lhi);
  for (auto& x : R) x = Fill<T>::one(r, rp, rlo, rhi);
  if (lp == 5) L[r.below(L.size())] = static_cast<T>(lhi);
  if (rp == 5) R[r.below(R.size())] = static_cast<T>(rlo ? rlo : rhi);
  for (auto& x : L) x = scaled(x);
  for (auto& x : R) x = scaled(x);
  for (int w = 0; w < rows; w++)
    for (int d = 0; d < depth; d++) lhs.data()[packed_pos<typename F::Lhs>(w, d)] = L[static_cast<size_t>(w) * depth + d];
  for (int w = 0; w < cols; w++)
    for (int d = 0; d < depth; d++) rhs.data()[packed_pos<typename F::Rhs>(w, d)] = R[static_cast<size_t>(w) * depth + d];
  std::vector<Acc> expect(rows * cols);
  for (auto& x : expect) x = Arith<Acc>::initial(r, ak);
  for (size_t i = 0; i < expect.size(); i++) acc.data()[i] = expect[i];
  for (int j = 0; j < cols; j++)
    for (int i = 0; i < rows; i++) {
      Acc a = expect[i + j * rows];
      const T* l = &L[static_cast<size_t>(i) * depth];
      const T* q = &R[static_cast<size_t>(j) * depth];
      for (int d = 0; d < depth; d++) a = Arith<Acc>::add(a, l[d], q[d]);
      expect[i + j * rows] = a;
    }
  std::vector<uint8_t> l0 = lhs.raw, r0 = rhs.raw;
  Kernel::Run(lhs.data(), rhs.data(), acc.data(), depth);
  for (int j = 0; j < cols; j++)
    for (int i = 0; i < rows; i++)
      if (acc.data()[i + j * rows] != expect[i + j * rows])
        g.fail("%s depth %d: accumulator(%d,%d) = %.9g expected %.9g", name, depth, i, j, (double)acc.data()[i + j * rows],
               (double)expect[i + j * rows]);
  if (!acc.intact()) g.fail("%s depth %d writes outside its accumulators", name, depth);
  if (lhs.raw != l0 || rhs.raw != r0) g.fail("%s depth %d changes its operands", name, depth);
  g.add_evals(static_cast<uint64_t>(rows) * cols);
}

typedef void (*Fn)(G&);
#define K(name, range) [](G& g) { run_kernel<name>(g, #name, range); }
const Fn kKernels[] = {
#ifdef __arm__
    K(NEON_32bit_GEMM_Int8Operands_AccumTwoWithin16Bits, kNo128),
    K(NEON_32bit_GEMM_Int8Operands_AccumTwoWithin16Bits_intrinsics, kNo128),
    K(NEON_32bit_GEMM_Uint8Operands_Uint32Accumulators, kFull),
    K(NEON_32bit_GEMM_Uint8Operands_Uint32Accumulators_intrinsics, kFull),
    K(NEON_32bit_GEMM_Uint8Operands_Uint32Accumulators_noexpand, kFull),
    K(NEON_32bit_GEMM_Int32_WithScalar, kFull),
    K(NEON_32bit_GEMM_Float32_MLA_WithVectorDuplicatingScalar, kFull),
    K(NEON_32bit_GEMM_Float32_MLA_WithScalar, kFull),
    K(NEON_32bit_GEMM_Float32_WithScalar_intrinsics, kFull),
    K(NEON_32bit_GEMM_Float32_WithScalar_A53, kFull),
    K(NEON_32bit_GEMM_Float32_WithScalar_A53_depth2, kFull),
    K(NEON_32bit_GEMM_Float32_MLA_Rotating, kFull),
#ifdef __ARM_FEATURE_FMA
    K(NEON_32bit_GEMM_Float32_FMA_WithVectorDuplicatingScalar, kFull),
    K(NEON_32bit_GEMM_Float32_FMA_Rotating, kFull),
#endif
#endif
#ifdef __aarch64__
    K(NEON_64bit_GEMM_Int425Operands, k425),
    K(NEON_64bit_GEMM_Int425Operands_intrinsics, k425),
    K(NEON_64bit_GEMM_Int7Operands_AccumEightWithin16Bits, k7),
    K(NEON_64bit_GEMM_Int7Operands_AccumEightWithin16Bits_intrinsics, k7),
    K(NEON_64bit_GEMM_Int8Operands_AccumTwoWithin16Bits, kNo128),
    K(NEON_64bit_GEMM_Int8Operands_AccumTwoWithin16Bits_intrinsics, kNo128),
    K(NEON_64bit_GEMM_Uint8Operands_Uint32Accumulators, kFull),
    K(NEON_64bit_GEMM_Uint8Operands_Uint32Accumulators_intrinsics, kFull),
    K(NEON_64bit_GEMM_Uint8Operands_Uint32Accumulators_noexpand_A57, kFull),
#ifdef __ARM_FEATURE_DOTPROD
    K(NEON_64bit_GEMM_Uint8Operands_Uint32Accumulators_dotproduct, kFull),
    K(NEON_64bit_GEMM_Uint8Operands_Uint32Accumulators_dotproduct_A55r1, kFull),
    K(NEON_64bit_GEMM_Uint8Operands_Uint32Accumulators_dotproduct_narrow, kFull),
#endif
    K(NEON_64bit_GEMM_Int32_WithScalar, kFull),
    K(NEON_64bit_GEMM_Float32_WithVectorDuplicatingScalar, kFull),
    K(NEON_64bit_GEMM_Float32_WithScalar, kFull),
    K(NEON_64bit_GEMM_Float32_WithScalar_intrinsics, kFull),
    K(NEON_64bit_GEMM_Float32_WithScalar_A57, kFull),
    K(NEON_64bit_GEMM_Float32_WithScalar_A53, kFull),
    K(NEON_64bit_GEMM_Float32_WithScalar_A55r1, kFull),
#endif
#ifdef __mips
    K(MSA_GEMM_12x8_Uint8Operands_Uint32Accumulators1, kFull),
    K(MSA_GEMM_12x8_Uint8Operands_Uint32Accumulators2, kFull),
    K(MSA_GEMM_Int8Operands_AccumTwoWithin16Bits, kNo128),
#endif
};
const int kN = sizeof(kKernels) / sizeof(kKernels[0]);

void prop_kernels(G& g) { kKernels[g.draw(kN)](g); }

}  // namespace

int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"kernels", prop_kernels}}); }
