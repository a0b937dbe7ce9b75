// metasplit.cc: the task split of the legacy meta GEMM, on the host with an
// address sanitizer, driving a stand-in operation (part of C15).
#include "meta/legacy_multi_thread_common.h"
#include "pbt.h"

using pbt::G;
using pbt::strf;

struct Op {
  int scale, bias;
  int per_thread;
  const uint8_t* scratch_base;
  size_t scratch_size;
  void ExecuteMatrixMatrix(std::uint8_t* scratch, const std::uint8_t* lhs, const std::uint8_t* rhs, std::int32_t m, std::int32_t n,
                           std::int32_t k, std::int32_t* result, std::int32_t stride) const {
    // Use the whole scratch share: overlapping shares would garble the copies.
    for (int i = 0; i < per_thread; i++) scratch[i] = rhs[i % (size_t(n) * k)];
    for (int i = 0; i < m; i++)
      for (int j = 0; j < n; j++) {
        int a = bias;
        for (int l = 0; l < k; l++) a += scale * lhs[size_t(i) * k + l] * (j * k + l < per_thread ? scratch[j * k + l] : rhs[size_t(j) * k + l]);
        result[size_t(i) * stride + j] += a;  // a cell visited twice shows
      }
  }
  std::int32_t ScratchPerThread(std::int32_t, std::int32_t, std::int32_t) const { return per_thread; }
};

void prop_split(G& g) {
  int m = g.range(1, 70), n = g.range(1, 70), k = g.range(1, 60);
  if (g.chance(1, 3)) m = g.range(60, 200);
  if (g.chance(1, 3)) n = g.range(60, 200);
  int threads = g.range(0, 9);
  Op op;
  op.scale = g.range(1, 7);
  op.bias = g.signed_range(-1000, 1000);
  op.per_thread = g.range(0, 300);
  g.describe(strf("split of %dx%dx%d over %d threads", m, n, k, threads));
  pbt::Rng r(g.seed64());
  std::vector<uint8_t> lhs(size_t(m) * k), rhs(size_t(n) * k);
  for (auto& v : lhs) v = r.below(256);
  for (auto& v : rhs) v = r.below(256);
  int os = n + g.pick<int>({0, 0, 1, 7});
  std::vector<int32_t> out(size_t(m) * os, 0);
  int t = threads ? threads : sysconf(_SC_NPROCESSORS_CONF);
  std::vector<uint8_t> scratch(size_t(t) * op.per_thread + 1);
  {
    gemmlowp::WorkersPool pool;
    gemmlowp::meta::internal::MultiThreadedMatrixMatrix(&pool, threads, scratch.data(), static_cast<const uint8_t*>(lhs.data()),
                                                        static_cast<const uint8_t*>(rhs.data()), m, n, k, out.data(), os, op);
  }
  g.nontrivial(threads != 1);
  g.add_evals(size_t(m) * n);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < os; j++) {
      int a = 0;
      if (j < n) {
        a = op.bias;
        for (int l = 0; l < k; l++) a += op.scale * lhs[size_t(i) * k + l] * rhs[size_t(j) * k + l];
      }
      if (out[size_t(i) * os + j] != a) g.fail("cell (%d,%d) is %d expected %d", i, j, out[size_t(i) * os + j], a);
    }
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"split", prop_split}}); }
