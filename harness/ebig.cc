// ebig.cc: the EightBitIntGemm entry points (C07 8-bit results, C08 float
// results, C09 histories over the process-wide state, C18 the same with the
// ARM fast path compiled in) against an exact 64-bit model.
#include <pthread.h>
#include <sched.h>
#include <time.h>

#include "eight_bit_int_gemm/eight_bit_int_gemm.h"
#include "gemm_common.h"
#ifdef LEAK
#include "leak.h"
#endif

using namespace vg;
namespace eb = gemmlowp::eight_bit_int_gemm;

inline int64_t rdpot(int64_t x, int s) {  // round to nearest, halves away from zero
  if (s == 0) return x;
  int64_t h = int64_t(1) << (s - 1);
  return x >= 0 ? (x + h) >> s : -((-x + h) >> s);
}

struct Call {
  Shape s;
  bool ta, tb, tc, is_float;
  int depth_setting;
  int32_t lo, ro, off, mult, shift;
  float scale;
  Mat<std::uint8_t> a, b, c;
  Mat<float> cf;
  std::vector<uint8_t> expect;
  std::vector<float> expectf;
  std::string desc;
  bool live;  // false: exact sums leave int32, nothing to compare
  std::string err;
  int lpat = 0, rpat = 0;
  uint64_t lseed = 0, rseed = 0;
};

#ifdef FASTPATH
const bool kFast = true;
#else
const bool kFast = false;
#endif

// cheap: small shapes for histories
// like: an earlier call whose shape, layout and possibly some contents are kept
void gen_call(G& g, Call* q, bool is_float, bool cheap, const Call* like = nullptr) {
  int keep = like ? g.draw(8) : 0;  // 1 left contents, 2 right contents, 4 offsets
  q->is_float = is_float;
  q->live = true;
  Shape& s = q->s;
  if (like) {
    s = like->s;
  } else if (kFast && g.chance(2, 3)) {  // around the fast path's k range and vectors
    s.cls = "fast";
    switch (g.weighted({3, 2, 2, 3})) {
      case 0: s.m = g.range(1, 40); s.n = g.range(1, 40); break;
      case 1: s.m = 1; s.n = g.range(1, 300); break;
      case 2: s.m = g.range(1, 300); s.n = 1; break;
      default: s.m = g.range(1, 130); s.n = g.range(1, 130); break;
    }
    switch (g.weighted({3, 3, 2})) {
      case 0: s.k = g.range(1, 40); break;
      case 1: s.k = g.range(8, 300); break;
      default: s.k = g.pick<int>({8, 7, 16, 2048, 2047, 2049, 1024, 1000}); break;
    }
    while (int64_t(s.m) * s.n * s.k > kMacBudgetBig / 2) {
      int* p = s.n > s.m ? &s.n : &s.m;
      *p = *p * 2 / 3 + 1;
      if (s.m * s.n <= 4) break;
    }
  } else if (cheap) {
    s.cls = "cheap";
    if (g.chance(1, 3)) {  // enough work for several threads
      s.cls = "threads";
      s.m = g.range(30, 150); s.n = g.range(16, 80); s.k = g.range(60, 200);
      if (g.boolean()) std::swap(s.m, s.n);
    } else {
      s.m = g.range(1, 40); s.n = g.range(1, 40); s.k = g.range(1, 60);
    }
  } else {
    s = gen_shape(g);
  }
  if (!like && g.chance(1, 60)) {  // an empty result is a no-op
    s.cls = "empty";
    switch (g.draw(3)) {
      case 0: s.m = 0; break;
      case 1: s.n = 0; break;
      default: s.k = 0; break;
    }
  }
  q->ta = g.boolean(); q->tb = g.boolean(); q->tc = g.boolean();
  if (kFast && g.chance(1, 2)) q->ta = true, q->tb = false;
  q->depth_setting = g.chance(1, 4);
  if (like) q->ta = like->ta, q->tb = like->tb;
  uint64_t seed = g.seed64();
  std::vector<int16_t> L, R;
  q->lpat = g.draw(kPatterns);
  q->rpat = g.draw(kPatterns);
  q->lseed = seed;
  q->rseed = seed + 1;
  if (keep & 1) q->lpat = like->lpat, q->lseed = like->lseed;
  if (keep & 2) q->rpat = like->rpat, q->rseed = like->rseed;
  const char* ln = fill_bytes(q->lpat, q->lseed, 0, 255, s.m, s.k, &L);
  const char* rn = fill_bytes(q->rpat, q->rseed, 0, 255, s.k, s.n, &R);
  gen_offsets(g, s.k, false, &q->lo, &q->ro);
  if (keep & 4) q->lo = like->lo, q->ro = like->ro;
  bool at_end = g.boolean();
  // Fast path: mostly packed matrices, sometimes exactly one that is not.
  bool packed = kFast && g.chance(3, 4);
  int odd = packed ? static_cast<int>(g.draw(6)) : -1, which = 0;
  auto pad = [&](int rows, int cols, bool row_major) {
    bool me = which++ == odd;
    if (packed && !me) return 0;
    if (me && g.chance(2, 3)) return confusable_pad(g, row_major ? cols : rows, s);
    return gen_pad(g, rows, cols, row_major, s);
  };
  if (like) {
    q->a.init(s.m, s.k, q->ta, like->a.stride - (q->ta ? s.k : s.m), at_end);
    q->b.init(s.k, s.n, q->tb, like->b.stride - (q->tb ? s.n : s.k), at_end);
  } else {
    q->a.init(s.m, s.k, q->ta, pad(s.m, s.k, q->ta), at_end);
    q->b.init(s.k, s.n, q->tb, pad(s.k, s.n, q->tb), at_end);
  }
  if (is_float) q->cf.init(s.m, s.n, q->tc, pad(s.m, s.n, q->tc), at_end);
  else q->c.init(s.m, s.n, q->tc, pad(s.m, s.n, q->tc), at_end);
  q->a.set(L, seed + 3);
  q->b.set(R, seed + 4);
  if (is_float) { q->cf.junk(seed + 5); q->cf.snap(); }
  else { q->c.junk(seed + 5); q->c.snap(); }
  q->a.snap();
  q->b.snap();
  std::vector<int64_t> acc;
  ref_accum(L, R, s.m, s.n, s.k, std::vector<int32_t>(s.m, q->lo), std::vector<int32_t>(s.n, q->ro), &acc);
  if (acc.empty()) acc.push_back(0);
  int64_t mn = acc[0], mx = acc[0];
  for (int64_t v : acc) mn = std::min(mn, v), mx = std::max(mx, v);
  if (mn < INT32_MIN || mx > INT32_MAX) q->live = false;
  q->off = q->mult = q->shift = 0;
  q->scale = 0;
  std::string par;
  if (is_float) {
    static const float kScales[] = {1.0f, 0.5f, 1.0f / 3, -1.0f, 0.f, 3e-5f, 1e-20f, 1e20f, 65537.f};
    q->scale = g.boolean() ? kScales[g.draw(9)] : (static_cast<int>(g.draw(2000001)) - 1000000) * 1.7e-6f;
    par = strf("scale=%g", q->scale);
    q->expectf.resize(acc.size());
    for (size_t i = 0; i < acc.size(); i++) {
      volatile float f = static_cast<float>(static_cast<int32_t>(acc[i]));
      volatile float p = f * q->scale;
      q->expectf[i] = p;
    }
  } else {
    // result offset: centre the range, one end at zero, or arbitrary
    int64_t off;
    switch (g.weighted({3, 2, 2, 1})) {
      case 0: off = -mn; break;
      case 1: off = -(mn + mx) / 2; break;
      case 2: off = g.signed_range(-100000, 100000); break;
      default: off = g.signed_range(-1000000000, 1000000000); break;
    }
    int64_t lim = INT32_MAX - std::max(std::llabs(mn), std::llabs(mx)) - 1;
    off = std::max(-lim, std::min(lim, off));
    int64_t big = std::max<int64_t>(1, std::max(std::llabs(mn + off), std::llabs(mx + off)));
    int64_t mmax = (INT32_MAX - 1) / big;
    int64_t mult;
    switch (g.weighted({3, 2, 2, 1})) {
      case 0: mult = 1; break;
      case 1: mult = g.range(1, 300); break;
      case 2: mult = mmax - g.range(0, 3); break;
      default: mult = -g.range(0, 300); break;
    }
    mult = std::max(-mmax, std::min(mmax, mult));
    double range = static_cast<double>(big) * std::max<int64_t>(1, std::llabs(mult));
    int sh = 0;
    while (sh < 31 && range / (int64_t(1) << sh) > 255) sh++;
    switch (g.weighted({4, 2, 1, 1})) {
      case 0: break;
      case 1: sh += g.signed_range(-2, 2); break;
      case 2: sh = g.range(0, 31); break;
      default: sh = g.pick<int>({0, 1, 31, 30}); break;
    }
    sh = std::max(0, std::min(31, sh));
    if (kFast) {  // the fast path adds the rounding term in 32 bits
      auto over = [&]() { return big * std::llabs(mult) + (sh ? int64_t(1) << (sh - 1) : 0) > INT32_MAX; };
      if (over()) mult /= 2;
      while (over()) sh--;
    }
    q->off = off; q->mult = mult; q->shift = sh;
    par = strf("off=%d mult=%d shift=%d", q->off, q->mult, q->shift);
    q->expect.resize(acc.size());
    for (size_t i = 0; i < acc.size(); i++)
      q->expect[i] = std::max<int64_t>(0, std::min<int64_t>(255, rdpot((acc[i] + off) * mult, sh)));
  }
  q->desc = strf("%s %dx%dx%d(%s) t=%d%d%d ld=%d,%d,%d depthset=%d lhs=%s rhs=%s lo=%d ro=%d %s seed=%llu",
                 is_float ? "float" : "q8", s.m, s.k, s.n, s.cls, q->ta, q->tb, q->tc, q->a.stride, q->b.stride,
                 is_float ? q->cf.stride : q->c.stride, q->depth_setting, ln, rn, q->lo, q->ro, par.c_str(),
                 (unsigned long long)seed);
}

void do_call(Call* q) {
  if (!q->live) return;
  q->a.restore();
  q->b.restore();
  eb::BitDepthSetting bd = q->depth_setting ? eb::BitDepthSetting::A5B7 : eb::BitDepthSetting::A8B8;
  const Shape& s = q->s;
  if (q->is_float)
    eb::EightBitIntGemm(q->ta, q->tb, q->tc, s.m, s.n, s.k, q->a.data(), q->lo, q->a.stride, q->b.data(), q->ro, q->b.stride,
                        q->cf.data(), q->scale, q->cf.stride, bd);
  else
    eb::EightBitIntGemm(q->ta, q->tb, q->tc, s.m, s.n, s.k, q->a.data(), q->lo, q->a.stride, q->b.data(), q->ro, q->b.stride,
                        q->c.data(), q->off, q->mult, q->shift, q->c.stride, bd);
}

// Returns an error message or "".
std::string check_call(Call* q) {
  if (!q->live) return "";
  const Shape& s = q->s;
  if (s.k == 0) return (q->is_float ? q->cf.unchanged() : q->c.unchanged()) ? "" : "an empty product wrote something in " + q->desc;
  for (int i = 0; i < s.m; i++)
    for (int j = 0; j < s.n; j++) {
      size_t p = static_cast<size_t>(i) * s.n + j;
      if (q->is_float) {
        float got = q->cf.at(i, j), want = q->expectf[p];
        if (memcmp(&got, &want, 4) && !(got == 0 && want == 0))
          return strf("result(%d,%d)=%.9g expected %.9g in %s", i, j, got, want, q->desc.c_str());
      } else if (q->c.at(i, j) != q->expect[p]) {
        return strf("result(%d,%d)=%d expected %d in %s", i, j, q->c.at(i, j), q->expect[p], q->desc.c_str());
      }
    }
  if (q->is_float ? !q->cf.gaps_unchanged() : !q->c.gaps_unchanged()) return "memory outside the result was written in " + q->desc;
  if (!q->a.unchanged() || !q->b.unchanged()) return "an operand was modified in " + q->desc;
  return "";
}

void one_call(G& g, bool is_float) {
  Call q;
  int threads = g.chance(1, 3) ? g.range(0, 9) : 1;
#ifdef VERIF_MINI
  threads = 1;  // the freestanding run-time has no threads
#endif
  gen_call(g, &q, is_float, false);
  g.describe(strf("threads=%d %s", threads, q.desc.c_str()));
  eb::SetMaxNumThreads(threads);
  do_call(&q);
  std::string e = check_call(&q);
  if (!e.empty()) g.fail("%s", e.c_str());
  g.label(std::string("shape:") + q.s.cls);
  g.label(strf("transposes:%d%d%d", q.ta, q.tb, q.tc));
  g.label(strf("bitdepth:%d", q.depth_setting));
  if (!q.live) g.label("skipped:overflow");
  if (q.live && !is_float) {
    std::set<int> vals(q.expect.begin(), q.expect.end());
    g.label(vals.size() >= 3 ? "results:varied" : "results:flat");
  }
  g.nontrivial(q.live && q.s.k > 1 && (q.s.m > 4 || q.s.n > 4));
  g.add_evals(static_cast<uint64_t>(q.s.m) * q.s.n);
}
void prop_q8(G& g) { one_call(g, false); }
void prop_float(G& g) { one_call(g, true); }

// Small matrices with leading dimensions of up to 2^31 elements.
template <typename C>
void sparse(G& g) {
  const bool is_float = std::is_same<C, float>::value;
  int m = g.range(1, 12), n = g.range(1, 12), k = g.range(1, 40);
  bool ta = g.boolean(), tb = g.boolean(), tc = g.boolean();
  int far = g.range(1, 7);
  int lo = g.range(-255, 255), ro = g.range(-255, 255), shift = g.range(8, 16);
  Sparse<std::uint8_t> a, b;
  Sparse<C> c;
  bool ok = a.init(g, m, k, ta, far & 1) && b.init(g, k, n, tb, far & 2) && c.init(g, m, n, tc, far & 4);
  uint64_t seed = g.seed64();
  g.describe(strf("%s %dx%dx%d t=%d%d%d ld=%d,%d,%d lo=%d ro=%d shift=%d seed=%llu", is_float ? "float" : "q8", m, k, n, ta, tb, tc,
                  a.stride, b.stride, c.stride, lo, ro, shift, (unsigned long long)seed));
  if (!ok) {
    g.label("skipped:no address space");
    return;
  }
  Rng r(seed);
  a.junk(&r);
  b.junk(&r);
  c.junk(&r);
  void* cp = c.data();
  if (is_float)
    eb::EightBitIntGemm(ta, tb, tc, m, n, k, a.data(), lo, a.stride, b.data(), ro, b.stride, static_cast<float*>(cp), 0.25f, c.stride,
                        eb::BitDepthSetting::A8B8);
  else
    eb::EightBitIntGemm(ta, tb, tc, m, n, k, a.data(), lo, a.stride, b.data(), ro, b.stride, static_cast<std::uint8_t*>(cp), 100, 3,
                        shift, c.stride, eb::BitDepthSetting::A8B8);
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      int64_t e = 0;
      for (int d = 0; d < k; d++) e += (a.at(i, d) + lo) * (b.at(d, j) + ro);
      double want = is_float ? static_cast<double>(static_cast<float>(e) * 0.25f)
                             : std::max<int64_t>(0, std::min<int64_t>(255, rdpot((e + 100) * 3, shift)));
      if (c.at(i, j) != want) g.fail("result(%d,%d)=%g expected %g", i, j, static_cast<double>(c.at(i, j)), want);
    }
  if (!c.gaps_unchanged()) g.fail("memory beside the result was written");
  eb::FreePersistentResources();
  g.label("shape:huge leading dimension");
  g.nontrivial(m > 1 || n > 1);
  g.add_evals(static_cast<uint64_t>(m) * n);
}
void prop_q8_sparse(G& g) { sparse<std::uint8_t>(g); }
void prop_float_sparse(G& g) { sparse<float>(g); }

// ---- histories -----------------------------------------------------------------
struct Op {
  int kind;  // 0 q8, 1 float, 2 set threads, 3 free, 4 pause
  int arg = 0;
  std::shared_ptr<Call> call;
  uint64_t junk = 0;  // non-zero: scramble the result first (the call is made many times)
};
struct Actor {
  std::vector<Op> ops;
  Arena arena;
  // All calls find their operands, and leave their results, at the same places.
  void share_memory() {
    for (Op& o : ops)
      if (o.call) {
        arena.want(0, o.call->a.bytes());
        arena.want(1, o.call->b.bytes());
        arena.want(2, o.kind == 1 ? o.call->cf.bytes() : o.call->c.bytes());
      }
    arena.make();
    for (Op& o : ops)
      if (o.call) {
        o.call->a.move_to(arena.base[0]);
        o.call->b.move_to(arena.base[1]);
        if (o.kind == 1) o.call->cf.move_to(arena.base[2]);
        else o.call->c.move_to(arena.base[2]);
        if (!o.junk) o.junk = 12345;
      }
  }
  std::string err;
  ::pthread_barrier_t* bar;
};
void* actor_main(void* p) {
  Actor* a = static_cast<Actor*>(p);
  if (a->bar) ::pthread_barrier_wait(a->bar);
  for (Op& o : a->ops) {
    switch (o.kind) {
      case 0:
      case 1: {
        if (o.junk) {
          Call* q = o.call.get();
          if (o.kind == 1) { q->cf.junk(o.junk); q->cf.snap(); }
          else { q->c.junk(o.junk); q->c.snap(); }
        }
        do_call(o.call.get());
        std::string e = check_call(o.call.get());
        if (!e.empty() && a->err.empty()) a->err = e;
        break;
      }
      case 2: eb::SetMaxNumThreads(o.arg); break;
      case 3: eb::FreePersistentResources(); break;
      default: {
        struct timespec ts = {0, o.arg * 1000L};
        nanosleep(&ts, nullptr);
      }
    }
    if (!a->err.empty()) break;
  }
  return nullptr;
}
#ifdef LEAK
// Releasing the persistent resources gives back all memory and threads.
void prop_leak(G& g) {
  bool keep = g.boolean();
  int rounds = 8, len = g.range(1, 8), calls = 0;
  Actor a;
  a.bar = nullptr;
  std::string d = keep ? "8 rounds, then a release: " : "8 rounds, each then released: ";
  uint64_t n = 0;
  for (int i = 0; i < len; i++) {
    Op o;
    o.kind = g.weighted({5, 4, 3, 1});
    if (o.kind <= 1) {
      o.call.reset(new Call);
      gen_call(g, o.call.get(), o.kind == 1, true);
      n += static_cast<uint64_t>(o.call->s.m) * o.call->s.n;
      d += strf("%s%dx%dx%d ", o.kind ? "float" : "q8", o.call->s.m, o.call->s.k, o.call->s.n);
      calls++;
    } else if (o.kind == 2) {
      o.arg = g.range(0, 9);
      d += strf("threads=%d ", o.arg);
    } else {
      d += "free ";
    }
    a.ops.push_back(std::move(o));
  }
  g.describe(d);
  eb::FreePersistentResources();
  int base = leak::threads();
  leak::Record rec;
  for (int r = 0; r < rounds && a.err.empty(); r++) {
    actor_main(&a);
    if (!keep) eb::FreePersistentResources();
    rec.mark();
  }
  eb::FreePersistentResources();
  if (!a.err.empty()) g.fail("%s", a.err.c_str());
  std::string e = rec.growth();
  if (!e.empty()) g.fail("%s", e.c_str());
  int left = leak::threads_settled(base);
  if (left > base) g.fail("%d threads are left after the release", left - base);
  g.label(keep ? "leak:kept" : "leak:released");
  g.nontrivial(calls >= 1);
  g.add_evals(n * rounds);
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"leak", prop_leak}}); }
#else
void prop_history(G& g) {
  int actors = g.weighted({3, 4}) == 0 ? 1 : g.range(2, 5);
  std::vector<Actor> as(actors);
  std::string d;
  uint64_t n = 0;
  int state_ops = 0, calls = 0;
  for (int t = 0; t < actors; t++) {
    int len = g.range(1, actors == 1 ? 12 : 6);
    bool share = g.boolean();
    const Call* last = nullptr;
    d += strf("%s[%s", t ? " || " : "", share ? "same buffers: " : "");
    for (int i = 0; i < len; i++) {
      Op o;
      o.kind = g.weighted({5, 4, 3, 3, 1});
      if (o.kind <= 1) {
        o.call.reset(new Call);
        gen_call(g, o.call.get(), o.kind == 1, true, share && last && g.boolean() ? last : nullptr);
        last = o.call.get();
        n += static_cast<uint64_t>(o.call->s.m) * o.call->s.n;
        d += strf("%s%dx%dx%d ", o.kind ? "float" : "q8", o.call->s.m, o.call->s.k, o.call->s.n);
        calls++;
      } else if (o.kind == 2) {
        o.arg = g.range(0, 9);
        d += strf("threads=%d ", o.arg);
        state_ops++;
      } else if (o.kind == 3) {
        d += "free ";
        state_ops++;
      } else {
        o.arg = g.range(0, 200);
      }
      as[t].ops.push_back(std::move(o));
    }
    if (share) as[t].share_memory();
    if (share) g.label("buffers:shared by the calls");
    d += "]";
  }
  g.describe(d);
  if (actors == 1) {
    as[0].bar = nullptr;
    actor_main(&as[0]);
  } else {
    ::pthread_barrier_t bar;
    ::pthread_barrier_init(&bar, nullptr, actors);
    std::vector<::pthread_t> th(actors);
    for (int t = 0; t < actors; t++) {
      as[t].bar = &bar;
      if (::pthread_create(&th[t], nullptr, actor_main, &as[t])) _exit(3);
    }
    for (int t = 0; t < actors; t++) ::pthread_join(th[t], nullptr);
    ::pthread_barrier_destroy(&bar);
  }
  for (auto& a : as)
    if (!a.err.empty()) g.fail("%s", a.err.c_str());
  if (g.boolean()) {
    eb::FreePersistentResources();
    eb::FreePersistentResources();
  }
  g.label(strf("actors:%d", actors));
  g.nontrivial(calls >= 2 && state_ops >= 1);
  g.add_evals(n);
}

// A process that runs for long: a few calls, each made many times, with thread
// limit changes and releases in between.
void prop_long(G& g) {
  Actor a;
  a.bar = nullptr;
  int kinds = g.range(1, 5), len = g.range(20, kSlow ? 200 : 800), every = g.range(2, 60);
  std::string d = strf("%d operations, a state change about every %d:", len, every);
  std::vector<Op> calls(kinds);
  bool share = g.boolean();
  const Call* last = nullptr;
  if (share) d += " same buffers:";
  for (auto& o : calls) {
    o.kind = g.boolean();
    o.call.reset(new Call);
    gen_call(g, o.call.get(), o.kind == 1, true, share && last && g.boolean() ? last : nullptr);
    last = o.call.get();
    d += strf(" %s%dx%dx%d", o.kind ? "float" : "q8", o.call->s.m, o.call->s.k, o.call->s.n);
  }
  g.describe(d);
  Rng r(g.seed64());
  uint64_t n = 0;
  int sets = 0;
  for (int i = 0; i < len; i++) {
    Op o;
    if (r.below(every) == 0) {
      o.kind = 2 + r.below(2);
      o.arg = r.below(10);
      sets++;
    } else {
      o = calls[r.below(calls.size())];
      o.junk = r.next() | 1;
      n += static_cast<uint64_t>(o.call->s.m) * o.call->s.n;
    }
    a.ops.push_back(o);
  }
  if (share) a.share_memory();
  actor_main(&a);
  if (!a.err.empty()) g.fail("%s", a.err.c_str());
  g.label("history:long");
  g.nontrivial(sets >= 1);
  g.add_evals(n);
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"q8", prop_q8}, {"float", prop_float}, {"history", prop_history}, {"long", prop_long},
                                     {"q8_sparse", prop_q8_sparse}, {"float_sparse", prop_float_sparse}});
}
#endif  // LEAK
