// history.cc: sequences of multiplications and setting changes on shared
// contexts, and several contexts used concurrently (C05).
// With CUSTOMPOOL: contexts whose worker pool is the application's own (C23).
#include <pthread.h>

#include <thread>

#include "gemm_common.h"
#if defined(LEAK) && PART == 0
#include "leak.h"
#endif

using namespace gemmlowp;
using namespace vg;

#ifdef CUSTOMPOOL
// An application's pool: has the public methods of WorkersPool, runs the tasks
// of a batch in an order and on threads of its own choosing.
enum PoolMode { kForward, kReverse, kShuffled, kThreadEach, kQueue, kQueueShuffled, kShared, kPoolModes };
struct SharedPool {  // one library pool used by several contexts, one batch at a time
  ::pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
  WorkersPool pool;
};
class AppPool {
 public:
  ~AppPool() {
    for (Allocator* a : free_) delete a;
    ::pthread_mutex_destroy(&mu_);
  }
  AppPool() { ::pthread_mutex_init(&mu_, nullptr); }
  void configure(int mode, uint64_t seed, int threads, bool fresh) {
    mode_ = mode;
    rng_ = Rng(seed);
    threads_ = threads;
    fresh_ = fresh;
  }
  void set_shared(SharedPool* s) { shared_ = s; }
  int batches() const { return batches_; }

  template <typename TaskType>
  void Execute(int tasks_count, TaskType* tasks) {
    if (mode_ == kShared) {
      ::pthread_mutex_lock(&shared_->mu);
      shared_->pool.Execute(tasks_count, tasks);
      ::pthread_mutex_unlock(&shared_->mu);
      return;
    }
    std::vector<Task*> v;
    for (int i = 0; i < tasks_count; i++) v.push_back(&tasks[i]);
    run(v);
  }
  void LegacyExecuteAndDestroyTasks(const std::vector<Task*>& tasks) {
    if (mode_ == kShared) {
      ::pthread_mutex_lock(&shared_->mu);
      shared_->pool.LegacyExecuteAndDestroyTasks(tasks);
      ::pthread_mutex_unlock(&shared_->mu);
      return;
    }
    run(tasks);
    // Any order of destruction will do.
    for (size_t i = tasks.size(); i-- > 0;) delete tasks[i];
  }
  void Execute(const std::vector<Task*>& tasks) { LegacyExecuteAndDestroyTasks(tasks); }

 private:
  struct Arg {
    AppPool* pool;
    std::vector<Task*> tasks;
    uint64_t spin;
  };
  Allocator* take() {
    ::pthread_mutex_lock(&mu_);
    Allocator* a = nullptr;
    if (!free_.empty() && !fresh_) {
      a = free_.back();
      free_.pop_back();
    }
    ::pthread_mutex_unlock(&mu_);
    return a ? a : new Allocator;
  }
  void give(Allocator* a) {
    if (fresh_) {
      delete a;
      return;
    }
    ::pthread_mutex_lock(&mu_);
    free_.push_back(a);
    ::pthread_mutex_unlock(&mu_);
  }
  void run_one(Task* t) {
    Allocator* a = take();
    t->local_allocator = a;
    t->Run();
    give(a);
  }
  static void* thread_main(void* p) {
    Arg* a = static_cast<Arg*>(p);
    volatile uint64_t x = 0;
    for (Task* t : a->tasks) {
      for (uint64_t i = 0; i < a->spin; i++) x = x + 1;
      a->pool->run_one(t);
    }
    return nullptr;
  }
  void run(std::vector<Task*> v) {
    batches_++;
    if (mode_ == kReverse) std::reverse(v.begin(), v.end());
    if (mode_ == kShuffled || mode_ == kQueueShuffled)
      for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[rng_.below(i)]);
    if (mode_ < kThreadEach) {
      for (Task* t : v) run_one(t);
      return;
    }
    size_t n = mode_ == kThreadEach ? v.size() : std::min<size_t>(threads_, v.size());
    std::vector<Arg> args(n);
    for (size_t i = 0; i < n; i++) {
      args[i].pool = this;
      args[i].spin = rng_.below(3) == 0 ? rng_.below(200000) : 0;
    }
    for (size_t i = 0; i < v.size(); i++) args[i % n].tasks.push_back(v[i]);
    std::vector<::pthread_t> th(n);
    for (size_t i = 0; i < n; i++)
      if (::pthread_create(&th[i], nullptr, thread_main, &args[i])) _exit(3);
    for (size_t i = 0; i < n; i++) ::pthread_join(th[i], nullptr);
  }
  int mode_ = kForward, threads_ = 2, batches_ = 0;
  bool fresh_ = false;
  Rng rng_{1};
  SharedPool* shared_ = nullptr;
  ::pthread_mutex_t mu_;
  std::vector<Allocator*> free_;
};
class AppContext : public MultiThreadGemmContextBase {
 public:
  AppPool* workers_pool() { return &pool_; }

 private:
  AppPool pool_;
};
typedef AppContext Ctx;
#else
typedef GemmContext Ctx;
#endif

typedef VectorMap<const std::int32_t, VectorShape::Col> ColMap;
typedef VectorMap<const std::int32_t, VectorShape::Row> RowMap;

struct Call {
  int variant;
  Shape s;
  int lo, ro;
  std::vector<int32_t> lov, rov, bias;
  const int32_t *lovp = nullptr, *rovp = nullptr, *biasp = nullptr;
  int lpat = 0, rpat = 0;
  uint64_t lseed = 0, rseed = 0;
  int off, mult, shift;
  Mat<std::uint8_t> a, b, c8;
  Mat<std::int32_t> c32;
  std::vector<int64_t> expect;
  bool live = true;
  std::string desc;
  bool is8() const { return variant == 2 || variant == 3; }
};
const int kVariants = 6;
void run_a(Ctx* ctx, Call* q);
void run_b(Ctx* ctx, Call* q);

template <typename T, MapOrder O>
MatrixMap<const T, O> cmap(const Mat<T>& m) {
  return MatrixMap<const T, O>(m.data(), m.rows, m.cols, m.stride);
}
template <typename T, MapOrder O>
MatrixMap<T, O> wmap(const Mat<T>& m) {
  return MatrixMap<T, O>(m.data(), m.rows, m.cols, m.stride);
}
const MapOrder RM = MapOrder::RowMajor, CM = MapOrder::ColMajor;

#if PART == 1
void run_a(Ctx* ctx, Call* q) {
  auto l = cmap<std::uint8_t, RM>(q->a);
  auto r = cmap<std::uint8_t, CM>(q->b);
  switch (q->variant) {
    case 0: {
      auto d = wmap<std::int32_t, CM>(q->c32);
      GemmWithOutputPipeline<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(ctx, l, r, &d, q->lo, q->ro, std::make_tuple());
      break;
    }
    case 1: {
      auto d = wmap<std::int32_t, CM>(q->c32);
      GemmWithOutputPipeline<std::uint8_t, std::int32_t, L8R8WithLhsNonzeroBitDepthParams>(ctx, l, r, &d, q->lo, q->ro,
                                                                                            std::make_tuple());
      break;
    }
    default: {
      auto d = wmap<std::uint8_t, CM>(q->c8);
      Gemm<std::uint8_t, DefaultL8R8BitDepthParams>(ctx, l, r, &d, q->lo, q->ro, q->off, q->mult, q->shift);
      break;
    }
  }
}
#elif PART == 2
void run_b(Ctx* ctx, Call* q) {
  auto l = cmap<std::uint8_t, CM>(q->a);
  auto r = cmap<std::uint8_t, RM>(q->b);
  switch (q->variant) {
    case 3: {
      auto d = wmap<std::uint8_t, RM>(q->c8);
      OutputStageBiasAddition<ColMap> bias;
      bias.bias_vector = ColMap(q->biasp, q->s.m);
      OutputStageQuantizeDownInt32ToUint8Scale s;
      s.result_offset = q->off;
      s.result_mult_int = q->mult;
      s.result_shift = q->shift;
      GemmWithOutputPipeline<std::uint8_t, std::uint8_t, DefaultL8R8BitDepthParams>(
          ctx, l, r, &d, q->lo, q->ro, std::make_tuple(bias, s, OutputStageSaturatingCastToUint8()));
      break;
    }
    case 4: {
      auto d = wmap<std::int32_t, RM>(q->c32);
      GemmWithOutputPipelinePC<std::uint8_t, std::int32_t, DefaultL8R8BitDepthParams>(
          ctx, l, r, &d, ColMap(q->lovp, q->s.m), RowMap(q->rovp, q->s.n), std::make_tuple());
      break;
    }
    default: {
      auto d = wmap<std::int32_t, RM>(q->c32);
      GemmWithOutputPipeline<std::uint8_t, std::int32_t, L8R8WithLhsNonzeroBitDepthParams>(ctx, l, r, &d, q->lo, q->ro,
                                                                                            std::make_tuple());
      break;
    }
  }
}
#else
inline int64_t rdpot(int64_t x, int s) {
  if (s == 0) return x;
  int64_t h = int64_t(1) << (s - 1);
  return x >= 0 ? (x + h) >> s : -((-x + h) >> s);
}
// like: an earlier call whose shape, layout and possibly some contents are kept.
void gen_call(G& g, Call* q, bool cheap = false, const Call* like = nullptr) {
  Shape& s = q->s;
  int keep = like ? g.draw(8) : 0;  // 1 left contents, 2 right contents, 4 offsets
  if (like) {
    s = like->s;
  } else {
    bool crowd = !cheap && g.chance(1, 25);
    if (crowd) s = crowd_shape(g, static_cast<int>(g.range(9, kSlow ? 16 : 40)));
    else switch (g.weighted({3, 5, 2, 2})) {
      case 0: s.cls = "small"; s.m = g.range(1, 40); s.n = g.range(1, 40); s.k = g.range(1, 70); break;
      case 1: s.cls = "threads"; s.m = g.range(30, 260); s.n = g.range(8, 90); s.k = g.range(20, 200); break;
      case 2: s.cls = "tall"; s.m = g.range(100, 1500); s.n = g.range(1, 12); s.k = g.range(20, 200); break;
      default: s.cls = "deep"; s.m = g.range(17, 80); s.n = g.range(1, 20); s.k = g.range(200, 1500); break;
    }
    if (g.boolean()) std::swap(s.m, s.n);
    int64_t budget = crowd ? 4000 * 1000 : cheap ? 150 * 1000 : kSlow ? 700 * 1000 : 2000 * 1000;
    while (int64_t(s.m) * s.n * s.k > budget) {
      int* p = &s.m;
      if (s.n > *p) p = &s.n;
      if (s.k > *p) p = &s.k;
      *p = *p * 3 / 4 + 1;
    }
  }
  q->variant = like && g.chance(3, 4) ? like->variant : g.draw(kVariants);
  if (like && (q->variant < 3) != (like->variant < 3)) q->variant = like->variant;
  bool nz = q->variant == 1 || q->variant == 5;
  bool rowl = q->variant < 3;
  uint64_t seed = g.seed64();
  std::vector<int16_t> L, R;
  q->lpat = g.draw(kPatterns);
  q->rpat = g.draw(kPatterns);
  q->lseed = seed;
  q->rseed = seed + 1;
  if (keep & 1) q->lpat = like->lpat, q->lseed = like->lseed;
  if (keep & 2) q->rpat = like->rpat, q->rseed = like->rseed;
  fill_bytes(q->lpat, q->lseed, nz ? 1 : 0, 255, s.m, s.k, &L);
  fill_bytes(q->rpat, q->rseed, 0, 255, s.k, s.n, &R);
  gen_offsets(g, s.k, false, &q->lo, &q->ro);
  if (keep & 4) q->lo = like->lo, q->ro = like->ro;
  q->lov.assign(s.m, q->lo);
  q->rov.assign(s.n, q->ro);
  Rng r(seed + 2);
  int mx = std::min(200, max_offset_for(s.k));
  if (q->variant == 4) {
    for (auto& x : q->lov) x = r.range(-mx, mx);
    for (auto& x : q->rov) x = r.range(-mx, mx);
  }
  q->a.init(s.m, s.k, rowl, like ? like->a.stride - (rowl ? s.k : s.m) : gen_pad(g, s.m, s.k, rowl, s), true);
  q->b.init(s.k, s.n, !rowl, like ? like->b.stride - (rowl ? s.k : s.n) : gen_pad(g, s.k, s.n, !rowl, s), true);
  if (q->is8()) q->c8.init(s.m, s.n, !rowl, gen_pad(g, s.m, s.n, !rowl, s), true);
  else q->c32.init(s.m, s.n, !rowl, gen_pad(g, s.m, s.n, !rowl, s), true);
  q->a.set(L, seed + 3);
  q->b.set(R, seed + 4);
  ref_accum(L, R, s.m, s.n, s.k, q->lov, q->rov, &q->expect);
  int64_t mn = q->expect[0], mxv = q->expect[0];
  for (int64_t v : q->expect) mn = std::min(mn, v), mxv = std::max(mxv, v);
  if (mn < -(1ll << 29) || mxv > (1ll << 29)) q->live = false;
  if (q->is8()) {
    q->bias.resize(s.m);
    int64_t bs = std::min<int64_t>(1 << 20, mxv - mn + 10);
    for (auto& x : q->bias) x = r.range(-bs, bs);
    q->off = static_cast<int>(-mn);
    int64_t big = (mxv - mn) + bs + 1;
    q->mult = std::max<int64_t>(1, std::min<int64_t>(g.range(1, 50), INT32_MAX / big - 1));
    q->shift = 0;
    while (q->shift < 30 && ((big * q->mult) >> q->shift) > 300) q->shift++;
    for (int i = 0; i < s.m; i++)
      for (int j = 0; j < s.n; j++) {
        int64_t& v = q->expect[static_cast<size_t>(i) * s.n + j];
        v += q->off + (q->variant == 3 ? q->bias[i] : 0);
        v = std::max<int64_t>(0, std::min<int64_t>(255, rdpot(v * q->mult, q->shift)));
      }
  }
  q->lovp = q->lov.data();
  q->rovp = q->rov.data();
  q->biasp = q->bias.data();
  q->desc = strf("v%d %dx%dx%d", q->variant, s.m, s.k, s.n);
  if (like) q->desc += strf(" (shape as before, same %s%s%s)", keep & 1 ? "L" : "-", keep & 2 ? "R" : "-", keep & 4 ? "O" : "-");
}
void want(Arena* a, const Call& q) {
  a->want(0, q.a.bytes());
  a->want(1, q.b.bytes());
  a->want(2, q.is8() ? q.c8.bytes() : q.c32.bytes());
  a->want(3, q.lov.size() * 4);
  a->want(4, q.rov.size() * 4);
  a->want(5, q.bias.size() * 4);
}
void put(Arena* a, Call* q) {
  q->a.move_to(a->base[0]);
  q->b.move_to(a->base[1]);
  if (q->is8()) q->c8.move_to(a->base[2]);
  else q->c32.move_to(a->base[2]);
  q->lovp = reinterpret_cast<int32_t*>(a->base[3]);
  q->rovp = reinterpret_cast<int32_t*>(a->base[4]);
  q->biasp = reinterpret_cast<int32_t*>(a->base[5]);
}
void restore(const std::vector<int32_t>& v, const int32_t* p) {
  if (!v.empty() && p != v.data()) memcpy(const_cast<int32_t*>(p), v.data(), v.size() * 4);
}
void do_call(Ctx* ctx, Call* q, uint64_t junk) {
  q->a.restore();
  q->b.restore();
  restore(q->lov, q->lovp);
  restore(q->rov, q->rovp);
  restore(q->bias, q->biasp);
  if (q->is8()) q->c8.junk(junk);
  else q->c32.junk(junk);
  if (q->variant < 3) run_a(ctx, q);
  else run_b(ctx, q);
}
std::string check_call(Call* q) {
  for (int i = 0; i < q->s.m; i++)
    for (int j = 0; j < q->s.n; j++) {
      int64_t got = q->is8() ? q->c8.at(i, j) : q->c32.at(i, j), want = q->expect[static_cast<size_t>(i) * q->s.n + j];
      if (got != want) return strf("result(%d,%d)=%lld expected %lld in %s", i, j, (long long)got, (long long)want, q->desc.c_str());
    }
  return "";
}

struct Op {
  int kind;  // 0 call 1 threads 2 l1 3 l2 4 factor 5 repeat an earlier call 6 pool behaviour
  int arg = 0;
  float f = 0;
  int which = 0;  // context
  std::shared_ptr<Call> call;
};
struct Actor {
  int contexts = 1;
  bool hop = false;  // every operation on a thread of its own
  std::vector<Op> ops;
  Arena arena;
  void share_memory() {
    for (Op& o : ops)
      if (o.call) want(&arena, *o.call);
    arena.make();
    for (Op& o : ops)
      if (o.call) put(&arena, o.call.get());
  }
  std::string err;
  ::pthread_barrier_t* bar = nullptr;
  void* shared = nullptr;
  int batches = 0;
};
void run_ops(Actor* a, Ctx* contexts);
void* actor_main(void* p) {
  Actor* a = static_cast<Actor*>(p);
  if (a->contexts == 1) {
    Ctx ctx;
    run_ops(a, &ctx);
  } else {
    Ctx ctx[2];
    run_ops(a, ctx);
  }
  return nullptr;
}
struct Step {
  Actor* a;
  Op* o;
  Ctx* contexts;
  uint64_t j;
};
void* step(void* p);
void run_ops(Actor* a, Ctx* contexts) {
#ifdef CUSTOMPOOL
  for (int i = 0; i < a->contexts; i++) {
    contexts[i].workers_pool()->set_shared(static_cast<SharedPool*>(a->shared));
    contexts[i].set_max_num_threads(4);
  }
#endif
  if (a->bar) ::pthread_barrier_wait(a->bar);
  Step s = {a, nullptr, contexts, 1};
  for (Op& o : a->ops) {
    s.o = &o;
    if (a->hop) {
      ::pthread_t t;
      if (::pthread_create(&t, nullptr, step, &s)) _exit(3);
      ::pthread_join(t, nullptr);
    } else {
      step(&s);
    }
    if (!a->err.empty()) break;
  }
#ifdef CUSTOMPOOL
  for (int i = 0; i < a->contexts; i++) a->batches += contexts[i].workers_pool()->batches();
#endif
}
void* step(void* p) {
  Step* s = static_cast<Step*>(p);
  Op& o = *s->o;
  Ctx& ctx = s->contexts[o.which];
  switch (o.kind) {
      case 0:
        if (!o.call->live) break;
        do_call(&ctx, o.call.get(), s->j++);
        s->a->err = check_call(o.call.get());
        break;
      case 1: ctx.set_max_num_threads(o.arg); break;
      case 2: ctx.set_l1_bytes_to_use(o.arg); break;
      case 3: ctx.set_l2_bytes_to_use(o.arg); break;
#ifdef CUSTOMPOOL
      case 6: ctx.workers_pool()->configure(o.arg & 15, o.arg >> 16, 1 + (o.arg >> 4 & 3), o.arg >> 6 & 1); break;
#endif
      default: ctx.set_l2_rhs_factor(o.f); break;
  }
  return nullptr;
}
#ifdef LEAK
// Everything a context takes it gives back: on destruction all of it, and
// while it lives it holds no more after the second time through a sequence of
// calls than after the first.
void prop_leak(G& g) {
  bool keep = g.boolean();
  int rounds = 8, len = g.range(1, 8), limit = 1, calls = 0;
  Actor a;
  std::string d = keep ? "one context, 8 rounds of: " : "8 contexts, each: ";
  uint64_t n = 0;
  for (int i = 0; i < len; i++) {
    Op o;
    o.kind = g.weighted({6, 4, 1, 1, 1});
    switch (o.kind) {
      case 0:
        o.call.reset(new Call);
        gen_call(g, o.call.get(), true);
        d += o.call->desc + " ";
        n += static_cast<uint64_t>(o.call->s.m) * o.call->s.n;
        calls++;
        break;
      case 1:
        o.arg = g.weighted({1, 5}) == 0 ? 0 : g.range(1, 12);
        limit = std::max(limit, o.arg ? o.arg : static_cast<int>(std::thread::hardware_concurrency()));
        d += strf("threads=%d ", o.arg);
        break;
      case 2: o.arg = g.pick<int>({16384, 300, 1024, 65536}); d += strf("l1=%d ", o.arg); break;
      case 3: o.arg = g.pick<int>({262144, 1024, 16384, 1 << 20}); d += strf("l2=%d ", o.arg); break;
      default: o.f = g.pick<float>({0.75f, 1.0f, 0.5f}); d += strf("f=%g ", o.f); break;
    }
    a.ops.push_back(o);
  }
  g.describe(d);
  int base = leak::threads();
  leak::Record rec;
  if (keep) {
    Ctx ctx;
    for (int r = 0; r < rounds && a.err.empty(); r++) {
      run_ops(&a, &ctx);
      rec.mark();
      int t = leak::threads();
      if (t > base + limit - 1) g.fail("%d threads with a limit of %d (and %d before)", t, limit, base);
    }
  } else {
    for (int r = 0; r < rounds && a.err.empty(); r++) {
      actor_main(&a);
      rec.mark();
    }
  }
  if (!a.err.empty()) g.fail("%s", a.err.c_str());
  std::string e = rec.growth();
  if (!e.empty()) g.fail("%s", e.c_str());
  int left = leak::threads_settled(base);
  if (left > base) g.fail("%d threads are left of a destroyed context", left - base);
  g.label(keep ? "leak:live context" : "leak:destroyed contexts");
  g.nontrivial(calls >= 1);
  g.add_evals(n * rounds);
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"leak", prop_leak}}); }
#else
void prop_history(G& g) {
  int actors = g.weighted({3, 2}) == 0 ? 1 : g.range(2, 4);
  std::vector<Actor> as(actors);
#ifdef CUSTOMPOOL
  SharedPool shared;
  for (Actor& a : as) a.shared = &shared;
#endif
  std::string d;
  uint64_t n = 0;
  int calls = 0, sets = 0;
  for (int t = 0; t < actors; t++) {
    int len = g.range(1, actors == 1 ? 14 : 7);
    std::vector<std::shared_ptr<Call>> prev;
    bool share = g.boolean();  // all calls in the same buffers
    as[t].contexts = g.chance(1, 4) ? 2 : 1;
    as[t].hop = g.chance(1, 6);
    d += t ? " || [" : "[";
    if (share) d += "same buffers: ";
    if (as[t].hop) d += "a thread per operation: ";
    for (int i = 0; i < len; i++) {
      Op o;
      if (as[t].contexts == 2) {
        o.which = g.draw(2);
        d += o.which ? "B." : "A.";
      }
#ifdef CUSTOMPOOL
      o.kind = i == 0 ? 6 : g.weighted({6, 2, 1, 1, 1, 2, 4});
#else
      o.kind = g.weighted({6, 4, 1, 1, 1, 2});
#endif
      if (o.kind == 5 && prev.empty()) o.kind = 0;
      switch (o.kind) {
        case 0:
          o.call.reset(new Call);
          gen_call(g, o.call.get(), false, share && !prev.empty() && g.boolean() ? prev.back().get() : nullptr);
          prev.push_back(o.call);
          d += o.call->desc + " ";
          break;
        case 5:
          o.call = prev[g.draw(prev.size())];
          o.kind = 0;
          d += "again:" + o.call->desc + " ";
          break;
        case 1:
          o.arg = g.weighted({1, 5}) == 0 ? 0 : g.chance(1, 8) ? g.range(13, kSlow ? 20 : 45) : g.range(1, 12);
          d += strf("threads=%d ", o.arg);
          break;
#ifdef CUSTOMPOOL
        case 6: {
          int mode = g.draw(kPoolModes);
          o.arg = mode | static_cast<int>(g.draw(4)) << 4 | static_cast<int>(g.draw(2)) << 6 | static_cast<int>(g.draw(1000)) << 16;
          const char* names[] = {"forward", "reverse", "shuffled", "thread-each", "queue", "queue-shuffled", "shared"};
          d += strf("pool=%s/%d ", names[mode], 1 + (o.arg >> 4 & 3));
          g.label(std::string("pool:") + names[mode]);
          break;
        }
#endif
        case 2:
          o.arg = g.pick<int>({16384, 300, 1024, 4096, 65536});
          d += strf("l1=%d ", o.arg);
          break;
        case 3:
          o.arg = g.pick<int>({262144, 1024, 4096, 16384, 40960, 1 << 20});
          d += strf("l2=%d ", o.arg);
          break;
        default:
          o.f = g.pick<float>({0.75f, 1.0f, 0.5f, 0.25f, 0.9f});
          d += strf("f=%g ", o.f);
          break;
      }
      if (o.call) {
        calls++;
        n += static_cast<uint64_t>(o.call->s.m) * o.call->s.n;
      } else {
        sets++;
      }
      as[t].ops.push_back(o);
    }
    d += "]";
    if (share) as[t].share_memory();
    if (share) g.label("buffers:shared by the calls");
    if (as[t].hop) g.label("threads:one per operation");
    if (as[t].contexts == 2) g.label("contexts:two in turn");
  }
  g.describe(d);
  if (actors == 1) {
    actor_main(&as[0]);
  } else {
    ::pthread_barrier_t bar;
    ::pthread_barrier_init(&bar, nullptr, actors);
    std::vector<::pthread_t> th(actors);
    for (int t = 0; t < actors; t++) {
      as[t].bar = &bar;
      if (::pthread_create(&th[t], nullptr, actor_main, &as[t])) _exit(3);
    }
    for (int t = 0; t < actors; t++) ::pthread_join(th[t], nullptr);
    ::pthread_barrier_destroy(&bar);
  }
  for (auto& a : as)
    if (!a.err.empty()) g.fail("%s", a.err.c_str());
  g.label(strf("contexts:%d", actors));
#ifdef CUSTOMPOOL
  int batches = 0;
  for (auto& a : as) batches += a.batches;
  g.nontrivial(batches >= 1);
#else
  g.nontrivial(calls >= 2 && sets >= 1);
#endif
  g.add_evals(n);
}
#ifndef CUSTOMPOOL
// A context that lives long: a few multiplications, each done many times, with
// setting changes between them.
void prop_long(G& g) {
  int kinds = g.range(1, 5), len = g.range(20, kSlow ? 250 : 900), every = g.range(2, 60);
  Actor a;
  std::vector<std::shared_ptr<Call>> calls;
  std::string d = strf("%d operations, a setting changes about every %d:", len, every);
  bool share = g.boolean();
  if (share) d += " same buffers:";
  for (int i = 0; i < kinds; i++) {
    calls.emplace_back(new Call);
    gen_call(g, calls.back().get(), true, i && share && g.boolean() ? calls[i - 1].get() : nullptr);
    d += " " + calls.back()->desc;
  }
  g.describe(d);
  Rng r(g.seed64());
  uint64_t n = 0;
  int sets = 0;
  for (int i = 0; i < len; i++) {
    Op o;
    o.kind = 0;
    if (r.below(every) == 0) {
      o.kind = 1 + r.below(4);
      const int l1[] = {16384, 300, 1024, 4096, 65536}, l2[] = {262144, 1024, 4096, 16384, 40960};
      const float f[] = {0.75f, 1.0f, 0.5f, 0.25f, 0.9f};
      if (o.kind == 1) o.arg = r.below(10);
      if (o.kind == 2) o.arg = l1[r.below(5)];
      if (o.kind == 3) o.arg = l2[r.below(5)];
      if (o.kind == 4) o.f = f[r.below(5)];
      sets++;
    } else {
      o.call = calls[r.below(calls.size())];
      n += static_cast<uint64_t>(o.call->s.m) * o.call->s.n;
    }
    a.ops.push_back(o);
  }
  if (share) a.share_memory();
  actor_main(&a);
  if (!a.err.empty()) g.fail("%s", a.err.c_str());
  g.label("history:long");
  g.nontrivial(sets >= 1);
  g.add_evals(n);
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"history", prop_history}, {"long", prop_long}}); }
#else
int main(int argc, char** argv) { return pbt::run_main(argc, argv, {{"history", prop_history}}); }
#endif
#endif  // LEAK
#endif
