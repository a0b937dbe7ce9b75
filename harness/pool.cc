// pool.cc: histories of task batches on worker pools and countdown counters
// (C10).  Every task has an execution counter, writes plain (non-atomic)
// memory that the submitting thread reads after the batch returns, uses its
// scratch allocator, and takes a generated amount of time.
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <memory>
#include <vector>

#include "gemm_common.h"

using namespace gemmlowp;
using pbt::G;
using pbt::Rng;
using pbt::strf;

struct Slot {
  std::atomic<int> runs{0};
  std::atomic<int> finished{0};
  std::atomic<int> destroyed{0};
  int plain = 0;  // written by the task without synchronisation
  int alloc_ok = -1;
  ::pthread_t tid;
};

inline void delay(int kind, int amount) {
  switch (kind) {
    case 0: return;
    case 1:
      for (volatile int i = 0; i < amount * 40; i = i + 1) {
      }
      return;
    case 2: {
      struct timespec ts = {0, amount * 1000L};
      nanosleep(&ts, nullptr);
      return;
    }
    case 4: {
      struct timespec ts = {amount / 1000, amount % 1000 * 1000000L};
      nanosleep(&ts, nullptr);
      return;
    }
    default:
      for (int i = 0; i < amount % 50; i++) sched_yield();
  }
}

std::atomic<int> g_live(0);
const int kVerifBatches = 14;
#ifdef VERIF_SLOW
const bool kSlow = true;
#else
const bool kSlow = false;
#endif

struct PTask : Task {
  Slot* slot = nullptr;
  int value = 0, kind = 0, amount = 0, bytes = 0;
  bool use_alloc = false;
  PTask() { g_live++; }
  ~PTask() override {
    g_live--;
    if (slot) slot->destroyed++;
  }
  void Run() override {
    slot->runs++;
    slot->tid = ::pthread_self();
    if (use_alloc) {
      Allocator* a = local_allocator;
      auto h1 = a->Reserve<std::uint8_t>(bytes);
      auto h2 = a->Reserve<std::int32_t>(bytes / 4 + 1);
      a->Commit();
      std::uint8_t* p = a->GetPointer<std::uint8_t>(h1);
      std::int32_t* q = a->GetPointer<std::int32_t>(h2);
      memset(p, value & 255, bytes);
      for (int i = 0; i <= bytes / 4; i++) q[i] = value + i;
      delay(kind, amount);
      int ok = 1;
      for (int i = 0; i < bytes; i++)
        if (p[i] != (value & 255)) ok = 0;
      for (int i = 0; i <= bytes / 4; i++)
        if (q[i] != value + i) ok = 0;
      slot->alloc_ok = ok;
      a->Decommit();
    } else {
      delay(kind, amount);
    }
    slot->plain = value;
    slot->finished++;
  }
};

void check_batch(G& g, std::vector<Slot>& slots, const std::vector<int>& values, bool destroyed_expected, int b,
                 const std::vector<bool>& used_alloc) {
  for (size_t i = 0; i < values.size(); i++) {
    Slot& s = slots[i];
    if (s.runs.load() != 1) g.fail("batch %d: task %d ran %d times", b, (int)i, s.runs.load());
    if (s.finished.load() != 1) g.fail("batch %d: returned before task %d finished", b, (int)i);
    if (s.plain != values[i]) g.fail("batch %d: effect of task %d not visible", b, (int)i);
    if (used_alloc[i] && s.alloc_ok != 1) g.fail("batch %d: scratch memory of task %d was clobbered", b, (int)i);
    int want = destroyed_expected ? 1 : 0;
    if (s.destroyed.load() != want) g.fail("batch %d: task %d destroyed %d times, expected %d", b, (int)i, s.destroyed.load(), want);
  }
}

void prop_pool(G& g) {
  int pools = g.weighted({4, 1}) + 1;
  std::vector<std::unique_ptr<WorkersPool>> pool(pools);
  for (auto& p : pool) p.reset(new WorkersPool);
  int batches = g.range(1, kVerifBatches);
  int maxtasks = g.weighted({5, 2}) == 0 ? 6 : 20;
  std::string d = strf("pools=%d batches=", pools);
  bool multi = false;
  uint64_t total = 0;
  for (int b = 0; b < batches; b++) {
    int op = g.weighted({6, 5, 1});
    int pi = g.draw(pools);
    if (op == 2) {  // destroy and recreate the pool
      d += strf(" recreate%d", pi);
      pool[pi].reset(new WorkersPool);
      continue;
    }
    int n = g.range(1, maxtasks);
    int kind = g.draw(4), amount = g.range(0, 400), spread = g.draw(3);
    int allocmode = g.draw(3);
    uint64_t seed = g.seed64();
    Rng r(seed);
    d += strf(" %s(p%d,n=%d,delay=%d/%d/%d,alloc=%d)", op == 0 ? "exec" : "legacy", pi, n, kind, amount, spread, allocmode);
    g.describe(d);
    if (n > 1) multi = true;
    total += n;
    std::vector<Slot> slots(n);
    std::vector<int> values(n);
    std::vector<bool> ua(n);
    auto setup = [&](PTask* t, int i) {
      t->slot = &slots[i];
      t->value = values[i] = static_cast<int>(r.next() & 0xFFFFFF) | 1;
      t->kind = kind;
      // spread: equal durations, random, or one straggler
      t->amount = spread == 0 ? amount : spread == 1 ? static_cast<int>(r.below(amount + 1)) : (i == static_cast<int>(r.below(n)) ? amount * 3 : 0);
      t->use_alloc = ua[i] = allocmode == 2 || (allocmode == 1 && r.below(2));
      t->bytes = static_cast<int>(r.below(5000));
    };
    if (op == 0) {
      std::vector<PTask> tasks(n);
      for (int i = 0; i < n; i++) setup(&tasks[i], i);
      pool[pi]->Execute(n, tasks.data());
      check_batch(g, slots, values, false, b, ua);
      for (auto& t : tasks) t.slot = nullptr;
    } else {
      int live = g_live.load();
      std::vector<Task*> tasks;
      for (int i = 0; i < n; i++) {
        PTask* t = new PTask;
        setup(t, i);
        tasks.push_back(t);
      }
      pool[pi]->LegacyExecuteAndDestroyTasks(tasks);
      check_batch(g, slots, values, true, b, ua);
      if (g_live.load() != live) g.fail("batch %d: %d tasks leaked or freed twice", b, g_live.load() - live);
    }
    // tasks of one batch must run in distinct threads only when concurrent:
    // no requirement here.
    for (int i = 0; i < n; i++)
      if (slots[i].runs.load() != 1) g.fail("batch %d: task %d ran again after the batch returned", b, i);
  }
  pool.clear();
  g.label(strf("pools:%d", pools));
  g.label(maxtasks > 6 ? "tasks:many" : "tasks:few");
  g.add_evals(total);
  g.nontrivial(multi);
}

// ---- countdown counter --------------------------------------------------------
struct CArg {
  BlockingCounter* c;
  int times, kind, amount;
  std::atomic<int>* done;
  std::atomic<int>* lasts;
  int* plain;  // each thread its own cell
};
void* counter_thread(void* p) {
  CArg* a = static_cast<CArg*>(p);
  for (int i = 0; i < a->times; i++) {
    if (a->amount) delay(a->kind, a->amount);
    *a->plain += 1;
    a->done->fetch_add(1, std::memory_order_relaxed);
    if (a->c->DecrementCount()) a->lasts->fetch_add(1);
  }
  return nullptr;
}
void prop_counter(G& g) {
  BlockingCounter c;
  int rounds = g.range(1, 5);
  std::string d = "rounds:";
  uint64_t total = 0;
  bool nt = false;
  for (int r = 0; r < rounds; r++) {
    int th = g.range(0, 8);
    std::vector<CArg> args(th);
    std::vector<int> cells(th, 0);
    std::atomic<int> done(0), lasts(0);
    int sum = 0;
    for (int i = 0; i < th; i++) {
      int times = g.weighted({3, 1}) == 0 ? g.range(1, 4) : g.range(1, 3000);
      int amount = times < 10 ? g.range(0, 200) : 0;
      args[i] = {&c, times, static_cast<int>(g.draw(4)), amount, &done, &lasts, &cells[i]};
      sum += times;
    }
    d += strf(" (%d threads, %d decrements)", th, sum);
    g.describe(d);
    if (th > 1) nt = true;
    total += sum;
    c.Reset(sum);
    std::vector<::pthread_t> t(th);
    for (int i = 0; i < th; i++)
      if (::pthread_create(&t[i], nullptr, counter_thread, &args[i])) _exit(3);
    c.Wait();
    int seen = done.load(std::memory_order_relaxed);
    int cellsum = 0;
    for (int x : cells) cellsum += x;
    for (int i = 0; i < th; i++) ::pthread_join(t[i], nullptr);
    if (seen != sum) g.fail("round %d: waiter released after %d of %d decrements", r, seen, sum);
    if (cellsum != sum) g.fail("round %d: writes before the decrements not visible to the waiter", r);
    if (lasts.load() != (sum ? 1 : 0)) g.fail("round %d: %d threads were told they made the last decrement", r, lasts.load());
  }
  g.add_evals(total);
  g.nontrivial(nt);
}

// ---- stragglers and long idle periods ------------------------------------------
// Batches in which one task takes far longer than the others (much longer than
// any busy wait), and pools that stay idle between batches.
void prop_slow(G& g) {
  WorkersPool pool;
  int batches = g.range(1, 3);
  std::string d;
  uint64_t total = 0;
  for (int b = 0; b < batches; b++) {
    int n = g.range(1, 5), slow = g.draw(n), ms = g.range(0, 3000), idle = b ? g.range(0, 1500) : 0;
    d += strf(" idle %d ms, %d tasks, task %d takes %d ms;", idle, n, slow, ms);
    g.describe(d);
    delay(4, idle);
    std::vector<Slot> slots(n);
    std::vector<int> values(n);
    std::vector<bool> ua(n);
    std::vector<PTask> tasks(n);
    for (int i = 0; i < n; i++) {
      tasks[i].slot = &slots[i];
      tasks[i].value = values[i] = i + 1 + b;
      tasks[i].use_alloc = ua[i] = true;
      tasks[i].bytes = 100 + i;
      tasks[i].kind = i == slow ? 4 : 0;
      tasks[i].amount = i == slow ? ms : 0;
    }
    pool.Execute(n, tasks.data());
    bool early = false;
    for (auto& s : slots) early |= s.finished.load() != 1;
    if (early) {  // let the stray task end before its memory goes away
      sleep(4);
      g.fail("batch %d returned before all its tasks had finished", b);
    }
    check_batch(g, slots, values, false, b, ua);
    for (auto& t : tasks) t.slot = nullptr;
    total += n;
  }
  g.add_evals(total);
  g.nontrivial(true);
}

// Hundreds of short batches on one pool.
void prop_long(G& g) {
  WorkersPool pool;
  int batches = g.range(20, kSlow ? 300 : 1500), most = g.weighted({4, 1}) == 0 ? g.range(1, 5) : g.range(6, 70);
  Rng r(g.seed64());
  g.describe(strf("%d batches of up to %d tasks", batches, most));
  uint64_t total = 0;
  for (int b = 0; b < batches; b++) {
    int n = 1 + r.below(most);
    std::vector<Slot> slots(n);
    std::vector<int> values(n);
    std::vector<bool> ua(n);
    bool legacy = r.below(2);
    std::vector<PTask> tasks(legacy ? 0 : n);
    std::vector<Task*> heap;
    for (int i = 0; i < n; i++) {
      PTask* t = legacy ? new PTask : &tasks[i];
      t->slot = &slots[i];
      t->value = values[i] = static_cast<int>(r.next() & 0xFFFFFF) | 1;
      t->use_alloc = ua[i] = r.below(3) == 0;
      t->bytes = static_cast<int>(r.below(300));
      t->kind = 0;
      t->amount = r.below(8) == 0 ? static_cast<int>(r.below(60)) : 0;
      heap.push_back(t);
    }
    if (legacy) pool.LegacyExecuteAndDestroyTasks(heap);
    else pool.Execute(n, tasks.data());
    check_batch(g, slots, values, legacy, b, ua);
    for (auto& t : tasks) t.slot = nullptr;
    total += n;
  }
  g.label("batches:hundreds");
  g.add_evals(total);
  g.nontrivial(most > 1);
}

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"pool", prop_pool}, {"counter", prop_counter}, {"slow", prop_slow}, {"long", prop_long}});
}
