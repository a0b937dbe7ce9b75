// profile.cc: the sampling profiler (C21).  Built with GEMMLOWP_PROFILING.
// "profile": a history of actor threads that register, enter / rename / leave
//   nested labelled regions, multiply, and exit, with profiles taken while all
//   actors are parked (the report must be exactly the model's tree) or while
//   they move (results exact, report consistent in itself).
// "churn": large numbers of threads that register, label and exit, with and
//   without the profiler running.
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>

#include "gemm_common.h"
#include "profiling/profiler.h"

using namespace gemmlowp;
using pbt::G;
using pbt::Rng;
using pbt::strf;

#if defined(__SANITIZE_THREAD__)
// The start / finish flags of the profiler are plain bools by design (see the
// comments in profiler.h); only races between labels and sampling count here.
extern "C" const char* __tsan_default_suppressions() {
  return "race:gemmlowp::FinishProfiling\nrace:gemmlowp::StartProfiling\nrace:ProfileTreeView\nrace:ProfilerThreadShouldFinish\nrace:IsProfiling\n";
}
#endif

static const char* const kLabels[] = {"alpha", "beta", "gamma", "delta", "epsilon", "zeta", "eta", "theta"};
const int kNLabels = 8;

struct Node {
  std::string label;
  double pct;
  std::vector<Node> children;
};
struct Report {
  int threads = -1, samples = -1;
  Node root;
  std::string text;
};

// Runs Finish with stdout diverted, and parses what it prints.
inline Report finish_and_parse(G& g) {
  fflush(stdout);
  int fd = memfd_create("profile", 0), saved = dup(1);
  dup2(fd, 1);
  FinishProfiling();
  fflush(stdout);
  dup2(saved, 1);
  close(saved);
  Report r;
  off_t n = lseek(fd, 0, SEEK_END);
  r.text.resize(n);
  if (pread(fd, &r.text[0], n, 0) != n) r.text.clear();
  close(fd);
  std::vector<Node*> path = {&r.root};
  size_t pos = 0;
  bool header = false;
  while (pos < r.text.size()) {
    size_t e = r.text.find('\n', pos);
    if (e == std::string::npos) e = r.text.size();
    std::string line = r.text.substr(pos, e - pos);
    pos = e + 1;
    if (line.empty()) continue;
    if (sscanf(line.c_str(), "gemmlowp profile (%d threads, %d samples)", &r.threads, &r.samples) == 2) {
      if (header) throw pbt::Failure{"two profiles in one report: " + r.text};
      header = true;
      continue;
    }
    size_t sp = line.find_first_not_of(' ');
    if (sp % 4 != 0 || sp / 4 + 1 > path.size()) throw pbt::Failure{"bad indentation in report: " + r.text};
    Node nd;
    char* rest;
    nd.pct = strtod(line.c_str() + sp, &rest);
    if (rest[0] != '%' || rest[1] != ' ') throw pbt::Failure{"bad line in report: " + line};
    nd.label = rest + 2;
    path.resize(sp / 4 + 1);
    path.back()->children.push_back(nd);
    path.push_back(&path.back()->children.back());
  }
  if (!header) throw pbt::Failure{"no header in report: " + r.text};
  r.root.pct = 100.0;
  (void)g;
  return r;
}

inline bool is_other(const std::string& s) { return s.compare(0, 5, "other") == 0; }

// Percentages are printed with two decimals.
const double kTol = 0.006;

inline void check_exact(G& g, const Report& r, const Node& node, const std::vector<std::vector<int>>& stacks,
                        const std::vector<int>& prefix) {
  // Model: how many parked stacks continue this prefix with each label.
  std::map<std::string, int> next;
  int here = 0, deeper = 0;
  for (auto& s : stacks) {
    if (s.size() < prefix.size() || !std::equal(prefix.begin(), prefix.end(), s.begin())) continue;
    here++;
    if (s.size() > prefix.size()) next[kLabels[s[prefix.size()]]]++, deeper++;
  }
  std::map<std::string, const Node*> got;
  for (auto& c : node.children) {
    if (got.count(c.label)) g.fail("region %s reported twice under the same parent: %s", c.label.c_str(), r.text.c_str());
    got[c.label] = &c;
    if (c.label == "other" && prefix.empty()) g.fail("time outside of any label reported as '%s': %s", c.label.c_str(), r.text.c_str());
    if (c.label == "other (outside of any label)" && !prefix.empty()) g.fail("time inside a label reported as '%s': %s", c.label.c_str(), r.text.c_str());
  }
  double total = static_cast<double>(stacks.size());
  for (auto& kv : next) {
    if (!got.count(kv.first)) g.fail("region %s (%d of %d threads) missing at depth %d: %s", kv.first.c_str(), kv.second, (int)stacks.size(), (int)prefix.size(), r.text.c_str());
    double want = 100.0 * kv.second / total;
    if (std::fabs(got[kv.first]->pct - want) > kTol)
      g.fail("region %s at depth %d: %.2f%%, expected %.2f%%: %s", kv.first.c_str(), (int)prefix.size(), got[kv.first]->pct, want, r.text.c_str());
  }
  for (auto& kv : got) {
    if (is_other(kv.first)) {
      double want = 100.0 * (here - deeper) / total;
      if (std::fabs(kv.second->pct - want) > kTol) g.fail("'%s' at depth %d: %.2f%%, expected %.2f%%: %s", kv.first.c_str(), (int)prefix.size(), kv.second->pct, want, r.text.c_str());
    } else if (!next.count(kv.first)) {
      g.fail("region %s reported at depth %d but no thread is in it: %s", kv.first.c_str(), (int)prefix.size(), r.text.c_str());
    }
  }
  for (auto& kv : next) {
    std::vector<int> p = prefix;
    for (int i = 0; i < kNLabels; i++)
      if (kv.first == kLabels[i]) p.push_back(i);
    check_exact(g, r, *got[kv.first], stacks, p);
  }
}

// Sum rule: children (with "other") make up their parent.
inline void check_sums(G& g, const Report& r, const Node& node) {
  if (node.children.empty()) return;
  double sum = 0;
  for (auto& c : node.children) {
    sum += c.pct;
    if (c.pct < -kTol || c.pct > 100 + kTol) g.fail("percentage out of range: %s", r.text.c_str());
    if (&c != &node.children.front() && c.pct > (&c - 1)->pct) g.fail("children of %s are not in decreasing order: %s", node.label.c_str(), r.text.c_str());
    check_sums(g, r, c);
  }
  if (std::fabs(sum - node.pct) > kTol * (node.children.size() + 1)) g.fail("children of %s make up %.2f%% of %.2f%%: %s", node.label.c_str(), sum, node.pct, r.text.c_str());
}

inline int multiply_wrong(uint64_t seed, int m, int n, int k, int threads) {
  Rng r(seed);
  std::vector<uint8_t> a(m * k), b(k * n);
  for (auto& x : a) x = r.next();
  for (auto& x : b) x = r.next();
  std::vector<int32_t> c(m * n, -77);
  GemmContext ctx;
  ctx.set_max_num_threads(threads);
  MatrixMap<const uint8_t, MapOrder::RowMajor> L(a.data(), m, k);
  MatrixMap<const uint8_t, MapOrder::ColMajor> R(b.data(), k, n);
  MatrixMap<int32_t, MapOrder::ColMajor> C(c.data(), m, n);
  GemmWithOutputPipeline<uint8_t, int32_t, DefaultL8R8BitDepthParams>(&ctx, L, R, &C, -5, 9, std::make_tuple());
  int bad = 0;
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      int32_t s = 0;
      for (int d = 0; d < k; d++) s += (a[i * k + d] - 5) * (b[j * k + d] + 9);
      bad += s != c[i + j * m];
    }
  return bad;
}

class Actor {
 public:
  explicit Actor(bool reg) : registered(reg), t_([this] { main(); }) {
    if (reg) post([] { RegisterCurrentThreadForProfiling(); });
    wait();
  }
  ~Actor() { stop(); }
  void stop() {
    if (!t_.joinable()) return;
    post(nullptr);
    t_.join();
  }
  void post(std::function<void()> f) {
    std::unique_lock<std::mutex> l(m_);
    q_.push_back(f);
    cv_.notify_all();
  }
  void wait() {
    std::unique_lock<std::mutex> l(m_);
    cv_.wait(l, [this] { return q_.empty() && idle_; });
  }
  // On the actor's thread:
  void push(int l) { live_.emplace_back(new ScopedProfilingLabel(kLabels[l])); }
  void pop() { live_.pop_back(); }
  void rename(int l) { live_.back()->Update(kLabels[l]); }

  bool registered;
  std::vector<int> stack;      // model, owned by the controlling thread
  std::atomic<int> wrong{0};

 private:
  void main() {
    std::unique_lock<std::mutex> l(m_);
    while (true) {
      idle_ = true;
      cv_.notify_all();
      cv_.wait(l, [this] { return !q_.empty(); });
      idle_ = false;
      auto f = q_.front();
      q_.erase(q_.begin());
      l.unlock();
      if (!f) break;
      f();
      l.lock();
    }
    while (!live_.empty()) live_.pop_back();
  }
  std::mutex m_;
  std::condition_variable cv_;
  std::vector<std::function<void()>> q_;
  bool idle_ = false;
  std::vector<std::unique_ptr<ScopedProfilingLabel>> live_;
  std::thread t_;
};

inline void mutate(G& g, Actor* a, std::string* log, bool movable) {
  int n = g.range(1, 5);
  for (int i = 0; i < n; i++) {
    switch (a->stack.empty() ? 0 : g.weighted({4, 3, 2})) {
      case 0: {
        if (a->stack.size() >= 16) break;
        int l = g.draw(kNLabels);
        if (g.chance(1, 8)) {  // dive
          int d = g.range(1, 14);
          for (int q = 0; q < d && a->stack.size() < 22; q++) {
            a->stack.push_back(l);
            a->post([a, l] { a->push(l); });
          }
          break;
        }
        a->stack.push_back(l);
        a->post([a, l] { a->push(l); });
        break;
      }
      case 1:
        a->stack.pop_back();
        a->post([a] { a->pop(); });
        break;
      default: {
        int l = g.draw(kNLabels);
        a->stack.back() = l;
        a->post([a, l] { a->rename(l); });
      }
    }
  }
  (void)log;
  if (!movable) a->wait();
}

static void nap(int us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000L};
  nanosleep(&ts, nullptr);
}

static void run_history(G& g) {
  std::vector<std::unique_ptr<Actor>> actors;
  int steps = g.range(2, 12), profiles = 0, exact = 0;
  std::string log;
  for (int s = 0; s < steps; s++) {
    int op = s == steps - 1 ? 3 : g.weighted({5, 6, 2, 5, 3, 2});
    if (actors.empty()) op = 0;
    switch (op) {
      case 0: {
        int n = g.range(1, 3);
        for (int i = 0; i < n && actors.size() < 6; i++) {
          bool reg = g.draw(4) != 3;
          actors.emplace_back(new Actor(reg));
          log += reg ? "spawn " : "spawn-unregistered ";
          mutate(g, actors.back().get(), &log, false);
        }
        break;
      }
      case 1:
        mutate(g, actors[g.draw(actors.size())].get(), &log, false);
        log += "move ";
        break;
      case 2: {
        int i = g.draw(actors.size());
        actors.erase(actors.begin() + i);
        log += "exit ";
        break;
      }
      case 3: {  // parked profile: the report is exactly the model
        g.describe(log + "parked-profile");
        StartProfiling();
        nap(g.range(2500, 6000));
        Report r = finish_and_parse(g);
        std::vector<std::vector<int>> stacks;
        for (auto& a : actors)
          if (a->registered) stacks.push_back(a->stack);
        log += strf("parked-profile(%d) ", (int)stacks.size());
        g.describe(log);
        if (r.threads != static_cast<int>(stacks.size())) g.fail("%d threads reported, %d registered and alive: %s", r.threads, (int)stacks.size(), r.text.c_str());
        if (stacks.empty() ? r.samples != 0 : r.samples % static_cast<int>(stacks.size()) != 0)
          g.fail("%d samples of %d parked threads: %s", r.samples, (int)stacks.size(), r.text.c_str());
        // One tick per millisecond or more: anything above is left over.
        if (r.samples > 2000 * static_cast<int>(stacks.size())) g.fail("%d samples in a few milliseconds: %s", r.samples, r.text.c_str());
        profiles++;
        if (r.samples > 0) {
          exact++;
          check_exact(g, r, r.root, stacks, {});
        }
        break;
      }
      case 4: {  // moving profile, with multiplications and exits
        StartProfiling();
        int n = g.range(1, 6);
        log += "live-profile( ";
        for (int i = 0; i < n && !actors.empty(); i++) {
          Actor* a = actors[g.draw(actors.size())].get();
          switch (g.weighted({3, 3, 1, 1})) {
            case 0: mutate(g, a, &log, true); log += "move "; break;
            case 1: {
              uint64_t seed = g.seed64();
              int m = g.range(1, 70), nn = g.range(1, 40), k = g.range(1, 90), t = g.range(1, 4);
              a->post([=] { a->wrong += multiply_wrong(seed, m, nn, k, t); });
              log += strf("multiply %dx%dx%d/%d ", m, nn, k, t);
              break;
            }
            case 2: {
              size_t i2 = g.draw(actors.size());
              if (actors[i2]->wrong) g.fail("a multiplication was wrong while profiling");
              actors.erase(actors.begin() + i2);
              log += "exit ";
              break;
            }
            default:
              if (actors.size() < 6) actors.emplace_back(new Actor(true)), log += "spawn ";
          }
        }
        nap(g.range(200, 3000));
        g.describe(log);
        Report r = finish_and_parse(g);
        log += ") ";
        check_sums(g, r, r.root);
        for (auto& a : actors) {
          a->wait();
          if (a->wrong) g.fail("a multiplication was wrong while profiling");
        }
        profiles++;
        break;
      }
      default: {
        Actor* a = actors[g.draw(actors.size())].get();
        uint64_t seed = g.seed64();
        int m = g.range(1, 130), n = g.range(1, 60), k = g.range(1, 90), t = g.range(1, 4);
        a->post([=] { a->wrong += multiply_wrong(seed, m, n, k, t); });
        a->wait();
        log += strf("multiply %dx%dx%d/%d ", m, n, k, t);
        if (a->wrong) g.fail("a multiplication was wrong with profiling compiled in");
      }
    }
  }
  g.describe(log);
  g.nontrivial(profiles >= 1 && exact >= 1);
  g.add_evals(profiles);
}

static void run_churn(G& g) {
  bool during = g.boolean();
  int total = g.weighted({3, 1}) == 0 ? g.range(1, 200) : g.range(900, 1500);
  int wave = g.range(1, 8), depth = g.range(0, 12);
  bool reg = g.draw(4) != 3;
  g.describe(strf("%d %s threads in waves of %d, %d nested labels, profiler %s", total, reg ? "registered" : "unregistered", wave, depth, during ? "running" : "idle"));
  g.label(total > 1000 ? "more than 1000 threads" : "up to 200 threads");
  if (during) StartProfiling();
  for (int i = 0; i < total; i += wave) {
    std::vector<std::thread> ts;
    for (int j = 0; j < wave && i + j < total; j++)
      ts.emplace_back([=] {
        if (reg) RegisterCurrentThreadForProfiling();
        std::vector<std::unique_ptr<ScopedProfilingLabel>> l;
        for (int d = 0; d < depth; d++) l.emplace_back(new ScopedProfilingLabel(kLabels[(i + d) % kNLabels]));
        while (!l.empty()) l.pop_back();
      });
    for (auto& t : ts) t.join();
  }
  if (during) {
    Report r = finish_and_parse(g);
    check_sums(g, r, r.root);
    if (r.threads != 0) g.fail("%d threads still registered after all have exited", r.threads);
  }
  {
    Actor a(true);
    a.stack = {3, 1};
    a.post([&a] { a.push(3); a.push(1); });
    a.wait();
    StartProfiling();
    nap(4000);
    Report r = finish_and_parse(g);
    if (r.threads != 1) g.fail("%d threads registered, only 1 alive", r.threads);
    if (r.samples) check_exact(g, r, r.root, {a.stack}, {});
  }
  StartProfiling();
  nap(1500);
  Report r = finish_and_parse(g);
  if (r.threads != 0 || r.samples != 0) g.fail("%d threads, %d samples with no thread alive", r.threads, r.samples);
  g.nontrivial(total >= 2 && reg && depth >= 1);
  g.add_evals(total);
}

// The controlling thread is a fresh one, so that nothing of this process'
// main thread takes part.
static void on_thread(G& g, void (*f)(G&)) {
  bool failed = false;
  pbt::Failure fail;
  std::thread t([&] {
    try {
      f(g);
    } catch (const pbt::Failure& e) {
      failed = true;
      fail = e;
    }
  });
  t.join();
  if (failed) throw fail;
}

static void profile(G& g) { on_thread(g, run_history); }
static void churn(G& g) { on_thread(g, run_churn); }

int main(int argc, char** argv) {
  return pbt::run_main(argc, argv, {{"profile", profile}, {"churn", churn}});
}
