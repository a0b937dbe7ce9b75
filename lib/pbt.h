// pbt.h: a small self-contained property-based testing engine.
//
// Why not rapidcheck: the same harness has to run natively (x86 reference,
// SSE4, AVX2) and under qemu-user (aarch64, armhf), where no cross-compiled
// rapidcheck exists.  The engine is the "choice tape" design (as in
// Hypothesis): every random decision is drawn from a tape of integers; a case
// is fully determined by its tape; shrinking = editing the tape (done by the
// Python driver in fresh processes so that crashes, aborts and hangs shrink
// the same way wrong answers do).  The tape lives in a MAP_SHARED file while
// it is being drawn, so it survives a SIGSEGV or an abort().
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>

#include <initializer_list>

#include <map>
#include <set>
#include <string>
#include <vector>

#ifdef VERIF_MINI
extern "C" bool verif_read_number(FILE* f, unsigned long long* v);
extern "C" int verif_junk;
#elif defined(__GLIBC__)
#include <malloc.h>
#endif

namespace pbt {

// What fresh and freed heap memory contains in this case (0: whatever is there).
inline void heap_junk(int b) {
#ifdef VERIF_MINI
  verif_junk = b;
#elif defined(__GLIBC__)
  mallopt(M_PERTURB, b);
#else
  (void)b;
#endif
}

inline uint64_t splitmix(uint64_t* s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

struct Rng {  // for bulk data, never for decisions
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) {}
  uint64_t next() { return splitmix(&s); }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) {
    return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1));
  }
};

const size_t kMaxTape = 8192;
struct Shared {
  uint64_t magic;
  uint64_t case_index;
  uint64_t ntape;
  uint64_t done_cases;
  char msg[1024];
  uint64_t tape[kMaxTape];
};

inline std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
inline std::string strf(const char* fmt, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  return buf;
}

struct Failure {
  std::string msg;
};
// Builds without exceptions (freestanding targets) end at the first failure.
#ifdef VERIF_NOEXC
#define VERIF_TRY if (true)
#define VERIF_CATCH(e) else if (const Failure* verif_none = nullptr) for (const Failure& e = *verif_none; false;)
#else
#define VERIF_TRY try
#define VERIF_CATCH(e) catch (const Failure& e)
#endif

class G {
 public:
  G(Shared* sh, uint64_t seed) : sh_(sh), replay_(false), state_(seed), pos_(0) {
    sh_->ntape = 0;
  }
  G(Shared* sh, const std::vector<uint64_t>& tape)
      : sh_(sh), replay_(true), in_(tape), state_(0), pos_(0) {
    sh_->ntape = 0;
  }
  // Uniform draw in [0, n); 0 is the simplest value.
  uint64_t draw(uint64_t n) {
    uint64_t v;
    if (n == 0) n = 1;
    if (replay_) {
      v = pos_ < in_.size() ? in_[pos_] : 0;
      if (v >= n) v = n - 1;
    } else {
      v = splitmix(&state_) % n;
    }
    pos_++;
    if (sh_->ntape < kMaxTape) sh_->tape[sh_->ntape++] = v;
    return v;
  }
  // Inclusive range; shrinks towards lo.
  int64_t range(int64_t lo, int64_t hi) {
    if (hi < lo) hi = lo;
    return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo) + 1));
  }
  // Inclusive range containing 0; shrinks towards 0.
  int64_t signed_range(int64_t lo, int64_t hi) {
    uint64_t u = draw(static_cast<uint64_t>(hi - lo) + 1);
    // order: 0, 1, -1, 2, -2, ... clipped
    int64_t npos = hi, nneg = -lo;
    int64_t both = npos < nneg ? npos : nneg;
    if (u == 0) return 0;
    if (u <= 2 * static_cast<uint64_t>(both))
      return (u & 1) ? static_cast<int64_t>((u + 1) / 2)
                     : -static_cast<int64_t>(u / 2);
    int64_t rest = static_cast<int64_t>(u) - 2 * both;  // >= 1
    return npos > nneg ? both + rest : -(both + rest);
  }
  bool boolean() { return draw(2) != 0; }
  // True with probability num/den; shrinks to false.
  bool chance(int num, int den) { return draw(den) >= static_cast<uint64_t>(den - num); }
  // Weighted choice; index 0 is the simplest.
  int weighted(std::initializer_list<int> w) {
    uint64_t tot = 0;
    for (int x : w) tot += x;
    uint64_t v = draw(tot);
    int i = 0;
    for (int x : w) {
      if (v < static_cast<uint64_t>(x)) return i;
      v -= x;
      i++;
    }
    return 0;
  }
  template <typename T>
  T pick(std::initializer_list<T> l) {
    size_t i = draw(l.size());
    return *(l.begin() + i);
  }
  uint64_t seed64() { return draw(1ull << 48); }

  // --- reporting --------------------------------------------------------
  void label(const std::string& l) { labels[l] = true; }
  void describe(const std::string& d) {
    desc = d;
    snprintf(sh_->msg, sizeof sh_->msg, "%s", d.c_str());
  }
  // Marks the case as non-trivial (by the harness' stated rule).
  void nontrivial(bool b = true) { nontriv = b; }
  void add_evals(uint64_t n) { evals += n; }

  void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
#ifdef VERIF_NOEXC
    printf("FAIL %s | case: %s\n", buf, desc.c_str());
    fflush(stdout);
    _exit(1);
#else
    throw Failure{buf};
#endif
  }
  uint64_t tape_hash() const {
    uint64_t h = 1469598103934665603ull;
    for (uint64_t i = 0; i < sh_->ntape; i++) {
      h ^= sh_->tape[i];
      h *= 1099511628211ull;
      h ^= h >> 29;
    }
    return h;
  }

  std::map<std::string, bool> labels;
  std::string desc;
  bool nontriv = false;
  uint64_t evals = 0;
  Shared* sh_;

 private:
  bool replay_;
  std::vector<uint64_t> in_;
  uint64_t state_;
  size_t pos_;
};

typedef void (*PropFn)(G&);
struct Prop {
  const char* name;
  PropFn fn;
};

inline std::string json_escape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 32) {
      o += ' ';
    } else {
      o += c;
    }
  }
  return o;
}

inline int64_t argi(const char* v) { return strtoll(v, nullptr, 10); }

// Command line:
//   H --prop P --seed S --start I --cases N --shared FILE --out FILE [--hashes FILE] [--timeout SEC]
//   H --prop P --replay TAPEFILE --shared FILE [--repeat R]
// exit 0: held; 1: failed (message on stdout "FAIL ..."), other: crash.
inline int run_main(int argc, char** argv, const std::vector<Prop>& props) {
  std::string prop, out, shared = "", replay, hashes;
  uint64_t seed = 1;
  int64_t start = 0, cases = 100, timeout = 0, repeat = 1, stop_at = 0;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    const char* v = i + 1 < argc ? argv[i + 1] : "";
    if (a == "--prop") prop = v, i++;
    else if (a == "--seed") seed = argi(v), i++;
    else if (a == "--start") start = argi(v), i++;
    else if (a == "--cases") cases = argi(v), i++;
    else if (a == "--out") out = v, i++;
    else if (a == "--shared") shared = v, i++;
    else if (a == "--hashes") hashes = v, i++;
    else if (a == "--replay") replay = v, i++;
    else if (a == "--timeout") timeout = argi(v), i++;
    else if (a == "--stop-at") stop_at = argi(v), i++;
    else if (a == "--repeat") repeat = argi(v), i++;
    else if (a == "--list") {
      for (auto& p : props) printf("%s\n", p.name);
      return 0;
    } else {
      fprintf(stderr, "bad arg %s\n", a.c_str());
      return 3;
    }
  }
  const Prop* P = nullptr;
  for (auto& p : props)
    if (prop == p.name) P = &p;
  if (!P) {
    fprintf(stderr, "unknown prop %s\n", prop.c_str());
    return 3;
  }
  Shared* sh;
  if (shared.empty()) {
    sh = static_cast<Shared*>(calloc(1, sizeof(Shared)));
  } else {
    int fd = open(shared.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
      perror("shared");
      return 3;
    }
    void* m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if (m == MAP_FAILED) {
      perror("mmap");
      return 3;
    }
    sh = static_cast<Shared*>(m);
  }
  sh->magic = 0x50425431;

  if (!replay.empty()) {
    std::vector<uint64_t> tape;
    FILE* f = fopen(replay.c_str(), "r");
    if (!f) {
      perror("replay");
      return 3;
    }
    unsigned long long x;
#ifdef VERIF_MINI
    while (verif_read_number(f, &x)) tape.push_back(x);
#else
    while (fscanf(f, "%llu", &x) == 1) tape.push_back(x);
#endif
    fclose(f);
    for (int64_t r = 0; r < repeat; r++) {
      G g(sh, tape);
      if (timeout) alarm(timeout);
      VERIF_TRY {
        heap_junk(static_cast<int>(g.draw(256)));
        P->fn(g);
      } VERIF_CATCH(e) {
        printf("FAIL %s | case: %s\n", e.msg.c_str(), g.desc.c_str());
        fflush(stdout);
        _exit(1);
      }
      if (timeout) alarm(0);
    }
    printf("PASS\n");
    fflush(stdout);
    _exit(0);
  }

  std::map<std::string, uint64_t> labels;
  std::set<uint64_t> nontriv;
  std::vector<std::string> samples;
  uint64_t evals = 0, ncases = 0;
  int rc = 0;
  std::string failmsg, faildesc;
  for (int64_t c = start; c < start + cases; c++) {
    if (stop_at && time(nullptr) > stop_at) break;
    uint64_t s = seed * 0x9E3779B97F4A7C15ull;
    for (const char* q = P->name; *q; q++) s = (s ^ *q) * 1099511628211ull;
    s ^= static_cast<uint64_t>(c) * 0xD1B54A32D192ED03ull;
    splitmix(&s);
    sh->case_index = c;
    sh->msg[0] = 0;
    G g(sh, s);
    if (timeout) alarm(timeout);
    VERIF_TRY {
      heap_junk(static_cast<int>(g.draw(256)));
      P->fn(g);
    } VERIF_CATCH(e) {
      rc = 1;
      failmsg = e.msg;
      faildesc = g.desc;
    }
    if (timeout) alarm(0);
    ncases++;
    evals += g.evals ? g.evals : 1;
    for (auto& l : g.labels) labels[l.first]++;
    if (g.nontriv) {
      nontriv.insert(g.tape_hash());
      if (samples.size() < 4 || (nontriv.size() % 97 == 0 && samples.size() < 10))
        samples.push_back(g.desc);
    }
    sh->done_cases = ncases;
    if (rc) break;
  }
  if (!out.empty()) {
    FILE* f = fopen(out.c_str(), "w");
    if (!f) {
      perror("out");
      return 3;
    }
    fprintf(f, "{\"cases\": %llu, \"evals\": %llu, \"nontrivial\": %llu, \"fail\": \"%s\", \"labels\": {",
            (unsigned long long)ncases, (unsigned long long)evals,
            (unsigned long long)nontriv.size(), json_escape(failmsg).c_str());
    bool first = true;
    for (auto& l : labels) {
      fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", json_escape(l.first).c_str(),
              (unsigned long long)l.second);
      first = false;
    }
    fprintf(f, "}, \"samples\": [");
    for (size_t i = 0; i < samples.size(); i++)
      fprintf(f, "%s\"%s\"", i ? ", " : "", json_escape(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
  }
  if (!hashes.empty()) {
    FILE* f = fopen(hashes.c_str(), "wb");
    for (uint64_t h : nontriv) fwrite(&h, 8, 1, f);
    fclose(f);
  }
  if (rc) printf("FAIL %s | case: %s\n", failmsg.c_str(), faildesc.c_str());
  fflush(stdout);
  // _exit: static destructors of the code under test are exercised by the
  // harnesses that care about them, not here.
  _exit(rc);
}

// Memory with an inaccessible page on each side.  The payload is placed
// against the trailing guard (end=true) or the leading guard (end=false).
class Guarded {
 public:
  Guarded() : base_(nullptr), total_(0), p_(nullptr), n_(0) {}
  Guarded(size_t n, bool at_end, size_t align = 1) : base_(nullptr) { alloc(n, at_end, align); }
  ~Guarded() { release(); }
  Guarded(const Guarded&) = delete;
  Guarded& operator=(const Guarded&) = delete;
  void alloc(size_t n, bool at_end, size_t align = 1) {
    release();
    size_t page = static_cast<size_t>(sysconf(_SC_PAGESIZE));
    if (page < 4096) page = 4096;
    size_t body = (n + page - 1) / page * page;
    if (body == 0) body = page;
    total_ = body + 2 * page;
    void* m = mmap(nullptr, total_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) {
      perror("mmap guarded");
      _exit(3);
    }
    base_ = static_cast<uint8_t*>(m);
    body_ = base_ + page;
    body_n_ = body;
    mprotect(base_, page, PROT_NONE);
    mprotect(base_ + page + body, page, PROT_NONE);
    n_ = n;
    if (at_end) {
      p_ = base_ + page + body - n;
      p_ = reinterpret_cast<uint8_t*>(reinterpret_cast<uintptr_t>(p_) / align * align);
    } else {
      p_ = base_ + page;
    }
    memset(body_, 0xA5, body_n_);
  }
  // Bytes of the mapped body outside [p, p+n) must still hold 0xA5.
  bool slack_intact() const {
    for (uint8_t* q = body_; q < p_; q++)
      if (*q != 0xA5) return false;
    for (uint8_t* q = p_ + n_; q < body_ + body_n_; q++)
      if (*q != 0xA5) return false;
    return true;
  }
  void readonly() { mprotect(body_, body_n_, PROT_READ); }
  void writable() { mprotect(body_, body_n_, PROT_READ | PROT_WRITE); }
  uint8_t* data() const { return p_; }
  size_t size() const { return n_; }
  void release() {
    if (base_) munmap(base_, total_);
    base_ = nullptr;
  }

 private:
  uint8_t* base_;
  size_t total_;
  uint8_t* body_;
  size_t body_n_;
  uint8_t* p_;
  size_t n_;
};

}  // namespace pbt
#endif  // VERIF_PBT_H_
