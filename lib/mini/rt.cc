// rt.cc: the smallest C and C++ run-time support that lets the harnesses run
// on a target for which this sandbox has a compiler, a linker and an emulator
// but no C library (MIPS with MSA, 32-bit x86).  Single-threaded: the harnesses do not ask
// for more than one thread on such a target.
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <sys/mman.h>
#include <time.h>

#include <memory>
#include <new>
#include <string>

#if defined(__mips64)
#define SYS(n) (5000 + (n))
enum { kRead = SYS(0), kWrite = SYS(1), kOpen = SYS(2), kClose = SYS(3), kMmap = SYS(9), kMprotect = SYS(10), kMunmap = SYS(11),
       kAlarm = SYS(37), kFtruncate = SYS(75), kTime = SYS(201), kExit = SYS(205), kGetpid = SYS(38), kKill = SYS(60) };
asm(".text\n"
    ".globl __start\n"
    ".ent __start\n"
    "__start:\n"
    ".set noreorder\n"
    "bal 1f\n"
    "nop\n"
    "1:\n"
    ".set reorder\n"
    ".cpsetup $31, $16, 1b\n"
    "move $4, $sp\n"
    "dli $8, -16\n"
    "and $sp, $sp, $8\n"
    "dla $25, verif_rt_main\n"
    "jalr $25\n"
    ".end __start\n");
static long sysc(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  register long r2 asm("$2") = n;
  register long r4 asm("$4") = a;
  register long r5 asm("$5") = b;
  register long r6 asm("$6") = c;
  register long r7 asm("$7") = d;
  register long r8 asm("$8") = e;
  register long r9 asm("$9") = f;
  asm volatile("syscall" : "+r"(r2), "+r"(r7) : "r"(r4), "r"(r5), "r"(r6), "r"(r8), "r"(r9)
               : "$1", "$3", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "memory");
  return r7 ? -r2 : r2;
}
#elif defined(__wasm__)
// The system is wasm_run.js: each call is passed to it.
enum { kRead, kWrite, kOpen, kClose, kMmap, kMprotect, kMunmap, kAlarm, kFtruncate, kTime, kExit, kGetpid, kKill };
extern "C" __attribute__((import_module("env"), import_name("verif_sys"))) long verif_sys(long, long, long, long, long);
static long sysc(long n, long a = 0, long b = 0, long c = 0, long d = 0, long = 0, long = 0) { return verif_sys(n, a, b, c, d); }
#elif defined(__i386__)
enum { kRead = 3, kWrite = 4, kOpen = 5, kClose = 6, kMmap = 192, kMprotect = 125, kMunmap = 91, kAlarm = 27, kFtruncate = 93,
       kTime = 13, kExit = 252, kGetpid = 20, kKill = 37 };
extern "C" long verif_sysc(long, long, long, long, long, long, long);
asm(".text\n"
    ".globl __start\n"
    "__start:\n"
    "mov %esp, %eax\n"
    "and $-16, %esp\n"
    "sub $12, %esp\n"
    "push %eax\n"
    "call verif_rt_main\n"
    "verif_sysc:\n"
    "push %ebx\n"
    "push %esi\n"
    "push %edi\n"
    "push %ebp\n"
    "mov 20(%esp), %eax\n"
    "mov 24(%esp), %ebx\n"
    "mov 28(%esp), %ecx\n"
    "mov 32(%esp), %edx\n"
    "mov 36(%esp), %esi\n"
    "mov 40(%esp), %edi\n"
    "mov 44(%esp), %ebp\n"
    "int $0x80\n"
    "pop %ebp\n"
    "pop %edi\n"
    "pop %esi\n"
    "pop %ebx\n"
    "ret\n");
static long sysc(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  return verif_sysc(n, a, b, c, d, e, f);
}
// 64-bit division, which this target leaves to the run-time library.
extern "C" {
uint64_t __udivmod(uint64_t a, uint64_t b, uint64_t* rem) {
  uint64_t q = 0, r = 0;
  if ((a >> 32) == 0 && (b >> 32) == 0) {
    *rem = static_cast<uint32_t>(a) % static_cast<uint32_t>(b);
    return static_cast<uint32_t>(a) / static_cast<uint32_t>(b);
  }
  for (int i = 63; i >= 0; i--) {
    bool top = r >> 63;
    r = r << 1 | (a >> i & 1);
    if (top || r >= b) {
      r -= b;
      q |= 1ull << i;
    }
  }
  *rem = r;
  return q;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) {
  uint64_t r;
  return __udivmod(a, b, &r);
}
uint64_t __umoddi3(uint64_t a, uint64_t b) {
  uint64_t r;
  __udivmod(a, b, &r);
  return r;
}
int64_t __divdi3(int64_t a, int64_t b) {
  uint64_t r, q = __udivmod(a < 0 ? 0 - static_cast<uint64_t>(a) : a, b < 0 ? 0 - static_cast<uint64_t>(b) : b, &r);
  return static_cast<int64_t>((a < 0) != (b < 0) ? 0 - q : q);
}
int64_t __moddi3(int64_t a, int64_t b) {
  uint64_t r;
  __udivmod(a < 0 ? 0 - static_cast<uint64_t>(a) : a, b < 0 ? 0 - static_cast<uint64_t>(b) : b, &r);
  return static_cast<int64_t>(a < 0 ? 0 - r : r);
}
}
#else
#error "no start-up code for this target"
#endif

extern "C" {
#ifdef __wasm__
int __main_argc_argv(int, char**);
void __wasm_call_ctors();
#else
int main(int, char**);
typedef void (*Init)();
extern Init __init_array_start[], __init_array_end[];
#endif
int* __errno_location() {
  static int e;
  return &e;
}
__attribute__((noreturn)) void _exit(int c) {
  for (;;) sysc(kExit, c);
}
#ifdef __wasm__
__attribute__((export_name("run"))) void verif_rt_main(int argc, char** argv) {
  __wasm_call_ctors();
  _exit(__main_argc_argv(argc, argv));
}
__attribute__((export_name("room"))) void* room(unsigned long n) {
  return reinterpret_cast<void*>(__builtin_wasm_memory_grow(0, (n + 65535) / 65536) * 65536);
}
#else
__attribute__((used)) void verif_rt_main(long* sp) {
  for (Init* i = __init_array_start; i < __init_array_end; i++) (*i)();
  int rc = main(static_cast<int>(sp[0]), reinterpret_cast<char**>(sp + 1));
  _exit(rc);
}
#endif
// --- memory and strings ----------------------------------------------------
void* memcpy(void* d, const void* s, size_t n) {
  char* p = static_cast<char*>(d);
  const char* q = static_cast<const char*>(s);
  while (n--) {
    *p++ = *q++;
    asm volatile("" ::: "memory");  // keep the loop from becoming memcpy
  }
  return d;
}
void* memchr(const void* s, int c, size_t n) {
  const unsigned char* p = static_cast<const unsigned char*>(s);
  for (; n--; p++)
    if (*p == static_cast<unsigned char>(c)) return const_cast<unsigned char*>(p);
  return nullptr;
}
void* memmove(void* d, const void* s, size_t n) {
  char* p = static_cast<char*>(d);
  const char* q = static_cast<const char*>(s);
  if (p <= q) return memcpy(d, s, n);
  while (n--) {
    p[n] = q[n];
    asm volatile("" ::: "memory");
  }
  return d;
}
void* memset(void* d, int c, size_t n) {
  char* p = static_cast<char*>(d);
  while (n--) {
    *p++ = c;
    asm volatile("" ::: "memory");
  }
  return d;
}
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *p = static_cast<const unsigned char*>(a), *q = static_cast<const unsigned char*>(b);
  for (; n; n--, p++, q++) {
    asm volatile("" ::: "memory");
    if (*p != *q) return *p - *q;
  }
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
size_t strlen(const char* s) {
  size_t n = 0;
  while (s[n]) {
    n++;
    asm volatile("" ::: "memory");
  }
  return n;
}
// --- heap: power-of-two bins -------------------------------------------------
static void* g_bin[48];
static char *g_cur, *g_end;
static void* raw_mmap(void* a, size_t n, int prot, int flags, int fd, long off) {
#ifdef __wasm__
  size_t page = __builtin_wasm_memory_grow(0, (n + 65535) / 65536);
  if (page == size_t(-1)) return MAP_FAILED;
  if (fd >= 0) sysc(kMmap, page * 65536, n, fd);
  return reinterpret_cast<void*>(page * 65536);
#else
#ifdef __mips64
  if (flags == (MAP_PRIVATE | MAP_ANONYMOUS)) flags = 0x2 | 0x800;  // MIPS values
#endif
  long r = sysc(kMmap, reinterpret_cast<long>(a), n, prot, flags, fd, off);
  return r < 0 && r > -4096 ? MAP_FAILED : reinterpret_cast<void*>(r);
#endif
}
int verif_junk = 0;
static void* get_block(size_t n) {
  int b = 5;
  while ((size_t(1) << b) < n + 16) b++;
  if (g_bin[b]) {
    void* p = g_bin[b];
    g_bin[b] = *reinterpret_cast<void**>(p);
    reinterpret_cast<size_t*>(p)[-1] = b;
    return p;
  }
  size_t need = size_t(1) << b;
  if (static_cast<size_t>(g_end - g_cur) < need) {
    size_t chunk = need > (1 << 20) ? need : 1 << 20;
    void* m = raw_mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return nullptr;
    g_cur = static_cast<char*>(m);
    g_end = g_cur + chunk;
  }
  char* p = g_cur + 16;
  g_cur += need;
  reinterpret_cast<size_t*>(p)[-1] = b;
  return p;
}
void* malloc(size_t n) {
  void* p = get_block(n);
  if (p && verif_junk) memset(p, verif_junk, n);
  return p;
}
void free(void* p) {
  if (!p) return;
  size_t t = reinterpret_cast<size_t*>(p)[-1];
  if (t & 0x100) {  // aligned block: the real start is stored before it
    free(reinterpret_cast<void**>(p)[-2]);
    return;
  }
  *reinterpret_cast<void**>(p) = g_bin[t];
  g_bin[t] = p;
}
void* calloc(size_t a, size_t b) {
  void* p = malloc(a * b);
  if (p) memset(p, 0, a * b);
  return p;
}
int posix_memalign(void** out, size_t al, size_t n) {
  char* p = static_cast<char*>(malloc(n + al + 16));
  if (!p) return ENOMEM;
  uintptr_t q = (reinterpret_cast<uintptr_t>(p) + 16 + al - 1) / al * al;
  reinterpret_cast<void**>(q)[-2] = p;
  reinterpret_cast<size_t*>(q)[-1] = 0x100;
  *out = reinterpret_cast<void*>(q);
  return 0;
}
// --- system ------------------------------------------------------------------
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) noexcept { return raw_mmap(a, n, prot, flags, fd, off); }
int munmap(void* a, size_t n) noexcept { return sysc(kMunmap, reinterpret_cast<long>(a), n); }
int mprotect(void* a, size_t n, int prot) noexcept { return sysc(kMprotect, reinterpret_cast<long>(a), n, prot); }
int open(const char* p, int flags, ...) {
  long f = flags & 3;
#ifdef __i386__
  if (flags & O_CREAT) f |= 0x40;
#else
  if (flags & O_CREAT) f |= 0x100;  // MIPS values
#endif
  if (flags & O_TRUNC) f |= 0x200;
  return sysc(kOpen, reinterpret_cast<long>(p), f, 0644);
}
int ftruncate(int fd, off_t n) noexcept { return sysc(kFtruncate, fd, n); }
unsigned alarm(unsigned s) noexcept { return sysc(kAlarm, s); }
time_t time(time_t*) noexcept { return sysc(kTime, 0); }
long sysconf(int) noexcept { return 65536; }  // a page size that every kernel accepts
int nanosleep(const struct timespec*, struct timespec*) { return 0; }
void abort() noexcept {
  sysc(kKill, sysc(kGetpid), 6);
  _exit(134);
}
// --- output --------------------------------------------------------------------
struct MiniFile {
  int fd;
  size_t n;
  char buf[4096];
};
static MiniFile g_out = {1, 0, {}}, g_err = {2, 0, {}};
FILE* stdout = reinterpret_cast<FILE*>(&g_out);
FILE* stderr = reinterpret_cast<FILE*>(&g_err);
int fflush(FILE* f) {
  MiniFile* m = reinterpret_cast<MiniFile*>(f);
  size_t o = 0;
  while (o < m->n) {
    long r = sysc(kWrite, m->fd, reinterpret_cast<long>(m->buf + o), m->n - o);
    if (r <= 0) break;
    o += r;
  }
  m->n = 0;
  return 0;
}
static void put(MiniFile* m, const char* s, size_t n) {
  for (size_t i = 0; i < n; i++) {
    if (m->n == sizeof m->buf) fflush(reinterpret_cast<FILE*>(m));
    m->buf[m->n++] = s[i];
  }
  if (m == &g_err) fflush(stderr);
}
FILE* fopen(const char* p, const char* mode) {
  int fd = mode[0] == 'r' ? open(p, O_RDONLY) : open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd < 0) return nullptr;
  MiniFile* m = static_cast<MiniFile*>(malloc(sizeof(MiniFile)));
  m->fd = fd;
  m->n = 0;
  return reinterpret_cast<FILE*>(m);
}
int fclose(FILE* f) {
  fflush(f);
  sysc(kClose, reinterpret_cast<MiniFile*>(f)->fd);
  free(f);
  return 0;
}
size_t fwrite(const void* p, size_t a, size_t b, FILE* f) {
  put(reinterpret_cast<MiniFile*>(f), static_cast<const char*>(p), a * b);
  return b;
}
int fputc(int c, FILE* f) {
  char x = c;
  put(reinterpret_cast<MiniFile*>(f), &x, 1);
  return c;
}
int putc(int c, FILE* f) { return fputc(c, f); }
int puts(const char* s) {
  put(&g_out, s, strlen(s));
  return putchar('\n');
}
}  // extern "C"

namespace {
struct Sink {
  char* p;
  size_t n, cap;
  void ch(char c) {
    if (n + 1 < cap) p[n] = c;
    n++;
  }
  void str(const char* s) {
    while (*s) ch(*s++);
  }
};
void number(Sink* s, unsigned long long v, int base, bool neg, int width, bool zero) {
  char t[24];
  int i = 0;
  do t[i++] = "0123456789abcdef"[v % base], v /= base;
  while (v);
  if (neg && zero) s->ch('-');
  for (int k = i + neg; k < width; k++) s->ch(zero ? '0' : ' ');
  if (neg && !zero) s->ch('-');
  while (i) s->ch(t[--i]);
}
void real(Sink* s, double v) {
  if (v != v) return s->str("nan");
  if (v < 0) s->ch('-'), v = -v;
  if (v > 1e300) return s->str("huge");
  int e = 0;
  if (v > 0) {
    while (v >= 1e6) v /= 10, e++;
    while (v < 1) v *= 10, e--;
  }
  unsigned long long w = static_cast<unsigned long long>(v), fr = static_cast<unsigned long long>((v - w) * 1e6);
  number(s, w, 10, false, 0, false);
  s->ch('.');
  number(s, fr, 10, false, 6, true);
  if (e) s->ch('e'), number(s, e < 0 ? -e : e, 10, e < 0, 0, false);
}
}  // namespace

extern "C" {
int vsnprintf(char* buf, size_t cap, const char* f, va_list ap) {
  Sink s = {buf, 0, cap};
  for (; *f; f++) {
    if (*f != '%') {
      s.ch(*f);
      continue;
    }
    f++;
    bool zero = false;
    int width = 0, l = 0;
    while (*f == '-' || *f == '+' || *f == ' ' || *f == '#' || *f == '0') zero |= *f++ == '0';
    while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') {
      f++;
      while (*f >= '0' && *f <= '9') f++;
    }
    while (*f == 'l' || *f == 'z' || *f == 'h') {
      if (*f == 'l') l++;
      if (*f == 'z') l = sizeof(size_t) == 8 ? 2 : 0;
      f++;
    }
    if (l == 1 && sizeof(long) == 8) l = 2;
    switch (*f) {
      case 'd':
      case 'i': {
        long long v = l == 2 ? va_arg(ap, long long) : va_arg(ap, int);
        number(&s, v < 0 ? 0ull - v : v, 10, v < 0, width, zero);
        break;
      }
      case 'u': number(&s, l == 2 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned), 10, false, width, zero); break;
      case 'x': number(&s, l == 2 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned), 16, false, width, zero); break;
      case 'p': number(&s, reinterpret_cast<uintptr_t>(va_arg(ap, void*)), 16, false, 0, false); break;
      case 'c': s.ch(va_arg(ap, int)); break;
      case 's': {
        const char* q = va_arg(ap, const char*);
        s.str(q ? q : "(null)");
        break;
      }
      case 'g':
      case 'f':
      case 'e':
      case 'a': real(&s, va_arg(ap, double)); break;
      case 0: f--; break;
      default: s.ch(*f);
    }
  }
  if (cap) buf[s.n < cap ? s.n : cap - 1] = 0;
  return static_cast<int>(s.n);
}
int snprintf(char* buf, size_t cap, const char* f, ...) noexcept {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(buf, cap, f, ap);
  va_end(ap);
  return r;
}
static int vout(MiniFile* m, const char* f, va_list ap) {
  static char buf[1 << 16];
  int r = vsnprintf(buf, sizeof buf, f, ap);
  put(m, buf, strlen(buf));
  return r;
}
int printf(const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vout(&g_out, f, ap);
  va_end(ap);
  return r;
}
int fprintf(FILE* o, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vout(reinterpret_cast<MiniFile*>(o), f, ap);
  va_end(ap);
  return r;
}
void perror(const char* s) { fprintf(stderr, "%s: error\n", s); }
long long __isoc23_strtoll(const char* s, char**, int) noexcept {
  bool neg = *s == '-';
  s += neg;
  unsigned long long v = 0;
  while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0');
  return neg ? 0 - v : v;
}
// Numbers separated by blanks, for replaying a tape.
bool verif_read_number(FILE* f, unsigned long long* v) {
  MiniFile* m = reinterpret_cast<MiniFile*>(f);
  char c;
  bool any = false;
  *v = 0;
  while (sysc(kRead, m->fd, reinterpret_cast<long>(&c), 1) == 1) {
    if (c >= '0' && c <= '9') {
      *v = *v * 10 + (c - '0');
      any = true;
    } else if (any) {
      return true;
    }
  }
  return any;
}
void __assert_fail(const char* e, const char* file, unsigned line, const char*) noexcept {
  fprintf(stderr, "assertion failed: %s (%s:%u)\n", e, file, line);
  abort();
}
// --- C++ -------------------------------------------------------------------------
int __cxa_guard_acquire(long long* g) { return !*reinterpret_cast<char*>(g); }
void __cxa_guard_release(long long* g) { *reinterpret_cast<char*>(g) = 1; }
int __cxa_atexit(void (*)(void*), void*, void*) { return 0; }
void __cxa_pure_virtual() { abort(); }
void* __dso_handle;
// --- threads: one only -------------------------------------------------------------
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_broadcast(pthread_cond_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) { abort(); }
int pthread_barrier_init(pthread_barrier_t*, const pthread_barrierattr_t*, unsigned) noexcept { abort(); }
int pthread_barrier_destroy(pthread_barrier_t*) noexcept { return 0; }
int pthread_barrier_wait(pthread_barrier_t*) noexcept { abort(); }
int pthread_join(pthread_t, void**) { abort(); }
int pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) noexcept {
  fprintf(stderr, "threads are not supported here\n");
  _exit(3);
}
// --- mathematics: used by oracles that allow for more than the error here ------------
double ldexp(double x, int e) noexcept {
  for (; e > 0; e--) x *= 2;
  for (; e < 0; e++) x /= 2;
  return x;
}
double floor(double x) noexcept {
  if (!(x > -9e15 && x < 9e15)) return x;
  double t = static_cast<double>(static_cast<long long>(x));
  return t > x ? t - 1 : t;
}
double ceil(double x) noexcept { return -floor(-x); }
double round(double x) noexcept { return x < 0 ? -floor(-x + 0.5) : (x == 0.49999999999999994 ? 0 : floor(x + 0.5)); }
double exp(double x) noexcept {
  if (x > 709) return 1e308 * 10;
  if (x < -745) return 0;
  const double kLn2Hi = 0.693147180369123816490, kLn2Lo = 1.90821492927058770002e-10;
  int k = static_cast<int>(floor(x / 0.6931471805599453 + 0.5));
  double r = (x - k * kLn2Hi) - k * kLn2Lo, t = 1, s = 1;
  for (int i = 1; i < 20; i++) t *= r / i, s += t;
  return ldexp(s, k);
}
double log(double x) noexcept {  // x > 0
  int k = 0;
  while (x > 1.5) x /= 2, k++;
  while (x < 0.75) x *= 2, k--;
  double z = (x - 1) / (x + 1), q = z * z, t = z, r = 0;
  for (int i = 1; i < 60; i += 2, t *= q) r += t / i;
  return 2 * r + k * 0.6931471805599453;
}
double atanh(double x) noexcept { return 0.5 * log((1 + x) / (1 - x)); }
double tanh(double x) noexcept {
  if (x < 0) return -tanh(-x);
  if (x > 30) return 1;
  if (x < 0.05) {
    double q = x * x;
    return x * (1 - q / 3 * (1 - q * 2 / 5 * (1 - q * 17 / 42 * (1 - q * 62 / 153 * (1 - q * 1382 / 3410)))));
  }
  double e = exp(-2 * x);
  return (1 - e) / (1 + e);
}
char __libc_single_threaded = 1;
}  // extern "C"

void* operator new(size_t n) {
  void* p = malloc(n);
  if (!p) _exit(3);
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace std {
template class basic_string<char>;
bool _Sp_make_shared_tag::_S_eq(const type_info&) noexcept { return false; }
void __throw_length_error(const char*) { abort(); }
void __throw_logic_error(const char*) { abort(); }
void __throw_bad_alloc() { abort(); }
void __throw_bad_array_new_length() { abort(); }
void __throw_out_of_range_fmt(const char*, ...) { abort(); }

// Red-black tree primitives as a plain search tree (order, not balance, is
// what std::map and std::set need for their results).
struct _Rb_node {
  int color;
  _Rb_node *parent, *left, *right;
};
struct _Rb_tree_node_base;
static _Rb_node* next_of(_Rb_node* x) {
  if (x->right) {
    x = x->right;
    while (x->left) x = x->left;
    return x;
  }
  _Rb_node* y = x->parent;
  while (x == y->right) {
    x = y;
    y = y->parent;
  }
  return x->right != y ? y : x;
}
static _Rb_node* prev_of(_Rb_node* x) {
  if (x->color == 0 && x->parent && x->parent->parent == x) return x->right;  // end()
  if (x->left) {
    x = x->left;
    while (x->right) x = x->right;
    return x;
  }
  _Rb_node* y = x->parent;
  while (x == y->left) {
    x = y;
    y = y->parent;
  }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) {
  return reinterpret_cast<_Rb_tree_node_base*>(next_of(reinterpret_cast<_Rb_node*>(x)));
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) {
  return reinterpret_cast<const _Rb_tree_node_base*>(next_of(reinterpret_cast<_Rb_node*>(const_cast<_Rb_tree_node_base*>(x))));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) {
  return reinterpret_cast<_Rb_tree_node_base*>(prev_of(reinterpret_cast<_Rb_node*>(x)));
}
void _Rb_tree_insert_and_rebalance(bool left, _Rb_tree_node_base* xb, _Rb_tree_node_base* pb, _Rb_tree_node_base& hb) noexcept {
  _Rb_node *x = reinterpret_cast<_Rb_node*>(xb), *p = reinterpret_cast<_Rb_node*>(pb), *h = reinterpret_cast<_Rb_node*>(&hb);
  x->parent = p;
  x->left = x->right = nullptr;
  x->color = 1;  // black, so that only the header is red
  if (left) {
    p->left = x;
    if (p == h) {
      h->parent = x;
      h->right = x;
    } else if (p == h->left) {
      h->left = x;
    }
  } else {
    p->right = x;
    if (p == h->right) h->right = x;
  }
}
}  // namespace std
