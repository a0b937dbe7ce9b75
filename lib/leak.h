// leak.h: counts the live heap blocks and bytes of the whole process by
// standing in for the C allocator, and the threads by asking the kernel.
#ifndef VERIF_LEAK_H_
#define VERIF_LEAK_H_
#include <errno.h>
#include <malloc.h>
#include <stdio.h>
#include <string.h>
#include <time.h>

#include <atomic>
#include <string>
#include <vector>

#include "pbt.h"

namespace leak {
std::atomic<long> blocks(0), bytes(0);
inline void* in(void* p) {
  if (p) {
    blocks.fetch_add(1, std::memory_order_relaxed);
    bytes.fetch_add(static_cast<long>(malloc_usable_size(p)), std::memory_order_relaxed);
  }
  return p;
}
inline void out(void* p) {
  if (p) {
    blocks.fetch_sub(1, std::memory_order_relaxed);
    bytes.fetch_sub(static_cast<long>(malloc_usable_size(p)), std::memory_order_relaxed);
  }
}
}  // namespace leak
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) { return leak::in(__libc_malloc(n)); }
void* calloc(size_t a, size_t b) { return leak::in(__libc_calloc(a, b)); }
void* memalign(size_t a, size_t n) { return leak::in(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return leak::in(__libc_memalign(a, n)); }
int posix_memalign(void** p, size_t a, size_t n) {
  void* q = __libc_memalign(a, n);
  if (!q) return ENOMEM;
  *p = leak::in(q);
  return 0;
}
void* realloc(void* p, size_t n) {
  leak::out(p);
  void* q = __libc_realloc(p, n);
  if (!q && n) q = nullptr, leak::in(p);
  return leak::in(q);
}
void free(void* p) {
  leak::out(p);
  __libc_free(p);
}
}

namespace leak {
// Number of threads of this process, or 0 where that is not known (emulation).
inline int threads() {
#ifdef VERIF_SLOW
  return 0;
#else
  FILE* f = fopen("/proc/self/status", "r");
  if (!f) return 0;
  char l[256];
  int n = 0;
  while (fgets(l, sizeof l, f))
    if (sscanf(l, "Threads: %d", &n) == 1) break;
  fclose(f);
  return n;
#endif
}
// Waits for the number of threads to come down; a joined thread may still be
// on its way out.
inline int threads_settled(int want) {
  int n = threads();
  for (int i = 0; i < 2000 && n > want; i++) {
    struct timespec ts = {0, 5 * 1000 * 1000};
    nanosleep(&ts, nullptr);
    n = threads();
  }
  return n;
}
// What is held after each of several identical rounds.
struct Record {
  long b[16], y[16];
  int n = 0;
  void mark() {
    b[n] = blocks.load();
    y[n] = bytes.load();
    n++;
  }
  // Holds more after every single round than after the one before it.  The
  // first rounds may fill caches (also those of the C library).
  std::string growth() const {
    bool gb = true, gy = true;
    for (int i = 2; i < n; i++) {
      gb = gb && b[i] > b[i - 1];
      gy = gy && y[i] > y[i - 1];
    }
    if (!gb && !gy) return "";
    std::string s = pbt::strf("memory grows with every round: live blocks");
    for (int i = 0; i < n; i++) s += pbt::strf(" %ld", b[i]);
    s += ", bytes";
    for (int i = 0; i < n; i++) s += pbt::strf(" %ld", y[i]);
    return s;
  }
};
}  // namespace leak
#endif
