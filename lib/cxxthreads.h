// cxxthreads.h: included first (-include), makes the library use its own
// thread layer on top of C++11 threads (the one for systems without pthread)
// instead of <pthread.h>.
#include <atomic>
#include <cerrno>
#include <condition_variable>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <mutex>
#include <thread>
#define _WIN32 1
#include "profiling/pthread_everywhere.h"
#undef _WIN32
#ifndef GEMMLOWP_USE_PTHREAD
#define VERIF_CXXTHREADS 1
#endif
