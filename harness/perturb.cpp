// Schedule perturbation, spurious wake-ups, virtual wall clock and allocation counting.
// Compiled without instrumentation and without sanitizers.
#include "vf.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <new>
extern "C" char __executable_start;
namespace {
volatile int gMode = 0;
vf::u64 gSeed = 1;
std::atomic<vf::u64> gThreads{0}, gCount{0};
std::atomic<long> gBudget{0};
volatile int gSpur = 0;
volatile int64_t gFrozen = 0;
unsigned gTarget = 0;
thread_local vf::u64 tState = 0;
inline vf::u64 rnd() {
   if (!tState) tState = vf::mix(gSeed ^ (gThreads.fetch_add(1, std::memory_order_relaxed) * 7919 + 13)) | 1;
   tState ^= tState << 13;
   tState ^= tState >> 7;
   tState ^= tState << 17;
   return tState;
}
void nap(unsigned us) {
   if (gBudget.fetch_sub(1, std::memory_order_relaxed) <= 0) return;
   gCount.fetch_add(1, std::memory_order_relaxed);
   timespec t{0, (long)us * 1000};
   nanosleep(&t, nullptr);
}
inline void hit(void* fn, int leave) {
   int m = gMode;
   if (!m) return;
   vf::u64 r = rnd();
   if ((m == 1 || m == 4) && (r & 127) == 0) { gCount.fetch_add(1, std::memory_order_relaxed); sched_yield(); }
   if ((m == 2 || m == 4) && ((r >> 8) & 2047) == 0) nap(1 + (r >> 40) % 300);
   if (m == 3) {
      unsigned h = (unsigned)vf::mix(((vf::u64)fn - (vf::u64)&__executable_start) * 2 + leave);
      if (h % 48 == gTarget && ((r >> 8) & 3) == 0) nap(1 + (r >> 40) % 600);
   }
}
}  // namespace
extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void* fn, void*) { hit(fn, 0); }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void* fn, void*) { hit(fn, 1); }
#ifdef VF_INTERPOSE
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
   static int (*real)(pthread_cond_t*, pthread_mutex_t*) = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
   if (gSpur && (int)(rnd() % 1000) < gSpur) {
      pthread_mutex_unlock(m);
      sched_yield();
      pthread_mutex_lock(m);
      vf::ctr(63).fetch_add(1, std::memory_order_relaxed);
      return 0;
   }
   return real(c, m);
}
int clock_gettime(clockid_t id, struct timespec* ts) {
   static int (*real)(clockid_t, struct timespec*) = (int (*)(clockid_t, struct timespec*))dlsym(RTLD_NEXT, "clock_gettime");
   int64_t f = gFrozen;
   if (id == CLOCK_REALTIME && f) {
      int64_t s = f / 1000000000, n = f % 1000000000;
      if (n < 0) { n += 1000000000; --s; }
      ts->tv_sec = s;
      ts->tv_nsec = n;
      return 0;
   }
   return real(id, ts);
}
#endif
}
#ifdef VF_COUNT_ALLOC
#include <errno.h>
#include <malloc.h>
// live blocks and bytes of the C allocator (operator new uses it too)
static std::atomic<long> gLive{0}, gBytes{0};
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
static void bytes(void* p, int sign) { gBytes.fetch_add(sign * (long)malloc_usable_size(p), std::memory_order_relaxed); }
static void* up(void* p) { if (p) { gLive.fetch_add(1, std::memory_order_relaxed); bytes(p, 1); } return p; }
void* malloc(size_t n) { return up(__libc_malloc(n)); }
void* calloc(size_t n, size_t m) { return up(__libc_calloc(n, m)); }
void free(void* p) { if (p) { gLive.fetch_sub(1, std::memory_order_relaxed); bytes(p, -1); __libc_free(p); } }
void* realloc(void* p, size_t n) {
   if (!p) return malloc(n);
   if (!n) { free(p); return nullptr; }
   bytes(p, -1);
   void* q = __libc_realloc(p, n);
   bytes(q ? q : p, 1);
   return q;
}
void* memalign(size_t a, size_t n) { return up(__libc_memalign(a, n)); }
void* aligned_alloc(size_t a, size_t n) { return up(__libc_memalign(a, n)); }
int posix_memalign(void** r, size_t a, size_t n) { *r = up(__libc_memalign(a, n)); return *r ? 0 : ENOMEM; }
}
long vf::liveBytes() { return gBytes.load(); }
long vf::liveAllocs() { return gLive.load(); }
#else
long vf::liveAllocs() { return 0; }
long vf::liveBytes() { return 0; }
#endif
void vf::perturb(int mode, u64 seed) {
   gSeed = mix(seed);
   gTarget = mix(seed + 5) % 48;
   gBudget = 400;
   tState = 0;
   gMode = mode;
}
void vf::spurious(int p) { gSpur = p; }
void vf::freezeClock(int64_t ns) { gFrozen = ns; }
vf::u64 vf::perturbCount() { return gCount.load(); }
