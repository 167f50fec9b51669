// Monitoring framework: every case runs in a forked child, its events go to a shared-memory
// trace that outlives the child, and the parent judges the trace.
#pragma once
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace vf {
using u64 = uint64_t;
using u32 = uint32_t;

inline u64 mix(u64 x) {
   x += 0x9e3779b97f4a7c15ull;
   x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
   x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
   return x ^ (x >> 31);
}
inline u64 hashBytes(const void* p, size_t n, u64 h = 1469598103934665603ull) {
   auto b = static_cast<const unsigned char*>(p);
   size_t i = 0;
   for (; i + 8 <= n; i += 8) {
      u64 w;
      memcpy(&w, b + i, 8);
      h = (h ^ w) * 0x9E3779B185EBCA87ull;
      h ^= h >> 29;
   }
   for (; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
   return mix(h ^ n);
}
inline u64 hashStr(const std::string& s, u64 h = 1469598103934665603ull) { return hashBytes(s.data(), s.size(), h); }

struct Rng {
   u64 s;
   explicit Rng(u64 seed = 1) : s(mix(seed)) {}
   u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
   u64 below(u64 n) { return n ? next() % n : 0; }
   int range(int a, int b) { return a + static_cast<int>(below(static_cast<u64>(b) - a + 1)); }
   bool chance(int num, int den) { return below(den) < static_cast<u64>(num); }
   template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
   template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
   template <class T> void shuffle(std::vector<T>& v) { for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[below(i)]); }
};

// ---- trace ----------------------------------------------------------------
struct Event {
   u32 kind, actor;
   u64 a, b, c;
   u64 off;
   u32 len;
   std::atomic<u32> done;
};
// appends an event. The index is a global stamp consistent with real time.
u64 ev(u32 kind, u32 actor, u64 a = 0, u64 b = 0, u64 c = 0, const void* text = nullptr, size_t len = 0);
u64 eventCount();
const Event& event(u64 i);
std::string textOf(const Event& e);
std::atomic<u64>& ctr(int i);          // shared counters (per case), 0..63; 0..31 for scenarios
enum { CTR_COVER = 32 };               // 32..63: summed over all cases into the report as cover[i]
void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));  // usable in child and parent
bool traceOverflow();

struct Outcome {
   bool exited = false, timeout = false;
   int code = 0, sig = 0;
   std::string err, out;
   std::string status() const;
};

struct Case {
   u64 seed = 0;
   long idx = 0;
   std::string dir;      // private scratch directory, removed afterwards
   Rng rng;
   int pertMode = 0;
   double timeout = 0;   // 0: default
   long evals = 1;       // evaluations the case consists of
   std::vector<std::string> samples;
   std::vector<u64> hashes;
   std::map<std::string, double> stat;   // summed
   void sample(const std::string& s) { samples.push_back(s); }
   void distinct(u64 h) { hashes.push_back(h); }
};

struct Scenario {
   virtual ~Scenario() {}
   virtual void prepare(Case&) {}
   virtual void child(Case&) = 0;
   virtual void judge(Case& c, const Outcome& o) { expectClean(c, o); }
   virtual bool wantOut() const { return false; }
   static bool expectClean(Case&, const Outcome& o);
};
using Factory = std::unique_ptr<Scenario> (*)();
struct Reg { Reg(const char* prop, const char* name, int weight, Factory f); };
#define VF_SCENARIO(prop, cls, weight) \
   static vf::Reg reg_##prop##_##cls(#prop, #cls, weight, []() -> std::unique_ptr<vf::Scenario> { return std::make_unique<cls>(); });

// ---- variant --------------------------------------------------------------
#if defined(__SANITIZE_THREAD__)
constexpr bool kTsan = true;
#elif defined(__has_feature)
#if __has_feature(thread_sanitizer)
constexpr bool kTsan = true;
#else
constexpr bool kTsan = false;
#endif
#else
constexpr bool kTsan = false;
#endif
#if defined(__SANITIZE_ADDRESS__)
constexpr bool kAsan = true;
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
constexpr bool kAsan = true;
#else
constexpr bool kAsan = false;
#endif
#else
constexpr bool kAsan = false;
#endif
extern bool gSanMode;   // only sanitizer reports and crashes are judged
extern bool gThorough;

// ---- perturbation (perturb.cpp) -------------------------------------------
void perturb(int mode, u64 seed);       // 0 off, 1 yields, 2 random sleeps, 3 targeted sleeps, 4 mixed
void spurious(int per1000);             // spurious condition wake-ups (non-tsan)
void freezeClock(int64_t ns);           // CLOCK_REALTIME shows exactly this (0: real)
void shortWait();                       // ~50us
void sleepUs(unsigned us);
u64 perturbCount();
long liveBytes();
long liveAllocs();                      // live operator-new blocks of the process (counting builds only)
long fdCount();
long threadCount();
std::string hex(u64 v);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string printable(const std::string& s, size_t max = 160);
std::string readFile(const std::string& p);
std::vector<std::string> listDir(const std::string& d);
double nowS();
}  // namespace vf
