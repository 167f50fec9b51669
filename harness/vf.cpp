#include "vf.hpp"
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <sstream>

namespace vf {
bool gSanMode = false;
bool gThorough = false;
namespace {
#ifdef VF_SLOW
constexpr u64 kMaxEv = 1u << 18;
constexpr u64 kArena = 1ull << 26;
#else
constexpr u64 kMaxEv = 1u << 21;
constexpr u64 kArena = 1ull << 30;
#endif
constexpr int kMaxViol = 40;
struct Viol { char cls[40]; char text[7000]; };
struct Head {
   std::atomic<u64> nev, arena;
   std::atomic<u32> nviol, overflow;
   std::atomic<u64> ctr[64];
   Viol viol[kMaxViol];
};
Head* H;
Event* E;
char* A;
size_t mapSize;
void mapTrace() {
   if (H) munmap(H, mapSize);
   size_t hs = (sizeof(Head) + 4095) & ~size_t(4095);
   mapSize = hs + kMaxEv * sizeof(Event) + kArena;
   void* p = mmap(nullptr, mapSize, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
   if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
   H = static_cast<Head*>(p);
   E = reinterpret_cast<Event*>(static_cast<char*>(p) + hs);
   A = reinterpret_cast<char*>(E + kMaxEv);
}
struct Entry { std::string prop, name; int weight; Factory f; };
std::vector<Entry>& entries() { static std::vector<Entry> v; return v; }
std::string jsonStr(const std::string& s) {
   std::string o = "\"";
   for (unsigned char ch : s) {
      if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
      else if (ch == '\n') o += "\\n";
      else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
      else o += ch;
   }
   return o + "\"";
}
}  // namespace

__attribute__((noinline)) u64 ev(u32 kind, u32 actor, u64 a, u64 b, u64 c, const void* text, size_t len) {
   u64 off = 0;
   if (len) {
      off = H->arena.fetch_add(len, std::memory_order_relaxed);
      if (off + len > kArena) { H->overflow.store(1, std::memory_order_relaxed); len = 0; }
      else {
#if defined(__SANITIZE_THREAD__)
         for (size_t i = 0; i < len; ++i) __atomic_store_n(A + off + i, static_cast<const char*>(text)[i], __ATOMIC_RELAXED);
#else
         memcpy(A + off, text, len);
#endif
      }
   }
   u64 i = H->nev.fetch_add(1, std::memory_order_relaxed);
   if (i >= kMaxEv) { H->overflow.store(1, std::memory_order_relaxed); return i; }
   Event& e = E[i];
   e.kind = kind; e.actor = actor; e.a = a; e.b = b; e.c = c; e.off = off; e.len = static_cast<u32>(len);
   e.done.store(1, std::memory_order_relaxed);
   return i;
}
u64 eventCount() { return std::min<u64>(H->nev.load(std::memory_order_relaxed), kMaxEv); }
const Event& event(u64 i) { return E[i]; }
std::string textOf(const Event& e) { return std::string(A + e.off, e.len); }
std::atomic<u64>& ctr(int i) { return H->ctr[i]; }
bool traceOverflow() { return H->overflow.load(); }
void fail(const char* cls, const char* f, ...) {
   u32 n = H->nviol.fetch_add(1);
   if (n >= kMaxViol) return;
   snprintf(H->viol[n].cls, sizeof H->viol[n].cls, "%s", cls);
   va_list ap;
   va_start(ap, f);
   vsnprintf(H->viol[n].text, sizeof H->viol[n].text, f, ap);
   va_end(ap);
}
std::string Outcome::status() const {
   if (timeout) return "timeout";
   return exited ? fmt("exit(%d)", code) : fmt("signal %d", sig);
}
bool Scenario::expectClean(Case&, const Outcome& o) {
   if (o.exited && o.code == 0) return true;
   fail("crash", "case ended by %s, expected a clean exit; stderr tail: %s", o.status().c_str(),
        printable(o.err.size() > 6000 ? o.err.substr(o.err.size() - 6000) : o.err, 6000).c_str());
   return false;
}
Reg::Reg(const char* prop, const char* name, int weight, Factory f) { entries().push_back({prop, name, weight, f}); }

std::string hex(u64 v) { return fmt("%llx", (unsigned long long)v); }
std::string fmt(const char* f, ...) {
   char buf[4096];
   va_list ap;
   va_start(ap, f);
   vsnprintf(buf, sizeof buf, f, ap);
   va_end(ap);
   return buf;
}
std::string printable(const std::string& s, size_t max) {
   std::string o;
   for (unsigned char ch : s) {
      if (o.size() >= max) { o += "..."; break; }
      if (ch == '\n') o += "\\n";
      else if (ch == '\t') o += "\\t";
      else if (ch < 32 || ch > 126) o += fmt("\\x%02x", ch);
      else o += ch;
   }
   return o;
}
std::string readFile(const std::string& p) {
   int fd = open(p.c_str(), O_RDONLY | O_CLOEXEC);
   if (fd < 0) return {};
   std::string s;
   char buf[65536];
   ssize_t n;
   while ((n = read(fd, buf, sizeof buf)) > 0) s.append(buf, n);
   close(fd);
   return s;
}
std::vector<std::string> listDir(const std::string& d) {
   std::vector<std::string> v;
   if (DIR* p = opendir(d.c_str())) {
      while (dirent* e = readdir(p)) {
         std::string n = e->d_name;
         if (n != "." && n != "..") v.push_back(n);
      }
      closedir(p);
   }
   std::sort(v.begin(), v.end());
   return v;
}
double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
long fdCount() { return static_cast<long>(listDir("/proc/self/fd").size()); }
long threadCount() { return static_cast<long>(listDir("/proc/self/task").size()); }
void sleepUs(unsigned us) { timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; nanosleep(&t, nullptr); }
void shortWait() { sleepUs(50); }

namespace {
void removeTree(const std::string& d) {
   for (auto& n : listDir(d)) {
      std::string p = d + "/" + n;
      struct stat st;
      if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) { chmod(p.c_str(), 0700); removeTree(p); }
      else unlink(p.c_str());
   }
   rmdir(d.c_str());
}
pid_t gChild = 0;

// name of the sanitizer finding in a report, or ""
std::vector<std::string> sanFindings(const std::string& err) {
   std::vector<std::string> v;
   std::istringstream in(err);
   std::string l;
   std::vector<std::string> lines;
   while (std::getline(in, l)) lines.push_back(l);
   auto frames = [&](size_t i) {
      std::string o;
      int n = 0;
      for (size_t k = i; k < lines.size() && k < i + 40 && n < 6; ++k) {
         auto p = lines[k].find("#");
         if (p != std::string::npos && p < 8 && lines[k].find(" in ") != std::string::npos) {
            auto q = lines[k].find(" in ") + 4;
            o += " <- " + lines[k].substr(q, 110);
            ++n;
         } else if (p != std::string::npos && p < 8) { o += " <- " + lines[k].substr(p, 120); ++n; }
         if (n && lines[k].find("SUMMARY") != std::string::npos) break;
      }
      return o;
   };
   for (size_t i = 0; i < lines.size(); ++i) {
      auto& s = lines[i];
      if (s.find("ERROR: AddressSanitizer") != std::string::npos || s.find("ERROR: LeakSanitizer") != std::string::npos ||
          s.find("WARNING: ThreadSanitizer") != std::string::npos || s.find("FATAL: ThreadSanitizer") != std::string::npos ||
          s.find("AddressSanitizer CHECK failed") != std::string::npos)
         v.push_back(s.substr(0, 200) + frames(i + 1));
      else if (s.find(": runtime error: ") != std::string::npos)
         v.push_back(s.substr(0, 300) + frames(i + 1));
   }
   return v;
}

Outcome runChild(Scenario& sc, Case& c, double tmo) {
   std::string errp = c.dir + ".err", outp = c.dir + ".out";
   int efd = open(errp.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND | O_CLOEXEC, 0600);
   int ofd = sc.wantOut() ? open(outp.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_CLOEXEC, 0600) : open("/dev/null", O_WRONLY | O_CLOEXEC);
   if (efd < 0 || ofd < 0) { perror("open"); _exit(3); }
   fflush(stdout);
   pid_t p = fork();
   if (p < 0) { perror("fork"); _exit(3); }
   if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      signal(SIGTERM, SIG_DFL);
      signal(SIGINT, SIG_DFL);
      setpgid(0, 0);
      dup2(efd, 2);
      dup2(ofd, 1);
      rlimit rl{0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      rlimit fs{1ull << 31, 1ull << 31};
      setrlimit(RLIMIT_FSIZE, &fs);
      if (chdir(c.dir.c_str())) _exit(97);
      perturb(c.pertMode, c.seed * 77 + c.idx);
      sc.child(c);
      fflush(nullptr);
      _exit(0);
   }
   setpgid(p, p);
   gChild = p;
   Outcome o;
   double t0 = nowS();
   int st = 0;
   unsigned us = 200;
   for (;;) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) break;
      if (r < 0 && errno != EINTR) { perror("waitpid"); _exit(3); }
      if (nowS() - t0 > tmo) {
         o.timeout = true;
         kill(-p, SIGKILL);
         kill(p, SIGKILL);
         waitpid(p, &st, 0);
         break;
      }
      sleepUs(us);
      us = std::min(us + us / 4, 4000u);
   }
   kill(-p, SIGKILL);  // left-over descendants
   gChild = 0;
   if (WIFEXITED(st)) { o.exited = true; o.code = WEXITSTATUS(st); }
   else if (WIFSIGNALED(st)) o.sig = WTERMSIG(st);
   close(efd);
   close(ofd);
   o.err = readFile(errp);
   if (sc.wantOut()) { o.out = readFile(outp); unlink(outp.c_str()); }
   unlink(errp.c_str());
   return o;
}
}  // namespace
}  // namespace vf

using namespace vf;
static void onTerm(int) {
   if (gChild > 0) { kill(-gChild, SIGKILL); kill(gChild, SIGKILL); }
   _exit(4);
}

int main(int argc, char** argv) {
   std::string prop, tmp = "/tmp", only;
   u64 seed = 1;
   long first = 0, n = 1, stop = 3;
   double timeout = 20;
   for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&] { return std::string(++i < argc ? argv[i] : ""); };
      if (a == "--prop") prop = val();
      else if (a == "--scenario") only = val();
      else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
      else if (a == "--first") first = atol(val().c_str());
      else if (a == "--n") n = atol(val().c_str());
      else if (a == "--tmp") tmp = val();
      else if (a == "--timeout") timeout = atof(val().c_str());
      else if (a == "--stop") stop = atol(val().c_str());
      else if (a == "--san") gSanMode = true;
      else if (a == "--thorough") gThorough = true;
      else if (a == "--list") { for (auto& e : entries()) printf("%s %s %d\n", e.prop.c_str(), e.name.c_str(), e.weight); return 0; }
      else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
   }
   signal(SIGTERM, onTerm);
   signal(SIGINT, onTerm);
   prctl(PR_SET_PDEATHSIG, SIGTERM);
   std::vector<Entry> sel;
   int total = 0;
   for (auto& e : entries())
      if ((prop == "ALL" || e.prop == prop) && (only.empty() || e.name == only)) {
         sel.push_back(e);
         if (!only.empty()) sel.back().weight = 1;   // weight 0: only run when asked for
         total += sel.back().weight;
      }
   if (sel.empty()) { fprintf(stderr, "no scenario for %s %s\n", prop.c_str(), only.c_str()); return 3; }
   std::sort(sel.begin(), sel.end(), [](const Entry& a, const Entry& b) { return a.prop + a.name < b.prop + b.name; });

   std::set<u64> hashes;
   std::map<std::string, double> stat;
   std::map<std::string, long> perScenario, sampled;
   std::vector<std::string> samples;
   u64 cover[64] = {}, events = 0;
   long cases = 0, evals = 0, violCases = 0, inconclusive = 0;
   for (long i = first; i < first + n && violCases < stop; ++i) {
      // scenario by weighted round robin, so that every scenario gets its share in any window of cases
      long k = (i * 37 + static_cast<long>(seed % 1000)) % total;
      const Entry* en = nullptr;
      for (auto& e : sel) { if (k < e.weight) { en = &e; break; } k -= e.weight; }
      mapTrace();
      Outcome o;
      std::unique_ptr<Scenario> sc;
      Case c;
      bool hang = false;
      for (int attempt = 0; attempt < 2; ++attempt) {
         if (attempt) mapTrace();
         c = Case();
         c.seed = seed;
         c.idx = i;
         c.rng = Rng(mix(seed) ^ mix(i * 2654435761ull + 17) ^ hashStr(en->name));
         c.dir = tmp + fmt("/c%d_%ld", (int)getpid(), i);
         c.pertMode = static_cast<int>(c.rng.pick({0, 1, 2, 3, 3, 4}));
         if (mkdir(c.dir.c_str(), 0700) && errno != EEXIST) { perror("mkdir"); return 3; }
         sc = en->f();
         sc->prepare(c);
         o = runChild(*sc, c, (c.timeout > 0 ? c.timeout : timeout) * (attempt ? 2 : 1));
         if (!o.timeout) break;
         if (attempt == 1) hang = true;
         else { ++inconclusive; removeTree(c.dir); }
      }
      if (hang) fail("hang", "scenario %s did not finish within its (doubled) time limit in two runs; %llu events seen", en->name.c_str(), (unsigned long long)eventCount());
      else if (traceOverflow()) { fprintf(stderr, "trace overflow in %s case %ld\n", en->name.c_str(), i); return 3; }
      else if (!gSanMode) sc->judge(c, o);
      if (o.exited && o.code == 97) { fprintf(stderr, "harness failure in %s case %ld: %s\n", en->name.c_str(), i, o.err.c_str()); return 3; }
      ++cases;
      ++perScenario[en->name];
      events += eventCount();
      for (int j = 0; j < 64; ++j) cover[j] += ctr(j).load();
      bool bad = false;
      auto report = [&](const std::string& cls, const std::string& text) {
         bad = true;
         printf("{\"viol\":{\"class\":%s,\"scenario\":%s,\"case\":%ld,\"seed\":%llu,\"text\":%s}}\n", jsonStr(cls).c_str(), jsonStr(en->name).c_str(), i,
                (unsigned long long)seed, jsonStr(text).c_str());
      };
      if (gSanMode) {
         auto f = sanFindings(o.err);
         for (size_t j = 0; j < f.size() && j < 5; ++j) report("sanitizer", f[j]);
         if (hang) report("hang", H->viol[0].text);
         if (f.empty() && kAsan && !hang) {  // wild crashes that the sanitizer hands to the library's own handler
            Scenario* s = sc.get();
            H->nviol = 0;
            s->judge(c, o);
            for (u32 j = 0; j < std::min<u32>(H->nviol, kMaxViol); ++j)
               if (std::string(H->viol[j].cls) == "crash" || std::string(H->viol[j].cls) == "leak") report(H->viol[j].cls, H->viol[j].text);
         }
      } else {
         for (u32 j = 0; j < std::min<u32>(H->nviol, 6); ++j) report(H->viol[j].cls, H->viol[j].text);
      }
      if (gSanMode) {
         u64 fp = 1;
         for (u64 j = 0, k = eventCount(); j < k; ++j) fp = mix(fp * 31 + event(j).kind * 1000003ull + event(j).actor);
         c.hashes.assign(1, fp);
         c.evals = 1;
      }
      evals += c.evals;
      if (bad) ++violCases;
      if (hang) violCases = stop;   // each one costs minutes
      for (auto h : c.hashes) if (hashes.size() < 60000) hashes.insert(h ^ hashStr(en->name));
      for (auto& s : c.stat) stat[s.first] += s.second;
      for (auto& s : c.samples) if (sampled[en->name]++ < 1) samples.push_back(en->name + " case " + std::to_string(i) + ": " + s);
      removeTree(c.dir);
   }
   printf("{\"done\":{\"cases\":%ld,\"evals\":%ld,\"events\":%llu,\"inconclusive\":%ld,\"scenarios\":{", cases, evals, (unsigned long long)events, inconclusive);
   bool f1 = true;
   for (auto& p : perScenario) { printf("%s%s:%ld", f1 ? "" : ",", jsonStr(p.first).c_str(), p.second); f1 = false; }
   printf("},\"stat\":{");
   f1 = true;
   for (auto& p : stat) { printf("%s%s:%.6g", f1 ? "" : ",", jsonStr(p.first).c_str(), p.second); f1 = false; }
   printf("},\"cover\":[");
   for (int j = CTR_COVER; j < 64; ++j) printf("%s%llu", j > CTR_COVER ? "," : "", (unsigned long long)cover[j]);
   printf("],\"samples\":[");
   for (size_t j = 0; j < samples.size(); ++j) printf("%s%s", j ? "," : "", jsonStr(samples[j].substr(0, 400)).c_str());
   printf("],\"hashes\":[");
   f1 = true;
   for (auto h : hashes) { printf("%s\"%llx\"", f1 ? "" : ",", (unsigned long long)h); f1 = false; }
   printf("]}}\n");
   return 0;
}
