// P07: dispositions of all signals against a reference model, through random sequences of operations
#include <csignal>
#include "common.hpp"
#include "g3log/crashhandler.hpp"
using namespace vf;
using namespace cm;
using g3::LogWorker;

namespace {
constexpr bool kHandlesSignals =
#ifdef DISABLE_FATAL_SIGNALHANDLING
   false;
#else
   true;
#endif
constexpr int kMaxSig = 65;
void emitAll(int why);
void h1(int s) { emitAll(s); _exit(77); }
void h2(int s) { emitAll(s); _exit(77); }
void s1(int s, siginfo_t*, void*) { emitAll(s); _exit(77); }
void s2(int s, siginfo_t*, void*) { emitAll(s); _exit(77); }
const std::vector<std::pair<void (*)(int), bool>> kApp = {{SIG_DFL, false}, {SIG_IGN, false}, {h1, false}, {h2, false}, {reinterpret_cast<void (*)(int)>(s1), true}, {reinterpret_cast<void (*)(int)>(s2), true}};

struct Disp {
   bool lib = false, valid = true;
   void* h = nullptr;
   int flags = 0;
   u64 mask = 0;
   bool operator==(const Disp& o) const { return valid == o.valid && (lib || o.lib ? lib == o.lib : h == o.h && flags == o.flags && mask == o.mask); }
   std::string str() const {
      if (!valid) return "invalid";
      if (lib) return "the logger's handler";
      std::string n = "?";
      const char* names[] = {"SIG_DFL", "SIG_IGN", "app handler h1", "app handler h2", "app sigaction s1", "app sigaction s2"};
      for (size_t i = 0; i < kApp.size(); ++i) if (h == reinterpret_cast<void*>(kApp[i].first)) n = names[i];
      return fmt("%s flags=%x mask=%llx", n.c_str(), flags, (unsigned long long)mask);
   }
};
Disp readDisp(int s) {
   struct sigaction a;
   Disp d;
   memset(&a, 0, sizeof a);
   if (sigaction(s, nullptr, &a)) { d.valid = false; return d; }
   d.h = reinterpret_cast<void*>(a.sa_handler);
   d.flags = a.sa_flags & ~0x04000000;   // SA_RESTORER is the C library's own
   for (int i = 1; i < kMaxSig; ++i) if (sigismember(&a.sa_mask, i) == 1) d.mask |= 1ull << (i - 1);
   d.lib = true;
   for (auto& k : kApp) if (d.h == reinterpret_cast<void*>(k.first)) d.lib = false;
   return d;
}
void emitAll(int why) {
   for (int s = 1; s < kMaxSig; ++s) {
      Disp d = readDisp(s);
      ev(MARK, s, reinterpret_cast<u64>(d.h), (static_cast<u64>(d.lib) << 63) | static_cast<u64>(static_cast<u32>(d.flags)), d.mask);
   }
   ev(EXEC, why, 0);
}
const std::vector<int> kDefault = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM};
const std::vector<int> kPool = {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM, SIGUSR1, SIGUSR2, SIGHUP, SIGINT, SIGBUS, SIGQUIT, SIGTRAP, SIGSYS, SIGPIPE, SIGALRM, SIGXCPU, SIGPROF, 40, 50, SIGWINCH, SIGKILL, SIGSTOP, 64};
struct Model {
   std::map<int, Disp> cur, saved;
   std::set<int> set{kDefault.begin(), kDefault.end()};
   bool inited = false;
   bool can(int s) const { return s >= 1 && s < kMaxSig && s != SIGKILL && s != SIGSTOP && s != 32 && s != 33; }
   void install() {
      if (!kHandlesSignals) return;
      for (int s : set) {
         if (!can(s)) continue;
         if (!cur[s].lib) saved[s] = cur[s];
         cur[s].lib = true;
      }
   }
   void restore(int s) {
      if (!kHandlesSignals) return;
      auto i = saved.find(s);
      if (i == saved.end()) return;
      cur[s] = i->second;
      saved.erase(i);
   }
   void override_(const std::set<int>& n) {
      for (int s : std::set<int>(set)) restore(s);
      set = n;
      install();
   }
   void fatalExit() { for (int s : set) restore(s); }
};

struct Dispositions : Scenario {
   int ops;
   int ending;       // 0 none, 1 LOG(FATAL), 2 signal of the set
   u64 seed;
   std::string trail;
   void prepare(Case& c) override {
      ops = c.rng.range(1, 14);
      ending = c.rng.range(0, 2);
      seed = c.rng.next();
   }
   static void appAction(Rng& r, int s, Model& m, bool handlerOnly) {
      auto& k = kApp[handlerOnly ? 2 + r.below(4) : r.below(kApp.size())];
      struct sigaction a;
      memset(&a, 0, sizeof a);
      a.sa_handler = k.first;
      for (int f : {SA_RESTART, SA_NODEFER, SA_ONSTACK, SA_NOCLDSTOP, (int)SA_RESETHAND}) if (r.chance(1, 4)) a.sa_flags |= f;
      if (k.second) a.sa_flags |= SA_SIGINFO;
      sigemptyset(&a.sa_mask);
      for (int x : {SIGUSR1, SIGUSR2, SIGHUP, SIGINT, SIGALRM, 41, 55}) if (r.chance(1, 4)) sigaddset(&a.sa_mask, x);
      if (sigaction(s, &a, nullptr)) return;
      m.cur[s] = readDisp(s);
   }
   void check(Model& m, const std::string& op) {
      trail += (trail.empty() ? "" : "; ") + op;
      for (int s = 1; s < kMaxSig; ++s) {
         Disp d = readDisp(s);
         ctr(0).fetch_add(1);
         if (!(d == m.cur[s])) { fail("disposition", "after [%s] signal %d has %s, expected %s", trail.c_str(), s, d.str().c_str(), m.cur[s].str().c_str()); m.cur[s] = d; }
      }
   }
   void child(Case&) override {
      Rng r(seed);
      Model m;
      for (int s = 1; s < kMaxSig; ++s) m.cur[s] = readDisp(s);
      int n = r.range(0, 6);
      for (int i = 0; i < n; ++i) { int s = r.pick(kPool); if (m.can(s)) appAction(r, s, m, false); }
      check(m, "start");
      std::unique_ptr<LogWorker> w;
      auto init = [&] {
         w = LogWorker::createLogWorker();
         w->addSink(std::make_unique<ObjSink>(0), &ObjSink::recv);
         g3::initializeLogging(w.get());
         if (!m.inited) m.install();
         m.inited = true;
         check(m, "initializeLogging");
      };
      for (int i = 0; i < ops; ++i) {
         switch (r.below(9)) {
         case 0:
            if (w) { w.reset(); check(m, "destroy logger"); }
            else init();
            break;
         case 1: case 2: g3::installCrashHandler(); m.install(); check(m, "install"); break;
         case 3: case 4: { int s = r.pick(kPool); g3::restoreSignalHandler(s); m.restore(s); check(m, fmt("restore %d", s)); break; }
         case 5: case 6: {
            std::map<int, std::string> o;
            std::set<int> q;
            std::string names;
            int k = r.pick({0, 1, 2, 4, 5, 8});
            for (int j = 0; j < k; ++j) { int s = r.chance(1, 2) ? r.pick(kDefault) : r.pick(kPool); if (r.chance(1, 40)) s = r.pick({0, -1, 1000}); o[s] = "S" + std::to_string(s); q.insert(s); }
            for (int s : q) names += fmt(" %d", s);
            g3::overrideSetupSignals(o);
            m.override_(q);
            check(m, "override" + names);
            break;
         }
         case 7: g3::internal::restoreFatalHandlingToDefault(); if (kHandlesSignals) m.override_({kDefault.begin(), kDefault.end()}); check(m, "reset to default"); break;
         default: {
            int s = r.pick(kPool);
            if (m.can(s) && !m.cur[s].lib) { appAction(r, s, m, false); check(m, fmt("application sets %d", s)); }
         }
         }
      }
      emitAll(0);
      if (!ending) return;
      if (!w) init();
      // the signal of the exit has an application handler that records what it finds
      std::vector<int> cand;
      if (ending == 1) cand = {SIGABRT};
      else for (int s : m.set) if (m.can(s) && m.cur[s].lib && s != SIGWINCH) cand.push_back(s);
      if (cand.empty()) return;
      int s = r.pick(cand);
      if (m.cur[s].lib) {
         g3::restoreSignalHandler(s);
         m.restore(s);
         appAction(r, s, m, true);
         g3::installCrashHandler();
         m.install();
         check(m, "re-taken for the exit");
      } else appAction(r, s, m, true);
      if (ending == 2 && !m.cur[s].lib) return;
      m.fatalExit();
      for (int x = 1; x < kMaxSig; ++x) ev(TEXT, x, reinterpret_cast<u64>(m.cur[x].h), (static_cast<u64>(m.cur[x].lib) << 63) | static_cast<u64>(static_cast<u32>(m.cur[x].flags)), m.cur[x].mask);
      ev(FATALCALL, s, 0);
      if (ending == 1) LOG(FATAL) << "end";
      else raise(s);
      ev(FATALRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      int fatal = -1, delivered = -1;
      std::map<int, std::array<u64, 3>> want, got;
      u64 n = eventCount(), h = 0;
      for (u64 i = 0; i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == FATALCALL) fatal = e.actor, got.clear();
         else if (e.kind == TEXT) want[e.actor] = {e.a, e.b, e.c};
         else if (e.kind == MARK) { got[e.actor] = {e.a, e.b, e.c}; if (fatal < 0) h = mix(h ^ e.a ^ e.b * 3 ^ e.c * 7); }
         else if (e.kind == EXEC) delivered = e.actor;
         else if (e.kind == FATALRET) fail("exit", "execution continued after the fatal event");
      }
      if (fatal < 0) expectClean(c, o);
      else {
         if (!o.exited || o.code != 77 || delivered != fatal) fail("exit", "the application's own action for signal %d did not run at the fatal exit (%s); stderr tail %s", fatal, o.status().c_str(), printable(o.err.size() > 300 ? o.err.substr(o.err.size() - 300) : o.err, 300).c_str());
         else
            for (int s = 1; s < kMaxSig; ++s) {
               if (s == fatal && (want[s][1] & static_cast<u32>(SA_RESETHAND))) continue;   // reset by its own delivery
               const bool same = (want[s][1] >> 63) || (got[s][1] >> 63) ? (want[s][1] >> 63) == (got[s][1] >> 63) : want[s] == got[s];
               if (!same) fail("exit", "at the fatal exit by %d signal %d has handler %llx flags %llx mask %llx, expected %llx %llx %llx", fatal, s, (unsigned long long)got[s][0], (unsigned long long)got[s][1], (unsigned long long)got[s][2], (unsigned long long)want[s][0], (unsigned long long)want[s][1], (unsigned long long)want[s][2]);
            }
         c.stat["fatal_exits"] += 1;
      }
      c.stat["dispositions_checked"] += ctr(0).load();
      c.distinct(h);
      c.sample(fmt("%d operations, ending %d, seed %llx -> ", ops, ending, (unsigned long long)seed) + o.status());
   }
};
VF_SCENARIO(P07, Dispositions, 1)
}  // namespace
