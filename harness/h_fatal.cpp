// P05 P06 P08 P12 P25 P26 P27: fatal events, hooks, handlers, life cycle
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <csignal>
#include "common.hpp"
#include "g3log/crashhandler.hpp"
using namespace vf;
using namespace cm;
using g3::LogWorker;
#define NOSAN __attribute__((noinline, no_sanitize_undefined, no_sanitize_address))

enum FKind { F_LOG, F_LOGF, F_LOG_IF, F_LOGF_IF, F_CHECK, F_CHECKF, F_CHECK_F, F_CUSTOM, F_CUSTOMF, F_RAISE_ABRT, F_RAISE_FPE, F_RAISE_SEGV, F_RAISE_ILL, F_RAISE_TERM, F_REAL_SEGV, F_REAL_FPE, F_REAL_ILL, F_ABORT, F_TERMINATE, F_UNCAUGHT, F_EXT_TERM, F_TGKILL, F_MAX };
static const char* kKindName[] = {"LOG(FATAL)", "LOGF(FATAL)", "LOG_IF(FATAL)", "LOGF_IF(FATAL)", "CHECK", "CHECKF", "CHECK_F", "LOG(custom fatal)", "LOGF(custom fatal)", "raise(SIGABRT)", "raise(SIGFPE)", "raise(SIGSEGV)", "raise(SIGILL)", "raise(SIGTERM)", "wild pointer", "division by zero", "illegal instruction", "abort()", "std::terminate", "uncaught exception", "SIGTERM from outside", "directed SIGTERM"};
static bool isLogKind(int k) { return k <= F_CUSTOMF; }
static bool isCheckKind(int k) { return k >= F_CHECK && k <= F_CHECK_F; }
static bool isCustom(int k) { return k == F_CUSTOM || k == F_CUSTOMF; }
static int sigOf(int k) {
   switch (k) {
   case F_RAISE_FPE: case F_REAL_FPE: return SIGFPE;
   case F_RAISE_SEGV: case F_REAL_SEGV: return SIGSEGV;
   case F_RAISE_ILL: case F_REAL_ILL: return SIGILL;
   case F_RAISE_TERM: case F_EXT_TERM: case F_TGKILL: return SIGTERM;
   default: return SIGABRT;
   }
}
static const char* sigName(int s) { return s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : s == SIGSEGV ? "SIGSEGV" : s == SIGILL ? "SIGILL" : s == SIGTERM ? "SIGTERM" : "?"; }
static const u64 kFatalId = ~0ull;
static u64 fatalMsgId(int raiser) { return mkId(0xFA7A1, raiser); }
static const LEVELS kMyFatal{g3::kFatalValue + 234, "MYFATAL"};
volatile int gZero = 0;
int* volatile gWild = reinterpret_cast<int*>(8);

static NOSAN void uncaught() noexcept { throw std::runtime_error("uncaught"); }
static void (*volatile gAbort)() = abort;
static void (*volatile gTerminate)() = std::terminate;
static void (*volatile gUncaught)() = uncaught;
static std::string gFatalTail;
static std::string fatalTextOf(int kind, u64 id) {
   std::string t = fmt("#%016llx#fatal text %d", (unsigned long long)id, kind);
   const bool printfKind = kind == F_LOGF || kind == F_LOGF_IF || kind == F_CHECKF || kind == F_CHECK_F || kind == F_CUSTOMF;
   if (!printfKind) t += gFatalTail;
   return t;
}
// raises the event; visible in stack dumps
bool gUnseen = false;
extern "C" NOSAN void vf_raise_here(int kind, u64 id) {
   const std::string t = fatalTextOf(kind, id);
   if (!gUnseen) ev(FATALCALL, static_cast<u32>(id), id, kind, tid());
   switch (kind) {
   case F_LOG: LOG(FATAL) << t; break;
   case F_LOGF: LOGF(FATAL, "%s", t.c_str()); break;
   case F_LOG_IF: LOG_IF(FATAL, t.size() > 1) << t; break;
   case F_LOGF_IF: LOGF_IF(FATAL, t.size() > 1, "%s", t.c_str()); break;
   case F_CHECK: CHECK(kind + 1 == 0) << t; break;
   case F_CHECKF: CHECKF(kind + 1 == 0, "%s", t.c_str()); break;
   case F_CHECK_F: CHECK_F(kind + 1 == 0, "%s", t.c_str()); break;
   case F_CUSTOM: LOG(kMyFatal) << t; break;
   case F_CUSTOMF: LOGF(kMyFatal, "%s", t.c_str()); break;
   case F_REAL_SEGV: *gWild = 5; break;
   case F_REAL_FPE: gZero = 7 / gZero; break;
   case F_REAL_ILL: __asm__ volatile("ud2"); break;
   // through pointers: calls known not to return are moved away from the function's symbol
   case F_ABORT: gAbort(); break;
   case F_TERMINATE: gTerminate(); break;
   case F_UNCAUGHT: gUncaught(); break;
   case F_EXT_TERM: {
      pid_t h = fork();
      if (h == 0) { sleepUs(1000); kill(getppid(), SIGTERM); _exit(0); }
      for (int i = 0; i < 600000; ++i) sleepUs(100);
      break;
   }
   case F_TGKILL: pthread_kill(pthread_self(), SIGTERM); break;
   default: raise(sigOf(kind)); break;
   }
   if (!gUnseen) ev(FATALRET, static_cast<u32>(id), id, kind, tid());
   __asm__ volatile("" ::: "memory");
}
// the event can be reached in several ways, that a stack dump must tell apart
#define VF_WAY(n) extern "C" NOSAN void vf_way_##n(int kind, u64 id) { vf_raise_here(kind, id); __asm__ volatile("" ::: "memory"); }
VF_WAY(0) VF_WAY(1) VF_WAY(2) VF_WAY(3)
void raiseSomehow(int kind, u64 id) {
   static void (*volatile const ways[])(int, u64) = {vf_way_0, vf_way_1, vf_way_2, vf_way_3};
   ways[mix(id) % 4](kind, id);
}
// the stack dump of the event itself, not the one of the first event that may follow
std::string wrongWay(const std::string& text, u64 id) {
   const auto d = text.find("stack dump [1]");
   if (d == text.npos) return "no stack dump";
   const auto s = text.substr(d, text.find("A recursive crash detected", d) - d);
   for (u64 i = 0; i < 4; ++i) {
      const bool in = s.find("vf_way_" + std::to_string(i)) != s.npos;
      if (in != (i == mix(id) % 4)) return in ? fmt("a stack dump of another event (vf_way_%d instead of %d)", (int)i, (int)(mix(id) % 4)) : fmt("a stack dump without the raising vf_way_%d", (int)i);
   }
   return "";
}

namespace {
constexpr bool kHandlesSignals =
#ifdef DISABLE_FATAL_SIGNALHANDLING
   false;
#else
   true;
#endif

struct Raiser : SinkBase {
   int raiseAt = -1, raiseKind = F_LOG, dtorKind = -1;    // event raised inside the sink
   using SinkBase::SinkBase;
   ~Raiser() { if (dtorKind >= 0) vf_raise_here(dtorKind, fatalMsgId(77)); }
   void maybe() { if (raiseAt >= 0 && static_cast<u64>(raiseAt) == received.load(std::memory_order_relaxed)) vf_raise_here(raiseKind, fatalMsgId(78)); }
   void raiseCall(int kind) { enter(); vf_raise_here(kind, fatalMsgId(79)); leave(); }
};
struct FSink : Raiser {
   unsigned fatalMs = 0;                                  // time the sink needs for the fatal message
   using Raiser::Raiser;
   void got(const g3::LogMessage& m) {
      if (m.wasFatal()) {
         if (fatalMs) sleepUs(fatalMs * 1000);
         std::string all = m.toString();
         ev(RECV, id, kFatalId, 10, tid(), all.data(), all.size());
         std::string meta = m.level() + "\n" + m.expression() + "\n" + m.message();
         ev(TEXT, id, 1, 0, 0, meta.data(), meta.size());
      } else record(m.message());
   }
   void recv(g3::LogMessageMover m) {
      enter();
      maybe();
      got(m.get());
      leave();
   }
   void enterLeave(u64) { enter(); leave(); }
   void needFor(unsigned ms) { fatalMs = ms; }
};
struct FText : Raiser {
   using Raiser::Raiser;
   void recv(std::string s) {
      enter();
      maybe();
      if (s.find("EXIT trigger caused by") != s.npos || s.find("FATAL SIGNAL RECEIVED") != s.npos || s.find("Custom made Log Message Type") != s.npos) ev(RECV, id, kFatalId, 10, tid(), s.data(), s.size());
      else {
         auto p = s.find("]\t");
         std::string m = p == s.npos ? s : s.substr(p + 2);
         if (!m.empty() && m.back() == '\n') m.pop_back();
         record(m);
      }
      leave();
   }
};
std::vector<int> logKinds() { std::vector<int> v; for (int i = 0; i <= F_CUSTOMF; ++i) v.push_back(i); return v; }
int pickKind(Rng& r) {
   if (!kHandlesSignals || r.chance(1, 2)) return static_cast<int>(r.below(F_CUSTOMF + 1));
   return F_RAISE_ABRT + static_cast<int>(r.below(F_MAX - F_RAISE_ABRT));
}

struct Rx { u64 stamp; u64 id; u32 flag; u64 idx; };
// what a dead child left behind
struct Post {
   Trace t;
   u64 firstFatal = ~0ull, fatalRet = ~0ull;
   std::set<int> sigs;
   std::vector<u64> fatalIds;
   Post() {
      for (u64 i = 0; i < t.n; ++i) {
         const Event& e = event(i);
         if (e.kind == FATALCALL) { firstFatal = std::min(firstFatal, i); sigs.insert(sigOf(static_cast<int>(e.b))); fatalIds.push_back(e.a); }
         if (e.kind == FATALRET) fatalRet = std::min(fatalRet, i);
      }
   }
   void status(const Outcome& o) {
      if (firstFatal == ~0ull) { fail("status", "the case ended by %s before a fatal event was raised: %s", o.status().c_str(), printable(o.err, 600).c_str()); return; }
      bool ok = !o.exited && sigs.count(o.sig);
      if (!ok) fail("status", "after %s the process ended by %s, expected signal %d; stderr tail: %s", kKindName[event(firstFatal).b], o.status().c_str(), *sigs.begin(), printable(o.err.size() > 400 ? o.err.substr(o.err.size() - 400) : o.err, 400).c_str());
      if (fatalRet != ~0ull) fail("returned", "execution continued after %s", kKindName[event(fatalRet).b]);
   }
   // every message logged before the first event, then the fatal message, last
   void sink(u32 s, bool fatalExpected = true) {
      checkContentButFatal(s);
      std::unordered_map<u64, int> seen;
      u64 nFatal = 0, afterFatal = 0, fatalAt = 0;
      for (auto& r : t.rx[s]) {
         if (r.flag == 10) { ++nFatal; fatalAt = r.stamp; }
         else { if (nFatal) ++afterFatal; ++seen[r.id]; }
      }
      u64 missing = 0, first = 0, total = 0;
      for (u64 id : t.ids)
         if (t.msg[id].ret < firstFatal) { ++total; if (!seen.count(id) && !missing++) first = id; }
      if (missing) fail("loss", "sink %u never received %llu of %llu messages logged before %s, first %s", s, (unsigned long long)missing, (unsigned long long)total, kKindName[event(firstFatal).b], idStr(first).c_str());
      if (fatalExpected && nFatal != 1) fail("fatal", "sink %u received the fatal message %llu times", s, (unsigned long long)nFatal);
      if (!fatalExpected && nFatal) fail("fatal", "sink %u received a fatal message", s);
      if (afterFatal) fail("fatal", "sink %u received %llu messages after the fatal one", s, (unsigned long long)afterFatal);
      checkRealTimeOrder(t, s);
      (void)fatalAt;
   }
   void checkContentButFatal(u32 s) {
      std::unordered_map<u64, int> seen;
      for (auto& r : t.rx[s]) {
         if (r.flag == 10 || event(r.evIdx).kind != RECV) continue;
         if (r.flag == 3) { fail("corrupt", "sink %u received text of no logged message: '%s'", s, printable(textOf(event(r.evIdx))).c_str()); continue; }
         if (r.flag == 2) fail("corrupt", "sink %u received message %s damaged: '%s'", s, idStr(r.id).c_str(), printable(textOf(event(r.evIdx))).c_str());
         if (!t.msg.count(r.id)) fail("invented", "sink %u received message %s that was never logged", s, idStr(r.id).c_str());
         if (++seen[r.id] == 2) fail("duplicate", "sink %u received message %s twice", s, idStr(r.id).c_str());
      }
   }
   std::string fatalText(u32 s) { for (auto& r : t.rx[s]) if (r.flag == 10) return textOf(event(r.evIdx)); return {}; }
};

// a log file after the death of its process: every earlier message on a line of its own, the fatal text after them
void checkFile(Post& p, const std::string& dir, bool held, u64& lines) {
   auto fs = listDir(dir);
   if (fs.size() != 1) { fail("file", "%zu log files in the directory, expected one", fs.size()); return; }
   std::string s = readFile(dir + "/" + fs[0]);
   std::unordered_map<std::string, std::vector<size_t>> at;
   size_t b = 0, fatalAt = s.npos;
   while (b < s.size()) {
      size_t e = s.find('\n', b);
      if (e == s.npos) { if (fatalAt == s.npos) fail("file", "the log file ends with an incomplete line '%s'", printable(s.substr(b)).c_str()); break; }
      std::string l = s.substr(b, e - b);
      auto q = l.find("]\t#");
      if (q != l.npos && l.find("fatal text") == l.npos) at[l.substr(q + 2)].push_back(b);
      if (fatalAt == s.npos && (l.find("EXIT trigger caused by") != l.npos || l.find("FATAL SIGNAL RECEIVED") != l.npos || l.find("Custom made Log Message Type") != l.npos)) fatalAt = b;
      b = e + 1;
      ++lines;
   }
   for (u64 id : p.t.ids) {
      auto f = at.find(msgText(gProf, id));
      size_t n = f == at.end() ? 0 : f->second.size();
      if (p.t.msg[id].ret < p.firstFatal && n != 1) { fail("file", "message %s logged before the fatal event is in the log file %zu times as a complete line", idStr(id).c_str(), n); return; }
      if (n > 1) { fail("file", "message %s is in the log file %zu times", idStr(id).c_str(), n); return; }
      if (n && fatalAt != s.npos && f->second[0] > fatalAt) { fail("file", "message %s is in the log file after the fatal message", idStr(id).c_str()); return; }
   }
   if (fatalAt == s.npos) fail("file", "the fatal message is not in the log file");
   if (!held && s.find("shutdown at", fatalAt == s.npos ? 0 : fatalAt) == s.npos) fail("file", "the log file lacks the closing note after the fatal message");
}

struct FatalPlan {
   int threads, perThread, sinks, kind, where, delayUs, held, hookLogs, gateMs = 4;
   bool concurrent, gated, file, handleCalls, masked = false;
   std::vector<int> kinds, slow;
   MsgProfile prof;
   void make(Rng& r) {
      threads = r.range(1, 5);
      perThread = r.chance(1, 12) ? r.range(500, 1500) : r.range(0, 120);
      if (kTsan || kAsan) perThread = std::min(perThread, 60);
      sinks = r.range(1, 4);
      for (int i = 0; i < sinks; ++i) { kinds.push_back(r.range(0, 1)); slow.push_back(r.pick({0, 0, 0, 1, 2})); }
      kind = pickKind(r);
      where = r.range(0, 1);
      concurrent = r.chance(1, 2);
      gated = r.chance(1, 3);
      file = r.chance(1, 2);
      delayUs = r.pick({0, 200, 2000});
      held = r.chance(1, 4) ? r.range(0, sinks - 1 + (file ? 1 : 0)) : -1;
      handleCalls = r.chance(1, 4);
      hookLogs = 0;
      prof.seed = r.next();
      prof.lenMode = r.pick({0, 1});
      prof.maxLen = 3000;
   }
};
// logger with sinks, workload, and then the event. Runs in the child.
struct Active {
   FatalPlan& p;
   Gate gate;
   std::unique_ptr<LogWorker> w;
   std::vector<std::shared_ptr<void>> keep;
   std::vector<std::unique_ptr<g3::SinkHandle<FSink>>> hs;
   std::unique_ptr<g3::FileSinkHandle> fh;
   std::atomic<int> done{0};
   explicit Active(FatalPlan& pl) : p(pl) {}
   // a signal from outside goes to the application's threads, not to those of the logger or to a busy one
   void termMask(int how) {
      if (p.masked && how == SIG_BLOCK) {   // an application with a thread of its own for signals: all others block them
         sigset_t all;
         sigfillset(&all);
         pthread_sigmask(SIG_BLOCK, &all, nullptr);
      }
      if (p.kind != F_EXT_TERM) return;
      sigset_t m;
      sigemptyset(&m);
      sigaddset(&m, SIGTERM);
      pthread_sigmask(how, &m, nullptr);
   }
   void start(const std::string& dir) {
      gProf = p.prof;
      termMask(SIG_BLOCK);
      if (p.gated) gate.close();
      w = LogWorker::createLogWorker();
      for (int i = 0; i < p.sinks; ++i) {
         if (p.kinds[i] == 0) {
            hs.push_back(w->addSink(std::make_unique<FSink>(i, p.slow[i], &gate), &FSink::recv));
            if (p.held == i) keep.push_back(std::make_shared<std::shared_ptr<g3::internal::Sink<FSink>>>(hs.back()->sink().lock()));
         } else {
            auto h = w->addSink(std::make_unique<FText>(i, p.slow[i], &gate), &FText::recv);
            if (p.held == i) keep.push_back(std::make_shared<std::shared_ptr<g3::internal::Sink<FText>>>(h->sink().lock()));
         }
      }
      if (p.file) {
         mkdir((dir + "/logs").c_str(), 0700);
         fh = w->addDefaultLogger("vf", dir + "/logs", "id");
         if (p.held == p.sinks) keep.push_back(std::make_shared<std::shared_ptr<g3::internal::Sink<g3::FileSink>>>(fh->sink().lock()));
      }
      g3::initializeLogging(w.get());
   }
   template <class F> void logAndRaise(F raise) {
      auto* self = this;
      if (p.gated) std::thread([self] { sleepUs(self->p.gateMs * 1000); ev(MARK, 0, 9); self->gate.release(); }).detach();
      std::vector<std::thread> ts;
      for (int t = 0; t < p.threads; ++t)
         ts.emplace_back([self, t] {
            for (int s = 0; s < self->p.perThread; ++s) logId(self->p.prof, mkId(t, s));
            ++self->done;
         });
      if (p.handleCalls && !hs.empty())
         std::thread([self] { for (u64 i = 0; i < 100000; ++i) { auto f = self->hs[i % self->hs.size()]->call(&FSink::enterLeave, i); (void)f; sleepUs(20); } }).detach();
      if (!p.concurrent) { for (auto& t : ts) t.join(); ts.clear(); }
      else if (p.delayUs) sleepUs(p.delayUs);
      termMask(SIG_UNBLOCK);
      raise();
      for (auto& t : ts) t.join();
      for (int i = 0; i < 100000; ++i) sleepUs(1000);   // reached by a broken library or while another thread raises: the time limit decides
   }
   std::function<void()> before;                         // done in the raising thread
   void raiseAt(int kind, int where, int raiser) {
      termMask(SIG_UNBLOCK);
      auto now = [&] {
         if (before) before();
         raiseSomehow(kind, fatalMsgId(raiser));
      };
      if (where == 0) now();
      else std::thread(now).join();
   }
};
}  // namespace

namespace {
struct FatalBase : Scenario {
   FatalPlan p;
   u64 lines = 0;
   void judge(Case& c, const Outcome& o) final { gProf = p.prof; check(c, o); }
   virtual void check(Case& c, const Outcome& o) = 0;
   void note(Case& c, Post& post, const Outcome& o, const std::string& extra = "") {
      u64 h = p.kind * 131 + p.where;
      for (auto& r : post.t.rx) { h = mix(h ^ orderHash(r.second)); c.stat["deliveries_checked"] += r.second.size(); }
      c.stat["messages_logged"] += post.t.ids.size();
      c.stat[std::string("event_") + kKindName[p.kind]] += 1;
      c.distinct(h ^ hashStr(extra));
      c.sample(fmt("%s in %s, %d threads x %d, %d sinks, ", kKindName[p.kind], p.where ? "thread" : "main", p.threads, p.perThread, p.sinks) + extra + " -> " + o.status());
   }
};

// P05: everything before the event reaches every sink, the fatal message is last
struct FlushBeforeDeath : FatalBase {
   void prepare(Case& c) override { p.make(c.rng); p.masked = isLogKind(p.kind) && c.rng.chance(1, 4); }
   void child(Case& c) override {
      Active a(p);
      a.start(c.dir);
      a.logAndRaise([&] { a.raiseAt(p.kind, p.where, 1); });
   }
   void check(Case& c, const Outcome& o) override {
      Post post;
      if (o.exited || o.sig == 0) post.status(o);
      if (post.firstFatal == ~0ull) { fail("status", "no fatal event was raised"); return; }
      for (int i = 0; i < p.sinks; ++i) post.sink(i);
      if (p.file) checkFile(post, c.dir + "/logs", p.held == p.sinks, lines);
      c.stat["file_lines_checked"] += lines;
      u64 before = 0;
      for (u64 id : post.t.ids) before += post.t.msg[id].ret < post.firstFatal;
      c.stat["messages_before_event"] += before;
      note(c, post, o, fmt("concurrent=%d gated=%d file=%d held=%d calls=%d before=%llu", p.concurrent, p.gated, p.file, p.held, p.handleCalls, (unsigned long long)before));
   }
};
VF_SCENARIO(P05, FlushBeforeDeath, 1)

// P06: right signal, no return, no hang, wherever and whenever the event is raised
struct Terminates : FatalBase {
   int phase;   // 0 active, 1 before init, 2 before init with crash handler, 3 after shutdown, 4 active without sinks, 5 active, several worker generations
   void prepare(Case& c) override {
      p.make(c.rng);
      p.threads = std::min(p.threads, 2);
      p.perThread = std::min(p.perThread, 20);
      phase = c.rng.pick({0, 0, 0, 0, 1, 2, 3, 4, 5});
      p.where = c.rng.range(0, 1);
      if (phase == 0) p.where = c.rng.pick({0, 1, 2, 3, 4, 5, 8, 9, 10, 11});
      if (phase == 0 && !kTsan && !kAsan && c.rng.chance(1, 10)) { p.where = 7; p.concurrent = false; p.held = -1; if (p.kind == F_EXT_TERM) p.kind = F_TGKILL; }
      if (phase == 3) p.where = c.rng.pick({0, 1, 6});
      if (phase == 4) p.sinks = 0, p.file = false, p.gated = false, p.handleCalls = false, p.held = -1;
      if (p.where >= 2 && p.where != 7) { p.gated = false; p.kinds[0] = 0; if (p.kind == F_EXT_TERM) p.kind = F_LOG; p.handleCalls = false; }
      if (p.where == 3 || p.where == 9) p.held = -1;
      p.masked = isLogKind(p.kind) && c.rng.chance(1, 4);
   }
   void child(Case& c) override {
      gProf = p.prof;
      if (phase == 1 || phase == 2) {
         if (p.masked) { sigset_t all; sigfillset(&all); pthread_sigmask(SIG_BLOCK, &all, nullptr); }
         if (phase == 2) g3::installCrashHandler();
         if (p.delayUs) logId(p.prof, mkId(1, 1), false);
         Active a(p);
         a.raiseAt(p.kind, p.where, 1);
         return;
      }
      if (phase == 3 || phase == 5) {
         FatalPlan q = p;
         q.gated = false;
         Active a(q);
         a.start(c.dir);
         for (int i = 0; i < p.perThread; ++i) logId(p.prof, mkId(9, i), false);
         a.keep.clear();
         a.w.reset();
         if (phase == 3) {
            a.termMask(SIG_UNBLOCK);
            if (p.where == 6) {
               static int kind;
               kind = p.kind;
               std::atexit([] { vf_raise_here(kind, fatalMsgId(1)); });
               exit(0);
            }
            a.raiseAt(p.kind, p.where, 1);
            return;
         }
      }
      Active& a = *new Active(p);
      if (phase == 5) p.file = false;
      a.start(c.dir);
      a.logAndRaise([&] {
         auto inSink = [&](auto sp, auto recv) {
            using S = typename decltype(sp)::element_type;
            const bool dtor = p.where == 3 || p.where == 9, call = p.where == 10;
            if (dtor) sp->dtorKind = p.kind;
            else if (!call) { sp->raiseAt = 3; sp->raiseKind = p.kind; }
            auto h = a.w->addSink(std::move(sp), recv);
            for (int i = 0; i < 6; ++i) logId(p.prof, mkId(60, i), false);
            if (call) h->call(&S::raiseCall, p.kind).wait();
            if (dtor) { if (p.delayUs) a.w->removeSink(std::move(h)); else if (p.concurrent) a.w->removeAllSinks(); else a.w.reset(); }
         };
         if (p.where == 2 || p.where == 3) inSink(std::make_unique<FSink>(50, 0, nullptr), &FSink::recv);
         else if (p.where >= 8 && p.where <= 10) inSink(std::make_unique<FText>(50, 0, nullptr), &FText::recv);
         else if (p.where == 11) {   // in the formatting function of a file sink
            static int kind;
            static std::atomic<int> calls;
            kind = p.kind;
            calls = 0;
            mkdir((c.dir + "/logs2").c_str(), 0700);
            auto h = a.w->addSink(std::make_unique<g3::FileSink>("det", c.dir + "/logs2"), &g3::FileSink::fileWrite);
            h->call(&g3::FileSink::overrideLogDetails, [](const g3::LogMessage& m) {
               if (calls.fetch_add(1) == 3) vf_raise_here(kind, fatalMsgId(80));
               return m.level() + " ";
            }).wait();
            for (int i = 0; i < 6; ++i) logId(p.prof, mkId(60, i), false);
         } else if (p.where == 4) {
            auto f = a.hs[0]->call(&FSink::raiseCall, p.kind);
            f.wait();
         } else if (p.where == 7) {   // the main thread is gone
            int k = p.kind;
            unsigned us = 1000 + p.delayUs;
            std::thread([k, us] { sleepUs(us); vf_raise_here(k, fatalMsgId(1)); }).detach();
            syscall(SYS_exit, 0);
         } else if (p.where == 5) {
            int k = p.kind;
            std::thread([k] { LOG(INFO) << "outer" << (vf_raise_here(k, fatalMsgId(1)), "x"); }).join();
         } else a.raiseAt(p.kind, p.where, 1);
      });
   }
   void check(Case& c, const Outcome& o) override {
      Post post;
      post.status(o);
      c.stat[fmt("phase_%d", phase)] += 1;
      c.stat[fmt("where_%d", p.where)] += 1;
      c.distinct(phase * 1000 + p.where * 100 + p.kind);
      c.sample(fmt("%s phase %d where %d -> ", kKindName[p.kind], phase, p.where) + o.status());
   }
};
VF_SCENARIO(P06, Terminates, 1)

// P08: the hook
struct HookPlan { int id; };
std::atomic<int> gHookCrash{-1};
u64 gHookLogs = 0;
std::atomic<u64> gHookSeq{0};
}  // namespace
extern "C" NOSAN void vf_hook_body(int hookId) {
   ev(HOOK, hookId, 0, 0, tid());
   for (u64 i = 0; i < gHookLogs; ++i) logId(gProf, mkId(900 + hookId, i));
   ev(HOOK, hookId, 1, 0, tid());
   if (gHookCrash >= 0) vf_raise_here(gHookCrash, fatalMsgId(500));
   __asm__ volatile("" ::: "memory");
}
namespace {
struct Hooked : FatalBase {
   int phase, sets, crash, raisers, earlier;   // earlier: events of the previous life that a handler took
   bool earlySet, earlySetEmptyAfter;
   u64 logs;
   void prepare(Case& c) override {
      p.make(c.rng);
      p.perThread = std::min(p.perThread, 30);
      phase = c.rng.pick({0, 0, 0, 0, 1, 2, 3, 5});
      sets = c.rng.pick({0, 1, 1, 1, 2, 5});
      earlySet = c.rng.chance(1, 4);
      logs = c.rng.pick({0, 1, 3, 40});
      raisers = c.rng.chance(1, 5) ? c.rng.range(2, 5) : 1;
      if (p.kind == F_EXT_TERM) p.kind = F_RAISE_TERM;
      crash = -1;
      if (sets && c.rng.chance(1, 2)) {
         std::vector<int> k = logKinds();
         if (kHandlesSignals) for (int x : {F_RAISE_ABRT, F_RAISE_FPE, F_RAISE_SEGV, F_RAISE_ILL, F_RAISE_TERM, F_REAL_SEGV, F_REAL_FPE, F_REAL_ILL, F_ABORT, F_TERMINATE}) k.push_back(x);
         do crash = c.rng.pick(k); while (!isLogKind(p.kind) && !isLogKind(crash) && sigOf(crash) == sigOf(p.kind));
      }
      if (phase == 1) { p.kind = static_cast<int>(c.rng.below(F_CUSTOMF + 1)); earlySet = false; if (crash > F_CUSTOMF) crash = F_LOG; }
      if (phase == 2) earlySet = false;
      if (phase != 0 || crash >= 0) raisers = 1;
      earlier = phase == 5 && crash < 0 ? c.rng.range(0, 3) : 0;
   }
   void doSets() {
      for (int i = 0; i < sets; ++i) {
         const int hid = i + 1;
         g3::setFatalPreLoggingHook([hid] { vf_hook_body(hid); });
      }
   }
   void child(Case& c) override {
      gProf = p.prof;
      gHookLogs = logs;
      gHookCrash = crash;
      if (earlySet) g3::setFatalPreLoggingHook([] { vf_hook_body(77); });
      if (phase == 1 || phase == 2) {
         if (phase == 2) g3::installCrashHandler();
         doSets();
         Active a(p);
         a.raiseAt(p.kind, p.where, 1);
         return;
      }
      if (phase == 3 || phase == 5) {
         FatalPlan q = p;
         q.gated = false;
         Active a(q);
         a.start(c.dir);
         if (phase == 3) doSets();
         if (earlier) {
            g3::setFatalExitHandler([](g3::FatalMessagePtr) {});
            for (int i = 0; i < earlier; ++i) CHECK(i < 0) << "taken";
            g3::setFatalExitHandler(g3::internal::pushFatalMessageToLogger);
         }
         if (phase == 5) g3::setFatalPreLoggingHook([] { vf_hook_body(78); });    // the second initialization resets it
         a.keep.clear();
         a.w.reset();
         if (phase == 3) { a.raiseAt(p.kind, p.where, 1); return; }
      }
      Active& a = *new Active(p);
      p.file = false;
      a.start(c.dir);
      doSets();
      a.logAndRaise([&] {
         if (raisers == 1) { a.raiseAt(p.kind, p.where, 1); return; }
         std::atomic<int> ready{0};
         inThreads(raisers, [&](int i) {
            ++ready;
            while (ready < raisers) shortWait();
            vf_raise_here(i ? p.kind : F_LOG, fatalMsgId(i));
         });
      });
   }
   void check(Case& c, const Outcome& o) override {
      Post post;
      post.status(o);
      if (post.firstFatal == ~0ull) return;
      int entered = 0, wrong = 0;
      u64 at = 0, hookTid = 0;
      std::set<u64> raiserTids;
      for (u64 i = 0; i < post.t.n; ++i) {
         const Event& e = event(i);
         if (e.kind == FATALCALL && e.a != fatalMsgId(500)) raiserTids.insert(e.c);
         if (e.kind == HOOK && e.a == 0) {
            ++entered;
            at = i;
            hookTid = e.c;
            if (e.actor != static_cast<u32>(sets)) { ++wrong; fail("hook", "hook %u was called, the hook set last is %d (early=%d, phase=%d)", e.actor, sets, earlySet, phase); }
         }
      }
      const std::string ctx = fmt("%s phase=%d sets=%d crash=%s raisers=%d earlier=%d", kKindName[p.kind], phase, sets, crash < 0 ? "no" : kKindName[crash], raisers, earlier);
      if (raisers == 1 && entered != (sets ? 1 : 0)) fail("hook", "the hook was called %d times (%s)", entered, ctx.c_str());
      if (raisers > 1 && entered > 1) fail("hook", "the hook was called %d times (%s)", entered, ctx.c_str());
      if (entered) {
         if (!raiserTids.count(hookTid)) fail("hook", "the hook ran in a thread that raised no event (%s)", ctx.c_str());
         if (at < post.firstFatal) fail("hook", "the hook ran before any event was raised (%s)", ctx.c_str());
      }
      if (raisers == 1) {
         for (int i = 0; (phase == 0 || phase == 5) && i < p.sinks; ++i) {
            post.sink(i);
            std::set<u64> seen;
            u64 fatalAt = ~0ull;
            for (auto& r : post.t.rx[i]) { seen.insert(r.id); if (r.flag == 10) fatalAt = r.stamp; }
            for (u64 k = 0; entered && k < logs; ++k)
               if (!seen.count(mkId(900 + sets, k))) { fail("hook", "message %llu logged by the hook never reached sink %d (%s)", (unsigned long long)k, i, ctx.c_str()); break; }
            if (fatalAt != ~0ull && fatalAt < at) fail("hook", "sink %d received the fatal message before the hook was called (%s)", i, ctx.c_str());
         }
         if (crash >= 0 && entered) {
            auto judgeText = [&](const std::string& s, const char* where) {
               auto w = s.find("A recursive crash detected");
               auto a = s.find("---First crash stacktrace: "), b = s.find("---End of first stacktrace");
               if (w == s.npos || a == s.npos || b == s.npos || b < a) { fail("recursive", "the message in %s does not note the recursive crash: '%s' (%s)", where, printable(s, 500).c_str(), ctx.c_str()); return; }
               std::string first = s.substr(a, b - a);
               if (first.find("vf_raise_here") == s.npos || first.find("vf_hook_body") != s.npos)
                  fail("recursive", "the message in %s does not hold the first stack dump: '%s' (%s)", where, printable(first, 700).c_str(), ctx.c_str());
            };
            if (phase == 0 || phase == 5) { for (int i = 0; i < p.sinks; ++i) judgeText(post.fatalText(i), "a sink"); }
            judgeText(o.err, "stderr");
         } else if (crash < 0 && o.err.find("A recursive crash detected") != o.err.npos) fail("recursive", "a recursive crash is reported, but nothing crashed in the hook (%s)", ctx.c_str());
      }
      c.stat["hooks_observed"] += entered;
      c.stat["hook_crashes"] += crash >= 0 && entered;
      note(c, post, o, ctx);
   }
};
VF_SCENARIO(P08, Hooked, 1)

// hooks set by some threads while others raise fatal events, which the application's handler survives
struct HookRace : Scenario {
   int setters, raisers, perSetter, perRaiser;
   u64 seed;
   void prepare(Case& c) override {
      setters = c.rng.range(1, 3);
      raisers = c.rng.range(1, 4);
      perSetter = c.rng.range(1, 60);
      perRaiser = c.rng.range(1, 40);
      seed = c.rng.next();
   }
   void child(Case& c) override {
      spurious(c.rng.pick({0, 0, 200}));
      gProf.seed = seed;
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) {
         u64 mid = 0;
         parseId(p.get()->message(), mid);
         ev(MARK, 7, mid, 0, tid());
      });
      auto w = LogWorker::createLogWorker();
      if (c.rng.chance(1, 2)) g3::initializeLogging(w.get());
      inThreads(setters + raisers, [&](int t) {
         Rng r(seed + t);
         if (t < setters) {
            for (int i = 0; i < perSetter; ++i) {
               const u64 hid = mkId(t, i);
               std::string held = "hook " + std::to_string(hid);   // state of the hook on the heap
               held.resize(60, '.');
               ev(CALLC, t, hid);
               g3::setFatalPreLoggingHook([held] { ev(HOOK, 0, strtoull(held.c_str() + 5, nullptr, 10), held.size() == 60, tid()); });
               ev(CALLR, t, hid);
               if (r.chance(1, 2)) sleepUs(static_cast<unsigned>(r.below(120)));
            }
         } else {
            for (int i = 0; i < perRaiser; ++i) {
               const u64 id = mkId(t, i);
               ev(FATALCALL, t, id, 0, tid());
               if (i % 2) LOG(FATAL) << msgText(gProf, id);
               else CHECK(i < 0) << msgText(gProf, id);
               ev(FATALRET, t, id, 0, tid());
               if (r.chance(1, 2)) sleepUs(static_cast<unsigned>(r.below(150)));
            }
         }
      });
      g3::setFatalExitHandler(nullptr);
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      struct Set { u64 call = 0, ret = ~0ull, ran = 0, at = 0; };
      struct Raise { u64 call = 0, ret = ~0ull, hook = 0, handled = 0, tid = 0; };
      std::map<u64, Set> sets;
      std::map<u64, Raise> raises;
      std::map<u64, u64> open;      // thread -> its event in progress
      for (u64 i = 0, n = eventCount(); i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == CALLC) sets[e.a].call = i;
         if (e.kind == CALLR) sets[e.a].ret = i;
         if (e.kind == FATALCALL) { raises[e.a].call = i; open[e.c] = e.a; }
         if (e.kind == FATALRET) { raises[e.a].ret = i; open.erase(e.c); }
         if (e.kind == MARK && e.actor == 7) {
            if (!open.count(e.c) || open[e.c] != e.a) { fail("hook", "the handler was called for %s in a thread that is not raising it", idStr(e.a).c_str()); return; }
            ++raises[e.a].handled;
         }
         if (e.kind == HOOK) {
            if (!sets.count(e.a) || !e.b) { fail("hook", "a hook that was never set was called (%llx)", (unsigned long long)e.a); return; }
            if (++sets[e.a].ran > 1) { fail("hook", "hook %s was called twice", idStr(e.a).c_str()); return; }
            sets[e.a].at = i;
            if (!open.count(e.c)) { fail("hook", "hook %s was called in a thread that raises nothing", idStr(e.a).c_str()); return; }
            Raise& r = raises[open[e.c]];
            if (r.hook) { fail("hook", "two hooks were called for one fatal event"); return; }
            if (r.handled) { fail("hook", "the hook was called after the handler"); return; }
            r.hook = e.a + 1;
            // overwritten before the event started?
            for (auto& x : sets) if (x.second.call > sets[e.a].ret && x.second.ret < r.call) { fail("hook", "hook %s was called, but %s had been set after it and before the fatal event", idStr(e.a).c_str(), idStr(x.first).c_str()); return; }
         }
      }
      u64 must = 0;
      for (auto& x : raises) {
         const Raise& r = x.second;
         if (r.handled != 1) { fail("hook", "the handler was called %llu times for one event", (unsigned long long)r.handled); return; }
         // an event alone since the last set, with no set beside it: its hook has to be called
         const Set* last = nullptr;
         bool alone = true;
         for (auto& y : sets) if (y.second.call < r.ret && (!last || y.second.call > last->call)) last = &y.second;
         if (!last || last->ret > r.call) continue;
         for (auto& y : sets) if (&y.second != last && y.second.ret > last->call && y.second.call < r.ret) alone = false;
         for (auto& y : raises) if (y.first != x.first && y.second.ret > last->call && y.second.call < r.ret) alone = false;
         if (!alone) continue;
         ++must;
         if (!r.hook) { fail("hook", "no hook was called for the event %s, the only one since a hook was set", idStr(x.first).c_str()); return; }
      }
      u64 ran = 0, h = 1;
      for (auto& x : sets) { ran += x.second.ran; h = mix(h ^ x.second.at); }
      c.stat["hooks_set"] += sets.size();
      c.stat["hooks_called"] += ran;
      c.stat["calls_required"] += must;
      c.distinct(h);
      c.sample(fmt("%zu hooks set by %d threads against %zu events of %d: %llu called", sets.size(), setters, raises.size(), raisers, (unsigned long long)ran));
   }
};
VF_SCENARIO(P08, HookRace, 1)

// P06: raising the signal with the action from before the logger does not end the process: it is the first one of a
// container, or the application's own action returns
struct InitProcess : FatalBase {
   bool ownAction, slowExit;
   int phase;   // 0 active, 1 before init, 2 before init with crash handler, 3 after shutdown, 4 no sinks
   void prepare(Case& c) override {
      p.make(c.rng);
      p.threads = std::min(p.threads, 2);
      p.perThread = std::min(p.perThread, 20);
      phase = c.rng.pick({0, 0, 0, 1, 2, 3, 4});
      p.where = c.rng.range(0, 1);
      if (phase == 1 && !isLogKind(p.kind)) phase = 0;
      if (p.kind == F_EXT_TERM) p.kind = F_TGKILL;
      ownAction = c.rng.chance(1, 3);
      if (ownAction && phase == 1) phase = 2;
      slowExit = c.idx % 16 == 3;
      if (slowExit) phase = 0;
      if (phase == 4) p.sinks = 0, p.file = false, p.gated = false, p.handleCalls = false, p.held = -1;
   }
   void child(Case& c) override {
      if (ownAction) {
         static auto idle = +[](int) { ctr(6).fetch_add(1); };
         struct sigaction sa;
         memset(&sa, 0, sizeof sa);
         sa.sa_handler = idle;
         for (int s : {SIGABRT, SIGFPE, SIGILL, SIGSEGV, SIGTERM}) sigaction(s, &sa, nullptr);
         inner(c);
         return;
      }
      if (unshare(CLONE_NEWUSER | CLONE_NEWPID)) { ev(MARK, 40, ~0ull); return; }
      pid_t in = fork();
      if (in < 0) { ev(MARK, 40, ~0ull); return; }
      if (in == 0) {
         prctl(PR_SET_PDEATHSIG, SIGKILL);
         inner(c);
         _exit(98);
      }
      int st = 0;
      while (waitpid(in, &st, 0) < 0 && errno == EINTR) {}
      ev(MARK, 40, static_cast<u64>(st));
   }
   void inner(Case& c) {
      gProf = p.prof;
      if (slowExit) std::atexit([] { sleepUs(2500000); });
      if (phase == 1 || phase == 2) {
         if (phase == 2) g3::installCrashHandler();
         Active a(p);
         a.raiseAt(p.kind, p.where, 1);
         return;
      }
      Active& a = *new Active(p);
      a.start(c.dir);
      if (phase == 3) {
         for (int i = 0; i < p.perThread; ++i) logId(p.prof, mkId(9, i), false);
         a.gate.release();
         a.keep.clear();
         a.w.reset();
         a.termMask(SIG_UNBLOCK);
         a.raiseAt(p.kind, p.where, 1);
         return;
      }
      a.logAndRaise([&] { a.raiseAt(p.kind, p.where, 1); });
   }
   void check(Case& c, const Outcome& o) override {
      Post post;
      u64 st = ~0ull;
      if (ownAction) st = o.exited ? static_cast<u64>(o.code) << 8 : o.sig;
      else {
         if (!expectClean(c, o)) return;
         for (u64 i = 0; i < post.t.n; ++i) if (event(i).kind == MARK && event(i).actor == 40) st = event(i).a;
         if (st == ~0ull) { c.stat["no_namespace"] += 1; return; }
      }
      const char* as = ownAction ? "with an own action that returns" : "as the init process";
      const int s = static_cast<int>(st), sg = sigOf(p.kind);
      if (!((WIFEXITED(s) && WEXITSTATUS(s) == sg) || (WIFSIGNALED(s) && WTERMSIG(s) == sg)))
         fail("status", "%s, %s ended by %s %d, expected signal (or exit status) %d; stderr tail: %s", as, kKindName[p.kind], WIFEXITED(s) ? "exit" : "signal", WIFEXITED(s) ? WEXITSTATUS(s) : WTERMSIG(s), sg, printable(o.err.size() > 400 ? o.err.substr(o.err.size() - 400) : o.err, 400).c_str());
      if (post.fatalRet != ~0ull) fail("returned", "%s, execution continued after %s%s", as, kKindName[p.kind], slowExit ? " while an exit handler took 2.5 s" : "");
      if (phase == 0) for (int i = 0; i < p.sinks; ++i) post.sink(i);
      c.stat[ownAction ? "own_actions" : "init_processes"] += 1;
      c.distinct(mix(phase * 100 + p.where * 40 + p.kind) ^ mix(c.idx));
      c.sample(fmt("%s: %s phase %d where %d -> %s %d", as, kKindName[p.kind], phase, p.where, WIFEXITED(s) ? "exit" : "signal", WIFEXITED(s) ? WEXITSTATUS(s) : WTERMSIG(s)));
   }
};
VF_SCENARIO(P06, InitProcess, 0)

// P25: what the fatal record says
struct FatalRecord : FatalBase {
   int phase;
   std::string tail;
   std::vector<int> handled;                              // events before, left to a handler that returns
   void prepare(Case& c) override {
      p.make(c.rng);
      p.perThread = std::min(p.perThread, 30);
      p.sinks = 2;
      p.kinds = {0, 1};
      p.slow = {0, 0};
      p.held = -1;
      p.file = true;
      phase = c.rng.pick({0, 0, 0, 0, 2, 3});
      p.masked = isLogKind(p.kind) && c.rng.chance(1, 5);
      if (phase == 0 && c.rng.chance(1, 3))
         for (int i = c.rng.range(1, 4); i--;) handled.push_back(kHandlesSignals && !p.masked && p.kind != F_EXT_TERM && c.rng.chance(1, 2) ? c.rng.pick({(int)F_RAISE_ABRT, (int)F_RAISE_FPE, (int)F_RAISE_SEGV, (int)F_RAISE_ILL, (int)F_RAISE_TERM, (int)F_TGKILL}) : (int)c.rng.below(F_CUSTOMF + 1));
      int n = c.rng.pick({0, 0, 5, 300, 5000, 200000});
      for (int i = 0; i < n; ++i) tail += static_cast<char>(c.rng.chance(1, 6) ? c.rng.below(256) : 32 + c.rng.below(95));
   }
   void child(Case& c) override {
      gProf = p.prof;
      gFatalTail = tail;
      if (phase == 2) {
         g3::installCrashHandler();
         Active a(p);
         a.raiseAt(p.kind, p.where, 1);
         return;
      }
      Active& a = *new Active(p);
      a.start(c.dir);
      if (phase == 3) {
         a.gate.release();
         a.w.reset();
         a.raiseAt(p.kind, p.where, 1);
         return;
      }
      if (!handled.empty()) a.before = [&] {
         g3::setFatalExitHandler([](g3::FatalMessagePtr) { ctr(5).fetch_add(1); });
         gUnseen = true;
         for (size_t i = 0; i < handled.size(); ++i) raiseSomehow(handled[i], fatalMsgId(static_cast<int>(50 + i)));
         gUnseen = false;
         g3::setFatalExitHandler(g3::internal::pushFatalMessageToLogger);
      };
      a.logAndRaise([&] { a.raiseAt(p.kind, p.where, 1); });
   }
   void check(Case& c, const Outcome& o) override {
      Post post;
      post.status(o);
      if (post.firstFatal == ~0ull) return;
      if (ctr(5).load() != handled.size()) fail("record", "%zu events before, the handler was called %llu times", handled.size(), (unsigned long long)ctr(5).load());
      gFatalTail = tail;
      const int k = p.kind;
      const std::string text = fatalTextOf(k, fatalMsgId(1));
      const std::string sn = sigName(sigOf(k));
      auto need = [&](const std::string& s, const std::string& what, const char* where, const char* desc) {
         if (s.find(what) == s.npos) fail("record", "%s for %s lacks %s '%s': '%s'", where, kKindName[k], desc, printable(what, 80).c_str(), printable(s, 500).c_str());
      };
      auto judgeText = [&](const std::string& s, const char* where, bool full) {
         std::string level;
         if (isLogKind(k)) {
            need(s, text, where, "its text");
            if (isCheckKind(k)) { need(s, "kind + 1 == 0", where, "the condition"); need(s, "EXIT trigger caused by broken Contract", where, "the marker"); level = g3::internal::CONTRACT.text; }
            else if (isCustom(k)) { need(s, "Custom made Log Message Type", where, "the marker"); level = "MYFATAL"; }
            else { need(s, "EXIT trigger caused by LOG(FATAL) entry", where, "the marker"); level = "FATAL"; }
            need(s, level, where, "the level");
            need(s, "h_fatal.cpp", where, "the file");
            need(s, "vf_raise_here", where, "the function");
         } else {
            level = g3::internal::FATAL_SIGNAL.text;
            need(s, "FATAL SIGNAL RECEIVED", where, "the marker");
            need(s, sn + "(" + std::to_string(sigOf(k)) + ")", where, "the signal");
         }
         need(s, "STACKDUMP", where, "the stack dump");
         auto d = s.find("stack dump [1]");
         if (d == s.npos) fail("record", "%s for %s holds no stack dump", where, kKindName[k]);
         else if (k != F_EXT_TERM && s.find("vf_raise_here", d) == s.npos) fail("record", "the stack dump in %s for %s does not show the raising function: '%s'", where, kKindName[k], printable(s.substr(d), 900).c_str());
         else if (k != F_EXT_TERM) {
            std::string wrong = wrongWay(s, fatalMsgId(1));
            if (!wrong.empty()) fail("record", "%s for %s holds %s", where, kKindName[k], wrong.c_str());
         }
         if (full) {
            auto x = s.rfind("\nExiting after fatal event");
            if (x == s.npos || (d != s.npos && x < d)) { fail("record", "%s for %s lacks the exit note after the stack dump", where, kKindName[k]); return; }
            std::string note = s.substr(x);
            need(note, "(" + level + ")", where, "the level in the exit note");
            need(note, "Fatal type:", where, "the exit note");
            need(note, sn, where, "the signal in the exit note");
         } else need(s, "CAUSE: " + sn, where, "the cause");
      };
      if (phase == 0) {
         std::string obj = post.fatalText(0), txt = post.fatalText(1);
         if (obj.empty() || txt.empty()) { fail("record", "no fatal message reached the sinks"); return; }
         judgeText(obj, "the message in the sink", true);
         judgeText(txt, "the text in the sink", true);
         if (obj != txt) fail("record", "two sinks received different fatal messages: '%s' and '%s'", printable(obj).c_str(), printable(txt).c_str());
         if (o.err.find(obj) == o.err.npos) fail("record", "the copy on stderr differs from the message in the sinks for %s: '%s' / stderr '%s'", kKindName[k], printable(obj, 300).c_str(), printable(o.err, 300).c_str());
         auto fs = listDir(c.dir + "/logs");
         if (fs.size() == 1) {
            std::string s = readFile(c.dir + "/logs/" + fs[0]);
            if (s.find(obj) == s.npos) fail("record", "the log file does not hold the fatal message for %s", kKindName[k]);
         } else fail("record", "%zu log files", fs.size());
         for (u64 i = 0; i < post.t.n; ++i)
            if (event(i).kind == TEXT && event(i).actor == 0) {
               std::string m = textOf(event(i));
               std::string lvl = !isLogKind(k) ? g3::internal::FATAL_SIGNAL.text : isCheckKind(k) ? g3::internal::CONTRACT.text : isCustom(k) ? "MYFATAL" : "FATAL";
               if (m.compare(0, lvl.size() + 1, lvl + "\n")) fail("record", "the level of the fatal message is '%s', expected %s", printable(m, 40).c_str(), lvl.c_str());
               std::string ex = isCheckKind(k) ? "kind + 1 == 0" : "";
               if (m.compare(lvl.size() + 1, ex.size() + 1, ex + "\n")) fail("record", "the expression of the fatal message is '%s'", printable(m, 80).c_str());
            }
      } else judgeText(o.err, "stderr", false);
      note(c, post, o, fmt("phase=%d tail=%zu before=%zu", phase, tail.size(), handled.size()));
   }
};
VF_SCENARIO(P25, FatalRecord, 1)

// P26: custom fatal handler
struct Thrown { u64 id; };
struct ThrownStd : std::runtime_error { u64 id; explicit ThrownStd(u64 i) : std::runtime_error("handler"), id(i) {} };
// what the handler throws depends on the event; the raising statement must see the same
[[noreturn]] void throwFor(u64 id) {
   switch (mix(id) % 5) {
   case 0: throw Thrown{id};
   case 1: throw ThrownStd(id);
   case 2: throw std::runtime_error(std::to_string(id));
   case 3: throw static_cast<u64>(id);
   default: throw std::bad_alloc();
   }
}
bool rightException(u64 id) {
   try { throw; }
   catch (const Thrown& t) { return mix(id) % 5 == 0 && t.id == id; }
   catch (const ThrownStd& t) { return mix(id) % 5 == 1 && t.id == id; }
   catch (const std::bad_alloc&) { return mix(id) % 5 == 4; }
   catch (const std::runtime_error& t) { return mix(id) % 5 == 2 && t.what() == std::to_string(id); }
   catch (const u64& t) { return mix(id) % 5 == 3 && t == id; }
   catch (...) { return false; }
}
thread_local u64 tlEvent = 0;
struct CustomHandler : FatalBase {
   int mode;       // 0 return, 1 throw, 2 mixed
   int phase;      // 0 active, 1 before init then active, 2 after shutdown
   int raisers, events;
   bool hooks, forward;
   std::vector<int> kinds;
   void prepare(Case& c) override {
      p.make(c.rng);
      p.perThread = std::min(p.perThread, 40);
      p.gated = false;
      p.file = false;
      p.handleCalls = false;
      mode = c.rng.range(0, 2);
      phase = c.rng.pick({0, 0, 0, 1, 2});
      raisers = c.rng.pick({1, 1, 2, 4});
      events = c.rng.range(1, 8);
      hooks = raisers == 1 && c.rng.chance(1, 2);
      forward = c.rng.chance(1, 4) && phase == 0;
      for (int i = 0; i < events; ++i) kinds.push_back(raisers == 1 && kHandlesSignals && c.rng.chance(1, 3) ? c.rng.pick({(int)F_RAISE_ABRT, (int)F_RAISE_FPE, (int)F_RAISE_SEGV, (int)F_RAISE_ILL, (int)F_RAISE_TERM, (int)F_TGKILL}) : (int)c.rng.below(F_CUSTOMF + 1));
      p.kind = kinds[0];
   }
   void raiseAll(int raiser, u64 base) {
      for (int i = 0; i < events; ++i) {
         if (hooks) { const int hid = static_cast<int>(base) + i + 1; g3::setFatalPreLoggingHook([hid] { ev(HOOK, hid, 0, 0, tid()); }); }
         u64 id = fatalMsgId(static_cast<int>(base + raiser * 100 + i));
         tlEvent = id;
         try { raiseSomehow(kinds[i], id); }
         catch (...) { ev(CALLR, raiser, id, rightException(id) ? id : ~0ull, tid()); }
         logId(p.prof, mkId(200 + raiser, base + i));
      }
   }
   void child(Case& c) override {
      gProf = p.prof;
      const int md = mode;
      const bool fw = forward;
      std::map<u64, int> kindOfEvent;
      auto handler = [md, fw](g3::FatalMessagePtr m) {
         const g3::FatalMessage& f = *m.get();
         // the message text of signals holds no id: the raising thread's latest event is meant
         std::string meta = f.level() + "\n" + std::to_string(f._level.value) + "\n" + f.expression() + "\n" + f.file() + "\n" + f.function() + "\n" + std::to_string(f._signal_id) + "\n" + (f.wasFatal() ? "1" : "0") + "\n" + f.message();
         ev(CALLC, 0, static_cast<u64>(f._signal_id), 0, tid(), meta.data(), meta.size());
         if (f.toString().find(f.message()) == std::string::npos) fail("handler", "the formatted fatal message does not hold its text");
         std::string wrong = wrongWay(f.message(), tlEvent);
         if (!wrong.empty()) fail("handler", "the message given to the custom handler holds %s", wrong.c_str());
         u64 id = ~0ull;
         bool isLog = parseId(f.message(), id);
         if (fw) { g3::internal::pushFatalMessageToLogger(m); return; }
         if (isLog && (md == 1 || (md == 2 && id % 2))) throwFor(id);
      };
      if (phase == 1) {
         g3::setFatalExitHandler(handler);
         if (kHandlesSignals) g3::installCrashHandler();
         raiseAll(0, 10000);
      }
      Active& a = *new Active(p);
      a.start(c.dir);
      if (phase != 1) g3::setFatalExitHandler(handler);
      std::vector<std::thread> ts;
      for (int t = 0; t < p.threads; ++t)
         ts.emplace_back([&, t] { for (int s = 0; s < p.perThread; ++s) logId(p.prof, mkId(t, s)); });
      if (phase == 2) { for (auto& t : ts) t.join(); ts.clear(); a.keep.clear(); a.w.reset(); }
      if (!p.concurrent) { for (auto& t : ts) t.join(); ts.clear(); }
      if (raisers == 1) {
         if (p.where && kinds.end() == std::find_if(kinds.begin(), kinds.end(), [](int k) { return !isLogKind(k); })) std::thread([&] { raiseAll(0, 0); }).join();
         else raiseAll(0, 0);
      } else inThreads(raisers, [&](int r) { raiseAll(r, 0); });
      for (auto& t : ts) t.join();
      if (phase != 2) {
         if (!g3::internal::isLoggingInitialized()) fail("handler", "logging is shut down after the custom handler ran");
         for (int i = 0; i < 10; ++i) logId(p.prof, mkId(300, i));
         a.keep.clear();
         a.w.reset();
      }
      ev(SHUTRET, 0);
   }
   void check(Case& c, const Outcome& o) override {
      Post post;
      if (forward) {
         post.status(o);
         for (int i = 0; i < p.sinks; ++i) post.sink(i);
      } else if (!expectClean(c, o)) return;
      // per thread: FATALCALL, [HOOK], CALLC, then FATALRET or CALLR
      struct S { int kind = -1; u64 id = 0; int calls = 0, hooks = 0; bool hookLate = false; };
      std::map<u64, S> cur;
      u64 nEvents = 0, handlerCalls = 0, thrown = 0;
      auto finish = [&](u64 th, bool end) {
         S& s = cur[th];
         if (s.kind < 0) return;
         if (!end && s.calls != 1) fail("handler", "the custom handler was called %d times for %s", s.calls, kKindName[s.kind]);
         if (hooks && !end && s.hooks != 1) fail("handler", "the pre-fatal hook ran %d times for %s with a custom handler", s.hooks, kKindName[s.kind]);
         if (s.hookLate) fail("handler", "the pre-fatal hook ran after the custom handler for %s", kKindName[s.kind]);
         s = S();
      };
      for (u64 i = 0; i < post.t.n; ++i) {
         const Event& e = event(i);
         if (e.kind == FATALCALL) { finish(e.c, false); S& s = cur[e.c]; s.kind = static_cast<int>(e.b); s.id = e.a; ++nEvents; }
         else if (e.kind == HOOK) { S& s = cur[e.c]; ++s.hooks; if (s.calls) s.hookLate = true; }
         else if (e.kind == CALLC) {
            ++handlerCalls;
            S& s = cur[e.c];
            if (s.kind < 0) { fail("handler", "the custom handler ran in a thread that raised no event"); continue; }
            ++s.calls;
            checkMeta(s.kind, s.id, textOf(e));
         } else if (e.kind == FATALRET) {
            S& s = cur[e.c];
            const bool throws = isLogKind(s.kind) && (mode == 1 || (mode == 2 && s.id % 2));
            if (throws && !forward) fail("handler", "the exception of the custom handler did not propagate to %s", kKindName[s.kind]);
            finish(e.c, false);
         } else if (e.kind == CALLR) {
            ++thrown;
            if (e.b != e.a) fail("handler", "a different exception arrived at the raising statement");
            finish(e.c, false);
         }
      }
      if (!forward) {
         for (int s = 0; s < p.sinks; ++s) {
            for (auto& r : post.t.rx[s]) if (r.flag == 10) { fail("handler", "sink %d received a fatal message although a custom handler is set", s); break; }
            // everything logged while active arrived
            std::unordered_map<u64, int> seen;
            for (auto& r : post.t.rx[s]) ++seen[r.id];
            for (u64 id : post.t.ids) {
               const u64 th = id >> 32;
               const bool activeMsg = th < 100 || th == 300 || (th >= 200 && th < 300 && (id & 0xffffffff) < 10000 && phase != 2);
               if (activeMsg && seen[id] != 1) { fail("handler", "message %s reached sink %d %d times although logging stays usable", idStr(id).c_str(), s, seen[id]); break; }
            }
         }
      }
      c.stat["fatal_events"] += nEvents;
      c.stat["handler_calls_checked"] += handlerCalls;
      c.stat["exceptions_propagated"] += thrown;
      note(c, post, o, fmt("mode=%d phase=%d raisers=%d events=%d hooks=%d forward=%d", mode, phase, raisers, events, hooks, forward));
   }
   void checkMeta(int k, u64 id, const std::string& m) {
      std::vector<std::string> f;
      size_t b = 0;
      for (int i = 0; i < 7; ++i) { size_t e = m.find('\n', b); if (e == m.npos) break; f.push_back(m.substr(b, e - b)); b = e + 1; }
      if (f.size() != 7) { fail("handler", "unreadable handler record"); return; }
      f.push_back(m.substr(b));
      auto eq = [&](int i, const std::string& want, const char* what) { if (f[i] != want) fail("handler", "%s of the message given to the handler for %s is '%s', expected '%s'", what, kKindName[k], printable(f[i]).c_str(), printable(want).c_str()); };
      eq(0, !isLogKind(k) ? g3::internal::FATAL_SIGNAL.text : isCheckKind(k) ? g3::internal::CONTRACT.text : isCustom(k) ? "MYFATAL" : "FATAL", "the level");
      eq(1, std::to_string(!isLogKind(k) ? g3::internal::FATAL_SIGNAL.value : isCheckKind(k) ? g3::internal::CONTRACT.value : isCustom(k) ? kMyFatal.value : FATAL.value), "the level value");
      eq(2, isCheckKind(k) ? "kind + 1 == 0" : "", "the expression");
      if (isLogKind(k)) {
#if defined(G3_LOG_FULL_FILENAME)
         eq(3, __FILE__, "the file");
#else
         eq(3, "h_fatal.cpp", "the file");
#endif
         if (f[4].find("vf_raise_here") == std::string::npos) eq(4, "vf_raise_here", "the function");
         std::string t = fatalTextOf(k, id);
         if (f[7].compare(0, t.size(), t)) fail("handler", "the text given to the handler for %s is '%s', expected '%s'", kKindName[k], printable(f[7]).c_str(), t.c_str());
      } else if (f[7].find(sigName(sigOf(k))) == std::string::npos) fail("handler", "the text given to the handler does not name %s: '%s'", sigName(sigOf(k)), printable(f[7]).c_str());
      eq(5, std::to_string(sigOf(k)), "the signal");
      eq(6, "1", "fatality");
      if (f[7].find("stack dump [1]") == std::string::npos) fail("handler", "the message given to the handler for %s holds no stack dump", kKindName[k]);
   }
};
VF_SCENARIO(P26, CustomHandler, 3)

// a handler whose own statements are fatal, too: each of them calls it
struct NestedHandler : Scenario {
   int threads, rounds;
   bool active;
   u64 seed;
   void prepare(Case& c) override {
      threads = c.rng.pick({1, 1, 2, 4});
      rounds = c.rng.range(1, 6);
      active = c.rng.chance(3, 4);
      seed = c.rng.next();
   }
   struct Level { u64 id; int kind; bool throws; int calls; };
   void child(Case&) override {
      static thread_local std::vector<Level> stack;
      static thread_local Rng* rng;
      static std::atomic<u64> next{1}, logged{0}, calls{0}, deepest{0};
      auto raise = [](auto& self) -> void {
         Level l{fatalMsgId(static_cast<int>(next.fetch_add(1))), static_cast<int>(rng->below(F_CUSTOMF + 1)), rng->chance(1, 3), 0};
         const size_t depth = stack.size();
         stack.push_back(l);
         if (depth + 1 > deepest.load()) deepest = depth + 1;
         bool caught = false;
         try { vf_raise_here(l.kind, l.id); }
         catch (const Thrown& t) { caught = true; if (t.id != l.id) fail("handler", "the exception of a nested event arrived at another statement"); }
         (void)self;
         if (stack.size() != depth + 1) { fail("handler", "nesting of handlers is damaged"); return; }
         if (stack.back().calls != 1) fail("handler", "the handler was called %d times for %s at nesting %zu", stack.back().calls, kKindName[l.kind], depth);
         if (caught != stack.back().throws) fail("handler", "the exception of the handler %s at nesting %zu", caught ? "came from nowhere" : "did not arrive", depth);
         stack.pop_back();
      };
      static auto raiser = raise;
      g3::setFatalExitHandler([](g3::FatalMessagePtr m) {
         ++calls;
         if (stack.empty()) { fail("handler", "called in a thread without an event"); return; }
         const size_t at = stack.size() - 1;
         ++stack[at].calls;
         u64 id = ~0ull;
         if (!parseId(m.get()->message(), id) || id != stack[at].id) { fail("handler", "the handler received another message at nesting %zu: '%s'", at, printable(m.get()->message(), 100).c_str()); return; }
         logId(gProf, mkId(5, logged.fetch_add(1)));
         if (at < 4 && rng->chance(2, 3)) raiser(raiser);
         if (at < 4 && rng->chance(1, 3)) raiser(raiser);
         logId(gProf, mkId(5, logged.fetch_add(1)));
         if (stack[at].throws) throw Thrown{stack[at].id};
      });
      auto* w = active ? LogWorker::createLogWorker().release() : nullptr;
      static std::atomic<u64> got{0}, fatal{0};
      struct CountSink { void recv(g3::LogMessageMover m) { ++(m.get().wasFatal() ? fatal : got); } };
      if (w) { w->addSink(std::make_unique<CountSink>(), &CountSink::recv); g3::initializeLogging(w); }
      inThreads(threads, [&](int t) {
         Rng r(seed + t);
         rng = &r;
         for (int i = 0; i < rounds; ++i) raiser(raiser);
      });
      delete w;
      if (fatal) fail("handler", "the sink received %llu fatal messages", (unsigned long long)fatal.load());
      if (w && got != logged) fail("handler", "%llu of %llu messages logged by the handler arrived", (unsigned long long)got.load(), (unsigned long long)logged.load());
      if (calls != next - 1) fail("handler", "%llu calls for %llu events", (unsigned long long)calls.load(), (unsigned long long)next.load() - 1);
      ctr(5) = calls.load();
      ctr(6) = deepest.load();
      ctr(7) = 1;
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      if (!ctr(7).load()) fail("handler", "the end was not reached");
      c.stat["nested_handler_calls"] += static_cast<double>(ctr(5).load());
      c.distinct(mix(seed) ^ ctr(5).load());
      c.sample(fmt("%d threads x %d events, %llu handler calls, nesting up to %llu", threads, rounds, (unsigned long long)ctr(5).load(), (unsigned long long)ctr(6).load()));
   }
};
VF_SCENARIO(P26, NestedHandler, 1)

// the handler that is set when an event occurs is the one that is called, over replacements and life cycles
struct ReplaceHandler : FatalBase {
   std::vector<int> ops;     // >= 0 event of that kind, -1 next handler, -2 the same handler again, -3 life cycle
   bool backToDefault;
   void prepare(Case& c) override {
      p.make(c.rng);
      p.perThread = 0;
      p.sinks = 1;
      p.kinds = {0};
      p.slow = {0};
      p.gated = p.file = p.handleCalls = false;
      p.held = -1;
      backToDefault = c.rng.chance(1, 2);
      int n = c.rng.range(2, 40);
      ops.push_back(-1);
      for (int i = 0, h = 1; i < n; ++i) {
         int x = c.rng.range(0, 9);
         if (x == 0) ops.push_back(-3);
         else if (x <= 3) { ops.push_back(-1); ++h; }
         else if (x == 4) ops.push_back(-2);
         else ops.push_back(kHandlesSignals && h % 3 != 1 && c.rng.chance(1, 4) ? c.rng.pick({(int)F_RAISE_ABRT, (int)F_RAISE_FPE, (int)F_RAISE_SEGV, (int)F_RAISE_ILL, (int)F_RAISE_TERM}) : (int)c.rng.below(F_CUSTOMF + 1));
      }
      if (p.kind == F_EXT_TERM) p.kind = F_LOG;
      if (!isLogKind(p.kind)) p.where = 0;   // the handler gets the first signal only (and further ones of its thread)
   }
   static std::function<void(g3::FatalMessagePtr)> handler(u32 id) {
      if (id % 3 == 0) {   // a large function object
         std::string big(100, 'h');
         return [id, big](g3::FatalMessagePtr m) { ev(CALLC, id, m.get()->_signal_id, big.size(), tid()); };
      }
      return [id](g3::FatalMessagePtr m) { ev(CALLC, id, m.get()->_signal_id, 100, tid()); if (id % 3 == 1) throw Thrown{id}; };
   }
   void child(Case& c) override {
      Active* a = new Active(p);
      a->start(c.dir);
      u32 h = 0;
      int n = 0;
      for (int op : ops) {
         if (op == -1) g3::setFatalExitHandler(handler(++h));
         else if (op == -2) g3::setFatalExitHandler(handler(h));
         else if (op == -3) { a->w.reset(); a = new Active(p); a->start(c.dir); }
         else {
            ev(MARK, h, static_cast<u64>(op));
            try { vf_raise_here(op, fatalMsgId(++n)); } catch (const Thrown& t) { ev(MARK, 5000, t.id); }
            logId(p.prof, mkId(1, n));
         }
      }
      if (backToDefault) {
         g3::setFatalExitHandler(g3::internal::pushFatalMessageToLogger);
         ev(MARK, 9999, 0);
         a->raiseAt(p.kind, p.where, 0);
      }
      a->w.reset();
   }
   void check(Case& c, const Outcome& o) override {
      if (backToDefault) {
         if (o.exited || o.sig != sigOf(p.kind)) fail("status", "with the default handler set again %s ended by %s", kKindName[p.kind], o.status().c_str());
      } else if (!expectClean(c, o)) return;
      u32 want = 0;
      int calls = -1, thrown = 0;
      u64 events = 0;
      auto close = [&] {
         if (calls < 0) return;
         if (calls != 1) fail("handler", "the handler set last (number %u) was called %d times for an event", want, calls);
         if (thrown != (want % 3 == 1)) fail("handler", "the exception of handler %u arrived %d times", want, thrown);
      };
      u64 fatalSeen = 0;
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind == MARK && e.actor == 5000) { ++thrown; if (e.a != want) fail("handler", "the exception of handler %llu arrived, the one set is %u", (unsigned long long)e.a, want); }
         else if (e.kind == MARK) { close(); want = e.actor; calls = 0; thrown = 0; ++events; if (want == 9999) break; }
         if (e.kind == CALLC) {
            if (calls < 0) fail("handler", "handler %u was called without an event", e.actor);
            if (e.actor != want) fail("handler", "handler %u was called, the one set last is %u", e.actor, want);
            if (e.b != 100) fail("handler", "the state of handler %u is damaged", e.actor);
            ++calls;
         }
      }
      if (want != 9999) close();
      std::unordered_map<u64, int> seen;
      Trace t;
      for (auto& r : t.rx[0]) { if (r.flag == 10) ++fatalSeen; else ++seen[r.id]; }
      for (u64 id : t.ids) if (seen[id] != 1) { fail("handler", "message %s reached the sink %d times although the handler keeps the process alive", idStr(id).c_str(), seen[id]); break; }
      if (fatalSeen != (backToDefault ? 1u : 0u)) fail("handler", "the sink received %llu fatal messages", (unsigned long long)fatalSeen);
      c.stat["fatal_events"] += static_cast<double>(events);
      u64 hh = backToDefault;
      for (int x : ops) hh = mix(hh ^ static_cast<u64>(x + 10));
      c.distinct(hh);
      c.sample(fmt("%zu operations, %llu events, default again %d", ops.size(), (unsigned long long)events, backToDefault));
   }
};
VF_SCENARIO(P26, ReplaceHandler, 1)

// P27: simultaneous events
struct Simultaneous : FatalBase {
   int raisers;
   std::vector<int> ks;
   int spread;
   void prepare(Case& c) override {
      p.make(c.rng);
      p.handleCalls = false;
      p.concurrent = c.rng.chance(1, 3);
      raisers = c.rng.range(2, 8);
      spread = c.rng.pick({0, 0, 50, 500, 3000});
      for (int i = 0; i < raisers; ++i) { int k; do k = pickKind(c.rng); while (k == F_EXT_TERM); ks.push_back(k); }
      p.kind = ks[0];
   }
   void child(Case& c) override {
      Active& a = *new Active(p);
      a.start(c.dir);
      a.logAndRaise([&] {
         std::atomic<int> ready{0};
         Rng r(c.seed * 3 + c.idx);
         std::vector<int> d;
         for (int i = 0; i < raisers; ++i) d.push_back(spread ? r.range(0, spread) : 0);
         inThreads(raisers, [&](int i) {
            ++ready;
            while (ready < raisers) std::this_thread::yield();
            if (d[i]) sleepUs(d[i]);
            vf_raise_here(ks[i], fatalMsgId(i));
         });
      });
   }
   void check(Case& c, const Outcome& o) override {
      Post post;
      post.status(o);
      if (post.firstFatal == ~0ull) return;
      for (int i = 0; i < p.sinks; ++i) post.sink(i);
      if (p.file) checkFile(post, c.dir + "/logs", p.held == p.sinks, lines);
      c.stat["events_raised"] += post.fatalIds.size();
      // the one that won, seen by all sinks alike
      std::string first;
      for (int i = 0; i < p.sinks; ++i) {
         std::string s = post.fatalText(i);
         if (i && s != first) fail("fatal", "sinks received different fatal messages: '%s' and '%s'", printable(first).c_str(), printable(s).c_str());
         first = s;
      }
      std::string kinds;
      for (int k : ks) kinds += std::to_string(k) + ",";
      note(c, post, o, fmt("raisers=%d raised=%zu kinds=%s", raisers, post.fatalIds.size(), kinds.c_str()));
   }
};
VF_SCENARIO(P27, Simultaneous, 1)

// ---- waits far longer than those of a test, and very long backlogs ----
struct CountSink {
   u32 id;
   Gate* gate;
   u64 next[8] = {}, count = 0, bad = 0;
   CountSink(u32 i, Gate* g) : id(i), gate(g) {}
   void recv(g3::LogMessageMover m) {
      if (gate) gate->pass();
      if (m.get().wasFatal()) { std::string s = m.get().toString(); ev(RECV, id, kFatalId, 10, tid(), s.data(), s.size()); ev(TEXT, id, count, bad); return; }
      unsigned t = 9;
      unsigned long long n = 0;
      const std::string s = m.get().message();
      if (sscanf(s.c_str(), "%u:%llu", &t, &n) != 2 || t > 7 || n != next[t]) ++bad;
      if (t < 8) next[t] = n + 1;
      ++count;
   }
};
std::atomic<unsigned> gHookMs{0};
struct LongFatal : FatalBase {
   enum Mode { BLOCKED, IDLE, SLOWFATAL, TWO, HOOK, HOOKTWO, HUGE_BACKLOG };
   std::vector<Mode> modes;
   Mode mode;
   u64 per = 0;
   int kind2 = F_LOG;
   double T = 65;
   explicit LongFatal(std::vector<Mode> m) : modes(std::move(m)) {}
   int plainKind(Rng& r) { int k; do k = pickKind(r); while (k == F_EXT_TERM); return k; }
   void prepare(Case& c) override {
      p.make(c.rng);
      mode = modes[c.idx % modes.size()];
      if (gThorough && c.rng.chance(1, 4)) T = 130;
      p.kind = plainKind(c.rng);
      kind2 = plainKind(c.rng);
      p.perThread = std::max(1, std::min(p.perThread, 60));
      p.concurrent = false;
      p.handleCalls = false;
      p.held = -1;
      p.gated = mode == BLOCKED || mode == TWO;
      p.gateMs = static_cast<int>(T * 1000);
      p.kinds[0] = 0;
      per = gThorough ? 400000 : 60000;
      c.timeout = T + 60;
   }
   void child(Case& c) override {
      gProf = p.prof;
      if (mode == HUGE_BACKLOG) {
         Gate& gate = *new Gate;
         perturb(0, 1);
         gate.close();
         auto w = LogWorker::createLogWorker();
         w->addSink(std::make_unique<CountSink>(0, &gate), &CountSink::recv);
         w->addSink(std::make_unique<CountSink>(1, nullptr), &CountSink::recv);
         g3::initializeLogging(w.get());
         inThreads(3, [&](int t) { for (u64 i = 0; i < per; ++i) LOG(INFO) << t << ':' << i; });
         std::thread([&gate] { sleepUs(20000); gate.release(); }).detach();
         vf_raise_here(p.kind, fatalMsgId(1));
         return;
      }
      Active& a = *new Active(p);
      a.start(c.dir);
      if (mode == SLOWFATAL) a.hs[0]->call(&FSink::needFor, static_cast<unsigned>(T * 1000)).wait();
      if (mode == HOOK || mode == HOOKTWO) {
         gHookLogs = 3;
         const unsigned ms = static_cast<unsigned>(T * 1000);
         g3::setFatalPreLoggingHook([ms] { sleepUs(ms * 1000); vf_hook_body(1); });
      }
      if (mode == IDLE) sleepUs(static_cast<unsigned>(T * 1e6));
      a.logAndRaise([&] {
         if (mode == TWO || mode == HOOKTWO)
            for (int i = 0; i < 3; ++i) {
               const int k = i == 1 ? p.kind : kind2;
               std::thread([k, i] { sleepUs(1000000u + i * 2500000u); vf_raise_here(k, fatalMsgId(10 + i)); }).detach();
            }
         a.raiseAt(p.kind, p.where, 1);
      });
   }
   void check(Case& c, const Outcome& o) override {
      Post post;
      post.status(o);
      if (post.firstFatal == ~0ull) return;
      static const char* const name[] = {"a sink blocked", "idle", "a sink that needs long for the fatal message", "further events while the first one is flushed", "slow hook", "further events while the hook of the first one runs", "long backlog"};
      if (mode == HUGE_BACKLOG) {
         for (u32 s = 0; s < 2; ++s) {
            u64 got = ~0ull, bad = 0, n = 0;
            for (u64 i = 0; i < post.t.n; ++i) if (event(i).kind == TEXT && event(i).actor == s) { got = event(i).a; bad = event(i).b; ++n; }
            if (n != 1) fail("fatal", "with a backlog of %llu messages sink %u received the fatal message %llu times", (unsigned long long)per * 3, s, (unsigned long long)n);
            else if (got != per * 3 || bad) fail("loss", "of a backlog of %llu messages sink %u received %llu before the fatal message, %llu out of sequence", (unsigned long long)per * 3, s, (unsigned long long)got, (unsigned long long)bad);
         }
         c.stat["messages_before_event"] += static_cast<double>(per) * 3;
      } else {
         for (int i = 0; i < p.sinks; ++i) post.sink(i);
         if (p.file) checkFile(post, c.dir + "/logs", false, lines);
      }
      if (mode == HOOK) {
         int b = 0, e = 0;
         for (u64 i = 0; i < post.t.n; ++i) if (event(i).kind == cm::HOOK) (event(i).a ? e : b)++;
         if (b != 1 || e != 1) fail("hook", "a hook that takes %.0f s was called %d times and ended %d times", T, b, e);
         for (int i = 0; i < p.sinks; ++i)
            for (u64 k = 0; k < 3; ++k) {
               bool seen = false;
               for (auto& r : post.t.rx[i]) seen |= r.id == mkId(901, k);
               if (!seen) { fail("hook", "message %llu logged by a hook that takes %.0f s never reached sink %d", (unsigned long long)k, T, i); break; }
            }
      }
      c.stat["seconds_blocked"] += mode == HUGE_BACKLOG ? 0 : T;
      c.distinct(mode * 100 + p.kind);
      c.sample(fmt("%s, %.0f s, %s -> ", name[mode], mode == HUGE_BACKLOG ? 0 : T, kKindName[p.kind]) + o.status());
   }
};
struct LongFlush : LongFatal { LongFlush() : LongFatal({BLOCKED, HUGE_BACKLOG, SLOWFATAL, IDLE}) {} };
struct LongDeath : LongFatal { LongDeath() : LongFatal({SLOWFATAL, BLOCKED, IDLE, HOOK}) {} };
struct LongHook : LongFatal { LongHook() : LongFatal({HOOK}) {} };
struct LongSimultaneous : LongFatal { LongSimultaneous() : LongFatal({TWO, HOOKTWO}) {} };
VF_SCENARIO(P05, LongFlush, 0)
VF_SCENARIO(P06, LongDeath, 0)
VF_SCENARIO(P08, LongHook, 0)
VF_SCENARIO(P27, LongSimultaneous, 0)

// P12: life cycle
const char kMark[] = "LOGGER NOT INITIALIZED:\n\t\t";
struct LifeSink : SinkBase {
   using SinkBase::SinkBase;
   void recv(g3::LogMessageMover m) {
      enter();
      std::string s = m.get().message();
      if (s.compare(0, sizeof kMark - 1, kMark) == 0) {
         u64 mid = ~0ull;
         std::string rest = s.substr(sizeof kMark - 1);
         bool ok = parseId(rest, mid) && rest == msgText(gProf, mid);
         ev(RECV, id, mid, ok ? 11 : 3, tid(), s.data(), std::min<size_t>(s.size(), 200));
      } else if (s.find("Attempted to shut down logging") != s.npos) ev(RECV, id, kFatalId, 12, m.get()._level.value, s.data(), 100);
      else record(s);
      leave();
   }
};
struct LifeCycles : Scenario {
   int lives, preThreads, preMsgs, early, between, ending;   // ending: 0 none, 1 double init, 2 null init, 3 null init while nothing is active, 4 init of the active one, 5 the same in another thread, 6 null init after the last life, 7 init of one that was active
   bool inactive, manualShutdown;
   MsgProfile prof;
   void prepare(Case& c) override {
      lives = c.rng.range(1, 6);
      preThreads = c.rng.range(1, 5);
      preMsgs = c.rng.pick({0, 1, 1, 2, 10});
      between = c.rng.range(0, 5);
      early = c.rng.chance(1, 3) ? 0 : between;   // after the first worker was made, before it is active
      ending = c.rng.pick({0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7});
      inactive = c.rng.chance(1, 2);
      manualShutdown = c.rng.chance(1, 4);
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.pick({0, 1, 3, 5});
      prof.binary = c.rng.chance(1, 5);
   }
   void logThreads(int n, int base, int msgs) {
      inThreads(n, [&](int t) { for (int i = 0; i < msgs; ++i) logId(prof, mkId(base + t, i)); });
   }
   void child(Case&) override {
      gProf = prof;
      logThreads(preThreads, 1000, preMsgs);
      if (ending == 3) { ev(MARK, 1); g3::initializeLogging(nullptr); ev(MARK, 2); return; }
      std::unique_ptr<LogWorker> zombie;
      for (int l = 0; l < lives; ++l) {
         auto w = LogWorker::createLogWorker();
         for (int s = 0; s < 2; ++s) w->addSink(std::make_unique<LifeSink>(l * 10 + s), &LifeSink::recv);
         logThreads(1, 3000 + l, l ? between : early);        // not active yet
         g3::initializeLogging(w.get());
         ev(INITRET, l);
         if (!g3::internal::isLoggingInitialized()) fail("life", "logging is not initialized after initializeLogging");
         logThreads(2, l * 10, 20);
         if (zombie) { zombie.reset(); ev(MARK, 10, l); }
         if (inactive) {
            auto other = LogWorker::createLogWorker();
            other->addSink(std::make_unique<LifeSink>(500 + l), &LifeSink::recv);
            other.reset();
            ev(MARK, 10, l);
            if (!g3::internal::isLoggingInitialized()) fail("life", "destroying a worker that is not active shut logging down");
         }
         logThreads(2, l * 10 + 2, 20);
         if (l == lives - 1 && ending == 1) {
            auto other = LogWorker::createLogWorker();
            ev(MARK, 1);
            g3::initializeLogging(other.get());
            ev(MARK, 2);
         }
         if (l == lives - 1 && ending == 4) { ev(MARK, 1); g3::initializeLogging(w.get()); ev(MARK, 2); }
         if (l == lives - 1 && ending == 5) std::thread([&] { ev(MARK, 1); g3::initializeLogging(w.get()); ev(MARK, 2); }).join();
         if (l == lives - 1 && ending == 7) { g3::internal::shutDownLogging(); g3::initializeLogging(w.get()); ev(MARK, 1); g3::initializeLogging(w.get()); ev(MARK, 2); }
         if (l == lives - 1 && ending == 2) { ev(MARK, 1); g3::initializeLogging(nullptr); ev(MARK, 2); }
         if (manualShutdown && l < lives - 1) { g3::internal::shutDownLogging(); zombie = std::move(w); }
         else w.reset();
         if (g3::internal::isLoggingInitialized()) fail("life", "logging is still initialized after the active worker's destruction");
         ev(SHUTRET, l);
         logThreads(2, 4000 + l * 10, between);
      }
      zombie.reset();
      if (ending == 6) { ev(MARK, 1); g3::initializeLogging(nullptr); ev(MARK, 2); }
   }
   void judge(Case& c, const Outcome& o) override {
      if (ending) {
         if (!o.exited || o.code != 1) { fail("life", "illegal initialization ended by %s, expected a failure exit", o.status().c_str()); return; }
      } else if (!expectClean(c, o)) return;
      Trace t;
      bool second = false;
      std::vector<u64> inits, shuts, inactiveOf;
      for (u64 i = 0; i < t.n; ++i) {
         const Event& e = event(i);
         if (e.kind == MARK && e.actor == 2) second = true;
         if (e.kind == INITRET) inits.push_back(i);
         if (e.kind == SHUTRET) shuts.push_back(i);
         if (e.kind == MARK && e.actor == 10) inactiveOf.push_back(e.a);
      }
      if (second) fail("life", "illegal initialization returned");
      // the first message before initialization
      u64 firstSaved = ~0ull, minRet = ~0ull;
      const bool anyPre = preMsgs > 0, anyBefore = anyPre || early > 0;
      for (u64 id : t.ids) if (id >> 32 >= 1000 && (anyPre ? id >> 32 < 2000 : id >> 32 == 3000)) minRet = std::min(minRet, t.msg[id].ret);
      size_t marks = 0, pos = 0;
      while ((pos = o.err.find("LOGGER NOT INITIALIZED:", pos)) != o.err.npos) { ++marks; ++pos; }
      if (anyBefore && ending != 3) {
         if (marks != 1) fail("life", "the first message before initialization was reported on stderr %zu times", marks);
      }
      for (auto& sk : t.rx) {
         const u32 life = sk.first / 10;
         if (sk.first >= 500) { if (!sk.second.empty()) fail("life", "a sink of a worker that was never active received a message"); continue; }
         std::vector<u64> want;
         size_t i = 0;
         u64 warnings = 0;
         std::set<u64> seen;
         for (auto& r : sk.second) {
            if (r.flag == 12) { ++warnings; continue; }
            if (r.flag == 11) {
               if (life != 0 || i != 0) fail("life", "the saved first message %s was delivered as message %zu of life %u", idStr(r.id).c_str(), i, life);
               firstSaved = r.id;
               auto m = t.msg.find(r.id);
               if (m == t.msg.end()) fail("life", "an unknown message was delivered as the first one");
               else if (m->second.call > minRet) fail("life", "message %s was delivered as the first one, but another one was logged before it", idStr(r.id).c_str());
               else if (o.err.find(kMark + msgText(prof, r.id)) == o.err.npos) fail("life", "the saved first message %s was not reported on stderr", idStr(r.id).c_str());
            } else {
               const u64 th = r.id >> 32;
               if (r.flag != 1) fail("life", "sink %u received a damaged message '%s'", sk.first, printable(textOf(event(r.evIdx))).c_str());
               else if (th / 10 != life || th >= 1000) fail("life", "sink %u received message %s, which was logged while its logger was not active", sk.first, idStr(r.id).c_str());
               if (!seen.insert(r.id).second) fail("life", "sink %u received %s twice", sk.first, idStr(r.id).c_str());
            }
            ++i;
         }
         if (ending != 0 && ending != 6 && static_cast<int>(life) == lives - 1) continue;   // that life ended by exit
         for (int th = 0; th < 4; ++th) for (int s = 0; s < 20; ++s) if (!seen.count(mkId(life * 10 + th, s))) { fail("life", "sink %u never received message %d:%d of its life", sk.first, (int)(life * 10 + th), s); th = 4; break; }
         u64 exp = std::count(inactiveOf.begin(), inactiveOf.end(), life);
         if (warnings != exp) fail("life", "%llu warnings about the destruction of a worker that is not active, expected %llu", (unsigned long long)warnings, (unsigned long long)exp);
         if (life == 0 && anyBefore && firstSaved == ~0ull) fail("life", "the first message before initialization was never delivered");
      }
      if (ending != 3 && t.rx.empty() && !(ending && lives == 1)) fail("life", "nothing was delivered");
      c.stat["lives"] += inits.size();
      c.stat["messages_logged"] += t.ids.size();
      u64 h = hashBytes(&lives, sizeof lives) ^ (ending * 7 + preThreads * 31 + preMsgs * 131 + between * 1009 + inactive * 3 + manualShutdown * 5);
      for (auto& r : t.rx) h = mix(h ^ orderHash(r.second));
      c.distinct(h);
      c.sample(fmt("lives=%d pre=%dx%d between=%d ending=%d inactive=%d manual=%d -> ", lives, preThreads, preMsgs, between, ending, inactive, manualShutdown) + o.status());
   }
};
VF_SCENARIO(P12, LifeCycles, 1)

// threads log while the logger is initialized
struct InitRace : Scenario {
   int threads, msgs, sinks, before;
   unsigned spread;
   bool again;
   MsgProfile prof;
   void prepare(Case& c) override {
      threads = c.rng.range(1, 5);
      msgs = c.rng.pick({1, 1, 2, 5, 30});
      sinks = c.rng.range(1, 2);
      before = c.rng.chance(1, 4) ? c.rng.range(1, 3) : 0;   // surely before
      spread = c.rng.pick({0u, 20u, 100u, 400u, 2000u});
      again = c.rng.chance(1, 3);
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.pick({0, 1, 3, 5});
   }
   void child(Case& c) override {
      gProf = prof;
      u64 seed = c.rng.next();
      for (int i = 0; i < before; ++i) logId(prof, mkId(100, i));
      auto w = LogWorker::createLogWorker();
      for (int s = 0; s < sinks; ++s) w->addSink(std::make_unique<LifeSink>(s), &LifeSink::recv);
      std::atomic<int> go{0};
      std::vector<std::thread> ts;
      for (int t = 0; t < threads; ++t) ts.emplace_back([&, t] {
         Rng r(seed + t);
         const unsigned d = spread ? static_cast<unsigned>(r.below(spread)) : 0;
         ++go;
         while (go.load(std::memory_order_relaxed) <= threads) {}
         if (d) sleepUs(d);
         for (int i = 0; i < msgs; ++i) logId(prof, mkId(t, i));
      });
      Rng r(seed + 99);
      const unsigned d = spread ? static_cast<unsigned>(r.below(spread)) : 0;
      while (go.load(std::memory_order_relaxed) < threads) {}
      ++go;
      if (d) sleepUs(d);
      ev(MARK, 20);
      g3::initializeLogging(w.get());
      ev(INITRET, 0);
      for (auto& t : ts) t.join();
      logId(prof, mkId(101, 0));
      w.reset();
      ev(SHUTRET, 0);
      if (again) {
         logId(prof, mkId(102, 0));   // dropped
         w = LogWorker::createLogWorker();
         w->addSink(std::make_unique<LifeSink>(10), &LifeSink::recv);
         g3::initializeLogging(w.get());
         logId(prof, mkId(103, 0));
         w.reset();
      }
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      Trace t;
      u64 initCall = ~0ull, initRet = 0, minRet = ~0ull;
      for (u64 i = 0; i < t.n; ++i) {
         if (event(i).kind == MARK && event(i).actor == 20) initCall = i;
         if (event(i).kind == INITRET) initRet = i;
      }
      size_t marks = 0, pos = 0;
      const std::string late = kMark + msgText(prof, mkId(102, 0));
      while ((pos = o.err.find("LOGGER NOT INITIALIZED:", pos)) != o.err.npos) { if (o.err.compare(pos, late.size(), late) != 0) ++marks; ++pos; }   // one logged after the first life may be reported, too
      u64 sure = 0, racing = 0;
      for (u64 id : t.ids) {
         auto& m = t.msg[id];
         if (id >> 32 < 102 && m.ret < initCall) { ++sure; minRet = std::min(minRet, m.ret); }
         if (m.call < initRet && m.ret > initCall) ++racing;
      }
      if (marks > 1 || (sure && !marks)) fail("life", "the first message before initialization was reported on stderr %zu times", marks);
      for (int s = 0; s < sinks; ++s) {
         size_t i = 0, marked = 0;
         std::set<u64> seen;
         for (auto& r : t.rx[s]) {
            auto m = t.msg.find(r.id);
            if (m == t.msg.end() || (r.flag != 1 && r.flag != 11)) { fail("life", "sink %d received a damaged message '%s'", s, printable(textOf(event(r.evIdx))).c_str()); return; }
            if (!seen.insert(r.id).second) fail("life", "sink %d received %s twice", s, idStr(r.id).c_str());
            if (r.flag == 11) {
               ++marked;
               if (i) fail("life", "the saved first message %s was delivered as message %zu", idStr(r.id).c_str(), i);
               if (m->second.call > minRet) fail("life", "message %s was delivered as the first one, but another one was logged before it", idStr(r.id).c_str());
               if (m->second.call > initRet) fail("life", "message %s was treated as logged before the initialization, which had returned", idStr(r.id).c_str());
               if (o.err.find(kMark + msgText(prof, r.id)) == o.err.npos) fail("life", "the saved first message %s was not reported on stderr", idStr(r.id).c_str());
            } else if (m->second.ret < initCall || r.id >> 32 >= 102) fail("life", "message %s was delivered although no logger was active", idStr(r.id).c_str());
            ++i;
         }
         if (marked != marks) fail("life", "a message was reported on stderr as the first one before initialization %zu times, sink %d received %zu such", marks, s, marked);
         for (u64 id : t.ids)
            if (id >> 32 < 102 && t.msg[id].call > initRet && !seen.count(id)) { fail("life", "sink %d never received message %s, logged after the initialization", s, idStr(id).c_str()); break; }
      }
      if (again && (t.rx[10].size() != 1 || t.rx[10][0].id != mkId(103, 0) || t.rx[10][0].flag != 1)) fail("life", "the second logger received %zu messages instead of the one logged", t.rx[10].size());
      c.stat["messages_logged"] += t.ids.size();
      c.stat["during_initialization"] += racing;
      c.distinct(mix(orderHash(t.rx[0]) * 3 + marks + racing * 7));
      c.sample(fmt("%d threads x %d messages, %llu before, %llu during the initialization, first one saved %zu times", threads, msgs, (unsigned long long)sure, (unsigned long long)racing, marks));
   }
};
VF_SCENARIO(P12, InitRace, 1)

// hundreds of life cycles in one process
struct ManyLives : Scenario {
   int lives, per;
   MsgProfile prof;
   void prepare(Case& c) override { lives = kTsan || kAsan ? 150 : gThorough ? 70000 : c.rng.range(260, 900); per = lives > 10000 ? 1 : c.rng.range(1, 6); prof.seed = c.rng.next(); c.timeout = gThorough ? 300 : 60; }
   // threads that outlive the lives and log only in every n-th of them
   static std::vector<int> strides() { return {1, 2, 3, 16, 64, 100, 127, 128, 250, 255, 256, 512, 1000, 1024, 4096, 16384, 32768, 65535, 65536}; }
   void child(Case&) override {
      gProf = prof;
      perturb(0, 1);
      const auto st = strides();
      std::vector<int> todo(st.size(), -1);
      std::vector<std::condition_variable> cv(st.size());
      std::mutex m;
      std::condition_variable back;
      std::vector<std::thread> ts;
      for (size_t k = 0; k < st.size(); ++k) ts.emplace_back([&, k] {
         for (;;) {
            int l;
            { std::unique_lock<std::mutex> g(m); cv[k].wait(g, [&] { return todo[k] != -1; }); l = todo[k]; }
            if (l == -2) return;
            logId(prof, mkId(l, 2000 + k));
            { std::lock_guard<std::mutex> g(m); todo[k] = -1; }
            back.notify_one();
         }
      });
      for (int l = 0; l < lives; ++l) {
         auto w = LogWorker::createLogWorker();
         w->addSink(std::make_unique<ObjSink>(l), &ObjSink::recv);
         g3::initializeLogging(w.get());
         for (int i = 0; i < per; ++i) logId(prof, mkId(l, i));
         for (size_t k = 0; k < st.size(); ++k)
            if (l % st[k] == 0) {
               std::unique_lock<std::mutex> g(m);
               todo[k] = l;
               cv[k].notify_one();
               back.wait(g, [&] { return todo[k] == -1; });
            }
         if (l % 7 == 3) { auto other = LogWorker::createLogWorker(); }
         w.reset();
         ev(SHUTRET, l);
         if (g3::internal::isLoggingInitialized()) fail("life", "logging is initialized after life %d", l);
         if (l % 3 == 0) logId(prof, mkId(l, 1000));
      }
      {
         std::lock_guard<std::mutex> g(m);
         for (size_t k = 0; k < st.size(); ++k) { todo[k] = -2; cv[k].notify_one(); }
      }
      for (auto& x : ts) x.join();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      u64 got = 0;
      std::vector<int> n(lives), d(lives), other(lives);
      int late = -1;
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind == RECV) {
            if (e.b == 3) continue;    // the warning about the inactive worker, the early message
            ++got;
            if ((e.a >> 32) == e.actor && (e.a & 0xffffffff) >= 2000) { ++other[e.actor]; continue; }
            if ((e.a >> 32) != e.actor || (e.a & 0xffffffff) >= 1000) { fail("life", "message %s reached the sink of life %u", idStr(e.a).c_str(), e.actor); return; }
            if (static_cast<int>(e.a & 0xffffffff) != n[e.actor]++) { fail("life", "life %u: message %s out of order", e.actor, idStr(e.a).c_str()); return; }
            if (late >= static_cast<int>(e.actor)) { fail("life", "message %s was delivered after the end of its life", idStr(e.a).c_str()); return; }
         }
         if (e.kind == DTOR) ++d[e.actor];
         if (e.kind == SHUTRET) late = static_cast<int>(e.actor);
      }
      for (int l = 0; l < lives; ++l) if (n[l] != per || d[l] != 1) { fail("life", "life %d of %d: %d of %d messages, sink destroyed %d times", l, lives, n[l], per, d[l]); break; }
      for (int l = 0; l < lives; ++l) {
         int want = 0;
         for (int x : strides()) want += l % x == 0;
         if (other[l] != want) { fail("life", "life %d of %d: %d of the messages of %d threads that had been silent for some lives arrived", l, lives, other[l], want); break; }
      }
      c.stat["lives"] += lives;
      c.stat["messages_logged"] += static_cast<double>(got);
      c.distinct(mix(lives) ^ c.idx);
      c.sample(fmt("%d life cycles, %llu messages", lives, (unsigned long long)got));
   }
};
VF_SCENARIO(P12, ManyLives, 0)
}  // namespace
