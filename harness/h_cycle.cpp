// P20: memory blocks, file descriptors and threads over repeated life cycles and repeated operations.
#include <csignal>
#include <dirent.h>
#include <sys/stat.h>
#include "common.hpp"
#include "g3log/active.hpp"
#include "g3log/future.hpp"
#include "g3log/shared_queue.hpp"
#include "g3log/filesink.hpp"
#include "g3log/loglevels.hpp"
#include "g3log/time.hpp"
using namespace cm;
using g3::LogWorker;
namespace {
enum : u32 { BYTES = 90 };
struct State { long alloc, fds, threads, bytes; };
State now() {
   State s;
   s.fds = fdCount();
   s.threads = threadCount();
   s.alloc = liveAllocs();
   s.bytes = liveBytes();
   return s;
}
// the same operations in every round: a quantity that grows by at least one per round accumulates
struct Accounting : Scenario {
   int rounds = 20, warm = 5;
   virtual const char* what() const = 0;
   virtual bool steadyBytes() const { return true; }
   void sample(int round) {
      State s = now();
      ev(MARK, 0, static_cast<u64>(round), static_cast<u64>(s.alloc), (static_cast<u64>(s.fds) << 32) | static_cast<u64>(s.threads));
      ev(BYTES, 0, static_cast<u64>(round), static_cast<u64>(s.bytes));
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::vector<State> v;
      u64 h = 1;
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind == MARK) v.push_back({static_cast<long>(e.b), static_cast<long>(e.c >> 32), static_cast<long>(e.c & 0xffffffff), 0});
         else if (e.kind == BYTES) { if (!v.empty()) v.back().bytes = static_cast<long>(e.b); }
         else h = mix(h * 31 + e.kind * 77 + e.actor + e.a);
      }
      if (static_cast<int>(v.size()) != rounds) { fail("leak", "only %zu rounds", v.size()); return; }
      const State &a = v[warm - 1], &b = v.back(), &m = v[(warm + rounds) / 2];
      long n = rounds - warm;
      auto grow = [&](long x, long y, long z, const char* q) {
         // one or more per round, in both halves
         if (z - x >= n && y - x >= n / 2 - 1) fail("leak", "%s over %ld %s: %ld -> %ld -> %ld", q, n, what(), x, y, z);
      };
      grow(a.alloc, m.alloc, b.alloc, "live memory blocks");
      grow(a.fds, m.fds, b.fds, "open file descriptors");
      grow(a.threads, m.threads, b.threads, "threads");
      // bytes: medians of the first, middle and last third after the warm-up, against block counts that hide a growing container
      auto med = [&](long from, long to) {
         std::vector<long> w;
         for (long i = from; i < to; ++i) w.push_back(v[i].bytes);
         std::sort(w.begin(), w.end());
         return w[w.size() / 2];
      };
      long b1 = med(warm, warm + n / 3), b2 = med(warm + n / 3, warm + 2 * n / 3), b3 = med(warm + 2 * n / 3, rounds);
      if (steadyBytes() && b2 > b1 && b3 > b2 && b3 - b1 >= 40 * n) fail("leak", "live bytes over %ld %s: %ld -> %ld -> %ld", n, what(), b1, b2, b3);
      if (steadyBytes()) c.stat["net_byte_growth"] += b3 - b1;
      c.distinct(h);
      c.stat["rounds"] += rounds;
      c.stat["net_block_growth"] += b.alloc - a.alloc;
      c.stat["net_fd_growth"] += b.fds - a.fds;
      c.sample(fmt("%d %s: blocks %ld -> %ld, descriptors %ld -> %ld, threads %ld -> %ld", rounds, what(), a.alloc, b.alloc, a.fds, b.fds, a.threads, b.threads));
   }
};
std::string briefDetails(const g3::LogMessage& m) { return m.level() + ": "; }
void removeLogs(const char* d) {
   for (auto& f : listDir(d)) unlink((std::string(d) + "/" + f).c_str());
}

struct LifeCycles : Accounting {
   int sinks = 1, files = 0, threads = 1, perThread = 1, calls = 0, fatals = 0, early = 0, hook = 0, removeSome = 0;
   u64 seed = 0;
   MsgProfile prof;
   const char* what() const override { return "life cycles"; }
   void prepare(Case& c) override {
      Rng& r = c.rng;
      sinks = r.range(0, 4);
      files = r.range(0, 2);
      threads = r.range(1, 3);
      perThread = r.pick({0, 1, 20, 60});
      calls = r.pick({0, 3, 10});
      fatals = r.pick({0, 0, 1, 2});
      early = r.pick({0, 0, 2});
      hook = r.range(0, 1);
      removeSome = r.range(0, 2);
      seed = r.next();
      prof.seed = r.next();
      prof.lenMode = r.range(0, 2);
      c.timeout = 40;
   }
   void round(int) {
      mkdir("logs", 0700);
      if (early) { LOG(INFO) << "early"; LOG(WARNING) << "early two"; }
      auto worker = LogWorker::createLogWorker();
      std::vector<std::unique_ptr<g3::SinkHandle<ObjSink>>> hs;
      for (int i = 0; i < sinks; ++i) hs.push_back(worker->addSink(std::make_unique<ObjSink>(i + 1), &ObjSink::recv));
      std::unique_ptr<g3::FileSinkHandle> fh;
      for (int i = 0; i < files; ++i) fh = worker->addDefaultLogger("pre" + std::to_string(i), "logs", i ? "id" : "");
      if (hook) g3::setFatalPreLoggingHook([] { LOG(INFO) << "hook"; });
      g3::initializeLogging(worker.get());
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) { ev(HOOK, 1, p.get()->message().size() > 0); });
      inThreads(threads, [this](int t) { for (int i = 0; i < perThread; ++i) logId(prof, mkId(t + 1, i), false); });
      std::vector<std::future<u64>> fs;
      for (int i = 0; i < calls && sinks; ++i) {
         fs.push_back(hs[0]->call(&ObjSink::echo, static_cast<u64>(i)));
         auto f = hs[0]->call(&ObjSink::throwing, static_cast<u64>(i));
         try { f.get(); } catch (const std::exception&) {} catch (int) {}
      }
      for (auto& f : fs) f.get();
      if (fh && calls) {
         fh->call(&g3::FileSink::overrideLogDetails, &briefDetails).get();
         fh->call(&g3::FileSink::changeLogFile, std::string("logs/"), std::string("next")).get();
         fh->call(&g3::FileSink::changeLogFile, std::string("no/such/dir/"), std::string("next")).get();
         fh->call(&g3::FileSink::fileName).get();
      }
      for (int i = 0; i < fatals; ++i) {
         CHECK(fatals < 0) << "broken " << i;
         LOG(FATAL) << "fatal " << i;
      }
      if (removeSome == 1 && sinks) { worker->removeSink(std::move(hs[0])); }
      if (removeSome == 2) worker->removeAllSinks();
      if (perThread % 2) hs.clear();
      worker.reset();
      g3::setFatalExitHandler(nullptr);
      if (!hs.empty() && hs[0]) try { hs[0]->call(&ObjSink::echo, 1ul).get(); } catch (const std::exception&) {}
      hs.clear();
      LOG(INFO) << "after shutdown";
      removeLogs("logs");
   }
   void child(Case&) override {
      gProf = prof;
      for (int i = 0; i < rounds; ++i) { round(i); sample(i); }
   }
};
VF_SCENARIO(P20, LifeCycles, 3)

struct WithinLife : Accounting {
   int kind = 0;
   u64 seed = 0;
   MsgProfile prof;
   bool tightFile = false;
   bool steadyBytes() const override { return tightFile; }
   const char* what() const override {
      static const char* names[] = {"sink additions and removals", "log statements in bursts", "file changes", "handle calls", "fatal events handled by the application", "inactive workers", "messages kept by a sink", "level and signal operations", "removeAllSinks", "formatted times", "truncated printf messages", "calls on removed and unusable handles", "statements whose operand throws, and handlers that throw", "level changes", "queues and tasks", "messages of a megabyte", "pre-fatal hooks and stateful handlers", "tasks without a runner and dropped futures", "kept sinks"};
      return names[kind];
   }
   void prepare(Case& c) override {
      kind = c.rng.range(0, 18);
      tightFile = c.rng.range(0, 3) > 0;
      seed = c.rng.next();
      rounds = 40;
      warm = 8;
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.range(0, 2);
      c.timeout = 40;
   }
   void child(Case& c) override {
      gProf = prof;
      mkdir("logs", 0700);
      auto worker = LogWorker::createLogWorker();
      auto steady = worker->addSink(std::make_unique<ObjSink>(1), &ObjSink::recv);
      // the write buffer of the default file sink grows until its first flush, after 100 messages
      auto file = tightFile ? worker->addSink(std::make_unique<g3::FileSink>("pre", "logs", "g3log", 1), &g3::FileSink::fileWrite) : worker->addDefaultLogger("pre", "logs");
      g3::initializeLogging(worker.get());
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) { ev(HOOK, 1, p.get()->toString().size() > 0); });
      std::vector<g3::LogMessage> kept;
      u64 id = 0;
      for (int i = 0; i < rounds; ++i) {
         int reps = 1 + static_cast<int>(seed % 3);
         for (int rep = 0; rep < reps; ++rep) switch (kind) {
            case 0: {
               auto h = worker->addSink(std::make_unique<ObjSink>(10), &ObjSink::recv);
               auto h2 = worker->addSink(std::make_unique<TextSink>(11), &TextSink::recv);
               for (int k = 0; k < 5; ++k) logId(prof, mkId(1, k), false);
               worker->removeSink(std::move(h));
               logId(prof, mkId(1, 7), false);
               worker->removeSink(std::move(h2));
               break;
            }
            case 1: for (int k = 0; k < 50; ++k) logId(prof, mkId(1, k), false); break;
            case 2:
               file->call(&g3::FileSink::changeLogFile, std::string("logs/"), std::string("i") + std::to_string(i % 4)).get();
               file->call(&g3::FileSink::changeLogFile, std::string("none/"), std::string("i")).get();
               logId(prof, mkId(1, 1), false);
               break;
            case 3: {
               steady->call(&ObjSink::strCall, id++, std::string(100, 'x'), std::vector<int>(50)).get();
               steady->call(&ObjSink::moveOnly, id).get();
               auto f = steady->call(&ObjSink::throwing, id);
               try { f.get(); } catch (const std::exception&) {} catch (int) {}
               steady->call(&ObjSink::voidCall, id);  // future dropped
               break;
            }
            case 4: CHECK(id == 12345) << "broken"; LOG(FATAL) << "fatal"; CHECKF(false, "%d", 5); break;
            case 5: { auto w = LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<ObjSink>(12), &ObjSink::recv); w.reset(); break; }
            case 6: { g3::LogMessage m("f.cpp", 1, "fn", INFO); m.write() = std::string(500, 'y'); g3::LogMessage n(m), o("x", 2, "z", WARNING); o = n; n = std::move(m); m = o; std::string s = m.toString(&g3::LogMessage::FullLogDetailsToString); ev(EXEC, 0, s.size() > 100); break; }
            case 7:
               g3::installCrashHandler();
               g3::overrideSetupSignals({{SIGSEGV, "SIGSEGV"}, {SIGFPE, "SIGFPE"}});
               g3::restoreSignalHandler(SIGSEGV);
               ev(EXEC, 0, g3::logLevel(INFO));
               break;
            case 8: {
               auto h = worker->addSink(std::make_unique<ObjSink>(10), &ObjSink::recv);
               logId(prof, mkId(1, 1), false);
               if (i == 0 && rep == 0) worker->removeSink(std::move(steady));
               worker->removeAllSinks();
               break;
            }
            case 9: {
               auto s = g3::localtime_formatted(std::chrono::system_clock::now(), "%Y %m %f3 %f6 %f %% " + std::string(1100, 'z'));
               ev(EXEC, 0, s.size());
               break;
            }
            case 10: {
               const std::string big(5000, 'p');
               for (int k = 0; k < 5; ++k) { LOGF(INFO, "%s%d", big.c_str(), k); LOGF_IF(WARNING, k >= 0, "%s", big.c_str()); }
               CHECKF(id == 12345, "%s", big.c_str());
               break;
            }
            case 11: {
               auto h = worker->addSink(std::make_unique<ObjSink>(10), &ObjSink::recv);
               auto h2 = std::make_unique<g3::SinkHandle<ObjSink>>(*h);
               auto weak = h->sink();
               worker->removeSink(std::move(h));
               for (int k = 0; k < 3; ++k) { auto f = h2->call(&ObjSink::echo, id); try { f.get(); } catch (const std::exception&) {} }
               worker->removeSink(std::move(h2));
               worker->removeSink(std::unique_ptr<g3::SinkHandle<ObjSink>>());
               ev(EXEC, 0, weak.expired());
               break;
            }
            case 12: {
               auto boom = []() -> int { throw std::runtime_error("operand"); };
               for (int k = 0; k < 3; ++k) try { LOG(INFO) << "x" << boom(); } catch (const std::exception&) {}
               g3::setFatalExitHandler([](g3::FatalMessagePtr) { throw std::runtime_error("handler"); });
               try { LOG(FATAL) << "fatal"; } catch (const std::exception&) {}
               try { CHECK(id == 12345) << "broken"; } catch (const std::exception&) {}
               break;
            }
            case 13: {
#ifdef G3_DYNAMIC_LOGGING
               namespace only = g3::only_change_at_initialization;
               for (int k = 0; k < 20; ++k) { LEVELS l(400 + k, "level number " + std::to_string(k)); only::addLogLevel(l, k % 2); g3::log_levels::set(l, k % 3); g3::log_levels::setHighest(l); ev(EXEC, 0, g3::logLevel(l)); g3::logLevel(LEVELS(2000000 + k, "unknown")); g3::log_levels::getStatus(LEVELS(3000000 + k, "unknown")); }
               g3::log_levels::enableAll();
               ev(EXEC, 0, g3::log_levels::to_string().size() > 100, g3::log_levels::getAll().size() > 3);
               if (i % 2) only::reset();
#endif
               break;
            }
            case 14: {
               auto a = kjellkod::Active::createActive();
               std::vector<std::future<std::string>> fs;
               for (int k = 0; k < 10; ++k) fs.push_back(g3::spawn_task([k]() -> std::string { if (k % 3 == 0) throw std::runtime_error("task"); return std::string(100, 't'); }, a.get()));
               if (i % 2) a.reset();
               for (auto& f : fs) try { f.get(); } catch (const std::exception&) {}
               shared_queue<std::string> q;
               for (int k = 0; k < 30; ++k) q.push(std::string(100, 'q'));
               std::string x;
               q.wait_and_pop(x);
               q.try_and_pop(x);
               break;
            }
            case 15: LOG(INFO) << std::string(1 << 20, 'm'); LOG(WARNING) << ""; break;
            case 16: {
               const std::string state(200, 's');
               for (int k = 0; k < 3; ++k) {
                  g3::setFatalPreLoggingHook([state] { ev(EXEC, 0, state.size()); });
                  g3::setFatalExitHandler([state](g3::FatalMessagePtr p) { ev(HOOK, 1, p.get()->toString().size() > state.size()); });
                  if (k) LOG(FATAL) << "fatal";
               }
               g3::setFatalPreLoggingHook([] {});
               break;
            }
            case 17: {
               kjellkod::Active* none = nullptr;
               for (int k = 0; k < 5; ++k) {
                  auto f = g3::spawn_task([]() -> std::string { return std::string(100, 'n'); }, none);
                  if (k % 2) try { f.get(); } catch (const std::exception&) {}
               }
               auto a = kjellkod::Active::createActive();
               for (int k = 0; k < 5; ++k) g3::spawn_task([]() -> std::string { return std::string(100, 'd'); }, a.get());
               break;
            }
            case 18: {
               auto h = worker->addSink(std::make_unique<ObjSink>(10), &ObjSink::recv);
               auto held = h->sink().lock();
               logId(prof, mkId(1, 1), false);
               worker->removeSink(std::move(h));
               logId(prof, mkId(1, 2), false);
               held->async(&ObjSink::echo, id).get();
               break;
            }
         }
         // everything sent so far is processed
         if (steady) { steady->call(&ObjSink::echo, id).get(); }
         if (kind == 12) g3::setFatalExitHandler([](g3::FatalMessagePtr p) { ev(HOOK, 1, p.get()->toString().size() > 0); });
         if (kind != 8) file->call(&g3::FileSink::fileName).get();
         double t0 = nowS();
         auto settle = now();
         while (nowS() - t0 < 0.02) { sleepUs(500); auto s = now(); if (s.alloc == settle.alloc && nowS() - t0 > 0.002) break; settle = s; }
         sample(i);
      }
      g3::setFatalExitHandler(nullptr);
      worker.reset();
      (void)c;
   }
};
VF_SCENARIO(P20, WithinLife, 3)
}  // namespace
