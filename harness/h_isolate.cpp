// P10 P28: sink isolation and serialization, shutdown
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
#include "common.hpp"
#include "g3log/filesink.hpp"
using namespace vf;
using namespace cm;
using g3::LogWorker;

namespace {
// P10 ---------------------------------------------------------------------------------
struct Isolation : Scenario {
   int threads, perThread, sinks, blocked, callers;
   MsgProfile prof;
   void prepare(Case& c) override {
      threads = c.rng.range(1, 6);
      perThread = c.rng.chance(1, 10) ? c.rng.range(2000, 8000) : c.rng.range(20, 400);
      if (kTsan || kAsan) perThread = std::min(perThread, 300);
      sinks = c.rng.range(2, 7);
      blocked = c.rng.range(1, sinks - 1);
      callers = c.rng.range(0, 3);
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.pick({0, 1});
      c.timeout = 12;
   }
   void child(Case& c) override {
      gProf = prof;
      spurious(c.rng.pick({0, 100}));
      Gate gate;
      gate.close();
      std::vector<u32> order;
      for (int i = 0; i < sinks; ++i) order.push_back(i);
      c.rng.shuffle(order);   // blocked sinks anywhere in the list
      auto w = LogWorker::createLogWorker();
      std::vector<std::unique_ptr<g3::SinkHandle<ObjSink>>> hs(sinks);
      std::vector<const SinkBase*> raw(sinks);
      for (u32 i : order) {
         auto s = std::make_unique<ObjSink>(i, static_cast<int>(i) < blocked ? 0 : c.rng.pick({0, 0, 1}), static_cast<int>(i) < blocked ? &gate : nullptr);
         raw[i] = s.get();
         hs[i] = w->addSink(std::move(s), &ObjSink::recv);
      }
      g3::initializeLogging(w.get());
      std::vector<std::thread> ct;
      std::atomic<bool> stop{false};
      for (int k = 0; k < callers; ++k)
         ct.emplace_back([&, k] {
            std::vector<std::future<u64>> fs;
            for (int j = 0; j < 150 && !stop; ++j) {
               int target = (j + k) % sinks;
               fs.push_back(hs[target]->call(&ObjSink::echo, static_cast<u64>(k * 1000 + j)));
               if (target >= blocked && j % 8 == 0) fs.back().wait();
               sleepUs(60);
            }
         });
      inThreads(threads, [&](int t) {
         ev(MARK, t, 5, 0, tid());
         for (int s = 0; s < perThread; ++s) logId(prof, mkId(t, s), false);
      });
      // all LOG statements returned while the gate is closed; the other sinks must get everything
      ev(MARK, 0, 1);
      for (int i = blocked; i < sinks; ++i)
         while (raw[i]->received.load(std::memory_order_relaxed) < static_cast<u64>(threads) * perThread) shortWait();
      ev(MARK, 0, 2);
      stop = true;
      gate.release();
      for (auto& t : ct) t.join();
      ev(MARK, 9, 5, 0, tid());
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::map<u64, std::set<u32>> byTid;
      std::map<u32, std::set<u64>> tids;
      std::set<u64> callerTids;
      u64 n = eventCount(), rx = 0, allDone = 0;
      for (u64 i = 0; i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == RECV || e.kind == EXEC) { byTid[e.c].insert(e.actor); tids[e.actor].insert(e.c); ++rx; }
         if (e.kind == MARK && e.a == 5) callerTids.insert(e.c);
         if (e.kind == MARK && e.a == 2) allDone = i;
      }
      // a blocked sink is stuck in its first call: nothing is recorded by it before the gate opens
      for (u64 i = 0; i < allDone; ++i)
         if (event(i).kind == RECV && static_cast<int>(event(i).actor) < blocked) { fail("monitor", "blocked sink passed its gate"); break; }
      for (auto& s : tids) if (s.second.size() != 1) fail("thread", "sink %u was called on %zu different threads", s.first, s.second.size());
      for (auto& s : byTid) {
         if (s.second.size() != 1) fail("thread", "one thread serves %zu sinks", s.second.size());
         if (callerTids.count(s.first)) fail("thread", "a sink was called on a logging thread");
      }
      c.stat["sink_calls_checked"] += rx;
      c.distinct(mix(threads * 1000003ull + perThread) ^ mix(blocked * 131 + sinks + callers * 7));
      c.sample(fmt("%d loggers x %d messages, %d of %d sinks blocked, %d handle callers, %llu calls", threads, perThread, blocked, sinks, callers, (unsigned long long)rx));
   }
};
VF_SCENARIO(P10, Isolation, 4)

// the ways in which a sink can be stuck, next to every other kind of sink
Gate gStuck;
std::string stuckDetails(const g3::LogMessage& m) { gStuck.pass(); return m.level() + ": "; }
struct FormatSink {
   u64 n = 0;
   bool stuck;
   explicit FormatSink(bool s) : stuck(s) {}
   void recv(g3::LogMessageMover m) {
      std::string t = m.get().toString(stuck ? &stuckDetails : &g3::LogMessage::FullLogDetailsToString);
      if (t.find("message ") != t.npos) ++n;
   }
   u64 get() { return n; }
   void sit() { gStuck.pass(); }
};
struct LineSink {
   u64 n = 0;
   bool stuck;
   explicit LineSink(bool s) : stuck(s) {}
   void recv(std::string t) { if (stuck) gStuck.pass(); if (t.find("message ") != t.npos) ++n; }
   u64 get() { return n; }
};
struct StuckKinds : Scenario {
   enum { RECEIVE, FORMAT, DETAILS, CALL, TEXT_, FIFO, CHANGE_FIFO, KINDS };
   std::vector<int> kinds;
   int threads, perThread, frees;
   bool pad;
   void prepare(Case& c) override {
      kinds.resize(c.rng.range(1, 3));
      for (auto& k : kinds) k = c.rng.below(KINDS);
      threads = c.rng.range(1, 4);
      perThread = c.rng.range(5, 120);
      frees = c.rng.range(1, 3);
      pad = c.rng.chance(1, 2);
      c.timeout = 15;
   }
   static std::vector<int> fifos(const std::string& prefix) {
      std::vector<int> fds;
      for (int d = -1; d < 6; ++d) {
         time_t t = time(nullptr) + d;
         struct tm tm;
         localtime_r(&t, &tm);
         char buf[64];
         strftime(buf, sizeof(buf), "%Y%m%d-%H%M%S", &tm);
         std::string n = "logs/" + prefix + ".id." + buf + ".log";
         if (mkfifo(n.c_str(), 0600) == 0) fds.push_back(open(n.c_str(), O_RDWR | O_NONBLOCK));
      }
      return fds;
   }
   void child(Case& c) override {
      mkdir("logs", 0700);
      gStuck.close();
      std::atomic<bool> drain{false}, over{false};
      auto w = LogWorker::createLogWorker();
      std::vector<std::unique_ptr<g3::SinkHandle<FormatSink>>> stuckF, freeF;
      std::vector<std::unique_ptr<g3::SinkHandle<LineSink>>> stuckL, freeL;
      std::vector<std::unique_ptr<g3::FileSinkHandle>> stuckS, freeS;
      std::vector<int> fds;
      struct Add { bool stuck; int kind; };
      std::vector<Add> adds;
      for (int k : kinds) adds.push_back({true, k});
      for (int i = 0; i < frees; ++i) for (int k = 0; k < 3; ++k) adds.push_back({false, k});
      c.rng.shuffle(adds);
      int num = 0;
      for (auto& a : adds) {
         std::string pre = "p" + std::to_string(num++);
         if (!a.stuck) {
            if (a.kind == 0) freeF.push_back(w->addSink(std::make_unique<FormatSink>(false), &FormatSink::recv));
            if (a.kind == 1) freeL.push_back(w->addSink(std::make_unique<LineSink>(false), &LineSink::recv));
            if (a.kind == 2) freeS.push_back(w->addSink(std::make_unique<g3::FileSink>(pre, "logs", "free", 1), &g3::FileSink::fileWrite));
            continue;
         }
         switch (a.kind) {
         case RECEIVE: case TEXT_: stuckL.push_back(w->addSink(std::make_unique<LineSink>(true), &LineSink::recv)); break;
         case FORMAT: stuckF.push_back(w->addSink(std::make_unique<FormatSink>(true), &FormatSink::recv)); break;
         case CALL: stuckF.push_back(w->addSink(std::make_unique<FormatSink>(false), &FormatSink::recv)); stuckF.back()->call(&FormatSink::sit); break;
         case DETAILS: stuckS.push_back(w->addSink(std::make_unique<g3::FileSink>(pre, "logs", "id", 1), &g3::FileSink::fileWrite)); stuckS.back()->call(&g3::FileSink::overrideLogDetails, &stuckDetails); break;
         case FIFO: { auto f = fifos(pre); fds.insert(fds.end(), f.begin(), f.end()); stuckS.push_back(w->addSink(std::make_unique<g3::FileSink>(pre, "logs", "id", 1), &g3::FileSink::fileWrite)); break; }
         case CHANGE_FIFO: {
            // a change to a new file blocks: nobody has opened the other end yet
            stuckS.push_back(w->addSink(std::make_unique<g3::FileSink>(pre, "logs", "old", 1), &g3::FileSink::fileWrite));
            auto f = fifos(pre);
            for (int d : f) close(d);
            stuckS.back()->call(&g3::FileSink::changeLogFile, std::string("logs/"), std::string("id"));
            break;
         }
         }
      }
      // opened for good at the end: whatever a sink writes to a fifo is read
      std::thread reader([&] {
         std::vector<char> buf(1 << 16);
         bool opened = false;
         while (!over.load(std::memory_order_relaxed)) {
            if (drain.load(std::memory_order_relaxed)) {
               if (!opened) {
                  opened = true;
                  for (auto& f : listDir("logs")) {
                     struct stat st;
                     std::string n = "logs/" + f;
                     if (stat(n.c_str(), &st) == 0 && S_ISFIFO(st.st_mode)) fds.push_back(open(n.c_str(), O_RDWR | O_NONBLOCK));
                  }
               }
               for (int d : fds) while (read(d, buf.data(), buf.size()) > 0) {}
            }
            sleepUs(200);
         }
      });
      g3::initializeLogging(w.get());
      const std::string padding(pad ? 9000 : 0, '.');
      inThreads(threads, [&](int t) {
         for (int s = 0; s < perThread; ++s) LOG(INFO) << "message " << t << " " << s << padding;
      });
      const u64 total = static_cast<u64>(threads) * perThread;
      ev(MARK, 0, 1);
      // every LOG statement has returned; the sinks that are not stuck get everything and answer
      auto lines = [](const std::string& f) { std::string t = readFile(f); u64 n = 0; for (size_t p = 0; (p = t.find("message ", p)) != t.npos; ++p) ++n; return n; };
      // the worker has its queue to empty: asked until the number is reached, for ten seconds
      auto settle = [&](auto get, u64 expect) {
         u64 n = get();
         for (double t0 = nowS(); n < expect && nowS() - t0 < 10; n = get()) sleepUs(500);
         return n;
      };
      auto checkAll = [&](u64 expect, const char* when) {
         for (auto& h : freeF) { u64 n = settle([&] { return h->call(&FormatSink::get).get(); }, expect); if (n != expect) fail("loss", "%s: a formatting sink has %llu of %llu messages", when, (unsigned long long)n, (unsigned long long)expect); }
         for (auto& h : freeL) { u64 n = settle([&] { return h->call(&LineSink::get).get(); }, expect); if (n != expect) fail("loss", "%s: a text sink has %llu of %llu messages", when, (unsigned long long)n, (unsigned long long)expect); }
         for (auto& h : freeS) { u64 n = settle([&] { return lines(h->call(&g3::FileSink::fileName).get()); }, expect); if (n != expect) fail("loss", "%s: a file has %llu of %llu messages", when, (unsigned long long)n, (unsigned long long)expect); }
      };
      // the worker serves sink changes, too
      auto late = w->addSink(std::make_unique<LineSink>(false), &LineSink::recv);
      checkAll(total, "others stuck");
      LOG(WARNING) << "message for all";
      auto late2 = w->addSink(std::make_unique<FormatSink>(false), &FormatSink::recv);
      if (u64 n = settle([&] { return late->call(&LineSink::get).get(); }, 1); n != 1) fail("loss", "the sink added meanwhile has %llu of 1 messages", (unsigned long long)n);
      w->removeSink(std::move(late));
      checkAll(total + 1, "others stuck, after changes of sinks");
      if (g3::LogMessage("f", 1, "g", INFO).toString().empty()) fail("format", "empty");
      ev(MARK, 0, 2, freeF.size() + freeL.size() + freeS.size());
      drain = true;
      gStuck.release();
      for (auto& h : stuckF) { u64 n = settle([&] { return h->call(&FormatSink::get).get(); }, total + 1); if (n != total + 1) fail("loss", "a sink that was stuck has %llu of %llu messages", (unsigned long long)n, (unsigned long long)total + 1); }
      for (auto& h : stuckL) { u64 n = settle([&] { return h->call(&LineSink::get).get(); }, total + 1); if (n != total + 1) fail("loss", "a sink that was stuck has %llu of %llu messages", (unsigned long long)n, (unsigned long long)total + 1); }
      for (auto& h : stuckS) h->call(&g3::FileSink::fileName).get();
      w.reset();
      over = true;
      reader.join();
      ev(MARK, 0, 3);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      u64 end = 0, freeSinks = 0, h = 7;
      for (u64 i = 0, n = eventCount(); i < n; ++i) {
         if (event(i).kind == MARK && event(i).a == 3) end = 1;
         if (event(i).kind == MARK && event(i).a == 2) freeSinks = event(i).b;
      }
      if (!end) fail("monitor", "the end was not reached");
      static const char* names[] = {"receiving", "formatting", "a details function of a file sink", "a handle call", "receiving text", "writing to a full pipe", "opening a file"};
      std::string t;
      for (int k : kinds) { h = mix(h + k); t += std::string(t.empty() ? "" : ", ") + names[k]; c.stat["stuck in " + std::string(names[k])] += 1; }
      c.stat["free_sinks_checked"] += freeSinks;
      c.distinct(mix(h + threads * 1000 + perThread * 10 + frees));
      c.sample("stuck in: " + t + fmt("; %llu other sinks received all %d messages", (unsigned long long)freeSinks, threads * perThread + 1));
   }
};
VF_SCENARIO(P10, StuckKinds, 2)

// many threads use the handle API and log at the same time: no overlap inside a sink
struct Overlap : Scenario {
   int callers, loggers, sinks, n;
   MsgProfile prof;
   void prepare(Case& c) override { callers = c.rng.range(1, 5); loggers = c.rng.range(1, 4); sinks = c.rng.range(1, 4); n = c.rng.range(50, kTsan ? 150 : 400); prof.seed = c.rng.next(); }
   void child(Case& c) override {
      gProf = prof;
      spurious(c.rng.pick({0, 200}));
      auto w = LogWorker::createLogWorker();
      std::vector<std::unique_ptr<g3::SinkHandle<ObjSink>>> hs;
      for (int i = 0; i < sinks; ++i) hs.push_back(w->addSink(std::make_unique<ObjSink>(i, c.rng.pick({0, 1})), &ObjSink::recv));
      g3::initializeLogging(w.get());
      inThreads(callers + loggers, [&](int t) {
         if (t < loggers) { ev(MARK, t, 5, 0, tid()); for (int s = 0; s < n; ++s) logId(prof, mkId(t, s)); }
         else {
            ev(MARK, t, 5, 0, tid());
            std::vector<std::future<u64>> fs;
            for (int s = 0; s < n; ++s) fs.push_back(hs[(s + t) % sinks]->call(&ObjSink::echo, mkId(t, s)));
            for (auto& f : fs) f.get();
         }
      });
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::map<u32, std::set<u64>> tids;
      std::map<u64, std::set<u32>> byTid;
      u64 rx = 0;
      for (u64 i = 0, m = eventCount(); i < m; ++i) {
         const Event& e = event(i);
         if (e.kind == RECV || e.kind == EXEC) { tids[e.actor].insert(e.c); byTid[e.c].insert(e.actor); ++rx; }
         if (e.kind == MARK && e.a == 5) byTid[e.c].insert(99999);
      }
      for (auto& s : tids) if (s.second.size() != 1) fail("thread", "sink %u was called on %zu different threads", s.first, s.second.size());
      for (auto& s : byTid) if (s.second.size() > 1) fail("thread", "a background thread is shared (%zu users)", s.second.size());
      Trace t;
      c.stat["sink_calls_checked"] += rx;
      c.distinct(orderHash(t.rx[0]));
      c.sample(fmt("%d callers, %d loggers, %d sinks: %llu sink calls", callers, loggers, sinks, (unsigned long long)rx));
   }
};
VF_SCENARIO(P10, Overlap, 2)

// P28 -------------------------------------------------------------------------------------
struct Shutdown : Scenario {
   int cycles, sinksMax, msgs;
   u64 seed;
   MsgProfile prof;
   void prepare(Case& c) override { cycles = c.rng.range(1, kTsan || kAsan ? 8 : 25); sinksMax = c.rng.pick({1, 2, 4, 9, 30}); msgs = c.rng.pick({0, 1, 5, 50, 400, 2000}); if (sinksMax > 9) cycles = std::min(cycles, 4); seed = c.rng.next(); prof.seed = seed; }
   void child(Case& c) override {
      gProf = prof;
      Rng r(seed);
      const long base = threadCount();
      for (int k = 0; k < cycles; ++k) {
         spurious(r.pick({0, 0, 100, 600}));
         int sinks = r.range(0, sinksMax), loggers = r.range(0, 3);
         Gate gate;
         bool gated = r.chance(1, 4), init = r.chance(5, 6), callsDuring = r.chance(1, 3), keep = r.chance(1, 4), removed = r.chance(1, 4);
         if (gated) gate.close();
         auto w = LogWorker::createLogWorker();
         std::vector<std::unique_ptr<g3::SinkHandle<ObjSink>>> hs;
         std::shared_ptr<g3::internal::Sink<ObjSink>> kept;
         u32 keptId = 0;
         for (int i = 0; i < sinks; ++i) {
            u32 id = k * 100 + i;
            ev(ADDRET, id);
            hs.push_back(w->addSink(std::make_unique<ObjSink>(id, r.pick({0, 0, 1}), &gate), &ObjSink::recv));
         }
         if (init) g3::initializeLogging(w.get());
         if (init) inThreads(loggers, [&](int t) { for (int s = 0; s < msgs; ++s) logId(prof, mkId(k * 10 + t, s), false); });
         if (keep && sinks) { keptId = k * 100 + static_cast<u32>(r.below(sinks)); kept = hs[keptId - k * 100]->sink().lock(); ev(MARK, keptId, 1); }
         std::vector<std::future<u64>> fs;
         std::thread caller, opener;
         std::atomic<bool> stop{false};
         if (callsDuring && sinks)
            caller = std::thread([&] { for (int j = 0; j < 400 && !stop.load(std::memory_order_relaxed); ++j) { fs.push_back(hs[j % sinks]->call(&ObjSink::echo, static_cast<u64>(j))); sleepUs(10); } });
         else if (removed && sinks && !gated) {
            std::unique_ptr<g3::SinkHandle<ObjSink>> copy = std::make_unique<g3::SinkHandle<ObjSink>>(*hs[0]);
            w->removeSink(std::move(copy));
         }
         if (gated) opener = std::thread([&] { sleepUs(1500); gate.release(); });
         ev(SHUTCALL, k);
         w.reset();
         ev(SHUTRET, k, callsDuring);
         stop = true;
         if (caller.joinable()) caller.join();
         ev(MARK, k, 4, callsDuring);
         if (opener.joinable()) opener.join();
         for (auto& f : fs) { try { f.get(); } catch (const std::bad_weak_ptr&) {} catch (const std::exception& e) { fail("future", "call during shutdown: %s", e.what()); } }
         for (auto& h : hs) {   // handles outlive the logger
            if (kept && h->sink().lock() == kept) continue;
            auto f = h->call(&ObjSink::echo, 5);
            try { f.get(); fail("zombie", "a sink was still alive after the logger's destruction"); } catch (const std::bad_weak_ptr&) {}
         }
         if (kept) {
            auto f = hs[keptId - k * 100]->call(&ObjSink::echo, 9);
            if (f.get() != 28) fail("kept", "a sink kept alive by the application does not work any more");
            ev(MARK, keptId, 3);
            kept.reset();
            ev(MARK, keptId, 2);
         }
         // the threads the logger started have ended (the kernel may show a joined one for an instant)
         long now = threadCount();
         if (kTsan) now = base;  // the sanitizer has a thread of its own
         for (int i = 0; i < 100000 && now > base; ++i) { sleepUs(100); now = threadCount(); }
         if (now > base) fail("threads", "%ld background threads left after the logger was destroyed", now - base);
      }
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::map<u32, u64> added, dtor, keptFrom, keptTo, last;
      std::map<u32, int> nd;
      std::map<u32, u64> shut;
      for (u64 i = 0, n = eventCount(); i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == ADDRET) added[e.actor] = i;
         if (e.kind == DTOR) { dtor[e.actor] = i; nd[e.actor]++; if (e.b) fail("destroy", "sink %u was destroyed while a call ran in it", e.actor); }
         if (e.kind == RECV || e.kind == EXEC) last[e.actor] = i;
         if (e.kind == MARK && e.a == 1) keptFrom[e.actor] = i;
         if (e.kind == MARK && e.a == 3) keptTo[e.actor] = i;
         // a handle call in progress may keep the sink for its duration
         if (e.kind == MARK && e.a == 4 && e.b) shut[e.actor] = i;
         if (e.kind == SHUTRET) shut[e.actor] = i;
      }
      for (auto& a : added) {
         u32 s = a.first;
         if (nd[s] != 1) { fail("destroy", "sink %u was destroyed %d times", s, nd[s]); continue; }
         if (last.count(s) && last[s] > dtor[s]) fail("destroy", "sink %u was called after its destruction", s);
         if (!keptFrom.count(s) && dtor[s] > shut[s / 100]) fail("destroy", "sink %u outlived the logger", s);
         if (keptFrom.count(s) && dtor[s] < keptTo[s]) fail("destroy", "sink %u was destroyed while the application held it", s);
      }
      c.stat["shutdowns"] += cycles;
      c.stat["sinks_destroyed"] += added.size();
      u64 h = 1;
      for (auto& d : dtor) h = mix(h ^ (d.first * 31 + last[d.first] % 64));
      c.distinct(h);
      c.sample(fmt("%d logger life cycles, up to %d sinks, %d messages per thread, %zu sinks", cycles, sinksMax, msgs, added.size()));
   }
};
VF_SCENARIO(P28, Shutdown, 5)

// ---- extremes ----------------------------------------------------------------------------
// a sink that is blocked for a long time, or has a very long backlog, while the others work
struct LongBlock : Scenario {
   double T = 65;
   u64 bulk = 0;
   void prepare(Case& c) override {
      if (c.idx % 2) { bulk = gThorough ? 1000000 : 290000; T = 0; }
      else if (gThorough && c.idx % 4 == 2) T = 130;
      c.timeout = 60 + T;
   }
   void child(Case&) override {
      perturb(0, 1);
      Gate gate;
      gate.close();
      struct Counter {
         std::atomic<u64>* n;
         void recv(g3::LogMessageMover) { n->fetch_add(1, std::memory_order_relaxed); }
         u64 echo(u64 v) { return v; }
      };
      struct Blocked {
         Gate* g;
         u64 n = 0;
         void recv(g3::LogMessageMover) { g->pass(); ++n; }
         u64 get() { return n; }
      };
      std::atomic<u64> got{0};
      auto w = LogWorker::createLogWorker();
      auto b = std::make_unique<Blocked>();
      b->g = &gate;
      auto hb = w->addSink(std::move(b), &Blocked::recv);
      auto cn = std::make_unique<Counter>();
      cn->n = &got;
      auto hc = w->addSink(std::move(cn), &Counter::recv);
      g3::initializeLogging(w.get());
      u64 sent = 0;
      auto pending = hb->call(&Blocked::get);   // queued before the first message: never delayed
      (void)pending;
      const double t0 = nowS();
      double slowestLog = 0, slowestEcho = 0;
      u64 calls = 0;
      std::vector<std::future<u64>> fs;
      do {
         double a = nowS();
         LOG(INFO) << "message " << sent;
         ++sent;
         slowestLog = std::max(slowestLog, nowS() - a);
         if (!bulk) {
            while (got.load(std::memory_order_relaxed) < sent) shortWait();   // hangs if the blocked sink is waited for
            if (sent % 10 == 0) { a = nowS(); hc->call(&Counter::echo, sent).get(); slowestEcho = std::max(slowestEcho, nowS() - a); fs.push_back(hb->call(&Blocked::get)); ++calls; }
            sleepUs(10000);
         }
      } while (bulk ? sent < bulk : nowS() - t0 < T);
      while (got.load(std::memory_order_relaxed) < sent) shortWait();
      ev(MARK, 1, sent, static_cast<u64>(slowestLog * 1e6), static_cast<u64>(slowestEcho * 1e6));
      for (auto& f : fs) if (f.wait_for(std::chrono::seconds(0)) == std::future_status::ready) { fail("serial", "a call of a blocked sink was executed"); break; }
      gate.release();
      u64 n = hb->call(&Blocked::get).get();
      ev(MARK, 2, n);
      u64 last = 0;
      for (auto& f : fs) { u64 v = f.get(); if (v < last || v > n) fail("serial", "calls out of order: %llu after %llu", (unsigned long long)v, (unsigned long long)last); last = v; }
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      u64 sent = 0, n = 0, slow = 0;
      for (u64 i = 0, m = eventCount(); i < m; ++i) {
         if (event(i).kind == MARK && event(i).actor == 1) { sent = event(i).a; slow = event(i).b; }
         if (event(i).kind == MARK && event(i).actor == 2) n = event(i).a;
      }
      if (!sent || n != sent) fail("loss", "the blocked sink received %llu of %llu messages", (unsigned long long)n, (unsigned long long)sent);
      c.stat["messages_past_a_blocked_sink"] += sent;
      c.stat["slowest_log_us"] = std::max<double>(c.stat["slowest_log_us"], slow);
      c.distinct(mix(sent));
      c.sample(fmt("one sink blocked for %.0f s / %llu messages: the other one received all %llu meanwhile, slowest LOG %llu us", T, (unsigned long long)bulk, (unsigned long long)sent, (unsigned long long)slow));
   }
};
VF_SCENARIO(P10, LongBlock, 0)

// shutdown with a very long backlog of messages and calls
struct HugeShutdown : Scenario {
   u64 per;
   void prepare(Case& c) override { per = gThorough ? 500000 : 140000; c.timeout = 90; }
   void child(Case&) override {
      perturb(0, 1);
      Gate gate;
      gate.close();
      const long base = threadCount();
      struct S {
         Gate* g;
         u32 id;
         u64 n = 0, calls = 0, bad = 0;
         ~S() { ev(DTOR, id, n, calls, bad); }
         void recv(g3::LogMessageMover m) { g->pass(); if (m.get().message() != std::to_string(n)) ++bad; ++n; }
         u64 call(u64 v) { if (v != calls) ++bad; ++calls; return v; }
      };
      auto w = LogWorker::createLogWorker();
      std::vector<std::unique_ptr<g3::SinkHandle<S>>> hs;
      for (u32 i = 0; i < 3; ++i) { auto s = std::make_unique<S>(); s->g = &gate; s->id = i; hs.push_back(w->addSink(std::move(s), &S::recv)); }
      g3::initializeLogging(w.get());
      std::vector<std::future<u64>> fs;
      for (u64 i = 0; i < per; ++i) {
         LOG(INFO) << i;
         if (i % 2 == 0) fs.push_back(hs[0]->call(&S::call, i / 2));
      }
      std::thread op([&] { sleepUs(100000); gate.release(); });
      ev(SHUTCALL, 0);
      w.reset();
      ev(SHUTRET, 0);
      op.join();
      for (u64 i = 0; i < fs.size(); ++i) {
         if (fs[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready) { fail("future", "call %llu not resolved after shutdown", (unsigned long long)i); break; }
         if (fs[i].get() != i) { fail("future", "call %llu has a wrong result", (unsigned long long)i); break; }
      }
      long now = threadCount();
      for (int i = 0; i < 100000 && now > base && !kTsan; ++i) { sleepUs(100); now = threadCount(); }
      if (now > base && !kTsan) fail("threads", "%ld background threads left", now - base);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      int d = 0;
      u64 shut = 0;
      for (u64 i = 0, n = eventCount(); i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == SHUTRET) shut = i;
         if (e.kind != DTOR) continue;
         ++d;
         if (e.a != per || e.b != (e.actor == 0 ? per / 2 : 0) || e.c) fail("loss", "sink %u with a backlog of %llu messages processed %llu messages and %llu calls before it was destroyed, %llu of them out of order", e.actor, (unsigned long long)per, (unsigned long long)e.a, (unsigned long long)e.b, (unsigned long long)e.c);
         if (shut) fail("destroy", "sink %u outlived the logger", e.actor);
      }
      if (d != 3) fail("destroy", "%d of 3 sinks destroyed", d);
      c.stat["backlog"] += per * 3;
      c.distinct(c.idx + 5);
      c.sample(fmt("3 sinks with %llu messages each and %llu calls pending", (unsigned long long)per, (unsigned long long)per / 2));
   }
};
VF_SCENARIO(P28, HugeShutdown, 0)
VF_SCENARIO(P11, HugeShutdown, 0)
}  // namespace
