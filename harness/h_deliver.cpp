// P01 P02 P09: delivery, order, sink windows
#include "common.hpp"
using namespace vf;
using namespace cm;
using g3::LogWorker;

namespace {
struct Plan {
   int threads, perThread, sinks, lifecycles;
   MsgProfile prof;
   std::vector<int> kind;   // 0 object, 1 text, 2 free callable
   std::vector<int> slow;
   std::vector<int> mutate;
   int gated;               // number of sinks blocked until all messages are logged
   bool drainInDtor;        // destroy the logger with everything still queued
   bool burstPause;
   std::string str() const {
      return fmt("threads=%d msgs/thread=%d sinks=%d lifecycles=%d lenMode=%d binary=%d gated=%d drainInDtor=%d", threads, perThread, sinks, lifecycles, prof.lenMode, prof.binary, gated, drainInDtor);
   }
};
Plan makePlan(Rng& r) {
   Plan p;
   p.threads = r.pick({1, 2, 3, 4, 6, 8, 12});
   p.sinks = r.pick({1, 1, 2, 2, 3, 4, 5, 8, 17});
   if (r.chance(1, 60)) p.sinks = r.range(30, 140);
   p.perThread = r.chance(1, 12) ? r.range(1, 4) : r.range(20, 500);
   p.prof.seed = r.next();
   p.prof.lenMode = r.pick({0, 0, 1, 1, 1, 2, 3, 4});
   p.prof.binary = r.chance(1, 4);
   p.lifecycles = r.chance(1, 5) ? r.range(2, 5) : 1;
   p.gated = r.chance(1, 3) ? r.range(1, p.sinks) : 0;
   p.drainInDtor = r.chance(1, 2);
   p.burstPause = r.chance(1, 3);
   if (p.prof.lenMode >= 2) p.perThread = std::min(p.perThread, 120);
   if (p.prof.lenMode == 3 && r.chance(1, 6)) { p.prof.maxLen = 3 << 20; p.perThread = std::min(p.perThread, 12); p.threads = std::min(p.threads, 3); }
   if (r.chance(1, 30)) { p.perThread = r.range(5000, 30000) / p.threads * 2; p.prof.lenMode = 0; p.sinks = std::min(p.sinks, 3); p.gated = std::min(p.gated, p.sinks); }
   if (gThorough && r.chance(1, 60)) { p.perThread = 150000 / p.threads; p.prof.lenMode = 4; p.sinks = std::min(p.sinks, 2); p.gated = p.sinks; p.lifecycles = 1; }
   long budget = 60000;
   if (kTsan || kAsan) budget = 12000;
   while (static_cast<long>(p.threads) * p.perThread * p.sinks * p.lifecycles > budget * 4 && p.sinks > 20) p.perThread = std::max(1, p.perThread / 2);
   if (kTsan || kAsan)
      while (static_cast<long>(p.threads) * p.perThread * p.sinks * p.lifecycles > budget && p.perThread > 2) p.perThread /= 2;
   for (int i = 0; i < p.sinks; ++i) {
      p.kind.push_back(r.pick({0, 0, 1, 1, 2}));
      p.slow.push_back(r.pick({0, 0, 0, 1, 1, 2}));
      p.mutate.push_back(r.chance(1, 3));
   }
   if (p.threads * p.perThread > 3000) for (auto& s : p.slow) if (s == 2) s = 1;
   return p;
}
struct AnyHandle {
   std::unique_ptr<g3::SinkHandle<ObjSink>> o;
   std::unique_ptr<g3::SinkHandle<TextSink>> t;
   std::unique_ptr<g3::SinkHandle<ConstRefSink>> f;
   void removeFrom(LogWorker& w) {
      if (o) w.removeSink(std::move(o));
      if (t) w.removeSink(std::move(t));
      if (f) w.removeSink(std::move(f));
   }
};
AnyHandle addKind(LogWorker& w, int kind, u32 id, int slow, Gate* g, bool mut) {
   AnyHandle h;
   if (kind == 0) h.o = w.addSink(std::make_unique<ObjSink>(id, slow, g, mut), &ObjSink::recv);
   else if (kind == 1) h.t = w.addSink(std::make_unique<TextSink>(id, slow, g, mut), &TextSink::recv);
   else h.f = w.addSink(std::make_unique<ConstRefSink>(id, slow, g, mut), FreeCall{});
   return h;
}

struct Deliver : Scenario {
   Plan p;
   bool order;
   explicit Deliver(bool o) : order(o) {}
   void prepare(Case& c) override { p = makePlan(c.rng); if (order) { p.gated = std::min(p.gated, std::max(0, p.sinks - 1)); p.lifecycles = 1; } }
   void child(Case& c) override {
      gProf = p.prof;
      Gate gate;
      spurious(c.rng.pick({0, 0, 50, 400}));
      for (int life = 0; life < p.lifecycles; ++life) {
         auto w = LogWorker::createLogWorker();
         if (p.gated) gate.close();
         std::vector<AnyHandle> hs;
         for (int i = 0; i < p.sinks; ++i)
            hs.push_back(addKind(*w, p.kind[i], life * 1000 + i, p.slow[i], i < p.gated ? &gate : nullptr, p.mutate[i]));
         g3::initializeLogging(w.get());
         std::thread opener;
         inThreads(p.threads, [&](int t) {
            for (int s = 0; s < p.perThread; ++s) {
               logId(p.prof, mkId(life * 100 + t, s));
               if (p.burstPause && s % 50 == 49) sleepUs(200);
            }
         });
         if (p.drainInDtor && p.gated) opener = std::thread([&] { sleepUs(3000); gate.release(); });
         else gate.release();
         if (!p.drainInDtor && c.rng.chance(1, 2)) w->removeAllSinks();
         w.reset();
         gate.release();
         if (opener.joinable()) opener.join();
         ev(SHUTRET, life);
      }
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      Trace t;
      std::vector<u64> shut;
      for (u64 i = 0; i < t.n; ++i) if (event(i).kind == SHUTRET) shut.push_back(i);
      // messages of one life belong to the sinks of this life
      for (int life = 0; life < p.lifecycles; ++life) {
         Trace l;
         l.ids.clear();
         for (u64 id : t.ids) if (static_cast<int>(id >> 32) / 100 == life) l.ids.push_back(id);
         for (auto& m : t.msg) if (static_cast<int>(m.first >> 32) / 100 != life) l.msg.erase(m.first);
         for (int i = 0; i < p.sinks; ++i) {
            u32 s = life * 1000 + i;
            if (order) {
               checkRealTimeOrder(l, s);
               if (i && i < 24) { checkAgreement(l, 0 + life * 1000, s); }
               if (i > 1 && i < 24) checkAgreement(l, life * 1000 + i - 1, s);
            } else {
               checkContent(l, s);
               checkComplete(l, s, p.str().c_str());
               for (auto& r : l.rx[s]) if (life < (int)shut.size() && r.stamp > shut[life]) { fail("late", "sink %u received %s after the logger's destruction returned", s, idStr(r.id).c_str()); break; }
            }
         }
      }
      u64 got = 0;
      for (auto& r : t.rx) got += r.second.size();
      c.stat["messages_logged"] += t.ids.size();
      c.stat["deliveries_checked"] += got;
      if (!t.rx.empty() && t.ids.size() > 1) c.distinct(orderHash(t.rx.begin()->second));
      c.sample(p.str() + fmt(" -> %zu messages, %llu deliveries", t.ids.size(), (unsigned long long)got));
   }
};
struct DeliverAll : Deliver { DeliverAll() : Deliver(false) {} };
struct OrderAll : Deliver { OrderAll() : Deliver(true) {} };
VF_SCENARIO(P01, DeliverAll, 6)
VF_SCENARIO(P02, OrderAll, 6)

// cross-thread hand-over: thread B logs only after A's LOG returned (a token passed through atomics)
struct Handover : Scenario {
   int threads, rounds, sinks;
   MsgProfile prof;
   void prepare(Case& c) override {
      threads = c.rng.range(2, 6);
      rounds = c.rng.range(20, kTsan ? 80 : 300);
      sinks = c.rng.range(1, 4);
      prof.seed = c.rng.next();
   }
   void child(Case& c) override {
      gProf = prof;
      spurious(c.rng.pick({0, 100}));
      auto w = LogWorker::createLogWorker();
      for (int i = 0; i < sinks; ++i) addKind(*w, i % 3, i, i == 1 ? 1 : 0, nullptr, false);
      g3::initializeLogging(w.get());
      std::atomic<int> turn{0};
      inThreads(threads, [&](int t) {
         for (int r = 0; r < rounds; ++r) {
            while (turn.load(std::memory_order_acquire) % threads != t) std::this_thread::yield();
            logId(prof, mkId(t, r));
            turn.fetch_add(1, std::memory_order_release);
         }
      });
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      Trace t;
      for (int i = 0; i < sinks; ++i) {
         checkRealTimeOrder(t, i);
         if (i) checkAgreement(t, 0, i);
         if (t.rx[i].size() != t.ids.size()) fail("order", "hand-over run: sink %d received %zu of %zu messages, order cannot be total", i, t.rx[i].size(), t.ids.size());
      }
      c.stat["messages_logged"] += t.ids.size();
      c.distinct(orderHash(t.rx[0]) ^ c.idx);
      c.sample(fmt("hand-over of a token between %d threads, %d rounds, %d sinks", threads, rounds, sinks));
   }
};
VF_SCENARIO(P02, Handover, 2)

// P09 ------------------------------------------------------------------------------
struct Windows : Scenario {
   int loggers, adders, cycles, perThread;
   bool all, holdAlive;
   MsgProfile prof;
   u64 ctlSeed;
   void prepare(Case& c) override {
      loggers = c.rng.range(1, 5);
      adders = c.rng.range(1, 3);
      cycles = c.rng.range(2, 10);
      all = c.rng.chance(1, 4);
      if (all) adders = 1;
      holdAlive = c.rng.chance(1, 3);
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.pick({0, 0, 1});
      ctlSeed = c.rng.next();
      perThread = kTsan || kAsan ? 500 : 1500;
   }
   void child(Case& c) override {
      gProf = prof;
      spurious(c.rng.pick({0, 0, 200}));
      auto w = LogWorker::createLogWorker();
      if (!all) addKind(*w, 0, 0, 0, nullptr, false);   // reference sink, present for the whole run
      g3::initializeLogging(w.get());
      std::atomic<bool> stop{false};
      std::vector<std::thread> lt;
      for (int t = 0; t < loggers; ++t)
         lt.emplace_back([&, t] {
            for (int s = 0; s < perThread && !stop.load(std::memory_order_relaxed); ++s) {
               logId(prof, mkId(t + 1, s));
               sleepUs(mix(s * 7 + t + ctlSeed) % (kTsan || kAsan ? 500 : 150));
            }
         });
      if (all) {
         Rng r(ctlSeed);
         u32 sid = 1000;
         for (int k = 0; k < cycles; ++k) {
            int n = r.range(1, 5);
            u32 firstSid = sid;
            std::vector<std::pair<u32, std::shared_ptr<g3::internal::Sink<ObjSink>>>> held;
            for (int i = 0; i < n; ++i) {
               u32 id = sid++;
               ev(ADDCALL, id);
               auto h = addKind(*w, r.range(0, 2), id, r.pick({0, 0, 1, 2}), nullptr, false);
               ev(ADDRET, id);
               if (h.o && holdAlive && r.chance(1, 2)) { held.emplace_back(id, h.o->sink().lock()); ev(MARK, id, 1); }
            }
            sleepUs(static_cast<unsigned>(r.below(3000)));
            for (u32 id = firstSid; id < sid; ++id) ev(REMCALL, id);
            w->removeAllSinks();
            for (u32 id = firstSid; id < sid; ++id) ev(REMRET, id);
            if (!held.empty()) sleepUs(800);
            for (auto& k : held) { k.second.reset(); ev(MARK, k.first, 2); }
         }
      } else {
         inThreads(adders, [&](int a) {
            Rng r(ctlSeed + a * 101);
            for (int k = 0; k < cycles; ++k) {
               int n = r.range(1, 4);
               std::vector<std::pair<u32, AnyHandle>> mine;
               for (int i = 0; i < n; ++i) {
                  u32 id = 1000 * (a + 1) + k * 10 + i;
                  ev(ADDCALL, id);
                  auto h = addKind(*w, r.range(0, 2), id, r.pick({0, 0, 0, 1, 2}), nullptr, r.chance(1, 3));
                  ev(ADDRET, id);
                  mine.emplace_back(id, std::move(h));
                  if (r.chance(1, 2)) sleepUs(static_cast<unsigned>(r.below(1500)));
               }
               sleepUs(static_cast<unsigned>(r.below(2500)));
               r.shuffle(mine);
               for (auto& m : mine) {
                  if (r.chance(1, 6)) continue;   // this one stays until the logger is destroyed
                  std::shared_ptr<g3::internal::Sink<ObjSink>> keep;
                  std::unique_ptr<g3::SinkHandle<ObjSink>> twice;
                  if (m.second.o && holdAlive && r.chance(1, 3)) { keep = m.second.o->sink().lock(); ev(MARK, m.first, 1); }
                  if (m.second.o && r.chance(1, 4)) twice = std::make_unique<g3::SinkHandle<ObjSink>>(*m.second.o);
                  ev(REMCALL, m.first);
                  m.second.removeFrom(*w);
                  ev(REMRET, m.first);
                  if (twice) w->removeSink(std::move(twice));   // removing again is harmless
                  if (keep) {
                     sleepUs(800);
                     keep.reset();
                     ev(MARK, m.first, 2);
                  }
               }
               w->removeSink(std::unique_ptr<g3::SinkHandle<ObjSink>>());
            }
         });
      }
      stop = true;
      for (auto& t : lt) t.join();
      ev(SHUTCALL, 0);
      w.reset();
      ev(SHUTRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      Trace t;
      u64 shutCall = 0, shutRet = 0;
      std::map<u32, u64> keep, released;
      for (u64 i = 0; i < t.n; ++i) {
         if (event(i).kind == SHUTCALL) shutCall = i;
         if (event(i).kind == SHUTRET) shutRet = i;
         if (event(i).kind == MARK && event(i).a == 1) keep[event(i).actor] = i;
         if (event(i).kind == MARK && event(i).a == 2) released[event(i).actor] = i;
      }
      if (!all) checkComplete(t, 0, "(sink attached during the whole run)");
      std::unordered_map<u64, u64> globalPos;
      if (!all) for (auto& r : t.rx[0]) globalPos.emplace(r.id, globalPos.size());
      long windows = 0;
      for (auto& a : t.addRet) {
         u32 s = a.first;
         ++windows;
         u64 rc = t.remCall.count(s) ? t.remCall[s] : shutCall, rr = t.remRet.count(s) ? t.remRet[s] : shutRet;
         bool kept = keep.count(s);
         auto& v = t.rx[s];
         std::unordered_map<u64, int> seen;
         for (auto& r : v) {
            if (r.flag != 1) fail("corrupt", "sink %u received a damaged message", s);
            if (++seen[r.id] > 1) fail("duplicate", "sink %u received %s twice", s, idStr(r.id).c_str());
            if (r.stamp > rr && !kept) { fail("after-removal", "sink %u was called after its removal had returned", s); break; }
            auto& m = t.msg[r.id];
            if (m.call != ~0ull && m.call > rr) { fail("after-removal", "sink %u received %s, logged after the removal had returned", s, idStr(r.id).c_str()); break; }
         }
         for (u64 id : t.ids) {
            auto& m = t.msg[id];
            if (m.call > a.second && m.ret != ~0ull && m.ret < rc && !seen.count(id) && !kept) {
               fail("window-loss", "sink %u missed %s, logged after its addition returned and before its removal started", s, idStr(id).c_str());
               break;
            }
         }
         // one contiguous part of the stream
         if (!all && !kept) {
            u64 lastPos = 0;
            bool any = false;
            for (auto& r : v) {
               auto g = globalPos.find(r.id);
               if (g == globalPos.end()) continue;
               if (any && g->second != lastPos + 1) { fail("gap", "the stream of sink %u is not contiguous at %s (position %llu after %llu)", s, idStr(r.id).c_str(), (unsigned long long)g->second, (unsigned long long)lastPos); break; }
               any = true;
               lastPos = g->second;
            }
         }
         auto& d = t.dtor[s];
         if (d.size() != 1) fail("destroy", "sink %u was destroyed %zu times", s, d.size());
         else {
            if (!kept && d[0] > rr) fail("destroy", "sink %u was not destroyed when its removal returned", s);
            if (kept && d[0] < keep[s]) fail("destroy", "sink %u was destroyed while the application held it", s);
            if (kept && d[0] > released[s]) fail("destroy", "sink %u was not destroyed when the application let go of it", s);
            if (!v.empty() && v.back().stamp > d[0]) fail("after-removal", "sink %u was called after its destruction", s);
            if (t.remCall.count(s) && d[0] < t.remCall[s]) fail("destroy", "sink %u was destroyed before its removal", s);
         }
      }
      c.stat["sink_windows_checked"] += windows;
      c.stat["messages_logged"] += t.ids.size();
      u64 h = 1;
      for (auto& a : t.addRet) h = mix(h ^ (t.rx[a.first].size() * 131 + a.first));
      c.distinct(h);
      c.sample(fmt("%d loggers, %d adders x %d cycles, removeAll=%d, held=%d -> %ld windows over %zu messages", loggers, adders, cycles, all, holdAlive, windows, t.ids.size()));
   }
};
VF_SCENARIO(P09, Windows, 4)

// removal while the sink has a backlog: the removal returns only when it is processed
struct RemoveBacklog : Scenario {
   int backlog, others;
   bool removeAll;
   MsgProfile prof;
   void prepare(Case& c) override { backlog = c.rng.chance(1, 5) ? c.rng.range(1000, 6000) : c.rng.range(1, 300); others = c.rng.range(0, 3); removeAll = c.rng.chance(1, 3); prof.seed = c.rng.next(); }
   void child(Case&) override {
      gProf = prof;
      Gate gate;
      gate.close();
      auto w = LogWorker::createLogWorker();
      for (int i = 0; i < others; ++i) addKind(*w, i % 3, i, 0, nullptr, false);
      auto h = w->addSink(std::make_unique<ObjSink>(100, backlog < 400 ? 2 : 0, &gate), &ObjSink::recv);
      g3::initializeLogging(w.get());
      for (int i = 0; i < backlog; ++i) logId(prof, mkId(1, i));
      std::thread op([&] { sleepUs(2000); gate.release(); });
      ev(REMCALL, 100);
      if (removeAll) w->removeAllSinks(); else w->removeSink(std::move(h));
      ev(REMRET, 100);
      op.join();
      for (int i = 0; i < 20; ++i) logId(prof, mkId(2, i));
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      Trace t;
      u64 before = 0;
      for (auto& r : t.rx[100]) { if (r.stamp < t.remRet[100]) ++before; if ((r.id >> 32) == 2) fail("after-removal", "message logged after the removal reached the removed sink"); }
      if (before != static_cast<u64>(backlog)) fail("window-loss", "removal returned after the sink had processed %llu of its %d messages (removeAll=%d)", (unsigned long long)before, backlog, removeAll);
      if (t.dtor[100].size() != 1 || t.dtor[100][0] > t.remRet[100]) fail("destroy", "sink not destroyed (exactly once) when its removal returned");
      for (int i = 0; i < others; ++i)
         if (t.rx[i].size() != static_cast<size_t>(backlog + (removeAll ? 0 : 20))) fail("others", "another sink received %zu messages instead of %d", t.rx[i].size(), backlog + (removeAll ? 0 : 20));
      c.stat["messages_logged"] += t.ids.size();
      c.distinct(mix(backlog * 10 + others));
      c.sample(fmt("backlog %d, %d other sinks, removeAll=%d", backlog, others, removeAll));
   }
};
VF_SCENARIO(P09, RemoveBacklog, 2)


// sinks that log: what they log is delivered like everything else, after what was logged before
struct EchoSink : SinkBase {
   using SinkBase::SinkBase;
   int every = 3;
   u64 counter = 0;
   void recv(g3::LogMessageMover m) {
      enter();
      const std::string text = m.get().message();
      u64 mid = 0;
      if (every > 0 && parseId(text, mid) && (mid >> 32) < 50 && (mid & 0xffffffff) % every == 0) {
         leave();
         logId(gProf, mkId(60 + id, counter++));   // before its own record: the message is still being processed
         enter();
      }
      record(text);
      leave();
   }
   int tell(u64 v) {
      logId(gProf, mkId(80 + id, v));
      return 0;
   }
};
struct Echo : Scenario {
   bool order;
   int threads, perThread, sinks, every;
   MsgProfile prof;
   explicit Echo(bool o) : order(o) {}
   void prepare(Case& c) override {
      threads = c.rng.range(1, 5);
      perThread = c.rng.range(20, kTsan || kAsan ? 80 : 300);
      sinks = c.rng.range(2, 6);
      every = c.rng.range(1, 6);
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.pick({0, 0, 1});
   }
   void child(Case& c) override {
      gProf = prof;
      spurious(c.rng.pick({0, 0, 200}));
      bool burst = c.rng.chance(1, 2);
      Gate gate;
      if (burst) gate.close();
      auto w = LogWorker::createLogWorker();
      std::vector<std::unique_ptr<g3::SinkHandle<EchoSink>>> hs;
      for (int i = 0; i < sinks; ++i) {
         auto s = std::make_unique<EchoSink>(i, c.rng.pick({0, 0, 1}), burst && i == 0 ? &gate : nullptr);
         s->every = i < 3 ? every + i : 0;
         hs.push_back(w->addSink(std::move(s), &EchoSink::recv));
      }
      g3::initializeLogging(w.get());
      // a slow removal keeps the worker itself busy, so that messages wait in its own queue
      std::thread remover;
      Gate gate2;
      if (burst) {
         gate2.close();
         auto h = w->addSink(std::make_unique<ObjSink>(20, 0, &gate2), &ObjSink::recv);
         logId(prof, mkId(55, 0));
         remover = std::thread([&w, h = std::move(h)]() mutable { w->removeSink(std::move(h)); });
      }
      std::thread caller([&] { for (int k = 0; k < 20; ++k) hs[k % sinks]->call(&EchoSink::tell, static_cast<u64>(k)).wait(); });
      if (burst) { sleepUs(1500); gate.release(); }
      inThreads(threads, [&](int t) { for (int s = 0; s < perThread; ++s) logId(prof, mkId(t, s)); });
      gate2.release();
      caller.join();
      if (remover.joinable()) remover.join();
      if (c.rng.chance(1, 2)) sleepUs(2000);
      ev(SHUTCALL, 0);
      w.reset();
      ev(SHUTRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      Trace t;
      u64 shut = 0;
      for (u64 i = 0; i < t.n; ++i) if (event(i).kind == SHUTCALL) shut = i;
      u64 echoes = 0;
      for (u64 id : t.ids) if ((id >> 32) >= 60) ++echoes;
      if (order) {
         for (int i = 0; i < sinks; ++i) { checkRealTimeOrder(t, i); if (i) checkAgreement(t, i - 1, i); }
      } else {
         for (int i = 0; i < sinks; ++i) checkContent(t, i);
         for (auto& m : t.msg) if (m.second.ret != ~0ull && m.second.ret > shut) m.second.ret = ~0ull;   // logged while the logger went away
         for (int i = 0; i < sinks; ++i) checkComplete(t, i, "(sinks that log)");
      }
      c.stat["messages_logged"] += t.ids.size();
      c.stat["messages_logged_by_sinks"] += echoes;
      if (!t.rx.empty()) c.distinct(orderHash(t.rx.begin()->second));
      c.sample(fmt("%d threads x %d, %d sinks, echo every %d -> %zu messages, %llu by sinks", threads, perThread, sinks, every, t.ids.size(), (unsigned long long)echoes));
   }
};
struct EchoAll : Echo { EchoAll() : Echo(false) {} };
struct EchoOrder : Echo { EchoOrder() : Echo(true) {} };
VF_SCENARIO(P01, EchoAll, 2)
VF_SCENARIO(P02, EchoOrder, 2)

// ---- extremes: a very long backlog, and waits far longer than any that a test would do ----
struct SeqSink {
   u32 id;
   Gate* gate;
   u64 next[8] = {}, count = 0, bad = 0;
   std::string firstBad;
   SeqSink(u32 i, Gate* g) : id(i), gate(g) {}
   ~SeqSink() { ev(DTOR, id, count, bad, 0, firstBad.data(), firstBad.size()); }
   void recv(g3::LogMessageMover m) {
      if (gate) gate->pass();
      const std::string s = m.get().message();
      unsigned t = 9;
      unsigned long long n = 0;
      if (sscanf(s.c_str(), "%u:%llu", &t, &n) != 2 || t > 7 || n != next[t]) {
         if (!bad++) firstBad = printable(s, 60) + (t < 8 ? fmt(" instead of %u:%llu", t, (unsigned long long)next[t]) : "");
      }
      if (t < 8) next[t] = n + 1;
      ++count;
   }
   u64 nothing(u64 v) { return v; }
};
template <class F> double timed(F f) { double t = nowS(); f(); return nowS() - t; }
struct Huge : Scenario {
   int threads;
   u64 per;
   bool viaRemove, inWorker;
   void prepare(Case& c) override {
      threads = static_cast<int>(1 + c.idx % 3);
      per = (gThorough ? 1200000 : 290000) / threads;
      if (kTsan || kAsan) per = 70000 / threads;
      viaRemove = c.idx % 2;
      inWorker = c.idx % 4 >= 2;
      c.timeout = 120;
   }
   void child(Case&) override {
      perturb(0, 1);
      Gate gate;
      gate.close();
      auto w = LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<SeqSink>(0, inWorker ? nullptr : &gate), &SeqSink::recv);
      w->addSink(std::make_unique<SeqSink>(1, nullptr), &SeqSink::recv);
      g3::initializeLogging(w.get());
      std::thread remover;
      if (inWorker) {  // the worker is busy with a removal: the backlog is in its own queue
         struct Stuck { Gate* g; void recv(g3::LogMessageMover) { g->pass(); } };
         auto s = std::make_unique<Stuck>();
         s->g = &gate;
         auto hs = w->addSink(std::move(s), &Stuck::recv);
         LOG(INFO) << "7:0";
         remover = std::thread([&w, hs = std::move(hs)]() mutable { w->removeSink(std::move(hs)); });
         sleepUs(20000);
      }
      std::atomic<u64> slowest{0};
      inThreads(threads, [&](int t) {
         for (u64 i = 0; i < per; ++i) LOG(INFO) << t << ':' << i;
      });
      gate.release();
      if (remover.joinable()) remover.join();
      if (viaRemove) w->removeSink(std::move(h));
      w.reset();
      ev(SHUTRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      int d = 0;
      for (u64 i = 0, n = eventCount(); i < n; ++i) {
         const Event& e = event(i);
         if (e.kind != DTOR) continue;
         ++d;
         u64 want = per * threads + (inWorker ? 1 : 0);
         if (e.b) fail("loss", "with a backlog of %llu messages sink %u received %llu messages out of sequence, first %s", (unsigned long long)want, e.actor, (unsigned long long)e.b, textOf(e).c_str());
         if (e.a != want) fail("loss", "with a backlog of %llu messages sink %u received %llu", (unsigned long long)want, e.actor, (unsigned long long)e.a);
      }
      if (d != 2) fail("destroy", "%d of 2 sinks destroyed", d);
      c.stat["messages_logged"] += per * threads;
      c.stat["longest_backlog_cases"] += 1;
      c.distinct(c.idx);
      c.sample(fmt("%d threads x %llu messages behind a closed gate, in the %s queue", threads, (unsigned long long)per, inWorker ? "worker's" : "sink's"));
   }
};
VF_SCENARIO(P01, Huge, 0)
struct HugeOrder : Huge {};
VF_SCENARIO(P02, HugeOrder, 0)
struct HugeRemoval : Huge { void prepare(Case& c) override { Huge::prepare(c); viaRemove = true; if (!gThorough) per = 110000 / threads; } };
VF_SCENARIO(P09, HugeRemoval, 0)

// millions of messages through one logger
struct Volume : Scenario {
   int threads;
   u64 per;
   void prepare(Case& c) override {
      threads = static_cast<int>(1 + c.rng.below(4));
      per = (gThorough ? 17500000 : 2200000) / threads;
      if (kTsan || kAsan) per = 70000 / threads;
      c.timeout = gThorough ? 600 : 150;
   }
   void child(Case&) override {
      perturb(0, 1);
      auto w = LogWorker::createLogWorker();
      auto a = w->addSink(std::make_unique<SeqSink>(0, nullptr), &SeqSink::recv);
      auto b = w->addSink(std::make_unique<SeqSink>(1, nullptr), &SeqSink::recv);
      g3::initializeLogging(w.get());
      inThreads(threads, [&](int t) {
         for (u64 i = 0; i < per; ++i) {
            if (i & 1) LOGF(INFO, "%d:%llu", t, (unsigned long long)i);
            else LOG(INFO) << t << ':' << i;
            if (i % 20000 == 19999) for (auto* h : {a.get(), b.get()}) if (h->call(&SeqSink::nothing, i).get() != i) fail("call", "a call during the run returned something else");   // bounds the backlog
         }
      });
      w.reset();
      ev(SHUTRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      int d = 0;
      for (u64 i = 0, n = eventCount(); i < n; ++i) {
         const Event& e = event(i);
         if (e.kind != DTOR) continue;
         ++d;
         if (e.b) fail("loss", "of %llu messages sink %u received %llu out of sequence, first %s", (unsigned long long)(per * threads), e.actor, (unsigned long long)e.b, textOf(e).c_str());
         if (e.a != per * threads) fail("loss", "of %llu messages sink %u received %llu", (unsigned long long)(per * threads), e.actor, (unsigned long long)e.a);
      }
      if (d != 2) fail("destroy", "%d of 2 sinks destroyed", d);
      c.stat["messages_logged"] += per * threads;
      c.distinct(c.idx);
      c.sample(fmt("%d threads x %llu messages", threads, (unsigned long long)per));
   }
};
VF_SCENARIO(P01, Volume, 0)

// a sink that makes no progress for a long time, then does; a logger that is idle for a long time
const double kLong = 65;
struct Patience : Scenario {
   int mode = 0;   // 0 shutdown, 1 removal, 2 removal of all, 3 addition behind a slow removal, 4 idle
   double T = 0;
   explicit Patience(std::vector<int> modes) : modes_(std::move(modes)) {}
   std::vector<int> modes_;
   void prepare(Case& c) override {
      mode = modes_[c.idx % modes_.size()];
      T = gThorough && c.idx % 4 == 3 ? 130 : kLong;
      c.timeout = T + 60;
   }
   void child(Case&) override {
      gProf = MsgProfile();
      Gate gate;
      auto w = LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<ObjSink>(0, 0, &gate), &ObjSink::recv);
      auto free = w->addSink(std::make_unique<ObjSink>(1), &ObjSink::recv);
      g3::initializeLogging(w.get());
      if (mode == 4) {
         logId(gProf, mkId(1, 1000));
         sleepUs(static_cast<unsigned>(T * 1e6));
         for (int i = 0; i < 50; ++i) logId(gProf, mkId(1, i));
         ev(REMCALL, 0);
         w->removeSink(std::move(h));
         ev(REMRET, 0);
         w.reset();
         ev(SHUTRET, 0);
         return;
      }
      gate.close();
      for (int i = 0; i < 50; ++i) logId(gProf, mkId(1, i));
      std::thread opener([&] { sleepUs(static_cast<unsigned>(T * 1e6)); ev(MARK, 0, 9); gate.release(); });
      if (mode == 0) w.reset();
      if (mode == 1 || mode == 3) {
         std::thread adder;
         if (mode == 3) adder = std::thread([&] {
            sleepUs(300000);
            for (int i = 50; i < 60; ++i) logId(gProf, mkId(1, i));
            ev(ADDCALL, 2);
            auto h2 = w->addSink(std::make_unique<ObjSink>(2), &ObjSink::recv);
            ev(ADDRET, 2);
            for (int i = 0; i < 10; ++i) logId(gProf, mkId(2, i));
            w->removeSink(std::move(h2));
            ev(REMRET, 2);
         });
         ev(REMCALL, 0);
         w->removeSink(std::move(h));
         ev(REMRET, 0);
         if (adder.joinable()) adder.join();
      }
      if (mode == 2) { ev(REMCALL, 0); w->removeAllSinks(); ev(REMRET, 0); }
      if (w) w.reset();
      ev(SHUTRET, 0);
      opener.join();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      Trace t;
      u64 opened = 0, shut = 0;
      for (u64 i = 0; i < t.n; ++i) { if (event(i).kind == MARK) opened = i; if (event(i).kind == SHUTRET) shut = i; }
      const char* what = mode == 0 ? "the destruction of the logger" : mode == 2 ? "the removal of all sinks" : "the removal";
      if (mode < 4) {
         u64 ret = mode == 0 ? shut : t.remRet[0];
         u64 before = 0;
         for (auto& r : t.rx[0]) if (r.stamp < ret) ++before;
         if (ret < opened) fail("early", "%s returned although the sink was still busy (blocked for %.0f s)", what, T);
         if (before != 50) fail("loss", "%s returned when the sink, blocked for %.0f s, had received %llu of 50 messages", what, T, (unsigned long long)before);
         if (t.dtor[0].size() != 1 || t.dtor[0][0] > ret) fail("destroy", "the sink, blocked for %.0f s, was not destroyed when %s returned", T, what);
      } else if (t.rx[0].size() != 51) fail("loss", "after %.0f s without a message a sink received %zu of 50", T, t.rx[0].size() - 1);
      if (mode == 3) {
         u64 got = 0;
         for (auto& r : t.rx[2]) { if ((r.id >> 32) == 2) ++got; else fail("order", "a sink received %s, logged before its addition was requested", idStr(r.id).c_str()); }
         if (got != 10) fail("window-loss", "a sink added while another removal took %.0f s received %llu of 10 messages", T, (unsigned long long)got);
      }
      for (u32 s = 0; s < 2; ++s) { checkContent(t, s); checkRealTimeOrder(t, s); }
      u64 all = mode == 3 ? 70 : mode == 4 ? 51 : 50;
      if (t.rx[1].size() != all) fail("others", "the other sink received %zu of %llu messages", t.rx[1].size(), (unsigned long long)all);
      c.distinct(mode);
      c.stat["seconds_blocked"] += T;
      c.sample(fmt("mode %d, %.0f s", mode, T));
   }
};
struct LongShutdown : Patience { LongShutdown() : Patience({0, 4}) {} };
struct LongRemoval : Patience { LongRemoval() : Patience({1, 3, 2}) {} };
VF_SCENARIO(P01, LongShutdown, 0)
VF_SCENARIO(P28, LongShutdown, 0)
VF_SCENARIO(P09, LongRemoval, 0)

// statements that are equal in everything a record shows, and empty ones: each is a message of its own
const LEVELS& threadLevel(int t) {
   static const LEVELS l[] = {{201, "T0"}, {202, "T1"}, {203, "T2"}, {204, "T3"}};
   return l[t];
}
const std::string& repeatText(int k) {
   static const std::string t[] = {"", "", "same", "same again", " ", "\n", "\t\t", "0", "a\nb", "last message repeated 3 times", std::string(2047, 'r'), std::string(5000, 's'), "%d", "]\t"};
   return t[k];
}
const int kRepeatTexts = 14;
struct RepeatSink {
   u32 id;
   u64 n = 0;
   explicit RepeatSink(u32 i) : id(i) {}
   void recv(g3::LogMessageMover m) {
      const std::string t = m.get().message();
      int k = -1;
      for (int i = 1; i < kRepeatTexts; ++i) if (t == repeatText(i)) k = i;
      ev(RECV, id, static_cast<u64>(m.get()._level.value - 201), static_cast<u64>(k), n++, t.data(), std::min<size_t>(t.size(), 60));
   }
   void text(std::string s) {
      int t = -1, k = -1;
      auto a = s.find("\tT"), b = s.find("]\t");
      if (a != s.npos && b != s.npos && s.size() > a + 2) {
         t = s[a + 2] - '0';
         std::string m = s.substr(b + 2);
         if (!m.empty()) m.pop_back();
         for (int i = 1; i < kRepeatTexts; ++i) if (m == repeatText(i)) k = i;
      }
      ev(RECV, id, static_cast<u64>(t), static_cast<u64>(k), n++, s.data(), std::min<size_t>(s.size(), 60));
   }
};
struct Repeat : Scenario {
   int threads, n, sinks;
   bool gated;
   u64 seed;
   std::vector<std::vector<int>> plan;   // by thread: index of the text
   std::vector<std::vector<int>> form;
   void prepare(Case& c) override {
      threads = c.rng.range(1, 4);
      n = c.rng.range(5, kTsan || kAsan ? 100 : 400);
      sinks = c.rng.range(1, 3);
      gated = c.rng.chance(1, 2);
      plan.resize(threads);
      form.resize(threads);
      for (int t = 0; t < threads; ++t) {
         int k = 1, f = 0;
         for (int i = 0; i < n; ++i) {
            if (i == 0 || c.rng.chance(1, 6)) k = c.rng.chance(1, 3) ? 1 : c.rng.range(1, kRepeatTexts - 1);
            if (i == 0 || c.rng.chance(1, 8)) f = c.rng.range(0, 5);
            plan[t].push_back(k);
            form[t].push_back(f);
         }
      }
   }
   void child(Case& c) override {
      spurious(c.rng.pick({0, 0, 200}));
      struct Blocker { Gate* g; void recv(g3::LogMessageMover) { g->pass(); } };
      Gate gate;
      if (gated) gate.close();
      auto w = LogWorker::createLogWorker();
      for (int i = 0; i < sinks; ++i) {
         auto s = std::make_unique<RepeatSink>(i);
         if (i == 1) w->addSink(std::move(s), &RepeatSink::text);
         else w->addSink(std::move(s), &RepeatSink::recv);
      }
      auto b = std::make_unique<Blocker>();
      b->g = &gate;
      w->addSink(std::move(b), &Blocker::recv);
      g3::initializeLogging(w.get());
      inThreads(threads, [&](int t) {
         const LEVELS& l = threadLevel(t);
         for (int i = 0; i < n; ++i) {
            const std::string& s = repeatText(plan[t][i]);
            const bool small = s.size() < 2040;
            switch (form[t][i]) {
            case 0: LOG(l) << s; break;
            case 1: if (small) { LOGF(l, "%s", s.c_str()); } else { LOG(l) << s; } break;
            case 2: LOG_IF(l, n > 0) << s; break;
            case 3: if (small) { LOGF_IF(l, n > 0, "%s", s.c_str()); } else { LOG(l) << s; } break;
            case 4: if (s.empty()) { LOG(l); } else { LOG(l) << s.substr(0, 1) << s.substr(1); } break;
            default: if (small) { LogCapture(__FILE__, __LINE__, __FUNCTION__, l).capturef("%s", s.c_str()); } else { LOG(l) << s.c_str(); }
            }
         }
      });
      gate.release();
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::map<u32, std::vector<std::vector<int>>> got;
      u64 h = 0;
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind != RECV) continue;
         auto& g = got[e.actor];
         g.resize(threads);
         if (e.a >= static_cast<u64>(threads) || static_cast<int>(e.b) < 1) { fail("invented", "sink %u received '%s', which was never logged", e.actor, printable(textOf(e)).c_str()); continue; }
         g[e.a].push_back(static_cast<int>(e.b));
         if (e.actor == 0) h = mix(h ^ e.a);
      }
      for (int s = 0; s < sinks; ++s)
         for (int t = 0; t < threads; ++t) {
            auto& g = got[s];
            g.resize(threads);
            if (g[t] == plan[t]) continue;
            size_t d = 0;
            while (d < g[t].size() && d < plan[t].size() && g[t][d] == plan[t][d]) ++d;
            fail(g[t].size() < plan[t].size() ? "loss" : g[t].size() > plan[t].size() ? "duplicate" : "order",
                 "sink %d received %zu of %zu statements of thread %d with equal or empty texts, the first difference is at statement %zu, text '%s'", s, g[t].size(), plan[t].size(), t, d, d < plan[t].size() ? printable(repeatText(plan[t][d]), 40).c_str() : "");
            break;
         }
      c.stat["messages_logged"] += static_cast<double>(threads) * n;
      c.distinct(h);
      c.sample(fmt("%d threads x %d statements with equal and empty texts, %d sinks", threads, n, sinks));
   }
};
VF_SCENARIO(P01, Repeat, 2)

// many sinks at once: each has its stream, order and end
struct ManySinks : Scenario {
   int sinks, n, mode;
   bool order = false;
   MsgProfile prof;
   void prepare(Case& c) override {
      sinks = kTsan || kAsan ? 70 : c.rng.range(257, gThorough ? 1500 : 520);
      n = c.rng.range(5, 30);
      mode = c.idx % 3;
      prof.seed = c.rng.next();
      c.timeout = 60;
   }
   void child(Case&) override {
      gProf = prof;
      Gate gate;
      auto w = LogWorker::createLogWorker();
      std::vector<AnyHandle> hs;
      if (mode == 1) gate.close();
      for (int i = 0; i < sinks; ++i) hs.push_back(addKind(*w, i % 3, i, 0, i % 2 ? &gate : nullptr, i % 5 == 0));
      g3::initializeLogging(w.get());
      inThreads(3, [&](int t) { for (int i = 0; i < n; ++i) logId(prof, mkId(t, i)); });
      std::thread op;
      if (mode == 1) {
         // the free half is served although the other half is blocked
         const double t0 = nowS();
         const u64 want = static_cast<u64>(n) * 3;
         for (;;) {
            u64 served = 0;
            for (u64 i = 0; i < eventCount(); ++i) served += event(i).kind == RECV;
            if (served >= want * ((sinks + 1) / 2)) break;
            if (nowS() - t0 > 30) { fail("blocked", "%d of %d sinks are blocked, and the others received only %llu of %llu messages", sinks / 2, sinks, (unsigned long long)served, (unsigned long long)(want * ((sinks + 1) / 2))); break; }
            sleepUs(2000);
         }
         gate.release();
      }
      if (mode == 2) {
         for (int i = 0; i < sinks; i += 2) { ev(REMCALL, i); hs[i].removeFrom(*w); ev(REMRET, i); }
         inThreads(3, [&](int t) { for (int i = 0; i < n; ++i) logId(prof, mkId(10 + t, i)); });
      }
      w.reset();
      ev(SHUTRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      Trace t;
      for (int i = 0; i < sinks; ++i) {
         checkContent(t, i);
         if (order) {
            checkRealTimeOrder(t, i);
            if (i && i % 37 == 0) checkAgreement(t, i - 1, i);
         }
         size_t want = static_cast<size_t>(n) * 3 * (mode == 2 && i % 2 ? 2 : 1);
         if (t.rx[i].size() != want) fail("loss", "of %d sinks, sink %d received %zu of %zu messages", sinks, i, t.rx[i].size(), want);
         if (t.dtor[i].size() != 1 || (t.remRet.count(i) && t.dtor[i][0] > t.remRet[i])) fail("destroy", "of %d sinks, sink %d was destroyed %zu times or late", sinks, i, t.dtor[i].size());
      }
      c.stat["messages_logged"] += t.ids.size();
      c.stat["sinks_at_once"] += sinks;
      c.distinct(c.idx);
      c.sample(fmt("%d sinks, %zu messages, mode %d", sinks, t.ids.size(), mode));
   }
};
struct ManySinksOrder : ManySinks { ManySinksOrder() { order = true; } };
VF_SCENARIO(P01, ManySinks, 0)
VF_SCENARIO(P02, ManySinksOrder, 0)
VF_SCENARIO(P28, ManySinks, 0)
VF_SCENARIO(P09, ManySinks, 0)
VF_SCENARIO(P10, ManySinks, 0)

// messages of many megabytes
struct Giant : Scenario {
   MsgProfile prof;
   size_t mb;
   void prepare(Case& c) override { mb = gThorough ? c.rng.range(64, 300) : c.rng.range(17, 70); if (kTsan || kAsan) mb = 17; prof.seed = c.rng.next(); c.timeout = 120; }
   void child(Case& c) override {
      gProf = prof;
      perturb(0, 1);
      auto w = LogWorker::createLogWorker();
      struct S {
         u32 id;
         u64 next = 0;
         void recv(g3::LogMessageMover m) { const std::string s = m.get().message(); ev(RECV, id, next++, s.size(), hashBytes(s.data(), s.size())); }
         void text(std::string s) { auto p = s.find("]\t"); ev(RECV, id, next++, s.size() - p - 3, hashBytes(s.data() + p + 2, s.size() - p - 3)); }
      };
      auto a = std::make_unique<S>(), b = std::make_unique<S>();
      a->id = 1;
      b->id = 2;
      w->addSink(std::move(a), &S::recv);
      w->addSink(std::move(b), &S::text);
      g3::initializeLogging(w.get());
      Rng r(prof.seed);
      for (int k = 0; k < 4; ++k) {
         std::string s(k % 2 ? 30 : mb << 20, 'g');
         for (size_t i = 0; i < s.size(); i += 1 + r.below(60)) s[i] = static_cast<char>('a' + r.below(26));
         ev(TEXT, 0, k, s.size(), hashBytes(s.data(), s.size()));
         if (k == 2) { LOG(INFO) << s.substr(0, s.size() / 2) << s.substr(s.size() / 2); } else { LOG(INFO) << s; }
      }
      w.reset();
      (void)c;
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::vector<std::pair<u64, u64>> want, got[3];
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind == TEXT) want.push_back({e.b, e.c});
         if (e.kind == RECV) got[e.actor].push_back({e.b, e.c});
      }
      for (int s = 1; s < 3; ++s)
         if (got[s] != want) fail("corrupt", "messages of %zu MB: sink %d received %zu of %zu unchanged in order; the first has %llu bytes", mb, s, got[s].size(), want.size(), got[s].empty() ? 0ull : (unsigned long long)got[s][0].first);
      c.stat["megabytes"] += static_cast<double>(mb) * 2;
      c.distinct(mb);
      c.sample(fmt("messages of %zu MB", mb));
   }
};
VF_SCENARIO(P01, Giant, 0)
VF_SCENARIO(P03, Giant, 0)
}  // namespace
