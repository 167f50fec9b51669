// P11: handle calls
#include "common.hpp"
using namespace vf;
using namespace cm;
using g3::LogWorker;

namespace {
// P11 ----------------------------------------------------------------------------------
struct Calls : Scenario {
   int callers, loggers, sinks, n, removal;   // removal: 0 at shutdown, 1 remove concurrently, 2 shutdown concurrently with the calls
   bool gated;
   MsgProfile prof;
   void prepare(Case& c) override {
      callers = c.rng.range(1, 5);
      loggers = c.rng.range(0, 2);
      sinks = c.rng.range(1, 3);
      n = c.rng.range(10, kTsan || kAsan ? 80 : 250);
      removal = c.rng.pick({0, 1, 1, 2});
      gated = c.rng.chance(1, 4);
      prof.seed = c.rng.next();
   }
   static u64 strHash(u64 id) { return id; }
   void child(Case& c) override {
      gProf = prof;
      spurious(c.rng.pick({0, 200}));
      Gate gate;
      if (gated) gate.close();
      auto w = LogWorker::createLogWorker();
      std::vector<std::unique_ptr<g3::SinkHandle<ObjSink>>> hs, extra;
      std::vector<ObjSink*> raw;
      for (int i = 0; i < sinks; ++i) {
         auto s = std::make_unique<ObjSink>(i, c.rng.pick({0, 0, 1}), &gate);
         raw.push_back(s.get());
         hs.push_back(w->addSink(std::move(s), &ObjSink::recv));
         extra.push_back(std::make_unique<g3::SinkHandle<ObjSink>>(*hs.back()));
      }
      g3::initializeLogging(w.get());
      std::atomic<int> done{0};
      u64 seed = c.rng.next();
      const int total = callers + loggers;
      std::vector<std::thread> ts;
      for (int t = 0; t < total; ++t)
         ts.emplace_back([&, t] {
            Rng r(seed + t);
            if (t >= callers) {
               for (int s = 0; s < n; ++s) { logId(prof, mkId(500 + t, s)); if (s % 4 == 0) sleepUs(40); }
               ++done;
               return;
            }
            struct Pending { u64 id; int sink, kind; std::function<void()> verify; };
            std::vector<Pending> ps;
            for (int s = 0; s < n; ++s) {
               u64 id = mkId(t, s);
               int k = static_cast<int>(r.below(kTsan ? 3 : 8)), sk = static_cast<int>(r.below(sinks));
               auto& h = *extra[sk];
               if (r.chance(1, 6) && removal != 2) logId(prof, mkId(1000 + t, s));  // nobody logs while the logger is destroyed
               ev(CALLC, sk, id, k);
               auto done1 = [&](auto&& fut, auto check) {
                  ev(CALLR, sk, id, k);
                  auto f = std::make_shared<std::decay_t<decltype(fut)>>(std::move(fut));
                  ps.push_back({id, sk, k, [f, check, id, sk] {
                     if (!f->valid()) { fail("future", "handle call %s returned an invalid future", idStr(id).c_str()); return; }
                     if (f->wait_for(std::chrono::seconds(0)) != std::future_status::ready) { ev(FUT, sk, id, 9); return; }
                     try { check(*f); }
                     catch (const std::bad_weak_ptr&) { ev(FUT, sk, id, 2); }
                     catch (const std::exception& e) { fail("future", "handle call %s: unexpected exception '%s'", idStr(id).c_str(), e.what()); }
                     catch (...) { fail("future", "handle call %s: unexpected exception", idStr(id).c_str()); }
                  }});
               };
               auto value = [id, sk](bool ok, const char* what) { if (!ok) fail("result", "handle call %s (%s) returned a wrong result", idStr(id).c_str(), what); ev(FUT, sk, id, 1); };
               switch (k) {
               case 0: done1(h.call(&ObjSink::echo, id), [=](std::future<u64>& f) { value(f.get() == id * 3 + 1, "value"); }); break;
               case 1: {
                  std::string a(static_cast<size_t>(id % 300), static_cast<char>('a' + id % 26));
                  std::vector<int> v(id % 17);
                  done1(h.call(&ObjSink::strCall, id, a, v), [=](std::future<std::string>& f) { value(f.get() == std::to_string(id) + "/" + a + "/" + std::to_string(id % 17), "string"); });
                  break;
               }
               case 2: done1(h.call(&ObjSink::voidCall, id), [=](std::future<void>& f) { f.get(); value(true, "void"); }); break;
               case 3:
                  done1(h.call(&ObjSink::throwing, id), [=](std::future<int>& f) {
                     try { f.get(); fail("result", "throwing handle call %s delivered a value", idStr(id).c_str()); }
                     catch (const std::bad_weak_ptr&) { throw; }
                     catch (const std::runtime_error& e) { value(id % 2 == 1 && std::string(e.what()) == "call " + std::to_string(id), "exception"); }
                     catch (int v) { value(id % 2 == 0 && v == static_cast<int>(id & 0xffff), "int exception"); }
                  });
                  break;
               case 4: done1(h.call(&ObjSink::moveOnly, id), [=](std::future<std::unique_ptr<u64>>& f) { auto p = f.get(); value(p && *p == id + 7, "move-only"); }); break;
               case 5: { ObjSink* rs = raw[sk]; done1(h.call(&ObjSink::refCall, id), [=](std::future<const std::atomic<u64>&>& f) { const auto& x = f.get(); value(&x == &rs->received, "reference"); }); break; }
               case 6: done1(h.call(&ObjSink::constCall, id), [=](std::future<u64>& f) { value(f.get() == (id ^ 0x55), "const"); }); break;
               default: {
                  auto target = std::make_shared<u64>(5);
                  done1(h.call(&ObjSink::incRef, id, std::ref(*target)), [=](std::future<void>& f) { f.get(); value(*target == 5 + id, "std::ref argument"); });
                  break;
               }
               }
               if (r.chance(1, 5) && !gated) sleepUs(30);
            }
            ++done;
            while (done.load() < total + 1) shortWait();   // until the logger is destroyed
            for (auto& p : ps) p.verify();
         });
      if (gated) { sleepUs(3000); gate.release(); }
      if (removal == 0) while (done.load() < total) shortWait();
      else sleepUs(static_cast<unsigned>(c.rng.below(4000)));
      if (removal == 1) {
         for (int i = 0; i < sinks; ++i)
            if (c.rng.chance(2, 3)) { ev(REMCALL, i); w->removeSink(std::move(hs[i])); ev(REMRET, i); }
         while (done.load() < total) shortWait();
      }
      if (removal == 2 && loggers) while (done.load() < total) shortWait();   // loggers must have stopped
      for (int i = 0; i < sinks; ++i) ev(SHUTCALL, i);
      w.reset();
      ev(SHUTRET, 0);
      while (done.load() < total) shortWait();
      // a call after destruction
      for (int i = 0; i < sinks; ++i) {
         auto f = extra[i]->call(&ObjSink::echo, mkId(900, i));
         bool bad = false;
         try { f.get(); } catch (const std::bad_weak_ptr&) { bad = true; } catch (...) {}
         if (!bad) fail("future", "a call on a destroyed sink did not yield bad_weak_ptr");
      }
      ++done;
      for (auto& t : ts) t.join();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      struct CI { u64 call = ~0ull, ret = ~0ull, exec = ~0ull; int execs = 0, fut = 0, kind = 0; u32 sink = 0; };
      std::map<u64, CI> ci;
      Trace t;
      u64 shutCall = 0, shutRet = 0;
      std::map<u32, std::vector<std::pair<bool, u64>>> seq;   // per sink: (isCall, id) in execution order
      for (u64 i = 0; i < t.n; ++i) {
         const Event& e = event(i);
         if (e.kind == CALLC) { ci[e.a].call = i; ci[e.a].sink = e.actor; ci[e.a].kind = static_cast<int>(e.b); }
         if (e.kind == CALLR) ci[e.a].ret = i;
         if (e.kind == SHUTCALL && !shutCall) shutCall = i;
         if (e.kind == SHUTRET) shutRet = i;
      }
      long exact = 0;
      for (u64 i = 0; i < t.n; ++i) {
         const Event& e = event(i);
         if (e.kind == EXEC) {
            auto f = ci.find(e.a);
            if (f == ci.end()) { fail("args", "a handle call was executed with an argument nobody passed"); continue; }
            f->second.execs++;
            f->second.exec = i;
            if (f->second.sink != e.actor) fail("args", "handle call %s executed on sink %u instead of %u", idStr(e.a).c_str(), e.actor, f->second.sink);
            seq[e.actor].push_back({true, e.a});
         }
         if (e.kind == FUT) ci[e.a].fut = static_cast<int>(e.b);
         if (e.kind == RECV) seq[e.actor].push_back({false, e.a});
      }
      // a call in progress keeps its sink alive: removal takes effect at the first moment after it without one
      std::map<u32, u64> gone;
      for (int s = 0; s < sinks; ++s) {
         u64 q = t.remRet.count(s) ? t.remRet[s] : shutRet;
         std::vector<std::pair<u64, u64>> iv;
         for (auto& x : ci) if (x.second.sink == static_cast<u32>(s)) iv.push_back({x.second.call, x.second.ret});
         std::sort(iv.begin(), iv.end());
         for (auto& i : iv) if (i.first < q && i.second > q) q = i.second;
         gone[s] = q;
      }
      for (auto& x : ci) {
         auto& v = x.second;
         u64 rc = t.remCall.count(v.sink) ? t.remCall[v.sink] : shutCall, rr = gone[v.sink];
         if (v.execs > 1) fail("twice", "handle call %s executed %d times", idStr(x.first).c_str(), v.execs);
         if (v.fut == 9) fail("unresolved", "future of handle call %s (kind %d) not ready after the logger was destroyed; executed %d times", idStr(x.first).c_str(), v.kind, v.execs);
         if (v.ret < rc && v.execs != 1) fail("lost", "handle call %s (kind %d) returned before the sink's removal started but was executed %d times", idStr(x.first).c_str(), v.kind, v.execs);
         if (v.execs == 1 && v.fut == 2) fail("result", "handle call %s was executed but its future reports a removed sink", idStr(x.first).c_str());
         if (v.execs == 0 && v.fut == 1) fail("result", "handle call %s was never executed but its future delivers a result", idStr(x.first).c_str());
         if (v.call > rr && v.fut != 2) fail("removed", "handle call %s on a removed sink did not report the removal", idStr(x.first).c_str());
         if (v.fut == 1 || v.fut == 2) ++exact;
      }
      for (auto& s : seq) {
         u64 maxCall = 0, maxId = 0;
         bool maxIsCall = false;
         for (auto& it : s.second) {
            u64 cs = ~0ull, rs = ~0ull;
            if (it.first) { cs = ci[it.second].call; rs = ci[it.second].ret; }
            else { cs = t.msg[it.second].call; rs = t.msg[it.second].ret; }
            if (it.first && rs < maxCall) { fail("order", "sink %u executed handle call %s after %s %s although the call had returned before that one was made", s.first, idStr(it.second).c_str(), maxIsCall ? "handle call" : "message", idStr(maxId).c_str()); break; }
            if (cs != ~0ull && cs > maxCall) { maxCall = cs; maxId = it.second; maxIsCall = it.first; }
         }
      }
      c.stat["handle_calls"] += ci.size();
      c.stat["futures_checked"] += exact;
      u64 h = 3;
      for (auto& s : seq) for (auto& it : s.second) h = mix(h * 7 + (it.second >> 32) * 2 + it.first);
      c.distinct(h);
      c.sample(fmt("%d callers, %d loggers, %d sinks, removal mode %d, gated=%d: %zu calls, %ld futures resolved", callers, loggers, sinks, removal, gated, ci.size(), exact));
   }
};
VF_SCENARIO(P11, Calls, 5)


// calls that wait for a long time behind a blocked one; calls made by sinks to other sinks
struct LongCalls : Scenario {
   double T = 65;
   void prepare(Case& c) override { T = gThorough && c.idx % 2 ? 130 : 65; c.timeout = 60 + T; }
   void child(Case&) override {
      Gate gate;
      gate.close();
      auto w = LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<ObjSink>(0, 0, &gate), &ObjSink::recv);
      auto h2 = w->addSink(std::make_unique<ObjSink>(1), &ObjSink::recv);
      auto extra = std::make_unique<g3::SinkHandle<ObjSink>>(*h);
      g3::initializeLogging(w.get());
      LOG(INFO) << "blocks";
      std::vector<std::future<u64>> fs;
      for (u64 i = 0; i < 200; ++i) fs.push_back(h->call(&ObjSink::echo, i));
      std::vector<std::future<int>> ex;
      for (u64 i = 0; i < 20; ++i) ex.push_back(h->call(&ObjSink::throwing, 2 * i + 1));
      std::thread op([&] { sleepUs(static_cast<unsigned>(T * 1e6)); gate.release(); });
      std::atomic<bool> waited{false};
      std::thread waiter([&] { if (fs[199].get() != 199 * 3 + 1) fail("result", "wrong result after a long wait"); waited = true; });
      while (!gate.open.load(std::memory_order_relaxed)) {   // the other sink's calls go on
         h2->call(&ObjSink::voidCall, static_cast<u64>(7)).get();
         for (int i = 0; i < 199; i += 7)
            if (fs[i].wait_for(std::chrono::seconds(0)) == std::future_status::ready && !gate.open.load()) fail("early", "a call on a blocked sink was resolved");
         sleepUs(20000);
      }
      op.join();
      waiter.join();
      w->removeSink(std::move(h));
      for (int i = 0; i < 199; ++i)
         if (fs[i].wait_for(std::chrono::seconds(0)) != std::future_status::ready || fs[i].get() != static_cast<u64>(i) * 3 + 1) { fail("lost", "call %d, made %0.f s before the sink could run it, has no result", i, T); break; }
      for (int i = 0; i < 20; ++i) {
         bool ok = false;
         try { ex[i].get(); } catch (const std::runtime_error& e) { ok = e.what() == "call " + std::to_string(2 * i + 1); } catch (...) {}
         if (!ok) { fail("lost", "the exception of call %d is lost", i); break; }
      }
      bool bad = false;
      try { extra->call(&ObjSink::echo, static_cast<u64>(1)).get(); } catch (const std::bad_weak_ptr&) { bad = true; }
      if (!bad) fail("removed", "a call on a removed sink did not report it");
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      u64 n = 0, want = 0;
      for (u64 i = 0, m = eventCount(); i < m; ++i)
         if (event(i).kind == EXEC && event(i).actor == 0) { if (n < 200 ? event(i).a != n : event(i).a != 2 * (n - 200) + 1) ++want; ++n; }
      if (n != 220 || want) fail("order", "%llu calls executed instead of 220, %llu out of order", (unsigned long long)n, (unsigned long long)want);
      c.distinct(static_cast<u64>(T));
      c.stat["handle_calls"] += n;
      c.sample(fmt("220 calls behind a sink blocked for %.0f s", T));
   }
};
VF_SCENARIO(P11, LongCalls, 0)

// calls behind messages that are already waiting in the sink: the calling thread knows they reached it because a second
// sink received a later message
struct Behind : Scenario {
   int threads, rounds;
   std::vector<std::vector<std::pair<int, int>>> plan;   // per thread and round: messages, calls
   void prepare(Case& c) override {
      threads = c.rng.range(1, 4);
      rounds = c.rng.range(2, 6);
      plan.assign(threads, {});
      for (auto& p : plan) for (int r = 0; r < rounds; ++r) p.push_back({c.rng.range(0, 12), c.rng.range(0, 8)});
   }
   struct Seen {
      std::vector<std::atomic<u64>>* last;
      void recv(g3::LogMessageMover m) { u64 v = std::stoull(m.get().message()); (*last)[v / 1000000].store(v); }
   };
   static constexpr u64 at(int t, u64 n) { return static_cast<u64>(t) * 1000000 + n; }
   struct Held {
      Gate* gate;
      void recv(g3::LogMessageMover m) { gate->pass(); ev(RECV, 0, std::stoull(m.get().message())); }
      u64 run(u64 v) { ev(EXEC, 0, v); return v + 1; }
   };
   void child(Case& c) override {
      spurious(c.rng.pick({0, 100}));
      Gate gate;
      gate.close();
      std::vector<std::atomic<u64>> last(threads + 1);
      for (auto& l : last) l = 0;
      auto w = LogWorker::createLogWorker();
      const bool first = c.rng.chance(1, 2);
      auto seen = std::make_unique<Seen>();
      seen->last = &last;
      auto held = std::make_unique<Held>();
      held->gate = &gate;
      std::unique_ptr<g3::SinkHandle<Held>> h;
      if (first) h = w->addSink(std::move(held), &Held::recv);
      w->addSink(std::move(seen), &Seen::recv);
      if (!first) h = w->addSink(std::move(held), &Held::recv);
      g3::initializeLogging(w.get());
      LOG(INFO) << at(threads, 1);   // blocks the held sink
      std::vector<std::vector<std::pair<u64, std::future<u64>>>> fs(threads);
      inThreads(threads, [&](int t) {
         u64 n = 0;
         for (auto& r : plan[t]) {
            for (int i = 0; i < r.first; ++i) LOG(INFO) << at(t, ++n);
            if (r.second) {
               // of two further messages, when the second is received by one sink the worker is done with the first and all before it
               const u64 a = ++n, b = ++n;
               LOG(INFO) << at(t, a);
               LOG(INFO) << at(t, b);
               while (last[t].load() < at(t, b)) shortWait();
               // b itself may not have reached the held sink yet
               LOG(INFO) << at(t, ++n);
               while (last[t].load() < at(t, n)) shortWait();
            }
            for (int i = 0; i < r.second; ++i) {
               const u64 id = at(t, 500000 + ++n);   // calls and messages are counted together
               fs[t].push_back({id, h->call(&Held::run, id)});
            }
         }
      });
      gate.release();
      for (auto& f : fs) for (auto& x : f) if (x.second.get() != x.first + 1) fail("result", "call %llu returned a wrong value", (unsigned long long)x.first);
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::vector<std::vector<std::pair<bool, u64>>> got(threads);
      u64 calls = 0, msgs = 0;
      u64 hsh = 11;
      for (u64 i = 0, m = eventCount(); i < m; ++i) {
         const Event& e = event(i);
         if (e.kind != RECV && e.kind != EXEC) continue;
         u64 t = e.a / 1000000, v = e.a % 1000000;
         if (t >= static_cast<u64>(threads)) continue;
         const bool call = e.kind == EXEC;
         got[t].push_back({call, call ? v - 500000 : v});
         hsh = mix(hsh * 7 + t * 2 + call);
         ++(call ? calls : msgs);
      }
      for (int t = 0; t < threads; ++t) {
         // a call comes after every message that reached the sink before it was made and before every later message: when
         // calls follow, the last message of a round may have been under way still, all others had arrived
         std::map<u64, size_t> pos;
         for (size_t i = 0; i < got[t].size(); ++i) {
            if (!pos.emplace(got[t][i].second, i).second) { fail("twice", "entry %llu of thread %d seen twice", (unsigned long long)got[t][i].second, t); return; }
         }
         u64 n = 0;
         std::vector<std::pair<u64, int>> seq;   // number, 0 message 1 call 2 message under way
         for (auto& r : plan[t]) {
            for (int i = 0; i < r.first; ++i) seq.push_back({++n, 0});
            if (r.second) { seq.push_back({++n, 0}); seq.push_back({++n, 0}); seq.push_back({++n, 2}); }
            for (int i = 0; i < r.second; ++i) seq.push_back({++n, 1});
         }
         long top = -1;
         u64 topN = 0;
         long under = -1;
         for (auto& s : seq) {
            auto f = pos.find(s.first);
            if (f == pos.end()) { fail("lost", "%s %llu of thread %d never reached the sink", s.second == 1 ? "call" : "message", (unsigned long long)s.first, t); return; }
            const long p = static_cast<long>(f->second);
            if (p < top) { fail("order", "%s %llu of thread %d was processed before number %llu, which had reached the sink before it", s.second == 1 ? "call" : "message", (unsigned long long)s.first, t, (unsigned long long)topN); return; }
            if (s.second == 0 && p < under) { fail("order", "message %llu of thread %d overtook an earlier message", (unsigned long long)s.first, t); return; }
            if (s.second == 2) under = p; else { top = p; topN = s.first; }
         }
      }
      c.distinct(hsh);
      c.stat["handle_calls"] += calls;
      c.stat["messages_waiting"] += msgs;
      c.sample(fmt("%d threads, %d rounds: %llu calls behind and before %llu messages waiting in a blocked sink", threads, rounds, (unsigned long long)calls, (unsigned long long)msgs));
   }
};
VF_SCENARIO(P11, Behind, 2)

// a sink that uses the handles of other sinks (and its own) while it processes messages and calls
struct Chained : Scenario {
   int sinks, n, threads;
   void prepare(Case& c) override { sinks = c.rng.range(2, 4); n = c.rng.range(10, kTsan || kAsan ? 40 : 120); threads = c.rng.range(1, 3); }
   struct Node {
      u32 id;
      std::vector<std::unique_ptr<g3::SinkHandle<Node>>>* all;
      std::atomic<int> inside{0};
      u64 msgs = 0;
      std::vector<std::future<u64>> made;
      ~Node() { ev(DTOR, id); }
      u64 leaf(u64 v) {
         if (inside.fetch_add(1)) fail("overlap", "two calls in sink %u", id);
         ev(EXEC, id, v, 0, tid());
         inside.fetch_sub(1);
         return v + 1;
      }
      u64 relay(u64 v, u32 hops) {
         if (inside.fetch_add(1)) fail("overlap", "two calls in sink %u", id);
         ev(EXEC, id, v, hops, tid());
         u64 out = v;
         if (hops) made.push_back((*all)[(id + hops) % all->size()]->call(&Node::relay, v + 1, hops - 1));   // may be this sink itself: not waited for
         inside.fetch_sub(1);
         return out;
      }
      void recv(g3::LogMessageMover) {
         if (inside.fetch_add(1)) fail("overlap", "two calls in sink %u", id);
         ++msgs;
         if (id && all) {   // waits for the answer of a sink with a lower number: no cycle
            u64 v = (*all)[id - 1]->call(&Node::leaf, msgs * 100 + id).get();
            if (v != msgs * 100 + id + 1) fail("result", "wrong answer from another sink");
         }
         inside.fetch_sub(1);
         processed->fetch_add(1, std::memory_order_relaxed);
      }
      std::atomic<u64>* processed;
   };
   void child(Case& c) override {
      spurious(c.rng.pick({0, 100}));
      std::atomic<u64> processed{0};
      std::vector<std::unique_ptr<g3::SinkHandle<Node>>> hs(sinks);
      auto w = LogWorker::createLogWorker();
      for (int i = 0; i < sinks; ++i) { auto s = std::make_unique<Node>(); s->id = i; s->all = &hs; s->processed = &processed; hs[i] = w->addSink(std::move(s), &Node::recv); }
      g3::initializeLogging(w.get());
      inThreads(threads, [&](int t) {
         for (int i = 0; i < n; ++i) {
            LOG(INFO) << t << ":" << i;
            if (i % 5 == 0) hs[(i + t) % sinks]->call(&Node::relay, static_cast<u64>(1000000 * (t + 1) + i * 100), 4u).get();
         }
      });
      // the sinks go one after the other: no calls between them any more by then
      while (processed.load(std::memory_order_relaxed) < static_cast<u64>(threads) * n * sinks) shortWait();
      // relays may still be under way: one round over all sinks per hop
      for (int k = 0; k < 6; ++k) for (auto& h : hs) h->call(&Node::leaf, static_cast<u64>(0)).get();
      ev(SHUTCALL, 0);
      w.reset();
      ev(SHUTRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::map<u64, int> exec;
      int d = 0;
      u64 leafs = 0;
      for (u64 i = 0, m = eventCount(); i < m; ++i) {
         const Event& e = event(i);
         if (e.kind == DTOR) ++d;
         if (e.kind == EXEC && e.a >= 1000000) exec[e.a]++;
         else if (e.kind == EXEC && e.a) ++leafs;
      }
      if (d != sinks) fail("destroy", "%d of %d sinks destroyed", d, sinks);
      u64 want = 0;
      for (int t = 0; t < threads; ++t)
         for (int i = 0; i < n; i += 5)
            for (int k = 0; k < 5; ++k) {
               ++want;
               int x = exec[1000000ull * (t + 1) + i * 100 + k];
               if (x != 1) { fail(x ? "twice" : "lost", "a call made by a sink was executed %d times", x); return; }
            }
      if (leafs != static_cast<u64>(threads) * n * (sinks - 1)) fail("lost", "%llu of %d calls between sinks executed", (unsigned long long)leafs, threads * n * (sinks - 1));
      c.stat["handle_calls"] += want + leafs;
      c.distinct(mix(sinks * 1000 + n * 10 + threads));
      c.sample(fmt("%d sinks calling each other, %d threads: %llu calls", sinks, threads, (unsigned long long)(want + leafs)));
   }
};
VF_SCENARIO(P11, Chained, 1)
}  // namespace
