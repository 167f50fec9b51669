// P22: recorded histories of the shared queue, the task runner and spawned tasks.
#include "common.hpp"
#include "g3log/active.hpp"
#include "g3log/future.hpp"
#include "g3log/shared_queue.hpp"
using namespace cm;
namespace {
enum : u32 { QPUSH = 40, QPUSHED, QPOP, QPOPPED, QEMPTY, QSIZE, QSIZED, QISEMPTY, QWASEMPTY, SEND, SENT, RUN, RAN, DESTROY, DESTROYED };
constexpr u64 INF = ~0ull;

template <class T> struct Item;
template <> struct Item<u64> {
   static u64 make(u64 id) { return id; }
   static u64 id(u64 v) { return v; }
};
template <> struct Item<std::string> {
   static std::string make(u64 id) { return std::string(id % 60, 'x') + "|" + std::to_string(id); }
   static u64 id(const std::string& s) {
      auto p = s.find('|');
      if (p == s.npos) return INF - 1;
      u64 v = strtoull(s.c_str() + p + 1, nullptr, 10);
      return s == make(v) ? v : INF - 1;
   }
};
template <> struct Item<std::unique_ptr<u64>> {
   static std::unique_ptr<u64> make(u64 id) { return std::make_unique<u64>(id); }
   static u64 id(const std::unique_ptr<u64>& p) { return p ? *p : INF - 1; }
};

struct Hist { u64 pc = INF, pr = INF, oc = INF, orr = INF; int pushes = 0, pops = 0; };
struct Queue : Scenario {
   int producers = 1, consumers = 1, items = 0, type = 0, observers = 0, prefill = 0, pause = 0;
   u64 seed = 0;
   void prepare(Case& c) override {
      Rng& r = c.rng;
      producers = r.range(1, 5);
      consumers = r.range(1, 5);
      items = r.pick({1, 2, 5, 30, 200, 800}) * (gThorough && r.chance(1, 3) ? 5 : 1);
      type = r.range(0, 2);
      observers = r.pick({0, 0, 1, 2});
      prefill = r.pick({0, 0, 3, 50});
      pause = r.pick({0, 0, 1, 2});
      seed = r.next();
      if (!kTsan && r.chance(1, 2)) pauseSpur = 30;
   }
   int pauseSpur = 0;
   template <class T> void run() {
      shared_queue<T> q;
      auto push = [&q](u32 th, u64 id) {
         T v = Item<T>::make(id);
         ev(QPUSH, th, id);
         q.push(std::move(v));
         ev(QPUSHED, th, id);
      };
      auto tryPop = [&q](u32 th) {
         T v{};
         u64 call = ev(QPOP, th);
         if (q.try_and_pop(v)) { ev(QPOPPED, th, Item<T>::id(v), call); return true; }
         ev(QEMPTY, th, 0, call);
         return false;
      };
      for (int i = 0; i < prefill; ++i) push(99, mkId(99, i));
      std::atomic<long> tickets{static_cast<long>(producers) * items + prefill};
      std::atomic<int> alive{producers};
      std::atomic<bool> stop{false};
      std::vector<std::thread> ts, obs;
      for (int t = 0; t < producers; ++t)
         ts.emplace_back([&, t] {
            Rng r(seed + t);
            for (int i = 0; i < items; ++i) {
               if (pause && r.chance(1, pause == 2 ? 3 : 40)) sleepUs(static_cast<unsigned>(r.below(150)));
               push(t, mkId(t, i));
            }
            alive.fetch_sub(1, std::memory_order_relaxed);
         });
      for (int t = 0; t < consumers; ++t)
         ts.emplace_back([&, t] {
            Rng r(seed + 100 + t);
            int style = r.range(0, 2);
            u32 me = 200 + t;
            while (true) {
               bool wait = style == 0 || (style == 1 && r.chance(1, 2));
               if (wait) {  // a ticket guarantees that an item comes
                  if (tickets.fetch_sub(1, std::memory_order_relaxed) <= 0) { tickets.fetch_add(1, std::memory_order_relaxed); break; }
                  T v{};
                  u64 call = ev(QPOP, me);
                  q.wait_and_pop(v);
                  ev(QPOPPED, me, Item<T>::id(v), call);
               } else {
                  if (tickets.fetch_sub(1, std::memory_order_relaxed) <= 0) { tickets.fetch_add(1, std::memory_order_relaxed); break; }
                  while (!tryPop(me)) { if (r.chance(1, 3)) shortWait(); else std::this_thread::yield(); }
               }
               if (pause && r.chance(1, 30)) sleepUs(static_cast<unsigned>(r.below(200)));
            }
         });
      for (int t = 0; t < observers; ++t)
         obs.emplace_back([&, t] {
            for (int i = 0; i < 400 && !stop.load(std::memory_order_relaxed); ++i) {
               u64 call = ev(QSIZE, 300 + t);
               if (i % 2) ev(QSIZED, 300 + t, q.size(), call);
               else ev(QWASEMPTY, 300 + t, q.empty(), call);
               if (i % 7 == 0) shortWait();
            }
         });
      for (auto& t : ts) t.join();
      stop.store(true);
      for (auto& t : obs) t.join();
      if (!q.empty() || q.size()) fail("conservation", "queue holds %u items after as many pops as pushes", q.size());
      tryPop(400);
   }
   void child(Case&) override {
      if (pauseSpur) spurious(pauseSpur);
      if (type == 0) run<u64>();
      else if (type == 1) run<std::string>();
      else run<std::unique_ptr<u64>>();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::unordered_map<u64, Hist> h;
      struct Q { u64 call, ret; u64 val; int kind; };
      std::vector<Q> qs;
      u64 n = eventCount(), order = 3;
      for (u64 i = 0; i < n; ++i) {
         const Event& e = event(i);
         switch (e.kind) {
         case QPUSH: h[e.a].pc = i; ++h[e.a].pushes; break;
         case QPUSHED: h[e.a].pr = i; break;
         case QPOPPED:
            if (!h.count(e.a)) { fail("invented", "a pop returned the item %llx that was never pushed (or damaged)", (unsigned long long)e.a); return; }
            h[e.a].oc = e.b; h[e.a].orr = i;
            order = mix(order * 31 + e.a + e.actor);
            if (++h[e.a].pops > 1) { fail("duplicate", "item %s popped twice", idStr(e.a).c_str()); return; }
            break;
         case QEMPTY: qs.push_back({e.b, i, 0, 0}); break;
         case QSIZED: qs.push_back({e.b, i, e.a, 1}); break;
         case QWASEMPTY: qs.push_back({e.b, i, e.a, e.a ? 0 : 2}); break;
         default: break;
         }
      }
      std::vector<const Hist*> v;
      for (auto& p : h) {
         v.push_back(&p.second);
         if (!p.second.pops) { fail("loss", "item %s was pushed and never popped", idStr(p.first).c_str()); return; }
         if (p.second.oc != INF && p.second.orr < p.second.pc) { fail("invented", "item %s popped before it was pushed", idStr(p.first).c_str()); return; }
      }
      // FIFO: push(x) returned before push(y) was called, pop(y) returned before pop(x) was called
      std::sort(v.begin(), v.end(), [](const Hist* a, const Hist* b) { return a->pr < b->pr; });
      std::vector<u64> rets, mx;
      u64 m = 0;
      for (auto* x : v) { rets.push_back(x->pr); m = std::max(m, x->oc); mx.push_back(m); }
      for (auto* y : v) {
         size_t k = std::lower_bound(rets.begin(), rets.end(), y->pc) - rets.begin();
         if (k && mx[k - 1] > y->orr) { fail("order", "an item pushed earlier was popped only after a later one had been popped (stamps %llu > %llu)", (unsigned long long)mx[k - 1], (unsigned long long)y->orr); return; }
      }
      // number of items certainly / possibly in the queue at every stamp
      std::vector<int> sure(n + 2, 0), may(n + 2, 0);
      for (auto* x : v) {
         if (x->pr + 1 <= x->oc) { ++sure[x->pr]; --sure[std::min(x->oc, n)]; }
         ++may[x->pc];
         if (x->orr < n) --may[x->orr];
      }
      for (u64 i = 1; i <= n; ++i) { sure[i] += sure[i - 1]; may[i] += may[i - 1]; }
      u64 empties = 0;
      for (auto& q : qs) {
         int lo = 1 << 30, hi = 0;
         for (u64 i = q.call; i < q.ret; ++i) { lo = std::min(lo, sure[i]); hi = std::max(hi, may[i]); }
         if (q.kind == 0) { ++empties; if (lo > 0) { fail("empty", "the queue was reported empty although it held at least %d items during the whole call", lo); return; } }
         if (q.kind == 1 && (static_cast<int>(q.val) < lo || static_cast<int>(q.val) > hi)) { fail("size", "size() gave %llu, but between %d and %d items were in the queue", (unsigned long long)q.val, lo, hi); return; }
         if (q.kind == 2 && hi == 0) { fail("empty", "the queue was reported non-empty although it was empty during the whole call"); return; }
      }
      c.distinct(order);
      c.stat["items"] += static_cast<double>(v.size());
      c.stat["empty_results_judged"] += static_cast<double>(empties);
      c.stat["size_results_judged"] += static_cast<double>(qs.size()) - empties;
      c.sample(fmt("%d producers x %d, %d consumers, type %d", producers, items, consumers, type));
   }
};
VF_SCENARIO(P22, Queue, 4)

// consumers that are certainly blocked, then single pushes
struct Wake : Scenario {
   int consumers = 1;
   int rounds = 1, burst = 1;
   void prepare(Case& c) override {
      consumers = c.rng.range(1, 6);
      rounds = c.rng.range(1, 12);
      burst = c.rng.range(1, consumers);
   }
   void child(Case& c) override {
      if (c.seed % 2 && !kTsan) spurious(50);
      shared_queue<u64> q;
      std::atomic<long> got{0};
      std::vector<std::thread> ts;
      for (int t = 0; t < consumers; ++t)
         ts.emplace_back([&, t] {
            for (;;) {
               u64 v = 0;
               q.wait_and_pop(v);
               if (v == INF) return;
               ev(QPOPPED, t, v);
               got.fetch_add(1);
            }
         });
      long pushed = 0;
      for (int i = 0; i < rounds; ++i) {
         sleepUs(300);  // normally all consumers wait now
         std::vector<std::thread> ps;
         for (int b = 0; b < burst; ++b) {
            if (b % 2) ps.emplace_back([&, i, b] { q.push(mkId(i + 1, b)); });
            else q.push(mkId(i + 1, b));
            ++pushed;
         }
         for (auto& p : ps) p.join();
         double t0 = nowS();
         while (got.load() < pushed) {
            if (nowS() - t0 > 8) { fail("wake", "%ld pushed, only %ld popped: a blocked consumer was not woken", pushed, got.load()); _exit(0); }
            shortWait();
         }
         if (got.load() != pushed) fail("duplicate", "%ld pushed, %ld popped", pushed, got.load());
      }
      for (int t = 0; t < consumers; ++t) q.push(INF);
      for (auto& t : ts) t.join();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      u64 h = consumers;
      for (u64 i = 0; i < eventCount(); ++i) h = mix(h * 31 + event(i).actor);
      c.distinct(h);
      c.stat["wake_ups"] += static_cast<double>(eventCount());
   }
};
VF_SCENARIO(P22, Wake, 1)

struct Token {
   static std::atomic<long>& live() { static std::atomic<long> n{0}; return n; }
   Token() { live().fetch_add(1, std::memory_order_relaxed); }
   Token(const Token&) { live().fetch_add(1, std::memory_order_relaxed); }
   ~Token() { live().fetch_sub(1, std::memory_order_relaxed); }
};
struct Runner : Scenario {
   int senders = 1, tasks = 1, nested = 0, slow = 0, lifetimes = 1;
   bool gated = false;
   u64 seed = 0;
   void prepare(Case& c) override {
      Rng& r = c.rng;
      senders = r.range(1, 5);
      tasks = r.pick({1, 3, 40, 300});
      nested = r.pick({0, 0, 1, 2});
      slow = r.pick({0, 0, 1});
      lifetimes = r.range(1, 4);
      gated = r.chance(1, 3);
      seed = r.next();
   }
   static void body(u64 id) {
      ev(RUN, 0, id, 0, tid());
      ev(RAN, 0, id, 0, tid());
   }
   struct Task {
      u64 id;
      Token token;
      kjellkod::Active* a;
      int nest;
      bool slow;
      std::string load;
      void operator()() {
         ev(RUN, 0, id, load == std::string(id % 100, 'p'), tid());
         if (slow && id % 13 == 0) sleepUs(200);
         if (nest > 0 && id % 3 == 0) {
            u64 sub = id | (u64(nest) << 60);
            ev(SEND, 1000, sub);
            a->send(Task{sub, Token(), a, nest - 1, slow, std::string(sub % 100, 'p')});
            ev(SENT, 1000, sub);
         }
         ev(RAN, 0, id, 0, tid());
      }
   };
   void child(Case&) override {
      for (int life = 0; life < lifetimes; ++life) {
         auto act = kjellkod::Active::createActive();
         Gate gate;
         if (gated) {
            gate.close();
            u64 id = mkId(90 + life * 100, 0);
            ev(SEND, 90, id);
            act->send([&gate, id] { ev(RUN, 0, id, 1, tid()); gate.pass(); ev(RAN, 0, id, 0, tid()); });
            ev(SENT, 90, id);
         }
         kjellkod::Active* a = act.get();
         std::thread opener;
         inThreads(senders, [&, a](int t) {
            for (int i = 0; i < tasks; ++i) {
               u64 id = mkId(t + 1 + life * 100, i);
               Task k{id, Token(), a, nested, slow != 0, std::string(id % 100, 'p')};
               ev(SEND, t, id, 0, tid());
               a->send(k);
               ev(SENT, t, id, 0, tid());
            }
         });
         if (gated) opener = std::thread([&] { sleepUs(300); gate.release(); });
         ev(DESTROY, 0, life, 0, tid());
         act.reset();
         ev(DESTROYED, 0, life, 0, tid());
         if (opener.joinable()) opener.join();
         if (long n = Token::live().load()) fail("leak", "%ld task objects live after the runner was destroyed", n);
      }
      if (!kTsan && threadCount() != 1) { sleepUs(20000); if (threadCount() != 1) fail("thread", "%ld threads left", threadCount()); }
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      struct T { u64 sc = INF, sr = INF, run = INF, ran = INF; int n = 0; };
      std::unordered_map<u64, T> h;
      std::vector<u64> destroy, destroyed;
      std::set<u64> senderTids;
      std::vector<std::set<u64>> runTids(1);
      u64 open = INF, order = 1;
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind == SEND) { h[e.a].sc = i; if (e.actor < 100 && e.c) senderTids.insert(e.c); }
         if (e.kind == SENT) h[e.a].sr = i;
         if (e.kind == RUN) {
            if (open != INF) { fail("overlap", "task %s started while task %s ran", idStr(e.a).c_str(), idStr(open).c_str()); return; }
            open = e.a;
            if (!h.count(e.a)) { fail("invented", "unknown task %s", idStr(e.a).c_str()); return; }
            if (!e.b) { fail("corrupt", "task %s lost its captured data", idStr(e.a).c_str()); return; }
            h[e.a].run = i;
            if (++h[e.a].n > 1) { fail("duplicate", "task %s executed twice", idStr(e.a).c_str()); return; }
            order = mix(order * 31 + (e.a >> 32));
            runTids.back().insert(e.c);
            if (destroyed.size() > destroy.size()) fail("late", "task after destruction");
            if (destroy.size() == destroyed.size() && destroy.size() == static_cast<size_t>(lifetimes)) { fail("late", "task %s executed after the runner's destruction had returned", idStr(e.a).c_str()); return; }
         }
         if (e.kind == RAN) { open = INF; h[e.a].ran = i; }
         if (e.kind == DESTROY) destroy.push_back(i);
         if (e.kind == DESTROYED) { destroyed.push_back(i); runTids.emplace_back(); }
      }
      for (auto& s : runTids) {
         if (s.size() > 1) { fail("thread", "the tasks of one runner were executed by %zu threads", s.size()); return; }
         for (u64 t : s) if (senderTids.count(t)) { fail("thread", "a task was executed on the thread that sent it"); return; }
      }
      std::vector<const T*> v;
      for (auto& p : h) {
         size_t life = ((p.first >> 32) & 0xfffffff) / 100;
         bool before = p.second.sr != INF && p.second.sr < destroy[life];
         if (before && !p.second.n) { fail("loss", "task %s was submitted before the destruction and never executed", idStr(p.first).c_str()); return; }
         if (before && p.second.ran > destroyed[life]) { fail("late", "task %s had not ended when the destruction returned", idStr(p.first).c_str()); return; }
         v.push_back(&p.second);
      }
      std::sort(v.begin(), v.end(), [](const T* a, const T* b) { return a->sr < b->sr; });
      std::vector<u64> rets, mx;
      u64 m = 0;
      for (auto* x : v) { rets.push_back(x->sr); if (x->n) m = std::max(m, x->run); mx.push_back(m); }
      for (auto* y : v) {
         if (!y->n) continue;
         size_t k = std::lower_bound(rets.begin(), rets.end(), y->sc) - rets.begin();
         if (k && mx[k - 1] > y->run) { fail("order", "a task submitted earlier ran after one submitted later"); return; }
      }
      c.distinct(order);
      c.stat["tasks"] += static_cast<double>(v.size());
      c.sample(fmt("%d senders x %d tasks, %d runners, nesting %d", senders, tasks, lifetimes, nested));
   }
};
VF_SCENARIO(P22, Runner, 3)

struct Spawn : Scenario {
   int threads = 1, n = 1;
   u64 seed = 0;
   bool late = false;
   void prepare(Case& c) override { threads = c.rng.range(1, 4); n = c.rng.pick({5, 30, 120}); seed = c.rng.next(); late = c.rng.chance(1, 2); }
   struct MoveOnlyFn {
      std::unique_ptr<u64> p;
      u64 operator()() { return *p + 5; }
   };
   static u64 freeFn() { return 4242; }
   template <class F> static std::string err(F&& f) {
      try { f(); } catch (const std::exception& e) { return e.what(); } catch (int v) { return "int " + std::to_string(v); } catch (...) { return "other"; }
      return "";
   }
   static void expectErr(const std::string& got, const std::string& want, const char* what) {
      if (got != want) fail("future", "%s: got '%s', expected '%s'", what, got.c_str(), want.c_str());
   }
   void child(Case&) override {
      auto act = kjellkod::Active::createActive();
      kjellkod::Active* w = act.get();
      kjellkod::Active* none = nullptr;
      static std::atomic<u64> ran[8];
      std::vector<std::vector<std::function<void()>>> later(threads);
      inThreads(threads, [&](int t) {
         Rng r(seed + t);
         u64 execWant = 0;
         (void)execWant;
         for (int i = 0; i < n; ++i) {
            u64 id = mkId(t + 1, i);
            int k = r.range(0, 9);
            ev(SEND, t, id, k);
            std::function<void()> chk;
            auto cnt = &ran[t];
            if (k == 0) { auto f = std::make_shared<std::future<u64>>(g3::spawn_task([id, cnt] { cnt->fetch_add(1); ev(RUN, 0, id, 0, tid()); return id * 7; }, w)); chk = [f, id] { u64 v = f->get(); if (v != id * 7) fail("future", "value %llx instead of %llx", (unsigned long long)v, (unsigned long long)id * 7); }; }
            else if (k == 1) { auto f = std::make_shared<std::future<std::string>>(g3::spawn_task([id, cnt] { cnt->fetch_add(1); ev(RUN, 0, id, 0, tid()); return std::string(id % 3000, 'z'); }, w)); chk = [f, id] { if (f->get() != std::string(id % 3000, 'z')) fail("future", "wrong string"); }; }
            else if (k == 2) { auto f = std::make_shared<std::future<void>>(g3::spawn_task([id, cnt] { cnt->fetch_add(1); ev(RUN, 0, id, 0, tid()); }, w)); chk = [f] { f->get(); }; }
            else if (k == 3) { auto f = std::make_shared<std::future<u64>>(g3::spawn_task([id, cnt]() -> u64 { cnt->fetch_add(1); ev(RUN, 0, id, 0, tid()); throw std::runtime_error("task " + std::to_string(id)); }, w)); chk = [f, id] { expectErr(err([&] { f->get(); }), "task " + std::to_string(id), "exception"); }; }
            else if (k == 4) { auto f = std::make_shared<std::future<void>>(g3::spawn_task([id, cnt]() { cnt->fetch_add(1); ev(RUN, 0, id, 0, tid()); throw static_cast<int>(id & 0xfff); }, w)); chk = [f, id] { expectErr(err([&] { f->get(); }), "int " + std::to_string(id & 0xfff), "exception"); }; }
            else if (k == 5) { auto f = std::make_shared<std::future<u64>>(g3::spawn_task(MoveOnlyFn{std::make_unique<u64>(id)}, w)); ev(RUN, 9, id); cnt->fetch_add(1); chk = [f, id] { if (f->get() != id + 5) fail("future", "move-only task: wrong value"); }; }
            else if (k == 6) { auto f = std::make_shared<std::future<std::unique_ptr<u64>>>(g3::spawn_task([id, cnt] { cnt->fetch_add(1); ev(RUN, 0, id, 0, tid()); return std::make_unique<u64>(id); }, w)); chk = [f, id] { auto p = f->get(); if (!p || *p != id) fail("future", "move-only result"); }; }
            else if (k == 7) { static u64 target[8]; auto f = std::make_shared<std::future<u64&>>(g3::spawn_task([id, cnt, t]() -> u64& { cnt->fetch_add(1); ev(RUN, 0, id, 0, tid()); return target[t]; }, w)); chk = [f, t] { if (&f->get() != &target[t]) fail("future", "reference result"); }; }
            else {  // no runner: an error through the future, the task does not run
               auto f = std::make_shared<std::future<u64>>(g3::spawn_task([id] { ev(RUN, 0, id, 0, tid()); fail("future", "a task ran without a runner"); return id; }, none));
               auto g = std::make_shared<std::future<void>>(g3::spawn_task([] { fail("future", "a task ran without a runner"); }, none));
               auto h = std::make_shared<std::future<std::unique_ptr<u64>>>(g3::spawn_task([] { return std::make_unique<u64>(1); }, none));
               chk = [f, g, h] {
                  for (int q = 0; q < 1; ++q) {
                     if (f->wait_for(std::chrono::seconds(0)) != std::future_status::ready) fail("future", "no runner: the future is not ready");
                     std::string a = err([&] { f->get(); }), b = err([&] { g->get(); }), e = err([&] { h->get(); });
                     if (a.empty() || b.empty() || e.empty()) fail("future", "no runner: no error ('%s', '%s', '%s')", a.c_str(), b.c_str(), e.c_str());
                  }
               };
               cnt->fetch_add(1);
            }
            ev(SENT, t, id);
            if (late) later[t].push_back(chk);
            else if (r.chance(1, 2)) chk();
            else later[t].push_back(chk);
         }
         if (!late) { for (auto& f : later[t]) f(); later[t].clear(); }
      });
      act.reset();
      for (auto& l : later) for (auto& f : l) f();  // resolved although the runner is gone
      for (int t = 0; t < threads; ++t) if (ran[t].load() != static_cast<u64>(n)) fail("count", "%llu of %d tasks ran", (unsigned long long)ran[t].load(), n);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      u64 h = 1;
      std::map<u64, u64> last;
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind != RUN || e.actor != 0) continue;
         h = mix(h * 31 + e.a);
         u64 th = e.a >> 32;
         if (last.count(th) && last[th] >= e.a) fail("order", "spawned tasks of one thread ran out of order");
         last[th] = e.a;
      }
      c.distinct(h);
      c.stat["futures"] += 1.0 * threads * n;
      c.sample(fmt("%d threads x %d futures", threads, n));
   }
};
VF_SCENARIO(P22, Spawn, 2)

// ---- waits far longer than those of a test, and very long queues ----
struct LongQueue : Scenario {
   int mode = 0;   // 0 queue of many items, 1 runner with many tasks, 2 consumers blocked long, 3 idle runner, 4 a task that takes long, 5 many futures
   u64 n = 0;
   double T = 65;
   void prepare(Case& c) override {
      mode = static_cast<int>(c.idx % 6);
      n = gThorough ? 3000000 : 400000;
      if (gThorough && c.idx % 4 == 3) T = 130;
      c.timeout = T + 90;
   }
   void child(Case&) override {
      perturb(0, 1);
      if (mode == 0) {
         shared_queue<u64> q;
         u64 v = 0;
         for (u64 i = 0; i < n; ++i) q.push(i);
         if (q.size() != n) fail("size", "%llu items pushed, size() is %llu", (unsigned long long)n, (unsigned long long)q.size());
         for (u64 i = 0; i < n; ++i) {
            if (i % 2) q.wait_and_pop(v);
            else if (!q.try_and_pop(v)) { fail("loss", "%llu items pushed, only %llu popped", (unsigned long long)n, (unsigned long long)i); return; }
            if (v != i) { fail("order", "item %llu popped at position %llu of %llu", (unsigned long long)v, (unsigned long long)i, (unsigned long long)n); return; }
         }
         if (q.try_and_pop(v) || !q.empty()) fail("invented", "an item is left");
      } else if (mode == 1) {
         Gate gate;
         gate.close();
         std::atomic<u64> done{0}, bad{0};
         auto a = kjellkod::Active::createActive();
         a->send([&gate] { gate.pass(); });
         for (u64 i = 0; i < n; ++i) a->send([&done, &bad, i] { if (done.fetch_add(1, std::memory_order_relaxed) != i) bad.fetch_add(1, std::memory_order_relaxed); });
         std::thread opener([&gate] { sleepUs(30000); gate.release(); });
         a.reset();
         if (done.load() != n) fail("loss", "%llu of %llu tasks were executed", (unsigned long long)done.load(), (unsigned long long)n);
         if (bad.load()) fail("order", "%llu of %llu tasks were executed out of order", (unsigned long long)bad.load(), (unsigned long long)n);
         opener.join();
      } else if (mode == 2) {
         shared_queue<u64> q;
         std::atomic<u64> sum{0}, got{0};
         std::vector<std::thread> ts;
         for (int t = 0; t < 3; ++t) ts.emplace_back([&] { for (int i = 0; i < 2; ++i) { u64 v = 0; q.wait_and_pop(v); sum.fetch_add(v); got.fetch_add(1); } });
         sleepUs(static_cast<unsigned>(T * 1e6));
         if (got.load()) fail("invented", "%llu items popped from an empty queue after %.0f s", (unsigned long long)got.load(), T);
         for (u64 i = 1; i <= 6; ++i) { q.push(u64(1) << (4 * i)); sleepUs(100000); }
         for (auto& t : ts) t.join();
         if (sum.load() != 0x1111110) fail("loss", "consumers that waited for %.0f s popped items of sum %llx", T, (unsigned long long)sum.load());
      } else if (mode == 3) {
         std::atomic<int> done{0};
         auto a = kjellkod::Active::createActive();
         a->send([&done] { done.fetch_add(1); });
         sleepUs(static_cast<unsigned>(T * 1e6));
         auto f = g3::spawn_task([&done] { done.fetch_add(1); return 17; }, a.get());
         for (int i = 0; i < 10; ++i) a->send([&done] { done.fetch_add(1); });
         if (f.get() != 17) fail("future", "wrong result after %.0f s without a task", T);
         a.reset();
         if (done.load() != 12) fail("loss", "after %.0f s without a task %d of 12 tasks were executed", T, done.load());
      } else if (mode == 4) {
         std::atomic<int> done{0};
         auto a = kjellkod::Active::createActive();
         const double t = T;
         auto f = g3::spawn_task([&done, t] { sleepUs(static_cast<unsigned>(t * 1e6)); done.fetch_add(1); return 17; }, a.get());
         for (int i = 0; i < 10; ++i) a->send([&done] { done.fetch_add(1); });
         std::thread waiter([&f] { if (f.get() != 17) fail("future", "wrong result"); });
         a.reset();
         if (done.load() != 11) fail("loss", "the runner's destruction, behind a task that takes %.0f s, returned when %d of 11 tasks were executed", T, done.load());
         waiter.join();
      } else {
         Gate gate;
         gate.close();
         auto a = kjellkod::Active::createActive();
         a->send([&gate] { gate.pass(); });
         std::vector<std::future<u64>> fs;
         const u64 m = n / 4;
         for (u64 i = 0; i < m; ++i) fs.push_back(g3::spawn_task([i] { return i * 3; }, a.get()));
         gate.release();
         a.reset();
         for (u64 i = 0; i < m; ++i) {
            u64 v = ~0ull;
            try { v = fs[i].get(); } catch (const std::exception& e) { fail("future", "future %llu of %llu: %s", (unsigned long long)i, (unsigned long long)m, e.what()); return; }
            if (v != i * 3) { fail("future", "future %llu of %llu is %llu", (unsigned long long)i, (unsigned long long)m, (unsigned long long)v); return; }
         }
      }
      ev(MARK, 0, mode);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      c.distinct(mode);
      c.stat[mode == 0 || mode == 1 || mode == 5 ? "items_in_long_backlogs" : "seconds_blocked"] += mode == 0 || mode == 1 || mode == 5 ? static_cast<double>(n) : T;
      c.sample(fmt("mode %d", mode));
   }
};
VF_SCENARIO(P22, LongQueue, 0)
}  // namespace
