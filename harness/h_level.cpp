// P13: dynamic log levels against a reference map, alone and with concurrent loggers
#include <climits>
#include "common.hpp"
using namespace vf;
using namespace cm;
using g3::LogWorker;

namespace {
struct LevelSink : SinkBase {
   using SinkBase::SinkBase;
   void recv(g3::LogMessageMover m) {
      u64 mid = 0;
      const std::string& s = m.get().message();
      bool ok = parseId(s, mid);
      ev(RECV, static_cast<u32>(m.get()._level.value), mid, ok ? 1 : 3, 0, s.data(), ok ? 0 : std::min<size_t>(s.size(), 200));
      std::string l = m.get().level();
      ev(TEXT, 0, mid, 0, 0, l.data(), l.size());
   }
};
const std::vector<int> kValues = {g3::kDebugValue, g3::kInfoValue, g3::kWarningValue, g3::kFatalValue, 0, 1, 99, 101, 299, 301, 400, 499, 501, 700, 998, 999, -1, -500, INT_MIN, 1001, 1500, 1999, 2003, INT_MAX};
LEVELS mk(int v, int variant = 0) {
   if (v == g3::kDebugValue && !variant) return G3LOG_DEBUG;
   if (v == g3::kInfoValue && !variant) return INFO;
   if (v == g3::kWarningValue && !variant) return WARNING;
   if (v == g3::kFatalValue && !variant) return FATAL;
   return LEVELS(v, fmt("L%d%s", v, variant ? "bis" : ""));
}
u64 idOf(u64 n) { return mkId(1, n); }
void logForm(int form, const LEVELS& l, u64 id) {
   const std::string t = fmt("#%016llx#", (unsigned long long)id);
   switch (form) {
   case 0: LOG(l) << t; break;
   case 1: LOGF(l, "%s", t.c_str()); break;
   case 2: LOG_IF(l, t.size() > 1) << t; break;
   default: LOGF_IF(l, t.size() > 1, "%s", t.c_str());
   }
}

#ifdef G3_DYNAMIC_LOGGING
struct Model {
   std::map<int, std::pair<std::string, bool>> m;
   Model() { reset(); }
   void reset() {
      m.clear();
      for (auto* l : {&G3LOG_DEBUG, &INFO, &WARNING, &FATAL}) m[l->value] = {l->text, true};
   }
   bool on(int v) const { auto i = m.find(v); return i != m.end() && i->second.second; }
};
struct LevelSequence : Scenario {
   u64 seed;
   int ops;
   void prepare(Case& c) override { seed = c.rng.next(); ops = c.rng.range(1, 60); }
   std::string trail;
   void compare(const Model& m) {
      auto all = g3::log_levels::getAll();
      std::string text;
      bool same = all.size() == m.m.size();
      for (auto& e : m.m) {
         text += "name: " + e.second.first + " level: " + std::to_string(e.first) + " status: " + (e.second.second ? "1" : "0") + "\n";
         auto i = all.find(e.first);
         if (i == all.end() || i->second.level.text != e.second.first || i->second.level.value != e.first || i->second.status.value() != e.second.second) same = false;
      }
      if (!same) fail("levels", "after [%s] getAll() differs from the expected state: '%s' expected '%s'", trail.c_str(), printable(g3::log_levels::to_string(all), 700).c_str(), printable(text, 700).c_str());
      if (g3::log_levels::to_string() != text) fail("levels", "after [%s] to_string() is '%s', expected '%s'", trail.c_str(), printable(g3::log_levels::to_string(), 500).c_str(), printable(text, 500).c_str());
      for (int v : kValues) {
         auto st = g3::log_levels::getStatus(mk(v));
         auto want = !m.m.count(v) ? g3::log_levels::status::Absent : m.on(v) ? g3::log_levels::status::Enabled : g3::log_levels::status::Disabled;
         if (st != want) fail("levels", "after [%s] the status of level %d is %d, expected %d", trail.c_str(), v, (int)st, (int)want);
         if (g3::logLevel(mk(v)) != m.on(v)) fail("levels", "after [%s] logLevel(%d) is %d", trail.c_str(), v, !m.on(v));
         ctr(0).fetch_add(3);
      }
   }
   void child(Case&) override {
      Rng r(seed);
      Model m;
      auto w = LogWorker::createLogWorker();
      w->addSink(std::make_unique<LevelSink>(0), &LevelSink::recv);
      g3::initializeLogging(w.get());
      g3::setFatalExitHandler([](g3::FatalMessagePtr f) {
         u64 id = ~0ull;
         parseId(f.get()->message(), id);
         ev(RECV, static_cast<u32>(f.get()->_level.value), id, 1);
         std::string l = f.get()->level();
         ev(TEXT, 0, id, 0, 0, l.data(), l.size());
      });
      using namespace g3::only_change_at_initialization;
      using namespace g3::log_levels;
      u64 n = 0;
      for (int i = 0; i < ops; ++i) {
         int v = r.pick(kValues);
         int var = r.chance(1, 8);
         LEVELS l = mk(v, var);
         std::string op;
         switch (r.below(14)) {
         case 0: case 1: { bool e = r.chance(2, 3); addLogLevel(l, e); m.m[v] = {l.text, e}; op = fmt("add %d %d", v, e); break; }
         case 2: addLogLevel(l); m.m[v] = {l.text, true}; op = fmt("add %d", v); break;
         case 3: if (r.chance(1, 3)) { reset(); m.reset(); op = "reset"; } else op = "-"; break;
         case 4: case 5: setHighest(l); op = fmt("setHighest %d", v);
            if (m.m.count(v)) for (auto& e : m.m) e.second.second = e.first >= v;
            break;
         case 6: case 7: { bool e = r.chance(1, 2); set(l, e); op = fmt("set %d %d", v, e); if (m.m.count(v)) m.m[v] = {l.text, e}; break; }
         case 8: disable(l); op = fmt("disable %d", v); if (m.m.count(v)) m.m[v] = {l.text, false}; break;
         case 9: enable(l); op = fmt("enable %d", v); if (m.m.count(v)) m.m[v] = {l.text, true}; break;
         case 10: disableAll(); op = "disableAll"; for (auto& e : m.m) e.second.second = false; break;
         case 11: enableAll(); op = "enableAll"; for (auto& e : m.m) e.second.second = true; break;
         default: op = "-"; break;
         }
         if (op != "-") trail += (trail.empty() ? "" : "; ") + op;
         if (trail.size() > 700) trail = "..." + trail.substr(trail.size() - 500);
         if (r.chance(1, 2)) compare(m);
         int k = r.range(0, 5);
         for (int j = 0; j < k; ++j) {
            int lv = r.pick(kValues);
            int form = r.range(0, 3);
            u64 id = idOf(n++);
            ev(LOGCALL, static_cast<u32>(lv), id, m.on(lv), form, trail.data(), trail.size());
            logForm(form, mk(lv), id);
         }
         if (r.chance(1, 10)) {
            u64 id = idOf(n++);
            ev(LOGCALL, g3::kInternalFatalValue, id, 1, 9);
            CHECK(ops < 0) << fmt("#%016llx#", (unsigned long long)id);    // contracts do not depend on levels
         }
      }
      compare(m);
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::map<u64, std::pair<u32, std::string>> got;
      std::map<u64, std::string> text;
      u64 n = eventCount(), logged = 0, total = 0, h = 0;
      for (u64 i = 0; i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == RECV) {
            if (e.b != 1) fail("levels", "the sink received '%s'", printable(textOf(e)).c_str());
            if (!got.emplace(e.a, std::make_pair(e.actor, "")).second) fail("levels", "message %s received twice", idStr(e.a).c_str());
         }
         if (e.kind == TEXT) text[e.a] = textOf(e);
      }
      for (u64 i = 0; i < n; ++i) {
         const Event& e = event(i);
         if (e.kind != LOGCALL) continue;
         ++total;
         logged += e.b;
         h = mix(h ^ (e.actor * 2ull + e.b));
         auto g = got.find(e.a);
         if ((g != got.end()) != (e.b != 0)) fail("levels", "after [%s] a statement (form %d) of level %d was %s", printable(textOf(e), 700).c_str(), (int)e.c, (int)e.actor, e.b ? "not logged" : "logged");
         else if (g != got.end() && (g->second.first != e.actor || (e.c != 9 && text[e.a] != mk(static_cast<int>(e.actor)).text)))
            fail("levels", "a statement of level %d was logged with level %d '%s'", (int)e.actor, (int)g->second.first, text[e.a].c_str());
      }
      c.stat["statements"] += total;
      c.stat["statements_enabled"] += logged;
      c.stat["queries_checked"] += ctr(0).load();
      c.distinct(h ^ seed);
      c.sample(fmt("%d operations, %llu statements, %llu enabled", ops, (unsigned long long)total, (unsigned long long)logged));
   }
};
VF_SCENARIO(P13, LevelSequence, 3)

// one controller per level set; every statement that no change overlaps must follow the current state
struct LevelConcurrent : Scenario {
   int loggers, controllers, perThread, changes;
   bool global;   // the controller uses setHighest, enableAll, disableAll, too
   u64 seed;
   std::vector<int> lv = {g3::kDebugValue, g3::kInfoValue, g3::kWarningValue, 150, 333, 700, 42, 901};
   std::vector<int> unknown = {43, 555, 902};
   void prepare(Case& c) override {
      loggers = c.rng.range(1, 5);
      controllers = c.rng.range(1, 3);
      perThread = c.rng.pick({50, 300, 1500});
      changes = c.rng.pick({5, 100, 800});
      if (kTsan || kAsan) perThread = std::min(perThread, 100), changes = std::min(changes, 100);
      global = controllers == 1 && c.rng.chance(1, 2);
      seed = c.rng.next();
   }
   void child(Case&) override {
      using namespace g3::log_levels;
      for (size_t i = 3; i < lv.size(); ++i) g3::only_change_at_initialization::addLogLevel(mk(lv[i]), true);
      g3::only_change_at_initialization::addLogLevel(mk(1), true);
      auto w = LogWorker::createLogWorker();
      w->addSink(std::make_unique<LevelSink>(0), &LevelSink::recv);
      g3::initializeLogging(w.get());
      std::atomic<int> running{loggers};
      std::vector<std::thread> ts;
      for (int k = 0; k < controllers; ++k)
         ts.emplace_back([&, k] {
            Rng r(seed + k);
            std::vector<int> mine;
            for (size_t i = 0; i < lv.size(); ++i) if (static_cast<int>(i) % controllers == k) mine.push_back(static_cast<int>(i));
            u64 on = 0xff;
            for (int i = 0; i < changes && running.load(std::memory_order_relaxed); ++i) {
               u64 next = on, touched = 0;
               int op = global ? static_cast<int>(r.below(6)) : static_cast<int>(r.below(3));
               int x = mine[r.below(mine.size())];
               if (op < 3) { touched = 1ull << x; next = op == 0 ? on & ~touched : op == 1 ? on | touched : on ^ touched; }
               else if (op == 3) { touched = 0xff; next = 0; }
               else if (op == 4) { touched = 0xff; next = 0xff; }
               else { touched = 0xff; next = 0; for (size_t j = 0; j < lv.size(); ++j) if (lv[j] >= lv[x]) next |= 1ull << j; }
               ev(MARK, 0, touched, next);
               if (op == 0) disable(mk(lv[x]));
               else if (op == 1) enable(mk(lv[x]));
               else if (op == 2) set(mk(lv[x]), next & touched);
               else if (op == 3) disableAll();
               else if (op == 4) enableAll();
               else setHighest(mk(lv[x]));
               ev(MARK, 1, touched, next);
               on = next;
               // the controller's own view
               if (logLevelOf(lv[x]) != static_cast<bool>(on >> x & 1)) fail("levels", "level %d is %s right after it was changed", lv[x], (on >> x & 1) ? "disabled" : "enabled");
               if (r.chance(1, 3)) sleepUs(r.range(1, 60));
            }
         });
      for (int t = 0; t < loggers; ++t)
         ts.emplace_back([&, t] {
            Rng r(seed * 7 + t);
            for (int i = 0; i < perThread; ++i) {
               u64 id = mkId(10 + t, i);
               if (r.chance(1, 12)) {
                  ev(LOGCALL, 99, id);
                  logForm(r.range(0, 3), mk(r.pick(unknown)), id);
                  ev(LOGRET, 99, id);
                  if (r.chance(1, 5)) {
                     auto all = getAll();
                     if (all.size() != lv.size() + 2) fail("levels", "the set of levels changed: %zu levels", all.size());
                     if (getStatus(mk(r.pick(unknown))) != status::Absent) fail("levels", "an unknown level is not absent");
                  }
               } else {
                  int x = static_cast<int>(r.below(lv.size()));
                  int form = r.range(0, 3);
                  LEVELS l = mk(lv[x]);
                  ev(LOGCALL, x, id);
                  logForm(form, l, id);
                  ev(LOGRET, x, id);
               }
            }
            running.fetch_sub(1, std::memory_order_relaxed);
         });
      for (auto& t : ts) t.join();
      w.reset();
   }
   static bool logLevelOf(int v) { return g3::logLevel(mk(v)); }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      const u64 n = eventCount();
      std::set<u64> got;
      std::map<u64, u64> call;
      for (u64 i = 0; i < n; ++i) if (event(i).kind == RECV && !got.insert(event(i).a).second) fail("levels", "message %s received twice", idStr(event(i).a).c_str());
      // per level: times at which a change is in progress and the state between them
      struct Span { u64 from, to; bool after; };
      std::vector<std::vector<Span>> ch(lv.size());
      for (u64 i = 0; i < n; ++i) {
         const Event& e = event(i);
         if (e.kind != MARK) continue;
         for (size_t x = 0; x < lv.size(); ++x) {
            if (!(e.a >> x & 1)) continue;
            if (e.actor == 0) ch[x].push_back({i, ~0ull, static_cast<bool>(e.b >> x & 1)});
            else ch[x].back().to = i;
         }
      }
      u64 strict = 0, total = 0, h = 0;
      for (u64 i = 0; i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == LOGCALL) call[e.a] = i;
         if (e.kind != LOGRET) continue;
         ++total;
         const u64 a = call[e.a], b = i;
         const bool was = got.count(e.a);
         h = mix(h * 2 + was);
         if (e.actor == 99) { if (was) fail("levels", "a statement of an unknown level was logged"); continue; }
         auto& v = ch[e.actor];
         auto it = std::upper_bound(v.begin(), v.end(), a, [](u64 t, const Span& s) { return t < s.from; });   // first change starting after the call
         bool may[2] = {false, false};
         for (auto k = it; k != v.end() && k->from < b; ++k) may[k->after] = true;
         if (it == v.begin()) may[1] = true;    // the initial state
         else {
            auto prev = it - 1;
            may[prev->after] = true;
            if (prev->to > a) may[prev == v.begin() ? 1 : (prev - 1)->after] = true;
         }
         if (may[0] != may[1]) ++strict;
         if (!may[was]) fail("levels", "a statement of level %d was %s although the level was %s all the time it ran", lv[e.actor], was ? "logged" : "dropped", was ? "disabled" : "enabled");
      }
      c.stat["concurrent_statements"] += total;
      c.stat["concurrent_statements_decided_exactly"] += strict;
      c.distinct(h);
      c.sample(fmt("%d loggers, %d controllers, %llu statements, %llu of them not overlapped by a change", loggers, controllers, (unsigned long long)total, (unsigned long long)strict));
   }
};
VF_SCENARIO(P13, LevelConcurrent, 2)

// hundreds of levels at once
struct ManyLevels : Scenario {
   u64 seed;
   int n;
   void prepare(Case& c) override { seed = c.rng.next(); n = kTsan || kAsan ? 300 : c.rng.range(260, 1200); c.timeout = 60; }
   void child(Case&) override {
      using namespace g3::log_levels;
      perturb(0, 1);
      Rng r(seed);
      auto w = LogWorker::createLogWorker();
      w->addSink(std::make_unique<LevelSink>(0), &LevelSink::recv);
      g3::initializeLogging(w.get());
      std::map<int, bool> m;
      for (auto* l : {&G3LOG_DEBUG, &INFO, &WARNING, &FATAL}) m[l->value] = true;
      auto some = [&] { auto i = m.begin(); std::advance(i, r.below(m.size())); return i->first; };
      while (static_cast<int>(m.size()) < n) {
         int v = r.chance(1, 2) ? r.range(-2000, 999) : static_cast<int>(static_cast<u32>(r.next()));
         if (v >= g3::kFatalValue) v %= g3::kFatalValue;
         bool e = r.chance(1, 2);
         if (m.count(v)) e = m[v];
         g3::only_change_at_initialization::addLogLevel(mk(v), e);
         m[v] = e;
      }
      u64 id = 0;
      for (int round = 0; round < 4; ++round) {
         int k = r.range(1, n);
         int op = r.range(0, 4);
         if (op == 0) { enableAll(); for (auto& e : m) e.second = true; }
         if (op == 1) { disableAll(); for (auto& e : m) e.second = false; }
         if (op == 2) { int v = some(); setHighest(mk(v)); for (auto& e : m) e.second = e.first >= v; }
         if (op == 3) { int v = r.range(-2000, 900); setHighest(mk(v)); if (m.count(v)) for (auto& e : m) e.second = e.first >= v; }
         for (int i = 0; i < k; ++i) { int v = some(); bool e = r.chance(1, 2); set(mk(v), e); m[v] = e; }
         auto all = getAll();
         bool same = all.size() == m.size();
         for (auto& e : m) { auto i = all.find(e.first); same = same && i != all.end() && i->second.status.value() == e.second && i->second.level.value == e.first; }
         if (!same) fail("levels", "with %zu levels getAll() differs from the expected state (%zu levels)", m.size(), all.size());
         for (auto& e : m) {
            if (g3::logLevel(mk(e.first)) != e.second) { fail("levels", "with %zu levels level %d is %s", m.size(), e.first, e.second ? "disabled" : "enabled"); break; }
            if (e.first >= g3::kFatalValue) continue;
            ev(LOGCALL, static_cast<u32>(e.first), ++id, e.second);
            logForm(static_cast<int>(id % 4), mk(e.first), id);
         }
         // very many changes between two statements of the same call site and level
         for (int rep = 0; rep < 3; ++rep) {
            int v = some(), other = some(), form = r.range(0, 3);
            if (v >= g3::kFatalValue) continue;
            auto log = [&] { ev(LOGCALL, static_cast<u32>(v), ++id, m[v]); logForm(form, mk(v), id); };
            log();
            const int changes = r.pick({1, 2, 127, 128, 254, 255, 256, 257, 512, 1024, 4096, 65535, 65536, 65537});
            const bool end = !m[v];
            for (int i = 1; i < changes; ++i) { int x = i % 2 ? v : other; bool e = i % 3 == 0; set(mk(x), e); m[x] = e; }
            set(mk(v), end);
            m[v] = end;
            log();
            if (r.chance(1, 2)) { disable(mk(v)); m[v] = false; } else { enable(mk(v)); m[v] = true; }
            log();
         }
      }
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::map<u64, std::pair<u32, int>> got;
      u64 h = 1, st = 0;
      for (u64 i = 0; i < eventCount(); ++i) if (event(i).kind == RECV) { auto& g = got[event(i).a]; g.first = event(i).actor; ++g.second; }
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind != LOGCALL) continue;
         ++st;
         h = mix(h ^ (e.actor * 2ull + e.b));
         auto g = got.find(e.a);
         if ((g == got.end() ? 0 : g->second.second) != static_cast<int>(e.b)) { fail("levels", "of %d levels, a statement of level %d, %s, was received %d times", n, (int)e.actor, e.b ? "enabled" : "disabled", g == got.end() ? 0 : g->second.second); break; }
         if (e.b && g->second.first != e.actor) { fail("levels", "a statement of level %d arrived with level %d", (int)e.actor, (int)g->second.first); break; }
      }
      c.stat["statements"] += static_cast<double>(st);
      c.stat["levels_at_once"] += n;
      c.distinct(h);
      c.sample(fmt("%d levels, %llu statements", n, (unsigned long long)st));
   }
};
VF_SCENARIO(P13, ManyLevels, 0)
#else
struct EveryLevelLogs : Scenario {
   u64 seed;
   int n;
   void prepare(Case& c) override { seed = c.rng.next(); n = c.rng.range(1, 200); }
   void child(Case&) override {
      Rng r(seed);
      auto w = LogWorker::createLogWorker();
      w->addSink(std::make_unique<LevelSink>(0), &LevelSink::recv);
      g3::initializeLogging(w.get());
      for (int i = 0; i < n; ++i) {
         int v = r.chance(1, 2) ? r.pick(kValues) : static_cast<int>(static_cast<u32>(r.next()));
         if (v >= g3::kFatalValue) v = v % g3::kFatalValue;
         LEVELS l = mk(v);
         if (!g3::logLevel(l)) fail("levels", "logLevel(%d) is false without dynamic levels", v);
         ev(LOGCALL, static_cast<u32>(v), idOf(i));
         logForm(r.range(0, 3), l, idOf(i));
      }
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::map<u64, int> got;
      u64 h = 0;
      for (u64 i = 0; i < eventCount(); ++i) if (event(i).kind == RECV) got[event(i).a]++;
      for (u64 i = 0; i < eventCount(); ++i)
         if (event(i).kind == LOGCALL) {
            h = mix(h ^ event(i).actor);
            if (got[event(i).a] != 1) fail("levels", "a statement of level %d reached the sink %d times", (int)event(i).actor, got[event(i).a]);
         }
      c.stat["statements"] += n;
      c.distinct(h);
      c.sample(fmt("%d statements of random levels", n));
   }
};
VF_SCENARIO(P13, EveryLevelLogs, 1)
#endif
}  // namespace
