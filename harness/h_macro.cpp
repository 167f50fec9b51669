// P14: which operands and conditions the macros evaluate, and what they log
#include "common.hpp"
#pragma GCC diagnostic ignored "-Wdangling-else"
using namespace vf;
using namespace cm;
using g3::LogWorker;

namespace {
struct Ctx {
   u64 evals[4] = {};       // operands
   u64 conds = 0, els = 0, inner = 0, wrongThread = 0;
   bool condValue = true;
   u64 tid = 0, id = 0;
   void tick(int i) { ++evals[i]; if (tid != cm::tid()) ++wrongThread; }
   std::string op0() { tick(0); return fmt("#%016llx#", (unsigned long long)id); }
   std::string op1() { tick(1); return "-one-"; }
   int op2() { tick(2); return 17; }
   std::string holder;
   const char* c0() { holder = op0(); return holder.c_str(); }
   bool cond() { ++conds; if (tid != cm::tid()) ++wrongThread; return condValue; }
   std::string nested() { ++inner; LOG(INFO) << "nested" << id; LOGF(INFO, "nested%llu", (unsigned long long)id); return "<nested>"; }
   std::string thrower() { tick(3); throw std::runtime_error("operand"); }
   // conditions that are not bools; any value but 0 is true
   int bits() { cond(); return condValue ? 4 : 3; }
   int number() { cond(); static const int some[] = {2, -1, 256, 1 << 30, 7, 1}; return condValue ? some[id % 6] : 0; }
   double real() { cond(); return condValue ? (id % 2 ? 0.25 : -3.0) : 0.0; }
   struct Truth { bool v; operator bool() const { return v; } };
   Truth truth() { return {cond()}; }
   bool condThrows() { ++conds; throw std::runtime_error("condition"); }
};
struct LogsOnUnwind {
   Ctx& c;
   explicit LogsOnUnwind(Ctx& x) : c(x) {}
   ~LogsOnUnwind() { LOG(INFO) << "unwind" << c.id; }
};
struct FatalSeen { std::string text, expr; int level; };
thread_local std::vector<FatalSeen>* tFatal = nullptr;
std::atomic<bool> gThrowing{false};

// one statement in one of the contexts it must be safe in
#define CONTEXTS(k, STMT)                                                  \
   switch (k) {                                                            \
   case 0: STMT; break;                                                    \
   case 1: if (outer) STMT; else ++c.els; break;                           \
   case 2: if (!outer) ++c.els; else STMT; break;                          \
   case 3: for (int i_ = 0; i_ < reps; ++i_) STMT; break;                  \
   case 4: { int i_ = 0; while (i_++ < reps) STMT; break; }                \
   case 5: if (outer) if (innerC) STMT; else ++c.els; break;               \
   case 6: if (outer) for (int i_ = 0; i_ < reps; ++i_) STMT; else ++c.els; break; \
   case 7: [&] { STMT; }(); break;                                         \
   case 8: if (outer) STMT; else if (innerC) STMT; else ++c.els; break;    \
   case 9: { int i_ = 0; do STMT; while (++i_ < reps); break; }            \
   default: for (auto v_ : three) if (v_ != 1) STMT; else ++c.els; break;  \
   }
constexpr int kContexts = 11;

struct Sink { std::vector<std::string>* out; void recv(g3::LogMessageMover m) { out->push_back(m.get().message()); } };

struct Macros : Scenario {
   int threads, n;
   void prepare(Case& c) override {
      threads = c.rng.range(1, 4);
      n = c.rng.range(50, 400);
      if (kTsan || kAsan) n /= 3;
   }
   template <class Rng> static void runOne(Rng& r, Ctx& c, const LEVELS& l, bool enabled, std::map<std::string, long>& want, std::vector<FatalSeen>& wantFatal, std::vector<FatalSeen>& gotFatal, u64* cover) {
      const bool outer = r.chance(1, 2), innerC = r.chance(1, 2);
      const int reps = r.range(1, 3);
      const int three[] = {0, 1, 2};
      const int k = static_cast<int>(r.below(kContexts)), st0 = static_cast<int>(r.below(31));
      // a fatal message sent during unwinding is not a case of this property
      const int st = st0 == 14 && l.value >= 1000 ? 0 : st0;
      c.condValue = r.chance(1, 2);
      long runs = 0, els = 0;
      switch (k) {
      case 0: case 7: runs = 1; break;
      case 1: case 2: (outer ? runs : els) = 1; break;
      case 3: case 4: case 9: runs = reps; break;
      case 5: if (outer) (innerC ? runs : els) = 1; break;
      case 6: if (outer) runs = reps; else els = 1; break;
      case 8: if (outer || innerC) runs = 1; else els = 1; break;
      default: runs = 2; els = 1; break;
      }
      const bool fatalLevel = l.value >= 1000;
      bool threw = false, throwing = gThrowing.load(std::memory_order_relaxed);
      size_t f0 = gotFatal.size();
      bool useCond = false, isCheck = false, opThrows = false, cThrows = false, unwind = false;
      std::string text, expr;
      int o0 = 0, o1 = 0, o2 = 0;    // operands expected per logged statement
      long nestedRuns = 0;
      std::string id = fmt("#%016llx#", (unsigned long long)c.id);
      try {
         switch (st) {
         case 0: case 1: text = id + "-one-"; o0 = o1 = 1; CONTEXTS(k, LOG(l) << c.op0() << c.op1()); break;
         case 2: case 3: text = id + "-one-"; o0 = o1 = 1; useCond = true; CONTEXTS(k, LOG_IF(l, c.cond()) << c.op0() << c.op1()); break;
         case 4: case 5: text = id + "|17"; o0 = o2 = 1; CONTEXTS(k, LOGF(l, "%s|%d", c.c0(), c.op2())); break;
         case 6: case 7: text = id + "17"; o0 = o2 = 1; useCond = true; CONTEXTS(k, LOGF_IF(l, c.cond(), "%s%d", c.c0(), c.op2())); break;
         case 8: case 9: text = id + "-one-"; expr = "c.cond()"; isCheck = useCond = true; o0 = o1 = 1; CONTEXTS(k, CHECK(c.cond()) << c.op0() << c.op1()); break;
         case 10: text = id + "=17"; expr = "c.cond()"; isCheck = useCond = true; o0 = o2 = 1; CONTEXTS(k, CHECKF(c.cond(), "%s=%d", c.c0(), c.op2())); break;
         case 11: text = id; expr = "c.cond()"; isCheck = useCond = true; o0 = 1; CONTEXTS(k, CHECK_F(c.cond(), "%s", c.c0())); break;
         case 12: text = id + "<nested>"; o0 = 1; nestedRuns = 1; CONTEXTS(k, LOG(l) << c.op0() << c.nested()); break;
         case 13: text = id + "<nested>"; o0 = 1; nestedRuns = 1; useCond = true; CONTEXTS(k, LOGF_IF(l, c.cond(), "%s%s", c.c0(), c.nested().c_str())); break;
         case 14: opThrows = true; CONTEXTS(k, LOG(l) << c.thrower()); break;
         case 15: useCond = cThrows = true; CONTEXTS(k, LOG_IF(l, c.condThrows()) << c.op0()); break;
         case 16: useCond = cThrows = isCheck = true; CONTEXTS(k, CHECK(c.condThrows()) << c.op0()); break;
         case 17: text = id; useCond = true; o0 = 1; CONTEXTS(k, LOG_IF(l, false || c.cond()) << c.op0()); break;
         case 18: text = id; expr = "true && c.cond() == true"; useCond = isCheck = true; o0 = 1; CONTEXTS(k, CHECK(true && c.cond() == true) << c.op0()); break;
         case 19: text = id; expr = "c.cond() ? outer || true : false"; useCond = isCheck = true; o0 = 1; CONTEXTS(k, CHECKF(c.cond() ? outer || true : false, "%s", c.c0())); break;
         case 20: unwind = true; try { LogsOnUnwind u(c); throw 5; } catch (int) {} break;
         case 21: text = id; useCond = true; o0 = 1; CONTEXTS(k, LOG_IF(l, c.bits() & 12) << c.op0()); break;
         case 22: text = id; useCond = true; o0 = 1; CONTEXTS(k, LOGF_IF(l, c.number(), "%s", c.c0())); break;
         case 23: text = id; useCond = true; o0 = 1; CONTEXTS(k, LOG_IF(l, c.real()) << c.op0()); break;
         case 24: text = id; expr = "c.bits() & 12"; useCond = isCheck = true; o0 = 1; CONTEXTS(k, CHECK(c.bits() & 12) << c.op0()); break;
         case 25: text = id; expr = "c.number()"; useCond = isCheck = true; o0 = 1; CONTEXTS(k, CHECKF(c.number(), "%s", c.c0())); break;
         case 26: text = id; expr = "c.bits() & 12"; useCond = isCheck = true; o0 = 1; CONTEXTS(k, CHECK_F(c.bits() & 12, "%s", c.c0())); break;
         case 27: text = id; expr = "c.real()"; useCond = isCheck = true; o0 = 1; CONTEXTS(k, CHECK(c.real()) << c.op0()); break;
         case 28: text = id; expr = "c.truth()"; useCond = isCheck = true; o0 = 1; CONTEXTS(k, CHECKF(c.truth(), "%s", c.c0())); break;
         case 29: text = id; useCond = true; o0 = 1; CONTEXTS(k, LOGF_IF(l, c.truth() == true, "%s", c.c0())); break;
         default: text = id; useCond = true; o0 = 1; CONTEXTS(k, LOGF_IF(l, c.cond() && (outer || true), "%s", c.c0())); break;
         }
      } catch (const std::runtime_error& e) {
         threw = true;
      }
      if (unwind) { want[fmt("unwind%llu", (unsigned long long)c.id)] += 1; c.tick(0); c.evals[0] = 0; ++cover[st]; return; }
      // what must have happened
      bool fires = isCheck ? !c.condValue : enabled && (!useCond || c.condValue);
      bool raises = fires && runs > 0 && (isCheck || fatalLevel) && throwing && !opThrows && !cThrows;
      long execs = raises ? 1 : runs;      // the handler's exception ends the context
      if (opThrows) execs = runs > 0 && enabled ? 1 : 0;
      long fired = fires ? execs : 0;
      auto bad = [&](const char* w, unsigned long long got, unsigned long long exp) {
         fail("macro", "statement %d in context %d (outer %d, inner %d, %d repetitions, condition %d, level %s %s): %s %llu, expected %llu", st, k, outer, innerC, reps, c.condValue, l.text.c_str(), enabled ? "enabled" : "disabled", w, got, exp);
      };
      if (static_cast<long>(c.els) != (raises && k == 10 ? 0 : els) && !((opThrows || cThrows) && k == 10)) bad("else branches taken", c.els, els);
      if (c.wrongThread) bad("operands evaluated in another thread", c.wrongThread, 0);
      if (opThrows) {
         if (c.evals[3] != static_cast<u64>(execs)) bad("evaluations of the throwing operand", c.evals[3], execs);
         if (threw != (execs > 0)) bad("exceptions of the operand seen", threw, execs > 0);
         gotFatal.resize(f0);
      } else if (cThrows) {
         bool evaluated = runs > 0 && (isCheck || enabled);
         if (threw != evaluated || c.conds != (evaluated ? 1u : 0u)) bad("evaluations of the throwing condition", c.conds, evaluated);
         if (c.evals[0]) bad("operand evaluations", c.evals[0], 0);
         if (gotFatal.size() != f0) bad("fatal messages", gotFatal.size() - f0, 0);
      } else {
         if (c.evals[0] != static_cast<u64>(fired * o0)) bad("evaluations of operand 0", c.evals[0], fired * o0);
         if (c.evals[1] != static_cast<u64>(fired * o1)) bad("evaluations of operand 1", c.evals[1], fired * o1);
         if (c.evals[2] != static_cast<u64>(fired * o2)) bad("evaluations of operand 2", c.evals[2], fired * o2);
         if (c.inner != static_cast<u64>(fired * nestedRuns)) bad("evaluations of the nested operand", c.inner, fired * nestedRuns);
         if (useCond) {
            if (isCheck || enabled) { if (c.conds != static_cast<u64>(execs)) bad("evaluations of the condition", c.conds, execs); }
            else if (c.conds > static_cast<u64>(execs)) bad("evaluations of the condition", c.conds, execs);
         }
         if (threw != raises) bad("exceptions of the fatal handler seen", threw, raises);
         if (fired && (isCheck || fatalLevel)) for (long i = 0; i < fired; ++i) wantFatal.push_back({text, expr, isCheck ? 2000 : l.value});
         else if (fired) want[text] += fired;
         want[fmt("nested%llu", (unsigned long long)c.id)] += 2 * fired * nestedRuns;
      }
      cover[st] += 1;
   }
   void child(Case& cs) override {
      gThrowing = cs.rng.chance(1, 3);
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) {
         std::string t = p.get()->message();
         if (tFatal) tFatal->push_back({t.substr(0, t.find("\n*******\tSTACKDUMP")), p.get()->expression(), p.get()->_level.value});
         else fail("macro", "fatal handler called in a thread that raised nothing");
         if (gThrowing.load(std::memory_order_relaxed)) throw std::runtime_error("from the fatal handler");
      });
      const LEVELS mine{321, "MINE"}, off{654, "OFF"}, myFatal{1500, "MYFATAL"};
      std::vector<std::pair<LEVELS, bool>> levels = {{INFO, true}, {WARNING, true}, {G3LOG_DEBUG, true}, {FATAL, true}, {mine, true}, {off, true}, {myFatal, true}};
#ifdef G3_DYNAMIC_LOGGING
      g3::only_change_at_initialization::addLogLevel(mine, true);
      g3::only_change_at_initialization::addLogLevel(myFatal, true);
      g3::only_change_at_initialization::addLogLevel(off, false);
      levels[5].second = false;
      for (size_t i = 1; i < levels.size(); ++i)   // INFO stays on for the nested statements
         if (i != 5 && cs.rng.chance(1, 3)) { levels[i].second = false; g3::log_levels::disable(levels[i].first); }
      levels.push_back({LEVELS{777, "UNKNOWN"}, false});
      levels.push_back({LEVELS{1777, "UNKNOWNFATAL"}, false});
#endif
      std::vector<std::string> got;
      auto w = LogWorker::createLogWorker();
      w->addSink(std::make_unique<Sink>(Sink{&got}), &Sink::recv);
      g3::initializeLogging(w.get());
      u64 seed = cs.rng.next();
      std::vector<std::map<std::string, long>> wants(threads);
      std::vector<std::vector<u64>> covers(threads, std::vector<u64>(32));
      std::atomic<u64> fatals{0};
      inThreads(threads, [&](int t) {
         Rng r(seed + t);
         std::vector<FatalSeen> gf, wf;
         tFatal = &gf;
         for (int i = 0; i < n; ++i) {
            Ctx c;
            c.tid = cm::tid();
            c.id = mkId(t, i);
            auto& lv = r.pick(levels);
            runOne(r, c, lv.first, lv.second, wants[t], wf, gf, covers[t].data());
            if (gf.size() != wf.size()) { fail("macro", "%zu fatal messages, expected %zu (level %s %s)", gf.size(), wf.size(), lv.first.text.c_str(), lv.second ? "enabled" : "disabled"); break; }
            for (size_t j = 0; j < gf.size(); ++j)
               if (gf[j].text != wf[j].text || gf[j].expr != wf[j].expr || gf[j].level != wf[j].level)
                  fail("macro", "fatal message '%s' with expression '%s' and level %d, expected '%s', '%s', %d", printable(gf[j].text).c_str(), gf[j].expr.c_str(), gf[j].level, wf[j].text.c_str(), wf[j].expr.c_str(), wf[j].level);
            fatals += gf.size();
            gf.clear();
            wf.clear();
         }
         tFatal = nullptr;
      });
      w.reset();
      std::map<std::string, long> want, have;
      for (auto& m : wants) for (auto& x : m) if (x.second) want[x.first] += x.second;
      for (auto& s : got) if (!s.empty()) ++have[s];   // a statement left by an exception may log what it had: not specified
      for (auto& x : want) if (have[x.first] != x.second) fail("macro", "text '%s' logged %ld times, expected %ld", x.first.c_str(), have[x.first], x.second);
      for (auto& x : have) if (x.second && !want.count(x.first)) fail("macro", "text '%s' logged %ld times, expected never", printable(x.first).c_str(), x.second);
      u64 h = 0;
      for (auto& v : covers) for (auto x : v) h = mix(h + x);
      ctr(0) = static_cast<u64>(threads) * n;
      ctr(1) = got.size();
      ctr(2) = fatals.load();
      ctr(3) = h;
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      c.stat["statements_in_context"] += ctr(0).load();
      c.stat["messages"] += ctr(1).load();
      c.stat["fatal_messages"] += ctr(2).load();
      c.distinct(ctr(3).load());
      c.sample(fmt("%d threads x %d random statements in random contexts: %llu messages, %llu fatal", threads, n, (unsigned long long)ctr(1).load(), (unsigned long long)ctr(2).load()));
   }
};
VF_SCENARIO(P14, Macros, 1)
}  // namespace
