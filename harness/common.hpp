// Sinks, message generation and trace checkers shared by the harnesses.
#pragma once
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <future>
#include <mutex>
#include <thread>
#include <unordered_map>
#include "g3log/g3log.hpp"
#include "g3log/logworker.hpp"
#include "vf.hpp"

namespace cm {
using namespace vf;
enum Kind : u32 { LOGCALL = 1, LOGRET, RECV, DTOR, ADDCALL, ADDRET, REMCALL, REMRET, CALLC, CALLR, EXEC, FUT, INITRET, SHUTCALL, SHUTRET, MARK, HOOK, FATALCALL, FATALRET, TEXT };
inline u64 tid() { return static_cast<u64>(syscall(SYS_gettid)); }

// ---- message contents: everything follows from (plan seed, id) --------------
struct MsgProfile {
   u64 seed = 1;
   int lenMode = 0;    // 0 short, 1 mixed, 2 around 2048, 3 large, 4 empty bodies, 5 large ones of threads 1000 and up
   bool binary = false;
   size_t maxLen = 1 << 18;
};
inline MsgProfile gProf;
inline size_t bodyLen(const MsgProfile& p, u64 id) {
   Rng r(p.seed ^ mix(id));
   switch (p.lenMode) {
   case 0: return r.below(40);
   case 1: return r.chance(1, 40) ? r.below(6000) : r.below(200);
   case 2: return 2000 + r.below(90);
   case 3: return r.chance(1, 20) ? r.below(p.maxLen) : r.below(9000);
   case 5: return id >> 32 >= 1000 && r.chance(2, 3) ? r.below(r.chance(1, 2) ? p.maxLen : 20000) : r.below(60);
   default: return 0;
   }
}
inline std::string msgText(const MsgProfile& p, u64 id) {
   char head[32];
   snprintf(head, sizeof head, "#%016llx#", (unsigned long long)id);
   std::string s = head;
   size_t n = bodyLen(p, id);
   s.reserve(s.size() + n);
   Rng r(p.seed * 31 + id);
   u64 w = 0;
   for (size_t i = 0; i < n; ++i) {
      if (i % 8 == 0) w = r.next();
      unsigned char ch = static_cast<unsigned char>(w >> (8 * (i % 8)));
      if (!p.binary) ch = 33 + ch % 94;
      s += static_cast<char>(ch);
   }
   return s;
}
inline bool parseId(const std::string& s, u64& id) {
   if (s.size() < 18 || s[0] != '#' || s[17] != '#') return false;
   id = 0;
   for (int i = 1; i < 17; ++i) {
      char ch = s[i];
      int v = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : -1;
      if (v < 0) return false;
      id = id * 16 + v;
   }
   return true;
}
inline u64 mkId(u64 thread, u64 seq) { return (thread << 32) | seq; }

// logs message id through one of the statement forms
inline void logId(const MsgProfile& p, u64 id, bool eventsOn = true) {
   const std::string t = msgText(p, id);
   u32 actor = static_cast<u32>(id >> 32);
   int form = static_cast<int>(mix(id ^ p.seed) % 8);
   bool noNul = !p.binary;
   if (eventsOn) ev(LOGCALL, actor, id);
   if (form == 1 && noNul && t.size() < 2048) LOGF(G3LOG_DEBUG, "%s", t.c_str());
   else if (form == 2) { LOG_IF(INFO, t.size() > 3) << t; }
   else if (form == 3 && noNul && t.size() < 2048) { LOGF_IF(WARNING, !t.empty(), "%s%s", t.substr(0, 5).c_str(), t.c_str() + 5); }
   else if (form == 4) LOG(WARNING) << t.substr(0, 9) << t.substr(9, 3) << std::string() << t.substr(12);
#ifndef G3_DYNAMIC_LOGGING
   else if (form >= 6) {   // levels of the application: the level of a message does not matter for its delivery
      static const LEVELS own[] = {{999, "OWN_HIGH"}, {600, "AUDIT"}, {501, ""}, {1, "TRACE"}, {0, "ZERO"}, {-7, "MINUS"}};
      const LEVELS& l = own[mix(id + p.seed) % 6];
      if (form == 7 && noNul && t.size() < 2048) LOGF(l, "%s", t.c_str());
      else LOG(l) << t;
   }
#endif
   else LOG(INFO) << t;
   if (eventsOn) ev(LOGRET, actor, id);
}

// ---- gates (plain atomics, relaxed: they must not add synchronization) -------
struct Gate {
   std::atomic<int> open{1};
   void close() { open.store(0, std::memory_order_relaxed); }
   void release() { open.store(1, std::memory_order_relaxed); }
   void pass() const { while (!open.load(std::memory_order_relaxed)) shortWait(); }
};

// ---- sinks --------------------------------------------------------------------
struct SinkBase {
   u32 id;
   int slow;                 // 0 none, 1 occasionally, 2 always a bit
   Gate* gate;
   bool mutate;
   std::atomic<int> inside{0};
   std::atomic<u64> received{0};
   SinkBase(u32 i, int sl = 0, Gate* g = nullptr, bool mut = false) : id(i), slow(sl), gate(g), mutate(mut) {}
   ~SinkBase() { ev(DTOR, id, received.load(std::memory_order_relaxed), inside.load(std::memory_order_relaxed), tid()); id = 0xdead; }
   void enter() {
      if (inside.fetch_add(1, std::memory_order_relaxed) != 0) fail("overlap", "two calls run in sink %u at the same time", id);
      if (gate) gate->pass();
      if (slow == 2) sleepUs(20 + mix(received.load(std::memory_order_relaxed)) % 100);
      if (slow == 1 && mix(received.load(std::memory_order_relaxed) + id) % 97 == 0) sleepUs(600);
   }
   void leave() { inside.fetch_sub(1, std::memory_order_relaxed); }
   void record(const std::string& msg) {
      u64 mid = ~0ull;
      bool ok = parseId(msg, mid);
      bool eq = ok && msg == msgText(gProf, mid);
      if (eq) ev(RECV, id, mid, 1, tid());
      else ev(RECV, id, mid, ok ? 2 : 3, tid(), msg.data(), std::min<size_t>(msg.size(), 200));
      received.fetch_add(1, std::memory_order_relaxed);
   }
};
struct ObjSink : SinkBase {
   using SinkBase::SinkBase;
   void recv(g3::LogMessageMover m) {
      enter();
      record(m.get().message());
      if (mutate) { m.get().write().assign("overwritten by a sink"); m.get()._file = "x"; m.get()._level = FATAL; m.get().setExpression("zz"); }
      leave();
   }
   // handle API
   u64 echo(u64 v) { enter(); ev(EXEC, id, v, 0, tid()); leave(); return v * 3 + 1; }
   std::string strCall(u64 v, const std::string& s, std::vector<int> w) {
      enter();
      ev(EXEC, id, v, 0, tid());
      leave();
      return std::to_string(v) + "/" + s + "/" + std::to_string(w.size());
   }
   void voidCall(u64 v) { enter(); ev(EXEC, id, v, 0, tid()); leave(); }
   int throwing(u64 v) {
      enter();
      ev(EXEC, id, v, 0, tid());
      leave();
      if (v % 2) throw std::runtime_error("call " + std::to_string(v));
      throw static_cast<int>(v & 0xffff);
   }
   std::unique_ptr<u64> moveOnly(u64 v) { enter(); ev(EXEC, id, v, 0, tid()); leave(); return std::make_unique<u64>(v + 7); }
   const std::atomic<u64>& refCall(u64 v) { enter(); ev(EXEC, id, v, 0, tid()); leave(); return received; }
   u64 constCall(u64 v) const { const_cast<ObjSink*>(this)->enter(); ev(EXEC, id, v, 0, tid()); const_cast<ObjSink*>(this)->leave(); return v ^ 0x55; }
   void incRef(u64 v, u64& target) { enter(); ev(EXEC, id, v, 0, tid()); target += v; leave(); }
};
struct TextSink : SinkBase {
   using SinkBase::SinkBase;
   void recv(std::string s) {
      enter();
      auto p = s.find("]\t");
      std::string m = p == s.npos ? s : s.substr(p + 2);
      if (!m.empty() && m.back() == '\n') m.pop_back();
      record(m);
      leave();
   }
};
struct ConstRefSink : SinkBase {  // takes the mover by const reference through a free callable
   using SinkBase::SinkBase;
};
struct FreeCall {
   void operator()(ConstRefSink* s, g3::LogMessageMover m) const {
      s->enter();
      s->record(m.get().message());
      s->leave();
   }
};

// ---- trace analysis -------------------------------------------------------------
struct MsgInfo { u64 call = ~0ull, ret = ~0ull; };
struct Trace {
   std::unordered_map<u64, MsgInfo> msg;
   struct Rx { u64 stamp, id; u32 flag; u64 tid; u64 evIdx; };
   std::map<u32, std::vector<Rx>> rx;              // by sink
   std::map<u32, std::vector<u64>> dtor;           // stamps
   std::map<u32, u64> addCall, addRet, remCall, remRet;
   std::vector<u64> ids;
   u64 n = 0;
   Trace() {
      n = eventCount();
      for (u64 i = 0; i < n; ++i) {
         const Event& e = event(i);
         if (!e.done.load()) continue;
         switch (e.kind) {
         case LOGCALL: msg[e.a].call = i; ids.push_back(e.a); break;
         case LOGRET: msg[e.a].ret = i; break;
         case RECV: rx[e.actor].push_back({i, e.a, static_cast<u32>(e.b), e.c, i}); break;
         case DTOR: dtor[e.actor].push_back(i); break;
         case ADDCALL: addCall[e.actor] = i; break;
         case ADDRET: addRet[e.actor] = i; break;
         case REMCALL: remCall[e.actor] = i; break;
         case REMRET: remRet[e.actor] = i; break;
         default: break;
         }
      }
   }
};
inline std::string idStr(u64 id) { return fmt("%llu:%llu", (unsigned long long)(id >> 32), (unsigned long long)(id & 0xffffffff)); }
// order fingerprint of a sink's stream: sequence of logging threads
inline u64 orderHash(const std::vector<Trace::Rx>& v) {
   u64 h = 7;
   for (auto& r : v) h = mix(h * 31 + (r.id >> 32));
   return h;
}
// content, duplicates and unknown messages
inline void checkContent(const Trace& t, u32 sink) {
   auto it = t.rx.find(sink);
   if (it == t.rx.end()) return;
   std::unordered_map<u64, int> seen;
   for (auto& r : it->second) {
      if (r.flag == 3) { fail("corrupt", "sink %u received text of no logged message: '%s'", sink, printable(textOf(event(r.evIdx))).c_str()); continue; }
      if (r.flag == 2) { fail("corrupt", "sink %u received message %s with damaged text '%s'", sink, idStr(r.id).c_str(), printable(textOf(event(r.evIdx))).c_str()); }
      if (!t.msg.count(r.id)) fail("invented", "sink %u received message %s that was never logged", sink, idStr(r.id).c_str());
      if (++seen[r.id] == 2) fail("duplicate", "sink %u received message %s twice", sink, idStr(r.id).c_str());
   }
}
inline void checkComplete(const Trace& t, u32 sink, const char* what = "") {
   std::unordered_map<u64, int> seen;
   auto it = t.rx.find(sink);
   if (it != t.rx.end()) for (auto& r : it->second) seen[r.id]++;
   u64 missing = 0, firstId = 0;
   for (u64 id : t.ids) {
      if (t.msg.at(id).ret == ~0ull) continue;
      if (!seen.count(id)) { if (!missing++) firstId = id; }
   }
   if (missing) fail("loss", "sink %u never received %llu of %zu messages whose LOG returned, first %s %s", sink, (unsigned long long)missing, t.ids.size(), idStr(firstId).c_str(), what);
}
inline void checkRealTimeOrder(const Trace& t, u32 sink) {
   auto it = t.rx.find(sink);
   if (it == t.rx.end()) return;
   u64 maxCall = 0, maxId = 0;
   for (auto& r : it->second) {
      auto m = t.msg.find(r.id);
      if (m == t.msg.end()) continue;
      if (m->second.ret != ~0ull && m->second.ret < maxCall) {
         fail("order", "sink %u received %s before %s, although the LOG of %s returned before the LOG of %s started", sink, idStr(maxId).c_str(), idStr(r.id).c_str(), idStr(r.id).c_str(), idStr(maxId).c_str());
         return;
      }
      if (m->second.call != ~0ull && m->second.call > maxCall) { maxCall = m->second.call; maxId = r.id; }
   }
}
inline void checkAgreement(const Trace& t, u32 a, u32 b) {
   auto x = t.rx.find(a), y = t.rx.find(b);
   if (x == t.rx.end() || y == t.rx.end()) return;
   std::unordered_map<u64, u64> pos;
   for (size_t i = 0; i < x->second.size(); ++i) pos.emplace(x->second[i].id, i);
   u64 last = 0;
   u64 lastId = 0;
   bool any = false;
   for (auto& r : y->second) {
      auto p = pos.find(r.id);
      if (p == pos.end()) continue;
      if (any && p->second < last) {
         fail("disagree", "sinks %u and %u received messages %s and %s in different order", a, b, idStr(lastId).c_str(), idStr(r.id).c_str());
         return;
      }
      any = true;
      last = p->second;
      lastId = r.id;
   }
}
template <class F> void inThreads(int n, F f) {
   std::vector<std::thread> v;
   for (int i = 0; i < n; ++i) v.emplace_back([=] { f(i); });
   for (auto& t : v) t.join();
}
inline std::string b36(u64 v) { return std::to_string(v); }
}  // namespace cm
