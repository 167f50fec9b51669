// P23: messages in flight own their data. Gated sinks keep the messages queued while the caller
// overwrites and frees everything it passed, or unloads the library that contained the call site.
#include <dlfcn.h>
#include <sys/mman.h>
#include <csignal>
#include "common.hpp"
#include "g3log/logcapture.hpp"
#include "g3log/filesink.hpp"
#include "own_lib.hpp"
using namespace cm;
using g3::LogWorker;
namespace {
#ifdef PRETTY_FUNCTION
#define FN __PRETTY_FUNCTION__
#else
#define FN __FUNCTION__
#endif
std::string shownFile(const std::string& p) {
#ifdef G3_LOG_FULL_FILENAME
   return p;
#else
   auto i = p.find_last_of("/\\");
   return i == p.npos ? p : p.substr(i + 1);
#endif
}
// canonical description of a record
std::string desc(const std::string& text, const std::string& path, const std::string& fn, int line, const std::string& level, int value, const std::string& expr) {
   return text + "\x01" + shownFile(path) + "\x01" + path + "\x01" + fn + "\x01" + std::to_string(line) + "\x01" + level + "\x01" + std::to_string(value) + "\x01" + expr;
}
std::string desc(const g3::LogMessage& m) {
   return m.message() + "\x01" + m._file + "\x01" + m.file_path() + "\x01" + m.function() + "\x01" + m.line() + "\x01" + m.level() + "\x01" + std::to_string(m._level.value) + "\x01" + m.expression();
}
void expectEv(u64 id, const std::string& d) { ev(LOGCALL, 0, id, 0, 0, d.data(), d.size()); }
void gotEv(u32 sink, const std::string& d, const std::string& rendered = "") {
   ev(RECV, sink, 0, rendered.size(), 0, d.data(), d.size());
}
struct DescSink {
   u32 id;
   Gate* gate;
   void recv(g3::LogMessageMover m) {
      gate->pass();
      const std::string d = desc(m.get());
      std::string r = m.get().toString();
      if (r.find(m.get().message()) == r.npos || r.find(m.get()._function) == r.npos) fail("damaged", "the text rendering lacks the message or function of '%s'", printable(d).c_str());
      gotEv(id, d, r);
   }
};
struct StrSink {
   u32 id;
   Gate* gate;
   void recv(std::string s) {
      gate->pass();
      ev(TEXT, id, 0, 0, 0, s.data(), s.size());
   }
};
// memory that is overwritten and given back; or used again at once, at the same address, for the next statement
thread_local char gArena[6][4096];
struct Buf {
   char* p;
   size_t n;
   int paged;
   Buf(const std::string& s, int pg, int slot = -1) : n(s.size() + 1), paged(pg == 2 && (slot < 0 || n > sizeof gArena[0]) ? 0 : pg) {
      if (paged == 2) p = gArena[slot];
      else if (paged) {
         p = static_cast<char*>(mmap(nullptr, (n + 4095) & ~4095ul, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
         if (p == MAP_FAILED) _exit(97);
      } else p = static_cast<char*>(malloc(n));
      memcpy(p, s.c_str(), n);
   }
   Buf(const Buf&) = delete;
   void kill(int how) {
      if (!p) return;
      memset(p, how == 0 ? 'X' : how == 1 ? 0 : 0xff, n);
      if (how == 0) p[n - 1] = 0;
      if (paged == 1) munmap(p, (n + 4095) & ~4095ul);
      else if (!paged) free(p);
      p = nullptr;
   }
   ~Buf() { kill(0); }
};
std::string word(Rng& r, int lo, int hi) {
   std::string s;
   int n = r.range(lo, hi);
   for (int i = 0; i < n; ++i) s += static_cast<char>('a' + r.below(26));
   return s;
}
std::mutex gKeepM;
std::vector<g3::FatalMessagePtr> gKept;

struct Common : Scenario {
   int sinks = 1, strs = 0, threads = 1, n = 1;
   u64 seed = 0;
   bool preInit = false;
   void plan(Case& c) {
      Rng& r = c.rng;
      sinks = r.range(1, 3);
      strs = r.range(0, 2);
      threads = r.range(1, 3);
      n = r.pick({1, 4, 20, 60});
      seed = r.next();
      preInit = r.chance(1, 6);
   }
   void judgeAll(Case& c, const Outcome& o) {
      if (!expectClean(c, o)) return;
      std::map<std::string, int> want;
      std::map<u32, std::map<std::string, int>> got;
      std::vector<std::string> texts;
      std::map<u32, std::string> all;
      u64 h = 1;
      for (u64 i = 0; i < eventCount(); ++i) {
         const Event& e = event(i);
         if (e.kind == LOGCALL) { want[textOf(e)]++; texts.push_back(textOf(e)); }
         if (e.kind == RECV) { std::string d = textOf(e); got[e.actor][d]++; h = mix(h ^ hashStr(d)); }
         if (e.kind == TEXT) { all[e.actor] += textOf(e); all[e.actor] += '\n'; }
      }
      for (int s = 0; s < sinks; ++s) {
         auto& g = got[s + 1];
         for (auto& w : want) if (g[w.first] != w.second) {
            std::string near;
            for (auto& q : g) if (!want.count(q.first)) { near = q.first; break; }
            fail("damaged", "sink %d received %d instead of %d of the record '%s'%s%s", s + 1, g[w.first], w.second, printable(w.first, 300).c_str(),
                 near.empty() ? "" : "; but it received ", near.empty() ? "" : printable(near, 300).c_str());
            return;
         }
         for (auto& q : g) if (q.second && !want.count(q.first)) { fail("damaged", "sink %d received a record nobody logged: '%s'", s + 1, printable(q.first, 300).c_str()); return; }
      }
      for (auto& a : all)
         for (auto& t : texts) {
            size_t p = t.find('\x01');
            if (a.second.find(t.substr(0, p)) == std::string::npos) { fail("damaged", "text sink %u lacks '%s'", a.first, printable(t.substr(0, p)).c_str()); return; }
         }
      c.distinct(h);
      c.stat["records_compared"] += static_cast<double>(texts.size()) * sinks;
   }
};

struct Operands : Common {
   void prepare(Case& c) override { plan(c); }
   bool fatal = false;
   void one(int t, int i, Rng& r) {
      u64 id = mkId(t + 1, i);
      const int pg = r.pick({0, 0, 1, 2, 2});
      std::string text = "#" + hex(id) + "#" + word(r, 0, r.chance(1, 10) ? 1900 : 60);
      std::string file = (r.chance(1, 2) ? "/heap/dir/" : "") + word(r, 1, 40) + ".cpp", fn = word(r, 1, 50), lvl = "L_" + word(r, 1, 40), expr = word(r, 1, 40) + " == 7";
      int line = pg == 2 && r.chance(1, 2) ? 77 : r.range(0, 1 << 30), lvVal = INFO.value + r.range(0, 150);
      Buf bf(file, pg, 0), bfn(fn, pg, 1), bx(expr, pg, 2), bt(text, pg, 3);
      // a level that changes its contents in place
      static thread_local LEVELS reused(0, "");
      std::unique_ptr<LEVELS, void (*)(LEVELS*)> level(nullptr, [](LEVELS* l) { if (l != &reused) delete l; });
      if (pg == 2) { reused = LEVELS(lvVal, lvl); level.reset(&reused); }
      else level.reset(new LEVELS(lvVal, lvl));
      int how = r.range(0, 2), form = r.range(0, 7);
      if (form <= 1) {
         expectEv(id, desc(text, file, fn, line, lvl, lvVal, expr));
         if (form == 0) { LogCapture(bf.p, line, bfn.p, *level, bx.p).stream() << bt.p; }
         else { Buf fm("%s", pg, 4); LogCapture(bf.p, line, bfn.p, *level, bx.p).capturef(fm.p, bt.p); fm.kill(how); }
      } else if (form == 2) {
         expectEv(id, desc(text, __FILE__, FN, __LINE__ + 1, lvl, lvVal, ""));
         LOG(*level) << bt.p;
      } else if (form == 3) {
         Buf fm("%s%d|%.*s", pg, 4);
         std::string full = text + std::to_string(line) + "|" + fn.substr(0, 3);
         expectEv(id, desc(full, __FILE__, FN, __LINE__ + 1, lvl, lvVal, ""));
         LOGF(*level, fm.p, bt.p, line, static_cast<int>(std::min<size_t>(3, fn.size())), bfn.p);
         fm.kill(how);
      } else if (form == 4) {
         auto heap = std::make_unique<std::string>(text);
         expectEv(id, desc(text, __FILE__, FN, __LINE__ + 1, lvl, lvVal, ""));
         LOG_IF(*level, !heap->empty()) << *heap;
         heap->assign(heap->size(), 'Z');
      } else if (form == 5) {
         expectEv(id, desc(text, __FILE__, FN, __LINE__ + 1, lvl, lvVal, ""));
         LOG(LEVELS(lvVal, std::string(lvl))) << std::string(bt.p);  // temporaries only
      } else if (form == 6) {
         g3::internal::saveMessage(bt.p, bt.n - 1, bf.p, line, bfn.p, *level, bx.p, SIGABRT, "");
         expectEv(id, desc(text, file, fn, line, lvl, lvVal, expr));
      } else {  // a fatal one, kept by the custom handler
         LEVELS fl(FATAL.value + r.range(1, 90), "F_" + lvl);
         auto heapLevel = std::make_unique<LEVELS>(fl);
         bool chk = r.chance(1, 2);
         std::string e2 = chk ? expr : "";
         expectEv(id, desc(text, file, fn, line, fl.text, fl.value, e2));
         LogCapture(bf.p, line, bfn.p, *heapLevel, chk ? bx.p : "", SIGABRT, nullptr).stream() << bt.p;
         memset(&heapLevel->text[0], 'Q', heapLevel->text.size());
      }
      memset(&level->text[0], 'Q', level->text.size());
      level->value = -3;
      level.reset();
      bf.kill(how); bfn.kill(how); bx.kill(how); bt.kill(how);
   }
   void child(Case& c) override {
      Gate gate;
      gate.close();
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) {
         std::lock_guard<std::mutex> l(gKeepM);
         gKept.push_back(std::move(p));
      });
      auto worker = LogWorker::createLogWorker();
      if (preInit) {
         Rng r(seed ^ 5);
         // the first message before initialization is kept as well
         std::string text = "#first#" + word(r, 1, 300), file = word(r, 20, 40) + ".cpp", fn = word(r, 20, 50), lvl = word(r, 20, 40);
         Buf bf(file, false), bfn(fn, false), bt(text, false);
         auto level = std::make_unique<LEVELS>(INFO.value, lvl);
         LogCapture(bf.p, 11, bfn.p, *level, "").stream() << bt.p;
         memset(&level->text[0], 'Q', level->text.size());
         level.reset();
         bf.kill(0); bfn.kill(1); bt.kill(2);
         ev(MARK, 0, 1, 0, 0, text.data(), text.size());
         ev(MARK, 0, 2, 0, 0, file.data(), file.size());
      }
      for (int s = 0; s < sinks; ++s) worker->addSink(std::make_unique<DescSink>(DescSink{static_cast<u32>(s + 1), &gate}), &DescSink::recv);
      for (int s = 0; s < strs; ++s) worker->addSink(std::make_unique<StrSink>(StrSink{static_cast<u32>(100 + s), &gate}), &StrSink::recv);
      g3::initializeLogging(worker.get());
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) {
         std::lock_guard<std::mutex> l(gKeepM);
         gKept.push_back(std::move(p));
      });
      inThreads(threads, [this](int t) { Rng r(seed + t); for (int i = 0; i < n; ++i) one(t, i, r); });
      (void)c;
      gate.release();
      worker.reset();
      // the fatal messages the handler kept are looked at only now
      for (auto& k : gKept)
         for (int s = 0; s < sinks; ++s) {
            const std::string m = k.get()->message();
            std::string d = desc(*k.get());
            // the handler's text carries a stack dump and an exit note after the message: keep the first line part
            size_t p = m.find("\n*******\tSTACKDUMP");
            if (p != m.npos) d = m.substr(0, p) + d.substr(m.size());
            gotEv(s + 1, d);
            if (k.get()->toString().find(m) == std::string::npos) fail("damaged", "kept fatal message renders without its text");
         }
      for (int t = 0; t < strs; ++t) for (auto& k : gKept) ev(TEXT, 100 + t, 1, 0, 0, k.get()->message().data(), k.get()->message().size());
      gKept.clear();
   }
   void judge(Case& c, const Outcome& o) override {
      if (preInit && o.exited && o.code == 0) {
         // the record of the early message: present with its parts, removed from the exact comparison
         std::string text, file;
         for (u64 i = 0; i < eventCount(); ++i) if (event(i).kind == MARK) (event(i).a == 1 ? text : file) = textOf(event(i));
         int seen = 0;
         for (u64 i = 0; i < eventCount(); ++i) {
            Event& e = const_cast<Event&>(event(i));
            if (e.kind != RECV) continue;
            std::string d = textOf(e);
            if (d.find("#first#") == std::string::npos) continue;
            if (d.find(text) == std::string::npos) { fail("damaged", "the early message lost its text: '%s'", printable(d).c_str()); return; }
            e.kind = 999;
            ++seen;
         }
         if (seen != sinks) { fail("damaged", "the message logged before initialization reached %d of %d sinks intact", seen, sinks); return; }
         (void)file;
      }
      judgeAll(c, o);
      c.sample(fmt("%d threads x %d, %d+%d sinks", threads, n, sinks, strs));
   }
};
VF_SCENARIO(P23, Operands, 2)

struct Plugin : Common {
   int rounds = 1;
   bool reload = false;
   void prepare(Case& c) override { plan(c); rounds = c.rng.range(1, 3); n = std::min(n, 20); }
   void child(Case&) override {
      const char* so = getenv("VF_PLUGIN");
      if (!so) { fprintf(stderr, "no plugin\n"); _exit(97); }
      Gate gate;
      gate.close();
      auto worker = LogWorker::createLogWorker();
      for (int s = 0; s < sinks; ++s) worker->addSink(std::make_unique<DescSink>(DescSink{static_cast<u32>(s + 1), &gate}), &DescSink::recv);
      for (int s = 0; s < strs; ++s) worker->addSink(std::make_unique<StrSink>(StrSink{static_cast<u32>(100 + s), &gate}), &StrSink::recv);
      g3::initializeLogging(worker.get());
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) {
         std::lock_guard<std::mutex> l(gKeepM);
         gKept.push_back(std::move(p));
      });
      for (int round = 0; round < rounds; ++round) {
         void* h = dlopen(so, RTLD_NOW | RTLD_LOCAL);
         if (!h) { fprintf(stderr, "%s\n", dlerror()); _exit(97); }
         auto fn = reinterpret_cast<void (*)(int, const char*, LibExp*)>(dlsym(h, "vf_plugin"));
         if (!fn) _exit(97);
         Dl_info info{};
         dladdr(reinterpret_cast<void*>(fn), &info);
         void* base = info.dli_fbase;
         inThreads(threads, [&](int t) {
            Rng r(seed + t + 100 * round);
            for (int i = 0; i < n; ++i) {
               u64 id = mkId(t + 1 + 10 * round, i);
               std::string text = "#" + hex(id) + "#" + word(r, 0, 200);
               LibExp e;
               int kind = r.range(0, 9);
               fn(kind, text.c_str(), &e);
               expectEv(id, desc(text, e.file, e.fn, e.line, e.level, e.value, e.expr));
            }
         });
         dlclose(h);
         // really gone? then make sure that nothing else gets mapped there
         Dl_info after{};
         bool mapped = dladdr(base, &after) && after.dli_fbase == base;
         if (!mapped) {
            void* q = mmap(base, 4096 * 8, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
            ctr(1).fetch_add(1);
            if (round == rounds - 1) (void)q;
            else if (q != MAP_FAILED) munmap(q, 4096 * 8);
         }
      }
      gate.release();
      worker.reset();
      for (auto& k : gKept)
         for (int s = 0; s < sinks; ++s) {
            const std::string m = k.get()->message();
            std::string d = desc(*k.get());
            size_t p = m.find("\n*******\tSTACKDUMP");
            if (p != m.npos) d = m.substr(0, p) + d.substr(m.size());
            gotEv(s + 1, d);
         }
      for (int s = 0; s < strs; ++s) for (auto& k : gKept) ev(TEXT, 100 + s, 1, 0, 0, k.get()->message().data(), k.get()->message().size());
      gKept.clear();
   }
   void judge(Case& c, const Outcome& o) override {
      judgeAll(c, o);
      c.stat["libraries_unloaded"] += ctr(1).load();
      c.stat["libraries_loaded"] += rounds;
      c.sample(fmt("%d rounds, %d threads x %d, %d+%d sinks", rounds, threads, n, sinks, strs));
   }
};
VF_SCENARIO(P23, Plugin, 1)
}  // namespace
