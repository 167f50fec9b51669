// P03 P04 P14 P19: records, printf-style API, macro evaluation, value semantics of messages
#include <time.h>
#include <csignal>
#include <iomanip>
#include "common.hpp"
#include "g3log/time.hpp"
using namespace vf;
using namespace cm;
using g3::LogWorker;
#define VF_NEVER -77

namespace {
int64_t nowNs() {
   timespec t;
   clock_gettime(CLOCK_REALTIME, &t);
   return t.tv_sec * 1000000000ll + t.tv_nsec;
}
int64_t hrNs(const g3::high_resolution_time_point& t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
std::string selfId() {
   std::ostringstream o;
   o << std::this_thread::get_id();
   return o.str();
}
// what a call site is known to supply
struct Exp {
   u64 id = 0;
   std::string text, file, fn, expr, tid, lvText;
   int line = 0, lvValue = 0;
   const LEVELS* lv = nullptr;
   bool canPrint = true;
   int64_t t0 = 0, t1 = 0;
   bool printable() const { return canPrint; }
   void at(const char* f, int l, const char* function) { file = f; line = l; fn = function; t0 = nowNs(); }
   void done() { t1 = nowNs(); }
};
#include "sites.inc"
using SiteFn = void (*)(const LEVELS&, const std::string&, Exp&);
void s9(const LEVELS& l, const std::string& t, Exp& e) { S9()(l, t, e); }
const SiteFn kSites[] = {s0, s1, s2_a_function_with_a_rather_long_name_that_has_to_survive_unchanged_and_untruncated_in_the_record, s3, s4, s5<3>, s6, s7, s8, s9, s10};
const SiteFn kContracts[] = {c0, c1, c2, c3};

std::string baseName(const std::string& p) {
   size_t b = 0;
   for (size_t i = 0; i < p.size(); ++i) if (p[i] == '/' || p[i] == '\\') b = i + 1;
   return p.substr(b);
}
std::string shownFile(const std::string& p) {
#ifdef G3_LOG_FULL_FILENAME
   return p;
#else
   return baseName(p);
#endif
}
std::string customDetails(const g3::LogMessage& m) { return "{" + m.level() + "|" + m.file_path() + "|" + m.line() + "|" + m.function() + "|" + m.threadID() + "|" + m.expression() + "} "; }
std::string emptyDetails(const g3::LogMessage&) { return {}; }

// rendering parts expected of a message with these contents
std::string detailsOf(int kind, const std::string& stamp, const Exp& e) {
   std::string where = shownFile(e.file) + "->" + e.fn + ":" + std::to_string(e.line);
   switch (kind) {
   case 0: return stamp + "\t" + e.lvText + " [" + where + "]\t";
   case 1: return stamp + "\t" + e.lvText + " [" + e.tid + " " + where + "]\t";
   case 2: return "{" + e.lvText + "|" + e.file + "|" + std::to_string(e.line) + "|" + e.fn + "|" + e.tid + "|" + e.expr + "} ";
   default: return {};
   }
}
g3::LogMessage::LogDetailsFunc detailsFn(int kind) {
   return kind == 0 ? &g3::LogMessage::DefaultLogDetailsToString : kind == 1 ? &g3::LogMessage::FullLogDetailsToString : kind == 2 ? &customDetails : &emptyDetails;
}
int64_t gSkewUs = 0;
// parses "YYYY/MM/DD hh:mm:ss uuuuuu" at the start of s; microseconds since the epoch, or -1
int64_t parseStamp(const std::string& s) {
   tm t{};
   int us = 0, n = 0;
   if (s.size() < 26 || sscanf(s.c_str(), "%4d/%2d/%2d %2d:%2d:%2d %6d%n", &t.tm_year, &t.tm_mon, &t.tm_mday, &t.tm_hour, &t.tm_min, &t.tm_sec, &us, &n) != 7 || n != 26) return -1;
   t.tm_year -= 1900;
   t.tm_mon -= 1;
   t.tm_isdst = -1;
   return static_cast<int64_t>(mktime(&t)) * 1000000 + us;
}
int64_t floorUs(int64_t ns) { return ns >= 0 ? ns / 1000 : -((-ns + 999) / 1000); }
void checkStamp(const char* what, const Exp& e, const std::string& s) {
   int64_t us = parseStamp(s);
   if (us < 0) { fail("stamp", "%s: no time stamp in the default format at the start of '%s'", what, printable(s, 80).c_str()); return; }
   if (us < floorUs(e.t0) + gSkewUs - 2 || us > floorUs(e.t1) + gSkewUs + 2)
      fail("stamp", "%s: message %s shows time '%s' (%lld us) outside of its LOG statement [%lld, %lld]", what, idStr(e.id).c_str(), s.substr(0, 26).c_str(), (long long)us, (long long)floorUs(e.t0), (long long)floorUs(e.t1));
}
#define FIELD(name, got, want) \
   do { auto g_ = (got); decltype(g_) w_ = (want); if (!(g_ == w_)) mismatch(what, e, name, g_, w_); } while (0)
void mismatch(const char* what, const Exp& e, const char* name, const std::string& got, const std::string& want) {
   size_t d = 0;
   while (d < got.size() && d < want.size() && got[d] == want[d]) ++d;
   fail("record", "%s: message %s has %s '%s' (%zu bytes), supplied '%s' (%zu bytes), first difference at %zu", what, idStr(e.id).c_str(), name, printable(got, 90).c_str(), got.size(), printable(want, 90).c_str(), want.size(), d);
}
void mismatch(const char* what, const Exp& e, const char* name, int got, int want) { fail("record", "%s: message %s has %s %d, supplied %d", what, idStr(e.id).c_str(), name, got, want); }

void checkFields(const char* what, const Exp& e, const g3::LogMessage& m, const std::string& text) {
   FIELD("text", m.message(), text);
   FIELD("text (write)", std::string(m.write()), text);
   FIELD("file", m.file(), shownFile(e.file));
   FIELD("file path", m.file_path(), e.file);
   FIELD("line", m.line(), std::to_string(e.line));
   FIELD("_line", m._line, e.line);
   FIELD("function", m.function(), e.fn);
   FIELD("level name", m.level(), e.lvText);
   FIELD("level value", m._level.value, e.lvValue);
   FIELD("thread id", m.threadID(), e.tid);
   FIELD("expression", m.expression(), e.expr);
   FIELD("fatal", static_cast<int>(m.wasFatal()), static_cast<int>(e.lvValue >= 1000));
   int64_t ns = hrNs(m._timestamp);
   if (ns < e.t0 || ns > e.t1) fail("stamp", "%s: message %s carries a time stamp %lld ns outside of its LOG statement [%lld, %lld]", what, idStr(e.id).c_str(), (long long)ns, (long long)e.t0, (long long)e.t1);
}
bool has(const std::string& s, const std::string& part) { return s.find(part) != s.npos; }
// text rendering of a message in every layout
void checkRender(const char* what, const Exp& e, const g3::LogMessage& m, const std::string& text) {
   std::string stamp = m.timestamp();
   checkStamp(what, e, stamp);
   for (int k : {0, 1, 2, 3, 1, 0}) {
      std::string got = k == 0 && e.id % 2 ? m.toString() : m.toString(detailsFn(k));
      std::string det = detailsOf(k, stamp, e);
      if (e.lvValue < 1000) { FIELD(k == 0 ? "default layout" : k == 1 ? "layout with thread id" : "custom layout", got, det + text + "\n"); continue; }
      bool sig = e.lvValue == 2001, exc = e.lvValue == 2002;
      if (!sig && !exc && got.compare(0, det.size(), det) != 0) mismatch(what, e, "start of the fatal layout", got.substr(0, det.size()), det);
      if ((sig || exc) && got.compare(0, stamp.size(), stamp) != 0) mismatch(what, e, "start of the fatal signal layout", got.substr(0, stamp.size()), stamp);
      if (!has(got, text)) fail("record", "%s: fatal rendering of %s lacks its text: '%s'", what, idStr(e.id).c_str(), printable(got, 300).c_str());
      std::string rest = got;
      auto p = rest.find(text);
      if (p != rest.npos && !text.empty()) rest.erase(p, text.size());
      const std::string marks[] = {"EXIT trigger caused by LOG(FATAL) entry", "EXIT trigger caused by broken Contract", "FATAL SIGNAL RECEIVED", "FATAL EXCEPTION RECEIVED", "Custom made Log Message Type"};
      int want = e.lvValue == 1000 ? 0 : e.lvValue == 2000 ? 1 : sig ? 2 : exc ? 3 : 4;
      for (int i = 0; i < 5; ++i)
         if (has(rest, marks[i]) != (i == want)) fail("record", "%s: level %d, the rendering %s '%s': '%s'", what, e.lvValue, i == want ? "lacks" : "wrongly has", marks[i].c_str(), printable(rest, 300).c_str());
      if (want == 1 && !has(rest, "CHECK(" + e.expr + ")")) fail("record", "%s: contract rendering lacks the expression: '%s'", what, printable(rest, 300).c_str());
   }
   FIELD("text after rendering", m.message(), text);
}

// P03 ---------------------------------------------------------------------------------
struct Store {
   std::vector<g3::LogMessage> got;
   std::vector<std::string> rendered, strings;
};
struct RecSink {
   Store* st;
   int render;
   RecSink(Store* s, int r = -1) : st(s), render(r) {}
   void recv(g3::LogMessageMover m) {
      if (render >= 0) st->rendered.push_back(m.get().toString(detailsFn(render)));
      st->got.push_back(m.get());
   }
};
struct StrSink {
   Store* st;
   explicit StrSink(Store* s) : st(s) {}
   void recv(std::string s) { st->strings.push_back(s); }
};
struct CustomLevel { int value; std::string text; };

struct Record : Scenario {
   int threads, n, render;
   bool fatals;
   MsgProfile prof;
   std::string tz;
   void prepare(Case& c) override {
      threads = c.rng.range(1, 4);
      n = c.rng.range(10, kTsan || kAsan ? 40 : 120);
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.pick({0, 1, 1, 2, 3, 4});
      prof.binary = c.rng.chance(1, 3);
      prof.maxLen = 1 << 16;
      fatals = c.rng.chance(1, 2);
      render = c.rng.range(-1, 3);
      tz = fmt("XYZ%+d:%02d", c.rng.range(-11, 12), c.rng.pick({0, 30, 45}));
   }
   void child(Case& c) override {
      gProf = prof;
      setenv("TZ", tz.c_str(), 1);
      tzset();
      auto probe = std::chrono::high_resolution_clock::now();
      int64_t skew = std::chrono::duration_cast<std::chrono::nanoseconds>(g3::to_system_time(probe).time_since_epoch()).count() - hrNs(probe);
      gSkewUs = floorUs(skew);
      if (skew < -2000000000ll || skew > 2000000000ll) fail("stamp", "times shown are %lld ms off the system clock", (long long)(skew / 1000000));
      std::mutex fm;
      std::map<u64, std::vector<g3::FatalMessage>> fatalGot;
      g3::setFatalExitHandler([&](g3::FatalMessagePtr p) {
         u64 id = ~0ull;
         parseId(p.get()->message(), id);
         std::lock_guard<std::mutex> l(fm);
         fatalGot[id].emplace_back(*p.get());
      });
      auto w = LogWorker::createLogWorker();
      Store st;
      w->addSink(std::make_unique<RecSink>(&st, render), &RecSink::recv);
      w->addSink(std::make_unique<StrSink>(&st), &StrSink::recv);
      g3::initializeLogging(w.get());
      std::vector<std::vector<Exp>> exps(threads);
      u64 seed = c.rng.next();
      inThreads(threads, [&](int t) {
         Rng r(seed + t);
         std::vector<CustomLevel> pool = {{100, "DEBUG"}, {300, "INFO"}, {500, "WARNING"}, {999, "ALMOST"}, {0, ""}, {-1, "NEGATIVE"}, {-2147483647 - 1, "INT_MIN"}, {501, std::string(300, 'L')}, {301, "two words"}, {998, "%s%d%n"}, {101, "\xc3\xa5"}};
         std::vector<CustomLevel> fpool = {{1000, "FATAL"}, {1001, "MYFATAL"}, {1999, "below contract"}, {2000, "CONTRACT"}, {2001, "FATAL_SIGNAL"}, {2002, "FATAL_EXCEPTION"}, {2003, "above"}, {2147483647, "INT_MAX"}, {1000, "renamed fatal"}};
         for (int i = 0; i < n; ++i) {
            Exp e;
            e.id = mkId(t, i);
            e.text = msgText(prof, e.id);
            e.tid = selfId();
            bool isFatal = fatals && r.chance(1, 8);
            e.canPrint = !prof.binary && e.text.size() < 2048;
            if (r.chance(1, 10)) {
               // the public class behind the macros, with strings of any length and kind
               auto any = [&](size_t max) {
                  static const char set[] = "abcXYZ_019 ():<>,~*&[]{}%s\\/.\"'\t=+-!|;?@^$#\xc3\xa9\xff";
                  std::string s(r.chance(1, 4) ? r.below(max) : r.below(60), ' ');
                  for (auto& ch : s) ch = set[r.below(sizeof set - 1)];
                  return s;
               };
               const CustomLevel& cl = isFatal ? r.pick(fpool) : r.pick(pool);
               LEVELS l{cl.value, cl.text};
               e.file = any(6000);
               e.fn = any(4000);
               e.expr = any(5000);
               e.line = r.chance(1, 2) ? static_cast<int>(r.below(70000)) : static_cast<int>(r.below(0x7fffffff));
               e.lvText = l.text;
               e.lvValue = l.value;
               e.t0 = nowNs();
               LogCapture(e.file.c_str(), e.line, e.fn.c_str(), l, e.expr.c_str()).stream() << e.text;
               e.done();
            } else if (isFatal && r.chance(1, 2)) {
               kContracts[r.below(std::size(kContracts))](INFO, e.text, e);
               e.lvText = e.lv->text;
               e.lvValue = e.lv->value;
            } else {
               const CustomLevel& cl = isFatal ? r.pick(fpool) : r.pick(pool);
               LEVELS l{cl.value, cl.text};
               int builtin = cl.value == 1000 && cl.text == "FATAL" ? 3 : static_cast<int>(r.below(30));
               const LEVELS& use = isFatal ? (builtin == 3 ? FATAL : l) : builtin == 0 ? INFO : builtin == 1 ? WARNING : builtin == 2 ? G3LOG_DEBUG : l;
               kSites[r.below(std::size(kSites))](use, e.text, e);
               e.lvText = use.text;
               e.lvValue = use.value;
            }
            exps[t].push_back(std::move(e));
         }
      });
      w.reset();
      auto &got = st.got;
      auto &ren = st.rendered, &str = st.strings;
      std::map<u64, const Exp*> exp;
      size_t nf = 0;
      for (auto& v : exps) for (auto& e : v) { exp[e.id] = &e; if (e.lvValue >= 1000) ++nf; }
      if (got.size() != exp.size() - nf) fail("count", "%zu records received for %zu statements", got.size(), exp.size() - nf);
      for (size_t i = 0; i < got.size(); ++i) {
         u64 id;
         if (!parseId(got[i].message(), id) || !exp.count(id)) { fail("record", "a record with text nobody logged: '%s'", printable(got[i].message()).c_str()); continue; }
         const Exp& e = *exp[id];
         checkFields("sink", e, got[i], e.text);
         if (render >= 0) {
            const char* what = "rendered in the sink";
            FIELD("layout", ren[i], detailsOf(render, got[i].timestamp(), e) + e.text + "\n");
         }
         g3::LogMessage copy = got[i];
         checkRender("sink", e, copy, e.text);
         checkFields("sink, after rendering", e, copy, e.text);
      }
      if (str.size() != got.size()) fail("count", "the text sink received %zu, the message sink %zu", str.size(), got.size());
      for (size_t i = 0; i < str.size() && i < got.size(); ++i) {
         u64 id;
         if (!parseId(got[i].message(), id) || !exp.count(id)) continue;
         const Exp& e = *exp[id];
         const char* what = "text sink";
         checkStamp(what, e, str[i]);
         FIELD("text rendering", str[i], detailsOf(0, str[i].substr(0, 26), e) + e.text + "\n");
      }
      for (auto& x : exp) {
         const Exp& e = *x.second;
         if (e.lvValue < 1000) continue;
         auto f = fatalGot.find(x.first);
         if (f == fatalGot.end() || f->second.size() != 1) { fail("count", "fatal message %s reached the fatal handler %zu times", idStr(x.first).c_str(), f == fatalGot.end() ? size_t(0) : f->second.size()); continue; }
         const g3::FatalMessage& m = f->second[0];
         std::string t = m.message();
         if (t.compare(0, e.text.size(), e.text) != 0 || !has(t.substr(e.text.size()), "STACKDUMP")) { fail("record", "fatal message %s does not consist of its text and a stack dump: '%s'", idStr(x.first).c_str(), printable(t, 300).c_str()); continue; }
         checkFields("fatal handler", e, m, t);
         checkRender("fatal handler", e, m, t);
         g3::LogMessage lm = m.copyToLogMessage();
         checkFields("fatal message as log message", e, lm, t);
         if (m._signal_id != SIGABRT) fail("record", "fatal statement %s carries signal %d", idStr(x.first).c_str(), m._signal_id);
      }
      ctr(0) = got.size();
      ctr(1) = nf;
      u64 hh = 1;
      for (auto& m : got) hh = mix(hh ^ hashStr(m.file() + m.level() + m.line()));
      ctr(2) = hh;
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      c.stat["records_compared"] += ctr(0).load();
      c.stat["fatal_records_compared"] += ctr(1).load();
      c.distinct(ctr(2).load());
      c.sample(fmt("%d threads x %d statements, %s texts, %s, rendering %d: %llu records compared field by field", threads, n, prof.binary ? "binary" : "printable", tz.c_str(), render, (unsigned long long)ctr(0).load()));
   }
};
VF_SCENARIO(P03, Record, 6)

// stream formatting: operands of many types and manipulators give what an ostringstream gives
struct Stream : Scenario {
   void child(Case& c) override {
      auto w = LogWorker::createLogWorker();
      Store st;
      w->addSink(std::make_unique<RecSink>(&st), &RecSink::recv);
      g3::initializeLogging(w.get());
      std::vector<std::string> want;
      const int n = 60;
      for (int i = 0; i < n; ++i) {
         int a = static_cast<int>(c.rng.next());
         double d = static_cast<double>(static_cast<int64_t>(c.rng.next())) / 3e7;
         std::string s(c.rng.below(50), static_cast<char>(c.rng.below(256)));
         const void* p = &want;
         char ch = static_cast<char>(c.rng.below(256));
         u64 u = c.rng.next();
         int pr = c.rng.range(0, 20), wd = c.rng.range(0, 40);
         std::ostringstream o;
#define BODY a << ' ' << std::hex << std::showbase << a << std::dec << std::setw(wd) << u << std::setprecision(pr) << std::fixed << d << std::scientific << d << s << ch << p << std::boolalpha << (a > 0) << std::left << std::setfill('*') << std::setw(wd) << s << std::endl << "tail" << std::ends << static_cast<short>(a) << 1.5f << -7L << 'x'
         switch (i % 3) {
         case 0: o << BODY; LOG(INFO) << BODY; break;
         case 1: o << BODY; LOG_IF(WARNING, i >= 0) << BODY; break;
         default: o << a << s; LOG(G3LOG_DEBUG) << a << s; break;
         }
         want.push_back(o.str());
      }
      w.reset();
      auto& got = st.got;
      if (got.size() != want.size()) fail("count", "%zu records for %zu statements", got.size(), want.size());
      for (size_t i = 0; i < got.size() && i < want.size(); ++i)
         if (got[i].message() != want[i]) fail("record", "statement %zu: text '%s', the stream yields '%s'", i, printable(got[i].message(), 400).c_str(), printable(want[i], 400).c_str());
      ctr(0) = got.size();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      c.stat["stream_statements"] += ctr(0).load();
      c.distinct(c.idx);
   }
};
VF_SCENARIO(P03, Stream, 1)

// statements that leave the stream in an unusual state: an error state, exceptions on, another locale, another fill,
// nested statements; every statement starts from a fresh stream and yields what a fresh ostringstream yields
struct Grouping : std::numpunct<char> {
   char do_thousands_sep() const override { return '_'; }
   std::string do_grouping() const override { return "\3"; }
   std::string do_truename() const override { return "yes"; }
};
struct Failing {};
std::ostream& operator<<(std::ostream& o, const Failing&) { o << "before"; o.setstate(std::ios::badbit); return o << "after"; }
struct Thrower {};
std::ostream& operator<<(std::ostream& o, const Thrower&) { o << "partly"; o.exceptions(std::ios::badbit | std::ios::failbit); return o; }
struct Nested { int depth; };
std::vector<std::string>* gNestedWant = nullptr;   // null while the reference is rendered
std::ostream& operator<<(std::ostream& o, const Nested& n);
const int kXalloc = std::ios_base::xalloc();
struct Odd { int kind, a; std::string s; };
std::ostream& operator<<(std::ostream& o, const Odd& x) {
   const int a = x.a;
   const std::string& s = x.s;
   switch (x.kind) {
   case 0: o << a << static_cast<const char*>(nullptr) << s; break;
   case 1: o << s << static_cast<std::streambuf*>(nullptr) << a; break;
   case 2: o << a << Failing() << s; break;
   case 3: o << s << Thrower() << a << true; break;
   case 4: o.imbue(std::locale(std::locale::classic(), new Grouping)); o << a << ' ' << 1234567.25 << std::boolalpha << true; break;
   case 5: o << std::hex << std::showbase << std::uppercase << std::setfill('#') << std::setw(30) << a << std::setw(9); break;   // a width left behind
   case 6: o << std::unitbuf << std::oct << std::showpos << std::internal << std::setprecision(3) << a << s; break;
   case 7: { std::istringstream in(s); o << in.rdbuf() << a; break; }   // fails when s is empty
   case 8: o << "abcdef" << s; o.seekp(2); o << 'X'; break;
   case 9: o << '<' << o.iword(kXalloc)++ << '>' << o.iword(kXalloc)++ << s; break;
   case 10: o << a << Nested{3} << s; break;
   case 11: o << Nested{1} << std::hex << a << Nested{2} << a << static_cast<const char*>(nullptr); break;
   case 12: break;
   case 13: o.exceptions(std::ios::goodbit); o.clear(); o << "THROWN" << a; o.exceptions(std::ios::failbit); o.setstate(std::ios::failbit); break;
   case 14: o.exceptions(std::ios::goodbit); o.clear(); o << "THROWN" << s << Nested{1}; throw std::runtime_error("operand");
   default: o << a << ' ' << s << ' ' << 2.5 << ' ' << true << ' ' << std::setw(6) << a << ' ' << 1000000; break;   // plain
   }
   return o;
}
std::string rendered(const Odd& x, const Odd& y, int nested = -1) {
   auto* keep = gNestedWant;
   gNestedWant = nullptr;
   std::ostringstream o;
   o << x << y;
   if (nested >= 0) o << Nested{nested};
   gNestedWant = keep;
   return o.str();
}
std::ostream& operator<<(std::ostream& o, const Nested& n) {
   if (gNestedWant && n.depth > 0) {
      const Odd x{n.depth == 2 ? 6 : 20, n.depth, "inner"}, y{n.depth == 3 ? 0 : 4, 1000 * n.depth, "text"};
      LOG(WARNING) << x << y << Nested{n.depth - 1};
      gNestedWant->push_back(rendered(x, y, n.depth - 1));
   }
   return o << "[" << std::dec << n.depth << "]";
}
struct OddStreams : Scenario {
   void child(Case& c) override {
      auto w = LogWorker::createLogWorker();
      Store st;
      w->addSink(std::make_unique<RecSink>(&st), &RecSink::recv);
      g3::initializeLogging(w.get());
      std::vector<std::string> want;
      gNestedWant = &want;
      const int n = c.rng.range(5, 60);
      for (int i = 0; i < n; ++i) {
         auto mk = [&] { return Odd{c.rng.chance(1, 3) ? 20 : static_cast<int>(c.rng.below(16)), static_cast<int>(c.rng.next()), msgText(MsgProfile{}, c.rng.below(1000)).substr(0, c.rng.pick({0, 1, 9, 40}))}; };
         Odd x = mk(), y = mk();
         bool threw = false;
         std::string t = "?";
         auto render = [&] {
            threw = false;
            try { t = rendered(x, y); } catch (const std::exception&) { threw = true; gNestedWant = &want; }
         };
         render();
         if (threw && x.kind != 13 && x.kind != 14 && y.kind != 13 && y.kind != 14) { y.kind = 20; x.kind %= 3; render(); }
         ev(MARK, 0, x.kind * 16 + y.kind);
         try {
            switch (c.rng.below(3)) {
            case 0: LOG(INFO) << x << y; break;
            case 1: LOG_IF(INFO, n > 0) << x << y; break;
            default: LOG(G3LOG_DEBUG) << x << y; break;
            }
            if (threw) fail("record", "statement %d with operands of kinds %d, %d did not throw", i, x.kind, y.kind);
         } catch (const std::exception& e) {
            if (!threw) fail("record", "statement %d with operands of kinds %d, %d threw %s", i, x.kind, y.kind, e.what());
         }
         if (!threw) want.push_back(t);
      }
      gNestedWant = nullptr;
      w.reset();
      std::vector<std::string> got;
      for (auto& m : st.got) if (m.message().find("THROWN") == std::string::npos) got.push_back(m.message());
      if (got.size() != want.size()) fail("count", "%zu records for %zu statements", got.size(), want.size());
      for (size_t i = 0; i < got.size() && i < want.size(); ++i)
         if (got[i] != want[i]) { fail("record", "statement %zu: text '%s', a stream yields '%s'", i, printable(got[i], 400).c_str(), printable(want[i], 400).c_str()); break; }
      ctr(0) = got.size();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      u64 h = 0;
      for (u64 i = 0; i < eventCount(); ++i) if (event(i).kind == MARK) h = mix(h ^ event(i).a);
      c.stat["odd_stream_statements"] += ctr(0).load();
      c.distinct(h);
   }
};
VF_SCENARIO(P03, OddStreams, 1)
VF_SCENARIO(P14, OddStreams, 1)

// P04 ---------------------------------------------------------------------------------
std::string spec(Rng& r, const char* len, const std::vector<char>& convs, bool star) {
   std::string f = "%";
   char cv = r.pick(convs);
   bool str = cv == 's' || cv == 'c' || cv == 'p';
   if (r.chance(1, 3)) f += '-';
   if (!str && r.chance(1, 4)) f += '+';
   if (!str && r.chance(1, 6)) f += ' ';
   if (!str && r.chance(1, 4)) f += '0';
   if (!str && cv != 'd' && cv != 'i' && cv != 'u' && r.chance(1, 4)) f += '#';
   if (star) f += '*';
   else if (r.chance(1, 2)) f += std::to_string(r.below(30));
   if (cv != 'c' && cv != 'p' && r.chance(1, 3)) f += "." + std::to_string(r.below(25));
   f += len;
   return f + cv;
}
std::string literal(Rng& r) {
   std::string s;
   for (int i = r.range(0, 10); i > 0; --i) { char ch = static_cast<char>(r.range(1, 255)); s += ch; if (ch == '%') s += '%'; }
   return s;
}
thread_local std::string fatalText;
#define WITH(STMT_FMT, ...)                                                                                  \
   do {                                                                                                      \
      errno = err;                                                                                           \
      int len_ = snprintf(nullptr, 0, STMT_FMT, ##__VA_ARGS__);                                              \
      if (len_ >= 0) { want.resize(len_ + 1); errno = err; snprintf(&want[0], len_ + 1, STMT_FMT, ##__VA_ARGS__); want.resize(len_); } \
      else failed = true;                                                                                    \
      errno = err;                                                                                           \
      switch (form) {                                                                                        \
      case 0: LOGF(INFO, STMT_FMT, ##__VA_ARGS__); break;                                                    \
      case 1: LOGF_IF(WARNING, form == 1, STMT_FMT, ##__VA_ARGS__); break;                                   \
      case 2: CHECKF(form != 2, STMT_FMT, ##__VA_ARGS__); break;                                             \
      default: CHECK_F(form < 3, STMT_FMT, ##__VA_ARGS__); break;                                            \
      }                                                                                                      \
   } while (0)
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
struct Printf : Scenario {
   int threads, n;
   long maxSize = 2048;
   void prepare(Case& c) override {
      threads = c.rng.range(1, 4);
      n = c.rng.range(20, kTsan || kAsan ? 80 : 200);
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
      maxSize = c.rng.pick({2048, 0, 1, 2, 3, 16, 100, 255, 1024, 2047, 2049, 4096, 65536, 1 << 20});
#endif
   }
   struct Item { std::string want; bool failed; std::string format; };
   void child(Case& c) override {
#ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
      if (maxSize != 2048 || c.rng.chance(1, 2)) g3::only_change_at_initialization::setMaxMessageSize(maxSize);
#endif
      g3::setFatalExitHandler([](g3::FatalMessagePtr p) {
         std::string t = p.get()->message();
         auto q = t.find("\n*******\tSTACKDUMP");
         g3::LogMessage m("f", 1, "g", INFO);
         fatalText = t.substr(0, q);
      });
      auto w = LogWorker::createLogWorker();
      Store st;
      w->addSink(std::make_unique<RecSink>(&st), &RecSink::recv);
      g3::initializeLogging(w.get());
      std::vector<std::string> tids(threads);
      std::atomic<int> up{0};
      std::vector<std::vector<Item>> logged(threads);
      std::atomic<u64> trunc{0}, exact{0}, errs{0}, total{0}, fat{0};
      u64 seed = c.rng.next();
      auto compare = [&](const std::string& got, const Item& it, const char* what) {
         ++total;
         static const std::string mark = "[...truncated...]";
         if (it.failed) {
            ++errs;
            if (!has(got, it.format) || !has(got, "ERROR")) fail("printf", "%s: a format that cannot be processed is not reported: '%s'", what, printable(got, 200).c_str());
         } else if (static_cast<long>(it.want.size()) < maxSize || (it.want.empty() && got.empty())) {
            ++exact;
            if (got != it.want) {
               size_t d = 0;
               while (d < got.size() && d < it.want.size() && got[d] == it.want[d]) ++d;
               fail("printf", "%s: format '%s' logged '%s' (%zu bytes), snprintf yields '%s' (%zu bytes), first difference at %zu, limit %ld", what, printable(it.format, 120).c_str(), printable(got, 200).c_str(), got.size(), printable(it.want, 200).c_str(), it.want.size(), d, maxSize);
            }
         } else {
            ++trunc;
            bool ok = got.size() >= mark.size() && got.compare(got.size() - mark.size(), mark.size(), mark) == 0;
            std::string lead = ok ? got.substr(0, got.size() - mark.size()) : got;
            if (!ok) fail("printf", "%s: %zu bytes with a limit of %ld are logged as %zu bytes without the truncation marker", what, it.want.size(), maxSize, got.size());
            else if (it.want.compare(0, lead.size(), lead) != 0) fail("printf", "%s: the truncated message is not the leading part of the result: '%s'", what, printable(lead, 200).c_str());
            else if (static_cast<long>(lead.size()) < maxSize - 1) fail("printf", "%s: a result of %zu bytes is cut to %zu, the limit is %ld", what, it.want.size(), lead.size(), maxSize);
         }
      };
      inThreads(threads, [&](int t) {
         Rng r(seed + t);
         tids[t] = selfId();
         for (++up; up < threads;) shortWait();   // all alive together: thread ids are distinct
         for (int i = 0; i < n; ++i) {
            std::string want, f;
            bool failed = false;
            int err = r.pick({0, 1, 2, 9, 12, 34, 110});
            int form = r.chance(1, 8) ? r.range(2, 3) : r.range(0, 1);
            std::vector<char> ints = {'d', 'i', 'u', 'x', 'X', 'o'}, flts = {'f', 'F', 'e', 'E', 'g', 'G', 'a', 'A'};
            // around the limit: lengths limit-20 .. limit+20, or anything up to three times the limit
            long around = r.chance(1, 2) ? maxSize + r.range(-4, 4) : r.chance(1, 2) ? maxSize + r.range(-40, 40) : static_cast<long>(r.below(std::min<long>(maxSize * 3 + 1, 200000)));
            switch (r.below(12)) {
            case 0: { f = literal(r) + spec(r, "", ints, false) + literal(r) + spec(r, "ll", ints, false) + literal(r) + spec(r, "", {'s'}, false); std::string s = literal(r); int a = static_cast<int>(r.next()); long long b = static_cast<long long>(r.next()); WITH(f.c_str(), a, b, s.c_str()); break; }
            case 1: { f = literal(r) + spec(r, "", flts, false) + spec(r, "l", flts, true) + literal(r); u64 bits = r.next(); double d; memcpy(&d, &bits, 8); double e = static_cast<double>(static_cast<int64_t>(r.next())) / 1e9; int wd = r.range(-40, 40); WITH(f.c_str(), e, wd, d); break; }
            case 2: { f = spec(r, "h", ints, false) + spec(r, "hh", ints, false) + spec(r, "z", ints, false) + spec(r, "j", ints, false) + spec(r, "t", ints, false); int a = static_cast<int>(r.next()), b = static_cast<int>(r.next()); size_t z = r.next(); intmax_t j = static_cast<intmax_t>(r.next()); ptrdiff_t p = static_cast<ptrdiff_t>(r.next()); WITH(f.c_str(), a, b, z, j, p); break; }
            case 3: { f = spec(r, "", {'c'}, false) + literal(r) + spec(r, "", {'p'}, false) + "%%"; int ch = static_cast<int>(r.below(256)); void* p = &f; WITH(f.c_str(), ch, p); break; }
            case 4: { f = literal(r); if (r.chance(1, 3)) f = ""; WITH(f.c_str()); break; }
            case 5: { f = "%2$s-%1$d-%2$s"; std::string s = literal(r); WITH(f.c_str(), i, s.c_str()); break; }
            case 6: { f = "%1$*2$d|%1$x"; int wd = r.range(-30, 30); WITH(f.c_str(), i, wd); break; }
            case 7: { f = "%ls|%d"; const wchar_t bad[] = {L'a', static_cast<wchar_t>(r.chance(1, 2) ? 0x4e2d : L'b'), 0}; WITH(f.c_str(), bad, i); break; }
            case 8: { f = "%s"; std::string s(std::max(0l, around), 'q'); for (size_t k = 0; k < s.size(); ++k) s[k] = static_cast<char>(33 + mix(k + seed + i) % 94); WITH(f.c_str(), s.c_str()); break; }
            case 9: { f = "%d%.*s%s"; int lead = i; std::string s(200000, 'z'); long len = std::max(0l, around - static_cast<long>(std::to_string(i).size()) - 3); WITH(f.c_str(), lead, static_cast<int>(std::min<long>(len, 200000)), s.c_str(), "end"); break; }
            case 10: { f = "%*d|%-*s"; int wd = static_cast<int>(std::max(0l, std::min(around, 250000l))); WITH(f.c_str(), wd, i, 3, "x"); break; }
            default: { f = std::string(std::max(0l, std::min(around, 120000l)), 'L'); WITH(f.c_str()); break; }
            }
            Item it{want, failed, f};
            if (form >= 2) { ++fat; compare(fatalText, it, "contract statement"); }
            else logged[t].push_back(std::move(it));
         }
      });
      w.reset();
      auto& got = st.got;
      std::map<std::string, std::vector<const g3::LogMessage*>> byTid;
      for (auto& m : got) byTid[m.threadID()].push_back(&m);
      size_t sum = 0;
      for (auto& v : logged) sum += v.size();
      if (sum != got.size()) fail("count", "%zu messages for %zu printf-style statements", got.size(), sum);
      for (int t = 0; t < threads; ++t) {
         auto& b = byTid[tids[t]];
         if (b.size() != logged[t].size()) { fail("count", "thread %d: %zu messages for %zu statements", t, b.size(), logged[t].size()); continue; }
         for (size_t i = 0; i < b.size(); ++i) compare(b[i]->message(), logged[t][i], "log statement");
      }
      ctr(0) = total.load();
      ctr(1) = trunc.load();
      ctr(2) = exact.load();
      ctr(3) = errs.load();
      ctr(4) = fat.load();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      c.stat["statements"] += ctr(0).load();
      c.stat["truncated"] += ctr(1).load();
      c.stat["complete"] += ctr(2).load();
      c.stat["format_errors"] += ctr(3).load();
      c.stat["contract_statements"] += ctr(4).load();
      c.distinct(mix(c.idx) ^ maxSize);
      c.sample(fmt("%d threads x %d printf-style statements, limit %ld: %llu complete, %llu truncated, %llu format errors", threads, n, maxSize, (unsigned long long)ctr(2).load(), (unsigned long long)ctr(1).load(), (unsigned long long)ctr(3).load()));
   }
};
VF_SCENARIO(P04, Printf, 1)

// P19 ---------------------------------------------------------------------------------
struct Model {
   std::string file, path, fn, lvText, expr, msg, tid;
   int line = 0, lv = 0, fnKind = 0;
   int64_t ns = 0;
};
struct Values : Scenario {
   void compare(const char* op, const g3::LogMessage& m, const Model& x) {
      auto bad = [&](const char* f, const std::string& g, const std::string& w) { fail("value", "after %s: %s is '%s', expected '%s'", op, f, printable(g, 100).c_str(), printable(w, 100).c_str()); };
      if (m.message() != x.msg) bad("message", m.message(), x.msg);
      if (m.file() != x.file) bad("file", m.file(), x.file);
      if (m.file_path() != x.path) bad("file path", m.file_path(), x.path);
      if (m.function() != x.fn) bad("function", m.function(), x.fn);
      if (m.level() != x.lvText || m._level.value != x.lv) bad("level", m.level() + "/" + std::to_string(m._level.value), x.lvText + "/" + std::to_string(x.lv));
      if (m.expression() != x.expr) bad("expression", m.expression(), x.expr);
      if (m.threadID() != x.tid) bad("thread id", m.threadID(), x.tid);
      if (m._line != x.line) bad("line", m.line(), std::to_string(x.line));
      if (hrNs(m._timestamp) != x.ns) bad("time stamp", std::to_string(hrNs(m._timestamp)), std::to_string(x.ns));
      if (m._logDetailsToStringFunc != detailsFn(x.fnKind)) bad("details formatter", "another", std::to_string(x.fnKind));
   }
   void child(Case& c) override {
      Rng& r = c.rng;
      struct Slot { std::unique_ptr<g3::LogMessage> m; Model x; bool live = false; };
      std::vector<Slot> v(6);
      auto rs = [&] { std::string s(r.chance(1, 3) ? r.below(4) : r.below(200), 'a'); for (auto& ch : s) ch = static_cast<char>(r.range(1, 255)); return s; };
      long ops = 0;
      auto fresh = [&](Slot& s) {
         Model x;
         x.path = r.chance(1, 3) ? "/a/" + rs() + "/" + rs() : rs();
         x.file = shownFile(x.path);
         x.line = static_cast<int>(r.next());
         x.fn = rs();
         x.lv = static_cast<int>(r.pick({100, 300, 500, 1000, 1234, 2000, 2001, 2002, 42, -5}));
         x.lvText = rs();
         std::string tid;
         auto make = [&] { s.m = std::make_unique<g3::LogMessage>(x.path, x.line, x.fn, LEVELS{x.lv, x.lvText}); x.tid = selfId(); };
         if (r.chance(1, 4)) { std::thread th(make); th.join(); } else make();
         x.ns = hrNs(s.m->_timestamp);
         if (r.chance(2, 3)) { x.msg = rs(); if (r.chance(1, 5)) x.msg += std::string(1, '\0') + "tail"; s.m->write().append(x.msg); }
         if (r.chance(1, 2)) { x.expr = rs(); s.m->setExpression(x.expr); }
         s.x = x;
         s.live = true;
      };
      for (int i = 0; i < 400; ++i) {
         Slot& a = v[r.below(v.size())];
         Slot& b = v[r.below(v.size())];
         const char* op = "construction";
         if (!a.m || (!a.live && r.chance(1, 3))) { fresh(a); }
         else if (!b.m) fresh(b);
         else switch (r.below(14)) {
            case 0: if (b.live) { op = "copy construction"; a.m = std::make_unique<g3::LogMessage>(*std::make_unique<g3::LogMessage>(*b.m)); a.x = b.x; a.live = true; } break;
            case 1: if (b.live && &a != &b) { op = "move construction"; a.m = std::make_unique<g3::LogMessage>(std::move(*b.m)); a.x = b.x; a.live = true; b.live = false; } break;
            case 2: case 3: if (b.live) { op = &a == &b ? "self assignment" : "copy assignment"; *a.m = *b.m; a.x = b.x; a.live = true; } break;
            case 4: if (b.live && &a != &b) { op = "move assignment"; *a.m = std::move(*b.m); a.x = b.x; a.live = true; b.live = false; } break;
            case 5: if (a.live && b.live) { op = &a == &b ? "self swap" : "swap"; using std::swap; swap(*a.m, *b.m); std::swap(a.x, b.x); } break;
            case 6: if (a.live) { op = "write"; std::string s = rs(); a.m->write().append(s); a.x.msg += s; } break;
            case 7: if (a.live) { op = "setExpression"; a.x.expr = rs(); a.m->setExpression(a.x.expr); } break;
            case 8: if (a.live) {
               op = "rendering";
               a.x.fnKind = r.range(0, 3);
               std::string s1 = a.m->toString(detailsFn(a.x.fnKind)), s2 = a.m->toString(detailsFn(a.x.fnKind));
               if (s1 != s2) fail("value", "rendering twice gives two results");
               g3::LogMessage cp(*a.m);
               if (cp.toString(detailsFn(a.x.fnKind)) != s1) fail("value", "a copy renders differently: '%s' / '%s'", printable(s1).c_str(), printable(cp.toString(detailsFn(a.x.fnKind))).c_str());
               break;
            }
            break;
            case 9: if (a.live) {
               op = "fatal message round trip";
               int sig = r.range(0, 64);
               auto f = std::make_unique<g3::FatalMessage>(*a.m, sig);
               g3::FatalMessage f2(*f);
               compare("FatalMessage construction", *f, a.x);
               f.reset();
               compare("FatalMessage copy", f2, a.x);
               if (f2._signal_id != sig) fail("value", "signal id %d became %d", sig, (int)f2._signal_id);
               g3::LogMessage m = f2.copyToLogMessage();
               compare("copyToLogMessage", m, a.x);
               m.write() = "changed";
               m._file_path = "changed";
               compare("changing the copy of a fatal message", f2, a.x);
               break;
            }
            break;
            case 10: if (b.live) {
               op = "move-on-copy wrapper";
               g3::LogMessageMover mv(g3::LogMessage(*b.m));
               g3::LogMessageMover m2(mv);
               g3::LogMessageMover m3(g3::LogMessage("", 0, "", INFO));
               m3 = m2;
               compare(op, m3.get(), b.x);
               a.x = b.x;
               *a.m = m3.release();
               a.live = true;
               break;
            }
            break;
            case 11: if (a.live && b.live && &a != &b) {
               op = "changing a copy";
               g3::LogMessage cp(*b.m);
               cp.write().assign("x");
               cp._file = cp._file_path = cp._function = cp._expression = "y";
               cp._line = -1;
               cp._level = FATAL;
               cp._timestamp = {};
               compare(op, *b.m, b.x);
               break;
            }
            break;
            case 12: { op = "level value semantics";
               LEVELS l1{a.x.lv, a.x.lvText}, l2{b.x.lv, a.x.lvText + "b"};
               LEVELS cp(l1);
               if (!(cp == l1) || cp != l1 || cp == l2) fail("value", "level copy is not equal");
               cp = l2;
               using std::swap;
               swap(cp, l1);
               if (cp.value != a.x.lv || cp.text != a.x.lvText || l1.value != b.x.lv || l1.text != a.x.lvText + "b") fail("value", "level assignment or swap lost a part");
               cp = *&cp;
               if (cp.value != a.x.lv || cp.text != a.x.lvText) fail("value", "level self assignment changed it");
               break; }
            default: if (!a.live) { op = "destroying a moved-from message"; a.m.reset(); } else { op = "vector growth"; std::vector<g3::LogMessage> vv; for (int k = 0; k < 5; ++k) { vv.push_back(*a.m); } compare(op, vv[2], a.x); *a.m = vv[4]; } break;
            }
         ++ops;
         for (auto& s : v) if (s.m && s.live) compare(op, *s.m, s.x);
      }
      ctr(0) = ops;
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      c.stat["operations"] += ctr(0).load();
      c.distinct(mix(c.seed) ^ c.idx);
      c.sample(fmt("%llu random constructions, copies, moves, assignments, swaps, conversions over 6 messages, all fields compared after each", (unsigned long long)ctr(0).load()));
   }
};
VF_SCENARIO(P19, Values, 1)
}  // namespace
