// P18: formatted times against an independent calendar, zone and specifier reference.
#include "common.hpp"
#include "g3log/time.hpp"
#include <time.h>
using namespace cm;
namespace {
int64_t fdiv(int64_t a, int64_t b) { return a / b - ((a % b != 0) && ((a % b < 0) != (b < 0))); }
int64_t daysFromCivil(int64_t y, unsigned m, unsigned d) {
   y -= m <= 2;
   int64_t era = fdiv(y, 400);
   unsigned yoe = static_cast<unsigned>(y - era * 400);
   unsigned doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1;
   unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return era * 146097 + static_cast<int64_t>(doe) - 719468;
}
bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
struct Cal { int64_t y; int mon, day, h, mi, s, wday, yday; };
Cal civil(int64_t t) {
   Cal c;
   int64_t days = fdiv(t, 86400), rem = t - days * 86400;
   c.h = static_cast<int>(rem / 3600); c.mi = static_cast<int>(rem / 60 % 60); c.s = static_cast<int>(rem % 60);
   c.wday = static_cast<int>(((days + 4) % 7 + 7) % 7);
   int64_t y = 1970 + fdiv(days, 366);
   if (days < 0) y = 1970 + fdiv(days, 365);
   while (daysFromCivil(y + 1, 1, 1) <= days) ++y;
   c.y = y;
   c.yday = static_cast<int>(days - daysFromCivil(y, 1, 1));
   static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
   int d = c.yday;
   c.mon = 0;
   for (;;) { int n = ml[c.mon] + (c.mon == 1 && leap(y)); if (d < n) break; d -= n; ++c.mon; }
   c.day = d + 1;
   return c;
}
struct Rule { int m = 0, w = 0, d = 0, time = 7200; };
struct Zone {
   std::string tz, sname, dname;
   int soff = 0, doff = 0;
   bool dst = false;
   Rule a, b;
};
int64_t ruleDay(const Rule& r, int64_t y) {
   int64_t first = daysFromCivil(y, r.m, 1);
   int wd = static_cast<int>(((first + 4) % 7 + 7) % 7);
   int64_t day = first + ((r.d - wd) % 7 + 7) % 7 + 7 * (r.w - 1);
   int64_t next = daysFromCivil(r.m == 12 ? y + 1 : y, r.m == 12 ? 1 : r.m + 1, 1);
   while (day >= next) day -= 7;
   return day;
}
bool inDst(const Zone& z, int64_t t) {
   if (!z.dst) return false;
   int64_t y = civil(t).y;
   int64_t s = ruleDay(z.a, y) * 86400 + z.a.time - z.soff, e = ruleDay(z.b, y) * 86400 + z.b.time - z.doff;
   return s < e ? t >= s && t < e : !(t >= e && t < s);
}
std::string offStr(int off) {  // POSIX sign: west positive
   std::string o = off > 0 ? "-" : "";
   int a = std::abs(off);
   o += std::to_string(a / 3600);
   if (a % 3600) o += fmt(":%02d", a / 60 % 60);
   return o;
}
Zone mkZone(Rng& r) {
   Zone z;
   int k = static_cast<int>(r.below(8));
   if (k == 0) { z.tz = "UTC0"; z.sname = "UTC"; return z; }
   static const int minutes[] = {0, 0, 0, 30, 45, 15};
   int off = r.range(-11, 13) * 3600;
   int m = minutes[r.below(6)] * 60;
   off += off < 0 ? -m : m;
   z.soff = off;
   z.doff = off;
   bool numeric = r.chance(1, 3);
   z.sname = numeric ? fmt("%c%02d%02d", off < 0 ? '-' : '+', std::abs(off) / 3600, std::abs(off) / 60 % 60) : r.pick<const char*>({"CET", "XST", "LONGST", "Abc"});
   z.tz = (numeric ? "<" + z.sname + ">" : z.sname) + (off < 0 ? "+" : "") + offStr(off);
   if (off == 0) z.tz = (numeric ? "<" + z.sname + ">" : z.sname) + "0";
   if (k >= 3) {
      z.dst = true;
      z.dname = r.pick<const char*>({"CEST", "XDT", "LONGDT", "Def"});
      int delta = r.pick({3600, 3600, 3600, 1800, 7200});
      z.doff = off + delta;
      z.tz += z.dname;
      if (delta != 3600) z.tz += (z.doff < 0 ? "+" : "") + (z.doff == 0 ? std::string("0") : offStr(z.doff));
      auto rule = [&](int lo, int hi) { Rule q; q.m = r.range(lo, hi); q.w = r.range(1, 5); q.d = r.range(0, 6); q.time = r.pick({0, 3600, 7200, 10800, 9000}); return q; };
      if (r.chance(1, 2)) { z.a = rule(3, 5); z.b = rule(9, 11); }
      else { z.a = rule(9, 11); z.b = rule(3, 5); }
      for (const Rule* q : {&z.a, &z.b}) z.tz += fmt(",M%d.%d.%d/%d:%02d", q->m, q->w, q->d, q->time / 3600, q->time / 60 % 60);
   }
   return z;
}
struct Local { Cal c; int off; bool dst; int64_t t; };
const char* WD[] = {"Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"};
const char* MN[] = {"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"};
void isoWeek(const Cal& c, int64_t& gy, int& week) {
   int wd = (c.wday + 6) % 7;  // monday 0
   int w = (c.yday - wd + 10) / 7;
   gy = c.y;
   auto weeksIn = [](int64_t y) {
      int64_t j1 = daysFromCivil(y, 1, 1);
      int d = static_cast<int>(((j1 + 3) % 7 + 7) % 7);  // monday 0
      return d == 3 || (d == 2 && leap(y)) ? 53 : 52;
   };
   if (w < 1) { --gy; w = weeksIn(gy); }
   else if (w > weeksIn(gy)) { ++gy; w = 1; }
   week = w;
}
std::string spec(char s, const Local& l, const Zone& z) {
   const Cal& c = l.c;
   int64_t gy; int wk;
   isoWeek(c, gy, wk);
   int h12 = c.h % 12 ? c.h % 12 : 12;
   long long y = c.y;
   switch (s) {
   case 'Y': return fmt("%lld", y);
   case 'C': return fmt("%02lld", y / 100);
   case 'y': return fmt("%02lld", y % 100);
   case 'm': return fmt("%02d", c.mon + 1);
   case 'd': return fmt("%02d", c.day);
   case 'e': return fmt("%2d", c.day);
   case 'H': return fmt("%02d", c.h);
   case 'I': return fmt("%02d", h12);
   case 'M': return fmt("%02d", c.mi);
   case 'S': return fmt("%02d", c.s);
   case 'p': return c.h < 12 ? "AM" : "PM";
   case 'j': return fmt("%03d", c.yday + 1);
   case 'a': return std::string(WD[c.wday], 3);
   case 'A': return WD[c.wday];
   case 'b': case 'h': return std::string(MN[c.mon], 3);
   case 'B': return MN[c.mon];
   case 'u': return fmt("%d", c.wday ? c.wday : 7);
   case 'w': return fmt("%d", c.wday);
   case 'U': return fmt("%02d", (c.yday + 7 - c.wday) / 7);
   case 'W': return fmt("%02d", (c.yday + 7 - (c.wday + 6) % 7) / 7);
   case 'G': return fmt("%lld", (long long)gy);
   case 'g': return fmt("%02lld", (long long)gy % 100);
   case 'V': return fmt("%02d", wk);
   case 'D': case 'x': return spec('m', l, z) + "/" + spec('d', l, z) + "/" + spec('y', l, z);
   case 'F': return spec('Y', l, z) + "-" + spec('m', l, z) + "-" + spec('d', l, z);
   case 'T': case 'X': return spec('H', l, z) + ":" + spec('M', l, z) + ":" + spec('S', l, z);
   case 'R': return spec('H', l, z) + ":" + spec('M', l, z);
   case 'r': return spec('I', l, z) + ":" + spec('M', l, z) + ":" + spec('S', l, z) + " " + spec('p', l, z);
   case 'c': return spec('a', l, z) + " " + spec('b', l, z) + " " + spec('e', l, z) + " " + spec('T', l, z) + " " + spec('Y', l, z);
   case 'n': return "\n";
   case 't': return "\t";
   case 's': return fmt("%lld", (long long)l.t);
   case 'z': return fmt("%c%02d%02d", l.off < 0 ? '-' : '+', std::abs(l.off) / 3600, std::abs(l.off) / 60 % 60);
   case 'Z': return l.dst ? z.dname : z.sname;
   default: return "?";
   }
}
struct Piece { int kind; std::string text; char sp; int frac; };  // 0 literal, 1 specifier, 2 %%, 3 fraction
std::vector<Piece> mkFormat(Rng& r, bool withFraction) {
   static const char sp[] = "YCymdeHIMSpjaAbhBuwUWGgVDxFTXRrcntszZ";
   std::vector<Piece> v;
   int n = r.chance(1, 12) ? 0 : r.chance(1, 25) ? r.range(60, 400) : r.range(1, 9);
   for (int i = 0; i < n; ++i) {
      int k = static_cast<int>(r.below(10));
      if (k < 3) {
         static const char* lits[] = {" ", "/", ":", "f", "f3", "3", "6", "9", "f6 ", "x f9", "-", "T", ".", "µs", "(", "0", "EOY", "a longer literal text "};
         v.push_back({0, lits[r.below(18)], 0, 0});
      } else if (k < 6) v.push_back({1, "", sp[r.below(sizeof sp - 1)], 0});
      else if (k < 8 || !withFraction) v.push_back({2, "", 0, 0});
      else v.push_back({3, "", 0, r.pick({0, 3, 6, 9})});
   }
   return v;
}
std::string fmtText(const std::vector<Piece>& v, Rng& r) {
   std::string s;
   static const std::string eAllowed = "cCxXyY", oAllowed = "deHImMSuUVwWy";
   for (auto& p : v) {
      if (p.kind == 0) s += p.text;
      else if (p.kind == 2) s += "%%";
      else if (p.kind == 3) s += p.frac ? "%f" + std::to_string(p.frac) : "%f";
      else {
         s += '%';
         if (r.chance(1, 10)) {
            if (eAllowed.find(p.sp) != std::string::npos) s += 'E';
            else if (oAllowed.find(p.sp) != std::string::npos) s += 'O';
         }
         s += p.sp;
      }
   }
   return s;
}
// "%f" directly followed by a literal 3, 6 or 9 reads as %f3 etc.
void normalize(std::vector<Piece>& v) {
   for (size_t i = 0; i + 1 < v.size(); ++i)
      if (v[i].kind == 3 && v[i].frac == 0 && v[i + 1].kind == 0 && (v[i + 1].text[0] == '3' || v[i + 1].text[0] == '6' || v[i + 1].text[0] == '9')) v[i].frac = 3;
}
std::string expect(const std::vector<Piece>& v, const Local& l, const Zone& z, int64_t ns) {
   std::string s;
   for (auto& p : v) {
      if (p.kind == 0) s += p.text;
      else if (p.kind == 1) s += spec(p.sp, l, z);
      else if (p.kind == 2) s += '%';
      else s += p.frac == 3 ? fmt("%03lld", (long long)ns / 1000000) : p.frac == 6 ? fmt("%06lld", (long long)ns / 1000) : fmt("%09lld", (long long)ns);
   }
   return s;
}
Local localOf(const Zone& z, int64_t t) {
   Local l;
   l.t = t;
   l.dst = inDst(z, t);
   l.off = l.dst ? z.doff : z.soff;
   l.c = civil(t + l.off);
   return l;
}
bool tmAgrees(const Local& l, const tm& q) {
   return q.tm_year + 1900ll == l.c.y && q.tm_mon == l.c.mon && q.tm_mday == l.c.day && q.tm_hour == l.c.h && q.tm_min == l.c.mi && q.tm_sec == l.c.s &&
          q.tm_wday == l.c.wday && q.tm_yday == l.c.yday && (q.tm_isdst > 0) == l.dst && q.tm_gmtoff == l.off;
}
struct Inst { int64_t s; int64_t ns; int cat; };
Inst mkInst(Rng& r, const Zone& z) {
   Inst q;
   q.cat = static_cast<int>(r.below(7));
   const int64_t lim = 9223372000ll;
   switch (q.cat) {
   case 0: q.s = static_cast<int64_t>(r.below(2 * lim)) - lim; break;
   case 1: q.s = r.range(-4, 4); break;
   case 2: q.s = r.range(0, 2000000000); break;
   case 3: {  // around a change of the offset
      int64_t y = r.range(1700, 2250);
      const Rule& u = r.chance(1, 2) ? z.a : z.b;
      if (!z.dst) { q.s = daysFromCivil(y, 1, 1) * 86400 + r.range(-2, 2); break; }
      q.s = ruleDay(u, y) * 86400 + u.time - (&u == &z.a ? z.soff : z.doff) + r.pick({-3601, -3600, -1, 0, 1, 1800, 3599, 3600, 7200});
      break;
   }
   case 4: {  // year ends, leap days
      int64_t y = r.pick<int64_t>({1700, 1800, 1900, 1904, 1968, 1969, 1970, 1999, 2000, 2004, 2015, 2020, 2024, 2026, 2038, 2100, 2261});
      q.s = (r.chance(1, 2) ? daysFromCivil(y, 1, 1) : daysFromCivil(y, 3, 1)) * 86400 - z.soff + r.pick({-86400, -1, 0, 1, 86399, 5 * 86400});
      break;
   }
   case 5: q.s = r.pick<int64_t>({-2147483649ll, -2147483648ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, -4294967297ll}) + r.range(-1, 1); break;
   default: q.s = -static_cast<int64_t>(r.below(4000000000ull)); break;
   }
   q.s = std::max<int64_t>(-lim, std::min<int64_t>(lim, q.s));
   q.ns = r.chance(1, 2) ? r.pick<int64_t>({0, 1, 999, 1000, 1001, 999999, 1000000, 999999999, 999999000, 999000000, 500000000, 1000001, 10000000})
                         : static_cast<int64_t>(r.below(1000000000));
   return q;
}
std::string zoneTz;
struct Format : Scenario {
   Zone z;
   std::vector<Zone> more;   // the zone of the process changes between phases
   int threads = 1, rounds = 0;
   u64 seed = 0;
   bool clock0 = false;
   void prepare(Case& c) override {
      z = mkZone(c.rng);
      threads = c.rng.pick({1, 1, 2, 4});
      rounds = c.rng.range(30, 250) * (gThorough ? 4 : 1);
      seed = c.rng.next();
      if (c.rng.chance(1, 4)) for (int i = c.rng.range(1, 4); i > 0; --i) more.push_back(mkZone(c.rng));
   }
   void work(int th) {
      Rng r(seed + th * 977);
      g3::LogMessage msg("f.cpp", 1, "fn", INFO);
      Inst prev{0, 0, 0};
      for (int i = 0; i < rounds; ++i) {
         Inst q = mkInst(r, z);
         if (i && r.chance(1, 3)) {   // near the instant formatted before
            const int64_t d = r.chance(1, 2) ? r.pick<int64_t>({0, 1, -1, 60, -60, 900, -900, 1800, -1800, 3600, -3600, 7200, 86400, -86400}) : r.range(-8000, 8000);
            q.s = std::max<int64_t>(-9223372000ll, std::min<int64_t>(9223372000ll, prev.s + d));
            q.cat = 7;
         }
         prev = q;
         Local l = localOf(z, q.s);
         time_t tt = q.s;
         tm ref;
         localtime_r(&tt, &ref);
         bool own = tmAgrees(l, ref);
         if (!own) {  // the C library's view of the zone rules (for times before 1970) is the reference
            ctr(1).fetch_add(1);
            l.dst = ref.tm_isdst > 0;
            l.off = static_cast<int>(ref.tm_gmtoff);
            l.c = Cal{ref.tm_year + 1900ll, ref.tm_mon, ref.tm_mday, ref.tm_hour, ref.tm_min, ref.tm_sec, ref.tm_wday, ref.tm_yday};
         }
         bool plain = r.chance(1, 5);
         auto v = mkFormat(r, !plain);
         normalize(v);
         if (!own) for (auto& p : v) if (p.sp == 's' || p.sp == 'Z') p.sp = 'S';
         // a literal digit swallowed by the preceding %f is not printed again
         std::vector<Piece> e = v;
         for (size_t k = 0; k + 1 < v.size(); ++k)
            if (v[k].kind == 3 && v[k + 1].kind == 0 && v[k].frac == 3 && v[k + 1].text.size() && (v[k + 1].text[0] == '3' || v[k + 1].text[0] == '6' || v[k + 1].text[0] == '9')) {
               // keep the two apart instead of guessing
               v[k + 1].text = "_" + v[k + 1].text;
            }
         e = v;
         std::string f = fmtText(v, r), want = expect(e, l, z, q.ns), got;
         g3::system_time_point tp{std::chrono::nanoseconds(q.s * 1000000000ll + q.ns)};
         const char* via;
         try {
            if (plain) {
               tm t = g3::localtime(tt);
               if (!tmAgrees(l, t)) { fail("localtime", "g3::localtime(%lld) in %s is wrong", (long long)q.s, z.tz.c_str()); return; }
               got = g3::put_time(&t, f.c_str());
               via = "put_time";
            } else if (q.s > -4000000000ll && q.s < 6000000000ll && r.chance(1, 4)) {  // what a clock can stamp
               msg._timestamp = g3::high_resolution_time_point(tp.time_since_epoch());
               got = msg.timestamp(f);
               via = "LogMessage::timestamp";
            } else {
               got = g3::localtime_formatted(tp, f);
               via = "localtime_formatted";
            }
         } catch (const std::exception& x) {
            fail("throw", "formatting %lld s + %lld ns in zone %s with '%s' threw %s", (long long)q.s, (long long)q.ns, z.tz.c_str(), printable(f).c_str(), x.what());
            return;
         }
         if (got != want) {
            size_t p = 0;
            while (p < got.size() && p < want.size() && got[p] == want[p]) ++p;
            fail("format", "%s of %lld s + %lld ns in zone %s with '%s' gave '%s', expected '%s' (differ at %zu)", via, (long long)q.s, (long long)q.ns, z.tz.c_str(),
                 printable(f, 120).c_str(), printable(got.substr(p > 20 ? p - 20 : 0), 80).c_str(), printable(want.substr(p > 20 ? p - 20 : 0), 80).c_str(), p);
            return;
         }
         u64 kinds = 0;
         for (auto& pc : v) kinds |= 1ull << (pc.kind == 1 ? pc.sp % 58 : 58 + pc.kind);
         ev(MARK, th, mix(kinds) ^ mix(q.cat * 8 + l.dst * 4 + (q.s < 0) * 2), want.size() > 1000, want.empty());
      }
   }
   void child(Case&) override {
      setenv("TZ", z.tz.c_str(), 1);
      tzset();
      freezeClock(1700000000123456789ll);  // system and steady references of to_system_time coincide
      g3::to_system_time(std::chrono::high_resolution_clock::now());
      inThreads(threads, [this](int t) { work(t); });
      for (auto& n : more) {
         z = n;
         seed = mix(seed);
         setenv("TZ", z.tz.c_str(), 1);
         tzset();
         if (threads == 1) work(0);
         else inThreads(threads, [this](int t) { work(t); });
      }
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      for (u64 i = 0; i < eventCount(); ++i) {
         if (event(i).kind == MARK) { c.distinct(event(i).a); c.stat["long_results"] += event(i).b; c.stat["empty_results"] += event(i).c; }
      }
      c.stat["formats_compared"] += static_cast<double>(eventCount());
      c.stat["zone_taken_from_the_C_library"] += ctr(1).load();
      c.stat["threads"] += threads;
      c.stat["changes_of_the_zone"] += static_cast<double>(more.size());
      c.evals = static_cast<long>(eventCount());
      c.sample(z.tz);
   }
};
VF_SCENARIO(P18, Format, 1)
}  // namespace
