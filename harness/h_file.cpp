// P15 P16 P17: log files
#include <fcntl.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <time.h>
#include "common.hpp"
#include "g3log/filesink.hpp"
using namespace vf;
using namespace cm;
using g3::LogWorker;

namespace {
const char kDefHeader[] = "\t\tLOG format: [YYYY/MM/DD hh:mm:ss uuu* LEVEL FILE->FUNCTION:LINE] message\n\n\t\t(uuu*: microseconds fractions of the seconds value)\n\n";
const char kNote[] = "g3log g3FileSink shutdown at: ";

std::string brief(const g3::LogMessage& m) { return m.level() + "|" + m.line() + "|"; }

// the file sink with an observer around each write
struct Watched {
   g3::FileSink f;
   g3::LogMessage::LogDetailsFunc details;
   u64 n = 0, interval;
   u64 seed, written = 0;
   Watched(const std::string& p, const std::string& d, const std::string& id, size_t x, u64 s) : f(p, d, id, x), details(&g3::LogMessage::DefaultLogDetailsToString), interval(x), seed(s) {}
   ~Watched() { ev(SHUTCALL, 0, n); }
   void recv(g3::LogMessageMover m) {
      g3::LogMessage copy = m.get();
      std::string t = copy.toString(details);
      ev(EXEC, 0, n, 0, 0, t.data(), t.size());
      written += t.size();
      f.fileWrite(m);
      ++n;
      ev(EXEC, 1, n);
      if (interval && n % interval == 0 && mix(seed + n) % 16 == 0) atInterval();
   }
   void atInterval() {
      struct stat st;
      std::string p = f.fileName();
      ctr(2).fetch_add(1);
      if (stat(p.c_str(), &st) || static_cast<u64>(st.st_size) < written) fail("interval", "after %llu messages (interval %llu) the file has %lld of at least %llu bytes", (unsigned long long)n, (unsigned long long)interval, (long long)st.st_size, (unsigned long long)written);
   }
   void setHeader(std::string h) { f.overrideLogHeader(h); }
   void setDetails(int) { details = brief; f.overrideLogDetails(brief); }
   std::string name() { return f.fileName(); }
   u64 count() { return n; }
};

struct FileContent : Scenario {
   int threads, perThread, interval, killUs;   // killUs < 0: orderly end
   bool direct, ownHeader, ownDetails, lateHeader;
   int killAfter;
   MsgProfile prof;
   std::string header;
   void prepare(Case& c) override {
      threads = c.rng.range(1, 4);
      perThread = c.rng.pick({0, 1, 5, 40, 150});
      if (c.rng.chance(1, 20)) perThread = 1500;
      interval = c.rng.pick({0, 1, 1, 2, 3, 7, 10, 50, 100, 100, 1000});   // 0: nothing is promised about when
      killUs = c.rng.chance(2, 3) ? c.rng.pick({0, 100, 500, 1500, 4000}) + c.rng.range(0, 700) : -1;
      direct = c.rng.chance(1, 3);
      killAfter = c.rng.chance(1, 2) ? c.rng.range(0, std::max(1, threads * perThread)) : -1;
      ownHeader = c.rng.chance(1, 3);
      ownDetails = c.rng.chance(1, 4);
      lateHeader = c.rng.chance(1, 4);
      header = ownHeader ? c.rng.pick({std::string(), std::string("H\n"), std::string("own header 100% {}\nline two"), std::string(3000, 'h') + "\n"}) : kDefHeader;
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.pick({0, 0, 1, 2, 3});
      prof.binary = c.rng.chance(1, 3);
      prof.maxLen = c.rng.pick({30000, 30000, 30000, 400000});
      if (prof.lenMode >= 2) perThread = std::min(perThread, prof.maxLen > 30000 ? 40 : 100);
   }
   void child(Case& c) override {
      gProf = prof;
      mkdir("logs", 0700);
      auto die = [] { kill(getpid(), SIGKILL); for (;;) pause(); };
      if (direct) {
         auto* s = new Watched("vf", c.dir + "/logs", "", interval, prof.seed);
         if (ownHeader) s->setHeader(header);
         if (ownDetails) s->setDetails(0);
         for (int i = 0; i < threads * perThread; ++i) {
            if (killUs >= 0 && i == killAfter) die();
            if (lateHeader && i == 1 + threads * perThread / 2) s->setHeader("a header for the next file\n");
            g3::LogMessage m("some/file.cpp", i, "fun", INFO);
            m.write() = msgText(prof, mkId(1, i));
            s->recv(g3::LogMessageMover(std::move(m)));
         }
         if (killUs >= 0) die();
         delete s;
         ev(SHUTRET, 0);
         return;
      }
      auto w = LogWorker::createLogWorker();
      auto h = w->addSink(std::make_unique<Watched>("vf", c.dir + "/logs", "", interval, prof.seed), &Watched::recv);
      if (ownHeader) h->call(&Watched::setHeader, header).wait();
      if (ownDetails) h->call(&Watched::setDetails, 0).wait();
      g3::initializeLogging(w.get());
      if (killUs >= 0) std::thread([&] { sleepUs(killUs); die(); }).detach();
      inThreads(threads, [&](int t) { for (int i = 0; i < perThread; ++i) logId(prof, mkId(t, i)); });
      if (killUs >= 0) for (;;) pause();
      if (lateHeader && threads * perThread > 0) {   // only the header of a file not yet started may change
         while (h->call(&Watched::count).get() == 0) sleepUs(100);
         h->call(&Watched::setHeader, std::string("a header for the next file\n")).wait();
         for (int i = 0; i < 5; ++i) logId(prof, mkId(77, i));
      }
      w.reset();
      ev(SHUTRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      const bool killed = killUs >= 0;
      if (killed) { if (o.sig != SIGKILL) { fail("crash", "the case ended by %s: %s", o.status().c_str(), printable(o.err, 300).c_str()); return; } }
      else if (!expectClean(c, o)) return;
      std::vector<std::string> entries;
      u64 finished = 0;
      for (u64 i = 0, n = eventCount(); i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == EXEC && e.actor == 0 && e.done) entries.push_back(textOf(e));
         if (e.kind == EXEC && e.actor == 1) finished = std::max(finished, e.a);
      }
      auto fs = listDir(c.dir + "/logs");
      std::string s;
      if (fs.size() == 1) s = readFile(c.dir + "/logs/" + fs[0]);
      else if (!(killed && fs.empty() && finished == 0)) { fail("file", "%zu files in the log directory", fs.size()); return; }
      const u64 must = interval ? finished / interval * interval : 0;
      // the expected whole log; the header's time is free
      std::string expect;
      size_t hdrEnd = 0;
      const std::string h1 = "\t\tg3log created log at: ";
      if (!entries.empty() && !s.empty()) {
         size_t nl = s.find('\n');
         std::string first = s.substr(0, nl == s.npos ? s.size() : nl + 1);
         if (nl == s.npos) {
            if (first.compare(0, std::min(first.size(), h1.size()), h1, 0, std::min(first.size(), h1.size()))) { fail("file", "the file starts with '%s'", printable(first).c_str()); return; }
            expect = s;
         } else {
            // Day Mon dd hh:mm:ss yyyy
            if (first.compare(0, h1.size(), h1) || first.size() != h1.size() + 25) { fail("file", "the header line is '%s'", printable(first).c_str()); return; }
            expect = first + header;
         }
         hdrEnd = expect.size();
      }
      size_t mustLen = must ? hdrEnd : 0, k = 0;
      for (auto& e : entries) { expect += e; if (++k == must) mustLen = expect.size(); }
      std::string body = s;
      if (!killed) {
         auto p = s.rfind(kNote);
         if (p == s.npos || s.find('\n', p) != s.size() - 1) { fail("file", "the closing note is not at the end of the file: '%s'", printable(s.size() > 200 ? s.substr(s.size() - 200) : s, 200).c_str()); return; }
         body = s.substr(0, p);
         mustLen = expect.size();
      }
      if (body.size() > expect.size() || expect.compare(0, body.size(), body)) {
         size_t d = 0;
         while (d < body.size() && d < expect.size() && body[d] == expect[d]) ++d;
         fail("file", "the file (%zu bytes) differs from the log at byte %zu of %zu: '%s' instead of '%s' (interval %d, %s)", body.size(), d, expect.size(), printable(body.substr(d, 80)).c_str(), printable(expect.substr(d, 80)).c_str(), interval, killed ? "killed" : "orderly");
      } else if (body.size() < mustLen)
         fail("file", "%s: the file has %zu bytes; %llu of %zu entries, %zu bytes, had to be in it (processed %llu, interval %d)", killed ? "after the kill" : "after the end", body.size(), (unsigned long long)(killed ? must : entries.size()), entries.size(), mustLen, (unsigned long long)finished, interval);
      c.stat["entries_checked"] += entries.size();
      c.stat["kills"] += killed;
      c.stat["interval_checks"] += ctr(2).load();
      c.stat["bytes_checked"] += body.size();
      c.distinct(mix(finished * 1000003 + entries.size()) ^ mix(interval * 4 + killed * 2 + direct) ^ body.size());
      c.sample(fmt("%d entries of %d, interval %d, %s, file %zu bytes", (int)finished, threads * perThread, interval, killed ? "killed" : "orderly", body.size()));
   }
};
VF_SCENARIO(P15, FileContent, 1)

// very many entries in one file, killed
struct LongFile : Scenario {
   u64 n, interval;
   bool viaChange;
   void prepare(Case& c) override {
      interval = c.rng.pick({1, 3, 100, 1000, 4096, 65535, 65536, 70000});
      n = c.rng.pick({257, 40000, 65535, 65536, 65537, 66000, 131072, 140001, 200000}) + c.rng.below(3);
      if (gThorough) n += c.rng.pick({0, 1000000, 4000000});
      viaChange = c.rng.chance(1, 3);
      c.timeout = 60;
   }
   void child(Case& c) override {
      perturb(0, 1);
      mkdir("logs", 0700);
      auto* f = new g3::FileSink("vf", c.dir + "/logs", "one", interval);
      f->overrideLogDetails(brief);
      for (u64 i = 0; i < n; ++i) {
         if (viaChange && i == n / 2) { f->changeLogFile(c.dir + "/logs/", "two"); }
         g3::LogMessage m("f.cpp", static_cast<int>(i), "f", INFO);
         m.write() = "entry";
         f->fileWrite(g3::LogMessageMover(std::move(m)));
      }
      kill(getpid(), SIGKILL);
      for (;;) pause();
   }
   void judge(Case& c, const Outcome& o) override {
      if (o.sig != SIGKILL) { fail("crash", "the case ended by %s: %s", o.status().c_str(), printable(o.err, 300).c_str()); return; }
      u64 next = 0;
      auto fs = listDir(c.dir + "/logs");
      std::sort(fs.begin(), fs.end());
      if (fs.size() != (viaChange ? 2u : 1u)) { fail("file", "%zu files", fs.size()); return; }
      for (auto& name : fs) {
         std::string s = readFile(c.dir + "/logs/" + name);
         size_t b = 0;
         while ((b = s.find("INFO|", b)) != s.npos) {
            size_t e = s.find('\n', b);
            if (e == s.npos) break;
            std::string want = fmt("INFO|%llu|entry", (unsigned long long)next);
            if (s.compare(b, e - b, want)) { fail("file", "entry %llu of %llu is '%s' (interval %llu)", (unsigned long long)next, (unsigned long long)n, printable(s.substr(b, e - b)).c_str(), (unsigned long long)interval); return; }
            ++next;
            b = e + 1;
         }
      }
      // without a change of file the counting is that of the whole run, with one it may restart there
      u64 must = viaChange ? (n > interval ? n - interval + 1 : 0) : n / interval * interval;
      if (next < must || next > n) fail("file", "after the kill the log holds %llu entries; %llu of %llu had to be in it (interval %llu, change %d)", (unsigned long long)next, (unsigned long long)must, (unsigned long long)n, (unsigned long long)interval, viaChange);
      c.stat["entries_checked"] += static_cast<double>(next);
      c.stat["kills"] += 1;
      c.distinct(mix(n * 64 + viaChange) ^ interval);
      c.sample(fmt("%llu entries, interval %llu, change %d, %llu in the file", (unsigned long long)n, (unsigned long long)interval, viaChange, (unsigned long long)next));
   }
};
VF_SCENARIO(P15, LongFile, 0)

void dropPrivileges(const std::string& dir) {
   if (geteuid() == 0) {
      if (chown(dir.c_str(), 65534, 65534) || setresgid(65534, 65534, 65534) || setresuid(65534, 65534, 65534)) _exit(97);
      prctl(PR_SET_DUMPABLE, 1);
   }
}

// P16, one thread drives the file sink itself: full knowledge of what is current
struct ChangeSequence : Scenario {
   u64 seed;
   int ops, interval;
   bool frozen;
   void prepare(Case& c) override {
      seed = c.rng.next();
      ops = c.rng.range(3, 60);
      interval = c.rng.pick({0, 1, 1, 2, 5, 100});
      frozen = c.rng.chance(2, 3);
   }
   void child(Case& c) override {
      Rng r(seed);
      std::string d = c.dir;
      mkdir("a", 0777);
      mkdir("b", 0777);
      mkdir("ro", 0555);
      chmod("a", 0777);
      chmod("b", 0777);
      int64_t now = 1700000000ll * 1000000000 + static_cast<int64_t>(r.below(1000000000));
      setenv("TZ", "UTC0", 1);
      tzset();
      auto nameNow = [&](const std::string& id) {
         time_t t = now / 1000000000;
         struct tm tm;
         gmtime_r(&t, &tm);
         char b[64];
         strftime(b, sizeof b, "%Y%m%d-%H%M%S", &tm);
         return "pre." + (id.empty() ? "" : id + ".") + b + ".log";
      };
      std::set<std::string> pre;
      auto precreate = [&](const std::string& p) {
         if (pre.count(p) || access(p.c_str(), F_OK) == 0) return;
         std::string text = "precious " + p + "\nolder content\n";
         int fd = open(p.c_str(), O_CREAT | O_WRONLY | O_EXCL | O_CLOEXEC, 0666);
         if (fd < 0) return;
         if (write(fd, text.data(), text.size()) < 0) _exit(97);
         close(fd);
         chmod(p.c_str(), 0666);
         pre.insert(p);
         ev(MARK, 1, 0, 0, 0, (p + "\n" + text).data(), p.size() + 1 + text.size());
      };
      dropPrivileges(d);
      if (chdir(d.c_str())) _exit(97);
      if (frozen) freezeClock(now);
      if (frozen && r.chance(1, 3)) precreate(d + "/a/" + nameNow("id0"));
      auto* f = new g3::FileSink("pre", d + "/a", "id0", interval);
      std::string cur = f->fileName();
      u64 n = 0;
      ev(MARK, 2, n, 0, 0, cur.data(), cur.size());
      bool moved = false;
      for (int i = 0; i < ops; ++i) {
         if (frozen && r.chance(1, 6)) { now += static_cast<int64_t>(r.below(1500)) * 1000000; freezeClock(now); }
         if (!moved && r.chance(1, 12)) {   // somebody rotates the log: the sink goes on with the file it has open
            std::string to = d + "/a/rotated." + std::to_string(i);
            if (rename(cur.c_str(), to.c_str()) == 0) {
               std::string t = cur + "\n" + to;
               pre.erase(cur);
               moved = true;
               ev(MARK, 4, n, 0, 0, t.data(), t.size());
            }
         }
         switch (r.below(8)) {
         case 0: case 1: {   // should succeed
            std::string id = r.pick({std::string("id0"), std::string("id1"), std::string(), std::string(" id 2. "), std::string("~:%s\\"), std::string("pre")});
            std::string dir = r.pick({d + "/a/", d + "/b/", d + "/b/"});
            if (frozen && r.chance(1, 3)) precreate(dir + nameNow(id));
            std::string p = f->changeLogFile(dir, id);
            struct stat st;
            if (p.empty()) { fail("change", "changing the log file to %s returned an empty name", dir.c_str()); break; }
            if (p.compare(0, dir.size(), dir) || stat(p.c_str(), &st)) fail("change", "changing to %s returned '%s', which %s", dir.c_str(), p.c_str(), stat(p.c_str(), &st) ? "does not exist" : "is elsewhere");
            if (frozen && p != dir + nameNow(id)) fail("change", "the new file is %s, expected %s", p.c_str(), (dir + nameNow(id)).c_str());
            if (f->fileName() != p) fail("change", "fileName() is '%s' after a change to '%s'", f->fileName().c_str(), p.c_str());
            cur = p;
            moved = false;
            ev(MARK, 2, n, 0, 0, p.data(), p.size());
            break;
         }
         case 2: {   // must fail
            std::string dir, id = "idx";
            int how = r.range(0, 4);
            rlimit old{}, tight{};
            getrlimit(RLIMIT_NOFILE, &old);
            if (how == 0) dir = d + "/missing/";
            else if (how == 1) dir = geteuid() ? d + "/ro/" : d + "/missing/";
            else if (how == 2) { dir = d + "/a/"; id = std::string(300, 'x'); }
            else if (how == 3 && frozen) { dir = d + "/b/"; id = "dir"; mkdir((dir + nameNow(id)).c_str(), 0700); }
            else {
               dir = d + "/b/";
               tight = old;
               tight.rlim_cur = 0;
               for (int fd = 0; fd < 1024; ++fd) if (fcntl(fd, F_GETFD) < 0) { tight.rlim_cur = fd; break; }
               id = "emfile" + std::to_string(i);
               setrlimit(RLIMIT_NOFILE, &tight);
            }
            std::string p = f->changeLogFile(dir, id);
            setrlimit(RLIMIT_NOFILE, &old);
            if (!p.empty()) fail("change", "changing the log file to %s (%s) returned '%s'", dir.c_str(), id.substr(0, 20).c_str(), p.c_str());
            if (f->fileName() != cur) fail("change", "fileName() is '%s' after a failed change, expected '%s'", f->fileName().c_str(), cur.c_str());
            ev(MARK, 3, n, 0, 0, cur.data(), cur.size());
            break;
         }
         default: {
            int k = r.range(1, 8);
            for (int j = 0; j < k; ++j) {
               g3::LogMessage m("x.cpp", 7, "fn", WARNING);
               m.write() = fmt("#%016llx#", (unsigned long long)n) + std::string(r.chance(1, 80) ? r.below(200000) : r.below(40), 'z') + (r.chance(1, 5) ? "\nsecond line" : "");
               std::string t = m.toString();
               ev(EXEC, 0, n, 0, 0, t.data(), t.size());
               f->fileWrite(g3::LogMessageMover(std::move(m)));
               ++n;
            }
         }
         }
      }
      delete f;
      ev(SHUTRET, 0);
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      std::vector<std::string> entries;
      std::vector<std::pair<u64, std::string>> files, failed;
      std::map<std::string, std::string> pre;
      u64 rotated = 0;
      std::string away;   // where the current file was moved
      for (u64 i = 0, n = eventCount(); i < n; ++i) {
         const Event& e = event(i);
         if (e.kind == EXEC) entries.push_back(textOf(e));
         else if (e.kind == MARK && e.actor == 1) { std::string t = textOf(e); auto p = t.find('\n'); pre[t.substr(0, p)] = t.substr(p + 1); }
         else if (e.kind == MARK && e.actor == 2) { files.push_back({e.a, textOf(e)}); away.clear(); }
         else if (e.kind == MARK && e.actor == 3) failed.push_back({e.a, away.empty() ? textOf(e) : away});
         else if (e.kind == MARK && e.actor == 4) {
            std::string t = textOf(e), from = t.substr(0, t.find('\n')), to = t.substr(t.find('\n') + 1);
            for (auto& f : files) if (f.second == from) f.second = to;
            for (auto& f : failed) if (f.second == from) f.second = to;
            if (pre.count(from)) { pre[to] = pre[from]; pre.erase(from); }
            away = to;
            ++rotated;
         }
      }
      std::map<std::string, std::string> content;
      for (auto& d : {c.dir + "/a/", c.dir + "/b/"})
         for (auto& n : listDir(d)) { struct stat st; if (stat((d + n).c_str(), &st) == 0 && S_ISREG(st.st_mode)) content[d + n] = readFile(d + n); }
      for (auto& f : files) if (!content.count(f.second)) fail("file", "log file %s is gone", f.second.c_str());
      for (auto& f : content) {
         bool known = pre.count(f.first);
         for (auto& k : files) known = known || k.second == f.first;
         if (!known && !f.second.empty()) fail("file", "unexpected file %s with '%s'", f.first.c_str(), printable(f.second).c_str());
      }
      for (auto& p : pre)
         if (content[p.first].compare(0, p.second.size(), p.second)) fail("destroyed", "what was in %s before is destroyed: '%s'", p.first.c_str(), printable(content[p.first], 200).c_str());
      // each entry once, in a file that was current when it was logged or later, in order within each file
      std::map<std::string, size_t> lastPos;
      std::map<std::string, u64> occ;
      for (size_t i = 0; i < entries.size(); ++i) {
         std::string where;
         size_t pos = 0, count = 0;
         for (auto& f : content) {
            size_t p = 0;
            while ((p = f.second.find(entries[i], p)) != f.second.npos) {
               ++count;
               where = f.first;
               pos = p;
               if (p && f.second[p - 1] != '\n') fail("damaged", "entry %zu does not start on a line of its own in %s: '%s'", i, f.first.c_str(), printable(f.second.substr(p > 60 ? p - 60 : 0, 120)).c_str());
               p += entries[i].size();
            }
         }
         if (count != 1) { fail(count ? "duplicate" : "loss", "entry %zu is in the log files %zu times (%zu entries, %zu files, interval %d)", i, count, entries.size(), content.size(), interval); if (!count) break; continue; }
         bool ok = false;
         for (size_t k = 0; k < files.size(); ++k) {
            const u64 until = k + 1 < files.size() ? files[k + 1].first : ~0ull;
            if (until > i && files[k].second == where) ok = true;
            if (until > i && interval == 1 && files[k].first <= i) { ok = files[k].second == where; break; }
         }
         if (!ok) fail("wrongfile", "entry %zu is in %s, which was not current when it was logged or later", i, where.c_str());
         auto l = lastPos.find(where);
         if (l != lastPos.end() && l->second > pos) fail("order", "entry %zu is before its predecessor in %s", i, where.c_str());
         lastPos[where] = pos;
         (void)occ;
      }
      // the notes about failed changes
      std::map<std::string, size_t> needNotes;
      for (auto& f : failed) ++needNotes[f.second];
      for (auto& f : needNotes) {
         size_t k = 0, p = 0;
         while ((p = content[f.first].find("Unable to change log file", p)) != std::string::npos) { ++k; ++p; }
         if (k < f.second) fail("note", "%zu changes failed while %s was current, but it holds %zu notes", f.second, f.first.c_str(), k);
      }
      c.stat["entries_checked"] += entries.size();
      c.stat["changes"] += files.size() - 1;
      c.stat["failed_changes"] += failed.size();
      c.stat["preexisting_files"] += pre.size();
      c.stat["rotations"] += static_cast<double>(rotated);
      u64 h = interval;
      for (auto& f : files) h = mix(h ^ f.first * 31 ^ hashStr(f.second.substr(f.second.rfind('/'))));
      c.distinct(h);
      c.sample(fmt("%zu entries, %zu changes, %zu failed, %zu files, interval %d, clock %s", entries.size(), files.size() - 1, failed.size(), content.size(), interval, frozen ? "virtual" : "real"));
   }
};
VF_SCENARIO(P16, ChangeSequence, 2)

// P16 with the real logger: concurrent loggers and a changer
struct ChangeConcurrent : Scenario {
   int threads, perThread, changes, pause;
   bool bad;
   MsgProfile prof;
   void prepare(Case& c) override {
      threads = c.rng.range(1, 5);
      perThread = c.rng.pick({20, 100, 400});
      changes = c.rng.chance(1, 12) && !kTsan && !kAsan ? c.rng.range(270, 600) : c.rng.range(1, 25);
      pause = changes > 100 ? 0 : c.rng.pick({0, 100, 1000});
      bad = c.rng.chance(1, 2);
      prof.seed = c.rng.next();
      prof.lenMode = c.rng.pick({0, 1});
      if (kTsan || kAsan) perThread = std::min(perThread, 60);
   }
   void child(Case& c) override {
      gProf = prof;
      mkdir("a", 0700);
      mkdir("b", 0700);
      Rng r(prof.seed);
      auto w = LogWorker::createLogWorker();
      auto h = w->addDefaultLogger("pre", c.dir + "/a", "i");
      g3::initializeLogging(w.get());
      std::thread ch([&] {
         for (int i = 0; i < changes; ++i) {
            bool fails = bad && r.chance(1, 3);
            std::string dir = fails ? c.dir + "/none/" : c.dir + r.pick({std::string("/a/"), std::string("/b/")});
            auto f = h->call(&g3::FileSink::changeLogFile, dir, fmt("c%d", (int)r.below(4)));
            if (r.chance(1, 2)) {
               std::string p = f.get();
               if (p.empty() != fails) fail("change", "a change to %s returned '%s'", dir.c_str(), p.c_str());
               std::string q = h->call(&g3::FileSink::fileName).get();
               if (!fails && p != q) fail("change", "fileName() is %s after a change to %s", q.c_str(), p.c_str());
               if (access(q.c_str(), F_OK)) fail("change", "the current file %s does not exist", q.c_str());
            }
            if (pause) sleepUs(r.range(1, pause));
         }
      });
      inThreads(threads, [&](int t) { for (int i = 0; i < perThread; ++i) logId(prof, mkId(t, i)); });
      ch.join();
      w.reset();
   }
   void judge(Case& c, const Outcome& o) override {
      if (!expectClean(c, o)) return;
      gProf = prof;
      Trace t;
      std::map<std::string, std::vector<std::pair<std::string, size_t>>> at;
      std::string all;
      u64 nf = 0, h = 0;
      for (auto& d : {c.dir + "/a/", c.dir + "/b/"})
         for (auto& n : listDir(d)) {
            ++nf;
            std::string s = readFile(d + n);
            size_t b = 0;
            while (b < s.size()) {
               size_t e = s.find('\n', b);
               if (e == s.npos) e = s.size();
               std::string l = s.substr(b, e - b);
               auto q = l.find("]\t#");
               if (q != l.npos) { at[l.substr(q + 2)].push_back({d + n, b}); h = mix(h ^ hashStr(n) ^ b); }
               b = e + 1;
            }
         }
      std::map<std::pair<std::string, u64>, std::pair<u64, size_t>> last;   // per file and thread: order
      u64 bad1 = 0;
      for (u64 id : t.ids) {
         auto& v = at[msgText(prof, id)];
         if (v.size() != 1 && !bad1++) fail(v.empty() ? "loss" : "duplicate", "message %s is in the log files %zu times", idStr(id).c_str(), v.size());
      }
      for (u64 id : t.ids) {
         auto& v = at[msgText(prof, id)];
         if (v.size() != 1) continue;
         auto& l = last[{v[0].first, id >> 32}];
         if (l.second > v[0].second && l.first < (id & 0xffffffff)) { fail("order", "message %s is before its predecessor in %s", idStr(id).c_str(), v[0].first.c_str()); break; }
         l = {id & 0xffffffff, v[0].second};
      }
      c.stat["entries_checked"] += t.ids.size();
      c.stat["concurrent_changes"] += changes;
      c.distinct(h);
      c.sample(fmt("%zu entries of %d threads, %d changes -> %llu files", t.ids.size(), threads, changes, (unsigned long long)nf));
   }
};
VF_SCENARIO(P16, ChangeConcurrent, 1)

// P17
struct Naming : Scenario {
   std::string prefix, dirArg, id, tz, want, clean, shown;   // clean: where the file is to be, shown: as it is reported
   int dirKind;      // 0 plain, 1 missing, 2 not writable, 3 empty, 4 a file, 5 nested, 6 the root, 7 relative
   int64_t now;
   bool viaLogger, refused;
   static std::string sanitize(const std::string& p) {
      std::string o;
      for (char ch : p) if (!strchr(" \t\n\v\f\r/\\.:", ch)) o += ch;
      return o;
   }
   void prepare(Case& c) override {
      Rng& r = c.rng;
      const std::string good = "abcXYZ019_-=~@&();`", strip = " \t\n\v\f\r/\\.:", evil = ",|<>#$%{}[]'\"^!?+*", high = "\xc3\xa9\xff\x80";
      int n = r.pick({0, 1, 2, 5, 12, 40, 100, 127, 128, 129, 150, 190});
      int style = r.range(0, 5);
      for (int i = 0; i < n; ++i) {
         if (style == 4 && r.chance(1, 12)) prefix += evil[r.below(evil.size())];
         else if (style >= 2 && r.chance(1, 4)) prefix += strip[r.below(strip.size())];
         else if (style == 5) prefix += strip[r.below(strip.size())];
         else if (style == 3 && r.chance(1, 6)) prefix += high[r.below(high.size())];
         else prefix += good[r.below(good.size())];
      }
      std::string s = sanitize(prefix);
      refused = s.empty() || s.find_first_of("/,|<>:#$%{}[]'\"^!?+* ") != s.npos;
      id = r.pick({std::string(), std::string("g3log"), std::string("my id"), std::string("a.b"), std::string("%d"), std::string("42")});
      if (r.chance(1, 3)) {
         id.clear();
         const std::string any = good + strip.substr(0, 6) + "\\.:" + evil + high;
         for (int i = r.range(1, 25); i > 0; --i) id += r.chance(1, 5) ? r.pick({' ', '.', '\t'}) : any[r.below(any.size())];
      }
      if (s.size() < 60 && r.chance(1, 6)) id = r.pick({s, s + "2", s.substr(0, 3)});
      tz = r.pick({std::string("UTC0"), std::string("XXX-5:30"), std::string("YYY8"), std::string("CET-1CEST,M3.5.0,M10.5.0/3"), std::string("ZZZ12:45")});
      now = (static_cast<int64_t>(r.below(4000000000ull)) * 1000000000) + static_cast<int64_t>(r.below(1000000000));
      dirKind = r.pick({0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 7});
      viaLogger = r.chance(1, 2);
      clean = c.dir + "/logs";
      if (dirKind == 5) clean += "/in ner/two";
      if (dirKind == 1) clean = c.dir + "/missing";
      if (dirKind == 2) clean = c.dir + "/ro";
      if (dirKind == 4) clean = c.dir + "/plainfile";
      if (dirKind == 6) clean = "/";   // not writable, too: the case runs as an unprivileged user
      dirArg = shown = clean;
      if (dirKind == 7) {
         shown = dirArg = r.pick({std::string("."), std::string(".."), std::string("../logs"), std::string("../logs/in ner"), std::string("./../logs/in ner/two"), std::string("../logs/./in ner/.."), std::string("../logs/.")});
         clean = dirArg == "." ? c.dir + "/cwd" : dirArg == ".." ? c.dir : dirArg == "../logs" || dirArg == "../logs/./in ner/.." || dirArg == "../logs/." ? c.dir + "/logs" : dirArg == "../logs/in ner" ? c.dir + "/logs/in ner" : c.dir + "/logs/in ner/two";
         if (r.chance(1, 3)) for (auto& ch : dirArg) if (ch == '/' && r.chance(1, 2)) ch = '\\';
      }
      if (r.chance(1, 3)) for (size_t i = c.dir.size(); i < dirArg.size(); ++i) if (dirArg[i] == '/' && r.chance(1, 2)) dirArg[i] = '\\';
      for (int i = r.pick({0, 0, 1, 1, 3}); i > 0; --i) dirArg += r.pick({'/', '\\', ' ', '/'});
      if (dirKind == 3) { dirArg = r.pick({std::string(), std::string(" "), std::string("  ")}); clean = shown = ""; }
      if (dirKind == 6) dirArg = r.pick({std::string("/"), std::string("\\"), std::string("//"), std::string("/ "), std::string("\\/ /")});
      setenv("TZ", tz.c_str(), 1);
      tzset();
      time_t t = now / 1000000000;
      struct tm tm;
      localtime_r(&t, &tm);
      char b[64];
      strftime(b, sizeof b, "%Y%m%d-%H%M%S", &tm);
      want = s + "." + (id.empty() ? "" : id + ".") + b + ".log";
      unsetenv("TZ");
      tzset();
   }
   void child(Case& c) override {
      mkdir("logs", 0777);
      mkdir("logs/in ner", 0777);
      mkdir("logs/in ner/two", 0777);
      mkdir("ro", 0555);
      mkdir("cwd", 0777);
      for (auto p : {"logs", "logs/in ner", "logs/in ner/two", "cwd"}) chmod(p, 0777);
      int fd = open("plainfile", O_CREAT | O_WRONLY | O_CLOEXEC, 0644);
      close(fd);
      dropPrivileges(c.dir);
      if (chdir((c.dir + "/cwd").c_str())) _exit(97);
      setenv("TZ", tz.c_str(), 1);
      tzset();
      freezeClock(now);
      std::string name;
      if (viaLogger) {
         auto w = LogWorker::createLogWorker();
         auto h = w->addDefaultLogger(prefix, dirArg, id);
         name = h->call(&g3::FileSink::fileName).get();
         g3::initializeLogging(w.get());
         ev(TEXT, 0, 0, 0, 0, name.data(), name.size());
         LOG(INFO) << "entry one";
      } else {
         g3::FileSink f(prefix, dirArg, id, 1);
         name = f.fileName();
         ev(TEXT, 0, 0, 0, 0, name.data(), name.size());
         g3::LogMessage m("x.cpp", 7, "fn", WARNING);
         m.write() = "entry one";
         f.fileWrite(g3::LogMessageMover(std::move(m)));
      }
      freezeClock(0);
   }
   void judge(Case& c, const Outcome& o) override {
      // everything that exists now
      std::map<std::string, std::string> found;
      for (auto& d : {c.dir, c.dir + "/logs", c.dir + "/logs/in ner", c.dir + "/logs/in ner/two", c.dir + "/ro", c.dir + "/cwd"})
         for (auto& n : listDir(d)) {
            struct stat st;
            std::string p = d + "/" + n;
            if (n != "plainfile" && stat(p.c_str(), &st) == 0 && S_ISREG(st.st_mode)) found[p] = readFile(p);
         }
      const std::string ctx = fmt("prefix '%s' directory '%s' id '%s'", printable(prefix, 120).c_str(), printable(dirArg.compare(0, c.dir.size(), c.dir) ? dirArg : dirArg.substr(c.dir.size())).c_str(), id.c_str());
      if (refused) {
         if (o.exited || o.sig != SIGABRT) fail("name", "%s: ended by %s, expected an abort", ctx.c_str(), o.status().c_str());
         if (!found.empty()) fail("name", "%s: refused, but the file '%s' exists", ctx.c_str(), printable(found.begin()->first).c_str());
      } else if (expectClean(c, o)) {
         std::string got;
         for (u64 i = 0; i < eventCount(); ++i) if (event(i).kind == TEXT) got = textOf(event(i));
         const bool fallback = dirKind == 1 || dirKind == 2 || dirKind == 4 || dirKind == 6;
         const std::string path = fallback || clean.empty() ? c.dir + "/cwd/" + want : clean + "/" + want;
         const std::string report = fallback ? "./" + want : shown.empty() ? want : shown + "/" + want;
         if (found.size() != 1 || found.begin()->first != path) fail("name", "%s: expected the file '%s', found %zu files, first '%s'", ctx.c_str(), printable(path).c_str(), found.size(), found.empty() ? "" : printable(found.begin()->first).c_str());
         else if (found.begin()->second.find("entry one\n") == std::string::npos) fail("name", "%s: the file lacks the entry", ctx.c_str());
         if (got != report) fail("name", "%s: fileName() is '%s', expected '%s'", ctx.c_str(), printable(got).c_str(), printable(report).c_str());
      }
      c.stat["refused"] += refused;
      c.stat["fallbacks"] += !refused && (dirKind == 1 || dirKind == 2 || dirKind == 4 || dirKind == 6);
      c.distinct(hashStr(prefix + (dirArg.compare(0, c.dir.size(), c.dir) ? dirArg : dirArg.substr(c.dir.size())) + id));
      c.sample(ctx + " -> " + o.status());
   }
};
VF_SCENARIO(P17, Naming, 1)
}  // namespace
