// Logging (C08-C10): every call is compared with what reached the simulated files, streams and system log.
#include "actors.h"
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <syslog.h>
#include <unistd.h>
extern "C" int sim_setvbuf(FILE *, char *, int, size_t);
namespace {
using namespace sim; using namespace act;
Str expand(const Str &pat, time_t t) { std::string b(70000, 0); struct tm tm = *sim_localtime(&t); size_t n = strftime(&b[0], b.size(), pat.c_str(), &tm); return b.substr(0, n); }
Str clean(const Str &p0) { Str p; for (char c : p0) { if (c == '/' && !p.empty() && p.back() == '/') continue; p += c; } while (p.compare(0, 2, "./") == 0) p = p.substr(2); return p; }
Str stamp(time_t t) { struct tm tm = *sim_localtime(&t); char b[40]; strftime(b, sizeof b, "%a %b %e %H:%M:%S %Y", &tm); return b; }
void va_err(const char *r, const char *f, ...) { va_list ap; va_start(ap, f); log_error_va(r, f, ap); va_end(ap); }
void va_inf(const char *f, ...) { va_list ap; va_start(ap, f); log_info_va(f, ap); va_end(ap); }
const char *facs[] = {"user", "daemon", "local0", "mail", "local7", "auth"}; const int facv[] = {LOG_USER, LOG_DAEMON, LOG_LOCAL0, LOG_MAIL, LOG_LOCAL7, LOG_AUTH};
struct Span { size_t fw, sy, inj, op; size_t w; int64_t t0; };
Span begin() { return {K->fwrites.size(), K->syslog.size(), K->injected.size(), K->opens.size(), K->walls.size() - 1, K->wall}; }
std::vector<time_t> times(const Span &s) {
  std::vector<time_t> v;
  for (size_t i = s.w; i < K->walls.size(); i++) { int64_t lo = i == s.w ? s.t0 : K->walls[i].lo, hi = K->walls[i].hi; auto fl = [](int64_t x) { return (time_t)(x >= 0 ? x / 1000000 : -((-x + 999999) / 1000000)); }; for (time_t t = fl(lo); t <= fl(hi) && v.size() < 4000; t++) v.push_back(t); }
  return v;
}
struct World; World *world;
// what one process believes about its log
struct L {
  bool fopen_ = false, fbad = false; Str pat, fident; Str fname; // fname: where the last message went, or the name that was opened
  int sk = 0; bool sapp = false; FILE *sfp = nullptr; int sfd = -1; Str spath; Str pend1, pends; // sk 0 closed 1 stdout 2 stderr 3 file
  bool y = false; const char *yid = ""; int yfac = LOG_USER; int fac = LOG_USER;
  Str ident; bool full = true; int serial = 0; bool child = false; bool untracked = false;
  std::vector<Str> others; // lines written by the file's other writers while a call was running
};
struct World : Scenario {
  uint32_t nops = 0; int focus = 0; Str host; std::map<Str, Str> want; size_t applied = 0; std::map<int, L *> Ls; std::vector<std::unique_ptr<L>> own; int streams = 0; bool others = false; uint32_t nother = 0; bool fail_ok = false; bool handler_ran = false; std::set<int> kids; bool done = false, too_long = false; int mainpid = 0;
  L &me() { return *Ls[K->cur->pid]; }
  void configure() override {
    world = this; focus = draw(3);
    static const uint32_t ei[] = {0, 0, 15, 60}; cfg.p_eintr = ei[draw(4)]; static const uint32_t sp[] = {0, 0, 20, 80}; cfg.p_short = sp[draw(4)];
    static const uint32_t pre[] = {0, 10, 40}; cfg.p_preempt = pre[draw(3)]; cfg.max_burst = 1 + draw(8);
    static const uint32_t pc[] = {0, 10, 60}; cfg.p_clock = pc[draw(3)]; static const uint32_t cm[] = {1, 1000, 900000, 3000000}; cfg.clock_max = cm[draw(4)];
    static const uint32_t pj[] = {0, 0, 5, 25}; cfg.p_jump = focus == 1 ? pj[1 + draw(3)] : pj[draw(4)]; cfg.jumps = {1, 60, 3600, -1, -60, -3600, 86400, -86400, 31536000, 5};
    static const int tz[] = {0, 3600, -18000, 19800, 45900}; cfg.tz = tz[draw(5)];
    cfg.fill = draw(5); cfg.reuse = draw(3); cfg.tty_out = draw(2); cfg.stdio_buf = draw(2) ? 4096 : 64; cfg.realloc_mode = draw(3);
    static const int64_t w[] = {1000000000123456ll, 1709251199500000ll /* before a leap day ends */, 978307199900000ll /* before a new year */, 1000000799950000ll, 86399000000ll}; K->wall = w[draw(5)];
    if (draw(4) == 0) { cfg.dst_at = K->wall / 1000000 + draw(100); cfg.dst_off = draw(2) ? 3600 : -3600; }
    static const char *hosts[] = {"simhost.example.org", "short", "a.b", "host-with-a-rather-long-name-0123456789-0123456789.domain.org"}; host = hosts[draw(4)]; K->hostname = host; host = host.substr(0, host.find('.'));
    nops = 2 + draw(30); others = draw(3) == 0; K->track_writes = true; K->mark_wall();
    if (others) K->on_syscall = [this](const char *) { other_writer(); };
    probe(focus == 0 ? "focus-messages" : focus == 1 ? "focus-rotation" : "focus-lifecycle");
  }
  // another process that has the same file open for appending
  void other_writer() {
    if (draw(6)) return;
    std::vector<Str> c; for (auto &x : K->fs) if (x.second->kind == K_REG && x.first.compare(0, 11, "/log/stream")) c.push_back(x.first);
    if (c.empty()) return;
    Str p = c[draw(c.size())], s = fmt("other %u%s\n", nother++, Str(draw(40), '.').c_str()); auto &d = K->fs[p]->data;
    K->fwrites.push_back({K->step, 0, K->fs[p]->id, p, d.size(), d.size(), s, false}); d += s; TR("another process appends to %s", p.c_str()); probe("other-writer");
  }
  // ---- the whole file tree: only appended to, by known writers
  void files() {
    for (; applied < K->fwrites.size(); applied++) {
      auto &w = K->fwrites[applied]; if (w.ino == 0) continue;
      CHECK("C08,C09", "log-overwrite", w.off == w.before, "a write to %s at offset %zu of a file of %zu bytes", w.path.c_str(), w.off, w.before);
      want[w.path] += w.data;
    }
    for (auto &x : want) CHECK("C08,C09", "log-truncated", readfile(x.first) == x.second, "%s holds %zu bytes instead of %zu: %s", x.first.c_str(), readfile(x.first).size(), x.second.size(), quote(readfile(x.first), 120).c_str());
    for (auto &x : K->fs) if (x.second->kind == K_REG && !want.count(x.first)) { CHECK("C09", "log-truncated", x.second->data.empty(), "%s appeared with content", x.first.c_str()); want[x.first] = ""; }
  }
  int logfds(Str *path = nullptr, int *flags = nullptr) { int n = 0; for (auto &f : K->cur->fds) if (f.second.o->by_lib && f.second.o->kind == K_REG) { n++; if (path) *path = f.second.o->path; if (flags) *flags = f.second.o->flags; } return n; }
  void descriptors(const char *when) {
    L &l = me(); Str path; int fl = 0; int n = logfds(&path, &fl); bool want1 = l.fopen_ && !l.fbad;
    CHECK("C09,C10", "log-descriptors", n <= 1, "%s: %d log files are open", when, n);
    CHECK("C09,C10", "log-descriptors", l.fbad || (n == 1) == want1, "%s: the log file is %s but %d descriptors of log files are open", when, want1 ? "open" : "closed", n);
    if (n == 1 && !l.fbad) { CHECK("C09", "log-wrong-file", clean(path) == l.fname, "%s: the open file is %s instead of %s", when, path.c_str(), l.fname.c_str()); CHECK("C08,C09", "log-append-mode", fl & O_APPEND, "%s: the log file is not open in append mode", when); }
    if (l.sk == 3) CHECK("C10", "log-stream-closed", K->cur->fds.count(l.sfd), "%s: the log stream is closed", when);
    for (int k = 0; k < 3; k++) if (!(gone_std & 1 << k)) CHECK("C10", "log-std-closed", K->cur->fds.count(k), "%s: standard descriptor %d is closed", when, k);
    for (auto &c : K->closes) CHECK("C10", "log-closed-twice", c.err == 0, "%s: descriptor %d was closed although it was not open", when, c.fd);
    K->closes.clear();
  }
  int gone_std = 0;
  bool failed_on(const Span &s, const Str &path) { for (size_t i = s.inj; i < K->injected.size(); i++) { auto &x = K->injected[i]; if (x.pid != K->cur->pid || Str(x.call) != "write") continue; auto f = K->cur->fds.find(x.fd); if (f == K->cur->fds.end() || !f->second.o->ino ? path[0] == '<' : f->second.o->ino->path == path) return true; if (f == K->cur->fds.end()) return true; } return false; }
  static bool prefix(const Str &a, const Str &of) { return of.compare(0, a.size(), a) == 0; }
  // a message that is refused may leave a prefix; text pending before it may be lost with it
  static bool damaged(const Str &got, const Str &pend, const std::vector<Str> &lines) { for (auto &x : lines) { for (size_t i = 0; i <= pend.size() && i <= got.size(); i++) { if (got.compare(0, i, pend, 0, i)) break; Str rest = got.substr(i); if (prefix(rest, x)) return true; } } return false; }
  // ---- one message
  Str text() {
    static const size_t sz[] = {0, 1, 10, 60, 300, 2000, 4000, 4095}; size_t n = draw(4) ? draw(80) : sz[draw(8)]; Str s = fmt("m%d:", me().serial++); while (s.size() < n) s += (char)(draw(30) ? 'a' + draw(26) : 1 + draw(255)); if (n < 4) s.resize(n); return s;
  }
  void say(const char *props) {
    Str m = text(), r; bool err = draw(2), rtn = err; int form = draw(5); if (rtn) r = draw(4) ? "rtn" : Str(draw(200), 'r');
    if (draw(12) == 0) m += Str(draw(6000), '+'); // longer than the library's buffer
    Span s = begin(); sample_op(err ? "log-error" : "log-info");
    { Buf b(m, true), rb(r, true);
      switch (form) {
        case 0: if (err) log_error(rtn ? rb.p : nullptr, "%s", b.p); else log_info("%s", b.p); break;
        case 1: if (err) va_err(rtn ? rb.p : nullptr, "%s", b.p); else va_inf("%s", b.p); break;
        case 2: if (err) log_error(rtn ? rb.p : nullptr, "%d %s%%", 42, b.p); else log_info("%d %s%%", 42, b.p); m = "42 " + m + "%"; break;
        case 3: { Str f; for (char c : m) { f += c; if (c == '%') f += '%'; } Buf fb(f, true); if (err) log_error(rtn ? rb.p : nullptr, fb.p, 1); else log_info(fb.p, 1); break; }
        default: if (err) va_err(rtn ? rb.p : nullptr, "%s %5.1f %c", b.p, 2.5, 'x'); else va_inf("%s %5.1f %c", b.p, 2.5, 'x'); m += "   2.5 x";
      } }
    judge(props, s, m, rtn, r, err);
  }
  void judge(const char *props, const Span &s, const Str &m, bool rtn, const Str &r, bool err) {
    L &l = me(); int pid = K->cur->pid; std::map<Str, Str> mine;
    for (size_t i = s.fw; i < K->fwrites.size(); i++) { auto &w = K->fwrites[i]; if (w.pid == pid) mine[w.path] += w.data; }
    files();
    auto ts = times(s); std::vector<Str> lines; // what the line may look like
    bool any = l.fopen_ || l.sk;
    std::vector<Str> bodies{m}; if (m.size() > 4095) { bodies[0] = m.substr(0, 4095); bodies.push_back(m); }
    if (any) for (auto &b : bodies) { Str tail = (rtn ? "(" + r + ") " : Str()) + b + "\n"; if (!l.full) lines.push_back(tail); else for (time_t t : ts) lines.push_back(stamp(t).substr(0, 24) + " " + host + " " + l.ident + fmt("[%ld]: ", (long)pid) + tail); }
    auto is_line = [&](const Str &g) { return std::find(lines.begin(), lines.end(), g) != lines.end(); };
    if (l.fopen_) {
      std::set<Str> names; for (time_t t : ts) names.insert(clean(expand(l.pat, t)));
      int n = 0; Str at; for (auto &x : mine) if (names.count(x.first)) { n++; at = x.first; }
      if (!l.fbad) {
        CHECK("C08,C09", "log-two-files", n <= 1, "one message was written to %d files", n);
        Str path; if (logfds(&path) == 1) l.fname = clean(path);
        CHECK("C09", "log-name", names.count(l.fname), "the message went to %s; the pattern %s means %s%s", l.fname.c_str(), quote(l.pat).c_str(), names.begin()->c_str(), names.size() > 1 ? " or a later name" : "");
        Str g = n ? mine[at] : "";
        if (failed_on(s, n ? at : l.fname)) { CHECK(props, "log-file-garbage", damaged(g, "", lines), "the log file received %s for the refused message %s", quote(g).c_str(), quote(m).c_str()); probe("file-write-refused"); }
        else CHECK(props, "log-file-message", is_line(g), "the log file received %s; the message is %s", quote(g, 160).c_str(), quote(lines[0], 160).c_str());
      }
      for (auto &x : names) mine.erase(x);
      if (!at.empty()) l.fname = at;
    }
    if (l.sk == 3) {
      Str g = mine[l.spath]; mine.erase(l.spath); bool ok = false; for (auto &x : lines) if (g == l.pends + x) ok = true;
      if (failed_on(s, l.spath)) { CHECK(props, "log-stream-garbage", damaged(g, l.pends, lines), "the log stream received %s for the refused message %s", quote(g).c_str(), quote(m).c_str()); probe("stream-write-refused"); }
      else CHECK(props, "log-stream-message", ok, "the log stream received %s; the message is %s", quote(g, 160).c_str(), quote(l.pends + lines[0], 160).c_str());
      l.pends.clear();
    } else if (l.sk) {
      Str key = fmt("<%d>", l.sk), g = mine[key]; mine.erase(key);
      Str p = l.sk == 1 ? l.pend1 : ""; bool ok = false; for (auto &b : bodies) if (g == p + b || g == p + b + "\n") ok = true;
      std::vector<Str> fl; for (auto &b : bodies) { fl.push_back(b); fl.push_back(b + "\n"); }
      if (failed_on(s, key)) CHECK(props, "log-stream-garbage", damaged(g, p, fl), "standard stream %d received %s for the refused message %s", l.sk, quote(g).c_str(), quote(m).c_str());
      else if (!(gone_std & 1 << l.sk)) CHECK(props, "log-stream-message", ok, "standard stream %d received %s; the message is %s", l.sk, quote(g, 160).c_str(), quote(p + m, 160).c_str());
      if (l.sk == 1) l.pend1.clear();
    }
    for (auto &x : mine) CHECK("C10", "log-closed-destination", x.second.empty(), "%s, which is not a destination, received %s", x.first.c_str(), quote(x.second).c_str());
    size_t ny = 0; for (size_t i = s.sy; i < K->syslog.size(); i++) { auto &x = K->syslog[i]; if (x.pid != pid) continue; ny++;
      CHECK("C08,C10", "log-syslog-closed", l.y, "the system log, which is not open, received %s", quote(x.msg).c_str());
      Str mm = m; if (!mm.empty() && mm.back() == '\n') mm.pop_back();
      CHECK(props, "log-syslog-message", x.msg == mm, "the system log received %s instead of %s", quote(x.msg).c_str(), quote(m).c_str());
      CHECK("C08,C10", "log-syslog-priority", (x.prio & LOG_PRIMASK) == (err ? LOG_ERR : LOG_INFO), "priority %d for %s", x.prio, err ? "an error" : "information");
      if (!l.child) { CHECK("C10", "log-syslog-open", x.open && x.ident == l.yid && ((x.prio & LOG_FACMASK) ? x.prio & LOG_FACMASK : x.fac) == l.yfac, "the system log was %s with identity %s and facility %d instead of %s, %d", x.open ? "open" : "not open", quote(x.ident).c_str(), x.fac, l.yid, l.yfac); CHECK("C10", "log-syslog-options", x.opt & LOG_PID, "the system log was opened without process numbers"); } }
    CHECK(props, "log-syslog-message", ny == (size_t)l.y, "the system log received %zu messages", ny);
    descriptors("after a message"); sample_op("log-judged");
  }
  // ---- opening and closing
  Str ident() { static const char *id[] = {"prog", "", "a", "other-program", "an identity with spaces and a certain length 0123456789012345678901234567890123456789"}; return id[draw(5)]; }
  Str pattern() {
    static const char *p[] = {"/log/plain", "/log/%Y/%m/%d/%H", "/log/x%M%S", "rel-%H.log", "/log/%%odd%j", "/log/a//b/%H/%M/file", "/log/%Y%m%d.log", "./here-%S", "/log/deep/1/2/3/4/5/6/plain", "/log/pre/existing-%d", "/log/%c",
      "r/%H.log", "x/y/%M%S", "./%H/f", "/%S", "/z/%M", "./q/%S", "%H/%M/%S"};
    if (draw(20) == 0) { Str s = "/log/"; for (uint32_t i = 1 + draw(draw(4) ? 90 : 300); i > 0; i--) s += "%c/"; return s + "x"; } // much longer when expanded
    if (draw(14) == 0) { // what changes comes late
      Str s = "/log"; size_t n = 100 + draw(draw(3) ? 250 : 1500); while (s.size() < n) { s += "/"; s += Str(20 + draw(180), 'n'); } s += draw(2) ? "-%M%S" : "/%H/%M.log"; probe("log-name-long-constant"); return s;
    }
    if (draw(60) == 0) { // as long as a name can be, or a little longer
      Str t = draw(2) ? "-%M%S" : "/%H/%M.log"; size_t n = 4085 + draw(16), tl = expand(t, K->wall / 1000000).size(); Str s = "/log"; while (s.size() + tl < n) { size_t left = n - tl - s.size(); if (left == 1) { s += "n"; break; } s += "/" + Str(std::min<size_t>(left - 1, 200), 'n'); } probe("log-name-longest"); return s + t;
    }
    if (focus == 1 && draw(2)) return draw(2) ? "/log/x%M%S" : "/log/%H/%M/%S";
    return p[draw(18)];
  }
  void open_file() {
    L &l = me(); Str id = ident(), pat = pattern();
    if (draw(3) == 0) { Str e = clean(expand(pat, K->wall / 1000000)); size_t sl = e.rfind('/'); if (sl != Str::npos && sl) K->mkdirs(e.substr(0, sl)); if (!hasfile(e) && (!K->fs.count(e))) { Str old = Str(draw(50), 'o') + "ld\n"; K->mkfile(e, old); want[e] = old; probe("log-file-existed"); } }
    TR("open log file %s as %s", quote(pat).c_str(), quote(id).c_str()); Span s = begin(); if (expand(pat, K->wall / 1000000).size() > 4000) too_long = true; l.fopen_ = true; l.fbad = false; l.pat = pat; l.ident = id; sample_op("log-file-open");
    { Buf ib(id, true), pb(pat, true); log_file(ib.p, pb.p); }
    std::set<Str> names; for (time_t t : times(s)) names.insert(clean(expand(pat, t)));
    Str path; int n = logfds(&path); CHECK("C09,C10", "log-not-open", n == 1, "after opening %s, %d log files are open", quote(pat).c_str(), n);
    if (n == 1) { l.fname = clean(path); CHECK("C09", "log-name", names.count(l.fname), "%s was opened for the pattern %s, which means %s", l.fname.c_str(), quote(pat).c_str(), names.begin()->c_str()); }
    for (size_t i = s.fw; i < K->fwrites.size(); i++) if (K->fwrites[i].pid == K->cur->pid) CHECK("C10", "log-open-writes", false, "opening the log file wrote %s", quote(K->fwrites[i].data).c_str());
    files(); descriptors("after opening the log file");
  }
  void close_file() { L &l = me(); TR("close log file"); int how = draw(3); { if (how == 0) log_file(nullptr, nullptr); else if (how == 1) log_file("x", nullptr); else log_file(nullptr, "/log/none"); } l.fopen_ = l.fbad = false; sample_op("log-file-close"); files(); descriptors("after closing the log file"); }
  void open_stream() {
    L &l = me(); Str id = ident(); static const int k[] = {1, 2, 3, 3}; l.sk = k[draw(4)]; l.pends.clear();
    if ((l.sk == 1 || l.sk == 2) && (gone_std & 1 << l.sk)) l.sk = 3;
    if (l.sk == 3) {
      AppScope a; K->mkdirs("/log"); l.spath = fmt("/log/stream%d", streams++); static const char *md[] = {"w", "a", "r+", "a+"}; const char *m = md[draw(4)];
      if (draw(2) || m[0] == 'r') { Str old = draw(2) ? "old content\n" : ""; K->mkfile(l.spath, old); want[l.spath] = old; }
      l.sfp = sim_fopen(l.spath.c_str(), m); if (!l.sfp) { l.sk = 0; return; } if (m[0] == 'w') want[l.spath] = ""; l.sfd = sim_fileno(l.sfp); K->cur->fds[l.sfd].o->by_lib = false;
      l.sapp = m[0] == 'a';
      if (m[0] != 'r' && draw(3) == 0) { l.pends = "pending in the stream "; sim_fprintf(l.sfp, "%s", l.pends.c_str()); if (l.pends.size() >= cfg.stdio_buf) l.pends.clear(); }
    } else l.sfp = l.sk == 1 ? sim_stdout : sim_stderr;
    TR("open log stream kind %d as %s", l.sk, quote(id).c_str()); l.ident = id; Span s = begin(); sample_op("log-stream-open");
    { Buf ib(id, true); log_stream(ib.p, l.sfp); }
    for (size_t i = s.fw; i < K->fwrites.size(); i++) if (K->fwrites[i].pid == K->cur->pid && K->fwrites[i].path == l.spath) l.pends.clear();
    files(); descriptors("after opening the log stream");
  }
  void close_stream() {
    L &l = me(); TR("close log stream"); int fd = l.sfd, k = l.sk; Ofd o; if (k == 3) o = K->cur->fds[fd].o; int how = draw(3);
    if (how == 0) log_stream(nullptr, nullptr); else if (how == 1) log_stream("x", nullptr); else log_stream(nullptr, l.sfp);
    l.sk = 0; l.sfd = -1; sample_op("log-stream-close");
    if (k == 3) { auto f = K->cur->fds.find(fd); CHECK("C10", "log-stream-left-open", f == K->cur->fds.end() || f->second.o != o, "the stream handed to log_stream is still open after closing the destination"); }
    files(); descriptors("after closing the log stream");
  }
  void toggle_sys() {
    L &l = me(); if (l.child) return; static const char *ids[] = {"sysident", "other", ""};
    if (!l.y) { l.yid = ids[draw(3)]; l.yfac = l.fac; int o0 = K->openlogs; log_syslog(l.yid); l.y = true; CHECK("C10", "log-openlog", K->openlogs == o0 + 1, "the system log was opened %d times", K->openlogs - o0); CHECK("C10", "log-syslog-open", K->syslog_ident == l.yid && K->syslog_fac == l.fac, "the system log was opened as %s with facility %d", quote(K->syslog_ident).c_str(), K->syslog_fac); }
    else { int c0 = K->closelogs; log_syslog(nullptr); l.y = false; CHECK("C10", "log-closelog", K->closelogs == c0 + 1, "closelog was called %d times", K->closelogs - c0); }
    descriptors("after changing the system log"); sample_op("log-syslog");
  }
  // an error that the documentation says ends the program; its message goes to the log like any other
  void noisy(const std::function<void()> &fn) {
    L &l = me(); Span s = begin(); bool died = dies(fn, 3); CHECK("C10", "log-double-open", died, "opening a destination that is open already was accepted");
    std::set<Str> ok; for (time_t t : times(s)) if (l.fopen_) ok.insert(clean(expand(l.pat, t))); if (l.sk == 3) ok.insert(l.spath); ok.insert("<2>"); ok.insert("<1>");
    for (size_t i = s.fw; i < K->fwrites.size(); i++) if (K->fwrites[i].pid == K->cur->pid) CHECK("C10", "log-closed-destination", ok.count(K->fwrites[i].path), "%s, which is not a destination, received %s", K->fwrites[i].path.c_str(), quote(K->fwrites[i].data).c_str());
    Str path; if (logfds(&path) == 1) l.fname = clean(path); else for (size_t i = s.op; i < K->opens.size(); i++) if (K->opens[i].err) l.fbad = true; // its report met a rotation that failed
    l.pend1.clear(); l.pends.clear(); files(); descriptors("after a refused opening"); sample_op("log-double-open");
  }
  void fork_logger() {
    L &l = me(); if (l.child || kids.size() >= 3 || l.pend1.size()) return;
    if (l.sk == 3 && (l.pends.size() || !l.sapp)) return;
    sample_op("fork"); own.emplace_back(new L(l)); L *cl = own.back().get(); cl->child = true; int pid; { AppScope a; pid = sim_fork(); }
    if (pid == 0) {
      Ls[K->cur->pid] = cl; uint32_t n = 1 + draw(4); for (uint32_t i = 0; i < n; i++) say("C08");
      if (!cl->y && draw(3) == 0) { log_close(); cl->fopen_ = false; cl->sk = 0; }
      AppScope a; sim__exit(0);
    }
    if (pid < 0) { own.pop_back(); return; }
    kids.insert(pid);
  }
  void faults() {
    switch (draw(8)) {
      case 0: K->disk_free = draw(3) ? draw(200) : 0; TR("%lld bytes left on the disk", (long long)K->disk_free); fault("disk-nearly-full"); break;
      case 1: case 2: K->disk_free = -1; K->eio_burst = 0; TR("disk healthy"); break;
      case 3: K->eio_burst = 1 + draw(3); TR("next %d writes fail", K->eio_burst); break;
      case 4: { Plan p; p.call = "write"; p.nth = 1 + draw(3); static const int e[] = {EIO, ENOSPC, EDQUOT, EFBIG, EBADF}; p.err = e[draw(5)]; K->plans.push_back(p); break; }
      case 5: if (me().fopen_ && draw(3) == 0) { Str e = clean(expand(me().pat, K->wall / 1000000 + (draw(2) ? 3600 : 60))); static const int er[] = {EACCES, EMFILE, ENOSPC, EISDIR}; if (hasfile(e) || !K->fs.count(e)) K->deny_err[e] = er[draw(4)]; TR("opening %s will fail", e.c_str()); } break;
      default: K->jump(pick(cfg.jumps) * 1000000ll);
    }
  }
  void op() {
    L &l = me();
    switch (draw(focus == 2 ? 16 : 24)) {
      case 0: case 1: if (!l.fopen_) open_file(); else if (draw(2)) close_file(); break;
      case 2: case 3: if (!l.sk) open_stream(); else if (draw(2)) close_stream(); break;
      case 4: toggle_sys(); break;
      case 5: { l.full = draw(2); log_option(l.full ? (draw(2) ? LOG_OPTION_FULL : 17) : LOG_OPTION_NO_FULL); if (l.full && draw(2)) log_option(LOG_OPTION_FULL); break; }
      case 6: { int i = draw(6); log_set_facility(facs[i]); l.fac = facv[i]; const char *g = log_get_facility(); CHECK("C10", "log-facility", g && (!strcmp(g, facs[i]) || facv[i] == LOG_AUTH), "the facility is %s instead of %s", g ? g : "null", facs[i]); break; }
      case 7: if (draw(3) == 0) { TR("close all"); Ofd so; int sfd = l.sfd; if (l.sk == 3) so = K->cur->fds[l.sfd].o; log_close(); if (l.y) l.y = false; l.fopen_ = l.fbad = false; int k = l.sk; l.sk = 0; if (k == 3) { auto f = K->cur->fds.find(sfd); CHECK("C10", "log-stream-left-open", f == K->cur->fds.end() || f->second.o != so, "the stream is still open after log_close"); } files(); descriptors("after log_close"); CHECK("C10", "log-closelog", !K->syslog_open, "the system log is open after log_close"); sample_op("log-close"); } break;
      case 8: if (draw(2)) { // closing what is closed
          if (!l.fopen_) log_file(nullptr, nullptr); if (!l.sk) log_stream(nullptr, nullptr); if (!l.y) { int c = K->closelogs; log_syslog(nullptr); CHECK("C10", "log-closelog", K->closelogs == c, "closing the system log twice calls closelog again"); } descriptors("after closing twice"); sample_op("log-close-twice");
        } else { // opening what is open
          if (l.fopen_ && !l.fbad && draw(2)) noisy([] { log_file("again", "/log/again"); });
          else if (l.sk && draw(2)) noisy([] { log_stream("again", sim_stderr); });
          else if (l.y && draw(2)) noisy([] { log_syslog("again"); });
          else if (draw(4) == 0) { noisy([] { log_set_facility("nonsense"); }); }
        } break;
      case 9: faults(); break;
      case 10: { AppScope a; if (!(gone_std & 2)) { Str p = fmt("out%d ", (int)draw(100)); if (l.pend1.size() + p.size() < cfg.stdio_buf && !cfg.tty_out) { sim_printf("%s", p.c_str()); l.pend1 += p; } } break; }
      case 11: fork_logger(); break;
      case 12: if (draw(3) == 0) { TR("string pool destroyed"); str_find("something"); str_destroy(); if (draw(2)) str_find("else"); } else if (draw(4) == 0) { TR("library shut down"); Span s = begin(); maa_shutdown(); for (size_t i = s.fw; i < K->fwrites.size(); i++) if (K->fwrites[i].path == "<1>" && K->fwrites[i].pid == K->cur->pid) l.pend1.clear(); sample_op("shutdown"); } descriptors("after other facilities were destroyed"); break;
      case 13: if (K->wall >= 0) { K->jump(pick(cfg.jumps) * 1000000ll + draw(1000000)); } break;
      default: say(focus == 0 ? "C08" : focus == 1 ? "C08,C09" : "C08,C10");
    }
  }
  // the program is ending because a log file could not be opened: everything else still works
  static void at() { world->last_words(); }
  void last_words() {
    L &l = me(); handler_ran = true; if (done || l.child) return; TR("exit handler");
    K->deny_err.clear(); K->plans.clear(); K->disk_free = -1; K->eio_burst = 0; cfg.p_jump = 0; auto os = K->on_syscall; K->on_syscall = nullptr;
    { int d = P->app.app_depth; P->app.app_depth = 0; l.pend1.clear(); l.pends.clear(); files(); l.fbad = l.fopen_; size_t k = K->closes.size(); (void)k;
      say("C10"); log_file(nullptr, nullptr); l.fopen_ = l.fbad = false; if (draw(2)) K->jump(61 * 1000000ll); say("C10"); open_file(); say("C10"); if (l.sk) close_stream(); say("C10"); log_close(); l.fopen_ = false; l.sk = 0; l.y = false; say("C10");
      P->app.app_depth = d; }
    K->on_syscall = os; probe("logging-after-failure");
  }
  void main() override {
    init_tables(); own.emplace_back(new L); mainpid = K->cur->pid; Ls[mainpid] = own.back().get(); K->mkdirs("/log"); bool init = draw(2); if (init) maa_init("logger");
    { AppScope a; sim_atexit(at); if (draw(5) == 0) { gone_std = 1; sim_close(0); } if (draw(4) == 0) { static const size_t c[] = {64, 4096, 20000}; sim_setvbuf(sim_stderr, nullptr, draw(3) ? _IOFBF : _IOLBF, c[draw(3)]); probe("buffered-stderr"); } }
    L &l = me(); if (focus != 2) { if (draw(4)) open_file(); if (draw(3) == 0) open_stream(); }
    for (uint32_t i = 0; i < nops; i++) op();
    { AppScope a; for (size_t i = 0; i < kids.size(); i++) { int st = 0; sim_wait(&st); if (st) fail_ok = true; } }
    K->deny_err.clear(); K->plans.clear(); K->disk_free = -1; K->eio_burst = 0;
    if (draw(2)) say("C08,C10");
    if (draw(2)) { log_close(); l.fopen_ = false; l.sk = 0; l.y = false; say("C10"); descriptors("at the end"); }
    done = true; maa_shutdown();
  }
  void after() override {
    bool open_failed = too_long; for (auto &x : K->injected) if (Str(x.call) == "open" && x.pid == mainpid) {
      bool why = !x.natural; // what the file system holds is no reason, unless a file is where a directory has to be, or the other way round
      if (x.natural && x.err == EISDIR) why = true;
      if (x.natural && x.err == ENOENT) for (size_t i = x.path.find('/', 1); i != Str::npos; i = x.path.find('/', i + 1)) if (hasfile(x.path.substr(0, i)) || K->mkdir_refused.count(x.path.substr(0, i))) why = true;
      if (why) open_failed = true;
    }
    if (R.out == O_EXIT && R.code == 1 && open_failed && !done) { if (!handler_ran) viol_sched("log-exit", "the program ended without running exit handlers"); return; }
    end_as(O_RETURN);
  }
};
struct W8 : World {}; SCENARIO("C08", "log-messages", 1, W8);
struct W9 : World {}; SCENARIO("C09", "log-rotation", 1, W9);
struct W10 : World {}; SCENARIO("C10", "log-lifecycle", 1, W10);
}
