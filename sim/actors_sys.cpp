// Timers, logging, coprocesses, and small facilities as actors of the whole-library scenarios.
#include "actors.h"
#include "core.h"
#include "progs.h"
#include <fcntl.h>
#include <unistd.h>
namespace act {
// ================================================================ timers
static const char *tname[] = {"t0", "t1", "a rather long timer name", "", "total2", "t5", "t6", "t7", "t8", "t9", "t10", "t11"};
struct TimActor : Actor {
  std::set<int> have; int pi = -1;
  TimActor() { kind = "timers"; }
  void op() override {
    int i = rn(12);
    switch (rn(5)) {
      case 0: case 1: pi = i; pend = true; tim_start(tname[i]); pend = false; have.insert(i); note("tim start %d", i); break;
      case 2: if (have.count(i)) { tim_stop(tname[i]); double v = tim_get_real(tname[i]); if (!cfg.p_clock && !cfg.p_jump) note("tim %d stop %s", i, v >= 0 ? "ok" : "negative"); } else if (opt.fatal) { bool ok = dies([&] { tim_stop(tname[i]); }, 1); CHECK("C12,C15,C16", "tim-unknown", ok, "an unknown timer was stopped"); } break;
      case 3: if (have.count(i)) { tim_reset(tname[i]); double v = tim_get_real(tname[i]); CHECK("C12,C16", "tim-reset", v == 0, "a reset timer reports %g", v); note("tim reset %d", i); } break;
      default: if (have.count(i)) { tim_print_timer(sim_stdout, tname[i]); } else if (rch(1, 3)) tim_print_timers(sim_stdout);
    }
  }
  void verify(const char *props, bool tolerant) override {
    for (int i : have) { double v = tim_get_real(tname[i]); CHECK(props, "tim-lost", v == v, "timer %d is lost", i); }
    if (tolerant) { tim_start("in exit handler"); tim_stop("in exit handler"); }
  }
  void destroy() override { have.clear(); dead = true; } // the library's shutdown removes timers
};
ActorP mk_tim() { return ActorP(new TimActor); }

// ================================================================ logging
static Str strip_pid(Str s) { size_t p = 0; Str me = fmt("[%d]", K->cur->pid); while ((p = s.find(me, p)) != Str::npos) s.replace(p, me.size(), "[PID]"); return s; }
struct LogActor : Actor {
  bool file = false, stream = false, sys = false, std = false; Str path; FILE *st = nullptr; bool full = true; int pk = 0; int serial = 0; Str lastid;
  LogActor() { kind = "log"; setopt(); }
  void setopt() { full = rn(2); log_option(full ? LOG_OPTION_FULL : LOG_OPTION_NO_FULL); }
  struct Mark { size_t f, s, c1, c2, y; };
  Mark mark() { sim_fflush(sim_stdout); return {readfile(path).size(), readfile("/log/stream").size(), K->console1.size(), K->console2.size(), K->syslog.size()}; }
  void say(const char *props) {
    Mark m = mark(); Str msg = fmt("message %d %s", serial++, Str(rn(60), 'm').c_str()); bool err = rn(2);
    if (err) log_error("rtn", "%s", msg.c_str()); else log_info("%s", msg.c_str());
    Str tail = (err ? "(rtn) " : "") + msg + "\n";
    if (file) { Str d = readfile(path).substr(m.f); note("log file %s", quote(strip_pid(d), 100).c_str()); CHECK(props, "log-file", d.size() >= tail.size() && d.compare(d.size() - tail.size(), tail.size(), tail) == 0 && (full || d == tail), "the log file received %s for %s", quote(d).c_str(), quote(tail).c_str()); }
    if (stream && !std) { Str d = readfile("/log/stream").substr(m.s); note("log stream %s", quote(strip_pid(d), 100).c_str()); CHECK(props, "log-stream", d.size() >= tail.size() && d.compare(d.size() - tail.size(), tail.size(), tail) == 0 && (full || d == tail), "the log stream received %s for %s", quote(d).c_str(), quote(tail).c_str()); }
    if (stream && std) { Str d = K->console1.substr(m.c1); CHECK(props, "log-stream", d == msg || d == msg + "\n", "standard output received %s", quote(d).c_str()); }
    CHECK(props, "log-syslog", K->syslog.size() == m.y + sys && (!sys || K->syslog.back().msg == msg), "the system log received %zu messages", K->syslog.size() - m.y);
    sample_op("log-message");
  }
  void op() override {
    switch (rn(8)) {
      case 0: if (!file) {
          static const char *pats[] = {"relative.log", "sub/dir/relative%Y", "/log/plain", "/log/a/b/c%Y", "/log/%H/x", "/log/very-long-name-0123456789012345678901234567890123456789-%Y%m%d"}; Str pat = pats[rn(6)]; Str id = fmt("id%d", (int)rn(5));
          pk = 1; pend = true; { Buf b(pat, true), i(id, true); log_file(i.p, b.p); } pend = false; file = true; lastid = id;
          time_t t = K->wall / 1000000; char b[300]; struct tm tm = *sim_localtime(&t); strftime(b, sizeof b, pat.c_str(), &tm); path = b; note("log open");
        } else { log_file(nullptr, nullptr); file = false; note("log close"); }
        break;
      case 1: if (!stream) {
          std = rch(1, 3); if (std) st = sim_stdout; else { AppScope a; K->mkdirs("/log"); st = sim_fopen("/log/stream", rn(2) ? "a" : "r+"); if (!st) st = sim_fopen("/log/stream", "w"); }
          Str id = fmt("sid%d", (int)rn(5)); pk = 2; pend = true; { Buf i(id, true); log_stream(i.p, st); } pend = false; stream = true; lastid = id; note("log stream open");
        } else { log_stream(nullptr, nullptr); stream = false; st = nullptr; note("log stream close"); }
        break;
      case 2: if (!sys) { log_set_facility("user"); pk = 3; pend = true; log_syslog("sysident"); pend = false; sys = true; } else { log_syslog(nullptr); sys = false; } break;
      case 3: setopt(); break;
      case 4: if (rch(1, 3)) { log_close(); file = stream = sys = false; st = nullptr; note("log closed all"); break; } [[fallthrough]];
      default: say("C08,C10,C15,C16");
    }
  }
  void verify(const char *props, bool tolerant) override { if (tolerant && pend) { log_info("ping %s", "pong"); return; } say(props); }
  void destroy() override { log_close(); file = stream = sys = false; dead = true; }
};
ActorP mk_log() { return ActorP(new LogActor); }

// ================================================================ coprocesses
struct PrActor : Actor {
  struct Co { int pid, in, out; Str sent; }; std::vector<Co> co; int serial = 0;
  PrActor() { kind = "coprocess"; }
  void finish(Co c) {
    int pin = pr_close_nowait(c.in); CHECK("C15,C16", "pr-pid", pin == c.pid, "the descriptor belongs to another process");
    Str got; char b[256]; ssize_t n; for (;;) { { AppScope a; n = sim_read(c.out, b, sizeof b); } if (n <= 0) break; got.append(b, n); }
    CHECK("C15,C16", "pr-data", got == c.sent, "the coprocess returned %zu bytes of %zu", got.size(), c.sent.size());
    int st = pr_close(c.out); note("pr close %d", st); CHECK("C15,C16", "pr-status", st == 0, "the coprocess ended with %d", st);
  }
  void op() override {
    switch (rn(6)) {
      case 0: case 1: {
        Str in = rstr(200); std::string ob(512, 0); Buf o(ob, false); Buf b(in, false); int n; static const char *cmds[] = {"cmd C", "filter A E", "cmd 'D2'", "/usr/bin/tool A W40 X3"}; int w = rn(4);
        pend = true; n = pr_filter(cmds[w], b.p, in.size(), o.p, 512); pend = false; sample_op("pr-filter");
        Str exp = w < 2 ? in : w == 2 ? Str() : pattern(40); if (w == 2) for (char c : in) { exp += c; exp += c; }
        note("pr filter %d", n); CHECK("C15,C16", "pr-filter", n == (int)exp.size() && !memcmp(o.p, exp.data(), n), "a filter returned %d bytes instead of %zu", n, exp.size()); break; }
      case 2: { int x = rn(5); pend = true; int r = pr_spawn(fmt("cmd X%d", x).c_str()); pend = false; note("pr spawn %d", r); CHECK("C15,C16", "pr-spawn", r == x || K->cur->chld_ign, "a command that exits with %d is reported as %d", x, r); break; }
      case 3: if (co.size() < 3) { Co c; c.in = c.out = -1; pend = true; c.pid = pr_open("cmd C", PR_CREATE_STDIN | PR_CREATE_STDOUT | (rn(2) ? PR_USE_STDERR : 0), &c.in, &c.out, nullptr); pend = false; co.push_back(c); note("pr open"); sample_op("pr-open"); } break;
      case 4: if (co.size()) { Co &c = co[rn(co.size())]; Str s = rstr(100); AppScope a; if (c.sent.size() < 1000 && sim_write(c.in, s.data(), s.size()) == (ssize_t)s.size()) c.sent += s; } break;
      default: if (co.size()) { size_t i = rn(co.size()); Co c = co[i]; co.erase(co.begin() + i); finish(c); }
    }
  }
  void verify(const char *, bool) override {}
  void destroy() override { if (rn(2)) while (co.size()) { Co c = co.back(); co.pop_back(); finish(c); } else co.clear(); dead = true; } // the rest is left to the library's shutdown
};
ActorP mk_pr() { return ActorP(new PrActor); }

// ================================================================ checked allocation, flag registries
struct MiscActor : Actor {
  struct B { char *p; size_t n; uint32_t seed; }; std::vector<B> v; uint32_t ns = 0; std::set<int> flags, dbgs; bool made = false;
  static const char *fn(int i) { static const char *n[] = {"fa", "fb", "fc", "fd", "fe", "ff"}; return n[i]; }
  static unsigned long fv(int i) { static const unsigned long f[] = {1, 2, 0x20000000, 0x40000001, 0x40000010, 0x60000000}; return f[i]; }
  MiscActor() { kind = "misc"; }
  void fill(B &b) { for (size_t i = 0; i < b.n; i++) b.p[i] = (char)mix(b.seed, i); }
  bool good(const B &b, size_t n) { if (!heap_ok(b.p, n ? n : 1)) return n == 0; for (size_t i = 0; i < n; i++) if (b.p[i] != (char)mix(b.seed, i)) return false; return true; }
  void op() override {
    switch (rn(9)) {
      case 7: { unsigned long x = rn(3) ? rn(40) * 27u : rn(1u << 31); note("b26 %s %lu", b26_encode(x), b26_decode(b26_encode(x))); note("b64 %s", b64_encode(x)); unsigned q = rn(1000); note("prime %d %lu", !!prm_is_prime(q), prm_next_prime(q)); note("soundex %s", txt_soundex(x % 2 ? "Lloyd" : "Robert")); break; }
      case 0: { size_t n = rr(1, 300); pend = true; char *p = (char *)xmalloc(n); pend = false; CHECK("C13,C22", "xmalloc", p && heap_ok(p, n), "xmalloc of %zu", n); B b{p, n, ++ns}; fill(b); v.push_back(b); break; }
      case 1: { size_t a = rr(1, 20), n = rr(1, 30); pend = true; char *p = (char *)xcalloc(a, n); pend = false; CHECK("C13,C22", "xcalloc", p && heap_ok(p, a * n), "xcalloc of %zu", a * n); for (size_t i = 0; i < a * n; i++) CHECK("C22", "xcalloc-zero", !p[i], "xcalloc gave memory that is not zero"); B b{p, a * n, ++ns}; fill(b); v.push_back(b); break; }
      case 2: if (v.size()) { B &b = v[rn(v.size())]; size_t n = rr(1, 400), k = std::min(n, b.n); pend = true; char *p = (char *)xrealloc(b.p, n); pend = false; b.p = p; CHECK("C13,C22", "xrealloc", p && heap_ok(p, n) && good(b, k), "xrealloc from %zu to %zu lost the contents", b.n, n); b.n = n; fill(b); } break;
      case 3: { Str s = rstr(100); pend = true; char *p; { Buf b(s, true); p = xstrdup(b.p); } pend = false; CHECK("C13,C22", "xstrdup", p && heap_ok(p, s.size() + 1) && s == p, "xstrdup of %s", quote(s).c_str()); B b{p, s.size() + 1, ++ns}; fill(b); v.push_back(b); break; }
      case 4: case 5: if (v.size()) { size_t i = rn(v.size()); CHECK("C22", "xmalloc-content", good(v[i], v[i].n), "an allocated block changed"); xfree(v[i].p); v.erase(v.begin() + i); } break;
      case 6: { int i = rn(6); if (!flags.count(i)) { pend = true; flg_register(fv(i), fn(i)); pend = false; flags.insert(i); } flg_set(fn(i)); note("flag %d %d", i, !!flg_test(fv(i))); break; }
      default: { int i = rn(6); if (!dbgs.count(i)) { pend = true; dbg_register(fv(i), fn(i)); pend = false; dbgs.insert(i); note("dbg %d fresh %d", i, !!dbg_test(fv(i))); } dbg_set(fn(i)); note("dbg %d %d", i, !!dbg_test(fv(i))); }
    }
  }
  void verify(const char *props, bool tolerant) override {
    for (auto &b : v) CHECK(props, "xmalloc-content", good(b, b.n), "an allocated block changed");
    for (int i : dbgs) { dbg_set(fn(i)); CHECK(props, "dbg-lost", dbg_test(fv(i)), "debug flag %d is lost", i); }
    for (int i : flags) { flg_set(fn(i)); CHECK(props, "flg-lost", flg_test(fv(i)), "flag %d is lost", i); }
  }
  void destroy() override { for (auto &b : v) xfree(b.p); v.clear(); dead = true; }
};
ActorP mk_misc() { return ActorP(new MiscActor); }
}
