// Error routines (C11): what reaches standard output, standard error and the log, in which order, and how the program ends.
#include "actors.h"
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <syslog.h>
#include <unistd.h>
extern "C" sighandler_t sim_signal(int, sighandler_t);
extern "C" int sim_setvbuf(FILE *, char *, int, size_t);
namespace {
using namespace sim; using namespace act;
struct Err; Err *self;
enum { FATAL, ERRNO, INTERNAL, WARNING };
const char *const fname[] = {"err_fatal", "err_fatal_errno", "err_internal", "err_warning"};
struct Err : Scenario {
  Str p1 = "<1>", p2 = "<2>"; bool closed1 = false, closed2 = false; bool healthy = true; Str pend; Str prog; bool has_prog = false;
  bool lf = false, ls = false, ly = false, full = true; int sk = 0; std::vector<int> handlers; bool warn_in_handler = false, print_in_handler = false; int mainpid = 0; bool deny = false; int ebuf = 0; bool lost2 = false;
  // the report being made
  int kind = -1; Str rtn, msg; bool has_rtn = false; int eno = 0; size_t fw0 = 0, sy0 = 0, inj0 = 0, log0 = 0, st0 = 0, con0 = 0; uint32_t nwarn = 0; bool finished = false, closed_fd = false;
  void configure() override {
    self = this; K->track_writes = true; K->mark_wall(); nwarn = draw(5);
    static const uint32_t ei[] = {0, 0, 20, 60}; cfg.p_eintr = ei[draw(4)]; static const uint32_t sp[] = {0, 0, 30, 90}; cfg.p_short = sp[draw(4)]; cfg.tty_out = draw(3) == 0; cfg.stdio_buf = draw(2) ? 4096 : 32; cfg.fill = draw(5); cfg.reuse = draw(3); ebuf = draw(3) ? 0 : 1 + draw(2);
    if (draw(3) == 0) { cfg.p_clock = 20; cfg.clock_max = 2000000; }
  }
  static Str logpath() { return "/log/err"; }
  static void h1() { self->handlers.push_back(1); if (self->print_in_handler) sim_printf("bye;"); }
  static void h2() { self->handlers.push_back(2); if (self->warn_in_handler) { int d = P->app.app_depth; P->app.app_depth = 0; err_warning("handler", "warned %d", 5); P->app.app_depth = d; } }
  Str prefix() const { return kind == INTERNAL ? (has_prog ? prog + (has_rtn ? " (" + rtn + ")" : "") + ": " : has_rtn ? rtn + ": " : "") + "Internal error\n     " : has_prog ? prog + (has_rtn ? " (" + rtn + ")" : "") + ": " : has_rtn ? rtn + ": " : ""; }
  void redirect() {
    AppScope a;
    auto to = [&](const char *path, int fd) { int f = sim_open(path, O_WRONLY | O_CREAT | O_APPEND, 0644); if (f >= 0 && f != fd) { sim_dup2(f, fd); sim_close(f); } };
    switch (draw(8)) { case 0: sim_close(1); closed1 = true; p1 = "-"; break; case 1: to("/out1", 1); p1 = "/out1"; break; default: break; }
    switch (draw(8)) { case 0: sim_close(2); closed2 = true; p2 = "-"; break; case 1: to("/out2", 2); p2 = "/out2"; break; case 2: if (!closed1) { sim_dup2(1, 2); p2 = p1; } break; default: break; }
    if (closed1 || closed2) { K->mkfile("/keep", ""); for (int i = 0; i < 3; i++) if (!K->cur->fds.count(i)) { closed_fd = true; sim_open("/keep", O_RDONLY); } }
    sim_signal(SIGPIPE, SIG_IGN);
    if (ebuf) { static const size_t c[] = {32, 300, 4096, 20000}; sim_setvbuf(sim_stderr, nullptr, ebuf == 1 ? _IOFBF : _IOLBF, c[draw(4)]); probe("buffered-stderr"); }
  }
  void fill_out() { AppScope a; if (draw(3) == 0) return; Str s = fmt("out-%d;", (int)draw(1000)); if (draw(3) == 0) s += Str(draw(3000), 'o'); if (cfg.tty_out && draw(2)) s += "\n"; size_t before = K->fwrites.size(), wf = K->call_count["write"]; sim_printf("%s", s.c_str()); pend += s; for (size_t i = before; i < K->fwrites.size(); i++) { auto &w = K->fwrites[i]; if (w.path == p1 && w.pid == mainpid) { Str d = w.data; if (pend.compare(0, d.size(), d) == 0) pend.erase(0, d.size()); } } if (K->call_count["write"] != wf) pend.clear(); /* a flush takes or drops everything */ }
  // the next report
  void prepare(int k) {
    kind = k; has_rtn = draw(4); rtn = draw(6) ? "rtn" : Str(1 + draw(100), 'r'); static const size_t sz[] = {0, 1, 20, 300, 3000, 4094}; size_t n = sz[draw(6)]; if (draw(2)) n = draw(60); msg.clear(); while (msg.size() < n) msg += (char)(draw(20) ? 'a' + draw(26) : 32 + draw(95));
    static const int es[] = {ENOENT, EACCES, ENOSPC, EINTR, EAGAIN, EIO, 0, 9999, ENOTTY, EBADF}; eno = es[draw(10)];
    fw0 = K->fwrites.size(); sy0 = K->syslog.size(); inj0 = K->injected.size(); TR("%s, errno %d, pending output %zu", fname[k], eno, pend.size()); sample_op(fname[k]);
  }
  void report() {
    int form = draw(3); Buf b(msg, true), r(rtn, true); const char *rp = has_rtn ? r.p : nullptr; Str f; for (char c : msg) { f += c; if (c == '%') f += '%'; } Buf fb(f, true); if (form == 2) msg += " 7!";
    errno = eno;
#define CALLS(fn) (form == 0 ? fn(rp, "%s", b.p) : form == 1 ? fn(rp, fb.p, 1) : fn(rp, "%s %d%c", b.p, 7, '!'))
    switch (kind) { case FATAL: CALLS(err_fatal); break; case ERRNO: CALLS(err_fatal_errno); break; case INTERNAL: CALLS(err_internal); break; default: CALLS(err_warning); }
  }
  bool fail(const char *cls, const Str &m, bool sched) { if (!prop_is("C11")) return false; if (sched) viol_sched(cls, Str(fname[kind]) + ": " + m); else viol(cls, "%s: %s", fname[kind], m.c_str()); return true; }
  bool failed_on(int fd) { for (size_t i = inj0; i < K->injected.size(); i++) { auto &x = K->injected[i]; if (x.pid == mainpid && Str(x.call) == "write" && x.fd == fd) return true; } return false; }
  bool failed_path(const Str &p) { for (size_t i = inj0; i < K->injected.size(); i++) { auto &x = K->injected[i]; if (x.pid != mainpid || Str(x.call) != "write") continue; auto f = K->procs[0]->fds.find(x.fd); if (f == K->procs[0]->fds.end() || (f->second.o->ino && f->second.o->ino->path == p) || closed_fd) return true; } return false; }
  // everything written since prepare() is as promised
  void judge(bool sched) {
    std::map<Str, Str> got; size_t firstrep = SIZE_MAX, lastpend = 0, np = 0; Str rest = pend;
    for (size_t i = fw0; i < K->fwrites.size(); i++) { auto &w = K->fwrites[i]; if (w.pid != mainpid) continue; if (w.path == p2 && firstrep == SIZE_MAX && p2 != p1) firstrep = i; if (w.path == p1 && np < pend.size()) { np += w.data.size(); lastpend = i; } got[w.path] += w.data; }
    Str es = strerror(eno), body = kind == INTERNAL ? msg + "\n" : kind == ERRNO ? msg : msg + "\n", tail = kind == ERRNO ? " " + (has_rtn ? rtn + ": " : Str()) + es + "\n" : kind == INTERNAL ? (has_prog ? "Aborting " + prog + "...\n" : Str("Aborting...\n")) : Str();
    Str rep = prefix() + body + tail; Str m4 = msg.substr(0, 4095);
    Str l1 = m4, l2 = kind == ERRNO ? (has_rtn ? rtn + ": " : Str()) + es : Str(); bool two = kind == ERRNO; Str hw = sched && warn_in_handler && kind != INTERNAL ? "warned 5" : "";
    if (ebuf && kind == WARNING) { AppScope a; lost2 = sim_fflush(sim_stderr) != 0; got.clear(); for (size_t i = fw0; i < K->fwrites.size(); i++) if (K->fwrites[i].pid == mainpid) got[K->fwrites[i].path] += K->fwrites[i].data; } else lost2 = false; // a warning may wait in the buffer of standard error
    // standard output first
    if (!closed1 && !failed_on(1) && p1 != p2) {
      Str e = pend; bool ok = false; Str by = sched && print_in_handler && kind != INTERNAL ? "bye;" : "";
      if (!(ls && sk == 1)) { ok = got[p1] == e + by; }
      else { Str a = got[p1]; ok = a.compare(0, e.size(), e) == 0; if (ok) { a.erase(0, e.size()); auto eat = [&](const Str &x) { if (a.compare(0, x.size(), x) == 0) { a.erase(0, x.size()); if (!a.empty() && a[0] == '\n') a.erase(0, 1); } else ok = false; }; eat(l1); if (two) eat(l2); if (!hw.empty()) eat(hw); if (!by.empty() && a.compare(0, 4, by) == 0) a.erase(0, 4); ok = ok && a.empty(); } }
      if (!ok && fail("err-stdout", fmt("standard output received %s; %s was pending", quote(got[p1], 200).c_str(), quote(e, 100).c_str()), sched)) return;
      if (!pend.empty() && !closed2 && firstrep != SIZE_MAX && lastpend > firstrep && !(ls && sk == 2) && fail("err-order", "pending standard output was written after the report", sched)) return;
      if (!pend.empty()) probe("pending-output-flushed");
    }
    if (!closed2 && !failed_on(2) && !lost2) {
      Str g = got[p2]; bool ok;
      if (p1 == p2) { if (failed_on(1) || (ebuf && ls)) ok = true; else { ok = g.compare(0, pend.size(), pend) == 0; if (ok) g.erase(0, pend.size()); if (ls) ok = ok && g.compare(0, prefix().size() + msg.size(), prefix() + msg) == 0; else ok = ok && g.compare(0, rep.size(), rep) == 0; } probe("streams-share-a-file"); }
      else if (ls && sk == 2) { size_t at = g.find(kind == ERRNO ? prefix() + msg : prefix() + body), t = tail.empty() ? 0 : g.find(tail); ok = at == 0 && t != Str::npos && g.find(m4, prefix().size() + msg.size()) != Str::npos; }
      else { ok = g.compare(0, rep.size(), rep) == 0; if (ok) { Str more = g.substr(rep.size()); Str hp = (has_prog ? prog + " (handler): " : Str("handler: ")) + "warned 5\n"; ok = more == (hw.empty() ? Str() : hp); } }
      if (!ok && fail("err-stderr", fmt("standard error received %s instead of %s", quote(got[p2], 300).c_str(), quote(rep, 300).c_str()), sched)) return;
    }
    // the log
    auto lines = [&](const Str &g) {
      Str a = g; bool ok = true;
      auto eat = [&](const Str &b, const Str &r, bool hr) { Str x = (hr ? "(" + r + ") " : Str()) + b + "\n"; if (full) { size_t p = a.find("]: "); if (p == Str::npos) { ok = false; return; } a.erase(0, p + 3); } if (a.compare(0, x.size(), x)) ok = false; else a.erase(0, x.size()); };
      eat(l1, rtn, has_rtn); if (two && ok) eat(l2, rtn, has_rtn); if (!hw.empty() && ok) eat(hw, "handler", true); return ok && a.empty();
    };
    if (lf && !failed_path(logpath()) && !lines(got[logpath()]) && fail("err-log", fmt("the log file received %s", quote(got[logpath()], 300).c_str()), sched)) return;
    if (ls && sk == 3 && !failed_path("/log/stream") && !lines(got["/log/stream"]) && fail("err-log", fmt("the log stream received %s", quote(got["/log/stream"], 300).c_str()), sched)) return;
    if (ly) {
      std::vector<Str> w{msg}; if (two) w.push_back(l2); if (!hw.empty()) w.push_back(hw); bool ok = K->syslog.size() == sy0 + w.size();
      for (size_t i = 0; ok && i < w.size(); i++) { Str x = w[i]; if (!x.empty() && x.back() == '\n') x.pop_back(); ok = K->syslog[sy0 + i].msg == x && (K->syslog[sy0 + i].prio & 7) == LOG_ERR; }
      if (!ok && fail("err-log", fmt("the system log received %zu messages, %s first", K->syslog.size() - sy0, K->syslog.size() > sy0 ? quote(K->syslog[sy0].msg).c_str() : "none"), sched)) return;
    }
    sample_op("report-judged");
  }
  void main() override {
    init_tables(); mainpid = K->cur->pid; K->mkdirs("/log"); bool init = draw(2);
    static const char *names[] = {"prog", "/usr/local/bin/tool", "./x", "dir/", "", "a name"}; Str longname; const char *nm = names[draw(6)]; if (draw(4) == 0) { size_t n = 1 + draw(draw(2) ? 60 : 600); for (size_t i = 0; i < n; i++) longname += draw(20) ? (char)('a' + draw(26)) : draw(3) ? '/' : '%'; nm = longname.c_str(); }
    if (init) { maa_init(nm); has_prog = true; } else if (draw(2)) { err_set_program_name(nm); has_prog = true; if (draw(5) == 0) { err_set_program_name(nullptr); has_prog = false; } }
    if (has_prog) { prog = nm; size_t s = prog.rfind('/'); if (s != Str::npos) prog = prog.substr(s + 1); CHECK("C11", "err-program", err_program_name() && prog == err_program_name(), "the program name is %s instead of %s", quote(err_program_name() ? err_program_name() : "(null)").c_str(), quote(prog).c_str()); }
    { AppScope a; sim_atexit(h1); sim_atexit(h2); } warn_in_handler = draw(3) == 0; print_in_handler = draw(2); redirect();
    full = draw(2); log_option(full ? LOG_OPTION_FULL : LOG_OPTION_NO_FULL);
    if (draw(2)) { log_file("ident", logpath().c_str()); lf = true; }
    if (draw(3) == 0) { static const int k[] = {1, 2, 3}; sk = k[draw(3)]; FILE *f = sk == 1 ? sim_stdout : sim_stderr; if (sk == 3) { AppScope a; f = sim_fopen("/log/stream", "a"); } log_stream("sident", f); ls = true; }
    if (draw(3) == 0) { log_syslog("sys"); ly = true; }
    for (uint32_t i = 0; i < nwarn; i++) {
      fill_out(); weather(); prepare(WARNING); report(); judge(false); pend.clear();
      if (draw(6) == 0) child();
    }
    fill_out(); weather(); prepare(draw(4)); report();
    if (kind != WARNING) viol("err-returned", "%s returned", fname[kind]);
    judge(false); pend.clear(); kind = -1;
    if (draw(2)) maa_shutdown();
  }
  void weather() {
    switch (draw(6)) {
      case 0: K->disk_free = draw(300); fault("disk-nearly-full"); break;
      case 1: K->disk_free = -1; K->eio_burst = 0; break;
      case 2: K->eio_burst = 1 + draw(4); break;
      case 3: { Plan p; p.call = "write"; p.nth = 1 + draw(4); static const int e[] = {EIO, ENOSPC, EPIPE, EBADF, EFBIG, EAGAIN}; p.err = e[draw(6)]; if (draw(2)) p.fd = 1 + draw(2); p.count = 1 + draw(3); K->plans.push_back(p); break; }
      default: break;
    }
  }
  // a process forked from this one fails; nothing of it shows here
  void child() {
    int k = draw(3); int pid; { AppScope a; pid = sim_fork(); }
    if (pid == 0) { Buf b("child trouble", true); if (k == FATAL) err_fatal("child", "%s", b.p); else if (k == ERRNO) { errno = ENOENT; err_fatal_errno("child", "%s", b.p); } else err_internal("child", "%s", b.p); }
    int st = 0; size_t h = handlers.size(); { AppScope a; while (sim_waitpid(pid, &st, 0) < 0) if (errno != EINTR) return; }
    CHECK("C11", "err-child", (st & ~0x80) == (k == INTERNAL ? SIGABRT : 1 << 8), "a forked process that called %s ended with status 0x%x", fname[k], st); (void)h; handlers.clear(); probe("error-in-forked-process");
  }
  void after() override {
    if (kind < 0 || kind == WARNING) { end_as(O_RETURN); return; }
    if (kind == INTERNAL) end_as(O_ABORT); else end_as(O_EXIT, 1);
    if (V.set) return;
    std::vector<int> w{2, 1}; if (kind == INTERNAL) w.clear();
    if (handlers != w) { fail("err-handlers", fmt("%zu exit handlers ran instead of %zu, or in another order", handlers.size(), w.size()), true); return; }
    judge(true);
  }
};
SCENARIO("C11", "error-reports", 1, Err);
}
