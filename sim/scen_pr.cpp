// Filters and coprocesses (C01-C07): the real pr.c against the simulated kernel, scheduler and programs.
#include "actors.h"
#include "core.h"
#include "progs.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
extern "C" sighandler_t sim_signal(int, sighandler_t);
namespace {
using namespace sim; using namespace act;
bool debugging;
void proc_cfg(bool noise) {
  debugging = false;
  static const size_t caps[] = {65536, 4096, 8192, 20480};
  cfg.pipe_cap = caps[draw(4)];
  static const uint32_t pre[] = {0, 10, 40, 80}; cfg.p_preempt = pre[draw(4)]; cfg.max_burst = draw(2) ? 4 : 1 + draw(40);
  if (noise) { static const uint32_t ei[] = {0, 0, 20, 60}; cfg.p_eintr = ei[draw(4)]; }
  static const uint32_t sp[] = {0, 0, 15, 70}; cfg.p_shortpipe = sp[draw(4)]; cfg.p_rdchunk = sp[draw(4)];
  cfg.reuse_pids = draw(2); cfg.reuse = draw(3); cfg.fill = draw(5); cfg.tty_out = draw(2);
  if (draw(4) == 0) { cfg.p_clock = 10; cfg.clock_max = 1000000; }
}
Str bytes(size_t n, uint32_t seed) { Str s(n, 0); for (size_t i = 0; i < n; i++) s[i] = (char)mix(seed, i / 4 * 4 + (seed & 1 ? i : 0)); return s; }
size_t io_size() {
  switch (draw(8)) {
    case 0: return 0; case 1: return 1 + draw(8); case 2: return draw(300); case 3: { static const size_t e[] = {4095, 4096, 4097, 8192, 8193, 65535, 65536, 65537}; return e[draw(8)]; }
    case 4: return draw(5000); case 5: return draw(20000); default: return draw(100) ? draw(12000) : 60000 + draw(90000);
  }
}
Proc *lib_child_since(int serial, size_t k = 0) { for (auto &p : K->procs) if (p->serial > serial && !p->foreign && p->pid != K->cur->pid && !k--) return p.get(); return nullptr; }
int last_serial() { return K->procs.empty() ? 0 : K->procs.back()->serial; }

// what a script does with its input
int anystatus() { static const int v[] = {1, 2, 64, 126, 127, 128, 129, 141, 254, 255}; return draw(3) ? 1 + draw(255) : v[draw(10)]; }
int anysignal() { static const int v[] = {9, 15, 11, 6, 13, 1, 2, 3, 8, 14, 10, 24, 25, 31, 34, 64}; return v[draw(16)]; }
struct Body { Str args; Str out; bool reads_all; bool out_last; int status; bool stderr_noise; };
Body consumer(const Str &in, bool noise = true) {
  Body b{"", "", true, false, 0, false}; uint32_t n = draw(4) ? draw(3000) : draw(30000);
  switch (draw(8)) {
    case 0: b.args = "C"; b.out = in; b.out_last = true; break;
    case 1: b.args = "A E"; b.out = in; b.out_last = true; break;
    case 2: b.args = "A V"; b.out.assign(in.rbegin(), in.rend()); b.out_last = true; break;
    case 3: { int k = 2 + draw(3); b.args = fmt("D%d", k); for (char c : in) b.out.append(k, c); b.out_last = true; break; }
    case 4: b.args = fmt("A W%u", n); b.out = pattern(n); b.out_last = true; break;
    case 5: b.args = fmt("W%u C", n); b.out = pattern(n) + in; b.out_last = !in.empty(); break;
    case 6: b.args = "A"; b.out_last = true; break;
    default: b.args = fmt("W%u A E", n); b.out = pattern(n) + in; b.out_last = !in.empty();
  }
  if (draw(6) == 0) { b.args = fmt("%c%u ", draw(3) ? 'z' : 't', 1 + draw(12000)) + b.args; }
  if (noise && draw(6) == 0) { b.args = fmt("e%u ", 1 + draw(200)) + b.args; b.stderr_noise = true; }
  if (draw(8) == 0) b.args += fmt(" t%u", 1 + draw(100)); // stopped by job control for a while
  switch (draw(5)) { case 1: b.status = anystatus(); b.args += fmt(" X%d", b.status); break; case 2: { int s = anysignal(); b.status = s == SIGPIPE ? 0 : 128 + s; b.args += fmt(" K%d", s); break; } default: break; }
  return b;
}
Body early() {
  Body b{"", "", false, false, 0, false}; uint32_t n = draw(2) ? draw(40) : draw(20000);
  switch (draw(11)) {
    case 9: b.args = fmt("c0 z%u W%u", 1 + draw(20000), n); break; case 10: b.args = fmt("W%u c0 z%u X%u", n, 1 + draw(20000), draw(3)); break;
    case 0: b.args = "X0"; break; case 1: b.args = fmt("R%u E X0", 1 + n); break; case 2: b.args = fmt("c0 W%u", n); break; case 3: b.args = fmt("c1 A"); break;
    case 4: b.args = "K9"; break; case 5: b.args = fmt("W%u X3", n); break; case 6: b.args = fmt("R%u W50 K15", 1 + n); break; case 7: b.args = fmt("W%u c1 C", n); break;
    default: b.args = fmt("i R%u W%u", 1 + n, n);
  }
  if (draw(5) == 0) b.args = fmt("z%u ", 1 + draw(100)) + b.args;
  return b;
}
Str cmdname() { static const char *n[] = {"cmd", "filter", "/usr/bin/tool", "'a b'", "\"-x\"", "a\\ b"}; return n[draw(6)]; }

void talks() { debugging = true; dbg_set(".pr"); }
void quiet() { if (!debugging && K->lib_said && prop_is("C03")) viol_sched("chatter", fmt("the library printed %llu characters on the application's standard output although debugging is off", (unsigned long long)K->lib_said)); }
// ---------------------------------------------------------------- one buffer through filters
struct Filters : Scenario {
  int may = 0; uint32_t rounds = 1; Str in_now; int ser0 = 0;
  bool many = false; // more descriptors than select(2) can handle
  void configure() override { proc_cfg(true); rounds = 1 + draw(3); K->spin_limit = 400; many = draw(40) == 0; if (many) cfg.open_max = 1200; }
  void main() override {
    init_tables();
    if (many) { AppScope a; int up = 1000 + draw(60); for (int f = 0; f >= 0 && f < up;) f = sim_dup(K->cur->fds.begin()->first); probe("many-descriptors"); }
    if (draw(3)) { maa_init("filters"); if (draw(6) == 0) talks(); }
    bool ignpipe = draw(4) == 0; if (ignpipe) { AppScope a; sim_signal(SIGPIPE, SIG_IGN); }
    if (draw(6) == 0) { AppScope a; sim_close(draw(2) ? 0 : 2); }
    std::vector<int> bg; int bgin = -1, bgout = -1;
    if (draw(5) == 0) { pr_open("cmd C", PR_CREATE_STDIN | PR_CREATE_STDOUT, &bgin, &bgout, nullptr); }
    for (uint32_t r = 0; r < rounds; r++) {
      if (draw(4) == 0) spawn_foreign("z3 X1", true);
      size_t n = io_size(); Str in = bytes(n, draw(1000)); if (in.size() > 60000 && cfg.p_rdchunk) cfg.p_rdchunk = 5;
      bool e = draw(4) == 0; bool missing = !e ? false : draw(6) == 0;
      Body b = e ? early() : consumer(in); if (missing) b.args = "C";
      int nchain = (!e && draw(6) == 0) ? 1 + draw(2) : 0;
      size_t cap;
      switch (draw(5)) { case 0: cap = b.out.size() + (b.out_last ? 0 : 1); break; case 1: cap = b.out.size() + 1; break; case 2: cap = b.out.size() ? 1 + draw((uint32_t)b.out.size()) : 1; break; default: cap = b.out.size() + 1 + draw(5000); }
      if (!cap && draw(3)) cap = 1;
      bool fits = cap ? b.out.size() < cap || (b.out.size() == cap && b.out_last) : b.out.empty() && in.empty();
      if (!cap) probe("no-room");
      Str cmd = (missing ? Str("nosuch") : cmdname()) + " " + b.args;
      char *ib = (char *)app_block(in.size(), 0); if (in.size()) memcpy(ib, in.data(), in.size()); char *ob = (char *)app_block(cap, 0x55);
      TR("filter %s: %zu bytes in, %zu expected, room for %zu", cmd.c_str(), in.size(), b.out.size(), cap);
      sample_op(e ? (missing ? "filter-missing" : "filter-early-end") : fits ? "filter-consumer" : "filter-overflow");
      may = e ? 3 : fits ? 0 : 3; in_now = in; ser0 = last_serial();
      auto before = fd_table(K->cur.get()); size_t err0 = K->console2.size();
      // waiting while something can be moved: no time limit may be sat out
      K->on_idle = [&before, cap] {
        probe("sat-out-a-limit");
        for (auto &x : K->cur->fds) {
          if (before.count(x.first) || x.first < 3) continue;
          const Ofd &o = x.second.o;
          if (o->kind == K_PIPE_R && cap && K->readable(o)) CHECK("C02", "idle-wait", false, "the call waited in vain until a time limit although %s", o->pipe->buf.empty() ? "the filter's output had ended" : "output of the filter could be read");
          if (o->kind == K_PIPE_W && K->writable(o)) CHECK("C02", "idle-wait", false, "the call waited in vain until a time limit although input could be given to the filter");
        }
      };
      int res; uint64_t wp0 = K->waits.size(); (void)wp0;
      std::vector<int> up;
      if (!nchain && draw(4)) res = pr_filter(cmd.c_str(), ib, (int)in.size(), ob, (int)cap);
      else {
        int i0 = -1, o = -1;
        if (!nchain) { pr_open(cmd.c_str(), PR_CREATE_STDIN | PR_CREATE_STDOUT, &i0, &o, nullptr); }
        else {
          up.push_back(pr_open("cmd C", PR_CREATE_STDIN | PR_CREATE_STDOUT, &i0, &o, nullptr));
          for (int k = 1; k < nchain; k++) { int p = o; up.push_back(pr_open("cmd C", PR_USE_STDIN | PR_CREATE_STDOUT, &p, &o, nullptr)); }
          int p = o; pr_open(cmd.c_str(), PR_USE_STDIN | PR_CREATE_STDOUT, &p, &o, nullptr);
        }
        res = pr_readwrite(i0, o, ib, (int)in.size(), ob, (int)cap);
        probe(nchain ? "pipeline" : "readwrite");
      }
      may = 0; K->on_idle = nullptr;
      Proc *f = lib_child_since(ser0, up.size());
      CHECK("C01,C02,C05", "filter-process", f != nullptr, "no process was started");
      if (!f) return;
      CHECK("C01", "filter-bound", res >= 0 && (size_t)res <= cap, "returned %d with room for %zu", res, cap);
      if (!e && fits) {
        CHECK("C01", "filter-output", (size_t)res == b.out.size() && !memcmp(ob, b.out.data(), res), "%s of %zu bytes returned %d bytes%s instead of %zu", cmd.c_str(), in.size(), res, (size_t)res <= b.out.size() && !memcmp(ob, b.out.data(), res) ? " (a prefix)" : " (different)", b.out.size());
        if (f->stdin_eof && !nchain) CHECK("C01", "filter-input", f->stdin_seen == in, "the filter read %zu bytes%s of %zu", f->stdin_seen.size(), f->stdin_seen == in.substr(0, f->stdin_seen.size()) ? "" : " (different)", in.size());
        if (b.reads_all && !(b.out.size() == cap)) CHECK("C01,C02", "filter-eof", f->stdin_eof, "the filter never saw the end of its input");
        if (K->cur->fds.count(2)) {
          bool warned = K->console2.size() > err0;
          if (!b.stderr_noise) CHECK("C05", "filter-warning", warned == (b.status != 0) || b.out.size() == cap, "the command ended with %d and %s warning was issued", b.status, warned ? "a" : "no");
        }
        CHECK("C05", "filter-zombie", f->state == Proc::GONE && f->reaped == 1, "the filter process is still %s after the call", f->state == Proc::ZOMBIE ? "a zombie" : "running");
        probe(b.out.size() == cap ? "filter-exact-fit" : "filter-fits");
      } else if (!e) {
        CHECK("C01", "filter-prefix", b.out.compare(0, res, ob, res) == 0, "%d returned bytes are not a prefix of the %zu that were written", res, b.out.size());
        probe("filter-truncated");
      } else {
        CHECK("C01", "filter-prefix", (size_t)res <= f->out1.size() && !memcmp(ob, f->out1.data(), res) && ((size_t)res == f->out1.size() || (size_t)res == cap), "the filter wrote %zu bytes, %d of %zu possible were returned%s", f->out1.size(), res, cap, memcmp(ob, f->out1.data(), std::min((size_t)res, f->out1.size())) ? " (different)" : "");
        probe("filter-early-return");
      }
      CHECK("C01", "filter-input-prefix", in.compare(0, f->stdin_seen.size(), f->stdin_seen) == 0 || nchain, "the filter read bytes that were not sent");
      CHECK("C05", "filter-zombie", f->state == Proc::GONE, "the filter process is still %s after the call", f->state == Proc::ZOMBIE ? "a zombie" : "running");
      for (int p : up) { may = e || !fits ? 3 : 0; int st = pr_wait(p); may = 0; if (!e && fits) CHECK("C05", "pipeline-status", st == 0, "an upstream process ended with %d", st); }
      auto now = fd_table(K->cur.get());
      CHECK("C01,C05", "filter-descriptors", now.size() == before.size(), "%zu descriptors were open before the call and %zu after it", before.size(), now.size());
      for (size_t k = 0; k < in.size(); k++) if (ib[k] != in[k]) viol("input-changed", "the input buffer was modified at %zu", k);
      app_free(ib); app_free(ob);
    }
    if (bgin >= 0) { AppScope a; char c[4] = "abc", d[4]; CHECK("C01", "background", sim_write(bgin, c, 3) == 3 && sim_read(bgout, d, 3) >= 1, "a coprocess opened before the filters is disturbed"); }
    maa_shutdown();
  }
  void after() override {
    if (R.out == O_EXIT && (may & 1)) { CHECK("C01,C02", "filter-exit", R.code == 1, "exit status %d", R.code); if (K->procs[0]->fds.count(2)) CHECK("C01,C02", "filter-silent", !K->console2.empty(), "the program ended without any message"); probe("filter-fatal"); }
    else if (R.out == O_SIGNAL && (may & 2) && R.code == SIGPIPE) probe("filter-sigpipe");
    else end_as(O_RETURN);
    quiet();
    if (V.set) return;
    Proc *f = lib_child_since(ser0); if (f && in_now.compare(0, f->stdin_seen.size(), f->stdin_seen) && prop_is("C01")) viol_sched("filter-input-prefix", "the filter read bytes that were not sent");
  }
};
SCENARIO("C01,C02", "filters", 1, Filters);
struct Filters5 : Filters {};
SCENARIO("C05", "filter-status", 1, Filters5);

// ---------------------------------------------------------------- coprocess histories
struct Co;
struct Input { int type = 0; Str text; Co *up = nullptr; bool unknown = false; }; // 0 nothing, 1 from the caller, 2 from another coprocess, 3 fixed text
struct Co {
  int id = 0, pid = 0, serial = 0; int fd[3] = {-1, -1, -1}; Input in; Input extra; // extra: its input pipe was given to another coprocess as output
  Str name; std::vector<Str> args; Str cmdline; bool empty = false, missing = false;
  char body = 'C'; int k = 0; int nout = 0, nerr = 0; int xs = 0, ks = 0; bool loops = false;
  bool waited = false, killed = false, fragile = false, fuzzy = false; bool err_to_out = false; Str got, goterr; Str sinkfile; bool eof_seen = false; bool cb = false; bool gaveaway[3] = {};
  bool reads_all() const { return !missing && !empty && strchr("CEVDA", body); }
};
struct Want { int serial = 0; Co *co = nullptr; Str file; std::vector<Str> argv; bool cb = false; bool none = false; struct S { int k = 0; int oid = 0; int given = -1; } s[3]; std::set<int> managed; bool checked = false; };
struct CbRec { int pid, serial; };
std::vector<CbRec> *cbs, *exs;
void exit_handler() { if (exs && K->cur.get() != K->procs[0].get()) exs->push_back({K->cur->pid, K->cur->serial}); TR("exit handler in %d", K->cur->pid); }
void callback() { AppScope a; cbs->push_back({K->cur->pid, K->cur->serial}); TR("callback in %d", K->cur->pid); auto tty = [](int fd) { auto f = K->cur->fds.find(fd); return f != K->cur->fds.end() && (f->second.o->kind == K_SINK || f->second.o->kind == K_NULL); }; // what else is there may belong to a coprocess
  switch (draw(4)) { case 0: if (tty(1)) sim_fprintf(sim_stdout, "callback\n"); break; case 1: if (tty(2)) sim_write(2, "cb\n", 3); break; default: break; } }

struct Cops : Scenario {
  struct AppFd { int fd; int kind; Str text; Str path; };  // 0 source, 1 sink
  std::vector<std::unique_ptr<Co>> co; std::vector<Want> wants; std::vector<AppFd> app; std::map<int, int> expect; std::vector<CbRec> cb, ex; uint32_t nops = 0; size_t kills_seen = 0, waits_seen = 0; bool in_shutdown = false; int files = 0; std::set<int> okwait;
  void configure() override { proc_cfg(true); nops = range(3, draw(2) ? 14 : 50); K->spin_limit = 400; cbs = &cb; exs = &ex;
    // a caller that holds many descriptors of its own: those of the coprocesses get large numbers
    if (draw(10) == 0) { static const int b[] = {16, 30, 55, 62, 120, 250, 500, 1000}; base = b[draw(8)] + draw(4); crowd_at = draw(2) ? 0 : draw(nops); limit = base + 120 + draw(200); if (draw(2)) { cfg.open_max = limit; limit = 0; } }
    inherits = draw(12) == 0; }
  int base = 0, limit = 0; bool inherits = false; uint32_t crowd_at = 0;
  void crowd() { AppScope a; if (limit) { TR("the caller raises its limit of descriptors to %d", limit); cfg.open_max = limit; probe("limit-raised"); } for (;;) { int f = sim_open("/dev/null", O_RDONLY); if (f < 0) break; if (f >= base) { sim_close(f); break; } } TR("the caller holds its descriptors up to %d", base); probe("many-descriptors"); refresh(); }
  void after() override { end_as(O_RETURN); quiet(); }

  // ---- model
  Str input_of(Co *c, bool &unk) {
    Str s; unk = unk || c->in.unknown || c->killed;
    if (c->in.type == 1 || c->in.type == 3) s = c->in.text;
    else if (c->in.type == 2) { bool u = false; s = out_of(c->in.up, 1, u); unk |= u; }
    if (c->extra.type == 2) { bool u = false; s += out_of(c->extra.up, 1, u); unk |= u; }
    return s;
  }
  Str out_of(Co *c, int which, bool &unk) {
    if (c->missing || c->empty) return "";
    if (c->killed || c->fuzzy || c->loops) unk = true;
    Str e = pattern(c->nerr), o;
    if (which == 2) return e;
    Str in = input_of(c, unk);
    switch (c->body) { case 'C': case 'E': o = in; break; case 'V': o.assign(in.rbegin(), in.rend()); break; case 'D': for (char x : in) o.append(c->k, x); break; case 'W': o = pattern(c->nout); break; default: break; }
    return (c->err_to_out ? e : Str()) + o;
  }
  size_t vol(Co *c) { bool u = false; return out_of(c, 1, u).size() + c->nerr; }
  bool input_final(Co *c) {
    if (!c->reads_all()) return true;
    if (c->in.type == 1) { if (c->extra.type == 2) return finishable(c->extra.up); return c->fd[0] < 0 && !c->gaveaway[0]; }
    if (c->in.type == 2) return finishable(c->in.up);
    return true;
  }
  bool finishable(Co *c) { if (c->waited || c->killed) return true; if (c->loops) return false; return input_final(c); }
  bool depends(Co *c, Co *on) { if (c == on) return true; if (c->in.type == 2 && depends(c->in.up, on)) return true; if (c->extra.type == 2 && depends(c->extra.up, on)) return true; return false; }
  bool managed(Co *c) { return !c->waited && (c->fd[0] >= 0 || c->fd[1] >= 0 || c->fd[2] >= 0); }
  int status_of(Co *c) { if (c->missing || c->empty) return 127; if (c->killed) return 128 + 9; if (c->ks) return c->ks == SIGPIPE ? 0 : 128 + c->ks; return c->xs; }
  std::set<int> managed_pipes() { std::set<int> s; auto t = fd_table(K->cur.get()); for (auto &c : co) for (int i = 0; i < 3; i++) if (c->fd[i] >= 0) s.insert(t[c->fd[i]].pipe); return s; }
  void broke(Co *c) { c->fragile = true; c->fuzzy = true; taint(c); }
  void taint(Co *c) { for (auto &d : co) if (d.get() != c && depends(d.get(), c)) { d->fuzzy = true; } for (Co *u = c; u; u = u->in.type == 2 ? u->in.up : nullptr) { u->fragile = true; if (u->extra.type == 2) u->extra.up->fragile = true; } }

  void fds_ok(const char *when) {
    auto t = fd_table(K->cur.get());
    for (auto &x : t) if (!expect.count(x.first)) CHECK("C04", "fd-leak", false, "%s descriptor %d (%s) is open in the caller and should not be", when, x.first, x.second.pipe ? "a pipe end" : x.second.path.c_str());
    for (auto &x : expect) { auto it = t.find(x.first); if (it == t.end()) CHECK("C03,C04", "fd-closed", false, "%s descriptor %d of the caller is closed", when, x.first); else CHECK("C03,C04", "fd-changed", it->second.oid == x.second, "%s descriptor %d of the caller refers to something else", when, x.first); }
  }
  void refresh() { expect.clear(); for (auto &x : fd_table(K->cur.get())) expect[x.first] = x.second.oid; }
  void kills_ok() {
    for (; kills_seen < K->kills.size(); kills_seen++) {
      auto &k = K->kills[kills_seen]; Co *c = nullptr; for (auto &x : co) if (x->serial == k.target_serial && k.target_serial) c = x.get();
      if (k.sig == 0) continue;
      CHECK("C06", "kill-stranger", k.pid > 0 && c, "signal %d was sent to process %d, which %s", k.sig, k.pid, k.target_serial ? "the library did not start" : "does not exist");
      CHECK("C06", "kill-unmanaged", in_shutdown && c && managed(c), "signal %d was sent to process %d, which is not managed", k.sig, k.pid);
    }
    for (; waits_seen < K->waits.size(); waits_seen++) {
      auto &w = K->waits[waits_seen]; int ser = w.reaped_serial ? w.reaped_serial : w.target_serial; Proc *p = ser ? K->bySerial(ser) : nullptr;
      CHECK("C06", "wait-stranger", !p || !p->foreign, "the library waited for process %d, which it did not start", w.pid);
      if (w.err == ECHILD && w.pid == own_pid) own_pid = 0; // once: that is how the library learns of it
      else if (w.err == ECHILD) CHECK("C06", "wait-reaped", false, "the library waited for process %d, which is not there any more", w.pid);
    }
  }
  void execs_ok() {
    for (auto &w : wants) {
      if (w.checked) continue;
      std::vector<Exec *> ex; for (auto &e : K->execs) if (e.serial == w.serial) ex.push_back(&e);
      if (ex.empty()) { Proc *p = K->bySerial(w.serial); if (p && p->state != Proc::RUN && p->died_sig != SIGKILL) { w.checked = true; CHECK("C03", "no-exec", w.none, "process %d ended without running %s", p->pid, w.file.c_str()); } continue; }
      w.checked = true; Exec &e = *ex[0];
      CHECK("C03", "exec-twice", ex.size() == 1 && !w.none, "the command was started %zu times", ex.size());
      CHECK("C03", "exec-args", e.file == w.file && e.argv == w.argv, "the command line gave %zu arguments for %s, expected %zu for %s", e.argv.size(), e.file.c_str(), w.argv.size(), w.file.c_str());
      int n = 0; for (auto &c : cb) if (c.serial == w.serial) n++;
      CHECK("C03", "callback", n == (w.cb ? 1 : 0), "the callback ran %d times in the child", n);
      static const char *nm[] = {"standard input", "standard output", "standard error"};
      for (int i = 0; i < 3; i++) {
        auto it = e.fds.find(i); bool open = it != e.fds.end(); auto &s = w.s[i];
        switch (s.k) {
          case 0: CHECK("C03", "stream", !open, "%s of %s should be closed", nm[i], w.file.c_str()); break;
          case 1: CHECK("C03", "stream", open && it->second.oid == s.oid, "%s of %s is not the expected descriptor", nm[i], w.file.c_str()); break;
          case 2: CHECK("C03", "stream", open && it->second.pipe == s.oid && it->second.kind == (i ? K_PIPE_W : K_PIPE_R), "%s of %s is not the new pipe", nm[i], w.file.c_str()); break;
          case 3: CHECK("C03", "stream", open && it->second.kind == K_NULL && ((it->second.flags & O_ACCMODE) == O_RDWR || (it->second.flags & O_ACCMODE) == (i ? O_WRONLY : O_RDONLY)), "%s of %s is not the null device", nm[i], w.file.c_str()); break;
          case 4: { auto o = e.fds.find(1); CHECK("C03", "stream", o == e.fds.end() || (open && it->second.oid == o->second.oid), "standard error of %s is not joined to its standard output", w.file.c_str()); break; }
        }
      }
      for (auto &x : e.fds) if (x.first > 2 && x.second.pipe && w.managed.count(x.second.pipe)) CHECK("C04", "inherited-pipe", false, "%s was started with descriptor %d, an end of a pipe of a coprocess", w.file.c_str(), x.first);
      for (auto &s : w.s) if (s.k == 1 && s.given > 2) { auto it = e.fds.find(s.given); CHECK("C04", "supplied-twice", it == e.fds.end() || it->second.oid != s.oid || w.cb, "%s was started with the descriptor %d that was supplied for a standard stream still open", w.file.c_str(), s.given); }
      probe("exec-checked");
    }
  }
  void settle(const char *when) { fds_ok(when); kills_ok(); execs_ok(); for (auto &c : cb) CHECK("C03", "callback-parent", c.pid != K->procs[0]->pid, "the callback ran in the caller"); for (auto &x : ex) CHECK("C03", "exit-in-child", false, "the exit handlers of the caller ran in process %d, which was to become a command", x.pid); }
  void reaped(Co *c, const char *how) {
    Proc *p = K->bySerial(c->serial);
    CHECK("C05", "not-reaped", p->state == Proc::GONE && p->reaped == 1, "after %s process %d is still %s", how, c->pid, p->state == Proc::RUN ? "running" : "a zombie");
    c->waited = true;
    if (!c->killed && c->reads_all() && !c->fragile && !c->fuzzy) { bool u = false; Str in = input_of(c, u); if (!u) CHECK("C03", "coprocess-input", p->stdin_seen == in, "the coprocess read %zu bytes, %zu were sent", p->stdin_seen.size(), in.size()); }
    if (!c->sinkfile.empty() && !c->fragile && !c->fuzzy) { bool u = false; Str o = out_of(c, 1, u); if (!u) CHECK("C03", "coprocess-file", readfile(c->sinkfile) == o, "the output file holds %zu bytes instead of %zu", readfile(c->sinkfile).size(), o.size()); }
  }
  void check_status(Co *c, int st, const char *how) {
    int w = status_of(c);
    CHECK("C05", "status", st == w || (c->fragile && st == 0), "%s of a command that ended with %d reported %d", how, w, st);
    probe(w == 0 ? "status-0" : w == 127 ? "status-127" : w > 128 ? "status-signal" : "status-code");
  }

  // ---- operations
  Co *any(std::function<bool(Co *)> f) { std::vector<Co *> v; for (auto &c : co) if (f(c.get())) v.push_back(c.get()); return v.empty() ? nullptr : v[draw(v.size())]; }
  void mkcmd(Co *c, bool allow_loop) {
    switch (draw(14)) { case 12: c->missing = true; break; case 13: c->empty = true; break; default: break; }
    if (c->empty) { static const char *e[] = {"", " ", " \t "}; c->cmdline = e[draw(3)]; return; }
    struct N { const char *q, *n; }; static const N names[] = {{"cmd", "cmd"}, {"filter", "filter"}, {"/usr/bin/tool", "/usr/bin/tool"}, {"'a b'", "a b"}, {"\"a b\"", "a b"}, {"-x", "-x"}, {"a\\ b", "a b"}};
    if (c->missing) { c->name = "nosuch"; c->cmdline = "nosuch"; } else { auto &n = names[draw(7)]; c->name = n.n; c->cmdline = n.q; }
    auto add = [&](const Str &a) { c->args.push_back(a); Str q; switch (draw(4)) { case 1: q = "'" + a + "'"; break; case 2: q = "\"" + a + "\""; break; default: q = a; } if (a.find(' ') != Str::npos || a.empty()) q = "'" + a + "'"; c->cmdline += (draw(4) ? " " : "  ") + q; };
    if (draw(5) == 0) { static const char *noop[] = {"", "=x y", "-n", "=a=b"}; add(noop[draw(4)]); }
    if (draw(60) == 0) { static const int ks[] = {8, 15, 16, 17, 60, 300, 2000}; int k = ks[draw(7)]; while (k--) add("-n"); probe("many-arguments"); }
    if (draw(80) == 0) { static const int ks[] = {60, 255, 256, 1023, 4096, 40000}; add("-" + Str(ks[draw(6)] + draw(2), 'n')); probe("long-argument"); }
    if (draw(8) == 0) add("T");
    if (draw(4) == 0) add(fmt("%c%u", draw(3) ? 'z' : 't', 1 + draw(20)));
    if (draw(3) == 0) { c->nerr = 1 + draw(200); add(fmt("e%d", c->nerr)); }
    switch (draw(allow_loop ? 9 : 8)) { case 0: case 1: case 2: add("C"); break; case 3: c->body = 'E'; add("A"); add("E"); break; case 4: c->body = 'V'; add("A"); add("V"); break; case 5: c->body = 'D'; c->k = 2; add("D2"); break; case 6: c->body = 'W'; c->nout = draw(300); add(fmt("W%d", c->nout)); break; case 7: c->body = draw(2) ? 'A' : 'N'; if (c->body == 'A') add("A"); break; default: c->body = 'N'; c->loops = true; add("L"); }
    if (!c->loops && draw(6) == 0) add(fmt("t%u", 1 + draw(20)));
    if (!c->loops) switch (draw(4)) { case 1: c->xs = anystatus(); if (draw(20) == 0) c->xs = 0; add(fmt("X%d", c->xs)); break; case 2: { c->ks = anysignal(); add(fmt("K%d", c->ks)); break; } default: break; }
    if (draw(6) == 0) c->cmdline = " " + c->cmdline + " ";
  }
  void op_open() {
    if (co.size() > 30) return;
    int live = 0; for (auto &c : co) if (!c->waited) live++; if (live > 6) return;
    auto u = std::make_unique<Co>(); Co *c = u.get(); c->id = co.size(); mkcmd(c, true);
    int flags = 0; int pin = -1, pout = -1, perr = -1; int *ip = &pin, *op = &pout, *ep = &perr; Want w; Co *up = nullptr, *down = nullptr; int give[3] = {-1, -1, -1};
    auto tab = fd_table(K->cur.get());
    for (int i = 0; i < 3; i++) { auto it = tab.find(i); w.s[i].k = it == tab.end() ? 0 : 1; w.s[i].oid = it == tab.end() ? 0 : it->second.oid; }
    std::vector<AppFd> gone;
    // standard input
    switch (draw(5)) {
      case 0: case 1: flags |= PR_CREATE_STDIN; w.s[0].k = 2; c->in.type = 1; break;
      case 2: { flags |= PR_USE_STDIN; uint32_t k = draw(4);
        if (k == 0) { pin = 0; if (draw(2)) ip = nullptr; w.s[0].k = 3; break; }
        Co *a = k == 1 ? nullptr : any([&](Co *x) { return x->fd[1] >= 0 && x->got.empty() && !x->eof_seen && vol(x) < 1200 && x->extra.type != 2; });
        if (a) { up = a; pin = a->fd[1]; c->in.type = 2; c->in.up = a; if (a->killed || a->waited) {} }
        else { std::vector<AppFd> v; for (auto &x : app) if (x.kind == 0 && x.fd > 0) v.push_back(x); if (v.empty()) { pin = 0; w.s[0].k = 3; break; } AppFd x = v[draw(v.size())]; pin = x.fd; c->in.type = 3; c->in.text = x.text; gone.push_back(x); }
        w.s[0].k = 1; w.s[0].oid = tab[pin].oid; give[0] = pin; break; }
      default: { auto it = tab.find(0); c->in.type = 3; if (it != tab.end() && it->second.kind != K_SINK && it->second.kind != K_NULL) c->in.unknown = true; }
    }
    // standard output and error
    auto use_out = [&](int i, int *&p, int &v) {
      uint32_t k = draw(5);
      if (k == 0) { v = 0; if (draw(2)) p = nullptr; w.s[i].k = 3; return; }
      if (k == 1 && i == 1) { Co *a = any([&](Co *x) { return x->fd[0] >= 0 && x->in.type == 1 && x->extra.type == 0 && !x->loops && x->reads_all() && !x->fragile && !x->waited; }); if (a && a != up && !(up && depends(up, a))) { c->extra = Input(); Str keep = a->in.text; if (a->in.text.size() + vol(c) + (up ? vol(up) * 2 : 0) + c->in.text.size() * 2 < 600) { down = a; v = a->fd[0]; w.s[i].k = 1; w.s[i].oid = tab[v].oid; give[i] = v; return; } } }
      std::vector<AppFd> s; for (auto &x : app) if (x.kind == 1 && x.fd > 0 && x.fd != give[1]) s.push_back(x);
      if (s.empty()) { v = 0; w.s[i].k = 3; return; }
      AppFd x = s[draw(s.size())]; v = x.fd; w.s[i].k = 1; w.s[i].oid = tab[v].oid; give[i] = v; gone.push_back(x); if (i == 1 && x.fd > 2) c->sinkfile = x.path;
    };
    switch (draw(5)) { case 0: case 1: flags |= PR_CREATE_STDOUT; w.s[1].k = 2; break; case 2: flags |= PR_USE_STDOUT; use_out(1, op, pout); break; default: break; }
    switch (draw(7)) {
      case 0: flags |= PR_CREATE_STDERR; w.s[2].k = 2; break;
      case 1: flags |= PR_USE_STDERR; if ((flags & PR_USE_STDOUT) && pout > 0 && draw(2)) { perr = pout; w.s[2] = w.s[1]; c->err_to_out = true; } else use_out(2, ep, perr); break;
      case 2: flags |= PR_STDERR_TO_STDOUT; w.s[2].k = 4; c->err_to_out = true; break;
      default: break;
    }
    if (!(flags & PR_CREATE_STDIN) && draw(3) == 0 && !(flags & PR_USE_STDIN)) ip = nullptr;
    // a program that cannot write its output stops early
    if (w.s[1].k == 0) c->fragile = c->fuzzy = true;
    if (w.s[1].k == 1) for (auto &x : tab) if (x.second.oid == w.s[1].oid && (x.second.kind == K_PIPE_R || (x.second.kind != K_PIPE_W && (x.second.flags & O_ACCMODE) == O_RDONLY))) c->fragile = c->fuzzy = true;
    // data from the standard streams of the caller: files or pipes that the simulated console is not
    w.file = c->name; if (!c->empty) { w.argv.push_back(c->name); for (auto &a : c->args) w.argv.push_back(a); } w.none = c->empty; w.co = c;
    w.managed = managed_pipes(); c->cb = w.cb = draw(4) == 0; c->cmdline += "";
    TR("open %d: \"%s\" flags 0x%x use %d %d %d%s", c->id, c->cmdline.c_str(), flags, pin, pout, perr, w.cb ? " with callback" : "");
    sample_op("pr-open"); if (up || down) probe("pipeline"); if (w.s[0].k == 3 || w.s[1].k == 3 || w.s[2].k == 3) probe("null-device");
    if (!tab.count(0) || !tab.count(1) || !tab.count(2)) probe("standard-stream-closed");
    int s0 = last_serial(), gin = pin, gout = pout, gerr = perr;
    { Buf b(c->cmdline, true); c->pid = w.cb ? pr_open2(b.p, callback, flags, ip, op, ep) : draw(2) ? pr_open2(b.p, nullptr, flags, ip, op, ep) : pr_open(b.p, flags, ip, op, ep); }
    Proc *p = lib_child_since(s0); CHECK("C03", "no-process", p && p->pid == c->pid && !lib_child_since(s0, 1), "pr_open returned process number %d, process %d was started", c->pid, p ? p->pid : 0);
    if (!p) return;
    c->serial = w.serial = p->serial; for (int i = 0; i < 3; i++) w.s[i].given = give[i];
    for (int i = 0; i < 3; i++) if (give[i] >= 0) { expect.erase(give[i]); }
    for (auto &x : gone) for (size_t i = 0; i < app.size(); i++) if (app[i].fd == x.fd) { app.erase(app.begin() + i); break; }
    if (up) { up->fd[1] = -1; up->gaveaway[1] = true; if (!c->reads_all()) broke(up), c->fuzzy = true; if (c->missing || c->empty || c->fragile || c->fuzzy) broke(up); }
    if (down) { down->gaveaway[0] = true; down->fd[0] = -1; down->extra.type = 2; down->extra.up = c; if (c->err_to_out == false && (flags & PR_USE_STDERR) && perr == pout) c->err_to_out = true; }
    (void)gin; (void)gout; (void)gerr;
    auto now = fd_table(K->cur.get());
    for (int i = 0; i < 3; i++) if (w.s[i].k == 2) {
      int fd = i == 0 ? pin : i == 1 ? pout : perr; auto it = now.find(fd);
      CHECK("C03", "created-stream", it != now.end() && it->second.pipe && it->second.kind == (i ? K_PIPE_R : K_PIPE_W) && !expect.count(fd), "descriptor %d handed out for stream %d is not a new pipe end", fd, i);
      if (it == now.end()) return;
      c->fd[i] = fd; expect[fd] = it->second.oid; w.s[i].oid = it->second.pipe; w.managed.insert(it->second.pipe);
    }
    // streams inherited by file or pipe of the caller: what is read from them is not modelled
    if (flags & PR_STDERR_TO_STDOUT) {}
    wants.push_back(w); co.push_back(std::move(u));
    // an application pipe or file sits at the inherited standard input
    settle("after pr_open");
  }
  void op_write() {
    Co *c = any([&](Co *x) { return x->fd[0] >= 0 && x->in.type == 1 && x->reads_all() && !x->fragile && !x->fuzzy && !x->killed && !x->waited && vol(x) < 400 && x->in.text.size() < 300 && !bounded(x); });
    if (!c) return;
    Str s = bytes(1 + draw(80), draw(100)); AppScope a; sample_op("co-write");
    ssize_t n = sim_write(c->fd[0], s.data(), s.size()); CHECK("C03,C04", "co-write", n == (ssize_t)s.size(), "writing to a coprocess gave %ld", (long)n); c->in.text += s;
  }
  bool bounded(Co *x) { for (auto &d : co) if (d.get() != x && depends(d.get(), x) && (vol(d.get()) > 600 || d->fragile || !d->reads_all())) return true; return false; }
  void op_read() {
    Co *c = any([&](Co *x) { return (x->fd[1] >= 0 || x->fd[2] >= 0) && finishable(x) && !x->eof_seen; });
    if (!c) return;
    int i = c->fd[1] < 0 ? 2 : c->fd[2] < 0 ? 1 : 1 + draw(2); if (i == 2 && c->fd[2] < 0) return;
    bool all = draw(3); sample_op("co-read");
    Str &g = i == 1 ? c->got : c->goterr; bool eof = false; char b[512];
    do { AppScope a; ssize_t n = sim_read(c->fd[i], b, 1 + draw(511)); if (n < 0) { if (errno == EINTR) continue; return; } if (n == 0) { eof = true; break; } g.append(b, n); } while (all);
    bool u = false; Str o = out_of(c, i, u); if (i == 1) c->eof_seen |= eof;
    if (!u) CHECK("C03", "co-read", o.compare(0, g.size(), g) == 0 && (!eof || g.size() == o.size()), "the coprocess wrote %zu bytes, %zu were read%s", o.size(), g.size(), eof ? " up to the end" : "");
  }
  // closing a descriptor of c: what others lose by it
  void closed(Co *c, int i) { expect.erase(c->fd[i]); c->fd[i] = -1; if (i && !c->eof_seen) { c->fragile = true; if (i == 1 || i == 2) { c->fuzzy = true; taint(c); } } }
  void op_close_nowait() {
    Co *c = any([&](Co *x) { return x->fd[0] >= 0 || x->fd[1] >= 0 || x->fd[2] >= 0; }); if (!c) return;
    int i = draw(3); while (c->fd[i] < 0) i = (i + 1) % 3;
    sample_op("pr-close-nowait"); TR("close_nowait %d of %d", i, c->id);
    int fd = c->fd[i]; closed(c, i); int r = pr_close_nowait(fd);
    CHECK("C05,C06", "close-pid", r == c->pid, "pr_close_nowait returned %d for process %d", r, c->pid);
    settle("after pr_close_nowait");
  }
  void op_close() {
    Co *c = any([&](Co *x) { return (x->fd[0] >= 0 || x->fd[1] >= 0 || x->fd[2] >= 0); }); if (!c) return;
    int i = draw(3); while (c->fd[i] < 0) i = (i + 1) % 3;
    bool was = c->waited; int keep = c->fd[i];
    if (!was) { int f = c->fd[i]; c->fd[i] = -1; bool ok = finishable(c) && (c->in.type != 1 || c->fd[0] < 0); c->fd[i] = f; if (!ok) return; }
    sample_op(was ? "pr-close-again" : "pr-close"); TR("close %d of %d", i, c->id);
    closed(c, i); okwait.insert(c->serial);
    int st = pr_close(keep);
    if (!was) { check_status(c, st, "pr_close"); reaped(c, "pr_close"); }
    settle("after pr_close");
  }
  void op_wait() {
    Co *c = any([&](Co *x) { return !x->waited && finishable(x); }); if (!c) return;
    sample_op("pr-wait"); TR("wait for %d", c->id);
    int st = pr_wait(c->pid); check_status(c, st, "pr_wait"); reaped(c, "pr_wait"); settle("after pr_wait");
  }
  // the caller collects the status itself; the library is then told that there is nothing left to wait for
  int own_pid = 0;
  void op_self() {
    Co *c = any([&](Co *x) { return !x->waited && finishable(x); }); if (!c) return;
    sample_op("pr-wait-own"); TR("the caller itself waits for %d", c->id);
    { AppScope a; int st = 0, r; while ((r = sim_waitpid(c->pid, &st, 0)) < 0 && errno == EINTR); CHECK("C05", "own-wait", r == c->pid, "a coprocess of the caller is not its child (%d)", r); }
    int i = draw(4), st; bool nowait = false; own_pid = c->pid;
    if (i < 3 && c->fd[i] >= 0) { int fd = c->fd[i]; closed(c, i); nowait = draw(3) == 0; st = nowait ? pr_wait(pr_close_nowait(fd)) : pr_close(fd); } else st = pr_wait(c->pid);
    CHECK("C05", "status", st == 0, "%s of a process that the caller has waited for reported %d", i < 3 ? "pr_close" : "pr_wait", st);
    c->waited = true; probe("caller-waited"); settle("after a wait for nothing"); own_pid = 0;
  }
  void op_filter() {
    Str in = bytes(draw(3) ? draw(300) : 0, draw(50)); Want w; auto tab = fd_table(K->cur.get()); w.managed = managed_pipes(); w.file = "cmd"; w.argv = {"cmd", "C"};
    w.s[0].k = w.s[1].k = 2; w.s[2].k = tab.count(2) ? 1 : 0; w.s[2].oid = tab.count(2) ? tab[2].oid : 0;
    Buf ib(in, false); Str room(400, 0); Buf ob(room, false); int s0 = last_serial(); sample_op("pr-filter");
    int n = pr_filter("cmd C", ib.p, in.size(), ob.p, 400);
    CHECK("C03,C04,C05", "filter", n == (int)in.size() && !memcmp(ob.p, in.data(), n), "a filter returned %d bytes of %zu", n, in.size());
    Proc *p = lib_child_since(s0); if (!p) return; w.serial = p->serial; CHECK("C05", "not-reaped", p->state == Proc::GONE, "the filter process is left");
    for (auto &e : K->execs) if (e.serial == p->serial) for (int i = 0; i < 2; i++) { auto it = e.fds.find(i); w.s[i].oid = it == e.fds.end() ? 0 : it->second.pipe; for (auto &x : e.fds) if (x.second.pipe && it != e.fds.end() && x.second.pipe == it->second.pipe) w.managed.insert(x.second.pipe); }
    wants.push_back(w); settle("after pr_filter");
  }
  void op_spawn() {
    auto u = std::make_unique<Co>(); Co *c = u.get(); mkcmd(c, false); auto tab = fd_table(K->cur.get());
    if (c->reads_all() && tab.count(0) && tab[0].kind == K_PIPE_R) return;
    Want w; w.file = c->name; if (!c->empty) { w.argv.push_back(c->name); for (auto &a : c->args) w.argv.push_back(a); } w.none = c->empty; w.managed = managed_pipes();
    for (int i = 0; i < 3; i++) { w.s[i].k = tab.count(i) ? 1 : 0; w.s[i].oid = tab.count(i) ? tab[i].oid : 0; }
    int s0 = last_serial(); sample_op("pr-spawn"); TR("spawn \"%s\"", c->cmdline.c_str());
    int st; { Buf b(c->cmdline, true); st = pr_spawn(b.p); }
    Proc *p = lib_child_since(s0); CHECK("C03", "no-process", p != nullptr, "pr_spawn started no process"); if (!p) return;
    w.serial = c->serial = p->serial; c->pid = p->pid; c->fragile = false; c->in.type = 3;
    check_status(c, st, "pr_spawn"); CHECK("C05", "not-reaped", p->state == Proc::GONE && p->reaped == 1, "after pr_spawn the process is left");
    wants.push_back(w); settle("after pr_spawn");
  }
  void op_app() {
    AppScope a; Str path = fmt("/f%d", files++);
    switch (draw(inherits ? 10 : 7)) {
      case 8: case 9: case 0: { int f[2]; if (sim_pipe(f)) return; Str s = bytes(draw(100), draw(50)); if (s.size()) sim_write(f[1], s.data(), s.size()); sim_close(f[1]); app.push_back({f[0], 0, s, ""}); break; }
      case 1: { Str s = bytes(draw(200), draw(50)); K->mkfile(path, s); int f = sim_open(path.c_str(), O_RDONLY); app.push_back({f, 0, s, path}); break; }
      case 2: { int f = sim_open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); app.push_back({f, 1, "", path}); break; }
      case 7: { if (app.empty()) return; auto &x = app[draw(app.size())]; if (x.fd <= 2) return; /* earlier children have it as a standard stream and may have used it */ static const int hs[] = {64, 65, 70, 100, 1000, 1024, 4000}; int h = hs[draw(7)], was = cfg.open_max; cfg.open_max = 5000; int f = sim_fcntl(x.fd, F_DUPFD, h); cfg.open_max = was; if (f < 0) return; sim_close(x.fd); x.fd = f; TR("the caller holds descriptor %d, above its limit", f); probe("inherited-above-limit"); break; }
      case 3: case 4: { int k = draw(3); if (draw(2) && K->cur->fds.count(k)) { TR("the caller closes %d", k); for (size_t i = 0; i < app.size(); i++) if (app[i].fd == k) { app.erase(app.begin() + i); break; } sim_close(k); } break; }
      case 5: spawn_foreign(draw(2) ? "X4" : "z2 X5", draw(2)); if (draw(2)) { probe("foreign-child"); } return;
      default: if (app.size()) { size_t i = draw(app.size()); sim_close(app[i].fd); app.erase(app.begin() + i); }
    }
    refresh();
  }
  // a descriptor that no coprocess owns
  // flags that contradict each other or mean nothing: refused before anything is made or started
  void op_badflags() {
    static const int bad[] = {PR_USE_STDIN | PR_CREATE_STDIN, PR_USE_STDOUT | PR_CREATE_STDOUT, PR_USE_STDERR | PR_CREATE_STDERR, PR_STDERR_TO_STDOUT | PR_CREATE_STDERR, PR_STDERR_TO_STDOUT | PR_USE_STDERR, PR_STDERR_TO_STDOUT | PR_USE_STDERR | PR_CREATE_STDERR};
    int all = 0; for (int b : bad) all |= b;
    int f = bad[draw(6)]; if (draw(3) == 0) { f = 1 << draw(31); while (f & all) f <<= 1; if (draw(4) == 0) f = INT_MIN; f |= draw(2) ? PR_CREATE_STDIN : 0; if (draw(2)) f |= PR_CREATE_STDOUT; }
    else { // other streams may be asked for as well
      if (!(f & (PR_USE_STDIN | PR_CREATE_STDIN)) && draw(2)) f |= PR_CREATE_STDIN;
      if (!(f & (PR_USE_STDOUT | PR_CREATE_STDOUT)) && draw(2)) f |= PR_CREATE_STDOUT; }
    TR("start with the flags %#x", f); size_t n = K->procs.size(); int fd[3] = {0, 1, 2}, w[3] = {0, 1, 2}; static int called; called = 0;
    bool d = dies([&] { if (draw(2)) pr_open("nothing", f, &fd[0], &fd[1], &fd[2]); else pr_open2("nothing", [] { called++; }, f, &fd[0], &fd[1], &fd[2]); }, 1);
    CHECK("C03", "bad-flags", d, "a coprocess with the flags %#x is not refused", f);
    CHECK("C03", "bad-flags", K->procs.size() == n && !called && !memcmp(fd, w, sizeof fd), "a coprocess with the flags %#x was refused, but only after something had been done", f);
    probe("bad-flags-refused"); settle("after refused flags");
  }
  void op_misuse() {
    if (draw(2)) return op_badflags();
    static const int odd[] = {-1, -2, 63, 64, 65, 1200, 5000, 100000, INT_MAX, INT_MIN}; int f = draw(3) ? odd[draw(10)] : (int)draw(cfg.open_max);
    for (auto &c : co) for (int i = 0; i < 3; i++) if (c->fd[i] == f) return;
    uint32_t k = draw(2); TR("close %d, which no coprocess owns", f);
    bool d = dies([&] { if (k) pr_close(f); else pr_close_nowait(f); }, 1); CHECK("C04", "close-stranger", d, "closing descriptor %d, which no coprocess owns, is not refused", f);
    probe("close-stranger"); settle("after a refused close");
  }
  void op_shutdown() {
    sample_op("shutdown"); TR("shutdown");
    std::vector<Co *> m, d; for (auto &c : co) { if (managed(c.get())) m.push_back(c.get()); else if (!c->waited) d.push_back(c.get()); }
    std::map<int, int> before; for (Co *c : d) before[c->serial] = K->bySerial(c->serial)->died_sig;
    in_shutdown = true; uint64_t k0 = K->kills.size(); (void)k0;
    // those that are killed stop feeding the others
    maa_shutdown();
    kills_ok(); in_shutdown = false;
    for (Co *c : m) { Proc *p = K->bySerial(c->serial); CHECK("C06", "shutdown-left", p->state == Proc::GONE && p->reaped == 1, "after shutdown process %d, which was managed, is %s", c->pid, p->state == Proc::RUN ? "still running" : p->state == Proc::ZOMBIE ? "a zombie" : "gone unreaped"); c->killed = true; c->fragile = c->fuzzy = true; c->waited = true; taint(c); if (m.size()) probe("shutdown-killed"); }
    for (Co *c : d) { Proc *p = K->bySerial(c->serial); bool hit = false; for (auto &k : K->kills) if (k.target_serial == c->serial) hit = true; CHECK("C06", "shutdown-detached", !hit && p->reaped == 0, "shutdown did not leave the detached process %d alone", c->pid); probe("shutdown-detached"); }
    // descriptors that were handed out stay with the caller
    for (auto &c : co) for (int i = 0; i < 3; i++) if (c->fd[i] >= 0) { AppScope a; if (draw(2)) { sim_close(c->fd[i]); } c->fd[i] = -1; c->fragile = c->fuzzy = true; taint(c.get()); }
    for (auto &c : co) { c->fragile = c->fuzzy = true; }
    // the rest cannot be given a certain end any more unless it is detached and finite
    for (auto &c : co) if (!c->waited && c->in.type == 1 && c->reads_all()) c->loops = true;
    refresh(); execs_ok();
    if (draw(2)) maa_init("again");
  }
  void main() override {
    init_tables(); if (draw(3)) { maa_init("coprocesses"); if (draw(8) == 0) talks(); } if (draw(2)) { AppScope a; sim_atexit(exit_handler); } refresh();
    for (uint32_t i = 0; i < nops; i++) {
      if (base && i == crowd_at) crowd();
      switch (draw(24)) {
        case 0: case 1: case 2: case 3: case 4: case 5: op_open(); break;
        case 6: case 7: case 8: op_write(); break;
        case 9: case 10: op_read(); break;
        case 11: case 12: op_close_nowait(); break;
        case 13: case 14: case 15: op_close(); break;
        case 16: case 17: if (draw(4)) op_wait(); else op_self(); break;
        case 18: op_filter(); break;
        case 19: op_spawn(); break;
        case 20: case 21: case 22: op_app(); break;
        default: if (draw(3) == 0) op_shutdown(); else if (draw(2)) op_misuse();
      }
    }
    // everything that can be finished is finished: no end of file may be held back by a leaked descriptor
    uint32_t fin = draw(3);
    if (fin) {
      for (auto &c : co) if (c->fd[0] >= 0) { int f = c->fd[0]; closed(c.get(), 0); pr_close_nowait(f); }
      for (auto &c : co) if (!c->waited && finishable(c.get())) { TR("finish %d", c->id); int st = pr_wait(c->pid); check_status(c.get(), st, "pr_wait"); reaped(c.get(), "pr_wait"); }
      settle("at the end");
    }
    if (fin != 1) op_shutdown();
    execs_ok();
  }
};
SCENARIO("C03,C04,C05,C06", "coprocesses", 3, Cops);

// ---------------------------------------------------------------- the system refuses something (C07)
struct Refuse : Scenario {
  static inline bool handler; static void at() { handler = true; TR("exit handler of the application runs"); }
  uint32_t nops = 1, arm_at = 0; bool armed = false; size_t inj0 = 0; Str logpat, logpath; bool log_f = false; Str pending; int no_name = 0;
  struct Held { int pid; int fd[3]; }; std::vector<Held> held;
  void configure() override { proc_cfg(true); nops = 1 + draw(6); arm_at = draw(nops); K->spin_limit = 400; cfg.jumps = {3600, -3600, 86400, 1}; static const uint32_t ps[] = {0, 0, 30}; cfg.p_short = ps[draw(3)]; }
  // the last failure that the main program met and has to report
  static const SysRec *must_report(size_t from) {
    const SysRec *r = nullptr; int me = K->procs[0]->pid;
    for (size_t i = from; i < K->injected.size(); i++) {
      auto &x = K->injected[i]; if (x.pid != me || x.made_good) continue;
      Str c = x.call;
      if (c == "pipe" || c == "dup" || c == "fork" || c == "select" || c == "read" || c == "open") r = &x;
      if (c == "write" && x.pipe && x.fd > 2) r = &x;
    }
    return r;
  }
  void arm() {
    armed = true; int nth = 1 + draw_size(4);
    auto any = [](std::initializer_list<int> u) { std::vector<int> v(u); if (draw(4) == 0) { int e = 1 + draw(40); if (e == EINTR || e == EAGAIN || e == ERANGE) e++; return e; } return v[draw(v.size())]; };
    Plan p; p.nth = nth;
    switch (draw(10)) {
      case 0: case 1: p.call = "pipe"; p.err = any({EMFILE, ENFILE, ENOMEM}); break;
      case 2: case 3: p.call = "fork"; p.err = draw(3) == 0 ? EAGAIN : any({ENOMEM, ENOSYS}); break;
      case 4: p.call = "select"; p.err = any({EINVAL, ENOMEM, EFAULT}); break;
      case 5: p.call = "read"; p.err = any({EIO, ENOMEM, EISDIR}); p.pipe_only = true; break;
      case 6: p.call = "write"; p.err = any({EIO, ENOSPC, EPIPE, ECONNRESET, EFBIG}); p.pipe_only = true; break;
      case 7: { p.call = "dup"; p.err = any({EMFILE, EINVAL}); break; }
      case 8: { // descriptors run out
        int left = draw(8), fr = 0; for (int i = 0; i < cfg.open_max; i++) fr += !K->cur->fds.count(i);
        AppScope a; for (; fr > left; fr--) sim_open("/dev/null", O_RDONLY); TR("%d descriptors are left", left); fault("descriptors-run-out"); return; }
      default: { // the log file cannot be opened
        K->deny_err[logdir_victim()] = any({EACCES, EISDIR, ENOSPC, ENOENT, EROFS, EMFILE, ENFILE, ELOOP, ENAMETOOLONG}); fault("log-path-denied"); return; }
    }
    K->plans.push_back(p);
  }
  Str logdir_victim() { Str e = expand(logpat); if (draw(3) == 0) { size_t s = e.rfind('/'); if (s) e.resize(s); } TR("opening %s will fail", e.c_str()); return e; }
  Str expand(const Str &pat) { time_t t = K->wall / 1000000; char b[400]; struct tm tm = *sim_localtime(&t); strftime(b, sizeof b, pat.c_str(), &tm); return b; }
  void op() {
    switch (draw(8)) {
      case 0: case 1: {
        Str in = bytes(io_size(), draw(1000)); if (in.size() > 30000 && cfg.p_rdchunk) cfg.p_rdchunk = 5; Body b = consumer(in, false); b.args = b.args.substr(0, b.args.find(" X")); b.args = b.args.substr(0, b.args.find(" K"));
        size_t cap = b.out.size() + 1 + draw(100); char *ib = (char *)app_block(in.size(), 0), *ob = (char *)app_block(cap, 0x55); if (in.size()) memcpy(ib, in.data(), in.size());
        sample_op("filter"); int n = pr_filter(("cmd " + b.args).c_str(), ib, in.size(), ob, cap);
        CHECK("C07", "carried-on-wrong", n == (int)b.out.size() && !memcmp(ob, b.out.data(), n), "the filter returned %d bytes instead of %zu", n, b.out.size());
        app_free(ib); app_free(ob); break; }
      case 2: case 3: { static const int fl[] = {PR_CREATE_STDIN, PR_CREATE_STDIN | PR_CREATE_STDOUT, PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_CREATE_STDERR, PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_STDERR_TO_STDOUT, PR_CREATE_STDIN | PR_USE_STDOUT | PR_CREATE_STDERR, PR_CREATE_STDOUT | PR_USE_STDIN, 0};
        int f = fl[draw(7)]; Held h{0, {-1, -1, -1}}; size_t s0 = K->procs.size(); sample_op("open");
        h.pid = pr_open("cmd C", f, (f & 0xff) && (f & PR_CREATE_STDIN) ? &h.fd[0] : nullptr, (f & PR_CREATE_STDOUT) ? &h.fd[1] : nullptr, (f & PR_CREATE_STDERR) ? &h.fd[2] : nullptr);
        CHECK("C07", "carried-on-wrong", K->procs.size() > s0 && h.pid > 0, "no process was started"); held.push_back(h); break; }
      case 4: { int x = draw(5); sample_op("spawn"); int r = pr_spawn(fmt("cmd X%d", x).c_str()); CHECK("C07", "carried-on-wrong", r == x, "pr_spawn returned %d instead of %d", r, x); break; }
      case 5: case 6: if (draw(2)) { K->jump(pick(cfg.jumps) * 1000000ll); TR("clock jumps"); } sample_op("log"); if (draw(2)) log_info("message %d", (int)draw(100)); else err_warning("rtn", "careful %d", (int)draw(100)); break;
      default: if (log_f) { log_file(nullptr, nullptr); log_f = false; } 
        else if (armed && draw(6) == 0) { // no file can have this name
          Str s; int k = draw(6); if (k) s = "/log"; if (k > 3) s += "/" + Str(256 + draw(1000), 'n'); else if (k) { size_t n = 4096 + draw(draw(2) ? 4 : 3000); while (s.size() < n) s += "/" + Str(40 + draw(200), 'n'); }
          no_name = k ? ENAMETOOLONG : ENOENT; TR("opening a log name of %zu characters", s.size()); fault("log-name-impossible"); sample_op("log-open"); char *b = (char *)app_block(s.size() + 1, 0); memcpy(b, s.c_str(), s.size() + 1); log_file("ident", b);
          viol("carried-on", "a log file with a name of %zu characters was opened", s.size()); no_name = 0;
        }
        else { sample_op("log-open"); log_file("ident", logpat.c_str()); log_f = true; }
    }
  }
  void main() override {
    init_tables(); handler = false; K->mkdirs("/log");
    int prog = draw(3); if (prog) { maa_init("refuse"); if (draw(6) == 0) talks(); }
    { AppScope a; sim_atexit(at); if (draw(2)) sim_signal(SIGPIPE, SIG_IGN); if (draw(6) == 0) sim_close(draw(2) ? 0 : 2); else if (draw(6) == 0) sim_close(1); if (draw(2)) { pending = "pending output"; sim_printf("%s", pending.c_str()); } }
    static const char *pats[] = {"/log/plain", "/log/x%H%M", "/log/a/b/%j", "/log/%Y%m%d"}; logpat = pats[draw(4)];
    if (draw(2)) { log_file("ident", logpat.c_str()); log_f = true; }
    if (draw(4) == 0) { FILE *st = sim_stdout; if (draw(2)) { AppScope a; st = sim_fopen("/log/stream", "a"); } log_stream("sident", st); }
    if (draw(4) == 0) log_syslog("sysident");
    if (draw(6) == 0) K->disk_free = draw(100); // log messages may be lost, nothing else
    for (uint32_t i = 0; i < nops; i++) {
      if (i == arm_at) arm();
      size_t n0 = K->injected.size(); op();
      // whoever returns has not met a failure
      const SysRec *r = must_report(n0);
      if (r) viol("carried-on", "%s failed with %s and the operation returned as if nothing had happened", r->call, strerrorname_np(r->err));
    }
    K->plans.clear(); K->deny_err.clear();
    for (auto &h : held) if (draw(2)) { if (h.fd[0] >= 0) pr_close_nowait(h.fd[0]); } // the rest is killed at shutdown
    size_t n0 = K->injected.size(); maa_shutdown();
    if (prog == 0) log_close();
    if (const SysRec *r = must_report(n0)) viol("carried-on", "%s failed with %s and shutdown went on as if nothing had happened", r->call, strerrorname_np(r->err));
  }
  void after() override {
    const SysRec *r = must_report(0); SysRec nn{}; if (!r && no_name) { nn.call = "open"; nn.err = no_name; r = &nn; }
    if (!r) { if (R.out == O_EXIT) viol_sched("exit-without-failure", fmt("the program ended with status %d although no system call failed: %s", R.code, quote(K->console2, 300).c_str())); else end_as(O_RETURN); return; }
    Str what = fmt("%s failed with %s", r->call, strerrorname_np(r->err)); sample_op("failure-reported");
    if (R.out != O_EXIT || R.code != 1) { viol_sched("refused-ending", what + fmt("; the program ended by %s %d instead of exit with status 1", outcome_name[R.out], R.code)); return; }
    if (!handler) { viol_sched("exit-handlers", what + "; the application's exit handler did not run"); return; }
    auto e = K->procs[0]->fds.find(2);
    if (e != K->procs[0]->fds.end() && e->second.o->kind == K_SINK) {
      Str tail = Str(": ") + strerror(r->err) + "\n"; const Str &c = K->console2;
      if (c.size() < tail.size() || c.compare(c.size() - tail.size(), tail.size(), tail)) viol_sched("refused-message", what + "; standard error ends with " + quote(c.size() > 200 ? c.substr(c.size() - 200) : c, 220));
    }
  }
};
SCENARIO("C07", "refused-calls", 1, Refuse);
}
