// The simulated operating system: descriptors, pipes, files, processes, signals, clocks, syslog.
#include "sim.h"
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <syslog.h>
#include <unistd.h>
#include <sys/times.h>
#include <sys/utsname.h>

namespace sim {
static const size_t SIM_PIPE_BUF = 4096;
static bool in_resume(Proc *p);

OFD::~OFD() {
  if (kind == K_PIPE_R) { pipe->readers--; if (K) K->progress++; }
  if (kind == K_PIPE_W) { pipe->writers--; if (K) K->progress++; }
}
Proc::~Proc() { if (h) h.destroy(); }

Proc *Kernel::byPid(int pid) {
  for (auto &p : procs) if (p->pid == pid && p->state != Proc::GONE) return p.get();
  return nullptr;
}
Proc *Kernel::bySerial(int s) { for (auto &p : procs) if (p->serial == s) return p.get(); return nullptr; }
ProcP Kernel::newProc(int ppid, int want) {
  auto p = std::make_shared<Proc>();
  if (want && !byPid(want)) {
    p->pid = want;
    for (auto it = free_pids.begin(); it != free_pids.end(); ++it) if (*it == want) { free_pids.erase(it); break; }
  } else if (cfg.reuse_pids && !free_pids.empty()) { p->pid = free_pids.front(); free_pids.pop_front(); }
  else p->pid = next_pid++;
  p->ppid = ppid; p->serial = next_serial++;
  procs.push_back(p);
  return p;
}
void Kernel::exitProc(Proc *p, int status) {
  if (p->state != Proc::RUN) return;
  if (WIFSIGNALED(status)) switch (WTERMSIG(status)) { case SIGQUIT: case SIGILL: case SIGABRT: case SIGFPE: case SIGSEGV: case SIGBUS: case SIGTRAP: case SIGSYS: case SIGXCPU: case SIGXFSZ: if (draw(2)) { status |= 0x80; fault("core-dump"); } }
  p->state = Proc::ZOMBIE; p->status = status;
  if (WIFSIGNALED(status)) p->died_sig = WTERMSIG(status); else p->exited_code = WEXITSTATUS(status);
  TR("pid %d ends, status 0x%04x", p->pid, status);
  p->fds.clear();
  progress++; futile = 0;
  if (p->h && !in_resume(p)) { p->h.destroy(); p->h = nullptr; }
  if (p->persona) persona_kill(p);
  // parent gone: init reaps
  Proc *pp = byPid(p->ppid);
  if (pp && pp->state == Proc::RUN && pp->chld_ign) { p->state = Proc::GONE; free_pids.push_back(p->pid); fault("child-reaped-by-system"); }
  if (!pp || pp->state != Proc::RUN) { if (p->ppid == 1 || !pp) { p->state = Proc::GONE; free_pids.push_back(p->pid); } }
  for (auto &q : procs) if (q->ppid == p->pid && q.get() != p && q->state == Proc::ZOMBIE) { q->state = Proc::GONE; free_pids.push_back(q->pid); }
}
int Kernel::lowestFd(Proc *p, int from) { for (int i = from; i < cfg.open_max; i++) if (!p->fds.count(i)) return i; return -1; }
void Kernel::mark_wall() { walls.clear(); walls.push_back({wall, wall}); }
void Kernel::advance(int64_t us) { wall += us; mono += us; if (walls.empty()) walls.push_back({wall, wall}); walls.back().hi = wall; }
void Kernel::jump(int64_t us) { wall += us; walls.push_back({wall, wall}); fault("clock-jump"); TR("clock jumps by %lld us", (long long)us); }
bool Kernel::readable(const Ofd &o) {
  if (o->kind == K_PIPE_R) return !o->pipe->buf.empty() || o->pipe->writers == 0;
  if (o->kind == K_PIPE_W) return false;
  return true;
}
bool Kernel::writable(const Ofd &o) {
  if (o->kind == K_PIPE_W) {
    if (o->pipe->readers == 0) return true;
    size_t fr = o->pipe->cap - o->pipe->buf.size();
    return fr >= std::min(o->pipe->cap, SIM_PIPE_BUF);
  }
  return o->kind != K_PIPE_R;
}
bool Kernel::hangup(const Ofd &o) {
  if (o->kind == K_PIPE_R) return o->pipe->writers == 0;
  if (o->kind == K_PIPE_W) return o->pipe->readers == 0;
  return false;
}
static Str norm(const Str &p0) {
  Str p; for (char c : p0) { if (c == '/' && !p.empty() && p.back() == '/') continue; p += c; }
  while (p.compare(0, 2, "./") == 0) p = p.substr(2);
  size_t i; while ((i = p.find("/./")) != Str::npos) p.erase(i, 2);
  if (p.size() > 1 && p.back() == '/') p.pop_back();
  return p;
}
static bool too_long(const char *p) { size_t c = 0, n = 0; for (; *p; p++, n++) { c = *p == '/' ? 0 : c + 1; if (c > 255) return true; } return n >= 4096; }
static Str parent(const Str &p) { size_t i = p.rfind('/'); if (i == Str::npos) return ""; if (i == 0) return "/"; return p.substr(0, i); }
static bool dir_writable(const Str &d) { auto it = K->fs.find(d); return it == K->fs.end() || (it->second->mode & 0300) == 0300; }
static bool dir_ok(const Str &d) { if (d.empty() || d == "/" || d == ".") return true; auto it = K->fs.find(d); return it != K->fs.end() && it->second->kind == K_DIR; }
std::shared_ptr<Inode> Kernel::mkfile(const Str &path, const Str &data) {
  auto n = std::make_shared<Inode>(); n->id = next_id++; n->kind = K_REG; n->data = data; n->path = norm(path); fs[n->path] = n; return n;
}
void Kernel::mkdirs(const Str &path) {
  Str p = norm(path);
  for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') {
    Str d = p.substr(0, i); if (fs.count(d)) continue;
    auto n = std::make_shared<Inode>(); n->id = next_id++; n->kind = K_DIR; n->path = d; fs[d] = n;
  }
}
Str readfile(const Str &path) { auto it = K->fs.find(norm(path)); return it == K->fs.end() ? Str() : it->second->data; }
bool hasfile(const Str &path) { auto it = K->fs.find(norm(path)); return it != K->fs.end() && it->second->kind == K_REG; }

static Ofd mkofd(Kind k) { auto o = std::make_shared<OFD>(); o->id = K->next_id++; o->kind = k; return o; }
Ofd raw::mkpipe_r(std::shared_ptr<Pipe> &p, Ofd &w) {
  p = std::make_shared<Pipe>(); p->id = K->next_id++; p->cap = cfg.pipe_cap; p->readers = p->writers = 1;
  Ofd r = mkofd(K_PIPE_R); r->pipe = p; w = mkofd(K_PIPE_W); w->pipe = p; return r;
}
void raw::set_fd(Proc *p, int fd, Ofd o) { p->fds[fd] = Fd{o, false}; }
void raw::close_fd(Proc *p, int fd) { p->fds.erase(fd); }

std::map<int, FdInfo> fd_table(Proc *p) { std::map<int, FdInfo> m; for (auto &x : p->fds) { auto &o = x.second.o; m[x.first] = {o->kind, o->id, o->pipe ? o->pipe->id : 0, o->path, o->flags}; } return m; }
static Ofd sink(int n) { Ofd o = mkofd(K_SINK); o->off = n; o->path = fmt("console%d", n); o->flags = n ? O_WRONLY : O_RDONLY; return o; }
void std_fds(Proc *p) { for (int i = 0; i < 3; i++) raw::set_fd(p, i, sink(i)); }

// ---------------------------------------------------------------- programs
static std::map<Str, Prog> &progs() { static std::map<Str, Prog> m; return m; }
void reg_prog(const Str &n, Prog p) { progs()[n] = p; }
bool has_prog(const Str &n) { return progs().count(n) > 0; }
Proc *resuming;
static bool in_resume(Proc *p) { return resuming == p; }
void start_prog(Proc *p) {
  Task t = progs()[p->ex.file](p);
  t.h.promise().p = p; p->h = t.h; p->cond = nullptr; p->wake = UINT64_MAX;
}

// ---------------------------------------------------------------- entering a system call
static bool is_app() { return P->app.app_depth > 0; }
static void clock_noise() {
  if (cfg.p_clock && chance(cfg.p_clock, 100)) {
    K->advance(1 + draw(cfg.clock_max));
    Proc *p = K->cur.get();
    switch (draw(4)) { case 1: p->cpu_u += 1 + draw(cfg.clock_max); break; case 2: p->cpu_s += 1 + draw(cfg.clock_max); break; default: break; }
  }
  if (cfg.p_jump && !cfg.jumps.empty() && chance(cfg.p_jump, 100)) K->jump(pick(cfg.jumps) * 1000000ll + (int64_t)draw(1000000));
}
static void enter(const char *call) {
  K->step++; K->syscalls++; K->call_count[call]++;
  clock_noise();
  if (K->on_syscall && !is_app()) K->on_syscall(call);
  if (!is_app() && K->spin_limit) {
    if (K->progress != K->futile_seen) { K->futile_seen = K->progress; K->futile = 0; }
    if (++K->futile > K->spin_limit) end_run(O_HANG, 0, fmt("%llu system calls in a row moved no data and nothing else could run", (unsigned long long)K->spin_limit));
  }
  if (cfg.p_preempt && chance(cfg.p_preempt, 100)) {
    if (others_runnable()) yield_burst(1 + draw(cfg.max_burst));
  } else if (K->futile > 8 && others_runnable()) yield_burst(1);
}
// a planned failure of this call?
static int injected(const char *call, int fd = -1) {
  if (is_app()) return 0;
  for (auto &pl : K->plans) {
    if (pl.count <= 0 || pl.call != call) continue;
    if (pl.fd >= 0 && pl.fd != fd) continue;
    if (pl.pipe_only) { auto it = K->cur->fds.find(fd); if (it == K->cur->fds.end() || !it->second.o->pipe) continue; }
    if (--pl.nth > 0) continue;
    pl.nth = 1; pl.count--; pl.fired = true;
    fault(fmt("%s:%s", call, strerrorname_np(pl.err)).c_str());
    { auto it = K->cur->fds.find(fd); K->injected.push_back({K->step, K->cur->pid, call, -1, pl.err, fd, true, it != K->cur->fds.end() && it->second.o->pipe}); }
    K->last_err = pl.err; K->last_err_call = call;
    TR("%s fails: %s", call, strerrorname_np(pl.err));
    return pl.err;
  }
  return 0;
}
static bool eintr(const char *call) {
  if (is_app() || !cfg.p_eintr || !chance(cfg.p_eintr, 100)) return false;
  fault(fmt("%s:EINTR", call).c_str());
  return true;
}
static int eintr_left;
// blocks; returns false on EINTR
static bool wait_cond(const char *call, std::function<bool()> cond, uint64_t wake, bool &timedout) {
  timedout = false;
  if (cond()) return true;
  bool intr = eintr_left > 0 && eintr(call);
  if (intr) {
    eintr_left--;
    uint64_t until = sched_tick + draw(6);
    uint64_t w = K->mono + 1 + draw(3000);
    block_until([cond, until]() { return sched_tick >= until || cond(); }, std::min(w, wake));
    if (cond()) return true;
    TR("%s interrupted", call);
    return false;
  }
  bool ok = block_until(cond, wake);
  if (!ok) timedout = true;
  return true;
}
static Ofd get(int fd) { auto it = K->cur->fds.find(fd); return it == K->cur->fds.end() ? nullptr : it->second.o; }
static int fail(int e) { errno = e; return -1; }
// a failure the library met that was not planned (descriptor table full, closed descriptor, ...)
static int met(const char *call, int e, int fd = -1) { if (!is_app()) { K->last_err = e; K->last_err_call = call; K->injected.push_back({K->step, K->cur->pid, call, -1, e, fd, false}); fault(fmt("natural-%s:%s", call, strerrorname_np(e)).c_str()); } return fail(e); }
static void die_of(int sig) {
  TR("pid %d killed by signal %d", K->cur->pid, sig);
  Proc *p = K->cur.get();
  if (!in_child_persona()) { end_run(O_SIGNAL, sig, fmt("signal %d", sig)); }
  K->exitProc(p, sig);
  persona_gone();
}
void fork_reset() {}

// shared by programs and library: returns >=0 bytes, -errno, or -EAGAIN when it would block
int64_t do_read(const Ofd &o, char *b, size_t n) {
  switch (o->kind) {
    case K_PIPE_R: {
      auto &pp = *o->pipe;
      if (!n) return 0;
      if (pp.buf.empty()) return pp.writers ? -EAGAIN : 0;
      size_t k = std::min(n, pp.buf.size());
      if (k > 1 && cfg.p_shortpipe && chance(cfg.p_shortpipe, 100)) { k = 1 + draw(k); fault("short-pipe-read"); }
      memcpy(b, pp.buf.data(), k); pp.buf.erase(0, k); pp.out_total += k; if (k) K->progress++;
      return k;
    }
    case K_REG: { auto &d = o->ino->data; if (o->off >= (int64_t)d.size()) return 0; size_t k = std::min(n, d.size() - (size_t)o->off); memcpy(b, d.data() + o->off, k); o->off += k; return k; }
    case K_DIR: return -EISDIR;
    case K_PIPE_W: return -EBADF;
    case K_NULL: case K_SINK: return 0;
  }
  return -EINVAL;
}
int64_t do_write(const Ofd &o, const char *b, size_t n, bool lib) {
  int acc = o->flags & O_ACCMODE;
  if (acc == O_RDONLY && (o->kind == K_REG || o->kind == K_NULL || o->kind == K_SINK)) return -EBADF;
  switch (o->kind) {
    case K_PIPE_W: {
      auto &pp = *o->pipe;
      if (!pp.readers) return -EPIPE;
      size_t fr = pp.cap - pp.buf.size();
      if (n <= SIM_PIPE_BUF ? fr < n && (n <= pp.cap || fr < pp.cap) : fr < std::min(pp.cap, SIM_PIPE_BUF)) return -EAGAIN;
      size_t k = std::min(n, fr);
      if (n > SIM_PIPE_BUF && k > 1 && cfg.p_shortpipe && chance(cfg.p_shortpipe, 100)) { k = 1 + draw(k); fault("short-pipe-write"); }
      pp.buf.append(b, k); pp.in_total += k; if (k) K->progress++;
      return k;
    }
    case K_REG: {
      auto &d = o->ino->data;
      if (K->eio_burst > 0 && lib) { K->eio_burst--; fault("write:EIO"); K->last_err = EIO; return -EIO; }
      size_t k = n;
      if (lib && k > 1 && cfg.p_short && chance(cfg.p_short, 100)) { k = 1 + draw(k - 1); fault("short-file-write"); }
      if (K->disk_free >= 0) {
        if (K->disk_free == 0 && k) { fault("write:ENOSPC"); K->last_err = ENOSPC; return -ENOSPC; }
        if ((int64_t)k > K->disk_free) { k = K->disk_free; fault("partial-write-disk-full"); }
        K->disk_free -= k;
      }
      if (o->flags & O_APPEND) o->off = d.size();
      if (K->track_writes) K->fwrites.push_back({K->step, resuming ? resuming->pid : K->cur->pid, o->ino->id, o->ino->path, (size_t)o->off, d.size(), Str(b, k), lib});
      if ((size_t)o->off > d.size()) d.resize(o->off, 0);
      if ((size_t)o->off + k > d.size()) d.resize(o->off + k);
      memcpy(&d[o->off], b, k); o->off += k; K->progress++;
      return k;
    }
    case K_NULL: return n;
    case K_SINK: {
      std::string s(b, n);
      if (K->track_writes) K->fwrites.push_back({K->step, resuming ? resuming->pid : K->cur->pid, 0, fmt("<%d>", (int)o->off), 0, 0, s, lib});
      (o->off == 2 ? K->console2 : K->console1) += s;
      if (!K->console.empty() && K->console.back().first == o->off) K->console.back().second += s; else K->console.push_back({(int)o->off, s});
      return n;
    }
    case K_PIPE_R: return -EBADF;
    case K_DIR: return -EISDIR;
  }
  return -EINVAL;
}
void run_reset() { eintr_left = 40; resuming = nullptr; }
bool Kernel::step_others(int n) { (void)n; return false; }
// run simulated programs until none can move (after the program under test has ended)
void Kernel::drain(int max) {
  for (int i = 0; i < max; i++) {
    Proc *r = nullptr;
    uint64_t w = UINT64_MAX;
    for (auto &p : procs) if (p->h && p->state == Proc::RUN) {
      if ((uint64_t)mono >= p->wake || !p->cond || p->cond()) { r = p.get(); break; }
      if (p->wake < w) w = p->wake;
    }
    if (!r) { if (w == UINT64_MAX) return; if ((uint64_t)mono < w) advance(w - mono); continue; }
    r->steps++; step++; r->cond = nullptr; r->wake = UINT64_MAX;
    resuming = r; auto h = r->h; h.resume(); resuming = nullptr;
    if (r->state == Proc::RUN && h.done()) exitProc(r, (r->exited_code < 0 ? 0 : r->exited_code) << 8);
    if (r->state != Proc::RUN && r->h) { r->h.destroy(); r->h = nullptr; }
  }
}
} // namespace sim
using namespace sim;

static void fdflags(int fd, bool ce) { K->cur->fds[fd].cloexec = ce; }
extern "C" {
// ---------------------------------------------------------------- descriptors
int sim_pipe2(int f[2], int flags) {
  enter("pipe");
  if (int e = injected("pipe")) return fail(e);
  int a = K->lowestFd(K->cur.get()); if (a < 0) return met("pipe", EMFILE);
  int b = K->lowestFd(K->cur.get(), a + 1); if (b < 0) return met("pipe", EMFILE);
  std::shared_ptr<Pipe> pp; Ofd w, r = raw::mkpipe_r(pp, w);
  r->by_lib = w->by_lib = !is_app(); pp->by_lib = !is_app(); pp->creator = K->cur->serial;
  r->flags = O_RDONLY | (flags & O_NONBLOCK); w->flags = O_WRONLY | (flags & O_NONBLOCK);
  raw::set_fd(K->cur.get(), a, r); raw::set_fd(K->cur.get(), b, w);
  if (flags & O_CLOEXEC) fdflags(a, true), fdflags(b, true);
  f[0] = a; f[1] = b;
  TR("[%d] pipe -> r%d w%d (#%d cap %zu)", K->cur->pid, a, b, pp->id, pp->cap);
  return 0;
}
int sim_pipe(int f[2]) { return sim_pipe2(f, 0); }
int sim_close(int fd) {
  enter("close");
  auto it = K->cur->fds.find(fd);
  if (it == K->cur->fds.end()) { if (!is_app()) K->closes.push_back({fd, EBADF, K->step, K->cur->pid}); return fail(EBADF); }
  TR("[%d] close %d", K->cur->pid, fd);
  if (!is_app()) K->closes.push_back({fd, 0, K->step, K->cur->pid});
  K->cur->fds.erase(it); K->progress++;
  return 0;
}
int sim_close_range(unsigned a, unsigned b, int) { for (unsigned i = a; i <= b && (int)i < cfg.open_max; i++) if (K->cur->fds.count(i)) sim_close(i); return 0; }
void sim_closefrom(int a) { sim_close_range(a, ~0u, 0); }
int sim_dup3(int a, int b, int flags) {
  enter("dup2");
  Ofd o = get(a); if (!o) return fail(EBADF);
  if (b < 0 || b >= cfg.open_max) return fail(EBADF);
  if (a == b) return (flags & O_CLOEXEC) ? fail(EINVAL) : b;
  if (int e = injected("dup2")) return fail(e);
  K->cur->fds[b] = Fd{o, (flags & O_CLOEXEC) != 0};
  TR("[%d] dup2 %d %d", K->cur->pid, a, b);
  return b;
}
int sim_dup2(int a, int b) { if (a == b) { enter("dup2"); return get(a) ? b : fail(EBADF); } return sim_dup3(a, b, 0); }
static int dupfrom(int a, int from, bool ce) {
  Ofd o = get(a); if (!o) return fail(EBADF);
  int n = K->lowestFd(K->cur.get(), from); if (n < 0) return met("dup", EMFILE);
  K->cur->fds[n] = Fd{o, ce};
  TR("[%d] dup %d -> %d", K->cur->pid, a, n);
  return n;
}
int sim_dup(int a) { enter("dup"); if (int e = injected("dup")) return fail(e); return dupfrom(a, 0, false); }
int sim_open(const char *path, int flags, ...) {
  unsigned mode = 0644; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, unsigned); va_end(ap); }
  enter("open");
  Str p = norm(path); bool planned = false, natural = false;
  auto rec = [&](int fd, int e) { if (!is_app()) K->opens.push_back({p, fd, flags, e, K->step}); if (e && !is_app()) { K->last_err = e; K->last_err_call = "open"; if (!planned) { K->injected.push_back({K->step, K->cur->pid, "open", -1, e, -1, false}); fault(fmt("open:%s", strerrorname_np(e)).c_str()); } K->injected.back().path = p; K->injected.back().natural = natural; } else if (!is_app()) for (auto &x : K->injected) if (x.pid == K->cur->pid && x.path == p) x.made_good = true; if (e) errno = e; TR("[%d] open %s flags 0x%x -> %d %s", K->cur->pid, p.c_str(), flags, fd, e ? strerrorname_np(e) : ""); return fd; };
  if (!is_app() && eintr_left > 0 && p != "/dev/null" && false) return rec(-1, EINTR);
  if (int e = injected("open")) return planned = true, rec(-1, e);
  if (too_long(path)) return rec(-1, ENAMETOOLONG);
  if (!*path) return rec(-1, ENOENT);
  if (K->deny_err.count(p)) return rec(-1, K->deny_err[p]);
  int n = K->lowestFd(K->cur.get()); if (n < 0) return rec(-1, EMFILE);
  Ofd o; auto nat = [&](int e) { natural = true; return rec(-1, e); }; // what follows from the state of the file system alone
  if (p == "/dev/null") o = mkofd(K_NULL);
  else {
    auto it = K->fs.find(p);
    if (it == K->fs.end()) {
      if (!dir_ok(parent(p))) return nat(ENOENT);
      if (!(flags & O_CREAT)) return nat(ENOENT);
      if (!dir_writable(parent(p))) return nat(EACCES);
      if (K->disk_free == 0) return rec(-1, ENOSPC);
      K->mkfile(p, ""); it = K->fs.find(p); it->second->mode = mode;
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) return nat(EEXIST);
    else if (it->second->kind == K_DIR && (flags & O_ACCMODE) != O_RDONLY) return nat(EISDIR);
    else if ((flags & O_ACCMODE) != O_RDONLY && !(it->second->mode & 0200)) return nat(EACCES);
    else if (flags & O_TRUNC) it->second->data.clear();
    o = mkofd(it->second->kind == K_DIR ? K_DIR : K_REG); o->ino = it->second;
  }
  o->flags = flags; o->path = p; o->by_lib = !is_app();
  K->cur->fds[n] = Fd{o, (flags & O_CLOEXEC) != 0};
  return rec(n, 0);
}
int sim_openat(int, const char *path, int flags, ...) { return sim_open(path, flags, 0644); }
int sim_creat(const char *path, mode_t) { return sim_open(path, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
int sim_fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
  enter("fcntl");
  Ofd o = get(fd); if (!o) return fail(EBADF);
  switch (cmd) {
    case F_GETFL: if (int e = injected("fcntl", fd)) return fail(e); return o->flags;
    case F_SETFL: o->flags = (o->flags & ~(O_NONBLOCK | O_APPEND)) | (arg & (O_NONBLOCK | O_APPEND)); TR("[%d] fcntl %d SETFL 0x%lx", K->cur->pid, fd, arg); return 0;
    case F_GETFD: return K->cur->fds[fd].cloexec ? FD_CLOEXEC : 0;
    case F_SETFD: K->cur->fds[fd].cloexec = arg & FD_CLOEXEC; return 0;
    case F_DUPFD: case F_DUPFD_CLOEXEC: if (int e = injected("dup")) return fail(e); return dupfrom(fd, arg, cmd == F_DUPFD_CLOEXEC);
    case F_GETPIPE_SZ: return o->pipe ? (int)o->pipe->cap : fail(EBADF);
    case F_SETPIPE_SZ: return o->pipe ? (int)o->pipe->cap : fail(EBADF);
    default: return fail(EINVAL);
  }
}
int sim_ioctl(int, unsigned long, ...) { return fail(ENOTTY); }
ssize_t sim_read(int fd, void *b, size_t n) {
  enter("read");
  Ofd o = get(fd); if (!o) return met("read", EBADF, fd);
  if (int e = injected("read", fd)) return fail(e);
  if (!heap_ok(b, n)) {
    // the kernel fills only what it transfers: check what it will write, below
  }
  for (;;) {
    std::string tmp(std::min(n, (size_t)1 << 20), 0);
    int64_t r = do_read(o, &tmp[0], tmp.size());
    if (r == -EAGAIN && !(o->flags & O_NONBLOCK)) {
      bool to;
      if (!wait_cond("read", [o]() { return K->readable(o); }, UINT64_MAX, to)) return fail(EINTR);
      continue;
    }
    if (r < 0) { TR("[%d] read %d -> %s", K->cur->pid, fd, strerrorname_np(-r)); return fail(-r); }
    if (r > 0 && !heap_ok(b, r)) viol("buffer-overrun", "read() of %ld bytes into a buffer that does not have that room", (long)r);
    memcpy(b, tmp.data(), r);
    TR("[%d] read %d (%zu) -> %ld", K->cur->pid, fd, n, (long)r);
    return r;
  }
}
ssize_t sim_write(int fd, const void *b, size_t n) {
  enter("write");
  Ofd o = get(fd); if (!o) { return met("write", EBADF, fd); }
  if (n && !heap_ok(b, n)) viol("buffer-overrun", "write() of %zu bytes from a buffer that does not hold that many", n);
  if (int e = injected("write", fd)) return fail(e);
  if ((o->kind == K_REG) && eintr_left > 0 && eintr("write")) { eintr_left--; TR("[%d] write %d interrupted", K->cur->pid, fd); return fail(EINTR); }
  if (n > (1u << 24)) n = 1u << 24;
  for (;;) {
    int64_t r = do_write(o, (const char *)b, n, !is_app());
    if (r == -EAGAIN && !(o->flags & O_NONBLOCK)) {
      bool to;
      if (!wait_cond("write", [o, n]() { return !o->pipe->readers || o->pipe->cap - o->pipe->buf.size() >= std::min(n, std::min(o->pipe->cap, SIM_PIPE_BUF)); }, UINT64_MAX, to)) return fail(EINTR);
      continue;
    }
    if (r < 0) {
      TR("[%d] write %d (%zu) -> %s", K->cur->pid, fd, n, strerrorname_np(-r));
      if (r == -EPIPE && !K->cur->sigpipe_ign) die_of(SIGPIPE);
      if (r != -EAGAIN && !is_app()) { K->last_err = -r; K->last_err_call = "write"; K->injected.push_back({K->step, K->cur->pid, "write", -1, (int)-r, fd, true, o->pipe != nullptr}); }
      return fail(-r);
    }
    // blocking pipe writes continue until everything is written
    if (o->kind == K_PIPE_W && !(o->flags & O_NONBLOCK) && (size_t)r < n) {
      size_t done = r;
      while (done < n) {
        bool to;
        if (!wait_cond("write", [o]() { return K->writable(o); }, UINT64_MAX, to)) break;
        int64_t q = do_write(o, (const char *)b + done, n - done, !is_app());
        if (q < 0 && q != -EAGAIN) { if (!done && q == -EPIPE && !K->cur->sigpipe_ign) die_of(SIGPIPE); break; }
        if (q > 0) done += q;
      }
      r = done;
    }
    TR("[%d] write %d (%zu) -> %ld", K->cur->pid, fd, n, (long)r);
    return r;
  }
}
ssize_t sim_writev(int fd, const struct iovec *v, int c) { std::string s; for (int i = 0; i < c; i++) s.append((const char *)v[i].iov_base, v[i].iov_len); return sim_write(fd, s.data(), s.size()); }
ssize_t sim_readv(int fd, const struct iovec *v, int c) { for (int i = 0; i < c; i++) if (v[i].iov_len) return sim_read(fd, v[i].iov_base, v[i].iov_len); return 0; }
ssize_t sim_pwrite(int, const void *, size_t, off_t) { return fail(ESPIPE); }
ssize_t sim_send(int, const void *, size_t, int) { return fail(ENOTSOCK); }
off_t sim_lseek(int fd, off_t off, int wh) {
  Ofd o = get(fd); if (!o) return fail(EBADF);
  if (o->kind != K_REG) return fail(ESPIPE);
  o->off = wh == SEEK_SET ? off : wh == SEEK_CUR ? o->off + off : (off_t)o->ino->data.size() + off;
  return o->off;
}
int sim_isatty(int fd) { Ofd o = get(fd); if (!o) return errno = EBADF, 0; errno = ENOTTY; return 0; }
int sim_fdatasync(int fd) { enter("fsync"); return get(fd) ? 0 : fail(EBADF); }
int sim_uname(struct utsname *u) { memset(u, 0, sizeof *u); snprintf(u->nodename, sizeof u->nodename, "%s", K->hostname.c_str()); strcpy(u->sysname, "Linux"); strcpy(u->release, "6.0"); strcpy(u->machine, "x86_64"); return 0; }
int sim_on_exit(void (*f)(int, void *), void *a) { (void)f; (void)a; viol("harness", "on_exit is not simulated"); return -1; }
int sim_mkdir(const char *, mode_t); int sim_access(const char *, int);
int sim_mkdirat(int, const char *path, mode_t m) { return sim_mkdir(path, m); }
int sim_faccessat(int, const char *p, int m, int) { return sim_access(p, m); }
int sim_flock(int fd, int) { enter("flock"); return get(fd) ? 0 : fail(EBADF); }
int sim_lockf(int fd, int, off_t) { enter("lockf"); return get(fd) ? 0 : fail(EBADF); }
int sim_fsync(int fd) { enter("fsync"); return get(fd) ? 0 : fail(EBADF); }
int sim_ftruncate(int fd, off_t n) { enter("ftruncate"); Ofd o = get(fd); if (!o || o->kind != K_REG) return fail(EINVAL); o->ino->data.resize(n); return 0; }
int sim_truncate(const char *p, off_t n) { auto it = K->fs.find(norm(p)); if (it == K->fs.end()) return fail(ENOENT); it->second->data.resize(n); return 0; }
static int do_stat(std::shared_ptr<Inode> n, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = n->kind == K_DIR ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = n->data.size(); st->st_ino = n->id; st->st_nlink = 1; return 0; }
int sim_stat(const char *p, struct stat *st) { enter("stat"); Str s = norm(p); if (s == "/dev/null") { memset(st, 0, sizeof *st); st->st_mode = S_IFCHR | 0666; return 0; } if (s.empty() || s == "/" || s == ".") { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; } auto it = K->fs.find(s); if (it == K->fs.end()) return fail(ENOENT); return do_stat(it->second, st); }
int sim_lstat(const char *p, struct stat *st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat *st) { enter("fstat"); Ofd o = get(fd); if (!o) return fail(EBADF); if (o->ino) return do_stat(o->ino, st); memset(st, 0, sizeof *st); st->st_mode = o->kind == K_PIPE_R || o->kind == K_PIPE_W ? S_IFIFO : S_IFCHR; return 0; }
int sim_access(const char *p, int) { enter("access"); Str s = norm(p); if (dir_ok(s) || K->fs.count(s) || s == "/dev/null") return 0; return fail(ENOENT); }
int sim_mkdir(const char *path, mode_t mode) {
  enter("mkdir");
  Str p = norm(path);
  if (int e = injected("mkdir")) { K->mkdir_refused.insert(p); return fail(e); }
  if (too_long(path)) return fail(ENAMETOOLONG);
  if (K->deny_err.count(p)) { K->mkdir_refused.insert(p); return fail(K->deny_err[p]); }
  if (p == "/" || p == "." || K->fs.count(p)) return fail(EEXIST);
  if (!dir_ok(parent(p))) return fail(ENOENT);
  if (!dir_writable(parent(p))) return fail(EACCES);
  K->mkdirs(p); K->fs[p]->mode = mode; TR("[%d] mkdir %s", K->cur->pid, p.c_str());
  return 0;
}
int sim_unlink(const char *path) { enter("unlink"); Str p = norm(path); TR("[%d] unlink %s", K->cur->pid, p.c_str()); return K->fs.erase(p) ? 0 : fail(ENOENT); }
int sim_remove(const char *path) { return sim_unlink(path); }
int sim_rmdir(const char *path) { return sim_unlink(path); }
int sim_rename(const char *a, const char *b) { enter("rename"); auto it = K->fs.find(norm(a)); if (it == K->fs.end()) return fail(ENOENT); auto n = it->second; K->fs.erase(it); K->fs[norm(b)] = n; return 0; }
int sim_chdir(const char *) { return 0; }
mode_t sim_umask(mode_t) { return 022; }
int sim_chmod(const char *, mode_t) { return 0; }
int sim_fchmod(int, mode_t) { return 0; }

// readiness
static void idled() { if (K->on_idle && !in_child_persona() && !is_app()) K->on_idle(); }
static int do_select(int n, fd_set *r, fd_set *w, fd_set *e, int64_t us, const char *call) {
  enter(call);
  if (int er = injected("select")) return fail(er);
  if (n < 0 || n > 1024) n = n < 0 ? 0 : 1024;
  std::vector<std::pair<int, Ofd>> rr, ww;
  for (int i = 0; i < n; i++) {
    bool a = r && FD_ISSET(i, r), b = w && FD_ISSET(i, w), c = e && FD_ISSET(i, e);
    if (!a && !b && !c) continue;
    Ofd o = get(i); if (!o) { TR("[%d] select: fd %d not open", K->cur->pid, i); return fail(EBADF); }
    if (a) rr.push_back({i, o});
    if (b) ww.push_back({i, o});
  }
  auto cond = [rr, ww]() { for (auto &x : rr) if (K->readable(x.second)) return true; for (auto &x : ww) if (K->writable(x.second)) return true; return false; };
  bool to;
  uint64_t wake = us < 0 ? UINT64_MAX : (uint64_t)K->mono + us;
  if (us == 0) { to = !cond(); } else if (!wait_cond(call, cond, wake, to)) return fail(EINTR); else if (to) idled();
  if (r) FD_ZERO(r); if (w) FD_ZERO(w); if (e) FD_ZERO(e);
  int k = 0; Str s;
  for (auto &x : rr) if (K->readable(x.second)) { FD_SET(x.first, r); k++; s += fmt(" r%d", x.first); }
  for (auto &x : ww) if (K->writable(x.second)) { FD_SET(x.first, w); k++; s += fmt(" w%d", x.first); }
  TR("[%d] %s -> %d%s", K->cur->pid, call, k, s.c_str());
  return k;
}
int sim_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { return do_select(n, r, w, e, tv ? tv->tv_sec * 1000000ll + tv->tv_usec : -1, "select"); }
int sim_pselect(int n, fd_set *r, fd_set *w, fd_set *e, const struct timespec *ts, const void *) { return do_select(n, r, w, e, ts ? ts->tv_sec * 1000000ll + ts->tv_nsec / 1000 : -1, "select"); }
int sim_poll(struct pollfd *f, nfds_t n, int ms) {
  enter("select");
  if (int er = injected("select")) return fail(er);
  // the condition is evaluated while another process's memory is loaded: nothing in it may refer to the caller's
  struct Want { int i; short events; Ofd o; };
  std::vector<Want> v; bool bad = false;
  for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; if (f[i].fd < 0) continue; Ofd o = get(f[i].fd); if (!o) { f[i].revents = POLLNVAL; bad = true; } v.push_back({(int)i, f[i].events, o}); }
  auto ev = [](const Want &x) { const Ofd &o = x.o; short r = 0; if (!o) return (short)POLLNVAL; if ((x.events & POLLIN) && K->readable(o)) r |= (o->kind == K_PIPE_R && o->pipe->buf.empty()) ? 0 : POLLIN; if ((x.events & POLLOUT) && K->writable(o)) r |= POLLOUT; if (K->hangup(o)) r |= o->kind == K_PIPE_W ? POLLERR : POLLHUP; return r; };
  auto cond = [v, ev, bad]() { if (bad) return true; for (auto &x : v) if (ev(x)) return true; return false; };
  bool to = false;
  if (ms != 0 && !wait_cond("select", cond, ms < 0 ? UINT64_MAX : (uint64_t)K->mono + ms * 1000ull, to)) return fail(EINTR);
  if (to) idled();
  int k = 0; for (auto &x : v) { f[x.i].revents = ev(x); if (f[x.i].revents) k++; }
  TR("[%d] poll -> %d", K->cur->pid, k);
  return k;
}
int sim_ppoll(struct pollfd *f, nfds_t n, const struct timespec *ts, const void *) { return sim_poll(f, n, ts ? (int)(ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1); }

// ---------------------------------------------------------------- processes
int sim_getpid(void) { return K->cur->pid; }
int sim_getppid(void) { return K->cur->ppid; }
int sim_fork(void) {
  enter("fork");
  if (int e = injected("fork")) return fail(e);
  int pid;
  {
    ProcP c = K->newProc(K->cur->pid);
    c->fds = K->cur->fds; c->sigpipe_ign = K->cur->sigpipe_ign; c->chld_ign = K->cur->chld_ign; c->persona = true; c->foreign = is_app();
    pid = c->pid;
    TR("[%d] fork -> %d", K->cur->pid, pid);
    K->progress++;
    // persona_fork moves this reference; nothing that owns memory may live in this frame across it
    K->procs.back()->fork_cseq = K->step;
  }
  return persona_fork(K->procs.back());
}
int sim_raise(int sig);
int sim_vfork(void) { return sim_fork(); }
static int do_exec(const char *file, char *const argv[]) {
  enter("execvp");
  if (!file) { TR("[%d] exec of a null pointer", K->cur->pid); sim_raise(SIGSEGV); }
  Proc *p = K->cur.get();
  {
    Exec ex; ex.pid = p->pid; ex.serial = p->serial; ex.step = K->step; ex.file = file ? file : "";
    for (int i = 0; argv[i]; i++) ex.argv.push_back(argv[i]);
    int e = injected("execvp");
    if (!e && !has_prog(ex.file)) e = ENOENT;
    ex.ok = !e;
    if (!e) for (auto it = p->fds.begin(); it != p->fds.end();) { if (it->second.cloexec) it = p->fds.erase(it); else ++it; }
    ex.fds = fd_table(p);
    Str s; for (auto &a : ex.argv) s += " " + quote(a, 40);
    Str t; for (auto &x : ex.fds) t += fmt(" %d:#%d%c", x.first, x.second.pipe ? x.second.pipe : x.second.oid, "fdnrwc"[x.second.kind]);
    TR("[%d] exec%s fds%s%s", p->pid, s.c_str(), t.c_str(), e ? " FAILS" : "");
    p->ex = ex;
    K->execs.push_back(ex);
    if (e) { p->exec_failed = true; return fail(e); }
    p->persona = false;
    start_prog(p);
    K->progress++;
  }
  return 1000;
}
int sim_execvp(const char *file, char *const argv[]) { int r = do_exec(file, argv); if (r == 1000) persona_gone(); return r; }
int sim_execv(const char *file, char *const argv[]) { if (!strchr(file, '/')) { enter("execvp"); TR("[%d] execv %s: not in the current directory", K->cur->pid, file); return fail(ENOENT); } return sim_execvp(file, argv); }
int sim_execve(const char *file, char *const argv[], char *const *) { return sim_execv(file, argv); }
#define ARGV std::vector<char *> v; { va_list ap; va_start(ap, a); v.push_back((char *)a); while (v.back()) v.push_back(va_arg(ap, char *)); va_end(ap); } char *av[64]; size_t n = v.size() < 64 ? v.size() : 63; for (size_t i = 0; i < n; i++) av[i] = v[i]; av[n < 63 ? n : 63] = nullptr; std::vector<char *>().swap(v)
int sim_execlp(const char *file, const char *a, ...) { ARGV; return sim_execvp(file, av); }
int sim_execl(const char *file, const char *a, ...) { ARGV; return sim_execv(file, av); }
int sim_execle(const char *file, const char *a, ...) { ARGV; return sim_execv(file, av); }
int sim_execvpe(const char *file, char *const argv[], char *const *) { return sim_execvp(file, argv); }
int sim_wait4(int pid, int *status, int opt, struct rusage *ru) {
  enter("waitpid");
  int me = K->cur->pid;
  auto find = [me, pid, opt](bool &any) -> Proc * {
    any = false; Proc *z = nullptr;
    for (auto &p : K->procs) if (p->ppid == me && p->state != Proc::GONE && (pid == -1 || pid == 0 || p->pid == pid)) { any = true; if ((p->state == Proc::ZOMBIE || ((opt & WUNTRACED) && p->stopped)) && !z) z = p.get(); }
    return z;
  };
  bool any; Proc *z = find(any); bool wb = false;
  Proc *tp = pid > 0 ? K->byPid(pid) : nullptr; int tser = tp ? tp->serial : 0;
  auto rec = [&](int serial, int rc, int e) { if (!is_app()) K->waits.push_back({me, pid, tser, serial, rc, e, K->step, wb}); };
  if (int e = injected("waitpid")) { rec(0, -1, e); return fail(e); }
  if (!any) { TR("[%d] waitpid %d -> ECHILD", me, pid); rec(0, -1, ECHILD); return fail(ECHILD); }
  if (!z) {
    wb = true;
    if (opt & WNOHANG) { rec(0, 0, 0); TR("[%d] waitpid %d -> 0", me, pid); return 0; }
    bool to;
    if (!wait_cond("waitpid", [find]() { bool a; return find(a) != nullptr || !a; }, UINT64_MAX, to)) { rec(0, -1, EINTR); return fail(EINTR); }
    z = find(any);
    if (!z) { rec(0, -1, ECHILD); return fail(ECHILD); }
  } else if (eintr_left > 0 && !(opt & WNOHANG) && false) {
  }
  if (z->state != Proc::ZOMBIE) { z->stopped = false; if (status) *status = 0x137f; TR("[%d] waitpid %d -> %d stopped", me, pid, z->pid); rec(0, z->pid, 0); return z->pid; }
  if (status) *status = z->status;
  z->state = Proc::GONE; z->reaped++; K->free_pids.push_back(z->pid);
  K->cur->cpu_cu += z->cpu_u + z->cpu_cu; K->cur->cpu_cs += z->cpu_s + z->cpu_cs;
  if (ru) memset(ru, 0, sizeof *ru);
  K->progress++;
  TR("[%d] waitpid %d -> %d status 0x%04x", me, pid, z->pid, z->status);
  rec(z->serial, z->pid, 0);
  return z->pid;
}
int sim_waitpid(int pid, int *status, int opt) { return sim_wait4(pid, status, opt, nullptr); }
int sim_wait(int *status) { return sim_wait4(-1, status, 0, nullptr); }
int sim_wait3(int *status, int opt, struct rusage *ru) { return sim_wait4(-1, status, opt, ru); }
int sim_waitid(idtype_t t, id_t id, siginfo_t *si, int opt) {
  int st = 0, r = sim_wait4(t == P_PID ? (int)id : -1, &st, opt & WNOHANG, nullptr); if (r < 0) return -1;
  if (si) { memset(si, 0, sizeof *si); if (r > 0) { si->si_pid = r; si->si_signo = SIGCHLD; si->si_code = WIFEXITED(st) ? CLD_EXITED : (st & 0x80) ? CLD_DUMPED : CLD_KILLED; si->si_status = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st); } }
  return 0;
}
int sim_kill(int pid, int sig) {
  enter("kill");
  int me = K->cur->pid;
  if (pid <= 0) { TR("[%d] kill %d %d", me, pid, sig); K->kills.push_back({me, pid, sig, 0, false, 0, K->step}); return 0; }
  Proc *t = K->byPid(pid);
  int rc = t ? 0 : -1;
  K->kills.push_back({me, pid, sig, t ? t->serial : 0, t && t->ppid == me, rc, K->step});
  TR("[%d] kill %d %d -> %d", me, pid, sig, rc);
  if (!t) return fail(ESRCH);
  if (sig && t->state == Proc::RUN) {
    if (t == K->cur.get()) die_of(sig);
    if (sig == SIGKILL || !t->term_ign) K->exitProc(t, sig);
  }
  return 0;
}
int sim_raise(int sig) { if (sig == SIGABRT) sim_abort(); return sim_kill(K->cur->pid, sig); }
int sim_killpg(int p, int s) { return sim_kill(-p, s); }
typedef void (*sighandler)(int);
sighandler sim_signal(int sig, sighandler h) { enter("signal"); if (sig == SIGCHLD) { bool o = K->cur->chld_ign; K->cur->chld_ign = h == SIG_IGN; return o ? SIG_IGN : SIG_DFL; } if (sig == SIGPIPE) { bool o = K->cur->sigpipe_ign; K->cur->sigpipe_ign = h == SIG_IGN; return o ? SIG_IGN : SIG_DFL; } return SIG_DFL; }
int sim_sigaction(int sig, const struct sigaction *n, struct sigaction *o) {
  enter("sigaction");
  if (o) { memset(o, 0, sizeof *o); if (sig == SIGPIPE && K->cur->sigpipe_ign) o->sa_handler = SIG_IGN; }
  if (o && sig == SIGCHLD && K->cur->chld_ign) o->sa_handler = SIG_IGN;
  if (n && sig == SIGCHLD) K->cur->chld_ign = n->sa_handler == SIG_IGN || (n->sa_flags & SA_NOCLDWAIT);
  if (n && sig == SIGPIPE) K->cur->sigpipe_ign = n->sa_handler == SIG_IGN;
  return 0;
}
int sim_sigprocmask(int, const void *, void *) { return 0; }
int sim_setpgid(int, int) { return 0; }
int sim_setsid(void) { return K->cur->pid; }
extern void sim_stdio_flush_all(void);
void sim__exit(int code) {
  enter("_exit");
  Proc *p = K->cur.get();
  if (!in_child_persona()) { TR("[%d] _exit(%d)", p->pid, code); end_run(O_UEXIT, code & 255, ""); }
  K->exitProc(p, (code & 255) << 8);
  persona_gone();
}
void sim_quick_exit(int c) { sim__exit(c); }
void sim_exit(int code) {
  TR("[%d] exit(%d)", K->cur->pid, code);
  sim::guard_fire(2, code);
  P->app.exiting = true;
  while (!P->app.atexits.empty()) { auto f = P->app.atexits.back(); P->app.atexits.pop_back(); P->app.app_depth++; f(); P->app.app_depth--; }
  sim_stdio_flush_all();
  if (in_child_persona()) { K->exitProc(K->cur.get(), (code & 255) << 8); persona_gone(); }
  end_run(O_EXIT, code & 255, "exit");
}
void sim_abort(void) {
  TR("[%d] abort", K->cur->pid);
  sim::guard_fire(1, 0);
  if (in_child_persona()) { K->exitProc(K->cur.get(), SIGABRT); persona_gone(); }
  end_run(O_ABORT, 0, "abort");
}
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) { TR("assertion failed: %s", e); (void)f; (void)l; (void)fn; sim_abort(); }
int sim_atexit(void (*f)(void)) { P->app.atexits.push_back(f); return 0; }

// ---------------------------------------------------------------- clocks, randomness, host
time_t sim_time(time_t *t) { enter("time"); time_t v = K->wall >= 0 ? K->wall / 1000000 : -((-K->wall + 999999) / 1000000); if (t) *t = v; TR("time -> %ld", (long)v); return v; }
int sim_gettimeofday(struct timeval *tv, void *) { enter("gettimeofday"); tv->tv_sec = K->wall / 1000000; tv->tv_usec = K->wall % 1000000; TR("gettimeofday -> %lld", (long long)K->wall); return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) { enter("clock_gettime"); int64_t v = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? K->wall : (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) ? (int64_t)(K->cur->cpu_u + K->cur->cpu_s) : K->mono; ts->tv_sec = v / 1000000; ts->tv_nsec = v % 1000000 * 1000; return 0; }
int sim_timespec_get(struct timespec *ts, int b) { sim_clock_gettime(CLOCK_REALTIME, ts); return b; }
int sim_getrusage(int who, struct rusage *ru) {
  enter("getrusage"); memset(ru, 0, sizeof *ru);
  uint64_t u = who == RUSAGE_SELF ? K->cur->cpu_u : K->cur->cpu_cu, s = who == RUSAGE_SELF ? K->cur->cpu_s : K->cur->cpu_cs;
  ru->ru_utime.tv_sec = u / 1000000; ru->ru_utime.tv_usec = u % 1000000; ru->ru_stime.tv_sec = s / 1000000; ru->ru_stime.tv_usec = s % 1000000;
  TR("getrusage %d -> %llu %llu", who, (unsigned long long)u, (unsigned long long)s);
  return 0;
}
clock_t sim_times(struct tms *t) { memset(t, 0, sizeof *t); t->tms_utime = K->cur->cpu_u / 10000; t->tms_stime = K->cur->cpu_s / 10000; return K->mono / 10000; }
clock_t sim_clock(void) { return K->cur->cpu_u + K->cur->cpu_s; }
struct tm *sim_localtime_r(const time_t *t, struct tm *r) { int off = cfg.tz + (*t >= cfg.dst_at ? cfg.dst_off : 0); time_t v = *t + off; gmtime_r(&v, r); r->tm_gmtoff = off; r->tm_zone = "SIM"; return r; }
struct tm *sim_localtime(const time_t *t) { static struct tm tm; return sim_localtime_r(t, &tm); }
static char timebuf[64];
char *sim_asctime_r(const struct tm *tm, char *b) { strftime(b, 26, "%a %b %e %H:%M:%S %Y\n", tm); return b; }
char *sim_asctime(const struct tm *tm) { return sim_asctime_r(tm, timebuf); }
char *sim_ctime_r(const time_t *t, char *b) { struct tm tm; return sim_asctime_r(sim_localtime_r(t, &tm), b); }
char *sim_ctime(const time_t *t) { return sim_ctime_r(t, timebuf); }
time_t sim_mktime(struct tm *tm) { return timegm(tm) - cfg.tz; }
void sim_tzset(void) {}
unsigned sim_sleep(unsigned s) { enter("sleep"); block_until([]() { return false; }, K->mono + s * 1000000ull); return 0; }
int sim_usleep(unsigned us) { enter("sleep"); block_until([]() { return false; }, K->mono + us); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { enter("sleep"); block_until([]() { return false; }, K->mono + t->tv_sec * 1000000ull + t->tv_nsec / 1000); return 0; }
unsigned sim_alarm(unsigned) { return 0; }
int sim_pause(void) { return fail(EINTR); }
int sim_sched_yield(void) { enter("sched_yield"); return 0; }
static long rnd31(void) {
  uint64_t &s = K->rnd_state;
  switch (cfg.rnd_mode) {
    case 1: return 0;
    case 2: return 0x7fffffff;
    case 3: K->rnd_flip ^= 1; return K->rnd_flip ? 0 : 0x7fffffff;
    case 4: if (!(s & 0xff)) s = ((uint64_t)draw(256) << 8) | (1 + draw(20)); s--; return (s >> 8) & 1 ? 0x7fffffff : 0;
    default: return (long)(draw(1u << 16) << 15 | draw(1u << 15));
  }
}
long sim_random(void) { long v = rnd31(); TR("random -> %lx", v); return v; }
int sim_rand(void) { return (int)sim_random(); }
int sim_rand_r(unsigned *) { return (int)sim_random(); }
long sim_lrand48(void) { return sim_random(); }
long sim_mrand48(void) { return (long)(int)(sim_random() << 1); }
double sim_drand48(void) { return sim_random() / 2147483648.0; }
unsigned sim_arc4random(void) { return (unsigned)sim_random() << 1; }
unsigned sim_arc4random_uniform(unsigned n) { return n ? sim_random() % n : 0; }
void sim_srandom(unsigned) {}
void sim_srand(unsigned) {}
void sim_srand48(long) {}
int sim_gethostname(char *b, size_t n) { enter("gethostname"); if (int e = injected("gethostname")) return fail(e); size_t l = K->hostname.size(); memcpy(b, K->hostname.c_str(), l + 1 < n ? l + 1 : n); if (l + 1 > n) return fail(ENAMETOOLONG); return 0; }
long sim_sysconf(int name) { if (name == _SC_OPEN_MAX) return cfg.open_max; return sysconf(name); }
int sim_getdtablesize(void) { return cfg.open_max; }
int sim_getrlimit(int, struct rlimit *r) { r->rlim_cur = r->rlim_max = cfg.open_max; return 0; }
char *sim_getenv(const char *) { return nullptr; }
char *sim_secure_getenv(const char *) { return nullptr; }
int sim_setenv(const char *, const char *, int) { return 0; }
uid_t sim_getuid(void) { return 1000; }
uid_t sim_geteuid(void) { return 1000; }

// ---------------------------------------------------------------- system log
void sim_openlog(const char *ident, int opt, int fac) { enter("openlog"); TR("openlog %s 0x%x %d", ident ? ident : "(null)", opt, fac); K->syslog_open = true; K->syslog_identp = ident; K->syslog_ident = ident ? ident : ""; K->syslog_opt = opt; K->syslog_fac = fac; K->openlogs++; }
void sim_closelog(void) { enter("closelog"); TR("closelog"); K->syslog_open = false; K->syslog_identp = nullptr; K->closelogs++; }
void sim_vsyslog(int prio, const char *f, va_list ap) {
  enter("syslog");
  // %m
  Str ff; for (const char *q = f; *q; q++) if (q[0] == '%' && q[1] == '%') { ff += "%%"; q++; } else if (q[0] == '%' && q[1] == 'm') { Str e = strerror(errno); for (char c : e) { if (c == '%') ff += '%'; ff += c; } q++; } else ff += *q;
  Str m = vfmt(ff.c_str(), ap);
  if (!m.empty() && m.back() == '\n') m.pop_back();
  K->syslog.push_back({prio, m, K->syslog_identp ? Str(K->syslog_identp) : Str(), K->syslog_opt, K->syslog_fac, K->cur->pid, K->syslog_open});
  Str q = m; // the printed addresses of caller objects live on the host's heap: no part of the simulated execution
  for (size_t i = 0; (i = q.find("0x", i)) != Str::npos; i += 2) { size_t e = i + 2; while (e < q.size() && isxdigit((unsigned char)q[e])) e++; if (e - i >= 10) q.replace(i + 2, e - i - 2, "*"); }
  TR("syslog %d %s", prio, quote(q).c_str());
}
void sim_syslog(int prio, const char *f, ...) { va_list ap; va_start(ap, f); sim_vsyslog(prio, f, ap); va_end(ap); }
int sim_setlogmask(int m) { return m; }
}
// second names of the same entry points
extern "C" {
int sim_open64(const char *, int, ...) __attribute__((alias("sim_open")));
int sim_openat64(int, const char *, int, ...) __attribute__((alias("sim_openat")));
int sim_creat64(const char *, mode_t) __attribute__((alias("sim_creat")));
int sim_fcntl64(int, int, ...) __attribute__((alias("sim_fcntl")));
off_t sim_lseek64(int, off_t, int) __attribute__((alias("sim_lseek")));
int sim_stat64(const char *, struct stat *) __attribute__((alias("sim_stat")));
int sim_lstat64(const char *, struct stat *) __attribute__((alias("sim_lstat")));
int sim_fstat64(int, struct stat *) __attribute__((alias("sim_fstat")));
int sim_ftruncate64(int, off_t) __attribute__((alias("sim_ftruncate")));
int sim___open_2(const char *, int, ...) __attribute__((alias("sim_open")));
int sim___sigaction(int, const struct sigaction *, struct sigaction *) __attribute__((alias("sim_sigaction")));
void sim__Exit(int) __attribute__((alias("sim__exit")));
}
