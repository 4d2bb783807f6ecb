// Simulated programs that the library executes. Behaviour is a small script in argv.
#include "sim.h"
#include "core.h"
#include "progs.h"
#include <errno.h>
#include <signal.h>
namespace sim {
int64_t do_read(const Ofd &o, char *b, size_t n);
int64_t do_write(const Ofd &o, const char *b, size_t n, bool lib);

char pat(uint64_t i) { return (char)(33 + (i * 7 + i / 91) % 91); }
std::string pattern(size_t n, uint64_t from) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = pat(from + i); return s; }

struct Tick { bool await_ready() { return false; } void await_suspend(std::coroutine_handle<>) {} void await_resume() {} };
static Ofd fdof(Proc *p, int fd) { auto it = p->fds.find(fd); return it == p->fds.end() ? nullptr : it->second.o; }
static int64_t rd(Proc *p, char *b, size_t n) { Ofd o = fdof(p, 0); if (!o) return -EBADF; int64_t r = do_read(o, b, n); if (r >= 0) { if (r) p->stdin_seen.append(b, r); else if (n) p->stdin_eof = true; TR("  pid %d reads %lld", p->pid, (long long)r); } return r; }
static int64_t wr(Proc *p, int fd, const char *b, size_t n) { Ofd o = fdof(p, fd); if (!o) return -EBADF; int64_t r = do_write(o, b, n, false); if (r > 0) { (fd == 1 ? p->out1 : p->out2).append(b, r); TR("  pid %d writes %lld to %d", p->pid, (long long)r, fd); } return r; }
static void wait_rd(Proc *p) { p->cond = [p]() { Ofd o = fdof(p, 0); return !o || K->readable(o); }; }
static void wait_wr(Proc *p, int fd, size_t n) {
  p->cond = [p, fd, n]() { Ofd o = fdof(p, fd); if (!o || !o->pipe || !o->pipe->readers) return true; size_t fr = o->pipe->cap - o->pipe->buf.size(); return n <= 4096 && n <= o->pipe->cap ? fr >= n : K->writable(o); };
}
static size_t chunk(size_t n) { if (cfg.p_rdchunk && n > 1 && chance(cfg.p_rdchunk, 100)) return 1 + draw((uint32_t)std::min<size_t>(n, 600)); return n; }

// reads into p's buffer / writes a buffer; both written inline because each transfer is one scheduling step
static Task script(Proc *p) {
  std::string acc; std::vector<char> buf(65536);
  std::vector<Str> ops(p->ex.argv.begin() + (p->ex.argv.empty() ? 0 : 1), p->ex.argv.end());
  uint64_t gen = 0;
  for (size_t oi = 0; oi < ops.size(); oi++) {
    const Str op = ops[oi]; if (op.empty()) continue;
    long v = op.size() > 1 ? atol(op.c_str() + 1) : 0;
    std::string out; int ofd = 1; bool loop_cat = false, until_eof = false; size_t want = 0;
    switch (op[0]) {
      case 'C': loop_cat = true; v = 1; break;
      case 'D': loop_cat = true; break;
      case 'A': until_eof = true; want = SIZE_MAX; break;
      case 'R': want = v; break;
      case 'E': out = acc; acc.clear(); break;
      case 'V': out.assign(acc.rbegin(), acc.rend()); acc.clear(); break;
      case 'W': out = pattern(v, gen); gen += v; break;
      case 'e': out = pattern(v, 0); ofd = 2; break;
      case 'c': p->fds.erase((int)v); TR("  pid %d closes %ld", p->pid, v); co_await Tick(); continue;
      case 'X': p->done_script = true; p->exited_code = (int)v; co_return;
      case 'K': p->done_script = true; K->exitProc(p, (int)v); co_return;
      case 'z': p->cond = []() { return false; }; p->wake = K->mono + v * 1000; co_await Tick(); continue;
      case 'i': p->sigpipe_ign = true; continue;
      case 'T': p->term_ign = true; continue;
      case 'U': p->cpu_u += v; continue;
      case 'S': p->cpu_s += v; continue;
      case 't': p->stopped = true; p->cond = []() { return false; }; p->wake = K->mono + v * 1000; TR("  pid %d stops", p->pid); co_await Tick(); p->stopped = false; TR("  pid %d continues", p->pid); continue;
      case 'L': for (;;) { p->cond = []() { return false; }; co_await Tick(); }
      default: continue;
    }
    for (;;) {
      // write phase
      size_t done = 0; bool bad = false;
      while (done < out.size()) {
        size_t n = chunk(out.size() - done);
        int64_t r = wr(p, ofd, out.data() + done, n);
        if (r == -EAGAIN) { wait_wr(p, ofd, n); co_await Tick(); continue; }
        if (r == -EPIPE && !p->sigpipe_ign) { K->exitProc(p, SIGPIPE); co_return; }
        if (r < 0) { bad = true; break; }
        done += r; co_await Tick();
      }
      out.clear();
      if (bad) break;
      if (!loop_cat && !until_eof && !want) break;
      // read phase
      size_t n = chunk(std::min<size_t>(want ? want : 65536, 65536));
      int64_t r = rd(p, buf.data(), n);
      if (r == -EAGAIN) { wait_rd(p); co_await Tick(); continue; }
      if (r <= 0) { co_await Tick(); break; }
      if (loop_cat) { if (v == 1) out.assign(buf.data(), r); else for (int64_t i = 0; i < r; i++) out.append(v, buf[i]); }
      else { acc.append(buf.data(), r); if (want != SIZE_MAX) want -= r; }
      co_await Tick();
      if (!loop_cat && !until_eof && !want) break;
    }
  }
  p->done_script = true;
  p->exited_code = 0;
}
static struct RegProgs { RegProgs() {
  for (const char *n : {"cmd", "filter", "/usr/bin/tool", "a b", "-x"}) reg_prog(n, script);
  reg_prog("cat", [](Proc *p) { p->ex.argv.resize(1); p->ex.argv.push_back("C"); return script(p); });
} } regprogs;

ProcP spawn_foreign(const Str &script_args, bool child_of_app) {
  ProcP p = K->newProc(child_of_app ? K->cur->pid : 1);
  p->foreign = true; p->ex.file = "cmd"; p->ex.argv.push_back("cmd");
  Str w; for (char c : script_args + " ") if (c == ' ') { if (!w.empty()) p->ex.argv.push_back(w); w.clear(); } else w += c;
  start_prog(p.get());
  TR("foreign process %d: %s", p->pid, script_args.c_str());
  return p;
}
}
