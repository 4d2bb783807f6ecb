// Choices, trace, personas (processes running library code), scheduler, allocator, guards.
#include "sim.h"
#include "core.h"
#include <errno.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
Str vfmt(const char *f, va_list ap) {
  char b[512]; va_list c; va_copy(c, ap);
  int n = vsnprintf(b, sizeof b, f, ap);
  if (n < (int)sizeof b) { va_end(c); return Str(b, n < 0 ? 0 : n); }
  Str s(n + 1, 0); vsnprintf(&s[0], n + 1, f, c); va_end(c); s.resize(n); return s;
}
Str fmt(const char *f, ...) { va_list ap; va_start(ap, f); Str s = vfmt(f, ap); va_end(ap); return s; }
Str quote(const Str &s, size_t max) {
  Str r = "\"";
  for (size_t i = 0; i < s.size() && i < max; i++) {
    unsigned char c = s[i];
    if (c == '\n') r += "\\n"; else if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) r += fmt("\\x%02x", c); else r += c;
  }
  r += "\"";
  if (s.size() > max) r += fmt("...(%zu)", s.size());
  return r;
}

// ---------------------------------------------------------------- choices
Choice C;
static uint64_t splitmix(uint64_t &x) {
  uint64_t z = (x += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9e3779b97f4a7c15ull + b; splitmix(x); return splitmix(x); }
void Choice::seed(uint64_t s) { st = s; pos = 0; tape.clear(); replay = false; }
uint64_t Choice::next() { return splitmix(st); }
uint32_t *live_tape, *live_len, live_max; // where a crash-isolated child leaves its choices as it makes them
static inline void live(uint32_t v) { if (live_tape && *live_len < live_max) live_tape[(*live_len)++] = v; }
uint32_t Choice::draw(uint32_t n) {
  if (n <= 1) return 0;
  uint32_t v;
  if (replay) {
    v = pos < tape.size() ? tape[pos] : 0;
    if (v >= n) v = n - 1;
    pos++; live(v);
    return v;
  }
  v = (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32);
  tape.push_back(v); pos++; live(v);
  return v;
}
bool chance(uint32_t num, uint32_t den) {
  if (!num) return false;
  if (num >= den) return true;
  return C.draw(den) >= den - num;
}
uint32_t draw_size(uint32_t max) {
  if (!max) return 0;
  switch (C.draw(4)) {
    case 0: return C.draw(max < 4 ? max + 1 : 5);
    case 1: return C.draw(max < 20 ? max + 1 : 21);
    case 2: return C.draw(max < 200 ? max + 1 : 201);
    default: return C.draw(max + 1);
  }
}

// ---------------------------------------------------------------- globals of one run
Cfg cfg; Kernel *K; Run R; Scenario *scen; Alloc *A;
const char *cur_prop = "";
bool verbose = false;
int64_t alloc_fail_at; size_t alloc_fail_min; int alloc_fail_len; uint64_t alloc_calls, alloc_fail_count; bool alloc_failed;
static const uint64_t FUEL = 30000000; // library edges between two operations of the workload
uint64_t fuel, edges_run;
Violation V;
uint64_t trace_hash; uint64_t trace_len;
std::vector<Str> trace_text;
std::map<Str, uint64_t> probes, faults, ops;
uint64_t *shm_hash;
Stats stats;

void TR(const char *f, ...) {
  char b[400]; va_list ap; va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap); va_end(ap);
  if (n > (int)sizeof b - 1) n = sizeof b - 1;
  uint64_t h = trace_hash;
  for (int i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 0x100000001b3ull;
  h = (h ^ '\n') * 0x100000001b3ull;
  trace_hash = h; trace_len++;
  if (shm_hash) *shm_hash = h;
  if (verbose) trace_text.push_back(Str(b, n));
}
bool prop_is(const char *props) {
  size_t n = strlen(cur_prop);
  for (const char *p = props; (p = strstr(p, cur_prop)); p += n) return true;
  return false;
}
void probe(const char *name, uint64_t n) { probes[name] += n; }
void fault(const char *name) { faults[name]++; }
void sample_op(const char *name) { fuel = FUEL; ops[name]++; }

// ---------------------------------------------------------------- memory regions
extern "C" { extern char __start_maa_data[], __stop_maa_data[], __start_maa_bss[], __stop_maa_bss[]; }
static char *const ARENA = (char *)0x200000000000ull;
static const size_t ARENA_SZ = 1u << 30;
static char *const STACK = (char *)0x210000000000ull;
static const size_t STACK_SZ = 512u << 10;
static std::string init_data;
static size_t arena_hi; // highest bump ever (for reset)

__attribute__((no_sanitize("address"))) static void raw_copy(void *d, const void *s, size_t n) {
  asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
}
__attribute__((no_sanitize("address"))) static void raw_set(void *d, int c, size_t n) {
  asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
}
static char *shadow(const void *p) { return (char *)(((uintptr_t)p >> 3) + 0x7fff8000ull); }

void mem_init() {
  if (mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != ARENA ||
      mmap(STACK - 65536, STACK_SZ + 65536, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0) != STACK - 65536 ||
      mprotect(STACK, STACK_SZ, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(3); }
  init_data.resize(__stop_maa_data - __start_maa_data); raw_copy(&init_data[0], __start_maa_data, init_data.size());
  arena_hi = 0;
  __asan_poison_memory_region(ARENA, ARENA_SZ);
}

// ---------------------------------------------------------------- personas
void Image::save(char *sp) {
  sp_lo = sp;
  size_t n = STACK + STACK_SZ - sp;
  stack.resize(n); raw_copy(&stack[0], sp, n);
  sshadow.resize(n / 8 + 2); raw_copy(&sshadow[0], shadow(sp), n / 8 + 1);
  size_t dn = __stop_maa_data - __start_maa_data, bn = __stop_maa_bss - __start_maa_bss;
  globals.resize(dn + bn); raw_copy(&globals[0], __start_maa_data, dn); raw_copy(&globals[dn], __start_maa_bss, bn);
  size_t an = A->bump;
  heap.resize(an); raw_copy(&heap[0], ARENA, an);
  hshadow.resize(an / 8 + 2); raw_copy(&hshadow[0], shadow(ARENA), an / 8 + 1);
}
void Image::load() {
  size_t n = stack.size();
  raw_set(shadow(STACK), 0, (STACK_SZ - n) / 8);
  raw_copy(sp_lo, &stack[0], n);
  raw_copy(shadow(sp_lo), &sshadow[0], n / 8 + 1);
  size_t dn = __stop_maa_data - __start_maa_data, bn = __stop_maa_bss - __start_maa_bss;
  raw_copy(__start_maa_data, &globals[0], dn); raw_copy(__start_maa_bss, &globals[dn], bn);
  size_t an = heap.size();
  if (arena_hi > an) __asan_poison_memory_region(ARENA + an, arena_hi - an);
  raw_copy(ARENA, &heap[0], an);
  raw_copy(shadow(ARENA), &hshadow[0], an / 8 + 1);
}

Persona *P;                       // loaded persona
static std::vector<std::unique_ptr<Persona>> personas;
static ucontext_t sched_ctx;
static Persona *root;
static const void *main_stack_bottom; static size_t main_stack_size;
static enum { Y_NONE, Y_YIELD, Y_FORK, Y_GONE, Y_END } yreason;
static Persona *ynext;            // explicit choice of the next persona
static bool in_prog;              // inside coroutine stack

bool in_program() { return in_prog; }

static void __attribute__((noinline)) to_sched() {
  char *sp; asm volatile("mov %%rsp,%0" : "=r"(sp));
  Persona *me = P;
  me->sp = sp - 512;
  void *fake = nullptr;
  __sanitizer_start_switch_fiber(&fake, main_stack_bottom, main_stack_size);
  me->err = errno;
  swapcontext(&me->ctx, &sched_ctx);
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
  in_prog = true;
  errno = P->err;
}
[[noreturn]] static void leave_for_good(decltype(yreason) r) {
  yreason = r; to_sched();
  __builtin_trap();
}

[[noreturn]] void end_run(Outcome o, int code, const Str &how) {
  if (R.out == O_NONE) { R.out = o; R.code = code; R.how = how; TR("END outcome=%d code=%d %s", o, code, how.c_str()); }
  leave_for_good(Y_END);
}
void viol_sched(const char *cls, const Str &msg) {
  if (V.set) return;
  V.set = true; V.cls = cls; V.msg = msg;
  TR("VIOLATION %s: %s", cls, msg.c_str());
}
void viol(const char *cls, const char *f, ...) {
  va_list ap; va_start(ap, f); Str m = vfmt(f, ap); va_end(ap);
  viol_sched(cls, m);
  if (in_prog) end_run(O_VIOL, 0, "");
  throw SchedAbort();
}

const char *const outcome_name[] = {"none", "return", "exit", "_exit", "abort", "signal", "deadlock", "hang", "violation"};
void end_as(Outcome o, int code) {
  if (V.set || (R.out == o && (code < 0 || R.code == code))) return;
  Str tail = K->console2.size() > 300 ? K->console2.substr(K->console2.size() - 300) : K->console2;
  viol_sched(fmt("end-%s", outcome_name[R.out]).c_str(), fmt("program ended by %s(%d) (%s) instead of %s(%d); stderr %s", outcome_name[R.out], R.code, R.how.c_str(), outcome_name[o], code, quote(tail, 300).c_str()));
}
void Scenario::after() { end_as(O_RETURN); }
static void persona_entry() {
  __sanitizer_finish_switch_fiber(nullptr, &main_stack_bottom, &main_stack_size);
  in_prog = true;
  errno = 0;
  scen->main();
  end_run(O_RETURN, 0, "main returned");
}


// fork: both processes return from to_sched(), each with its own memory image
int __attribute__((noinline)) persona_fork(ProcP child) {
  Persona *c = new Persona();
  personas.emplace_back(c);
  c->proc = child;
  child.reset();
  c->app = P->app;
  c->fork_ret = 0;
  P->fork_ret = c->proc->pid;
  ynext = c;
  yreason = Y_FORK;
  to_sched();
  return P->fork_ret;
}
void persona_gone() { leave_for_good(Y_GONE); }
void persona_kill(Proc *p) {
  for (auto &q : personas) if (q->proc.get() == p) q->gone = true;
}
bool block_until(std::function<bool()> cond, uint64_t wake) {
  if (cond()) return true;
  P->cond = cond; P->wake = wake;
  yreason = Y_YIELD; to_sched();
  bool ok = P->cond();
  P->cond = nullptr; P->wake = UINT64_MAX;
  return ok;
}
void yield_burst(int n) {
  P->cond = nullptr; P->not_before = sched_tick + n;
  yreason = Y_YIELD; to_sched();
}

uint64_t sched_tick;
static bool prog_ready(Proc *p) {
  return p->state == Proc::RUN && p->h && ((uint64_t)K->mono >= p->wake || !p->cond || p->cond());
}
static bool persona_ready(Persona *q) {
  return !q->gone && ((uint64_t)K->mono >= q->wake || !q->cond || q->cond());
}
bool others_runnable() {
  for (auto &p : K->procs) if (p->h && prog_ready(p.get())) return true;
  for (auto &q : personas) if (q.get() != P && persona_ready(q.get())) return true;
  return false;
}
static void step_prog(Proc *p) {
  p->steps++; p->last_step = K->step; K->step++;
  if ((uint64_t)K->mono >= p->wake) p->wake = UINT64_MAX;
  p->cond = nullptr; p->wake = UINT64_MAX;
  K->progress++;
  K->futile = 0;
  auto h = p->h;
  resuming = p; h.resume(); resuming = nullptr;
  if (p->state == Proc::RUN && h.done()) K->exitProc(p, (p->exited_code < 0 ? 0 : p->exited_code) << 8);
  if (p->state != Proc::RUN && p->h) { p->h.destroy(); p->h = nullptr; }
}
static const uint64_t MAX_TICKS = 400000;
// choose the next persona to run, stepping programs meanwhile; null: nothing will ever run again
static Persona *choose() {
  for (;;) {
    if (++sched_tick > MAX_TICKS) { if (R.out == O_NONE) { R.out = O_HANG; R.how = "step budget of the scheduler used up"; } return nullptr; }
    struct E { Proc *pr; Persona *pe; };
    E c[64]; int n = 0, held = 0; Persona *heldp = nullptr;
    // personas first so that choice 0 prefers the newest library process, then the root
    for (size_t i = personas.size(); i-- > 0;) {
      Persona *q = personas[i].get();
      if (!persona_ready(q)) continue;
      if (q->not_before > sched_tick) { held++; if (!heldp) heldp = q; continue; }
      if (n < 64) c[n++] = {nullptr, q};
    }
    for (auto &p : K->procs) if (p->h && prog_ready(p.get()) && n < 64) c[n++] = {p.get(), nullptr};
    if (!n && held) { heldp->not_before = 0; return heldp; }
    if (!n) {
      uint64_t w = UINT64_MAX; bool other = false;
      for (auto &q : personas) if (!q->gone && q->wake < w) w = q->wake;
      for (auto &p : K->procs) if (p->h && p->state == Proc::RUN && p->wake != UINT64_MAX) { other = true; if (p->wake < w) w = p->wake; }
      if (w == UINT64_MAX) return nullptr;
      if (other) K->futile = 0;
      if ((uint64_t)K->mono < w) { TR("time -> +%lldus", (long long)(w - K->mono)); K->advance(w - K->mono); }
      continue;
    }
    E e = c[draw(n)];
    if (e.pe) { e.pe->not_before = 0; return e.pe; }
    step_prog(e.pr);
    if (V.set) return nullptr;
  }
}
static Persona *loaded;
static void resume(Persona *q) {
  if (loaded != q) {
    if (loaded && !loaded->gone) loaded->img.save(loaded->sp);
    if (q->started) { P = q; A = &q->app.alloc; q->img.load(); }
    loaded = q;
  }
  P = q; A = &q->app.alloc; K->cur = q->proc;
  void *fake = nullptr;
  yreason = Y_NONE;
  __sanitizer_start_switch_fiber(&fake, STACK, STACK_SZ);
  bool first = !q->started; q->started = true;
  (void)first;
  swapcontext(&sched_ctx, &q->ctx);
  in_prog = false;
  __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
}

void execute_run() {
  // reset the library's memory
  raw_copy(__start_maa_data, init_data.data(), init_data.size());
  raw_set(__start_maa_bss, 0, __stop_maa_bss - __start_maa_bss);
  if (arena_hi) __asan_poison_memory_region(ARENA, arena_hi);
  static const size_t KEEP = 64u << 20;
  if (arena_hi > KEEP) madvise(ARENA + KEEP, ARENA_SZ - KEEP, MADV_DONTNEED);  // give back what one big run used
  arena_hi = 0;
  __asan_unpoison_memory_region(STACK, STACK_SZ);
  K = new Kernel(); R = Run(); V = Violation(); cfg = Cfg();
  trace_hash = 0xcbf29ce484222325ull; trace_len = 0; trace_text.clear();
  alloc_fail_at = 0; alloc_fail_min = 0; alloc_fail_len = 1; alloc_calls = 0; alloc_failed = false; alloc_fail_count = 0;
  fuel = FUEL; edges_run = 0; sched_tick = 0;
  loaded = nullptr; ynext = nullptr; in_prog = false;
  personas.clear();
  root = new Persona(); personas.emplace_back(root);
  P = root; A = &root->app.alloc;
  run_reset();
  try {
    ProcP p = K->newProc(1); p->persona = true; p->foreign = true; root->proc = p; K->cur = p;
    std_fds(p.get());
    scen->configure();
    stdio_reset(root->app);
    A->fillst = 0x1234567 + cfg.fill;
    raw_set(STACK + STACK_SZ - 65536, cfg.fill == 0 ? 0 : 0xA5, 65536);
    getcontext(&root->ctx);
    root->ctx.uc_stack.ss_sp = STACK; root->ctx.uc_stack.ss_size = STACK_SZ; root->ctx.uc_link = nullptr;
    makecontext(&root->ctx, (void (*)())persona_entry, 0);
    Persona *cur = root;
    while (R.out == O_NONE && !V.set) {
      resume(cur);
      if (yreason == Y_END) break;
      if (yreason == Y_GONE) {
        cur->gone = true; loaded = nullptr;
      } else if (yreason == Y_FORK) {
        Persona *c = ynext;
        cur->img.save(cur->sp);
        memcpy(&c->ctx, &cur->ctx, sizeof(ucontext_t));
        c->ctx.uc_mcontext.fpregs = (decltype(c->ctx.uc_mcontext.fpregs))&c->ctx.__fpregs_mem;
        c->sp = cur->sp; c->img = cur->img; c->started = true; c->err = cur->err;
      }
      cur = choose();
      if (V.set || R.out != O_NONE) break;
      if (!cur) { R.out = O_DEADLOCK; R.how = "every process is blocked and no timer is pending"; TR("DEADLOCK"); break; }
      // dead root: the run is over
      if (root->gone) { if (R.out == O_NONE) { R.out = O_SIGNAL; R.code = root->proc->died_sig; } break; }
    }
    if (!V.set && R.out == O_HANG) TR("HANG %s", R.how.c_str());
    if (!V.set) {
      P = root; A = &root->app.alloc; K->cur = root->proc;
      if (loaded && loaded != root && root->img.sp_lo && !root->gone) { root->img.load(); loaded = root; }
      scen->after();
    }
  } catch (SchedAbort &) {}
  stats.steps += K->step; stats.syscalls += K->syscalls; stats.ticks += sched_tick; stats.edges += edges_run; stats.allocs += alloc_calls; stats.sim_us += K->mono; stats.procs += K->procs.size(); stats.execs += K->execs.size();
  stats.outcomes[R.out]++;
  delete scen; scen = nullptr;
  delete K; K = nullptr;
  personas.clear();
}

// ---------------------------------------------------------------- guards
int guarded(const std::function<void()> &fn, bool catch_exit, int *code) {
  Guard *g = new Guard; g->catch_exit = catch_exit; g->frame = (char *)__builtin_frame_address(0);
  size_t depth = P->app.guards.size();
  int ad = P->app.app_depth;
  P->app.guards.push_back(g);
  getcontext(&g->ctx);
  if (!g->fired) fn();
  P->app.guards.resize(depth);
  P->app.app_depth = ad;
  int r = g->fired; if (code) *code = g->code;
  if (r) P->app.exiting = false;
  delete g;
  return r;
}
bool guard_fire(int how, int code) {
  if (P->app.guards.empty()) return false;
  Guard *g = P->app.guards.back();
  if (how == 2 && !g->catch_exit) return false;
  g->fired = how; g->code = code;
  char *sp = (char *)__builtin_frame_address(0) - 8192;
  if (sp < STACK) sp = STACK;
  if (g->frame > sp) __asan_unpoison_memory_region(sp, g->frame - sp);
  setcontext(&g->ctx);
  return true;
}
bool in_child_persona() { return P != root; }

// ---------------------------------------------------------------- allocator
static const size_t RZ = 32;
static void fill_block(char *p, size_t n) {
  switch (cfg.fill) {
    case 0: raw_set(p, 0, n); break;
    case 1: raw_set(p, 0xA5, n); break;
    case 2: raw_set(p, 0xFF, n); break;
    case 4: raw_set(p, 1, n); break;
    default: for (size_t i = 0; i < n; i++) { A->fillst = A->fillst * 6364136223846793005ull + 1442695040888963407ull; p[i] = A->fillst >> 56; }
  }
}
static char *alloc_raw(size_t n, bool app) {
  size_t cap = (n + 15) & ~(size_t)15; if (!cap) cap = 16;
  char *p = nullptr;
  if (cfg.reuse && !app) {
    int found = -1, cnt = 0;
    for (int i = (int)A->freed.size() - 1; i >= 0; i--) if (A->freed[i].second == cap) { if (found < 0) found = i; if (++cnt > 8) break; }
    if (found >= 0 && cfg.reuse == 2 && chance(1, 3)) found = -1;
    if (found >= 0) { p = (char *)A->freed[found].first; A->freed.erase(A->freed.begin() + found); }
  }
  if (!p) {
    if (A->bump + cap + 2 * RZ > ARENA_SZ) return nullptr;
    p = ARENA + A->bump + RZ; A->bump += cap + RZ;
    if (A->bump + RZ > arena_hi) arena_hi = A->bump + RZ;
  }
  __asan_unpoison_memory_region(p, n);
  if (!app) {
    A->live[(uintptr_t)p] = {n, A->seq++}; A->live_bytes += n;
    if (A->live_bytes > A->peak) A->peak = A->live_bytes;
    fill_block(p, n);
  }
  return p;
}
static bool alloc_refused(const char *what, size_t n) {
  alloc_calls++;
  if (alloc_fail_at <= 0 || n < alloc_fail_min) return false;
  if (--alloc_fail_at > 0) return false;
  if (alloc_fail_len > 0) { if (--alloc_fail_len > 0) alloc_fail_at = 1; }
  else if (alloc_fail_len < 0) alloc_fail_at = 1;
  alloc_failed = true; alloc_fail_count++;
  fault("alloc-refused");
  TR("%s(%zu) refused", what, n);
  errno = ENOMEM;
  return true;
}
size_t live_blocks() { return A->live.size(); }
size_t live_bytes() { return A->live_bytes; }
bool heap_ok(const void *p, size_t n) { return !__asan_region_is_poisoned((void *)p, n); }
void *app_block(size_t n, int fill) { char *p = alloc_raw(n, true); raw_set(p, fill, n); return p; }
void app_free(void *p) { __asan_poison_memory_region(p, 16); }
} // namespace sim
using namespace sim;
extern "C" {
void *sim_malloc(size_t n) {
  if (alloc_refused("malloc", n)) return nullptr;
  if (n > (32u << 20)) { errno = ENOMEM; return nullptr; }
  char *p = alloc_raw(n, false);
  if (!p) errno = ENOMEM;
  return p;
}
void *sim_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  if (alloc_refused("calloc", n)) return nullptr;
  if (n > (32u << 20)) { errno = ENOMEM; return nullptr; }
  char *p = alloc_raw(n, false);
  if (p) raw_set(p, 0, n); else errno = ENOMEM;
  return p;
}
void sim_free(void *p) {
  if (!p) return;
  auto it = A->live.find((uintptr_t)p);
  if (it == A->live.end()) viol("bad-free", "free of a block that is not allocated (double or foreign free)");
  size_t n = it->second.size, cap = (n + 15) & ~(size_t)15; if (!cap) cap = 16;
  A->live.erase(it); A->live_bytes -= n;
  raw_set(p, 0xDD, n);
  __asan_poison_memory_region(p, cap);
  if (cfg.reuse) A->freed.push_back({(uintptr_t)p, cap});
}
void *sim_realloc(void *p, size_t n) {
  if (!p) return sim_malloc(n);
  auto it = A->live.find((uintptr_t)p);
  if (it == A->live.end()) viol("bad-free", "realloc of a block that is not allocated");
  if (!n) { sim_free(p); return nullptr; }
  if (alloc_refused("realloc", n)) return nullptr;
  if (n > (32u << 20)) { errno = ENOMEM; return nullptr; }
  size_t old = it->second.size, cap = (old + 15) & ~(size_t)15; if (!cap) cap = 16;
  bool inplace = n <= cap && (cfg.realloc_mode == 1 || (cfg.realloc_mode == 2 && chance(1, 2)));
  if (inplace) {
    if (n > old) { __asan_unpoison_memory_region(p, n); fill_block((char *)p + old, n - old); }
    else __asan_poison_memory_region((char *)p + ((n + 7) & ~7ul), cap - ((n + 7) & ~7ul)), __asan_poison_memory_region(p, cap), __asan_unpoison_memory_region(p, n);
    A->live_bytes += n - old; it->second.size = n;
    if (A->live_bytes > A->peak) A->peak = A->live_bytes;
    return p;
  }
  char *q = alloc_raw(n, false);
  if (!q) { errno = ENOMEM; return nullptr; }
  raw_copy(q, p, old < n ? old : n);
  sim_free(p);
  return q;
}
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)sim_malloc(n + 1); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
void *sim_reallocarray(void *p, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; } return sim_realloc(p, n); }
static void *aligned(size_t al, size_t n) { return al <= 16 ? sim_malloc(n) : (errno = ENOMEM, nullptr); }
void *sim_memalign(size_t al, size_t n) { return aligned(al, n); }
void *sim_aligned_alloc(size_t al, size_t n) { return aligned(al, n); }
int sim_posix_memalign(void **p, size_t al, size_t n) { *p = aligned(al, n); return *p ? 0 : ENOMEM; }
size_t sim_malloc_usable_size(void *p) { auto it = A->live.find((uintptr_t)p); return it == A->live.end() ? 0 : it->second.size; }
int sim_vasprintf(char **r, const char *f, va_list ap) {
  Str s = vfmt(f, ap); char *p = (char *)sim_malloc(s.size() + 1);
  if (!p) { *r = nullptr; return -1; }
  memcpy(p, s.c_str(), s.size() + 1); *r = p; return (int)s.size();
}
int sim_asprintf(char **r, const char *f, ...) { va_list ap; va_start(ap, f); int n = sim_vasprintf(r, f, ap); va_end(ap); return n; }

// coverage and fuel: the library is compiled with trace-pc-guard
void __sanitizer_cov_trace_pc_guard_init(uint32_t *s, uint32_t *e) {
  if (s == e || *s) return;
  for (; s < e; s++) *s = ++edge_count;
  edge_hit.resize(edge_count + 1);
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  edge_hit[*g] = 1; edges_run++;
  if (!--fuel) end_run(O_HANG, 0, "the library ran for millions of steps without returning");
}
}
namespace sim { std::vector<uint8_t> edge_hit; uint32_t edge_count; 
std::vector<RegEntry> &registry() { static std::vector<RegEntry> r; return r; }
Reg::Reg(const char *props, const char *name, int weight, Factory f) { registry().push_back({props, name, weight, f}); }
}
