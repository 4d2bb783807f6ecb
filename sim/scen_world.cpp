// Whole-library workloads: refused memory, memory conservation, restart.
#include "actors.h"
#include "core.h"
#include "progs.h"
#include <signal.h>
extern "C" sighandler_t sim_signal(int, sighandler_t);
namespace {
using namespace sim; using namespace act;
bool has_text(const Str &hay, const char *lower) { Str h; for (char c : hay) h += (char)tolower((unsigned char)c); return h.find(lower) != Str::npos; }
struct World {
  std::vector<ActorP> a; bool gstr = false, src = false, log = false, tim = false, pr = false, misc = false; uint32_t mask = ~0u;
  bool inited = false; int trace_flags = 0;
  ActorP one() {
    for (;;) {
      uint32_t k = rn(15);
      switch (k) {
        case 0: case 1: return mk_hash(); case 2: return mk_sets(); case 3: return mk_list(); case 4: return mk_stack(); case 5: return mk_sl(); case 6: return mk_str(false);
        case 7: return mk_obj(); case 8: return mk_mstr(); case 9: return mk_arg();
        case 10: if (!gstr) { gstr = true; return mk_str(true); } break;
        case 11: if (!src) { src = true; return mk_src(); } break;
        case 12: if (!log) { log = true; return mk_log(); } break;
        case 13: if (!tim) { tim = true; return mk_tim(); } break;
        default: if (rn(2)) { if (!pr && opt.pr) { pr = true; return mk_pr(); } } else if (!misc) { misc = true; return mk_misc(); }
      }
      return mk_stack();
    }
  }
  void build(int n) { team = rn(2) ? &a : nullptr; for (int i = 0; i < n; i++) a.push_back(one()); }
  void op() { a[rn(a.size())]->op(); }
  // the source manager's tokens point into the global pool: it goes first
  void destroy_all() {
    team = nullptr;
    for (size_t i = 0; i < a.size();) if (a[i]->kind == "source") { a[i]->destroy(); a.erase(a.begin() + i); } else i++;
    while (!a.empty()) { size_t k = rn(a.size()); a[k]->destroy(); a.erase(a.begin() + k); }
    gstr = src = log = tim = pr = misc = false;
  }
};
World *W; bool handler_done;
void alloc_cfg() { cfg.reuse = draw(3); cfg.realloc_mode = draw(3); cfg.fill = draw(5); cfg.rnd_mode = draw(5); cfg.tty_out = draw(2); cfg.stdio_buf = draw(2) ? 4096 : 16; }

// ---------------------------------------------------------------- C13, C14: memory runs out
struct Oom : Scenario {
  World w; uint32_t nops = 0; int nact = 0; bool transient = false; bool armed = false; bool dbgmem = false;
  virtual bool handler() { return false; }
  void configure() override {
    alloc_cfg(); W = &w; handler_done = false; nops = range(1, draw(3) ? 60 : 250); nact = range(1, draw(2) ? 2 : 6);
    if (draw(3) == 0) { cfg.p_preempt = 20; }
  }
  static void on_exit() {
    alloc_fail_at = 0; team = nullptr; for (auto &x : W->a) if (x->in_use) probe("interrupted-inside-traversal");
    for (auto &x : W->a) if (!x->dead && !x->pend_destroy) { x->unlock(); TR("handler verifies %s", x->kind.c_str()); x->verify("C14", true); }
    probe("handler-verified");
    for (auto &x : W->a) if (!x->dead && !x->pend_destroy && x->kind == "source") { TR("handler destroys %s", x->kind.c_str()); x->destroy(); }
    for (auto &x : W->a) if (!x->dead && !x->pend_destroy) { TR("handler destroys %s", x->kind.c_str()); x->destroy(); }
    log_close(); maa_shutdown();
    if (rn(2)) { maa_init("again"); hsh_HashTable t = hsh_create(nullptr, nullptr); hsh_insert(t, "k", "v"); CHECK("C14", "after-shutdown", hsh_retrieve(t, "k") && !strcmp((const char *)hsh_retrieve(t, "k"), "v"), "a new table does not work in the exit handler"); hsh_destroy(t); maa_shutdown(); }
    handler_done = true;
  }
  void main() override {
    init_tables(); opt.fatal = false;
    if (handler()) sim_atexit(on_exit);
    // where the refusal strikes: during initialisation, construction, operation, teardown
    uint32_t phase = draw(8); if (handler() && phase == 0) phase = 3;
    auto arm = [&](uint32_t far) { armed = true; if (far != 8 && draw(5) == 0) { static const int big[] = {100, 400, 1500, 7000, 15000}; alloc_fail_min = big[draw(5)]; far = 1 + draw(3); probe("refuse-large-requests"); } alloc_fail_at = 1 + draw(far); alloc_fail_len = handler() ? 1 : draw(3) == 0 ? -1 : 1 + draw(3); TR("allocation %lld from now of %zu bytes or more is refused (%d)", (long long)alloc_fail_at, alloc_fail_min, alloc_fail_len); };
    if (phase == 0) arm(12);
    w.inited = rn(4) != 0; if (w.inited) maa_init("oom");
    if (phase == 1 && !handler()) arm(30);
    w.build(nact);
    if (phase == 2 && !handler()) arm(10);
    uint32_t at = phase >= 6 ? nops : draw(nops);
    for (uint32_t i = 0; i < nops; i++) {
      if (i == at && !armed) arm(draw(2) ? 3 : 60);
      w.op();
    }
    if (!armed) arm(8);
    if (alloc_fail_min) { for (int k = 0; k < 400 && alloc_fail_at > 0 && !alloc_failed; k++) w.op(); alloc_fail_min = 0; if (!alloc_failed) alloc_fail_at = 1; }
    if (!handler()) { w.destroy_all(); if (rn(2)) { str_destroy(); } if (w.inited) maa_shutdown(); }
    else { for (int k = 0; k < 400 && alloc_fail_at > 0; k++) w.op(); alloc_fail_at = 0; }
  }
  void after() override {
    if (!alloc_failed || (R.out == O_RETURN && child_only())) { if (R.out == O_EXIT && !alloc_failed) end_as(O_RETURN); else if (R.out != O_EXIT) end_as(O_RETURN); return; }
    end_as(O_EXIT, 1);
    if (V.set) return;
    CHECK("C13,C14", "oom-message", has_text(K->console2, "out of memory") || has_text(K->console2, "cannot allocate memory"), "no out-of-memory message: %s", quote(K->console2, 200).c_str());
    if (handler()) { CHECK("C14", "handler-unfinished", handler_done, "the exit handler did not complete"); }
    probe("oom-exit");
  }
  bool child_only() { for (auto &p : K->procs) if (p->persona && p->ppid != 1) return true; return false; }
};
struct OomExit : Oom {};
SCENARIO("C13", "out-of-memory", 1, OomExit);
struct OomHandler : Oom { bool handler() override { return true; } };
SCENARIO("C14", "exit-handler", 1, OomHandler);

// ---------------------------------------------------------------- C15: conservation
struct Conserve : Scenario {
  World w; uint32_t nops = 0; int cycles = 1;
  void configure() override { alloc_cfg(); nops = range(1, draw(2) ? 80 : 250); cycles = 1 + draw(3); if (draw(3) == 0) cfg.p_preempt = 20; if (draw(4) == 0) cfg.p_eintr = 20; }
  void leaks(const char *when) {
    if (live_blocks()) { Str s; int n = 0; for (auto &b : A->live) { if (n++ < 8) s += fmt(" %zu", b.second.size); } CHECK("C15", "leak", false, "%s %zu blocks (%zu bytes) are still allocated; sizes%s", when, live_blocks(), live_bytes(), s.c_str()); }
  }
  void main() override {
    init_tables(); if (draw(5) == 0) { AppScope a; sim_signal(SIGCHLD, SIG_IGN); }
    for (int c = 0; c < cycles; c++) {
      if (rn(4)) maa_init("conserve");
      w.build(rr(1, 6));
      for (uint32_t i = 0; i < nops; i++) {
        w.op();
        if (rch(1, 50)) { size_t k = rn(w.a.size()); const Str &kd = w.a[k]->kind; if (kd != "source" && kd != "strings" && kd != "timers" && kd != "log" && kd != "misc" && kd != "coprocess") { w.a[k]->destroy(); w.a[k] = rn(2) ? mk_hash() : mk_list(); } }
      }
      w.destroy_all();
      maa_shutdown();
      leaks("after everything is destroyed and shut down");
      probe("cycle");
    }
  }
};
SCENARIO("C15", "conservation", 3, Conserve);

// repeated cycles of the same work must not hold more and more memory
struct Churn : Scenario {
  int what = 0, n = 0, rounds = 0; 
  void configure() override { alloc_cfg(); what = draw(17); n = 1 + draw(draw(2) ? 8 : 60); rounds = 6 + draw(10); }
  static int it(const void *) { return 0; }
  static int itd(const void *, const void *) { return 0; }
  void main() override {
    init_tables(); if (draw(5) == 0) { AppScope a; sim_signal(SIGCHLD, SIG_IGN); }
    maa_init("churn");
    hsh_HashTable h = hsh_create(nullptr, nullptr); set_Set s = set_create(nullptr, nullptr), s2 = set_create(nullptr, nullptr); lst_List l = lst_create(); stk_Stack st = stk_create();
    sl_List sl = sl_create([](const void *a, const void *b) { auto x = (uintptr_t)a, y = (uintptr_t)b; return x < y ? -1 : x > y; }, [](const void *d) -> const void * { return d; }, nullptr);
    mem_Object mo = mem_create_objects(24); str_Pool sp = str_pool_create(); (void)s2;
    for (int i = 0; i < 5; i++) set_insert(s2, sk[0][i + 1]);
    size_t base = 0;
    for (int r = 0; r < rounds; r++) {
      switch (what) {
        case 0: for (int i = 0; i < n; i++) hsh_insert(h, sk[0][i], sk[0][i]); hsh_iterate(h, itd); for (int i = 0; i < n; i++) hsh_delete(h, sk[1][i]); break;
        case 1: for (int i = 0; i < n; i++) set_insert(s, sk[0][i]); set_iterate(s, it); for (int i = 0; i < n; i++) set_delete(s, sk[1][i]); break;
        case 2: for (int i = 0; i < n; i++) if (i & 1) lst_append(l, blob + i); else lst_push(l, blob + i); for (int i = 0; i < n; i++) lst_pop(l); break;
        case 3: for (int i = 0; i < n; i++) lst_append(l, blob + i); lst_truncate(l, n / 2); lst_truncate(l, 0); break;
        case 4: for (int i = 0; i < n; i++) stk_push(st, blob + i); while (!stk_isempty(st)) stk_pop(st); break;
        case 5: for (int i = 0; i < n; i++) sl_insert(sl, blob + i); for (int i = 0; i < n; i++) sl_delete(sl, blob + i); break;
        case 6: { std::vector<void *> v; for (int i = 0; i < n; i++) v.push_back(i & 1 ? mem_get_object(mo) : mem_get_empty_object(mo)); for (void *p : v) mem_free_object(mo, p); break; }
        case 7: for (int i = 0; i < n; i++) { str_find(sk[0][i]); str_pool_find(sp, sk[1][i]); str_findn(sk[0][i], 1); str_exists(sk[1][i]); } break;
        case 8: for (int i = 0; i < n; i++) { tim_start("churn"); tim_stop("churn"); tim_reset("churn"); } break;
        case 9: { static const char *p[] = {"/log/churn%Y", "churn.log", "a/b/churn", "/log/%Y/%m/x"}; log_file("churn", p[n % 4]); } log_info("x %d", r); log_stream("other", sim_stderr); log_error("r", "y"); log_syslog("z"); if (n & 1) log_close(); else { log_syslog(nullptr); log_file(nullptr, nullptr); log_stream(nullptr, nullptr); } break;
        case 10: { int in, out, er; pr_open("cmd C", PR_CREATE_STDIN | PR_CREATE_STDOUT | (n & 1 ? PR_CREATE_STDERR : 0), &in, &out, &er); pr_close_nowait(in); if (n & 1) pr_close_nowait(er); pr_close(out); pr_spawn("cmd X3"); break; }
        case 11: { char *b = (char *)app_block(64, 0); pr_filter("cmd C", "some input", n % 11, b, 64); break; }
        case 12: { arg_List g = arg_argify("a 'b c' \"d e\" f\\ g", 0); for (int i = 0; i < n; i++) arg_add(g, "more"); arg_grow(g, "x", 1); if (n & 1) arg_finish(g); arg_destroy(g); break; }
        case 13: { for (int i = 0; i < n; i++) src_line("a line\n", 7); src_get(3); src_destroy(); break; }
        case 14: { set_Set u = set_union(s2, s2), d = set_diff(u, s2), x = set_inter(u, s2); set_add(d, x); set_del(u, d); set_equal(d, x); set_destroy(u); set_destroy(d); set_destroy(x); break; }
        case 15: { hsh_HashTable t = hsh_create(hsh_pointer_hash, hsh_pointer_compare); for (int i = 0; i < n; i++) hsh_insert(t, blob + i, blob); xfree(hsh_get_stats(t)); hsh_destroy(t); lst_List q = lst_create(); for (int i = 0; i < n; i++) lst_append(q, blob + i); lst_destroy(q); sl_List y = sl_create([](const void *a, const void *b) { return a < b ? -1 : a > b; }, [](const void *d) -> const void * { return d; }, nullptr); for (int i = 0; i < n; i++) sl_insert(y, blob + i); sl_destroy(y); break; }
        default: { mem_String m = mem_create_strings(); for (int i = 0; i < n; i++) { mem_strcpy(m, "abc"); mem_grow(m, "de", 2); mem_finish(m); } mem_grow(m, "unfinished", 10); mem_destroy_strings(m); str_Pool q = str_pool_create(); for (int i = 0; i < n; i++) { str_pool_grow(q, sk[0][i + 1], 2); str_pool_finish(q); str_pool_copy(q, "x"); } xfree(str_pool_get_stats(q)); str_pool_destroy(q); src_print_stats(sim_stdout); hsh_print_stats(h, sim_stdout); set_print_stats(s2, sim_stdout); str_print_stats(sim_stdout); }
      }
      TR("round %d: %zu bytes", r, live_bytes());
      if (r == 2) base = live_bytes();
      if (r > 2) CHECK("C15", "accumulate", live_bytes() <= base, "round %d of the same work (kind %d, size %d) holds %zu bytes, round 3 held %zu", r + 1, what, n, live_bytes(), base);
    }
    probe(fmt("churn-%d", what).c_str());
    hsh_destroy(h); set_destroy(s); set_destroy(s2); lst_destroy(l); stk_destroy(st); sl_destroy(sl); mem_destroy_objects(mo); str_pool_destroy(sp); src_destroy();
    maa_shutdown();
    CHECK("C15", "leak", !live_blocks(), "%zu blocks (%zu bytes) are still allocated after shutdown (work kind %d)", live_blocks(), live_bytes(), what);
  }
};
SCENARIO("C15", "churn", 1, Churn);

// ---------------------------------------------------------------- C16: restart
struct Restart : Scenario {
  std::vector<Str> n1, n2; Feed rec; uint32_t opsA = 0, opsB = 0; int sessions = 1; bool done1 = false; int64_t wall0 = 0;
  void configure() override { alloc_cfg(); opsA = range(0, draw(2) ? 60 : 200); opsB = range(1, draw(2) ? 60 : 200); sessions = 1 + draw(2); cfg.pipe_cap = 65536; }
  void session(uint32_t nops, int endmode) {
    World w; asides = 0; log_set_facility("user"); log_option(LOG_OPTION_FULL);
    bool init = rn(4) != 0; if (init) maa_init("restart"); note("program name %s", err_program_name() ? err_program_name() : "(none)");
    w.build(rr(1, 6));
    for (uint32_t i = 0; i < nops; i++) w.op();
    w.destroy_all();
    (void)endmode;
    maa_shutdown();
    // what is left behind by the session for the next one to stumble over
    note("after shutdown: debug %d flags %d", !!dbg_test(1), !!flg_test(1));
    err_set_program_name(nullptr);
  }
  void main() override {
    init_tables();
    wall0 = K->wall;
    if (rn(3) == 0) { int k = rr(1, 2); for (int i = 0; i < k; i++) maa_shutdown(); probe("shutdown-without-init"); }
    int pid; { AppScope s; pid = sim_fork(); }
    if (!pid) {
      notes = &n1; feed = Feed(); feed.mode = 1;
      session(opsB, 0);
      rec = feed; notes = nullptr; done1 = true;
      { AppScope s; sim__exit(0); }
    }
    { AppScope s; int st; while (sim_waitpid(pid, &st, 0) < 0) {} }
    if (!done1) return; // the reference session was cut short; the run is judged by its own oracles
    notes = nullptr; feed = Feed();
    for (int i = 0; i < sessions; i++) { clear(); session(opsA, 1); if (draw(3) == 0) { maa_shutdown(); probe("shutdown-twice"); } src_destroy(); log_close(); }
    clear(); K->wall = wall0;
    notes = &n2; feed = rec; feed.mode = 2; feed.pos = 0;
    session(opsB, 0);
    notes = nullptr;
    size_t i = 0; while (i < n1.size() && i < n2.size() && n1[i] == n2[i]) i++;
    CHECK("C16", "restart-differs", i == n1.size() && i == n2.size(), "operation %zu of the second session gives %s; in a fresh process it gives %s", i, i < n2.size() ? quote(n2[i], 120).c_str() : "nothing", i < n1.size() ? quote(n1[i], 120).c_str() : "nothing");
    probe("sessions-compared"); probe("notes", n1.size());
  }
  // the outside world is as the reference session found it
  void clear() { K->fs.clear(); sim_fflush(sim_stdout); }
  void after() override { CHECK("C16", "reference-died", R.out != O_RETURN || done1, "the session in a fresh process did not complete"); end_as(O_RETURN); }
};
SCENARIO("C16", "restart", 1, Restart);
}
