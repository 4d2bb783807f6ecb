// Timers (C12): every reading is compared with the simulated clocks.
#include "actors.h"
#include "core.h"
#include "progs.h"
#include <math.h>
#include <signal.h>
namespace {
using namespace sim; using namespace act;
enum { NT = 700 };
char tn[2][NT][24], scratch[24];
struct Iv { double lo, hi; };
struct Mark { std::vector<Iv> real; Iv su, ss, cu, cs; };  // what a reading taken during a call may have been
struct T { Mark start; std::vector<Iv> real; Iv u, s; bool have = false; };
struct Timers : Scenario {
  uint32_t nops = 0; int uni = 8; std::map<int, T> t; bool noise = false; bool inited = false;
  void configure() override {
    for (int k = 0; k < 2; k++) for (int i = 0; i < NT; i++) snprintf(tn[k][i], 24, i == 3 ? "" : i % 7 == 5 ? "a rather long name %d" : "timer%d", i);
    noise = draw(2); if (noise) { cfg.p_clock = draw(2) ? 30 : 90; static const uint32_t m[] = {1, 1000, 1500000}; cfg.clock_max = m[draw(3)]; if (draw(2)) { cfg.p_jump = 10; cfg.jumps = {1, -1, 3600, -3600, 31536000, -86400}; } }
    static const int us[] = {3, 8, 40, 700}; uni = us[draw(4)]; nops = 5 + draw(uni > 100 ? 1500 : 80);
    static const int64_t w[] = {1000000000999999ll, 1000000000000000ll, 2147483647999990ll, 1234567890123456ll, 4102444800500000ll}; K->wall = w[draw(5)]; K->mark_wall(); cfg.reuse = draw(3); cfg.fill = draw(5); cfg.tty_out = draw(2);
  }
  struct Begin { size_t w; int64_t wall; uint64_t u, s, cu, cs; };
  Begin begin() { Proc *p = K->cur.get(); return {K->walls.size() - 1, K->wall, p->cpu_u, p->cpu_s, p->cpu_cu, p->cpu_cs}; }
  Mark end(const Begin &b) {
    Mark m; Proc *p = K->cur.get(); for (size_t i = b.w; i < K->walls.size(); i++) m.real.push_back({(i == b.w ? b.wall : K->walls[i].lo) / 1.0, K->walls[i].hi / 1.0});
    m.su = {b.u / 1.0, p->cpu_u / 1.0}; m.ss = {b.s / 1.0, p->cpu_s / 1.0}; m.cu = {b.cu / 1.0, p->cpu_cu / 1.0}; m.cs = {b.cs / 1.0, p->cpu_cs / 1.0}; return m;
  }
  static Iv minus(const Iv &a, const Iv &b) { return {(a.lo - b.hi) / 1e6, (a.hi - b.lo) / 1e6}; }
  static bool in(double v, const Iv &i) { return v >= i.lo - 6e-7 && v <= i.hi + 6e-7; }
  static bool in(double v, const std::vector<Iv> &r) { for (auto &i : r) if (in(v, i)) return true; return false; }
  void check(int i, const char *when) {
    T &x = t[i]; Buf nb(tn[0][i], true); double r = tim_get_real(draw(2) ? nb.p : tn[draw(2)][i]), u = tim_get_user(tn[draw(2)][i]), s = tim_get_system(tn[draw(2)][i]);
    CHECK("C12", "tim-real", in(r, x.real), "%s: timer %s reports %.7f s of wall time; the clock says %.6f", when, quote(tn[0][i]).c_str(), r, x.real[0].lo);
    CHECK("C12", "tim-user", in(u, x.u), "%s: timer %s reports %.7f s of user time; the clock says %.6f", when, quote(tn[0][i]).c_str(), u, x.u.lo);
    CHECK("C12", "tim-system", in(s, x.s), "%s: timer %s reports %.7f s of system time; the clock says %.6f", when, quote(tn[0][i]).c_str(), s, x.s.lo);
    sample_op("tim-read");
  }
  Str line(int i) { return fmt("%-20s %0.3fr %0.3fu %0.3fs\n", tn[0][i], tim_get_real(tn[0][i]), tim_get_user(tn[0][i]), tim_get_system(tn[0][i])); }
  void work() {
    Proc *p = K->cur.get(); static const uint64_t m[] = {1, 10, 999999, 1000000, 1000001, 5000000, 3600000000ull};
    switch (draw(7)) {
      case 0: p->cpu_u += m[draw(7)]; break; case 1: p->cpu_s += m[draw(7)]; break; case 2: K->advance(m[draw(7)]); break; case 3: K->advance(draw(3000000)); p->cpu_u += draw(2000000); p->cpu_s += draw(2000000); break;
      case 4: { static const int64_t j[] = {1000000, -1000000, 3600000000ll, -3600000000ll, 999999, -1, 86400000000ll * 400, -86400000000ll * 400}; K->jump(j[draw(8)]); break; }
      case 5: if (draw(4) == 0) { int64_t c = 3155760000ll * 1000000; K->jump(K->wall > c * 3 / 2 ? -c : c); probe("a-century"); break; } [[fallthrough]];
      default: { // a child that uses CPU time and is reaped
        AppScope a; ProcP c = spawn_foreign(fmt("U%u S%u X0", draw(1500000), draw(1500000)), true); int st; if (draw(4)) { while (sim_waitpid(c->pid, &st, 0) < 0) {} probe("child-cpu"); } break; }
    }
  }
  void stopped(int i, const Mark &m) {
    T &x = t[i]; x.real.clear(); for (auto &a : m.real) for (auto &b : x.start.real) x.real.push_back(minus(a, b));
    Iv u = minus(m.su, x.start.su), cu = minus(m.cu, x.start.cu), s = minus(m.ss, x.start.ss), cs = minus(m.cs, x.start.cs); x.u = {u.lo + cu.lo, u.hi + cu.hi}; x.s = {s.lo + cs.lo, s.hi + cs.hi};
  }
  void main() override {
    init_tables(); bool tdebug = false; Begin b0{}; Mark m0; if (draw(2)) { b0 = begin(); maa_init("timers"); m0 = end(b0); inited = true; if (draw(3) == 0) { dbg_set(".time"); tdebug = true; } }
    for (uint32_t k = 0; k < nops; k++) {
      int i = draw(uni); Buf nb(tn[0][i], true); const char *n = draw(2) ? nb.p : tn[draw(2)][i]; if (draw(3) == 0) { memcpy(scratch, tn[0][i], 24); n = scratch; } // a name is a text, wherever it is
      switch (draw(10)) {
        case 0: case 1: { Begin b = begin(); tim_start(t.count(i) ? n : tn[0][i]); T &x = t[i]; x.start = end(b); if (!x.have) { x.have = true; x.real = {{0, 0}}; x.u = x.s = {0, 0}; } sample_op("tim-start"); if (draw(3) == 0) check(i, "after starting"); break; }
        case 2: case 3: if (t.count(i)) { Begin b = begin(); tim_stop(n); Mark m = end(b); stopped(i, m); sample_op("tim-stop"); check(i, "after stopping"); } break;
        case 4: if (t.count(i) && draw(2)) { tim_reset(n); T &x = t[i]; x.real = {{0, 0}}; x.u = x.s = {0, 0}; sample_op("tim-reset"); check(i, "after resetting"); } break;
        case 5: if (t.count(i)) check(i, "later"); break;
        case 6: if (t.count(i)) { AppScope *q = nullptr; (void)q; sim_fflush(sim_stdout); size_t c = K->console1.size(); tim_print_timer(sim_stdout, tn[0][i]); sim_fflush(sim_stdout); Str g = K->console1.substr(c), e = line(i); CHECK("C12", "tim-print", g == e, "printing gives %s instead of %s", quote(g).c_str(), quote(e).c_str()); sample_op("tim-print"); }
          else if (draw(3) == 0) { int w = draw(5); if (draw(6) == 0) { n = nullptr; w = draw(6); } bool d = dies([&] { switch (w) { case 5: tim_start(n); break; case 0: tim_stop(n); break; case 1: tim_get_real(n); break; case 2: tim_get_user(n); break; case 3: tim_get_system(n); break; default: tim_reset(n); } }, 1); CHECK("C12", "tim-unknown", d, "using the unknown timer %s is not an internal error", quote(n).c_str()); sample_op("tim-unknown"); } break;
        case 7: if (draw(4) == 0 && t.size() < 100) { sim_fflush(sim_stdout); size_t c = K->console1.size(); tim_print_timers(sim_stdout); sim_fflush(sim_stdout); Str g = K->console1.substr(c); std::multiset<Str> got, want; size_t p = 0; while (p < g.size()) { size_t q = g.find('\n', p); if (q == Str::npos) q = g.size() - 1; got.insert(g.substr(p, q + 1 - p)); p = q + 1; }
            for (auto &x : t) want.insert(line(x.first)); if (inited) want.insert(fmt("%-20s %0.3fr %0.3fu %0.3fs\n", "total", tim_get_real("total"), tim_get_user("total"), tim_get_system("total"))); CHECK("C12", "tim-print-all", got == want, "printing all timers gives %s", quote(g, 300).c_str()); sample_op("tim-print-all"); } break;
        default: work();
      }
    }
    for (auto &x : t) check(x.first, "at the end");
    Begin b = begin(); size_t c2 = K->console2.size(); maa_shutdown(); Mark m = end(b);
    if (tdebug) { // the summary that debugging asks for
      Str g = K->console2.substr(c2); size_t p = g.find(fmt("%-20s ", "total")); CHECK("C12", "tim-total", p != Str::npos, "the summary at shutdown has no total: %s", quote(g, 200).c_str());
      if (p != Str::npos) { double r = atof(g.c_str() + p + 21); bool ok = false; for (auto &a : m.real) for (auto &q : m0.real) { Iv v = minus(a, q); if (r >= v.lo - 0.0006 && r <= v.hi + 0.0006) ok = true; } CHECK("C12", "tim-total", ok, "the total printed at shutdown is %g s", r); probe("total-printed"); }
    }
    for (auto &x : t) { const char *n = tn[0][x.first]; bool d = dies([&] { tim_get_real(n); }, 1); CHECK("C12", "tim-after-shutdown", d, "timer %s survives the shutdown", quote(n).c_str()); if (draw(4)) break; }
  }
};
SCENARIO("C12", "timers", 1, Timers);
}
