// Debug and user flag registries (C26): every bit of both registries is compared with a model after every operation.
#include "actors.h"
#include "core.h"
namespace {
using namespace sim; using namespace act;
enum { NF = 240 };
char fname_[NF][16]; uint32_t fval[NF];
const char *BUILTIN[] = {".memory", ".time", ".pr", ".sl", ".src", ".parse"}; const uint32_t BV[] = {MAA_MEMORY, MAA_TIME, MAA_PR, MAA_SL, MAA_SRC, MAA_PARSE};
struct Reg { const char *label; bool dbg; std::map<Str, uint32_t> names; uint32_t set[4] = {0, 0, 0, 0}; bool any = false; }; // any: something was registered since the registry was empty
struct Flags : Scenario {
  uint32_t nops = 0; Reg r[2] = {{"debug", true}, {"user", false}}; int uni = 10; bool inited = false, oom = false, weather = false; uint32_t sweep = 1; FILE *bad = nullptr; int style = 0;
  void configure() override {
    static const int us[] = {4, 12, 40, NF}; uni = us[draw(4)]; nops = 5 + draw(uni > 100 ? 500 : 80); oom = draw(3) == 0; weather = draw(3) == 0; style = draw(4); sweep = draw(2) ? 1 : 1 + draw(10);
    cfg.reuse = draw(3); cfg.realloc_mode = draw(3); cfg.fill = draw(5); cfg.tty_out = draw(2); cfg.stdio_buf = draw(2) ? 4096 : 16; cfg.rnd_mode = draw(5);
  }
  // names and bits; the groups and bits come in a different order in every run
  void table() {
    static const char *words[] = {"verbose", "trace", "v", "parse", "all2", "nonet", "al", "non", "allx", "on"};
    std::vector<uint32_t> f; for (uint32_t g = 0; g < 4; g++) for (uint32_t b = 0; b < 30; b++) f.push_back(g << 30 | 1u << b);
    for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[draw(i)]);
    for (int i = 0; i < NF; i++) {
      fval[i] = f[i % f.size()];
      switch (style) { case 0: snprintf(fname_[i], 16, "f%d", i); break; case 1: snprintf(fname_[i], 16, i < 10 ? "%s" : "%s%d", words[i % 10], i); break; case 2: snprintf(fname_[i], 16, "%c%c%c", 'a' + i % 3, 'a' + i / 3 % 9, 'a' + i / 27); break; default: snprintf(fname_[i], 16, i % 2 ? "a%d b" : "%d", i); }
    }
  }
  void set_bits(Reg &q, uint32_t f, bool on) { if (on) q.set[f >> 30] |= f & 0x3fffffff; else q.set[f >> 30] &= ~f & 0x3fffffff; }
  bool is_set(Reg &q, uint32_t f) { return q.set[f >> 30] & f & 0x3fffffff; }
  int test(Reg &q, unsigned long f) { return q.dbg ? dbg_test(f) : flg_test(f); }
  void bit(Reg &q, uint32_t f, const char *when) { bool g = test(q, f), w = is_set(q, f); CHECK("C26", "flag-test", g == w, "%s: %s flag %#x is %sset instead of %sset", when, q.label, f, g ? "" : "not ", w ? "" : "not "); }
  void all(const char *when) { for (auto &q : r) for (uint32_t g = 0; g < 4; g++) for (uint32_t b = 0; b < 30; b++) bit(q, g << 30 | 1u << b, when); sample_op("flags-swept"); }
  void reset(Reg &q) { q.names.clear(); q.any = false; for (auto &s : q.set) s = 0; }
  void reg(Reg &q, unsigned long f, const char *n) { if (!q.dbg) flg_register(f, n); else if ((f & 0xc0000000) == 0xc0000000) _dbg_register(f, n); else dbg_register(f, n); }
  void setn(Reg &q, const Str &n) { Buf b(n, true); if (q.dbg) dbg_set(b.p); else flg_set(b.p); }
  void known(Reg &q, uint32_t f, const Str &n) { q.names[n] = f; q.any = true; }
  void start() { maa_init("flags"); inited = true; for (int i = 0; i < 6; i++) known(r[0], BV[i], BUILTIN[i]); }
  void stop() { maa_shutdown(); inited = false; reset(r[0]); reset(r[1]); probe("registries-shut-down"); }
  // the name of a registered flag, whose bit no other name has
  int free_slot(Reg &q) {
    int i = draw(uni); if (q.names.count(fname_[i])) return -1;
    for (auto &x : q.names) if (x.second == fval[i]) return -1;
    if (q.dbg) for (uint32_t v : BV) if (v == fval[i]) return -1;
    return i;
  }
  void must_die(Reg &q, const Str &n, const char *what) {
    size_t c = (sim_fflush(sim_stderr), K->console2.size()); auto names = q.names; bool any = q.any; bool d = dies([&] { setn(q, n); }, 3);
    CHECK("C26", "flag-unknown", d, "setting the %s name %s (%s) in the %s registry is not refused", any ? "unknown" : "never registered", quote(n).c_str(), what, q.label);
    sim_fflush(sim_stderr); Str e = K->console2.substr(c);
    if (K->disk_free < 0 && any) { for (auto &x : names) CHECK("C26", "flag-unknown-list", e.find(x.first) != Str::npos, "the report about %s does not list the valid name %s: %s", quote(n).c_str(), quote(x.first).c_str(), quote(e, 300).c_str()); CHECK("C26", "flag-unknown-name", e.find(n) != Str::npos, "the report does not mention %s", quote(n).c_str()); }
    all("after a refused name"); probe("unknown-name");
  }
  void list(Reg &q) {
    if (!q.any) return;
    AppScope *np = nullptr; (void)np;
    if (weather && draw(2)) { // a listing that cannot be written changes nothing
      { AppScope a; if (!bad) bad = sim_fopen("/tmp/list", "w"); } if (!bad) return;
      K->disk_free = draw(40); fault("disk-nearly-full"); if (q.dbg) dbg_list(bad); else flg_list(bad); { AppScope a; sim_fflush(bad); sim_fclose(bad); bad = nullptr; } K->disk_free = -1; all("after a listing that could not be written"); probe("list-failed"); return;
    }
    Str g = printed([&] { if (q.dbg) dbg_list(sim_stdout); else flg_list(sim_stdout); }); std::multiset<Str> got, want; size_t p = 0;
    while (p < g.size()) { size_t e = g.find('\n', p); if (e == Str::npos) e = g.size(); Str l = g.substr(p, e - p); p = e + 1; size_t s = l.find_first_not_of(" \t"); if (s == Str::npos) continue; got.insert(l.substr(s)); }
    for (auto &x : q.names) want.insert(q.dbg && x.second >> 30 == 3 ? x.first + " (builtin)" : x.first);
    CHECK("C26", "flag-list", got == want, "the list of %s flags is %s", q.label, quote(g, 400).c_str()); sample_op("flag-list");
  }
  void step() {
    Reg &q = r[draw(2)]; 
    switch (draw(14)) {
      case 0: case 1: case 2: { int i = free_slot(q); if (i < 0) break; uint32_t f = fval[i];
          if (oom && draw(8) == 0) { // no memory for the entry
            alloc_failed = false; alloc_fail_at = 1 + draw(8); alloc_fail_len = 1 + draw(2); int d = guarded([&] { reg(q, f, fname_[i]); }, true); alloc_fail_at = 0;
            if (alloc_failed) { alloc_failed = false; CHECK("C26", "flag-oom", d != 0, "registering a flag without memory returned"); all("after registration ran out of memory"); if (q.dbg) dbg_destroy(); else flg_destroy(); reset(q); if (q.dbg && inited) { stop(); start(); } all("after the registry was destroyed"); probe("register-out-of-memory"); break; }
            if (d) { CHECK("C26", "flag-register", false, "registering flag %#x died", f); }
          } else reg(q, f, fname_[i]);
          known(q, f, fname_[i]); bit(q, f, "just registered"); sample_op("flag-register"); break; }
      case 3: if (draw(6) == 0) { // no name at all
          int w = q.dbg ? draw(3) : draw(2) * 2; bool d = dies([&] { switch (w) { case 0: if (q.dbg) dbg_set(nullptr); else flg_set(nullptr); break; case 1: dbg_register(0x40, nullptr); break; default: if (q.dbg) _dbg_register(0x80000040, nullptr); else flg_register(0x80000040, nullptr); } }, 3);
          CHECK("C26", "flag-null", d, "%s a %s flag without a name is not refused", w ? "registering" : "setting", q.label); all("after a flag without a name"); probe("no-name"); break; }
        { // malformed
          static const unsigned long m[] = {0, 0x40000000, 0x80000000, 0xc0000000, 3, 0x60000001, 0x80000018, 0xe0000001, 0x3fffffff, 0xffffffff, 0x20000001}; unsigned long f = m[draw(11)]; bool d = dies([&] { if (q.dbg && draw(2)) _dbg_register(f, "bad"); else if (q.dbg) dbg_register(f, "bad"); else flg_register(f, "bad"); }, 3);
          CHECK("C26", "flag-malformed", d, "registering the malformed %s flag %#lx is not refused", q.label, f); all("after a malformed flag"); probe("malformed"); break; }
      case 4: if (q.dbg) { uint32_t f = 0xc0000000 | 1u << draw(30); bool d = dies([&] { dbg_register(f, "reserved"); }, 3); CHECK("C26", "flag-reserved", d, "registering the reserved flag %#x is not refused", f); probe("reserved"); } break;
      case 5: case 6: case 7: case 8: { if (q.names.empty()) break; auto it = q.names.begin(); std::advance(it, draw(q.names.size())); int how = draw(3); bool had = is_set(q, it->second);
          setn(q, (how == 0 ? "" : how == 1 ? "+" : "-") + it->first); set_bits(q, it->second, how != 2); bit(q, it->second, how == 2 ? "after clearing by name" : "after setting by name"); sample_op(how == 2 ? had ? "clear-set" : "clear-clear" : had ? "set-set" : "set-clear"); break; }
      case 9: if (q.any && draw(3) == 0) { bool on = draw(2); setn(q, on ? "all" : "none"); for (auto &s : q.set) s = on ? 0x3fffffff : 0; all(on ? "after all" : "after none"); sample_op(on ? "flag-all" : "flag-none"); } break;
      case 10: { // names nobody registered
          Str n; Str some = q.names.empty() ? Str("verbose") : std::next(q.names.begin(), draw(q.names.size()))->first;
          switch (draw(9)) { case 0: n = "x" + some; break; case 1: n = some + "x"; break; case 2: n = "-unknown"; break; case 3: n = "+unknown"; break; case 4: n = ""; break; case 5: n = draw(2) ? "+" : "-"; break; case 6: n = (draw(2) ? "--" : "+-") + some; break; case 7: n = some.substr(0, some.size() - 1); break; default: { static const char *const s[] = {"-all", "+none", "+all", "-none"}; n = s[draw(4)]; } }
          if (n.empty() ? false : q.names.count(n) || ((n[0] == '+' || n[0] == '-') && q.names.count(n.substr(1)))) break;
          if (n == "all" || n == "none") break;
          must_die(q, n, "by no name"); break; }
      case 11: if (q.dbg) { uint32_t f = draw(4) << 30 | 1u << draw(30); if (draw(2)) { dbg_set_flag(f); set_bits(q, f, true); } else { dbg_unset_flag(f); set_bits(q, f, false); } bit(q, f, "after the call by bit"); sample_op("flag-by-bit"); } break;
      case 12: if (draw(2)) list(q); else if (!q.dbg && q.any) { if (q.names.size() && draw(3)) { auto it = q.names.begin(); std::advance(it, draw(q.names.size())); const char *n = flg_name(it->second); CHECK("C26", "flag-name", n && it->first == n, "flag %#x is called %s instead of %s", it->second, quote(n ? n : "(null)").c_str(), quote(it->first).c_str()); sample_op("flag-name"); } else { uint32_t f = draw(4) << 30 | 1u << draw(30); bool k = false; for (auto &x : q.names) if (x.second == f) k = true; const char *n = flg_name(f); if (!k) CHECK("C26", "flag-name", n && !q.names.count(n), "the unregistered flag %#x is called %s", f, quote(n ? n : "(null)").c_str()); } } break;
      default: if (draw(6)) break;
        switch (draw(3)) { case 0: stop(); if (draw(2)) start(); break; case 1: if (!inited) start(); break; default: if (!q.dbg || !inited) { if (q.dbg) dbg_destroy(); else flg_destroy(); reset(q); probe("registry-destroyed"); } } all("after a restart");
    }
  }
  void main() override {
    init_tables(); table(); if (draw(2)) start();
    for (uint32_t k = 0; k < nops; k++) { step(); if (k % sweep == 0) all("between calls"); }
    list(r[0]); list(r[1]); all("at the end");
    maa_shutdown(); reset(r[0]); reset(r[1]); all("after the shutdown"); Str n = draw(2) ? "all" : draw(2) ? "none" : fname_[0]; must_die(r[draw(2)], n, "after the shutdown");
    if (draw(3) == 0) { start(); for (int i = 0; i < 6; i++) { setn(r[0], BUILTIN[i]); set_bits(r[0], BV[i], true); } all("after another start"); maa_shutdown(); }
  }
};
SCENARIO("C26", "flags", 1, Flags);
}
