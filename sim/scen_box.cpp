// One kind of container at a time: several instances, every allocator behaviour, long histories.
#include "actors.h"
#include "core.h"
namespace {
using namespace sim; using namespace act;
void alloc_cfg() {
  cfg.reuse = draw(3); cfg.realloc_mode = draw(3); cfg.fill = draw(5); cfg.rnd_mode = draw(5); cfg.tty_out = draw(2); cfg.stdio_buf = draw(2) ? 4096 : 16;
}
struct Box : Scenario {
  std::vector<ActorP> a; uint32_t nops = 0; bool init = false;
  virtual ActorP make() = 0;
  virtual const char *props() = 0;
  virtual int most() { return 3; }
  void configure() override { alloc_cfg(); static const uint32_t n[] = {10, 40, 120, 300}; nops = n[draw(4)]; nops = range(nops / 2, nops); init = draw(2); }
  void main() override {
    init_tables();
    if (init) maa_init("box");
    int na = rr(1, most());
    for (int i = 0; i < na; i++) a.push_back(make());
    if (rn(2)) team = &a;
    for (uint32_t i = 0; i < nops; i++) {
      size_t k = rn(a.size());
      a[k]->op();
      if (rch(1, 40)) for (auto &x : a) x->verify(props(), false);
      if (rch(1, 60)) { a[k]->destroy(); a[k] = make(); probe("recreated"); }
    }
    team = nullptr;
    for (auto &x : a) x->verify(props(), false);
    while (!a.empty()) { size_t k = rn(a.size()); a[k]->destroy(); a.erase(a.begin() + k); for (auto &x : a) if (rch(1, 2)) x->verify(props(), false); }
    if (init) maa_shutdown();
  }
};
struct HashBox : Box { ActorP make() override { return mk_hash(); } const char *props() override { return "C17"; } };
SCENARIO("C17", "hash", 300, HashBox);
struct SetBox : Box { ActorP make() override { return mk_sets(); } const char *props() override { return "C18"; } int most() override { return 2; } };
SCENARIO("C18", "sets", 300, SetBox);
struct StrBox : Box { bool g = false; ActorP make() override { bool has = false; for (auto &x : a) if (!x->dead && x->kind == "strings") has = true; if (!has && rn(2)) return mk_str(true); return mk_str(false); } const char *props() override { return "C19"; } };
SCENARIO("C19", "strings", 300, StrBox);
struct SeqBox : Box { ActorP make() override { return rch(1, 3) ? mk_stack() : mk_list(); } const char *props() override { return "C20"; } int most() override { return 5; } };
SCENARIO("C20", "sequences", 300, SeqBox);
struct SlBox : Box { ActorP make() override { return mk_sl(); } const char *props() override { return "C21"; } };
SCENARIO("C21", "skiplist", 300, SlBox);
struct MemBox : Box { ActorP make() override { switch (rn(4)) { case 0: return mk_obj(); case 1: return mk_mstr(); case 2: return mk_arg(); default: return rn(2) ? mk_misc() : mk_stack(); } } const char *props() override { return "C22"; } int most() override { return 5; } };
SCENARIO("C22", "memory", 300, MemBox);
struct SrcBox : Box { ActorP make() override { return mk_src(); } const char *props() override { return "C23"; } int most() override { return 1; } };
SCENARIO("C23", "source", 300, SrcBox);
}
