// C27: callers that mix up their handles. Every documented entry that takes a checked handle is given nothing, a
// live handle of another kind, or a pointer to a caller's string, at any point of a history over all kinds of objects.
#include "actors.h"
#include "core.h"
namespace {
using namespace sim; using namespace act;
struct Entry { char kind; const char *name; void (*call)(void *h, void *good); };
int it0(const void *) { return 0; } int it1(const void *, void *) { return 0; } int it2(const void *, const void *) { return 0; } int it3(const void *, const void *, void *) { return 0; }
char word8[] = "eightchr";
const Entry entries[] = {
  {'h', "hsh_destroy", [](void *h, void *) { hsh_destroy(h); }}, {'h', "hsh_insert", [](void *h, void *) { hsh_insert(h, word8, word8); }}, {'h', "hsh_delete", [](void *h, void *) { hsh_delete(h, word8); }},
  {'h', "hsh_retrieve", [](void *h, void *) { hsh_retrieve(h, word8); }}, {'h', "hsh_iterate", [](void *h, void *) { hsh_iterate(h, it2); }}, {'h', "hsh_iterate_arg", [](void *h, void *) { hsh_iterate_arg(h, it3, nullptr); }},
  {'h', "hsh_get_stats", [](void *h, void *) { hsh_get_stats(h); }}, {'h', "hsh_print_stats", [](void *h, void *) { hsh_print_stats(h, nullptr); }}, {'h', "hsh_init_position", [](void *h, void *) { hsh_init_position(h); }},
  {'h', "hsh_next_position", [](void *h, void *) { hsh_next_position(h, nullptr); }}, {'h', "hsh_readonly", [](void *h, void *) { hsh_readonly(h, 0); }},
  {'s', "set_get_hash", [](void *h, void *) { set_get_hash(h); }}, {'s', "set_get_compare", [](void *h, void *) { set_get_compare(h); }}, {'s', "set_destroy", [](void *h, void *) { set_destroy(h); }},
  {'s', "set_insert", [](void *h, void *) { set_insert(h, word8); }}, {'s', "set_delete", [](void *h, void *) { set_delete(h, word8); }}, {'s', "set_member", [](void *h, void *) { set_member(h, word8); }},
  {'s', "set_iterate", [](void *h, void *) { set_iterate(h, it0); }}, {'s', "set_iterate_arg", [](void *h, void *) { set_iterate_arg(h, it1, nullptr); }}, {'s', "set_init_position", [](void *h, void *) { set_init_position(h); }},
  {'s', "set_next_position", [](void *h, void *) { set_next_position(h, nullptr); }}, {'s', "set_readonly", [](void *h, void *) { set_readonly(h, 0); }}, {'s', "set_count", [](void *h, void *) { set_count(h); }}, {'s', "set_get_stats", [](void *h, void *) { set_get_stats(h); }}, {'s', "set_print_stats", [](void *h, void *) { set_print_stats(h, nullptr); }},
  {'S', "set_add", [](void *h, void *g) { set_add(h, g); }}, {'S', "set_add", [](void *h, void *g) { set_add(g, h); }}, {'S', "set_del", [](void *h, void *g) { set_del(h, g); }}, {'S', "set_del", [](void *h, void *g) { set_del(g, h); }},
  {'S', "set_union", [](void *h, void *g) { set_union(h, g); }}, {'S', "set_union", [](void *h, void *g) { set_union(g, h); }}, {'S', "set_inter", [](void *h, void *g) { set_inter(h, g); }}, {'S', "set_inter", [](void *h, void *g) { set_inter(g, h); }},
  {'S', "set_diff", [](void *h, void *g) { set_diff(h, g); }}, {'S', "set_diff", [](void *h, void *g) { set_diff(g, h); }}, {'S', "set_equal", [](void *h, void *g) { set_equal(h, g); }}, {'S', "set_equal", [](void *h, void *g) { set_equal(g, h); }},
  {'l', "lst_destroy", [](void *h, void *) { lst_destroy(h); }}, {'l', "lst_append", [](void *h, void *) { lst_append(h, word8); }}, {'l', "lst_push", [](void *h, void *) { lst_push(h, word8); }}, {'l', "lst_pop", [](void *h, void *) { lst_pop(h); }},
  {'l', "lst_top", [](void *h, void *) { lst_top(h); }}, {'l', "lst_nth_get", [](void *h, void *) { lst_nth_get(h, 1); }}, {'l', "lst_nth_set", [](void *h, void *) { lst_nth_set(h, 1, word8); }}, {'l', "lst_member", [](void *h, void *) { lst_member(h, word8); }},
  {'l', "lst_length", [](void *h, void *) { lst_length(h); }}, {'l', "lst_truncate", [](void *h, void *) { lst_truncate(h, 0); }}, {'l', "lst_truncate_position", [](void *h, void *) { lst_truncate_position(h, nullptr); }},
  {'l', "lst_iterate", [](void *h, void *) { lst_iterate(h, it0); }}, {'l', "lst_iterate_arg", [](void *h, void *) { lst_iterate_arg(h, it1, nullptr); }}, {'l', "lst_init_position", [](void *h, void *) { lst_init_position(h); }},
  {'l', "lst_last_position", [](void *h, void *) { lst_last_position(h); }}, {'l', "lst_nth_position", [](void *h, void *) { lst_nth_position(h, 1); }},
  {'k', "sl_destroy", [](void *h, void *) { sl_destroy(h); }}, {'k', "sl_insert", [](void *h, void *) { sl_insert(h, word8); }}, {'k', "sl_delete", [](void *h, void *) { sl_delete(h, word8); }}, {'k', "sl_find", [](void *h, void *) { sl_find(h, word8); }},
  {'k', "sl_iterate", [](void *h, void *) { sl_iterate(h, it0); }}, {'k', "sl_iterate_arg", [](void *h, void *) { sl_iterate_arg(h, it1, nullptr); }},
  {'m', "mem_destroy_strings", [](void *h, void *) { mem_destroy_strings(h); }}, {'m', "mem_strcpy", [](void *h, void *) { mem_strcpy(h, word8); }}, {'m', "mem_strncpy", [](void *h, void *) { mem_strncpy(h, word8, 3); }}, {'m', "mem_grow", [](void *h, void *) { mem_grow(h, word8, 3); }},
  {'m', "mem_finish", [](void *h, void *) { mem_finish(h); }}, {'m', "mem_get_string_stats", [](void *h, void *) { mem_get_string_stats(h); }}, {'m', "mem_print_string_stats", [](void *h, void *) { mem_print_string_stats(h, nullptr); }},
  {'o', "mem_destroy_objects", [](void *h, void *) { mem_destroy_objects(h); }}, {'o', "mem_get_object", [](void *h, void *) { mem_get_object(h); }}, {'o', "mem_get_empty_object", [](void *h, void *) { mem_get_empty_object(h); }}, {'o', "mem_free_object", [](void *h, void *) { mem_free_object(h, word8); }},
  {'o', "mem_get_object_stats", [](void *h, void *) { mem_get_object_stats(h); }}, {'o', "mem_print_object_stats", [](void *h, void *) { mem_print_object_stats(h, nullptr); }},
  {'a', "arg_destroy", [](void *h, void *) { arg_destroy(h); }}, {'a', "arg_add", [](void *h, void *) { arg_add(h, word8); }}, {'a', "arg_addn", [](void *h, void *) { arg_addn(h, word8, 3); }}, {'a', "arg_grow", [](void *h, void *) { arg_grow(h, word8, 3); }},
  {'a', "arg_finish", [](void *h, void *) { arg_finish(h); }}, {'a', "arg_get_vector", [](void *h, void *) { int c; char **v; arg_get_vector(h, &c, &v); }},
};
const size_t NE = sizeof entries / sizeof *entries;
struct Handles : Scenario {
  std::vector<ActorP> a; uint32_t nops = 0; bool init = false, logged = false;
  typedef std::vector<std::pair<char, void *>> H;
  ActorP one() { switch (rn(12)) { case 0: case 1: return mk_hash(); case 2: case 3: return mk_sets(); case 4: case 5: return mk_list(); case 6: return mk_sl(); case 7: return mk_obj(); case 8: return mk_mstr(); case 9: return mk_arg(); case 10: return mk_stack(); default: return mk_str(false); } }
  void configure() override { cfg.reuse = draw(3); cfg.realloc_mode = draw(3); cfg.fill = draw(5); cfg.rnd_mode = draw(5); cfg.tty_out = draw(2); cfg.stdio_buf = draw(2) ? 4096 : 16; static const uint32_t n[] = {4, 15, 40, 100}; nops = range(2, n[draw(4)]); init = draw(2); logged = draw(5) == 0; }
  void misuse() {
    H all; for (auto &x : a) x->handles(all); all.push_back({'-', word8});
    const Entry &e = entries[rn(NE)]; char kind = e.kind == 'S' ? 's' : e.kind; void *h = nullptr, *good = nullptr; char from = '0';
    if (rn(4)) { H w; for (auto &x : all) if (x.first != kind) w.push_back(x); auto &x = w[rn(w.size())]; h = x.second; from = x.first; }
    if (e.kind == 'S') { H g; for (auto &x : all) if (x.first == 's') g.push_back(x); if (g.empty()) return; good = g[rn(g.size())].second; if (rch(1, 5)) { good = h; probe("both-wrong"); } }
    TR("%s is given %s", e.name, from == '0' ? "no object" : from == '-' ? "something else" : "an object of another kind");
    Str what = fmt("%s given %s", e.name, from == '0' ? "NULL" : from == 'h' ? "a hash table" : from == 's' ? "a set" : from == 'l' ? "a list" : from == 'k' ? "a skip list" : from == 'o' ? "an object pool" : from == 'm' ? "a string store" : from == 'a' ? "an argument list" : "something else");
    sim_fflush(sim_stderr); size_t n = K->console2.size();
    Str nm = e.name; bool nop = !h && (nm == "lst_append" || nm == "sl_iterate" || nm == "sl_iterate_arg"); // documented by the code: no object, nothing to do
    if (!h && (nm == "mem_get_object_stats" || nm == "mem_print_object_stats")) return; // nothing, or all zero
    int r = guarded([&] { e.call(h, good); }, true);
    if (nop) { CHECK("C27", "handle-null", r == 0, "%s does not return", what.c_str()); probe("null-tolerated"); }
    else {
      CHECK("C27", "handle-accepted", r == 1, "%s %s", what.c_str(), r == 0 ? "returned" : "called exit");
      sim_fflush(sim_stderr); Str t = K->console2.substr(n);
      CHECK("C27", "handle-message", t.find("nternal error") != Str::npos, "%s ended without the message of an internal error: %s", what.c_str(), quote(t, 200).c_str());
      probe(h ? "wrong-kind-refused" : "null-refused");
    }
    note("%s: %d", e.name, r); sample_op(e.name);
    for (auto &x : a) if (x->kind != "stack" || rch(1, 2)) x->verify("C27", false);
  }
  // tables and sets of strings: no string at all is not a key
  hsh_HashTable st = nullptr; set_Set ss = nullptr; std::set<int> hin, sin;
  void strings() {
    if (!st) { st = hsh_create(nullptr, nullptr); ss = set_create(nullptr, nullptr); }
    int i = rn(30); uint32_t k = rn(6); bool neu;
    switch (rn(6)) {
      case 0: neu = hin.insert(i).second; CHECK("C27", "string-key", hsh_insert(st, sk[0][i], sk[1][i]) == !neu, "inserting a string key gave the wrong result"); break;
      case 1: neu = sin.insert(i).second; CHECK("C27", "string-key", set_insert(ss, sk[0][i]) == !neu, "inserting a string gave the wrong result"); break;
      default: {
        static const char *nm[] = {"hsh_insert", "hsh_delete", "hsh_retrieve", "set_insert", "set_delete", "set_member"};
        if (rn(3)) { int r = guarded([&] { switch (k) { case 0: hsh_insert(st, nullptr, word8); break; case 1: hsh_delete(st, nullptr); break; case 2: hsh_retrieve(st, nullptr); break; case 3: set_insert(ss, nullptr); break; case 4: set_delete(ss, nullptr); break; default: set_member(ss, nullptr); } }, true);
          CHECK("C27", "null-key", r == 1, "%s with NULL as the string %s", nm[k], r == 0 ? "returned" : "called exit"); sample_op("null-key"); }
        else { int r = guarded([&] { switch (k) { case 0: hsh_string_hash(nullptr); break; case 1: hsh_string_compare(nullptr, word8); break; case 2: hsh_string_compare(word8, nullptr); break; default: hsh_string_compare(nullptr, nullptr); } }, true); CHECK("C27", "null-key", r == 1, "%s of NULL %s", k ? "hsh_string_compare" : "hsh_string_hash", r == 0 ? "returned" : "called exit"); }
        probe("null-key-refused"); } }
    for (int j = 0; j < 30; j++) { CHECK("C27", "string-key", hsh_retrieve(st, sk[0][j]) == (hin.count(j) ? sk[1][j] : nullptr), "a string key gives the wrong datum"); CHECK("C27", "string-key", !!set_member(ss, sk[0][j]) == !!sin.count(j), "a string is %sin the set", sin.count(j) ? "not " : ""); }
  }
  // no position is the end of every traversal and holds nothing
  void nowhere() {
    void *key = word8; void *d = hsh_get_position(nullptr, &key); CHECK("C27", "null-position", !d && !key, "no position of a table holds something"); CHECK("C27", "null-position", !set_get_position(nullptr), "no position of a set holds something");
    CHECK("C27", "null-position", !lst_get_position(nullptr) && !lst_next_position(nullptr), "no position of a list holds something"); lst_set_position(nullptr, word8);
    bool e = dies([&] { str_pool_destroy(nullptr); }, 3); CHECK("C27", "null-pool", e, "destroying no string pool returned"); e = dies([&] { xfree(nullptr); }, 3); CHECK("C27", "null-free", e, "freeing nothing returned"); probe("null-position");
    for (auto &x : a) if (x->kind != "stack") x->verify("C27", false);
  }
  void main() override {
    init_tables(); if (init) maa_init("handles"); if (logged) log_syslog("handles");
    int na = rr(2, 7); for (int i = 0; i < na; i++) a.push_back(one());
    for (uint32_t i = 0; i < nops; i++) {
      uint32_t k = rn(8);
      if (k < 4) a[rn(a.size())]->op();
      else if (k < 7) { if (rn(8)) misuse(); else if (rn(4)) strings(); else nowhere(); }
      else if (rch(1, 3)) { size_t j = rn(a.size()); a[j]->destroy(); a[j] = one(); }
    }
    for (auto &x : a) x->verify("C27", false);
    while (!a.empty()) { size_t k = rn(a.size()); a[k]->destroy(); a.erase(a.begin() + k); }
    if (st) { hsh_destroy(st); set_destroy(ss); }
    if (logged) log_close(); if (init) maa_shutdown();
  }
};
SCENARIO("C27", "handles", 1, Handles);
}
