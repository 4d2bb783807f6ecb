// String pools, string stores, object pools, argument lists, the source manager.
#include "actors.h"
#include "core.h"
#include <unistd.h>
namespace act {
// deterministic words; some share prefixes, some are long, some contain high bytes
static Str word(int id, const char *pfx) {
  Str s = pfx;
  if (id == 0 && !*pfx) return s;
  switch (id % 6) {
    case 0: s += fmt("w%d", id); break;
    case 1: s += Str(id % 50 + 1, 'a' + id % 3); s += fmt("%d", id); break;
    case 2: s += fmt("%d", id); s += Str(id * 37 % 900, 'x'); break;
    case 3: s += "\xff\x80 \t"; s += fmt("%d", id); break;
    case 4: s += fmt("common-prefix-%d", id); break;
    default: s += "q"; s += (char)(1 + id % 255); s += fmt("%d", id / 6); break;
  }
  return s;
}
// ================================================================ string pools
struct StrActor : Actor {
  void handles(std::vector<std::pair<char, void *>> &o) override { if (p) o.push_back({'-', p}); }
  str_Pool p = nullptr; bool global; int uni; std::map<Str, const char *> in; struct Cp { const char *p; Str s; }; std::vector<Cp> cp; std::set<Str> uniq; std::set<const void *> ptrs;
  bool growing = false; Str gs; int pk = 0; Str pstr; bool locked = false; unsigned long made = 0; long uniq_n = -1; // unique names have their own prefix: their numbering goes on across sessions
  StrActor(bool g) : global(g) { kind = g ? "strings" : "string-pool"; static const int us[] = {5, 20, 80, 300}; uni = us[rn(opt.small ? 3 : 4)]; if (!g) { p = str_pool_create(); CHECK("C19", "str-create", p, "no pool"); } }
  Str any() { return word(rn(uni), global ? "g:" : ""); }
  void settle(const Str &s, const char *r, const char *route) {
    CHECK("C19", "str-null", r && heap_ok(r, s.size() + 1), "%s of %s gave an unusable pointer", route, quote(s, 40).c_str());
    CHECK("C19", "str-content", !memcmp(r, s.c_str(), s.size() + 1), "%s of %s gave %s", route, quote(s, 40).c_str(), quote(Str(r, strnlen(r, s.size() + 3)), 40).c_str());
    auto it = in.find(s);
    if (it == in.end()) { CHECK("C19", "str-pointer-shared", ptrs.insert(r).second, "%s of the new string %s gave a pointer that another string has", route, quote(s, 40).c_str()); in[s] = r; }
    else CHECK("C19", "str-pointer", it->second == r, "%s of the string %s, already interned, gave another pointer", route, quote(s, 40).c_str());
    sample_op("str-intern");
  }
  void copied(const Str &s, const char *r, const char *route) {
    CHECK("C19", "str-null", r && heap_ok(r, s.size() + 1), "%s gave an unusable pointer", route);
    CHECK("C19", "str-content", !memcmp(r, s.c_str(), s.size() + 1), "%s of %s gave another string", route, quote(s, 40).c_str());
    CHECK("C19", "str-copy-shared", ptrs.insert(r).second, "a private copy is not private");
    cp.push_back({r, s}); sample_op("str-copy"); made++;
  }
  int exists(const Str &s) { Buf b(s, true); return global ? str_exists(b.p) : str_pool_exists(p, b.p); }
  const char *find(const Str &s) { Buf b(s, true); const char *r = global ? str_find(b.p) : str_pool_find(p, b.p); return r; }
  void mod(int k, const Str &s) { pk = k; pstr = s; pend = true; }
  void growpart() { // at least one byte per piece
    Str part = rstr(30); if (part.empty()) part = "z"; if (rch(1, 10)) part = Str(rr(100, 3000), 'G');
    growmore(part);
  }
  void growmore(const Str &part) {
    mod(3, part); { Buf b(part, false); if (global) str_grow(b.p, part.size()); else str_pool_grow(p, b.p, part.size()); } pend = false; gs += part; growing = true;
  }
  void finish() {
    mod(4, gs); const char *r = global ? str_finish() : str_pool_finish(p); pend = false; Str s = gs; gs.clear(); growing = false; made++;
    settle(s, r, "growing"); note("str finish %zu", s.size()); sample_op("str-grow");
  }
  static int git_stop; static StrActor *gita; static std::set<Str> gseen; static size_t gn;
  int visit(std::set<Str> &seen, size_t &n, int stop, const char *s) {
    AppScope app; n++;
    auto it = in.find(s); CHECK("C19", "str-visit", it != in.end() && it->second == s, "traversal visits %s which is not interned there", quote(s, 40).c_str());
    CHECK("C19", "str-visit-twice", seen.insert(s).second, "traversal visits %s twice", quote(s, 40).c_str());
    if (rch(1, 3)) { Str w = any(); int e = exists(w); CHECK("C19", "str-exists", !!e == in.count(w), "existence of %s reported as %d inside a traversal", quote(w, 40).c_str(), e); }
    if (rch(1, 5)) { auto k = in.begin(); std::advance(k, rn(in.size())); settle(k->first, find(k->first), "finding"); }
    if (stop == -1) aside(this);
    if ((int)n == stop || n > 5000) return stopval();
    return 0;
  }
  static int cb(const char *s) { return gita->visit(gseen, gn, git_stop, s); }
  struct It { StrActor *a; std::set<Str> seen; size_t n = 0; int stop = -1; };
  static int cb_arg(const char *s, void *a) { It *it = (It *)a; return it->a->visit(it->seen, it->n, it->stop, s); }
  void op() override {
    if (growing) { if (rn(2)) growpart(); else finish(); return; }
    Str w = any();
    switch (rn(global ? 12 : 15)) {
      case 0: case 1: case 2: { mod(1, w); const char *r = find(w); pend = false; settle(w, r, "finding"); note("str find %s", quote(w, 30).c_str()); break; }
      case 3: { int e = exists(w); note("str exists %d", !!e); CHECK("C19", "str-exists", !!e == in.count(w), "existence of %s reported as %d", quote(w, 40).c_str(), e); break; }
      case 4: { mod(2, w); Buf b(w, true); const char *r = global ? str_copy(b.p) : str_pool_copy(p, b.p); pend = false; copied(w, r, "copying"); break; }
      case 5: { // a prefix of a longer text, or text that is not terminated at all
        size_t n = w.size() ? rn(w.size() + 1) : 0; Str pre = w.substr(0, n); Str tail = rn(2) ? w.substr(n) : Str();
        mod(2, pre); Buf b(pre + tail, !tail.empty()); const char *r = global ? str_copyn(b.p, n) : str_pool_copyn(p, b.p, n); pend = false; copied(pre, r, "counted copying"); note("str copyn %zu", n); break; }
      case 6: if (global) { Str tail = rn(2) ? "tail" : ""; mod(1, w); Buf b(w + tail, !tail.empty()); const char *r = str_findn(b.p, w.size()); pend = false; settle(w, r, "counted finding"); } else { mod(1, w); const char *r = find(w); pend = false; settle(w, r, "finding"); } break;
      case 7: case 8: { // grown in pieces; often spells a string that is already there
        if (rch(1, 5)) { if (rn(2)) growmore(""); finish(); break; } // nothing was grown: the empty string
        if (rch(2, 3) && !w.empty()) { if (rch(1, 6)) growmore(""); for (size_t i = 0; i < w.size();) { size_t k = std::min(w.size() - i, (size_t)rr(1, w.size())); growmore(w.substr(i, k)); i += k; } finish(); }
        else { if (global) growmore("g:"); growpart(); if (global || rn(2)) { for (int i = rn(4); i > 0; i--) growpart(); finish(); } }
        break; }
      case 9: {
        str_Stats st = global ? str_get_stats() : str_pool_get_stats(p);
        size_t n = in.size() + cp.size(); size_t bytes = 0; for (auto &x : in) bytes += x.first.size(); for (auto &x : cp) bytes += x.s.size();
        note("str stats"); CHECK("C19", "str-stats", (size_t)st->count >= n && (size_t)st->bytes >= bytes, "statistics report %d strings in %d bytes; %zu strings with %zu characters are held", st->count, st->bytes, n, bytes);
        CHECK("C19", "str-stats", st->hits + st->misses <= st->retrievals, "statistics are inconsistent");
        if (rch(1, 3)) { Str g = printed([&] { if (global) str_print_stats(nullptr); else str_pool_print_stats(p, rn(2) ? nullptr : sim_stdout); }); CHECK("C19", "str-print", numbers_in_order(g, {(unsigned long)st->count, (unsigned long)st->bytes, (unsigned long)st->retrievals, (unsigned long)st->hits, (unsigned long)st->misses}), "the printed statistics read %s", quote(g, 300).c_str()); }
        xfree(st);
        break; }
      case 10: case 11: if (global) { Str pre = "u:" + rstr(6);
          if (uniq_n >= 0 && rn(2)) { Str t = pre + fmt("%ld", uniq_n + 1 + (long)rn(3)); mod(1, t); settle(t, find(t), "finding"); } // the number it would use is taken
          mod(1, pre); Buf b(pre, true); const char *r = str_unique(b.p); pend = false; Str s = r; CHECK("C19", "str-unique", s.size() > pre.size() && s.compare(0, pre.size(), pre) == 0, "a unique string with prefix %s is %s", quote(pre, 20).c_str(), quote(s, 30).c_str()); CHECK("C19", "str-unique-repeated", !in.count(s) && uniq.insert(s).second, "the unique string %s was there before", quote(s, 30).c_str()); uniq_n = atol(s.c_str() + pre.size()); settle(s, r, "generating"); sample_op("str-unique"); }
        else { It it{this}; if (rch(1, 3) && in.size()) it.stop = rr(1, in.size()); int r; size_t n;
          if (rn(2)) { r = str_pool_iterate_arg(p, cb_arg, &it); n = it.n; } else { Keep<StrActor *> k1(gita, this); Keep<std::set<Str>> k2(gseen, {}); Keep<size_t> k3(gn, 0); Keep<int> k4(git_stop, it.stop); r = str_pool_iterate(p, cb); n = gn; }
          note("str iterate %zu %d", n, !!r); sample_op("str-iterate");
          if (it.stop > 0) CHECK("C19", "str-stop", r && (int)n == it.stop, "traversal asked to stop at %d ended after %zu with %d", it.stop, n, r); else CHECK("C19", "str-missed", !r && n == in.size(), "traversal visited %zu of %zu strings and returned %d", n, in.size(), r); }
        break;
      case 14: { // a pool that may not be extended
        int old = str_pool_readonly(p, 1); CHECK("C19", "str-readonly-flag", !old, "str_pool_readonly returned %d instead of the previous flag", old);
        for (int k = rn(4); k >= 0; k--) {
          Str x = any(); int e = exists(x); CHECK("C19", "str-exists", !!e == in.count(x), "existence of %s reported as %d in a read-only pool", quote(x, 40).c_str(), e);
          if (in.count(x)) settle(x, find(x), "finding"); else if (opt.fatal) { bool ok = dies([&] { find(x); }, 3); CHECK("C19", "str-readonly", ok, "a string was added to a read-only pool"); CHECK("C19", "str-readonly", !exists(x), "a refused string is in the read-only pool"); }
        }
        old = str_pool_readonly(p, 0); CHECK("C19", "str-readonly-flag", old, "str_pool_readonly returned %d instead of the previous flag", old);
        note("str readonly"); sample_op("str-readonly"); break; }
      default: { // positions
        Keep<int> tr(trav, 1); str_Position pos; const char *k; std::set<Str> seen; size_t n = 0; int stop = rch(1, 3) && in.size() ? (int)rr(1, in.size()) : -1; bool broke = false;
        STR_ITERATE(p, pos, k) { int e = visit(seen, n, -1, k); (void)e; if (opt.fatal && rch(1, 10)) { Str nw = "new!" + any(); bool ok = dies([&] { str_pool_find(p, nw.c_str()); }, 3); (void)ok; if (!ok) { in[nw] = str_pool_find(p, nw.c_str()); break; } } if ((int)n == stop) { broke = true; break; } if (n > 5000) break; }
        if (!broke) CHECK("C19", "str-missed", n >= in.size(), "positional traversal visited %zu of %zu strings", n, in.size());
        STR_ITERATE_END(p);
        note("str positions %zu", n); sample_op("str-position");
      }
    }
  }
  void verify(const char *props, bool tolerant) override {
    for (auto &x : in) { CHECK(props, "str-moved", heap_ok(x.second, x.first.size() + 1) && !memcmp(x.second, x.first.c_str(), x.first.size() + 1), "the interned string %s changed or is gone", quote(x.first, 40).c_str()); }
    for (auto &x : cp) CHECK(props, "str-copy-moved", heap_ok(x.p, x.s.size() + 1) && !memcmp(x.p, x.s.c_str(), x.s.size() + 1), "the private copy of %s changed or is gone", quote(x.s, 40).c_str());
    if (growing && !tolerant) return;
    if (tolerant && growing && pend && pk == 3) { // the interrupted growth can still be finished
      const char *r = global ? str_finish() : str_pool_finish(p); Str a = gs, b = gs + pstr, s = heap_ok(r, 1) ? Str(r) : Str("?");
      CHECK(props, "str-grow-interrupted", s == a || s == b, "the string grown before and after the failure finishes as %s", quote(s, 40).c_str());
      growing = false; in.emplace(s, r);
    } else if (tolerant && pend && pk == 4) { const char *r = global ? str_finish() : str_pool_finish(p); Str s = heap_ok(r, 1) ? Str(r) : Str("?"); CHECK(props, "str-grow-interrupted", s == gs || s.empty(), "finishing again gives %s", quote(s, 40).c_str()); in.emplace(s, r); }
    else if (tolerant && growing) { const char *r = global ? str_finish() : str_pool_finish(p); Str s = Str(r); CHECK(props, "str-grow-interrupted", s == gs, "the string being grown finishes as %s", quote(s, 40).c_str()); growing = false; in.emplace(s, r); }
    for (auto &x : in) { int e = exists(x.first); CHECK(props, "str-exists", e, "the interned string %s is reported absent", quote(x.first, 40).c_str()); const char *r = find(x.first); CHECK(props, "str-pointer", r == x.second, "finding %s again gives another pointer", quote(x.first, 40).c_str()); }
    if (!global) {
      It it{this}; struct X { StrActor *a; size_t n; bool ok; Str extra; } x{this, 0, true, ""};
      str_pool_iterate_arg(p, [](const char *s, void *a) { X *x = (X *)a; x->n++; auto f = x->a->in.find(s); if (f == x->a->in.end()) x->extra = s; else if (f->second != s) x->ok = false; return x->n > 6000 ? 1 : 0; }, &x);
      bool extra_ok = tolerant && pend && x.n == in.size() + 1 && (x.extra == pstr);
      CHECK(props, "str-contents", x.ok && ((x.n == in.size() && x.extra.empty() ) || extra_ok || (x.n == in.size() && in.count(""))), "the pool holds %zu strings instead of %zu", x.n, in.size());
    }
    if (tolerant) { Str s = global ? "g:after failure" : "after failure"; const char *a = find(s), *b = find(s); CHECK(props, "str-usable", a && a == b && s == a, "interning in an exit handler does not work"); }
  }
  int trav = 0;
  void unlock() override { if (trav) str_pool_readonly(p, 0); trav = 0; }
  void destroy() override {
    pend_destroy = true; if (global) str_destroy(); else str_pool_destroy(p); in.clear(); cp.clear(); ptrs.clear(); growing = false; gs.clear(); dead = true; pend_destroy = false;
  }
};
int StrActor::git_stop; StrActor *StrActor::gita; std::set<Str> StrActor::gseen; size_t StrActor::gn;
ActorP mk_str(bool global) { return ActorP(new StrActor(global)); }

// ================================================================ object pools
struct ObjActor : Actor {
  void handles(std::vector<std::pair<char, void *>> &o) override { o.push_back({'o', m}); for (auto &x : live) if (size >= 8) o.push_back({'-', x.p}); }
  mem_Object m; int size; struct O { char *p; uint32_t seed; }; std::vector<O> live; int gets = 0; uint32_t ns = 0;
  ObjActor() { kind = "objects"; static const int sz[] = {1, 8, 16, 24, 100, 1000}; size = rch(1, 3) ? (int)rr(1, 300) : sz[rn(6)]; m = mem_create_objects(size); }
  void fill(O &o) { for (int i = 0; i < size; i++) o.p[i] = (char)mix(o.seed, i); }
  bool good(const O &o) { if (!heap_ok(o.p, size)) return false; for (int i = 0; i < size; i++) if (o.p[i] != (char)mix(o.seed, i)) return false; return true; }
  void op() override {
    switch (rn(8)) {
      case 0: case 1: case 2: case 3: {
        bool empty = rn(2); int k = rch(1, 8) ? 7 : 1;
        while (k--) {
          pend = true; char *p = (char *)(empty ? mem_get_empty_object(m) : mem_get_object(m)); pend = false; gets++; sample_op(empty ? "obj-get-empty" : "obj-get");
          CHECK("C22", "obj-size", p && heap_ok(p, size), "an object of %d bytes is not that large", size);
          for (auto &o : live) CHECK("C22", "obj-overlap", p + size <= o.p || o.p + size <= p, "an object overlaps another one in use");
          if (empty) for (int i = 0; i < size; i++) CHECK("C22", "obj-zero", !p[i], "byte %d of an object requested empty is 0x%02x", i, (unsigned char)p[i]);
          O o{p, ++ns}; fill(o); live.push_back(o);
        }
        break; }
      case 4: case 5: case 6: if (!live.empty()) { int k = rch(1, 6) ? (int)rr(1, live.size()) : 1; while (k--) { size_t i = rn(live.size()); CHECK("C22", "obj-content", good(live[i]), "an object changed while in use"); memset(live[i].p, 0xEE, size); char *p = live[i].p; live.erase(live.begin() + i); pend = true; mem_free_object(m, p); pend = false; } sample_op("obj-free"); } break;
      default: {
        mem_ObjectStats s = mem_get_object_stats(m); note("obj stats %d", s->used);
        CHECK("C22", "obj-stats", s->used == (int)live.size() && s->size == size && s->total + s->reused == gets && s->total >= s->used, "statistics report total %d used %d reused %d size %d; %zu are in use after %d requests", s->total, s->used, s->reused, s->size, live.size(), gets);
        if (rch(1, 3)) { Str g = printed([&] { mem_print_object_stats(m, rn(2) ? nullptr : sim_stdout); }); CHECK("C22", "obj-print", numbers_in_order(g, {(unsigned long)s->total, (unsigned long)s->used, (unsigned long)s->reused}), "the printed statistics read %s", quote(g, 300).c_str()); }
        xfree(s); }
    }
  }
  void verify(const char *props, bool tolerant) override {
    for (auto &o : live) CHECK(props, "obj-content", good(o), "an object in use changed");
    if (tolerant) { char *p = (char *)mem_get_object(m); CHECK(props, "obj-usable", p && heap_ok(p, size), "no object in an exit handler"); for (auto &o : live) CHECK(props, "obj-overlap", p + size <= o.p || o.p + size <= p, "an object overlaps another one in use"); memset(p, 1, size); }
  }
  void destroy() override { pend_destroy = true; live.clear(); mem_destroy_objects(m); dead = true; }
};
ActorP mk_obj() { return ActorP(new ObjActor); }

// ================================================================ string stores and argument lists
struct MstrActor : Actor {
  void handles(std::vector<std::pair<char, void *>> &o) override { o.push_back({'m', m}); for (auto &x : v) if (x.second.size() >= 8) o.push_back({'-', (void *)x.first}); }
  mem_String m; std::vector<std::pair<const char *, Str>> v; bool growing = false; Str gs, pstr; int pk = 0;
  MstrActor() { kind = "string-store"; m = mem_create_strings(); }
  void add(const char *p, const Str &s, const char *how) {
    CHECK("C22", "mstr-content", p && heap_ok(p, s.size() + 1) && !memcmp(p, s.c_str(), s.size() + 1), "%s of %s gave something else", how, quote(s, 40).c_str());
    for (auto &x : v) CHECK("C22", "mstr-overlap", p + s.size() + 1 <= x.first || x.first + x.second.size() + 1 <= p, "%s gave memory that another string uses", how);
    v.push_back({p, s});
  }
  void grow(const Str &s) { pstr = s; pk = 3; pend = true; { Buf b(s, false); mem_grow(m, b.p, s.size()); } pend = false; gs += s; growing = true; }
  void finish() { pk = 4; pend = true; const char *p = mem_finish(m); pend = false; Str s = gs; gs.clear(); growing = false; add(p, s, "growing"); sample_op("mstr-grow"); note("mstr finish %zu", s.size()); }
  void op() override {
    if (growing) { if (rn(2)) { Str s = rstr(60); if (s.size() && rch(1, 10)) s[rn(s.size())] = 0; grow(s); } else finish(); return; }
    Str s = rstr(rch(1, 10) ? 3000 : 60);
    switch (rn(6)) {
      case 0: { pk = 1; pend = true; const char *p; { Buf b(s, true); p = mem_strcpy(m, b.p); } pend = false; add(p, s, "copying"); sample_op("mstr-copy"); break; }
      case 1: case 2: { size_t n = rn(s.size() + 1); Str tail = rn(2) ? s.substr(n) : Str(); s = s.substr(0, n); if (n && rch(1, 10)) s[rn(n)] = 0; pk = 1; pend = true; const char *p; { Buf b(s + tail, false); p = mem_strncpy(m, b.p, n); } pend = false; add(p, s, "counted copying"); sample_op("mstr-copyn"); break; }
      case 3: case 4: if (rch(1, 12)) { finish(); break; } grow(s); if (rn(2)) { for (int k = rn(5); k > 0; k--) grow(Str(rr(1, 200), 'a' + rn(26))); finish(); } break;
      default: { mem_StringStats t = mem_get_string_stats(m); size_t b = 0; for (auto &x : v) b += x.second.size(); note("mstr stats"); CHECK("C22", "mstr-stats", t->count == (int)v.size() && (size_t)t->bytes >= b, "statistics report %d strings in %d bytes; there are %zu with %zu characters", t->count, t->bytes, v.size(), b); CHECK("C22", "mstr-stats", (size_t)t->bytes == b || (size_t)t->bytes == b + v.size(), /* with or without all terminators */ "statistics report %d bytes for %zu strings with %zu characters", t->bytes, v.size(), b); if (rch(1, 3)) { Str g = printed([&] { mem_print_string_stats(m, rn(2) ? nullptr : sim_stdout); }); CHECK("C22", "mstr-print", numbers_in_order(g, {(unsigned long)t->count, (unsigned long)t->bytes}), "the printed statistics read %s", quote(g, 300).c_str()); } xfree(t); }
    }
  }
  void verify(const char *props, bool tolerant) override {
    for (auto &x : v) CHECK(props, "mstr-content", heap_ok(x.first, x.second.size() + 1) && !memcmp(x.first, x.second.c_str(), x.second.size() + 1), "the stored string %s changed", quote(x.second, 40).c_str());
    if (tolerant && (growing || (pend && pk >= 3))) {
      const char *g = mem_finish(m); auto is = [&](const Str &x) { return heap_ok(g, x.size() + 1) && !memcmp(g, x.c_str(), x.size() + 1); }; Str r = heap_ok(g, 1) ? Str(g) : Str("nothing"); bool ok = pend && pk == 3 ? is(gs) || is(gs + pstr) : pend && pk == 4 ? is(gs) || is("") : is(gs);
      CHECK(props, "mstr-grow-interrupted", ok, "the string being grown finishes as %s", quote(r, 40).c_str()); growing = false;
    }
    if (tolerant) { const char *p = mem_strcpy(m, "after failure"); CHECK(props, "mstr-usable", p && Str(p) == "after failure", "copying in an exit handler does not work"); }
  }
  void destroy() override { pend_destroy = true; v.clear(); mem_destroy_strings(m); dead = true; }
};
ActorP mk_mstr() { return ActorP(new MstrActor); }

struct ArgActor : Actor {
  void handles(std::vector<std::pair<char, void *>> &o) override { o.push_back({'a', a}); }
  arg_List a; std::vector<Str> cur, nxt; bool growing = false; Str gs, pstr; int pk = 0;
  ArgActor() {
    kind = "arguments";
    if (rn(2)) a = arg_create(); else { Str c; int n = rn(9); for (int i = 0; i < n; i++) { Str w = fmt("w%d%s", i, Str(rn(4) * 7, 'y').c_str()); cur.push_back(w); c += (i ? (rn(2) ? " " : " \t ") : "") + (rn(4) ? w : rn(2) ? "\"" + w + "\"" : "'" + w.substr(0, 1) + "'" + w.substr(1)); } Buf b(c, true); a = arg_argify(b.p, 0); }
    check("created");
  }
  bool same(const std::vector<Str> &m) {
    int n = arg_count(a); if (n != (int)m.size()) return false;
    int argc = -1; char **argv = nullptr; arg_get_vector(a, &argc, &argv); if (argc != n) return false;
    for (int i = 0; i < n; i++) { const char *s = arg_get(a, i); if (!heap_ok(s, m[i].size() + 1) || memcmp(s, m[i].c_str(), m[i].size() + 1) || argv[i] != s) return false; }
    return argv && argv[n] == nullptr;
  }
  void check(const char *how) { CHECK("C22", "arg-content", same(cur), "the argument list (%d items) is not what was added (%zu) after it was %s", arg_count(a), cur.size(), how); }
  void grow(const Str &s) { pstr = s; pk = 3; pend = true; { Buf b(s, false); arg_grow(a, b.p, s.size()); } pend = false; gs += s; growing = true; }
  void finish() { pk = 4; nxt = cur; nxt.push_back(gs); pend = true; arg_List r = arg_finish(a); cur.swap(nxt); pend = false; gs.clear(); growing = false; CHECK("C22", "arg-return", r == a, "arg_finish returned another list"); sample_op("arg-grow"); }
  void op() override {
    if (growing) { if (rn(2)) { Str s = rstr(60); grow(s); } else finish(); check("grown"); return; }
    Str s = rstr(60);
    switch (rn(7)) {
      case 0: case 1: { int k = rch(1, 5) ? 9 : 1; while (k--) { nxt = cur; nxt.push_back(s); pk = 1; pend = true; arg_List r; { Buf b(s, true); r = arg_add(a, b.p); } cur.swap(nxt); pend = false; CHECK("C22", "arg-return", r == a, "arg_add returned another list"); s += "+"; } sample_op("arg-add"); break; }
      case 2: case 3: { size_t n = rn(s.size() + 1); Str tail = rn(2) ? s.substr(n) : Str(); s = s.substr(0, n); nxt = cur; nxt.push_back(s); pk = 1; pend = true; { Buf b(s + tail, false); arg_addn(a, b.p, n); } cur.swap(nxt); pend = false; sample_op("arg-addn"); break; }
      case 4: case 5: grow(s); if (rn(2)) finish(); break;
      default: if (opt.fatal) { int i = rn(2) ? -1 - (int)rn(3) : (int)(cur.size() + rn(4)); bool ok = dies([&] { arg_get(a, i); }, 1); CHECK("C22", "arg-range", ok, "item %d of %zu was delivered", i, cur.size()); }
    }
    note("arg count %d", arg_count(a)); check("changed");
  }
  void verify(const char *props, bool tolerant) override {
    CHECK(props, "arg-content", same(cur) || (tolerant && pend && pk != 3 && same(nxt)), "the argument list (%d items) does not hold the %zu items added", arg_count(a), cur.size());
    if (tolerant) {
      int n = arg_count(a); Str exp = gs;
      if (growing || (pend && pk >= 3)) { arg_finish(a); CHECK(props, "arg-count", arg_count(a) == n + 1, "finishing in an exit handler does not add one item"); Str r = arg_get(a, n); bool ok = pend && pk == 3 ? r == gs || r == gs + pstr : pend && pk == 4 ? r == gs || r.empty() : r == gs; CHECK(props, "arg-grow-interrupted", ok, "the item being grown finishes as %s", quote(r, 40).c_str()); growing = false; n++; }
      for (int i = 0; i < 6; i++) arg_add(a, "after failure");
      CHECK(props, "arg-usable", arg_count(a) == n + 6 && Str(arg_get(a, n + 5)) == "after failure", "adding in an exit handler does not work");
    }
  }
  void destroy() override { pend_destroy = true; arg_destroy(a); dead = true; }
};
ActorP mk_arg() { return ActorP(new ArgActor); }

// ================================================================ the source manager
struct SrcActor : Actor {
  struct Tok { src_Type t; Str file; bool hasfile; int line, off, len; Str text; bool hastext; };
  bool exists = false; Str file; bool hasfile = false; int line = 0, off = 0; std::vector<Str> lines; std::vector<Tok> toks; std::map<Str, Str> conc; int pk = 0; Str ptext; int cycles = 0; std::vector<const char *> lp;
  SrcActor() { kind = "source"; if (rn(2)) create(); }
  void reset() { exists = false; file.clear(); hasfile = false; line = off = 0; lines.clear(); toks.clear(); lp.clear(); }
  void create() { pk = 0; pend = true; src_create(); pend = false; exists = true; }
  void textline(Str s) {
    bool first = !exists; pk = 1; ptext = s; for (auto &c : ptext) if (c == '\t') c = ' ';
    pend = true; const char *r; { Buf b(s, rn(2)); r = src_line(b.p, s.size()); } pend = false; exists = true; (void)first;
    line++; off = 0; lines.push_back(ptext); lp.push_back(r);
    CHECK("C23", "src-line", r && heap_ok(r, s.size() + 1) && Str(r) == ptext, "storing line %zu gave something else than %s", lines.size(), quote(ptext, 40).c_str());
  }
  Str line_text() { Str s = rn(6) ? rstr(rch(1, 8) ? 300 : 40) : Str(); for (auto &c : s) if (c == '\n') c = '.'; if (rch(1, 6)) s = "\t" + s + "\tx"; return rch(1, 4) ? s : s + "\n"; }
  void take(int len) {
    pk = 2; pend = true; src_Type t = src_get(len); pend = false;
    toks.push_back({t, file, hasfile, line, off, len, lines.empty() ? Str() : lines.back(), !lines.empty()}); off += len;
    CHECK("C23", "src-token", t, "no token"); same(toks.back(), "C23"); sample_op("src-get");
  }
  void same(const Tok &k, const char *props) {
    const char *f = src_filename(k.t); int l = src_linenumber(k.t), o = src_offset(k.t), n = src_length(k.t);
    CHECK(props, "src-token", (k.hasfile ? f && heap_ok(f, k.file.size() + 1) && k.file == f : f == nullptr) && l == k.line && o == k.off && n == k.len, "a token taken at %s:%d offset %d length %d reports %s:%d offset %d length %d", k.file.c_str(), k.line, k.off, k.len, f ? f : "(null)", l, o, n);
    if (!k.hastext) { const char *s = src_source_line(k.t); CHECK(props, "src-text", s && !*s, "a token taken before any line has the line %s", s && heap_ok(s, 1) ? quote(s, 40).c_str() : "nothing"); }
    else { const char *s = src_source_line(k.t); CHECK(props, "src-text", s && heap_ok(s, k.text.size() + 1) && k.text == s, "a token's line reads %s instead of %s", s && heap_ok(s, 1) ? quote(s, 40).c_str() : "nothing", quote(k.text, 40).c_str()); }
  }
  Str out_since(size_t n) { sim_fflush(sim_stdout); return K->console1.substr(n); }
  void print() {
    std::vector<Tok *> c; for (auto &t : toks) if (t.hasfile && t.len < 500 && t.off < 3000) c.push_back(&t);
    sim_fflush(sim_stdout); size_t n = K->console1.size(); FILE *st = rn(2) ? nullptr : sim_stdout;
    Tok *t = c.empty() || rch(1, 8) ? nullptr : c[rn(c.size())]; if (!t && !exists && rn(2)) return;
    Str pos = t ? fmt("%s:%d: ", t->file.c_str(), t->line) : "?:?: ", ln = t ? pos + t->text : "?:?: <source line not available>\n";
    Str mark = pos + (t ? Str(t->off, ' ') + Str(t->len, '^') : "") + "\n"; Str got, exp;
    if (t) { if (!t->hastext) ln = pos + "<source line not available>\n"; }
    if (rch(1, 12)) { // no format: the position alone
      if (rn(2)) { src_print_error(st, t ? t->t : nullptr, nullptr); exp = ln + mark; } else src_print_message(st, t ? t->t : nullptr, nullptr);
      got = out_since(n); CHECK("C23", "src-print", got == exp, "without a format the printed text is %s instead of %s", quote(got, 300).c_str(), quote(exp, 300).c_str()); return; }
    switch (rn(4)) {
      case 0: src_print_line(st, t ? t->t : nullptr); exp = ln; break;
      case 1: { int v = rn(1000); src_print_error(st, t ? t->t : nullptr, "bad %s %d", "thing", v); exp = pos + fmt("bad thing %d\n", v) + ln + mark; break; }
      case 2: { int v = rn(1000); src_print_message(st, t ? t->t : nullptr, "see %d", v); exp = pos + fmt("see %d\n", v); break; }
      default: {
        Str m, e; bool exact = true;
        for (int i = rn(5); i >= 0; i--) switch (rn(6)) {
          case 5: { static const char *odd[] = {"``x'", "`'", "``", "``'", "`A_b'", "'", "``xy''", "` T_x'", "T_x", "`t_x'"}; const char *o = odd[rn(10)]; m += o; m += " "; e += o; e += " "; break; }
          case 0: m += "``x''"; e += "`x'"; break;
          case 1: { Str y = fmt("T_sym%d", (int)rn(12)); m += "`" + y + "'"; e += "`" + (conc.count(y) ? conc[y] : y) + "'"; break; }
          case 2: { m += "parse error, "; e += "parse error, "; break; }
          case 3: { Str y = "T_" + Str(rr(1, 40), 'L'); if (rch(1, 4)) y += Str(rr(950, 1100), 'M'); m += "`" + y + "'"; e += "`" + y + "'"; break; }
          default: m += "it's "; e += "it's "; }
        if (rch(1, 6)) { m += "`T_end"; exact = false; } else if (rch(1, 4)) { static const char *ends[] = {"`", "``", "``x", "``x'", "`T"}; const char *o = ends[rn(5)]; m += o; e += o; }
        { Buf b(m, true); src_parse_error(st, t ? t->t : nullptr, b.p); }
        got = out_since(n); Str tail = "\n" + ln + mark;
        bool ok = exact ? got == pos + e + tail : got.size() >= tail.size() && got.compare(0, pos.size(), pos) == 0 && got.compare(got.size() - tail.size(), tail.size(), tail) == 0 && got.find("T_end") != Str::npos;
        CHECK("C23", "src-print", ok, "the parse error report reads %s", quote(got, 400).c_str()); note("src print"); sample_op("src-print"); return; }
    }
    got = out_since(n); note("src print %s", quote(got, 60).c_str()); sample_op("src-print");
    CHECK("C23", "src-print", got == exp, "the printed text is %s instead of %s", quote(got, 300).c_str(), quote(exp, 300).c_str());
  }
  void op() override {
    switch (rn(12)) {
      case 0: case 1: case 2: { int k = rch(1, 10) ? (opt.small ? 30 : (int)rr(100, 1300)) : (int)rr(1, 4); while (k--) textline(k > 4 ? fmt("line %d\n", k) : line_text()); note("src lines %zu", lines.size()); sample_op("src-line"); break; }
      case 3: case 4: case 5: if (exists) { for (int k = rn(4); k >= 0; k--) take(rch(1, 20) ? rn(80000) : rn(30)); note("src tokens"); } else if (opt.fatal) { static const char *nm[] = {"src_get", "src_filename", "src_linenumber", "src_offset", "src_length", "src_source_line"}; int w = rn(6); bool ok = dies([&] { switch (w) { case 0: src_get(1); break; case 1: src_filename(nullptr); break; case 2: src_linenumber(nullptr); break; case 3: src_offset(nullptr); break; case 4: src_length(nullptr); break; default: src_source_line(nullptr); } }, 3); CHECK("C23", "src-absent", ok, "%s answers without a source manager", nm[w]); } break;
      case 6: { Str f = fmt("file%d.c", (int)rn(20)); pk = 3; pend = true; { Buf b(f, true); src_new_file(b.p); } pend = false; file = f; hasfile = true; break; }
      case 7: { static const int big[] = {32767, 65535, 65536, 99999, 1 << 24, 2000000000}; int l = rch(1, 5) ? big[rn(6)] : (int)rr(1, 5000); src_new_line(l); line = l; break; }
      case 8: { int a = rch(1, 10) ? (int)rn(100000) : (int)rn(40); src_advance(a); off += a; break; }
      case 9: { int l = rch(1, 5) ? (int)rr(32768, 200000) : (int)rr(1, 9000); bool f = rn(2); Str fn = fmt("inc%d.h", (int)rn(9)); Str d = f ? fmt("# %d \"%s\"%s", l, fn.c_str(), rn(2) ? " 1" : "") : fmt("# %d", l); Str tail = rn(2) ? "\njunk" : ""; pk = 4; pend = true; { Buf b(d + tail, !tail.empty()); src_cpp_line(b.p, d.size()); } pend = false; line = l - 1; if (f) { file = fn; hasfile = true; } note("src cpp %d", l); sample_op("src-cpp"); break; }
      case 10: if (rch(1, 2)) print(); else { Str y = fmt("T_sym%d", (int)rn(12)), c = fmt("<%d>", (int)rn(50)); { Buf a(y, true), b(c, true); prs_register_concrete(a.p, b.p); } conc.emplace(y, c); const char *r = prs_concrete(y.c_str()); CHECK("C23", "src-concrete", r && conc[y] == r, "the registered form of %s is %s", y.c_str(), r ? r : "nothing"); } break;
      default:
        if (exists && opt.fatal && rch(1, 6)) { bool ok = dies([&] { src_create(); }, 3); CHECK("C23", "src-twice", ok, "a second source manager was created"); }
        else if (rch(1, 4)) { src_destroy(); reset(); cycles++; note("src destroy"); sample_op("src-destroy"); if (rn(2)) create(); }
        else if (exists) { src_Stats s = src_get_stats(); note("src stats %d", s->lines_used); CHECK("C23", "src-stats", s->lines_used == (int)lines.size() && s->lines_allocated >= s->lines_used && s->tokens_total + s->tokens_reused == (int)toks.size(), "statistics report %d of %d lines and %d tokens instead of %zu lines and %zu tokens", s->lines_used, s->lines_allocated, s->tokens_total, lines.size(), toks.size());
          size_t bytes = 0; for (auto &x : lines) bytes += x.size(); CHECK("C23", "src-stats", (size_t)s->lines_bytes >= bytes && s->tokens_size > 0, "statistics report %d bytes for lines of %zu characters and tokens of %d bytes", s->lines_bytes, bytes, s->tokens_size);
          if (rch(1, 3)) { Str g = printed([&] { src_print_stats(rn(2) ? nullptr : sim_stdout); }); CHECK("C23", "src-print-stats", numbers_in_order(g, {(unsigned long)s->lines_used, (unsigned long)s->lines_bytes, (unsigned long)s->lines_allocated, (unsigned long)s->tokens_total, (unsigned long)s->tokens_total * s->tokens_size, (unsigned long)s->tokens_reused}), "the printed statistics read %s", quote(g, 300).c_str()); }
          xfree(s); }
        else { src_Stats s = src_get_stats(); CHECK("C23", "src-stats", !s->lines_used && !s->lines_allocated && !s->lines_bytes && !s->tokens_total && !s->tokens_reused && !s->tokens_size, "statistics of an absent source manager are not zero"); xfree(s); }
    }
    if (toks.size()) same(toks[rn(toks.size())], "C23");
    if (exists && rch(1, 10)) { const char *f = src_filename(nullptr), *l = src_source_line(nullptr); CHECK("C23", "src-none", f && !*f && l && !*l && !src_linenumber(nullptr) && !src_offset(nullptr) && !src_length(nullptr), "no token has a position"); }
  }
  void verify(const char *props, bool tolerant) override {
    if (exists) for (auto &t : toks) same(t, props);
    if (exists) for (size_t i = 0; i < lines.size(); i++) CHECK(props, "src-text", heap_ok(lp[i], lines[i].size() + 1) && lines[i] == lp[i], "stored line %zu changed", i + 1);
    if (tolerant) {
      // positions continue from before or after the interrupted operation
      bool fresh = !exists; const char *t0 = src_line("after failure", 13); int l0 = line + 1;
      src_Type t = src_get(5); int l = src_linenumber(t), o = src_offset(t); const char *s = src_source_line(t);
      bool ok = (l == l0 || (pend && (pk == 1 ? l == l0 + 1 : pk == 4))) && o == 0 && s == t0 && Str(s) == "after failure" && src_length(t) == 5;
      CHECK(props, "src-usable", ok, "after the failure a new line (number %d expected) is reported at %d offset %d as %s", l0, l, o, s && heap_ok(s, 1) ? quote(s).c_str() : "nothing");
      src_Stats st = src_get_stats(); int n = (int)lines.size() + 1; bool more = st->lines_used == n + 1; CHECK(props, "src-stats", st->lines_used == n || (pend && pk == 1 && more), "%d lines are counted instead of %d", st->lines_used, n); xfree(st);
      if (pk == 1 || !pend) CHECK(props, "src-usable", l == l0 + (more ? 1 : 0), "after the interrupted line %zu the next one has number %d, but %d lines are stored", lines.size() + 1, l, more ? n : n - 1);
      (void)fresh; exists = true;
    }
  }
  void destroy() override { pend_destroy = true; src_destroy(); _prs_shutdown(); reset(); conc.clear(); dead = true; }
};
ActorP mk_src() { return ActorP(new SrcActor); }
}
