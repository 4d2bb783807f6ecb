// Few but large objects: tables that grow many times, more elements than a short can count, pieces larger than a chunk.
// The histories come from one drawn number, so that the tape stays short.
#include "actors.h"
#include "core.h"
#include <deque>
namespace {
using namespace sim; using namespace act;
struct Rng { uint64_t s = 1; uint32_t operator()(uint32_t n) { s = s * 6364136223846793005ull + 1442695040888963407ull; return (uint32_t)((s >> 33) % n); } };
struct Large : Scenario {
  Rng r; size_t n = 0; bool init = false;
  virtual size_t cap() { return 72500; }
  void configure() override {
    cfg.reuse = draw(3); cfg.realloc_mode = draw(3); cfg.fill = draw(5); cfg.rnd_mode = 0; cfg.tty_out = draw(2); cfg.stdio_buf = 4096;
    static const uint32_t ns[] = {300, 1100, 2100, 4100, 9000, 17000, 33000, 72000}; n = ns[draw(8)]; n += draw(300); if (n > cap()) n = cap();
    r.s = 1 + draw(1u << 30); init = draw(2); n = std::max<size_t>(n, 8);
  }
  virtual void work() = 0;
  void main() override { init_tables(); TR("%zu elements", n); TR("history %llu", (unsigned long long)r.s); TR("reuse %d, realloc %d, fresh memory %d", cfg.reuse, cfg.realloc_mode, cfg.fill); if (init) maa_init("large"); work(); TR("%llu blocks were allocated", (unsigned long long)alloc_calls); TR("state %llu", (unsigned long long)r.s); if (init) maa_shutdown(); probe(n > 65536 ? "more-than-65536" : n > 32768 ? "more-than-32768" : "large"); }
  std::vector<uint32_t> perm(size_t k) { std::vector<uint32_t> v(k); for (size_t i = 0; i < k; i++) v[i] = i; for (size_t i = k; i > 1; i--) std::swap(v[i - 1], v[r(i)]); return v; }
};
// ---------------------------------------------------------------- hash tables and sets
struct Key { uint64_t id; char s[16]; };
unsigned long hmix(const void *p) { return ((const Key *)p)->id * 0x9e3779b97f4a7c15ull; }
unsigned long hlow(const void *p) { return ((const Key *)p)->id; }
unsigned long hsame(const void *) { return 77; }
unsigned long hhigh(const void *p) { return ((const Key *)p)->id << 33; }
int kcmp(const void *a, const void *b) { uint64_t x = ((const Key *)a)->id, y = ((const Key *)b)->id; return x < y ? -1 : x > y; }
struct LargeKeys : Large {
  std::vector<Key> keys, copy; int mode = 0;
  void fill() { mode = draw(6); if (mode == 5) { n = std::min<size_t>(n, 1500); probe("long-chain"); } keys.resize(n); copy.resize(n); for (size_t i = 0; i < n; i++) { keys[i].id = i; snprintf(keys[i].s, 16, "k%zx", i * 7919); copy[i] = keys[i]; } }
  unsigned long (*h())(const void *) { switch (mode) { case 0: return hmix; case 1: return hlow; case 2: return hhigh; case 3: return nullptr; case 5: return hsame; default: return hsh_pointer_hash; } }
  int (*c())(const void *, const void *) { switch (mode) { case 3: return nullptr; case 4: return hsh_pointer_compare; default: return kcmp; } }
  const void *key(size_t i, bool other) { if (mode == 3) return other ? copy[i].s : keys[i].s; return mode != 4 && other ? &copy[i] : &keys[i]; }
  long index(const void *p) { const char *b = (const char *)&keys[0], *e = (const char *)(&keys[0] + n); if ((const char *)p < b || (const char *)p >= e) return -1; return (long)(((const char *)p - b) / sizeof(Key)); }
};
struct LargeHash : LargeKeys {
  hsh_HashTable t; std::vector<char> in; size_t cnt = 0;
  struct V { LargeHash *l; std::vector<char> seen; size_t n = 0; bool bad = false; };
  static int visit(const void *k, const void *d, void *a) { AppScope app; V *v = (V *)a; long i = v->l->index(k); v->n++; if (i < 0 || !v->l->in[i] || v->seen[i] || d != &v->l->keys[i]) v->bad = true; else v->seen[i] = 1; return 0; }
  void whole(const char *when) {
    V v{this, std::vector<char>(n)}; int q = hsh_iterate_arg(t, visit, &v); CHECK("C17", "hash-large", !q && !v.bad && v.n == cnt, "%s: a traversal of %zu pairs visited %zu%s", when, cnt, v.n, v.bad ? ", some wrong" : "");
    std::vector<char> seen(n); size_t k = 0; bool bad = false; hsh_Position p; for (HSH_POSITION_INIT(p, t); HSH_POSITION_OK(p); HSH_POSITION_NEXT(p, t)) { void *x; hsh_get_position(p, &x); long i = index(x); k++; if (i < 0 || !in[i] || seen[i]) bad = true; else seen[i] = 1; } HSH_ITERATE_END(t);
    CHECK("C17", "hash-large", !bad && k == cnt, "%s: a positional traversal of %zu pairs visited %zu", when, cnt, k);
    hsh_Stats s = hsh_get_stats(t); CHECK("C17", "hash-large-stats", s->entries == cnt && s->buckets_used <= s->size && s->buckets_used <= cnt, "%s: statistics report %lu pairs instead of %zu", when, s->entries, cnt); CHECK("C17", "hash-crowded", s->entries <= s->size + 4, "%s: %lu pairs are kept in %lu places", when, s->entries, s->size); xfree(s);
  }
  void work() override {
    fill(); in.assign(n, 0); t = hsh_create(h(), c()); auto order = perm(n); size_t peek = 1 + r(n); sample_op("hash-large");
    for (size_t j = 0; j < n; j++) {
      size_t i = order[j]; int q = hsh_insert(t, key(i, false), &keys[i]); CHECK("C17", "hash-large", q == 0, "inserting key %zu as number %zu returned %d", i, j, q); in[i] = 1; cnt++;
      if (r(8) == 0) { size_t x = order[r(n)]; const void *d = hsh_retrieve(t, key(x, true)); CHECK("C17", "hash-large", d == (in[x] ? &keys[x] : nullptr), "among %zu pairs key %zu was %s", cnt, x, d ? "found" : "not found"); }
      if (r(40) == 0) { size_t x = order[r(j + 1)]; int was = in[x]; int q2 = hsh_delete(t, key(x, true)); CHECK("C17", "hash-large", !!q2 == !was, "deleting key %zu among %zu returned %d", x, cnt, q2); if (was) { in[x] = 0; cnt--; } }
      if (r(60) == 0 && in[i]) { int q3 = hsh_insert(t, key(i, true), &keys[0]); CHECK("C17", "hash-large", q3 != 0, "a second pair for key %zu was accepted", i); }
      if (j == peek) whole("in between");
      if (r(200) == 0) { int q = hsh_iterate(t, [](const void *, const void *) { return 1; }); CHECK("C17", "hash-large", q != 0 || !cnt, "a traversal of %zu pairs that was to stop returned %d", cnt, q); }
    }
    for (size_t i = 0; i < n; i++) { const void *d = hsh_retrieve(t, key(i, r(2))); CHECK("C17", "hash-large", d == (in[i] ? &keys[i] : nullptr), "among %zu pairs key %zu was %s", cnt, i, d ? "found" : "not found"); }
    whole("at the end");
    for (size_t j = 0; j < n && r(n) > 2; j++) { size_t i = order[j]; int q = hsh_delete(t, key(i, r(2))); CHECK("C17", "hash-large", !!q == !in[i], "deleting key %zu among %zu returned %d", i, cnt, q); if (in[i]) { in[i] = 0; cnt--; } }
    whole("after deletions"); hsh_destroy(t);
  }
};
SCENARIO("C17", "hash-large", 1, LargeHash);
struct LargeSet : LargeKeys {
  size_t cap() override { return 40000; }
  void same(set_Set s, const std::vector<char> &m, const char *what) {
    size_t cnt = 0; for (char x : m) cnt += x; CHECK("C18", "set-large", set_count(s) == (int)cnt, "%s: %d elements are counted instead of %zu", what, set_count(s), cnt);
    std::vector<char> seen(n); size_t k = 0; bool bad = false; set_Position p; void *e; SET_ITERATE(s, p, e) { long i = index(e); if (i < 0) { const char *b = (const char *)&copy[0]; i = (const char *)e >= b && (const char *)e < b + n * sizeof(Key) ? ((const char *)e - b) / sizeof(Key) : -1; } k++; if (i < 0 || !m[i] || seen[i]) bad = true; else seen[i] = 1; }
    CHECK("C18", "set-large", !bad && k == cnt, "%s: a traversal of %zu elements visited %zu%s", what, cnt, k, bad ? ", some wrong" : "");
    for (int q = 0; q < 300; q++) { size_t i = r(n); CHECK("C18", "set-large", !!set_member(s, key(i, r(2))) == !!m[i], "%s: membership of %zu is wrong", what, i); }
    set_Stats st = set_get_stats(s); CHECK("C18", "set-large-stats", st->entries == cnt && st->buckets_used <= st->size, "%s: statistics report %lu elements instead of %zu", what, st->entries, cnt); CHECK("C18", "set-crowded", st->entries <= st->size + 4, "%s: %lu elements are kept in %lu places", what, st->entries, st->size); xfree(st);
  }
  void work() override {
    fill(); sample_op("set-large"); std::vector<char> A(n), B(n), C(n); set_Set a = set_create(h(), c()), b = set_create(h(), c());
    uint32_t pa = 1 + r(6), pb = 1 + r(6);
    for (uint32_t i : perm(n)) { if (r(pa) == 0) { int q = set_insert(a, key(i, false)); CHECK("C18", "set-large", q == 0, "adding %u returned %d", i, q); A[i] = 1; } if (r(pb) == 0) { set_insert(b, key(i, true)); B[i] = 1; } if (A[i] && r(30) == 0) { CHECK("C18", "set-large", set_delete(a, key(i, true)) == 0, "deleting %u failed", i); A[i] = 0; } if (A[i] && r(60) == 0) CHECK("C18", "set-large", set_insert(a, key(i, true)) != 0, "%u was added twice", i); }
    same(a, A, "the first operand"); same(b, B, "the second operand");
    auto op = [&](int k) { for (size_t i = 0; i < n; i++) C[i] = k == 0 ? A[i] || B[i] : k == 1 ? A[i] && B[i] : A[i] && !B[i]; };
    set_Set u = set_union(a, b); op(0); same(u, C, "the union"); set_Set x = set_inter(a, b); op(1); same(x, C, "the intersection"); set_Set d = set_diff(a, b); op(2); same(d, C, "the difference");
    set_Set y = set_add(d, x); same(y, A, "difference and intersection"); CHECK("C18", "set-large-equal", set_equal(y, a) && set_equal(a, y), "equal sets of %d elements are reported as different", set_count(a));
    set_del(u, b); op(2); same(u, C, "the union without the second"); CHECK("C18", "set-large-equal", !!set_equal(u, a) == (C == A), "equality is reported wrongly");
    if (A != C || !set_count(a)) {} else probe("disjoint");
    same(a, A, "the first operand afterwards"); same(b, B, "the second operand afterwards");
    if (set_count(a)) { size_t i = 0; while (!A[i]) i++; set_delete(y, key(i, true)); CHECK("C18", "set-large-equal", !set_equal(y, a) && !set_equal(a, y), "sets that differ in one element are equal"); }
    for (set_Set s : {a, b, u, x, d}) set_destroy(s); if (y != d) set_destroy(y);
  }
};
SCENARIO("C18", "set-large", 1, LargeSet);
// ---------------------------------------------------------------- lists, stacks, skip lists
struct LargeSeq : Large {
  void work() override {
    std::vector<char> blobs(n + 1); sample_op("seq-large"); stk_Stack s = stk_create(); std::vector<void *> st; lst_List l = lst_create(); std::deque<char *> m;
    for (size_t j = 0; j < n; j++) {
      char *d = &blobs[r(n)]; stk_push(s, d); st.push_back(d);
      if (r(9) == 0) { lst_push(l, d); m.push_front(d); } else { lst_append(l, d); m.push_back(d); }
      if (r(13) == 0) { void *e = m.empty() ? nullptr : m.front(); void *q = lst_pop(l); CHECK("C20", "list-large", q == e, "pop from a list of %zu gave the wrong element", m.size()); if (m.size()) m.pop_front(); }
      if (r(400) == 0) for (int k = r(3000); k && st.size(); k--) { void *q = stk_pop(s); CHECK("C20", "stack-large", q == st.back(), "pop from a stack of %zu gave the wrong element", st.size()); st.pop_back(); }
      CHECK("C20", "stack-large", stk_top(s) == (st.empty() ? nullptr : st.back()), "the top of a stack of %zu is wrong", st.size());
    }
    auto list = [&](const char *when) {
      CHECK("C20", "list-large", lst_length(l) == m.size(), "%s: the length is %u instead of %zu", when, lst_length(l), m.size());
      size_t i = 0; lst_Position p; void *e; LST_ITERATE(l, p, e) { if (i >= m.size() || e != m[i]) break; i++; } CHECK("C20", "list-large", i == m.size() && !p, "%s: element %zu of %zu is wrong", when, i + 1, m.size());
      for (int k = 0; k < 6 && m.size(); k++) { size_t x = k == 0 ? m.size() : k == 1 ? 1 : 1 + r(m.size()); CHECK("C20", "list-large", lst_nth_get(l, x) == m[x - 1], "%s: element %zu of %zu by number is wrong", when, x, m.size()); }
      CHECK("C20", "list-large", !lst_nth_get(l, m.size() + 1), "%s: an element behind the last", when);
      if (m.size()) CHECK("C20", "list-large", lst_member(l, m[r(m.size())]) && !lst_member(l, &blobs[n]), "%s: membership is wrong", when);
      struct V { std::deque<char *> *m; size_t i = 0; bool bad = false; } v{&m}; lst_iterate_arg(l, [](const void *d, void *a) { V *v = (V *)a; if (v->i >= v->m->size() || (*v->m)[v->i] != d) v->bad = true; v->i++; return 0; }, &v); CHECK("C20", "list-large", !v.bad && v.i == m.size(), "%s: a traversal of %zu visited %zu", when, m.size(), v.i);
    };
    list("filled"); size_t k = r(m.size() + 1); lst_truncate(l, k); m.resize(k); list("truncated"); char *last = &blobs[1]; lst_append(l, last); m.push_back(last); list("appended");
    size_t k2 = r(2) ? 0 : st.size(); while (st.size() > k2) { void *q = stk_pop(s); CHECK("C20", "stack-large", q == st.back(), "pop from a stack of %zu gave the wrong element", st.size()); st.pop_back(); }
    CHECK("C20", "stack-large", !!stk_isempty(s) == st.empty(), "emptiness of a stack of %zu is wrong", st.size()); if (st.empty()) CHECK("C20", "stack-large", !stk_pop(s), "an empty stack yields something");
    stk_push(s, last); CHECK("C20", "stack-large", stk_pop(s) == last, "a stack that was emptied does not work"); stk_destroy(s); lst_destroy(l);
  }
};
SCENARIO("C20", "sequences-large", 1, LargeSeq);
struct LargeSl : Large {
  size_t cap() override { return 40000; }
  static int cmp(const void *a, const void *b) { long x = *(const long *)a, y = *(const long *)b; return x < y ? -1 : x > y; }
  static const void *keyf(const void *d) { return d; }
  struct V { LargeSl *l; size_t next = 0, k = 0; bool bad = false; };
  std::vector<long> data; std::vector<char> in;
  static int visit(const void *d, void *a) { AppScope app; V *v = (V *)a; size_t i = (const long *)d - &v->l->data[0]; v->k++; if (i >= v->l->n || i < v->next || !v->l->in[i]) v->bad = true; v->next = i + 1; return 0; }
  void work() override {
    sample_op("sl-large"); data.resize(n); in.assign(n, 0); for (size_t i = 0; i < n; i++) data[i] = (long)(i * 5) - (long)n; sl_List l = sl_create(cmp, keyf, nullptr); size_t cnt = 0; int pat = r(3); auto order = perm(n);
    for (size_t j = 0; j < n; j++) { size_t i = pat == 0 ? j : pat == 1 ? n - 1 - j : order[j]; if (in[i]) continue; sl_insert(l, &data[i]); in[i] = 1; cnt++; if (r(25) == 0) { size_t x = order[r(n)]; if (in[x]) { sl_delete(l, &data[x]); in[x] = 0; cnt--; } } if (r(20) == 0) { size_t x = r(n); CHECK("C21", "sl-large", sl_find(l, &data[x]) == (in[x] ? &data[x] : nullptr), "among %zu data lookup of key %zu is wrong", cnt, x); } }
    for (int k = 0; k < 2; k++) { V v{this}; int q = sl_iterate_arg(l, visit, &v); CHECK("C21", "sl-large", !q && !v.bad && v.k == cnt, "a traversal of %zu data visited %zu%s", cnt, v.k, v.bad ? " or not in order" : "");
      for (size_t j = 0; j < n; j++) { size_t x = j; CHECK("C21", "sl-large", sl_find(l, &data[x]) == (in[x] ? &data[x] : nullptr), "among %zu data lookup of key %zu is wrong", cnt, x); long no = data[x] + 1 + r(4); if (j % 16 == 0) CHECK("C21", "sl-large", !sl_find(l, &no), "a key that was never inserted is found"); }
      if (!k) for (size_t j = 0; j < n; j++) { size_t i = order[j]; if (in[i] && r(3)) { sl_delete(l, &data[i]); in[i] = 0; cnt--; } } }
    sl_destroy(l);
  }
};
SCENARIO("C21", "skiplist-large", 1, LargeSl);
// ---------------------------------------------------------------- strings, pools, vectors, source lines
struct LargeStr : Large {
  size_t cap() override { return 40000; }
  Str name(size_t i) { Str s = fmt("%zx", i * 2654435761u); if (i % 97 == 0) s.append(i % 3000, 'x'); return s; }
  void work() override {
    sample_op("str-large"); bool g = draw(2); str_Pool p = g ? nullptr : str_pool_create(); if (n > 20000) n = 20000 + n % 3000; std::vector<const char *> at(n);
    auto find = [&](const Str &s) { Buf b(s, true); return g ? (r(2) ? str_find(b.p) : str_findn(b.p, s.size())) : str_pool_find(p, b.p); };
    for (size_t i = 0; i < n; i++) { Str s = name(i); at[i] = find(s); if (r(10) == 0) { size_t x = r(i + 1); CHECK("C19", "str-large", find(name(x)) == at[x], "string %zu of %zu has moved", x, i); } if (r(50) == 0) { Buf b(s, true); if (g) str_copy(b.p); else str_pool_copy(p, b.p); } }
    if (g) { // numbered names: none was there before, all are there now
      std::set<Str> seen; Str pre = fmt("gen%d-", (int)r(10)); size_t m = 200 + r(r(6) ? 3000 : 70000); for (size_t i = 0; i < m; i++) { Buf b(pre, true); const char *u = str_unique(b.p); CHECK("C19", "str-large", u && !strncmp(u, pre.c_str(), pre.size()) && seen.insert(u).second && str_find(u) == u, "the unique string %zu, %s, was there before", i, quote(u ? u : "null").c_str()); }
    }
    // one very long string, by several routes
    Str big; size_t len = 1000 + r(150000); for (size_t i = 0; i < len; i++) big += (char)('a' + r(26)); const char *q = find(big); CHECK("C19", "str-large", q && Str(q) == big && find(big) == q, "a string of %zu bytes is not interned", len);
    for (size_t i = 0; i < len;) { size_t k = std::min<size_t>(len - i, 1 + r(9000)); Buf b(big.substr(i, k), false); if (g) str_grow(b.p, k); else str_pool_grow(p, b.p, k); i += k; } const char *q2 = g ? str_finish() : str_pool_finish(p); CHECK("C19", "str-large", q2 == q, "a string of %zu bytes grown in pieces is another one", len);
    const char *c; { Buf b(big, false); c = g ? str_copyn(b.p, len) : str_pool_copyn(p, b.p, len); } CHECK("C19", "str-large", c != q && Str(c) == big, "a copy of %zu bytes is wrong", len);
    for (size_t i = 0; i < n; i++) { CHECK("C19", "str-large", at[i] == find(name(i)) && name(i) == at[i], "string %zu of %zu has moved or changed", i, n); }
    std::set<const char *> u(at.begin(), at.end()); CHECK("C19", "str-large", u.size() == n, "%zu strings share %zu places", n, u.size());
    struct V { std::set<const char *> *u; size_t k = 0; bool bad = false; } v{&u}; u.insert(q); auto it = [](const char *s, void *a) { AppScope app; V *v = (V *)a; v->k++; if (!v->u->count(s)) v->bad = true; return 0; };
    if (!g) { str_pool_iterate_arg(p, it, &v); CHECK("C19", "str-large", !v.bad && v.k == n + 1, "a traversal of %zu strings visited %zu", n + 1, v.k); }
    if (g) str_destroy(); else str_pool_destroy(p);
  }
};
SCENARIO("C19", "strings-large", 1, LargeStr);
struct LargeMem : Large {
  void work() override {
    sample_op("mem-large");
    switch (draw(3)) {
      case 0: {
        static const int sz[] = {1, 4, 8, 24, 100, 1000, 5000}; int size = sz[draw(7)]; size_t k = std::min<size_t>(n, 8000000 / (size + 64)); mem_Object o = mem_create_objects(size); std::vector<char *> v; size_t freed = 0;
        for (size_t j = 0; j < k; j++) { bool z = r(2); char *p = (char *)(z ? mem_get_empty_object(o) : mem_get_object(o)); CHECK("C22", "obj-large", heap_ok(p, size), "object %zu of %d bytes is too small", j, size); if (z) for (int i = 0; i < size; i++) CHECK("C22", "obj-large", !p[i], "object %zu is not empty", j); memset(p, (int)(intptr_t)p >> 4 & 0x7f, size); v.push_back(p); if (r(5) == 0) { size_t x = r(v.size()); mem_free_object(o, v[x]); v[x] = v.back(); v.pop_back(); freed++; } }
        std::sort(v.begin(), v.end()); for (size_t i = 0; i < v.size(); i++) { CHECK("C22", "obj-large", !i || v[i] >= v[i - 1] + size, "two objects in use overlap"); for (int b = 0; b < size; b += 7) CHECK("C22", "obj-large", v[i][b] == ((int)(intptr_t)v[i] >> 4 & 0x7f), "an object has changed"); }
        mem_ObjectStats s = mem_get_object_stats(o); CHECK("C22", "obj-large", s->used == (int)v.size(), "%d objects are counted in use instead of %zu", s->used, v.size()); xfree(s); mem_destroy_objects(o); break; }
      case 1: {
        arg_List a = arg_create(); std::vector<Str> w; for (size_t j = 0; j < n / 2; j++) { Str s = fmt("%zu", j); if (r(200) == 0) s.append(r(6000), 'y'); w.push_back(s); Buf b(s, true); switch (r(3)) { case 0: arg_add(a, b.p); break; case 1: arg_addn(a, b.p, s.size()); break; default: { size_t h = r(s.size() + 1); arg_grow(a, b.p, h); arg_grow(a, b.p + h, s.size() - h); arg_finish(a); } } }
        int c; char **v; arg_get_vector(a, &c, &v); CHECK("C22", "arg-large", c == (int)w.size() && arg_count(a) == c && !v[c], "%d words are counted instead of %zu", c, w.size()); for (int i = 0; i < c; i++) CHECK("C22", "arg-large", w[i] == v[i] && arg_get(a, i) == v[i], "word %d of %d is wrong", i, c);
        arg_destroy(a); break; }
      default: {
        mem_String m = mem_create_strings(); std::vector<std::pair<const char *, Str>> w; size_t bytes = 0; for (size_t j = 0; j < n / 4; j++) { Str s = fmt("%zu ", j); uint32_t q = r(300); if (q < 3) s.append(r(20000), 'z'); Buf b(s, true); const char *p; switch (r(3)) { case 0: p = mem_strcpy(m, b.p); break; case 1: { size_t h = r(s.size() + 1); p = mem_strncpy(m, b.p, h); s.resize(h); break; } default: { for (size_t i = 0; i < s.size();) { size_t k = std::min<size_t>(s.size() - i, 1 + r(5000)); mem_grow(m, b.p + i, k); i += k; } p = mem_finish(m); } } w.push_back({p, s}); bytes += s.size(); }
        for (auto &x : w) CHECK("C22", "mstr-large", x.second == x.first, "a stored string of %zu bytes has changed", x.second.size());
        mem_StringStats s = mem_get_string_stats(m); CHECK("C22", "mstr-large", s->count == (int)w.size() && (size_t)s->bytes >= bytes, "%d strings of %d bytes are counted instead of %zu of %zu", s->count, s->bytes, w.size(), bytes); xfree(s); mem_destroy_strings(m); }
    }
  }
};
SCENARIO("C22", "memory-large", 1, LargeMem);
struct LargeSrc : Large {
  void work() override {
    sample_op("src-large"); struct T { src_Type t; Str f; int l, o, n; size_t line; }; std::vector<T> v; std::vector<Str> lines; Str file; int line = 0, off = 0; size_t step = 1 + n / 3000;
    src_new_file("first.c"); file = "first.c";
    for (size_t j = 0; j < n; j++) {
      Str s = fmt("line %zu\n", j); if (r(3000) == 0) { s.insert(0, Str(r(70000), 'w')); for (size_t k = r(3000); k < s.size() - 1; k += 1 + r(5000)) s[k] = '\t'; } { Buf b(s, false); src_line(b.p, s.size()); } for (char &c : s) if (c == '\t') c = ' '; lines.push_back(s); line++; off = 0;
      if (j % step == 0) for (int k = r(3); k >= 0; k--) { int len = r(500) ? r(9) : r(100000); v.push_back({src_get(len), file, line, off, len, j}); off += len; }
      if (r(500) == 0) { file = fmt("%s%u.c", r(2) ? "f" : Str(r(3000), 'd').c_str(), r(999)); Buf b(file, true); src_new_file(b.p); }
      if (r(500) == 0) { static const int ls[] = {1, 32767, 65535, 65536, 1 << 24, 2000000000}; line = ls[r(6)]; src_new_line(line); }
    }
    for (auto &t : v) { const char *f = src_filename(t.t), *x = src_source_line(t.t); CHECK("C23", "src-large", f && t.f == f && src_linenumber(t.t) == t.l && src_offset(t.t) == t.o && src_length(t.t) == t.n && x && lines[t.line] == x, "a token of line %d (%zu) offset %d length %d is reported as line %d offset %d length %d", t.l, t.line, t.o, t.n, src_linenumber(t.t), src_offset(t.t), src_length(t.t)); }
    src_destroy(); str_destroy();
  }
};
SCENARIO("C23", "source-large", 1, LargeSrc);
}
