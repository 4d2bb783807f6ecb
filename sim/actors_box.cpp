// Hash tables, sets, lists, stacks, skip lists.
#include "actors.h"
#include "core.h"
namespace act {
// ================================================================ hash tables
static unsigned long h_const(const void *) { return 7; }
static unsigned long h_mod3(const void *k) { return ((const IntKey *)k)->id % 3; }
static unsigned long h_high(const void *k) { return (unsigned long)((const IntKey *)k)->id << 40 | 5; }
static unsigned long h_id(const void *k) { return ((const IntKey *)k)->id; }
static unsigned long h_mul(const void *k) { return ((const IntKey *)k)->id * 2654435789ul; }
static unsigned long h_c40(const void *k) { return ((const IntKey *)k)->id % 40 * 1000003ul; }
static int c_int(const void *a, const void *b) { int x = ((const IntKey *)a)->id, y = ((const IntKey *)b)->id; return x < y ? -1 : x > y; }
static int c_other(const void *a, const void *b) { return a < b ? -1 : a > b; }
static int c_c40(const void *a, const void *b) { return ((const IntKey *)a)->id % 40 - ((const IntKey *)b)->id % 40; }
typedef unsigned long (*HashF)(const void *); typedef int (*CmpF)(const void *, const void *);
struct KeyKind { HashF h; CmpF c; };
static const KeyKind kinds[] = {{nullptr, nullptr}, {h_const, c_int}, {h_mod3, c_int}, {h_high, c_int}, {hsh_pointer_hash, hsh_pointer_compare}, {h_mul, c_int}, {h_c40, c_c40}, {h_id, c_int}, {hsh_string_hash, hsh_string_compare}};
static const int NKIND = 9;
static int norm(int kind, int id) { return kind == 6 ? id % 40 : id; }
// copy 2 is one place that a caller uses for everything it looks up
static IntKey lookk; static char looks[20]; static int lookid;
static void *keyptr(int kind, int id, int copy) { if (copy == 2 && kind != 4) { lookid = id; if (kind == 0 || kind == 8) { memcpy(looks, sk[0][id], 20); return looks; } lookk.id = id; return &lookk; } if (kind == 0 || kind == 8) return sk[copy & 1][id]; if (kind == 4) return &ik[0][id]; return &ik[copy & 1][id]; }
static int keyid(int kind, const void *p) {
  if (p == looks || p == &lookk) return lookid;
  if (kind == 0 || kind == 8) { for (int c = 0; c < 2; c++) if ((char *)p >= sk[c][0] && (char *)p < sk[c][0] + sizeof sk[c]) { size_t d = (char *)p - sk[c][0]; return d % 20 ? -1 : (int)(d / 20); } return -1; }
  for (int c = 0; c < 2; c++) if ((IntKey *)p >= ik[c] && (IntKey *)p < ik[c] + NKEY) return (int)((IntKey *)p - ik[c]);
  return -1;
}

// what the numbers of chains and elements allow: all longer chains have at least two elements, the longest has max
static bool shape_ok(unsigned long entries, unsigned long used, unsigned long single, unsigned long max) {
  if (single > used || entries < used) return false;
  unsigned long more = used - single, rest = entries - single;
  if (!more) return rest == 0 && max == (used ? 1u : 0u);
  return max >= 2 && rest >= max + 2 * (more - 1) && rest <= max * more;
}
struct HashActor : Actor {
  void handles(std::vector<std::pair<char, void *>> &o) override { o.push_back({'h', t}); }
  struct Ent { const void *key, *datum; bool operator==(const Ent &o) const { return key == o.key && datum == o.datum; } };
  typedef std::map<int, Ent> M;
  hsh_HashTable t; int kk; int uni; M cur, nxt; bool ro = false; unsigned long rets = 0, miss = 0, sure = 0; int nd = 0;
  HashActor() {
    kind = "hash"; kk = rn(NKIND); static const int us[] = {6, 20, 60, 200, NKEY}; uni = us[rn(opt.small ? 3 : 5)];
    t = hsh_create(kinds[kk].h, kinds[kk].c);
    CHECK("C17", "hash-create", t, "hsh_create returned NULL");
  }
  int anykey() { return rn(uni); }
  const void *anydatum() { return rch(1, 12) ? nullptr : &blob[1 + (nd++ % 4000)]; }
  const void *get(const void *k) { rets++; auto it = cur.find(norm(kk, keyid(kk, k))); if (it == cur.end()) miss++; else if (cur.size() == 1) sure++; return hsh_retrieve(t, k); }
  void lookup(const char *where) {
    int id = anykey(); auto it = cur.find(norm(kk, id));
    const void *exp = it == cur.end() ? nullptr : it->second.datum;
    const void *d = get(keyptr(kk, id, rn(3)));
    note("hash lookup %d -> %d", id, d ? (int)((char *)d - blob) : -1);
    CHECK("C17", "hash-lookup", d == exp, "%s: lookup of key %d gave %s, expected %s", where, id, d ? "a datum" : "NULL", exp ? "its datum" : "NULL");
  }
  // ---- traversals
  struct It { HashActor *a; std::set<int> seen; M at; int mode; int stop = -1; int nested = 0; bool done_bad = false; size_t n = 0; };
  static It *git;
  static int visit(It *it, const void *key, const void *datum) {
    AppScope app;
    HashActor *a = it->a; int id = keyid(a->kk, key); int nm = norm(a->kk, id);
    it->n++;
    auto f = it->at.find(nm);
    CHECK("C17", "hash-visit", id >= 0 && f != it->at.end() && f->second == (Ent{key, datum}), "traversal visits a pair (key %d) that is not in the table", id);
    CHECK("C17", "hash-visit-twice", it->seen.insert(nm).second, "traversal visits key %d twice", id);
    if ((int)it->n == it->stop) return stopval();
    if (it->n > 5000) return 1;
    if (it->mode & 1) for (int i = rn(3); i >= 0; i--) a->lookup("inside a traversal");
    if (rch(1, 12) && !a->trav) { bool was = a->ro; int o1 = hsh_readonly(a->t, !was); if (!was && opt.fatal && rch(1, 4)) { bool ok = dies([&] { hsh_insert(a->t, keyptr(a->kk, a->anykey(), 0), &blob[5]); }, 3); CHECK("C17", "hash-readonly", ok, "insertion into a table made read-only inside a traversal was accepted"); } int o2 = hsh_readonly(a->t, was); CHECK("C17", "hash-readonly-flag", !!o1 == was && !!o2 == !was, "hsh_readonly inside a traversal returned %d and %d for a table that was %d", o1, o2, was); }
    if (it->mode & 8) { const void *d = a->get(key); CHECK("C17", "hash-lookup", d == datum, "lookup of the current key inside a traversal"); }
    if ((it->mode & 2) && rch(1, 2) && !a->ro) {
      int r = hsh_delete(a->t, keyptr(a->kk, id, rn(3)));
      CHECK("C17", "hash-delete", r == 0, "deleting the current pair inside a traversal returned %d", r);
      a->cur.erase(nm);
    }
    if ((it->mode & 4) && rch(1, 4) && it->nested < 2) { // a complete traversal inside
      it->nested++;
      It in{a, {}, a->cur, it->mode & 1};
      int r = hsh_iterate_arg(a->t, cb_arg, &in);
      CHECK("C17", "hash-nested", r == 0 && in.seen.size() == in.at.size(), "inner traversal saw %zu of %zu pairs", in.seen.size(), in.at.size());
      if (!a->trav && !a->ro && rn(2)) { // element by element; afterwards the table can be modified as before
        It in2{a, {}, a->cur, it->mode & 1}; int stop = rn(2) && a->cur.size() ? (int)rr(1, a->cur.size()) : -1; bool broke = false; hsh_Position p; a->trav++;
        for (HSH_POSITION_INIT(p, a->t); HSH_POSITION_OK(p); HSH_POSITION_NEXT(p, a->t)) { void *k; void *d = hsh_get_position(p, &k); AppScope app2; visit(&in2, k, d); if ((int)in2.n == stop) { broke = true; break; } if (in2.n > 5000) break; }
        a->trav--;
        if (!broke) CHECK("C17", "hash-nested", in2.seen.size() == in2.at.size(), "positional traversal inside a traversal saw %zu of %zu pairs", in2.seen.size(), in2.at.size());
        if (broke || a->cur.empty()) HSH_ITERATE_END(a->t);
        if (rn(2)) { int o = hsh_readonly(a->t, 0); CHECK("C17", "hash-left-locked", !o, "after a positional traversal inside a traversal the read-only flag is %d", o); }
      }
    }
    aside(a);
    return 0;
  }
  static int cb(const void *k, const void *d) { return visit(git, k, d); }
  static int cb_arg(const void *k, const void *d, void *arg) { return visit((It *)arg, k, d); }
  void traverse(int mode) {
    It it{this, {}, cur, mode};
    if (rch(1, 4) && cur.size()) it.stop = rr(1, cur.size());
    int r;
    if (rn(2)) r = hsh_iterate_arg(t, cb_arg, &it); else { Keep<It *> g(git, &it); r = hsh_iterate(t, cb); }
    note("hash iterate mode %d -> %d", mode, !!r);
    if (it.stop > 0) CHECK("C17", "hash-stop", r != 0 && (int)it.n == it.stop, "traversal asked to stop at %d ended after %zu with %d", it.stop, it.n, r);
    else CHECK("C17", "hash-visit-missed", r == 0 && it.seen.size() == it.at.size(), "traversal visited %zu of %zu pairs and returned %d", it.seen.size(), it.at.size(), r);
  }
  int trav = 0;
  void positions(int mode, bool early) {
    trav++;
    It it{this, {}, cur, mode};
    hsh_Position p; int stop = early && cur.size() ? (int)rr(1, cur.size()) : -1; bool broke = false;
    for (HSH_POSITION_INIT(p, t); HSH_POSITION_OK(p); HSH_POSITION_NEXT(p, t)) {
      void *k; void *d; d = hsh_get_position(p, &k);
      it.mode = mode & 9;
      { AppScope app; int id = keyid(kk, k); auto f = it.at.find(norm(kk, id)); it.n++;
        CHECK("C17", "hash-visit", id >= 0 && f != it.at.end() && f->second == (Ent{k, d}), "positional traversal visits a pair (key %d) that is not in the table", id);
        CHECK("C17", "hash-visit-twice", it.seen.insert(norm(kk, id)).second, "positional traversal visits key %d twice", id); }
      if (mode & 1) for (int i = rn(3); i >= 0; i--) lookup("inside a positional traversal");
      if (opt.fatal && (mode & 16) && rch(1, 3)) reject("during a positional traversal");
      if ((mode & 4) && rch(1, 4)) { It in{this, {}, cur, 1}; int r = hsh_iterate_arg(t, cb_arg, &in); CHECK("C17", "hash-nested", r == 0 && in.seen.size() == cur.size(), "traversal inside a positional traversal saw %zu of %zu", in.seen.size(), cur.size()); }
      aside(this);
      if ((int)it.n == stop) { broke = true; break; }
      if (it.n > 5000) break;
    }
    if (!broke) CHECK("C17", "hash-visit-missed", it.seen.size() == cur.size(), "positional traversal visited %zu of %zu pairs", it.seen.size(), cur.size());
    if (broke || rn(2) || (cur.empty() && ro)) HSH_ITERATE_END(t); // a complete traversal leaves the table modifiable
    ro = false; trav = 0;
    note("hash positions %zu", it.n);
  }
  void reject(const char *why) {
    int id = anykey(); bool ok;
    switch (rn(4)) {
      case 3: ok = dies([&] { hsh_destroy(t); }, 3); CHECK("C17", "hash-readonly", ok, "destruction %s was accepted", why); break;
      case 0: ok = dies([&] { hsh_insert(t, keyptr(kk, id, 0), &blob[5]); }, 3); CHECK("C17", "hash-readonly", ok, "insertion %s was accepted", why); break;
      case 1: ok = dies([&] { hsh_delete(t, keyptr(kk, id, 0)); }, 3); CHECK("C17", "hash-readonly", ok, "deletion %s was accepted", why); break;
      default: if (!cur.empty()) { int k2 = keyid(kk, cur.begin()->second.key); ok = dies([&] { hsh_delete(t, keyptr(kk, k2, 0)); }, 3); CHECK("C17", "hash-readonly", ok, "deletion %s was accepted", why); }
    }
    It in{this, {}, cur, 0}; int r = hsh_iterate_arg(t, cb_arg, &in);
    CHECK("C17", "hash-readonly-changed", r == 0 && in.seen.size() == cur.size(), "a rejected modification %s changed the table", why);
  }
  void op() override {
    if (ro && rch(1, 4)) { int old = hsh_readonly(t, 0); CHECK("C17", "hash-readonly-flag", old != 0, "hsh_readonly returned %d instead of the previous flag", old); ro = false; }
    switch (rn(12)) {
      case 0: case 1: case 2: case 3: { // insert, sometimes in a burst so that the table grows
        int n = rch(1, 6) ? (opt.small ? 6 : 24) : 1;
        for (int i = 0; i < n; i++) {
          int id = anykey(); const void *k = keyptr(kk, id, rn(2)), *d = anydatum(); bool dup = cur.count(norm(kk, id));
          if (ro) { if (opt.fatal) reject("into a read-only table"); break; }
          nxt = cur; if (!dup) nxt[norm(kk, id)] = {k, d};
          pend = true; int r = hsh_insert(t, k, d); cur.swap(nxt); pend = false;
          sample_op("hash-insert"); note("hash insert %d -> %d", id, r);
          CHECK("C17", "hash-insert", r == (dup ? 1 : 0), "inserting key %d (%s) returned %d", id, dup ? "present" : "absent", r);
        }
        break; }
      case 4: case 5: {
        int id = anykey(); if (rch(1, 2) && cur.size()) { auto it = cur.begin(); std::advance(it, rn(cur.size())); id = keyid(kk, it->second.key); }
        if (ro) { if (opt.fatal) reject("from a read-only table"); break; }
        bool has = cur.count(norm(kk, id));
        nxt = cur; nxt.erase(norm(kk, id)); pend = true; int r = hsh_delete(t, keyptr(kk, id, rn(3))); cur.swap(nxt); pend = false;
        sample_op("hash-delete"); note("hash delete %d -> %d", id, r);
        CHECK("C17", "hash-delete", r == (has ? 0 : 1), "deleting key %d (%s) returned %d", id, has ? "present" : "absent", r);
        break; }
      case 6: case 7: for (int i = rn(6); i >= 0; i--) lookup("lookup"); sample_op("hash-lookup"); break;
      case 8: { static const int ms[] = {0, 1, 2, 3, 4, 9, 11, 7}; traverse(ms[rn(8)]); sample_op("hash-iterate"); break; }
      case 9: { static const int ms[] = {0, 1, 4, 16, 9, 21}; positions(ms[rn(6)], rn(2)); sample_op("hash-position"); break; }
      case 10: {
        hsh_Stats s = hsh_get_stats(t);
        note("hash stats %lu", s->entries); sample_op("hash-stats");
        CHECK("C17", "hash-stats", s->entries == cur.size(), "statistics report %lu entries instead of %zu", s->entries, cur.size());
        CHECK("C17", "hash-stats", s->retrievals == rets && s->misses == miss && s->hits <= rets - miss, "statistics report %lu retrievals, %lu hits, %lu misses; there were %lu retrievals and %lu misses", s->retrievals, s->hits, s->misses, rets, miss);
        CHECK("C17", "hash-stats", s->buckets_used <= s->entries && s->singletons <= s->buckets_used && s->maximum_length <= s->entries && (s->buckets_used == 0) == (s->entries == 0) && s->buckets_used <= s->size && (s->entries == 0 || s->maximum_length * s->buckets_used >= s->entries), "statistics are inconsistent: entries %lu used %lu singletons %lu max %lu", s->entries, s->buckets_used, s->singletons, s->maximum_length);
        CHECK("C17", "hash-stats", shape_ok(s->entries, s->buckets_used, s->singletons, s->maximum_length) && s->hits >= sure, "statistics are inconsistent: entries %lu used %lu singletons %lu max %lu hits %lu (at least %lu)", s->entries, s->buckets_used, s->singletons, s->maximum_length, s->hits, sure);
        CHECK("C17", "hash-crowded", s->entries <= s->size + 4, "%lu pairs are kept in %lu places", s->entries, s->size);
        if (rch(1, 4)) { Str g = printed([&] { hsh_print_stats(t, rn(2) ? nullptr : sim_stdout); }); CHECK("C17", "hash-print", finite_text(g) && numbers_in_order(g, {s->entries, s->buckets_used, s->singletons, s->maximum_length, s->retrievals, s->hits, s->misses}), "the printed statistics read %s", quote(g, 300).c_str()); }
        xfree(s);
        if ((kk == 0 || kk == 8) && rch(1, 4)) { // the keys as text
          Str g = printed([&] { hsh_key_strings(t); }); std::multiset<Str> got, exp; Str w; for (char c : g + " ") if (c == ' ' || c == '\n') { if (!w.empty()) got.insert(w); w.clear(); } else w += c;
          for (auto &e : cur) { Str k; for (char c : Str((const char *)e.second.key) + " ") if (c == ' ' || c == '\n') { if (!k.empty()) exp.insert(k); k.clear(); } else k += c; }
          CHECK("C17", "hash-key-strings", got == exp, "%zu keys are printed as %s", exp.size(), quote(g, 300).c_str());
        }
        break; }
      case 11:
        if (!ro && rch(1, 2)) { int old = hsh_readonly(t, 1); CHECK("C17", "hash-readonly-flag", old == 0, "hsh_readonly returned %d instead of the previous flag", old); ro = true; note("hash readonly"); }
        else if (ro && opt.fatal) reject("with the read-only flag set");
        break;
    }
  }
  bool matches(const M &m) {
    It it{this, {}, m, 0}; size_t n = 0; bool ok = true;
    struct X { const M *m; size_t *n; bool *ok; int kk; } x{&m, &n, &ok, kk};
    hsh_iterate_arg(t, [](const void *k, const void *d, void *a) { X *x = (X *)a; ++*x->n; int id = keyid(x->kk, k); auto f = x->m->find(norm(x->kk, id)); if (id < 0 || f == x->m->end() || !(f->second == Ent{k, d})) *x->ok = false; return *x->n > 5000 ? 1 : 0; }, &x);
    if (!ok || n != m.size()) return false;
    hsh_Stats s = hsh_get_stats(t); bool cnt = s->entries == n; xfree(s); if (!cnt) return false;
    for (auto &e : m) { const void *k = keyptr(kk, keyid(kk, e.second.key), 1); rets++; if (hsh_retrieve(t, k) != e.second.datum) return false; }
    return true;
  }
  void verify(const char *props, bool tolerant) override {
    bool ok = matches(cur) || (tolerant && pend && matches(nxt));
    CHECK(props, "hash-contents", ok, "the hash table does not hold the %zu pairs expected", cur.size());
  }
  void unlock() override { if (ro || trav) hsh_readonly(t, 0); ro = false; trav = 0; }
  void destroy() override { if (ro) unlock(); pend_destroy = true; hsh_destroy(t); dead = true; }
};
HashActor::It *HashActor::git;
ActorP mk_hash() { return ActorP(new HashActor); }

// ================================================================ sets
struct SetsActor : Actor { // a few sets sharing one pair of functions
  void handles(std::vector<std::pair<char, void *>> &o) override { for (auto &x : v) o.push_back({'s', x.s}); }
  typedef std::map<int, const void *> M;
  struct S { set_Set s; M cur, nxt; bool ro = false; bool bulk = false; unsigned long rets = 0, miss = 0; bool mixed = false; int trav = 0; };
  std::vector<S> v; int kk; int uni; int busy = -1;
  SetsActor() {
    kind = "sets"; kk = rn(NKIND); static const int us[] = {6, 20, 60, 200, NKEY}; uni = us[rn(opt.small ? 3 : 5)];
    int n = rr(2, 3); v.reserve(8);
    for (int i = 0; i < n; i++) { set_Set s = set_create(kinds[kk].h, kinds[kk].c); v.emplace_back(); v.back().s = s; }
  }
  int anykey() { return rn(uni); }
  void lookup(S &s, const char *where) {
    int id = anykey(); if (rch(1, 2) && s.cur.size()) { auto it = s.cur.begin(); std::advance(it, rn(s.cur.size())); id = keyid(kk, it->second); }
    s.rets++; int r = set_member(s.s, keyptr(kk, id, rn(3))); if (!r) s.miss++;
    note("set member %d -> %d", id, r);
    CHECK("C18", "set-member", !!r == (s.cur.count(norm(kk, id)) > 0), "%s: membership of %d reported as %d", where, id, r);
  }
  struct It { SetsActor *a; S *s; std::set<int> seen; int mode; int stop = -1; size_t n = 0; int nested = 0; };
  static It *git;
  static int visit(It *it, const void *e) {
    AppScope app;
    SetsActor *a = it->a; int id = keyid(a->kk, e), nm = norm(a->kk, id); auto f = it->s->cur.find(nm); it->n++;
    CHECK("C18", "set-visit", id >= 0 && f != it->s->cur.end() && f->second == e, "traversal visits an element (%d) that is not in the set", id);
    CHECK("C18", "set-visit-twice", it->seen.insert(nm).second, "traversal visits element %d twice", id);
    if (rn(2)) aside(a);
    if ((int)it->n == it->stop) return stopval();
    if (it->n > 5000) return 1;
    if (it->mode & 1) for (int i = rn(3); i >= 0; i--) a->lookup(*it->s, "inside a traversal");
    if ((it->mode & 2) && opt.fatal && rch(1, 3)) a->reject(*it->s, "during a traversal");
    if ((it->mode & 4) && rch(1, 4) && it->nested < 2) { it->nested++; It in{a, it->s, {}, it->mode & 1}; int r = set_iterate_arg(it->s->s, cb_arg, &in); CHECK("C18", "set-nested", r == 0 && in.seen.size() == it->s->cur.size(), "inner traversal saw %zu of %zu elements", in.seen.size(), it->s->cur.size()); }
    if ((it->mode & 8) && rch(1, 4) && it->nested < 2) { // element by element, inside
      it->nested++; It in{a, it->s, {}, 0}; int stop = rn(2) ? (int)rr(1, it->s->cur.size()) : -1; bool broke = false; set_Position p; void *x;
      SET_ITERATE(it->s->s, p, x) { visit(&in, x); if ((int)in.n == stop) { broke = true; break; } if (in.n > 5000) break; }
      if (!broke) CHECK("C18", "set-nested", in.seen.size() == it->s->cur.size(), "positional traversal inside a traversal saw %zu of %zu elements", in.seen.size(), it->s->cur.size());
      if (broke) SET_ITERATE_END(it->s->s);
    }
    return 0;
  }
  static int cb(const void *e) { return visit(git, e); }
  static int cb_arg(const void *e, void *arg) { return visit((It *)arg, e); }
  void reject(S &s, const char *why) {
    bool ok; int id = anykey();
    if (rch(1, 5)) ok = dies([&] { set_destroy(s.s); }, 3);
    else if (rn(2)) ok = dies([&] { set_insert(s.s, keyptr(kk, id, 0)); }, 3);
    else { if (s.cur.size() && rn(2)) id = keyid(kk, s.cur.begin()->second); ok = dies([&] { set_delete(s.s, keyptr(kk, id, 0)); }, 3); }
    CHECK("C18", "set-readonly", ok, "a modification %s was accepted", why);
    CHECK("C18", "set-readonly-changed", set_count(s.s) == (int)s.cur.size(), "a rejected modification %s changed the set", why);
  }
  bool functions_ok(set_Set s) { if (set_get_hash(s) != (kinds[kk].h ? kinds[kk].h : hsh_string_hash) || set_get_compare(s) != (kinds[kk].c ? kinds[kk].c : hsh_string_compare)) return false; return set_get_hash(s) == set_get_hash(v[0].s) && set_get_compare(s) == set_get_compare(v[0].s); }
  void check_locks(const char *what) { // operands must not be left locked
    for (auto &s : v) if (s.s) { int old = set_readonly(s.s, s.ro); CHECK("C18", "set-left-locked", !!old == s.ro, "after %s a set's read-only flag is %d instead of %d", what, old, s.ro); }
  }
  void op() override {
    S &s = v[rn(v.size())];
    if (s.ro && rch(1, 3)) { int old = set_readonly(s.s, 0); CHECK("C18", "set-readonly-flag", old != 0, "set_readonly returned %d instead of the previous flag", old); s.ro = false; }
    switch (rn(13)) {
      case 0: case 1: case 2: {
        int n = rch(1, 5) ? (opt.small ? 6 : 24) : 1;
        for (int i = 0; i < n; i++) {
          int id = anykey(); const void *k = keyptr(kk, id, rn(2));
          if (s.ro) { if (opt.fatal) reject(s, "of a read-only set"); break; }
          bool dup = s.cur.count(norm(kk, id)); s.nxt = s.cur; s.nxt.insert({norm(kk, id), k}); busy = &s - &v[0];
          pend = true; int r = set_insert(s.s, k); s.cur.swap(s.nxt); pend = false;
          sample_op("set-insert"); note("set insert %d -> %d", id, r);
          CHECK("C18", "set-insert", r == (dup ? 1 : 0), "adding element %d (%s) returned %d", id, dup ? "present" : "absent", r);
        }
        break; }
      case 3: {
        int id = anykey(); if (s.ro) { if (opt.fatal) reject(s, "of a read-only set"); break; }
        if (rch(1, 2) && s.cur.size()) { auto it = s.cur.begin(); std::advance(it, rn(s.cur.size())); id = keyid(kk, it->second); }
        bool has = s.cur.count(norm(kk, id)); s.nxt = s.cur; s.nxt.erase(norm(kk, id)); busy = &s - &v[0];
        pend = true; int r = set_delete(s.s, keyptr(kk, id, rn(3))); s.cur.swap(s.nxt); pend = false;
        sample_op("set-delete"); note("set delete %d -> %d", id, r);
        CHECK("C18", "set-delete", r == (has ? 0 : 1), "deleting element %d (%s) returned %d", id, has ? "present" : "absent", r);
        break; }
      case 4: for (int i = rn(6); i >= 0; i--) lookup(s, "membership"); break;
      case 5: {
        static const int ms[] = {0, 1, 2, 4, 5, 7, 9, 13}; It it{this, &s, {}, ms[rn(8)]}; if (rch(1, 4) && s.cur.size()) it.stop = rr(1, s.cur.size());
        Keep<int> tr(s.trav, s.trav + 1); int r; if (rn(2)) r = set_iterate_arg(s.s, cb_arg, &it); else { Keep<It *> g(git, &it); r = set_iterate(s.s, cb); }
        sample_op("set-iterate"); note("set iterate -> %d", !!r);
        if (it.stop > 0) CHECK("C18", "set-stop", r != 0 && (int)it.n == it.stop, "traversal asked to stop at %d ended after %zu with %d", it.stop, it.n, r);
        else CHECK("C18", "set-visit-missed", r == 0 && it.seen.size() == s.cur.size(), "traversal visited %zu of %zu elements", it.seen.size(), s.cur.size());
        check_locks("a traversal");
        break; }
      case 6: {
        It it{this, &s, {}, 0}; int stop = rn(2) && s.cur.size() ? (int)rr(1, s.cur.size()) : -1; bool broke = false; bool lk = rn(2); Keep<int> tr(s.trav, s.trav + 1);
        set_Position p; void *e;
        SET_ITERATE(s.s, p, e) { visit(&it, e); if (lk) lookup(s, "inside a positional traversal"); if (opt.fatal && rch(1, 8)) reject(s, "during a positional traversal"); if ((int)it.n == stop) { broke = true; break; } if (it.n > 5000) break; }
        if (!broke) CHECK("C18", "set-visit-missed", it.seen.size() == s.cur.size(), "positional traversal visited %zu of %zu elements", it.seen.size(), s.cur.size());
        if (broke || rn(2)) SET_ITERATE_END(s.s); else if (s.cur.empty() && s.ro) SET_ITERATE_END(s.s);
        s.ro = false; sample_op("set-position"); check_locks("a positional traversal");
        break; }
      case 7: {
        set_Stats st = set_get_stats(s.s); note("set stats %lu", st->entries);
        CHECK("C18", "set-stats", st->entries == s.cur.size() && set_count(s.s) == (int)s.cur.size(), "statistics report %lu elements and the count is %d instead of %zu", st->entries, set_count(s.s), s.cur.size());
        CHECK("C18", "set-stats", s.mixed || (st->retrievals == s.rets && st->misses == s.miss), "statistics report %lu retrievals and %lu misses; there were %lu and %lu", st->retrievals, st->misses, s.rets, s.miss);
        CHECK("C18", "set-stats", st->hits + st->misses <= st->retrievals && st->retrievals >= s.rets && st->singletons <= st->buckets_used && st->buckets_used <= st->entries && st->maximum_length <= st->entries, "statistics are inconsistent");
        CHECK("C18", "set-stats", shape_ok(st->entries, st->buckets_used, st->singletons, st->maximum_length), "statistics are inconsistent: entries %lu used %lu singletons %lu max %lu", st->entries, st->buckets_used, st->singletons, st->maximum_length);
        CHECK("C18", "set-crowded", st->entries <= st->size + 4, "%lu elements are kept in %lu places", st->entries, st->size);
        if (rch(1, 4)) { Str g = printed([&] { set_print_stats(s.s, rn(2) ? nullptr : sim_stdout); }); CHECK("C18", "set-print", finite_text(g) && numbers_in_order(g, {st->entries, st->buckets_used, st->singletons, st->maximum_length, st->retrievals, st->hits, st->misses}), "the printed statistics read %s", quote(g, 300).c_str()); }
        xfree(st);
        break; }
      case 8: if (!s.ro && rch(1, 2)) { int old = set_readonly(s.s, 1); CHECK("C18", "set-readonly-flag", old == 0, "set_readonly returned %d", old); s.ro = true; } else if (s.ro && opt.fatal) reject(s, "of a read-only set"); break;
      default: algebra(s); break;
    }
  }
  void algebra(S &a) {
    S &b = v[rn(v.size())]; M r, ca = a.cur, cb_ = b.cur; int w = rn(6); a.mixed = b.mixed = true; // the operation may look up elements itself
    static const char *names[] = {"union", "intersection", "difference", "in-place addition", "in-place deletion", "equality"};
    sample_op(w < 3 ? "set-new" : w < 5 ? "set-inplace" : "set-equal");
    if (opt.fatal && rch(1, 20)) { // different functions are refused
      bool cmponly = rn(2); set_Set o = cmponly ? set_create(set_get_hash(a.s), c_other) : set_create(kk == 1 ? h_id : h_const, set_get_compare(a.s)); bool ok = dies([&] { switch (w) { case 0: set_union(a.s, o); break; case 1: set_inter(o, a.s); break; case 2: set_diff(a.s, o); break; case 3: set_add(a.s, o); break; case 4: set_del(a.s, o); break; default: set_equal(a.s, o); } }, 3);
      CHECK("C18", "set-functions", ok, "%s of sets with different functions was accepted", names[w]); set_destroy(o); return;
    }
    switch (w) {
      case 0: r = ca; r.insert(cb_.begin(), cb_.end()); break;
      case 1: for (auto &x : ca) if (cb_.count(x.first)) r.insert(x); break;
      case 2: for (auto &x : ca) if (!cb_.count(x.first)) r.insert(x); break;
      case 3: r = ca; r.insert(cb_.begin(), cb_.end()); break;
      case 4: for (auto &x : ca) if (!cb_.count(x.first)) r.insert(x); break;
    }
    if (w < 3) {
      set_Set n = w == 0 ? set_union(a.s, b.s) : w == 1 ? set_inter(a.s, b.s) : set_diff(a.s, b.s);
      if (w < 2) { // of two equal elements, either may be in the result
        struct X { M *r; const M *b; int kk; } x{&r, &cb_, kk};
        set_iterate_arg(n, [](const void *e, void *a) { X *x = (X *)a; int id = keyid(x->kk, e); if (id < 0) return 0; int nm = norm(x->kk, id); auto f = x->r->find(nm); auto g = x->b->find(nm); if (f != x->r->end() && g != x->b->end() && g->second == e) f->second = e; return 0; }, &x);
      }
      S t; t.s = n; t.cur = r;
      check_locks(names[w]);
      CHECK("C18", "set-algebra", matches(n, r), "%s of sets with %zu and %zu elements is wrong (%d elements, %zu expected)", names[w], ca.size(), cb_.size(), set_count(n), r.size());
      CHECK("C18", "set-operand-changed", matches(a.s, ca) && matches(b.s, cb_), "%s changed an operand", names[w]);
      CHECK("C18", "set-functions", functions_ok(n), "the result has other functions than its operands");
      note("set %s -> %d", names[w], set_count(n));
      if (rch(1, 3) && !opt.small) { int i = rn(v.size()); if (!v[i].ro) { std::swap(v[i].s, t.s); std::swap(v[i].cur, t.cur); v[i].rets = 0; v[i].mixed = true; } }
      set_destroy(t.s);
    } else if (w < 5) {
      if (a.ro) { // may be refused, must not change
        if (!opt.fatal) return;
        bool changes = r != ca; bool died = dies([&] { if (w == 3) set_add(a.s, b.s); else set_del(a.s, b.s); }, 3);
        CHECK("C18", "set-readonly", died || !changes, "%s to a read-only set was accepted", names[w]);
        CHECK("C18", "set-readonly-changed", matches(a.s, ca), "%s to a read-only set changed it", names[w]);
        return;
      }
      a.nxt = r; a.bulk = true; busy = &a - &v[0]; pend = true;
      set_Set n = w == 3 ? set_add(a.s, b.s) : set_del(a.s, b.s);
      bool self = &a == &b; M exp = r; a.cur.swap(a.nxt); pend = false; a.bulk = false;
      CHECK("C18", "set-result", n == a.s, "%s did not return its first operand", names[w]);
      check_locks(names[w]);
      CHECK("C18", "set-algebra", matches(a.s, exp), "%s%s of sets with %zu and %zu elements is wrong", names[w], self ? " with itself" : "", ca.size(), cb_.size());
      if (!self) CHECK("C18", "set-operand-changed", matches(b.s, cb_), "%s changed its second operand", names[w]);
      note("set %s -> %d", names[w], set_count(a.s));
    } else {
      bool same = ca.size() == cb_.size(); for (auto &x : ca) if (!cb_.count(x.first)) same = false;
      int e = set_equal(a.s, b.s); note("set equal -> %d", !!e);
      CHECK("C18", "set-equal", !!e == same, "equality reported as %d", e);
      check_locks(names[w]);
      CHECK("C18", "set-operand-changed", matches(a.s, ca) && matches(b.s, cb_), "equality test changed an operand");
    }
  }
  bool matches(set_Set s, const M &m) {
    struct X { const M *m; size_t n; bool ok; int kk; } x{&m, 0, true, kk};
    set_iterate_arg(s, [](const void *e, void *a) { X *x = (X *)a; x->n++; int id = keyid(x->kk, e); auto f = x->m->find(norm(x->kk, id)); if (id < 0 || f == x->m->end() || f->second != e) x->ok = false; return x->n > 5000 ? 1 : 0; }, &x);
    if (!x.ok || x.n != m.size() || set_count(s) != (int)m.size()) return false;
    for (auto &e : m) if (!set_member(s, keyptr(kk, keyid(kk, e.second), 1))) return false;
    return true;
  }
  bool between(set_Set s, const M &lo, const M &hi) { // lo subset of s subset of hi
    struct X { const M *hi; std::set<int> got; bool ok; int kk; } x{&hi, {}, true, kk};
    set_iterate_arg(s, [](const void *e, void *a) { X *x = (X *)a; int n = norm(x->kk, keyid(x->kk, e)); if (!x->hi->count(n) || !x->got.insert(n).second) x->ok = false; return 0; }, &x);
    for (auto &e : lo) if (!x.got.count(e.first)) return false;
    return x.ok && set_count(s) == (int)x.got.size();
  }
  void verify(const char *props, bool tolerant) override {
    for (size_t i = 0; i < v.size(); i++) {
      bool p = tolerant && pend && (int)i == busy; v[i].mixed = true;
      bool ok = matches(v[i].s, v[i].cur) || (p && matches(v[i].s, v[i].nxt)) || (p && v[i].bulk && (v[i].nxt.size() >= v[i].cur.size() ? between(v[i].s, v[i].cur, v[i].nxt) : between(v[i].s, v[i].nxt, v[i].cur)));
      CHECK(props, "set-contents", ok, "a set does not hold the %zu elements expected", v[i].cur.size());
    }
  }
  void unlock() override { for (auto &s : v) if (s.trav) { set_readonly(s.s, 0); s.ro = false; s.trav = 0; } }
  void destroy() override { pend_destroy = true; for (auto &s : v) { if (s.ro) { set_readonly(s.s, 0); s.ro = false; } } while (!v.empty()) { set_Set s = v.back().s; v.pop_back(); set_destroy(s); } dead = true; }
};
SetsActor::It *SetsActor::git;
ActorP mk_sets() { return ActorP(new SetsActor); }

// ================================================================ lists
struct ListActor : Actor {
  void handles(std::vector<std::pair<char, void *>> &o) override { o.push_back({'l', l}); }
  struct N { const void *d; lst_Position pos; };
  typedef std::vector<N> M;
  lst_List l; M cur, nxt; int uni;
  ListActor() { kind = "list"; uni = rr(2, 40); l = lst_create(); CHECK("C20", "list-create", l && lst_length(l) == 0, "a new list is not empty"); }
  const void *any() { int i = rn(uni + 1); return i ? &blob[i] : (rn(3) ? &blob[1] : nullptr); }
  void learn() { // positions of new elements
    if (!cur.empty() && !cur.back().pos) cur.back().pos = lst_last_position(l);
    if (!cur.empty() && !cur.front().pos) cur.front().pos = lst_init_position(l);
  }
  struct It { ListActor *a; std::vector<const void *> seen; int stop = -1; int grow = 0; size_t n = 0; };
  static It *git;
  static int visit(It *it, const void *d) {
    AppScope app; it->seen.push_back(d); it->n++;
    if (it->grow && it->n < 400) { it->grow--; const void *x = &blob[77]; if (rn(2)) { lst_append(it->a->l, x); it->a->cur.push_back({x, nullptr}); } else { lst_push(it->a->l, x); it->a->cur.insert(it->a->cur.begin(), {x, nullptr}); } it->a->learn(); }
    aside(it->a);
    if ((int)it->n == it->stop || it->n > 6000) return stopval();
    return 0;
  }
  static int cb(const void *d) { return visit(git, d); }
  static int cb_arg(const void *d, void *a) { return visit((It *)a, d); }
  void op() override {
    size_t n = cur.size();
    switch (rn(14)) {
      case 0: case 1: case 2: { int k = rch(1, 8) ? 10 : 1; while (k--) { const void *d = any(); nxt = cur; nxt.push_back({d, nullptr}); pend = true; lst_append(l, d); cur.swap(nxt); pend = false; learn(); } sample_op("list-append"); break; }
      case 3: case 4: { const void *d = any(); nxt = cur; nxt.insert(nxt.begin(), {d, nullptr}); pend = true; lst_push(l, d); cur.swap(nxt); pend = false; learn(); sample_op("list-push"); break; }
      case 5: case 6: { nxt = cur; const void *e = n ? cur[0].d : nullptr; if (n) nxt.erase(nxt.begin()); pend = true; void *d = lst_pop(l); cur.swap(nxt); pend = false; sample_op("list-pop"); note("list pop %d", d ? (int)((char *)d - blob) : -1); CHECK("C20", "list-pop", d == e, "pop from a list of %zu returned the wrong element", n); break; }
      case 7: {
        void *d = lst_top(l); CHECK("C20", "list-top", d == (n ? cur[0].d : nullptr), "top of a list of %zu is wrong", n);
        unsigned i = rn(n + 3); void *g = lst_nth_get(l, i); note("list nth %u -> %d", i, g ? (int)((char *)g - blob) : -1);
        CHECK("C20", "list-nth", g == (i >= 1 && i <= n ? cur[i - 1].d : nullptr), "element %u of %zu is wrong", i, n);
        lst_Position p = lst_nth_position(l, i); CHECK("C20", "list-nth", i >= 1 && i <= n ? p == cur[i - 1].pos : p == nullptr, "position of element %u of %zu is wrong", i, n);
        break; }
      case 8: {
        unsigned i = rn(n + 2);
        if (i < 1 || i > n) { if (opt.fatal) { bool ok = dies([&] { lst_nth_set(l, i, &blob[9]); }, 3); CHECK("C20", "list-set", ok, "setting element %u of %zu was accepted", i, n); } break; }
        const void *d = any(); nxt = cur; nxt[i - 1].d = d; pend = true; if (rn(2)) lst_nth_set(l, i, d); else lst_set_position(cur[i - 1].pos, d); cur.swap(nxt); pend = false; sample_op("list-set"); break; }
      case 9: {
        const void *d = any(); bool has = false; for (auto &x : cur) if (x.d == d) has = true;
        int r = lst_member(l, d); note("list member %d", !!r); CHECK("C20", "list-member", !!r == has, "membership reported as %d", r);
        CHECK("C20", "list-length", lst_length(l) == n, "length %u instead of %zu", lst_length(l), n); break; }
      case 10: {
        unsigned k = rn(n + 3); nxt = cur; if (k < n) nxt.resize(k); pend = true; lst_truncate(l, k); cur.swap(nxt); pend = false; sample_op("list-truncate"); note("list truncate %u", k);
        CHECK("C20", "list-truncate", lst_length(l) == cur.size(), "after truncation to %u the length is %u", k, lst_length(l)); break; }
      case 11: {
        unsigned k = rn(n + 1); lst_Position p = k ? cur[k - 1].pos : nullptr; nxt = cur; nxt.resize(k); pend = true; lst_truncate_position(l, p); cur.swap(nxt); pend = false; sample_op("list-truncate"); note("list cut %u", k);
        CHECK("C20", "list-truncate", lst_length(l) == k, "after truncation at element %u the length is %u", k, lst_length(l)); break; }
      case 12: {
        It it{this}; M at = cur; if (rch(1, 3) && n) it.stop = rr(1, n); if (rch(1, 4)) it.grow = rr(1, 3);
        int r; if (rn(2)) r = lst_iterate_arg(l, cb_arg, &it); else { Keep<It *> g(git, &it); r = lst_iterate(l, cb); }
        sample_op("list-iterate"); note("list iterate %zu %d", it.n, !!r);
        size_t want = it.stop > 0 ? it.stop : at.size(); bool ok = it.seen.size() >= want; for (size_t i = 0; ok && i < want; i++) ok = it.seen[i] == at[i].d;
        CHECK("C20", "list-iterate", ok, "traversal of %zu elements visited %zu or not in order", at.size(), it.seen.size());
        if (it.stop > 0) CHECK("C20", "list-stop", r != 0 && it.seen.size() == want, "traversal asked to stop at %d ended after %zu with %d", it.stop, it.seen.size(), r);
        else CHECK("C20", "list-iterate", r == 0 && it.seen.size() <= cur.size(), "traversal visited %zu elements of a list of %zu and returned %d", it.seen.size(), cur.size(), r);
        break; }
      case 13: {
        lst_Position p; void *e; size_t i = 0;
        LST_ITERATE(l, p, e) { CHECK("C20", "list-cursor", i < n && e == cur[i].d && p == cur[i].pos, "cursor at element %zu of %zu is wrong", i + 1, n); i++; }
        CHECK("C20", "list-cursor", i == n, "cursor saw %zu of %zu elements", i, n);
        CHECK("C20", "list-cursor", lst_last_position(l) == (n ? cur.back().pos : nullptr), "last position is wrong");
        if (rch(1, 6)) { Str g = printed([&] { lst_dump(l); }); size_t at = 0; bool ok = true; for (auto &x : cur) { Str h = x.d ? fmt("%p", x.d) : fmt("0x"); at = g.find(h, at); if (at == Str::npos) { ok = false; break; } at += h.size(); } CHECK("C20", "list-dump", ok, "the dump of %zu elements reads %s", n, quote(g, 200).c_str()); }
        break; }
    }
    // cursors to retained elements stay valid
    if (cur.size()) { size_t i = rn(cur.size()); CHECK("C20", "list-cursor-stale", lst_get_position(cur[i].pos) == cur[i].d, "the cursor of element %zu of %zu went stale", i + 1, cur.size()); CHECK("C20", "list-cursor-stale", lst_next_position(cur[i].pos) == (i + 1 < cur.size() ? cur[i + 1].pos : nullptr), "the cursor after element %zu of %zu went stale", i + 1, cur.size()); }
  }
  bool matches(const M &m) {
    if (lst_length(l) != m.size()) return false;
    size_t i = 0; lst_Position last = nullptr;
    for (lst_Position p = lst_init_position(l); p; p = lst_next_position(p)) { if (i >= m.size() || lst_get_position(p) != m[i].d) return false; i++; last = p; }
    if (i != m.size() || lst_last_position(l) != last) return false;
    for (size_t k = 0; k < m.size(); k++) if (lst_nth_get(l, k + 1) != m[k].d) return false;
    return true;
  }
  void verify(const char *props, bool tolerant) override {
    bool ok = matches(cur) || (tolerant && pend && matches(nxt));
    CHECK(props, "list-contents", ok, "the list (length %u) does not hold the %zu elements expected in order", lst_length(l), cur.size());
    if (tolerant) { // still usable: an element can be added and removed
      unsigned n = lst_length(l); lst_append(l, &blob[3]); CHECK(props, "list-usable", lst_length(l) == n + 1 && lst_nth_get(l, n + 1) == &blob[3], "appending in an exit handler does not work"); lst_truncate(l, n);
      CHECK(props, "list-usable", lst_length(l) == n, "truncating in an exit handler does not work");
    }
  }
  void destroy() override { pend_destroy = true; lst_destroy(l); dead = true; }
};
ListActor::It *ListActor::git;
ActorP mk_list() { return ActorP(new ListActor); }

// ================================================================ stacks
struct StackActor : Actor {
  void handles(std::vector<std::pair<char, void *>> &o) override { o.push_back({'-', s}); }
  stk_Stack s; std::vector<void *> cur, nxt;
  StackActor() { kind = "stack"; s = stk_create(); CHECK("C20", "stack-create", stk_isempty(s), "a new stack is not empty"); }
  void op() override {
    if (rn(5) < 3) { int k = rch(1, 6) ? 8 : 1; while (k--) { void *d = rch(1, 10) ? nullptr : &blob[rn(4000)]; nxt = cur; nxt.push_back(d); pend = true; stk_push(s, d); cur.swap(nxt); pend = false; } sample_op("stack-push"); }
    else { int k = rch(1, 8) ? 6 : 1; while (k--) { void *e = cur.empty() ? nullptr : cur.back(); nxt = cur; if (nxt.size()) nxt.pop_back(); pend = true; void *d = stk_pop(s); cur.swap(nxt); pend = false; note("stack pop %d", d ? (int)((char *)d - blob) : -1); CHECK("C20", "stack-pop", d == e, "pop from a stack of %zu returned the wrong element", cur.size() + (nxt.size() > cur.size())); } sample_op("stack-pop"); }
    void *t = stk_top(s); CHECK("C20", "stack-top", t == (cur.empty() ? nullptr : cur.back()), "top of a stack of %zu is wrong", cur.size());
    int e = stk_isempty(s); CHECK("C20", "stack-empty", !!e == cur.empty(), "emptiness reported as %d for %zu elements", e, cur.size());
  }
  void verify(const char *props, bool tolerant) override {
    // emptied and refilled: the only way to see the whole content
    std::vector<void *> got; while (!stk_isempty(s) && got.size() < 5000) got.push_back(stk_pop(s));
    std::reverse(got.begin(), got.end()); for (void *p : got) stk_push(s, p);
    CHECK(props, "stack-contents", got == cur || (tolerant && pend && got == nxt), "the stack does not hold the %zu elements expected", cur.size());
  }
  void destroy() override { pend_destroy = true; stk_destroy(s); dead = true; }
};
ActorP mk_stack() { return ActorP(new StackActor); }

// ================================================================ skip lists
struct SlActor : Actor {
  void handles(std::vector<std::pair<char, void *>> &o) override { o.push_back({'k', l}); }
  struct D { int key; int tag; };
  sl_List l; std::vector<D> data; std::set<int> cur, nxt; int uni;
  static int cmp(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1 : x > y; }
  static int cmpbig(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return (x > y) * 1000 - (x < y) * 77; }
  static const void *keyf(const void *d) { return &((const D *)d)->key; }
  static const char *pr(const void *d) { static char b[32]; snprintf(b, 32, "D%d", ((const D *)d)->key); return b; }
  SlActor() {
    kind = "skiplist"; static const int us[] = {3, 12, 50, 300}; uni = us[rn(opt.small ? 3 : 4)]; data.resize(uni * 2);
    for (int i = 0; i < uni; i++) { data[i] = {(i - uni / 2) * 3, i}; data[uni + i] = {(i - uni / 2) * 3, uni + i}; }
    l = sl_create(rn(2) ? cmp : cmpbig, keyf, rn(2) ? pr : nullptr);
  }
  std::map<int, const D *> who; // key index -> datum inserted
  D look; // one datum, used for everything that is looked up or deleted
  void find(int i) { look = data[i]; const D *d = (const D *)sl_find(l, rn(3) ? &data[i].key : &look.key); note("sl find %d -> %d", i, d ? d->key : -9999); CHECK("C21", "sl-find", d == (cur.count(i) ? who[i] : nullptr), "lookup of key %d (%s) gave %s", data[i].key, cur.count(i) ? "present" : "absent", d ? "another datum" : "nothing"); }
  void ins(int i) { const D *d = &data[rn(2) ? i : uni + i]; nxt = cur; nxt.insert(i); const D *old = who[i]; who[i] = d; (void)old; pend = true; sl_insert(l, d); cur.swap(nxt); pend = false; }
  void del(int i) { look = data[i]; int w = rn(3); const D *d = w == 2 ? &look : &data[w ? i : uni + i]; nxt = cur; nxt.erase(i); pend = true; sl_delete(l, d); cur.swap(nxt); pend = false; }
  struct It { SlActor *a; std::set<int> at; std::vector<int> seen; int mode; int stop = -1; size_t n = 0; std::set<int> touched; int ret = 0; };
  static It *git;
  static int visit(It *it, const void *p) {
    AppScope app; SlActor *a = it->a; const D *d = (const D *)p; it->n++;
    CHECK("C21", "sl-visit", d >= &a->data[0] && d < &a->data[0] + a->data.size(), "traversal passes something that is not a datum");
    int i = (int)(d - &a->data[0]) % a->uni;
    CHECK("C21", "sl-visit", it->at.count(i) || it->touched.count(i), "traversal visits key %d which was never there", d->key);
    CHECK("C21", "sl-order", it->seen.empty() || it->seen.back() < i, "traversal visits key %d out of order or twice", d->key);
    it->seen.push_back(i);
    if ((int)it->n == it->stop) return it->ret = stopval();
    if (it->mode == 1 && rch(1, 2) && a->cur.count(i)) { a->del(i); it->touched.insert(i); }
    else if (it->mode == 2 && rch(1, 2)) { int k = rn(a->uni); it->touched.insert(k); if (a->cur.count(k)) a->del(k); else a->ins(k); }
    else if (it->mode == 3 && rch(1, 3)) { int k = rn(a->uni); if (!a->cur.count(k)) { it->touched.insert(k); a->ins(k); } }
    if (it->mode && rch(1, 3)) a->find(rn(a->uni));
    aside(a);
    return it->n > 6000 ? 1 : 0;
  }
  static int cb(const void *d) { return visit(git, d); }
  static int cb_arg(const void *d, void *a) { return visit((It *)a, d); }
  void op() override {
    int i = rn(uni);
    switch (rn(10)) {
      case 0: case 1: case 2: { int k = rch(1, 5) ? 12 : 1; while (k--) { i = rn(uni); if (cur.count(i)) { if (opt.fatal && rch(1, 8)) { bool ok = dies([&] { sl_insert(l, &data[i]); }, 1); CHECK("C21", "sl-dup", ok, "inserting a key already present was not an internal error"); } } else { ins(i); note("sl insert %d", i); } } sample_op("sl-insert"); break; }
      case 3: case 4: if (!cur.empty() && rch(4, 5)) { auto it = cur.begin(); std::advance(it, rn(cur.size())); int k = *it; del(k); note("sl delete %d", k); sample_op("sl-delete"); } else if (!cur.count(i) && opt.fatal) { bool ok = dies([&] { sl_delete(l, &data[i]); }, 1); CHECK("C21", "sl-absent", ok, "deleting an absent key was not an internal error"); sample_op("sl-delete-absent"); } break;
      case 5: case 6: for (int k = rn(5); k >= 0; k--) find(rn(uni)); sample_op("sl-find"); break;
      default: {
        It it{this, cur, {}, (int)rn(4)}; if (rch(1, 4) && cur.size()) it.stop = rr(1, cur.size());
        int r; if (rn(2)) r = sl_iterate_arg(l, cb_arg, &it); else { Keep<It *> g(git, &it); r = sl_iterate(l, cb); }
        sample_op("sl-iterate"); note("sl iterate %d %d", it.mode, r);
        if (it.stop > 0 && (int)it.n >= it.stop) CHECK("C21", "sl-stop", r == it.ret && (int)it.n == it.stop, "traversal asked to stop at %d with %d ended after %zu with %d", it.stop, it.ret, it.n, r);
        else { CHECK("C21", "sl-iterate", r == 0, "complete traversal returned %d", r); for (int k : it.at) if (!it.touched.count(k)) CHECK("C21", "sl-missed", std::find(it.seen.begin(), it.seen.end(), k) != it.seen.end(), "traversal missed key %d", data[k].key); if (it.mode == 0) CHECK("C21", "sl-missed", it.seen.size() == it.at.size(), "traversal visited %zu of %zu", it.seen.size(), it.at.size()); }
        break; }
    }
  }
  bool matches(const std::set<int> &m) {
    struct X { SlActor *a; std::vector<int> got; bool ok = true; } x{this, {}};
    sl_iterate_arg(l, [](const void *d, void *p) { X *x = (X *)p; int i = (int)((const D *)d - &x->a->data[0]) % x->a->uni; if (x->a->who[i] != d) x->ok = false; x->got.push_back(i); return 0; }, &x);
    if (!x.ok || x.got != std::vector<int>(m.begin(), m.end())) return false;
    for (int i = 0; i < uni; i++) if (sl_find(l, &data[i].key) != (m.count(i) ? who[i] : nullptr)) return false;
    return true;
  }
  void verify(const char *props, bool tolerant) override { CHECK(props, "sl-contents", matches(cur) || (tolerant && pend && matches(nxt)), "the skip list does not hold the %zu data expected in order", cur.size()); }
  void destroy() override { pend_destroy = true; sl_destroy(l); dead = true; }
};
SlActor::It *SlActor::git;
ActorP mk_sl() { return ActorP(new SlActor); }
}
