#include "actors.h"
#include "core.h"
namespace act {
Feed feed; std::vector<Str> *notes; Opt opt;
IntKey ik[2][NKEY]; char sk[2][NKEY][20]; char blob[4096];
uint32_t rn(uint32_t n) {
  if (n <= 1) return 0;
  if (feed.mode == 2) { uint32_t v = feed.pos < feed.v.size() ? feed.v[feed.pos] : 0; feed.pos++; return v < n ? v : n - 1; }
  uint32_t v = draw(n);
  if (feed.mode == 1) feed.v.push_back(v);
  return v;
}
void note(const char *f, ...) {
  va_list ap; va_start(ap, f); Str s = vfmt(f, ap); va_end(ap);
  TR("%s", s.c_str());
  if (notes) notes->push_back(s);
}
// a caller often has one buffer for everything it passes: in most runs the memory of a finished one is used again
static std::map<std::pair<int, size_t>, std::vector<char *>> spare; static bool spares;
std::vector<ActorP> *team; static int team_depth;
int asides;  // bounded per run: traversals inside traversals multiply
void aside(Actor *self) {
  if (!team || team_depth >= 2 || asides >= 400 || !rch(1, 6)) return;
  Actor *x = (*team)[rn(team->size())].get(); if (!x || x == self || x->in_use || x->dead) return;
  Keep<bool> a(self->in_use, true), b(x->in_use, true); Keep<int> d(P->app.app_depth, 0); team_depth++; asides++;
  TR("inside a traversal of %s: an operation on %s", self->kind.c_str(), x->kind.c_str()); probe("operation-inside-traversal");
  x->op(); team_depth--; 
}
void init_tables() {
  team = nullptr; team_depth = 0; asides = 0; feed = Feed(); notes = nullptr; opt = Opt(); spare.clear(); spares = draw(3);
  for (int c = 0; c < 2; c++) for (int i = 0; i < NKEY; i++) {
    ik[c][i].id = i;
    memset(sk[c][i], 0, 20);
    if (i == 0) sk[c][i][0] = 0;
    else if (i % 7 == 3) snprintf(sk[c][i], 20, "\xff%c\x80%d", 1 + i % 100, i);
    else snprintf(sk[c][i], 20, "k%d", i);
  }
}
Str rstr(size_t max) {
  size_t n; switch (rn(4)) { case 0: n = rn(3); break; case 1: n = rn(9); break; case 2: n = rn(40); break; default: n = rn(max + 1); }
  if (n > max) n = max;
  Str s; uint32_t k = rn(3), a = rn(26);
  for (size_t i = 0; i < n; i++) s += k == 0 ? (char)('a' + a) : k == 1 ? (char)('a' + (a + i) % 26) : (char)(1 + (a * 31 + i * 17) % 255);
  return s;
}
Str printed(const std::function<void()> &fn) { sim_fflush(sim_stdout); size_t n = K->console1.size(); fn(); sim_fflush(sim_stdout); return K->console1.substr(n); }
bool finite_text(const Str &t) { Str w; for (char c : t + " ") if (isalpha((unsigned char)c)) w += tolower(c); else { if (w == "nan" || w == "inf" || w == "infinity") return false; w.clear(); } return true; }
bool numbers_in_order(const Str &t, const std::vector<unsigned long> &want) {
  size_t w = 0, i = 0;
  while (i < t.size()) {
    if (t[i] == '0' && i + 1 < t.size() && t[i + 1] == 'x') { i += 2; while (i < t.size() && isxdigit((unsigned char)t[i])) i++; continue; }
    if (!isdigit((unsigned char)t[i])) { i++; continue; }
    unsigned long v = 0; while (i < t.size() && isdigit((unsigned char)t[i])) v = v * 10 + (t[i++] - '0');
    if (w < want.size() && v == want[w]) w++;
  }
  return w == want.size();
}
int stopval() { static const int v[] = {1, 1, 2, 7, -1, -7, 256, 65536, 0x7fffffff, -0x7fffffff - 1}; return v[rn(10)]; }
Buf::Buf(const Str &s, bool nul) {
  n = s.size() + (nul ? 1 : 0) + (s.empty() && !nul); auto &v = spare[{K->cur ? K->cur->pid : 0, n}];
  if (spares && v.size() && heap_ok(v.back(), n)) { p = v.back(); v.pop_back(); if (s.empty() && !nul) *p = 0x7e; } else p = (char *)app_block(n, 0x7e);
  if (s.size()) memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0;
}
Buf::~Buf() { /* the caller's buffer is reused for something else */ size_t i = 0; while (heap_ok(p + i, 1) && i < 4096) p[i++] = '#'; if (n <= 4096) spare[{K->cur ? K->cur->pid : 0, n}].push_back(p); }
bool dies(const std::function<void()> &fn, int how) {
  int r = guarded(fn, true);
  return r == how || (r && how == 3);
}
}
