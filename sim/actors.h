// Actors: one library object each, driven by random operations and compared with a reference model.
// The per-container scenarios and the whole-library scenarios (memory, out-of-memory, restart) share them.
#pragma once
#include "sim.h"
#include <algorithm>
namespace act {
using namespace sim;

// ---- choices of the workload; can be recorded and played back so that one workload runs twice
struct Feed { int mode = 0; std::vector<uint32_t> v; size_t pos = 0; }; // 0 direct, 1 record, 2 play
extern Feed feed;
uint32_t rn(uint32_t n);
inline bool rch(uint32_t a, uint32_t b) { return rn(b) >= b - a; }
inline uint32_t rr(uint32_t lo, uint32_t hi) { return lo + rn(hi - lo + 1); }
// ---- semantic results, for comparing sessions
extern std::vector<Str> *notes;
void note(const char *f, ...) __attribute__((format(printf, 1, 2)));

struct Opt { bool fatal = true; bool small = false; bool pr = true; };
extern Opt opt;

enum { NKEY = 512 };
struct IntKey { int id; };
extern IntKey ik[2][NKEY];
extern char sk[2][NKEY][20];
extern char blob[4096];
void init_tables();
Str rstr(size_t max);          // random string without NUL
struct Buf { char *p; size_t n; Buf(const Str &s, bool nul); ~Buf(); }; // exact-size application buffer, scribbled afterwards

// what fn prints on standard output; every number in it, addresses excepted
Str printed(const std::function<void()> &fn);
bool finite_text(const Str &text); // no number in it is the result of dividing by zero
bool numbers_in_order(const Str &text, const std::vector<unsigned long> &want);
int stopval(); // a callback's request to stop: any non-zero value
struct Actor {
  Str kind; bool dead = false; bool pend = false; bool pend_destroy = false;
  virtual ~Actor() {}
  virtual void op() = 0;
  // whole-content comparison; in an exit handler the interrupted operation may or may not have happened
  virtual void verify(const char *props, bool tolerant) = 0;
  virtual void destroy() = 0;
  virtual void handles(std::vector<std::pair<char, void *>> &) {} // h hash, s set, l list, k skip list, o objects, m strings, a arguments, - others
  virtual void unlock() {}     // give up a traversal that was interrupted
  bool in_use = false;         // one of its traversals is going on
};
typedef std::unique_ptr<Actor> ActorP;
extern std::vector<ActorP> *team; // all objects of the program: code that runs during a traversal uses the others
void aside(Actor *self);
extern int asides;
template <class T> struct Keep { T &r; T old; Keep(T &x, T v) : r(x), old(x) { x = v; } ~Keep() { r = old; } };
ActorP mk_hash(); ActorP mk_sets(); ActorP mk_list(); ActorP mk_stack(); ActorP mk_sl(); ActorP mk_str(bool global); ActorP mk_obj(); ActorP mk_mstr(); ActorP mk_arg(); ActorP mk_src(); ActorP mk_tim(); ActorP mk_log(); ActorP mk_pr(); ActorP mk_misc();
extern bool expect_fatal_noise;
// run fn, which the documentation says ends the program; true when it did
bool dies(const std::function<void()> &fn, int how); // how: 1 abort, 2 exit
}
