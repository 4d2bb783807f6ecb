// Internal interfaces between core.cpp, kernel.cpp, stdio.cpp and driver.cpp.
#pragma once
#include "sim.h"
#include <ucontext.h>
namespace sim {
extern uint32_t *live_tape, *live_len, live_max;
struct SchedAbort {};
struct SimFile { bool used = false; int fd = -1; std::string buf; int mode = 0; /*0 full 1 line 2 none*/ bool err = false, eof = false, rd = false, wr = false, append = false, touched = false; size_t cap = 4096; std::string rbuf; char **mptr = nullptr, *mbuf = nullptr; size_t *msize = nullptr, mlen = 0; };
struct Guard { ucontext_t ctx; volatile int fired = 0; bool catch_exit = false; int code = 0; char *frame = nullptr; };
struct App {           // per-process state of simulated C library
  std::vector<SimFile> files;
  std::vector<void (*)()> atexits;
  Alloc alloc;
  std::vector<Guard *> guards;
  int app_depth = 0;   // >0: calls come from application code, not from the library
  bool exiting = false;
  int in_callback = 0;
};
struct Image { char *sp_lo; std::string stack, sshadow, globals, heap, hshadow; void save(char *sp); void load(); };
struct Persona {
  ucontext_t ctx; char *sp = nullptr; Image img; ProcP proc; App app; int err = 0; int fork_ret = 0;
  bool gone = false, started = false;
  std::function<bool()> cond; uint64_t wake = UINT64_MAX; uint64_t not_before = 0; bool timed_out = false;
};
extern Persona *P;
[[noreturn]] void end_run(Outcome o, int code, const Str &how);
[[noreturn]] void persona_gone();
int persona_fork(ProcP child);
void persona_kill(Proc *p);
// block the current process. true: cond holds; false: wake time reached
bool block_until(std::function<bool()> cond, uint64_t wake);
void yield_burst(int n);
bool others_runnable();
bool in_program();
void mem_init();
void execute_run();           // one whole run of `scen`
struct Stats { uint64_t runs, steps, syscalls, ticks, edges, allocs, sim_us, procs, execs, outcomes[10]; };
extern Stats stats;
extern Violation V;
extern uint64_t trace_hash, trace_len;
extern std::vector<Str> trace_text;
extern std::map<Str, uint64_t> probes, faults, ops;
extern uint64_t *shm_hash;
extern uint64_t sched_tick;
extern Proc *resuming;
bool guard_fire(int how, int code);
void run_reset();
void stdio_reset(App &);
void std_fds(Proc *);
extern std::vector<uint8_t> edge_hit; extern uint32_t edge_count;
struct RegEntry { Str props, name; int weight; Factory f; };
std::vector<RegEntry> &registry();
}
struct AppScope { AppScope() { sim::P->app.app_depth++; } ~AppScope() { sim::P->app.app_depth--; } };
