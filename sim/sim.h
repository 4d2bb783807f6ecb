// Core of the libmaa simulator: choices, trace, violations, simulated kernel, allocator, stdio.
// Everything nondeterministic that libmaa touches is decided here, from one choice tape.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <coroutine>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/types.h>
#include <time.h>
extern "C" {
#include "maa_cxx.h"
}

namespace sim {

typedef std::string Str;
Str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
Str vfmt(const char *f, va_list ap);
Str quote(const Str &s, size_t max = 80);

// ---------------------------------------------------------------- choices
struct Choice {
  std::vector<uint32_t> tape;
  size_t pos = 0;
  bool replay = false;
  uint64_t st = 0;
  void seed(uint64_t s);
  uint64_t next();
  uint32_t draw(uint32_t n);            // [0,n); 0 is the benign value
};
extern Choice C;
inline uint32_t draw(uint32_t n) { return C.draw(n); }
inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + C.draw(hi - lo + 1); }
bool chance(uint32_t num, uint32_t den);  // false is the benign answer
template <class T> const T &pick(const std::vector<T> &v) { return v[C.draw((uint32_t)v.size())]; }
uint32_t draw_size(uint32_t max);         // small values favoured
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- trace and violations
void TR(const char *f, ...) __attribute__((format(printf, 1, 2)));
struct Violation { bool set = false; Str cls, msg; };
// Report a violation. The run stops here.
[[noreturn]] void viol(const char *cls, const char *f, ...) __attribute__((format(printf, 2, 3)));
void viol_sched(const char *cls, const Str &msg);  // from scheduler context
// Each oracle names the properties it decides; only those of the property being checked report.
bool prop_is(const char *props);  // "C01,C02"
#define CHECK(props, cls, cond, ...)                                      \
  do { if (::sim::prop_is(props) && !(cond)) ::sim::viol(cls, __VA_ARGS__); } while (0)
void probe(const char *name, uint64_t n = 1);
void fault(const char *name);
void sample_op(const char *name);  // operation mix statistics

// ---------------------------------------------------------------- kernel
struct Pipe { int id; std::string buf; size_t cap; uint64_t in_total = 0, out_total = 0; int readers = 0, writers = 0; bool by_lib = false; int creator = 0; };
enum Kind { K_REG, K_DIR, K_NULL, K_PIPE_R, K_PIPE_W, K_SINK };
struct Inode { int id; Kind kind; std::string data; Str path; int open_fail = 0; unsigned mode = 0700; };
struct OFD { int id; Kind kind; std::shared_ptr<Pipe> pipe; std::shared_ptr<Inode> ino; int64_t off = 0; int flags = 0; Str path; bool by_lib = false; ~OFD(); };
typedef std::shared_ptr<OFD> Ofd;
struct Fd { Ofd o; bool cloexec = false; };

struct Proc;
struct Task {
  struct promise_type {
    Proc *p = nullptr;
    Task get_return_object() { return Task{std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() { abort(); }
  };
  std::coroutine_handle<promise_type> h;
};
struct FdInfo { Kind kind; int oid; int pipe; Str path; int flags; };
struct Exec { int pid = 0, serial = 0; Str file; std::vector<Str> argv; std::map<int, FdInfo> fds; bool ok = false; uint64_t step = 0; };
std::map<int, FdInfo> fd_table(Proc *p);
struct Proc {
  int pid = 0, ppid = 0, serial = 0;
  enum { RUN, ZOMBIE, GONE } state = RUN;
  int status = 0;
  bool foreign = false;       // not started by the library
  bool persona = false;       // runs library code
  bool exec_failed = false;
  std::map<int, Fd> fds;
  bool sigpipe_ign = false, chld_ign = false;
  bool term_ign = false; bool stopped = false;
  std::coroutine_handle<Task::promise_type> h;
  std::function<bool()> cond; // runnable when empty or true
  uint64_t wake = UINT64_MAX;
  uint64_t cpu_u = 0, cpu_s = 0, cpu_cu = 0, cpu_cs = 0;
  Exec ex;
  // what the program saw / did
  std::string stdin_seen; bool stdin_eof = false;
  std::string out1, out2;     // bytes it successfully wrote to fd 1 / 2
  uint64_t steps = 0, last_step = 0;
  bool done_script = false;
  int exited_code = -1, died_sig = 0;
  int reaped = 0;
  uint64_t fork_cseq = 0;
  ~Proc();
};
typedef std::shared_ptr<Proc> ProcP;

struct SysRec { uint64_t step; int pid; const char *call; long ret; int err; int fd; bool injected; bool pipe = false; Str path = {}; bool made_good = false; bool natural = false; };
struct Wall { int64_t lo, hi; };

// per-run configuration (swarm)
struct Cfg {
  uint32_t p_preempt = 0;      // /100: run others before a system call
  uint32_t max_burst = 4;
  uint32_t p_eintr = 0;        // /100 at blocking calls
  uint32_t p_short = 0;        // /100 short file write
  uint32_t p_shortpipe = 0;    // /100 partial pipe transfer
  uint32_t p_clock = 0;        // /100 clock advance at a call
  uint32_t clock_max = 1;      // us
  uint32_t p_jump = 0;         // /100 clock jump at a call
  std::vector<int64_t> jumps;  // seconds
  size_t pipe_cap = 65536;
  int open_max = 64;
  int tz = 0; int64_t dst_at = INT64_MAX; int dst_off = 0; // local time changes by dst_off seconds at dst_at
  bool tty_out = false;        // stdout line buffered
  bool reuse_pids = false;
  uint32_t p_rdchunk = 0;      // /100 that a program reads or writes in small pieces
  size_t stdio_buf = 4096;
  // allocator
  int reuse = 0;               // 0 never (quarantine), 1 lifo, 2 random
  int realloc_mode = 0;        // 0 move, 1 in place when possible, 2 random
  int fill = 0;                // 0 zero 1 0xA5 2 0xFF 3 pseudo-random 4 0x01
  int rnd_mode = 0;            // random(): 0 uniform, 1 zeros, 2 max, 3 alternating, 4 bursts
};
extern Cfg cfg;

// one-shot fault plans: the nth occurrence of call fails with err
struct Plan { Str call; int nth; int err; int count = 1; int fd = -1; bool fired = false; bool pipe_only = false; };

struct Persona;
struct Kernel {
  uint64_t step = 0;           // global event sequence number
  int64_t wall = 1000000000123456ll; // us since epoch
  int64_t mono = 0;
  int next_pid = 100, next_id = 1, next_serial = 1;
  std::deque<int> free_pids;
  std::vector<ProcP> procs;    // all ever
  ProcP cur;                   // process executing library code
  std::map<Str, std::shared_ptr<Inode>> fs;
  std::vector<Exec> execs;
  std::vector<Plan> plans;
  std::map<Str, int> call_count;
  std::vector<SysRec> injected; // faults that were delivered
  struct KillRec { int by, pid, sig; int target_serial; bool child_unreaped; int rc; uint64_t step; };
  std::vector<KillRec> kills;
  std::function<void()> on_idle; // a wait of the main program for descriptors sat out its time limit
  struct WaitRec { int by, pid; int target_serial; int reaped_serial; int rc, err; uint64_t step; bool would_block; };
  std::vector<WaitRec> waits;
  struct SyslogRec { int prio; Str msg; Str ident; int opt, fac; int pid = 0; bool open = false; };
  struct FileWrite { uint64_t step; int pid; int ino; Str path; size_t off, before; Str data; bool lib; }; // regular files; the original standard streams have paths <1> and <2>
  bool track_writes = false; std::vector<FileWrite> fwrites;
  std::vector<SyslogRec> syslog;
  bool syslog_open = false; Str syslog_ident; const char *syslog_identp = nullptr; int syslog_opt = 0, syslog_fac = 0;
  int openlogs = 0, closelogs = 0;
  int last_err = 0; Str last_err_call; // last injected failure
  std::vector<Wall> walls;     // wall-clock values that held since mark_wall()
  struct OpenRec { Str path; int fd, flags, err; uint64_t step; };
  std::vector<OpenRec> opens;
  struct CloseRec { int fd, err; uint64_t step; int pid; };
  std::vector<CloseRec> closes;
  std::map<Str, bool> deny_path;  // paths whose open/mkdir fails
  std::map<Str, int> deny_err; std::set<Str> mkdir_refused;
  int64_t disk_free = -1;      // bytes; -1 unlimited
  int eio_burst = 0;
  std::string hostname = "simhost.example.org";
  uint64_t progress = 0;       // bytes moved / process events; for liveness
  uint64_t futile = 0;         // consecutive system calls of the library without progress
  uint64_t futile_seen = 0;
  uint64_t spin_limit = 0;     // 0 = off
  uint64_t syscalls = 0;
  int64_t cpu_u = 0, cpu_s = 0, cpu_cu = 0, cpu_cs = 0;
  uint64_t lib_said = 0;               // characters the library itself printed on standard output
  std::string console1, console2;   // bytes reaching the root's original stdout / stderr
  std::vector<std::pair<int, std::string>> console; // interleaved
  uint64_t rnd_state = 0; int rnd_flip = 0;
  std::function<void(const char *)> on_syscall; // scenario hook: another node acts just before a system call

  Proc *byPid(int pid);        // live or zombie
  Proc *bySerial(int s);
  ProcP newProc(int ppid, int want_pid = 0);
  void exitProc(Proc *p, int status);
  int lowestFd(Proc *p, int from = 0);
  bool fdOpen(Proc *p, int fd) { return p->fds.count(fd) > 0; }
  void mark_wall();
  void advance(int64_t us);
  void jump(int64_t us);
  bool readable(const Ofd &o), writable(const Ofd &o), hangup(const Ofd &o);
  bool step_others(int n);     // run up to n steps of simulated programs (no library processes)
  void drain(int max);         // run programs until nothing can move
  std::shared_ptr<Inode> mkfile(const Str &path, const Str &data);
  void mkdirs(const Str &path);
};
extern Kernel *K;
Str readfile(const Str &path);
bool hasfile(const Str &path);

// System calls by simulated programs and by applications written in scenarios (never fault-injected by plan)
namespace raw {
Ofd mkpipe_r(std::shared_ptr<Pipe> &p, Ofd &w);
void set_fd(Proc *p, int fd, Ofd o);
void close_fd(Proc *p, int fd);
}

// ---------------------------------------------------------------- program under test
struct Scenario {
  virtual ~Scenario() {}
  virtual void configure() {}       // scheduler context, before start
  virtual void main() = 0;          // program context
  virtual void after();             // scheduler context, after the program ended (post-mortem oracles);
                                    // by default the program must have returned from main
};
enum Outcome { O_NONE, O_RETURN, O_EXIT, O_UEXIT, O_ABORT, O_SIGNAL, O_DEADLOCK, O_HANG, O_VIOL };
extern const char *const outcome_name[];
void end_as(Outcome o, int code = -1); // violation unless the program ended that way
struct Run {
  Outcome out = O_NONE;
  int code = 0;
  Str how;
};
extern Run R;
extern const char *cur_prop;
extern Scenario *scen;

// call fn; returns how it ended: 0 normally, 1 abort(), 2 exit(). exit is caught before handlers run.
int guarded(const std::function<void()> &fn, bool catch_exit = false, int *code = nullptr);
extern bool in_child_persona();
bool in_lib_call();

// allocator (the library's heap)
struct Alloc {
  struct Blk { size_t size; uint32_t seq; };
  std::map<uintptr_t, Blk> live;
  std::vector<std::pair<uintptr_t, size_t>> freed; // reusable
  size_t bump = 0; uint32_t seq = 0; size_t live_bytes = 0, peak = 0;
  uint64_t fillst = 1;
};
extern Alloc *A;
extern int64_t alloc_fail_at;     // fail the nth allocation from now (1 = next); 0 off
extern size_t alloc_fail_min;      // only requests of at least so many bytes count and fail
extern int alloc_fail_len;        // how many consecutive allocations fail (-1 = all following)
extern uint64_t alloc_calls;      // allocations requested since run start
extern bool alloc_failed;         // some allocation failed in this run
extern uint64_t alloc_fail_count;
size_t live_blocks(); size_t live_bytes();
bool heap_ok(const void *p, size_t n); // all bytes addressable (not freed / out of bounds)
void *app_block(size_t n, int fill); // application memory in the same arena (poison-checked)
void app_free(void *p);
extern uint64_t fuel;             // library edges left before the run counts as hung
extern uint64_t edges_run;

// the hook used when the trace is printed
extern bool verbose;

// scenario registry
typedef Scenario *(*Factory)();
struct Reg { Reg(const char *props, const char *name, int weight, Factory f); };
#define SCENARIO(props, name, weight, cls) static ::sim::Reg reg_##cls(props, name, weight, []() -> ::sim::Scenario * { return new cls; })

// program registry: name -> coroutine
typedef std::function<Task(Proc *)> Prog;
void reg_prog(const Str &name, Prog p);
bool has_prog(const Str &name);
void start_prog(Proc *p);

} // namespace sim

// libc surface as the library sees it; applications (scenarios) use the same entry points
extern "C" {
#include "shims.h"
}
