// Seeded search over runs, in crash-isolated worker processes; gating, minimisation, replay files, evidence.
#include "sim.h"
#include "core.h"
#include <algorithm>
#include <atomic>
#include <errno.h>
#include <fcntl.h>
#include <sanitizer/asan_interface.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;

static const uint32_t TAPE_MAX = 1u << 19;
struct Slot { uint64_t idx; int has; int crashed; char cls[64]; char msg[1200]; uint64_t hash; uint32_t tape_len; uint32_t tape[TAPE_MAX]; };
struct Shared { std::atomic<uint64_t> next; std::atomic<int> stop; };
static Slot *slots; static Shared *sh; static uint64_t *hashes; static uint8_t *edges_sh; static uint32_t *lens;
static Slot *me;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static uint64_t hstr(const char *s) { uint64_t h = 0xcbf29ce484222325ull; for (; *s; s++) h = (h ^ (unsigned char)*s) * 0x100000001b3ull; return h; }

static void save_tape() {
  if (!me) return;
  uint32_t n = std::min<size_t>(C.replay ? std::min(C.pos, C.tape.size()) : C.tape.size(), TAPE_MAX);
  for (uint32_t i = 0; i < n; i++) me->tape[i] = C.tape[i];
  me->tape_len = n;
}
static void asan_report(const char *rep) {
  if (!me || me->has) return;
  const char *d = __asan_get_report_description();
  snprintf(me->cls, sizeof me->cls, "memory:%s", d && *d ? d : "error");
  for (char *p = me->cls; *p; p++) if (*p == ' ') *p = '-';
  // first lines of the report
  Str m; int lines = 0;
  for (const char *p = rep; *p && lines < 9; p++) { if (*p == '\n') lines++; m += (*p == '\n') ? ' ' : *p; }
  snprintf(me->msg, sizeof me->msg, "%s", m.c_str());
  me->hash = trace_hash; me->has = 1; me->crashed = 1; save_tape();
  if (verbose) { FILE *f = stdout; for (auto &t : trace_text) fprintf(f, "%s\n", t.c_str()); fprintf(f, "MEMORY ERROR %s\n%s\n", me->cls, rep); fflush(f); }
}

static std::vector<RegEntry> mine;
static void one_run() {
  fuel = 0;
  uint32_t tot = 0; for (auto &r : mine) tot += r.weight;
  uint32_t k = draw(tot); size_t i = 0;
  while (k >= (uint32_t)mine[i].weight) k -= mine[i++].weight;
  scen = mine[i].f();
  probes[fmt("scenario:%s", mine[i].name.c_str())]++;
  Str nm = mine[i].name;
  stats.runs++;
  execute_run();
  (void)nm;
}
static void select_prop(const char *prop) {
  cur_prop = strdup(prop); mine.clear();
  for (auto &r : registry()) if (prop_is(r.props.c_str())) mine.push_back(r);
  std::sort(mine.begin(), mine.end(), [](const RegEntry &a, const RegEntry &b) { return a.name < b.name; });
  if (mine.empty()) { fprintf(stderr, "no scenario decides %s\n", prop); _exit(2); }
}
static void record_violation() {
  snprintf(me->cls, sizeof me->cls, "%s", V.cls.c_str()); snprintf(me->msg, sizeof me->msg, "%s", V.msg.c_str());
  me->hash = trace_hash; me->crashed = 0; save_tape(); me->has = 1;
}

// run in a forked child; result in slot s. seed mode when tape==null
static int child_run(Slot *s, const std::vector<uint32_t> *tape, uint64_t seedval) {
  s->has = 0; s->crashed = 0; s->cls[0] = 0; s->msg[0] = 0; s->tape_len = 0; s->hash = 0;
  fflush(nullptr);
  pid_t p = fork();
  if (!p) {
    me = s; shm_hash = nullptr; live_tape = s->tape; live_len = &s->tape_len; live_max = TAPE_MAX;
    int d = open("/dev/null", O_WRONLY); dup2(d, 2);
    struct rlimit rl = {30, 30}; setrlimit(RLIMIT_CPU, &rl);
    if (tape) { C.tape = *tape; C.pos = 0; C.replay = true; } else C.seed(seedval);
    one_run();
    if (V.set) record_violation(); else { me->hash = trace_hash; save_tape(); }
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR);
  if (!s->has && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { s->has = 1; s->crashed = 1; snprintf(s->cls, sizeof s->cls, "crash:%d", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)); snprintf(s->msg, sizeof s->msg, "the simulated process died (status 0x%x)", st); }
  return s->has;
}

struct Result { Str cls, msg; uint64_t hash; std::vector<uint32_t> tape; };
static Result slot_result(Slot *s) { Result r; r.cls = s->cls; r.msg = s->msg; r.hash = s->hash; r.tape.assign(s->tape, s->tape + s->tape_len); return r; }

static std::vector<uint32_t> minimise(Slot *s, const Str &cls, std::vector<uint32_t> t, double budget, int &tries) {
  double end = now() + budget; tries = 0;
  auto ok = [&](const std::vector<uint32_t> &c) { tries++; return child_run(s, &c, 0) && cls == s->cls; };
  auto adopt = [&](std::vector<uint32_t> &best) { // keep only what was consumed
    if (s->tape_len < best.size() && !s->crashed) best.assign(s->tape, s->tape + s->tape_len);
    while (!best.empty() && best.back() == 0) best.pop_back();
  };
  // shorten the tail
  for (size_t cut = t.size() / 2; cut >= 1 && now() < end; ) {
    if (cut <= t.size()) { std::vector<uint32_t> c(t.begin(), t.end() - cut); if (ok(c)) { t = c; adopt(t); cut = std::min(cut, t.size() / 2); if (!cut) break; continue; } }
    cut /= 2;
  }
  bool changed = true;
  while (changed && now() < end) {
    changed = false;
    for (size_t blk = std::max<size_t>(t.size() / 2, 1); blk >= 1 && now() < end; blk /= 2) {
      for (size_t i = t.size(); i > 0 && now() < end;) {
        size_t lo = i > blk ? i - blk : 0;
        std::vector<uint32_t> c(t.begin(), t.begin() + lo); c.insert(c.end(), t.begin() + i, t.end());
        if (ok(c)) { t = c; adopt(t); changed = true; i = std::min(lo, t.size()); continue; }
        bool nz = false; for (size_t k = lo; k < i; k++) nz |= t[k] != 0;
        if (nz) { c = t; for (size_t k = lo; k < i; k++) c[k] = 0; if (ok(c)) { t = c; adopt(t); changed = true; i = std::min(lo, t.size()); continue; } }
        i = lo;
      }
      if (blk == 1) break;
    }
    for (size_t i = 0; i < t.size() && now() < end; i++) {
      while (i < t.size() && t[i] > 0 && now() < end) {
        std::vector<uint32_t> c = t; c[i] = t[i] / 2;
        if (ok(c)) { t = c; changed = true; continue; }
        c = t; c[i] = t[i] - 1;
        if (t[i] > 1 && t[i] <= 16 && ok(c)) { t = c; changed = true; continue; }
        break;
      }
    }
  }
  return t;
}

static Str jstr(const Str &s) { Str r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r + "\""; }
static Str jmap(const std::map<Str, uint64_t> &m) { Str r = "{"; bool f = true; for (auto &x : m) { if (!f) r += ", "; f = false; r += jstr(x.first) + fmt(": %llu", (unsigned long long)x.second); } return r + "}"; }

static int do_replay(const char *file, bool show) {
  FILE *f = fopen(file, "r"); if (!f) { perror(file); return 2; }
  char *line = nullptr; size_t cap = 0; Str prop, cls; uint64_t hash = 0; std::vector<uint32_t> tape;
  while (getline(&line, &cap, f) > 0) {
    Str l = line; if (!l.empty() && l.back() == '\n') l.pop_back();
    if (l == "--- trace") break;
    if (!l.compare(0, 10, "property: ")) prop = l.substr(10);
    else if (!l.compare(0, 7, "class: ")) cls = l.substr(7);
    else if (!l.compare(0, 6, "hash: ")) hash = strtoull(l.c_str() + 6, nullptr, 16);
    else if (!l.compare(0, 6, "tape: ")) { const char *p = l.c_str() + 6; char *e; for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; tape.push_back(v); p = e; } }
  }
  fclose(f);
  select_prop(prop.c_str());
  if (show) {
    me = &slots[0]; me->has = 0; verbose = true; C.tape = tape; C.pos = 0; C.replay = true;
    one_run();
    for (auto &t : trace_text) printf("%s\n", t.c_str());
    printf(V.set ? "REPRODUCED class=%s hash=%016llx\n%s\n" : "NOT REPRODUCED %s %016llx %s\n", V.cls.c_str(), (unsigned long long)trace_hash, V.msg.c_str());
    return V.set ? 1 : 0;
  }
  Slot *s = &slots[0];
  child_run(s, &tape, 0);
  bool same = s->has && cls == s->cls && hash == s->hash;
  printf("%s class=%s hash=%016llx expected class=%s hash=%016llx\n", same ? "REPRODUCED" : "NOT-REPRODUCED", s->cls, (unsigned long long)s->hash, cls.c_str(), (unsigned long long)hash);
  return same ? 1 : 2;
}

// what the driver itself still holds when it ends does not matter; the library's memory is the simulator's
extern "C" const char *__asan_default_options() { return "detect_leaks=0"; }
int main(int argc, char **argv) {
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  Str prop, tier = "quick", evidence, repdir = "replays", replay, libinfo; uint64_t seed = 1, runs = 2000; double wall = 20, minb = 20; int jobs = 8; bool dump = false, show = false, list = false; uint64_t from = 0; long single = -1;
  for (int i = 1; i < argc; i++) {
    Str a = argv[i]; auto nx = [&]() { return Str(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 0); else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 0);
    else if (a == "--wall") wall = atof(nx().c_str()); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--evidence") evidence = nx();
    else if (a == "--replays") repdir = nx(); else if (a == "--replay") replay = nx(); else if (a == "--trace") show = true; else if (a == "--tier") tier = nx();
    else if (a == "--hashes") dump = true; else if (a == "--min-budget") minb = atof(nx().c_str()); else if (a == "--list") list = true; else if (a == "--from") from = strtoull(nx().c_str(), 0, 0);
    else if (a == "--run") single = atol(nx().c_str()); else if (a == "--libinfo") libinfo = nx();
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (list) { for (auto &r : registry()) printf("%s %s\n", r.props.c_str(), r.name.c_str()); return 0; }
  mem_init();
  __asan_set_error_report_callback(asan_report);
  slots = (Slot *)mmap(nullptr, sizeof(Slot) * (jobs + 2), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (!replay.empty()) return do_replay(replay.c_str(), show);
  select_prop(prop.c_str());
  uint64_t base = mix(seed, hstr(prop.c_str()));
  if (single >= 0) { // show one run
    me = &slots[0]; me->has = 0; verbose = true; C.seed(mix(base, single)); one_run();
    for (auto &t : trace_text) printf("%s\n", t.c_str());
    printf("run %ld %s %s hash=%016llx\n", single, V.set ? V.cls.c_str() : "ok", V.msg.c_str(), (unsigned long long)trace_hash);
    return V.set;
  }
  hashes = (uint64_t *)mmap(nullptr, (runs + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  lens = (uint32_t *)mmap(nullptr, (runs + 1) * 4, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  edges_sh = (uint8_t *)mmap(nullptr, edge_count + 2, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now();
  printf("seed=%llu property=%s runs=%llu jobs=%d\n", (unsigned long long)seed, prop.c_str(), (unsigned long long)runs, jobs); fflush(stdout);
  sh->next = from; sh->stop = 0;
  const uint64_t BATCH = 25, PER_WORKER = 1500;
  std::vector<pid_t> pid(jobs, 0); std::vector<int> rfd(jobs, -1); std::vector<Str> rbuf(jobs);
  auto spawn = [&](int w) {
    int pf[2]; if (pipe(pf)) { perror("pipe"); _exit(2); }
    Slot *s = &slots[w]; s->has = 0; s->crashed = 0; s->idx = UINT64_MAX;
    pid_t p = fork();
    if (!p) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      close(pf[0]); me = s; shm_hash = &s->hash;
      int d = open("/dev/null", O_WRONLY); dup2(d, 2);
      stats = Stats(); probes.clear(); faults.clear(); ops.clear();
      uint64_t done = 0; bool bad = false;
      while (!bad && done < PER_WORKER && !sh->stop) {
        uint64_t b = sh->next.fetch_add(BATCH); if (b >= runs) break;
        for (uint64_t i = b; i < b + BATCH && i < runs && !bad && !sh->stop; i++, done++) {
          s->idx = i; alarm(60); C.seed(mix(base, i)); one_run();
          hashes[i] = trace_hash; lens[i] = (uint32_t)trace_len;
          if (V.set) { record_violation(); bad = true; }
        }
      }
      for (uint32_t e = 0; e < edge_count; e++) if (edge_hit[e + 1]) edges_sh[e] = 1;
      FILE *o = fdopen(pf[1], "w");
      fprintf(o, "S runs %llu\nS steps %llu\nS syscalls %llu\nS ticks %llu\nS edges %llu\nS allocs %llu\nS sim_us %llu\nS procs %llu\nS execs %llu\n", (unsigned long long)stats.runs, (unsigned long long)stats.steps, (unsigned long long)stats.syscalls, (unsigned long long)stats.ticks, (unsigned long long)stats.edges, (unsigned long long)stats.allocs, (unsigned long long)stats.sim_us, (unsigned long long)stats.procs, (unsigned long long)stats.execs);
      for (int i = 0; i < 9; i++) if (stats.outcomes[i]) fprintf(o, "O %s %llu\n", outcome_name[i], (unsigned long long)stats.outcomes[i]);
      for (auto &x : probes) fprintf(o, "P %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
      for (auto &x : faults) fprintf(o, "F %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
      for (auto &x : ops) fprintf(o, "Q %s %llu\n", x.first.c_str(), (unsigned long long)x.second);
      fclose(o);
      _exit(bad ? 9 : 0);
    }
    close(pf[1]); pid[w] = p; rfd[w] = pf[0]; rbuf[w].clear();
  };
  std::map<char, std::map<Str, uint64_t>> agg;
  bool found = false; uint64_t best_idx = UINT64_MAX; Result bestr; bool infra = false; Str infra_msg; bool timed = false;
  for (int w = 0; w < jobs; w++) spawn(w);
  int alive = jobs;
  while (alive) {
    for (int w = 0; w < jobs; w++) if (rfd[w] >= 0) { // collect without blocking
      fcntl(rfd[w], F_SETFL, O_NONBLOCK); char b[65536]; ssize_t n; while ((n = read(rfd[w], b, sizeof b)) > 0) rbuf[w].append(b, n);
    }
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) { if (now() - t0 > wall && !sh->stop) { sh->stop = 1; timed = true; } usleep(3000); continue; }
    int w = std::find(pid.begin(), pid.end(), p) - pid.begin(); if (w >= jobs) continue;
    alive--;
    { char b[65536]; ssize_t n; while ((n = read(rfd[w], b, sizeof b)) > 0) rbuf[w].append(b, n); close(rfd[w]); rfd[w] = -1; }
    { const char *q = rbuf[w].c_str(); char k; char nm[256]; unsigned long long v; int used; while (sscanf(q, "%c %255s %llu\n%n", &k, nm, &v, &used) == 3) { agg[k][nm] += v; q += used; } }
    bool okexit = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    Slot *s = &slots[w];
    if (!okexit) {
      if (!s->has) { s->has = 1; s->crashed = 1; snprintf(s->cls, sizeof s->cls, "crash:%d", WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)); snprintf(s->msg, sizeof s->msg, "the simulated process died (status 0x%x)", st); s->tape_len = 0; }
      if (s->idx < best_idx) { best_idx = s->idx; bestr = slot_result(s); }
      found = true; sh->stop = 1;
    } else if (!sh->stop && sh->next < runs) { spawn(w); alive++; }
  }
  double t1 = now();
  uint64_t nruns = agg['S']["runs"];
  if (dump) { for (uint64_t i = from; i < runs; i++) printf("%llu %016llx\n", (unsigned long long)i, (unsigned long long)hashes[i]); }
  Str replay_path; int rc = 0; int tries = 0; Str final_msg;
  if (found) {
    Slot *s = &slots[jobs];
    uint64_t sv = mix(base, best_idx);
    bool a = child_run(s, nullptr, sv); Result r1 = slot_result(s);
    bool b = child_run(s, nullptr, sv); Result r2 = slot_result(s);
    if (!a || !b || r1.cls != r2.cls || r1.hash != r2.hash) { infra = true; infra_msg = fmt("run %llu is not reproducible: %s/%016llx %s/%016llx (%s)", (unsigned long long)best_idx, r1.cls.c_str(), (unsigned long long)r1.hash, r2.cls.c_str(), (unsigned long long)r2.hash, bestr.cls.c_str()); }
    else {
      std::vector<uint32_t> t = r1.tape;
      if (!r1.tape.empty() && child_run(s, &t, 0) && r1.cls == s->cls) t = minimise(s, r1.cls, t, minb, tries);
      child_run(s, &t, 0);
      Result rm = slot_result(s);
      if (rm.cls != r1.cls) { infra = true; infra_msg = fmt("the recorded choices of run %llu do not reproduce %s (got %s)", (unsigned long long)best_idx, r1.cls.c_str(), rm.cls.c_str()); }
      else {
        mkdir(repdir.c_str(), 0755);
        replay_path = fmt("%s/%s-%llu-%llu.replay", repdir.c_str(), prop.c_str(), (unsigned long long)seed, (unsigned long long)best_idx);
        FILE *f = fopen(replay_path.c_str(), "w");
        if (!f) { perror(replay_path.c_str()); return 2; }
        fprintf(f, "# libmaa simulation replay; bin/replay.sh FILE shows it\nproperty: %s\nseed: %llu\nrun: %llu\nclass: %s\nhash: %016llx\nmessage: %s\n# %zu choices originally, %zu after minimisation (%d candidates)\ntape:", prop.c_str(), (unsigned long long)seed, (unsigned long long)best_idx, rm.cls.c_str(), (unsigned long long)rm.hash, quote(rm.msg, 1000).c_str(), r1.tape.size(), t.size(), tries);
        for (auto v : t) fprintf(f, " %u", v);
        fprintf(f, "\n--- trace\n"); fclose(f);
        final_msg = rm.cls + ": " + rm.msg;
        // a fresh process must reproduce it exactly
        Str cmd = fmt("/proc/%d/exe --replay '%s' >/dev/null 2>&1", getpid(), replay_path.c_str());
        int st = system(cmd.c_str());
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) { infra = true; infra_msg = "a fresh process does not reproduce " + replay_path; }
        else {
          cmd = fmt("/proc/%d/exe --replay '%s' --trace >> '%s' 2>/dev/null", getpid(), replay_path.c_str(), replay_path.c_str());
          if (system(cmd.c_str())) {}
          rc = 1;
        }
      }
    }
  }
  if (infra) rc = 2;
  // evidence
  std::vector<uint64_t> hs; uint64_t nontriv = 0;
  for (uint64_t i = from; i < runs; i++) if (lens[i] >= 5) { hs.push_back(hashes[i]); nontriv++; }
  std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());
  uint64_t eh = 0; for (uint32_t e = 0; e < edge_count; e++) eh += edges_sh[e];
  double wallrun = t1 - t0;
  Str samples;
  { // written-out sample runs (first lines of their traces), produced by a child
    for (int k = 0; k < 2; k++) {
      int pf[2]; if (pipe(pf)) break;
      fflush(nullptr);
      pid_t p = fork();
      if (!p) { me = nullptr; int d = open("/dev/null", O_WRONLY); dup2(d, 2); verbose = true; C.seed(mix(base, (uint64_t)k * 7 + 3)); alarm(60); one_run(); Str o; size_t n = 0; for (auto &t : trace_text) { if (n++ >= 40) { o += fmt("... %zu more events\n", trace_text.size() - 40); break; } o += t + "\n"; } if (write(pf[1], o.data(), o.size()) < 0) {} _exit(0); }
      close(pf[1]); Str o; char b[4096]; ssize_t n; while ((n = read(pf[0], b, sizeof b)) > 0) o.append(b, n); close(pf[0]); int st; waitpid(p, &st, 0);
      if (k) samples += ", ";
      samples += fmt("{\"run\": %d, \"trace\": %s}", k * 7 + 3, jstr(o).c_str());
    }
  }
  auto S = agg['S'];
  if (!evidence.empty()) {
    FILE *f = fopen((evidence + ".tmp").c_str(), "w"); if (!f) { perror(evidence.c_str()); return 2; }
    std::map<Str, uint64_t> scn, pr; for (auto &x : agg['P']) if (!x.first.compare(0, 9, "scenario:")) scn[x.first.substr(9)] = x.second; else pr[x.first] = x.second;
    fprintf(f, "{\n \"property\": %s, \"tier\": %s, \"seed\": %llu, \"level\": \"exploration\",\n", jstr(prop).c_str(), jstr(tier).c_str(), (unsigned long long)seed);
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n", (unsigned long long)nruns, hs.size());
    fprintf(f, "  \"rule\": \"one evaluation is one whole simulated execution of the real library, generated from (VERIF_SEED, property, run number); non-trivial: its event trace has at least 5 events; distinct: by the hash of the complete event trace (operations, results, system calls, scheduling, faults)\",\n");
    fprintf(f, "  \"samples\": [%s],\n", samples.c_str());
    fprintf(f, "  \"runs_requested\": %llu, \"stopped_by_wall_clock\": %s, \"nontrivial\": %llu,\n", (unsigned long long)runs, timed ? "true" : "false", (unsigned long long)nontriv);
    fprintf(f, "  \"runs_per_hour\": %.0f, \"seeds_per_hour\": %.0f,\n", nruns / wallrun * 3600, nruns / wallrun * 3600);
    fprintf(f, "  \"simulated_seconds\": %.3f, \"scheduler_steps\": %llu, \"system_calls\": %llu, \"events\": %llu, \"simulated_processes\": %llu, \"programs_executed\": %llu, \"library_allocations\": %llu, \"library_edges_executed\": %llu,\n", S["sim_us"] / 1e6, (unsigned long long)S["ticks"], (unsigned long long)S["syscalls"], (unsigned long long)S["steps"], (unsigned long long)S["procs"], (unsigned long long)S["execs"], (unsigned long long)S["allocs"], (unsigned long long)S["edges"]);
    fprintf(f, "  \"library_edges_covered\": %llu, \"library_edges_total\": %u,\n", (unsigned long long)eh, edge_count);
    fprintf(f, "  \"scenarios\": %s,\n  \"outcomes\": %s,\n  \"faults_injected\": %s,\n  \"operations\": %s,\n  \"probes\": %s,\n", jmap(scn).c_str(), jmap(agg['O']).c_str(), jmap(agg['F']).c_str(), jmap(agg['Q']).c_str(), jmap(pr).c_str());
    fprintf(f, "  \"real_components\": %s,\n", jstr(libinfo.empty() ? "all of libmaa, compiled from /repo/maa" : libinfo).c_str());
    fprintf(f, "  \"stub_components\": \"kernel (descriptors, pipes, files, processes, signals, clocks, system log), stdio, heap, random(), external programs: simulated\"\n },\n");
    fprintf(f, " \"assumptions\": [\"the simulated libc and kernel behave as POSIX/Linux does\", \"string, memory, formatting and calendar functions of the C library are real\", \"sampling: a clean run is evidence, not proof\"],\n");
    fprintf(f, " \"wall_s\": %.2f, \"violations\": %d\n}\n", now() - t0, rc == 1 ? 1 : 0);
    fclose(f); rename((evidence + ".tmp").c_str(), evidence.c_str());
  }
  printf("%llu runs in %.1fs, %zu distinct, %llu/%u library edges\n", (unsigned long long)nruns, wallrun, hs.size(), (unsigned long long)eh, edge_count);
  if (rc == 1) { printf("%s\n", final_msg.c_str()); printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay_path.c_str()); }
  if (infra) { printf("ERROR %s\n", infra_msg.c_str()); }
  if (!found && nruns == 0) { printf("ERROR no run was executed\n"); rc = 2; }
  return rc;
}
