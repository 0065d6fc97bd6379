// Driver: seeded search over runs in worker processes, exact replay, minimisation.
#include "harness.h"

#include <errno.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <string>

using namespace h;

namespace h {
int g_probe_base = 0;
}

static const int kExitNondet = 4;
static const uint32_t kDistinctBits = 24;

struct Shared {
  volatile uint64_t runs[64];
  volatile uint64_t cur_index[64];
  uint64_t steps, switches, vtime, races, double_checked, replay_checked, multi;
  uint64_t faults[rt::F_KINDS];
  uint64_t fault_runs[rt::F_KINDS];
  uint64_t probes[rt::kMaxProbe];
  uint64_t scen_runs[64];
  uint64_t ops;
  volatile int stop;
  struct Found {
    volatile int set;
    uint64_t index;
    int nondet;
    char cls[64];
    char msg[512];
  } found[64];
};
static Shared* g_sh;
static uint64_t* g_interleavings;
static uint64_t* g_execs;

static double now_s() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

static uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static uint64_t str_hash(const char* s) {
  uint64_t v = 1469598103934665603ull;
  for (; *s; ++s) v = (v ^ (uint8_t)*s) * 1099511628211ull;
  return v;
}

struct Case {
  int scen;
  uint64_t seed;
  Program prog;
  std::vector<rt::SchedEntry> sched;
  std::vector<rt::FaultEntry> faults;
};

struct Arg {
  const Scenario* s;
  const Program* p;
};
static void sim_entry(void* a) {
  Arg* g = (Arg*)a;
  g->s->run(*g->p);
}

static int probe_base(int scen) {
  int b = 0;
  for (int i = 0; i < scen; ++i)
    for (const char* const* p = kScenarios[i].probes; p && *p; ++p) ++b;
  return b;
}

static void run_case(const Case& c, bool replay, rt::RunResult* out) {
  const Scenario& s = kScenarios[c.scen];
  rt::RunConfig cfg;
  memset(&cfg, 0, sizeof(cfg));
  cfg.seed = c.seed;
  cfg.replay = replay;
  cfg.sched = c.sched.data();
  cfg.nsched = (uint32_t)c.sched.size();
  cfg.faults = c.faults.data();
  cfg.nfaults = (uint32_t)c.faults.size();
  cfg.max_steps = s.max_steps;
  cfg.policy = 0xffffffffu;
  cfg.race_fatal = s.race_fatal;
  cfg.ctl_reuse = true;
  g_probe_base = probe_base(c.scen);
  Arg a = {&s, &c.prog};
  rt::execute(cfg, sim_entry, &a, out);
}

static int pick_scenario(rt::Rng& r, int only) {
  if (only >= 0) return only;
  int tot = 0;
  for (int i = 0; i < kNumScenarios; ++i) tot += kScenarios[i].weight;
  int x = (int)r.below((uint32_t)tot);
  for (int i = 0; i < kNumScenarios; ++i) {
    x -= kScenarios[i].weight;
    if (x < 0) return i;
  }
  return 0;
}

static void make_case(uint64_t base, uint64_t index, bool thorough, int only, Case& c) {
  c.seed = mix64(base ^ mix64(index * 2654435761ull + 17));
  rt::Rng r(c.seed ^ 0x5bd1e995);
  c.scen = pick_scenario(r, only);
  memset(c.prog.cfg, 0, sizeof(c.prog.cfg));
  c.prog.ops.clear();
  kScenarios[c.scen].gen(r, c.prog, thorough);
  c.sched.clear();
  c.faults.clear();
}

// ------------------------------------------------------------------------------------------------ crashes
static char g_altstack[65536] __attribute__((aligned(16)));
static void on_crash(int sig) {
  if (rt::in_sim()) {
    const char* n = sig == SIGSEGV ? "crash-SIGSEGV" : sig == SIGABRT ? "crash-abort" : sig == SIGBUS ? "crash-SIGBUS" : sig == SIGFPE ? "crash-SIGFPE" : "crash-SIGILL";
    rt::fail(n, "the process received signal %d", sig);
  }
  static const char m[] = "driver crashed outside a simulated run\n";
  if (write(2, m, sizeof(m) - 1) < 0) {}
  _exit(3);
}
static void on_alarm(int) { _exit(7); }
// a run that uses this much processor time will not return: runs take milliseconds
static void arm_hang_timer() {
  struct itimerval tv;
  memset(&tv, 0, sizeof(tv));
  tv.it_value.tv_sec = 20;
  setitimer(ITIMER_PROF, &tv, nullptr);
}
static void install_handlers() {
  stack_t ss;
  memset(&ss, 0, sizeof(ss));
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof(g_altstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = on_crash;
  sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL};
  for (int s : sigs) sigaction(s, &sa, nullptr);
  sa.sa_handler = on_alarm;
  sigaction(SIGALRM, &sa, nullptr);
  sigaction(SIGPROF, &sa, nullptr);
}

// ------------------------------------------------------------------------------------------------ replay files
static void write_replay(const char* path, const Case& c, const rt::RunResult& res, const char* note) {
  FILE* f = fopen(path, "w");
  if (!f) {
    fprintf(stderr, "cannot write %s\n", path);
    _exit(3);
  }
  const Scenario& s = kScenarios[c.scen];
  fprintf(f, "libcopp-sim-replay 1\nproperty %s\nscenario %s\nclass %s\nmessage %s\nhash %llx\nseed %llu\n", kProperty, s.name,
          res.failed ? res.cls : "none", res.failed ? res.msg : "", (unsigned long long)res.hash, (unsigned long long)c.seed);
  if (note) fprintf(f, "note %s\n", note);
  fprintf(f, "cfg");
  for (int i = 0; i < kCfg; ++i) fprintf(f, " %d", c.prog.cfg[i]);
  fprintf(f, "\n");
  int nn = 0;
  while (s.opnames && s.opnames[nn]) ++nn;
  for (auto& o : c.prog.ops) {
    fprintf(f, "op %d %d %d %d %d # %s\n", o.th, o.code, o.a, o.b, o.c, o.code >= 0 && o.code < nn ? s.opnames[o.code] : "?");
  }
  for (auto& e : c.sched) fprintf(f, "sched %u %u\n", e.step, e.tid);
  for (auto& e : c.faults) fprintf(f, "fault %u %u # %s\n", e.kind, e.at, e.kind < rt::F_KINDS ? rt::kFaultNames[e.kind] : "?");
  fprintf(f, "end\n");
  fclose(f);
}

static bool read_replay(const char* path, Case& c, std::string& cls, uint64_t& hash) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char line[2048];
  bool ended = false;
  c.scen = -1;
  memset(c.prog.cfg, 0, sizeof(c.prog.cfg));
  hash = 0;
  while (fgets(line, sizeof(line), f)) {
    size_t n = strlen(line);
    while (n && (line[n - 1] == '\n' || line[n - 1] == '\r')) line[--n] = 0;
    if (!strncmp(line, "scenario ", 9)) {
      for (int i = 0; i < kNumScenarios; ++i)
        if (!strcmp(kScenarios[i].name, line + 9)) c.scen = i;
    } else if (!strncmp(line, "class ", 6)) {
      cls = line + 6;
    } else if (!strncmp(line, "hash ", 5)) {
      hash = strtoull(line + 5, nullptr, 16);
    } else if (!strncmp(line, "seed ", 5)) {
      c.seed = strtoull(line + 5, nullptr, 10);
    } else if (!strncmp(line, "cfg ", 4)) {
      char* p = line + 4;
      for (int i = 0; i < kCfg; ++i) c.prog.cfg[i] = (int)strtol(p, &p, 10);
    } else if (!strncmp(line, "op ", 3)) {
      Op o;
      if (sscanf(line + 3, "%d %d %d %d %d", &o.th, &o.code, &o.a, &o.b, &o.c) == 5) c.prog.ops.push_back(o);
    } else if (!strncmp(line, "sched ", 6)) {
      rt::SchedEntry e;
      if (sscanf(line + 6, "%u %u", &e.step, &e.tid) == 2) c.sched.push_back(e);
    } else if (!strncmp(line, "fault ", 6)) {
      rt::FaultEntry e;
      if (sscanf(line + 6, "%u %u", &e.kind, &e.at) == 2) c.faults.push_back(e);
    } else if (!strcmp(line, "end")) {
      ended = true;
    }
  }
  fclose(f);
  return ended && c.scen >= 0;
}

// ------------------------------------------------------------------------------------------------ isolated execution
struct Outcome {
  rt::RunResult res;
  uint64_t seed;
  bool got;
};
static void write_all(int fd, const void* p, size_t n) {
  const char* c = (const char*)p;
  while (n) {
    ssize_t k = write(fd, c, n);
    if (k <= 0) _exit(3);
    c += k;
    n -= (size_t)k;
  }
}
static bool read_all(int fd, void* p, size_t n) {
  char* c = (char*)p;
  while (n) {
    ssize_t k = read(fd, c, n);
    if (k < 0 && errno == EINTR) continue;
    if (k <= 0) return false;
    c += k;
    n -= (size_t)k;
  }
  return true;
}

// Executes the case in a forked child. With nseeds > 0, tries that many random schedules and keeps the first whose
// violation class is `want`. On success `c` holds the schedule and faults that were recorded.
static bool isolated(Case& c, bool replay, int nseeds, const char* want, rt::RunResult* res) {
  int pfd[2];
  if (pipe(pfd) != 0) _exit(3);
  pid_t pid = fork();
  if (pid == 0) {
    close(pfd[0]);
    alarm(60);
    arm_hang_timer();
    uint64_t seed0 = c.seed;
    int k = 0;
    for (;;) {
      Outcome o;
      memset(&o, 0, sizeof(o));
      if (nseeds > 0) c.seed = k == 0 ? seed0 : mix64(seed0 + 7919u * (uint64_t)k);
      run_case(c, replay, &o.res);
      o.seed = c.seed;
      o.got = nseeds == 0 || (o.res.failed && !strcmp(o.res.cls, want));
      ++k;
      if (o.got || k >= nseeds || o.res.failed) {
        // after a violation the process state is not trusted any more: the parent forks again for further seeds
        write_all(pfd[1], &o, sizeof(o));
        write_all(pfd[1], &k, sizeof(k));
        if (o.got) {
          write_all(pfd[1], rt::recorded_sched(), sizeof(rt::SchedEntry) * o.res.nsched);
          write_all(pfd[1], rt::recorded_faults(), sizeof(rt::FaultEntry) * o.res.nfaults);
        }
        _exit(0);
      }
    }
  }
  close(pfd[1]);
  Outcome o;
  int k = 0;
  bool ok = read_all(pfd[0], &o, sizeof(o)) && read_all(pfd[0], &k, sizeof(k));
  bool got = false;
  if (ok) {
    *res = o.res;
    got = o.got;
    if (o.got) {
      std::vector<rt::SchedEntry> sc(o.res.nsched);
      std::vector<rt::FaultEntry> fa(o.res.nfaults);
      if (!read_all(pfd[0], sc.data(), sizeof(rt::SchedEntry) * sc.size()) || !read_all(pfd[0], fa.data(), sizeof(rt::FaultEntry) * fa.size())) {
        got = false;
      } else if (!replay) {
        c.sched = sc;
        c.faults = fa;
        c.seed = o.seed;
      }
    }
  }
  close(pfd[0]);
  int st = 0;
  waitpid(pid, &st, 0);
  if (!ok) {
    memset(res, 0, sizeof(*res));
    res->failed = true;
    bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 7;
    snprintf(res->cls, sizeof(res->cls), "%s", hang ? "hang" : "crash");
    snprintf(res->msg, sizeof(res->msg), "the run %s (status %d)", hang ? "did not return" : "ended the process", st);
    got = nseeds == 0 || !strcmp(res->cls, want);
  }
  return got;
}

static bool reproduces(Case c, const char* cls) {
  rt::RunResult r;
  isolated(c, true, 0, cls, &r);
  return r.failed && !strcmp(r.cls, cls);
}

static void minimise(Case& c, const char* cls, double deadline) {
  // 1. operations: drop chunks; for each candidate try the same schedule, then fresh schedules
  auto try_prog = [&](const Program& p) -> bool {
    Case t = c;
    t.prog = p;
    if (reproduces(t, cls)) {
      c.prog = p;
      return true;
    }
    rt::RunResult r;
    t.sched.clear();
    t.faults.clear();
    for (int round = 0; round < 4 && now_s() < deadline; ++round) {
      Case u = t;
      u.seed = mix64(c.seed + 31337u * (uint64_t)(round + 1));
      if (isolated(u, false, 150, cls, &r)) {
        if (reproduces(u, cls)) {
          c = u;
          return true;
        }
      }
      if (!r.failed) break;
    }
    return false;
  };
  size_t chunk = c.prog.ops.size() / 2;
  while (chunk >= 1 && now_s() < deadline) {
    bool any = false;
    for (size_t i = 0; i + 1 <= c.prog.ops.size() && now_s() < deadline;) {
      Program p = c.prog;
      size_t e = std::min(i + chunk, p.ops.size());
      p.ops.erase(p.ops.begin() + (long)i, p.ops.begin() + (long)e);
      if (try_prog(p)) any = true; else i += chunk;
    }
    if (chunk == 1 && !any) break;
    chunk = chunk > 1 ? chunk / 2 : 1;
    if (chunk == 1 && !any && c.prog.ops.size() <= 1) break;
  }
  // 2. arguments and configuration towards zero
  for (size_t i = 0; i < c.prog.ops.size() && now_s() < deadline; ++i) {
    for (int k = 0; k < 3; ++k) {
      Program p = c.prog;
      int* v = k == 0 ? &p.ops[i].a : k == 1 ? &p.ops[i].b : &p.ops[i].c;
      if (*v == 0) continue;
      *v = 0;
      try_prog(p);
    }
  }
  // 3. scheduling decisions, then faults
  for (int what = 0; what < 2; ++what) {
    size_t n = what == 0 ? c.sched.size() : c.faults.size();
    size_t ch = n / 2 ? n / 2 : 1;
    while (n && now_s() < deadline) {
      bool any = false;
      for (size_t i = 0; i < (what == 0 ? c.sched.size() : c.faults.size()) && now_s() < deadline;) {
        Case t = c;
        if (what == 0) {
          size_t e = std::min(i + ch, t.sched.size());
          t.sched.erase(t.sched.begin() + (long)i, t.sched.begin() + (long)e);
        } else {
          size_t e = std::min(i + ch, t.faults.size());
          t.faults.erase(t.faults.begin() + (long)i, t.faults.begin() + (long)e);
        }
        if (reproduces(t, cls)) {
          c = t;
          any = true;
        } else {
          i += ch;
        }
      }
      if (ch == 1 && !any) break;
      ch = ch > 1 ? ch / 2 : 1;
    }
  }
}

// ------------------------------------------------------------------------------------------------ search
static void worker(int w, int nw, uint64_t base, bool thorough, double seconds, uint64_t max_runs, int only) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  double end = now_s() + seconds;
  Case c;
  rt::RunResult res, res2;
  for (uint64_t i = (uint64_t)w;; i += (uint64_t)nw) {
    if (g_sh->stop || i >= max_runs) break;
    if ((g_sh->runs[w] & 15) == 0 && now_s() >= end) break;
    g_sh->cur_index[w] = i;
    make_case(base, i, thorough, only, c);
    if ((g_sh->runs[w] & 31) == 0) arm_hang_timer();
    run_case(c, false, &res);
    __sync_fetch_and_add(&g_sh->scen_runs[c.scen], 1);
    __sync_fetch_and_add(&g_sh->steps, res.steps);
    __sync_fetch_and_add(&g_sh->switches, res.switches);
    __sync_fetch_and_add(&g_sh->vtime, (uint64_t)res.vtime_ns);
    __sync_fetch_and_add(&g_sh->races, res.races);
    __sync_fetch_and_add(&g_sh->ops, c.prog.ops.size());
    if (res.nthreads > 1) __sync_fetch_and_add(&g_sh->multi, 1);
    for (int k = 0; k < rt::F_KINDS; ++k)
      if (res.fault_count[k]) {
        __sync_fetch_and_add(&g_sh->faults[k], res.fault_count[k]);
        __sync_fetch_and_add(&g_sh->fault_runs[k], 1);
      }
    rt::distinct_insert(g_execs, kDistinctBits, res.hash);
    rt::distinct_insert(g_interleavings, kDistinctBits, mix64((res.nthreads > 1 ? res.sync_hash : res.hash) ^ mix64((uint64_t)c.scen)));
    g_sh->runs[w] = g_sh->runs[w] + 1;
    if (res.failed) {
      Shared::Found& f = g_sh->found[w];
      f.index = i;
      f.nondet = 0;
      memcpy(f.cls, res.cls, sizeof(f.cls));
      memcpy(f.msg, res.msg, sizeof(f.msg));
      f.set = 1;
      g_sh->stop = 1;
      break;
    }
    uint64_t n = g_sh->runs[w];
    if (n % 64 == 1) {
      run_case(c, false, &res2);
      __sync_fetch_and_add(&g_sh->double_checked, 1);
      if (res2.hash != res.hash || res2.sync_hash != res.sync_hash) {
        Shared::Found& f = g_sh->found[w];
        f.index = i;
        f.nondet = 1;
        snprintf(f.msg, sizeof(f.msg), "same seed, different execution (scenario %s)", kScenarios[c.scen].name);
        f.set = 1;
        g_sh->stop = 1;
        break;
      }
    } else if (n % 64 == 33) {
      c.sched.assign(rt::recorded_sched(), rt::recorded_sched() + res.nsched);
      c.faults.assign(rt::recorded_faults(), rt::recorded_faults() + res.nfaults);
      run_case(c, true, &res2);
      __sync_fetch_and_add(&g_sh->replay_checked, 1);
      if (res2.hash != res.hash || res2.sync_hash != res.sync_hash) {
        Shared::Found& f = g_sh->found[w];
        f.index = i;
        f.nondet = 2;
        snprintf(f.msg, sizeof(f.msg), "recorded schedule replays to a different execution (scenario %s, %u decisions, steps %u vs %u)", kScenarios[c.scen].name, res.nsched,
                 res.steps, res2.steps);
        f.set = 1;
        g_sh->stop = 1;
        break;
      }
    }
  }
  for (int k = 0; k < rt::kMaxProbe; ++k) {
    uint64_t v = rt::probe_count(k);
    if (v) __sync_fetch_and_add(&g_sh->probes[k], v);
  }
  _exit(0);
}

static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    if (*s == '"' || *s == '\\') fputc('\\', f);
    if ((unsigned char)*s < 32) fputc(' ', f); else fputc(*s, f);
  }
  fputc('"', f);
}

static int cmd_run(uint64_t seed, bool thorough, double seconds, uint64_t max_runs, int nw, int only, const char* json, const char* replay_out,
                   double min_seconds) {
  uint64_t base = mix64(seed) ^ str_hash(kProperty);
  double t0 = now_s();
  std::vector<pid_t> pids((size_t)nw);
  for (int w = 0; w < nw; ++w) {
    pid_t p = fork();
    if (p == 0) worker(w, nw, base, thorough, seconds, max_runs, only);
    pids[(size_t)w] = p;
  }
  std::vector<uint64_t> last((size_t)nw, 0);
  std::vector<double> since((size_t)nw, now_s());
  int alive = nw;
  int bad = 0;
  std::vector<bool> done((size_t)nw, false);
  while (alive > 0) {
    for (int w = 0; w < nw; ++w) {
      if (done[(size_t)w]) continue;
      int st = 0;
      pid_t r = waitpid(pids[(size_t)w], &st, WNOHANG);
      if (r == pids[(size_t)w]) {
        done[(size_t)w] = true;
        --alive;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
          fprintf(stderr, "worker %d ended with status %d at index %llu\n", w, st, (unsigned long long)g_sh->cur_index[w]);
          Shared::Found& f = g_sh->found[w];
          if (!f.set) {
            f.index = g_sh->cur_index[w];
            bool hang = WIFEXITED(st) && WEXITSTATUS(st) == 7;
            snprintf(f.cls, sizeof(f.cls), "%s", hang ? "hang" : "crash");
            snprintf(f.msg, sizeof(f.msg), "the run %s (status %d)", hang ? "did not return" : "ended the process", st);
            f.set = 1;
            g_sh->stop = 1;
          }
        }
        continue;
      }
      if (g_sh->runs[w] != last[(size_t)w]) {
        last[(size_t)w] = g_sh->runs[w];
        since[(size_t)w] = now_s();
      } else if (now_s() - since[(size_t)w] > 60) {
        kill(pids[(size_t)w], SIGKILL);
        Shared::Found& f = g_sh->found[w];
        if (!f.set) {
          f.index = g_sh->cur_index[w];
          snprintf(f.cls, sizeof(f.cls), "hang");
          snprintf(f.msg, sizeof(f.msg), "the run did not return");
          f.set = 1;
          g_sh->stop = 1;
        }
        since[(size_t)w] = now_s() + 1e9;
      }
    }
    struct timespec ts = {0, 5000000};
    syscall(SYS_nanosleep, &ts, nullptr);
  }
  double wall = now_s() - t0;
  // pick the violation with the smallest index
  int pickw = -1;
  for (int w = 0; w < nw; ++w)
    if (g_sh->found[w].set && (pickw < 0 || g_sh->found[w].index < g_sh->found[pickw].index)) pickw = w;
  const char* verdict = "ok";
  std::string cls, msg;
  Case c;
  rt::RunResult res;
  memset(&res, 0, sizeof(res));
  uint64_t found_index = 0;
  size_t ops_before = 0, sched_before = 0;
  if (pickw >= 0) {
    Shared::Found& f = g_sh->found[pickw];
    found_index = f.index;
    cls = f.cls;
    msg = f.msg;
    if (f.nondet) {
      verdict = "nondeterministic";
      bad = kExitNondet;
    } else {
      make_case(base, f.index, thorough, only, c);
      isolated(c, false, 0, "", &res);
      rt::RunResult r2;
      Case c2 = c;
      isolated(c2, false, 0, "", &r2);
      if (!res.failed || cls != res.cls || r2.hash != res.hash) {
        verdict = "not-reproduced";
        bad = kExitNondet;
      } else {
        verdict = "violation";
        bad = 1;
        ops_before = c.prog.ops.size();
        sched_before = c.sched.size();
        if (!reproduces(c, cls.c_str())) {
          verdict = "not-reproduced";
          bad = kExitNondet;
        } else {
          minimise(c, cls.c_str(), now_s() + min_seconds);
          isolated(c, true, 0, "", &res);
          msg = res.msg;
        }
        if (replay_out) write_replay(replay_out, c, res, nullptr);
      }
    }
  }
  uint64_t runs = 0;
  for (int w = 0; w < nw; ++w) runs += g_sh->runs[w];
  FILE* f = json ? fopen(json, "w") : stdout;
  if (!f) return 3;
  fprintf(f, "{\n \"property\": \"%s\",\n \"verdict\": \"%s\",\n \"runs\": %llu,\n \"wall_s\": %.3f,\n \"workers\": %d,\n", kProperty, verdict, (unsigned long long)runs, wall, nw);
  fprintf(f, " \"steps\": %llu,\n \"switches\": %llu,\n \"simulated_ns\": %llu,\n \"multi_thread_runs\": %llu,\n \"operations\": %llu,\n", (unsigned long long)g_sh->steps,
          (unsigned long long)g_sh->switches, (unsigned long long)g_sh->vtime, (unsigned long long)g_sh->multi, (unsigned long long)g_sh->ops);
  fprintf(f, " \"distinct_interleavings\": %llu,\n \"distinct_executions\": %llu,\n \"abstract_states\": %llu,\n", (unsigned long long)g_interleavings[0],
          (unsigned long long)g_execs[0], (unsigned long long)rt::state_count());
  fprintf(f, " \"same_seed_twice\": %llu,\n \"recorded_schedule_replayed\": %llu,\n \"unordered_internal_accesses\": %llu,\n", (unsigned long long)g_sh->double_checked,
          (unsigned long long)g_sh->replay_checked, (unsigned long long)g_sh->races);
  fprintf(f, " \"faults\": {");
  bool first = true;
  for (int k = 0; k < rt::F_KINDS; ++k)
    if (g_sh->faults[k]) {
      fprintf(f, "%s\"%s\": {\"fired\": %llu, \"in_runs\": %llu}", first ? "" : ", ", rt::kFaultNames[k], (unsigned long long)g_sh->faults[k], (unsigned long long)g_sh->fault_runs[k]);
      first = false;
    }
  fprintf(f, "},\n \"scenarios\": {");
  for (int i = 0; i < kNumScenarios; ++i)
    fprintf(f, "%s\"%s\": %llu", i ? ", " : "", kScenarios[i].name, (unsigned long long)g_sh->scen_runs[i]);
  fprintf(f, "},\n \"probes\": {");
  first = true;
  for (int i = 0; i < kNumScenarios; ++i) {
    int b = probe_base(i), k = 0;
    for (const char* const* p = kScenarios[i].probes; p && *p; ++p, ++k) {
      fprintf(f, "%s\"%s/%s\": %llu", first ? "" : ", ", kScenarios[i].name, *p, (unsigned long long)g_sh->probes[b + k]);
      first = false;
    }
  }
  fprintf(f, "},\n \"components\": {");
  for (int i = 0; i < kNumScenarios; ++i) {
    fprintf(f, "%s\"%s\": ", i ? ", " : "", kScenarios[i].name);
    json_str(f, kScenarios[i].components ? kScenarios[i].components : "");
  }
  fprintf(f, "},\n \"sample_cases\": [");
  // a few real cases of this run, written out
  for (int s = 0; s < 3 && (uint64_t)s < runs; ++s) {
    Case sc;
    make_case(base, (uint64_t)s, thorough, only, sc);
    std::string t = std::string(kScenarios[sc.scen].name) + " seed=" + std::to_string(sc.seed) + " cfg=";
    for (int i = 0; i < kCfg; ++i) t += (i ? "," : "") + std::to_string(sc.prog.cfg[i]);
    t += " ops:";
    int nn = 0;
    while (kScenarios[sc.scen].opnames && kScenarios[sc.scen].opnames[nn]) ++nn;
    for (size_t i = 0; i < sc.prog.ops.size() && i < 24; ++i) {
      auto& o = sc.prog.ops[i];
      t += " T" + std::to_string(o.th) + "." + (o.code >= 0 && o.code < nn ? kScenarios[sc.scen].opnames[o.code] : "?") + "(" + std::to_string(o.a) + "," + std::to_string(o.b) +
           "," + std::to_string(o.c) + ")";
    }
    fprintf(f, "%s", s ? ", " : "");
    json_str(f, t.c_str());
  }
  fprintf(f, "]");
  if (pickw >= 0) {
    fprintf(f, ",\n \"violation\": {\"index\": %llu, \"class\": ", (unsigned long long)found_index);
    json_str(f, cls.c_str());
    fprintf(f, ", \"message\": ");
    json_str(f, msg.c_str());
    if (bad == 1) {
      fprintf(f, ", \"seed\": \"%llu\", \"scenario\": \"%s\", \"ops\": %zu, \"ops_before\": %zu, \"decisions\": %zu, \"decisions_before\": %zu", (unsigned long long)c.seed,
              kScenarios[c.scen].name, c.prog.ops.size(), ops_before, c.sched.size(), sched_before);
    }
    fprintf(f, "}");
  }
  fprintf(f, "\n}\n");
  if (f != stdout) fclose(f);
  return bad;
}

static int cmd_replay(const char* path, bool verbose) {
  Case c;
  std::string cls;
  uint64_t hash;
  if (!read_replay(path, c, cls, hash)) {
    fprintf(stderr, "cannot read replay file %s\n", path);
    return 3;
  }
  rt::RunResult r;
  isolated(c, true, 0, "", &r);
  if (verbose) {
    printf("scenario %s: %s%s%s hash %llx (recorded class %s hash %llx)\n", kScenarios[c.scen].name, r.failed ? r.cls : "no violation", r.failed ? ": " : "",
           r.failed ? r.msg : "", (unsigned long long)r.hash, cls.c_str(), (unsigned long long)hash);
  }
  if (!r.failed) return 0;
  return cls == r.cls && (hash == r.hash || !strcmp(r.cls, "crash") || !strcmp(r.cls, "hang")) ? 1 : 2;
}

int main(int argc, char** argv) {
  std::string cmd = argc > 1 ? argv[1] : "";
  uint64_t seed = 1, max_runs = ~0ull, index = ~0ull;
  double seconds = 10, min_seconds = 60;
  int nw = 8, only = -1;
  bool thorough = false;
  const char* json = nullptr;
  const char* out = nullptr;
  const char* in = nullptr;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = strtoull(val(), nullptr, 10);
    else if (a == "--time") seconds = atof(val());
    else if (a == "--min-time") min_seconds = atof(val());
    else if (a == "--runs") max_runs = strtoull(val(), nullptr, 10);
    else if (a == "--index") index = strtoull(val(), nullptr, 10);
    else if (a == "--workers") nw = atoi(val());
    else if (a == "--thorough") thorough = true;
    else if (a == "--json") json = val();
    else if (a == "--replay-out") out = val();
    else if (a == "--scenario") {
      std::string n = val();
      for (int k = 0; k < kNumScenarios; ++k)
        if (n == kScenarios[k].name) only = k;
      if (only < 0) {
        fprintf(stderr, "no scenario %s\n", n.c_str());
        return 3;
      }
    } else in = argv[i];
  }
  if (nw > 60) nw = 60;
  setvbuf(stdout, nullptr, _IOLBF, 0);
  rt::init();
  install_handlers();
  g_interleavings = rt::shared_table(kDistinctBits);
  g_execs = rt::shared_table(kDistinctBits);
  g_sh = (Shared*)syscall(SYS_mmap, nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  int rc = 3;
  if (cmd == "run") {
    rc = cmd_run(seed, thorough, seconds, max_runs, nw, only, json, out, min_seconds);
  } else if (cmd == "replay" && in) {
    rc = cmd_replay(in, true);
  } else if (cmd == "one") {  // run a single index in this process
    Case c;
    make_case(mix64(seed) ^ str_hash(kProperty), index, thorough, only, c);
    rt::RunResult r;
    run_case(c, false, &r);
    printf("%s %s %s steps %u switches %u hash %llx\n", kScenarios[c.scen].name, r.failed ? r.cls : "ok", r.failed ? r.msg : "", r.steps, r.switches, (unsigned long long)r.hash);
    rc = r.failed;
  } else {
    fprintf(stderr, "usage: run|replay|one ...\n");
  }
  fflush(stdout);
  fflush(stderr);
  _exit(rc);
}
