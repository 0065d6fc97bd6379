// See rt.h. This file is compiled WITHOUT -fsanitize=thread.
#include "rt.h"

#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <exception>
#include <new>
#include <sys/single_threaded.h>

extern "C" {
extern char __data_start[];
extern char _end[];
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_realloc(void*, size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_memalign(size_t, size_t);
void rt_switch(void** save_sp, void* new_sp);
void rt_trampoline(void);
}

namespace rt {

const char* const kFaultNames[F_KINDS] = {
    "preempt",          "stalled_thread",     "spurious_weak_cas", "stack_alloc_failure", "clock_jump_forward",
    "clock_jump_back",  "clock_stall",        "thread_exit",       "throwing_callback",   "kill_or_cancel",
    "drop_or_destroy",  "reentrant_call",     "mprotect_failure",  "memory_reuse"};

static constexpr uintptr_t kStateBase = 0x100000000000ull;
static constexpr uintptr_t kFiberBase = 0x110000000000ull;
static constexpr size_t kFiberStack = 256 * 1024;
static constexpr uintptr_t kArenaBase = 0x200000000000ull;
static constexpr size_t kArenaSize = 512ull << 20;
static constexpr uintptr_t kMemShadowBase = 0x210000000000ull;   // 1 byte / 16
static constexpr uintptr_t kRaceShadowArena = 0x300000000000ull;  // Cell / 8
static constexpr uintptr_t kRaceShadowFiber = 0x3f0000000000ull;
static constexpr uintptr_t kRaceShadowGlobal = 0x3f8000000000ull;

enum : uint8_t { S_NONE = 0, S_FREED = 0xfd, S_GUARD = 0xfa, S_RED = 0xfb };  // 1..16: valid bytes of granule

struct Slot {
  uint32_t clk;
  uint8_t tid;
  uint8_t mask;
  uint8_t flags;  // 1 write, 2 atomic, 4 free
  uint8_t pad;
  uint32_t pc;
};
struct Cell {
  uint32_t gen;
  Slot s[5];
};  // 64 bytes
static_assert(sizeof(Cell) == 64, "cell");

struct Block {
  uintptr_t addr;
  size_t size;
  size_t total;     // granules*16
  uint32_t pc_alloc, pc_free;
  uint8_t state;    // 1 live, 2 freed
  uint8_t kind;     // 0 heap, 1 mmap
  int next_free;    // reuse list
};
enum { kStateBits = 22 };
enum { kMaxBlocks = 1 << 17 };

struct VC {
  uint32_t c[kMaxThreads];
};
struct SyncVar {
  uintptr_t addr;
  uint32_t gen;
  VC rel;
};
enum { kSync = 1 << 13 };

enum FState { FS_UNUSED, FS_RUN, FS_JOIN, FS_BLOCK, FS_DONE };
struct Fiber {
  void* sp;
  char* stack;
  int state;
  int join_tid;
  uintptr_t block_on;
  void (*fn)(void*);
  void* arg;
  uint64_t eh[2];
  char tls[2048];
  VC vc, acqf, relf;
  bool has_relf;
  uint32_t prio;
  uint32_t stall_until;
  uint32_t spin_yields;
  void* key_val[32];
  struct { void (*d)(void*); void* o; } tdtor[32];
  int ntdtor;
};

struct State {
  bool inited;
  bool in_sim;
  int quiet;
  bool failing;
  void* main_sp;
  Fiber f[kMaxThreads];
  int nf;
  int cur;
  // config
  RunConfig cfg;
  RunResult* out;
  Rng sched_rng, fault_rng, urng, junk_rng;
  uint32_t steps;
  int64_t budget;
  uint32_t replay_next;
  uint32_t replay_i;
  bool fair;
  // policy
  int policy;
  uint32_t mean_atomic;  // mean weighted distance between preemptions
  uint32_t low_prio;
  uint32_t change_left;
  bool stall_enabled;
  uint32_t weak_cas_num;  // per 1000
  // recording
  SchedEntry sched[kMaxSched];
  uint32_t nsched;
  FaultEntry faults[kMaxFault];
  uint32_t nfaults;
  uint32_t fault_ops[F_KINDS];
  uint64_t fault_count[F_KINDS];
  uint64_t hash, sync_hash, seq;
  uint32_t switches, races;
  uintptr_t race_pc[2];
  // clock
  int64_t now_ns, clock_step, clock_start;
  // memory
  uintptr_t bump;
  Block blk[kMaxBlocks];
  uint32_t nblk;
  bool reuse;
  int free_head[64];  // size-class reuse lists (by granule count)
  uint64_t live, live_bytes, allocs;
  int fail_big, fail_mprot;
  int sys_fault, sys_fault_tid;  // armed kind or -1 (fired: -2)
  uint32_t guards;
  // hb
  uint32_t gen;
  SyncVar sync[kSync];
  // pthread emulation
  struct { void (*dtor)(void*); bool used; } keys[32];
  int nkeys;
  struct { uintptr_t addr; int st; } once[32];
  int nonce;
  struct { void (*fn)(void*); void* arg; } atexits[64];
  int natexit;
  // probes
  uint64_t probes[kMaxProbe];
  uint64_t* states;  // open-addressing set shared by all workers; [0] is the count
  // environment
  char* tls_addr;
  size_t tls_size;
  const char* tls_init;
  size_t tls_filesz;
  char* snap;
  size_t snap_size;
  bool cfg_small_pages;
};

#define R ((State*)kStateBase)
static int g_mapped = 0;  // set before the data snapshot is taken

static inline bool insim() { return g_mapped && R->in_sim; }

static inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 32);
}

// ------------------------------------------------------------------------------------------------ failure
static void switch_to_main() __attribute__((noreturn));

static void switch_to_main() {
  void* dummy;
  R->in_sim = false;
  rt_switch(&dummy, R->main_sp);
  __builtin_unreachable();
}

void fail(const char* cls, const char* fmt, ...) {
  RunResult* o = R->out;
  R->quiet++;
  if (!R->failing) {
    R->failing = true;
    o->failed = true;
    snprintf(o->cls, sizeof(o->cls), "%s", cls);
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(o->msg, sizeof(o->msg), fmt, ap);
    va_end(ap);
  }
  switch_to_main();
}

// ------------------------------------------------------------------------------------------------ TLS / EH swap
static inline void save_thread_state(Fiber& f) {
  if (R->tls_size) memcpy(f.tls, R->tls_addr, R->tls_size);
  uint64_t* eh = (uint64_t*)__cxxabiv1::__cxa_get_globals();
  f.eh[0] = eh[0];
  f.eh[1] = eh[1];
}
static inline void load_thread_state(Fiber& f) {
  if (R->tls_size) memcpy(R->tls_addr, f.tls, R->tls_size);
  uint64_t* eh = (uint64_t*)__cxxabiv1::__cxa_get_globals();
  eh[0] = f.eh[0];
  eh[1] = f.eh[1];
}

static void do_switch(int to) {
  State* r = R;
  int from = r->cur;
  if (to == from) return;
  r->switches++;
  r->hash = mix(r->hash, ((uint64_t)r->steps << 8) | to);
  save_thread_state(r->f[from]);
  load_thread_state(r->f[to]);
  r->cur = to;
  rt_switch(&r->f[from].sp, r->f[to].sp);
}

// ------------------------------------------------------------------------------------------------ scheduler
static int runnable(int* list, bool with_stalled) {
  int n = 0;
  for (int i = 0; i < R->nf; ++i)
    if (R->f[i].state == FS_RUN && (with_stalled || R->f[i].stall_until <= R->steps)) list[n++] = i;
  if (!n && !with_stalled) return runnable(list, true);
  return n;
}

static void new_budget() {
  State* r = R;
  if (r->cfg.replay) {
    r->budget = INT64_MAX;
    return;
  }
  if (r->policy == 1 && !r->fair) {  // PCT: change points
    if (r->change_left == 0) {
      r->budget = INT64_MAX;
    } else {
      r->change_left--;
      r->budget = 1 + r->sched_rng.below(r->mean_atomic * 2);
    }
    return;
  }
  r->budget = 1 + r->sched_rng.below(2 * (r->fair ? 2000u : r->mean_atomic));
}

static void record(int to) {
  if (R->nsched < kMaxSched) {
    R->sched[R->nsched].step = R->steps;
    R->sched[R->nsched].tid = (uint32_t)to;
    R->nsched++;
  }
}

enum Why { W_PREEMPT, W_YIELD, W_BLOCK };

// what an unguided run does at this decision; only deviations from it are recorded
static int default_choice(Why why) {
  State* r = R;
  if (why == W_PREEMPT) return r->cur;
  for (int k = 1; k <= r->nf; ++k) {
    int t = (r->cur + k) % r->nf;
    if (r->f[t].state == FS_RUN) return t;
  }
  return -1;
}

static int pick(Why why) {
  State* r = R;
  int list[kMaxThreads];
  int n;
  if (r->cfg.replay) {
    n = runnable(list, true);
    if (!n) return -1;
    while (r->replay_i < r->cfg.nsched && r->cfg.sched[r->replay_i].step < r->steps) r->replay_i++;
    int want = -1;
    while (r->replay_i < r->cfg.nsched && r->cfg.sched[r->replay_i].step == r->steps) {
      want = (int)r->cfg.sched[r->replay_i].tid;
      r->replay_i++;
    }
    r->replay_next = r->replay_i < r->cfg.nsched ? r->cfg.sched[r->replay_i].step : UINT32_MAX;
    if (want >= 0 && want < r->nf && r->f[want].state == FS_RUN) return want;
    return default_choice(why);
  }
  if (r->stall_enabled && !r->fair && why != W_BLOCK && r->sched_rng.chance(1, 12)) {
    n = runnable(list, true);
    if (n > 1) {
      int v = list[r->sched_rng.below(n)];
      r->f[v].stall_until = r->steps + 50 + r->sched_rng.below(3000);
      r->fault_count[F_STALL]++;
    }
  }
  n = runnable(list, false);
  if (!n) return -1;
  if (r->policy == 1 && !r->fair) {
    if (why != W_BLOCK && r->f[r->cur].state == FS_RUN) r->f[r->cur].prio = --r->low_prio;
    int best = list[0];
    for (int i = 1; i < n; ++i)
      if (r->f[list[i]].prio > r->f[best].prio) best = list[i];
    return best;
  }
  if (why == W_PREEMPT && n > 1) {  // choose another one
    int k = 0, l2[kMaxThreads];
    for (int i = 0; i < n; ++i)
      if (list[i] != r->cur) l2[k++] = list[i];
    return l2[r->sched_rng.below(k)];
  }
  return list[r->sched_rng.below(n)];
}

static void resched(Why why) {
  State* r = R;
  int to = pick(why);
  if (to < 0) {
    fail("deadlock", "no simulated thread can run (step %u)", r->steps);
  }
  if (!r->cfg.replay) new_budget();
  if (to != default_choice(why)) record(to);
  if (to != r->cur) {
    if (why == W_PREEMPT) r->fault_count[F_PREEMPT]++;
    do_switch(to);
  }
}

static __attribute__((noinline)) void slow_point() {
  State* r = R;
  if (r->steps >= r->cfg.max_steps) {
    fail("no-progress", "run did not finish within %u scheduling points", r->cfg.max_steps);
  }
  if (!r->fair && r->steps >= r->cfg.max_steps - r->cfg.max_steps / 3) {
    r->fair = true;
    new_budget();
  }
  if (r->budget <= 0 || r->steps >= r->replay_next) {
    if (r->nf <= 1) {
      if (!r->cfg.replay) new_budget();
      while (r->replay_i < r->cfg.nsched && r->cfg.replay && r->cfg.sched[r->replay_i].step <= r->steps) r->replay_i++;
      r->replay_next = (r->cfg.replay && r->replay_i < r->cfg.nsched) ? r->cfg.sched[r->replay_i].step : UINT32_MAX;
      return;
    }
    resched(W_PREEMPT);
  }
}

static inline void point(int w) {
  State* r = R;
  r->steps++;
  r->budget -= w;
  if (__builtin_expect(r->budget <= 0 || r->steps >= r->replay_next || (r->steps & 255) == 0, 0)) slow_point();
}

void yield_now() {
  State* r = R;
  if (!insim()) return;
  if (r->quiet) return;
  r->steps++;
  if (r->steps >= r->cfg.max_steps) fail("no-progress", "run did not finish within %u scheduling points", r->cfg.max_steps);
  if (!r->fair && r->steps >= r->cfg.max_steps - r->cfg.max_steps / 3) r->fair = true;
  if (r->nf > 1) resched(W_YIELD);
}

// ------------------------------------------------------------------------------------------------ happens-before
static inline void vc_join(VC& a, const VC& b) {
  for (int i = 0; i < kMaxThreads; ++i)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static SyncVar* sync_get(uintptr_t a, bool create) {
  uint32_t h = (uint32_t)((a >> 2) * 2654435761u) & (kSync - 1);
  for (int k = 0; k < kSync; ++k) {
    SyncVar* s = &R->sync[(h + k) & (kSync - 1)];
    if (s->gen != R->gen) {
      if (!create) return nullptr;
      s->gen = R->gen;
      s->addr = a;
      memset(&s->rel, 0, sizeof(s->rel));
      return s;
    }
    if (s->addr == a) return s;
  }
  return nullptr;
}
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void hb_load(uintptr_t a, int mo) {
  Fiber& f = R->f[R->cur];
  SyncVar* s = sync_get(a, false);
  if (!s) return;
  if (is_acq(mo)) vc_join(f.vc, s->rel); else vc_join(f.acqf, s->rel);
}
static void hb_store(uintptr_t a, int mo, bool rmw) {
  Fiber& f = R->f[R->cur];
  SyncVar* s = sync_get(a, true);
  if (!s) return;
  if (!rmw) memset(&s->rel, 0, sizeof(s->rel));
  if (is_rel(mo)) {
    vc_join(s->rel, f.vc);
    f.vc.c[R->cur]++;
  } else if (f.has_relf) {
    vc_join(s->rel, f.relf);
  }
}
static void hb_fence(int mo) {
  Fiber& f = R->f[R->cur];
  if (is_acq(mo)) vc_join(f.vc, f.acqf);
  if (is_rel(mo)) {
    f.relf = f.vc;
    f.has_relf = true;
    f.vc.c[R->cur]++;
  }
}
// full synchronisation through an object (emulated mutexes, once, joins)
static void hb_acquire_obj(uintptr_t a) {
  SyncVar* s = sync_get(a, false);
  if (s) vc_join(R->f[R->cur].vc, s->rel);
}
static void hb_release_obj(uintptr_t a) {
  SyncVar* s = sync_get(a, true);
  if (s) vc_join(s->rel, R->f[R->cur].vc);
  R->f[R->cur].vc.c[R->cur]++;
}

static Cell* cell_of(uintptr_t a) {
  if (a - kArenaBase < kArenaSize) return (Cell*)kRaceShadowArena + ((a - kArenaBase) >> 3);
  if (a - kFiberBase < kFiberStack * kMaxThreads) return (Cell*)kRaceShadowFiber + ((a - kFiberBase) >> 3);
  uintptr_t g = (uintptr_t)__data_start & ~63ull;
  if (a - g < (uintptr_t)_end - g) return (Cell*)kRaceShadowGlobal + ((a - g) >> 3);
  return nullptr;
}

static const char* addr_kind(uintptr_t a) {
  if (a - kArenaBase < kArenaSize) return "heap";
  if (a - kFiberBase < kFiberStack * kMaxThreads) return "thread stack";
  return "global";
}

static void report_race(uintptr_t a, const Slot& o, uint32_t pc, int flags, const char* what) {
  State* r = R;
  r->races++;
  if (!r->race_pc[0]) {
    r->race_pc[0] = o.pc;
    r->race_pc[1] = pc;
  }
  if (!r->cfg.race_fatal && !what) return;
  fail(what ? "unordered-access" : "data-race", "%s%s by thread %d conflicts with an earlier %s by thread %d without ordering (%s memory) pc=%x earlier-pc=%x",
       what ? what : "", (flags & 4) ? " free" : (flags & 1) ? " write" : " read", r->cur,
       (o.flags & 4) ? "free" : (o.flags & 1) ? "write" : "read", o.tid, addr_kind(a), pc, o.pc);
}

static void race_granule(uintptr_t g, uint8_t mask, int flags, uint32_t pc, const char* what, bool only_touched) {
  Cell* c = cell_of(g);
  if (!c) return;
  State* r = R;
  if (c->gen != r->gen) {
    if (only_touched) return;
    memset(c, 0, sizeof(*c));
    c->gen = r->gen;
  }
  Fiber& f = r->f[r->cur];
  uint32_t myclk = f.vc.c[r->cur];
  int freeslot = -1, same = -1, old = -1;
  for (int i = 0; i < 5; ++i) {
    Slot& s = c->s[i];
    if (!s.mask) {
      if (freeslot < 0) freeslot = i;
      continue;
    }
    bool ordered = s.tid == r->cur || s.clk <= f.vc.c[s.tid];
    if (!ordered) {
      if ((s.mask & mask) && ((s.flags | flags) & 1) && !((s.flags & flags) & 2)) {
        report_race(g, s, pc, flags, what);
      }
    } else {
      if ((s.mask & ~mask) == 0 && ((flags & 1) || !(s.flags & 1)) && (!(s.flags & 2) == !(flags & 2))) same = i;
      else if (old < 0) old = i;
    }
  }
  int k = same >= 0 ? same : freeslot >= 0 ? freeslot : old >= 0 ? old : (int)(r->steps % 5);
  Slot& s = c->s[k];
  s.clk = myclk;
  s.tid = (uint8_t)r->cur;
  s.mask = mask;
  s.flags = (uint8_t)flags;
  s.pc = pc;
}

static inline void race_access(uintptr_t a, size_t n, int flags, uint32_t pc, const char* what = nullptr) {
  while (n) {
    uintptr_t g = a & ~7ull;
    size_t off = a - g;
    size_t take = 8 - off < n ? 8 - off : n;
    uint8_t mask = (uint8_t)((((1u << take) - 1)) << off);
    race_granule(g, mask, flags, pc, what, false);
    a += take;
    n -= take;
  }
}

static inline bool race_on() { return R->nf > 1; }

void user_write(const void* p, size_t n, const char* what) {
  if (!insim() || R->nf < 2) return;
  race_access((uintptr_t)p, n, 1, (uint32_t)(uintptr_t)__builtin_return_address(0), what);
}
void user_read(const void* p, size_t n, const char* what) {
  if (!insim() || R->nf < 2) return;
  race_access((uintptr_t)p, n, 0, (uint32_t)(uintptr_t)__builtin_return_address(0), what);
}

// ------------------------------------------------------------------------------------------------ memory
static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*)kMemShadowBase + ((a - kArenaBase) >> 4); }

static int find_block(uintptr_t a) {
  // last block whose addr <= a (blocks are allocated at increasing addresses)
  int lo = 0, hi = (int)R->nblk - 1, ans = -1;
  while (lo <= hi) {
    int m = (lo + hi) / 2;
    if (R->blk[m].addr <= a) { ans = m; lo = m + 1; } else hi = m - 1;
  }
  return ans;
}

static __attribute__((noinline)) void bad_access(uintptr_t a, size_t n, bool w, uint32_t pc) {
  uint8_t s = *shadow(a);
  int b = find_block(a);
  const char* cls = s == S_FREED ? "use-after-free" : s == S_GUARD ? "guard-page-access" : s == S_RED ? "heap-overflow" : "wild-access";
  if (b >= 0) {
    Block& k = R->blk[b];
    fail(cls, "%s of %zu bytes at offset %lld of a block of %zu bytes (allocated at pc %x, freed at pc %x) pc=%x", w ? "write" : "read", n,
         (long long)(a - k.addr), k.size, k.pc_alloc, k.pc_free, pc);
  }
  fail(cls, "%s of %zu bytes at %p pc=%x", w ? "write" : "read", n, (void*)a, pc);
}

static inline void check_mem(uintptr_t a, size_t n, bool w, uint32_t pc) {
  if (a - kArenaBase >= kArenaSize) return;
  uint8_t s = *shadow(a);
  if (__builtin_expect(s >= 0x80 || s == 0, 0)) bad_access(a, n, w, pc);
  uintptr_t e = a + n - 1;
  uint8_t t = *shadow(e);
  if (__builtin_expect(t >= 0x80 || t == 0 || (t < 16 && (e & 15) >= t), 0)) bad_access(e, n, w, pc);
}

static size_t class_of(size_t gran) { return gran < 63 ? gran : 63; }

static void* arena_alloc(size_t size, size_t align, int kind, uint32_t pc) {
  State* r = R;
  if (align < 16) align = 16;
  size_t gran = (size + 15) / 16;
  if (!gran) gran = 1;
  r->allocs++;
  if (r->reuse && align <= 16 && kind == 0) {
    int* h = &r->free_head[class_of(gran)];
    int prev = -1;
    for (int i = *h, k = 0; i >= 0 && k < 8; prev = i, i = r->blk[i].next_free, ++k) {
      Block& b = r->blk[i];
      if (b.total == gran * 16) {
        if (prev < 0) *h = b.next_free; else r->blk[prev].next_free = b.next_free;
        b.state = 1;
        b.size = size;
        b.pc_alloc = pc;
        b.pc_free = 0;
        memset(shadow(b.addr), 16, gran);
        if (size & 15) *shadow(b.addr + size) = (uint8_t)(size & 15);
        if (size == 0) *shadow(b.addr) = S_RED;
        // forget access history of the previous owner
        Cell* c = cell_of(b.addr);
        for (size_t g = 0; g < gran * 2; ++g) c[g].gen = 0;
        memset((void*)b.addr, 0xa5, size);
        r->live++;
        r->live_bytes += size;
        r->fault_count[F_MEM_REUSE]++;
        return (void*)b.addr;
      }
    }
  }
  if (r->nblk >= kMaxBlocks) fail("harness-limit", "too many allocations in one run");
  uintptr_t a = r->bump + 32 + 16 * r->junk_rng.below(3);
  a = (a + align - 1) & ~(align - 1);
  if (kind == 1) a = (a + 4095) & ~4095ull;
  uintptr_t e = a + gran * 16;
  if (e + 4096 > kArenaBase + kArenaSize) fail("harness-limit", "simulated heap exhausted");
  r->bump = e;
  Block& b = r->blk[r->nblk];
  b.addr = a;
  b.size = size;
  b.total = gran * 16;
  b.pc_alloc = pc;
  b.pc_free = 0;
  b.state = 1;
  b.kind = (uint8_t)kind;
  b.next_free = -1;
  *(uint32_t*)(a - 16) = 0xb10cb10c;
  *(uint32_t*)(a - 12) = r->nblk;
  r->nblk++;
  memset(shadow(a - 16), S_RED, 1);
  memset(shadow(a), 16, gran);
  if (size & 15) *shadow(a + size) = (uint8_t)(size & 15);
  if (size == 0) *shadow(a) = S_RED;
  *shadow(e) = S_RED;
  if (kind == 1) memset((void*)a, 0, size); else memset((void*)a, 0xa5, size);
  r->live++;
  r->live_bytes += size;
  return (void*)a;
}

static void arena_free(void* p, uint32_t pc, int kind, size_t size) {
  State* r = R;
  uintptr_t a = (uintptr_t)p;
  int bi = find_block(a);
  if (bi < 0 || r->blk[bi].addr != a) {
    if (r->failing || !r->in_sim) return;
    fail("bad-free", "release of %p, which is not the start of an allocation (pc %x)", p, pc);
  }
  Block& b = r->blk[bi];
  if (b.state != 1) {
    if (r->failing || !r->in_sim) return;
    fail("double-free", "block of %zu bytes allocated at pc %x released at pc %x and again at pc %x", b.size, b.pc_alloc, b.pc_free, pc);
  }
  if (b.kind != kind || (kind == 1 && size != b.size)) {
    if (r->failing || !r->in_sim) return;
    fail("bad-free", "block of %zu bytes (kind %d) released as %zu bytes (kind %d) pc=%x", b.size, b.kind, size, kind, pc);
  }
  if (r->in_sim && race_on() && !r->quiet) {
    for (uintptr_t g = a; g < a + b.size; g += 8) race_granule(g, 0xff, 1 | 4, pc, nullptr, true);
  }
  if (kind == 1) {
    for (size_t i = 0; i < b.total / 16; i += 256)
      if (*shadow(a + i * 16) == S_GUARD) r->guards--;
  }
  b.state = 2;
  b.pc_free = pc;
  memset(shadow(a), S_FREED, b.total / 16);
  memset((void*)a, 0xdb, b.size < 4096 ? b.size : 4096);
  r->live--;
  r->live_bytes -= b.size;
  if (r->reuse && kind == 0) {
    size_t c = class_of(b.total / 16);
    b.next_free = r->free_head[c];
    r->free_head[c] = bi;
  }
}

MemStat mem_stat() { return MemStat{R->live, R->live_bytes, R->allocs}; }
uint64_t alloc_mark() { return R->nblk; }
uint64_t live_blocks_since(uint64_t mark, char* desc, size_t n) {
  uint64_t c = 0;
  if (desc && n) desc[0] = 0;
  size_t off = 0;
  for (uint64_t i = mark; i < R->nblk; ++i)
    if (R->blk[i].state == 1) {
      c++;
      if (desc && off + 48 < n) off += (size_t)snprintf(desc + off, n - off, " [%zu bytes, alloc pc %x]", R->blk[i].size, R->blk[i].pc_alloc);
    }
  return c;
}
bool is_live(const void* p) {
  uintptr_t a = (uintptr_t)p;
  if (a - kArenaBase >= kArenaSize) return true;
  uint8_t s = *shadow(a);
  return s && s <= 16;
}
bool is_guard(const void* p) {
  uintptr_t a = (uintptr_t)p;
  if (a - kArenaBase >= kArenaSize) return false;
  return *shadow(a) == S_GUARD;
}
bool is_accessible(const void* p, size_t n) {
  uintptr_t a = (uintptr_t)p;
  for (uintptr_t g = a & ~15ull; g < a + n; g += 16)
    if (!is_live((void*)g)) return false;
  return true;
}
uint32_t guard_pages() { return R->guards; }
void fail_big_alloc_after(int n) { R->fail_big = n; }
void fail_mprotect_after(int n) { R->fail_mprot = n; }

void arm_sys_fault(int kind) {
  R->sys_fault = kind;
  R->sys_fault_tid = R->cur;
}
bool disarm_sys_fault() {
  bool hit = R->sys_fault == -2;
  R->sys_fault = -1;
  return hit;
}
static bool sys_fault_hits(int kind) {
  State* r = R;
  if (r->sys_fault != kind || r->sys_fault_tid != r->cur) return false;
  r->sys_fault = -2;
  return true;
}

static bool big_alloc_fails(size_t size) {
  State* r = R;
  if (size > (1ull << 40)) return true;   // more than any machine has
  if (size >= 4096 && sys_fault_hits(F_ALLOC_FAIL)) return true;
  if (size < 4096 || r->fail_big < 0 || r->quiet) return false;
  if (r->fail_big-- == 0) {
    r->fault_count[F_ALLOC_FAIL]++;
    return true;
  }
  return false;
}

// ------------------------------------------------------------------------------------------------ misc API
bool in_sim() { return insim(); }
int self() { return R->cur; }
static const bool g_trace = getenv("SIM_TRACE") != nullptr;  // prints the history of a replay
void event(uint64_t a, uint64_t b, uint64_t c) {
  if (!insim()) return;
  R->seq++;
  R->hash = mix(mix(mix(mix(R->hash, R->cur), a), b), c);
  if (g_trace) fprintf(stderr, "t%u event %llu %llu %llu\n", R->cur, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
}
uint64_t seq() { return ++R->seq; }
void probe(int id) { if (id >= 0 && id < kMaxProbe) R->probes[id]++; }
void count_fault(int k) { R->fault_count[k]++; }
Rng& user_rng() { return R->urng; }
static uint64_t set_insert(uint64_t* t, uint32_t bits, uint64_t h) {
  if (!h) h = 1;
  uint64_t mask = (1ull << bits) - 1;
  uint64_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - bits);
  for (int k = 0; k < 256; ++k, ++i) {
    i &= mask;
    if (i == 0) continue;
    uint64_t v = __atomic_load_n(&t[i], __ATOMIC_RELAXED);
    if (v == h) return 0;
    if (!v) {
      if (__atomic_compare_exchange_n(&t[i], &v, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
        __atomic_fetch_add(&t[0], 1, __ATOMIC_RELAXED);
        return 1;
      }
      if (v == h) return 0;
    }
  }
  return 0;
}
void state_mark(uint64_t h) { set_insert(R->states, kStateBits, h); }
uint64_t distinct_insert(uint64_t* table, uint32_t bits, uint64_t h) { return set_insert(table, bits, h); }
uint64_t state_count() { return R->states[0]; }
bool fault_decide(int kind, uint32_t num, uint32_t den) {
  State* r = R;
  uint32_t at = r->fault_ops[kind]++;
  bool fire = false;
  if (r->cfg.replay) {
    for (uint32_t i = 0; i < r->cfg.nfaults; ++i)
      if (r->cfg.faults[i].kind == (uint32_t)kind && r->cfg.faults[i].at == at) fire = true;
  } else {
    fire = r->fault_rng.chance(num, den);
  }
  if (fire) {
    if (r->nfaults < kMaxFault) {
      r->faults[r->nfaults].kind = (uint32_t)kind;
      r->faults[r->nfaults].at = at;
      r->nfaults++;
    }
    r->fault_count[kind]++;
  }
  return fire;
}
int64_t clock_now_ns() { return R->now_ns; }
void clock_set_ns(int64_t ns) { R->now_ns = ns; }
void clock_step_on_read(int64_t ns) { R->clock_step = ns; }
Quiet::Quiet() { if (insim()) R->quiet++; }
Quiet::~Quiet() { if (insim()) R->quiet--; }

// ------------------------------------------------------------------------------------------------ fibers
static void run_thread_exit(int tid) {
  State* r = R;
  Fiber& f = r->f[tid];
  while (f.ntdtor > 0) {
    f.ntdtor--;
    f.tdtor[f.ntdtor].d(f.tdtor[f.ntdtor].o);
  }
  if (tid != 0) {
    for (int round = 0; round < 4; ++round) {
      bool any = false;
      for (int k = 0; k < r->nkeys; ++k) {
        void* v = f.key_val[k];
        if (v && r->keys[k].used && r->keys[k].dtor) {
          f.key_val[k] = nullptr;
          r->keys[k].dtor(v);
          any = true;
        }
      }
      if (!any) break;
    }
  } else {
    while (r->natexit > 0) {
      r->natexit--;
      r->atexits[r->natexit].fn(r->atexits[r->natexit].arg);
    }
  }
}

}  // namespace rt

using namespace rt;

extern "C" void rt_fiber_main(int tid) {
  State* r = R;
  Fiber& f = r->f[tid];
  try {
    f.fn(f.arg);
    run_thread_exit(tid);
  } catch (const std::exception& e) {
    fail("uncaught-exception", "exception escaped a simulated thread: %s", e.what());
  } catch (...) {
    fail("uncaught-exception", "exception escaped a simulated thread");
  }
  if (tid == 0) {
    switch_to_main();
  }
  // everything this thread did happens before whoever joins it
  hb_release_obj((uintptr_t)&f);
  f.state = FS_DONE;
  for (int i = 0; i < r->nf; ++i)
    if (r->f[i].state == FS_JOIN && r->f[i].join_tid == tid) r->f[i].state = FS_RUN;
  r->steps++;
  resched(W_BLOCK);
  __builtin_trap();
}

namespace rt {

static void fiber_setup(int tid, void (*fn)(void*), void* arg) {
  State* r = R;
  Fiber& f = r->f[tid];
  char* st = (char*)kFiberBase + kFiberStack * tid;
  memset(&f, 0, sizeof(f));
  f.stack = st;
  f.state = FS_RUN;
  f.fn = fn;
  f.arg = arg;
  f.join_tid = -1;
  memset(f.tls, 0, sizeof(f.tls));
  if (r->tls_filesz) memcpy(f.tls, r->tls_init, r->tls_filesz);
  f.prio = 1000000 + r->sched_rng.below(1000000);
  memset(st + kFiberStack - 32768, 0xc3, 32768);
  uintptr_t top = (uintptr_t)st + kFiberStack - 64;
  top &= ~15ull;
  uint64_t* sp = (uint64_t*)top;
  *--sp = 0;                       // alignment / terminator
  *--sp = 0;
  *--sp = (uint64_t)&rt_trampoline;  // return address of rt_switch
  *--sp = 0;                       // rbp
  *--sp = 0;                       // rbx
  *--sp = (uint64_t)tid;           // r12
  *--sp = 0;
  *--sp = 0;
  *--sp = 0;
  uint32_t mx = 0x1f80, cw = 0x37f;
  *--sp = ((uint64_t)cw << 32) | mx;
  f.sp = sp;
}

int spawn(void (*fn)(void*), void* arg) {
  State* r = R;
  if (r->nf >= kMaxThreads) fail("harness-limit", "too many simulated threads");
  int tid = r->nf++;
  fiber_setup(tid, fn, arg);
  Fiber& me = r->f[r->cur];
  r->f[tid].vc = me.vc;
  r->f[tid].vc.c[tid] = 1;
  me.vc.c[r->cur]++;
  if (!r->cfg.replay && tid == 1) new_budget();
  return tid;
}
bool finished(int tid) { return R->f[tid].state == FS_DONE; }
void join(int tid) {
  State* r = R;
  if (r->f[tid].state != FS_DONE) {
    Fiber& me = r->f[r->cur];
    me.state = FS_JOIN;
    me.join_tid = tid;
    r->steps++;
    resched(W_BLOCK);
  }
  hb_acquire_obj((uintptr_t)&r->f[tid]);
}

// emulated blocking on an address (mutexes, static-init guards)
static void block_on(uintptr_t a) {
  State* r = R;
  Fiber& me = r->f[r->cur];
  me.state = FS_BLOCK;
  me.block_on = a;
  r->steps++;
  resched(W_BLOCK);
}
static void wake(uintptr_t a) {
  for (int i = 0; i < R->nf; ++i)
    if (R->f[i].state == FS_BLOCK && R->f[i].block_on == a) R->f[i].state = FS_RUN;
}

// ------------------------------------------------------------------------------------------------ run
static int tls_cb(struct dl_phdr_info* info, size_t, void*) {
  if (info->dlpi_name && info->dlpi_name[0]) return 0;
  for (int i = 0; i < info->dlpi_phnum; ++i)
    if (info->dlpi_phdr[i].p_type == PT_TLS) {
      R->tls_addr = (char*)info->dlpi_tls_data;
      R->tls_size = info->dlpi_phdr[i].p_memsz;
      R->tls_filesz = info->dlpi_phdr[i].p_filesz;
      R->tls_init = (const char*)(info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
    }
  return 1;
}

static void* reserve(uintptr_t base, size_t n) {
  void* p = (void*)syscall(SYS_mmap, (void*)base, n, PROT_READ | PROT_WRITE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void*)base) {
    fprintf(stderr, "rt: cannot reserve %p\n", (void*)base);
    _exit(3);
  }
  return p;
}

uint64_t* shared_table(uint32_t bits) {
  void* p = (void*)syscall(SYS_mmap, nullptr, sizeof(uint64_t) << bits, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    fprintf(stderr, "rt: cannot map shared table\n");
    _exit(3);
  }
  return (uint64_t*)p;
}

void init() {
  __libc_single_threaded = 0;  // reference counts must take their atomic path
  reserve(kStateBase, (sizeof(State) + 8191) & ~4095ull);
  reserve(kFiberBase, kFiberStack * kMaxThreads);
  reserve(kArenaBase, kArenaSize);
  reserve(kMemShadowBase, kArenaSize / 16);
  reserve(kRaceShadowArena, kArenaSize / 8 * sizeof(Cell));
  reserve(kRaceShadowFiber, kFiberStack * kMaxThreads / 8 * sizeof(Cell));
  size_t gsz = (uintptr_t)_end - ((uintptr_t)__data_start & ~63ull) + 64;
  reserve(kRaceShadowGlobal, (gsz / 8 * sizeof(Cell) + 8191) & ~4095ull);
  State* r = R;
  r->bump = kArenaBase + 4096;
  r->gen = 0;
  r->states = (uint64_t*)shared_table(kStateBits);
  for (int i = 0; i < kMaxThreads; ++i) syscall(SYS_mprotect, (void*)(kFiberBase + kFiberStack * i), 4096, PROT_NONE);
  dl_iterate_phdr(tls_cb, nullptr);
  if (r->tls_size > sizeof(r->f[0].tls)) {
    fprintf(stderr, "rt: thread-local block too large\n");
    _exit(3);
  }
  r->snap_size = (uintptr_t)_end - (uintptr_t)__data_start;
  r->snap = (char*)reserve(0x150000000000ull, (r->snap_size + 4095) & ~4095ull);
  g_mapped = 1;
  r->inited = true;
}

void execute(const RunConfig& cfg, void (*entry)(void*), void* arg, RunResult* out) {
  State* r = R;
  memcpy(r->snap, __data_start, r->snap_size);
  char tls_backup[2048];
  if (r->tls_size) memcpy(tls_backup, r->tls_addr, r->tls_size);
  memset(out, 0, sizeof(*out));
  // reset memory
  memset((void*)kMemShadowBase, 0, (r->bump - kArenaBase) / 16 + 512);
  r->bump = kArenaBase + 4096;
  r->nblk = 0;
  r->live = r->live_bytes = r->allocs = 0;
  r->guards = 0;
  r->fail_big = r->fail_mprot = r->sys_fault = -1;
  for (int i = 0; i < 64; ++i) r->free_head[i] = -1;
  r->gen++;
  r->cfg = cfg;
  r->out = out;
  r->sched_rng = Rng(cfg.seed * 3 + 1);
  r->fault_rng = Rng(cfg.seed * 5 + 2);
  r->urng = Rng(cfg.seed * 7 + 3);
  r->junk_rng = Rng(cfg.seed * 11 + 4);
  Rng pr(cfg.seed * 13 + 5);
  r->reuse = cfg.ctl_reuse && pr.chance(1, 4);
  r->policy = (int)pr.below(4);  // 0,2: random walk; 1,3 -> PCT / stalls
  static const uint32_t kMean[] = {12, 30, 80, 200, 600, 2000, 6000};
  r->mean_atomic = kMean[pr.below(7)];
  r->change_left = 1 + pr.below(6);
  r->stall_enabled = r->policy != 1 && pr.chance(1, 2);
  if (r->policy == 1) r->mean_atomic = kMean[1 + pr.below(6)] * 2;
  r->weak_cas_num = pr.chance(1, 2) ? pr.below(200) : 0;
  if (cfg.policy != 0xffffffffu) r->policy = (int)cfg.policy;
  r->low_prio = 1000000;
  r->steps = 0;
  r->fair = false;
  r->failing = false;
  r->quiet = 0;
  r->nsched = r->nfaults = 0;
  memset(r->fault_ops, 0, sizeof(r->fault_ops));
  memset(r->fault_count, 0, sizeof(r->fault_count));
  r->hash = r->sync_hash = 0x1234567;
  r->seq = 0;
  r->switches = r->races = 0;
  r->race_pc[0] = r->race_pc[1] = 0;
  r->now_ns = r->clock_start = 1700000000ll * 1000000000ll;
  r->clock_step = 0;
  r->nkeys = r->nonce = r->natexit = 0;
  r->replay_i = 0;
  r->replay_next = cfg.replay && cfg.nsched ? cfg.sched[0].step : UINT32_MAX;
  r->nf = 1;
  r->cur = 0;
  new_budget();
  fiber_setup(0, entry, arg);
  r->f[0].vc.c[0] = 1;
  uint64_t* eh = (uint64_t*)__cxxabiv1::__cxa_get_globals();
  uint64_t eh0 = eh[0], eh1 = eh[1];
  load_thread_state(r->f[0]);
  r->in_sim = true;
  rt_switch(&r->main_sp, r->f[0].sp);
  r->in_sim = false;
  eh = (uint64_t*)__cxxabiv1::__cxa_get_globals();
  eh[0] = eh0;
  eh[1] = eh1;
  out->hash = mix(mix(r->hash, r->steps), out->failed);
  if (out->failed) for (const char* c = out->cls; *c; ++c) out->hash = mix(out->hash, (uint8_t)*c);
  out->sync_hash = r->sync_hash;
  out->steps = r->steps;
  out->nsched = r->nsched;
  out->nfaults = r->nfaults;
  memcpy(out->fault_count, r->fault_count, sizeof(r->fault_count));
  out->vtime_ns = (uint64_t)(r->now_ns - r->clock_start);
  out->switches = r->switches;
  out->races = r->races;
  out->race_pc[0] = r->race_pc[0];
  out->race_pc[1] = r->race_pc[1];
  out->nthreads = (uint32_t)r->nf;
  memcpy(__data_start, r->snap, r->snap_size);
  if (r->tls_size) memcpy(r->tls_addr, tls_backup, r->tls_size);
}
const SchedEntry* recorded_sched() { return R->sched; }
const FaultEntry* recorded_faults() { return R->faults; }
uint64_t probe_count(int i) { return R->probes[i]; }

static inline void access(void* a, size_t n, bool w, void* pc) {
  if (!insim() || R->quiet) return;
  point(1);
  check_mem((uintptr_t)a, n, w, (uint32_t)(uintptr_t)pc);
  if (race_on()) race_access((uintptr_t)a, n, w ? 1 : 0, (uint32_t)(uintptr_t)pc);
}
static void access_range(void* a, size_t n, bool w, void* pc) {
  if (!n || !insim() || R->quiet) return;
  point(1);
  uintptr_t p = (uintptr_t)a;
  check_mem(p, 1, w, (uint32_t)(uintptr_t)pc);
  check_mem(p + n - 1, 1, w, (uint32_t)(uintptr_t)pc);
  if (race_on()) race_access(p, n < 4096 ? n : 4096, w ? 1 : 0, (uint32_t)(uintptr_t)pc);
}
static inline bool atomic_pre(volatile void* a, size_t n, bool w, void* pc) {
  if (!insim() || R->quiet) return false;
  point(24);
  check_mem((uintptr_t)a, n, w, (uint32_t)(uintptr_t)pc);
  if (R->nf > 1) {
    R->sync_hash = mix(mix(R->sync_hash, R->cur), (uint32_t)(uintptr_t)pc);
    race_access((uintptr_t)a, n, (w ? 1 : 0) | 2, (uint32_t)(uintptr_t)pc);
  }
  return true;
}

}  // namespace rt

// ------------------------------------------------------------------------------------------------ __tsan_* entry points
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                 \
  void __tsan_read##N(void* a) { rt::access(a, N, false, RA); }               \
  void __tsan_write##N(void* a) { rt::access(a, N, true, RA); }               \
  void __tsan_read_write##N(void* a) { rt::access(a, N, true, RA); }          \
  void __tsan_volatile_read##N(void* a) { rt::access(a, N, false, RA); }      \
  void __tsan_volatile_write##N(void* a) { rt::access(a, N, true, RA); }      \
  void __tsan_unaligned_read##N(void* a) { rt::access(a, N, false, RA); }     \
  void __tsan_unaligned_write##N(void* a) { rt::access(a, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { rt::access_range(a, n, false, RA); }
void __tsan_write_range(void* a, size_t n) { rt::access_range(a, n, true, RA); }
void __tsan_vptr_update(void** p, void* v) {
  if (*p != v) rt::access(p, 8, true, RA); else rt::access(p, 8, false, RA);
}
void __tsan_vptr_read(void** p) { rt::access(p, 8, false, RA); }
void* __tsan_memcpy(void* d, const void* s, size_t n) {
  rt::access_range(d, n, true, RA);
  rt::access_range((void*)s, n, false, RA);
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n) {
  rt::access_range(d, n, true, RA);
  rt::access_range((void*)s, n, false, RA);
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n) {
  rt::access_range(d, n, true, RA);
  return memset(d, c, n);
}

#define ATOMICS(B, T)                                                                                           \
  T __tsan_atomic##B##_load(const volatile T* a, int mo) {                                                      \
    bool s = rt::atomic_pre((volatile void*)a, sizeof(T), false, RA);                                           \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                 \
    if (s) rt::hb_load((uintptr_t)a, mo);                                                                       \
    return v;                                                                                                   \
  }                                                                                                             \
  void __tsan_atomic##B##_store(volatile T* a, T v, int mo) {                                                   \
    bool s = rt::atomic_pre((volatile void*)a, sizeof(T), true, RA);                                            \
    if (s) rt::hb_store((uintptr_t)a, mo, false);                                                               \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                                   \
  }                                                                                                             \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int mo) {                                                   \
    bool s = rt::atomic_pre((volatile void*)a, sizeof(T), true, RA);                                            \
    if (s) { rt::hb_load((uintptr_t)a, mo); rt::hb_store((uintptr_t)a, mo, true); }                             \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                         \
  }                                                                                                             \
  static inline bool cas##B(volatile T* a, T* e, T v, int mo, int fmo, bool weak, void* ra) {                   \
    bool s = rt::atomic_pre((volatile void*)a, sizeof(T), true, ra);                                            \
    if (s && weak && R->weak_cas_num + R->cfg.replay && rt::fault_decide(rt::F_WEAK_CAS, R->weak_cas_num, 1000)) { \
      *e = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                                \
      rt::hb_load((uintptr_t)a, fmo);                                                                           \
      return false;                                                                                             \
    }                                                                                                           \
    bool ok = __atomic_compare_exchange_n(a, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);                  \
    if (s) {                                                                                                    \
      if (ok) { rt::hb_load((uintptr_t)a, mo); rt::hb_store((uintptr_t)a, mo, true); }                          \
      else rt::hb_load((uintptr_t)a, fmo);                                                                      \
    }                                                                                                           \
    return ok;                                                                                                  \
  }                                                                                                             \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) {                   \
    return cas##B(a, e, v, mo, fmo, false, RA);                                                                 \
  }                                                                                                             \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) {                     \
    return cas##B(a, e, v, mo, fmo, true, RA);                                                                  \
  }                                                                                                             \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) {                         \
    T x = e;                                                                                                    \
    cas##B(a, &x, v, mo, fmo, false, RA);                                                                       \
    return x;                                                                                                   \
  }                                                                                                             \
  RMW(B, T, add) RMW(B, T, sub) RMW(B, T, and) RMW(B, T, or) RMW(B, T, xor) RMW(B, T, nand)
#define RMW(B, T, op)                                                                                           \
  T __tsan_atomic##B##_fetch_##op(volatile T* a, T v, int mo) {                                                 \
    bool s = rt::atomic_pre((volatile void*)a, sizeof(T), true, RA);                                            \
    if (s) { rt::hb_load((uintptr_t)a, mo); rt::hb_store((uintptr_t)a, mo, true); }                             \
    return __atomic_fetch_##op(a, v, __ATOMIC_SEQ_CST);                                                         \
  }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) {
  if (insim() && !R->quiet) {
    rt::point(4);
    rt::hb_fence(mo);
  }
}
void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------------------ libc seams
static uint32_t rapc(void* p) { return (uint32_t)(uintptr_t)p; }

void* malloc(size_t n) {
  if (!insim()) return __libc_malloc(n);
  if (rt::big_alloc_fails(n)) { errno = ENOMEM; return nullptr; }
  return rt::arena_alloc(n, 16, 0, rapc(RA));
}
void free(void* p) {
  if (!p) return;
  if ((uintptr_t)p - kArenaBase < kArenaSize) {
    if (insim()) rt::arena_free(p, rapc(RA), 0, 0);
    return;
  }
  __libc_free(p);
}
void* calloc(size_t a, size_t b) {
  if (!insim()) return __libc_calloc(a, b);
  size_t n = a * b;
  if (rt::big_alloc_fails(n)) { errno = ENOMEM; return nullptr; }
  void* p = rt::arena_alloc(n, 16, 0, rapc(RA));
  memset(p, 0, n);
  return p;
}
void* realloc(void* p, size_t n) {
  if (p && (uintptr_t)p - kArenaBase < kArenaSize) {
    void* q = malloc(n);
    int b = rt::find_block((uintptr_t)p);
    size_t old = b >= 0 ? R->blk[b].size : 0;
    if (q) memcpy(q, p, old < n ? old : n);
    free(p);
    return q;
  }
  if (insim() && !p) return malloc(n);
  return __libc_realloc(p, n);
}
void* memalign(size_t al, size_t n) {
  if (!insim()) return __libc_memalign(al, n);
  return rt::arena_alloc(n, al, 0, rapc(RA));
}
void* aligned_alloc(size_t al, size_t n) {
  if (!insim()) return __libc_memalign(al, n);
  return rt::arena_alloc(n, al, 0, rapc(RA));
}
int posix_memalign(void** out, size_t al, size_t n) {
  if (!insim()) { *out = __libc_memalign(al, n); return *out ? 0 : ENOMEM; }
  if (rt::big_alloc_fails(n)) return ENOMEM;
  *out = rt::arena_alloc(n, al, 0, rapc(RA));
  return 0;
}
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (!insim() || fd != -1) return (void*)syscall(SYS_mmap, a, n, prot, flags, fd, off);
  if (n == 0) { errno = EINVAL; return MAP_FAILED; }
  if (rt::big_alloc_fails(n)) { errno = ENOMEM; return MAP_FAILED; }
  return rt::arena_alloc((n + 4095) & ~4095ull, 4096, 1, rapc(RA));
}
int munmap(void* a, size_t n) {
  if ((uintptr_t)a - kArenaBase < kArenaSize) {
    if (insim()) rt::arena_free(a, rapc(RA), 1, (n + 4095) & ~4095ull);
    return 0;
  }
  return (int)syscall(SYS_munmap, a, n);
}
int mprotect(void* a, size_t n, int prot) noexcept {
  if ((uintptr_t)a - kArenaBase < kArenaSize && insim()) {
    State* r = R;
    if (rt::sys_fault_hits(F_PROTECT_FAIL)) {
      r->fault_count[F_PROTECT_FAIL]++;
      errno = ENOMEM;
      return -1;
    }
    if (r->fail_mprot >= 0 && r->fail_mprot-- == 0) {
      r->fault_count[F_PROTECT_FAIL]++;
      errno = ENOMEM;
      return -1;
    }
    for (uintptr_t p = (uintptr_t)a; p < (uintptr_t)a + n; p += 4096) {
      uint8_t* s = rt::shadow(p);
      if (*s == S_FREED || *s == 0) fail("bad-mprotect", "mprotect of memory that is not mapped");
      if (prot == PROT_NONE && *s != S_GUARD) r->guards++;
      if (prot != PROT_NONE && *s == S_GUARD) r->guards--;
      memset(s, prot == PROT_NONE ? S_GUARD : 16, 256);
    }
    return 0;
  }
  return (int)syscall(SYS_mprotect, a, n, prot);
}
long sysconf(int name) noexcept {
  static long (*real)(int) = nullptr;
  if (g_mapped && R->in_sim) {
    if (name == _SC_PAGESIZE) return 4096;
#ifdef _SC_SIGSTKSZ
    if (name == _SC_SIGSTKSZ || name == _SC_MINSIGSTKSZ) return 8192;
#endif
  }
  if (!real) real = (long (*)(int))dlsym(RTLD_NEXT, "sysconf");
  return real(name);
}
int getrlimit(__rlimit_resource_t res, struct rlimit* l) noexcept {
  if (insim() && res == RLIMIT_STACK) {
    l->rlim_cur = 8u << 20;
    l->rlim_max = RLIM_INFINITY;
    return 0;
  }
  return (int)syscall(SYS_getrlimit, (int)res, l);
}
static int64_t read_clock() {
  State* r = R;
  r->now_ns += r->clock_step;
  return r->now_ns;
}
time_t time(time_t* t) noexcept {
  time_t v;
  if (insim()) {
    v = (time_t)(read_clock() / 1000000000ll);
    if (!R->quiet) rt::point(8);
  } else {
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    v = ts.tv_sec;
  }
  if (t) *t = v;
  return v;
}
int clock_gettime(clockid_t c, struct timespec* ts) noexcept {
  if (insim()) {
    int64_t v = read_clock();
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    return 0;
  }
  return (int)syscall(SYS_clock_gettime, c, ts);
}
int sched_yield() noexcept {
  if (insim()) { rt::yield_now(); return 0; }
  return (int)syscall(SYS_sched_yield);
}
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (insim()) {
    R->now_ns += a->tv_sec * 1000000000ll + a->tv_nsec;
    rt::yield_now();
    return 0;
  }
  return (int)syscall(SYS_nanosleep, a, b);
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* a, struct timespec* b) {
  if (insim()) {
    if (fl == 0) R->now_ns += a->tv_sec * 1000000000ll + a->tv_nsec;
    rt::yield_now();
    return 0;
  }
  return (int)syscall(SYS_clock_nanosleep, c, fl, a, b);
}

// ---- pthread
enum { kKeyBase = 5000 };
int pthread_key_create(pthread_key_t* k, void (*d)(void*)) noexcept {
  static int (*real)(pthread_key_t*, void (*)(void*)) = nullptr;
  if (insim()) {
    State* r = R;
    if (r->nkeys >= 32) return EAGAIN;
    r->keys[r->nkeys].dtor = d;
    r->keys[r->nkeys].used = true;
    *k = (pthread_key_t)(kKeyBase + r->nkeys++);
    return 0;
  }
  if (!real) real = (int (*)(pthread_key_t*, void (*)(void*)))dlsym(RTLD_NEXT, "pthread_key_create");
  return real(k, d);
}
int pthread_key_delete(pthread_key_t k) noexcept {
  if (k >= kKeyBase) { R->keys[k - kKeyBase].used = false; return 0; }
  static int (*real)(pthread_key_t) = nullptr;
  if (!real) real = (int (*)(pthread_key_t))dlsym(RTLD_NEXT, "pthread_key_delete");
  return real(k);
}
int pthread_setspecific(pthread_key_t k, const void* v) noexcept {
  if (insim()) {
    if (k < kKeyBase || k >= kKeyBase + (unsigned)R->nkeys) {
      return EINVAL;
    }
    R->f[R->cur].key_val[k - kKeyBase] = (void*)v;
    return 0;
  }
  static int (*real)(pthread_key_t, const void*) = nullptr;
  if (!real) real = (int (*)(pthread_key_t, const void*))dlsym(RTLD_NEXT, "pthread_setspecific");
  return real(k, v);
}
void* pthread_getspecific(pthread_key_t k) noexcept {
  if (insim()) {
    if (k < kKeyBase || k >= kKeyBase + (unsigned)R->nkeys) return nullptr;
    return R->f[R->cur].key_val[k - kKeyBase];
  }
  static void* (*real)(pthread_key_t) = nullptr;
  if (!real) real = (void* (*)(pthread_key_t))dlsym(RTLD_NEXT, "pthread_getspecific");
  return real(k);
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
  if (insim()) {
    State* r = R;
    if (!r->quiet) rt::point(24);
    int i = 0;
    for (; i < r->nonce; ++i)
      if (r->once[i].addr == (uintptr_t)o) break;
    if (i == r->nonce) {
      if (r->nonce >= 32) fail("harness-limit", "too many once objects");
      r->once[i].addr = (uintptr_t)o;
      r->once[i].st = 0;
      r->nonce++;
    }
    if (r->once[i].st == 0) {
      r->once[i].st = 1;
      fn();
      r->once[i].st = 2;
      rt::hb_release_obj((uintptr_t)o);
      rt::wake((uintptr_t)o);
    } else {
      while (r->once[i].st == 1) rt::block_on((uintptr_t)o);
      rt::hb_acquire_obj((uintptr_t)o);
    }
    return 0;
  }
  static int (*real)(pthread_once_t*, void (*)(void)) = nullptr;
  if (!real) real = (int (*)(pthread_once_t*, void (*)(void)))dlsym(RTLD_NEXT, "pthread_once");
  return real(o, fn);
}
// plain mutexes (not used by the library today; here so that a change to use them stays under control)
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (insim()) {
    if (R->quiet) { ((int*)m)[0] = 1; return 0; }
    rt::point(24);
    while (((volatile int*)m)[0]) rt::block_on((uintptr_t)m);
    ((volatile int*)m)[0] = 1;
    rt::hb_acquire_obj((uintptr_t)m);
    return 0;
  }
  static int (*real)(pthread_mutex_t*) = nullptr;
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  return real(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (insim()) {
    if (!R->quiet) rt::point(24);
    if (((volatile int*)m)[0]) return EBUSY;
    ((volatile int*)m)[0] = 1;
    rt::hb_acquire_obj((uintptr_t)m);
    return 0;
  }
  static int (*real)(pthread_mutex_t*) = nullptr;
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (insim()) {
    if (!R->quiet) rt::point(24);
    rt::hb_release_obj((uintptr_t)m);
    ((volatile int*)m)[0] = 0;
    rt::wake((uintptr_t)m);
    return 0;
  }
  static int (*real)(pthread_mutex_t*) = nullptr;
  if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  return real(m);
}

// ---- C++ runtime
int __cxa_guard_acquire(uint64_t* g) {
  volatile char* b = (volatile char*)g;
  if (insim() && !R->quiet) rt::point(24);
  for (;;) {
    if (b[0]) {
      if (insim()) rt::hb_acquire_obj((uintptr_t)g);
      return 0;
    }
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (insim() && R->nf > 1) rt::block_on((uintptr_t)g);
    else abort();
  }
}
void __cxa_guard_release(uint64_t* g) noexcept {
  volatile char* b = (volatile char*)g;
  if (insim()) rt::hb_release_obj((uintptr_t)g);
  b[1] = 0;
  b[0] = 1;
  if (insim()) rt::wake((uintptr_t)g);
}
void __cxa_guard_abort(uint64_t* g) noexcept {
  ((volatile char*)g)[1] = 0;
  if (insim()) rt::wake((uintptr_t)g);
}
int __cxa_thread_atexit(void (*d)(void*), void* o, void* dso) noexcept {
  if (insim()) {
    Fiber& f = R->f[R->cur];
    if (f.ntdtor < 32) {
      f.tdtor[f.ntdtor].d = d;
      f.tdtor[f.ntdtor].o = o;
      f.ntdtor++;
    }
    return 0;
  }
  static int (*real)(void (*)(void*), void*, void*) = nullptr;
  if (!real) real = (int (*)(void (*)(void*), void*, void*))dlsym(RTLD_NEXT, "__cxa_thread_atexit_impl");
  return real(d, o, dso);
}
int __cxa_atexit(void (*d)(void*), void* o, void*) noexcept {
  if (insim()) {
    State* r = R;
    if (r->natexit < 64) {
      r->atexits[r->natexit].fn = d;
      r->atexits[r->natexit].arg = o;
      r->natexit++;
    }
    return 0;
  }
  return 0;  // the driver leaves through _exit
}
}  // extern "C"

// operator new/delete, so that allocation sites are the callers in the code under test
static inline void* new_impl(size_t n, size_t al, uint32_t pc, bool nothrow) {
  void* p;
  if (!insim()) p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
  else if (rt::big_alloc_fails(n)) p = nullptr;
  else p = rt::arena_alloc(n, al, 0, pc);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static inline void delete_impl(void* p, uint32_t pc) {
  if (!p) return;
  if ((uintptr_t)p - kArenaBase < kArenaSize) {
    if (insim()) rt::arena_free(p, pc, 0, 0);
    return;
  }
  __libc_free(p);
}
void* operator new(size_t n) { return new_impl(n, 16, rapc(RA), false); }
void* operator new[](size_t n) { return new_impl(n, 16, rapc(RA), false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, rapc(RA), true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return new_impl(n, 16, rapc(RA), true); }
void* operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, rapc(RA), false); }
void* operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, rapc(RA), false); }
void operator delete(void* p) noexcept { delete_impl(p, rapc(RA)); }
void operator delete[](void* p) noexcept { delete_impl(p, rapc(RA)); }
void operator delete(void* p, size_t) noexcept { delete_impl(p, rapc(RA)); }
void operator delete[](void* p, size_t) noexcept { delete_impl(p, rapc(RA)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { delete_impl(p, rapc(RA)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { delete_impl(p, rapc(RA)); }
void operator delete(void* p, std::align_val_t) noexcept { delete_impl(p, rapc(RA)); }
void operator delete[](void* p, std::align_val_t) noexcept { delete_impl(p, rapc(RA)); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { delete_impl(p, rapc(RA)); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { delete_impl(p, rapc(RA)); }
