// Deterministic simulation runtime: cooperative "threads" (fibers) whose every interleaving, clock reading,
// allocation failure and spurious failure is decided by one seeded generator or by an explicit replay list.
// The code under test is compiled with -fsanitize=thread, but linked against the __tsan_* entry points in rt.cpp
// instead of libtsan, so every memory access and every atomic operation is a seam the simulator owns.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace rt {

enum { kMaxThreads = 12 };

// ---------------------------------------------------------------- PRNG (splitmix64 / xorshift*)
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed) { next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? (uint32_t)(((next() >> 32) * (uint64_t)n) >> 32) : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint32_t)(hi - lo + 1)); }
  bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
};

// ---------------------------------------------------------------- faults (recorded per run)
enum FaultKind {
  F_PREEMPT = 0,      // involuntary switch of the running thread
  F_STALL,            // a thread is kept off the processor for a long stretch
  F_WEAK_CAS,         // compare_exchange_weak fails spuriously
  F_ALLOC_FAIL,       // a stack allocation fails (malloc/mmap/user allocator)
  F_CLOCK_JUMP_FWD,   // clock jumps forward
  F_CLOCK_JUMP_BACK,  // clock jumps backward
  F_CLOCK_STALL,      // clock delivers the same reading again
  F_THREAD_EXIT,      // a thread exits with state cached
  F_THROW,            // user code throws
  F_KILL,             // kill/cancel/timeout delivered at an arbitrary point
  F_DROP,             // last reference dropped at an arbitrary point / object destroyed while in use
  F_REENTER,          // a callback re-enters the library
  F_PROTECT_FAIL,     // mprotect fails
  F_MEM_REUSE,        // freed memory is reused at once
  F_KINDS
};
extern const char* const kFaultNames[F_KINDS];

struct SchedEntry { uint32_t step; uint32_t tid; };           // at this scheduling point run thread tid
struct FaultEntry { uint32_t kind; uint32_t at; };            // spurious failure at the at-th eligible operation

enum { kMaxSched = 1 << 16, kMaxFault = 1 << 12, kMaxProbe = 256 };

struct RunConfig {
  uint64_t seed;            // schedule / fault / junk seed
  bool replay;              // use the lists below instead of the generator
  const SchedEntry* sched; uint32_t nsched;
  const FaultEntry* faults; uint32_t nfaults;
  uint32_t max_steps;
  uint32_t policy;          // filled from the seed when 0xffffffff
  bool race_fatal;          // report unsynchronised conflicting accesses
  bool ctl_reuse;           // allow reuse of freed memory (decided per run)
};

struct RunResult {
  bool failed;
  char cls[64];             // violation class, stable across schedules
  char msg[512];            // details
  uint64_t hash;            // hash of the whole execution
  uint64_t sync_hash;       // hash of the order of synchronisation operations (interleaving identity)
  uint32_t steps;
  uint32_t nsched;          // recorded decisions
  uint32_t nfaults;
  uint64_t fault_count[F_KINDS];
  uint64_t vtime_ns;        // simulated time covered
  uint32_t switches;
  uint32_t races;
  uintptr_t race_pc[2];
  uint32_t nthreads;
};

// set up once per process, before any run
void init();
// run `entry(arg)` as simulated thread 0; returns when it returned, or when a violation was reported
void execute(const RunConfig& cfg, void (*entry)(void*), void* arg, RunResult* out);
const SchedEntry* recorded_sched();
const FaultEntry* recorded_faults();

uint64_t probe_count(int i);
uint64_t state_count();
uint64_t* shared_table(uint32_t bits);            // zeroed memory shared with forked children; [0] counts insertions
uint64_t distinct_insert(uint64_t* table, uint32_t bits, uint64_t h);

// ---------------------------------------------------------------- for code running inside a run
bool in_sim();
int spawn(void (*fn)(void*), void* arg);          // create simulated thread
void join(int tid);
bool finished(int tid);
int self();
void yield_now();                                 // voluntary scheduling point
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void event(uint64_t a, uint64_t b = 0, uint64_t c = 0);   // fold into the history hash
uint64_t seq();                                   // global event sequence number
void probe(int id);                               // count that a rare condition was reached
void count_fault(int kind);
void state_mark(uint64_t h);                      // abstract state reached (distinct ones are counted)
Rng& user_rng();                                  // generator for decisions inside the run (fault-free part)
bool fault_decide(int kind, uint32_t num, uint32_t den);  // seeded / replayed fault decision; counts when it fires

// user data whose ordering the library is expected to guarantee: conflicting unordered accesses are violations
void user_write(const void* p, size_t n, const char* what);
void user_read(const void* p, size_t n, const char* what);

// clock
int64_t clock_now_ns();
void clock_set_ns(int64_t ns);
void clock_step_on_read(int64_t ns);              // every reading advances the clock by this much

// memory accounting
struct MemStat { uint64_t live_blocks, live_bytes, total_allocs; };
MemStat mem_stat();
uint64_t live_blocks_since(uint64_t mark, char* desc, size_t n);   // blocks allocated after mark that are still live
uint64_t alloc_mark();
bool is_live(const void* p);
void fail_big_alloc_after(int n);                 // the n-th next stack-sized allocation (>= 4096) fails; <0 off
void fail_mprotect_after(int n);
void arm_sys_fault(int kind);                      // this thread's next stack-sized allocation (or mprotect) fails
bool disarm_sys_fault();                          // true if it did
uint32_t guard_pages();                           // currently protected pages
bool is_guard(const void* p);                     // inaccessible page
bool is_accessible(const void* p, size_t n);

struct Quiet { Quiet(); ~Quiet(); Quiet(const Quiet&) = delete; };  // no scheduling inside harness bookkeeping
void quiet_reset();

}  // namespace rt

#define RT_CHECK(cond, cls, ...) do { if (!(cond)) { ::rt::fail(cls, __VA_ARGS__); } } while (0)
