// P09: identifiers are unique across threads and time.
#include "harness.h"

#include <libcopp/utils/uint64_id_allocator.h>
#include <libcotask/task.h>
#include <libcotask/task_promise.h>

#include <elf.h>
#include <fcntl.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <set>

namespace h {
const char* const kProperty = "P09";
}
using namespace h;

namespace {
enum { ALLOC, BURST, TASK, TASK20, ADVANCE, BACK, EPOCH, STALL, RESPAWN, FREE, EXHAUST, NOPS };
const char* const kOps[] = {"allocate", "burst", "task", "cxx20_task", "clock_forward", "clock_back", "clock_set", "clock_stall", "new_thread", "deallocate", "fast_forward", nullptr};
enum { PR_BLOCKS, PR_CLOCKB, PR_RESPAWN, PR_FF, PR_OLD };
const char* const kProbes[] = {"thread used up a block of ids", "clock set back", "thread exited and another one allocated", "allocations fast-forwarded to the end of a sequence", "clock before 2020", nullptr};

struct W {
  std::set<uint64_t> ids;
  bool ff_ok = true;
};
W* g;

// The allocator's own counter, found by name, only to reach states that need 16 million allocations first. When it is
// not there or does not behave as a plain counter the fast-forward is left out.
volatile uint64_t* find_counter() {
  static int done = 0;
  static volatile uint64_t* found = nullptr;
  if (done) return found;
  done = 1;
  int fd = open("/proc/self/exe", O_RDONLY);
  if (fd < 0) return nullptr;
  struct stat st;
  if (fstat(fd, &st) == 0) {
    static char buf[1 << 16];
    Elf64_Ehdr eh;
    if (pread(fd, &eh, sizeof(eh), 0) == (ssize_t)sizeof(eh) && eh.e_shentsize * eh.e_shnum <= (int)sizeof(buf) &&
        pread(fd, buf, (size_t)eh.e_shentsize * eh.e_shnum, (off_t)eh.e_shoff) > 0) {
      const Elf64_Shdr* sh = (const Elf64_Shdr*)buf;
      for (int i = 0; i < eh.e_shnum; ++i) {
        if (sh[i].sh_type != SHT_SYMTAB) continue;
        const Elf64_Shdr& strs = sh[sh[i].sh_link];
        for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); ++k) {
          Elf64_Sym sy;
          if (pread(fd, &sy, sizeof(sy), (off_t)(sh[i].sh_offset + k * sizeof(sy))) != (ssize_t)sizeof(sy)) break;
          if (ELF64_ST_TYPE(sy.st_info) != STT_OBJECT || sy.st_size != 8) continue;
          char nm[200];
          ssize_t r = pread(fd, nm, sizeof(nm) - 1, (off_t)(strs.sh_offset + sy.st_name));
          if (r <= 0) continue;
          nm[r] = 0;
          if (strstr(nm, "allocate_id_by_atomic") && strstr(nm, "seq_alloc") && strncmp(nm, "_ZGV", 4)) found = (volatile uint64_t*)sy.st_value;
        }
      }
    }
  }
  close(fd);
  return found;
}

void record(uint64_t id, const char* how) {
  quiet([&] {
    RT_CHECK(id != 0, "zero-id", "%s produced the id 0", how);
    bool fresh = g->ids.insert(id).second;
    RT_CHECK(fresh, "duplicate-id", "%s produced id %llx a second time", how, (unsigned long long)id);
    rt::event(1, (uint64_t)rt::self());
  });
}

cotask::task_future<int, void> co20() { co_return 1; }

void ops(const Program& p, int who);

void step(const Op& o, const Program& p) {
  copp::util::uint64_id_allocator al;
  switch (o.code) {
    case ALLOC: record(al.allocate(), "allocate"); break;
    case BURST:
      for (int i = 0; i < 16 + o.a * 6; ++i) record(al.allocate(), "allocate");
      reach(PR_BLOCKS);
      break;
    case FREE: al.deallocate((uint64_t)o.a); break;
    case TASK: {
      auto t = cotask::task<>::create([](void*) { return 0; }, 16384);
      if (t) record(t->get_id(), "task");
      break;
    }
    case TASK20: {
      auto t = co20();
      record(t.get_id(), "C++20 task");
      break;
    }
    case ADVANCE: quiet([&] { rt::clock_set_ns(rt::clock_now_ns() + (int64_t)(1 + o.a * 40) * 250000000ll); rt::count_fault(rt::F_CLOCK_JUMP_FWD); }); break;
    case BACK:
      quiet([&] { rt::clock_set_ns(rt::clock_now_ns() - (int64_t)(1 + o.a * o.a * 100) * 500000000ll); rt::count_fault(rt::F_CLOCK_JUMP_BACK); });
      reach(PR_CLOCKB);
      break;
    case EPOCH: {
      static const int64_t at[] = {1577836800, 1577836799, 1577836801, 0, 1, 4294967295ll, 4294967296ll, 1893456000};
      quiet([&] { rt::clock_set_ns(at[o.a & 7] * 1000000000ll); rt::count_fault(at[o.a & 7] > 1700000000 ? rt::F_CLOCK_JUMP_FWD : rt::F_CLOCK_JUMP_BACK); });
      if ((o.a & 7) < 5) reach(PR_OLD);
      break;
    }
    case STALL: quiet([&] { rt::clock_step_on_read(o.a & 1 ? 0 : (int64_t)(o.a + 1) * 50000000); rt::count_fault(rt::F_CLOCK_STALL); }); break;
    case RESPAWN: {
      std::vector<std::function<void()> > th;
      int n = 1 + (o.a & 31);
      th.push_back([n] {
        copp::util::uint64_id_allocator a2;
        for (int i = 0; i < n; ++i) record(a2.allocate(), "allocate in a new thread");
        quiet([&] { rt::count_fault(rt::F_THREAD_EXIT); });
      });
      bool room = false;
      quiet([&] { room = rt::seq() < 100000; });
      if (room) run_threads(th);
      reach(PR_RESPAWN);
      break;
    }
    case EXHAUST: {
      // only from the first thread before the others start
      volatile uint64_t* c = find_counter();
      if (!c) break;
      // is it the counter it is taken for? two new threads must see consecutive blocks
      uint64_t v[2] = {0, 0}, id[2] = {0, 0};
      for (int k = 0; k < 2; ++k) {
        std::vector<std::function<void()> > th;
        th.push_back([&] {
          copp::util::uint64_id_allocator a2;
          id[k] = a2.allocate();
          record(id[k], "allocate in a new thread");
        });
        run_threads(th);
        quiet([&] { v[k] = *c; });
      }
      if (v[1] == v[0] + 1 && (id[1] >> 5) == v[1] && (id[0] >> 5) == v[0]) {
        quiet([&] { *c = (v[1] | 0xffffff) - (uint64_t)(o.a & 3); });
        reach(PR_FF);
      }
      break;
    }
  }
}
void ops(const Program& p, int who) {
  for (auto& o : p.ops)
    if (o.th == who) step(o, p);
}

void gen(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[0] = r.range(1, 4);
  p.cfg[1] = (int)r.below(4);  // clock at start
  p.cfg[2] = r.chance(1, 2) ? (int)r.below(4) + 1 : 0;
  int n = r.range(1, thorough ? 40 : 16);
  int w[NOPS] = {6, 1, 2, 2, 2, 2, 1, 1, 2, 1, 0};
  for (int i = 0; i < EXHAUST; ++i) w[i] += (int)r.below(3);
  if (p.cfg[2]) w[RESPAWN] += 4, w[BURST] += 2, w[BACK] += 2;
  int tot = 0;
  for (int i = 0; i < NOPS; ++i) tot += w[i];
  int spawns = 0;
  for (int i = 0; i < n; ++i) {
    Op o;
    int x = (int)r.below((uint32_t)tot);
    o.code = 0;
    while (x >= w[o.code]) x -= w[o.code++];
    if (o.code == RESPAWN && ++spawns > 4) o.code = ALLOC;
    o.th = (int)r.below((uint32_t)p.cfg[0]);
    o.a = (int)r.below(64);
    o.b = o.c = 0;
    p.ops.push_back(o);
  }
  if (p.cfg[2]) p.ops.insert(p.ops.begin(), Op{-1, EXHAUST, p.cfg[2] - 1, 0, 0});
}

void run(const Program& p) {
  W w;
  g = &w;
  static const int64_t at[] = {1700000000, 1577836800, 1577836000, 1893456000};
  rt::clock_set_ns(at[p.cfg[1] & 3] * 1000000000ll);
  rt::clock_step_on_read(100000000);  // a clock that moves
  ops(p, -1);
  std::vector<std::function<void()> > th;
  for (int t = 0; t < p.cfg[0]; ++t) th.push_back([&, t] { ops(p, t); });
  run_threads(th);
  g = nullptr;
}
}  // namespace

namespace h {
const Scenario kScenarios[] = {
    {"ids", 1, gen, run, 60000, true, kOps, kProbes, "uint64_id_allocator, task, task_promise (real); threads, thread-local keys, clock (simulated)"},
};
const int kNumScenarios = 1;
}  // namespace h
