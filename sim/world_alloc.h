// The stack allocators by themselves: stacks of many sizes taken, filled and given back in any order, with the memory (or
// its protection) refused now and then, and with allocators copied, moved, assigned, swapped and attached to new memory.
#pragma once
#include "alloc_trace.h"

#include <string.h>

namespace al {
using namespace h;
using copp::stack_context;

enum { MAXS = 6, MAXA = 4, MAXR = 3, RSIZE = 5 * 4096 };
enum { ALLOC, FREE, ATTACH, COPY, MOVE, ASSIGN, MASSIGN, SWAP, NOPS };
static const char* const kOps[] = {"allocate", "deallocate", "attach", "copy", "move", "assign", "move_assign", "swap", nullptr};
enum { PR_REFUSED, PR_PROT, PR_USED, PR_EMPTY, PR_HUGE, PR_COPY_USED, PR_UNALIGNED, PR_SHORT };
static const char* const kProbes[] = {"memory refused", "protection refused", "allocation from a memory that is in use refused", "allocation without memory refused",
                                      "impossible size asked for", "copy of an allocator whose memory is in use", "memory of a size that is not a multiple of pages",
                                      "memory shorter than what was asked for", nullptr};

struct S {
  stack_context ctx;
  int from = -1, kind = 0;
  unsigned char seed = 0;
};
struct M {                       // model of a memory allocator
  int region = -1;
  bool used = false;
};

inline void fill(S& s, size_t guard) {
  quiet([&] {
    unsigned char* b = (unsigned char*)s.ctx.sp - s.ctx.size + guard;
    size_t n = s.ctx.size - guard;
    RT_CHECK(rt::is_accessible(b, n), "stack-not-accessible", "a stack of %zu bytes is not all usable memory", s.ctx.size);
    for (size_t i = 0; i < n; i += i < 64 || i + 128 > n ? 1 : 61) b[i] = (unsigned char)(s.seed + i * 3);
  });
}
inline void verify(S& s, size_t guard) {
  quiet([&] {
    unsigned char* b = (unsigned char*)s.ctx.sp - s.ctx.size + guard;
    size_t n = s.ctx.size - guard;
    for (size_t i = 0; i < n; i += i < 64 || i + 128 > n ? 1 : 61)
      RT_CHECK(b[i] == (unsigned char)(s.seed + i * 3), "stack-changed", "byte %zu of a stack of %zu changed while it was in use: stacks share memory", i, s.ctx.size);
  });
}

inline void run(const Program& p) {
  const uint64_t mark = rt::alloc_mark();
  {
    const size_t page = copp::stack_traits::page_size(), least = copp::stack_traits::minimum_size();
    copp::allocator::stack_allocator_posix px[2];
    copp::allocator::stack_allocator_malloc ml[2];
    copp::allocator::stack_allocator_memory* mm[MAXA] = {};
    M model[MAXA];
    char* region[MAXR];
    size_t rsize[MAXR];
    for (int i = 0; i < MAXR; ++i) {
      rsize[i] = (size_t)RSIZE + (size_t)(p.cfg[1] * 1000 * i) + (p.cfg[2] & 1 ? 123 : 0);
      region[i] = (char*)malloc(rsize[i]);
      if (rsize[i] % page) reach(PR_UNALIGNED);
    }
    for (int i = 0; i < MAXA; ++i) {
      if (i < 2) {
        mm[i] = new copp::allocator::stack_allocator_memory(region[i], rsize[i]);
        model[i].region = i;
      } else {
        mm[i] = new copp::allocator::stack_allocator_memory();
      }
    }
    S st[MAXS];
    uint64_t guards = rt::guard_pages();
    auto free_stack = [&](S& s) {
      const bool posix = s.kind == AK_POSIX;
      verify(s, posix ? page : 0);
      if (posix) px[s.from & 1].deallocate(s.ctx);
      else if (s.kind == AK_MALLOC) ml[s.from & 1].deallocate(s.ctx);
      else {
        mm[s.from]->deallocate(s.ctx);
        model[s.from].used = false;
      }
      s.from = -1;
    };
    // the memory a stack lies in goes along when allocators change places
    auto swapped = [&](int a, int b) {
      std::swap(model[a], model[b]);
      for (S& s : st)
        if (s.from >= 0 && s.kind == AK_MEMORY) {
          if (s.from == a) s.from = b;
          else if (s.from == b) s.from = a;
        }
    };
    for (const Op& o : p.ops) {
      const int a = o.a % MAXA, b = o.b % MAXA;
      switch (o.code) {
        case ALLOC: {
          S* s = nullptr;
          for (S& x : st)
            if (x.from < 0) s = &x;
          if (!s) continue;
          static const int kinds[] = {AK_POSIX, AK_MALLOC, AK_MEMORY, AK_MEMORY};
          const int kind = kinds[o.c & 3];
          static const size_t sizes[] = {0, 1, 2048, 4096, 4097, 8192, 10000, 12288, 16000, 20480, 20481, 65536, 300000, SIZE_MAX, SIZE_MAX - 4096, SIZE_MAX - 20000};
          size_t size = sizes[o.c >> 2 & 15];
          if (kind == AK_MEMORY && model[a].region >= 0 && (o.c & 64)) {  // about as much as is attached
            static const long off[] = {-5000, -4096, -4095, -200, -123, -1, 0, 1, 123, 2000, 3000, 3973, 4095, 4096, 4097, 5000};
            size = rsize[model[a].region] + (size_t)off[o.c >> 2 & 15];
          }
          if (size > 1000000) reach(PR_HUGE);
          const size_t want = size < least ? least : size;
          int armed = 0;
          if (kind != AK_MEMORY && rt::fault_decide(rt::F_ALLOC_FAIL, 1, 6)) {
            armed = kind == AK_POSIX && o.b & 4 ? rt::F_PROTECT_FAIL : rt::F_ALLOC_FAIL;
            rt::arm_sys_fault(armed);
          }
          stack_context c;
          if (kind == AK_POSIX) px[a & 1].allocate(c, size);
          else if (kind == AK_MALLOC) ml[a & 1].allocate(c, size);
          else mm[a]->allocate(c, size);
          bool hit = armed && rt::disarm_sys_fault();
          if (hit) reach(armed == rt::F_PROTECT_FAIL ? PR_PROT : PR_REFUSED);
          if (kind == AK_MEMORY) {
            M& m = model[a];
            if (m.region < 0 || m.used) {
              RT_CHECK(!c.sp, m.used ? "stacks-overlap" : "stack-invented", "an allocator %s handed out a stack", m.used ? "whose memory is in use" : "without memory");
              reach(m.used ? PR_USED : PR_EMPTY);
              continue;
            }
            RT_CHECK(c.sp, "stack-refused", "an allocator with %zu bytes of unused memory refused a stack of %zu", rsize[m.region], size);
            char* lo = (char*)c.sp - c.size;
            RT_CHECK(lo >= region[m.region] && (char*)c.sp <= region[m.region] + rsize[m.region], "stack-outside-memory", "a stack of %zu bytes lies outside of the %zu attached", c.size, rsize[m.region]);
            // what the memory holds in whole pages is all it can give
            const size_t most = rsize[m.region] / page * page;
            RT_CHECK(c.size >= (want < most ? want : most), "stack-too-small", "asked for %zu bytes of stack, got %zu of %zu attached", size, c.size, rsize[m.region]);
            if (want > most) reach(PR_SHORT);
            m.used = true;
          } else {
            if (size > (1ull << 40)) {
              RT_CHECK(!c.sp, "stack-invented", "a stack of %zu bytes was handed out", size);
              continue;
            }
            RT_CHECK(!hit || !c.sp, "failure-ignored", "a stack was handed out although the system refused the memory (or its protection)");
            if (hit) {
              RT_CHECK(rt::guard_pages() == guards, "guard-leaked", "a failed allocation left a protected page behind");
              continue;
            }
            RT_CHECK(c.sp, "stack-refused", "a stack of %zu bytes was refused although the system refused nothing", size);
            const size_t guard = kind == AK_POSIX ? page : 0;
            RT_CHECK(c.size >= guard && c.size - guard >= want && c.size - guard < want + page, "stack-too-small", "asked for %zu bytes of stack, got %zu of which %zu are protected", size, c.size, guard);
            char* lo = (char*)c.sp - c.size;
            if (guard) RT_CHECK(rt::is_guard(lo) && rt::is_guard(lo + guard - 1), "no-guard-page", "the page below the stack is accessible");
          }
          for (S& x : st)
            if (x.from >= 0) {
              char *xl = (char*)x.ctx.sp - x.ctx.size, *cl = (char*)c.sp - c.size;
              RT_CHECK((char*)x.ctx.sp <= cl || (char*)c.sp <= xl, "stacks-overlap", "a new stack overlaps a live one");
            }
          s->ctx = c;
          s->kind = kind;
          s->from = a;
          s->seed = (unsigned char)(o.b * 7 + o.c);
          fill(*s, kind == AK_POSIX ? page : 0);
          guards = rt::guard_pages();
          break;
        }
        case FREE: {
          S& s = st[o.a % MAXS];
          if (s.from < 0) continue;
          free_stack(s);
          guards = rt::guard_pages();
          break;
        }
        case ATTACH: {
          const int r = o.c % MAXR;
          bool busy = model[a].used;
          for (int i = 0; i < MAXA; ++i) busy = busy || model[i].region == r;
          if (busy) continue;
          mm[a]->attach(region[r], rsize[r]);
          model[a].region = r;
          break;
        }
        case COPY:
        case MOVE: {
          // a new allocator takes the place of an idle one
          if (a == b || model[b].used) continue;
          delete mm[b];
          if (o.code == COPY) mm[b] = new copp::allocator::stack_allocator_memory(*mm[a]);
          else mm[b] = new copp::allocator::stack_allocator_memory(std::move(*mm[a]));
          model[b] = M();
          if (model[a].used) reach(PR_COPY_USED);
          else std::swap(model[a], model[b]);
          break;
        }
        case ASSIGN:
        case MASSIGN: {
          if (model[b].used) continue;
          if (o.code == ASSIGN) *mm[b] = *mm[a];
          else *mm[b] = std::move(*mm[a]);
          if (model[a].used) reach(PR_COPY_USED);
          else std::swap(model[a], model[b]);
          break;
        }
        case SWAP: {
          mm[a]->swap(*mm[b]);
          if (a != b) swapped(a, b);
          break;
        }
        default: break;
      }
      for (S& x : st)
        if (x.from >= 0) verify(x, x.kind == AK_POSIX ? page : 0);
      uint64_t h = 0;
      for (int i = 0; i < MAXA; ++i) h = h * 16 + (uint64_t)(model[i].region + 1) * 2 + model[i].used;
      rt::state_mark(h);
    }
    for (S& x : st)
      if (x.from >= 0) free_stack(x);
    for (auto& m : mm) delete m;
    for (auto& r : region) free(r);
    RT_CHECK(rt::guard_pages() == 0, "guard-leaked", "all stacks are back but %u pages are still protected", rt::guard_pages());
  }
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}

inline void gen(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[1] = (int)r.below(3);
  p.cfg[2] = (int)r.below(2);
  int n = r.range(3, thorough ? 40 : 24);
  for (int i = 0; i < n; ++i) {
    Op o{};
    static const int wt[] = {8, 5, 2, 1, 1, 1, 1, 1};
    int x = (int)r.below(20), c = 0;
    while (x >= wt[c]) x -= wt[c++];
    o.code = c;
    o.a = (int)r.below(12);
    o.b = (int)r.below(8);
    o.c = (int)r.below(128);
    p.ops.push_back(o);
  }
}
}  // namespace al
