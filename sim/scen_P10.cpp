// P10: stack pool conserves stacks and honours its limits.
#include "harness.h"

#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>
#include <libcopp/stack/stack_context.h>
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/stack_traits.h>

#include <map>
#include <memory>

namespace h {
const char* const kProperty = "P10";
}
using namespace h;

namespace {
enum { ALLOC, FREE, GC, CLEAR, SET_SIZE, MAX_NUM, MAX_SIZE, MIN_NUM, MIN_SIZE, GC_NUM, AUTO_GC, TOUCH, NOPS };
const char* const kOps[] = {"allocate", "deallocate", "gc", "clear", "set_stack_size", "set_max_number", "set_max_size", "set_min_number", "set_min_size", "set_gc_number", "set_auto_gc", "touch", nullptr};
enum { PR_REUSE, PR_GC, PR_CLEAR_CACHED, PR_RESIZE_CACHED, PR_LIMIT, PR_FAIL, PR_RESIZE_USED };
const char* const kProbes[] = {"stack reused", "gc returned stacks", "clear with cached stacks", "resize with cached stacks", "allocation refused by limit", "origin allocator failed", "resize while stacks are in use", nullptr};

enum { AT_POOL = 1, AT_HOLDER, RETURNED };
struct Entry {
  int where;
  size_t size;
  int gen;
};
struct Ledger {
  std::map<void*, Entry> all;  // by base address of the stack
  size_t held_n = 0, held_size = 0, pool_n = 0, pool_size = 0;
  uint64_t fails = 0;
  int fail_den = 0;
};
Ledger* g_led;

// the pool's underlying allocator: the real one, with every call entered in the ledger and failures injected
template <class A>
struct Traced {
  A real;
  void allocate(copp::stack_context& ctx, std::size_t size) noexcept {
    bool fail = false;
    quiet([&] {
      fail = g_led->fail_den && rt::fault_decide(rt::F_ALLOC_FAIL, 1, (uint32_t)g_led->fail_den);
      if (fail) g_led->fails++;
    });
    if (fail) {
      reach(PR_FAIL);
      ctx.sp = nullptr;
      return;
    }
    real.allocate(ctx, size);
    quiet([&] {
      if (!ctx.sp) return;
      void* b = (char*)ctx.sp - ctx.size;
      Entry& e = g_led->all[b];
      e.where = AT_POOL;
      e.size = ctx.size;
      g_led->pool_n++;
      g_led->pool_size += ctx.size;
    });
  }
  void deallocate(copp::stack_context& ctx) noexcept {
    quiet([&] {
      void* b = (char*)ctx.sp - ctx.size;
      auto it = g_led->all.find(b);
      RT_CHECK(it != g_led->all.end(), "foreign-stack", "the pool returned a stack its allocator never produced (or with a changed size)");
      RT_CHECK(it->second.where != RETURNED, "returned-twice", "stack %p returned to its allocator twice", b);
      RT_CHECK(it->second.where != AT_HOLDER, "returned-while-held", "stack %p returned to its allocator while a holder uses it", b);
      it->second.where = RETURNED;
      g_led->pool_n--;
      g_led->pool_size -= it->second.size;
    });
    real.deallocate(ctx);
  }
};

template <class A>
struct World {
  typedef copp::stack_pool<Traced<A> > pool_t;
  typedef copp::allocator::stack_allocator_pool<pool_t> front_t;
  // the limit is on what the pool was asked for, the guarding allocator adds its page to each stack
  static constexpr size_t kOverhead = std::is_same<A, copp::allocator::stack_allocator_posix>::value ? 4096 : 0;
  Ledger led;
  std::shared_ptr<pool_t> pool;
  // reconfiguration history, to judge results against what was configured during the call
  uint64_t conf_epoch = 0;
  int conf_busy = 0;
  uint64_t size_epoch = 0;
  int size_busy = 0;
  int in_call = 0;
  bool single;
  size_t min_n = 0, min_s = 0, gc_n = 0;  // one thread: what was configured
  bool auto_gc = true;
  struct Slot {
    copp::stack_context ctx;
    bool used = false;
  };

  void check_counters(const char* when) {
    const auto& l = pool->get_limit();
    RT_CHECK(l.used_stack_number == led.held_n, "used-count", "%s: pool says %zu stacks in use, really %zu", when, l.used_stack_number, led.held_n);
    RT_CHECK(l.used_stack_size == led.held_size, "used-size", "%s: pool says %zu bytes in use, really %zu", when, l.used_stack_size, led.held_size);
    RT_CHECK(l.free_stack_number == led.pool_n, "free-count", "%s: pool says %zu stacks kept, really %zu", when, l.free_stack_number, led.pool_n);
    RT_CHECK(l.free_stack_size == led.pool_size, "free-size", "%s: pool says %zu bytes kept, really %zu", when, l.free_stack_size, led.pool_size);
  }

  void do_alloc(Slot& s, bool front) {
    size_t conf = 0, maxn = 0, maxs = 0;
    uint64_t ep = 0, sep = 0, fails = 0;
    size_t held = 0, helds = 0;
    bool busy = false, sbusy = false;
    quiet([&] {
      conf = pool->get_stack_size();
      maxn = pool->get_max_stack_number();
      maxs = pool->get_max_stack_size();
      ep = conf_epoch;
      busy = conf_busy != 0;
      sep = size_epoch;
      sbusy = size_busy != 0;
      fails = led.fails;
      held = led.held_n;
      helds = led.held_size;
    });
    s.ctx = copp::stack_context();
    uint64_t before = led.all.size();
    const size_t cached = led.pool_n;
    if (front) {
      front_t f(pool);
      f.allocate(s.ctx, 123);
    } else {
      pool->allocate(s.ctx);
    }
    quiet([&] {
      if (s.ctx.sp == nullptr || s.ctx.size == 0) {
        RT_CHECK(s.ctx.sp == nullptr, "half-result", "a stack without size was handed out");
        bool excuse = led.fails != fails || conf_epoch != ep || (sbusy || size_epoch != sep);
        if (single) {
          if (maxn && held >= maxn) excuse = true;
          if (maxs && helds + conf > maxs) excuse = true;
          if (!excuse || led.fails == fails) reach(PR_LIMIT);
        } else if (maxn || maxs) {
          excuse = true;
          reach(PR_LIMIT);
        }
        RT_CHECK(excuse, "refused", "allocation refused although no limit is reached and the allocator did not fail");
        return;
      }
      void* b = (char*)s.ctx.sp - s.ctx.size;
      auto it = led.all.find(b);
      RT_CHECK(it != led.all.end() && it->second.size == s.ctx.size, "foreign-stack", "handed out memory that is no stack of the allocator");
      RT_CHECK(it->second.where != RETURNED, "use-after-return", "stack %p was handed out after it was returned to the allocator", b);
      RT_CHECK(it->second.where != AT_HOLDER, "two-holders", "stack %p was handed to two holders", b);
      it->second.where = AT_HOLDER;
      if (led.all.size() == before) reach(PR_REUSE);
      if (single) RT_CHECK(led.all.size() == before || !cached, "not-reused", "a new stack was obtained while %zu were kept", cached);
      led.held_n++;
      led.held_size += s.ctx.size;
      led.pool_n--;
      led.pool_size -= s.ctx.size;
      s.used = true;
      RT_CHECK((sbusy || size_epoch != sep) || s.ctx.size >= conf, "undersized", "stack of %zu bytes handed out, %zu configured", s.ctx.size, conf);
      if (conf_epoch == ep && !busy && conf_busy == 0) {
        RT_CHECK(!maxn || led.held_n <= maxn, "limit-number", "%zu stacks in use, maximum %zu", led.held_n, maxn);
        RT_CHECK(!maxs || (sbusy || size_epoch != sep) || helds + conf <= maxs || !single, "limit-size", "%zu bytes in use before, %zu configured, maximum %zu", helds, conf, maxs);
      }
      if (conf_epoch == ep && !busy && conf_busy == 0 && maxs)
        RT_CHECK(led.held_size <= maxs + kOverhead, "limit-size", "%zu bytes in use, maximum %zu", led.held_size, maxs);
      rt::event(1, (uint64_t)s.ctx.size);
    });
    if (s.used) {
      // the holder uses all of its stack
      rt::user_write((char*)s.ctx.sp - 64, 64, "stack memory");
      ((char*)s.ctx.sp)[-1] = 1;
      ((char*)s.ctx.sp)[-(long)s.ctx.size + 4096] = 1;
    }
  }

  void do_free(Slot& s, bool front) {
    if (!s.used) return;
    touch(s);
    quiet([&] {
      s.used = false;
      void* b = (char*)s.ctx.sp - s.ctx.size;
      led.all[b].where = AT_POOL;
      led.held_n--;
      led.held_size -= s.ctx.size;
      led.pool_n++;
      led.pool_size += s.ctx.size;
      rt::event(2, (uint64_t)s.ctx.size);
    });
    const size_t kept = led.pool_n, len = s.ctx.size;
    if (front) {
      front_t f;
      f.attach(pool);
      f.deallocate(s.ctx);
    } else {
      pool->deallocate(s.ctx);
    }
    if (single) quiet([&] {
      // a stack of the configured size is kept for reuse, another one is returned at once
      size_t gone = kept - led.pool_n;
      const bool fits = len == pool->get_stack_size() + kOverhead;
      if (!fits) RT_CHECK(gone >= 1, "kept-other-size", "a stack of %zu bytes is kept while %zu are configured", len, pool->get_stack_size());
      if (!fits) gone--;
      if (!auto_gc) RT_CHECK(gone == 0, "gc-disabled", "%zu stacks were collected although automatic collection is off", gone);
      judge_gc(gone, "deallocate");
    });
  }
  void touch(Slot& s) {
    if (!s.used) return;
    rt::user_write((char*)s.ctx.sp - 64, 64, "stack memory");
    ((char*)s.ctx.sp)[-8] = 7;
  }

  // what the collection settings promise: n stacks were returned by one collection
  void judge_gc(size_t n, const char* what) {
    RT_CHECK(!gc_n || n <= gc_n, "gc-too-many", "%s returned %zu stacks at once, at most %zu are configured", what, n, gc_n);
    if (!n) return;
    // totals before the collection
    const size_t num = led.held_n + led.pool_n + n;
    const size_t size = led.held_size + led.pool_size;
    if (min_n || min_s)
      RT_CHECK((min_n && num > min_n) || (min_s && size + n * (pool->get_stack_size() + kOverhead) > min_s), "gc-below-minimum", "%s returned %zu stacks with %zu stacks (%zu bytes after it) in the pool, the minimum is %zu stacks, %zu bytes", what, n, num,
               size, min_n, min_s);
  }
  void check_settings() {
    RT_CHECK(pool->get_min_stack_number() == min_n && pool->get_min_stack_size() == min_s && pool->get_gc_once_number() == gc_n && pool->is_auto_gc() == auto_gc, "setting-lost", "a setting of the pool reads differently from what was set");
    if (led.all.size()) RT_CHECK(pool->get_stack_size_offset() == kOverhead || led.fails, "setting-lost", "stacks are reported to be %zu bytes longer than asked for", pool->get_stack_size_offset());
  }

  void step(const Op& o, Slot* slots, int nslots) {
    Slot& s = slots[o.a % nslots];
    switch (o.code) {
      case ALLOC:
        if (!s.used) do_alloc(s, o.b & 1);
        break;
      case FREE:
        do_free(s, o.b & 1);
        break;
      case GC: {
        const size_t was = led.pool_n;
        size_t n = pool->gc();
        if (n) reach(PR_GC);
        if (single) {
          RT_CHECK(was - led.pool_n == n, "gc-count", "gc reported %zu stacks and returned %zu", n, was - led.pool_n);
          judge_gc(n, "gc");
        }
        break;
      }
      case CLEAR:
        if (led.pool_n) reach(PR_CLEAR_CACHED);
        pool->clear();
        break;
      case SET_SIZE: {
        if (led.pool_n) reach(PR_RESIZE_CACHED);
        if (led.held_n) reach(PR_RESIZE_USED);
        quiet([&] { size_epoch++, size_busy++; });
        size_t want = (size_t)(1 + o.b % 8) * 4096 + (o.c & 1 ? 100 : 0);
        size_t got = pool->set_stack_size(want);
        quiet([&] { size_epoch++, size_busy--; });
        RT_CHECK(got >= want || got == copp::stack_traits::minimum_size(), "stack-size", "set_stack_size(%zu) = %zu", want, got);
        break;
      }
      case MAX_NUM:
        quiet([&] { conf_epoch++; conf_busy++; });
        pool->set_max_stack_number((size_t)(o.b % 6));
        quiet([&] { conf_epoch++; conf_busy--; });
        break;
      case MAX_SIZE:
        quiet([&] { conf_epoch++; conf_busy++; });
        pool->set_max_stack_size((size_t)(o.b % 12) * 8192);
        quiet([&] { conf_epoch++; conf_busy--; });
        break;
      case MIN_NUM:
        min_n = (size_t)(o.b % 5);
        pool->set_min_stack_number(min_n);
        break;
      case MIN_SIZE:
        min_s = (size_t)(o.b % 8) * 8192;
        pool->set_min_stack_size(min_s);
        break;
      case GC_NUM:
        gc_n = (size_t)(o.b % 4);
        pool->set_gc_once_number(gc_n);
        break;
      case AUTO_GC:
        auto_gc = o.b & 1;
        pool->set_auto_gc(auto_gc);
        break;
      case TOUCH:
        touch(s);
        break;
    }
    if (single) {
      quiet([&] {
        check_counters(kOps[o.code]);
        check_settings();
        if (o.code == CLEAR) RT_CHECK(led.pool_n == 0, "clear-kept", "stacks are still kept after clear()");
        rt::state_mark(led.held_n * 1000003 + led.pool_n * 10007 + led.held_size * 31 + led.pool_size + pool->get_stack_size() * 77);
      });
    }
  }

  void go(const Program& p) {
    g_led = &led;
    led.fail_den = p.cfg[2];
    single = p.cfg[0] <= 1;
    pool = pool_t::create();
    pool->set_stack_size((size_t)(1 + p.cfg[3]) * 4096);
    if (p.cfg[4]) pool->set_max_stack_number((size_t)p.cfg[4]);
    if (p.cfg[5]) pool->set_min_stack_number(min_n = (size_t)p.cfg[5]);
    pool->set_gc_once_number(gc_n = (size_t)p.cfg[6]);
    pool->set_auto_gc(auto_gc = p.cfg[7] != 0);
    enum { kSlots = 6 };
    if (single) {
      Slot slots[kSlots];
      for (auto& o : p.ops) step(o, slots, kSlots);
      for (auto& s : slots) do_free(s, false);
    } else {
      std::vector<std::function<void()>> th;
      for (int t = 0; t < p.cfg[0]; ++t)
        th.push_back([&, t] {
          Slot slots[kSlots];
          for (auto& o : p.ops)
            if (o.th == t) step(o, slots, kSlots);
          if (p.cfg[8]) rt::yield_now();
          for (auto& s : slots) do_free(s, true);
        });
      run_threads(th);
    }
    quiet([&] { check_counters("at rest"); });
    pool.reset();
    quiet([&] {
      for (auto& e : led.all) RT_CHECK(e.second.where == RETURNED, "lost-stack", "stack of %zu bytes was never returned to its allocator", e.second.size);
      RT_CHECK(led.held_n == 0 && led.pool_n == 0, "lost-stack", "stacks remain after the pool is gone");
      RT_CHECK(rt::guard_pages() == 0, "lost-guard", "protected pages remain");
    });
  }
};

void gen_common(rt::Rng& r, Program& p, bool thorough, int threads) {
  p.cfg[0] = threads;
  p.cfg[1] = r.chance(1, 3);                       // posix allocator
  p.cfg[2] = r.chance(1, 3) ? r.range(2, 12) : 0;  // allocator failure rate
  p.cfg[3] = r.range(1, 6);
  p.cfg[4] = r.chance(1, 3) ? r.range(1, 5) : 0;
  p.cfg[5] = r.chance(1, 3) ? r.range(1, 4) : 0;
  p.cfg[6] = r.range(0, 3);
  p.cfg[7] = r.chance(2, 3);
  int n = r.range(3, thorough ? 60 : 30);
  int w[NOPS];
  for (int i = 0; i < NOPS; ++i) w[i] = i == ALLOC ? r.range(3, 10) : i == FREE ? r.range(2, 8) : (int)(r.chance(1, 2) ? r.below(3) : 0);
  if (threads > 1) w[AUTO_GC] = w[GC_NUM] = w[MIN_SIZE] = 0;
  int tot = 0;
  for (int i = 0; i < NOPS; ++i) tot += w[i];
  for (int i = 0; i < n; ++i) {
    Op o;
    int x = (int)r.below((uint32_t)tot);
    o.code = 0;
    while (x >= w[o.code]) x -= w[o.code++];
    o.th = (int)r.below((uint32_t)threads);
    o.a = (int)r.below(threads > 1 ? 3 : 6);
    o.b = (int)r.below(12);
    o.c = (int)r.below(2);
    p.ops.push_back(o);
  }
}
void gen_seq(rt::Rng& r, Program& p, bool th) { gen_common(r, p, th, 1); }
void gen_mt(rt::Rng& r, Program& p, bool th) { gen_common(r, p, th, r.range(2, 4)); }

void run(const Program& p) {
  if (p.cfg[1]) {
    World<copp::allocator::stack_allocator_posix> w;
    w.go(p);
  } else {
    World<copp::allocator::stack_allocator_malloc> w;
    w.go(p);
  }
}
}  // namespace

namespace h {
const Scenario kScenarios[] = {
    {"pool_history", 1, gen_seq, run, 60000, false, kOps, kProbes, "stack_pool, stack_allocator_pool, stack_allocator_malloc/posix (real); malloc, mmap, mprotect (simulated memory)"},
    {"pool_threads", 2, gen_mt, run, 60000, false, kOps, kProbes, "stack_pool, stack_allocator_pool, spin_lock, stack_allocator_malloc/posix (real); threads, malloc, mmap (simulated)"},
};
const int kNumScenarios = 2;
}  // namespace h
