// A stack allocator for coroutines and tasks that forwards to one of the library's real allocators, with every stack
// entered in a register: who allocated it, how large it is, that it comes back once, unchanged, to the same allocator,
// that live stacks do not overlap, and with allocation failures injected.
#pragma once
#include "harness.h"

#include <libcopp/stack/allocator/stack_allocator_malloc.h>
#include <libcopp/stack/allocator/stack_allocator_memory.h>
#include <libcopp/stack/allocator/stack_allocator_pool.h>
#include <libcopp/stack/allocator/stack_allocator_posix.h>
#include <libcopp/stack/stack_context.h>
#include <libcopp/stack/stack_pool.h>
#include <libcopp/stack/stack_traits.h>

#include <map>
#include <memory>

namespace h {

enum { AK_POSIX = 0, AK_MALLOC, AK_POOL, AK_MEMORY, AK_KINDS };

struct StackReg {
  struct E {
    size_t size;
    int owner;
    bool live;
  };
  std::map<char*, E> all;  // base address -> entry
  int kind = AK_POSIX;
  int next_owner = 1;
  int fail_den = 0;        // one in fail_den allocations fails; 0: none
  uint64_t fails = 0, rot = 0;
  uint64_t live = 0;
  size_t pool_stack = 65536;
  char* mem_buf[8] = {};
  size_t mem_size = 0;
  int mem_used = 0;
  typedef copp::stack_pool<copp::allocator::stack_allocator_posix> pool_t;
  std::shared_ptr<pool_t> pool;
};
extern StackReg* g_stacks;

struct AnyAlloc {
  int owner;       // identity of the allocator a stack must return to; follows copies and moves
  int kind;
  copp::allocator::stack_allocator_posix px;
  copp::allocator::stack_allocator_malloc ml;
  copp::allocator::stack_allocator_pool<StackReg::pool_t> pl;
  copp::allocator::stack_allocator_memory mm;

  AnyAlloc() noexcept {
    quiet([&] {
      owner = g_stacks->next_owner++;
      kind = g_stacks->kind;
      if (kind == AK_POOL) pl.attach(g_stacks->pool);
      if (kind == AK_MEMORY && g_stacks->mem_used < 8) {
        char*& b = g_stacks->mem_buf[g_stacks->mem_used++];
        b = static_cast<char*>(malloc(g_stacks->mem_size));
        mm.attach(b, g_stacks->mem_size);
      }
    });
  }
  AnyAlloc(const AnyAlloc& o) noexcept : owner(o.owner), kind(o.kind), px(o.px), ml(o.ml), pl(o.pl), mm(const_cast<AnyAlloc&>(o).mm) {}
  AnyAlloc(AnyAlloc&& o) noexcept : owner(o.owner), kind(o.kind), px(std::move(o.px)), ml(std::move(o.ml)), pl(o.pl), mm(std::move(o.mm)) { o.owner = 0; }
  AnyAlloc& operator=(const AnyAlloc& o) noexcept {
    owner = o.owner;
    kind = o.kind;
    pl = o.pl;
    mm = const_cast<AnyAlloc&>(o).mm;
    return *this;
  }

  void allocate(copp::stack_context& ctx, std::size_t size) noexcept {
    bool fail = false;
    quiet([&] { fail = g_stacks->fail_den && rt::fault_decide(rt::F_ALLOC_FAIL, 1, (uint32_t)g_stacks->fail_den); });
    bool armed = false;
    if (fail) {
      // either this allocator itself fails, or the next memory (or page protection) call of the real one below it does
      int how = 0;
      quiet([&] { how = (int)(g_stacks->rot++ % 3); });
      if (how == 0 || kind == AK_MEMORY) {
        quiet([&] { g_stacks->fails++; });
        ctx.sp = nullptr;
        return;
      }
      armed = true;
      quiet([&] { rt::arm_sys_fault(how == 2 && kind != AK_MALLOC ? rt::F_PROTECT_FAIL : rt::F_ALLOC_FAIL); });
    }
    switch (kind) {
      case AK_MALLOC: ml.allocate(ctx, size); break;
      case AK_POOL: pl.allocate(ctx, size); break;
      case AK_MEMORY: mm.allocate(ctx, size); break;
      default: px.allocate(ctx, size); break;
    }
    quiet([&] {
      bool hit = false;
      if (armed) hit = rt::disarm_sys_fault();
      if (!ctx.sp) {
        g_stacks->fails++;
        return;
      }
      RT_CHECK(!hit, "failure-ignored", "a stack was handed out although the system refused the memory (or its protection)");
      RT_CHECK(ctx.size <= (1ull << 36) && ctx.size <= (uintptr_t)ctx.sp, "stack-invented", "a stack of %zu bytes was handed out", ctx.size);
      char* b = (char*)ctx.sp - ctx.size;
      RT_CHECK(ctx.size >= size || kind == AK_POOL || kind == AK_MEMORY, "stack-too-small", "asked for %zu bytes of stack, got %zu", size, ctx.size);
      const size_t guard = kind == AK_POSIX || kind == AK_POOL ? copp::stack_traits::page_size() : 0;
      RT_CHECK((ctx.size >= guard && ctx.size - guard >= size) || kind == AK_POOL || kind == AK_MEMORY, "stack-too-small",
               "asked for %zu bytes of stack, got %zu of which %zu are protected", size, ctx.size, guard);
      RT_CHECK(rt::is_accessible(b + guard, ctx.size - guard), "stack-not-accessible", "stack of %zu bytes is not all usable memory", ctx.size);
      if (guard) RT_CHECK(rt::is_guard(b) && rt::is_guard(b + guard - 1), "no-guard-page", "the page below the stack is accessible");
      auto it = g_stacks->all.upper_bound(b);
      if (it != g_stacks->all.end()) RT_CHECK(!it->second.live || (char*)ctx.sp <= it->first, "stacks-overlap", "a new stack overlaps a live one");
      for (auto& x : g_stacks->all)
        if (x.second.live) RT_CHECK(x.first >= (char*)ctx.sp || x.first + x.second.size <= b, "stacks-overlap", "a new stack overlaps a live one");
      StackReg::E& e = g_stacks->all[b];
      e.size = ctx.size;
      e.owner = owner;
      e.live = true;
      g_stacks->live++;
    });
  }
  void deallocate(copp::stack_context& ctx) noexcept {
    quiet([&] {
      char* b = (char*)ctx.sp - ctx.size;
      auto it = g_stacks->all.find(b);
      RT_CHECK(it != g_stacks->all.end(), "foreign-stack", "a stack was handed back that its allocator never produced (or with a changed size)");
      RT_CHECK(it->second.live, "stack-returned-twice", "a stack was handed back twice");
      RT_CHECK(it->second.size == ctx.size, "foreign-stack", "a stack was handed back with a changed size");
      RT_CHECK(it->second.owner == owner, "wrong-allocator", "a stack of allocator %d was handed back to allocator %d", it->second.owner, owner);
      it->second.live = false;
      g_stacks->live--;
    });
    switch (kind) {
      case AK_MALLOC: ml.deallocate(ctx); break;
      case AK_POOL: pl.deallocate(ctx); break;
      case AK_MEMORY: mm.deallocate(ctx); break;
      default: px.deallocate(ctx); break;
    }
  }
};

struct StackScope {
  StackReg reg;
  explicit StackScope(int kind, size_t pool_stack = 65536) {
    g_stacks = &reg;
    reg.kind = kind;
    reg.pool_stack = pool_stack;
    reg.mem_size = pool_stack;
    if (kind == AK_POOL) {
      reg.pool = StackReg::pool_t::create();
      reg.pool->set_stack_size(pool_stack);
    }
  }
  void finish() {
    RT_CHECK(reg.live == 0, "stack-leaked", "%llu stacks were never handed back", (unsigned long long)reg.live);
    reg.pool.reset();
    for (auto& b : reg.mem_buf) {
      if (b) free(b);
      b = nullptr;
    }
  }
};
}  // namespace h
