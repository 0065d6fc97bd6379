// A world of stackful coroutines (copp::coroutine_context) driven by several simulated threads, checked against a
// model of who may run what: used by P01 (control transfer), P02 (exceptions) and P17 (stacks and registers).
#pragma once
#include "alloc_trace.h"

#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/utils/errno.h>

#include <stdlib.h>
#include <string.h>
#include <deque>
#include <memory>
#include <stdexcept>

extern "C" long sim_call_regs(long (*fn)(void*), void* arg, const uint64_t* in, uint64_t* out);

namespace co {
using namespace h;

typedef copp::coroutine_context_container<AnyAlloc> Ctx;
typedef Ctx::ptr_type Ptr;
typedef copp::coroutine_context_base Base;

// thread ops (th < 100)
enum { DRIVE, POLL, DRIVE_ERR_OUT, OUTSIDE_YIELD, DROP, SPIN,
       // body ops (th = 100 + coroutine)
       B_YIELD, B_THIS_YIELD, B_NEST, B_SELF, B_THROW, B_SPIN, B_DEEP, B_REGS, B_CATCH_NEST, B_EXPR, NOPS };
static const char* const kOps[] = {"drive", "poll", "drive_eptr", "outside_yield", "drop_ref", "pause", "yield", "this_coroutine_yield", "nested_drive", "drive_self",
                                   "throw", "body_pause", "yield_in_deep_frame", "yield_with_register_patterns", "nested_drive_catch", "yield_in_expression", nullptr};
enum { PR_MIGRATE, PR_BUSY, PR_DEAD, PR_NEST, PR_THROW, PR_NESTBUSY, PR_FAILCREATE, PR_ESCAPE, PR_NULL };
static const char* const kProbes[] = {"coroutine resumed on another thread", "attempt while running refused", "attempt after the end refused", "coroutine driven from inside another",
                                      "body threw", "a coroutine tried to resume one of its callers", "creation failed for lack of a stack", "exception let through by a nested body", "driven without data", nullptr};

struct Tok {
  int co;
  int thread;
  int caller;      // coroutine that drives, or -1
  bool consumed;
  bool null;       // passed no data
  uint64_t begin, end;
  int result;
  bool threw;
  uint64_t cookie;
};
struct Boom : std::runtime_error {
  int co;
  uint64_t serial;
  uint64_t check;
  Boom(int c, uint64_t s) : std::runtime_error("boom"), co(c), serial(s), check(~s) {}
};

struct World;
extern World* g_w;

struct Co {
  int id = 0;
  Ptr ptr;            // the creator's reference
  Base* raw = nullptr;
  bool entered = false, done = false, active = false, threw = false;
  int ret = 0;
  int pc = 0;
  int last_thread = -1;
  uint64_t entries = 0;
  uint64_t yields = 0;
  uint64_t payload = 0;      // written only by the body
  Tok* cur = nullptr;
  uint64_t boom = 0;         // serial of the exception in flight out of this body, 0 if none
  bool boom_own = false;
  std::vector<Op> script;
  size_t priv_size = 0;
  size_t stack_request = 0;
  int catches = 0;
};

struct World {
  StackScope stacks;
  std::deque<Tok> toks;
  std::vector<std::unique_ptr<Co> > cos;
  std::vector<int> stk[rt::kMaxThreads];  // coroutines nested on each thread, innermost last
  std::vector<Tok*> failed;
  uint64_t booms = 0;
  uint64_t delivered = 0;
  bool single = false;
  bool sizes_known = true;
  explicit World(int kind, size_t ps) : stacks(kind, ps) {}
};

inline Base* expect_this() {
  Base* r = nullptr;
  quiet([&] {
    auto& s = g_w->stk[rt::self()];
    if (!s.empty()) r = g_w->cos[(size_t)s.back()]->raw;
  });
  return r;
}
inline void check_this(const char* where) {
  Base* e = expect_this();
  Base* g = Base::get_this_coroutine_base();
  RT_CHECK(e == g, "wrong-current", "%s: the current coroutine should be %p, the library says %p", where, (void*)e, (void*)g);
  RT_CHECK(copp::this_coroutine::get_coroutine() == e, "wrong-current", "%s: this_coroutine::get_coroutine differs", where);
}

// the data pointer of a call that passed none
inline void* null_call(Co& c, const char* how, bool asked) {
  Tok* t = nullptr;
  quiet([&] {
    for (auto& x : g_w->toks)
      if (x.co == c.id && x.thread == rt::self() && !x.end && !x.consumed) t = &x;
    RT_CHECK(t && (!asked || t->null), "wrong-data", "coroutine %d, %s: got no data although the call passed some", c.id, how);
    if (asked) reach(PR_NULL);
  });
  return t;
}
inline void enter(Co& c, void* data, const char* how, bool asked = true) {
  const bool given = data && asked;
  if (!given) data = null_call(c, how, asked);
  quiet([&] {
    RT_CHECK(!c.active, "entered-while-running", "coroutine %d entered while it is running", c.id);
    RT_CHECK(!c.done, "entered-after-end", "coroutine %d entered after its body ended", c.id);
    Tok* t = static_cast<Tok*>(data);
    bool known = false;
    for (auto& x : g_w->toks)
      if (&x == t) known = true;
    RT_CHECK(known, "wrong-data", "coroutine %d, %s: data pointer %p was passed by no call", c.id, how, data);
    if (given) RT_CHECK(!t->null, "wrong-data", "coroutine %d, %s: got data although the call passed none", c.id, how);
    RT_CHECK(t->co == c.id, "wrong-data", "coroutine %d, %s: got the data of a call for coroutine %d", c.id, how, t->co);
    RT_CHECK(!t->consumed, "wrong-data", "coroutine %d, %s: the same call entered twice", c.id, how);
    RT_CHECK(t->thread == rt::self(), "wrong-thread", "coroutine %d continues on thread %d, driven by thread %d", c.id, rt::self(), t->thread);
    RT_CHECK(t->end == 0, "wrong-data", "coroutine %d entered by a call that had returned", c.id);
    auto& s = g_w->stk[rt::self()];
    int top = s.empty() ? -1 : s.back();
    RT_CHECK(t->caller == top, "wrong-caller", "coroutine %d entered under %d, driven by %d", c.id, top, t->caller);
    t->consumed = true;
    c.active = true;
    c.cur = t;
    c.entries++;
    if (c.last_thread >= 0 && c.last_thread != rt::self()) reach(PR_MIGRATE);
    c.last_thread = rt::self();
    s.push_back(c.id);
    rt::event(1, (uint64_t)c.id, (uint64_t)rt::self());
  });
  rt::user_write(&c.payload, 8, "coroutine-owned data");
  c.payload = c.payload * 31 + 7;
  check_this(how);
}
inline void leave(Co& c) {
  rt::user_write(&c.payload, 8, "coroutine-owned data");
  c.payload ^= 5;
  quiet([&] {
    auto& s = g_w->stk[rt::self()];
    RT_CHECK(!s.empty() && s.back() == c.id, "wrong-thread", "coroutine %d is not the innermost on thread %d", c.id, rt::self());
    s.pop_back();
    c.active = false;
    c.yields++;
    rt::event(2, (uint64_t)c.id, (uint64_t)rt::self());
  });
}

struct RegCall {
  Base* base;
  Ctx* ctx;
  void* data;
  void* got;
  std::exception_ptr* eptr;
  int ret;
  int kind;
};
inline long reg_thunk(void* p) {
  RegCall* r = static_cast<RegCall*>(p);
  if (r->kind == 0) r->ret = r->ctx->yield(&r->got);
  else if (r->kind == 1) r->ret = copp::this_coroutine::yield(&r->got);
  else if (r->kind == 2) r->ret = r->ctx->start(*r->eptr, r->data);
  else r->ret = r->ctx->resume(*r->eptr, r->data);
  return 0x5a5a;
}
inline void regs_call(RegCall& r, uint64_t seed) {
  uint64_t in[6], out[6];
  for (int i = 0; i < 6; ++i) in[i] = 0x1000000000000001ull * (uint64_t)(i + 1) ^ (seed * 0x9e3779b97f4a7c15ull + (uint64_t)i), out[i] = 0;
  long v = sim_call_regs(reg_thunk, &r, in, out);
  static const char* const names[6] = {"rbx", "rbp", "r12", "r13", "r14", "r15"};
  for (int i = 0; i < 6; ++i) RT_CHECK(in[i] == out[i], "register-lost", "%s changed across the switch", names[i]);
  RT_CHECK(v == 0x5a5a, "register-lost", "return value changed");
}

// one attempt to start or resume coroutine c from the running code; returns the library's answer
inline int attempt(Co& c, int how, bool nested_catch = true, bool regs = false) {
  Tok* t = nullptr;
  Ctx* ctx = c.ptr.get();
  size_t depth = 0;
  quiet([&] {
    g_w->toks.push_back(Tok());
    t = &g_w->toks.back();
    auto& s = g_w->stk[rt::self()];
    *t = Tok();
    t->co = c.id;
    t->thread = rt::self();
    t->caller = s.empty() ? -1 : s.back();
    t->begin = rt::seq();
    t->null = g_w->toks.size() % 5 == 4;
    depth = s.size();
    if (!s.empty()) reach(PR_NEST);
  });
  int r = 0;
  bool threw = false;
  uint64_t serial = 0;
  int from = -1;
  std::exception_ptr keep;
  void* const data = t->null ? nullptr : t;
  char canary[64];
  memset(canary, 0x30 + c.id, sizeof(canary));
  if (how & 1) {
    std::exception_ptr ep;
    if (regs) {
      RegCall rc = {c.raw, ctx, data, nullptr, &ep, 0, (how & 2) ? 3 : 2};
      regs_call(rc, t->begin * 77);
      r = rc.ret;
    } else {
      r = (how & 2) ? ctx->resume(ep, data) : ctx->start(ep, data);
    }
    if (ep) {
      threw = true;
      try {
        std::rethrow_exception(ep);
      } catch (const Boom& b) {
        serial = b.serial;
        from = b.co;
        RT_CHECK(b.check == ~b.serial, "exception-damaged", "the exception object was damaged");
      } catch (...) {
        rt::fail("wrong-exception", "driving coroutine %d produced a foreign exception", c.id);
      }
      keep = ep;
    }
  } else {
    try {
      r = (how & 2) ? ctx->resume(data) : ctx->start(data);
    } catch (const Boom& b) {
      threw = true;
      serial = b.serial;
      from = b.co;
      RT_CHECK(b.check == ~b.serial, "exception-damaged", "the exception object was damaged");
      keep = std::current_exception();
    } catch (...) {
      rt::fail("wrong-exception", "driving coroutine %d produced a foreign exception", c.id);
    }
  }
  for (char x : canary) RT_CHECK(x == 0x30 + c.id, "caller-stack-damaged", "the caller's locals changed across the switch");
  check_this("after a drive");
  bool rethrow = false;
  quiet([&] {
    auto& s = g_w->stk[rt::self()];
    RT_CHECK(s.size() == depth && (s.empty() ? -1 : s.back()) == t->caller, "wrong-caller", "a drive of coroutine %d returned to the wrong place", c.id);
    t->end = rt::seq();
    t->result = r;
    t->threw = threw;
    if (threw) {
      RT_CHECK(t->consumed, "stray-exception", "a call that entered nothing threw");
      RT_CHECK(c.done && c.threw && c.boom == serial, "stray-exception", "the call driving coroutine %d received exception %llu of coroutine %d", c.id,
               (unsigned long long)serial, from);
      c.boom = 0;
      g_w->delivered++;
      rethrow = !nested_catch;
    } else if (r == copp::COPP_EC_SUCCESS) {
      RT_CHECK(t->consumed, "not-entered", "a call for coroutine %d reported success but entered nothing", c.id);
    } else {
      RT_CHECK(!t->consumed, "entered-with-error", "a call for coroutine %d entered it but reported %d", c.id, r);
      RT_CHECK(r == copp::COPP_EC_IS_RUNNING || r == copp::COPP_EC_NOT_READY, "odd-error", "driving coroutine %d reported %d", c.id, r);
      if (r == copp::COPP_EC_NOT_READY) {
        RT_CHECK(c.done, "wrong-not-ready", "coroutine %d reported as over although its body has not ended", c.id);
        reach(PR_DEAD);
      } else {
        reach(PR_BUSY);
      }
      g_w->failed.push_back(t);
    }
    if (t->consumed && c.cur == t) {
      // nobody entered since: the state seen now is the one this call left behind
      if (c.done && c.threw && c.boom) rt::fail("exception-lost", "coroutine %d threw, but the call driving it saw nothing", c.id);
    }
    if (t->consumed && c.done && c.cur == t) {
      RT_CHECK(c.raw->is_finished(), "not-finished", "coroutine %d ended but is not reported finished", c.id);
      if (!c.threw) RT_CHECK(c.raw->get_ret_code() == c.ret, "wrong-return-code", "coroutine %d returned %d, reported %d", c.id, c.ret, c.raw->get_ret_code());
    }
    rt::event(3, (uint64_t)c.id, (uint64_t)(uint32_t)r);
  });
  if (rethrow) {
    quiet([&] { reach(PR_ESCAPE); });
    std::rethrow_exception(keep);
  }
  return r;
}

inline void check_priv(Co& c, bool write) {
  unsigned char* b = static_cast<unsigned char*>(c.raw->get_private_buffer());
  size_t n = c.raw->get_private_buffer_size();
  RT_CHECK(n >= c.priv_size, "private-buffer", "private buffer of %zu bytes, asked for %zu", n, c.priv_size);
  for (size_t i = 0; i < c.priv_size; i += 8) {
    uint64_t want = ((uint64_t)c.id << 32) ^ i ^ 0xabcd;
    if (write) *(uint64_t*)(b + i) = want;
    else RT_CHECK(*(uint64_t*)(b + i) == want, "private-buffer", "private buffer of coroutine %d changed", c.id);
  }
}

inline void yield_here(Co& c, int kind, bool regs) {
  const bool asked = regs || c.yields % 5 != 3;  // sometimes the body does not want the data
  void* got = g_w;                               // must be overwritten, with a null pointer as well
  int r;
  volatile uint64_t local[4];
  for (int i = 0; i < 4; ++i) local[i] = (uint64_t)c.id * 1000 + (uint64_t)i;
  leave(c);
  if (regs) {
    RegCall rc = {c.raw, static_cast<Ctx*>(c.raw), nullptr, g_w, nullptr, 0, kind & 1};
    regs_call(rc, (uint64_t)c.id * 1000 + c.yields);
    r = rc.ret;
    got = rc.got;
  } else {
    void** out = asked ? &got : nullptr;
    r = kind ? copp::this_coroutine::yield(out) : static_cast<Ctx*>(c.raw)->yield(out);
  }
  enter(c, got, "after a yield", asked);
  RT_CHECK(r == copp::COPP_EC_SUCCESS, "yield-failed", "yield reported %d", r);
  for (int i = 0; i < 4; ++i) RT_CHECK(local[i] == (uint64_t)c.id * 1000 + (uint64_t)i, "locals-changed", "locals of coroutine %d changed while suspended", c.id);
}

inline void __attribute__((noinline)) deep_yield(Co& c, size_t n) {
  uint64_t* b = static_cast<uint64_t*>(__builtin_alloca(n));
  size_t w = n / 8;
  for (size_t i = 0; i < w; i += 32) b[i] = (uint64_t)c.id * 0x101010101ull + i;
  b[0] = b[w - 1] = (uint64_t)c.id;
  yield_here(c, 0, false);
  for (size_t i = 32; i + 32 < w; i += 32) RT_CHECK(b[i] == (uint64_t)c.id * 0x101010101ull + i, "locals-changed", "deep locals of coroutine %d changed while suspended", c.id);
  RT_CHECK(b[0] == (uint64_t)c.id && b[w - 1] == (uint64_t)c.id, "locals-changed", "deep locals of coroutine %d changed while suspended", c.id);
}
inline double __attribute__((noinline)) yield_val(Co& c, double v) {
  yield_here(c, 1, false);
  return v;
}

struct Guard {  // a live local: destroyed when the body ends
  Co& c;
  int* n;
  ~Guard() { --*n; }
};

inline int body(Co& c, void* data) {
  quiet([&] {
    RT_CHECK(!c.entered, "entered-twice", "the body of coroutine %d started twice", c.id);
    c.entered = true;
  });
  enter(c, data, "at start");
  int guards = 1;
  check_priv(c, true);
  {
    // the body's frame lies inside the stack obtained for it
    char here;
    bool in = false;
    quiet([&] {
      for (auto& x : g_stacks->all)
        if (x.second.live && &here >= x.first && &here < x.first + x.second.size) in = true;
    });
    RT_CHECK(in, "not-own-stack", "the body of coroutine %d does not run on a stack of its allocator", c.id);
  }
  try {
    Guard g{c, &guards};
    for (; c.pc < (int)c.script.size();) {
      const Op o = c.script[(size_t)c.pc];
      quiet([&] { c.pc++; });
      switch (o.code) {
        case B_YIELD: yield_here(c, 0, false); break;
        case B_THIS_YIELD: yield_here(c, 1, false); break;
        case B_REGS: yield_here(c, o.a & 1, true); break;
        case B_DEEP: {
          size_t lim = c.stack_request > 16384 ? c.stack_request - 12288 - c.priv_size : 1024;
          size_t n = (size_t)(o.a & 7) * (lim / 8) + 256;
          deep_yield(c, n & ~(size_t)63);
          break;
        }
        case B_EXPR: {
          volatile double k = 1.5 + c.id;
          double v = k * 2.0 + yield_val(c, k) * (k + 0.25);
          RT_CHECK(v == k * 2.0 + k * (k + 0.25), "expression-changed", "an expression in flight changed while suspended");
          break;
        }
        case B_SPIN: rt::yield_now(); break;
        case B_SELF: {
          int r = attempt(c, o.b & 3);
          RT_CHECK(r == copp::COPP_EC_IS_RUNNING, "self-entered", "a running coroutine resumed itself: %d", r);
          break;
        }
        case B_NEST:
        case B_CATCH_NEST: {
          Co& k = *g_w->cos[(size_t)o.a % g_w->cos.size()];
          if (!k.raw) break;
          bool on_stack = false;
          quiet([&] {
            for (int x : g_w->stk[rt::self()])
              if (x == k.id) on_stack = true;
          });
          int r = attempt(k, o.b & 3, o.code == B_CATCH_NEST, (o.b & 5) == 5);
          if (on_stack) {
            quiet([&] { reach(PR_NESTBUSY); });
            RT_CHECK(r == copp::COPP_EC_IS_RUNNING, "caller-entered", "a coroutine resumed one of its own callers: %d", r);
          }
          break;
        }
        case B_THROW: {
          uint64_t s = 0;
          quiet([&] {
            s = ++g_w->booms;
            c.boom = s;
            reach(PR_THROW);
            rt::count_fault(rt::F_THROW);
          });
          throw Boom(c.id, s);
        }
        default: break;
      }
      check_priv(c, false);
    }
  } catch (const Boom& b) {
    RT_CHECK(guards == 0, "locals-not-destroyed", "a live local of coroutine %d was not destroyed by the exception", c.id);
    quiet([&] {
      c.threw = true;
      c.boom = b.serial;
    });
    leave(c);
    quiet([&] { c.done = true; });
    throw;
  }
  RT_CHECK(guards == 0, "locals-not-destroyed", "a live local of coroutine %d was not destroyed", c.id);
  leave(c);
  quiet([&] { c.done = true; });
  return c.ret;
}

struct Cfg { enum { THREADS, COS, ALLOC, STACK, PRIV, FAIL, SINGLE_DROP, MPROT, MEMSZ }; };

inline void poll(Co& c) {
  bool over = false;
  quiet([&] { over = c.done; });
  bool f = c.raw->is_finished();
  quiet([&] {
    RT_CHECK(!f || c.done, "finished-early", "coroutine %d is reported finished before its body ended", c.id);
    (void)over;
  });
}

inline void thread_op(const Op& o) {
  Co& c = *g_w->cos[(size_t)o.a % g_w->cos.size()];
  if (!c.raw) return;
  switch (o.code) {
    case DRIVE: attempt(c, o.b & 2); break;
    case DRIVE_ERR_OUT: attempt(c, 1 | (o.b & 2), true, (o.b & 4) != 0); break;
    case POLL: poll(c); break;
    case OUTSIDE_YIELD:
      if (g_w->single) {
        void* p = &c;
        int r = static_cast<Ctx*>(c.raw)->yield(&p);
        RT_CHECK(r != copp::COPP_EC_SUCCESS && p == &c, "yield-outside", "yield of coroutine %d, which is not running, reported %d", c.id, r);
        r = copp::this_coroutine::yield(&p);
        RT_CHECK(r == copp::COPP_EC_NOT_RUNNING && p == &c, "yield-outside", "yield outside any coroutine reported %d", r);
      }
      break;
    case SPIN: rt::yield_now(); break;
    case DROP: {
      Ptr extra(c.ptr);
      Ptr more(std::move(extra));
      more.reset();
      break;
    }
    default: break;
  }
}

inline void run(const Program& p) {
  const uint64_t mark = rt::alloc_mark();
  static const size_t sizes[] = {16384, 24576, 32768, 65536, 20000};
  {
    size_t st = sizes[(unsigned)p.cfg[Cfg::STACK] % 5];
    World w(p.cfg[Cfg::ALLOC], 65536 + 8192);
    g_w = &w;
    const int T = p.cfg[Cfg::THREADS], N = p.cfg[Cfg::COS];
    w.single = T == 1;
    g_stacks->fail_den = p.cfg[Cfg::FAIL];
    if (p.cfg[Cfg::MEMSZ]) g_stacks->mem_size = st - 1000 * (size_t)(p.cfg[Cfg::MEMSZ] - 1);
    if (p.cfg[Cfg::MPROT]) rt::fail_mprotect_after(p.cfg[Cfg::MPROT] - 1);
    for (int i = 0; i < N; ++i) {
      w.cos.emplace_back(new Co());
      Co& c = *w.cos.back();
      c.id = i;
      c.ret = 1000 + i * 7;
      c.priv_size = (size_t)(p.cfg[Cfg::PRIV] & 7) * 24;
      c.stack_request = st;
      for (auto& o : p.ops)
        if (o.th == 100 + i) c.script.push_back(o);
      AnyAlloc al;
      uint64_t fails = g_stacks->fails;
      Co* cp = &c;
      if (p.cfg[Cfg::PRIV] & 8) {
        // runner set after creation
        c.ptr = Ctx::create(copp::coroutine_context::callback_type(), al, st, c.priv_size);
        if (c.ptr) {
          RT_CHECK(c.ptr->start(nullptr) == copp::COPP_EC_NOT_INITED, "uninitialised-started", "a coroutine without a runner was started");
          int r = c.ptr->set_runner([cp](void* d) { return body(*cp, d); });
          RT_CHECK(r == copp::COPP_EC_SUCCESS, "set-runner", "set_runner reported %d", r);
          r = c.ptr->set_runner([](void*) { return 0; });
          RT_CHECK(r == copp::COPP_EC_ALREADY_INITED, "set-runner", "a second set_runner reported %d", r);
        }
      } else {
        c.ptr = Ctx::create([cp](void* d) { return body(*cp, d); }, al, st, c.priv_size);
      }
      if (!c.ptr) {
        RT_CHECK(g_stacks->fails != fails, "create-failed", "creation failed although a stack was available");
        reach(PR_FAILCREATE);
        continue;
      }
      RT_CHECK(g_stacks->fails == fails, "create-without-stack", "creation succeeded without a stack");
      c.raw = c.ptr.get();
      RT_CHECK(!c.raw->is_finished(), "finished-early", "a new coroutine is reported finished");
    }
    g_stacks->fail_den = 0;
    rt::fail_mprotect_after(-1);
    std::vector<std::function<void()> > th;
    for (int t = 0; t < T; ++t)
      th.push_back([&, t] {
        for (auto& o : p.ops)
          if (o.th == t) thread_op(o);
      });
    if (T == 1) th[0]();
    else run_threads(th);
    // nobody competes any more: every coroutine must now run to its end, one entry per remaining yield
    for (auto& cp : w.cos) {
      Co& c = *cp;
      if (!c.raw || (p.cfg[Cfg::SINGLE_DROP] & 1 && c.id == 0)) continue;
      for (size_t n = 0; !c.done; ++n) {
        RT_CHECK(n <= c.script.size() + 1, "no-progress", "coroutine %d does not finish", c.id);
        int r = attempt(c, (int)n & 3);
        RT_CHECK(r == copp::COPP_EC_SUCCESS, "no-progress", "driving coroutine %d with no competition reported %d", c.id, r);
      }
      RT_CHECK(c.raw->is_finished(), "not-finished", "coroutine %d ended but is not reported finished", c.id);
      int r = attempt(c, 0);
      RT_CHECK(r == copp::COPP_EC_NOT_READY, "entered-after-end", "driving the finished coroutine %d reported %d", c.id, r);
    }
    // a refusal is only right when some other call really had the coroutine
    for (Tok* f : w.failed) {
      if (f->result != copp::COPP_EC_IS_RUNNING) continue;
      bool ok = false;
      for (auto& t : w.toks)
        if (t.consumed && t.co == f->co && t.begin < f->end && (t.end == 0 || t.end > f->begin)) ok = true;
      RT_CHECK(ok, "refused-without-cause", "a call for coroutine %d was refused as running while nobody drove it", f->co);
    }
    RT_CHECK(w.delivered >= 0, "x", "x");
    for (auto& cp : w.cos) cp->ptr.reset();
    w.stacks.finish();
  }
  g_w = nullptr;
  g_stacks = nullptr;
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}

struct Profile {
  int w[NOPS];
};

inline void gen(rt::Rng& r, Program& p, bool thorough, const Profile& pf, int single_chance) {
  p.cfg[Cfg::THREADS] = r.chance((uint32_t)single_chance, 10) ? 1 : r.range(2, 4);
  p.cfg[Cfg::COS] = r.range(1, p.cfg[Cfg::THREADS] == 1 ? 4 : 3);
  p.cfg[Cfg::ALLOC] = (int)r.below(AK_KINDS);
  p.cfg[Cfg::STACK] = (int)r.below(4);
  p.cfg[Cfg::PRIV] = (int)r.below(16);
  p.cfg[Cfg::FAIL] = r.chance(1, 10) ? r.range(2, 4) : 0;
  p.cfg[Cfg::SINGLE_DROP] = (int)r.below(2);
  p.cfg[Cfg::MPROT] = r.chance(1, 10) ? r.range(1, 3) : 0;
  p.cfg[Cfg::MEMSZ] = (int)r.below(4);
  int nb = r.range(0, thorough ? 16 : 9), nt = r.range(1, thorough ? 24 : 14);
  int wt[NOPS], tot_t = 0, tot_b = 0;
  for (int i = 0; i < NOPS; ++i) {
    wt[i] = pf.w[i] ? pf.w[i] + (int)r.below((uint32_t)pf.w[i] + 1) : 0;
    (i < B_YIELD ? tot_t : tot_b) += wt[i];
  }
  for (int i = 0; i < nt + nb; ++i) {
    Op o;
    bool b = i < nb;
    int x = (int)r.below((uint32_t)(b ? tot_b : tot_t));
    o.code = b ? B_YIELD : 0;
    while (x >= wt[o.code]) x -= wt[o.code++];
    o.th = b ? 100 + (int)r.below((uint32_t)p.cfg[Cfg::COS]) : (int)r.below((uint32_t)p.cfg[Cfg::THREADS]);
    o.a = (int)r.below(8);
    o.b = (int)r.below(8);
    o.c = 0;
    p.ops.push_back(o);
  }
}
}  // namespace co
