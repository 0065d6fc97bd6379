// Every way to make a stackful coroutine: from a callback, a runner object or a function, with or without an allocator of
// one's own, with the runner set later, in memory handed over by an allocator or by the user himself - with arguments that
// must be refused mixed in - and what its flags, private buffer, runner and return code say over its life.
#pragma once
#include "world_co.h"

namespace cf {
using namespace h;
typedef co::Ctx Ctx;
typedef Ctx::ptr_type Ptr;
typedef copp::coroutine_context Raw;
typedef copp::coroutine_context_base Base;

enum { MAXN = 6 };
enum { MAKE, MAKE_RAW, SETRUN, START, RESUME, FLAGS, OUTY, DROP, NOPS };
static const char* const kOps[] = {"make", "make_in_own_memory", "set_runner", "start", "resume", "flags", "yield_from_outside", "drop_ref", nullptr};
enum { PR_FAILED, PR_SMALL, PR_HUGE, PR_NORUN, PR_LATE, PR_TWICE, PR_BADARG, PR_RAW, PR_FLAGREF, PR_FUNC, PR_NESTED };
static const char* const kProbes[] = {"creation failed for lack of a stack", "creation refused: does not fit", "impossible size asked for", "start without a runner refused",
                                      "runner set after creation", "second runner refused", "creation in own memory refused for its arguments", "coroutine in memory of the user ran",
                                      "reserved flag refused", "made from a function", "started by a body of another", nullptr};

struct Own : Raw {               // a coroutine whose object the user places himself
  Own() : Raw() {}
};
struct N {
  bool held = false, raw = false, has_runner = false, done = false, gone = false, running = false;
  int entered = 0, yields = 0, left = 0, resumes = 0, seen = 0, flags = 0, nest = -1;
  void* data = nullptr;
  size_t priv = 0;
  Base* base = nullptr;
  Own* own = nullptr;
  char* mem = nullptr;
};
struct World {
  StackScope stacks;
  N n[MAXN];
  Ptr h[MAXN];
  int nn = 0;
  char tok[64];
  World(int kind, size_t stack) : stacks(kind, stack) {}
};
static World* g;

inline Raw* raw_of(int id) { return g->n[id].raw ? (Raw*)g->n[id].own : (Raw*)g->h[id].get(); }
int drive(int id, void* data, bool start);

inline void pattern(N& n, int id, int round, bool check) {
  unsigned char* p = (unsigned char*)n.base->get_private_buffer();
  size_t s = n.base->get_private_buffer_size();
  quiet([&] {
    RT_CHECK(s >= n.priv, "private-buffer-size", "coroutine %d asked for a private buffer of %zu bytes and has %zu", id, n.priv, s);
    for (size_t i = 0; i < s; ++i) {
      unsigned char v = (unsigned char)(id * 41 + round * 5 + (int)i);
      if (!check) p[i] = v;
      else RT_CHECK(p[i] == v, "private-buffer-changed", "byte %zu of %zu of the private buffer of coroutine %d changed while it was suspended", i, s, id);
    }
  });
}
inline int body(int id, void* data) {
  Base* self = Base::get_this_coroutine_base();
  bool more = false;
  N* np = nullptr;
  quiet([&] {
    if (id < 0)
      for (int i = 0; i < g->nn; ++i)
        if (g->n[i].base == self && !g->n[i].gone) id = i;
    RT_CHECK(id >= 0, "wrong-current", "the current coroutine inside a body is none of the created ones");
    N& n = *(np = &g->n[id]);
    RT_CHECK(n.base == self, "wrong-current", "inside the body of coroutine %d another one is current", id);
    RT_CHECK(++n.entered == 1, "entered-twice", "the body of coroutine %d was entered again", id);
    RT_CHECK(data == n.data, "wrong-data", "coroutine %d was started with other data than passed", id);
    n.seen++;
    more = n.left > 0;
  });
  N& n = *np;
  for (int r = 0; more; ++r) {
    pattern(n, id, r, false);
    if (n.nest >= 0 && n.nest < g->nn && n.nest != id) {
      reach(PR_NESTED);
      drive(n.nest, g->tok + 40 + r, r & 1);
      RT_CHECK(Base::get_this_coroutine_base() == self, "wrong-current", "after driving another coroutine from %d another one is current", id);
    }
    void* got = self;  // must be overwritten, with a null pointer as well
    int y = r & 1 ? copp::this_coroutine::yield(&got) : raw_of(id)->yield(&got);
    RT_CHECK(y == 0, "yield-failed", "yield of coroutine %d reports %d", id, y);
    RT_CHECK(Base::get_this_coroutine_base() == self, "wrong-current", "after a resume of coroutine %d another one is current", id);
    pattern(n, id, r, true);
    quiet([&] {
      RT_CHECK(got == n.data, "wrong-data", "coroutine %d was resumed with other data than passed", id);
      n.seen++;
      more = --n.left > 0;
    });
  }
  n.done = true;
  return 2000 + id;
}
// one start or resume, checked
int drive(int id, void* data, bool start) {
  N& n = g->n[id];
  if (n.gone || !n.base || (!n.held && !n.raw)) return -1;
  Raw* r = raw_of(id);
  Base* before = Base::get_this_coroutine_base();
  const bool can = n.has_runner && !n.done && !n.running;
  const bool was_done = n.done;
  if (can) {
    n.data = data;
    n.resumes++;
    n.running = true;
  }
  int k = start ? r->start(data) : r->resume(data);
  RT_CHECK(Base::get_this_coroutine_base() == before, "wrong-current", "a drive of coroutine %d left another one current", id);
  if (can) {
    n.running = false;
    RT_CHECK(k == 0, "wrong-result", "start of coroutine %d reports %d", id, k);
    RT_CHECK(n.seen == n.resumes, "resume-lost", "a start or resume of coroutine %d did not continue its body", id);
  } else if (!n.has_runner) {
    RT_CHECK(k == copp::COPP_EC_NOT_INITED, "wrong-result", "start of coroutine %d without a runner reports %d", id, k);
    reach(PR_NORUN);
  } else if (was_done) {
    RT_CHECK(k == copp::COPP_EC_NOT_READY || k == copp::COPP_EC_IS_RUNNING, "wrong-result", "start of the finished coroutine %d reports %d", id, k);
  } else {
    RT_CHECK(k == copp::COPP_EC_IS_RUNNING, "wrong-result", "start of the running coroutine %d reports %d", id, k);
  }
  return k;
}
struct Runner {
  int id;
  int operator()(void* p) { return body(id, p); }
};
static Runner g_runner[MAXN];
inline int fn(void* p) { return body(-1, p); }

inline void settle() {
  RT_CHECK(Base::get_this_coroutine_base() == nullptr, "wrong-current", "a coroutine is current although none runs");
  for (int i = 0; i < g->nn; ++i) {
    N& n = g->n[i];
    if (!n.base || n.gone) continue;
    RT_CHECK(n.base->is_finished() == n.done, "wrong-finished", "coroutine %d is%s over but reports otherwise", i, n.done ? "" : " not");
    int c = n.base->get_ret_code();
    RT_CHECK(c == (n.done ? 2000 + i : 0), "wrong-return-code", "coroutine %d (%s) reports the code %d", i, n.done ? "over" : "not over", c);
    RT_CHECK(!n.base->get_runner() == !n.has_runner, "runner-lost", "coroutine %d has%s a runner but says otherwise", i, n.has_runner ? "" : " not");
    for (int b = 8; b < 20; ++b)
      RT_CHECK(n.base->check_flags(1 << b) == ((n.flags >> b & 1) != 0), "wrong-flags", "flag %d of coroutine %d is wrong", b, i);
    if (n.held) RT_CHECK(g->h[i]->use_count() == 1, "wrong-count", "coroutine %d has %zu references instead of 1", i, g->h[i]->use_count());
  }
}

inline void run(const Program& p) {
  const uint64_t mark = rt::alloc_mark();
  {
    static const size_t kPool[] = {65536 + 8192, 16384, 32768};
    World w(p.cfg[0], kPool[p.cfg[3] % 3]);
    g = &w;
    w.stacks.reg.fail_den = p.cfg[1];
    for (int i = 0; i < MAXN; ++i) g_runner[i].id = i;
    for (const Op& o : p.ops) {
      int id = -1;
      if (o.code == MAKE || o.code == MAKE_RAW) {
        if (w.nn >= MAXN) continue;
        id = w.nn;
      } else {
        if (!w.nn) continue;
        id = o.a % w.nn;
        if (!w.n[id].base || w.n[id].gone) continue;
      }
      N& n = w.n[id];
      switch (o.code) {
        case MAKE: {
          w.nn++;
          static const size_t stacks[] = {0, 16384, 49152, 200, SIZE_MAX, SIZE_MAX - 5000};
          static const size_t privs[] = {0, 1, 24, 333, 20000, SIZE_MAX, SIZE_MAX - 100, SIZE_MAX / 2};
          static const size_t extras[] = {0, 1, 100, 4096, SIZE_MAX, SIZE_MAX - 70};
          const size_t ss = stacks[(o.c & 7) % 6], ps = privs[o.c >> 3 & 7], ex = extras[(o.c >> 6 & 7) % 6];
          const bool own = o.b & 1, null = (o.b >> 1 & 7) == 0;
          n.left = n.yields = o.a & 3;
          n.nest = o.a >> 2 & 1 ? (int)(o.a >> 3) % MAXN : -1;
          n.priv = ps;
          AnyAlloc mine;
          const int mine_owner = mine.owner;  // a moved from allocator is worth nothing
          const uint64_t fails = g_stacks->fails, live = g_stacks->live;
          Ptr t;
          switch (o.b >> 4 & 3) {
            case 0: {
              Base::callback_type cb;
              if (!null) cb = [id](void* d) { return body(id, d); };
              if (own) t = Ctx::create(std::move(cb), mine, ss, ps, ex);
              else t = Ctx::create(std::move(cb), ss, ps, ex);
              n.has_runner = !null;
              break;
            }
            case 1: {
              reach(PR_FUNC);
              if (own) t = Ctx::create(null ? (int (*)(void*)) nullptr : fn, mine, ss, ps, ex);
              else t = Ctx::create(null ? (int (*)(void*)) nullptr : fn, ss, ps, ex);
              n.has_runner = !null;
              break;
            }
            default:
              if (own) t = Ctx::create(null ? (Runner*)nullptr : &g_runner[id], mine, ss, ps, ex);
              else t = Ctx::create(&g_runner[id], ss, ps, ex);
              n.has_runner = !null || !own;
              break;
          }
          if (ss > 1000000 || ps > 1000000 || ex > 1000000) reach(PR_HUGE);
          // what surely does not fit, and what surely does
          const size_t full = ss ? ss : copp::stack_traits::default_size();
          const bool given = w.stacks.reg.kind == AK_MEMORY || w.stacks.reg.kind == AK_POOL;
          const size_t have = given && w.stacks.reg.pool_stack < full ? w.stacks.reg.pool_stack : full;
          const bool no = ps >= have || ex >= have || ps + ex >= have;
          const bool yes = ps < 1000000 && ex < 1000000 && ps + ex + sizeof(Ctx) + 256 <= have && (given || full < 1000000);
          if (!t) {
            RT_CHECK(!yes || g_stacks->fails > fails, "creation-failed", "creation of coroutine %d (stack %zu, private %zu, extra %zu) failed although nothing was refused", id, ss, ps, ex);
            RT_CHECK(g_stacks->live == live, "stack-leaked", "a failed creation kept a stack");
            reach(g_stacks->fails > fails ? PR_FAILED : PR_SMALL);
            n.has_runner = false;
            break;
          }
          RT_CHECK(!no, "creation-succeeded", "a coroutine with %zu bytes private buffer and %zu in front was made in a stack of %zu", ps, ex, have);
          w.h[id] = t;
          n.held = true;
          n.base = t.get();
          if (own) RT_CHECK(t->get_allocator().owner == mine_owner, "wrong-allocator", "coroutine %d does not hold the allocator passed", id);
          RT_CHECK(t->get_private_buffer_size() >= ps, "private-buffer-size", "coroutine %d asked for a private buffer of %zu bytes and has %zu", id, ps, t->get_private_buffer_size());
          break;
        }
        case MAKE_RAW: {
          // |stack ..... object .. private buffer| in memory of the user
          w.nn++;
          const size_t total = 32768;
          char* mem = (char*)malloc(total + 64);
          char* top = (char*)(((uintptr_t)mem + total + 63) & ~(uintptr_t)63);
          copp::stack_context sc;
          sc.sp = top;
          sc.size = total;
          const size_t obj = (sizeof(Own) + 15) & ~(size_t)15;
          size_t priv = (size_t)(o.c & 15) * 48, csize = obj + (size_t)(o.c >> 4 & 3) * 16;
          char* where = top - priv - obj;
          bool bad = false;
          switch (o.b & 15) {
            case 1: priv += 3; bad = true; break;                       // not aligned
            case 2: csize += 5; bad = true; break;
            case 3: sc.sp = nullptr; bad = true; break;
            case 4: sc.size = priv + csize; bad = true; break;          // no room for the stack
            case 5: csize = 16; bad = true; break;                      // smaller than a coroutine
            case 6: where = top - 16; bad = true; break;                // object overlaps the private buffer or the end
            default: break;
          }
          char* place = bad && (o.b & 15) == 6 ? top - priv - obj : where;
          Own* own = new (place) Own();
          reach(PR_RAW);
          Base::callback_type cb = [id](void* d) { return body(id, d); };
          const bool later = !bad && (o.b >> 4 & 3) == 0;
          if (later) cb = Base::callback_type();
          Own* arg = bad && (o.b & 15) == 6 ? reinterpret_cast<Own*>(where) : own;
          if ((o.b & 15) == 7) arg = nullptr, bad = true;
          int r = o.b & 64 && !later && !bad ? Raw::create(arg, &g_runner[id], sc, csize, priv) : Raw::create(arg, std::move(cb), sc, csize, priv);
          RT_CHECK((r == 0) == !bad, "wrong-result", "creation of coroutine %d in own memory (case %d) reports %d", id, o.b & 15, r);
          if (bad) {
            reach(PR_BADARG);
            RT_CHECK(own->start(nullptr) == copp::COPP_EC_NOT_INITED, "wrong-result", "a coroutine whose creation was refused can be started");
            own->~Own();
            free(mem);
            break;
          }
          n.raw = true;
          n.own = own;
          n.mem = mem;
          n.base = own;
          n.priv = priv;
          n.left = n.yields = o.a & 3;
          n.has_runner = !later;
          break;
        }
        case SETRUN: {
          Base::callback_type cb;
          if (o.b & 3) cb = [id](void* d) { return body(id, d); };
          const bool some = !!cb;
          int r = n.base->set_runner(std::move(cb));
          if (!some) {
            RT_CHECK(r == copp::COPP_EC_ARGS_ERROR, "wrong-result", "an empty runner is taken: %d", r);
          } else if (n.has_runner) {
            reach(PR_TWICE);
            RT_CHECK(r == copp::COPP_EC_ALREADY_INITED, "wrong-result", "a second runner is taken: %d", r);
          } else {
            reach(PR_LATE);
            RT_CHECK(r == 0, "wrong-result", "the runner of coroutine %d is refused: %d", id, r);
            n.has_runner = true;
          }
          break;
        }
        case START:
        case RESUME: drive(id, o.b & 7 ? w.tok + (o.b & 31) : nullptr, o.code == START); break;
        case FLAGS: {
          int f = o.c & 1 ? 1 << (8 + o.b % 12) : 1 << (o.b % 20);
          if (o.c & 2) f |= 1 << (8 + o.a % 12);
          const bool ok = !(f & 0xff);
          const bool set = o.c & 4;
          bool r = set ? n.base->set_flags(f) : n.base->unset_flags(f);
          RT_CHECK(r == ok, "wrong-flags", "flags %x are %s", f, r ? "taken" : "refused");
          if (ok) n.flags = set ? n.flags | f : n.flags & ~f;
          else reach(PR_FLAGREF);
          break;
        }
        case OUTY: {
          int r = raw_of(id)->yield();
          int want = !n.has_runner ? copp::COPP_EC_NOT_INITED : n.done ? copp::COPP_EC_ALREADY_EXIST : copp::COPP_EC_NOT_RUNNING;
          RT_CHECK(r == want, "wrong-result", "yield of coroutine %d from outside reports %d instead of %d", id, r, want);
          RT_CHECK(copp::this_coroutine::yield() == copp::COPP_EC_NOT_RUNNING, "wrong-result", "yield outside of all coroutines");
          break;
        }
        case DROP: {
          if (!n.held) continue;
          rt::count_fault(rt::F_DROP);
          n.held = false;
          n.gone = true;
          w.h[id].reset();
          break;
        }
        default: break;
      }
      rt::state_mark((uint64_t)o.code << 32 | (uint64_t)n.resumes << 16 | (uint64_t)n.has_runner << 8 | (uint64_t)n.done << 4 | (n.raw ? 2u : 0u) | (n.held ? 1u : 0u));
      settle();
    }
    for (int i = 0; i < w.nn; ++i) {
      N& n = w.n[i];
      if (n.held) w.h[i].reset();
      if (n.raw) {
        n.own->~Own();
        free(n.mem);
      }
    }
    w.stacks.finish();
  }
  g = nullptr;
  g_stacks = nullptr;
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}

inline void gen(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[0] = (int)r.below(AK_KINDS);
  p.cfg[1] = r.chance(1, 3) ? r.range(2, 5) : 0;
  p.cfg[3] = (int)r.below(3);
  int n = r.range(2, thorough ? 40 : 26);
  for (int i = 0; i < n; ++i) {
    Op o{};
    static const int wt[] = {4, 2, 1, 6, 6, 2, 1, 1};
    int x = (int)r.below(23), c = 0;
    while (x >= wt[c]) x -= wt[c++];
    o.code = i == 0 ? (int)MAKE : c;
    o.a = (int)r.below(64);
    o.b = (int)r.below(128);
    o.c = (int)r.below(128);
    if (o.code == MAKE) {
      int ss = r.chance(1, 10) ? 3 + (int)r.below(3) : (int)r.below(3);
      int ps = r.chance(1, 15) ? 5 + (int)r.below(3) : (int)r.below(5);
      int ex = r.chance(1, 15) ? 4 + (int)r.below(2) : (int)r.below(4);
      o.c = ss | ps << 3 | ex << 6;
    }
    p.ops.push_back(o);
  }
}
}  // namespace cf
