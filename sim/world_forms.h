// Every way to make a stackful task: from an action object, from functors of all call shapes (copied or moved in), from
// functions and member functions, with or without an allocator of one's own, as a follow-up made on the spot by next() or
// then(). Checked for each: the body runs once, with the data it was promised and in its own task; its result is the
// task's return code; exactly one copy of the functor lives as long as the task; private buffer and stack have the sizes
// asked for (or those of the parent, for then()); a creation that cannot get a stack yields an empty handle and nothing
// stays behind.
#pragma once
#include "world_task.h"

namespace tf {
using namespace h;
typedef tk::Task Task;
typedef tk::TP TP;

enum { MAXN = 8 };
enum { F_INT_P, F_INT_PC, F_VOID_P, F_VOID_PC, F_INT, F_INT_C, F_VOID, F_VOID_C, F_LONG_P, F_ACTION, F_WITH,  // counted functors and actions
       F_FN_INT, F_FN_VOID, F_FN_LONG, F_FN_BOOL, F_FN_PTR, F_MEM_INT, F_MEM_VOID, F_MEM_CONST, NFORMS };
enum { MAKE, ATTACH, START, RESUME, KILL, CANCEL, DROP, YIELD, NOPS };
static const char* const kOps[] = {"make", "attach", "start", "resume", "kill", "cancel", "drop_ref", "yield", nullptr};
enum { PR_IMMEDIATE, PR_LATER, PR_FAILED, PR_SMALL, PR_THEN, PR_DROPPED, PR_ATTACH_FAILED, PR_BIGPRIV, PR_LVALUE, PR_HUGE };
static const char* const kProbes[] = {"follow-up made on a finished task ran at once", "follow-up made on an unfinished task ran at its end",
                                      "creation failed for lack of a stack", "creation refused: stack too small", "follow-up made by then()",
                                      "never started task dropped", "follow-up could not be made", "private buffer larger than a page",
                                      "functor copied from an lvalue", "stack or private buffer of an impossible size asked for", nullptr};

struct N {
  bool made = false, held = false, body_done = false, killed = false, gone = false, attached = false, later = false;
  int form = 0, started = 0, parent = -1, left = 0, status = 0, owner = 0;
  bool expect_known = false;
  void* expect = nullptr;
  void* resume_data = nullptr;
  int resumes = 0, resumed = 0;
  size_t priv = 0, stack = 0, got_stack = 0;
  Task* raw = nullptr;
  int live = 0;      // copies of its functor or action
  int yields = 0;
  bool ended() const { return body_done || killed || gone; }
};
struct World {
  StackScope stacks;
  N n[MAXN];
  TP h[MAXN];
  int nn = 0;
  int creating = -1, starting = -1;
  char tok[MAXN][64];
  World(int kind, size_t stack) : stacks(kind, stack) {}
};
static World* g;

struct Cnt {
  int id;
  explicit Cnt(int i) : id(i) { quiet([&] { g->n[id].live++; }); }
  Cnt(const Cnt& o) : id(o.id) { quiet([&] { g->n[id].live++; }); }
  Cnt(Cnt&& o) : id(o.id) { quiet([&] { g->n[id].live++; }); }
  Cnt& operator=(const Cnt&) = delete;
  ~Cnt() {
    quiet([&] {
      RT_CHECK(id >= 0 && id < MAXN && g->n[id].live > 0, "action-destroyed-twice", "a functor is destroyed twice");
      g->n[id].live--;
    });
    id = -1;
  }
};

inline void fill_priv(N& n, int round) {
  unsigned char* p = (unsigned char*)n.raw->get_private_buffer();
  size_t s = n.raw->get_private_buffer_size();
  int id = (int)(&n - g->n);
  quiet([&] {
    for (size_t i = 0; i < s; ++i) p[i] = (unsigned char)(id * 31 + round * 7 + (int)i);
  });
}
inline void check_priv(N& n, int round) {
  unsigned char* p = (unsigned char*)n.raw->get_private_buffer();
  size_t s = n.raw->get_private_buffer_size();
  int id = (int)(&n - g->n);
  quiet([&] {
    for (size_t i = 0; i < s; ++i)
      RT_CHECK(p[i] == (unsigned char)(id * 31 + round * 7 + (int)i), "private-buffer-changed", "byte %zu of %zu of the private buffer of task %d changed while the task was suspended", i, s, id);
  });
}

// the one body behind all forms; returns what the task is to report
inline int body(int id, bool has_data, void* data) {
  Task* self = Task::this_task();
  bool more = false;
  N* np = nullptr;
  quiet([&] {
    RT_CHECK(self != nullptr, "wrong-current-task", "no current task inside a body");
    if (id < 0)
      for (int i = 0; i < g->nn; ++i)
        if (g->n[i].made && !g->n[i].gone && g->n[i].raw == self) id = i;
    if (id < 0) id = g->creating;
    RT_CHECK(id >= 0, "wrong-current-task", "the current task inside a body is none of the created ones");
    N& n = *(np = &g->n[id]);
    if (!n.raw) n.raw = self;
    RT_CHECK(n.raw == self, "wrong-current-task", "inside the body of task %d another task is current", id);
    n.started++;
    RT_CHECK(n.started == 1, "entered-twice", "the body of task %d was entered again", id);
    const bool by_parent = n.attached && g->n[n.parent].ended();
    RT_CHECK(!n.gone || by_parent, "entered-after-end", "task %d was entered after its last handle was dropped", id);
    RT_CHECK(g->starting == id || by_parent, "started-early", "task %d was started by nobody%s", id, n.attached ? ": the task it follows is not over" : "");
    if (has_data) RT_CHECK(!n.expect_known || data == n.expect, "wrong-data", "task %d was started with other data than promised", id);
    if (g->creating != id) RT_CHECK(n.live <= 1, "action-copied", "%d copies of the functor of task %d exist while it runs", n.live, id);
    if (n.form < F_FN_INT) RT_CHECK(n.live >= 1, "action-destroyed-early", "the functor of task %d does not exist while it runs", id);
    more = n.left > 0;
  });
  N& n = *np;
  RT_CHECK(self->get_status() == (n.killed ? n.status : (int)cotask::EN_TS_RUNNING), "wrong-status", "task %d is not running while its body runs", id);
  size_t ps = self->get_private_buffer_size();
  quiet([&] {
    RT_CHECK(ps >= n.priv, "private-buffer-size", "task %d asked for a private buffer of %zu bytes and has %zu", id, n.priv, ps);
    unsigned char* pb = (unsigned char*)self->get_private_buffer();
    char here;
    RT_CHECK(ps == 0 || (pb > (unsigned char*)&here), "private-buffer-misplaced", "the private buffer of task %d lies in the live part of its stack", id);
  });
  for (int r = 0; more; ++r) {
    fill_priv(n, r);
    void* got = self;  // must be overwritten
    int y = self->yield(&got);
    RT_CHECK(y == 0, "yield-failed", "yield of task %d reports %d", id, y);
    Task* now = Task::this_task();
    const bool ex = self->is_exiting();
    check_priv(n, r);
    quiet([&] {
      RT_CHECK(now == self, "wrong-current-task", "after a resume of task %d another task is current", id);
      if (ex) {
        const bool dropped = !n.held && (!n.attached || g->n[n.parent].ended());
        RT_CHECK(n.killed || dropped, "ended-by-nobody", "task %d was ended by nobody", id);
        RT_CHECK(got == (n.status ? n.resume_data : nullptr), "wrong-data", "the end of task %d came with other data than passed", id);
      } else {
        RT_CHECK(!n.killed, "kill-lost", "task %d is continued after its kill but does not know", id);
        RT_CHECK(n.resumes == n.resumed + 1, "resumed-by-nobody", "task %d was continued by nobody", id);
        n.resumed++;
        RT_CHECK(got == n.resume_data, "wrong-data", "task %d was resumed with other data than passed", id);
      }
      more = --n.left > 0 && !ex;
    });
  }
  quiet([&] {
    n.body_done = true;
    if (!n.killed) n.status = cotask::EN_TS_DONE;
  });
  return 1000 + id;
}

struct FIntP : Cnt { using Cnt::Cnt; int operator()(void* p) { return body(id, true, p); } };
struct FIntPC : Cnt { using Cnt::Cnt; int operator()(void* p) const { return body(id, true, p); } };
struct FVoidP : Cnt { using Cnt::Cnt; void operator()(void* p) { body(id, true, p); } };
struct FVoidPC : Cnt { using Cnt::Cnt; void operator()(void* p) const { body(id, true, p); } };
struct FInt : Cnt { using Cnt::Cnt; int operator()() { return body(id, false, nullptr); } };
struct FIntC : Cnt { using Cnt::Cnt; int operator()() const { return body(id, false, nullptr); } };
struct FVoid : Cnt { using Cnt::Cnt; void operator()() { body(id, false, nullptr); } };
struct FVoidC : Cnt { using Cnt::Cnt; void operator()() const { body(id, false, nullptr); } };
struct FLongP : Cnt { using Cnt::Cnt; long operator()(void* p) { return body(id, true, p); } };
struct Act : cotask::impl::task_action_impl {
  Cnt c;
  int add;
  Act(int i, int a = 0) : c(i), add(a) {}
  int operator()(void* p) override { return body(c.id, true, p) + add; }
};
inline int fn_int(void* p) { return body(-1, true, p); }
inline void fn_void(void* p) { body(-1, true, p); }
inline long fn_long(void* p) { return body(-1, true, p) + 100000; }
inline bool fn_bool(void* p) { return body(-1, true, p) != 0; }
inline void* fn_ptr(void* p) { body(-1, true, p); return p; }
struct Inst {
  int id;
  int m_int(void* p) { return body(id, true, p); }
  void m_void(void* p) { body(id, true, p); }
  void m_const(void* p) const { body(id, true, p); }
};
static Inst g_inst[MAXN];

// hands f the functor (or member function and instance) of a form
template <class F>
TP with_form(int form, bool lvalue, int id, F&& f) {
  auto fo = [&](auto&& x) -> TP {
    if (!lvalue) return f(std::move(x));
    reach(PR_LVALUE);
    return f(x);
  };
  switch (form) {
    case F_INT_P: return fo(FIntP(id));
    case F_INT_PC: {
      const FIntPC c(id);
      if (lvalue) return f(c);
      return f(FIntPC(c));
    }
    case F_VOID_P: return fo(FVoidP(id));
    case F_VOID_PC: return fo(FVoidPC(id));
    case F_INT: return fo(FInt(id));
    case F_INT_C: return fo(FIntC(id));
    case F_VOID: return fo(FVoid(id));
    case F_VOID_C: return fo(FVoidC(id));
    case F_LONG_P: return fo(FLongP(id));
    case F_FN_INT: return f(fn_int);
    case F_FN_VOID: return f(fn_void);
    case F_FN_LONG: return f(fn_long);
    case F_FN_BOOL: return f(fn_bool);
    case F_FN_PTR: return f(fn_ptr);
    default: return fo(Act(id));
  }
}
inline bool is_mem(int form) { return form >= F_MEM_INT; }
template <class F>
TP with_mem(int form, int id, F&& f) {
  switch (form) {
    case F_MEM_INT: return f(&Inst::m_int, &g_inst[id]);
    case F_MEM_VOID: return f(&Inst::m_void, &g_inst[id]);
    default: return f(&Inst::m_const, &g_inst[id]);
  }
}

inline size_t stack_of(int sel) {
  static const size_t k[] = {0, 16384, 49152, 64, SIZE_MAX, SIZE_MAX - 100, SIZE_MAX - 5000, SIZE_MAX - 9000, SIZE_MAX / 2 + 1};
  return k[(size_t)sel % (sizeof(k) / sizeof(*k))];
}
inline size_t priv_of(int sel) {
  static const size_t k[] = {0, 1, 7, 48, 20000, 333, 0, 4096, SIZE_MAX, SIZE_MAX - 8, SIZE_MAX - 700, SIZE_MAX / 2, SIZE_MAX - 16000};
  return k[(size_t)sel % (sizeof(k) / sizeof(*k))];
}
inline const StackReg::E* stack_entry(void* addr) {
  auto it = g_stacks->all.upper_bound((char*)addr);
  if (it == g_stacks->all.begin()) return nullptr;
  --it;
  return it->second.live && (char*)addr < it->first + it->second.size ? &it->second : nullptr;
}

// what must be true between operations
inline void settle() {
  for (int i = 0; i < g->nn; ++i) {
    N& n = g->n[i];
    if (!n.made) continue;
    if (n.attached && g->n[n.parent].ended()) {
      RT_CHECK(n.started == 1, "follow-up-lost", "task %d is over but its follow-up %d was not started", n.parent, i);
      if (n.later) { reach(PR_LATER); n.later = false; }
    }
    if (n.form < F_FN_INT) {
      const bool ref = n.held || (n.attached && !n.gone && !g->n[n.parent].ended());
      if (ref) RT_CHECK(n.live == 1, n.live ? "action-copied" : "action-destroyed-early", "%d copies of the functor of task %d exist", n.live, i);
    }
    if (!n.held) continue;
    int s = g->h[i]->get_status(), want = n.status ? n.status : n.started ? cotask::EN_TS_WAITING : cotask::EN_TS_CREATED;
    RT_CHECK(s == want, "wrong-status", "task %d is %s instead of %s", i, tk::st_name(s), tk::st_name(want));
    if (n.status == cotask::EN_TS_DONE && !is_mem(n.form)) {
      int c = g->h[i]->get_ret_code();
      int w = 1000 + i;
      switch (n.form) {
        case F_VOID_P: case F_VOID_PC: case F_VOID: case F_VOID_C: case F_FN_VOID: case F_FN_PTR: w = 0; break;
        case F_LONG_P: w = 0; c = 0; break;
        case F_WITH: w += 5000; break;
        case F_FN_LONG: w += 100000; break;
        case F_FN_BOOL: w = 1; break;
        default: break;
      }
      RT_CHECK(c == w, "wrong-return-code", "task %d (made from form %d) returned %d, reported %d", i, n.form, w, c);
    }
  }
}

inline void run(const Program& p) {
  { cotask::impl::task_impl::id_allocator_t ia; ia.deallocate(ia.allocate()); }
  const uint64_t mark = rt::alloc_mark();
  {
    static const size_t kPool[] = {65536 + 8192, 16384, 32768};
    World w(p.cfg[0], kPool[p.cfg[3] % 3]);
    g = &w;
    w.stacks.reg.fail_den = p.cfg[1];
    for (int i = 0; i < MAXN; ++i) g_inst[i].id = i;
    for (const Op& o : p.ops) {
      N* n = nullptr;
      int id = -1;
      if (o.code == MAKE || o.code == ATTACH) {
        if (w.nn >= MAXN) continue;
        id = w.nn;
      } else {
        if (!w.nn) continue;
        id = o.a % w.nn;
        if (!w.n[id].made) continue;
      }
      n = &w.n[id];
      switch (o.code) {
        case MAKE:
        case ATTACH: {
          int parent = -1;
          if (o.code == ATTACH) {
            if (!w.nn) continue;
            parent = o.a % w.nn;
            if (!w.n[parent].made || !w.n[parent].held) continue;
          }
          w.nn++;
          int how = o.b & 7;                   // own allocator, ready-made handle, then()
          const bool lvalue = o.b >> 3 & 1;
          n->form = (o.b >> 4) % NFORMS;
          size_t ss = stack_of(o.c >> 8), ps = priv_of(o.c >> 4 & 15);
          n->left = n->yields = o.c & 3;
          const bool own = how & 1, ready = o.code == MAKE || how & 2 || n->form == F_WITH;
          const bool then = o.code == ATTACH && how & 4 && !is_mem(n->form);
          AnyAlloc mine;
          const int mine_owner = mine.owner;  // a moved from allocator is worth nothing
          if (then && !ready) {
            ss = w.n[parent].stack;
            ps = w.h[parent]->get_private_buffer_size();
          }
          n->stack = ss ? ss : copp::stack_traits::default_size();
          n->priv = ps;
          if (ps > 4096 && ps < 1000000) reach(PR_BIGPRIV);
          if (ss > 1000000 || ps > 1000000) reach(PR_HUGE);
          void* data = o.c >> 2 & 1 ? nullptr : (void*)w.tok[id];
          const uint64_t fails = g_stacks->fails, stacks = g_stacks->live;
          TP t;
          w.creating = id;
          n->raw = nullptr;
          if (o.code == ATTACH && !ready) {
            n->attached = true;
            n->parent = parent;
            n->expect_known = true;
            n->expect = data;
          }
          const bool ended = parent >= 0 && w.n[parent].ended();
          auto make = [&]() -> TP {
            if (n->form == F_WITH) return Task::create_with<Act>(mine, ss, ps, id, 5000);
            if (is_mem(n->form))
              return with_mem(n->form, id, [&](auto m, auto i) -> TP {
                if (own) return Task::create(m, i, mine, ss, ps);
                return Task::create(m, i, ss, ps);
              });
            return with_form(n->form, lvalue, id, [&](auto&& f) -> TP {
              typedef decltype(f) FT;
              if (own) return Task::create(std::forward<FT>(f), mine, ss, ps);
              return Task::create(std::forward<FT>(f), ss, ps);
            });
          };
          if (o.code == MAKE || ready) {
            t = make();
          } else if (is_mem(n->form)) {
            t = with_mem(n->form, id, [&](auto m, auto i) -> TP {
              if (own) return w.h[parent]->next(m, i, mine, data, ss, ps);
              return w.h[parent]->next(m, i, data, ss, ps);
            });
          } else {
            t = with_form(n->form, lvalue, id, [&](auto&& f) -> TP {
              typedef decltype(f) FT;
              if (then) return w.h[parent]->then(std::forward<FT>(f), data);
              if (own) return w.h[parent]->next(std::forward<FT>(f), mine, data, ss, ps);
              return w.h[parent]->next(std::forward<FT>(f), data, ss, ps);
            });
          }
          w.creating = -1;
          const bool self = o.code == ATTACH && !ready && t == w.h[parent];
          const size_t need = sizeof(Task) + sizeof(void*), limit = w.stacks.reg.pool_stack;
          const bool given = w.stacks.reg.kind == AK_MEMORY || w.stacks.reg.kind == AK_POOL;   // stacks of the size these were set up with
          const bool small = n->stack <= need || n->stack - need <= ps || (given && (limit <= need || limit - need <= ps));
          if (!t || self) {
            RT_CHECK(!t || self || o.code == ATTACH, "creation-failed", "next() returned neither the new task nor the old one");
            RT_CHECK(!(o.code == ATTACH && !ready) || self, "creation-failed", "a failed next() returned an empty handle");
            RT_CHECK(small || g_stacks->fails > fails, "creation-failed", "creation of task %d (form %d, stack %zu, private %zu) failed although nothing was refused", id, n->form, ss, ps);
            RT_CHECK(n->live == 0, "action-leaked", "after a failed creation %d copies of the functor are left", n->live);
            RT_CHECK(g_stacks->live == stacks, "stack-leaked", "a failed creation kept a stack");
            RT_CHECK(n->started == 0, "entered-twice", "a failed creation ran the body");
            reach(small ? PR_SMALL : PR_FAILED);
            if (self) reach(PR_ATTACH_FAILED);
            n->attached = false;
            break;
          }
          RT_CHECK(!small, "creation-succeeded", "a task with %zu bytes private buffer was made in a stack of %zu", ps, n->stack);
          RT_CHECK(!n->raw || n->raw == t.get(), "wrong-current-task", "the body ran in another task than the one returned");
          n->raw = t.get();
          n->made = n->held = true;
          w.h[id] = t;
          RT_CHECK(t->get_private_buffer_size() >= ps, "private-buffer-size", "task %d asked for a private buffer of %zu bytes and has %zu", id, ps, t->get_private_buffer_size());
          if (then && !ready) {
            reach(PR_THEN);
            const StackReg::E *a = stack_entry(n->raw), *b = stack_entry(w.n[parent].raw);
            RT_CHECK(a && b, "foreign-stack", "a task lies outside of all stacks");
            RT_CHECK(a->owner == b->owner, "wrong-allocator", "then() took the stack of task %d from allocator %d, its parent's is %d", id, a->owner, b->owner);
            RT_CHECK(a->size == b->size, "stack-too-small", "then() made a stack of %zu bytes, its parent's has %zu", a->size, b->size);
          } else {
            const StackReg::E* a = stack_entry(n->raw);
            RT_CHECK(a, "foreign-stack", "task %d lies outside of all stacks", id);
            if (own || n->form == F_WITH) RT_CHECK(a->owner == mine_owner, "wrong-allocator", "the stack of task %d did not come from the allocator passed", id);
            if (w.stacks.reg.kind != AK_MEMORY && w.stacks.reg.kind != AK_POOL)
              RT_CHECK(a->size >= n->stack && a->size <= n->stack + 3 * copp::stack_traits::page_size(), "stack-too-small", "task %d asked for a stack of %zu bytes and got %zu", id, n->stack, a->size);
          }
          if (o.code == ATTACH && ready) {
            n->attached = true;
            n->parent = parent;
            n->expect_known = true;
            n->expect = data;
            TP r = then ? w.h[parent]->then(t, data) : w.h[parent]->next(t, data);
            RT_CHECK(r == t, "creation-failed", "next() did not return the follow-up");
          }
          if (o.code == ATTACH) {
            if (ended) {
              reach(PR_IMMEDIATE);
            } else {
              n->later = true;
            }
          }
          break;
        }
        case START: {
          if (!n->held || (n->attached && !w.n[n->parent].ended())) continue;
          const bool can = !n->started && !n->status;
          void* data = o.b & 1 ? (void*)(w.tok[id] + 1) : nullptr;
          if (can) {
            n->expect_known = true;
            n->expect = data;
            w.starting = id;
          } else if (!n->status) {
            continue;          // starting a waiting task continues it: that is what resume is for here
          }
          int r = w.h[id]->start(data);
          w.starting = -1;
          RT_CHECK(r == (can ? 0 : (int)copp::COPP_EC_ALREADY_FINISHED), "wrong-result", "start of task %d reports %d", id, r);
          break;
        }
        case RESUME: {
          if (!n->held) continue;
          if (!n->started && !n->status) {
            continue;
          }
          const bool can = !n->status;
          void* data = o.b & 1 ? (void*)(w.tok[id] + 2 + (o.b & 15)) : nullptr;
          if (can) {
            n->resumes++;
            n->resume_data = data;
          }
          int r = w.h[id]->resume(data);
          RT_CHECK(r == (can ? 0 : (int)copp::COPP_EC_ALREADY_FINISHED), "wrong-result", "resume of task %d reports %d", id, r);
          if (can) RT_CHECK(n->resumed == n->resumes, "resume-lost", "resume of task %d did not continue its body", id);
          break;
        }
        case KILL:
        case CANCEL: {
          if (!n->held) continue;
          const bool can = !n->status;
          const int st = o.code == KILL ? cotask::EN_TS_KILLED : cotask::EN_TS_CANCELED;
          void* data = o.b & 1 ? (void*)(w.tok[id] + 20 + (o.b & 15)) : nullptr;
          if (can) {
            n->killed = true;
            n->status = st;
            n->resume_data = data;
            if (!n->started) {
              n->expect_known = true;
              n->expect = data;
              w.starting = id;
            }
          }
          rt::count_fault(rt::F_KILL);
          int r = o.code == KILL ? w.h[id]->kill(cotask::EN_TS_KILLED, data) : w.h[id]->cancel(data);
          w.starting = -1;
          if (can) RT_CHECK(n->body_done, "kill-lost", "the end of task %d did not run its body to its end", id);
          RT_CHECK(r == (can ? 0 : (int)copp::COPP_EC_ALREADY_FINISHED), "wrong-result", "kill of task %d reports %d", id, r);
          break;
        }
        case DROP: {
          if (!n->held) continue;
          rt::count_fault(rt::F_DROP);
          const bool last = !(n->attached && !w.n[n->parent].ended());
          if (last) {
            if (!n->started && !n->status) reach(PR_DROPPED);
            n->gone = true;
            if (!n->status && n->started) n->killed = true;
          }
          n->held = false;
          w.h[id].reset();
          if (last && n->form < F_FN_INT) RT_CHECK(n->live == 0, "action-leaked", "task %d is gone but %d copies of its functor live", id, n->live);
          break;
        }
        default: break;
      }
      rt::state_mark((uint64_t)o.code << 32 | (uint64_t)n->form << 16 | (uint64_t)n->status << 8 | (uint64_t)n->started << 4 | (n->attached ? 2u : 0u) | (n->held ? 1u : 0u));
      // a follow-up nobody else holds goes when it is over
      quiet([&] {
        for (bool again = true; again;) {
          again = false;
          for (int i = 0; i < w.nn; ++i) {
            N& x = w.n[i];
            if (x.made && !x.gone && !x.held && x.attached && w.n[x.parent].ended()) {
              x.gone = again = true;
              if (!x.body_done) x.killed = true;
              if (x.form < F_FN_INT) RT_CHECK(x.live == 0, "action-leaked", "task %d is gone but %d copies of its functor live", i, x.live);
            }
          }
        }
      });
      settle();
    }
    for (int k = 0; k < w.nn; ++k) {
      int i = p.cfg[2] & 1 ? w.nn - 1 - k : k;
      if (!w.n[i].held) continue;
      const bool last = !(w.n[i].attached && !w.n[w.n[i].parent].ended());
      if (last) w.n[i].gone = true;
      if (last && w.n[i].started) w.n[i].killed = true;
      w.n[i].held = false;
      w.h[i].reset();
    }
    for (int i = 0; i < w.nn; ++i) RT_CHECK(w.n[i].live == 0, "action-leaked", "all handles are gone but %d copies of the functor of task %d live", w.n[i].live, i);
    w.stacks.finish();
  }
  g = nullptr;
  g_stacks = nullptr;
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}

inline void gen(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[0] = (int)r.below(AK_KINDS);
  p.cfg[1] = r.chance(1, 3) ? r.range(2, 5) : 0;
  p.cfg[2] = (int)r.below(2);
  p.cfg[3] = (int)r.below(3);
  int n = r.range(2, thorough ? 40 : 26);
  for (int i = 0; i < n; ++i) {
    Op o{};
    static const int wt[] = {4, 6, 5, 4, 1, 1, 2};
    int x = (int)r.below(23), c = 0;
    while (x >= wt[c]) x -= wt[c++];
    o.code = i == 0 ? (int)MAKE : c;
    o.a = (int)r.below(MAXN);
    o.b = (int)r.below(8) | (int)r.below(2) << 3 | (int)r.below(NFORMS) << 4;
    // tiny stacks now and then only
    int ss = r.chance(1, 12) ? 3 + (int)r.below(6) : (int)r.below(3);
    int ps = r.chance(1, 20) ? 8 + (int)r.below(5) : (int)r.below(8);
    o.c = (int)r.below(4) | (int)r.below(2) << 2 | ps << 4 | ss << 8;
    if (o.code != MAKE && o.code != ATTACH) o.b = (int)r.below(16);
    p.ops.push_back(o);
  }
}
}  // namespace tf
