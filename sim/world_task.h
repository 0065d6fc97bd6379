// A world of stackful tasks (cotask::task) and task managers, operated on by simulated threads, by the tasks' own
// bodies and by their completion callbacks. Every library call is wrapped and checked against a model:
//  - who is inside which body, which call's data arrives where                       (P03, P08)
//  - exactly one terminal status, exactly one completion callback                    (P03)
//  - follow-ups, awaiting tasks and awaiting C++20 coroutines are activated once     (P04)
//  - which exceptions must come out of which call                                    (P02)
//  - when actions, tasks and stacks may be destroyed                                 (P05)
//  - deadlines (P06), manager membership and return codes (P07), linearizability (P08)
#pragma once
#include "alloc_trace.h"

#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/utils/errno.h>
#include <libcotask/task.h>
#include <libcotask/task_manager.h>

#include <stdint.h>
#include <string.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <stdexcept>

#define TK_COMP "task, task_impl, task_manager, coroutine_context, intrusive_ptr, spin_lock, stack allocators, fcontext assembly (real); threads, malloc, mmap, thread-local keys (simulated)"

namespace tk {
using namespace h;

struct Macro {
  using stack_allocator_type = AnyAlloc;
  using coroutine_type = copp::coroutine_context_container<AnyAlloc>;
  using value_type = int;
};
typedef cotask::task<Macro> Task;
typedef Task::ptr_type TP;
typedef cotask::task_manager<Task> Mgr;
typedef std::list<std::exception_ptr> EL;

enum { MAXT = 6, MAXA = 10, MAXM = 2 };
enum { START, RESUME, KILL, CANCEL, DROP, NEXT, POLL, PAUSE, M_ADD, M_START, M_RESUME, M_CANCEL, M_KILL, M_REMOVE, M_SETTO, M_TICK, M_FIND,
       M_RESET, M_DESTROY, CO_AWAIT, CO_KILL, YIELD, AWAIT, THROW, KEEP, NOPS };
static const char* const kOps[] = {"start", "resume", "kill", "cancel", "drop_ref", "next", "poll", "pause", "mgr_add", "mgr_start", "mgr_resume", "mgr_cancel",
                                   "mgr_kill", "mgr_remove", "mgr_set_timeout", "mgr_tick", "mgr_find", "mgr_reset", "mgr_destroy", "cxx20_co_await", "cxx20_kill",
                                   "yield", "await_task", "throw", "keep_own_handle", nullptr};
enum { PR_KILL_RUN, PR_SELFKILL, PR_REFUSED, PR_IMMEDIATE, PR_ACTIVATED, PR_AWAIT_WAKE, PR_AWAIT_KILLED, PR_THROW, PR_MULTI_THROW, PR_CB_THROW, PR_LAST_DROP,
       PR_DROP_CREATED, PR_TIMEOUT, PR_TICK_IGNORED, PR_REENTER, PR_MIGRATE, PR_CREATE_FAIL, PR_CO_WAKE, PR_CO_KILL, PR_LINEAR, PR_CONFIRM, PR_PARKED, PR_KEPT, PR_OUTSIDE, PR_CO_ACTS, PR_CO_GONE, PR_CO_TASK, PR_PLAIN, PR_REREG };
static const char* const kProbes[] = {"killed while its body was running", "killed from inside its own body", "call refused: running or finished",
                                      "follow-up of a finished task started at once", "follow-up activated by the finishing call", "awaiting task woken by the end of its target",
                                      "awaiting task killed while waiting", "body threw", "one call collected several exceptions", "completion callback threw",
                                      "suspended task ended by the drop of its last reference", "never started task dropped", "task ended by a tick", "tick ignored",
                                      "manager called from inside one of its own calls", "task continued on another thread", "creation failed for lack of a stack",
                                      "awaiting C++20 coroutine woken", "awaiting C++20 coroutine killed while waiting",
                                      "history with competing manager calls on one task checked for a sequential order",
                                      "removal naming another task refused",
                                      "C++20 coroutine that had awaited a task went on waiting for something else",
                                      "task kept itself while its last reference was being dropped",
                                      "another tried to wait or yield in the name of a task",
                                      "C++20 coroutine acted on tasks as soon as the one it awaited was over",
                                      "task dropped unstarted while a C++20 coroutine awaited it", "C++20 task awaited a stackful task",
                                      "a coroutine that is no task acted on tasks",
                                      "one follow-up registered several times on one task", nullptr};

struct Cfg { enum { TASKS, THREADS, ALLOC, MGRS, FAIL, LIFE, PRESTART, DEDICATED, KEEPMAIN, CLOCK, PRIV, COS }; };

struct Boom : std::runtime_error {
  int task;
  uint64_t serial, check;
  Boom(int t, uint64_t s) : std::runtime_error("boom"), task(t), serial(s), check(~s) {}
};

enum { TOK_DRIVE, TOK_KILL, TOK_REG };
struct Tok {
  int kind, task, thread;
  int consumed;
  bool open;
  int from;          // registration: the task that finishes
  bool immediate;    // consumed while the registering call was in progress
  bool registered;
  bool too_late;     // registration: the follow-up was over already
  uint64_t cookie;
};
struct Frame {
  int op, task, mgr;
  int thread;
  uint64_t begin, end;
  std::vector<uint64_t> expect;   // exceptions this call must deliver
  std::vector<int> finished;      // tasks whose completion callback ran directly under this call
  std::vector<int> drove;
  int64_t now;
  bool effective;
  bool reset_inside;
  Tok* tok;
};
struct Hist {  // one manager call in the history of (manager, task)
  int m, t, kind, res;
  uint64_t begin, end;
};
enum { H_ADD, H_LEAVE, H_TOUCH, H_MAYBE };

struct T {
  int id = 0;
  Task* raw = nullptr;
  uint64_t tid = 0;
  int owner = 0;
  bool created = false, entered = false, active = false, ended = false, threw = false;
  int in_await = -1, awaits = 0;
  int pc = 0, ret = 0;
  int thread = -1;
  int term = 0;                    // terminal status seen
  int finish_cb = 0;
  int null_after_end = 0;          // entered after its end was decided, without data
  Tok* win_tok = nullptr;          // data of the call that ended it
  bool finish_done = false;        // the call that finished it has returned
  int finish_thread = -1;
  uint64_t fin_begin = 0, drive_end = 0;
  int drive_thread = -1;
  Frame* driver = nullptr;
  int wins = 0, win_status = 0;
  bool tick_seen = false;
  bool any_kill_call = false, any_tick = false;
  int action_made = 0, action_dead = 0;
  uint64_t payload = 0, cb_payload = 0;
  uint64_t boom = 0;
  std::vector<Op> script, cb;
  bool dedicated = false, claimed = false;
  int claimed_by = -1, claims = 0;
  size_t priv = 0;
  int inprog = 0;                  // calls in progress that name it, other than drops of a handle
};
enum { COW_MAX = 4 };
enum { BY_HANDLE, BY_REF, BY_COPY, UNHELD };   // how a coroutine names the task it awaits
struct CoF {                       // the coroutine: a callable or a C++20 task
  std::unique_ptr<copp::callable_future<int> > c;
  std::unique_ptr<cotask::task_future<int, void> > t;
  bool ready() { return t ? t->is_completed() : c->is_ready(); }
  void kill(copp::promise_status s, bool force) {
    if (t) t->kill(s, force);
    else c->kill(s, force);
  }
};
struct CoW {                       // a C++20 coroutine awaiting a task
  int target = -1, form = 0, id = 0;
  bool busy = false;               // performs operations
  bool started = false, resumed = false, finished = false, killed = false;
  bool park = false, parked = false, opened = false;  // goes on to wait for something the library knows nothing of
  std::coroutine_handle<> parked_at;
  int result = 0;
  uint64_t begin = 0;
};

struct World {
  StackScope stacks;
  T t[MAXT];
  int nt = 0, nth = 1, nm = 0;
  bool single = false, life = false;
  TP slot[MAXA][MAXT];
  std::unique_ptr<Mgr> mgr[MAXM];
  Mgr* mraw[MAXM] = {};
  // manager model (exact when there is one thread)
  bool in[MAXM][MAXT] = {};
  bool has_dl[MAXM][MAXT] = {};
  int64_t dl[MAXM][MAXT] = {};
  int64_t min_dl[MAXT];
  int64_t last[MAXM] = {};
  int in_reset[MAXM] = {};
  int in_tick[MAXM] = {};
  int64_t clock[MAXM] = {};
  std::vector<Hist> hist;
  std::deque<Tok> toks;
  std::vector<Frame*> fr[rt::kMaxThreads];
  std::vector<int> stk[rt::kMaxThreads];
  uint64_t booms = 0;
  bool final_phase = false;
  std::unique_ptr<CoF> cos[COW_MAX];
  int ncos = 0;
  CoW cow[COW_MAX];
  std::vector<Op> coop[COW_MAX];
  explicit World(int kind) : stacks(kind, 65536 + 8192) {
    for (auto& x : min_dl) x = INT64_MAX;
  }
};
extern World* g_w;

inline const char* st_name(int s) {
  static const char* const n[] = {"invalid", "created", "running", "waiting", "done", "cancelled", "killed", "timeout"};
  return s >= 0 && s < 8 ? n[s] : "?";
}

// ------------------------------------------------------------------ observation
// reads the status through a handle the caller holds
inline int observe(T& t) {
  const int seen = (int)t.raw->get_status();  // an ordinary read, which orders what follows after the end of the task
  quiet([&] {
    int s = (int)t.raw->get_status();
    if (t.term) RT_CHECK(s == t.term, "status-changed", "task %d was %s and is now %s", t.id, st_name(t.term), st_name(s));
    if (s >= cotask::EN_TS_DONE) t.term = s;
    bool ex = t.raw->is_exiting();
    RT_CHECK(ex == (s >= cotask::EN_TS_DONE), "status-inconsistent", "task %d: is_exiting %d, status %s", t.id, (int)ex, st_name(s));
    RT_CHECK(t.raw->is_canceled() == (s == cotask::EN_TS_CANCELED) && t.raw->is_timeout() == (s == cotask::EN_TS_TIMEOUT) &&
                 t.raw->is_faulted() == (s >= cotask::EN_TS_KILLED),
             "status-inconsistent", "task %d: status predicates disagree with %s", t.id, st_name(s));
    if (t.raw->is_completed()) RT_CHECK(t.ended, "completed-early", "task %d is reported completed before its action stopped", t.id);
    if (s == cotask::EN_TS_DONE) RT_CHECK(t.ended, "done-early", "task %d is done before its action ended", t.id);
  });
  return seen;
}
inline int slots_of(int t) {
  int n = 0;
  for (auto& a : g_w->slot)
    if (a[t]) ++n;
  return n;
}

inline Frame* top() {
  auto& f = g_w->fr[rt::self()];
  return f.empty() ? nullptr : f.back();
}

// ------------------------------------------------------------------ body events
inline Tok* find_tok(void* d) {
  for (auto& x : g_w->toks)
    if (&x == d) return &x;
  return nullptr;
}
inline void leave_managers(T& t, int m_only = -1) {
  for (int m = 0; m < MAXM; ++m)
    if (m_only < 0 || m == m_only) {
      g_w->in[m][t.id] = false;
      g_w->has_dl[m][t.id] = false;
    }
}
inline void check_tick_kill(T& t) {
  Frame* f = top();
  if (!f || f->op != M_TICK || t.tick_seen || t.term != cotask::EN_TS_TIMEOUT) return;
  t.tick_seen = true;
  reach(PR_TIMEOUT);
  rt::count_fault(rt::F_KILL);
  if (g_w->life) return;
  if (g_w->single) {
    const int m = f->mgr;
    RT_CHECK(f->effective, "timeout-early", "task %d ended by a tick that does not advance the clock", t.id);
    RT_CHECK(g_w->in[m][t.id] && g_w->has_dl[m][t.id], "timeout-stray", "task %d ended by a tick although it has no timeout in that manager", t.id);
    RT_CHECK(g_w->dl[m][t.id] < f->now, "timeout-early", "task %d, due at %lld, ended by the tick at %lld", t.id, (long long)g_w->dl[m][t.id], (long long)f->now);
    leave_managers(t, m);
  } else {
    RT_CHECK(g_w->min_dl[t.id] < f->now, "timeout-early", "task %d, due at %lld or later, ended by the tick at %lld", t.id, (long long)g_w->min_dl[t.id], (long long)f->now);
  }
}

inline void enter(T& t, void* data, const char* how, bool await = false) {
  Tok* tok = nullptr;
  bool kill_data = false;
  observe(t);
  quiet([&] {
    RT_CHECK(!t.active, "entered-while-running", "task %d entered while it is running", t.id);
    RT_CHECK(!t.ended, "entered-after-end", "task %d entered after its action ended", t.id);
    RT_CHECK(t.action_dead == 0, "action-destroyed", "the action of task %d runs after its destruction", t.id);
    Frame* f = top();
    RT_CHECK(f != nullptr, "entered-by-nobody", "task %d entered outside any call", t.id);
    if (!await) {
      if (data) {
        tok = find_tok(data);
        RT_CHECK(tok != nullptr, "wrong-data", "task %d, %s: data pointer %p was passed by no call", t.id, how, data);
        RT_CHECK(tok->task == t.id, "wrong-data", "task %d, %s: got the data meant for task %d", t.id, how, tok->task);
        if (tok->kind == TOK_DRIVE) {
          RT_CHECK(tok->consumed == 0 || t.term, "wrong-data", "task %d, %s: one call entered it twice", t.id, how);
          RT_CHECK(tok->thread == rt::self(), "wrong-thread", "task %d continues on thread %d, driven by thread %d", t.id, rt::self(), tok->thread);
          RT_CHECK(tok->open, "wrong-data", "task %d entered by a call that had returned", t.id);
        } else if (tok->kind == TOK_KILL) {
          RT_CHECK(t.term, "wrong-data", "task %d resumed with a kill's data but it is not ending", t.id);
          kill_data = true;
        } else {
          RT_CHECK(tok->consumed == 0 || t.term, "activated-twice", "the follow-up %d of task %d was activated twice", t.id, tok->from);
          T& a = g_w->t[tok->from];
          bool dropped = !a.entered && slots_of(a.id) == 0;
          if (a.action_dead == 0 && a.raw) {
            int s = (int)a.raw->get_status();
            if (s >= cotask::EN_TS_DONE) a.term = s;
          }
          RT_CHECK(a.ended || a.term || dropped, "activated-early", "the follow-up %d was activated before task %d finished", t.id, a.id);
          if (f->op == NEXT && f->tok == tok) {
            tok->immediate = true;
            reach(PR_IMMEDIATE);
          } else {
            if (a.term) RT_CHECK(a.finish_cb == 1, "activated-early", "the follow-up %d was activated before the completion callback of task %d", t.id, a.id);
            reach(PR_ACTIVATED);
          }
        }
        tok->consumed++;
      } else {
        bool ok = t.term != 0 || g_w->final_phase;
        if (t.term) t.null_after_end++;
        RT_CHECK(ok, "wrong-data", "task %d, %s: continued without data although nothing ended it", t.id, how);
      }
    }
    t.active = true;
    t.driver = f;
    bool seen = false;
    for (int x : f->drove)
      if (x == t.id) seen = true;
    if (!seen) f->drove.push_back(t.id);
    if (t.thread >= 0 && t.thread != rt::self()) reach(PR_MIGRATE);
    t.thread = rt::self();
    g_w->stk[rt::self()].push_back(t.id);
    check_tick_kill(t);
    rt::event(11, (uint64_t)t.id, (uint64_t)rt::self());
  });
  if (tok && !kill_data) rt::user_read(&tok->cookie, 8, "data passed to a task");
  if (kill_data) rt::user_read(&tok->cookie, 8, "data passed to a killed task");
  rt::user_write(&t.payload, 8, "task-owned data");
  t.payload = t.payload * 31 + 7;
  Task* me = cotask::this_task::get<Task>();
  RT_CHECK(me == t.raw, "wrong-current", "inside task %d the current task is %p, not %p", t.id, (void*)me, (void*)t.raw);
}
inline void leave(T& t) {
  rt::user_write(&t.payload, 8, "task-owned data");
  t.payload ^= 5;
  quiet([&] {
    auto& s = g_w->stk[rt::self()];
    RT_CHECK(!s.empty() && s.back() == t.id, "wrong-thread", "task %d is not the innermost on thread %d", t.id, rt::self());
    s.pop_back();
    t.active = false;
    rt::event(12, (uint64_t)t.id, (uint64_t)rt::self());
  });
}
[[noreturn]] inline void throw_boom(T& t, int probe) {
  uint64_t s = 0;
  quiet([&] {
    s = ++g_w->booms;
    reach(probe);
    rt::count_fault(rt::F_THROW);
  });
  throw Boom(t.id, s);
}
inline void expect_boom(uint64_t serial) {
  quiet([&] { top()->expect.push_back(serial); });
}

// ------------------------------------------------------------------ call frames
struct FrameGuard {
  Frame f;
  FrameGuard(int op, int task, int mgr) {
    quiet([&] {
      f = Frame();
      f.op = op;
      f.task = task;
      f.mgr = mgr;
      f.thread = rt::self();
      f.begin = rt::seq();
      if (mgr >= 0)
        for (auto* x : g_w->fr[rt::self()])
          if (x->mgr == mgr) reach(PR_REENTER), rt::count_fault(rt::F_REENTER);
      g_w->fr[rt::self()].push_back(&f);
      if (task >= 0 && op != DROP) g_w->t[task].inprog++;
    });
  }
  void done();
  ~FrameGuard() {}
};
inline void check_members(bool strict);

inline void FrameGuard::done() {
  quiet([&] {
    auto& v = g_w->fr[rt::self()];
    RT_CHECK(!v.empty() && v.back() == &f, "wrong-return", "a call returned to the wrong place");
    v.pop_back();
    f.end = rt::seq();
    if (f.task >= 0 && f.op != DROP) g_w->t[f.task].inprog--;
    for (int x : f.drove) {
      T& t = g_w->t[x];
      if (t.driver == &f) {
        t.driver = nullptr;
        t.drive_end = f.end;
        t.drive_thread = f.thread;
      }
    }
    for (int x : f.finished) {
      T& t = g_w->t[x];
      t.finish_done = true;
      t.finish_thread = f.thread;
      leave_managers(t);
      if (!g_w->single)
        for (int m = 0; m < g_w->nm; ++m) g_w->hist.push_back(Hist{m, x, H_MAYBE, 0, f.begin, f.end});
      if (g_w->single) {
        for (int k = 0; k < g_w->nt; ++k) {
          T& o = g_w->t[k];
          if (o.created && o.in_await == x && !o.active && !o.ended)
            rt::fail("wake-up-lost", "task %d finished but task %d, which awaits it, was not resumed", x, k);
        }
        for (auto& c : g_w->cow)
          if (c.started && c.target == x) RT_CHECK(c.finished, "wake-up-lost", "task %d finished but a coroutine awaiting it was not resumed", x);
      }
    }
    if (g_w->single && f.mgr < 0) check_members(false);  // manager calls check once the model knows their result
  });
}
// exceptions that came out of the call
inline void check_booms(Frame& f, bool list, const std::vector<uint64_t>& got) {
  quiet([&] {
    std::vector<uint64_t> e(f.expect), g(got);
    if (e.size() > 1) reach(PR_MULTI_THROW);
    if (list) {
      std::sort(e.begin(), e.end());
      std::sort(g.begin(), g.end());
      RT_CHECK(e == g, e.size() > g.size() ? "exception-lost" : "stray-exception", "%s of task %d: %zu exceptions were thrown under this call, %zu came out of it", kOps[f.op], f.task, e.size(), g.size());
    } else {
      RT_CHECK(e.empty() == g.empty(), e.empty() ? "stray-exception" : "exception-lost", "%s of task %d: %zu exceptions were thrown under this call, %zu came out of it", kOps[f.op],
               f.task, e.size(), g.size());
      if (!e.empty()) RT_CHECK(std::find(e.begin(), e.end(), g[0]) != e.end(), "stray-exception", "%s of task %d delivered an exception thrown elsewhere", kOps[f.op], f.task);
    }
  });
}
inline uint64_t boom_of(const std::exception_ptr& ep) {
  try {
    std::rethrow_exception(ep);
  } catch (const Boom& b) {
    RT_CHECK(b.check == ~b.serial, "exception-damaged", "the exception object was damaged");
    return b.serial;
  } catch (...) {
    rt::fail("wrong-exception", "a foreign exception came out of a call");
  }
}
// fl(list) or ft(); returns the result; exceptions are checked, and passed on when `escape`
template <class FL, class FT>
inline int guarded(FrameGuard& g, bool list, std::exception_ptr* escape, FL fl, FT ft) {
  int r = 0;
  std::vector<uint64_t> got;
  std::exception_ptr keep;
  if (list) {
    EL el;
    r = fl(el);
    for (auto& x : el) {
      RT_CHECK((bool)x, "stray-exception", "an empty exception was reported");
      got.push_back(boom_of(x));
      if (!keep) keep = x;
    }
  } else {
    try {
      r = ft();
    } catch (const Boom& b) {
      RT_CHECK(b.check == ~b.serial, "exception-damaged", "the exception object was damaged");
      got.push_back(b.serial);
      keep = std::current_exception();
      r = 1;
    }
  }
  g.done();
  check_booms(g.f, list, got);
  if (keep && escape) *escape = keep;
  return r;
}

inline Tok* new_tok(int kind, int task) {
  Tok* k = nullptr;
  quiet([&] {
    g_w->toks.push_back(Tok());
    k = &g_w->toks.back();
    *k = Tok();
    k->kind = kind;
    k->task = task;
    k->thread = rt::self();
    k->open = true;
    k->from = -1;
  });
  rt::user_write(&k->cookie, 8, "data passed to a task");
  k->cookie = 1234567 + (uint64_t)task;
  return k;
}
inline bool on_stack(int t) {
  for (auto& s : g_w->stk)
    for (int x : s)
      if (x == t) return true;
  return false;
}

// a handle dropped by harness code: may end a suspended task
inline void drop_handle(TP& h, int t) {
  if (!h) return;
  FrameGuard g(DROP, t, -1);
  quiet([&] {
    if (h->use_count() == 1 && g_w->t[t].entered && !g_w->t[t].ended) reach(PR_LAST_DROP), rt::count_fault(rt::F_DROP);
    if (h->use_count() == 1 && !g_w->t[t].entered) reach(PR_DROP_CREATED), rt::count_fault(rt::F_DROP);
  });
  TP gone;
  quiet([&] { gone.swap(h); });
  gone.reset();
  g.done();
  check_booms(g.f, true, {});
}

// what a call naming an unfinished / finished task must answer
inline void check_drive_result(T& t, int r, int st0, Tok* tok, bool was_await, bool threw) {
  quiet([&] {
    if (threw) return;
    if (r == copp::COPP_EC_SUCCESS) {
      if (!was_await) RT_CHECK(tok->consumed >= 1, "not-entered", "a call driving task %d reported success but entered nothing", t.id);
      RT_CHECK(st0 < cotask::EN_TS_DONE, "entered-after-end", "driving task %d, which was already %s, reported success", t.id, st_name(st0));
      if (g_w->single) RT_CHECK(st0 != cotask::EN_TS_RUNNING, "entered-while-running", "driving the running task %d reported success", t.id);
    } else {
      reach(PR_REFUSED);
      RT_CHECK(tok->consumed == 0, "entered-with-error", "a call driving task %d entered it but reported %d", t.id, r);
      RT_CHECK(r == copp::COPP_EC_IS_RUNNING || r == copp::COPP_EC_ALREADY_FINISHED, "odd-error", "driving task %d reported %d", t.id, r);
      if (st0 >= cotask::EN_TS_DONE) RT_CHECK(r == copp::COPP_EC_ALREADY_FINISHED, "finished-not-reported", "driving task %d, already %s, reported %d", t.id, st_name(st0), r);
      if (g_w->single && st0 < cotask::EN_TS_DONE)
        RT_CHECK(r == copp::COPP_EC_IS_RUNNING && st0 == cotask::EN_TS_RUNNING, "refused-without-cause", "driving task %d, which is %s, reported %d", t.id, st_name(st0), r);
    }
  });
}
inline void check_kill_result(T& t, int r, int st0, int want, bool cancel, bool threw, Tok* tok) {
  int st1 = observe(t);
  quiet([&] {
    if (threw) r = copp::COPP_EC_SUCCESS;
    if (r == copp::COPP_EC_SUCCESS) {
      RT_CHECK(st0 < cotask::EN_TS_DONE, "killed-after-end", "ending task %d, which was already %s, reported success", t.id, st_name(st0));
      RT_CHECK(st1 == want, "wrong-status", "task %d ended as %s by a call asking for %s", t.id, st_name(st1), st_name(want));
      t.wins++;
      t.win_status = want;
      t.win_tok = tok;
      rt::count_fault(rt::F_KILL);
      RT_CHECK(t.wins == 1, "ended-twice", "two calls ending task %d both reported success", t.id);
      if (g_w->single && st0 != cotask::EN_TS_RUNNING)
        RT_CHECK(t.ended && t.finish_cb == 1, "not-ended", "task %d was ended while suspended but %s", t.id, t.ended ? "its completion callback did not run" : "its action did not stop");
      if (st0 == cotask::EN_TS_RUNNING) reach(PR_KILL_RUN);
    } else if (r == copp::COPP_EC_ALREADY_FINISHED) {
      RT_CHECK(st1 >= cotask::EN_TS_DONE, "refused-without-cause", "ending task %d was refused as finished, but it is %s", t.id, st_name(st1));
      if (g_w->single) RT_CHECK(st0 >= cotask::EN_TS_DONE, "refused-without-cause", "ending task %d, which was %s, was refused as finished", t.id, st_name(st0));
      reach(PR_REFUSED);
    } else {
      RT_CHECK(cancel && r == copp::COPP_EC_IS_RUNNING, "odd-error", "ending task %d reported %d", t.id, r);
      if (g_w->single) RT_CHECK(st0 == cotask::EN_TS_RUNNING, "refused-without-cause", "cancelling task %d, which is %s, was refused as running", t.id, st_name(st0));
      if (st0 >= cotask::EN_TS_DONE) rt::fail("finished-not-reported", "cancelling task %d, already %s, reported running", t.id, st_name(st0));
    }
  });
}

// ------------------------------------------------------------------ manager model
inline bool either(int m, int t) { return g_w->in[m][t] && g_w->t[t].created && g_w->t[t].term && !g_w->t[t].finish_done; }
inline void refresh_terms() {
  for (int i = 0; i < g_w->nt; ++i)
    if (g_w->t[i].created && g_w->t[i].action_dead == 0) {
      int s = (int)g_w->t[i].raw->get_status();
      if (s >= cotask::EN_TS_DONE) g_w->t[i].term = s;
    }
}
// single thread, called quietly: lookups and sizes agree with the model
inline void check_members(bool) {
  refresh_terms();
  for (int m = 0; m < g_w->nm; ++m) {
    if (!g_w->mraw[m] || g_w->in_reset[m]) continue;
    Mgr& M = *g_w->mraw[m];
    size_t lo = 0, hi = 0, clo = 0, chi = 0;
    for (int i = 0; i < g_w->nt; ++i) {
      T& t = g_w->t[i];
      if (!t.created) continue;
      bool found;
      {
        TP f = M.find_task(t.tid);
        found = (bool)f;
        if (f) RT_CHECK(f.get() == t.raw, "wrong-task", "looking up task %d found another task", i);
      }
      if (either(m, i)) {
        hi++;
        if (g_w->has_dl[m][i]) chi++;
        continue;
      }
      if (g_w->in_tick[m] && t.term) {
        if (found) hi++, chi++;
        continue;
      }
      RT_CHECK(found == g_w->in[m][i], found ? "stale-member" : "member-lost", "task %d is %sin manager %d, by its history it should %sbe", i, found ? "" : "not ", m,
               g_w->in[m][i] ? "" : "not ");
      if (found) lo++, hi++;
      if (g_w->in[m][i] && g_w->has_dl[m][i]) clo++, chi++;
    }
    size_t n = M.get_task_size(), c = M.get_tick_checkpoint_size();
    RT_CHECK(n >= lo && n <= hi, "wrong-size", "manager %d reports %zu tasks, expected %zu..%zu", m, n, lo, hi);
    RT_CHECK(c >= clo && c <= chi, "wrong-size", "manager %d reports %zu timeouts, expected %zu..%zu", m, c, clo, chi);
  }
}
inline void set_deadline(int m, int t, int sec, int nsec) {
  g_w->has_dl[m][t] = false;
  if (sec <= 0 && nsec <= 0) return;
  g_w->has_dl[m][t] = true;
  g_w->dl[m][t] = g_w->last[m] + (int64_t)sec * 1000000000 + nsec;
  if (g_w->dl[m][t] < g_w->min_dl[t]) g_w->min_dl[t] = g_w->dl[m][t];
}
inline void timeout_of(int c, int* sec, int* nsec) {
  static const int s[] = {0, 0, 1, 1, 2, 0, 3, 1, 0, 0, 5, 2};
  static const int n[] = {0, 500000000, 0, 999999999, 0, 1, 700000000, 1, 999999999, 900000000, 0, 600000000};
  *sec = s[c % 12];
  *nsec = n[c % 12];
}
inline int64_t tick_of(int m, int c) {
  static const int64_t d[] = {1, 1000000000, 500000000, 999999999, 10000000000, 0, -1000000000, -5, 100000000, 400000001, 1500000000, 3000000000};
  return g_w->clock[m] + d[(unsigned)c % 12];
}
// single thread: membership as the calls should see it
enum { IN_NO, IN_YES, IN_EITHER, IN_RESETTING };
inline int seen_in(int m, int t) {
  if (g_w->in_reset[m]) return IN_RESETTING;
  refresh_terms();
  if (either(m, t)) return IN_EITHER;
  if (g_w->in_tick[m] && g_w->t[t].term) return IN_EITHER;
  return g_w->in[m][t] ? IN_YES : IN_NO;
}
inline void hist(Frame& f, int kind, int res) {
  if (!g_w->single) g_w->hist.push_back(Hist{f.mgr, f.task, kind, res, f.begin, f.end});
}
// common part of calls by id: true when the call found the task
inline bool by_id_result(Frame& f, int seen, int r, bool threw, int kind) {
  bool found = threw || (r != copp::COPP_EC_NOT_FOUND && r != copp::COPP_EC_IN_RESET);
  quiet([&] {
    hist(f, kind, found);
    if (g_w->single) {
      if (seen == IN_YES) RT_CHECK(found, "member-lost", "%s: task %d is in manager %d but the call reported %d", kOps[f.op], f.task, f.mgr, r);
      if (seen == IN_NO) RT_CHECK(!found && r == copp::COPP_EC_NOT_FOUND, "stale-member", "%s: task %d is not in manager %d but the call reported %d", kOps[f.op], f.task, f.mgr, r);
      if (seen == IN_RESETTING) RT_CHECK(!found && r == copp::COPP_EC_IN_RESET, "reset-ignored", "%s during a reset reported %d", kOps[f.op], r);
    }
  });
  return found;
}

// ------------------------------------------------------------------ operations
struct Who {
  int actor;     // owner of the handles used
  int task;      // -1, or the task whose body or callback runs
  bool body;
};
void do_op(const Op& o, const Who& who);

struct DropAtEnd {  // harness handle kept for the duration of a call
  TP h;
  int t;
  ~DropAtEnd() { drop_handle(h, t); }
};
inline bool in_frames(int m) {
  for (auto* f : g_w->fr[rt::self()])
    if (f->mgr == m) return true;
  return false;
}

struct Park {
  CoW& c;
  bool await_ready() noexcept { return c.opened; }
  void await_suspend(std::coroutine_handle<> h) noexcept {
    c.parked = true;
    c.parked_at = h;
  }
  void await_resume() noexcept { c.parked = false; }
};
inline void co_woken(CoW& c, int r) {
  bool acts = false;
  quiet([&] {
    RT_CHECK(!c.resumed, "resumed-twice", "a coroutine awaiting task %d was resumed twice", c.target);
    c.resumed = true;
    c.result = r;
    T& t = g_w->t[c.target];
    if (!c.killed) {
      const bool gone = c.form == UNHELD && t.action_dead && !t.entered && !t.term;   // dropped without ever being started
      RT_CHECK(t.term || gone, "resumed-early", "a coroutine awaiting task %d continued before it finished", c.target);
      if (gone) {
        RT_CHECK(r == copp::COPP_EC_TASK_IS_KILLED, "wrong-result", "task %d was dropped before it was started, the coroutine awaiting it got %d", c.target, r);
        reach(PR_CO_GONE);
      } else if (t.term == cotask::EN_TS_DONE) RT_CHECK(r == t.ret || t.threw, "wrong-result", "task %d returned %d, the coroutine awaiting it got %d", c.target, t.ret, r);
      else RT_CHECK(r == copp::COPP_EC_TASK_IS_EXITING, "wrong-result", "task %d was ended with status %d, the coroutine awaiting it got %d", c.target, t.term, r);
      reach(PR_CO_WAKE);
    } else {
      if (!t.term) RT_CHECK(r < 0, "resumed-early", "a killed coroutine awaiting task %d, which has not finished, got %d", c.target, r);
      reach(PR_CO_KILL);
    }
    c.finished = true;
    acts = !g_w->final_phase && !g_w->coop[c.id].empty();
    if (acts) c.busy = true;
  });
  if (!acts) return;
  reach(PR_CO_ACTS);
  for (size_t k = 0; k < g_w->coop[c.id].size(); ++k) do_op(g_w->coop[c.id][k], Who{0, -1, false});
  quiet([&] { c.busy = false; });
}
template <class F>
inline F co_waiter(TP tp, Task* raw, CoW& c) {
  int r;
  switch (c.form) {
    case BY_HANDLE: r = co_await tp; break;
    case BY_REF: r = co_await *tp; break;
    case BY_COPY: {
      TP only;
      quiet([&] { only.swap(tp); });
      r = co_await TP(std::move(only));
      break;
    }
    default: r = co_await *raw; break;
  }
  co_woken(c, r);
  if (c.park) {
    co_await Park{c};
    RT_CHECK(c.opened, "resumed-twice", "a coroutine that had awaited task %d was resumed again while it waits for something else", c.target);
    reach(PR_PARKED);
  }
  co_return r;
}

inline copp::callable_future<int> co_nothing() {
  TP none;
  int r = co_await none;
  co_return r;
}

inline void do_op2(const Op& o, const Who& who, std::exception_ptr& out) {
  World& w = *g_w;
  const int ti = (int)((unsigned)o.a % (unsigned)w.nt);
  T& t = w.t[ti];
  const int m = w.nm ? (int)((unsigned)o.b % (unsigned)w.nm) : 0;
  const bool list = o.c & 1;
  std::exception_ptr* escape = (o.c & 2) && who.body ? &out : nullptr;
  DropAtEnd k{TP(), ti};
  if (o.code < M_TICK && o.code != PAUSE && o.code != DROP) {
    if (!w.slot[who.actor][ti]) return;
    k.h = w.slot[who.actor][ti];
  }
  Task* p = k.h.get();
  switch (o.code) {
    case PAUSE: rt::yield_now(); break;
    case POLL: {
      observe(t);
      RT_CHECK(p->get_id() == t.tid, "id-changed", "the id of task %d changed", ti);
      if (w.single && (o.c & 48) == 48) {  // only the code of a task can wait or yield in its name
        const int st0 = observe(t);
        if (st0 == cotask::EN_TS_RUNNING || t.active) break;
        void* out = &out;
        int r = p->yield(&out);
        RT_CHECK(r < 0 && out == (void*)&out, "yielded-by-others", "task %d, which is %s, was made to yield from outside: %d", ti, st_name(st0), r);
        const int bi = (int)((unsigned)o.b % (unsigned)w.nt);
        if (!w.slot[who.actor][bi] || w.slot[who.actor][bi]->get_status() >= cotask::EN_TS_DONE || bi == ti) break;
        r = (o.c & 64) ? p->await_task(w.slot[who.actor][bi]) : p->await_task(w.slot[who.actor][bi].get());
        RT_CHECK(r == (st0 >= cotask::EN_TS_DONE ? (int)copp::COPP_EC_TASK_IS_EXITING : (int)copp::COPP_EC_TASK_NOT_IN_ACTION), "awaited-by-others", "task %d, which is %s, was made to wait from outside: %d", ti, st_name(st0), r);
        r = p->await_task(TP());
        RT_CHECK(r == copp::COPP_EC_ARGS_ERROR, "odd-error", "awaiting nothing reported %d", r);
        RT_CHECK((int)p->get_status() == st0, "status-changed", "waiting in the name of task %d changed its status", ti);
        reach(PR_OUTSIDE);
      }
      break;
    }
    case START:
    case RESUME: {
      int st0 = observe(t);
      bool aw = false;
      int aw0 = 0;
      quiet([&] { aw = t.in_await >= 0, aw0 = t.awaits; });
      FrameGuard g(o.code, ti, -1);
      Tok* tok = new_tok(TOK_DRIVE, ti);
      int r = guarded(g, list, escape, [&](EL& e) { return o.code == START ? p->start(e, tok) : p->resume(e, tok); },
                      [&] { return o.code == START ? p->start(tok) : p->resume(tok); });
      quiet([&] { tok->open = false, aw = aw || t.awaits != aw0; });
      check_drive_result(t, r, st0, tok, aw, r == 1);
      break;
    }
    case KILL:
    case CANCEL: {
      int st0 = observe(t);
      FrameGuard g(o.code, ti, -1);
      quiet([&] {
        t.any_kill_call = true;
        if (who.body && who.task == ti) reach(PR_SELFKILL);
      });
      Tok* tok = (o.c & 4) ? new_tok(TOK_KILL, ti) : nullptr;
      int want = o.code == CANCEL ? cotask::EN_TS_CANCELED : (o.c & 8) && !w.nm ? cotask::EN_TS_TIMEOUT : cotask::EN_TS_KILLED;
      int r = guarded(g, list, escape, [&](EL& e) { return o.code == KILL ? p->kill(e, (cotask::EN_TASK_STATUS)want, tok) : p->cancel(e, tok); },
                      [&] { return o.code == KILL ? (want == cotask::EN_TS_KILLED ? p->kill((void*)tok) : p->kill((cotask::EN_TASK_STATUS)want, tok)) : p->cancel(tok); });
      check_kill_result(t, r, st0, want, o.code == CANCEL, r == 1, tok);
      break;
    }
    case DROP: drop_handle(w.slot[who.actor][ti], ti); break;
    case NEXT: {
      const int bi = (int)((unsigned)o.b % (unsigned)w.nt);
      if (bi == ti) {  // neither the task itself nor an empty handle can be its follow-up
        TP same;
        FrameGuard g(POLL, ti, -1);
        guarded(g, false, escape, [](EL&) { return 0; }, [&] { same = p->next(o.c & 1 ? TP() : w.slot[who.actor][ti], nullptr); return 0; });
        RT_CHECK(!same || same.get() == p, "wrong-task", "next returned another task");
        DropAtEnd d{std::move(same), ti};
        break;
      }
      if (!w.slot[who.actor][bi]) break;
      if (w.life && bi < ti) break;  // no reference cycles
      T& b = w.t[bi];
      if (b.dedicated) {
        // a dedicated follow-up is activated by its one registration only, or by several ones with the same task
        const bool used = quiet([&] {
          bool u = b.claimed && !(w.single && b.claimed_by == ti && b.claims < 3);
          if (!u && b.claimed) reach(PR_REREG);
          if (!u) b.claimed = true, b.claimed_by = ti, b.claims++;
          return u;
        });
        if (used) break;
      }
      FrameGuard g(NEXT, ti, -1);
      Tok* tok = new_tok(TOK_REG, bi);
      quiet([&] {
        tok->from = ti;
        tok->too_late = b.raw->get_status() == cotask::EN_TS_RUNNING || b.raw->get_status() >= cotask::EN_TS_DONE;
        g.f.tok = tok;
      });
      TP res;
      {
        TP arg = w.slot[who.actor][bi];
        guarded(g, false, escape, [](EL&) { return 0; }, [&] { res = (o.c & 8) ? p->then(std::move(arg), tok) : p->next(std::move(arg), tok); return 0; });
      }
      quiet([&] {
        tok->registered = true;
        tok->open = false;
        if (res) RT_CHECK(res.get() == b.raw, "wrong-task", "next returned another task");
      });
      DropAtEnd d{std::move(res), bi};
      break;
    }
    case M_ADD: {
      if (!w.mraw[m]) break;
      int sec, nsec;
      timeout_of(o.c >> 4, &sec, &nsec);
      int st0 = observe(t);
      int seen = w.single ? quiet([&] { return seen_in(m, ti); }) : 0;
      bool other = false;
      for (int x = 0; x < w.nm; ++x)
        if (x != m && w.mraw[x] && w.in[x][ti]) other = true;
      if (!w.single) quiet([&] { if (sec > 0 || nsec > 0) { int64_t d = w.last[m] + (int64_t)sec * 1000000000 + nsec; if (d < w.min_dl[ti]) w.min_dl[ti] = d; } });
      FrameGuard g(M_ADD, ti, m);
      int r = guarded(g, false, nullptr, [](EL&) { return 0; }, [&] { return (o.c & 8) ? w.mraw[m]->add_task(k.h) : w.mraw[m]->add_task(k.h, sec, nsec); });
      quiet([&] {
        if (o.c & 8) sec = nsec = 0;
        hist(g.f, H_ADD, r);
        if (r == 0 && w.single) {
          w.in[m][ti] = true;
          set_deadline(m, ti, sec, nsec);
        }
        if (w.single) {
          int want = w.in_reset[m] ? copp::COPP_EC_IN_RESET : st0 >= cotask::EN_TS_DONE ? copp::COPP_EC_TASK_IS_EXITING : seen == IN_YES ? copp::COPP_EC_ALREADY_EXIST :
                     other ? copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER : 0;
          RT_CHECK(r == want, "wrong-add-result", "adding task %d (%s, %s manager %d%s) reported %d instead of %d", ti, st_name(st0), seen == IN_YES ? "in" : "not in", m,
                   other ? ", in another" : "", r, want);
          check_members(true);
        } else {
          if (st0 >= cotask::EN_TS_DONE) RT_CHECK(r == copp::COPP_EC_TASK_IS_EXITING, "finished-added", "adding task %d, already %s, reported %d", ti, st_name(st0), r);
          RT_CHECK(r == 0 || r == copp::COPP_EC_TASK_IS_EXITING || r == copp::COPP_EC_ALREADY_EXIST || r == copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER, "odd-error",
                   "adding task %d reported %d", ti, r);
          // with one manager and nothing that could have taken the task out of it, no other one can be named
          if (w.nm == 1 && !t.any_kill_call && w.min_dl[ti] == INT64_MAX && !t.ended && t.raw->get_status() < cotask::EN_TS_DONE)
            RT_CHECK(r != copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER, "wrong-add-result", "adding task %d to the only manager reported that it is in another one", ti);
        }
      });
      break;
    }
    case M_SETTO: {
      if (!w.mraw[m]) break;
      int sec, nsec;
      timeout_of(o.c >> 4, &sec, &nsec);
      int seen = w.single ? quiet([&] { return seen_in(m, ti); }) : 0;
      if (!w.single) quiet([&] { if (sec > 0 || nsec > 0) { int64_t d = w.last[m] + (int64_t)sec * 1000000000 + nsec; if (d < w.min_dl[ti]) w.min_dl[ti] = d; } });
      FrameGuard g(M_SETTO, ti, m);
      int r = guarded(g, false, nullptr, [](EL&) { return 0; }, [&] { return w.mraw[m]->set_timeout(t.tid, sec, nsec); });
      bool found = by_id_result(g.f, seen, r, false, H_TOUCH);
      quiet([&] {
        if (found && w.in[m][ti]) set_deadline(m, ti, sec, nsec);
        if (w.single) check_members(true);
      });
      break;
    }
    case M_FIND: {
      if (!w.mraw[m]) break;
      int seen = w.single ? quiet([&] { return seen_in(m, ti); }) : 0;
      FrameGuard g(M_FIND, ti, m);
      TP f;
      guarded(g, false, nullptr, [](EL&) { return 0; }, [&] { f = w.mraw[m]->find_task(t.tid); return 0; });
      quiet([&] {
        hist(g.f, H_TOUCH, (bool)f);
        if (f) RT_CHECK(f.get() == t.raw, "wrong-task", "looking up task %d found another task", ti);
        if (w.single && seen == IN_YES) RT_CHECK((bool)f, "member-lost", "task %d is in manager %d but was not found", ti, m);
        if (w.single && (seen == IN_NO || seen == IN_RESETTING)) RT_CHECK(!f, "stale-member", "task %d is not in manager %d but was found", ti, m);
      });
      DropAtEnd d{std::move(f), ti};
      break;
    }
    case M_START:
    case M_RESUME: {
      if (!w.mraw[m]) break;
      int st0 = observe(t);
      bool aw = false;
      int aw0 = 0;
      quiet([&] { aw = t.in_await >= 0, aw0 = t.awaits; });
      int seen = w.single ? quiet([&] { return seen_in(m, ti); }) : 0;
      FrameGuard g(o.code, ti, m);
      Tok* tok = new_tok(TOK_DRIVE, ti);
      int r = guarded(g, list, escape, [&](EL& e) { return o.code == M_START ? w.mraw[m]->start(t.tid, e, tok) : w.mraw[m]->resume(t.tid, e, tok); },
                      [&] { return o.code == M_START ? w.mraw[m]->start(t.tid, tok) : w.mraw[m]->resume(t.tid, tok); });
      quiet([&] { tok->open = false, aw = aw || t.awaits != aw0; });
      bool found = by_id_result(g.f, seen, r, r == 1, H_TOUCH);
      if (found) check_drive_result(t, r, st0, tok, aw, r == 1);
      else RT_CHECK(tok->consumed == 0, "entered-with-error", "a call that found no task drove task %d", ti);
      quiet([&] {
        // a call by id removes a task it finds finished
        if (found && !w.single && t.term) w.hist.push_back(Hist{m, ti, H_MAYBE, 0, g.f.begin, g.f.end});
        if (found && w.single && t.term) leave_managers(t, m);
        if (w.single) check_members(true);
      });
      break;
    }
    case M_CANCEL:
    case M_KILL:
    case M_REMOVE: {
      if (!w.mraw[m]) break;
      int st0 = observe(t);
      if (o.code == M_REMOVE && (o.c & 24) == 16 && w.nt > 1) {
        // names another task than the one found under the identity: nothing is removed
        const Task* other = w.t[(ti + 1 + o.c / 32 % (w.nt - 1)) % w.nt].raw;
        if (!other || other == t.raw) break;
        FrameGuard g(o.code, ti, m);
        bool reset = false;
        quiet([&] { reset = w.in_reset[m]; });
        int r = guarded(g, false, escape, [](EL&) { return 0; }, [&] { return w.mraw[m]->remove_task(t.tid, other); });
        RT_CHECK(r == copp::COPP_EC_NOT_FOUND || ((reset || !w.single) && r == copp::COPP_EC_IN_RESET), "remove-confirm", "removing task %d with another task's handle reports %d", ti, r);
        int st1 = observe(t);
        quiet([&] {
          reach(PR_CONFIRM);
          if (w.single) RT_CHECK(st0 == st1, "remove-confirm", "removing task %d with another task's handle changed its status to %s", ti, st_name(st1));
          if (w.single) check_members(true);
        });
        break;
      }
      int seen = w.single ? quiet([&] { return seen_in(m, ti); }) : 0;
      FrameGuard g(o.code, ti, m);
      Tok* tok = o.code != M_REMOVE && (o.c & 4) ? new_tok(TOK_KILL, ti) : nullptr;
      quiet([&] {
        t.any_kill_call = true;
        if (w.single && (seen == IN_YES || seen == IN_EITHER)) leave_managers(t, m);
      });
      int r;
      if (o.code == M_KILL)
        r = guarded(g, list, escape, [&](EL& e) { return w.mraw[m]->kill(t.tid, e, cotask::EN_TS_KILLED, tok); }, [&] { return w.mraw[m]->kill(t.tid, tok); });
      else if (o.code == M_CANCEL)
        r = guarded(g, list, escape, [&](EL& e) { return w.mraw[m]->cancel(t.tid, e, tok); }, [&] { return w.mraw[m]->cancel(t.tid, tok); });
      else
        r = guarded(g, false, escape, [](EL&) { return 0; }, [&] { return (o.c & 8) ? w.mraw[m]->remove_task(t.tid, k.h) : w.mraw[m]->remove_task(t.tid); });
      bool found = by_id_result(g.f, seen, r, r == 1, H_LEAVE);
      if (found && o.code != M_REMOVE) check_kill_result(t, r, st0, o.code == M_KILL ? cotask::EN_TS_KILLED : cotask::EN_TS_CANCELED, o.code == M_CANCEL, r == 1, tok);
      if (found && o.code == M_REMOVE) {
        int st1 = observe(t);
        quiet([&] {
          if (w.single && st0 > cotask::EN_TS_CREATED && st0 < cotask::EN_TS_DONE) RT_CHECK(st1 == cotask::EN_TS_KILLED, "not-ended", "the %s task %d was removed but is %s", st_name(st0), ti, st_name(st1));
          // one that was never started is only taken out
          if (w.single && st0 <= cotask::EN_TS_CREATED) RT_CHECK(r == 0 && st1 == st0, "ended-unstarted", "the %s task %d was removed, which reported %d, and is now %s", st_name(st0), ti, r, st_name(st1));
        });
      }
      quiet([&] {
        if (found && w.single && r == copp::COPP_EC_IS_RUNNING) {
          // a refused cancel: whether the task stays a member is not specified
          TP f = w.mraw[m]->find_task(t.tid);
          w.in[m][ti] = (bool)f;
        }
        if (w.single) check_members(true);
      });
      break;
    }
    case M_TICK: {
      if (!w.nm || !w.mraw[m]) break;
      if (w.in_tick[m] && !w.single) break;
      int64_t now = 0;
      bool nested = false;
      FrameGuard g(M_TICK, -1, m);
      quiet([&] {
        nested = w.single && w.in_tick[m] > 0;
        now = tick_of(m, o.c);
        g.f.now = now;
        g.f.effective = !nested && now > w.last[m] && !w.in_reset[m];
        if (now > w.clock[m]) w.clock[m] = now;
        if (!g.f.effective) reach(PR_TICK_IGNORED);
        if (now < w.last[m]) rt::count_fault(rt::F_CLOCK_JUMP_BACK);
        if (now == w.last[m]) rt::count_fault(rt::F_CLOCK_STALL);
        if (now > w.last[m] + 5000000000ll) rt::count_fault(rt::F_CLOCK_JUMP_FWD);
        if (!w.single) g.f.effective = w.in_tick[m] == 0;
        w.in_tick[m]++;
      });
      bool first = w.last[m] == 0;
      if (g.f.effective && first && w.single)
        quiet([&] {
          for (int i = 0; i < w.nt; ++i)
            if (w.has_dl[m][i]) w.dl[m][i] += now;
          w.last[m] = now;
        });
      if (first && !w.single)
        quiet([&] {
          for (int i = 0; i < w.nt; ++i)
            if (w.min_dl[i] < now) w.min_dl[i] += 0;
        });
      int r = guarded(g, false, escape, [](EL&) { return 0; }, [&] { return w.mraw[m]->tick((time_t)(now / 1000000000), (int)(now % 1000000000)); });
      quiet([&] {
        w.in_tick[m]--;
        if (!w.single) {
          for (int i = 0; i < w.nt; ++i) w.hist.push_back(Hist{m, i, H_MAYBE, 0, g.f.begin, g.f.end});
          if (g.f.effective && now > w.last[m]) w.last[m] = now;
          return;
        }
        if (w.in_reset[m]) {
          RT_CHECK(r == copp::COPP_EC_IN_RESET || r == 0, "odd-error", "a tick during a reset reported %d", r);
          return;
        }
        RT_CHECK(r == 0 || r == 1, "odd-error", "a tick reported %d", r);
        if (g.f.effective && !g.f.reset_inside) {
          refresh_terms();
          if (!first)
            for (int i = 0; i < w.nt; ++i)
              if (w.in[m][i] && w.has_dl[m][i] && w.dl[m][i] < now && !w.t[i].term)
                rt::fail("timeout-missed", "task %d, due at %lld, is still %s after the tick at %lld", i, (long long)w.dl[m][i], st_name((int)w.t[i].raw->get_status()), (long long)now);
          // tasks that were ending already and are past their deadline have left
          if (!first)
            for (int i = 0; i < w.nt; ++i)
              if (w.in[m][i] && w.has_dl[m][i] && w.dl[m][i] < now && w.t[i].term) leave_managers(w.t[i], m);
          w.last[m] = now;
          auto lt = w.mraw[m]->get_last_tick_time();
          RT_CHECK((int64_t)lt.tv_sec * 1000000000 + lt.tv_nsec == now, "clock-wrong", "after a tick at %lld the manager's time is %lld.%09d", (long long)now, (long long)lt.tv_sec, (int)lt.tv_nsec);
        }
        check_members(true);
      });
      break;
    }
    case M_RESET:
    case M_DESTROY: {
      if (!w.nm || !w.mraw[m] || !w.single) break;
      if (w.in_reset[m]) break;
      if (o.code == M_DESTROY && in_frames(m)) break;
      FrameGuard g(o.code, -1, m);
      std::vector<int> members;
      quiet([&] {
        refresh_terms();
        for (int i = 0; i < w.nt; ++i)
          if (w.in[m][i]) {
            members.push_back(i);
            leave_managers(w.t[i], m);
          }
        w.in_reset[m]++;
        rt::count_fault(rt::F_DROP);
      });
      guarded(g, false, escape, [](EL&) { return 0; }, [&] {
        if (o.code == M_RESET) w.mraw[m]->reset();
        else w.mgr[m].reset();
        return 0;
      });
      quiet([&] {
        w.in_reset[m]--;
        refresh_terms();
        for (int i : members)
          RT_CHECK(w.t[i].term, "not-ended", "manager %d was cleared but its task %d is %s", m, i, st_name((int)w.t[i].raw->get_status()));
        if (o.code == M_DESTROY) {
          w.mraw[m] = nullptr;
        } else if (w.in_tick[m]) {
          auto lt = w.mraw[m]->get_last_tick_time();  // the tick goes on with the time it began with
          RT_CHECK((int64_t)lt.tv_sec * 1000000000 + lt.tv_nsec == w.last[m], "clock-wrong", "a manager cleared during a tick lost its time");
          check_members(true);
        } else {
          w.last[m] = 0;
          w.clock[m] = 1000;
          auto lt = w.mraw[m]->get_last_tick_time();
          RT_CHECK(lt.tv_sec == 0 && lt.tv_nsec == 0, "clock-wrong", "a cleared manager still has a time");
          check_members(true);
        }
      });
      break;
    }
    case CO_AWAIT: {
      if (!w.single || !w.slot[who.actor][ti]) break;
      if ((o.c & 96) == 96) {
        auto f = co_nothing();
        RT_CHECK(f.is_ready() && f.get_internal_promise().data() == copp::COPP_EC_NOT_INITED, "wrong-result", "a coroutine awaiting an empty handle did not go on at once");
      }
      if (w.ncos >= COW_MAX) break;
      const int ci = w.ncos++;
      int st0 = observe(t);
      quiet([&] {
        w.cow[ci] = CoW();
        w.cow[ci].target = ti;
        w.cow[ci].park = o.c & 16;
        w.cow[ci].id = ci;
        w.cow[ci].form = (o.c >> 3 & 1) | (o.c >> 1 & 2);
        w.cow[ci].begin = rt::seq();
      });
      FrameGuard g(CO_AWAIT, -1, -1);
      guarded(g, false, nullptr, [](EL&) { return 0; }, [&] {
        TP h(w.cow[ci].form == UNHELD ? TP() : w.slot[who.actor][ti]);
        CoF* f = nullptr;
        quiet([&] { w.cos[ci].reset(f = new CoF()); });
        if (o.b & 1) {
          f->t.reset(new cotask::task_future<int, void>(co_waiter<cotask::task_future<int, void> >(std::move(h), t.raw, w.cow[ci])));
          reach(PR_CO_TASK);
          f->t->start();
        } else {
          f->c.reset(new copp::callable_future<int>(co_waiter<copp::callable_future<int> >(std::move(h), t.raw, w.cow[ci])));
        }
        return 0;
      });
      quiet([&] {
        w.cow[ci].started = true;
        if (st0 >= cotask::EN_TS_DONE) RT_CHECK(w.cow[ci].resumed, "wake-up-lost", "a coroutine awaiting the finished task %d was left waiting", ti);
      });
      break;
    }
    case CO_KILL: {
      if (!w.single || !w.ncos) break;
      int ci = (int)((unsigned)o.a % (unsigned)w.ncos);
      if (!w.cow[ci].started || !w.cos[ci] || w.cow[ci].busy || (w.cow[ci].killed && !w.cow[ci].finished)) break;
      if ((o.c & 12) == 4 || (w.cow[ci].finished && (o.c & 4))) {  // drop it
        quiet([&] {
          w.cow[ci].opened = true;
          if (!w.cow[ci].finished) w.cow[ci].killed = true;
          rt::count_fault(rt::F_DROP);
        });
        FrameGuard g(CO_KILL, -1, -1);
        guarded(g, false, nullptr, [](EL&) { return 0; }, [&] {
          std::unique_ptr<CoF> gone(std::move(w.cos[ci]));
          gone.reset();
          return 0;
        });
        RT_CHECK(w.cow[ci].finished, "not-ended", "a coroutine awaiting task %d was dropped but did not continue", w.cow[ci].target);
        break;
      }
      if (w.cow[ci].finished) {
        if (!w.cow[ci].parked) break;
        FrameGuard g(CO_KILL, -1, -1);
        if ((o.b & 6) == 6) {  // it no longer waits for a task: killing it takes effect when what it waits for lets it go on
          quiet([&] { rt::count_fault(rt::F_KILL); });
          guarded(g, false, nullptr, [](EL&) { return 0; }, [&] { w.cos[ci]->kill(copp::promise_status::kKilled, false); return 0; });
          RT_CHECK(w.cow[ci].parked, "resumed-early", "a killed coroutine that waits for something else was resumed");
          break;
        }
        quiet([&] { w.cow[ci].opened = true; });
        guarded(g, false, nullptr, [](EL&) { return 0; }, [&] { w.cow[ci].parked_at.resume(); return 0; });
        RT_CHECK(w.cos[ci]->ready(), "not-ended", "a coroutine is not over although it returned");
        break;
      }
      quiet([&] {
        w.cow[ci].killed = true;
        rt::count_fault(rt::F_KILL);
      });
      FrameGuard g(CO_KILL, -1, -1);
      guarded(g, false, nullptr, [](EL&) { return 0; }, [&] { w.cos[ci]->kill(copp::promise_status::kKilled, (o.b & 1) != 0); return 0; });
      RT_CHECK(w.cow[ci].finished, "not-ended", "a coroutine awaiting task %d was killed but did not continue", w.cow[ci].target);
      break;
    }
    default: break;
  }
}

// an exception that a call made by a body delivered may go on through that body, once the call has been checked
typedef copp::coroutine_context_container<copp::allocator::stack_allocator_malloc> Plain;
// the operation is done by a coroutine that is no task, driven by whoever would have done it
inline void in_plain(const Op& o, const Who& who, std::exception_ptr& out) {
  auto* co0 = copp::this_coroutine::get_coroutine();
  auto* task0 = cotask::this_task::get_task();
  int d1 = 0, d2 = 0;
  bool ran = false;
  Plain* self = nullptr;
  copp::allocator::stack_allocator_malloc al;
  Plain::ptr_type co = Plain::create(
      [&](void* d) {
        RT_CHECK(d == &d1, "wrong-data", "a coroutine got %p as its data", d);
        for (int k = 0; k < 2; ++k) {
          RT_CHECK(copp::this_coroutine::get_coroutine() == self, "wrong-current", "inside a coroutine that is no task the current coroutine is another one");
          RT_CHECK(cotask::this_task::get_task() == nullptr && cotask::this_task::get<Task>() == nullptr, "wrong-current", "a coroutine that is no task is taken for one");
          if (k == (o.b & 1)) {
            do_op2(o, who, out);
            ran = true;
          } else {
            void* got = nullptr;
            int r = (o.b & 2) ? self->yield(&got) : copp::this_coroutine::yield(&got);
            RT_CHECK(r == copp::COPP_EC_SUCCESS && got == &d2, "wrong-data", "a coroutine that yielded was continued with %p, result %d", got, r);
          }
        }
        return 77;
      },
      al, 65536);
  RT_CHECK(co, "create-failed", "no coroutine could be created");
  self = co.get();
  for (int k = 0; k < 2; ++k) {
    int r = k ? co->resume(&d2) : co->start(&d1);
    RT_CHECK(r == copp::COPP_EC_SUCCESS && co->is_finished() == (k == 1), "wrong-return", "driving a coroutine that is no task reported %d", r);
    RT_CHECK(copp::this_coroutine::get_coroutine() == co0 && cotask::this_task::get_task() == task0, "wrong-current", "after driving a coroutine the current one is not the one before");
  }
  RT_CHECK(ran && co->get_ret_code() == 77, "wrong-return", "a coroutine that is no task returned %d", co->get_ret_code());
  reach(PR_PLAIN);
}
inline void do_op(const Op& o, const Who& who) {
  std::exception_ptr out;
  if ((o.c & 0x700) == 0x700 && (g_w->single || (o.c & 0x800))) in_plain(o, who, out);
  else do_op2(o, who, out);
  if (out) std::rethrow_exception(out);
}

inline void body_yield(T& t, int how) {
  void* got = g_w;  // must be overwritten, with a null pointer as well
  leave(t);
  int r = how ? copp::this_coroutine::yield(&got) : t.raw->yield(&got);
  enter(t, got, "after a yield");
  RT_CHECK(r == copp::COPP_EC_SUCCESS, "yield-failed", "yield reported %d", r);
}
inline void body_await(T& t, const Op& o) {
  const int wi = (int)((unsigned)o.a % (unsigned)g_w->nt);
  T& x = g_w->t[wi];
  if (!g_w->slot[4 + t.id][wi]) return;
  if (g_w->life) return;  // an awaiting task and its target refer to each other until one of them is ended
  DropAtEnd k{g_w->slot[4 + t.id][wi], wi};
  int own0 = observe(t);
  int st0 = observe(x);
  if (wi == t.id) {
    int r = t.raw->await_task(k.h);
    RT_CHECK(r == copp::COPP_EC_TASK_CAN_NOT_WAIT_SELF, "odd-error", "awaiting itself reported %d", r);
    return;
  }
  // a dedicated follow-up must keep its only activation
  quiet([&] { t.in_await = wi, t.awaits++; });
  leave(t);
  int r = (o.c & 32) ? t.raw->await_task(k.h.get()) : t.raw->await_task(k.h);
  enter(t, nullptr, "after an await", true);
  int own1 = observe(t);
  int st1 = observe(x);
  bool fin = false;
  quiet([&] {
    t.in_await = -1;
    fin = st1 >= cotask::EN_TS_DONE || x.ended;
    if (own1 < cotask::EN_TS_DONE) {
      RT_CHECK(fin, "continued-early", "task %d continued from awaiting task %d, which is %s", t.id, wi, st_name(st1));
      reach(PR_AWAIT_WAKE);
    } else {
      reach(PR_AWAIT_KILLED);
    }
    if (st0 >= cotask::EN_TS_DONE || own0 >= cotask::EN_TS_DONE)
      RT_CHECK(r == copp::COPP_EC_TASK_IS_EXITING, "odd-error", "awaiting task %d (%s) from task %d (%s) reported %d", wi, st_name(st0), t.id, st_name(own0), r);
    else
      RT_CHECK(r == 0 || r == copp::COPP_EC_TASK_IS_EXITING, "odd-error", "awaiting a task reported %d", r);
  });
  if (st1 == cotask::EN_TS_DONE) rt::user_read(&x.payload, 8, "data of an awaited task");
}

// a handle made from the running task itself, which may be the only one left
inline void keep_self(T& t, Task* me) {
  RT_CHECK(me == t.raw, "wrong-current", "inside task %d the current task is %p, not %p", t.id, (void*)me, (void*)t.raw);
  TP& s = g_w->slot[MAXA - 1][t.id];
  if (s) return;
  quiet([&] { if (!slots_of(t.id) && !t.inprog) reach(PR_KEPT); });
  s = TP(me);
}

struct Act : cotask::impl::task_action_impl {
  int t;
  bool placed;
  uint64_t canary;
  explicit Act(int i) : t(i), placed(false), canary(0x1234abcd + (uint64_t)i) {}
  Act(Act&& o) : t(o.t), placed(true), canary(o.canary) {
    quiet([&] {
      T& x = g_w->t[t];
      RT_CHECK(++x.action_made == 1, "action-copied", "the action of task %d was made twice", t);
    });
  }
  ~Act() {
    if (!placed) return;
    T& x = g_w->t[t];
    rt::user_write(&x.payload, 8, "task-owned data");
    rt::user_write(&x.cb_payload, 8, "data of a completion callback");
    quiet([&] {
      RT_CHECK(canary == 0x1234abcd + (uint64_t)t, "action-damaged", "the action of task %d was overwritten", t);
      RT_CHECK(++x.action_dead == 1, "action-destroyed-twice", "the action of task %d was destroyed twice", t);
      RT_CHECK(!x.active, "action-destroyed", "the action of task %d is destroyed while it runs", t);
      RT_CHECK(slots_of(t) == 0 && x.inprog <= 1, "action-destroyed", "the action of task %d is destroyed while it is referenced", t);
      RT_CHECK(!x.entered || x.ended, "action-destroyed", "the action of task %d is destroyed while it is suspended", t);
      canary = 0;
    });
  }
  int operator()(void* d) override {
    T& x = g_w->t[t];
    quiet([&] {
      RT_CHECK(!x.entered, "entered-twice", "the action of task %d started twice", t);
      x.entered = true;
    });
    enter(x, d, "at start");
    unsigned char* pb = (unsigned char*)x.raw->get_private_buffer();
    RT_CHECK(x.raw->get_private_buffer_size() >= x.priv, "private-buffer", "private buffer of task %d too small", t);
    memset(pb, 0x40 + t, x.priv);
    try {
      Who me = {4 + t, t, true};
      while (x.pc < (int)x.script.size()) {
        const Op o = x.script[(size_t)x.pc++];
        if (o.code == YIELD) body_yield(x, o.b & 1);
        else if (o.code == AWAIT) body_await(x, o);
        else if (o.code == THROW) throw_boom(x, PR_THROW);
        else if (o.code == KEEP) keep_self(x, cotask::this_task::get<Task>());
        else do_op(o, me);
        RT_CHECK(canary == 0x1234abcd + (uint64_t)t, "action-damaged", "the action of task %d was overwritten while it ran", t);
        for (size_t i = 0; i < x.priv; ++i) RT_CHECK(pb[i] == 0x40 + t, "private-buffer", "private buffer of task %d changed", t);
      }
      for (int i = 0; i < g_w->nt; ++i) {
        if (!g_w->slot[4 + t][i]) continue;
        // handles the completion callback still needs stay
        bool need = false;
        for (auto& o : x.cb)
          if ((int)((unsigned)o.a % (unsigned)g_w->nt) == i || (int)((unsigned)o.b % (unsigned)g_w->nt) == i) need = true;
        if (!need) drop_handle(g_w->slot[4 + t][i], i);
      }
    } catch (const Boom& b) {
      quiet([&] {
        x.threw = true;
        x.boom = b.serial;
      });
      leave(x);
      expect_boom(b.serial);
      quiet([&] { x.ended = true; });
      throw;
    }
    leave(x);
    quiet([&] { x.ended = true; });
    return x.ret;
  }
  int on_finished(cotask::impl::task_impl& ti) override {
    T& x = g_w->t[t];
    RT_CHECK(canary == 0x1234abcd + (uint64_t)t, "action-destroyed", "the completion callback of task %d runs on a destroyed action", t);
    RT_CHECK(&ti == x.raw, "wrong-task", "the completion callback of task %d got another task", t);
    quiet([&] {
      RT_CHECK(x.ended && !x.active, "finished-early", "the completion callback of task %d runs before its action stopped", t);
      RT_CHECK(++x.finish_cb == 1, "finished-twice", "the completion callback of task %d ran twice", t);
      RT_CHECK(x.action_dead == 0, "action-destroyed", "the completion callback of task %d runs after its action was destroyed", t);
    });
    int s = observe(x);
    RT_CHECK(s >= cotask::EN_TS_DONE, "finished-early", "the completion callback of task %d runs while it is %s", t, st_name(s));
    quiet([&] {
      check_tick_kill(x);
      top()->finished.push_back(t);
      x.fin_begin = top()->begin;
      for (auto& k : g_w->toks)
        if (k.kind == TOK_REG && k.from == t && !k.consumed && g_w->t[k.task].action_dead == 0 && g_w->t[k.task].raw->get_status() >= cotask::EN_TS_RUNNING && g_w->t[k.task].raw->get_status() != cotask::EN_TS_WAITING)
          k.too_late = true;
      if (!x.threw) RT_CHECK(x.raw->get_ret_code() == x.ret, "wrong-return-code", "task %d returned %d, reported %d", t, x.ret, x.raw->get_ret_code());
      rt::event(13, (uint64_t)t, (uint64_t)s);
    });
    rt::user_read(&x.payload, 8, "task-owned data");
    rt::user_write(&x.cb_payload, 8, "data of a completion callback");
    Who me = {4 + t, t, false};
    for (auto& o : x.cb) {
      if (o.code == THROW) {
        uint64_t ser = 0;
        quiet([&] {
          ser = ++g_w->booms;
          reach(PR_CB_THROW);
          rt::count_fault(rt::F_THROW);
        });
        expect_boom(ser);
        throw Boom(t, ser);
      }
      if (o.code == KEEP) keep_self(x, static_cast<Task*>(&ti));
      else do_op(o, me);
    }
    return 0;
  }
};

// ------------------------------------------------------------------ sequential order of manager calls (P08)
inline bool lin_search(std::vector<Hist>& v, uint32_t done, bool in, std::set<uint64_t>& seen) {
  uint64_t key = ((uint64_t)done << 1) | (uint64_t)in;
  if (!seen.insert(key).second) return false;
  uint32_t must = 0;
  for (size_t i = 0; i < v.size(); ++i)
    if (v[i].kind != H_MAYBE) must |= 1u << i;
  if ((done & must) == must) return true;
  uint64_t first_end = UINT64_MAX;
  for (size_t i = 0; i < v.size(); ++i)
    if (!(done & (1u << i)) && v[i].kind != H_MAYBE && v[i].end < first_end) first_end = v[i].end;
  for (size_t i = 0; i < v.size(); ++i) {
    if (done & (1u << i)) continue;
    Hist& x = v[i];
    if (x.begin > first_end) continue;
    if (x.kind == H_MAYBE) {
      // may remove the member, or do nothing: it must still be open when it is placed
      bool ok = true;
      for (size_t k = 0; k < v.size(); ++k)
        if ((done & (1u << k)) && v[k].kind != H_MAYBE && v[k].begin > x.end) ok = false;
      if (ok && in && lin_search(v, done | (1u << i), false, seen)) return true;
      continue;
    }
    bool nin = in;
    if (x.kind == H_ADD) {
      if (x.res == 0) {
        if (in) continue;
        nin = true;
      } else if (x.res == copp::COPP_EC_ALREADY_EXIST && !in) continue;
    } else if (x.kind == H_LEAVE) {
      if ((bool)x.res != in) continue;
      nin = false;
    } else if ((bool)x.res != in) continue;
    if (lin_search(v, done | (1u << i), nin, seen)) return true;
  }
  return false;
}
inline void check_linear() {
  for (int m = 0; m < g_w->nm; ++m)
    for (int t = 0; t < g_w->nt; ++t) {
      std::vector<Hist> v;
      for (auto& x : g_w->hist)
        if (x.m == m && x.t == t) v.push_back(x);
      if (v.size() < 2 || v.size() > 22) continue;
      bool overlap = false;
      for (auto& a : v)
        for (auto& b : v)
          if (&a != &b && a.kind != H_MAYBE && b.kind != H_MAYBE && a.begin < b.end && b.begin < a.end) overlap = true;
      if (overlap) reach(PR_LINEAR);
      std::set<uint64_t> seen;
      if (!lin_search(v, 0, false, seen)) {
        char buf[400];
        size_t n = 0;
        for (auto& x : v)
          if (n < sizeof(buf) - 40) n += (size_t)snprintf(buf + n, sizeof(buf) - n, " %s[%llu,%llu]=%d", x.kind == H_ADD ? "add" : x.kind == H_LEAVE ? "take" : x.kind == H_TOUCH ? "use" : "maybe-leave",
                                                         (unsigned long long)x.begin, (unsigned long long)x.end, x.res);
        rt::fail("not-linearizable", "the calls on task %d in manager %d have no one-at-a-time order:%s", t, m, buf);
      }
    }
}

// the coroutines that await tasks are over, or (when handles are dropped, life) end now
inline void drop_coroutines() {
  World& w = *g_w;
  for (int i = 0; i < COW_MAX; ++i) {
    CoW& c = w.cow[i];
    if (!w.cos[i]) continue;
    RT_CHECK(c.finished || w.life, "wake-up-lost", "a coroutine awaiting task %d was never resumed", c.target);
    if (!c.finished) c.killed = true;
    c.opened = true;
    FrameGuard g(DROP, -1, -1);
    std::unique_ptr<CoF> gone(std::move(w.cos[i]));
    gone.reset();
    g.done();
    check_booms(g.f, true, {});
  }
}

// ------------------------------------------------------------------ one run
inline void run(const Program& p) {
  { cotask::impl::task_impl::id_allocator_t ia; ia.deallocate(ia.allocate()); }  // the id cache of the main thread is not a leak
  const uint64_t mark = rt::alloc_mark();
  {
    World w(p.cfg[Cfg::ALLOC]);
    g_w = &w;
    w.nt = p.cfg[Cfg::TASKS];
    w.nth = p.cfg[Cfg::THREADS];
    w.nm = p.cfg[Cfg::MGRS];
    w.single = w.nth == 1;
    w.life = p.cfg[Cfg::LIFE] != 0;
    static const int64_t clocks[] = {1, 999999999, 1000000000, 1600000000500000000ll};
    for (int m = 0; m < w.nm; ++m) {
      w.mgr[m].reset(new Mgr());
      w.mraw[m] = w.mgr[m].get();
      w.clock[m] = clocks[(unsigned)p.cfg[Cfg::CLOCK] % 4];
    }
    g_stacks->fail_den = p.cfg[Cfg::FAIL];
    for (int i = 0; i < w.nt; ++i) {
      T& t = w.t[i];
      t.id = i;
      t.ret = 500 + i;
      t.priv = (size_t)((p.cfg[Cfg::PRIV] >> i) & 1) * 48;
      t.dedicated = (p.cfg[Cfg::DEDICATED] >> i) & 1;
      if (i == 0)
        for (auto& o : p.ops)
          if (o.th >= 300 && o.th < 300 + COW_MAX) w.coop[o.th - 300].push_back(o);
      for (auto& o : p.ops) {
        if (o.th == 100 + i) t.script.push_back(o);
        if (o.th == 200 + i) t.cb.push_back(o);
      }
      AnyAlloc al;
      uint64_t fails = g_stacks->fails;
      t.owner = al.owner;
      TP tp = Task::create(Act(i), al, 49152, t.priv);
      if (!tp) {
        RT_CHECK(g_stacks->fails != fails, "create-failed", "creation failed although a stack was available");
        RT_CHECK(t.action_made == 0, "action-leaked", "creation failed but an action was made");
        reach(PR_CREATE_FAIL);
        continue;
      }
      RT_CHECK(g_stacks->fails == fails, "create-without-stack", "creation succeeded without a stack");
      t.raw = tp.get();
      t.tid = t.raw->get_id();
      t.created = true;
      RT_CHECK(t.action_made == 1 && t.tid != 0, "create-failed", "task %d is not complete", i);
      for (int k = 0; k < i; ++k) RT_CHECK(!w.t[k].created || w.t[k].tid != t.tid, "duplicate-id", "two tasks have the same id");
      observe(t);
      // handles: each actor gets the ones its operations name
      for (auto& o : p.ops) {
        int actor = o.th >= 300 ? 0 : o.th >= 200 ? 4 + o.th - 200 : o.th >= 100 ? 4 + o.th - 100 : o.th;
        bool names = (int)((unsigned)o.a % (unsigned)w.nt) == i || (o.code == NEXT && (int)((unsigned)o.b % (unsigned)w.nt) == i);
        if (o.code == M_TICK || o.code == M_RESET || o.code == M_DESTROY || o.code == YIELD || o.code == THROW || o.code == KEEP || o.code == PAUSE) names = false;
        if (names && actor < MAXA) w.slot[actor][i] = tp;
      }
      if (!w.life) w.slot[MAXA - 1][i] = tp;   // actor 9 is the harness itself (at most 5 bodies)
      DropAtEnd d{std::move(tp), i};
      (void)d;
    }
    g_stacks->fail_den = 0;
    // some tasks are suspended before the others begin
    for (int i = 0; i < w.nt; ++i)
      if (w.t[i].created && ((p.cfg[Cfg::PRESTART] >> i) & 1)) {
        TP h;
        for (auto& a : w.slot)
          if (a[i]) h = a[i];
        if (!h) continue;
        DropAtEnd d{std::move(h), i};
        FrameGuard g(START, i, -1);
        Tok* tok = new_tok(TOK_DRIVE, i);
        guarded(g, true, nullptr, [&](EL& e) { return d.h->start(e, tok); }, [] { return 0; });
        quiet([&] { tok->open = false; });
      }
    std::vector<std::function<void()> > th;
    for (int a = 0; a < w.nth; ++a)
      th.push_back([&, a] {
        for (auto& o : p.ops)
          if (o.th == a) do_op(o, Who{a, -1, false});
        if (w.life)
          for (int i = 0; i < w.nt; ++i) drop_handle(w.slot[a][i], i);
      });
    if (w.single) th[0]();
    else run_threads(th);
    // ---- nobody competes any more
    quiet([&] { w.final_phase = true; });
    if (!w.single && !w.life)
      for (int m = 0; m < w.nm; ++m) {
        // a tick far in the future, or two if no tick has set the clock yet, ends everything that has a timeout
        FrameGuard g(M_TICK, -1, m);
        g.f.effective = true;
        g.f.now = w.clock[m] + 1000000000000000ll;
        guarded(g, true, nullptr, [&](EL&) { return w.mraw[m]->tick((time_t)(g.f.now / 1000000000), 0) + w.mraw[m]->tick((time_t)(g.f.now / 1000000000 + 1000000), 0); }, [] { return 0; });
        quiet([&] { for (int i = 0; i < w.nt; ++i) w.hist.push_back(Hist{m, i, H_MAYBE, 0, g.f.begin, g.f.end}); });
        RT_CHECK(w.mraw[m]->get_tick_checkpoint_size() == 0, "timeout-missed", "manager %d still holds %zu timeouts after a tick past all of them", m, w.mraw[m]->get_tick_checkpoint_size());
      }
    if (!w.life) {
      for (int i = 0; i < w.nt; ++i) {
        T& t = w.t[i];
        if (!t.created) continue;
        observe(t);
        if (t.in_await >= 0 && !t.ended && !t.active) {
          T& x = w.t[t.in_await];
          if (x.finish_cb) {
            rt::fail("wake-up-lost", "task %d finished but task %d, which awaits it, is left suspended", x.id, i);
          }
        }
      }
      for (int i = 0; i < w.nt; ++i) {
        T& t = w.t[i];
        if (!t.created) continue;
        if (t.dedicated && !t.term && (p.cfg[Cfg::PRESTART] >> i & 1) == 0 && !t.entered) {
          // waits for the task it follows
        }
        if (observe(t) < cotask::EN_TS_DONE && !t.dedicated) {
          int st0 = observe(t);
          FrameGuard g(KILL, i, -1);
          Tok* tok = new_tok(TOK_KILL, i);
          int r = guarded(g, true, nullptr, [&](EL& e) { return t.raw->kill(e, cotask::EN_TS_KILLED, tok); }, [] { return 0; });
          check_kill_result(t, r, st0, cotask::EN_TS_KILLED, false, false, tok);
        }
      }
      // every follow-up that nothing else drives has been activated exactly once
      for (auto& k : w.toks) {
        if (k.kind != TOK_REG || !k.registered) continue;
        T& b = w.t[k.task];
        T& a = w.t[k.from];
        if (a.created && b.created && b.dedicated && a.finish_cb && !k.too_late && (b.claims == 1 || observe(b) < cotask::EN_TS_DONE))
          RT_CHECK(k.consumed >= 1, "follow-up-lost", "task %d finished as %s but its follow-up %d was never activated", a.id, st_name(a.term), b.id);
      }
      for (int i = 0; i < w.nt; ++i) {
        T& t = w.t[i];
        if (!t.created) continue;
        int st0 = observe(t);
        if (st0 < cotask::EN_TS_DONE) {
          FrameGuard g(KILL, i, -1);
          Tok* tok = new_tok(TOK_KILL, i);
          int r = guarded(g, true, nullptr, [&](EL& e) { return t.raw->kill(e, cotask::EN_TS_KILLED, tok); }, [] { return 0; });
          check_kill_result(t, r, st0, cotask::EN_TS_KILLED, false, false, tok);
        }
      }
      for (int i = 0; i < w.nt; ++i) {
        T& t = w.t[i];
        if (!t.created) continue;
        int s = observe(t);
        RT_CHECK(s >= cotask::EN_TS_DONE && t.ended && !t.active, "not-ended", "task %d does not end", i);
        RT_CHECK(t.finish_cb == 1, t.finish_cb ? "finished-twice" : "callback-lost", "the completion callback of task %d ran %d times", i, t.finish_cb);
        if (s == cotask::EN_TS_DONE) RT_CHECK(t.wins == 0, "wrong-status", "task %d is done although a call ended it", i);
        if (t.wins) RT_CHECK(s == t.win_status, "wrong-status", "task %d was ended as %s but is %s", i, st_name(t.win_status), st_name(s));
        if (t.win_tok) RT_CHECK(t.null_after_end == 0, "kill-data-lost", "task %d was continued without the data of the call that ended it", i);
        if (s == cotask::EN_TS_CANCELED) RT_CHECK(t.wins == 1, "wrong-status", "task %d is cancelled although no call reported so", i);
        // calls that come after the end report so and do nothing
        EL el;
        int r1 = t.raw->start(el, nullptr), r2 = t.raw->resume(el, nullptr), r3 = t.raw->kill(el, cotask::EN_TS_KILLED, nullptr), r4 = t.raw->cancel(el, nullptr);
        RT_CHECK(r1 == copp::COPP_EC_ALREADY_FINISHED && r2 == r1 && r3 == r1 && r4 == r1 && el.empty(), "finished-not-reported", "after the end of task %d start, resume, kill, cancel report %d %d %d %d", i, r1, r2, r3, r4);
        RT_CHECK(observe(t) == s && t.finish_cb == 1, "finished-twice", "calls after the end of task %d changed it", i);
      }
      if (!w.single) {
        quiet([&] { check_linear(); });
        for (int m = 0; m < w.nm; ++m) {
          if (!w.mraw[m]) continue;
          RT_CHECK(w.mraw[m]->get_task_size() == 0, "stale-member", "all tasks are over but manager %d still holds %zu", m, w.mraw[m]->get_task_size());
          RT_CHECK(w.mraw[m]->get_tick_checkpoint_size() == 0, "stale-member", "all tasks are over but manager %d still holds timeouts", m);
        }
      }
    }
    drop_coroutines();
    for (int m = 0; m < w.nm; ++m) {
      if (!w.mraw[m]) continue;
      FrameGuard g(M_DESTROY, -1, m);
      quiet([&] {
        w.in_reset[m]++;
        for (int i = 0; i < w.nt; ++i) leave_managers(w.t[i], m);
      });
      w.mgr[m].reset();
      quiet([&] { w.mraw[m] = nullptr; });
      g.done();
    }
    for (int a = 0; a < 2 * MAXA; ++a)  // twice: a task ended by the drop may have kept itself
      for (int i = 0; i < w.nt; ++i) drop_handle(w.slot[a % MAXA][i], i);
    drop_coroutines();
    for (int i = 0; i < w.nt; ++i) drop_handle(w.slot[MAXA - 1][i], i);
    for (int i = 0; i < w.nt; ++i) {
      T& t = w.t[i];
      if (t.created) RT_CHECK(t.action_dead == 1, "action-leaked", "the action of task %d was never destroyed (task %s, %s)", i, t.entered ? "entered" : "not entered", t.ended ? "ended" : "not ended");
      if (t.created && w.life && t.entered) RT_CHECK(t.finish_cb == 1, "callback-lost", "the completion callback of task %d ran %d times", i, t.finish_cb);
    }
    w.stacks.finish();
  }
  g_w = nullptr;
  g_stacks = nullptr;
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}

// ------------------------------------------------------------------ program generator
struct Profile {
  int w[NOPS];
  int threads_lo, threads_hi;   // 1: single
  int mgrs_lo, mgrs_hi;
  int life;                     // chance in 10
  int dedicated;                // chance in 10 that tasks are dedicated follow-ups
  int fail;                     // chance in 10 of failing stack allocations
  int cb;                       // chance in 10 that completion callbacks act
};
inline void gen(rt::Rng& r, Program& p, bool thorough, const Profile& pf) {
  p.cfg[Cfg::THREADS] = r.range(pf.threads_lo, pf.threads_hi);
  p.cfg[Cfg::MGRS] = r.range(pf.mgrs_lo, pf.mgrs_hi);
  const bool single = p.cfg[Cfg::THREADS] == 1;
  const int nt = p.cfg[Cfg::TASKS] = r.range(1, single ? 5 : 4);
  p.cfg[Cfg::ALLOC] = (int)r.below(AK_KINDS);
  p.cfg[Cfg::LIFE] = r.chance((uint32_t)pf.life, 10);
  p.cfg[Cfg::FAIL] = r.chance((uint32_t)pf.fail, 10) ? r.range(2, 4) : 0;
  p.cfg[Cfg::PRESTART] = (int)r.below(64) & (int)r.below(64);
  p.cfg[Cfg::CLOCK] = (int)r.below(4);
  p.cfg[Cfg::PRIV] = (int)r.below(64);
  int ded = 0;
  if (r.chance((uint32_t)pf.dedicated, 10) && nt > 1 && !p.cfg[Cfg::LIFE]) ded = (int)(r.below(1u << nt) & ~1u);
  p.cfg[Cfg::DEDICATED] = ded;
  std::vector<int> free_t, ded_t;
  for (int i = 0; i < nt; ++i) ((ded >> i & 1) ? ded_t : free_t).push_back(i);
  int wt[NOPS];
  for (int i = 0; i < NOPS; ++i) wt[i] = pf.w[i] && !r.chance(1, 5) ? pf.w[i] + (int)r.below((uint32_t)pf.w[i] + 1) : 0;
  auto pick = [&](int lo, int hi) {
    int tot = 0;
    for (int i = lo; i < hi; ++i) tot += wt[i];
    if (!tot) return (int)PAUSE;
    int x = (int)r.below((uint32_t)tot);
    int c = lo;
    while (x >= wt[c]) x -= wt[c++];
    return c;
  };
  auto fill = [&](Op& o) {
    o.a = free_t[r.below((uint32_t)free_t.size())];
    o.b = (int)r.below(8);
    o.c = (int)r.below(4096);
    if (o.th >= 200 && wt[KEEP] && r.chance(1, 6)) o.code = KEEP;
    if (o.code == NEXT) {
      if (!ded_t.empty() && r.chance(2, 3)) {
        o.b = ded_t[r.below((uint32_t)ded_t.size())];
        if (r.chance(1, 3)) o.a = (int)r.below((uint32_t)nt);
      } else {
        o.b = free_t[r.below((uint32_t)free_t.size())];
      }
    }
    if (o.code == AWAIT || o.code == POLL || o.code == CO_AWAIT) o.a = (int)r.below((uint32_t)nt);
  };
  int nbody = r.range(0, thorough ? 16 : 10), ncb = r.chance((uint32_t)pf.cb, 10) ? r.range(1, 4) : 0, nthr = r.range(1, thorough ? 22 : 14);
  for (int i = 0; i < nbody + ncb + nthr; ++i) {
    Op o;
    if (i < nbody) {
      o.th = 100 + (int)r.below((uint32_t)nt);
      o.code = r.chance(1, 2) ? pick(YIELD, NOPS) : pick(0, NOPS);
      // dedicated follow-ups neither await nor get driven: their scripts yield or act on others
      if (((ded >> (o.th - 100)) & 1) && o.code == AWAIT) o.code = YIELD;
    } else if (i < nbody + ncb) {
      o.th = 200 + (int)r.below((uint32_t)nt);
      o.code = pick(0, YIELD);
      if (wt[THROW] && r.chance(1, 4)) o.code = THROW;
    } else {
      o.th = (int)r.below((uint32_t)p.cfg[Cfg::THREADS]);
      o.code = pick(0, YIELD);
    }
    fill(o);
    p.ops.push_back(o);
  }
  if (wt[CO_AWAIT] && single && r.chance(1, 3))
    for (int i = r.range(1, 4); i > 0; --i) {
      Op o;
      o.th = 300 + (int)r.below(COW_MAX);
      o.code = pick(0, YIELD);
      fill(o);
      p.ops.push_back(o);
    }
  // what a destructor throws ends the process
  bool throws = false;
  for (auto& o : p.ops) throws = throws || o.code == THROW;
  if (throws)
    for (auto& o : p.ops)
      if (o.code == M_DESTROY) o.code = M_RESET;
}
}  // namespace tk
