// A single-threaded world of C++20 tasks (task_future) in task managers, driven by seeded histories with a simulated
// clock and checked against an exact model of membership and deadlines. Used by P06 and P07.
#pragma once
#include "harness.h"

#include <libcopp/coroutine/generator_promise.h>
#include <libcopp/utils/errno.h>
#include <libcotask/task_manager.h>
#include <libcotask/task_promise.h>

#include <coroutine>
#include <memory>
#include <vector>

namespace m20 {
using namespace h;
typedef cotask::task_future<int, void> Task;
typedef cotask::task_manager<Task> Mgr;
typedef copp::generator_future<int> Gen;
typedef copp::promise_status S;

enum { NT = 6, NM = 2, NGATE = 4 };
enum { START, KILL, DROP, OPEN, SET, M_ADD, M_START, M_CANCEL, M_KILL, M_REMOVE, M_SETTO, M_TICK, M_FIND, M_RESET, M_DESTROY, NACT,
       AWAIT = NACT, GATE, AWAIT_GEN, NOPS };
static const char* const kOps[] = {"start", "kill", "drop", "open_gate", "set_generator", "mgr_add", "mgr_start", "mgr_cancel", "mgr_kill", "mgr_remove",
                                   "mgr_set_timeout", "mgr_tick", "mgr_find", "mgr_reset", "mgr_destroy", "await_task", "await_gate", "await_generator", nullptr};
enum { PR_TIMEOUT, PR_EXACT, PR_BACK, PR_FIRST, PR_REPLACED, PR_NESTED, PR_LASTMGR, PR_SOFT, PR_OTHER, PR_DESTROY_LIVE, PR_RESET_NEST, PR_IN_RESET };
static const char* const kProbes[] = {"C++20 task ended by a tick", "tick exactly at a deadline", "tick that does not advance the clock", "first tick with timeouts pending",
                                      "timeout replaced or removed", "manager called from inside one of its own calls", "the manager dropped the last handle of a task",
                                      "ended task still suspended in a foreign wait inside a manager", "task offered to a second manager", "manager destroyed with unfinished tasks",
                                      "manager reset from inside a tick", "manager called while it is being reset", nullptr};
#define M20_COMP "C++20 task_manager, task_future, task_promise, generator_future, promise_caller_manager, spin_lock (real); coroutine bodies, foreign awaitables, clock (harness); malloc (simulated)"

struct TaskM {
  std::unique_ptr<Task> h;      // the user's handle
  uint64_t id = 0;
  std::weak_ptr<Task::context_type> ctx;
  bool created = false, started = false, active = false, finished = false, entered = false;
  int pins = 0;                 // calls through the user's handle, coroutines awaiting it
  S term = S::kInvalid;         // terminal status seen
  std::vector<Op> script;
};
struct Call {
  int m, op, t;
  int64_t now;
  bool effective, reset_inside;
};
struct World {
  TaskM t[NT];
  std::unique_ptr<Mgr> mgr[NM];
  bool in[NM][NT] = {}, has_dl[NM][NT] = {};
  int64_t dl[NM][NT] = {};
  int64_t last[NM] = {};
  int64_t clock[NM] = {};
  int resetting[NM] = {};
  std::vector<Call*> calls;
  std::unique_ptr<Gen> gen[NGATE];
  std::vector<std::coroutine_handle<> > gate[NGATE];
  bool gate_open[NGATE] = {}, gset[NGATE] = {};
  int nt = 0, nm = 1, depth = 0, budget = 0;

  S status(int i) {
    auto c = t[i].ctx.lock();
    return c ? c->get_status() : S::kInvalid;
  }
  size_t refs(int i) {
    if (t[i].h) return t[i].h->get_ref_future_count();
    for (int m = 0; m < nm; ++m)
      if (mgr[m] && !resetting[m]) {
        const Task* p = mgr[m]->find_task(t[i].id);
        if (p) return p->get_ref_future_count();
      }
    return 0;
  }
  bool busy(int m, int op = -1) {
    for (auto* c : calls)
      if (c->m == m && (op < 0 || c->op == op)) return true;
    return false;
  }
  // a running coroutine that only the manager keeps alive: taking it away is not allowed
  bool fragile(int i) { return t[i].active && refs(i) <= 1; }
  bool soft(int i) { return t[i].term != S::kInvalid && !t[i].finished; }
  void leave(int m, int i) { in[m][i] = has_dl[m][i] = false; }
  void leave_all(int i) {
    for (int m = 0; m < nm; ++m) leave(m, i);
  }

  void observe() {
    quiet([&] {
      for (int i = 0; i < nt; ++i) {
        TaskM& x = t[i];
        if (x.ctx.expired()) continue;
        S s = status(i);
        if (x.term != S::kInvalid) {
          RT_CHECK(s == x.term || s == S::kInvalid, "status-changed", "task %d had ended with status %d and now reports %d", i, (int)x.term, (int)s);
          continue;
        }
        if (s < S::kDone || s == S::kInvalid) continue;
        x.term = s;
        if (s == S::kTimeout) {
          reach(PR_TIMEOUT);
          rt::count_fault(rt::F_KILL);
          int m = -1;
          for (int k = 0; k < nm; ++k)
            if (in[k][i]) m = k;
          RT_CHECK(m >= 0 && has_dl[m][i], "timeout-stray", "task %d timed out although no manager has a timeout for it", i);
          Call* c = nullptr;
          for (auto* k : calls)
            if (k->m == m && k->op == M_TICK && k->effective) c = k;
          RT_CHECK(c, "timeout-early", "task %d timed out although its manager is not being ticked forward", i);
          RT_CHECK(dl[m][i] < c->now, "timeout-early", "task %d, due at %lld, was ended by the tick at %lld", i, (long long)dl[m][i], (long long)c->now);
          leave(m, i);
        }
      }
    });
  }
  void check() {
    observe();
    quiet([&] {
      for (int m = 0; m < nm; ++m) {
        if (!mgr[m] || resetting[m]) continue;
        size_t members = 0, timers = 0;
        for (int i = 0; i < nt; ++i) {
          if (!t[i].created) continue;
          const Task* p = mgr[m]->find_task(t[i].id);
          if (soft(i) && in[m][i] && !p) leave(m, i);   // ended but not over: may leave at any time
          if (soft(i) && in[m][i]) reach(PR_SOFT);
          RT_CHECK(!p || in[m][i], "membership", "task %d is in manager %d although it %s", i, m, t[i].finished ? "finished" : "was removed or never added");
          RT_CHECK(p || !in[m][i], "membership", "task %d was added to manager %d and is missing", i, m);
          if (p) RT_CHECK(p->get_id() == t[i].id, "membership", "manager %d finds task %llu under the id of task %d", m, (unsigned long long)p->get_id(), i);
          members += in[m][i];
          timers += in[m][i] && has_dl[m][i];
        }
        RT_CHECK(mgr[m]->get_task_size() == members, "size-wrong", "manager %d counts %d tasks instead of %d", m, (int)mgr[m]->get_task_size(), (int)members);
        RT_CHECK(mgr[m]->get_tick_checkpoint_size() == timers, "timers-wrong", "manager %d holds %d timers instead of %d", m, (int)mgr[m]->get_tick_checkpoint_size(), (int)timers);
        if (!busy(m, M_TICK)) {
          auto lt = mgr[m]->get_last_tick_time();
          RT_CHECK(lt.tv_sec * 1000000000ll + lt.tv_nsec == last[m], "tick-time", "manager %d reports %lld.%09lld as its last tick instead of %lld ns", m,
                   (long long)lt.tv_sec, (long long)lt.tv_nsec, (long long)last[m]);
        }
      }
    });
  }
  void act(int self, const Op& o);
};
static World* g_w20 = nullptr;

struct GateAwait {
  World* w;
  int g;
  bool await_ready() const { return w->gate_open[g]; }
  void await_suspend(std::coroutine_handle<> hd) {
    w->gate[g].push_back(hd);
    me = hd;
  }
  void await_resume() {
    auto& q = w->gate[g];  // ended by force: do not wait any longer
    for (size_t i = 0; i < q.size(); ++i)
      if (me && q[i] == me) {
        q.erase(q.begin() + (long)i);
        break;
      }
  }
  std::coroutine_handle<> me = nullptr;
};

struct Local {
  World* w;
  int i;
  Local(World* ww, int k) : w(ww), i(k) {
    TaskM& x = w->t[i];
    RT_CHECK(!x.entered, "entered-twice", "the body of task %d ran twice", i);
    x.entered = x.active = true;
  }
  ~Local() {
    TaskM& x = w->t[i];
    RT_CHECK(x.active, "harness", "task %d ends while it is not running", i);
    w->observe();
    x.active = false;
    x.finished = true;
    w->leave_all(i);
    rt::event(210, (uint64_t)i);
  }
};
struct Pin {
  World* w;
  int i;
  Pin(World* ww, int k) : w(ww), i(k) { ++w->t[i].pins; }
  ~Pin() { --w->t[i].pins; }
};
struct Waiting {  // the coroutine is suspended from here on
  World* w;
  int i;
  Waiting(World* ww, int k) : w(ww), i(k) { w->t[i].active = false; }
  ~Waiting() {
    w->t[i].active = true;
    w->observe();
  }
};

static Task body(World* w, int i) {
  Local l(w, i);
  rt::event(211, (uint64_t)i);
  for (size_t k = 0; k < w->t[i].script.size(); ++k) {
    const Op o = w->t[i].script[k];
    if (o.code == AWAIT) {
      int x = i + 1 + o.a % NT;  // only later ones, so nobody waits in a circle
      if (x < w->nt && w->t[x].h) {
        Pin p(w, x);
        Waiting z(w, i);
        co_await *w->t[x].h;
      }
    } else if (o.code == GATE) {
      Waiting z(w, i);
      co_await GateAwait{w, o.a % NGATE};
    } else if (o.code == AWAIT_GEN) {
      Waiting z(w, i);
      co_await *w->gen[o.a % NGATE];
    } else {
      w->act(i, o);
    }
    rt::event(212, (uint64_t)i);
  }
  co_return 100 + i;
}

struct CallGuard {
  World* w;
  Call c;
  CallGuard(World* ww, int m, int op, int t) : w(ww), c{m, op, t, 0, false, false} {
    if (m >= 0 && w->busy(m)) {
      reach(PR_NESTED);
      rt::count_fault(rt::F_REENTER);
    }
    w->calls.push_back(&c);
  }
  ~CallGuard() { w->calls.pop_back(); }
};

static const int64_t kSteps[] = {1, 300000000, 999999999, 1000000000, 1500000000, 5000000000ll, 100000000000ll};
static const int kNs[] = {0, 1, 300000000, 500000000, 700000000, 999999999, 250000000, 1};

inline void World::act(int self, const Op& o) {
  if (++budget > 400 || depth > 12) return;
  const int i = o.a % nt, m = (o.b & 7) % nm;
  TaskM& x = t[i];
  Mgr* g = mgr[m].get();
  const uint64_t id = x.id;
  if (o.code >= M_ADD && !g) return;
  if (self < 0) budget = 0;
  check();
  ++depth;
  rt::event(200 + (uint64_t)o.code, (uint64_t)i, (uint64_t)m);
  switch (o.code) {
    case START: {
      if (!x.h) break;
      bool can = status(i) == S::kCreated;
      Pin p(this, i);
      CallGuard c(this, -1, o.code, i);
      bool r = x.h->start();
      RT_CHECK(r == can, "start-result", "starting task %d returned %d", i, (int)r);
      break;
    }
    case KILL: {
      if (!x.h) break;
      bool can = status(i) < S::kDone && status(i) != S::kInvalid;
      const S s = o.c & 1 ? S::kCancle : S::kKilled;
      const bool force = (o.c & 6) == 6 && !x.active;
      if (can) rt::count_fault(rt::F_KILL);
      Pin p(this, i);
      CallGuard c(this, -1, o.code, i);
      x.h->kill(s, force && x.entered);
      observe();
      if (can) RT_CHECK(x.term == s, "kill-ignored", "task %d was killed with %d and reports %d", i, (int)s, (int)status(i));
      break;
    }
    case DROP: {
      if (!x.h || x.active || x.pins) break;
      rt::count_fault(rt::F_DROP);
      std::unique_ptr<Task> d = std::move(x.h);
      CallGuard c(this, -1, o.code, i);
      d.reset();
      break;
    }
    case OPEN: {
      const int k = o.a % NGATE;
      gate_open[k] = true;
      std::vector<std::coroutine_handle<> > q;
      CallGuard c(this, -1, o.code, -1);
      while (!gate[k].empty()) {
        auto hd = gate[k].front();
        gate[k].erase(gate[k].begin());
        hd.resume();
      }
      break;
    }
    case SET: {
      const int k = o.a % NGATE;
      if (gset[k]) break;
      gset[k] = true;
      CallGuard c(this, -1, o.code, -1);
      gen[k]->get_context()->set_value(500 + k);
      break;
    }
    case M_ADD: {
      if (!x.h) break;
      const int64_t sec = o.c & 3, ns = kNs[(o.c >> 2) & 7];
      const bool timeout = o.c & 32, neg = (o.c & 0xc0) == 0xc0;
      const S st = status(i);
      int want = 0;
      bool other = false;
      for (int k = 0; k < nm; ++k) other |= k != m && in[k][i];
      if (resetting[m]) want = copp::COPP_EC_IN_RESET;
      else if (st >= S::kDone) want = copp::COPP_EC_TASK_IS_EXITING;
      else if (in[m][i]) want = copp::COPP_EC_ALREADY_EXIST;
      else if (other) want = copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER;
      if (want == copp::COPP_EC_TASK_ALREADY_IN_ANOTHER_MANAGER) reach(PR_OTHER);
      if (resetting[m]) reach(PR_IN_RESET);
      int r;
      {
        CallGuard c(this, m, o.code, i);
        r = timeout ? g->add_task(*x.h, (time_t)(neg ? -sec : sec), (int)ns) : g->add_task(*x.h);
      }
      // a task that has ended but is not over may or may not still be bound to a manager
      if (want == copp::COPP_EC_TASK_IS_EXITING || other) RT_CHECK(r < 0, "add-result", "adding task %d to manager %d returned %d", i, m, r);
      else RT_CHECK(r == want, "add-result", "adding task %d to manager %d returned %d instead of %d", i, m, r, want);
      if (!r) {
        in[m][i] = true;
        has_dl[m][i] = timeout && ((neg ? -sec : sec) > 0 || ns > 0);
        if (has_dl[m][i]) dl[m][i] = last[m] + (neg ? -sec : sec) * 1000000000ll + ns;
      }
      break;
    }
    case M_SETTO: {
      if (in[m][i] && fragile(i) && busy(m, M_TICK)) break;  // may be over for the tick in progress
      const int64_t sec = o.c & 3, ns = kNs[(o.c >> 2) & 7];
      int want = resetting[m] ? (int)copp::COPP_EC_IN_RESET : in[m][i] ? 0 : (int)copp::COPP_EC_NOT_FOUND;
      int r;
      {
        CallGuard c(this, m, o.code, i);
        r = g->set_timeout(id, (time_t)sec, (int)ns);
      }
      RT_CHECK(r == want, "set-timeout-result", "setting the timeout of task %d in manager %d returned %d instead of %d", i, m, r, want);
      if (!r) {
        if (has_dl[m][i]) reach(PR_REPLACED);
        has_dl[m][i] = sec > 0 || ns > 0;
        dl[m][i] = last[m] + sec * 1000000000ll + ns;
      }
      break;
    }
    case M_FIND: {
      CallGuard c(this, m, o.code, i);
      const Task* p = g->find_task(id);
      RT_CHECK((p != nullptr) == (in[m][i] && !resetting[m]), "find-result", "looking up task %d in manager %d %s", i, m, p ? "found it" : "found nothing");
      if (p) RT_CHECK(p->get_id() == id && p->get_status() == status(i), "find-result", "looking up task %d in manager %d found another one", i, m);
      break;
    }
    case M_START: {
      int want = resetting[m] ? (int)copp::COPP_EC_IN_RESET : in[m][i] ? 0 : (int)copp::COPP_EC_NOT_FOUND;
      const bool can = !want && status(i) == S::kCreated;
      if (!can && !want && (soft(i) && fragile(i))) break;
      int r;
      {
        CallGuard c(this, m, o.code, i);
        r = g->start(id);
        observe();
      }
      if (can || want) RT_CHECK(r == want, "start-result", "starting task %d in manager %d returned %d instead of %d", i, m, r, want);
      if (can) RT_CHECK(x.entered, "start-ignored", "task %d was started by manager %d and did not run", i, m);
      if (soft(i) && !want) leave(m, i);
      break;
    }
    case M_REMOVE: case M_CANCEL: case M_KILL: {
      if (in[m][i] && fragile(i)) break;
      const int other = (o.c >> 3) % nt;
      const bool confirm = o.code == M_REMOVE && (o.c & 4) && t[other].h;
      int want = resetting[m] ? (int)copp::COPP_EC_IN_RESET : in[m][i] && (!confirm || other == i) ? 0 : (int)copp::COPP_EC_NOT_FOUND;
      if (resetting[m]) reach(PR_IN_RESET);
      const S st = status(i);
      const S give = o.code == M_CANCEL ? S::kCancle : o.code == M_KILL && (o.c & 3) == 1 ? S::kCancle : S::kKilled;
      const bool ends = !want && (o.code == M_REMOVE ? st > S::kCreated && st < S::kDone : st < S::kDone);
      if (!want) {
        leave(m, i);
        if (refs(i) == 1) reach(PR_LASTMGR);
        if (ends) rt::count_fault(rt::F_KILL);
      }
      int r;
      {
        CallGuard c(this, m, o.code, i);
        if (o.code == M_REMOVE) {
          if (confirm) r = g->remove_task(id, *t[other].h);
          else r = g->remove_task(id);
        } else if (o.code == M_CANCEL) {
          r = g->cancel(id);
        } else {
          r = g->kill(id, give);
        }
        observe();
      }
      RT_CHECK(r == want, "remove-result", "%s of task %d in manager %d returned %d instead of %d", kOps[o.code], i, m, r, want);
      if (ends) RT_CHECK(x.term == give, "kill-ignored", "%s of task %d in manager %d left it with status %d", kOps[o.code], i, m, (int)status(i));
      if (!ends && !want && st == S::kCreated && x.h) RT_CHECK(status(i) == st, "ended-unstarted", "task %d was removed from manager %d before it was started and has status %d", i, m, (int)status(i));
      break;
    }
    case M_TICK: {
      int64_t now = clock[m], first = INT64_MAX;
      for (int k = 0; k < nt; ++k)
        if (has_dl[m][k] && dl[m][k] < first) first = dl[m][k];
      const int how = o.a % 12;
      if (how < 7) now += kSteps[how];
      else if (how == 7) now = now;
      else if (how == 8) now -= kSteps[o.c % 7];
      else if (how == 9 && first != INT64_MAX) now = first;
      else if (how == 10 && first != INT64_MAX) now = first + 1;
      else if (first != INT64_MAX) now = first - 1;
      if (now < 0) now = 0;
      if (how == 9 && now == first) reach(PR_EXACT);
      const bool effective = now > last[m] && !busy(m, M_TICK) && !resetting[m];
      if (!effective) reach(PR_BACK);
      if (effective && last[m])
        for (int k = 0; k < nt; ++k)
          if (in[m][k] && has_dl[m][k] && dl[m][k] < now && fragile(k)) {
            --depth;
            return;
          }
      clock[m] = now;
      const bool initial = effective && last[m] == 0;
      if (initial && first != INT64_MAX) reach(PR_FIRST);
      if (initial)
        for (int k = 0; k < nt; ++k)
          if (has_dl[m][k]) dl[m][k] += now;
      int r;
      bool reset_inside;
      {
        CallGuard c(this, m, o.code, -1);
        c.c.now = now;
        c.c.effective = effective && !initial;
        r = g->tick((time_t)(now / 1000000000), (int)(now % 1000000000));
        observe();
        reset_inside = c.c.reset_inside;
      }
      if (!resetting[m]) RT_CHECK(r == 0, "tick-result", "a tick of manager %d returned %d", m, r);
      (void)reset_inside;
      if (effective) {
        last[m] = now;
        if (!initial)
          for (int k = 0; k < nt; ++k)
            if (in[m][k] && has_dl[m][k] && !soft(k))
              RT_CHECK(dl[m][k] >= now, "timeout-missed", "task %d, due at %lld, is still running after the tick at %lld", k, (long long)dl[m][k], (long long)now);
            else if (in[m][k] && has_dl[m][k] && dl[m][k] < now) leave(m, k);
      }
      break;
    }
    case M_RESET: case M_DESTROY: {
      if (o.code == M_DESTROY && busy(m)) break;
      bool bad = false;
      for (int k = 0; k < nt; ++k) bad |= in[m][k] && fragile(k);
      if (bad) break;
      unsigned had = 0;
      const bool nested = resetting[m] != 0;
      if (!nested) {
        for (int k = 0; k < nt; ++k)
          if (in[m][k]) {
            had |= 1u << k;
            leave(m, k);
          }
        for (auto* c : calls)
          if (c->m == m && c->op == M_TICK) {
            c->reset_inside = true;
            reach(PR_RESET_NEST);
          }
        // a manager that is being ticked keeps its time
        if (!busy(m, M_TICK)) last[m] = 0;
        if (had && o.code == M_DESTROY) reach(PR_DESTROY_LIVE);
        rt::count_fault(rt::F_DROP);
      }
      {
        CallGuard c(this, m, o.code, -1);
        ++resetting[m];
        if (o.code == M_RESET) {
          g->reset();
        } else {
          std::unique_ptr<Mgr> d = std::move(mgr[m]);
          d.reset();
        }
        --resetting[m];
        observe();
      }
      for (int k = 0; k < nt; ++k)
        if (had >> k & 1) RT_CHECK(t[k].term != S::kInvalid || t[k].ctx.expired(), "not-ended", "manager %d was %s and task %d is still running", m, o.code == M_RESET ? "reset" : "destroyed", k);
      if (o.code == M_DESTROY && (o.c & 1)) {
        mgr[m].reset(new Mgr());
        clock[m] = 0;
      }
      break;
    }
  }
  --depth;
  check();
}

inline void run(const Program& p) {
  {
    copp::util::uint64_id_allocator warm;
    (void)warm.allocate();
  }
  uint64_t mark = rt::alloc_mark();
  {
    World w;
    g_w20 = &w;
    w.nt = 1 + p.cfg[0] % NT;
    w.nm = 1 + p.cfg[1] % NM;
    for (int m = 0; m < w.nm; ++m) {
      w.mgr[m].reset(new Mgr());
      w.clock[m] = (int64_t)(p.cfg[2] & 1) * 1700000000000000000ll;
    }
    for (auto& g : w.gen) g.reset(new Gen([](Gen::context_pointer_type) {}));
    for (auto& o : p.ops)
      if (o.th >= 1 && o.th <= w.nt) w.t[o.th - 1].script.push_back(o);
    for (int i = 0; i < w.nt; ++i) {
      TaskM& x = w.t[i];
      x.h.reset(new Task(body(&w, i)));
      x.ctx = x.h->get_context();
      x.id = x.h->get_id();
      x.created = true;
      for (int k = 0; k < i; ++k) RT_CHECK(w.t[k].id != x.id, "id-reused", "tasks %d and %d have the same id", k, i);
    }
    for (auto& o : p.ops)
      if (o.th == 0 && o.code < NACT) w.act(-1, o);
    // the end, in a seeded order: managers first or handles first
    for (int round = 0; round < 2; ++round) {
      if ((p.cfg[3] & 1) == round) {
        for (int m = 0; m < w.nm; ++m) {
          Op o = {0, M_DESTROY, 0, m, 0};
          w.act(-1, o);
        }
      } else {
        for (int k = 0; k < NT; ++k) {
          Op o = {0, DROP, (p.cfg[4] + (p.cfg[3] & 2 ? k : NT - k)) % w.nt, 0, 0};
          w.act(-1, o);
        }
      }
    }
    for (int k = 0; k < NT; ++k) {
      for (int i = 0; i < w.nt; ++i) {
        Op o = {0, DROP, i, 0, 0};
        w.act(-1, o);
      }
    }
    for (int i = 0; i < w.nt; ++i) {
      RT_CHECK(!w.t[i].h, "harness", "task %d could not be dropped", i);
      RT_CHECK(w.t[i].ctx.expired(), "leak", "every handle of task %d is gone and its state is still there", i);
      RT_CHECK(w.t[i].finished == w.t[i].entered, "never-ended", "every handle of task %d is gone and it never ran to its end", i);
    }
  }
  g_w20 = nullptr;
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}

struct Profile {
  int w[NOPS];
};
inline void gen(rt::Rng& r, Program& p, bool thorough, const Profile& pf) {
  p.cfg[0] = r.range(0, r.chance(1, 3) ? NT - 1 : 2);
  p.cfg[1] = r.chance(1, 3);
  p.cfg[2] = (int)r.below(2);
  p.cfg[3] = (int)r.below(4);
  p.cfg[4] = (int)r.below(NT);
  int wt[NOPS];
  for (int i = 0; i < NOPS; ++i) wt[i] = pf.w[i] && !r.chance(1, 6) ? pf.w[i] + (int)r.below((uint32_t)pf.w[i] + 1) : 0;
  auto pick = [&](int lo, int hi) {
    int tot = 0;
    for (int i = lo; i < hi; ++i) tot += wt[i];
    if (!tot) return lo ? (int)GATE : (int)M_FIND;
    int x = (int)r.below((uint32_t)tot), c = lo;
    while (x >= wt[c]) x -= wt[c++];
    return c;
  };
  const int nb = r.range(1, thorough ? 30 : 20), nt = r.range(3, thorough ? 36 : 24), n = p.cfg[0] + 1;
  for (int i = 0; i < nb + nt; ++i) {
    Op o;
    o.th = i < nb ? 1 + (int)r.below((uint32_t)n) : 0;
    o.code = i < nb && r.chance(1, 2) ? pick(NACT, NOPS) : pick(0, NACT);
    o.a = (int)r.below(24);
    o.b = (int)r.below(8);
    o.c = (int)r.below(256);
    p.ops.push_back(o);
  }
}
}  // namespace m20
