#include "world_c20.h"

#include <libcopp/coroutine/algorithm.h>
#include <libcopp/coroutine/callable_promise.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcopp/utils/uint64_id_allocator.h>
#include <libcotask/task_promise.h>

#include <stdexcept>
#include <string.h>
#include <memory>
#include <utility>
#include <vector>

namespace c20 {
using namespace h;
typedef copp::promise_status S;
namespace {
enum { M = 8, N = 16, G = 8, NGATE = 3 };  // nodes M..N-1 are the children of continuations
enum Kind { CV, CI, CX, TV, TI, TX, NKIND };
inline bool is_task(int k) { return k >= TV; }
enum Wait { W_NONE, W_NODE, W_GEN, W_GATE, W_SOME };
enum { K_CATS = 6 };  // kinds of groups for SOME: CV CX TV TX GV GX

}  // namespace

const char* const kOps[] = {"create", "start", "open_gate", "set_generator", "reset_generator", "kill", "drop", "move_assign", "copy_handle",
                            "new_generator", "drop_generator", "copy_generator", "then", "poll",
                            "await", "await_local", "await_temporary", "await_gate", "await_generator", "await_some", "yield_status", "throw_catch", "return", "odd_handles", "at_the_end", nullptr};
enum { PR_KILL_WAIT, PR_KILL_DEEP, PR_FORCE, PR_DROP_SUSP, PR_MULTI, PR_WAKE_DROP, PR_WAKE_KILL, PR_KILLED_AWAIT, PR_GEN_DROP_WAIT, PR_SYNC_SET, PR_SOME_PRE, PR_SOME_PART,
       PR_SOME_KILLED, PR_THEN_LATE, PR_THEN_EARLY, PR_UNSTARTED, PR_SEVERED, PR_RESET, PR_LASTIN, PR_OTHER_SET, PR_NO_HOOK, PR_EMPTY, PR_MANY, PR_LATE_KILL, PR_LATE_ACT, PR_RUN_KILL, PR_PARKED_AWAIT, PR_STALE_OUT, PR_HOOK_KILL, PR_FORM_RAW, PR_FORM_ARRAY, PR_FORM_SPAN };
const char* const kProbes[] = {"suspended waiter killed", "kill reached a nested awaited coroutine", "forced resume of a coroutine outside library waits", "suspended coroutine dropped",
                               "several waiters on one object", "a waiter was dropped during a wake-up", "a waiter was killed during a wake-up", "killed coroutine awaited again",
                               "generator dropped while awaited", "generator set inside its suspend hook", "group wait with members ready beforehand", "group wait completed with members left",
                               "group wait ended by kill", "continuation attached to a finished task", "continuation attached to an unfinished task", "unstarted task dropped or killed",
                               "intermediate coroutine left to its owner after a kill", "generator re-armed", "last handle dropped from inside another coroutine",
                               "generator set inside the hook of another", "generator without a hook awaited",
                               "empty or owned handles used", "generator counted its waiters",
                               "coroutine ended while its locals go", "action while locals of a returned coroutine go",
                               "running coroutine ended", "ended but suspended coroutine awaited", "group result handed in with leftovers", "coroutine ended in the hook of its own resumption",
                               "group given as the futures themselves", "group given as a plain array", "group given as a view that is gone",
                               nullptr};
const char* const kComp =
    "callable_promise, generator_promise, task_promise, promise_caller_manager, algorithm (some/any/all), future storage, intrusive_ptr, uint64 id allocator (real); "
    "foreign awaitables, clock, malloc (simulated)";

namespace {
struct World;
World* g_w;
int g_vals;

struct Val {
  int uid, err;
  int* box;
  char pad[24];
  Val() : uid(0), err(0), box(nullptr) { ++g_vals; memset(pad, 7, sizeof(pad)); }
  explicit Val(S s) : uid(-1), err((int)s), box(nullptr) { ++g_vals; memset(pad, 7, sizeof(pad)); }
  explicit Val(int u) : uid(u), err(0), box(new int(u)) { ++g_vals; memset(pad, 7, sizeof(pad)); }
  Val(const Val& o) : uid(o.uid), err(o.err), box(o.box ? new int(*o.box) : nullptr) { ++g_vals; memcpy(pad, o.pad, sizeof(pad)); }
  Val(Val&& o) noexcept : uid(o.uid), err(o.err), box(o.box) {
    ++g_vals;
    memcpy(pad, o.pad, sizeof(pad));
    o.box = nullptr;
    o.uid = -7;
    o.err = 0;
  }
  Val& operator=(const Val& o) {
    if (this != &o) {
      int* b = o.box ? new int(*o.box) : nullptr;
      delete box;
      box = b;
      uid = o.uid;
      err = o.err;
    }
    return *this;
  }
  Val& operator=(Val&& o) noexcept {
    if (this != &o) {
      delete box;
      box = o.box;
      uid = o.uid;
      err = o.err;
      o.box = nullptr;
      o.uid = -7;
      o.err = 0;
    }
    return *this;
  }
  ~Val() {
    --g_vals;
    delete box;
    uid = -9;
  }
};
struct Priv {
  int node, tag;
  Priv() : node(-1), tag(0) {}
  Priv(World*& , int& n) : node(n), tag(0) {}
};

typedef copp::callable_future<Val> CVf;
typedef copp::callable_future<int> CIf;
typedef copp::callable_future<void> CXf;
typedef cotask::task_future<Val, Priv> TVf;
typedef cotask::task_future<int, void> TIf;
typedef cotask::task_future<void, void> TXf;
typedef copp::generator_future<Val> GVf;
typedef copp::generator_future<int> GIf;
typedef copp::generator_future<void> GXf;
template <class F> struct KindOf;
template <> struct KindOf<CVf> { enum { k = CV }; typedef Val V; };
template <> struct KindOf<CIf> { enum { k = CI }; typedef int V; };
template <> struct KindOf<CXf> { enum { k = CX }; typedef void V; };
template <> struct KindOf<TVf> { enum { k = TV }; typedef Val V; };
template <> struct KindOf<TIf> { enum { k = TI }; typedef int V; };
template <> struct KindOf<TXf> { enum { k = TX }; typedef void V; };

// handles that are owned by the object the handle they are assigned to refers to
struct Link {
  std::shared_ptr<void> next;
};
typedef cotask::task_future<int, Link> TLf;
TLf link_body(int* done, int v) {
  ++*done;
  co_return v;
}
struct GLink {
  int uid;
  std::shared_ptr<void> next;
  GLink() : uid(0) {}
  explicit GLink(S s) : uid(-(int)s) {}
};
typedef copp::generator_future<GLink> GLf;

struct GateWait;
struct Gate {
  std::vector<GateWait*> q;
};
struct GateWait {
  Gate* g;
  std::coroutine_handle<> hd;
  bool reg, opened;
  explicit GateWait(Gate* gg) : g(gg), reg(false), opened(false) {}
  GateWait(const GateWait&) = delete;
  ~GateWait() { unreg(); }
  void unreg() {
    if (!reg) return;
    reg = false;
    for (size_t i = 0; i < g->q.size(); ++i)
      if (g->q[i] == this) {
        g->q.erase(g->q.begin() + (long)i);
        break;
      }
  }
  bool await_ready() const noexcept { return false; }
  void await_suspend(std::coroutine_handle<> x) noexcept {
    hd = x;
    reg = true;
    g->q.push_back(this);
  }
  bool await_resume() noexcept {
    unreg();
    return opened;
  }
};

struct Node {
  int kind = 0;
  bool created = false, entered = false, finished = false, active = false, returned = false, lib = false, started = false, consumed = false, busy = false, dropped = false;
  int dtors = 0, resumes = 0;
  unsigned reasons = 0, ever = 0, children = 0;
  int seen = 0;
  Wait wk = W_NONE;
  int wi = -1;
  unsigned wmask = 0;
  int wcat = 0, wneed = 0;
  bool told_self = false;
  bool at_once = false;  // what it awaits was over: no reason to suspend
  int slot = -1, pins = 0, creator = -1;
  int temp = -1;
  int owned_task = -1, then_child = -1, then_called = 0, tokens = 0;
  uint64_t id = 0;
  int tag = 0;
  int lastret = 0;
  std::vector<Op> script;
  std::vector<Op> cb;
  std::vector<Op> late;  // done by a local that goes away after the return
};
struct Gn {
  bool created = false, dead = false, ready = false, nohook = false;
  int kind = 0, susp = 0, res = 0, arg = 0, arg2 = 0;
  int cur = 0;          // value set last; negative: error
  int n_susp = 0, n_res = 0, hooks_fired = 0;
  int waking = 0, in_res = 0, in_susp = 0, in_drop = 0, pins = 0;
  bool slot = false;
  int extra = 0;
};

struct World {
  Node n[N];
  Gn g[G];
  Gate gate[NGATE];
  std::unique_ptr<CVf> cv[N];
  std::unique_ptr<CIf> ci[N];
  std::unique_ptr<CXf> cx[N];
  std::unique_ptr<TVf> tv[N];
  std::unique_ptr<TIf> ti[N];
  std::unique_ptr<TXf> tx[N];
  std::vector<TVf> tve[N];
  std::vector<TIf> tie[N];
  std::vector<TXf> txe[N];
  std::unique_ptr<GVf> gv[G];
  std::unique_ptr<GIf> gi[G];
  std::unique_ptr<GXf> gx[G];
  std::vector<std::shared_ptr<void> > gextra[G];   // further references to the context
  std::vector<int> held;
  int nn = 0, depth = 0, next_uid = 1000, actions = 0, waking = 0;
  bool ending = false;

  template <class T>
  void check_empty_task(int i, T& e) {
    RT_CHECK(!e.valid() && e.get_status() == S::kInvalid && e.get_id() == 0 && e.get_ref_future_count() == 0, "empty-task", "coroutine %d: an empty task handle claims a task", i);
    RT_CHECK(e.is_exiting() && e.is_completed(), "empty-task", "coroutine %d: an empty task handle claims an unfinished task", i);
    RT_CHECK(!e.start() && !e.kill() && !e.kill(true) && !e.cancel(), "empty-task", "coroutine %d: an empty task handle started or killed something", i);
    RT_CHECK(!e.get_context(), "empty-task", "coroutine %d: an empty task handle has a context", i);
  }
  template <class T>
  void check_empty_gen(int i, T& e, T& full) {
    RT_CHECK(e.get_status() == S::kInvalid && !e.is_ready() && !e.is_pending(), "empty-generator", "coroutine %d: an empty generator claims a state", i);
    RT_CHECK(full.get_status() == S::kRunning && !full.is_ready() && full.is_pending(), "empty-generator", "coroutine %d: a fresh generator is not pending", i);
    RT_CHECK(!full.get_context()->has_multiple_callers(), "multiple-callers", "coroutine %d: a generator nobody waits for claims several waiters", i);
  }

  // calls fn with the future in the node's slot
  template <class Fn>
  bool with(int i, Fn&& fn) {
    Node& x = n[i];
    if (x.slot < 0) return false;
    switch (x.kind) {
      case CV: fn(*cv[x.slot]); return true;
      case CI: fn(*ci[x.slot]); return true;
      case CX: fn(*cx[x.slot]); return true;
      case TV: fn(*tv[x.slot]); return true;
      case TI: fn(*ti[x.slot]); return true;
      default: fn(*tx[x.slot]); return true;
    }
  }
  S status(int i) {
    S s = S::kInvalid;
    with(i, [&](auto& f) { s = f.get_status(); });
    return s;
  }
  bool gone(int i) const { return n[i].slot < 0; }

  // ---- model
  unsigned allowed(int i) const {
    unsigned a[N], m = 0;
    for (int k = 0; k < N; ++k) a[k] = n[k].reasons;
    for (int it = 0; it < N; ++it)
      for (int k = 0; k < N; ++k)
        for (int j = 0; j < N; ++j)
          if (n[k].ever >> j & 1) {
            if (a[j]) a[k] |= a[j] | 1u << (int)S::kKilled;
          }
    m = a[i];
    return m;
  }
  void check_status(int i, S s) {
    Node& x = n[i];
    int v = (int)s;
    RT_CHECK(v >= (int)S::kCreated && v <= (int)S::kTimeout, "status-invalid", "coroutine %d reports status %d", i, v);
    if (x.seen) RT_CHECK(x.seen == v, "status-changed", "coroutine %d had ended with status %d and now reports %d", i, x.seen, v);
    if (s == S::kDone) RT_CHECK(x.returned || x.lib, "done-early", "coroutine %d reports done but has not returned", i);
    if (s > S::kDone) {
      x.seen = v;
      RT_CHECK(allowed(i) >> v & 1, "status-unexplained", "coroutine %d ended with status %d, which nobody gave it", i, v);
    }
    if (s < S::kDone && !x.lib) RT_CHECK(!x.returned, "done-late", "coroutine %d has returned but reports status %d", i, v);
    if (x.returned && !x.lib && !allowed(i)) RT_CHECK(s == S::kDone, "done-late", "coroutine %d has returned, nobody ended it, and it reports status %d", i, v);
    if (s == S::kDone) x.seen = v;
  }
  // continuations are library code: what they did is only visible through their future
  void refresh(int i) {
    Node& x = n[i];
    if (!x.lib || x.finished || !x.then_called) return;
    bool over = false;
    // without a handle left a continuation is over when the coroutine it made is
    if (x.slot < 0) over = x.then_child >= 0 && n[x.then_child].finished;
    else with(i, [&](auto& f) {
      if constexpr (requires { f.is_completed(); }) over = f.is_completed();
      else over = f.is_ready();
    });
    if (over) {
      x.finished = x.returned = true;
      x.wk = W_NONE;
    }
  }
  bool node_terminal(int t) {
    refresh(t);
    if (n[t].finished || n[t].returned) return true;
    if (n[t].slot >= 0) return status(t) >= S::kDone;
    // a continuation without a handle left is over when the coroutine it made is
    if (n[t].lib && n[t].then_child >= 0 && n[n[t].then_child].returned) return true;
    return allowed(t) != 0;
  }
  bool gen_over(int k) const { return g[k].ready || g[k].dead; }
  bool member_ready(int cat, int id) {
    if (cat >= 4) return gen_over(id);
    S s = status(id);
    return s >= S::kDone || s == S::kInvalid;
  }
  bool member_finished(int cat, int id) {
    if (cat >= 4) return gen_over(id);
    return n[id].finished;
  }
  static bool cat_match(int cat, int kind) { return (cat == 0 && kind == CV) || (cat == 1 && kind == CX) || (cat == 2 && kind == TV) || (cat == 3 && kind == TX); }

  unsigned closure(int i) const {
    unsigned m = 0, todo = 1u << i;
    while (todo) {
      int k = __builtin_ctz(todo);
      todo &= ~(1u << k);
      m |= 1u << k;
      const Node& x = n[k];
      unsigned e = x.children;
      if (x.wk == W_NODE && !is_task(n[x.wi].kind)) e |= 1u << x.wi;
      if (x.owned_task >= 0) e |= 1u << x.owned_task;
      if (x.then_child >= 0) e |= 1u << x.then_child;
      todo |= e & ~m;
    }
    return m;
  }
  unsigned waits_closure(int i) const {
    unsigned m = 0, todo = 1u << i;
    while (todo) {
      int k = __builtin_ctz(todo);
      todo &= ~(1u << k);
      m |= 1u << k;
      const Node& x = n[k];
      unsigned e = x.children;
      if (x.wk == W_NODE) e |= 1u << x.wi;
      if (x.wk == W_SOME && x.wcat < 4) e |= x.wmask;
      if (x.owned_task >= 0) e |= 1u << x.owned_task;
      if (x.then_child >= 0) e |= 1u << x.then_child;
      todo |= e & ~m;
    }
    return m;
  }
  bool any_active(unsigned m) const {
    for (int k = 0; k < N; ++k)
      if ((m >> k & 1) && (n[k].active || n[k].busy)) return true;
    return false;
  }
  // a waiter of a generator whose resume hook runs is on the stack without being marked so
  bool in_hook(int i) const {
    for (int k = 0; k < N; ++k)
      if (closure(i) >> k & 1) {
        if (n[k].wk == W_GEN && g[n[k].wi].in_res) return true;
        if (n[k].wk == W_SOME && n[k].wcat >= 4)
          for (int j = 0; j < G; ++j)
            if ((n[k].wmask >> j & 1) && g[j].in_res) return true;
      }
    return false;
  }
  unsigned mark_busy(unsigned m) {
    unsigned s = 0;
    for (int k = 0; k < N; ++k)
      if ((m >> k & 1) && !n[k].busy) {
        n[k].busy = true;
        s |= 1u << k;
      }
    return s;
  }
  void unmark(unsigned s) {
    for (int k = 0; k < N; ++k)
      if (s >> k & 1) n[k].busy = false;
  }
  int waiters_of(int t) const {
    int c = 0;
    for (int k = 0; k < N; ++k) c += n[k].wk == W_NODE && n[k].wi == t;
    return c;
  }
  bool severed_waiter(int t) {
    for (int k = 0; k < N; ++k)
      if (n[k].wk == W_NODE && n[k].wi == t && !is_task(n[t].kind) && (n[t].finished || (n[k].slot >= 0 ? status(k) >= S::kDone : allowed(k) != 0))) return true;
    return false;
  }
  int gen_waiters(int k) const {
    int c = 0;
    for (int i = 0; i < N; ++i) {
      if (n[i].wk == W_GEN && n[i].wi == k) ++c;
      if (n[i].wk == W_SOME && n[i].wcat >= 4 && (n[i].wmask >> k & 1)) ++c;
    }
    return c;
  }

  void act(int self, const Op& o);
  void gen_action(int code, int arg, int k);
  bool create(int i, int kind, int creator);
  void do_kill(int self, int i, int how, bool force);
  void do_drop(int self, int i, int how);
  void do_assign_task(int self, int i, int b, int how);
  void set_gen(int k);
  void drop_gen(int k, bool all, int how);
  void do_then(int m, int t, int c);
  void poll(int i);
  void sweep();
  void finish();

  // ---- called from bodies
  void ran(int i) {
    Node& x = n[i];
    RT_CHECK(!x.finished, "resumed-dead", "coroutine %d was resumed after its end", i);
    ++x.resumes;
    x.active = true;
  }
  bool over_for_waiters(int t) {
    if (status(t) < S::kDone) return false;
    if (!n[t].finished) reach(PR_PARKED_AWAIT);
    return true;
  }
  void before(int i, S st, Wait wk, int wi) {
    Node& x = n[i];
    x.wk = wk;
    x.wi = wi;
    if (wk == W_NODE) {
      n[wi].ever |= 1u << i;
      if (waiters_of(wi) > 1) reach(PR_MULTI);
    }
    if (wk == W_GEN && gen_waiters(wi) > 1) reach(PR_MULTI);
    if (st >= S::kDone && wk != W_GATE) reach(PR_KILLED_AWAIT);
    // a coroutine that was ended does not suspend on library waits any more
    x.active = st >= S::kDone && wk != W_GATE;
    x.at_once = wk == W_NODE && n[wi].slot >= 0 && over_for_waiters(wi);
    x.told_self = st < S::kDone && wk == W_NODE && !x.at_once;
    if (x.at_once) x.active = true;
    rt::event(100 + (uint64_t)wk, (uint64_t)i, (uint64_t)wi);
  }
  void after(int i, S st, bool gate_opened = true) {
    Node& x = n[i];
    rt::event(120, (uint64_t)i, (uint64_t)x.wi);
    check_status(i, st);
    if (st < S::kDone) {
      switch (x.wk) {
        case W_NODE: RT_CHECK(node_terminal(x.wi), "resumed-early", "coroutine %d resumed although coroutine %d, which it awaits, is not over", i, x.wi); break;
        case W_GEN: RT_CHECK(gen_over(x.wi), "resumed-early", "coroutine %d resumed although generator %d, which it awaits, has no value", i, x.wi); break;
        case W_GATE: RT_CHECK(gate_opened, "resumed-early", "coroutine %d was resumed by the library although it waits elsewhere and was not ended", i); break;
        default: break;
      }
    }
    x.wk = W_NONE;
    x.wi = -1;
  }
  int pick_await(int i, int t, S st) {
    t %= nn;
    Node& y = n[t];
    if (!y.created || t == i || y.slot < 0) return -1;
    if (y.kind == CV && (y.consumed || waiters_of(t))) return -1;
    if (waits_closure(t) >> i & 1) return -1;
    for (int c = n[i].creator; c >= 0; c = n[c].creator)
      if (c == t) return -1;
    // awaiting resumes the target if either side has been ended
    const bool resumes = st >= S::kDone || (!y.finished && status(t) >= S::kDone);
    if (resumes && (any_active(closure(t)) || in_hook(t))) return -1;
    if (y.kind == CV) y.consumed = true;
    return t;
  }
  void check_err(int i, int t, int err) {
    unsigned a = allowed(t) | allowed(i);
    RT_CHECK(a, "error-unexplained", "coroutine %d awaited %d and got error %d although neither was ended", i, t, err);
    RT_CHECK((a | 1u << (int)S::kKilled) >> err & 1, "error-unexplained", "coroutine %d awaited %d and got error %d, which nobody gave", i, t, err);
    RT_CHECK(!n[t].returned || n[t].lib, "value-lost", "coroutine %d awaited %d, which returned, and got error %d", i, t, err);
  }
  // an ended call reports the very status it ended with
  void check_err_is(int i, int t, int err, S self, S target) {
    // a waiter ended while it was suspended on a task is told how it ended itself
    if (is_task(n[t].kind) && n[i].told_self && self >= S::kDone) RT_CHECK(err == (int)self, "error-differs", "coroutine %d was ended with status %d while it awaited task %d and was told %d", i, (int)self, t, err);
    if (!is_task(n[t].kind) && !n[t].lib) RT_CHECK(err == (int)target, "error-differs", "coroutine %d (status %d) awaited %d, which ended with status %d, and was told %d", i, (int)self, t, (int)target, err);
  }
  template <class V>
  void check_told(int i, int t, const V& v, S self, S target) {
    int err = 0;
    if constexpr (std::is_same<V, Val>::value) err = v.err;
    else if (v < 0) err = v == -1 ? 0 : -v;
    if (err) check_err_is(i, t, err, self, target);
    check_val(i, t, v);
  }
  void check_uid(int i, int t, int uid) {
    Node& y = n[t];
    if (y.lib) {
      RT_CHECK(uid == 100 + t || (y.then_child >= 0 && uid == 100 + y.then_child), "value-wrong", "coroutine %d awaited continuation %d and got value %d", i, t, uid);
    } else {
      RT_CHECK(y.returned, "value-early", "coroutine %d awaited %d and got value %d although it has not returned", i, t, uid);
      RT_CHECK(uid == 100 + t, "value-wrong", "coroutine %d awaited %d and got value %d", i, t, uid);
    }
  }
  void check_val(int i, int t, const Val& v) {
    if (v.err) {
      check_err(i, t, v.err);
      return;
    }
    if (v.box && *v.box != v.uid) rt::fail("value-wrong", "coroutine %d awaited %d and got a damaged value", i, t);
    check_uid(i, t, v.uid);
  }
  void check_val(int i, int t, int v) {
    if (v < 0) {
      check_err(i, t, v == -1 ? 0 : -v);
      return;
    }
    check_uid(i, t, v);
  }
  void check_gen(int i, int k, int uid, int err, S st) {
    Gn& x = g[k];
    if (err) {
      // a coroutine that was ended itself is told so, or gets what the generator holds
      if (st >= S::kDone && (err == (int)st || err == (int)S::kKilled)) return;
      if (x.ready && x.cur < 0) {
        RT_CHECK(err == -x.cur, "gen-value", "coroutine %d awaited generator %d and got error %d instead of %d", i, k, err, -x.cur);
        return;
      }
      if (x.dead && !x.ready) {
        RT_CHECK(err == (int)S::kKilled || st >= S::kDone, "gen-value", "coroutine %d awaited the dropped generator %d and got error %d", i, k, err);
        return;
      }
      RT_CHECK(st >= S::kDone, "gen-value", "coroutine %d awaited generator %d (ready %d) and got error %d", i, k, (int)x.ready, err);
      RT_CHECK(err == (int)st || err == (int)S::kKilled, "gen-value", "coroutine %d, ended with %d, awaited generator %d and got error %d", i, (int)st, k, err);
      return;
    }
    RT_CHECK(x.ready && uid == x.cur, "gen-value", "coroutine %d awaited generator %d (ready %d, value %d) and got %d", i, k, (int)x.ready, x.cur, uid);
  }
  void returning(int i) {
    Node& x = n[i];
    RT_CHECK(x.active && !x.returned, "ran-twice", "coroutine %d returned twice", i);
    x.returned = true;
    rt::event(130, (uint64_t)i);
  }
};

struct Local {
  World* w;
  int i;
  Local(World& ww, int k) : w(&ww), i(k) {
    Node& x = w->n[i];
    RT_CHECK(!x.entered, "entered-twice", "the body of coroutine %d ran twice", i);
    x.entered = true;
    x.active = true;
    rt::event(140, (uint64_t)i);
  }
  Local(const Local&) = delete;
  ~Local() {
    Node& x = w->n[i];
    RT_CHECK(++x.dtors == 1, "locals-twice", "the locals of coroutine %d were destroyed twice", i);
    x.finished = true;
    x.active = false;
    rt::event(141, (uint64_t)i);
    if (x.late.empty()) return;
    std::vector<Op> late;
    late.swap(x.late);
    for (auto& o : late)
      if (o.code == KILL && o.a == i) {
        reach(PR_LATE_KILL);
        w->do_kill(i, i, o.b & 7, o.c & 1);
        w->poll(i);
      }
    // from here on this coroutine counts as running
    const unsigned b = w->mark_busy(1u << i);
    for (auto& o : late)
      if (!(o.code == KILL && o.a == i)) {
        reach(PR_LATE_ACT);
        w->act(i, o);
      }
    w->unmark(b);
  }
};
// a child held by the body itself
struct Child {
  World* w;
  int i, k;
  Child(World& ww, int self, int kid) : w(&ww), i(self), k(kid) { w->n[i].children |= 1u << k; }
  Child(const Child&) = delete;
  ~Child() {
    w->n[i].children &= ~(1u << k);
    w->n[k].dropped = true;
  }
};
// marks the end of a scope that owns child k: declared before the future, so that it outlives it
struct ChildScope {
  World* w;
  int i, k;
  unsigned busy = 0;
  ChildScope(World& ww, int self, int kid) : w(&ww), i(self), k(kid) { w->n[i].children |= 1u << k; }
  ChildScope(const ChildScope&) = delete;
  bool adopted = false;
  ~ChildScope() {
    w->unmark(busy);
    w->n[i].children &= ~(1u << k);
    if (adopted) {
      w->n[k].slot = k;
      w->n[k].creator = -1;
      return;
    }
    w->n[k].dropped = true;
    RT_CHECK(w->n[k].finished || !w->n[k].entered, "drop-unfinished", "coroutine %d was dropped and its body did not run to its end", k);
  }
};
struct ChildEnd {  // declared after the future: runs before it is destroyed
  ChildScope* s;
  explicit ChildEnd(ChildScope* x) : s(x) {}
  ChildEnd(const ChildEnd&) = delete;
  bool adopted = false;
  ~ChildEnd() {
    World* w = s->w;
    s->adopted = adopted;
    if (adopted) return;
    if (!w->n[s->k].finished) {
      w->n[s->k].reasons |= 1u << (int)S::kKilled;
      reach(PR_DROP_SUSP);
    }
    s->busy = w->mark_busy(w->closure(s->k));
  }
};

template <class V> V make_val(int i);
template <> Val make_val<Val>(int i) { return Val(100 + i); }
template <> int make_val<int>(int i) { return 100 + i; }

template <class F>
F body(World* wp, int i);

template <class F>
unsigned gather(World& w, int cat, unsigned mask, std::vector<F*>& out, std::vector<int>& ids) {
  unsigned got = 0;
  for (int k = 0; k < (cat >= 4 ? (int)G : (int)N); ++k) {
    if (!(mask >> k & 1)) continue;
    F* p = nullptr;
    if constexpr (std::is_same<F, GVf>::value) { if (w.g[k].created && w.g[k].kind == 0) p = w.gv[k].get(); }
    else if constexpr (std::is_same<F, GXf>::value) { if (w.g[k].created && w.g[k].kind == 2) p = w.gx[k].get(); }
    else {
      Node& y = w.n[k];
      if (y.created && y.slot >= 0 && World::cat_match(cat, y.kind)) w.with(k, [&](auto& f) { if constexpr (std::is_same<typename std::decay<decltype(f)>::type, F>::value) p = &f; });
    }
    if (!p) continue;
    out.push_back(p);
    ids.push_back(k);
    got |= 1u << k;
  }
  return got;
}
struct SomeScope {
  World& w;
  int i, cat;
  unsigned mask, pre = 0;
  int need;
  std::vector<int>& ids;
  SomeScope(World& ww, int self, int c, unsigned m, int nd, std::vector<int>& v) : w(ww), i(self), cat(c), mask(m), need(nd), ids(v) {
    for (int k : ids) {
      if (cat >= 4) w.g[k].pins++;
      else w.n[k].pins++;
      if (w.member_ready(cat, k)) pre |= 1u << k;
    }
    if (pre) reach(PR_SOME_PRE);
    Node& x = w.n[i];
    x.wmask = mask;
    x.wcat = cat;
    x.wneed = need < (int)ids.size() ? need : (int)ids.size();
  }
  SomeScope(const SomeScope&) = delete;
  ~SomeScope() {
    for (int k : ids) {
      if (cat >= 4) w.g[k].pins--;
      else w.n[k].pins--;
    }
  }
  template <class F>
  void done(S st, S self, const std::vector<F*>& grp, const std::vector<copp::gsl::not_null<F*> >& rd) {
    Node& x = w.n[i];
    unsigned got = 0;
    for (auto& p : rd) {
      int id = -1;
      for (size_t k = 0; k < grp.size(); ++k)
        if (grp[k] == p.get()) id = ids[k];
      RT_CHECK(id >= 0, "some-stranger", "coroutine %d: a group wait reported an object that is not in the group", i);
      RT_CHECK(!(got >> id & 1), "some-duplicate", "coroutine %d: a group wait reported member %d twice", i, id);
      got |= 1u << id;
      RT_CHECK(w.member_ready(cat, id), "some-unready", "coroutine %d: a group wait reported member %d, which is not ready", i, id);
    }
    if (st == S::kDone) {
      RT_CHECK((int)rd.size() >= x.wneed, "some-early", "coroutine %d: a wait for %d of %d ended with %d ready", i, need, (int)grp.size(), (int)rd.size());
      RT_CHECK((pre & ~got) == 0, "some-forgot", "coroutine %d: a group wait did not report members that were ready beforehand (%x, reported %x)", i, pre, got);
      if ((int)rd.size() < (int)grp.size()) reach(PR_SOME_PART);
    } else {
      RT_CHECK(st == self || self < S::kDone, "some-status-differs", "coroutine %d was ended with status %d and its group wait reports %d", i, (int)self, (int)st);
      RT_CHECK(self >= S::kDone, "some-status", "coroutine %d: a group wait ended with status %d although the waiting coroutine was not ended", i, (int)st);
      RT_CHECK((int)st > (int)S::kDone, "some-status", "coroutine %d: a group wait ended with status %d", i, (int)st);
      RT_CHECK((w.allowed(i) | 1u << (int)S::kKilled) >> (int)st & 1, "some-status", "coroutine %d: a group wait ended with status %d, which nobody gave", i, (int)st);
      reach(PR_SOME_KILLED);
    }
  }
};

// (GCC 13 cannot assign from co_yield in a template)
#define C20_STATUS(V)                \
  {                                  \
    S s_ = co_yield F::yield_status(); \
    V = s_;                          \
  }
#define C20_AWAIT_SLOT(K, ARR, DECL, CHECK)                                    \
  case K: {                                                                    \
    auto& fut = *w.ARR[w.n[t].slot];                                           \
    w.before(i, st, W_NODE, t);                                                \
    DECL co_await fut;                                                         \
    w.ran(i);                                                                  \
    C20_STATUS(st);                                           \
    CHECK;                                                                     \
    w.after(i, st);                                                            \
    break;                                                                     \
  }
#define C20_AWAIT_NEW(K, T, ARR, TASK, DECL, CHECK)                            \
  case K: {                                                                    \
    ChildScope scope(w, i, t);                                                 \
    T fut = body<T>(&w, t);                                                    \
    ChildEnd end(&scope);                                                      \
    TASK;                                                                      \
    C20_STATUS(st); /* the callee may have ended this coroutine */             \
    if (w.waits_closure(t) >> i & 1) break;                                    \
    if (st >= S::kDone && (w.any_active(w.closure(t)) || w.in_hook(t))) {      \
      w.ARR[t] = std::make_unique<T>(std::move(fut)); /* outlives this scope */ \
      end.adopted = true;                                                      \
      break;                                                                   \
    }                                                                          \
    w.before(i, st, W_NODE, t);                                                \
    DECL co_await fut;                                                         \
    w.ran(i);                                                                  \
    C20_STATUS(st);                                           \
    CHECK;                                                                     \
    w.check_status(t, fut.get_status());                                       \
    w.after(i, st);                                                            \
    break;                                                                     \
  }
#define C20_SOME(CAT, T)                                                       \
  case CAT: {                                                                  \
    std::vector<T*> ptrs;                                                      \
    std::vector<int> ids;                                                      \
    unsigned got = gather<T>(w, CAT, (unsigned)o.c & 255, ptrs, ids);          \
    bool bad = false;                                                          \
    if (CAT < 4)                                                               \
      for (int k : ids) bad = bad || k == i || (w.waits_closure(k) >> i & 1);  \
    if (bad) break;                                                            \
    SomeScope sc(w, i, CAT, got, need_of(o.b, (int)ids.size()), ids);          \
    std::vector<copp::gsl::not_null<T*> > rd;                                        \
    if ((o.a & 16) && !ptrs.empty()) { /* leftovers of an earlier wait */      \
      rd.push_back(copp::gsl::not_null<T*>(ptrs[0]));                          \
      if (o.a & 8) rd.push_back(copp::gsl::not_null<T*>(ptrs.back()));         \
      reach(PR_STALE_OUT);                                                     \
    }                                                                          \
    S r = S::kInvalid;                                                         \
    if (o.a & 8) {                                                             \
      std::vector<std::reference_wrapper<T> > grp;                             \
      for (T* p : ptrs) grp.push_back(std::ref(*p));                           \
      auto op = make_some<T>(o.b, rd, grp);                                    \
      C20_STATUS(st);                                                          \
      w.before(i, st, W_SOME, 0);                                              \
      r = co_await op;                                                         \
    } else if ((o.a & 7) == 4 && ptrs.size() == 1) { /* the futures themselves */ \
      copp::gsl::span<T> grp(ptrs[0], 1);                                      \
      auto op = make_some<T>(o.b, rd, grp);                                    \
      reach(PR_FORM_RAW);                                                      \
      C20_STATUS(st);                                                          \
      w.before(i, st, W_SOME, 0);                                              \
      r = co_await op;                                                         \
    } else if ((o.a & 7) >= 4 && ptrs.size() == 2) { /* a plain array */       \
      std::reference_wrapper<T> grp[2] = {std::ref(*ptrs[0]), std::ref(*ptrs[1])}; \
      auto op = make_some<T>(o.b, rd, grp);                                    \
      reach(PR_FORM_ARRAY);                                                    \
      C20_STATUS(st);                                                          \
      w.before(i, st, W_SOME, 0);                                              \
      r = co_await op;                                                         \
    } else if ((o.a & 7) >= 5) { /* a view that is gone while the wait lasts */ \
      std::vector<copp::gsl::not_null<T*> > grp;                               \
      for (T* p : ptrs) grp.push_back(copp::gsl::not_null<T*>(p));             \
      auto op = make_some<T>(o.b, rd, copp::gsl::span<copp::gsl::not_null<T*> >(grp.data(), grp.size())); \
      reach(PR_FORM_SPAN);                                                     \
      C20_STATUS(st);                                                          \
      w.before(i, st, W_SOME, 0);                                              \
      r = co_await op;                                                         \
    } else {                                                                   \
      std::vector<copp::gsl::not_null<T*> > grp;                                     \
      for (T* p : ptrs) grp.push_back(copp::gsl::not_null<T*>(p));             \
      auto op = make_some<T>(o.b, rd, grp);                                    \
      C20_STATUS(st);                                                          \
      w.before(i, st, W_SOME, 0);                                              \
      r = co_await op;                                                         \
    }                                                                          \
    w.ran(i);                                                                  \
    C20_STATUS(st);                                           \
    sc.done(r, st, ptrs, rd);                                                  \
    w.after(i, st);                                                            \
    break;                                                                     \
  }
int need_of(int b, int size) { return (b & 7) == 7 ? size : (b & 7); }
template <class T, class RD, class GR>
copp::callable_future<S> make_some(int b, RD& rd, GR&& grp) {
  if ((b & 7) == 1) return copp::any(rd, grp);
  if ((b & 7) == 7) return copp::all(rd, grp);
  return copp::some(rd, (size_t)(b & 7), grp);
}

template <class F>
F body(World* wp, int i) {
  World& w = *wp;
  typedef typename KindOf<F>::V V;
  Local loc(w, i);
  bool stop = false;
  S st = co_yield F::yield_status();
  RT_CHECK(st != S::kCreated && st != S::kInvalid, "status-invalid", "coroutine %d runs with status %d", i, (int)st);
  if constexpr ((int)KindOf<F>::k == (int)TV) {
    Priv* pp = co_yield F::yield_private_data();
    RT_CHECK(pp && pp->node == i, "private-data", "task %d does not see its private data", i);
    pp->tag += 1;
    w.n[i].tag += 1;
  }
  if constexpr ((int)KindOf<F>::k >= (int)TV) {
    uint64_t id = co_yield F::yield_task_id();
    RT_CHECK(id != 0 && (w.n[i].id == 0 || id == w.n[i].id), "task-id", "task %d sees id %llu instead of %llu", i, (unsigned long long)id, (unsigned long long)w.n[i].id);
    w.n[i].id = id;
  }
  for (size_t pc = 0; pc < w.n[i].script.size() && !stop; ++pc) {
    const Op o = w.n[i].script[pc];
    C20_STATUS(st);
    w.check_status(i, st);
    RT_CHECK(w.n[i].active, "harness", "coroutine %d runs while marked suspended", i);
    if (o.code < NACT) {
      w.act(i, o);
      continue;
    }
    switch (o.code) {
      case AWAIT: {
        int t = w.pick_await(i, o.a, st);
        if (t < 0) break;
        switch (w.n[t].kind) {
          C20_AWAIT_SLOT(CV, cv, Val v =, if (w.n[t].slot >= 0) w.check_told(i, t, v, st, w.status(t)); else w.check_val(i, t, v))
          C20_AWAIT_SLOT(CI, ci, int v =, if (w.n[t].slot >= 0) w.check_told(i, t, v, st, w.status(t)); else w.check_val(i, t, v))
          C20_AWAIT_SLOT(CX, cx, , (void)0)
          C20_AWAIT_SLOT(TV, tv, Val v =, if (w.n[t].slot >= 0) w.check_told(i, t, v, st, w.status(t)); else w.check_val(i, t, v))
          C20_AWAIT_SLOT(TI, ti, int v =, if (w.n[t].slot >= 0) w.check_told(i, t, v, st, w.status(t)); else w.check_val(i, t, v))
          C20_AWAIT_SLOT(TX, tx, , (void)0)
          default: break;
        }
        break;
      }
      case AWAIT_LOCAL: {
        int t = o.a % w.nn;
        if (!w.create(t, w.n[t].kind, i)) break;
        switch (w.n[t].kind) {
          C20_AWAIT_NEW(CV, CVf, cv, , Val v =, w.check_told(i, t, v, st, fut.get_status()))
          C20_AWAIT_NEW(CI, CIf, ci, , int v =, w.check_told(i, t, v, st, fut.get_status()))
          C20_AWAIT_NEW(CX, CXf, cx, , , (void)0)
          C20_AWAIT_NEW(TV, TVf, tv, w.n[t].id = fut.get_id(); if (o.b & 1) fut.start(), Val v =, w.check_told(i, t, v, st, fut.get_status()))
          C20_AWAIT_NEW(TI, TIf, ti, w.n[t].id = fut.get_id(); if (o.b & 1) fut.start(), int v =, w.check_told(i, t, v, st, fut.get_status()))
          C20_AWAIT_NEW(TX, TXf, tx, w.n[t].id = fut.get_id(); if (o.b & 1) fut.start(), , (void)0)
          default: break;
        }
        break;
      }
      case AWAIT_TEMP: {
        int t = o.a % w.nn;
        if (is_task(w.n[t].kind) || st >= S::kDone || !w.create(t, w.n[t].kind, i)) break;
        w.n[i].children |= 1u << t;
        // the callee is created and runs inside the same expression, while this body is still on the stack
        w.n[t].ever |= 1u << i;
        if (w.n[t].kind == CV) {
          auto fut = body<CVf>(&w, t);
          C20_STATUS(st);
          if (!(w.waits_closure(t) & ~(w.n[i].children) & (1u << i))) {
            w.before(i, st, W_NODE, t);
            Val v = co_await std::move(fut);
            w.ran(i);
            C20_STATUS(st);
            w.check_val(i, t, v);
            w.after(i, st);
          } else {
            w.n[t].reasons |= 1u << (int)S::kKilled;
          }
        } else if (w.n[t].kind == CI) {
          auto fut = body<CIf>(&w, t);
          C20_STATUS(st);
          if (!(w.waits_closure(t) & (1u << i))) {
            w.before(i, st, W_NODE, t);
            int v = co_await std::move(fut);
            w.ran(i);
            C20_STATUS(st);
            w.check_val(i, t, v);
            w.after(i, st);
          } else {
            w.n[t].reasons |= 1u << (int)S::kKilled;
          }
        } else {
          w.n[i].temp = t;
          co_await body<CXf>(&w, t);
          w.n[i].temp = -1;
          w.ran(i);
          C20_STATUS(st);
          RT_CHECK(st >= S::kDone || w.n[t].finished, "resumed-early", "coroutine %d resumed although the temporary %d, which it awaits, is not over", i, t);
          w.after(i, st);
        }
        w.n[i].children &= ~(1u << t);
        break;
      }
      case GATE: {
        w.before(i, st, W_GATE, o.a % NGATE);
        bool opened = co_await GateWait(&w.gate[o.a % NGATE]);
        w.ran(i);
        C20_STATUS(st);
        w.after(i, st, opened);
        break;
      }
      case AWAIT_GEN: {
        int k = o.a % G;
        Gn& x = w.g[k];
        if (!x.created || !x.slot || x.in_drop) break;
        if (x.nohook) reach(PR_NO_HOOK);
        if (x.kind == 0) {
          w.before(i, st, W_GEN, k);
          Val v = co_await *w.gv[k];
          w.ran(i);
          C20_STATUS(st);
          if (v.box && *v.box != v.uid) rt::fail("gen-value", "coroutine %d got a damaged value from generator %d", i, k);
          w.check_gen(i, k, v.uid, v.err, st);
        } else if (x.kind == 1) {
          w.before(i, st, W_GEN, k);
          int v = co_await *w.gi[k];
          w.ran(i);
          C20_STATUS(st);
          w.check_gen(i, k, v, v < 0 ? -v : 0, st);
        } else {
          w.before(i, st, W_GEN, k);
          co_await *w.gx[k];
          w.ran(i);
          C20_STATUS(st);
        }
        w.after(i, st);
        break;
      }
      case SOME:
        switch ((o.a & 7) % K_CATS) {
          C20_SOME(0, CVf)
          C20_SOME(1, CXf)
          C20_SOME(2, TVf)
          C20_SOME(3, TXf)
          C20_SOME(4, GVf)
          C20_SOME(5, GXf)
          default: break;
        }
        break;
      case STATUS:
        if (o.a & 1) stop = st >= S::kDone;
        break;
      case THROW:
        try {
          throw std::runtime_error("inside");
        } catch (const std::exception& e) {
          rt::count_fault(rt::F_THROW);
        }
        break;
      case RET:
        stop = (o.a & 3) == 0 || st >= S::kDone;
        break;
      case EMPTY: {
        // a handle that refers to nothing says so, does nothing, and awaiting it neither suspends nor yields a value
        reach(PR_EMPTY);
        switch (o.b % 8) {
          case 0: {
            TVf e;
            w.check_empty_task(i, e);
            Val v = co_await e;
            RT_CHECK(v.err == (int)S::kInvalid && v.uid == -1, "empty-value", "coroutine %d got (%d, %d) from an empty task", i, v.uid, v.err);
            break;
          }
          case 1: {
            TIf e;
            w.check_empty_task(i, e);
            int v = co_await e;
            RT_CHECK(v == copp::promise_error_transform<int>()(S::kInvalid), "empty-value", "coroutine %d got %d from an empty task", i, v);
            break;
          }
          case 2: {
            TXf e;
            w.check_empty_task(i, e);
            co_await e;
            break;
          }
          case 3: {
            GVf full([](const GVf::context_pointer_type&) {});
            GVf e(std::move(full));
            w.check_empty_gen(i, full, e);
            Val v = co_await full;
            RT_CHECK(v.err == (int)S::kInvalid && v.uid == -1, "empty-value", "coroutine %d got (%d, %d) from an empty generator", i, v.uid, v.err);
            break;
          }
          case 4: {
            GXf full([](const GXf::context_pointer_type&) {});
            GXf e(std::move(full));
            w.check_empty_gen(i, full, e);
            co_await full;
            break;
          }
          case 5: {
            // the handle assigned belongs to the task it replaces
            int done[2] = {0, 0};
            TLf a = link_body(&done[0], 1), b = link_body(&done[1], 2);
            if (o.a & 1) a.start();
            if (o.a & 2) b.start();
            const uint64_t id = b.get_id();
            const S s = b.get_status();
            auto next = std::make_shared<TLf>(std::move(b));
            TLf* pn = next.get();
            a.get_private_data()->next = std::move(next);
            if (o.c & 1) a = *pn;
            else a = std::move(*pn);
            RT_CHECK(a.get_id() == id && a.get_status() == s && a.get_ref_future_count() == 1, "assign-owned", "coroutine %d: a task handle assigned from the task it replaces is wrong", i);
            RT_CHECK(done[0] == 1 && done[1] == ((o.a & 2) != 0), "assign-owned", "coroutine %d: tasks ran %d and %d times", i, done[0], done[1]);
            a.start();
            int v = co_await a;
            RT_CHECK(v == 2 && done[1] == 1, "assign-owned", "coroutine %d got %d", i, v);
            break;
          }
          case 6: {
            GLf a([](const GLf::context_pointer_type&) {});
            int resumed = 0;
            auto next = std::make_shared<GLf>([](const GLf::context_pointer_type&) {}, [&resumed](const GLf::context_type&) { ++resumed; });
            GLf* pn = next.get();
            GLink v;
            v.uid = 1;
            v.next = std::move(next);
            a.get_context()->set_value(std::move(v));
            v.next.reset();
            auto* ctx = pn->get_context().get();
            if (o.c & 1) a = std::as_const(*pn);
            else a = std::move(*pn);
            RT_CHECK(a.get_context().get() == ctx && a.get_context().use_count() == 1 && a.is_pending(), "assign-owned", "coroutine %d: a generator assigned from the value of the one it replaces is wrong", i);
            GLink v2;
            v2.uid = 2;
            a.get_context()->set_value(v2);
            GLink got = co_await a;
            RT_CHECK(got.uid == 2 && resumed == 0, "assign-owned", "coroutine %d got %d", i, got.uid);
            break;
          }
          default: {
            TVf a;
            TVf b(a), c(std::move(b));
            a = c;
            c = std::move(a);
            c.reset();
            w.check_empty_task(i, a);
            w.check_empty_task(i, b);
            w.check_empty_task(i, c);
            break;
          }
        }
        RT_CHECK(w.n[i].active, "harness", "coroutine %d was suspended by an empty handle", i);
        break;
      }
      case LATE: {
        static const int what[] = {KILL, KILL, KILL, SET, OPEN, POLL, START, RESET};
        Op l = {o.th, what[o.c & 7], (o.c & 7) < 2 ? i : o.a, o.b, (o.c >> 3 & 3) == 0};
        if (w.n[i].late.size() < 3) w.n[i].late.push_back(l);
        break;
      }
      default: break;
    }
  }
  w.returning(i);
  if constexpr (std::is_void<V>::value) co_return;
  else co_return make_val<V>(i);
}

struct ThenToken {  // lives as long as the continuation's frame
  World* w;
  int m;
  ThenToken(World* ww, int mm) : w(ww), m(mm) { ++w->n[m].tokens; }
  ~ThenToken() {
    Node& x = w->n[m];
    --x.tokens;
    x.finished = true;
    x.wk = W_NONE;
    x.owned_task = -1;
    x.then_child = -1;
  }
};

bool World::create(int i, int kind, int creator) {
  Node& x = n[i];
  if (x.created || i >= nn || i >= M) return false;
  if (cv[i] || ci[i] || cx[i] || tv[i] || ti[i] || tx[i]) return false;
  x.created = true;
  x.kind = kind;
  x.creator = creator;
  return true;
}

void World::gen_action(int code, int arg, int k) {
  switch (code) {
    case 1: rt::count_fault(rt::F_REENTER); reach(PR_SYNC_SET); set_gen(k); break;
    case 2: { Op o = {0, OPEN, arg, 0, 0}; rt::count_fault(rt::F_REENTER); act(-1, o); break; }
    case 3: rt::count_fault(rt::F_DROP); drop_gen(k, arg & 1, arg >> 1); break;
    case 4: rt::count_fault(rt::F_REENTER); do_kill(-1, arg % nn, arg >> 3, (arg & 32) != 0); break;
    case 5: rt::count_fault(rt::F_REENTER); do_drop(-1, arg % nn, 0); break;
    case 7: rt::count_fault(rt::F_REENTER); reach(PR_OTHER_SET); set_gen(arg % G); break;
    default: break;
  }
}

void World::set_gen(int k) {
  Gn& x = g[k];
  if (!x.created || !x.slot || x.in_drop || depth > 24) return;
  ++depth;
  x.ready = true;
  ++x.waking;
  ++waking;
  rt::event(150, (uint64_t)k, (uint64_t)next_uid);
  if (x.kind == 0) {
    if ((x.arg2 & 15) == 3) {
      x.cur = -(int)S::kTimeout;
      gv[k]->get_context()->set_value(Val(S::kTimeout));
    } else {
      x.cur = next_uid++;
      if (x.arg2 & 1) {
        Val v(x.cur);
        gv[k]->get_context()->set_value(v);
      } else {
        gv[k]->get_context()->set_value(Val(x.cur));
      }
    }
  } else if (x.kind == 1) {
    x.cur = next_uid++;
    gi[k]->get_context()->set_value(x.cur);
  } else {
    x.cur = 1;
    gx[k]->get_context()->set_value();
  }
  --x.waking;
  --waking;
  --depth;
}

void World::drop_gen(int k, bool all, int how) {
  Gn& x = g[k];
  if (!x.created || x.dead || x.pins || x.in_drop) return;
  ++depth;
  if (x.extra && !all) {
    --x.extra;
    if (x.extra == 0 && !x.slot) {
      x.dead = true;
      x.in_drop++;
      if (gen_waiters(k)) reach(PR_GEN_DROP_WAIT);
    }
    std::shared_ptr<void> e = std::move(gextra[k].back());
    gextra[k].pop_back();
    e.reset();
    if (x.dead) x.in_drop--;
    --depth;
    return;
  }
  if (!x.slot) {
    --depth;
    return;
  }
  x.slot = false;
  bool last = x.extra == 0;
  if (last) {
    x.dead = true;
    x.in_drop++;
    if (gen_waiters(k)) reach(PR_GEN_DROP_WAIT);
  }
  rt::event(151, (uint64_t)k, last);
  std::unique_ptr<GVf> a = std::move(gv[k]);
  std::unique_ptr<GIf> b = std::move(gi[k]);
  std::unique_ptr<GXf> c = std::move(gx[k]);
  if (last && !x.waking) {
    // readiness as seen by the waiters that the end of the generator wakes
    if (!x.ready) x.cur = -(int)S::kKilled;
  }
  auto overwrite = [&](auto& f) {
    // dropped by assigning another generator to it
    typedef typename std::decay<decltype(*f)>::type F;
    F other([](const typename F::context_pointer_type&) {}, [](const typename F::context_type&) {});
    auto* ctx = other.get_context().get();
    if (how & 2) *f = std::as_const(other);
    else *f = std::move(other);
    RT_CHECK(f->get_context().get() == ctx && f->is_pending(), "generator-assign", "generator %d: a generator assigned to it was lost", k);
  };
  if (how & 1) {
    if (a) overwrite(a);
    if (b) overwrite(b);
    if (c) overwrite(c);
  }
  a.reset();
  b.reset();
  c.reset();
  if (last) x.in_drop--;
  --depth;
  if (last && !waking && !x.in_susp && !x.in_res)
    for (int i = 0; i < N; ++i) RT_CHECK(!(n[i].wk == W_GEN && n[i].wi == k), "lost-wake", "generator %d was dropped and coroutine %d is still waiting for it", k, i);
}

void World::do_kill(int self, int i, int how, bool force) {
  Node& x = n[i];
  (void)self;
  if (!x.created || x.slot < 0 || depth > 24) return;
  unsigned cl = closure(i);
  // on the stack inside the hook that tells about its own resumption (the hook does not tell whose resumption it is about)
  const bool in_own_hook = !x.active && x.wk == W_GEN && g[x.wi].in_res == 1 && gen_waiters(x.wi) == 1 && !g[x.wi].pins;
  const bool running = !x.busy && !force && !x.lib && ((x.active && x.wk == W_NONE && x.temp < 0) || in_own_hook);
  if (!running && (any_active(cl) || in_hook(i))) return;
  if (running) cl = 0;
  static const S kinds[] = {S::kKilled, S::kCancle, S::kTimeout, S::kKilled};
  S target = kinds[how & 3];
  refresh(i);
  S cur = status(i);
  check_status(i, cur);
  bool over = x.finished;
  rt::event(160, (uint64_t)i, (uint64_t)target);
  if ((how & 7) == 7) {
    bool r = true;
    with(i, [&](auto& f) { r = f.kill(S::kRunning, force); });
    RT_CHECK(!r && status(i) == cur, "kill-bad-status", "ending coroutine %d with status running was accepted", i);
    return;
  }
  rt::count_fault(rt::F_KILL);
  bool live = cur < S::kDone && !over;
  if (live) x.reasons |= 1u << (int)target;
  const Wait wk = x.wk;
  const int res = x.resumes, called = x.then_called;
  const bool entered = x.entered;
  if (live && wk != W_NONE && wk != W_GATE) reach(PR_KILL_WAIT);
  if (live && wk == W_NODE && n[x.wi].wk != W_NONE) reach(PR_KILL_DEEP);
  if (live && wk == W_GATE && force) reach(PR_FORCE);
  if (live && !entered && is_task(x.kind)) reach(PR_UNSTARTED);
  if (live && waking && wk == W_GEN) reach(PR_WAKE_KILL);
  unsigned b = mark_busy(cl);
  ++depth;
  bool r = false;
  switch (x.kind) {
    case TV: r = (how & 8) && target == S::kCancle ? tv[x.slot]->cancel(force) : tv[x.slot]->kill(target, force); break;
    case TI: r = (how & 8) && target == S::kKilled ? ti[x.slot]->kill(force) : ti[x.slot]->kill(target, force); break;
    default: with(i, [&](auto& f) { r = f.kill(target, force); }); break;
  }
  --depth;
  unmark(b);
  RT_CHECK(r == live, "kill-result", "ending coroutine %d (status %d, finished %d) with %d reported %d", i, (int)cur, (int)over, (int)target, (int)r);
  if (!r) return;
  if (running) {
    reach(in_own_hook ? PR_HOOK_KILL : PR_RUN_KILL);
    RT_CHECK(x.resumes == res && x.active != in_own_hook && !x.finished, "running-resumed", "coroutine %d was ended while running and was resumed", i);
  }
  if (x.slot >= 0) RT_CHECK(status(i) == target, "status-changed", "coroutine %d was ended with status %d and reports %d", i, (int)target, (int)status(i));
  if (x.lib) {
    if (wk != W_NONE && x.then_child < 0) RT_CHECK(x.then_called > called || x.finished, "kill-not-resumed", "continuation %d was ended while waiting and did not resume", i);
  } else if (!running && wk != W_NONE && (wk != W_GATE || force)) {
    RT_CHECK(x.resumes > res || x.finished, "kill-not-resumed", "coroutine %d was ended while waiting (%d) and did not resume", i, (int)wk);
  } else if (wk == W_GATE) {
    RT_CHECK(x.resumes == res, "foreign-resumed", "coroutine %d was ended while suspended outside the library and was resumed there", i);
  } else if (wk == W_NONE && !entered && !force) {
    RT_CHECK(!x.entered, "kill-started", "ending the unstarted task %d ran its body", i);
  }
}

// a handle of task b is assigned (copied or moved) over the handle of task i
void World::do_assign_task(int self, int i, int b, int how) {
  Node &x = n[i], &y = n[b];
  const int sa = x.slot, sb = y.slot;
  const bool copy = (how & 1) != 0;
  auto pick = [&](auto fn) {
    if (x.kind == TV) fn(tv, tve);
    else if (x.kind == TI) fn(ti, tie);
    else fn(tx, txe);
  };
  if (i == b) {
    rt::event(194, (uint64_t)i);
    pick([&](auto& h, auto& e) {
      auto& f = *h[sa];
      auto& g2 = f;
      if (copy) f = g2;
      else f = std::move(g2);
      if (!e[i].empty()) f = e[i].back();
    });
    return;
  }
  size_t refs = 0, extra = 0, yextra = 0, yrefs = 0;
  pick([&](auto& h, auto& e) {
    refs = h[sa]->get_ref_future_count();
    yrefs = h[sb]->get_ref_future_count();
    extra = e[i].size();
    yextra = e[b].size();
  });
  if (copy && yextra >= 3) return;
  const unsigned cl = closure(i);
  const bool last = refs == 1 + extra;
  if (last && (any_active(cl | 1u << b) || in_hook(i) || depth > 20)) return;
  if (last && !x.finished) {
    x.reasons |= 1u << (int)S::kKilled;
    reach(x.entered ? PR_DROP_SUSP : PR_UNSTARTED);
    if (self >= 0) reach(PR_LASTIN);
    rt::count_fault(rt::F_DROP);
  }
  unsigned bs = mark_busy((last ? cl : 0) | 1u << b);
  x.slot = -1;
  x.dropped = last;
  y.slot = -1;  // while the assignment runs neither handle may be used by name
  ++depth;
  rt::event(195, (uint64_t)i, (uint64_t)b * 2 + last);
  pick([&](auto& h, auto& e) {
    auto old = std::move(e[i]);
    e[i].clear();
    old.clear();
    if (copy) *h[sa] = *h[sb];
    else *h[sa] = std::move(*h[sb]);
    if (!last) RT_CHECK(h[sa]->get_ref_future_count() == yrefs + (copy ? 1 : 0), "handle-count", "task %d counts %d handles after its handle was %s, %d before", b, (int)h[sa]->get_ref_future_count(), copy ? "copied" : "moved", (int)yrefs);
    if (copy) {
      e[b].push_back(std::move(*h[sa]));
      h[sa].reset();
      y.slot = sb;
    } else {
      y.slot = sa;
      h[sb].reset();
    }
  });
  --depth;
  unmark(bs);
  if (last) RT_CHECK(x.finished || (!x.entered && !x.lib), "drop-unfinished", "the last handle of task %d was overwritten and its body did not run to its end", i);
}

void World::do_drop(int self, int i, int how) {
  Node& x = n[i];
  if (!x.created || x.slot < 0 || depth > 24 || x.pins) return;
  const int sl = x.slot;
  ++depth;
  if (is_task(x.kind)) {
    size_t extra = x.kind == TV ? tve[i].size() : x.kind == TI ? tie[i].size() : txe[i].size();
    if (extra && (how & 1)) {  // a copy: never the last one
      rt::event(171, (uint64_t)i);
      if (x.kind == TV) {
        TVf f = std::move(tve[i].back());
        tve[i].pop_back();
      } else if (x.kind == TI) {
        TIf f(tie[i].back());
        tie[i].pop_back();
      } else {
        TXf f;
        f = std::move(txe[i].back());
        txe[i].pop_back();
      }
      --depth;
      return;
    }
    size_t refs = 0;
    with(i, [&](auto& f) {
      if constexpr ((int)KindOf<std::decay_t<decltype(f)> >::k >= (int)TV) refs = f.get_ref_future_count();
    });
    RT_CHECK(refs >= 1 + extra, "handle-count", "task %d counts %d handles although %d exist", i, (int)refs, (int)(1 + extra));
    // copies go with the slot, unless continuations still hold the task
    unsigned cl = closure(i);
    bool last = refs == 1 + extra;
    if (last && (any_active(cl) || in_hook(i))) {
      --depth;
      return;
    }
    if (last && !x.finished) {
      x.reasons |= 1u << (int)S::kKilled;
      reach(x.entered ? PR_DROP_SUSP : PR_UNSTARTED);
      if (self >= 0) reach(PR_LASTIN);
      rt::count_fault(rt::F_DROP);
      if (waking) reach(PR_WAKE_DROP);
    }
    unsigned b = last ? mark_busy(cl) : 0;
    x.slot = -1;
    x.dropped = last;
    rt::event(172, (uint64_t)i, last);
    std::unique_ptr<TVf> a = std::move(tv[sl]);
    std::unique_ptr<TIf> bb = std::move(ti[sl]);
    std::unique_ptr<TXf> c = std::move(tx[sl]);
    std::vector<TVf> ea;
    ea.swap(tve[i]);
    std::vector<TIf> eb;
    eb.swap(tie[i]);
    std::vector<TXf> ec;
    ec.swap(txe[i]);
    ea.clear();
    eb.clear();
    ec.clear();
    a.reset();
    bb.reset();
    c.reset();
    unmark(b);
    --depth;
    if (last) RT_CHECK(x.finished || (!x.entered && !x.lib), "drop-unfinished", "the last handle of task %d was dropped and its body did not run to its end", i);
    return;
  }
  unsigned cl = closure(i);
  if (any_active(cl) || in_hook(i) || severed_waiter(i)) {
    if (severed_waiter(i)) reach(PR_SEVERED);
    --depth;
    return;
  }
  if (!x.finished) {
    x.reasons |= 1u << (int)S::kKilled;
    reach(PR_DROP_SUSP);
    rt::count_fault(rt::F_DROP);
    if (waking) reach(PR_WAKE_DROP);
  }
  unsigned b = mark_busy(cl);
  x.slot = -1;
  x.dropped = true;
  rt::event(170, (uint64_t)i);
  if (x.kind == CV) {
    std::unique_ptr<CVf> f = std::move(cv[sl]);
    f.reset();
  } else if (x.kind == CI) {
    std::unique_ptr<CIf> f = std::move(ci[sl]);
    f.reset();
  } else {
    std::unique_ptr<CXf> f = std::move(cx[sl]);
    f.reset();
  }
  unmark(b);
  --depth;
  RT_CHECK(x.finished, "drop-unfinished", "coroutine %d was dropped and its body did not run to its end", i);
  for (int k = 0; k < N; ++k) RT_CHECK(!(n[k].wk == W_NODE && n[k].wi == i) || n[k].busy, "lost-wake", "coroutine %d was dropped and coroutine %d is still waiting for it", i, k);
}

template <class V>
int uid_of(const V&);
template <>
int uid_of<Val>(const Val& v) { return v.err ? -v.err : v.uid; }
template <>
int uid_of<int>(const int& v) { return v; }

// what a continuation does when it is called
struct ThenBase {
  World* w;
  int m, t, k;
  std::shared_ptr<ThenToken> tok;
  void enter(int uid) const {
    Node& x = w->n[m];
    RT_CHECK(++x.then_called == 1, "then-twice", "continuation %d was called twice", m);
    rt::event(180, (uint64_t)m, (uint64_t)uid);
    x.active = true;
    x.wk = W_NONE;
    bool over = w->node_terminal(t);
    RT_CHECK(over || w->allowed(m), "then-early", "continuation %d was called although task %d is not over", m, t);
    if (uid > 0) w->check_uid(m, t, uid);
    else if (uid < 0) w->check_err(m, t, uid == -1 ? 0 : -uid);
    auto cb = x.cb;
    for (auto& o : cb) w->act(m, o);
  }
  void leave() const {
    Node& x = w->n[m];
    x.active = false;
    x.returned = true;
    x.finished = true;
  }
  template <class T>
  T child() const {
    Node& x = w->n[m];
    w->n[k].created = true;
    w->n[k].kind = KindOf<T>::k;
    w->n[k].creator = m;
    x.then_child = k;
    w->n[k].ever |= 1u << m;
    T f = body<T>(w, k);
    x.wk = W_NODE;
    x.wi = k;
    w->held.push_back(m);  // stays on the stack until the library has suspended it
    return f;
  }
};
template <class CTX, class V, class R>
struct ThenVal : ThenBase {  // plain result
  R operator()(CTX, V v) const {
    enter(uid_of<V>(v));
    leave();
    if constexpr (std::is_void<R>::value) return;
    else return make_val<R>(m);
  }
};
template <class CTX, class R>
struct ThenVal<CTX, void, R> : ThenBase {
  R operator()(CTX) const {
    enter(0);
    leave();
    if constexpr (std::is_void<R>::value) return;
    else return make_val<R>(m);
  }
};
template <class CTX, class V, class T>
struct ThenCo : ThenBase {  // result is a coroutine
  T operator()(CTX, V v) const {
    enter(uid_of<V>(v));
    return child<T>();
  }
};
template <class CTX, class T>
struct ThenCo<CTX, void, T> : ThenBase {
  T operator()(CTX) const {
    enter(0);
    return child<T>();
  }
};

template <class TF, class R, class FN>
void then_install(World* w, TF& tf, ThenBase b, int flavour, FN) {
  typedef typename TF::context_pointer_type Ctx;
  typedef typename TF::value_type V;
  Node& x = w->n[b.m];
  // R: void or int; x.kind: CI/CX/TI/TX
  auto put = [&](auto&& fn) {
    if constexpr (std::is_void<R>::value) {
      if (x.kind == CX) {
        auto f = std::make_unique<CXf>(tf.then(std::move(fn)));
        w->cx[b.m] = std::move(f);
      } else {
        auto f = std::make_unique<TXf>(tf.then(std::move(fn), nullptr));
        x.id = f->get_id();
        w->tx[b.m] = std::move(f);
      }
    } else if constexpr (std::is_same<R, Val>::value) {
      if (x.kind == CV) {
        auto f = std::make_unique<CVf>(tf.then(std::move(fn)));
        w->cv[b.m] = std::move(f);
      } else {
        int node = b.m;
        World* world = w;
        auto f = std::make_unique<TVf>(tf.then(std::move(fn), Priv(world, node)));
        x.id = f->get_id();
        w->tv[b.m] = std::move(f);
      }
    } else {
      if (x.kind == CI) {
        auto f = std::make_unique<CIf>(tf.then(std::move(fn)));
        w->ci[b.m] = std::move(f);
      } else {
        auto f = std::make_unique<TIf>(tf.then(std::move(fn), nullptr));
        x.id = f->get_id();
        w->ti[b.m] = std::move(f);
      }
    }
    x.slot = b.m;
  };
  if (flavour == 0) {
    ThenVal<Ctx, V, R> f;
    static_cast<ThenBase&>(f) = b;
    put(std::move(f));
  } else if (flavour == 1) {
    ThenCo<Ctx, V, typename std::conditional<std::is_void<R>::value, CXf, typename std::conditional<std::is_same<R, Val>::value, CVf, CIf>::type>::type> f;
    static_cast<ThenBase&>(f) = b;
    put(std::move(f));
  } else {
    ThenCo<Ctx, V, typename std::conditional<std::is_void<R>::value, TXf, typename std::conditional<std::is_same<R, Val>::value, TVf, TIf>::type>::type> f;
    static_cast<ThenBase&>(f) = b;
    put(std::move(f));
  }
}

void World::do_then(int m, int t, int c) {
  if (m == t || depth > 20) return;
  Node &x = n[m], &y = n[t];
  if (!y.created || y.slot < 0 || !is_task(y.kind)) return;
  int kind = x.kind;
  int flavour = c % 3, k = M + m;
  if (!create(m, kind, -1)) return;
  x.lib = true;
  x.entered = true;
  x.started = true;
  x.wk = W_NODE;
  x.wi = t;
  x.owned_task = t;
  y.ever |= 1u << m;  // the continuation may hold the last handle
  reach(y.finished ? PR_THEN_LATE : PR_THEN_EARLY);
  rt::event(185, (uint64_t)m, (uint64_t)t * 8 + (uint64_t)flavour);
  ++depth;
  ThenBase b{this, m, t, k, std::make_shared<ThenToken>(this, m)};
  const bool v = kind == CX || kind == TX;
  if (kind == CV || kind == TV) {
    if (y.kind == TV) then_install<TVf, Val>(this, *tv[y.slot], std::move(b), flavour, 0);
    else if (y.kind == TI) then_install<TIf, Val>(this, *ti[y.slot], std::move(b), flavour, 0);
    else then_install<TXf, Val>(this, *tx[y.slot], std::move(b), flavour, 0);
  } else if (y.kind == TV) {
    if (v) then_install<TVf, void>(this, *tv[y.slot], std::move(b), flavour, 0);
    else then_install<TVf, int>(this, *tv[y.slot], std::move(b), flavour, 0);
  } else if (y.kind == TI) {
    if (v) then_install<TIf, void>(this, *ti[y.slot], std::move(b), flavour, 0);
    else then_install<TIf, int>(this, *ti[y.slot], std::move(b), flavour, 0);
  } else {
    if (v) then_install<TXf, void>(this, *tx[y.slot], std::move(b), flavour, 0);
    else then_install<TXf, int>(this, *tx[y.slot], std::move(b), flavour, 0);
  }
  --depth;
}

void World::poll(int i) {
  Node& x = n[i];
  if (!x.created || x.slot < 0) return;
  refresh(i);
  S s = status(i);
  check_status(i, s);
  const bool over = x.finished || x.returned;
  switch (x.kind) {
    case CV: RT_CHECK(cv[x.slot]->is_ready() == over, "ready-wrong", "coroutine %d reports ready %d", i, (int)!over); break;
    case CI: RT_CHECK(ci[x.slot]->is_ready() == over || x.lib, "ready-wrong", "coroutine %d reports ready %d", i, (int)!over); break;
    case CX: RT_CHECK(cx[x.slot]->is_ready() == over || x.lib, "ready-wrong", "coroutine %d reports ready %d", i, (int)!over); break;
    default: break;
  }
  auto task = [&](auto& f) {
    RT_CHECK(f.valid() && f, "handle-lost", "the handle of task %d became empty", i);
    RT_CHECK(f.is_exiting() == (s >= S::kDone), "exiting-wrong", "task %d with status %d reports exiting %d", i, (int)s, (int)f.is_exiting());
    if (!x.lib) RT_CHECK(f.is_completed() == (s >= S::kDone && over), "completed-wrong", "task %d with status %d reports completed %d", i, (int)s, (int)f.is_completed());
    if (x.id) RT_CHECK(f.get_id() == x.id, "task-id", "task %d changed its id", i);
    RT_CHECK(f.is_canceled() == (s == S::kCancle) && f.is_timeout() == (s == S::kTimeout) && f.is_faulted() == (s >= S::kKilled), "status-wrong",
             "task %d with status %d reports cancelled %d, timed out %d, faulted %d", i, (int)s, (int)f.is_canceled(), (int)f.is_timeout(), (int)f.is_faulted());
  };
  auto value = [&](auto& f, auto& copy) {
    auto* d = f.get_context()->data();
    RT_CHECK((d != nullptr) == f.get_context()->is_ready(), "data-wrong", "task %d: data %p", i, (void*)d);
    if (over && !x.lib) {
      RT_CHECK(d != nullptr, "result-lost", "task %d has returned and has no result", i);
      RT_CHECK(uid_of(*d) == 100 + i, "result-lost", "task %d has returned and its result reads %d", i, uid_of(*d));
    }
    for (auto& e : copy) RT_CHECK(e == f && e.get_id() == f.get_id() && e.get_status() == s, "handle-differs", "two handles of task %d differ", i);
  };
  if (x.kind == TV) {
    task(*tv[x.slot]);
    value(*tv[x.slot], tve[i]);
    Priv* pp = tv[x.slot]->get_private_data();
    RT_CHECK(pp && pp->node == i && pp->tag == x.tag, "private-data", "the private data of task %d reads %d/%d instead of %d/%d", i, pp ? pp->node : -1, pp ? pp->tag : -1, i, x.tag);
    pp->tag++;
    x.tag++;
  } else if (x.kind == TI) {
    task(*ti[x.slot]);
    value(*ti[x.slot], tie[i]);
  } else if (x.kind == TX) {
    task(*tx[x.slot]);
  }
}

void World::act(int self, const Op& o) {
  if (depth > 24 || ++actions > 400) return;
  const size_t hold = held.size();
  const int a = o.a % nn;
  switch (o.code) {
    case CREATE: {
      Node& x = n[a];
      if (!create(a, x.kind, -1)) break;
      rt::event(190, (uint64_t)a);
      ++depth;
      switch (x.kind) {
        case CV: { auto f = std::make_unique<CVf>(body<CVf>(this, a)); cv[a] = std::move(f); x.slot = a; break; }
        case CI: { auto f = std::make_unique<CIf>(body<CIf>(this, a)); ci[a] = std::move(f); x.slot = a; break; }
        case CX: { auto f = std::make_unique<CXf>(body<CXf>(this, a)); cx[a] = std::move(f); x.slot = a; break; }
        case TV: tv[a] = std::make_unique<TVf>(body<TVf>(this, a)); x.slot = a; x.id = tv[a]->get_id(); break;
        case TI: ti[a] = std::make_unique<TIf>(body<TIf>(this, a)); x.slot = a; x.id = ti[a]->get_id(); break;
        default: tx[a] = std::make_unique<TXf>(body<TXf>(this, a)); x.slot = a; x.id = tx[a]->get_id(); break;
      }
      --depth;
      if (!is_task(x.kind)) RT_CHECK(x.entered, "not-started", "coroutine %d was created and its body did not start", a);
      else RT_CHECK(!x.entered, "started-early", "the body of task %d ran before it was started", a);
      if (is_task(x.kind))
        for (int k = 0; k < N; ++k) RT_CHECK(k == a || !n[k].id || n[k].id != x.id, "task-id", "tasks %d and %d have the same id", a, k);
      if (is_task(x.kind) && (o.b & 1)) {
        Op s = {o.th, START, a, 0, 0};
        act(self, s);
      }
      break;
    }
    case START: {
      Node& x = n[a];
      if (!x.created || x.slot < 0 || !is_task(x.kind)) break;
      S s = status(a);
      bool r = false, was = x.entered;
      rt::event(191, (uint64_t)a, (uint64_t)s);
      ++depth;
      with(a, [&](auto& f) { if constexpr (requires { f.start(); }) r = f.start(); });
      --depth;
      RT_CHECK(r == (s == S::kCreated), "start-result", "starting task %d with status %d reported %d", a, (int)s, (int)r);
      if (r && !x.lib) RT_CHECK(!was && x.entered, "not-started", "task %d was started and its body did not run", a);
      break;
    }
    case OPEN: {
      Gate& gg = gate[o.a % NGATE];
      size_t cnt = gg.q.size();
      ++depth;
      while (cnt-- && !gg.q.empty()) {
        GateWait* x = gg.q.front();
        gg.q.erase(gg.q.begin());
        x->reg = false;
        x->opened = true;
        x->hd.resume();
      }
      --depth;
      break;
    }
    case SET: set_gen(o.a % G); break;
    case RESET: {
      int k = o.a % G;
      Gn& x = g[k];
      if (!x.created || !x.slot || x.waking || x.pins || x.in_drop || x.in_res || gen_waiters(k)) break;
      if (x.ready) reach(PR_RESET);
      if (x.kind == 0) gv[k]->get_context()->reset_value();
      else if (x.kind == 1) gi[k]->get_context()->reset_value();
      else gx[k]->get_context()->reset_value();
      x.ready = false;
      break;
    }
    case KILL: do_kill(self, a, o.b, (o.c & 1) != 0); break;
    case DROP: do_drop(self, a, o.b); break;
    case MOVE: {
      const int b = o.b % nn;
      Node &x = n[a], &y = n[b];
      if (!x.created || !y.created || x.slot < 0 || y.slot < 0 || x.kind != y.kind || x.pins || y.pins) break;
      if (is_task(x.kind)) {
        do_assign_task(self, a, b, o.c);
        break;
      }
      if (a == b) {
        rt::event(192, (uint64_t)a);
        with(a, [&](auto& f) { auto& g2 = f; f = std::move(g2); });
        break;
      }
      unsigned cl = closure(a);
      if (any_active(cl) || in_hook(a) || severed_waiter(a) || depth > 20) break;
      if (!x.finished) {
        x.reasons |= 1u << (int)S::kKilled;
        reach(PR_DROP_SUSP);
      }
      unsigned bs = mark_busy(cl | 1u << b);
      const int sa = x.slot, sb = y.slot;
      x.slot = -1;
      x.dropped = true;
      // while the assignment runs neither future may be used by name
      y.slot = -1;
      ++depth;
      rt::event(193, (uint64_t)a, (uint64_t)b);
      if (x.kind == CV) *cv[sa] = std::move(*cv[sb]);
      else if (x.kind == CI) *ci[sa] = std::move(*ci[sb]);
      else *cx[sa] = std::move(*cx[sb]);
      --depth;
      y.slot = sa;
      if (x.kind == CV) cv[sb].reset();
      else if (x.kind == CI) ci[sb].reset();
      else cx[sb].reset();
      unmark(bs);
      RT_CHECK(x.finished, "move-leak", "coroutine %d was replaced by assignment and did not end", a);
      break;
    }
    case COPY: {
      Node& x = n[a];
      if (!x.created || x.slot < 0 || !is_task(x.kind)) break;
      if (x.kind == TV && tve[a].size() < 3) tve[a].push_back(*tv[x.slot]);
      else if (x.kind == TI && tie[a].size() < 3) {
        TIf f;
        f = *ti[x.slot];
        tie[a].push_back(std::move(f));
      } else if (x.kind == TX && txe[a].size() < 3) {
        TXf f(*tx[x.slot]), g2;
        g2 = std::move(f);
        txe[a].push_back(g2);
      }
      break;
    }
    case GNEW: {
      int k = o.a % G;
      Gn& x = g[k];
      if (x.created) break;
      x.created = true;
      x.slot = true;
      auto sus = [this, k](auto ctx) {
        World* w = this;
        int kk = k;
        Gn& y = w->g[kk];
        y.n_susp++;
        rt::event(200, (uint64_t)kk);
        if (y.susp == 6) {  // keeps the context for later
          if (y.extra < 2) {
            w->gextra[kk].push_back(std::shared_ptr<void>(ctx));
            y.extra++;
          }
          return;
        }
        bool drop = y.susp == 3;
        if (drop) ctx.reset();
        ++y.in_susp;
        if (y.hooks_fired++ < 3 && w->depth < 16) w->gen_action(y.susp, y.arg, kk);
        --y.in_susp;
        RT_CHECK(k == kk, "hook-destroyed", "the waiting hook of generator %d was destroyed while it ran", kk);
      };
      auto res = [this, k](const auto&) {
        World* w = this;
        int kk = k;
        Gn& y = w->g[kk];
        y.n_res++;
        rt::event(201, (uint64_t)kk);
        if (y.res && y.hooks_fired++ < 3 && w->depth < 16) {
          ++y.in_res;
          w->gen_action(y.res, y.arg2, kk);
          --y.in_res;
        }
      };
      if (!x.susp && !x.res && (x.arg & 3) == 0) {  // hooks are optional
        x.nohook = true;
        if (x.kind == 0) gv[k] = x.arg & 4 ? std::make_unique<GVf>(nullptr) : std::make_unique<GVf>(GVf::await_suspend_callback_type(), nullptr);
        else if (x.kind == 1) gi[k] = std::make_unique<GIf>(nullptr, GIf::await_resume_callback_type());
        else gx[k] = std::make_unique<GXf>(GXf::await_suspend_callback_type());
      } else if (!x.res && (x.arg & 3) == 1) {
        x.nohook = true;  // not counted
        if (x.kind == 0) gv[k] = std::make_unique<GVf>(sus);
        else if (x.kind == 1) gi[k] = std::make_unique<GIf>(sus);
        else gx[k] = std::make_unique<GXf>(sus);
      } else if (x.kind == 0) gv[k] = std::make_unique<GVf>(sus, res);
      else if (x.kind == 1) gi[k] = std::make_unique<GIf>(sus, res);
      else gx[k] = std::make_unique<GXf>(sus, res);
      break;
    }
    case GDROP: drop_gen(o.a % G, (o.b & 1) != 0, o.b >> 1); break;
    case GCOPY: {
      int k = o.a % G;
      Gn& x = g[k];
      if (!x.created || !x.slot || x.extra >= 2 || x.in_drop) break;
      if (x.kind == 0) {
        GVf f(std::as_const(*gv[k]));
        gextra[k].push_back(f.get_context());
        GVf h2(std::move(f));
        *gv[k] = h2;
      } else if (x.kind == 1) {
        gextra[k].push_back(gi[k]->get_context());
      } else {
        gextra[k].push_back(gx[k]->get_context());
      }
      x.extra++;
      break;
    }
    case THEN: do_then(a, o.b % nn, o.c); break;
    case POLL: poll(a); break;
    default: break;
  }
  while (held.size() > hold) {
    n[held.back()].active = false;
    held.pop_back();
  }
  if (self == -2) sweep();
}

// nothing runs: whoever waits for something that is over was forgotten
void World::sweep() {
  uint64_t st = 0;
  for (int i = 0; i < N; ++i) {
    Node& x = n[i];
    if (!x.created) continue;
    if (x.temp >= 0 && x.active) {
      x.active = false;
      x.wk = W_NODE;
      x.wi = x.temp;
    }
    RT_CHECK(!(x.active && x.wk == W_NODE && x.at_once), "suspended-on-ended", "coroutine %d awaits coroutine %d, which had been ended, and does not go on", i, x.wi);
    RT_CHECK(!x.active, "harness", "coroutine %d is marked active while nothing runs", i);
    if (x.lib && x.then_child >= 0 && is_task(n[x.then_child].kind)) RT_CHECK(n[x.then_child].entered, "not-started", "continuation %d returned task %d and it was never started", i, x.then_child);
    refresh(i);
    S s = S::kInvalid;
    if (x.slot >= 0) {
      s = status(i);
      check_status(i, s);
    }
    st = st * 31 + (uint64_t)s + (uint64_t)x.wk * 7 + (uint64_t)x.finished * 3;
    if (x.finished || x.wk == W_NONE) continue;
    bool ended = x.slot >= 0 ? s >= S::kDone : allowed(i) != 0;
    if (ended) continue;
    switch (x.wk) {
      case W_NODE:
        refresh(x.wi);
        RT_CHECK(!n[x.wi].finished, "lost-wake", "coroutine %d still waits for coroutine %d, which is over", i, x.wi);
        break;
      case W_GEN: RT_CHECK(!gen_over(x.wi), "lost-wake", "coroutine %d still waits for generator %d, which is over", i, x.wi); break;
      case W_SOME: {
        int c = 0;
        for (int k = 0; k < (x.wcat >= 4 ? (int)G : (int)N); ++k) c += (x.wmask >> k & 1) && member_finished(x.wcat, k);
        RT_CHECK(c < x.wneed, "lost-wake", "coroutine %d still waits for %d of a group although %d are over", i, x.wneed, c);
        break;
      }
      default: break;
    }
  }
  for (int k = 0; k < G; ++k) {
    Gn& x = g[k];
    if (!x.created) continue;
    int lo = 0, hi = 0;
    for (int i = 0; i < N; ++i) {
      if (n[i].wk == W_GEN && n[i].wi == k) ++lo, ++hi;
      if (n[i].wk == W_SOME && n[i].wcat >= 4 && (n[i].wmask >> k & 1)) ++hi;
    }
    int d = x.n_susp - x.n_res;
    RT_CHECK((d >= lo && d <= hi) || x.nohook, "hooks-unbalanced", "generator %d: the waiting hook ran %d times, the resuming hook %d times, %d to %d coroutines wait", k, x.n_susp, x.n_res, lo, hi);
    st = st * 31 + (uint64_t)x.ready + 2 * (uint64_t)x.dead + 4 * (uint64_t)hi;
    if (x.slot && !x.dead) {
      bool rdy = x.kind == 0 ? gv[k]->is_ready() : x.kind == 1 ? gi[k]->is_ready() : gx[k]->is_ready();
      RT_CHECK(rdy == x.ready, "gen-ready", "generator %d reports ready %d", k, (int)rdy);
      bool many = x.kind == 0 ? gv[k]->get_context()->has_multiple_callers() : x.kind == 1 ? gi[k]->get_context()->has_multiple_callers() : gx[k]->get_context()->has_multiple_callers();
      RT_CHECK(many ? hi > 1 : lo < 2, "multiple-callers", "generator %d: %d to %d coroutines wait for it and it says %s", k, lo, hi, many ? "several" : "at most one");
      if (many) reach(PR_MANY);
      if (rdy && x.kind < 2) {
        int u = x.kind == 0 ? uid_of(*gv[k]->get_context()->data()) : *gi[k]->get_context()->data();
        RT_CHECK(u == x.cur, "gen-value-lost", "generator %d was set to %d and now holds %d", k, x.cur, u);
      }
    }
  }
  rt::state_mark(st);
}

void World::finish() {
  ending = true;
  actions = 0;
  // everything anybody may wait for happens
  for (int round = 0; round < 40; ++round) {
    bool any = false;
    for (int k = 0; k < NGATE; ++k)
      if (!gate[k].q.empty()) {
        any = true;
        Op o = {0, OPEN, k, 0, 0};
        actions = 0;
        act(-2, o);
      }
    if (!any) break;
  }
}
}  // namespace

void run(const Program& p) {
  { copp::util::uint64_id_allocator a; (void)a.allocate(); }  // the thread keeps its block of ids until it ends
  const uint64_t mark = rt::alloc_mark();
  g_vals = 0;
  {
    World w;
    g_w = &w;
    w.nn = p.cfg[0];
    for (int i = 0; i < M; ++i) w.n[i].kind = p.cfg[1] >> (4 * i) & 7;
    for (int k = 0; k < G; ++k) {
      int c = p.cfg[2 + k];
      w.g[k].kind = (c & 3) % 3;
      w.g[k].susp = c >> 2 & 7;
      w.g[k].res = c >> 5 & 7;
      w.g[k].arg = c >> 8 & 63;
      w.g[k].arg2 = c >> 14 & 63;
    }
    for (auto& o : p.ops) {
      if (o.th >= 1 && o.th <= N && w.n[o.th - 1].script.size() < 12) w.n[o.th - 1].script.push_back(o);
      if (o.th >= 101 && o.th <= 100 + N && w.n[o.th - 101].cb.size() < 3) w.n[o.th - 101].cb.push_back(o);
    }
    for (auto& o : p.ops)
      if (o.th == 0 && o.code < NACT) {
        w.actions = 0;
        w.act(-2, o);
      }
    if (!(p.cfg[10] & 1)) w.finish();
    if (p.cfg[10] & 2)
      for (int k = 0; k < G; ++k) {
        Op o = {0, SET, k, 0, 0};
        w.actions = 0;
        w.act(-2, o);
      }
    // everything is let go, in a seeded order
    rt::Rng r((uint64_t)p.cfg[11] * 977 + 5);
    w.ending = true;
    for (int round = 0; round < 60; ++round) {
      std::vector<int> left;
      for (int i = 0; i < N; ++i)
        if (w.n[i].slot >= 0) left.push_back(i);
      for (int k = 0; k < G; ++k)
        if (w.g[k].created && (w.g[k].slot || w.g[k].extra)) left.push_back(100 + k);
      if (left.empty()) break;
      size_t at = r.below((uint32_t)left.size());
      for (size_t t = 0; t < left.size(); ++t) {
        int x = left[(at + t) % left.size()];
        w.actions = 0;
        if (x < 100) {
          w.do_drop(-1, x, 0);
          if (w.n[x].slot < 0) break;
        } else {
          int before = w.g[x - 100].slot + w.g[x - 100].extra;
          w.drop_gen(x - 100, true, 0);
          w.drop_gen(x - 100, false, 0);
          if (w.g[x - 100].slot + w.g[x - 100].extra < before) break;
        }
      }
      while (w.held.size()) {
        w.n[w.held.back()].active = false;
        w.held.pop_back();
      }
      w.sweep();
    }
    for (int i = 0; i < N; ++i) {
      Node& x = w.n[i];
      RT_CHECK(x.slot < 0, "harness", "coroutine %d could not be dropped", i);
      if (!x.created) continue;
      RT_CHECK(x.finished || !x.entered, "never-ended", "every handle is gone and coroutine %d never ran to its end", i);
      RT_CHECK(x.lib || x.dtors == (x.entered ? 1 : 0), "locals-leaked", "the locals of coroutine %d were destroyed %d times", i, x.dtors);
      RT_CHECK(x.tokens == 0, "frame-leaked", "every handle is gone and the frame of continuation %d is still there", i);
      RT_CHECK(x.lib == false || x.then_called == 1, "then-lost", "continuation %d was called %d times", i, x.then_called);
    }
    for (int k = 0; k < G; ++k) {
      Gn& x = w.g[k];
      if (x.created) RT_CHECK(x.dead && (x.n_susp == x.n_res || x.nohook), "hooks-unbalanced", "generator %d: the waiting hook ran %d times, the resuming hook %d times", k, x.n_susp, x.n_res);
    }
    for (int k = 0; k < NGATE; ++k) RT_CHECK(w.gate[k].q.empty(), "frame-leaked", "a dead coroutine waits at gate %d", k);
  }
  g_w = nullptr;
  RT_CHECK(g_vals == 0, "value-leak", "%d values left", g_vals);
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}

void gen(rt::Rng& r, Program& p, bool thorough, const Profile& pf) {
  p.cfg[0] = r.range(1, r.chance(1, 3) ? 8 : 5);
  int kt = 0;
  for (int k : pf.kinds) kt += k;
  for (int i = 0; i < 7; ++i) {
    int x = (int)r.below((uint32_t)kt), k = 0;
    while (x >= pf.kinds[k]) x -= pf.kinds[k++];
    p.cfg[1] |= k << (4 * i);
  }
  for (int k = 0; k < G; ++k) {
    int c = (int)r.below(3);
    if (r.chance((uint32_t)pf.hooks, 10)) c |= (int)r.below(8) << 2;
    if (r.chance((uint32_t)pf.hooks, 20)) {
      static const int ok[] = {2, 4, 5, 2, 7};
      c |= ok[r.below(5)] << 5;
    }
    c |= (int)r.below(64) << 8;
    c |= (int)r.below(64) << 14;
    p.cfg[2 + k] = c;
  }
  p.cfg[10] = (int)r.below(4);
  p.cfg[11] = (int)r.below(1000);
  const int gens = r.range(1, r.chance(1, 3) ? 6 : 2), gates = r.range(1, NGATE), nn = p.cfg[0];
  int wt[NOPS];
  for (int i = 0; i < NOPS; ++i) wt[i] = pf.w[i] && !r.chance(1, 6) ? pf.w[i] + (int)r.below((uint32_t)pf.w[i] + 1) : 0;
  auto pick = [&](int lo, int hi) {
    int tot = 0;
    for (int i = lo; i < hi; ++i) tot += wt[i];
    if (!tot) return (int)(lo ? STATUS : POLL);
    int x = (int)r.below((uint32_t)tot), c = lo;
    while (x >= wt[c]) x -= wt[c++];
    return c;
  };
  auto fill = [&](Op& o) {
    o.a = (int)r.below((uint32_t)nn);
    o.b = (int)r.below(8);
    o.c = (int)r.below(256);
    switch (o.code) {
      case OPEN: case GATE: o.a = (int)r.below((uint32_t)gates); break;
      case SET: case RESET: case GDROP: case GCOPY: case AWAIT_GEN: o.a = (int)r.below((uint32_t)gens); break;
      case SOME: o.a = (int)r.below(16) | (r.chance(1, 4) ? 16 : 0); if (r.chance(1, 2)) o.c = 255; break;
      case KILL: o.b = (int)r.below(16); if (!r.chance(1, 4)) o.c = 0; break;
      case STATUS: o.a = (int)r.below(8); break;
      default: break;
    }
  };
  if (wt[AWAIT_GEN] || wt[SOME])
    for (int k = 0; k < gens; ++k) {
      Op o = {0, GNEW, k, 0, 0};
      p.ops.push_back(o);
    }
  const bool all = r.chance(1, 2);
  if (all)
    for (int i = 0; i < nn; ++i) {
      Op o = {0, CREATE, r.chance(1, 2) ? i : nn - 1 - i, r.chance(3, 4) ? 1 : 0, 0};
      p.ops.push_back(o);
    }
  int nb = r.range(1, thorough ? 34 : 24), nt = r.range(2, thorough ? 26 : 18), nc = wt[THEN] ? r.range(0, 3) : 0;
  for (int i = 0; i < nb; ++i) {
    Op o;
    o.th = 1 + (int)r.below((uint32_t)nn);
    if (wt[THEN] && r.chance(1, 8)) o.th += M;
    o.code = r.chance(7, 10) ? pick(NACT, NOPS) : pick(0, NACT);
    fill(o);
    p.ops.push_back(o);
  }
  for (int i = 0; i < nc; ++i) {
    Op o;
    o.th = 101 + (int)r.below((uint32_t)nn);
    o.code = pick(0, NACT);
    fill(o);
    p.ops.push_back(o);
  }
  for (int i = 0; i < nt; ++i) {
    Op o;
    o.th = 0;
    o.code = pick(0, NACT);
    fill(o);
    p.ops.push_back(o);
  }
}
}  // namespace c20
