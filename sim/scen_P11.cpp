// P11: spin lock and lock guards.
#include "harness.h"

#include <libcopp/utils/atomic_int_type.h>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>

#include <memory>

using namespace copp::util::lock;
namespace lkd = copp::util::lock::detail;

namespace h {
const char* const kProperty = "P11";
}
using namespace h;

namespace {
enum { LOCK, TRY, HOLDER, TRY_HOLDER, HOLDER_MOVE, HOLDER_ASSIGN, HOLDER_RESET, TRY_UNLOCK, IS_LOCKED, HOLDER_ASSIGN_EMPTY, HOLDER_CHAIN, NOPS };
const char* const kOps[] = {"lock", "try_lock", "holder", "try_holder", "holder_move", "holder_assign", "holder_reset", "try_unlock", "is_locked", "holder_assign_empty", "holder_chain", nullptr};
enum { PR_CONTENDED, PR_TRY_FAIL, PR_MOVE, PR_ASSIGN };
const char* const kProbes[] = {"lock contended", "try_lock refused", "guard moved", "guard assigned over a held one", nullptr};

enum { kLocks = 3 };
struct Ctx {
  spin_lock lk[kLocks];
  int owner[kLocks];      // harness view
  int engaged[kLocks];    // threads between lock-call and unlock-return
  uint64_t begun[kLocks];
  uint64_t data[kLocks][2];
  uint64_t expect[kLocks];
};

void begin(Ctx& x, int k) { quiet([&] { if (x.engaged[k]) reach(PR_CONTENDED); x.engaged[k]++; x.begun[k]++; }); }
void end(Ctx& x, int k) { quiet([&] { x.engaged[k]--; }); }
void got(Ctx& x, int k) {
  quiet([&] {
    RT_CHECK(x.owner[k] == -1, "exclusion", "thread %d acquired lock %d while thread %d holds it", rt::self(), k, x.owner[k]);
    x.owner[k] = rt::self();
    rt::event(1, (uint64_t)k);
  });
}
void giving(Ctx& x, int k) {
  quiet([&] {
    RT_CHECK(x.owner[k] == rt::self(), "harness-model", "owner model");
    x.owner[k] = -1;
    rt::event(2, (uint64_t)k);
  });
}
// the protected data: every access is checked for exclusion and for visibility of the previous holder's writes
void section(Ctx& x, int k, int n) {
  for (int i = 0; i < n; ++i) {
    rt::user_read(&x.data[k][0], 8, "protected data");
    uint64_t v = x.data[k][0];
    uint64_t w = x.data[k][1];
    if (i & 1) rt::yield_now();
    rt::user_write(&x.data[k][0], 16, "protected data");
    x.data[k][0] = v + 1;
    x.data[k][1] = w + 3;
    quiet([&] {
      RT_CHECK(w == v * 3, "torn-section", "half-finished critical section seen");
      RT_CHECK(v == x.expect[k], "lost-update", "lock %d: counter %llu, expected %llu", k, (unsigned long long)v, (unsigned long long)x.expect[k]);
      x.expect[k]++;
      RT_CHECK(x.owner[k] == rt::self(), "exclusion", "lost the lock inside the section");
    });
    RT_CHECK(x.lk[k].is_locked(), "unlocked-early", "lock %d is free while thread %d is inside its section", k, rt::self());
  }
}

typedef lock_holder<spin_lock> holder;
typedef lock_holder<spin_lock, lkd::default_try_lock_action<spin_lock> > try_holder;
typedef lock_holder<spin_lock, lkd::default_try_lock_action<spin_lock>, lkd::default_try_unlock_action<spin_lock> > try_holder2;

void refused(Ctx& x, int k, uint64_t before, int eng) {
  quiet([&] {
    reach(PR_TRY_FAIL);
    RT_CHECK(eng > 0 || x.begun[k] != before, "try-lock-refused-free", "try_lock failed although lock %d was free during the whole call", k);
  });
}

void step(Ctx& x, const Op& o) {
  int k = o.a % kLocks, j = o.b % kLocks, n = 1 + o.c % 3;
  switch (o.code) {
    case LOCK:
      begin(x, k);
      x.lk[k].lock();
      got(x, k);
      section(x, k, n);
      giving(x, k);
      x.lk[k].unlock();
      end(x, k);
      break;
    case TRY: {
      uint64_t b = 0;
      int e = 0;
      quiet([&] { b = x.begun[k]; e = x.engaged[k]; });
      begin(x, k);
      quiet([&] { b++; });
      if (x.lk[k].try_lock()) {
        got(x, k);
        section(x, k, n);
        giving(x, k);
        x.lk[k].unlock();
      } else {
        refused(x, k, b, e);
      }
      end(x, k);
      break;
    }
    case HOLDER:
      begin(x, k);
      {
        holder g(x.lk[k]);
        RT_CHECK(g.is_available(), "guard-state", "guard without its lock");
        got(x, k);
        section(x, k, n);
        giving(x, k);
      }
      end(x, k);
      break;
    case TRY_HOLDER: {
      uint64_t b = 0;
      int e = 0;
      quiet([&] { b = x.begun[k] + 1; e = x.engaged[k]; });
      begin(x, k);
      if (o.b & 1) {
        try_holder2 g(x.lk[k]);
        if (g.is_available()) {
          got(x, k);
          section(x, k, n);
          giving(x, k);
        } else {
          refused(x, k, b, e);
        }
      } else {
        try_holder g(x.lk[k]);
        if (g.is_available()) {
          got(x, k);
          section(x, k, n);
          giving(x, k);
        } else {
          refused(x, k, b, e);
          g.reset();
        }
      }
      end(x, k);
      break;
    }
    case HOLDER_MOVE:
      reach(PR_MOVE);
      begin(x, k);
      {
        holder g(x.lk[k]);
        got(x, k);
        {
          holder g2(std::move(g));
          RT_CHECK(!g.is_available() && g2.is_available(), "guard-state", "ownership did not move");
          section(x, k, n);
          giving(x, k);
        }
        end(x, k);
        RT_CHECK(!g.is_available(), "guard-state", "moved-from guard owns a lock");
      }
      break;
    case HOLDER_ASSIGN: {
      if (j == k) j = (k + 1) % kLocks;
      if (j < k) std::swap(j, k);
      reach(PR_ASSIGN);
      begin(x, k);
      {
        holder g1(x.lk[k]);
        got(x, k);
        begin(x, j);
        {
          holder g2(x.lk[j]);
          got(x, j);
          section(x, j, 1);
          section(x, k, 1);
          if (o.c & 1) {
            giving(x, k);
            g1 = std::move(g2);  // gives up k, keeps j
            end(x, k);
          } else {
            // transfer k to g2: j is given up
            giving(x, j);
            g2 = std::move(g1);
            end(x, j);
            section(x, k, n);
            RT_CHECK(!g1.is_available(), "guard-state", "assigned-from guard still owns its lock");
            giving(x, k);
          }
        }
        if (o.c & 1) {
          section(x, j, n);
          giving(x, j);
        } else {
          end(x, k);
        }
      }
      if (o.c & 1) end(x, j);
      break;
    }
    case HOLDER_ASSIGN_EMPTY:
      begin(x, k);
      {
        holder g1(x.lk[k]);
        got(x, k);
        giving(x, k);
        g1.reset();
        end(x, k);
        RT_CHECK(!g1.is_available(), "guard-state", "reset guard owns a lock");
        begin(x, j);
        holder g2(x.lk[j]);
        got(x, j);
        g1 = std::move(g2);
        RT_CHECK(g1.is_available() && !g2.is_available(), "guard-state", "ownership did not move");
        g2.reset();
        section(x, j, n);
        giving(x, j);
      }
      end(x, j);
      break;
    case HOLDER_CHAIN:
      begin(x, k);
      {
        holder g1(x.lk[k]);
        got(x, k);
        holder g2(std::move(g1));
        holder g3(std::move(g2));
        section(x, k, 1);
        g1 = std::move(g3);
        section(x, k, n);
        RT_CHECK(g1.is_available() && !g2.is_available() && !g3.is_available(), "guard-state", "exactly one guard must own the lock");
        giving(x, k);
        g1.reset();
        end(x, k);
        RT_CHECK(!g1.is_available(), "guard-state", "reset guard owns a lock");
      }
      break;
    case HOLDER_RESET:
      begin(x, k);
      {
        holder g(x.lk[k]);
        got(x, k);
        section(x, k, n);
        giving(x, k);
        g.reset();
        end(x, k);
        RT_CHECK(!g.is_available(), "guard-state", "reset guard owns a lock");
        g.reset();
        rt::yield_now();
      }
      break;
    case TRY_UNLOCK:
      begin(x, k);
      x.lk[k].lock();
      got(x, k);
      section(x, k, n);
      giving(x, k);
      RT_CHECK(x.lk[k].try_unlock(), "try-unlock", "try_unlock reported a free lock while it was held");
      end(x, k);
      break;
    case IS_LOCKED: {
      uint64_t b = 0;
      int e = 0;
      quiet([&] { b = x.begun[k]; e = x.engaged[k]; });
      bool l = x.lk[k].is_locked();
      quiet([&] {
        RT_CHECK(!(l && e == 0 && x.begun[k] == b), "is-locked", "lock %d reported as held although nobody used it", k);
      });
      break;
    }
  }
}

void gen(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[0] = r.range(2, thorough ? 5 : 4);
  p.cfg[1] = r.range(1, kLocks);
  int n = r.range(2, thorough ? 24 : 14);
  int bias = (int)r.below(3);
  for (int i = 0; i < n; ++i) {
    Op o;
    o.th = (int)r.below((uint32_t)p.cfg[0]);
    o.code = bias == 0 ? (int)r.below(2) : (int)r.below(NOPS);
    o.a = (int)r.below((uint32_t)p.cfg[1]);
    o.b = (int)r.below((uint32_t)p.cfg[1]);
    o.c = (int)r.below(6);
    p.ops.push_back(o);
  }
}

void run(const Program& p) {
  Ctx x;
  for (int i = 0; i < kLocks; ++i) {
    x.owner[i] = -1;
    x.engaged[i] = 0;
    x.begun[i] = 0;
    x.data[i][0] = x.data[i][1] = 0;
    x.expect[i] = 0;
  }
  std::vector<std::function<void()>> th;
  for (int t = 0; t < p.cfg[0]; ++t)
    th.push_back([&, t] {
      for (auto& o : p.ops)
        if (o.th == t) step(x, o);
    });
  run_threads(th);
  for (int i = 0; i < kLocks; ++i) {
    RT_CHECK(x.lk[i].try_lock(), "lock-leaked", "lock %d is still held after every holder released it", i);
    RT_CHECK(!x.lk[i].try_lock(), "exclusion", "try_lock succeeded twice");
    RT_CHECK(x.lk[i].try_unlock(), "try-unlock", "try_unlock of a held lock failed");
    RT_CHECK(!x.lk[i].try_unlock(), "try-unlock", "try_unlock of a free lock succeeded");
    RT_CHECK(x.data[i][0] == x.expect[i], "lost-update", "final counter");
  }
}

// ---- guards over locks of the user's own that may be held several times: exactly one release per acquisition
enum { G_READ, G_TRY, G_RECURSE, G_WRITE, G_MOVE, G_ASSIGN, G_RESET, G_DROP, G_WRITE_TRY, G_NOPS };
const char* const kGOps[] = {"read_guard", "try_guard", "recursive_guard", "write_section", "guard_move", "guard_assign", "guard_reset", "guard_drop", "try_write", nullptr};
enum { GP_SAME, GP_SELF, GP_REFUSED, GP_SHARED, GP_WRITER_WAITED };
const char* const kGProbes[] = {"guard assigned over a guard of the same lock", "guard assigned to itself", "guard refused", "lock held by several guards", "writer waited for readers", nullptr};
enum { kSlots = 4, kThr = 6 };

struct SharedLock {
  int readers = 0, writer = -1, id = 0;
  int mine[kThr] = {0, 0, 0, 0, 0, 0};
  int me() const { return rt::self() - 1; }
  bool take_read() {
    return quiet([&] {
      if (writer >= 0) return false;
      if (readers++) reach(GP_SHARED);
      mine[me()]++;
      rt::event(11, (uint64_t)id);
      return true;
    });
  }
  void read_lock() {
    while (!take_read()) rt::yield_now();
  }
  void read_unlock() {
    quiet([&] {
      RT_CHECK(mine[me()] > 0, "guard-released-unowned", "a guard of thread %d released lock %d, which it does not hold", me(), id);
      mine[me()]--;
      readers--;
      rt::event(12, (uint64_t)id);
    });
  }
  bool take_write() {
    return quiet([&] {
      if (writer >= 0 || readers) return false;
      writer = me();
      rt::event(13, (uint64_t)id);
      return true;
    });
  }
  void write_lock() {
    bool w = false;
    while (!take_write()) {
      w = true;
      rt::yield_now();
    }
    if (w) quiet([&] { reach(GP_WRITER_WAITED); });
  }
  void write_unlock() {
    quiet([&] {
      RT_CHECK(writer == me(), "guard-released-unowned", "thread %d released the write side of lock %d, which it does not hold", me(), id);
      writer = -1;
      rt::event(14, (uint64_t)id);
    });
  }
  void lock() { write_lock(); }
  void unlock() { write_unlock(); }
  bool try_lock() { return take_write(); }
  bool try_unlock() {
    write_unlock();
    return true;
  }
};
struct RecLock {  // one owner, any number of times
  int owner = -1, count = 0, id = 0;
  int mine[kThr] = {0, 0, 0, 0, 0, 0};
  int me() const { return rt::self() - 1; }
  bool try_lock() {
    return quiet([&] {
      if (owner >= 0 && owner != me()) return false;
      owner = me();
      if (count++) reach(GP_SHARED);
      mine[me()]++;
      return true;
    });
  }
  void lock() {
    while (!try_lock()) rt::yield_now();
  }
  void unlock() {
    quiet([&] {
      RT_CHECK(owner == me() && count > 0, "guard-released-unowned", "a guard of thread %d released recursive lock %d, which it does not hold", me(), id);
      mine[me()]--;
      if (--count == 0) owner = -1;
    });
  }
  bool try_unlock() {
    unlock();
    return true;
  }
};
struct TryRead {
  bool operator()(SharedLock& l) const noexcept { return l.take_read(); }
};
typedef read_lock_holder<SharedLock> RG;
typedef lock_holder<SharedLock, TryRead, lkd::default_read_unlock_action<SharedLock> > TG;
typedef lock_holder<RecLock, lkd::default_try_lock_action<RecLock>, lkd::default_try_unlock_action<RecLock> > CG;
typedef write_lock_holder<SharedLock> WG;
typedef lock_holder<SharedLock, lkd::default_try_lock_action<SharedLock>, lkd::default_try_unlock_action<SharedLock> > WTG;
struct GCtx {
  SharedLock s[kLocks];
  RecLock c[kLocks];
};
template <class Gd, class L>
struct Bank {
  std::unique_ptr<Gd> g[kSlots];
  int held[kSlots] = {-1, -1, -1, -1};  // model
  L* lk;
  explicit Bank(L* l) : lk(l) {}
  void add(int (&n)[kLocks]) {
    for (int i = 0; i < kSlots; ++i)
      if (held[i] >= 0) n[held[i]]++;
  }
  void acquire(int i, int k) {
    if (g[i]) return;
    Gd* p = new Gd(lk[k]);
    g[i].reset(p);
    held[i] = p->is_available() ? k : -1;
    if (held[i] < 0) reach(GP_REFUSED);
  }
  void move(int i, int j) {
    if (!g[i] || g[j]) return;
    g[j].reset(new Gd(std::move(*g[i])));
    held[j] = held[i];
    held[i] = -1;
  }
  void assign(int i, int j) {  // j = move(i)
    if (!g[i] || !g[j]) return;
    if (i == j) reach(GP_SELF);
    else if (held[i] >= 0 && held[i] == held[j]) reach(GP_SAME);
    Gd &a = *g[i], &b = *g[j];
    b = std::move(a);
    if (i != j) {
      held[j] = held[i];
      held[i] = -1;
    }
  }
  void reset(int i) {
    if (!g[i]) return;
    g[i]->reset();
    held[i] = -1;
  }
  void drop(int i) {
    g[i].reset();
    held[i] = -1;
  }
  void check(int self) {
    for (int i = 0; i < kSlots; ++i)
      if (g[i]) RT_CHECK(g[i]->is_available() == (held[i] >= 0), "guard-state", "a guard of thread %d says it %s a lock", self, held[i] >= 0 ? "does not hold" : "holds");
    int n[kLocks] = {0, 0, 0};
    add(n);
  }
};
struct GThread {
  GCtx& x;
  int self;
  Bank<RG, SharedLock> r;
  Bank<TG, SharedLock> t;
  Bank<CG, RecLock> c;
  GThread(GCtx& xx, int s) : x(xx), self(s), r(xx.s), t(xx.s), c(xx.c) {}
  void check() {
    quiet([&] {
      int n[kLocks] = {0, 0, 0}, m[kLocks] = {0, 0, 0};
      r.check(self);
      t.check(self);
      c.check(self);
      r.add(n);
      t.add(n);
      c.add(m);
      for (int k = 0; k < kLocks; ++k) {
        RT_CHECK(x.s[k].mine[self] == n[k], "guard-count", "thread %d has %d guards on shared lock %d and holds it %d times", self, n[k], k, x.s[k].mine[self]);
        RT_CHECK(x.c[k].mine[self] == m[k], "guard-count", "thread %d has %d guards on recursive lock %d and holds it %d times", self, m[k], k, x.c[k].mine[self]);
      }
    });
  }
  bool holds_any() {
    int n[kLocks] = {0, 0, 0};
    r.add(n);
    t.add(n);
    return n[0] + n[1] + n[2] > 0;
  }
  void inside(SharedLock& l) {
    quiet([&] { RT_CHECK(l.writer == self && !l.readers, "exclusion", "thread %d is inside the write section of a lock with writer %d and %d readers", self, l.writer, l.readers); });
    rt::yield_now();
  }
  template <class W>
  void write(SharedLock& l, SharedLock& other, int c2) {
    W g(l);
    if (!g.is_available()) {
      quiet([&] { reach(GP_REFUSED); });
      return;
    }
    inside(l);
    if (c2 & 1) {
      W h(std::move(g));
      RT_CHECK(!g.is_available() && h.is_available(), "guard-state", "ownership did not move");
      inside(l);
      if (c2 & 2) {
        g = std::move(h);
        inside(l);
      }
    } else if (c2 & 2) {
      g.reset();
      quiet([&] { RT_CHECK(l.writer != self, "guard-state", "a guard that was reset keeps its lock"); });
      W h(other);
      if (h.is_available()) inside(other);
      g = std::move(h);
      if (g.is_available()) inside(other);
    }
  }
  void step(const Op& o) {
    int i = o.a & 3, j = o.b & 3, k = o.c % kLocks, w = (o.c >> 2) % 3;
    switch (o.code) {
      case G_READ: r.acquire(i, k); break;
      case G_TRY: t.acquire(i, k); break;
      case G_RECURSE: c.acquire(i, k); break;
      case G_WRITE:
        if (!holds_any()) write<WG>(x.s[k], x.s[(k + 1) % kLocks], o.a);
        break;
      case G_WRITE_TRY: write<WTG>(x.s[k], x.s[(k + 1) % kLocks], o.a); break;
      case G_MOVE: w == 0 ? r.move(i, j) : w == 1 ? t.move(i, j) : c.move(i, j); break;
      case G_ASSIGN: w == 0 ? r.assign(i, j) : w == 1 ? t.assign(i, j) : c.assign(i, j); break;
      case G_RESET: w == 0 ? r.reset(i) : w == 1 ? t.reset(i) : c.reset(i); break;
      case G_DROP: w == 0 ? r.drop(i) : w == 1 ? t.drop(i) : c.drop(i); break;
      default: break;
    }
    check();
    rt::yield_now();
  }
};
void gen_guards(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[0] = r.range(1, thorough ? 5 : 4);
  int locks = r.range(1, kLocks), n = r.range(3, thorough ? 40 : 24), slots = r.range(2, kSlots), kinds = r.chance(1, 2) ? (int)r.below(3) : -1;
  for (int i = 0; i < n; ++i) {
    Op o;
    o.th = (int)r.below((uint32_t)p.cfg[0]);
    o.code = (int)r.below(G_NOPS);
    if (o.code < G_WRITE && kinds >= 0) o.code = kinds;
    o.a = (int)r.below((uint32_t)slots);
    o.b = (int)r.below((uint32_t)slots);
    o.c = o.code >= G_MOVE && o.code <= G_DROP ? 4 * (kinds >= 0 ? kinds : (int)r.below(3)) : (int)r.below((uint32_t)locks);
    p.ops.push_back(o);
  }
}
void run_guards(const Program& p) {
  GCtx x;
  for (int k = 0; k < kLocks; ++k) x.s[k].id = x.c[k].id = k;
  std::vector<std::function<void()>> th;
  for (int t = 0; t < p.cfg[0]; ++t)
    th.push_back([&, t] {
      GThread g(x, t);
      for (auto& o : p.ops)
        if (o.th == t) g.step(o);
    });
  run_threads(th);
  for (int k = 0; k < kLocks; ++k) {
    RT_CHECK(x.s[k].readers == 0 && x.s[k].writer < 0, "lock-leaked", "every guard is gone and shared lock %d is held by %d readers and writer %d", k, x.s[k].readers, x.s[k].writer);
    RT_CHECK(x.c[k].count == 0, "lock-leaked", "every guard is gone and recursive lock %d is held %d times", k, x.c[k].count);
  }
}

// ---- the atomic integers the locks and counters are built from: every operation takes effect at once and reports
// the value it found, whatever the other threads do
enum { A_ADD, A_SUB, A_INC, A_DEC, A_OR, A_XOR, A_AND, A_XCHG, A_CAS, A_CASW, A_LOAD, A_TICKET, A_STORE, A_PUBLISH, A_LOOK, A_NOPS };
const char* const kAOps[] = {"fetch_add", "fetch_sub", "increment", "decrement", "fetch_or", "fetch_xor", "fetch_and", "exchange", "compare_exchange", "compare_exchange_weak", "load", "take a ticket", "store", "publish", "look", nullptr};
enum { AP_CAS_FAIL, AP_CAS_OK, AP_WEAK, AP_SAW };
const char* const kAProbes[] = {"compare-exchange lost", "compare-exchange won", "weak compare-exchange failed on an equal value", "published data read by another thread", nullptr};
// each thread owns 8 bits of the word for its bit operations, and the upper half is a shared sum
template <class I>
struct value_of {
  typedef I type;
};
template <class I>
struct value_of<unsafe_int_type<I> > {
  typedef I type;
};
template <class I, bool Vol>
struct AtomWorld {
  typedef typename std::conditional<Vol, volatile atomic_int_type<I>, atomic_int_type<I> >::type A;
  typedef typename value_of<I>::type T;
  A bits, sum, slot, up, down, own[4], flag[4];
  uint64_t cell[4][8];
  T mine[4], net, kept[4];
  uint64_t taken, ups, downs;
  int nput, nup, ndown;
  int shown[4];
  bool alone;
  AtomWorld() : bits(0), sum(0), slot(0), up(0), down(60), own{{(T)7}, {(T)7}, {(T)7}, {(T)7}}, flag{{(T)0}, {(T)0}, {(T)0}, {(T)0}}, net(0), taken(0), ups(0), downs(0), nput(0), nup(0), ndown(0), alone(false) {
    for (int i = 0; i < 4; ++i) mine[i] = 0, kept[i] = 7, shown[i] = 0;
  }
};
template <class I, bool Vol>
void atom_step(AtomWorld<I, Vol>& x, int t, const Op& o) {
  typedef typename value_of<I>::type T;
  const T my = (T)((T)0xff << (8 * t)), v = (T)((T)(o.b & 0xff) << (8 * t));
  auto seen = [&](T got, const char* what) {
    RT_CHECK((got & my) == (x.mine[t] & my), "atomic-old-value", "thread %d: %s reported %llx where it had left %llx", t, what, (unsigned long long)(got & my), (unsigned long long)(x.mine[t] & my));
  };
  switch (o.code) {
    case A_ADD: case A_SUB: case A_INC: case A_DEC: {
      T before, by = o.code == A_ADD ? (T)o.b : o.code == A_SUB ? (T)(0 - o.b) : o.code == A_INC ? (T)1 : (T)-1;
      if (o.code == A_ADD) before = o.a & 1 ? x.sum.fetch_add((T)o.b) : x.sum.fetch_add((T)o.b, memory_order_relaxed);
      else if (o.code == A_SUB) before = o.a & 1 ? x.sum.fetch_sub((T)o.b) : x.sum.fetch_sub((T)o.b, memory_order_relaxed);
      else if (o.code == A_INC) before = o.a & 1 ? (T)(++x.sum - 1) : x.sum++;
      else before = o.a & 1 ? (T)(--x.sum + 1) : x.sum--;
      quiet([&] {
        if (x.alone) RT_CHECK(before == x.net, "atomic-old-value", "an addition reported %llu instead of %llu", (unsigned long long)before, (unsigned long long)x.net);
        x.net = (T)(x.net + by);
      });
      break;
    }
    case A_TICKET: {
      // counters that only go one way hand out every number once
      bool go = false;
      T got;
      if (o.b & 1) {
        quiet([&] { go = x.nup < 60; x.nup += go; });
        if (!go) break;
        switch (o.a & 3) {
          case 0: got = x.up++; break;
          case 1: got = (T)(++x.up - 1); break;
          case 2: got = x.up.fetch_add(1); break;
          default: got = x.up.fetch_add((T)1, memory_order_acq_rel); break;
        }
        quiet([&] {
          RT_CHECK(got < 60 && !(x.ups >> got & 1), "atomic-ticket", "number %llu was handed out twice or never existed", (unsigned long long)got);
          x.ups |= (uint64_t)1 << got;
        });
      } else {
        quiet([&] { go = x.ndown < 60; x.ndown += go; });
        if (!go) break;
        switch (o.a & 3) {
          case 0: got = x.down--; break;
          case 1: got = (T)(--x.down + 1); break;
          case 2: got = x.down.fetch_sub(1); break;
          default: got = x.down.fetch_sub((T)1, memory_order_acq_rel); break;
        }
        quiet([&] {
          RT_CHECK(got >= 1 && got <= 60 && !(x.downs >> got & 1), "atomic-ticket", "number %llu was handed out twice or never existed", (unsigned long long)got);
          x.downs |= (uint64_t)1 << got;
        });
      }
      break;
    }
    case A_PUBLISH: {
      // data written before a release is visible to whoever acquires the word afterwards
      const int i = x.shown[t];
      if (i >= 8) break;
      rt::user_write(&x.cell[t][i], 8, "published data");
      x.cell[t][i] = (uint64_t)(100 * t + i);
      x.shown[t] = i + 1;
      T e = (T)i;
      switch (o.a * 2 + (o.b & 1)) {
        case 0: x.flag[t].store((T)(i + 1), memory_order_release); break;
        case 1: x.flag[t].store((T)(i + 1)); break;
        case 2: x.flag[t].exchange((T)(i + 1), memory_order_acq_rel); break;
        case 3: x.flag[t].exchange((T)(i + 1)); break;
        case 4: x.flag[t].fetch_add((T)1, memory_order_release); break;
        case 5: o.b & 2 ? (void)++x.flag[t] : (void)x.flag[t].fetch_add((T)1); break;
        case 6: RT_CHECK(o.b & 2 ? x.flag[t].compare_exchange_strong(e, (T)(i + 1), memory_order_release, memory_order_relaxed) : x.flag[t].compare_exchange_strong(e, (T)(i + 1)), "atomic-cas-spurious", "a strong compare-exchange failed on an equal value"); break;
        default: if (o.b & 2) x.flag[t] = (T)(i + 1); else if (i & 1) x.flag[t].store((T)(i + 1), memory_order_release); else x.flag[t].fetch_or((T)1, memory_order_release); break;
      }
      break;
    }
    case A_LOOK: {
      const int u = o.b & 3;
      T n = 0;
      switch (o.a * 2 + (o.b >> 2 & 1)) {
        case 0: n = x.flag[u].load(memory_order_acquire); break;
        case 1: n = x.flag[u].load(); break;
        case 2: n = (T)x.flag[u]; break;
        case 3: n = x.flag[u].fetch_or((T)0, memory_order_acquire); break;
        case 4: n = x.flag[u].fetch_add((T)0); break;
        case 5: n = x.flag[u].fetch_and((T)-1, memory_order_acq_rel); break;
        case 6: n = 99; x.flag[u].compare_exchange_strong(n, (T)99, memory_order_acq_rel, memory_order_acquire); break;
        default: n = 99; x.flag[u].compare_exchange_weak(n, (T)99); break;
      }
      if (n > 8) break;
      int k = 0;
      quiet([&] { k = x.shown[u]; });
      if (n > (T)k) break;
      if (u != t && n) quiet([&] { reach(AP_SAW); });
      for (int i = 0; i + 1 < (int)n; ++i) {
        rt::user_read(&x.cell[u][i], 8, "published data");
        RT_CHECK(x.cell[u][i] == (uint64_t)(100 * u + i), "atomic-visibility", "published data is not there");
      }
      if (n && (o.b & 8)) {
        rt::user_read(&x.cell[u][n - 1], 8, "published data");
        RT_CHECK(x.cell[u][n - 1] == (uint64_t)(100 * u + (int)n - 1), "atomic-visibility", "published data is not there");
      }
      break;
    }
    case A_STORE: {
      // a word only this thread writes
      RT_CHECK(x.own[t].load(memory_order_acquire) == x.kept[t], "atomic-old-value", "a word holds %llu instead of %llu", (unsigned long long)x.own[t].load(), (unsigned long long)x.kept[t]);
      x.kept[t] = (T)o.b;
      if (o.a & 1) x.own[t].store((T)o.b, memory_order_release);
      else if (o.a & 2) RT_CHECK((x.own[t] = (T)o.b) == (T)o.b, "atomic-assign", "an assignment has another value than the one assigned");
      else x.own[t].store((T)o.b);
      break;
    }
    case A_OR: seen(x.bits.fetch_or(v), "fetch_or"); x.mine[t] = (T)(x.mine[t] | v); break;
    case A_XOR: seen(x.bits.fetch_xor(v), "fetch_xor"); x.mine[t] = (T)(x.mine[t] ^ v); break;
    case A_AND: seen(x.bits.fetch_and((T)(~my | v)), "fetch_and"); x.mine[t] = (T)(x.mine[t] & v); break;
    case A_LOAD: seen(o.a & 1 ? (T)x.bits : x.bits.load(), "load"); break;
    case A_XCHG: {
      // every value put into the slot is taken out exactly once, or is there at the end
      T put = 0;
      quiet([&] { if (x.nput < 60) put = (T)(++x.nput); });
      if (!put) break;
      T got = x.slot.exchange(put);
      quiet([&] {
        RT_CHECK(got <= (T)x.nput, "atomic-invented", "exchange returned %llu, which nobody stored", (unsigned long long)got);
        if (x.alone) RT_CHECK(got + 1 == put, "atomic-old-value", "exchange returned %llu instead of the last value", (unsigned long long)got);
        if (got) RT_CHECK(!(x.taken >> got & 1), "atomic-taken-twice", "value %llu was taken out twice", (unsigned long long)got);
        x.taken |= (uint64_t)1 << got;
      });
      break;
    }
    default: {
      T e = x.bits.load();
      for (int n = 0; n < 40; ++n) {
        seen(e, "a lost compare-exchange");
        const T want = (T)((e & ~my) | v), was = e;
        bool ok;
        if (o.code == A_CAS) ok = o.a & 1 ? x.bits.compare_exchange_strong(e, want) : x.bits.compare_exchange_strong(e, want, memory_order_acq_rel, memory_order_acquire);
        else ok = o.a & 1 ? x.bits.compare_exchange_weak(e, want) : x.bits.compare_exchange_weak(e, want, memory_order_acq_rel, memory_order_acquire);
        if (ok) {
          RT_CHECK(e == was, "atomic-cas-expected", "a compare-exchange that succeeded changed what was expected");
          x.mine[t] = (T)((x.mine[t] & ~my) | v);
          quiet([&] { reach(AP_CAS_OK); });
          break;
        }
        if (e == was) {
          RT_CHECK(o.code == A_CASW, "atomic-cas-spurious", "a strong compare-exchange failed on an equal value");
          quiet([&] { reach(AP_WEAK); });
        } else {
          quiet([&] { reach(AP_CAS_FAIL); });
        }
      }
      break;
    }
  }
}
template <class I, bool Vol>
void run_atoms_as(const Program& p) {
  typedef typename value_of<I>::type T;
  AtomWorld<I, Vol> x;
  const int n = !std::is_same<I, T>::value ? 1 : p.cfg[0] > (int)sizeof(T) ? (int)sizeof(T) : p.cfg[0];
  x.alone = n == 1;
  std::vector<std::function<void()>> th;
  for (int t = 0; t < n; ++t)
    th.push_back([&, t] {
      for (auto& o : p.ops)
        if (o.th == t) {
          atom_step(x, t, o);
          rt::event(21, (uint64_t)t, (uint64_t)o.code);
        }
    });
  run_threads(th);
  T all = 0;
  for (int t = 0; t < n; ++t) all = (T)(all | (x.mine[t] & (T)((T)0xff << (8 * t))));
  RT_CHECK(x.bits.load() == all, "atomic-lost-update", "the word is %llx instead of %llx", (unsigned long long)x.bits.load(), (unsigned long long)all);
  RT_CHECK(x.sum.load() == x.net, "atomic-lost-update", "the sum is %llu instead of %llu", (unsigned long long)x.sum.load(), (unsigned long long)x.net);
  for (int i = 0; i < x.nup; ++i) RT_CHECK(x.ups >> i & 1, "atomic-ticket", "number %d was never handed out", i);
  for (int i = 0; i < x.ndown; ++i) RT_CHECK(x.downs >> (60 - i) & 1, "atomic-ticket", "number %d was never handed out", 60 - i);
  for (int t = 0; t < n; ++t) RT_CHECK(x.own[t].load() == x.kept[t], "atomic-old-value", "a word holds %llu instead of %llu at the end", (unsigned long long)x.own[t].load(), (unsigned long long)x.kept[t]);
  const T last = x.slot.load();
  for (int i = 1; i <= x.nput; ++i) RT_CHECK((x.taken >> i & 1) != (last == (T)i), "atomic-lost-value", "value %d was %s", i, last == (T)i ? "taken out and is still there" : "lost");
}
void run_atoms(const Program& p) {
  switch (p.cfg[1] % 8) {
    case 6: run_atoms_as<unsafe_int_type<uint32_t>, false>(p); break;
    case 7: run_atoms_as<unsafe_int_type<uint64_t>, false>(p); break;
    case 0: run_atoms_as<uint32_t, false>(p); break;
    case 1: run_atoms_as<uint64_t, false>(p); break;
    case 2: run_atoms_as<uint16_t, false>(p); break;
    case 3: run_atoms_as<uint32_t, true>(p); break;
    case 4: run_atoms_as<uint64_t, true>(p); break;
    default: run_atoms_as<uint8_t, false>(p); break;
  }
}
void gen_atoms(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[1] = (int)r.below(8);
  p.cfg[0] = p.cfg[1] >= 6 || r.chance(1, 8) ? 1 : r.range(2, 4);
  int n = r.range(2, thorough ? 30 : 16), only = r.chance(1, 2) ? (int)r.below(A_NOPS) : -1;
  for (int i = 0; i < n; ++i) {
    Op o;
    o.th = (int)r.below((uint32_t)p.cfg[0]);
    o.code = only >= 0 && r.chance(2, 3) ? only : (int)r.below(A_NOPS);
    o.a = (int)r.below(4);
    o.b = (int)r.below(256);
    o.c = 0;
    p.ops.push_back(o);
  }
}
}  // namespace

namespace h {
const Scenario kScenarios[] = {
    {"spin_lock", 1, gen, run, 60000, true, kOps, kProbes, "spin_lock, lock_holder (real); threads, sched_yield, nanosleep (simulated)"},
    {"guards_of_shared_locks", 1, gen_guards, run_guards, 60000, false, kGOps, kGProbes, "lock_holder, read_lock_holder, write_lock_holder (real); the locks themselves, threads (simulated)"},
    {"atomic_integers", 1, gen_atoms, run_atoms, 60000, true, kAOps, kAProbes, "atomic_int_type (real); threads, spurious failures (simulated)"},
};
const int kNumScenarios = 3;
}  // namespace h
