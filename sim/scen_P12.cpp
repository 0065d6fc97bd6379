// P12: reference-counted handles destroy their object once, after all use.
#include "harness.h"

#include <libcopp/coroutine/coroutine_context_container.h>
#include <libcopp/coroutine/generator_promise.h>
#include <libcopp/utils/intrusive_ptr.h>
#include <libcopp/utils/lock_holder.h>
#include <libcopp/utils/spin_lock.h>
#include <libcotask/task.h>

#include <atomic>
#include <memory>
#include <sstream>

namespace h {
const char* const kProperty = "P12";
}
using namespace h;

namespace {
enum { COPY, MOVE, COPY_ASSIGN, MOVE_ASSIGN, SELF_ASSIGN, SWAP, RESET, RESET_RAW, DETACH, CONVERT, CONVERT_BACK, USE, POST, TAKE, UNIQUE, COUNT, RESET_RAW_ADOPT, COMPARE, LINK, WALK, CAST, NOPS };
const char* const kOps[] = {"copy", "move", "copy_assign", "move_assign", "self_assign", "swap", "reset", "reset_raw", "detach", "convert", "convert_assign", "use", "post", "take", "adopt_unique", "count", "adopt_raw", "compare", "create_linked", "walk", "cast", nullptr};
enum { PR_LAST_DROP, PR_TRANSFER, PR_OTHER_THREAD, PR_WALK_LAST, PR_CHAIN };
const char* const kProbes[] = {"object destroyed", "handle handed to another thread", "destroyed by a thread that did not create it", "a handle walked along a chain from an object nobody else held", "an object destroyed with the one that referred to it", nullptr};

enum { kMaxObj = 24 };
struct Obj {
  uint64_t payload;
  int handles;   // model: live handles
  int inst;      // functor copies alive
  bool created, destroyed;
};
struct Model {
  Obj o[kMaxObj];
  int n = 0;
  int last_drop_thread[kMaxObj];
};
Model* g_m;

void on_destroy(int id) {
  rt::user_write(&g_m->o[id].payload, 8, "managed object");
  g_m->o[id].payload = 0xdead;
  quiet([&] {
    Obj& x = g_m->o[id];
    RT_CHECK(!x.destroyed, "destroyed-twice", "object %d destroyed twice", id);
    RT_CHECK(x.handles == 0, "destroyed-early", "object %d destroyed while %d handles refer to it", id, x.handles);
    x.destroyed = true;
    reach(PR_LAST_DROP);
    if (rt::self() != 0) reach(PR_OTHER_THREAD);
    rt::event(9, (uint64_t)id);
  });
}
void use_payload(int id) {
  rt::user_read(&g_m->o[id].payload, 8, "managed object");
  uint64_t v = g_m->o[id].payload;
  quiet([&] { RT_CHECK(v == 0x1000u + (uint64_t)id && !g_m->o[id].destroyed, "used-after-destroy", "object %d used after destruction", id); });
}

// counts functor copies held by the managed object
struct Tracker {
  int id;
  explicit Tracker(int i) : id(i) { quiet([&] { g_m->o[id].inst++; }); }
  Tracker(const Tracker& o) : id(o.id) { quiet([&] { g_m->o[id].inst++; }); }
  Tracker(Tracker&& o) : id(o.id) { quiet([&] { g_m->o[id].inst++; }); }
  ~Tracker() {
    bool last = false;
    quiet([&] { last = --g_m->o[id].inst == 0; });
    if (last) on_destroy(id);
  }
  int operator()(void*) const { return id; }
};

struct UBase {
  std::atomic<size_t> rc{0};
  int id;
  explicit UBase(int i) : id(i) {}
  virtual ~UBase() { on_destroy(id); }
  friend void intrusive_ptr_add_ref(UBase* p) { p->rc.fetch_add(1, std::memory_order_relaxed); }
  friend void intrusive_ptr_release(UBase* p) {
    if (p->rc.fetch_sub(1, std::memory_order_acq_rel) == 1) delete p;
  }
};
struct UPad {
  virtual ~UPad() {}
  uint64_t pad = 5;
};
// objects form chains: each may hold a handle of an older one
struct UDerived : public UPad, public UBase {
  copp::util::intrusive_ptr<UDerived> next;
  int next_id = -1;
  explicit UDerived(int i) : UBase(i) {}
  ~UDerived() {
    if (next_id >= 0) quiet([&] {
      if (--g_m->o[next_id].handles == 0) reach(PR_CHAIN);
    });
  }
};
struct UOther : public UBase {
  explicit UOther(int i) : UBase(i) {}
};

// counted by the library's own macros
struct MObj {
  int id;
  copp::util::intrusive_ptr<MObj> next;
  int next_id = -1;
  explicit MObj(int i) : id(i) { LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_INIT(); }
  ~MObj() {
    if (next_id >= 0) quiet([&] {
      if (--g_m->o[next_id].handles == 0) reach(PR_CHAIN);
    });
    on_destroy(id);
  }
  LIBCOPP_UTIL_INTRUSIVE_PTR_REF_MEMBER_DECL(MObj)
};
LIBCOPP_UTIL_INTRUSIVE_PTR_REF_FN_DEFI(MObj)

struct UserKind {
  typedef UDerived T;
  typedef copp::util::intrusive_ptr<UDerived> H;
  static H make(int id) { return H(new UDerived(id)); }
  static size_t count(const H& h) { return h->rc.load(); }
  static constexpr bool kUser = true, kChain = true;
};
struct MacroKind {
  typedef MObj T;
  typedef copp::util::intrusive_ptr<MObj> H;
  static H make(int id) { return H(new MObj(id)); }
  static size_t count(const H& h) { return h->use_count(); }
  static constexpr bool kUser = false, kChain = true;
};
struct CoKind {
  typedef copp::coroutine_context_default T;
  typedef T::ptr_type H;
  static H make(int id) { return T::create(Tracker(id), 16384); }
  static size_t count(const H& h) { return h->use_count(); }
  static constexpr bool kUser = false, kChain = false;
};
struct TaskKind {
  typedef cotask::task<> T;
  typedef T::ptr_type H;
  static H make(int id) { return T::create(Tracker(id), 16384); }
  static size_t count(const H& h) { return h->use_count(); }
  static constexpr bool kUser = false, kChain = false;
};
struct VtableKind {
  struct Ctx { using value_type = int; };
  typedef copp::generator_vtable<Ctx> T;
  typedef copp::util::intrusive_ptr<T> H;
  static H make(int id) {
    Tracker t(id);
    auto f = [t](std::shared_ptr<Ctx>) { (void)t; };
    return H(new T(f));
  }
  static size_t count(const H&) { return 0; }
  static constexpr bool kUser = false, kChain = false;
};

template <class K>
struct Bench {
  typedef typename K::H H;
  enum { kSlots = 5, kBase = 3, kBox = 3 };
  struct Hd {
    H h;
    int id = -1;
  };
  struct Bd {
    copp::util::intrusive_ptr<UBase> h;
    int id = -1;
  };
  struct Local {
    Hd s[kSlots];
    Bd b[kBase];
  };
  struct Box {
    copp::util::lock::spin_lock lk;
    Hd h;
  } box[kBox];
  bool single;

  void inc(int id) { if (id >= 0) quiet([&] { g_m->o[id].handles++; }); }
  void dec(int id) { if (id >= 0) quiet([&] { g_m->o[id].handles--; }); }
  void fresh(Hd& x, int) {
    int id = -1;
    quiet([&] {
      if (g_m->n < kMaxObj) {
        id = g_m->n++;
        g_m->o[id] = Obj();
        g_m->o[id].handles = 0;
        g_m->o[id].created = true;
      }
    });
    if (id < 0) return;
    dec(x.id);
    x.h.reset();
    rt::user_write(&g_m->o[id].payload, 8, "managed object");
    g_m->o[id].payload = 0x1000u + (uint64_t)id;
    inc(id);
    x.h = K::make(id);
    x.id = id;
    RT_CHECK(x.h.get() != nullptr, "create", "object was not created");
  }
  void check_one(const Hd& x) {
    RT_CHECK((x.h.get() != nullptr) == (x.id >= 0), "handle-state", "handle of object %d is %s", x.id, x.h ? "set" : "empty");
  }

  void step(const Op& o, Local& l) {
    Hd& x = l.s[o.a % kSlots];
    Hd& y = l.s[o.b % kSlots];
    switch (o.code) {
      case COPY: {
        inc(x.id);
        H t(x.h);
        if (x.id >= 0) use_payload(x.id);
        RT_CHECK(t.get() == x.h.get(), "copy", "copy differs");
        dec(x.id);
        t.reset();
        RT_CHECK(!t, "reset", "reset handle is not empty");
        break;
      }
      case MOVE: {
        H t(std::move(x.h));
        RT_CHECK(!x.h, "move", "moved-from handle is not empty");
        if (x.id >= 0) use_payload(x.id);
        dec(x.id);
        x.id = -1;
        break;
      }
      case COPY_ASSIGN:
        if (&x == &y) break;
        dec(x.id);
        inc(y.id);
        x.id = y.id;
        x.h = y.h;
        break;
      case MOVE_ASSIGN:
        if (&x == &y) break;
        dec(x.id);
        x.id = y.id;
        y.id = -1;
        x.h = std::move(y.h);
        break;
      case SELF_ASSIGN: {
        H& alias = x.h;
        if (o.b & 1) x.h = alias; else x.h = std::move(alias);
        break;
      }
      case SWAP:
        std::swap(x.id, y.id);
        if (o.c & 1) {
          swap(x.h, y.h);
        } else {
          x.h.swap(y.h);
        }
        break;
      case RESET:
        dec(x.id);
        x.id = -1;
        x.h.reset();
        break;
      case RESET_RAW:
        if (y.id < 0) { fresh(y, o.c); break; }
        if (&x == &y) {
          x.h.reset(x.h.get());
          break;
        }
        dec(x.id);
        inc(y.id);
        x.id = y.id;
        x.h.reset(y.h.get());
        break;
      case RESET_RAW_ADOPT:
        if (x.id < 0) break;
        {
          typename K::T* raw = x.h.detach();
          RT_CHECK(!x.h, "detach", "detached handle is not empty");
          x.h.reset(raw, false);
        }
        break;
      case DETACH:
        if (x.id < 0) break;
        {
          typename K::T* raw = x.h.detach();
          H t(raw, false);
          use_payload(x.id);
          x.h.swap(t);
        }
        break;
      case CONVERT:
        if constexpr (K::kUser) {
          Bd& b = l.b[o.c % kBase];
          dec(b.id);
          if (o.b & 1) {
            inc(x.id);
            b.id = x.id;
            b.h = x.h;
          } else {
            b.id = x.id;
            x.id = -1;
            b.h = copp::util::intrusive_ptr<UBase>(std::move(x.h));
          }
          if (b.id >= 0) use_payload(b.id);
        }
        break;
      case CONVERT_BACK:
        if constexpr (K::kUser) {
          Bd& b = l.b[o.c % kBase];
          inc(x.id);
          copp::util::intrusive_ptr<UBase> t(x.h);
          dec(b.id);
          b.id = x.id;
          b.h = std::move(t);
          RT_CHECK(!t, "move", "moved-from handle is not empty");
          RT_CHECK(b.h.get() == static_cast<UBase*>(x.h.get()), "convert", "converted handle refers to another object");
        }
        break;
      case USE:
        if (x.id < 0) fresh(x, o.c); else use_payload(x.id);
        break;
      case POST: {
        Box& q = box[o.b % kBox];
        Hd old;
        {
          copp::util::lock::lock_holder<copp::util::lock::spin_lock> g(q.lk);
          inc(x.id);
          old.h.swap(q.h.h);
          old.id = q.h.id;
          q.h.h = x.h;
          q.h.id = x.id;
        }
        dec(old.id);
        break;
      }
      case TAKE: {
        Box& q = box[o.b % kBox];
        Hd got;
        {
          copp::util::lock::lock_holder<copp::util::lock::spin_lock> g(q.lk);
          got.h = std::move(q.h.h);
          got.id = q.h.id;
          q.h.id = -1;
        }
        if (got.id >= 0) reach(PR_TRANSFER);
        dec(x.id);
        x.id = got.id;
        x.h = std::move(got.h);
        break;
      }
      case UNIQUE:
        if constexpr (K::kUser) {
          int id = -1;
          quiet([&] {
            if (g_m->n < kMaxObj) {
              id = g_m->n++;
              g_m->o[id] = Obj();
              g_m->o[id].created = true;
            }
          });
          if (id < 0) break;
          rt::user_write(&g_m->o[id].payload, 8, "managed object");
          g_m->o[id].payload = 0x1000u + (uint64_t)id;
          std::unique_ptr<UDerived> u(new UDerived(id));
          dec(x.id);
          inc(id);
          x.id = id;
          x.h = std::move(u);
          RT_CHECK(!u, "unique", "unique_ptr still owns the object");
        }
        break;
      case COUNT:
        if (x.id >= 0) {
          size_t n = K::count(x.h);
          if (single && n) {
            quiet([&] { RT_CHECK(n == (size_t)g_m->o[x.id].handles, "count", "object %d: count %zu, handles %d", x.id, n, g_m->o[x.id].handles); });
          }
        }
        break;
      case LINK:  // a new object that holds a handle of an older one, nobody else sees it yet
        if constexpr (K::kChain) {
          int to = y.id;
          H t(y.h);
          inc(to);
          int before = x.id;
          fresh(x, o.c);
          if (x.id == before || to < 0) {
            dec(to);
            break;
          }
          x.h->next = std::move(t);
          x.h->next_id = to;
        }
        break;
      case WALK:  // the handle assigned lives in the object the target lets go of
        if constexpr (K::kChain) {
          if (x.id < 0) break;
          int to = x.h->next_id, from = x.id;
          bool last = false;
          quiet([&] { last = single && g_m->o[from].handles == 1 && to >= 0; });
          if (last) reach(PR_WALK_LAST);
          if (single && (o.b & 1)) {
            // takes the link with it
            x.h->next_id = -1;
            dec(from);
            x.id = to;
            x.h = std::move(x.h->next);
          } else {
            inc(to);
            dec(from);
            x.id = to;
            x.h = x.h->next;
          }
          if (x.id >= 0) use_payload(x.id);
        }
        break;
      case CAST:
        if constexpr (K::kUser) {
          Bd& b = l.b[o.c % kBase];
          dec(x.id);
          inc(b.id);
          x.id = b.id;
          if (o.b & 1) {
            x.h = copp::util::static_pointer_cast<UDerived>(b.h);
          } else {
            x.h = copp::util::dynamic_pointer_cast<UDerived>(b.h);
          }
          RT_CHECK(static_cast<UBase*>(x.h.get()) == b.h.get(), "cast", "the cast handle refers to another object");
          copp::util::intrusive_ptr<UOther> none(copp::util::dynamic_pointer_cast<UOther>(b.h));
          RT_CHECK(!none, "cast", "a handle cast to a type its object does not have is not empty");
          inc(x.id);
          H same(copp::util::const_pointer_cast<UDerived>(x.h));
          RT_CHECK(same.get() == x.h.get(), "cast", "the cast handle refers to another object");
          dec(x.id);
        }
        break;
      case COMPARE:
        RT_CHECK((x.h == y.h) == (x.id == y.id), "compare", "equality of handles does not match their objects");
        RT_CHECK((x.h != y.h) == (x.id != y.id), "compare", "inequality of handles does not match their objects");
        RT_CHECK((x.h == nullptr) == (x.id < 0) && (nullptr == x.h) == (x.id < 0) && (x.h != nullptr) == (x.id >= 0), "compare", "comparison with null");
        RT_CHECK(!x.h == (x.id < 0) && static_cast<bool>(x.h) == (x.id >= 0), "compare", "truth of a handle");
        {
          typename K::T *a = x.h.get(), *b = y.h.get();
          RT_CHECK(get_pointer(x.h) == a, "compare", "get_pointer");
          if (a && x.h) RT_CHECK(&*x.h == a && x.h.operator->() == a, "compare", "dereferenced handle");
          RT_CHECK((x.h == b) == (a == b) && (a == y.h) == (a == b) && (x.h != b) == (a != b) && (a != y.h) == (a != b), "compare", "equality of handle and pointer");
          std::less<typename K::T*> lt;
          RT_CHECK((x.h < y.h) == lt(a, b) && (x.h > y.h) == lt(b, a) && (x.h <= y.h) == !lt(b, a) && (x.h >= y.h) == !lt(a, b), "compare", "order of handles");
          RT_CHECK((x.h < b) == lt(a, b) && (x.h > b) == lt(b, a) && (x.h <= b) == !lt(b, a) && (x.h >= b) == !lt(a, b), "compare", "order of handle and pointer");
          RT_CHECK((a < y.h) == lt(a, b) && (a > y.h) == lt(b, a) && (a <= y.h) == !lt(b, a) && (a >= y.h) == !lt(a, b), "compare", "order of pointer and handle");
          if (single && (o.c & 1)) quiet([&] {
            std::ostringstream s1, s2;
            s1 << x.h;
            s2 << a;
            RT_CHECK(s1.str() == s2.str(), "compare", "printed handle");
          });
        }
        break;
    }
    check_one(x);
    check_one(y);
    if (single) {
      quiet([&] {
        for (int i = 0; i < g_m->n; ++i) {
          RT_CHECK(g_m->o[i].destroyed == (g_m->o[i].handles == 0), "leak", "object %d has %d handles and is %s", i, g_m->o[i].handles,
                   g_m->o[i].destroyed ? "destroyed" : "alive");
        }
      });
    }
  }
  void drop_all(Local& l) {
    for (auto& x : l.s) {
      if (x.id >= 0) use_payload(x.id);
      dec(x.id);
      x.id = -1;
      x.h.reset();
    }
    for (auto& b : l.b) {
      dec(b.id);
      b.id = -1;
      b.h.reset();
    }
  }
  void go(const Program& p) {
    Model m;
    g_m = &m;
    single = p.cfg[0] == 1;
    {
      Local init;
      for (int i = 0; i < 3; ++i) fresh(init.s[i], 0);
      if (single) {
        for (auto& o : p.ops) step(o, init);
        drop_all(init);
      } else {
        std::vector<Local> loc((size_t)p.cfg[0]);
        for (int t = 0; t < p.cfg[0]; ++t)
          for (int i = 0; i < 3; ++i) {
            inc(init.s[i].id);
            loc[(size_t)t].s[i].h = init.s[i].h;
            loc[(size_t)t].s[i].id = init.s[i].id;
          }
        drop_all(init);
        std::vector<std::function<void()>> th;
        for (int t = 0; t < p.cfg[0]; ++t)
          th.push_back([&, t] {
            Local& l = loc[(size_t)t];
            for (auto& o : p.ops)
              if (o.th == t) step(o, l);
            drop_all(l);
          });
        run_threads(th);
      }
      for (auto& q : box) {
        dec(q.h.id);
        q.h.id = -1;
        q.h.h.reset();
      }
    }
    for (int i = 0; i < m.n; ++i) {
      RT_CHECK(m.o[i].handles == 0, "harness-model", "handles");
      RT_CHECK(m.o[i].destroyed, "leak", "object %d was never destroyed", i);
    }
  }
};

void gen(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[0] = r.chance(1, 5) ? 1 : r.range(2, 4);
  p.cfg[1] = (int)r.below(p.cfg[0] == 1 ? 5 : 4);  // the generator table's count is not made for threads
  int n = r.range(1, thorough ? 40 : 20);
  int w[NOPS];
  for (int i = 0; i < NOPS; ++i) w[i] = (int)r.below(4);
  w[RESET] += 2;
  w[COPY] += 1;
  int tot = 0;
  for (int i = 0; i < NOPS; ++i) tot += w[i];
  for (int i = 0; i < n; ++i) {
    Op o;
    int x = (int)r.below((uint32_t)tot);
    o.code = 0;
    while (x >= w[o.code]) x -= w[o.code++];
    o.th = (int)r.below((uint32_t)p.cfg[0]);
    o.a = (int)r.below(5);
    o.b = (int)r.below(6);
    o.c = (int)r.below(3);
    p.ops.push_back(o);
  }
}

void run(const Program& p) {
  { copp::util::uint64_id_allocator a; (void)a.allocate(); }  // this thread's id block lives until the thread ends
  const uint64_t mark = rt::alloc_mark();
  switch (p.cfg[1]) {
    case 0: { Bench<UserKind> b; b.go(p); break; }
    case 1: { Bench<CoKind> b; b.go(p); break; }
    case 2: { Bench<TaskKind> b; b.go(p); break; }
    case 3: { Bench<MacroKind> b; b.go(p); break; }
    default: { Bench<VtableKind> b; b.go(p); break; }
  }
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}
}  // namespace

namespace h {
const Scenario kScenarios[] = {
    {"handles", 1, gen, run, 60000, true, kOps, kProbes, "intrusive_ptr, task, coroutine_context_container, generator_vtable, spin_lock (real); user object type (harness); threads (simulated)"},
};
const int kNumScenarios = 1;
}  // namespace h
