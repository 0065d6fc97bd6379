// P18: pollers, futures and results hold exactly the value put in.
// Seeded histories over several objects of one category, with allocations and value constructors failing on the way,
// checked after every step against a model of what each object holds; every value counts its own lives.
#include "harness.h"

#include <libcopp/future/future.h>
#include <libcopp/future/poller.h>

#include <string.h>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>

namespace h {
const char* const kProperty = "P18";
}
using namespace h;
namespace fu = copp::future;

namespace {
enum { NOBJ = 4 };
enum { CONSTRUCT, VALUE, ASSIGN, MOVE_CONSTRUCT, MOVE_ASSIGN, SWAP, RESET, DESTROY, POINTER, REASSIGN, MAKE, LINK, NOPS };
const char* const kOps[] = {"construct_empty", "construct_value", "assign_value", "move_construct", "move_assign", "swap", "reset", "destroy", "assign_pointer",
                            "assign_own_value", "make_instance", "walk_a_chain", nullptr};
enum { PR_SWAP_MIXED, PR_SWAP_BOTH, PR_MOVE_OVER, PR_SELF_SWAP, PR_NULL_PTR, PR_DERIVED, PR_THROW, PR_NOMEM, PR_ERROR_SUCCESS, PR_CHAIN };
const char* const kProbes[] = {"ready object swapped with one that is not", "two ready objects swapped", "value moved over another value", "object swapped with itself",
                               "assigned a null pointer", "assigned a derived object", "value constructor threw", "allocation failed", "a success swapped with an error", "object assigned from one that the value it replaces owns", nullptr};

// ------------------------------------------------------------------------------------------------ values
int g_live = 0;
bool g_throw = false;
struct Thrown : std::runtime_error {
  Thrown() : std::runtime_error("value") {}
};
struct Tracked {
  enum : uint32_t { ALIVE = 0x11a11a11, DEAD = 0xdeaddead };
  uint32_t magic;
  int uid;
  int* box;
  explicit Tracked(int u) : magic(0), uid(u), box(nullptr) {
    if (g_throw) throw Thrown();
    box = new int(u);
    magic = ALIVE;
    ++g_live;
  }
  Tracked(const Tracked& o) : magic(0), uid(o.uid), box(nullptr) {
    RT_CHECK(o.magic == ALIVE, "dead-value", "a destroyed value is copied");
    if (g_throw) throw Thrown();
    box = new int(*o.box);
    magic = ALIVE;
    ++g_live;
  }
  Tracked& operator=(const Tracked& o) {
    RT_CHECK(magic == ALIVE && o.magic == ALIVE, "dead-value", "a destroyed value is assigned");
    *box = *o.box;
    uid = o.uid;
    return *this;
  }
  ~Tracked() {
    RT_CHECK(magic == ALIVE, "destroyed-twice", "a value is destroyed twice");
    magic = DEAD;
    delete box;
    --g_live;
  }
};
struct Base {
  virtual ~Base() {}
  virtual int uid() const = 0;
};
struct Derived : Base {
  Tracked t;
  explicit Derived(int u) : t(u) {}
  int uid() const override { return t.uid; }
};
struct Parent : Tracked {
  explicit Parent(int u) : Tracked(u) {}
  Parent(const Parent&) = default;
  virtual ~Parent() {}
};
struct Child : Parent {
  Tracked more;
  explicit Child(int u) : Parent(u), more(u) {}
};
template <size_t N>
struct Pod {  // trivially copyable, N bytes
  unsigned char b[N];
};
struct Big {  // its allocation can fail
  Tracked t;
  char room[5000];
  explicit Big(int u) : t(u) { memset(room, u & 0xff, sizeof(room)); }
};

template <class T>
struct V;
template <>
struct V<int> {
  static int make(int u) { return u; }
  static int uid(const int& v) { return v; }
};
template <>
struct V<long> {
  static long make(int u) { return (long)u << 33 | u; }
  static int uid(const long& v) { return (int)(v >> 33) == (int)(v & 0x7fffffff) ? (int)(v & 0x7fffffff) : -1; }
};
template <>
struct V<unsigned char> {
  static unsigned char make(int u) { return (unsigned char)(u & 0xff); }
  static int uid(const unsigned char& v) { return v; }
};
template <size_t N>
struct V<Pod<N> > {
  static Pod<N> make(int u) {
    Pod<N> p;
    memcpy(p.b, &u, 4);
    for (size_t i = 4; i < N; ++i) p.b[i] = (unsigned char)(u * 7 + (int)i);
    return p;
  }
  static int uid(const Pod<N>& v) {
    int u;
    memcpy(&u, v.b, 4);
    for (size_t i = 4; i < N; ++i)
      if (v.b[i] != (unsigned char)(u * 7 + (int)i)) return -1;
    return u;
  }
};
template <>
struct V<Tracked> {
  static Tracked make(int u) { return Tracked(u); }
  static int uid(const Tracked& v) { return v.magic == Tracked::ALIVE && *v.box == v.uid ? v.uid : -1; }
};
template <>
struct V<Parent> {
  static Parent make(int u) { return Parent(u); }
  static int uid(const Parent& v) { return V<Tracked>::uid(v); }
};
template <>
struct V<Base> {
  static int uid(const Base& v) { return v.uid(); }
};
template <>
struct V<Big> {
  static int uid(const Big& v) {
    for (size_t i = 0; i < sizeof(v.room); i += 97)
      if (v.room[i] != (char)(v.t.uid & 0xff)) return -1;
    return V<Tracked>::uid(v.t);
  }
};
template <class T>
constexpr int kMask = std::is_same<T, unsigned char>::value ? 0x7f : 0x7fffff;
int next_uid(int& serial, int mask) {
  int u = ++serial & mask;
  return u ? u : (serial += 1) & mask;
}

// A value that owns the object holding the value after it: walking such a chain assigns the head from an object that
// the replaced value owns.
struct Node {
  Tracked t;
  std::shared_ptr<void> next;
  explicit Node(int u) : t(u) {}
};
struct Holder {  // H: poller or result; made(u, next): an object holding a node
  template <class H, class MAKE, class GET>
  static void walk(int n, int first, int live_before, bool keep_rest, MAKE&& make, GET&& get) {
    std::shared_ptr<void> tail;
    for (int k = n - 1; k > 0; --k) {
      std::shared_ptr<H> h = std::make_shared<H>(make(first + k));
      get(*h)->next = std::move(tail);
      tail = std::move(h);
    }
    H head(make(first));
    get(head)->next = std::move(tail);
    RT_CHECK(g_live == live_before + n, "lifetime", "a chain of %d values made %d values", n, g_live - live_before);
    for (int k = 0; k < n; ++k) {
      Node* v = get(head);
      RT_CHECK(v && V_uid(v->t) == first + k, "value", "the head of a chain holds value %d instead of %d", v ? v->t.uid : 0, first + k);
      RT_CHECK(g_live == live_before + n - k, "lifetime", "%d values are alive although %d of a chain are left", g_live - live_before, n - k);
      if (!v->next) break;
      if (keep_rest && k == 0) {  // somebody else holds the next object as well: it must only lose its value
        std::shared_ptr<void> other = v->next;
        head = std::move(*static_cast<H*>(v->next.get()));
        RT_CHECK(!get(*static_cast<H*>(other.get())), "readiness", "an object moved from is still ready");
      } else {
        head = std::move(*static_cast<H*>(v->next.get()));
        reach(PR_CHAIN);
      }
    }
  }
  static int V_uid(const Tracked& v) { return v.magic == Tracked::ALIVE && *v.box == v.uid ? v.uid : -1; }
};
void walk_chain(int c, int first) {
  const int n = 2 + c % 4, live = g_live;
  const bool keep = c & 0x40;
  auto ptr = [](auto& q) { return q.is_ready() ? &*q.raw_ptr() : nullptr; };
  switch (c / 4 % 4) {
    case 0: {
      typedef fu::poller<Node, std::unique_ptr<Node> > P;
      Holder::walk<P>(n, first, live, keep, [](int u) { return P(std::unique_ptr<Node>(new Node(u))); }, ptr);
      break;
    }
    case 1: {
      typedef fu::poller<Node, std::shared_ptr<Node> > P;
      Holder::walk<P>(n, first, live, keep, [](int u) { return P(std::make_shared<Node>(u)); }, ptr);
      break;
    }
    case 2: {
      typedef fu::result_type<Node, int> R;
      Holder::walk<R>(n, first, live, keep, [](int u) { return R::create_success(u); }, [](R& r) { return r.get_success(); });
      break;
    }
    default: {
      typedef fu::result_type<long, Node> R;
      Holder::walk<R>(n, first, live, keep, [](int u) { return R::create_error(u); }, [](R& r) { return r.get_error(); });
      break;
    }
  }
  RT_CHECK(g_live == live, "lifetime", "a chain is gone and %d of its values are alive", g_live - live);
}

// ------------------------------------------------------------------------------------------------ pollers and futures
// kind of pointer accepted: 0 none, 1 unique_ptr<T>, 2 derived unique_ptr, 3 shared_ptr
template <class T, class PTR, int POINTERS, bool VALUES, class C = Derived>
void run_poller(const Program& p) {
  typedef fu::poller<T, PTR> P;
  typedef fu::future<T, PTR> F;
  static_assert(sizeof(F) == sizeof(P), "");
  const bool through_future = p.cfg[1] & 1;
  std::optional<F> ob[NOBJ];
  int model[NOBJ] = {}, serial = 0;  // 0: not ready
  bool exist[NOBJ] = {};
  auto check = [&](const char* what) {
    int live = 0;
    for (int i = 0; i < NOBJ; ++i) {
      if (!exist[i]) continue;
      F& f = *ob[i];
      P& q = f.poll_data();
      const F& cf = f;
      RT_CHECK(q.is_ready() == (model[i] != 0) && f.is_ready() == q.is_ready(), "readiness", "after %s object %d is %s", what, i, q.is_ready() ? "ready although it holds no value" : "not ready although it was given a value");
      RT_CHECK(q.is_pending() != q.is_ready() && f.is_pending() != f.is_ready(), "readiness", "after %s object %d is both pending and ready or neither", what, i);
      RT_CHECK((f.data() != nullptr) == (model[i] != 0) && cf.data() == f.data() && q.data() == f.data() && &*q.raw_ptr() == f.data(), "data", "after %s object %d hands out a pointer although it holds nothing, or none", what, i);
      if (model[i]) {
        int u = V<T>::uid(*f.data());
        RT_CHECK(u == model[i], "value", "after %s object %d holds value %d instead of %d", what, i, u, model[i]);
        ++live;
      }
    }
    const int per = std::is_same<C, Child>::value ? 0 : 1;
    if (std::is_base_of<Tracked, T>::value || std::is_same<T, Base>::value) {
      if (per) RT_CHECK(g_live == live, "lifetime", "after %s %d values are alive although %d objects hold one", what, g_live, live);
      else RT_CHECK(g_live >= live && (live || !g_live), "lifetime", "after %s %d values are alive although %d objects hold one", what, g_live, live);
    }
  };
  for (auto& o : p.ops) {
    const int i = o.a % NOBJ, j = o.b % NOBJ;
    const bool both = exist[i] && exist[j];
    rt::event(300 + (uint64_t)o.code, (uint64_t)(i * 8 + j), (uint64_t)model[i] << 32 | (uint64_t)model[j]);
    switch (o.code) {
      case CONSTRUCT:
        if (exist[i]) break;
        ob[i].emplace();
        exist[i] = true;
        break;
      case VALUE: case ASSIGN: case MAKE:
        if constexpr (VALUES) {
          if (!exist[i]) {
            ob[i].emplace();
            exist[i] = true;
          }
          int u = next_uid(serial, kMask<T>);
          if (o.code == VALUE && !through_future) {
            P tmp(V<T>::make(u));  // construct with the value, then move in
            RT_CHECK(tmp.is_ready() && V<T>::uid(*tmp.data()) == u, "value", "an object constructed with value %d does not hold it", u);
            ob[i]->poll_data() = std::move(tmp);
            RT_CHECK(tmp.is_pending() && !tmp.data(), "readiness", "an object moved from is still ready");
          } else if (through_future) {
            ob[i]->reset_data(V<T>::make(u));
          } else {
            T v = V<T>::make(u);
            ob[i]->poll_data() = v;
            RT_CHECK(V<T>::uid(v) == u, "value", "the value assigned from was changed");
          }
          model[i] = u;
        }
        break;
      case POINTER:
        if constexpr (POINTERS != 0) {
          if (!exist[i]) break;
          const bool null = (o.c & 7) == 0;
          if (null) reach(PR_NULL_PTR);
          int u = null ? 0 : next_uid(serial, kMask<T>);
          if constexpr (POINTERS == 1) {
            std::unique_ptr<T> up(null ? nullptr : new T(V<T>::make(u)));
            if (through_future) ob[i]->reset_data(std::move(up));
            else ob[i]->poll_data() = std::move(up);
            if constexpr (std::is_same<PTR, std::unique_ptr<T> >::value) RT_CHECK(!up, "pointer-kept", "the pointer assigned from still owns the value");
          } else if constexpr (POINTERS == 2) {
            if (!null) reach(PR_DERIVED);
            std::unique_ptr<C> up(null ? nullptr : new C(u));
            if (through_future) ob[i]->reset_data(std::move(up));
            else ob[i]->poll_data() = std::move(up);
            RT_CHECK(!up, "pointer-kept", "the pointer assigned from still owns the value");
          } else {
            std::shared_ptr<T> sp;
            if (!null) sp = o.c & 8 ? std::shared_ptr<T>(new C(u)) : std::shared_ptr<T>(std::make_shared<C>(u));
            std::weak_ptr<T> wp = sp;
            if (through_future) ob[i]->reset_data(std::move(sp));
            else ob[i]->poll_data() = std::move(sp);
            sp.reset();
            if (!null) RT_CHECK(wp.use_count() == 1, "shared-count", "a value given to one object is owned %ld times", wp.use_count());
          }
          model[i] = u;
        }
        break;
      case REASSIGN:
        if constexpr (VALUES) {
          if (exist[i] && model[i]) {
            const T& own = *ob[i]->data();
            if (through_future) ob[i]->reset_data(own);
            else ob[i]->poll_data() = own;
          }
        }
        break;
      case MOVE_CONSTRUCT:
        if (exist[i] || !exist[j] || i == j) break;
        {
          P tmp(std::move(ob[j]->poll_data()));
          RT_CHECK(tmp.is_ready() == (model[j] != 0), "readiness", "an object made from object %d is %s", j, tmp.is_ready() ? "ready" : "not ready");
          RT_CHECK(ob[j]->is_pending(), "readiness", "object %d, moved from, is still ready", j);
          ob[i].emplace();
          exist[i] = true;
          ob[i]->poll_data() = std::move(tmp);
          RT_CHECK(tmp.is_pending(), "readiness", "an object moved from is still ready");
          model[i] = model[j];
          model[j] = 0;
        }
        break;
      case MOVE_ASSIGN:
        if (!both || i == j) break;
        if (model[i] && model[j]) reach(PR_MOVE_OVER);
        ob[i]->poll_data() = std::move(ob[j]->poll_data());
        model[i] = model[j];
        model[j] = 0;
        break;
      case SWAP:
        if (!both) break;
        if (i == j) reach(PR_SELF_SWAP);
        else if (!model[i] != !model[j]) reach(PR_SWAP_MIXED);
        else if (model[i]) reach(PR_SWAP_BOTH);
        if (o.c & 1) {
          swap(ob[i]->poll_data(), ob[j]->poll_data());
        } else {
          ob[i]->poll_data().swap(ob[j]->poll_data());
        }
        std::swap(model[i], model[j]);
        break;
      case RESET:
        if (!exist[i]) break;
        if (through_future) ob[i]->reset_data();
        else ob[i]->poll_data().reset();
        model[i] = 0;
        break;
      case DESTROY:
        if (!exist[i]) break;
        ob[i].reset();
        exist[i] = false;
        model[i] = 0;
        rt::count_fault(rt::F_DROP);
        break;
      case LINK:
        walk_chain(o.c, 1000);
        break;
    }
    check(kOps[o.code]);
  }
  for (int i = 0; i < NOBJ; ++i) ob[i].reset();
}

void run_void(const Program& p) {
  typedef fu::poller<void, fu::poll_storage_ptr_selector<void>::type> P;
  std::optional<P> ob[NOBJ];
  bool model[NOBJ] = {}, exist[NOBJ] = {};
  for (auto& o : p.ops) {
    const int i = o.a % NOBJ, j = o.b % NOBJ;
    const bool both = exist[i] && exist[j];
    rt::event(320 + (uint64_t)o.code, (uint64_t)(i * 8 + j), (uint64_t)model[i] << 32 | (uint64_t)model[j]);
    switch (o.code) {
      case CONSTRUCT:
        if (!exist[i]) ob[i].emplace(), exist[i] = true, model[i] = false;
        break;
      case VALUE: case ASSIGN: case MAKE:
        if (!exist[i] && (o.c & 1)) {
          ob[i].emplace(true);
          exist[i] = true;
          model[i] = true;
        } else if (exist[i]) {
          model[i] = (o.c & 6) != 0;
          *ob[i] = (bool)model[i];
        }
        break;
      case MOVE_CONSTRUCT:
        if (exist[i] || !exist[j]) break;
        ob[i].emplace(std::move(*ob[j]));
        exist[i] = true;
        model[i] = model[j];
        model[j] = false;
        break;
      case MOVE_ASSIGN:
        if (!both || i == j) break;
        *ob[i] = std::move(*ob[j]);
        model[i] = model[j];
        model[j] = false;
        break;
      case SWAP:
        if (!both) break;
        if (model[i] != model[j]) reach(PR_SWAP_MIXED);
        if (o.c & 1) swap(*ob[i], *ob[j]);
        else ob[i]->swap(*ob[j]);
        std::swap(model[i], model[j]);
        break;
      case RESET:
        if (exist[i]) ob[i]->reset(), model[i] = false;
        break;
      case DESTROY:
        ob[i].reset();
        exist[i] = model[i] = false;
        break;
    }
    for (int k = 0; k < NOBJ; ++k)
      if (exist[k]) RT_CHECK(ob[k]->is_ready() == model[k] && ob[k]->is_pending() != model[k], "readiness", "after %s object %d is %s", kOps[o.code], k, ob[k]->is_ready() ? "ready" : "not ready");
  }
}

// ------------------------------------------------------------------------------------------------ results
// calls fn with value constructors or allocations failing; true if it threw
template <class Fn>
bool with_faults(int kind, Fn&& fn) {
  bool threw = false;
  if (kind == 1) {
    g_throw = rt::fault_decide(rt::F_THROW, 1, 2);
    if (g_throw) reach(PR_THROW);
  } else if (kind == 2 && rt::fault_decide(rt::F_ALLOC_FAIL, 1, 2)) {
    rt::arm_sys_fault(rt::F_ALLOC_FAIL);
  }
  try {
    fn();
  } catch (const Thrown&) {
    RT_CHECK(g_throw, "odd-exception", "a value constructor threw although it should not");
    threw = true;
  } catch (const std::bad_alloc&) {
    RT_CHECK(kind == 2, "odd-exception", "an allocation failed although none should");
    threw = true;
    reach(PR_NOMEM);
  }
  g_throw = false;
  rt::disarm_sys_fault();
  return threw;
}

template <class OK, class ERR>
void run_result(const Program& p) {
  typedef fu::result_type<OK, ERR> R;
  constexpr bool trivial = fu::default_compact_storage<OK>::value && fu::default_compact_storage<ERR>::value;
  constexpr bool tracked = std::is_base_of<Tracked, OK>::value || std::is_same<OK, Big>::value || std::is_base_of<Tracked, ERR>::value;
  constexpr bool big = std::is_same<OK, Big>::value;
  std::optional<R> ob[NOBJ];
  std::optional<fu::future<R> > fo[NOBJ];
  int mode[NOBJ] = {}, uid[NOBJ] = {}, fmode[NOBJ] = {}, fuid[NOBJ] = {};  // mode 0 nothing, 1 success, 2 error
  bool exist[NOBJ] = {};
  int serial = 0;
  auto one = [&](R& r, int m, int u, const char* what, int i) {
    const R& c = r;
    RT_CHECK(r.is_success() == (m == 1) && r.is_error() == (m == 2), "mode", "after %s result %d is %s", what, i, r.is_success() ? "a success" : r.is_error() ? "an error" : "nothing");
    RT_CHECK((r.get_success() != nullptr) == (m == 1) && (r.get_error() != nullptr) == (m == 2) && c.get_success() == r.get_success() && c.get_error() == r.get_error(), "mode",
             "after %s result %d hands out the wrong value", what, i);
    if (m == 1) RT_CHECK(V<OK>::uid(*r.get_success()) == u, "value", "after %s result %d holds the success %d instead of %d", what, i, V<OK>::uid(*r.get_success()), u);
    if (m == 2) RT_CHECK(V<ERR>::uid(*r.get_error()) == u, "value", "after %s result %d holds the error %d instead of %d", what, i, V<ERR>::uid(*r.get_error()), u);
  };
  auto check = [&](const char* what) {
    int live = 0;
    auto count = [&](int m) { live += (m == 1 && (std::is_base_of<Tracked, OK>::value || big)) || (m == 2 && std::is_base_of<Tracked, ERR>::value); };
    for (int i = 0; i < NOBJ; ++i) {
      if (exist[i]) {
        one(*ob[i], mode[i], uid[i], what, i);
        count(mode[i]);
      }
      if (fo[i]) {
        RT_CHECK(fo[i]->is_ready() == (fmode[i] != 0), "readiness", "after %s the future %d is %s", what, i, fo[i]->is_ready() ? "ready" : "not ready");
        if (fmode[i]) one(*fo[i]->data(), fmode[i], fuid[i], what, i + 10);
        count(fmode[i]);
      }
    }
    if (tracked) RT_CHECK(g_live == live, "lifetime", "after %s %d values are alive although %d results hold one", what, g_live, live);
  };
  for (auto& o : p.ops) {
    const int i = o.a % NOBJ, j = o.b % NOBJ;
    const bool both = exist[i] && exist[j];
    const int fault = tracked && (o.c & 0x30) == 0x30 ? (big && (o.c & 0x40) ? 2 : 1) : 0;
    rt::event(340 + (uint64_t)o.code, (uint64_t)(i * 8 + j), (uint64_t)(mode[i] * 4 + mode[j]));
    switch (o.code) {
      case CONSTRUCT: case VALUE: case ASSIGN: {
        const bool ok = o.c & 1;
        const int u = next_uid(serial, ok ? kMask<OK> : kMask<ERR>);
        if (!exist[i]) {
          bool threw = with_faults(fault, [&] {
            if constexpr (std::is_same<OK, Big>::value || std::is_same<OK, Tracked>::value) {
              if (ok) ob[i].emplace(R::create_success(u));
            } else if (ok) {
              ob[i].emplace(R::create_success(V<OK>::make(u)));
            }
            if (!ok) ob[i].emplace(R::create_error(V<ERR>::make(u)));
          });
          RT_CHECK(threw == !ob[i].has_value(), "mode", "creating a result threw and still made one");
          if (threw) break;
        } else {
          bool threw = with_faults(fault, [&] {
            if constexpr (std::is_same<OK, Big>::value || std::is_same<OK, Tracked>::value) {
              if (ok) *ob[i] = R::create_success(u);
            } else if (ok) {
              *ob[i] = R::create_success(V<OK>::make(u));
            }
            if (!ok) *ob[i] = R::create_error(V<ERR>::make(u));
          });
          if (threw) break;  // the result keeps what it held
        }
        exist[i] = true;
        mode[i] = ok ? 1 : 2;
        uid[i] = u;
        break;
      }
      case MOVE_CONSTRUCT:
        if (exist[i] || !exist[j]) break;
        ob[i].emplace(std::move(*ob[j]));
        exist[i] = true;
        mode[i] = mode[j];
        uid[i] = uid[j];
        if (!trivial) mode[j] = 0;
        break;
      case MOVE_ASSIGN:
        if (!both || i == j) break;
        if (mode[i] && mode[j]) reach(PR_MOVE_OVER);
        *ob[i] = std::move(*ob[j]);
        mode[i] = mode[j];
        uid[i] = uid[j];
        if (!trivial) mode[j] = 0;
        break;
      case SWAP:
        if (!both) break;
        if (mode[i] + mode[j] == 3 && mode[i] && mode[j]) reach(PR_ERROR_SUCCESS);
        swap(*ob[i], *ob[j]);
        std::swap(mode[i], mode[j]);
        std::swap(uid[i], uid[j]);
        break;
      case MAKE: case POINTER: {
        const bool ok = o.c & 1;
        const int u = next_uid(serial, ok ? kMask<OK> : kMask<ERR>);
        if (!fo[i]) fo[i].emplace();
        bool threw = with_faults(fault, [&] {
          if constexpr (std::is_same<OK, Big>::value || std::is_same<OK, Tracked>::value) {
            if (ok) fo[i]->reset_data(R::make_success(u));
          } else if (ok) {
            fo[i]->reset_data(R::make_success(V<OK>::make(u)));
          }
          if (!ok) fo[i]->reset_data(R::make_error(V<ERR>::make(u)));
        });
        if (threw) break;
        fmode[i] = ok ? 1 : 2;
        fuid[i] = u;
        break;
      }
      case REASSIGN:
        if (!fo[i] || !fo[j] || i == j) break;
        fo[i]->poll_data() = std::move(fo[j]->poll_data());
        fmode[i] = fmode[j];
        fuid[i] = fuid[j];
        fmode[j] = 0;
        break;
      case RESET:
        if (!fo[i]) break;
        fo[i]->reset_data();
        fmode[i] = 0;
        break;
      case DESTROY:
        if (o.c & 2) {
          fo[i].reset();
          fmode[i] = 0;
        } else {
          ob[i].reset();
          exist[i] = false;
          mode[i] = 0;
        }
        break;
      case LINK:
        walk_chain(o.c, 1000);
        break;
    }
    check(kOps[o.code]);
  }
}

// ------------------------------------------------------------------------------------------------ scenarios
template <class T>
using Sel = typename fu::poll_storage_ptr_selector<T>::type;
typedef void (*Fn)(const Program&);
const Fn kPollers[] = {
    run_poller<int, Sel<int>, 1, true>,
    run_poller<unsigned char, Sel<unsigned char>, 1, true>,
    run_poller<Pod<24>, Sel<Pod<24> >, 1, true>,
    run_poller<Pod<31>, Sel<Pod<31> >, 1, true>,
    run_poller<Pod<32>, Sel<Pod<32> >, 1, true>,
    run_poller<Pod<100>, Sel<Pod<100> >, 1, true>,
    run_poller<Tracked, Sel<Tracked>, 1, true>,
    run_poller<Base, std::unique_ptr<Base>, 2, false>,
    run_poller<Parent, std::unique_ptr<Parent>, 2, true, Child>,
    run_poller<Base, std::shared_ptr<Base>, 3, false>,
    run_poller<Tracked, std::shared_ptr<Tracked>, 3, true, Tracked>,
    run_void,
};
const Fn kResults[] = {
    run_result<int, int>,
    run_result<int, long>,
    run_result<unsigned char, Pod<24> >,
    run_result<Pod<32>, int>,
    run_result<Pod<32>, Pod<31> >,
    run_result<Pod<33>, int>,
    run_result<Tracked, int>,
    run_result<int, Tracked>,
    run_result<Tracked, Tracked>,
    run_result<Tracked, Pod<100> >,
    run_result<Big, long>,
    run_result<Big, Tracked>,
};
void finish(uint64_t mark) {
  RT_CHECK(g_live == 0, "lifetime", "every object is gone and %d values are alive", g_live);
  quiet([&] {
    char d[200];
    uint64_t n = rt::live_blocks_since(mark, d, sizeof(d));
    RT_CHECK(n == 0, "leak", "%llu blocks left: %s", (unsigned long long)n, d);
  });
}
void run_pollers(const Program& p) {
  g_live = 0;
  g_throw = false;
  uint64_t mark = rt::alloc_mark();
  kPollers[(size_t)p.cfg[0] % (sizeof(kPollers) / sizeof(kPollers[0]))](p);
  finish(mark);
}
void run_results(const Program& p) {
  g_live = 0;
  g_throw = false;
  uint64_t mark = rt::alloc_mark();
  kResults[(size_t)p.cfg[0] % (sizeof(kResults) / sizeof(kResults[0]))](p);
  finish(mark);
}
void gen(rt::Rng& r, Program& p, bool thorough) {
  p.cfg[0] = (int)r.below(1200);
  p.cfg[1] = (int)r.below(2);
  const int n = r.range(2, thorough ? 40 : 24), objs = r.range(2, NOBJ);
  int wt[NOPS], tot = 0;
  for (int& w : wt) tot += w = r.chance(1, 5) ? 0 : 1 + (int)r.below(4);
  if (!tot) tot = wt[CONSTRUCT] = 1;
  for (int i = 0; i < n; ++i) {
    Op o;
    o.th = 0;
    int x = (int)r.below((uint32_t)tot);
    o.code = 0;
    while (x >= wt[o.code]) x -= wt[o.code++];
    o.a = (int)r.below((uint32_t)objs);
    o.b = (int)r.below((uint32_t)objs);
    o.c = (int)r.below(128);
    p.ops.push_back(o);
  }
}
}  // namespace

namespace h {
#define P18_COMP "poller, future, result_type and their storages (real); values, allocation and constructor failures (harness); malloc (simulated)"
const Scenario kScenarios[] = {
    {"pollers_and_futures", 1, gen, run_pollers, 200000, false, kOps, kProbes, P18_COMP},
    {"results", 1, gen, run_results, 200000, false, kOps, kProbes, P18_COMP},
};
const int kNumScenarios = 2;
}  // namespace h
