// Which memory does each operation touch?  In every enumerated state every operation of
// a container runs with its loads and stores recorded.  Readers may store nowhere but on
// their own stack; modifiers may touch only what belongs to the container they are
// called on.  Calls with such footprints commute, so all interleavings of calls by
// readers of one container, or by users of distinct containers, are equivalent to the
// sequential ones (which the other checks explore).  See DESIGN.md, C19.
#include "fprt.hpp"
#include "mc.hpp"

#include <fast_containers/btree.hpp>
#include <fast_containers/dense_map.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <algorithm>
#include <optional>
#include <unordered_set>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef KEY
#define KEY int64_t
#endif
#ifndef VAL
#define VAL uint64_t
#endif
#ifndef CMP
#define CMP std::less<KEY>
#endif
#ifndef LN
#define LN 8
#endif
#ifndef IN
#define IN 8
#endif
#ifndef MODE
#define MODE Linear
#endif
#ifndef CT
#define CT 1
#endif
using K = KEY;
using V = VAL;
using P = std::pair<K, V>;

#if CT == 1
using Al = std::allocator<P>;
Al make_alloc() { return Al(); }
#elif CT == 2
using Al = fc::HugePageAllocator<P>;
Al make_alloc() { return Al(64 << 10, true); }
#elif CT == 3
using Al = fc::PolicyBasedHugePageAllocator<P, fc::TwoPoolPolicy>;
Al make_alloc() {
  return Al(fc::TwoPoolPolicy{std::make_shared<fc::HugePagePool>(64 << 10, true),
                              std::make_shared<fc::HugePagePool>(64 << 10, false)});
}
#elif CT == 4
using Al = fc::MultiSizeHugePageAllocator<P>;
Al make_alloc() {
  return Al(std::make_shared<fc::MultiSizeHugePagePool>(64 << 10, true));
}
#endif

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
uint64_t n_ops = 0, n_hist = 0, n_states = 0, n_reader = 0;

template <class T>
T make_key(int64_t x) {
  if constexpr (std::is_same_v<T, std::string>) {
    char b[40];
    snprintf(b, sizeof b, "key-%020lld", static_cast<long long>(x) + (1ll << 61));
    return b;
  } else {
    return static_cast<T>(x);
  }
}
template <class T>
T make_val(uint64_t x) {
  if constexpr (std::is_same_v<T, std::string>)
    return "a value that does not fit into the string object " + std::to_string(x);
  else
    return static_cast<T>(x);
}

// Runs f with recording on.
template <class F>
void recorded(bool reader, unsigned allowed, unsigned writable, int cur, const char* what,
              F&& f) {
  ++n_ops;
  n_reader += reader;
  std::string before;
  if (reader)
    for (int o = 0; o < 2; ++o)
      before.append(fp::g.own[o].base, fp::g.own[o].used);
  size_t used0 = fp::g.own[0].used;
  fp::start(reader, allowed, writable, cur);
  f();
  int bad = fp::stop();
  static const char* text[] = {"", "wrote memory that existed before it",
                               "wrote memory that belongs to no container",
                               "read memory of another container",
                               "wrote memory of another container"};
  CHECK(bad == 0, "%s %s (%zu bytes)", what, text[bad],
        static_cast<size_t>(fp::g.bad_size));
  if (reader) {
    CHECK(!memcmp(before.data(), fp::g.own[0].base, used0),
          "%s changed the container's memory", what);
    CHECK(!memcmp(before.data() + used0, fp::g.own[1].base, before.size() - used0),
          "%s changed another container's memory", what);
  }
}

enum Kind : uint32_t {
  INS = 0,
  DEL = 1,
  INSERT_NEW = 10,
  INSERT_OLD = 20,
  ERASE_KEY = 30,
  ERASE_IT,
  ERASE_RANGE,
  CLEAR,
  ASSIGN,
  MOVE_ASSIGN,
  SWAP,
  WRITE,
  DESTROY,
  ERASE_ABSENT,
  R_LOOK = 50,
  R_LOOK_MUT,
  R_WALK,
  R_WALK_BACK,
  R_MISC,
  R_COPY,
};
uint32_t W(uint32_t k, uint32_t a = 0, uint32_t b = 0) { return k << 24 | a << 12 | b; }
bool g_modify = true;  // fixed for the run
volatile uint64_t sink;

#if CT != 0
// ---- btree -----------------------------------------------------------------------
using Tree = fc::btree<K, V, LN, IN, CMP, fc::SearchMode::MODE, Al>;

struct World {
  Tree* x = nullptr;
  Tree* y = nullptr;
  std::vector<int64_t> keys;

  Tree* build(int owner) {
    fp::g.current = owner;
    void* p = fp::take(owner, sizeof(Tree), alignof(Tree));
    // (the bytes of the objects are compared, padding included)
    memset(p, 0, sizeof(Tree));
    Tree* t = new (p) Tree(make_alloc());
    fp::g.current = -1;
    return t;
  }
  void insert(Tree* t, int owner, int64_t k) {
    K key = make_key<K>(k);
    fp::g.current = owner;
    V v = make_val<V>(static_cast<uint64_t>(k));
    t->insert(key, v);
    fp::g.current = -1;
  }
  int64_t gap_key(size_t g) const {
    const int64_t lim = int64_t{1} << 60;
    int64_t lo = g == 0 ? -lim : keys[g - 1], hi = g == keys.size() ? lim : keys[g];
    if (keys.empty()) return 0;
    if (g == 0) return hi - (int64_t{1} << 40);
    if (g == keys.size()) return lo + (int64_t{1} << 40);
    return lo + (hi - lo) / 2;
  }
  void replay(const Words& w, size_t n) {
    fp::reset();
    x = build(0);
    y = build(1);
    keys.clear();
    for (int i = 0; i < 20; ++i) insert(y, 1, i * (int64_t{1} << 38));
    for (size_t i = 0; i < n; ++i) {
      uint32_t a = (w[i] >> 12) & 0xfff;
      if (w[i] >> 24 == INS) {
        int64_t k = gap_key(a);
        insert(x, 0, k);
        keys.insert(keys.begin() + a, k);
      } else {
        K key = make_key<K>(keys.at(a));
        fp::g.current = 0;
        x->erase(key);
        fp::g.current = -1;
        keys.erase(keys.begin() + a);
      }
    }
  }
  void finish() {
    fp::g.current = 0;
    x->~Tree();
    fp::g.current = 1;
    y->~Tree();
    fp::g.current = -1;
    for (int i = 0; i < fp::g.nextra; ++i)
      __real_munmap(reinterpret_cast<void*>(fp::g.extra[i].lo),
                    fp::g.extra[i].hi - fp::g.extra[i].lo);
    fp::g.nextra = 0;
  }
  std::string shape() {
    std::string s;
    const char* last = nullptr;
    size_t run = 0;
    for (auto it = x->begin(); it != x->end(); ++it) {
      auto p = reinterpret_cast<const char*>(&it->first);
      if (last && p != last + sizeof(K)) {
        s += std::to_string(run) + ",";
        run = 0;
      }
      ++run;
      last = p;
    }
    return s + std::to_string(run);
  }
  // one operation; true if the containers were changed
  bool op(uint32_t w) {
    uint32_t k = w >> 24, a = (w >> 12) & 0xfff, b = w & 0xfff;
    Tree& t = *x;
    const Tree& c = *x;
    if (k >= INSERT_NEW && k < ERASE_KEY) {
      bool has = k >= INSERT_OLD;
      uint32_t fl = has ? k - INSERT_OLD : k - INSERT_NEW;
      K key = make_key<K>(has ? keys.at(a) : gap_key(a));
      fp::g.current = 0;
      V v = make_val<V>(7);
      recorded(false, 1, 1, 0, "an insertion", [&] {
        switch (fl) {
          case 0:
            t.insert(key, v);
            break;
          case 1:
            t.insert(typename Tree::value_type(key, v));
            break;
          case 2:
            t.emplace(key, v);
            break;
          case 3:
            t.emplace_hint(t.end(), key, v);
            break;
          case 4:
            t.try_emplace(key, v);
            break;
          case 5:
            t.insert_or_assign(key, v);
            break;
          default:
            t[key] = v;
        }
      });
      return true;
    }
    if (k >= R_LOOK) {
      auto look = [&](auto& m, const char* what) {
        K key = make_key<K>(a & 1 ? keys.at(a / 2) : gap_key(a / 2));
        uint64_t got = 0;
        recorded(true, 1, 0, -1, what, [&] {
          auto f = m.find(key);
          got += f == m.end();
          got += m.contains(key);
          got += m.count(key);
          if (a & 1) got += (&m.at(key) != nullptr);
          if constexpr (requires { m.lower_bound(key); }) {
            auto l = m.lower_bound(key);
            auto u = m.upper_bound(key);
            auto [e1, e2] = m.equal_range(key);
            got += (l == u) + (e1 == e2);
          }
        });
        sink = got;
      };
      if (k == R_LOOK) look(c, "a lookup in a const tree");
      if (k == R_LOOK_MUT) look(t, "a lookup");
      auto walk = [&](auto& m, const char* what, bool back) {
        uint64_t got = 0;
        recorded(true, 1, 0, -1, what, [&] {
          if (!back) {
            for (auto it = m.begin(); it != m.end(); ++it) {
              const auto& kk = it->first;
              got += sizeof(kk) + (&(*it).second != nullptr);
            }
            for (auto it = m.begin(); it != m.end(); it++) ++got;
            for (const auto& e : m) got += sizeof(e.second);
          } else {
            auto it = m.end();
            while (it != m.begin()) {
              --it;
              got += (&it->second != nullptr);
            }
            for (auto r = m.rbegin(); r != m.rend(); ++r) got += sizeof(r->second);
          }
        });
        sink = got;
      };
      if (k == R_WALK) {
        walk(c, "iterating a const tree", false);
        walk(t, "iterating", false);
      }
      if (k == R_WALK_BACK) {
        walk(c, "iterating a const tree backwards", true);
        walk(t, "iterating backwards", true);
      }
      if (k == R_MISC) {
        uint64_t got = 0;
        recorded(true, 1, 0, -1, "size, empty or an observer", [&] {
          got += c.size() + c.empty();
          if constexpr (requires { c.cbegin(); }) got += c.cbegin() == c.cend();
          if constexpr (requires { c.key_comp(); }) got += sizeof(c.key_comp());
          if constexpr (requires { c.value_comp(); }) got += sizeof(c.value_comp());
        });
        sink = got;
      }
      if (k == R_COPY) {
        recorded(true, 5, 4, 2, "copying (with respect to the source)", [&] {
          Tree copy(c);
        });
      }
      return false;
    }
    switch (k) {
      case ERASE_KEY: {
        K key = make_key<K>(keys.at(a));
        recorded(false, 1, 1, 0, "erase(key)", [&] { t.erase(key); });
        break;
      }
      case ERASE_ABSENT: {
        K key = make_key<K>(gap_key(a));
        recorded(true, 1, 0, 0, "erase(key) of an absent key", [&] { t.erase(key); });
        return false;
      }
      case ERASE_IT: {
        auto it = t.begin();
        for (uint32_t i = 0; i < a; ++i) ++it;
        recorded(false, 1, 1, 0, "erase(iterator)", [&] { t.erase(it); });
        break;
      }
      case ERASE_RANGE: {
        auto f = t.begin(), l = t.begin();
        for (uint32_t i = 0; i < a; ++i) ++f;
        for (uint32_t i = 0; i < b; ++i) ++l;
        recorded(false, 1, 1, 0, "erase(first, last)", [&] { t.erase(f, l); });
        break;
      }
      case CLEAR:
        recorded(false, 1, 1, 0, "clear", [&] { t.clear(); });
        break;
      case ASSIGN:
        recorded(false, 3, 1, 0, "copy assignment", [&] {
          const Tree& src = *y;
          t = src;
        });
        break;
      case MOVE_ASSIGN:
        recorded(false, 3, 3, 0, "move assignment", [&] { t = std::move(*y); });
        break;
      case SWAP:
        recorded(false, 3, 3, 0, "swap", [&] { t.swap(*y); });
        break;
      case WRITE: {
        auto it = t.begin();
        for (uint32_t i = 0; i < a; ++i) ++it;
        fp::g.current = 0;
        V v = make_val<V>(9);
        recorded(false, 1, 1, 0, "a write through an iterator", [&] { it->second = v; });
        break;
      }
      case DESTROY:
        recorded(false, 1, 1, 0, "destruction", [&] { t.~Tree(); });
        x = build(0);
        break;
      default:
        break;
    }
    return true;
  }
};

void run(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_hist;
  World z;
  z.replay(w, w.size() - 1);
  z.op(w.back());
  z.finish();
}
void probes(const Words& base, uint32_t n) {
  Words w = base;
  w.push_back(0);
  // readers leave the container as it was: one replay for all of them
  {
    World z;
    z.replay(base, base.size());
    auto rd = [&](uint32_t op) {
      w.back() = op;
      mc::begin_case(w);
      mc::current = w;
      z.op(op);
    };
    for (uint32_t c = 0; c <= 2 * n; ++c) {
      rd(W(R_LOOK, c));
      rd(W(R_LOOK_MUT, c));
      if (!(c & 1)) rd(W(ERASE_ABSENT, c / 2));
    }
    for (uint32_t k : {R_WALK, R_WALK_BACK, R_MISC}) rd(W(k));
    if (CT == 1) rd(W(R_COPY));
    z.finish();
  }
  auto go = [&](uint32_t op) {
    w.back() = op;
    run(w);
  };
  for (uint32_t f = 0; f < 7; ++f) {
    for (uint32_t g = 0; g <= n; ++g) go(W(INSERT_NEW + f, g));
    for (uint32_t r = 0; r < n; ++r) go(W(INSERT_OLD + f, r));
  }
  for (uint32_t r = 0; r < n; ++r) {
    go(W(ERASE_KEY, r));
    go(W(ERASE_IT, r));
    go(W(WRITE, r));
  }
  uint32_t st = n <= 20 ? 1 : n / 12;
  for (uint32_t a = 0; a <= n; a += st)
    for (uint32_t b = a; b <= n; b += st) go(W(ERASE_RANGE, a, b));
  for (uint32_t k : {CLEAR, ASSIGN, MOVE_ASSIGN, SWAP, DESTROY}) go(W(k));
}
bool explore() {
  double t0 = mc::now_s(), budget = mc::time_budget();
  uint32_t nmax = static_cast<uint32_t>(par.get("nmax", 12));
  std::vector<Words> q;
  std::unordered_set<std::string> seen;
  q.push_back({});
  seen.insert("0");
  bool ex = true;
  for (size_t s = 0; s < q.size(); ++s) {
    if (mc::now_s() - t0 > budget) {
      ex = false;
      break;
    }
    ++n_states;
    World z;
    z.replay(q[s], q[s].size());
    uint32_t n = static_cast<uint32_t>(z.keys.size());
    z.finish();
    probes(q[s], n);
    if (n_states % 101 == 2) {
      z.replay(q[s], q[s].size());
      mc::samples.push_back("leaves " + z.shape());
      z.finish();
    }
    Words w = q[s];
    w.push_back(0);
    auto next = [&](uint32_t op) {
      w.back() = op;
      mc::begin_case(w);
      World y;
      y.replay(w, w.size());
      std::string sh = y.shape();
      y.finish();
      if (seen.insert(sh).second) q.push_back(w);
    };
    if (n < nmax)
      for (uint32_t g = 0; g <= n; ++g) next(W(INS, g));
    for (uint32_t r = 0; r < n; ++r) next(W(DEL, r));
  }
  // larger trees
  for (long n = par.get("big_from", 40); n <= par.get("big", 0); n += par.get("big_step", 25)) {
    Words w;
    for (long i = 0; i < n; ++i) w.push_back(W(INS, static_cast<uint32_t>((i * 7919) % (i + 1))));
    ++n_states;
    probes(w, static_cast<uint32_t>(n));
  }
  if (mc::samples.size() > 3) mc::samples.resize(3);
  return ex;
}
#else
// ---- dense_map -------------------------------------------------------------------
#ifndef CAP
#define CAP 5
#endif
constexpr uint32_t U = CAP + 1;
using Map = fc::dense_map<K, V, CAP, CMP, fc::SearchMode::MODE>;
struct World {
  Map* x = nullptr;
  Map* y = nullptr;
  Map* build(int owner, uint32_t mask) {
    fp::g.current = owner;
    void* p = fp::take(owner, sizeof(Map), alignof(Map));
    memset(p, 0, sizeof(Map));
    Map* m = new (p) Map();
    for (uint32_t i = 0; i < U; ++i)
      if (mask >> i & 1) m->insert(make_key<K>(i * 10), make_val<V>(i));
    fp::g.current = -1;
    return m;
  }
  void replay(uint32_t mx, uint32_t my) {
    fp::reset();
    x = build(0, mx);
    y = build(1, my);
  }
  void finish() {
    x->~Map();
    y->~Map();
  }
  static uint32_t size(uint32_t mask) { return static_cast<uint32_t>(__builtin_popcount(mask)); }
  void op(uint32_t mask, uint32_t my, uint32_t w) {
    uint32_t k = w >> 24, a = (w >> 12) & 0xfff, b = w & 0xfff;
    Map& t = *x;
    const Map& c = *x;
    K key = make_key<K>(static_cast<int64_t>(a) * 5);  // even: stored positions
    bool has = a % 2 == 0 && (mask >> (a / 2) & 1);
    if (k >= R_LOOK) {
      auto look = [&](auto& m, const char* what) {
        uint64_t got = 0;
        recorded(true, 1, 0, -1, what, [&] {
          auto f = m.find(key);
          got += f == m.end();
          auto l = m.lower_bound(key);
          auto u = m.upper_bound(key);
          got += l == u;
          if constexpr (requires { m.at(key); })
            if (has) got += (&m.at(key) != nullptr);
          if constexpr (requires { m.contains(key); }) got += m.contains(key);
        });
        sink = got;
      };
      auto walk = [&](auto& m, const char* what) {
        uint64_t got = 0;
        recorded(true, 1, 0, -1, what, [&] {
          for (auto it = m.begin(); it != m.end(); ++it) got += (&it->second != nullptr);
          for (auto it = m.rbegin(); it != m.rend(); ++it) got += sizeof(it->second);
          auto e = m.end();
          while (e != m.begin()) --e;
          got += static_cast<uint64_t>(m.end() - m.begin());
          if (m.begin() != m.end()) {
            auto it = m.begin() + static_cast<std::ptrdiff_t>(m.size() - 1);
            got += (&(*it).second != nullptr) + (it < m.end());
          }
          got += m.size() + m.empty();
          if constexpr (requires { m.full(); }) got += m.full();
          if constexpr (requires { m.capacity(); }) got += m.capacity();
        });
        sink = got;
      };
      if (k == R_LOOK) look(c, "a lookup in a const map");
      if (k == R_LOOK_MUT) look(t, "a lookup");
      if (k == R_WALK) {
        walk(c, "iterating a const map");
        walk(t, "iterating");
      }
      if (k == R_COPY) {
        fp::g.current = 2;
        auto* p = static_cast<Map*>(fp::take(2, sizeof(Map), alignof(Map)));
        recorded(true, 5, 4, 2, "copying (with respect to the source)",
                 [&] { new (p) Map(c); });
        p->~Map();
      }
      return;
    }
    fp::g.current = 0;
    V v = make_val<V>(7);
    fp::g.current = -1;
    bool room = size(mask) < CAP;
    auto at = [&](uint32_t i) { return t.begin() + static_cast<std::ptrdiff_t>(i); };
    if (k >= INSERT_NEW && k < ERASE_KEY) {
      uint32_t fl = k - INSERT_NEW;
      if (!room && !(has && fl >= 2)) return;
      recorded(false, 1, 1, 0, "an insertion", [&] {
        if (fl == 0) t.insert(key, v);
        if (fl == 1) t.try_emplace(key, v);
        if (fl == 2) t.insert_or_assign(key, v);
        if (fl == 3) t[key] = v;
      });
    } else if (k == ERASE_KEY) {
      recorded(!has, 1, has ? 1 : 0, 0, "erase(key)", [&] { t.erase(key); });
    } else if (k == ERASE_IT && a < size(mask)) {
      recorded(false, 1, 1, 0, "erase(iterator)", [&] { t.erase(at(a)); });
    } else if (k == CLEAR) {
      recorded(false, 1, 1, 0, "clear", [&] { t.clear(); });
    } else if (k == ASSIGN) {
      recorded(false, 3, 1, 0, "copy assignment", [&] {
        const Map& src = *y;
        t = src;
      });
    } else if (k == MOVE_ASSIGN) {
      recorded(false, 3, 3, 0, "move assignment", [&] { t = std::move(*y); });
    } else if (k == DESTROY) {
      recorded(false, 1, 1, 0, "destruction", [&] { t.~Map(); });
      x = build(0, 0);
    } else if (k == SWAP && my == 0 && a <= size(mask)) {  // split
      auto pos = at(a);
      recorded(false, 3, 3, 0, "split_at", [&] { t.split_at(pos, *y); });
    } else if (k == ERASE_RANGE && my != 0) {  // transfers
      uint32_t cnt = std::min(b, size(my));
      if (size(mask) + cnt > CAP) return;
      // (y must lie on the right side of x for its order to stay intact)
      if (mask & my) return;
      uint32_t hi = mask ? 31 - static_cast<uint32_t>(__builtin_clz(mask)) : 0;
      uint32_t ylo = static_cast<uint32_t>(__builtin_ctz(my));
      if (mask && ylo < hi) return;
      recorded(false, 3, 3, 0, "transfer_prefix_from",
               [&] { t.transfer_prefix_from(*y, cnt); });
    }
  }
};
void run(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_hist;
  World z;
  z.replay(w.at(0), w.at(1));
  z.op(w.at(0), w.at(1), w.at(2));
  z.finish();
}
bool explore() {
  for (uint32_t mask = 0; mask < (1u << U); ++mask) {
    if (World::size(mask) > CAP) continue;
    ++n_states;
    for (uint32_t k : {INSERT_NEW + 0, INSERT_NEW + 1, INSERT_NEW + 2, INSERT_NEW + 3,
                       ERASE_KEY + 0, R_LOOK + 0, R_LOOK_MUT + 0})
      for (uint32_t a = 0; a < 2 * U; ++a) run({mask, 3, W(k, a)});
    for (uint32_t a = 0; a < CAP; ++a) run({mask, 3, W(ERASE_IT, a)});
    for (uint32_t k : {CLEAR, DESTROY, R_WALK, R_COPY}) run({mask, 3, W(k)});
    for (uint32_t my = 0; my < (1u << U); ++my) {
      if (World::size(my) > CAP) continue;
      run({mask, my, W(ASSIGN)});
      run({mask, my, W(MOVE_ASSIGN)});
      if (my == 0)
        for (uint32_t a = 0; a <= CAP; ++a) run({mask, 0, W(SWAP, a)});
      else
        for (uint32_t b = 0; b <= CAP; ++b) run({mask, my, W(ERASE_RANGE, 0, b)});
    }
  }
  return true;
}
#endif

bool explore_all() {
  bool ex = explore();
  mc::counter("states") = n_states;
  mc::counter("transitions") = n_ops;
  mc::counter("histories") = n_hist;
  mc::counter("reader_calls") = n_reader;
  mc::counter("loads") = fp::g.reads;
  mc::counter("stores") = fp::g.writes;
  mc::counter("loads_of_constants") = fp::g.foreign_reads;
  CHECK(fp::g.reads > 0 && fp::g.writes > 0, "nothing was recorded");
  return ex;
}

int main(int argc, char** argv) {
  fp::init();
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore_all, run);
}
