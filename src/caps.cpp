// Every capacity of dense_map and node size of btree in a list (all small ones and those
// around the powers of two up to 2^16): whole fill / drain / split / transfer programs in
// every combination of orders (properties C01, C02, C09, C10).
#include "domains.hpp"
#include "mc.hpp"

#include <fast_containers/btree.hpp>
#include <fast_containers/dense_map.hpp>

#include <algorithm>
#include <memory>
#include <numeric>
#include <string>
#include <vector>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef CMP
#define CMP std::less<KEY>
#endif
using K = KEY;
using V = VAL;
using C = CMP;
constexpr bool kDesc = dom::is_descending<C>::value;
constexpr auto kMode = fc::SearchMode::MODE;

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
uint64_t n_case = 0, n_call = 0, n_full = 0;

// the i-th position of n in an order
constexpr uint32_t kOrders = 5;
size_t place(uint32_t order, size_t i, size_t n) {
  switch (order) {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i % 2 ? n - 1 - i / 2 : i / 2;
    case 3: return n % 2 ? (i % 2 ? n / 2 - 1 - i / 2 : n / 2 + i / 2)
                         : (i % 2 ? n / 2 - 1 - i / 2 : n / 2 + i / 2);
    default: {
      static size_t last_n = 0, s = 0;
      if (last_n != n) {
        last_n = n;
        s = n / 3 + 1;
        while (std::gcd(s, n) != 1) ++s;
      }
      return i * s % n;
    }
  }
}
// element r of n; gap: the key just before it
template <class K>
K key_(size_t r, size_t n, bool gap) {
  if (kDesc) r = n - (gap ? r : r + 1) + (gap ? 0 : 0);
  if constexpr (std::is_arithmetic_v<K>) {
    long long x = 2 * static_cast<long long>(r) + (gap ? 0 : 1);
    if (std::is_signed_v<K>) x -= static_cast<long long>(n);
    return static_cast<K>(x);
  } else if constexpr (std::is_enum_v<K>) {
    return static_cast<K>(2 * r + (gap ? 0 : 1));
  } else if constexpr (std::is_pointer_v<K>) {
    static std::remove_const_t<std::remove_pointer_t<K>> base[1 << 16] = {};
    return base + (2 * r + (gap ? 0 : 1));
  } else if constexpr (requires { typename K::first_type; }) {
    size_t x = 2 * r + (gap ? 0 : 1);
    return K(static_cast<typename K::first_type>(x / 7),
             static_cast<typename K::second_type>(x % 7));
  } else {
    char b[40];
    snprintf(b, sizeof b, "number %07zu", 2 * r + (gap ? 0 : 1));
    return K(b);
  }
}
K key(size_t r, size_t n, bool gap = false) { return key_<K>(r, n, gap); }
template <class V>
V val_(size_t r, uint32_t ver) {
  if constexpr (std::is_same_v<V, std::string>)
    return fmt("value %zu/%u", r, ver);
  else if constexpr (std::is_class_v<V>)
    return dom::ValDom<V>::make(static_cast<uint32_t>(r * 7 + ver));
  else
    return static_cast<V>(r * 7 + ver);
}
V val(size_t r, uint32_t ver) { return val_<V>(r, ver); }

// what is there: the elements of a range of positions, without those removed
struct Ref {
  std::vector<uint8_t> in;
  std::vector<uint32_t> ver;
  std::vector<size_t> tree;  // Fenwick
  size_t n, size = 0;
  explicit Ref(size_t n) : in(n), ver(n), tree(n + 1), n(n) {}
  void set(size_t r, bool on) {
    if (in[r] == on) return;
    in[r] = on;
    size += on ? 1 : size_t(-1);
    for (size_t i = r + 1; i <= n; i += i & -i) tree[i] += on ? 1 : size_t(-1);
  }
  size_t rank(size_t r) const {  // elements before r
    size_t s = 0;
    for (size_t i = r; i; i -= i & -i) s += tree[i];
    return s;
  }
};

template <class M>
void full(M& m, const Ref& ref, const char* what) {
  ++n_full;
  size_t i = 0, last = 0;
  size_t r = 0;
  auto it = m.begin();
  for (; it != m.end(); ++it, ++i, ++r) {
    while (r < ref.n && !ref.in[r]) ++r;
    CHECK(r < ref.n, "%s: more elements than %zu", what, ref.size);
    CHECK(it->first == key(r, ref.n) && it->second == val(r, ref.ver[r]),
          "%s: wrong element at %zu of %zu", what, i, ref.size);
    last = r;
  }
  CHECK(i == ref.size && m.size() == i && m.empty() == !i, "%s: %zu elements, size() %zu, not %zu",
        what, i, m.size(), ref.size);
  if (i) {
    --it;
    CHECK(it->first == key(last, ref.n), "%s: wrong last element", what);
  }
}

// ---- dense_map ------------------------------------------------------------------------
template <size_t N>
struct Dense {
  using M = fc::dense_map<K, V, N, C, kMode>;
  template <class MM>
  static void look(MM& m, const Ref& ref, size_t r, const char* what) {
    n_call += 6;
    const MM& c = m;
    bool in = ref.in[r];
    size_t p = ref.rank(r);
    K k = key(r, ref.n), g = key(r, ref.n, true);
    auto at = [&](auto it) { return static_cast<size_t>(it - m.begin()); };
    CHECK(at(m.find(k)) == (in ? p : ref.size), "%s: find at %zu of %zu", what, r, ref.size);
    CHECK(static_cast<size_t>(c.find(k) - c.begin()) == (in ? p : ref.size), "%s: const find", what);
    CHECK(at(m.lower_bound(k)) == p, "%s: lower_bound", what);
    CHECK(at(m.upper_bound(k)) == p + in, "%s: upper_bound", what);
    CHECK(m.find(g) == m.end(), "%s: find of a gap", what);
    CHECK(at(m.lower_bound(g)) == p && at(m.upper_bound(g)) == p, "%s: bounds of a gap", what);
  }
  static void put(M& m, Ref& ref, size_t r, uint32_t form) {
    ++n_call;
    K k = key(r, ref.n);
    uint32_t ver = form + 1;
    V v = val(r, ver);
    auto pos = m.begin();
    bool ok = true;
    switch (form % 5) {
      case 0: std::tie(pos, ok) = m.insert(k, v); break;
      case 1: std::tie(pos, ok) = m.insert_or_assign(k, v); break;
      case 2: std::tie(pos, ok) = m.try_emplace(k, v); break;
      case 3:
        m[k] = v;
        pos = m.find(k);
        break;
      default: std::tie(pos, ok) = m.insert_hint(m.lower_bound(k), k, v);
    }
    CHECK(ok, "insertion of an absent key");
    ref.set(r, true);
    ref.ver[r] = ver;
    CHECK(static_cast<size_t>(pos - m.begin()) == ref.rank(r), "place of the inserted element");
    CHECK(m.size() == ref.size && !m.empty() && m.full() == (ref.size == N),
          "size() is %zu, not %zu; full() %d", m.size(), ref.size, (int)m.full());
  }
  static void run(uint32_t order, uint32_t drain) {
    // N + 1 positions: one is always absent
    auto box = std::make_unique<M>();
    M& m = *box;
    CHECK(m.capacity() == N && m.empty() && m.size() == 0 && m.full() == (N == 0), "a new map");
    const size_t n = N + 1, hole = (order * 7 + drain * 3) % 4 * N / 3;
    Ref ref(n);
    bool big = N > 2100;
    for (size_t i = 0; i < n; ++i) {
      size_t r = place(order, i, n);
      if (r == hole) continue;
      put(m, ref, r, static_cast<uint32_t>(i));
      if (!big || i % 997 == 0 || ref.size + 3 > N) {
        look(m, ref, r, "filling");
        look(m, ref, hole, "filling");
        look(m, ref, place(order, i / 2, n), "filling");
        if (i) look(m, ref, place(order, i - 1, n), "filling");
      }
    }
    full(m, ref, "filled");
    for (size_t r = 0; r < n; r += big ? 61 : 1) look(m, ref, r, "filled");
    // no room
    auto refused = [&](auto f) {
      ++n_call;
      bool threw = false;
      try {
        f();
      } catch (const std::runtime_error&) {
        threw = true;
      }
      CHECK(threw, "insertion into a full map");
    };
    K hk = key(hole, n);
    V hv = val(hole, 1);
    refused([&] { m.insert(hk, hv); });
    refused([&] { m.insert_or_assign(hk, hv); });
    refused([&] { m.try_emplace(hk, hv); });
    refused([&] { (void)m[hk]; });
    full(m, ref, "after refusals");
    // copies
    {
      auto b = std::make_unique<M>(m);
      full(*b, ref, "copy");
      auto c = std::make_unique<M>(std::move(*b));
      full(*c, ref, "moved");
      CHECK(b->empty() && b->size() == 0, "moved-from map");
      *b = *c;
      full(*b, ref, "assigned");
      *b = std::move(*c);
      full(*b, ref, "move-assigned");
      CHECK(c->empty(), "moved-from map");
      b->clear();
      CHECK(b->empty() && b->begin() == b->end(), "cleared map");
    }
    // split and put together
    for (size_t at : {size_t(0), size_t(1), N / 2, N - 1, N}) {
      if (at > N) continue;
      auto out = std::make_unique<M>();
      m.split_at(m.begin() + static_cast<std::ptrdiff_t>(at), *out);
      n_call += 2;
      CHECK(m.size() == at && out->size() == N - at, "split at %zu: %zu and %zu", at, m.size(),
            out->size());
      if (at) CHECK((m.end() - 1)->second == val(at - 1 < hole ? at - 1 : at, ref.ver[at - 1 < hole ? at - 1 : at]), "split");
      if (at % 2) {
        size_t k = out->size() / 2;
        m.transfer_prefix_from(*out, k);
        CHECK(m.size() == at + k && out->size() == N - at - k, "prefix");
        m.transfer_prefix_from(*out, out->size());
      } else {
        size_t k = m.size() / 2;
        out->transfer_suffix_from(m, k);
        CHECK(m.size() == at - k && out->size() == N - at + k, "suffix");
        out->transfer_suffix_from(m, m.size());
        m.transfer_prefix_from(*out, N);
      }
      CHECK(out->empty(), "everything transferred");
      full(m, ref, "put together");
    }
    if constexpr (N < 3000) {  // to and from another capacity
      using O = fc::dense_map<K, V, N + 7, C, kMode>;
      auto o = std::make_unique<O>();
      m.split_at(m.begin(), *o);
      full(*o, ref, "moved to a larger map");
      CHECK(m.empty() && !o->full() && o->capacity() == N + 7, "moved to a larger map");
      m.transfer_suffix_from(*o, N);
      full(m, ref, "and back");
    }
    for (size_t i = 0; i < n; ++i) {
      size_t r = place(drain, i, n);
      if (r == hole) continue;
      ++n_call;
      if (i % 2) {
        CHECK(m.erase(key(r, n)) == 1, "erase of a present key");
      } else {
        auto it = m.erase(m.find(key(r, n)));
        CHECK(static_cast<size_t>(it - m.begin()) == ref.rank(r), "erase gives the next");
      }
      ref.set(r, false);
      CHECK(m.size() == ref.size && m.empty() == !ref.size && !m.full(), "size() is %zu, not %zu",
            m.size(), ref.size);
      if (!big || i % 997 == 0 || ref.size < 3) {
        look(m, ref, r, "draining");
        look(m, ref, place(drain, i + 1 < n ? i + 1 : i, n), "draining");
        look(m, ref, place(drain, n - 1, n), "draining");
      }
      if (ref.size % (big ? 16384 : 61) == 0) full(m, ref, "draining");
    }
    full(m, ref, "drained");
  }
};

// ---- btree ----------------------------------------------------------------------------
template <size_t LN, size_t IN>
struct Trees {
  using T = fc::btree<K, V, LN, IN, C, kMode>;
  // Erasing along an iteration of a copy (every element, all but each second or third, from the
  // middle, backwards), and ranges; the tree holds every rank below n.
  static void walk_erasing(const T& from, const Ref& all, size_t n, uint32_t how) {
    T t(from);
    Ref ref = all;
    auto at = [&](typename T::iterator it, size_t r) {
      CHECK((it == t.end()) == (r == n), "erasing along: rank %zu of %zu", r, n);
      if (r < n) CHECK(it->first == key(r, n) && it->second == val(r, 1), "erasing along: rank %zu", r);
    };
    auto range = [&](size_t a, size_t b) {
      ++n_call;
      auto it = t.erase(t.lower_bound(key(a, n)), b < n ? t.lower_bound(key(b, n)) : t.end());
      for (size_t r = a; r < b; ++r)
        if (ref.in[r]) ref.set(r, false);
      while (b < n && !ref.in[b]) ++b;
      at(it, b);
    };
    size_t keep = how < 3 ? how + 1 : 0;  // 1: keep none
    if (keep) {
      auto it = t.begin();
      for (size_t r = 0; r < n; ++r) {
        ++n_call;
        if (keep > 1 && r % keep == 0) {
          ++it;
        } else {
          it = t.erase(it);
          ref.set(r, false);
        }
        at(it, r + 1);
      }
    } else if (how == 3) {
      auto it = t.end();
      for (size_t r = n; r-- > LN / 2;) {
        ++n_call;
        it = t.erase(--it);
        ref.set(r, false);
        CHECK(it == t.end(), "erasing the last gives end()");
      }
    } else {
      auto it = t.find(key(n / 2, n));
      for (size_t r = n / 2; r < n - 3; ++r) {
        ++n_call;
        it = t.erase(it);
        ref.set(r, false);
        at(it, r + 1);
      }
      range(LN / 3, LN / 3 + LN);
      range(0, LN);
    }
    full(t, ref, "erased along");
    range(n / 3, n / 3 + LN + LN / 2);
    full(t, ref, "range erased");
    range(n / 4, n - 2);
    full(t, ref, "range erased");
    range(0, n);
    full(t, ref, "range erased");
  }
  static void run(uint32_t order, uint32_t drain) {
    size_t n = std::min<size_t>(LN * (IN + 2), LN > 4000 ? LN * 3 : IN > 4000 ? IN * 5 : 9000);
    if (n < LN + 50) n = LN + 50;
    if (LN > 200 && IN > 200) n = LN * IN + LN;
    auto box = std::make_unique<T>();
    T& t = *box;
    Ref ref(n);
    auto look = [&](size_t r, const char* what) {
      n_call += 5;
      bool in = ref.in[r];
      K k = key(r, n), g = key(r, n, true);
      auto f = t.find(k);
      CHECK((f != t.end()) == in, "%s: find %zu of %zu", what, r, ref.size);
      if (in) CHECK(f->first == k && f->second == val(r, ref.ver[r]), "%s: find", what);
      auto l = t.lower_bound(k), u = t.upper_bound(k), a = t.lower_bound(g), b = t.upper_bound(g);
      CHECK(a == l && b == l, "%s: bounds of a gap", what);
      CHECK(t.find(g) == t.end() && !t.contains(g), "%s: find of a gap", what);
      if (in) {
        CHECK(l == f, "%s: lower_bound", what);
        ++f;
        CHECK(u == f, "%s: upper_bound", what);
      } else {
        CHECK(u == l, "%s: upper_bound of an absent key", what);
        size_t p = ref.rank(r);
        CHECK((l == t.end()) == (p == ref.size), "%s: lower_bound", what);
        if (l != t.end()) CHECK(!C()(l->first, k), "%s: lower_bound", what);
        if (p) {
          --l;
          CHECK(C()(l->first, k), "%s: lower_bound", what);
        }
      }
    };
    for (size_t i = 0; i < n; ++i) {
      size_t r = place(order, i, n);
      ++n_call;
      auto [it, ok] = i % 2 ? t.insert(key(r, n), val(r, 1)) : t.try_emplace(key(r, n), val(r, 1));
      CHECK(ok && it->first == key(r, n) && it->second == val(r, 1), "insertion");
      ref.set(r, true);
      ref.ver[r] = 1;
      CHECK(t.size() == ref.size, "size() is %zu, not %zu", t.size(), ref.size);
      if (i % 13 == 0 || i < 20) look(r, "building"), look(place(order, i / 2, n), "building");
      size_t near = ref.size % LN;
      if ((near < 2 || near + 1 == LN) && (n > 20000 ? i % (n / 40) < 2 : i < 3 * LN || i % 21 == 0))
        full(t, ref, "building");
    }
    full(t, ref, "built");
    for (size_t r = 0; r < n; r += n > 20000 ? 13 : 1) look(r, "built");
    {
      T c(t);
      full(c, ref, "copy");
      T d(std::move(c));
      full(d, ref, "moved");
      CHECK(c.empty() && c.begin() == c.end(), "moved-from tree");
    }
    if (n <= 20000 || order != drain) walk_erasing(t, ref, n, drain);
    for (size_t i = 0; i < n; ++i) {
      size_t r = place(drain, i, n);
      ++n_call;
      if (i % 2) {
        CHECK(t.erase(key(r, n)) == 1, "erase of a present key");
        ref.set(r, false);
      } else {
        auto it = t.find(key(r, n));
        CHECK(it != t.end(), "find before erase");
        it = t.erase(it);
        ref.set(r, false);
        CHECK(it == t.upper_bound(key(r, n)), "erase gives the next");
      }
      CHECK(t.size() == ref.size, "size() is %zu, not %zu", t.size(), ref.size);
      if (i % 13 == 0 || ref.size < 20)
        look(r, "draining"), look(place(drain, n - 1 - (n - i) / 2, n), "draining");
      size_t near = ref.size % (LN / 2);
      if ((near < 2 || near + 2 > LN / 2) && (n > 20000 ? i % (n / 40) < 2 : ref.size < 3 * LN || i % 21 == 0))
        full(t, ref, "draining");
    }
    full(t, ref, "drained");
  }
};

using Fn = void (*)(uint32_t, uint32_t);
struct Entry {
  const char* name;
  Fn fn;
  bool huge;
};
#ifdef TREES
#define X(L, I) Entry{#L " x " #I, &Trees<L, I>::run, (L) > 4000 || (I) > 4000},
#else
#define X(N) Entry{#N, &Dense<N>::run, (N) > 4000},
#endif
const Entry table[] = {LIST};

void run_case(const Words& w) {
  mc::current = w;
  mc::begin_case(w);
  ++n_case;
  table[w.at(0)].fn(w.at(1), w.at(2));
}
bool explore() {
  double t0 = mc::now_s(), budget = mc::time_budget();
  for (uint32_t i = 0; i < std::size(table); ++i)
    for (uint32_t o = 0; o < kOrders; ++o)
      for (uint32_t d = 0; d < kOrders; ++d) {
        if (table[i].huge && !par.get("deep", 0) && (o > 1 || d > 1 || o == d)) continue;
        if (mc::now_s() - t0 > budget) return false;
        run_case({i, o, d});
      }
  mc::counter("states") = n_full;
  mc::counter("transitions") = n_call;
  mc::counter("histories") = n_case;
  mc::samples.push_back(fmt("node size or capacity %s: %u build orders x %u drain orders",
                            table[std::size(table) / 2].name, kOrders, kOrders));
  return true;
}
int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, run_case);
}
