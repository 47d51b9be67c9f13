// Exhaustive comparison of the search modes of dense_map: every window of consecutive
// (or strided) keys of a universe, every length up to the capacity, every kind of stale
// slot behind the end, every query of the universe; Binary, Linear and SIMD, std::less
// and std::greater, against positions computed with the comparator.
#include <fast_containers/btree.hpp>
#include <fast_containers/dense_map.hpp>

#include <algorithm>
#include <bit>
#include <cmath>
#include <limits>
#include <optional>
#include <utility>

#include "mc.hpp"

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef KEY
#define KEY int32_t
#endif
using K = KEY;
#ifndef CAP
#define CAP 72
#endif

template <size_t N>
struct UintOf;
template <>
struct UintOf<1> { using type = uint8_t; };
template <>
struct UintOf<2> { using type = uint16_t; };
template <>
struct UintOf<4> { using type = uint32_t; };
template <>
struct UintOf<8> { using type = uint64_t; };
using U = UintOf<sizeof(K)>::type;
using V = U;  // the values lie behind the keys: patterns that look like keys

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
uint64_t n_queries = 0, n_contents = 0, n_builds = 0;
double t0, budget;

// ---- universes: sorted by <, no two equivalent -------------------------------------
template <class K, class U>
std::vector<K> boundary_values_() {
  std::vector<K> u;
  using L = std::numeric_limits<K>;
  if constexpr (std::is_floating_point_v<K>) {
    std::vector<K> pos{L::denorm_min(), L::denorm_min() * 2, L::min() - L::denorm_min(),
                       L::min(), std::nextafter(L::min(), K(1)), L::epsilon(),
                       std::nextafter(K(1), K(0)), K(1), std::nextafter(K(1), K(2)),
                       K(1.5), K(2), K(3), L::max(), std::nextafter(L::max(), K(0)),
                       L::infinity()};
    for (int e = -20; e <= 20; ++e) pos.push_back(std::ldexp(K(1), e));
    for (int e : {-100, -64, -63, -33, -32, -31, 31, 32, 33, 63, 64, 100})
      pos.push_back(std::ldexp(K(1), e));
    for (uint64_t b : {0x00ffffffull, 0x7f000000ull, 0x7f7f7f7full, 0x00800001ull})
      pos.push_back(std::bit_cast<K>(static_cast<U>(b)));
    for (K p : pos) {
      if (p != p) continue;
      u.push_back(p);
      u.push_back(-p);
    }
    u.push_back(K(0));
  } else {
    constexpr int B = sizeof(K) * 8;
    for (int b = 0; b < B; ++b)
      for (int d = -1; d <= 1; ++d) {
        U x = static_cast<U>((U(1) << b) + static_cast<U>(d));
        u.push_back(static_cast<K>(x));
        u.push_back(static_cast<K>(static_cast<U>(0) - x));
      }
    for (U x : {U(0), U(0x5a), U(0xa5), static_cast<U>(0x5a5a5a5a5a5a5a5aull),
                static_cast<U>(0xa5a5a5a5a5a5a5a5ull)})
      u.push_back(static_cast<K>(x));
    u.push_back(L::min());
    u.push_back(L::max());
  }
  std::sort(u.begin(), u.end());
  u.erase(std::unique(u.begin(), u.end()), u.end());
  return u;
}
// values whose differences and narrowed copies collide: multiples of powers of two plus
// a little, and for floats values that differ in their last bits or fractions only
template <class K, class U>
std::vector<K> scale_values_(uint32_t d) {
  std::vector<K> u;
  if constexpr (std::is_floating_point_v<K>) {
    using L = std::numeric_limits<K>;
    for (K p : {L::denorm_min(), L::min(), K(0.25), K(0.5), std::nextafter(K(1), K(0)), K(1),
                std::nextafter(K(1), K(2)), K(1.25), K(1.5), K(2), K(2.5), K(16777216),
                std::nextafter(K(16777216), K(2e9)), K(4294967296.), K(4294967297.5),
                K(9007199254740992.), K(9223372036854775808.), L::max(), L::infinity()}) {
      if (d < 3 && (p == K(0.5) || p == K(1.25) || p == K(2.5) || p == K(1.5))) continue;
      u.push_back(p);
      u.push_back(-p);
    }
    u.push_back(K(0));
  } else {
    constexpr unsigned B = sizeof(K) * 8;
    std::vector<U> bases{0, static_cast<U>(U(1) << (B - 1))};
    for (unsigned b : {8u, 16u, 32u})
      if (b < B) {
        bases.push_back(static_cast<U>(U(1) << b));
        bases.push_back(static_cast<U>(U(0) - (U(1) << b)));
        if (d >= 3) bases.push_back(static_cast<U>(U(3) << (b - 1)));
      }
    for (U b : bases)
      for (uint32_t i = 0; i <= d; ++i) u.push_back(static_cast<K>(static_cast<U>(b + i)));
    for (uint32_t i = 1; i <= d; ++i) u.push_back(static_cast<K>(static_cast<U>(U(0) - i)));
    u.push_back(std::numeric_limits<K>::max());
  }
  std::sort(u.begin(), u.end());
  u.erase(std::unique(u.begin(), u.end()), u.end());
  return u;
}
std::vector<K> boundary_values() { return boundary_values_<K, U>(); }
// n consecutive keys from base
template <class K, class U>
std::vector<K> dense_values(long long base, long n) {
  std::vector<K> u;
  if constexpr (std::is_floating_point_v<K>) {
    for (long i = 0; i < n; ++i) {
      long long x = base + i;  // x-th float counted from zero
      K v = std::bit_cast<K>(static_cast<U>(x < 0 ? -x : x));
      u.push_back(x < 0 ? -v : v);
    }
  } else {
    for (long i = 0; i < n; ++i) {
      __int128 x = static_cast<__int128>(base) + i;
      if (x < static_cast<__int128>(std::numeric_limits<K>::min()) ||
          x > static_cast<__int128>(std::numeric_limits<K>::max()))
        continue;
      u.push_back(static_cast<K>(x));
    }
  }
  return u;
}

template <class C, fc::SearchMode SM>
using Map = fc::dense_map<K, V, CAP, C, SM>;

constexpr V kLow = static_cast<V>(std::bit_cast<U>(std::numeric_limits<K>::lowest()));
constexpr V kHigh = static_cast<V>(std::bit_cast<U>(std::numeric_limits<K>::max()));

// content: keys in comparator order; stale: 0 fresh, 1 slots behind hold large keys,
// 2 slots behind hold small keys, 3 they hold keys equal to the last element's
template <class C, fc::SearchMode SM>
struct Sub {
  using M = Map<C, SM>;
  std::optional<M> m;
  void build(const std::vector<K>& keys, int stale, const std::vector<K>& u) {
    ++n_builds;
    m.emplace();
    V val = stale == 1 ? kHigh : stale == 2 ? kLow : stale == 3 ? V(0) : V(0x11);
    C c;
    if (stale == 1 || stale == 2) {
      bool asc = c(K(0), K(1));
      // universe keys, from the end that is wanted
      for (size_t i = 0; i < CAP && i < u.size(); ++i)
        m->insert((stale == 1) == asc ? u[u.size() - 1 - i] : u[i], val);
      while (m->size()) {
        if (stale == 1)
          m->erase(m->end() - 1);
        else
          m->erase(m->begin());
      }
    } else if (stale == 3 && !keys.empty()) {
      // fill behind with keys right of the content, then erase them
      for (const K& k : keys) m->insert(k, val);
      while (m->size()) m->erase(m->begin());
    }
    for (const K& k : keys) {
      auto [it, ins] = m->insert(k, val);
      CHECK(ins && static_cast<size_t>(it - m->begin()) + 1 == m->size(),
            "insertion of an increasing key goes to the end");
    }
    CHECK(m->size() == keys.size(), "size after building");
  }
  // NaN-free query
  void query(const std::vector<K>& keys, const K& q, size_t lo, size_t hi,
             const char* mode) {
    ++n_queries;
    const M& cm = *m;
    M& mm = *m;
    size_t n = keys.size();
    auto P = [&](auto it) { return static_cast<size_t>(it - mm.begin()); };
    auto CP = [&](auto it) { return static_cast<size_t>(it - cm.begin()); };
    size_t l1 = P(mm.lower_bound(q)), l2 = CP(cm.lower_bound(q));
    CHECK(l1 == lo && l2 == lo, "%s lower_bound at %zu/%zu of %zu, expected %zu", mode,
          l1, l2, n, lo);
    size_t u1 = P(mm.upper_bound(q)), u2 = CP(cm.upper_bound(q));
    CHECK(u1 == hi && u2 == hi, "%s upper_bound at %zu/%zu of %zu, expected %zu", mode,
          u1, u2, n, hi);
    size_t f1 = P(mm.find(q)), f2 = CP(cm.find(q)), fe = hi > lo ? lo : n;
    CHECK(f1 == fe && f2 == fe, "%s find at %zu/%zu of %zu, expected %zu", mode, f1, f2,
          n, fe);
  }
  void modify(const K& q, size_t lo, size_t hi, const char* mode) {
    // a modification goes through the same search
    if (m->size() == CAP) {
      if (hi == lo) CHECK(m->erase(q) == 0, "%s erase of an absent key", mode);
    } else if (hi > lo) {
      auto r = m->insert(q, V(3));
      CHECK(!r.second && static_cast<size_t>(r.first - m->begin()) == lo,
            "%s insert of a present key", mode);
    } else {
      auto r = m->insert(q, V(3));
      CHECK(r.second && static_cast<size_t>(r.first - m->begin()) == lo,
            "%s insert of an absent key", mode);
      size_t n = m->erase(q);
      CHECK(n == 1, "%s erase of the key inserted", mode);
    }
  }
};

template <class C>
struct All {
  Sub<C, fc::SearchMode::Binary> b;
  Sub<C, fc::SearchMode::Linear> l;
  Sub<C, fc::SearchMode::SIMD> s;
  // queries u[q0..q1); u is in comparator order, as is keys
  void run(const std::vector<K>& keys, int stale, const std::vector<K>& u, size_t q0,
           size_t q1, bool mods) {
    ++n_contents;
    b.build(keys, stale, u);
    l.build(keys, stale, u);
    s.build(keys, stale, u);
    C c;
    size_t lo = 0, hi = 0;
    for (size_t i = q0; i < q1; ++i) {
      K q = u[i];
      for (int z = 0; z < 2; ++z) {
        while (lo < keys.size() && c(keys[lo], q)) ++lo;
        if (hi < lo) hi = lo;
        while (hi < keys.size() && !c(q, keys[hi])) ++hi;
        b.query(keys, q, lo, hi, "Binary");
        l.query(keys, q, lo, hi, "Linear");
        s.query(keys, q, lo, hi, "SIMD");
        if (mods && (i + z) % 3 == 0) {
          b.modify(q, lo, hi, "Binary");
          l.modify(q, lo, hi, "Linear");
          s.modify(q, lo, hi, "SIMD");
        }
        if (q != K(0) || !std::is_floating_point_v<K>) break;
        q = -q;  // the other zero
      }
    }
  }
};
All<std::less<K>> g_less;
All<std::greater<K>> g_greater;

// ---- the same searches inside a tree -------------------------------------------------
template <class C, fc::SearchMode SM>
void tree_case(const std::vector<K>& keys, const std::vector<K>& u, uint32_t order) {
  using Tree = fc::btree<K, V, 16, 12, C, SM>;
  Tree t;
  ++n_builds;
  size_t n = keys.size();
  for (size_t i = 0; i < n; ++i) {
    size_t j = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n;
    if (order == 2 && n % 7 == 0) j = (i * 11 + i / 7) % n;
    t.insert(keys[j], static_cast<V>(j));
  }
  for (size_t i = 0; i < n; ++i) t.insert(keys[i], static_cast<V>(i));
  std::vector<std::pair<K, V>> ref;
  for (size_t i = 0; i < n; ++i) ref.emplace_back(keys[i], 0);
  C c;
  for (int round = 0; round < 3; ++round) {
    CHECK(t.size() == ref.size(), "size of the tree");
    size_t i = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++i)
      CHECK(i < ref.size() && it->first == ref[i].first, "order of the tree at %zu", i);
    for (size_t qi = 0; qi < u.size(); ++qi) {
      K q = u[qi];
      for (int z = 0; z < 2; ++z) {
        ++n_queries;
        auto lo = std::partition_point(ref.begin(), ref.end(),
                                       [&](auto& x) { return c(x.first, q); });
        auto hi = std::partition_point(lo, ref.end(),
                                       [&](auto& x) { return !c(q, x.first); });
        auto l = t.lower_bound(q);
        CHECK(lo == ref.end() ? l == t.end() : l != t.end() && l->first == lo->first,
              "lower_bound in the tree");
        auto h = t.upper_bound(q);
        CHECK(hi == ref.end() ? h == t.end() : h != t.end() && h->first == hi->first,
              "upper_bound in the tree");
        auto f = t.find(q);
        CHECK((f != t.end()) == (hi != lo) && (hi == lo || f->first == lo->first),
              "find in the tree");
        const Tree& ct = t;
        CHECK(ct.contains(q) == (hi != lo) && ct.count(q) == (hi != lo ? 1u : 0u),
              "contains in the tree");
        if (q != K(0) || !std::is_floating_point_v<K>) break;
        q = -q;
      }
    }
    // erase, through the same searches
    std::vector<std::pair<K, V>> keep;
    for (size_t j = 0; j < ref.size(); ++j)
      if (j % 3 == 1 || (round == 1 && j % 2)) {
        CHECK(t.erase(ref[j].first) == 1, "erase of a present key");
        CHECK(t.erase(ref[j].first) == 0, "erase of an erased key");
      } else {
        keep.push_back(ref[j]);
      }
    ref = keep;
  }
}

// universes by number; cached
std::vector<K> cur_u[2];
uint32_t cur_id = ~0u, cur_a = 0, cur_n = 0;
constexpr uint32_t U_BOUNDARY = 0, U_DENSE = 1, U_ZERO = 2, U_SCALE = 3;
template <class K, class U>
void load_universe_(uint32_t id, uint32_t base_idx, uint32_t n) {
  if (cur_id == id && cur_a == base_idx && cur_n == n) return;
  cur_id = id;
  cur_a = base_idx;
  cur_n = n;
  std::vector<K>& u = cur_u[0];
  if (id == U_BOUNDARY) {
    u = boundary_values();
  } else if (id == U_SCALE) {
    u = scale_values_<K, U>(n);
  } else {
    std::vector<K> bv = boundary_values_<K, U>();
    long long base = 0;
    if constexpr (sizeof(K) == 1 && !std::is_floating_point_v<K>) {
      base = std::numeric_limits<K>::min();
      n = 256;
    } else if constexpr (sizeof(K) == 2) {
      base = static_cast<long long>(std::numeric_limits<K>::min()) + base_idx;
    } else if constexpr (std::is_floating_point_v<K>) {
      K x = bv.at(base_idx);
      U mag = std::bit_cast<U>(x < 0 ? -x : x);
      base = x < 0 ? -static_cast<long long>(mag) : static_cast<long long>(mag);
      base -= n / 2;
    } else if constexpr (std::is_same_v<K, uint64_t>) {
      u.clear();
      K x = bv.at(base_idx);
      for (uint32_t i = 0; i < n; ++i) {
        __int128 y = static_cast<__int128>(x) - n / 2 + i;
        if (y >= 0 && y <= static_cast<__int128>(~0ull)) u.push_back(static_cast<K>(y));
      }
      cur_u[1] = u;
      std::reverse(cur_u[1].begin(), cur_u[1].end());
      return;
    } else {
      __int128 x = static_cast<__int128>(bv.at(base_idx)) - n / 2;
      if (x < std::numeric_limits<long long>::min()) x = std::numeric_limits<long long>::min();
      base = static_cast<long long>(x);
    }
    u = dense_values<K, U>(base, n);
    if constexpr (std::is_floating_point_v<K>) {
      // stop at the infinities
      std::vector<K> v;
      for (K x : u)
        if (x == x && !(std::isinf(x) && !v.empty() && v.back() == x)) v.push_back(x);
      u = v;
    }
  }
  cur_u[1] = u;
  std::reverse(cur_u[1].begin(), cur_u[1].end());
}

void load_universe(uint32_t id, uint32_t b, uint32_t n) { load_universe_<K, U>(id, b, n); }

// case: universe, base index, universe size, greater, kind (stride, 0 = subset), start
// or mask, length, stale
void run_case(const Words& w) {
  mc::current = w;
  mc::begin_case(w);
  load_universe(w.at(0), w.at(1), w.at(2));
  bool gr = w.at(3);
  auto& u = cur_u[gr];
  std::vector<K> keys;
  if (w.at(4) >= 100) {  // tree: stride - 100, start, -, order
    for (size_t j = w.at(5); j < u.size(); j += w.at(4) - 100) keys.push_back(u[j]);
    ++n_contents;
    auto go = [&]<class C>() {
      tree_case<C, fc::SearchMode::Binary>(keys, u, w.at(7));
      tree_case<C, fc::SearchMode::Linear>(keys, u, w.at(7));
      tree_case<C, fc::SearchMode::SIMD>(keys, u, w.at(7));
    };
    if (gr)
      go.template operator()<std::greater<K>>();
    else
      go.template operator()<std::less<K>>();
    return;
  }
  size_t q0 = 0, q1 = u.size();
  if (w.at(4) == 99) {  // these keys of the universe
    for (size_t i = 0; i < w.at(6); ++i)
      keys.push_back(u.at(w.at(5 + i / 4 * 5) >> (i % 4 * 8) & 255));
  } else if (w.at(4) == 0) {
    // subset of 12 values spread over the universe (both ends included)
    size_t m = 12;
    for (size_t i = 0; i < m; ++i)
      if (w.at(5) >> i & 1) keys.push_back(u.at(i * (u.size() - 1) / (m - 1)));
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    if (keys.size() > CAP) return;
  } else {
    for (size_t i = 0; i < w.at(6); ++i) {
      size_t j = w.at(5) + i * w.at(4);
      if (j >= u.size()) break;
      keys.push_back(u[j]);
    }
  }
  if (w.at(4) != 99 && w.size() > 9) {  // restrict the queries
    q0 = std::min<size_t>(w[8], u.size());
    q1 = std::min<size_t>(w[9], u.size());
  }
  if (gr)
    g_greater.run(keys, w.at(7), u, q0, q1, true);
  else
    g_less.run(keys, w.at(7), u, q0, q1, true);
}

bool explore() {
  t0 = mc::now_s();
  budget = mc::time_budget();
  bool ex = true;
  uint64_t turn = 0;
  uint32_t maxlen = static_cast<uint32_t>(par.get("maxlen", CAP));
  long every = par.get("stale_all", 0);
  auto windows = [&](uint32_t id, uint32_t bi, uint32_t n, uint32_t stride, uint32_t step,
                     uint32_t lstep) {
    load_universe(id, bi, n);
    uint32_t sz = static_cast<uint32_t>(cur_u[0].size());
    for (uint32_t gr = 0; gr < 2; ++gr)
      for (uint32_t len = 0; len <= maxlen; len += (len < 20 ? 1 : lstep))
        for (uint32_t s = 0; s < sz; s += step) {
          if (len == 0 && s) break;
          if (len > 1 && s + (len - 1) * stride >= sz) break;
          if (mc::now_s() - t0 > budget) {
            ex = false;
            return;
          }
          if (every)
            for (uint32_t st = 0; st < 4; ++st) run_case({id, bi, n, gr, stride, s, len, st});
          else
            run_case({id, bi, n, gr, stride, s, len, static_cast<uint32_t>(turn++ % 4)});
        }
  };
  uint32_t step = static_cast<uint32_t>(par.get("step", 1));
  if (par.get("lengths", 0)) {  // lengths around the multiples of a vector, large ones too
    for (uint32_t gr = 0; gr < 2; ++gr)
      for (uint32_t len = 0; len <= CAP; ++len) {
        uint32_t m = len % (len > 200 ? 32 : 64);
        if (m > 2 && m < 30 && len + 2 < CAP) continue;
        for (uint32_t stride = 1; stride <= 2; ++stride)
          for (uint32_t s = 0; s < 3; ++s) {
            uint32_t n = sizeof(K) == 1 ? 256 : 2 * CAP + 3;
            if (len && s + (len - 1) * stride >= n) continue;
            if (mc::now_s() - t0 > budget) return false;
            // below, around and above the middle of a type
            for (uint32_t b : {0u, 1u, 2u}) {
              if (sizeof(K) == 1 && b) continue;
              uint32_t bi = sizeof(K) == 1 ? 0
                            : sizeof(K) == 2
                                ? (b == 0 ? 0 : b == 1 ? 32768 - n / 2 : 65536 - n)
                            : b == 0 ? 0
                            : b == 1 ? (uint32_t)boundary_values().size() / 2
                                     : (uint32_t)boundary_values().size() - 1;
              run_case({U_DENSE, bi, n, gr, stride, s, len,
                        static_cast<uint32_t>(turn++ % 4)});
            }
          }
      }
    mc::counter("states") = n_contents;
    mc::counter("transitions") = n_queries;
    mc::counter("histories") = n_builds;
    return ex;
  }
  if (long most = par.get("scale", 0)) {
    // every set of up to `most` (at most 8) keys of the scale universe, every query
    uint32_t d = static_cast<uint32_t>(par.get("near", 2));
    load_universe(U_SCALE, 0, d);
    uint32_t sz = static_cast<uint32_t>(cur_u[0].size());
    CHECK(sz < 256, "universe too large");
    for (uint32_t gr = 0; gr < 2; ++gr)
      for (uint32_t stride = 1; stride <= 5 && par.get("tree", 0); ++stride)
        for (uint32_t s = 0; s < stride; ++s)
          for (uint32_t order = 0; order < 3; ++order)
            run_case({U_SCALE, 0, d, gr, 100 + stride, s, 0, order});
    std::vector<uint32_t> pick;
    auto rec = [&](auto& self, uint32_t gr, uint32_t from) -> void {
      if (!pick.empty()) {
        if ((turn & 255) == 0 && mc::now_s() - t0 > budget) {
          ex = false;
          return;
        }
        Words w{U_SCALE, 0, d, gr, 99, 0, static_cast<uint32_t>(pick.size()),
                static_cast<uint32_t>(turn++ % 4), 0, 0, 0};
        for (size_t i = 0; i < pick.size(); ++i) w[5 + i / 4 * 5] |= pick[i] << (i % 4 * 8);
        run_case(w);
      }
      if (pick.size() == static_cast<size_t>(most)) return;
      for (uint32_t i = from; i < sz && ex; ++i) {
        pick.push_back(i);
        self(self, gr, i + 1);
        pick.pop_back();
      }
    };
    for (uint32_t gr = 0; gr < 2; ++gr) rec(rec, gr, 0);
    mc::counter("states") = n_contents;
    mc::counter("transitions") = n_queries;
    mc::counter("histories") = n_builds;
    mc::samples.push_back(fmt("every set of up to %ld of %u keys", most, sz));
    return ex;
  }
  windows(U_BOUNDARY, 0, 0, 1, step, 1);
  windows(U_BOUNDARY, 0, 0, 2, step, 1);
  if (par.get("tree", 0))
    for (uint32_t id : {U_BOUNDARY, U_DENSE})
      for (uint32_t n : {60u, 256u, 600u})
        for (uint32_t gr = 0; gr < 2; ++gr)
          for (uint32_t stride = 1; stride <= 3; ++stride)
            for (uint32_t s = 0; s < 2; ++s)
              for (uint32_t order = 0; order < 3; ++order)
                for (uint32_t b : {0u, 1u, 2u}) {
                  if ((id == U_BOUNDARY || sizeof(K) == 1) && (b || n != 256)) continue;
                  uint32_t bi = sizeof(K) == 2 ? 32768 * b - (b ? 100 : 0) - (b == 2 ? n : 0)
                                : b == 0 ? 0
                                : b == 1 ? (uint32_t)boundary_values().size() / 2
                                         : (uint32_t)boundary_values().size() - 1;
                  run_case({id, bi, n, gr, 100 + stride, s, 0, order});
                }
  if (par.get("subsets", 0))
    for (uint32_t gr = 0; gr < 2; ++gr)
      for (uint32_t m = 0; m < 4096; ++m)
        run_case({U_BOUNDARY, 0, 0, gr, 0, m, 0, m % 4});
  if (sizeof(K) == 1) {
    for (uint32_t st : {1u, 2u, 3u}) windows(U_DENSE, 0, 256, st, step, 1);
  } else if (sizeof(K) == 2) {
    long bs = par.get("bases", 0);
    std::vector<uint32_t> bases{0, 1, 32768 - 60, 32768 - 40, 32768 + 200, 65536 - 110,
                                65536 - 81, 256 - 40, 32768 - 256 - 40, 32768 + 256 - 40};
    if (bs)
      for (uint32_t b = 0; b < 65536; b += bs) bases.push_back(b);
    for (uint32_t b : bases) windows(U_DENSE, b, 110, 1, step * 5, 1);
  } else {
    long bs = par.get("bases", 6);
    for (uint32_t b = 0; b < boundary_values().size(); b += bs)
      windows(U_DENSE, b, 90, 1, step * 7, 3);
  }
  mc::counter("states") = n_contents;
  mc::counter("transitions") = n_queries;
  mc::counter("histories") = n_builds;
  mc::samples.push_back(fmt("capacity %d, last content: universe %u of %zu keys, start %u, "
                            "%u keys; all queries in the three modes",
                            CAP, mc::current[0], cur_u[0].size(), mc::current[5],
                            mc::current[6]));
  return ex;
}

int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, run_case);
}
