// Node sizes chosen by default, for every key and value size; trees with every default
// (property C24).
#include "domains.hpp"
#include "mc.hpp"
#include "track.hpp"

#include <fast_containers/btree.hpp>

#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <vector>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef MAXSIZE
#define MAXSIZE 2100
#endif
#ifndef GRID
#define GRID 40
#endif

uint64_t n_type = 0, n_call = 0, n_case = 0;

template <size_t N>
struct Bytes {
  unsigned char b[N];
};

// The documented rule: how many entries fit the budget, the nearest multiple of 8, within
// [least, 64].  Found by trying every multiple of 8, not by the formula of the code.
size_t rule(size_t budget, size_t entry, size_t least) {
  size_t fit = 0;
  while ((fit + 1) * entry <= budget) ++fit;
  size_t best = 0;
  for (size_t m = 8; m <= budget + 8; m += 8) {
    size_t a = m > fit ? m - fit : fit - m, b = best > fit ? best - fit : fit - best;
    if (a <= b) best = m;  // halves go up
  }
  return std::min<size_t>(64, std::max(best, least));
}

void check_leaf(size_t kn, size_t vn, size_t got) {
  ++n_type;
  size_t want = rule(2048, kn + vn, 8);
  CHECK(got == want, "leaf nodes of %zu-byte keys and %zu-byte values have %zu entries, not %zu",
        kn, vn, got, want);
}
void check_internal(size_t kn, size_t got) {
  ++n_type;
  size_t want = rule(1024, kn + sizeof(void*), 16);
  CHECK(got == want, "internal nodes of %zu-byte keys have %zu entries, not %zu", kn, got, want);
}
template <size_t K, size_t V>
const size_t leaf_of = fc::default_leaf_node_size<Bytes<K>, Bytes<V>>();
template <size_t K>
const size_t internal_of = fc::default_internal_node_size<Bytes<K>>();
template <size_t... I>
void all_sizes(std::index_sequence<I...>) {
  const size_t by_value[] = {leaf_of<1, I + 1>...};
  const size_t by_key[] = {leaf_of<I + 1, 24>...};
  const size_t inner[] = {internal_of<I + 1>...};
  for (size_t i = 0; i < sizeof...(I); ++i) {
    check_leaf(1, i + 1, by_value[i]);
    check_leaf(i + 1, 24, by_key[i]);
    check_internal(i + 1, inner[i]);
  }
}
template <size_t... I>
void grid(std::index_sequence<I...>) {
  const size_t both[] = {leaf_of<I / GRID + 1, I % GRID + 1>...};
  for (size_t i = 0; i < sizeof...(I); ++i) check_leaf(i / GRID + 1, i % GRID + 1, both[i]);
}
void sizes() {
  all_sizes(std::make_index_sequence<MAXSIZE>{});
  grid(std::make_index_sequence<size_t{GRID} * GRID>{});
  check_leaf(70000, 3, leaf_of<70000, 3>);
  check_leaf(5, 100000, leaf_of<5, 100000>);
  check_leaf(4096, 4096, leaf_of<4096, 4096>);
  check_internal(70000, internal_of<70000>);
}

// Types of real use
struct Key64 {
  uint32_t n = 0;
  unsigned char pad[60] = {};
  friend bool operator<(const Key64& a, const Key64& b) { return a.n < b.n; }
};
template <class K>
K make_key(uint32_t i) {
  if constexpr (std::is_arithmetic_v<K>)
    return static_cast<K>(i);
  else if constexpr (std::is_same_v<K, std::string>) {
    std::string s = std::to_string(i);
    return std::string(8 - s.size(), '0') + s;
  } else {
    K k;
    k.n = i;
    return k;
  }
}
template <size_t N>
struct Val {
  uint32_t n = 0;
  unsigned char pad[N] = {};
};
template <class V>
V make_val(uint32_t i) {
  V v{};
  if constexpr (requires { v.n; })
    v.n = i;
  else
    v = static_cast<V>(i);
  return v;
}
template <class V>
bool same_val(const V& a, const V& b) {
  if constexpr (requires { a.n; })
    return a.n == b.n;
  else
    return a == b;
}

template <class K, class V>
struct Default {
  using T = fc::btree<K, V>;
  static constexpr size_t kLeaf = fc::default_leaf_node_size<K, V>();
  static constexpr size_t kInternal = fc::default_internal_node_size<K>();
  using Same = fc::btree<K, V, kLeaf, kInternal, std::less<K>, fc::SearchMode::Linear,
                         std::allocator<std::pair<K, V>>>;
  using Tracked = fc::btree<K, V, kLeaf, kInternal, std::less<K>, fc::SearchMode::Linear,
                            trk::Track<std::pair<K, V>>>;

  static void run(uint32_t order, uint32_t drain) {
    CHECK((std::is_same_v<T, Same>), "btree<Key, Value> is not the documented default");
    CHECK(kLeaf == rule(2048, sizeof(K) + sizeof(V), 8), "default leaf size %zu", kLeaf);
    CHECK(kInternal == rule(1024, sizeof(K) + sizeof(void*), 16), "default internal size %zu",
          kInternal);
    uint32_t n = static_cast<uint32_t>(
        std::min<size_t>({kLeaf * kInternal + 3 * kLeaf, 900, size_t(std::is_same_v<K, uint8_t> || std::is_same_v<K, int8_t> ? 120 : 900)}));
    auto at = [&](uint32_t o, uint32_t i) {
      return o == 0 ? i : o == 1 ? n - 1 - i : o == 2 ? (i * 7) % n : i % 2 ? n - 1 - i / 2 : i / 2;
    };
    if (n % 7 == 0) ++n;
    auto box = std::make_unique<T>();
    T& t = *box;
    std::map<uint32_t, uint32_t> ref;
    auto full = [&] {
      CHECK(t.size() == ref.size(), "size() %zu, not %zu", t.size(), ref.size());
      auto it = t.begin();
      for (auto& [k, v] : ref) {
        CHECK(it != t.end() && !(it->first < make_key<K>(k)) && !(make_key<K>(k) < it->first),
              "iteration");
        CHECK(same_val(V(it->second), make_val<V>(v)), "value");
        ++it;
      }
      CHECK(it == t.end(), "iteration ends late");
    };
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t k = at(order, i);
      ++n_call;
      CHECK(t.insert(make_key<K>(k), make_val<V>(k)).second == ref.emplace(k, k).second, "insert");
      if (i % 61 == 0) full();
    }
    full();
    for (uint32_t k = 0; k <= n; ++k) {
      ++n_call;
      bool has = ref.contains(k);
      if constexpr (!(sizeof(K) == 1)) CHECK(t.contains(make_key<K>(k)) == has, "contains");
    }
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t k = at(drain, i);
      ++n_call;
      CHECK(t.erase(make_key<K>(k)) == ref.erase(k), "erase");
      if (i % 61 == 0 || ref.size() < 3) full();
    }
    // nodes hold what they are sized for
    Tracked u;
    auto before = trk::reg.live.size();
    uint32_t m = 0;
    while (trk::reg.live.size() == before && m < 200) {
      u.insert(make_key<K>(m), make_val<V>(m));
      ++m;
      ++n_call;
    }
    CHECK(m > kLeaf / 2 && m <= kLeaf + 1,
          "a leaf of %zu entries is split at the insertion number %u", kLeaf, m);
  }
};

using Fn = void (*)(uint32_t, uint32_t);
struct Entry {
  const char* name;
  Fn fn;
};
#define X(K, ...) Entry{#K " " #__VA_ARGS__, &Default<K, __VA_ARGS__>::run},
const Entry table[] = {LIST};

void run_case(const Words& w) {
  mc::current = w;
  mc::begin_case(w);
  ++n_case;
  if (w.at(0) == ~0u)
    sizes();
  else
    table[w.at(0)].fn(w.at(1), w.at(2));
}
bool explore() {
  run_case({~0u, 0, 0});
  for (uint32_t i = 0; i < std::size(table); ++i)
    for (uint32_t o = 0; o < 4; ++o)
      for (uint32_t d = 0; d < 4; ++d) run_case({i, o, d});
  mc::counter("states") = n_type;
  mc::counter("transitions") = n_call;
  mc::counter("histories") = n_case;
  mc::samples.push_back(fmt("%llu pairs of key and value sizes; trees of %s",
                            (unsigned long long)n_type, table[0].name));
  return true;
}
int main(int argc, char** argv) { return mc::run_main(argc, argv, explore, run_case); }
