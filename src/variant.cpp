// One build configuration of the containers: interprets a program and logs everything
// observable.  Compiled several times with different flags, node sizes and allocators
// (the library's outer namespace is renamed, so that the variants can be linked
// together); config.cpp runs every program on all of them and compares the logs.
#include "domains.hpp"

#include <fast_containers/btree.hpp>
#include <fast_containers/dense_map.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/hugepage_pool.hpp>
#include <fast_containers/multi_size_hugepage_pool.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <algorithm>
#include <memory>

#define VCAT2(a, b) a##b
#define VCAT(a, b) VCAT2(a, b)
#define VSTR2(x) #x
#define VSTR(x) VSTR2(x)

namespace fc = kressler::fast_containers;

namespace VCAT(variant_, VARIANT) {

struct Log {
  uint64_t h = 0x1234567;
  uint64_t n = 0;
  std::string* text = nullptr;
  void num(const char* what, uint64_t x) {
    h = mc::splitmix(h ^ x);
    ++n;
    if (text) *text += mc::fmt(" %s=%llu", what, (unsigned long long)x);
  }
};
template <class T>
uint64_t digest(const T& x) {
  if constexpr (std::is_same_v<T, std::string>) {
    uint64_t h = x.size();
    for (unsigned char c : x) h = mc::splitmix(h ^ c);
    return h & 0xffffffffffffull;
  } else if constexpr (std::is_floating_point_v<T>) {
    if constexpr (sizeof(T) == 4)
      return std::bit_cast<uint32_t>(x);
    else
      return std::bit_cast<uint64_t>(x);
  } else {
    return static_cast<uint64_t>(x);
  }
}
template <class V>
V make_val(uint32_t x) {
  if constexpr (std::is_same_v<V, std::string>)
    return x % 3 ? "value " + std::to_string(x)
                 : "a value that is too long for the string object " + std::to_string(x);
  else
    return static_cast<V>(x);
}

#if ALLOC_KIND == 0
template <class P>
using Al = std::allocator<P>;
template <class P>
Al<P> make_alloc() { return {}; }
#elif ALLOC_KIND == 1
template <class P>
using Al = fc::HugePageAllocator<P>;
template <class P>
Al<P> make_alloc() { return Al<P>(128 << 10, false); }
#elif ALLOC_KIND == 2
template <class P>
using Al = fc::PolicyBasedHugePageAllocator<P, fc::TwoPoolPolicy>;
template <class P>
Al<P> make_alloc() {
  return Al<P>(fc::TwoPoolPolicy{std::make_shared<fc::HugePagePool>(128 << 10, false),
                                 std::make_shared<fc::HugePagePool>(128 << 10, false)});
}
#else
template <class P>
using Al = fc::MultiSizeHugePageAllocator<P>;
template <class P>
Al<P> make_alloc() {
  return Al<P>(std::make_shared<fc::MultiSizeHugePagePool>(128 << 10, false));
}
#endif

#ifndef LEAF
#define LEAF 8
#endif
#ifndef INTERNAL
#define INTERNAL 8
#endif

uint32_t order_at(uint32_t order, uint32_t i, uint32_t n) {
  switch (order % 6) {
    case 0:
      return i;
    case 1:
      return n - 1 - i;
    case 2:  // from both ends
      return i & 1 ? n - 1 - i / 2 : i / 2;
    case 3:  // from the middle
      return i & 1 ? n / 2 - (i + 1) / 2 : n / 2 + i / 2;
    case 4: {  // a stride coprime to n
      uint32_t s = 7;
      while (n && std::__gcd(s, n) != 1) ++s;
      return n ? static_cast<uint32_t>(static_cast<uint64_t>(i) * s % n) : 0;
    }
    default: {  // every third, then the others
      uint32_t a = (n + 2) / 3, b = (n + 1) / 3;
      return i < a ? 3 * i : i < a + b ? 3 * (i - a) + 1 : 3 * (i - a - b) + 2;
    }
  }
}

enum Kind : uint32_t {
  BUILD = 1,   // order a, count b
  DRAIN = 2,   // order a, count b
  INS = 10,    // +flavour 0..6 code a
  ERASE_KEY = 20,  // code a
  ERASE_LB = 21,   // erase(lower_bound(a)) unless end
  ERASE_RNG = 22,  // erase [lower_bound(a), upper_bound(b))
  ERASE_MOD = 23,  // erase while iterating: modulus a, phase b
  LOOK = 24,       // code a
  COPY = 25,       // a: which
  CLEAR = 26,
  POP = 27,        // a: 0 front, 1 back; b times
};

template <class M, class K, class V, bool kTree>
struct Interp {
  Log& log;
  uint32_t T;
  int layout;
  bool desc;
  std::unique_ptr<M> m;
  uint32_t stamp = 1;
  using KD = dom::KeyDom<K>;

  K key(uint32_t code) const { return KD::make(code, T, layout, desc, 0); }
  std::unique_ptr<M> fresh() {
    if constexpr (kTree)
      return std::unique_ptr<M>(new M(make_alloc<std::pair<K, V>>()));
    else
      return std::make_unique<M>();
  }
  template <class Map, class It>
  void it_log(Map& c, const char* what, It it) {
    if (it == c.end()) {
      log.num(what, 0xE0D);
    } else {
      log.num(what, digest<K>(it->first));
      log.num("v", digest<V>(it->second));
    }
  }
  void walk(M& x) {
    log.num("size", x.size());
    log.num("empty", x.empty());
    for (auto it = x.begin(); it != x.end(); ++it) {
      log.num("k", digest<K>(it->first));
      log.num("v", digest<V>(it->second));
    }
    for (auto it = x.rbegin(); it != x.rend(); ++it) log.num("r", digest<K>(it->first));
  }
  bool room() const {
    if constexpr (kTree)
      return true;
    else
      return m->size() < 12;
  }
  void insert(uint32_t fl, uint32_t code) {
    K k = key(code);
    V v = make_val<V>(stamp++);
    if (!room()) {  // (a full dense_map refuses: the same in every configuration)
      try {
        log.num("ioa", m->insert_or_assign(k, v).second);
      } catch (const std::runtime_error&) {
        log.num("full", 1);
      }
      return;
    }
    auto both = [&](auto r) {
      it_log(*m, "it", r.first);
      log.num("new", r.second);
    };
    switch (fl) {
      case 0:
        both(m->insert(k, v));
        break;
      case 1:
        if constexpr (kTree)
          both(m->insert(std::pair<K, V>(k, v)));
        else
          both(m->insert(k, v));
        break;
      case 2:
        if constexpr (kTree)
          both(m->emplace(k, v));
        else
          both(m->try_emplace(k, v));
        break;
      case 3:
        if constexpr (kTree)
          it_log(*m, "it", m->emplace_hint(m->begin(), k, v));
        else
          both(m->try_emplace(k, v));
        break;
      case 4:
        both(m->try_emplace(k, v));
        break;
      case 5:
        both(m->insert_or_assign(k, v));
        break;
      default:
        (*m)[k] = v;
        it_log(*m, "it", m->find(k));
    }
  }
  template <class Map>
  void look(Map& c, uint32_t code) {
    K k = key(code);
    it_log(c, "find", c.find(k));
    if constexpr (requires { c.contains(k); }) log.num("contains", c.contains(k));
    if constexpr (requires { c.count(k); }) log.num("count", c.count(k));
    if constexpr (requires { c.lower_bound(k); }) {
      it_log(c, "lb", c.lower_bound(k));
      it_log(c, "ub", c.upper_bound(k));
    }
    if constexpr (requires { c.at(k); }) {
      try {
        log.num("at", digest<V>(c.at(k)));
      } catch (const std::out_of_range&) {
        log.num("at", 0xBAD);
      }
    }
  }
  void op(uint32_t w) {
    uint32_t k = w >> 24, a = (w >> 12) & 0xfff, b = w & 0xfff;
    if (k == BUILD) {
      for (uint32_t i = 0; i < b; ++i) {
        V v = make_val<V>(stamp++);
        if (room()) m->insert(key(2 * order_at(a, i, b) + 1), v);
      }
    } else if (k == DRAIN) {
      uint32_t n = static_cast<uint32_t>(m->size());
      for (uint32_t i = 0; i < b && i < n; ++i)
        log.num("erased", m->erase(key(2 * order_at(a, i, n) + 1)));
    } else if (k >= INS && k < INS + 7) {
      insert(k - INS, a);
    } else if (k == ERASE_KEY) {
      log.num("erased", m->erase(key(a)));
    } else if (k == ERASE_LB) {
      auto it = m->lower_bound(key(a));
      if (it != m->end()) it_log(*m, "next", m->erase(it));
    } else if (k == ERASE_RNG) {
      if constexpr (kTree) {
        auto f = m->lower_bound(key(a));
        auto l = m->upper_bound(key(b));
        it_log(*m, "next", m->erase(f, l));
      }
    } else if (k == ERASE_MOD) {
      uint32_t j = 0;
      for (auto it = m->begin(); it != m->end(); ++j) {
        if (j % a == b)
          it = m->erase(it);
        else
          ++it;
      }
      log.num("visited", j);
    } else if (k == LOOK) {
      look(*m, a);
      const M& c = *m;
      look(c, a);
    } else if (k == COPY) {
      if (a == 0) {
        auto c = std::make_unique<M>(*m);
        m = std::move(c);
      } else if (a == 1) {
        auto c = std::make_unique<M>(std::move(*m));
        log.num("left", m->size());
        m = std::move(c);
      } else if (a == 2) {
        auto c = fresh();
        c->insert(key(0), make_val<V>(3));
        *c = *m;
        m = std::move(c);
      } else if (a == 3) {
        auto c = fresh();
        c->insert(key(0), make_val<V>(3));
        *c = std::move(*m);
        m = std::move(c);
      } else if constexpr (kTree) {
        auto c = std::make_unique<M>(*m);  // (the same allocator)
        c->insert(key(0), make_val<V>(3));
        c->swap(*m);
        walk(*c);
      } else {
        auto c = fresh();
        uint32_t half = static_cast<uint32_t>(m->size()) / 2;
        m->split_at(m->begin() + half, *c);
        walk(*c);
        m->transfer_prefix_from(*c, c->size());
      }
    } else if (k == CLEAR) {
      m->clear();
    } else if (k == POP) {
      for (uint32_t i = 0; i < b && !m->empty(); ++i) {
        auto it = m->begin();
        if (a) {
          it = m->end();
          --it;
        }
        it_log(*m, "next", m->erase(it));
      }
    }
  }
  void run(const uint32_t* w, size_t n) {
    m = fresh();
    for (size_t i = 0; i < n; ++i) {
      op(w[i]);
      log.num("size", m->size());
    }
    walk(*m);
    uint32_t last = w[n - 1] >> 24;
    (void)last;
    // every key and every gap next to the first and last elements and in the middle
    for (uint32_t c : {0u, 1u, 2u, T - 1, T, T + 1, 2 * T - 2, 2 * T - 1, 2 * T})
      if (c <= 2 * T && KD::ok(c, T, layout)) look(*m, c);
  }
};

template <class K, class V, bool kTree, class M>
void go(Log& log, uint32_t T, bool desc, const uint32_t* w, size_t n) {
  int layout = static_cast<int>((n + T) % dom::NLAYOUTS);
  using KD = dom::KeyDom<K>;
  if (T > KD::max_T()) return;
  for (uint32_t c = 0; c <= 2 * T; ++c)
    if (!KD::ok(c, T, layout)) {
      layout = 0;
      break;
    }
  Interp<M, K, V, kTree> in{log, T, layout, desc, nullptr};
  in.run(w, n);
}

#ifdef DEFAULT_SIZES
#undef LEAF
#undef INTERNAL
#define LEAF (fc::default_leaf_node_size<K, V>())
#define INTERNAL (fc::default_internal_node_size<K>())
#endif
template <class K, class V, fc::SearchMode M, class C>
using Tree = fc::btree<K, V, LEAF, INTERNAL, C, M, Al<std::pair<K, V>>>;
template <class K, class V, fc::SearchMode M, class C>
using Dense = fc::dense_map<K, V, 12, C, M>;

// Pools: which freed block an allocation returns, and what is left of each region.
enum PoolKind : uint32_t {
  ALLOC = 30,  // a: bytes, b: alignment
  FREE = 31,   // a: index of the block among those in use
};
template <class P>
void pool_program(Log& log, uint32_t initial, const uint32_t* p, size_t k) {
  P pool(initial, false, 8192);
  struct Block {
    char* at;
    uint32_t bytes, id;
  };
  std::vector<Block> used, freed;
  uint32_t ids = 0;
  auto left = [&] {
    if constexpr (std::is_same_v<P, fc::HugePagePool>) {
      log.num("left", pool.bytes_remaining());
    } else {
      for (uint32_t b : {8u, 24u, 40u, 72u, 600u, 4000u}) {
        const auto* c = pool.get_pool(P::get_size_class(b));
        log.num("left", c ? c->bytes_remaining() : ~uint64_t{0});
      }
    }
  };
  left();
  for (size_t i = 0; i < k; ++i) {
    uint32_t op = p[i] >> 24, a = p[i] >> 12 & 0xfff, b = p[i] & 0xfff;
    if (op == ALLOC) {
      auto* q = static_cast<char*>(pool.allocate(a, b));
      uint32_t id = ids;
      for (size_t j = 0; j < freed.size(); ++j)
        if (freed[j].at == q) {
          id = freed[j].id;
          freed.erase(freed.begin() + static_cast<long>(j));
          break;
        }
      if (id == ids) ++ids;
      for (uint32_t j = 0; j < a; ++j) q[j] = static_cast<char>(id);
      used.push_back({q, a, id});
      log.num("block", id);
      log.num("misaligned", reinterpret_cast<uintptr_t>(q) % b);
    } else if (op == FREE && a < used.size()) {
      Block x = used[a];
      used.erase(used.begin() + a);
      uint64_t bad = 0;
      for (uint32_t j = 0; j < x.bytes; ++j) bad += x.at[j] != static_cast<char>(x.id);
      log.num("overwritten", bad);
      pool.deallocate(x.at, x.bytes);
      freed.push_back(x);
    }
    left();
  }
}

}  // namespace

// w[0]: container kind << 16 | T
extern "C" uint64_t VCAT(variant_run_, VARIANT)(const uint32_t* w, size_t n,
                                                std::string* text) {
  using namespace VCAT(variant_, VARIANT);
  Log log;
  log.text = text;
  uint32_t kind = w[0] >> 16, T = w[0] & 0xffff;
  const uint32_t* p = w + 1;
  size_t k = n - 1;
  constexpr auto Lin = fc::SearchMode::Linear;
  constexpr auto Bin = fc::SearchMode::Binary;
  constexpr auto Simd = fc::SearchMode::SIMD;
  (void)Lin;
  (void)Bin;
  switch (kind) {
    case 0:
      go<int64_t, uint64_t, true, Tree<int64_t, uint64_t, Simd, std::less<int64_t>>>(
          log, T, false, p, k);
      break;
    case 1:
      go<std::string, std::string, true,
         Tree<std::string, std::string, Bin, std::greater<std::string>>>(log, T, true, p, k);
      break;
    case 2:
      go<float, std::string, true, Tree<float, std::string, Simd, std::greater<float>>>(
          log, T, true, p, k);
      break;
    case 3:
      go<uint32_t, uint8_t, true, Tree<uint32_t, uint8_t, Lin, std::less<uint32_t>>>(
          log, T, false, p, k);
      break;
    case 4:
      go<int16_t, uint64_t, true, Tree<int16_t, uint64_t, Simd, std::less<int16_t>>>(
          log, T, false, p, k);
      break;
    case 5:
      go<uint8_t, uint32_t, true, Tree<uint8_t, uint32_t, Simd, std::greater<uint8_t>>>(
          log, T, true, p, k);
      break;
    case 6:
      go<int32_t, std::string, false, Dense<int32_t, std::string, Simd, std::less<int32_t>>>(
          log, T, false, p, k);
      break;
    case 7:
      go<double, uint64_t, false, Dense<double, uint64_t, Simd, std::greater<double>>>(
          log, T, true, p, k);
      break;
    case 8:
      go<std::string, std::string, false,
         Dense<std::string, std::string, Bin, std::less<std::string>>>(log, T, false, p, k);
      break;
    case 9:
      go<int8_t, uint16_t, false, Dense<int8_t, uint16_t, Simd, std::less<int8_t>>>(
          log, T, false, p, k);
      break;
    case 10:
      pool_program<fc::HugePagePool>(log, T, p, k);
      break;
    case 11:
      pool_program<fc::MultiSizeHugePagePool>(log, T, p, k);
      break;
    default:
      break;
  }
  log.num("events", log.n);
  return log.h;
}
extern "C" const char* VCAT(variant_name_, VARIANT)() { return VSTR(VNAME); }
