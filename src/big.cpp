// btree: contents of trees of tens of thousands of elements and up to eight levels
// (properties C01 to C04): whole build / replace / erase / refill programs in every
// combination of orders, each call's result compared with a bitmap of the keys present,
// everything readable compared at stops.
#include "domains.hpp"
#include "mc.hpp"

#include <fast_containers/btree.hpp>

#include <bit>
#include <map>
#include <memory>
#include <numeric>
#include <string>
#include <utility>
#include <vector>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef CMP
#define CMP std::less<KEY>
#endif
struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
using K = KEY;
using V = VAL;
using C = CMP;
using Tree = fc::btree<K, V, LN, IN, C, fc::SearchMode::MODE>;
using It = typename Tree::iterator;
constexpr bool kDesc = dom::is_descending<C>::value;

uint64_t n_call = 0, n_case = 0, n_stop = 0;

// Which keys are present, with the next and the previous one.
struct Bits {
  std::vector<std::vector<uint64_t>> lv;
  explicit Bits(size_t n) {
    do {
      n = (n + 63) / 64;
      lv.emplace_back(n);
    } while (n > 1);
  }
  bool has(size_t i) const { return lv[0][i / 64] >> (i % 64) & 1; }
  void set(size_t i) {
    for (auto& l : lv) {
      l[i / 64] |= uint64_t{1} << (i % 64);
      i /= 64;
    }
  }
  void reset(size_t i) {
    for (auto& l : lv) {
      if ((l[i / 64] &= ~(uint64_t{1} << (i % 64)))) break;
      i /= 64;
    }
  }
  // the first at or after i, or npos
  static constexpr size_t npos = ~size_t{0};
  size_t next(size_t i) const {
    for (size_t h = 0; h < lv.size(); ++h) {
      if (i / 64 >= lv[h].size()) return npos;
      uint64_t w = lv[h][i / 64] >> (i % 64);
      if (w) {
        i += static_cast<size_t>(std::countr_zero(w));
        while (h--) i = i * 64 + static_cast<size_t>(std::countr_zero(lv[h][i]));
        return i;
      }
      i = i / 64 + 1;
    }
    return npos;
  }
};

// Position p has the key 2p+1 (gaps at the even numbers), or, with every value of a
// 16-bit type, the p-th value.
constexpr bool kAll = sizeof(K) == 2 && std::is_integral_v<K>;
template <class K>
K key_(uint64_t p, uint64_t n, bool gap) {
  uint64_t r = kDesc ? n - 1 - p : p;
  if constexpr (kAll)
    return static_cast<K>(static_cast<int64_t>(r) +
                          static_cast<int64_t>(std::numeric_limits<K>::min()));
  else if constexpr (std::is_arithmetic_v<K>)
    return static_cast<K>(2 * r + (gap ? kDesc ? 2 : 0 : 1));
  else {
    char b[40];
    snprintf(b, sizeof b, "key number %08llu",
             (unsigned long long)(2 * r + (gap ? kDesc ? 2 : 0 : 1)));
    return K(b);
  }
}
K key(uint64_t p, uint64_t n, bool gap = false) { return key_<K>(p, n, gap); }
template <class V>
V val_(uint64_t p, uint64_t version) {
  if constexpr (std::is_same_v<V, std::string>)
    return fmt("%llu/%llu", (unsigned long long)p, (unsigned long long)version);
  else
    return static_cast<V>(p * 3 + version * 1000003);
}

V val(uint64_t p, uint64_t version) { return val_<V>(p, version); }

constexpr uint32_t kOrders = 6;
uint64_t stride_[2], stride_n = 0;
uint64_t place(uint32_t order, uint64_t i, uint64_t n) {
  if (stride_n != n) {
    stride_n = n;
    for (int k = 0; k < 2; ++k) {
      uint64_t s = k ? n / 97 + 2 : n / 3 + 1;
      while (std::gcd(s, n) != 1) ++s;
      stride_[k] = s;
    }
  }
  switch (order) {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i % 2 ? n - 1 - i / 2 : i / 2;
    case 3: return i % 2 ? n / 2 - 1 - i / 2 : n / 2 + i / 2;
    default: return i * stride_[order - 4] % n;
  }
}

struct Machine {
  Tree t;
  Bits present;
  std::vector<uint32_t> version;
  uint64_t n, size = 0;
  uint32_t clock = 0;
  explicit Machine(uint64_t n) : present(n), version(n), n(n) {}

  // it is at the first element of position >= p
  void at(const char* what, It it, size_t p) {
    size_t q = p >= n ? Bits::npos : present.next(p);
    if (q == Bits::npos) {
      CHECK(it == t.end(), "%s: not the end, %llu elements", what, (unsigned long long)size);
    } else {
      CHECK(it != t.end(), "%s: the end, not element %zu of %llu", what, q,
            (unsigned long long)size);
      CHECK(it->first == key(q, n), "%s: another element than %zu of %llu", what, q,
            (unsigned long long)size);
      CHECK(it->second == val(q, version[q]), "%s: another value at %zu of %llu", what, q,
            (unsigned long long)size);
    }
  }
  void put(uint64_t p, uint64_t i) {
    ++n_call;
    bool was = present.has(p);
    uint32_t ver = ++clock;
    K k = key(p, n);
    V v = val(p, ver);
    auto note = [&](bool assigned) {
      if (!was) {
        present.set(p);
        ++size;
      }
      if (!was || assigned) version[p] = ver;
    };
    auto res = [&](const char* what, std::pair<It, bool> r, bool assigns) {
      CHECK(r.second == !was, "%s says %d", what, (int)r.second);
      note(assigns);
      at(what, r.first, p);
    };
    switch (i % 7) {
      case 0: return res("insert", t.insert(k, v), false);
      case 1: return res("insert of a pair", t.insert({k, v}), false);
      case 2: return res("emplace", t.emplace(k, v), false);
      case 3: return res("try_emplace", t.try_emplace(k, v), false);
      case 4: return res("insert_or_assign", t.insert_or_assign(k, v), true);
      case 5:
        t[k] = v;
        note(true);
        return at("operator[]", t.find(k), p);
      default: {
        It r = t.emplace_hint(p % 2 ? t.begin() : t.lower_bound(k), k, v);
        note(false);
        return at("emplace_hint", r, p);
      }
    }
  }
  void lookups(uint64_t p) {
    n_call += 8;
    bool in = present.has(p);
    const Tree& c = t;
    K k = key(p, n);
    It f = t.find(k);
    CHECK((f != t.end()) == in, "find %d", in);
    if (in) at("find", f, p);
    CHECK((c.find(k) != c.end()) == in, "const find");
    CHECK(c.contains(k) == in, "contains");
    CHECK(c.count(k) == size_t(in), "count");
    at("lower_bound", t.lower_bound(k), p);
    at("upper_bound", t.upper_bound(k), p + 1);
    auto r = t.equal_range(k);
    at("equal_range", r.first, p);
    at("end of equal_range", r.second, p + 1);
    if constexpr (!kAll) {
      K g = key(p, n, true);
      CHECK(!c.contains(g) && t.find(g) == t.end(), "a key never inserted is found");
      at("lower_bound of a gap", t.lower_bound(g), p);
      at("upper_bound of a gap", t.upper_bound(g), p);
    }
  }
  void walk(const Tree& c) {
    n_call += 3 * size;
    CHECK(c.size() == size && c.empty() == !size, "size %zu, not %llu", c.size(),
          (unsigned long long)size);
    size_t p = n ? present.next(0) : Bits::npos;
    auto it = c.begin();
    uint64_t m = 0;
    for (; p != Bits::npos; p = p + 1 < n ? present.next(p + 1) : Bits::npos, ++it, ++m) {
      CHECK(it != c.end(), "the walk ends after %llu of %llu", (unsigned long long)m,
            (unsigned long long)size);
      CHECK(it->first == key(p, n) && it->second == val(p, version[p]),
            "the walk meets another element at %llu of %llu", (unsigned long long)m,
            (unsigned long long)size);
    }
    CHECK(it == c.end(), "the walk goes on after %llu elements", (unsigned long long)m);
    for (p = n; p-- > 0;) {
      if (!present.has(p)) continue;
      CHECK(it != c.begin(), "the walk back ends early");
      --it;
      CHECK(it->first == key(p, n), "the walk back meets another element");
    }
    CHECK(it == c.begin(), "the walk back goes on");
    auto r = c.rbegin();
    for (p = n; p-- > 0;) {
      if (!present.has(p)) continue;
      CHECK(r != c.rend() && r->first == key(p, n), "the reverse walk differs");
      ++r;
    }
    CHECK(r == c.rend(), "the reverse walk goes on");
  }
  void stop(bool every) {
    ++n_stop;
    walk(t);
    uint64_t step = every ? 1 : n / 700 + 1;
    for (uint64_t p = 0; p < n; p += step) lookups(p);
  }
  void gone(size_t from, size_t to) {
    for (size_t p = from; p < to && (p = present.next(p)) < to; ++p) {
      present.reset(p);
      --size;
    }
  }
};

// case: n, build order, erase order, way of erasing
void run(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_case;
  const uint64_t n = w.at(0);
  const uint32_t bo = w.at(1), eo = w.at(2), how = w.at(3);
  auto mp = std::make_unique<Machine>(n);
  Machine& m = *mp;
  Tree& t = m.t;
  const uint64_t every = n / 4 + 1;
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t p = place(bo, i, n);
    m.put(p, i);
    if (i % 16 == 5) m.put(place(bo, i / 2, n), i / 16);
    CHECK(t.size() == i + 1, "size %zu after %llu insertions", t.size(),
          (unsigned long long)(i + 1));
    if (i % every == every - 1) m.stop(false);
  }
  m.stop(true);
  {
    Tree c(t);
    m.walk(c);
    Tree d;
    d = c;
    m.walk(d);
    Tree e(std::move(c));
    m.walk(e);
    d.clear();
    CHECK(d.begin() == d.end() && d.size() == 0, "not empty after clear");
    d = std::move(e);
    m.walk(d);
    It x = d.erase(d.begin(), d.end());
    CHECK(x == d.end() && d.empty(), "not empty after erasing everything");
  }
  uint64_t erased = 0;
  for (uint64_t i = 0; i < n; ++i) {
    uint64_t p = place(eo, i, n);
    ++n_call;
    bool was = m.present.has(p);
    switch (how) {
      case 0: {
        size_t k = t.erase(key(p, n));
        CHECK(k == size_t(was), "erase of a key says %zu", k);
        m.gone(p, p + 1);
        break;
      }
      case 1: {
        if (!was) continue;
        It r = t.erase(t.find(key(p, n)));
        m.gone(p, p + 1);
        m.at("erase of an element", r, p);
        break;
      }
      default: {  // ranges: short ones, or a tenth of the keys
        uint64_t len = how == 2 ? 1 + i % 23 : 1 + n / 10;
        uint64_t q = std::min(n, p + len);
        It b = q < n ? t.lower_bound(key(q, n)) : t.end();
        It r = t.erase(t.lower_bound(key(p, n)), b);
        m.gone(p, q);
        m.at("erase of a range", r, q);
        break;
      }
    }
    CHECK(t.size() == m.size, "size %zu, not %llu", t.size(), (unsigned long long)m.size);
    ++erased;
    if (erased % every == every - 1) m.stop(false);
    if (how == 3 && erased > 12) break;
    // at half way, put a quarter back
    if (i == n / 2 && how < 2) {
      for (uint64_t j = 0; j < n / 4; ++j) m.put(place(eo, j, n), j);
      m.stop(false);
    }
  }
  m.stop(n < 5000);
  if (how == 3)
    for (uint64_t i = 0; i < n; i += 3) m.put(place(eo, i, n), i);
  m.stop(false);
}

bool explore() {
  uint32_t big = static_cast<uint32_t>(kAll ? 65536 : par.get("big", 70000));
  uint32_t skip = static_cast<uint32_t>(par.get("skip", 5));
  double t0 = mc::now_s(), budget = mc::time_budget();
  for (uint32_t n : {uint32_t{2 * LN * IN + 3}, uint32_t{LN * IN / 2 * IN + 1}, big})
    for (uint32_t b = 0; b < kOrders; ++b)
      for (uint32_t e = 0; e < kOrders; ++e)
        for (uint32_t h = 0; h < 4; ++h) {
          if (n > big || (n > 3000 && (e * 5 + b * 7 + h * 3) % skip)) continue;
          if (mc::now_s() - t0 > budget) return false;
          run({n, b, e, h});
        }
  mc::counter("states") = n_stop;
  mc::counter("transitions") = n_call;
  mc::counter("histories") = n_case;
  mc::samples.push_back(fmt("programs of up to %u elements, six building orders, six "
                            "erasing orders, four ways of erasing", big));
  return true;
}

int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, run);
}
