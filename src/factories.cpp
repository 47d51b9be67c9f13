// Every way of making a pool allocator (constructors and factory functions with every
// number of arguments) x every combination of sizes, page kinds and mapping outcomes; a
// tree is filled, emptied and filled again through each (properties C14, C16).
#include "wrapmem.hpp"

#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <array>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;
using wm::st;

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
uint64_t n_case = 0, n_call = 0, n_region = 0, n_inner = 0;
double t0;

using K = uint64_t;
using V = std::array<uint64_t, 3>;
using P = std::pair<K, V>;
const size_t kSizes[] = {4096, 8192, 20000, 2u << 20, 3u << 20, 20480};
const uint64_t kHugeFail[] = {0, 1, 2, 3, 4, ~0ull};

// a mapped region serves a request for `asked` bytes (of whatever kind of page)
bool serves(const wm::Region& r, size_t asked) {
  return r.size >= asked && r.size < asked + (r.huge ? 2u << 20 : 4096u);
}
void one_of(const wm::Region& r, std::initializer_list<size_t> asked, const char* what) {
  for (size_t a : asked)
    if (serves(r, a)) return;
  mc::fail(fmt("%s: a region of %zu bytes was mapped", what, r.size));
}

template <size_t LN, size_t IN, class A>
struct Use {
  using T = fc::btree<K, V, LN, IN, std::less<K>, fc::SearchMode::SIMD, A>;
  // F: called after each step
  template <class F>
  static void program(const A& a, size_t n, F after) {
    std::optional<T> t;
    t.emplace(a);
    std::map<K, V> ref;
    auto look = [&] {
      CHECK(t->size() == ref.size(), "size");
      auto r = ref.begin();
      for (auto it = t->begin(); it != t->end(); ++it, ++r)
        CHECK(r != ref.end() && it->first == r->first && it->second == r->second, "contents");
      CHECK(r == ref.end(), "contents");
    };
    after(*t, 0, "an empty tree");
    for (int round = 0; round < 2; ++round) {
      for (size_t i = 0; i < n; ++i) {
        K k = i * 7 % 1009;
        V v{k, k + 1, k + round};
        ++n_call;
        auto [it, ok] = t->insert({k, v});
        CHECK(ok && it->first == k && it->second == v, "insertion");
        ref.emplace(k, v);
        after(*t, i + 1, "filling");
      }
      look();
      if (round == 0) {
        size_t regions = st.regions.size();
        for (size_t i = 0; i < n; ++i) {
          ++n_call;
          CHECK(t->erase(i * 7 % 1009) == 1, "erasure");
          ref.erase(i * 7 % 1009);
        }
        look();
        CHECK(st.regions.size() == regions, "erasing maps memory");
      }
    }
    t.reset();
  }
};

// words: kind, sizes a b c d (indices), hugepages 0 1, arguments given, pattern, tree
struct Case {
  uint32_t kind, a, b, c, d, huge, args, pattern, tree;
};
Case dec(const Words& w) {
  return {w.at(0), w.at(1), w.at(2), w.at(3), w.at(4), w.at(5), w.at(6), w.at(7), w.at(8)};
}

template <size_t LN, size_t IN, bool Small>
void two_pool(const Case& c, int how) {
  size_t ls = kSizes[c.a], is = kSizes[c.b], lg = 64u << 20, ig = 64u << 20;
  bool huge = true;
  if (c.args >= 3) huge = c.huge;
  if (c.args >= 4) lg = kSizes[c.c];
  if (c.args >= 5) ig = kSizes[c.d];
  using A = fc::PolicyBasedHugePageAllocator<P, fc::TwoPoolPolicy>;
  std::optional<A> a;
  if (how == 0) {
    switch (c.args) {
      case 2: a.emplace(fc::make_two_pool_allocator<K, V>(ls, is)); break;
      case 3: a.emplace(fc::make_two_pool_allocator<K, V>(ls, is, huge)); break;
      case 4: a.emplace(fc::make_two_pool_allocator<K, V>(ls, is, huge, lg)); break;
      default: a.emplace(fc::make_two_pool_allocator<K, V>(ls, is, huge, lg, ig));
    }
  } else {
    auto l = std::make_shared<fc::HugePagePool>(ls, huge, lg);
    auto i = std::make_shared<fc::HugePagePool>(is, huge, ig);
    fc::TwoPoolPolicy p(l, i);
    a.emplace(p);
    CHECK(a->get_policy().leaf_pool_ == l && a->get_policy().internal_pool_ == i,
          "the pools of the policy");
  }
  const fc::HugePagePool* lp = a->get_policy().leaf_pool_.get();
  const fc::HugePagePool* ip = a->get_policy().internal_pool_.get();
  CHECK(lp && ip && lp != ip, "one pool serves leaves and internal nodes");
  CHECK(st.regions.size() == 2, "%zu regions mapped for two pools", st.regions.size());
  CHECK(huge ? st.huge_requests == 2 : st.huge_requests == 0,
        "%llu hugepage requests for two pools", (unsigned long long)st.huge_requests);
  CHECK(lp->initial_size() == ls && ip->initial_size() == is && lp->growth_size() == lg &&
            ip->growth_size() == ig,
        "the sizes of the pools");
  // which of the two regions is the leaves' (the pools may be made in either order)
  size_t leaf0 = serves(st.regions[0], ls) && st.regions[0].size == lp->bytes_remaining() ? 0 : 1;
  one_of(st.regions[leaf0], {ls}, "the leaf pool");
  one_of(st.regions[1 - leaf0], {is}, "the internal pool");
  std::vector<int> owner(2);  // 0 leaf, 1 internal, 2 either
  if (st.regions[0].size == st.regions[1].size)
    owner = {2, 2};
  else
    owner[1 - leaf0] = 1;
  if (st.regions[0].size != st.regions[1].size || st.regions[0].huge == st.regions[1].huge) {
    CHECK(lp->using_hugepages() == st.regions[leaf0].huge &&
              ip->using_hugepages() == st.regions[1 - leaf0].huge,
          "hugepage use is reported wrongly");
  }
  size_t lrem = lp->bytes_remaining(), irem = ip->bytes_remaining();
  bool split = false;
  Use<LN, IN, A>::program(*a, Small ? 200 : 700, [&](auto& t, size_t n, const char* what) {
    size_t l = lp->bytes_remaining(), i = ip->bytes_remaining();
    bool lgrew = l > lrem, igrew = i > irem;
    size_t fresh = st.regions.size() - owner.size();
    CHECK(fresh == size_t(lgrew) + size_t(igrew) || fresh <= 2, "%s: regions", what);
    if (fresh == 1) {
      // (a pool whose new region leaves it with less than before has grown as well)
      const wm::Region& r = st.regions.back();
      bool from_leaf = l != lrem && (igrew ? false : lgrew || i == irem);
      bool from_inner = i != irem && (lgrew ? false : igrew || l == lrem);
      // (leaves larger than the growth size: their regions always come out alike)
      if (!Small) from_leaf = from_inner;
      if (from_leaf != from_inner)
        one_of(r, {from_leaf ? lg : ig}, from_leaf ? "the leaf pool grows" : "the internal pool grows");
      owner.push_back(from_leaf == from_inner ? 2 : from_leaf ? 0 : 1);
    } else {
      for (size_t k = 0; k < fresh; ++k) {
        if (Small) one_of(st.regions[owner.size()], {lg, ig}, "a pool grows");
        owner.push_back(2);
      }
    }
    n_region += fresh;
    // internal nodes only when there is more than one leaf
    if (n <= LN && !split) CHECK(i == irem, "%s: a lone leaf takes from the internal pool", what);
    if (n > LN && !split) {
      split = true;
      // (the tree has two leaves and a root now)
      CHECK(i != irem || igrew || lrem != l, "%s: no node was taken", what);
      CHECK(i != irem, "%s: the root of two leaves is not from the internal pool", what);
    }
    n_inner += i != irem;
    lrem = l, irem = i;
    if (n % 16 == 1 || n < 20)
      for (auto it = t.begin(); it != t.end(); ++it) {
        const wm::Region* r = st.find(&it->second, sizeof(V));
        CHECK(r, "%s: an element outside the pools", what);
        size_t at = static_cast<size_t>(r - st.regions.data());
        CHECK(owner[at] != 1, "%s: an element lies in the internal pool", what);
      }
  });
  if (huge == false) CHECK(st.huge_requests == 0, "hugepages requested although disabled");
  a.reset();
  CHECK(st.live() == 0, "%zu regions are still mapped", st.live());
}

template <size_t LN, size_t IN, bool Small>
void one_pool(const Case& c) {
  size_t is = 256u << 20, gs = 64u << 20;
  bool huge = true;
  if (c.args >= 1) is = kSizes[c.a];
  if (c.args >= 2) huge = c.huge;
  if (c.args >= 3) gs = kSizes[c.c];
  using A = fc::HugePageAllocator<P>;
  std::optional<A> a;
  switch (c.args) {
    case 0: a.emplace(); break;
    case 1: a.emplace(is); break;
    case 2: a.emplace(is, huge); break;
    default: a.emplace(is, huge, gs);
  }
  CHECK(st.regions.size() == 1 && st.huge_requests == (huge ? 1 : 0), "mappings of a pool");
  bool hp = st.regions[0].huge;
  one_of(st.regions[0], {is}, "the pool of an allocator");
  Use<LN, IN, A>::program(*a, Small ? 200 : 700, [&](auto& t, size_t n, const char* what) {
    for (size_t i = 0; i < st.regions.size(); ++i)
      if (Small || i < 3) one_of(st.regions[i], {is, gs}, what);
    if (n % 16 == 1 || n < 20)
      for (auto it = t.begin(); it != t.end(); ++it)
        CHECK(st.find(&it->second, sizeof(V)), "%s: an element outside the pools", what);
  });
  if (!hp) CHECK(st.huge_requests == (huge ? 1 : 0), "hugepages requested although not in use");
  a.reset();
  CHECK(st.live() == 0, "%zu regions are still mapped", st.live());
}

template <size_t LN, size_t IN, bool Small>
void multi_pool(const Case& c) {
  size_t is = 64u << 20, gs = 64u << 20;
  bool huge = true;
  if (c.args >= 1) is = kSizes[c.a];
  if (c.args >= 2) huge = c.huge;
  if (c.args >= 3) gs = kSizes[c.c];
  using A = fc::MultiSizeHugePageAllocator<P>;
  std::optional<A> a;
  switch (c.args) {
    case 0: a.emplace(fc::make_multi_size_hugepage_allocator<P>()); break;
    case 1: a.emplace(fc::make_multi_size_hugepage_allocator<P>(is)); break;
    case 2: a.emplace(fc::make_multi_size_hugepage_allocator<P>(is, huge)); break;
    default: a.emplace(fc::make_multi_size_hugepage_allocator<P>(is, huge, gs));
  }
  bool first = false;
  CHECK(st.regions.empty(), "a multi-size pool maps memory before the first request");
  Use<LN, IN, A>::program(*a, Small ? 200 : 700, [&](auto& t, size_t n, const char* what) {
    for (auto& r : st.regions)
      if (Small) one_of(r, {is, gs}, what);
    if (n == 1 && !first && Small) {
      first = true;
      CHECK(st.regions.size() == 1, "%s: one class is in use", what);
      one_of(st.regions[0], {is}, what);
    }
    if (n % 16 == 1 || n < 20)
      for (auto it = t.begin(); it != t.end(); ++it)
        CHECK(st.find(&it->second, sizeof(V)), "%s: an element outside the pools", what);
  });
  if (!huge) CHECK(st.huge_requests == 0, "hugepages requested although disabled");
  else CHECK(st.huge_requests > 0, "no hugepages requested although enabled");
  a.reset();
  CHECK(st.live() == 0, "%zu regions are still mapped", st.live());
}

// requests that are no request for one object (kind 4; words: 4, family, object, count)
struct O8 {
  uint64_t a;
};
struct O72 {
  uint64_t a[9];
};
struct alignas(128) O128 {
  uint64_t a[16];
};
const size_t kCounts[] = {0,
                          2,
                          3,
                          1000,
                          SIZE_MAX / 128 + 1,
                          SIZE_MAX / 72 + 1,
                          SIZE_MAX / 72 + 2,
                          SIZE_MAX / 8 + 1,
                          SIZE_MAX / 8 + 2,
                          SIZE_MAX / 2 + 1,
                          SIZE_MAX - 1,
                          SIZE_MAX};
template <class T, class A, class Left>
void counts(A a, size_t n, bool single, Left left) {
  T* p = a.allocate(1);
  T* q = a.allocate(1);
  CHECK(p && q && p != q, "two objects");
  size_t regions = st.regions.size(), rem = left();
  bool over = n > SIZE_MAX / sizeof(T), threw = false, invalid = false;
  T* r = nullptr;
  ++n_call;
  try {
    r = a.allocate(n);
  } catch (const std::invalid_argument&) {
    threw = invalid = true;
  } catch (const std::bad_alloc&) {
    threw = true;
  }
  if (n == 0) {
    CHECK(!threw && (r == nullptr || (r != p && r != q)), "a request for nothing");
    CHECK(st.regions.size() == regions && left() == rem, "a request for nothing takes memory");
  } else if (single) {
    CHECK(threw && invalid, "a request for %zu objects is served by a pool of single objects", n);
  } else if (over) {
    CHECK(threw, "a request whose size overflows is served");
  } else if (!threw) {
    const wm::Region* g = st.find(r, n * sizeof(T));
    CHECK(g, "%zu objects do not lie in the pool", n);
    CHECK(r + n <= p || p + 1 <= r, "overlap");
    CHECK(r + n <= q || q + 1 <= r, "overlap");
    a.deallocate(r, n);
  }
  if (threw && (single || over))
    CHECK(st.regions.size() == regions && left() == rem, "a refused request takes memory");
  // returns of nothing
  rem = left();
  regions = st.regions.size();
  a.deallocate(nullptr, 1);
  a.deallocate(p, 0);
  if (single && n > 1) {
    bool refused = false;
    try {
      a.deallocate(p, n);
    } catch (const std::invalid_argument&) {
      refused = true;
    }
    CHECK(refused, "the return of %zu objects is accepted by a pool of single objects", n);
  }
  T* s = a.allocate(1);
  CHECK(s && s != p && s != q, "a live block is handed out again");
  a.deallocate(q, 1);
  T* t = a.allocate(1);
  CHECK(t == q, "a returned block is not used again");
  a.deallocate(p, 1);
  a.deallocate(s, 1);
  a.deallocate(t, 1);
}
template <class T>
void counts_of(uint32_t family, size_t n) {
  if (family == 0) {
    counts<T>(fc::HugePageAllocator<T>(8192, false, 8192), n, true, [] { return size_t{0}; });
  } else if (family == 1) {
    auto l = std::make_shared<fc::HugePagePool>(8192, false, 8192);
    auto i = std::make_shared<fc::HugePagePool>(8192, false, 8192);
    fc::TwoPoolPolicy p(l, i);
    counts<T>(fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>(p), n, true,
              [&] { return l->bytes_remaining(); });
    CHECK(i->bytes_remaining() == 8192, "plain objects are taken from the internal pool");
  } else {
    auto m = std::make_shared<fc::MultiSizeHugePagePool>(8192, false, 8192);
    counts<T>(fc::MultiSizeHugePageAllocator<T>(m), n, false,
              [&] { return m->active_size_classes(); });
  }
}
void run_counts(const Words& w) {
  size_t n = kCounts[w.at(3)];
  switch (w.at(2)) {
    case 0: counts_of<O8>(w.at(1), n); break;
    case 1: counts_of<O72>(w.at(1), n); break;
    default: counts_of<O128>(w.at(1), n);
  }
  CHECK(st.live() == 0, "%zu regions are still mapped", st.live());
}

void run_case(const Words& w) {
  if (w.at(0) == 4) {
    mc::current = w;
    mc::begin_case(w);
    ++n_case;
    st.reset();
    st.limit = 1u << 30;
    st.on = true;
    run_counts(w);
    CHECK(st.error.empty(), "%s", st.error.c_str());
    st.on = false;
    st.reset();
    return;
  }
  mc::current = w;
  mc::begin_case(w);
  ++n_case;
  Case c = dec(w);
  st.reset();
  st.huge_fail = kHugeFail[c.pattern];
  st.on = true;
  auto go = [&]<size_t LN, size_t IN, bool Small>() {
    switch (c.kind) {
      case 0: one_pool<LN, IN, Small>(c); break;
      case 1: two_pool<LN, IN, Small>(c, 0); break;
      case 2: two_pool<LN, IN, Small>(c, 1); break;
      default: multi_pool<LN, IN, Small>(c);
    }
  };
  if (c.tree == 0)
    go.template operator()<8, 8, true>();
  else if (c.tree == 1)
    go.template operator()<24, 64, true>();
  else
    go.template operator()<200, 9, false>();
  CHECK(st.error.empty(), "%s", st.error.c_str());
  st.on = false;
  st.reset();
}

bool explore() {
  t0 = mc::now_s();
  double budget = mc::time_budget();
  auto only = static_cast<uint32_t>(par.get("kinds", 31));
  auto trees = static_cast<uint32_t>(par.get("trees", 2));
  constexpr uint32_t S = std::size(kSizes), H = std::size(kHugeFail);
  for (uint32_t kind = 0; kind < 4; ++kind) {
    if (!(only >> kind & 1)) continue;
    bool two = kind == 1 || kind == 2;
    uint32_t lo = two ? (kind == 2 ? 5 : 2) : 0, hi = two ? 5 : 3;
    for (uint32_t args = lo; args <= hi; ++args) {
      uint32_t as = two || args >= 1 ? S : 1, bs = two ? S : 1,
               hs = (two ? args >= 3 : args >= 2) ? 2 : 1,
               cs = (two ? args >= 4 : args >= 3) ? S : 1, ds = two && args >= 5 ? S : 1;
      for (uint32_t a = 0; a < as; ++a)
        for (uint32_t b = 0; b < bs; ++b)
          for (uint32_t h = 0; h < hs; ++h)
            for (uint32_t c = 0; c < cs; ++c)
              for (uint32_t d = 0; d < ds; ++d)
                for (uint32_t p = 0; p < (hs == 2 && h == 0 ? 1 : H); ++p)
                  for (uint32_t t = 0; t < trees; ++t) {
                    if (mc::now_s() - t0 > budget) return false;
                    run_case({kind, a, b, c, d, h, args, p, t});
                  }
    }
  }
  if (only & 16)
    for (uint32_t f = 0; f < 3; ++f)
      for (uint32_t o = 0; o < 3; ++o)
        for (uint32_t n = 0; n < std::size(kCounts); ++n) run_case({4, f, o, n});
  mc::counter("states") = n_case;
  mc::counter("transitions") = n_call;
  mc::counter("regions") = n_region;
  mc::counter("internal_nodes") = n_inner;
  mc::samples.push_back("make_two_pool_allocator(4096, 4096, true, 20000, 8192), the second "
                        "hugepage request fails: a tree is filled, emptied, filled again");
  return true;
}
int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, run_case);
}
