// Several containers on pool allocators: every sequence of build / shrink / clear /
// destroy / copy / move steps over three trees of different node sizes (or standard
// containers on the multi-size pool), under every schedule of mapping outcomes.
// Contents against std::map, the placement of every element, the lifetime of the pools.
#include "wrapmem.hpp"

#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <algorithm>
#include <array>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <unordered_set>
#include <vector>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;
using wm::st;

#ifndef FAM  // 0 HugePageAllocator, 1 two-pool policy, 2 multi-size, 3 std containers
#define FAM 1
#endif

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
double t0, budget;
uint64_t n_hist = 0, n_calls = 0, n_trans = 0, n_failed = 0;
std::unordered_set<mc::Hash128, mc::Hash128Hash> seen;

using V1 = std::array<uint64_t, 5>;
template <class V>
V mkval(uint64_t x) {
  if constexpr (std::is_same_v<V, std::string>)
    return "a value that does not fit the small buffer " + std::to_string(x);
  else if constexpr (std::is_same_v<V, V1>)
    return V1{x, x + 1, x + 2, x + 3, x + 4};
  else
    return static_cast<V>(x * 3 + 1);
}
template <class K>
K mkkey(uint32_t i) {
  if constexpr (std::is_same_v<K, std::string>) {
    char b[32];
    snprintf(b, sizeof b, "key%05u", i);
    return b;
  } else {
    return static_cast<K>(i);
  }
}

constexpr size_t POOL = 8192;

// who mapped a region: 0 leaf pool (or the only one), 1 internal pool
struct World {
  bool huge;
#if FAM == 1
  std::shared_ptr<fc::HugePagePool> leaf, internal;
  size_t leaf_initial_regions = 0;
  std::map<void*, int> owner;
#elif FAM >= 2
  std::shared_ptr<fc::MultiSizeHugePagePool> ms;
#endif
  void open(bool h) {
    huge = h;
#if FAM == 1
    leaf = std::make_shared<fc::HugePagePool>(POOL, h, 4096);
    owner[st.regions.back().base] = 0;
    internal = std::make_shared<fc::HugePagePool>(4096, h, 4096);
    owner[st.regions.back().base] = 1;
#elif FAM >= 2
    ms = std::make_shared<fc::MultiSizeHugePagePool>(POOL, h, 4096);
#endif
  }
  template <class T>
  auto alloc() {
#if FAM == 0
    return fc::HugePageAllocator<T>(POOL, huge, 4096);
#elif FAM == 1
    return fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>(
        fc::TwoPoolPolicy(leaf, internal));
#else
    return fc::MultiSizeHugePageAllocator<T>(ms);
#endif
  }
};

struct ContBase {
  virtual ~ContBase() = default;
  virtual void open(World&) = 0;
  virtual void step(uint32_t op, World&) = 0;
  virtual void check(World&, const char*) = 0;
  virtual void close() = 0;
  virtual void hash(mc::Hash128&) = 0;
  virtual size_t size() = 0;
  virtual size_t leaf_capacity() = 0;
};
enum : uint32_t { GROW, SHRINK, CLEAR, RENEW, COPY, MOVE, NOPS };

template <class T>
concept NodeTypes = requires {
  typename T::leaf_node;
  typename T::internal_node;
};

template <class K, class V, size_t LN, size_t IN, class C = std::less<K>,
          fc::SearchMode SM = fc::SearchMode::Binary>
struct TreeCont : ContBase {
  using Alloc = decltype(std::declval<World&>().template alloc<std::pair<K, V>>());
  using Tree = fc::btree<K, V, LN, IN, C, SM, Alloc>;
  std::optional<Tree> t;
  std::map<K, V, C> ref;
  uint32_t next = 0, salt;
  explicit TreeCont(uint32_t s) : salt(s) {}
  void open(World& w) override {
    t.emplace(w.template alloc<std::pair<K, V>>());
#if FAM == 1
    if constexpr (NodeTypes<Tree>) {
      fc::TwoPoolPolicy p(w.leaf, w.internal);
      CHECK(p.template get_pool_for_type<typename Tree::leaf_node>() == w.leaf,
            "leaf nodes are not routed to the leaf pool");
      CHECK(p.template get_pool_for_type<typename Tree::internal_node>() == w.internal,
            "internal nodes are not routed to the internal pool");
    }
#endif
  }
  template <class F>
  bool attempt(F f) {  // false: bad_alloc because memory ran out
    uint64_t from = st.regular_requests;
    try {
      f();
      return true;
    } catch (const std::bad_alloc&) {
      ++n_failed;
      CHECK(st.regular_fails_at(from), "bad_alloc although regular memory is available");
      return false;
    }
  }
  void step(uint32_t op, World& w) override {
    ++n_calls;
    switch (op) {
      case GROW:
        for (uint32_t i = 0; i < 23; ++i) {
          uint32_t k = (next * 37 + salt) % 509;
          ++next;
          attempt([&] {
            auto [it, ins] = t->insert(mkkey<K>(k), mkval<V>(next));
            bool had = ref.count(mkkey<K>(k));
            CHECK(ins == !had, "insert reports %d", (int)ins);
            if (!had) ref.emplace(mkkey<K>(k), mkval<V>(next));
          });
        }
        break;
      case SHRINK: {
        uint32_t i = 0;
        for (auto it = ref.begin(); it != ref.end(); ++i)
          if (i % 3 != 2) {
            CHECK(t->erase(it->first) == 1, "erase of a present key");
            it = ref.erase(it);
          } else {
            ++it;
          }
        break;
      }
      case CLEAR:
        if (attempt([&] { t->clear(); })) ref.clear();
        break;
      case RENEW:
        t.reset();
        ref.clear();
        if (!attempt([&] { t.emplace(w.template alloc<std::pair<K, V>>()); })) {
          // without memory: nothing more to do with this tree until there is some
          st.regular_fail = 0;
          st.fail_all_from = ~0ull;
          t.emplace(w.template alloc<std::pair<K, V>>());
        }
        break;
      case COPY:
        attempt([&] {
          Tree c(*t);
          CHECK(c.size() == ref.size(), "size of a copy");
          auto r = ref.begin();
          for (auto it = c.begin(); it != c.end(); ++it, ++r)
            CHECK(r != ref.end() && it->first == r->first && it->second == r->second,
                  "contents of a copy");
          *t = c;
        });
        break;
      default: {
        // (moving allocates nothing that may fail visibly: the sources are used again)
        uint64_t keep = st.regular_fail, fa = st.fail_all_from;
        st.regular_fail = 0;
        st.fail_all_from = ~0ull;
        Tree c(std::move(*t));
        CHECK(t->empty() && c.size() == ref.size(), "sizes after moving");
        t->insert(mkkey<K>(1), mkval<V>(1));
        *t = std::move(c);
        st.regular_fail = keep;
        st.fail_all_from = fa;
      }
    }
  }
  void check(World& w, const char* when) override {
    if (!t) return;
    CHECK(t->size() == ref.size(), "%s: size %zu, expected %zu", when, (size_t)t->size(),
          ref.size());
    auto r = ref.begin();
    size_t i = 0;
    for (auto it = t->begin(); it != t->end(); ++it, ++r, ++i) {
      CHECK(r != ref.end() && it->first == r->first && it->second == r->second,
            "%s: element %zu is wrong", when, i);
      const wm::Region* reg = st.find(&it->second, sizeof(V));
      CHECK(reg, "%s: element %zu does not lie in memory of a pool", when, i);
#if FAM == 1
      CHECK(w.owner.count(reg->base) == 0 || w.owner[reg->base] == 0,
            "%s: an element lies in the internal pool", when);
#endif
    }
    CHECK(r == ref.end(), "%s: elements are missing", when);
    for (uint32_t k = 0; k < 509; k += 7) {
      auto f = t->find(mkkey<K>(k));
      CHECK((f != t->end()) == (ref.count(mkkey<K>(k)) > 0), "%s: find", when);
    }
  }
  void close() override {
    t.reset();
    ref.clear();
  }
  void hash(mc::Hash128& h) override {
    h.add(ref.size());
    for (auto& [k, v] : ref) {
      if constexpr (std::is_same_v<K, std::string>)
        h.add_bytes(k);
      else
        h.add(static_cast<uint64_t>(k));
    }
  }
  size_t size() override { return ref.size(); }
  size_t leaf_capacity() override { return LN; }
};

#if FAM == 3
// std::map, std::vector and std::list through the multi-size allocator
struct StdMap : ContBase {
  using A = fc::MultiSizeHugePageAllocator<std::pair<const uint64_t, std::string>>;
  std::optional<std::map<uint64_t, std::string, std::less<uint64_t>, A>> c;
  std::map<uint64_t, std::string> ref;
  uint32_t next = 0;
  void open(World& w) override {
    c.emplace(w.alloc<std::pair<const uint64_t, std::string>>());
  }
  void step(uint32_t op, World& w) override {
    ++n_calls;
    try {
      switch (op) {
        case GROW:
          for (int i = 0; i < 20; ++i) {
            uint64_t k = (++next * 37) % 211;
            c->insert({k, mkval<std::string>(next)});
            ref.insert({k, mkval<std::string>(next)});
          }
          break;
        case SHRINK:
          for (uint64_t k = 0; k < 211; k += 2) c->erase(k), ref.erase(k);
          break;
        case CLEAR:
          c->clear();
          ref.clear();
          break;
        case RENEW:
          close();
          open(w);
          break;
        case COPY: {
          auto d = *c;
          *c = d;
          break;
        }
        default: {
          auto d = std::move(*c);
          *c = std::move(d);
        }
      }
    } catch (const std::bad_alloc&) {
      ++n_failed;
      ref.clear();
      for (auto& x : *c) ref.insert(x);
    }
  }
  void check(World&, const char* when) override {
    CHECK(std::equal(c->begin(), c->end(), ref.begin(), ref.end()), "%s: std::map", when);
    for (auto& x : *c)
      CHECK(st.find(&x, sizeof x), "%s: a node outside the pool", when);
  }
  void close() override {
    c.reset();
    ref.clear();
  }
  void hash(mc::Hash128& h) override { h.add(ref.size()); }
  size_t size() override { return ref.size(); }
  size_t leaf_capacity() override { return ~size_t{0}; }
};
template <template <class, class> class Seq>
struct StdSeq : ContBase {
  using A = fc::MultiSizeHugePageAllocator<uint64_t>;
  std::optional<Seq<uint64_t, A>> c;
  std::vector<uint64_t> ref;
  uint64_t next = 0;
  void open(World& w) override { c.emplace(w.alloc<uint64_t>()); }
  void step(uint32_t op, World& w) override {
    ++n_calls;
    try {
      switch (op) {
        case GROW:
          for (int i = 0; i < 60; ++i) {
            c->push_back(++next);
            ref.push_back(next);
          }
          break;
        case SHRINK:
          while (ref.size() > 10) c->pop_back(), ref.pop_back();
          break;
        case CLEAR:
          c->clear();
          ref.clear();
          break;
        case RENEW:
          close();
          open(w);
          break;
        case COPY: {
          auto d = *c;
          *c = d;
          break;
        }
        default: {
          auto d = std::move(*c);
          *c = std::move(d);
        }
      }
    } catch (const std::bad_alloc&) {
      ++n_failed;
      ref.assign(c->begin(), c->end());
    }
  }
  void check(World&, const char* when) override {
    CHECK(std::equal(c->begin(), c->end(), ref.begin(), ref.end()), "%s: sequence", when);
    for (auto& x : *c) CHECK(st.find(&x, sizeof x), "%s: an element outside the pool", when);
  }
  void close() override {
    c.reset();
    ref.clear();
  }
  void hash(mc::Hash128& h) override { h.add(ref.size()); }
  size_t size() override { return ref.size(); }
  size_t leaf_capacity() override { return ~size_t{0}; }
};
#endif

// words: huge, huge_fail, regular_fail, ops (tree << 8 | op)...
void run_case(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_hist;
  st.reset();
  st.huge_fail = w.at(1);
  st.on = true;
  World world;
  world.open(w.at(0));
  {
    std::unique_ptr<ContBase> c[3];
#if FAM == 3
    c[0] = std::make_unique<StdMap>();
    c[1] = std::make_unique<StdSeq<std::vector>>();
    c[2] = std::make_unique<StdSeq<std::list>>();
#else
    c[0] = std::make_unique<TreeCont<int64_t, uint64_t, 8, 8>>(1);
    c[1] = std::make_unique<
        TreeCont<uint32_t, V1, 9, 10, std::greater<uint32_t>, fc::SearchMode::SIMD>>(2);
    c[2] = std::make_unique<
        TreeCont<std::string, std::string, 8, 12, std::less<std::string>,
                 fc::SearchMode::Linear>>(3);
#endif
    for (auto& x : c) x->open(world);
    st.regular_fail = w.at(2);
    // failures count from here
    st.regular_fail <<= st.regular_requests < 40 ? st.regular_requests : 40;
    auto track = [&](size_t from) {
#if FAM == 1
      // a region mapped in a step belongs to the pool that then has room in it: found by
      // the next element; recorded only where it is certain
      (void)from;
#else
      (void)from;
#endif
    };
    for (size_t i = 3; i < w.size(); ++i) {
      size_t from = st.regions.size();
      c[w[i] >> 8]->step(w[i] & 255, world);
      track(from);
      CHECK(st.error.empty(), "%s", st.error.c_str());
      if (!w[0]) CHECK(st.huge_requests == 0, "hugepages requested although disabled");
      for (auto& x : c) x->check(world, "after a step");
#if FAM == 1 && defined(ALLOCATOR_STATS)
      bool deep = false;
      for (auto& x : c) deep = deep || x->size() > x->leaf_capacity();
      if (deep)
        CHECK(world.internal->get_current_usage() > 0,
              "trees of several leaves and nothing in the internal pool");
      if (world.internal->get_allocations() == 0) CHECK(!deep, "no internal node");
      CHECK(world.leaf->get_current_usage() > 0, "nothing in the leaf pool");
#endif
    }
    mc::Hash128 h;
    for (auto& x : c) x->hash(h);
    h.add(st.regions.size());
    seen.insert(h);
    // the pools live as long as their last user
#if FAM == 1
    if (w.size() % 2) {
      world.leaf.reset();
      world.internal.reset();
      for (auto& x : c) x->check(world, "after the pools were given up by their creator");
    }
#elif FAM >= 2
    if (w.size() % 2) {
      world.ms.reset();
      for (auto& x : c) x->check(world, "after the pool was given up by its creator");
    }
#endif
    for (auto& x : c) {
      x->close();
      for (auto& y : c)
        if (y->size()) y->check(world, "while another container is destroyed");
    }
  }
#if FAM == 1
  if (world.leaf) {
#ifdef ALLOCATOR_STATS
    CHECK(world.leaf->get_current_usage() == 0 && world.internal->get_current_usage() == 0,
          "all trees are gone and %zu + %zu bytes are in use",
          (size_t)world.leaf->get_current_usage(),
          (size_t)world.internal->get_current_usage());
#endif
    world.leaf.reset();
    CHECK(st.live() > 0, "the internal pool went away with the leaf pool");
    world.internal.reset();
  }
#elif FAM >= 2
  if (world.ms) {
#ifdef ALLOCATOR_STATS
    for (auto& [c, p] : world.ms->get_pools())
      CHECK(p->get_current_usage() == 0, "all containers are gone and class %zu has %zu "
            "bytes in use", (size_t)c, (size_t)p->get_current_usage());
#endif
    world.ms.reset();
  }
#endif
  CHECK(st.error.empty(), "%s", st.error.c_str());
  CHECK(st.live() == 0, "%zu regions are still mapped at the end", st.live());
  st.on = false;
}

// repeated build-up and tear-down: 4 rounds of the given ops need no more memory than 2
// words: 0xffff, huge, ops of a round...
void run_rounds(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_hist;
  st.reset();
  st.on = true;
  World world;
  world.open(w.at(1));
  {
    TreeCont<int64_t, uint64_t, 8, 8> a(1);
    TreeCont<uint32_t, V1, 9, 10> b(2);
    ContBase* c[2] = {&a, &b};
    for (auto* x : c) x->open(world);
    size_t after2 = 0;
    for (int round = 0; round < 5; ++round) {
      for (size_t i = 2; i < w.size(); ++i) c[w[i] >> 8 & 1]->step(w[i] & 255, world);
      for (auto* x : c) {
        x->check(world, "after a round");
        x->step(CLEAR, world);
      }
      a.next = b.next = 0;
      if (round == 1) after2 = st.regions.size();
      if (round > 1)
        CHECK(st.regions.size() == after2,
              "round %d of the same steps mapped more memory", round + 1);
    }
    for (auto* x : c) x->close();
  }
  st.on = false;
}

void replay(const Words& w) {
  if (w.at(0) == 0xffff)
    run_rounds(w);
  else
    run_case(w);
}
bool explore() {
  t0 = mc::now_s();
  budget = mc::time_budget();
  uint32_t depth = static_cast<uint32_t>(par.get("depth", 3));
  uint32_t hp = static_cast<uint32_t>(par.get("huge_patterns", 8));
  uint32_t rp = static_cast<uint32_t>(par.get("regular_patterns", 1));
  bool ex = true;
  std::function<void(Words&, uint32_t)> rec = [&](Words& w, uint32_t left) {
    for (uint32_t t = 0; t < 3; ++t)
      for (uint32_t op = 0; op < NOPS; ++op) {
        if (mc::now_s() - t0 > budget) {
          ex = false;
          return;
        }
        w.push_back(t << 8 | op);
        ++n_trans;
        run_case(w);
        if (left > 1) rec(w, left - 1);
        w.pop_back();
      }
  };
  for (uint32_t rf = 0; rf < rp; ++rf)
    for (uint32_t h = 0; h < 2; ++h)
      for (uint32_t hf = 0; hf < (h ? hp : 1); ++hf) {
        Words w{h, hf * 1u, rf};
        if (depth > 1) w.push_back(rf & 1 ? 0x100 : 0);  // start from something
        rec(w, depth);
      }
  if (FAM < 3 && par.get("rounds", 1))
    for (uint32_t h = 0; h < 2; ++h)
      for (uint32_t a = 0; a < NOPS; ++a)
        for (uint32_t b = 0; b < NOPS; ++b)
          for (uint32_t c = 0; c < NOPS; ++c) {
            if ((a == RENEW || b == RENEW || c == RENEW) && FAM == 0) continue;
            run_rounds({0xffff, h, 0u, 0x100u, a, 0x100u | b, 0x100u | c, 0u, c});
            ++n_trans;
          }
  mc::counter("states") = seen.size();
  mc::counter("transitions") = n_trans;
  mc::counter("histories") = n_hist;
  mc::counter("checked_calls") = n_calls;
  mc::counter("requests_that_failed") = n_failed;
  std::string o = "last history:";
  for (uint32_t x : mc::current) o += fmt(" %u", x);
  mc::samples.push_back(o);
  return ex;
}
int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, replay);
}
