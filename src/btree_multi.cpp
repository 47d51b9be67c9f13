// Explicit-state exploration of several btrees and the whole-container operations
// between them: copy, move, assignment, swap, clear, construction from ranges.
// Every sequence of operations up to a depth, from every combination of initial
// contents and allocators.  See DESIGN.md.
#include "track.hpp"
#include "wrapmem.hpp"

#include <fast_containers/btree.hpp>
#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <algorithm>
#include <list>
#include <optional>
#include <unordered_set>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef KEY
#define KEY int64_t
#endif
#ifndef VAL
#define VAL dom::Obj
#endif
#ifndef LN
#define LN 8
#endif
#ifndef IN
#define IN 8
#endif
#ifndef MODE
#define MODE Binary
#endif
#ifndef AL  // 0 std, 1 Track, 2.. Arena, 6 HugePage, 7 Policy, 8 MultiSize, 9.. fresh Arena
#define AL 2
#endif

using K = KEY;
using V = VAL;
using KD = dom::KeyDom<K>;
using VD = dom::ValDom<V>;
using P = std::pair<K, V>;

#if AL == 0
using Alloc = std::allocator<P>;
#elif AL == 1
using Alloc = trk::Track<P>;
#elif AL == 2
using Alloc = trk::Arena<P, false, false>;
#elif AL == 3
using Alloc = trk::Arena<P, true, false>;
#elif AL == 4
using Alloc = trk::Arena<P, false, true>;
#elif AL == 5
using Alloc = trk::Arena<P, true, true>;
#elif AL == 9
using Alloc = trk::Arena<P, false, false, true>;
#elif AL == 10
using Alloc = trk::Arena<P, true, true, true>;
#elif AL == 6
using Alloc = fc::HugePageAllocator<P>;
#elif AL == 7
using Alloc = fc::PolicyBasedHugePageAllocator<P, fc::TwoPoolPolicy>;
#else
using Alloc = fc::MultiSizeHugePageAllocator<P>;
#endif
constexpr bool kArena = (AL >= 2 && AL <= 5) || AL >= 9;
constexpr bool kPool = AL >= 6 && AL <= 8;
constexpr bool kSwapUnequalOk = !(AL == 2 || AL == 3 || AL == 9);

using TreeG = fc::btree<K, V, LN, IN, std::less<K>, fc::SearchMode::MODE, Alloc>;

std::vector<Alloc> g_alloc;  // by allocator id, for the running case
constexpr size_t POOL = 64 << 10;
Alloc make_alloc(int id) {
#if AL <= 1
  (void)id;
  return Alloc{};
#elif AL <= 5 || AL >= 9
  return Alloc(id + 1);
#else
  return g_alloc.at(id);
#endif
}
void open_pools() {
#if AL == 6
  for (int i = 0; i < 2; ++i) g_alloc.emplace_back(POOL, i == 1, POOL);
#elif AL == 7
  for (int i = 0; i < 2; ++i)
    g_alloc.push_back(
        fc::make_two_pool_allocator<K, V>(POOL, POOL, i == 1, POOL, POOL));
#elif AL == 8
  for (int i = 0; i < 2; ++i)
    g_alloc.push_back(
        fc::make_multi_size_hugepage_allocator<P>(POOL, i == 1, POOL));
#endif
}

constexpr uint32_t SIZES[] = {0, 1, 3, LN, LN + 1, 3 * LN, 9 * LN};
constexpr uint32_t NSIZES = 7;
constexpr uint32_t TT = 100000;

enum Op : uint32_t {
  CCOPY = 1,   // slot b reconstructed as a copy of a
  CMOVE,       // slot b reconstructed by moving a
  ACOPY,       // b = a
  AMOVE,       // b = std::move(a)
  SWAP,        // a.swap(b)
  CLEAR,       // a.clear()
  INSERT,      // into a, position b (0 front, 1 middle, 2 end)
  ERASE,       // from a, rank b
  RANGE,       // slot a from a range (b: 0 sorted vector, 1 with repeats, reversed,
               // 2 from the iterators of the other slot, 3 single-pass)
  ILIST,       // slot a from an initialiser list
  FRESH,       // slot a empty with allocator b
  DRAIN,       // erase everything from a, one by one
  FILL,        // insert 3*LN keys into a
  STDSWAP,     // std::swap(a, b)
  COPYALLOC,   // get_allocator() of a used for a new tree in slot b
  ASSIGN,      // another value for the element of a at position b
  BUILD,       // slot 0 from a range: bits 21-23 its kind (see build), the others
               // up to seven keys of three bits, ended by 0
};
const char* opname(uint32_t k) {
  static const char* n[] = {"init", "copy-construct", "move-construct",
                            "copy-assign", "move-assign", "swap", "clear",
                            "insert", "erase", "from-range", "from-list",
                            "fresh", "drain", "fill", "std::swap",
                            "same-allocator", "assign-value", "build-from-range"};
  return k < 18 ? n[k] : "?";
}
uint32_t W(uint32_t k, uint32_t a, uint32_t b = 0) { return k << 24 | a << 12 | b; }
// first word: 0x80000000 | nslots << 24 | (size index, allocator id) per slot
uint32_t init_word(uint32_t n, const uint32_t* sz, const uint32_t* id) {
  uint32_t w = 0x80000000u | n << 24;
  for (uint32_t i = 0; i < n; ++i) w |= (sz[i] | id[i] << 3) << (4 * i);
  return w;
}

// The other kind of first word, for two trees with given contents: 0xC0000000 |
// allocator of the second << 8 | size of the universe; two words follow, the keys of
// the universe that each tree lacks.
uint32_t pair_word(uint32_t universe, uint32_t id) {
  return 0xC0000000u | id << 8 | universe;
}
size_t header(const Words& w) { return w[0] >> 30 == 3 ? 3 : 1; }

std::unordered_set<mc::Hash128, mc::Hash128Hash> seen;
uint64_t n_hist = 0, n_calls = 0, n_checks = 0, n_iters = 0;

// A single-pass input iterator, as over a stream.
struct Once {
  struct Source {
    const std::vector<P>* v;
    size_t at;
  };
  using iterator_category = std::input_iterator_tag;
  using value_type = P;
  using difference_type = std::ptrdiff_t;
  using pointer = const P*;
  using reference = const P&;
  Source* s;
  bool done() const { return !s || s->at == s->v->size(); }
  reference operator*() const { return (*s->v)[s->at]; }
  pointer operator->() const { return &(*s->v)[s->at]; }
  Once& operator++() {
    ++s->at;
    return *this;
  }
  Once operator++(int) {
    Once o = *this;
    ++*this;
    return o;
  }
  friend bool operator==(const Once& a, const Once& b) {
    return a.done() == b.done();
  }
};

template <class Tree>
struct Multi {
  struct Slot {
    std::optional<Tree> t;
    std::vector<std::pair<uint32_t, uint32_t>> ref;  // code, vid
    int id = 0;       // allocator identity; -1: unknown
  };
  std::vector<Slot> s;
  uint32_t next_vid = 1;

  static K key(uint32_t code) { return KD::make(code, TT, 2, false, 0); }

  void put(Slot& sl, uint32_t code) {
    uint32_t vid = next_vid++;
    trk::reg.from = 0;
    auto [it, ins] = sl.t->insert(key(code), VD::make(vid));
    if constexpr (kArena) {
      // every node, leaf or internal, comes from the allocator the tree reports
      uint64_t own = uint64_t{1} << sl.t->get_allocator().id;
      CHECK(!(trk::reg.from & ~own),
            "insert allocates from another allocator than the tree's own %d",
            sl.t->get_allocator().id);
    }
    auto p = std::lower_bound(sl.ref.begin(), sl.ref.end(),
                              std::make_pair(code, 0u));
    bool has = p != sl.ref.end() && p->first == code;
    CHECK(ins == !has, "insert reports %d", ins);
    if (!has) sl.ref.insert(p, {code, VD::norm(vid)});
    CHECK(it->first == key(code), "insert returns another element");
  }
  void fill(Slot& sl, uint32_t n, uint32_t base, uint32_t step) {
    for (uint32_t i = 0; i < n; ++i) put(sl, base + step * (i * 7 % n ? i : i));
  }

  void check_slot(size_t i, const char* what) {
    ++n_checks;
    Slot& sl = s[i];
    Tree& t = *sl.t;
    const Tree& ct = t;
    size_t n = sl.ref.size();
    CHECK(ct.size() == n && ct.empty() == (n == 0),
          "after %s: tree %zu has size %zu, expected %zu", what, i, ct.size(), n);
    size_t j = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++j) {
      CHECK(j < n, "after %s: tree %zu iterates past %zu elements", what, i, n);
      CHECK(it->first == key(sl.ref[j].first),
            "after %s: tree %zu has a wrong key at %zu", what, i, j);
      CHECK(VD::get(it->second) == sl.ref[j].second,
            "after %s: tree %zu has a wrong value at %zu", what, i, j);
    }
    CHECK(j == n, "after %s: tree %zu iterates over %zu of %zu", what, i, j, n);
    j = n;
    for (auto it = ct.rbegin(); it != ct.rend(); ++it) {
      CHECK(j-- > 0, "after %s: reverse iteration of tree %zu", what, i);
      CHECK(it->first == key(sl.ref[j].first),
            "after %s: reverse iteration of tree %zu at %zu", what, i, j);
    }
    CHECK(j == 0, "after %s: reverse iteration of tree %zu", what, i);
    if (n) {
      auto e = t.end();
      --e;
      CHECK(e->first == key(sl.ref.back().first),
            "after %s: --end() of tree %zu", what, i);
      auto r = t.rend();
      --r;
      CHECK(r->first == key(sl.ref.front().first),
            "after %s: --rend() of tree %zu", what, i);
    }
    for (j = 0; j < n; ++j) {
      uint32_t c = sl.ref[j].first;
      auto f = t.find(key(c));
      CHECK(f != t.end() && VD::get(f->second) == sl.ref[j].second,
            "after %s: find in tree %zu", what, i);
      if (j == 0 || sl.ref[j - 1].first != c - 1) {
        CHECK(!ct.contains(key(c - 1)), "after %s: contains in tree %zu", what, i);
        auto lb = t.lower_bound(key(c - 1));
        CHECK(lb == f, "after %s: lower_bound in tree %zu", what, i);
      }
      auto ub = t.upper_bound(key(c));
      if (j + 1 < n)
        CHECK(ub != t.end() && ub->first == key(sl.ref[j + 1].first),
              "after %s: upper_bound in tree %zu", what, i);
      else
        CHECK(ub == t.end(), "after %s: upper_bound at the end of tree %zu", what,
              i);
    }
    CHECK(!ct.contains(key(1)) && t.lower_bound(key(199999)) == t.end(),
          "after %s: absent keys in tree %zu", what, i);
  }
  void check_all(const char* what) {
    for (size_t i = 0; i < s.size(); ++i) check_slot(i, what);
    // nothing is shared
    if (s.size() > 1) {
      std::vector<std::pair<const void*, size_t>> at;
      for (size_t i = 0; i < s.size(); ++i)
        for (auto it = s[i].t->begin(); it != s[i].t->end(); ++it)
          at.push_back({&it->second, i});
      std::sort(at.begin(), at.end());
      for (size_t i = 1; i < at.size(); ++i)
        CHECK(at[i].first != at[i - 1].first,
              "after %s: trees %zu and %zu share an element", what, at[i].second,
              at[i - 1].second);
    }
    if constexpr (dom::Counted<V>) {
      int64_t stored = 0;
      for (auto& sl : s) stored += sl.ref.size();
      CHECK(dom::ledger.payload == stored,
            "after %s: %lld resources are alive for %lld elements", what,
            (long long)dom::ledger.payload, (long long)stored);
    }
    if constexpr (std::is_same_v<K, dom::OKey> && !kPool) {
      int64_t most = trk::reg.live.size();
      for (auto& sl : s) most += sl.ref.size();
      CHECK(dom::kledger.payload <= most &&
                dom::kledger.payload + static_cast<int64_t>(s.size()) >= most,
            "after %s: %lld keys own something; %lld elements and nodes", what,
            (long long)dom::kledger.payload, (long long)most);
    }
    if constexpr (kPool)
      CHECK(wm::st.error.empty(), "after %s: %s", what, wm::st.error.c_str());
  }

  // which elements sit together in which node, and who shares an allocator
  mc::Hash128 state() {
    mc::Hash128 h;
    for (size_t i = 0; i < s.size(); ++i) {
      h.add(1000000 + i);
      const char* prev = nullptr;
      uint64_t g = 0;
      for (auto it = s[i].t->begin(); it != s[i].t->end(); ++it) {
        auto p = reinterpret_cast<const char*>(&it->second);
        if (prev && p == prev + sizeof(V)) {
          ++g;
        } else {
          h.add(g);
          g = 1;
        }
        prev = p;
      }
      h.add(g);
      for (auto& [c, v] : s[i].ref) h.add(c);
      for (size_t j = 0; j < i; ++j) h.add(equal_alloc(i, j));
      if constexpr (AL >= 9) h.add(arena_of(i));
    }
    return h;
  }

  template <class S = Slot>
  int arena_of(size_t i) {
    return static_cast<S&>(s[i]).t->get_allocator().id;
  }
  bool equal_alloc(size_t a, size_t b) {
    return s[a].t->get_allocator() == s[b].t->get_allocator();
  }

  using Iter = typename Tree::iterator;
  void do_swap(size_t a, size_t b) {
    Slot &x = s[a], &y = s[b];
    std::vector<std::pair<Iter, const void*>> ix, iy;
    for (auto it = x.t->begin(); it != x.t->end(); ++it)
      ix.push_back({it, &it->second});
    for (auto it = y.t->begin(); it != y.t->end(); ++it)
      iy.push_back({it, &it->second});
    x.t->swap(*y.t);
    if (a != b) {
      std::swap(x.ref, y.ref);
      std::swap(x.id, y.id);
    }
    auto& nx = a == b ? ix : iy;  // now in x
    auto& ny = a == b ? ix : ix;
    auto verify = [&](std::vector<std::pair<Iter, const void*>>& v, Slot& sl,
                      const char* w) {
      CHECK(v.size() == sl.ref.size(), "swap: %s: element count", w);
      size_t j = 0;
      for (auto& [it, addr] : v) {
        ++n_iters;
        CHECK(&it->second == addr, "swap: %s: an iterator moved", w);
        CHECK(it->first == key(sl.ref[j].first) &&
                  VD::get(it->second) == sl.ref[j].second,
              "swap: %s: an iterator denotes another element", w);
        CHECK(sl.t->find(key(sl.ref[j].first)) == it,
              "swap: %s: an iterator is not in the other tree", w);
        auto nxt = it;
        ++nxt;
        if (j + 1 < v.size())
          CHECK(nxt == v[j + 1].first, "swap: %s: ++ of an old iterator", w);
        else
          CHECK(nxt == sl.t->end(), "swap: %s: ++ of the last old iterator", w);
        if (j > 0) {
          auto prv = it;
          --prv;
          CHECK(prv == v[j - 1].first, "swap: %s: -- of an old iterator", w);
        } else {
          CHECK(it == sl.t->begin(), "swap: %s: first old iterator", w);
        }
        ++j;
      }
    };
    verify(nx, x, "first tree");
    if (a != b) verify(ny, y, "second tree");
  }

  // A tree from a range of any kind holds the first of the elements with each key.
  void build(uint32_t kind, uint32_t codes) {
    Slot& sl = s[0];
    sl.t.reset();
    sl.ref.clear();
    std::vector<P> v;
    for (; codes & 7; codes >>= 3) {
      uint32_t c = 1001 + 2 * (codes & 7), vid = next_vid++;
      v.emplace_back(key(c), VD::make(vid));
      auto p = std::lower_bound(sl.ref.begin(), sl.ref.end(), std::make_pair(c, 0u));
      if (p == sl.ref.end() || p->first != c) sl.ref.insert(p, {c, VD::norm(vid)});
    }
    const auto n = v.size();
    const P* d = v.data();
    switch (kind) {
      case 0:
        sl.t.emplace(v.begin(), v.end(), make_alloc(1));
        break;
      case 1: {
        Once::Source src{&v, 0};
        sl.t.emplace(Once{&src}, Once{nullptr}, make_alloc(1));
        CHECK(src.at == n, "single-pass range: read %zu of %zu", src.at, n);
        break;
      }
      case 2:
        sl.t.emplace(d, d + n, make_alloc(1));
        break;
      case 3: {
        std::list<P> l(v.begin(), v.end());
        sl.t.emplace(l.begin(), l.end(), make_alloc(1));
        break;
      }
      case 4: {
        std::vector<P> r(v.rbegin(), v.rend());
        sl.t.emplace(r.rbegin(), r.rend(), make_alloc(1));
        break;
      }
      case 5: {
        std::vector<std::pair<const K, V>> q(v.begin(), v.end());
        sl.t.emplace(q.cbegin(), q.cend(), make_alloc(1));
        break;
      }
      case 6: {
        using L = std::initializer_list<P>;
        Alloc al = make_alloc(1);
        if (n == 0) sl.t.emplace(L{}, al);
        else if (n == 1) sl.t.emplace(L{d[0]}, al);
        else if (n == 2) sl.t.emplace(L{d[0], d[1]}, al);
        else if (n == 3) sl.t.emplace(L{d[0], d[1], d[2]}, al);
        else if (n == 4) sl.t.emplace(L{d[0], d[1], d[2], d[3]}, al);
        else if (n == 5) sl.t.emplace(L{d[0], d[1], d[2], d[3], d[4]}, al);
        else if (n == 6) sl.t.emplace(L{d[0], d[1], d[2], d[3], d[4], d[5]}, al);
        else sl.t.emplace(L{d[0], d[1], d[2], d[3], d[4], d[5], d[6]}, al);
        break;
      }
      default:
        mc::fail("bad case: unknown kind of range");
    }
    CHECK(sl.t->size() == sl.ref.size(), "range of kind %u: size %zu for %zu", kind,
          sl.t->size(), sl.ref.size());
  }

  // true: done; false: not applicable here
  bool apply(uint32_t w) {
    if constexpr (kArena)
      return apply_watching_arenas(w);
    else
      return apply_op(w);
  }

  // The allocator of each tree is the one the call gives it, and new nodes come from it.
  template <class A = Alloc>
  bool apply_watching_arenas(uint32_t w) {
    uint32_t k = w >> 24, a = (w >> 12) & 0xfff, b = w & 0xfff;
    std::vector<int> id;
    for (auto& x : s) id.push_back(x.t->get_allocator().id);
    trk::reg.from = 0;
    // the trees that may take nodes; the others may not
    uint64_t takes = 0;
    if (!apply_op(w)) return false;
    using Traits = std::allocator_traits<Alloc>;
    switch (k) {
      case CCOPY:
        id[b] = A::id_of_copy(id[a]);
        takes = uint64_t{1} << id[b];
        break;
      case CMOVE:
        id[b] = id[a];
        takes = uint64_t{1} << id[a];
        break;
      case ACOPY:
        takes = uint64_t{1} << id[b];
        break;
      case AMOVE:
        takes = uint64_t{1} << id[a] | uint64_t{1} << id[b];
        if (Traits::propagate_on_container_move_assignment::value) id[b] = id[a];
        break;
      case SWAP:
        if (Traits::propagate_on_container_swap::value) std::swap(id[a], id[b]);
        break;
      case STDSWAP:  // may be made of moves
        takes = uint64_t{1} << id[a] | uint64_t{1} << id[b];
        if (s[a].t->get_allocator().id != id[a]) std::swap(id[a], id[b]);
        break;
      case COPYALLOC:
        id[b] = id[a];
        takes = uint64_t{1} << id[b];
        break;
      case FRESH:
        id[a] = A(make_alloc(b)).id;
        takes = uint64_t{1} << id[a];
        break;
      case RANGE:
        id[a] = A(make_alloc(b == 2 ? 0 : 1)).id;
        takes = uint64_t{1} << id[a];
        break;
      case ILIST:
        id[a] = A(make_alloc(0)).id;
        takes = uint64_t{1} << id[a];
        break;
      case BUILD:
        return true;
      default:
        takes = uint64_t{1} << id[a];
    }
    for (size_t i = 0; i < s.size(); ++i)
      CHECK(s[i].t->get_allocator().id == id[i],
            "the allocator of tree %zu after the call is %d, expected %d", i,
            s[i].t->get_allocator().id, id[i]);
    CHECK(!(trk::reg.from & ~takes), "nodes from arenas %llx, expected only %llx",
          static_cast<unsigned long long>(trk::reg.from),
          static_cast<unsigned long long>(takes));
    return true;
  }

  bool apply_op(uint32_t w) {
    uint32_t k = w >> 24, a = (w >> 12) & 0xfff, b = w & 0xfff;
    ++n_calls;
    switch (k) {
      case CCOPY: {
        Slot& d = s[b];
        d.t.reset();
        const Tree& src = *s[a].t;
        d.t.emplace(src);
        d.ref = s[a].ref;
        d.id = s[a].id;
        return true;
      }
      case CMOVE: {
        Slot& d = s[b];
        d.t.reset();
        std::vector<const void*> at;
        for (auto it = s[a].t->begin(); it != s[a].t->end(); ++it)
          at.push_back(&it->second);
        d.t.emplace(std::move(*s[a].t));
        d.ref = std::move(s[a].ref);
        s[a].ref.clear();
        d.id = s[a].id;
        return true;
      }
      case ACOPY: {
        const Tree& src = *s[a].t;
        Tree& r = (*s[b].t = src);
        CHECK(&r == &*s[b].t, "copy assignment returns another object");
        if (a != b) s[b].ref = s[a].ref;
        return true;
      }
      case AMOVE: {
        Tree& src = *s[a].t;
        Tree& r = (*s[b].t = std::move(src));
        CHECK(&r == &*s[b].t, "move assignment returns another object");
        if (a != b) {
          s[b].ref = std::move(s[a].ref);
          s[a].ref.clear();
        }
        return true;
      }
      case SWAP:
        if (!kSwapUnequalOk && !equal_alloc(a, b)) return false;
        do_swap(a, b);
        return true;
      case STDSWAP: {
        if (!kSwapUnequalOk && !equal_alloc(a, b)) return false;
        using std::swap;
        swap(*s[a].t, *s[b].t);
        if (a != b) std::swap(s[a].ref, s[b].ref);
        return true;
      }
      case CLEAR:
        s[a].t->clear();
        s[a].ref.clear();
        CHECK(s[a].t->begin() == s[a].t->end(), "begin() != end() after clear");
        return true;
      case INSERT: {
        Slot& sl = s[a];
        uint32_t code;
        if (sl.ref.empty())
          code = 101;
        else if (b == 0)
          code = sl.ref.front().first - 2;
        else if (b == 2)
          code = sl.ref.back().first + 2;
        else
          code = sl.ref[sl.ref.size() / 2].first + 2;
        put(sl, code);
        return true;
      }
      case ERASE: {
        Slot& sl = s[a];
        if (sl.ref.empty()) return false;
        size_t r = b == 0 ? 0 : b == 1 ? sl.ref.size() / 2 : sl.ref.size() - 1;
        size_t n = sl.t->erase(key(sl.ref[r].first));
        CHECK(n == 1, "erase returns %zu", n);
        sl.ref.erase(sl.ref.begin() + r);
        return true;
      }
      case RANGE: {
        Slot& sl = s[a];
        if (b == 2) {
          size_t o = (a + 1) % s.size();
          std::vector<std::pair<uint32_t, uint32_t>> r = s[o].ref;
          sl.t.reset();
          sl.t.emplace(s[o].t->begin(), s[o].t->end(), make_alloc(0));
          sl.ref = r;
        } else {
          std::vector<P> v;
          std::vector<std::pair<uint32_t, uint32_t>> r;
          uint32_t n = 2 * LN + 3;
          for (uint32_t i = 0; i < n; ++i) {
            uint32_t c = b != 1 ? 51 + 2 * i : 51 + 2 * ((n - i) / 2);
            uint32_t vid = next_vid++;
            v.emplace_back(key(c), VD::make(vid));
            auto p = std::lower_bound(r.begin(), r.end(), std::make_pair(c, 0u));
            if (p == r.end() || p->first != c) r.insert(p, {c, VD::norm(vid)});
          }
          sl.t.reset();
          if (b == 3) {
            // what has been read is gone for every copy of the iterator
            Once::Source src{&v, 0};
            sl.t.emplace(Once{&src}, Once{nullptr}, make_alloc(1));
            CHECK(src.at == v.size(), "from single-pass range: read %zu of %zu",
                  src.at, v.size());
          } else {
            sl.t.emplace(v.begin(), v.end(), make_alloc(1));
          }
          sl.ref = r;
        }
        return true;
      }
      case ILIST: {
        Slot& sl = s[a];
        uint32_t v1 = next_vid++, v2 = next_vid++, v3 = next_vid++, v4 = next_vid++;
        std::initializer_list<typename Tree::value_type> il{
            {key(61), VD::make(v1)},
            {key(41), VD::make(v2)},
            {key(61), VD::make(v3)},
            {key(51), VD::make(v4)}};
        sl.t.reset();
        sl.t.emplace(il, make_alloc(0));
        sl.ref = {{41, VD::norm(v2)}, {51, VD::norm(v4)}, {61, VD::norm(v1)}};
        check_all_but_payload = true;
        CHECK(sl.t->size() == 3, "initialiser list: size %zu", sl.t->size());
        return true;
      }
      case FRESH: {
        s[a].t.reset();
        s[a].t.emplace(make_alloc(b));
        s[a].ref.clear();
        return true;
      }
      case DRAIN: {
        Slot& sl = s[a];
        while (!sl.ref.empty()) {
          if (sl.ref.size() & 1) {
            auto nx = sl.t->erase(sl.t->begin());
            CHECK(nx == sl.t->begin(), "erase(begin())");
            sl.ref.erase(sl.ref.begin());
          } else {
            CHECK(sl.t->erase(key(sl.ref.back().first)) == 1, "erase(key)");
            sl.ref.pop_back();
          }
        }
        return true;
      }
      case FILL: {
        for (uint32_t i = 0; i < 3 * LN; ++i) put(s[a], 2001 + 2 * (i ^ 5));
        return true;
      }
      case ASSIGN: {
        Slot& sl = s[a];
        if (sl.ref.empty()) return false;
        size_t r = b == 0 ? 0 : b == 1 ? sl.ref.size() / 2 : sl.ref.size() - 1;
        uint32_t vid = next_vid++;
        auto [it, ins] =
            sl.t->insert_or_assign(key(sl.ref[r].first), VD::make(vid));
        CHECK(!ins && it->first == key(sl.ref[r].first), "insert_or_assign");
        sl.ref[r].second = VD::norm(vid);
        return true;
      }
      case BUILD:
        build(w >> 21 & 7, w & 0x1fffff);
        return true;
      case COPYALLOC: {
        s[b].t.reset();
        s[b].t.emplace(s[a].t->get_allocator());
        s[b].ref.clear();
        return true;
      }
    }
    mc::fail("bad case: unknown operation");
  }
  bool check_all_but_payload = false;

  void init(const Words& words) {
    uint32_t w = words[0];
    if (header(words) == 3) {
      if (words.size() < 3) mc::fail("bad case: contents missing");
      s.resize(2);
      uint32_t u = w & 0xff;
      for (uint32_t i = 0; i < 2; ++i) {
        s[i].id = i ? w >> 8 & 1 : 0;
        s[i].t.emplace(make_alloc(s[i].id));
        for (uint32_t j = 0; j < u; ++j)
          if (!(words[1 + i] >> j & 1)) put(s[i], 1001 + 2 * j);
      }
      return;
    }
    uint32_t n = (w >> 24) & 7;
    s.resize(n);
    for (uint32_t i = 0; i < n; ++i) {
      uint32_t c = (w >> (4 * i)) & 15;
      s[i].id = c >> 3;
      s[i].t.emplace(make_alloc(c >> 3));
      for (uint32_t j = 0; j < SIZES[c & 7]; ++j)
        put(s[i], 1001 + 60 * i + 2 * j);
    }
  }
};

// runs a case; returns whether the last operation was applicable
bool run(const Words& w, bool check_each = false) {
  mc::begin_case(w);
  mc::current = w;
  ++n_hist;
  trk::reg.reset();
  dom::ledger = dom::kledger = dom::Ledger{};
  bool ok = true;
  if (kPool) {
    wm::st.reset();
    wm::st.on = true;
    open_pools();
  }
  {
    Multi<TreeG> m;
    m.init(w);
    for (size_t i = header(w); i < w.size(); ++i) {
      ok = m.apply(w[i]);
      if (check_each) m.check_all(opname(w[i] >> 24));
    }
    const char* last = w.size() > header(w) ? opname(w.back() >> 24) : "init";
    m.check_all(last);
    seen.insert(m.state());
    // every tree stays usable and independent
    for (size_t i = 0; i < m.s.size(); ++i) {
      m.put(m.s[i], 3);
      m.put(m.s[i], 90001);
      if (m.s[i].ref.size() > 2) {
        size_t mid = m.s[i].ref.size() / 2;
        m.s[i].t->erase(m.key(m.s[i].ref[mid].first));
        m.s[i].ref.erase(m.s[i].ref.begin() + mid);
      }
      m.check_all("a later change");
    }
    // destroy in an order that depends on the case
    size_t n = m.s.size();
    for (size_t i = 0; i < n; ++i) {
      size_t d = (i + w.size()) % n;
      m.s[d].t.reset();
      m.s[d].ref.clear();
      for (size_t j = 0; j < n; ++j)
        if (m.s[j].t) m.check_slot(j, "the destruction of another tree");
    }
    CHECK(trk::reg.live.empty(), "after %s: %zu nodes leaked", last,
          trk::reg.live.size());
    CHECK(dom::kledger.live == 0 && dom::kledger.payload == 0,
          "after %s: %lld keys leaked", last, (long long)dom::kledger.live);
    if constexpr (dom::Counted<V>)
      CHECK(dom::ledger.live == 0 && dom::ledger.payload == 0,
            "after %s: %lld values leaked", last, (long long)dom::ledger.live);
  }
  if (kPool) {
    g_alloc.clear();
    CHECK(wm::st.error.empty(), "%s", wm::st.error.c_str());
    CHECK(wm::st.live() == 0, "%zu regions are still mapped after everything is "
          "destroyed", wm::st.live());
    wm::st.on = false;
  }
  return ok;
}

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
double t0, budget;

// Every pair of contents over a universe: all subsets of a small one, all but `lack`
// keys of a larger one; every call between the two trees, and every pair of calls that
// changes one element in between.
bool explore_pairs() {
  t0 = mc::now_s();
  budget = mc::time_budget();
  uint32_t u = static_cast<uint32_t>(par.get("pairs", 5));
  uint32_t lack = static_cast<uint32_t>(par.get("lack", 99));
  uint32_t second = static_cast<uint32_t>(par.get("second", lack));
  uint64_t pairs = 0, trans = 0;
  std::vector<Words> tails;
  for (uint32_t a = 0; a < 2; ++a) {
    for (uint32_t k : {ACOPY, AMOVE, CCOPY, CMOVE, SWAP, STDSWAP})
      if ((k != SWAP && k != STDSWAP) || a == 0) tails.push_back({W(k, a, 1 - a)});
    tails.push_back({W(RANGE, a, 2)});
  }
  if (par.get("again", 0))
    for (uint32_t k : {ACOPY, AMOVE, SWAP})
      for (uint32_t x : {0u, 1u})
        for (uint32_t e : {ASSIGN, INSERT, ERASE})
          for (uint32_t k2 : {ACOPY, AMOVE, SWAP})
            tails.push_back({W(k, 0, 1), W(e, x, 1), W(k2, 0, 1)});
  auto runs = [&](uint32_t m0, uint32_t m1) {
    for (uint32_t id = 0; id < (AL >= 2 ? 2u : 1u); ++id)
      for (const Words& t : tails) {
        Words w{pair_word(u, id), m0, m1};
        w.insert(w.end(), t.begin(), t.end());
        trans += t.size();
        run(w);
      }
    ++pairs;
  };
  std::vector<uint32_t> sets;
  for (uint32_t m = 0; m < (1u << u); ++m)
    if (static_cast<uint32_t>(__builtin_popcount(m)) <= lack) sets.push_back(m);
  bool exhaustive = true;
  for (uint32_t m0 : sets)
    for (uint32_t m1 : sets) {
      if (static_cast<uint32_t>(__builtin_popcount(m1)) > second) continue;
      if (mc::now_s() - t0 > budget) {
        exhaustive = false;
        break;
      }
      if (mc::samples.size() < 3 && pairs % 97 == 5)
        mc::samples.push_back(fmt("two trees over %u keys lacking the sets %x and %x: "
                                  "%zu sequences of calls between them", u, m0, m1,
                                  tails.size()));
      runs(m0, m1);
    }
  mc::counter("states") = seen.size();
  mc::counter("sequences") = n_hist;
  mc::counter("transitions") = trans;
  mc::counter("histories") = n_hist;
  mc::counter("calls") = n_calls;
  mc::counter("checked_calls") = n_checks;
  mc::counter("pairs_of_contents") = pairs;
  mc::counter("iterators_checked_across_swap") = n_iters;
  return exhaustive;
}

// A tree from every sequence of up to n elements over u keys, for every kind of range.
bool explore_ranges() {
  t0 = mc::now_s();
  budget = mc::time_budget();
  uint32_t n = static_cast<uint32_t>(par.get("ranges", 6));
  uint32_t u = static_cast<uint32_t>(par.get("keys", 4));
  uint32_t sz[4] = {}, id[4] = {};
  uint64_t trans = 0;
  std::function<bool(uint32_t, uint32_t)> rec = [&](uint32_t codes, uint32_t len) {
    if (mc::now_s() - t0 > budget) return false;
    for (uint32_t kind = 0; kind < 7; ++kind) {
      run({init_word(1, sz, id), BUILD << 24 | kind << 21 | codes});
      ++trans;
    }
    if (len == n) return true;
    for (uint32_t k = 1; k <= u; ++k)
      if (!rec(codes | k << 3 * len, len + 1)) return false;
    return true;
  };
  mc::samples.push_back(fmt("a tree from every sequence of up to %u elements over %u "
                            "keys, as 7 kinds of range", n, u));
  bool exhaustive = rec(0, 0);
  mc::counter("states") = seen.size();
  mc::counter("transitions") = trans;
  mc::counter("histories") = n_hist;
  mc::counter("calls") = n_calls;
  mc::counter("checked_calls") = n_checks;
  mc::counter("ranges_built_from") = trans;
  return exhaustive;
}

bool explore() {
  if (par.get("pairs", 0)) return explore_pairs();
  if (par.get("ranges", 0)) return explore_ranges();
  t0 = mc::now_s();
  budget = mc::time_budget();
  uint32_t nslots = static_cast<uint32_t>(par.get("slots", 2));
  uint32_t depth = static_cast<uint32_t>(par.get("depth", 3));
  std::vector<uint32_t> ops;
  for (uint32_t a = 0; a < nslots; ++a) {
    for (uint32_t b = 0; b < nslots; ++b) {
      if (a != b) {
        ops.push_back(W(CCOPY, a, b));
        ops.push_back(W(CMOVE, a, b));
        if (AL) ops.push_back(W(COPYALLOC, a, b));
      }
      ops.push_back(W(ACOPY, a, b));
      ops.push_back(W(AMOVE, a, b));
      if (b >= a) {
        ops.push_back(W(SWAP, a, b));
        if (a != b) ops.push_back(W(STDSWAP, a, b));
      }
    }
    ops.push_back(W(CLEAR, a));
    ops.push_back(W(INSERT, a, a));
    ops.push_back(W(ERASE, a, 1));
    ops.push_back(W(ASSIGN, a, 1));
    ops.push_back(W(DRAIN, a));
    ops.push_back(W(FILL, a));
    ops.push_back(W(RANGE, a, a % 2));
    ops.push_back(W(RANGE, a, 2));
    if (a == 0) ops.push_back(W(RANGE, a, 3));
    ops.push_back(W(ILIST, a));
    ops.push_back(W(FRESH, a, a % 2));
  }
  long thin = par.get("thin", 1);
  bool exhaustive = true;
  uint64_t inits = 0, states = 0, trans = 0;
  uint32_t sz[4] = {}, id[4] = {};
  std::function<bool(Words&)> rec = [&](Words& w) -> bool {
    ++states;
    if (w.size() - 1 >= depth) return true;
    for (uint32_t op : ops) {
      if (mc::now_s() - t0 > budget) return false;
      w.push_back(op);
      ++trans;
      bool ok = run(w);
      bool r = true;
      if (ok) r = rec(w);
      w.pop_back();
      if (!r) return false;
    }
    return true;
  };
  std::function<bool(uint32_t)> inits_rec = [&](uint32_t i) -> bool {
    if (i == nslots) {
      if (inits++ % thin) return true;
      Words w{init_word(nslots, sz, id)};
      run(w);
      if (mc::samples.size() < 3 && inits % 7 == 1)
        mc::samples.push_back(fmt("from initial word %x (sizes %u,%u allocators "
                                  "%u,%u) every sequence of %u of %zu calls",
                                  w[0], SIZES[sz[0]], SIZES[sz[1]], id[0], id[1],
                                  depth, ops.size()));
      return rec(w);
    }
    for (sz[i] = 0; sz[i] < NSIZES; ++sz[i]) {
      if (i == 2 && sz[i] != 0 && sz[i] != 4) continue;
      for (id[i] = 0; id[i] < (AL >= 2 ? 2u : 1u); ++id[i]) {
        if (i == 0 && id[0] == 1) continue;  // symmetric
        if (i == 2 && id[2] == 0 && AL >= 2) continue;
        if (!inits_rec(i + 1)) return false;
      }
    }
    return true;
  };
  exhaustive = inits_rec(0);
  mc::counter("states") = seen.size();
  mc::counter("sequences") = states;
  mc::counter("transitions") = trans;
  mc::counter("histories") = n_hist;
  mc::counter("calls") = n_calls;
  mc::counter("checked_calls") = n_checks;
  mc::counter("initial_configurations") = inits;
  mc::counter("iterators_checked_across_swap") = n_iters;
  return exhaustive;
}
void replay(const Words& w) { run(w, true); }

int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, replay);
}
