// Explicit-state exploration of one btree: the states are real trees (reached by
// replaying a history on a fresh object), the transitions are API calls, the
// oracle is a sorted vector.  See DESIGN.md.
#ifdef COUNT_FORMS
#include "count.hpp"
#endif
#include "track.hpp"

#include <fast_containers/btree.hpp>

#include <algorithm>
#include <functional>
#include <unordered_set>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef KEY
#define KEY int64_t
#endif
#ifndef VAL
#define VAL uint32_t
#endif
#ifndef CMP
#define CMP std::less<KEY>
#endif
#ifndef LN
#define LN 8
#endif
#ifndef IN
#define IN 8
#endif
#ifndef MODE
#define MODE Linear
#endif
#ifndef ALLOC
#define ALLOC trk::Track
#endif

using K = KEY;
using V = VAL;
using C = CMP;
using KD = dom::KeyDom<K>;
using VD = dom::ValDom<V>;
using Tree = fc::btree<K, V, LN, IN, C, fc::SearchMode::MODE,
                       ALLOC<std::pair<K, V>>>;
constexpr bool kDesc = dom::is_descending<C>::value;

// ---- operations -------------------------------------------------------------
// word = kind << 24 | a << 12 | b
enum Kind : uint32_t {
  INS = 0,         // +flavour 0..6, gap a, tombstone option b
  UPS = 16,        // +flavour, existing rank a
  ERASE_KEY = 32,  // rank a
  ERASE_IT = 33,
  ERASE_RANGE = 34,  // [a, b)
  ERASE_ABSENT = 35,  // gap a
  CLEAR = 36,
  WRITE = 37,         // rank a, way b
  ERASE_PATTERN = 38,  // erase while iterating: modulus a, phase b (b>=64: inverse)
  ERASE_SELF = 39,     // erase(key) with a reference to the stored key
  POP_FRONT = 40,      // b times erase(begin())
  POP_BACK = 41,       // b times erase(prev(end()))
  ALIAS_INS = 64,   // +flavour, gap a, value is a reference to element rank b
  ALIAS_UPS = 80,   // +flavour, rank a, value is a reference to element rank b
  ALIAS_KEYVAL = 96,  // +flavour, gap a, key is a reference to the value of rank b
  FAULT_ALLOC = 120,  // the b-th allocation of the next op fails
  FAULT_VALUE = 121,  // the b-th value construction of the next op throws
  COPY_FAULT_ALLOC = 122,  // copy-construct the tree with the b-th allocation failing
  COPY_FAULT_VALUE = 123,
  ASSIGN_FAULT_ALLOC = 124,
  ASSIGN_FAULT_VALUE = 125,
  FAULT_DEFAULT = 126,  // the b-th default construction of a value in the next op throws
  COPY_FAULT_DEFAULT = 127,
  COUNT_NEW = 128,  // +form: insertion call in every argument form at gap a
  COUNT_OLD = 176,  // +form: the same for the key of rank a
  FAMILY = 240,
};
constexpr int NFLAV = 7;
inline uint32_t W(uint32_t k, uint32_t a, uint32_t b = 0) {
  return k << 24 | a << 12 | b;
}
inline uint32_t kind(uint32_t w) { return w >> 24; }
inline uint32_t A_(uint32_t w) { return (w >> 12) & 0xfff; }
inline uint32_t B_(uint32_t w) { return w & 0xfff; }
inline bool is_ins(uint32_t k) {
  return k < 16 || (k >= 64 && k < 80) || (k >= 96 && k < 112) ||
         (k >= COUNT_NEW && k < COUNT_OLD);
}

struct Elem {
  uint32_t code, rep, vid;
};

// ---- concretisation: rank histories to key codes ------------------------------
struct Plan {
  std::vector<uint32_t> code;  // key code of op i
  uint32_t T = 0;
  int layout = 0;
  std::vector<int> order;      // slot ids in key order (live and erased)
  std::vector<char> live;
};
inline Plan make_plan(const Words& w) {
  Plan p;
  std::vector<int> slot(w.size(), -1);
  auto& order = p.order;
  auto& live = p.live;
  std::vector<int> ranks;  // live slots in order (kept in step)
  auto pos_of = [&](int s) {
    return std::find(order.begin(), order.end(), s) - order.begin();
  };
  auto erase_rank = [&](uint32_t r) {
    live[ranks[r]] = 0;
    ranks.erase(ranks.begin() + r);
  };
  std::vector<std::pair<size_t, long>> gaps;  // op index, gap position
  for (size_t i = 0; i < w.size(); ++i) {
    uint32_t k = kind(w[i]), a = A_(w[i]), b = B_(w[i]);
    if (is_ins(k)) {
      if (a > ranks.size()) mc::fail("bad case: gap out of range");
      long lo = a == 0 ? 0 : pos_of(ranks[a - 1]) + 1;
      long hi = a == ranks.size() ? static_cast<long>(order.size())
                                  : pos_of(ranks[a]);
      uint32_t opt = k < 16 ? b : 0;
      if (hi > lo && opt >= 2) {
        int s = opt == 2 ? order[hi - 1] : order[lo];
        live[s] = 1;
        slot[i] = s;
      } else {
        int s = static_cast<int>(live.size());
        live.push_back(1);
        order.insert(order.begin() + (opt == 1 ? lo : hi), s);
        slot[i] = s;
      }
      ranks.insert(ranks.begin() + a, slot[i]);
    } else if (k >= UPS && k < 32) {
      slot[i] = ranks.at(a);
    } else if ((k >= ALIAS_UPS && k < 96) || (k >= COUNT_OLD && k < FAMILY)) {
      slot[i] = ranks.at(a);
    } else if (k == ERASE_KEY || k == ERASE_IT || k == ERASE_SELF) {
      slot[i] = ranks.at(a);
      erase_rank(a);
    } else if (k == ERASE_RANGE) {
      for (uint32_t j = a; j < b; ++j) erase_rank(a);
    } else if (k == CLEAR) {
      while (!ranks.empty()) erase_rank(0);
    } else if (k == POP_FRONT) {
      for (uint32_t j = 0; j < b && !ranks.empty(); ++j) erase_rank(0);
    } else if (k == POP_BACK) {
      for (uint32_t j = 0; j < b && !ranks.empty(); ++j)
        erase_rank(static_cast<uint32_t>(ranks.size()) - 1);
    } else if (k == ERASE_PATTERN) {
      std::vector<int> keep;
      bool inv = b >= 64;
      for (size_t j = 0; j < ranks.size(); ++j) {
        bool hit = (j % a) == (b & 63);
        if (hit != inv)
          live[ranks[j]] = 0;
        else
          keep.push_back(ranks[j]);
      }
      ranks = keep;
    } else if (k == WRITE) {
      slot[i] = ranks.at(a);
    } else if (k == FAULT_ALLOC || k == FAULT_VALUE || k == FAULT_DEFAULT) {
      // modifies the next op; its own effect is decided at run time: a plan
      // containing a fault must have it (and its op) at the very end
      if (i + 1 < w.size()) {
        uint32_t nw = w[i + 1];
        uint32_t nk = kind(nw);
        if (is_ins(nk)) {
          int s = static_cast<int>(live.size());
          live.push_back(0);
          uint32_t aa = A_(nw);
          long hi = aa == ranks.size() ? static_cast<long>(order.size())
                                       : pos_of(ranks[aa]);
          order.insert(order.begin() + hi, s);
          slot[i + 1] = s;
        } else if ((nk >= UPS && nk < 32) || nk == ERASE_KEY || nk == ERASE_IT) {
          slot[i + 1] = ranks.at(A_(nw));
        }
      }
      break;
    }
    if (k == ERASE_ABSENT) {
      long lo = a == 0 ? 0 : pos_of(ranks[a - 1]) + 1;
      gaps.push_back({i, -1 - (a == 0 ? -1 : ranks[a - 1])});
      (void)lo;
    }
  }
  p.T = static_cast<uint32_t>(order.size());
  p.code.assign(w.size(), 0);
  std::vector<uint32_t> pos(live.size());
  for (size_t i = 0; i < order.size(); ++i) pos[order[i]] = i;
  for (size_t i = 0; i < w.size(); ++i)
    if (slot[i] >= 0) p.code[i] = 2 * pos[slot[i]] + 1;
  for (auto& [i, g] : gaps) {
    long s = -1 - g;  // live predecessor slot, -1 for none
    p.code[i] = s < 0 ? 0 : 2 * pos[s] + 2;
  }
  if (p.T > KD::max_T()) mc::fail("bad case: too many keys for the key type");
  uint64_t h = w.size();
  for (uint32_t x : w) h = mc::splitmix(h ^ x);
  p.layout = static_cast<int>(h % dom::NLAYOUTS);
  // layouts that cannot hold this many distinct keys fall back to 0
  if (p.T && (!KD::ok(1, p.T, p.layout) || !KD::ok(2 * p.T - 1, p.T, p.layout)))
    p.layout = 0;
  return p;
}

// ---- shape of the tree ---------------------------------------------------------
template <class T>
concept NodesVisible = requires(typename T::leaf_node& l,
                                typename T::internal_node& n) {
  l.data.size();
  l.data.begin();
  l.next_leaf == l.prev_leaf;
  l.parent == n.parent;
  n.children_are_leaves ? 1 : 0;
  n.leaf_children.begin()->first;
  n.leaf_children.begin()->second;
  n.internal_children.begin()->second;
};

struct Shape {
  std::string text;             // canonical form
  std::vector<uint32_t> leaves;  // leaf sizes, left to right
  std::vector<uint32_t> inner;   // children of internal nodes other than the root
  int height = 0;
  size_t leaf_nodes = 0, internal_nodes = 0;
};

template <class Tree>
struct MachineT {
  Plan plan;
  const Words* words = nullptr;
  alignas(Tree) unsigned char buf[sizeof(Tree)];
  Tree* t = nullptr;
  std::vector<Elem> ref;
  bool slots_dirty = false;  // an unused slot may own something
  size_t walk_max = ~size_t{0};  // steps walked from a returned iterator
  uint64_t cmp_max = 0;

  K key(uint32_t code, uint32_t rep = 0) const {
    return KD::make(code, plan.T, plan.layout, kDesc, rep);
  }
  bool ok(uint32_t code) const {
    if (kDesc) code = 2 * plan.T - code;
    return KD::ok(code, plan.T, plan.layout);
  }
  size_t rank_of(uint32_t code) const {
    return std::lower_bound(ref.begin(), ref.end(), code,
                            [](const Elem& e, uint32_t c) { return e.code < c; }) -
           ref.begin();
  }
  bool present(uint32_t code) const {
    size_t r = rank_of(code);
    return r < ref.size() && ref[r].code == code;
  }

  template <class It>
  void check_elem(It& it, size_t r, const char* what) {
    CHECK(KD::identical(it->first, key(ref[r].code, ref[r].rep)),
          "%s: wrong key at rank %zu of %zu", what, r, ref.size());
    CHECK(VD::get(it->second) == ref[r].vid,
          "%s: wrong value at rank %zu of %zu: %u, expected %u", what, r,
          ref.size(), VD::get(it->second), ref[r].vid);
    auto&& d = *it;
    CHECK(KD::identical(d.first, it->first) && &d.second == &it->second,
          "%s: *it and it-> differ at rank %zu", what, r);
  }
  // it must denote rank r (r == size: end)
  void check_iter(typename Tree::iterator it, size_t r, const char* what,
                  bool walk = true) {
    size_t n = ref.size();
    if (r == n) {
      CHECK(it == t->end() && !(it != t->end()), "%s: expected end()", what);
    } else {
      CHECK(it != t->end() && !(it == t->end()),
            "%s: unexpected end(), expected rank %zu of %zu", what, r, n);
      check_elem(it, r, what);
    }
    if (!walk) return;
    auto f = it;
    size_t hi = n - r > walk_max ? r + walk_max : n;
    for (size_t i = r; i < hi; ++i) {
      CHECK(f != t->end(), "%s: walk from rank %zu ends early at %zu of %zu",
            what, r, i, n);
      CHECK(KD::identical(f->first, key(ref[i].code, ref[i].rep)),
            "%s: walk from rank %zu: wrong key at %zu", what, r, i);
      if (i & 1)
        ++f;
      else
        f++;
    }
    CHECK((f == t->end()) == (hi == n), "%s: walk from rank %zu does not end",
          what, r);
    if (n == 0) return;
    auto b = it;
    size_t lo = r > walk_max ? r - walk_max : 0;
    for (size_t i = r; i-- > lo;) {
      if (i & 1)
        --b;
      else
        b--;
      CHECK(KD::identical(b->first, key(ref[i].code, ref[i].rep)),
            "%s: walk back from rank %zu: wrong key at %zu", what, r, i);
    }
    CHECK((b == t->begin()) == (lo == 0),
          "%s: walk back from rank %zu misses begin()", what, r);
  }

  void check_light(const char* what) {
    size_t n = ref.size();
    const Tree& ct = *t;
    CHECK(ct.size() == n, "%s: size() is %zu, expected %zu", what, ct.size(), n);
    CHECK(ct.empty() == (n == 0), "%s: empty() wrong", what);
    size_t i = 0;
    for (auto it = t->begin(); it != t->end(); ++it, ++i) {
      CHECK(i < n, "%s: iteration yields more than %zu elements", what, n);
      check_elem(it, i, what);
    }
    CHECK(i == n, "%s: iteration yields %zu elements, expected %zu", what, i, n);
  }

  void check_iteration(const char* what) {
    size_t n = ref.size();
    const Tree& ct = *t;
    check_light(what);
    size_t i = 0;
    for (auto it = ct.begin(); it != ct.end(); it++, ++i) {
      CHECK(i < n, "%s: const iteration too long", what);
      check_elem(it, i, what);
    }
    CHECK(i == n, "%s: const iteration too short", what);
    i = 0;
    for (auto it = ct.cbegin(); it != ct.cend(); ++it) ++i;
    CHECK(i == n, "%s: cbegin/cend yield %zu", what, i);
    i = 0;
    for (auto&& e : *t) {
      CHECK(i < n && VD::get(e.second) == ref[i].vid, "%s: range-for", what);
      ++i;
    }
    if (n <= walk_max) {
      check_steps(t->begin(), t->end(), "iterator");
      check_steps(ct.begin(), ct.end(), "const iterator");
      check_steps(t->rbegin(), t->rend(), "reverse iterator");
      check_steps(ct.rbegin(), ct.rend(), "const reverse iterator");
    }
    // backwards from end()
    if (n) {
      auto it = t->end();
      for (i = n; i-- > 0;) {
        --it;
        check_elem(it, i, "backwards from end()");
      }
      CHECK(it == t->begin(), "%s: backward walk misses begin()", what);
      auto cit = ct.end();
      for (i = n; i-- > 0;) {
        cit--;
        check_elem(cit, i, "backwards from const end()");
      }
      CHECK(cit == ct.begin(), "%s: const backward walk misses begin()", what);
    } else {
      CHECK(t->begin() == t->end() && ct.begin() == ct.end(),
            "%s: begin() != end() on an empty tree", what);
      CHECK(t->rbegin() == t->rend() && ct.rbegin() == ct.rend(),
            "%s: rbegin() != rend() on an empty tree", what);
    }
    // reverse iterators, both ways
    i = n;
    for (auto it = t->rbegin(); it != t->rend(); ++it) {
      CHECK(i > 0, "%s: reverse iteration too long", what);
      --i;
      check_elem(it, i, "reverse iteration");
    }
    CHECK(i == 0, "%s: reverse iteration too short by %zu", what, i);
    i = n;
    for (auto it = ct.rbegin(); it != ct.rend(); it++) {
      CHECK(i > 0, "%s: const reverse iteration too long", what);
      --i;
      check_elem(it, i, "const reverse iteration");
    }
    CHECK(i == 0, "%s: const reverse iteration too short", what);
    i = n;
    for (auto it = ct.crbegin(); it != ct.crend(); ++it) --i;
    CHECK(i == 0, "%s: crbegin/crend", what);
    if (n) {
      auto it = t->rend();
      for (i = 0; i < n; ++i) {
        if (i & 1)
          --it;
        else
          it--;
        check_elem(it, i, "backwards from rend()");
      }
      CHECK(it == t->rbegin(), "%s: walk from rend() misses rbegin()", what);
    }
  }

  // Every step from every position, before and after forms, gives the positions it must, and
  // what a postfix step returns is as good an iterator as any other.
  template <class It>
  void check_steps(It first, It last, const char* what) {
    std::vector<It> p;
    for (It it = first; it != last; ++it) p.push_back(it);
    p.push_back(last);
    size_t n = p.size() - 1;
    CHECK(n == ref.size(), "%s: %zu steps for %zu elements", what, n, ref.size());
    It none{};
    CHECK(none == It{} && !(none != It{}), "%s: default-made iterators differ", what);
    for (size_t i = 0; i <= n; ++i) {
      CHECK(p[i] == p[i] && !(p[i] != p[i]), "%s: position %zu differs from itself", what, i);
      if (i != n) {
        CHECK(p[i] != p[i + 1] && !(p[i] == p[i + 1]) && p[i + 1] != p[i],
              "%s: positions %zu and the next are equal", what, i);
        It x = p[i];
        It was = x++;
        CHECK(was == p[i] && x == p[i + 1], "%s: postfix ++ at %zu of %zu", what, i, n);
        CHECK(++was == p[i + 1] && was == x, "%s: ++ after postfix ++ at %zu", what, i);
        was = x--;
        CHECK(was == p[i + 1] && x == p[i], "%s: postfix -- at %zu of %zu", what, i + 1, n);
        It& same = --was;
        CHECK(&same == &was && was == x, "%s: -- after postfix -- at %zu", what, i + 1);
        CHECK(KD::identical((*was).first, x->first) && &(*was).second == &x->second,
              "%s: the same position denotes two elements", what);
        if (i + 2 <= n) {
          was = x++;
          ++was, ++was;
          CHECK(was == p[i + 2] && ++x == was, "%s: ++ twice at %zu", what, i);
          was = x--;
          --was, --was;
          CHECK(was == p[i] && --x == was, "%s: -- twice at %zu", what, i + 2);
        }
        x = p[n - i];
        std::swap(x, was);
      }
    }
  }

  template <class F>
  void cost(F&& f, uint64_t bound, const char* what) {
    uint64_t c0 = dom::compare_calls;
    f();
    uint64_t d = dom::compare_calls - c0;
    if (d > cmp_max) cmp_max = d;
    CHECK(d <= bound, "%s: %llu comparisons with %zu elements, bound %llu", what,
          (unsigned long long)d, ref.size(), (unsigned long long)bound);
  }

  void check_lookups(const char* what) {
    size_t n = ref.size();
    Tree& mt = *t;
    const Tree& ct = *t;
    std::vector<typename Tree::iterator> its;
    its.reserve(n + 1);
    for (auto it = mt.begin(); it != mt.end(); ++it) its.push_back(it);
    its.push_back(mt.end());
    uint32_t top = 2 * plan.T;
    for (uint32_t c = 0; c <= top; ++c) {
      if (!ok(c)) continue;
      size_t r = rank_of(c);
      bool has = r < n && ref[r].code == c;
      for (uint32_t rep = 0; rep < 2; ++rep) {
        K k = key(c, has ? ref[r].rep + rep : rep);
        const K& q = k;
        auto e = has ? its[r] : its[n];
        auto f = mt.find(q);
        CHECK(f == e && !(f != e), "%s: find: code %u/%u present=%d wrong", what,
              c, top, has);
        if (has) check_elem(f, r, "find");
        auto cf = ct.find(q);
        CHECK(cf == e, "%s: const find: code %u/%u present=%d wrong", what, c,
              top, has);
        if (has) check_elem(cf, r, "const find");
        CHECK(ct.contains(q) == has, "%s: contains: code %u present=%d", what, c,
              has);
        CHECK(ct.count(q) == (has ? 1u : 0u), "%s: count: code %u present=%d",
              what, c, has);
        auto lb = mt.lower_bound(q);
        CHECK(lb == its[r] && !(lb != its[r]),
              "%s: lower_bound: code %u/%u expected rank %zu of %zu", what, c,
              top, r, n);
        if (r < n) check_elem(lb, r, "lower_bound");
        size_t u = r + (has ? 1 : 0);
        auto ub = mt.upper_bound(q);
        CHECK(ub == its[u], "%s: upper_bound: code %u/%u expected rank %zu of %zu",
              what, c, top, u, n);
        if (u < n) check_elem(ub, u, "upper_bound");
        auto er = mt.equal_range(q);
        CHECK(er.first == its[r] && er.second == its[u],
              "%s: equal_range: code %u/%u expected [%zu,%zu) of %zu", what, c,
              top, r, u, n);
        if constexpr (requires { ct.lower_bound(q); }) {
          auto x = ct.lower_bound(q);
          CHECK(x == its[r], "%s: const lower_bound code %u", what, c);
        }
        if constexpr (requires { ct.upper_bound(q); }) {
          auto x = ct.upper_bound(q);
          CHECK(x == its[u], "%s: const upper_bound code %u", what, c);
        }
        if constexpr (requires { ct.equal_range(q); }) {
          auto x = ct.equal_range(q);
          CHECK(x.first == its[r] && x.second == its[u],
                "%s: const equal_range code %u", what, c);
        }
        bool threw = false;
        try {
          V& v = mt.at(q);
          CHECK(has && &v == &its[r]->second, "%s: at: code %u present=%d", what,
                c, has);
        } catch (const std::out_of_range&) {
          threw = true;
        }
        CHECK(threw == !has, "%s: at: code %u present=%d threw=%d", what, c, has,
              threw);
        if (has || (c % 8) == 0) {
          threw = false;
          try {
            const V& v = ct.at(q);
            CHECK(has && &v == &its[r]->second, "%s: const at: code %u", what, c);
          } catch (const std::out_of_range&) {
            threw = true;
          }
          CHECK(threw == !has, "%s: const at: code %u present=%d", what, c, has);
        }
        if (has) {  // a reference to the stored key as the argument
          CHECK(mt.find(its[r]->first) == its[r], "%s: find(it->first)", what);
          CHECK(mt.upper_bound(its[r]->first) == its[r + 1],
                "%s: upper_bound(it->first)", what);
        }
        if constexpr (!std::is_same_v<K, dom::ClassKey> &&
                      !std::is_floating_point_v<K>)
          break;  // only these have more than one representative
      }
    }
    // comparison objects
    if (n >= 2) {
      auto kc = ct.key_comp();
      CHECK(kc(its[0]->first, its[1]->first) && !kc(its[1]->first, its[0]->first),
            "%s: key_comp", what);
      typename Tree::value_type x(its[0]->first, its[1]->second),
          y(its[1]->first, its[0]->second);
      CHECK(ct.value_comp()(x, y) && !ct.value_comp()(y, x), "%s: value_comp",
            what);
    }
  }

  // every start, every +/- string of the given length that stays inside
  void check_zigzag(int len) {
    size_t n = ref.size();
    if (n == 0) return;
    std::vector<typename Tree::iterator> its;
    for (auto it = t->begin(); it != t->end(); ++it) its.push_back(it);
    its.push_back(t->end());
    for (size_t i = 0; i <= n; ++i)
      for (size_t j = 0; j <= n; ++j)
        CHECK((its[i] == its[j]) == (i == j) && (its[i] != its[j]) == (i != j),
              "iterators of ranks %zu and %zu compare wrongly", i, j);
    for (size_t s = 0; s <= n; ++s)
      for (int m = 0; m < (1 << len); ++m) {
        auto it = its[s];
        size_t p = s;
        for (int b = 0; b < len; ++b) {
          if (m >> b & 1) {
            if (p == n) break;
            ++it;
            ++p;
          } else {
            if (p == 0) break;
            --it;
            --p;
          }
          CHECK(it == its[p], "zigzag %x from rank %zu: step %d is not at rank %zu",
                m, s, b, p);
          if (p < n) check_elem(it, p, "zigzag");
        }
      }
    std::vector<typename Tree::reverse_iterator> rits;
    for (auto it = t->rbegin(); it != t->rend(); ++it) rits.push_back(it);
    CHECK(rits.size() == n, "reverse iteration yields %zu", rits.size());
    rits.push_back(t->rend());
    for (size_t s = 0; s <= n; ++s)
      for (int m = 0; m < (1 << len); ++m) {
        // start at the element reached through the public API with a tree-aware
        // iterator: walk from rend()
        auto it = t->rend();
        size_t p = n;
        while (p > s) {
          --it;
          --p;
        }
        for (int b = 0; b < len; ++b) {
          if (m >> b & 1) {
            if (p == n) break;
            ++it;
            ++p;
          } else {
            if (p == 0) break;
            --it;
            --p;
          }
          CHECK(it == rits[p] && !(it != rits[p]),
                "reverse zigzag %x from %zu: step %d is not at %zu", m, s, b, p);
          if (p < n) check_elem(it, n - 1 - p, "reverse zigzag");
        }
      }
  }

  void check_full(const char* what) {
    check_iteration(what);
    check_lookups(what);
  }

  // ---- shape ----
  std::vector<uint32_t> leaf_groups() {
    std::vector<uint32_t> g;
    const char* prev = nullptr;
    for (auto it = t->begin(); it != t->end(); ++it) {
      const char* p = reinterpret_cast<const char*>(&it->second);
      if (prev && p == prev + sizeof(V))
        ++g.back();
      else
        g.push_back(1);
      prev = p;
    }
    return g;
  }

  Shape shape() {
    Shape s;
    if constexpr (NodesVisible<Tree>) {
      using Leaf = typename Tree::leaf_node;
      using Int = typename Tree::internal_node;
      std::unordered_set<void*> leaves, ints;
      std::vector<void*> roots;
      for (auto& [p, b] : trk::reg.live) {
        if (b.type == trk::type_id<Leaf>()) {
          leaves.insert(p);
          if (static_cast<Leaf*>(p)->parent == nullptr) roots.push_back(p);
        } else if (b.type == trk::type_id<Int>()) {
          ints.insert(p);
          if (static_cast<Int*>(p)->parent == nullptr) roots.push_back(p);
        }
      }
      s.leaf_nodes = leaves.size();
      s.internal_nodes = ints.size();
      if (roots.size() != 1) {
        s.text = "roots" + std::to_string(roots.size());
        for (uint32_t g : leaf_groups()) s.text += "," + std::to_string(g);
        s.text += "/" + std::to_string(leaves.size()) + "/" +
                  std::to_string(ints.size());
        return s;
      }
      size_t rank = 0;
      size_t visited = 0;
      Leaf* prev = nullptr;
      auto leaf = [&](Leaf* l, int depth) {
        ++visited;
        uint32_t n = static_cast<uint32_t>(l->data.size());
        s.leaves.push_back(n);
        s.text += static_cast<char>('0' + n);
        rank += n;
        if (l->prev_leaf != prev) s.text += 'p';
        if (prev && prev->next_leaf != l) s.text += 'n';
        prev = l;
        if (depth > s.height) s.height = depth;
        else if (depth != s.height) s.text += 'h';
      };
      auto sep = [&](const K& k, size_t expect) {
        C c{};
        size_t lo = 0;
        while (lo < ref.size() && c(key(ref[lo].code, ref[lo].rep), k)) ++lo;
        bool eq = lo < ref.size() && !c(k, key(ref[lo].code, ref[lo].rep));
        if (eq && lo == expect) return;
        s.text += eq ? '=' : '~';
        s.text += std::to_string(static_cast<long>(lo) -
                                 static_cast<long>(expect));
      };
      std::function<void(Int*, int)> node = [&](Int* p, int depth) {
        if (++visited > 100000) return;
        if (depth > 1)
          s.inner.push_back(static_cast<uint32_t>(
              p->children_are_leaves
                  ? std::distance(p->leaf_children.begin(), p->leaf_children.end())
                  : std::distance(p->internal_children.begin(),
                                  p->internal_children.end())));
        s.text += '(';
        if (p->children_are_leaves) {
          for (auto it = p->leaf_children.begin(); it != p->leaf_children.end();
               ++it) {
            sep(it->first, rank);
            if (!leaves.count(it->second)) {
              s.text += '!';
              continue;
            }
            if (it->second->parent != p) s.text += 'P';
            leaf(it->second, depth + 1);
          }
        } else {
          for (auto it = p->internal_children.begin();
               it != p->internal_children.end(); ++it) {
            sep(it->first, rank);
            if (!ints.count(it->second)) {
              s.text += '!';
              continue;
            }
            if (it->second->parent != p) s.text += 'P';
            node(it->second, depth + 1);
          }
        }
        s.text += ')';
      };
      if (leaves.count(roots[0]))
        leaf(static_cast<Leaf*>(roots[0]), 1);
      else
        node(static_cast<Int*>(roots[0]), 1);
      if (prev && prev->next_leaf) s.text += 'N';
      if (visited != leaves.size() + ints.size())
        s.text += "u" + std::to_string(visited);
    } else {
      s.leaves = leaf_groups();
      s.leaf_nodes = s.leaves.size();
      for (uint32_t g : s.leaves) s.text += static_cast<char>('0' + g);
      // hidden structure unknown: keep histories apart by their last two calls
      size_t n = words->size();
      for (size_t i = n > 2 ? n - 2 : 0; i < n; ++i)
        s.text += "|" + std::to_string((*words)[i]);
    }
    return s;
  }

  // ---- occupancy / cost (C20) ----
  void check_cost_now() {
    size_t n = ref.size();
    Shape s = shape();
    size_t total = trk::reg.live.size();
    constexpr size_t lq = LN / 4 > 2 ? LN / 4 : 2;  // a quarter of a leaf
    constexpr size_t iq = IN / 4 > 2 ? IN / 4 : 2;
    size_t max_leaves = n / lq > 1 ? n / lq : 1;
    size_t max_ints = 0, level = max_leaves;
    size_t max_height = 1;
    while (level > 1) {
      level = level / iq > 1 ? level / iq : 1;
      max_ints += level;
      ++max_height;
    }
    if (n <= 1) {
      CHECK(total == 1, "%zu nodes are allocated for %zu elements", total, n);
    }
    CHECK(total <= max_leaves + max_ints,
          "%zu nodes for %zu elements, at most %zu with quarter-full nodes",
          total, n, max_leaves + max_ints);
    if constexpr (NodesVisible<Tree>) {
      CHECK(s.leaf_nodes <= max_leaves,
            "%zu leaf nodes for %zu elements, at most %zu when quarter full",
            s.leaf_nodes, n, max_leaves);
      CHECK(static_cast<size_t>(s.height) <= max_height,
            "height %d for %zu elements, at most %zu", s.height, n, max_height);
      if (s.leaves.size() > 1)
        for (uint32_t l : s.leaves)
          CHECK(l >= lq, "a leaf holds %u of %d elements", l, LN);
      for (uint32_t c : s.inner)
        CHECK(c >= iq, "an internal node has %u of %d children", c, IN);
    }
    if constexpr (std::is_same_v<C, dom::CountLess<K>>) {
      constexpr bool bin = fc::SearchMode::MODE == fc::SearchMode::Binary;
      auto per = [&](size_t N) {
        return bin ? static_cast<uint64_t>(std::bit_width(N) + 4)
                   : static_cast<uint64_t>(N + 4);
      };
      uint64_t bound = per(LN) + (max_height - 1) * per(IN) + 4;
      for (uint32_t c = 0; c <= 2 * plan.T; ++c) {
        if (!ok(c)) continue;
        K k = key(c);
        cost([&] { (void)t->find(k); }, bound, "find");
        cost([&] { (void)t->contains(k); }, bound, "contains");
        cost([&] { (void)t->lower_bound(k); }, bound, "lower_bound");
        cost([&] { (void)t->upper_bound(k); }, bound, "upper_bound");
        cost([&] { (void)t->equal_range(k); }, bound + 4, "equal_range");
      }
    }
  }

  // ---- one call ----
  std::pair<typename Tree::iterator, bool> do_insert(uint32_t fl, const K& k,
                                                     const V& v, size_t i) {
    size_t before = t->size();
    switch (fl) {
      case 0:
        return t->insert(k, v);
      case 1:
        return t->insert(typename Tree::value_type(k, v));
      case 2:
        return t->emplace(k, v);
      case 3: {
        auto it = t->emplace_hint(i & 1 ? t->begin() : t->end(), k, v);
        return {it, t->size() != before};
      }
      case 4:
        return t->try_emplace(k, v);
      case 5:
        if (i & 1) {
          V tmp(v);
          return t->insert_or_assign(k, std::move(tmp));
        }
        return t->insert_or_assign(k, v);
      default: {
        const K kk(k);  // k may refer to an element that moves
        V& r = (*t)[k];
        if (t->size() != before)
          CHECK(VD::get(r) == 0 || !std::is_arithmetic_v<V>,
                "operator[] inserted a value that is not value-initialised");
        r = v;
        auto it = t->find(kk);
        CHECK(it != t->end() && &it->second == &r,
              "operator[] returned a reference to another element");
        return {it, t->size() != before};
      }
    }
  }

  void insert_checked(uint32_t fl, uint32_t code, uint32_t rep, uint32_t vid,
                      const V& v, size_t i, bool check) {
    size_t r = rank_of(code);
    bool has = r < ref.size() && ref[r].code == code;
    K k = key(code, rep);
    if (!check) {
      do_insert(fl, k, v, i);
    } else {
      auto [it, inserted] = do_insert(fl, k, v, i);
      if (!has) {
        ref.insert(ref.begin() + r, Elem{code, rep, vid});
        CHECK(inserted, "insert flavour %u of an absent key reports false", fl);
      } else {
        if (fl >= 5) ref[r].vid = vid;
        CHECK(!inserted, "insert flavour %u of a present key reports true", fl);
      }
      check_iter(it, r, has ? "iterator returned for a present key"
                            : "iterator returned by an insertion");
      CHECK(KD::identical(k, key(code, rep)), "an insertion changed its key argument");
      return;
    }
    if (!has)
      ref.insert(ref.begin() + r, Elem{code, rep, vid});
    else if (fl >= 5)
      ref[r].vid = vid;
  }

  typename Tree::iterator iter_at(size_t r, size_t way) {
    if (r == ref.size()) return t->end();
    const K k = key(ref[r].code, ref[r].rep);
    switch (way % 4) {
      case 0:
        return t->find(k);
      case 1:
        return t->lower_bound(k);
      case 2: {
        auto it = t->begin();
        for (size_t j = 0; j < r; ++j) ++it;
        return it;
      }
      default: {
        auto it = t->end();
        for (size_t j = ref.size(); j > r; --j) --it;
        return it;
      }
    }
  }

  void step(size_t i, bool check) {
    uint32_t w = (*words)[i], k = kind(w), a = A_(w), b = B_(w);
    uint32_t vid = VD::norm(static_cast<uint32_t>(i + 1));
    uint32_t rep = static_cast<uint32_t>(i);
    if (k < 32) {
      insert_checked(k % 16, plan.code[i], rep, vid, VD::make(vid), i, check);
    } else if (k == ERASE_KEY || k == ERASE_SELF) {
      size_t n0 = 0;
      if (k == ERASE_KEY) {
        K q = key(plan.code[i], rep);
        n0 = t->erase(q);
        if (check)
          CHECK(KD::identical(q, key(plan.code[i], rep)),
                "erase changed its argument");
      } else {
        auto it = t->find(key(plan.code[i], ref[a].rep));
        CHECK(it != t->end(), "find before erase(it->first)");
        n0 = t->erase(it->first);
      }
      ref.erase(ref.begin() + a);
      if (check) CHECK(n0 == 1, "erase(key) of a present key returned %zu", n0);
    } else if (k == ERASE_IT) {
      auto it = iter_at(a, check ? i : 0);
      auto nx = t->erase(it);
      ref.erase(ref.begin() + a);
      if (check) check_iter(nx, a, "iterator returned by erase(iterator)");
    } else if (k == ERASE_RANGE) {
      auto f = iter_at(a, i), l = iter_at(b, i + 1);
      auto nx = t->erase(f, l);
      ref.erase(ref.begin() + a, ref.begin() + b);
      if (check) check_iter(nx, a, "iterator returned by erase(first, last)");
    } else if (k == ERASE_ABSENT) {
      if (ok(plan.code[i]) && !present(plan.code[i])) {
        size_t n0 = t->erase(key(plan.code[i], rep));
        CHECK(n0 == 0, "erase(key) of an absent key returned %zu", n0);
      }
    } else if (k == CLEAR) {
      t->clear();
      ref.clear();
    } else if (k == POP_FRONT || k == POP_BACK) {
      for (uint32_t j = 0; j < b && !ref.empty(); ++j) {
        if (k == POP_FRONT) {
          auto nx = t->erase(t->begin());
          ref.erase(ref.begin());
          CHECK(nx == t->begin(), "erase(begin()) does not return begin()");
        } else {
          auto it = t->end();
          --it;
          auto nx = t->erase(it);
          ref.pop_back();
          CHECK(nx == t->end(), "erasing the last element does not return end()");
        }
        if (check) check_light("while popping");
      }
    } else if (k == WRITE) {
      uint32_t c = plan.code[i];
      K q = key(c, ref[a].rep);
      switch (b % 5) {
        case 0:
          t->find(q)->second = VD::make(vid);
          break;
        case 1:
          (*t->lower_bound(q)).second = VD::make(vid);
          break;
        case 2:
          t->at(q) = VD::make(vid);
          break;
        case 3: {
          auto it = t->rbegin();
          for (size_t j = ref.size() - 1; j > a; --j) ++it;
          it->second = VD::make(vid);
          break;
        }
        default: {
          auto it = iter_at(a, 3);
          it->second = VD::make(vid);
        }
      }
      ref[a].vid = vid;
    } else if (k == ERASE_PATTERN) {
      bool inv = b >= 64;
      std::vector<Elem> keep;
      size_t j = 0, n = ref.size(), guard = 0;
      for (auto it = t->begin(); it != t->end(); ++j) {
        CHECK(++guard <= n, "erase while iterating does not end");
        CHECK(KD::identical(it->first, key(ref[j].code, ref[j].rep)),
              "erase while iterating: expected original rank %zu of %zu", j, n);
        bool hit = ((j % a) == (b & 63)) != inv;
        if (hit) {
          it = t->erase(it);
        } else {
          keep.push_back(ref[j]);
          ++it;
        }
      }
      CHECK(j == n, "erase while iterating visited %zu of %zu", j, n);
      ref = keep;
    } else if (k >= COUNT_NEW && k < FAMILY) {
#ifdef COUNT_FORMS
      const dom::Form& f =
          dom::kForms[k < COUNT_OLD ? k - COUNT_NEW : k - COUNT_OLD];
      bool has = k >= COUNT_OLD;
      const K k0 = key(plan.code[i], rep);
      if ((k - COUNT_NEW) % (COUNT_OLD - COUNT_NEW) == 0) dom::check_lookups(*t, k0, has);
      dom::Args x(k0, static_cast<uint32_t>(i + 1));
      int64_t height = 2;
      for (size_t n = ref.size(); n > 2; n /= 2) ++height;
      uint64_t allocs = trk::reg.allocs, frees = trk::reg.frees;
      dom::cnt = dom::Counts{};
      auto r = dom::call_form<true>(*t, f, x.k, x.v, x.a, x.b, has);
      dom::check_counts(f, x, k0, has, true, height);
      if (has)
        CHECK(trk::reg.allocs == allocs && trk::reg.frees == frees,
              "an insertion call for a present key allocated or freed nodes");
      if (r.has_flag)
        CHECK(r.inserted == !has, "insertion form: reports %d", r.inserted);
      uint32_t nv = dom::value_of(f, x.vid);
      if (!has)
        ref.insert(ref.begin() + a, Elem{plan.code[i], rep, nv});
      else if (f.verb == dom::ASSIGN)
        ref[a].vid = nv;
      check_iter(*r.it, a, "iterator returned by an insertion form");
      check_light("after an insertion form");
#endif
    } else if (k >= ALIAS_INS && k < ALIAS_UPS) {
      auto src = iter_at(b, 0);
      const V& v = src->second;
      uint32_t svid = ref[b].vid;
      insert_checked(k - ALIAS_INS, plan.code[i], rep, svid, v, 0, check);
    } else if (k >= ALIAS_UPS && k < ALIAS_KEYVAL) {
      auto src = iter_at(b, 0);
      const V& v = src->second;
      uint32_t svid = ref[b].vid;
      uint32_t fl = k - ALIAS_UPS;
      if (i & 1) {  // key argument is the stored key as well
        auto dst = iter_at(a, 0);
        const K& kk = dst->first;
        auto [it, ins] = do_insert(fl == 6 ? 5 : fl, kk, v, 0);
        CHECK(!ins, "insertion of a stored key reports true");
        if (fl >= 5) ref[a].vid = svid;
        check_iter(it, a, "iterator returned for a stored key");
      } else {
        insert_checked(fl, plan.code[i], rep, svid, v, 0, check);
      }
    } else if (k >= ALIAS_KEYVAL && k < ALIAS_KEYVAL + 16) {
      if constexpr (std::is_same_v<K, V>) {
        auto src = iter_at(b, 0);
        src->second = key(plan.code[i], rep);
        const K& kk = src->second;
        V nv = VD::make(vid);
        auto [it, ins] = do_insert(k - ALIAS_KEYVAL, kk, nv, i);
        size_t r = rank_of(plan.code[i]);
        K kb = key(ref[b].code, ref[b].rep);
        uint32_t bvid = ref[b].vid;
        ref.insert(ref.begin() + r, Elem{plan.code[i], rep, vid});
        CHECK(ins, "insertion with a key stored as a value reports false");
        auto back = t->find(kb);
        CHECK(back != t->end(), "element lost");
        CHECK(KD::identical(back->second, key(plan.code[i], rep)),
              "the argument element changed");
        back->second = VD::make(bvid);
        check_iter(it, r, "iterator returned by an insertion");
      }
    }
  }
};
using Machine = MachineT<Tree>;

// ---- running one case ---------------------------------------------------------
uint64_t n_exec = 0, n_calls = 0, n_checks = 0;

struct ExecOpts {
  size_t check_from = 0;  // ops from this index on are checked
  bool full = true;       // full checks at the end
  bool full_each = false;  // full checks after each checked op
  int zigzag = 0;
  bool cost = false;
  std::function<void(Machine&)> at_end;
};

void fault_tail(Machine& m, size_t i);

// Keys alive: one per element, and one per node that has a parent.
void check_keys(size_t elements, const char* what) {
  if constexpr (std::is_same_v<K, dom::OKey>) {
    size_t nodes = trk::reg.live.size();
    CHECK(dom::kledger.payload >= static_cast<int64_t>(elements) &&
              dom::kledger.payload <=
                  static_cast<int64_t>(elements + (nodes ? nodes - 1 : 0)),
          "%s: %lld keys own something; %zu elements, %zu nodes", what,
          (long long)dom::kledger.payload, elements, nodes);
    CHECK(nodes || dom::kledger.live == 0, "%s: %lld keys leaked", what,
          (long long)dom::kledger.live);
  }
}

void exec_words(const Words& w, const ExecOpts& o, Machine& m) {
  mc::begin_case(w);
  mc::current = w;
  ++n_exec;
  n_calls += w.size();
  trk::reg.reset();
  dom::ledger = dom::kledger = dom::Ledger{};
  m.plan = make_plan(w);
  m.words = &w;
  m.ref.clear();
  m.slots_dirty = false;
  m.t = new (m.buf) Tree();
  bool destroyed = false;
  try {
    for (size_t i = 0; i < w.size(); ++i) {
      uint32_t k = kind(w[i]);
      if (k >= FAULT_ALLOC && k <= COPY_FAULT_DEFAULT) {
        fault_tail(m, i);
        break;
      }
      bool chk = i >= o.check_from;
      m.step(i, chk);
      if (chk) {
        ++n_checks;
        if (o.full_each)
          m.check_full("after the call");
        else
          m.check_light("after the call");
        if (o.cost) m.check_cost_now();
      }
    }
    if (o.full) m.check_full("after the history");
    if (o.zigzag) m.check_zigzag(o.zigzag);
    if (o.at_end) o.at_end(m);
    if constexpr (dom::Counted<V>) {
      int64_t stored = 0;
      for (auto& e : m.ref)
        if (e.vid != dom::Obj::none) ++stored;
      CHECK(m.slots_dirty || dom::ledger.payload == stored,
            "%lld resources are alive for %lld stored elements",
            (long long)dom::ledger.payload, (long long)stored);
    }
    check_keys(m.ref.size(), "at the end");
    m.t->~Tree();
    destroyed = true;
    check_keys(0, "after destruction");
    CHECK(trk::reg.live.empty(), "%zu nodes leaked", trk::reg.live.size());
    if constexpr (dom::Counted<V>)
      CHECK(dom::ledger.live == 0 && dom::ledger.payload == 0,
            "%lld values leaked", (long long)dom::ledger.live);
  } catch (...) {
    (void)destroyed;  // the tree is abandoned: it may be broken
    throw;
  }
}

// Faults: the last op(s) of a case.  Contents must be unchanged afterwards, the
// container usable, nothing leaked.
uint64_t n_faults = 0, n_fault_points_hit = 0;
bool g_fault_hit = false;
void fault_tail(Machine& m, size_t i) {
  const Words& w = *m.words;
  uint32_t k = kind(w[i]), b = B_(w[i]);
  ++n_faults;
  g_fault_hit = false;
  auto arm = [&] {
    if (k == FAULT_ALLOC || k == COPY_FAULT_ALLOC || k == ASSIGN_FAULT_ALLOC)
      trk::reg.fail_in = b;
    else if (k == FAULT_DEFAULT || k == COPY_FAULT_DEFAULT)
      dom::ledger.default_fail_in = b;
    else
      dom::ledger.fail_in = b;
  };
  auto disarm = [&] {
    trk::reg.fail_in = -1;
    dom::ledger.fail_in = -1;
    dom::ledger.default_fail_in = -1;
    g_fault_hit = trk::reg.tripped || dom::ledger.tripped;
    if (g_fault_hit) ++n_fault_points_hit;
  };
  size_t live0 = trk::reg.live.size();
  bool threw = false;
  // A failure has to reach the caller, unless the call did all its work without the
  // object that could not be made (then an unused slot may keep what it owns).
  auto reported = [&] {
    if ((k == FAULT_DEFAULT || k == COPY_FAULT_DEFAULT) && g_fault_hit && !threw)
      m.slots_dirty = true;
    else
      CHECK(threw == g_fault_hit, "the injected failure was swallowed");
  };
  if (k == FAULT_ALLOC || k == FAULT_VALUE || k == FAULT_DEFAULT) {
    uint32_t op = w[i + 1], ok = kind(op);
    uint32_t vid = VD::norm(static_cast<uint32_t>(i + 2));
    auto ref0 = m.ref;
    if (ok < 32) {
      V v = VD::make(vid);
      K q = m.key(m.plan.code[i + 1], 1);
      bool has = m.present(m.plan.code[i + 1]);
      std::pair<typename Tree::iterator, bool> res{};
      uint32_t fl = ok % 16;
      arm();
      try {
        if (fl == 6) {
          (*m.t)[q] = v;
          res.second = !has;
        } else {
          res = m.do_insert(fl, q, v, i);
        }
      } catch (const std::bad_alloc&) {
        threw = true;
      } catch (const dom::Injected&) {
        threw = true;
      }
      disarm();
      reported();
      if (!threw) {
        size_t r = m.rank_of(m.plan.code[i + 1]);
        if (!has)
          m.ref.insert(m.ref.begin() + r, Elem{m.plan.code[i + 1], 1, vid});
        else if (fl >= 5)
          m.ref[r].vid = vid;
      } else {
        bool only_assign_failed = fl == 6 && !has && m.t->size() == m.ref.size() + 1;
        if (only_assign_failed) {
          // operator[] itself succeeded; the assignment to its result threw
          size_t r = m.rank_of(m.plan.code[i + 1]);
          m.ref.insert(m.ref.begin() + r, Elem{m.plan.code[i + 1], 1, 0});
          if constexpr (dom::Counted<V>) m.ref[r].vid = 0;
        }
        m.check_full("after a failed insertion");
        if (only_assign_failed) {
          m.t->erase(q);
          m.ref = ref0;
        }
        // the same call must succeed now
        auto r2 = m.do_insert(fl, q, v, i);
        size_t r = m.rank_of(m.plan.code[i + 1]);
        if (!has) {
          CHECK(r2.second, "insertion after a failed one reports false");
          m.ref.insert(m.ref.begin() + r, Elem{m.plan.code[i + 1], 1, vid});
        } else if (fl >= 5) {
          m.ref[r].vid = vid;
        }
        m.check_iter(r2.first, r, "insertion after a failed one");
      }
    } else if (ok == ERASE_KEY || ok == ERASE_IT) {
      uint32_t rank = A_(op);
      K q = m.key(m.plan.code[i + 1], 0);
      size_t n = 1, at = rank;
      arm();
      try {
        if (ok == ERASE_KEY) {
          n = m.t->erase(q);
        } else {
          auto nx = m.t->erase(m.t->find(q));
          disarm();
          at = 0;
          for (auto it = m.t->begin(); it != nx && at < m.ref.size(); ++it) ++at;
        }
      } catch (const std::bad_alloc&) {
        threw = true;
      } catch (const dom::Injected&) {
        threw = true;
      }
      disarm();
      reported();
      if (!threw) {
        CHECK(n == 1, "erase(key) returned %zu", n);
        CHECK(at == rank, "erase(iterator) returned element %zu, expected %u", at, rank);
        m.ref.erase(m.ref.begin() + rank);
      }
      m.check_full("after an erasure with a failure");
      for (auto& e : m.ref)
        CHECK(m.t->contains(m.key(e.code, e.rep)), "an element is lost");
    } else if (ok == CLEAR) {
      arm();
      try {
        m.t->clear();
      } catch (const std::bad_alloc&) {
        threw = true;
      } catch (const dom::Injected&) {
        threw = true;
      }
      disarm();
      reported();
      if (!threw) {
        m.ref.clear();
      } else {
        m.check_full("after a failed clear");
        m.t->clear();
        m.ref.clear();
      }
      m.check_full("after clear");
      m.t->insert(m.key(1, 0), VD::make(1));
      m.t->erase(m.key(1, 0));
    }
  } else if (k == COPY_FAULT_ALLOC || k == COPY_FAULT_VALUE ||
             k == COPY_FAULT_DEFAULT) {
    arm();
    try {
      Tree c(*m.t);
      disarm();
      CHECK(c.size() == m.ref.size(), "copy has %zu elements", c.size());
    } catch (const std::bad_alloc&) {
      threw = true;
    } catch (const dom::Injected&) {
      threw = true;
    }
    disarm();
    reported();
    CHECK(trk::reg.live.size() == live0, "a failed copy leaked %zd nodes",
          (ssize_t)(trk::reg.live.size() - live0));
  } else {
    Tree c;
    size_t extra = trk::reg.live.size();
    (void)extra;
    uint32_t pre = w.size() > i + 1 ? B_(w[i + 1]) : 0;
    for (uint32_t j = 0; j < pre; ++j) c.insert(m.key(2 * j + 1, 0), VD::make(9));
    arm();
    try {
      c = *m.t;
    } catch (const std::bad_alloc&) {
      threw = true;
    } catch (const dom::Injected&) {
      threw = true;
    }
    disarm();
    CHECK(threw == g_fault_hit, "the injected failure was swallowed");
    if (threw) {
      // the target must still be a valid tree
      size_t cnt = 0;
      K* last = nullptr;
      std::vector<K> keys;
      for (auto it = c.begin(); it != c.end(); ++it) {
        keys.push_back(it->first);
        ++cnt;
      }
      (void)last;
      CHECK(cnt == c.size(), "after a failed assignment the target is broken");
      for (size_t x = 1; x < keys.size(); ++x)
        CHECK(C{}(keys[x - 1], keys[x]), "target of a failed assignment unsorted");
      for (auto& x : keys) CHECK(c.contains(x), "target of a failed assignment");
      c = *m.t;
    }
    CHECK(c.size() == m.ref.size(), "assignment");
    size_t j = 0;
    for (auto it = c.begin(); it != c.end(); ++it, ++j)
      CHECK(VD::get(it->second) == m.ref[j].vid, "assignment: value");
  }
}

// ---- exploration: all shapes from empty up to NMAX elements ---------------------
struct St {
  int parent;
  uint32_t op;
  uint16_t n, depth;
};
struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
};
Params par;
double t0, budget;
bool out_of_time() { return mc::now_s() - t0 > budget; }

std::vector<St> states;
std::unordered_set<mc::Hash128, mc::Hash128Hash> seen;
uint64_t n_trans = 0;

Words path(int s) {
  Words w;
  while (s > 0) {
    w.push_back(states[s].op);
    s = states[s].parent;
  }
  std::reverse(w.begin(), w.end());
  return w;
}
mc::Hash128 hash_text(const std::string& s) {
  mc::Hash128 h;
  h.add_bytes(s);
  return h;
}
void add_sample(const Words& w, const Shape& s) {
  if (mc::samples.size() >= 3) return;
  std::string o = "history:";
  for (size_t i = 0; i < w.size() && i < 40; ++i)
    o += fmt(" %u(%u,%u)", kind(w[i]), A_(w[i]), B_(w[i]));
  if (w.size() > 40) o += fmt(" ... (%zu calls)", w.size());
  o += " shape: " + s.text;
  mc::samples.push_back(o);
}

// destructive probes at one state
void probes(const Words& base, uint32_t n, const Shape& sh) {
  Machine m;
  Words w = base;
  w.push_back(0);
  ExecOpts o;
  o.check_from = base.size();
  o.full = false;
  auto go = [&](uint32_t op) {
    w.back() = op;
    exec_words(w, o, m);
    ++n_trans;
  };
  long pf = par.get("flavours", 0);
  if (pf && n <= pf) {
    for (uint32_t fl = 0; fl < NFLAV; ++fl) {
      for (uint32_t g = 0; g <= n; ++g) go(W(INS + fl, g));
      for (uint32_t r = 0; r < n; ++r) go(W(UPS + fl, r));
    }
    for (uint32_t r = 0; r < n; ++r) {
      go(W(ERASE_KEY, r));
      go(W(ERASE_IT, r));
      for (uint32_t b = 0; b < 5; ++b) go(W(WRITE, r, b));
    }
    for (uint32_t g = 0; g <= n; ++g) go(W(ERASE_ABSENT, g));
    o.full = true;
    go(W(CLEAR, 0));
    o.full = false;
  }
  // three calls in a row: one that only visits an element of some leaf, one that changes
  // the tree anywhere, one next to a leaf border (or every lookup)
  long pt = par.get("touch", 0);
  if (pt && n <= pt && n > 0) {
    std::vector<uint32_t> ends, visit;
    uint32_t at = 0;
    for (uint32_t l : sh.leaves) {
      ends.push_back(at);
      visit.push_back(at);
      if (l > 1) visit.push_back(at + l - 1);
      at += l;
      if (l > 1) ends.push_back(at - 1);
    }
    static const uint32_t FL[] = {5, 0, 6, 3};
    uint32_t turn = n;
    for (uint32_t x : visit)
      for (uint32_t y = 0; y < 2 * n + 1; ++y) {
        bool ins = y <= n;
        uint32_t a = ins ? y : y - n - 1;
        uint32_t nn = ins ? n + 1 : n - 1;
        ++turn;
        Words w3 = base;
        w3.push_back(W(UPS + FL[turn % 4], x));
        w3.push_back(ins ? W(INS + turn % NFLAV, a)
                         : W(turn & 1 ? ERASE_KEY : ERASE_IT, a));
        ExecOpts o3;
        o3.check_from = base.size() + 1;
        o3.full = true;
        exec_words(w3, o3, m);
        ++n_trans;
        o3.full = false;
        w3.push_back(0);
        for (uint32_t e : ends) {
          uint32_t z = e + (a <= e ? ins : 0) - (!ins && a < e);
          if (z >= nn) z = nn ? nn - 1 : 0;
          ++turn;
          w3.back() = W(INS + turn % NFLAV, z);
          exec_words(w3, o3, m);
          w3.back() = W(INS + (turn + 1) % NFLAV, z + 1 <= nn ? z + 1 : z);
          exec_words(w3, o3, m);
          n_trans += 2;
          if (nn) {
            w3.back() = W(UPS + turn % NFLAV, z);
            exec_words(w3, o3, m);
            w3.back() = W(turn & 1 ? ERASE_IT : ERASE_KEY, z);
            exec_words(w3, o3, m);
            n_trans += 2;
          }
        }
      }
  }
  long pr = par.get("ranges", 0);
  if (pr && n <= pr) {
    for (uint32_t a = 0; a <= n; ++a)
      for (uint32_t b = a; b <= n; ++b) go(W(ERASE_RANGE, a, b));
    for (uint32_t r = 0; r < n; ++r) go(W(ERASE_IT, r));
    for (uint32_t md = 1; md <= 7; ++md)
      for (uint32_t ph = 0; ph < md; ++ph) {
        go(W(ERASE_PATTERN, md, ph));
        go(W(ERASE_PATTERN, md, ph + 64));
      }
    go(W(POP_FRONT, 0, n));
    go(W(POP_BACK, 0, n));
  } else if (pr) {
    // ranges that start or end next to a leaf boundary
    std::vector<uint32_t> cut{0, n};
    uint32_t acc = 0;
    for (uint32_t l : sh.leaves) {
      acc += l;
      for (int d = -1; d <= 1; ++d)
        if (static_cast<int>(acc) + d >= 0 && acc + d <= n) cut.push_back(acc + d);
    }
    std::sort(cut.begin(), cut.end());
    cut.erase(std::unique(cut.begin(), cut.end()), cut.end());
    for (uint32_t a : cut)
      for (uint32_t b : cut)
        if (a <= b) go(W(ERASE_RANGE, a, b));
    for (uint32_t md = 1; md <= 3; ++md)
      for (uint32_t ph = 0; ph < md; ++ph) {
        go(W(ERASE_PATTERN, md, ph));
        go(W(ERASE_PATTERN, md, ph + 64));
      }
  }
  long pa = par.get("alias", 0);
  if (pa && n <= pa && n > 0) {
    for (uint32_t fl = 0; fl < NFLAV; ++fl)
      for (uint32_t src = 0; src < n; ++src) {
        for (uint32_t g = 0; g <= n; ++g) {
          if (fl != 6) go(W(ALIAS_INS + fl, g, src));
          if constexpr (std::is_same_v<K, V>) go(W(ALIAS_KEYVAL + fl, g, src));
        }
        if (fl != 6)
          for (uint32_t r = 0; r < n; ++r) go(W(ALIAS_UPS + fl, r, src));
      }
    for (uint32_t r = 0; r < n; ++r) go(W(ERASE_SELF, r));
  }
#ifdef COUNT_FORMS
  long pc = par.get("forms", 0);
  if (pc && n <= pc)
    for (uint32_t f = 0; f < dom::kNumForms; ++f) {
      for (uint32_t g = 0; g <= n; ++g) go(W(COUNT_NEW + f, g));
      for (uint32_t r = 0; r < n; ++r) go(W(COUNT_OLD + f, r));
    }
#endif
  long pz = par.get("faults", 0);
  if (pz && n <= pz) {
    w.pop_back();
    auto fault = [&](uint32_t fk, uint32_t op, bool two) {
      for (uint32_t k = 0; k < 400; ++k) {
        Words x = base;
        x.push_back(W(fk, 0, k));
        if (two) x.push_back(op);
        exec_words(x, o, m);
        ++n_trans;
        if (!g_fault_hit) break;
        // value faults in long copies: every point for small trees, then sparse
        if (k > 24 && fk != FAULT_ALLOC && fk != FAULT_VALUE) k += k / 4;
        if (k > 4 && fk == FAULT_DEFAULT) k += k / 2;
      }
    };
    // every gap and every flavour in turn
    bool all = n <= par.get("faults_all", 10);
    for (uint32_t g = 0; g <= n; ++g)
      for (uint32_t fl = 0; fl < NFLAV; ++fl) {
        if (!all && (g + fl + base.size()) % 3) continue;
        fault(FAULT_ALLOC, W(INS + fl, g), true);
        if (std::is_same_v<V, dom::Obj>) {
          fault(FAULT_VALUE, W(INS + fl, g), true);
          fault(FAULT_DEFAULT, W(INS + fl, g), true);
        }
      }
    if (std::is_same_v<V, dom::Obj>) {
      for (uint32_t r = 0; r < n; ++r) {
        fault(FAULT_DEFAULT, W(ERASE_KEY, r), true);
        fault(FAULT_DEFAULT, W(ERASE_IT, r), true);
        fault(FAULT_VALUE, W(ERASE_KEY, r), true);
      }
      fault(FAULT_DEFAULT, W(CLEAR, 0), true);
      fault(COPY_FAULT_DEFAULT, 0, false);
    }
    if (std::is_same_v<V, dom::Obj>)
      for (uint32_t r = 0; r < n; ++r)
        for (uint32_t fl = 0; fl < NFLAV; ++fl) {
          if (!all && (r + fl) % 4) continue;
          fault(FAULT_VALUE, W(UPS + fl, r), true);
        }
    fault(FAULT_ALLOC, W(CLEAR, 0), true);
    fault(COPY_FAULT_ALLOC, 0, false);
    fault(ASSIGN_FAULT_ALLOC, W(WRITE, 0, 0), true);
    fault(ASSIGN_FAULT_ALLOC, W(WRITE, 0, 12), true);
    if (std::is_same_v<V, dom::Obj>) {
      fault(COPY_FAULT_VALUE, 0, false);
      fault(ASSIGN_FAULT_VALUE, W(WRITE, 0, 3), true);
    }
  }
}

bool explore_bfs() {
  uint32_t nmax = par.get("nmax", 20);
  uint32_t dmax = par.get("depth", 1000);
  size_t smax = par.get("states", 100000000);
  ExecOpts root;
  Machine m;
  states.push_back({-1, 0, 0, 0});
  {
    Words e;
    root.at_end = [&](Machine& mm) { seen.insert(hash_text(mm.shape().text)); };
    root.zigzag = par.get("zigzag", 0);
    root.cost = par.get("cost", 0);
    exec_words(e, root, m);
  }
  bool exhaustive = true;
  size_t deepest = 0;
  for (size_t s = 0; s < states.size(); ++s) {
    if (out_of_time() || states.size() > smax) {
      exhaustive = false;
      break;
    }
    Words base = path(static_cast<int>(s));
    uint32_t n = states[s].n;
    if (states[s].depth >= dmax) continue;
    Plan p = make_plan(base);
    // ops
    std::vector<uint32_t> ops;
    if (n < nmax) {
      // which gaps contain erased keys
      std::vector<int> dead(n + 1, 0);
      uint32_t g = 0;
      for (int sl : p.order) {
        if (p.live[sl])
          ++g;
        else
          ++dead[g];
      }
      for (g = 0; g <= n; ++g) {
        uint32_t fl = (g + states[s].depth) % NFLAV;
        ops.push_back(W(INS + fl, g, 0));
        if (dead[g]) {
          ops.push_back(W(INS + fl, g, 1));
          ops.push_back(W(INS + fl, g, 2));
          if (dead[g] > 1) ops.push_back(W(INS + fl, g, 3));
        }
      }
    }
    for (uint32_t r = 0; r < n; ++r)
      ops.push_back(W((r + states[s].depth) & 1 ? ERASE_KEY : ERASE_IT, r));
    Words w = base;
    w.push_back(0);
    for (uint32_t op : ops) {
      w.back() = op;
      bool is_new = false;
      Shape sh;
      uint32_t nn = 0;
      ExecOpts o;
      o.check_from = base.size();
      o.full = false;
      o.cost = par.get("cost", 0);
      o.at_end = [&](Machine& mm) {
        sh = mm.shape();
        nn = static_cast<uint32_t>(mm.ref.size());
        is_new = seen.insert(hash_text(sh.text)).second;
        if (is_new) {
          mm.check_full("in a new state");
          if (long z = par.get("zigzag", 0)) mm.check_zigzag(static_cast<int>(z));
        }
      };
      exec_words(w, o, m);
      ++n_trans;
      if (is_new) {
        states.push_back({static_cast<int>(s), op, static_cast<uint16_t>(nn),
                          static_cast<uint16_t>(states[s].depth + 1)});
        deepest = std::max<size_t>(deepest, states[s].depth + 1);
        if (states.size() % 997 == 1) add_sample(w, sh);
        probes(w, nn, sh);
      }
    }
  }
  mc::counter("bfs_states") = states.size();
  mc::counter("bfs_depth") = deepest;
  return exhaustive;
}

// ---- exploration: internal-node shapes via macro steps --------------------------
// A macro step makes leaf j split or merge and brings all leaves back to 4..; the
// reached internal structures are explored breadth-first.
constexpr uint32_t BASE_FILL = (LN + 1) / 2;
bool explore_macro() {
  uint32_t lmax = par.get("leaves", 20);
  size_t smax = par.get("states", 100000000);
  Machine m;
  struct MS {
    Words w;
    uint32_t leaves;
  };
  std::vector<MS> st;
  Words start;
  for (uint32_t i = 0; i < BASE_FILL; ++i) start.push_back(W(INS, i));
  st.push_back({start, 1});
  bool exhaustive = true;
  std::unordered_set<mc::Hash128, mc::Hash128Hash> mseen;
  auto leaves_of = [&](const Words& w) {
    std::vector<uint32_t> r;
    ExecOpts o;
    o.check_from = w.size();
    o.full = false;
    o.at_end = [&](Machine& mm) { r = mm.leaf_groups(); };
    exec_words(w, o, m);
    return r;
  };
  int max_height = 0;
  for (size_t s = 0; s < st.size(); ++s) {
    if (out_of_time() || st.size() > smax) {
      exhaustive = false;
      break;
    }
    uint32_t L = st[s].leaves;
    for (uint32_t j = 0; j < L; ++j) {
      for (uint32_t variant = 0; variant < 4; ++variant) {
        bool split = variant < 2;
        bool front = variant & 1;
        if (split && L >= lmax) continue;
        if (!split && L == 1) continue;
        // generate the micro operations by looking at the real tree
        Words w = st[s].w;
        size_t from = w.size();
        std::vector<uint32_t> lv = leaves_of(w);
        bool okm = true;
        for (uint32_t it = 0; it < 2 * LN; ++it) {
          uint32_t base = 0;
          for (uint32_t x = 0; x < j; ++x) base += lv[x];
          uint32_t fl = it % 3 == 0 ? 0 : it % 3 == 1 ? 4 : 5;
          if (split)
            w.push_back(W(INS + fl, front ? base + 1 : base + lv[j]));
          else
            w.push_back(W(it & 1 ? ERASE_IT : ERASE_KEY,
                          front ? base : base + lv[j] - 1));
          auto l2 = leaves_of(w);
          if (l2.size() != L) {
            lv = l2;
            break;
          }
          bool borrowed = false;
          if (!split)
            for (uint32_t x = 0; x < L; ++x)
              if (x != j && l2[x] != lv[x]) borrowed = true;
          lv = l2;
          if (borrowed && it > LN) {
            okm = false;
            break;
          }
        }
        if (!okm) continue;
        // normalise
        for (uint32_t guard = 0; guard < 4 * LN; ++guard) {
          uint32_t base = 0, x = 0;
          for (; x < lv.size(); ++x) {
            if (lv[x] != BASE_FILL) break;
            base += lv[x];
          }
          if (x == lv.size()) break;
          if (lv[x] > BASE_FILL)
            w.push_back(W(ERASE_KEY, base + (guard & 1 ? lv[x] - 1 : 0)));
          else
            w.push_back(W(INS, base + lv[x]));
          lv = leaves_of(w);
        }
        if (make_plan(w).T > KD::max_T()) continue;
        // check the new calls on one run, full checks if the state is new
        bool is_new = false;
        Shape sh;
        ExecOpts o;
        o.check_from = from;
        o.full = false;
        o.cost = par.get("cost", 0);
        o.at_end = [&](Machine& mm) {
          sh = mm.shape();
          is_new = mseen.insert(hash_text(sh.text)).second;
          if (is_new) {
            mm.check_full("in a new state");
            if (long z = par.get("zigzag", 0)) mm.check_zigzag(static_cast<int>(z));
          }
        };
        exec_words(w, o, m);
        ++n_trans;
        if (is_new) {
          max_height = std::max(max_height, sh.height);
          if (w.size() < 4000)
            st.push_back({w, static_cast<uint32_t>(lv.size())});
          if (st.size() % 97 == 1) add_sample(w, sh);
          if (par.get("mprobes", 0)) {
            // single calls at the boundaries of every leaf of this structure
            Words x = w;
            x.push_back(0);
            ExecOpts po;
            po.check_from = w.size();
            po.full = false;
            uint32_t base = 0;
            uint32_t n = 0;
            for (uint32_t l : lv) n += l;
            for (uint32_t l : lv) {
              for (uint32_t d = 0; d < 2; ++d) {
                uint32_t r = d ? base + l - 1 : base;
                // drive this leaf down and watch every returned iterator
                Words y = w;
                for (uint32_t q = 0; q < 4; ++q) {
                  if (n <= q) break;
                  y.push_back(W(ERASE_IT, std::min(r, n - 1 - q)));
                }
                exec_words(y, po, m);
                ++n_trans;
                uint32_t e = std::min(n, r + 9);
                x.back() = W(ERASE_RANGE, r, e);
                exec_words(x, po, m);
                ++n_trans;
                x.back() = W(ERASE_RANGE, 0, r);
                exec_words(x, po, m);
                ++n_trans;
                x.back() = W(ERASE_RANGE, r, n);
                exec_words(x, po, m);
                ++n_trans;
              }
              base += l;
            }
          }
        }
      }
    }
  }
  mc::counter("macro_states") = st.size();
  mc::counter("macro_height") = max_height;
  return exhaustive;
}

// ---- exploration: build/drain/refill programs on larger trees --------------------
// FAMILY word, then: build, N, drain, frac, refill
uint32_t next_gap(uint32_t order, uint32_t i, uint32_t n) {
  switch (order) {
    case 0:
      return n;  // ascending
    case 1:
      return 0;  // descending
    case 2:
      return i & 1 ? 0 : n;  // outwards
    case 3:
      return n / 2;  // inwards
    case 4:
      return static_cast<uint32_t>((uint64_t)i * 2654435761u % (n + 1));
    case 5: {  // fill every second gap
      uint32_t g = 2 * i + 1;
      return n ? g % (n + 1) : 0;
    }
    default:
      return n > 3 ? n - 3 : n;
  }
}
uint32_t next_rank(uint32_t order, uint32_t i, uint32_t n) {
  switch (order) {
    case 0:
      return 0;
    case 1:
      return n - 1;
    case 2:
      return n / 2;
    case 3:
      return i & 1 ? 0 : n - 1;
    case 4:
      return static_cast<uint32_t>((uint64_t)i * 40503u % n);
    case 5:
      return (3 * i) % n;
    default:
      return n / 3;
  }
}
constexpr uint32_t NBUILD = 7, NDRAIN = 7;
Words expand_family(const Words& f) {
  uint32_t build = f[1], N = f[2], drain = f[3], frac = f[4], refill = f[5];
  Words w;
  uint32_t n = 0;
  for (uint32_t i = 0; i < N; ++i, ++n)
    w.push_back(W(INS + i % NFLAV, next_gap(build, i, n)));
  uint32_t keep = N * frac / 4;
  for (uint32_t i = 0; n > keep; ++i, --n)
    w.push_back(W(i & 1 ? ERASE_KEY : ERASE_IT, next_rank(drain, i, n)));
  if (refill < NBUILD) {
    for (uint32_t i = 0; n < N; ++i, ++n)
      w.push_back(
          W(INS + (i + 3) % NFLAV, next_gap(refill, i, n), i % 4));
    for (uint32_t i = 0; n > 0; ++i, --n)
      w.push_back(W(i & 1 ? ERASE_IT : ERASE_KEY,
                    next_rank((drain + 1) % NDRAIN, i, n)));
  }
  return w;
}
// TALL word (FAMILY, 1), then: build, N, start, length, order, refill: a window of
// elements of a tall tree is erased, put back, and everything is drained from it
Words expand_tall(const Words& f) {
  uint32_t build = f[1], N = f[2], p = f[3], len = f[4], order = f[5], refill = f[6];
  Words w;
  uint32_t n = 0;
  for (uint32_t i = 0; i < N; ++i, ++n)
    w.push_back(W(INS + i % NFLAV, next_gap(build, i, n)));
  len = std::min(len, N - p);
  for (uint32_t i = 0; i < len; ++i, --n) {
    uint32_t left = len - i;  // elements of the window still there
    uint32_t r = order == 0 ? p : order == 1 ? p + left - 1
               : order == 2 ? p + left / 2
                            : p + (i & 1 ? 0 : left - 1);
    w.push_back(W(i % 3 ? ERASE_IT : ERASE_KEY, r));
  }
  if (refill) {
    for (uint32_t i = 0; i < len; ++i, ++n)
      w.push_back(W(INS + (i + 3) % NFLAV,
                    refill == 1 ? p + i : refill == 2 ? p : p + i / 2, i % 4));
    for (uint32_t i = 0; n > 0; ++i, --n)
      w.push_back(W(i & 1 ? ERASE_IT : ERASE_KEY,
                    refill == 2 ? (p + 1 < n ? p + 1 : n - 1) : p < n ? p : 0));
  }
  return w;
}
void run_family(const Words& f, bool every) {
  bool tall = A_(f[0]) == 1;
  Words w = tall ? expand_tall(f) : expand_family(f);
  Machine m;
  mc::begin_case(f);
  ++n_exec;
  n_calls += w.size();
  trk::reg.reset();
  dom::ledger = dom::kledger = dom::Ledger{};
  m.plan = make_plan(w);
  m.words = &w;
  m.ref.clear();
  m.t = new (m.buf) Tree();
  mc::current = f;
  m.walk_max = 12;
  size_t cadence = every ? 1 : std::max<size_t>(1, w.size() / 5);
  uint64_t allocs0 = 0;
  bool cost = par.get("cost", 0);
  for (size_t i = 0; i < w.size(); ++i) {
    allocs0 = trk::reg.allocs;
    uint64_t c0 = dom::compare_calls;
    if (cost && std::is_same_v<C, dom::CountLess<K>>) {
      // the bare call, to count what it does
      uint32_t k = kind(w[i]);
      K q = m.key(m.plan.code[i], static_cast<uint32_t>(i));
      uint32_t vid = VD::norm(static_cast<uint32_t>(i + 1));
      size_t n = m.ref.size();
      size_t h = 2;
      for (size_t x = n; x > 1; x /= 2) ++h;
      if (k < 16) {
        auto r = m.t->insert(q, VD::make(vid));
        (void)r;
        m.ref.insert(m.ref.begin() + m.rank_of(m.plan.code[i]),
                     Elem{m.plan.code[i], static_cast<uint32_t>(i), vid});
      } else {
        m.t->erase(q);
        m.ref.erase(m.ref.begin() + A_(w[i]));
      }
      uint64_t d = dom::compare_calls - c0;
      constexpr uint64_t per = 8 * (LN + IN + 16);
      CHECK(d <= per * h, "one call made %llu comparisons with %zu elements",
            (unsigned long long)d, n);
      CHECK(trk::reg.allocs - allocs0 <= h,
            "one call allocated %llu nodes with %zu elements",
            (unsigned long long)(trk::reg.allocs - allocs0), n);
      m.cmp_max = std::max(m.cmp_max, d);
    } else {
      m.step(i, true);
    }
    ++n_checks;
    bool full = tall && !every
                    ? i + 1 == f[2] + f[4] || i + 1 == f[2] + 2 * f[4]
                    : i % cadence == cadence - 1;
    if (full || i + 1 == w.size()) {
      m.check_full("in a family program");
      if (cost) m.check_cost_now();
    } else if ((m.ref.size() < 48 && !tall) || i % 16 == 0) {
      m.check_light("in a family program");
      if (cost) m.check_cost_now();
    }
  }
  if constexpr (dom::Counted<V>)
    CHECK(dom::ledger.payload == static_cast<int64_t>(m.ref.size()),
          "%lld resources are alive for %zu elements",
          (long long)dom::ledger.payload, m.ref.size());
  check_keys(m.ref.size(), "at the end");
  m.t->~Tree();
  check_keys(0, "after destruction");
  CHECK(trk::reg.live.empty(), "%zu nodes leaked", trk::reg.live.size());
  if constexpr (dom::Counted<V>)
    CHECK(dom::ledger.live == 0, "%lld values leaked",
          (long long)dom::ledger.live);
}
uint64_t n_family = 0;
bool explore_family() {
  // sizes: around multiples of the node capacity, up to fmax
  long fmax = par.get("fmax", 300);
  long fstep = par.get("fstep", 1);
  std::vector<uint32_t> sizes;
  constexpr long L = LN, I = IN;
  for (long n : {1L, L - 1, L, L + 1, 2 * L + 1, 3 * L + 2, 5 * L, L * I / 2 + 3,
                 L * I + 1, L * I * 2 + 5, L * I * 4})
    if (n <= fmax) sizes.push_back(static_cast<uint32_t>(n));
  sizes.push_back(static_cast<uint32_t>(fmax));
  std::sort(sizes.begin(), sizes.end());
  sizes.erase(std::unique(sizes.begin(), sizes.end()), sizes.end());
  uint64_t idx = 0;
  for (uint32_t N : sizes)
    for (uint32_t b = 0; b < NBUILD; ++b)
      for (uint32_t d = 0; d < NDRAIN; ++d)
        for (uint32_t fr : {0u, 1u, 2u})
          for (uint32_t rf : {0u, 1u, 4u, 5u}) {
            if (idx++ % fstep) continue;
            if (2u * N + 4 > KD::max_T()) continue;
            if (out_of_time()) return false;
            Words f{W(FAMILY, 0), b, N, d, fr, rf};
            run_family(f, N < 2 * LN && N < 128);
            ++n_family;
            ++n_trans;
          }
  return true;
}

uint64_t n_tall = 0;
bool explore_tall() {
  uint32_t tmax = static_cast<uint32_t>(par.get("tall", 0));
  uint32_t step = static_cast<uint32_t>(par.get("tstep", 5));
  constexpr uint32_t L = LN, I = IN;
  // an ascending build leaves half-full nodes: four, three and five levels
  std::vector<uint32_t> sizes{L * I * I / 4 + L * 3, L * I / 2 + L * 2 + 1,
                              L * I * I + L * 5};
  for (uint32_t N : sizes) {
    if (N > tmax) continue;
    for (uint32_t b = 0; b < NBUILD; ++b)
      for (uint32_t len : {L * I / 4 + 1, L * 2 + 3, L * I, N})
        for (uint32_t o = 0; o < 4; ++o)
          for (uint32_t p = (b + o) % step; p < N; p += step) {
            if (len == N && p >= L * 3) break;  // windows to the end of the tree
            if (2u * (N + len) + 4 > KD::max_T()) continue;
            if (out_of_time()) return false;
            Words f{W(FAMILY, 1), b, N, p, len, o,
                    (p / step + b + o + len) % 4};
            run_family(f, false);
            ++n_tall;
            ++n_trans;
          }
  }
  return true;
}

bool explore() {
  t0 = mc::now_s();
  budget = mc::time_budget();
  bool ex = true;
  if (par.get("bfs", 1)) ex = explore_bfs() && ex;
  if (par.get("macro", 0)) ex = explore_macro() && ex;
  if (par.get("family", 0)) ex = explore_family() && ex;
  if (par.get("tall", 0)) ex = explore_tall() && ex;
  mc::counter("tall_programs") = n_tall;
  mc::counter("states") =
      mc::counter("bfs_states") + mc::counter("macro_states");
  mc::counter("transitions") = n_trans;
  mc::counter("histories") = n_exec;
  mc::counter("calls") = n_calls;
  mc::counter("checked_calls") = n_checks;
  mc::counter("families") = n_family;
  mc::counter("faults_armed") = n_faults;
  mc::counter("faults_hit") = n_fault_points_hit;
  return ex;
}

void replay(const Words& w) {
  if (!w.empty() && kind(w[0]) == FAMILY) {
    run_family(w, true);
    return;
  }
  Machine m;
  ExecOpts o;
  o.full_each = true;
  o.cost = par.get("cost", 0);
  o.zigzag = par.get("zigzag", 0);
  exec_words(w, o, m);
}

int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, replay);
}
