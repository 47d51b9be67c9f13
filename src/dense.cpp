// Exhaustive exploration of dense_map: every content (subset of a key universe), over
// several kinds of stale slots, times every operation and argument; every split and
// transfer; whole-map operations; iterator arithmetic; arguments that alias elements;
// failing value construction.  See DESIGN.md.
#include "domains.hpp"

#include <fast_containers/dense_map.hpp>

#include <algorithm>
#include <optional>
#include <unordered_set>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef KEY
#define KEY int32_t
#endif
#ifndef VAL
#define VAL dom::Obj
#endif
#ifndef CMP
#define CMP std::less<KEY>
#endif
#ifndef MODE
#define MODE Binary
#endif
#ifndef CAP
#define CAP 6
#endif
#ifndef CAP2
#define CAP2 9
#endif

using K = KEY;
using V = VAL;
using C = CMP;
using KD = dom::KeyDom<K>;
using VD = dom::ValDom<V>;
template <size_t N>
using MapN = fc::dense_map<K, V, N, C, fc::SearchMode::MODE>;
constexpr bool kDesc = dom::is_descending<C>::value;
constexpr bool kOKey = std::is_same_v<K, dom::OKey>;
constexpr bool kObj = dom::Counted<V>;

struct Elem {
  uint32_t code, rep, vid;
  bool operator==(const Elem&) const = default;
};
using Ref = std::vector<Elem>;

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
uint64_t n_cases = 0, n_calls = 0, n_faults = 0, n_faults_hit = 0;
std::unordered_set<uint64_t> seen_states;

uint32_t T = 8;  // elements in the universe
int layout = 0;
K key(uint32_t code, uint32_t rep = 0) { return KD::make(code, T, layout, kDesc, rep); }
bool code_ok(uint32_t code) {
  return KD::ok(kDesc ? 2 * T - code : code, T, layout);
}
size_t rank_of(const Ref& r, uint32_t code) {
  return std::lower_bound(r.begin(), r.end(), code,
                          [](const Elem& e, uint32_t c) { return e.code < c; }) -
         r.begin();
}
bool has(const Ref& r, uint32_t code) {
  size_t i = rank_of(r, code);
  return i < r.size() && r[i].code == code;
}

template <class M>
void check_map(M& m, const Ref& ref, const char* what, bool deep = true) {
  const M& cm = m;
  size_t n = ref.size();
  CHECK(cm.size() == n, "%s: size() is %zu, expected %zu", what, cm.size(), n);
  CHECK(cm.empty() == (n == 0), "%s: empty()", what);
  CHECK(cm.full() == (n == cm.capacity()), "%s: full()", what);
  size_t i = 0;
  for (auto it = m.begin(); it != m.end(); ++it, ++i) {
    CHECK(i < n, "%s: iteration too long", what);
    CHECK(KD::identical(it->first, key(ref[i].code, ref[i].rep)),
          "%s: wrong key at %zu of %zu", what, i, n);
    CHECK(VD::get(it->second) == ref[i].vid, "%s: wrong value at %zu of %zu", what,
          i, n);
  }
  CHECK(i == n, "%s: iteration too short", what);
  if (!deep) return;
  i = n;
  for (auto it = cm.rbegin(); it != cm.rend(); ++it) {
    CHECK(i-- > 0, "%s: reverse iteration too long", what);
    CHECK(VD::get((*it).second) == ref[i].vid, "%s: reverse iteration at %zu", what,
          i);
  }
  CHECK(i == 0, "%s: reverse iteration too short", what);
  for (uint32_t c = 0; c <= 2 * T; ++c) {
    if (!code_ok(c)) continue;
    size_t r = rank_of(ref, c);
    bool h = r < n && ref[r].code == c;
    for (uint32_t rep = 0; rep < 2; ++rep) {
      K k = key(c, rep);
      size_t e = h ? r : n, u = r + (h ? 1 : 0);
      CHECK(m.find(k) == m.begin() + e, "%s: find: code %u present=%d", what, c, h);
      CHECK(cm.find(k) == cm.begin() + e, "%s: const find: code %u", what, c);
      CHECK(m.lower_bound(k) - m.begin() == (std::ptrdiff_t)r,
            "%s: lower_bound: code %u", what, c);
      CHECK(cm.lower_bound(k) - cm.begin() == (std::ptrdiff_t)r,
            "%s: const lower_bound: code %u", what, c);
      CHECK(m.upper_bound(k) - m.begin() == (std::ptrdiff_t)u,
            "%s: upper_bound: code %u", what, c);
      CHECK(cm.upper_bound(k) - cm.begin() == (std::ptrdiff_t)u,
            "%s: const upper_bound: code %u", what, c);
    }
  }
}
int key_locals = 0;  // keys held by the harness itself
void check_ledger(int64_t stored, const char* what) {
  if constexpr (kObj)
    CHECK(dom::ledger.payload == stored,
          "%s: %lld resources are alive for %lld stored elements", what,
          (long long)dom::ledger.payload, (long long)stored);
  if constexpr (kOKey)
    CHECK(dom::kledger.payload == stored + key_locals,
          "%s: %lld keys own something for %lld stored elements", what,
          (long long)dom::kledger.payload - key_locals, (long long)stored);
}

uint32_t g_vid = 1;
template <class M>
void put(M& m, Ref& ref, uint32_t code, uint32_t rep = 0) {
  uint32_t vid = VD::norm(g_vid++);
  auto [it, ins] = m.insert(key(code, rep), VD::make(vid));
  size_t r = rank_of(ref, code);
  CHECK(ins && it == m.begin() + r, "insert while building");
  ref.insert(ref.begin() + r, Elem{code, rep, vid});
}
// dirt: what earlier contents left in the slots behind the end
//  0 fresh  1 full of large keys, erased from the back  2 full of small keys, erased
//  from the front  3 full, cleared  4 one element at a time through slot 0
template <class M>
void dirty(M& m, int dirt) {
  const uint32_t cap = static_cast<uint32_t>(m.capacity());
  Ref tmp;
  auto c = [&](uint32_t i) { return 2 * (i % T) + 1; };
  uint32_t n = cap < T ? cap : T;
  switch (dirt) {
    case 1:
      for (uint32_t i = 0; i < n; ++i) put(m, tmp, c(T - 1 - i));
      while (m.size()) m.erase(m.end() - 1);
      break;
    case 2:
      for (uint32_t i = 0; i < n; ++i) put(m, tmp, c(i));
      while (m.size()) m.erase(m.begin());
      break;
    case 3:
      for (uint32_t i = 0; i < n; ++i) put(m, tmp, c(i));
      m.clear();
      break;
    case 4:
      for (uint32_t i = 0; i < n; ++i) {
        m.try_emplace(key(c(i)), VD::make(7));
        m.erase(key(c(i)));
      }
      break;
    default:
      break;
  }
  CHECK(m.size() == 0 && m.begin() == m.end(), "emptying a map");
}
constexpr int NDIRT = 5;
template <class M>
void fill(M& m, Ref& ref, uint32_t mask, int order) {
  std::vector<uint32_t> codes;
  for (uint32_t i = 0; i < 32; ++i)
    if (mask >> i & 1) codes.push_back(2 * i + 1);
  if (order == 1) std::reverse(codes.begin(), codes.end());
  if (order == 2)
    for (size_t i = 0; i + 1 < codes.size(); i += 2) std::swap(codes[i], codes[i + 1]);
  for (uint32_t c : codes) put(m, ref, c);
}

enum Sect : uint32_t { OPS = 1, SPLIT, PREFIX, SUFFIX, WHOLE, ITER, ALIAS, FAULT };
enum Fl : uint32_t {
  F_INSERT, F_HINT, F_TRY, F_IOA_L, F_IOA_R, F_SUB, F_ERASE_KEY, F_ERASE_IT, F_CLEAR,
  F_UPDATE_KEY, NF
};

template <class M>
std::pair<typename M::iterator, bool> call(M& m, uint32_t f, const K& k, const V& v) {
  size_t before = m.size();
  switch (f) {
    case F_INSERT:
      return m.insert(k, v);
    case F_HINT:
      return m.insert_hint(m.lower_bound(k), k, v);
    case F_TRY:
      return m.try_emplace(k, v);
    case F_IOA_L:
      return m.insert_or_assign(k, v);
    case F_IOA_R: {
      V tmp(v);
      return m.insert_or_assign(k, std::move(tmp));
    }
    default: {
      V& r = m[k];
      if (m.size() != before)
        CHECK(VD::get(r) == 0, "operator[] inserted a value that is not "
                               "value-initialised");
      r = v;
      auto it = m.find(k);
      CHECK(it != m.end() && &it->second == &r, "operator[] returned another value");
      return {it, m.size() != before};
    }
  }
}

// words: OPS, mask, dirt | order << 8 | layout << 16, flavour, code, [flavour, code]...
void case_ops(const Words& w) {
  using M = MapN<CAP>;
  Ref ref;
  {
    std::optional<M> box(std::in_place);
    M& m = *box;
    dirty(m, w[2] & 255);
    fill(m, ref, w[1], (w[2] >> 8) & 255);
    check_ledger(ref.size(), "after building");
    for (size_t i = 3; i + 1 < w.size(); i += 2) {
      uint32_t f = w[i], c = w[i + 1];
      if (!code_ok(c)) continue;
      ++n_calls;
      uint32_t rep = static_cast<uint32_t>(i);
      size_t r = rank_of(ref, c);
      bool h = r < ref.size() && ref[r].code == c;
      if (f <= F_SUB) {
        uint32_t vid = VD::norm(g_vid++);
        V v = VD::make(vid);
        K k = key(c, rep);
        bool full = ref.size() == CAP;
        bool threw = false;
        try {
          auto [it, ins] = call(m, f, k, v);
          CHECK(ins == !h, "flavour %u: reports %d for present=%d", f, ins, h);
          if (!h)
            ref.insert(ref.begin() + r, Elem{c, rep, vid});
          else if (f >= F_IOA_L)
            ref[r].vid = vid;
          CHECK(it == m.begin() + r, "flavour %u: iterator to %td, expected %zu", f,
                it - m.begin(), r);
        } catch (const std::runtime_error& e) {
          if (dynamic_cast<const mc::Violation*>(&e)) throw;
          threw = true;
        }
        if (full && !h)
          CHECK(threw, "flavour %u: no exception for an absent key in a full map", f);
        else if (!h)
          CHECK(!threw, "flavour %u: exception although there is room", f);
        else if (!full)
          CHECK(!threw, "flavour %u: exception for a present key", f);
        CHECK(VD::get(v) == vid && KD::identical(k, key(c, rep)),
              "flavour %u changed its arguments", f);
        if constexpr (kObj) {
          dom::ledger.payload -= 1;  // v itself
        }
        key_locals = 1;
        check_ledger(ref.size(), "after the call");
        key_locals = 0;
        if constexpr (kObj) dom::ledger.payload += 1;
      } else if (f == F_ERASE_KEY) {
        size_t n = m.erase(key(c, rep));
        CHECK(n == (h ? 1u : 0u), "erase(key) returned %zu for present=%d", n, h);
        if (h) ref.erase(ref.begin() + r);
        check_ledger(ref.size(), "after erase(key)");
      } else if (f == F_ERASE_IT) {
        if (h) {
          auto nx = m.erase(m.find(key(c, rep)));
          ref.erase(ref.begin() + r);
          CHECK(nx == m.begin() + r, "erase(iterator) returned %td, expected %zu",
                nx - m.begin(), r);
          check_ledger(ref.size(), "after erase(iterator)");
        }
      } else if (f == F_CLEAR) {
        m.clear();
        ref.clear();
        check_ledger(0, "after clear");
      } else if (f == F_UPDATE_KEY) {
        // code c is absent; the element before it gets that key
        if (!h && r > 0) {
          m.unsafe_update_key(m.begin() + (r - 1), key(c, rep));
          ref[r - 1].code = c;
          ref[r - 1].rep = rep;
        }
      }
      check_map(m, ref, "after the call");
    }
    box.reset();
  }
  check_ledger(0, "after destruction");
  if constexpr (kObj) CHECK(dom::ledger.live == 0, "values leaked");
}

// words: SPLIT, n, pos, dirtA | dirtB << 8, m (elements already in the output)
template <size_t A, size_t B>
void do_split(const Words& w) {
  Ref ra, rb;
  {
    MapN<A> a;
    MapN<B> b;
    dirty(a, w[3] & 255);
    dirty(b, (w[3] >> 8) & 255);
    uint32_t n = w[1], pos = w[2], m = w[4];
    for (uint32_t i = 0; i < n; ++i) put(a, ra, 2 * i + 1, i & 1);
    for (uint32_t i = 0; i < m; ++i) put(b, rb, 2 * (n + i) + 1);
    bool bad = m > 0 || n - pos > B;
    bool threw = false;
    ++n_calls;
    try {
      a.split_at(a.begin() + pos, b);
    } catch (const std::runtime_error&) {
      threw = true;
    }
    CHECK(threw == bad, "split_at: exception %d, expected %d", threw, bad);
    if (!threw) {
      rb.insert(rb.end(), ra.begin() + pos, ra.end());
      ra.resize(pos);
    }
    check_map(a, ra, "split_at: source");
    check_map(b, rb, "split_at: output");
    check_ledger(ra.size() + rb.size(), "split_at");
    // both are still maps
    if (!ra.empty()) {
      a.erase(a.begin());
      ra.erase(ra.begin());
    }
    if (!rb.empty()) {
      b.erase(b.end() - 1);
      rb.pop_back();
    }
    if (ra.size() < A) put(a, ra, 2 * T - 1);
    check_map(a, ra, "split_at: source afterwards");
    check_map(b, rb, "split_at: output afterwards");
    check_ledger(ra.size() + rb.size(), "split_at afterwards");
  }
  check_ledger(0, "after destruction");
}
// words: PREFIX/SUFFIX, n (source), m (destination), count, dirtA | dirtB << 8
template <size_t A, size_t B>
void do_transfer(const Words& w, bool prefix) {
  Ref ra, rb;
  {
    MapN<A> a;  // source
    MapN<B> b;  // destination
    dirty(a, w[4] & 255);
    dirty(b, (w[4] >> 8) & 255);
    uint32_t n = w[1], m = w[2];
    size_t cnt = w[3] == 0xffffffffu ? ~size_t{0} : w[3];
    if (prefix) {
      for (uint32_t i = 0; i < m; ++i) put(b, rb, 2 * i + 1);
      for (uint32_t i = 0; i < n; ++i) put(a, ra, 2 * (m + i) + 1, i & 1);
    } else {
      for (uint32_t i = 0; i < n; ++i) put(a, ra, 2 * i + 1, i & 1);
      for (uint32_t i = 0; i < m; ++i) put(b, rb, 2 * (n + i) + 1);
    }
    bool bad = cnt > n || m + w[3] > B;
    bool threw = false;
    ++n_calls;
    try {
      if (prefix)
        b.transfer_prefix_from(a, cnt);
      else
        b.transfer_suffix_from(a, cnt);
    } catch (const std::runtime_error&) {
      threw = true;
    }
    CHECK(threw == bad, "transfer: exception %d, expected %d", threw, bad);
    if (!threw) {
      if (prefix) {
        rb.insert(rb.end(), ra.begin(), ra.begin() + cnt);
        ra.erase(ra.begin(), ra.begin() + cnt);
      } else {
        rb.insert(rb.begin(), ra.end() - cnt, ra.end());
        ra.resize(n - cnt);
      }
    }
    check_map(a, ra, prefix ? "transfer_prefix_from: source" : "transfer_suffix_from: source");
    check_map(b, rb, prefix ? "transfer_prefix_from: destination" : "transfer_suffix_from: destination");
    check_ledger(ra.size() + rb.size(), "transfer");
    if (!ra.empty()) {
      a.erase(a.begin());
      ra.erase(ra.begin());
    }
    if (!rb.empty()) {
      b.erase(b.end() - 1);
      rb.pop_back();
    }
    check_map(a, ra, "transfer: source afterwards");
    check_map(b, rb, "transfer: destination afterwards");
    check_ledger(ra.size() + rb.size(), "transfer afterwards");
  }
  check_ledger(0, "after destruction");
}

// words: WHOLE, maskA, maskB, what, dirtA | dirtB << 8
void case_whole(const Words& w) {
  using M = MapN<CAP>;
  Ref ra, rb;
  {
    M a, b;
    dirty(a, w[4] & 255);
    dirty(b, (w[4] >> 8) & 255);
    fill(a, ra, w[1], 0);
    fill(b, rb, w[2], 1);
    ++n_calls;
    switch (w[3]) {
      case 0: {
        M c(static_cast<const M&>(a));
        Ref rc = ra;
        check_map(c, rc, "copy");
        check_map(a, ra, "source of a copy");
        check_ledger(ra.size() + rb.size() + rc.size(), "copy construction");
        if (rc.size()) {
          c.erase(c.begin());
          rc.erase(rc.begin());
          check_map(a, ra, "source of a copy, after changing the copy", false);
        }
        break;
      }
      case 1: {
        M c(std::move(a));
        Ref rc = ra;
        ra.clear();
        check_map(c, rc, "move construction");
        check_map(a, ra, "moved-from map");
        check_ledger(rb.size() + rc.size(), "move construction");
        put(a, ra, 3);
        check_map(c, rc, "after refilling the moved-from map", false);
        break;
      }
      case 2: {
        M& r = (b = static_cast<const M&>(a));
        CHECK(&r == &b, "assignment returns another object");
        rb = ra;
        break;
      }
      case 3: {
        M& r = (b = std::move(a));
        CHECK(&r == &b, "move assignment returns another object");
        rb = ra;
        ra.clear();
        break;
      }
      case 4: {
        M& self = a;
        a = static_cast<const M&>(self);
        break;
      }
      case 5: {
        M& self = a;
        a = std::move(self);
        break;
      }
      case 6: {
        std::swap(a, b);
        std::swap(ra, rb);
        break;
      }
      case 7: {
        a.clear();
        ra.clear();
        break;
      }
    }
    check_map(a, ra, "first map");
    check_map(b, rb, "second map");
    check_ledger(ra.size() + rb.size(), "whole-map operation");
    if (ra.size() < CAP && !has(ra, 5)) put(a, ra, 5);
    if (!rb.empty()) {
      b.erase(b.begin());
      rb.erase(rb.begin());
    }
    check_map(a, ra, "first map later");
    check_map(b, rb, "second map later");
  }
  check_ledger(0, "after destruction");
  if constexpr (kObj) CHECK(dom::ledger.live == 0, "values leaked");
}

template <class It, class M>
void iter_arith(M& m, It b, It e, const Ref& ref, const char* what) {
  using D = std::ptrdiff_t;
  D n = ref.size();
  CHECK(e - b == n, "%s: end - begin", what);
  for (D i = 0; i <= n; ++i)
    for (D j = 0; j <= n; ++j) {
      It x = b + i, y = b + j;
      CHECK((x == y) == (i == j) && (x != y) == (i != j), "%s: ==", what);
      CHECK((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) &&
                (x >= y) == (i >= j),
            "%s: ordering of %td and %td", what, i, j);
      CHECK(y - x == j - i, "%s: difference", what);
      It z = x;
      z += j - i;
      CHECK(z == y, "%s: +=", what);
      z -= j - i;
      CHECK(z == x, "%s: -=", what);
      CHECK(x + (j - i) == y && y - (j - i) == x, "%s: + and -", what);
      if constexpr (requires(D d, It q) { d + q; })
        CHECK((j - i) + x == y, "%s: n + iterator", what);
      CHECK(e - (n - i) == x, "%s: end - n", what);
      if (j < n) {
        CHECK(VD::get(x[j - i].second) == ref[j].vid, "%s: x[n]", what);
        CHECK(KD::identical(x[j - i].first, key(ref[j].code, ref[j].rep)),
              "%s: x[n] key", what);
      }
    }
  for (D i = 0; i < n; ++i) {
    It x = b + i;
    CHECK(KD::identical((*x).first, key(ref[i].code, ref[i].rep)) &&
              VD::get((*x).second) == ref[i].vid && VD::get(x->second) == ref[i].vid,
          "%s: dereference", what);
    It y = x++;
    CHECK(y == b + i && x == b + i + 1, "%s: post ++", what);
    y = x--;
    CHECK(y == b + i + 1 && x == b + i, "%s: post --", what);
    CHECK(++x == b + i + 1 && --x == b + i, "%s: pre ++/--", what);
    std::pair<K, V> p = *x;
    CHECK(KD::identical(p.first, key(ref[i].code, ref[i].rep)) &&
              VD::get(p.second) == ref[i].vid,
          "%s: conversion to pair", what);
  }
}
// words: ITER, mask, dirt
void case_iter(const Words& w) {
  using M = MapN<CAP>;
  Ref ref;
  M m;
  dirty(m, w[2]);
  fill(m, ref, w[1], 0);
  const M& cm = m;
  ++n_calls;
  iter_arith(m, m.begin(), m.end(), ref, "iterator");
  iter_arith(m, cm.begin(), cm.end(), ref, "const iterator");
  iter_arith(m, cm.cbegin(), cm.cend(), ref, "cbegin");
  typename M::const_iterator ci = m.begin();
  CHECK(ci == cm.begin(), "conversion to const_iterator");
  Ref rev(ref.rbegin(), ref.rend());
  {
    auto b = m.rbegin(), e = m.rend();
    CHECK(e - b == (std::ptrdiff_t)ref.size(), "rend - rbegin");
    for (size_t i = 0; i < rev.size(); ++i) {
      CHECK(VD::get((*(b + i)).second) == rev[i].vid, "reverse iterator");
      CHECK(VD::get((b + i)->second) == rev[i].vid, "reverse iterator ->");
      CHECK(VD::get(b[i].second) == rev[i].vid, "reverse iterator []");
    }
    auto cb = cm.crbegin();
    for (size_t i = 0; i < rev.size(); ++i, ++cb)
      CHECK(VD::get((*cb).second) == rev[i].vid, "crbegin");
    CHECK(cb == cm.crend(), "crend");
  }
  // writing through iterators
  for (size_t i = 0; i < ref.size(); ++i) {
    uint32_t vid = VD::norm(g_vid++);
    switch (i % 4) {
      case 0:
        (m.begin() + i)->second = VD::make(vid);
        break;
      case 1:
        (*(m.end() - (ref.size() - i))).second = VD::make(vid);
        break;
      case 2:
        m.begin()[i].second = VD::make(vid);
        break;
      default:
        m.find(key(ref[i].code))->second = VD::make(vid);
    }
    ref[i].vid = vid;
    check_map(m, ref, "after writing through an iterator", false);
  }
  check_ledger(ref.size(), "after writing");
}

// words: ALIAS, mask, flavour, code, source rank, dirt
template <class K>  // (a template, so that untaken branches need not compile)
void case_alias(const Words& w) {
  using M = fc::dense_map<K, V, CAP, C, fc::SearchMode::MODE>;
  Ref ref;
  {
    M m;
    dirty(m, w[5]);
    fill(m, ref, w[1], 0);
    uint32_t f = w[2], c = w[3], src = w[4];
    size_t r = rank_of(ref, c);
    bool h = r < ref.size() && ref[r].code == c;
    ++n_calls;
    if (f <= F_SUB) {
      const V& v = (m.begin() + src)->second;
      uint32_t vid = ref[src].vid;
      if (ref.size() == CAP) return;
      if (f == F_IOA_R) f = F_IOA_L;
      if (h) {
        const K& kk = (m.begin() + r)->first;
        auto [it, ins] = call(m, f, kk, v);
        CHECK(!ins && it == m.begin() + r, "aliasing call on a present key");
        if (f >= F_IOA_L) ref[r].vid = vid;
      } else {
        auto [it, ins] = call(m, f, key(c), v);
        ref.insert(ref.begin() + r, Elem{c, 0, vid});
        CHECK(ins && it == m.begin() + r, "aliasing insertion");
      }
    } else if (f == F_ERASE_KEY) {
      size_t n = m.erase((m.begin() + src)->first);
      CHECK(n == 1, "erase(it->first) returned %zu", n);
      ref.erase(ref.begin() + src);
    } else if (f == F_UPDATE_KEY) {
      if constexpr (std::is_same_v<K, V>) {
        // the key argument is a stored value
        if (h || ref.size() == CAP) return;
        (m.begin() + src)->second = key(c);
        uint32_t sv = dom::ValDom<std::decay_t<decltype((m.begin() + src)->second)>>::get((m.begin() + src)->second);
        ref[src].vid = sv;
        const K& kk = (m.begin() + src)->second;
        uint32_t vid = VD::norm(g_vid++);
        V nv = VD::make(vid);
        uint32_t g = w[3] % 5;
        auto [it, ins] = call(m, g, kk, nv);
        ref.insert(ref.begin() + r, Elem{c, 0, vid});
        CHECK(ins && it == m.begin() + r, "insertion with a stored value as the key");
      }
    }
    check_map(m, ref, "after an aliasing call");
    check_ledger(ref.size(), "after an aliasing call");
  }
  check_ledger(0, "after destruction");
}

// words: FAULT, mask, flavour, code, point, dirt   (point: which construction fails)
bool g_hit = false;
void case_fault(const Words& w) {
  g_hit = false;
  if constexpr (kObj) {
    using M = MapN<CAP>;
    Ref ref;
    {
      M m;
      dirty(m, w[5]);
      fill(m, ref, w[1], 0);
      uint32_t f = w[2], c = w[3];
      size_t r = rank_of(ref, c);
      bool h = r < ref.size() && ref[r].code == c;
      uint32_t vid = VD::norm(g_vid++);
      ++n_faults;
      // From 1000 on a default construction fails: calls that leave slots unused may
      // do without it, all others have to report it and change nothing.
      const bool dflt = w[4] >= 1000;
      int64_t& point = dflt ? dom::ledger.default_fail_in : dom::ledger.fail_in;
      const int64_t at = dflt ? w[4] - 1000 : w[4];
      if (dflt && f >= F_ERASE_KEY) {
        bool threw = false;
        M out;
        if (f == F_UPDATE_KEY && !h) return;
        point = at;
        try {
          if (f == F_ERASE_KEY) {
            m.erase(key(c));
          } else if (f == F_ERASE_IT) {
            if (h) m.erase(m.find(key(c)));
          } else if (f == F_CLEAR) {
            m.clear();
          } else {
            m.split_at(m.find(key(c)), out);
          }
        } catch (const dom::Injected&) {
          threw = true;
        }
        point = -1;
        g_hit = dom::ledger.tripped;
        if (!threw) {
          if (f == F_CLEAR) {
            ref.clear();
          } else if (f == F_UPDATE_KEY) {
            check_map(out, Ref(ref.begin() + r, ref.end()), "split with a failure");
            ref.resize(r);
          } else if (h) {
            ref.erase(ref.begin() + r);
          }
        }
        check_map(m, ref, "after a failure in a call that removes elements");
        if (threw) check_map(out, Ref{}, "output of a failed split");
      } else if (f <= F_SUB) {
        if (ref.size() == CAP) return;
        V v = VD::make(vid);
        bool threw = false;
        size_t before = ref.size();
        point = at;
        try {
          if (f == F_SUB)
            m[key(c)] = v;
          else if (f == F_TRY && (w[4] & 1) == 0)
            m.try_emplace(key(c), vid);
          else
            call(m, f, key(c), v);
        } catch (const dom::Injected&) {
          threw = true;
        }
        point = -1;
        g_hit = dom::ledger.tripped;
        CHECK(dflt || threw == g_hit, "the injected failure was swallowed");
        if (!threw) {
          if (!h)
            ref.insert(ref.begin() + r, Elem{c, 0, vid});
          else if (f >= F_IOA_L)
            ref[r].vid = vid;
        } else if (f == F_SUB && !h && m.size() == before + 1) {
          ref.insert(ref.begin() + r, Elem{c, 0, 0});  // only the caller's = failed
        }
        check_map(m, ref, "after a failed insertion");
        int64_t stored = 1;
        for (auto& e : ref) stored += e.vid != 0;
        check_ledger(stored, "after a failed insertion");
        if (threw && ref.size() == before) {
          auto res = call(m, f, key(c), v);
          if (!h)
            ref.insert(ref.begin() + r, Elem{c, 0, vid});
          else if (f >= F_IOA_L)
            ref[r].vid = vid;
          CHECK(res.second == !h, "repeating the failed call");
          check_map(m, ref, "after repeating the failed call");
        }
      } else {
        // copy construction / copy assignment
        M other;
        Ref ro;
        if (f == F_UPDATE_KEY)
          for (uint32_t i = 0; i < 3 && i < CAP; ++i) put(other, ro, 2 * i + 1);
        bool threw = false;
        point = at;
        try {
          if (f == F_CLEAR) {
            M cp(static_cast<const M&>(m));
          } else {
            other = static_cast<const M&>(m);
          }
        } catch (const dom::Injected&) {
          threw = true;
        }
        point = -1;
        g_hit = dom::ledger.tripped;
        CHECK(dflt || threw == g_hit, "the injected failure was swallowed");
        check_map(m, ref, "source of a failed copy");
        if (f != F_CLEAR && threw) {
          // the target is still a map
          size_t n = 0;
          for (auto it = other.begin(); it != other.end(); ++it) ++n;
          CHECK(n == other.size() && n <= CAP, "target of a failed assignment");
          other = static_cast<const M&>(m);
          check_map(other, ref, "assignment after a failed one");
        }
      }
      if (g_hit) ++n_faults_hit;
    }
    check_ledger(0, "after destruction");
    CHECK(dom::ledger.live == 0, "values leaked");
  }
}

void run_case(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_cases;
  dom::ledger = dom::kledger = dom::Ledger{};
  g_vid = 1;
  layout = static_cast<int>(n_cases % dom::NLAYOUTS);
  uint32_t s = w.at(0) & 255;
  if (w[0] >> 8) layout = static_cast<int>((w[0] >> 8) - 1);
  T = s == SPLIT || s == PREFIX || s == SUFFIX
          ? 2 * (CAP > CAP2 ? CAP : CAP2) + 3
          : static_cast<uint32_t>(par.get("universe", CAP + 2));
  if (!code_ok(1) || !code_ok(2 * T - 1)) layout = 0;
  switch (s) {
    case OPS:
      case_ops(w);
      break;
    case SPLIT:
      if (w[5] == 0)
        do_split<CAP, CAP2>(w);
      else if (w[5] == 1)
        do_split<CAP2, CAP>(w);
      else
        do_split<CAP, CAP>(w);
      break;
    case PREFIX:
    case SUFFIX:
      if (w[5] == 0)
        do_transfer<CAP, CAP2>(w, s == PREFIX);
      else if (w[5] == 1)
        do_transfer<CAP2, CAP>(w, s == PREFIX);
      else
        do_transfer<CAP, CAP>(w, s == PREFIX);
      break;
    case WHOLE:
      case_whole(w);
      break;
    case ITER:
      case_iter(w);
      break;
    case ALIAS:
      case_alias<K>(w);
      break;
    case FAULT:
      case_fault(w);
      break;
    default:
      mc::fail("bad case");
  }
}
// the layout is part of the case
void go(Words w) {
  if (par.get("layouts", 0)) {
    for (uint32_t l = 0; l < dom::NLAYOUTS; ++l) {
      w[0] = (w[0] & 255) | (1 + l) << 8;
      run_case(w);
    }
    return;
  }
  static uint32_t turn = 0;
  w[0] |= (1 + turn++ % dom::NLAYOUTS) << 8;
  run_case(w);
}

bool explore() {
  uint32_t U = static_cast<uint32_t>(par.get("universe", CAP + 2));
  uint32_t full = 1u << U;
  std::vector<uint32_t> masks;
  for (uint32_t m = 0; m < full; ++m)
    if (std::popcount(m) <= CAP) masks.push_back(m);
  uint64_t states = 0, trans = 0;
  int nd = static_cast<int>(par.get("dirts", NDIRT));
  if (par.get("ops", 0)) {
    long depth2 = par.get("depth2", 0);
    for (int d = 0; d < nd; ++d)
      for (uint32_t m : masks) {
        ++states;
        for (uint32_t f = 0; f < NF; ++f)
          for (uint32_t c = 0; c <= 2 * U; ++c) {
            if (f == F_CLEAR && c) break;
            if (f <= F_SUB && !(c & 1)) continue;  // only elements are inserted
            // (gaps too, where the layout has room for them)
            Words w{OPS, m, static_cast<uint32_t>(d) | (c % 3) << 8, f, c};
            go(w);
            ++trans;
            if (depth2)
              for (uint32_t f2 = 0; f2 < NF; ++f2)
                for (uint32_t c2 = 1; c2 <= 2 * U; c2 += 2) {
                  Words x = w;
                  x.push_back(f2);
                  x.push_back(c2);
                  go(x);
                  ++trans;
                  if (depth2 > 1)  // and a third call
                    for (uint32_t f3 = f2 % 2; f3 < NF; f3 += 2)
                      for (uint32_t c3 = 1; c3 <= 2 * U; c3 += 2) {
                        Words y = x;
                        y.push_back(f3);
                        y.push_back(c3);
                        go(y);
                        ++trans;
                        if (f3 == F_CLEAR) break;
                      }
                  if (f2 == F_CLEAR) break;
                }
          }
      }
  }
  if (par.get("split", 0)) {
    for (uint32_t pair = 0; pair < 3; ++pair) {
      uint32_t A = pair == 1 ? CAP2 : CAP, B = pair == 0 ? CAP2 : CAP;
      for (uint32_t d = 0; d < 4u * 4u; ++d) {
        uint32_t dd = d % 4 | (d / 4) << 8;
        for (uint32_t n = 0; n <= A; ++n) {
          for (uint32_t pos = 0; pos <= n; ++pos)
            for (uint32_t m : {0u, 1u, B}) {
              ++states;
              ++trans;
              go({SPLIT, n, pos, dd, m, pair});
            }
          for (uint32_t m = 0; m <= B; ++m) {
            ++states;
            for (uint32_t cnt = 0; cnt <= n + 2; ++cnt) {
              trans += 2;
              go({PREFIX, n, m, cnt, dd, pair});
              go({SUFFIX, n, m, cnt, dd, pair});
            }
            go({PREFIX, n, m, 0xffffffffu, dd, pair});
            go({SUFFIX, n, m, 0xffffffffu, dd, pair});
          }
        }
      }
    }
  }
  if (par.get("whole", 0)) {
    std::vector<uint32_t> some;
    for (uint32_t m : masks)
      if (par.get("whole", 0) > 1 || m == 0 || std::popcount(m) == CAP || m % 5 == 1 || m < 8) some.push_back(m);
    for (uint32_t a : masks)
      for (uint32_t b : some) {
        ++states;
        for (uint32_t op = 0; op < 8; ++op) {
          if ((op < 2 || op == 4 || op == 5 || op == 7) && b != some[0]) continue;
          go({WHOLE, a, b, op, (a % 5) | ((b % 5) << 8)});
          ++trans;
        }
      }
  }
  if (par.get("iter", 0))
    for (uint32_t m : masks)
      for (int d = 0; d < nd; ++d) {
        ++states;
        ++trans;
        go({ITER, m, static_cast<uint32_t>(d)});
      }
  if (par.get("alias", 0))
    for (uint32_t m : masks) {
      ++states;
      uint32_t n = std::popcount(m);
      for (uint32_t f : {F_INSERT, F_HINT, F_TRY, F_IOA_L, F_ERASE_KEY, F_UPDATE_KEY})
        for (uint32_t c = 1; c <= 2 * U; c += 2)
          for (uint32_t src = 0; src < n; ++src) {
            if (f == F_ERASE_KEY && c > 1) break;
            go({ALIAS, m, f, c, src, (m + c) % NDIRT});
            ++trans;
          }
    }
  if (par.get("faults", 0))
    for (uint32_t m : masks) {
      ++states;
      for (uint32_t f = 0; f < NF; ++f)
        for (uint32_t c = 1; c <= 2 * U; c += 2) {
          if (f > F_SUB && c > 1) break;
          if (f == F_ERASE_KEY || f == F_ERASE_IT) continue;
          for (uint32_t p = 0; p < 64; ++p) {
            go({FAULT, m, f, c, p, (m + c) % NDIRT});
            ++trans;
            if (!g_hit) break;
          }
        }
      for (uint32_t f = 0; f < NF; ++f)
        for (uint32_t c = 1; c <= 2 * U; c += 2) {
          if (f == F_CLEAR && c > 1) break;
          for (uint32_t p = 1000; p < 1064; ++p) {
            go({FAULT, m, f, c, p, (m + c) % NDIRT});
            ++trans;
            if (!g_hit) break;
          }
        }
    }
  mc::counter("states") = states;
  mc::counter("transitions") = trans;
  mc::counter("histories") = n_cases;
  mc::counter("checked_calls") = n_calls;
  mc::counter("faults_armed") = n_faults;
  mc::counter("faults_hit") = n_faults_hit;
  mc::samples.push_back(fmt("capacity %d, universe %u keys: last case words %u %u %u ...",
                            CAP, U, mc::current[0], mc::current[1], mc::current[2]));
  return true;
}
void replay(const Words& w) { run_case(w); }

int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, replay);
}
