// dense_map of large capacity (properties C09, C10, C07, C17, C18): every size up to a
// bound and around every multiple of 16 (and 128, 256, the capacity); in each, every call
// at every position (or, beyond the bound, at every boundary position).
#include "domains.hpp"
#include "mc.hpp"

#include <fast_containers/dense_map.hpp>

#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef CMP
#define CMP std::less<KEY>
#endif
#ifndef CAP
#define CAP 40
#endif
#ifndef CAP2
#define CAP2 (CAP - CAP / 3)
#endif
using K = KEY;
using V = VAL;
using C = CMP;
using KD = dom::KeyDom<K>;
using VD = dom::ValDom<V>;
template <size_t N>
using MapN = fc::dense_map<K, V, N, C, fc::SearchMode::MODE>;
using Map = MapN<CAP>;
constexpr bool kDesc = dom::is_descending<C>::value;
constexpr bool kObj = dom::Counted<V>;
constexpr bool kOKey = std::is_same_v<K, dom::OKey>;

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;

constexpr uint32_t T = CAP + 4;
static_assert(sizeof(KEY) > 1 || 2 * T < 256, "8-bit keys leave no gaps between the elements");
struct Elem {
  uint32_t code, vid;
};
using Ref = std::vector<Elem>;
int key_locals = 0;
K key(uint32_t code) { return KD::make(code, T, 0, kDesc, 0); }
uint64_t n_case = 0, n_state = 0, n_fault = 0;

void check_ledger(int64_t stored, const char* what) {
  if constexpr (kObj)
    CHECK(dom::ledger.payload == stored, "%s: %lld resources for %lld elements", what,
          (long long)dom::ledger.payload, (long long)stored);
  if constexpr (kOKey)
    CHECK(dom::kledger.payload == stored + key_locals, "%s: %lld keys for %lld elements",
          what, (long long)dom::kledger.payload - key_locals, (long long)stored);
}
size_t rank_of(const Ref& r, uint32_t code) {
  return std::lower_bound(r.begin(), r.end(), code,
                          [](const Elem& e, uint32_t c) { return e.code < c; }) -
         r.begin();
}
bool has(const Ref& r, uint32_t code) {
  size_t i = rank_of(r, code);
  return i < r.size() && r[i].code == code;
}

template <class M>
void check(M& m, const Ref& ref, const char* what) {
  const M& cm = m;
  size_t n = ref.size();
  CHECK(cm.size() == n, "%s: size() is %zu, expected %zu", what, cm.size(), n);
  CHECK(cm.empty() == (n == 0) && cm.full() == (n == cm.capacity()), "%s: empty/full", what);
  size_t i = 0;
  for (auto it = m.begin(); it != m.end(); ++it, ++i) {
    CHECK(i < n, "%s: iteration too long", what);
    CHECK(KD::identical(it->first, key(ref[i].code)), "%s: wrong key at %zu of %zu", what, i, n);
    CHECK(VD::get(it->second) == VD::norm(ref[i].vid), "%s: wrong value at %zu of %zu", what, i, n);
  }
  CHECK(i == n, "%s: iteration too short", what);
}
template <class M>
void lookups(M& m, const Ref& ref, const char* what) {
  const M& cm = m;
  size_t n = ref.size();
  for (uint32_t c = 0; c <= 2 * T; ++c) {
    size_t r = rank_of(ref, c);
    bool h = r < n && ref[r].code == c;
    size_t e = h ? r : n, u = r + (h ? 1 : 0);
    K k = key(c);
    CHECK(m.find(k) == m.begin() + e && cm.find(k) == cm.begin() + e, "%s: find %u in %zu",
          what, c, n);
    CHECK(m.lower_bound(k) == m.begin() + r && cm.lower_bound(k) == cm.begin() + r,
          "%s: lower_bound %u in %zu", what, c, n);
    CHECK(m.upper_bound(k) == m.begin() + u && cm.upper_bound(k) == cm.begin() + u,
          "%s: upper_bound %u in %zu", what, c, n);
  }
}

// n elements with the odd codes from `from` on; hist: how the slots behind came about
template <class M>
void build(M& m, Ref& ref, uint32_t n, uint32_t hist, uint32_t from = 0) {
  auto put = [&](uint32_t i) { m.insert(key(2 * (from + i) + 1), VD::make(from + i + 5)); };
  if (hist == 0) {
    for (uint32_t i = 0; i < n; ++i) put(i);
  } else if (hist == 1) {  // downwards, and one too many
    uint32_t top = n + (n < m.capacity() && from + n + 1 < T ? 1 : 0);
    for (uint32_t i = top; i-- > 0;) put(i);
    if (top > n) m.erase(m.end() - 1);
  } else {  // filled up, then cut down from the front and the back
    uint32_t extra = static_cast<uint32_t>(m.capacity()) - n;
    uint32_t lo = extra / 2, hi = extra - lo;
    if (from < lo) hi += lo - from, lo = from;
    if (from + n + hi > T) hi = T - from - n;
    for (uint32_t i = 0; i < lo + n + hi; ++i)
      m.insert(key(2 * (from - lo + i) + 1), VD::make(from - lo + i + 5));
    for (uint32_t i = 0; i < lo; ++i) m.erase(m.begin());
    for (uint32_t i = 0; i < hi; ++i) m.erase(m.end() - 1);
  }
  for (uint32_t i = 0; i < n; ++i) ref.push_back({2 * (from + i) + 1, from + i + 5});
}

enum Op { LOOK, INS, PRESENT, ERASE, SPLIT, PREFIX, SUFFIX, WHOLE, ITER, ALIAS, FAULT };
constexpr uint32_t kIns = 7;
constexpr uint32_t VID = 90;  // fits every value type

// one of the insertion calls; returns the position told, inserted or not
template <class M>
std::pair<size_t, bool> put(M& m, uint32_t form, const K& k, const V& v) {
  switch (form) {
    case 0: {
      auto [it, b] = m.insert(k, v);
      return {size_t(it - m.begin()), b};
    }
    case 1: {
      auto [it, b] = m.try_emplace(k, v);
      return {size_t(it - m.begin()), b};
    }
    case 2: {
      auto [it, b] = m.insert_or_assign(k, v);
      return {size_t(it - m.begin()), b};
    }
    case 3: {
      V t(v);
      auto [it, b] = m.insert_or_assign(k, std::move(t));
      return {size_t(it - m.begin()), b};
    }
    case 4: {
      V t(v);
      auto [it, b] = m.try_emplace(k, std::move(t));
      return {size_t(it - m.begin()), b};
    }
    case 5: {
      size_t before = m.size();
      V& r = m[k];
      r = v;
      bool ins = m.size() != before;
      auto it = m.find(k);
      CHECK(it != m.end() && &it->second == &r, "operator[] returned another element");
      return {size_t(it - m.begin()), ins};
    }
    default: {
      auto [it, b] = m.insert_hint(m.lower_bound(k), k, v);
      return {size_t(it - m.begin()), b};
    }
  }
}
bool assigns(uint32_t form) { return form == 2 || form == 3 || form == 5; }

template <size_t A, size_t B>
void transfer(uint32_t n, uint32_t m0, uint32_t cnt, uint32_t hist, bool prefix) {
  {
    auto a = std::make_unique<MapN<A>>();
    auto b = std::make_unique<MapN<B>>();
    Ref ra, rb;
    build(*a, ra, n, hist, prefix ? m0 : 0);
    build(*b, rb, m0, hist == 2 ? 1 : hist, prefix ? 0 : n);
    bool bad = cnt > n || m0 + cnt > B, threw = false;
    try {
      if (prefix)
        b->transfer_prefix_from(*a, cnt);
      else
        b->transfer_suffix_from(*a, cnt);
    } catch (const std::runtime_error&) {
      threw = true;
    }
    CHECK(threw == bad, "a transfer of %u of %u elements to %u: exception %d", cnt, n, m0, threw);
    if (!threw) {
      if (prefix) {
        rb.insert(rb.end(), ra.begin(), ra.begin() + cnt);
        ra.erase(ra.begin(), ra.begin() + cnt);
      } else {
        rb.insert(rb.begin(), ra.end() - cnt, ra.end());
        ra.resize(n - cnt);
      }
    }
    check(*a, ra, "transfer: source");
    check(*b, rb, "transfer: target");
    check_ledger(ra.size() + rb.size(), "transfer");
    if (ra.size() < A && !has(ra, 2 * T)) {
      a->insert(key(2 * T), VD::make(3));
      ra.push_back({2 * T, 3});
      check(*a, ra, "transfer: source afterwards");
    }
  }
  check_ledger(0, "after destruction");
}
template <size_t A, size_t B>
void split(uint32_t n, uint32_t pos, uint32_t hist, bool taken) {
  {
    auto a = std::make_unique<MapN<A>>();
    auto b = std::make_unique<MapN<B>>();
    Ref ra, rb;
    build(*a, ra, n, hist);
    if (taken) build(*b, rb, 1, 0, T - 1);
    bool bad = taken || n - pos > B, threw = false;
    try {
      a->split_at(a->begin() + pos, *b);
    } catch (const std::runtime_error&) {
      threw = true;
    }
    CHECK(threw == bad, "split of %u elements at %u: exception %d", n, pos, threw);
    if (!threw) {
      rb.assign(ra.begin() + pos, ra.end());
      ra.resize(pos);
    }
    check(*a, ra, "split: source");
    check(*b, rb, "split: output");
    check_ledger(ra.size() + rb.size(), "split");
  }
  check_ledger(0, "after destruction");
}

void run_inner(const Words& w) {
  const uint32_t op = w.at(0), hist = w.at(1), n = w.at(2), p = w.at(3), x = w.at(4);
  if (op == PREFIX || op == SUFFIX) {
    switch (x % 3) {
      case 0: return transfer<CAP, CAP>(n, x / 3, p, hist, op == PREFIX);
      case 1: return transfer<CAP, CAP2>(n, x / 3, p, hist, op == PREFIX);
      default: return transfer<CAP2, CAP>(n, x / 3, p, hist, op == PREFIX);
    }
  }
  if (op == SPLIT) {
    switch (x % 3) {
      case 0: return split<CAP, CAP>(n, p, hist, x / 3);
      case 1: return split<CAP, CAP2>(n, p, hist, x / 3);
      default: return split<CAP2, CAP>(n, p, hist, x / 3);
    }
  }
  {
    auto mp = std::make_unique<Map>();
    Map& m = *mp;
    Ref ref;
    build(m, ref, n, hist);
    switch (op) {
      case LOOK:
        check(m, ref, "after building");
        lookups(m, ref, "lookups");
        check_ledger(n, "after building");
        break;
      case INS:
      case PRESENT: {
        uint32_t code = op == INS ? 2 * p : 2 * p + 1;
        bool present = op == PRESENT;
        bool refuse = n == CAP && (!present || !assigns(x));
        K k = key(code);
        key_locals = 1;
        V v = VD::make(VID);
        std::pair<size_t, bool> r{};
        bool threw = false;
        try {
          r = put(m, x, k, v);
        } catch (const std::runtime_error& e) {
          if (dynamic_cast<const mc::Violation*>(&e)) throw;
          threw = true;
        }
        CHECK(threw == refuse, "insertion form %u at %u of %u: exception %d", x, p, n, threw);
        if (!threw) {
          CHECK(r.second == !present, "insertion form %u at %u of %u reports %d", x, p, n, r.second);
          CHECK(r.first == p, "insertion form %u returned position %zu, not %u", x, r.first, p);
          if (present) {
            if (assigns(x)) ref[p].vid = VID;
          } else {
            ref.insert(ref.begin() + p, {code, VID});
          }
        }
        check(m, ref, "insertion");
        if constexpr (kObj) dom::ledger.payload -= 1;
        check_ledger(ref.size(), "insertion");
        if constexpr (kObj) dom::ledger.payload += 1;
        break;
      }
      case ERASE: {
        if (x == 0) {
          auto it = m.erase(m.begin() + p);
          CHECK(it == m.begin() + p, "erase returned another position");
          ref.erase(ref.begin() + p);
        } else if (x == 1) {
          CHECK(m.erase(key(2 * p + 1)) == 1, "erase of a present key");
          ref.erase(ref.begin() + p);
        } else {
          CHECK(m.erase(key(2 * p)) == 0, "erase of an absent key");
        }
        check(m, ref, "erase");
        check_ledger(ref.size(), "erase");
        m.insert(key(2 * T), VD::make(4));
        ref.push_back({2 * T, 4});
        check(m, ref, "insertion after erase");
        break;
      }
      case WHOLE: {  // p: size of the other map
        {
          auto other = std::make_unique<Map>();
          Ref ro;
          build(*other, ro, p, hist == 2 ? 0 : 2);
          switch (x) {
            case 0: {
              auto c = std::make_unique<Map>(m);
              check(*c, ref, "copy");
              lookups(*c, ref, "copy");
              check_ledger(2 * n + p, "copy");
              if (n) c->erase(c->begin());
              check(m, ref, "original of a changed copy");
              break;
            }
            case 1: {
              auto c = std::make_unique<Map>(std::move(m));
              check(*c, ref, "move");
              lookups(*c, ref, "move");
              ref.clear();
              check(m, ref, "moved-from map");
              check_ledger(n + p, "move");
              break;
            }
            case 2:
              *other = m;
              check(*other, ref, "copy assignment");
              lookups(*other, ref, "copy assignment");
              check_ledger(2 * n, "copy assignment");
              if (n) other->erase(other->begin());
              break;
            case 3:
              *other = std::move(m);
              check(*other, ref, "move assignment");
              lookups(*other, ref, "move assignment");
              ref.clear();
              check(m, ref, "moved-from map");
              check_ledger(n, "move assignment");
              break;
            case 4: {
              using std::swap;
              swap(m, *other);
              check(*other, ref, "swap");
              check(m, ro, "swap");
              check_ledger(n + p, "swap");
              std::swap(ref, ro);
              break;
            }
            case 5: {
              Map& same = m;
              m = same;
              check(m, ref, "self-assignment");
              m.clear();
              ref.clear();
              check(m, ref, "clear");
              check_ledger(p, "clear");
              build(m, ref, n, 1);
              check(m, ref, "refilled after clear");
              break;
            }
          }
          check(m, ref, "whole-map call");
        }
        check_ledger(ref.size(), "whole-map call");
        break;
      }
      case ITER: {
        const Map& cm = m;
        for (uint32_t i = 0; i <= n; ++i) {
          auto a = m.begin() + i;
          auto ca = cm.cbegin() + i;
          auto r = m.rbegin() + (n - i);
          CHECK(r == m.rend() - i, "reverse iterators at %u of %u", i, n);
          if (i)
            CHECK(VD::get((*r).second) == VD::norm(ref[i - 1].vid),
                  "reverse iterator at %u of %u", i, n);
          for (uint32_t j = 0; j <= n; ++j) {
            auto b = m.end() - (n - j);
            typename Map::const_iterator cb = b;
            std::ptrdiff_t d = std::ptrdiff_t(j) - std::ptrdiff_t(i);
            CHECK(b - a == d && cb - ca == d, "difference of %u and %u of %u", j, i, n);
            CHECK((a < b) == (i < j) && (a > b) == (i > j) && (a <= b) == (i <= j) &&
                      (a >= b) == (i >= j) && (a == b) == (i == j) && (a != b) == (i != j),
                  "comparison of iterators %u and %u of %u", i, j, n);
            CHECK((ca < cb) == (i < j) && (ca > cb) == (i > j) && (ca <= cb) == (i <= j) &&
                      (ca >= cb) == (i >= j) && (ca == cb) == (i == j) && (ca != cb) == (i != j),
                  "comparison of const iterators %u and %u of %u", i, j, n);
            CHECK(a + d == b && b - d == a && ca + d == cb && d + a == b, "arithmetic");
            if (j < n) {
              CHECK(KD::identical(a[d].first, key(ref[j].code)) &&
                        VD::get(a[d].second) == VD::norm(ref[j].vid) &&
                        &a[d].second == &b->second && &ca[d].second == &(*cb).second,
                    "iterator %u [%td] of %u", i, d, n);
            }
            auto c = a;
            c += d;
            CHECK(c == b, "+=");
            c -= d;
            CHECK(c == a, "-=");
          }
        }
        break;
      }
      case ALIAS: {  // p: position; x: form * 8 + which element is the argument
        const uint32_t form = x / 8, which = x % 8;
        const uint32_t js[] = {0, n - 1, p ? p - 1 : 0, p < n ? p : n - 1, n / 2};
        if (form < kIns) {
          const uint32_t j = js[which];
          K k = key(2 * p);
          uint32_t vid = ref[j].vid;
          auto src = m.begin() + j;
          auto r = put(m, form == 3 || form == 4 ? 0 : form, k, src->second);
          if (form != 5) CHECK(r.first == p && r.second, "insertion");
          if (form == 5) break;  // operator[] first, then an assignment from a moved element
          ref.insert(ref.begin() + p, {2 * p, vid});
        } else if (form == 7) {  // value of element j onto element p
          const uint32_t j = js[which];
          if (p >= n) break;
          uint32_t vid = ref[j].vid;
          auto src = m.begin() + j;
          m.insert_or_assign((m.begin() + p)->first, src->second);
          ref[p].vid = vid;
        } else if (form == 8) {  // erase by the stored key
          if (p >= n || which) break;
          auto it = m.begin() + p;
          CHECK(m.erase(it->first) == 1, "erase by a stored key");
          ref.erase(ref.begin() + p);
        }
        check(m, ref, "an argument that is stored in the map");
        check_ledger(ref.size(), "an argument that is stored in the map");
        break;
      }
      case FAULT: {  // x: form + 16 * failing construction
        if constexpr (kObj) {
          K k = key(2 * p);
          key_locals = 1;
          V v = VD::make(VID);
          bool threw = false;
          dom::ledger.tripped = false;
          dom::ledger.fail_in = x / 16;
          try {
            put(m, x % 16, k, v);
          } catch (const dom::Injected&) {
            threw = true;
          }
          dom::ledger.fail_in = -1;
          if (dom::ledger.tripped) {
            ++n_fault;
            CHECK(threw, "a failing construction was swallowed");
            if (x % 16 != 5) {  // with operator[] the assignment may be what failed
              check(m, ref, "after a failed insertion");
            } else if (m.size() == n) {
              check(m, ref, "after a failed operator[]");
            } else {
              ref.insert(ref.begin() + p, {2 * p, 0});
              check(m, ref, "after a failed assignment");
              break;
            }
            dom::ledger.payload -= 1;
            check_ledger(ref.size(), "after a failed insertion");
            dom::ledger.payload += 1;
            if (n < CAP) {
              put(m, 0, k, v);
              ref.insert(ref.begin() + p, {2 * p, VID});
            }
          } else {
            ref.insert(ref.begin() + p, {2 * p, VID});
          }
          check(m, ref, "insertion after a failure");
        }
        break;
      }
    }
    key_locals = 0;
  }
  check_ledger(0, "after destruction");
}
void run(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_case;
  dom::ledger = dom::kledger = dom::Ledger{};
  key_locals = 0;
  run_inner(w);
}

// every number up to `all`, then around multiples of 16 that are powers of two, and
// around the end
std::vector<uint32_t> places(uint32_t top, uint32_t all) {
  std::vector<uint32_t> v;
  for (uint32_t i = 0; i <= top; ++i) {
    bool near = i <= all || i + 3 >= top;
    for (uint32_t b = 16; b <= top; b *= 2) near |= i + 1 >= b && i <= b + 1;
    near |= i + 1 >= top / 2 && i <= top / 2 + 1;
    if (near) v.push_back(i);
  }
  return v;
}

bool explore() {
  uint32_t all = static_cast<uint32_t>(par.get("all", CAP));
  auto sizes = places(CAP, all);
  uint32_t hists = static_cast<uint32_t>(par.get("hists", 3));
  for (uint32_t h = 0; h < hists; ++h)
    for (uint32_t n : sizes) {
      ++n_state;
      auto pos = places(n, all);
      run({LOOK, h, n, 0, 0});
      if (par.get("ops", 0)) {
        for (uint32_t p : pos)
          for (uint32_t f = 0; f < kIns; ++f) {
            run({INS, h, n, p, f});
            if (p < n) run({PRESENT, h, n, p, f});
          }
        for (uint32_t p : pos)
          for (uint32_t x = 0; x < 3; ++x)
            if (x == 2 ? n < CAP : p < n) run({ERASE, h, n, p, x});
        for (uint32_t x = 0; x < 6; ++x)
          for (uint32_t o : {0u, 1u, n / 2, n, uint32_t{CAP}}) run({WHOLE, h, n, o, x});
        if (h == 0) run({ITER, h, n, 0, 0});
      }
      if (par.get("split", 0)) {
        for (uint32_t p : pos)
          for (uint32_t x = 0; x < 6; ++x)
            if (x % 3 != 2 || n <= CAP2) run({SPLIT, h, n, p, x});
        std::vector<uint32_t> counts = pos;
        counts.push_back(n + 1);
        for (uint32_t c : counts)
          for (uint32_t t : places(CAP + 4 > n ? std::min<uint32_t>(CAP, T - n) : 0,
                                   std::min(all, 3u)))
            for (uint32_t x = 0; x < 3; ++x) {
              if (x == 1 && t > CAP2) continue;
              if (x == 2 && n > CAP2) continue;
              run({PREFIX, h, n, c, t * 3 + x});
              run({SUFFIX, h, n, c, t * 3 + x});
            }
      }
      if (par.get("alias", 0) && n) {
        for (uint32_t p : pos)
          for (uint32_t x = 0; x < 9 * 8; ++x) {
            if (x % 8 >= 5 || (x / 8 < kIns && n >= CAP)) continue;
            run({ALIAS, h, n, p, x});
          }
      }
      if (par.get("faults", 0) && n < CAP) {
        for (uint32_t p : pos)
          for (uint32_t f = 0; f < kIns; ++f)
            for (uint32_t c = 0; c < 3; ++c) run({FAULT, h, n, p, f + 16 * c});
      }
    }
  mc::counter("states") = n_state;
  mc::counter("transitions") = n_case;
  mc::counter("histories") = n_case;
  mc::counter("faults_hit") = n_fault;
  mc::samples.push_back(fmt("capacity %u (other map %u): every size up to %u and the "
                            "boundary sizes beyond, every position likewise",
                            CAP, CAP2, all));
  return true;
}

int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, run);
}
