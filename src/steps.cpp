// btree: executed steps (basic blocks, counted by the compiler's instrumentation) of
// every single operation of whole build / erase / refill programs (property C20).
// Compiled with -fsanitize-coverage=trace-pc; counting is on only inside a call.
#include "mc.hpp"

#include <fast_containers/btree.hpp>

#include <cstring>
#include <map>
#include <memory>
#include <numeric>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

extern "C" {
static bool g_on = false;
static uint64_t g_steps = 0;
__attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() {
  if (g_on) ++g_steps;
}
}

#ifndef CMP
#define CMP std::less<KEY>
#endif
struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
using Tree = fc::btree<KEY, VAL, LN, IN, CMP, fc::SearchMode::MODE>;
using It = typename Tree::iterator;

uint64_t n_op = 0, n_case = 0, n_state = 0;
double worst = 0;        // steps / bound over all operations
uint64_t worst_bulk = 0; // steps per element, bulk operations
const char* worst_what = "";

// A generous bound, seven times and more what the slowest operation takes today: a
// number of passes over every node on the way down and up again, however written.
uint64_t levels(uint64_t n) {
  // every node but the root at least a quarter full: at most so many levels
  uint64_t h = 1, cap = LN, low = IN / 4 < 2 ? 2 : IN / 4;
  while (cap < n) {
    cap *= low;
    ++h;
  }
  return h + 1;
}
uint64_t bound(uint64_t n) {
  constexpr uint64_t w = LN > IN ? LN : IN;
  return 1000 + 12 * w + levels(n) * (400 + 12 * w);
}

template <class F>
__attribute__((noinline, no_sanitize_coverage)) uint64_t steps_of(F&& f) {
  g_steps = 0;
  g_on = true;
  f();
  g_on = false;
  return g_steps;
}

template <class F>
void one(const char* what, uint64_t n, F&& f) {
  uint64_t s = steps_of(f), b = bound(n);
  ++n_op;
  double r = double(s) / double(b);
  if (r > worst) {
    worst = r;
    worst_what = what;
  }
  CHECK(s <= b, "%s in a tree of %llu elements takes %llu steps (at most %llu)", what,
        (unsigned long long)n, (unsigned long long)s, (unsigned long long)b);
}
// an operation over k elements in a tree of n
template <class F>
void bulk(const char* what, uint64_t n, uint64_t k, F&& f) {
  uint64_t s = steps_of(f), b = bound(n) * (4 + k / 4);
  ++n_op;
  if (k > 100 && s / k > worst_bulk) worst_bulk = s / k;
  CHECK(s <= b, "%s of %llu elements in a tree of %llu takes %llu steps (at most %llu)",
        what, (unsigned long long)k, (unsigned long long)n, (unsigned long long)s,
        (unsigned long long)b);
}

KEY key(uint64_t i) { return static_cast<KEY>(2 * i + 1); }
KEY gap(uint64_t i) { return static_cast<KEY>(2 * i); }

// the i-th of n positions in one of the orders
constexpr uint32_t kOrders = 6;
uint64_t stride_[2], stride_n = 0;
uint64_t place(uint32_t order, uint64_t i, uint64_t n) {
  if (stride_n != n) {
    stride_n = n;
    for (int k = 0; k < 2; ++k) {
      uint64_t s = k ? n / 97 + 2 : n / 3 + 1;
      while (std::gcd(s, n) != 1) ++s;
      stride_[k] = s;
    }
  }
  switch (order) {
    case 0: return i;
    case 1: return n - 1 - i;
    case 2: return i % 2 ? n - 1 - i / 2 : i / 2;          // from both ends inwards
    case 3: return i % 2 ? n / 2 - 1 - i / 2 : n / 2 + i / 2;  // middle outwards
    default: return i * stride_[order - 4] % n;            // scattered
  }
}

// everything a reader can ask, at one place of the order
void queries(Tree& t, uint64_t n, uint64_t i, uint64_t& sum) {
  const Tree& c = t;
  for (KEY k : {key(i), gap(i)}) {
    one("find", n, [&] { sum += t.find(k) != t.end(); });
    one("const find", n, [&] { sum += c.find(k) != c.end(); });
    one("contains", n, [&] { sum += c.contains(k); });
    one("count", n, [&] { sum += c.count(k); });
    one("lower_bound", n, [&] { sum += t.lower_bound(k) != t.end(); });
    one("upper_bound", n, [&] { sum += t.upper_bound(k) != t.end(); });
    one("equal_range", n, [&] {
      auto r = t.equal_range(k);
      sum += r.first != r.second;
    });
  }
  It it = t.lower_bound(gap(i));
  if (it != t.end()) {
    one("reading an element", n, [&] { sum += it->second + (*it).second; });
    one("++iterator", n, [&] { ++it; });
    one("--iterator", n, [&] { --it; });
    one("at", n, [&] { sum += t.contains(key(i)) ? t.at(key(i)) : 0; });
  }
}
void ends(Tree& t, uint64_t n, uint64_t& sum) {
  const Tree& c = t;
  one("size", n, [&] { sum += c.size() + c.empty(); });
  one("begin", n, [&] { sum += n && t.begin() != t.end(); });
  one("const begin", n, [&] { sum += n && c.begin() != c.end() && c.cbegin() != c.cend(); });
  one("rbegin", n, [&] { sum += n && t.rbegin() != t.rend(); });
  one("const rbegin", n, [&] { sum += n && c.rbegin() != c.rend() && c.crbegin() != c.crend(); });
  if (n) {
    one("reading the first element", n, [&] { sum += t.begin()->second; });
    one("reading the last element", n, [&] { sum += t.rbegin()->second; });
    one("--end", n, [&] {
      It e = t.end();
      --e;
      sum += e->second;
    });
    one("++ to the end", n, [&] {
      It e = t.end();
      --e;
      ++e;
      sum += e == t.end();
    });
  }
  // moves and swaps carry the elements over without a walk over them
  std::optional<Tree> m;
  one("move construction", n, [&] { m.emplace(std::move(t)); });
  CHECK(m->size() == n, "size after a move");
  one("move assignment into an empty tree", n, [&] { t = std::move(*m); });
  CHECK(t.size() == n, "size after a move");
  Tree o;
  o.insert(key(1), 1);
  one("swap", n, [&] { t.swap(o); });
  one("swap back", n, [&] {
    using std::swap;
    swap(t, o);
  });
  one("swap with itself", n, [&] { t.swap(t); });
  CHECK(t.size() == n && o.size() == 1, "sizes after swaps");
}

void put(Tree& t, uint64_t n, uint64_t p, uint64_t i) {
  KEY k = key(p);
  VAL v = static_cast<VAL>(p);
  switch (i % 7) {
    case 0: one("insert", n, [&] { t.insert(k, v); }); break;
    case 1: one("insert of a pair", n, [&] { t.insert({k, v}); }); break;
    case 2: one("emplace", n, [&] { t.emplace(k, v); }); break;
    case 3: one("try_emplace", n, [&] { t.try_emplace(k, v); }); break;
    case 4: one("insert_or_assign", n, [&] { t.insert_or_assign(k, v); }); break;
    case 5: one("operator[]", n, [&] { t[k] = v; }); break;
    case 6: {
      It hint = p % 2 ? t.begin() : t.end();
      one("emplace_hint", n, [&] { t.emplace_hint(hint, k, v); });
      break;
    }
  }
}

constexpr uint32_t kErasures = 4;  // how the elements go

// case: n, build order, erase order, way of erasing
void run(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_case;
  const uint64_t n = w.at(0), stop = n > 2000 ? n / 7 : n > 40 ? n / 3 : 1;
  const uint32_t bo = w.at(1), eo = w.at(2), how = w.at(3);
  uint64_t sum = 0;
  auto tp = std::make_unique<Tree>();
  Tree& t = *tp;
  std::vector<uint64_t> at(n);
  for (uint64_t i = 0; i < n; ++i) at[i] = place(bo, i, n);
  auto stops = [&](uint64_t i) {
    if (i % stop) return;
    ++n_state;
    ends(t, t.size(), sum);
    if (n)
      for (uint64_t p : {uint64_t{0}, i % n, n / 2, n - 1, (i * 7 + 3) % n})
        queries(t, t.size(), p, sum);
  };
  for (uint64_t i = 0; i < n; ++i) {
    stops(i);
    put(t, i, at[i], i);
    CHECK(t.size() == i + 1, "size after an insertion");
    if (i % 16 == 5) {  // present already
      put(t, t.size(), at[i / 2], i / 16);
      CHECK(t.size() == i + 1, "size after a repeated insertion");
    }
  }
  stops(0);
  if (n)
    for (uint64_t i = 0; i < n; i += n > 500 ? n / 499 : 1) queries(t, n, i, sum);
  // walks: every step on its own, then as a whole
  {
    It it = t.begin();
    for (uint64_t i = 0; i < n; ++i) one("++iterator", n, [&] { ++it; });
    CHECK(it == t.end(), "a walk does not end");
    for (uint64_t i = 0; i < n; ++i) one("--iterator", n, [&] { --it; });
    CHECK(it == t.begin(), "a walk back does not arrive");
    auto r = t.rbegin();
    for (uint64_t i = 0; i < n; ++i) {
      one("reading a reverse iterator", n, [&] { sum += r->second + (*r).second; });
      one("++reverse iterator", n, [&] { ++r; });
    }
    CHECK(r == t.rend(), "a reverse walk does not end");
    for (uint64_t i = 0; i < n; ++i) one("--reverse iterator", n, [&] { --r; });
    CHECK(r == t.rbegin(), "a reverse walk back does not arrive");
  }
  {
    std::optional<Tree> c;
    bulk("copy construction", n, n, [&] { c.emplace(t); });
    CHECK(c->size() == n, "size of a copy");
    Tree d;
    bulk("copy assignment", n, n, [&] { d = *c; });
    bulk("copy assignment onto as many", n, n, [&] { d = t; });
    bulk("move assignment onto as many", n, n, [&] { d = std::move(*c); });
    CHECK(d.size() == n, "size after assignments");
    bulk("clear", n, n, [&] { d.clear(); });
    d = t;
    bulk("erasing everything", n, n, [&] { d.erase(d.begin(), d.end()); });
    CHECK(d.size() == 0, "size after erasing everything");
    d = t;
    bulk("destruction", n, n, [&] {
      c.reset();
      Tree x(std::move(d));
    });
  }
  // a short and an empty range at every kind of place
  for (uint64_t i = 0; i < n; ++i) at[i] = place(eo, i, n);
  uint64_t i = 0, size = n;
  while (i < n) {
    stops(i + 1);
    uint64_t p = at[i++];
    switch (how) {
      case 0:
        one("erase of a key", size, [&] { sum += t.erase(key(p)); });
        break;
      case 1: {
        It it = t.find(key(p));
        one("erase of an element", size, [&] { t.erase(it); });
        break;
      }
      case 2: {
        It a = t.find(key(p)), b = a;
        ++b;
        one("erase of a range of one", size, [&] { t.erase(a, b); });
        break;
      }
      case 3: {  // a range of up to 40 elements; those gone early are skipped below
        It a = t.lower_bound(key(p)), b = a;
        uint64_t k = 0;
        while (k < 40 && b != t.end()) ++b, ++k;
        bulk("erase of a range", size, k, [&] { t.erase(a, b); });
        CHECK(t.size() == size - k, "size after erasing a range");
        size = t.size();
        if (i % 8 == 0) one("erase of a key", size, [&] { sum += t.erase(gap(p)); });
        continue;
      }
    }
    --size;
    CHECK(t.size() == size, "size after an erasure");
    if (i % 16 == 3) {
      one("erase of a key not there", size, [&] { t.erase(gap(p)); });
      one("erase of an empty range", size, [&] {
        It b = t.begin();
        t.erase(b, b);
      });
    }
    // at half way, put a quarter back
    if (how != 3 && i == n / 2)
      for (uint64_t j = 0; j < n / 4; ++j) {
        put(t, t.size(), at[j], j);
        CHECK(t.size() == size + j + 1, "size after an insertion");
        if (j + 1 == n / 4) {
          for (uint64_t x = 0; x < n / 4; ++x) {
            one("erase of a key", t.size(), [&] { sum += t.erase(key(at[x])); });
            CHECK(t.size() == size + n / 4 - x - 1, "size after an erasure");
          }
          break;
        }
      }
  }
  CHECK(t.empty(), "not empty at the end");
  ends(t, 0, sum);
  volatile uint64_t sink = sum;
  (void)sink;
}

bool explore() {
  uint32_t big = static_cast<uint32_t>(par.get("big", 100000));
  uint32_t skip = static_cast<uint32_t>(par.get("skip", 5));
  std::vector<uint32_t> sizes;
  for (uint32_t n = 0; n <= 4 * LN; n += n < 16 ? 1 : LN / 3) sizes.push_back(n);
  for (uint32_t n : {LN * 11 + 1, 500, 3001}) sizes.push_back(n);
  sizes.push_back(big);
  for (uint32_t n : sizes)
    for (uint32_t b = 0; b < kOrders; ++b)
      for (uint32_t e = 0; e < kOrders; ++e)
        for (uint32_t h = 0; h < kErasures; ++h) {
          if (n == big && (e * 5 + b * 7 + h * 3) % skip) continue;
          run({n, b, e, h});
        }
  mc::counter("states") = n_state;
  mc::counter("transitions") = n_op;
  mc::counter("histories") = n_case;
  mc::counter("worst_percent_of_bound") = static_cast<uint64_t>(worst * 100);
  mc::counter("worst_steps_per_element_in_bulk") = worst_bulk;
  mc::samples.push_back(fmt("programs of up to %u elements, six building orders, six "
                            "erasing orders, four ways of erasing; worst operation: %s",
                            big, worst_what));
  return true;
}

int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, run);
}
