// Explicit-state exploration of the pools: every sequence of requests and returns up to
// a depth, under every schedule of mapping outcomes, against a reference model that
// accounts for every byte of every mapped region.  Sections:
//  1 HugePagePool   2 MultiSizeHugePagePool   3 long programs   4 size classes
//  5 allocator handles (copy, rebind, move, swap, destroy, allocate, free)
// See DESIGN.md.
#include "wrapmem.hpp"

#include <fast_containers/hugepage_allocator.hpp>
#include <fast_containers/hugepage_pool.hpp>
#include <fast_containers/multi_size_hugepage_allocator.hpp>
#include <fast_containers/multi_size_hugepage_pool.hpp>
#include <fast_containers/policy_based_hugepage_allocator.hpp>

#include <algorithm>
#include <bit>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <unordered_set>
#include <variant>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;
using wm::st;

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
double t0, budget;
uint64_t n_hist = 0, n_calls = 0, n_states = 0, n_trans = 0, n_fail_hist = 0,
         n_reuse = 0, n_growth = 0;
std::unordered_set<mc::Hash128, mc::Hash128Hash> seen;

// ---- live blocks ---------------------------------------------------------------------
struct Block {
  char* p;
  size_t bytes, align, ext;  // ext: bytes that belong to the block
  int pool, kind;
  uint32_t pat;
  void* region;
};
struct Model {
  std::vector<Block> live, freed;
  uint32_t next_pat = 1;

  static uint8_t at(uint32_t pat, size_t i) {
    return static_cast<uint8_t>(pat * 37 + i * 11 + (i >> 8) * 3 + 1);
  }
  // all of a small block; both ends and the page edges of a large one
  template <class F>
  static void cells(const Block& b, F f) {
    if (b.ext <= 9000) {
      for (size_t i = 0; i < b.ext; ++i) f(i);
      return;
    }
    for (size_t i = 0; i < 128; ++i) f(i);
    for (size_t i = 4096; i + 256 < b.ext && i < (64 << 10); i += 4096) f(i);
    for (size_t i = b.ext - 128; i < b.ext; ++i) f(i);
  }
  static void fill(const Block& b) {
    cells(b, [&](size_t i) { b.p[i] = static_cast<char>(at(b.pat, i)); });
  }
  static void verify(const Block& b) {
    cells(b, [&](size_t i) {
      if (static_cast<uint8_t>(b.p[i]) != at(b.pat, i)) [[unlikely]]
        mc::fail(fmt("byte %zu of a live block of %zu bytes was overwritten", i, b.bytes));
    });
  }
  void verify_all() const {
    for (auto& b : live) verify(b);
  }
  static bool overlap(const Block& a, const Block& b) {
    return a.p < b.p + b.ext && b.p < a.p + a.ext;
  }
  // a block has been handed out; true if it was one that had been returned
  bool add(Block b) {
    CHECK(b.p != nullptr, "a request of %zu bytes returned null", b.bytes);
    CHECK(reinterpret_cast<uintptr_t>(b.p) % b.align == 0,
          "a block of %zu bytes is not aligned to %zu", b.bytes, b.align);
    const wm::Region* r = st.find(b.p, b.ext);
    CHECK(r != nullptr, "a block of %zu bytes does not lie inside mapped memory", b.bytes);
    b.region = r->base;
    for (auto& o : live)
      CHECK(!overlap(b, o), "a block of %zu bytes overlaps a live block of %zu bytes",
            b.bytes, o.bytes);
    bool reused = false;
    for (size_t i = 0; i < freed.size();) {
      if (overlap(b, freed[i])) {
        reused = true;
        freed.erase(freed.begin() + static_cast<long>(i));
      } else {
        ++i;
      }
    }
    b.pat = next_pat++;
    fill(b);
    live.push_back(b);
    return reused;
  }
  bool reusable(size_t bytes, size_t align, int pool) const {
    for (auto& f : freed)
      if (f.bytes == bytes && f.align == align && f.pool == pool) return true;
    return false;
  }
  void check_regions() const {
    for (auto& b : live)
      CHECK(st.find(b.p, b.ext), "memory of a live block was unmapped");
  }
};
void no_protocol_error() {
  CHECK(st.error.empty(), "%s", st.error.c_str());
}

// ---- statistics ------------------------------------------------------------------------
struct Stats {
  size_t allocs = 0, deallocs = 0, growth = 0, bytes = 0, cur = 0, peak = 0;
  void alloc(size_t b) {
    ++allocs;
    bytes += b;
    cur += b;
    peak = std::max(peak, cur);
  }
  void free(size_t b) {
    ++deallocs;
    cur -= b;
  }
};
template <class P>
void check_stats(const P& p, const Stats& s, const char* when) {
  if constexpr (fc::allocator_stats_enabled) {
    CHECK(p.get_allocations() == s.allocs, "%s: %zu allocations counted, %zu made", when,
          (size_t)p.get_allocations(), s.allocs);
    CHECK(p.get_deallocations() == s.deallocs, "%s: %zu deallocations counted, %zu made",
          when, (size_t)p.get_deallocations(), s.deallocs);
    CHECK(p.get_growth_events() == s.growth, "%s: %zu growth events counted, %zu happened",
          when, (size_t)p.get_growth_events(), s.growth);
    CHECK(p.get_bytes_allocated() == s.bytes, "%s: lifetime bytes %zu, expected %zu", when,
          (size_t)p.get_bytes_allocated(), s.bytes);
    CHECK(p.get_current_usage() == s.cur, "%s: current bytes %zu, expected %zu", when,
          (size_t)p.get_current_usage(), s.cur);
    CHECK(p.get_peak_usage() == s.peak, "%s: peak bytes %zu, expected %zu", when,
          (size_t)p.get_peak_usage(), s.peak);
  } else {
    CHECK(p.get_allocations() == 0 && p.get_deallocations() == 0 &&
              p.get_growth_events() == 0 && p.get_bytes_allocated() == 0 &&
              p.get_current_usage() == 0 && p.get_peak_usage() == 0,
          "%s: statistics are disabled and not zero", when);
  }
}

// ---- section 1: HugePagePool ---------------------------------------------------------------
struct Req {
  size_t bytes, align;
};
const Req REQ[] = {
    {24, 8},      {64, 64},     {200, 64},    {64, 8},       {4096, 4096}, {9000, 64},
    {8, 8},       {200, 128},   {24, 4096},   {5000, 8192},  {70000, 64},  {4096, 64},
    {1 << 20, 8}, {3 << 20, 64}, {40, 16},    {64, 65536},
};
constexpr uint32_t NREQ = sizeof REQ / sizeof *REQ;
const Req BAD[] = {{~size_t{0}, 8},       {~size_t{0} - 8, 64},  {~size_t{0} - 63, 64},
                   {~size_t{0} / 2 + 2, 8}, {size_t{1} << 63, 4096}, {size_t{1} << 47, 64},
                   {~size_t{0} - 4096, 4096}, {~size_t{0} - 127, 128}};
constexpr uint32_t NBAD = sizeof BAD / sizeof *BAD;
const size_t INITIAL[] = {4096, 256, 65536, 2u << 20, 100, 3u << 20};
const size_t GROWTH[] = {4096, 64, 65536, 2u << 20};
// sizes beyond 32 bits (words[0] is 6 or 7 instead of 1 or 2)
constexpr size_t G = size_t{1} << 30;
const Req GREQ[] = {{64, 64},         {4 * G, 64},      {4 * G + 64, 64}, {G, 8},
                    {2 * G, 4096},    {5 * G + 8, 128}, {4 * G - 64, 64}, {12 * G, 64}};
constexpr uint32_t NGREQ = sizeof GREQ / sizeof *GREQ;
const size_t GINITIAL[] = {4096, 4 * G + 4096, 9 * G, 4 * G};
const size_t GGROWTH[] = {4096, 4 * G + 4096, 7 * G};
bool giant(const Words& w) { return w[0] >= 6; }
enum : uint32_t { OP_FREE = 100, OP_BAD = 200, OP_ZERO = 250, OP_NULL = 251 };

// one HugePagePool, checked call by call (also used for the classes of the multi-size
// pool through its own wrapper below)
struct PoolBox {
  std::optional<fc::HugePagePool> pool;
  Model m;
  Stats s;
  bool huge;
  size_t initial;
  bool open(size_t init, bool hu, size_t growth) {
    huge = hu;
    initial = init;
    uint64_t rf = st.regular_requests, hf = st.huge_requests;
    bool threw = false;
    try {
      pool.emplace(init, hu, growth);
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    no_protocol_error();
    if (!hu) CHECK(st.huge_requests == hf, "hugepages requested although disabled");
    if (threw) {
      CHECK(st.regular_requests > rf, "construction failed although memory is available");
      CHECK(failed_regular(rf), "construction failed although regular memory is available");
      CHECK(st.live() == 0, "a failed construction left memory mapped");
      return false;
    }
    CHECK(st.live() == 1, "%zu regions mapped by the constructor", st.live());
    CHECK(pool->bytes_remaining() >= init, "fewer bytes than asked for remain");
    CHECK(pool->bytes_remaining() <= st.live_bytes(), "more bytes remain than are mapped");
    CHECK(pool->initial_size() == init && pool->growth_size() == growth,
          "the configuration is reported wrongly");
    after("after construction");
    return true;
  }
  // did one of the regular requests from number `from` on fail?
  static bool failed_regular(uint64_t from) {
    return st.regular_fails_at(from);
  }
  void after(const char* when) {
    no_protocol_error();
    CHECK(pool->using_hugepages() == any_huge(), "%s: hugepage use reported as %d", when,
          (int)pool->using_hugepages());
    CHECK(pool->is_hugepages_enabled() == any_huge(), "%s: hugepages enabled: %d", when,
          (int)pool->is_hugepages_enabled());
    CHECK(pool->bytes_remaining() <= st.live_bytes(), "%s: more bytes remain than are mapped",
          when);
    CHECK(st.unmaps == 0, "%s: the pool unmapped memory while in use", when);
    check_stats(*pool, s, when);
  }
  static bool any_huge() {
    for (auto& r : st.regions)
      if (r.live && r.huge) return true;
    return false;
  }
  void alloc(size_t bytes, size_t align) {
    ++n_calls;
    size_t rem = pool->bytes_remaining(), nreg = st.regions.size();
    bool was_huge = any_huge();
    uint64_t rr = st.regular_requests, hr = st.huge_requests;
    bool can_reuse = m.reusable(bytes, align, 0);
    void* p = nullptr;
    bool threw = false;
    try {
      p = pool->allocate(bytes, align);
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    if (!was_huge)
      CHECK(st.huge_requests == hr, "hugepages requested by a pool that does not use them");
    if (threw) {
      ++n_fail_hist;
      CHECK(!can_reuse, "bad_alloc although a block of this size is free");
      CHECK(failed_regular(rr), "bad_alloc although regular memory is available");
      CHECK(st.regions.size() == nreg, "a failed request left memory mapped");
      CHECK(pool->bytes_remaining() == rem, "a failed request changed the bytes remaining");
      after("after a failed request");
      return;
    }
    size_t grown = st.regions.size() - nreg;
    if (can_reuse)
      CHECK(grown == 0 && st.regular_requests == rr && st.huge_requests == hr,
            "memory was mapped although a block of this size and alignment is free");
    CHECK(grown <= 1, "one request mapped %zu regions", grown);
    Block b{static_cast<char*>(p), bytes, align, bytes, 0, 0, 0, nullptr};
    bool reused = m.add(b);
    n_reuse += reused;
    n_growth += grown;
    s.alloc(bytes);
    s.growth += grown;
    size_t now = pool->bytes_remaining();
    if (reused) {
      CHECK(grown == 0 && now == rem, "a reused block changed the bytes remaining from %zu "
            "to %zu", rem, now);
    } else {
      // what remains is what lies behind the block in its region
      const wm::Region* r = st.find(p, bytes);
      size_t behind =
          static_cast<size_t>(r->base + r->size - (static_cast<char*>(p) + bytes));
      CHECK(now == behind, "%zu bytes remain according to the pool, %zu behind the last "
            "block", now, behind);
      if (!grown)
        CHECK(rem - now >= bytes && rem - now < bytes + align,
              "a request of %zu bytes used %zu", bytes, rem - now);
    }
    after("after a request");
  }
  void bad(size_t bytes, size_t align) {
    ++n_calls;
    size_t rem = pool->bytes_remaining(), nreg = st.regions.size();
    bool threw = false;
    try {
      (void)pool->allocate(bytes, align);
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    CHECK(threw, "a request of %zu bytes succeeded", bytes);
    CHECK(st.regions.size() == nreg && pool->bytes_remaining() == rem,
          "a request that fails changed the pool");
    after("after an impossible request");
    m.verify_all();
  }
  void free(size_t i) {
    ++n_calls;
    Block b = m.live.at(i);
    Model::verify(b);
    size_t rem = pool->bytes_remaining();
    pool->deallocate(b.p, b.bytes);
    m.live.erase(m.live.begin() + static_cast<long>(i));
    m.freed.push_back(b);
    s.free(b.bytes);
    CHECK(pool->bytes_remaining() == rem, "returning a block changed the bytes remaining");
    after("after a block was returned");
  }
  void close() {
    if (!pool) return;
    m.verify_all();
    m.check_regions();
    pool.reset();
    no_protocol_error();
    CHECK(st.live() == 0, "%zu regions are still mapped after destruction", st.live());
    CHECK(st.unmaps == st.regions.size(), "%zu regions, %llu unmapped", st.regions.size(),
          (unsigned long long)st.unmaps);
  }
  void hash_state() {
    mc::Hash128 h;
    h.add(pool->bytes_remaining());
    for (auto& b : m.live) {
      h.add(b.bytes * 131 + b.align);
      h.add(region_no(b.p));
    }
    h.add(77);
    for (auto& b : m.freed) {
      h.add(b.bytes * 131 + b.align);
      h.add(region_no(b.p));
    }
    if (seen.insert(h).second) ++n_states;
  }
  static uint64_t region_no(const void* p) {
    for (size_t i = 0; i < st.regions.size(); ++i)
      if (p >= st.regions[i].base && p < st.regions[i].base + st.regions[i].size)
        return i << 24 | static_cast<uint64_t>(static_cast<const char*>(p) - st.regions[i].base);
    return ~0ull;
  }
};

// words: 1, initial, growth, use_huge, huge_fail, regular_fail, ops...
// returns the number of live blocks, or -1 when the history ended early
int run_pool(const Words& w) {
  st.reset();
  st.huge_fail = w.at(4);
  st.regular_fail = w.at(5);
  st.on = true;
  PoolBox b;
  int live = -1;
  const Req* req = giant(w) ? GREQ : REQ;
  if (giant(w) ? b.open(GINITIAL[w[1]], w[3], GGROWTH[w[2]])
               : b.open(INITIAL[w[1]], w[3], GROWTH[w[2]])) {
    for (size_t i = 6; i < w.size(); ++i) {
      uint32_t op = w[i];
      if (op < NREQ)
        b.alloc(req[op].bytes, req[op].align);
      else if (op >= OP_BAD && op < OP_BAD + NBAD)
        b.bad(BAD[op - OP_BAD].bytes, BAD[op - OP_BAD].align);
      else if (op == OP_ZERO) {
        size_t rem = b.pool->bytes_remaining();
        void* p = b.pool->allocate(0, 64);
        CHECK(p == nullptr && b.pool->bytes_remaining() == rem, "a request of no bytes");
        b.after("after a request of no bytes");
      } else if (op == OP_NULL) {
        b.pool->deallocate(nullptr, 64);
        b.after("after returning nullptr");
      } else {
        if (op - OP_FREE >= b.m.live.size()) mc::fail("bad case");
        b.free(op - OP_FREE);
      }
    }
    b.m.verify_all();
    live = static_cast<int>(b.m.live.size());
    b.hash_state();
  }
  b.close();
  st.on = false;
  return live;
}

// ---- section 2: MultiSizeHugePagePool ----------------------------------------------------
size_t class_of(size_t n) {  // as documented
  if (n == 0) return 0;
  if (n <= 512) return (n + 63) / 64 * 64;
  if (n <= 2048) return (n + 255) / 256 * 256;
  size_t c = 4096;
  while (c < n) c *= 2;
  return c;
}
const Req MREQ[] = {{1, 8},     {64, 8},   {65, 64},   {100, 8},   {128, 64}, {512, 64},
                    {513, 8},   {768, 64}, {2048, 64}, {2049, 8},  {4096, 64}, {4097, 64},
                    {130, 128}, {3000, 4096}, {70000, 64}, {448, 16},
                    {100, 256}, {64, 128},  {64, 4096},  {600, 1024}};
constexpr uint32_t NMREQ = sizeof MREQ / sizeof *MREQ;
struct MultiBox {
  std::optional<fc::MultiSizeHugePagePool> pool;
  Model m;
  std::map<size_t, Stats> s;          // by class
  std::map<void*, size_t> region_cls;  // which class mapped a region
  bool huge = false;
  void open(size_t init, bool hu, size_t growth) {
    huge = hu;
    pool.emplace(init, hu, growth);
    CHECK(st.live() == 0 && pool->active_size_classes() == 0,
          "a new pool has %zu classes", (size_t)pool->active_size_classes());
    after("after construction");
  }
  void after(const char* when) {
    no_protocol_error();
    CHECK(pool->active_size_classes() == s.size(), "%s: %zu classes, expected %zu", when,
          (size_t)pool->active_size_classes(), s.size());
    CHECK(pool->using_hugepages() == PoolBox::any_huge(),
          "%s: hugepage use reported as %d", when, (int)pool->using_hugepages());
    if (!huge) CHECK(st.huge_requests == 0, "hugepages requested although disabled");
    CHECK(st.unmaps == 0, "%s: the pool unmapped memory while in use", when);
    for (auto& [c, stt] : s) {
      const fc::HugePagePool* p = pool->get_pool(c);
      CHECK(p != nullptr, "%s: class %zu is not active", when, c);
      check_stats(*p, stt, when);
      bool hg = false;
      size_t mapped = 0;
      for (auto& r : st.regions)
        if (r.live && region_cls[r.base] == c) {
          mapped += r.size;
          hg = hg || r.huge;
        }
      CHECK(p->using_hugepages() == hg, "%s: class %zu reports hugepage use %d", when, c,
            (int)p->using_hugepages());
      CHECK(p->bytes_remaining() <= mapped,
            "%s: class %zu has more bytes remaining than mapped", when, c);
    }
    for (auto& [c, p] : pool->get_pools())
      CHECK(s.count(c) && pool->get_pool(c) == p.get(), "%s: class %zu is active", when, c);
    CHECK(pool->get_pool(12345) == nullptr, "%s: a class that does not exist", when);
  }
  // raw: obtain the block by other means (typed allocators)
  void alloc(size_t bytes, size_t align, const std::function<void*()>& raw = {}) {
    ++n_calls;
    size_t c = class_of(bytes);
    size_t nreg = st.regions.size();
    uint64_t rr = st.regular_requests, req = st.requests;
    bool had = s.count(c);
    size_t rem = had ? pool->get_pool(c)->bytes_remaining() : 0;
    bool can_reuse = false;
    for (auto& f : m.freed)
      if (class_of(f.bytes) == c && f.align == align) can_reuse = true;
    void* p = nullptr;
    bool threw = false;
    try {
      p = raw ? raw() : pool->allocate(bytes, align);
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    if (threw) {
      ++n_fail_hist;
      CHECK(!can_reuse, "bad_alloc although a block of this class is free");
      CHECK(PoolBox::failed_regular(rr), "bad_alloc although regular memory is available");
      // (a class whose pool was created before its growth failed may stay)
      for (size_t i = nreg; i < st.regions.size(); ++i)
        if (st.regions[i].live) {
          region_cls[st.regions[i].base] = c;
          s[c];
        }
      if (had)
        CHECK(pool->get_pool(c)->bytes_remaining() == rem,
              "a failed request changed the bytes remaining");
      after("after a failed request");
      return;
    }
    for (size_t i = nreg; i < st.regions.size(); ++i) region_cls[st.regions[i].base] = c;
    size_t grown = st.regions.size() - nreg;
    if (can_reuse)
      CHECK(st.requests == req, "memory was mapped although a block of the class is free");
    CHECK(had || grown >= 1, "a new class mapped no memory");
    Block b{static_cast<char*>(p), bytes, align, c, 0, 0, 0, nullptr};
    // what it overlaps must be of its class
    for (auto& f : m.freed)
      if (Model::overlap(b, f))
        CHECK(class_of(f.bytes) == c, "a freed block of %zu bytes was reused for %zu",
              f.bytes, bytes);
    bool reused = m.add(b);
    n_reuse += reused;
    n_growth += grown;
    CHECK(region_cls[m.live.back().region] == c,
          "a request of %zu bytes was served from memory of class %zu", bytes,
          region_cls[m.live.back().region]);
    s[c].alloc(c);
    s[c].growth += grown - (had ? 0 : 1);
    size_t now = pool->get_pool(c)->bytes_remaining();
    if (reused) {
      CHECK(now == rem, "a reused block changed the bytes remaining");
    } else {
      const wm::Region* r = st.find(p, c);
      CHECK(now == static_cast<size_t>(r->base + r->size - (static_cast<char*>(p) + c)),
            "class %zu: %zu bytes remain, which is not what lies behind the last block", c,
            now);
    }
    after("after a request");
  }
  void free(size_t i, const std::function<void(Block&)>& raw = {}) {
    ++n_calls;
    Block b = m.live.at(i);
    Model::verify(b);
    if (raw)
      raw(b);
    else
      pool->deallocate(b.p, b.bytes);
    m.live.erase(m.live.begin() + static_cast<long>(i));
    m.freed.push_back(b);
    s[class_of(b.bytes)].free(class_of(b.bytes));
    after("after a block was returned");
  }
  void bad(size_t bytes, size_t align) {
    ++n_calls;
    size_t nreg = st.live();
    bool threw = false;
    try {
      (void)pool->allocate(bytes, align);
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    CHECK(threw, "a request of %zu bytes succeeded", bytes);
    // the class may have been opened
    if (st.live() != nreg)
      for (auto& r : st.regions)
        if (r.live && !region_cls.count(r.base)) {
          region_cls[r.base] = class_of(bytes);
          s[class_of(bytes)];
        }
    after("after an impossible request");
  }
  void close() {
    m.verify_all();
    m.check_regions();
    pool.reset();
    no_protocol_error();
    CHECK(st.live() == 0, "%zu regions are still mapped after destruction", st.live());
    CHECK(st.unmaps == st.regions.size(), "regions unmapped: %llu of %zu",
          (unsigned long long)st.unmaps, st.regions.size());
  }
};
// words: 2, initial, growth, use_huge, huge_fail, regular_fail, ops...
int run_multi(const Words& w) {
  st.reset();
  st.huge_fail = w.at(4);
  st.regular_fail = w.at(5);
  st.on = true;
  MultiBox b;
  const Req* req = giant(w) ? GREQ : MREQ;
  b.open(giant(w) ? GINITIAL[w[1]] : INITIAL[w[1]], w[3],
         giant(w) ? GGROWTH[w[2]] : GROWTH[w[2]]);
  for (size_t i = 6; i < w.size(); ++i) {
    uint32_t op = w[i];
    if (op < NMREQ)
      b.alloc(req[op].bytes, req[op].align);
    else if (op >= OP_BAD && op < OP_BAD + NBAD)
      b.bad(BAD[op - OP_BAD].bytes, BAD[op - OP_BAD].align);
    else if (op == OP_ZERO) {
      CHECK(b.pool->allocate(0, 64) == nullptr, "a request of no bytes");
      b.after("after a request of no bytes");
    } else if (op == OP_NULL) {
      b.pool->deallocate(nullptr, 64);
      b.after("after returning nullptr");
    } else {
      if (op - OP_FREE >= b.m.live.size()) mc::fail("bad case");
      b.free(op - OP_FREE);
    }
  }
  b.m.verify_all();
  int live = static_cast<int>(b.m.live.size());
  mc::Hash128 h;
  for (auto& x : b.m.live) h.add(x.bytes * 131 + PoolBox::region_no(x.p));
  h.add(99);
  for (auto& x : b.m.freed) h.add(x.bytes * 131 + PoolBox::region_no(x.p));
  if (seen.insert(h).second) ++n_states;
  b.close();
  st.on = false;
  return live;
}

// ---- section 3: long programs -------------------------------------------------------------
// words: 3, multi?, initial, growth, use_huge, request a, request b, count, order
//  allocate `count` blocks alternating a and b, return all (0 fifo, 1 lifo, 2 every
//  second first, 3 inside out), allocate again: no new memory; three rounds
void run_long(const Words& w) {
  st.reset();
  st.on = true;
  auto prog = [&](auto& box, const Req* req) {
    Req ra = req[w.at(5)], rb = req[w.at(6)];
    uint32_t n = w.at(7);
    size_t regions = 0;
    for (int round = 0; round < 3; ++round) {
      for (uint32_t i = 0; i < n; ++i) {
        const Req& r = i % 2 ? rb : ra;
        box.alloc(r.bytes, r.align);
      }
      if (round == 0) {
        regions = st.regions.size();
        box.m.verify_all();
      } else {
        CHECK(st.regions.size() == regions,
              "building up again after tearing down mapped more memory");
      }
      switch (w.at(8)) {
        case 0:
          while (!box.m.live.empty()) box.free(0);
          break;
        case 1:
          while (!box.m.live.empty()) box.free(box.m.live.size() - 1);
          break;
        case 2:
          for (size_t i = 0; i < box.m.live.size(); ++i) box.free(i);
          while (!box.m.live.empty()) box.free(0);
          break;
        default:
          while (!box.m.live.empty()) box.free(box.m.live.size() / 2);
      }
    }
    box.close();
  };
  if (w.at(1)) {
    MultiBox b;
    b.open(INITIAL[w.at(2)], w.at(4), GROWTH[w.at(3)]);
    prog(b, MREQ);
  } else {
    PoolBox b;
    if (!b.open(INITIAL[w.at(2)], w.at(4), GROWTH[w.at(3)])) mc::fail("bad case");
    prog(b, REQ);
  }
  st.on = false;
}

// ---- section 4: every size ------------------------------------------------------------------
// words: 4, size: its class; a block of that size in a pool, and its neighbours
template <size_t N>
struct alignas(N >= 16 ? 16 : N >= 8 ? 8 : N >= 4 ? 4 : N >= 2 ? 2 : 1) Arr {
  char c[N];
};
template <class T>
void arrays(size_t count) {
  st.reset();
  st.on = true;
  MultiBox b;
  b.open(4096, false, 4096);
  // the allocators share b's pool: a shared_ptr that owns nothing
  std::shared_ptr<fc::MultiSizeHugePagePool> sp(std::shared_ptr<void>{}, &*b.pool);
  fc::MultiSizeHugePageAllocator<T> a(sp);
  auto other = fc::MultiSizeHugePageAllocator<Arr<24>>(a);
  fc::MultiSizeHugePageAllocator<T> back(other);
  CHECK(a == back && a == other && !(a != other), "rebound allocators of one pool differ");
  size_t bytes = count * sizeof(T);
  if (count > ~size_t{0} / sizeof(T)) {
    bool threw = false;
    try {
      (void)a.allocate(count);
    } catch (const std::bad_alloc&) {
      threw = true;
    }
    CHECK(threw, "an array whose size overflows was allocated");
    b.after("after an impossible array");
  } else {
    auto go = [&] { return static_cast<void*>(a.allocate(count)); };
    b.alloc(bytes, alignof(T), go);
    b.alloc(bytes, alignof(T), [&] { return static_cast<void*>(back.allocate(count)); });
    b.free(0, [&](Block& x) { back.deallocate(reinterpret_cast<T*>(x.p), count); });
    b.alloc(bytes, alignof(T), go);
    b.free(0, [&](Block& x) { a.deallocate(reinterpret_cast<T*>(x.p), count); });
  }
  sp.reset();
  b.close();
  st.on = false;
}
void run_class(const Words& w) {
  uint64_t n = w.at(1) | static_cast<uint64_t>(w.at(2)) << 32;
  if (w.at(3) == 0) {
    if (n <= (size_t{1} << 63)) {
      size_t c = fc::MultiSizeHugePagePool::get_size_class(n);
      CHECK(c == class_of(n), "the size class of %llu is %zu, documented %zu",
            (unsigned long long)n, c, class_of(n));
      CHECK(c >= n, "the class is smaller than the size");
    }
    return;
  }
  if (w.at(3) == 20 || w.at(3) == 21) {  // many sizes (classes) at once
    st.reset();
    st.on = true;
    auto go = [&](auto& b, auto size) {
      for (int round = 0; round < 2; ++round) {
        for (size_t i = 0; i < n; ++i) b.alloc(size(i), i % 3 ? 8 : 64);
        for (size_t i = 0; i < n; ++i) b.free(n % 2 ? 0 : b.m.live.size() - 1);
      }
      for (size_t i = n; i-- > 0;) b.alloc(size(i), 8);
      for (size_t i = 0; i < n; ++i) b.alloc(size(i), 8);
      b.m.verify_all();
      b.close();
    };
    if (w.at(3) == 20) {
      PoolBox b;
      b.open(INITIAL[n % 3], n & 1, GROWTH[n % 2]);
      go(b, [](size_t i) { return 8 + i * 24; });
    } else {
      MultiBox b;
      b.open(INITIAL[n % 3], n & 1, GROWTH[n % 2]);
      go(b, [](size_t i) { return i < 32 ? 64 + i * 64 : 2048 + (i - 30) * 4096; });
    }
    st.on = false;
    return;
  }
  if (w.at(3) >= 9) {  // one block size: used up, returned and used again
    size_t al = size_t{8} << (w.at(3) - 9);
    st.reset();
    st.on = true;
    PoolBox b;
    b.open(INITIAL[n % 3], n & 1, GROWTH[n % 2]);
    for (int i = 0; i < 3; ++i) b.alloc(n, al);
    b.free(1);
    b.alloc(n + 8, al);
    b.alloc(n, al);
    b.free(0);
    b.free(0);
    b.alloc(n + 1, al);
    b.alloc(n, al);
    b.alloc(n, al);
    b.alloc(n, al);
    while (!b.m.live.empty()) b.free(b.m.live.size() / 2);
    b.alloc(n, al);
    b.m.verify_all();
    b.close();
    st.on = false;
    return;
  }
  if (w.at(3) == 1) {
    st.reset();
    st.on = true;
    MultiBox b;
    b.open(INITIAL[n % 3], n & 1, GROWTH[n % 2]);
    b.alloc(n, 64);
    b.alloc(n + 1, 8);
    b.alloc(n, 64);
    b.free(0);
    b.alloc(n + 1, 64);
    b.alloc(n, 64);
    b.free(1);
    b.alloc(class_of(n), 8);
    b.m.verify_all();
    b.close();
    st.on = false;
    return;
  }
  switch (w.at(3)) {
    case 2:
      return arrays<Arr<1>>(n);
    case 3:
      return arrays<Arr<3>>(n);
    case 4:
      return arrays<Arr<8>>(n);
    case 5:
      return arrays<Arr<24>>(n);
    default:
      return arrays<Arr<64>>(n);
  }
}

// ---- section 5: allocator handles ----------------------------------------------------------
// Families: 0 HugePageAllocator, 1 PolicyBased + TwoPool, 2 MultiSize.
struct TX {
  uint64_t a[3];
};
struct alignas(128) TY {
  uint64_t a[20];
};
struct TLeaf {
  uint64_t a[10];
  TLeaf* next_leaf;
};
struct TInt {
  uint64_t a[10];
  bool children_are_leaves;
};
constexpr int NT = 4;  // types by number
template <int I>
using TypeNo = std::conditional_t<
    I == 0, TX, std::conditional_t<I == 1, TY, std::conditional_t<I == 2, TLeaf, TInt>>>;
template <template <class> class A>
using Var = std::variant<std::monostate, A<TX>, A<TY>, A<TLeaf>, A<TInt>>;
template <class T>
using HPA = fc::HugePageAllocator<T>;
template <class T>
using POL = fc::PolicyBasedHugePageAllocator<T, fc::TwoPoolPolicy>;
template <class T>
using MSA = fc::MultiSizeHugePageAllocator<T>;

struct Slot {
  int type = -1;
  int leaf = -1, internal = -1;  // pool ids (one id for the other families)
};
int pool_for(int fam, const Slot& s) {
  if (fam != 1) return s.leaf;
  return s.type == 3 ? s.internal : s.leaf;
}
enum HOp : uint32_t {
  H_NEW = 1,   // slot a, kind b (type b%4; for policies b/4: 0 two fresh pools, 1 one
               // pool for both)
  H_COPY,      // slot b = copy construction from a (same type)
  H_ASSIGN,    // slot b = a (copy assignment; same type required)
  H_MOVE,      // slot b constructed by moving a
  H_MASSIGN,   // move assignment
  H_REBIND,    // slot b = a rebound to the next type
  H_SWAP,
  H_DROP,      // destroy slot a
  H_ALLOC,     // one object through slot a
  H_FREE,      // return block a through slot b
};
inline uint32_t HW(uint32_t k, uint32_t a, uint32_t b = 0) { return k << 16 | a << 8 | b; }

template <int FAM, template <class> class A>
struct Handles {
  static constexpr int NS = 3;
  Var<A> v[NS];
  Slot s[NS];
  Model m;
  int next_pool = 0;
  std::map<void*, int> region_pool;

  size_t users(int pool) const {
    size_t n = 0;
    for (auto& x : s)
      if (x.type >= 0) n += (x.leaf == pool) + (FAM == 1 && x.internal == pool);
    return n;
  }
  void claim(size_t from, const std::vector<int>& ids) {
    // regions mapped since, in order of the pools created
    size_t k = 0;
    for (size_t i = from; i < st.regions.size(); ++i)
      region_pool[st.regions[i].base] = ids[std::min(k++, ids.size() - 1)];
  }
  void release(const Slot&) {
    // pools without users: nothing of theirs may be mapped, blocks are gone
    std::erase_if(m.live, [&](auto& b) { return users(b.pool) == 0; });
    std::erase_if(m.freed, [&](auto& b) { return users(b.pool) == 0; });
  }
  void check(const char* when) {
    no_protocol_error();
    std::map<int, size_t> mapped;
    for (auto& r : st.regions)
      if (r.live) {
        int p = region_pool.at(r.base);
        CHECK(users(p) > 0, "%s: memory of a pool without users is still mapped", when);
        ++mapped[p];
      }
    for (auto& b : m.live)
      CHECK(st.find(b.p, b.ext), "%s: memory of a pool in use was unmapped", when);
    if (FAM != 2)
      for (auto& x : s)
        if (x.type >= 0)
          CHECK(mapped[x.leaf] > 0 && (FAM != 1 || mapped[x.internal] > 0),
                "%s: a pool in use has no memory", when);
    for (int i = 0; i < NS; ++i)
      for (int j = 0; j < NS; ++j)
        if (s[i].type >= 0 && s[j].type >= 0) {
          bool want = pool_for(FAM, s[i]) == pool_for(FAM, s[j]);
          std::visit(
              [&](auto& x, auto& y) {
                using X = std::decay_t<decltype(x)>;
                using Y = std::decay_t<decltype(y)>;
                if constexpr (!std::is_same_v<X, std::monostate> &&
                              !std::is_same_v<Y, std::monostate>) {
                  CHECK((x == y) == want, "%s: == of two allocators is %d, expected %d", when,
                        (int)(x == y), (int)want);
                  CHECK((x != y) == !want, "%s: != of two allocators", when);
                }
              },
              v[i], v[j]);
        }
    m.verify_all();
  }
  template <int I>
  void make(int slot, uint32_t kind) {
    size_t from = st.regions.size();
    Slot n;
    n.type = I;
    bool huge = kind >> 2 & 2;
    if constexpr (FAM == 0) {
      v[slot].template emplace<I + 1>(4096, huge, 4096);
      n.leaf = next_pool++;
      claim(from, {n.leaf});
    } else if constexpr (FAM == 1) {
      auto p1 = std::make_shared<fc::HugePagePool>(4096, huge, 4096);
      n.leaf = next_pool++;
      auto p2 = p1;
      n.internal = n.leaf;
      if (!(kind >> 2 & 1)) {
        p2 = std::make_shared<fc::HugePagePool>(4096, huge, 4096);
        n.internal = next_pool++;
      }
      claim(from, {n.leaf, n.internal});
      v[slot].template emplace<I + 1>(fc::TwoPoolPolicy(p1, p2));
    } else {
      v[slot].template emplace<I + 1>(
          std::make_shared<fc::MultiSizeHugePagePool>(4096, huge, 4096));
      n.leaf = next_pool++;
    }
    s[slot] = n;
    release(n);
  }
  template <class F>
  void with(int slot, F f) {
    std::visit(
        [&](auto& a) {
          if constexpr (!std::is_same_v<std::decay_t<decltype(a)>, std::monostate>) f(a);
        },
        v[slot]);
  }
  bool apply(uint32_t w) {  // false: not applicable
    uint32_t k = w >> 16, a = w >> 8 & 255, b = w & 255;
    ++n_calls;
    auto full = [&](uint32_t x) { return s[x].type >= 0; };
    switch (k) {
      case H_NEW:
        switch (b % 4) {
          case 0: make<0>(a, b); break;
          case 1: make<1>(a, b); break;
          case 2: make<2>(a, b); break;
          default: make<3>(a, b);
        }
        break;
      case H_COPY:
      case H_MOVE: {
        if (!full(a) || a == b) return false;
        size_t from = st.regions.size();
        Slot src = s[a];
        if (full(b)) {  // destroyed first
          v[b] = std::monostate{};
          s[b] = Slot{};
          release({});
        }
        with(a, [&](auto& x) {
          using X = std::decay_t<decltype(x)>;
          if (k == H_COPY)
            v[b].template emplace<X>(x);
          else
            v[b].template emplace<X>(std::move(x));
        });
        s[b] = src;
        CHECK(st.regions.size() == from, "copying an allocator mapped memory");
        break;
      }
      case H_ASSIGN:
      case H_MASSIGN: {
        if (!full(a) || !full(b) || s[a].type != s[b].type) return false;
        size_t from = st.regions.size();
        with(a, [&](auto& x) {
          using X = std::decay_t<decltype(x)>;
          X& y = std::get<X>(v[b]);
          if (k == H_ASSIGN)
            y = x;
          else if (a != b)
            y = std::move(x);
        });
        s[b] = s[a];
        release({});
        CHECK(st.regions.size() == from, "assigning an allocator mapped memory");
        break;
      }
      case H_REBIND: {
        if (!full(a) || a == b) return false;
        if (full(b)) {
          v[b] = std::monostate{};
          s[b] = Slot{};
          release({});
        }
        size_t from = st.regions.size();
        Slot n = s[a];
        n.type = (s[a].type + 1) % NT;
        with(a, [&](auto& x) {
          switch (n.type) {
            case 0: v[b].template emplace<1>(x); break;
            case 1: v[b].template emplace<2>(x); break;
            case 2: v[b].template emplace<3>(x); break;
            default: v[b].template emplace<4>(x);
          }
        });
        if (FAM == 0) {
          n.leaf = next_pool++;  // a separate pool for each type
          claim(from, {n.leaf});
        } else {
          CHECK(st.regions.size() == from, "rebinding an allocator mapped memory");
        }
        s[b] = n;
        break;
      }
      case H_SWAP: {
        if (!full(a) || !full(b) || s[a].type != s[b].type || a >= b) return false;
        with(a, [&](auto& x) {
          using X = std::decay_t<decltype(x)>;
          using std::swap;
          swap(x, std::get<X>(v[b]));
        });
        std::swap(s[a], s[b]);
        break;
      }
      case H_DROP:
        if (!full(a)) return false;
        v[a] = std::monostate{};
        s[a] = Slot{};
        release({});
        break;
      case H_ALLOC: {
        if (!full(a)) return false;
        int p = pool_for(FAM, s[a]);
        with(a, [&](auto& x) {
          using T = typename std::decay_t<decltype(x)>::value_type;
          size_t from = st.regions.size();
          size_t al = FAM == 2 || alignof(T) > 64 ? alignof(T) : 64;
          size_t ext = FAM == 2 ? class_of(sizeof(T)) : sizeof(T);
          bool can = false;
          for (auto& f : m.freed)
            if (f.pool == p && f.kind == s[a].type) can = true;
          T* q = x.allocate(1);
          if (can)
            CHECK(st.regions.size() == from, "memory was mapped although a block is free");
          claim(from, {p});
          Block blk{reinterpret_cast<char*>(q), sizeof(T), al, ext, p, s[a].type, 0, nullptr};
          for (auto& f : m.freed)
            if (Model::overlap(blk, f))
              CHECK(f.pool == p, "a block of another pool was handed out");
          m.add(blk);
          CHECK(region_pool.at(m.live.back().region) == p,
                "a block comes from the memory of another pool");
        });
        break;
      }
      case H_FREE: {
        if (a >= m.live.size() || !full(b)) return false;
        Block blk = m.live[a];
        if (blk.kind != s[b].type || blk.pool != pool_for(FAM, s[b])) return false;
        Model::verify(blk);
        with(b, [&](auto& x) {
          using T = typename std::decay_t<decltype(x)>::value_type;
          x.deallocate(reinterpret_cast<T*>(blk.p), 1);
        });
        m.live.erase(m.live.begin() + a);
        m.freed.push_back(blk);
        break;
      }
      default:
        mc::fail("bad case");
    }
    return true;
  }
  void close() {
    for (int i = 0; i < NS; ++i) {
      v[i] = std::monostate{};
      s[i] = Slot{};
      release({});
      check("while destroying the allocators");
    }
    CHECK(st.live() == 0, "memory is still mapped after the last user is gone");
  }
};
// words: 5, family, huge_fail, ops...  (false: last op not applicable)
template <int FAM, template <class> class A>
bool run_handles_(const Words& w) {
  st.reset();
  st.huge_fail = w.at(2);
  st.on = true;
  Handles<FAM, A> h;
  bool ok = true;
  for (size_t i = 3; i < w.size(); ++i) {
    ok = h.apply(w[i]);
    if (ok) h.check("after a call");
  }
  if (ok) {
    mc::Hash128 x;
    x.add(FAM);
    for (auto& s : h.s) {
      x.add(static_cast<uint64_t>(s.type + 1));
      x.add(static_cast<uint64_t>(s.leaf + 1));
      x.add(static_cast<uint64_t>(s.internal + 1));
    }
    for (auto& b : h.m.live) x.add(b.pool * 100 + b.kind + (PoolBox::region_no(b.p) << 20));
    x.add(55);
    for (auto& b : h.m.freed) x.add(b.pool * 100 + b.kind);
    if (seen.insert(x).second) ++n_states;
  }
  h.close();
  st.on = false;
  return ok;
}
bool run_handles(const Words& w) {
  switch (w.at(1)) {
    case 0:
      return run_handles_<0, HPA>(w);
    case 1:
      return run_handles_<1, POL>(w);
    default:
      return run_handles_<2, MSA>(w);
  }
}

// ---- section 6: many blocks ------------------------------------------------------------
// words: 8, multi?, initial, growth, bytes, count, order: `count` blocks, all returned,
// as many again (from memory already mapped), half of them returned and taken once more
void run_many(const Words& w) {
  st.reset();
  st.on = true;
  size_t bytes = w.at(4), count = w.at(5);
  std::vector<char*> p(count);
  auto prog = [&](auto& pool, auto stats, size_t unit) {
    Stats s;
    auto check = [&](const char* when) {
      no_protocol_error();
      check_stats(*stats(), s, when);
      auto q = p;
      std::sort(q.begin(), q.end());
      for (size_t i = 0; i < q.size(); ++i) {
        CHECK(st.find(q[i], unit), "%s: a block outside the mapped memory", when);
        if (i)
          CHECK(q[i] >= q[i - 1] + unit, "%s: two live blocks overlap", when);
      }
    };
    auto get = [&](size_t i) {
      ++n_calls;
      p[i] = static_cast<char*>(pool.allocate(bytes, 64));
      CHECK(p[i] && reinterpret_cast<uintptr_t>(p[i]) % 64 == 0, "block %zu", i);
      memcpy(p[i], &i, sizeof i);
      memcpy(p[i] + unit - sizeof i, &i, sizeof i);
      s.alloc(unit);
    };
    auto put = [&](size_t i) {
      ++n_calls;
      size_t a, b;
      memcpy(&a, p[i], sizeof a);
      memcpy(&b, p[i] + unit - sizeof b, sizeof b);
      CHECK(a == i && b == i, "block %zu of %zu was overwritten", i, count);
      pool.deallocate(p[i], bytes);
      s.free(unit);
    };
    bool multi = w.at(1);
    for (size_t i = 0; i < count; ++i) get(i);
    s.growth = st.regions.size() - 1;
    check("many blocks");
    size_t regions = st.regions.size();
    for (size_t i = 0; i < count; ++i) put(w.at(6) ? count - 1 - i : i);
    for (size_t i = 0; i < count; ++i) get(i);
    CHECK(st.regions.size() == regions, "%zu blocks were returned and taken again, %zu "
          "regions were mapped", count, st.regions.size() - regions);
    check("as many again");
    for (size_t i = 0; i < count; i += 2) put(i);
    for (size_t i = 0; i < count; i += 2) get(i);
    CHECK(st.regions.size() == regions, "half of the blocks returned and taken again");
    check("half of them again");
    for (size_t i = count; i-- > 0;) put(i);
    p.clear();
    check("none");
    (void)multi;
    n_growth += regions - 1;
  };
  if (w.at(1)) {
    std::optional<fc::MultiSizeHugePagePool> pool;
    pool.emplace(INITIAL[w.at(2)], false, GROWTH[w.at(3)]);
    prog(*pool, [&] { return pool->get_pool(class_of(bytes)); }, class_of(bytes));
    pool.reset();
  } else {
    std::optional<fc::HugePagePool> pool;
    pool.emplace(INITIAL[w.at(2)], false, GROWTH[w.at(3)]);
    prog(*pool, [&] { return &*pool; }, bytes);
    pool.reset();
  }
  no_protocol_error();
  CHECK(st.live() == 0, "%zu regions are still mapped after destruction", st.live());
  st.on = false;
}

int g_live;
bool g_ok;
void run_case(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_hist;
  switch (w.at(0)) {
    case 1:
    case 6:
      g_live = run_pool(w);
      break;
    case 8:
      run_many(w);
      break;
    case 7:
    case 2:
      g_live = run_multi(w);
      break;
    case 3:
      run_long(w);
      break;
    case 4:
      run_class(w);
      break;
    default:
      g_ok = run_handles(w);
  }
}
bool late() { return mc::now_s() - t0 > budget; }

// all sequences of the given ops (and returns of every live block) up to a depth
bool sequences(Words& w, const std::vector<uint32_t>& ops, uint32_t depth, int live) {
  if (late()) return false;
  if (depth == 0) return true;
  auto go = [&](uint32_t op) {
    w.push_back(op);
    ++n_trans;
    run_case(w);
    bool r = g_live < 0 ? true : sequences(w, ops, depth - 1, g_live);
    w.pop_back();
    return r;
  };
  for (uint32_t op : ops)
    if (!go(op)) return false;
  for (int i = 0; i < live; ++i)
    if (!go(OP_FREE + static_cast<uint32_t>(i))) return false;
  return true;
}
bool all_from(Words cfg, const std::vector<uint32_t>& ops, uint32_t depth) {
  run_case(cfg);
  if (g_live < 0) return true;
  return sequences(cfg, ops, depth, g_live);
}

bool explore() {
  t0 = mc::now_s();
  budget = mc::time_budget();
  bool ex = true;
  auto D = [&](const char* n, long d) { return static_cast<uint32_t>(par.get(n, d)); };
  // every pair and triple of all requests
  if (uint32_t d = D("wide", 0)) {
    std::vector<uint32_t> all;
    for (uint32_t i = 0; i < NREQ; ++i) all.push_back(i);
    for (uint32_t i = 0; i < NBAD; ++i) all.push_back(OP_BAD + i);
    all.push_back(OP_ZERO);
    all.push_back(OP_NULL);
    for (uint32_t in = 0; in < 5; ++in)
      for (uint32_t gr = 0; gr < 3; ++gr)
        ex = all_from({1, in, gr, in & 1, 0, 0}, all, d) && ex;
  }
  // long sequences over few requests
  if (uint32_t d = D("deep", 0)) {
    ex = all_from({1, 1, 0, 0, 0, 0}, {0, 1, 3}, d) && ex;
    ex = all_from({1, 0, 1, 0, 0, 0}, {1, 2, 4}, d - 1) && ex;
    ex = all_from({1, 4, 1, 0, 0, 0}, {0, 6, 5}, d - 1) && ex;
    ex = all_from({1, 2, 0, 0, 0, 0}, {7, 2, 9}, d - 1) && ex;
  }
  // every outcome of the mappings
  if (uint32_t d = D("outcomes", 0)) {
    uint32_t bits = D("bits", 4);
    for (uint32_t hu = 0; hu < 2; ++hu)
      for (uint32_t hf = 0; hf < (hu ? 1u << bits : 1u); ++hf)
        for (uint32_t rf = 0; rf < 1u << bits; ++rf) {
          ex = all_from({1, 0, 0, hu, hf, rf}, {4, 0, 13}, d) && ex;
          ex = all_from({1, 3, 3, hu, hf, rf}, {13, 1}, d) && ex;
        }
  }
  if (uint32_t d = D("multi", 0)) {
    std::vector<uint32_t> all;
    for (uint32_t i = 0; i < NMREQ; ++i) all.push_back(i);
    for (uint32_t i = 0; i < NBAD; ++i) all.push_back(OP_BAD + i);
    all.push_back(OP_ZERO);
    all.push_back(OP_NULL);
    ex = all_from({2, 0, 0, 0, 0, 0}, all, d) && ex;
    ex = all_from({2, 1, 1, 1, 0, 0}, all, d) && ex;
    ex = all_from({2, 4, 0, 0, 0, 0}, {0, 1, 2}, d + 2) && ex;
    ex = all_from({2, 0, 1, 0, 0, 0}, {5, 6, 9}, d + 1) && ex;
    ex = all_from({2, 2, 0, 0, 0, 0}, {3, 4, 12}, d + 1) && ex;
  }
  // sizes beyond 32 bits; more blocks than 16 bits count, more regions than 8
  if (uint32_t d = D("giant", 0)) {
    std::vector<uint32_t> all;
    for (uint32_t i = 0; i < NGREQ; ++i) all.push_back(i);
    for (uint32_t mu = 0; mu < 2; ++mu)
      for (uint32_t in = 0; in < 4; ++in)
        for (uint32_t gr = 0; gr < 3; ++gr)
          for (uint32_t hu = 0; hu < 3; ++hu)
            ex = all_from({6 + mu, in, gr, hu ? 1u : 0u, hu == 2 ? 2u : 0u, 0}, all,
                          hu ? d - 2 : d) && ex;
    for (uint32_t mu = 0; mu < 2; ++mu)
      for (uint32_t o = 0; o < 2; ++o) {
        run_case({8, mu, 5, 3, 64, 140000, o});
        run_case({8, mu, 0, 0, 4096, 700, o});
        run_case({8, mu, 1, 1, 320, 2000, o});
        n_trans += 3 * 2 * (140000 + 700 + 2000);
      }
  }
  if (uint32_t d = D("multi_outcomes", 0)) {
    uint32_t bits = D("bits", 4);
    for (uint32_t hu = 0; hu < 2; ++hu)
      for (uint32_t hf = 0; hf < (hu ? 1u << bits : 1u); ++hf)
        for (uint32_t rf = 0; rf < 1u << bits; ++rf)
          ex = all_from({2, 0, 0, hu, hf, rf}, {1, 10, 14}, d) && ex;
  }
  if (D("long", 0)) {
    for (uint32_t mu = 0; mu < 2; ++mu)
      for (uint32_t in : {0u, 1u, 2u})
        for (uint32_t gr : {0u, 1u, 2u})
          for (uint32_t a : {0u, 1u, 2u, 4u, 5u, 7u, 9u})
            for (uint32_t b : {0u, 1u, 3u, 8u, 11u, 12u})
              for (uint32_t n : {3u, 40u, (uint32_t)par.get("count", 90)})
                for (uint32_t o = 0; o < 4; ++o) {
                  if ((a + b + in + gr + o) % D("long", 1)) continue;
                  if (b == 12 && !mu) continue;
                  // blocks of one size and different alignments serve each other
                  const Req* rq = mu ? MREQ : REQ;
                  auto sz = [&](uint32_t i) { return mu ? class_of(rq[i].bytes) : rq[i].bytes; };
                  if (sz(a) == sz(b) && rq[a].align != rq[b].align) continue;
                  if (late()) {
                    ex = false;
                    break;
                  }
                  run_case({3, mu, in, gr, (a + o) & 1, a, b, n, o});
                  ++n_trans;
                }
  }
  if (D("classes", 0)) {
    for (uint32_t n = 0; n <= 200000; ++n) run_case({4, n, 0, 0});
    for (int b = 0; b < 64; ++b)
      for (int d = -3; d <= 3; ++d) {
        uint64_t n = (uint64_t{1} << b) + static_cast<uint64_t>(d);
        run_case({4, (uint32_t)n, (uint32_t)(n >> 32), 0});
      }
    n_trans += 200000 + 64 * 7;
    uint32_t step = D("classes", 1);
    for (uint32_t n = 1; n <= 2400; n += step) run_case({4, n, 0, 1});
    for (uint32_t p = 4096; p <= 65536; p *= 2)
      for (int d = -2; d <= 2; ++d) run_case({4, p + static_cast<uint32_t>(d), 0, 1});
    for (uint32_t k = 2; k <= 6; ++k) {
      for (uint32_t n = 1; n <= 700; n += step) run_case({4, n, 0, k});
      for (uint64_t n : {uint64_t{1} << 60, ~uint64_t{0}, (~uint64_t{0}) / 3 + 1,
                         (~uint64_t{0}) / 8 + 1, (~uint64_t{0}) / 24 + 1,
                         (~uint64_t{0}) / 24 + 2, (~uint64_t{0}) / 64 + 1,
                         (uint64_t{1} << 61) + 5, (uint64_t{1} << 58) + 1})
        if (n > ~size_t{0} / (k == 2 ? 1 : k == 3 ? 3 : k == 4 ? 8 : k == 5 ? 24 : 64))
          run_case({4, (uint32_t)n, (uint32_t)(n >> 32), k});
    }
  }
  if (D("sizes", 0)) {
    for (uint32_t n = 8; n <= D("sizes", 0); ++n)
      for (uint32_t a = 0; a < 4; ++a) {
        run_case({4, n, 0, 9 + a});
        n_trans += 14;
      }
    for (uint32_t n = 1; n <= 600; n += n < 20 ? 1 : n < 80 ? 6 : 173)
      for (uint32_t mu = 0; mu < 2; ++mu) {
        run_case({4, n, 0, 20 + mu});
        n_trans += 6 * n;
      }
  }
  if (uint32_t d = D("handles", 0)) {
    uint32_t only = D("family", 9);
    for (uint32_t fam = 0; fam < 3; ++fam) {
      if (only != 9 && only != fam) continue;
      uint32_t ns = D("slots", 3);
      std::vector<uint32_t> ops;
      for (uint32_t a = 0; a < ns; ++a) {
        if (a == 0 || fam == 1) ops.push_back(HW(H_NEW, a, fam == 1 ? 4 * (a & 1) + 2 : 0));
        ops.push_back(HW(H_NEW, a, a == 0 ? 9 : 0));
        ops.push_back(HW(H_DROP, a));
        ops.push_back(HW(H_ALLOC, a));
        for (uint32_t b = 0; b < ns; ++b) {
          ops.push_back(HW(H_COPY, a, b));
          ops.push_back(HW(H_ASSIGN, a, b));
          ops.push_back(HW(H_MOVE, a, b));
          ops.push_back(HW(H_MASSIGN, a, b));
          ops.push_back(HW(H_REBIND, a, b));
          ops.push_back(HW(H_SWAP, a, b));
          ops.push_back(HW(H_FREE, a, b));
        }
      }
      std::function<bool(Words&, uint32_t)> rec = [&](Words& w, uint32_t left) -> bool {
        if (late()) return false;
        for (uint32_t op : ops) {
          w.push_back(op);
          run_case(w);
          bool r = true;
          if (g_ok) {
            ++n_trans;
            if (left > 1) r = rec(w, left - 1);
          }
          w.pop_back();
          if (!r) return false;
        }
        return true;
      };
      for (uint32_t hf : {0u, 2u}) {
        // from three starting points
        for (int start = 0; start < 3; ++start) {
          Words w{5, fam, hf, HW(H_NEW, 0, start == 1 ? 2 : start == 2 ? 13 : 8)};
          if (start >= 1) w.push_back(HW(H_REBIND, 0, 1));
          if (start == 2) {
            w.push_back(HW(H_ALLOC, 0));
            w.push_back(HW(H_ALLOC, 1));
          }
          ex = rec(w, d) && ex;
        }
      }
    }
  }
  mc::counter("states") = n_states;
  mc::counter("transitions") = n_trans;
  mc::counter("histories") = n_hist;
  mc::counter("checked_calls") = n_calls;
  mc::counter("requests_that_failed") = n_fail_hist;
  mc::counter("blocks_reused") = n_reuse;
  mc::counter("regions_grown") = n_growth;
  std::string o = "last history:";
  for (uint32_t x : mc::current) o += fmt(" %u", x);
  mc::samples.push_back(o);
  return ex;
}

int main(int argc, char** argv) {
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore, run_case);
}
