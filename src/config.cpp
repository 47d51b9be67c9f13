// Runs every enumerated program on every build configuration (variant.cpp) linked into
// this binary and compares what they observe (property C23).
#include "mc.hpp"

#include <algorithm>

using mc::Words;
using mc::fmt;

#define ALL_VARIANTS(X) \
  X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13)
#define DECL(i)                                                                         \
  extern "C" __attribute__((weak)) uint64_t variant_run_##i(const uint32_t*, size_t,    \
                                                            std::string*);              \
  extern "C" __attribute__((weak)) const char* variant_name_##i();
ALL_VARIANTS(DECL)

struct Variant {
  uint64_t (*run)(const uint32_t*, size_t, std::string*);
  const char* (*name)();
};
std::vector<Variant> variants() {
  std::vector<Variant> v;
#define ADD(i) \
  if (variant_run_##i) v.push_back({variant_run_##i, variant_name_##i});
  ALL_VARIANTS(ADD)
  return v;
}
std::vector<Variant> var;

struct Params {
  std::map<std::string, long> v;
  long get(const char* k, long d) const {
    auto it = v.find(k);
    return it == v.end() ? d : it->second;
  }
} par;
uint64_t n_prog = 0, n_runs = 0;

void run(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_prog;
  uint64_t h0 = var[0].run(w.data(), w.size(), nullptr);
  ++n_runs;
  for (size_t i = 1; i < var.size(); ++i) {
    uint64_t h = var[i].run(w.data(), w.size(), nullptr);
    ++n_runs;
    if (h == h0) continue;
    std::string a, b;
    var[0].run(w.data(), w.size(), &a);
    var[i].run(w.data(), w.size(), &b);
    size_t d = 0;
    while (d < a.size() && d < b.size() && a[d] == b[d]) ++d;
    size_t from = a.rfind(' ', d > 40 ? d - 40 : 0);
    if (from == std::string::npos) from = 0;
    mc::fail(fmt("configurations [%s] and [%s] disagree: ...%s | ...%s", var[0].name(),
                 var[i].name(), a.substr(from, 90).c_str(), b.substr(from, 90).c_str()));
  }
}

uint32_t W(uint32_t k, uint32_t a = 0, uint32_t b = 0) { return k << 24 | a << 12 | b; }

// Every program of allocations and deallocations of the given length.
bool pools(uint32_t kind, uint32_t depth, auto&& late) {
  std::vector<uint32_t> allocs;
  for (uint32_t b : {8u, 24u, 40u, 72u, 600u, 4000u})
    for (uint32_t al : {8u, 16u, 64u}) allocs.push_back(W(30, b, al));
  for (uint32_t initial : {4096u, 8192u}) {
    Words w{kind << 16 | initial};
    // the blocks in use are counted, so that every deallocation names one
    auto rec = [&](auto&& self, uint32_t d, uint32_t used) -> bool {
      if (late()) return false;
      if (d == depth) {
        run(w);
        return true;
      }
      for (uint32_t i = 0; i < used; ++i) {
        w.push_back(W(31, i));
        bool go = self(self, d + 1, used - 1);
        w.pop_back();
        if (!go) return false;
      }
      for (uint32_t x : allocs) {
        w.push_back(x);
        bool go = self(self, d + 1, used + 1);
        w.pop_back();
        if (!go) return false;
      }
      return true;
    };
    if (!rec(rec, 0, 0)) return false;
  }
  // many blocks of one size, so that regions run out, then freed in both orders
  for (uint32_t x : allocs)
    for (uint32_t y : allocs)
      for (uint32_t order = 0; order < 2; ++order) {
        Words w{kind << 16 | 8192u};
        uint32_t n = std::min(200u, 20000u / (x >> 12 & 0xfff));
        for (uint32_t i = 0; i < n; ++i) w.push_back(i % 3 == 2 ? y : x);
        for (uint32_t i = 0; i < n / 2; ++i) w.push_back(W(31, order ? n - 1 - i : 0));
        for (uint32_t i = 0; i < n / 2; ++i) w.push_back(i % 3 == 1 ? y : x);
        run(w);
      }
  return true;
}

bool explore() {
  double t0 = mc::now_s(), budget = mc::time_budget();
  bool ex = true;
  auto late = [&] {
    if (mc::now_s() - t0 < budget) return false;
    ex = false;
    return true;
  };
  long kinds = par.get("kinds", 10), small = par.get("small", 30), big = par.get("big", 200),
       step = par.get("step", 37);
  std::vector<uint32_t> sizes;
  for (long n = 0; n <= small; ++n) sizes.push_back(static_cast<uint32_t>(n));
  for (long c : {32, 64, 128, 256})
    for (long d = -1; d <= 1; ++d)
      if (c + d > small && c + d <= big) sizes.push_back(static_cast<uint32_t>(c + d));
  for (long n = small + step; n <= big; n += step) sizes.push_back(static_cast<uint32_t>(n));
  long only = par.get("kind", -1);
  if (only >= 10)
    return pools(static_cast<uint32_t>(only), static_cast<uint32_t>(par.get("depth", 3)),
                 late);
  for (uint32_t kind = 0; kind < kinds; ++kind) {
    if (only >= 0 && kind != only) continue;
    bool dense = kind >= 6;
    for (uint32_t n : sizes) {
      if (dense && n > 14) continue;
      uint32_t T = n + 1;
      if (kind == 5 || kind == 9) {
        if (T > 120) continue;
      }
      uint32_t head = kind << 16 | T;
      for (uint32_t o = 0; o < 6; ++o) {
        if (late()) return ex;
        Words w{head, W(1, o, n)};
        run(w);
        // drain in every order, a part and all
        for (uint32_t d = 0; d < 6; ++d)
          for (uint32_t cnt : {n / 3, 2 * n / 3, n - (n > 0), n}) run({head, W(1, o, n), W(2, d, cnt)});
        for (uint32_t md = 1; md <= 4; ++md)
          for (uint32_t ph = 0; ph < md; ++ph)
            run({head, W(1, o, n), W(23, md, ph), W(10 + (md + ph) % 7, 1)});
        // one or two further calls
        std::vector<uint32_t> codes{0, 1, 2, n / 2, n / 2 + 1, n, n + 1, 2 * n, 2 * n + 1,
                                    2 * T};
        if (n <= 16) {
          codes.clear();
          for (uint32_t c = 0; c <= 2 * T; ++c) codes.push_back(c);
        }
        std::sort(codes.begin(), codes.end());
        codes.erase(std::unique(codes.begin(), codes.end()), codes.end());
        std::vector<uint32_t> ops;
        for (uint32_t c : codes) {
          if (c > 2 * T) continue;
          for (uint32_t f = 0; f < 7; ++f) ops.push_back(W(10 + f, c));
          ops.push_back(W(20, c));
          ops.push_back(W(21, c));
          ops.push_back(W(24, c));
          ops.push_back(W(22, c, std::min(2 * T, c + 2)));
          ops.push_back(W(22, c, std::min(2 * T, c + n / 2)));
          ops.push_back(W(22, c, 2 * T));
        }
        for (uint32_t a = 0; a < 5; ++a) ops.push_back(W(25, a));
        ops.push_back(W(26));
        for (uint32_t b : {1u, n / 2, n}) {
          ops.push_back(W(27, 0, b));
          ops.push_back(W(27, 1, b));
        }
        for (uint32_t x : ops) run({head, W(1, o, n), x});
        if (o < static_cast<uint32_t>(par.get("pair_orders", 1)) && n <= par.get("pairs", 12)) {
          for (uint32_t x : ops)
            for (uint32_t y : ops) run({head, W(1, o, n), x, y});
        }
      }
    }
  }
  return ex;
}
bool explore_all() {
  bool ex = explore();
  std::string names;
  for (auto& v : var) names += std::string(names.empty() ? "" : "; ") + v.name();
  mc::samples.push_back("configurations compared: " + names);
  mc::counter("states") = n_prog;
  mc::counter("transitions") = n_runs;
  mc::counter("histories") = n_runs;
  mc::counter("max_configurations") = var.size();
  return ex;
}
int main(int argc, char** argv) {
  var = variants();
  for (int i = 2; i < argc; ++i) {
    char* e = strchr(argv[i], '=');
    if (e) par.v[std::string(argv[i], e)] = atol(e + 1);
  }
  return mc::run_main(argc, argv, explore_all, run);
}
