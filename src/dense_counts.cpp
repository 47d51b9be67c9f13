// dense_map: every insertion call in every argument form on every content, with
// constructions, copies, moves and uses of the arguments counted (property C22).
#include "count.hpp"

#include <fast_containers/dense_map.hpp>

#include <algorithm>
#include <memory>

namespace fc = kressler::fast_containers;
using mc::Words;
using mc::fmt;

#ifndef CMP
#define CMP std::less<KEY>
#endif
#ifndef CAP
#define CAP 6
#endif
using KEY = dom::CKey;
using Map = fc::dense_map<dom::CKey, dom::Cnt, CAP, CMP, fc::SearchMode::MODE>;
constexpr bool kDesc = dom::is_descending<CMP>::value;
constexpr uint32_t U = CAP + 2;

uint64_t n_case = 0, n_states = 0;

dom::CKey key(uint32_t i, uint32_t rep) {
  int32_t v = static_cast<int32_t>(i) * 3 - 7;
  return dom::CKey(kDesc ? -v : v, rep);
}
// case: mask, history, form, key
void run(const Words& w) {
  mc::begin_case(w);
  mc::current = w;
  ++n_case;
  uint32_t mask = w.at(0), hist = w.at(1), fi = w.at(2), q = w.at(3);
  auto m = std::make_unique<Map>();
  auto put = [&](uint32_t i) { m->insert(key(i, i + 40), dom::Cnt(i + 1)); };
  uint32_t n = static_cast<uint32_t>(__builtin_popcount(mask));
  if (hist == 1) {
    for (uint32_t i = U; i-- > 0;)
      if (mask >> i & 1) put(i);
  } else if (hist == 2) {  // room used before: erased neighbours
    for (uint32_t i = 0; i < U; ++i) {
      if (mask >> i & 1) {
        put(i);
      } else if (m->size() < CAP) {
        put(i);
        m->erase(key(i, 0));
      }
    }
  } else {
    for (uint32_t i = 0; i < U; ++i)
      if (mask >> i & 1) put(i);
  }
  const dom::Form& f = dom::kForms[fi];
  bool present = mask >> q & 1;
  const dom::CKey k0 = key(q, 99);
  if (fi == 0) dom::check_lookups(*m, k0, present);
  dom::Args x(k0, 77);
  dom::cnt = dom::Counts{};
  bool threw = false;
  std::optional<dom::CallResult<Map::iterator>> r;
  try {
    r.emplace(dom::call_form<false>(*m, f, x.k, x.v, x.a, x.b, present));
  } catch (const std::runtime_error& e) {
    if (dynamic_cast<const mc::Violation*>(&e)) throw;
    threw = true;
  }
  bool may_refuse = n == CAP && (!present || f.verb == dom::INSERT || f.verb == dom::TRY);
  if (threw) {
    CHECK(may_refuse, "an insertion was refused with %u of %u elements", n, CAP);
    CHECK(f.key_rvalue || !x.k.consumed, "a refused insertion changed its key");
    CHECK(f.val == dom::VR || x.v.vid == 77, "a refused insertion changed its value");
  } else {
    CHECK(present || n < CAP, "an insertion into a full map was not refused");
    dom::check_counts(f, x, k0, present, false, 1);
    if (r->has_flag) CHECK(r->inserted == !present, "reports %d", r->inserted);
  }
  // contents
  size_t j = 0;
  auto it = m->begin();
  for (uint32_t i = 0; i < U; ++i) {
    bool here = (mask >> i & 1) || (!threw && i == q);
    if (!here) continue;
    CHECK(it != m->end(), "an element is missing");
    const dom::CKey& k = it->first;
    bool fresh = i == q && !present;
    CHECK(k.v == key(i, 0).v && k.rep == (fresh ? 99 : i + 40) && !k.consumed,
          "key of element %u changed", i);
    uint32_t want = i + 1;
    if (i == q && !threw && (fresh || f.verb == dom::ASSIGN)) want = dom::value_of(f, 77);
    CHECK(it->second.vid == want, "value of element %u changed", i);
    if (i == q && !threw) CHECK(*r->it == it, "iterator to another element");
    ++it;
    ++j;
  }
  CHECK(it == m->end() && m->size() == j, "size");
}

bool explore() {
  for (uint32_t mask = 0; mask < (1u << U); ++mask) {
    if (__builtin_popcount(mask) > CAP) continue;
    for (uint32_t h = 0; h < 3; ++h) {
      ++n_states;
      for (uint32_t f = 0; f < dom::kNumForms; ++f) {
        if (dom::kForms[f].verb == dom::EMPLACE || dom::kForms[f].how) continue;
        for (uint32_t q = 0; q < U; ++q) run({mask, h, f, q});
      }
    }
  }
  mc::counter("states") = n_states;
  mc::counter("transitions") = n_case;
  mc::counter("histories") = n_case;
  mc::samples.push_back(fmt("every subset of %u keys of size <= %u, 3 histories, every "
                            "insertion form, every key", U, CAP));
  return true;
}

int main(int argc, char** argv) { return mc::run_main(argc, argv, explore, run); }
