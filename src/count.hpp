// Key, value and argument types that count how they are made, copied, moved and
// consumed, and the insertion calls in every argument form (property C22).
#pragma once
#include <optional>
#include <stdexcept>
#include <tuple>
#include <utility>

#include "domains.hpp"

namespace dom {

struct Counts {
  int64_t key_copy = 0, key_move = 0;
  int64_t from_l = 0, from_r = 0;                // values made from an argument
  int64_t copy = 0, move = 0;                    // values constructed from values
  int64_t copy_assign = 0, move_assign = 0;      // values assigned from values
  int64_t arg_assign_l = 0, arg_assign_r = 0;    // values assigned from arguments
  int64_t arg_copy = 0, arg_move = 0;
  int64_t stale = 0;                             // something consumed was consumed again
  int64_t made() const { return from_l + from_r + copy + move; }
  int64_t assigned() const {
    return copy_assign + move_assign + arg_assign_l + arg_assign_r;
  }
};
inline Counts cnt;

struct CKey {
  int32_t v = 0;
  uint32_t rep = 0;
  bool consumed = false;
  CKey() = default;
  CKey(int32_t x, uint32_t r) : v(x), rep(r) {}
  CKey(const CKey& o) : v(o.v), rep(o.rep), consumed(o.consumed) {
    ++cnt.key_copy;
    cnt.stale += o.consumed;
  }
  CKey(CKey&& o) noexcept : v(o.v), rep(o.rep), consumed(o.consumed) {
    ++cnt.key_move;
    o.consumed = true;
  }
  CKey& operator=(const CKey& o) {
    if (this != &o) {
      v = o.v;
      rep = o.rep;
      consumed = o.consumed;
      ++cnt.key_copy;
      cnt.stale += o.consumed;
    }
    return *this;
  }
  CKey& operator=(CKey&& o) noexcept {
    if (this != &o) {
      v = o.v;
      rep = o.rep;
      consumed = o.consumed;
      o.consumed = true;
      ++cnt.key_move;
    }
    return *this;
  }
  friend bool operator<(const CKey& a, const CKey& b) { return a.v < b.v; }
  friend bool operator>(const CKey& a, const CKey& b) { return a.v > b.v; }
};

template <>
struct KeyDom<CKey> {
  static uint32_t max_T() { return 1u << 28; }
  static CKey make(uint32_t code, uint32_t T, int, bool rev, uint32_t rep) {
    if (rev) code = 2 * T - code;
    return CKey(static_cast<int32_t>(code) - static_cast<int32_t>(T), rep);
  }
  static bool ok(uint32_t code, uint32_t T, int) { return code <= 2 * T; }
  static bool identical(const CKey& a, const CKey& b) {
    return a.v == b.v && a.rep == b.rep && !a.consumed && !b.consumed;
  }
};

struct Arg {
  uint32_t x = 0;
  bool consumed = false;
  explicit Arg(uint32_t v) : x(v) {}
  Arg(const Arg& o) : x(o.x), consumed(o.consumed) {
    ++cnt.arg_copy;
    cnt.stale += o.consumed;
  }
  Arg(Arg&& o) noexcept : x(o.x), consumed(o.consumed) {
    o.consumed = true;
    ++cnt.arg_move;
  }
};

struct Cnt {
  static constexpr uint32_t none = 0xffffffffu;
  uint32_t vid = none;
  Cnt() = default;
  explicit Cnt(uint32_t v) : vid(v) {}
  Cnt(const Arg& a) : vid(a.x) {  // NOLINT: implicit on purpose
    ++cnt.from_l;
    cnt.stale += a.consumed;
  }
  Cnt(Arg&& a) : vid(a.x) {  // NOLINT
    ++cnt.from_r;
    cnt.stale += a.consumed;
    a.consumed = true;
  }
  Cnt(const Arg& a, Arg&& b) : vid(a.x * 1000 + b.x) {
    ++cnt.from_l;
    ++cnt.from_r;
    cnt.stale += a.consumed + b.consumed;
    b.consumed = true;
  }
  Cnt(Arg&& a, const Arg& b) : vid(a.x * 1000 + b.x) {
    ++cnt.from_l;
    ++cnt.from_r;
    cnt.stale += a.consumed + b.consumed;
    a.consumed = true;
  }
  Cnt(const Arg& a, const Arg& b) : vid(a.x * 1000 + b.x) {
    cnt.from_l += 2;
    cnt.stale += a.consumed + b.consumed;
  }
  Cnt(const Cnt& o) : vid(o.vid) { ++cnt.copy; }
  Cnt(Cnt&& o) noexcept : vid(o.vid) {
    o.vid = none;
    ++cnt.move;
  }
  Cnt& operator=(const Cnt& o) {
    vid = o.vid;
    ++cnt.copy_assign;
    return *this;
  }
  Cnt& operator=(Cnt&& o) noexcept {
    if (this != &o) {
      vid = o.vid;
      o.vid = none;
    }
    ++cnt.move_assign;
    return *this;
  }
  Cnt& operator=(const Arg& a) {
    vid = a.x;
    ++cnt.arg_assign_l;
    cnt.stale += a.consumed;
    return *this;
  }
  Cnt& operator=(Arg&& a) {
    vid = a.x;
    ++cnt.arg_assign_r;
    cnt.stale += a.consumed;
    a.consumed = true;
    return *this;
  }
};
template <>
struct ValDom<Cnt> {
  static uint32_t norm(uint32_t v) { return v; }
  static Cnt make(uint32_t v) { return Cnt(v); }
  static uint32_t get(const Cnt& v) { return v.vid; }
};

// ---- the insertion calls ---------------------------------------------------------
enum Verb { INSERT, EMPLACE, TRY, ASSIGN, INDEX };
// form: what is passed for the value: nothing, V&, V&&, const V&, A&, A&&, (A&, A&&),
// (A&&, A&), (A&, A&)
enum Val { NONE, VL, VR, VC, AL_, AR, A_LR, A_RL, A_LL };
struct Form {
  Verb verb;
  Val val;
  bool key_rvalue;
  int how;  // 0 plain, 1 pair lvalue, 2 pair rvalue, 3 piecewise, 4.. hint
};
constexpr Form kForms[] = {
    {INSERT, VL, false, 0},   {INSERT, VR, true, 0},    {INSERT, VC, false, 0},
    {INSERT, VL, false, 1},   {INSERT, VR, true, 2},    {EMPLACE, VL, false, 0},
    {EMPLACE, VR, true, 0},   {EMPLACE, AL_, false, 0}, {EMPLACE, AR, true, 0},
    {EMPLACE, AR, false, 0},  {EMPLACE, A_LR, false, 3}, {EMPLACE, A_RL, true, 3},
    {EMPLACE, VL, false, 1},  {EMPLACE, VR, true, 2},   {EMPLACE, AR, false, 4},
    {EMPLACE, AL_, true, 5},  {EMPLACE, VL, false, 6},  {TRY, NONE, false, 0},
    {TRY, NONE, true, 0},     {TRY, VL, false, 0},      {TRY, VR, false, 0},
    {TRY, VC, true, 0},       {TRY, AL_, false, 0},     {TRY, AR, true, 0},
    {TRY, A_LR, false, 0},    {TRY, A_RL, true, 0},     {TRY, A_LL, false, 0},
    {ASSIGN, VL, false, 0},   {ASSIGN, VR, true, 0},    {ASSIGN, VC, false, 0},
    {ASSIGN, VR, false, 0},   {ASSIGN, AL_, false, 0},  {ASSIGN, AR, false, 0},
    {INDEX, NONE, false, 0},  {INDEX, NONE, true, 0},
};
constexpr uint32_t kNumForms = sizeof(kForms) / sizeof(kForms[0]);

template <class It>
struct CallResult {
  std::optional<It> it;
  bool inserted = false, has_flag = true, full = false;
};

// `full_ok`: a full map may refuse (dense_map)
template <bool Tree, class Map>
CallResult<typename Map::iterator> call_form(Map& m, const Form& f, CKey& k, Cnt& v,
                                             Arg& a, Arg& b, bool present) {
  using It = typename Map::iterator;
  CallResult<It> r;
  auto take = [&](std::pair<It, bool> p) {
    r.it.emplace(p.first);
    r.inserted = p.second;
  };
  const Cnt& vc = v;
  if (f.verb == INSERT) {
    if constexpr (Tree) {
      if (f.how == 1 || f.how == 2) {
        std::pair<CKey, Cnt> p(k, v);
        const Counts before = cnt;
        // (the pair's own construction is not the container's)
        Counts saved = before;
        cnt = Counts{};
        if (f.how == 1)
          take(m.insert(p));
        else
          take(m.insert(std::move(p)));
        (void)saved;
        if (f.how == 1)
          CHECK(!p.first.consumed && p.second.vid == v.vid && p.first.v == k.v,
                "insert changed the pair it was given");
        return r;
      }
    }
    if (f.val == VL) take(m.insert(k, v));
    if (f.val == VR) take(m.insert(std::move(k), std::move(v)));
    if (f.val == VC) take(m.insert(k, vc));
  } else if (f.verb == EMPLACE) {
    if constexpr (Tree) {
      if (f.how == 1 || f.how == 2) {
        std::pair<CKey, Cnt> p(k, v);
        cnt = Counts{};
        if (f.how == 1)
          take(m.emplace(p));
        else
          take(m.emplace(std::move(p)));
        if (f.how == 1)
          CHECK(!p.first.consumed && p.second.vid == v.vid && p.first.v == k.v,
                "emplace changed the pair it was given");
      } else if (f.how == 3) {
        if (f.key_rvalue)
          take(m.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(k)),
                         std::forward_as_tuple(std::move(a), b)));
        else
          take(m.emplace(std::piecewise_construct, std::forward_as_tuple(k),
                         std::forward_as_tuple(a, std::move(b))));
      } else if (f.how >= 4) {
        r.has_flag = false;
        auto hint = f.how == 4 ? m.begin() : f.how == 5 ? m.end() : m.lower_bound(k);
        if (f.val == AR) r.it.emplace(m.emplace_hint(hint, k, std::move(a)));
        if (f.val == AL_) r.it.emplace(m.emplace_hint(hint, std::move(k), a));
        if (f.val == VL) r.it.emplace(m.emplace_hint(hint, k, v));
      } else {
        if (f.val == VL) take(m.emplace(k, v));
        if (f.val == VR) take(m.emplace(std::move(k), std::move(v)));
        if (f.val == AL_) take(m.emplace(k, a));
        if (f.val == AR && f.key_rvalue) take(m.emplace(std::move(k), std::move(a)));
        if (f.val == AR && !f.key_rvalue) take(m.emplace(k, std::move(a)));
      }
    }
  } else if (f.verb == TRY) {
    switch (f.val) {
      case NONE:
        if (f.key_rvalue)
          take(m.try_emplace(std::move(k)));
        else
          take(m.try_emplace(k));
        break;
      case VL:
        take(m.try_emplace(k, v));
        break;
      case VR:
        take(m.try_emplace(k, std::move(v)));
        break;
      case VC:
        take(m.try_emplace(std::move(k), vc));
        break;
      case AL_:
        take(m.try_emplace(k, a));
        break;
      case AR:
        take(m.try_emplace(std::move(k), std::move(a)));
        break;
      case A_LR:
        take(m.try_emplace(k, a, std::move(b)));
        break;
      case A_RL:
        take(m.try_emplace(std::move(k), std::move(a), b));
        break;
      case A_LL:
        take(m.try_emplace(k, a, b));
        break;
    }
  } else if (f.verb == ASSIGN) {
    switch (f.val) {
      case VL:
        take(m.insert_or_assign(k, v));
        break;
      case VR:
        if (f.key_rvalue)
          take(m.insert_or_assign(std::move(k), std::move(v)));
        else
          take(m.insert_or_assign(k, std::move(v)));
        break;
      case VC:
        take(m.insert_or_assign(k, vc));
        break;
      case AL_:
        take(m.insert_or_assign(k, a));
        break;
      default:
        take(m.insert_or_assign(k, std::move(a)));
        break;
    }
  } else {
    r.has_flag = false;
    Cnt& ref = f.key_rvalue ? m[std::move(k)] : m[k];
    r.it.emplace(m.find(k));  // (k is still readable)
    CHECK(*r.it != m.end() && &(*r.it)->second == &ref,
          "operator[] does not return the stored value");
    (void)present;
  }
  return r;
}

inline uint32_t value_of(const Form& f, uint32_t vid) {
  switch (f.val) {
    case NONE:
      return Cnt::none;
    case VL:
    case VR:
    case VC:
      return vid;
    case AL_:
    case AR:
      return vid + 500;
    default:
      return (vid + 500) * 1000 + vid + 900;
  }
}
struct Args {
  CKey k;
  Cnt v;
  Arg a, b;
  uint32_t vid;
  Args(const CKey& key, uint32_t id) : k(key), v(id), a(id + 500), b(id + 900), vid(id) {}
};

// What must hold after the call, as far as arguments and counts are concerned.
// `copies_allowed`: copies of the new value the container may make internally.
inline void check_counts(const Form& f, const Args& x, const CKey& key0, bool present,
                         bool tree, int64_t height) {
  const Counts& c = cnt;
  const char* verb[] = {"insert", "emplace", "try_emplace", "insert_or_assign",
                        "operator[]"};
  const char* n = verb[f.verb];
  bool pair_form = f.how == 1 || f.how == 2;
  // lvalues are never modified
  bool kr = f.key_rvalue, vr = f.val == VR, ar = f.val == AR || f.val == A_RL,
       br = f.val == A_LR;
  CHECK(kr || (!x.k.consumed && x.k.v == key0.v && x.k.rep == key0.rep),
        "%s modified the key it was given as an lvalue", n);
  CHECK(pair_form || vr || x.v.vid == x.vid,
        "%s modified the value it was given as an lvalue", n);
  CHECK(ar || !x.a.consumed, "%s moved from an argument passed as an lvalue", n);
  CHECK(br || !x.b.consumed, "%s moved from an argument passed as an lvalue", n);
  CHECK(c.stale == 0, "%s used an argument it had already moved from", n);
  int64_t made = c.made();
  if (present) {
    if (f.verb == INSERT || f.verb == TRY) {
      CHECK(made == 0 && c.assigned() == 0,
            "%s of a present key made or assigned a value (%lld constructed, %lld "
            "assigned)", n, (long long)made, (long long)c.assigned());
      CHECK(c.key_copy == 0 && c.key_move == 0, "%s of a present key copied or moved a key",
            n);
      if (f.verb == TRY)
        CHECK(!x.k.consumed && x.v.vid == x.vid && !x.a.consumed && !x.b.consumed,
              "try_emplace of a present key consumed its arguments");
      CHECK(c.arg_copy == 0 && c.arg_move == 0,
            "%s of a present key copied or moved an argument", n);
    } else if (f.verb == ASSIGN) {
      CHECK(c.key_copy == 0 && c.key_move == 0,
            "insert_or_assign of a present key copied or moved a key");
      CHECK(c.assigned() == 1, "insert_or_assign assigned the value %lld times",
            (long long)c.assigned());
      CHECK(made == 0, "insert_or_assign of a present key constructed %lld values",
            (long long)made);
      int64_t want = f.val == VR ? c.move_assign
                     : f.val == AR ? c.arg_assign_r
                     : f.val == AL_ ? c.arg_assign_l
                                    : c.copy_assign;
      CHECK(want == 1, "insert_or_assign did not forward its argument as it was passed");
      CHECK(c.arg_copy == 0 && c.arg_move == 0,
            "insert_or_assign of a present key copied or moved its argument first");
    } else if (f.verb == EMPLACE) {
      // (a candidate element is made from the arguments, each used once)
      CHECK(c.assigned() == 0, "emplace of a present key assigned a value");
    } else {
      CHECK(c.copy == 0 && c.copy_assign == 0, "operator[] of a present key copied");
      CHECK(c.assigned() == 0, "operator[] of a present key assigned a value");
    }
  }
  // each argument is used once, as passed
  if (!present || f.verb == EMPLACE) {
    int64_t l = 0, r = 0;
    switch (f.val) {
      case AL_:
        l = 1;
        break;
      case AR:
        r = 1;
        break;
      case A_LR:
      case A_RL:
        l = r = 1;
        break;
      case A_LL:
        l = 2;
        break;
      default:
        break;
    }
    CHECK(c.from_l + c.arg_assign_l == l && c.from_r + c.arg_assign_r == r,
          "%s made the value from %lld lvalue and %lld rvalue arguments instead of %lld "
          "and %lld", n, (long long)(c.from_l + c.arg_assign_l),
          (long long)(c.from_r + c.arg_assign_r), (long long)l, (long long)r);
    CHECK(c.arg_copy == 0 && c.arg_move == 0, "%s copied or moved an argument first", n);
  }
  if (!present) {
    // one element comes into being: other elements are moved, never copied
    // (copies of the new value: the one an lvalue needs, and one on the way into a leaf)
    bool lv = f.val == VL || f.val == VC || f.verb == INSERT;
    int64_t limit = (lv || pair_form ? 1 : 0) + (tree ? 1 : 0) +
                    (tree && (f.verb == EMPLACE || f.verb == INDEX) ? 1 : 0);
    CHECK(c.copy + c.copy_assign <= limit,
          "%s of one element copied values %lld times", n,
          (long long)(c.copy + c.copy_assign));
    int64_t klimit = tree ? 4 + 6 * height : 1;
    CHECK(c.key_copy <= klimit, "%s of one element copied keys %lld times", n,
          (long long)c.key_copy);
    if (vr && f.verb != INSERT && !pair_form)
      CHECK(x.v.vid == Cnt::none, "%s did not move from an rvalue", n);
  }
}

// A call that only looks constructs, copies, moves and assigns nothing.
template <class M, class K>
void check_lookups(M& m, const K& k, bool has) {
  const M& c = m;
  cnt = Counts{};
  auto none = [&](const char* call) {
    CHECK(cnt.key_copy == 0 && cnt.key_move == 0, "%s copied or moved a key", call);
    CHECK(cnt.made() == 0 && cnt.assigned() == 0, "%s made or assigned a value", call);
    CHECK(cnt.stale == 0, "%s used something consumed", call);
  };
  auto it = m.find(k);
  CHECK((it != m.end()) == has, "find answers %d", it != m.end());
  none("find");
  auto ci = c.find(k);
  CHECK((ci != c.end()) == has, "const find answers %d", ci != c.end());
  none("const find");
  auto lb = m.lower_bound(k);
  none("lower_bound");
  auto ub = m.upper_bound(k);
  none("upper_bound");
  CHECK((lb != ub) == has, "the bounds enclose %s", has ? "no element" : "an element");
  if constexpr (requires { m.equal_range(k); }) {
    auto er = m.equal_range(k);
    none("equal_range");
    CHECK(er.first == lb && er.second == ub, "equal_range is not the pair of the bounds");
  }
  if constexpr (requires { c.contains(k); }) {
    CHECK(c.contains(k) == has, "contains answers %d", !has);
    none("contains");
  }
  if constexpr (requires { c.count(k); }) {
    CHECK((c.count(k) != 0) == has, "count answers %d", !has);
    none("count");
  }
  if constexpr (requires { m.at(k); c.at(k); }) {
    try {
      const void* a = &m.at(k);
      const void* b = &c.at(k);
      CHECK(has && a == b, "at answers for a key that is absent, or two elements");
    } catch (const std::out_of_range&) {
      CHECK(!has, "at throws for a key that is present");
    }
    none("at");
  }
  size_t n = 0;
  for (auto i = m.begin(); i != m.end(); ++i) n += i->first.consumed + 1;
  CHECK(n == m.size(), "a walk over the elements counts %zu of %zu", n, m.size());
  none("iteration");
  for (auto i = m.end(); i != m.begin(); --n) (void)(--i)->second.vid;
  CHECK(n == 0, "a walk back counts %zu too many", n);
  none("iteration backwards");
}

}  // namespace dom
