// Key and value domains used by the harnesses, selected with -DKEY=..., -DVAL=...,
// -DCMP=... .  A key domain maps codes 0..2*T to keys that are strictly
// increasing in the comparator's order: odd codes are the elements of a history,
// even codes the gaps between them.
#pragma once
#include <bit>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <limits>
#include <memory>
#include <string>
#include <type_traits>

#include "mc.hpp"

namespace dom {

constexpr int NLAYOUTS = 7;

// Index range of a layout: maps code in [lo_code, hi_code] to [lo, hi].
struct Span {
  __int128 lo, hi;
};
inline __int128 spread(uint32_t code, uint32_t T, int layout, Span full,
                       __int128 center, bool rev) {
  uint32_t n = 2 * T;  // codes 0..n
  if (rev) code = n - code;
  if (layout == 6) {  // blocks that differ in the upper half of the key only
    unsigned half = full.hi - full.lo > (static_cast<__int128>(1) << 40)   ? 32
                    : full.hi - full.lo > (static_cast<__int128>(1) << 20) ? 16
                                                                           : 8;
    __int128 block = static_cast<__int128>(code / 9) - n / 18;
    return center + block * (static_cast<__int128>(1) << half) + code % 9;
  }
  if (layout == 2) {  // consecutive around the centre
    return center + static_cast<__int128>(code) - static_cast<__int128>(T);
  }
  if (layout == 3) {  // three clusters: both extremes and the centre
    if (code < n / 3) return full.lo + static_cast<__int128>(code);
    if (code < n - n / 3) return center + static_cast<__int128>(code) - T;
    return full.hi - static_cast<__int128>(n - code);
  }
  if (layout == 4)  // the smallest far from the others
    return code < 2 ? full.lo + static_cast<__int128>(code)
                    : full.hi - static_cast<__int128>(n - code);
  if (layout == 5)  // the largest far from the others
    return code + 2 > n ? full.hi - static_cast<__int128>(n - code)
                        : full.lo + static_cast<__int128>(code);
  uint32_t lo = 0, hi = n;
  if (layout == 1 && n >= 2) {  // elements reach both extremes
    lo = 1;
    hi = n - 1;
  }
  if (hi == lo) return center;
  return full.lo + (full.hi - full.lo) * static_cast<__int128>(code - lo) /
                       static_cast<__int128>(hi - lo);
}
// Is the code representable in this layout?
inline bool code_ok(uint32_t code, uint32_t T, int layout, Span full) {
  uint32_t n = 2 * T;
  if (layout == 1 && n >= 2 && (code < 1 || code > n - 1)) return false;
  if (layout == 6 && full.hi - full.lo < 256) return false;
  if (layout == 6 && full.hi - full.lo < 65536 && n / 9 >= 240) return false;
  if (layout == 6 && full.hi - full.lo < (static_cast<__int128>(1) << 33) && n / 9 >= 60000)
    return false;
  if (layout >= 2 && static_cast<__int128>(n) + 4 > full.hi - full.lo) return false;
  return code <= n;
}

template <class K>
struct KeyDom;

template <class K>
  requires std::is_integral_v<K>
struct KeyDom<K> {
  static constexpr Span full{std::numeric_limits<K>::min(),
                             std::numeric_limits<K>::max()};
  static uint32_t max_T() {
    return sizeof(K) == 1 ? 127 : sizeof(K) == 2 ? 32767 : 1u << 30;
  }
  static K make(uint32_t code, uint32_t T, int layout, bool rev, uint32_t) {
    __int128 center =
        std::is_signed_v<K> ? 0 : (static_cast<__int128>(full.hi) + 1) / 2;
    return static_cast<K>(spread(code, T, layout, full, center, rev));
  }
  static bool ok(uint32_t code, uint32_t T, int layout) {
    return code_ok(code, T, layout, full);
  }
  static bool identical(const K& a, const K& b) { return a == b; }
};

template <class K>
  requires std::is_floating_point_v<K>
struct KeyDom<K> {
  using U = std::conditional_t<sizeof(K) == 4, uint32_t, uint64_t>;
  static constexpr U inf_bits = std::bit_cast<U>(std::numeric_limits<K>::infinity());
  static constexpr Span full{-static_cast<__int128>(inf_bits),
                             static_cast<__int128>(inf_bits)};
  static uint32_t max_T() { return 1u << 30; }
  static K make(uint32_t code, uint32_t T, int layout, bool rev, uint32_t rep) {
    __int128 i = spread(code, T, layout, full, 0, rev);
    if (i == 0) return (rep & 1) ? K(-0.0) : K(0.0);
    U mag = static_cast<U>(i < 0 ? -i : i);
    K v = std::bit_cast<K>(mag);
    return i < 0 ? -v : v;
  }
  static bool ok(uint32_t code, uint32_t T, int layout) {
    return code_ok(code, T, layout, full);
  }
  static bool identical(const K& a, const K& b) {
    return std::bit_cast<U>(a) == std::bit_cast<U>(b);
  }
};

template <>
struct KeyDom<std::string> {
  static uint32_t max_T() { return 400000; }
  static std::string make(uint32_t code, uint32_t T, int layout, bool rev,
                          uint32_t) {
    if (rev) code = 2 * T - code;
    char b[64];
    if (layout == 0) {
      snprintf(b, sizeof b, "%06u", code);
      return b;
    }
    if (layout == 1 || T > 200) {
      snprintf(b, sizeof b, "a-long-common-prefix-%06u", code);
      return b;
    }
    if (layout == 3) return std::string(code, '\0');
    if (layout >= 4) {  // bytes of every value, the upper half differs first or last
      std::string r(3, '\0');
      r[0] = static_cast<char>(128 - T / 2 + code / 2);
      r[1] = static_cast<char>(code % 2 * 127);
      return layout == 4 ? r : "0123456789abcde" + r;
    }
    return std::string(code, 'a');
  }
  static bool ok(uint32_t code, uint32_t T, int) { return code <= 2 * T; }
  static bool identical(const std::string& a, const std::string& b) {
    return a == b;
  }
};

// A key with operator< only (no ==): must still be usable.
struct NoEqKey {
  uint32_t v = 0;
  uint32_t check = 0;
  friend bool operator<(const NoEqKey& a, const NoEqKey& b) { return a.v < b.v; }
  friend bool operator>(const NoEqKey& a, const NoEqKey& b) { return a.v > b.v; }
};
template <>
struct KeyDom<NoEqKey> {
  static uint32_t max_T() { return 1u << 30; }
  static NoEqKey make(uint32_t code, uint32_t T, int, bool rev, uint32_t) {
    if (rev) code = 2 * T - code;
    return {code * 3 + 7, ~(code * 3 + 7)};
  }
  static bool ok(uint32_t code, uint32_t T, int) { return code <= 2 * T; }
  static bool identical(const NoEqKey& a, const NoEqKey& b) {
    return a.v == b.v && a.check == b.check && a.check == ~a.v;
  }
};

// A key with several representatives of one equivalence class; operator== tells
// representatives apart, the comparator does not.
struct ClassKey {
  int32_t major = 0;
  uint32_t minor = 0;
  friend bool operator==(const ClassKey& a, const ClassKey& b) {
    return a.major == b.major && a.minor == b.minor;
  }
};
struct ByMajor {
  bool operator()(const ClassKey& a, const ClassKey& b) const {
    return a.major < b.major;
  }
};
struct ByMajorDesc {
  bool operator()(const ClassKey& a, const ClassKey& b) const {
    return a.major > b.major;
  }
};
template <>
struct KeyDom<ClassKey> {
  static uint32_t max_T() { return 1u << 30; }
  static ClassKey make(uint32_t code, uint32_t T, int layout, bool rev,
                       uint32_t rep) {
    return {static_cast<int32_t>(spread(
                code, T, layout == 1 ? 0 : layout,
                {std::numeric_limits<int32_t>::min(),
                 std::numeric_limits<int32_t>::max()},
                0, rev)),
            rep};
  }
  static bool ok(uint32_t code, uint32_t T, int) { return code <= 2 * T; }
  static bool identical(const ClassKey& a, const ClassKey& b) { return a == b; }
};

// A key whose operator== is useless (everything is equal / nothing is).
template <bool Answer>
struct LyingKey {
  uint32_t v = 0;
  friend bool operator==(const LyingKey&, const LyingKey&) { return Answer; }
  friend bool operator<(const LyingKey& a, const LyingKey& b) {
    return a.v < b.v;
  }
};
template <bool A>
struct KeyDom<LyingKey<A>> {
  static uint32_t max_T() { return 1u << 30; }
  static LyingKey<A> make(uint32_t code, uint32_t T, int, bool rev, uint32_t) {
    if (rev) code = 2 * T - code;
    return {code * 5 + 1};
  }
  static bool ok(uint32_t code, uint32_t T, int) { return code <= 2 * T; }
  static bool identical(const LyingKey<A>& a, const LyingKey<A>& b) {
    return a.v == b.v;
  }
};

// Case-insensitive strings: "Ab" and "aB" are one key.
struct CaseLess {
  bool operator()(const std::string& a, const std::string& b) const {
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; ++i) {
      int x = tolower(static_cast<unsigned char>(a[i])),
          y = tolower(static_cast<unsigned char>(b[i]));
      if (x != y) return x < y;
    }
    return a.size() < b.size();
  }
};
struct CaseKey {
  std::string s;
  friend bool operator==(const CaseKey& a, const CaseKey& b) { return a.s == b.s; }
};
struct CaseKeyLess {
  bool operator()(const CaseKey& a, const CaseKey& b) const {
    return CaseLess{}(a.s, b.s);
  }
};
struct CaseKeyGreater {
  bool operator()(const CaseKey& a, const CaseKey& b) const {
    return CaseLess{}(b.s, a.s);
  }
};
template <>
struct KeyDom<CaseKey> {
  static uint32_t max_T() { return 200000; }
  static CaseKey make(uint32_t code, uint32_t T, int layout, bool rev,
                      uint32_t rep) {
    if (rev) code = 2 * T - code;
    std::string s = layout == 1 ? "a-prefix-beyond-the-small-buffer-" : "";
    for (uint32_t d = 26 * 26 * 26, i = 0; d; d /= 26, ++i) {
      char c = static_cast<char>('a' + code / d % 26);
      if (rep >> i & 1) c = static_cast<char>(c - 32);
      s += c;
    }
    return {s};
  }
  static bool ok(uint32_t code, uint32_t T, int) { return code <= 2 * T; }
  static bool identical(const CaseKey& a, const CaseKey& b) { return a == b; }
};

// ---- tracked values --------------------------------------------------------
struct Ledger {
  int64_t live = 0;        // objects alive
  int64_t payload = 0;     // objects alive that own a resource (not moved from)
  uint64_t ctor = 0, copies = 0, moves = 0, assigns = 0, defaults = 0;
  int64_t fail_in = -1;    // throw on the fail_in-th throwing construction
  int64_t default_fail_in = -1;  // throw on that default construction
  bool tripped = false;
};
inline Ledger ledger;   // values
inline Ledger kledger;  // keys
struct Injected {
  int what;
};
inline void maybe_throw(Ledger& l) {
  if (l.fail_in >= 0 && l.fail_in-- == 0) {
    l.tripped = true;
    throw Injected{1};
  }
}
// Owns a resource (vid != none) unless default-constructed or moved from.
template <Ledger& L>
struct Owned {
  static constexpr uint32_t none = 0xffffffffu;
  uint32_t vid = none;
  uint32_t canary = 0;
  const Owned* self = nullptr;
  void born() {
    canary = 0xC0FFEE11u;
    self = this;
    ++L.live;
  }
  void alive() const {
    if (canary != 0xC0FFEE11u || self != this)
      mc::fail("an object was used that is not alive at its address");
  }
  static void own(uint32_t v) {
    if (v != none) ++L.payload;
  }
  static void drop(uint32_t v) {
    if (v != none) --L.payload;
  }
  Owned() {
    if (L.default_fail_in >= 0 && L.default_fail_in-- == 0) {
      L.tripped = true;
      throw Injected{2};
    }
    ++L.defaults;
    born();
  }
  explicit Owned(uint32_t v) {
    maybe_throw(L);
    vid = v;
    ++L.ctor;
    born();
    own(v);
  }
  Owned(const Owned& o) {
    o.alive();
    maybe_throw(L);
    vid = o.vid;
    ++L.copies;
    born();
    own(vid);
  }
  Owned(Owned&& o) noexcept {
    if (o.canary != 0xC0FFEE11u || o.self != &o) std::abort();
    vid = o.vid;
    o.vid = none;
    ++L.moves;
    born();
  }
  Owned& operator=(const Owned& o) {
    alive();
    o.alive();
    maybe_throw(L);
    ++L.copies;
    if (this != &o) {
      drop(vid);
      vid = o.vid;
      own(vid);
    }
    return *this;
  }
  Owned& operator=(Owned&& o) noexcept {
    if (canary != 0xC0FFEE11u || self != this) std::abort();
    if (o.canary != 0xC0FFEE11u || o.self != &o) std::abort();
    ++L.moves;
    if (this != &o) {
      drop(vid);
      vid = o.vid;
      o.vid = none;
    }
    return *this;
  }
  ~Owned() {
    if (canary != 0xC0FFEE11u || self != this) {
      static const char m[] = "{\"note\":\"object destroyed twice or relocated\"}\n";
      if (write(1, m, sizeof m - 1)) {
      }
      std::abort();
    }
    canary = 0xDEADDEAD;
    drop(vid);
    --L.live;
  }
};

using Obj = Owned<ledger>;
template <class T>
concept Counted = std::is_base_of_v<Owned<ledger>, T>;
// Copies when moved (a class that declares its copy operations and no others).
struct CObj : Obj {
  using Obj::Obj;
  CObj() = default;
  CObj(const CObj&) = default;
  CObj& operator=(const CObj&) = default;
  ~CObj() = default;
};
// Move assignment exchanges the resources.
struct SObj : Obj {
  using Obj::Obj;
  SObj() = default;
  SObj(const SObj&) = default;
  SObj(SObj&& o) noexcept : Obj(std::move(o)) {}
  SObj& operator=(const SObj&) = default;
  SObj& operator=(SObj&& o) noexcept {
    if (canary != 0xC0FFEE11u || self != this) std::abort();
    if (o.canary != 0xC0FFEE11u || o.self != &o) std::abort();
    ++ledger.moves;
    std::swap(vid, o.vid);
    return *this;
  }
  ~SObj() = default;
};
// Keys that own a resource; ordered by the number they carry.
struct OKey : Owned<kledger> {
  using Owned::Owned;
  friend bool operator<(const OKey& a, const OKey& b) {
    a.alive();
    b.alive();
    return a.vid < b.vid;
  }
  friend bool operator>(const OKey& a, const OKey& b) { return b < a; }
  friend bool operator==(const OKey& a, const OKey& b) { return a.vid == b.vid; }
};
template <>
struct KeyDom<OKey> {
  static uint32_t max_T() { return 1u << 30; }
  static OKey make(uint32_t code, uint32_t T, int, bool rev, uint32_t) {
    if (rev) code = 2 * T - code;
    return OKey(code * 3 + 7);
  }
  static bool ok(uint32_t code, uint32_t T, int) { return code <= 2 * T; }
  static bool identical(const OKey& a, const OKey& b) {
    a.alive();
    b.alive();
    return a.vid == b.vid;
  }
};

// Trivial to destroy, not to copy: knows where it lives.
struct Anchored {
  uint32_t id = 0;
  const Anchored* at = this;
  Anchored() = default;
  explicit Anchored(uint32_t i) : id(i) {}
  Anchored(const Anchored& o) : id(o.here()) {}
  Anchored& operator=(const Anchored& o) {
    here();
    id = o.here();
    return *this;
  }
  uint32_t here() const {
    if (at != this) mc::fail("an object was moved as raw bytes");
    return id;
  }
};
struct Anchor : Anchored {
  using Anchored::Anchored;
};
struct AKey : Anchored {
  using Anchored::Anchored;
  friend bool operator<(const AKey& a, const AKey& b) { return a.here() < b.here(); }
  friend bool operator>(const AKey& a, const AKey& b) { return b < a; }
};
static_assert(std::is_trivially_destructible_v<Anchor> && !std::is_trivially_copyable_v<Anchor>);
template <>
struct KeyDom<AKey> {
  static uint32_t max_T() { return 1u << 30; }
  static AKey make(uint32_t code, uint32_t T, int, bool rev, uint32_t) {
    if (rev) code = 2 * T - code;
    return AKey(code * 3 + 7);
  }
  static bool ok(uint32_t code, uint32_t T, int) { return code <= 2 * T; }
  static bool identical(const AKey& a, const AKey& b) { return a.here() == b.here(); }
};

template <class V>
struct ValDom;
template <>
struct ValDom<Anchor> {
  static Anchor make(uint32_t id) { return Anchor(id); }
  static uint32_t get(const Anchor& a) { return a.here(); }
  static uint32_t norm(uint32_t id) { return id; }
};
template <class V>
  requires std::is_arithmetic_v<V>
struct ValDom<V> {
  static V make(uint32_t id) { return static_cast<V>(id); }
  static uint32_t get(const V& v) { return static_cast<uint32_t>(v); }
  static uint32_t norm(uint32_t id) {
    return static_cast<uint32_t>(static_cast<V>(id));
  }
};
template <>
struct ValDom<std::string> {
  static std::string make(uint32_t id) {
    return "value-longer-than-the-small-buffer-" + std::to_string(id);
  }
  static uint32_t get(const std::string& s) {
    if (s.size() < 36) return s.empty() ? 0 : 0xfffffffeu;
    return static_cast<uint32_t>(strtoul(s.c_str() + 35, nullptr, 10));
  }
  static uint32_t norm(uint32_t id) { return id; }
};
struct Big {
  uint64_t w[32] = {};
  bool operator==(const Big&) const = default;
};
template <>
struct ValDom<Big> {
  static Big make(uint32_t id) {
    Big b;
    for (int i = 0; i < 32; ++i) b.w[i] = id + 1000003ull * i;
    return b;
  }
  static uint32_t get(const Big& b) {
    if (b.w[0] == 0 && b.w[31] == 0) return 0;
    for (int i = 0; i < 32; ++i)
      if (b.w[i] != b.w[0] + 1000003ull * i) return 0xfffffffeu;
    return static_cast<uint32_t>(b.w[0]);
  }
  static uint32_t norm(uint32_t id) { return id; }
};
// plain bytes of any number, odd ones and some above 64 KiB included
template <size_t N>
struct Blob {
  uint8_t b[N] = {};
  bool operator==(const Blob&) const = default;
};
template <size_t N>
struct ValDom<Blob<N>> {
  static Blob<N> make(uint32_t id) {
    Blob<N> x;
    for (size_t i = 0; i < N; ++i)
      x.b[i] = static_cast<uint8_t>((i < 4 ? id >> (8 * i) : id * 31 + i * 7) + (i >> 8));
    return x;
  }
};
enum class Shade : uint16_t {};
struct alignas(128) Wide {
  uint32_t id = 0;
  const Wide* self_aligned() const { return this; }
};
template <>
struct ValDom<Wide> {
  static Wide make(uint32_t id) { return Wide{id}; }
  static uint32_t get(const Wide& w) {
    if (reinterpret_cast<uintptr_t>(&w) % 128) return 0xfffffffeu;
    return w.id;
  }
  static uint32_t norm(uint32_t id) { return id; }
};
template <Counted O>
struct ValDom<O> {
  static O make(uint32_t id) { return O(id); }
  static uint32_t get(const O& o) {
    o.alive();
    return o.vid == O::none ? 0 : o.vid;
  }
  static uint32_t norm(uint32_t id) { return id; }
};
template <>
struct ValDom<std::shared_ptr<uint32_t>> {
  static std::shared_ptr<uint32_t> make(uint32_t id) {
    return std::make_shared<uint32_t>(id);
  }
  static uint32_t get(const std::shared_ptr<uint32_t>& p) { return p ? *p : 0; }
  static uint32_t norm(uint32_t id) { return id; }
};

// ---- comparators -----------------------------------------------------------
inline uint64_t compare_calls = 0;
template <class K>
struct CountLess {
  bool operator()(const K& a, const K& b) const {
    ++compare_calls;
    return a < b;
  }
};
template <class K>
struct IntLess {  // answers with a number, as some comparison functions do
  int operator()(const K& a, const K& b) const { return a < b ? 2 : 0; }
};
template <class K>
struct CustomDesc {  // descending without being std::greater
  bool operator()(const K& a, const K& b) const { return b < a; }
};

template <class C>
struct is_descending : std::false_type {};
template <class K>
struct is_descending<std::greater<K>> : std::true_type {};
template <class K>
struct is_descending<CustomDesc<K>> : std::true_type {};
template <>
struct is_descending<ByMajorDesc> : std::true_type {};
template <>
struct is_descending<CaseKeyGreater> : std::true_type {};

}  // namespace dom
