// Stand-ins for mmap / munmap / madvise (link with -Wl,--wrap=mmap,--wrap=munmap,
// --wrap=madvise): every request made while `on` is recorded, its outcome comes
// from a schedule, and the mapping itself is ordinary anonymous memory (no
// hugepages are needed, none are ever requested from the kernel).
#pragma once
#include <sys/mman.h>

#include <vector>

#include "mc.hpp"

extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void*, size_t);
extern "C" int __real_madvise(void*, size_t, int);

namespace wm {

struct Region {
  char* base;
  size_t size;
  bool huge;
  bool live;
  uint64_t serial;
};
struct State {
  bool on = false;
  std::vector<Region> regions;
  // schedules, bit i: outcome of the i-th request (1 = fails)
  uint64_t huge_fail = 0;
  uint64_t regular_fail = 0;
  uint64_t fail_all_from = ~0ull;  // every request from this serial on fails
  uint64_t huge_requests = 0, regular_requests = 0, requests = 0, unmaps = 0;
  size_t limit = 1ull << 36;  // larger requests fail
  std::string error;          // first protocol error
  std::vector<uint64_t> regular_failures;  // numbers of the regular requests refused
  bool regular_fails_at(uint64_t from) const {
    for (uint64_t i : regular_failures)
      if (i >= from) return true;
    return false;
  }
  void reset() {
    for (auto& r : regions)
      if (r.live) __real_munmap(r.base, r.size);
    *this = State{};
  }
  size_t live() const {
    size_t n = 0;
    for (auto& r : regions) n += r.live;
    return n;
  }
  size_t live_bytes() const {
    size_t n = 0;
    for (auto& r : regions)
      if (r.live) n += r.size;
    return n;
  }
  // the live region that contains [p, p+n)
  const Region* find(const void* p, size_t n) const {
    auto a = static_cast<const char*>(p);
    for (auto& r : regions)
      if (r.live && a >= r.base && n <= r.size &&
          static_cast<size_t>(a - r.base) <= r.size - n)
        return &r;
    return nullptr;
  }
};
inline State st;

}  // namespace wm

extern "C" inline __attribute__((used)) void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd,
                               off_t off) {
  using wm::st;
  if (!st.on || fd != -1) return __real_mmap(a, n, prot, flags, fd, off);
  st.on = false;  // (the vector below may allocate)
  bool huge = flags & MAP_HUGETLB;
  ++st.requests;
  bool bad = st.requests - 1 >= st.fail_all_from || n > st.limit || n == 0;
  if (huge) {
    uint64_t i = st.huge_requests++;
    bad = bad || (st.huge_fail >> (i < 64 ? i : 63) & 1);
    if (n % (2u << 20)) bad = true;
  } else {
    uint64_t i = st.regular_requests++;
    bad = bad || (i < 64 && (st.regular_fail >> i & 1));
  }
  void* p = MAP_FAILED;
  if (!bad)
    p = __real_mmap(nullptr, n, prot,
                    (flags & ~(MAP_HUGETLB | (0x3f << 26))) | MAP_NORESERVE, -1, 0);
  if (p != MAP_FAILED && n >= 1ull << 30) __real_madvise(p, n, MADV_NOHUGEPAGE);
  if (p != MAP_FAILED)
    st.regions.push_back(
        wm::Region{static_cast<char*>(p), n, huge, true, st.requests});
  else if (!huge)
    st.regular_failures.push_back(st.regular_requests - 1);
  st.on = true;
  if (p == MAP_FAILED) errno = ENOMEM;
  return p;
}
extern "C" inline __attribute__((used)) int __wrap_munmap(void* a, size_t n) {
  using wm::st;
  if (!st.on) return __real_munmap(a, n);
  ++st.unmaps;
  for (auto& r : st.regions)
    if (r.live && r.base == a) {
      // munmap rounds the length up to whole pages
      if ((n + 4095) / 4096 != (r.size + 4095) / 4096) {
        if (st.error.empty())
          st.error = mc::fmt("a region of %zu bytes was unmapped with %zu bytes",
                             r.size, n);
        return -1;
      }
      r.live = false;
      return __real_munmap(a, r.size);
    }
  if (st.error.empty())
    st.error = "something was unmapped that is not a mapped region";
  return -1;
}
extern "C" inline __attribute__((used)) int __wrap_madvise(void* a, size_t n, int how) {
  if (!wm::st.on) return __real_madvise(a, n, how);
  return 0;  // advice only
}
