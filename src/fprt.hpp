// A recording runtime for code compiled with -fsanitize=thread (the compiler inserts a
// call at every load and store; libtsan is not linked).  While recording, each access is
// attributed: own stack and thread-local storage are ignored, everything else must
// belong to the container (or pool) the operation is applied to.
#pragma once
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

#include <new>

#define FP_RAW __attribute__((no_sanitize("thread"), noinline))

namespace fp {

constexpr int kOwners = 4;
constexpr size_t kArena = size_t{64} << 20;
struct Owner {
  char* base;   // bump arena: container object, nodes, values, pools
  size_t used;
};
struct Range {
  uintptr_t lo, hi;
  int owner;
};
enum What { NOTHING, WRITE_BY_READER, WRITE_OUTSIDE, READ_OTHER, WRITE_OTHER };

struct State {
  volatile bool on;
  bool reader;          // the operation may not write what existed before it
  unsigned allowed;     // owners that may be touched
  unsigned writable;    // owners that may be written
  size_t mark[kOwners];  // where each arena ended when the operation began
  Owner own[kOwners];
  int current;          // who gets memory from operator new (-1: malloc)
  Range extra[256];     // regions mapped by pools
  int nextra;
  uintptr_t stack_lo, stack_hi, tls_lo, tls_hi;
  int what;
  uintptr_t bad, bad_size;
  uint64_t reads, writes, foreign_reads;
};
inline State g;

FP_RAW inline int find_tls(dl_phdr_info* i, size_t, void*) {
  if (i->dlpi_tls_data)
    for (int j = 0; j < i->dlpi_phnum; ++j)
      if (i->dlpi_phdr[j].p_type == PT_TLS) {
        auto lo = reinterpret_cast<uintptr_t>(i->dlpi_tls_data);
        uintptr_t hi = lo + i->dlpi_phdr[j].p_memsz;
        if (!g.tls_lo || lo < g.tls_lo) g.tls_lo = lo;
        if (hi > g.tls_hi) g.tls_hi = hi;
      }
  return 0;
}
FP_RAW inline void init() {
  pthread_attr_t a;
  void* p;
  size_t n;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &p, &n);
  pthread_attr_destroy(&a);
  g.stack_lo = reinterpret_cast<uintptr_t>(p);
  g.stack_hi = g.stack_lo + n;
  dl_iterate_phdr(find_tls, nullptr);
  for (int i = 0; i < kOwners; ++i) {
    g.own[i].base = static_cast<char*>(mmap(nullptr, kArena, PROT_READ | PROT_WRITE,
                                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                                            -1, 0));
    g.own[i].used = 0;
  }
  g.current = -1;
}
FP_RAW inline void* take(int o, size_t n, size_t align) {
  if (align < 64) align = 64;
  size_t at = (g.own[o].used + align - 1) & ~(align - 1);
  if (at + n > kArena) abort();
  g.own[o].used = at + n;
  return g.own[o].base + at;
}
FP_RAW inline bool in_arena(const void* p) {
  auto a = static_cast<const char*>(p);
  for (int i = 0; i < kOwners; ++i)
    if (a >= g.own[i].base && a < g.own[i].base + kArena) return true;
  return false;
}
FP_RAW inline void reset() {
  for (int i = 0; i < kOwners; ++i) g.own[i].used = 0;
  g.nextra = 0;
  g.current = -1;
}
FP_RAW inline int owner_of(uintptr_t a, size_t* off, bool* in_bump) {
  for (int i = 0; i < kOwners; ++i) {
    auto b = reinterpret_cast<uintptr_t>(g.own[i].base);
    if (a >= b && a < b + kArena) {
      *off = a - b;
      *in_bump = true;
      return i;
    }
  }
  for (int i = 0; i < g.nextra; ++i)
    if (a >= g.extra[i].lo && a < g.extra[i].hi) {
      *off = 0;
      return g.extra[i].owner;
    }
  return -1;
}
FP_RAW inline void report(int what, uintptr_t a, size_t n) {
  if (!g.what) {
    g.what = what;
    g.bad = a;
    g.bad_size = n;
  }
}
FP_RAW inline void access(uintptr_t a, size_t n, bool write, bool atomic) {
  if (!g.on) return;
  if (a >= g.stack_lo && a < g.stack_hi) return;
  if (a >= g.tls_lo && a < g.tls_hi) return;
  write ? ++g.writes : ++g.reads;
  size_t off = 0;
  bool in_bump = false;
  int o = owner_of(a, &off, &in_bump);
  if (o < 0) {
    if (write) {
      // (an atomic counter shared by everything does not race)
      if (!(atomic && !g.reader)) report(WRITE_OUTSIDE, a, n);
    } else {
      ++g.foreign_reads;
    }
    return;
  }
  if (!(g.allowed >> o & 1)) {
    report(write ? WRITE_OTHER : READ_OTHER, a, n);
    return;
  }
  if (!write) return;
  bool fresh = in_bump && off >= g.mark[o];
  if (!(g.writable >> o & 1) && !fresh) report(WRITE_BY_READER, a, n);
}
FP_RAW inline void start(bool reader, unsigned allowed, unsigned writable, int cur) {
  g.reader = reader;
  g.allowed = allowed;
  g.writable = writable;
  g.current = cur;
  g.what = NOTHING;
  for (int i = 0; i < kOwners; ++i) g.mark[i] = g.own[i].used;
  g.on = true;
}
FP_RAW inline int stop() {
  g.on = false;
  g.current = -1;
  return g.what;
}

}  // namespace fp

#define FP_ACCESS(n)                                                               \
  FP_RAW void __tsan_read##n(void* p) {                                            \
    fp::access(reinterpret_cast<uintptr_t>(p), n, false, false);                   \
  }                                                                                \
  FP_RAW void __tsan_write##n(void* p) {                                           \
    fp::access(reinterpret_cast<uintptr_t>(p), n, true, false);                    \
  }                                                                                \
  FP_RAW void __tsan_unaligned_read##n(void* p) {                                  \
    fp::access(reinterpret_cast<uintptr_t>(p), n, false, false);                   \
  }                                                                                \
  FP_RAW void __tsan_unaligned_write##n(void* p) {                                 \
    fp::access(reinterpret_cast<uintptr_t>(p), n, true, false);                    \
  }                                                                                \
  FP_RAW void __tsan_volatile_read##n(void* p) {                                   \
    fp::access(reinterpret_cast<uintptr_t>(p), n, false, false);                   \
  }                                                                                \
  FP_RAW void __tsan_volatile_write##n(void* p) {                                  \
    fp::access(reinterpret_cast<uintptr_t>(p), n, true, false);                    \
  }
#define FP_ATOMIC(bits, T)                                                         \
  FP_RAW T __tsan_atomic##bits##_load(const volatile T* p, int) {                  \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), false, true);            \
    return *p;                                                                     \
  }                                                                                \
  FP_RAW void __tsan_atomic##bits##_store(volatile T* p, T v, int) {               \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);             \
    *p = v;                                                                        \
  }                                                                                \
  FP_RAW T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) {               \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);             \
    T o = *p;                                                                      \
    *p = v;                                                                        \
    return o;                                                                      \
  }                                                                                \
  FP_RAW T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) {              \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);             \
    T o = *p;                                                                      \
    *p = static_cast<T>(o + v);                                                    \
    return o;                                                                      \
  }                                                                                \
  FP_RAW T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) {              \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);             \
    T o = *p;                                                                      \
    *p = static_cast<T>(o - v);                                                    \
    return o;                                                                      \
  }                                                                                \
  FP_RAW T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) {               \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);             \
    T o = *p;                                                                      \
    *p = static_cast<T>(o | v);                                                    \
    return o;                                                                      \
  }                                                                                \
  FP_RAW T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) {              \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);             \
    T o = *p;                                                                      \
    *p = static_cast<T>(o & v);                                                    \
    return o;                                                                      \
  }                                                                                \
  FP_RAW int __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, \
                                                           int, int) {             \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);             \
    if (*p == *e) {                                                                \
      *p = v;                                                                      \
      return 1;                                                                    \
    }                                                                              \
    *e = *p;                                                                       \
    return 0;                                                                      \
  }                                                                                \
  FP_RAW int __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v,   \
                                                         int, int) {               \
    fp::access(reinterpret_cast<uintptr_t>(p), sizeof(T), true, true);             \
    if (*p == *e) {                                                                \
      *p = v;                                                                      \
      return 1;                                                                    \
    }                                                                              \
    *e = *p;                                                                       \
    return 0;                                                                      \
  }
extern "C" {
FP_ACCESS(1)
FP_ACCESS(2)
FP_ACCESS(4)
FP_ACCESS(8)
FP_ACCESS(16)
FP_ATOMIC(8, uint8_t)
FP_ATOMIC(16, uint16_t)
FP_ATOMIC(32, uint32_t)
FP_ATOMIC(64, uint64_t)
FP_RAW void __tsan_init() {}
FP_RAW void __tsan_func_entry(void*) {}
FP_RAW void __tsan_func_exit(void*) {}
FP_RAW void __tsan_vptr_update(void* p, void*) {
  fp::access(reinterpret_cast<uintptr_t>(p), 8, true, false);
}
FP_RAW void __tsan_vptr_read(void* p) {
  fp::access(reinterpret_cast<uintptr_t>(p), 8, false, false);
}
FP_RAW void __tsan_read_range(void* p, unsigned long n) {
  fp::access(reinterpret_cast<uintptr_t>(p), n, false, false);
}
FP_RAW void __tsan_write_range(void* p, unsigned long n) {
  fp::access(reinterpret_cast<uintptr_t>(p), n, true, false);
}
FP_RAW void __tsan_atomic_thread_fence(int) {}
FP_RAW void __tsan_atomic_signal_fence(int) {}

void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
FP_RAW void* __wrap_memcpy(void* d, const void* s, size_t n) {
  if (n) {
    fp::access(reinterpret_cast<uintptr_t>(s), n, false, false);
    fp::access(reinterpret_cast<uintptr_t>(d), n, true, false);
  }
  return __real_memcpy(d, s, n);
}
FP_RAW void* __wrap_memmove(void* d, const void* s, size_t n) {
  if (n) {
    fp::access(reinterpret_cast<uintptr_t>(s), n, false, false);
    fp::access(reinterpret_cast<uintptr_t>(d), n, true, false);
  }
  return __real_memmove(d, s, n);
}
FP_RAW void* __wrap_memset(void* d, int c, size_t n) {
  if (n) fp::access(reinterpret_cast<uintptr_t>(d), n, true, false);
  return __real_memset(d, c, n);
}

void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_madvise(void*, size_t, int);
FP_RAW void* __wrap_mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
  if (fp::g.current < 0 || fd != -1) return __real_mmap(a, n, prot, flags, fd, off);
  if (flags & MAP_HUGETLB) {
    errno = ENOMEM;
    return MAP_FAILED;
  }
  void* p = __real_mmap(nullptr, n, prot, flags | MAP_NORESERVE, -1, 0);
  if (p != MAP_FAILED) {
    if (fp::g.nextra == 256) abort();
    auto lo = reinterpret_cast<uintptr_t>(p);
    fp::g.extra[fp::g.nextra++] = fp::Range{lo, lo + n, fp::g.current};
  }
  return p;
}
FP_RAW int __wrap_munmap(void* a, size_t n) {
  for (int i = 0; i < fp::g.nextra; ++i)
    if (fp::g.extra[i].lo == reinterpret_cast<uintptr_t>(a)) {
      // attribute the unmapping like a write
      fp::access(reinterpret_cast<uintptr_t>(a), n, true, false);
      fp::g.extra[i] = fp::g.extra[--fp::g.nextra];
      break;
    }
  return __real_munmap(a, n);
}
FP_RAW int __wrap_madvise(void* a, size_t n, int how) {
  if (fp::g.current < 0) return __real_madvise(a, n, how);
  return 0;
}
}

FP_RAW void* operator new(size_t n) {
  if (fp::g.current >= 0) return fp::take(fp::g.current, n, 16);
  void* p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
FP_RAW void* operator new(size_t n, std::align_val_t al) {
  if (fp::g.current >= 0) return fp::take(fp::g.current, n, static_cast<size_t>(al));
  void* p = aligned_alloc(static_cast<size_t>(al),
                          (n + static_cast<size_t>(al) - 1) & ~(static_cast<size_t>(al) - 1));
  if (!p) abort();
  return p;
}
FP_RAW void fp_free(void* p) {
  if (p && !fp::in_arena(p)) free(p);
}
FP_RAW void operator delete(void* p) noexcept { fp_free(p); }
FP_RAW void operator delete(void* p, size_t) noexcept { fp_free(p); }
FP_RAW void operator delete(void* p, std::align_val_t) noexcept { fp_free(p); }
FP_RAW void operator delete(void* p, size_t, std::align_val_t) noexcept { fp_free(p); }
