// Allocators that record every node, for leak / double-free / wrong-allocator
// detection and for looking at the shape of a tree.
#pragma once
#include <new>
#include <unordered_map>
#include <vector>

#include "domains.hpp"

namespace trk {

struct Block {
  size_t bytes;
  size_t n;
  int type;      // see type_id
  int owner;     // allocator identity
};
struct Registry {
  std::unordered_map<void*, Block> live;
  uint64_t allocs = 0, frees = 0;
  int64_t fail_in = -1;
  bool tripped = false;
  uint64_t peak = 0;
  uint64_t from = 0;  // bit i: allocator i was asked for memory
  void reset() {
    live.clear();
    fail_in = -1;
    tripped = false;
  }
};
inline Registry reg;

inline int next_type = 0;
template <class T>
int type_id() {
  static int id = next_type++;
  return id;
}

inline void* do_alloc(size_t bytes, size_t align, size_t n, int type,
                      int owner) {
  if (reg.fail_in >= 0 && reg.fail_in-- == 0) {
    reg.tripped = true;
    throw std::bad_alloc();
  }
  void* p = ::operator new(bytes, std::align_val_t(align));
  memset(p, 0xA5, bytes);  // stale contents must not matter
  reg.live[p] = Block{bytes, n, type, owner};
  ++reg.allocs;
  reg.from |= uint64_t{1} << (owner & 63);
  if (reg.live.size() > reg.peak) reg.peak = reg.live.size();
  return p;
}
inline void do_free(void* p, size_t bytes, size_t align, size_t n, int type,
                    int owner) {
  auto it = reg.live.find(p);
  if (it == reg.live.end()) {
    static const char m[] =
        "{\"note\":\"block freed that is not allocated (double free?)\"}\n";
    if (write(1, m, sizeof m - 1)) {
    }
    std::abort();
  }
  if (it->second.n != n || it->second.bytes != bytes ||
      it->second.type != type || it->second.owner != owner) {
    static const char m[] =
        "{\"note\":\"block freed with a different size, type or allocator than "
        "it was allocated with\"}\n";
    if (write(1, m, sizeof m - 1)) {
    }
    std::abort();
  }
  reg.live.erase(it);
  ++reg.frees;
  memset(p, 0x5A, bytes);
  ::operator delete(p, std::align_val_t(align));
}

// Stateless allocator.
template <class T>
struct Track {
  using value_type = T;
  Track() = default;
  template <class U>
  Track(const Track<U>&) {}
  T* allocate(size_t n) {
    return static_cast<T*>(
        do_alloc(n * sizeof(T), alignof(T), n, type_id<T>(), 0));
  }
  void deallocate(T* p, size_t n) {
    do_free(p, n * sizeof(T), alignof(T), n, type_id<T>(), 0);
  }
  friend bool operator==(const Track&, const Track&) { return true; }
};

// Stateful allocator: identity = arena id; traits as template parameters.  With Fresh, a copy of
// a container uses another arena than the container.
template <class T, bool Pocma, bool Pocs, bool Fresh = false>
struct Arena {
  using value_type = T;
  using propagate_on_container_move_assignment = std::bool_constant<Pocma>;
  using propagate_on_container_swap = std::bool_constant<Pocs>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = Arena<U, Pocma, Pocs, Fresh>;
  };
  int id;
  explicit Arena(int i) : id(i) {}
  Arena() : id(0) {}
  template <class U>
  Arena(const Arena<U, Pocma, Pocs, Fresh>& o) : id(o.id) {}
  static int id_of_copy(int i) { return Fresh ? (i + 8) % 64 : i; }
  Arena select_on_container_copy_construction() const { return Arena(id_of_copy(id)); }
  T* allocate(size_t n) {
    return static_cast<T*>(
        do_alloc(n * sizeof(T), alignof(T), n, type_id<T>(), id));
  }
  void deallocate(T* p, size_t n) {
    do_free(p, n * sizeof(T), alignof(T), n, type_id<T>(), id);
  }
  template <class U>
  friend bool operator==(const Arena& a, const Arena<U, Pocma, Pocs, Fresh>& b) {
    return a.id == b.id;
  }
};

}  // namespace trk
