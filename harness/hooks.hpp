// The pool hooks: every block handed out must lie inside one chunk, overlap no
// other live block and come back once. Free blocks are poisoned (ASan) or
// made inaccessible (valgrind).
#pragma once
#ifdef SLEIPNIR_VERIF_HOOKS

#include <map>
#include <mutex>

#include "common.hpp"

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define VF_ASAN 1
#endif
#ifdef VF_VALGRIND
#include <valgrind/memcheck.h>
#endif

namespace vf {
struct PoolWatch {
  std::recursive_mutex mutex;
  std::map<uintptr_t, size_t> chunks, live;
  long taken = 0, returned = 0, reused = 0;
  bool poison = true;
  void erase_in(std::map<uintptr_t, size_t>& m, uintptr_t a, size_t n) {
    auto it = m.lower_bound(a);
    if (it != m.begin() && std::prev(it)->first + std::prev(it)->second > a) --it;
    while (it != m.end() && it->first < a + n) it = m.erase(it);
  }
};
inline PoolWatch& pool_watch() {
  static PoolWatch w;  // pools pass from thread to thread
  return w;
}
inline void hide(void* p, size_t n) {
#ifdef VF_ASAN
  __asan_poison_memory_region(p, n);
#endif
#ifdef VF_VALGRIND
  VALGRIND_MAKE_MEM_NOACCESS(p, n);
#endif
}
inline void reveal(void* p, size_t n) {
#ifdef VF_ASAN
  __asan_unpoison_memory_region(p, n);
#endif
#ifdef VF_VALGRIND
  VALGRIND_MAKE_MEM_UNDEFINED(p, n);
#endif
}
}  // namespace vf

extern "C" {
__attribute__((used)) void sleipnir_verif_chunk_added(void* p, size_t bytes) {
  auto& w = vf::pool_watch();
  std::scoped_lock lock{w.mutex};
  auto a = reinterpret_cast<uintptr_t>(p);
  // memory of a pool that is gone
  w.erase_in(w.chunks, a, bytes);
  w.erase_in(w.live, a, bytes);
  w.chunks[a] = bytes;
  if (w.poison) vf::hide(p, bytes);
}
__attribute__((used)) void sleipnir_verif_block_taken(void* p, size_t bytes) {
  auto& w = vf::pool_watch();
  std::scoped_lock lock{w.mutex};
  auto a = reinterpret_cast<uintptr_t>(p);
  ++w.taken;
  auto c = w.chunks.upper_bound(a);
  if (c == w.chunks.begin() || (--c, a + bytes > c->first + c->second)) {
    vf::R.fail("pool block outside", vf::fmt("a block of %zu bytes is handed out that lies outside all chunks", bytes));
  }
  auto l = w.live.lower_bound(a);
  if ((l != w.live.end() && l->first < a + bytes) || (l != w.live.begin() && std::prev(l)->first + std::prev(l)->second > a)) {
    vf::R.fail("pool block overlaps", vf::fmt("a block of %zu bytes is handed out that overlaps one still in use", bytes));
  }
  w.live[a] = bytes;
  if (w.poison) vf::reveal(p, bytes);
}
__attribute__((used)) void sleipnir_verif_block_returned(void* p, size_t bytes) {
  auto& w = vf::pool_watch();
  std::scoped_lock lock{w.mutex};
  auto it = w.live.find(reinterpret_cast<uintptr_t>(p));
  ++w.returned;
  if (it == w.live.end()) {
    vf::R.fail("pool block returned twice", vf::fmt("a block of %zu bytes is returned that is not in use", bytes));
  } else {
    if (it->second != bytes) vf::R.fail("pool block size", vf::fmt("a block of %zu bytes is returned as %zu bytes", it->second, bytes));
    w.live.erase(it);
  }
  if (w.poison) vf::hide(p, bytes);
}
}
#endif
