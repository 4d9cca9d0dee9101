#include "conc_rt.hpp"
#include <atomic>
#include <chrono>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <thread>
namespace {
struct Th { int slot = -1; rt::Trace* out = nullptr; int count = 0; bool pending = false, inside = false; long last = -1; };
thread_local Th th;
std::map<std::pair<int, int>, int>* order = nullptr; std::atomic<int> turn{0}; std::atomic<bool> div_{false};
// blocks a recorded call allocates: never reused, so an address names one block
const size_t ARENA = 48u << 20; alignas(64) char arena[2][ARENA]; std::atomic<size_t> used[2];
void settle() {          // the previous write is done now: note what it wrote
  if (th.last >= 0 && th.out) { auto& e = th.out->ev[th.last]; e.val.assign((const char*)e.addr, e.size); }
  th.last = -1;
}
void hook(const void* p, size_t n, int kind) {
  if (th.slot < 0 || th.inside || n == 0) return;
  th.inside = true; int idx = th.count++;
  if (order) {
    if (th.pending) { th.pending = false; turn++; }
    auto i = order->find({th.slot, idx});
    if (i != order->end()) {
      auto t0 = std::chrono::steady_clock::now();
      while (turn.load() != i->second && !div_) { std::this_thread::yield(); if (std::chrono::steady_clock::now() - t0 > std::chrono::seconds(5)) div_ = true; }
      th.pending = true;
    }
  } else if (th.out) {
    settle();
    if (th.out->ev.size() > 400000) th.out->complete = false;
    else {
      rt::Ev e; e.addr = (uint64_t)p; e.size = (uint32_t)n; e.kind = (uint8_t)kind;
      if (kind == rt::READ) e.val.assign((const char*)p, n);
      th.out->ev.push_back(std::move(e)); if (kind == rt::WRITE || kind == rt::ATOMIC) th.last = (long)th.out->ev.size() - 1;
    }
  }
  th.inside = false;
}
void* take(size_t n) {
  int s = th.slot; size_t o = used[s].fetch_add((n + 63) & ~size_t(63)); if (o + n > ARENA) abort(); memset(arena[s] + o, 0xA5, n); return arena[s] + o;
}
bool mine(void* p) { return p >= (void*)arena && p < (void*)(arena + 2); }
}
namespace rt {
void begin(int slot, Trace* out) { th.slot = slot; th.out = out; th.count = 0; th.pending = false; th.last = -1; }
void end() { th.inside = true; if (order && th.pending) { th.pending = false; turn++; } settle(); th.slot = -1; th.out = nullptr; th.inside = false; }
void schedule(const std::vector<std::pair<int, int>>& o) { order = new std::map<std::pair<int, int>, int>; int k = 0; for (auto& x : o) (*order)[x] = k++; turn = 0; div_ = false; }
bool diverged() { return div_; }
}
extern "C" {
void* __real_malloc(size_t); void __real_free(void*); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real___cxa_guard_acquire(uint64_t*); void __real___cxa_guard_release(uint64_t*);
void* __wrap_malloc(size_t n) { return th.slot >= 0 && !th.inside ? take(n) : __real_malloc(n); }
void __wrap_free(void* p) { if (!mine(p)) { if (th.slot < 0 || th.inside) __real_free(p); } }
void* __wrap_calloc(size_t a, size_t b) { if (th.slot < 0 || th.inside) return __real_calloc(a, b); void* p = take(a * b); __real_memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n) { if (th.slot < 0 || th.inside) return __real_realloc(p, n); void* q = take(n); if (p) __real_memcpy(q, p, n); return q; }
void* __wrap_memcpy(void* d, const void* s, size_t n) { hook(s, n, rt::READ); hook(d, n, rt::WRITE); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { hook(s, n, rt::READ); hook(d, n, rt::WRITE); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { hook(d, n, rt::WRITE); return __real_memset(d, c, n); }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { hook(m, 1, rt::LOCK); return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { hook(m, 1, rt::UNLOCK); return __real_pthread_mutex_unlock(m); }
int __wrap___cxa_guard_acquire(uint64_t* g) { hook(g, 8, rt::ATOMIC); return __real___cxa_guard_acquire(g); }
void __wrap___cxa_guard_release(uint64_t* g) { hook(g, 8, rt::ATOMIC); __real___cxa_guard_release(g); }
#define RW(n) void __tsan_read##n(void* p) { hook(p, n, rt::READ); } void __tsan_write##n(void* p) { hook(p, n, rt::WRITE); } void __tsan_unaligned_read##n(void* p) { hook(p, n, rt::READ); } void __tsan_unaligned_write##n(void* p) { hook(p, n, rt::WRITE); } \
  void __tsan_volatile_read##n(void* p) { hook(p, n, rt::READ); } void __tsan_volatile_write##n(void* p) { hook(p, n, rt::WRITE); } void __tsan_unaligned_volatile_read##n(void* p) { hook(p, n, rt::READ); } void __tsan_unaligned_volatile_write##n(void* p) { hook(p, n, rt::WRITE); } \
  void __tsan_read##n##_pc(void* p, void*) { hook(p, n, rt::READ); } void __tsan_write##n##_pc(void* p, void*) { hook(p, n, rt::WRITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { hook(p, n, rt::READ); }
void __tsan_write_range(void* p, size_t n) { hook(p, n, rt::WRITE); }
void __tsan_vptr_update(void** p, void*) { hook(p, 8, rt::WRITE); }
void __tsan_vptr_read(void** p) { hook(p, 8, rt::READ); }
void __tsan_func_entry(void*) {} void __tsan_func_exit(void) {} void __tsan_init(void) {}
#define AT(T, n) T __tsan_atomic##n##_load(const volatile T* p, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } void __tsan_atomic##n##_store(volatile T* p, T v, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T c, T v, int, int) { hook((const void*)p, sizeof(T), rt::ATOMIC); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
