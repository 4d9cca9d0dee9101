// Fresh heap memory holds the same byte pattern as automatic variables under -ftrivial-auto-var-init=pattern,
// so that storage nobody wrote to is recognised (symbolic side) and visible (native side).
// Link with -Wl,--wrap=malloc.
#include <cstdlib>
#include <cstring>
#include <new>
extern "C" void* __real_malloc(size_t);
extern "C" void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) memset(p, 0xFE, n); return p; }
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0xFE, n); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
