// The other ways of obtaining heap memory, for harnesses that wrap malloc/free/posix_memalign and replace operator new (--wrap in jobs.py).
// The including file defines HEAP_FAILS (an expression: is this request to fail?), HEAP_GOT(p, n) and HEAP_DROP(p).
#pragma once
#include <cerrno>
#include <cstdlib>
#include <malloc.h>
#include <new>
extern "C" {
void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t); void * __real_aligned_alloc(size_t, size_t); void * __real_memalign(size_t, size_t); void * __real_valloc(size_t);
static inline bool heap_fail_() { bool f = HEAP_FAILS; if (f) errno = ENOMEM; return f; }
void * __wrap_calloc(size_t k, size_t n) { if (heap_fail_()) return nullptr; void * p = __real_calloc(k, n); if (p) HEAP_GOT(p, k * n); return p; }
void * __wrap_aligned_alloc(size_t a, size_t n) { if (heap_fail_()) return nullptr; void * p = __real_aligned_alloc(a, n); if (p) HEAP_GOT(p, n); return p; }
void * __wrap_memalign(size_t a, size_t n) { if (heap_fail_()) return nullptr; void * p = __real_memalign(a, n); if (p) HEAP_GOT(p, n); return p; }
void * __wrap_valloc(size_t n) { if (heap_fail_()) return nullptr; void * p = __real_valloc(n); if (p) HEAP_GOT(p, n); return p; }
void * __wrap_realloc(void * o, size_t n) {
    if (heap_fail_()) return nullptr;
    void * p = __real_realloc(o, n);
    if (p || !n) { if (o) HEAP_DROP(o); if (p) HEAP_GOT(p, n); }
    return p;
}
}
void * operator new(size_t n, std::nothrow_t const &) noexcept { try { return operator new(n); } catch (std::bad_alloc const &) { return nullptr; } }
void * operator new[](size_t n, std::nothrow_t const &) noexcept { try { return operator new(n); } catch (std::bad_alloc const &) { return nullptr; } }
void operator delete(void * p, std::nothrow_t const &) noexcept { operator delete(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { operator delete(p); }
#ifdef __cpp_aligned_new
void * operator new(size_t n, std::align_val_t a) { if (HEAP_NEW_FAILS) throw std::bad_alloc(); size_t al = size_t(a); void * p = __real_aligned_alloc(al, (n + al - 1) / al * al); if (!p) throw std::bad_alloc(); HEAP_GOT(p, n); return p; }
void * operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void * operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { try { return operator new(n, a); } catch (std::bad_alloc const &) { return nullptr; } }
void operator delete(void * p, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void * p, std::align_val_t) noexcept { operator delete(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { operator delete(p); }
#endif
