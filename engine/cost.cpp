// Counts the work of whatever runs while counting is on: control-flow edges (trace-pc-guard), bytes copied, compared or
// scanned by the C library's memory functions, and bytes allocated. Deterministic: no clocks.
#include <cerrno>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <new>
#include "cost.hpp"
#define QUIET __attribute__((no_sanitize("coverage")))
#define PLAIN __attribute__((no_sanitize("coverage"), no_builtin))
namespace cost {
thread_local bool on = false;
thread_local uint64_t edges = 0, moved = 0, allocated = 0;
QUIET static inline void add(size_t n) { if (on) moved += n; }
}
extern "C" {
QUIET void __sanitizer_cov_trace_pc_guard(uint32_t*) { if (cost::on) ++cost::edges; }
QUIET void __sanitizer_cov_trace_pc_guard_init(uint32_t*, uint32_t*) {}
PLAIN void* memcpy(void* d, const void* s, size_t n) { cost::add(n); void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
PLAIN void* memmove(void* d, const void* s, size_t n) {
    cost::add(n); void* r = d;
    if (uintptr_t(d) - uintptr_t(s) >= n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else { auto* a = static_cast<char*>(d) + n - 1; auto* b = static_cast<const char*>(s) + n - 1; asm volatile("std; rep movsb; cld" : "+D"(a), "+S"(b), "+c"(n) : : "memory"); }
    return r;
}
PLAIN void* memset(void* d, int c, size_t n) { cost::add(n); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
PLAIN int memcmp(const void* a, const void* b, size_t n) {
    auto* x = static_cast<const volatile unsigned char*>(a); auto* y = static_cast<const volatile unsigned char*>(b);
    size_t i = 0; int r = 0;
    while (i < n) { const int p = x[i], q = y[i]; ++i; if (p != q) { r = p - q; break; } }
    cost::add(i); return r;
}
PLAIN size_t strlen(const char* s) { auto* x = static_cast<const volatile char*>(s); size_t n = 0; while (x[n]) ++n; cost::add(n); return n; }
PLAIN int strcmp(const char* a, const char* b) { auto* x = reinterpret_cast<const volatile unsigned char*>(a); auto* y = reinterpret_cast<const volatile unsigned char*>(b); size_t i = 0; while (x[i] && x[i] == y[i]) ++i; cost::add(i + 1); return int(x[i]) - int(y[i]); }
PLAIN void* memchr(const void* s, int c, size_t n) { auto* x = static_cast<const volatile unsigned char*>(s); size_t i = 0; while (i < n && x[i] != static_cast<unsigned char>(c)) ++i; cost::add(i); return i < n ? const_cast<void*>(static_cast<const void*>(static_cast<const char*>(s) + i)) : nullptr; }
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t);
QUIET void* __wrap_malloc(size_t n) { if (cost::on) cost::allocated += n; return __real_malloc(n); }
QUIET void* __wrap_calloc(size_t k, size_t n) { if (cost::on) cost::allocated += k * n; return __real_calloc(k, n); }
QUIET void* __wrap_realloc(void* p, size_t n) { if (cost::on) cost::allocated += n; return __real_realloc(p, n); }
}
QUIET void* operator new(size_t n) { if (cost::on) cost::allocated += n; if (void* p = __real_malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
QUIET void* operator new[](size_t n) { return operator new(n); }
QUIET void operator delete(void* p) noexcept { std::free(p); }
QUIET void operator delete[](void* p) noexcept { std::free(p); }
QUIET void operator delete(void* p, size_t) noexcept { std::free(p); }
QUIET void operator delete[](void* p, size_t) noexcept { std::free(p); }
