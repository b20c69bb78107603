#include <cstdio>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace faults {
bool armed = false, persistent = false, hit = false; uint64_t seen = 0, fail_at = never;
static constexpr size_t N = 1 << 16; static const volatile void* table[N]; static size_t count = 0, inserted = 0;
static const volatile void* const gone = reinterpret_cast<void*>(1);
static size_t slot(const volatile void* p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 48; }
static void on_malloc(const volatile void* p, size_t) { if (!armed || !p || inserted > N / 2) return; size_t i = slot(p); while (table[i] && table[i] != gone) i = (i + 1) % N; if (!table[i]) ++inserted; table[i] = p; ++count; }
static void on_free(const volatile void* p) { if (!count || !p) return; for (size_t i = slot(p); table[i]; i = (i + 1) % N) if (table[i] == p) { table[i] = gone; --count; return; } }
bool fails() { if (!armed) return false; const uint64_t k = seen++; if (k == fail_at || (persistent && k > fail_at)) { hit = true; return true; } return false; }
void arm(uint64_t at, bool persist) {
    static bool once = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true); (void)once;
    if (inserted) std::memset(table, 0, sizeof table);
    count = inserted = 0; seen = 0; hit = false; fail_at = at; persistent = persist; armed = true;
}
void rearm(uint64_t at, bool persist) { seen = 0; hit = false; fail_at = at; persistent = persist; armed = true; }
void disarm() { armed = false; }
size_t live() { return inserted > N / 2 ? 0 : count; }
void* f_malloc(size_t n) { return fails() ? nullptr : std::malloc(n); }
void* f_realloc(void* p, size_t n) { return fails() ? nullptr : std::realloc(p, n); }
void* f_calloc(size_t a, size_t b) { return fails() ? nullptr : std::calloc(a, b); }
}
static void* get(size_t n) { if (faults::fails()) throw std::bad_alloc(); if (void* p = std::malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
static void* get_nt(size_t n) noexcept { return faults::fails() ? nullptr : std::malloc(n ? n : 1); }
static void* get_al(size_t n, size_t a) { if (faults::fails()) throw std::bad_alloc(); void* p = nullptr; if (posix_memalign(&p, a < sizeof(void*) ? sizeof(void*) : a, n ? n : 1)) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get_nt(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get_nt(n); }
void* operator new(size_t n, std::align_val_t a) { return get_al(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return get_al(n, size_t(a)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { std::free(p); }
