#include "world.hpp"
#include <alloca.h>
#include <malloc.h>
#include <cstdlib>
#include <new>
extern "C" { void* __libc_malloc(size_t); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); }
namespace world {
thread_local int fill = -1;
static void put(void* p, size_t from, size_t n) {
    auto* b = static_cast<unsigned char*>(p);
    if (fill < 256) { for (size_t i = from; i < n; ++i) b[i] = static_cast<unsigned char>(fill); }
    else { uint64_t x = uint64_t(fill) * 0x9e3779b97f4a7c15ull; for (size_t i = from; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; b[i] = static_cast<unsigned char>(x >> 56); } }
    asm volatile("" : : "r"(b) : "memory");
}
__attribute__((noinline)) void paint(uint32_t v) { alignas(16) unsigned char a[160 * 1024]; const int was = fill; fill = int(v); put(a, 0, sizeof a); fill = was; }
}
extern "C" {
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p && world::fill >= 0) world::put(p, 0, malloc_usable_size(p)); return p; }
void free(void* p) { if (p && world::fill >= 0) world::put(p, 0, malloc_usable_size(p)); __libc_free(p); }
void* realloc(void* p, size_t n) {
    if (world::fill < 0 || !p) { if (!p) return malloc(n); return __libc_realloc(p, n); }
    const size_t had = malloc_usable_size(p);
    if (!n) { free(p); return nullptr; }
    void* q = malloc(n); if (!q) return nullptr; // always elsewhere
    std::memcpy(q, p, had < n ? had : n); free(p); return q;
}
}
namespace world {
static void here(const Circumstances& c, const std::function<void()>& f) {
    volatile char* pad = static_cast<volatile char*>(alloca(c.depth + 1)); pad[0] = 0;
    if (c.unwinding) {
        struct Probe { const Circumstances& c; const std::function<void()>& f; std::exception_ptr& e; ~Probe() { try { paint(c.fill); errno = int(c.fill % 100); fill = int(c.fill); f(); fill = -1; } catch (...) { fill = -1; e = std::current_exception(); } } };
        std::exception_ptr e;
        try { Probe p{c, f, e}; throw 1; } catch (int) {}
        if (e) std::rethrow_exception(e);
        return;
    }
    paint(c.fill); errno = int(c.fill % 100); fill = int(c.fill);
    try { f(); } catch (...) { fill = -1; throw; }
    fill = -1;
}
void run(const Circumstances& c, const std::function<void()>& f) {
    struct L { std::locale was; bool on; L(bool o) : on(o) { if (on) was = std::locale::global(std::locale(std::locale::classic(), new Punct)); } ~L() { if (on) std::locale::global(was); } } l(c.locale);
    if (!c.thread) { here(c, f); return; }
    std::exception_ptr e;
    std::thread t([&] { try { here(c, f); } catch (...) { e = std::current_exception(); } });
    t.join();
    if (e) std::rethrow_exception(e);
}
}
