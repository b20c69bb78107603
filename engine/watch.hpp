// Sees single blocks being freed, through the sanitizer's allocation hooks.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace watch {
inline const volatile void* slots[4096]; inline size_t n = 0; inline bool overflow = false;
inline void on_free(const volatile void* p) { for (size_t i = 0; i < n; ++i) if (slots[i] == p) { slots[i] = slots[--n]; return; } }
inline size_t ceiling = SIZE_MAX;
inline void on_malloc(const volatile void*, size_t size) { if (size > ceiling) abort(); }
inline void install() { static bool done = (__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free), true); (void)done; }
// While this lives, a block of more than `m` bytes ends the process: for calls that may not end.
struct Ceiling { size_t was = ceiling; explicit Ceiling(size_t m) { install(); ceiling = m; } ~Ceiling() { ceiling = was; } };
// `p` must be freed before the next call of pending() that is expected to be 0.
inline void add(const void* p) { install(); if (n < 4096) slots[n++] = p; else overflow = true; }
inline void reset() { n = 0; overflow = false; }
inline size_t pending() { return overflow ? 0 : n; }
inline bool is_pending(const void* p) { if (overflow) return true; for (size_t i = 0; i < n; ++i) if (slots[i] == p) return true; return false; }
} // namespace watch
