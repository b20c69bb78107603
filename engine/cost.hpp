#pragma once
#include <cstdint>
namespace cost {
extern thread_local bool on;
extern thread_local uint64_t edges, moved, allocated;
struct Work { uint64_t edges = 0, moved = 0, allocated = 0; uint64_t total() const { return edges + moved / 8 + allocated / 8; } };
template <class F> Work measure(F&& f) {
    struct Off { ~Off() { on = false; } } off;
    edges = moved = allocated = 0; on = true; f(); on = false;
    return {edges, moved, allocated};
}
}
