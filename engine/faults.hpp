// Allocation faults and leak accounting. Forced into every translation unit of a check with -include,
// ahead of the libraries' headers, so that their own calls of malloc and realloc can fail as well.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>
namespace faults {
extern bool armed;         // allocations are counted and recorded
extern uint64_t seen;      // allocations asked for since arm()
extern uint64_t fail_at;   // the allocation that fails (from 0)
extern bool persistent;    // and all after it
extern bool hit;           // one has failed
bool fails();              // called for every allocation
void arm(uint64_t at, bool persist);
void rearm(uint64_t at, bool persist); // as arm(), but the blocks recorded so far stay recorded
void disarm();
size_t live();             // blocks allocated since arm() and not freed
void* f_malloc(size_t n);
void* f_realloc(void* p, size_t n);
void* f_calloc(size_t a, size_t b);
constexpr uint64_t never = ~0ull;
}
#include <string>
#include <vector>
#include <memory>
#include <functional>
#include <map>
#include <sstream>
#include <stdlib.h>
#define YYJSON_STUB_MALLOC ::faults::f_malloc
// msgpack-c grows its buffer with these (its header has no other use of them)
#include <assert.h>
#define realloc ::faults::f_realloc
#define calloc ::faults::f_calloc
#include <msgpack/sbuffer.h>
#undef realloc
#undef calloc
