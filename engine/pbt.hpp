// A small property-based testing engine.
//
// Every random decision of a case is one "choice": a number drawn with an upper bound,
// 0 being the simplest alternative. A case is therefore a pure function of its choice
// sequence; the engine records the sequence (in shared memory, so that a crash, a
// sanitizer abort or a hang does not lose it), shrinks failing sequences by editing them,
// and replays them. Choices come from a seeded PRNG (search), from a stored sequence
// (shrinking, replay) or from bytes (coverage-guided fuzzing).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

struct Failure { std::string msg; };

struct Rng { // splitmix64
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

class Gen {
public:
    enum Mode { Random, Replay, Bytes };
    // ---- drawing ----
    uint64_t draw(uint64_t bound);                       // uniform in [0, bound]
    uint64_t u64() { return draw(~0ull); }
    uint64_t below(uint64_t n) { return n ? draw(n - 1) : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    bool coin() { return draw(1) != 0; }
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; } // 0 -> false
    // Index into weights; 0 is the simplest.
    size_t pick(std::initializer_list<unsigned> w) {
        uint64_t tot = 0; for (auto x : w) tot += x;
        uint64_t r = below(tot); size_t i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    template <class T> T one_of(std::initializer_list<T> xs) { return *(xs.begin() + below(xs.size())); }
    template <class C> auto& elem(C& c) { return c[below(c.size())]; }
    // n bytes: drawn one by one when few, otherwise expanded from one choice.
    void fill(uint8_t* p, size_t n);
    std::vector<uint8_t> bytes(size_t n) { std::vector<uint8_t> v(n); fill(v.data(), n); return v; }

    // ---- reporting ----
    void label(const std::string& l) { if (stats) ++(*stats)[l]; }
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    // Description of the generated case, computed only when needed.
    template <class F> void describe(F&& f) { if (want_desc) { desc += f(); desc += '\n'; if (on_desc) on_desc(desc); } }

    Mode mode = Random;
    Rng rng{0};
    const uint64_t* in = nullptr; size_t in_n = 0; size_t pos = 0;
    const uint8_t* b = nullptr; size_t b_n = 0; size_t b_pos = 0;
    uint64_t* rec = nullptr; volatile uint64_t* rec_n = nullptr; size_t rec_cap = 0;
    std::map<std::string, uint64_t>* stats = nullptr;
    bool want_desc = false;
    void (*on_desc)(const std::string&) = nullptr; // saves it where a crash does not lose it
    std::string desc;
    bool nontrivial_ = false;
};

struct Part {
    std::string name;
    void (*fn)(Gen&);
    uint64_t quick, thorough;
    bool terminates;   // a case that does not end is a violation
};
std::vector<Part>& parts();
struct Reg { Reg(const char* n, void (*f)(Gen&), uint64_t q, uint64_t t, bool term) { parts().push_back({n, f, q, t, term}); } };

[[noreturn]] inline void fail(std::string m) { throw Failure{std::move(m)}; }
std::string where(const char* file, int line);

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// PART("name", quick cases, thorough cases) { body with Gen& g }
#define PBT_PART_(id, nm, q, t, term)                                          \
    static void PBT_CAT(part_fn_, id)(::pbt::Gen & g);                         \
    static ::pbt::Reg PBT_CAT(part_reg_, id)(nm, PBT_CAT(part_fn_, id), q, t, term); \
    static void PBT_CAT(part_fn_, id)([[maybe_unused]] ::pbt::Gen & g)
#define PART(nm, q, t) PBT_PART_(__COUNTER__, nm, q, t, true)

#define REQUIRE(cond, ...)                                                     \
    do { if (!(cond)) ::pbt::fail(::pbt::where(__FILE__, __LINE__) + "`" #cond "` is false" __VA_OPT__(+ std::string(": ") + (__VA_ARGS__))); } while (0)
#define FAILMSG(...) ::pbt::fail(::pbt::where(__FILE__, __LINE__) + (__VA_ARGS__))

std::string hex(const void* p, size_t n, size_t max = 256);
inline std::string hex(std::string_view s, size_t max = 256) { return hex(s.data(), s.size(), max); }
inline std::string hex(const std::vector<uint8_t>& v, size_t max = 256) { return hex(v.data(), v.size(), max); }

} // namespace pbt
