// The value model shared by the checks: a tree of the library's data model, its generator,
// its emission as writer events, and comparison of a reader against it.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <bit>
#include <cmath>
#include <cstring>
#include <limits>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace model {
using pbt::Gen;

struct Entry;
struct Node {
    enum K : uint8_t { Null, Bool, Int, UInt, Dbl, Str, Blob, Arr, Map };
    K k = Null;
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;              // Str and Blob bytes
    std::vector<Node> a;        // Arr
    std::vector<Entry> m;       // Map

    static Node null();
    static Node boolean(bool v);
    static Node sint(int64_t v);
    static Node uint(uint64_t v);
    static Node dbl(double v);
    static Node str(std::string v);
    static Node blob(std::string v);
    static Node arr(std::vector<Node> v);
    static Node map(std::vector<Entry> v);
    Node(); ~Node(); Node(const Node&); Node(Node&&) noexcept;
    Node& operator=(const Node&); Node& operator=(Node&&) noexcept;

    bool isint() const { return k == Int || k == UInt; }
    bool negative() const { return k == Int && i < 0; }
    uint64_t magnitude() const { return k == UInt ? u : static_cast<uint64_t>(i); } // of a non-negative integer
    std::span<const std::byte> bytes() const { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }
};
struct Entry { std::string first; Node second; };
inline Node::Node() = default;
inline Node::~Node() = default;
inline Node::Node(const Node&) = default;
inline Node::Node(Node&&) noexcept = default;
inline Node& Node::operator=(const Node&) = default;
inline Node& Node::operator=(Node&&) noexcept = default;
inline Node Node::null() { return {}; }
inline Node Node::boolean(bool v) { Node n; n.k = Bool; n.b = v; return n; }
inline Node Node::sint(int64_t v) { Node n; n.k = Int; n.i = v; return n; }
inline Node Node::uint(uint64_t v) { Node n; n.k = UInt; n.u = v; return n; }
inline Node Node::dbl(double v) { Node n; n.k = Dbl; n.d = v; return n; }
inline Node Node::str(std::string v) { Node n; n.k = Str; n.s = std::move(v); return n; }
inline Node Node::blob(std::string v) { Node n; n.k = Blob; n.s = std::move(v); return n; }
inline Node Node::arr(std::vector<Node> v) { Node n; n.k = Arr; n.a = std::move(v); return n; }
inline Node Node::map(std::vector<Entry> v) { Node n; n.k = Map; n.m = std::move(v); return n; }

inline bool same_int(const Node& x, const Node& y) {
    return x.negative() == y.negative() && x.magnitude() == y.magnitude();
}
// Equality of values: integers by numeric value, doubles by bits; maps in order unless unordered.
inline bool equal(const Node& x, const Node& y, bool ordered = true) {
    if (x.isint() && y.isint()) return same_int(x, y);
    if (x.k != y.k) return false;
    switch (x.k) {
        case Node::Null: return true;
        case Node::Bool: return x.b == y.b;
        case Node::Dbl: return std::bit_cast<uint64_t>(x.d) == std::bit_cast<uint64_t>(y.d);
        case Node::Str: case Node::Blob: return x.s == y.s;
        case Node::Arr:
            if (x.a.size() != y.a.size()) return false;
            for (size_t i = 0; i < x.a.size(); ++i) if (!equal(x.a[i], y.a[i], ordered)) return false;
            return true;
        case Node::Map: {
            if (x.m.size() != y.m.size()) return false;
            if (ordered) { for (size_t i = 0; i < x.m.size(); ++i) if (x.m[i].first != y.m[i].first || !equal(x.m[i].second, y.m[i].second, ordered)) return false; return true; }
            for (auto& [k, v] : x.m) { bool ok = false; for (auto& [k2, v2] : y.m) if (k == k2) { ok = equal(v, v2, ordered); break; } if (!ok) return false; }
            return true;
        }
        default: return false;
    }
}

inline std::string quote(const std::string& s, size_t max = 40) {
    std::string o = "\"";
    for (size_t i = 0; i < s.size() && i < max; ++i) { unsigned char c = s[i]; if (c >= 0x20 && c < 0x7f && c != '"' && c != '\\') o += char(c); else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); o += b; } }
    o += "\"";
    if (s.size() > max) o += "(len " + std::to_string(s.size()) + ")";
    return o;
}
inline void show(const Node& n, std::string& o, size_t max = 1500) {
    if (o.size() > max) { o += "..."; return; }
    switch (n.k) {
        case Node::Null: o += "null"; break;
        case Node::Bool: o += n.b ? "true" : "false"; break;
        case Node::Int: o += "i" + std::to_string(n.i); break;
        case Node::UInt: o += "u" + std::to_string(n.u); break;
        case Node::Dbl: { char b[64]; std::snprintf(b, sizeof b, "%.17g", n.d); o += std::string("f") + b; break; }
        case Node::Str: o += quote(n.s); break;
        case Node::Blob: o += "blob(" + std::to_string(n.s.size()) + ":" + pbt::hex(n.s, 16) + ")"; break;
        case Node::Arr: o += "["; for (size_t i = 0; i < n.a.size(); ++i) { if (i) o += ","; if (i > 20 || o.size() > max) { o += "...n=" + std::to_string(n.a.size()); break; } show(n.a[i], o, max); } o += "]"; break;
        case Node::Map: o += "{"; for (size_t i = 0; i < n.m.size(); ++i) { if (i) o += ","; if (i > 20 || o.size() > max) { o += "...n=" + std::to_string(n.m.size()); break; } o += quote(n.m[i].first) + ":"; show(n.m[i].second, o, max); } o += "}"; break;
    }
}
inline std::string show(const Node& n) { std::string o; show(n, o); return o; }
inline size_t count(const Node& n) { size_t c = 1; for (auto& x : n.a) c += count(x); for (auto& [k, x] : n.m) c += count(x); return c; }
inline size_t longest_key(const Node& n) { size_t c = 0; for (auto& x : n.a) c = std::max(c, longest_key(x)); for (auto& [k, x] : n.m) c = std::max({c, k.size(), longest_key(x)}); return c; }
inline size_t depth(const Node& n) { size_t c = 0; for (auto& x : n.a) c = std::max(c, depth(x)); for (auto& [k, x] : n.m) c = std::max(c, depth(x)); return c + 1; }
template <class F> void visit(const Node& n, F&& f) { f(n); for (auto& x : n.a) visit(x, f); for (auto& [k, x] : n.m) visit(x, f); }

// ------------------------------------------------------------------ generation
struct Dom {                 // what a protocol can carry
    bool utf8 = false;       // strings must be valid UTF-8
    bool nul_keys = true;    // keys may contain NUL
    bool finite = false;     // no NaN/Inf
    size_t max_key = 65535;
};
inline Dom operator&(const Dom& a, const Dom& b) { return {a.utf8 || b.utf8, a.nul_keys && b.nul_keys, a.finite || b.finite, std::min(a.max_key, b.max_key)}; }

inline void put_utf8(std::string& o, uint32_t c) {
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
}
inline size_t gen_len(Gen& g, bool big = true) {
    switch (g.pick({10, 6, 6, 2, big ? 1u : 0u})) {
        case 0: return g.below(6);
        case 1: return g.one_of<size_t>({11, 12, 13, 14, 15, 16, 17});
        case 2: return g.one_of<size_t>({0, 1, 7, 8, 9, 23, 24, 25, 30, 31, 32, 33, 63, 64, 65, 127, 128});
        case 3: return g.coin() ? g.range(34, 999) : g.one_of<size_t>({254, 255, 256, 257, 300, 511, 512, 1000});
        default: return g.pick({3, 1}) == 0 ? g.range(1000, 5000) : g.pick({4, 1}) == 0 ? g.one_of<size_t>({65534, 65535, 65536, 65537, 70000}) : g.range(5000, 140000);
    }
}
inline std::string gen_chars(Gen& g, size_t n, bool utf8, bool nul = true) {
    std::string s;
    const size_t style = g.pick({6, 3, 2, 2, 1});
    if (n > 24) { // expand from one choice
        pbt::Rng r{g.u64()};
        while (s.size() < n) {
            uint64_t x = r.next();
            switch (style) {
                case 0: s += char('a' + x % 26); break;
                case 1: s += char(' ' + x % 95); break;
                case 2: if (utf8) { static const uint32_t cps[] = {0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xe9, 0x20ac}; std::string t; put_utf8(t, cps[x % 8]); if (s.size() + t.size() <= n) s += t; else s += 'x'; } else s += char(x & 0xff); break;
                case 3: { static const char sp[] = "\"\\/\b\f\n\r\t\x01\x1f{}[]:,~b="; s += sp[x % (sizeof sp - 1)]; break; }
                default: s += nul && x % 3 == 0 ? '\0' : 'z'; break;
            }
        }
    } else {
        for (size_t i = 0; s.size() < n; ++i) {
            switch (style) {
                case 0: s += char('a' + g.below(26)); break;
                case 1: s += char(' ' + g.below(95)); break;
                case 2:
                    if (utf8) { std::string t; put_utf8(t, g.one_of<uint32_t>({0xe9, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff})); if (s.size() + t.size() <= n) s += t; else s += 'x'; }
                    else s += char(g.draw(255));
                    break;
                case 3: { static const char sp[] = "\"\\/\b\f\n\r\t\x01\x1f{}[]:,~b="; s += sp[g.below(sizeof sp - 1)]; break; }
                default: s += g.coin() && nul ? '\0' : 'z'; break;
            }
        }
    }
    if (!nul) for (auto& c : s) if (!c) c = 'n';
    if (!utf8 && !nul) for (auto& c : s) if (!c) c = 1;
    return s;
}
inline std::string gen_string(Gen& g, const Dom& d, bool big = true) { const size_t n = gen_len(g, big); return gen_chars(g, n, d.utf8); }
inline std::string gen_blob(Gen& g, bool big = true) { const size_t n = gen_len(g, big); auto v = g.bytes(n); return std::string(v.begin(), v.end()); }
inline std::string gen_key(Gen& g, const Dom& d) {
    switch (g.pick({8, 4, 3, 1})) {
        case 0: { std::string s; size_t n = g.below(4); for (size_t i = 0; i < n; ++i) s += char('a' + g.below(3)); return s; } // prefix-rich, includes ""
        case 1: { std::string s = gen_chars(g, g.range(1, 20), d.utf8, d.nul_keys); return s; }
        case 2: { std::string s(g.range(1, 18), 'k'); s.back() = d.utf8 ? char(g.range(1, 127)) : char(g.range(1, 255)); return s; }
        default: { size_t n = gen_len(g, g.chance(1, 20)); return gen_chars(g, std::min(n, d.max_key), d.utf8, d.nul_keys); }
    }
}
inline std::vector<std::string> gen_keys(Gen& g, const Dom& d, size_t n) {
    std::set<std::string> seen; std::vector<std::string> out;
    for (size_t i = 0; i < n; ++i) {
        std::string k = gen_key(g, d);
        size_t c = 0;
        while (!seen.insert(k).second) { if (k.size() + 6 > d.max_key) k.resize(d.max_key / 2); k += std::to_string(c++); }
        out.push_back(k);
    }
    return out;
}
inline uint64_t gen_bits(Gen& g) { // integers around interesting magnitudes
    switch (g.pick({5, 6, 3, 2})) {
        case 0: return g.below(20);
        case 1: { const uint64_t k = g.below(64); const uint64_t v = 1ull << k; return v + g.one_of<uint64_t>({0, ~0ull, 1, ~0ull - 1, 2}); }
        case 2: return g.one_of<uint64_t>({0, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 23, 24, 31, 32});
        default: return g.u64();
    }
}
inline int64_t gen_i64(Gen& g) { uint64_t b = gen_bits(g); return static_cast<int64_t>(g.coin() ? 0 - b : b); }
inline double gen_double(Gen& g, bool finite) {
    double v;
    switch (g.pick({4, 3, 3, 3, 2})) {
        case 0: v = double(int64_t(g.below(2000)) - 1000) / 8; break;
        case 1: v = g.one_of<double>({0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3, 3.14159265358979, 1e300, -1e-300, 16777216.0, 16777217.0, 4294967296.0, 9007199254740993.0, 1e15, 123456789012345680.0}); break;
        case 2: v = g.one_of<double>({std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), double(std::numeric_limits<float>::max()), double(std::numeric_limits<float>::min()), double(std::numeric_limits<float>::denorm_min()), std::numeric_limits<double>::epsilon(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), std::bit_cast<double>(0x7ff8000000000123ull), std::bit_cast<double>(0xfff8000000000000ull)}); break;
        case 3: v = std::bit_cast<double>(g.u64()); break;
        default: v = double(std::bit_cast<float>(uint32_t(g.u64()))); break;
    }
    if (std::isnan(v)) { // quiet only: signalling NaNs may be quieted by any floating-point move
        v = std::bit_cast<double>(std::bit_cast<uint64_t>(v) | 0x0008000000000000ull);
    }
    if (finite && !std::isfinite(v)) v = std::bit_cast<double>(std::bit_cast<uint64_t>(v) & 0x800fffffffffffffull); // a denormal or zero
    return v;
}
inline Node gen_scalar(Gen& g, const Dom& d, bool big = true) {
    switch (g.pick({2, 2, 4, 4, 4, 5, 4})) {
        case 0: return Node::null();
        case 1: return Node::boolean(g.coin());
        case 2: return Node::sint(gen_i64(g));
        case 3: return Node::uint(gen_bits(g));
        case 4: return Node::dbl(gen_double(g, d.finite));
        case 5: return Node::str(gen_string(g, d, big));
        default: return Node::blob(gen_blob(g, big));
    }
}
inline Node gen_node(Gen& g, const Dom& d, int depth, int& budget, bool big = true) {
    --budget;
    const size_t k = (depth <= 0 || budget <= 0) ? 0 : g.pick({5, 4, 4});
    if (k == 0) return gen_scalar(g, d, big && budget > 10);
    size_t n;
    switch (g.pick({12, 4, 1})) {
        case 0: n = g.below(6); break;
        case 1: n = g.one_of<size_t>({7, 8, 14, 15, 16, 17}); break;
        default: n = g.one_of<size_t>({23, 24, 31, 32, 33, 60}); break;
    }
    if (n > size_t(std::max(budget, 0))) n = size_t(std::max(budget, 0));
    if (k == 1) {
        Node r; r.k = Node::Arr;
        for (size_t i = 0; i < n; ++i) r.a.push_back(gen_node(g, d, depth - 1, budget, big));
        return r;
    }
    Node r; r.k = Node::Map;
    auto keys = gen_keys(g, d, n);
    for (auto& key : keys) r.m.emplace_back(key, gen_node(g, d, depth - 1, budget, big));
    return r;
}
// A value tree of any shape; big=false keeps strings and blobs small.
inline Node gen_tree(Gen& g, const Dom& d, bool big = true) {
    int budget = int(g.pick({6, 3, 1}) == 0 ? 12 : 60);
    const int depth = int(g.range(1, 6));
    return gen_node(g, d, depth, budget, big);
}
// A long chain of containers: [[{k:[...]}]]
inline Node gen_chain(Gen& g, const Dom& d, size_t len) {
    Node n = gen_scalar(g, d, false);
    pbt::Rng r{g.u64()};
    for (size_t i = 0; i < len; ++i) {
        uint64_t x = r.next();
        if (x & 1) { Node o; o.k = Node::Arr; if (x & 2) o.a.push_back(Node::sint(int64_t(x % 100))); o.a.push_back(std::move(n)); if (x & 4) o.a.push_back(Node::str("t")); n = std::move(o); }
        else { Node o; o.k = Node::Map; if (x & 2) o.m.emplace_back("a", Node::boolean(true)); o.m.emplace_back("k", std::move(n)); if (x & 4) o.m.emplace_back("z", Node::null()); n = std::move(o); }
    }
    return n;
}
inline Node cheap(uint64_t x, const Dom& d) {
    switch (x % 8) {
        case 0: return Node::null();
        case 1: return Node::boolean(x & 8);
        case 2: return Node::sint(int64_t(x >> (x % 60)));
        case 3: return Node::uint(x >> (x % 60));
        case 4: return Node::dbl(double(int64_t(x)) / 3);
        case 5: return Node::str(std::string(x % 20, char('a' + x % 26)));
        case 6: { (void)d; return Node::blob(std::string(x % 20, char(x >> 8))); }
        default: return Node::arr({Node::sint(int64_t(x % 1000))});
    }
}
// A container whose element count sits at an encoding boundary.
inline Node gen_wide(Gen& g, const Dom& d) {
    size_t n;
    switch (g.pick({6, 4, 1, 3, 1})) {
        case 3: n = g.range(34, 600); break;
        case 4: n = g.range(600, 3000); break;
        case 0: n = g.one_of<size_t>({14, 15, 16, 17, 18, 23, 24, 25, 30, 31, 32, 33}); break;
        case 1: n = g.one_of<size_t>({127, 128, 129, 254, 255, 256, 257, 258}); break;
        default: n = g.one_of<size_t>({65534, 65535, 65536, 65537}); break;
    }
    const bool map = g.coin();
    const uint64_t seed = g.u64();
    const bool homog = g.coin();
    pbt::Rng r{seed};
    Node o; o.k = map ? Node::Map : Node::Arr;
    for (size_t i = 0; i < n; ++i) {
        const uint64_t x = homog ? (r.next() & ~7ull) | (seed & 7) : r.next();
        if (map) o.m.emplace_back("k" + std::to_string(homog ? i : n - i), cheap(x, d));
        else o.a.push_back(cheap(x, d));
    }
    if (g.coin()) return Node::arr({Node::sint(1), std::move(o), Node::str("after")});
    return o;
}
// Many megabytes: offsets, lengths and counts beyond 16 and 24 bits.
inline Node gen_huge(Gen& g) {
    pbt::Rng r{g.u64()};
    auto text = [&](size_t n) { std::string s(n, 'h'); for (size_t i = 0; i < n; i += 4093) s[i] = char('a' + r.next() % 26); return s; };
    const size_t mb = size_t(1) << 20, big = g.one_of<size_t>({mb + 1, 4 * mb, 16 * mb - 1, 16 * mb + 3, 16 * mb + 3, 17 * mb, 17 * mb});
    switch (g.below(3)) {
        case 0: return Node::arr({Node::str("before"), Node::str(text(big)), Node::str("a string behind it"), Node::blob(text(100)), Node::map({{"k", Node::sint(-1)}})});
        case 1: return Node::map({{"a", Node::blob(text(big))}, {"b", Node::blob(text(33))}, {"c", Node::str(text(40))}, {"d", Node::arr({Node::boolean(true)})}});
        default: { // many elements, some with contents behind them
            Node many; many.k = Node::Arr; const size_t cnt = big / 16 + 5;
            for (size_t i = 0; i < cnt; ++i) many.a.push_back(i % 4099 == 0 ? Node::str(text(20)) : Node::uint(i));
            return Node::arr({std::move(many), Node::map({{"after", Node::arr({Node::str("the end of it")})}}), Node::sint(7)});
        }
    }
}
inline bool interesting(const Node& n) { return n.k == Node::Arr || n.k == Node::Map; }

// ------------------------------------------------------------------ emission
template <class W> void emit(const Node& n, W& w) {
    switch (n.k) {
        case Node::Null: w.null(); break;
        case Node::Bool: w.boolean(n.b); break;
        case Node::Int: w.int64(n.i); break;
        case Node::UInt: w.uint64(n.u); break;
        case Node::Dbl: w.double_(n.d); break;
        case Node::Str: { // an exactly sized copy, so that reading past the view is seen
            std::unique_ptr<char[]> p(new char[n.s.size()]);
            if (!n.s.empty()) std::memcpy(p.get(), n.s.data(), n.s.size());
            w.string(std::string_view(p.get(), n.s.size()));
            break;
        }
        case Node::Blob: {
            std::unique_ptr<std::byte[]> p(new std::byte[n.s.size()]);
            if (!n.s.empty()) std::memcpy(p.get(), n.s.data(), n.s.size());
            w.binary(std::span<const std::byte>(p.get(), n.s.size()));
            break;
        }
        case Node::Arr:
            w.begin_array(n.a.size());
            for (auto& x : n.a) emit(x, w);
            w.end_array();
            break;
        case Node::Map:
            w.begin_map(n.m.size());
            for (auto& [k, x] : n.m) {
                std::unique_ptr<char[]> p(new char[k.size()]);
                if (!k.empty()) std::memcpy(p.get(), k.data(), k.size());
                w.key(std::string_view(p.get(), k.size()));
                emit(x, w);
            }
            w.end_map();
            break;
    }
}
} // namespace model
