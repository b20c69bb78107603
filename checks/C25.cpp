// C25: reading is lazy: it looks only at what is read and allocates nothing for it.
#include "../engine/owners.hpp"
#include "../engine/tus.hpp"
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>
using namespace zt;

// Memory that must not be looked at. ASan watches whole granules of 8 bytes, so only those that lie entirely inside are taken.
struct Forbidden {
    std::vector<std::pair<const char*, size_t>> r;
    size_t bytes = 0;
    void add(const void* p, size_t n) {
        const auto lo = (reinterpret_cast<uintptr_t>(p) + 7) & ~uintptr_t(7), hi = (reinterpret_cast<uintptr_t>(p) + n) & ~uintptr_t(7);
        if (hi > lo) { r.push_back({reinterpret_cast<const char*>(lo), hi - lo}); bytes += hi - lo; }
    }
    void on() { for (auto [p, n] : r) ASAN_POISON_MEMORY_REGION(p, n); }
    void off() { for (auto [p, n] : r) ASAN_UNPOISON_MEMORY_REGION(p, n); }
    ~Forbidden() { off(); }
};

// A reader that borrows the message, through any of the constructors that do.
template <class P> typename P::Deserializer borrow(uint64_t how, const Exact& e) {
    using D = typename P::Deserializer;
    if constexpr (requires { D(static_cast<const std::byte*>(nullptr), size_t(0)); }) { if (how == 1) return D(reinterpret_cast<const std::byte*>(e.data()), e.n); }
    if constexpr (requires { D(static_cast<const uint8_t*>(nullptr), size_t(0)); }) { if (how == 2) return D(e.data(), e.n); }
    return D(e.span());
}
// ---- values with long strings and blobs, and the positions of their contents ----
static void fatten(Gen& g, Node& n, const Dom& d, int& budget) {
    for (auto& x : n.a) fatten(g, x, d, budget);
    for (auto& [k, x] : n.m) fatten(g, x, d, budget);
    if (n.k == Node::Arr || n.k == Node::Map || budget <= 0 || !g.coin()) return;
    --budget;
    const size_t len = g.range(32, 300);
    n = g.coin() ? Node::str(model::gen_chars(g, len, d.utf8)) : Node::blob(model::gen_chars(g, len, false));
}
struct Leaf { const Node* n; const char* p; size_t len; };
template <class V> void locate(const V& v, const Node& n, std::vector<Leaf>& out) {
    if (n.k == Node::Str && n.s.size() >= 24) { auto s = v.asStringView(); out.push_back({&n, s.data(), s.size()}); }
    if (n.k == Node::Blob && n.s.size() >= 24) { auto b = v.asBlob(); out.push_back({&n, reinterpret_cast<const char*>(b.data()), b.size()}); }
    for (size_t i = 0; i < n.a.size(); ++i) locate(v[i], n.a[i], out);
    for (auto& [k, x] : n.m) locate(v[std::string_view(k)], x, out);
}
// All that may be asked of a value without reading what is inside it.
template <class V> void glance(const V& v, const Node& n, const char* at) {
    REQUIRE(v.isArray() == (n.k == Node::Arr) && v.isMap() == (n.k == Node::Map) && v.isString() == (n.k == Node::Str) && v.isBlob() == (n.k == Node::Blob) && v.isNull() == (n.k == Node::Null) && v.isBool() == (n.k == Node::Bool) && v.isFloat() == (n.k == Node::Dbl), std::string(at) + model::show(n));
    (void)v.isInt(); (void)v.isUInt();
    if (n.k == Node::Arr) REQUIRE(v.arraySize() == n.a.size(), at);
    if (n.k == Node::Str) REQUIRE(v.asStringView().size() == n.s.size(), at); // where it is and how long: without looking at it
    if (n.k == Node::Blob) REQUIRE(v.asBlob().size() == n.s.size(), at);
}
// Walks everything; contents of long strings and blobs are read only if they are `target`.
template <class P, class V> void roam(Gen& g, const V& v, const Node& n, const Node* target, bool dive) {
    glance(v, n, "glancing at ");
    if (&n == target) { check_value<P>(v, n, "the value that is read"); return; }
    if (!dive) return;
    if (n.k == Node::Arr) for (size_t i : sample_indices(n.a.size())) {
        if (g.coin()) { auto e = v[i]; auto c = e; roam<P>(g, c, n.a[i], target, dive); } else roam<P>(g, v[i], n.a[i], target, dive);
    }
    if (n.k == Node::Map) {
        if (g.coin()) REQUIRE(keys_of(v) == key_order<P>(n), "keys");
        if (g.coin()) REQUIRE(!v.contains("\x01 no such key"), "contains a key that is not there");
        for (size_t i : sample_indices(n.m.size())) { const auto& [k, x] = n.m[i]; if (g.coin()) REQUIRE(v.contains(k), "key " + model::quote(k)); roam<P>(g, v[std::string_view(k)], x, target, dive); }
    }
}
template <class P> void contents(Gen& g, Node n) {
    int budget = 40; fatten(g, n, PT<P>::dom(), budget);
    const Bytes b = encode<P>(n); const Exact e(b, g.below(16));
    std::vector<Leaf> leaves;
    { const typename P::Deserializer d(e.span()); locate(d, n, leaves); }
    const Node* target = leaves.empty() || g.chance(1, 5) ? nullptr : leaves[g.below(leaves.size())].n;
    Forbidden f; for (auto& l : leaves) if (l.n != target) f.add(l.p, l.len);
    g.nontrivial(f.bytes > 0);
    g.describe([&] { return model::show(n) + (target ? "\nreading " + model::show(*target) : "\nreading none of the contents"); });
    const uint64_t how = g.below(3);
    f.on();
    const typename P::Deserializer d = borrow<P>(how, e);
    roam<P>(g, d, n, target, true);
    if (g.coin()) { const typename P::Deserializer c(d); roam<P>(g, c, n, target, true); }
    f.off();
}
// Opening a message and asking for the kind of its root looks at the root only.
template <class P> void opening(Gen& g, const Node& n) {
    const Bytes b = encode<P>(n); const Exact e(b, g.below(16)); const size_t z = b.size();
    Forbidden f; const std::string name = PT<P>::name;
    if (name == "zera") {
        auto u32 = [&](size_t at) { uint32_t v; std::memcpy(&v, b.data() + at, 4); return size_t(v); };
        const size_t root = 20 + u32(8);
        if (root > 20) f.add(e.data() + 20, root - 20);
        f.add(e.data() + root + 16, z - root - 16);
    } else if (name == "flex") { if (z > 32) f.add(e.data(), z - 32); }
    else if (z > 16) f.add(e.data() + 16, z - 16);
    g.nontrivial(f.bytes >= 64); g.describe([&] { return model::show(n); });
    const uint64_t how = g.below(3);
    f.on();
    typename P::Deserializer d = borrow<P>(how, e);
    auto ask = [&](const auto& v) {
        const bool a = v.isArray(), m = v.isMap(), s = v.isString(), bl = v.isBlob();
        REQUIRE(a == (n.k == Node::Arr) && m == (n.k == Node::Map) && s == (n.k == Node::Str) && bl == (n.k == Node::Blob), "the kind of the root");
        (void)v.isNull(); (void)v.isBool(); (void)v.isInt(); (void)v.isUInt(); (void)v.isFloat();
    };
    ask(d);
    typename P::Deserializer c(d); ask(c);
    typename P::Deserializer t(std::move(c)); ask(t);
    d = t; ask(d); d = std::move(t); ask(d);
    f.off();
}
// ---- allocations ----
static thread_local bool counting = false; static thread_local size_t allocations = 0;
static void on_malloc(const volatile void*, size_t) { if (counting) ++allocations; }
static void on_free(const volatile void*) {}
static const int installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
template <class P, class V> bool silent(const V& v, const Node& n) { // nothing here allocates but what the library does
    bool ok = !(v.isNull() && v.isBool()) && !(v.isInt() && v.isFloat()) && v.isUInt() + v.isBlob() < 3;
    switch (n.k) {
        case Node::Null: return ok && v.isNull();
        case Node::Bool: return ok && v.asBool() == n.b;
        case Node::Int: return ok && v.asInt64() == n.i;
        case Node::UInt: return ok && v.asUInt64() == n.u;
        case Node::Dbl: { const double d = v.asDouble(); return ok && (std::memcmp(&d, &n.d, 8) == 0 || d != d); }
        case Node::Str: return ok && v.asStringView() == n.s;
        case Node::Blob: { auto b = v.asBlob(); return ok && b.size() == n.s.size() && (b.empty() || std::memcmp(b.data(), n.s.data(), b.size()) == 0); }
        case Node::Arr: {
            ok = ok && v.arraySize() == n.a.size(); const size_t z = n.a.size();
            for (size_t i = 0; ok && i < z; i = z < 300 || i + 1 >= z ? i + 1 : std::min(z - 1, i + z / 100)) ok = silent<P>(v[i], n.a[i]);
            return ok;
        }
        case Node::Map: {
            size_t c = 0, len = 0, want = 0; const size_t z = n.m.size();
            for (std::string_view k : v.mapKeys()) ++c, len += k.size();
            for (auto& x : n.m) want += x.first.size();
            ok = ok && c == z && len == want && !v.contains("\x01 a key that is not there, and long enough not to fit into a string object");
            for (size_t i = 0; ok && i < z; i = z < 300 || i + 1 >= z ? i + 1 : std::min(z - 1, i + z / 20)) ok = v.contains(n.m[i].first) && silent<P>(v[std::string_view(n.m[i].first)], n.m[i].second);
            return ok;
        }
    }
    return ok;
}
template <class P> void allocating(Gen& g, const Node& n) {
    const Bytes b = encode<P>(n); const Exact e(b, g.below(16));
    g.nontrivial(model::interesting(n)); g.describe([&] { return model::show(n); });
    const uint64_t how = g.below(3); allocations = 0; counting = true; bool ok = false;
    {
        struct Off { ~Off() { counting = false; } } off;
        const typename P::Deserializer d = borrow<P>(how, e);
        ok = silent<P>(d, n);
    }
    REQUIRE(ok, "a value reads differently");
    REQUIRE(allocations == 0, std::to_string(allocations) + " allocations while reading");
}
#define M(P, nm) \
    PART("contents/" nm, 12000, 1200000) { contents<P>(g, model::gen_tree(g, PT<P>::dom(), false)); } \
    PART("contents-wide/" nm, 200, 8000) { Node n; n.k = g.coin() ? Node::Arr : Node::Map; const size_t z = g.range(2, 400); pbt::Rng r{g.u64()}; for (size_t i = 0; i < z; ++i) { Node x = r.next() % 3 ? model::cheap(r.next(), PT<P>::dom()) : Node::str(std::string(32 + r.next() % 200, char('a' + i % 26))); if (n.k == Node::Arr) n.a.push_back(std::move(x)); else n.m.push_back({"k" + std::to_string(i), std::move(x)}); } contents<P>(g, n); } \
    PART("opening/" nm, 8000, 800000) { opening<P>(g, model::gen_tree(g, PT<P>::dom(), g.chance(1, 10))); } \
    PART("opening-wide/" nm, 60, 4000) { opening<P>(g, model::gen_wide(g, PT<P>::dom())); }
ON_ZERA(M(zerialize::Zera, "zera"))
ON_FLEX(M(zerialize::Flex, "flex"))
ON_MSGPACK(M(zerialize::MsgPack, "msgpack"))
ON_CBOR(M(zerialize::CBOR, "cbor"))
#define A(P, nm) \
    PART("allocations/" nm, 20000, 2000000) { allocating<P>(g, model::gen_tree(g, PT<P>::dom(), g.chance(1, 10))); } \
    PART("allocations-chains/" nm, 2000, 100000) { allocating<P>(g, model::gen_chain(g, PT<P>::dom(), g.range(2, 100))); } \
    PART("allocations-wide/" nm, 40, 2000) { allocating<P>(g, model::gen_wide(g, PT<P>::dom())); }
ON_ZERA(A(zerialize::Zera, "zera"))
ON_FLEX(A(zerialize::Flex, "flex"))
ON_MSGPACK(A(zerialize::MsgPack, "msgpack"))

#if TU == 0 || TU == -1
// Zera: nothing inside containers that are not on the way to the value is looked at.
using Z = zerialize::Zera;
template <class V> void follow(const V& v, const Node& n, const std::vector<size_t>& path, size_t at, Gen& g) {
    glance(v, n, "on the way: ");
    if (at == path.size()) { check_value<Z>(v, n, "the value that is read"); return; }
    const size_t i = path[at];
    if (n.k == Node::Arr) follow(v[i], n.a[i], path, at + 1, g);
    else { if (g.coin()) REQUIRE(keys_of(v) == key_order<Z>(n), "keys"); if (g.coin()) REQUIRE(v.contains(n.m[i].first), "contains"); follow(v[std::string_view(n.m[i].first)], n.m[i].second, path, at + 1, g); }
}
static void path_only(Gen& g, Node n, Bytes b) {
    refzera::Msg m; auto o = refzera::open(b, m); REQUIRE(o.w == ref::Val, "the message is not valid");
    Owners w(b.size()); w.walk(o.v, n);
    std::vector<size_t> path; std::vector<uint32_t> on{0}; const Node* x = &n; uint32_t num = 0; // down to some value
    while ((x->k == Node::Arr || x->k == Node::Map) && x->a.size() + x->m.size() && !g.chance(1, 6)) {
        const size_t c = x->a.size() + x->m.size(), i = g.below(c); path.push_back(i);
        ++num; for (size_t j = 0; j < i; ++j) num = uint32_t(w.end[num]);
        on.push_back(num); x = x->k == Node::Arr ? &x->a[i] : &x->m[i].second;
    }
    const uint32_t target = on.back();
    // A byte is forbidden if it belongs to values off the path only, and is not part of a value reference in a container on the path.
    std::vector<bool> off(b.size(), false);
    auto forbid = [&](auto&& self, uint32_t v, const refzera::Ref& r, const Node& nd) -> void { // v: a container on the path
        std::vector<std::pair<uint32_t, std::pair<refzera::Ref, const Node*>>> kids; uint32_t c = v + 1;
        if (nd.k == Node::Arr) for (size_t i = 0; i < nd.a.size(); ++i) { kids.push_back({c, {refzera::Ref{r.m, size_t(r.f(0)) + 4 + 16 * i}, &nd.a[i]}}); c = uint32_t(w.end[c]); }
        else { size_t p = r.f(0) + 4; for (auto& [k, y] : nd.m) { kids.push_back({c, {refzera::Ref{r.m, p + 4 + k.size()}, &y}}); c = uint32_t(w.end[c]); p += 4 + k.size() + 16; } }
        for (auto& [k, rn] : kids) {
            if (std::find(on.begin(), on.end(), k) != on.end()) { if (k != target && (rn.second->k == Node::Arr || rn.second->k == Node::Map)) self(self, k, rn.first, *rn.second); continue; }
            for (size_t i = 20; i < b.size(); ++i) if (w.lo[i] != UINT32_MAX && w.lo[i] >= k && w.hi[i] < w.end[k]) off[i] = true;
            for (size_t i = 0; i < 16; ++i) off[m.env + rn.first.vr + i] = false;
        }
    };
    if (target != 0) forbid(forbid, 0, o.v, n);
    const Exact e(b, g.below(16));
    Forbidden f; for (size_t i = 0; i < b.size();) { if (!off[i]) { ++i; continue; } size_t j = i; while (j < b.size() && off[j]) ++j; f.add(e.data() + i, j - i); i = j; }
    g.nontrivial(f.bytes > 0);
    g.describe([&] { return model::show(n) + "\nreading value number " + std::to_string(target); });
    const uint64_t how = g.below(3);
    f.on();
    const Z::Deserializer d = borrow<Z>(how, e);
    for (int k = 0; k < 2; ++k) follow(d, n, path, 0, g);
    f.off();
}
static Node bushy(Gen& g) {
    Node n; n.k = g.coin() ? Node::Arr : Node::Map;
    for (size_t i = 0, k = g.range(2, 6); i < k; ++i) { Node x = model::gen_tree(g, Dom{}, false); int budget = 4; fatten(g, x, {}, budget); if (n.k == Node::Arr) n.a.push_back(std::move(x)); else n.m.push_back({"key" + std::to_string(i), std::move(x)}); }
    return n;
}
PART("path/zera", 30000, 3000000) { const Node n = bushy(g); path_only(g, n, encode<Z>(n)); }
PART("path-foreign/zera", 20000, 2000000) { const Node n = bushy(g); refzera::Layout l{g}; const Bytes b = l.message(n); path_only(g, n, b); }
#endif
