// C04: predicates partition the kinds; wrong accesses, absent keys and bad indices throw.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
using namespace zt;

template <class P, class V> static void check_refusals(const V& v, const Node& n, const std::string& at) {
    const std::string c = at + " is " + model::show(n);
    const bool arrayish = n.k == Node::Arr || (n.k == Node::Blob && !PT<P>::span_blob);
    if (n.k != Node::Bool) MUST_THROW(v.asBool(), c);
    if (n.k != Node::Dbl) { MUST_THROW(v.asDouble(), c); MUST_THROW(v.asFloat(), c); }
    if (n.k != Node::Str) { MUST_THROW(v.asString(), c); MUST_THROW(v.asStringView(), c); }
    if (n.k != Node::Blob) MUST_THROW(v.asBlob(), c);
    check_int_accessors(v, n, at);
    if (!arrayish) { MUST_THROW(v.arraySize(), c); for (size_t i : {size_t(0), size_t(1), SIZE_MAX}) MUST_THROW(v[i], c); }
    if (n.k != Node::Map) {
        MUST_THROW(keys_of(v), c);
        for (const char* k : {"", "a", "dtype"}) {
            MUST_THROW(v[std::string_view(k)], c);
            bool has = false;
            if (!throws_deser([&] { has = v.contains(k); }, "contains")) REQUIRE(!has, c);
        }
    }
}
static std::string absent_key(Gen& g, const Node& n, const Dom& d) {
    std::set<std::string> have;
    for (auto& e : n.m) have.insert(e.first);
    std::string k;
    if (!n.m.empty() && g.chance(4, 5)) {
        k = n.m[g.below(n.m.size())].first;
        switch (g.below(8)) {
            case 0: if (!k.empty()) k.pop_back(); break;
            case 1: k += 'x'; break;
            case 2: k += '\0'; break;
            case 3: if (!k.empty()) k[g.below(k.size())] ^= char(1 << g.below(8)); break;
            case 4: if (!k.empty()) k.erase(k.begin()); break;
            case 5: if (!k.empty()) k.back() = char(k.back() + 1); break;
            case 6: k = k + k; break;
            default: if (k.size() > 1) std::swap(k[0], k[k.size() - 1]); break;
        }
    } else k = model::gen_key(g, d);
    while (have.count(k)) k += g.coin() ? 'q' : 'Q';
    return k;
}
template <class P, class V> static void walk(Gen& g, const V& v, const Node& n, const std::string& at, int& budget) {
    if (--budget < 0) return;
    check_predicates<P>(v, n, at);
    check_refusals<P>(v, n, at);
    if (n.k == Node::Arr) {
        const size_t c = n.a.size();
        REQUIRE(v.arraySize() == c);
        const size_t bad[] = {c, c + 1, c + size_t(g.below(1000)) + 2, c | (size_t(1) << 32), c + (size_t(1) << 32), SIZE_MAX, SIZE_MAX - c, size_t(1) << 63, c + 0x10000, c + 256};
        for (size_t i : bad) if (i >= c) MUST_THROW(v[i], at + " index " + std::to_string(i) + " of " + std::to_string(c));
        if (c) MUST_THROW(v[c + size_t(g.below(c))], at);
        for (size_t i : sample_indices(c)) walk<P>(g, v[i], n.a[i], "elem", budget);
    } else if (n.k == Node::Map) {
        // enumeration, membership and lookup agree
        auto ks = keys_of(v);
        REQUIRE(ks == key_order<P>(n), at);
        REQUIRE(!v.isArray());
        for (int i = 0; i < 4; ++i) {
            const std::string k = absent_key(g, n, PT<P>::dom());
            Exact e(std::span<const uint8_t>(reinterpret_cast<const uint8_t*>(k.data()), k.size()));
            std::string_view sv(reinterpret_cast<const char*>(e.data()), k.size());
            REQUIRE(!v.contains(sv), "absent key " + model::quote(k) + " in " + model::show(n));
            MUST_THROW(v[sv], "absent key " + model::quote(k) + " in " + model::show(n));
        }
        for (size_t i : sample_indices(n.m.size())) {
            auto& [k, x] = n.m[i];
            Exact e(std::span<const uint8_t>(reinterpret_cast<const uint8_t*>(k.data()), k.size()));
            std::string_view sv(reinterpret_cast<const char*>(e.data()), k.size());
            REQUIRE(v.contains(sv), "present key " + model::quote(k) + " in " + model::show(n));
            walk<P>(g, v[sv], x, "member", budget);
        }
    }
}
template <class P> static void tree(Gen& g) {
    const Node n = model::gen_tree(g, PT<P>::dom(), g.chance(1, 8));
    g.nontrivial(model::interesting(n) && model::count(n) > 1);
    g.describe([&] { return std::string(PT<P>::name) + " " + model::show(n); });
    Bytes b = encode<P>(n);
    // A self-delimiting message may be followed by others in the same buffer; those are no part of it.
    if (const std::string f = PT<P>::name; (f == "msgpack" || f == "cbor") && g.chance(1, 3)) {
        const Bytes next = g.coin() ? encode<P>(model::gen_tree(g, PT<P>::dom(), false)) : g.coin() ? b : Bytes(g.range(1, 40), uint8_t(g.below(24)));
        b.insert(b.end(), next.begin(), next.end());
    }
    auto h = hold<P>(b, g.below(4));
    int budget = 60;
    walk<P>(g, *h, n, "root", budget);
}
// Maps with many keys that are prefixes and neighbours of one another.
template <class P> static void keys(Gen& g) {
    const size_t n = g.pick({5, 3, 1}) == 0 ? g.range(1, 12) : g.range(10, 40);
    Node m; m.k = Node::Map;
    const std::string alphabet = PT<P>::dom().utf8 ? "ab" : (g.coin() ? std::string("ab") : std::string("\x7f\x80\xff\x01"));
    std::set<std::string> seen;
    for (size_t i = 0; i < n; ++i) {
        std::string k; const size_t l = g.below(7);
        for (size_t j = 0; j < l; ++j) k += alphabet[g.below(alphabet.size())];
        if (seen.insert(k).second) m.m.push_back({k, Node::uint(i)});
    }
    g.nontrivial(m.m.size() > 2);
    g.describe([&] { return std::string(PT<P>::name) + " " + model::show(m); });
    auto h = hold<P>(encode<P>(m), g.below(4));
    for (auto& [k, x] : m.m) { REQUIRE(h->contains(k), model::quote(k)); REQUIRE((*h)[std::string_view(k)].asUInt64() == x.u, model::quote(k)); }
    for (int i = 0; i < 12; ++i) {
        std::string k; const size_t l = g.below(7);
        for (size_t j = 0; j < l; ++j) k += alphabet[g.below(alphabet.size())];
        const bool in = seen.count(k) > 0;
        REQUIRE(h->contains(k) == in, model::quote(k));
        if (!in) MUST_THROW((*h)[std::string_view(k)], model::quote(k));
    }
    auto ks = keys_of(*h);
    REQUIRE(ks == key_order<P>(m));
}
#define PARTS(P, id) \
    PART(id "-tree", 12000, 1000000) { tree<P>(g); } \
    PART(id "-keys", 40000, 1000000) { keys<P>(g); }
PER_PROTOCOL(PARTS)
