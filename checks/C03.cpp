// C03: integer accessors return the exact number or throw; doubles are bit-exact.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
using namespace zt;

template <class V> static void check_number(const V& v, const Node& n, const std::string& at) {
    check_int_accessors(v, n, at);
    if (n.k == Node::Dbl) {
        REQUIRE(std::bit_cast<uint64_t>(v.asDouble()) == std::bit_cast<uint64_t>(n.d), at + " is " + model::show(n));
        REQUIRE(std::bit_cast<uint32_t>(v.asFloat()) == std::bit_cast<uint32_t>(static_cast<float>(n.d)), at + " is " + model::show(n));
    } else {
        MUST_THROW(v.asDouble(), at + " is " + model::show(n));
        MUST_THROW(v.asFloat(), at + " is " + model::show(n));
    }
}
static Node gen_number(Gen& g, const Dom& d) {
    switch (g.pick({5, 5, 3, 1})) {
        case 0: return Node::sint(model::gen_i64(g));
        case 1: return Node::uint(model::gen_bits(g));
        case 2: return Node::dbl(g.coin() ? model::gen_double(g, d.finite) : double(model::gen_i64(g)));
        default: switch (g.below(4)) { case 0: return Node::boolean(g.coin()); case 1: return Node::null(); case 2: return Node::str(g.coin() ? "1" : ""); default: return Node::blob(g.coin() ? std::string(8, '\1') : ""); }
    }
}
template <class P> static void with_reader(Gen& g, const Node& n, const Bytes& root) {
    auto h = hold<P>(root, g.below(4));
    check_number(*h, n, std::string(PT<P>::name) + " root");
}
// A number as root, in an array, and under a key, read by every accessor.
template <class P> static void number(Gen& g) {
    const Node n = gen_number(g, PT<P>::dom());
    g.nontrivial(n.isint() || n.k == Node::Dbl);
    g.describe([&] { return std::string(PT<P>::name) + " " + model::show(n); });
    g.label(n.k == Node::Int ? (n.i < 0 ? "negative" : "signed") : n.k == Node::UInt ? "unsigned" : n.k == Node::Dbl ? "double" : "other");
    const size_t where = g.below(3), route = g.below(4);
    if (where == 0) { auto h = hold<P>(encode<P>(n), route); check_number(*h, n, "root"); }
    else if (where == 1) {
        const size_t before = g.below(4);
        Node a; a.k = Node::Arr;
        for (size_t i = 0; i < before; ++i) a.a.push_back(gen_number(g, PT<P>::dom()));
        a.a.push_back(n);
        auto h = hold<P>(encode<P>(a), route);
        for (size_t i = 0; i <= before; ++i) check_number((*h)[i], a.a[i], "element");
    } else {
        Node m; m.k = Node::Map;
        m.m.push_back({"a", gen_number(g, PT<P>::dom())});
        m.m.push_back({"n", n});
        auto h = hold<P>(encode<P>(m), route);
        check_number((*h)["n"], n, "member"); check_number((*h)["a"], m.m[0].second, "member");
    }
    if (n.k != Node::Null && g.chance(1, 4)) {
        auto h = hold<P>(encode<P>(n), route);
        auto z = zerialize::translate<zerialize::Zera>(*h); check_number(z, n, "translated to zera");
        auto m = zerialize::translate<zerialize::MsgPack>(*h); check_number(m, n, "translated to msgpack");
        auto f = zerialize::translate<zerialize::Flex>(*h); check_number(f, n, "translated to flex");
        g.label("translated");
    }
}
// Homogeneous arrays of integers: a writer that packs them by width must keep every one exact.
template <class P> static void packed(Gen& g) {
    const size_t n = g.range(1, 12); const bool sgn = g.coin();
    const unsigned w = unsigned(g.range(1, 64));
    Node a; a.k = Node::Arr;
    for (size_t i = 0; i < n; ++i) {
        const uint64_t b = model::gen_bits(g) & (w == 64 ? ~0ull : (1ull << w) - 1);
        if (sgn) a.a.push_back(Node::sint(int64_t(g.coin() ? 0 - b : b))); else a.a.push_back(Node::uint(b));
    }
    if (g.chance(1, 6)) a.a.push_back(Node::dbl(model::gen_double(g, PT<P>::dom().finite)));
    g.nontrivial();
    g.describe([&] { return std::string(PT<P>::name) + " " + model::show(a); });
    auto h = hold<P>(encode<P>(a), g.below(4));
    for (size_t i = 0; i < a.a.size(); ++i) check_number((*h)[i], a.a[i], "element " + std::to_string(i));
}
// Consecutive integers, 256 at a time, around zero and around powers of two.
template <class P> static void block(Gen& g) {
    const bool sgn = g.coin();
    uint64_t start;
    switch (g.pick({4, 3})) {
        case 0: start = uint64_t(int64_t(g.below(1024)) - 512) * 256; break;
        default: start = (1ull << g.range(6, 63)) - 128; if (g.coin()) start = 0 - start - 256; break;
    }
    g.nontrivial();
    g.describe([&] { return std::string(PT<P>::name) + (sgn ? " signed" : " unsigned") + " block at " + std::to_string(int64_t(start)); });
    Node a; a.k = Node::Arr;
    for (uint64_t i = 0; i < 256; ++i) a.a.push_back(sgn ? Node::sint(int64_t(start + i)) : Node::uint(start + i));
    const bool one = g.coin(); // element by element, or as one array
    if (one) { for (auto& x : a.a) { auto h = hold<P>(encode<P>(x)); check_number(*h, x, "root"); } }
    else { auto h = hold<P>(encode<P>(a)); for (size_t i = 0; i < 256; ++i) check_number((*h)[i], a.a[i], "element"); }
}
#define PARTS(P, id) \
    PART(id "-number", 60000, 5000000) { number<P>(g); } \
    PART(id "-packed", 20000, 2000000) { packed<P>(g); } \
    PART(id "-block", 400, 40000) { block<P>(g); }
PER_PROTOCOL(PARTS)

// Every wire width an integer may be stored in.
static void be(Bytes& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back(uint8_t(v >> (8 * i))); }
ON_MSGPACK(PART("msgpack-widths", 60000, 4000000) {
    Bytes b; Node n; const uint64_t v = model::gen_bits(g);
    switch (g.below(10)) {
        case 0: b = {uint8_t(v & 0x7f)}; n = Node::uint(v & 0x7f); break;
        case 1: b = {uint8_t(0xe0 | (v & 31))}; n = Node::sint(int8_t(0xe0 | (v & 31))); break;
        case 2: b = {0xcc}; be(b, v, 1); n = Node::uint(uint8_t(v)); break;
        case 3: b = {0xcd}; be(b, v, 2); n = Node::uint(uint16_t(v)); break;
        case 4: b = {0xce}; be(b, v, 4); n = Node::uint(uint32_t(v)); break;
        case 5: b = {0xcf}; be(b, v, 8); n = Node::uint(v); break;
        case 6: b = {0xd0}; be(b, v, 1); n = Node::sint(int8_t(v)); break;
        case 7: b = {0xd1}; be(b, v, 2); n = Node::sint(int16_t(v)); break;
        case 8: b = {0xd2}; be(b, v, 4); n = Node::sint(int32_t(v)); break;
        default: b = {0xd3}; be(b, v, 8); n = Node::sint(int64_t(v)); break;
    }
    g.nontrivial();
    g.describe([&] { return "bytes " + pbt::hex(b) + " = " + model::show(n); });
    with_reader<zerialize::MsgPack>(g, n, b);
})
ON_CBOR(PART("cbor-widths", 60000, 4000000) {
    Bytes b; Node n; uint64_t v = model::gen_bits(g); const bool neg = g.coin(); const uint8_t mt = neg ? 0x20 : 0;
    switch (g.below(5)) {
        case 0: v %= 24; b = {uint8_t(mt | v)}; break;
        case 1: v = uint8_t(v); b = {uint8_t(mt | 24)}; be(b, v, 1); break;
        case 2: v = uint16_t(v); b = {uint8_t(mt | 25)}; be(b, v, 2); break;
        case 3: v = uint32_t(v); b = {uint8_t(mt | 26)}; be(b, v, 4); break;
        default: if (neg) v &= INT64_MAX; b = {uint8_t(mt | 27)}; be(b, v, 8); break;
    }
    n = neg ? Node::sint(-1 - int64_t(v)) : Node::uint(v);
    g.nontrivial();
    g.describe([&] { return "bytes " + pbt::hex(b) + " = " + model::show(n); });
    with_reader<zerialize::CBOR>(g, n, b);
})
ON_CBOR(PART("cbor-below-int64", 4000, 200000) { // negative numbers no accessor can represent
    Bytes b{0x3b}; be(b, (model::gen_bits(g) | (1ull << 63)), 8);
    g.nontrivial();
    g.describe([&] { return "bytes " + pbt::hex(b); });
    auto h = hold<zerialize::CBOR>(b);
    MUST_THROW(h->asInt64(), pbt::hex(b)); MUST_THROW(h->asUInt64(), pbt::hex(b));
    MUST_THROW(h->asInt32(), pbt::hex(b)); MUST_THROW(h->asUInt8(), pbt::hex(b));
})
