// C01: serialize-then-read returns exactly the value that was written, per protocol.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
using namespace zt;

// Encodes through one of the public ways of writing a value.
template <class P> static Bytes write_somehow(Gen& g, const Node& n) {
    switch (g.below(2)) {
        case 0: return encode<P>(n);
        default: return to_bytes(zerialize::serialize<P>(n));
    }
}
template <class P> static void roundtrip(Gen& g, const Node& n) {
    g.nontrivial(model::interesting(n));
    g.describe([&] { return std::string(PT<P>::name) + " " + model::show(n); });
    const Bytes b = write_somehow<P>(g, n);
    auto h = hold<P>(b, g.below(4));
    check_value<P>(*h, n);
    check_printed<P>(h->to_string(), n);
    g.label(n.k == Node::Map ? "root map" : n.k == Node::Arr ? "root array" : "root scalar");
}
template <class P> static void tree(Gen& g) { roundtrip<P>(g, model::gen_tree(g, PT<P>::dom())); }
template <class P> static void chain(Gen& g) { roundtrip<P>(g, model::gen_chain(g, PT<P>::dom(), g.range(5, 150))); }
template <class P> static void wide(Gen& g) { roundtrip<P>(g, model::gen_wide(g, PT<P>::dom())); }
template <class P> static void scalar(Gen& g) {
    auto n = model::gen_scalar(g, PT<P>::dom());
    if (g.coin()) n = Node::arr({std::move(n)});
    roundtrip<P>(g, n);
    g.nontrivial();
}
template <class P> static void huge(Gen& g) {
    const Node n = model::gen_huge(g);
    g.nontrivial(); g.describe([&] { return std::string(PT<P>::name) + " " + model::show(n); });
    const Bytes b = encode<P>(n);
    auto h = hold<P>(b, g.below(4));
    check_value<P>(*h, n);
}
// Keys at the boundaries of length fields, alone and among others that share a long beginning.
template <class P> static void keys(Gen& g) {
    const auto d = PT<P>::dom(); Node n = Node::map({});
    for (size_t i = 0, k = g.range(1, 3); i < k; ++i) {
        size_t len = std::min(d.max_key, g.one_of<size_t>({31, 32, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000}));
        std::string key(len, 'k'); key[g.coin() ? len - 1 : g.below(len)] = char('a' + i); key[0] = char('x' + (g.coin() ? i : 0));
        bool fresh = true; for (auto& e : n.m) fresh = fresh && e.first != key;
        if (fresh) n.m.push_back({key, model::gen_scalar(g, d)});
    }
    roundtrip<P>(g, g.coin() ? n : Node::arr({n, Node::sint(1)}));
}
#define PARTS(P, id) \
    PART(id "-keys", 400, 20000) { keys<P>(g); } \
    PART(id "-huge", 24, 250) { huge<P>(g); } \
    PART(id "-tree", 60000, 4000000) { tree<P>(g); } \
    PART(id "-scalar", 100000, 3000000) { scalar<P>(g); } \
    PART(id "-chain", 2000, 100000) { chain<P>(g); } \
    PART(id "-wide", 400, 60000) { wide<P>(g); } \
    PART(id "-empty", 1, 1) { \
        const Bytes b = to_bytes(zerialize::serialize<P>()); \
        auto h = hold<P>(b); \
        /* serialize<P>() with nothing written: null (MsgPack: an empty message, which is no value) */ \
        if (!b.empty()) { REQUIRE(h->isNull()); } else { REQUIRE(!h->isBool() && !h->isMap() && !h->isArray() && !h->isString()); } \
    }
PER_PROTOCOL(PARTS)
