// C10: every valid CBOR encoding of a value reads as that value.
#include "../engine/refcbor.hpp"
using namespace zt;
using C = zerialize::CBOR;

static Node any_value(Gen& g) {
    switch (g.pick({12, 2, 1})) {
        case 0: return model::gen_tree(g, PT<C>::dom(), g.chance(1, 6));
        case 1: return model::gen_chain(g, PT<C>::dom(), g.range(2, 60));
        default: return g.chance(1, 4) ? model::gen_wide(g, PT<C>::dom()) : model::gen_scalar(g, PT<C>::dom());
    }
}
PART("any-encoding", 60000, 5000000) {
    const Node n = any_value(g);
    refcb::Enc e{g, {}}; e.value(n);
    g.nontrivial(e.variety > 0 && model::interesting(n));
    Bytes b = e.b; if (g.chance(1, 8)) { size_t k = g.range(1, 20); for (size_t i = 0; i < k; ++i) b.push_back(uint8_t(g.draw(255))); g.label("with bytes behind it"); }
    g.describe([&] { return model::show(n) + "\nas " + pbt::hex(b, 300); });
    auto h = hold<C>(b, g.below(4), g.coin() ? g.below(16) : 0);
    check_value<C>(*h, n);
    check_printed<C>(h->to_string(), n);
    if (g.chance(1, 4) && model::count(n) < 3000 && model::longest_key(n) <= 65535) check_value<zerialize::Zera>(zerialize::translate<zerialize::Zera>(*h), n, "translated", true);
}
PART("written", 30000, 3000000) {
    const Node n = any_value(g);
    g.nontrivial(model::interesting(n));
    g.describe([&] { return model::show(n); });
    const Bytes b = g.coin() ? encode<C>(n) : to_bytes(zerialize::serialize<C>(n));
    const auto s = refcb::skip(b.data(), b.size());
    REQUIRE(s.s == refcb::Skip::Ok && s.n == b.size(), "the message is not exactly one CBOR item");
    int fuel = 1 << 30; auto d = ref::decode(refcb::Ref{b.data(), b.size()}, fuel);
    if (model::depth(n) < 390) REQUIRE(d && model::equal(*d, n), "an independent decoder reads " + (d ? model::show(*d) : "nothing") + " instead of " + model::show(n));
}
// All 65536 half-precision values, 256 per case.
PART("halves", 256, 256) {
    const uint32_t hi = uint32_t(g.below(256));
    g.nontrivial(); g.describe([&] { return "half-precision values " + std::to_string(hi * 256) + ".."; });
    for (uint32_t lo = 0; lo < 256; ++lo) {
        const uint16_t x = uint16_t(hi << 8 | lo); Bytes b{0xf9, uint8_t(x >> 8), uint8_t(x)};
        auto h = hold<C>(b); const double got = h->asDouble(), want = refcb::half(x);
        REQUIRE(h->isFloat() && (std::isnan(want) ? std::isnan(got) : std::bit_cast<uint64_t>(got) == std::bit_cast<uint64_t>(want)), pbt::hex(b) + " reads as " + std::to_string(got));
    }
}
// Chunked strings, blobs and keys: the whole-value accessors deliver them; the rest of the message is unaffected.
PART("chunked", 20000, 2000000) {
    const Node n = model::gen_tree(g, PT<C>::dom(), false);
    refcb::Enc e{g, {}}; e.chunks = true; e.value(n);
    g.nontrivial(e.variety > 0 && model::interesting(n));
    g.describe([&] { return model::show(n) + "\nas " + pbt::hex(e.b, 300); });
    auto h = hold<C>(e.b, g.below(4));
    ref::Ctx c{g, h.ext ? h.ext->data() : nullptr, h.ext ? h.ext->data() + h.ext->n : reinterpret_cast<const uint8_t*>(~uintptr_t(0))}; c.fuel = 200;
    ref::compare<C>(c, *h, refcb::Ref{e.b.data(), e.b.size()}, "root");
}
PART("huge", 32, 400) {
    const Node n = model::gen_huge(g);
    g.nontrivial(); g.describe([&] { return model::show(n); });
    { const Bytes b = encode<C>(n); int fuel = 1 << 30; auto d = ref::decode(refcb::Ref{b.data(), b.size()}, fuel); REQUIRE(d && model::equal(*d, n), "independent decoding differs"); }
    { refcb::Enc e{g, {}}; e.value(n); auto h = hold<C>(e.b, g.below(4)); check_value<C>(*h, n); }
}
