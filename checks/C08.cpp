// C08: Zera messages conform to ZERA.md, written and read.
#include "../engine/refzera.hpp"
using namespace zt;
using Z = zerialize::Zera;

static Node any_value(Gen& g) {
    switch (g.pick({10, 2, 1})) {
        case 0: return model::gen_tree(g, Dom{}, g.chance(1, 6));
        case 1: return model::gen_chain(g, Dom{}, g.range(2, 60));
        default: return g.chance(1, 4) ? model::gen_wide(g, Dom{}) : model::gen_tree(g, Dom{}, true);
    }
}
// Visits every reachable reference once per path.
template <class F> static void walk(const refzera::Ref& r, F&& f, int depth = 0) {
    f(r);
    if (depth > 400) return;
    if (r.tag() == 5) { auto n = r.size(); REQUIRE(n.w == ref::Val, "an array payload is not well-formed"); for (size_t i = 0; i < n.v; ++i) walk(r.at(i).v, f, depth + 1); }
    if (r.tag() == 6) { auto t = r.table(); REQUIRE(t.complete && !t.reserved, "an object payload is not well-formed"); for (auto& e : t.e) walk(refzera::Ref{r.m, e.at}, f, depth + 1); }
}
PART("written", 40000, 4000000) {
    const Node n = any_value(g);
    g.nontrivial(model::interesting(n));
    const bool custom = g.coin(); const uint32_t th = uint32_t(g.below(13));
    g.describe([&] { return (custom ? "inline threshold " + std::to_string(th) + ", " : std::string()) + model::show(n); });
    Z::RootSerializer rs; if (custom) rs.set_inline_string_threshold(th);
    Z::Serializer w{rs}; model::emit(n, w);
    const Bytes b = to_bytes(rs.finish());
    refzera::Msg m; auto o = refzera::open(b, m);
    REQUIRE(o.w == ref::Val, "the header is not valid");
    for (size_t i = 20 + m.env_n; i < m.arena; ++i) REQUIRE(b[i] == 0, "padding before the arena is not zero");
    walk(o.v, [&](const refzera::Ref& r) {
        REQUIRE(r.tag() <= 8, "unknown tag");
        REQUIRE(r.clean(), "unused fields of a value reference are not zero, tag " + std::to_string(r.tag()));
        if (r.tag() == 7) { REQUIRE(r.blobby(), "a blob must be of dtype u8"); REQUIRE(r.blob().w == ref::Val, "a blob's data or shape is not well-formed"); REQUIRE((m.arena + r.f(0)) % 16 == 0, "a blob is not 16-byte aligned"); }
    });
    int fuel = 1 << 30; auto d = ref::decode(o.v, fuel);
    REQUIRE(d.has_value(), "the message does not decode by the format description");
    // signedness is part of the value: compare exactly
    auto same = [&](auto&& self, const Node& x, const Node& y) -> bool {
        if (x.k != y.k) return false;
        if (x.k == Node::Int) return x.i == y.i;
        if (x.k == Node::UInt) return x.u == y.u;
        if (x.k == Node::Arr) { if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); ++i) if (!self(self, x.a[i], y.a[i])) return false; return true; }
        if (x.k == Node::Map) { if (x.m.size() != y.m.size()) return false; for (size_t i = 0; i < x.m.size(); ++i) if (x.m[i].first != y.m[i].first || !self(self, x.m[i].second, y.m[i].second)) return false; return true; }
        return model::equal(x, y);
    };
    if (model::depth(n) < 390) REQUIRE(same(same, n, *d), "the reference decoder reads " + model::show(*d) + " instead of " + model::show(n));
    // and the library reads its own message, whatever the threshold
    auto h = hold<Z>(b, g.below(4));
    check_value<Z>(*h, n);
}
// Messages of other writers.
PART("foreign-layout", 40000, 4000000) {
    const Node n = any_value(g);
    g.nontrivial(model::interesting(n));
    refzera::Layout l{g};
    const Bytes b = l.message(n);
    g.describe([&] { return model::show(n) + "\nas " + pbt::hex(b, 300); });
    { refzera::Msg m; auto o = refzera::open(b, m); int fuel = 1 << 30; auto d = o.w == ref::Val ? ref::decode(o.v, fuel) : std::nullopt; REQUIRE(d && model::equal(*d, n), "(harness) the layout encoder and the reference decoder disagree"); }
    auto h = hold<Z>(b, g.below(4), g.coin() ? g.below(16) : 0);
    check_value<Z>(*h, n);
    check_printed<Z>(h->to_string(), n);
    if (g.chance(1, 4) && model::count(n) < 3000 && model::longest_key(n) <= 65535) check_value<Z>(zerialize::translate<Z>(*h), n);
}
// Shared structures: several references to the same payload.
PART("shared", 15000, 1000000) {
    Node inner = model::gen_tree(g, Dom{}, false);
    refzera::Layout l{g};
    auto r = l.value(inner);
    const size_t copies = g.range(2, 6);
    Node outer; Bytes p; const bool map = g.coin();
    refzera::Layout::p32(p, uint32_t(copies)); outer.k = map ? Node::Map : Node::Arr;
    for (size_t i = 0; i < copies; ++i) {
        if (map) { std::string k(1, char('a' + i)); refzera::Layout::p16(p, 1); refzera::Layout::p16(p, 0); p.push_back(uint8_t(k[0])); outer.m.push_back({k, inner}); }
        else outer.a.push_back(inner);
        p.insert(p.end(), r.begin(), r.end());
    }
    const uint32_t off = l.put_env(p);
    auto rv = refzera::Layout::vr(map ? 6 : 5, 0, 0, off);
    const uint32_t root = l.put_env(Bytes(rv.begin(), rv.end()));
    Bytes b; refzera::Layout::p32(b, 0x564E455Au); refzera::Layout::p16(b, 1); refzera::Layout::p16(b, 1); refzera::Layout::p32(b, root); refzera::Layout::p32(b, uint32_t(l.env.size()));
    const size_t ao = (20 + l.env.size() + 15) / 16 * 16; refzera::Layout::p32(b, uint32_t(ao));
    b.insert(b.end(), l.env.begin(), l.env.end()); b.resize(ao); b.insert(b.end(), l.arena.begin(), l.arena.end());
    g.nontrivial();
    g.describe([&] { return std::to_string(copies) + " references to " + model::show(inner) + "\nas " + pbt::hex(b, 300); });
    auto h = hold<Z>(b, g.below(4));
    check_value<Z>(*h, outer);
}
// Boundary sizes of keys, strings and blobs on both sides.
PART("boundaries", 300, 20000) {
    Node m; m.k = Node::Map;
    const size_t kl = g.one_of<size_t>({0, 1, 255, 256, 257, 32767, 32768, 65534, 65535});
    const size_t sl = g.one_of<size_t>({0, 11, 12, 13, 255, 256, 65535, 65536, 70001});
    m.m.push_back({std::string(kl, 'k'), Node::str(std::string(sl, 's'))});
    m.m.push_back({"second", Node::blob(std::string(g.one_of<size_t>({0, 1, 15, 16, 17, 4096, 65537}), 'b'))});
    m.m.push_back({"third", Node::arr({Node::sint(-1), Node::uint(~0ull)})});
    g.nontrivial();
    g.describe([&] { return model::show(m); });
    const Bytes b = encode<Z>(m);
    refzera::Msg ms; auto o = refzera::open(b, ms); int fuel = 1000; REQUIRE(o.w == ref::Val);
    auto d = ref::decode(o.v, fuel); REQUIRE(d && model::equal(*d, m), "independent decoding differs");
    refzera::Layout l{g}; const Bytes c = l.message(m); auto h = hold<Z>(c); check_value<Z>(*h, m);
}
PART("huge", 32, 400) {
    const Node n = model::gen_huge(g);
    g.nontrivial(); g.describe([&] { return model::show(n); });
    { const Bytes b = encode<Z>(n); refzera::Msg m; auto o = refzera::open(b, m); int fuel = 1 << 30; REQUIRE(o.w == ref::Val); auto d = ref::decode(o.v, fuel); REQUIRE(d && model::equal(*d, n), "independent decoding differs"); }
    { refzera::Layout l{g}; const Bytes b = l.message(n); auto h = hold<Z>(b, g.below(4)); check_value<Z>(*h, n); }
}
