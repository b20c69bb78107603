// C22: damage inside one value of a Zera message does not affect reading the others.
#include "../engine/owners.hpp"
using namespace zt;
using Z = zerialize::Zera;

// Reads everything except what is inside the damaged value (by its number).
template <class V> void check_except(const V& v, const Node& n, uint32_t& num, uint32_t bad, size_t bad_end, const std::string& at) {
    const uint32_t me = num++;
    if (me == bad) { num = uint32_t(bad_end); return; }
    auto ctx = [&] { return at + " should be " + model::show(n); };
    const size_t here = model::count(n);
    if (bad < me || bad >= me + here) { check_value<Z>(v, n, at); num = uint32_t(me + here); (void)v.to_string(); return; } // does not contain it
    check_predicates<Z>(v, n, at);
    if (n.k == Node::Arr) {
        REQUIRE(v.arraySize() == n.a.size(), ctx());
        for (size_t i = 0; i < n.a.size(); ++i) { const auto e = v[i]; check_except(e, n.a[i], num, bad, bad_end, at + "[" + std::to_string(i) + "]"); }
    } else {
        REQUIRE(keys_of(v) == key_order<Z>(n), ctx());
        for (auto& [k, x] : n.m) { REQUIRE(v.contains(k), ctx() + " key " + model::quote(k)); const auto e = v[std::string_view(k)]; check_except(e, x, num, bad, bad_end, at + "." + model::quote(k, 12)); }
        REQUIRE(!v.contains("\x01 no such key"), ctx());
    }
}
template <class V> void poke(const V& v, int fuel) { // reading the damaged value: errors are fine
    auto t = [&](auto&& f) { throws_deser(f, "a read of the damaged value"); };
    t([&] { (void)v.asInt64(); }); t([&] { (void)v.asString(); }); t([&] { (void)v.asBlob(); }); t([&] { (void)v.asDouble(); }); t([&] { (void)v.asBool(); }); t([&] { (void)v.contains("a"); });
    if (fuel > 0) { t([&] { if (v.isArray() && v.arraySize()) poke(v[0], fuel - 1); }); t([&] { if (v.isMap()) for (auto k : v.mapKeys()) { poke(v[k], fuel - 1); break; } }); }
}
template <class V> void poke_at(const V& v, const Node& n, uint32_t& num, uint32_t bad) {
    const uint32_t me = num++;
    if (me == bad) { poke(v, 3); return; }
    if (n.k == Node::Arr) for (size_t i = 0; i < n.a.size(); ++i) { const size_t c = model::count(n.a[i]); if (bad >= num && bad < num + c) { poke_at(v[i], n.a[i], num, bad); return; } num += uint32_t(c); }
    if (n.k == Node::Map) for (auto& [k, x] : n.m) { const size_t c = model::count(x); if (bad >= num && bad < num + c) { poke_at(v[std::string_view(k)], x, num, bad); return; } num += uint32_t(c); }
}
static void damage(Gen& g, Bytes& b, const std::vector<size_t>& mine) {
    switch (g.pick({5, 3, 2, 1})) {
        case 0: for (size_t k = g.range(1, 4); k > 0; --k) b[g.elem(mine)] ^= uint8_t(1u << g.below(8)); break;
        case 1: for (size_t k = g.range(1, 6); k > 0; --k) b[g.elem(mine)] = uint8_t(g.one_of<int>({0xff, 0, 0x7f, 0x80, 1, 9, 255, 200})); break;
        case 2: { const size_t at = g.below(mine.size()); const uint8_t fill = uint8_t(g.one_of<int>({0xff, 0, 0x80, 0xfe, 5, 6, 7})); for (size_t i = at; i < std::min(mine.size(), at + g.range(1, 16)); ++i) b[mine[i]] = fill; break; }
        default: { pbt::Rng r{g.u64()}; for (size_t i : mine) b[i] = uint8_t(r.next() >> 32); break; }
    }
}
static void isolation(Gen& g, const Node& n, const Bytes& b) {
    refzera::Msg m; auto o = refzera::open(b, m);
    REQUIRE(o.w == ref::Val, "the message is not valid");
    Owners w(b.size()); w.walk(o.v, n);
    const uint32_t bad = uint32_t(g.below(w.end.size())); const size_t end = w.end[bad];
    std::vector<size_t> mine; for (size_t i = 20; i < b.size(); ++i) if (w.lo[i] >= bad && w.lo[i] != UINT32_MAX && w.hi[i] < end) mine.push_back(i);
    if (mine.empty()) return;
    Bytes c = b; const bool cut = g.chance(1, 8) && w.hi[b.size() - 1] < end && w.lo[b.size() - 1] != UINT32_MAX && w.lo[b.size() - 1] >= bad;
    if (cut) { size_t k = 0, keep = m.arena; for (size_t i = 0; i < w.reach.size(); ++i) if (i < bad || i >= end) keep = std::max(keep, w.reach[i]); while (c.size() > keep && w.lo[c.size() - 1] >= bad && w.hi[c.size() - 1] < end && w.lo[c.size() - 1] != UINT32_MAX && (k == 0 || g.chance(9, 10))) { c.pop_back(); ++k; } if (m.arena_n == 0) c = b; }
    else damage(g, c, mine);
    g.nontrivial(w.end.size() > 1 && bad > 0 && c != b);
    g.label(cut ? "cut off" : bad == 0 ? "the root damaged" : "damaged");
    g.describe([&] { return model::show(n) + "\ndamaged value number " + std::to_string(bad) + ": " + model::show(*w.node[bad]) + "\n" + pbt::hex(c, 300); });
    auto h = [&] { try { return hold<Z>(c, g.below(4), g.below(16)); } catch (const DeserializationError& e) { FAILMSG(std::string("the damaged message does not open: ") + e.what()); } }();
    if (g.coin()) { uint32_t q = 0; poke_at(*h, n, q, bad); }
    uint32_t num = 0; check_except(*h, n, num, bad, end, "root");
    uint32_t q = 0; poke_at(*h, n, q, bad);
    num = 0; check_except(*h, n, num, bad, end, "after reading the damaged value, root");
}
PART("own-layout", 60000, 6000000) {
    const Node n = g.chance(1, 40) ? model::gen_chain(g, Dom{}, g.range(2, 40)) : model::gen_tree(g, Dom{}, false);
    isolation(g, n, encode<Z>(n));
}
PART("foreign-layout", 40000, 4000000) {
    const Node n = model::gen_tree(g, Dom{}, false); refzera::Layout l{g}; const Bytes b = l.message(n);
    isolation(g, n, b);
}
// Many siblings, so that the damaged one is before, between and after the others.
PART("siblings", 20000, 2000000) {
    Node n; n.k = g.coin() ? Node::Arr : Node::Map;
    for (size_t i = 0, k = g.range(2, 12); i < k; ++i) { Node x = g.chance(1, 3) ? Node::blob(model::gen_blob(g, false)) : g.coin() ? Node::str(model::gen_string(g, {}, false)) : model::gen_tree(g, Dom{}, false); if (n.k == Node::Arr) n.a.push_back(std::move(x)); else n.m.push_back({"k" + std::to_string(i), std::move(x)}); }
    isolation(g, n, encode<Z>(n));
}
