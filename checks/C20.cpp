// C20: reads are deterministic, repeatable and order-independent; serialization is deterministic.
#include "../engine/reads.hpp"
#include "../engine/tus.hpp"
using namespace zt;

template <class P> void interleaved(Gen& g) {
    const Dom d = PT<P>::dom();
    const Node a = g.chance(1, 12) ? model::gen_wide(g, d) : model::gen_tree(g, d, false), b = model::gen_tree(g, d, false);
    const Bytes ba = encode<P>(a), bb = encode<P>(b);
    const size_t steps = g.below(60);
    g.nontrivial(model::interesting(a) && steps > 2); g.describe([&] { return "A = " + model::show(a) + "\nB = " + model::show(b) + "\n" + std::to_string(steps) + " reads"; });
    World<P> w;
    const size_t limit = model::count(a) > 5000 ? 12 : steps;
    auto open = [&](bool first) { const bool x = first || g.coin(); w.roots.emplace_back(hold<P>(x ? ba : bb, g.below(4), g.below(16)), x ? &a : &b); };
    open(true); open(false);
    for (size_t s = 0; s < std::min(steps, limit); ++s) {
        switch (g.pick({5, 6, 3, 1, 1})) {
            case 0: { auto it = w.roots.begin(); std::advance(it, long(g.below(w.roots.size()))); act<P>(g, w, *it->first, *it->second); break; }
            case 1: if (!w.subs.empty()) { auto& r = w.subs[g.below(w.subs.size())]; const Node& n = *r.n; if (w.subs.size() > 24) shallow<P>(r.v, n, "a sub-reader kept from earlier"); else { // a deque keeps references
                        act<P>(g, w, r.v, n); } } break;
            case 2: if (!w.cursors.empty()) advance<P>(g, w.cursors[g.below(w.cursors.size())]); break;
            case 3: if (w.roots.size() < 5) open(false); break;
            default: if constexpr (std::is_copy_constructible_v<typename P::Deserializer>) { auto it = w.roots.begin(); std::advance(it, long(g.below(w.roots.size()))); auto copy = *it->first; act<P>(g, w, *it->first, *it->second); shallow<P>(copy, *it->second, "a copy of a reader"); } break;
        }
    }
    for (auto& r : w.subs) shallow<P>(r.v, *r.n, "a sub-reader kept from earlier, at the end");
    for (auto& [h, n] : w.roots) { shallow<P>(*h, *n, "a reader at the end"); }
    if (model::count(a) < 200) check_value<P>(*w.roots.front().first, a, "everything, at the end");
}
// A message of another value at the same address is read for what it is, and a message read elsewhere is the same.
template <class P> void moved(Gen& g) {
    const Dom d = PT<P>::dom(); const Node a = model::gen_tree(g, d, false); Node b = g.coin() ? model::gen_tree(g, d, false) : a;
    if (g.coin()) { std::vector<Node*> all; std::function<void(Node&)> walk = [&](Node& n) { all.push_back(&n); for (auto& x : n.a) walk(x); for (auto& e : n.m) walk(e.second); }; walk(b); Node& t = *g.elem(all); // the same layout, another value
        switch (t.k) { case Node::Bool: t.b = !t.b; break; case Node::Int: t.i ^= 1; break; case Node::UInt: t.u ^= 1; break; case Node::Str: for (auto& c : t.s) if (c >= 'a' && c < 'z') ++c; break; case Node::Blob: for (auto& c : t.s) c = char(~c); break; case Node::Map: std::reverse(t.m.begin(), t.m.end()); break; default: std::reverse(t.a.begin(), t.a.end()); break; } }
    const Bytes ba = encode<P>(a), bb = encode<P>(b);
    g.nontrivial(model::interesting(a)); g.describe([&] { return "A = " + model::show(a) + "\nB = " + model::show(b); });
    const size_t cap = std::max(ba.size(), bb.size()), off = g.below(16);
    std::unique_ptr<uint8_t[]> mem(new uint8_t[cap + off]);
    using D = typename P::Deserializer;
    auto at = [&](const Bytes& x) { std::copy(x.begin(), x.end(), mem.get() + off); return std::span<const uint8_t>(mem.get() + off, x.size()); };
    for (int k = 0; k < 3; ++k) {
        { auto s = at(ba); D r(s); check_value<P>(r, a, "A"); if (g.coin()) (void)r.to_string(); }
        { auto s = at(bb); D r(s); check_value<P>(r, b, "B where A was"); if (g.coin()) (void)r.to_string(); }
    }
    auto h1 = hold<P>(ba, 0, g.below(16)), h2 = hold<P>(ba, 0, g.below(16));
    check_value<P>(*h1, a, "A elsewhere"); const std::string p1 = (*h1).to_string();
    h1.d.reset(); h1.ext.reset();
    check_value<P>(*h2, a, "A at a third place"); REQUIRE((*h2).to_string() == p1, "printed differently at another address");
}
template <class P> void again(Gen& g) {
    const Dom d = PT<P>::dom();
    const Node a = g.chance(1, 25) ? model::gen_wide(g, d) : model::gen_tree(g, d, true), b = model::gen_tree(g, d, false);
    g.nontrivial(model::interesting(a)); g.describe([&] { return model::show(a); });
    const Bytes first = encode<P>(a);
    const bool between = g.coin(); if (between) (void)encode<P>(b);
    const Node copy = a;
    REQUIRE(encode<P>(copy) == first, "a copy of the value gives another message");
    { // two writers at work at once, and one that never finishes
        typename P::RootSerializer r0{}; typename P::Serializer w0{r0}; w0.begin_array(2); w0.boolean(true);
        typename P::RootSerializer r1{}, r2{}; typename P::Serializer w1{r1}, w2{r2};
        w2.begin_array(2); model::emit(b, w2); model::emit(a, w1); model::emit(b, w2); w2.end_array();
        REQUIRE(to_bytes(r1.finish()) == first, "another writer at work changes the message");
        REQUIRE(to_bytes(r2.finish()) == encode<P>(Node::arr({b, b})), "another writer at work changes the message");
    }
    auto h = hold<P>(first); (void)(*h).isMap();
    REQUIRE(encode<P>(a) == first, "the message differs after reading one");
    REQUIRE(to_bytes(zerialize::serialize<P>(a)) == first, "serialize() gives another message than the writer");
    if (model::count(a) < 1000 && model::longest_key(a) < 65536) { // translation is serialization
        zerialize::Zera::RootSerializer rz; zerialize::Zera::Serializer wz(rz); model::emit(a, wz); const Bytes z = to_bytes(rz.finish()); auto hz = hold<zerialize::Zera>(z);
        typename P::RootSerializer rt{}; typename P::Serializer wt{rt}; zerialize::write_value(*hz, wt);
        REQUIRE(to_bytes(rt.finish()) == first, "the translation of the value is another message");
    }
}
#define M(P, nm) PART("interleaved/" nm, 8000, 800000) { interleaved<P>(g); } PART("same-address/" nm, 4000, 400000) { moved<P>(g); } PART("serialize-again/" nm, 4000, 400000) { again<P>(g); }
PER_PROTOCOL(M)
