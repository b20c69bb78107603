// C02: translation between any protocols, through any chain, preserves the value.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
using namespace zt;

struct Plan { // protocols still to visit
    std::vector<size_t> to;
    size_t k = 0;
    Node want;
    bool loose = false; // signedness lost on the way
    bool deep = false;  // deeper than any translation must support: refusal is allowed
};
// Translates `r` (a reader of Src or one of its sub-values) onwards and checks every stop.
template <class Src> struct Step {
    static void root(const typename Src::Deserializer& r, Plan& p);
    static void pairs(Gen& g, size_t dst);
};
template <class Src, class R> static void onwards(const R& r, Plan& p) {
    if (p.k >= p.to.size()) return;
    const size_t dst = p.to[p.k++];
    with_p(AllP{}, dst, [&]<class Dst>() {
        if (PT<Src>::sorted) sort_maps(p.want);
        if (!PT<Src>::keeps_sign) p.loose = true;
        try {
            auto d = [&] {
                if constexpr (std::is_copy_constructible_v<R>) if (p.k % 2 == 0) return zerialize::translate_bytes<Dst>(r); // the same, through a copy of the reader
                return zerialize::translate<Dst>(r);
            }();
            check_value<Dst>(d, p.want, std::string("after ") + PT<Src>::name + "->" + PT<Dst>::name + ": root", p.loose);
            Step<Dst>::root(d, p);
        } catch (const DeserializationError& e) {
            if (!p.deep) throw;
        }
    });
}
template <class Src> void Step<Src>::root(const typename Src::Deserializer& r, Plan& p) { onwards<Src>(r, p); }

inline Dom common(const std::vector<size_t>& ps) {
    Dom d; d.max_key = 80000;
    for (size_t x : ps) with_p(AllP{}, x, [&]<class P>() { d = d & PT<P>::dom(); });
    return d;
}
inline Node gen_value(Gen& g, const Dom& d) {
    switch (g.pick({12, 2, 1})) {
        case 0: return model::gen_tree(g, d, g.chance(1, 4));
        case 1: return model::gen_chain(g, d, g.range(3, 200));
        default: { Node n = model::gen_wide(g, d); if (model::count(n) > 5000) return model::gen_tree(g, d); return n; }
    }
}
template <class Src> constexpr size_t index_of() {
    size_t r = 0, k = 0;
    for_each_p(AllP{}, [&]<class P>() { if (std::is_same_v<P, Src>) r = k; ++k; });
    return r;
}
inline std::string chain_name(const std::vector<size_t>& c) {
    std::string s;
    for (size_t x : c) with_p(AllP{}, x, [&]<class P>() { s += std::string(s.empty() ? "" : "->") + PT<P>::name; });
    return s;
}
template <class Src> static void start(Gen& g, std::vector<size_t> to) {
    std::vector<size_t> all = to; all.insert(all.begin(), index_of<Src>());
    const Dom d = common(all);
    Plan p; p.to = to;
    Node n = gen_value(g, d);
    g.nontrivial(model::interesting(n));
    g.describe([&] { return chain_name(all) + " " + model::show(n); });
    g.label("chain length " + std::to_string(to.size()));
    const Bytes b = encode<Src>(n);
    auto h = hold<Src>(b, g.below(4));
    const bool sub = g.chance(1, 4);
    if (sub && n.k == Node::Arr && !n.a.empty()) {
        const size_t i = g.below(n.a.size());
        p.want = n.a[i];
        onwards<Src>((*h)[i], p);
        g.label("sub-value");
    } else if (sub && n.k == Node::Map && !n.m.empty()) {
        auto& [k, x] = n.m[g.below(n.m.size())];
        p.want = x;
        onwards<Src>((*h)[std::string_view(k)], p);
        g.label("sub-value");
    } else {
        p.want = n;
        onwards<Src>(*h, p);
    }
    REQUIRE(to_bytes(zerialize::ZBuffer(Bytes(b))) == b);
}
// Nesting around and far beyond what a translation supports: the value or an error.
template <class Src> static void deep(Gen& g) {
    size_t n;
    switch (g.pick({3, 3, 2})) {
        case 0: n = g.range(200, 500); break;
        case 1: n = g.range(1000, 1100); break;
        default: n = g.range(2000, 20000); break;
    }
    if (index_of<Src>() >= 3 && n > 3000) n = 3000; // third-party parsers have limits of their own
    const uint64_t seed = g.u64();
    g.nontrivial();
    g.describe([&] { return std::string(PT<Src>::name) + " nesting " + std::to_string(n); });
    typename Src::RootSerializer rs{};
    typename Src::Serializer w{rs};
    pbt::Rng r{seed};
    std::vector<bool> kinds;
    const bool mixed = seed & 1;
    for (size_t i = 0; i < n; ++i) {
        const bool m = mixed && (r.next() & 1);
        kinds.push_back(m);
        if (m) { w.begin_map(1); w.key("k"); } else w.begin_array(1);
    }
    w.int64(-7);
    for (size_t i = n; i-- > 0;) { if (kinds[i]) w.end_map(); else w.end_array(); }
    const Bytes b = to_bytes(rs.finish());
    auto h = hold<Src>(b);
    const size_t dst = g.below(3);
    with_p(AllP{}, dst, [&]<class Dst>() {
        try {
            auto d = zerialize::translate<Dst>(*h);
            g.label(n <= 600 ? "shallow enough, translated" : "deep, translated");
            if (n <= 1200) {
                Node want = Node::sint(-7);
                for (size_t i = n; i-- > 0;) {
                    if (kinds[i]) { Node o; o.k = Node::Map; o.m.push_back({"k", std::move(want)}); want = std::move(o); }
                    else { Node o; o.k = Node::Arr; o.a.push_back(std::move(want)); want = std::move(o); }
                }
                check_value<Dst>(d, want);
            }
        } catch (const DeserializationError&) {
            REQUIRE(n > 500, "translation refused a value nested only " + std::to_string(n) + " deep");
            g.label("deep, refused");
        }
    });
}
template <class Src> void Step<Src>::pairs(Gen& g, size_t dst) { start<Src>(g, {dst}); }

#define TUPARTS(P, id) \
    template struct Step<P>; \
    PART(id "-to-zera", 6000, 500000) { start<P>(g, {0}); } \
    PART(id "-to-flex", 6000, 500000) { start<P>(g, {1}); } \
    PART(id "-to-msgpack", 6000, 500000) { start<P>(g, {2}); } \
    PART(id "-to-optional", 6000, 500000) { const size_t n = count_p(AllP{}); if (n > 3) start<P>(g, {size_t(g.range(3, n - 1))}); } \
    PART(id "-chain", 5000, 400000) { std::vector<size_t> to(g.range(2, 5)); for (auto& x : to) x = g.below(count_p(AllP{})); start<P>(g, to); } \
    PART(id "-deep", 60, 3000) { deep<P>(g); }
extern template struct Step<zerialize::Zera>;
extern template struct Step<zerialize::Flex>;
extern template struct Step<zerialize::MsgPack>;
IF_JSON(extern template struct Step<zerialize::JSON>;)
IF_CBOR(extern template struct Step<zerialize::CBOR>;)
PER_PROTOCOL(TUPARTS)
