// C21: concurrent reads of one message are race-free and correct; concurrent writers are independent.
#include "../engine/reads.hpp"
#include "../engine/tus.hpp"
#include <atomic>
#include <thread>
#if TU == 5 || TU == -1
#include <zerialize/tensor/eigen.hpp>
#include <zerialize/tensor/xtensor.hpp>
#endif
using namespace zt;

// Runs the bodies at once (released together) and reports the first that fails.
static void in_parallel(std::vector<std::function<void(Gen&)>>& bodies, const std::vector<uint64_t>& seeds) {
    std::vector<std::string> err(bodies.size()); std::vector<std::thread> ts; std::atomic<size_t> ready{0};
    for (size_t i = 0; i < bodies.size(); ++i) ts.emplace_back([&, i] {
        Gen g; g.rng = {seeds[i]};
        ready.fetch_add(1, std::memory_order_relaxed);
        for (int k = 0; k < 20000 && ready.load(std::memory_order_relaxed) < bodies.size(); ++k) std::this_thread::yield();
        try { bodies[i](g); }
        catch (const pbt::Failure& f) { err[i] = f.msg; }
        catch (const std::exception& e) { err[i] = std::string("unexpected ") + typeid(e).name() + ": " + e.what(); }
    });
    for (auto& t : ts) t.join();
    for (size_t i = 0; i < err.size(); ++i) if (!err[i].empty()) pbt::fail("in thread " + std::to_string(i) + " of " + std::to_string(err.size()) + ": " + err[i]);
}
struct Kept { std::string_view v; const std::string* want; };
template <class V> void keep_views(const V& v, const Node& n, std::vector<Kept>& out) {
    if (n.k == Node::Str) out.push_back({v.asStringView(), &n.s});
    else if (n.k == Node::Arr) { for (size_t i = 0; i < std::min<size_t>(n.a.size(), 8); ++i) keep_views(v[i], n.a[i], out); }
    else if (n.k == Node::Map) for (size_t i = 0; i < std::min<size_t>(n.m.size(), 8); ++i) keep_views(v[std::string_view(n.m[i].first)], n.m[i].second, out);
}
template <class P> void readers(Gen& g) {
    const Dom d = PT<P>::dom();
    const Node a = model::gen_tree(g, d, false), b = model::gen_tree(g, d, false);
    const size_t threads = 2 + g.below(3), steps = 1 + g.below(12);
    std::vector<uint64_t> seeds; std::vector<size_t> how; // 0: the shared reader, 1: own reader of the shared bytes, 2: own copy of the shared reader, 3: a shared sub-reader, 4: another message
    for (size_t i = 0; i < threads; ++i) { how.push_back(g.pick({6, 2, 2, 3, 2})); seeds.push_back(g.u64()); }
    g.nontrivial(model::interesting(a)); g.label(std::to_string(threads) + " threads");
    g.describe([&] { std::string s = model::show(a) + " / " + model::show(b) + ", " + std::to_string(steps) + " reads each by"; const char* nm[] = {" the shared reader", " own reader", " copied reader", " shared sub-reader", " own message"}; for (size_t h : how) s += nm[h]; return s; });
    const Bytes ba = encode<P>(a), bb = encode<P>(b);
    auto shared = hold<P>(ba, g.below(4), g.below(16)); const Exact bytes(ba, 0);
    std::optional<typename World<P>::Sub> sub; const Node* subn = nullptr;
    if (a.k == Node::Arr && !a.a.empty()) { const size_t i = g.below(a.a.size()); sub.emplace((*shared)[i]); subn = &a.a[i]; }
    if (a.k == Node::Map && !a.m.empty()) { auto& e = g.elem(a.m); sub.emplace((*shared)[std::string_view(e.first)]); subn = &e.second; }
    std::vector<std::function<void(Gen&)>> bodies;
    for (size_t i = 0; i < threads; ++i) bodies.push_back([&, i](Gen& tg) {
        World<P> w; Held<P> own; const typename P::Deserializer* r = shared.d.get(); const Node* n = &a;
        if (how[i] == 1) { own.d = std::make_unique<typename P::Deserializer>(bytes.span()); r = own.d.get(); }
        if (how[i] == 2) { if constexpr (std::is_copy_constructible_v<typename P::Deserializer>) { own.d = std::make_unique<typename P::Deserializer>(*shared); r = own.d.get(); } }
        if (how[i] == 4) { own = hold<P>(bb, tg.below(4)); r = own.d.get(); n = &b; }
        std::vector<Kept> kept; keep_views(*r, *n, kept);
        for (size_t s = 0; s < steps; ++s) {
            if (how[i] == 3 && sub && tg.coin()) act<P>(tg, w, *sub, *subn);
            else if (!w.subs.empty() && tg.coin()) { auto& x = w.subs[tg.below(w.subs.size())]; act<P>(tg, w, x.v, *x.n); }
            else if (!w.cursors.empty() && tg.chance(1, 3)) advance<P>(tg, w.cursors[tg.below(w.cursors.size())]);
            else act<P>(tg, w, *r, *n);
        }
        check_value<P>(*r, *n);
        for (auto& k : kept) REQUIRE(k.v == *k.want, "a view taken before the other reads");
    });
    in_parallel(bodies, seeds);
    check_value<P>(*shared, a, "after all threads");
}
template <class P> void writers(Gen& g) {
    const Dom d = PT<P>::dom();
    const Node a = model::gen_tree(g, d, false), b = model::gen_tree(g, d, false);
    std::vector<uint64_t> seeds; const size_t threads = 2 + g.below(3);
    for (size_t i = 0; i < threads; ++i) seeds.push_back(g.u64());
    g.nontrivial(model::interesting(a)); g.describe([&] { return model::show(a) + " / " + model::show(b) + ", " + std::to_string(threads) + " threads"; });
    namespace dyn = zerialize::dyn;
    const dyn::Value shared_dyn = dyn::array({dyn::serializable(a), 1, dyn::map({{"k", dyn::serializable(b)}, {"s", std::string("text")}})});
    const Node dn = Node::arr({a, Node::sint(1), Node::map({{"k", b}, {"s", Node::str("text")}})});
    const auto builder = zerialize::zmap<"a", "b">(a, zerialize::zvec(b, std::string("x")));
    const Node bn = Node::map({{"a", a}, {"b", Node::arr({b, Node::str("x")})}});
    const Bytes ea = encode<P>(a), eb = encode<P>(b), ed = encode<P>(dn), ebu = encode<P>(bn);
    const ZBuffer z = zerialize::serialize<P>(a);
    std::vector<std::function<void(Gen&)>> bodies;
    for (size_t i = 0; i < threads; ++i) bodies.push_back([&](Gen& tg) {
        for (int k = 0; k < 3; ++k) switch (tg.below(6)) {
            case 0: REQUIRE(encode<P>(a) == ea, "a message written while other threads write"); break;
            case 1: REQUIRE(to_bytes(zerialize::serialize<P>(b)) == eb, "a message written while other threads write"); break;
            case 2: REQUIRE(to_bytes(zerialize::serialize<P>(shared_dyn)) == ed, "a shared dynamic value"); break;
            case 3: { auto own = builder; REQUIRE(to_bytes(zerialize::serialize<P>(own)) == ebu, "a copy of a shared builder"); break; }
            case 4: { REQUIRE(to_bytes(z) == ea && z.to_vector_copy() == ea, "a shared buffer"); (void)z.to_string(); (void)z.size(); break; }
            default: { dyn::Value c = shared_dyn; REQUIRE(to_bytes(zerialize::serialize<P>(c)) == ed, "a copy of a shared dynamic value"); }
        }
    });
    in_parallel(bodies, seeds);
}
#define M(P, nm) PART("readers/" nm, 6000, 600000) { readers<P>(g); } PART("writers/" nm, 3000, 300000) { writers<P>(g); }
PER_PROTOCOL(M)

#if TU == 5 || TU == -1
// Tensors of one shared message, decoded by several threads.
template <class P, class T> void tensors(Gen& g) {
    const size_t r = 1 + g.below(4), c = 1 + g.below(4), threads = 2 + g.below(2);
    xt::xarray<T> x = xt::zeros<T>({r, c}); for (auto& e : x) e = T(g.below(200));
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m(r, c); for (size_t i = 0; i < r; ++i) for (size_t j = 0; j < c; ++j) m(long(i), long(j)) = x(i, j);
    g.nontrivial(r * c > 1); g.describe([&] { return std::to_string(r) + "x" + std::to_string(c) + ", " + std::to_string(threads) + " threads"; });
    const ZBuffer z = zerialize::serialize<P>(zerialize::zmap<"pad", "x", "m">(std::string(g.below(20), 'p'), x, m));
    const Bytes b = to_bytes(z); auto h = hold<P>(b, g.below(3), g.below(16));
    std::vector<uint64_t> seeds; for (size_t i = 0; i < threads; ++i) seeds.push_back(g.u64());
    std::vector<std::function<void(Gen&)>> bodies;
    for (size_t i = 0; i < threads; ++i) bodies.push_back([&](Gen& tg) {
        for (int k = 0; k < 2; ++k) {
            const char* key = tg.coin() ? "x" : "m";
            if (tg.coin()) { auto v = zerialize::xtensor::asXTensorView<T>((*h)[key]); auto t = v.tensor(); for (size_t a = 0; a < r; ++a) for (size_t q = 0; q < c; ++q) REQUIRE(t(a, q) == x(a, q), "an element"); }
            else { auto t = zerialize::eigen::asEigenMatrix<T, Eigen::Dynamic, Eigen::Dynamic, false, Eigen::RowMajor>((*h)[key]); REQUIRE(t == m, "a matrix"); }
            REQUIRE(zerialize::isTensor<T>((*h)[key]), "isTensor");
        }
        const Bytes again = to_bytes(zerialize::serialize<P>(x)); auto own = hold<P>(again); REQUIRE(zerialize::xtensor::asXTensor<T>(*own) == x, "a tensor written while other threads write");
    });
    in_parallel(bodies, seeds);
}
PART("tensors", 4000, 400000) {
    switch (g.below(4)) { case 0: tensors<zerialize::Zera, double>(g); break; case 1: tensors<zerialize::Zera, int16_t>(g); break; case 2: tensors<zerialize::MsgPack, float>(g); break; default: tensors<zerialize::Flex, uint64_t>(g); break; }
}
#endif
