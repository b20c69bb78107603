// C13: tensor views are zero-copy exactly when safe, and always equal the data.
#include "../engine/tsplit.hpp"
#include "../engine/tensors.hpp"
using namespace tz;
namespace zx = zerialize::xtensor;
namespace ze = zerialize::eigen;
using zerialize::tensor::TensorViewReason;

template <class V> const uint8_t* base(const V& v) { if constexpr (requires { v.tensor(); }) { auto t = v.tensor(); return reinterpret_cast<const uint8_t*>(t.data()); } else { auto m = v.map(); return reinterpret_cast<const uint8_t*>(m.data()); } }
template <class T, class M> std::string melems(const M& m) { std::string o; for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) { const T x = m.coeff(i, j); o += bits(x); } return o; }
template <class T, class V> std::string seen(const V& v) { if constexpr (requires { v.tensor(); }) { auto t = v.tensor(); return elements(t); } else { auto m = v.map(); return melems<T>(m); } }
template <class T, class V> std::string owned_copy(const V& v) { if constexpr (requires { v.tensor(); }) { auto t = v.array(); return elements(t); } else { auto m = v.matrix(); return melems<T>(m); } }

// One message, one address, one view, then a history of copies and moves of it.
template <class P, class T, class Make> void history(Gen& g, const Shape& s, const std::string& data, Make&& make, const char* what) {
    // bytes before the tensor shift its position inside the message
    Node before = Node::str(std::string(g.below(20), 'p'));
    Node sh = Node::arr({}); for (size_t d : s) sh.a.push_back(Node::uint(d));
    const bool nested = g.chance(2, 3);
    Node t = Node::arr({Node::sint(code<T>()), sh, Node::blob(data)});
    const Node n = nested ? Node::arr({before, Node::sint(int64_t(g.u64() >> g.below(64))), t, Node::str("after")}) : t;
    const Bytes b = encode<P>(n);
    const size_t mis = g.below(16);
    auto mem = std::make_unique<Exact>(b, mis);
    typename P::Deserializer rd(mem->span());
    const uint8_t *lo = mem->data(), *hi = lo + mem->n;
    auto run = [&](const auto& v) {
        using View = decltype(make(v));
        const uint8_t* at = nullptr;
        if constexpr (PT<P>::span_blob) { const auto blob = v[2].asBlob(); at = reinterpret_cast<const uint8_t*>(blob.data()); REQUIRE(static_cast<const void*>(zerialize::data_from_blobview<T>(blob)) == at, "data_from_blobview() points elsewhere"); }
        const bool aligned = reinterpret_cast<uintptr_t>(at) % alignof(T) == 0, safe = PT<P>::span_blob && aligned;
        g.label(PT<P>::span_blob ? (aligned ? "aligned" : "misaligned") : "not in place");
        g.nontrivial(data.size() > sizeof(T));
        struct Box { View v; explicit Box(const View& x) : v(x) {} explicit Box(View&& x) : v(std::move(x)) {} }; // (half_float's operators match anything that names it)
        std::vector<std::unique_ptr<Box>> pool; pool.push_back(std::make_unique<Box>(make(v)));
        auto check = [&](const View& w, const std::string& when) {
            auto& i = w.viewInfo();
            if (PT<P>::span_blob && data.empty() && !at) { REQUIRE(seen<T>(w).empty(), when); return; }
            REQUIRE(i.zero_copy == safe, when + (safe ? ": copied although aligned data is in place" : ": zero-copy although unsafe"));
            REQUIRE((i.reason == TensorViewReason::Ok) == safe, when + ": reason");
            if (!safe) REQUIRE(i.reason == (PT<P>::span_blob ? TensorViewReason::Misaligned : TensorViewReason::NotSpanBacked), when + ": reason");
            REQUIRE(i.required_alignment == alignof(T), when + ": required_alignment");
            REQUIRE(i.byte_size == data.size(), when + ": byte_size " + std::to_string(i.byte_size));
            if (PT<P>::span_blob) REQUIRE(i.address == reinterpret_cast<uintptr_t>(at), when + ": address");
            const uint8_t* p = base(w);
            if (!data.empty()) {
                if (safe) REQUIRE(p == at, when + ": a zero-copy view does not refer to the message's own bytes");
                else REQUIRE(!(p >= lo && p < hi), when + ": a copy refers to the message");
                REQUIRE(reinterpret_cast<uintptr_t>(p) % alignof(T) == 0, when + ": misaligned elements");
            }
            REQUIRE(seen<T>(w) == data, when + ": elements through the view");
            REQUIRE(owned_copy<T>(w) == data, when + ": elements of the owning result");
        };
        check(pool[0]->v, "fresh");
        const size_t ops = g.below(8);
        for (size_t k = 0; k < ops; ++k) {
            const size_t i = g.below(pool.size());
            switch (g.below(6)) {
                case 0: pool.push_back(std::make_unique<Box>(pool[i]->v)); check(pool.back()->v, "copied"); break;
                case 1: { auto m = std::make_unique<Box>(std::move(pool[i]->v)); pool.erase(pool.begin() + ptrdiff_t(i)); pool.push_back(std::move(m)); check(pool.back()->v, "moved"); break; }
                case 2: if (pool.size() > 1) { pool.erase(pool.begin() + ptrdiff_t(i)); check(g.elem(pool)->v, "after destroying another"); } break;
                case 3: { const size_t j = g.below(pool.size()); pool[i]->v = pool[j]->v; check(pool[i]->v, "assigned"); check(pool[j]->v, "assigned from"); break; }
                case 4: pool.push_back(std::make_unique<Box>(make(v))); check(pool.back()->v, "made again"); break;
                default: check(pool[i]->v, "later"); break;
            }
        }
        for (auto& w : pool) check(w->v, "at the end");
        // results outlive the message; copies do not notice that it changes
        auto mine = pool[0]->v.viewInfo().zero_copy ? std::string() : seen<T>(pool[0]->v);
        std::memset(const_cast<uint8_t*>(lo), 0x5a, mem->n);
        if (!safe) REQUIRE(seen<T>(pool[0]->v) == data, "a copying view changed with the message");
    };
    g.describe([&] { return std::string(tname<T>()) + " " + what + " " + show(s) + " at offset " + std::to_string(mis) + (nested ? ", nested after " + model::show(before) : ", root") + " " + pbt::hex(data, 48); });
    if (nested) run(rd[2]); else run(rd);
}
template <class P, class T> void xview(Gen& g) {
    const Shape s = gen_shape(g, 4, 200); auto d = gen_data<T>(g, prod(s));
    history<P, T>(g, s, std::string(d.begin(), d.end()), [](const auto& v) { return zx::asXTensorView<T>(v); }, "xtensor");
}
template <class P, class T> void eview(Gen& g) {
    const Shape s{g.coin() ? 2 : g.below(6), g.coin() ? 3 : g.below(6)}; auto d = gen_data<T>(g, prod(s)); const std::string data(d.begin(), d.end());
    if (s == Shape{2, 3} && g.coin()) history<P, T>(g, s, data, [](const auto& v) { return ze::asEigenMatrixView<T, 2, 3, false, Eigen::RowMajor>(v); }, "Eigen 2x3");
    else history<P, T>(g, s, data, [](const auto& v) { return ze::asEigenMatrixView<T, Eigen::Dynamic, Eigen::Dynamic, false, Eigen::RowMajor>(v); }, "Eigen");
}
// Zera: every blob is 16-byte aligned in the message, so a message at a 16-byte multiple never needs a copy.
#if TSUB == 0
using Ts = TL<int8_t, int32_t, uint8_t, uint32_t, float, std::complex<float>>;
#else
using Ts = TL<int16_t, int64_t, uint16_t, uint64_t, double, std::complex<double>, half>;
#endif
#define M(P, nm) \
    PART("xtensor/" nm "/" TSUB_NAME, 4000, 400000) { with_t(Ts{}, g.below(count_t(Ts{})), [&]<class T> { g.label(tname<T>()); xview<P, T>(g); }); } \
    PART("eigen/" nm "/" TSUB_NAME, 4000, 400000) { with_t(Ts{}, g.below(count_t(Ts{})), [&]<class T> { g.label(tname<T>()); eview<P, T>(g); }); }
PER_PROTOCOL(M)
#if TU == 0
PART("zera-always-in-place/" TSUB_NAME, 5000, 400000) {
    with_t(Ts{}, g.below(count_t(Ts{})), [&]<class T> {
        const Shape s = gen_shape(g, 4, 200); auto a = xt::xarray<T>::from_shape(s);
        auto d = gen_data<T>(g, prod(s)); if (!d.empty()) std::memcpy(a.data(), d.data(), d.size());
        std::string pre(g.below(40), 'x'); g.nontrivial(prod(s) > 0);
        g.describe([&] { return std::string(tname<T>()) + " " + show(s) + " after a string of " + std::to_string(pre.size()); });
        const Bytes b = to_bytes(zerialize::serialize<zerialize::Zera>(zerialize::zvec(pre, a, pre, a)));
        auto* mem = static_cast<uint8_t*>(::operator new(b.size(), std::align_val_t(16)));
        std::unique_ptr<uint8_t, void (*)(uint8_t*)> own(mem, [](uint8_t* p) { ::operator delete(p, std::align_val_t(16)); });
        std::memcpy(mem, b.data(), b.size());
        zerialize::Zera::Deserializer rd(std::span<const uint8_t>(mem, b.size()));
        for (size_t i : {size_t(1), size_t(3)}) {
            auto v = zx::asXTensorView<T>(rd[i]);
            REQUIRE(v.viewInfo().zero_copy, "a tensor in a 16-byte aligned Zera message was copied");
            REQUIRE(elements(v.tensor()) == std::string(d.begin(), d.end()), "elements");
        }
    });
}
#endif
