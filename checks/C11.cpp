// C11: tensors round-trip with shape, element type and every element intact.
#include "../engine/tsplit.hpp"
#include "../engine/tensors.hpp"
using namespace tz;
namespace zx = zerialize::xtensor;
namespace ze = zerialize::eigen;

// What a decoded array must be.
struct Want { Shape shape; std::string data; };

template <class T, int D, class V> void check_x(const V& v, const Want& w, const std::string& at) {
    auto a = zx::asXTensor<T, D>(v);
    REQUIRE(shape_of(a) == w.shape, at + ": shape " + show(shape_of(a)) + " instead of " + show(w.shape));
    REQUIRE(elements(a) == w.data, at + ": elements differ, shape " + show(w.shape));
    REQUIRE(a.size() == prod(w.shape), at);
}
template <class T, class V> void check_view(const V& v, const Want& w, const std::string& at) {
    auto x = zx::asXTensorView<T>(v);
    REQUIRE(x.rank() == w.shape.size() && Shape(x.shape().begin(), x.shape().end()) == w.shape, at + ": view shape");
    auto t = x.tensor();
    REQUIRE(shape_of(t) == w.shape && elements(t) == w.data, at + ": view elements, shape " + show(w.shape));
    auto a = x.array();
    REQUIRE(shape_of(a) == w.shape && elements(a) == w.data, at + ": array() of the view, shape " + show(w.shape));
    REQUIRE((zerialize::isTensor<T>(v)), at + ": isTensor");
}
// Any other element type must be refused.
template <class T, class V> void check_refused(Gen& g, const V& v, const std::string& at) {
    if (!g.chance(1, 4)) return;
    if constexpr (!std::is_same_v<T, float>) { MUST_THROW(zx::asXTensor<float>(v), at); REQUIRE(!zerialize::isTensor<float>(v), at); }
    else { MUST_THROW(zx::asXTensor<int32_t>(v), at); REQUIRE(!zerialize::isTensor<int32_t>(v), at); }
}

template <class P> using Other = std::conditional_t<std::is_same_v<P, zerialize::Zera>, zerialize::MsgPack, zerialize::Zera>;
template <class P> using Root = typename P::Deserializer;
template <class P> using Sub = std::remove_cvref_t<decltype(std::declval<const Root<P>&>()[size_t(0)])>;

// A tensor source behind one type per protocol, so that the contexts are compiled once.
template <class P> struct Src { std::function<void(typename P::Serializer&)> f; };
template <class P, zerialize::Writer W> void serialize(const Src<P>& s, W& w) { if constexpr (std::is_same_v<W, typename P::Serializer>) s.f(w); }
template <class P> struct Chk { std::function<void(const Root<P>&, const std::string&)> root; std::function<void(const Sub<P>&, const std::string&)> sub; };

template <class V, class F> void at_tensor(size_t ctx, const V& r, F&& h) {
    if (ctx == 0) h(r); else if (ctx == 1) h(r[1]); else if (ctx == 2) h(r["t"]); else { h(r["deep"][0][0]); h(r["deep"][0][1]); }
}
// Serializes `t` in some context, hands every reader of it to `c`, and checks that it survives translation.
template <class P> void through(Gen& g, const Src<P>& t, const Chk<P>& c, int dtype, const Want& w, const std::string& raw) {
    const size_t ctx = g.pick({4, 2, 2, 1});
    Bytes b; std::string at;
    switch (ctx) {
        case 0: b = to_bytes(zerialize::serialize<P>(t)); at = "root"; break;
        case 1: b = to_bytes(zerialize::serialize<P>(zerialize::zvec("before", t, 7))); at = "element"; break;
        case 2: b = to_bytes(zerialize::serialize<P>(zerialize::zmap<"a", "t", "z">(std::string("x"), t, true))); at = "member"; break;
        default: b = to_bytes(zerialize::serialize<P>(zerialize::zmap<"deep">(zerialize::zvec(zerialize::zvec(t, t))))); at = "deep"; break;
    }
    g.label("context " + at);
    Node shape = Node::arr({}); for (size_t d : w.shape) shape.a.push_back(Node::uint(d));
    const Node n = Node::arr({Node::sint(dtype), shape, Node::blob(raw)});
    auto h = hold<P>(b, g.below(4), g.coin() ? g.below(16) : 0);
    if (ctx == 0) c.root(*h, at); else if (ctx == 1) c.sub((*h)[1], at); else if (ctx == 2) c.sub((*h)["t"], at); else { c.sub((*h)["deep"][0][0], at); c.sub((*h)["deep"][0][1], at); }
    at_tensor(ctx, *h, [&](const auto& v) { check_value<P>(v, n, at, true); });
    if (g.chance(1, 3)) {
        using O = Other<P>;
        g.label("translated");
        auto o = zerialize::translate<O>(*h);
        at_tensor(ctx, o, [&](const auto& v) { check_value<O>(v, n, at + " translated", true); });
        auto back = zerialize::translate<P>(o);
        at += " translated and back";
        if (ctx == 0) c.root(back, at); else if (ctx == 1) c.sub(back[1], at); else if (ctx == 2) c.sub(back["t"], at); else c.sub(back["deep"][0][1], at);
    }
}
template <class P, class X, class F> void through(Gen& g, const X& t, int dtype, const Want& w, const std::string& raw, F&& f) {
    Src<P> s{[&](auto& wr) { using zerialize::serialize; serialize(t, wr); }};
    Chk<P> c{[&](const Root<P>& v, const std::string& at) { f(v, at); }, [&](const Sub<P>& v, const std::string& at) { f(v, at); }};
    through<P>(g, s, c, dtype, w, raw);
}

template <class T> void fill(auto& a, const Bytes& d) { // logical row-major order
    size_t k = 0;
    each_index(shape_of(a), [&](const Shape& i) { T x; std::memcpy(&x, d.data() + k, sizeof x); k += sizeof x; a.element(i.begin(), i.end()) = x; });
}
template <class T, class V> void decoded(Gen& g, const V& v, const Want& w, const std::string& at) {
    check_x<T, -1>(v, w, at);
    check_view<T>(v, w, at);
    check_refused<T>(g, v, at);
    if (w.shape.size() == 2) { check_x<T, 2>(v, w, at); MUST_THROW((zx::asXTensor<T, 3>(v)), at); }
}
template <class P, class T, class X> void roundtrip(Gen& g, const X& t, const char* form) {
    const Want w{shape_of(t), elements(t)};
    g.label(std::string("form ") + form); g.label("rank " + std::to_string(w.shape.size()));
    g.nontrivial(w.data.size() > sizeof(T));
    g.describe([&] { return std::string(tname<T>()) + " " + form + " " + show(w.shape) + " " + pbt::hex(w.data, 64); });
    through<P>(g, t, code<T>(), w, w.data, [&](const auto& v, const std::string& at) { decoded<T>(g, v, w, at); });
}
template <class P, class T> void xcase(Gen& g) {
    const Shape s = gen_shape(g);
    const Bytes d = gen_data<T>(g, prod(s));
    constexpr bool full = std::is_same_v<T, uint8_t> || std::is_same_v<T, float> || std::is_same_v<T, std::complex<double>> || std::is_same_v<T, int16_t>; // every source form
    const size_t form = full ? g.pick({2, 3, 4, 6, 2, 4}) : g.pick({3, 3});
    if (form == 0) { xt::xarray<T> a = xt::xarray<T>::from_shape(s); fill<T>(a, d); roundtrip<P, T>(g, a, "row-major"); return; }
    if (form == 1) { auto a = xt::xarray<T, xt::layout_type::column_major>::from_shape(s); fill<T>(a, d); roundtrip<P, T>(g, a, "column-major"); return; }
    if constexpr (full) switch (form) {
        case 2: { xt::xarray<T> a = xt::xarray<T>::from_shape(s); fill<T>(a, d); auto t = xt::transpose(a); roundtrip<P, T>(g, t, "transposed"); break; }
        case 3: { // a strided view: per dimension a start, a step (possibly backwards) or one index
            xt::xarray<T> a = xt::xarray<T>::from_shape(s); fill<T>(a, d);
            xt::xstrided_slice_vector sv;
            for (size_t n : s) {
                switch (n == 0 ? 0 : g.pick({2, 3, 3, 1, 1})) {
                    case 0: sv.push_back(xt::all()); break;
                    case 1: { size_t lo = g.below(n); sv.push_back(xt::range(ptrdiff_t(lo), ptrdiff_t(g.range(lo, n)))); break; }
                    case 2: { size_t lo = g.below(n); sv.push_back(xt::range(ptrdiff_t(lo), ptrdiff_t(n), ptrdiff_t(g.range(1, 3)))); break; }
                    case 3: sv.push_back(ptrdiff_t(g.below(n))); break;
                    default: sv.push_back(xt::newaxis()); sv.push_back(xt::all()); break;
                }
            }
            auto v = xt::strided_view(a, sv);
            roundtrip<P, T>(g, v, "strided view");
            break;
        }
        case 4: { // fixed rank, either layout
            Shape s3 = s; s3.resize(3, 1);
            xt::xtensor<T, 3> a(std::array<size_t, 3>{s3[0], s3[1], s3[2]});
            const Bytes d3 = gen_data<T>(g, prod(s3)); fill<T>(a, d3);
            roundtrip<P, T>(g, a, "fixed rank");
            break;
        }
        default: { // rows or columns of a matrix
            Shape s2 = s; s2.resize(2, 2);
            xt::xtensor<T, 2> a(std::array<size_t, 2>{s2[0], s2[1]});
            const Bytes d2 = gen_data<T>(g, prod(s2)); fill<T>(a, d2);
            if (prod(s2) == 0) { roundtrip<P, T>(g, a, "fixed rank"); break; }
            if (g.coin()) { auto v = xt::view(a, g.below(s2[0]), xt::all()); roundtrip<P, T>(g, v, "row of a matrix"); }
            else { const size_t j = g.below(s2[1]); auto v = xt::view(a, xt::all(), xt::range(j, s2[1])); roundtrip<P, T>(g, v, "columns of a matrix"); }
            break;
        }
    }
}

// ------------------------------------------------------------------ Eigen
template <class M> std::string melements(const M& m) {
    std::string o;
    for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) { const typename M::Scalar x = m.coeff(i, j); o += bits(x); }
    return o;
}
template <class P, class T, int R, int C, int Opt> void ecase(Gen& g, const char* form) {
    using M = Eigen::Matrix<T, R, C, Opt>;
    const Eigen::Index r = R == Eigen::Dynamic ? Eigen::Index(g.pick({8, 1}) ? g.one_of<size_t>({0, 16, 17, 40}) : g.range(1, 6)) : R;
    const Eigen::Index c = C == Eigen::Dynamic ? Eigen::Index(g.pick({8, 1}) ? g.one_of<size_t>({0, 16, 17, 40}) : g.range(1, 6)) : C;
    M m(r, c);
    const Bytes d = gen_data<T>(g, size_t(r * c));
    size_t k = 0;
    for (Eigen::Index i = 0; i < r; ++i) for (Eigen::Index j = 0; j < c; ++j) { T x; std::memcpy(&x, d.data() + k, sizeof x); k += sizeof x; m.coeffRef(i, j) = x; }
    const std::string w = melements(m);
    const bool rowmajor = M::IsRowMajor;
    constexpr int RO = (Opt & Eigen::RowMajor) ? Eigen::RowMajor : Eigen::ColMajor;
    g.label(std::string("form ") + form); g.nontrivial(r * c > 1);
    g.describe([&] { return std::string(tname<T>()) + " Eigen " + form + " " + std::to_string(r) + "x" + std::to_string(c) + " " + pbt::hex(w, 64); });
    auto compare = [&](const auto& x, const std::string& at) {
        REQUIRE(x.rows() == r && x.cols() == c, at + ": " + std::to_string(x.rows()) + "x" + std::to_string(x.cols()));
        REQUIRE(melements(x) == w, at + ": elements differ");
    };
    through<P>(g, m, code<T>(), Want{{size_t(r), size_t(c)}, w}, std::string(reinterpret_cast<const char*>(m.data()), w.size()), [&](const auto& v, const std::string& at) {
        compare(ze::asEigenMatrix<T, R, C, false, RO>(v), at);
        if constexpr (RO == ((R == 1 && C != 1) ? Eigen::RowMajor : Eigen::ColMajor)) { // the order need not be named where it is Eigen's own
            compare(ze::asEigenMatrix<T, R, C>(v), at + " by default"); auto y = ze::asEigenMatrixView<T, R, C>(v); compare(y.map(), at + " map() by default");
        }
        auto x = ze::asEigenMatrixView<T, R, C, false, RO>(v);
        REQUIRE(x.rows() == size_t(r) && x.cols() == size_t(c), at);
        compare(x.map(), at + " map()"); compare(x.matrix(), at + " matrix()");
        if constexpr (R != Eigen::Dynamic || C != Eigen::Dynamic) {
            // a vector has the same memory layout in either order; other matrices are read in their own
            compare(ze::asEigenMatrix<T, Eigen::Dynamic, Eigen::Dynamic, false, RO>(v), at + " as dynamic");
        }
        if (rowmajor || r == 1 || c == 1) { // the same tensor through the other library
            auto a = zx::asXTensor<T, 2>(v);
            REQUIRE((shape_of(a) == Shape{size_t(r), size_t(c)}) && elements(a) == w, at + " as xtensor");
        }
        check_refused<T>(g, v, at);
        if (std::is_same_v<T, int16_t>) MUST_THROW((ze::asEigenMatrix<uint16_t, R, C, false, RO>(v)), at);
    });
}
// The map form: {shape, dtype, data}.
template <class P, class T> void mapcase(Gen& g) {
    const Shape s = gen_shape(g);
    auto a = xt::xarray<T>::from_shape(s); fill<T>(a, gen_data<T>(g, prod(s)));
    const Want w{s, elements(a)};
    g.nontrivial(prod(s) > 1); g.label("form map");
    g.describe([&] { return std::string(tname<T>()) + " as a map " + show(s) + " " + pbt::hex(w.data, 64); });
    std::vector<uint64_t> us(s.begin(), s.end()); std::vector<int64_t> is(s.begin(), s.end());
    auto data = zerialize::span_from_data_of(a);
    const Bytes b = g.coin() ? to_bytes(zerialize::serialize<P>(zerialize::zmap<"shape", "dtype", "data">(us, code<T>(), data)))
                             : to_bytes(zerialize::serialize<P>(zerialize::zmap<"data", "extra", "dtype", "shape">(data, "x", code<T>(), is)));
    auto h = hold<P>(b, g.below(4), g.below(16));
    auto x = zx::asXTensor<T, -1, true>(*h);
    REQUIRE(shape_of(x) == w.shape && elements(x) == w.data, "map form");
    REQUIRE((zerialize::isTensor<T, true>(*h)) && !(zerialize::isTensor<T, false>(*h)), "isTensor of the map form");
    MUST_THROW((zx::asXTensor<T>(*h)), "a map read as the array form");
    if (s.size() == 2) {
        auto m = ze::asEigenMatrix<T, Eigen::Dynamic, Eigen::Dynamic, true, Eigen::RowMajor>(*h);
        REQUIRE(size_t(m.rows()) == s[0] && size_t(m.cols()) == s[1] && melements(m) == w.data, "map form as Eigen");
    }
}
// Extents beyond 32 bits (in arrays without elements): kept, or refused by the writer or by the reader; never changed.
template <class P> void hugecase(Gen& g) {
    Shape s{0}; const size_t r = g.range(0, 2);
    for (size_t i = 0; i < r; ++i) s.push_back(g.below(4));
    s.insert(s.begin() + ptrdiff_t(g.below(s.size() + 1)), g.one_of<size_t>({0xffffffff, 0x100000000, 0x100000001, 0x100000003, 0x1ffffffff, 0x200000000, size_t(1) << 40, 5}));
    g.nontrivial(); g.describe([&] { return "no elements, shape " + show(s); });
    try {
        Bytes b; bool eig = s.size() == 2 && g.coin();
        if (eig) b = to_bytes(zerialize::serialize<P>(Eigen::Matrix<float, Eigen::Dynamic, Eigen::Dynamic>(Eigen::Index(s[0]), Eigen::Index(s[1]))));
        else { auto a = xt::xarray<float>::from_shape(s); b = to_bytes(zerialize::serialize<P>(a)); }
        auto h = hold<P>(b);
        auto a = zx::asXTensor<float>(*h);
        REQUIRE(shape_of(a) == s, "decoded with shape " + show(shape_of(a)));
        g.label("kept");
    } catch (const SerializationError&) { g.label("refused by the writer"); }
    catch (const DeserializationError&) { g.label("refused by the reader"); }
}
// Real data of extents beyond 8, 16 and 24 bits, in plain and transposed order.
template <class P> void largecase(Gen& g) {
    const size_t d = g.one_of<size_t>({300, 4097, 65535, 65536, 65537, 100003}); Shape s{d};
    if (g.coin()) s.insert(s.begin() + ptrdiff_t(g.below(2)), g.range(2, 5));
    const bool cols = g.coin(); const uint64_t seed = g.u64();
    g.nontrivial(); g.describe([&] { return std::string(PT<P>::name) + " float, shape " + show(s) + (cols ? " column-major" : ""); });
    auto value = [&](size_t i, size_t j) { return std::bit_cast<float>(uint32_t((seed ^ (i * 0x9e3779b97f4a7c15ull + j * 0xc2b2ae3d27d4eb4full)) >> 33)); };
    auto same = [](float a, float b) { return std::bit_cast<uint32_t>(a) == std::bit_cast<uint32_t>(b); };
    Bytes b; auto n = prod(s);
    if (s.size() == 1) { xt::xtensor<float, 1> a = xt::empty<float>({s[0]}); for (size_t i = 0; i < n; ++i) a(i) = value(i, 0); b = to_bytes(zerialize::serialize<P>(a)); }
    else if (!cols) { xt::xtensor<float, 2> a = xt::empty<float>({s[0], s[1]}); for (size_t i = 0; i < s[0]; ++i) for (size_t j = 0; j < s[1]; ++j) a(i, j) = value(i, j); b = to_bytes(zerialize::serialize<P>(a)); }
    else { xt::xtensor<float, 2, xt::layout_type::column_major> a = xt::empty<float>({s[0], s[1]}); for (size_t i = 0; i < s[0]; ++i) for (size_t j = 0; j < s[1]; ++j) a(i, j) = value(i, j); b = to_bytes(zerialize::serialize<P>(a)); }
    auto h = hold<P>(b, g.below(4)); auto a = zx::asXTensor<float>(*h); REQUIRE(shape_of(a) == s, "shape " + show(shape_of(a)));
    for (size_t i = 0; i < s[0]; ++i) for (size_t j = 0; j < (s.size() == 2 ? s[1] : 1); ++j) {
        const float x = s.size() == 2 ? a(i, j) : a(i);
        REQUIRE(same(x, value(i, j)), "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
    if (s.size() == 2) {
        Eigen::MatrixXf m(s[0], s[1]); for (size_t i = 0; i < s[0]; ++i) for (size_t j = 0; j < s[1]; ++j) m(Eigen::Index(i), Eigen::Index(j)) = value(i, j);
        auto hb = hold<P>(to_bytes(zerialize::serialize<P>(m)), g.below(4)); auto e = ze::asEigenMatrix<float, Eigen::Dynamic, Eigen::Dynamic>(*hb);
        REQUIRE(size_t(e.rows()) == s[0] && size_t(e.cols()) == s[1], "Eigen shape");
        for (size_t i = 0; i < s[0]; ++i) for (size_t j = 0; j < s[1]; ++j) REQUIRE(same(e(Eigen::Index(i), Eigen::Index(j)), value(i, j)), "Eigen element (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
}
// element types are split over two translation units per protocol
#if TSUB == 0
using Ts = TL<int8_t, int32_t, uint8_t, uint32_t, float, std::complex<float>>;
#else
using Ts = TL<int16_t, int64_t, uint16_t, uint64_t, double, std::complex<double>, half>;
#endif
#define M(P, nm) \
    PART("xtensor/" nm "/" TSUB_NAME, 5000, 400000) { with_t(Ts{}, g.below(count_t(Ts{})), [&]<class T> { g.label(tname<T>()); xcase<P, T>(g); }); } \
    PART("eigen/" nm "/" TSUB_NAME, 4000, 400000) { with_t(Ts{}, g.below(count_t(Ts{})), [&]<class T> { g.label(tname<T>()); \
        constexpr bool rows = std::is_same_v<T, float> || std::is_same_v<T, int16_t>; \
        switch (g.below(rows ? 8 : 6)) { \
            case 0: ecase<P, T, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>(g, "dynamic column-major"); break; \
            case 1: ecase<P, T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>(g, "dynamic row-major"); break; \
            case 2: ecase<P, T, 3, 2, Eigen::ColMajor>(g, "3x2"); break; \
            case 3: ecase<P, T, 2, 4, Eigen::RowMajor>(g, "2x4 row-major"); break; \
            case 4: ecase<P, T, Eigen::Dynamic, 1, Eigen::ColMajor>(g, "vector"); break; \
            case 5: ecase<P, T, Eigen::Dynamic, 3, Eigen::ColMajor>(g, "n x 3"); break; \
            case 6: if constexpr (rows) ecase<P, T, 1, Eigen::Dynamic, Eigen::RowMajor>(g, "row vector"); break; \
            default: if constexpr (rows) ecase<P, T, 1, 3, Eigen::RowMajor>(g, "1x3"); break; \
        } }); } \
    PART("map-form/" nm "/" TSUB_NAME, 2500, 200000) { with_t(Ts{}, g.below(count_t(Ts{})), [&]<class T> { g.label(tname<T>()); mapcase<P, T>(g); }); }
PER_PROTOCOL(M)
#if TSUB == 0
#define H(P, nm) PART("huge-extents/" nm, 500, 20000) { hugecase<P>(g); } PART("large/" nm, 25, 1500) { largecase<P>(g); }
PER_PROTOCOL(H)
#endif
