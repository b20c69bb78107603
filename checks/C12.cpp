// C12: decoding as a tensor succeeds exactly for the requested tensor.
#include "../engine/tsplit.hpp"
#include "../engine/tensors.hpp"
using namespace tz;
namespace zx = zerialize::xtensor;
namespace ze = zerialize::eigen;

// What the description says, read off the model alone.
struct Said {
    bool structural = false;       // an array (or map) with an integer type code, an array and a blob in place
    bool code_unsigned = false;    // the code is tagged unsigned: acceptance not required
    bool surplus = false;          // more than three elements: acceptance not required
    std::optional<int64_t> code;   // the announced element type
    bool shape_ok = false;         // every dimension is an integer in 32 bits
    bool vast = false;             // the non-zero extents multiply beyond 63 bits
    Shape shape; __uint128_t count = 0;
    std::string data;
    bool blob_shape = false;       // a blob stands for the shape (JSON's blobs are arrays as well)
};
static const Node* member(const Node& n, const char* k) { for (auto& e : n.m) if (e.first == k) return &e.second; return nullptr; }
static Said said(const Node& n, bool map) {
    Said r; const Node *c = nullptr, *s = nullptr, *d = nullptr;
    if (map) { if (n.k != Node::Map) return r; c = member(n, "dtype"); s = member(n, "shape"); d = member(n, "data"); }
    else { if (n.k != Node::Arr || n.a.size() < 3) return r; c = &n.a[0]; s = &n.a[1]; d = &n.a[2]; r.surplus = n.a.size() > 3; }
    r.blob_shape = s && s->k == Node::Blob;
    if (!c || !s || !d || !c->isint() || s->k != Node::Arr || d->k != Node::Blob) return r;
    r.structural = true; r.code_unsigned = c->k == Node::UInt;
    if (c->negative() || c->magnitude() <= uint64_t(INT64_MAX)) r.code = c->negative() ? c->i : int64_t(c->magnitude());
    r.data = d->s; r.shape_ok = true; r.count = 1; bool zero = false;
    const __uint128_t cap = __uint128_t(1) << 90;
    __uint128_t nz = 1;
    for (auto& e : s->a) {
        if (!e.isint() || e.negative() || e.magnitude() > 0xffffffffu) { r.shape_ok = false; return r; }
        r.shape.push_back(e.magnitude());
        if (e.magnitude() == 0) zero = true; else { nz *= e.magnitude(); if (nz > cap) nz = cap; }
    }
    r.count = zero ? 0 : nz; r.vast = nz >= (__uint128_t(1) << 63);
    return r;
}
enum Verdict { Reject, Accept, Either };
template <class T> Verdict verdict(const Said& s, bool keeps_sign, int rank, int rows, int cols) {
    if (!s.structural || !s.code || *s.code != code<T>() || !s.shape_ok) return Reject;
    if (rank >= 0 && s.shape.size() != size_t(rank)) return Reject;
    if (rows >= 0 && s.shape[0] != size_t(rows)) return Reject;
    if (cols >= 0 && s.shape[1] != size_t(cols)) return Reject;
    if (s.count * sizeof(T) != s.data.size()) return Reject;
    return (s.code_unsigned && keeps_sign) || s.surplus || s.vast ? Either : Accept;
}
template <class F> void decide(Gen& g, Verdict v, const char* what, F&& f) {
    bool ok = false;
    try { f(); ok = true; } catch (const DeserializationError& e) { if (v == Accept) FAILMSG(std::string(what) + " refused a proper tensor: " + e.what()); }
    if (ok && v == Reject) FAILMSG(std::string(what) + " accepted what is not the requested tensor");
    g.label(std::string(what) + (ok ? " accepted" : " refused"));
}
template <class T, int D, bool Map, class V> void try_x(Gen& g, const V& v, const Said& s, bool ks) {
    decide(g, verdict<T>(s, ks, D, -1, -1), "xtensor", [&] {
        auto x = zx::asXTensorView<T, D, Map>(v);
        REQUIRE(Shape(x.shape().begin(), x.shape().end()) == s.shape, "shape");
        auto a = x.array();
        REQUIRE(shape_of(a) == s.shape && elements(a) == s.data, "decoded elements");
        REQUIRE(elements(x.tensor()) == s.data, "elements through the view");
    });
}
template <class T, int R, int C, bool Map, class V> void try_e(Gen& g, const V& v, const Said& s, bool ks) {
    decide(g, verdict<T>(s, ks, 2, R == Eigen::Dynamic ? -1 : R, C == Eigen::Dynamic ? -1 : C), "Eigen", [&] {
        auto x = ze::asEigenMatrixView<T, R, C, Map, Eigen::RowMajor>(v);
        REQUIRE(x.rows() == s.shape[0] && x.cols() == s.shape[1], "shape");
        auto m = x.matrix(); std::string o; auto mp = x.map(); std::string o2;
        if (m.size() > 0) for (Eigen::Index i = 0; i < m.rows(); ++i) for (Eigen::Index j = 0; j < m.cols(); ++j) { T a = m.coeff(i, j), b = mp.coeff(i, j); o += bits(a); o2 += bits(b); }
        REQUIRE(o == s.data && o2 == s.data, "decoded elements");
    });
}
template <class T, bool Map, class V> void try_all(Gen& g, const V& v, const Said& s, bool ks) {
    try_x<T, -1, Map>(g, v, s, ks);
    try_e<T, Eigen::Dynamic, Eigen::Dynamic, Map>(g, v, s, ks);
    if constexpr (std::is_same_v<T, double> || std::is_same_v<T, uint8_t> || std::is_same_v<T, float>) {
        try_x<T, 2, Map>(g, v, s, ks); try_x<T, 0, Map>(g, v, s, ks); try_x<T, 1, Map>(g, v, s, ks);
        try_e<T, 2, 3, Map>(g, v, s, ks); try_e<T, Eigen::Dynamic, 2, Map>(g, v, s, ks);
    }
    const bool is = zerialize::isTensor<T, Map>(v), want = s.structural && s.code && *s.code == code<T>();
    if (!(want && ((s.code_unsigned && ks) || s.surplus)) && !s.blob_shape) REQUIRE(is == want, std::string("isTensor<") + tname<T>() + ">");
    const bool other = zerialize::isTensor<T, !Map>(v);
    REQUIRE(!other, "isTensor of the other form");
}

static size_t size_of_code(int64_t c) { switch (c) { case 0: case 4: return 1; case 1: case 5: case 14: return 2; case 2: case 6: case 10: return 4; case 13: return 16; default: return 8; } }
struct Wrap { int sh; size_t j; Shape dims; };
// Extents whose product is 2^sh + j.
static const std::vector<Wrap>& wraps() {
    static const std::vector<Wrap> w{
        {64, 4, {3340214413, 2761311370, 2}}, {64, 10, {2977518503, 3097670771, 2}}, {64, 21, {1174891961, 19950191, 787}},
        {63, 2, {3340214413, 2761311370}}, {63, 5, {2977518503, 3097670771}}, {63, 11, {260545223, 753197299, 47}},
        {62, 1, {3340214413, 1380655685}}, {62, 7, {2747424317, 1678548883}}, {62, 8, {3649452082, 1263665316}},
        {61, 4, {3649452082, 631832658}}, {61, 12, {2235334822, 1031542562}}, {61, 16, {2888378802, 798317384}},
        {60, 2, {3649452082, 315916329}}, {60, 6, {2235334822, 515771281}}, {60, 8, {2888378802, 399158692}},
        {64, 0, {65536, 65536, 65536, 65536}}, {63, 0, {2147483648, 2147483648, 2}}, {62, 0, {2147483648, 2147483648}}, {61, 0, {1073741824, 2147483648}}, {60, 0, {1073741824, 1073741824}},
        {32, 0, {65536, 65536}}, {32, 0, {4, 1073741824}}, {32, 1, {6700417, 641}},
    };
    return w;
}
static Node int_node(Gen& g, uint64_t v) { return v <= uint64_t(INT64_MAX) && g.coin() ? Node::sint(int64_t(v)) : Node::uint(v); }
static Node odd_value(Gen& g) {
    switch (g.below(8)) {
        case 0: return Node::null(); case 1: return Node::boolean(g.coin()); case 2: return Node::dbl(double(g.below(16)));
        case 3: return Node::str(g.coin() ? "10" : "abcd"); case 4: return Node::blob(std::string(g.below(9), 'b')); case 5: return Node::arr({});
        case 6: return Node::map({}); default: return Node::sint(int64_t(g.below(20)));
    }
}
static Node describe_tensor(Gen& g, bool map, int64_t c) {
    Shape s = g.chance(1, 3) ? Shape{2, 3} : gen_shape(g, 5, 300);
    size_t size = size_of_code(c);
    size_t len = prod(s) * size;
    Node code = Node::sint(c);
    std::optional<Node> shape, data;
    // extents that wrap around
    if (g.chance(1, 6)) {
        const Wrap& w = g.elem(wraps()); s = w.dims; g.label("wrapping shape");
        const unsigned __int128 p = ((unsigned __int128)1 << w.sh) + w.j;
        len = g.coin() ? size_t(uint64_t(p * size)) : size_t(uint64_t(p)) * size;
        if (w.sh == 32 && g.coin()) len = size_t(uint32_t(p)) * size;
        if (len > 4096) len = g.below(40);
        if (g.chance(1, 4)) { s.insert(s.begin() + ptrdiff_t(g.below(s.size() + 1)), 0); if (g.coin()) len = 0; }
    }
    Node sn = Node::arr({}); for (size_t d : s) sn.a.push_back(int_node(g, d));
    const size_t muts = g.pick({4, 6, 2});
    for (size_t i = 0; i < muts; ++i) {
        switch (g.pick({4, 4, 2, 2, 2, 2})) {
            case 0: // the type code
                switch (g.below(6)) {
                    case 0: code = Node::sint(int64_t(g.below(17)) - 1); break;
                    case 1: code = Node::uint(uint64_t(c)); break;
                    case 2: code = Node::sint(c + (int64_t(1) << g.one_of<int>({8, 16, 31, 32, 33, 40, 62}))); break;
                    case 3: code = Node::sint(c - (int64_t(1) << g.one_of<int>({8, 16, 31, 32, 33, 40, 62}))); break;
                    case 4: code = g.coin() ? Node::dbl(double(c)) : odd_value(g); break;
                    default: code = Node::uint(~0ull - g.below(3)); break;
                }
                break;
            case 1: // a dimension
                if (sn.a.empty()) { sn.a.push_back(int_node(g, g.below(3))); break; }
                {
                    const size_t d = g.below(sn.a.size()); const uint64_t was = sn.a[d].isint() && !sn.a[d].negative() ? sn.a[d].magnitude() : 1;
                    switch (g.below(9)) {
                        case 0: sn.a[d] = Node::sint(int64_t(0 - was)); break;
                        case 1: sn.a[d] = int_node(g, was + (1ull << 32)); break;
                        case 2: sn.a[d] = int_node(g, was + 1); break;
                        case 3: sn.a[d] = g.coin() ? Node::dbl(double(was)) : odd_value(g); break;
                        case 4: sn.a.erase(sn.a.begin() + ptrdiff_t(d)); break;
                        case 5: sn.a.insert(sn.a.begin() + ptrdiff_t(d), int_node(g, g.one_of<uint64_t>({1, 0, 2}))); break;
                        case 6: sn.a[d] = int_node(g, was + (1ull << g.range(33, 63))); break;
                        case 7: sn.a[d] = Node::sint(int64_t(was - (uint64_t(1) << g.one_of<int>({32, 33, 62})))); break;
                        default: sn.a[d] = int_node(g, g.one_of<uint64_t>({0, 0xffffffff, 0x100000000, ~0ull, 1ull << 63})); break;
                    }
                }
                break;
            case 2: len = g.coin() ? len + g.one_of<size_t>({1, size, size - 1, 7}) : len - std::min<size_t>(len, g.one_of<size_t>({1, size, size - 1, len})); break;
            case 3: shape = odd_value(g); break;
            case 4: data = odd_value(g); break;
            default: break;
        }
    }
    if (!shape) shape = sn;
    if (!data) { auto b = g.bytes(std::min<size_t>(len, 6000)); data = Node::blob(std::string(b.begin(), b.end())); }
    if (map) {
        std::vector<model::Entry> m{{"shape", *shape}, {"dtype", code}, {"data", *data}};
        if (g.chance(1, 4)) std::swap(m[g.below(3)], m[g.below(3)]);
        if (g.chance(1, 8)) m.erase(m.begin() + ptrdiff_t(g.below(3)));
        if (g.chance(1, 8)) m.push_back({g.coin() ? "x" : "Data", odd_value(g)});
        return Node::map(std::move(m));
    }
    std::vector<Node> a{code, *shape, *data};
    switch (g.pick({12, 1, 1, 1})) {
        case 1: a.erase(a.begin() + ptrdiff_t(g.below(3))); break;
        case 2: a.push_back(odd_value(g)); break;
        case 3: std::swap(a[g.below(3)], a[g.below(3)]); break;
        default: break;
    }
    return Node::arr(std::move(a));
}
template <class P, class T> void tensorish(Gen& g) {
    const bool map = g.chance(1, 3);
    const int64_t c = g.chance(9, 10) ? code<T>() : g.one_of<int64_t>({0, 1, 2, 3, 4, 5, 6, 7, 10, 11, 12, 13, 14});
    const Node n = describe_tensor(g, map, c);
    const Said s = said(n, map);
    g.nontrivial(s.structural);
    g.describe([&] { return std::string(tname<T>()) + (map ? " (map form) from " : " from ") + model::show(n); });
    auto h = hold<P>(encode<P>(n), g.below(4), g.coin() ? g.below(16) : 0);
    if (map) try_all<T, true>(g, *h, s, PT<P>::keeps_sign); else try_all<T, false>(g, *h, s, PT<P>::keeps_sign);
}
// Values that have nothing to do with tensors.
template <class P, class T> void anything(Gen& g) {
    const Node n = model::gen_tree(g, PT<P>::dom(), false);
    g.nontrivial(model::interesting(n)); g.describe([&] { return std::string(tname<T>()) + " from " + model::show(n); });
    auto h = hold<P>(encode<P>(n));
    try_all<T, false>(g, *h, said(n, false), PT<P>::keeps_sign);
    if (n.k == Node::Map) try_all<T, true>(g, *h, said(n, true), PT<P>::keeps_sign);
}
#if TSUB == 0
using Ts = TL<int8_t, int32_t, uint8_t, uint32_t, float, std::complex<float>>;
#else
using Ts = TL<int16_t, int64_t, uint16_t, uint64_t, double, std::complex<double>, half>;
#endif
#define M(P, nm) \
    PART("resembling/" nm "/" TSUB_NAME, 20000, 800000) { with_t(Ts{}, g.below(count_t(Ts{})), [&]<class T> { tensorish<P, T>(g); }); } \
    PART("anything/" nm "/" TSUB_NAME, 1500, 150000) { with_t(Ts{}, g.below(count_t(Ts{})), [&]<class T> { anything<P, T>(g); }); }
PER_PROTOCOL(M)
