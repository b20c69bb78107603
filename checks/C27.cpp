// C27: messages, answers and printed forms are functions of the value (or the message) alone.
#include "../engine/protocols.hpp"
#include "../engine/world.hpp"
#include "../engine/tus.hpp"
#include <zerialize/zbuilders.hpp>
#include <list>
#if TU == 5 || TU == -1
#include "../engine/tensors.hpp"
#include <xtensor/xtensor.hpp>
#include <xtensor/xfixed.hpp>
#endif
using namespace zt;
using world::Circumstances;
using Log = std::string;

static Circumstances circumstances(Gen& g, bool plain) {
    Circumstances c; c.fill = uint32_t(g.one_of<uint64_t>({0, 255, 0xa5, 1, 128, 256 + g.below(100000)}));
    if (plain) return c;
    c.thread = g.chance(1, 8); c.locale = g.chance(1, 3); c.unwinding = g.chance(1, 6); c.depth = size_t(g.below(40)) * 16;
    return c;
}
static void num(Log& l, uint64_t x) { char b[20]; int n = 0; do b[n++] = char('0' + x % 10); while (x /= 10); while (n) l += b[--n]; l += ' '; }
static void bytes(Log& l, std::span<const uint8_t> s) { num(l, s.size()); l.append(reinterpret_cast<const char*>(s.data()), s.size()); }
static void text(Log& l, std::string_view s) { num(l, s.size()); l += s; }

// Runs f in two circumstances; what it reports must be the same.
template <class F> void alike(Gen& g, const std::string& what, F&& f) {
    Circumstances a = circumstances(g, g.coin()), b = circumstances(g, false);
    if (b.fill == a.fill) b.fill ^= 0xff;
    Log x, y;
    auto once = [&](const Circumstances& c, Log& l) { Log o; world::run(c, [&] { f(o); }); l = o; };
    once(a, x); once(b, y);
    g.label(b.locale || a.locale ? "locale" : b.unwinding || a.unwinding ? "unwinding" : a.thread || b.thread ? "thread" : "memory");
    if (x != y) {
        size_t i = 0; while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
        const size_t from = i > 12 ? i - 12 : 0;
        FAILMSG(what + " depends on the circumstances: with " + a.text() + " it gives ..." + model::quote(x.substr(from, 40)) + ", with " + b.text() + " ..." + model::quote(y.substr(from, 40)) + " (first difference at " + std::to_string(i) + " of " + std::to_string(x.size()) + " and " + std::to_string(y.size()) + ")");
    }
}
struct Fails { int n; };
template <zerialize::Writer W> void serialize(const Fails& f, W& w) { w.begin_array(3); w.string("before the failure"); if (f.n) throw 1; w.end_array(); }

static zerialize::dyn::Value dynamic(const Node& n) {
    using zerialize::dyn::Value;
    switch (n.k) {
        case Node::Null: return Value();
        case Node::Bool: return Value(n.b);
        case Node::Int: return Value(n.i);
        case Node::UInt: return Value(n.u);
        case Node::Dbl: return Value(n.d);
        case Node::Str: return Value(n.s);
        case Node::Blob: { std::vector<std::byte> b(n.s.size()); if (!b.empty()) std::memcpy(b.data(), n.s.data(), b.size()); return Value(std::move(b)); }
        case Node::Arr: { Value::Array a; for (auto& x : n.a) a.push_back(dynamic(x)); return Value(std::move(a)); }
        default: { Value::Map m; for (auto& [k, x] : n.m) m.emplace_back(k, dynamic(x)); return Value(std::move(m)); }
    }
}
template <class P> void writing(Gen& g) {
    const Dom d = PT<P>::dom();
    const Node n = g.chance(1, 30) ? model::gen_wide(g, d) : model::gen_tree(g, d, false), other = model::gen_tree(g, d, false);
    const int form = int(g.below(5)), before = int(g.below(6));
    g.nontrivial(model::interesting(n)); g.describe([&] { return "form " + std::to_string(form) + " of " + model::show(n) + (before < 3 ? ", after writing another value" : ""); });
    std::vector<int64_t> ints; for (size_t i = 0, k = g.below(20); i < k; ++i) ints.push_back(int64_t(g.u64()));
    const std::string s = model::gen_tree(g, d, false).k == Node::Str ? std::string("text") : std::string(g.below(40), 's');
    bool second = false;
    alike(g, std::string("the ") + PT<P>::name + " message", [&](Log& l) {
        const bool busy = second; second = true; // only one of the two has a history
        std::unique_ptr<typename P::RootSerializer> open; std::unique_ptr<typename P::Serializer> ow;
        if (busy) switch (before) {
            case 0: (void)encode<P>(other); break;
            case 1: open = std::make_unique<typename P::RootSerializer>(); ow = std::make_unique<typename P::Serializer>(*open); ow->begin_array(2); model::emit(other, *ow); break; // never finished
            case 2: try { (void)zerialize::serialize<P>(zerialize::zvec(1, Fails{1})); } catch (int) {} break;
            default: break;
        }
        switch (form) {
            case 0: bytes(l, encode<P>(n)); break;
            case 1: { auto v = dynamic(n); auto z = zerialize::serialize<P>(v); bytes(l, z.buf()); break; }
            case 2: { auto z = zerialize::serialize<P>(zerialize::zmap<"a", "b", "c">(n, zerialize::zvec(s, ints, true), std::list<std::string>{s, "x"})); bytes(l, z.buf()); text(l, z.to_string()); text(l, z.hexdump(16)); text(l, z.to_debug_string()); break; }
            case 3: { auto z = zerialize::serialize<P>(n); bytes(l, z.to_vector_copy()); typename P::Deserializer r(z.buf()); text(l, r.to_string()); break; }
            default: { std::map<std::string, std::vector<std::string>> m{{"k", {s, "", s + s}}, {"l", {}}}; bytes(l, zerialize::serialize<P>(m).buf()); break; }
        }
        // the part of the memory the message leaves is given away and used again
        bytes(l, encode<P>(Node::str(s)));
    });
}
// Everything a reader answers, in words.
template <class V> void transcript(Log& l, const V& v, int depth, int& budget) {
    if (--budget < 0) return;
    auto say = [&](char op, auto&& f) { l += op; try { f(); } catch (const std::exception& e) { l += "! "; text(l, e.what()); } };
    say('k', [&] { num(l, uint64_t(v.isNull()) + 2 * v.isBool() + 4 * v.isInt() + 8 * v.isUInt() + 16 * v.isFloat() + 32 * v.isString() + 64 * v.isBlob() + 128 * v.isArray() + 256 * v.isMap()); });
    say('i', [&] { num(l, uint64_t(v.asInt64())); }); say('u', [&] { num(l, v.asUInt64()); }); say('c', [&] { num(l, uint64_t(v.asInt8())); });
    say('d', [&] { num(l, std::bit_cast<uint64_t>(v.asDouble())); }); say('b', [&] { num(l, v.asBool()); });
    say('s', [&] { text(l, v.asString()); }); say('v', [&] { text(l, v.asStringView()); });
    say('x', [&] { auto b = v.asBlob(); text(l, blob_str(b)); });
    std::vector<std::string> keys; size_t size = 0;
    say('n', [&] { num(l, size = v.arraySize()); });
    say('m', [&] { for (std::string_view k : v.mapKeys()) { if (keys.size() < 20) keys.emplace_back(k); text(l, k); } });
    say('q', [&] { num(l, v.contains("a")); });
    if (depth <= 0) return;
    for (size_t i = 0; i < std::min<size_t>(size, 12); ++i) say('[', [&] { auto c = v[i]; transcript(l, c, depth - 1, budget); });
    say(']', [&] { auto c = v[size]; l += c.isNull() ? 'N' : 'n'; });
    for (auto& k : keys) say('{', [&] { auto c = v[std::string_view(k)]; transcript(l, c, depth - 1, budget); });
    say('}', [&] { auto c = v[std::string_view("no such key")]; l += c.isNull() ? 'N' : 'n'; });
}
template <class P> void all_of(Log& l, const Bytes& b, size_t off, uint64_t route, int extra, size_t depth) {
    try {
        auto h = hold<P>(b, route, off);
        int budget = 60; transcript(l, *h, int(depth), budget);
        if (extra & 1) { try { text(l, h->to_string()); } catch (const std::exception& e) { text(l, e.what()); } }
        if (extra & 2) { try { zerialize::MsgPack::RootSerializer rs; zerialize::MsgPack::Serializer w(rs); zerialize::write_value(*h, w); bytes(l, rs.finish().buf()); } catch (const std::exception& e) { text(l, e.what()); } }
        if (extra & 4) { try { zerialize::Zera::RootSerializer rs; zerialize::Zera::Serializer w(rs); zerialize::write_value(*h, w); bytes(l, rs.finish().buf()); } catch (const std::exception& e) { text(l, e.what()); } }
        if constexpr (std::is_copy_constructible_v<typename P::Deserializer>) if (extra & 8) { auto c = *h; h.d.reset(); int more = 20; transcript(l, c, 2, more); }
    } catch (const std::exception& e) { l += "not opened: "; text(l, e.what()); }
}
template <class P> void reading(Gen& g) {
    const Dom d = PT<P>::dom(); const Node n = model::gen_tree(g, d, false); const Bytes b = encode<P>(n);
    const size_t off = size_t(g.below(16)), off2 = size_t(g.below(16)); const int extra = int(g.below(16)); const uint64_t route = g.below(4);
    g.nontrivial(model::interesting(n)); g.describe([&] { return model::show(n); });
    bool second = false;
    alike(g, std::string("reading a ") + PT<P>::name + " message", [&](Log& l) { const bool s = second; second = true; all_of<P>(l, b, s ? off2 : off, route, extra, 4); });
}
template <class P> void damaged(Gen& g) {
    const Dom d = PT<P>::dom(); const Node n = model::gen_tree(g, d, false); Bytes b = encode<P>(n);
    for (size_t i = 0, k = g.range(1, 4); i < k && !b.empty(); ++i) switch (g.below(6)) {
        case 0: b[g.below(b.size())] ^= uint8_t(1u << g.below(8)); break;
        case 1: b[g.below(std::min<size_t>(b.size(), 40))] = uint8_t(g.u64()); break;
        case 2: { const size_t at = g.below(b.size()); for (size_t j = at; j < b.size() && j < at + 4; ++j) b[j] = g.coin() ? 0xff : 0; break; }
        case 3: b.resize(b.size() - g.below(std::min<size_t>(b.size(), 9))); break;
        case 4: { const size_t at = g.below(b.size()), w = std::min<size_t>(16, b.size() - at); const size_t to = g.below(b.size() - w + 1); std::memmove(b.data() + to, b.data() + at, w); break; }
        default: b.push_back(uint8_t(g.u64())); break;
    }
    const size_t off = size_t(g.below(16)), off2 = size_t(g.below(16)); const int extra = int(g.below(16)); const uint64_t route = g.below(4);
    g.nontrivial(b.size() > 4); g.describe([&] { return pbt::hex(b); });
    bool second = false;
    alike(g, std::string("reading a damaged ") + PT<P>::name + " message", [&](Log& l) { const bool s = second; second = true; all_of<P>(l, b, s ? off2 : off, route, extra, 4); });
}
#define M(P, nm) PART("writing/" nm, 12000, 1000000) { writing<P>(g); } PART("reading/" nm, 8000, 800000) { reading<P>(g); }
PER_PROTOCOL(M)
#define H(P, nm) PART("damaged/" nm, 15000, 2000000) { damaged<P>(g); }
ON_ZERA(H(zerialize::Zera, "zera"))
ON_MSGPACK(H(zerialize::MsgPack, "msgpack"))
ON_JSON(H(zerialize::JSON, "json"))
ON_CBOR(H(zerialize::CBOR, "cbor"))

#if TU == 5 || TU == -1
using namespace tz;
template <class P, class T> void tensor(Gen& g) {
    const Shape s = gen_shape(g, 4, 600); const auto data = gen_data<T>(g, prod(s)); const int form = int(g.below(5));
    std::vector<T> v(prod(s)); if (!v.empty()) std::memcpy(v.data(), data.data(), data.size());
    const size_t off = size_t(g.below(16)), off2 = size_t(g.below(16)), cut = !std::is_same_v<P, zerialize::Flex> && g.chance(1, 4) ? size_t(g.below(9)) : 0;
    g.nontrivial(v.size() > 1); g.describe([&] { return std::string(tname<T>()) + show(s) + " in " + PT<P>::name + ", form " + std::to_string(form); });
    bool second = false;
    alike(g, std::string("a tensor in ") + PT<P>::name, [&](Log& l) {
        const size_t o = second ? off2 : off; second = true;
        ZBuffer z;
        const size_t rows = s.empty() ? 1 : s[0], cols = prod(s) / (rows ? rows : 1);
        switch (form) {
            case 0: { xt::xarray<T> a = xt::xarray<T>::from_shape(s); std::copy(v.begin(), v.end(), a.storage().begin()); z = zerialize::serialize<P>(a); break; }
            case 1: { xt::xarray<T, xt::layout_type::column_major> a = xt::xarray<T, xt::layout_type::column_major>::from_shape(s); std::copy(v.begin(), v.end(), a.storage().begin()); z = zerialize::serialize<P>(a); break; }
            case 2: { xt::xarray<T> a = xt::xarray<T>::from_shape(s); std::copy(v.begin(), v.end(), a.storage().begin()); auto t = xt::transpose(a); z = zerialize::serialize<P>(t); break; }
            case 3: { Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m(rows, cols); std::copy(v.begin(), v.begin() + long(rows * cols), m.data()); z = zerialize::serialize<P>(m); break; }
            default: { Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> m(rows, cols); std::copy(v.begin(), v.begin() + long(rows * cols), m.data()); z = zerialize::serialize<P>(zerialize::zvec(7, m)); break; }
        }
        bytes(l, z.buf());
        Bytes b = to_bytes(z); b.resize(b.size() - std::min(cut, b.size()));
        try {
            auto h = hold<P>(b, 0, o);
            auto read = [&](const auto& r) {
                try { auto view = zerialize::xtensor::asXTensorView<T>(r); for (auto d : shape_of(view.array())) num(l, d); text(l, elements(view.array())); } catch (const std::exception& e) { text(l, e.what()); }
                try { auto a = zerialize::xtensor::asXTensor<T>(r); for (auto d : shape_of(a)) num(l, d); text(l, elements(a)); } catch (const std::exception& e) { text(l, e.what()); }
                try { auto m = zerialize::eigen::asEigenMatrix<T, Eigen::Dynamic, Eigen::Dynamic, false, Eigen::RowMajor>(r); num(l, uint64_t(m.rows())); num(l, uint64_t(m.cols())); for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) l += bits(T(m(i, j))); } catch (const std::exception& e) { text(l, e.what()); }
            };
            if (form == 4) { auto c = (*h)[size_t(1)]; read(c); } else read(*h);
        } catch (const std::exception& e) { text(l, e.what()); }
    });
}
template <class P> void tensor_of(Gen& g) { with_t(TL<int8_t, int16_t, uint32_t, int64_t, float, double, std::complex<float>, half>{}, g.below(8), [&]<class T>() { tensor<P, T>(g); }); }
PART("tensors", 8000, 600000) { switch (g.below(3)) { case 0: tensor_of<zerialize::Zera>(g); break; case 1: tensor_of<zerialize::MsgPack>(g); break; default: tensor_of<zerialize::Flex>(g); } }
#endif
