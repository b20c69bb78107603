// The library's protocols, what each can carry, and readers over exactly sized messages.
#pragma once
#include "model.hpp"
#include <zerialize/zerialize.hpp>
#include <zerialize/dynamic.hpp>
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/flex.hpp>
#include <zerialize/protocols/msgpack.hpp>
#ifdef HAVE_JSON
#include <zerialize/protocols/json.hpp>
#endif
#ifdef HAVE_CBOR
#include <zerialize/protocols/cbor.hpp>
#endif

namespace model {
// ADL customisation point: a Node is serializable like any user type.
template <zerialize::Writer W> void serialize(const Node& n, W& w) { emit(n, w); }
}

namespace zt {
using model::Node;
using model::Dom;
using pbt::Gen;
using zerialize::DeserializationError;
using zerialize::SerializationError;
using zerialize::ZBuffer;
using Bytes = std::vector<uint8_t>;

template <class P> struct PT;
template <> struct PT<zerialize::Zera> {
    static constexpr const char* name = "zera";
    static Dom dom() { return {}; }
    static constexpr bool indexed = true; // elements are found without walking over the others
    static constexpr bool keeps_sign = true, sorted = false, span_blob = true, vec_ctor = true;
};
template <> struct PT<zerialize::Flex> {
    static constexpr const char* name = "flex";
    static Dom dom() { Dom d; d.nul_keys = false; d.max_key = 80000; return d; }
    static constexpr bool indexed = true; // elements are found without walking over the others
    static constexpr bool keeps_sign = true, sorted = true, span_blob = true, vec_ctor = true;
};
template <> struct PT<zerialize::MsgPack> {
    static constexpr const char* name = "msgpack";
    static Dom dom() { Dom d; d.max_key = 80000; return d; }
    static constexpr bool indexed = false; // elements are found without walking over the others
    static constexpr bool keeps_sign = false, sorted = false, span_blob = true, vec_ctor = true;
};
#ifdef HAVE_JSON
template <> struct PT<zerialize::JSON> {
    static constexpr const char* name = "json";
    static Dom dom() { Dom d; d.utf8 = true; d.nul_keys = false; d.finite = true; d.max_key = 80000; return d; }
    static constexpr bool indexed = false; // elements are found without walking over the others
    static constexpr bool keeps_sign = false, sorted = false, span_blob = false, vec_ctor = false;
};
#define IF_JSON(...) __VA_ARGS__
#else
#define IF_JSON(...)
#endif
#ifdef HAVE_CBOR
template <> struct PT<zerialize::CBOR> {
    static constexpr const char* name = "cbor";
    static Dom dom() { Dom d; d.max_key = 80000; return d; }
    static constexpr bool indexed = false; // elements are found without walking over the others
    static constexpr bool keeps_sign = false, sorted = false, span_blob = true, vec_ctor = true;
};
#define IF_CBOR(...) __VA_ARGS__
#else
#define IF_CBOR(...)
#endif

inline Bytes to_bytes(const ZBuffer& b) { auto s = b.buf(); return Bytes(s.begin(), s.end()); }

template <class P> Bytes encode(const Node& n) {
    typename P::RootSerializer rs{};
    typename P::Serializer w{rs};
    model::emit(n, w);
    return to_bytes(rs.finish());
}

// A message in memory of exactly its size, at a chosen offset from 16-byte alignment.
struct Exact {
    std::unique_ptr<uint8_t[]> mem; size_t n = 0, off = 0;
    explicit Exact(std::span<const uint8_t> b, size_t misalign = 0) : mem(new uint8_t[b.size() + misalign]), n(b.size()), off(misalign) {
        if (misalign) std::memset(mem.get(), 0xa5, misalign);
        if (n) std::memcpy(mem.get() + off, b.data(), n);
    }
    const uint8_t* data() const { return mem.get() + off; }
    std::span<const uint8_t> span() const { return {data(), n}; }
};

// A reader over `bytes`, built through one of the public constructors.
template <class P> struct Held {
    using D = typename P::Deserializer;
    std::unique_ptr<Exact> ext;
    std::unique_ptr<D> d;
    const D& operator*() const { return *d; }
    const D* operator->() const { return d.get(); }
};
// Does from_pointer() make a reader with bytes of its own?
template <class D> constexpr bool pointer_copies = !requires { D(static_cast<const uint8_t*>(nullptr), size_t(0)); } && requires { D::copy_from(std::span<const uint8_t>{}); };
// Through (pointer, size), of either byte type, or whatever else the reader offers instead.
template <class D> std::unique_ptr<D> from_pointer(const Exact& e) {
    const bool odd = e.n & 1;
    if constexpr (requires { D(static_cast<const std::byte*>(nullptr), size_t(0)); }) { if (odd) return std::make_unique<D>(reinterpret_cast<const std::byte*>(e.data()), e.n); }
    if constexpr (requires { D(std::string_view{}); }) { if (odd) return std::make_unique<D>(std::string_view(reinterpret_cast<const char*>(e.data()), e.n)); }
    if constexpr (requires { D(static_cast<const uint8_t*>(nullptr), size_t(0)); }) return std::make_unique<D>(e.data(), e.n);
    else if constexpr (requires { D::copy_from(std::span<const uint8_t>{}); }) return std::make_unique<D>(D::copy_from(e.span()));
    else return std::make_unique<D>(e.span());
}
template <class P> Held<P> hold(const Bytes& b, uint64_t route = 0, size_t misalign = 0) {
    using D = typename P::Deserializer;
    Held<P> h;
    constexpr bool vec = PT<P>::vec_ctor;
    if (vec && route == 1) { if constexpr (vec) { h.d = std::make_unique<D>(b); } }
    else if (vec && route == 2) { if constexpr (vec) { Bytes c(b); c.shrink_to_fit(); h.d = std::make_unique<D>(std::move(c)); } }
    else {
        h.ext = std::make_unique<Exact>(b, misalign);
        if (route == 3) { h.d = from_pointer<D>(*h.ext); if constexpr (pointer_copies<D>) h.ext.reset(); }
        else h.d = std::make_unique<D>(h.ext->span());
    }
    return h;
}

inline std::string blob_str(std::span<const std::byte> s) { return std::string(reinterpret_cast<const char*>(s.data()), s.size()); }
inline std::string blob_str(const std::vector<std::byte>& s) { return std::string(reinterpret_cast<const char*>(s.data()), s.size()); }

template <class F> bool throws_deser(F&& f, const char* what) {
    try { f(); } catch (const DeserializationError&) { return true; }
    catch (const pbt::Failure&) { throw; }
    catch (const std::exception& e) { pbt::fail(std::string(what) + " threw " + typeid(e).name() + " (" + e.what() + ") instead of DeserializationError"); }
    return false;
}
#define MUST_THROW(expr, ctx) do { if (!::zt::throws_deser([&] { (void)(expr); }, #expr)) ::pbt::fail(::pbt::where(__FILE__, __LINE__) + std::string(#expr) + " returned a value instead of throwing DeserializationError; " + (ctx)); } while (0)

// Which elements of a container of n to look at: all of a small one, boundaries and an arbitrary choice of a large one.
inline std::vector<size_t> sample_indices(size_t n, bool cheap = false) {
    std::vector<size_t> r;
    if (n <= 320 || (cheap && n <= 4000)) { for (size_t i = 0; i < n; ++i) r.push_back(i); return r; }
    for (size_t i : {size_t(0), size_t(1), size_t(14), size_t(15), size_t(16), size_t(17), size_t(31), size_t(32), size_t(33), size_t(127), size_t(128), size_t(254), size_t(255), size_t(256), size_t(257), size_t(1000), size_t(40000), n - 2, n - 1}) if (i < n) r.push_back(i);
    pbt::Rng g{n};
    for (size_t i = cheap ? 3000 : n > 5000 ? 12 : 60; i-- > 0;) r.push_back(g.next() % n);
    std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
    return r;
}

// The kinds a value must report. Blobs of JSON are arrays as well.
template <class P, class V> [[gnu::noinline]] void check_predicates(const V& v, const Node& n, const std::string& at, bool loose_sign = false) {
    auto ctx = [&] { return at + " should be " + model::show(n); };
    const bool null = v.isNull(), boolean = v.isBool(), in = v.isInt(), un = v.isUInt(), fl = v.isFloat(), st = v.isString(), bl = v.isBlob(), ar = v.isArray(), ma = v.isMap();
    REQUIRE(null == (n.k == Node::Null), ctx());
    REQUIRE(boolean == (n.k == Node::Bool), ctx());
    REQUIRE(fl == (n.k == Node::Dbl), ctx());
    REQUIRE(st == (n.k == Node::Str), ctx());
    REQUIRE(bl == (n.k == Node::Blob), ctx());
    REQUIRE(ma == (n.k == Node::Map), ctx());
    if (!(n.k == Node::Blob && !PT<P>::span_blob)) REQUIRE(ar == (n.k == Node::Arr), ctx());
    REQUIRE((in || un) == n.isint(), ctx());
    if (n.isint()) {
        if (PT<P>::keeps_sign && !loose_sign) { REQUIRE(in == (n.k == Node::Int), ctx()); REQUIRE(un == (n.k == Node::UInt), ctx()); }
        if (n.negative()) REQUIRE(!un, ctx());
        else if (n.magnitude() > uint64_t(INT64_MAX)) REQUIRE(!in, ctx());
    }
}

template <class T, class F> void int_accessor(F&& f, const Node& n, const char* what, const std::string& at) {
    bool fits;
    if (!n.isint()) fits = false;
    else if (n.negative()) fits = std::is_signed_v<T> && n.i >= int64_t(std::numeric_limits<T>::min());
    else fits = n.magnitude() <= uint64_t(std::numeric_limits<T>::max());
    if (fits) {
        T got{};
        try { got = f(); } catch (const DeserializationError& e) { pbt::fail(std::string(what) + " threw although the value fits: " + e.what() + "; " + at + " is " + model::show(n)); }
        const T want = n.negative() ? T(n.i) : T(n.magnitude());
        if (got != want) pbt::fail(std::string(what) + " returned " + std::to_string(got) + " at " + at + " for " + model::show(n));
    } else if (!throws_deser([&] { (void)f(); }, what)) {
        pbt::fail(std::string(what) + " returned a value instead of throwing at " + at + " for " + model::show(n));
    }
}
template <class V> void check_int_accessors(const V& v, const Node& n, const std::string& at) {
    int_accessor<int8_t>([&] { return v.asInt8(); }, n, "asInt8", at);
    int_accessor<int16_t>([&] { return v.asInt16(); }, n, "asInt16", at);
    int_accessor<int32_t>([&] { return v.asInt32(); }, n, "asInt32", at);
    int_accessor<int64_t>([&] { return v.asInt64(); }, n, "asInt64", at);
    int_accessor<uint8_t>([&] { return v.asUInt8(); }, n, "asUInt8", at);
    int_accessor<uint16_t>([&] { return v.asUInt16(); }, n, "asUInt16", at);
    int_accessor<uint32_t>([&] { return v.asUInt32(); }, n, "asUInt32", at);
    int_accessor<uint64_t>([&] { return v.asUInt64(); }, n, "asUInt64", at);
}

// Keys in the order a reader of P must list them for a map written as `n`.
template <class P> std::vector<std::string> key_order(const Node& n) {
    std::vector<std::string> k;
    for (auto& e : n.m) k.push_back(e.first);
    if (PT<P>::sorted) std::sort(k.begin(), k.end(), [](const std::string& a, const std::string& b) {
        const int c = std::memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
        return c ? c < 0 : a.size() < b.size();
    });
    return k;
}
template <class V> std::vector<std::string> keys_of(const V& v) {
    std::vector<std::string> k;
    auto view = v.mapKeys();
    for (std::string_view s : view) k.emplace_back(s);
    return k;
}

inline bool key_less(const std::string& a, const std::string& b) {
    const int c = std::memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
    return c ? c < 0 : a.size() < b.size();
}
inline void sort_maps(Node& n) {
    for (auto& x : n.a) sort_maps(x);
    for (auto& [k, x] : n.m) sort_maps(x);
    std::sort(n.m.begin(), n.m.end(), [](const model::Entry& a, const model::Entry& b) { return key_less(a.first, b.first); });
}
// A value without parts. Apart from check_value and not inlined: what is deeply nested should not need a deep stack here.
template <class P, class V> [[gnu::noinline]] void check_leaf(const V& v, const Node& n, const std::string& at) {
    auto ctx = [&] { return at + " should be " + model::show(n); };
    switch (n.k) {
        case Node::Null: break;
        case Node::Bool: REQUIRE(v.asBool() == n.b, ctx()); break;
        case Node::Int: case Node::UInt:
            if (n.negative()) REQUIRE(v.asInt64() == n.i, ctx());
            else {
                REQUIRE(v.asUInt64() == n.magnitude(), ctx());
                if (n.magnitude() <= uint64_t(INT64_MAX)) REQUIRE(v.asInt64() == int64_t(n.magnitude()), ctx());
                if (n.magnitude() <= 0xff) REQUIRE(v.asUInt8() == n.magnitude(), ctx());
                if (n.magnitude() <= 0xffff) REQUIRE(v.asUInt16() == n.magnitude(), ctx());
                if (n.magnitude() <= 0xffffffffu) REQUIRE(v.asUInt32() == n.magnitude(), ctx());
            }
            if (const int64_t i = n.negative() ? n.i : int64_t(n.magnitude()); n.negative() || i >= 0) { // the narrow ones, where the value fits
                if (i == int8_t(i)) REQUIRE(v.asInt8() == i, ctx());
                if (i == int16_t(i)) REQUIRE(v.asInt16() == i, ctx());
                if (i == int32_t(i)) REQUIRE(v.asInt32() == i, ctx());
            }
            break;
        case Node::Dbl: {
            const double d = v.asDouble();
            REQUIRE(std::bit_cast<uint64_t>(d) == std::bit_cast<uint64_t>(n.d), ctx() + " got " + std::to_string(d));
            const float f = v.asFloat(), want = static_cast<float>(n.d);
            REQUIRE(std::bit_cast<uint32_t>(f) == std::bit_cast<uint32_t>(want) || (f != f && want != want), ctx() + " as a float got " + std::to_string(f));
            break;
        }
        case Node::Str: {
            const auto sv = v.asStringView();
            REQUIRE(sv == n.s, ctx() + " got " + model::quote(std::string(sv)));
            REQUIRE(v.asString() == n.s, ctx());
            break;
        }
        case Node::Blob: {
            auto b = v.asBlob();
            REQUIRE(blob_str(b) == n.s, ctx() + " got " + pbt::hex(blob_str(b), 64));
            break;
        }
        default: break;
    }
}
// Compares the whole value behind a reader with the model. `loose_sign`: a non-negative
// integer may be of either signedness (it went through a protocol that does not keep it).
template <class P, class V> void check_value(const V& v, const Node& n, const std::string& at = "root", bool loose_sign = false) {
    check_predicates<P>(v, n, at, loose_sign);
    auto ctx = [&] { return at + " should be " + model::show(n); };
    switch (n.k) {
        default: check_leaf<P>(v, n, at); break;
        case Node::Arr: {
            REQUIRE(v.arraySize() == n.a.size(), ctx() + " got size " + std::to_string(v.arraySize()));
            for (size_t i : sample_indices(n.a.size(), PT<P>::indexed)) check_value<P>(v[i], n.a[i], n.a.size() > 40 || at.size() > 120 ? "elem" : at + "[" + std::to_string(i) + "]", loose_sign);
            break;
        }
        case Node::Map: {
            auto got = keys_of(v);
            auto want = key_order<P>(n);
            if (got != want) {
                std::string s; for (auto& k : got) { s += model::quote(k) + " "; if (s.size() > 600) break; }
                FAILMSG("mapKeys() lists " + s + "; " + ctx());
            }
            for (size_t i : sample_indices(n.m.size())) {
                auto& [k, x] = n.m[i];
                REQUIRE(v.contains(k), ctx() + " key " + model::quote(k));
                check_value<P>(v[std::string_view(k)], x, n.m.size() > 40 || at.size() > 120 ? "elem" : at + "." + model::quote(k, 12), loose_sign);
            }
            break;
        }
    }
}

// What a dump of the value must mention, in this order: keys, numbers, words, plain texts, sizes of blobs.
template <class P> void atoms(const Node& n, std::vector<std::string>& o, size_t& lines) {
    auto plain = [](const std::string& s) { for (unsigned char c : s) if (c < 0x20 || c > 0x7e || c == '"' || c == '\\' || c == '/') return false; return true; };
    switch (n.k) {
        case Node::Null: o.push_back("null"); break;
        case Node::Bool: o.push_back(n.b ? "true" : "false"); break;
        case Node::Int: o.push_back(std::to_string(n.i)); break;
        case Node::UInt: o.push_back(std::to_string(n.u)); break;
        case Node::Dbl: { std::ostringstream os; os << n.d; o.push_back(os.str()); break; }
        case Node::Str: if (plain(n.s)) o.push_back("\"" + n.s + "\""); break;
        case Node::Blob: o.push_back(std::to_string(n.s.size())); break;
        case Node::Arr: lines += 1 + n.a.size(); for (auto& x : n.a) atoms<P>(x, o, lines); break;
        case Node::Map: {
            lines += 1 + n.m.size();
            std::vector<const model::Entry*> e; for (auto& x : n.m) e.push_back(&x);
            if (PT<P>::sorted) std::sort(e.begin(), e.end(), [](auto* a, auto* b) { return key_less(a->first, b->first); });
            for (auto* x : e) { if (plain(x->first)) o.push_back("\"" + x->first + "\""); atoms<P>(x->second, o, lines); }
            break;
        }
    }
}
// A dump shows the whole value: (JSON) it is the value's JSON text; (Zera) the root's scalar or size; otherwise every part in order.
template <class P> void check_printed(const std::string& s, const Node& n) {
    auto shown = [&] { return " in the printed form " + model::quote(s, 1500) + " of " + model::show(n); };
    REQUIRE(!s.empty(), "to_string() is empty for " + model::show(n));
    if (model::depth(n) > 200) return;
    const std::string name = PT<P>::name;
    if (name == "json") { typename P::Deserializer again(std::span<const uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), s.size())); check_value<P>(again, n, "the printed form's root"); return; }
    std::vector<std::string> want; size_t lines = 0;
    if (name == "zera") {
        if (n.k == Node::Arr) want.push_back(std::to_string(n.a.size()));
        else if (n.k == Node::Str) want.push_back(std::to_string(n.s.size()));
        else if (n.k != Node::Map) atoms<P>(n, want, lines);
    } else atoms<P>(n, want, lines);
    size_t at = 0;
    for (auto& w : want) { const size_t f = s.find(w, at); if (f == std::string::npos) FAILMSG(w + " is missing" + shown()); at = f + w.size(); }
    if (name == "flex" || name == "msgpack") REQUIRE(size_t(std::count(s.begin(), s.end(), '\n')) == lines, "there are surplus or missing parts" + shown());
}

// Reads the value behind a reader back into the model.
template <class P, class V> Node read_back(const V& v) {
    if (v.isNull()) return Node::null();
    if (v.isBool()) return Node::boolean(v.asBool());
    if (v.isInt()) return Node::sint(v.asInt64());
    if (v.isUInt()) return Node::uint(v.asUInt64());
    if (v.isFloat()) return Node::dbl(v.asDouble());
    if (v.isString()) return Node::str(v.asString());
    if (v.isBlob()) return Node::blob(blob_str(v.asBlob()));
    if (v.isArray()) { Node n; n.k = Node::Arr; size_t c = v.arraySize(); for (size_t i = 0; i < c; ++i) n.a.push_back(read_back<P>(v[i])); return n; }
    if (v.isMap()) { Node n; n.k = Node::Map; for (auto& k : keys_of(v)) n.m.emplace_back(k, read_back<P>(v[std::string_view(k)])); return n; }
    pbt::fail("a value answers to no predicate");
}

template <class... Ps> struct PList {};
using AllP = PList<zerialize::Zera, zerialize::Flex, zerialize::MsgPack IF_JSON(, zerialize::JSON) IF_CBOR(, zerialize::CBOR)>;
template <class F, class... Ps> void for_each_p(PList<Ps...>, F&& f) { (f.template operator()<Ps>(), ...); }
template <class... Ps> constexpr size_t count_p(PList<Ps...>) { return sizeof...(Ps); }
template <class F, class... Ps> void with_p(PList<Ps...>, size_t i, F&& f) { size_t k = 0; ((k++ == i ? (f.template operator()<Ps>(), 0) : 0), ...); }
} // namespace zt
