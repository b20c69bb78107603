// Differential comparison of a reader with an independent reference decoder, on any bytes.
//
// A reference says, for each read operation, what the wire format prescribes:
//   Val    the operation must return this
//   Throw  the bytes are malformed for this operation: it must throw DeserializationError
//   Either a tolerant reader may return this value, a strict one may throw
//   Any    the format does not say; anything memory-safe goes
#pragma once
#include "protocols.hpp"

namespace ref {
using namespace zt;
enum What { Val, Throw, Either, Any };
template <class T> struct Exp {
    What w = Any; T v{};
    static Exp val(T x) { return {Val, std::move(x)}; }
    static Exp thr() { return {Throw, T{}}; }
    static Exp either(T x) { return {Either, std::move(x)}; }
    static Exp any() { return {Any, T{}}; }
    Exp soft(bool s) const { return s && w == Val ? Exp{Either, v} : *this; }
};
struct Int { bool neg = false; uint64_t mag = 0; int64_t i = 0; };  // mag for non-negative, i for negative
inline Int pos(uint64_t u) { return {false, u, 0}; }
inline Int sgn(int64_t i) { return i < 0 ? Int{true, 0, i} : Int{false, uint64_t(i), 0}; }
struct Keys { std::vector<std::string> list; What end = Val; }; // Val: complete; Throw: broken after list; Either: may also throw; Any

template <class T, class F, class Eq> void expect(const Exp<T>& e, F&& f, Eq&& eq, const std::string& what) {
    bool threw = false; std::optional<std::decay_t<decltype(f())>> got;
    try { got.emplace(f()); }
    catch (const DeserializationError&) { threw = true; }
    catch (const pbt::Failure&) { throw; }
    catch (const std::exception& x) { pbt::fail(what + " threw " + typeid(x).name() + " (" + x.what() + ")"); }
    switch (e.w) {
        case Val: if (threw) pbt::fail(what + " threw although the bytes define its value"); if (!eq(*got, e.v)) pbt::fail(what + " returned something else than the bytes define"); break;
        case Throw: if (!threw) pbt::fail(what + " returned a value although the bytes are malformed for it"); break;
        case Either: if (!threw && !eq(*got, e.v)) pbt::fail(what + " returned something else than the bytes define"); break;
        case Any: break;
    }
}

struct Ctx {
    Gen& g;
    const uint8_t* lo; const uint8_t* hi; // the message
    int fuel = 60;
    int maxdepth = 24;
    size_t compared = 0, val = 0, thrown = 0;
};
inline void inside(const Ctx& c, const void* p, size_t n, const std::string& what) {
    auto b = static_cast<const uint8_t*>(p);
    if (n && !(b >= c.lo && b <= c.hi && n <= size_t(c.hi - b))) pbt::fail(what + " is a view outside the message");
}
template <class T, class V, class F> void int_op(const Exp<Int>& e, const V&, F&& f, const char* name, const std::string& at) {
    Exp<T> x;
    const bool fits = e.v.neg ? (std::is_signed_v<T> && e.v.i >= int64_t(std::numeric_limits<T>::min())) : e.v.mag <= uint64_t(std::numeric_limits<T>::max());
    const T t = fits ? (e.v.neg ? T(e.v.i) : T(e.v.mag)) : T{};
    if (e.w == Any) x = Exp<T>::any();
    else if (e.w == Throw || !fits) x = Exp<T>::thr();
    else x = Exp<T>{e.w, t};
    expect(x, f, [](T a, T b) { return a == b; }, at + "." + name);
}
inline std::string near_key(Gen& g, const std::vector<std::string>& ks) {
    std::string k;
    if (!ks.empty()) k = ks[g.below(ks.size())];
    switch (g.below(5)) {
        case 0: k += 'x'; break;
        case 1: if (!k.empty()) k.pop_back(); break;
        case 2: if (!k.empty()) k[g.below(k.size())] ^= 1; break;
        case 3: k += '\0'; break;
        default: k = "zz"; break;
    }
    return k;
}
// Exercises a value about which nothing is known: only safety is checked.
template <class V> void wild(Ctx& c, const V& v, int depth) {
    if (--c.fuel < 0 || depth > c.maxdepth) return;
    auto t = [&](auto&& f) { try { f(); } catch (const DeserializationError&) {} };
    t([&] { (void)v.isNull(); }); t([&] { (void)v.isMap(); }); t([&] { (void)v.isBlob(); });
    t([&] { (void)v.asInt64(); }); t([&] { (void)v.asUInt64(); }); t([&] { (void)v.asDouble(); }); t([&] { (void)v.asBool(); });
    t([&] { auto s = v.asStringView(); inside(c, s.data(), s.size(), "a string"); std::string x(s); });
    t([&] { auto s = v.asBlob(); inside(c, s.data(), s.size(), "a blob"); std::string x = blob_str(s); });
    t([&] { size_t n = v.arraySize(); for (size_t i = 0; i < std::min<size_t>(n, 4); ++i) t([&] { wild(c, v[i], depth + 1); }); });
    t([&] { int left = 6; for (std::string_view k : v.mapKeys()) { std::string kk(k); t([&] { (void)v.contains(kk); }); t([&] { wild(c, v[std::string_view(kk)], depth + 1); }); if (--left == 0) break; } });
}
template <class P, class V, class R> void compare(Ctx& c, const V& v, const R& r, const std::string& at, int depth = 0) {
    if (--c.fuel < 0 || depth > c.maxdepth) return;
    ++c.compared;
    auto beq = [](bool a, bool b) { return a == b; };
    auto prep = [&](Node::K k, auto&& f, const char* n) { expect(r.pred(k), f, beq, at + "." + n); };
    prep(Node::Null, [&] { return v.isNull(); }, "isNull()"); prep(Node::Bool, [&] { return v.isBool(); }, "isBool()");
    prep(Node::Int, [&] { return v.isInt(); }, "isInt()"); prep(Node::UInt, [&] { return v.isUInt(); }, "isUInt()");
    prep(Node::Dbl, [&] { return v.isFloat(); }, "isFloat()"); prep(Node::Str, [&] { return v.isString(); }, "isString()");
    prep(Node::Blob, [&] { return v.isBlob(); }, "isBlob()"); prep(Node::Arr, [&] { return v.isArray(); }, "isArray()");
    prep(Node::Map, [&] { return v.isMap(); }, "isMap()");

    const Exp<Int> in = r.integer();
    int_op<int64_t>(in, v, [&] { return v.asInt64(); }, "asInt64()", at); int_op<uint64_t>(in, v, [&] { return v.asUInt64(); }, "asUInt64()", at);
    int_op<int32_t>(in, v, [&] { return v.asInt32(); }, "asInt32()", at); int_op<uint32_t>(in, v, [&] { return v.asUInt32(); }, "asUInt32()", at);
    int_op<int16_t>(in, v, [&] { return v.asInt16(); }, "asInt16()", at); int_op<uint16_t>(in, v, [&] { return v.asUInt16(); }, "asUInt16()", at);
    int_op<int8_t>(in, v, [&] { return v.asInt8(); }, "asInt8()", at); int_op<uint8_t>(in, v, [&] { return v.asUInt8(); }, "asUInt8()", at);
    expect(r.boolean(), [&] { return v.asBool(); }, beq, at + ".asBool()");
    expect(r.dbl(), [&] { return v.asDouble(); }, [](double a, double b) { return (std::isnan(a) && std::isnan(b)) || std::bit_cast<uint64_t>(a) == std::bit_cast<uint64_t>(b); }, at + ".asDouble()");
    auto seq = [](const std::string& a, const std::string& b) { return a == b; };
    expect(r.strview(), [&] { auto s = v.asStringView(); inside(c, s.data(), s.size(), at + ".asStringView()"); return std::string(s); }, seq, at + ".asStringView()");
    expect(r.str(), [&] { return v.asString(); }, seq, at + ".asString()");
    expect(r.blob(), [&] { auto s = v.asBlob(); inside(c, s.data(), s.size(), at + ".asBlob()"); return blob_str(s); }, seq, at + ".asBlob()");

    if constexpr (requires { v.asBlobVec(); }) expect(r.blobvec(), [&] { return blob_str(v.asBlobVec()); }, seq, at + ".asBlobVec()");

    const Exp<size_t> n = r.size();
    expect(n, [&] { return v.arraySize(); }, [](size_t a, size_t b) { return a == b; }, at + ".arraySize()");
    auto child = [&](const auto& e, auto&& get, const std::string& name) {
        auto go = [&] { return get(); };
        std::optional<decltype(go())> got; bool threw = false;
        try { got.emplace(go()); } catch (const DeserializationError&) { threw = true; }
        catch (const pbt::Failure&) { throw; }
        catch (const std::exception& x) { pbt::fail(name + " threw " + typeid(x).name() + " (" + x.what() + ")"); }
        if (e.w == Val && threw) pbt::fail(name + " threw although the bytes define the value");
        if (e.w == Throw && !threw) pbt::fail(name + " returned a value although there is none");
        if (threw) return;
        if (e.w == Any) wild(c, *got, depth + 1); else compare<P>(c, *got, e.v, name, depth + 1);
    };
    {
        std::vector<size_t> idx{0, 1, size_t(-1), size_t(1) << 32, size_t(1) << 60};
        if (n.w == Val || n.w == Either) { idx.push_back(n.v); idx.push_back(n.v - 1); idx.push_back(n.v + 1); if (n.v) { idx.push_back(c.g.below(n.v)); idx.push_back(c.g.below(n.v)); } }
        else if (r.claimed() > 0) { idx.push_back(r.claimed() - 1); idx.push_back(r.claimed()); idx.push_back(c.g.below(r.claimed())); }
        std::sort(idx.begin(), idx.end()); idx.erase(std::unique(idx.begin(), idx.end()), idx.end());
        for (size_t i : idx) child(r.at(i), [&] { return v[i]; }, (at.size() > 60 ? ".." : at) + "[" + std::to_string(i) + "]");
    }
    // keys
    const Keys ks = r.keys();
    if (ks.end == Any) { wild(c, v, depth + 1); }
    else {
        std::vector<std::string> got; bool threw = false;
        try {
            auto view = v.mapKeys();
            for (std::string_view s : view) { inside(c, s.data(), P::Name == std::string_view("CBOR") ? 0 : s.size(), at + " key"); got.emplace_back(s); if (got.size() > ks.list.size() + 2) break; }
        } catch (const DeserializationError&) { threw = true; }
        if (ks.end == Val && threw) pbt::fail(at + ".mapKeys() threw on a well-formed map");
        if (ks.end == Throw && !threw) pbt::fail(at + ".mapKeys() completed on a malformed map or a value that is none");
        const bool prefix = got.size() <= ks.list.size() && std::equal(got.begin(), got.end(), ks.list.begin());
        if (!prefix) pbt::fail(at + ".mapKeys() lists keys that are not there");
        if (!threw && got.size() != ks.list.size()) pbt::fail(at + ".mapKeys() misses keys");
    }
    std::vector<std::string> probe;
    for (size_t i = 0; i < std::min<size_t>(ks.list.size(), 6); ++i) probe.push_back(ks.list[c.g.below(ks.list.size())]);
    probe.push_back(near_key(c.g, ks.list)); probe.push_back("a");
    for (auto& k : probe) {
        expect(r.contains(k), [&] { return v.contains(k); }, beq, at + ".contains(" + model::quote(k) + ")");
        child(r.at(k), [&] { return v[std::string_view(k)]; }, (at.size() > 60 ? ".." : at) + "[" + model::quote(k, 12) + "]");
    }
}
// The value the bytes define, if they define all of it.
template <class R> std::optional<Node> decode(const R& r, int& fuel, int depth = 0) {
    if (--fuel < 0 || depth > 400) return {};
    if (r.pred(Node::Null).w == Val && r.pred(Node::Null).v) return r.clean() ? std::optional<Node>(Node::null()) : std::nullopt;
    if (auto e = r.boolean(); e.w == Val) return Node::boolean(e.v);
    if (auto e = r.integer(); e.w == Val) return e.v.neg ? Node::sint(e.v.i) : (r.pred(Node::UInt).v ? Node::uint(e.v.mag) : Node::sint(int64_t(e.v.mag)));
    if (auto e = r.dbl(); e.w == Val) return Node::dbl(e.v);
    if (auto e = r.strview(); e.w == Val) return Node::str(e.v);
    if (auto e = r.blob(); e.w == Val) return Node::blob(e.v);
    if (auto e = r.size(); e.w == Val) {
        Node n; n.k = Node::Arr;
        const auto kids = r.elems(); if (kids.size() != e.v) return {};
        for (auto& x : kids) { auto y = decode(x, fuel, depth + 1); if (!y) return {}; n.a.push_back(std::move(*y)); }
        return n;
    }
    if (auto k = r.keys(); k.end == Val) {
        Node n; n.k = Node::Map; std::set<std::string> seen;
        const auto kids = r.members(); if (kids.size() != k.list.size()) return {};
        for (size_t i = 0; i < k.list.size(); ++i) { if (!seen.insert(k.list[i]).second) return {}; auto y = decode(kids[i], fuel, depth + 1); if (!y) return {}; n.m.push_back({k.list[i], std::move(*y)}); }
        return n;
    }
    return {};
}
// How many values translating `v` would visit; -1 if more than the fuel or deeper than it may go.
template <class V> bool visitable(const V& v, int& fuel, int depth = 0) {
    if (--fuel < 0) return false;
    if (depth > 400) return false;
    try {
        if (v.isMap()) { for (std::string_view k : v.mapKeys()) { std::string kk(k); if (!visitable(v[std::string_view(kk)], fuel, depth + 1)) return false; } }
        else if (v.isArray()) { size_t n = v.arraySize(); for (size_t i = 0; i < n; ++i) if (!visitable(v[i], fuel, depth + 1)) return false; }
    } catch (const DeserializationError&) {}
    return true;
}
// Printing and translating arbitrary bytes: a result or a library error; the right value if the bytes define one.
template <class P, class R> void print_and_translate(Gen& g, const typename P::Deserializer& d, const R& r) {
    int fuel = 3000;
    if (!visitable(d, fuel)) return;
    try { (void)d.to_string(); } catch (const DeserializationError&) {}
    int f2 = 3000;
    std::optional<Node> n = decode(r, f2);
    if (n) g.label("bytes define a value");
    auto tr = [&]<class Dst>() {
        try {
            auto t = zerialize::translate<Dst>(d);
            if (n) {
                Node w = *n; bool nul = false;
                model::visit(w, [&](const Node& x) { for (auto& e : x.m) if (e.first.find('\0') != std::string::npos) nul = true; });
                bool nan = false; model::visit(w, [&](const Node& x) { nan = nan || (x.k == Node::Dbl && std::isnan(x.d)); });
                if (!(nul && PT<Dst>::sorted) && !nan) check_value<Dst>(t, w, "translated root", true);
            }
        }
        catch (const pbt::Failure&) { throw; }
        catch (const DeserializationError&) { if (n) pbt::fail("translating a well-formed message threw"); }
        catch (const SerializationError&) { bool lk = false; if (n) model::visit(*n, [&](const Node& x) { for (auto& e : x.m) lk = lk || e.first.size() > 65535; }); if (n && !lk) pbt::fail("translating a well-formed message threw"); }
        catch (const std::runtime_error&) { if (n) pbt::fail("translating a well-formed message threw"); }
    };
    switch (g.below(3)) {
        case 0: tr.template operator()<zerialize::Zera>(); break;
        case 1: tr.template operator()<zerialize::MsgPack>(); break;
        default: tr.template operator()<zerialize::Flex>(); break;
    }
}
} // namespace ref
