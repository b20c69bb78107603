// C24: Flex messages interoperate with the upstream FlexBuffers library, written and read.
#include "../engine/protocols.hpp"
using namespace zt;
namespace fb = ::flexbuffers;
using X = zerialize::Flex;

static Dom dom(Gen& g) { Dom d = PT<X>::dom(); if (g.chance(1, 3)) d.utf8 = true; return d; }
static Node any_value(Gen& g) {
    const Dom d = dom(g);
    switch (g.pick({12, 2, 1})) {
        case 0: return model::gen_tree(g, d, g.chance(1, 6));
        case 1: return model::gen_chain(g, d, g.range(2, 60));
        default: return g.chance(1, 4) ? model::gen_wide(g, d) : model::gen_scalar(g, d);
    }
}
// The upstream reader, as far as a value can be told apart by it.
static Node upstream(fb::Reference r) {
    switch (r.GetType()) {
        case fb::FBT_NULL: return Node::null();
        case fb::FBT_BOOL: return Node::boolean(r.AsBool());
        case fb::FBT_INT: case fb::FBT_INDIRECT_INT: return Node::sint(r.AsInt64());
        case fb::FBT_UINT: case fb::FBT_INDIRECT_UINT: return Node::uint(r.AsUInt64());
        case fb::FBT_FLOAT: case fb::FBT_INDIRECT_FLOAT: return Node::dbl(r.AsDouble());
        case fb::FBT_STRING: { auto s = r.AsString(); return Node::str(std::string(s.c_str(), s.length())); }
        case fb::FBT_BLOB: { auto b = r.AsBlob(); return Node::blob(std::string(reinterpret_cast<const char*>(b.data()), b.size())); }
        case fb::FBT_VECTOR: { Node n; n.k = Node::Arr; auto v = r.AsVector(); for (size_t i = 0; i < v.size(); ++i) n.a.push_back(upstream(v[i])); return n; }
        case fb::FBT_MAP: {
            Node n; n.k = Node::Map; auto m = r.AsMap(); auto k = m.Keys(); auto v = m.Values();
            for (size_t i = 0; i < k.size(); ++i) { const char* key = k[i].AsKey(); n.m.push_back({key, upstream(v[i])}); if (k.size() < 40 && m[key].IsNull() != v[i].IsNull()) pbt::fail("upstream's lookup does not find a key"); }
            return n;
        }
        case fb::FBT_KEY: return Node::str(r.AsKey());
        default: // any other encoding of an array is as good
            if (r.IsTypedVector()) { Node n; n.k = Node::Arr; auto v = r.AsTypedVector(); for (size_t i = 0; i < v.size(); ++i) n.a.push_back(upstream(v[i])); return n; }
            if (r.IsFixedTypedVector()) { Node n; n.k = Node::Arr; auto v = r.AsFixedTypedVector(); for (size_t i = 0; i < v.size(); ++i) n.a.push_back(upstream(v[i])); return n; }
            pbt::fail("upstream sees a value of type " + std::to_string(r.GetType()));
    }
}
static void well_formed(const Bytes& b, const Node& n, const std::string& what) {
    fb::Verifier ver(b.data(), b.size(), nullptr, true, 1000000);
    REQUIRE(ver.VerifyBuffer(), "upstream's verifier rejects " + what + ": " + pbt::hex(b, 200));
    Node want = n; sort_maps(want);
    const Node got = upstream(fb::GetRoot(b));
    REQUIRE(model::equal(got, want), "upstream reads " + model::show(got) + " from " + what + " instead of " + model::show(want));
    // the sign is kept as well
    std::vector<Node::K> a, c; model::visit(got, [&](const Node& x) { a.push_back(x.k); }); model::visit(want, [&](const Node& x) { c.push_back(x.k); });
    REQUIRE(a == c, "upstream reads other kinds from " + what + ": " + model::show(got));
}
// The debugging dump goes to the standard output; it must show every part of the value in order.
static void dumped(const Bytes& b, const Node& n) {
    std::ostringstream os; auto* was = std::cout.rdbuf(os.rdbuf());
    try { if (b.size() & 1) zerialize::flex::debugging::dump_flex(std::span<const uint8_t>(b)); else zerialize::flex::debugging::dump_flex(b.data(), b.size()); } catch (...) { std::cout.rdbuf(was); throw; }
    std::cout.rdbuf(was);
    const std::string s = os.str(); std::vector<std::string> want; size_t lines = 0, at = 0;
    atoms<X>(n, want, lines);
    auto shown = [&] { return " in the dump " + model::quote(s, 1500) + " of " + model::show(n); };
    for (auto& w : want) { const size_t f = s.find(w, at); if (f == std::string::npos) FAILMSG(w + " is missing" + shown()); at = f + w.size(); }
    bool nl = false; model::visit(n, [&](const Node& x) { nl = nl || (x.k == Node::Str && x.s.find('\n') != std::string::npos); for (auto& e : x.m) nl = nl || e.first.find('\n') != std::string::npos; });
    if (!nl) REQUIRE(size_t(std::count(s.begin(), s.end(), '\n')) == lines + 1, "there are surplus or missing parts" + shown());
}
PART("written", 60000, 4000000) {
    const Node n = any_value(g); g.nontrivial(model::interesting(n)); g.describe([&] { return model::show(n); });
    const size_t form = g.below(3);
    if (form == 0) well_formed(encode<X>(n), n, "the writer's message");
    else if (form == 1) well_formed(to_bytes(zerialize::serialize<X>(zerialize::zmap<"value", "more">(n, zerialize::zvec(n, true)))), Node::map({{"value", n}, {"more", Node::arr({n, Node::boolean(true)})}}), "a builder's message");
    else well_formed(to_bytes(zerialize::serialize<X>(n)), n, "serialize()'s message");
    if (form == 2 && model::count(n) < 3000) dumped(encode<X>(n), n);
}
PART("huge", 24, 300) { const Node n = model::gen_huge(g); g.nontrivial(); g.describe([&] { return model::show(n); }); well_formed(encode<X>(n), n, "the writer's message"); }
// Upstream's builder, with whatever it offers for the value.
struct Up {
    Gen& g; fb::Builder& b; bool plain; std::string how;
    static bool as_float(double d) { const float f = static_cast<float>(d); return std::isfinite(d) && std::bit_cast<uint64_t>(static_cast<double>(f)) == std::bit_cast<uint64_t>(d); }
    static bool fits_float(double d) { return static_cast<double>(static_cast<float>(d)) == d; } // as upstream decides
    static bool keyable(const Node& n) { return n.k == Node::Str && n.s.find('\0') == std::string::npos; }
    void put(const Node& n, bool direct = false) {
        const bool ind = !plain && !direct && g.chance(1, 4);
        switch (n.k) {
            case Node::Null: b.Null(); break;
            case Node::Bool: b.Bool(n.b); break;
            case Node::Int: if (ind) { b.IndirectInt(n.i); how += "i"; } else b.Int(n.i); break;
            case Node::UInt: if (ind) { b.IndirectUInt(n.u); how += "u"; } else b.UInt(n.u); break;
            case Node::Dbl: {
                const bool f = !plain && as_float(n.d) && (ind || g.coin()); // IndirectDouble writes half of a double that fits a float: upstream's bug
                if (ind && (f || !fits_float(n.d))) { if (f) b.IndirectFloat(static_cast<float>(n.d)); else b.IndirectDouble(n.d); how += "d"; } else if (f) b.Float(static_cast<float>(n.d)); else b.Double(n.d);
                break;
            }
            case Node::Str: if (!plain && !direct && keyable(n) && g.chance(1, 6)) { b.Key(n.s); how += "k"; } else b.String(n.s); break;
            case Node::Blob: b.Blob(n.s.data(), n.s.size()); break;
            case Node::Arr: {
                if (!plain && !n.a.empty() && g.chance(2, 3) && typed(n)) break;
                const size_t start = b.StartVector();
                elements(n);
                b.EndVector(start, !plain && n.a.empty() && g.chance(1, 3), false);
                break;
            }
            case Node::Map: { const size_t start = b.StartMap(); for (auto& [k, x] : n.m) { b.Key(k); put(x); } b.EndMap(start); break; }
        }
    }
    void elements(const Node& n) {
        for (size_t i = 0; i < n.a.size(); ++i) {
            if (!plain && i && (n.a[i].k == Node::Arr || n.a[i].k == Node::Map || n.a[i].k == Node::Str) && model::equal(n.a[i], n.a[i - 1]) && same_kinds(n.a[i], n.a[i - 1]) && g.coin()) { b.ReuseValue(b.LastValue()); how += "r"; }
            else put(n.a[i]);
        }
    }
    static bool same_kinds(const Node& x, const Node& y) { std::vector<Node::K> a, c; model::visit(x, [&](const Node& v) { a.push_back(v.k); }); model::visit(y, [&](const Node& v) { c.push_back(v.k); }); return a == c; }
    template <class T, class F> void scalars(const Node& n, F&& f, bool fixed) { std::vector<T> v; for (auto& x : n.a) v.push_back(T(f(x))); if (fixed) b.FixedTypedVector(v.data(), v.size()); else b.Vector(v.data(), v.size()); }
    bool typed(const Node& n) {
        const Node::K k = n.a[0].k; for (auto& x : n.a) if (x.k != k) return false;
        const bool fixed_len = n.a.size() >= 2 && n.a.size() <= 4;
        if (k == Node::Str) { // a vector of keys
            for (auto& x : n.a) if (!keyable(x)) return false;
            const size_t start = b.StartVector(); for (auto& x : n.a) b.Key(x.s); b.EndVector(start, true, false); how += "K"; return true;
        }
        if (k == Node::Bool) { const size_t start = b.StartVector(); for (auto& x : n.a) b.Bool(x.b); b.EndVector(start, true, false); how += "B"; return true; }
        if (k != Node::Int && k != Node::UInt && k != Node::Dbl) return false;
        const bool fixed = fixed_len && g.coin();
        how += fixed ? "F" : "T";
        if (g.coin()) { const size_t start = b.StartVector(); for (auto& x : n.a) put(x, true); b.EndVector(start, true, fixed); return true; }
        // from an array of a C++ type that holds all of them (and whose width holds the length)
        auto fits = [&](auto lo, auto hi) { for (auto& x : n.a) if (k == Node::Int ? (x.i < int64_t(lo) || x.i > int64_t(hi)) : x.u > uint64_t(hi)) return false; return true; };
        const size_t len = n.a.size(); const bool len8 = fixed || len < 256, len16 = fixed || len < 65536;
        if (k == Node::Int) {
            auto get = [](const Node& x) { return x.i; };
            if (len8 && fits(INT8_MIN, INT8_MAX) && g.coin()) scalars<int8_t>(n, get, fixed);
            else if (len16 && fits(INT16_MIN, INT16_MAX) && g.coin()) scalars<int16_t>(n, get, fixed);
            else if (fits(INT32_MIN, INT32_MAX) && g.coin()) scalars<int32_t>(n, get, fixed);
            else scalars<int64_t>(n, get, fixed);
        } else if (k == Node::UInt) {
            auto get = [](const Node& x) { return x.u; };
            if (len8 && fits(0, UINT8_MAX) && g.coin()) scalars<uint8_t>(n, get, fixed);
            else if (len16 && fits(0, UINT16_MAX) && g.coin()) scalars<uint16_t>(n, get, fixed);
            else if (fits(0, UINT32_MAX) && g.coin()) scalars<uint32_t>(n, get, fixed);
            else scalars<uint64_t>(n, get, fixed);
        } else {
            bool f = true; for (auto& x : n.a) f = f && as_float(x.d);
            if (f && g.coin()) scalars<float>(n, [](const Node& x) { return x.d; }, fixed); else scalars<double>(n, [](const Node& x) { return x.d; }, fixed);
        }
        return true;
    }
};
// Arrays of one kind, runs of equal elements: what the special encodings are for.
static Node uniform(Gen& g, const Dom& d) {
    Node n; n.k = Node::Arr;
    const size_t len = g.chance(1, 40) ? g.one_of<int>({255, 256, 257, 300, 70000}) : g.chance(1, 2) ? g.range(1, 5) : g.range(1, 40);
    const int kind = int(g.below(6)); const int bits = int(g.one_of<int>({7, 8, 15, 16, 31, 32, 63, 64}));
    pbt::Rng r{g.u64()}; const bool bulk = len > 100;
    auto num = [&]() -> uint64_t { const uint64_t x = bulk ? r.next() : g.u64(); return bits == 64 ? x : x & ((1ull << bits) - 1); };
    for (size_t i = 0; i < len; ++i) switch (kind) {
        case 0: { const uint64_t x = num(); n.a.push_back(Node::sint((bulk ? r.next() & 1 : g.coin()) ? int64_t(x) : int64_t(~x))); break; }
        case 1: n.a.push_back(Node::uint(num())); break;
        case 2: n.a.push_back(Node::dbl(bits & 1 ? double(float(int64_t(num()) / 7.0)) : double(int64_t(num())) / 3.0)); break;
        case 3: n.a.push_back(Node::boolean(bulk ? r.next() & 1 : g.coin())); break;
        case 4: n.a.push_back(Node::str(bulk ? "k" + std::to_string(r.next() % 1000) : g.chance(1, 3) ? std::string(g.below(300), 'x') : std::string(1, char('a' + g.below(4))))); break;
        default: if (bulk) n.a.push_back(Node::null()); else if (i && g.coin()) n.a.push_back(Node(n.a.back())); else n.a.push_back(model::gen_tree(g, d, false));
    }
    return n;
}
static void read_it(Gen& g, const Node& n, const Bytes& b, const std::string& how) {
    fb::Verifier ver(b.data(), b.size(), nullptr, true, 1000000); // upstream's own opinion of what its builder made (shared values can make it give up)
    g.label(ver.VerifyBuffer() ? "verified" : "not verified by upstream");
    auto h = hold<X>(b, g.below(4), g.below(2) * 8); // upstream wants its buffers aligned
    try { check_value<X>(*h, n); } catch (pbt::Failure& f) { f.msg += "\nbuilt with " + how + ": " + pbt::hex(b, 300); throw; }
    if (n.k == Node::Arr) { MUST_THROW((*h)[n.a.size()], "one past the end of an upstream vector"); MUST_THROW((*h)[size_t(-1)], "far past the end of an upstream vector"); }
    check_printed<X>(h->to_string(), n);
    if (model::count(n) < 3000) dumped(b, n);
    if (model::count(n) < 3000) {
        if (model::longest_key(n) <= 65535) { auto z = zerialize::translate<zerialize::Zera>(*h); Node sorted = n; sort_maps(sorted); check_value<zerialize::Zera>(z, sorted, "the translation to Zera"); }
        auto x = zerialize::translate<X>(*h); check_value<X>(x, n, "the translation to Flex");
    }
}
PART("read", 60000, 4000000) {
    const Dom d = dom(g); Node n;
    switch (g.pick({3, 3, 2, 1})) {
        case 0: n = any_value(g); break;
        case 1: n = uniform(g, d); break;
        case 2: n = Node::map({{"first", uniform(g, d)}, {"again", uniform(g, d)}, {"other", model::gen_tree(g, d, false)}}); break;
        default: n = Node::arr({uniform(g, d), uniform(g, d), model::gen_scalar(g, d)});
    }
    const auto flags = fb::BuilderFlag(g.below(4)); // sharing of keys and strings
    fb::Builder b(256, flags); const int force = g.chance(1, 3) ? int(g.below(4)) : 0; if (force) b.ForceMinimumBitWidth(fb::BitWidth(force));
    Up u{g, b, g.chance(1, 8), ""}; u.put(n); b.Finish();
    g.nontrivial(!u.how.empty()); g.describe([&] { return "flags " + std::to_string(flags) + ", width " + std::to_string(force) + ", " + u.how + ": " + model::show(n); });
    read_it(g, n, b.GetBuffer(), "flags " + std::to_string(flags) + " minimum width " + std::to_string(force) + " forms " + u.how);
}
