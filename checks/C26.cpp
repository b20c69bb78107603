// C26: the work of writing and of every single read grows in proportion to what is written or read.
#include "../engine/protocols.hpp"
#include "../engine/cost.hpp"
#include "../engine/tus.hpp"
#include <zerialize/dynamic.hpp>
using namespace zt;
using cost::Work;

// ---- families of values that grow with n ----
struct Family { int shape; Node proto; std::vector<Node> kinds; uint64_t salt; size_t under; };
static Family family(Gen& g, const Dom& d) {
    Family f; f.shape = int(g.pick({6, 5, 3, 2, 2, 2}));
    for (size_t i = 0, k = g.range(1, 4); i < k; ++i) { int budget = 6; f.kinds.push_back(model::gen_node(g, d, 2, budget, false)); }
    f.salt = g.below(1000); f.under = g.below(4);
    return f;
}
static Node grown(const Family& f, size_t n) {
    Node r; r.k = Node::Arr; const size_t k = f.kinds.size();
    switch (f.shape) {
        case 0: for (size_t i = 0; i < n; ++i) r.a.push_back(f.kinds[i % k]); break;
        case 1: r.k = Node::Map; for (size_t i = 0; i < n; ++i) r.m.push_back({"k" + std::to_string((i * 7919 + f.salt) % 1000003), f.kinds[i % k]}); break;
        case 2: for (size_t i = 0; i < n / 4; ++i) { Node m; m.k = Node::Map; for (size_t j = 0; j < 4; ++j) m.m.push_back({std::string(1, char('a' + j)), f.kinds[j % k]}); r.a.push_back(std::move(m)); } break;
        case 3: { Node x = f.kinds[0]; for (size_t i = 0; i < n; ++i) { Node y; if ((i + f.salt) % 3) { y.k = Node::Arr; if (f.salt % 2) y.a.push_back(Node::uint(i % 100)); y.a.push_back(std::move(x)); } else { y.k = Node::Map; y.m.push_back({"in", std::move(x)}); } x = std::move(y); } return x; }
        case 4: r = Node::str(std::string(n * 16, char('a' + f.salt % 26))); break;
        default: r = Node::blob(std::string(n * 16, char(f.salt))); break;
    }
    for (size_t i = 0; i < f.under; ++i) { Node y; y.k = i % 2 ? Node::Map : Node::Arr; if (i % 2) y.m.push_back({"u", std::move(r)}); else y.a.push_back(std::move(r)); r = std::move(y); }
    return r;
}
static std::string shape_text(const Family& f, size_t n) {
    const char* s[] = {"array of n", "map of n", "array of n/4 maps", "n nested containers", "string of 16n", "blob of 16n"};
    std::string t = std::string(s[f.shape]) + " under " + std::to_string(f.under) + ", n = " + std::to_string(n) + ", of";
    for (auto& x : f.kinds) t += " " + model::show(x);
    return t;
}
static std::string text(const Work& w) { return std::to_string(w.edges) + " steps, " + std::to_string(w.moved) + " bytes copied or scanned, " + std::to_string(w.allocated) + " bytes allocated"; }
// Sixteen times the size: sixteen times the work, times two for where the growth of buffers happens to fall, times some logarithm.
// A quadratic part shows as a factor of 256.
static void proportional(const Work& a, const Work& b, const std::string& what) {
    auto in = [&](uint64_t x, uint64_t y, uint64_t free, const char* of) { REQUIRE(y <= 64 * x + free, what + ": sixteen times the size takes " + std::to_string(y / (x ? x : 1)) + " times the " + of + " (" + text(a) + "; then " + text(b) + ")"); };
    in(a.edges, b.edges, 4000, "steps"); in(a.moved, b.moved, 65536, "bytes copied or scanned"); in(a.allocated, b.allocated, 262144, "memory");
}
static zerialize::dyn::Value dynamic(const Node& n) {
    using zerialize::dyn::Value;
    switch (n.k) {
        case Node::Null: return Value();
        case Node::Bool: return Value(n.b);
        case Node::Int: return Value(n.i);
        case Node::UInt: return Value(n.u);
        case Node::Dbl: return Value(n.d);
        case Node::Str: return Value(n.s);
        case Node::Blob: { std::vector<std::byte> b(n.s.size()); if (!b.empty()) std::memcpy(b.data(), n.s.data(), b.size()); return Value(std::move(b)); }
        case Node::Arr: { Value::Array a; for (auto& x : n.a) a.push_back(dynamic(x)); return Value(std::move(a)); }
        default: { Value::Map m; for (auto& [k, x] : n.m) m.emplace_back(k, dynamic(x)); return Value(std::move(m)); }
    }
}
template <class P> void writing(Gen& g) {
    const Family f = family(g, PT<P>::dom());
    const bool deep = f.shape == 3, dyn = g.coin();
    const size_t n = deep ? g.range(20, dyn ? 60 : 200) : g.range(200, 700);
    g.nontrivial(); g.label(dyn ? "dynamic" : "events"); g.describe([&] { return shape_text(f, n) + (dyn ? ", as a dynamic value" : ", by events"); });
    auto once = [&](size_t k) {
        const Node v = grown(f, k);
        if (!dyn) return cost::measure([&] { encode<P>(v); });
        const auto x = dynamic(v);
        return cost::measure([&] { auto z = zerialize::serialize<P>(x); (void)z.size(); });
    };
    const Work a = once(n), b = once(16 * n);
    proportional(a, b, "writing");
}
// ---- reading ----
template <class V, class F> void within(const V& v, size_t under, F&& f) { // through the wrappers around the family
    if (!under) { f(v); return; }
    if (v.isMap()) { auto c = v[std::string_view("u")]; within(c, under - 1, f); } else { auto c = v[size_t(0)]; within(c, under - 1, f); }
}
enum class Bound { Constant, Log, Linear };
template <class P> void reading(Gen& g) {
    Family f = family(g, PT<P>::dom()); if (f.shape == 3) f.under = 0;
    const std::string name = PT<P>::name;
    const bool random = name == "zera" || name == "flex"; // formats with random access
    const size_t n = f.shape == 3 ? g.range(20, 60) : g.range(200, 700);
    struct Op { const char* what; Bound b; int id; };
    std::vector<Op> ops{{"the kind", Bound::Constant, 0}};
    if (f.shape == 0 || f.shape == 2) { ops.push_back({"an element", random ? Bound::Constant : Bound::Linear, 1}); ops.push_back({"the size", random || name == "msgpack" ? Bound::Constant : Bound::Linear, 2}); }
    if (f.shape == 1) { ops.push_back({"a lookup", name == "flex" ? Bound::Log : Bound::Linear, 3}); ops.push_back({"contains", name == "flex" ? Bound::Log : Bound::Linear, 4}); ops.push_back({"the keys", Bound::Linear, 5}); }
    if (f.shape == 4) ops.push_back({"a string view", random || name == "msgpack" ? Bound::Constant : Bound::Linear, 6});
    if (f.shape == 4) ops.push_back({"a string", Bound::Linear, 7});
    if (f.shape == 5) ops.push_back({"a blob", name != "json" && name != "cbor" ? Bound::Constant : Bound::Linear, 8});
    if (f.shape < 3 || f.shape == 4) ops.push_back({"printing", Bound::Linear, 9});
    if (f.shape == 3) ops.push_back({"one level", random ? Bound::Constant : Bound::Linear, 10});
    ops.push_back({"opening", name == "json" ? Bound::Linear : Bound::Constant, 11});
    if (random && f.shape != 1 && f.shape != 3) ops.push_back({"translating", Bound::Linear, 12});
    const Op op = ops[g.below(ops.size())];
    const uint64_t where = g.below(1000); const bool absent = g.chance(1, 3);
    g.nontrivial(); g.label(op.what); g.describe([&] { return shape_text(f, n) + ", reading " + op.what; });
    auto once = [&](size_t k) {
        const Bytes b = encode<P>(grown(f, k)); const Exact e(b, 0);
        if (op.id == 11) return cost::measure([&] { typename P::Deserializer d(e.span()); (void)d.isMap(); });
        const typename P::Deserializer d(e.span());
        const size_t count = f.shape == 2 ? k / 4 : k, i = where * (count - 1) / 999;
        const std::string key = absent && op.id == 4 ? "no such key" : "k" + std::to_string((i * 7919 + f.salt) % 1000003);
        Work w;
        within(d, f.under, [&](const auto& v) {
            w = cost::measure([&] {
                switch (op.id) {
                    case 0: (void)(v.isNull() + v.isBool() + v.isInt() + v.isUInt() + v.isFloat() + v.isString() + v.isBlob() + v.isArray() + v.isMap()); break;
                    case 1: (void)v[i].isNull(); break;
                    case 2: (void)v.arraySize(); break;
                    case 3: (void)v[std::string_view(key)].isNull(); break;
                    case 4: (void)v.contains(key); break;
                    case 5: { size_t c = 0; for (std::string_view s : v.mapKeys()) c += s.size(); (void)c; break; }
                    case 6: (void)v.asStringView().size(); break;
                    case 7: (void)v.asString().size(); break;
                    case 8: (void)v.asBlob().size(); break;
                    case 9: (void)v.to_string().size(); break;
                    case 10: if (v.isMap()) (void)v[std::string_view("in")].isNull(); else (void)v[v.arraySize() - 1].isNull(); break;
                    case 12: { auto t = zerialize::translate<zerialize::MsgPack>(v); (void)t.isNull(); break; }
                }
            });
        });
        return w;
    };
    const Work a = once(n), b = once(16 * n);
    const std::string what = std::string("reading ") + op.what;
    if (op.b == Bound::Linear) proportional(a, b, what);
    else REQUIRE(b.total() <= (op.b == Bound::Log ? 4 : 2) * a.total() + 100, what + " depends on the size of the message (" + text(a) + "; of one sixteen times the size " + text(b) + ")");
}
// ---- hostile messages ----
template <class P> void hostile(Gen& g) {
    Bytes b;
    const std::string name = PT<P>::name;
    if (g.chance(1, 4)) { // containers that claim much
        const size_t k = g.range(1, 400);
        for (size_t i = 0; i < k; ++i) {
            if (name == "msgpack") { static const uint8_t h[][5] = {{0x91}, {0x9f}, {0x8f}, {0xdc, 0xff, 0xff}, {0xdd, 0xff, 0xff, 0xff, 0xff}, {0xdf, 0x7f, 0xff, 0xff, 0xff}, {0xdd, 0, 0, 1, 0}}; static const size_t l[] = {1, 1, 1, 3, 5, 5, 5}; const size_t c = g.below(7); b.insert(b.end(), h[c], h[c] + l[c]); }
            else { static const uint8_t h[][5] = {{0x81}, {0x97}, {0xb7}, {0x99, 0xff, 0xff}, {0x9a, 0xff, 0xff, 0xff, 0xff}, {0x9f}, {0xbf}, {0x5f}, {0x7f}, {0xd9, 0xff, 0xff}}; static const size_t l[] = {1, 1, 1, 3, 5, 1, 1, 1, 1, 3}; const size_t c = g.below(10); b.insert(b.end(), h[c], h[c] + l[c]); }
        }
    } else {
        b = encode<P>(grown(family(g, PT<P>::dom()), g.range(10, 200)));
        for (size_t i = 0, k = g.range(1, 4); i < k && !b.empty(); ++i) switch (g.below(5)) {
            case 0: b[g.below(b.size())] ^= uint8_t(1u << g.below(8)); break;
            case 1: b[g.below(std::min<size_t>(b.size(), 40))] = uint8_t(g.u64()); break;
            case 2: { const size_t at = g.below(b.size()); for (size_t j = at; j < b.size() && j < at + 4; ++j) b[j] = g.coin() ? 0xff : 0; break; }
            case 3: b.resize(b.size() - g.below(std::min<size_t>(b.size(), 9))); break;
            default: { const size_t at = g.below(b.size()), w = std::min<size_t>(16, b.size() - at); const size_t to = g.below(b.size() - w + 1); std::memmove(b.data() + to, b.data() + at, w); break; }
        }
    }
    const Exact e(b, 0); const size_t n = b.size();
    g.nontrivial(n > 20); g.describe([&] { return pbt::hex(b); });
    auto bounded = [&](const char* what, auto&& f) {
        const Work w = cost::measure([&] { try { f(); } catch (const std::exception&) {} });
        REQUIRE(w.edges <= 64 * n + 4000 && w.moved <= 64 * n + 16384 && w.allocated <= 16 * n + 16384, std::string(what) + " takes " + text(w) + " on a message of " + std::to_string(n) + " bytes");
    };
    std::unique_ptr<typename P::Deserializer> d;
    bounded("opening", [&] { d = std::make_unique<typename P::Deserializer>(e.span()); });
    if (!d) return;
    auto visit = [&](auto&& self, const auto& v, int depth) -> void {
        bounded("isArray", [&] { (void)v.isArray(); });
        size_t size = 0; std::vector<std::string> keys;
        bounded("arraySize", [&] { size = v.arraySize(); });
        bounded("mapKeys", [&] { size_t c = 0; for (std::string_view k : v.mapKeys()) c += k.size(); (void)c; });
        bounded("contains", [&] { (void)v.contains("no such key"); });
        bounded("asString", [&] { (void)v.asString(); });
        bounded("asStringView", [&] { (void)v.asStringView(); });
        bounded("asBlob", [&] { (void)v.asBlob(); });
        bounded("asInt64", [&] { (void)v.asInt64(); });
        if (depth >= 3) return;
        if (size) for (int j = 0; j < 2; ++j) { const size_t i = j ? size - 1 : size_t(0); bounded("[i]", [&] { (void)v[i].isNull(); }); try { auto c = v[i]; self(self, c, depth + 1); } catch (const std::exception&) {} }
        try { for (std::string_view k : v.mapKeys()) { keys.emplace_back(k); if (keys.size() == 2) break; } } catch (const std::exception&) {}
        for (auto& k : keys) { bounded("[key]", [&] { (void)v[std::string_view(k)].isNull(); }); try { auto c = v[std::string_view(k)]; self(self, c, depth + 1); } catch (const std::exception&) {} }
    };
    visit(visit, *d, 0);
}
#define M(P, nm) PART("writing/" nm, 700, 30000) { writing<P>(g); } PART("reading/" nm, 1200, 60000) { reading<P>(g); }
PER_PROTOCOL(M)
#define H(P, nm) PART("hostile/" nm, 20000, 2000000) { hostile<P>(g); }
ON_ZERA(H(zerialize::Zera, "zera"))
ON_MSGPACK(H(zerialize::MsgPack, "msgpack"))
ON_CBOR(H(zerialize::CBOR, "cbor"))

#if TU == 0 || TU == -1
PART("buffers", 400, 20000) {
    const size_t n = g.range(1000, 4000); const int op = int(g.below(4)); const size_t per = g.one_of<size_t>({1, 8, 16, 64});
    g.nontrivial(); g.describe([&] { return "ZBuffer of " + std::to_string(n) + ", operation " + std::to_string(op); });
    auto once = [&](size_t k) {
        const zerialize::ZBuffer z(Bytes(k, 'x'));
        return cost::measure([&] { switch (op) { case 0: (void)z.to_vector_copy(); break; case 1: (void)z.to_debug_string(); break; case 2: (void)z.hexdump(per); break; default: (void)z.to_string(); } });
    };
    const Work a = once(n), b = once(16 * n);
    proportional(a, b, "a buffer's operation");
    if (op == 3) REQUIRE(b.total() <= 2 * a.total() + 100, "describing a buffer depends on its size");
}
#endif
