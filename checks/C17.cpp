// C17: all ways of describing a value produce the same writer events, hence the same message.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
#include "../engine/typed.hpp"
#include <zerialize/zbuilders.hpp>
using namespace zt;
using namespace ty;
namespace dyn = zerialize::dyn;

// ------------------------------------------------------------------ a protocol that records what it is told
struct Rec {
    struct RootSerializer { std::string log; ZBuffer finish() { return ZBuffer(std::vector<uint8_t>(log.begin(), log.end())); } };
    struct Serializer {
        std::string& l;
        explicit Serializer(RootSerializer& r) : l(r.log) {}
        void num(char k, uint64_t v) { l += k; l.append(reinterpret_cast<const char*>(&v), 8); }
        void txt(char k, std::string_view s) { num(k, s.size()); l += s; }
        void null() { l += 'n'; }
        void boolean(bool b) { l += b ? 't' : 'f'; }
        void int64(int64_t v) { num('i', uint64_t(v)); }
        void uint64(uint64_t v) { num('u', v); }
        void double_(double v) { num('d', std::bit_cast<uint64_t>(v)); }
        void string(std::string_view s) { txt('s', s); }
        void binary(std::span<const std::byte> b) { txt('b', std::string_view(reinterpret_cast<const char*>(b.data()), b.size())); }
        void key(std::string_view s) { txt('k', s); }
        void begin_array(size_t n) { num('[', n); }
        void end_array() { l += ']'; }
        void begin_map(size_t n) { num('{', n); }
        void end_map() { l += '}'; }
    };
    using Deserializer = zerialize::Zera::Deserializer;
    static inline constexpr const char* Name = "recorder";
};
static std::string show_log(const std::string& l) {
    std::string o; size_t i = 0;
    auto n = [&] { uint64_t v; std::memcpy(&v, l.data() + i, 8); i += 8; return v; };
    while (i < l.size() && o.size() < 700) {
        const char k = l[i++];
        switch (k) {
            case 'n': o += "null "; break; case 't': o += "true "; break; case 'f': o += "false "; break; case ']': o += "] "; break; case '}': o += "} "; break;
            case 'i': o += "int64(" + std::to_string(int64_t(n())) + ") "; break; case 'u': o += "uint64(" + std::to_string(n()) + ") "; break;
            case 'd': o += "double(" + std::to_string(std::bit_cast<double>(n())) + ") "; break;
            case '[': o += "array:" + std::to_string(n()) + "[ "; break; case '{': o += "map:" + std::to_string(n()) + "{ "; break;
            default: { size_t c = n(); o += std::string(k == 's' ? "string" : k == 'b' ? "binary" : "key") + "(" + model::quote(l.substr(i, c), 20) + ") "; i += c; }
        }
    }
    return o;
}
static std::string events(const Node& n) { Rec::RootSerializer r; Rec::Serializer w(r); model::emit(n, w); return r.log; }
static std::string str(const ZBuffer& z) { auto b = z.buf(); return std::string(b.begin(), b.end()); }
static void same(const std::string& got, const Node& n, const std::string& form) {
    const std::string want = events(n);
    if (got != want) FAILMSG(form + " emits\n  " + show_log(got) + "\ninstead of\n  " + show_log(want));
}

// ------------------------------------------------------------------ dynamic values, in every way to make them

template <class T> bool fits(const Node& n) { return n.isint() && (n.negative() ? n.i >= int64_t(std::numeric_limits<T>::min()) && std::is_signed_v<T> : n.magnitude() <= uint64_t(std::numeric_limits<T>::max())); }
static dyn::Value dyn_scalar(Gen& g, const Node& n) {
    switch (n.k) {
        case Node::Null: return g.coin() ? dyn::Value() : g.coin() ? dyn::Value(nullptr) : dyn::Value(dyn::Null{});
        case Node::Bool: return dyn::Value(n.b);
        case Node::Int: // any signed type that can hold it
            switch (g.below(6)) { case 0: if (fits<signed char>(n)) return dyn::Value((signed char)(n.i)); break; case 1: if (fits<short>(n)) return dyn::Value(short(n.i)); break; case 2: if (fits<int>(n)) return dyn::Value(int(n.i)); break; case 3: if (fits<char>(n)) return dyn::Value(char(n.i)); break; case 4: return dyn::Value((long long)(n.i)); default: break; }
            return dyn::Value(int64_t(n.i));
        case Node::UInt:
            switch (g.below(5)) { case 0: if (fits<unsigned char>(n)) return dyn::Value((unsigned char)(n.u)); break; case 1: if (fits<unsigned short>(n)) return dyn::Value((unsigned short)(n.u)); break; case 2: if (fits<unsigned>(n)) return dyn::Value(unsigned(n.u)); break; case 3: return dyn::Value((unsigned long long)(n.u)); default: break; }
            return dyn::Value(uint64_t(n.u));
        case Node::Dbl: if (std::isfinite(n.d) && std::abs(n.d) < 3e38 && double(float(n.d)) == n.d && g.coin() && !(n.d == 0 && std::signbit(n.d) != std::signbit(float(n.d)))) return dyn::Value(float(n.d)); return dyn::Value(n.d);
        case Node::Str: switch (g.below(4)) { case 0: return dyn::Value(n.s); case 1: return dyn::Value(std::string_view(n.s)); case 2: if (n.s.find('\0') == std::string::npos) return dyn::Value(n.s.c_str()); return dyn::Value(std::string(n.s)); default: { std::string t = n.s; return dyn::Value(std::move(t)); } }
        default: switch (g.below(5)) { case 0: return dyn::Value(bv(n.s)); case 1: { const BV b = bv(n.s); return dyn::Value(b); } case 2: return dyn::Value(n.bytes()); case 3: return dyn::Value(dyn::Binary{bv(n.s)}); default: return dyn::Value::blob(n.bytes()); }
    }
}
// A dynamic value for `n`; leaves and subtrees may be replaced by wrapped standard or user types.
static dyn::Value to_dyn(Gen& g, const Node& n) {
    if (g.chance(1, 5)) {
        switch (g.below(3)) {
            case 0: return dyn::serializable(n);                                  // a user type
            case 1: { auto v = to_dyn(g, n); return dyn::serializable(std::move(v)); } // a dynamic value itself
            default: // standard containers of what the node holds
                if (n.k == Node::Arr) return dyn::serializable(std::vector<Node>(n.a));
                if (n.k == Node::Str) return dyn::serializable(std::string(n.s));
                if (n.k == Node::Blob) return dyn::serializable(bv(n.s));
                if (n.k == Node::Bool) return dyn::Value::serializable(n.b);
                break;
        }
    }
    if (n.k == Node::Arr) {
        dyn::Value::Array a; for (auto& x : n.a) a.push_back(to_dyn(g, x));
        if (n.a.size() == 2 && g.coin()) return dyn::array({a[0], a[1]});
        return g.coin() ? dyn::Value(a) : dyn::Value::array(std::move(a));
    }
    if (n.k == Node::Map) {
        dyn::Value::Map m; for (auto& [k, x] : n.m) m.emplace_back(k, to_dyn(g, x));
        if (n.m.size() == 2 && g.coin()) return dyn::map({m[0], m[1]});
        return g.coin() ? dyn::Value(m) : dyn::Value::map(std::move(m));
    }
    return dyn_scalar(g, n);
}
template <class P> void same_message(const ZBuffer& z, const Node& n, const char* what) {
    const Bytes b = to_bytes(z), want = encode<P>(n);
    REQUIRE(b == want, std::string(what) + ": the " + PT<P>::name + " message differs from the one for " + model::show(n));
}

#if TU == 0 || TU == -1
PART("dynamic", 40000, 4000000) {
    const Node n = g.chance(1, 60) ? model::gen_wide(g, {}) : model::gen_tree(g, {}, g.chance(1, 10));
    g.nontrivial(model::interesting(n)); g.describe([&] { return model::show(n); });
    const dyn::Value v = to_dyn(g, n);
    same(str(zerialize::serialize<Rec>(v)), n, "a dynamic value");
    same(str(zerialize::serialize<Rec>(v)), n, "a dynamic value, again");
    dyn::Value c = v; same(str(zerialize::serialize<Rec>(c)), n, "a copy");
    dyn::Value m = std::move(c); same(str(zerialize::serialize<Rec>(std::move(m))), n, "a moved dynamic value");
    c = v; same(str(zerialize::serialize<Rec>(c)), n, "an assigned dynamic value");
    same(str(zerialize::serialize<Rec>(n)), n, "a user type");
}
PART("dynamic-messages", 8000, 800000) {
    const size_t pi = g.below(count_p(AllP{}));
    with_p(AllP{}, pi, [&]<class P>() {
        const Node n = model::gen_tree(g, PT<P>::dom(), false);
        g.nontrivial(model::interesting(n)); g.label(PT<P>::name); g.describe([&] { return std::string(PT<P>::name) + " " + model::show(n); });
        const dyn::Value v = to_dyn(g, n);
        same_message<P>(zerialize::serialize<P>(v), n, "a dynamic value");
        same_message<P>(zerialize::serialize<P>(n), n, "a user type");
        same_message<P>(zerialize::serialize<P>(zerialize::zvec(v, zerialize::zmap<"k">(n))), Node::arr({n, Node::map({{"k", n}})}), "a builder");
    });
}
#endif
// ------------------------------------------------------------------ standard types
template <class T> void typed(Gen& g) {
    arena().clear();
    const T v = Ty<T>::gen(g); const Node n = Ty<T>::node(v);
    g.nontrivial(); g.describe([&] { return model::show(n); });
    same(str(zerialize::serialize<Rec>(v)), n, "a standard value");
    { T tmp = v; same(str(zerialize::serialize<Rec>(std::move(tmp))), n, "a temporary"); }
    { T lv = v; same(str(zerialize::serialize<Rec>(lv)), n, "a variable"); }
    same(str(zerialize::serialize<Rec>(zerialize::zvec(v))), Node::arr({n}), "a builder of it");
    same(str(zerialize::serialize<Rec>(zerialize::zvec(T(v), v, 1, zerialize::zmap<"x", "y">(v, T(v))))), Node::arr({n, n, Node::sint(1), Node::map({{"x", n}, {"y", n}})}), "builders of it");
    if constexpr (!std::is_same_v<T, BS> && !std::is_same_v<T, std::string_view> && !std::is_same_v<T, const char*>) same(str(zerialize::serialize<Rec>(dyn::serializable(v))), n, "wrapped in a dynamic value");
    { // stored, copied and used twice, after the temporary it took is gone
        auto b = [&] { T tmp = v; return zerialize::zvec(std::move(tmp), zerialize::zvec(), zerialize::zmap<>()); }();
        auto b2 = b;
        const Node want = Node::arr({n, Node::arr({}), Node::map({})});
        same(str(zerialize::serialize<Rec>(b)), want, "a stored builder"); same(str(zerialize::serialize<Rec>(b)), want, "a stored builder, again");
        same(str(zerialize::serialize<Rec>(b2)), want, "a copied builder"); auto b3 = std::move(b); same(str(zerialize::serialize<Rec>(std::move(b3))), want, "a moved builder");
    }
}
template <class T> void scalars_of(Gen& g) {
    switch (g.below(8)) {
        case 0: typed<T>(g); break;
        case 1: typed<std::vector<T>>(g); break;
        case 2: typed<std::list<T>>(g); break;
        case 3: typed<std::array<T, 3>>(g); break;
        case 4: typed<std::map<std::string, T>>(g); break;
        case 5: typed<std::unordered_map<std::string, T>>(g); break;
        case 6: typed<std::vector<std::list<T>>>(g); break;
        default: typed<std::map<std::string, std::vector<T>>>(g); break;
    }
}
template <class T> void initializer(Gen& g) {
    arena().clear();
    const T a = Ty<T>::gen(g), b = Ty<T>::gen(g), c = Ty<T>::gen(g);
    g.nontrivial(); const Node n = Node::arr({Ty<T>::node(a), Ty<T>::node(b), Ty<T>::node(c)}); g.describe([&] { return model::show(n); });
    std::initializer_list<T> l{a, b, c};
    same(str(zerialize::serialize<Rec>(l)), n, "an initializer list");
    same(str(zerialize::serialize<Rec>(zerialize::zvec(l))), Node::arr({n}), "an initializer list in a builder");
}
#define S(nm, ...) PART("standard/" nm, 2500, 250000) { scalars_of<__VA_ARGS__>(g); }
#if TU == 1 || TU == -1
S("bool", bool) S("char", char) S("schar", signed char) S("uchar", unsigned char) S("short", short) S("ushort", unsigned short) S("null", std::nullptr_t)
#endif
#if TU == 2 || TU == -1
S("int", int) S("unsigned", unsigned) S("long", long) S("ulong", unsigned long) S("llong", long long) S("ullong", unsigned long long)
#endif
#if TU == 3 || TU == -1
S("float", float) S("double", double) S("string", std::string) S("string_view", std::string_view) S("c-string", const char*)
#endif
#if TU == 4 || TU == -1
S("bytes", BV) S("byte-span", BS) S("user", Node)
PART("standard/nested", 4000, 400000) {
    switch (g.below(6)) {
        case 0: typed<std::vector<std::vector<std::vector<int>>>>(g); break;
        case 1: typed<std::map<std::string, std::map<std::string, std::string>>>(g); break;
        case 2: typed<std::list<std::array<std::unordered_map<std::string, double>, 2>>>(g); break;
        case 3: typed<std::array<std::list<BV>, 2>>(g); break;
        case 4: typed<std::unordered_map<std::string, std::list<std::vector<bool>>>>(g); break;
        default: typed<std::array<int, 0>>(g); break;
    }
}
PART("standard/initializer-list", 4000, 400000) {
    switch (g.below(5)) { case 0: initializer<int>(g); break; case 1: initializer<std::string>(g); break; case 2: initializer<double>(g); break; case 3: initializer<bool>(g); break; default: initializer<const char*>(g); break; }
}
#endif
// ------------------------------------------------------------------ mixtures of builders
#if TU == 0 || TU == -1
PART("builders", 15000, 1500000) {
    auto sub = [&] { int b = 5; return model::gen_node(g, {}, 2, b, false); };
    const Node a = sub(), b = sub(), c = sub();
    const std::string s = model::gen_string(g, {}, false); const int i = int(model::gen_i64(g)); const uint64_t u = model::gen_bits(g); const double d = model::gen_double(g, false); const bool t = g.coin();
    const dyn::Value dv = to_dyn(g, b);
    std::vector<Node> vec{a, c}; std::map<std::string, dyn::Value> mp; mp.emplace("p", dv); mp.emplace("q", to_dyn(g, c));
    const Node mpn = Node::map({{"p", b}, {"q", c}}), vn = Node::arr({a, c});
    g.nontrivial(); g.describe([&] { return model::show(Node::arr({a, b, c, Node::str(s), Node::sint(i), Node::uint(u), Node::dbl(d), Node::boolean(t)})); });
    using zerialize::zvec; using zerialize::zmap; using zerialize::serialize;
    switch (g.below(10)) {
        case 0: same(str(serialize<Rec>(zvec(a, dv, c))), Node::arr({a, b, c}), "zvec"); break;
        case 1: same(str(serialize<Rec>(zmap<"one", "two", "">(a, dv, c))), Node::map({{"one", a}, {"two", b}, {"", c}}), "zmap"); break;
        case 2: same(str(serialize<Rec>(zvec(zvec(zvec(a), i), zmap<"k">(zmap<"l">(zvec(dv, t)))))), Node::arr({Node::arr({Node::arr({a}), Node::sint(i)}), Node::map({{"k", Node::map({{"l", Node::arr({b, Node::boolean(t)})}})}})}), "nested builders"); break;
        case 3: same(str(serialize<Rec>(zmap<"s", "i", "u", "d", "t", "n">(s, i, u, d, t, nullptr))), Node::map({{"s", Node::str(s)}, {"i", Node::sint(i)}, {"u", Node::uint(u)}, {"d", Node::dbl(d)}, {"t", Node::boolean(t)}, {"n", Node::null()}}), "zmap of scalars"); break;
        case 4: same(str(serialize<Rec>(zvec(vec, mp, zmap<"v", "m">(vec, mp)))), Node::arr({vn, mpn, Node::map({{"v", vn}, {"m", mpn}})}), "containers of other forms"); break;
        case 5: { // a builder kept as a variable inside another, changed variables seen at emission
            auto inner = zmap<"x", "y">(s, std::vector<uint64_t>{u, 1}); auto other = inner; auto outer = zvec(inner, inner, std::move(other));
            const Node in = Node::map({{"x", Node::str(s)}, {"y", Node::arr({Node::uint(u), Node::uint(1)})}});
            same(str(serialize<Rec>(outer)), Node::arr({in, in, in}), "a builder used three times"); break; }
        case 6: same(str(serialize<Rec>(zvec("literal", std::string("temporary"), std::string_view(s), 'c', short(-3), (unsigned short)(7), 2.5f))), Node::arr({Node::str("literal"), Node::str("temporary"), Node::str(s), Node::sint('c'), Node::sint(-3), Node::uint(7), Node::dbl(2.5)}), "literals"); break;
        case 7: same(str(serialize<Rec>(dyn::array({1, "two", 3.5, nullptr, true, dv, dyn::map({{"k", dyn::serializable(vec)}})}))), Node::arr({Node::sint(1), Node::str("two"), Node::dbl(3.5), Node::null(), Node::boolean(true), b, Node::map({{"k", vn}})}), "dynamic literals"); break;
        case 8: { std::vector<dyn::Value> vs{dv, to_dyn(g, c)}; std::map<std::string, std::vector<dyn::Value>> mv{{"z", vs}}; same(str(serialize<Rec>(zvec(vs, mv))), Node::arr({Node::arr({b, c}), Node::map({{"z", Node::arr({b, c})}})}), "standard containers of dynamic values"); break; }
        default: same(str(serialize<Rec>(zvec())), Node::arr({}), "an empty zvec"); same(str(serialize<Rec>(zmap<>())), Node::map({}), "an empty zmap"); break;
    }
}
#endif
