// C28: describing a value and passing it to a writer adds nothing: no allocation, no copy of the user's objects, contents handed over in place.
#if TU == 4 || !defined(TU)
#include "../engine/tensors.hpp"
#endif
#include "../engine/typed.hpp"
#include "../engine/tus.hpp"
#include <zerialize/zbuilders.hpp>
#include <zerialize/translate.hpp>
#include <sanitizer/allocator_interface.h>
using namespace zt;
using namespace ty;
namespace dyn = zerialize::dyn;

// ---- allocations of this thread
static thread_local bool counting = false; static thread_local size_t allocations = 0;
static void on_malloc(const volatile void*, size_t) { if (counting) ++allocations; }
static void on_free(const volatile void*) {}
static const int installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
struct Count { Count() { allocations = 0; counting = true; } ~Count() { counting = false; } };

// ---- a protocol that notes where what it is given lies, and allocates nothing itself
struct Given { const void* p; size_t n; char kind; };
struct Notes {
    static constexpr size_t Max = 1 << 17;
    static inline Given at[Max]; static inline size_t n, events, got;
    static void reset() { n = events = got = 0; }
    static void put(char k, const void* p, size_t z) { ++events; if (n < Max) at[n] = {p, z, k}; ++n; }
};
struct Loc {
    struct RootSerializer {
        RootSerializer() { Notes::reset(); allocations = 0; counting = true; } // from the first thing done ...
        ZBuffer finish() { Notes::got = allocations; counting = false; return ZBuffer(std::vector<uint8_t>()); } // ... to the last
    };
    struct Serializer {
        explicit Serializer(RootSerializer&) {}
        Serializer(const Serializer&) = delete; Serializer& operator=(const Serializer&) = delete;
        void null() { ++Notes::events; } void boolean(bool) { ++Notes::events; } void int64(int64_t) { ++Notes::events; } void uint64(uint64_t) { ++Notes::events; } void double_(double) { ++Notes::events; }
        void string(std::string_view s) { Notes::put('s', s.data(), s.size()); }
        void binary(std::span<const std::byte> b) { Notes::put('b', b.data(), b.size()); }
        void key(std::string_view s) { Notes::put('k', s.data(), s.size()); }
        void begin_array(size_t) { ++Notes::events; } void end_array() { ++Notes::events; } void begin_map(size_t) { ++Notes::events; } void end_map() { ++Notes::events; }
    };
    using Deserializer = zerialize::Zera::Deserializer;
    static inline constexpr const char* Name = "notes";
};

// ---- a user's type that counts what is done to it
namespace user {
struct Tracked {
    std::string s;
    static inline size_t copies, moves, written;
    Tracked() = default; explicit Tracked(std::string x) : s(std::move(x)) {}
    Tracked(const Tracked& o) : s(o.s) { ++copies; } Tracked(Tracked&& o) noexcept : s(std::move(o.s)) { ++moves; }
    Tracked& operator=(const Tracked& o) { s = o.s; ++copies; return *this; } Tracked& operator=(Tracked&& o) noexcept { s = std::move(o.s); ++moves; return *this; }
};
template <zerialize::Writer W> void serialize(const Tracked& t, W& w) { ++Tracked::written; w.string(t.s); }
}
using user::Tracked;
namespace ty { template <> struct Ty<Tracked> { static Tracked gen(Gen& g) { return Tracked(Ty<std::string>::gen(g)); } static Node node(const Tracked& t) { return Node::str(t.s); } }; }
static size_t touched() { return Tracked::copies; }

// ---- where the contents of a value lie, in the order they are written
using Places = std::vector<Given>;
template <class T> void places(const T&, Places&) {}
static void places(const std::string& s, Places& o) { o.push_back({s.data(), s.size(), 's'}); }
static void places(const std::string_view& s, Places& o) { o.push_back({s.data(), s.size(), 's'}); }
static void places(const char* const& s, Places& o) { o.push_back({s, std::strlen(s), 's'}); }
static void places(const Tracked& t, Places& o) { o.push_back({t.s.data(), t.s.size(), 's'}); }
static void places(const BV& b, Places& o) { o.push_back({b.data(), b.size(), 'b'}); }
static void places(const BS& b, Places& o) { o.push_back({b.data(), b.size(), 'b'}); }
static void places(const std::vector<bool>&, Places&) {}
static void places(const dyn::Value& v, Places& o);
template <class T> void places(const std::vector<T>& v, Places& o) requires(!std::is_same_v<T, bool> && !std::is_same_v<T, std::byte>);
template <class T> void places(const std::list<T>& v, Places& o);
template <class T, size_t N> void places(const std::array<T, N>& v, Places& o);
template <class T> void places(const std::map<std::string, T>& v, Places& o);
template <class T> void places(const std::unordered_map<std::string, T>& v, Places& o);
template <class T> void places(const std::vector<T>& v, Places& o) requires(!std::is_same_v<T, bool> && !std::is_same_v<T, std::byte>) { for (auto& x : v) places(x, o); }
template <class T> void places(const std::list<T>& v, Places& o) { for (auto& x : v) places(x, o); }
template <class T, size_t N> void places(const std::array<T, N>& v, Places& o) { for (auto& x : v) places(x, o); }
static void key_place(const std::string& k, Places& o) { o.push_back({k.data(), k.size(), 'k'}); }
template <class T> void places(const std::map<std::string, T>& v, Places& o) { for (auto& [k, x] : v) { key_place(k, o); places(x, o); } }
template <class T> void places(const std::unordered_map<std::string, T>& v, Places& o) { for (auto& [k, x] : v) { key_place(k, o); places(x, o); } }
static void places(const dyn::Value& v, Places& o) {
    std::visit([&](const auto& x) {
        using X = std::remove_cvref_t<decltype(x)>;
        if constexpr (std::is_same_v<X, dyn::Value::Array>) { for (auto& c : x) places(c, o); }
        else if constexpr (std::is_same_v<X, dyn::Value::Map>) { for (auto& [k, c] : x) { key_place(k, o); places(c, o); } }
        else if constexpr (std::is_same_v<X, dyn::Serializable>) { o.push_back({x.storage.get(), 0, '?'}); }
        else places(x, o);
    }, v.storage());
}
// What was moved away keeps its place, unless it lay inside the moved object itself.
static void forget_within(Places& o, const void* lo, size_t n) { for (auto& x : o) if (x.p >= lo && x.p < static_cast<const char*>(lo) + n) x.p = nullptr; }
static void append(Places& o, const Places& x) { o.insert(o.end(), x.begin(), x.end()); }
static const Given any_key{nullptr, 0, 'K'};

static void compare(const Places& want, const std::string& how) {
    REQUIRE(Notes::n == want.size(), how + ": the writer is given " + std::to_string(Notes::n) + " strings, blobs and keys instead of " + std::to_string(want.size()));
    for (size_t i = 0; i < want.size() && i < Notes::Max; ++i) {
        const Given &a = Notes::at[i], &b = want[i];
        if (b.kind == '?') continue;
        if (b.kind == 'K') { REQUIRE(a.kind == 'k', how + ": not a key"); continue; }
        const std::string what = a.kind == 's' ? "a string" : a.kind == 'b' ? "a blob" : "a key";
        REQUIRE(a.kind == b.kind && a.n == b.n, how + ": " + what + " of " + std::to_string(a.n) + " bytes instead of " + std::to_string(b.n));
        if (b.p && b.n) REQUIRE(a.p == b.p, how + ": " + what + " of " + std::to_string(a.n) + " bytes is handed to the writer from a copy, not from where it is");
    }
}
// Serializes and compares.
template <class V> void wrote(V&& v, const Places& want, const std::string& how) {
    const size_t c0 = touched();
    (void)zerialize::serialize<Loc>(std::forward<V>(v));
    counting = false;
    REQUIRE(Notes::got == 0, how + ": " + std::to_string(Notes::got) + " allocations while the value is passed to the writer");
    REQUIRE(touched() == c0, how + ": " + std::to_string(touched() - c0) + " copies of the user's objects");
    compare(want, how);
}
// Builds without allocating or copying.
template <class F> auto building(F&& f, const char* how) {
    const size_t c0 = touched(); size_t got;
    allocations = 0; counting = true; auto b = f(); got = allocations; counting = false;
    REQUIRE(got == 0, std::string(how) + ": " + std::to_string(got) + " allocations while it is built");
    REQUIRE(touched() == c0, std::string(how) + ": " + std::to_string(touched() - c0) + " copies of the user's objects while it is built");
    return b;
}
template <class T> void typed(Gen& g) {
    using zerialize::zvec; using zerialize::zmap;
    arena().clear();
    const T v = Ty<T>::gen(g); const Node n = Ty<T>::node(v);
    g.nontrivial(); g.describe([&] { return model::show(n); });
    Places p; places(v, p);
    wrote(v, p, "a value");
    { T t(v); Places q; places(t, q); wrote(t, q, "a variable"); }
    { T t(v); Places q; places(t, q); forget_within(q, &t, sizeof t); wrote(std::move(t), q, "a temporary"); }
    switch (g.below(6)) {
        case 0: { auto b = building([&] { return zvec(v); }, "zvec of a variable"); wrote(b, p, "zvec of a variable"); wrote(std::move(b), p, "zvec of a variable, again"); break; }
        case 1: { auto b = building([&] { return zmap<"key", "another key, longer than what fits into a string object">(v, v); }, "zmap of a variable"); Places q{any_key}; append(q, p); q.push_back(any_key); append(q, p); wrote(b, q, "zmap of a variable"); break; }
        case 2: { auto b = building([&] { return zvec(1, zvec(v, zmap<"a key that no string object could hold in itself">(v)), 2.5, nullptr, zvec()); }, "nested builders"); Places q = p; q.push_back(any_key); append(q, p); wrote(b, q, "nested builders"); break; }
        case 3: { T t(v), u(v); Places q; places(t, q); forget_within(q, &t, sizeof t); q.push_back(any_key); Places r; places(u, r); forget_within(r, &u, sizeof u); append(q, r);
                  auto b = building([&] { return zvec(std::move(t), zmap<"k">(std::move(u))); }, "builders of temporaries"); wrote(b, q, "builders of temporaries"); auto c = std::move(b); wrote(std::move(c), q, "moved builders of temporaries"); break; }
        case 4: { T t(v); Places q; places(t, q); auto inner = building([&] { return zvec(t); }, "zvec"); auto outer = building([&] { return zmap<"x", "y">(inner, inner); }, "builders of builders");
                  Places r{any_key}; append(r, q); r.push_back(any_key); append(r, q); wrote(outer, r, "builders of builders"); break; }
        default: { // in a dynamic value: what is moved in is taken over
            if constexpr (!std::is_same_v<T, BS> && !std::is_same_v<T, std::string_view> && !std::is_same_v<T, const char*>) {
                T t(v); Places q; places(t, q); forget_within(q, &t, sizeof t); const size_t c0 = touched();
                const dyn::Value d = dyn::serializable(std::move(t));
                REQUIRE(touched() == c0, "wrapping a temporary into a dynamic value copies it");
                wrote(d, q, "a wrapped temporary"); const dyn::Value e = d; wrote(e, q, "a copy of the dynamic value");
            }
        }
    }
}
template <class T> void kinds_of(Gen& g) {
    switch (g.below(9)) {
        case 0: typed<T>(g); break;
        case 1: typed<std::vector<T>>(g); break;
        case 2: typed<std::list<T>>(g); break;
        case 3: typed<std::array<T, 3>>(g); break;
        case 4: typed<std::map<std::string, T>>(g); break;
        case 5: typed<std::unordered_map<std::string, T>>(g); break;
        case 6: typed<std::vector<std::list<T>>>(g); break;
        case 7: typed<std::list<std::array<std::unordered_map<std::string, T>, 2>>>(g); break;
        default: typed<std::map<std::string, std::vector<T>>>(g); break;
    }
}
#define S(nm, n, ...) PART("passing/" nm, n * 3, n * 300) { kinds_of<__VA_ARGS__>(g); }
#if TU == 1 || TU == -1
S("string", 9000, std::string) S("string_view", 6000, std::string_view) S("c-string", 6000, const char*)
#endif
#if TU == 2 || TU == -1
S("bytes", 9000, BV) S("byte-span", 6000, BS)
#endif
#if TU == 3 || TU == -1
S("user", 12000, Tracked) S("int", 3000, int) S("double", 3000, double)
#endif
// ---- dynamic values made of what is moved in
#if TU == 0 || TU == -1
static dyn::Value take(Gen& g, const Node& n, Places& o) {
    switch (n.k) {
        case Node::Null: return dyn::Value(nullptr);
        case Node::Bool: return dyn::Value(n.b);
        case Node::Int: return dyn::Value(n.i);
        case Node::UInt: return dyn::Value(n.u);
        case Node::Dbl: return dyn::Value(n.d);
        case Node::Str: {
            std::string s = n.s;
            if (g.chance(1, 4)) { Tracked t(std::move(s)); Places q; places(t, q); forget_within(q, &t, sizeof t); append(o, q); return dyn::serializable(std::move(t)); }
            Places q; places(s, q); forget_within(q, &s, sizeof s); append(o, q); return dyn::Value(std::move(s));
        }
        case Node::Blob: { BV b = bv(n.s); places(b, o); if (g.coin()) return dyn::Value(dyn::Binary{std::move(b)}); return dyn::Value(std::move(b)); }
        case Node::Arr: { dyn::Value::Array a; a.reserve(n.a.size()); for (auto& x : n.a) a.push_back(take(g, x, o)); return g.coin() ? dyn::Value(std::move(a)) : dyn::Value::array(std::move(a)); }
        default: {
            dyn::Value::Map m; m.reserve(n.m.size());
            for (auto& [k, x] : n.m) { std::string key = k; Places q; key_place(key, q); forget_within(q, &key, sizeof key); append(o, q); m.emplace_back(std::move(key), take(g, x, o)); }
            return g.coin() ? dyn::Value(std::move(m)) : dyn::Value::map(std::move(m));
        }
    }
}
PART("dynamic", 50000, 5000000) {
    const Node n = g.chance(1, 60) ? model::gen_wide(g, {}) : model::gen_tree(g, {}, g.chance(1, 10));
    g.nontrivial(model::interesting(n)); g.describe([&] { return model::show(n); });
    Places p; const size_t c0 = touched();
    dyn::Value v = take(g, n, p);
    REQUIRE(touched() == c0, "a dynamic value copies what is moved into it");
    wrote(v, p, "a dynamic value of temporaries");
    { Places q; places(v, q); wrote(v, q, "a dynamic value"); }
    auto moved = building([&] { return dyn::Value(std::move(v)); }, "a moved dynamic value"); wrote(moved, p, "a moved dynamic value");
    dyn::Value assigned; const size_t c1 = touched(); allocations = 0; counting = true; assigned = std::move(moved); counting = false;
    REQUIRE(allocations == 0 && touched() == c1, "moving a dynamic value into another copies it");
    wrote(assigned, p, "an assigned dynamic value");
    auto b = building([&] { return zerialize::zvec(assigned, zerialize::zmap<"k">(assigned)); }, "builders of a dynamic value"); Places q = p; q.push_back(any_key); append(q, p); 
    wrote(b, q, "builders of a dynamic value");
    auto c = building([&] { return zerialize::zvec(std::move(assigned)); }, "a builder that takes a dynamic value"); wrote(c, p, "a builder that takes a dynamic value");
}
#endif
// ---- tensors whose elements lie in row-major order
#if TU == 4 || TU == -1
template <class A> void tensor(Gen& g, const A& a, size_t bytes, const char* what) {
    g.nontrivial(); g.label(what);
    const Given data{bytes ? static_cast<const void*>(a.data()) : nullptr, bytes, 'b'};
    auto ok = [&](const char* how, size_t n) {
        counting = false;
        compare(Places(n, data), std::string(how) + " of " + what);
    };
    (void)zerialize::serialize<Loc>(a); ok("the value", 1);
    (void)zerialize::serialize<Loc>(zerialize::zvec(a, a)); ok("a builder", 2);
    A t(a); const void* p = t.data(); const bool heap = bytes && !(p >= &t && p < &t + 1);
    const dyn::Value d = dyn::serializable(std::move(t)); (void)zerialize::serialize<Loc>(d); counting = false;
    Places q(1, Given{heap ? p : nullptr, bytes, 'b'}); compare(q, std::string("a dynamic value that took ") + what);
}
PART("passing/tensors", 30000, 3000000) {
    using namespace tz;
    const size_t r = g.range(0, 40), c = g.range(0, 40);
    g.describe([&] { return std::to_string(r) + " x " + std::to_string(c); });
    with_t(TL<int8_t, uint16_t, float, double, std::complex<double>>{}, g.below(5), [&]<class T>() {
        switch (g.below(6)) {
            case 0: { xt::xtensor<T, 2> a(std::array<size_t, 2>{r, c}); tensor(g, a, r * c * sizeof(T), "an xtensor"); break; }
            case 1: { xt::xtensor<T, 1> a(std::array<size_t, 1>{r}); tensor(g, a, r * sizeof(T), "an xtensor of rank 1"); break; }
            case 2: { xt::xarray<T> a(std::vector<size_t>{r, 1, c, 2}); tensor(g, a, r * c * 2 * sizeof(T), "an xarray"); break; }
            case 3: { Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> a; a.resize(Eigen::Index(r), Eigen::Index(c)); tensor(g, a, r * c * sizeof(T), "a matrix"); break; }
            case 4: { Eigen::Matrix<T, 3, 5> a; tensor(g, a, 15 * sizeof(T), "a fixed matrix"); break; }
            default: { Eigen::Matrix<T, Eigen::Dynamic, 1> a{Eigen::Index(r)}; tensor(g, a, r * sizeof(T), "a vector"); break; }
        }
    });
}
#endif
// ---- translation hands on the message's own bytes
#if TU == 5 || TU == -1
static void contents(const Node& n, const std::vector<std::string>& order, size_t& c) { (void)order; if (n.k == Node::Str || n.k == Node::Blob) ++c; for (auto& x : n.a) contents(x, order, c); for (auto& [k, x] : n.m) { ++c; contents(x, order, c); } }
template <class P> void translating(Gen& g, const Node& n) {
    const Bytes m = encode<P>(n); const Exact e(m, g.below(16));
    g.nontrivial(model::interesting(n)); g.describe([&] { return std::string(PT<P>::name) + " " + model::show(n); });
    const typename P::Deserializer d(e.span());
    Loc::RootSerializer rs; Loc::Serializer w(rs); counting = false; zerialize::write_value(d, w);
    size_t want = 0; contents(n, {}, want);
    REQUIRE(Notes::n == want, "translation hands on " + std::to_string(Notes::n) + " strings, blobs and keys instead of " + std::to_string(want));
    const char* lo = reinterpret_cast<const char*>(e.data());
    for (size_t i = 0; i < Notes::n && i < Notes::Max; ++i) if (const Given& x = Notes::at[i]; x.kind != 'k' && x.n) REQUIRE(static_cast<const char*>(x.p) >= lo && static_cast<const char*>(x.p) + x.n <= lo + e.n, "translation copies a string or blob of " + std::to_string(x.n) + " bytes before it hands it on");
}
#define X(P, nm) PART("translating/" nm, 15000, 1500000) { Node n = g.chance(1, 40) ? model::gen_wide(g, PT<P>::dom()) : model::gen_tree(g, PT<P>::dom(), g.chance(1, 10)); if (model::count(n) > 5000) n = model::gen_tree(g, PT<P>::dom(), false); translating<P>(g, n); }
X(zerialize::Zera, "zera") X(zerialize::Flex, "flex") X(zerialize::MsgPack, "msgpack")
#endif
