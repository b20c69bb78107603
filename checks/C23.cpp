// C23: failures while serializing, translating, decoding or printing propagate cleanly.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
#if TU == 5 || TU == -1
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#endif
#include <list>
using namespace zt;
namespace dyn = zerialize::dyn;

template <class W> void plain(const Node& n, W& w) { // allocates nothing of its own
    switch (n.k) {
        case Node::Null: w.null(); break; case Node::Bool: w.boolean(n.b); break; case Node::Int: w.int64(n.i); break; case Node::UInt: w.uint64(n.u); break; case Node::Dbl: w.double_(n.d); break;
        case Node::Str: w.string(n.s); break; case Node::Blob: w.binary(n.bytes()); break;
        case Node::Arr: w.begin_array(n.a.size()); for (auto& x : n.a) plain(x, w); w.end_array(); break;
        case Node::Map: w.begin_map(n.m.size()); for (auto& [k, x] : n.m) { w.key(k); plain(x, w); } w.end_map(); break;
    }
}
// ------------------------------------------------------------------ user code that throws
struct Boom { uint64_t at; };
struct Fuse { uint64_t left; uint64_t used = 0; void step() { ++used; if (left-- == 0) throw Boom{used}; } };
struct Bomb { const Node* n; Fuse* f; }; // a user type whose serialization throws at the fuse's event
template <class W> void lit(const Node& n, Fuse& f, W& w) {
    f.step();
    if (n.k == Node::Arr) { w.begin_array(n.a.size()); for (auto& x : n.a) lit(x, f, w); f.step(); w.end_array(); }
    else if (n.k == Node::Map) { w.begin_map(n.m.size()); for (auto& [k, x] : n.m) { f.step(); w.key(k); lit(x, f, w); } f.step(); w.end_map(); }
    else plain(n, w);
}
template <zerialize::Writer W> void serialize(const Bomb& b, W& w) { lit(*b.n, *b.f, w); }

static Node small(Gen& g, const Dom& d) {
    Node n = model::gen_tree(g, d, false);
    if (g.chance(1, 6)) n = Node::arr({std::move(n), Node::blob(std::string(g.range(3000, 40000), 'x')), Node::str(std::string(g.range(0, 9000), 'y'))});
    return n;
}
// Blocks were left allocated by an operation. Memory kept for reuse settles when the operation is repeated; a leak grows each time.
template <class F> bool keeps_growing(F&& again) {
    for (int i = 0; i < 6; ++i) {
        const size_t before = faults::live();
        again();
        if (faults::live() <= before) return false;
    }
    return true;
}
template <class F> void clean(F&& f, const std::string& what) { // f returns true if it ended as it should; nothing may be left allocated
    faults::arm(faults::never, false);
    bool ok = false; std::string other;
    try { ok = f(); } catch (const pbt::Failure&) { faults::disarm(); throw; } catch (const std::exception& e) { faults::disarm(); FAILMSG(what + " ended with " + typeid(e).name() + ": " + e.what()); }
    faults::disarm();
    REQUIRE(ok, what + " did not end with the exception that was thrown");
    const size_t left = faults::live();
    if (left != 0 && keeps_growing([&] { faults::rearm(faults::never, false); try { f(); } catch (const std::exception&) {} faults::disarm(); })) FAILMSG(what + " left " + std::to_string(left) + " block(s) allocated");
}
template <class P> void user_throws(Gen& g) {
    const Node n = small(g, PT<P>::dom()); const size_t form = g.below(6);
    g.nontrivial(model::interesting(n)); g.describe([&] { return "form " + std::to_string(form) + " of " + model::show(n); });
    auto once = [&](Fuse& f) {
        Bomb b{&n, &f};
        switch (form) {
            case 0: return zerialize::serialize<P>(b);
            case 1: return zerialize::serialize<P>(zerialize::zvec(1, std::string("before"), b, zerialize::zmap<"k">(b)));
            case 2: { std::vector<Bomb> v{b, b}; return zerialize::serialize<P>(v); }
            case 3: { std::map<std::string, Bomb> v{{"a", b}, {"b", b}}; return zerialize::serialize<P>(v); }
            case 4: return zerialize::serialize<P>(dyn::array({1, "two", dyn::serializable(b), dyn::map({{"k", dyn::serializable(b)}})}));
            default: return zerialize::serialize<P>(zerialize::zmap<"s", "t">(std::string(40, 's'), zerialize::zvec(b, std::list<Bomb>{b})));
        }
    };
    Fuse whole{faults::never}; const Bytes good = to_bytes(once(whole)); // also warms up whatever is allocated once
    const uint64_t total = whole.used; const uint64_t stride = total > 60 ? total / 40 : 1;
    for (uint64_t k = g.below(stride); k < total; k += stride) {
        clean([&] { Fuse f{k}; try { ZBuffer z = once(f); (void)z; } catch (const Boom& x) { return x.at == k + 1; } return false; }, std::string(PT<P>::name) + ": user code throwing at event " + std::to_string(k));
    }
    Fuse again{faults::never}; REQUIRE(to_bytes(once(again)) == good, "after the failures the same value gives another message");
}
// ------------------------------------------------------------------ memory running out
struct Sink { Bytes b; bool ran = false; };
// Runs `op` with each allocation (or a spread of them) failing. op must throw, or give what it gives without failures.
template <class R, class F> void each_allocation(Gen& g, F&& op, const std::string& what) {
    { faults::arm(faults::never, false); { R warm = op(); (void)warm; } faults::disarm(); }
    const R good = op();
    faults::arm(faults::never, false); { R x = op(); faults::disarm(); (void)x; }
    const uint64_t total = faults::seen;
    if (const size_t left = faults::live(); left != 0 && keeps_growing([&] { faults::rearm(faults::never, false); { R x = op(); faults::disarm(); (void)x; } })) FAILMSG(what + " leaves " + std::to_string(left) + " block(s) allocated even without failures");
    const uint64_t stride = total > 60 ? total / 40 : 1; uint64_t tried = 0;
    for (uint64_t k = g.below(stride); k < total; k += stride) for (int persist = 0; persist < 2; ++persist) {
        bool same = true, threw = false; ++tried;
        faults::arm(k, persist);
        try { R x = op(); faults::armed = false; same = (x == good); faults::armed = true; }
        catch (const std::exception&) { threw = true; }
        catch (const pbt::Failure&) { faults::disarm(); throw; }
        faults::disarm();
        REQUIRE(threw || same, what + " with allocation " + std::to_string(k) + (persist ? " and all later ones" : "") + " of " + std::to_string(total) + " failing gives an incomplete result instead of an exception");
        if (const size_t left = faults::live(); left != 0 && keeps_growing([&] { faults::rearm(k, persist); try { R x = op(); (void)x; } catch (const std::exception&) {} faults::disarm(); }))
            FAILMSG(what + " with allocation " + std::to_string(k) + (persist ? " and all later ones" : "") + " failing leaves " + std::to_string(left) + " block(s) allocated");
    }
    R again = op(); REQUIRE(again == good, what + " gives another result after the failures");
    g.label(tried ? "with allocations" : "without allocations");
}
static bool armed_copy(const ZBuffer& z, Bytes& out) { const bool a = faults::armed; faults::armed = false; out = to_bytes(z); faults::armed = a; return true; }
struct Msg { // compared by contents, held as the operation returned it
    ZBuffer z; Msg(ZBuffer x) : z(std::move(x)) {}
    bool operator==(const Msg& o) const { auto a = z.buf(), b = o.z.buf(); return a.size() == b.size() && (a.empty() || !std::memcmp(a.data(), b.data(), a.size())); }
};
template <class P> struct Rd { // a reader, compared by the value it reads as
    typename P::Deserializer d; Rd(typename P::Deserializer x) : d(std::move(x)) {}
    bool operator==(const Rd& o) const { const bool a = faults::armed; faults::armed = false; const bool r = model::equal(read_back<P>(d), read_back<P>(o.d)); faults::armed = a; return r; }
};
struct Back { Node n; bool operator==(const Back& o) const { return model::equal(n, o.n); } };

template <class P> void writing(Gen& g) {
    const Node n = small(g, PT<P>::dom()); const size_t form = g.below(5);
    g.nontrivial(model::interesting(n)); g.describe([&] { return "form " + std::to_string(form) + " of " + model::show(n); });
    const std::string what = std::string("serializing as ") + PT<P>::name;
    const std::string s(50, 's');
    switch (form) {
        case 0: each_allocation<Msg>(g, [&] { typename P::RootSerializer rs{}; typename P::Serializer w{rs}; plain(n, w); return Msg(rs.finish()); }, what); break;
        case 1: { Fuse f{faults::never}; Bomb b{&n, &f}; each_allocation<Msg>(g, [&] { return Msg(zerialize::serialize<P>(zerialize::zmap<"a", "b">(b, zerialize::zvec(s, 1, b)))); }, what); break; }
        case 2: { const dyn::Value v = dyn::array({dyn::serializable(n), s, dyn::map({{"k", 1}})}); each_allocation<Msg>(g, [&] { return Msg(zerialize::serialize<P>(v)); }, what); break; }
        case 3: each_allocation<Msg>(g, [&] { dyn::Value v = dyn::map({{"k", s}, {"l", dyn::serializable(n)}, {"m", dyn::array({1, s, dyn::Value::blob(n.bytes())})}}); dyn::Value c = v; return Msg(zerialize::serialize<P>(std::move(c))); }, what); break;
        default: { std::map<std::string, std::vector<std::string>> m{{"a", {s, s}}, {"b", {}}}; each_allocation<Msg>(g, [&] { auto b = zerialize::zvec(std::map<std::string, std::vector<std::string>>(m), std::string(s)); return Msg(zerialize::serialize<P>(b)); }, what); }
    }
}
template <class P> void reading(Gen& g) {
    const Node n = small(g, PT<P>::dom()); const Bytes b = encode<P>(n); auto h = hold<P>(b, g.below(4)); const size_t op = g.below(5);
    static const char* names[] = {"opening", "reading all of", "copying a reader of", "printing", "translating"};
    g.nontrivial(model::interesting(n)); g.describe([&] { return std::string(names[op]) + " " + model::show(n); });
    const std::string what = std::string(names[op]) + " a " + PT<P>::name + " message";
    const auto& r = *h;
    switch (op) {
        case 0:
            if constexpr (PT<P>::vec_ctor) { if (g.coin()) { each_allocation<Rd<P>>(g, [&] { return Rd<P>(typename P::Deserializer(b)); }, what); break; } }
            each_allocation<Rd<P>>(g, [&] { return Rd<P>(typename P::Deserializer(std::span<const uint8_t>(b))); }, what); break;
        case 1: each_allocation<Back>(g, [&] { return Back{read_back<P>(r)}; }, what); break;
        case 2: if constexpr (std::is_copy_constructible_v<typename P::Deserializer>) each_allocation<Rd<P>>(g, [&] { typename P::Deserializer c(r); typename P::Deserializer e(std::span<const uint8_t>(b.data(), b.size())); e = c; return Rd<P>(std::move(e)); }, what); break;
        case 3: // JSON says in its text that printing failed
            if constexpr (std::is_same_v<P, zerialize::Zera> || PT<P>::span_blob) each_allocation<std::string>(g, [&] { return r.to_string(); }, what); break;
        default:
            if (model::longest_key(n) > 65535) break;
            with_p(PList<zerialize::Zera, zerialize::Flex, zerialize::MsgPack>{}, g.below(3), [&]<class Q>() { bool nul = false; model::visit(n, [&](const Node& x) { for (auto& e : x.m) nul = nul || e.first.find('\0') != std::string::npos; }); if (std::is_same_v<Q, zerialize::Flex> && nul) return; each_allocation<Rd<Q>>(g, [&] { return Rd<Q>(zerialize::translate<Q>(r)); }, what + " to " + PT<Q>::name); });
            break;
    }
    check_value<P>(r, n, "the reader after the failures");
}
// Sources that fail while they are translated.
template <class P> void bad_source(Gen& g) {
    Node n = small(g, PT<P>::dom()); if (model::longest_key(n) > 65535) n = Node::null();
    zerialize::Zera::RootSerializer rs; zerialize::Zera::Serializer w(rs); plain(Node::arr({Node::str(std::string(30, 'q')), n, Node::uint(0x1234567890abcdefull), Node::str("end")}), w);
    Bytes b = to_bytes(rs.finish());
    // the marked integer gets an unknown tag
    const uint8_t mark[] = {0xef, 0xcd, 0xab, 0x90, 0x78, 0x56, 0x34, 0x12}; auto it = b.begin(); Bytes::iterator last = b.end();
    while ((it = std::search(it, b.end(), mark, mark + 8)) != b.end()) { last = it; ++it; }
    const uint8_t tag = uint8_t(g.one_of<int>({9, 200, 255})); *(last - 4) = tag;
    g.nontrivial(model::interesting(n)); g.describe([&] { return model::show(n); });
    const zerialize::Zera::Deserializer d{std::span<const uint8_t>(b)};
    auto once = [&] { try { auto x = zerialize::translate<P>(d); (void)x; } catch (const std::exception&) { return true; } return false; };
    if (!once()) FAILMSG("a message with an unknown tag was translated");
    clean([&] { return once(); }, std::string("a failing translation to ") + PT<P>::name);
}
#define M(P, nm) PART("user-code-throws/" nm, 5000, 250000) { user_throws<P>(g); } PART("out-of-memory-writing/" nm, 2500, 120000) { writing<P>(g); } PART("out-of-memory-reading/" nm, 2500, 120000) { reading<P>(g); } PART("failing-source/" nm, 3000, 120000) { bad_source<P>(g); }
PER_PROTOCOL(M)
#if TU == 0 || TU == -1
PART("out-of-memory-buffers", 1500, 150000) {
    Bytes data = g.bytes(g.below(100)); g.nontrivial(!data.empty()); g.describe([&] { return pbt::hex(data, 60); });
    each_allocation<Msg>(g, [&] { return Msg(ZBuffer(Bytes(data))); }, "making a buffer");
    each_allocation<Msg>(g, [&] { uint8_t* p = static_cast<uint8_t*>(std::malloc(data.size() + 1)); std::memcpy(p, data.data(), data.size()); struct D { uint8_t pad[64] = {}; void operator()(void* q) const { std::free(q); } }; return Msg(ZBuffer(p, data.size(), ZBuffer::Deleters::Free)); }, "adopting memory");
    ZBuffer z{Bytes(data)}; each_allocation<Bytes>(g, [&] { return z.to_vector_copy(); }, "copying a buffer"); each_allocation<std::string>(g, [&] { return z.to_string(); }, "describing a buffer");
}
#endif
#if TU == 5 || TU == -1
template <class P> void tensor(Gen& g) {
    const size_t r = g.range(1, 4), c = g.range(1, 5); xt::xarray<double> x = xt::zeros<double>({r, c}); for (auto& e : x) e = double(g.below(100));
    g.nontrivial(r * c > 1); g.describe([&] { return std::to_string(r) + "x" + std::to_string(c) + " in " + PT<P>::name; });
    each_allocation<Msg>(g, [&] { return Msg(zerialize::serialize<P>(x)); }, "serializing a tensor");
    const Bytes b = to_bytes(zerialize::serialize<P>(x)); auto h = hold<P>(b, 0, g.below(16));
    each_allocation<xt::xarray<double>>(g, [&] { return zerialize::xtensor::asXTensor<double>(*h); }, "decoding a tensor");
    using Mx = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
    each_allocation<Mx>(g, [&] { return Mx(zerialize::eigen::asEigenMatrix<double, Eigen::Dynamic, Eigen::Dynamic, false, Eigen::RowMajor>(*h)); }, "decoding a matrix");
}
PART("out-of-memory-tensors", 600, 60000) { switch (g.below(3)) { case 0: tensor<zerialize::Zera>(g); break; case 1: tensor<zerialize::MsgPack>(g); break; default: tensor<zerialize::Flex>(g); } }
#endif
