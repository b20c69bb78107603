// C15: readers stay valid through copying, moving and destroying other readers.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
#include <memory>
#include <sanitizer/allocator_interface.h>
using namespace zt;

// Blocks allocated while the library makes, copies, moves or assigns a reader, until they are freed.
namespace blocks {
static constexpr size_t Size = 1 << 12;
static thread_local bool on = false; static thread_local size_t live = 0; static thread_local const void* at[Size]; static const char gone = 0;
static size_t slot(const void* p) { return (reinterpret_cast<uintptr_t>(p) / 16 * 0x9e3779b97f4a7c15ull) >> 52; }
static void on_malloc(const volatile void* vp, size_t) {
    if (!on || live >= Size / 2) return;
    const void* p = const_cast<const void*>(vp);
    for (size_t i = slot(p);; i = (i + 1) % Size) if (!at[i] || at[i] == &gone) { at[i] = p; ++live; return; }
}
static void on_free(const volatile void* vp) {
    if (!live || !vp) return;
    const void* p = const_cast<const void*>(vp);
    for (size_t i = slot(p), n = 0; at[i] && n < Size; i = (i + 1) % Size, ++n) if (at[i] == p) { at[i] = &gone; --live; return; }
}
static const int installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
static void reset() { std::memset(at, 0, sizeof at); live = 0; }
struct In { bool was = on; In() { on = true; } ~In() { on = was; } };
}
template <class F> static decltype(auto) lib(F&& f) { blocks::In in; return f(); }

template <class P> struct Pool {
    using D = typename P::Deserializer;
    template <class... A> static std::unique_ptr<D> make_d(A&&... a) { blocks::In in; return std::make_unique<D>(std::forward<A>(a)...); }
    static constexpr bool copyable = std::is_copy_constructible_v<D>;
    struct Slot {
        std::unique_ptr<D> d;               // the reader
        std::shared_ptr<Node> want;         // what it must read as
        std::shared_ptr<void> borrowed;     // what it refers to, if it does not own its bytes
    };
    std::vector<Slot> slots;
    Gen& g;
    std::vector<std::shared_ptr<Node>> values; std::vector<Bytes> msgs;
    std::string log;
    explicit Pool(Gen& gen) : g(gen) {
        const size_t k = g.range(1, 3);
        for (size_t i = 0; i < k; ++i) {
            Node n = model::gen_tree(g, PT<P>::dom(), g.chance(1, 10));
            values.push_back(std::make_shared<Node>(n)); msgs.push_back(encode<P>(n));
            g.describe([&] { return "message " + std::to_string(i) + ": " + model::show(n); });
        }
    }
    void note(const std::string& s) { g.describe([&] { return s; }); }
    void check(size_t i, const char* when) {
        auto& s = slots[i];
        check_value<P>(*s.d, *s.want, std::string(when) + " #" + std::to_string(i));
    }
    void make() {
        const size_t v = g.below(values.size()); Slot s; s.want = values[v]; const Bytes& b = msgs[v];
        const size_t route = g.below(6);
        note("new reader #" + std::to_string(slots.size()) + " of message " + std::to_string(v) + " by route " + std::to_string(route));
        if (PT<P>::vec_ctor && route == 0) { if constexpr (PT<P>::vec_ctor) { auto t = std::make_unique<Bytes>(b); s.d = make_d(std::as_const(*t)); std::fill(t->begin(), t->end(), uint8_t(0xdd)); } } // copied from a vector that then changes and goes
        else if (PT<P>::vec_ctor && route == 1) { if constexpr (PT<P>::vec_ctor) { Bytes t = lib([&] { return Bytes(b); }); s.d = make_d(std::move(t)); t.assign(b.size(), uint8_t(0xdd)); } }
        else if (route == 2 && copyable) { if constexpr (requires { D::copy_from(std::span<const uint8_t>{}); }) { Exact e(b); s.d = lib([&] { return make_d(D::copy_from(e.span())); }); } else { auto e = std::make_shared<Exact>(b, g.below(8)); s.borrowed = e; s.d = make_d(e->span()); } }
        else if (route == 3) { auto e = std::make_shared<Exact>(b, g.below(8)); s.borrowed = e; s.d = lib([&] { return from_pointer<D>(*e); }); if constexpr (!PT<P>::vec_ctor || pointer_copies<D>) s.borrowed.reset(); }
        else if (route == 4) { // the result of a translation, from a reader that goes away
            auto src = std::make_unique<typename zerialize::MsgPack::Deserializer>(encode<zerialize::MsgPack>(*s.want));
            if (!PT<P>::keeps_sign && model::longest_key(*s.want) <= 65535) s.d = lib([&] { return make_d(zerialize::translate<P>(*src)); });
            else { auto own = make_d(std::span<const uint8_t>(b)); s.d = lib([&] { return make_d(zerialize::translate<P>(*own)); }); if (PT<P>::sorted) { auto n = *s.want; sort_maps(n); s.want = std::make_shared<Node>(n); } }
        }
        else { auto e = std::make_shared<Exact>(b, g.below(8)); s.borrowed = e; s.d = make_d(e->span()); if constexpr (!PT<P>::vec_ctor) s.borrowed.reset(); } // JSON copies what it parses
        if constexpr (std::is_default_constructible_v<D>) if (g.chance(1, 6)) { // into a reader that was made empty, and looked at
            note("through an empty reader");
            auto d = make_d(); look_at_empty(*d);
            if (copyable && g.coin()) { if constexpr (copyable) { D e(*d); look_at_empty(e); D f; f = e; look_at_empty(f); lib([&] { *d = *s.d; }); } } else { D e(std::move(*d)); look_at_empty(e); lib([&] { *d = std::move(*s.d); }); }
            s.d = std::move(d);
        }
        slots.push_back(std::move(s));
        check(slots.size() - 1, "new");
    }
    // Some formats' sub-readers are of the reader's own type: they borrow from another reader.
    static constexpr bool own_subs = std::is_same_v<D, decltype(std::declval<const D&>()[size_t(0)])>;
    static const Node* child(Gen& g, const Node& n, std::string& key, size_t& idx) {
        if (n.k == Node::Arr && !n.a.empty()) { idx = g.below(n.a.size()); return &n.a[idx]; }
        if (n.k == Node::Map && !n.m.empty()) { auto& e = n.m[g.below(n.m.size())]; key = e.first; return &e.second; }
        return nullptr;
    }
    static D step_into(const D& d, const Node& n, const std::string& key, size_t idx) { if (n.k == Node::Arr) return d[idx]; return d[std::string_view(key)]; }
    void sub() { // a reader of a part of what another reader, that stays, owns or borrows
        if constexpr (own_subs) {
            const size_t v = g.below(values.size()); const Node n = *values[v]; std::string key; size_t idx = 0;
            const Node* c = child(g, n, key, idx); if (!c) return;
            struct Keep { std::shared_ptr<Exact> bytes; std::unique_ptr<D> d; };
            auto k = std::make_shared<Keep>(); k->bytes = std::make_shared<Exact>(msgs[v], g.below(8));
            if (PT<P>::vec_ctor && g.coin()) { if constexpr (PT<P>::vec_ctor) { k->d = make_d(Bytes(msgs[v])); k->bytes.reset(); } } else k->d = make_d(k->bytes->span());
            note("new reader #" + std::to_string(slots.size()) + " of a part of message " + std::to_string(v));
            Slot s; s.d = lib([&] { return make_d(step_into(*k->d, n, key, idx)); }); s.want = std::make_shared<Node>(*c); s.borrowed = k;
            slots.push_back(std::move(s)); check(slots.size() - 1, "new part");
        }
    }
    void descend(size_t i) { // d = d[x], for a reader that owns nothing
        if constexpr (own_subs && std::is_move_assignable_v<D>) {
            std::string key; size_t idx = 0; auto& s = slots[i];
            if (!s.borrowed) return;
            const Node* c = child(g, *s.want, key, idx); if (!c) return;
            note("descend #" + std::to_string(i));
            lib([&] { *s.d = step_into(*s.d, *s.want, key, idx); }); s.want = std::make_shared<Node>(*c); check(i, "descended");
        }
    }
    // A reader of nothing reads as an empty value or throws.
    static void look_at_empty(const D& d) {
        auto tr = [&](auto f) { try { (void)f(); } catch (const DeserializationError&) {} };
        tr([&] { REQUIRE(!d.isString() && !d.isInt() && !d.isUInt() && !d.isFloat() && !d.isBool() && !d.isBlob(), "an empty reader claims to have a value"); return 0; });
        tr([&] { return d.asInt64(); }); tr([&] { return d.asDouble(); }); tr([&] { return d.asString().size(); }); tr([&] { return d.asBool(); }); tr([&] { return d.to_string().size(); });
        tr([&] { REQUIRE(d.arraySize() == 0, "an empty reader has elements"); return 0; }); tr([&] { REQUIRE(!d.contains("a"), "an empty reader has a key"); return 0; });
        tr([&] { for (auto k : d.mapKeys()) REQUIRE(false, "an empty reader has the key " + std::string(k)); return 0; });
    }
    void step() {
        if (slots.empty()) { make(); return; }
        const size_t i = g.below(slots.size()), j = g.below(slots.size());
        const std::string si = "#" + std::to_string(i), sj = "#" + std::to_string(j);
        switch (g.pick({4, 4, 4, 4, 3, 4, 2, 3, 3, 2, 3, 2})) {
            case 0: make(); break;
            case 1: if constexpr (copyable) { note("copy " + si); Slot s{make_d(*slots[i].d), slots[i].want, slots[i].borrowed}; slots.push_back(std::move(s)); check(slots.size() - 1, "copy"); check(i, "copied from"); } break;
            case 2: { note("move " + si); Slot s{make_d(std::move(*slots[i].d)), slots[i].want, slots[i].borrowed}; slots.erase(slots.begin() + ptrdiff_t(i)); slots.push_back(std::move(s)); check(slots.size() - 1, "moved"); break; }
            case 3: if constexpr (std::is_copy_assignable_v<D>) { note(si + " = " + sj); lib([&] { *slots[i].d = std::as_const(*slots[j].d); }); slots[i].want = slots[j].want; slots[i].borrowed = slots[j].borrowed; check(i, "assigned"); check(j, "assigned from"); } break;
            case 4: if (i != j) { note(si + " = move " + sj); lib([&] { *slots[i].d = std::move(*slots[j].d); }); slots[i].want = slots[j].want; slots[i].borrowed = slots[j].borrowed; slots.erase(slots.begin() + ptrdiff_t(j)); check(i > j ? i - 1 : i, "move-assigned"); }
                break;
            case 5: { note("destroy " + si); slots.erase(slots.begin() + ptrdiff_t(i)); if (!slots.empty()) check(g.below(slots.size()), "after destroying another"); break; }
            case 6: if (i != j) { note("swap " + si + " " + sj); lib([&] { std::swap(*slots[i].d, *slots[j].d); }); std::swap(slots[i].want, slots[j].want); std::swap(slots[i].borrowed, slots[j].borrowed); check(i, "swapped"); check(j, "swapped"); } break;
            case 7: { // a growing vector of readers
                note("through a vector: " + si);
                std::vector<D> v; const size_t k = g.range(1, 4);
                if constexpr (copyable) { for (size_t q = 0; q < k; ++q) v.push_back(*slots[i].d); for (auto& d : v) check_value<P>(d, *slots[i].want, "in a vector"); if (g.coin()) { v.erase(v.begin()); for (auto& d : v) check_value<P>(d, *slots[i].want, "in a vector"); } std::vector<D> w = v; v.clear(); for (auto& d : w) check_value<P>(d, *slots[i].want, "in a copied vector"); }
                else { v.push_back(std::move(*slots[i].d)); v.reserve(v.capacity() + 5); check_value<P>(v[0], *slots[i].want, "in a vector"); *slots[i].d = std::move(v[0]); }
                check(i, "after a vector");
                break;
            }
            case 8: // a reader outlives the one it was copied from, and a sub-reader the temporary it came through
                if constexpr (copyable) { note("replace " + si + " by its copy"); auto c = make_d(*slots[i].d); slots[i].d = std::move(c); check(i, "replaced by its copy"); }
                break;
            case 10: sub(); break;
            case 11: descend(i); break;
            default: if constexpr (std::is_copy_assignable_v<D>) { note("self-assign " + si); D& a = *slots[i].d; const D& b = a; lib([&] { a = b; }); check(i, "self-assigned"); } break;
        }
    }
};
template <class P> void histories(Gen& g, size_t max) {
    blocks::reset();
    Pool<P> p(g); const size_t ops = g.range(2, max);
    for (size_t k = 0; k < ops; ++k) p.step();
    for (size_t i = 0; i < p.slots.size(); ++i) p.check(i, "at the end");
    while (!p.slots.empty()) { p.slots.erase(p.slots.begin() + ptrdiff_t(g.below(p.slots.size()))); for (size_t i = 0; i < p.slots.size(); ++i) p.check(i, "while others go"); }
    REQUIRE(blocks::live == 0, std::to_string(blocks::live) + " blocks of memory are left when all readers are gone");
    g.nontrivial(ops >= 3);
}
#define M(P, nm) \
    PART("short/" nm, 40000, 1000000) { histories<P>(g, 6); } \
    PART("long/" nm, 4000, 150000) { histories<P>(g, 40); }
PER_PROTOCOL(M)
