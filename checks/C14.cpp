// C14: strings and blobs are read in place; reading never changes the message.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
using namespace zt;

// Where the bytes may be: [lo, hi) when they were borrowed, unknown when the reader owns them.
struct Where { const char *lo = nullptr, *hi = nullptr; bool keys_in_place = true, in_place = true; };
struct Seen { const char* p; size_t n; const std::string* want; const char* what; };

template <class P, class V> void collect(Gen& g, const V& v, const Node& n, const Where& w, std::vector<Seen>& out) {
    auto inside = [&](const char* p, size_t k, const char* what) {
        if (w.lo && k && !(p >= w.lo && p + k <= w.hi)) FAILMSG(std::string(what) + " does not point into the message's bytes: " + model::show(n));
    };
    switch (n.k) {
        case Node::Str: {
            const std::string_view s = v.asStringView();
            if (w.in_place) inside(s.data(), s.size(), "a string view");
            REQUIRE(s.size() == n.s.size(), "length of " + model::show(n));
            out.push_back({s.data(), s.size(), &n.s, "string"});
            break;
        }
        case Node::Blob:
            if constexpr (PT<P>::span_blob) {
                auto b = v.asBlob(); auto p = reinterpret_cast<const char*>(b.data());
                inside(p, b.size(), "a blob view");
                REQUIRE(b.size() == n.s.size(), "length of " + model::show(n));
                out.push_back({p, b.size(), &n.s, "blob"});
                if (std::is_same_v<P, zerialize::Zera> && w.lo && !n.s.empty()) REQUIRE((p - w.lo) % 16 == 0, "a blob at offset " + std::to_string(p - w.lo) + " of the message");
            } else REQUIRE(blob_str(v.asBlob()) == n.s, "blob");
            break;
        case Node::Arr:
            for (size_t i : sample_indices(n.a.size())) {
                if (g.coin()) collect<P>(g, v[i], n.a[i], w, out);       // through a temporary
                else { auto e = v[i]; collect<P>(g, e, n.a[i], w, out); } // through a reader that dies here
            }
            break;
        case Node::Map: {
            if (g.coin()) {
                auto want = key_order<P>(n); size_t i = 0;
                for (std::string_view k : v.mapKeys()) {
                    REQUIRE(i < want.size() && k == want[i], "key " + std::to_string(i) + " of " + model::show(n));
                    if (w.keys_in_place) {
                        inside(k.data(), k.size(), "a key");
                        if (n.m.size() < 100) for (auto& e : n.m) if (e.first == k) { out.push_back({k.data(), k.size(), &e.first, "key"}); break; }
                    }
                    ++i;
                }
                REQUIRE(i == want.size(), "keys of " + model::show(n));
            }
            for (size_t i : sample_indices(n.m.size())) {
                const std::string key = n.m[i].first; // the key asked for may die after the call
                if (g.coin()) collect<P>(g, v[std::string_view(key)], n.m[i].second, w, out);
                else { auto e = v[std::string_view(key)]; collect<P>(g, e, n.m[i].second, w, out); }
            }
            break;
        }
        default: break;
    }
}
static void verify(const std::vector<Seen>& s, const char* when) {
    for (auto& x : s) REQUIRE(std::string_view(x.p, x.n) == *x.want, std::string("a ") + x.what + " view changed " + when + ": " + model::quote(std::string(x.p, x.n)) + " instead of " + model::quote(*x.want));
}
static void scribble() { // reuse of the stack the temporaries lay in
    volatile char junk[4096]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = char(0xee);
}
template <class P> void one(Gen& g, const Node& n) {
    const Bytes b = encode<P>(n);
    const uint64_t route = g.below(4); const size_t mis = g.coin() ? g.below(16) : 0;
    g.nontrivial(model::interesting(n));
    g.describe([&] { return model::show(n) + "\nroute " + std::to_string(route); });
    auto h = hold<P>(b, route, mis);
    Where w; if (h.ext) { w.lo = reinterpret_cast<const char*>(h.ext->data()); w.hi = w.lo + h.ext->n; }
#ifdef HAVE_JSON
    if (std::is_same_v<P, zerialize::JSON>) w.in_place = w.keys_in_place = false; // its text is unescaped into the document
#endif
#ifdef HAVE_CBOR
    if (std::is_same_v<P, zerialize::CBOR>) w.keys_in_place = false; // a key lives as long as its iterator
#endif
    g.label(h.ext ? "borrowed" : "owned");
    std::vector<Seen> s;
    collect<P>(g, *h, n, w, s);
    scribble();
    verify(s, "once the readers it came from were gone");
    const bool cheap = model::count(n) < 3000 && model::longest_key(n) <= 65535;
    for (size_t i = g.below(4); i > 0; --i) {
        switch (g.below(5)) {
            case 0: (void)h->to_string(); break;
            case 1: if (cheap) (void)zerialize::translate<zerialize::Zera>(*h); break;
            case 2: if (cheap) (void)zerialize::translate<zerialize::MsgPack>(*h); break;
            case 3: check_value<P>(*h, n); break;
            default: { // accesses that fail
                for (auto* what : {"absent", ""}) try { (void)(*h)[std::string_view(what)]; } catch (const DeserializationError&) {}
                try { (void)(*h)[size_t(1) << 40]; } catch (const DeserializationError&) {}
                try { (void)h->asInt8(); } catch (const DeserializationError&) {}
                try { (void)h->asBool(); } catch (const DeserializationError&) {}
            }
        }
    }
    verify(s, "after more reading");
    if (h.ext) REQUIRE(std::memcmp(h.ext->data(), b.data(), b.size()) == 0, "reading changed the message");
    std::vector<Seen> s2; collect<P>(g, *h, n, w, s2);
    verify(s2, "on the second visit"); verify(s, "after the second visit");
}
#define M(P, nm) \
    PART("trees/" nm, 12000, 1200000) { one<P>(g, model::gen_tree(g, PT<P>::dom(), g.chance(1, 5))); } \
    PART("chains/" nm, 1500, 100000) { one<P>(g, model::gen_chain(g, PT<P>::dom(), g.range(2, 60))); } \
    PART("wide/" nm, 60, 4000) { one<P>(g, model::gen_wide(g, PT<P>::dom())); }
PER_PROTOCOL(M)
#if TU == 0 || TU == -1
// Every arrangement of strings, keys and blobs before a blob leaves it aligned.
PART("zera-blob-alignment", 20000, 3000000) {
    const size_t k = g.range(1, 12); Node n = g.coin() ? Node::arr({}) : Node::map({});
    for (size_t i = 0; i < k; ++i) {
        Node x = g.pick({3, 2, 1}) == 0 ? Node::blob(std::string(g.range(1, 40), 'b')) : g.coin() ? Node::str(std::string(g.below(40), 's')) : Node::arr({Node::blob(std::string(g.range(1, 20), 'c')), Node::sint(1)});
        if (n.k == Node::Arr) n.a.push_back(x); else n.m.push_back({std::string(g.below(30), 'k') + std::to_string(i), x});
    }
    g.nontrivial(); g.describe([&] { return model::show(n); });
    zerialize::Zera::RootSerializer rs{};
    const size_t thr = g.below(13); rs.set_inline_string_threshold(thr);
    zerialize::Zera::Serializer w{rs}; model::emit(n, w);
    const Bytes b = to_bytes(rs.finish());
    auto h = hold<zerialize::Zera>(b);
    Where at; at.lo = reinterpret_cast<const char*>(h.ext->data()); at.hi = at.lo + h.ext->n;
    std::vector<Seen> s; collect<zerialize::Zera>(g, *h, n, at, s); verify(s, "at once");
}
#endif
