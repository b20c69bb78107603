// C18: a writer driven by any event sequence yields a valid message or an error.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
using namespace zt;

struct Ev { enum K { Value, Key, BeginArr, EndArr, BeginMap, EndMap } k; Node v; std::string key; size_t reserve = 0; };
using Evs = std::vector<Ev>;
static Ev value(Node n) { Ev e{Ev::Value, std::move(n), {}, 0}; return e; }
static void flatten(const Node& n, Evs& o) {
    if (n.k == Node::Arr) { o.push_back({Ev::BeginArr, {}, {}, n.a.size()}); for (auto& x : n.a) flatten(x, o); o.push_back({Ev::EndArr, {}, {}, 0}); }
    else if (n.k == Node::Map) { o.push_back({Ev::BeginMap, {}, {}, n.m.size()}); for (auto& [k, x] : n.m) { o.push_back({Ev::Key, {}, k, 0}); flatten(x, o); } o.push_back({Ev::EndMap, {}, {}, 0}); }
    else o.push_back(value(n));
}
static std::string show_evs(const Evs& e) {
    std::string o;
    for (auto& x : e) {
        switch (x.k) { case Ev::Value: model::show(x.v, o); break; case Ev::Key: o += "key(" + model::quote(x.key, 12) + ")"; break; case Ev::BeginArr: o += "begin_array(" + std::to_string(x.reserve) + ")"; break; case Ev::EndArr: o += "end_array"; break; case Ev::BeginMap: o += "begin_map(" + std::to_string(x.reserve) + ")"; break; case Ev::EndMap: o += "end_map"; break; }
        o += "; "; if (o.size() > 1500) return o + "...";
    }
    return o;
}
// What the sequence means. first_bad: the first call after which no continuation can be well-formed (size() when none).
struct Meaning { bool complete = false, dup = false; Node value; size_t first_bad; }; // dup: a map names a key twice (which value it reads as is not promised)
template <class P> Meaning meaning(const Evs& e) {
    struct Open { Node n; bool has_key = false; std::string key; };
    std::vector<Open> st; Meaning m; bool rooted = false; m.first_bad = e.size();
    auto room = [&] { return st.empty() ? !rooted : st.back().n.k == Node::Arr || st.back().has_key; };
    auto deliver = [&](Node n) {
        if (st.empty()) { m.value = std::move(n); rooted = true; return; }
        auto& t = st.back();
        if (t.n.k == Node::Arr) t.n.a.push_back(std::move(n)); else { t.n.m.push_back({t.key, std::move(n)}); t.has_key = false; }
    };
    for (size_t i = 0; i < e.size(); ++i) {
        const Ev& x = e[i]; bool ok = true;
        switch (x.k) {
            case Ev::Value: if ((ok = room())) deliver(x.v); break;
            case Ev::BeginArr: if ((ok = room())) st.push_back({Node::arr({}), false, {}}); break;
            case Ev::BeginMap: if ((ok = room())) st.push_back({Node::map({}), false, {}}); break;
            case Ev::EndArr: if ((ok = !st.empty() && st.back().n.k == Node::Arr)) { Node n = std::move(st.back().n); st.pop_back(); deliver(std::move(n)); } break;
            case Ev::EndMap: if ((ok = !st.empty() && st.back().n.k == Node::Map && !st.back().has_key)) { Node n = std::move(st.back().n); st.pop_back(); deliver(std::move(n)); } break;
            case Ev::Key: if ((ok = !st.empty() && st.back().n.k == Node::Map && !st.back().has_key && (!std::is_same_v<P, zerialize::Zera> || x.key.size() <= 65535))) { for (auto& en : st.back().n.m) m.dup = m.dup || en.first == x.key; st.back().has_key = true; st.back().key = x.key; } break;
        }
        if (!ok) { m.first_bad = i; return m; }
    }
    m.complete = st.empty();
    return m;
}
template <class W> void perform(W& w, const Ev& e) {
    switch (e.k) {
        case Ev::Value: model::emit(e.v, w); break;
        case Ev::Key: { std::unique_ptr<char[]> p(new char[e.key.size()]); std::copy(e.key.begin(), e.key.end(), p.get()); w.key(std::string_view(p.get(), e.key.size())); break; }
        case Ev::BeginArr: w.begin_array(e.reserve); break;
        case Ev::EndArr: w.end_array(); break;
        case Ev::BeginMap: w.begin_map(e.reserve); break;
        case Ev::EndMap: w.end_map(); break;
    }
}
template <class P> bool library_error(const std::exception& e) {
    if (dynamic_cast<const SerializationError*>(&e)) return true;
    return !std::is_same_v<P, zerialize::Zera> && dynamic_cast<const std::logic_error*>(&e); // JSON and Flex report misuse as logic_error
}
template <class R> void threshold(R& rs, Gen& g) {
    if constexpr (requires { rs.set_inline_string_threshold(3u); }) if (g.chance(1, 3)) {
        const uint32_t t = uint32_t(g.below(20)); bool threw = false;
        try { rs.set_inline_string_threshold(t); } catch (const SerializationError&) { threw = true; }
        REQUIRE(threw == (t > 12), "threshold " + std::to_string(t));
    }
}
// Drives the writer until it objects; says whether the message came out and is right.
template <class P> void run(Gen& g, const Evs& e) {
    const Meaning m = meaning<P>(e);
    const bool good = m.first_bad == e.size() && m.complete;
    g.label(good ? "well-formed" : m.first_bad < e.size() ? "misuse" : "unfinished");
    typename P::RootSerializer rs{}; typename P::Serializer w{rs}; threshold(rs, g);
    size_t i = 0;
    try {
        for (; i < e.size(); ++i) perform(w, e[i]);
        const Bytes b = to_bytes(rs.finish());
        if (!good) FAILMSG(std::string(m.first_bad < e.size() ? "a misuse (call " + std::to_string(m.first_bad) + ")" : "an unfinished value") + " was accepted: " + show_evs(e));
        auto h = hold<P>(b); if (!m.dup) check_value<P>(*h, m.value);
        try { // finishing again: the same message or an error
            const Bytes again = to_bytes(rs.finish());
            REQUIRE(again == b, "the second finish() gives another message");
        } catch (const std::exception&) {}
    } catch (const std::exception& x) {
        REQUIRE(!good, std::string("a well-formed sequence was refused: ") + x.what() + ": " + show_evs(e));
        REQUIRE(library_error<P>(x), std::string("misuse reported as ") + typeid(x).name() + ": " + x.what());
        REQUIRE(i >= m.first_bad || m.first_bad == e.size(), "call " + std::to_string(i) + " was refused although it can still be completed: " + show_evs(e));
        if (m.first_bad == e.size()) REQUIRE(i == e.size(), "call " + std::to_string(i) + " was refused although it can still be completed: " + show_evs(e));
        bool torn = true; // a caller that goes on regardless gets the value without what was refused, or errors
        try { auto z = rs.finish(); torn = false; auto b = to_bytes(z); auto h = hold<P>(b); (void)read_back<P>(*h); } catch (const std::exception& y) { REQUIRE(torn, std::string("finish() after an error gave an unreadable message: ") + y.what()); }
    }
}
// A caller that ignores every error: no damage, and a message that comes out is readable throughout.
template <class P> void stubborn(Gen& g, const Evs& e) {
    typename P::RootSerializer rs{}; typename P::Serializer w{rs}; threshold(rs, g);
    bool refused = false;
    for (auto& x : e) try { perform(w, x); } catch (const std::exception& y) { refused = true; REQUIRE(library_error<P>(y), std::string("misuse reported as ") + typeid(y).name() + ": " + y.what()); }
    Bytes b;
    try { b = to_bytes(rs.finish()); } catch (const std::exception& y) { REQUIRE(library_error<P>(y), std::string("misuse reported as ") + typeid(y).name()); return; }
    const Meaning m = meaning<P>(e); const bool good = m.first_bad == e.size() && m.complete;
    REQUIRE(good || refused, "a misuse passed unnoticed: " + show_evs(e));
    auto h = hold<P>(b);
    if (good && !m.dup) check_value<P>(*h, m.value); else { (void)read_back<P>(*h); (void)(*h).to_string(); }
}
static Ev random_event(Gen& g, const Dom& d, size_t& fresh) {
    switch (g.pick({4, 5, 3, 3, 3, 3})) {
        case 0: return value(model::gen_scalar(g, d, false));
        case 1: return {Ev::Key, {}, "q" + std::to_string(fresh++), 0};
        case 2: return {Ev::BeginArr, {}, {}, g.below(40)};
        case 3: return {Ev::EndArr, {}, {}, 0};
        case 4: return {Ev::BeginMap, {}, {}, g.below(40)};
        default: return {Ev::EndMap, {}, {}, 0};
    }
}
static Evs mutated(Gen& g, const Dom& d, const Node& n) {
    Evs e; flatten(n, e); size_t fresh = 0;
    for (auto& x : e) if (g.chance(1, 12)) x.reserve = g.one_of<size_t>({0, 1, 7, 1000});
    for (size_t k = g.below(4); k > 0; --k) {
        const size_t at = g.below(e.size() + 1);
        switch (g.below(7)) {
            case 0: if (at < e.size()) e.erase(e.begin() + long(at)); break;
            case 1: e.insert(e.begin() + long(at), random_event(g, d, fresh)); break;
            case 2: if (at < e.size()) { Ev x = e[at]; if (x.k == Ev::Key) x.key += "~" + std::to_string(fresh++); e.insert(e.begin() + long(at), x); } break;
            case 3: if (at + 1 < e.size()) std::swap(e[at], e[at + 1]); break;
            case 4: if (g.coin()) e.resize(at); break;
            case 5: if (at < e.size()) { auto& x = e[at]; switch (x.k) { case Ev::BeginArr: x.k = Ev::BeginMap; break; case Ev::BeginMap: x.k = Ev::BeginArr; break; case Ev::EndArr: x.k = Ev::EndMap; break; case Ev::EndMap: x.k = Ev::EndArr; break; default: x = random_event(g, d, fresh); } } break;
            default: for (size_t i = at; i < e.size(); ++i) if (e[i].k == Ev::Key) { e[i].key = std::string(g.one_of<size_t>({65535, 65536, 65537, 65540, 70000, 131072}), 'K'); break; } break;
        }
    }
    return e;
}
template <class P> void sequences(Gen& g) {
    const Dom d = PT<P>::dom(); Evs e;
    if (g.chance(1, 3)) { size_t fresh = 0; for (size_t n = g.below(g.coin() ? 6 : 25); n > 0; --n) e.push_back(random_event(g, d, fresh)); g.nontrivial(e.size() > 1); }
    else { const Node n = model::gen_tree(g, d, false); e = mutated(g, d, n); g.nontrivial(e.size() > 1); }
    g.describe([&] { return show_evs(e); });
    run<P>(g, e); stubborn<P>(g, e);
}
// Every sequence of up to five calls, once each in a block, over the six kinds of call.
template <class P> void short_ones(Gen& g) {
    const size_t block = g.below(36);
    g.nontrivial(); g.describe([&] { return "all sequences of four calls after block " + std::to_string(block); });
    const Node v = model::gen_scalar(g, PT<P>::dom(), false);
    for (size_t c = 0; c < 1296; ++c) {
        Evs e; size_t x = c * 36 + block;
        for (size_t i = 0; i < 6; ++i, x /= 6) switch (x % 6) {
            case 0: e.push_back(value(v)); break; case 1: e.push_back({Ev::Key, {}, std::string(1, char('a' + i)), 0}); break; case 2: e.push_back({Ev::BeginArr, {}, {}, i}); break;
            case 3: e.push_back({Ev::EndArr, {}, {}, 0}); break; case 4: e.push_back({Ev::BeginMap, {}, {}, i}); break; default: e.push_back({Ev::EndMap, {}, {}, 0}); break; }
        if (g.chance(1, 4)) e.resize(g.below(7));
        run<P>(g, e); stubborn<P>(g, e);
    }
}
// Deep nesting, then too few, too many, or wrong ends.
template <class P> void deep(Gen& g) {
    const size_t n = g.one_of<size_t>({1, 2, 16, 100, 400}) + g.below(4); Evs e; std::vector<bool> kinds; pbt::Rng r{g.u64()};
    for (size_t i = 0; i < n; ++i) { const bool map = r.next() & 1; kinds.push_back(map); e.push_back({map ? Ev::BeginMap : Ev::BeginArr, {}, {}, 1}); if (map) e.push_back({Ev::Key, {}, "k" , 0}); }
    e.push_back(value(Node::sint(1)));
    for (size_t i = n; i-- > 0;) e.push_back({kinds[i] ? Ev::EndMap : Ev::EndArr, {}, {}, 0});
    const size_t at = g.below(e.size());
    switch (g.below(4)) { case 0: break; case 1: e.erase(e.begin() + long(at)); break; case 2: e.insert(e.begin() + long(at), e[g.below(e.size())]); if (e[at].k == Ev::Key) e[at].key = "z"; break; default: e.push_back({g.coin() ? Ev::EndMap : Ev::EndArr, {}, {}, 0}); }
    g.nontrivial(); g.describe([&] { return std::to_string(n) + " deep: " + show_evs(e); });
    run<P>(g, e); stubborn<P>(g, e);
}
#define M(P, nm) PART("sequences/" nm, 60000, 6000000) { sequences<P>(g); } PART("exhaustive-short/" nm, 100, 3000) { short_ones<P>(g); } PART("deep/" nm, 1500, 100000) { deep<P>(g); }
#if TU == 0 || TU == -1
M(zerialize::Zera, "zera")
#endif
#if TU == 1 || TU == -1
#ifdef HAVE_JSON
M(zerialize::JSON, "json")
#endif
#endif
#if TU == 2 || TU == -1
// The Flex writer checks only that ends match; whatever else is misused it hands to FlexBuffers' own assertions.
PART("mismatched-ends/flex", 15000, 1500000) {
    const Dom d = PT<zerialize::Flex>::dom(); const Node n = model::gen_tree(g, d, false); Evs e; flatten(n, e);
    std::vector<size_t> at; for (size_t i = 0; i < e.size(); ++i) if (e[i].k == Ev::EndArr || e[i].k == Ev::EndMap) at.push_back(i);
    size_t bad = e.size();
    if (!at.empty() && g.chance(3, 4)) { bad = g.elem(at); e[bad].k = e[bad].k == Ev::EndArr ? Ev::EndMap : Ev::EndArr; }
    else if (g.coin()) e.push_back({g.coin() ? Ev::EndMap : Ev::EndArr, {}, {}, 0});
    g.nontrivial(e.size() > 1); g.describe([&] { return show_evs(e); });
    const Meaning m = meaning<zerialize::Flex>(e);
    zerialize::Flex::RootSerializer rs; zerialize::Flex::Serializer w(rs);
    size_t i = 0;
    try { for (; i < e.size(); ++i) perform(w, e[i]); }
    catch (const std::logic_error& x) { REQUIRE(i == m.first_bad && i < e.size(), std::string("refused at call ") + std::to_string(i) + ": " + x.what()); return; }
    REQUIRE(m.first_bad == e.size(), "a mismatched end was accepted");
    const Bytes b = to_bytes(rs.finish()); auto h = hold<zerialize::Flex>(b); check_value<zerialize::Flex>(*h, m.value);
}
#endif
