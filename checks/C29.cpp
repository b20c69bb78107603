// C29: writers at work at the same time do not disturb each other.
#include "../engine/protocols.hpp"
#include "../engine/tus.hpp"
#include <zerialize/dynamic.hpp>
#include <zerialize/zbuilders.hpp>
using namespace zt;

static std::string shown(const Node& n, size_t max) { std::string o; model::show(n, o, max); return o; }
template <class... Ps> constexpr size_t kinds_of(PList<Ps...>) { return sizeof...(Ps); }
struct Ev { enum K { Value, Key, BeginArr, EndArr, BeginMap, EndMap } k; const Node* v; std::string_view key; size_t n = 0; };
static void flatten(const Node& n, std::vector<Ev>& o) {
    if (n.k == Node::Arr) { o.push_back({Ev::BeginArr, nullptr, {}, n.a.size()}); for (auto& x : n.a) flatten(x, o); o.push_back({Ev::EndArr, nullptr, {}, 0}); }
    else if (n.k == Node::Map) { o.push_back({Ev::BeginMap, nullptr, {}, n.m.size()}); for (auto& [k, x] : n.m) { o.push_back({Ev::Key, nullptr, k, 0}); flatten(x, o); } o.push_back({Ev::EndMap, nullptr, {}, 0}); }
    else o.push_back({Ev::Value, &n, {}, 0});
}
// A writer of any protocol on its way through a value, later its message.
struct Job {
    const char* name = ""; Node n; std::vector<Ev> ev; size_t at = 0; Bytes want; bool doomed = false;
    std::optional<ZBuffer> out;
    virtual ~Job() = default;
    virtual void step() = 0;
    virtual void finish() = 0;
    virtual void read() = 0; // the finished message
    virtual void drop() = 0; // the writer goes, the message stays
    bool written() const { return at == ev.size(); }
    std::string who() const { return std::string(name) + " " + shown(n, 300); }
    void check() { const auto s = out->buf(); if (!std::equal(s.begin(), s.end(), want.begin(), want.end())) pbt::fail("with other writers at work the message is not the one written alone: " + who() + "\nalone " + pbt::hex(want, 200) + "\nnow   " + pbt::hex(Bytes(s.begin(), s.end()), 200)); }
};
template <class P> struct JobOf : Job {
    struct Pair { typename P::RootSerializer r{}; typename P::Serializer w{r}; };
    std::unique_ptr<Pair> p = std::make_unique<Pair>();
    void step() override {
        const Ev& e = ev[at++]; auto& w = p->w;
        switch (e.k) {
            case Ev::Value: model::emit(*e.v, w); break;
            case Ev::Key: { std::string tmp(e.key); w.key(std::string_view(tmp)); std::fill(tmp.begin(), tmp.end(), '#'); break; }
            case Ev::BeginArr: w.begin_array(e.n); break;
            case Ev::EndArr: w.end_array(); break;
            case Ev::BeginMap: w.begin_map(e.n); break;
            case Ev::EndMap: w.end_map(); break;
        }
    }
    void finish() override { out.emplace(p->r.finish()); }
    void drop() override { p.reset(); }
    void read() override { typename P::Deserializer d(out->buf()); check_value<P>(d, n); }
};
template <class... Ps> std::unique_ptr<Job> job(PList<Ps...> l, size_t which, Gen& g, bool big) {
    std::unique_ptr<Job> j;
    with_p(l, which, [&]<class P>() {
        auto q = std::make_unique<JobOf<P>>();
        q->name = PT<P>::name;
        q->n = big && g.chance(1, 30) ? model::gen_wide(g, PT<P>::dom()) : g.chance(1, 6) ? model::gen_chain(g, PT<P>::dom(), g.range(2, 40)) : model::gen_tree(g, PT<P>::dom(), g.chance(1, 20));
        j = std::move(q);
    });
    return j;
}
// The same value alone, with nobody else at work.
template <class... Ps> Bytes alone(PList<Ps...> l, size_t which, const Node& n) { Bytes b; with_p(l, which, [&]<class P>() { b = encode<P>(n); }); return b; }

template <class... Ps> void history(Gen& g, PList<Ps...> l) {
    constexpr size_t kinds = sizeof...(Ps);
    // What each of the writers is going to write, and what comes of it alone.
    struct Plan { size_t kind; std::unique_ptr<Job> j; };
    std::vector<Plan> plan; const size_t writers = g.range(2, 6);
    for (size_t i = 0; i < writers; ++i) {
        Plan p; p.kind = kinds == 1 ? 0 : g.below(kinds);
        p.j = job(l, p.kind, g, true); // the writer is made here and started later
        plan.push_back(std::move(p));
    }
    g.describe([&] { std::string s; for (auto& p : plan) s += p.j->who() + "\n"; return s; });
    std::vector<std::unique_ptr<Job>> live, done; size_t deepest = 0;
    { // alone: on another set of writers, before any of these has been used
        for (auto& p : plan) { p.j->want = alone(l, p.kind, p.j->n); flatten(p.j->n, p.j->ev); p.j->doomed = g.chance(1, 6); }
    }
    const bool fresh = g.coin(); // writers made when they start, or all made beforehand
    if (fresh) for (auto& p : plan) with_p(l, p.kind, [&]<class P>() { static_cast<JobOf<P>&>(*p.j).p.reset(); });
    size_t next = 0, switches = 0; Job* last = nullptr;
    auto start = [&] {
        auto& p = plan[next++];
        if (fresh) with_p(l, p.kind, [&]<class P>() { auto& j = static_cast<JobOf<P>&>(*p.j); j.p = std::make_unique<typename JobOf<P>::Pair>(); });
        live.push_back(std::move(p.j));
    };
    start(); start();
    while (!live.empty() || next < plan.size()) {
        if (live.empty()) { start(); continue; }
        deepest = std::max(deepest, live.size());
        const size_t i = g.below(live.size()); Job& j = *live[i];
        switch (g.below(12)) {
            case 0: if (next < plan.size()) start(); break;
            case 1: if (!done.empty()) { auto& d = *done[g.below(done.size())]; d.check(); if (g.coin() && d.ev.size() < 300) d.read(); } break;
            case 2: if (j.doomed && j.at > 0 && g.chance(1, 3)) { live.erase(live.begin() + long(i)); last = nullptr; g.label("a writer dropped half way"); } break;
            case 3: if (!done.empty() && g.chance(1, 3)) { const size_t k = g.below(done.size()); done[k]->check(); done.erase(done.begin() + long(k)); } break;
            default: {
                size_t k = j.ev.size() > 2000 ? g.range(1, j.ev.size()) : g.chance(1, 3) ? g.range(1, 12) : 1;
                if (last != &j) { ++switches; last = &j; }
                while (k-- > 0 && !j.written()) j.step();
                if (j.written() && g.chance(2, 3)) {
                    j.finish(); j.check(); if (g.coin()) j.drop();
                    done.push_back(std::move(live[i])); live.erase(live.begin() + long(i)); last = nullptr;
                }
            }
        }
    }
    for (auto& d : done) d->check();
    for (size_t i = done.size(); i-- > 0;) { auto& d = *done[i]; if (d.ev.size() < 2000) d.read(); d.drop(); d.check(); }
    g.nontrivial(switches >= 4);
    g.label(deepest > 2 ? "three or more at once" : "two at once");
}

// A user's value that serializes others while it is serialized itself, in any protocol, and stores their messages.
struct Outer {
    Node own; size_t form = 0, kind = 0; std::vector<Outer> kids;
};
static Outer gen_outer(Gen& g, const Dom& d, size_t depth) {
    Outer o; o.own = model::gen_tree(g, d, false); o.form = g.below(5); o.kind = g.below(kinds_of(AllP{}));
    if (depth > 0) for (size_t i = g.below(4); i > 0; --i) o.kids.push_back(gen_outer(g, d, depth - 1));
    return o;
}
static Node expected(const Outer& o);
static Bytes message(const Outer& o) { Bytes b; with_p(AllP{}, o.kind, [&]<class Q>() { b = encode<Q>(expected(o)); }); return b; }
static Node expected(const Outer& o) {
    Node a = Node::arr({});
    for (auto& k : o.kids) { const Bytes b = message(k); a.a.push_back(Node::blob(std::string(b.begin(), b.end()))); a.a.push_back(Node::uint(b.size())); }
    return Node::map({{"own", o.own}, {"kids", a}, {"end", o.own}});
}
inline size_t nested_at_once = 0, deepest_nested = 0;
template <zerialize::Writer W> void serialize(const Outer& o, W& w) {
    w.begin_map(3);
    w.key("own"); model::emit(o.own, w);
    w.key("kids"); w.begin_array(o.kids.size() * 2);
    for (auto& k : o.kids) with_p(AllP{}, k.kind, [&]<class Q>() {
        ++nested_at_once; deepest_nested = std::max(deepest_nested, nested_at_once);
        ZBuffer b = [&] {
            switch (k.form) {
                case 0: return zerialize::serialize<Q>(k);
                case 1: return zerialize::serialize<Q>(zerialize::dyn::serializable(k));
                case 2: { typename Q::RootSerializer r{}; typename Q::Serializer x{r}; serialize(k, x); return r.finish(); }
                case 3: { auto first = zerialize::serialize<Q>(k); typename Q::Deserializer d(first.buf()); (void)d.to_string(); return zerialize::serialize<Q>(k); }
                default: { // by way of a builder, and read before it is stored
                    auto m = zerialize::serialize<Q>(zerialize::zvec(k)); typename Q::Deserializer d(m.buf()); if (!d.isArray() || d.arraySize() != 1 || !d[0].isMap()) pbt::fail("a message written while another is being written is wrong");
                    return zerialize::serialize<Q>(k);
                }
            }
        }();
        --nested_at_once;
        const auto s = b.buf();
        w.binary(std::as_bytes(s)); w.uint64(s.size());
    });
    w.end_array();
    w.key("end"); model::emit(o.own, w);
    w.end_map();
}
template <class P> void inside(Gen& g) {
    Dom d; with_p(AllP{}, 0, [&]<class Q>() { d = PT<Q>::dom(); });
    for (size_t i = 1; i < kinds_of(AllP{}); ++i) with_p(AllP{}, i, [&]<class Q>() { d = d & PT<Q>::dom(); });
    const Outer o = gen_outer(g, d, 3);
    g.describe([&] { return shown(expected(o), 800); });
    g.nontrivial(!o.kids.empty());
    const Node want = expected(o); const Bytes alone = encode<P>(want);
    nested_at_once = deepest_nested = 0;
    const Bytes got = to_bytes(zerialize::serialize<P>(o));
    g.label("nested " + std::to_string(deepest_nested) + " deep");
    REQUIRE(got == alone, "a message during which others are written is not the one written alone: " + shown(want, 500));
    auto h = hold<P>(got); check_value<P>(*h, want);
}

ON_ZERA(PART("mixed", 12000, 1500000) { history(g, AllP{}); })
#define M(P, nm) PART("one-protocol/" nm, 6000, 600000) { history(g, PList<P>{}); } PART("inside/" nm, 3000, 300000) { inside<P>(g); }
PER_PROTOCOL(M)
