// C05: the Zera reader on arbitrary and corrupted bytes, against a reference decoder.
#include "../engine/refzera.hpp"
using namespace zt;
using refzera::Msg;
using Z = zerialize::Zera;

static void examine(Gen& g, const Bytes& b) {
    g.describe([&] { return std::to_string(b.size()) + " bytes: " + pbt::hex(b, 400); });
    Msg m; const auto want = refzera::open(b, m);
    const size_t route = g.below(4), mis = g.chance(1, 3) ? g.range(1, 15) : 0;
    Held<Z> h;
    try { h = hold<Z>(b, route, mis); }
    catch (const DeserializationError&) { REQUIRE(want.w == ref::Throw, "a message with a valid header was refused"); g.label("refused at opening"); return; }
    catch (const std::exception& e) { FAILMSG(std::string("opening threw ") + typeid(e).name() + ": " + e.what()); }
    ref::Ctx c{g, nullptr, nullptr};
    // owning readers keep their own copy: locate it through any view is not possible, so only borrowed ones are range-checked
    if (h.ext) { c.lo = h.ext->data(); c.hi = c.lo + h.ext->n; } else { c.lo = nullptr; c.hi = reinterpret_cast<const uint8_t*>(~uintptr_t(0)); }
    if (want.w == ref::Throw) { // then every access must fail
        const auto& v = *h;
        MUST_THROW(v.isNull(), "header is invalid"); MUST_THROW(v.isMap(), "header is invalid");
        MUST_THROW(v.asInt64(), "header is invalid"); MUST_THROW(v.asStringView(), "header is invalid");
        MUST_THROW(v.arraySize(), "header is invalid"); MUST_THROW(v[size_t(0)], "header is invalid"); MUST_THROW(v["a"], "header is invalid");
        MUST_THROW(keys_of(v), "header is invalid");
        g.label("refused at access");
        return;
    }
    g.nontrivial();
    g.label("opened");
    ref::compare<Z>(c, *h, want.v, "root");
    ref::print_and_translate<Z>(g, *h, want.v);
    if (h.ext) REQUIRE(std::equal(b.begin(), b.end(), h.ext->data()), "the message was modified");
}
static Bytes valid(Gen& g) {
    Node n = model::gen_tree(g, Dom{}, g.chance(1, 20));
    if (g.coin()) { refzera::Layout l{g}; return l.message(n); }
    return encode<Z>(n);
}
static uint32_t interesting(Gen& g, const Bytes& b) {
    const uint32_t env = b.size() >= 20 ? refzera::u32(b, 12) : 0, ar = b.size() >= 20 ? refzera::u32(b, 16) : 0;
    const uint32_t sz = uint32_t(b.size());
    switch (g.below(6)) {
        case 0: return g.one_of<uint32_t>({0, 1, 2, 3, 4, 7, 8, 12, 13, 15, 16, 17, 20, 32});
        case 1: { const uint32_t base = g.one_of<uint32_t>({env, ar, sz, sz - ar, sz - 20, env - 16, env - 4, env - 20}); return base + uint32_t(g.range(0, 8)) - 4; }
        case 2: return g.one_of<uint32_t>({0xffffffff, 0xfffffffe, 0xfffffffc, 0xfffffff0, 0xffffffec, 0x80000000, 0x7fffffff, 0x10000000, 0x0fffffff, 0x10000001, 0x20000000, 0xf0000000});
        case 3: return uint32_t(g.below(sz + 40));
        case 4: return uint32_t(g.u64());
        default: return 0u - uint32_t(g.below(64));
    }
}
static void put32(Bytes& b, size_t p, uint32_t v) { for (int i = 0; i < 4; ++i) if (p + size_t(i) < b.size()) b[p + size_t(i)] = uint8_t(v >> (8 * i)); }
static void mutate(Gen& g, Bytes& b) {
    if (b.empty()) { b.push_back(uint8_t(g.draw(255))); return; }
    switch (g.pick({4, 4, 5, 3, 3, 2, 2, 2, 2})) {
        case 0: b[g.below(b.size())] ^= uint8_t(1 << g.below(8)); break;
        case 1: b[g.below(b.size())] = g.one_of<uint8_t>({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 16, 0x7f, 0x80, 0xff}); break;
        case 2: put32(b, g.below(b.size()), interesting(g, b)); break;
        case 3: { // a field of some value reference, found from the reachable ones
            Msg m; auto o = refzera::open(b, m); if (o.w != ref::Val) { put32(b, g.range(8, 16), interesting(g, b)); break; }
            refzera::Ref r = o.v;
            for (size_t k = g.below(5); k > 0; --k) {
                if (auto n = r.size(); n.w == ref::Val && n.v) { auto e = r.at(size_t(g.below(n.v))); if (e.w == ref::Val) r = e.v; }
                else if (auto ks = r.keys(); ks.end == ref::Val && !ks.list.empty()) { auto e = r.entry(g.below(ks.list.size())); if (e.w == ref::Val) r = e.v; }
                else break;
            }
            const size_t at = 20 + r.vr;
            switch (g.below(8)) {
                case 0: b[at] = uint8_t(g.below(11)); break;
                case 1: b[at + 1] = g.one_of<uint8_t>({0, 1, 2, 3, 0x80, 0xff}); break;
                case 2: b[at + 2] = uint8_t(g.below(20)); b[at + 3] = g.one_of<uint8_t>({0, 0, 1, 0xff}); break;
                case 3: put32(b, at + 4, interesting(g, b)); break;
                case 4: put32(b, at + 8, interesting(g, b)); break;
                case 5: put32(b, at + 12, interesting(g, b)); break;
                default: { // a field of the payload it points to
                    const size_t p = 20 + (r.tag() == 7 ? r.f(2) : r.f(0));
                    if (r.tag() >= 5 && r.tag() <= 7 && p + 4 <= b.size()) {
                        if (r.tag() == 6 && g.coin() && p + 8 <= b.size()) { b[p + 4] = g.one_of<uint8_t>({0, 1, 2, 12, 16, 0xff, 0xf0}); b[p + 5] = g.one_of<uint8_t>({0, 0, 1, 0xff}); if (g.chance(1, 4)) b[p + 6] = uint8_t(g.below(3)); }
                        else if (r.tag() == 7 && g.coin()) put32(b, p + 4 + 4 * g.below(2), interesting(g, b));
                        else put32(b, p, g.coin() ? interesting(g, b) : refzera::u32(b, p) + uint32_t(g.range(0, 4)) - 2);
                    }
                }
            }
            break;
        }
        case 4: b.resize(g.below(b.size() + 1)); break;
        case 5: { size_t n = g.range(1, 40); for (size_t i = 0; i < n; ++i) b.push_back(uint8_t(g.draw(255))); break; }
        case 6: { // copy 16 bytes elsewhere: shared and cyclic structures
            if (b.size() < 40) break;
            size_t s = g.range(20, b.size() - 16), d = g.range(20, b.size() - 16); std::array<uint8_t, 16> t; std::copy_n(b.begin() + long(s), 16, t.begin()); std::copy_n(t.begin(), 16, b.begin() + long(d)); break;
        }
        case 7: put32(b, g.one_of<size_t>({0, 4, 6, 8, 12, 16}), interesting(g, b)); break;
        default: { // shrink or grow the envelope together with its size field
            if (b.size() < 20) break;
            const uint32_t env = refzera::u32(b, 12); put32(b, 12, env + uint32_t(g.range(0, 40)) - 20); break;
        }
    }
}
PART("mutated", 100000, 20000000) {
    Bytes b = valid(g);
    const size_t n = g.pick({6, 2, 1, 1});
    for (size_t i = 0; i <= n; ++i) mutate(g, b);
    examine(g, b);
}
PART("truncated", 1000, 200000) { // every prefix of a message
    const Bytes b = valid(g);
    g.describe([&] { return pbt::hex(b, 300); });
    const size_t step = 1 + b.size() / 150;
    for (size_t n = g.below(step); n <= b.size(); n += step) { Bytes p(b.begin(), b.begin() + long(n)); std::string keep = std::move(g.desc); bool w = g.want_desc; g.want_desc = false; examine(g, p); g.want_desc = w; g.desc = std::move(keep); }
}
PART("intact", 15000, 1000000) { examine(g, valid(g)); }
PART("arbitrary", 40000, 4000000) {
    Bytes b = g.bytes(g.below(120));
    examine(g, b);
}
// A valid header over random value references and payloads that point at one another.
PART("random-refs", 100000, 10000000) {
    const size_t slots = g.range(1, 8);
    Bytes env; const size_t arena_n = g.below(40);
    for (size_t i = 0; i < slots; ++i) {
        if (g.coin()) {
            auto off = [&] { return uint32_t(g.chance(3, 4) ? g.below(slots * 20 + 4) : g.u64()); };
            auto v = refzera::Layout::vr(uint8_t(g.below(10)), uint8_t(g.pick({8, 3, 1})), uint32_t(g.below(14)), off(), g.chance(1, 2) ? uint32_t(g.below(40)) : off(), off());
            env.insert(env.end(), v.begin(), v.end());
        } else { refzera::Layout::p32(env, uint32_t(g.below(4))); if (g.coin()) { refzera::Layout::p16(env, uint32_t(g.below(5))); refzera::Layout::p16(env, 0); } if (g.coin()) refzera::Layout::p64(env, g.below(40)); }
    }
    const size_t root = env.size();
    auto v = refzera::Layout::vr(uint8_t(g.below(9)), uint8_t(g.chance(1, 4)), uint32_t(g.below(4)), uint32_t(g.below(env.size() + 8)), uint32_t(g.below(40)), uint32_t(g.below(env.size() + 8)));
    env.insert(env.end(), v.begin(), v.end());
    Bytes out; using L = refzera::Layout;
    L::p32(out, 0x564E455Au); L::p16(out, 1); L::p16(out, 1); L::p32(out, uint32_t(g.chance(1, 8) ? g.below(env.size()) : root)); L::p32(out, uint32_t(env.size()));
    const size_t ao = (20 + env.size() + 15) / 16 * 16; L::p32(out, uint32_t(ao));
    out.insert(out.end(), env.begin(), env.end()); out.resize(ao); for (size_t i = 0; i < arena_n; ++i) out.push_back(uint8_t('a' + i % 26));
    examine(g, out);
}
// A container that contains itself nests without end: reading is fine, translating must be refused.
PART("cyclic", 300, 20000) {
    using L = refzera::Layout;
    Bytes env; const bool map = g.coin(); const size_t before = g.below(3), after = g.below(3);
    if (map) {
        L::p32(env, uint32_t(before + 1 + after));
        auto add = [&](const std::string& k, std::array<uint8_t, 16> v) { L::p16(env, uint32_t(k.size())); L::p16(env, 0); env.insert(env.end(), k.begin(), k.end()); env.insert(env.end(), v.begin(), v.end()); };
        for (size_t i = 0; i < before; ++i) add("b" + std::to_string(i), L::vr(0, 0, 0));
        add("self", L::vr(6, 0, 0, 0));
        for (size_t i = 0; i < after; ++i) add("c" + std::to_string(i), L::vr(1, 0, 1));
    } else {
        L::p32(env, uint32_t(before + 1 + after));
        auto add = [&](std::array<uint8_t, 16> v) { env.insert(env.end(), v.begin(), v.end()); };
        for (size_t i = 0; i < before; ++i) add(L::vr(0, 0, 0));
        add(L::vr(5, 0, 0, 0));
        for (size_t i = 0; i < after; ++i) add(L::vr(1, 0, 1));
    }
    const size_t root = env.size(); auto v = L::vr(map ? 6 : 5, 0, 0, 0); env.insert(env.end(), v.begin(), v.end());
    Bytes b; L::p32(b, 0x564E455Au); L::p16(b, 1); L::p16(b, 1); L::p32(b, uint32_t(root)); L::p32(b, uint32_t(env.size())); const size_t ao = (20 + env.size() + 15) / 16 * 16; L::p32(b, uint32_t(ao)); b.insert(b.end(), env.begin(), env.end()); b.resize(ao);
    examine(g, b);
    g.nontrivial();
    auto h = hold<Z>(b);
    MUST_THROW(zerialize::translate<Z>(*h), "a container that contains itself");
    MUST_THROW(zerialize::translate<zerialize::MsgPack>(*h), "a container that contains itself");
    MUST_THROW(zerialize::translate<zerialize::Flex>(*h), "a container that contains itself");
}
