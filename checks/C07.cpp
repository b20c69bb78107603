// C07: the CBOR reader on arbitrary, corrupted and truncated bytes, against a reference decoder.
#include "../engine/refcbor.hpp"
using namespace zt;
using C = zerialize::CBOR;

static void examine(Gen& g, const Bytes& b, bool deep = false) {
    g.describe([&] { return std::to_string(b.size()) + " bytes: " + pbt::hex(b, 400); });
    const size_t route = g.below(4), mis = g.chance(1, 3) ? g.range(1, 15) : 0;
    Held<C> h;
    try { h = hold<C>(b, route, mis); }
    catch (const DeserializationError&) { const auto s = refcb::skip(b.data(), b.size()); REQUIRE(s.s != refcb::Skip::Ok || s.n != b.size(), "a valid message was refused"); g.label("refused at opening"); return; }
    ref::Ctx c{g, nullptr, nullptr};
    if (h.ext) { c.lo = h.ext->data(); c.hi = c.lo + h.ext->n; } else { c.lo = nullptr; c.hi = reinterpret_cast<const uint8_t*>(~uintptr_t(0)); }
    refcb::Ref r{b.data(), b.size()};
    ref::compare<C>(c, *h, r, "root");
    if (!deep) ref::print_and_translate<C>(g, *h, r);
    const auto s = refcb::skip(b.data(), b.size());
    g.label(s.s == refcb::Skip::Ok ? "well-formed" : s.s == refcb::Skip::Trunc ? "truncated" : s.s == refcb::Skip::Bad ? "malformed" : "tags or reserved values");
    g.nontrivial(b.size() > 1 && (r.is(2) || r.is(3) || r.is(4) || r.is(5)));
    if (h.ext) REQUIRE(std::equal(b.begin(), b.end(), h.ext->data()), "the message was modified");
}
static Bytes valid(Gen& g) {
    Node n = model::gen_tree(g, PT<C>::dom(), g.chance(1, 20));
    if (g.coin()) { refcb::Enc e{g, {}}; e.chunks = g.coin(); e.value(n); return e.b; }
    return encode<C>(n);
}
static uint8_t marker(Gen& g) {
    if (g.chance(1, 8)) return g.one_of<uint8_t>({0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa, 0xfb, 0xfc, 0xff, 0xe0, 0xf3});
    return uint8_t(g.below(8) << 5 | g.one_of<unsigned>({0, 1, 2, 3, 5, 23, 24, 25, 26, 27, 28, 30, 31}));
}
static void mutate(Gen& g, Bytes& b) {
    if (b.empty()) { b.push_back(marker(g)); return; }
    switch (g.pick({4, 4, 5, 3, 3, 2, 3, 2})) {
        case 0: b[g.below(b.size())] ^= uint8_t(1 << g.below(8)); break;
        case 1: b[g.below(b.size())] = g.one_of<uint8_t>({0, 1, 2, 3, 4, 15, 16, 31, 0x7f, 0x80, 0xff}); break;
        case 2: b[g.below(b.size())] = marker(g); break;
        case 3: b.resize(g.below(b.size() + 1)); break;
        case 4: { size_t p = g.below(b.size() + 1), n = g.range(1, 4); for (size_t i = 0; i < n; ++i) b.insert(b.begin() + long(p), marker(g)); break; }
        case 5: { size_t p = g.below(b.size()), n = std::min<size_t>(b.size() - p, g.range(1, 4)); b.erase(b.begin() + long(p), b.begin() + long(p + n)); break; }
        case 6: { // a length at a boundary
            const size_t p = g.below(b.size()); const unsigned w = unsigned(g.range(24, 27)); b[p] = uint8_t(g.range(2, 5) << 5 | w);
            const uint64_t v = g.coin() ? g.one_of<uint64_t>({~0ull, ~0ull - 8, ~0ull - 9, 1ull << 63, (1ull << 63) - 1, 1ull << 62, 1ull << 32, 0xffffffff, 0xffff, 0x100}) : uint64_t(b.size() - p) + g.range(0, 16) - 12;
            const size_t k = size_t(1) << (w - 24); for (size_t i = 0; i < k && p + 1 + i < b.size(); ++i) b[p + 1 + i] = uint8_t(v >> (8 * (k - 1 - i)));
            break;
        }
        default: b.insert(b.begin() + long(g.below(b.size() + 1)), uint8_t(g.one_of<uint8_t>({0x9f, 0xbf, 0x5f, 0x7f, 0xff, 0xc0, 0xd8}))); break;
    }
}
PART("mutated", 60000, 20000000) {
    Bytes b = valid(g);
    const size_t n = g.pick({6, 2, 1, 1});
    for (size_t i = 0; i <= n; ++i) mutate(g, b);
    examine(g, b);
}
PART("truncated", 350, 200000) {
    const Bytes b = valid(g);
    g.describe([&] { return pbt::hex(b, 300); });
    const size_t step = 1 + b.size() / 120;
    for (size_t n = g.below(step); n <= b.size(); n += step) { Bytes p(b.begin(), b.begin() + long(n)); bool w = g.want_desc; g.want_desc = false; examine(g, p); g.want_desc = w; }
}
PART("intact", 15000, 1000000) { examine(g, valid(g)); }
PART("arbitrary", 80000, 10000000) { // random markers and small numbers
    Bytes b; const size_t n = g.below(40);
    for (size_t i = 0; i < n; ++i) b.push_back(g.chance(2, 3) ? marker(g) : uint8_t(g.draw(255)));
    examine(g, b);
}
// One marker with every short or boundary header, and too little or just enough behind it.
PART("headers", 40000, 5000000) {
    Bytes b; const uint8_t m = marker(g); b.push_back(m);
    const size_t extra = g.below(20);
    for (size_t i = 0; i < extra; ++i) b.push_back(g.chance(1, 3) ? uint8_t(g.below(24)) : g.chance(1, 2) ? 0 : 0xff);
    if (g.coin()) { Bytes w{uint8_t(g.coin() ? 0x81 : 0x9f)}; w.insert(w.end(), b.begin(), b.end()); b = w; if (g.coin()) b.insert(b.begin(), {0xa2, 0x61, 'a'}); }
    examine(g, b);
}
// Nesting far beyond any stack.
PART("deep", 16, 600) {
    const size_t n = g.one_of<size_t>({500, 1000, 1030, 5000, 20000, 200000});
    const size_t kind = g.below(6); Bytes b;
    for (size_t i = 0; i < n; ++i) switch (kind == 3 ? i % 3 : kind) {
        case 4: b.push_back(0x9f); break;
        case 5: b.insert(b.end(), {0xbf, 0x61, 'k'}); break;
        case 0: b.push_back(0x81); break;
        case 1: b.insert(b.end(), {0xa1, 0x61, 'k'}); break;
        default: b.insert(b.end(), {0x9a, 0, 0, 0, 1}); break;
    }
    const bool cut = g.coin(); if (!cut) { b.push_back(0xf6); if (kind >= 4) b.resize(b.size() + n, 0xff); }
    const bool wrapped = g.coin(); // the deep value is one member to be skipped over
    if (wrapped) { Bytes w{0x83, 0x01}; w.insert(w.end(), b.begin(), b.end()); if (!cut) { w.push_back(0x18); w.push_back(0x2a); }; b = std::move(w); }
    g.nontrivial();
    g.describe([&] { return std::to_string(n) + " containers, kind " + std::to_string(kind) + (cut ? ", truncated" : "") + (wrapped ? ", wrapped" : ""); });
    auto h = hold<C>(b);
    auto t = [&](auto&& f) { try { f(); return true; } catch (const DeserializationError&) { return false; } };
    if (wrapped) {
        const bool ok = t([&] { REQUIRE((*h)[2].asInt64() == 42); });
        REQUIRE(ok == !cut, "an element behind a deeply nested one");
    }
    t([&] { (void)h->contains("k"); }); t([&] { (void)(*h)["k"]; }); t([&] { (void)(*h)[size_t(0)]; }); t([&] { keys_of(*h); });
    if (n > 20000) return; // printing and translating rescan the rest of the message at every level: slow, but bounded
    t([&] { (void)h->to_string(); });
    const bool ok = t([&] { (void)zerialize::translate<zerialize::Zera>(*h); });
    REQUIRE(!ok || !cut, "a truncated message was translated");
    if (!cut && n <= 1000) REQUIRE(ok, "a message of moderate depth was refused");
}
