// C06: the MsgPack reader on arbitrary, corrupted and truncated bytes, against a reference decoder.
#include "../engine/refmsgpack.hpp"
using namespace zt;
using M = zerialize::MsgPack;

static void examine(Gen& g, const Bytes& b, bool deep = false) {
    g.describe([&] { return std::to_string(b.size()) + " bytes: " + pbt::hex(b, 400); });
    const size_t route = g.below(3), mis = g.chance(1, 3) ? g.range(1, 15) : 0;
    Held<M> h;
    try { h = hold<M>(b, route, mis); }
    catch (const DeserializationError&) { const auto s = refmp::skip(b.data(), b.size()); REQUIRE(s.s != refmp::Skip::Ok || s.n != b.size(), "a valid message was refused"); g.label("refused at opening"); return; }
    ref::Ctx c{g, nullptr, nullptr};
    if (h.ext) { c.lo = h.ext->data(); c.hi = c.lo + h.ext->n; } else { c.lo = nullptr; c.hi = reinterpret_cast<const uint8_t*>(~uintptr_t(0)); }
    refmp::Ref r{b.data(), b.size()};
    ref::compare<M>(c, *h, r, "root");
    if (!deep) ref::print_and_translate<M>(g, *h, r);
    const auto s = refmp::skip(b.data(), b.size());
    g.label(s.s == refmp::Skip::Ok ? "well-formed" : s.s == refmp::Skip::Trunc ? "truncated" : "unsupported or reserved");
    g.nontrivial(b.size() > 1 && (r.is_arr() || r.is_map() || r.is_str() || r.is_bin()));
    if (h.ext) REQUIRE(std::equal(b.begin(), b.end(), h.ext->data()), "the message was modified");
}
static Bytes valid(Gen& g) {
    Node n = model::gen_tree(g, PT<M>::dom(), g.chance(1, 20));
    if (g.coin()) { refmp::Enc e{g, {}}; e.value(n); return e.b; }
    return encode<M>(n);
}
static uint8_t marker(Gen& g) {
    return g.one_of<uint8_t>({0x00, 0x7f, 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x92, 0x9f, 0xa0, 0xa1, 0xa2, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf,
        0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff});
}
static void mutate(Gen& g, Bytes& b) {
    if (b.empty()) { b.push_back(marker(g)); return; }
    switch (g.pick({4, 4, 5, 3, 3, 2, 3})) {
        case 0: b[g.below(b.size())] ^= uint8_t(1 << g.below(8)); break;
        case 1: b[g.below(b.size())] = g.one_of<uint8_t>({0, 1, 2, 3, 4, 15, 16, 31, 0x7f, 0x80, 0xff}); break;
        case 2: b[g.below(b.size())] = marker(g); break;
        case 3: b.resize(g.below(b.size() + 1)); break;
        case 4: { size_t p = g.below(b.size() + 1), n = g.range(1, 4); for (size_t i = 0; i < n; ++i) b.insert(b.begin() + long(p), marker(g)); break; }
        case 5: { size_t p = g.below(b.size()), n = std::min<size_t>(b.size() - p, g.range(1, 4)); b.erase(b.begin() + long(p), b.begin() + long(p + n)); break; }
        default: { // a length field at a boundary
            const size_t p = g.below(b.size()); b[p] = g.one_of<uint8_t>({0xdb, 0xc6, 0xdd, 0xdf, 0xda, 0xc5, 0xdc, 0xde, 0xd9, 0xc4});
            const uint32_t v = g.coin() ? uint32_t(g.one_of<uint32_t>({0xffffffff, 0xfffffffb, 0xfffffffa, 0x7fffffff, 0x80000000, 0x40000000, 0x10000000, 0xffff, 0x100})) : uint32_t(b.size() - p) + uint32_t(g.range(0, 12)) - 8;
            const size_t w = (b[p] == 0xd9 || b[p] == 0xc4) ? 1 : (b[p] == 0xda || b[p] == 0xc5 || b[p] == 0xdc || b[p] == 0xde) ? 2 : 4;
            for (size_t i = 0; i < w && p + 1 + i < b.size(); ++i) b[p + 1 + i] = uint8_t(v >> (8 * (w - 1 - i)));
        }
    }
}
PART("mutated", 60000, 20000000) {
    Bytes b = valid(g);
    const size_t n = g.pick({6, 2, 1, 1});
    for (size_t i = 0; i <= n; ++i) mutate(g, b);
    examine(g, b);
}
PART("truncated", 700, 200000) {
    const Bytes b = valid(g);
    g.describe([&] { return pbt::hex(b, 300); });
    const size_t step = 1 + b.size() / 120;
    for (size_t n = g.below(step); n <= b.size(); n += step) { Bytes p(b.begin(), b.begin() + long(n)); bool w = g.want_desc; g.want_desc = false; examine(g, p); g.want_desc = w; }
}
PART("intact", 15000, 1000000) { examine(g, valid(g)); }
PART("arbitrary", 80000, 10000000) { // random markers and small numbers
    Bytes b; const size_t n = g.below(40);
    for (size_t i = 0; i < n; ++i) b.push_back(g.chance(2, 3) ? marker(g) : uint8_t(g.draw(255)));
    examine(g, b);
}
// One marker with every short or boundary header, and too little or just enough behind it.
PART("headers", 60000, 5000000) {
    Bytes b; const uint8_t m = marker(g); b.push_back(m);
    const size_t extra = g.below(20);
    for (size_t i = 0; i < extra; ++i) b.push_back(g.chance(1, 3) ? uint8_t(g.below(24)) : g.chance(1, 2) ? 0 : 0xff);
    if (g.coin()) { Bytes w{0x91}; w.insert(w.end(), b.begin(), b.end()); b = w; if (g.coin()) b.insert(b.begin(), {0x82, 0xa1, 'a'}); }
    examine(g, b);
}
// Nesting far beyond any stack.
PART("deep", 16, 600) {
    const size_t n = g.one_of<size_t>({500, 1000, 1030, 5000, 20000, 200000});
    const size_t kind = g.below(4); Bytes b;
    for (size_t i = 0; i < n; ++i) switch (kind == 3 ? i % 3 : kind) {
        case 0: b.push_back(0x91); break;
        case 1: b.insert(b.end(), {0x81, 0xa1, 'k'}); break;
        default: b.insert(b.end(), {0xdd, 0, 0, 0, 1}); break;
    }
    const bool cut = g.coin(); if (!cut) b.push_back(0xc0);
    const bool wrapped = g.coin(); // the deep value is one member to be skipped over
    if (wrapped) { Bytes w{0x93, 0x01}; w.insert(w.end(), b.begin(), b.end()); if (!cut) w.push_back(0x2a); b = std::move(w); }
    g.nontrivial();
    g.describe([&] { return std::to_string(n) + " containers, kind " + std::to_string(kind) + (cut ? ", truncated" : "") + (wrapped ? ", wrapped" : ""); });
    auto h = hold<M>(b);
    auto t = [&](auto&& f) { try { f(); return true; } catch (const DeserializationError&) { return false; } };
    if (wrapped) {
        const bool ok = t([&] { REQUIRE((*h)[2].asInt64() == 42); });
        REQUIRE(ok == !cut, "an element behind a deeply nested one");
    }
    t([&] { (void)h->contains("k"); }); t([&] { (void)(*h)["k"]; }); t([&] { (void)(*h)[size_t(0)]; }); t([&] { keys_of(*h); });
    if (n > 20000) return; // printing and translating rescan the rest of the message at every level: slow, but bounded
    t([&] { (void)h->to_string(); });
    const bool ok = t([&] { (void)zerialize::translate<zerialize::Zera>(*h); });
    REQUIRE(!ok || !cut, "a truncated message was translated");
    if (!cut && n <= 1000) REQUIRE(ok, "a message of moderate depth was refused");
}
