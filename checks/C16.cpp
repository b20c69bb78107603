// C16: buffers own their memory exactly once through every history.
#include "../engine/protocols.hpp"
#include "../engine/watch.hpp"
#include <zerialize/zbuffer.hpp>
using namespace zt;

// Memory handed to buffers, and what became of it.
struct Ledger {
    struct Block { uint8_t* p; size_t n; int freed = 0; int by = -1; int expected_by; std::string content; bool heap; };
    std::vector<Block> blocks;
    ~Ledger() { for (auto& b : blocks) if (b.heap && b.freed == 0) delete[] b.p; }
    void released(void* p, int by) {
        for (auto& b : blocks) if (b.p == p && b.freed == 0) { b.freed = 1; b.by = by; std::memset(b.p, 0xdd, b.n); delete[] b.p; return; }
        for (auto& b : blocks) if (b.p == p) { ++b.freed; return; }
        bad = true;
    }
    bool bad = false;
};
struct Want {           // what a buffer must hold
    bool owned = true;  // vector storage
    std::string content;
    int block = -1;     // ledger entry
    const void* token = nullptr;
};
static std::string ref_hexdump(const std::string& s, size_t row) {
    if (s.empty()) return "(empty)\n";
    std::string o; char b[32];
    for (size_t i = 0; i < s.size(); i += row) {
        std::snprintf(b, sizeof b, "%08zx  ", i); o += b;
        for (size_t j = 0; j < row; ++j) { if (i + j < s.size()) { std::snprintf(b, sizeof b, "%02x ", unsigned(uint8_t(s[i + j]))); o += b; } else o += "   "; if (j == 7) o += ' '; }
        o += " |";
        for (size_t j = 0; j < row && i + j < s.size(); ++j) { const unsigned char c = uint8_t(s[i + j]); o += c >= 0x20 && c < 0x7f ? char(c) : '.'; }
        o += "|\n";
    }
    return o;
}
static std::string gen_content(Gen& g) { const size_t n = g.pick({1, 6, 3, 1}) == 0 ? 0 : model::gen_len(g, g.chance(1, 40)); return g.coin() ? model::gen_chars(g, n, false) : [&] { auto v = g.bytes(n); return std::string(v.begin(), v.end()); }(); }

struct World {
    Gen& g; Ledger led;
    struct Slot { std::unique_ptr<ZBuffer> b; Want w; };
    std::vector<Slot> slots;
    explicit World(Gen& gen) : g(gen) { watch::reset(); }
    void note(const std::string& s) { g.describe([&] { return s; }); }
    int live(int block) const { return block; }
    void check(const Slot& s, const char* when, bool dumps = false) {
        const ZBuffer& z = *s.b; const Want& w = s.w;
        const std::string ctx = std::string(when) + ": should hold " + model::quote(w.content);
        REQUIRE(z.size() == w.content.size(), ctx + " but size() is " + std::to_string(z.size()));
        REQUIRE(z.empty() == w.content.empty(), ctx);
        REQUIRE(z.owned() == w.owned, ctx + " owned()");
        auto sp = z.buf();
        REQUIRE(sp.size() == w.content.size() && sp.data() == z.data(), ctx + " buf()");
        if (!w.content.empty()) REQUIRE(std::memcmp(z.data(), w.content.data(), w.content.size()) == 0, ctx + " contents");
        if (w.block >= 0 && !w.content.empty()) REQUIRE(z.data() == led.blocks[size_t(w.block)].p, ctx + " data() is not the memory it was given");
        const std::string ts = "<ZBuffer " + std::to_string(w.content.size()) + " bytes, owned=" + (w.owned ? "true" : "false") + ">";
        REQUIRE(z.to_string() == ts, ctx + " to_string() is " + z.to_string());
        if (dumps) {
            REQUIRE(z.to_debug_string() == w.content, ctx + " to_debug_string()");
            auto v = z.to_vector_copy(); REQUIRE(std::string(v.begin(), v.end()) == w.content, ctx + " to_vector_copy()");
            if (!v.empty()) { REQUIRE(v.data() != z.data(), ctx + " to_vector_copy() shares memory"); v[0] ^= 1; REQUIRE(z.data()[0] == uint8_t(w.content[0]), ctx); }
            const size_t row = g.coin() ? 16 : g.range(1, 40);
            const std::string d = row == 16 && g.coin() ? z.hexdump() : z.hexdump(row), r = ref_hexdump(w.content, row);
            REQUIRE(d == r, ctx + " hexdump(" + std::to_string(row) + ") is\n" + d + "instead of\n" + r);
            if (w.content.size() < 4096 && g.chance(1, 8)) { // rows of no bytes: refused, or like the default
                watch::Ceiling most(1 << 20); std::string e;
                try { e = z.hexdump(0); } catch (const std::invalid_argument&) { e = ref_hexdump(w.content, 16); }
                REQUIRE(e == ref_hexdump(w.content, 16), ctx + " hexdump(0) is\n" + e);
            }
        }
    }
    // Every block handed over is alive exactly while some buffer must hold it, and was released once, by its own deleter, otherwise.
    void ledger(const char* when) {
        REQUIRE(!led.bad, std::string(when) + ": a deleter got memory it was not given");
        std::vector<int> held(led.blocks.size(), 0);
        for (auto& s : slots) if (s.w.block >= 0) ++held[size_t(s.w.block)];
        size_t tokens = 0;
        for (auto& s : slots) if (s.w.token) { ++tokens; REQUIRE(watch::is_pending(s.w.token), std::string(when) + ": memory a buffer holds was freed"); REQUIRE(s.b->data() == s.w.token, std::string(when) + ": a buffer's bytes moved"); }
        if (!watch::overflow) REQUIRE(watch::pending() == tokens, std::string(when) + ": " + std::to_string(watch::pending() - tokens) + " block(s) leaked");
        for (size_t i = 0; i < led.blocks.size(); ++i) {
            auto& b = led.blocks[i];
            if (b.expected_by < 0) { REQUIRE(b.freed == 0, "memory with a no-op deleter was released"); continue; }
            REQUIRE(b.freed == (held[i] ? 0 : 1), std::string(when) + ": block " + std::to_string(i) + (held[i] ? " is held by a buffer but was released" : " released " + std::to_string(b.freed) + " times"));
            if (b.freed) REQUIRE(b.by == b.expected_by, std::string(when) + ": released by another buffer's deleter");
        }
    }
    void make() {
        Slot s; s.w.content = gen_content(g); const std::string& c = s.w.content;
        const size_t kind = g.below(10);
        note("new #" + std::to_string(slots.size()) + " kind " + std::to_string(kind) + " of " + std::to_string(c.size()) + " bytes");
        auto block = [&](bool heap = true) { uint8_t* p = new uint8_t[c.size()]; if (!c.empty()) std::memcpy(p, c.data(), c.size()); led.blocks.push_back({p, c.size(), 0, -1, int(led.blocks.size()), c, heap}); s.w.owned = false; s.w.block = int(led.blocks.size()) - 1; return p; };
        Ledger* L = &led;
        switch (kind) {
            case 0: s.b = std::make_unique<ZBuffer>(); s.w.content.clear(); break;
            case 1: { std::vector<uint8_t> v(c.begin(), c.end()); if (g.coin()) v.reserve(c.size() + g.below(5000)); const uint8_t* p = v.data(); s.b = std::make_unique<ZBuffer>(std::move(v)); if (!c.empty()) REQUIRE(s.b->data() == p, "a moved-in vector was copied"); break; }
            case 2: { uint8_t* p = block(); const int id = s.w.block; s.b = std::make_unique<ZBuffer>(p, c.size(), [L, id](uint8_t* q) { L->released(q, id); }); break; }
            case 3: { char* p = reinterpret_cast<char*>(block()); const int id = s.w.block; s.b = std::make_unique<ZBuffer>(p, c.size(), [L, id](char* q) { L->released(q, id); }); break; }
            case 4: { void* p = block(); const int id = s.w.block; s.b = std::make_unique<ZBuffer>(p, c.size(), [L, id](void* q) { L->released(q, id); }); break; }
            case 5: { void* p = std::malloc(c.size() + 1); if (!c.empty()) std::memcpy(p, c.data(), c.size()); s.w.owned = false; s.b = std::make_unique<ZBuffer>(p, c.size(), ZBuffer::Deleters::Free); break; } // leaks and double frees are ASan's to see
            case 6: { uint8_t* p = new uint8_t[c.size()]; if (!c.empty()) std::memcpy(p, c.data(), c.size()); s.w.owned = false; s.b = std::make_unique<ZBuffer>(p, c.size(), ZBuffer::Deleters::DeleteArray); break; }
            case 7: { uint8_t* p = block(); led.blocks.back().expected_by = -1; s.b = std::make_unique<ZBuffer>(p, c.size(), ZBuffer::Deleters::NoOp); break; }
            case 8: { // a deleter with state of its own
                uint8_t* p = block(); const int id = s.w.block; auto state = std::make_shared<std::string>(std::string(50, 'd'));
                s.b = std::make_unique<ZBuffer>(p, c.size(), std::function<void(uint8_t*)>([L, id, state](uint8_t* q) { if (state->size() != 50) L->bad = true; state->clear(); L->released(q, id); })); break; }
            default: { // what a serializer returns
                Node n = model::gen_scalar(g, model::Dom{}, false);
                const bool mp = g.coin();
                s.b = std::make_unique<ZBuffer>(mp ? zerialize::serialize<zerialize::MsgPack>(n) : zerialize::serialize<zerialize::Zera>(n));
                s.w.owned = s.b->owned(); s.w.content = mp ? [&] { auto e = encode<zerialize::MsgPack>(n); return std::string(e.begin(), e.end()); }() : [&] { auto e = encode<zerialize::Zera>(n); return std::string(e.begin(), e.end()); }();
                break; }
        }
        if (s.w.block < 0 && s.b->data() && s.b->size()) { watch::add(s.b->data()); s.w.token = s.b->data(); }
        slots.push_back(std::move(s)); check(slots.back(), "new", true);
    }
    // A moved-from buffer holds nothing, or whatever it says it holds.
    void moved_from(ZBuffer& z) { REQUIRE(z.size() == 0 && z.empty(), "a moved-from buffer reports " + std::to_string(z.size()) + " bytes"); (void)z.to_string(); (void)z.hexdump(); REQUIRE(z.to_vector_copy().empty() && z.to_debug_string().empty(), "a moved-from buffer has contents"); }
    void step() {
        if (slots.empty()) { make(); return; }
        const size_t i = g.below(slots.size()), j = g.below(slots.size());
        const std::string si = "#" + std::to_string(i), sj = "#" + std::to_string(j);
        switch (g.pick({4, 4, 4, 3, 2, 2, 2, 2, 1})) {
            case 0: make(); break;
            case 1: { note("move " + si); Slot s{std::make_unique<ZBuffer>(std::move(*slots[i].b)), slots[i].w}; moved_from(*slots[i].b); slots[i].w = Want{slots[i].b->owned(), "", -1}; check(s, "moved"); check(slots[i], "moved from"); slots.push_back(std::move(s)); break; }
            case 2: if (i != j) { note(si + " = move " + sj); *slots[i].b = std::move(*slots[j].b); slots[i].w = slots[j].w; moved_from(*slots[j].b); slots[j].w = Want{slots[j].b->owned(), "", -1}; check(slots[i], "move-assigned"); check(slots[j], "move-assigned from"); } break;
            case 3: note("destroy " + si); slots.erase(slots.begin() + ptrdiff_t(i)); break;
            case 4: if (i != j) { note("swap " + si + " " + sj); std::swap(*slots[i].b, *slots[j].b); std::swap(slots[i].w, slots[j].w); check(slots[i], "swapped"); check(slots[j], "swapped"); } break;
            case 5: { // self-move: the buffer keeps its bytes or becomes empty
                note("self-move " + si); ZBuffer& z = *slots[i].b; ZBuffer& same = z; z = std::move(same);
                if (z.size() == 0 && !slots[i].w.content.empty()) { slots[i].w.content.clear(); slots[i].w.block = -1; slots[i].w.token = nullptr; slots[i].w.owned = z.owned(); }
                check(slots[i], "self-moved"); break; }
            case 6: { note("through a vector: " + si); std::vector<ZBuffer> v; v.push_back(std::move(*slots[i].b)); for (size_t k = g.below(5); k > 0; --k) v.emplace_back(); v.push_back(ZBuffer(std::vector<uint8_t>{1, 2, 3})); const void* was = slots[i].w.token; if (g.coin()) std::reverse(v.begin(), v.end()); for (auto& z : v) if ((!was || z.data() == was) && z.size() == slots[i].w.content.size() && z.owned() == slots[i].w.owned && (slots[i].w.content.empty() || std::memcmp(z.data(), slots[i].w.content.data(), z.size()) == 0)) { *slots[i].b = std::move(z); break; } check(slots[i], "back from a vector"); break; }
            case 7: check(slots[i], "later", true); break;
            default: refused(); break;
        }
        ledger("after a step");
    }
    // Invalid arguments are refused without taking the memory.
    void refused() {
        note("invalid arguments");
        int calls = 0; uint8_t b[4] = {1, 2, 3, 4};
        auto must = [&](auto&& f) { try { f(); } catch (const std::invalid_argument&) { return; } FAILMSG("invalid arguments were accepted"); };
        must([&] { ZBuffer z(static_cast<uint8_t*>(nullptr), 4, [&](uint8_t*) { ++calls; }); });
        must([&] { ZBuffer z(static_cast<char*>(nullptr), 4, [&](char*) { ++calls; }); });
        must([&] { ZBuffer z(static_cast<void*>(nullptr), 4, [&](void*) { ++calls; }); });
        must([&] { ZBuffer z(b, 4, std::function<void(uint8_t*)>()); });
        must([&] { ZBuffer z(reinterpret_cast<char*>(b), 4, std::function<void(char*)>()); });
        must([&] { ZBuffer z(static_cast<void*>(b), 4, std::function<void(void*)>()); });
        REQUIRE(calls == 0, "a deleter ran for memory that was refused");
        { ZBuffer z(static_cast<uint8_t*>(nullptr), 0, [&](uint8_t* p) { if (p) ++calls; }); REQUIRE(z.empty() && z.hexdump() == "(empty)\n", "an empty managed buffer"); }
        REQUIRE(calls == 0, "a deleter got a pointer out of nothing");
    }
};
static void histories(Gen& g, size_t max) {
    World w(g); const size_t ops = g.range(2, max);
    for (size_t k = 0; k < ops; ++k) w.step();
    for (auto& s : w.slots) w.check(s, "at the end", true);
    while (!w.slots.empty()) { w.slots.erase(w.slots.begin() + ptrdiff_t(g.below(w.slots.size()))); w.ledger("while destroying"); }
    g.nontrivial(ops >= 3);
}
PART("short", 400000, 5000000) { histories(g, 6); }
PART("long", 60000, 400000) { histories(g, 50); }
PART("dumps", 100000, 2000000) {
    World w(g); w.make(); w.check(w.slots[0], "alone", true); w.check(w.slots[0], "again", true); g.nontrivial(!w.slots[0].w.content.empty());
    w.slots.clear(); w.ledger("at the end");
}
