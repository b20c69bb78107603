// C19: base64 is RFC 4648, strict about its alphabet, and carries JSON blobs faithfully.
#include "../engine/protocols.hpp"
#include <zerialize/internals/base64.hpp>
using namespace zt;

// ---- an independent codec: a string of bits, cut in sixes or eights
static const std::string ALPHABET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static std::string ref_encode(const std::string& in) {
    std::string out;
    for (size_t i = 0; i < in.size(); i += 3) {
        const size_t k = std::min<size_t>(3, in.size() - i);
        unsigned b[3] = {0, 0, 0}; for (size_t j = 0; j < k; ++j) b[j] = uint8_t(in[i + j]);
        out += ALPHABET[b[0] / 4]; out += ALPHABET[b[0] % 4 * 16 + b[1] / 16];
        out += k > 1 ? ALPHABET[b[1] % 16 * 4 + b[2] / 64] : '='; out += k > 2 ? ALPHABET[b[2] % 64] : '=';
    }
    return out;
}
struct Decoded { enum { Throw, Exact, Lenient } kind; std::string bytes; };
// Throw: a character outside the alphabet before the padding. Exact: standard text. Lenient: a decoder may refuse it (missing padding, stray bits, text after the padding) or give these bytes.
static Decoded ref_decode(const std::string& t) {
    const size_t stop = std::min(t.find('='), t.size());
    uint32_t acc = 0; int n = 0; std::string out;
    for (size_t i = 0; i < stop; ++i) {
        const size_t v = ALPHABET.find(t[i]);
        if (v == std::string::npos) return {Decoded::Throw, {}};
        acc = (acc * 64 + uint32_t(v)) & 0xffff; n += 6;
        if (n >= 8) { n -= 8; out += char(acc >> n); }
    }
    return {t == ref_encode(out) ? Decoded::Exact : Decoded::Lenient, out};
}
static std::span<const std::byte> exact_span(const std::string& s, std::unique_ptr<std::byte[]>& mem) {
    mem.reset(new std::byte[s.size()]); if (!s.empty()) std::memcpy(mem.get(), s.data(), s.size());
    return {mem.get(), s.size()};
}
static void compare(const std::string& t, const std::function<std::string()>& decode, const char* what) {
    const Decoded d = ref_decode(t);
    std::string got; bool threw = throws_deser([&] { got = decode(); }, what);
    auto ctx = [&] { return std::string(what) + " of " + model::quote(t, 80); };
    if (d.kind == Decoded::Throw) REQUIRE(threw, ctx() + " gave " + pbt::hex(got, 32));
    else if (d.kind == Decoded::Exact) REQUIRE(!threw, ctx() + " was refused");
    if (!threw && d.kind != Decoded::Throw) REQUIRE(got == d.bytes, ctx() + " gave " + pbt::hex(got, 64) + " instead of " + pbt::hex(d.bytes, 64));
}
static std::string decode(const std::string& t) { // from memory of exactly its size
    std::unique_ptr<char[]> m(new char[t.size()]); if (!t.empty()) std::memcpy(m.get(), t.data(), t.size());
    return blob_str(zerialize::base64Decode(std::string_view(m.get(), t.size())));
}
static std::string gen_data(Gen& g) {
    switch (g.pick({6, 3, 1})) {
        case 0: { const size_t n = g.below(13); auto v = g.bytes(n); return std::string(v.begin(), v.end()); }
        case 1: return model::gen_blob(g, true);
        default: { std::string s(g.below(40), char(g.one_of<int>({0, 255, 0x3f, 0xfb, 0x80}))); return s; }
    }
}
static std::string gen_text(Gen& g) {
    std::string t;
    switch (g.pick({5, 2, 1})) {
        case 0: t = ref_encode(gen_data(g)); break;
        case 1: for (size_t n = g.below(14); n > 0; --n) t += ALPHABET[g.below(64)]; break;
        default: { auto v = g.bytes(g.below(12)); t.assign(v.begin(), v.end()); }
    }
    for (size_t k = g.below(4); k > 0; --k) {
        const size_t at = g.below(t.size() + 1);
        static const std::string near = "@[`{/:*,.-_ \n\r\t=\0";
        const char c = g.pick({3, 1, 1}) == 0 ? near[g.below(near.size() + 1) % (near.size())] : g.coin() ? char(g.draw(255)) : '=';
        switch (g.below(5)) {
            case 0: if (at < t.size()) t[at] = c; break;
            case 1: t.insert(t.begin() + long(at), c); break;
            case 2: if (at < t.size()) t.erase(at, 1); break;
            case 3: t.resize(at); break;
            default: t += c; break;
        }
    }
    return t;
}
PART("encode", 60000, 6000000) {
    const std::string d = gen_data(g); g.nontrivial(!d.empty()); g.describe([&] { return pbt::hex(d, 100); });
    std::unique_ptr<std::byte[]> m; const std::string t = zerialize::base64Encode(exact_span(d, m));
    REQUIRE(t == ref_encode(d), "encoding gave " + model::quote(t, 100) + " instead of " + model::quote(ref_encode(d), 100));
    REQUIRE(decode(t) == d, "decoding the encoding gave " + pbt::hex(decode(t), 100));
    if (d.empty()) REQUIRE(zerialize::base64Encode({}).empty(), "nothing encodes to nothing");
}
PART("decode", 150000, 15000000) {
    const std::string t = gen_text(g); const Decoded d = ref_decode(t);
    g.label(d.kind == Decoded::Throw ? "invalid character" : d.kind == Decoded::Exact ? "standard text" : "other");
    g.nontrivial(t.size() > 1); g.describe([&] { return model::quote(t, 200); });
    compare(t, [&] { return decode(t); }, "decoding");
}
// All 65536 pairs of bytes and every byte at every position of a group.
PART("blocks", 300, 20000) {
    const std::string lead = gen_data(g); const unsigned hi = unsigned(g.draw(255)); const size_t tail = g.below(4);
    g.nontrivial(); g.describe([&] { return "256 continuations of " + pbt::hex(lead, 40) + " " + std::to_string(hi); });
    std::string head = ref_encode(std::string(g.below(8) * 3, char(hi)));
    for (unsigned lo = 0; lo < 256; ++lo) {
        std::string d = lead + char(hi) + char(lo) + std::string(tail, char(lo ^ hi));
        std::unique_ptr<std::byte[]> m; const std::string t = zerialize::base64Encode(exact_span(d, m));
        REQUIRE(t == ref_encode(d), "encoding of " + pbt::hex(d, 60) + " gave " + model::quote(t));
        for (size_t at = 0; at < 5; ++at) { std::string x = head + "QUJDRA=="; x.insert(head.size() + at, 1, char(lo)); compare(x, [&] { return decode(x); }, "decoding"); }
        for (size_t at = 0; at < 8; ++at) { std::string x = head + "QUJDRA=="; x[head.size() + at] = char(lo); compare(x, [&] { return decode(x); }, "decoding"); }
    }
}
#ifdef HAVE_JSON
using J = zerialize::JSON;
static std::string json_str(const std::string& s) { std::string o = "\""; for (unsigned char c : s) { char b[8]; if (c < 0x20 || c == '"' || c == '\\') { std::snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += char(c); } return o + "\""; }
PART("json-write", 20000, 2000000) {
    const std::string d = gen_data(g); g.nontrivial(!d.empty()); g.describe([&] { return pbt::hex(d, 100); });
    const Bytes b = encode<J>(Node::blob(d));
    const std::string want = "[\"~b\"," + json_str(ref_encode(d)) + ",\"base64\"]", got(b.begin(), b.end());
    std::string norm; for (char c : got) if (!(c == '\\' )) norm += c; // a writer may escape '/'
    REQUIRE(norm == want, "a blob is written as " + model::quote(got, 200) + " instead of " + model::quote(want, 200));
    auto h = hold<J>(b); REQUIRE((*h).isBlob() && blob_str((*h).asBlob()) == d, "reads back as something else");
    auto z = zerialize::translate<zerialize::Zera>(*h); REQUIRE(z.isBlob() && blob_str(z.asBlob()) == d, "translates to something else");
    auto j = zerialize::translate<J>(z); REQUIRE(j.isBlob() && blob_str(j.asBlob()) == d, "translates back to something else");
}
// JSON documents written by others: blobs with any text, and arrays that only resemble blobs.
PART("json-read", 30000, 3000000) {
    std::string t; do t = gen_text(g); while (false);
    for (auto& c : t) if (uint8_t(c) >= 0x80) c = char(c & 0x7f); // JSON is UTF-8
    std::vector<std::string> el{json_str("~b"), json_str(t), json_str("base64")};
    bool blob = true;
    if (g.chance(1, 3)) {
        blob = false;
        switch (g.below(9)) {
            case 0: el[0] = json_str(g.one_of<const char*>({"~B", "b", "~", "", "~b ", "~bb"})); break;
            case 1: el[2] = json_str(g.one_of<const char*>({"base6", "base65", "Base64", "", "base64 ", "base64url"})); break;
            case 2: el.pop_back(); break;
            case 3: el.push_back(json_str("base64")); break;
            case 4: el[1] = g.one_of<const char*>({"1", "null", "true", "[]", "{}", "2.5"}); break;
            case 5: el[0] = g.one_of<const char*>({"1", "null", "[\"~b\"]"}); break;
            case 6: el[2] = g.one_of<const char*>({"64", "null", "[\"base64\"]"}); break;
            case 7: std::swap(el[0], el[2]); break;
            default: el.clear(); break;
        }
    }
    std::string doc = "["; for (size_t i = 0; i < el.size(); ++i) doc += (i ? "," : "") + el[i]; doc += "]";
    const bool nest = g.coin(); const std::string all = nest ? "{\"k\":[1," + doc + "]}" : doc;
    g.nontrivial(); g.label(blob ? "blob" : "resembles a blob"); g.describe([&] { return all; });
    const Bytes b(all.begin(), all.end()); auto h = hold<J>(b, g.below(4));
    auto check = [&](const auto& v) {
        REQUIRE(v.isBlob() == blob, all); REQUIRE(v.isArray(), all); REQUIRE(v.arraySize() == el.size(), all);
        if (blob) compare(t, [&] { return blob_str(v.asBlob()); }, "asBlob"); else MUST_THROW(v.asBlob(), all);
    };
    if (nest) check((*h)["k"][1]); else check(*h);
}
#endif
