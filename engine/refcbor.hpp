// An independent decoder and encoder of CBOR, written from RFC 8949.
#pragma once
#include "ref.hpp"

namespace refcb {
using namespace ref;
inline uint64_t be(const uint8_t* p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
struct Head { uint8_t major = 0, addl = 0; uint64_t val = 0; size_t len = 0; bool ok = false, indef = false, trunc = false; };
inline Head head(const uint8_t* p, size_t n) {
    Head h; if (!n) { h.trunc = true; return h; }
    h.major = p[0] >> 5; h.addl = p[0] & 31; h.len = 1;
    if (h.addl < 24) { h.val = h.addl; h.ok = true; return h; }
    if (h.addl < 28) {
        const size_t w = size_t(1) << (h.addl - 24);
        if (n < 1 + w) { h.trunc = true; return h; }
        h.val = be(p + 1, w); h.len = 1 + w; h.ok = true; return h;
    }
    if (h.addl == 31 && ((h.major >= 2 && h.major <= 5) || h.major == 7)) { h.ok = true; h.indef = true; }
    return h;
}
// Soft: contains tags or values a strict reader may refuse; Loose: a reader may treat it in any way.
struct Skip { size_t n = 0; enum S { Ok, Soft, Loose, Bad, Trunc } s = Ok; };
inline Skip skip(const uint8_t* p, size_t n) {
    struct L { bool indef, map; uint64_t left; bool odd; };
    std::vector<L> st; st.push_back({false, false, 1, false});
    size_t o = 0; bool soft = false;
    while (!st.empty()) {
        L& t = st.back();
        if (!t.indef) { if (t.left == 0) { st.pop_back(); continue; } --t.left; }
        else {
            if (o >= n) return {0, Skip::Trunc};
            if (p[o] == 0xff) { if (t.map && t.odd) return {0, Skip::Bad}; ++o; st.pop_back(); continue; }
            t.odd = !t.odd;
        }
        const Head h = head(p + o, n - o);
        if (h.trunc) return {0, Skip::Trunc};
        if (!h.ok) return {0, h.major == 7 ? Skip::Loose : Skip::Bad};
        o += h.len;
        switch (h.major) {
            case 0: case 1: break;
            case 2: case 3:
                if (!h.indef) { if (h.val > n - o) return {0, Skip::Trunc}; o += size_t(h.val); break; }
                for (;;) {
                    if (o >= n) return {0, Skip::Trunc};
                    if (p[o] == 0xff) { ++o; break; }
                    const Head c = head(p + o, n - o);
                    if (c.trunc) return {0, Skip::Trunc};
                    if (!c.ok || c.major != h.major || c.indef) return {0, Skip::Bad};
                    o += c.len; if (c.val > n - o) return {0, Skip::Trunc};
                    o += size_t(c.val);
                }
                break;
            case 4: case 5:
                if (h.indef) st.push_back({true, h.major == 5, 0, false});
                else { if (h.val > (n - o)) return {0, Skip::Trunc}; st.push_back({false, h.major == 5, h.major == 5 ? 2 * h.val : h.val, false}); }
                break;
            case 6: soft = true; st.push_back({false, false, 1, false}); break;
            default:
                if (h.indef) return {0, Skip::Bad}; // a break where a value must be
                if (h.addl == 24 && h.val < 32) soft = true;
                break;
        }
    }
    return {o, soft ? Skip::Soft : Skip::Ok};
}
inline double half(uint16_t x) {
    const int e = (x >> 10) & 31; const double f = x & 1023; double v;
    if (e == 0) v = f / 16777216.0; else if (e == 31) v = f != 0 ? std::numeric_limits<double>::quiet_NaN() : std::numeric_limits<double>::infinity(); else v = (1024 + f) * std::pow(2.0, e - 25);
    return x & 0x8000 ? -v : v;
}
struct Ref {
    const uint8_t* p = nullptr; size_t n = 0; // from the value to the end of the message
    Head h() const { return head(p, n); }
    bool tagged() const { return n && (p[0] >> 5) == 6; }
    bool odd() const { return n && p[0] >= 0xfc && p[0] != 0xff; }
    bool clean() const { return true; }
    Skip::S state() const { return skip(p, n).s; }
    bool complete() const { return state() == Skip::Ok; }
    bool is(uint8_t mj) const { return n && (p[0] >> 5) == mj; }
    bool flt() const { return n && p[0] >= 0xf9 && p[0] <= 0xfb; }
    Exp<bool> pred(Node::K k) const {
        if (tagged() || odd() || !n) return Exp<bool>::any();
        bool v = false; const Head x = h();
        switch (k) { case Node::Null: v = p[0] == 0xf6; break; case Node::Bool: v = p[0] == 0xf4 || p[0] == 0xf5; break;
            case Node::Int: v = is(1) || (is(0) && x.val <= uint64_t(INT64_MAX)); break; case Node::UInt: v = is(0); break;
            case Node::Dbl: v = flt(); break; case Node::Str: v = is(3); break; case Node::Blob: v = is(2); break; case Node::Arr: v = is(4); break; case Node::Map: v = is(5); break; }
        if (is(1) && x.val > uint64_t(INT64_MAX) && (k == Node::Int || k == Node::UInt)) return Exp<bool>::any();
        if (is(7) && !flt() && !(p[0] >= 0xf4 && p[0] <= 0xf6)) return Exp<bool>::either(false);
        return complete() ? Exp<bool>::val(v) : (x.ok ? Exp<bool>::either(v) : Exp<bool>::any());
    }
    template <class T> bool refuse(Exp<T>& e) const { if (tagged() || odd()) { e = Exp<T>::any(); return true; } return false; }
    Exp<Int> integer() const {
        Exp<Int> e; if (refuse(e)) return e;
        const Head x = h(); if (!x.ok || x.major > 1) return Exp<Int>::thr();
        if (x.major == 0) return Exp<Int>::val(pos(x.val));
        if (x.val > uint64_t(INT64_MAX)) return Exp<Int>::thr();
        return Exp<Int>::val(sgn(-1 - int64_t(x.val)));
    }
    Exp<bool> boolean() const { Exp<bool> e; if (refuse(e)) return e; if (!n || (p[0] != 0xf4 && p[0] != 0xf5)) return Exp<bool>::thr(); return Exp<bool>::val(p[0] == 0xf5); }
    Exp<double> dbl() const {
        Exp<double> e; if (refuse(e)) return e;
        const Head x = h(); if (!flt() || !x.ok) return Exp<double>::thr();
        if (x.addl == 25) return Exp<double>::val(half(uint16_t(x.val)));
        if (x.addl == 26) return Exp<double>::val(double(std::bit_cast<float>(uint32_t(x.val))));
        return Exp<double>::val(std::bit_cast<double>(x.val));
    }
    Exp<std::string> body(uint8_t mj, bool whole) const {
        Exp<std::string> e; if (refuse(e)) return e;
        const Head x = h(); if (!x.ok || x.major != mj) return Exp<std::string>::thr();
        if (!x.indef) { if (x.val > n - x.len) return Exp<std::string>::thr(); return Exp<std::string>::val(std::string(p + x.len, p + x.len + x.val)); }
        const Skip s = skip(p, n); if (s.s != Skip::Ok) return Exp<std::string>::thr();
        std::string out; size_t o = 1;
        while (p[o] != 0xff) { const Head c = head(p + o, n - o); o += c.len; out.append(p + o, p + o + c.val); o += size_t(c.val); }
        return whole ? Exp<std::string>::val(out) : Exp<std::string>::either(out);
    }
    Exp<std::string> str() const { return body(3, true); }
    Exp<std::string> strview() const { return body(3, false); }
    Exp<std::string> blob() const { return body(2, false); }
    Exp<std::string> blobvec() const { return body(2, true); }
    size_t claimed() const { const Head x = h(); return is(4) && x.ok && !x.indef ? size_t(x.val) : 0; }
    Exp<size_t> size() const {
        Exp<size_t> e; if (refuse(e)) return e;
        const Head x = h(); if (!x.ok || x.major != 4) return Exp<size_t>::thr();
        if (!x.indef) { if (x.val > n - x.len) return Exp<size_t>::thr(); return complete() ? Exp<size_t>::val(size_t(x.val)) : Exp<size_t>::either(size_t(x.val)); }
        size_t o = x.len, c = 0; bool soft = false;
        for (;;) {
            if (o >= n) return Exp<size_t>::thr();
            if (p[o] == 0xff) break;
            const Skip s = skip(p + o, n - o);
            if (s.s == Skip::Loose) return Exp<size_t>::any();
            if (s.s == Skip::Bad || s.s == Skip::Trunc) return Exp<size_t>::thr();
            soft = soft || s.s == Skip::Soft; o += s.n; ++c;
        }
        return soft ? Exp<size_t>::either(c) : Exp<size_t>::val(c);
    }
    Exp<Ref> at(size_t i) const {
        Exp<Ref> e; if (refuse(e)) return e;
        const Head x = h(); if (!x.ok || x.major != 4) return Exp<Ref>::thr();
        if (!x.indef && i >= x.val) return Exp<Ref>::thr();
        size_t o = x.len; bool soft = !complete();
        for (size_t k = 0;; ++k) {
            if (o >= n) return (k == i && !x.indef) ? Exp<Ref>::either(Ref{p + n, 0}) : Exp<Ref>::thr();
            if (x.indef && p[o] == 0xff) return Exp<Ref>::thr();
            const Skip s = skip(p + o, n - o);
            if (k == i) { Ref r{p + o, n - o}; return soft || s.s != Skip::Ok ? Exp<Ref>::either(r) : Exp<Ref>::val(r); }
            if (s.s == Skip::Loose) return Exp<Ref>::any();
            if (s.s == Skip::Bad || s.s == Skip::Trunc) return Exp<Ref>::thr();
            o += s.n;
        }
    }
    struct Table { struct E { std::string key; size_t at; }; std::vector<E> e; enum S { Done, Trunc, Odd } s = Trunc; bool header = false, soft = false; };
    Table table() const { // the last entry's value may be incomplete when s != Done
        Table t; const Head x = h();
        if (!x.ok || x.major != 5) return t;
        t.header = true; size_t o = x.len;
        for (uint64_t i = 0; x.indef || i < x.val; ++i) {
            if (o >= n) return t;
            if (x.indef && p[o] == 0xff) break;
            Ref kr{p + o, n - o};
            if (!kr.is(3)) { t.s = Table::Odd; return t; }
            const Skip k = skip(p + o, n - o);
            if (k.s != Skip::Ok) return t;
            o += k.n;
            t.e.push_back({kr.str().v, o});
            const Skip v = skip(p + o, n - o);
            if (v.s == Skip::Loose) { t.s = Table::Odd; return t; }
            if (v.s == Skip::Bad || v.s == Skip::Trunc) return t;
            t.soft = t.soft || v.s == Skip::Soft;
            o += v.n;
        }
        t.s = Table::Done;
        return t;
    }
    Keys keys() const {
        Keys k; if (tagged() || odd()) { k.end = Any; return k; }
        Table t = table();
        if (!t.header) { k.end = Throw; return k; }
        for (auto& e : t.e) k.list.push_back(e.key);
        k.end = t.s == Table::Odd ? Any : t.s == Table::Trunc ? Throw : t.soft ? Either : Val;
        return k;
    }
    std::vector<Ref> elems() const { // of a complete array
        std::vector<Ref> v; const Head x = h(); size_t o = x.len;
        for (uint64_t i = 0; x.indef ? p[o] != 0xff : i < x.val; ++i) { const Skip s = skip(p + o, n - o); if (s.s != Skip::Ok) break; v.push_back(Ref{p + o, n - o}); o += s.n; }
        return v;
    }
    std::vector<Ref> members() const { std::vector<Ref> v; for (auto& e : table().e) v.push_back(Ref{p + e.at, n - e.at}); return v; }
    Exp<Ref> entry(size_t i) const { Table t = table(); if (i >= t.e.size()) return Exp<Ref>::thr(); return Exp<Ref>::val(Ref{p + t.e[i].at, n - t.e[i].at}); }
    Exp<bool> contains(const std::string& k) const {
        if (tagged() || odd()) return Exp<bool>::any();
        if (!is(5)) return Exp<bool>::either(false);
        Table t = table();
        if (!t.header) return Exp<bool>::thr();
        const bool soft = t.s != Table::Done || t.soft;
        for (auto& e : t.e) if (e.key == k) return soft ? Exp<bool>::either(true) : Exp<bool>::val(true);
        if (t.s == Table::Odd) return Exp<bool>::any();
        if (t.s == Table::Trunc) return Exp<bool>::thr();
        return soft ? Exp<bool>::either(false) : Exp<bool>::val(false);
    }
    Exp<Ref> at(const std::string& k) const {
        Exp<Ref> e; if (refuse(e)) return e;
        Table t = table();
        if (!t.header) return Exp<Ref>::thr();
        const bool soft = t.s != Table::Done || t.soft;
        for (auto& en : t.e) if (en.key == k) { Ref r{p + en.at, n - en.at}; return soft ? Exp<Ref>::either(r) : Exp<Ref>::val(r); }
        if (t.s == Table::Odd) return Exp<Ref>::any();
        return Exp<Ref>::thr();
    }
};

// ---- an encoder choosing any permitted form ----
inline std::optional<uint16_t> to_half(double d) {
    for (int s = 0; s < 1; ++s) {
        if (!std::isfinite(d)) { if (std::isinf(d)) return uint16_t(d < 0 ? 0xfc00 : 0x7c00); return {}; }
        const double a = std::fabs(d); const uint16_t sg = std::signbit(d) ? 0x8000 : 0;
        if (a == 0) return sg;
        if (a > 65504) return {};
        int e; double m = std::frexp(a, &e); // a = m * 2^e, 0.5 <= m < 1
        if (e >= -13) { const double f = std::ldexp(m, 11) - 1024; if (f != std::floor(f)) return {}; return uint16_t(sg | (uint16_t(e + 14) << 10) | uint16_t(f)); }
        const double f = std::ldexp(a, 24); if (f != std::floor(f)) return {}; return uint16_t(sg | uint16_t(f));
    }
    return {};
}
struct Enc {
    Gen& g; Bytes b;
    bool chunks = false; // strings, blobs and keys may be chunked
    size_t variety = 0;
    void num(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back(uint8_t(v >> (8 * i))); }
    void head(uint8_t mj, uint64_t v) {
        const size_t lo = v < 24 ? 0 : v < 256 ? 1 : v < 65536 ? 2 : v <= 0xffffffffu ? 3 : 4;
        const size_t w = g.coin() ? lo : g.range(lo, 4);
        if (w != lo) ++variety;
        if (w == 0) { b.push_back(uint8_t(mj << 5 | v)); return; }
        b.push_back(uint8_t(mj << 5 | (23 + w))); num(v, 1 << (w - 1));
    }
    void text(uint8_t mj, const std::string& s) {
        if (chunks && g.chance(1, 3)) {
            b.push_back(uint8_t(mj << 5 | 31)); size_t o = 0; ++variety;
            while (o < s.size() || g.chance(1, 8)) { const size_t k = g.below(s.size() - o + 1); head(mj, k); b.insert(b.end(), s.begin() + long(o), s.begin() + long(o + k)); o += k; }
            b.push_back(0xff); return;
        }
        head(mj, s.size()); b.insert(b.end(), s.begin(), s.end());
    }
    void value(const Node& n) {
        switch (n.k) {
            case Node::Null: b.push_back(0xf6); break;
            case Node::Bool: b.push_back(n.b ? 0xf5 : 0xf4); break;
            case Node::Int: case Node::UInt: if (n.negative()) head(1, uint64_t(-(n.i + 1))); else head(0, n.magnitude()); break;
            case Node::Dbl: {
                const size_t w = g.below(3); const float f = float(n.d);
                if (w == 2) if (auto x = to_half(n.d)) { b.push_back(0xf9); num(*x, 2); ++variety; break; }
                if (w >= 1 && !std::isnan(n.d) && std::bit_cast<uint64_t>(double(f)) == std::bit_cast<uint64_t>(n.d)) { b.push_back(0xfa); num(std::bit_cast<uint32_t>(f), 4); ++variety; break; }
                b.push_back(0xfb); num(std::bit_cast<uint64_t>(n.d), 8); break;
            }
            case Node::Str: text(3, n.s); break;
            case Node::Blob: text(2, n.s); break;
            case Node::Arr: { const bool in = g.chance(1, 3); if (in) { b.push_back(0x9f); ++variety; } else head(4, n.a.size()); for (auto& x : n.a) value(x); if (in) b.push_back(0xff); break; }
            case Node::Map: { const bool in = g.chance(1, 3); if (in) { b.push_back(0xbf); ++variety; } else head(5, n.m.size()); for (auto& e : n.m) { text(3, e.first); value(e.second); } if (in) b.push_back(0xff); break; }
        }
    }
};
} // namespace refcb
