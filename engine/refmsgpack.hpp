// An independent decoder and encoder of MessagePack, written from its specification.
#pragma once
#include "ref.hpp"

namespace refmp {
using namespace ref;
struct Skip { size_t n = 0; enum S { Ok, Ext, Bad, Trunc } s = Ok; }; // Ext: contains extension types; Bad: the reserved marker
struct Head { uint8_t m = 0; size_t hdr = 0; uint64_t val = 0; bool ok = false; };
inline uint64_t be(const uint8_t* p, size_t n) { uint64_t v = 0; for (size_t i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
inline Skip skip(const uint8_t* p, size_t n) {
    Skip r; uint64_t todo = 1; size_t o = 0; bool ext = false;
    while (todo) {
        --todo;
        if (o >= n) return {0, Skip::Trunc};
        const uint8_t m = p[o]; size_t lb = 0, body = 0; uint64_t kids = 0; bool len = false, arr = false, map = false;
        if (m < 0x80 || m >= 0xe0) ;
        else if (m < 0x90) kids = 2 * uint64_t(m & 15);
        else if (m < 0xa0) kids = m & 15;
        else if (m < 0xc0) body = m & 31;
        else switch (m) {
            case 0xc0: case 0xc2: case 0xc3: break;
            case 0xc1: return {0, Skip::Bad};
            case 0xc4: case 0xd9: lb = 1; len = true; break;
            case 0xc5: case 0xda: lb = 2; len = true; break;
            case 0xc6: case 0xdb: lb = 4; len = true; break;
            case 0xc7: lb = 1; body = 1; len = true; ext = true; break;
            case 0xc8: lb = 2; body = 1; len = true; ext = true; break;
            case 0xc9: lb = 4; body = 1; len = true; ext = true; break;
            case 0xca: case 0xce: case 0xd2: body = 4; break;
            case 0xcb: case 0xcf: case 0xd3: body = 8; break;
            case 0xcc: case 0xd0: body = 1; break;
            case 0xcd: case 0xd1: body = 2; break;
            case 0xd4: body = 2; ext = true; break; case 0xd5: body = 3; ext = true; break; case 0xd6: body = 5; ext = true; break;
            case 0xd7: body = 9; ext = true; break; case 0xd8: body = 17; ext = true; break;
            case 0xdc: lb = 2; arr = true; break; case 0xdd: lb = 4; arr = true; break;
            case 0xde: lb = 2; map = true; break; default: lb = 4; map = true; break;
        }
        if (n - o < 1 + lb) return {0, Skip::Trunc};
        const uint64_t v = be(p + o + 1, lb);
        if (len) body += size_t(v);
        if (arr) kids = v;
        if (map) kids = 2 * v;
        if (n - o - 1 - lb < body) return {0, Skip::Trunc};
        o += 1 + lb + body;
        todo += kids;
    }
    return {o, ext ? Skip::Ext : Skip::Ok};
}
struct Ref {
    const uint8_t* p = nullptr; size_t n = 0; // from the value to the end of what may belong to it
    uint8_t m() const { return n ? p[0] : 0xc1; }
    bool is_str() const { return n && ((m() & 0xe0) == 0xa0 || (m() >= 0xd9 && m() <= 0xdb)); }
    bool is_bin() const { return n && m() >= 0xc4 && m() <= 0xc6; }
    bool is_arr() const { return n && ((m() & 0xf0) == 0x90 || m() == 0xdc || m() == 0xdd); }
    bool is_map() const { return n && ((m() & 0xf0) == 0x80 || m() == 0xde || m() == 0xdf); }
    bool is_uint() const { return n && (m() < 0x80 || (m() >= 0xcc && m() <= 0xcf)); }
    bool is_int() const { return n && (m() < 0x80 || m() >= 0xe0 || (m() >= 0xd0 && m() <= 0xd3)); }
    bool clean() const { return n > 0; }
    bool complete() const { return skip(p, n).s == Skip::Ok; }
    // length field of a string, blob or container: (header size, value), or nothing if truncated
    std::optional<std::pair<size_t, uint64_t>> len() const {
        const uint8_t x = m(); size_t lb = 0;
        if ((x & 0xe0) == 0xa0) return {{1, x & 31}};
        if ((x & 0xf0) == 0x90 || (x & 0xf0) == 0x80) return {{1, x & 15}};
        switch (x) { case 0xc4: case 0xd9: lb = 1; break; case 0xc5: case 0xda: case 0xdc: case 0xde: lb = 2; break; default: lb = 4; break; }
        if (n < 1 + lb) return {};
        return {{1 + lb, be(p + 1, lb)}};
    }
    Exp<bool> pred(Node::K k) const {
        if (!n) return Exp<bool>::any();
        bool v = false;
        switch (k) { case Node::Null: v = m() == 0xc0; break; case Node::Bool: v = m() == 0xc2 || m() == 0xc3; break; case Node::Int: v = is_int(); break; case Node::UInt: v = is_uint(); break;
            case Node::Dbl: v = m() == 0xca || m() == 0xcb; break; case Node::Str: v = is_str(); break; case Node::Blob: v = is_bin(); break; case Node::Arr: v = is_arr(); break; case Node::Map: v = is_map(); break; }
        return complete() ? Exp<bool>::val(v) : Exp<bool>::either(v);
    }
    Exp<Int> integer() const {
        if (!is_int() && !is_uint()) return Exp<Int>::thr();
        if (m() < 0x80) return Exp<Int>::val(pos(m()));
        if (m() >= 0xe0) return Exp<Int>::val(sgn(int8_t(m())));
        const size_t w = size_t(1) << ((m() - 0xcc) & 3);
        if (n < 1 + w) return Exp<Int>::thr();
        const uint64_t v = be(p + 1, w);
        if (m() <= 0xcf) return Exp<Int>::val(pos(v));
        const unsigned sh = unsigned(64 - 8 * w);
        return Exp<Int>::val(sgn(int64_t(v << sh) >> sh));
    }
    Exp<bool> boolean() const { if (!n || (m() != 0xc2 && m() != 0xc3)) return Exp<bool>::thr(); return Exp<bool>::val(m() == 0xc3); }
    Exp<double> dbl() const {
        if (n && m() == 0xca && n >= 5) return Exp<double>::val(double(std::bit_cast<float>(uint32_t(be(p + 1, 4)))));
        if (n && m() == 0xcb && n >= 9) return Exp<double>::val(std::bit_cast<double>(be(p + 1, 8)));
        return Exp<double>::thr();
    }
    Exp<std::string> body(bool is) const {
        if (!is) return Exp<std::string>::thr();
        auto l = len(); if (!l || n - l->first < l->second) return Exp<std::string>::thr();
        return Exp<std::string>::val(std::string(p + l->first, p + l->first + l->second));
    }
    Exp<std::string> str() const { return body(is_str()); }
    Exp<std::string> strview() const { return str(); }
    Exp<std::string> blob() const { return body(is_bin()); }
    size_t claimed() const { if (!is_arr()) return 0; auto l = len(); return l ? size_t(l->second) : 0; }
    Exp<size_t> size() const {
        if (!is_arr()) return Exp<size_t>::thr();
        auto l = len(); if (!l || l->second > n - l->first) return Exp<size_t>::thr();
        return complete() ? Exp<size_t>::val(size_t(l->second)) : Exp<size_t>::either(size_t(l->second));
    }
    Exp<Ref> at(size_t i) const {
        if (!is_arr()) return Exp<Ref>::thr();
        auto l = len(); if (!l || i >= l->second) return Exp<Ref>::thr();
        size_t o = l->first; bool soft = !complete();
        for (size_t k = 0; k <= i; ++k) {
            const Skip s = skip(p + o, n - o);
            if (s.s == Skip::Trunc) return Exp<Ref>::thr();
            if (s.s == Skip::Bad) return Exp<Ref>::any();
            if (s.s == Skip::Ext) soft = true;
            if (k == i) { Ref r{p + o, s.n}; return soft ? Exp<Ref>::either(r) : Exp<Ref>::val(r); }
            o += s.n;
        }
        return Exp<Ref>::thr();
    }
    struct Table { struct E { std::string key; const uint8_t* vp = nullptr; size_t vn = 0; }; std::vector<E> e; enum S { Done, Trunc, Odd } s = Trunc; bool header = false, soft = false, lastkey = false; };
    Table table() const { // lastkey: the list's last key has no complete value
        Table t;
        if (!is_map()) return t;
        auto l = len(); if (!l) return t;
        t.header = true;
        size_t o = l->first;
        for (uint64_t i = 0; i < l->second; ++i) {
            const Skip k = skip(p + o, n - o);
            if (k.s == Skip::Trunc) return t;
            if (k.s != Skip::Ok) { t.s = Table::Odd; return t; }
            Ref kr{p + o, k.n};
            if (!kr.is_str()) { t.s = Table::Odd; return t; }
            o += k.n;
            const Skip v = skip(p + o, n - o);
            if (v.s == Skip::Bad) { t.s = Table::Odd; return t; }
            if (v.s == Skip::Trunc) { t.e.push_back({kr.str().v, nullptr, 0}); t.lastkey = true; return t; }
            if (v.s == Skip::Ext) t.soft = true;
            t.e.push_back({kr.str().v, p + o, v.n});
            o += v.n;
        }
        t.s = Table::Done;
        return t;
    }
    Keys keys() const {
        Table t = table(); Keys k;
        if (!t.header) { k.end = Throw; return k; }
        for (auto& e : t.e) k.list.push_back(e.key);
        k.end = t.s == Table::Odd ? Any : t.s == Table::Trunc ? Throw : t.soft ? Either : Val;
        return k;
    }
    std::vector<Ref> elems() const { // of a complete array
        std::vector<Ref> v; auto l = len(); size_t o = l->first;
        for (uint64_t i = 0; i < l->second; ++i) { const Skip s = skip(p + o, n - o); if (s.s != Skip::Ok) break; v.push_back(Ref{p + o, s.n}); o += s.n; }
        return v;
    }
    std::vector<Ref> members() const { std::vector<Ref> v; for (auto& e : table().e) if (e.vp) v.push_back(Ref{e.vp, e.vn}); return v; }
    Exp<Ref> entry(size_t i) const { Table t = table(); if (i >= t.e.size() || (t.lastkey && i + 1 == t.e.size())) return Exp<Ref>::thr(); return Exp<Ref>::val(Ref{t.e[i].vp, t.e[i].vn}); }
    Exp<bool> contains(const std::string& k) const {
        if (!is_map()) return Exp<bool>::either(false);
        Table t = table();
        if (!t.header) return Exp<bool>::thr();
        const bool soft = t.s != Table::Done || t.soft;
        for (auto& e : t.e) if (e.key == k) return soft ? Exp<bool>::either(true) : Exp<bool>::val(true);
        if (t.s == Table::Odd) return Exp<bool>::any();
        if (t.s == Table::Trunc) return Exp<bool>::thr();
        return soft ? Exp<bool>::either(false) : Exp<bool>::val(false);
    }
    Exp<Ref> at(const std::string& k) const {
        Table t = table();
        if (!t.header) return Exp<Ref>::thr();
        const bool soft = t.s != Table::Done || t.soft;
        for (size_t i = 0; i < t.e.size(); ++i) if (t.e[i].key == k) { if (t.lastkey && i + 1 == t.e.size()) return Exp<Ref>::thr(); return soft ? Exp<Ref>::either(Ref{t.e[i].vp, t.e[i].vn}) : Exp<Ref>::val(Ref{t.e[i].vp, t.e[i].vn}); }
        if (t.s == Table::Odd) return Exp<Ref>::any();
        return Exp<Ref>::thr();
    }
};

// ---- an encoder choosing any permitted width ----
struct Enc {
    Gen& g; Bytes b;
    bool minimal = false;
    void num(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) b.push_back(uint8_t(v >> (8 * i))); }
    // one of the alternatives able to hold v: fix (if allowed), then 1, 2, 4 (, 8) bytes
    size_t width(uint64_t v, uint64_t fixmax, bool has1, bool has8) {
        size_t lo = v <= fixmax ? 0 : (has1 && v < 256) ? 1 : v < 65536 ? 2 : v <= 0xffffffffu ? 3 : 4;
        const size_t hi = has8 ? 4 : 3;
        if (minimal || g.chance(1, 2)) return lo;
        size_t w = g.range(lo, hi);
        if (w == 1 && !has1) w = 2;
        return w;
    }
    void head(uint64_t v, uint8_t fix, uint64_t fixmax, int m1, uint8_t m2, uint8_t m4) {
        switch (width(v, fixmax, m1 >= 0, false)) {
            case 0: b.push_back(uint8_t(fix | v)); break;
            case 1: b.push_back(uint8_t(m1)); num(v, 1); break;
            case 2: b.push_back(m2); num(v, 2); break;
            default: b.push_back(m4); num(v, 4); break;
        }
    }
    void str(const std::string& s) { head(s.size(), 0xa0, 31, 0xd9, 0xda, 0xdb); b.insert(b.end(), s.begin(), s.end()); }
    void bin(uint64_t v) { // no fix form
        size_t lo = v < 256 ? 0 : v < 65536 ? 1 : 2; const size_t w = (minimal || g.coin()) ? lo : g.range(lo, 2);
        b.push_back(uint8_t(0xc4 + w)); num(v, 1 << w);
    }
    void posint(uint64_t v) {
        if (!minimal && v <= uint64_t(INT64_MAX) && g.chance(1, 3)) { // in a signed width
            size_t lo = v < 0x80 ? 0 : v < 0x8000 ? 1 : v < 0x80000000u ? 2 : 3;
            const size_t w = g.range(lo, 3);
            b.push_back(uint8_t(0xd0 + w)); num(v, 1 << w); return;
        }
        const size_t w = width(v, 0x7f, true, true);
        if (w == 0) { b.push_back(uint8_t(v)); return; }
        b.push_back(uint8_t(0xcc + w - 1)); num(v, 1 << (w - 1));
    }
    void value(const Node& n) {
        switch (n.k) {
            case Node::Null: b.push_back(0xc0); break;
            case Node::Bool: b.push_back(n.b ? 0xc3 : 0xc2); break;
            case Node::Int: case Node::UInt:
                if (!n.negative()) { posint(n.magnitude()); break; }
                {
                    size_t lo = n.i >= -32 ? 0 : n.i >= -128 ? 1 : n.i >= -32768 ? 2 : n.i >= -2147483648ll ? 3 : 4;
                    size_t w = (minimal || g.coin()) ? lo : g.range(lo, 4);
                    if (w == 0) { b.push_back(uint8_t(n.i)); break; }
                    b.push_back(uint8_t(0xd0 + w - 1)); num(uint64_t(n.i), 1 << (w - 1));
                }
                break;
            case Node::Dbl: {
                const float f = float(n.d);
                if (!std::isnan(n.d) && std::bit_cast<uint64_t>(double(f)) == std::bit_cast<uint64_t>(n.d) && (minimal ? false : g.coin())) { b.push_back(0xca); num(std::bit_cast<uint32_t>(f), 4); break; }
                b.push_back(0xcb); num(std::bit_cast<uint64_t>(n.d), 8);
                break;
            }
            case Node::Str: str(n.s); break;
            case Node::Blob: bin(n.s.size()); b.insert(b.end(), n.s.begin(), n.s.end()); break;
            case Node::Arr: head(n.a.size(), 0x90, 15, -1, 0xdc, 0xdd); for (auto& x : n.a) value(x); break;
            case Node::Map: head(n.m.size(), 0x80, 15, -1, 0xde, 0xdf); for (auto& e : n.m) { str(e.first); value(e.second); } break;
        }
    }
};
} // namespace refmp
