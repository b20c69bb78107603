// An independent decoder and encoder of the Zera wire format, written from ZERA.md.
#pragma once
#include "ref.hpp"

namespace refzera {
using namespace ref;
inline uint32_t u16(const Bytes& b, size_t p) { return b[p] | b[p + 1] << 8; }
inline uint32_t u32(const Bytes& b, size_t p) { return uint32_t(b[p]) | uint32_t(b[p + 1]) << 8 | uint32_t(b[p + 2]) << 16 | uint32_t(b[p + 3]) << 24; }
inline uint64_t u64(const Bytes& b, size_t p) { return u32(b, p) | uint64_t(u32(b, p + 4)) << 32; }

struct Msg { const Bytes* b = nullptr; size_t env = 20, env_n = 0, arena = 0, arena_n = 0; };
struct Ref {
    const Msg* m = nullptr; size_t vr = 0; // vr: offset in the envelope, in bounds
    uint8_t tag() const { return (*m->b)[m->env + vr]; }
    uint8_t flags() const { return (*m->b)[m->env + vr + 1]; }
    uint32_t aux() const { return u16(*m->b, m->env + vr + 2); }
    uint32_t f(int i) const { return u32(*m->b, m->env + vr + 4 + 4 * size_t(i)); }
    bool flags_ok() const { return tag() == 4 ? flags() <= 1 : flags() == 0; }
    bool clean() const { // unused fields are zero
        if (!flags_ok()) return false;
        switch (tag()) {
            case 0: return aux() == 0 && !f(0) && !f(1) && !f(2);
            case 1: return !f(0) && !f(1) && !f(2);
            case 2: case 3: case 8: return aux() == 0 && f(2) == 0;
            case 4: if (flags() & 1) { for (size_t i = aux(); i < 12; ++i) if ((*m->b)[m->env + vr + 4 + i]) return false; return true; } return aux() == 0 && f(2) == 0;
            case 5: case 6: return aux() == 0 && !f(1) && !f(2);
            default: return true;
        }
    }
    bool blobby() const { return tag() == 7 && aux() == 2; }
    Exp<bool> pred(Node::K k) const {
        bool v = false;
        switch (k) { case Node::Null: v = tag() == 0; break; case Node::Bool: v = tag() == 1; break; case Node::Int: v = tag() == 2; break; case Node::Dbl: v = tag() == 3; break;
            case Node::Str: v = tag() == 4; break; case Node::Arr: v = tag() == 5; break; case Node::Map: v = tag() == 6; break; case Node::Blob: v = blobby(); break; case Node::UInt: v = tag() == 8; break; }
        if (tag() > 8 || !flags_ok()) return Exp<bool>::either(v);
        return Exp<bool>::val(v);
    }
    template <class T> Exp<T> ok(T v) const { return clean() ? Exp<T>::val(std::move(v)) : Exp<T>::either(std::move(v)); }
    Exp<Int> integer() const {
        if ((tag() != 2 && tag() != 8) || !flags_ok()) return Exp<Int>::thr();
        const uint64_t x = f(0) | uint64_t(f(1)) << 32;
        return ok(tag() == 2 ? sgn(int64_t(x)) : pos(x));
    }
    Exp<bool> boolean() const { if (tag() != 1 || !flags_ok() || aux() > 1) return Exp<bool>::thr(); return ok(aux() == 1); }
    Exp<double> dbl() const { if (tag() != 3 || !flags_ok()) return Exp<double>::thr(); return ok(std::bit_cast<double>(f(0) | uint64_t(f(1)) << 32)); }
    std::string arena(uint32_t o, uint32_t n) const { auto* p = m->b->data() + m->arena + o; return std::string(p, p + n); }
    bool arena_ok(uint32_t o, uint32_t n) const { return uint64_t(o) + n <= m->arena_n; }
    bool env_ok(uint64_t o, uint64_t n) const { return o + n <= m->env_n; }
    Exp<std::string> str() const {
        if (tag() != 4 || !flags_ok()) return Exp<std::string>::thr();
        if (flags() & 1) { if (aux() > 12) return Exp<std::string>::thr(); auto* p = m->b->data() + m->env + vr + 4; return ok(std::string(p, p + aux())); }
        if (!arena_ok(f(0), f(1))) return Exp<std::string>::thr();
        return ok(arena(f(0), f(1)));
    }
    Exp<std::string> strview() const { return str(); }
    Exp<std::string> blob() const {
        if (!blobby() || !flags_ok() || !env_ok(f(2), 4)) return Exp<std::string>::thr();
        if (u32(*m->b, m->env + f(2)) != 1 || !env_ok(f(2), 12)) return Exp<std::string>::thr();
        if (u64(*m->b, m->env + f(2) + 4) != f(1) || !arena_ok(f(0), f(1))) return Exp<std::string>::thr();
        return Exp<std::string>::val(arena(f(0), f(1)));
    }
    size_t claimed() const { return tag() == 5 && env_ok(f(0), 4) ? u32(*m->b, m->env + f(0)) : 0; }
    Exp<size_t> size() const {
        if (tag() != 5 || !flags_ok() || !env_ok(f(0), 4)) return Exp<size_t>::thr();
        const uint64_t n = claimed();
        if (!env_ok(f(0), 4 + 16 * n)) return Exp<size_t>::thr();
        return ok(size_t(n));
    }
    Exp<Ref> at(size_t i) const {
        if (tag() != 5 || !flags_ok() || !env_ok(f(0), 4) || i >= claimed()) return Exp<Ref>::thr();
        const uint64_t o = uint64_t(f(0)) + 4 + 16 * uint64_t(i);
        if (!env_ok(o, 16)) return Exp<Ref>::thr();
        Ref r{m, size_t(o)};
        return size().w == Val ? Exp<Ref>::val(r) : Exp<Ref>::either(r);
    }
    struct Table { struct E { std::string key; bool value_ok; size_t at; }; std::vector<E> e; bool complete = false, reserved = false, header = false; };
    Table table() const {
        Table t;
        if (tag() != 6 || !flags_ok() || !env_ok(f(0), 4)) return t;
        t.header = true;
        const uint64_t n = u32(*m->b, m->env + f(0)); uint64_t p = uint64_t(f(0)) + 4;
        for (uint64_t i = 0; i < n; ++i) {
            if (!env_ok(p, 4)) return t;
            const uint64_t kl = u16(*m->b, m->env + p); if (u16(*m->b, m->env + p + 2)) t.reserved = true;
            if (!env_ok(p + 4, kl)) return t;
            auto* kp = m->b->data() + m->env + p + 4;
            const bool vo = env_ok(p + 4 + kl, 16);
            t.e.push_back({std::string(kp, kp + kl), vo, size_t(p + 4 + kl)});
            if (!vo) return t;
            p += 4 + kl + 16;
        }
        t.complete = true;
        return t;
    }
    Keys keys() const {
        Table t = table(); Keys k;
        if (!t.header) { k.end = Throw; return k; }
        for (auto& e : t.e) k.list.push_back(e.key);
        if (!t.complete) k.end = Throw; else k.end = (t.reserved || !clean()) ? Either : Val;
        return k;
    }
    std::vector<Ref> elems() const { std::vector<Ref> v; const size_t n = claimed(); for (size_t i = 0; i < n; ++i) v.push_back(Ref{m, size_t(f(0)) + 4 + 16 * i}); return v; }
    std::vector<Ref> members() const { std::vector<Ref> v; for (auto& e : table().e) if (e.value_ok) v.push_back(Ref{m, e.at}); return v; }
    Exp<Ref> entry(size_t i) const { Table t = table(); if (i >= t.e.size() || !t.e[i].value_ok) return Exp<Ref>::thr(); return Exp<Ref>::val(Ref{m, t.e[i].at}); }
    Exp<bool> contains(const std::string& k) const {
        if (tag() != 6) return Exp<bool>::either(false);
        Table t = table();
        if (!t.header) return Exp<bool>::thr();
        const bool soft = !t.complete || t.reserved || !clean();
        for (auto& e : t.e) if (e.key == k) return soft ? Exp<bool>::either(true) : Exp<bool>::val(true);
        if (!t.complete) return Exp<bool>::thr();
        return soft ? Exp<bool>::either(false) : Exp<bool>::val(false);
    }
    Exp<Ref> at(const std::string& k) const {
        Table t = table();
        if (!t.header) return Exp<Ref>::thr();
        const bool soft = !t.complete || t.reserved || !clean();
        for (auto& e : t.e) if (e.key == k) { if (!e.value_ok) return Exp<Ref>::thr(); Ref r{m, e.at}; return soft ? Exp<Ref>::either(r) : Exp<Ref>::val(r); }
        return Exp<Ref>::thr();
    }
};
// Opens a message: Throw if its header is invalid (the reader may report that at the first access).
inline Exp<Ref> open(const Bytes& b, Msg& m) {
    using E = Exp<Ref>;
    if (b.size() < 20) return E::thr();
    if (u32(b, 0) != 0x564E455Au || u16(b, 4) != 1 || u16(b, 6) != 1) return E::thr();
    const uint64_t root = u32(b, 8), env = u32(b, 12), ar = u32(b, 16);
    if (ar % 16 || ar < 20 + env || ar > b.size() || root + 16 > env) return E::thr();
    m = {&b, 20, size_t(env), size_t(ar), size_t(b.size() - ar)};
    return E::val(Ref{&m, size_t(root)});
}

// ---- an encoder that makes every layout choice the format leaves open ----
struct Layout {
    Gen& g;
    bool canonical = false;
    Bytes env, arena;
    std::vector<std::pair<std::string, std::pair<uint32_t, uint32_t>>> strings; // for sharing
    static void p16(Bytes& b, uint32_t v) { b.push_back(uint8_t(v)); b.push_back(uint8_t(v >> 8)); }
    static void p32(Bytes& b, uint32_t v) { p16(b, v); p16(b, v >> 16); }
    static void p64(Bytes& b, uint64_t v) { p32(b, uint32_t(v)); p32(b, uint32_t(v >> 32)); }
    void junk(Bytes& b) { if (g.chance(1, 4)) { size_t n = g.range(1, 9); for (size_t i = 0; i < n; ++i) b.push_back(uint8_t(g.draw(255))); } }
    uint32_t put_arena(const std::string& s, bool align) {
        for (size_t i = strings.size() > 24 ? strings.size() - 24 : 0; i < strings.size(); ++i) if (auto& [t, o] = strings[i]; t == s && (!align || o.first % 16 == 0) && g.chance(1, 3)) return o.first; // shared
        junk(arena);
        if (align) while (arena.size() % 16) arena.push_back(0);
        const uint32_t o = uint32_t(arena.size());
        arena.insert(arena.end(), s.begin(), s.end());
        strings.push_back({s, {o, uint32_t(s.size())}});
        return o;
    }
    uint32_t put_env(const Bytes& x) { junk(env); const uint32_t o = uint32_t(env.size()); env.insert(env.end(), x.begin(), x.end()); return o; }
    static std::array<uint8_t, 16> vr(uint8_t tag, uint8_t fl, uint32_t aux, uint32_t a = 0, uint32_t b = 0, uint32_t c = 0) {
        Bytes t{tag, fl}; p16(t, aux); p32(t, a); p32(t, b); p32(t, c);
        std::array<uint8_t, 16> r; std::copy(t.begin(), t.end(), r.begin()); return r;
    }
    std::array<uint8_t, 16> value(const Node& n) {
        switch (n.k) {
            case Node::Null: return vr(0, 0, 0);
            case Node::Bool: return vr(1, 0, n.b);
            case Node::Int: return vr(2, 0, 0, uint32_t(uint64_t(n.i)), uint32_t(uint64_t(n.i) >> 32));
            case Node::UInt: return vr(8, 0, 0, uint32_t(n.u), uint32_t(n.u >> 32));
            case Node::Dbl: { auto x = std::bit_cast<uint64_t>(n.d); return vr(3, 0, 0, uint32_t(x), uint32_t(x >> 32)); }
            case Node::Str:
                if (n.s.size() <= 12 && g.coin()) { auto r = vr(4, 1, uint32_t(n.s.size())); std::copy(n.s.begin(), n.s.end(), r.begin() + 4); return r; }
                { const uint32_t o = put_arena(n.s, false); return vr(4, 0, 0, o, uint32_t(n.s.size())); }
            case Node::Blob: {
                const uint32_t o = put_arena(n.s, true);
                Bytes sh; p32(sh, 1); p64(sh, n.s.size());
                const uint32_t so = put_env(sh);
                return vr(7, 0, 2, o, uint32_t(n.s.size()), so);
            }
            case Node::Arr: {
                std::vector<std::array<uint8_t, 16>> kids(n.a.size());
                const bool rev = g.coin(); // children's payloads may precede or follow in any order
                for (size_t i = 0; i < n.a.size(); ++i) { size_t j = rev ? n.a.size() - 1 - i : i; kids[j] = value(n.a[j]); }
                Bytes p; p32(p, uint32_t(n.a.size())); for (auto& k : kids) p.insert(p.end(), k.begin(), k.end());
                const uint32_t o = put_env(p);
                return vr(5, 0, 0, o);
            }
            default: {
                std::vector<std::array<uint8_t, 16>> kids(n.m.size());
                const bool rev = g.coin();
                for (size_t i = 0; i < n.m.size(); ++i) { size_t j = rev ? n.m.size() - 1 - i : i; kids[j] = value(n.m[j].second); }
                Bytes p; p32(p, uint32_t(n.m.size()));
                for (size_t i = 0; i < n.m.size(); ++i) { p16(p, uint32_t(n.m[i].first.size())); p16(p, 0); p.insert(p.end(), n.m[i].first.begin(), n.m[i].first.end()); p.insert(p.end(), kids[i].begin(), kids[i].end()); }
                const uint32_t o = put_env(p);
                return vr(6, 0, 0, o);
            }
        }
    }
    Bytes message(const Node& n) {
        auto r = value(n);
        const uint32_t root = put_env(Bytes(r.begin(), r.end()));
        junk(env);
        Bytes out; p32(out, 0x564E455Au); p16(out, 1); p16(out, 1); p32(out, root); p32(out, uint32_t(env.size()));
        size_t ao = (20 + env.size() + 15) / 16 * 16; if (g.chance(1, 4)) ao += 16 * g.range(1, 4);
        p32(out, uint32_t(ao));
        out.insert(out.end(), env.begin(), env.end());
        out.resize(ao, 0);
        out.insert(out.end(), arena.begin(), arena.end());
        junk(out);
        return out;
    }
};
} // namespace refzera
