// Stand-in for yyjson, which is not installed in this sandbox: a small JSON document
// library with the part of yyjson's API (names, types, semantics) that json.hpp can use.
// It is written for the checks in /verif, against yyjson's documentation (0.10):
//   - non-negative integers are read as UINT, negative ones as SINT, others as REAL
//   - integer literals that fit neither 64-bit type are read as REAL
//   - real numbers are written shortest-round-trip and always look like a real
//   - NaN/Inf and invalid UTF-8 make writing fail (NULL); invalid documents fail to read
//   - running out of memory makes the call fail (NULL, false), it does not throw
//   - *_str / *_strn store the caller's pointer, *_strcpy / *_strncpy copy
#pragma once
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

#ifndef YYJSON_STUB_MALLOC
#define YYJSON_STUB_MALLOC std::malloc
#endif
#define YYJSON_VERSION_MAJOR 0
#define YYJSON_VERSION_MINOR 10
#define YYJSON_VERSION_PATCH 0
#define YYJSON_VERSION_HEX 0x000A00

typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
#define YYJSON_READ_NOFLAG 0u
#define YYJSON_READ_INSITU 1u
#define YYJSON_READ_STOP_WHEN_DONE 2u
#define YYJSON_WRITE_NOFLAG 0u
#define YYJSON_WRITE_PRETTY 1u

enum : uint8_t { YYJSON_TYPE_NONE = 0, YYJSON_TYPE_NULL = 2, YYJSON_TYPE_BOOL = 3, YYJSON_TYPE_NUM = 4,
                 YYJSON_TYPE_STR = 5, YYJSON_TYPE_ARR = 6, YYJSON_TYPE_OBJ = 7 };
enum : uint8_t { YYJSON_SUBTYPE_UINT = 0, YYJSON_SUBTYPE_SINT = 1, YYJSON_SUBTYPE_REAL = 2 };

namespace yyjson_stub {
struct Val {
    uint8_t type = 0, sub = 0;
    bool b = false;
    union { uint64_t u; int64_t i; double d; } n{0};
    const char* s = nullptr; size_t len = 0;     // string
    std::vector<Val*> kids;                      // arr: elements; obj: key,value,key,value...
};
struct Doc {
    std::deque<Val> vals;
    std::deque<std::unique_ptr<char[]>> strs;
    Val* root = nullptr;
    Val* mk(uint8_t t, uint8_t sub = 0) { try { vals.emplace_back(); } catch (const std::bad_alloc&) { return nullptr; } vals.back().type = t; vals.back().sub = sub; return &vals.back(); }
    Val* mk_or_throw(uint8_t t, uint8_t sub = 0) { Val* v = mk(t, sub); if (!v) throw std::bad_alloc(); return v; }
    const char* dup(const char* p, size_t n) {
        std::unique_ptr<char[]> m(new char[n + 1]);
        if (n) std::memcpy(m.get(), p, n);
        m[n] = 0;
        strs.push_back(std::move(m));
        return strs.back().get();
    }
};
inline bool utf8_ok(const char* s, size_t n) {
    auto p = reinterpret_cast<const unsigned char*>(s);
    for (size_t i = 0; i < n;) {
        unsigned c = p[i];
        size_t k; uint32_t cp, lo;
        if (c < 0x80) { ++i; continue; }
        else if ((c & 0xe0) == 0xc0) { k = 1; cp = c & 0x1f; lo = 0x80; }
        else if ((c & 0xf0) == 0xe0) { k = 2; cp = c & 0x0f; lo = 0x800; }
        else if ((c & 0xf8) == 0xf0) { k = 3; cp = c & 0x07; lo = 0x10000; }
        else return false;
        if (i + k >= n) return false;
        for (size_t j = 1; j <= k; ++j) { if ((p[i + j] & 0xc0) != 0x80) return false; cp = (cp << 6) | (p[i + j] & 0x3f); }
        if (cp < lo || cp > 0x10ffff || (cp >= 0xd800 && cp <= 0xdfff)) return false;
        i += k + 1;
    }
    return true;
}
struct Parser {
    const char* p; const char* e; Doc& d; int depth = 0;
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    bool lit(const char* s) { size_t n = std::strlen(s); if (size_t(e - p) < n || std::memcmp(p, s, n)) return false; p += n; return true; }
    static void put_utf8(std::string& o, uint32_t c) {
        if (c < 0x80) o += char(c);
        else if (c < 0x800) { o += char(0xc0 | (c >> 6)); o += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += char(0xe0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xf0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    }
    bool hex4(uint32_t& v) {
        if (e - p < 4) return false;
        v = 0;
        for (int i = 0; i < 4; ++i) { char c = *p++; v <<= 4;
            if (c >= '0' && c <= '9') v |= c - '0'; else if (c >= 'a' && c <= 'f') v |= c - 'a' + 10;
            else if (c >= 'A' && c <= 'F') v |= c - 'A' + 10; else return false; }
        return true;
    }
    Val* str() {
        if (p >= e || *p != '"') return nullptr;
        ++p;
        std::string o;
        for (;;) {
            if (p >= e) return nullptr;
            unsigned char c = *p++;
            if (c == '"') break;
            if (c < 0x20) return nullptr;
            if (c != '\\') { o += char(c); continue; }
            if (p >= e) return nullptr;
            switch (*p++) {
                case '"': o += '"'; break; case '\\': o += '\\'; break; case '/': o += '/'; break;
                case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break;
                case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': {
                    uint32_t a, b;
                    if (!hex4(a)) return nullptr;
                    if (a >= 0xdc00 && a <= 0xdfff) return nullptr;
                    if (a >= 0xd800 && a <= 0xdbff) {
                        if (!(e - p >= 2 && p[0] == '\\' && p[1] == 'u')) return nullptr;
                        p += 2;
                        if (!hex4(b) || b < 0xdc00 || b > 0xdfff) return nullptr;
                        a = 0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00);
                    }
                    put_utf8(o, a);
                    break;
                }
                default: return nullptr;
            }
        }
        if (!utf8_ok(o.data(), o.size())) return nullptr;
        Val* v = d.mk_or_throw(YYJSON_TYPE_STR);
        v->s = d.dup(o.data(), o.size()); v->len = o.size();
        return v;
    }
    Val* num() {
        const char* s = p; bool real = false;
        if (p < e && *p == '-') ++p;
        if (p >= e || *p < '0' || *p > '9') return nullptr;
        if (*p == '0') ++p; else while (p < e && *p >= '0' && *p <= '9') ++p;
        if (p < e && *p == '.') { real = true; ++p; if (p >= e || *p < '0' || *p > '9') return nullptr; while (p < e && *p >= '0' && *p <= '9') ++p; }
        if (p < e && (*p == 'e' || *p == 'E')) { real = true; ++p; if (p < e && (*p == '+' || *p == '-')) ++p; if (p >= e || *p < '0' || *p > '9') return nullptr; while (p < e && *p >= '0' && *p <= '9') ++p; }
        if (!real) {
            if (*s == '-') { int64_t i; auto r = std::from_chars(s, p, i); if (r.ec == std::errc()) { Val* v = d.mk_or_throw(YYJSON_TYPE_NUM, YYJSON_SUBTYPE_SINT); v->n.i = i; return v; } }
            else { uint64_t u; auto r = std::from_chars(s, p, u); if (r.ec == std::errc()) { Val* v = d.mk_or_throw(YYJSON_TYPE_NUM, YYJSON_SUBTYPE_UINT); v->n.u = u; return v; } }
        }
        std::string t(s, p);
        double x = std::strtod(t.c_str(), nullptr);
        if (std::isinf(x)) return nullptr;
        Val* v = d.mk_or_throw(YYJSON_TYPE_NUM, YYJSON_SUBTYPE_REAL); v->n.d = x; return v;
    }
    Val* val() {
        if (++depth > 20000) return nullptr;
        struct D { int& x; ~D() { --x; } } g{depth};
        ws();
        if (p >= e) return nullptr;
        switch (*p) {
            case 'n': return lit("null") ? d.mk_or_throw(YYJSON_TYPE_NULL) : nullptr;
            case 't': { if (!lit("true")) return nullptr; Val* v = d.mk_or_throw(YYJSON_TYPE_BOOL); v->b = true; return v; }
            case 'f': return lit("false") ? d.mk_or_throw(YYJSON_TYPE_BOOL) : nullptr;
            case '"': return str();
            case '[': {
                ++p; Val* v = d.mk_or_throw(YYJSON_TYPE_ARR); ws();
                if (p < e && *p == ']') { ++p; return v; }
                for (;;) { Val* k = val(); if (!k) return nullptr; v->kids.push_back(k); ws(); if (p >= e) return nullptr;
                    if (*p == ',') { ++p; continue; } if (*p == ']') { ++p; return v; } return nullptr; }
            }
            case '{': {
                ++p; Val* v = d.mk_or_throw(YYJSON_TYPE_OBJ); ws();
                if (p < e && *p == '}') { ++p; return v; }
                for (;;) { ws(); Val* k = str(); if (!k) return nullptr; ws(); if (p >= e || *p != ':') return nullptr; ++p;
                    Val* x = val(); if (!x) return nullptr; v->kids.push_back(k); v->kids.push_back(x); ws(); if (p >= e) return nullptr;
                    if (*p == ',') { ++p; continue; } if (*p == '}') { ++p; return v; } return nullptr; }
            }
            default: return num();
        }
    }
};
inline bool out_str(std::string& o, const char* s, size_t n) {
    if (!utf8_ok(s, n)) return false;
    o += '"';
    for (size_t i = 0; i < n; ++i) {
        unsigned char c = s[i];
        switch (c) {
            case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '\b': o += "\\b"; break;
            case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break;
            default: if (c < 0x20) { static const char* h = "0123456789ABCDEF"; o += "\\u00"; o += h[c >> 4]; o += h[c & 15]; } else o += char(c);
        }
    }
    o += '"';
    return true;
}
inline bool out(std::string& o, const Val* v, bool pretty, int ind) {
    auto nl = [&](int k) { if (pretty) { o += '\n'; o.append(size_t(k) * 4, ' '); } };
    switch (v->type) {
        case YYJSON_TYPE_NULL: o += "null"; return true;
        case YYJSON_TYPE_BOOL: o += v->b ? "true" : "false"; return true;
        case YYJSON_TYPE_STR: return out_str(o, v->s, v->len);
        case YYJSON_TYPE_NUM: {
            char b[64]; std::to_chars_result r{};
            if (v->sub == YYJSON_SUBTYPE_UINT) r = std::to_chars(b, b + 64, v->n.u);
            else if (v->sub == YYJSON_SUBTYPE_SINT) r = std::to_chars(b, b + 64, v->n.i);
            else {
                if (!std::isfinite(v->n.d)) return false;
                r = std::to_chars(b, b + 64, v->n.d);
                if (std::string_view(b, size_t(r.ptr - b)).find_first_of(".e") == std::string_view::npos) { *r.ptr++ = '.'; *r.ptr++ = '0'; }
            }
            o.append(b, r.ptr);
            return true;
        }
        case YYJSON_TYPE_ARR:
            o += '[';
            for (size_t i = 0; i < v->kids.size(); ++i) { if (i) o += ','; nl(ind + 1); if (!out(o, v->kids[i], pretty, ind + 1)) return false; }
            if (!v->kids.empty()) nl(ind);
            o += ']'; return true;
        case YYJSON_TYPE_OBJ:
            o += '{';
            for (size_t i = 0; i < v->kids.size(); i += 2) {
                if (i) o += ','; nl(ind + 1);
                if (!out_str(o, v->kids[i]->s, v->kids[i]->len)) return false;
                o += pretty ? ": " : ":";
                if (!out(o, v->kids[i + 1], pretty, ind + 1)) return false;
            }
            if (!v->kids.empty()) nl(ind);
            o += '}'; return true;
        default: return false;
    }
}
inline char* to_malloc(const std::string& o, size_t* len) {
    char* m = static_cast<char*>(YYJSON_STUB_MALLOC(o.size() + 1));
    if (!m) return nullptr;
    std::memcpy(m, o.c_str(), o.size() + 1);
    if (len) *len = o.size();
    return m;
}
} // namespace yyjson_stub

struct yyjson_val : yyjson_stub::Val {};
struct yyjson_mut_val : yyjson_stub::Val {};
struct yyjson_doc : yyjson_stub::Doc {};
struct yyjson_mut_doc : yyjson_stub::Doc {};
struct yyjson_alc;
namespace yyjson_stub {
inline yyjson_val* iv(Val* v) { return static_cast<yyjson_val*>(v); }
inline yyjson_mut_val* mv(Val* v) { return static_cast<yyjson_mut_val*>(v); }
}

// ---- immutable documents ----
inline yyjson_doc* yyjson_read(const char* dat, size_t len, yyjson_read_flag flg) { try {
    if (!dat || !len) return nullptr;
    auto d = std::make_unique<yyjson_doc>();
    yyjson_stub::Parser ps{dat, dat + len, *d};
    d->root = ps.val();
    if (!d->root) return nullptr;
    ps.ws();
    if (ps.p != ps.e && !(flg & YYJSON_READ_STOP_WHEN_DONE)) return nullptr;
    if (flg & YYJSON_READ_INSITU) const_cast<char*>(dat)[len - 1] = '\0'; // yyjson then works in the caller's memory
    return d.release();
} catch (const std::bad_alloc&) { return nullptr; } }
inline void yyjson_doc_free(yyjson_doc* d) { delete d; }
inline yyjson_val* yyjson_doc_get_root(yyjson_doc* d) { return d ? yyjson_stub::iv(d->root) : nullptr; }
inline bool yyjson_is_null(yyjson_val* v) { return v && v->type == YYJSON_TYPE_NULL; }
inline bool yyjson_is_bool(yyjson_val* v) { return v && v->type == YYJSON_TYPE_BOOL; }
inline bool yyjson_is_true(yyjson_val* v) { return yyjson_is_bool(v) && v->b; }
inline bool yyjson_is_false(yyjson_val* v) { return yyjson_is_bool(v) && !v->b; }
inline bool yyjson_is_num(yyjson_val* v) { return v && v->type == YYJSON_TYPE_NUM; }
inline bool yyjson_is_uint(yyjson_val* v) { return yyjson_is_num(v) && v->sub == YYJSON_SUBTYPE_UINT; }
inline bool yyjson_is_sint(yyjson_val* v) { return yyjson_is_num(v) && v->sub == YYJSON_SUBTYPE_SINT; }
inline bool yyjson_is_int(yyjson_val* v) { return yyjson_is_num(v) && v->sub != YYJSON_SUBTYPE_REAL; }
inline bool yyjson_is_real(yyjson_val* v) { return yyjson_is_num(v) && v->sub == YYJSON_SUBTYPE_REAL; }
inline bool yyjson_is_str(yyjson_val* v) { return v && v->type == YYJSON_TYPE_STR; }
inline bool yyjson_is_arr(yyjson_val* v) { return v && v->type == YYJSON_TYPE_ARR; }
inline bool yyjson_is_obj(yyjson_val* v) { return v && v->type == YYJSON_TYPE_OBJ; }
inline bool yyjson_is_ctn(yyjson_val* v) { return yyjson_is_arr(v) || yyjson_is_obj(v); }
inline bool yyjson_get_bool(yyjson_val* v) { return yyjson_is_bool(v) && v->b; }
inline uint64_t yyjson_get_uint(yyjson_val* v) { return yyjson_is_int(v) ? v->n.u : 0; }
inline int64_t yyjson_get_sint(yyjson_val* v) { return yyjson_is_int(v) ? v->n.i : 0; }
inline int yyjson_get_int(yyjson_val* v) { return yyjson_is_int(v) ? int(v->n.i) : 0; }
inline double yyjson_get_real(yyjson_val* v) { return yyjson_is_real(v) ? v->n.d : 0.0; }
inline double yyjson_get_num(yyjson_val* v) { return yyjson_is_real(v) ? v->n.d : yyjson_is_uint(v) ? double(v->n.u) : yyjson_is_sint(v) ? double(v->n.i) : 0.0; }
inline const char* yyjson_get_str(yyjson_val* v) { return yyjson_is_str(v) ? v->s : nullptr; }
inline size_t yyjson_get_len(yyjson_val* v) { return !v ? 0 : v->type == YYJSON_TYPE_OBJ ? v->kids.size() / 2 : v->type == YYJSON_TYPE_ARR ? v->kids.size() : v->len; }
inline bool yyjson_equals_strn(yyjson_val* v, const char* s, size_t n) { return s && yyjson_is_str(v) && v->len == n && (n == 0 || !std::memcmp(v->s, s, n)); }
inline bool yyjson_equals_str(yyjson_val* v, const char* s) { return s && yyjson_equals_strn(v, s, std::strlen(s)); }
inline size_t yyjson_arr_size(yyjson_val* v) { return yyjson_is_arr(v) ? v->kids.size() : 0; }
inline yyjson_val* yyjson_arr_get(yyjson_val* v, size_t i) { return yyjson_is_arr(v) && i < v->kids.size() ? yyjson_stub::iv(v->kids[i]) : nullptr; }
inline yyjson_val* yyjson_arr_get_first(yyjson_val* v) { return yyjson_arr_get(v, 0); }
inline yyjson_val* yyjson_arr_get_last(yyjson_val* v) { return yyjson_is_arr(v) && !v->kids.empty() ? yyjson_stub::iv(v->kids.back()) : nullptr; }
inline size_t yyjson_obj_size(yyjson_val* v) { return yyjson_is_obj(v) ? v->kids.size() / 2 : 0; }
inline yyjson_val* yyjson_obj_getn(yyjson_val* o, const char* k, size_t n) {
    if (!yyjson_is_obj(o) || !k) return nullptr;
    for (size_t i = 0; i + 1 < o->kids.size(); i += 2)
        if (o->kids[i]->len == n && (n == 0 || !std::memcmp(o->kids[i]->s, k, n))) return yyjson_stub::iv(o->kids[i + 1]);
    return nullptr;
}
inline yyjson_val* yyjson_obj_get(yyjson_val* o, const char* k) { return k ? yyjson_obj_getn(o, k, std::strlen(k)) : nullptr; }
struct yyjson_obj_iter { size_t idx = 0, max = 0; yyjson_val* cur = nullptr; yyjson_val* obj = nullptr; };
inline bool yyjson_obj_iter_init(yyjson_val* o, yyjson_obj_iter* it) {
    if (!it) return false;
    *it = yyjson_obj_iter{};
    if (!yyjson_is_obj(o)) return false;
    it->max = o->kids.size() / 2; it->obj = o;
    return true;
}
inline yyjson_obj_iter yyjson_obj_iter_with(yyjson_val* o) { yyjson_obj_iter it; yyjson_obj_iter_init(o, &it); return it; }
inline bool yyjson_obj_iter_has_next(yyjson_obj_iter* it) { return it && it->idx < it->max; }
inline yyjson_val* yyjson_obj_iter_next(yyjson_obj_iter* it) {
    if (!it || it->idx >= it->max) return nullptr;
    return it->cur = yyjson_stub::iv(it->obj->kids[2 * it->idx++]);
}
inline yyjson_val* yyjson_obj_iter_get_val(yyjson_val* key) {
    (void)key; return nullptr; // not needed: values are looked up by key
}
struct yyjson_arr_iter { size_t idx = 0, max = 0; yyjson_val* arr = nullptr; };
inline bool yyjson_arr_iter_init(yyjson_val* a, yyjson_arr_iter* it) {
    if (!it) return false;
    *it = yyjson_arr_iter{};
    if (!yyjson_is_arr(a)) return false;
    it->max = a->kids.size(); it->arr = a;
    return true;
}
inline yyjson_val* yyjson_arr_iter_next(yyjson_arr_iter* it) { return it && it->idx < it->max ? yyjson_stub::iv(it->arr->kids[it->idx++]) : nullptr; }
inline char* yyjson_val_write(const yyjson_val* v, yyjson_write_flag f, size_t* len) { try {
    std::string o;
    if (!v || !yyjson_stub::out(o, v, f & YYJSON_WRITE_PRETTY, 0)) { if (len) *len = 0; return nullptr; }
    return yyjson_stub::to_malloc(o, len);
} catch (const std::bad_alloc&) { return nullptr; } }
inline char* yyjson_write(const yyjson_doc* d, yyjson_write_flag f, size_t* len) { return d ? yyjson_val_write(yyjson_stub::iv(d->root), f, len) : nullptr; }

// ---- mutable documents ----
inline yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc*) { try { return new yyjson_mut_doc(); } catch (const std::bad_alloc&) { return nullptr; } }
inline void yyjson_mut_doc_free(yyjson_mut_doc* d) { delete d; }
inline void yyjson_mut_doc_set_root(yyjson_mut_doc* d, yyjson_mut_val* v) { if (d) d->root = v; }
inline yyjson_mut_val* yyjson_mut_doc_get_root(yyjson_mut_doc* d) { return d ? yyjson_stub::mv(d->root) : nullptr; }
inline yyjson_mut_val* yyjson_mut_null(yyjson_mut_doc* d) { return d ? yyjson_stub::mv(d->mk(YYJSON_TYPE_NULL)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_bool(yyjson_mut_doc* d, bool b) { if (!d) return nullptr; auto* v = yyjson_stub::mv(d->mk(YYJSON_TYPE_BOOL)); if (!v) return nullptr; v->b = b; return v; }
inline yyjson_mut_val* yyjson_mut_true(yyjson_mut_doc* d) { return yyjson_mut_bool(d, true); }
inline yyjson_mut_val* yyjson_mut_false(yyjson_mut_doc* d) { return yyjson_mut_bool(d, false); }
inline yyjson_mut_val* yyjson_mut_sint(yyjson_mut_doc* d, int64_t i) { if (!d) return nullptr; auto* v = yyjson_stub::mv(d->mk(YYJSON_TYPE_NUM, YYJSON_SUBTYPE_SINT)); if (!v) return nullptr; v->n.i = i; return v; }
inline yyjson_mut_val* yyjson_mut_int(yyjson_mut_doc* d, int64_t i) { return yyjson_mut_sint(d, i); }
inline yyjson_mut_val* yyjson_mut_uint(yyjson_mut_doc* d, uint64_t u) { if (!d) return nullptr; auto* v = yyjson_stub::mv(d->mk(YYJSON_TYPE_NUM, YYJSON_SUBTYPE_UINT)); if (!v) return nullptr; v->n.u = u; return v; }
inline yyjson_mut_val* yyjson_mut_real(yyjson_mut_doc* d, double x) { if (!d) return nullptr; auto* v = yyjson_stub::mv(d->mk(YYJSON_TYPE_NUM, YYJSON_SUBTYPE_REAL)); if (!v) return nullptr; v->n.d = x; return v; }
inline yyjson_mut_val* yyjson_mut_double(yyjson_mut_doc* d, double x) { return yyjson_mut_real(d, x); }
inline yyjson_mut_val* yyjson_mut_strn(yyjson_mut_doc* d, const char* s, size_t n) {
    if (!d || !s) return nullptr;
    auto* v = yyjson_stub::mv(d->mk(YYJSON_TYPE_STR)); if (!v) return nullptr; v->s = s; v->len = n; return v;
}
inline yyjson_mut_val* yyjson_mut_str(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strn(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_strncpy(yyjson_mut_doc* d, const char* s, size_t n) {
    if (!d || !s) return nullptr;
    auto* v = yyjson_stub::mv(d->mk(YYJSON_TYPE_STR)); if (!v) return nullptr; try { v->s = d->dup(s, n); } catch (const std::bad_alloc&) { return nullptr; } v->len = n; return v;
}
inline yyjson_mut_val* yyjson_mut_strcpy(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strncpy(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_arr(yyjson_mut_doc* d) { return d ? yyjson_stub::mv(d->mk(YYJSON_TYPE_ARR)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_obj(yyjson_mut_doc* d) { return d ? yyjson_stub::mv(d->mk(YYJSON_TYPE_OBJ)) : nullptr; }
inline bool yyjson_mut_arr_append(yyjson_mut_val* a, yyjson_mut_val* v) { if (!a || a->type != YYJSON_TYPE_ARR || !v) return false; try { a->kids.push_back(v); } catch (const std::bad_alloc&) { return false; } return true; }
inline bool yyjson_mut_arr_add_val(yyjson_mut_val* a, yyjson_mut_val* v) { return yyjson_mut_arr_append(a, v); }
inline bool yyjson_mut_obj_add(yyjson_mut_val* o, yyjson_mut_val* k, yyjson_mut_val* v) {
    if (!o || o->type != YYJSON_TYPE_OBJ || !k || k->type != YYJSON_TYPE_STR || !v) return false;
    try { o->kids.reserve(o->kids.size() + 2 > o->kids.capacity() ? 2 * o->kids.size() + 2 : 0); } catch (const std::bad_alloc&) { return false; } o->kids.push_back(k); o->kids.push_back(v); return true;
}
inline bool yyjson_mut_obj_add_val(yyjson_mut_doc* d, yyjson_mut_val* o, const char* k, yyjson_mut_val* v) { return yyjson_mut_obj_add(o, yyjson_mut_str(d, k), v); }
inline char* yyjson_mut_write(const yyjson_mut_doc* d, yyjson_write_flag f, size_t* len) { try {
    std::string o;
    if (!d || !d->root || !yyjson_stub::out(o, d->root, f & YYJSON_WRITE_PRETTY, 0)) { if (len) *len = 0; return nullptr; }
    return yyjson_stub::to_malloc(o, len);
} catch (const std::bad_alloc&) { return nullptr; } }
inline char* yyjson_mut_val_write(const yyjson_mut_val* v, yyjson_write_flag f, size_t* len) { try {
    std::string o;
    if (!v || !yyjson_stub::out(o, v, f & YYJSON_WRITE_PRETTY, 0)) { if (len) *len = 0; return nullptr; }
    return yyjson_stub::to_malloc(o, len);
} catch (const std::bad_alloc&) { return nullptr; } }
