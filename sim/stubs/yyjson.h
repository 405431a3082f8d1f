// Stand-in for yyjson (absent here): the part of its interface that /repo's json.hpp uses, with
// yyjson's documented behaviour: values live in a document's pools; the *n functions without "cpy"
// keep the caller's pointer; null arguments give null results; reading is strict RFC 8259; writing
// fails (null) on non-finite numbers, invalid UTF-8 and exhausted memory. All memory comes from malloc.
#pragma once
#include <charconv>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <new>

namespace yysim {
enum Type : std::uint8_t { None, Null, False, True, UInt, SInt, Real, Str, Arr, Obj };
struct Val {
    Type t = None;
    union { std::uint64_t u; std::int64_t i; double d; const char* s; };
    std::size_t len = 0;            // string length, or number of children (keys and values both count)
    Val* next = nullptr; Val* first = nullptr; Val* last = nullptr; Val* parent = nullptr;
    Val() : u(0) {}
};
struct Chunk { Chunk* next; std::size_t used, cap; };
struct Pool {
    Chunk* head = nullptr;
    void* get(std::size_t n, std::size_t least) {
        n = (n + 7) & ~std::size_t(7);
        if (!head || head->cap - head->used < n) {
            const std::size_t cap = n > least ? n : least;
            auto* c = static_cast<Chunk*>(std::malloc(sizeof(Chunk) + cap));
            if (!c) return nullptr;
            c->next = head; c->used = 0; c->cap = cap; head = c;
        }
        void* p = reinterpret_cast<char*>(head + 1) + head->used;
        head->used += n;
        return p;
    }
    void drop() { while (head) { Chunk* n = head->next; std::free(head); head = n; } }
};
struct Doc {
    Pool vals, strs; Val* root = nullptr;
    Val* make(Type t) { void* p = vals.get(sizeof(Val), 16 * sizeof(Val)); if (!p) return nullptr; auto* v = new (p) Val(); v->t = t; return v; }
    char* text(const char* s, std::size_t n) { auto* p = static_cast<char*>(strs.get(n + 1, 0x100)); if (!p) return nullptr; if (n) std::memcpy(p, s, n); p[n] = 0; return p; }
};
inline Doc* make_doc() { void* p = std::malloc(sizeof(Doc)); return p ? new (p) Doc() : nullptr; }
inline void free_doc(Doc* d) { if (d) { d->vals.drop(); d->strs.drop(); std::free(d); } }
inline void add(Val* c, Val* v) { v->next = nullptr; v->parent = c; if (c->last) c->last->next = v; else c->first = v; c->last = v; ++c->len; }

// length of the valid UTF-8 sequence at p, 0 if none
inline std::size_t utf8(const char* s, const char* e) {
    auto* p = reinterpret_cast<const unsigned char*>(s);
    const std::size_t n = static_cast<std::size_t>(e - s);
    auto cont = [&](std::size_t k) { return k < n && (p[k] & 0xc0) == 0x80; };
    if (!n) return 0;
    if (p[0] < 0x80) return 1;
    if (p[0] >= 0xc2 && p[0] <= 0xdf) return cont(1) ? 2 : 0;
    if (p[0] >= 0xe0 && p[0] <= 0xef) return cont(1) && cont(2) && !(p[0] == 0xe0 && p[1] < 0xa0) && !(p[0] == 0xed && p[1] > 0x9f) ? 3 : 0;
    if (p[0] >= 0xf0 && p[0] <= 0xf4) return cont(1) && cont(2) && cont(3) && !(p[0] == 0xf0 && p[1] < 0x90) && !(p[0] == 0xf4 && p[1] > 0x8f) ? 4 : 0;
    return 0;
}

struct Out {
    char* p = nullptr; std::size_t n = 0, cap = 0; bool ok = true;
    void put(const char* s, std::size_t k) {
        if (!ok) return;
        if (n + k + 1 > cap) {
            const std::size_t c = (n + k + 1) * 3 / 2 + 64;
            auto* q = static_cast<char*>(std::realloc(p, c));
            if (!q) { ok = false; return; }
            p = q; cap = c;
        }
        std::memcpy(p + n, s, k); n += k; p[n] = 0;
    }
    void str(const char* s, std::size_t k) {
        put("\"", 1);
        for (const char *c = s, *e = s + k; c < e && ok;) {
            const std::size_t w = utf8(c, e);
            if (!w) { ok = false; return; }
            const unsigned char b = static_cast<unsigned char>(*c);
            if (b == '"') put("\\\"", 2); else if (b == '\\') put("\\\\", 2);
            else if (b == '\n') put("\\n", 2); else if (b == '\r') put("\\r", 2); else if (b == '\t') put("\\t", 2);
            else if (b == '\b') put("\\b", 2); else if (b == '\f') put("\\f", 2);
            else if (b < 0x20) { const char* h = "0123456789ABCDEF"; char x[6] = {'\\', 'u', '0', '0', h[b >> 4], h[b & 15]}; put(x, 6); }
            else put(c, w);
            c += w;
        }
        put("\"", 1);
    }
    void line(bool pretty, int depth) { if (pretty) { put("\n", 1); for (int i = 0; i < depth; ++i) put("    ", 4); } }
    void val(const Val* v, bool pretty, int depth = 0) {
        char b[40];
        if (!ok) return;
        switch (v->t) {
            case Null: put("null", 4); break;
            case True: put("true", 4); break;
            case False: put("false", 5); break;
            case UInt: put(b, static_cast<std::size_t>(std::to_chars(b, b + sizeof b, v->u).ptr - b)); break;
            case SInt: put(b, static_cast<std::size_t>(std::to_chars(b, b + sizeof b, v->i).ptr - b)); break;
            case Real: {
                if (!std::isfinite(v->d)) { ok = false; break; }
                auto r = std::to_chars(b, b + sizeof b, v->d);
                put(b, static_cast<std::size_t>(r.ptr - b));
                bool plain = true;
                for (char* c = b; c < r.ptr; ++c) if (*c == '.' || *c == 'e') plain = false;
                if (plain) put(".0", 2);
                break;
            }
            case Str: str(v->s, v->len); break;
            case Arr: case Obj: {
                const bool obj = v->t == Obj;
                put(obj ? "{" : "[", 1);
                std::size_t k = 0;
                for (const Val* c = v->first; c && ok; c = c->next, ++k) {
                    if (obj && k % 2) put(pretty ? ": " : ":", pretty ? 2 : 1);
                    else { if (k) put(",", 1); line(pretty, depth + 1); }
                    val(c, pretty, depth + 1);
                }
                if (v->first) line(pretty, depth);
                put(obj ? "}" : "]", 1);
                break;
            }
            default: ok = false;
        }
    }
};
inline char* write(const Val* v, bool pretty, std::size_t* len) {
    if (len) *len = 0;
    if (!v) return nullptr;
    Out o; o.val(v, pretty);
    if (!o.ok) { std::free(o.p); return nullptr; }
    if (len) *len = o.n;
    return o.p;
}

struct In {
    const char *p, *e; Doc* d; char* pool;
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    int hex4() { if (e - p < 4) return -1; int v = 0; for (int i = 0; i < 4; ++i, ++p) { const char c = *p; const int x = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (x < 0) return -1; v = v * 16 + x; } return v; }
    bool str(Val* v) {       // p is after the opening quote
        char* o = pool; v->s = o; v->t = Str;
        while (p < e && *p != '"') {
            if (static_cast<unsigned char>(*p) < 0x20) return false;
            if (*p != '\\') { std::size_t w = utf8(p, e); if (!w) return false; while (w--) *o++ = *p++; continue; }
            if (++p >= e) return false;
            switch (*p++) {
                case '"': *o++ = '"'; break; case '\\': *o++ = '\\'; break; case '/': *o++ = '/'; break;
                case 'b': *o++ = '\b'; break; case 'f': *o++ = '\f'; break; case 'n': *o++ = '\n'; break; case 'r': *o++ = '\r'; break; case 't': *o++ = '\t'; break;
                case 'u': {
                    int c = hex4();
                    if (c < 0 || (c >= 0xdc00 && c < 0xe000)) return false;
                    if (c >= 0xd800 && c < 0xdc00) { if (e - p < 6 || p[0] != '\\' || p[1] != 'u') return false; p += 2; const int l = hex4(); if (l < 0xdc00 || l >= 0xe000) return false; c = 0x10000 + ((c - 0xd800) << 10) + (l - 0xdc00); }
                    if (c < 0x80) *o++ = static_cast<char>(c);
                    else if (c < 0x800) { *o++ = static_cast<char>(0xc0 | c >> 6); *o++ = static_cast<char>(0x80 | (c & 63)); }
                    else if (c < 0x10000) { *o++ = static_cast<char>(0xe0 | c >> 12); *o++ = static_cast<char>(0x80 | (c >> 6 & 63)); *o++ = static_cast<char>(0x80 | (c & 63)); }
                    else { *o++ = static_cast<char>(0xf0 | c >> 18); *o++ = static_cast<char>(0x80 | (c >> 12 & 63)); *o++ = static_cast<char>(0x80 | (c >> 6 & 63)); *o++ = static_cast<char>(0x80 | (c & 63)); }
                    break;
                }
                default: return false;
            }
        }
        if (p >= e) return false;
        ++p; v->len = static_cast<std::size_t>(o - v->s); *o++ = 0; pool = o;
        return true;
    }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    bool num(Val* v) {
        const char* b = p; const bool neg = p < e && *p == '-';
        if (neg) ++p;
        const char* ds = p;
        if (p >= e || !dig(*p)) return false;
        if (*p == '0') { ++p; if (p < e && dig(*p)) return false; } else while (p < e && dig(*p)) ++p;
        bool real = false; const char* de = p;
        if (p < e && *p == '.') { real = true; ++p; if (p >= e || !dig(*p)) return false; while (p < e && dig(*p)) ++p; }
        if (p < e && (*p == 'e' || *p == 'E')) { real = true; ++p; if (p < e && (*p == '+' || *p == '-')) ++p; if (p >= e || !dig(*p)) return false; while (p < e && dig(*p)) ++p; }
        if (!real) {
            std::uint64_t u = 0; bool fit = std::from_chars(ds, de, u).ec == std::errc();
            if (fit && !neg) { v->t = UInt; v->u = u; return true; }
            if (fit && neg && u <= (std::uint64_t(1) << 63)) { v->t = SInt; v->i = static_cast<std::int64_t>(~u + 1); return true; }
        }
        double x = 0;
        if (std::from_chars(b, p, x).ec != std::errc() && !(x == 0)) return false;
        if (!std::isfinite(x)) return false;
        v->t = Real; v->d = x;
        return true;
    }
    bool word(const char* w, std::size_t n) { if (static_cast<std::size_t>(e - p) < n || std::memcmp(p, w, n) != 0) return false; p += n; return true; }
    bool doc() {
        Val* in = nullptr;   // innermost open container
        ws();
        for (;;) {
            // a value, or the end of an empty container, or a key
            if (p >= e) return false;
            const bool want_key = in && in->t == Obj && in->len % 2 == 0;
            if (in && !in->first && *p == (in->t == Arr ? ']' : '}')) { ++p; in = in->parent; goto after; }
            {
                Val* v = d->make(None);
                if (!v) return false;
                if (want_key) {
                    if (*p++ != '"' || !str(v)) return false;
                    add(in, v); ws();
                    if (p >= e || *p++ != ':') return false;
                    ws();
                    continue;
                }
                switch (*p) {
                    case '"': ++p; if (!str(v)) return false; break;
                    case '{': case '[': v->t = *p++ == '{' ? Obj : Arr; break;
                    case 'n': v->t = Null; if (!word("null", 4)) return false; break;
                    case 't': v->t = True; if (!word("true", 4)) return false; break;
                    case 'f': v->t = False; if (!word("false", 5)) return false; break;
                    default: if (!num(v)) return false;
                }
                if (in) add(in, v); else d->root = v;
                if (v->t == Arr || v->t == Obj) { in = v; ws(); continue; }
            }
        after:
            ws();
            while (in) {
                if (p >= e) return false;
                if (*p == ',') { ++p; ws(); break; }
                if (*p != (in->t == Arr ? ']' : '}')) return false;
                ++p; in = in->parent; ws();
            }
            if (!in) return p == e;
            if (p < e && (*p == ']' || *p == '}')) return false;   // after a comma
        }
    }
};
inline Doc* read(const char* s, std::size_t n) {
    if (!s || !n) return nullptr;
    Doc* d = make_doc();
    if (!d) return nullptr;
    auto* pool = static_cast<char*>(d->strs.get(n + 1, 0));
    if (!pool) { free_doc(d); return nullptr; }
    In in{s, s + n, d, pool};
    if (!in.doc()) { free_doc(d); return nullptr; }
    return d;
}
} // namespace yysim

struct yyjson_val : yysim::Val {};
struct yyjson_mut_val : yysim::Val {};
struct yyjson_doc : yysim::Doc {};
struct yyjson_mut_doc : yysim::Doc {};
struct yyjson_alc;
struct yyjson_obj_iter { yysim::Val* cur; };
typedef std::uint32_t yyjson_write_flag; typedef std::uint32_t yyjson_read_flag;
static const yyjson_write_flag YYJSON_WRITE_PRETTY = 1;

inline yyjson_doc* yyjson_read(const char* s, std::size_t n, yyjson_read_flag) { return static_cast<yyjson_doc*>(yysim::read(s, n)); }
inline yyjson_val* yyjson_doc_get_root(yyjson_doc* d) { return d ? static_cast<yyjson_val*>(d->root) : nullptr; }
inline void yyjson_doc_free(yyjson_doc* d) { yysim::free_doc(d); }
inline bool yyjson_is_null(yyjson_val* v) { return v && v->t == yysim::Null; }
inline bool yyjson_is_bool(yyjson_val* v) { return v && (v->t == yysim::True || v->t == yysim::False); }
inline bool yyjson_is_uint(yyjson_val* v) { return v && v->t == yysim::UInt; }
inline bool yyjson_is_sint(yyjson_val* v) { return v && v->t == yysim::SInt; }
inline bool yyjson_is_int(yyjson_val* v) { return v && (v->t == yysim::UInt || v->t == yysim::SInt); }
inline bool yyjson_is_real(yyjson_val* v) { return v && v->t == yysim::Real; }
inline bool yyjson_is_num(yyjson_val* v) { return yyjson_is_int(v) || yyjson_is_real(v); }
inline bool yyjson_is_str(yyjson_val* v) { return v && v->t == yysim::Str; }
inline bool yyjson_is_arr(yyjson_val* v) { return v && v->t == yysim::Arr; }
inline bool yyjson_is_obj(yyjson_val* v) { return v && v->t == yysim::Obj; }
inline bool yyjson_get_bool(yyjson_val* v) { return v && v->t == yysim::True; }
inline std::uint64_t yyjson_get_uint(yyjson_val* v) { return yyjson_is_int(v) ? v->u : 0; }
inline std::int64_t yyjson_get_sint(yyjson_val* v) { return yyjson_is_int(v) ? v->i : 0; }
inline double yyjson_get_real(yyjson_val* v) { return yyjson_is_real(v) ? v->d : 0.0; }
inline const char* yyjson_get_str(yyjson_val* v) { return yyjson_is_str(v) ? v->s : nullptr; }
inline std::size_t yyjson_get_len(yyjson_val* v) { return !v ? 0 : v->t == yysim::Obj ? v->len / 2 : v->t == yysim::Arr || v->t == yysim::Str ? v->len : 0; }
inline std::size_t yyjson_arr_size(yyjson_val* v) { return yyjson_is_arr(v) ? v->len : 0; }
inline std::size_t yyjson_obj_size(yyjson_val* v) { return yyjson_is_obj(v) ? v->len / 2 : 0; }
inline yyjson_val* yyjson_arr_get(yyjson_val* v, std::size_t i) {
    if (!yyjson_is_arr(v) || i >= v->len) return nullptr;
    yysim::Val* c = v->first;
    while (i--) c = c->next;
    return static_cast<yyjson_val*>(c);
}
inline yyjson_val* yyjson_obj_getn(yyjson_val* v, const char* k, std::size_t n) {
    if (!yyjson_is_obj(v) || !k) return nullptr;
    for (yysim::Val* c = v->first; c; c = c->next->next) if (c->len == n && std::memcmp(c->s, k, n) == 0) return static_cast<yyjson_val*>(c->next);
    return nullptr;
}
inline bool yyjson_obj_iter_init(yyjson_val* v, yyjson_obj_iter* it) { if (it) it->cur = yyjson_is_obj(v) ? v->first : nullptr; return it && yyjson_is_obj(v); }
inline bool yyjson_obj_iter_has_next(yyjson_obj_iter* it) { return it && it->cur; }
inline yyjson_val* yyjson_obj_iter_next(yyjson_obj_iter* it) { if (!it || !it->cur) return nullptr; auto* k = it->cur; it->cur = k->next->next; return static_cast<yyjson_val*>(k); }
inline yyjson_val* yyjson_obj_iter_get_val(yyjson_val* k) { return k ? static_cast<yyjson_val*>(k->next) : nullptr; }
inline char* yyjson_val_write(const yyjson_val* v, yyjson_write_flag f, std::size_t* len) { return yysim::write(v, f & 1, len); }

inline yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc*) { return static_cast<yyjson_mut_doc*>(yysim::make_doc()); }
inline void yyjson_mut_doc_free(yyjson_mut_doc* d) { yysim::free_doc(d); }
inline void yyjson_mut_doc_set_root(yyjson_mut_doc* d, yyjson_mut_val* v) { if (d) d->root = v; }
inline yyjson_mut_val* yyjson_mut_doc_get_root(yyjson_mut_doc* d) { return d ? static_cast<yyjson_mut_val*>(d->root) : nullptr; }
namespace yysim { template<class F> yyjson_mut_val* mk(yyjson_mut_doc* d, Type t, F f) { if (!d) return nullptr; Val* v = d->make(t); if (v && !f(v)) return nullptr; return static_cast<yyjson_mut_val*>(v); } }
inline yyjson_mut_val* yyjson_mut_null(yyjson_mut_doc* d) { return yysim::mk(d, yysim::Null, [](auto*) { return true; }); }
inline yyjson_mut_val* yyjson_mut_bool(yyjson_mut_doc* d, bool b) { return yysim::mk(d, b ? yysim::True : yysim::False, [](auto*) { return true; }); }
inline yyjson_mut_val* yyjson_mut_sint(yyjson_mut_doc* d, std::int64_t x) { return yysim::mk(d, yysim::SInt, [&](auto* v) { v->i = x; return true; }); }
inline yyjson_mut_val* yyjson_mut_int(yyjson_mut_doc* d, std::int64_t x) { return yyjson_mut_sint(d, x); }
inline yyjson_mut_val* yyjson_mut_uint(yyjson_mut_doc* d, std::uint64_t x) { return yysim::mk(d, yysim::UInt, [&](auto* v) { v->u = x; return true; }); }
inline yyjson_mut_val* yyjson_mut_real(yyjson_mut_doc* d, double x) { return yysim::mk(d, yysim::Real, [&](auto* v) { v->d = x; return true; }); }
inline yyjson_mut_val* yyjson_mut_strn(yyjson_mut_doc* d, const char* s, std::size_t n) { return s ? yysim::mk(d, yysim::Str, [&](auto* v) { v->s = s; v->len = n; return true; }) : nullptr; }
inline yyjson_mut_val* yyjson_mut_str(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strn(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_strncpy(yyjson_mut_doc* d, const char* s, std::size_t n) { return s ? yysim::mk(d, yysim::Str, [&](auto* v) { v->s = d->text(s, n); v->len = n; return v->s != nullptr; }) : nullptr; }
inline yyjson_mut_val* yyjson_mut_strcpy(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strncpy(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_arr(yyjson_mut_doc* d) { return yysim::mk(d, yysim::Arr, [](auto*) { return true; }); }
inline yyjson_mut_val* yyjson_mut_obj(yyjson_mut_doc* d) { return yysim::mk(d, yysim::Obj, [](auto*) { return true; }); }
inline bool yyjson_mut_arr_add_val(yyjson_mut_val* a, yyjson_mut_val* v) { if (!a || a->t != yysim::Arr || !v) return false; yysim::add(a, v); return true; }
inline bool yyjson_mut_arr_append(yyjson_mut_val* a, yyjson_mut_val* v) { return yyjson_mut_arr_add_val(a, v); }
inline bool yyjson_mut_obj_add(yyjson_mut_val* o, yyjson_mut_val* k, yyjson_mut_val* v) { if (!o || o->t != yysim::Obj || !k || k->t != yysim::Str || !v) return false; yysim::add(o, k); yysim::add(o, v); return true; }
inline char* yyjson_mut_write(const yyjson_mut_doc* d, yyjson_write_flag f, std::size_t* len) { return d ? yysim::write(d->root, f & 1, len) : (len ? (*len = 0, nullptr) : nullptr); }
inline char* yyjson_mut_val_write(const yyjson_mut_val* v, yyjson_write_flag f, std::size_t* len) { return yysim::write(v, f & 1, len); }
