// Independent decoders of the three checked formats, written from the format documents
// (ZERA.md, the MessagePack specification, RFC 8949), used as oracles.
//
// Each question about a position in the message has an answer with a strength:
//   Yes     the bytes say exactly this
//   Either  the bytes are outside what the document fixes (or of a feature the library does not
//           claim); a reader may refuse, but if it answers, it answers this
//   No      the bytes do not say this: a reader must refuse
#pragma once
#include <map>
#include "model.hpp"
#include <optional>

namespace sim::ref {

enum Sure : int { No, Either, Yes };
inline Sure both(Sure a, Sure b) { return a < b ? a : b; }
template<class T> struct Ans { Sure s = No; T v{}; };
using Cur = std::size_t;
constexpr int Other = -1;   // a kind outside the library's model
struct Keys { Sure s = No; std::vector<std::string> k; };   // No: refused after yielding k

inline u64 be(const std::uint8_t* p, std::size_t n) { u64 v = 0; for (std::size_t i = 0; i < n; ++i) v = v << 8 | p[i]; return v; }
inline u64 le(const std::uint8_t* p, std::size_t n) { u64 v = 0; for (std::size_t i = n; i-- > 0;) v = v << 8 | p[i]; return v; }
inline double f32(u64 b) { std::uint32_t x = static_cast<std::uint32_t>(b); float f; std::memcpy(&f, &x, 4); return f; }
inline double f64(u64 b) { double d; std::memcpy(&d, &b, 8); return d; }

// ------------------------------------------------------------------ ZERA
struct Zera {
    const std::uint8_t* p; std::size_t n;
    std::size_t env = 0, arena = 0, root_ = 0;   // as of open()
    Zera(const std::uint8_t* b, std::size_t len) : p(b), n(len) {}
    static constexpr std::size_t Hdr = 20;

    Sure open() {
        if (n < Hdr) return No;
        if (le(p, 4) != 0x564E455A || le(p + 4, 2) != 1 || le(p + 6, 2) != 1) return No;
        const u64 r = le(p + 8, 4), e = le(p + 12, 4), a = le(p + 16, 4);
        if (a % 16 || a < Hdr + e || a > n || r + 16 > e) return No;
        env = e; arena = a; root_ = r;
        return Yes;
    }
    Cur root() const { return root_; }
    const std::uint8_t* E() const { return p + Hdr; }
    int tag(Cur c) const { return E()[c]; }
    int flags(Cur c) const { return E()[c + 1]; }
    u64 aux(Cur c) const { return le(E() + c + 2, 2); }
    u64 a(Cur c) const { return le(E() + c + 4, 4); }
    u64 b(Cur c) const { return le(E() + c + 8, 4); }
    u64 cc(Cur c) const { return le(E() + c + 12, 4); }
    // unused bits that a writer leaves zero
    bool clean(Cur c) const {
        const int t = tag(c);
        if (flags(c) & ~1) return false;
        if ((flags(c) & 1) && t != 4) return false;
        switch (t) {
            case 0: return aux(c) == 0 && a(c) == 0 && b(c) == 0 && cc(c) == 0;
            case 1: return a(c) == 0 && b(c) == 0 && cc(c) == 0;
            case 2: case 3: case 8: return aux(c) == 0 && cc(c) == 0;
            case 4: if (flags(c) & 1) return true; return aux(c) == 0 && cc(c) == 0;
            case 5: case 6: return aux(c) == 0 && b(c) == 0 && cc(c) == 0;
            default: return true;
        }
    }
    Sure grade(Cur c) const { return clean(c) ? Yes : Either; }
    Ans<int> kind(Cur c) const {
        static const int k[] = {int(K::Null), int(K::Bool), int(K::Int), int(K::Float), int(K::Str), int(K::Arr), int(K::Map), 0, int(K::UInt)};
        const int t = tag(c);
        if (t > 8) return {Either, Other};
        if (t == 7) {
            if (aux(c) != 2) return {Either, Other};
            return {blob(c).s == Yes ? Yes : Either, int(K::Blob)};
        }
        return {grade(c), k[t]};
    }
    Ans<bool> boolean(Cur c) const { if (tag(c) != 1 || aux(c) > 1) return {}; return {grade(c), aux(c) == 1}; }
    Ans<MV> number(Cur c) const {
        const u64 v = a(c) | b(c) << 32;
        if (tag(c) == 2) return {grade(c), MV::integer(static_cast<std::int64_t>(v))};
        if (tag(c) == 8) return {grade(c), MV::uinteger(v)};
        return {};
    }
    Ans<double> real(Cur c) const { if (tag(c) != 3) return {}; return {grade(c), f64(a(c) | b(c) << 32)}; }
    Ans<std::string> text(Cur c) const {
        if (tag(c) != 4) return {};
        if (flags(c) & 1) {
            if (aux(c) > 12) return {};
            return {grade(c), std::string(reinterpret_cast<const char*>(E() + c + 4), aux(c))};
        }
        if (a(c) + b(c) > n - arena) return {};
        return {grade(c), std::string(reinterpret_cast<const char*>(p + arena + a(c)), b(c))};
    }
    Ans<std::string> blob(Cur c) const {
        if (tag(c) != 7 || aux(c) != 2) return {};
        const u64 sh = cc(c);
        if (sh + 4 > env) return {};
        const u64 rank = le(E() + sh, 4);
        if (rank != 1 || sh + 12 > env || le(E() + sh + 4, 8) != b(c)) return {};
        if (a(c) + b(c) > n - arena) return {};
        Sure s = grade(c);
        if (a(c) % 16) s = Either;   // writers align blobs
        return {s, std::string(reinterpret_cast<const char*>(p + arena + a(c)), b(c))};
    }
    Ans<u64> count(Cur c) const {
        if (tag(c) != 5 || a(c) + 4 > env) return {};
        const u64 k = le(E() + a(c), 4);
        if (a(c) + 4 + 16 * k > env) return {};
        return {grade(c), k};
    }
    Ans<Cur> elem(Cur c, u64 i) const {
        if (tag(c) != 5 || a(c) + 4 > env) return {};
        const u64 k = le(E() + a(c), 4);
        if (i >= k || i > env || a(c) + 4 + 16 * i + 16 > env) return {};
        return {both(grade(c), count(c).s == No ? Either : Yes), a(c) + 4 + 16 * i};
    }
    // f(key, value position) per entry until it returns false; No if an entry is out of bounds
    template<class F> Sure entries(Cur c, F&& f) const {
        if (tag(c) != 6 || a(c) + 4 > env) return No;
        const u64 k = le(E() + a(c), 4);
        u64 o = a(c) + 4;
        Sure s = grade(c);
        for (u64 i = 0; i < k; ++i) {
            if (o + 4 > env) return No;
            const u64 kl = le(E() + o, 2);
            if (le(E() + o + 2, 2) != 0) s = both(s, Either);
            if (o + 4 + kl > env) return No;
            if (o + 4 + kl + 16 > env) { f(std::string_view(reinterpret_cast<const char*>(E() + o + 4), kl), Cur(0)); return No; }   // a key without a value
            if (!f(std::string_view(reinterpret_cast<const char*>(E() + o + 4), kl), Cur(o + 4 + kl))) return s;
            o += 4 + kl + 16;
        }
        return s;
    }
    // the first key that does not lie within the envelope: the bytes there are, and filler
    std::string cut_key(Cur c) const {
        if (tag(c) != 6 || a(c) + 4 > env) return {};
        const u64 k = le(E() + a(c), 4);
        u64 o = a(c) + 4;
        for (u64 i = 0; i < k && o + 4 <= env; ++i) {
            const u64 kl = le(E() + o, 2), left = n - Hdr - o - 4;
            if (o + 4 + kl > env) { std::string s(reinterpret_cast<const char*>(E() + o + 4), std::min(kl, left)); s.resize(kl, 'k'); return s; }
            o += 4 + kl + 16;
        }
        return {};
    }
    bool is_map(Cur c) const { return tag(c) == 6; }
    bool tail_ok(Cur) const {   // padding between envelope and arena
        for (std::size_t i = Hdr + env; i < arena; ++i) if (p[i]) return false;
        return true;
    }
};

// ------------------------------------------------------------------ MessagePack
struct MsgPack {
    const std::uint8_t* p; std::size_t n;
    MsgPack(const std::uint8_t* b, std::size_t len) : p(b), n(len) {}
    Sure open() const { return Yes; }   // lazily
    Cur root() const { return 0; }
    struct H { bool ok = false; int kind = Other; std::size_t hdr = 0; u64 len = 0; bool ext = false; bool def = false; };
    H head(Cur c) const {
        H h;
        if (c >= n) return h;
        const unsigned m = p[c];
        auto fix = [&](K k, u64 len) { h.ok = h.def = true; h.kind = int(k); h.hdr = 1; h.len = len; };
        auto var = [&](int k, std::size_t w) { h.def = true; h.kind = k; if (n - c < 1 + w) return; h.ok = true; h.hdr = 1 + w; h.len = be(p + c + 1, w); };
        if (m <= 0x7f || m >= 0xe0) fix(K::Int, 0);
        else if (m <= 0x8f) fix(K::Map, m & 15);
        else if (m <= 0x9f) fix(K::Arr, m & 15);
        else if (m <= 0xbf) fix(K::Str, m & 31);
        else switch (m) {
            case 0xc0: fix(K::Null, 0); break;
            case 0xc2: case 0xc3: fix(K::Bool, 0); break;
            case 0xc4: case 0xc5: case 0xc6: var(int(K::Blob), std::size_t(1) << (m - 0xc4)); break;
            case 0xc7: case 0xc8: case 0xc9: var(Other, std::size_t(1) << (m - 0xc7)); h.ext = true; h.len += 1; break;
            case 0xca: fix(K::Float, 4); break;
            case 0xcb: fix(K::Float, 8); break;
            case 0xcc: case 0xcd: case 0xce: case 0xcf: fix(K::UInt, u64(1) << (m - 0xcc)); break;
            case 0xd0: case 0xd1: case 0xd2: case 0xd3: fix(K::Int, u64(1) << (m - 0xd0)); break;
            case 0xd4: case 0xd5: case 0xd6: case 0xd7: case 0xd8: fix(K::Blob, (u64(1) << (m - 0xd4)) + 1); h.kind = Other; h.ext = true; break;
            case 0xd9: case 0xda: case 0xdb: var(int(K::Str), std::size_t(1) << (m - 0xd9)); break;
            case 0xdc: case 0xdd: var(int(K::Arr), std::size_t(2) << (m - 0xdc)); break;
            case 0xde: case 0xdf: var(int(K::Map), std::size_t(2) << (m - 0xde)); break;
            default: break;   // 0xc1
        }
        return h;
    }
    bool fits(Cur c, const H& h) const { return h.ok && h.len <= n - c - h.hdr; }   // body of a leaf
    // position after the element
    Ans<Cur> after(Cur c) const {
        Sure s = Yes;
        u64 pending = 1;
        while (pending) {
            --pending;
            const H h = head(c);
            if (!h.ok) return {};
            if (h.kind == int(K::Arr)) { c += h.hdr; pending += h.len; }
            else if (h.kind == int(K::Map)) { c += h.hdr; pending += 2 * h.len; }
            else { if (!fits(c, h)) return {}; if (h.ext) s = Either; c += h.hdr + h.len; }
            if (pending > n - c) return {};
        }
        return {s, c};
    }
    Ans<int> kind(Cur c) const {
        const H h = head(c);
        if (!h.def || h.kind == Other) return {Either, Other};
        return {h.ok && after(c).s == Yes ? Yes : Either, h.kind};
    }
    Ans<bool> boolean(Cur c) const { const H h = head(c); if (!h.ok || h.kind != int(K::Bool)) return {}; return {Yes, p[c] == 0xc3}; }
    Ans<MV> number(Cur c) const {
        const H h = head(c);
        if (!h.ok || (h.kind != int(K::Int) && h.kind != int(K::UInt)) || !fits(c, h)) return {};
        if (h.len == 0) return {Yes, MV::integer(static_cast<std::int8_t>(p[c]))};
        const u64 v = be(p + c + 1, h.len);
        if (h.kind == int(K::UInt)) return {Yes, MV::uinteger(v)};
        const int sh = static_cast<int>(64 - 8 * h.len);
        return {Yes, MV::integer(static_cast<std::int64_t>(v << sh) >> sh)};
    }
    Ans<double> real(Cur c) const {
        const H h = head(c);
        if (!h.ok || h.kind != int(K::Float) || !fits(c, h)) return {};
        return {Yes, h.len == 4 ? f32(be(p + c + 1, 4)) : f64(be(p + c + 1, 8))};
    }
    Ans<std::string> bytes(Cur c, K k) const {
        const H h = head(c);
        if (!h.ok || h.kind != int(k) || !fits(c, h)) return {};
        return {Yes, std::string(reinterpret_cast<const char*>(p + c + h.hdr), h.len)};
    }
    Ans<std::string> text(Cur c) const { return bytes(c, K::Str); }
    Ans<std::string> blob(Cur c) const { return bytes(c, K::Blob); }
    Ans<u64> count(Cur c) const {
        const H h = head(c);
        if (!h.ok || h.kind != int(K::Arr)) return {};
        if (after(c).s == Yes) return {Yes, h.len};
        if (h.len > n - c - h.hdr) return {};   // cannot all be there
        return {Either, h.len};
    }
    Ans<Cur> elem(Cur c, u64 i) const {
        const H h = head(c);
        if (!h.ok || h.kind != int(K::Arr) || i >= h.len) return {};
        Cur q = c + h.hdr;
        Sure s = Yes;
        for (u64 k = 0; k < i; ++k) { auto a = after(q); if (a.s == No) return {}; s = both(s, a.s); q = a.v; }
        if (q >= n) return {};
        return {both(s, after(c).s == Yes ? Yes : Either), q};
    }
    std::string cut_key(Cur c) const {
        const H h = head(c);
        if (!h.ok || h.kind != int(K::Map)) return {};
        Cur q = c + h.hdr;
        for (u64 i = 0; i < 2 * h.len && q < n; ++i) {
            const H k = head(q);
            if (i % 2 == 0 && k.ok && k.kind == int(K::Str) && !fits(q, k) && k.len < 70000) { std::string s(reinterpret_cast<const char*>(p + q + k.hdr), n - q - k.hdr); s.resize(k.len, 'k'); return s; }
            auto a = after(q);
            if (a.s == No) return {};
            q = a.v;
        }
        return {};
    }
    bool is_map(Cur c) const { const H h = head(c); return h.def && h.kind == int(K::Map); }
    template<class F> Sure entries(Cur c, F&& f) const {
        const H h = head(c);
        if (!h.ok || h.kind != int(K::Map)) return No;
        Cur q = c + h.hdr;
        Sure s = Yes;
        for (u64 i = 0; i < h.len; ++i) {
            const H k = head(q);
            auto a = after(q);
            if (a.s == No) return No;
            s = both(s, a.s);
            auto e = after(a.v);
            if (k.kind != int(K::Str)) {
                if (!f.skip_foreign_keys) return No;   // not a key the library can name
                s = both(s, Either);
            } else if (a.v >= n) return No;
            else if (!f(std::string_view(reinterpret_cast<const char*>(p + q + k.hdr), k.len), a.v)) return both(s, e.s == Yes ? Yes : Either);
            if (e.s == No) return No;
            s = both(s, e.s);
            q = e.v;
        }
        return s;
    }
    bool tail_ok(Cur) const { auto a = after(0); return a.s == Yes && a.v == n; }
};

// ------------------------------------------------------------------ CBOR
struct Cbor {
    const std::uint8_t* p; std::size_t n;
    Cbor(const std::uint8_t* b, std::size_t len) : p(b), n(len) {}
    Sure open() const { return Yes; }
    Cur root() const { return 0; }
    struct H { bool ok = false, def = false, indef = false; int major = 0, addl = 0; std::size_t hdr = 0; u64 val = 0; };
    H head(Cur c) const {
        H h;
        if (c >= n) return h;
        h.major = p[c] >> 5; h.addl = p[c] & 31; h.def = true;
        if (h.addl < 24) { h.ok = true; h.hdr = 1; h.val = static_cast<u64>(h.addl); }
        else if (h.addl <= 27) { const std::size_t w = std::size_t(1) << (h.addl - 24); if (n - c < 1 + w) return h; h.ok = true; h.hdr = 1 + w; h.val = be(p + c + 1, w); }
        else if (h.addl == 31 && h.major >= 2 && h.major <= 5) { h.ok = h.indef = true; h.hdr = 1; }
        else h.def = false;   // reserved, or a break where a value belongs
        return h;
    }
    bool brk(Cur c) const { return c < n && p[c] == 0xff; }
    Ans<Cur> chunks(Cur c, int major, std::string* out) const {   // c: after the head
        for (;;) {
            if (c >= n) return {};
            if (brk(c)) return {Either, c + 1};
            const H h = head(c);
            if (!h.ok || h.major != major || h.indef || h.val > n - c - h.hdr) return {};
            if (out) out->append(reinterpret_cast<const char*>(p + c + h.hdr), h.val);
            c += h.hdr + h.val;
        }
    }
    Ans<Cur> after(Cur c) const {
        Sure s = Yes;
        struct Fr { bool indef; u64 left; bool map; bool odd; };
        static std::vector<Fr> st(4096);   // reused
        st.clear(); st.push_back({false, 1, false, false});
        bool deep = false;
        while (!st.empty()) {
            auto& f = st.back();
            if (f.indef) {
                if (c >= n) return {};
                if (brk(c)) { if (f.map && f.odd) return {}; ++c; st.pop_back(); continue; }
                f.odd = !f.odd;
            } else { if (f.left == 0) { st.pop_back(); continue; } --f.left; }
            const H h = head(c);
            if (!h.ok) return {};
            switch (h.major) {
                case 0: case 1: c += h.hdr; break;
                case 2: case 3:
                    if (h.indef) { auto a = chunks(c + h.hdr, h.major, nullptr); if (a.s == No) return {}; s = Either; c = a.v; }
                    else { if (h.val > n - c - h.hdr) return {}; c += h.hdr + h.val; }
                    break;
                case 4: case 5:
                    c += h.hdr;
                    if (h.indef) { s = Either; st.push_back({true, 0, h.major == 5, false}); }
                    else { if (h.val > n - c) return {}; const u64 k = h.major == 5 ? 2 * h.val : h.val; if (k > n - c) return {}; st.push_back({false, k, h.major == 5, false}); }
                    break;
                case 6: s = Either; c += h.hdr; st.push_back({false, 1, false, false}); break;
                default: c += h.hdr; if (h.addl == 24) s = Either; break;
            }
            if (st.size() > 900) deep = true;
        }
        return {deep ? both(s, Either) : s, c};
    }
    Ans<int> kind(Cur c) const {
        const H h = head(c);
        if (!h.def) return {Either, Other};
        int k = Other;
        switch (h.major) {
            case 0: k = int(K::UInt); break;
            case 1: k = int(K::Int); break;
            case 2: k = int(K::Blob); break;
            case 3: k = int(K::Str); break;
            case 4: k = int(K::Arr); break;
            case 5: k = int(K::Map); break;
            case 7: k = h.addl == 20 || h.addl == 21 ? int(K::Bool) : h.addl == 22 ? int(K::Null) : h.addl >= 25 && h.addl <= 27 ? int(K::Float) : Other; break;
            default: break;
        }
        if (k == Other) return {Either, Other};
        if (h.major == 1 && h.ok && h.val > u64(INT64_MAX)) return {Either, k};
        return {h.ok && after(c).s == Yes ? Yes : Either, k};
    }
    Ans<bool> boolean(Cur c) const { const H h = head(c); if (!h.ok || h.major != 7 || (h.addl != 20 && h.addl != 21)) return {}; return {Yes, h.addl == 21}; }
    Ans<MV> number(Cur c) const {
        const H h = head(c);
        if (!h.ok || h.major > 1) return {};
        if (h.major == 0) return {Yes, MV::uinteger(h.val)};
        if (h.val > u64(INT64_MAX)) return {};
        return {Yes, MV::integer(-1 - static_cast<std::int64_t>(h.val))};
    }
    static double f16(u64 b) {
        const int e = static_cast<int>(b >> 10 & 31), f = static_cast<int>(b & 1023);
        double m = e == 0 ? f * 0x1p-24 : e == 31 ? (f ? NAN : INFINITY) : (1024 + f) * std::ldexp(1.0, e - 25);
        return b >> 15 ? -m : m;
    }
    Ans<double> real(Cur c) const {
        const H h = head(c);
        if (!h.ok || h.major != 7 || h.addl < 25 || h.addl > 27) return {};
        return {Yes, h.addl == 25 ? f16(h.val) : h.addl == 26 ? f32(h.val) : f64(h.val)};
    }
    Ans<std::string> bytes(Cur c, int major) const {
        const H h = head(c);
        if (!h.ok || h.major != major) return {};
        if (h.indef) { std::string o; auto a = chunks(c + h.hdr, major, &o); if (a.s == No) return {}; return {Either, o}; }
        if (h.val > n - c - h.hdr) return {};
        return {Yes, std::string(reinterpret_cast<const char*>(p + c + h.hdr), h.val)};
    }
    Ans<std::string> text(Cur c) const { return bytes(c, 3); }
    Ans<std::string> blob(Cur c) const { return bytes(c, 2); }
    Ans<u64> count(Cur c) const {
        const H h = head(c);
        if (!h.ok || h.major != 4) return {};
        if (h.indef) {
            u64 k = 0; Cur q = c + h.hdr;
            while (!brk(q)) { auto a = after(q); if (a.s == No) return {}; q = a.v; ++k; }
            return {Either, k};
        }
        if (after(c).s == Yes) return {Yes, h.val};
        if (h.val > n - c - h.hdr) return {};
        return {Either, h.val};
    }
    Ans<Cur> elem(Cur c, u64 i) const {
        const H h = head(c);
        if (!h.ok || h.major != 4 || (!h.indef && i >= h.val)) return {};
        Cur q = c + h.hdr;
        Sure s = h.indef ? Either : Yes;
        for (u64 k = 0;; ++k) {
            if (q >= n) { return k == i && !h.indef ? Ans<Cur>{Either, q} : Ans<Cur>{}; }   // a position with nothing there: any access must fail
            if (h.indef && brk(q)) return {};
            if (k == i) break;
            auto a = after(q); if (a.s == No) return {}; s = both(s, a.s); q = a.v;
        }
        return {both(s, after(c).s == Yes ? Yes : Either), q};
    }
    std::string cut_key(Cur c) const {
        const H h = head(c);
        if (!h.ok || h.major != 5) return {};
        Cur q = c + h.hdr;
        for (u64 i = 0; (h.indef || i / 2 < h.val) && q < n && !brk(q); ++i) {
            const H k = head(q);
            if (i % 2 == 0 && k.ok && k.major == 3 && !k.indef && k.val > n - q - k.hdr && k.val < 70000) { std::string s(reinterpret_cast<const char*>(p + q + k.hdr), n - q - k.hdr); s.resize(k.val, 'k'); return s; }
            auto a = after(q);
            if (a.s == No) return {};
            q = a.v;
        }
        return {};
    }
    bool is_map(Cur c) const { const H h = head(c); return h.def && h.major == 5; }
    template<class F> Sure entries(Cur c, F&& f) const {
        const H h = head(c);
        if (!h.ok || h.major != 5) return No;
        Cur q = c + h.hdr;
        Sure s = h.indef ? Either : Yes;
        for (u64 i = 0; h.indef || i < h.val; ++i) {
            if (q >= n) return No;
            if (h.indef && brk(q)) return s;
            auto k = text(q);
            if (k.s == No) return No;   // not a key the library can name
            s = both(s, k.s);
            auto a = after(q);
            if (a.s == No) return No;
            auto e = after(a.v);
            if (!f(std::string_view(k.v), a.v)) return both(s, e.s == Yes ? Yes : Either);
            if (e.s == No) return No;
            s = both(s, e.s);
            q = e.v;
        }
        return s;
    }
    bool tail_ok(Cur) const { auto a = after(0); return a.s == Yes && a.v == n; }
};

// ------------------------------------------------------------------ questions common to all
template<class F> struct Fn { F f; bool skip_foreign_keys; bool operator()(std::string_view k, Cur c) const { return f(k, c); } };
template<class F> Fn<F> fn(bool skip, F f) { return {f, skip}; }

template<class R> Keys keys(const R& r, Cur c) {
    Keys k;
    if (!r.is_map(c)) return k;
    k.s = r.entries(c, fn(false, [&](std::string_view s, Cur) { k.k.emplace_back(s); return true; }));
    return k;
}
// find: Yes/Either with the position; No: absent or unreadable. `definite`: absent for certain.
struct Found { Sure s = No; Cur v = 0; bool absent = false; bool key_only = false; };
template<class R> Found find(const R& r, Cur c, std::string_view key) {
    Found f;
    if (!r.is_map(c)) return f;
    bool hit = false;
    Sure s = r.entries(c, fn(true, [&](std::string_view k, Cur v) { if (k == key) { hit = true; f.v = v; return false; } return true; }));
    if (hit && s == No) { f.key_only = true; return f; }
    if (hit) { f.s = s; if (keys(r, c).s != Yes) f.s = both(f.s, Either); return f; }
    f.absent = s != No;
    f.s = No;
    return f;
}

// The whole value at c, with the first of duplicate keys winning (as lookups do).
struct Budget { std::size_t nodes = 20000; std::size_t depth = 0; bool over = false; std::size_t max_depth = 0; bool dup = false; bool nul = false; std::size_t size = 0; };   // size: of what was visited, expanded
template<class R> Ans<MV> value(const R& r, Cur c, Budget& b) {
    if (b.nodes == 0 || b.depth > 1100) { b.over = true; return {Either, {}}; }
    --b.nodes; b.size += 16;
    b.max_depth = std::max(b.max_depth, b.depth);
    const auto k = r.kind(c);
    if (k.s == No) return {};
    if (k.v == Other) return {No, {}};
    struct D { Budget& b; D(Budget& x) : b(x) { ++b.depth; } ~D() { --b.depth; } } d(b);
    auto lift = [&](Sure s, MV v) { return Ans<MV>{s == No ? No : both(s, k.s), std::move(v)}; };
    switch (static_cast<K>(k.v)) {
        case K::Null: return lift(Yes, MV::null());
        case K::Bool: { auto a = r.boolean(c); return lift(a.s, MV::boolean(a.v)); }
        case K::Int: case K::UInt: { auto a = r.number(c); return lift(a.s, a.v); }
        case K::Float: { auto a = r.real(c); return lift(a.s, MV::real(a.v)); }
        case K::Str: { auto a = r.text(c); b.size += a.v.size(); return lift(a.s, MV::str(a.v)); }
        case K::Blob: { auto a = r.blob(c); b.size += a.v.size(); return lift(a.s, MV::blob(a.v)); }
        case K::Arr: {
            auto a = r.count(c);
            if (a.s == No) return {};
            MV v = MV::arr();
            Sure s = a.s;
            Ans<Cur> e;
            for (u64 i = 0; i < a.v; ++i) {
                if constexpr (requires { r.after(c); }) {   // one after the other
                    if (i == 0) e = r.elem(c, 0);
                    else { auto nx = r.after(e.v); if (nx.s == No || nx.v >= r.n) e = r.elem(c, i); else e = {both(e.s, nx.s), nx.v}; }
                } else e = r.elem(c, i);
                if (e.s == No) return {};
                auto x = value(r, e.v, b);
                if (b.over) return {Either, {}};
                if (x.s == No) return {};
                s = both(s, both(e.s, x.s));
                v.a.push_back(std::move(x.v));
            }
            return lift(s, std::move(v));
        }
        default: {
            std::vector<std::pair<std::string, Cur>> es;
            Sure s = r.entries(c, fn(false, [&](std::string_view key, Cur at) { es.emplace_back(std::string(key), at); return true; }));
            for (auto& e : es) b.size += e.first.size();
            if (s == No) {   // a reader may still get to the entries before the bad one
                for (auto& e : es) { (void)value(r, e.second, b); if (b.over) return {Either, {}}; }
                return {};
            }
            MV v = MV::map();
            std::map<std::string_view, Cur> first;
            for (auto& [key, at] : es) {
                auto ins = first.emplace(key, at);
                if (!ins.second) { b.dup = true; s = both(s, Either); }
                if (key.find('\0') != std::string::npos) b.nul = true;
                auto x = value(r, ins.first->second, b);
                if (b.over) return {Either, {}};
                if (x.s == No) return {};
                s = both(s, x.s);
                v.m.emplace_back(key, std::move(x.v));
            }
            return lift(s, std::move(v));
        }
    }
}
// Valid as a whole, and made of what the library claims.
template<class R> bool whole(const std::uint8_t* p, std::size_t n) {
    R r(p, n);
    if (r.open() != Yes) return false;
    Budget b;
    auto v = value(r, r.root(), b);
    return v.s == Yes && !b.over && b.max_depth < 900 && !b.dup && r.tail_ok(r.root());
}

} // namespace sim::ref
