// Independent encoders of the three formats that make every legal encoding choice.
#pragma once
#include "ref.hpp"
#include <map>

namespace sim::enc {

inline void put_be(std::string& o, u64 v, std::size_t w) { for (std::size_t i = w; i-- > 0;) o += static_cast<char>(v >> (8 * i)); }
inline void put_le(std::string& o, u64 v, std::size_t w) { for (std::size_t i = 0; i < w; ++i) o += static_cast<char>(v >> (8 * i)); }
// smallest width index (1,2,4,8 bytes), or by choice a larger one
inline std::size_t width(Sim& s, u64 v, std::size_t max = 3) {
    std::size_t w = v <= 0xff ? 0 : v <= 0xffff ? 1 : v <= 0xffffffffull ? 2 : 3;
    if (w < max && s.below(3) == 2) w += 1 + s.below(max - w);
    return w;
}

// ---- MessagePack
inline void msgpack(Sim& s, const MV& v, std::string& o) {
    auto str = [&](const std::string& x) {
        if (x.size() < 32 && s.below(3) != 2) o += static_cast<char>(0xa0 | x.size());
        else { const auto w = width(s, x.size(), 2); o += static_cast<char>(0xd9 + w); put_be(o, x.size(), std::size_t(1) << w); }
        o += x;
    };
    auto cnt = [&](std::size_t n, int fix, int m16) {
        if (n < 16 && s.below(3) != 2) o += static_cast<char>(fix | static_cast<int>(n));
        else if (n < 65536 && s.below(3) != 2) { o += static_cast<char>(m16); put_be(o, n, 2); }
        else { o += static_cast<char>(m16 + 1); put_be(o, n, 4); }
    };
    auto uns = [&](u64 u) { if (u < 128 && s.below(2) == 0) o += static_cast<char>(u); else { const auto w = width(s, u); o += static_cast<char>(0xcc + w); put_be(o, u, std::size_t(1) << w); } };
    auto sig = [&](std::int64_t i) {
        if (i >= -32 && i < 128 && s.below(2) == 0) { o += static_cast<char>(i); return; }
        std::size_t w = i >= INT8_MIN && i <= INT8_MAX ? 0 : i >= INT16_MIN && i <= INT16_MAX ? 1 : i >= INT32_MIN && i <= INT32_MAX ? 2 : 3;
        if (w < 3 && s.below(3) == 2) w += 1 + s.below(3 - w);
        o += static_cast<char>(0xd0 + w); put_be(o, static_cast<u64>(i), std::size_t(1) << w);
    };
    switch (v.k) {
        case K::Null: o += '\xc0'; break;
        case K::Bool: o += v.b ? '\xc3' : '\xc2'; break;
        case K::Int: if (v.i >= 0 && s.below(2)) uns(static_cast<u64>(v.i)); else sig(v.i); break;
        case K::UInt: if (v.u <= u64(INT64_MAX) && s.below(2)) sig(static_cast<std::int64_t>(v.u)); else uns(v.u); break;
        case K::Float: {
            const float f = static_cast<float>(v.d); const double back = f;
            if (dbits(back) == dbits(v.d) && !std::isnan(v.d) && s.below(2)) { std::uint32_t b; std::memcpy(&b, &f, 4); o += '\xca'; put_be(o, b, 4); }
            else { o += '\xcb'; put_be(o, dbits(v.d), 8); }
            break;
        }
        case K::Str: str(v.s); break;
        case K::Blob: { const auto w = width(s, v.s.size(), 2); o += static_cast<char>(0xc4 + w); put_be(o, v.s.size(), std::size_t(1) << w); o += v.s; break; }
        case K::Arr: cnt(v.a.size(), 0x90, 0xdc); for (auto& x : v.a) msgpack(s, x, o); break;
        case K::Map: cnt(v.m.size(), 0x80, 0xde); for (auto& x : v.m) { str(x.first); msgpack(s, x.second, o); } break;
    }
}

// ---- CBOR
inline void cbor_head(Sim& s, std::string& o, int major, u64 v) {
    if (v < 24 && s.below(3) != 2) { o += static_cast<char>(major << 5 | static_cast<int>(v)); return; }
    const auto w = width(s, v);
    o += static_cast<char>(major << 5 | (24 + static_cast<int>(w)));
    put_be(o, v, std::size_t(1) << w);
}
inline bool to_half(double d, u64& out) {   // exactly representable
    for (u64 b = 0; b < 65536; ++b) if (dbits(ref::Cbor::f16(b)) == dbits(d)) { out = b; return true; }
    return false;
}
inline void cbor(Sim& s, const MV& v, std::string& o, bool indef) {
    auto str = [&](const std::string& x, int major) {
        if (indef && s.below(6) == 5) {
            o += static_cast<char>(major << 5 | 31);
            for (std::size_t i = 0; i < x.size();) { const std::size_t k = std::min<std::size_t>(s.below(10), x.size() - i); cbor_head(s, o, major, k); o.append(x, i, k); i += k; }
            if (s.below(4) == 0) cbor_head(s, o, major, 0);   // an empty chunk, allowed anywhere
            o += '\xff';
        } else { cbor_head(s, o, major, x.size()); o += x; }
    };
    switch (v.k) {
        case K::Null: o += '\xf6'; break;
        case K::Bool: o += v.b ? '\xf5' : '\xf4'; break;
        case K::Int: if (v.i < 0) cbor_head(s, o, 1, static_cast<u64>(-1 - v.i)); else cbor_head(s, o, 0, static_cast<u64>(v.i)); break;
        case K::UInt: cbor_head(s, o, 0, v.u); break;
        case K::Float: {
            const float f = static_cast<float>(v.d); const double back = f;
            const u64 form = s.below(3);
            u64 h;
            if (form == 2 && !std::isnan(v.d) && to_half(v.d, h)) { o += '\xf9'; put_be(o, h, 2); }
            else if (form >= 1 && dbits(back) == dbits(v.d) && !std::isnan(v.d)) { std::uint32_t b; std::memcpy(&b, &f, 4); o += '\xfa'; put_be(o, b, 4); }
            else { o += '\xfb'; put_be(o, dbits(v.d), 8); }
            break;
        }
        case K::Str: str(v.s, 3); break;
        case K::Blob: str(v.s, 2); break;
        case K::Arr: { const bool in = indef && s.below(4) == 3; if (in) o += '\x9f'; else cbor_head(s, o, 4, v.a.size()); for (auto& x : v.a) cbor(s, x, o, indef); if (in) o += '\xff'; break; }
        case K::Map: { const bool in = indef && s.below(4) == 3; if (in) o += '\xbf'; else cbor_head(s, o, 5, v.m.size()); for (auto& x : v.m) { str(x.first, 3); cbor(s, x.second, o, indef); } if (in) o += '\xff'; break; }
    }
}

// ---- ZERA
class ZeraEnc {
    Sim& s; std::string env, arena; std::map<std::string, std::string> shared;
    bool share, gaps, parent_first;
    void gap(std::string& o) { if (gaps && s.below(3) == 2) o.append(1 + s.below(21), '\xcc'); }
    static std::string vr(int tag, int flags, u64 aux, u64 a, u64 b, u64 c) { std::string o; o += static_cast<char>(tag); o += static_cast<char>(flags); put_le(o, aux, 2); put_le(o, a, 4); put_le(o, b, 4); put_le(o, c, 4); return o; }
    static std::string canon(const MV& v) {
        std::string o(1, static_cast<char>('a' + static_cast<int>(v.k)));
        switch (v.k) {
            case K::Null: break;
            case K::Bool: o += static_cast<char>(v.b); break;
            case K::Int: case K::UInt: put_le(o, v.magnitude_bits(), 8); break;
            case K::Float: put_le(o, dbits(v.d), 8); break;
            case K::Str: case K::Blob: put_le(o, v.s.size(), 8); o += v.s; break;
            case K::Arr: put_le(o, v.a.size(), 8); for (auto& x : v.a) o += canon(x); break;
            case K::Map: put_le(o, v.m.size(), 8); for (auto& x : v.m) { put_le(o, x.first.size(), 8); o += x.first; o += canon(x.second); } break;
        }
        return o;
    }
    std::string make(const MV& v) {
        std::string memo;
        if (share && v.nodes() < 40) { memo = canon(v); auto it = shared.find(memo); if (it != shared.end()) return it->second; }   // the same value once
        std::string r;
        switch (v.k) {
            case K::Null: r = vr(0, 0, 0, 0, 0, 0); break;
            case K::Bool: r = vr(1, 0, v.b, 0, 0, 0); break;
            case K::Int: { const u64 x = static_cast<u64>(v.i); r = vr(2, 0, 0, x & 0xffffffff, x >> 32, 0); break; }
            case K::UInt: r = vr(8, 0, 0, v.u & 0xffffffff, v.u >> 32, 0); break;
            case K::Float: { const u64 x = dbits(v.d); r = vr(3, 0, 0, x & 0xffffffff, x >> 32, 0); break; }
            case K::Str:
                if (v.s.size() <= 12 && s.below(2) == 0) { r = vr(4, 1, v.s.size(), 0, 0, 0); std::memcpy(r.data() + 4, v.s.data(), v.s.size()); }
                else { gap(arena); std::size_t at; if (share && (at = arena.find(v.s)) != std::string::npos && !v.s.empty()) {} else { at = arena.size(); arena += v.s; } r = vr(4, 0, 0, at, v.s.size(), 0); }
                break;
            case K::Blob: {
                gap(arena); while (arena.size() % 16) arena += '\0';
                const std::size_t at = arena.size(); arena += v.s;
                gap(env); const std::size_t sh = env.size(); put_le(env, 1, 4); put_le(env, v.s.size(), 8);
                r = vr(7, 0, 2, at, v.s.size(), sh);
                break;
            }
            case K::Arr: {
                if (parent_first) {
                    gap(env); const std::size_t at = env.size(); put_le(env, v.a.size(), 4); env.append(16 * v.a.size(), '\0');
                    for (std::size_t i = 0; i < v.a.size(); ++i) { auto x = make(v.a[i]); std::memcpy(env.data() + at + 4 + 16 * i, x.data(), 16); }
                    r = vr(5, 0, 0, at, 0, 0);
                } else {
                    std::string pl; put_le(pl, v.a.size(), 4); for (auto& x : v.a) pl += make(x);
                    gap(env); r = vr(5, 0, 0, env.size(), 0, 0); env += pl;
                }
                break;
            }
            case K::Map: {
                if (parent_first) {
                    gap(env); const std::size_t at = env.size(); put_le(env, v.m.size(), 4);
                    std::vector<std::size_t> pos;
                    for (auto& x : v.m) { put_le(env, x.first.size(), 2); put_le(env, 0, 2); env += x.first; pos.push_back(env.size()); env.append(16, '\0'); }
                    for (std::size_t i = 0; i < v.m.size(); ++i) { auto x = make(v.m[i].second); std::memcpy(env.data() + pos[i], x.data(), 16); }
                    r = vr(6, 0, 0, at, 0, 0);
                } else {
                    std::string pl; put_le(pl, v.m.size(), 4);
                    for (auto& x : v.m) { put_le(pl, x.first.size(), 2); put_le(pl, 0, 2); pl += x.first; pl += make(x.second); }
                    gap(env); r = vr(6, 0, 0, env.size(), 0, 0); env += pl;
                }
                break;
            }
        }
        if (!memo.empty()) shared[memo] = r;
        return r;
    }
public:
    explicit ZeraEnc(Sim& sim) : s(sim), share(sim.below(2)), gaps(sim.below(2)), parent_first(sim.below(2)) {}
    std::string run(const MV& v) {
        const bool root_first = s.below(2);
        std::size_t root = 0;
        if (root_first) { gap(env); root = env.size(); env.append(16, '\0'); auto x = make(v); std::memcpy(env.data() + root, x.data(), 16); }
        else { auto x = make(v); gap(env); root = env.size(); env += x; }
        gap(env);
        std::size_t ao = (20 + env.size() + 15) / 16 * 16;
        if (gaps) ao += 16 * s.below(3);
        std::string o;
        put_le(o, 0x564E455A, 4); put_le(o, 1, 2); put_le(o, 1, 2); put_le(o, root, 4); put_le(o, env.size(), 4); put_le(o, ao, 4);
        o += env; o.resize(ao, '\0'); o += arena;
        if (gaps) o.append(s.below(20), '\xdd');
        return o;
    }
};
inline std::string zera(Sim& s, const MV& v) { heap::HarnessScope hs; return ZeraEnc(s).run(v); }
inline std::string msgpack(Sim& s, const MV& v) { heap::HarnessScope hs; std::string o; msgpack(s, v, o); return o; }
inline std::string cbor(Sim& s, const MV& v, bool indef) { heap::HarnessScope hs; std::string o; cbor(s, v, o, indef); return o; }
} // namespace sim::enc
