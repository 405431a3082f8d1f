// The reference model of a value, and a boundary-rich generator of values.
#pragma once
#include "core.hpp"
#include "alloc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <set>
#include <string>
#include <utility>
#include <vector>

#define VIOLATE(cls_, msg_) do { ::sim::heap::HarnessScope hs_; throw ::sim::Violation{(cls_), (msg_)}; } while (0)

namespace sim {

enum class K : std::uint8_t { Null, Bool, Int, UInt, Float, Str, Blob, Arr, Map };
inline const char* kname(K k) {
    static const char* n[] = {"null", "bool", "int", "uint", "float", "string", "blob", "array", "map"};
    return n[static_cast<int>(k)];
}

// How a node is handed to the library (see emit.hpp).
enum Style : std::uint8_t { SDirect, SVector, SList, SBuilder, STyped, SStdArray, SDyn, SDynSer, SStdMap, SUnordered, SUserNest, STensor, SPlain, SStyles };

struct MV {
    K k = K::Null;
    bool b = false;
    std::int64_t i = 0;
    std::uint64_t u = 0;
    double d = 0;
    std::string s;                                   // Str, Blob
    std::vector<MV> a;                               // Arr
    std::vector<std::pair<std::string, MV>> m;       // Map
    std::uint8_t style = SDirect;
    std::uint8_t prim = 0;                           // which C++ type carries a scalar

    static MV null() { return {}; }
    static MV boolean(bool v) { MV x; x.k = K::Bool; x.b = v; return x; }
    static MV integer(std::int64_t v) { MV x; x.k = K::Int; x.i = v; return x; }
    static MV uinteger(std::uint64_t v) { MV x; x.k = K::UInt; x.u = v; return x; }
    static MV real(double v) { MV x; x.k = K::Float; x.d = v; return x; }
    static MV str(std::string v) { MV x; x.k = K::Str; x.s = std::move(v); return x; }
    static MV blob(std::string v) { MV x; x.k = K::Blob; x.s = std::move(v); return x; }
    static MV arr() { MV x; x.k = K::Arr; return x; }
    static MV map() { MV x; x.k = K::Map; return x; }

    bool is_integer() const { return k == K::Int || k == K::UInt; }
    bool negative() const { return k == K::Int && i < 0; }
    std::uint64_t magnitude_bits() const { return k == K::Int ? static_cast<std::uint64_t>(i) : u; }
    std::size_t nodes() const {
        std::size_t n = 1;
        for (auto& x : a) n += x.nodes();
        for (auto& x : m) n += x.second.nodes();
        return n;
    }
    std::size_t depth() const {
        std::size_t n = 0;
        for (auto& x : a) n = std::max(n, x.depth());
        for (auto& x : m) n = std::max(n, x.second.depth());
        return n + 1;
    }
    const MV* find(std::string_view key) const { for (auto& e : m) if (e.first == key) return &e.second; return nullptr; }
};

inline std::uint64_t dbits(double d) { std::uint64_t b; std::memcpy(&b, &d, 8); return b; }

// Same value: integers compare as numbers, floats by bits, map entries by key.
inline bool same(const MV& x, const MV& y) {
    if (x.is_integer() && y.is_integer()) {
        if (x.negative() != y.negative()) return false;
        return x.magnitude_bits() == y.magnitude_bits();
    }
    if (x.k != y.k) return false;
    switch (x.k) {
        case K::Null: return true;
        case K::Bool: return x.b == y.b;
        case K::Float: return dbits(x.d) == dbits(y.d) || (std::isnan(x.d) && std::isnan(y.d) && dbits(x.d) == dbits(y.d));
        case K::Str: case K::Blob: return x.s == y.s;
        case K::Arr: {
            if (x.a.size() != y.a.size()) return false;
            for (std::size_t i = 0; i < x.a.size(); ++i) if (!same(x.a[i], y.a[i])) return false;
            return true;
        }
        case K::Map: {
            if (x.m.size() != y.m.size()) return false;
            std::vector<const std::pair<std::string, MV>*> p, q;
            for (auto& e : x.m) p.push_back(&e);
            for (auto& e : y.m) q.push_back(&e);
            auto lt = [](auto* l, auto* r) { return l->first < r->first; };
            std::stable_sort(p.begin(), p.end(), lt); std::stable_sort(q.begin(), q.end(), lt);
            for (std::size_t i = 0; i < p.size(); ++i) if (p[i]->first != q[i]->first || !same(p[i]->second, q[i]->second)) return false;
            return true;
        }
        default: return false;
    }
}

inline std::string show(const MV& v, std::size_t max = 400) {
    std::string o;
    auto rec = [&](auto& self, const MV& x) -> void {
        if (o.size() > max) { return; }
        switch (x.k) {
            case K::Null: o += "null"; break;
            case K::Bool: o += x.b ? "true" : "false"; break;
            case K::Int: o += std::to_string(x.i); break;
            case K::UInt: o += std::to_string(x.u) + "u"; break;
            case K::Float: { char b[40]; std::snprintf(b, sizeof b, "%.17gf", x.d); o += b; break; }
            case K::Str: o += "s(" + std::to_string(x.s.size()) + ":" + hex(x.s.data(), x.s.size(), 12) + ")"; break;
            case K::Blob: o += "b(" + std::to_string(x.s.size()) + ":" + hex(x.s.data(), x.s.size(), 12) + ")"; break;
            case K::Arr: o += "["; for (auto& e : x.a) { self(self, e); o += ","; if (o.size() > max) break; } o += "]"; break;
            case K::Map: o += "{"; for (auto& e : x.m) { o += hex(e.first.data(), e.first.size(), 12) + ":"; self(self, e.second); o += ","; if (o.size() > max) break; } o += "}"; break;
        }
    };
    rec(rec, v);
    if (o.size() > max) o += "...";
    return o;
}

// Fingerprint of the shape of a value: kinds and size classes, not contents.
inline std::uint64_t shape_hash(const MV& v) {
    auto szc = [](std::size_t n) -> std::uint64_t { return n < 4 ? n : n < 13 ? 4 : n < 16 ? 5 : n < 32 ? 6 : n < 256 ? 7 : n < 65536 ? 8 : 9; };
    std::uint64_t h = mix(static_cast<std::uint64_t>(v.k) * 31 + v.style);
    switch (v.k) {
        case K::Int: { int w = 0; std::uint64_t x = v.i < 0 ? ~static_cast<std::uint64_t>(v.i) : static_cast<std::uint64_t>(v.i); while (x) { ++w; x >>= 1; } h = mix(h + static_cast<std::uint64_t>(w) * 2 + (v.i < 0)); break; }
        case K::UInt: { int w = 0; std::uint64_t x = v.u; while (x) { ++w; x >>= 1; } h = mix(h + static_cast<std::uint64_t>(w)); break; }
        case K::Float: h = mix(h + (static_cast<double>(static_cast<float>(v.d)) == v.d)); break;
        case K::Str: case K::Blob: h = mix(h + szc(v.s.size())); break;
        case K::Arr: h = mix(h + szc(v.a.size())); for (std::size_t i = 0; i < v.a.size() && i < 8; ++i) h = mix(h ^ shape_hash(v.a[i])); break;
        case K::Map: h = mix(h + szc(v.m.size())); for (std::size_t i = 0; i < v.m.size() && i < 8; ++i) h = mix(h ^ shape_hash(v.m[i].second)); break;
        default: break;
    }
    return h;
}

// ---------------------------------------------------------------- literal key sets for zmap
inline constexpr std::array<const char*, 3> ZK1[] = {{"id", nullptr, nullptr}};
// tuples used by emit.hpp; index = prim of the map node
inline std::vector<std::string> zkeys(int which) {
    switch (which) {
        case 0: return {"id"};
        case 1: return {"id", "name"};
        case 2: return {"a", "b", "c"};
        case 3: return {"", "x"};
        case 4: return {"a key that is rather longer than thirty-one bytes", "k\xc3\xa9y"};
        case 5: return {};
        default: return {"name", "nam", "namer", "n"};
    }
}
inline constexpr int ZKeySets = 7;

// ---------------------------------------------------------------- generator
struct GenOpt {
    int budget = 24;          // nodes
    int max_depth = 6;
    bool nul_keys = false;    // keys may contain NUL (not representable in Flex)
    bool big = true;          // sizes around 64 Ki
    bool styles = true;       // vary emission styles
    bool big_counts = true;   // with big: containers of 65536
};

class Gen {
public:
    Gen(Sim& s, GenOpt o) : s_(s), o_(o), left_(o.budget) {}
    MV value() { HarnessGuard g; return node(0, true); }

    std::string bytes(std::size_t n, bool text) {
        std::string r(n, 'a');
        if (n == 0) return r;
        const u64 mode = s_.below(text ? 6 : 3);
        const u64 seed = mode == 0 ? 0 : s_.below(1 << 12);
        for (std::size_t i = 0; i < n; ++i) {
            const u64 x = mix(seed * 1000003 + i);
            if (text) switch (mode) {
                case 0: r[i] = static_cast<char>('a' + i % 26); break;
                case 1: r[i] = static_cast<char>('a' + x % 26); break;
                case 2: r[i] = static_cast<char>(x); break;                                   // any byte
                case 3: r[i] = x % 4 == 0 ? '\0' : static_cast<char>(x >> 8); break;         // NULs
                case 4: r[i] = "\"\\\b\f\n\r\t\x01\x1f/"[x % 10]; break;                    // needs escaping
                default: r[i] = static_cast<char>(i % 2 ? 0xa9 : 0xc3); break;               // UTF-8
            } else switch (mode) {
                case 0: r[i] = static_cast<char>(i); break;
                case 1: r[i] = static_cast<char>(x); break;
                default: r[i] = static_cast<char>(x % 3 == 0 ? 0 : 0xff); break;
            }
        }
        return r;
    }
    // As often as not something new; otherwise nearly what came before it.
    std::string content(bool text) {
        if (last_.empty() || s_.below(5) != 4) { std::string r = bytes(length(), text); if (r.size() <= 4096) last_ = r; return r; }
        std::string r = last_;
        switch (s_.below(7)) {
            case 0: break;                                                                    // the same again
            case 1: r.back() = static_cast<char>(r.back() ^ 1); break;
            case 2: r[s_.below(r.size())] ^= 2; break;
            case 3: r[0] = static_cast<char>(r[0] ^ 4); break;
            case 4: r.push_back('q'); break;
            case 5: r.pop_back(); break;
            default: r.insert(0, 1, 'p'); break;
        }
        last_ = r;
        return r;
    }
    std::size_t length() {
        const u64 r = s_.below(64);
        if (r < 24) return s_.below(9);
        if (r < 46) return s_.pick<std::size_t>({11, 12, 13, 14, 15, 16, 17, 10, 9});
        if (r < 56) return s_.pick<std::size_t>({30, 31, 32, 33, 23, 24, 25, 47, 48, 49, 63, 64, 65});
        if (r < 62) return s_.pick<std::size_t>({127, 128, 129, 254, 255, 256, 257, 300, 511, 512});
        if (r < 63) return s_.below(2000);
        if (!o_.big) return 258;
        return s_.pick<std::size_t>({1023, 4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000});
    }
    std::int64_t i64() {
        const u64 r = s_.below(8);
        if (r < 2) return static_cast<std::int64_t>(s_.below(16)) - 3;
        if (r < 6) {
            const u64 k = s_.below(64);
            const std::int64_t off = static_cast<std::int64_t>(s_.below(5)) - 2;
            u64 v = (u64(1) << k) + static_cast<u64>(off);
            if (s_.below(2)) v = ~v + 1;
            return static_cast<std::int64_t>(v);
        }
        if (r < 7) return s_.pick<std::int64_t>({-32, -33, -128, -129, 127, 128, -32768, -32769, 32767, 32768, INT32_MIN, INT64_MIN, INT64_MAX, INT32_MAX});
        return static_cast<std::int64_t>(s_.bits64());
    }
    std::uint64_t u64v() {
        const u64 r = s_.below(8);
        if (r < 2) return s_.below(16);
        if (r < 6) { const u64 k = s_.below(64); return (u64(1) << k) + s_.below(5) - 2; }
        if (r < 7) return s_.pick<u64>({127, 128, 255, 256, 65535, 65536, 0xffffffffull, 0x100000000ull, u64(INT64_MAX), u64(INT64_MAX) + 1, ~0ull});
        return s_.bits64();
    }
    double dbl() {
        switch (s_.below(10)) {
            case 0: return 0.0;
            case 1: return s_.pick<double>({1.0, -1.0, 0.5, 0.1, -2.25, 3.141592653589793, 1e100, -1e-100});
            case 2: return -0.0;
            case 3: return std::numeric_limits<double>::quiet_NaN();
            case 4: return s_.below(2) ? -INFINITY : INFINITY;
            case 5: return s_.pick<double>({5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 3.4028234663852886e38, 3.5e38, 1.1754943508222875e-38, 65504.0, 65520.0, 6e-8});
            case 6: return static_cast<double>(i64());
            case 7: return static_cast<double>(static_cast<float>(static_cast<double>(i64()) / 3));
            case 8: { u64 b = s_.bits64(); if (((b >> 52) & 0x7ff) == 0x7ff) b |= u64(1) << 51; double d; std::memcpy(&d, &b, 8); return d; }
            default: { u64 b = 0x7ff8000000000000ull | s_.below(1 << 20); double d; std::memcpy(&d, &b, 8); return d; }
        }
    }
    std::string key() {
        std::string k;
        switch (s_.below(8)) {
            case 0: k = std::string(1, static_cast<char>('a' + s_.below(26))); break;
            case 1: case 2: k = bytes(1 + s_.below(12), true); break;
            case 3: k = content(true); break;
            case 4: k = s_.pick<const char*>({"key", "keys", "ke", "k", "name", "value", "id", "\xff", "\x7f", "\x80", "ab", "aB"}); break;
            case 5: k = ""; break;
            default: k = "k" + std::to_string(s_.below(12)); break;
        }
        if (k.size() > 65535) k.resize(65535);
        if (!o_.nul_keys) for (char& c : k) if (c == '\0') c = '0';
        return k;
    }
private:
    using HarnessGuard = heap::HarnessScope;
    Sim& s_; GenOpt o_; int left_;
    std::string last_;

    std::size_t count(bool root) {
        const u64 r = s_.below(64);
        if (r < 30) return root ? 1 + s_.below(5) : s_.below(4);
        if (r < 48) return s_.below(8);
        if (r < 58) return s_.pick<std::size_t>({14, 15, 16, 17, 23, 24, 25, 31, 32, 33});
        if (r < 62) return s_.pick<std::size_t>({63, 64, 65, 127, 128, 255, 256, 257, 300});
        if (!o_.big || !o_.big_counts || s_.below(8) != 7) return 40;
        return s_.pick<std::size_t>({65535, 65536, 4000});
    }
    MV scalar() {
        MV v;
        switch (s_.below(12)) {
            case 0: v = MV::null(); break;
            case 1: v = MV::boolean(s_.below(2)); break;
            case 2: case 3: case 4: v = MV::integer(i64()); break;
            case 5: case 6: v = MV::uinteger(u64v()); break;
            case 7: v = MV::real(dbl()); break;
            case 8: case 9: case 10: v = MV::str(content(true)); break;
            default: v = MV::blob(content(false)); break;
        }
        if (o_.styles) { v.prim = static_cast<std::uint8_t>(s_.below(4)); v.style = s_.pick<std::uint8_t>({SDirect, SDirect, SDirect, SDyn, SDynSer, SUserNest}); }
        return v;
    }
    MV node(int depth, bool root) {
        --left_;
        u64 r = s_.below(16);
        const bool deep = depth >= o_.max_depth || left_ <= 0;
        if (root) r = r < 2 ? 0 : r < 3 ? 9 : r < 9 ? 10 : 13;
        if (deep || r < 9) return scalar();
        if (o_.styles && r == 9 && s_.below(2)) return s_.below(3) ? tensor() : plain();
        return r < 12 ? array(depth, root) : map(depth, root);
    }
    // Changes one leaf a little, leaving alone what is handed over in a fixed C++ type.
    void twist(MV& v) {
        if (v.style == STyped || v.style == SPlain || v.style == STensor) return;
        switch (v.k) {
            case K::Null: break;
            case K::Bool: v.b = !v.b; break;
            case K::Int: case K::UInt: { MV n = v.k == K::Int ? MV::integer(static_cast<std::int64_t>(static_cast<u64>(v.i) ^ 1)) : MV::uinteger(v.u ^ 1); n.prim = v.prim; n.style = v.style; v = std::move(n); break; }
            case K::Float: v.d = -v.d; break;
            case K::Str: case K::Blob: if (!v.s.empty()) v.s.back() = static_cast<char>(v.s.back() ^ 1); break;
            case K::Arr: if (!v.a.empty()) twist(v.a[s_.below(v.a.size())]); break;
            case K::Map: if (!v.m.empty()) twist(v.m[s_.below(v.m.size())].second); break;
        }
    }
    // A child, now and then (nearly) the same as the one before it.
    MV child(const MV* prev, int depth) {
        if (!prev || s_.below(8) != 7 || prev->nodes() > 64) return node(depth, false);
        MV c = *prev;
        left_ -= static_cast<int>(c.nodes());
        if (s_.below(2)) twist(c);
        return c;
    }
    MV array(int depth, bool root) {
        MV v = MV::arr();
        std::size_t n = count(root);
        const bool typed = s_.below(4) == 3 || n > 40;
        if (o_.styles) v.style = s_.pick<std::uint8_t>({SDirect, SDirect, SVector, SList, SBuilder, SStdArray, SDyn, SDynSer, SUserNest});
        if (typed) {   // one kind throughout
            if (o_.styles && s_.below(2)) v.style = STyped;
            const u64 kind = s_.below(9);
            if (kind > 5 && s_.below(8) == 7) n = s_.pick<std::size_t>({999, 1000, 1001, 1002, 1030, 2100});   // many containers side by side
            const u64 seed = s_.below(1 << 12);
            if (v.style == STyped) { v.prim = static_cast<std::uint8_t>(s_.below(16)); if ((v.prim & 3) == 2) n = 5; }
            const unsigned bits = v.style == STyped ? 8u << (v.prim >> 2) : 64;   // what the element type can carry
            for (std::size_t i = 0; i < n; ++i) {
                const u64 x = mix(seed * 7919 + i);
                switch (kind) {
                    case 0: v.a.push_back(MV::integer(static_cast<std::int64_t>(x) >> (64 - bits + x % bits))); break;
                    case 1: v.a.push_back(MV::uinteger(x >> (64 - bits + x % bits))); break;
                    case 2: { const double d = static_cast<double>(static_cast<std::int64_t>(x)) / 1024.0; v.a.push_back(MV::real(bits < 32 ? static_cast<double>(static_cast<float>(d)) : d)); break; }
                    case 3: v.a.push_back(MV::boolean(x & 1)); break;
                    case 4: v.a.push_back(MV::str(std::string(x % 20, static_cast<char>('a' + x % 26)))); break;
                    case 5: v.a.push_back(MV::null()); break;
                    case 6: { MV c = MV::arr(); if (x & 1) c.a.push_back(MV::uinteger(i)); v.a.push_back(std::move(c)); break; }
                    case 7: { MV c = MV::map(); if (x & 3) c.m.emplace_back("k", MV::integer(static_cast<std::int64_t>(i))); v.a.push_back(std::move(c)); break; }
                    default: v.a.push_back(MV::blob(std::string(x % 40, static_cast<char>(x)))); break;
                }
            }
            if (v.style == STyped && kind > 4) v.style = SVector;
            left_ -= static_cast<int>(std::min<std::size_t>(n, 64));
            return v;
        }
        if (v.style == SBuilder && n > 4) n = n % 5;
        if (v.style == SStdArray && n > 3) n = n % 4;
        for (std::size_t i = 0; i < n; ++i) v.a.push_back(child(i ? &v.a.back() : nullptr, depth + 1));
        return v;
    }
    // A tensor as the library writes one: [dtype, [dims...], bytes in row-major order].
    // prim: how it is held (0 row-major xarray, 1 column-major xarray, 2 view of a larger array, 3 Eigen column-major).
    MV tensor() {
        MV v = MV::arr();
        v.style = STensor;
        const int dt = s_.pick<int>({11, 2, 0, 10});
        const std::size_t esz = dt == 11 ? 8 : dt == 0 ? 1 : 4;
        v.prim = static_cast<std::uint8_t>(s_.below(4));
        MV dims = MV::arr();
        const std::size_t rank = v.prim == 3 ? 2 : v.prim == 2 ? 1 + s_.below(2) : s_.below(4);
        std::size_t n = 1;
        for (std::size_t i = 0; i < rank; ++i) {
            std::size_t d = s_.pick<std::size_t>({1, 2, 3, 4, 5, 0, 7, 17});
            if (v.prim == 2 && d == 0) d = 1;
            n *= d; dims.a.push_back(MV::uinteger(d));
        }
        std::string b(n * esz, '\0');
        const u64 seed = s_.below(1 << 12);
        for (std::size_t i = 0; i < b.size(); ++i) b[i] = static_cast<char>(mix(seed + i));
        if (dt >= 10) for (std::size_t i = 0; i < n; ++i) { const double x = static_cast<double>(static_cast<std::int64_t>(mix(seed + i))) / 4096; const float f = static_cast<float>(x); if (dt == 11) std::memcpy(&b[i * 8], &x, 8); else std::memcpy(&b[i * 4], &f, 4); }
        v.a.push_back(MV::integer(dt)); v.a.push_back(std::move(dims)); v.a.push_back(MV::blob(std::move(b)));
        left_ -= 4;
        return v;
    }
    // What emit_plain() hands over as builders of plain C++ values.
    MV plain() {
        MV v;
        const int form = static_cast<int>(s_.below(6));
        auto arr = [](std::vector<MV> x) { MV a = MV::arr(); a.a = std::move(x); return a; };
        auto map = [](std::vector<std::pair<std::string, MV>> x) { MV a = MV::map(); a.m = std::move(x); return a; };
        switch (form) {
            case 0: v = arr({MV::integer(i64()), MV::real(dbl()), MV::str(content(true)), MV::boolean(s_.below(2))}); break;
            case 1: v = map({{"id", MV::uinteger(u64v() & 0xffffffffu)}, {"name", MV::str(content(true))}}); break;
            case 2: v = arr({arr({MV::integer(static_cast<std::int16_t>(i64())), MV::real(static_cast<double>(static_cast<std::int32_t>(i64()) / 512))}), map({{"k", MV::uinteger(u64v())}}), MV::blob(content(false)), MV::null()});
                    v.a[0].a[1].d = static_cast<double>(static_cast<float>(v.a[0].a[1].d)); break;
            case 3: v = arr({MV::str("literal"), MV::str(""), MV::integer('c'), MV::boolean(true), MV::real(3.5), MV::integer(-7), MV::uinteger(7), MV::integer(40000000000ll)}); break;
            case 4: { MV l = MV::arr(); const std::size_t n = count(false); for (std::size_t i = 0; i < n && i < 300; ++i) l.a.push_back(MV::integer(static_cast<std::int32_t>(mix(i * 31 + n) >> (mix(i) % 31)) )); v = map({{"list", l}, {"deep", map({{"x", arr({arr({})})}, {"y", map({})}})}, {"nil", MV::null()}}); break; }
            default: v = arr({map({{"v", MV::integer(i64())}}), arr({MV::real(dbl()), MV::real(dbl())}), arr({MV::str(content(true))})}); break;
        }
        v.style = SPlain; v.prim = static_cast<std::uint8_t>(form);
        left_ -= 8;
        return v;
    }
    // One element type throughout: std::map<std::string, T> and the like.
    MV typed_map() {
        MV v = MV::map();
        v.style = STyped; v.prim = static_cast<std::uint8_t>(s_.below(2));
        const u64 kind = s_.below(6), n = 1 + s_.below(12);
        std::set<std::string> seen;
        for (u64 i = 0; i < n; ++i) {
            std::string k = key();
            if (!seen.insert(k).second) continue;
            MV x;
            switch (kind) {
                case 0: x = MV::integer(static_cast<std::int32_t>(i64())); break;
                case 1: { double d = dbl(); if (v.prim & 1) { if (std::isnan(d)) d = 1; d = static_cast<double>(static_cast<float>(d)); } x = MV::real(d); break; }
                case 2: x = MV::str(content(true)); break;
                case 3: x = MV::boolean(s_.below(2)); break;
                case 4: { x = MV::arr(); const u64 c = s_.below(5); for (u64 j = 0; j < c; ++j) x.a.push_back(MV::uinteger(u64v() & 0xffff)); break; }
                default: { x = MV::map(); const u64 c = s_.below(4); for (u64 j = 0; j < c; ++j) x.m.emplace_back("k" + std::to_string(j), MV::uinteger(u64v() & 0xff)); break; }
            }
            v.m.emplace_back(std::move(k), std::move(x));
        }
        left_ -= static_cast<int>(n);
        return v;
    }
    MV map(int depth, bool root) {
        if (o_.styles && s_.below(10) == 9) return typed_map();
        MV v = MV::map();
        std::size_t n = count(root);
        if (n > 300) n = s_.below(4) == 3 ? n : 300;
        else if (n > 40 && s_.below(8) == 7) n = s_.pick<std::size_t>({999, 1000, 1001, 1200});
        if (o_.styles) v.style = s_.pick<std::uint8_t>({SDirect, SDirect, SStdMap, SUnordered, SBuilder, SDyn, SDynSer, SUserNest});
        if (v.style == SBuilder) {
            v.prim = static_cast<std::uint8_t>(s_.below(ZKeySets));
            for (auto& k : zkeys(v.prim)) v.m.emplace_back(k, node(depth + 1, false));
            return v;
        }
        std::set<std::string> seen;
        const bool cheap = n > 40;
        const u64 seed = cheap ? s_.below(1 << 12) : 0;
        for (std::size_t i = 0; i < n; ++i) {
            std::string k = cheap ? "k" + std::to_string(mix(seed + i) % 1000000) : key();
            if (!seen.insert(k).second) continue;
            if (cheap) v.m.emplace_back(std::move(k), i % 3 == 0 ? MV::str(std::string(i % 16, 'v')) : MV::integer(static_cast<std::int64_t>(i) - 3));
            else { MV c = child(v.m.empty() ? nullptr : &v.m.back().second, depth + 1); v.m.emplace_back(std::move(k), std::move(c)); }
        }
        if (cheap) left_ -= 64;
        return v;
    }
};

// A chain of `depth` nested containers around a leaf.
inline MV nested(Sim& s, std::size_t depth, MV leaf) {
    heap::HarnessScope hs;
    const u64 mode = s.below(3);
    for (std::size_t i = 0; i < depth; ++i) {
        MV c;
        if (mode == 0 || (mode == 2 && i % 2)) { c = MV::arr(); c.a.push_back(std::move(leaf)); }
        else { c = MV::map(); c.m.emplace_back("n", std::move(leaf)); }
        leaf = std::move(c);
    }
    return leaf;
}

} // namespace sim
