// Full-walk oracle: a reader must answer every question about a value as the model does.
#pragma once
#include "model.hpp"
#include <set>
#include <zerialize/concepts.hpp>
#include <zerialize/errors.hpp>

namespace sim {

template<class P> struct Traits { static constexpr bool exact_sign = false; };   // keeps int64/uint64 apart

inline std::string at(const std::string& path, const char* call) { return path + "." + call; }

// Calls f; true if it threw DeserializationError. Anything else that escapes is a violation.
template<class F> bool throws_deser(const std::string& path, const char* call, F&& f) {
    try { f(); }
    catch (const zerialize::DeserializationError&) { return true; }
    catch (const Violation&) { throw; }
    catch (const std::exception& e) { VIOLATE("wrong-exception", at(path, call) + " threw another exception: " + e.what()); }
    return false;
}
template<class F> auto must(const std::string& path, const char* call, F&& f) -> decltype(f()) {
    try { return f(); }
    catch (const Violation&) { throw; }
    catch (const std::exception& e) { VIOLATE("refused", at(path, call) + " threw: " + e.what()); }
}
#define MUST(call_) must(path, #call_, [&] { return r.call_; })
#define MUST_THROW(call_) do { if (!throws_deser(path, #call_, [&] { (void)r.call_; })) VIOLATE("not-refused", at(path, #call_) + " returned, expected DeserializationError"); } while (0)

template<class To, class R, class F> void check_int(const R& r, const MV& v, const std::string& path, const char* name, bool required, F get) {
    (void)r;
    bool fits;
    if (v.negative()) fits = std::is_signed_v<To> && v.i >= static_cast<std::int64_t>(std::numeric_limits<To>::min());
    else fits = v.magnitude_bits() <= static_cast<std::uint64_t>(std::numeric_limits<To>::max());
    To got{};
    bool threw = throws_deser(path, name, [&] { got = get(); });
    if (!threw) {
        bool right;
        if constexpr (std::is_signed_v<To>) right = (got < 0) == v.negative() && static_cast<std::uint64_t>(static_cast<std::int64_t>(got)) == v.magnitude_bits();
        else right = !v.negative() && static_cast<std::uint64_t>(got) == v.magnitude_bits();
        if (!right) VIOLATE("wrong-number", at(path, name) + " gave another number for " + show(v));
    } else if (fits && required) VIOLATE("refused", at(path, name) + " threw for " + show(v));
}

struct VerifyOpt {
    bool exact_sign = false;      // Int stays int, UInt stays uint
    int deep_lookups = 8;         // sampled entries of large containers
    bool negative = true;         // also ask what must be refused
    bool narrow = true;           // also ask for integers in types they may not fit
    bool blob_is_array = false;   // blobs are carried as arrays (JSON)
};

template<class R> void verify(Sim& s, const R& r, const MV& v, const VerifyOpt& o, const std::string& path = "$") {
    // predicates
    const bool n = MUST(isNull()), b = MUST(isBool()), i = MUST(isInt()), u = MUST(isUInt()), f = MUST(isFloat()),
               st = MUST(isString()), bl = MUST(isBlob()), mp = MUST(isMap()), ar = MUST(isArray());
    auto want = [&](bool got, bool exp, const char* what) {
        if (got != exp) VIOLATE("wrong-kind", path + "." + what + " is " + (got ? "true" : "false") + " for a " + kname(v.k) + " " + show(v, 80));
    };
    want(n, v.k == K::Null, "isNull"); want(b, v.k == K::Bool, "isBool"); want(f, v.k == K::Float, "isFloat");
    want(st, v.k == K::Str, "isString"); want(bl, v.k == K::Blob, "isBlob"); want(mp, v.k == K::Map, "isMap"); want(ar, v.k == K::Arr || (v.k == K::Blob && o.blob_is_array), "isArray");
    if (v.is_integer()) {
        want(i || u, true, "isInt||isUInt");
        if (o.exact_sign) { want(i, v.k == K::Int, "isInt"); want(u, v.k == K::UInt, "isUInt"); }
        if (v.negative()) { want(i, true, "isInt"); want(u, false, "isUInt"); }
        if (!v.negative() && v.magnitude_bits() > static_cast<std::uint64_t>(INT64_MAX)) { want(u, true, "isUInt"); want(i, false, "isInt"); }
    } else { want(i, false, "isInt"); want(u, false, "isUInt"); }

    // accessors of the other kinds
    if (o.negative) {
        if (v.k != K::Bool) MUST_THROW(asBool());
        if (!v.is_integer()) { MUST_THROW(asInt64()); MUST_THROW(asUInt64()); MUST_THROW(asInt8()); MUST_THROW(asUInt16()); MUST_THROW(asInt32()); }
        if (v.k != K::Float) { MUST_THROW(asDouble()); MUST_THROW(asFloat()); }
        if (v.k != K::Str) { MUST_THROW(asString()); MUST_THROW(asStringView()); }
        if (v.k != K::Blob) MUST_THROW(asBlob());
        if (v.k != K::Arr && !(v.k == K::Blob && o.blob_is_array)) { MUST_THROW(arraySize()); MUST_THROW(operator[](std::size_t(0))); }
        if (v.k != K::Map) {
            MUST_THROW(mapKeys()); MUST_THROW(operator[](std::string_view("k")));
            if (MUST(contains("k"))) VIOLATE("wrong-lookup", path + ".contains is true on a " + kname(v.k));
        }
    }
    switch (v.k) {
        case K::Null: break;
        case K::Bool: if (MUST(asBool()) != v.b) VIOLATE("wrong-value", path + ".asBool"); break;
        case K::Int: case K::UInt:
            if (i || o.narrow) check_int<std::int64_t>(r, v, path, "asInt64", i, [&] { return r.asInt64(); });
            if (u || o.narrow) check_int<std::uint64_t>(r, v, path, "asUInt64", u, [&] { return r.asUInt64(); });
            if (!o.narrow) break;
            check_int<std::int32_t>(r, v, path, "asInt32", i, [&] { return r.asInt32(); });
            check_int<std::uint32_t>(r, v, path, "asUInt32", u, [&] { return r.asUInt32(); });
            check_int<std::int16_t>(r, v, path, "asInt16", i, [&] { return r.asInt16(); });
            check_int<std::uint16_t>(r, v, path, "asUInt16", u, [&] { return r.asUInt16(); });
            check_int<std::int8_t>(r, v, path, "asInt8", i, [&] { return r.asInt8(); });
            check_int<std::uint8_t>(r, v, path, "asUInt8", u, [&] { return r.asUInt8(); });
            break;
        case K::Float: {
            const double d = MUST(asDouble());
            if (dbits(d) != dbits(v.d)) VIOLATE("wrong-value", path + ".asDouble gave bits " + std::to_string(dbits(d)) + " for " + std::to_string(dbits(v.d)));
            const float g = MUST(asFloat()), e = static_cast<float>(v.d);
            if (std::memcmp(&g, &e, 4) != 0 && !(std::isnan(g) && std::isnan(e))) VIOLATE("wrong-value", path + ".asFloat");
            break;
        }
        case K::Str: {
            auto sv = MUST(asStringView());
            if (sv != std::string_view(v.s)) VIOLATE("wrong-value", path + ".asStringView gave " + hex(sv.data(), sv.size(), 24) + " for " + show(v, 80));
            auto ss = MUST(asString());
            if (std::string_view(ss) != std::string_view(v.s)) VIOLATE("wrong-value", path + ".asString");
            break;
        }
        case K::Blob: {
            auto bv = MUST(asBlob());
            if (std::size(bv) != v.s.size() || (v.s.size() && std::memcmp(std::data(bv), v.s.data(), v.s.size()) != 0))
                VIOLATE("wrong-value", path + ".asBlob gave " + std::to_string(std::size(bv)) + " bytes " + hex(std::data(bv), std::size(bv), 16) + " for " + show(v, 80));
            break;
        }
        case K::Arr: {
            const std::size_t cnt = MUST(arraySize());
            if (cnt != v.a.size()) VIOLATE("wrong-value", path + ".arraySize gave " + std::to_string(cnt) + " for " + std::to_string(v.a.size()));
            if (o.negative) for (std::size_t x : {cnt, cnt + 1, cnt + (std::size_t(1) << 32), (std::size_t(1) << 60), ~std::size_t(0), std::size_t(0) - cnt, cnt | (std::size_t(1) << 60)})
                if (x >= cnt) MUST_THROW(operator[](std::size_t(x)));
            const bool large = v.a.size() > 300;
            for (std::size_t k = 0; k < v.a.size(); ++k) {
                std::size_t q = k;
                if (large) {   // both ends, and a sample
                    if (k >= static_cast<std::size_t>(o.deep_lookups) + 4) break;
                    q = k == 0 ? 0 : k == 1 ? v.a.size() - 1 : k == 2 ? 255 : k == 3 ? 256 : static_cast<std::size_t>(mix(k + v.a.size()) % v.a.size());
                }
                std::string sub; { heap::HarnessScope hs; sub = path + "[" + std::to_string(q) + "]"; }
                auto e = MUST(operator[](std::size_t(q)));
                verify(s, e, v.a[q], o, sub);
            }
            break;
        }
        case K::Map: {
            std::vector<std::string> got;
            must(path, "mapKeys", [&] { for (auto k : r.mapKeys()) { heap::HarnessScope hs; got.emplace_back(k); if (got.size() > v.m.size() + 4) break; } return 0; });
            std::vector<std::string> exp;
            { heap::HarnessScope hs; for (auto& e : v.m) exp.push_back(e.first); std::sort(exp.begin(), exp.end()); std::sort(got.begin(), got.end()); }
            if (got != exp) VIOLATE("wrong-keys", path + ".mapKeys gave " + std::to_string(got.size()) + " keys, expected " + std::to_string(exp.size()) + " keys of " + show(v, 160));
            const bool large = v.m.size() > 300;
            for (std::size_t k = 0; k < v.m.size(); ++k) {
                std::size_t q = k;
                if (large) {
                    if (k >= static_cast<std::size_t>(o.deep_lookups) + 2) break;
                    q = k == 0 ? 0 : k == 1 ? v.m.size() - 1 : static_cast<std::size_t>(mix(k + v.m.size()) % v.m.size());
                }
                const std::string_view key = v.m[q].first;
                if (!MUST(contains(key))) VIOLATE("wrong-lookup", path + ".contains is false for key " + hex(key.data(), key.size(), 24));
                std::string sub; { heap::HarnessScope hs; sub = path + "{" + hex(key.data(), key.size(), 8) + "}"; }
                auto e = MUST(operator[](key));
                verify(s, e, v.m[q].second, o, sub);
            }
            if (o.negative) {
                std::set<std::string> absent;
                { heap::HarnessScope hs;
                  absent.insert("absent"); absent.insert("");
                  for (std::size_t k = 0; k < v.m.size() && k < 4; ++k) {
                      const auto& key = v.m[k].first;
                      absent.insert(key + "x"); absent.insert(key + std::string(1, '\0'));
                      if (!key.empty()) { absent.insert(key.substr(0, key.size() - 1)); auto t = key; t.back() = static_cast<char>(t.back() ^ 1); absent.insert(t); t = key; t[0] = static_cast<char>(t[0] ^ 0x20); absent.insert(t); }
                  }
                  for (auto& e : v.m) absent.erase(e.first); }
                for (auto& key : absent) {
                    if (MUST(contains(key))) VIOLATE("wrong-lookup", path + ".contains is true for absent key " + hex(key.data(), key.size(), 24));
                    MUST_THROW(operator[](std::string_view(key)));
                }
            }
            break;
        }
    }
}

// Reads a whole value back through the reader (no expectation), for comparing with a model.
// lax: a value of none of the kinds counts as refused.
template<class R> MV read_back(const R& r, int depth = 0, bool lax = false) {
    MV v;
    if (depth > 1200 && lax) throw zerialize::DeserializationError("too deep to walk");
    if (depth > 1200) VIOLATE("harness", "read_back too deep");
    if (r.isNull()) return v;
    if (r.isBool()) { v = MV::boolean(r.asBool()); return v; }
    if (r.isInt()) { v = MV::integer(r.asInt64()); return v; }
    if (r.isUInt()) { v = MV::uinteger(r.asUInt64()); return v; }
    if (r.isFloat()) { v = MV::real(r.asDouble()); return v; }
    if (r.isString()) { auto sv = r.asStringView(); heap::HarnessScope hs; v = MV::str(std::string(sv)); return v; }
    if (r.isBlob()) { auto b = r.asBlob(); heap::HarnessScope hs; v = MV::blob(std::string(reinterpret_cast<const char*>(std::data(b)), std::size(b))); return v; }
    if (r.isArray()) {
        { heap::HarnessScope hs; v = MV::arr(); }
        const std::size_t n = r.arraySize();
        for (std::size_t i = 0; i < n; ++i) { MV c = read_back(r[i], depth + 1, lax); heap::HarnessScope hs; v.a.push_back(std::move(c)); }
        return v;
    }
    if (r.isMap()) {
        { heap::HarnessScope hs; v = MV::map(); }
        for (std::string_view k : r.mapKeys()) { MV c = read_back(r[k], depth + 1, lax); heap::HarnessScope hs; v.m.emplace_back(std::string(k), std::move(c)); }
        return v;
    }
    if (lax) throw zerialize::DeserializationError("a value of no kind");
    VIOLATE("wrong-kind", "a value of no kind");
}

// As same(), but any NaN equals any NaN (a reader that widens a float may quiet it).
inline bool same_loose(const MV& x, const MV& y) {
    if (x.k == K::Float && y.k == K::Float) return dbits(x.d) == dbits(y.d) || (std::isnan(x.d) && std::isnan(y.d));
    if (x.k == K::Arr && y.k == K::Arr) {
        if (x.a.size() != y.a.size()) return false;
        for (std::size_t i = 0; i < x.a.size(); ++i) if (!same_loose(x.a[i], y.a[i])) return false;
        return true;
    }
    if (x.k == K::Map && y.k == K::Map) {
        if (x.m.size() != y.m.size()) return false;
        std::vector<const std::pair<std::string, MV>*> p, q;
        for (auto& e : x.m) p.push_back(&e);
        for (auto& e : y.m) q.push_back(&e);
        auto lt = [](auto* l, auto* r) { return l->first < r->first; };
        std::stable_sort(p.begin(), p.end(), lt); std::stable_sort(q.begin(), q.end(), lt);
        for (std::size_t i = 0; i < p.size(); ++i) if (p[i]->first != q[i]->first || !same_loose(p[i]->second, q[i]->second)) return false;
        return true;
    }
    return same(x, y);
}

} // namespace sim
