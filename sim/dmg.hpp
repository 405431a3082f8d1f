// C01-C03: damaged messages are contained. Programs of reading calls over a message that is
// damaged before it is opened and between calls, compared with an independent decoder.
#pragma once
#include "protocols.hpp"
#include "ref.hpp"
#include "enc.hpp"

namespace dmg {
using namespace sim;
using sim::ref::Sure;
using sim::ref::Cur;

template<class P> struct Fmt;   // Ref, foreign(), kind of byte order, aim()

struct Ctx {
    Sim& s;
    std::uint8_t* p; std::size_t n;       // the message
    const MV* hint;                       // the value it was written from: keys to ask for
    bool whole = false;                   // valid as a whole now
    u64 epoch = 0;                        // counts damage done after opening
    int left = 0;                         // calls left in the program
    bool may_damage = false;
    u64 harm = 0;                         // kinds of damage done so far
    bool huge = false;                    // nested far too deep for the reference to walk
    std::string original;
};

// ------------------------------------------------------------------ damage
inline u64 boundary(Sim& s, std::size_t n) {
    switch (s.below(10)) {
        case 0: return 0;
        case 1: return s.below(40);
        case 2: return n - std::min<u64>(n, s.below(20));
        case 3: return n + s.below(20);
        case 4: return 0xffffffffull - s.below(40);
        case 5: return 0x80000000ull - s.below(3);
        case 6: return 0x7fffffffffffffffull + s.below(3);
        case 7: return ~0ull - s.below(40);
        case 8: return 0x10000000ull + s.below(3);      // * 16 wraps 32 bits
        default: return s.below(1 << 16);
    }
}
// One act of damage to bytes [0, n) in place; aim(): a position worth hitting.
template<class Aim> u64 damage_in_place(Sim& s, std::uint8_t* p, std::size_t n, bool big_endian, Aim&& aim) {
    if (n == 0) return 0;
    const std::size_t at = s.below(3) ? aim() % n : s.below(n);
    auto put = [&](u64 v, std::size_t w) { for (std::size_t i = 0; i < w && at + i < n; ++i) p[at + i] = static_cast<std::uint8_t>(v >> (8 * (big_endian ? w - 1 - i : i))); };
    const u64 kind = s.below(9);
    switch (kind) {
        case 0: p[at] ^= static_cast<std::uint8_t>(1u << s.below(8)); count_dyn("fault.bit_flip"); break;
        case 1: p[at] = static_cast<std::uint8_t>(s.below(256)); count_dyn("fault.byte_overwritten"); break;
        case 2: p[at] = s.pick<std::uint8_t>({0, 0xff, 0x7f, 0x80, 0x1f, 0xfe, 0x01, 0xc1}); count_dyn("fault.byte_overwritten"); break;
        case 3: put(boundary(s, n), 4); count_dyn("fault.field_overwritten"); break;
        case 4: put(boundary(s, n), s.pick<std::size_t>({2, 8})); count_dyn("fault.field_overwritten"); break;
        case 5: { const std::size_t len = std::min<std::size_t>(n - at, 1 + s.below(48)); std::memset(p + at, s.below(2) ? 0 : 0xff, len); count_dyn("fault.stuck_range"); break; }
        case 6: { const std::size_t from = s.below(n), len = std::min({n - at, n - from, std::size_t(1 + s.below(40))}); std::memmove(p + at, p + from, len); count_dyn("fault.misdirected_write"); break; }
        case 7: { u64 v = 0; for (std::size_t i = 0; i < 4 && at + i < n; ++i) v |= u64(p[at + i]) << (8 * (big_endian ? 3 - i : i)); v += s.below(33); v -= 16; put(v, 4); count_dyn("fault.field_shifted"); break; }
        default: p[at] = static_cast<std::uint8_t>(p[at] + 1 + s.below(3)); count_dyn("fault.byte_incremented"); break;
    }
    return u64(1) << kind;
}

// ------------------------------------------------------------------ comparing calls
inline bool threw(const char* what, bool& other, std::string& why) { (void)what; (void)other; (void)why; return false; }

// Runs f in the library; 0 returned, 1 DeserializationError. Another exception is a violation.
template<class F> int call(const char* name, F&& f) {
    try { heap::LibScope ls; f(); return 0; }
    catch (const zerialize::DeserializationError&) { return 1; }
    catch (const Violation&) { throw; }
    catch (const std::exception& e) { VIOLATE("wrong-exception", std::string(name) + " threw " + e.what()); }
}
struct At { Ctx& x; u64 born; bool sure() const { return x.whole && born == x.epoch; } };

inline void judge(const At& a, const char* name, int rc, Sure s, bool right) {
    a.x.s.ev(name, static_cast<u64>(rc), static_cast<u64>(s));
    a.x.s.state(mix(mix(fnv(name) ^ a.x.harm) + static_cast<u64>(rc) * 16 + static_cast<u64>(s) * 4 + a.sure() * 2));
    if (rc == 0) {
        if (s == ref::No) VIOLATE("not-refused", std::string(name) + " answered although the bytes it needs are invalid or say otherwise");
        if (!right) VIOLATE("wrong-value", std::string(name) + " gave another value than the bytes mean");
        SIM_COUNT("probe.answered");
    } else {
        if (s == ref::Yes && a.sure()) VIOLATE("refused", std::string(name) + " refused a valid message");
        SIM_COUNT("probe.refused");
    }
}
inline bool same_real(double a, double b) { return dbits(a) == dbits(b) || (std::isnan(a) && std::isnan(b)); }

template<class To, class F> void integer(const At& a, const char* name, const ref::Ans<MV>& num, bool cls_known, bool cls, F get) {
    To got{};
    const int rc = call(name, [&] { got = get(); });
    Sure s = num.s;
    bool right = true;
    if (s != ref::No) {
        const MV& v = num.v;
        bool fits;
        if (v.negative()) fits = std::is_signed_v<To> && v.i >= static_cast<std::int64_t>(std::numeric_limits<To>::min());
        else fits = v.magnitude_bits() <= static_cast<u64>(std::numeric_limits<To>::max());
        if (!fits) s = ref::No;
        else {
            if (!(cls_known && cls)) s = ref::both(s, ref::Either);   // the other sign class may refuse
            if constexpr (std::is_signed_v<To>) right = (got < 0) == v.negative() && static_cast<u64>(static_cast<std::int64_t>(got)) == v.magnitude_bits();
            else right = static_cast<u64>(got) == v.magnitude_bits();
        }
    }
    judge(a, name, rc, s, right);
}

template<class Ref, class R> void scalars(const At& a, const Ref& f, Cur c, const R& r) {
    const auto k = f.kind(c);
    bool isI = false, isU = false, knownI = false, knownU = false;
    auto pred = [&](const char* name, int kk, auto get) {
        bool got = false;
        const int rc = call(name, [&] { got = get(); });
        a.x.s.ev(name, static_cast<u64>(rc), got);
        if (rc) { if (k.s == ref::Yes && a.sure()) VIOLATE("refused", std::string(name) + " refused a valid message"); return; }
        const bool integer = k.v == int(K::Int) || k.v == int(K::UInt);
        bool may, mustbe;
        if (kk == int(K::Int) || kk == int(K::UInt)) {
            may = integer; mustbe = false;
            if (integer) { auto num = f.number(c); if (num.s != ref::No) {
                if (kk == int(K::Int)) { if (!num.v.negative() && num.v.magnitude_bits() > u64(INT64_MAX)) may = false; if (num.v.negative()) mustbe = true; }
                else { if (num.v.negative()) may = false; if (num.v.magnitude_bits() > u64(INT64_MAX) && !num.v.negative()) mustbe = true; } } }
            if (kk == int(K::Int)) { isI = got; knownI = true; } else { isU = got; knownU = true; }
        } else { may = k.v == kk; mustbe = may; }
        if (got && !may) VIOLATE("wrong-kind", std::string(name) + " is true for bytes that are not one");
        if (!got && mustbe && k.s == ref::Yes) VIOLATE("wrong-kind", std::string(name) + " is false for bytes that are one");
    };
    pred("isNull", int(K::Null), [&] { return r.isNull(); });
    pred("isBool", int(K::Bool), [&] { return r.isBool(); });
    pred("isInt", int(K::Int), [&] { return r.isInt(); });
    pred("isUInt", int(K::UInt), [&] { return r.isUInt(); });
    pred("isFloat", int(K::Float), [&] { return r.isFloat(); });
    pred("isString", int(K::Str), [&] { return r.isString(); });
    pred("isBlob", int(K::Blob), [&] { return r.isBlob(); });
    pred("isArray", int(K::Arr), [&] { return r.isArray(); });
    pred("isMap", int(K::Map), [&] { return r.isMap(); });
    if (k.s == ref::Yes && (k.v == int(K::Int) || k.v == int(K::UInt)) && knownI && knownU && !isI && !isU) VIOLATE("wrong-kind", "an integer is neither isInt nor isUInt");
    { bool v = false; const int rc = call("asBool", [&] { v = r.asBool(); }); const auto e = f.boolean(c); judge(a, "asBool", rc, e.s, v == e.v); }
    const auto num = f.number(c);
    integer<std::int64_t>(a, "asInt64", num, knownI, isI, [&] { return r.asInt64(); });
    integer<std::uint64_t>(a, "asUInt64", num, knownU, isU, [&] { return r.asUInt64(); });
    integer<std::int32_t>(a, "asInt32", num, knownI, isI, [&] { return r.asInt32(); });
    integer<std::uint16_t>(a, "asUInt16", num, knownU, isU, [&] { return r.asUInt16(); });
    integer<std::int8_t>(a, "asInt8", num, knownI, isI, [&] { return r.asInt8(); });
    integer<std::int16_t>(a, "asInt16", num, knownI, isI, [&] { return r.asInt16(); });
    integer<std::uint32_t>(a, "asUInt32", num, knownU, isU, [&] { return r.asUInt32(); });
    integer<std::uint8_t>(a, "asUInt8", num, knownU, isU, [&] { return r.asUInt8(); });
    { double v = 0; const int rc = call("asDouble", [&] { v = r.asDouble(); }); const auto e = f.real(c); judge(a, "asDouble", rc, e.s, same_real(v, e.v)); }
    { float v = 0; const int rc = call("asFloat", [&] { v = r.asFloat(); }); const auto e = f.real(c); judge(a, "asFloat", rc, e.s, same_real(v, static_cast<float>(e.v))); }
}
template<class Ref, class R> void texts(const At& a, const Ref& f, Cur c, const R& r) {
    const auto t = f.text(c);
    { std::string_view v; bool eq = false; const int rc = call("asStringView", [&] { v = r.asStringView(); eq = v == t.v; }); judge(a, "asStringView", rc, t.s, eq); }
    { bool eq = false; const int rc = call("asString", [&] { auto v = r.asString(); eq = std::string_view(v) == t.v; }); judge(a, "asString", rc, t.s, eq); }
    const auto b = f.blob(c);
    { bool eq = false; const int rc = call("asBlob", [&] { auto v = r.asBlob(); eq = std::size(v) == b.v.size() && (b.v.empty() || std::memcmp(std::data(v), b.v.data(), b.v.size()) == 0); }); judge(a, "asBlob", rc, b.s, eq); }
    if constexpr (requires { r.asBlobVec(); }) { bool eq = false; const int rc = call("asBlobVec", [&] { auto v = r.asBlobVec(); eq = v.size() == b.v.size() && (b.v.empty() || std::memcmp(v.data(), b.v.data(), b.v.size()) == 0); }); judge(a, "asBlobVec", rc, b.s, eq); }
}
template<class Ref, class R> void key_list(const At& a, const Ref& f, Cur c, const R& r) {
    auto e = ref::keys(f, c);
    std::size_t i = 0; bool right = true;
    const int rc = call("mapKeys", [&] {
        for (std::string_view k : r.mapKeys()) {
            if (i >= e.k.size() || k != e.k[i]) right = false;
            ++i;
            if (i > e.k.size() + 8) break;
        }
    });
    // a key that was handed out is a key of the message, whatever comes later
    if (!right) VIOLATE("wrong-value", "mapKeys gave a key that is not there");
    if (rc == 0 && e.s != ref::No && i != e.k.size()) right = false;
    judge(a, "mapKeys", rc, e.s, right);
}

template<class Ref, class R> void tensors(const At& a, const Ref& f, Cur c, const R& r) {
    // [dtype, shape, blob] by the reference
    ref::Budget b; b.nodes = 300;
    Sure s = ref::No;
    std::vector<u64> shape; std::string bits;
    auto n = f.count(c);
    if (n.s != ref::No && n.v >= 3) {
        auto e0 = f.elem(c, 0), e1 = f.elem(c, 1), e2 = f.elem(c, 2);
        if (e0.s && e1.s && e2.s) {
            auto dt = f.number(e0.v); auto bl = f.blob(e2.v); auto sh = ref::value(f, e1.v, b);
            if (dt.s && bl.s && sh.s && sh.v.k == K::Arr && !b.over && dt.v.magnitude_bits() == 11 && !dt.v.negative()) {
                bool ok = true; unsigned __int128 prod = 1; bool zero = false;
                for (auto& d : sh.v.a) { if (!d.is_integer() || d.negative() || d.magnitude_bits() > 0xffffffffull) { ok = false; break; } shape.push_back(d.magnitude_bits()); if (!d.magnitude_bits()) zero = true; if (prod < ((unsigned __int128)1 << 90)) prod *= d.magnitude_bits(); }
                if (zero) prod = 0;
                if (ok && prod * 8 == bl.v.size()) { s = ref::Either; bits = bl.v; if (dt.v.k == K::Int && n.v == 3 && shape.size() < 5 && !zero) s = ref::both(ref::both(n.s, dt.s), ref::both(bl.s, sh.s)); }
            }
        }
    }
    bool right = false;
    const int rc = call("asXTensor", [&] {
        auto t = zerialize::xtensor::asXTensor<double>(r);
        right = t.shape().size() == shape.size() && t.size() * 8 == bits.size() && (bits.empty() || std::memcmp(t.data(), bits.data(), bits.size()) == 0);
        for (std::size_t i = 0; i < shape.size() && right; ++i) right = t.shape()[i] == shape[i];
    });
    judge(a, "asXTensor", rc, s, right);
}

template<class P, class Ref, class R> void whole_reads(const At& a, const Ref& f, Cur c, const R& r, int which) {
    ref::Budget b; b.nodes = 4000;
    ref::Ans<MV> e;
    if (a.x.huge) { e.s = ref::Either; b.over = true; } else e = ref::value(f, c, b);
    if (b.over && b.nodes == 0) return;
    const bool deep = b.over || b.max_depth >= 990;
    if (which == 0) {   // printing: no expectation on the text, only containment
        const int rc = call("to_string", [&] { auto t = r.to_string(); (void)t; });
        a.x.s.ev("to_string", static_cast<u64>(rc));
        if (rc && e.s == ref::Yes && a.sure() && !deep) VIOLATE("refused", "to_string refused a valid message");
        return;
    }
    if (which == 1) {
        if (deep) return;
        MV got; bool eq = false;
        const int rc = call("walk", [&] { got = read_back(r, 0, true); heap::HarnessScope hs; eq = same_loose(got, e.v); });
        if (rc == 0 && e.s != ref::No && !eq) VIOLATE("wrong-value", "a full walk gave " + show(got, 300) + " for " + show(e.v, 300));
        if (rc && e.s == ref::Yes && a.sure()) VIOLATE("refused", "a full walk of a valid message was refused");
        a.x.s.ev("walk", static_cast<u64>(rc), static_cast<u64>(e.s));
        return;
    }
    const int q = static_cast<int>(a.x.s.below(NProto));
    if (q == 2 && (b.dup || b.nul)) return;     // not representable in Flex
    with_protocol(q, [&](auto t) {
        using Q = typename decltype(t)::type;
        int rc = 0; MV got; bool opened = false;
        const bool check_alloc = true;
        heap::clear_largest();
        try { heap::LibScope ls; auto d = zerialize::translate<Q>(r); opened = true; got = read_back(d); }
        catch (const Violation&) { throw; }
        catch (const std::exception& ex) { rc = 1; if (opened) VIOLATE("wrong-value", std::string("a translated message cannot be read: ") + ex.what()); }
        a.x.s.ev("translate", static_cast<u64>(rc), static_cast<u64>(q));
        if (check_alloc && !b.over && heap::largest_request() > 80 * (a.x.n + b.size) + 65536) VIOLATE("allocation", "translating a message of " + std::to_string(a.x.n) + " bytes asked for " + std::to_string(heap::largest_request()) + " bytes at once");
        if (rc == 0 && e.s == ref::No && !b.over) VIOLATE("not-refused", "translate accepted a message that is invalid");
        if (rc == 0 && e.s != ref::No && !b.over && !same_loose(got, e.v)) VIOLATE("wrong-value", "translate gave " + show(got, 300) + " for " + show(e.v, 300));
        if (rc && e.s == ref::Yes && a.sure() && !deep) VIOLATE("refused", "translate refused a valid message");
        heap::HarnessScope hs; MV dead = std::move(got);
    });
}

template<class Ref> std::string draw_key(Ctx& x, const Ref& f, Cur c) {
    auto& s = x.s;
    auto k = ref::keys(f, c);
    const u64 m = s.below(9);
    if (m == 8 || (m > 2 && k.s == ref::No)) {   // the name a key that runs past its place would have
        std::string cut = f.cut_key(c);
        if (!cut.empty()) { SIM_COUNT("probe.cut_key_asked"); return cut; }
    }
    if (m < 5 && !k.k.empty()) return k.k[s.below(k.k.size())];
    if (m == 5 && x.hint && x.hint->k == K::Map && !x.hint->m.empty()) return x.hint->m[s.below(x.hint->m.size())].first;
    if (m == 6) return "";
    return k.k.empty() ? "k" : k.k[0] + "x";
}

template<class P, class R> void visit(Ctx& x, typename Fmt<P>::Ref& f, Cur c, const R& r, int depth, u64 born);

template<class P, class R> void one_call(Ctx& x, typename Fmt<P>::Ref& f, Cur c, const R& r, int depth, u64 born) {
    auto& s = x.s;
    const At a{x, born};
    s.state(mix(static_cast<u64>(f.kind(c).v + 1) * 64 + x.whole * 2 + (born != x.epoch)));
    switch (s.below(12)) {
        case 0: scalars(a, f, c, r); break;
        case 1: texts(a, f, c, r); break;
        case 2: key_list(a, f, c, r); break;
        case 3: {
            u64 v = 0; const auto e = f.count(c); const int rc = call("arraySize", [&] { v = r.arraySize(); }); judge(a, "arraySize", rc, e.s, v == e.v);
            break;
        }
        case 4: {   // lookups
            const std::string key = draw_key(x, f, c);
            const auto e = ref::find(f, c, key);
            bool v = false; const int rc = call("contains", [&] { v = r.contains(key); });
            const int k = f.kind(c).v;
            if (!f.is_map(c)) judge(a, "contains", rc, k == ref::Other || f.kind(c).s != ref::Yes ? ref::Either : ref::Yes, v == false);
            else if (e.s != ref::No) judge(a, "contains", rc, e.s, v == true);
            else if (e.key_only) judge(a, "contains", rc, ref::Either, v == true);   // the key is there, its value is cut off
            else if (e.absent) judge(a, "contains", rc, ref::both(ref::Yes, ref::keys(f, c).s == ref::Yes ? ref::Yes : ref::Either), v == false);
            else judge(a, "contains", rc, ref::No, true);
            break;
        }
        case 5: tensors(a, f, c, r); break;
        case 6: whole_reads<P>(a, f, c, r, static_cast<int>(s.below(2))); break;
        case 7: if (s.below(2)) whole_reads<P>(a, f, c, r, 2); break;
        case 8: case 9: {   // descend by index
            const auto cnt = f.count(c);
            u64 i = s.below(8);
            if (cnt.s != ref::No && cnt.v) i = s.below(4) == 3 ? cnt.v + s.below(3) - 1 : s.below(cnt.v);
            else if (s.below(2)) i = s.below(3);
            if (s.below(12) == 11) i = s.pick<u64>({~0ull, 1ull << 60, 1ull << 28, (1ull << 28) + i, (1ull << 60) + i, 1ull << 32});
            const auto e = f.elem(c, i);
            int rc = 0;
            using E = std::decay_t<decltype(r[std::size_t(0)])>;
            std::optional<E> child;
            rc = call("element", [&] { child.emplace(r[static_cast<std::size_t>(i)]); });
            judge(a, "element", rc, e.s, true);
            if (child) visit<P>(x, f, e.v, *child, depth + 1, x.epoch);
            { heap::LibScope ls; child.reset(); }
            break;
        }
        case 10: {   // descend by key
            const std::string key = draw_key(x, f, c);
            const auto e = ref::find(f, c, key);
            using E = std::decay_t<decltype(r[std::string_view()])>;
            std::optional<E> child;
            const int rc = call("lookup", [&] { child.emplace(r[std::string_view(key)]); });
            judge(a, "lookup", rc, e.s, true);
            if (child) visit<P>(x, f, e.v, *child, depth + 1, x.epoch);
            { heap::LibScope ls; child.reset(); }
            break;
        }
        default:
            if (x.may_damage && s.below(2)) {   // the stored bytes change under the reader
                x.harm |= damage_in_place(s, x.p, x.n, Fmt<P>::big_endian, [&] { return Fmt<P>::aim(s, f, c); });
                ++x.epoch; x.whole = !x.huge && ref::whole<typename Fmt<P>::Ref>(x.p, x.n);
                count_dyn("fault.damage_between_calls");
                s.ev("damage", hash_bytes(x.p, x.n));
            }
            break;
    }
}
template<class P, class R> void visit(Ctx& x, typename Fmt<P>::Ref& f, Cur c, const R& r, int depth, u64 born) {
    if (depth > 40) return;
    const u64 n = depth == 0 ? 3 + x.s.below(8) : 1 + x.s.below(3);
    for (u64 i = 0; i < n && x.left > 0; ++i) { --x.left; one_call<P>(x, f, c, r, depth, born); }
}

// A message nested deep, built directly.
template<class P> std::string deep(Sim& s, bool& huge) {
    const std::size_t d = s.pick<std::size_t>({900, 1001, 1500, 2500, 30000, 100000});
    huge = d > 2500;
    return Fmt<P>::nested(s, d);
}

template<class P> void run(Sim& s) {
    using Ref = typename Fmt<P>::Ref;
    heap::reset(s.below(2));
    s.nontrivial();
    std::uint8_t* slot = nullptr; std::size_t slot_n = 0;
    const int rounds = 1 + static_cast<int>(s.below(3));
    MV v; std::string msg; bool huge = false;
    for (int round = 0; round < rounds; ++round) {
        const u64 live = heap::live_blocks();
        const bool again = round > 0 && s.below(2);       // the same buffer is filled with something else
        if (!again) {
            GenOpt o; o.budget = 4 + static_cast<int>(s.below(16)); o.big = false; o.nul_keys = false;
            v = Gen(s, o).value();
            huge = false;
            const u64 src = s.below(8);
            if (src == 7 && s.below(40) == 39) msg = deep<P>(s, huge);
            else if (src >= 4) msg = Fmt<P>::foreign(s, v, s.below(4) == 3);
            else msg = encode_bytes<P>(v);
            if (s.tracing()) s.note(show(v));
        }
        std::string bytes = msg;
        // damage on the way here
        u64 kinds = 0;
        const u64 harm = s.below(8);
        if (harm >= 1) {
            const int acts = 1 + static_cast<int>(s.below(harm < 5 ? 2 : 5));
            for (int i = 0; i < acts; ++i) switch (s.below(12)) {
                case 0: if (!bytes.empty()) { bytes.resize(s.below(3) ? bytes.size() - 1 - s.below(std::min<std::size_t>(bytes.size(), 24)) : s.below(bytes.size())); } count_dyn("fault.truncated"); kinds |= u64(1) << 10; break;
                case 1: bytes.append(1 + s.below(40), static_cast<char>(s.pick<int>({0, 0xff, 0x91, 0x81, 0xc0, 0x9f}))); count_dyn("fault.extended"); kinds |= u64(1) << 11; break;
                case 2: { MV w = Gen(s, {8, 3, false, false, false}).value(); std::string o = encode_bytes<P>(w); if (!o.empty() && !bytes.empty()) { const std::size_t cut = s.below(bytes.size()), from = s.below(o.size()); bytes = bytes.substr(0, cut) + o.substr(from); } count_dyn("fault.spliced"); kinds |= u64(1) << 12; break; }
                default: {
                    Ref f(reinterpret_cast<const std::uint8_t*>(bytes.data()), bytes.size());
                    const bool ok = f.open() == ref::Yes;
                    kinds |= damage_in_place(s, reinterpret_cast<std::uint8_t*>(bytes.data()), bytes.size(), Fmt<P>::big_endian, [&]() -> u64 { return ok ? Fmt<P>::aim(s, f, f.root()) : s.below(40); });
                }
            }
        }
        if (again && slot && bytes.size() > slot_n) bytes.resize(slot_n);
        if (slot && !(again && bytes.size() == slot_n)) { heap::unplace(slot); slot = nullptr; }
        if (!slot) { slot_n = bytes.size(); slot = heap::place(slot_n, s.below(4) ? 0 : s.below(64)); }
        else SIM_COUNT("probe.buffer_refilled_in_place");
        std::memcpy(slot, bytes.data(), slot_n);
        Ctx x{s, slot, slot_n, &v};
        x.huge = huge; x.harm = kinds;
        x.whole = !huge && ref::whole<Ref>(slot, slot_n);
        if (x.whole) SIM_COUNT("probe.valid_as_a_whole"); else SIM_COUNT("probe.damaged");
        x.left = 4 + static_cast<int>(s.below(28));
        s.ev("message", hash_bytes(slot, slot_n), x.whole);
        Ref f(slot, slot_n);
        const Sure os = f.open();
        using D = typename P::Deserializer;
        std::optional<D> d;
        const bool owning = s.below(4) == 3;
        std::uint8_t* copy = nullptr;
        const int rc = call("open", [&] {
            if (owning) { std::vector<std::uint8_t> b(slot, slot + slot_n); if (s.below(2)) d.emplace(std::move(b)); else d.emplace(b); }
            else d.emplace(std::span<const std::uint8_t>(slot, slot_n));
        });
        (void)copy;
        judge(At{x, 0}, "open", rc, os, true);
        if (d) {
            x.may_damage = !owning && s.below(2);
            visit<P>(x, f, f.root(), *d, 0, 0);
            heap::LibScope ls; d.reset();
        }
        if (heap::live_blocks() != live) {
            // a leak only if it happens again: lazily built shared state is not one
            Ctx y{s, slot, slot_n, &v}; y.whole = x.whole; const u64 l2 = heap::live_blocks();
            try { heap::LibScope ls; D e{std::span<const std::uint8_t>(slot, slot_n)}; (void)zerialize::translate<zerialize::MsgPack>(e); } catch (const std::exception&) {}
            if (heap::live_blocks() != l2) VIOLATE("leak", "reading a damaged message leaked");
        }
    }
    if (slot) heap::unplace(slot);
}
} // namespace dmg
