#include "dmg.hpp"
namespace dmg {
// starts of elements, found by walking down at random
template<class F> u64 aim_element(Sim& s, const F& f, Cur c) {
    for (int hop = static_cast<int>(s.below(6)); hop > 0; --hop) {
        const auto n = f.count(c);
        if (n.s != ref::No && n.v) { auto e = f.elem(c, s.below(std::min<u64>(n.v, 40))); if (e.s == ref::No) break; c = e.v; continue; }
        Cur next = c; u64 pick = s.below(6); std::size_t klen = 0;
        f.entries(c, ref::fn(true, [&](std::string_view k, Cur v) { next = v; klen = k.size(); return pick-- != 0; }));
        if (next == c) break;
        if (s.below(4) == 3 && next > klen) return next - klen - 1;   // the key's header
        c = next;
    }
    return c + s.below(s.below(3) == 2 ? 6 : 2);
}
#ifndef DMG_CBOR
template<> struct Fmt<zerialize::MsgPack> {
    using Ref = ref::MsgPack;
    static constexpr bool big_endian = true;
    static std::string foreign(Sim& s, const MV& v, bool) { return enc::msgpack(s, v); }
    static u64 aim(Sim& s, const Ref& f, Cur c) { return aim_element(s, f, c); }
    static std::string nested(Sim& s, std::size_t d) {
        std::string o;
        const u64 how = s.below(3);
        for (std::size_t i = 0; i < d; ++i) { if (how == 0) o += '\x91'; else if (how == 1) o += std::string("\x81\xa1k", 3); else o += std::string("\x92\x01", 2); }
        if (s.below(3) == 0) o += '\xc0';
        return o;
    }
};
#else
template<> struct Fmt<zerialize::CBOR> {
    using Ref = ref::Cbor;
    static constexpr bool big_endian = true;
    static std::string foreign(Sim& s, const MV& v, bool indef) { return enc::cbor(s, v, indef); }
    static u64 aim(Sim& s, const Ref& f, Cur c) { return aim_element(s, f, c); }
    static std::string nested(Sim& s, std::size_t d) {
        std::string o;
        const u64 how = s.below(5);
        for (std::size_t i = 0; i < d; ++i) switch (how) { case 0: o += '\x81'; break; case 1: o += std::string("\xa1\x61k", 3); break; case 2: o += '\x9f'; break; case 3: o += '\xc1'; break; default: o += std::string("\x82\x01", 2); }
        if (s.below(3) == 0) o += '\xf6';
        return o;
    }
};
#endif
}
#ifndef DMG_CBOR
const sim::Prop sim::the_prop{"C02", dmg::run<zerialize::MsgPack>};
#else
const sim::Prop sim::the_prop{"C03", dmg::run<zerialize::CBOR>};
#endif
