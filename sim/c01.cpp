#include "dmg.hpp"
namespace dmg {
template<> struct Fmt<zerialize::Zera> {
    using Ref = ref::Zera;
    static constexpr bool big_endian = false;
    static std::string foreign(Sim& s, const MV& v, bool) { return enc::zera(s, v); }
    // positions worth hitting: header fields, the fields of a value, counts, key lengths, shapes
    static u64 aim(Sim& s, const Ref& f, Cur c) {
        for (int hop = static_cast<int>(s.below(5)); hop > 0; --hop) {   // walk down to some value
            const auto n = f.count(c);
            if (n.s != ref::No && n.v) { auto e = f.elem(c, s.below(n.v)); if (e.s == ref::No) break; c = e.v; continue; }
            Cur next = c; u64 pick = s.below(6);
            f.entries(c, ref::fn(true, [&](std::string_view, Cur v) { next = v; return pick-- != 0; }));
            if (next == c) break;
            c = next;
        }
        if (f.tag(c) == 6 && s.below(3) == 0) {   // the head of some entry
            u64 at = f.a(c) + 4, pick = s.below(6);
            f.entries(c, ref::fn(true, [&](std::string_view k, Cur v) { if (v) at = v - k.size() - 4; return pick-- != 0; }));
            return 20 + at + s.below(2);
        }
        const u64 vr = 20 + c;
        switch (s.below(8)) {
            case 0: return s.below(20);
            case 1: return vr;
            case 2: return vr + 2;
            case 3: return vr + 4 + 4 * s.below(3);
            case 4: return vr + s.below(16);
            case 5: return 20 + f.a(c);
            case 6: return f.tag(c) == 7 ? 20 + f.cc(c) + 4 * s.below(3) : 20 + f.a(c) + 4 + s.below(8);
            default: return f.arena + f.a(c);
        }
    }
    static std::string nested(Sim& s, std::size_t d) {   // [[[...]]] or a value that contains itself
        std::string env, o;
        const bool cyclic = s.below(3) == 2, map = s.below(2);
        if (d > 20000) d = 20000;
        for (std::size_t i = 0; i < (cyclic ? 1 : d); ++i) {
            // payload i holds one value that points to payload i+1
            const std::size_t size = map ? 4 + 4 + 1 + 16 : 4 + 16;
            const std::size_t nxt = cyclic ? 0 : (i + 1) * size;
            enc::put_le(env, 1, 4);
            if (map) { enc::put_le(env, 1, 2); enc::put_le(env, 0, 2); env += 'k'; }
            const bool last = !cyclic && i + 1 == d;
            env += static_cast<char>(last ? 0 : map ? 6 : 5); env += std::string(3, '\0');
            enc::put_le(env, last ? 0 : nxt, 4); enc::put_le(env, 0, 8);
        }
        const std::size_t root = env.size();
        env += static_cast<char>(map ? 6 : 5); env += std::string(3, '\0'); enc::put_le(env, 0, 4); enc::put_le(env, 0, 8);
        const std::size_t ao = (20 + env.size() + 15) / 16 * 16;
        enc::put_le(o, 0x564E455A, 4); enc::put_le(o, 1, 2); enc::put_le(o, 1, 2); enc::put_le(o, root, 4); enc::put_le(o, env.size(), 4); enc::put_le(o, ao, 4);
        o += env; o.resize(ao, '\0');
        return o;
    }
};
}
const sim::Prop sim::the_prop{"C01", dmg::run<zerialize::Zera>};
