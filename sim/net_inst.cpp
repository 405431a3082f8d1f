#include "net.hpp"
#include <optional>
namespace net {
static void restyle(MV& v, u64 seed) {
    const u64 x = mix(seed);
    static const std::uint8_t arr[] = {SDirect, SVector, SList, SDyn, SDynSer, SUserNest}, map[] = {SDirect, SStdMap, SUnordered, SDyn, SDynSer, SUserNest}, sc[] = {SDirect, SDirect, SDyn, SDynSer, SUserNest};
    v.style = v.k == K::Arr ? arr[x % 6] : v.k == K::Map ? map[x % 6] : sc[x % 5];
    v.prim = static_cast<std::uint8_t>(x >> 32 & 3);
    u64 i = 0;
    for (auto& e : v.a) restyle(e, x + ++i);
    for (auto& e : v.m) restyle(e.second, x + ++i);
}
template<class Q> static std::string bytes_of(zerialize::ZBuffer&& z) { heap::HarnessScope hs; return std::string(reinterpret_cast<const char*>(z.data()), z.size()); }
template<class P> std::string process_as(Sim& s, const std::uint8_t* p, std::size_t n, const Work& w) {
    heap::LibScope ls;
    using D = typename P::Deserializer;
    std::optional<D> d;
    if (w.own) d.emplace(std::vector<std::uint8_t>(p, p + n)); else d.emplace(std::span<const std::uint8_t>(p, n));
    VerifyOpt o; o.exact_sign = w.exact && Traits<P>::exact_sign; o.negative = w.refusals; o.narrow = w.refusals;
    if (w.check) verify(s, *d, *w.want, o);
    if (w.mode == 3) { heap::HarnessScope hs; return std::string(reinterpret_cast<const char*>(p), n); }
    return with_protocol(w.q, [&](auto t) -> std::string {
        using Q = typename decltype(t)::type;
        if (w.mode == 2) {
            MV v = read_back(*d);
            { heap::HarnessScope hs; restyle(v, w.restyle); }
            auto z = encode<Q>(v);
            std::string r = bytes_of<Q>(std::move(z));
            heap::HarnessScope hs; MV dead = std::move(v);
            return r;
        }
        typename Q::RootSerializer rs; typename Q::Serializer wr(rs);
        if (w.mode == 1) { zerialize::write_value(*d, wr); auto z = rs.finish(); return bytes_of<Q>(std::move(z)); }
        auto mid = zerialize::translate<Q>(*d);
        if (w.check) { VerifyOpt oo; oo.exact_sign = o.exact_sign && Traits<Q>::exact_sign; oo.negative = oo.narrow = false; verify(s, mid, *w.want, oo); }
        d.reset();   // what translate returned stands on its own
        zerialize::write_value(mid, wr);
        auto z = rs.finish();
        return bytes_of<Q>(std::move(z));
    });
}
#if NET_INST == 0
template std::string process_as<zerialize::Zera>(Sim&, const std::uint8_t*, std::size_t, const Work&);
#elif NET_INST == 1
template std::string process_as<zerialize::MsgPack>(Sim&, const std::uint8_t*, std::size_t, const Work&);
#elif NET_INST == 2
template std::string process_as<zerialize::Flex>(Sim&, const std::uint8_t*, std::size_t, const Work&);
#else
template std::string process_as<zerialize::CBOR>(Sim&, const std::uint8_t*, std::size_t, const Work&);
#endif
}
