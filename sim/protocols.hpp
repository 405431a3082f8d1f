#pragma once
#include "emit.hpp"
#include "verify.hpp"
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/flex.hpp>
#include <zerialize/protocols/cbor.hpp>   // its writer's encoder (jsoncons) is a stub, see stubs/
#include <zerialize/translate.hpp>

#if !defined(SIM_INST) || SIM_INST != 4
extern template void usr::emit<zerialize::dyn::WriterView>(const sim::MV&, zerialize::dyn::WriterView&, bool);
#endif

namespace sim {
template<> struct Traits<zerialize::Zera> { static constexpr bool exact_sign = true; };
template<> struct Traits<zerialize::Flex> { static constexpr bool exact_sign = true; };
inline constexpr int NProto = 4;
inline const char* pname(int p) { static const char* n[] = {"zera", "msgpack", "flex", "cbor"}; return n[p]; }

// Heavy templates are instantiated once per protocol, in inst.cpp (compiled in parallel).
#define SIM_DECLARE(P) \
    extern template zerialize::ZBuffer encode<zerialize::P>(const MV&); \
    extern template void verify<zerialize::P::Deserializer>(Sim&, const zerialize::P::Deserializer&, const MV&, const VerifyOpt&, const std::string&);
#ifndef SIM_INST
SIM_DECLARE(Zera) SIM_DECLARE(MsgPack) SIM_DECLARE(Flex) SIM_DECLARE(CBOR)
#endif

template<class T> struct Tag { using type = T; };
// f(Tag<P>{}) for protocol number p
template<class F> decltype(auto) with_protocol(int p, F&& f) {
    switch (p) {
        case 0: return f(Tag<zerialize::Zera>{});
        case 1: return f(Tag<zerialize::MsgPack>{});
        case 2: return f(Tag<zerialize::Flex>{});
        default: return f(Tag<zerialize::CBOR>{});
    }
}
inline std::vector<std::uint8_t> to_vec(const std::string& s) { return {s.begin(), s.end()}; }
} // namespace sim
