#include "protocols.hpp"
#define SIM_DEFINE(P) \
    namespace sim { template zerialize::ZBuffer encode<zerialize::P>(const MV&); \
    template void verify<zerialize::P::Deserializer>(Sim&, const zerialize::P::Deserializer&, const MV&, const VerifyOpt&, const std::string&); }
#if SIM_INST == 0
SIM_DEFINE(Zera)
#elif SIM_INST == 1
SIM_DEFINE(MsgPack)
#elif SIM_INST == 2
SIM_DEFINE(Flex)
#elif SIM_INST == 3
SIM_DEFINE(CBOR)
#else
template void usr::emit<zerialize::dyn::WriterView>(const sim::MV&, zerialize::dyn::WriterView&, bool);
#endif
