#include "ops.hpp"
namespace sim {
#if SIM_OPS_INST == 0
SIM_OPS_DECL(, Zera)
#elif SIM_OPS_INST == 1
SIM_OPS_DECL(, MsgPack)
#elif SIM_OPS_INST == 2
SIM_OPS_DECL(, Flex)
#else
SIM_OPS_DECL(, CBOR)
#endif
}
