// Shared by C12 and C13: what a library node does with a message it received.
#pragma once
#include "protocols.hpp"

namespace net {
using namespace sim;
struct Work {
    int mode;            // 0 translate, 1 write_value, 2 take apart and rebuild, 3 pass on unchanged
    bool own;            // reader owns a copy of the bytes
    bool check;          // walk the message on arrival
    bool refusals;       // also ask for what must be refused
    int q;               // protocol to forward in
    const MV* want;      // the value sent
    bool exact;          // integer classes were kept so far
    u64 restyle;         // how to rebuild in mode 2
};
// Reads [p, p+n) as protocol number `proto`, does the work, returns the bytes to forward.
std::string process(Sim& s, int proto, const std::uint8_t* p, std::size_t n, const Work& w);
template<class P> std::string process_as(Sim& s, const std::uint8_t* p, std::size_t n, const Work& w);
} // namespace net
