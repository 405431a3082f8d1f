#pragma once
#include "core.hpp"
// One function per (protocol, group of element types): compiled in parallel.
namespace c11 {
void zera0(sim::Sim&); void zera1(sim::Sim&); void msgpack0(sim::Sim&); void msgpack1(sim::Sim&);
void zera2(sim::Sim&); void msgpack2(sim::Sim&); void flex2(sim::Sim&); void cbor2(sim::Sim&);
void flex0(sim::Sim&); void flex1(sim::Sim&); void cbor0(sim::Sim&); void cbor1(sim::Sim&);
}
