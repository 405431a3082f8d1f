// Drawing allocation-failure plans.
#pragma once
#include "core.hpp"
#include "alloc.hpp"
#include <algorithm>
namespace sim {
inline heap::Plan draw_plan(Sim& s, u64 total) {
    heap::Plan p;
    switch (s.below(6)) {
        case 0: case 1: p.mode = heap::Plan::Nth; p.n = 1 + s.below(std::max<u64>(1, total)); break;
        case 2: p.mode = heap::Plan::From; p.n = 1 + s.below(std::max<u64>(1, total)); break;
        case 3: p.mode = heap::Plan::Every; p.n = 1 + s.below(8); break;
        case 4: p.mode = heap::Plan::AboveSize; p.n = s.pick<u64>({0, 16, 31, 64, 127, 256, 1000, 4096, 8191, 8192, 16384, 65536}); break;
        default: p.mode = heap::Plan::Random; p.n = 2 + s.below(16); p.prng = s.below(1 << 20); break;
    }
    return p;
}
} // namespace sim
