// The simulated heap. While the library runs (LibScope), every operator new / malloc /
// calloc / realloc it makes is served from a pool at a fixed address: failures are injected
// by plan, freed memory is poisoned and, by plan, reused at once, and every block is tracked.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim::heap {

struct Plan {
    enum Mode { None, Nth, Every, From, AboveSize, Random } mode = None;
    std::uint64_t n = 0;        // Nth: fail the n-th allocation (1-based); From: n-th and later; Every: each n-th; AboveSize: larger than n; Random: one in n
    std::uint64_t prng = 0;
};

void reset(bool reuse);            // start of run: empty pool (blocks still live stay)
void set_plan(const Plan& p);      // also restarts the allocation count of the plan
void clear_plan();
std::uint64_t fired();             // failures injected since set_plan
std::uint64_t plan_allocs();       // allocations seen since set_plan
std::uint64_t live_blocks();       // blocks of the library currently allocated
std::uint64_t live_bytes();
std::uint64_t largest_request();   // since reset / clear
void clear_largest();
void set_request_cap(std::uint64_t bytes);   // larger requests fail (simulated memory limit)
std::uint64_t total_allocs();
bool owns(const void* p);

#if defined(SIM_SCHED)
extern constinit thread_local volatile bool in_lib;   // threads of the library run under the scheduler
#else
extern volatile bool in_lib;
#endif
struct LibScope { bool prev; LibScope() : prev(in_lib) { in_lib = true; } ~LibScope() { in_lib = prev; } };
struct HarnessScope { bool prev; HarnessScope() : prev(in_lib) { in_lib = false; } ~HarnessScope() { in_lib = prev; } };

// A placement of `n` bytes in the pool whose last byte is followed by poison and whose first
// byte is at an address == misalign (mod 64). Not counted as a block of the library.
std::uint8_t* place(std::size_t n, std::size_t misalign);
void unplace(std::uint8_t* p);

} // namespace sim::heap
