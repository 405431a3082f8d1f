// Threads of the library under a scheduler: one runs at a time, and which one, and for how
// many memory accesses, is drawn from the run's choices. Accesses are also checked for
// unsynchronised conflicts (vector clocks).
#pragma once
#include "core.hpp"
#include <functional>
namespace sim::sched {
enum Mode { Serial, Short, Medium, Long, Log, SyncOnly, Modes };
inline const char* mode_name(int m) { static const char* n[] = {"serial", "short", "medium", "long", "log", "sync_only"}; return n[m]; }
// Runs the bodies as threads until all are done. A body must not let an exception out.
void run(Sim& s, int mode, std::vector<std::function<void()>>& bodies);
u64 steps();       // accesses and synchronisation points scheduled so far
u64 switches();
int current();     // 0: not one of the threads
}
