// Programs of several threads over shared objects, under the scheduler (C07, C08).
#pragma once
#include "ops.hpp"
#include "faults.hpp"
#include "tsrt.hpp"
#include <memory>

namespace sim {
// One thing one thread does. work() leaves its answer in `out`, as text.
struct Item {
    std::string name;
    std::function<void(std::string& out)> work;
    std::string expect;          // the answer when made alone
    std::string got;
    heap::Plan plan{};           // allocation failures while this thread does this
    u64 fired = 0;
    std::string threw;
    int throw_at = -1;           // user code throws at this point of the call (C08)
};

inline void do_item(Item& it, bool with_faults) {
    std::string out;
    it.threw.clear(); it.fired = 0;
    if (with_faults && it.plan.mode != heap::Plan::None) heap::set_plan(it.plan); else heap::set_plan({});
    try { heap::LibScope ls; it.work(out); }
    catch (const Violation&) { heap::in_lib = false; heap::clear_plan(); throw; }
    catch (const std::exception& e) { heap::in_lib = false; it.threw = std::string("E:") + e.what(); }
    catch (...) { heap::in_lib = false; it.threw = "E:?"; }
    it.fired = heap::fired();
    heap::clear_plan();
    it.got = it.threw.empty() ? std::move(out) : it.threw;
}

// Runs each thread's items concurrently; then each answer must be the one given alone.
inline void run_programs(Sim& s, std::vector<std::vector<Item>>& prog, int mode, bool warm) {
    auto alone = [&] {
        for (auto& p : prog) for (auto& it : p) { do_item(it, false); it.expect = it.got; }
    };
    if (warm) alone();
    std::vector<std::string> trouble(prog.size()), trouble_cls(prog.size());
    std::vector<std::function<void()>> bodies;
    for (std::size_t t = 0; t < prog.size(); ++t) bodies.push_back([&, t] {
        try { for (auto& it : prog[t]) do_item(it, true); }
        catch (const Violation& v) { trouble_cls[t] = v.cls; trouble[t] = v.msg; }
        catch (const std::exception& e) { trouble_cls[t] = "unexpected-exception"; trouble[t] = e.what(); }
    });
    sched::run(s, mode, bodies);
    std::vector<std::vector<Item>> done = prog;
    if (!warm) alone();
    for (std::size_t t = 0; t < prog.size(); ++t) {
        if (!trouble_cls[t].empty()) VIOLATE(trouble_cls[t], trouble[t]);
        for (std::size_t i = 0; i < prog[t].size(); ++i) {
            const Item& c = done[t][i];
            const std::string& e = prog[t][i].expect;
            if (c.fired) { SIM_COUNT("fault.alloc"); if (!c.threw.empty()) continue; }
            if (c.got != e) VIOLATE("interference", "thread " + std::to_string(t + 1) + " call " + std::to_string(i) + " (" + c.name + ") gave, with other threads running, " +
                hex(c.got.data(), c.got.size(), 60) + " and alone " + hex(e.data(), e.size(), 60));
        }
    }
    SIM_COUNT_N("sched.steps", sched::steps());
    SIM_COUNT_N("sched.switches", sched::switches());
    count_dyn(std::string("sched.mode.") + sched::mode_name(mode));
    if (sched::switches() > prog.size()) { s.nontrivial(); SIM_COUNT("probe.interleaved"); }
}

inline int draw_mode(Sim& s) { return static_cast<int>(s.pick<int>({sched::Log, sched::Short, sched::Medium, sched::Long, sched::Log, sched::SyncOnly, sched::Serial})); }

// A message nobody in this process has serialized (cold), or the library's own.
template<class P> std::string message(Sim& s, const MV& v, bool foreign) {
    if constexpr (!std::is_same_v<P, zerialize::Flex>) if (foreign) return foreign_bytes<P>(s, v);
    heap::LibScope ls; auto z = encode<P>(v); heap::HarnessScope hs; return std::string(reinterpret_cast<const char*>(z.data()), z.size());
}
} // namespace sim
