// C04: serialization under memory exhaustion is all or nothing.
#include "protocols.hpp"
#include "faults.hpp"
using namespace sim;

template<class P> static bool attempt(const MV& v, std::string& out, std::string& what) {
    try {
        heap::LibScope ls;
        auto z = encode<P>(v);
        heap::HarnessScope hs;
        out.assign(reinterpret_cast<const char*>(z.data()), z.size());
        return true;
    } catch (const Violation&) { throw; }
    catch (const std::bad_alloc&) { what = "bad_alloc"; }
    catch (const std::exception& e) { what = std::string("exception: ") + e.what(); }
    return false;
}

template<class P> static void one(Sim& s, const MV& v) {
    std::string ref, out, what;
    // memory plentiful
    const u64 live0 = heap::live_blocks();
    heap::set_plan({});
    if (!attempt<P>(v, ref, what)) VIOLATE("refused", std::string(P::Name) + ": serialize failed with memory available: " + what + " for " + show(v));
    const u64 total = heap::plan_allocs();
    heap::clear_plan();
    const u64 live1 = heap::live_blocks();
    s.ev("ref", ref.size(), hash_bytes(ref.data(), ref.size())); s.ev("allocs", total);
    { // the reference bytes themselves must say the value
        heap::LibScope ls;
        std::vector<std::uint8_t> rv; { heap::HarnessScope hs; rv = to_vec(ref); }
        typename P::Deserializer d{std::span<const std::uint8_t>(rv)};
        VerifyOpt o; o.exact_sign = Traits<P>::exact_sign; o.negative = false;
        verify(s, d, v, o);
    }
    const int tries = 1 + static_cast<int>(s.below(6));
    u64 base_live = live1;
    for (int t = 0; t < tries; ++t) {
        const auto plan = draw_plan(s, total);
        heap::set_plan(plan);
        out.clear();
        const bool ok = attempt<P>(v, out, what);
        const u64 fired = heap::fired();
        heap::clear_plan();
        s.ev("try", static_cast<u64>(plan.mode) * 1000003 + plan.n, fired * 2 + ok);
        s.state(mix(mix(fnv(P::Name) + plan.mode) ^ shape_hash(v)) + std::min<u64>(plan.n, 64) + 131 * ok);
        if (fired) { s.nontrivial(); count_dyn(std::string("fault.alloc.") + P::Name, fired); SIM_COUNT("runs_with_fault"); }
        if (ok && out != ref) VIOLATE("different-message", std::string(P::Name) + ": serialize returned other bytes under memory pressure: " + hex(out.data(), out.size(), 48) + " instead of " + hex(ref.data(), ref.size(), 48) + " for " + show(v));
        if (!ok && fired == 0) VIOLATE("refused", std::string(P::Name) + ": serialize threw " + what + " although no allocation failed");
        if (!ok) SIM_COUNT("probe.throw"); else if (fired) SIM_COUNT("probe.absorbed");
        const u64 live = heap::live_blocks();
        if (live != base_live) {
            // a leak only if doing it again leaves more behind (a one-time table is not a leak)
            heap::set_plan(plan);
            std::string o2;
            attempt<P>(v, o2, what);
            heap::clear_plan();
            const u64 again = heap::live_blocks();
            if (again > live) VIOLATE("leak", std::string(P::Name) + ": a failed serialize leaked " + std::to_string(again - live) + " block(s) for " + show(v));
            base_live = again;
        }
        // memory is back: same call, same bytes
        if (!ok || s.chance(1, 4)) {
            out.clear();
            if (!attempt<P>(v, out, what)) VIOLATE("not-recovered", std::string(P::Name) + ": serialize still fails after memory came back: " + what);
            if (out != ref) VIOLATE("not-recovered", std::string(P::Name) + ": serialize gives other bytes after an earlier failure");
            base_live = heap::live_blocks();
        }
    }
    if (live1 != live0) { // the plain call left something
        std::string o2;
        attempt<P>(v, o2, what);
        if (heap::live_blocks() > base_live) VIOLATE("leak", std::string(P::Name) + ": serialize leaked");
    }
}

static void run(Sim& s) {
    heap::reset(s.below(2));
    GenOpt g; g.budget = 4 + static_cast<int>(s.below(24)); g.big = s.below(4) == 3;
    MV v = Gen(s, g).value();
    s.ev("value", shape_hash(v), v.nodes());
    if (s.tracing()) s.note(show(v));
    with_protocol(static_cast<int>(s.below(NProto)), [&](auto t) { one<typename decltype(t)::type>(s, v); });
}
namespace sim { const Prop the_prop{"C04", run}; }
