// C05: reading under memory exhaustion is correct or throws bad_alloc, and is repeatable.
#include "ops.hpp"
#include "faults.hpp"
using namespace sim;

// 0 done, 1 bad_alloc; other exceptions become part of the answer
template<class F> static int guarded(std::string& out, F&& f) {
    try { heap::LibScope ls; f(); return 0; }
    catch (const Violation&) { throw; }
    catch (const std::bad_alloc&) { return 1; }
    catch (const std::exception& e) { heap::HarnessScope hs; out += std::string("exception ") + e.what(); return 0; }
}

template<class P> static void one(Sim& s, const MV& v) {
    const std::string ref = encode_bytes<P>(v);
    const std::vector<std::uint8_t> bytes = to_vec(ref);
    const int mode = static_cast<int>(s.below(NOpen));
    std::optional<Des<P>> rd, other;
    std::string none;
    // open: first under a failure plan, then for real
    if (s.below(2)) {
        const auto plan = draw_plan(s, 2);
        for (int twice = 0; twice < 2; ++twice) {
            const u64 live = heap::live_blocks();
            heap::set_plan(plan);
            std::string what;
            int rc; { rc = guarded(what, [&] { auto x = open_reader<P>(mode, bytes); }); }
            const u64 fired = heap::fired();
            heap::clear_plan();
            if (fired) { count_dyn(std::string("fault.alloc.open.") + P::Name, fired); s.nontrivial(); }
            s.ev("open", static_cast<u64>(mode), static_cast<u64>(rc) * 2 + (fired > 0));
            if (!what.empty()) VIOLATE("wrong-exception", std::string(P::Name) + ": opening under memory pressure: " + what);
            if (rc && !fired) VIOLATE("refused", std::string(P::Name) + ": opening threw bad_alloc although no allocation failed");
            if (heap::live_blocks() == live) break;
            if (twice) VIOLATE("leak", std::string(P::Name) + ": opening a reader under memory pressure leaked");
        }
    }
    { heap::LibScope ls; rd = open_reader<P>(mode, bytes); }
    const int n = 1 + static_cast<int>(s.below(8));
    for (int i = 0; i < n; ++i) {
        if (s.below(8) == 7) {   // copying and assigning readers
            const auto plan = draw_plan(s, 2);
            if (!other) { heap::LibScope ls; other = open_reader<P>(static_cast<int>(s.below(NOpen)), bytes); }
            const bool assign = s.below(2);
            std::string what;
            heap::set_plan(plan);
            const int rc = guarded(what, [&] { if (assign) *other = *rd; else { Des<P> c(*rd); } });
            const u64 fired = heap::fired();
            heap::clear_plan();
            s.ev("copy", assign, static_cast<u64>(rc) * 2 + (fired > 0));
            if (fired) { count_dyn(std::string("fault.alloc.copy.") + P::Name, fired); s.nontrivial(); }
            if (!what.empty()) VIOLATE("wrong-exception", std::string(P::Name) + ": copying a reader under memory pressure: " + what);
            if (rc && !fired) VIOLATE("refused", std::string(P::Name) + ": copying a reader threw bad_alloc although no allocation failed");
            VerifyOpt o; o.exact_sign = Traits<P>::exact_sign; o.negative = false;
            { heap::LibScope ls; verify(s, *other, v, o); }
            continue;
        }
        ReadOp op = draw_op(s, v);
        std::string want, got, again;
        heap::set_plan({});
        if (guarded(want, [&] { run_op(*rd, op, want); })) VIOLATE("refused", std::string(P::Name) + ": " + opname(op.kind) + " threw bad_alloc with memory available");
        const u64 total = heap::plan_allocs();
        heap::clear_plan();
        s.ev(opname(op.kind), hash_bytes(want.data(), want.size()), total);
        count_dyn(std::string("op.") + opname(op.kind));
        if (total == 0 && s.below(4)) continue;
        const auto plan = draw_plan(s, total);
        const u64 live = heap::live_blocks();
        heap::set_plan(plan);
        const int rc = guarded(got, [&] { run_op(*rd, op, got); });
        const u64 fired = heap::fired();
        heap::clear_plan();
        s.ev("under_plan", static_cast<u64>(plan.mode) * 1000003 + plan.n, fired * 2 + static_cast<u64>(rc));
        s.state(mix(mix(fnv(P::Name) + static_cast<u64>(op.kind) * 64 + static_cast<u64>(plan.mode)) ^ shape_hash(*op.node)) + std::min<u64>(plan.n, 64) * 4 + static_cast<u64>(rc) * 2 + (mode == 0));
        if (fired) { s.nontrivial(); count_dyn(std::string("fault.alloc.") + P::Name, fired); }
        if (rc == 0 && got != want) VIOLATE("different-answer", std::string(P::Name) + ": " + opname(op.kind) + " answered differently under memory pressure: " + hex(got.data(), got.size(), 60) + " instead of " + hex(want.data(), want.size(), 60) + " on " + show(*op.node, 120));
        if (rc && !fired) VIOLATE("refused", std::string(P::Name) + ": " + opname(op.kind) + " threw bad_alloc although no allocation failed");
        if (rc) SIM_COUNT("probe.bad_alloc"); else if (fired) SIM_COUNT("probe.absorbed");
        if (heap::live_blocks() != live) {
            const u64 l2 = heap::live_blocks();
            std::string g2;
            heap::set_plan(plan); guarded(g2, [&] { run_op(*rd, op, g2); }); heap::clear_plan();
            if (heap::live_blocks() > l2) VIOLATE("leak", std::string(P::Name) + ": " + opname(op.kind) + " leaked under memory pressure on " + show(*op.node, 120));
        }
        if (guarded(again, [&] { run_op(*rd, op, again); })) VIOLATE("not-recovered", std::string(P::Name) + ": " + opname(op.kind) + " still fails after memory came back");
        if (again != want) VIOLATE("not-recovered", std::string(P::Name) + ": " + opname(op.kind) + " answers differently after an earlier failure");
    }
    VerifyOpt o; o.exact_sign = Traits<P>::exact_sign; o.negative = s.below(2);
    { heap::LibScope ls; verify(s, *rd, v, o); }
    if (std::string_view(reinterpret_cast<const char*>(bytes.data()), bytes.size()) != ref) VIOLATE("message-changed", "reading changed the message");
    heap::LibScope ls;
    rd.reset(); other.reset();
}

static void run(Sim& s) {
    heap::reset(s.below(2));
    GenOpt g; g.budget = 4 + static_cast<int>(s.below(24)); g.big = s.below(8) == 7;
    MV v = Gen(s, g).value();
    s.ev("value", shape_hash(v), v.nodes());
    if (s.tracing()) s.note(show(v));
    with_protocol(static_cast<int>(s.below(NProto)), [&](auto t) { one<typename decltype(t)::type>(s, v); });
}
namespace sim { const Prop the_prop{"C05", run}; }
