// C14: misused ZERA writers fail cleanly and never emit a malformed message.
// A drawn program of writer calls, legal or not, with allocation failures, against a
// nondeterministic reference model: the set of states the writer may be in. Each outcome
// must be one the model allows; finish() must return exactly a value the model holds.
#include "protocols.hpp"
#include "faults.hpp"
#include "ref.hpp"
#include <zerialize/dynamic.hpp>
using namespace sim;
namespace {

struct Frame { bool map = false; MV v; bool pending = false; std::string key; bool stuck = false; };
struct State { std::vector<Frame> st; bool rooted = false; MV root; };

enum Out { Ok, SerErr, NoMem };
struct Op {
    enum Kind { Value, BeginA, EndA, BeginM, EndM, Key, Finish, Threshold } k;
    MV v; std::string key; std::size_t hint = 0; std::uint32_t t = 0;
};

// Puts v where the state expects a value: 1 placed, 0 no place, 2 either.
int place(State& x, const MV& v) {
    if (x.st.empty()) { if (x.rooted) return 0; x.rooted = true; x.root = v; return 1; }
    Frame& f = x.st.back();
    if (!f.map) { f.v.a.push_back(v); return 1; }
    if (!f.pending) return 0;
    f.v.m.emplace_back(f.key, v); f.pending = false;
    const bool was = f.stuck; f.stuck = false;
    return was ? 2 : 1;
}
bool room(const State& x) {
    if (x.st.empty()) return !x.rooted;
    return !x.st.back().map || x.st.back().pending;
}

// States that `op` with outcome `o` can lead to from x.
void step(const State& x, const Op& op, Out o, std::vector<State>& to) {
    auto unchanged = [&] { to.push_back(x); };
    switch (op.k) {
        case Op::Value: {
            State y = x; const int r = place(y, op.v);
            if (o == Ok && r) to.push_back(std::move(y));
            if (o == SerErr && r != 1) unchanged();
            if (o == NoMem) unchanged();
            return;
        }
        case Op::BeginA: case Op::BeginM: {
            const bool sure = room(x) && !(!x.st.empty() && x.st.back().stuck);
            if (o == Ok) { State y = x; Frame f; f.map = op.k == Op::BeginM; f.v = f.map ? MV::map() : MV::arr(); y.st.push_back(std::move(f)); to.push_back(std::move(y)); }   // a misplaced one is refused now or when it ends
            if (o == SerErr && !sure) unchanged();
            if (o == NoMem) unchanged();
            return;
        }
        case Op::EndA: case Op::EndM: {
            const bool map = op.k == Op::EndM;
            if (x.st.empty() || x.st.back().map != map) { if (o == SerErr || o == NoMem) unchanged(); return; }
            if (map && x.st.back().pending) {   // a key without a value
                if (o == SerErr || o == NoMem) { unchanged(); State y = x; y.st.back().stuck = true; to.push_back(std::move(y)); }
                return;
            }
            State y = x; MV v = std::move(y.st.back().v); y.st.pop_back();
            State gone = y;   // the container is discarded
            const int r = place(y, v);
            if (o == Ok && r) to.push_back(std::move(y));
            if (o == SerErr && r != 1) { to.push_back(std::move(gone)); unchanged(); }
            else if (o == NoMem) { to.push_back(std::move(gone)); unchanged(); }
            return;
        }
        case Op::Key: {
            const bool legal = !x.st.empty() && x.st.back().map && !x.st.back().pending && op.key.size() <= 65535;
            if (o == Ok && legal) { State y = x; y.st.back().pending = true; y.st.back().key = op.key; to.push_back(std::move(y)); }
            if (o == SerErr && !legal) unchanged();
            if (o == NoMem) unchanged();
            return;
        }
        case Op::Finish: {
            if (!x.st.empty()) { if (o != Ok) unchanged(); return; }
            if (o == SerErr) return;
            unchanged();
            if (!x.rooted) { State y = x; y.rooted = true; y.root = MV::null(); to.push_back(std::move(y)); }
            return;
        }
        case Op::Threshold:
            if (o == NoMem || (op.t > 12 ? o == SerErr : o == Ok)) unchanged();
            return;
    }
}
bool eq(const State& a, const State& b) {
    if (a.rooted != b.rooted || a.st.size() != b.st.size()) return false;
    if (a.rooted && !same(a.root, b.root)) return false;
    for (std::size_t i = 0; i < a.st.size(); ++i) {
        auto &f = a.st[i], &g = b.st[i];
        if (f.map != g.map || f.pending != g.pending || f.stuck != g.stuck || f.key != g.key || !same(f.v, g.v)) return false;
    }
    return true;
}
// Duplicate keys: a lookup finds the first.
MV first_wins(const MV& v) {
    MV o = v;
    for (auto& e : o.a) e = first_wins(e);
    for (std::size_t i = 0; i < o.m.size(); ++i) {
        bool dup = false;
        for (std::size_t j = 0; j < i; ++j) if (o.m[j].first == o.m[i].first) { o.m[i].second = o.m[j].second; dup = true; break; }
        if (!dup) o.m[i].second = first_wins(o.m[i].second);
    }
    return o;
}

struct Program {
    Sim& s;
    std::vector<State> cands{State{}};
    int left;
    bool faults;
    bool raised = false;
    bool propagate = false;    // a hook that lets the first failure out
    const char* where = "";
    std::string last;          // bytes of the last finish

    const State& one() const { return cands.front(); }
    Op draw(bool can_finish, bool can_threshold) {
        heap::HarnessScope hs;
        Op op{};
        const State& x = one();
        const bool in_map = !x.st.empty() && x.st.back().map, pend = in_map && x.st.back().pending;
        const u64 r = s.below(16);
        auto value = [&] { op.k = Op::Value; Gen g(s, {1, 0, true, s.below(40) == 39, false}); op.v = g.value(); if (op.v.k == K::Arr || op.v.k == K::Map) op.v = MV::null(); };
        auto key = [&] {
            op.k = Op::Key;
            Gen g(s, {1, 0, true, false, false});
            op.key = g.key();
            if (s.below(40) == 39) op.key = std::string(s.pick<std::size_t>({65535, 65536, 65537, 70000, 65536 + 5}), 'L');
        };
        auto legal = [&] {   // something that is allowed here
            if (x.st.empty()) { if (x.rooted && can_finish) { op.k = Op::Finish; return; } if (s.below(4)) op.k = s.below(2) ? Op::BeginM : Op::BeginA; else value(); return; }
            if (in_map && !pend) { if (s.below(3)) key(); else op.k = Op::EndM; return; }
            const u64 q = s.below(6);
            if (q < 3) value(); else if (q == 3) op.k = Op::BeginA; else if (q == 4) op.k = Op::BeginM; else if (!in_map) op.k = Op::EndA; else value();
        };
        if (r < 11) legal();
        else switch (s.below(8)) {
            case 0: value(); break;
            case 1: op.k = Op::BeginA; break;
            case 2: op.k = Op::EndA; break;
            case 3: op.k = Op::BeginM; break;
            case 4: op.k = Op::EndM; break;
            case 5: key(); break;
            case 6: if (can_finish) op.k = Op::Finish; else op.k = Op::EndM; break;
            default: if (can_threshold) { op.k = Op::Threshold; op.t = static_cast<std::uint32_t>(s.below(16)); if (s.below(8) == 7) op.t = ~0u; } else value(); break;
        }
        if (op.k == Op::BeginA || op.k == Op::BeginM) op.hint = s.pick<std::size_t>({0, 1, 3, 100});
        return op;
    }
    void settle(const Op& op, Out o, bool fired) {
        heap::HarnessScope hs;
        static const char* names[] = {"value", "begin_array", "end_array", "begin_map", "end_map", "key", "finish", "threshold"};
        s.ev(names[op.k], static_cast<u64>(o), op.k == Op::Value ? static_cast<u64>(op.v.k) : op.key.size());
        const State& x = one();
        s.state(mix(static_cast<u64>(op.k) * 64 + static_cast<u64>(o) * 16 + std::min<std::size_t>(x.st.size(), 6)) + (x.st.empty() ? 4u : x.st.back().map * 2u + x.st.back().pending) * 8 + x.rooted * 2 + (cands.size() > 1));
        if (o == NoMem && !fired) VIOLATE("wrong-exception", std::string(where) + names[op.k] + " threw bad_alloc although no allocation failed");
        std::vector<State> next;
        for (auto& c : cands) {
            std::vector<State> to; step(c, op, o, to);
            for (auto& t : to) { bool have = false; for (auto& n : next) have = have || eq(n, t); if (!have) next.push_back(std::move(t)); }
        }
        if (next.empty()) VIOLATE(o == Ok ? "misuse-accepted" : "refused", std::string(where) + names[op.k] + (o == Ok ? " was accepted where it is not allowed" : " was refused where it is allowed"));
        if (o == SerErr) SIM_COUNT("probe.misuse_reported");
        if (next.size() > 64) next.resize(64);   // keeps the likeliest; only after many failures
        cands = std::move(next);
    }
    // returns the outcome; f performs the call
    template<class F> Out attempt(F&& f, bool& fired) {
        const bool fault = faults && s.below(8) == 7;
        if (fault) { heap::HarnessScope hs; heap::set_plan(draw_plan(s, 4)); }
        Out o = Ok;
        try { heap::LibScope ls; f(); }
        catch (const zerialize::SerializationError&) { o = SerErr; }
        catch (const std::bad_alloc&) { o = NoMem; }
        catch (const Violation&) { throw; }
        catch (const std::exception& e) { VIOLATE("wrong-exception", std::string(where) + "a writer call threw " + e.what()); }
        fired = fault && heap::fired();
        if (fault) heap::clear_plan();
        if (fired) SIM_COUNT("fault.alloc");
        return o;
    }
    template<class W> void emit(W& w, const Op& op) {
        switch (op.k) {
            case Op::Value: switch (op.v.k) {
                case K::Null: w.null(); break;
                case K::Bool: w.boolean(op.v.b); break;
                case K::Int: w.int64(op.v.i); break;
                case K::UInt: w.uint64(op.v.u); break;
                case K::Float: w.double_(op.v.d); break;
                case K::Str: w.string(op.v.s); break;
                default: w.binary(std::as_bytes(std::span(op.v.s.data(), op.v.s.size()))); break;
            } break;
            case Op::BeginA: w.begin_array(op.hint); break;
            case Op::EndA: w.end_array(); break;
            case Op::BeginM: w.begin_map(op.hint); break;
            case Op::EndM: w.end_map(); break;
            case Op::Key: w.key(op.key); break;
            default: break;
        }
    }
    // bytes returned by finish(): exactly a value the model holds, as a valid message
    void finished(const std::uint8_t* p, std::size_t n) {
        heap::HarnessScope hs;
        last.assign(reinterpret_cast<const char*>(p), n);
        ref::Zera f(p, n);
        if (f.open() != ref::Yes) VIOLATE("malformed", std::string(where) + "finish returned bytes that are no ZERA message");
        ref::Budget b;
        auto v = ref::value(f, f.root(), b);
        if (v.s == ref::No || !f.tail_ok(f.root())) VIOLATE("malformed", std::string(where) + "finish returned a malformed ZERA message");
        if (!b.dup && v.s != ref::Yes) VIOLATE("malformed", std::string(where) + "finish returned a ZERA message with stray bits or an unaligned blob");
        MV got;
        try { heap::LibScope ls; zerialize::Zera::Deserializer d{std::span<const std::uint8_t>(p, n)}; got = read_back(d); }
        catch (const Violation&) { throw; }
        catch (const std::exception& e) { VIOLATE("malformed", std::string(where) + "the finished message cannot be read: " + e.what()); }
        std::vector<State> keep;
        for (auto& c : cands) {
            const MV want = c.rooted ? first_wins(c.root) : MV::null();
            if (same(want, v.v) && same(want, got)) keep.push_back(c);
        }
        if (keep.empty()) VIOLATE("wrong-value", std::string(where) + "finish returned " + show(got, 250) + ", the calls that succeeded say " + show(cands.front().rooted ? cands.front().root : MV::null(), 250));
        for (auto& c : keep) if (!c.st.empty()) VIOLATE("incomplete-accepted", std::string(where) + "finish returned bytes with an open container");
        cands = std::move(keep);
        SIM_COUNT("probe.finished"); s.nontrivial();
        s.ev("bytes", hash_bytes(p, n), n);
    }
};

void direct(Sim& s) {   // the writer objects themselves
    Program p{s}; p.left = 3 + static_cast<int>(s.below(40)); p.faults = s.below(2); p.where = "";
    const u64 live = heap::live_blocks();
    {
        heap::LibScope ls;
        zerialize::Zera::RootSerializer root;
        zerialize::Zera::Serializer w(root);
        bool done = false;
        while (!done) {
            Op op;
            if (p.left-- > 0) op = p.draw(true, true);
            else { op = Op{}; op.k = Op::Finish; done = true; }
            bool fired = false;
            std::optional<zerialize::ZBuffer> out;
            const bool save = p.faults; if (done) p.faults = false;
            Out o = p.attempt([&] {
                if (op.k == Op::Finish) out.emplace(root.finish());
                else if (op.k == Op::Threshold) root.set_inline_string_threshold(op.t);
                else p.emit(w, op);
            }, fired);
            p.faults = save;
            p.settle(op, o, fired);
            if (out) p.finished(out->data(), out->size());
            if (done && !out && s.below(2)) {   // close what is open and finish after all
                for (int i = 0; i < 200 && !out; ++i) {
                    Op e{}; const State& x = p.one();
                    if (x.st.empty()) e.k = Op::Finish;
                    else if (!x.st.back().map) e.k = Op::EndA;
                    else if (x.st.back().pending) { e.k = Op::Value; e.v = MV::boolean(true); }
                    else e.k = Op::EndM;
                    const bool f2 = p.faults; p.faults = false;
                    Out q = p.attempt([&] { if (e.k == Op::Finish) out.emplace(root.finish()); else p.emit(w, e); }, fired);
                    p.faults = f2;
                    p.settle(e, q, fired);
                    if (q != Ok && i > 60) break;   // a writer stuck on a dangling key
                    if (out) { p.finished(out->data(), out->size()); SIM_COUNT("probe.finished_after_refusal"); }
                }
            }
            heap::HarnessScope hs; op = Op{};
        }
    }
    { heap::HarnessScope hs; p.cands.clear(); }
    if (heap::live_blocks() != live) {   // once more, plainly: a leak repeats
        const u64 l = heap::live_blocks();
        { heap::LibScope ls; zerialize::Zera::RootSerializer root; zerialize::Zera::Serializer w(root); w.begin_map(1); w.key("k"); w.begin_array(1); try { w.end_map(); } catch (const std::exception&) {} }
        if (heap::live_blocks() != l) VIOLATE("leak", "an abandoned writer leaked");
        SIM_COUNT("probe.left_behind_once");
    }
}

// The same calls made from a user's serialize function.
struct Hook { Program* p; };
template<zerialize::Writer W> void serialize(const Hook& h, W& w) {
    heap::HarnessScope hs;
    Program& p = *h.p;
    while (p.left-- > 0) {
        Op op = p.draw(false, false);
        bool fired = false;
        std::exception_ptr err;
        Out o = p.attempt([&] { try { p.emit(w, op); } catch (...) { err = std::current_exception(); throw; } }, fired);
        p.settle(op, o, fired);
        if (err && p.propagate) { p.raised = true; std::rethrow_exception(err); }
    }
}
void hooked(Sim& s) {
    Program p{s}; p.left = 1 + static_cast<int>(s.below(30)); p.faults = s.below(2); p.propagate = s.below(2);
    const bool dyn = s.below(2);
    p.where = dyn ? "dynamic hook: " : "hook: ";
    const u64 live = heap::live_blocks();
    std::optional<zerialize::ZBuffer> out;
    Out o = Ok;
    {
        heap::LibScope ls;
        try {
            if (dyn) out.emplace(zerialize::serialize<zerialize::Zera>(zerialize::dyn::Value::serializable(Hook{&p})));
            else out.emplace(zerialize::serialize<zerialize::Zera>(Hook{&p}));
        } catch (const zerialize::SerializationError&) { o = SerErr; }
        catch (const std::bad_alloc&) { o = NoMem; }
        catch (const Violation&) { throw; }
        catch (const std::exception& e) { VIOLATE("wrong-exception", std::string(p.where) + "serialize threw " + e.what()); }
    }
    if (!p.raised) {
        Op f{}; f.k = Op::Finish;
        p.settle(f, o, false);
    }
    if (out && p.raised) VIOLATE("swallowed", std::string(p.where) + "serialize returned although user code threw");
    if (out) {
        p.finished(out->data(), out->size());
        heap::LibScope ls; out.reset();
    }
    { heap::HarnessScope hs; p.cands.clear(); }
    if (heap::live_blocks() != live) SIM_COUNT("probe.left_behind_once");
}

void run(Sim& s) {
    heap::reset(s.below(2));
    const int n = 1 + static_cast<int>(s.below(3));
    for (int i = 0; i < n; ++i) { if (s.below(3) == 2) hooked(s); else direct(s); }
}
}
namespace sim { const Prop the_prop{"C14", run}; }
