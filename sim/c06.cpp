// C06: exceptions from user serialize code reach the caller and leave nothing behind; serialize
// calls made from inside user code do not disturb each other.
#include "ops.hpp"
#include "faults.hpp"
#include <system_error>
using namespace sim;

namespace {
struct Custom { int a; std::string b; };
struct Derived : std::runtime_error { int code; Derived(int c, const std::string& m) : std::runtime_error(m), code(c) {} };
enum { XCustom, XInt, XString, XDerived, XSer, XDeser, XLogic, XSystem, XBadAlloc, XPtr, XKinds };

[[noreturn]] void raise(int kind, int code) {
    heap::HarnessScope hs;
    const std::string m = "user error " + std::to_string(code);
    static const int anchor = 0;
    switch (kind) {
        case XCustom: throw Custom{code, m};
        case XInt: throw code;
        case XString: throw m;
        case XDerived: throw Derived(code, m);
        case XSer: throw zerialize::SerializationError(m);
        case XDeser: throw zerialize::DeserializationError(m);
        case XLogic: throw std::logic_error(m);
        case XSystem: throw std::system_error(code, std::generic_category(), m);
        case XPtr: throw &anchor;
        default: throw std::bad_alloc();
    }
}
// What was caught, as text that identifies type and content.
std::string caught() {
    heap::HarnessScope hs;
    try { throw; }
    catch (const Violation&) { throw; }
    catch (const Custom& c) { return "custom " + std::to_string(c.a) + " " + c.b; }
    catch (int i) { return "int " + std::to_string(i); }
    catch (const std::string& m) { return "string " + m; }
    catch (const int* p) { return "pointer"; }
    catch (const Derived& d) { return "derived " + std::to_string(d.code) + " " + d.what(); }
    catch (const zerialize::SerializationError& e) { return std::string("ser ") + e.what(); }
    catch (const zerialize::DeserializationError& e) { return std::string("deser ") + e.what(); }
    catch (const std::system_error& e) { return "system " + std::to_string(e.code().value()) + " " + e.what(); }
    catch (const std::bad_alloc&) { return "bad_alloc"; }
    catch (const std::logic_error& e) { return std::string("logic ") + e.what(); }
    catch (const std::exception& e) { return std::string("other std::exception ") + e.what(); }
    catch (...) { return "something else"; }
}
std::string expected(int kind, int code) {
    try { raise(kind, code); } catch (...) { return caught(); }
}

template<class P> bool attempt(const MV& v, std::string& out, std::string& what) {
    try {
        heap::LibScope ls;
        auto z = encode<P>(v);
        heap::HarnessScope hs;
        out.assign(reinterpret_cast<const char*>(z.data()), z.size());
        return true;
    } catch (const Violation&) { throw; }
    catch (...) { what = caught(); }
    return false;
}
bool attempt_p(int p, const MV& v, std::string& out, std::string& what) {
    return with_protocol(p, [&](auto t) { return attempt<typename decltype(t)::type>(v, out, what); });
}

struct Job { int p; MV v; std::string ref; u64 hooks; };

// What user code does at its k-th point, per nesting level.
struct Act { enum { Throw, Nested, NestedThrowCaught, NestedThrowEscapes, Read, TranslateIn } kind; u64 at; int job; int xkind; int code; };
struct Script : usr::Hooks {
    Sim& s; std::vector<Job>& jobs; std::vector<Act> acts; u64 n = 0; int level = 0; std::string outer_throw;
    Script(Sim& s_, std::vector<Job>& j) : s(s_), jobs(j) {}
    void at(int) override {
        heap::HarnessScope hs;
        const u64 k = n++;
        for (auto& a : acts) if (a.at == k) { a.at = ~0ull; fire(a); }
    }
    void fire(Act& a) {
        Job& j = jobs[static_cast<std::size_t>(a.job)];
        s.ev("user", static_cast<u64>(a.kind), static_cast<u64>(level));
        if (a.kind == Act::Throw) { SIM_COUNT("fault.user_throw"); if (level == 0) outer_throw = expected(a.xkind, a.code); raise(a.xkind, a.code); }
        ++level;
        struct L { int& l; ~L() { --l; } } lg{level};
        std::string out, what;
        if (a.kind == Act::Nested) {
            SIM_COUNT("op.nested_serialize");
            if (!attempt_p(j.p, j.v, out, what)) {   // an act planned for inside may throw out of it
                if (what.rfind("other", 0) == 0 || what == "something else") VIOLATE("wrong-exception", "nested serialize threw " + what);
            } else if (out != j.ref) VIOLATE("nested-disturbed", std::string("a serialize call made inside user code gave other bytes: ") + pname(j.p));
        } else if (a.kind == Act::NestedThrowCaught || a.kind == Act::NestedThrowEscapes) {
            // a nested call that fails half way
            SIM_COUNT("fault.nested_throw");
            Script inner(s, jobs);
            inner.acts.push_back(Act{Act::Throw, s.below(std::max<u64>(1, j.hooks)), 0, a.xkind, a.code});
            auto* prev = usr::hooks(); usr::hooks() = &inner;
            const bool ok = attempt_p(j.p, j.v, out, what);
            usr::hooks() = prev;
            if (ok ? j.hooks != 0 : what != expected(a.xkind, a.code)) VIOLATE("exception-lost", "a nested serialize whose user code threw: " + (ok ? std::string("returned a buffer") : "threw " + what));
            if (ok && out != j.ref) VIOLATE("nested-disturbed", "nested bytes differ");
            if (a.kind == Act::NestedThrowEscapes && !ok) { if (level == 1) outer_throw = expected(a.xkind, a.code); raise(a.xkind, a.code); }
        } else {   // reading or translating inside user code
            SIM_COUNT("op.nested_read");
            auto bytes = to_vec(j.ref);
            with_protocol(j.p, [&](auto t) {
                using P = typename decltype(t)::type;
                auto* prev = usr::hooks(); usr::hooks() = nullptr;
                heap::LibScope ls;
                Des<P> d{std::span<const std::uint8_t>(bytes)};
                VerifyOpt o; o.exact_sign = Traits<P>::exact_sign; o.negative = false;
                if (a.kind == Act::Read) verify(s, d, j.v, o);
                else { auto q = zerialize::translate<zerialize::Zera>(d); VerifyOpt o2; o2.negative = false; verify(s, q, j.v, o2); }
                heap::HarnessScope h2;
                usr::hooks() = prev;
            });
        }
    }
};
struct HookScope { usr::Hooks* prev; explicit HookScope(usr::Hooks* h) : prev(usr::hooks()) { usr::hooks() = h; } ~HookScope() { usr::hooks() = prev; } };

void run(Sim& s) {
    usr::hooks() = nullptr;
    heap::reset(s.below(2));
    std::vector<Job> jobs;
    const int nj = 1 + static_cast<int>(s.below(3));
    for (int i = 0; i < nj; ++i) {
        GenOpt g; g.budget = 3 + static_cast<int>(s.below(i == 0 ? 24 : 10)); g.big = false;
        Job j{static_cast<int>(s.below(NProto)), Gen(s, g).value(), {}, 0};
        Script counter(s, jobs);
        HookScope h(&counter);
        std::string what;
        if (!attempt_p(j.p, j.v, j.ref, what)) VIOLATE("refused", "serialize failed: " + what + " for " + show(j.v));
        j.hooks = counter.n;
        s.ev("job", static_cast<u64>(j.p), shape_hash(j.v)); s.ev("ref", j.hooks, hash_bytes(j.ref.data(), j.ref.size()));
        if (s.tracing()) s.note(std::string(pname(j.p)) + " " + show(j.v));
        jobs.push_back(std::move(j));
    }
    const int tries = 1 + static_cast<int>(s.below(5));
    for (int t = 0; t < tries; ++t) {
        Job& j = jobs[s.below(jobs.size())];
        std::vector<Act> acts;
        const int na = 1 + static_cast<int>(s.below(3));
        bool may_throw = false;
        std::vector<std::string> allowed;
        for (int i = 0; i < na; ++i) {
            Act a;
            a.kind = static_cast<decltype(a.kind)>(s.pick<int>({Act::Throw, Act::Throw, Act::Nested, Act::NestedThrowCaught, Act::NestedThrowEscapes, Act::Read, Act::TranslateIn}));
            a.at = s.below(std::max<u64>(1, j.hooks) + (i ? 4 : 0));
            a.job = static_cast<int>(s.below(jobs.size()));
            a.xkind = static_cast<int>(s.below(XKinds)); a.code = 1 + static_cast<int>(s.below(100));
            if (a.kind == Act::Throw || a.kind == Act::NestedThrowEscapes) { may_throw = true; allowed.push_back(expected(a.xkind, a.code)); }
            acts.push_back(a);
        }
        bool ok = false;
        std::string out, what;
        u64 before = heap::live_blocks(), leaked = 0;
        for (int rep = 0; rep < 2; ++rep) {
            Script sc(s, jobs); sc.acts = acts;
            bool throw_fired = false;
            { HookScope h(&sc); out.clear(); what.clear(); ok = attempt_p(j.p, j.v, out, what); }
            // which planned throws fired at the outer level (nested ones are judged inside)
            for (auto& a : sc.acts) if (a.at == ~0ull && (a.kind == Act::Throw || a.kind == Act::NestedThrowEscapes)) throw_fired = true;
            s.ev("try", ok, hash_bytes(what.data(), what.size()));
            s.state(mix(shape_hash(j.v) ^ static_cast<u64>(j.p)) + static_cast<u64>(acts[0].kind) * 4096 + acts[0].at * 2 + ok);
            if (throw_fired) s.nontrivial();
            if (ok && out != j.ref) VIOLATE("outer-disturbed", std::string("serialize gave other bytes because of calls made inside user code: ") + pname(j.p) + " " + show(j.v));
            if (!ok && !throw_fired) VIOLATE("wrong-exception", "serialize threw " + what + " although user code did not throw");
            if (!ok && std::find(allowed.begin(), allowed.end(), what) == allowed.end()) VIOLATE("exception-changed", "user code threw something else than what serialize threw: " + what);
            if (!sc.outer_throw.empty() && !ok && what != sc.outer_throw) VIOLATE("exception-changed", "user code threw " + sc.outer_throw + " but serialize threw " + what);
            if (ok && !sc.outer_throw.empty()) VIOLATE("exception-lost", std::string("user code threw, but serialize returned a buffer: ") + pname(j.p));
            const u64 live = heap::live_blocks();
            if (live == before) break;
            if (rep) { if (live > before) VIOLATE("leak", std::string("serialize abandoned by a user exception leaked: ") + pname(j.p) + " " + show(j.v)); }
            leaked = live - before; before = live;
        }
        (void)may_throw; (void)leaked;
        // afterwards everything works as if nothing had happened
        Job& k = jobs[s.below(jobs.size())];
        std::string again;
        if (!attempt_p(k.p, k.v, again, what)) VIOLATE("not-recovered", "serialize fails after an earlier call was abandoned: " + what);
        if (again != k.ref) VIOLATE("not-recovered", std::string("serialize gives other bytes after an earlier call was abandoned: ") + pname(k.p));
    }
}
}
namespace sim { const Prop the_prop{"C06", run}; }
