// Simulator core: one seed decides everything.
//
// A run is a pure function of (code, choice sequence). The choice sequence is drawn from a
// PRNG seeded by the run's seed, and recorded; replay feeds a recorded sequence back. Every
// generated operation, fault and scheduling decision goes through Sim::below(). Zero is
// always the simplest choice (no fault, smallest value), which is what the shrinker aims for.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include <initializer_list>

namespace sim {

using u64 = std::uint64_t;

// Results live in a page shared with the parent, so they survive a crash of the run.
struct Shared {
    static constexpr std::size_t MaxChoices = 1u << 20;
    static constexpr std::size_t TraceCap = 1u << 18;
    volatile u64 run_index;      // run in progress
    volatile u64 runs_done;
    volatile u64 log_hash;       // hash of the event log of the run in progress
    volatile u64 events;
    volatile u64 nchoices;
    volatile u64 total_hash;     // over all finished runs, order independent
    volatile u64 sim_time;       // simulated microseconds, all runs
    volatile int outcome;        // 0 running, 1 ok, 2 violation
    volatile int tracing;
    char cls[256];               // violation class
    char msg[2048];              // violation text
    volatile u64 trace_len;
    // what a run in a process of its own reached (Prop::fork_each)
    static constexpr std::size_t MaxStates = 1u << 13;
    volatile int nontrivial;
    volatile u64 nstates;
    u64 states[MaxStates];
    volatile u64 ncounters;
    struct { char name[56]; u64 n; } counters[512];
    std::uint32_t choices[MaxChoices];
    char trace[TraceCap];
};
extern Shared* sh;

struct Violation { std::string cls, msg; };

inline u64 mix(u64 x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
constexpr u64 fnv(const char* s) {
    u64 h = 1469598103934665603ull;
    while (*s) { h ^= static_cast<unsigned char>(*s++); h *= 1099511628211ull; }
    return h;
}
u64 hash_bytes(const void* p, std::size_t n, u64 h = 1469598103934665603ull);

class Sim {
public:
    // ---- choices ----
    void start_seed(u64 seed) { replay_ = false; s_ = seed; pos_ = 0; now_ = 0; nontrivial_ = false; }
    void start_replay(const std::uint32_t* p, std::size_t n) { replay_ = true; rp_ = p; rn_ = n; pos_ = 0; now_ = 0; nontrivial_ = false; }

    u64 below(u64 n) {           // 0 .. n-1
        if (n <= 1) return 0;
        if (n > 0xffffffffull) n = 0xffffffffull;
        std::uint32_t v;
        if (replay_) v = pos_ < rn_ ? static_cast<std::uint32_t>(rp_[pos_] % n) : 0;
        else { s_ += 0x9e3779b97f4a7c15ull; v = static_cast<std::uint32_t>(((mix(s_) >> 32) * n) >> 32); }
        if (pos_ < Shared::MaxChoices) sh->choices[pos_] = v;
        else fail_budget();
        ++pos_;
        sh->nchoices = pos_;
        return v;
    }
    bool chance(u64 num, u64 den) { return below(den) >= den - num; }  // 0 -> false
    template<class T> const T& pick(std::initializer_list<T> l) { return l.begin()[below(l.size())]; }
    template<class C> auto& of(C& c) { return c[below(c.size())]; }
    u64 bits64() { u64 a = below(1u << 16), b = below(1u << 16), c = below(1u << 16), d = below(1u << 16); return a | b << 16 | c << 32 | d << 48; }
    std::size_t choices() const { return pos_; }

    // ---- simulated time (microseconds) ----
    u64 now() const { return now_; }
    void advance_to(u64 t) { if (t > now_) { sh->sim_time = sh->sim_time + (t - now_); now_ = t; } }

    // ---- event log ----
    void ev(const char* what, u64 a = 0, u64 b = 0) {
        u64 h = sh->log_hash;
        h = mix(h ^ fnv(what)); h = mix(h + a); h = mix(h ^ b);
        sh->log_hash = h; sh->events = sh->events + 1;
        if (sh->tracing) trace_line(what, a, b);
    }
    void note(const std::string& s) { if (sh->tracing) trace_text(s); }   // trace only
    bool tracing() const { return sh->tracing; }

    [[noreturn]] static void violate(std::string cls, std::string msg) { throw Violation{std::move(cls), std::move(msg)}; }

    // ---- what was reached ----
    void state(u64 fingerprint);   // distinct-state measure
    void nontrivial() { nontrivial_ = true; }   // this run did what the property is about
    bool was_nontrivial() const { return nontrivial_; }

private:
    void trace_line(const char* what, u64 a, u64 b);
    void trace_text(const std::string& s);
    [[noreturn]] void fail_budget();
    bool replay_ = false, nontrivial_ = false;
    u64 s_ = 0, now_ = 0;
    const std::uint32_t* rp_ = nullptr;
    std::size_t rn_ = 0, pos_ = 0;
};

// Named counters (fault kinds fired, probes reached), reported as evidence.
struct Counter {
    const char* name; u64 n = 0; Counter* next;
    static Counter*& head() { static Counter* h = nullptr; return h; }
    explicit Counter(const char* nm) : name(nm), next(head()) { head() = this; }
};
#define SIM_COUNT(name_) do { static ::sim::Counter c_{name_}; ++c_.n; } while (0)
#define SIM_COUNT_N(name_, k_) do { static ::sim::Counter c_{name_}; c_.n += (k_); } while (0)
void count_dyn(const std::string& name, u64 k = 1);

// A fatal finding from a place that must not throw (allocator, terminate handler, deleter).
[[noreturn]] void fatal(const char* cls, const char* msg);

std::string hex(const void* p, std::size_t n, std::size_t max = 64);

// Provided by each property's harness.
struct Prop {
    const char* id;
    void (*run)(Sim&);
    bool stack_uar = false;   // also detect use of a returned function's frame (slow)
    bool fork_each = false;   // each run in a fresh process: nothing is initialised yet, every time
};
extern const Prop the_prop;

} // namespace sim
