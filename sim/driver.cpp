// Driver: runs seeds, replays choice sequences, shrinks failures.
//   BIN run  SEED FIRST COUNT STRIDE SECONDS OUT     runs FIRST, FIRST+STRIDE, ... ; JSON to OUT
//   BIN one  SEED INDEX OUT                          one run, traced; JSON to OUT
//   BIN replay CHOICES OUT                           replay a choice file, traced
//   BIN shrink CHOICES CLASS SECONDS OUT             minimise, keeping the violation class
#include "core.hpp"
#include "alloc.hpp"
#include <algorithm>
#include <chrono>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <map>
#include <unordered_set>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define ASAN_OPTS "detect_leaks=0:exitcode=98:allocator_may_return_null=1:handle_abort=0:print_summary=0:symbolize=0:max_malloc_fill_size=4096:check_initialization_order=0:malloc_context_size=1:quarantine_size_mb=16:"
extern "C" __attribute__((no_sanitize_address)) const char* __asan_default_options() {
    return sim::the_prop.stack_uar ? ASAN_OPTS "detect_stack_use_after_return=1" : ASAN_OPTS "detect_stack_use_after_return=0";
}
#endif

namespace sim {
Shared* sh = nullptr;
static std::unordered_set<u64>* states;
static std::map<std::string, u64>* dyn_counts;
static u64 seed_base;
static std::unordered_set<u64>* logs;

u64 hash_bytes(const void* p, std::size_t n, u64 h) {
    auto b = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
std::string hex(const void* p, std::size_t n, std::size_t max) {
    static const char d[] = "0123456789abcdef";
    auto b = static_cast<const unsigned char*>(p);
    std::string s;
    for (std::size_t i = 0; i < n && i < max; ++i) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if (n > max) s += "...(" + std::to_string(n) + ")";
    return s;
}
void Sim::trace_text(const std::string& s) {
    u64 l = sh->trace_len;
    if (l + s.size() + 2 >= Shared::TraceCap) return;
    std::memcpy(sh->trace + l, s.data(), s.size());
    sh->trace[l + s.size()] = '\n';
    sh->trace_len = l + s.size() + 1;
}
void Sim::trace_line(const char* what, u64 a, u64 b) {
    heap::HarnessScope hs;
    char buf[256];
    std::snprintf(buf, sizeof buf, "%llu %s %llu %llu", (unsigned long long)sh->events, what, (unsigned long long)a, (unsigned long long)b);
    trace_text(buf);
}
void Sim::state(u64 f) { heap::HarnessScope hs; if (states && states->size() < 2000000) states->insert(f); }
void Sim::fail_budget() { throw Violation{"harness-budget", "too many choices in one run"}; }
void count_dyn(const std::string& n, u64 k) { heap::HarnessScope hs; if (dyn_counts) (*dyn_counts)[n] += k; }

static void set_result(int outcome, const char* cls, const char* msg) {
    std::snprintf(sh->cls, sizeof sh->cls, "%s", cls);
    std::snprintf(sh->msg, sizeof sh->msg, "%s", msg);
    sh->outcome = outcome;
}
void fatal(const char* cls, const char* msg) {
    set_result(2, cls, msg);
    _exit(97);
}
static void on_terminate() {
    const char* what = "std::terminate was called";
    static char buf[512];
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); }
        catch (const Violation&) { what = "std::terminate was called (simulator exception crossed a noexcept boundary)"; }
        catch (const std::exception& x) { std::snprintf(buf, sizeof buf, "std::terminate was called: uncaught %s", x.what()); what = buf; }
        catch (...) {}
    }
    fatal("terminate", what);
}
static void on_signal(int s) {
    char c[32];
    std::snprintf(c, sizeof c, s == SIGALRM || s == SIGPROF ? "hang" : "signal-%d", s);
    set_result(2, c, s == SIGALRM || s == SIGPROF ? "no progress within the run's time limit" : "fatal signal");
    _exit(97);
}
#if defined(__SANITIZE_ADDRESS__)
static void asan_error(const char* report) {
    if (sh->outcome == 2) return;
    char c[128];
    const char* d = __asan_report_present() ? __asan_get_report_description() : nullptr;
    std::snprintf(c, sizeof c, "memory:%s", d && *d ? d : "error");
    set_result(2, c, report);
}
#endif

static int run_limit = 60;
static void cpu_limit(int sec) { struct itimerval v{}; v.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &v, nullptr); }
// One run in this process. Returns true if it held.
static bool run_once(Sim& s) {
    sh->log_hash = 0x5eed; sh->events = 0; sh->nchoices = 0; sh->outcome = 0; sh->cls[0] = sh->msg[0] = 0; sh->trace_len = 0;
    cpu_limit(run_limit); alarm(run_limit * 4);   // processor time decides; wall time only for a run that sleeps
    bool ok = true;
    try {
        the_prop.run(s);
        sh->outcome = 1;
    } catch (const Violation& v) {
        heap::in_lib = false; heap::clear_plan();
        set_result(2, v.cls.c_str(), v.msg.c_str());
        ok = false;
    } catch (const std::exception& e) {
        heap::in_lib = false; heap::clear_plan();
        set_result(2, "unexpected-exception", e.what());
        ok = false;
    } catch (...) {
        heap::in_lib = false; heap::clear_plan();
        set_result(2, "unexpected-exception", "an exception not derived from std::exception");
        ok = false;
    }
    alarm(0); cpu_limit(0);
    return ok;
}

static std::string jstr(const char* p, std::size_t n) {
    std::string o = "\"";
    for (std::size_t i = 0; i < n; ++i) {
        unsigned char c = p[i];
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}
static std::string jstr(const std::string& s) { return jstr(s.data(), s.size()); }

static std::string result_json(bool with_choices) {
    std::string o = "{\"outcome\":" + std::to_string(sh->outcome) + ",\"class\":" + jstr(sh->cls, strlen(sh->cls)) +
        ",\"msg\":" + jstr(sh->msg, strlen(sh->msg)) + ",\"hash\":\"" + std::to_string(sh->log_hash) + "\",\"events\":" + std::to_string(sh->events) +
        ",\"run\":" + std::to_string(sh->run_index) + ",\"nchoices\":" + std::to_string(sh->nchoices);
    if (with_choices) {
        o += ",\"choices\":[";
        for (u64 i = 0; i < sh->nchoices && i < Shared::MaxChoices; ++i) { if (i) o += ','; o += std::to_string(sh->choices[i]); }
        o += "],\"trace\":" + jstr(sh->trace, sh->trace_len);
    }
    return o + "}";
}

// Runs `f` in a forked child; the result is in *sh whatever happens to the child.
template<class F> static void isolated(F f) {
    sh->outcome = 0; sh->cls[0] = sh->msg[0] = 0;
    pid_t p = fork();
    if (p == 0) { f(); _exit(0); }
    int st = 0;
    waitpid(p, &st, 0);
    if (sh->outcome == 0) {
        char c[64];
        if (WIFSIGNALED(st)) std::snprintf(c, sizeof c, "signal-%d", WTERMSIG(st)); else std::snprintf(c, sizeof c, "exit-%d", WEXITSTATUS(st));
        set_result(2, c, "the run ended the process");
    }
}

// One run in a process of its own; what it reached is merged here.
static bool run_forked(Sim& s) {
    sh->nstates = 0; sh->ncounters = 0; sh->nontrivial = 0;
    isolated([&] {
        const bool ok = run_once(s);
        sh->nontrivial = s.was_nontrivial();
        auto put = [](const char* name, u64 n) {
            const u64 i = sh->ncounters;
            if (n == 0 || i >= 512) return;
            std::snprintf(sh->counters[i].name, sizeof sh->counters[i].name, "%s", name); sh->counters[i].n = n;
            sh->ncounters = i + 1;
        };
        for (auto c = Counter::head(); c; c = c->next) put(c->name, c->n);
        if (dyn_counts) for (auto& [n, v] : *dyn_counts) put(n.c_str(), v);
        if (states) for (u64 x : *states) { if (sh->nstates >= Shared::MaxStates) break; sh->states[sh->nstates] = x; sh->nstates = sh->nstates + 1; }
        _exit(ok ? 0 : 1);
    });
    if (sh->nontrivial) s.nontrivial();
    return sh->outcome == 1;
}

static std::vector<std::uint32_t> read_choices(const char* f) {
    std::vector<std::uint32_t> v; std::ifstream in(f); std::uint32_t x; while (in >> x) v.push_back(x); return v;
}

static void shrink(std::vector<std::uint32_t> cur, const std::string& cls, double secs, const char* out) {
    using clk = std::chrono::steady_clock;
    auto t0 = clk::now();
    u64 tried = 0;
    auto left = [&] { return std::chrono::duration<double>(clk::now() - t0).count() < secs; };
    std::vector<std::uint32_t> last_used;
    auto fails = [&](const std::vector<std::uint32_t>& c) {
        ++tried;
        isolated([&] { Sim s; s.start_replay(c.data(), c.size()); run_once(s); });
        if (sh->outcome == 2 && cls == sh->cls) {
            last_used.assign(sh->choices, sh->choices + std::min<u64>(static_cast<u64>(sh->nchoices), Shared::MaxChoices));
            return true;
        }
        return false;
    };
    sh->tracing = 0;
    run_limit = std::min(run_limit, cls == std::string("hang") ? 5 : 20);
    if (!fails(cur)) { std::ofstream(out) << "{\"ok\":false,\"tried\":1}"; return; }
    cur = last_used;
    auto simplify = [&] { while (!cur.empty() && cur.back() == 0) cur.pop_back(); };
    simplify();
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (std::size_t w = std::max<std::size_t>(1, cur.size() / 2); w >= 1 && left(); w /= 2) {   // delete chunks
            for (std::size_t i = 0; i < cur.size() && left();) {
                auto c = cur; c.erase(c.begin() + long(i), c.begin() + long(std::min(i + w, c.size())));
                if (fails(c)) { auto lu = last_used; while (!lu.empty() && lu.back() == 0) lu.pop_back(); if (lu.size() < cur.size()) { cur = lu; progress = true; continue; } }
                i += w;
            }
            if (w == 1) break;
        }
        for (std::size_t w = std::max<std::size_t>(1, cur.size() / 4); w >= 1 && left(); w /= 2) {   // zero chunks
            for (std::size_t i = 0; i < cur.size() && left(); i += w) {
                auto c = cur; bool any = false;
                for (std::size_t j = i; j < std::min(i + w, c.size()); ++j) { any |= c[j] != 0; c[j] = 0; }
                if (any && fails(c)) { cur = c; progress = true; }
            }
            if (w == 1) break;
        }
        for (std::size_t i = 0; i < cur.size() && left(); ++i) {                                     // lower values
            std::uint32_t lo = 0, hi = cur[i];
            while (lo < hi && left()) {
                std::uint32_t mid = lo + (hi - lo) / 2;
                auto c = cur; c[i] = mid;
                if (fails(c)) { cur = c; hi = mid; if (mid < cur[i]) progress = true; } else lo = mid + 1;
            }
        }
        simplify();
        if (cur.size() > 20000) break;
    }
    if (!fails(cur)) { std::ofstream(out) << "{\"ok\":false,\"tried\":" << tried << "}"; return; }
    std::ofstream o(out);
    o << "{\"ok\":true,\"tried\":" << tried << ",\"choices\":[";
    for (std::size_t i = 0; i < cur.size(); ++i) { if (i) o << ','; o << cur[i]; }
    o << "]}";
}

static u64 run_seed(u64 i) { return mix(seed_base * 0x100000001b3ull + 0x51ull) ^ mix(i + 0x1234567ull); }

static int main_(int argc, char** argv) {
    if (argc < 2) return 2;
    std::string mode = argv[1];
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (sh == MAP_FAILED) return 3;
    std::set_terminate(on_terminate);
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGALRM, SIGPROF, SIGABRT, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_error_report_callback(asan_error);
#else
    for (int s : {SIGSEGV, SIGBUS}) sigaction(s, &sa, nullptr);
#endif
    if (mode == "run" && argc == 8) {
        seed_base = std::strtoull(argv[2], nullptr, 10);
        u64 first = std::strtoull(argv[3], nullptr, 10), count = std::strtoull(argv[4], nullptr, 10), stride = std::strtoull(argv[5], nullptr, 10);
        double secs = std::strtod(argv[6], nullptr);
        // Runs happen in a child, so that a crash still yields a report here.
        isolated([&] {
            states = new std::unordered_set<u64>; logs = new std::unordered_set<u64>; dyn_counts = new std::map<std::string, u64>;
            using clk = std::chrono::steady_clock;
            auto t0 = clk::now();
            Sim s;
            bool ok = true;
            std::unordered_set<u64> m_states; std::map<std::string, u64> m_counts;
            for (u64 k = 0; k < count; ++k) {
                const u64 idx = first + k * stride;
                sh->run_index = idx;
                s.start_seed(run_seed(idx));
                if (!(the_prop.fork_each ? run_forked(s) : run_once(s))) { ok = false; break; }
                if (the_prop.fork_each) {
                    for (u64 i = 0; i < sh->nstates; ++i) if (m_states.size() < 2000000) m_states.insert(sh->states[i]);
                    for (u64 i = 0; i < sh->ncounters; ++i) m_counts[sh->counters[i].name] += sh->counters[i].n;
                }
                sh->runs_done = sh->runs_done + 1;
                sh->total_hash = sh->total_hash ^ mix(sh->log_hash + idx);
                if (s.was_nontrivial()) logs->insert(static_cast<u64>(sh->log_hash));
                if ((k & 15) == 15 && std::chrono::duration<double>(clk::now() - t0).count() > secs) break;
            }
            if (the_prop.fork_each) { states->swap(m_states); dyn_counts->swap(m_counts); }
            std::ofstream o(std::string(argv[7]) + ".cov");
            o << "{\"counters\":{";
            bool f = true;
            for (auto c = Counter::head(); c; c = c->next) (*dyn_counts)[c->name] += c->n;
            for (auto& [n, v] : *dyn_counts) { if (!f) o << ','; f = false; o << jstr(n) << ':' << v; }
            o << "}}";
            o.close();
            std::ofstream b(std::string(argv[7]) + ".states", std::ios::binary);
            for (u64 x : *states) b.write(reinterpret_cast<const char*>(&x), 8);
            b.close();
            std::ofstream l(std::string(argv[7]) + ".logs", std::ios::binary);
            for (u64 x : *logs) l.write(reinterpret_cast<const char*>(&x), 8);
            l.close();
            if (ok) sh->outcome = 1;
            _exit(0);
        });
        std::ofstream o(argv[7]);
        std::string r = result_json(false);
        r.pop_back();
        o << r << ",\"runs_done\":" << sh->runs_done << ",\"total_hash\":\"" << sh->total_hash << "\",\"sim_time_us\":" << sh->sim_time << "}";
        return 0;
    }
    if (mode == "hashes" && argc == 6) {   // determinism check: one line per run
        seed_base = std::strtoull(argv[2], nullptr, 10);
        u64 first = std::strtoull(argv[3], nullptr, 10), count = std::strtoull(argv[4], nullptr, 10), stride = std::strtoull(argv[5], nullptr, 10);
        for (u64 k = 0; k < count; ++k) {
            Sim s; s.start_seed(run_seed(first + k * stride));
            if (the_prop.fork_each) run_forked(s); else run_once(s);
            std::printf("%llu %llu %llu %d\n", (unsigned long long)(first + k * stride), (unsigned long long)sh->log_hash, (unsigned long long)sh->nchoices, sh->outcome);
        }
        return 0;
    }
    if (mode == "one" && argc == 5) {
        seed_base = std::strtoull(argv[2], nullptr, 10);
        u64 idx = std::strtoull(argv[3], nullptr, 10);
        sh->tracing = 1;
        isolated([&] { Sim s; sh->run_index = idx; s.start_seed(run_seed(idx)); run_once(s); });
        std::ofstream(argv[4]) << result_json(true);
        return 0;
    }
    if (mode == "replay" && argc == 4) {
        auto c = read_choices(argv[2]);
        sh->tracing = 1;
        isolated([&] { Sim s; s.start_replay(c.data(), c.size()); run_once(s); });
        std::ofstream(argv[3]) << result_json(true);
        return 0;
    }
    if (mode == "shrink" && argc == 6) { shrink(read_choices(argv[2]), argv[3], std::strtod(argv[4], nullptr), argv[5]); return 0; }
    return 2;
}
} // namespace sim

int main(int argc, char** argv) {
    // No address randomisation: pointers, and what depends on them, repeat.
    if (!std::getenv("SIM_NO_ASLR_SET")) {
        setenv("SIM_NO_ASLR_SET", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    struct rlimit rl{}; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    return sim::main_(argc, argv);
}
