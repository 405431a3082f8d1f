// The runtime behind tsrt.hpp. The library and harness are compiled with -fsanitize=thread,
// whose calls land here instead of in a sanitizer library. Compiled without instrumentation.
#include "tsrt.hpp"
#include "alloc.hpp"
#include <cstdlib>
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>

extern "C" __thread int sim_sched_busy = 0;

namespace sim::sched {
namespace {
constexpr int NT = 6;            // the main thread and up to five others
constexpr u64 Forever = ~0ull;
struct VC { std::uint32_t c[NT]; };
void join(VC& a, const VC& b) { for (int i = 0; i < NT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

struct Th {
    int id = 0;
    pthread_t th{};
    sem_t sem{};
    enum { Runnable, Blocked, Done } st = Runnable;
    const void* waits = nullptr;
    VC vc{}, pending{}, fenced{};
    std::uint8_t *lo = nullptr, *hi = nullptr;
    u64 slice = Forever;
    int spin = 0;
    std::function<void()>* body = nullptr;
};
Th ths[NT];
int nth = 0;
bool active = false;
Sim* S = nullptr;
int mode_ = 0;
u64 steps_ = 0, switches_ = 0;
sem_t main_sem;
pthread_key_t exit_key;
__thread Th* me = nullptr;

// ---- what was accessed: one cell per 8 bytes
struct Cell { std::uintptr_t key; std::uint32_t rc[NT], wc[NT]; std::uint8_t rm[NT], wm[NT]; std::uint32_t rpc[NT], wpc[NT]; };
constexpr std::size_t NCell = std::size_t(1) << 17;
Cell* cells = nullptr;
std::size_t ncells = 0;
Cell* find(std::uintptr_t g, bool make) {
    std::size_t i = (g ^ (g >> 17) * 0x9e37) & (NCell - 1);
    for (std::size_t k = 0; k < 4096; ++k, i = (i + 1) & (NCell - 1)) {
        if (cells[i].key == g) return &cells[i];
        if (cells[i].key == 0) {
            if (!make || ncells > NCell / 8 * 7) return nullptr;
            ++ncells; cells[i].key = g; return &cells[i];
        }
    }
    return nullptr;
}
// ---- memory of shared libraries is not the library's state
struct Range { std::uintptr_t lo, hi; } libs[64]; int nlibs = 0;
int add_lib(struct dl_phdr_info* i, std::size_t, void*) {
    static bool first = true;
    if (first) { first = false; return 0; }   // the program itself
    std::uintptr_t lo = ~std::uintptr_t(0), hi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_LOAD) {
        auto a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
        if (a < lo) lo = a;
        if (a + i->dlpi_phdr[k].p_memsz > hi) hi = a + i->dlpi_phdr[k].p_memsz;
    }
    if (nlibs < 64 && lo < hi) libs[nlibs++] = {lo, hi};
    return 0;
}
std::uintptr_t text_base = 0;

void name_of(std::uint32_t pc, char* out, std::size_t n) {
    Dl_info d{};
    void* p = reinterpret_cast<void*>(text_base + pc);
    if (dladdr(p, &d) && d.dli_sname) std::snprintf(out, n, "%.300s+0x%lx", d.dli_sname, static_cast<unsigned long>(static_cast<char*>(p) - static_cast<char*>(d.dli_saddr)));
    else std::snprintf(out, n, "pc 0x%x", pc);
}
[[noreturn]] void race(std::uintptr_t a, int t, bool w, std::uint32_t pc, int u, bool uw, std::uint32_t upc) {
    ++sim_sched_busy;
    heap::in_lib = false;
    static char n1[400], n2[400], m[1200];
    name_of(pc, n1, sizeof n1); name_of(upc, n2, sizeof n2);
    std::snprintf(m, sizeof m, "unsynchronised access: thread %d %s and thread %d %s the same memory, no ordering between them (address %s): %s | %s", t, w ? "writes" : "reads", u, uw ? "writes" : "reads",
                  heap::owns(reinterpret_cast<void*>(a)) ? "on the heap" : "elsewhere", n1, n2);
    S->ev("race", static_cast<u64>(t), static_cast<u64>(u));
    fatal("race", m);
}
void touch(Th* t, std::uintptr_t a, std::size_t n, bool w, void* pcv) {
    const auto pc = static_cast<std::uint32_t>(reinterpret_cast<std::uintptr_t>(pcv) - text_base);
    const std::uintptr_t end = a + n;
    for (std::uintptr_t g = a >> 3; g << 3 < end; ++g) {
        const unsigned lo = g << 3 < a ? static_cast<unsigned>(a & 7) : 0, hi = (g + 1) << 3 > end ? static_cast<unsigned>(end - (g << 3)) : 8;
        const std::uint8_t m = static_cast<std::uint8_t>(((1u << hi) - 1) & ~((1u << lo) - 1));
        Cell* c = find(g, true);
        if (!c) return;
        const int id = t->id;
        for (int u = 0; u <= nth; ++u) {
            if (u == id) continue;
            if (c->wc[u] > t->vc.c[u] && (c->wm[u] & m)) race(a, id, w, pc, u, true, c->wpc[u]);
            if (w && c->rc[u] > t->vc.c[u] && (c->rm[u] & m)) race(a, id, w, pc, u, false, c->rpc[u]);
        }
        const std::uint32_t now = t->vc.c[id];
        if (w) { c->wm[id] = c->wc[id] == now ? static_cast<std::uint8_t>(c->wm[id] | m) : m; c->wc[id] = now; c->wpc[id] = pc; }
        else { c->rm[id] = c->rc[id] == now ? static_cast<std::uint8_t>(c->rm[id] | m) : m; c->rc[id] = now; c->rpc[id] = pc; }
    }
}

// ---- scheduling
void draw_slice(Th* t) {
    const u64 r = S->below(1u << 16);
    if (r == 0 || mode_ == Serial) { t->slice = Forever; return; }
    switch (mode_) {
        case Short: t->slice = 1 + r % 4; break;
        case Medium: t->slice = 1 + r % 64; break;
        case Long: t->slice = 1 + r % 2000; break;
        case Log: t->slice = 1 + (r >> (r % 17)); break;
        default: t->slice = 1 + r % 3; break;
    }
}
void hand_to(Th* to, Th* from) {
    ++switches_;
    S->ev("switch", static_cast<u64>(from ? from->id : 0) * 8 + static_cast<u64>(to->id), steps_);
    to->spin = 0;
    sem_post(&to->sem);
}
void wait_turn(Th* t) { while (sem_wait(&t->sem) != 0) {} }
// `from` gives up the processor (it is blocked, done, or its slice is over)
void reschedule(Th* from) {
    ++sim_sched_busy;
    Th* can[NT]; int n = 0;
    for (int i = 1; i <= nth; ++i) if (&ths[i] != from && ths[i].st == Th::Runnable) can[n++] = &ths[i];
    if (n == 0) {
        if (from->st == Th::Runnable) { draw_slice(from); from->spin = 0; --sim_sched_busy; return; }
        if (from->st == Th::Done) {
            bool all = true;
            for (int i = 1; i <= nth; ++i) if (ths[i].st != Th::Done) all = false;
            if (all) { sem_post(&main_sem); --sim_sched_busy; return; }
        }
        fatal("deadlock", "threads wait for each other and none can go on");
    }
    Th* to = can[S->below(static_cast<u64>(n))];
    draw_slice(to);
    hand_to(to, from);
    --sim_sched_busy;
    if (from->st != Th::Done) wait_turn(from);
}
void block_on(Th* t, const void* a) { t->st = Th::Blocked; t->waits = a; reschedule(t); }
void wake(const void* a) { for (int i = 1; i <= nth; ++i) if (ths[i].st == Th::Blocked && ths[i].waits == a) { ths[i].st = Th::Runnable; ths[i].waits = nullptr; } }

enum PointKind { Mem, Sync };
inline void point(Th* t, PointKind k) {
    ++steps_;
    if (steps_ > 40000000) fatal("hang", "no progress within forty million steps");
    if (k == Sync && ++t->spin > 300) { reschedule(t); return; }   // a thread that spins lets others go on
    if (mode_ == SyncOnly && k == Mem) return;
    if (t->slice == Forever || --t->slice) return;
    reschedule(t);
}
inline Th* tracked() { Th* t = me; return t && !sim_sched_busy && heap::in_lib ? t : nullptr; }
inline bool foreign(std::uintptr_t a) { for (int i = 0; i < nlibs; ++i) if (a >= libs[i].lo && a < libs[i].hi) return true; return false; }
inline void access(const volatile void* p, std::size_t n, bool w, void* pc) {
    Th* t = tracked();
    if (!t || n == 0) return;
    const auto a = reinterpret_cast<std::uintptr_t>(p);
    if (a >= reinterpret_cast<std::uintptr_t>(t->lo) && a < reinterpret_cast<std::uintptr_t>(t->hi)) return;
    if (foreign(a)) return;
    point(t, Mem);
    touch(t, a, n, w, pc);
}

// ---- synchronisation objects
struct SyncVar { const void* key; VC vc; int owner; int readers; int depth; bool running; };
constexpr std::size_t NSync = 1 << 12;
SyncVar syncs[NSync];
SyncVar& sv(const volatile void* p) {
    const void* k = const_cast<const void*>(p);
    std::size_t i = mix(reinterpret_cast<std::uintptr_t>(k)) & (NSync - 1);
    for (std::size_t n = 0; n < NSync; ++n, i = (i + 1) & (NSync - 1)) {
        if (syncs[i].key == k) return syncs[i];
        if (!syncs[i].key) { syncs[i].key = k; return syncs[i]; }
    }
    fatal("harness-budget", "too many synchronisation objects");
}
void acquire(Th* t, SyncVar& v) { join(t->vc, v.vc); }
void release(Th* t, SyncVar& v) { join(v.vc, t->vc); ++t->vc.c[t->id]; }

bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// An atomic access; the operation itself follows at once, with no switch in between.
void atomic(const volatile void* p, std::size_t n, bool load, bool store, int mo, void* pc) {
    Th* t = tracked();
    if (!t) return;
    const auto a = reinterpret_cast<std::uintptr_t>(p);
    if (a >= reinterpret_cast<std::uintptr_t>(t->lo) && a < reinterpret_cast<std::uintptr_t>(t->hi)) return;
    point(t, Sync);
    SyncVar& v = sv(p);
    if (load) { if (is_acq(mo)) acquire(t, v); else join(t->pending, v.vc); }
    if (store) { if (is_rel(mo)) release(t, v); else { bool any = false; for (auto x : t->fenced.c) any |= x != 0; if (any) join(v.vc, t->fenced); } }
    // An atomic access conflicts with a plain access by another thread (as a read, so that two atomics never conflict).
    const std::uintptr_t g = a >> 3;
    if (Cell* c = find(g, false)) {
        const std::uint8_t m = static_cast<std::uint8_t>(((1u << n) - 1) << (a & 7));
        for (int u = 0; u <= nth; ++u) if (u != t->id) {
            if (c->wc[u] > t->vc.c[u] && (c->wm[u] & m)) race(a, t->id, store, static_cast<std::uint32_t>(reinterpret_cast<std::uintptr_t>(pc) - text_base), u, true, c->wpc[u]);
        }
    }
}
void fence(int mo) {
    Th* t = tracked();
    if (!t) return;
    point(t, Sync);
    if (is_acq(mo)) join(t->vc, t->pending);
    if (is_rel(mo)) { t->fenced = t->vc; ++t->vc.c[t->id]; }
}

void on_exit(void*) {   // after the thread's own thread_local destructors
    Th* t = me;
    me = nullptr;
    t->st = Th::Done;
    reschedule(t);
}
void* thread_main(void* arg) {
    Th* t = static_cast<Th*>(arg);
    wait_turn(t);
    stack_t ss{}; ss.ss_sp = t->hi; ss.ss_size = 1 << 16; sigaltstack(&ss, nullptr);
    pthread_setspecific(exit_key, t);
    me = t;
    (*t->body)();
    return nullptr;
}
} // namespace

void run(Sim& s, int mode, std::vector<std::function<void()>>& bodies) {
    S = &s; mode_ = mode;
    nth = static_cast<int>(bodies.size());
    if (nth >= NT) fatal("harness-budget", "too many threads");
    if (!cells) {
        cells = static_cast<Cell*>(mmap(nullptr, NCell * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        dl_iterate_phdr(add_lib, nullptr);
        Dl_info d{}; dladdr(reinterpret_cast<void*>(&run), &d); text_base = reinterpret_cast<std::uintptr_t>(d.dli_fbase);
        pthread_key_create(&exit_key, on_exit);
        sem_init(&main_sem, 0, 0);
    } else { madvise(cells, NCell * sizeof(Cell), MADV_DONTNEED); ncells = 0; std::memset(static_cast<void*>(syncs), 0, sizeof syncs); }
    cpu_set_t old, one; sched_getaffinity(0, sizeof old, &old);
    CPU_ZERO(&one); { int c = sched_getcpu(); CPU_SET(c < 0 ? 0 : c, &one); } sched_setaffinity(0, sizeof one, &one);   // switching is cheaper so
    constexpr std::size_t Stack = 1 << 20, Alt = 1 << 16;
    for (int i = 1; i <= nth; ++i) {
        Th& t = ths[i];
        t = Th{};
        t.id = i; t.body = &bodies[static_cast<std::size_t>(i - 1)];
        for (int u = 0; u < NT; ++u) t.vc.c[u] = 0;
        t.vc.c[i] = 1; t.vc.c[0] = 1;
        sem_init(&t.sem, 0, 0);
        auto* m = static_cast<std::uint8_t*>(mmap(nullptr, Stack + Alt, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        t.lo = m; t.hi = m + Stack;
        pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, m, Stack);
        if (pthread_create(&t.th, &at, thread_main, &t) != 0) fatal("harness-threads", "pthread_create failed");
        pthread_attr_destroy(&at);
    }
    active = true;
    Th* to = &ths[1 + s.below(static_cast<u64>(nth))];
    draw_slice(to);
    hand_to(to, nullptr);
    while (sem_wait(&main_sem) != 0) {}
    active = false;
    for (int i = 1; i <= nth; ++i) { pthread_join(ths[i].th, nullptr); munmap(ths[i].lo, Stack + Alt); }
    sched_setaffinity(0, sizeof old, &old);
}
u64 steps() { return steps_; }
u64 switches() { return switches_; }
int current() { return me ? me->id : 0; }
} // namespace sim::sched

using namespace sim::sched;
extern "C" {
void sim_sched_forget(const void* p, std::size_t n) {
    if (!active || !p) return;
    const auto a = reinterpret_cast<std::uintptr_t>(p);
    for (std::uintptr_t g = a >> 3; g << 3 < a + n; ++g)
        if (Cell* c = find(g, false)) { auto k = c->key; std::memset(static_cast<void*>(c), 0, sizeof *c); c->key = k; }
}
void sim_sched_freed(const void* p, std::size_t n) {
    Th* t = me;
    if (!active || !t || !p || n == 0) return;
    touch(t, reinterpret_cast<std::uintptr_t>(p), n, true, __builtin_return_address(0));
}
void sim_sched_alloc_point() { if (Th* t = tracked()) point(t, Sync), t->spin = 0; }

// ---- instrumentation
#define PC __builtin_return_address(0)
#define ACC(N) \
    void __tsan_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if (*p != v) access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_init() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define AT(N, T) \
    T __tsan_atomic##N##_load(const volatile T* p, int mo) { atomic(p, sizeof(T), true, false, mo, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { atomic(p, sizeof(T), false, true, mo, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int mo) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int) { atomic(p, sizeof(T), true, true, mo, PC); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int) { atomic(p, sizeof(T), true, true, mo, PC); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence(mo); }
void __tsan_atomic_signal_fence(int) {}

// ---- memory functions called from instrumented code
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int __real_memcmp(const void*, const void*, std::size_t);
void* __real_memchr(const void*, int, std::size_t);
std::size_t __real_strlen(const char*);
void* __real___cxa_allocate_exception(std::size_t);
void* __wrap_memcpy(void* d, const void* s, std::size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, std::size_t n) { access(s, n, false, PC); access(d, n, true, PC); return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, std::size_t n) { access(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, std::size_t n) { access(a, n, false, PC); access(b, n, false, PC); return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, std::size_t n) { access(a, n ? 1 : 0, false, PC); return __real_memchr(a, c, n); }
std::size_t __wrap_strlen(const char* a) { const std::size_t n = __real_strlen(a); access(a, n + 1, false, PC); return n; }
void* __wrap___cxa_allocate_exception(std::size_t n) { void* p = __real___cxa_allocate_exception(n); sim_sched_forget(p, n); return p; }

// ---- locks, once, function-local statics: the scheduler's own, so that a thread that has to
// wait gives up its turn. Also used by the shared libraries.
#define REAL(f) ([] { static auto r = reinterpret_cast<decltype(&f)>(dlsym(RTLD_NEXT, #f)); return r; }())
static Th* simulated() { return active && me && !sim_sched_busy ? me : nullptr; }
static int lock_(Th* t, const void* m, bool wait) {
    if (sim::heap::in_lib) point(t, Sync);
    for (;;) {
        SyncVar& v = sv(m);
        if (v.owner == 0 && v.readers == 0) { v.owner = t->id; v.depth = 1; acquire(t, v); return 0; }
        if (v.owner == t->id) {
            if (*(static_cast<const int*>(m) + 4) == PTHREAD_MUTEX_RECURSIVE) { ++v.depth; return 0; }
            if (!wait) return EBUSY;
            sim::fatal("deadlock", "a thread locks a mutex it holds");
        }
        if (!wait) return EBUSY;
        block_on(t, m);
    }
}
static int unlock_(Th* t, const void* m) {
    SyncVar& v = sv(m);
    if (v.owner == t->id) { if (--v.depth) return 0; v.owner = 0; }
    else if (v.readers) --v.readers;
    release(t, v);
    wake(m);
    if (sim::heap::in_lib) point(t, Sync);
    return 0;
}
static int rdlock_(Th* t, const void* m, bool wait) {
    if (sim::heap::in_lib) point(t, Sync);
    for (;;) {
        SyncVar& v = sv(m);
        if (v.owner == 0) { ++v.readers; acquire(t, v); return 0; }
        if (!wait) return EBUSY;
        block_on(t, m);
    }
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (Th* t = simulated()) return lock_(t, m, true); return REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (Th* t = simulated()) return lock_(t, m, false); return REAL(pthread_mutex_trylock)(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (Th* t = simulated()) return unlock_(t, m); return REAL(pthread_mutex_unlock)(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (Th* t = simulated()) return rdlock_(t, m, true); return REAL(pthread_rwlock_rdlock)(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (Th* t = simulated()) return rdlock_(t, m, false); return REAL(pthread_rwlock_tryrdlock)(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (Th* t = simulated()) return lock_(t, m, true); return REAL(pthread_rwlock_wrlock)(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { if (Th* t = simulated()) return lock_(t, m, false); return REAL(pthread_rwlock_trywrlock)(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (Th* t = simulated()) return unlock_(t, m); return REAL(pthread_rwlock_unlock)(m); }
int sched_yield() noexcept { if (Th* t = simulated()) { reschedule(t); return 0; } return REAL(sched_yield)(); }

int pthread_once(pthread_once_t* o, void (*f)()) {
    Th* t = simulated();
    if (!t) return REAL(pthread_once)(o, f);
    if (sim::heap::in_lib) point(t, Sync);
    for (;;) {
        SyncVar& v = sv(o);
        if (*o == 2) { acquire(t, v); return 0; }   // glibc: done
        if (!v.running) break;
        block_on(t, o);
    }
    sv(o).running = true; acquire(t, sv(o));   // after an attempt that threw
    auto leave = [o](bool ok) {
        Th* t = me; SyncVar& v = sv(o);
        v.running = false; if (ok) *o = 2;
        release(t, v); wake(o);
    };
    try { f(); } catch (...) { leave(false); throw; }
    leave(true);
    return 0;
}
// The first byte of a guard says: initialised.
int sim_guard_acquire(std::uint64_t* g) __asm__("__cxa_guard_acquire");
int sim_guard_acquire(std::uint64_t* g) {
    auto* b = reinterpret_cast<volatile std::uint8_t*>(g);
    Th* t = simulated();
    if (!t) return *b ? 0 : 1;
    if (sim::heap::in_lib) point(t, Sync);
    for (;;) {
        SyncVar& v = sv(g);
        if (*b) { acquire(t, v); return 0; }
        if (!v.running) { v.running = true; acquire(t, v); return 1; }
        block_on(t, g);
    }
}
void sim_guard_release(std::uint64_t* g) noexcept __asm__("__cxa_guard_release");
void sim_guard_release(std::uint64_t* g) noexcept {
    auto* b = reinterpret_cast<volatile std::uint8_t*>(g);
    *b = 1;
    if (Th* t = simulated()) { SyncVar& v = sv(g); v.running = false; release(t, v); wake(g); }
}
void sim_guard_abort(std::uint64_t* g) noexcept __asm__("__cxa_guard_abort");
void sim_guard_abort(std::uint64_t* g) noexcept {
    if (Th* t = simulated()) { SyncVar& v = sv(g); v.running = false; release(t, v); wake(g); }
}
}
