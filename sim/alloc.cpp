#include "alloc.hpp"
#include "core.hpp"
#include <cstdlib>
#include <new>
#include <sys/mman.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#define NOASAN __attribute__((no_sanitize("address")))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#define NOASAN
#endif
#if defined(SIM_SCHED)
extern "C" {
void sim_sched_forget(const void* p, std::size_t n);    // fresh memory: nobody has accessed it
void sim_sched_freed(const void* p, std::size_t n);     // counts as a write by this thread
void sim_sched_alloc_point();
extern __thread int sim_sched_busy;
}
struct Busy { Busy() { ++sim_sched_busy; } ~Busy() { --sim_sched_busy; } };
#define FORGET(p, n) sim_sched_forget((p), (n))
#define FREED(p, n) sim_sched_freed((p), (n))
#define ALLOC_POINT() sim_sched_alloc_point(); Busy busy_
#define PER_THREAD constinit thread_local
#else
#define FORGET(p, n) ((void)0)
#define FREED(p, n) ((void)0)
#define ALLOC_POINT() ((void)0)
#define PER_THREAD static
#endif

extern "C" {
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void __real_free(void*);
}

namespace sim::heap {
#if defined(SIM_SCHED)
constinit thread_local volatile bool in_lib = false;
#else
volatile bool in_lib = false;
#endif
namespace {
enum Kind : std::uint32_t { KMalloc = 1, KNew = 2, KNewArr = 3, KPlace = 4 };
struct Hdr { std::uint64_t size; std::uint64_t cap; std::uint32_t magic; std::uint32_t kind; Hdr* next; };  // 32 bytes
constexpr std::uint32_t Live = 0x51b10c4au, Dead = 0xdeadb10cu;
constexpr std::size_t PoolSize = std::size_t(1) << 32;
constexpr std::size_t MinTail = 16;
std::uint8_t* base = nullptr;
std::uint8_t* bump = nullptr;
std::uint8_t* committed = nullptr;
bool reuse_ = false;
PER_THREAD Plan plan;
PER_THREAD std::uint64_t fired_, seen_;
std::uint64_t live_, live_bytes_, largest_, total_, placed_;
std::uint64_t cap_ = std::uint64_t(1) << 28;
constexpr int NClass = 512;
Hdr* freelist[NClass];

NOASAN void init() {
    if (base) return;
    void* want = reinterpret_cast<void*>(0x200000000000ull);
    void* p = mmap(want, PoolSize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) {
        p = mmap(nullptr, PoolSize, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { std::fputs("sim: cannot map pool\n", stderr); _exit(3); }
    }
    base = bump = committed = static_cast<std::uint8_t*>(p);
}
// Memory past the last block is poisoned, and unmapped further on.
NOASAN bool commit(std::uint8_t* upto) {
    upto += 1 << 16;
    if (upto > base + PoolSize) return false;
    if (upto <= committed) return true;
    std::size_t n = (static_cast<std::size_t>(upto - committed) + (std::size_t(1) << 22) - 1) >> 22 << 22;
    if (n > static_cast<std::size_t>(base + PoolSize - committed)) n = static_cast<std::size_t>(base + PoolSize - committed);
    if (mprotect(committed, n, PROT_READ | PROT_WRITE) != 0) return false;
    POISON(committed, n);
    committed += n;
    return true;
}
NOASAN Hdr* hdr_of(const void* p) { return reinterpret_cast<Hdr*>(const_cast<std::uint8_t*>(static_cast<const std::uint8_t*>(p)) - sizeof(Hdr)); }

NOASAN bool should_fail(std::size_t n) {
    ++total_;
    if (n > largest_) largest_ = n;
    if (n > cap_) { return true; }
    ++seen_;
    bool f = false;
    switch (plan.mode) {
        case Plan::None: break;
        case Plan::Nth: f = seen_ == plan.n; break;
        case Plan::From: f = seen_ >= plan.n; break;
        case Plan::Every: f = plan.n && seen_ % plan.n == 0; break;
        case Plan::AboveSize: f = n > plan.n; break;
        case Plan::Random: plan.prng = mix(plan.prng + 1); f = plan.n && plan.prng % plan.n == 0; break;
    }
    if (f) ++fired_;
    return f;
}

NOASAN void* grab(std::size_t n, std::size_t align, std::size_t misalign, Kind k) {
    init();
    if (n > PoolSize / 2) return nullptr;
    const std::size_t want = (n + 15) & ~std::size_t(15);
    const std::size_t cls = want / 16;
    if (k != KPlace && align <= 16 && reuse_ && cls < NClass && freelist[cls]) {
        Hdr* h = freelist[cls];
        freelist[cls] = h->next;
        h->size = n; h->magic = Live; h->kind = k; h->next = nullptr;
        auto* u = reinterpret_cast<std::uint8_t*>(h + 1);
        UNPOISON(u, n);
        for (std::size_t i = 0; i < n; ++i) u[i] = 0xbe;
        FORGET(u, n);
        return u;
    }
    std::uintptr_t a = reinterpret_cast<std::uintptr_t>(bump) + sizeof(Hdr);
    if (align < 16) align = 16;
    a = (a + align - 1) / align * align + misalign;
    auto* u = reinterpret_cast<std::uint8_t*>(a);
    if (u + want + MinTail > base + PoolSize) return nullptr;
    auto* h = hdr_of(u);
    if (reinterpret_cast<std::uint8_t*>(h) < bump) { u += 64; h = hdr_of(u); }
    std::uint8_t* next = u + want + MinTail;
    next = reinterpret_cast<std::uint8_t*>((reinterpret_cast<std::uintptr_t>(next) + 15) & ~std::uintptr_t(15));
    if (!commit(next)) return nullptr;
    h->size = n; h->cap = want; h->magic = Live; h->kind = k; h->next = nullptr;
    UNPOISON(u, n);
    for (std::size_t i = 0; i < n; ++i) u[i] = 0xbe;
    bump = next;
    FORGET(u, n);
    return u;
}

NOASAN void give_back(void* p, Kind k) {
    Hdr* h = hdr_of(p);
    if (h->magic == Dead) fatal("double-free", "a block was freed twice");
    if (h->magic != Live) fatal("bad-free", "a pointer that is not the start of a block was freed");
    if (h->kind != k) fatal("alloc-dealloc-mismatch", "a block was freed by a function of another family than allocated it");
    h->magic = Dead;
    auto* u = static_cast<std::uint8_t*>(p);
    FREED(u, h->size);
    for (std::size_t i = 0; i < h->size; ++i) u[i] = 0xef;
    POISON(u, h->size);
    if (k == KPlace) --placed_;
    else { --live_; live_bytes_ -= h->size; }
    const std::size_t cls = h->cap / 16;
    if (k != KPlace && reuse_ && cls < NClass) { h->next = freelist[cls]; freelist[cls] = h; }
}
} // namespace

void reset(bool reuse) {
    init();
    reuse_ = reuse;
    for (auto& f : freelist) f = nullptr;
    if (live_ == 0 && placed_ == 0) { POISON(base, static_cast<std::size_t>(bump - base)); bump = base; }
    clear_plan(); largest_ = 0; cap_ = std::uint64_t(1) << 28;
}
void set_plan(const Plan& p) { plan = p; fired_ = 0; seen_ = 0; }
void clear_plan() { plan = Plan{}; }
std::uint64_t fired() { return fired_; }
std::uint64_t plan_allocs() { return seen_; }
std::uint64_t live_blocks() { return live_; }
std::uint64_t live_bytes() { return live_bytes_; }
std::uint64_t largest_request() { return largest_; }
void clear_largest() { largest_ = 0; }
void set_request_cap(std::uint64_t b) { cap_ = b; }
std::uint64_t total_allocs() { return total_; }
bool owns(const void* p) { return base && p >= base && p < base + PoolSize; }

std::uint8_t* place(std::size_t n, std::size_t misalign) {
    ++placed_;
    void* p = grab(n, 64, misalign % 64, KPlace);
    if (!p) { std::fputs("sim: pool exhausted\n", stderr); _exit(3); }
    return static_cast<std::uint8_t*>(p);
}
void unplace(std::uint8_t* p) { give_back(p, KPlace); }

static void* lib_alloc(std::size_t n, std::size_t align, Kind k) {
    ALLOC_POINT();
    if (should_fail(n)) return nullptr;
    void* p = grab(n, align, 0, k);
    if (p) { ++live_; live_bytes_ += n; }
    return p;
}
static void* do_alloc(std::size_t n, Kind k, std::size_t align = 16) {
    if (in_lib) return lib_alloc(n, align, k);
    void* p = align <= 16 ? __real_malloc(n ? n : 1) : aligned_alloc(align, (n + align - 1) / align * align);
    FORGET(p, n);
    return p;
}
static void do_free(void* p, Kind k) {
    if (!p) return;
    if (owns(p)) { ALLOC_POINT(); give_back(p, k); }
    else __real_free(p);
}
static void* do_new(std::size_t n, Kind k, std::size_t align = 16) {
    void* p = do_alloc(n, k, align);
    if (!p) throw std::bad_alloc();
    return p;
}
NOASAN static std::size_t size_of(void* p) { return hdr_of(p)->size; }
NOASAN static void check_live(void* p) {
    Hdr* h = hdr_of(p);
    if (h->magic == Dead) fatal("realloc-after-free", "realloc of a freed block");
    if (h->magic != Live) fatal("bad-realloc", "realloc of a pointer that is not the start of a block");
    if (h->kind != KMalloc) fatal("alloc-dealloc-mismatch", "realloc of a block not allocated by malloc");
}
} // namespace sim::heap

using namespace sim::heap;
extern "C" {
void* __wrap_malloc(std::size_t n) {
    if (in_lib) return lib_alloc(n, 16, KMalloc);
    void* p = __real_malloc(n);
    FORGET(p, n);
    return p;
}
void __wrap_free(void* p) { if (p) do_free(p, KMalloc); }
void* __wrap_calloc(std::size_t a, std::size_t b) {
    if (!in_lib) { void* r = __real_calloc(a, b); FORGET(r, a * b); return r; }
    if (b && a > SIZE_MAX / b) return nullptr;
    void* p = lib_alloc(a * b, 16, KMalloc);
    if (p) std::memset(p, 0, a * b);
    return p;
}
void* __wrap_realloc(void* p, std::size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!owns(p)) { void* r = __real_realloc(p, n); FORGET(r, n); return r; }   // allocated by the harness
    if (n == 0) { do_free(p, KMalloc); return nullptr; }
    check_live(p);
    void* q = lib_alloc(n, 16, KMalloc);
    if (!q) return nullptr;
    const std::size_t o = size_of(p);
    std::memcpy(q, p, o < n ? o : n);
    do_free(p, KMalloc);
    return q;
}
}
void* operator new(std::size_t n) { return do_new(n, KNew); }
void* operator new[](std::size_t n) { return do_new(n, KNewArr); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, KNew); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return do_alloc(n, KNewArr); }
void* operator new(std::size_t n, std::align_val_t a) { return do_new(n, KNew, static_cast<std::size_t>(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return do_new(n, KNewArr, static_cast<std::size_t>(a)); }
void operator delete(void* p) noexcept { do_free(p, KNew); }
void operator delete[](void* p) noexcept { do_free(p, KNewArr); }
void operator delete(void* p, std::size_t) noexcept { do_free(p, KNew); }
void operator delete[](void* p, std::size_t) noexcept { do_free(p, KNewArr); }
void operator delete(void* p, std::align_val_t) noexcept { do_free(p, KNew); }
void operator delete[](void* p, std::align_val_t) noexcept { do_free(p, KNewArr); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { do_free(p, KNew); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { do_free(p, KNewArr); }
