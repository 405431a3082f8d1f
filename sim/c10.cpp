// C10: buffers release adopted memory exactly once, through any history.
#include "protocols.hpp"
#include "faults.hpp"
#include <algorithm>
#include <array>
#include <deque>
#include <memory>
using namespace sim;
using zerialize::ZBuffer;

namespace {
struct Block { std::uint8_t* p = nullptr; std::size_t n = 0; std::string bytes; int deletes = 0; bool live = false; bool foreign = false; int kind = 0; };

struct World {
    Sim& s;
    std::deque<Block> blocks;
    struct Slot { std::optional<ZBuffer> z; int block = -1; bool busy = false, pinned = false; };   // block -1: empty or moved-from
    std::array<Slot, 6> slot;
    std::vector<ZBuffer> vec; std::vector<int> vecb; bool vec_busy = false;
    int chained = -1;      // deleting this block also destroys slot 5
    MV small;
    std::array<std::string, NProto> ref;
    explicit World(Sim& s_) : s(s_) {}
} *W;

void on_delete(int id, void* p, const char* via) {
    heap::HarnessScope hs;
    if (!W || id < 0 || static_cast<std::size_t>(id) >= W->blocks.size()) fatal("wrong-delete", "a deleter was called after the run");
    Block& b = W->blocks[static_cast<std::size_t>(id)];
    if (p == nullptr && b.p == nullptr) return;
    if (p != b.p) fatal("wrong-delete", "a deleter was called with another pointer than the adopted one");
    if (++b.deletes > 1) fatal("double-delete", "a deleter was called twice");
    (void)via;
    for (auto& x : W->slot) if (x.z && !x.busy && x.block == id) fatal("early-delete", "memory was released while a live buffer still holds it");
    if (!W->vec_busy) for (std::size_t i = 0; i < W->vec.size(); ++i) if (W->vecb[i] == id) fatal("early-delete", "memory was released while a live buffer still holds it");
    b.live = false;
    heap::LibScope ls;
    if (b.kind == 0) std::free(b.p); else delete[] b.p;
    if (W->chained == id && !W->slot[5].pinned && !W->slot[5].busy) { W->chained = -1; W->slot[5].busy = true; W->slot[5].block = -1; W->slot[5].z.reset(); W->slot[5].busy = false; }
}
struct Fat { int id; std::array<char, 64> pad{}; template<class T> void operator()(T* p) const { on_delete(id, p, "fat"); } };
struct Slim { int id; template<class T> void operator()(T* p) const { on_delete(id, p, "slim"); } };

int new_block(std::size_t n, int kind) {
    heap::HarnessScope hs;
    Block b; b.n = n; b.kind = kind;
    b.bytes.resize(n);
    for (std::size_t i = 0; i < n; ++i) b.bytes[i] = static_cast<char>(mix(W->blocks.size() * 131 + i));
    { heap::LibScope ls; b.p = kind == 0 ? static_cast<std::uint8_t*>(std::malloc(std::max<std::size_t>(n, 1))) : new std::uint8_t[n]; }
    if (n) std::memcpy(b.p, b.bytes.data(), n);
    b.live = true;
    W->blocks.push_back(std::move(b));
    return static_cast<int>(W->blocks.size()) - 1;
}

void check(const ZBuffer& z, int block) {
    std::size_t n; const std::uint8_t* p; bool e; std::span<const std::uint8_t> sp;
    { heap::LibScope ls; n = z.size(); p = z.data(); e = z.empty(); sp = z.buf(); (void)z.owned(); }
    if (e != (n == 0)) VIOLATE("inconsistent", "empty() and size() disagree");
    if (sp.size() != n || (n && sp.data() != p)) VIOLATE("inconsistent", "buf() disagrees with data()/size()");
    if (n && !p) VIOLATE("inconsistent", "size() is " + std::to_string(n) + " but data() is null");
    if (block < 0) { if (n) VIOLATE("inconsistent", "an empty or moved-from buffer reports " + std::to_string(n) + " bytes"); }
    else {
        Block& b = W->blocks[static_cast<std::size_t>(block)];
        if (n != b.n) VIOLATE("wrong-bytes", "size() is " + std::to_string(n) + ", adopted were " + std::to_string(b.n));
        if (!b.foreign && n && p != b.p) VIOLATE("wrong-bytes", "data() is not the adopted memory");
        if (n && std::memcmp(p, b.bytes.data(), n) != 0) VIOLATE("wrong-bytes", "the bytes are not the adopted ones");
        if (b.deletes) VIOLATE("early-delete", "the memory of a live buffer has been released");
    }
    const std::string_view want = block < 0 ? std::string_view() : std::string_view(W->blocks[static_cast<std::size_t>(block)].bytes);
    if (W->s.below(4) == 3) {
        heap::LibScope ls;
        auto v = z.to_vector_copy();
        auto d = z.to_debug_string();
        auto h = z.hexdump(1 + W->s.below(20));
        auto t = z.to_string();
        if (std::string_view(reinterpret_cast<const char*>(v.data()), v.size()) != want) VIOLATE("wrong-bytes", "to_vector_copy differs");
        if (std::string_view(d) != want) VIOLATE("wrong-bytes", "to_debug_string differs");
        if (h.empty() || t.find(std::to_string(n)) == std::string::npos) VIOLATE("wrong-bytes", "hexdump or to_string is empty or has another size");
    }
}

void step(World& w) {
    Sim& s = w.s;
    const std::size_t i = s.below(w.slot.size()), j = s.below(w.slot.size());
    auto &a = w.slot[i], &b = w.slot[j];
    struct Pin { World::Slot &a, &b; ~Pin() { a.pinned = b.pinned = false; } } pin{a, b};
    a.pinned = b.pinned = true;
    const u64 k = s.below(16);
    s.ev("op", k, i * 8 + j);
    s.state(mix(k * 1024 + (a.z ? 1 : 0) + (b.z ? 2 : 0) + (a.block >= 0 ? 4 : 0) + (b.block >= 0 ? 8 : 0) + (i == j ? 16 : 0) + (a.z && a.z->owned() ? 32 : 0) + (b.z && b.z->owned() ? 64 : 0)) + w.vec.size());
    count_dyn("op.buffer." + std::to_string(k));
    auto drop = [&](World::Slot& x) { x.busy = true; x.block = -1; { heap::LibScope ls; x.z.reset(); } x.busy = false; };
    switch (k) {
        case 0: case 1: case 2: {   // adopt, under a failure plan some of the time
            const std::size_t n = s.pick<std::size_t>({0, 1, 7, 16, 100, 5000});
            const u64 how = s.below(6);
            const int kind = how == 2 || how == 5 ? 0 : static_cast<int>(s.below(2));
            const int id = new_block(n, kind);
            Block& bl = w.blocks[static_cast<std::size_t>(id)];
            drop(a);
            heap::Plan plan; if (s.below(4) == 3) plan = draw_plan(s, 3);
            bool ok = false;
            heap::set_plan(plan);
            try {
                heap::LibScope ls;
                switch (how) {
                    case 0: a.z.emplace(bl.p, n, std::function<void(std::uint8_t*)>(Fat{id})); break;
                    case 1: a.z.emplace(reinterpret_cast<char*>(bl.p), n, std::function<void(char*)>(Fat{id})); break;
                    case 2: a.z.emplace(static_cast<void*>(bl.p), n, std::function<void(void*)>(Fat{id})); break;
                    case 3: a.z.emplace(bl.p, n, Slim{id}); break;
                    case 4: a.z.emplace(reinterpret_cast<char*>(bl.p), n, Slim{id}); break;
                    default: a.z.emplace(static_cast<void*>(bl.p), n, Slim{id}); break;
                }
                ok = true;
            } catch (const std::bad_alloc&) {}
            const u64 fired = heap::fired();
            heap::clear_plan();
            if (fired) SIM_COUNT_N("fault.alloc", fired);
            if (ok) { a.block = id; s.nontrivial(); }
            else {
                if (!fired) VIOLATE("refused", "adopting memory threw although no allocation failed");
                // the library may or may not have taken the memory; if not, it is still ours
                if (!bl.deletes) { bl.live = false; bl.deletes = 1; heap::LibScope ls; if (kind == 0) std::free(bl.p); else delete[] bl.p; }
                SIM_COUNT("probe.adopt_failed");
            }
            break;
        }
        case 3: {   // a vector's storage
            const std::size_t n = s.pick<std::size_t>({0, 1, 8, 300});
            heap::HarnessScope hs;
            Block bl; bl.n = n; bl.bytes.assign(n, static_cast<char>(w.blocks.size()));
            heap::LibScope ls;
            std::vector<std::uint8_t> v(bl.bytes.begin(), bl.bytes.end());
            { heap::HarnessScope h2; bl.p = v.data(); bl.foreign = false; w.blocks.push_back(std::move(bl)); }
            drop(a);
            a.z.emplace(std::move(v)); a.block = static_cast<int>(w.blocks.size()) - 1;
            break;
        }
        case 4: {   // what serialize returns
            const int p = static_cast<int>(s.below(NProto));
            drop(a);
            with_protocol(p, [&](auto t) { heap::LibScope ls; a.z.emplace(encode<typename decltype(t)::type>(w.small)); });
            Block bl; bl.n = w.ref[static_cast<std::size_t>(p)].size(); bl.bytes = w.ref[static_cast<std::size_t>(p)]; bl.foreign = true;
            w.blocks.push_back(std::move(bl));
            a.block = static_cast<int>(w.blocks.size()) - 1;
            break;
        }
        case 5: if (a.z && i != j) { drop(b); heap::LibScope ls; a.busy = b.busy = true; b.z.emplace(std::move(*a.z)); a.busy = b.busy = false; b.block = a.block; a.block = -1; check(*a.z, -1); } break;
        case 6: case 7: if (a.z && b.z && i != j) {
            const int from = a.block, old = b.block; a.busy = b.busy = true; b.block = -1; { heap::LibScope ls; *b.z = std::move(*a.z); } a.busy = b.busy = false; b.block = from; a.block = -1; check(*a.z, -1);
            if (old >= 0 && w.blocks[static_cast<std::size_t>(old)].live) VIOLATE("kept", "memory is still held by a buffer that was assigned something else");
            break;
        }
            break;
        case 8: if (a.z && b.z && i != j) { a.busy = b.busy = true; { heap::LibScope ls; std::swap(*a.z, *b.z); } a.busy = b.busy = false; std::swap(a.block, b.block); } break;
        case 9: drop(a); break;
        case 10: {   // invalid constructions
            const u64 how = s.below(6);
            const int id = how < 3 ? new_block(8, 0) : -1;
            std::uint8_t* p = id >= 0 ? w.blocks[static_cast<std::size_t>(id)].p : nullptr;
            int calls = 0;
            bool threw = false; std::string other;
            const std::size_t n = s.pick<std::size_t>({8, 1, 2, 0, 3, 5, 8, std::size_t(1) << 40, ~std::size_t(0)});
            const std::size_t m = n ? n : 1, k2 = id >= 0 ? std::min<std::size_t>(n, 8) : m;
            void (*none)(std::uint8_t*) = nullptr;
            const bool viaptr = s.below(2);
            try {
                heap::LibScope ls;
                if (how == 0) { if (viaptr) ZBuffer z(p, k2, none); else ZBuffer z(p, k2, std::function<void(std::uint8_t*)>()); }
                else if (how == 1) ZBuffer z(reinterpret_cast<char*>(p), k2, std::function<void(char*)>());
                else if (how == 2) ZBuffer z(static_cast<void*>(p), k2, std::function<void(void*)>());
                else if (how == 3) ZBuffer z(p, m, std::function<void(std::uint8_t*)>([&](std::uint8_t* q) { calls += q != nullptr; }));
                else if (how == 4) ZBuffer z(static_cast<char*>(nullptr), m, std::function<void(char*)>([&](char* q) { calls += q != nullptr; }));
                else ZBuffer z(static_cast<void*>(nullptr), m, std::function<void(void*)>([&](void* q) { calls += q != nullptr; }));
            } catch (const std::invalid_argument&) { threw = true; }
            catch (const std::exception& e) { threw = true; other = e.what(); }
            if (!other.empty()) VIOLATE("wrong-exception", "an invalid construction threw something else: " + other);
            SIM_COUNT("fault.invalid_construction");
            if (!threw) VIOLATE("not-refused", "a buffer without a deleter, or with bytes but no pointer, was accepted");
            if (calls) VIOLATE("wrong-delete", "a deleter was called for a buffer that was never made");
            if (id >= 0) { auto& bl = w.blocks[static_cast<std::size_t>(id)]; if (std::memcmp(bl.p, bl.bytes.data(), 8)) VIOLATE("wrong-bytes", "rejected memory changed"); bl.deletes = 1; heap::LibScope ls; std::free(bl.p); }
            break;
        }
        case 11: if (a.z) {   // into a growing vector
            const int blk = a.block; a.block = -1; a.busy = true; w.vec_busy = true;
            { heap::LibScope ls; w.vec.push_back(std::move(*a.z)); }
            a.busy = w.vec_busy = false; w.vecb.push_back(blk);
            check(*a.z, -1);
            break;
        } break;
        case 12: if (!w.vec.empty()) {   // out of it, rotating or erasing
            const std::size_t m = s.below(w.vec.size());
            const u64 how = s.below(3);
            w.vec_busy = true;
            if (how == 0) { const int blk = w.vecb[m]; (void)blk; w.vecb.erase(w.vecb.begin() + static_cast<long>(m)); heap::LibScope ls; w.vec.erase(w.vec.begin() + static_cast<long>(m)); }
            else if (how == 1) { { heap::LibScope ls; std::rotate(w.vec.begin(), w.vec.begin() + static_cast<long>(m), w.vec.end()); } std::rotate(w.vecb.begin(), w.vecb.begin() + static_cast<long>(m), w.vecb.end()); }
            else if (b.z) { const int blk = w.vecb[m]; b.busy = true; b.block = -1; w.vecb[m] = -1; { heap::LibScope ls; *b.z = std::move(w.vec[m]); } b.busy = false; b.block = blk; }
            w.vec_busy = false;
            break;
        } break;
        case 13: {   // a buffer dies by an exception
            const int id = new_block(32, 0);
            Block& bl = w.blocks[static_cast<std::size_t>(id)];
            try { heap::LibScope ls; ZBuffer z(bl.p, 32, Slim{id}); ZBuffer y(std::move(z)); std::vector<ZBuffer> v; v.push_back(std::move(y)); v.emplace_back(); v.emplace_back(); throw 1; } catch (int) {}
            SIM_COUNT("fault.unwind");
            if (bl.deletes != 1) VIOLATE("leak", "a buffer destroyed by an exception did not release its memory");
            break;
        }
        case 14: if (a.z && a.block >= 0 && w.slot[5].z && i != 5 && !w.blocks[static_cast<std::size_t>(a.block)].foreign) w.chained = a.block; break;   // its deleter will destroy another buffer
        default: break;
    }
    const std::size_t q = s.below(w.slot.size());
    if (w.slot[q].z) check(*w.slot[q].z, w.slot[q].block);
    if (!w.vec.empty()) { const std::size_t m = s.below(w.vec.size()); check(w.vec[m], w.vecb[m]); }
}

void run(Sim& s) {
    heap::reset(s.below(2));
    World w(s);
    W = &w;
    GenOpt g; g.budget = 3; g.big = false;
    w.small = Gen(s, g).value();
    for (int p = 0; p < NProto; ++p) w.ref[static_cast<std::size_t>(p)] = with_protocol(p, [&](auto t) { return encode_bytes<typename decltype(t)::type>(w.small); });
    const u64 live = heap::live_blocks();
    const int steps = 4 + static_cast<int>(s.below(50));
    for (int i = 0; i < steps; ++i) step(w);
    for (auto& x : w.slot) if (x.z) check(*x.z, x.block);
    w.chained = -1;
    for (auto& x : w.slot) { x.busy = true; x.block = -1; heap::LibScope ls; x.z.reset(); }
    w.vec_busy = true;
    { heap::LibScope ls; std::vector<ZBuffer>().swap(w.vec); }
    for (auto& b : w.blocks) if (b.live && b.deletes != 1) { VIOLATE("leak", "adopted memory was never released (" + std::to_string(b.n) + " bytes)"); }
    if (heap::live_blocks() > live) VIOLATE("leak", "after all buffers are gone, " + std::to_string(heap::live_blocks() - live) + " block(s) remain");
    W = nullptr;
}
}
namespace sim { const Prop the_prop{"C10", run}; }
