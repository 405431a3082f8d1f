// C17: reading a borrowed message needs no memory and touches only what is read.
//
// A message whose parts arrive one by one, in any order, is read while memory is exhausted. Bytes
// that have not arrived are poisoned: touching one ends the run. Navigation, predicates, numbers,
// key ranges and string and blob views must work before any payload is there, with no allocation
// succeeding; copying calls touch only the payload they copy.
#include "ops.hpp"
#include "enc.hpp"
#include <sanitizer/asan_interface.h>
using namespace sim;

namespace {
template<class P> std::string foreign_bytes(Sim& s, const MV& v) {
    if constexpr (std::is_same_v<P, zerialize::Zera>) return enc::zera(s, v);
    else if constexpr (std::is_same_v<P, zerialize::MsgPack>) return enc::msgpack(s, v);
    else return enc::cbor(s, v, false);
}

struct Node { const MV* v; std::vector<Step> path; std::size_t off = 0, len = 0; bool leaf = false; std::size_t tab = 0, tab_n = 0; };

// The message in memory: which bytes have arrived.
struct Arriving {
    const std::string orig;
    std::uint8_t* p; std::size_t n;
    std::vector<bool> out;     // not yet arrived
    Arriving(const std::string& b, std::size_t mis) : orig(b), p(heap::place(b.size(), mis)), n(b.size()), out(b.size()) { std::memcpy(p, b.data(), n); }
    ~Arriving() { ASAN_UNPOISON_MEMORY_REGION(p, n); heap::unplace(p); }
    void guard(std::size_t from, std::size_t len, bool on) {   // poison works on whole 8-byte granules
        const auto base = reinterpret_cast<std::uintptr_t>(p);
        for (std::uintptr_t g = (base + from) / 8 * 8; g < base + from + len; g += 8) {
            if (g < base || g + 8 > base + n) continue;
            bool all = true;
            for (std::size_t i = 0; i < 8; ++i) all = all && out[g - base + i];
            if (all && on) ASAN_POISON_MEMORY_REGION(reinterpret_cast<void*>(g), 8);
            else if (!all && !on) ASAN_UNPOISON_MEMORY_REGION(reinterpret_cast<void*>(g), 8);
        }
    }
    void hide(std::size_t from, std::size_t len) { for (std::size_t i = 0; i < len; ++i) { out[from + i] = true; p[from + i] = static_cast<std::uint8_t>(0xEE ^ i); } }
    void hide_done() { guard(0, n, true); }
    void arrive(std::size_t from, std::size_t len) {
        for (std::size_t i = 0; i < len; ++i) out[from + i] = false;
        guard(from, len, false);
        std::memcpy(p + from, orig.data() + from, len);
    }
    bool here(std::size_t from, std::size_t len) const { for (std::size_t i = 0; i < len; ++i) if (out[from + i]) return false; return true; }
};

void collect(const MV& v, std::vector<Step>& path, std::vector<Node>& out) {
    Node nd; nd.v = &v; nd.path = path; nd.leaf = v.k == K::Str || v.k == K::Blob;
    out.push_back(std::move(nd));
    if (out.size() > 600) return;
    for (std::size_t i = 0; i < v.a.size(); ++i) { Step st; st.i = i; path.push_back(st); collect(v.a[i], path, out); path.pop_back(); }
    for (auto& e : v.m) { Step st; st.by_key = true; st.key = e.first; path.push_back(st); collect(e.second, path, out); path.pop_back(); }
}
bool under(const Node& x, const Node& top) {
    if (x.path.size() < top.path.size()) return false;
    for (std::size_t i = 0; i < top.path.size(); ++i) if (x.path[i].by_key != top.path[i].by_key || x.path[i].i != top.path[i].i || x.path[i].key != top.path[i].key) return false;
    return true;
}
template<class R, class F> void walk_to(const R& r, const std::vector<Step>& path, std::size_t at, F&& f) {
    if (at == path.size()) { f(r); return; }
    const Step& st = path[at];
    if (st.by_key) { auto e = r[std::string_view(st.key)]; walk_to(e, path, at + 1, f); }
    else { auto e = r[st.i]; walk_to(e, path, at + 1, f); }
}

// larger strings and blobs, so that there is payload to be missing
void fatten(Sim& s, MV& v) {
    if ((v.k == K::Str || v.k == K::Blob) && v.style != STensor && s.below(2)) v.s.append(24 + s.below(200), static_cast<char>('A' + s.below(26)));
    if (v.style == STensor || v.style == SPlain) return;
    if (v.a.size() > 64 || v.m.size() > 64) return;
    for (auto& x : v.a) fatten(s, x);
    for (auto& x : v.m) fatten(s, x.second);
}

template<class P> void one(Sim& s, const MV& v, const std::string& bytes, bool lib) {
    using D = Des<P>;
    const std::string N = P::Name;
    constexpr bool cbor = std::is_same_v<P, zerialize::CBOR>;
    Arriving m(bytes, s.below(4) ? 16 * s.below(4) : s.below(64));
    const std::span<const std::uint8_t> span(m.p, m.n);
    std::vector<Node> nodes;
    { std::vector<Step> path; collect(v, path, nodes); }
    // where everything lies (all bytes here, memory plentiful)
    std::vector<std::pair<std::size_t, std::size_t>> keys;
    {
        heap::LibScope ls;
        D r(span);
        for (Node& nd : nodes) {
            if (nd.leaf) walk_to(r, nd.path, 0, [&](auto& e) {
                const char* q; std::size_t k;
                if (nd.v->k == K::Str) { std::string_view x = e.asStringView(); q = x.data(); k = x.size(); }
                else { auto b = e.asBlob(); q = reinterpret_cast<const char*>(std::data(b)); k = std::size(b); }
                if (k != nd.v->s.size()) VIOLATE("wrong-value", N + ": a view of " + std::to_string(k) + " bytes for " + show(*nd.v, 80));
                const auto* b = reinterpret_cast<const char*>(m.p);
                if (k && (q < b || q + k > b + m.n)) VIOLATE("not-zero-copy", N + ": a " + kname(nd.v->k) + " view of a borrowed message does not point into the message: " + show(*nd.v, 80));
                nd.off = k ? static_cast<std::size_t>(q - b) : 0; nd.len = k;
                if (k && std::memcmp(q, nd.v->s.data(), k)) VIOLATE("wrong-value", N + ": a view shows other bytes than " + show(*nd.v, 80));
            });
            else if (nd.v->k == K::Map) walk_to(r, nd.path, 0, [&](auto& e) {
                for (std::string_view k : e.mapKeys()) {
                    const auto* b = reinterpret_cast<const char*>(m.p);
                    if (cbor) break;   // its keys are assembled in the iterator
                    if (k.size() && (k.data() < b || k.data() + k.size() > b + m.n)) VIOLATE("not-zero-copy", N + ": a key of a borrowed message does not point into the message");
                    heap::HarnessScope hs;
                    if (k.size()) keys.emplace_back(k.data() - b, k.size());
                }
            });
        }
    }
    if constexpr (std::is_same_v<P, zerialize::Zera>) {   // the tables of containers arrive when first needed
        ref::Zera z(reinterpret_cast<const std::uint8_t*>(m.orig.data()), m.n);
        if (z.open() != ref::Yes) VIOLATE("harness", "the reference cannot open the message");
        for (Node& nd : nodes) {
            ref::Cur c = z.root();
            for (auto& st : nd.path) {
                if (!st.by_key) c = z.elem(c, st.i).v;
                else z.entries(c, [&](std::string_view k, ref::Cur at) { if (k != st.key) return true; c = at; return false; });
            }
            if (nd.v->k == K::Arr) { nd.tab = 20 + z.a(c); nd.tab_n = 4 + 16 * nd.v->a.size(); }
            else if (nd.v->k == K::Map) { nd.tab = 20 + z.a(c); nd.tab_n = 4; for (auto& e : nd.v->m) nd.tab_n += 4 + e.first.size() + 16; }
        }
    }
    std::vector<std::size_t> big;   // nodes whose payload is missing at first
    for (std::size_t i = 0; i < nodes.size(); ++i) if (nodes[i].leaf && nodes[i].len >= 32) big.push_back(i);
    const bool tables = s.below(2);
    for (auto i : big) m.hide(nodes[i].off, nodes[i].len);
    for (auto& k : keys) m.arrive(k.first, k.second);
    std::size_t ntab = 0;
    if (tables) for (auto& nd : nodes) if (nd.tab_n) { m.hide(nd.tab, nd.tab_n); ++ntab; }
    // the root value may lie inside what another value's table covers only in messages with sharing; the header never does
    if constexpr (std::is_same_v<P, zerialize::Zera>) {
        ref::Zera z(reinterpret_cast<const std::uint8_t*>(m.orig.data()), m.n); z.open();
        m.arrive(0, 20); m.arrive(20 + z.root(), 16);
    }
    m.hide_done();
    s.ev("message", hash_bytes(bytes.data(), bytes.size()), big.size() * 1000 + ntab);
    if (!big.empty() || ntab) { s.nontrivial(); SIM_COUNT_N("fault.part_missing", big.size() + ntab); }

    // brings in what has to be read to get to a node, and, if asked, to go one level further
    auto reach = [&](const Node& t, bool into) {
        if (!tables) return;
        for (auto& nd : nodes) if (nd.tab_n && (under(t, nd) && (into || &nd != &t))) m.arrive(nd.tab, nd.tab_n);
    };
    std::optional<D> shared;
    // f under total memory exhaustion
    auto starved = [&](const char* what, const Node& t, auto&& f, bool by_key = false) {
        heap::Plan plan; plan.mode = heap::Plan::From; plan.n = 1;
        for (auto& st : t.path) by_key = by_key || st.by_key;
        if (cbor && by_key) plan.mode = heap::Plan::None;   // comparing CBOR keys may copy them
        else SIM_COUNT("fault.memory_exhausted");
        heap::set_plan(plan);
        std::string err;
        try { heap::LibScope ls; f(); }
        catch (const Violation&) { heap::clear_plan(); throw; }
        catch (const std::exception& e) { heap::HarnessScope hs; err = e.what(); if (err.empty()) err = "?"; }
        const u64 fired = heap::fired();
        heap::clear_plan();
        if (!err.empty() && fired) VIOLATE("needs-memory", N + ": " + what + " needs memory (" + err + ") on " + show(*t.v, 100));
        if (!err.empty()) VIOLATE("refused", N + ": " + what + " threw " + err + " on " + show(*t.v, 100));
    };
    starved("opening a borrowed message", nodes[0], [&] { if (s.below(2)) shared.emplace(span); else if constexpr (std::is_constructible_v<D, const std::uint8_t*, std::size_t>) shared.emplace(m.p, m.n); else shared.emplace(span); });
    std::vector<std::size_t> of_kind[12];   // nodes a kind of step is about
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        if (nodes[i].leaf) { of_kind[3].push_back(i); of_kind[4].push_back(i); of_kind[5].push_back(i); }
        if (nodes[i].v->k == K::Str) of_kind[9].push_back(i);
        if (nodes[i].v->k == K::Map) { of_kind[6].push_back(i); of_kind[7].push_back(i); }
        if (nodes[i].v->style == STensor && nodes[i].v->k == K::Arr) of_kind[11].push_back(i);
    }
    const int steps = 4 + static_cast<int>(s.below(24));
    for (int i = 0; i < steps; ++i) {
        const u64 kind = s.below(12);
        const auto& pool = of_kind[kind];
        Node& t = pool.empty() ? nodes[s.below(nodes.size())] : nodes[pool[s.below(pool.size())]];
        u64 result = 0;
        const char* name = "?";
        switch (kind) {
            case 0: {   // a payload arrives
                name = "arrive";
                if (!big.empty()) { Node& b = nodes[s.of(big)]; m.arrive(b.off, b.len); SIM_COUNT("op.payload_arrives"); }
                break;
            }
            case 1: case 2: {
                name = "numbers"; reach(t, true);
                starved("asking for kind, size and number", t, [&] { walk_to(*shared, t.path, 0, [&](auto& e) {
                    const MV& x = *t.v;
                    const bool ok = e.isNull() == (x.k == K::Null) && e.isBool() == (x.k == K::Bool) && e.isFloat() == (x.k == K::Float) && e.isString() == (x.k == K::Str) && e.isBlob() == (x.k == K::Blob) &&
                                    e.isArray() == (x.k == K::Arr) && e.isMap() == (x.k == K::Map) && (e.isInt() || e.isUInt()) == x.is_integer();
                    if (!ok) VIOLATE("wrong-kind", N + ": wrong kind for " + show(x, 80));
                    bool right = true;
                    switch (x.k) {
                        case K::Bool: right = e.asBool() == x.b; break;
                        case K::Int: case K::UInt: if (e.isInt()) right = (e.asInt64() < 0) == x.negative() && static_cast<u64>(e.asInt64()) == x.magnitude_bits(); else right = e.asUInt64() == x.magnitude_bits(); break;
                        case K::Float: { const double d = e.asDouble(); right = dbits(d) == dbits(x.d) || (std::isnan(d) && std::isnan(x.d)); break; }
                        case K::Arr: right = e.arraySize() == x.a.size(); break;
                        default: break;
                    }
                    if (!right) VIOLATE("wrong-value", N + ": wrong value for " + show(x, 80));
                }); });
                break;
            }
            case 3: case 4: case 5: {   // views: before or after the payload is there
                name = "view";
                Node& b = kind == 5 || big.empty() ? t : nodes[s.of(big)];
                if (!b.leaf) { name = "skip"; break; }
                reach(b, true);
                starved(b.v->k == K::Str ? "a string view" : "a blob view", b, [&] { walk_to(*shared, b.path, 0, [&](auto& e) {
                    const char* q; std::size_t k;
                    if (b.v->k == K::Str) { std::string_view x = e.asStringView(); q = x.data(); k = x.size(); }
                    else { auto x = e.asBlob(); q = reinterpret_cast<const char*>(std::data(x)); k = std::size(x); }
                    if (k != b.len || (k && q != reinterpret_cast<const char*>(m.p) + b.off)) VIOLATE("not-zero-copy", N + ": a view is not of the bytes in the message: " + show(*b.v, 80));
                    if (m.here(b.off, b.len) && k && std::memcmp(q, b.v->s.data(), k)) VIOLATE("wrong-value", N + ": a view shows other bytes than " + show(*b.v, 80));
                }); });
                result = m.here(b.off, b.len);
                if (!result) SIM_COUNT("probe.view_before_arrival");
                break;
            }
            case 6: {
                if (t.v->k != K::Map) { name = "skip"; break; }
                name = "keys"; reach(t, true);
                std::size_t n = 0;
                starved("iterating over keys", t, [&] { walk_to(*shared, t.path, 0, [&](auto& e) {
                    for (std::string_view k : e.mapKeys()) { ++n; if (!t.v->find(k)) VIOLATE("wrong-value", N + ": a key that was not sent in " + show(*t.v, 80)); if (n > t.v->m.size()) break; }
                }); }, true);
                if (n != t.v->m.size()) VIOLATE("wrong-value", N + ": " + std::to_string(n) + " keys in " + show(*t.v, 80));
                break;
            }
            case 7: {
                if (t.v->k != K::Map) { name = "skip"; break; }
                name = "contains"; reach(t, true);
                const std::string key = !t.v->m.empty() && s.below(2) ? t.v->m[s.below(t.v->m.size())].first : s.pick<const char*>({"absent", "kk", "k1", ""});
                starved("contains", t, [&] { walk_to(*shared, t.path, 0, [&](auto& e) {
                    if (e.contains(key) != (t.v->find(key) != nullptr)) VIOLATE("wrong-value", N + ": contains is wrong for " + show(*t.v, 80));
                }); }, true);
                break;
            }
            case 8: {   // copies of views are views
                name = "copy"; reach(t, false);
                starved("copying, moving and assigning borrowing readers", t, [&] { walk_to(*shared, t.path, 0, [&](auto& e) {
                    using E = std::remove_cvref_t<decltype(e)>;
                    E c(e); E d(std::move(c)); E y(e); y = d; E x(y); x = std::move(d);
                    if (x.isMap() != (t.v->k == K::Map) || x.isString() != (t.v->k == K::Str)) VIOLATE("wrong-kind", N + ": a copy answers differently for " + show(*t.v, 80));
                }); });
                break;
            }
            case 9: {   // a string is copied: its own payload only
                if (t.v->k != K::Str) { name = "skip"; break; }
                name = "as_string"; reach(t, true); m.arrive(t.off, t.len);
                heap::LibScope ls;
                walk_to(*shared, t.path, 0, [&](auto& e) { auto x = e.asString(); if (std::string_view(x) != t.v->s) VIOLATE("wrong-value", N + ": asString is wrong for " + show(*t.v, 80)); });
                break;
            }
            case 10: {  // part of the message is translated: that part only
                if (t.v->nodes() > 200) { name = "skip"; break; }
                name = "translate"; reach(t, true);
                for (auto& nd : nodes) if (under(nd, t)) { if (nd.leaf) m.arrive(nd.off, nd.len); if (nd.tab_n) m.arrive(nd.tab, nd.tab_n); }
                const int q = static_cast<int>(s.below(NProto));
                heap::LibScope ls;
                walk_to(*shared, t.path, 0, [&](auto& e) {
                    with_protocol(q, [&](auto tag) {
                        auto d = zerialize::translate<typename decltype(tag)::type>(e);
                        MV back = read_back(d);
                        heap::HarnessScope hs;
                        if (!same_loose(back, *t.v)) VIOLATE("wrong-value", N + ": translating a part gives " + show(back, 100) + " for " + show(*t.v, 100));
                        { MV dead = std::move(back); }
                    });
                });
                break;
            }
            default: {  // a tensor view: none of the payload if it can stay where it is
                if (t.v->style != STensor || !lib) { name = "skip"; break; }
                name = "tensor";
                const MV& sh = t.v->a[1];
                const int dt = static_cast<int>(t.v->a[0].i);
                const Node* blob = nullptr;
                for (auto& nd : nodes) if (nd.v == &t.v->a[2]) blob = &nd;
                if (!blob) break;
                for (auto& nd : nodes) if (under(nd, t) && nd.tab_n) m.arrive(nd.tab, nd.tab_n);
                reach(t, true);
                const std::size_t al = dt == 11 ? 8 : dt == 0 ? 1 : 4;
                const bool aligned = (reinterpret_cast<std::uintptr_t>(m.p) + blob->off) % al == 0;
                if (!aligned) m.arrive(blob->off, blob->len);
                heap::LibScope ls;
                walk_to(*shared, t.path, 0, [&](auto& e) {
                    auto look = [&](auto el) {
                        using T = decltype(el);
                        if (!zerialize::isTensor<T>(e)) VIOLATE("wrong-kind", N + ": not seen as a tensor: " + show(*t.v, 80));
                        auto view = zerialize::xtensor::asXTensorView<T>(e);
                        if (view.rank() != sh.a.size()) VIOLATE("wrong-value", N + ": wrong rank");
                    };
                    if (dt == 11) look(double{}); else if (dt == 10) look(float{}); else if (dt == 2) look(std::int32_t{}); else look(std::int8_t{});
                });
                if (!m.here(blob->off, blob->len)) SIM_COUNT("probe.tensor_before_arrival");
                result = aligned;
                break;
            }
        }
        count_dyn(std::string("op.") + name);
        s.ev(name, static_cast<u64>(&t - nodes.data()), result);
        s.state(mix(mix(fnv(P::Name) + kind * 64 + result * 2 + tables) ^ shape_hash(*t.v)) + std::min<std::size_t>(t.path.size(), 4));
    }
    { heap::LibScope ls; shared.reset(); }
}

void run(Sim& s) {
    heap::reset(s.below(2));
    GenOpt g; g.budget = 4 + static_cast<int>(s.below(28)); g.big = false;
    MV v = Gen(s, g).value();
    { heap::HarnessScope hs; fatten(s, v); }
    if (s.tracing()) s.note(show(v));
    with_protocol(static_cast<int>(s.below(NProto)), [&](auto t) {
        using P = typename decltype(t)::type;
        bool lib = true;
        std::string b;
        if constexpr (!std::is_same_v<P, zerialize::Flex>) { if (s.below(3) == 2) { lib = false; b = foreign_bytes<P>(s, v); } }
        if (lib) b = encode_bytes<P>(v);
        one<P>(s, v, b, lib);
    });
}
} // namespace
namespace sim { const Prop the_prop{"C17", run}; }
