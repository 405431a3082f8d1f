// C12: values relayed through lossy links and crashing relays arrive unchanged.
// C13 (-DNET_FOREIGN): some of the nodes are independent ZERA / MessagePack implementations.
// A discrete-event network in simulated microseconds: nodes keep what they durably stored,
// retransmit until acknowledged, and lose everything else when they crash.
#include "net.hpp"
#include <sys/mman.h>
#include "faults.hpp"
#include "ref.hpp"
#include "enc.hpp"
#include <map>
#include <memory>
#include <queue>
using namespace sim;
namespace net {
template<> std::string process_as<zerialize::Zera>(Sim&, const std::uint8_t*, std::size_t, const Work&);
template<> std::string process_as<zerialize::MsgPack>(Sim&, const std::uint8_t*, std::size_t, const Work&);
template<> std::string process_as<zerialize::Flex>(Sim&, const std::uint8_t*, std::size_t, const Work&);
template<> std::string process_as<zerialize::CBOR>(Sim&, const std::uint8_t*, std::size_t, const Work&);
std::string process(Sim& s, int proto, const std::uint8_t* p, std::size_t n, const Work& w) {
    switch (proto) { case 0: return process_as<zerialize::Zera>(s, p, n, w); case 1: return process_as<zerialize::MsgPack>(s, p, n, w); case 2: return process_as<zerialize::Flex>(s, p, n, w); default: return process_as<zerialize::CBOR>(s, p, n, w); }
}
}
namespace {
using net::Work;
#ifdef NET_FOREIGN
constexpr bool Foreign = true;
#else
constexpr bool Foreign = false;
#endif

struct Stored { int proto = 0; std::string bytes; bool exact = false; bool acked = false; };
struct Node {
    bool foreign = false, up = true;
    std::map<int, Stored> disk;          // durable
    std::uint8_t* ring = nullptr;        // receive memory, filled again and again
    std::size_t ring_n = 0;
};
struct Flow { MV v; std::vector<int> route; std::vector<int> proto; bool delivered = false; u64 copies = 0; };
struct Ev { u64 at; u64 seq; enum T { Packet, Ack, Tick, Crash, Restart, Stop } t; int node = 0, flow = 0, hop = 0; int proto = 0; bool exact = false; std::shared_ptr<std::string> bytes; };
struct Later { bool operator()(const Ev& a, const Ev& b) const { return a.at != b.at ? a.at > b.at : a.seq > b.seq; } };

struct Net {
    Sim& s;
    std::vector<Node> nodes; std::vector<Flow> flows;
    std::priority_queue<Ev, std::vector<Ev>, Later> q;
    u64 seq = 0; bool faults = true, nul = false; int p_loss = 0, p_dup = 0, p_oom = 0, p_crash = 0;

    void post(Ev e, u64 delay) { e.at = s.now() + delay; e.seq = ++seq; q.push(std::move(e)); }
    void link(Ev e) {   // one traversal of a link
        if (faults && p_loss && s.below(100) >= 100u - static_cast<unsigned>(p_loss)) { SIM_COUNT("fault.lost"); s.ev("lost", e.flow, e.hop); return; }
        const int n = faults && p_dup && s.below(100) >= 100u - static_cast<unsigned>(p_dup) ? 2 : 1;
        if (n == 2) SIM_COUNT("fault.duplicated");
        for (int i = 0; i < n; ++i) {
            u64 d = 500 + s.below(1500);
            if (faults && s.below(8) == 7) { d += 1000 * s.below(60); SIM_COUNT("fault.delayed"); }   // overtaken by later ones
            post(e, d);
        }
    }
    void send(int node, int f) {
        Flow& fl = flows[f]; Stored& st = nodes[node].disk.at(f);
        const int hop = static_cast<int>(std::find(fl.route.begin(), fl.route.end(), node) - fl.route.begin());
        if (hop + 1 >= static_cast<int>(fl.route.size())) return;
        Ev e{}; e.t = Ev::Packet; e.flow = f; e.hop = hop + 1; e.node = fl.route[hop + 1]; e.proto = st.proto; e.exact = st.exact; e.bytes = std::make_shared<std::string>(st.bytes);
        s.ev("send", f, hop);
        link(std::move(e));
    }
    // The foreign implementation: decode with the reference, encode with other choices.
    void foreign(int node, const Ev& e, Stored& out) {
        Flow& fl = flows[e.flow];
        auto* p = reinterpret_cast<const std::uint8_t*>(e.bytes->data()); const std::size_t n = e.bytes->size();
        ref::Ans<MV> v; bool ok = false; ref::Budget b; b.nodes = 1 << 20;
        if (e.proto == 0) { ref::Zera r(p, n); ok = r.open() == ref::Yes; if (ok) { v = ref::value(r, r.root(), b); ok = r.tail_ok(r.root()); } }
        else { ref::MsgPack r(p, n); v = ref::value(r, r.root(), b); ok = r.tail_ok(0); }
        if (!ok || v.s != ref::Yes) VIOLATE("foreign-refused", std::string("a foreign ") + pname(e.proto) + " peer cannot read the message for " + show(fl.v, 300));
        if (!same(v.v, fl.v)) VIOLATE("foreign-wrong-value", std::string("a foreign ") + pname(e.proto) + " peer reads " + show(v.v, 250) + " for " + show(fl.v, 250));
        if (e.exact && !same_classes(v.v, fl.v)) VIOLATE("foreign-wrong-value", "a foreign zera peer reads an integer of the other signedness");
        SIM_COUNT("probe.foreign_read");
        if (e.hop + 1 < static_cast<int>(fl.route.size())) encode_foreign(fl.v, out, fl.proto[e.hop], e.exact);
        (void)node;
    }
    static bool same_classes(const MV& a, const MV& b) {
        if (a.k != b.k) return false;
        for (std::size_t i = 0; i < a.a.size(); ++i) if (!same_classes(a.a[i], b.a[i])) return false;
        std::map<std::string_view, const MV*> by;
        for (auto& e : b.m) by.emplace(e.first, &e.second);
        for (auto& e : a.m) { auto o = by.find(e.first); if (o == by.end() || !same_classes(e.second, *o->second)) return false; }
        return true;
    }
    void encode_foreign(const MV& v, Stored& out, int proto, bool exact) {
        out.proto = proto; out.bytes = proto == 0 ? enc::zera(s, v) : enc::msgpack(s, v); out.exact = exact && proto == 0;
        SIM_COUNT("probe.foreign_write");
    }
    bool oom_begin() {
        if (!faults || !p_oom || s.below(100) < 100u - static_cast<unsigned>(p_oom)) return false;
        heap::set_plan(draw_plan(s, 20));
        return true;
    }
    // false: gave up, nothing stored
    bool library(int node, const Ev& e, Stored& out) {
        Flow& fl = flows[e.flow]; Node& nd = nodes[node];
        const bool last = e.hop + 1 == static_cast<int>(fl.route.size());
        const std::size_t n = e.bytes->size();
        std::uint8_t* at; bool fresh = false;
        if (s.below(2) && n <= nd.ring_n) { at = nd.ring; SIM_COUNT("probe.buffer_refilled_in_place"); }
        else { at = heap::place(n, s.below(4) ? 0 : s.below(64)); fresh = true; }
        std::memcpy(at, e.bytes->data(), n);
        Work w{};
        w.q = last ? static_cast<int>(s.below(NProto)) : fl.proto[e.hop];
        w.mode = static_cast<int>(s.below(4));
        if (w.mode == 3 && w.q != e.proto) w.mode = 0;
        if (w.mode == 2) w.restyle = s.below(1 << 16);
        w.own = s.below(3) == 2; w.check = last || s.below(2); w.refusals = w.check && s.below(4) == 3; w.want = &fl.v; w.exact = e.exact;
        if (last) w.mode = 3;
        else if (fl.v.nodes() > 3000 && !(w.mode == 1 && fl.v.k == K::Arr && fl.v.a.size() > 3000 && e.proto == 0)) w.mode = 3;   // looking up every key, or indexing MessagePack one by one, is quadratic
        const bool oom = !last && oom_begin();
        if (oom) w.check = false;
        bool ok = true; std::string why;
        try { out.bytes = net::process(s, e.proto, at, n, w); }
        catch (const Violation&) { if (oom) heap::clear_plan(); if (fresh) heap::unplace(at); throw; }
        catch (const std::exception& x) { ok = false; why = x.what(); }
        const bool fired = oom && heap::fired();
        if (oom) heap::clear_plan();
        if (fired) SIM_COUNT("fault.alloc");
        if (!ok && !fired) { if (fresh) heap::unplace(at); VIOLATE("refused", std::string("a relay could not handle a ") + pname(e.proto) + " message: " + why + " for " + show(fl.v, 300)); }
        if (std::memcmp(at, e.bytes->data(), n) != 0) VIOLATE("message-changed", "reading changed the message");
        if (fresh) { std::memset(at, 0xdb, n); heap::unplace(at); }
        out.proto = w.mode == 3 ? e.proto : w.q;
        out.exact = e.exact && (out.proto == 0 || out.proto == 2);
        s.ev("process", static_cast<u64>(e.proto) * 64 + static_cast<u64>(w.mode) * 8 + static_cast<u64>(w.q), ok * 2 + fired);
        s.state(mix(mix(static_cast<u64>(e.proto) * 64 + static_cast<u64>(w.mode) * 8 + static_cast<u64>(w.q)) ^ shape_hash(fl.v)) + ok);
        return ok;
    }
    void crash(int node) {
        Node& nd = nodes[node];
        if (!nd.up) return;
        nd.up = false; SIM_COUNT("fault.crash"); s.ev("crash", static_cast<u64>(node));
        if (nd.ring) std::memset(nd.ring, 0xdb, nd.ring_n);    // memory is lost, the disk is not
        Ev r{}; r.t = Ev::Restart; r.node = node; post(r, 5000 + 1000 * s.below(200));
    }
    void receive(const Ev& e) {
        Node& nd = nodes[e.node];
        if (!nd.up) { s.ev("down", static_cast<u64>(e.node)); return; }
        Flow& fl = flows[e.flow];
        const bool last = e.hop + 1 == static_cast<int>(fl.route.size());
        if (!nd.disk.count(e.flow) || (last && s.below(2))) {
            Stored st;
            bool ok = true;
            if (nd.foreign) foreign(e.node, e, st); else ok = library(e.node, e, st);
            if (!ok) return;
            if (faults && p_crash && s.below(100) >= 100u - static_cast<unsigned>(p_crash)) { crash(e.node); return; }   // before it was stored
            if (last) { if (!fl.delivered) { fl.delivered = true; s.ev("delivered", static_cast<u64>(e.flow)); } ++fl.copies; }
            nd.disk.emplace(e.flow, std::move(st));
            if (!last) send(e.node, e.flow);
            if (faults && p_crash && s.below(100) >= 100u - static_cast<unsigned>(p_crash)) { crash(e.node); return; }   // before it was acknowledged
        } else s.ev("duplicate", static_cast<u64>(e.flow));
        Ev a{}; a.t = Ev::Ack; a.flow = e.flow; a.hop = e.hop - 1; a.node = fl.route[e.hop - 1];
        link(a);
    }
    void run() {
        const u64 stop = 1000 * (20 + s.below(400));
        Ev st{}; st.t = Ev::Stop; post(st, stop);
        for (std::size_t i = 0; i < nodes.size(); ++i) { Ev t{}; t.t = Ev::Tick; t.node = static_cast<int>(i); post(t, 10000 + s.below(5000)); }
        u64 deadline = 0;
        while (!q.empty()) {
            Ev e = q.top(); q.pop();
            s.advance_to(e.at);
            bool all = true; for (auto& f : flows) all = all && f.delivered;
            if (all && (!faults || s.now() > stop)) break;
            if (!faults && s.now() > deadline) break;
            switch (e.t) {
                case Ev::Packet: receive(e); break;
                case Ev::Ack: if (nodes[e.node].up && nodes[e.node].disk.count(e.flow)) nodes[e.node].disk[e.flow].acked = true; break;
                case Ev::Tick: {
                    Node& nd = nodes[e.node];
                    if (nd.up) for (auto& [f, stored] : nd.disk) if (!stored.acked) send(e.node, f);
                    if (nd.up && faults && p_crash && s.below(100) >= 100u - static_cast<unsigned>(p_crash)) crash(e.node);
                    post(e, 20000 + s.below(10000));
                    break;
                }
                case Ev::Restart: nodes[e.node].up = true; s.ev("restart", static_cast<u64>(e.node)); SIM_COUNT("probe.restart"); for (auto& [f, stored] : nodes[e.node].disk) if (!stored.acked) send(e.node, f); break;
                case Ev::Stop: faults = false; deadline = s.now() + 5000000; s.ev("faults stop"); break;
                default: break;
            }
        }
        for (std::size_t i = 0; i < flows.size(); ++i) if (!flows[i].delivered) VIOLATE("not-delivered", "value " + std::to_string(i) + " was not delivered within 5 simulated seconds after faults stopped");
    }
};

// A key the protocol cannot carry (NUL in a Flex key, more than 65535 bytes in a ZERA key)
// anywhere in a value: refused when written or translated, never sent as something else.
void unrepresentable(Sim& s) {
    const bool flex = s.below(2);
    GenOpt g; g.budget = 3 + static_cast<int>(s.below(16)); g.big = false; g.nul_keys = false;
    MV v = Gen(s, g).value();
    std::string key = flex ? "ab" : std::string(s.pick<std::size_t>({65536, 65537, 70000, 131072, 65536 + 3}), 'k');
    if (flex) { key = Gen(s, g).bytes(1 + s.below(20), true); key[s.below(key.size())] = '\0'; }
    std::vector<MV*> maps;
    auto walk = [&](auto& self, MV& x) -> void {
        if (x.k == K::Map && (x.style == SDirect || x.style == SStdMap || x.style == SUnordered || x.style == SDyn || x.style == SUserNest)) maps.push_back(&x);
        if (x.style == STyped || x.style == SPlain || x.style == STensor) return;
        for (auto& c : x.a) self(self, c);
        for (auto& c : x.m) self(self, c.second);
    };
    walk(walk, v);
    if (maps.empty()) { MV m = MV::map(); m.m.emplace_back("v", std::move(v)); v = std::move(m); maps.push_back(&v); }
    MV& m = *maps[s.below(maps.size())];
    m.m.emplace(m.m.begin() + static_cast<long>(s.below(m.m.size() + 1)), key, MV::integer(1));
    const int via = static_cast<int>(s.below(3));   // written, or translated from another protocol
    s.ev("unrepresentable", flex, static_cast<u64>(via)); s.state(mix(flex * 8 + static_cast<u64>(via)) ^ shape_hash(v)); s.nontrivial();
    if (s.tracing()) s.note(show(v));
    SIM_COUNT("fault.unrepresentable_key");
    auto attempt = [&](const char* how, auto f) {
        bool ok = false;
        try { heap::LibScope ls; f(); ok = true; }
        catch (const zerialize::SerializationError&) {}
        catch (const Violation&) { throw; }
        catch (const std::exception& e) { VIOLATE("wrong-exception", std::string(how) + " a key that cannot be carried: " + e.what()); }
        if (ok) VIOLATE("not-refused", std::string(how) + " a key that " + (flex ? "flex" : "zera") + " cannot carry succeeded: " + show(v, 200));
    };
    auto from = [&](auto src) {
        using S = typename decltype(src)::type;
        const std::string b = encode_bytes<S>(v);
        typename S::Deserializer d(to_vec(b));
        if (flex) attempt("translating", [&] { (void)zerialize::translate<zerialize::Flex>(d); }); else attempt("translating", [&] { (void)zerialize::translate<zerialize::Zera>(d); });
    };
    if (via == 0) { if (flex) attempt("writing", [&] { (void)encode<zerialize::Flex>(v); }); else attempt("writing", [&] { (void)encode<zerialize::Zera>(v); }); }
    else if (via == 1) from(Tag<zerialize::MsgPack>{});
    else if (flex) from(Tag<zerialize::Zera>{});
    else from(Tag<zerialize::CBOR>{});
}

// A string, blob, key or (MessagePack announces counts up front) container whose length does
// not fit the 32-bit fields of ZERA and MessagePack: refused, never cut short. The bytes are
// 4 GiB of address space that is never touched; the heap refuses blocks that large.
struct BigHook { int what; std::string_view sv; std::size_t count; };
template<zerialize::Writer W> void serialize(const BigHook& h, W& w) {
    switch (h.what) {
        case 0: w.string(h.sv); break;
        case 1: w.binary(std::span<const std::byte>(reinterpret_cast<const std::byte*>(h.sv.data()), h.sv.size())); break;
        case 2: w.begin_map(1); w.key(h.sv); w.null(); w.end_map(); break;
        case 3: w.begin_array(h.count); break;
        case 4: w.begin_map(h.count); break;
    }
}
void oversize(Sim& s) {
    constexpr std::size_t Extra = 1 << 20;
    static const char* zeros = [] {
        void* p = mmap(nullptr, (std::size_t(1) << 32) + Extra, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { std::fputs("sim: cannot map 4 GiB of address space\n", stderr); _exit(3); }
        return static_cast<const char*>(p);
    }();
    const bool mp = s.below(2);
    const std::size_t n = (std::size_t(1) << 32) + s.pick<std::size_t>({0, 1, 2, 15, 31, 255, 256, 65535, 65536, 70000});
    BigHook h{static_cast<int>(s.below(mp ? 5 : 3)), std::string_view(zeros, n), n};
    const int where = static_cast<int>(s.below(5));
    s.ev("oversize", mp * 8 + static_cast<u64>(h.what), static_cast<u64>(where)); s.state(mix(n) ^ static_cast<u64>(mp * 64 + h.what * 8 + where)); s.nontrivial();
    SIM_COUNT("fault.oversize_length");
    auto attempt = [&](auto p) {
        using P = typename decltype(p)::type;
        bool ok = false;
        try {
            heap::LibScope ls;
            switch (where) {
                case 0: (void)zerialize::serialize<P>(h); break;
                case 1: (void)zerialize::serialize<P>(zerialize::zvec(1, h, 2)); break;
                case 2: (void)zerialize::serialize<P>(zerialize::zmap<"a", "b">(h, 2)); break;
                case 3: (void)zerialize::serialize<P>(std::vector<BigHook>{h}); break;
                case 4: if (h.what == 0) (void)zerialize::serialize<P>(h.sv);
                        else if (h.what == 1) (void)zerialize::serialize<P>(std::span<const std::byte>(reinterpret_cast<const std::byte*>(zeros), n));
                        else (void)zerialize::serialize<P>(zerialize::dyn::serializable(h)); break;
            }
            ok = true;
        }
        catch (const zerialize::SerializationError&) {}
        catch (const std::exception& e) { VIOLATE("wrong-exception", std::string("writing a length of ") + std::to_string(n) + " that cannot be carried: " + e.what()); }
        if (ok) VIOLATE("not-refused", "a length of " + std::to_string(n) + " (kind " + std::to_string(h.what) + ") was accepted");
    };
    if (mp) attempt(Tag<zerialize::MsgPack>{}); else attempt(Tag<zerialize::Zera>{});
}

void run(Sim& s) {
    heap::reset(s.below(2));
    if (!Foreign && s.below(24) == 23) { if (s.below(4) == 3) oversize(s); else unrepresentable(s); return; }
    Net net{s};
    const int nn = 2 + static_cast<int>(s.below(5));
    net.nodes.resize(static_cast<std::size_t>(nn));
    for (auto& n : net.nodes) { n.foreign = Foreign && s.below(2); n.ring_n = 4096; n.ring = heap::place(n.ring_n, s.below(2) ? 0 : s.below(64)); }
    if (Foreign) { bool any = false; for (auto& n : net.nodes) any = any || n.foreign; if (!any) net.nodes[s.below(static_cast<u64>(nn))].foreign = true; }
    if (s.below(4)) { net.p_loss = static_cast<int>(s.below(40)); net.p_dup = static_cast<int>(s.below(30)); }
    if (s.below(2)) net.p_crash = static_cast<int>(s.below(15));
    if (s.below(2)) net.p_oom = static_cast<int>(s.below(40));
    const int nf = 1 + static_cast<int>(s.below(4));
    for (int f = 0; f < nf; ++f) {
        Flow fl;
        std::vector<int> order; for (int i = 0; i < nn; ++i) order.push_back(i);
        for (int i = nn - 1; i > 0; --i) std::swap(order[static_cast<std::size_t>(i)], order[s.below(static_cast<u64>(i) + 1)]);
        const int len = 2 + static_cast<int>(s.below(static_cast<u64>(nn) - 1));
        order.resize(static_cast<std::size_t>(len));
        fl.route = order;
        bool flex = false, cbor = false; const bool big = s.below(16) == 15;
        for (int h = 0; h + 1 < len; ++h) {
            // a foreign node speaks two protocols; whoever talks to one uses those
            const bool narrow = net.nodes[static_cast<std::size_t>(order[static_cast<std::size_t>(h)])].foreign || net.nodes[static_cast<std::size_t>(order[static_cast<std::size_t>(h) + 1])].foreign;
            fl.proto.push_back(static_cast<int>(s.below(narrow ? 2 : NProto)));
            if (fl.proto.back() == 2) flex = true;
            if (fl.proto.back() == 3) cbor = true;
        }
        GenOpt g; g.budget = 3 + static_cast<int>(s.below(30)); g.big = big; g.big_counts = !cbor && !(flex && Foreign); g.nul_keys = !flex && s.below(2);
        if (f && !net.nul && s.below(4) == 3) fl.v = net.flows[0].v;
        else if (s.below(24) == 23) { fl.v = nested(s, 1 + s.below(s.below(4) ? 300 : 890), MV::integer(7)); }
        else if (s.below(512) == 511) {   // one very long string or blob among others
            Gen gen(s, g);
            fl.v = MV::arr();
            MV huge = s.below(2) ? MV::str(gen.bytes(300, true)) : MV::blob(gen.bytes(300, false));
            huge.s.resize(s.pick<std::size_t>({1u << 20, (1u << 20) - 1, (1u << 24) - 1, 1u << 24, (1u << 24) + 5, 5000000}), 'h');
            huge.s.back() = 'E';
            fl.v.a = {MV::str("before"), std::move(huge), gen.value(), MV::integer(-1)};
            SIM_COUNT("probe.huge");
        }
        else if (s.below(512) == 511) {   // a container of many thousands of entries, with values after it
            Gen gen(s, g);
            const std::size_t n = s.pick<std::size_t>({32767, 32768, 32769, 65535, 65536, 65537, 40000, 16384});
            MV wide = s.below(4) ? MV::map() : MV::arr();
            const bool odd = s.below(2);
            for (std::size_t i = 0; i < n; ++i) {
                MV c = odd && i % 7 == 3 ? MV::str("x") : MV::uinteger(i);
                if (wide.k == K::Map) wide.m.emplace_back("k" + std::to_string(i), std::move(c)); else wide.a.push_back(std::move(c));
            }
            if (wide.k == K::Map) wide.style = s.pick<std::uint8_t>({SDirect, SStdMap, SUnordered, SDyn});
            fl.v = s.below(2) ? MV::arr() : MV::map();
            MV after = MV::map(); after.m.emplace_back("after", MV::integer(-5));
            if (fl.v.k == K::Arr) fl.v.a = {MV::str("before"), std::move(wide), std::move(after), MV::integer(-1)};
            else { fl.v.m.emplace_back("before", MV::blob("abc")); fl.v.m.emplace_back("wide", std::move(wide)); fl.v.m.emplace_back("z", std::move(after)); }
            SIM_COUNT("probe.wide");
        }
        else fl.v = Gen(s, g).value();
        if (Foreign && fl.v.nodes() > 3000) for (int& p : fl.proto) p &= 1;   // these are passed on as they came
        net.nul = net.nul || g.nul_keys;
        s.ev("flow", shape_hash(fl.v), static_cast<u64>(len));
        if (s.tracing()) s.note("value " + std::to_string(f) + ": " + show(fl.v));
        Stored st;
        Node& src = net.nodes[static_cast<std::size_t>(fl.route[0])];
        if (src.foreign) net.encode_foreign(fl.v, st, fl.proto[0], true);
        else with_protocol(fl.proto[0], [&](auto t) {
            using P = typename decltype(t)::type;
            heap::LibScope ls; auto z = encode<P>(fl.v); heap::HarnessScope hs;
            st.proto = fl.proto[0]; st.bytes.assign(reinterpret_cast<const char*>(z.data()), z.size()); st.exact = Traits<P>::exact_sign;
        });
        src.disk.emplace(f, std::move(st));
        net.flows.push_back(std::move(fl));
    }
    for (int f = 0; f < nf; ++f) net.send(net.flows[static_cast<std::size_t>(f)].route[0], f);
    s.nontrivial();
    net.run();
    for (auto& n : net.nodes) heap::unplace(n.ring);
}
}
namespace sim { const Prop the_prop{Foreign ? "C13" : "C12", run}; }
