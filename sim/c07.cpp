// C07: threads read shared messages, readers, views and buffers at the same time.
#include "enc.hpp"
#include "ops.hpp"
namespace sim {
template<class P> std::string foreign_bytes(Sim& s, const MV& v) {
    if constexpr (std::is_same_v<P, zerialize::Zera>) return enc::zera(s, v);
    else if constexpr (std::is_same_v<P, zerialize::MsgPack>) return enc::msgpack(s, v);
    else return enc::cbor(s, v, false);
}
}
#include "threads.hpp"
using namespace sim;

namespace {
const MV* find_tensor(const MV& v) {
    if (v.style == STensor && v.k == K::Arr) return &v;
    for (auto& x : v.a) if (auto* p = find_tensor(x)) return p;
    for (auto& x : v.m) if (auto* p = find_tensor(x.second)) return p;
    return nullptr;
}
struct World { virtual Item item(Sim& s) = 0; virtual void check(Sim& s) = 0; virtual ~World() = default; };

// an object taken from a reader and shared between the threads
struct SharedView { const MV* node; virtual void run(const ReadOp& op, std::string& out) const = 0; virtual ~SharedView() = default; };
template<class R> struct ViewOf final : SharedView {
    R r;
    ViewOf(R x, const MV* n) : r(std::move(x)) { node = n; }
    void run(const ReadOp& op, std::string& out) const override { run_op(r, op, out); }
};
struct SharedThing { const char* name; virtual void use(std::size_t how, std::string& out) const = 0; virtual ~SharedThing() = default; };
template<class T> void put_raw(std::string& out, const T* p, std::size_t n) { put(out, std::string_view(reinterpret_cast<const char*>(p), n * sizeof(T))); }

template<class Ks> struct KeysOf final : SharedThing {
    Ks ks;
    explicit KeysOf(Ks k) : ks(std::move(k)) { name = "shared key range"; }
    void use(std::size_t how, std::string& out) const override {
        std::size_t n = 0;
        for (auto k : ks) { put(out, std::string_view(k)); if (how & 1 && ++n > how) break; }
    }
};
template<class T> struct XtOf final : SharedThing {
    zerialize::xtensor::XTensorView<T> v;
    explicit XtOf(zerialize::xtensor::XTensorView<T> x) : v(std::move(x)) { name = "shared tensor view"; }
    void use(std::size_t how, std::string& out) const override {
        put_num(out, static_cast<long long>(v.rank())); for (auto d : v.shape()) put_num(out, d);
        put_num(out, v.viewInfo().zero_copy);
        switch (how % 3) {
            case 0: { auto a = v.array(); put_raw(out, a.data(), a.size()); break; }
            case 1: { auto a = v.tensor(); put_raw(out, a.data(), a.size()); break; }
            default: { zerialize::xtensor::XTensorView<T> c(v); auto a = c.array(); put_raw(out, a.data(), a.size()); }
        }
    }
};
template<class T> struct EigOf final : SharedThing {
    zerialize::eigen::EigenMatrixView<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor> v;
    explicit EigOf(decltype(v) x) : v(std::move(x)) { name = "shared matrix view"; }
    void use(std::size_t how, std::string& out) const override {
        put_num(out, static_cast<long long>(v.rows())); put_num(out, static_cast<long long>(v.cols()));
        if (how & 1) { auto m = v.matrix(); put_raw(out, m.data(), static_cast<std::size_t>(m.size())); }
        else { auto m = v.map(); put_raw(out, m.data(), static_cast<std::size_t>(m.size())); }
    }
};
struct BufOf final : SharedThing {
    zerialize::ZBuffer z;
    explicit BufOf(zerialize::ZBuffer x) : z(std::move(x)) { name = "shared buffer"; }
    void use(std::size_t how, std::string& out) const override {
        put_num(out, static_cast<long long>(z.size())); put_num(out, z.empty()); put_num(out, z.owned());
        switch (how % 6) {
            case 0: put_raw(out, z.data(), z.size()); break;
            case 1: { auto b = z.buf(); put_raw(out, b.data(), b.size()); break; }
            case 2: { auto c = z.to_vector_copy(); put_raw(out, c.data(), c.size()); break; }
            case 3: { auto c = z.to_debug_string(); put(out, std::string_view(c)); break; }
            case 4: { auto c = z.to_string(); put(out, std::string_view(c)); break; }
            default: { auto c = z.hexdump(8 + how); put(out, std::string_view(c)); }
        }
    }
};

template<class P> struct WorldOf final : World {
    MV v;
    std::vector<std::uint8_t> bytes;
    std::optional<Des<P>> borrowed, owning;
    std::vector<std::unique_ptr<SharedView>> views;
    std::vector<std::unique_ptr<SharedThing>> things;

    template<class R> void descend(Sim& s, const R& r, const MV& n, int depth) {
        const std::size_t c = n.k == K::Arr ? n.a.size() : n.k == K::Map ? n.m.size() : 0;
        if (c == 0 || depth > 6) { keep(r, n); return; }
        const u64 j = s.below(c + 1);
        if (j == 0) { keep(r, n); return; }
        if (n.k == K::Arr) { auto e = r[j - 1]; descend(s, e, n.a[j - 1], depth + 1); }
        else { auto e = r[std::string_view(n.m[j - 1].first)]; descend(s, e, n.m[j - 1].second, depth + 1); }
    }
    template<class R> void keep(const R& r, const MV& n) {
        std::unique_ptr<SharedView> p;
        std::unique_ptr<SharedThing> t;
        { heap::LibScope ls;
          p = std::make_unique<ViewOf<R>>(R(r), &n);
          if (n.k == K::Map) t = std::make_unique<KeysOf<decltype(r.mapKeys())>>(r.mapKeys()); }
        if (n.k == K::Arr && n.style == STensor) t = tensor(r, n, 0);
        views.push_back(std::move(p));
        if (t) things.push_back(std::move(t));
    }
    // a foreign writer may have chosen an unsigned type code, which is then not a tensor
    template<class R> std::unique_ptr<SharedThing> tensor(const R& r, const MV& n, int which) {
        try { return tensor_(r, n, which); } catch (const zerialize::DeserializationError&) { heap::in_lib = false; return nullptr; }
    }
    template<class R> std::unique_ptr<SharedThing> tensor_(const R& r, const MV& n, int which) {
        heap::LibScope ls;
        const bool eig = n.a[1].a.size() == 2 && which;
        switch (n.a[0].i) {
            case 11: if (eig) return std::make_unique<EigOf<double>>(zerialize::eigen::asEigenMatrixView<double, Eigen::Dynamic, Eigen::Dynamic>(r)); return std::make_unique<XtOf<double>>(zerialize::xtensor::asXTensorView<double>(r));
            case 10: if (eig) return std::make_unique<EigOf<float>>(zerialize::eigen::asEigenMatrixView<float, Eigen::Dynamic, Eigen::Dynamic>(r)); return std::make_unique<XtOf<float>>(zerialize::xtensor::asXTensorView<float>(r));
            case 2: if (eig) return std::make_unique<EigOf<std::int32_t>>(zerialize::eigen::asEigenMatrixView<std::int32_t, Eigen::Dynamic, Eigen::Dynamic>(r)); return std::make_unique<XtOf<std::int32_t>>(zerialize::xtensor::asXTensorView<std::int32_t>(r));
            default: if (eig) return std::make_unique<EigOf<std::int8_t>>(zerialize::eigen::asEigenMatrixView<std::int8_t, Eigen::Dynamic, Eigen::Dynamic>(r)); return std::make_unique<XtOf<std::int8_t>>(zerialize::xtensor::asXTensorView<std::int8_t>(r));
        }
    }
    template<class R> void descend_to(Sim& s, const R& r, const MV& n, const MV* goal, int depth) {
        if (&n == goal) { auto t = tensor(r, n, static_cast<int>(s.below(2))); if (t) things.push_back(std::move(t)); return; }
        if (depth > 10) return;
        auto has = [&](auto& self, const MV& x) -> bool { if (&x == goal) return true; for (auto& c : x.a) if (self(self, c)) return true; for (auto& c : x.m) if (self(self, c.second)) return true; return false; };
        for (std::size_t i = 0; i < n.a.size(); ++i) if (has(has, n.a[i])) { auto e = r[i]; descend_to(s, e, n.a[i], goal, depth + 1); return; }
        for (auto& x : n.m) if (has(has, x.second)) { auto e = r[std::string_view(x.first)]; descend_to(s, e, x.second, goal, depth + 1); return; }
    }

    WorldOf(Sim& s, bool cold) {
        GenOpt g; g.budget = 2 + static_cast<int>(s.below(16)); g.big = false; g.max_depth = 4;
        v = Gen(s, g).value();
        if (v.nodes() > 120) { g.budget = 3; v = MV::arr(); v.a.push_back(MV::integer(1)); v.a.push_back(MV::str("a string of some length, longer than any small buffer")); }
        const std::string b = message<P>(s, v, cold || s.below(2));
        bytes = to_vec(b);
        s.ev("message", shape_hash(v), hash_bytes(b.data(), b.size()));
        if (s.tracing()) s.note(std::string(P::Name) + " " + show(v));
        {
            heap::LibScope ls;
            borrowed = open_reader<P>(static_cast<int>(s.below(2)) * 3, bytes);
            owning = open_reader<P>(1 + static_cast<int>(s.below(2)), bytes);
        }
        const u64 nv = s.below(3);
        for (u64 i = 0; i < nv; ++i) descend(s, s.below(2) ? *borrowed : *owning, v, 0);
        if (const MV* t = find_tensor(v); t && s.below(2)) descend_to(s, s.below(2) ? *borrowed : *owning, v, t, 0);
        if (s.below(3) == 0) {
            heap::LibScope ls;
            std::unique_ptr<SharedThing> z;
            if (cold || s.below(2)) { std::vector<std::uint8_t> c; { heap::HarnessScope hs; c = bytes; } z = std::make_unique<BufOf>(zerialize::ZBuffer(std::move(c))); }
            else z = std::make_unique<BufOf>(encode<P>(v));
            heap::HarnessScope hs;
            things.push_back(std::move(z));
        }
    }
    Item item(Sim& s) override {
        Item it;
        u64 k = s.below(8);
        if (k >= 6 && !things.empty()) {
            auto* t = s.of(things).get();
            const std::size_t how = s.below(6);
            it.name = std::string(P::Name) + " " + t->name;
            it.work = [t, how](std::string& out) { t->use(how, out); };
        } else if (k >= 4 && !views.empty()) {
            auto* w = s.of(views).get();
            ReadOp op = draw_op(s, *w->node);
            it.name = std::string(P::Name) + " shared element " + opname(op.kind);
            it.work = [w, op](std::string& out) { w->run(op, out); };
        } else {
            ReadOp op = draw_op(s, v);
            const auto* r = s.below(2) ? &*owning : &*borrowed;
            const int mode = static_cast<int>(s.below(NOpen));
            switch (k) {
                case 2: it.name = "own reader "; it.work = [this, op, mode](std::string& out) { auto d = open_reader<P>(mode, bytes); run_op(*d, op, out); }; break;
                case 3: it.name = "copied reader "; it.work = [r, op](std::string& out) { Des<P> c(*r); run_op(c, op, out); }; break;
                default: it.name = "shared reader "; it.work = [r, op](std::string& out) { run_op(*r, op, out); }; break;
            }
            it.name = std::string(P::Name) + " " + it.name + opname(op.kind);
        }
        return it;
    }
    void check(Sim& s) override {
        heap::LibScope ls;
        VerifyOpt o; o.exact_sign = false; o.negative = false; o.narrow = false;
        verify(s, *borrowed, v, o);
        verify(s, *owning, v, o);
    }
};

void run(Sim& s) {
    heap::reset(s.below(4) != 0);
    const bool warm = s.below(2);
    std::vector<std::unique_ptr<World>> ws;
    const u64 nw = 1 + s.below(8) / 6;
    for (u64 i = 0; i < nw; ++i)
        with_protocol(static_cast<int>(s.below(NProto)), [&](auto t) { ws.push_back(std::make_unique<WorldOf<typename decltype(t)::type>>(s, !warm)); });
    const std::size_t nt = 2 + s.below(3);
    std::vector<std::vector<Item>> prog(nt);
    const bool same = s.below(3) == 2;     // all threads run one program
    for (std::size_t t = 0; t < nt; ++t) {
        if (same && t) { prog[t] = prog[0]; continue; }
        const u64 n = 1 + s.below(4);
        for (u64 i = 0; i < n; ++i) {
            Item it = s.of(ws)->item(s);
            if (s.below(8) == 7) it.plan = draw_plan(s, 8);
            s.ev("item", t, fnv(it.name.c_str()));
            if (s.tracing()) s.note("thread " + std::to_string(t + 1) + ": " + it.name);
            count_dyn("op." + it.name.substr(it.name.find(' ') + 1));
            prog[t].push_back(std::move(it));
        }
    }
    const int mode = draw_mode(s);
    u64 h = 0; for (auto& p : prog) for (auto& it : p) h = mix(h ^ fnv(it.name.c_str()));
    s.state(mix(h + static_cast<u64>(mode)) + nt);
    run_programs(s, prog, mode, warm);
    for (auto& w : ws) w->check(s);
}
}
namespace sim { const Prop the_prop{"C07", run, false, true}; }
