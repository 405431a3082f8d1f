// C08: threads serialize and translate at the same time, from shared and own values; some of
// the calls fail (allocation failures, user code that throws).
#include "enc.hpp"
#include "ops.hpp"
namespace sim {
template<class P> std::string foreign_bytes(Sim& s, const MV& v) {
    if constexpr (std::is_same_v<P, zerialize::Zera>) return enc::zera(s, v);
    else if constexpr (std::is_same_v<P, zerialize::MsgPack>) return enc::msgpack(s, v);
    else return enc::cbor(s, v, false);
}
}
#include "threads.hpp"
using namespace sim;

namespace {
constinit thread_local int countdown = -1;    // user code of this thread throws at its n-th point
struct Thrower : usr::Hooks {
    void at(int) override {
        heap::HarnessScope hs;
        if (countdown > 0 && --countdown == 0) { SIM_COUNT("fault.user_throw"); throw std::runtime_error("user error in this thread"); }
    }
} thrower;

template<class P> void put_bytes(std::string& out, const zerialize::ZBuffer& z) { heap::HarnessScope hs; out.append(reinterpret_cast<const char*>(z.data()), z.size()); }
template<class V> void emit_as(int p, const V& v, std::string& out) {
    with_protocol(p, [&](auto t) { using P = typename decltype(t)::type; auto z = zerialize::serialize<P>(v); put_bytes<P>(out, z); });
}
struct Source { std::string name; virtual void emit(int p, std::string& out) const = 0; virtual ~Source() = default; };

struct ModelSource final : Source {
    MV v;
    explicit ModelSource(MV m) : v(std::move(m)) { name = "user value"; }
    void emit(int p, std::string& out) const override { with_protocol(p, [&](auto t) { using P = typename decltype(t)::type; auto z = encode<P>(v); put_bytes<P>(out, z); }); }
};
template<class T> struct AnySource final : Source {
    T v;
    AnySource(const char* n, T x) : v(std::move(x)) { name = n; }
    void emit(int p, std::string& out) const override { emit_as(p, v, out); }
};
template<class T> std::unique_ptr<Source> any(const char* n, T v) { return std::make_unique<AnySource<T>>(n, std::move(v)); }
template<class P> struct ReaderSource final : Source {
    std::vector<std::uint8_t> bytes; std::optional<Des<P>> r;
    ReaderSource(Sim& s, const MV& v, bool cold) {
        name = std::string("translate from ") + P::Name;
        bytes = to_vec(message<P>(s, v, cold || s.below(2)));
        heap::LibScope ls;
        r = open_reader<P>(static_cast<int>(s.below(NOpen)), bytes);
    }
    void emit(int p, std::string& out) const override {
        with_protocol(p, [&](auto t) {
            using Q = typename decltype(t)::type;
            { typename Q::RootSerializer rs; typename Q::Serializer wr(rs); zerialize::write_value(*r, wr); auto z = rs.finish(); put_bytes<Q>(out, z); }
            auto d = zerialize::translate<Q>(*r);
            MV m = read_back(d);
            heap::HarnessScope hs;
            put(out, show(m, 1 << 20));
            { MV dead = std::move(m); }
        });
    }
};
MV plain(MV v) { if (v.style == SDynSer) v.style = SDyn; for (auto& x : v.a) x = plain(std::move(x)); for (auto& x : v.m) x.second = plain(std::move(x.second)); return v; }

MV small(Sim& s) {
    GenOpt g; g.budget = 2 + static_cast<int>(s.below(14)); g.big = false; g.max_depth = 4;
    MV v = Gen(s, g).value();
    if (v.nodes() > 120) { v = MV::arr(); v.a.push_back(MV::integer(1)); v.a.push_back(MV::str("a string of some length, longer than any small buffer")); }
    return v;
}
std::unique_ptr<Source> source(Sim& s, bool cold) {
    MV v = small(s);
    s.ev("source", shape_hash(v));
    if (s.tracing()) s.note(show(v));
    const double x = static_cast<double>(s.below(1000)) / 8;
    const std::string st = "text number " + std::to_string(s.below(100)) + ", longer than the small buffer";
    std::unique_ptr<Source> r;
    switch (s.below(14)) {
        case 0: case 1: case 2: case 3: return std::make_unique<ModelSource>(std::move(v));
        case 4: case 5: { zerialize::dyn::Value d; { heap::LibScope ls; d = usr::to_dyn(plain(v)); } return any("dynamic value", std::move(d)); }
        case 6: { auto keep = std::make_shared<MV>(std::move(v)); struct Owned { std::shared_ptr<MV> v; }; zerialize::dyn::Value d;
                  { heap::LibScope ls; d = zerialize::dyn::map({{"a", zerialize::dyn::serializable(usr::User{keep.get()})}, {"b", zerialize::dyn::array({1, 2.5, st})}}); }
                  struct WithKeep final : Source { std::shared_ptr<MV> k; zerialize::dyn::Value d; void emit(int p, std::string& out) const override { emit_as(p, d, out); } };
                  auto w = std::make_unique<WithKeep>(); w->k = keep; w->d = std::move(d); w->name = "dynamic value of a user type"; return w; }
        case 7: { xt::xarray<double> a = {{x, 2, 3}, {4, 5, -x}}; return any("xtensor", std::move(a)); }
        case 8: { xt::xarray<float, xt::layout_type::column_major> a = {{1, 2, 3}, {4, 5, 6}}; return any("column-major xtensor", std::move(a)); }
        case 9: { Eigen::Matrix<double, 3, 2> m; m << x, 2, 3, 4, 5, 6; return any("eigen matrix", m); }
        case 10: { std::map<std::string, std::vector<double>> m{{"a", {x, 1}}, {st, {}}, {"z", {3}}}; return any("standard map", std::move(m)); }
        case 11: {   // builders hold references into a shared value
            struct Built final : Source {
                int i; std::string st; std::vector<double> xs;
                void emit(int p, std::string& out) const override {
                    with_protocol(p, [&](auto t) { using P = typename decltype(t)::type; auto z = zerialize::serialize<P>(zerialize::zmap<"id", "name", "list">(i, st, zerialize::zvec(1, xs, std::string("y")))); put_bytes<P>(out, z); });
                }
            };
            auto w = std::make_unique<Built>(); w->name = "builder"; w->i = static_cast<int>(x); w->st = st; w->xs = {x, 1, 2}; return w; }
        default: with_protocol(static_cast<int>(s.below(NProto)), [&](auto t) { r = std::make_unique<ReaderSource<typename decltype(t)::type>>(s, v, cold); });
    }
    return r;
}

void run(Sim& s) {
    heap::reset(s.below(4) != 0);
    const bool warm = s.below(2);
    usr::hooks() = &thrower;
    countdown = -1;
    std::vector<std::unique_ptr<Source>> shared, own;
    const u64 ns = 1 + s.below(2);
    for (u64 i = 0; i < ns; ++i) shared.push_back(source(s, !warm));
    const std::size_t nt = 2 + s.below(3);
    std::vector<std::vector<Item>> prog(nt);
    const bool same = s.below(3) == 2;
    for (std::size_t t = 0; t < nt; ++t) {
        if (same && t) { prog[t] = prog[0]; continue; }
        const u64 n = 1 + s.below(3);
        for (u64 i = 0; i < n; ++i) {
            const Source* src;
            if (s.below(4) == 3) { own.push_back(source(s, !warm)); src = own.back().get(); } else src = s.of(shared).get();
            const int p = static_cast<int>(s.below(NProto));
            const int at = s.below(6) == 5 ? 1 + static_cast<int>(s.below(6)) : -1;
            Item it;
            it.name = src->name;
            it.work = [src, p, at](std::string& out) {
                { heap::HarnessScope hs; countdown = at; }
                src->emit(p, out);
            };
            if (s.below(6) == 5) it.plan = draw_plan(s, 12);
            s.ev("item", t * 8 + static_cast<u64>(p), fnv(it.name.c_str()));
            if (s.tracing()) s.note("thread " + std::to_string(t + 1) + ": " + it.name + " to " + pname(p) + (at > 0 ? ", user code throws" : ""));
            count_dyn("op." + it.name + " to " + pname(p));
            prog[t].push_back(std::move(it));
        }
    }
    const int mode = draw_mode(s);
    u64 h = 0; for (auto& p : prog) for (auto& it : p) h = mix(h ^ fnv(it.name.c_str()));
    s.state(mix(h + static_cast<u64>(mode)) + nt);
    run_programs(s, prog, mode, warm);
    usr::hooks() = nullptr;
}
}
namespace sim { const Prop the_prop{"C08", run, false, true}; }
