// C09: owning readers, views, builders and dynamic values survive any lifetime history.
#include "ops.hpp"
#include <deque>
#include <functional>
#include <memory>
using namespace sim;

namespace usr {
// A user value that owns what it describes.
struct Own { sim::MV v; };
template<zerialize::Writer W> void serialize(const Own& o, W& w) { emit(o.v, w, false); }
// One whose hook takes it by value.
struct ByVal { sim::MV v; };
template<zerialize::Writer W> void serialize(ByVal o, W& w) { emit(o.v, w, false); sim::heap::HarnessScope hs; o.v = sim::MV::str("used up"); }
}

namespace {
MV small(Sim& s, bool map_root = false) {
    GenOpt g; g.budget = 3 + static_cast<int>(s.below(10)); g.big = false; g.max_depth = 4;
    MV v = Gen(s, g).value();
    if (map_root && v.k != K::Map) { heap::HarnessScope hs; MV m = MV::map(); m.m.emplace_back("root", std::move(v)); return m; }
    return v;
}
std::string text(const MV& m) { return m.k == K::Str || m.k == K::Blob ? m.s : std::string("a string that is longer than the small buffer"); }
void scribble(std::string& b) { for (auto& x : b) x = static_cast<char>(x ^ 0x25); }
void scribble(std::vector<std::uint8_t>& b) { for (auto& x : b) x = static_cast<std::uint8_t>(x ^ 0xa5); }

// ---------------------------------------------------------------- readers
template<class P> struct Readers {
    using D = Des<P>;
    struct Slot { std::optional<D> r; const MV* v = nullptr; std::shared_ptr<std::vector<std::uint8_t>> lent; u64 gen = 0; bool moved = false; };
    struct View { std::size_t slot; u64 gen; std::function<void()> check; };
    Sim& s;
    Slot slot[5];
    std::vector<View> views;
    std::vector<std::unique_ptr<MV>> values;
    std::vector<std::string> refs;
    std::vector<std::shared_ptr<std::vector<std::uint8_t>>> buffers;

    explicit Readers(Sim& s_) : s(s_) {
        const int n = 1 + static_cast<int>(s.below(3));
        for (int i = 0; i < n; ++i) {
            values.push_back(std::make_unique<MV>(small(s, i == 0)));
            refs.push_back(encode_bytes<P>(*values.back()));
            s.ev("value", shape_hash(*values.back()));
            if (s.tracing()) s.note(show(*values.back()));
        }
    }
    bool live(std::size_t i) const { return slot[i].r && !slot[i].moved; }
    void touch(std::size_t i) { ++slot[i].gen; }
    void check(std::size_t i) {
        if (!live(i)) return;
        VerifyOpt o; o.exact_sign = Traits<P>::exact_sign; o.negative = s.below(16) == 15; o.narrow = o.negative;
        heap::LibScope ls;
        verify(s, *slot[i].r, *slot[i].v, o);
    }
    template<class E> void take(const E& e, const ReadOp& op, std::size_t at, std::size_t i) {
        if (at < op.path.size()) {
            const Step& st = op.path[at];
            if (st.by_key) { auto c = e[std::string_view(st.key)]; take(c, op, at + 1, i); }
            else { auto c = e[st.i]; take(c, op, at + 1, i); }
            return;
        }
        const MV* node = op.node;
        Sim* sp = &s;
        std::function<void()> f;
        const u64 what = s.below(4);
        VerifyOpt o; o.exact_sign = Traits<P>::exact_sign; o.negative = false; o.narrow = false;
        if (what == 1 && node->k == K::Str) { auto sv = e.asStringView(); heap::HarnessScope hs; f = [sv, node] { if (sv != std::string_view(node->s)) VIOLATE("wrong-value", "a string view taken from a live reader changed"); }; SIM_COUNT("op.view.string"); }
        else if (what == 1 && node->k == K::Blob) { auto b = e.asBlob(); heap::HarnessScope hs; f = [b, node] { if (std::size(b) != node->s.size() || (node->s.size() && std::memcmp(std::data(b), node->s.data(), node->s.size()))) VIOLATE("wrong-value", "a blob taken from a live reader changed"); }; SIM_COUNT("op.view.blob"); }
        else if (what <= 2 && node->k == K::Map) {
            auto ks = e.mapKeys(); heap::HarnessScope hs;
            f = [ks, node] {
                std::vector<std::string> got, exp;
                { heap::LibScope ls; for (auto k : ks) { heap::HarnessScope h2; got.emplace_back(k); if (got.size() > node->m.size()) break; } }
                for (auto& x : node->m) exp.push_back(x.first);
                std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
                if (got != exp) VIOLATE("wrong-keys", "a key range taken from a live reader gives other keys");
            };
            SIM_COUNT("op.view.keys");
        } else { heap::HarnessScope hs; auto c = std::make_shared<E>(e); f = [c, node, sp, o] { heap::LibScope ls; verify(*sp, *c, *node, o); }; SIM_COUNT("op.view.element"); }
        heap::HarnessScope hs;
        views.push_back(View{i, slot[i].gen, std::move(f)});
    }
    void step() {
        const std::size_t i = s.below(5), j = s.below(5);
        Slot &a = slot[i], &b = slot[j];
        const u64 k = s.below(18);
        s.ev("op", k, i * 8 + j);
        s.state(mix(fnv(P::Name) + k * 64 + i * 8 + j) ^ (live(i) ? 1 : 0) ^ (live(j) ? 2 : 0) ^ (a.lent ? 4 : 0) ^ (b.lent ? 8 : 0) ^ (i == j ? 16 : 0));
        count_dyn("op.reader." + std::to_string(k));
        switch (k) {
            case 0: case 1: case 2: {   // open
                const std::size_t w = s.below(values.size());
                const u64 mode = s.below(5);
                touch(i);
                { heap::LibScope ls; a.r.reset(); }
                a.moved = false; a.v = values[w].get(); a.lent.reset();
                if (mode == 4) {   // borrows
                    a.lent = std::make_shared<std::vector<std::uint8_t>>(to_vec(refs[w]));
                    heap::LibScope ls;
                    a.r.emplace(std::span<const std::uint8_t>(*a.lent));
                } else {
                    heap::LibScope ls;
                    std::vector<std::uint8_t> src(refs[w].begin(), refs[w].end());
                    if (mode == 0) { a.r.emplace(src); scribble(src); }
                    else if (mode == 1) a.r.emplace(std::move(src));
                    else if (mode == 2) {
                        if constexpr (requires { D::copy_from(std::span<const std::uint8_t>(src)); }) a.r.emplace(D::copy_from(std::span<const std::uint8_t>(src)));
                        else a.r.emplace(static_cast<const std::vector<std::uint8_t>&>(src));
                        scribble(src);
                    } else { const std::vector<std::uint8_t>& c = src; a.r.emplace(c); src.clear(); src.shrink_to_fit(); }
                }
                SIM_COUNT("fault.source_overwritten_or_freed");
                break;
            }
            case 3: if (live(i) && i != j) { touch(j); heap::LibScope ls; b.r.emplace(*a.r); b.v = a.v; b.moved = false; heap::HarnessScope hs; b.lent = a.lent; } break;                    // copy construct
            case 4: if (live(i) && i != j) { touch(j); touch(i); heap::LibScope ls; b.r.emplace(std::move(*a.r)); b.v = a.v; b.moved = false; a.moved = true; heap::HarnessScope hs; b.lent = a.lent; } break;   // move construct
            case 5: if (live(i) && b.r) { touch(j); if (i == j) touch(i); auto lent = a.lent; { heap::LibScope ls; D& src = *a.r; *b.r = src; } b.v = a.v; b.moved = false; b.lent = lent; } break;   // copy assign (also to itself, also to a moved-from one)
            case 6: if (live(i) && b.r && i != j) { touch(j); touch(i); { heap::LibScope ls; *b.r = std::move(*a.r); } b.v = a.v; b.moved = false; a.moved = true; b.lent = a.lent; } break;   // move assign
            case 7: if (live(i) && live(j) && i != j) { touch(i); touch(j); heap::LibScope ls; std::swap(*a.r, *b.r); heap::HarnessScope hs; std::swap(a.v, b.v); std::swap(a.lent, b.lent); } break;
            case 8: { touch(i); heap::LibScope ls; a.r.reset(); a.moved = false; break; }
            case 9: case 10: case 11: if (live(i)) { ReadOp op = draw_op(s, *a.v, false); heap::LibScope ls; take(*a.r, op, 0, i); } break;   // take a view
            case 12: {   // through a growing, rotated, shrinking vector
                heap::LibScope ls;
                std::vector<D> vec;
                std::vector<std::size_t> who;
                for (std::size_t q = 0; q < 5; ++q) if (live(q)) { touch(q); vec.push_back(std::move(*slot[q].r)); heap::HarnessScope hs; who.push_back(q); }
                if (vec.size() > 1) {
                    const std::size_t m = 1 + s.below(vec.size() - 1);
                    std::rotate(vec.begin(), vec.begin() + static_cast<long>(m), vec.end());
                    heap::HarnessScope hs; std::rotate(who.begin(), who.begin() + static_cast<long>(m), who.end());
                }
                if (!vec.empty() && s.below(2)) { const std::size_t m = s.below(vec.size()); slot[who[m]].moved = true; vec.erase(vec.begin() + static_cast<long>(m)); heap::HarnessScope hs; who.erase(who.begin() + static_cast<long>(m)); }
                vec.shrink_to_fit();
                for (std::size_t q = 0; q < who.size(); ++q) *slot[who[q]].r = std::move(vec[q]);
                break;
            }
            case 13: {   // translated readers own their bytes
                if (!live(i) || i == j) break;
                touch(j);
                heap::LibScope ls;
                auto mid = std::make_optional(zerialize::translate<zerialize::Flex>(*a.r));
                b.r.emplace(zerialize::translate<P>(*mid));
                mid.reset();
                b.v = a.v; b.moved = false; heap::HarnessScope hs; b.lent.reset();
                break;
            }
            case 14:   // a reader becomes one of its own elements (same type in some protocols)
                if constexpr (std::is_same_v<decltype((*a.r)[std::size_t(0)]), D>) {
                    if (live(i) && a.v->k == K::Arr && !a.v->a.empty()) { const std::size_t q = s.below(a.v->a.size()); touch(i); { heap::LibScope ls; *a.r = (*a.r)[q]; } a.v = &a.v->a[q]; }
                    else if (live(i) && a.v->k == K::Map && !a.v->m.empty()) { const auto& e = a.v->m[s.below(a.v->m.size())]; touch(i); { heap::LibScope ls; *a.r = (*a.r)[std::string_view(e.first)]; } a.v = &e.second; }
                }
                break;
            case 15: {   // a copy made by a function that returns it
                if (!live(i) || i == j) break;
                touch(j);
                auto dup = [](const D& d) { D c(d); D e(std::move(c)); return e; };
                { heap::LibScope ls; b.r.emplace(dup(*a.r)); }
                b.v = a.v; b.moved = false; b.lent = a.lent;
                break;
            }
            default: check(i); break;
        }
        if (s.below(2)) check(s.below(5));
        if (!views.empty() && s.below(2)) {
            const std::size_t q = s.below(views.size());
            if (views[q].gen == slot[views[q].slot].gen && live(views[q].slot)) { views[q].check(); SIM_COUNT("probe.view_checked"); }
            else { views.erase(views.begin() + static_cast<long>(q)); }
        }
    }
    void finish() {
        for (auto& v : views) if (v.gen == slot[v.slot].gen && live(v.slot)) v.check();
        views.clear();
        for (std::size_t i = 0; i < 5; ++i) check(i);
        heap::LibScope ls;
        for (auto& x : slot) x.r.reset();
    }
};

// ---------------------------------------------------------------- builders and dynamic values
struct AnyBuilder {
    virtual std::string emit(int p) = 0;
    virtual std::unique_ptr<AnyBuilder> copy() = 0;
    virtual std::unique_ptr<AnyBuilder> moved() = 0;
    virtual ~AnyBuilder() = default;
};
template<class B> struct Held : AnyBuilder {
    B b;
    explicit Held(B x) : b(std::move(x)) {}
    std::string emit(int p) override {
        return with_protocol(p, [&](auto t) {
            using P = typename decltype(t)::type;
            heap::LibScope ls;
            zerialize::ZBuffer z = zerialize::serialize<P>(b);
            heap::HarnessScope hs;
            return std::string(reinterpret_cast<const char*>(z.data()), z.size());
        });
    }
    std::unique_ptr<AnyBuilder> copy() override { if constexpr (std::is_copy_constructible_v<B>) return std::make_unique<Held>(*this); else return moved(); }
    std::unique_ptr<AnyBuilder> moved() override { return std::make_unique<Held>(std::move(*this)); }
};
template<class B> std::unique_ptr<AnyBuilder> hold(B b) { heap::LibScope ls; return std::make_unique<Held<B>>(std::move(b)); }
MV own(MV v) { return v; }

// Each makes a builder out of temporaries (and, where said, of long-lived lvalues) in a frame
// that is gone when the builder is used.
__attribute__((noinline)) std::unique_ptr<AnyBuilder> make_builder(Sim& s, int which, const std::vector<MV>& in, const std::deque<MV>& keep, MV& model) {
    using usr::Own;
    auto arr = [](std::vector<MV> xs) { MV m = MV::arr(); m.a = std::move(xs); return m; };
    auto str = [&](const MV& m) { return m.k == K::Str ? m.s : std::string("a temporary string that is longer than the small buffer"); };
    const MV &a = in[0], &b = in[1];
    const std::string st = str(b);
    switch (which) {
        case 0: model = arr({a, MV::str(st), MV::integer(-7)}); { heap::LibScope ls; return hold(zerialize::zvec(Own{a}, std::string(st), -7)); }
        case 1: { model = MV::map(); model.m = {{"a", a}, {"b", arr({b, MV::str(st)})}}; heap::LibScope ls; return hold(zerialize::zmap<"a", "b">(Own{a}, zerialize::zvec(Own{b}, std::string(st)))); }
        case 2: { MV m = MV::map(); m.m = {{"k", MV::str(st)}}; model = arr({arr({a}), m}); heap::LibScope ls; return hold(zerialize::zvec(zerialize::zvec(Own{a}), zerialize::zmap<"k">(std::string(st)))); }
        case 3: { model = arr({keep[0], b}); static thread_local Own lv; lv.v = keep[0]; heap::LibScope ls; return hold(zerialize::zvec(lv, Own{b})); }
        case 4: { model = arr({arr({MV::real(0.5), MV::real(-2)}), arr({MV::str(st), MV::str("x")})}); heap::LibScope ls; return hold(zerialize::zvec(std::vector<double>{0.5, -2}, std::vector<std::string>{st, "x"})); }
        case 5: { MV m = MV::map(); m.m = {{"x", MV::str(st)}, {"y", a}}; model = MV::map(); model.m = {{"m", m}}; heap::LibScope ls;
                  auto inner = zerialize::zmap<"x", "y">(std::string(st), Own{a});
                  return hold(zerialize::zmap<"m">(std::move(inner))); }
        case 6: { model = MV::arr(); heap::LibScope ls; return hold(zerialize::zvec()); }
        case 8: { MV m = MV::map(); m.m = {{"k", b}, {"l", MV::str(st)}}; model = arr({a, m}); heap::LibScope ls; return hold(zerialize::zvec(usr::ByVal{a}, zerialize::zmap<"k", "l">(usr::ByVal{b}, std::string(st)))); }
        case 9: {   // named objects, which the caller keeps and the builder only refers to
            struct Named { usr::ByVal v; std::string s; std::vector<std::string> l; std::vector<std::byte> by; std::map<std::string, usr::ByVal> m; };
            static thread_local std::deque<Named> all; all.emplace_back(Named{{a}, st, {st, "y"}, std::vector<std::byte>(40, std::byte{7}), {}}); Named& n = all.back(); n.m["k"] = usr::ByVal{b};
            if (all.size() > 64) all.pop_front();
            MV m = MV::map(); m.m = {{"k", b}};
            model = MV::map(); model.m = {{"v", a}, {"s", MV::str(st)}, {"r", arr({arr({MV::str(st), MV::str("y")}), MV::blob(std::string(40, 7)), m})}};
            heap::LibScope ls; return hold(zerialize::zmap<"v", "s", "r">(n.v, n.s, zerialize::zvec(n.l, n.by, n.m)));
        }
        default: { MV d = MV::arr(); d.a = {MV::uinteger(2), MV::uinteger(2)};
                   std::string bytes(32, '\0'); const double x[4] = {1, 2, 3, 4.5}; std::memcpy(bytes.data(), x, 32);
                   MV t = arr({MV::integer(11), d, MV::blob(bytes)}); model = arr({t, a}); heap::LibScope ls; return hold(zerialize::zvec(xt::xarray<double>{{1, 2}, {3, 4.5}}, Own{a})); }
    }
}

void builders(Sim& s) {
    std::vector<std::unique_ptr<AnyBuilder>> bs;
    std::vector<MV> models;
    std::deque<MV> keep;
    keep.push_back(small(s));
    const int steps = 2 + static_cast<int>(s.below(8));
    for (int t = 0; t < steps; ++t) {
        const u64 k = s.below(8);
        s.ev("builder", k);
        if (bs.empty() || k < 2) {
            std::vector<MV> in{small(s), small(s)};
            MV m;
            const int which = static_cast<int>(s.below(10));
            count_dyn("op.builder.make" + std::to_string(which));
            auto b = make_builder(s, which, in, keep, m);
            bs.push_back(std::move(b)); models.push_back(std::move(m));
            continue;
        }
        const std::size_t i = s.below(bs.size());
        if (k == 2) { heap::LibScope ls; auto c = bs[i]->copy(); heap::HarnessScope hs; bs.push_back(std::move(c)); models.push_back(models[i]); SIM_COUNT("op.builder.copy"); }
        else if (k == 3) { heap::LibScope ls; auto c = bs[i]->moved(); bs[i] = std::move(c); SIM_COUNT("op.builder.move"); }
        else if (k == 4 && bs.size() > 1) { heap::LibScope ls; bs[i].reset(); heap::HarnessScope hs; bs.erase(bs.begin() + static_cast<long>(i)); models.erase(models.begin() + static_cast<long>(i)); }
        else {
            const int p = static_cast<int>(s.below(NProto));
            if (s.below(8) == 7) {   // a named value straight to serialize
                usr::ByVal bv{models[i]}; std::string named = "a string longer than any small buffer there is";
                with_protocol(p, [&](auto tg) { using P = typename decltype(tg)::type; heap::LibScope ls; (void)zerialize::serialize<P>(bv); (void)zerialize::serialize<P>(named); });
                if (!same(bv.v, models[i]) || named.size() != 46) VIOLATE("source-changed", "serialize changed the value it was given");
                SIM_COUNT("op.named.serialize");
            }
            SIM_COUNT("op.builder.serialize");
            std::string bytes = bs[i]->emit(p);
            with_protocol(p, [&](auto tg) {
                using P = typename decltype(tg)::type;
                auto v = to_vec(bytes);
                heap::LibScope ls;
                Des<P> d{std::span<const std::uint8_t>(v)};
                VerifyOpt o; o.negative = false; o.narrow = false;
                verify(s, d, models[i], o);
            });
            s.nontrivial();
        }
    }
    heap::LibScope ls;
    for (auto& b : bs) b.reset();
}

void dynamics(Sim& s) {
    using zerialize::dyn::Value;
    struct DV { Value v; MV m; bool moved = false; };
    std::vector<std::unique_ptr<DV>> vs;
    std::deque<MV> keep;
    const int steps = 3 + static_cast<int>(s.below(10));
    for (int t = 0; t < steps; ++t) {
        const u64 k = s.below(9);
        s.ev("dyn", k);
        if (vs.empty() || k < 2) {
            auto d = std::make_unique<DV>();
            MV m = small(s);
            d->m = m;
            const u64 how = s.below(6);
            if (how == 2) {   // from a temporary user object
                usr::Own o; o.v = m;
                heap::LibScope ls;
                d->v = zerialize::dyn::serializable(std::move(o));
            } else if (how >= 3) {   // from a named object that changes and goes away afterwards
                auto o = std::make_unique<usr::Own>(); o->v = m;
                const u64 what = how == 3 ? 0 : s.below(7);
                s.ev("lvalue", what);
                count_dyn("op.dyn.lvalue" + std::to_string(what));
                switch (what) {
                    case 0: {
                        if (s.below(2)) { heap::LibScope ls; d->v = zerialize::dyn::serializable(*o); }
                        else { usr::ByVal bv{m}; { heap::LibScope ls; d->v = zerialize::dyn::serializable(bv); } if (!same(bv.v, m)) VIOLATE("source-changed", "making a dynamic value of a named object changed that object"); }
                        break;
                    }
                    case 1: { heap::LibScope ls; const usr::Own& c = *o; d->v = Value::serializable(c); break; }
                    case 2: { std::string x = text(m); d->m = MV::str(x); { heap::LibScope ls; d->v = Value(x); } if (!same(MV::str(x), d->m)) VIOLATE("source-changed", "making a dynamic value of a named string changed it"); scribble(x); break; }
                    case 3: { std::string x = text(m); d->m = MV::str(x); { heap::LibScope ls; d->v = Value(std::string_view(x)); } scribble(x); break; }
                    case 4: { std::string x = text(m); for (auto& ch : x) if (!ch) ch = 'n'; d->m = MV::str(x); { heap::LibScope ls; d->v = Value(x.c_str()); } scribble(x); break; }
                    case 5: { std::string x = text(m); d->m = MV::blob(x); std::vector<std::byte> bytes(x.size()); if (!x.empty()) std::memcpy(bytes.data(), x.data(), x.size());
                              { heap::LibScope ls; if (s.below(2)) d->v = Value(bytes); else d->v = Value::blob(std::span<const std::byte>(bytes)); }
                              if (bytes.size() != x.size()) VIOLATE("source-changed", "making a dynamic value of a named blob changed it");
                              for (auto& q : bytes) q ^= std::byte{0x5a}; break; }
                    default: { xt::xarray<double> x = {{1, 2}, {3, 4.5}}; std::string bits(32, '\0'); std::memcpy(bits.data(), x.data(), 32);
                              MV sh = MV::arr(); sh.a = {MV::uinteger(2), MV::uinteger(2)}; d->m = MV::arr(); d->m.a = {MV::integer(11), sh, MV::blob(bits)};
                              { heap::LibScope ls; d->v = zerialize::dyn::serializable(x); } if (x.size() != 4 || x(1, 1) != 4.5) VIOLATE("source-changed", "making a dynamic value of a named tensor changed it"); x.fill(-1); break; }
                }
                if (!same(o->v, m)) VIOLATE("source-changed", "making a dynamic value of a named object changed that object");
                o->v = MV::str("changed since"); o.reset();
                SIM_COUNT("fault.source_overwritten_or_freed");
            } else {
                heap::LibScope ls; MV tmp; { heap::HarnessScope hs; tmp = m; }
                auto strip = [](auto& self, MV& x) -> void { if (x.style == SDynSer) x.style = SDyn; for (auto& c : x.a) self(self, c); for (auto& c : x.m) self(self, c.second); };
                strip(strip, tmp); d->v = usr::to_dyn(tmp);
                heap::HarnessScope hs; { MV dead = std::move(tmp); }
            }
            vs.push_back(std::move(d));
            continue;
        }
        const std::size_t i = s.below(vs.size()), j = s.below(vs.size());
        DV &a = *vs[i], &b = *vs[j];
        if (k == 2 && !a.moved) { heap::LibScope ls; b.v = a.v; heap::HarnessScope hs; MV c = a.m; b.m = c; b.moved = false; }
        else if (k == 3 && !a.moved && i != j) { heap::LibScope ls; b.v = std::move(a.v); heap::HarnessScope hs; b.m = a.m; b.moved = false; a.moved = true; }
        else if (k == 4 && !a.moved && !b.moved) {   // [a, b] from temporaries and copies
            auto n = std::make_unique<DV>();
            { heap::LibScope ls; n->v = s.below(2) ? zerialize::dyn::array({a.v, b.v}) : zerialize::dyn::map({{"a", a.v}, {"b", b.v}}); }
            if (std::holds_alternative<Value::Array>(n->v.storage())) { n->m = MV::arr(); n->m.a = {a.m, b.m}; } else { n->m = MV::map(); n->m.m = {{"a", a.m}, {"b", b.m}}; }
            if (n->m.nodes() < 400) vs.push_back(std::move(n)); else { heap::LibScope ls; n->v = Value(); }
        } else if (k == 5 && vs.size() > 1) { { heap::LibScope ls; a.v = Value(); } vs.erase(vs.begin() + static_cast<long>(i)); }
        else if (!a.moved) {
            const int p = static_cast<int>(s.below(NProto));
            SIM_COUNT("op.dyn.serialize");
            with_protocol(p, [&](auto tg) {
                using P = typename decltype(tg)::type;
                std::vector<std::uint8_t> v;
                { heap::LibScope ls; auto z = zerialize::serialize<P>(a.v); heap::HarnessScope hs; v.assign(z.data(), z.data() + z.size()); }
                heap::LibScope ls;
                Des<P> d{std::span<const std::uint8_t>(v)};
                VerifyOpt o; o.negative = false; o.narrow = false;
                verify(s, d, a.m, o);
            });
            s.nontrivial();
        }
    }
    heap::LibScope ls;
    for (auto& d : vs) { d->v = Value(); }
}

void run(Sim& s) {
    heap::reset(s.below(4) != 0);
    const u64 live = heap::live_blocks();
    const u64 kind = s.below(8);
    if (kind < 6) {
        with_protocol(static_cast<int>(kind < 4 ? kind : s.below(NProto)), [&](auto t) {
            using P = typename decltype(t)::type;
            Readers<P> w(s);
            const int steps = 4 + static_cast<int>(s.below(40));
            for (int i = 0; i < steps; ++i) w.step();
            w.finish();
            s.nontrivial();
        });
    } else if (kind == 6) builders(s);
    else dynamics(s);
    (void)live;
}
}
namespace sim { const Prop the_prop{"C09", run, true}; }
