// Hands a model value to the library in every way a user can: writer calls, standard
// containers, builders, dynamic values, user types, and any mix of them.
#pragma once
#include "model.hpp"
#include <list>
#include <map>
#include <memory>
#include <set>
#include <unordered_map>
#include <zerialize/zerialize.hpp>
#include <zerialize/serialize.hpp>
#include <zerialize/dynamic.hpp>
#include <zerialize/zbuilders.hpp>
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <xtensor/xview.hpp>

namespace usr {
// What user code does besides emitting: installed by the harness (throwing, re-entering).
struct Hooks { virtual void at(int where) = 0; virtual ~Hooks() = default; };
inline Hooks*& hooks() { static Hooks* h = nullptr; return h; }
inline void hook(int where) { if (hooks()) hooks()->at(where); }

// A user type with an ADL serialize().
struct User { const sim::MV* v = nullptr; };

template<zerialize::Writer W> void emit(const sim::MV& v, W& w, bool inner);

template<zerialize::Writer W> void serialize(const User& u, W& w) {
    hook(0);
    emit(*u.v, w, false);
    hook(1);
}

inline std::span<const std::byte> as_span(const std::string& s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }

inline zerialize::dyn::Value to_dyn(const sim::MV& v) {
    using zerialize::dyn::Value;
    using sim::K;
    if (v.style == sim::SDynSer) return Value::serializable(User{&v});
    switch (v.k) {
        case K::Null: return v.prim == 1 ? Value(nullptr) : v.prim == 2 ? Value(zerialize::dyn::Null{}) : Value();
        case K::Bool: return Value(v.b);
        case K::Int:
            if (v.prim == 1 && v.i >= INT32_MIN && v.i <= INT32_MAX) return Value(static_cast<int>(v.i));
            if (v.prim == 2 && v.i >= -128 && v.i <= 127) return Value(static_cast<signed char>(v.i));
            if (v.prim == 2 && v.i >= -32768 && v.i <= 32767) return Value(static_cast<short>(v.i));
            return Value(v.i);
        case K::UInt:
            if (v.prim == 1 && v.u <= 0xffff) return Value(static_cast<std::uint16_t>(v.u));
            if (v.prim == 2 && v.u <= 0xffffffffu) return Value(static_cast<unsigned>(v.u));
            return Value(v.u);
        case K::Float: if (v.prim == 1 && static_cast<double>(static_cast<float>(v.d)) == v.d) return Value(static_cast<float>(v.d)); return Value(v.d);
        case K::Str: if (v.prim == 2 && v.s.find('\0') == std::string::npos) return Value(v.s.c_str()); return v.prim & 1 ? Value(std::string_view(v.s)) : Value(v.s);
        case K::Blob: {
            if (v.prim == 1) return Value(as_span(v.s));
            if (v.prim == 2) return Value::blob(as_span(v.s));
            std::vector<std::byte> b(as_span(v.s).begin(), as_span(v.s).end());
            if (v.prim == 3) return Value(zerialize::dyn::Binary{std::move(b)});
            return v.s.size() & 1 ? Value(b) : Value(std::move(b));
        }
        case K::Arr: {
            if (v.a.size() == 2 && v.a[0].k != v.a[1].k) return zerialize::dyn::array({to_dyn(v.a[0]), to_dyn(v.a[1])});
            Value::Array a; for (auto& x : v.a) a.push_back(to_dyn(x));
            return v.a.size() == 3 ? Value(std::move(a)) : Value::array(std::move(a));
        }
        case K::Map: {
            if (v.m.size() == 2 && v.m[0].second.k != v.m[1].second.k) return zerialize::dyn::map({{v.m[0].first, to_dyn(v.m[0].second)}, {v.m[1].first, to_dyn(v.m[1].second)}});
            Value::Map m; for (auto& x : v.m) m.emplace_back(x.first, to_dyn(x.second));
            return v.m.size() == 3 ? Value(std::move(m)) : Value::map(std::move(m));
        }
    }
    return Value();
}

// Scalars through the C++ type chosen by `prim`.
template<zerialize::Writer W> void emit_scalar(const sim::MV& v, W& w) {
    using sim::K;
    using zerialize::serialize;
    switch (v.k) {
        case K::Null: if (v.prim & 1) serialize(nullptr, w); else w.null(); break;
        case K::Bool: if (v.prim & 1) serialize(v.b, w); else w.boolean(v.b); break;
        case K::Int:
            if (v.prim == 0) w.int64(v.i);
            else if (v.prim == 3) serialize(static_cast<long long>(v.i), w);
            else if (v.i >= -128 && v.i <= 127) { if (v.prim == 1) serialize(static_cast<signed char>(v.i), w); else serialize(static_cast<char>(v.i), w); }
            else if (v.i >= -32768 && v.i <= 32767) serialize(static_cast<short>(v.i), w);
            else if (v.i >= INT32_MIN && v.i <= INT32_MAX) serialize(static_cast<int>(v.i), w);
            else serialize(static_cast<long>(v.i), w);
            break;
        case K::UInt:
            if (v.prim == 0) w.uint64(v.u);
            else if (v.prim == 3) serialize(static_cast<unsigned long long>(v.u), w);
            else if (v.u <= 255) serialize(static_cast<unsigned char>(v.u), w);
            else if (v.u <= 65535) serialize(static_cast<unsigned short>(v.u), w);
            else if (v.u <= 0xffffffffu) serialize(static_cast<unsigned>(v.u), w);
            else serialize(static_cast<unsigned long>(v.u), w);
            break;
        case K::Float:
            if (v.prim == 0) w.double_(v.d);
            else if (v.prim == 1 && static_cast<double>(static_cast<float>(v.d)) == v.d) serialize(static_cast<float>(v.d), w);
            else serialize(v.d, w);
            break;
        case K::Str: {
            if (v.prim == 0) w.string(v.s);
            else if (v.prim == 1 && v.s.find('\0') == std::string::npos) serialize(v.s.c_str(), w);
            else if (v.prim == 2) {   // a view into a larger buffer, followed by other bytes
                char* p; { sim::heap::HarnessScope hs; p = static_cast<char*>(std::malloc(v.s.size() + 1)); }
                std::unique_ptr<char, void (*)(void*)> g(p, std::free);
                std::memcpy(p, v.s.data(), v.s.size()); p[v.s.size()] = 'Z';
                serialize(std::string_view(p, v.s.size()), w);
            } else serialize(v.s, w);
            break;
        }
        case K::Blob: {
            if (v.prim & 1) { std::vector<std::byte> b; { sim::heap::HarnessScope hs; b.assign(as_span(v.s).begin(), as_span(v.s).end()); } serialize(b, w); }
            else if (v.prim == 2) w.binary(as_span(v.s));
            else serialize(as_span(v.s), w);
            break;
        }
        default: break;
    }
}

// Containers of plain C++ types. prim: bits 0-1 the container, bits 2-3 how narrow the element type.
template<class T, class Get, zerialize::Writer W> void emit_typed(const sim::MV& v, W& w, Get get) {
    using zerialize::serialize;
    auto fill = [&](auto& l) { sim::heap::HarnessScope hs; for (auto& x : v.a) l.push_back(static_cast<T>(get(x))); };
    if ((v.prim & 3) == 1) { std::list<T> l; fill(l); serialize(l, w); }
    else if ((v.prim & 3) == 2 && v.a.size() == 5) { std::array<T, 5> l; { sim::heap::HarnessScope hs; for (std::size_t i = 0; i < 5; ++i) l[i] = static_cast<T>(get(v.a[i])); } serialize(l, w); }
    else { std::vector<T> l; fill(l); serialize(l, w); }
}
template<zerialize::Writer W> bool emit_typed_any(const sim::MV& v, W& w) {
    using sim::K; using sim::MV;
    if (v.a.empty()) return false;
    const int width = v.prim >> 2 & 3;
    auto i = [](const MV& x) { return x.i; }; auto u = [](const MV& x) { return x.u; }; auto d = [](const MV& x) { return x.d; };
    switch (v.a[0].k) {
        case K::Int: if (width == 0) emit_typed<signed char>(v, w, i); else if (width == 1) emit_typed<std::int16_t>(v, w, i); else if (width == 2) emit_typed<std::int32_t>(v, w, i); else emit_typed<std::int64_t>(v, w, i); return true;
        case K::UInt: if (width == 0) emit_typed<std::uint8_t>(v, w, u); else if (width == 1) emit_typed<std::uint16_t>(v, w, u); else if (width == 2) emit_typed<std::uint32_t>(v, w, u); else emit_typed<std::uint64_t>(v, w, u); return true;
        case K::Float: if (width < 2) emit_typed<float>(v, w, d); else emit_typed<double>(v, w, d); return true;
        case K::Bool: emit_typed<bool>(v, w, [](const MV& x) { return x.b; }); return true;
        case K::Str:
            if (width == 0) emit_typed<const char*>(v, w, [](const MV& x) { return x.s.c_str(); });
            else if (width == 1) emit_typed<std::string_view>(v, w, [](const MV& x) { return std::string_view(x.s); });
            else emit_typed<std::string>(v, w, [](const MV& x) { return x.s; });
            return true;
        default: return false;
    }
}
template<class M, class Get, zerialize::Writer W> void emit_map_of(const sim::MV& v, W& w, Get get) {
    using zerialize::serialize;
    M m; { sim::heap::HarnessScope hs; for (auto& x : v.m) m.emplace(x.first, get(x.second)); }
    serialize(m, w);
}
template<zerialize::Writer W> bool emit_typed_map(const sim::MV& v, W& w) {
    using sim::K; using sim::MV;
    if (v.m.empty()) return false;
    switch (v.m[0].second.k) {
        case K::Int: if (v.prim & 1) emit_map_of<std::map<std::string, int>>(v, w, [](const MV& x) { return static_cast<int>(x.i); }); else emit_map_of<std::unordered_map<std::string, std::int64_t>>(v, w, [](const MV& x) { return x.i; }); return true;
        case K::Float: if (v.prim & 1) emit_map_of<std::map<std::string, float>>(v, w, [](const MV& x) { return static_cast<float>(x.d); }); else emit_map_of<std::unordered_map<std::string, double>>(v, w, [](const MV& x) { return x.d; }); return true;
        case K::Str: if (v.prim & 1) emit_map_of<std::map<std::string, std::string>>(v, w, [](const MV& x) { return x.s; }); else emit_map_of<std::map<std::string_view, std::string_view>>(v, w, [](const MV& x) { return std::string_view(x.s); }); return true;
        case K::Bool: emit_map_of<std::unordered_map<std::string, bool>>(v, w, [](const MV& x) { return x.b; }); return true;
        case K::Arr: emit_map_of<std::map<std::string, std::vector<std::uint16_t>>>(v, w, [](const MV& x) { std::vector<std::uint16_t> l; for (auto& y : x.a) l.push_back(static_cast<std::uint16_t>(y.u)); return l; }); return true;
        case K::Map: emit_map_of<std::map<std::string, std::map<std::string, std::uint8_t>>>(v, w, [](const MV& x) { std::map<std::string, std::uint8_t> l; for (auto& y : x.m) l.emplace(y.first, static_cast<std::uint8_t>(y.second.u)); return l; }); return true;
        default: return false;
    }
}
// Builders of plain values: temporaries, lvalues and literals; shapes as Gen::plain() makes them.
template<zerialize::Writer W> void emit_plain(const sim::MV& v, W& w) {
    using namespace zerialize;
    switch (v.prim) {
        case 0: { const std::string& s = v.a[2].s; zvec(v.a[0].i, double(v.a[1].d), s, v.a[3].b)(w); break; }
        case 1: { unsigned u = static_cast<unsigned>(v.m[0].second.u); zmap<"id", "name">(u, std::string_view(v.m[1].second.s))(w); break; }
        case 2: zvec(zvec(static_cast<short>(v.a[0].a[0].i), static_cast<float>(v.a[0].a[1].d)), zmap<"k">(v.a[1].m[0].second.u), as_span(v.a[2].s), nullptr)(w); break;
        case 3: zvec("literal", "", 'c', true, 3.5f, -7, 7u, 40000000000ll)(w); break;
        case 4: { std::vector<int> l; { sim::heap::HarnessScope hs; for (auto& x : v.m[0].second.a) l.push_back(static_cast<int>(x.i)); } zmap<"list", "deep", "nil">(l, zmap<"x", "y">(zvec(zvec()), zmap<>()), nullptr)(w); break; }
        default: { auto inner = zmap<"v">(v.a[0].m[0].second.i); zvec(inner, std::array<double, 2>{v.a[1].a[0].d, v.a[1].a[1].d}, std::list<std::string_view>{v.a[2].a[0].s})(w); break; }
    }
}

template<zerialize::Writer W> void emit_zmap(const sim::MV& v, W& w) {
    auto c = [&](std::size_t i) { return User{&v.m[i].second}; };
    switch (v.prim) {
        case 0: zerialize::zmap<"id">(c(0))(w); break;
        case 1: zerialize::zmap<"id", "name">(c(0), c(1))(w); break;
        case 2: { User l = c(1); zerialize::zmap<"a", "b", "c">(c(0), l, c(2))(w); break; }
        case 3: zerialize::zmap<"", "x">(c(0), c(1))(w); break;
        case 4: zerialize::zmap<"a key that is rather longer than thirty-one bytes", "k\xc3\xa9y">(c(0), c(1))(w); break;
        case 5: zerialize::zmap<>()(w); break;
        default: zerialize::zmap<"name", "nam", "namer", "n">(c(0), c(1), c(2), c(3))(w); break;
    }
}

template<class T, zerialize::Writer W> void emit_tensor_of(const sim::MV& v, W& w) {
    std::vector<std::size_t> shape;
    const T* p = reinterpret_cast<const T*>(v.a[2].s.data());
    const std::size_t n = v.a[2].s.size() / sizeof(T);
    { sim::heap::HarnessScope hs; for (auto& d : v.a[1].a) shape.push_back(d.u); }
    auto row = [&] { sim::heap::HarnessScope hs; auto x = xt::xarray<T>::from_shape(shape); if (n) std::memcpy(static_cast<void*>(x.data()), p, n * sizeof(T)); return x; };
    if (v.prim == 1) {
        xt::xarray<T, xt::layout_type::column_major> c;
        { sim::heap::HarnessScope hs; auto x = row(); c = x; }
        serialize(c, w);
    } else if (v.prim == 2) {   // the middle of a larger array
        xt::xarray<T> big;
        { sim::heap::HarnessScope hs;
          auto s2 = shape; s2[0] += 2;
          big = xt::xarray<T>::from_shape(s2);
          const std::size_t stride = n / shape[0];
          std::memset(static_cast<void*>(big.data()), 0x5a, big.size() * sizeof(T));
          if (n) std::memcpy(static_cast<void*>(big.data() + stride), p, n * sizeof(T)); }
        auto vw = xt::view(big, xt::range(1, 1 + static_cast<long>(shape[0])));
        serialize(vw, w);
    } else if (v.prim == 3) {   // Eigen keeps its own (column) order in the message
        Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> m;
        { sim::heap::HarnessScope hs; m.resize(static_cast<Eigen::Index>(shape[0]), static_cast<Eigen::Index>(shape[1])); if (n) std::memcpy(static_cast<void*>(m.data()), p, n * sizeof(T)); }
        serialize(m, w);
    } else { auto x = row(); serialize(x, w); }
}
template<zerialize::Writer W> void emit_tensor(const sim::MV& v, W& w) {
    switch (v.a[0].i) {
        case 11: emit_tensor_of<double>(v, w); break;
        case 10: emit_tensor_of<float>(v, w); break;
        case 2: emit_tensor_of<std::int32_t>(v, w); break;
        default: emit_tensor_of<std::int8_t>(v, w); break;
    }
}

// `inner`: reached through a user type already, so do not wrap again.
template<zerialize::Writer W> void emit(const sim::MV& v, W& w, bool inner) {
    using sim::K;
    using zerialize::serialize;
    const std::uint8_t st = v.style;
    if (st == sim::SUserNest && !inner) { hook(2); emit(v, w, true); hook(3); return; }
    if (st == sim::SDyn) {
        zerialize::dyn::Value d; { sim::heap::HarnessScope hs; d = to_dyn(v); }
        serialize(d, w);
        return;
    }
    if (st == sim::SDynSer && !inner) {
        // an erased user type (serializable() inside a dynamic value)
        struct Box { const sim::MV* v; };
        zerialize::dyn::Value d; { sim::heap::HarnessScope hs; d = zerialize::dyn::serializable(User{&v}); }
        // the erased call comes back with W = WriterView; break the cycle there
        if constexpr (!std::is_same_v<W, zerialize::dyn::WriterView>) { serialize(d, w); return; }
    }
    if (v.k == K::Arr) {
        switch (st) {
            case sim::STensor: emit_tensor(v, w); return;
            case sim::SVector: { std::vector<User> l; { sim::heap::HarnessScope hs; for (auto& x : v.a) l.push_back(User{&x}); } serialize(l, w); return; }
            case sim::SList: { std::list<User> l; { sim::heap::HarnessScope hs; for (auto& x : v.a) l.push_back(User{&x}); } serialize(l, w); return; }
            case sim::SBuilder: {
                auto c = [&](std::size_t i) { return User{&v.a[i]}; };
                switch (v.a.size()) {
                    case 0: zerialize::zvec()(w); return;
                    case 1: zerialize::zvec(c(0))(w); return;
                    case 2: { User l = c(0); zerialize::zvec(l, c(1))(w); return; }
                    case 3: zerialize::zvec(c(0), c(1), c(2))(w); return;
                    case 4: { auto l = c(3); zerialize::zvec(c(0), c(1), c(2), l)(w); return; }
                    default: break;
                }
                break;
            }
            case sim::SStdArray:
                switch (v.a.size()) {
                    case 1: serialize(std::array<User, 1>{User{&v.a[0]}}, w); return;
                    case 2: serialize(std::array<User, 2>{User{&v.a[0]}, User{&v.a[1]}}, w); return;
                    case 3: serialize(std::initializer_list<User>{User{&v.a[0]}, User{&v.a[1]}, User{&v.a[2]}}, w); return;
                    default: break;
                }
                break;
            case sim::STyped: if (emit_typed_any(v, w)) return; break;
            case sim::SPlain: emit_plain(v, w); return;
            default: break;
        }
        w.begin_array(v.a.size());
        for (auto& x : v.a) serialize(User{&x}, w);
        w.end_array();
        return;
    }
    if (v.k == K::Map) {
        switch (st) {
            case sim::SStdMap: { std::map<std::string, User> l; { sim::heap::HarnessScope hs; for (auto& x : v.m) l[x.first] = User{&x.second}; } serialize(l, w); return; }
            case sim::SUnordered: { std::unordered_map<std::string, User> l; { sim::heap::HarnessScope hs; for (auto& x : v.m) l[x.first] = User{&x.second}; } serialize(l, w); return; }
            case sim::SBuilder: emit_zmap(v, w); return;
            case sim::STyped: if (emit_typed_map(v, w)) return; break;
            case sim::SPlain: emit_plain(v, w); return;
            default: break;
        }
        w.begin_map(v.m.size());
        for (auto& x : v.m) { w.key(x.first); serialize(User{&x.second}, w); }
        w.end_map();
        return;
    }
    emit_scalar(v, w);
}
} // namespace usr

namespace sim {
// serialize<P> of a model value; the root's style decides how the root itself is passed.
template<class P> zerialize::ZBuffer encode(const MV& v) {
    using namespace zerialize;
    if (v.style == SDyn || v.style == SDynSer) {
        dyn::Value d; { heap::HarnessScope hs; d = usr::to_dyn(v); }
        return serialize<P>(d);
    }
    return serialize<P>(usr::User{&v});
}
template<class P> std::string encode_bytes(const MV& v) {
    heap::HarnessScope hs;
    auto z = encode<P>(v);
    return std::string(reinterpret_cast<const char*>(z.data()), z.size());
}
} // namespace sim
