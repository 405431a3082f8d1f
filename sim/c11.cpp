// C11: tensors and blobs read back exactly wherever the message lies in memory; views point
// into the message only when aligned; copies do not depend on it; bad shapes are refused.
#include "c11.hpp"
#include "protocols.hpp"
#include "faults.hpp"
#include <optional>
using namespace sim;

#ifndef C11_P
static void run(Sim& s) {
    heap::reset(s.below(2));
    using F = void (*)(Sim&);
    static const F f[] = {c11::zera0, c11::zera1, c11::msgpack0, c11::msgpack1, c11::flex0, c11::flex1, c11::cbor0, c11::cbor1, c11::zera2, c11::msgpack2, c11::flex2, c11::cbor2};
    f[s.below(12)](s);
}
const sim::Prop sim::the_prop{"C11", run};
#else
namespace z = zerialize;

namespace pl {
// A message with a tensor somewhere in it, after a string that shifts it.
template<class T> struct Msg { int form; const std::string* pad; const T* t; };
template<class T, z::Writer W> void serialize(const Msg<T>& m, W& w) {
    using z::serialize;
    switch (m.form) {
        case 0: serialize(*m.t, w); break;
        case 1: w.begin_map(3); w.key("pad"); w.string(*m.pad); w.key("t"); serialize(*m.t, w); w.key("z"); w.int64(7); w.end_map(); break;
        case 2: w.begin_array(3); w.string(*m.pad); serialize(*m.t, w); w.string("tail"); w.end_array(); break;
        default: w.begin_array(2); w.string(*m.pad); w.begin_map(2); w.key("a"); w.boolean(true); w.key("t"); serialize(*m.t, w); w.end_map(); w.end_array(); break;
    }
}
template<class R, class F> void at(const R& r, int form, F&& f) {
    switch (form) {
        case 0: f(r); break;
        case 1: { auto e = r["t"]; f(e); break; }
        case 2: { auto e = r[std::size_t(1)]; f(e); break; }
        default: { auto e = r[std::size_t(1)]; auto g = e["t"]; f(g); break; }
    }
}
inline MV wrap(int form, const std::string& pad, MV t) {
    switch (form) {
        case 0: return t;
        case 1: { MV m = MV::map(); m.m.emplace_back("pad", MV::str(pad)); m.m.emplace_back("t", std::move(t)); m.m.emplace_back("z", MV::integer(7)); return m; }
        case 2: { MV m = MV::arr(); m.a.push_back(MV::str(pad)); m.a.push_back(std::move(t)); m.a.push_back(MV::str("tail")); return m; }
        default: { MV i = MV::map(); i.m.emplace_back("a", MV::boolean(true)); i.m.emplace_back("t", std::move(t)); MV m = MV::arr(); m.a.push_back(MV::str(pad)); m.a.push_back(std::move(i)); return m; }
    }
}
}

struct Placed {   // the message in simulated memory
    std::uint8_t* p; std::size_t n;
    Placed(const std::string& b, std::size_t mis) : p(heap::place(b.size(), mis)), n(b.size()) { std::memcpy(p, b.data(), b.size()); }
    void drop() { if (p) { std::memset(p, 0xA5, n); heap::unplace(p); p = nullptr; } }
    ~Placed() { drop(); }
    bool has(const void* q) const { return q >= p && q < p + n; }
};

using P = z::C11_P;

struct Expect { std::vector<std::size_t> shape; std::string bits; };

// ---- checks of the view object ----
template<class T, class V> void check_bits(const V& v, const Expect& e, const char* when) {
    const std::size_t n = e.bits.size() / sizeof(T);
    const auto t = v.tensor();
    if (v.rank() != e.shape.size() || t.dimension() != e.shape.size()) VIOLATE("wrong-shape", std::string("tensor rank ") + when);
    for (std::size_t i = 0; i < e.shape.size(); ++i) if (v.shape()[i] != e.shape[i] || t.shape()[i] != e.shape[i]) VIOLATE("wrong-shape", std::string("tensor shape ") + when);
    if (t.size() != n) VIOLATE("wrong-shape", std::string("tensor size ") + when);
    std::size_t k = 0;
    for (const T& x : t) { if (k >= n || std::memcmp(&x, e.bits.data() + k * sizeof(T), sizeof(T)) != 0) VIOLATE("wrong-elements", std::string("tensor element ") + std::to_string(k) + " " + when); ++k; }
    const auto a = v.array();
    if (a.size() != n || (n && std::memcmp(a.data(), e.bits.data(), e.bits.size()) != 0)) VIOLATE("wrong-elements", std::string("array() ") + when);
    for (std::size_t i = 0; i < e.shape.size(); ++i) if (a.shape()[i] != e.shape[i]) VIOLATE("wrong-shape", std::string("array() shape ") + when);
}
template<class T, class I> void check_info(const I& info, std::uintptr_t blob, std::size_t nbytes, const void* data, const Placed* m) {
    const bool aligned = blob % alignof(T) == 0;
    if (info.zero_copy && !aligned) VIOLATE("misaligned-view", "a view into misaligned memory is called zero-copy");
    if (!info.zero_copy && aligned) VIOLATE("needless-copy", "aligned data was copied");
    if (info.required_alignment != alignof(T) || info.address != blob || info.byte_size != nbytes) VIOLATE("wrong-info", "view info does not describe the blob");
    if (info.zero_copy != (info.reason == z::tensor::TensorViewReason::Ok)) VIOLATE("wrong-info", "view reason contradicts zero_copy");
    if (!info.zero_copy && info.reason != z::tensor::TensorViewReason::Misaligned) VIOLATE("wrong-info", "a span-backed copy must be reported as misaligned");
    if (nbytes == 0) return;
    if (info.zero_copy && reinterpret_cast<std::uintptr_t>(data) != blob) VIOLATE("wrong-info", "zero-copy view does not point at the blob");
    if (!info.zero_copy && m && m->has(data)) VIOLATE("wrong-info", "a copy points into the message");
    if (reinterpret_cast<std::uintptr_t>(data) % alignof(T) != 0) VIOLATE("misaligned-view", "elements handed out at a misaligned address");
}
template<class F> void refused(const char* what, F&& f) {
    try { heap::LibScope ls; f(); }
    catch (const z::DeserializationError&) { return; }
    catch (const Violation&) { throw; }
    catch (const std::exception& e) { VIOLATE("wrong-exception", std::string(what) + ": " + e.what()); }
    VIOLATE("not-refused", std::string(what) + " was accepted");
}

// Reads a tensor of a well-formed message through every accessor. `m` null: an owning reader.
template<class T, class Other, class R> void read_xt(Sim& s, const R& root, int form, const Expect& e, Placed* m, bool zera16) {
    using V = z::xtensor::XTensorView<T>;
    std::optional<V> keep, moved;
    bool zero = false;
    pl::at(root, form, [&](const auto& r) {
        heap::LibScope ls;
        const auto blob = r[std::size_t(2)].asBlob();
        const auto addr = reinterpret_cast<std::uintptr_t>(std::data(blob));
        if (std::size(blob) != e.bits.size() || (e.bits.size() && std::memcmp(std::data(blob), e.bits.data(), e.bits.size()))) VIOLATE("wrong-elements", "the tensor's blob");
        if (m && e.bits.size() && (!m->has(std::data(blob)) || !m->has(reinterpret_cast<const char*>(std::data(blob)) + e.bits.size() - 1))) VIOLATE("wrong-info", "a blob of a borrowed message lies outside it");
        if (zera16 && addr % 16 != 0) VIOLATE("zera-alignment", "ZERA blob not 16-byte aligned in an aligned message");
        if (!z::isTensor<T>(r)) VIOLATE("wrong-kind", "isTensor is false for a tensor");
        if (z::isTensor<Other>(r)) VIOLATE("wrong-kind", "isTensor is true for another element type");
        keep.emplace(z::xtensor::asXTensorView<T>(r));
        { const auto t = keep->tensor(); check_info<T>(keep->viewInfo(), addr, e.bits.size(), t.data(), m); }
        zero = keep->viewInfo().zero_copy;
        check_bits<T>(*keep, e, "when read");
        const auto own = z::xtensor::asXTensor<T>(r);
        if (own.size() * sizeof(T) != e.bits.size() || (e.bits.size() && std::memcmp(own.data(), e.bits.data(), e.bits.size()))) VIOLATE("wrong-elements", "asXTensor");
        refused("another element type", [&] { (void)z::xtensor::asXTensorView<Other>(r); });
        {   // what was read can be sent on
            heap::HarnessScope hs;
            const auto again = z::serialize<P>(own), first = z::serialize<P>(keep->tensor());
            using E = typename P::Deserializer;
            E d(std::span<const std::uint8_t>(reinterpret_cast<const std::uint8_t*>(again.data()), again.size()));
            const auto b2 = d[std::size_t(2)].asBlob();
            bool ok = again.size() == first.size() && !std::memcmp(again.data(), first.data(), first.size()) && d[std::size_t(1)].arraySize() == e.shape.size() && std::size(b2) == e.bits.size() && (e.bits.empty() || !std::memcmp(std::data(b2), e.bits.data(), e.bits.size()));
            for (std::size_t i = 0; ok && i < e.shape.size(); ++i) ok = d[std::size_t(1)][i].asUInt64() == e.shape[i];
            if (!ok) VIOLATE("wrong-elements", "a tensor read and written again");
        }
        if (e.shape.size() == 2) { const auto o2 = z::xtensor::asXTensor<T, 2>(r); if (o2.dimension() != 2 || o2.size() != own.size()) VIOLATE("wrong-shape", "asXTensor of static rank"); }
        if (e.shape.size() == 2) { (void)z::xtensor::asXTensorView<T, 2>(r); refused("another rank", [&] { (void)z::xtensor::asXTensorView<T, 1>(r); }); }
        else refused("another rank", [&] { (void)z::xtensor::asXTensorView<T, 2>(r); });
        if (e.shape.size() != 2) refused("a matrix of another rank", [&] { (void)z::eigen::asEigenMatrixView<T, Eigen::Dynamic, Eigen::Dynamic>(r); });
    });
    SIM_COUNT("op.xtensor"); if (zero) SIM_COUNT("probe.zero_copy"); else SIM_COUNT("probe.copied");
    heap::LibScope ls;
    switch (s.below(4)) {   // the view object is copied and moved around
        case 1: { V c(*keep); check_bits<T>(c, e, "in a copy of the view"); moved.emplace(c); keep.reset(); break; }
        case 2: moved.emplace(std::move(*keep)); keep.reset(); break;
        case 3: { V c(*keep); *keep = c; moved.emplace(*keep); *keep = *moved; break; }
        default: break;
    }
    if (keep) check_bits<T>(*keep, e, "after moving views");
    if (moved) check_bits<T>(*moved, e, "in the moved view");
    if (!zero && m) {   // a copy must survive the message
        SIM_COUNT("fault.message_memory_reused");
        { heap::HarnessScope hs; m->drop(); }
        if (keep) check_bits<T>(*keep, e, "after the message was freed");
        if (moved) check_bits<T>(*moved, e, "after the message was freed (moved view)");
    }
    keep.reset(); moved.reset();
}

template<class T, int NR, int NC, int Opt, class R> void read_eigen(Sim& s, const R& root, int form, const Expect& e, Placed* m, bool zera16) {
    using V = z::eigen::EigenMatrixView<T, NR, NC, Opt>;
    std::optional<V> keep;
    bool zero = false;
    const std::size_t rows = e.shape[0], cols = e.shape[1];
    auto check = [&](const V& v, const char* when) {
        if (v.rows() != rows || v.cols() != cols) VIOLATE("wrong-shape", std::string("matrix shape ") + when);
        const auto mp = v.map();
        const auto mx = v.matrix();
        if (static_cast<std::size_t>(mp.rows()) != rows || static_cast<std::size_t>(mp.cols()) != cols || static_cast<std::size_t>(mx.rows()) != rows || static_cast<std::size_t>(mx.cols()) != cols) VIOLATE("wrong-shape", std::string("matrix map shape ") + when);
        for (std::size_t i = 0; i < rows; ++i) for (std::size_t j = 0; j < cols; ++j) {
            const T a = mp(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j)), b = mx(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j));
            const std::size_t k = Opt & Eigen::RowMajor ? i * cols + j : j * rows + i;
            if (std::memcmp(&a, e.bits.data() + k * sizeof(T), sizeof(T)) || std::memcmp(&b, e.bits.data() + k * sizeof(T), sizeof(T)))
                VIOLATE("wrong-elements", std::string("matrix element (") + std::to_string(i) + "," + std::to_string(j) + ") " + when);
        }
    };
    pl::at(root, form, [&](const auto& r) {
        heap::LibScope ls;
        const auto blob = r[std::size_t(2)].asBlob();
        const auto addr = reinterpret_cast<std::uintptr_t>(std::data(blob));
        if (zera16 && addr % 16 != 0) VIOLATE("zera-alignment", "ZERA blob not 16-byte aligned in an aligned message");
        keep.emplace(z::eigen::asEigenMatrixView<T, NR, NC, false, Opt>(r));
        { const auto mp = keep->map(); check_info<T>(keep->viewInfo(), addr, e.bits.size(), mp.data(), m); }
        zero = keep->viewInfo().zero_copy;
        check(*keep, "when read");
        const auto own = z::eigen::asEigenMatrix<T, NR, NC, false, Opt>(r);
        if (e.bits.size() && std::memcmp(own.data(), e.bits.data(), e.bits.size())) VIOLATE("wrong-elements", "asEigenMatrix");
        using Other = std::conditional_t<std::is_same_v<T, float>, std::int32_t, float>;
        refused("another element type", [&] { (void)z::eigen::asEigenMatrixView<Other, NR, NC, false, Opt>(r); });
        if (rows != 3 || cols != 5) refused("other fixed dimensions", [&] { (void)z::eigen::asEigenMatrixView<T, 3, 5, false, Opt>(r); });
        {   // what was read can be sent on
            heap::HarnessScope hs;
            const auto again = z::serialize<P>(own), first = z::serialize<P>(keep->matrix());
            using E = typename P::Deserializer;
            E d(std::span<const std::uint8_t>(reinterpret_cast<const std::uint8_t*>(again.data()), again.size()));
            const auto b2 = d[std::size_t(2)].asBlob();
            if (again.size() != first.size() || std::memcmp(again.data(), first.data(), first.size()) || d[std::size_t(1)][std::size_t(0)].asUInt64() != rows || d[std::size_t(1)][std::size_t(1)].asUInt64() != cols
                || std::size(b2) != e.bits.size() || (e.bits.size() && std::memcmp(std::data(b2), e.bits.data(), e.bits.size()))) VIOLATE("wrong-elements", "a matrix read and written again");
        }
        if (cols != 4) refused("another fixed number of columns", [&] { (void)z::eigen::asEigenMatrixView<T, Eigen::Dynamic, 4, false, Opt>(r); });
    });
    SIM_COUNT("op.eigen"); if (zero) SIM_COUNT("probe.zero_copy"); else SIM_COUNT("probe.copied");
    heap::LibScope ls;
    const u64 mv = s.below(3);
    if (mv == 1) { V c(*keep); keep.reset(); check(c, "in a copy of the view"); keep.emplace(std::move(c)); }
    if (mv == 2) { V c(std::move(*keep)); keep.reset(); check(c, "in a moved view"); keep.emplace(c); }
    check(*keep, "after moving views");
    if (!zero && m) { SIM_COUNT("fault.message_memory_reused"); { heap::HarnessScope hs; m->drop(); } check(*keep, "after the message was freed"); }
    keep.reset();
}

// Reading under allocation failure: the right answer or bad_alloc, and no leak.
template<class R, class F> void under_pressure(Sim& s, const R& root, int form, F&& f) {
    const auto plan = draw_plan(s, 2);
    for (int twice = 0; twice < 2; ++twice) {
        const u64 live = heap::live_blocks();
        heap::set_plan(plan);
        try { heap::LibScope ls; pl::at(root, form, f); }
        catch (const std::bad_alloc&) {}
        catch (const Violation&) { heap::clear_plan(); throw; }
        catch (const std::exception& e) { heap::clear_plan(); VIOLATE("wrong-exception", std::string("reading a tensor under memory pressure: ") + e.what()); }
        const u64 fired = heap::fired();
        heap::clear_plan();
        if (fired) SIM_COUNT_N("fault.alloc.tensor", fired);
        s.ev("pressure", fired);
        if (heap::live_blocks() == live) return;
        if (twice) VIOLATE("leak", "reading a tensor under memory pressure leaked");
    }
}

// Opens the message (borrowed where it lies, or owned) and calls read(root, placement).
template<class Read> void open_and(Sim& s, const std::string& bytes, Read&& read) {
    const std::size_t mis = s.below(4) ? s.below(64) : 16 * s.below(4);
    const int mode = static_cast<int>(s.below(4));
    s.ev("place", mis, static_cast<u64>(mode)); s.state(mix(mis * 8 + static_cast<u64>(mode)) ^ bytes.size() % 64);
    using D = P::Deserializer;
    const bool zera = std::is_same_v<P, z::Zera>;
    if (mode < 3) {
        Placed m(bytes, mis);
        std::optional<D> d;
        { heap::LibScope ls; d.emplace(std::span<const std::uint8_t>(m.p, m.n)); }
        read(*d, &m, zera && mis % 16 == 0);
        { heap::LibScope ls; d.reset(); }
    } else {
        std::optional<D> d;
        { heap::LibScope ls; std::vector<std::uint8_t> v(bytes.begin(), bytes.end()); d.emplace(std::move(v)); }
        read(*d, static_cast<Placed*>(nullptr), false);
        { heap::LibScope ls; d.reset(); }
    }
}

static std::string raw(Sim& s, std::size_t n) {
    std::string r(n, 0);
    const u64 seed = s.below(1 << 12);
    for (std::size_t i = 0; i < n; ++i) r[i] = static_cast<char>(seed == 0 ? i : mix(seed * 7919 + i));
    return r;
}
static std::vector<std::size_t> draw_shape(Sim& s, std::size_t rank) {
    std::vector<std::size_t> v;
    std::size_t total = 1;
    for (std::size_t i = 0; i < rank; ++i) {
        std::size_t d = s.below(12) == 11 ? s.pick<std::size_t>({0, 16, 31, 64, 257}) : 1 + s.below(5);
        if (rank > 4 && d > 3 && d != 257) d = 1 + d % 2;
        if (total * d > 3000) d = 1;
        total *= d ? d : 1;
        v.push_back(d);
    }
    if (rank && total < 8 && s.below(48) == 47) { const std::size_t k = s.below(rank); if (v[k]) v[k] = s.pick<std::size_t>({255, 256, 4096, 32768, 65535, 65536, 70001}); }
    return v;
}
static std::string draw_pad(Sim& s) {
    Gen g(s, {});
    return g.bytes(s.below(24) == 23 ? s.pick<std::size_t>({255, 256, 300, 4095, 65535, 65536, 70000}) : s.below(40), true);
}
static std::size_t prod(const std::vector<std::size_t>& v);
// An empty tensor may have a dimension of any size: those of 2^32 and more must be refused when written, or come back as they were.
static bool stretch(Sim& s, std::vector<std::size_t>& v) {
    if (v.size() < 2 || prod(v) != 0 || s.below(3) != 2) return false;
    const std::size_t k = s.below(v.size());
    if (!v[k]) return false;
    v[k] = s.pick<std::size_t>({65536, 4294967295ull, 4294967296ull, 4294967303ull, 1ull << 40});
    return v[k] > 0xffffffffull;
}
static std::size_t prod(const std::vector<std::size_t>& v) { std::size_t n = 1; for (auto d : v) n *= d; return n; }

template<class T> std::string write_and_bytes(const T& t, int form, const std::string& pad, bool may_refuse = false) {
    heap::HarnessScope hs;
    try {
        auto b = z::serialize<P>(pl::Msg<T>{form, &pad, std::addressof(t)});
        return std::string(reinterpret_cast<const char*>(b.data()), b.size());
    } catch (const z::SerializationError&) {
        if (!may_refuse) VIOLATE("refused", "a tensor was refused when written");
        return {};
    }
}

template<class T, class Other> void xt_case(Sim& s) {
    const int form = static_cast<int>(s.below(4));
    const std::string pad = draw_pad(s);
    Expect e;
    std::string bytes;
    const u64 held = s.below(6);
    const std::size_t rank = held >= 2 ? 2 : s.below(8) == 7 ? 5 + s.below(4) : s.below(5);
    e.shape = draw_shape(s, rank);
    const bool over = held <= 2 && stretch(s, e.shape);
    s.ev("xt", held * 2 + over, rank);
    s.state(mix(held * 8 + rank) ^ mix(sizeof(T) * 64 + static_cast<u64>(form)));
    const std::size_t n = prod(e.shape);
    auto fill = [&](auto& a, const std::string& src) { if (a.size()) std::memcpy(static_cast<void*>(a.data()), src.data(), a.size() * sizeof(T)); };
    if (held == 0) {
        e.bits = raw(s, n * sizeof(T));
        auto a = xt::xarray<T>::from_shape(e.shape); fill(a, e.bits);
        bytes = write_and_bytes(a, form, pad, over);
    } else if (held == 1) {   // column-major container: storage order differs from logical order
        const std::string st = raw(s, n * sizeof(T));
        auto a = xt::xarray<T, xt::layout_type::column_major>::from_shape(e.shape); fill(a, st);
        e.bits.resize(n * sizeof(T));
        std::vector<std::size_t> ix(rank, 0);
        for (std::size_t k = 0; k < n; ++k) {
            std::size_t rest = k; for (std::size_t d = rank; d-- > 0;) { ix[d] = rest % e.shape[d]; rest /= e.shape[d]; }
            std::size_t off = 0, mul = 1; for (std::size_t d = 0; d < rank; ++d) { off += ix[d] * mul; mul *= e.shape[d]; }
            std::memcpy(e.bits.data() + k * sizeof(T), st.data() + off * sizeof(T), sizeof(T));
        }
        bytes = write_and_bytes(a, form, pad, over);
    } else if (held == 2) {
        e.bits = raw(s, n * sizeof(T));
        auto a = xt::xtensor<T, 2>::from_shape({e.shape[0], e.shape[1]}); fill(a, e.bits);
        bytes = write_and_bytes(a, form, pad, over);
    } else {   // a window of a larger array: whole rows, whole columns, or neither; maybe column-major
        const std::size_t r0 = s.below(3), c0 = held == 3 ? 0 : s.below(3), R = r0 + e.shape[0] + s.below(2), C = held == 3 ? e.shape[1] : c0 + e.shape[1] + s.below(2);
        const std::string st = raw(s, R * C * sizeof(T));
        e.bits.resize(n * sizeof(T));
        const bool cm = held == 5;
        for (std::size_t i = 0; i < e.shape[0]; ++i) for (std::size_t j = 0; j < e.shape[1]; ++j) {
            const std::size_t k = cm ? (c0 + j) * R + r0 + i : (r0 + i) * C + c0 + j;
            std::memcpy(e.bits.data() + (i * e.shape[1] + j) * sizeof(T), st.data() + k * sizeof(T), sizeof(T));
        }
        if (cm) {
            auto a = xt::xtensor<T, 2, xt::layout_type::column_major>::from_shape({R, C}); fill(a, st);
            auto v = xt::view(a, xt::range(r0, r0 + e.shape[0]), xt::range(c0, c0 + e.shape[1]));
            bytes = write_and_bytes(v, form, pad);
        } else {
            auto a = xt::xarray<T>::from_shape({R, C}); fill(a, st);
            auto v = xt::view(a, xt::range(r0, r0 + e.shape[0]), xt::range(c0, c0 + e.shape[1]));
            bytes = write_and_bytes(v, form, pad);
        }
    }
    if (over && bytes.empty()) return;   // refused
    open_and(s, bytes, [&](const auto& d, Placed* m, bool z16) {
        // above rank 4 xtensor's own noexcept constructors allocate, and end the process when they cannot
        if (rank <= 4 && s.below(4) == 3) under_pressure(s, d, form, [&](const auto& r) { auto v = z::xtensor::asXTensorView<T>(r); check_bits<T>(v, e, "under memory pressure"); });
        read_xt<T, Other>(s, d, form, e, m, z16);
    });
}

#if C11_G == 2
// Holders that are not plain containers: adaptors, fixed shapes, steps, transposes, slices of higher rank.
template<class T, class Other> void xt_exotic(Sim& s) {
    const int form = static_cast<int>(s.below(4));
    const std::string pad = draw_pad(s);
    Expect e;
    std::string bytes;
    const u64 held = s.below(11);
    s.ev("exotic", held);
    auto fill = [&](auto& a, const std::string& src) { if (a.size()) std::memcpy(static_cast<void*>(a.data()), src.data(), a.size() * sizeof(T)); };
    auto put = [&](const std::string& st, std::size_t k) { e.bits.append(st, k * sizeof(T), sizeof(T)); };
    const std::size_t R = 1 + s.below(6), C = 1 + s.below(6), D = 1 + s.below(4);
    switch (held) {
        case 0: {   // an adaptor over a vector
            e.shape = draw_shape(s, 1 + s.below(3)); e.bits = raw(s, prod(e.shape) * sizeof(T));
            std::vector<T> v(prod(e.shape)); fill(v, e.bits);
            auto a = xt::adapt(v, e.shape);
            bytes = write_and_bytes(a, form, pad); break;
        }
        case 1: {
            e.shape = {2, 3}; e.bits = raw(s, 6 * sizeof(T));
            xt::xtensor_fixed<T, xt::xshape<2, 3>> a; fill(a, e.bits);
            bytes = write_and_bytes(a, form, pad); break;
        }
        case 2: {   // every other row, from some row on
            const std::size_t from = s.below(R), step = 1 + s.below(3);
            const std::string st = raw(s, R * C * sizeof(T));
            auto a = xt::xarray<T>::from_shape({R, C}); fill(a, st);
            auto v = xt::view(a, xt::range(from, R, step), xt::all());
            std::size_t n = 0; for (std::size_t i = from; i < R; i += step) { ++n; for (std::size_t j = 0; j < C; ++j) put(st, i * C + j); }
            e.shape = {n, C};
            bytes = write_and_bytes(v, form, pad); break;
        }
        case 3: {   // every other column
            const std::size_t from = s.below(C), step = 1 + s.below(3);
            const std::string st = raw(s, R * C * sizeof(T));
            auto a = xt::xtensor<T, 2>::from_shape({R, C}); fill(a, st);
            auto v = xt::view(a, xt::all(), xt::range(from, C, step));
            std::size_t n = 0; for (std::size_t j = from; j < C; j += step) ++n;
            for (std::size_t i = 0; i < R; ++i) for (std::size_t j = from; j < C; j += step) put(st, i * C + j);
            e.shape = {R, n};
            bytes = write_and_bytes(v, form, pad); break;
        }
        case 4: {   // transposed
            const std::string st = raw(s, R * C * sizeof(T));
            auto a = xt::xarray<T>::from_shape({R, C}); fill(a, st);
            auto v = xt::transpose(a);
            for (std::size_t j = 0; j < C; ++j) for (std::size_t i = 0; i < R; ++i) put(st, i * C + j);
            e.shape = {C, R};
            bytes = write_and_bytes(v, form, pad); break;
        }
        case 5: {   // one plane of three dimensions
            const std::string st = raw(s, D * R * C * sizeof(T));
            auto a = xt::xtensor<T, 3>::from_shape({D, R, C}); fill(a, st);
            const std::size_t k = s.below(D);
            auto v = xt::view(a, k, xt::all(), xt::all());
            for (std::size_t i = 0; i < R * C; ++i) put(st, k * R * C + i);
            e.shape = {R, C};
            bytes = write_and_bytes(v, form, pad); break;
        }
        case 7: case 8: {   // some elements of one dimension, forwards or backwards
            const std::size_t n = R * C, step = 1 + s.below(3), from = s.below(2) ? 0 : s.below(n);
            const std::string st = raw(s, n * sizeof(T));
            auto a = xt::xtensor<T, 1>::from_shape({n}); fill(a, st);
            using namespace xt::placeholders;
            if (held == 7) {
                auto v = xt::view(a, xt::range(from, n, step));
                for (std::size_t i = from; i < n; i += step) put(st, i);
                e.shape = {v.size()};
                bytes = write_and_bytes(v, form, pad);
            } else {
                auto v = xt::view(a, xt::range(static_cast<std::ptrdiff_t>(from), _, -static_cast<std::ptrdiff_t>(step)));
                for (std::size_t i = from + 1; i > 0; i -= std::min(i, step)) put(st, i - 1);
                e.shape = {v.size()};
                bytes = write_and_bytes(v, form, pad);
            }
            if (e.bits.size() != e.shape[0] * sizeof(T)) VIOLATE("harness", "the view has another size than meant");
            break;
        }
        case 9: {   // one column of a row-major matrix
            const std::string st = raw(s, R * C * sizeof(T));
            auto a = xt::xtensor<T, 2>::from_shape({R, C}); fill(a, st);
            const std::size_t k = s.below(2) ? 0 : s.below(C);
            auto v = xt::view(a, xt::all(), k);
            for (std::size_t i = 0; i < R; ++i) put(st, i * C + k);
            e.shape = {R};
            bytes = write_and_bytes(v, form, pad); break;
        }
        case 10: {  // one row of a column-major matrix
            const std::string st = raw(s, R * C * sizeof(T));
            auto a = xt::xarray<T, xt::layout_type::column_major>::from_shape({R, C}); fill(a, st);
            const std::size_t k = s.below(2) ? 0 : s.below(R);
            auto v = xt::view(a, k, xt::all());
            for (std::size_t j = 0; j < C; ++j) put(st, j * R + k);
            e.shape = {C};
            bytes = write_and_bytes(v, form, pad); break;
        }
        default: {  // one column of a matrix
            const std::string st = raw(s, R * C * sizeof(T));
            auto a = xt::xarray<T, xt::layout_type::column_major>::from_shape({R, C}); fill(a, st);
            const std::size_t k = s.below(C);
            auto v = xt::view(a, xt::all(), k);
            for (std::size_t i = 0; i < R; ++i) put(st, k * R + i);
            e.shape = {R};
            bytes = write_and_bytes(v, form, pad); break;
        }
    }
    s.state(mix(held * 64 + R * 8 + C) ^ sizeof(T));
    open_and(s, bytes, [&](const auto& d, Placed* m, bool z16) { read_xt<T, Other>(s, d, form, e, m, z16); });
}
#endif

template<class T, int NR, int NC, int Opt> void eigen_case(Sim& s) {
    const int form = static_cast<int>(s.below(4));
    const std::string pad = draw_pad(s);
    Expect e;
    e.shape = draw_shape(s, 2);
    if (NR != Eigen::Dynamic) e.shape[0] = NR;
    if (NC != Eigen::Dynamic) e.shape[1] = NC;
    const bool over = NR == Eigen::Dynamic && NC == Eigen::Dynamic && stretch(s, e.shape);
    s.ev("eigen", e.shape[0], e.shape[1]);
    s.state(mix(NR * 100 + NC) ^ mix(sizeof(T) * 64 + static_cast<u64>(form) + Opt * 8));
    e.bits = raw(s, prod(e.shape) * sizeof(T));
    Eigen::Matrix<T, NR, NC, Opt> a;
    if constexpr (NR == Eigen::Dynamic || NC == Eigen::Dynamic) a.resize(static_cast<Eigen::Index>(e.shape[0]), static_cast<Eigen::Index>(e.shape[1]));
    if (!e.bits.empty()) std::memcpy(static_cast<void*>(a.data()), e.bits.data(), e.bits.size());   // e.bits is in storage order
    const std::string bytes = write_and_bytes(a, form, pad, over);
    if (over && bytes.empty()) return;   // refused
    open_and(s, bytes, [&](const auto& d, Placed* m, bool z16) {
        if (s.below(4) == 3) under_pressure(s, d, form, [&](const auto& r) { auto v = z::eigen::asEigenMatrixView<T, NR, NC, false, Opt>(r); if (v.rows() != e.shape[0]) VIOLATE("wrong-shape", "matrix under memory pressure"); });
        read_eigen<T, NR, NC, Opt>(s, d, form, e, m, z16);
    });
}

// Messages whose dtype, shape and payload disagree.
template<class T> void tampered(Sim& s) {
    const int form = static_cast<int>(s.below(4));
    const std::string pad = draw_pad(s);
    const std::size_t S = sizeof(T);
    std::vector<MV> dims;
    std::size_t nbytes = 0;
    // whether a reader must accept (1), must refuse (0) or may do either (2)
    int verdict = 0;
    std::vector<std::size_t> shape;
    auto set = [&](std::vector<u64> d) { for (u64 x : d) { dims.push_back(MV::uinteger(x)); shape.push_back(x); } };
    const u64 kind = s.below(12);
    switch (kind) {
        case 0: { auto sh = draw_shape(s, s.below(4)); for (auto d : sh) set({d}); nbytes = prod(sh) * S; verdict = 1; break; }             // consistent
        case 1: { auto sh = draw_shape(s, 1 + s.below(3)); for (auto d : sh) set({d}); nbytes = prod(sh) * S; const u64 k = s.below(4); nbytes = k == 0 ? nbytes + 1 : k == 1 ? nbytes + S : k == 2 ? (nbytes ? nbytes - 1 : 3) : nbytes * 2 + 1; break; }
        case 2: {   // the product or the byte size wraps to what is there
            static const std::vector<std::vector<u64>> l = {{1ull << 31, 1ull << 31, 4}, {1ull << 16, 1ull << 16, 1ull << 16, 1ull << 16}, {4294967295ull, 4294967295ull, 4294967295ull}, {1ull << 30, 1ull << 30, 16}, {1ull << 31, 1ull << 30}, {1ull << 31, 1ull << 31}, {1ull << 31, 1ull << 29, 1}, {641, 6700417, 4294967297ull}, {1ull << 31, 1ull << 31, 2, 3}, {2863311531u, 3, 2147483648u, 4}};
            set(l[s.below(l.size())]);
            u64 w = 1; for (auto d : shape) w *= d;
            w *= S;
            nbytes = w < 5000 ? w : s.below(3) * S;
            break;
        }
        case 3: { const u64 n = s.below(6); dims.push_back(MV::uinteger((1ull << (32 + s.below(31))) + n)); nbytes = n * S; break; }         // dimension truncates to 32 bits
        case 4: { const u64 n = 1 + s.below(6); dims.push_back(MV::integer(-static_cast<std::int64_t>(n))); nbytes = n * S; if (s.below(2)) { dims.push_back(MV::integer(-1)); } break; }
        case 5: { const u64 n = s.below(4); dims.push_back(MV::uinteger(n)); MV bad; switch (s.below(6)) { case 0: bad = MV::real(1.0); break; case 1: bad = MV::null(); break; case 2: bad = MV::boolean(true); break; case 3: bad = MV::str("1"); break; case 4: bad = MV::arr(); break; default: bad = MV::integer(INT64_MIN); } dims.insert(dims.begin() + static_cast<long>(s.below(2)), bad); nbytes = n * S; break; }
        case 6: { set({0, s.pick<u64>({5, 4294967295ull}), s.pick<u64>({1, 4294967295ull})}); nbytes = 0; verdict = 1; break; }             // empty though large
        case 7: { set({s.pick<u64>({7, 4294967295ull}), s.pick<u64>({3, 4294967295ull}), s.pick<u64>({1, 4294967295ull}), 0}); nbytes = 0; verdict = shape[0] == 7 && shape[1] == 3 ? 1 : 2; break; }
        case 8: { set({2, 3}); nbytes = 6 * S; break; }      // dtype replaced below
        case 9: { set({2, 3}); nbytes = 6 * S; break; }      // structure replaced below
        case 10: { set({4294967295ull, 4294967295ull}); nbytes = s.below(3) * S; break; }
        default: { set({0, 3}); nbytes = S * s.below(3); verdict = nbytes == 0; break; }
    }
    for (auto& d : dims) if (d.k == K::UInt && d.u <= INT64_MAX && s.below(2)) d = MV::integer(static_cast<std::int64_t>(d.u));   // same number, other sign class
    MV t = MV::arr(), sh = MV::arr();
    sh.a = dims;
    std::int64_t dt = z::tensor_dtype_index<T>;
    MV dtype = MV::integer(dt);
    if (kind == 8) switch (s.below(7)) {
        case 0: dtype = MV::integer(dt + 256); break;
        case 1: dtype = MV::integer(dt - 256); break;
        case 2: dtype = MV::integer(dt + (1ll << 32)); break;
        case 3: dtype = MV::integer(-1); break;
        case 4: dtype = MV::real(static_cast<double>(dt)); break;
        case 5: dtype = MV::uinteger(static_cast<u64>(dt)); verdict = 2; break;
        default: dtype = MV::str("float"); break;
    }
    const std::string payload = raw(s, nbytes);
    t.a = {dtype, sh, MV::blob(payload)};
    if (kind == 9) switch (s.below(6)) {
        case 0: t.a[2].k = K::Str; break;
        case 1: t.a.pop_back(); break;
        case 2: t.a[1] = MV::integer(6); break;
        case 3: { MV m = MV::map(); m.m.emplace_back("dtype", dtype); m.m.emplace_back("shape", sh); m.m.emplace_back("data", MV::blob(payload)); t = m; break; }
        case 4: std::swap(t.a[0], t.a[1]); break;
        default: t.a.push_back(MV::null()); verdict = 2; break;
    }
    s.ev("tampered", kind, nbytes);
    count_dyn("fault.tampered_tensor");
    s.nontrivial();
    s.state(mix(kind * 64 + S) ^ dims.size() * 131 + nbytes);
    if (s.tracing()) s.note(show(t));
    const std::string bytes = encode_bytes<P>(pl::wrap(form, pad, t));
    open_and(s, bytes, [&](const auto& d, Placed*, bool) {
        pl::at(d, form, [&](const auto& r) {
            auto attempt = [&](const char* who, int want, auto f) {
                bool ok = false;
                try { heap::LibScope ls; f(); ok = true; }
                catch (const z::DeserializationError& e) { if (want == 1) VIOLATE("refused", std::string(who) + " refused a consistent tensor: " + e.what()); }
                catch (const Violation&) { throw; }
                catch (const std::exception& e) { VIOLATE("wrong-exception", std::string(who) + " on a bad tensor: " + e.what()); }
                if (ok && want == 0) VIOLATE("not-refused", std::string(who) + " accepted a tensor whose type, shape and payload disagree (case " + std::to_string(kind) + ")");
            };
            attempt("asXTensorView", verdict, [&] {
                auto v = z::xtensor::asXTensorView<T>(r);
                if (verdict == 0) return;
                if (v.rank() != shape.size()) VIOLATE("wrong-shape", "tensor rank");
                for (std::size_t i = 0; i < shape.size(); ++i) if (v.shape()[i] != shape[i]) VIOLATE("wrong-shape", "tensor shape");
                const auto t2 = v.tensor();
                if (t2.size() * S != nbytes || (nbytes && std::memcmp(t2.data(), payload.data(), nbytes))) VIOLATE("wrong-elements", "tensor elements");
            });
            attempt("asXTensor", verdict, [&] { auto a = z::xtensor::asXTensor<T>(r); if (verdict && a.size() * S != nbytes) VIOLATE("wrong-shape", "asXTensor size"); });
            int ev = verdict == 0 ? 0 : shape.size() != 2 ? 0 : verdict;
            attempt("asEigenMatrixView", ev, [&] { auto v = z::eigen::asEigenMatrixView<T, Eigen::Dynamic, Eigen::Dynamic>(r); if (v.rows() * v.cols() * S != nbytes) VIOLATE("wrong-shape", "matrix size"); });
            attempt("asEigenMatrixView<2,3>", ev != 0 && shape[0] == 2 && shape[1] == 3 ? ev : 0, [&] { auto v = z::eigen::asEigenMatrixView<T, 2, 3>(r); (void)v.map().sum(); });
        });
    });
}

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void c11::C11_F(Sim& s) {
    if (s.below(4) == 3) {
#if C11_G == 0
        switch (s.below(3)) { case 0: tampered<double>(s); break; case 1: tampered<std::int32_t>(s); break; default: tampered<std::int8_t>(s); }
#elif C11_G == 2
        if (s.below(2)) tampered<std::uint32_t>(s); else tampered<std::complex<double>>(s);
#else
        switch (s.below(2)) { case 0: tampered<float>(s); break; default: tampered<std::uint16_t>(s); }
#endif
        return;
    }
    s.nontrivial();
#if C11_G == 0
    switch (s.below(8)) {
        case 0: xt_case<std::int8_t, std::uint8_t>(s); break;
        case 1: xt_case<std::int32_t, float>(s); break;
        case 2: xt_case<std::int64_t, double>(s); break;
        case 3: xt_case<std::uint16_t, std::int16_t>(s); break;
        case 4: eigen_case<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor>(s); break;
        case 5: eigen_case<float, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>(s); break;
        case 6: eigen_case<std::int32_t, 2, 3, Eigen::ColMajor>(s); break;
        default: eigen_case<double, 2, 3, Eigen::RowMajor>(s); break;
    }
#elif C11_G == 2
    switch (s.below(8)) {
        case 0: xt_case<std::uint32_t, std::int32_t>(s); break;
        case 1: xt_exotic<std::uint32_t, float>(s); break;
        case 2: xt_exotic<double, std::complex<float>>(s); break;
        case 3: eigen_case<float, Eigen::Dynamic, 1, Eigen::ColMajor>(s); break;
        case 4: eigen_case<double, 1, Eigen::Dynamic, Eigen::RowMajor>(s); break;
        case 5: eigen_case<std::int16_t, 3, Eigen::Dynamic, Eigen::ColMajor>(s); break;
        case 6: eigen_case<std::complex<float>, Eigen::Dynamic, 4, Eigen::RowMajor>(s); break;
        default: eigen_case<std::complex<double>, 4, 4, Eigen::ColMajor>(s); break;
    }
#else
    switch (s.below(8)) {
        case 0: xt_case<double, std::int64_t>(s); break;
        case 1: xt_case<float, std::uint32_t>(s); break;
        case 2: xt_case<std::uint64_t, std::int64_t>(s); break;
        case 3: xt_case<std::complex<double>, std::complex<float>>(s); break;
        case 4: xt_case<std::complex<float>, double>(s); break;
        case 5: xt_case<xtl::half_float, std::int16_t>(s); break;
        case 6: xt_case<std::uint8_t, std::int8_t>(s); break;
        default: xt_case<std::int16_t, std::uint16_t>(s); break;
    }
#endif
}
#endif
