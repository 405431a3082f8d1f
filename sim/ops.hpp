// Programs of reading calls: the same call can be made again, under faults, on another
// thread or on a copy, and its answer compared.
#pragma once
#include "protocols.hpp"
#include <optional>

namespace sim {

struct Step { bool by_key = false; std::size_t i = 0; std::string key; };
struct ReadOp {
    enum Kind { Scalars, String, Blob, Keys, Lookup, Absent, OutOfRange, Print, Tensor, Translate, Walk, CopyWalk, KIND } kind = Scalars;
    std::vector<Step> path;
    std::string arg;
    std::size_t idx = 0;
    const MV* node = nullptr;     // what the path leads to
};
inline const char* opname(int k) {
    static const char* n[] = {"scalars", "string", "blob", "keys", "lookup", "absent", "out_of_range", "print", "tensor", "translate", "walk", "copy_walk"};
    return n[k];
}

// An op on a random node of the value.
inline ReadOp draw_op(Sim& s, const MV& root, bool allow_translate = true) {
    heap::HarnessScope hs;
    ReadOp op;
    const MV* n = &root;
    for (int d = 0; d < 12; ++d) {
        const std::size_t c = n->k == K::Arr ? n->a.size() : n->k == K::Map ? n->m.size() : 0;
        if (c == 0) break;
        const u64 j = s.below(c + 1);
        if (j == 0) break;
        Step st;
        if (n->k == K::Arr) { st.i = j - 1; n = &n->a[j - 1]; }
        else { st.by_key = true; st.key = n->m[j - 1].first; n = &n->m[j - 1].second; }
        op.path.push_back(std::move(st));
    }
    op.node = n;
    op.kind = static_cast<ReadOp::Kind>(s.below(ReadOp::KIND));
    if (!allow_translate && op.kind == ReadOp::Translate) op.kind = ReadOp::Walk;
    if ((op.kind == ReadOp::Walk || op.kind == ReadOp::CopyWalk || op.kind == ReadOp::Translate || op.kind == ReadOp::Print) && n->nodes() > 2000) op.kind = ReadOp::Scalars;
    if (op.kind == ReadOp::String && n->k != K::Str) op.kind = n->k == K::Map ? ReadOp::Keys : ReadOp::Scalars;
    op.idx = s.below(8);
    op.arg = n->k == K::Map && !n->m.empty() ? n->m[op.idx % n->m.size()].first : std::string("k");
    if (op.kind == ReadOp::Absent) op.arg += "?";
    return op;
}

inline void put(std::string& o, const std::string& x) { heap::HarnessScope hs; o += x; o += ';'; }
inline void put(std::string& o, std::string_view x) { heap::HarnessScope hs; o += std::string(x); o += ';'; }
inline void put(std::string& o, const char* x) { put(o, std::string_view(x)); }
inline void put_num(std::string& o, long long x) { heap::HarnessScope hs; o += std::to_string(x); o += ';'; }

template<class F> void attempt_put(std::string& out, F&& f) {
    try { f(); } catch (const zerialize::DeserializationError&) { put(out, "E"); }
}

template<class R> void do_scalars(const R& r, std::string& out) {
    put_num(out, r.isNull() | r.isBool() << 1 | r.isInt() << 2 | r.isUInt() << 3 | r.isFloat() << 4 | r.isString() << 5 | r.isBlob() << 6 | r.isArray() << 7 | r.isMap() << 8);
    attempt_put(out, [&] { put_num(out, r.asBool()); });
    attempt_put(out, [&] { put_num(out, r.asInt64()); });
    attempt_put(out, [&] { put_num(out, static_cast<long long>(r.asUInt64())); });
    attempt_put(out, [&] { put_num(out, r.asInt8()); });
    attempt_put(out, [&] { put_num(out, r.asUInt32()); });
    attempt_put(out, [&] { put_num(out, static_cast<long long>(dbits(r.asDouble()))); });
    attempt_put(out, [&] { auto v = r.asStringView(); put(out, v); });
    attempt_put(out, [&] { auto b = r.asBlob(); put(out, std::string_view(reinterpret_cast<const char*>(std::data(b)), std::size(b))); });
    attempt_put(out, [&] { put_num(out, static_cast<long long>(r.arraySize())); });
}

template<class T, class R> void do_tensor(const R& r, std::string& out) {
    attempt_put(out, [&] {
        auto v = zerialize::xtensor::asXTensorView<T>(r);
        put_num(out, static_cast<long long>(v.rank()));
        for (auto d : v.shape()) put_num(out, d);
        auto a = v.array();
        put(out, std::string_view(reinterpret_cast<const char*>(a.data()), a.size() * sizeof(T)));
    });
}

template<class R> void do_op(const R& r, const ReadOp& op, std::string& out) {
    switch (op.kind) {
        case ReadOp::Scalars: do_scalars(r, out); break;
        case ReadOp::String: attempt_put(out, [&] { auto x = r.asString(); put(out, std::string_view(x)); }); break;
        case ReadOp::Blob: attempt_put(out, [&] { auto b = r.asBlob(); put(out, std::string_view(reinterpret_cast<const char*>(std::data(b)), std::size(b))); }); break;
        case ReadOp::Keys: attempt_put(out, [&] { for (auto k : r.mapKeys()) put(out, std::string_view(k)); }); break;
        case ReadOp::Lookup: attempt_put(out, [&] { put_num(out, r.contains(op.arg)); }); attempt_put(out, [&] { auto e = r[std::string_view(op.arg)]; do_scalars(e, out); }); break;
        case ReadOp::Absent: attempt_put(out, [&] { put_num(out, r.contains(op.arg)); }); attempt_put(out, [&] { auto e = r[std::string_view(op.arg)]; put(out, "?"); }); break;
        case ReadOp::OutOfRange: attempt_put(out, [&] { auto e = r[r.arraySize() + op.idx]; put(out, "?"); }); break;
        case ReadOp::Print: attempt_put(out, [&] { auto x = r.to_string(); put(out, std::string_view(x)); }); break;
        case ReadOp::Tensor: if (op.idx < 3) do_tensor<double>(r, out); else if (op.idx < 6) do_tensor<std::int32_t>(r, out); else do_tensor<std::int8_t>(r, out); break;
        case ReadOp::Translate: {
            const int q = static_cast<int>(op.idx % NProto);
            with_protocol(q, [&](auto t) {
                using Q = typename decltype(t)::type;
                auto d = zerialize::translate<Q>(r);
                MV m = read_back(d);
                heap::HarnessScope hs;
                put(out, show(m, 1 << 20));
                { MV dead = std::move(m); }
            });
            break;
        }
        case ReadOp::Walk: { MV m = read_back(r); heap::HarnessScope hs; put(out, show(m, 1 << 20)); { MV dead = std::move(m); } break; }
        default: {   // a copy, walked after the original object is out of the picture
            R c(r);
            MV m = read_back(c); heap::HarnessScope hs; put(out, show(m, 1 << 20)); { MV dead = std::move(m); }
            break;
        }
    }
}

template<class R> void run_op(const R& r, const ReadOp& op, std::string& out, std::size_t at = 0);
template<class R> void run_op(const R& r, const ReadOp& op, std::string& out, std::size_t at) {
    if (at == op.path.size()) { do_op(r, op, out); return; }
    const Step& st = op.path[at];
    if (st.by_key) { auto e = r[std::string_view(st.key)]; run_op(e, op, out, at + 1); }
    else { auto e = r[st.i]; run_op(e, op, out, at + 1); }
}

// A reader in one of the ways a user can open it; `keep` holds bytes it may borrow.
template<class P> using Des = typename P::Deserializer;
inline constexpr int NOpen = 5;
template<class P> std::optional<Des<P>> open_reader(int mode, const std::vector<std::uint8_t>& bytes) {
    std::optional<Des<P>> r;
    switch (mode) {
        case 0: r.emplace(std::span<const std::uint8_t>(bytes)); break;
        case 1: r.emplace(bytes); break;
        case 2: { std::vector<std::uint8_t> v; { heap::HarnessScope hs; v = bytes; } r.emplace(std::move(v)); break; }
        case 3: if constexpr (std::is_constructible_v<Des<P>, const std::uint8_t*, std::size_t>) r.emplace(bytes.data(), bytes.size()); else r.emplace(std::span<const std::uint8_t>(bytes)); break;
        default:
            if constexpr (requires { Des<P>::copy_from(std::span<const std::uint8_t>(bytes)); }) r.emplace(Des<P>::copy_from(std::span<const std::uint8_t>(bytes)));
            else r.emplace(bytes);
    }
    return r;
}

#define SIM_OPS_DECL(X, P) X template void run_op<zerialize::P::Deserializer>(const zerialize::P::Deserializer&, const ReadOp&, std::string&, std::size_t);
#ifndef SIM_OPS_INST
SIM_OPS_DECL(extern, Zera) SIM_OPS_DECL(extern, MsgPack) SIM_OPS_DECL(extern, Flex) SIM_OPS_DECL(extern, CBOR)
#endif
} // namespace sim
