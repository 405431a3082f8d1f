// C18: base64 text of blobs: exact on a sound channel, safe on a damaged one, and under memory exhaustion.
#include "model.hpp"
#include "faults.hpp"
#include <zerialize/internals/base64.hpp>
#include <exception>
#include <new>
using namespace sim;
namespace z = zerialize;

// ---- independent coder, written from RFC 4648 ----
static int val6(unsigned char c) {
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
}
static char chr6(unsigned v) { return v < 26 ? char('A' + v) : v < 52 ? char('a' + v - 26) : v < 62 ? char('0' + v - 52) : v == 62 ? '+' : '/'; }
static std::string ref_encode(const std::string& b) {
    std::string o;
    for (std::size_t i = 0; i < b.size(); i += 3) {
        const std::size_t k = std::min<std::size_t>(3, b.size() - i);
        unsigned w = 0;
        for (std::size_t j = 0; j < 3; ++j) w = w << 8 | (j < k ? static_cast<unsigned char>(b[i + j]) : 0u);
        for (std::size_t j = 0; j < 4; ++j) o += j <= k ? chr6(w >> (18 - 6 * j) & 63) : '=';
    }
    return o;
}
// What a decoder may answer for a text: `must` throw, or the bytes; `lenient`: bytes or a refusal.
struct Verdict { bool must_throw = false, lenient = false; std::string bytes; };
static Verdict ref_decode(const std::string& t) {
    Verdict v;
    const std::size_t end = std::min(t.find('='), t.size());
    for (std::size_t i = 0; i < end; ++i) if (val6(static_cast<unsigned char>(t[i])) < 0) { v.must_throw = true; return v; }
    for (std::size_t i = 0; i < end; i += 4) {
        const std::size_t k = std::min<std::size_t>(4, end - i);
        unsigned w = 0;
        for (std::size_t j = 0; j < 4; ++j) w = w << 6 | (j < k ? static_cast<unsigned>(val6(static_cast<unsigned char>(t[i + j]))) : 0u);
        for (std::size_t j = 0; j < k * 6 / 8; ++j) v.bytes += static_cast<char>(w >> (16 - 8 * j) & 255);
        if (k == 1 || (k == 2 && (w & 0xffff)) || (k == 3 && (w & 0xff))) v.lenient = true;   // cut short, or bits left over
    }
    const std::size_t pads = end % 4 == 2 ? 2 : end % 4 == 3 ? 1 : 0;
    if (end % 4 == 1) v.lenient = true;
    if (end < t.size() && end % 4 == 0) v.lenient = true;                      // padding where none is due
    if (pads && t.compare(end, pads, std::string(pads, '=')) != 0) v.lenient = true;   // padding missing
    return v;
}

static std::string draw_blob(Sim& s) {
    static const std::size_t ns[] = {0, 1, 2, 3, 4, 5, 6, 11, 12, 15, 16, 17, 23, 24, 47, 48, 63, 64, 65, 255, 256, 257, 767, 768, 1000, 3072, 4097};
    const std::size_t n = s.below(4) ? s.below(20) : ns[s.below(std::size(ns))] + (s.below(64) == 63 ? 66000 : 0);
    std::string b(n, '\0');
    const u64 how = s.below(5);
    u64 x = how ? s.bits64() : 0;
    for (auto& c : b) {
        x = mix(x);
        c = how == 0 ? '\0' : how == 1 ? '\xff' : how == 2 ? static_cast<char>(x & 3 ? 0 : x >> 8) : static_cast<char>(x >> 16);
    }
    return b;
}
static char draw_char(Sim& s, const std::string& t) {
    switch (s.below(5)) {
        case 0: return chr6(static_cast<unsigned>(s.below(64)));
        case 1: return '=';
        case 2: return s.pick<char>({'@', '[', '`', '{', '*', ',', '.', ':', '-', '_', ' ', '\n', '\r', '\t', '\0', '\x7f', '\x80', '\xff', '\xab', '\xc1'});
        case 3: return t.empty() ? '\0' : t[s.below(t.size())];
        default: return static_cast<char>(s.below(256));
    }
}
static u64 damage(Sim& s, std::string& t, const std::string& other) {
    const u64 k = s.below(8);
    const std::size_t n = t.size();
    const std::size_t at = n ? (s.below(3) ? n - 1 - s.below(std::min<std::size_t>(n, 6)) : s.below(n)) : 0;
    switch (k) {
        case 0: if (n) t[at] = draw_char(s, t); SIM_COUNT("fault.text.overwrite"); break;
        case 1: if (n) t[at] = static_cast<char>(t[at] ^ (1 << s.below(8))); SIM_COUNT("fault.text.bitflip"); break;
        case 2: t.resize(at); SIM_COUNT("fault.text.truncate"); break;
        case 3: t.insert(n ? s.below(n + 1) : 0, 1, draw_char(s, t)); SIM_COUNT("fault.text.insert"); break;
        case 4: { const std::size_t m = 1 + s.below(9); for (std::size_t i = 0; i < m; ++i) t += draw_char(s, t); SIM_COUNT("fault.text.extend"); break; }
        case 5: if (n) t.erase(at, 1 + s.below(4)); SIM_COUNT("fault.text.lost"); break;
        case 6: t = t.substr(0, s.below(n + 1)) + other.substr(std::min(other.size(), static_cast<std::size_t>(s.below(other.size() + 1)))); SIM_COUNT("fault.text.splice"); break;
        default: if (n) std::swap(t[at], t[s.below(n)]); SIM_COUNT("fault.text.swap"); break;
    }
    return k;
}

struct Ans { int rc = 0; std::string bytes; };   // 0 answered, 1 bad_alloc, 2 DeserializationError, 3 else
template<class F> static Ans ask(F&& f) {
    Ans a;
    try {
        heap::LibScope ls;
        auto r = f();
        heap::HarnessScope hs;
        a.bytes.assign(reinterpret_cast<const char*>(r.data()), r.size());
    }
    catch (const std::bad_alloc&) { a.rc = 1; }
    catch (const z::DeserializationError&) { a.rc = 2; }
    catch (const std::exception& e) { heap::HarnessScope hs; a.rc = 3; a.bytes = e.what(); }
    return a;
}
// f(): the call; judge(ans) is called for every answer that is not a permitted bad_alloc
template<class F, class J> static void under_faults(Sim& s, const char* what, F&& f, J&& judge) {
    heap::set_plan({});
    Ans a = ask(f);
    const u64 total = heap::plan_allocs();
    heap::clear_plan();
    if (a.rc == 1) VIOLATE("refused", std::string(what) + " threw bad_alloc with memory available");
    judge(a, "");
    s.ev(what, hash_bytes(a.bytes.data(), a.bytes.size()), static_cast<u64>(a.rc) * 64 + total);
    const int rounds = static_cast<int>(s.below(3));
    for (int i = 0; i < rounds; ++i) {
        const auto plan = draw_plan(s, total);
        const u64 live = heap::live_blocks();
        heap::set_plan(plan);
        const Ans b = ask(f);
        const u64 fired = heap::fired();
        heap::clear_plan();
        s.ev("under_plan", static_cast<u64>(plan.mode) * 1000003 + plan.n, fired * 4 + static_cast<u64>(b.rc));
        s.state(mix(fnv(what) + static_cast<u64>(plan.mode) * 64 + std::min<u64>(plan.n, 15) * 4 + static_cast<u64>(b.rc)));
        if (fired) count_dyn(std::string("fault.alloc.") + what, fired);
        if (b.rc == 1 && !fired) VIOLATE("refused", std::string(what) + " threw bad_alloc although no allocation failed");
        if (b.rc != 1) judge(b, " under memory pressure");
        if (heap::live_blocks() != live) {
            const u64 l2 = heap::live_blocks();
            heap::set_plan(plan); ask(f); heap::clear_plan();
            if (heap::live_blocks() > l2) VIOLATE("leak", std::string(what) + " leaked under memory pressure");
        }
        const Ans c = ask(f);
        if (c.rc != a.rc || c.bytes != a.bytes) VIOLATE("not-recovered", std::string(what) + " answers differently after an earlier failure");
    }
}

static void run(Sim& s) {
    heap::reset(s.below(2));
    const int n = 1 + static_cast<int>(s.below(4));
    std::string last = "QUJDRA==";
    for (int i = 0; i < n; ++i) {
        const std::string blob = draw_blob(s);
        const std::string want = ref_encode(blob);
        // sender: the blob lies in exactly-sized memory at any alignment
        std::uint8_t* p = heap::place(blob.size(), s.below(64));
        std::memcpy(p, blob.data(), blob.size());
        under_faults(s, "encode", [&] { return z::base64Encode(std::span<const std::byte>(reinterpret_cast<const std::byte*>(p), blob.size())); },
            [&](const Ans& a, const char* when) {
                if (a.rc) VIOLATE("encode-refused", std::string("encoding threw") + when + " for " + hex(blob.data(), blob.size(), 40));
                if (a.bytes != want) VIOLATE("wrong-text", std::string("encoding") + when + " gave " + a.bytes.substr(0, 80) + " instead of " + want.substr(0, 80) + " for " + hex(blob.data(), blob.size(), 40));
            });
        if (std::memcmp(p, blob.data(), blob.size()) != 0) VIOLATE("input-changed", "encoding changed the blob");
        heap::unplace(p);
        // channel
        std::string text = want;
        u64 kinds = 0;
        if (s.below(4)) { const int d = 1 + static_cast<int>(s.below(3)); for (int k = 0; k < d; ++k) kinds |= 1ull << damage(s, text, last); s.nontrivial(); }
        last = want;
        // receiver
        const Verdict v = ref_decode(text);
        if (!kinds && (v.must_throw || v.lenient || v.bytes != blob)) VIOLATE("harness", "the reference decoder disagrees with the reference encoder");
        std::uint8_t* q = heap::place(text.size(), s.below(64));
        std::memcpy(q, text.data(), text.size());
        s.ev("text", hash_bytes(text.data(), text.size()), kinds);
        if (s.tracing()) s.note("text " + hex(text.data(), text.size(), 80));
        under_faults(s, "decode", [&] { return z::base64Decode(std::string_view(reinterpret_cast<const char*>(q), text.size())); },
            [&](const Ans& a, const char* when) {
                const std::string ctx = std::string(when) + " for text " + hex(text.data(), text.size(), 80);
                if (a.rc == 3) VIOLATE("wrong-exception", "decoding threw " + a.bytes + ctx);
                if (a.rc == 2) {
                    if (v.must_throw) SIM_COUNT("probe.refused"); else if (v.lenient) SIM_COUNT("probe.refused_structure");
                    else VIOLATE("decode-refused", "decoding refused a well-formed text" + ctx);
                    return;
                }
                if (v.must_throw) VIOLATE("accepted-invalid", "decoding accepted an invalid character" + ctx);
                if (a.bytes != v.bytes) VIOLATE("wrong-bytes", "decoding gave " + hex(a.bytes.data(), a.bytes.size(), 40) + " instead of " + hex(v.bytes.data(), v.bytes.size(), 40) + ctx);
                if (v.lenient) SIM_COUNT("probe.accepted_structure");
            });
        if (std::memcmp(q, text.data(), text.size()) != 0) VIOLATE("input-changed", "decoding changed the text");
        s.state(mix(kinds * 16 + static_cast<u64>(v.must_throw) * 2 + v.lenient) ^ mix(text.size() % 64 * 4 + blob.size() % 3));
        heap::unplace(q);
    }
}
namespace sim { const Prop the_prop{"C18", run}; }
