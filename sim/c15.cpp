// C15: JSON says the value: text, reading back, translation; faults in memory and user code; damaged text.
#include "protocols.hpp"
#include "faults.hpp"
#include <zerialize/protocols/json.hpp>   // its parser and printer (yyjson) is a stub, see stubs/
#include <nlohmann/json.hpp>              // independent reader of the text
#include <optional>
using namespace sim;
using J = zerialize::JSON;
using Rd = J::Deserializer;

// ---- values JSON can carry ----
static std::size_t utf8_at(const std::string& s, std::size_t i) {
    const auto b = [&](std::size_t k) { return i + k < s.size() ? static_cast<unsigned char>(s[i + k]) : 0u; };
    const auto c = [&](std::size_t k) { return (b(k) & 0xc0) == 0x80; };
    if (b(0) < 0x80) return 1;
    if (b(0) >= 0xc2 && b(0) < 0xe0) return c(1) ? 2 : 0;
    if (b(0) >= 0xe0 && b(0) < 0xf0) return c(1) && c(2) && !(b(0) == 0xe0 && b(1) < 0xa0) && !(b(0) == 0xed && b(1) > 0x9f) ? 3 : 0;
    if (b(0) >= 0xf0 && b(0) < 0xf5) return c(1) && c(2) && c(3) && !(b(0) == 0xf0 && b(1) < 0x90) && !(b(0) == 0xf4 && b(1) > 0x8f) ? 4 : 0;
    return 0;
}
static bool valid_text(const std::string& s) { for (std::size_t i = 0; i < s.size();) { const auto n = utf8_at(s, i); if (!n) return false; i += n; } return true; }
static void mend_text(std::string& s) { for (std::size_t i = 0; i < s.size();) { auto n = utf8_at(s, i); if (!n) { s[i] = static_cast<char>('a' + (static_cast<unsigned char>(s[i]) & 15)); n = 1; } i += n; } }
static bool carries(const MV& v) {
    if (v.k == K::Float) return std::isfinite(v.d);
    if (v.k == K::Str) return valid_text(v.s);
    for (auto& x : v.a) if (!carries(x)) return false;
    for (auto& x : v.m) if (!valid_text(x.first) || !carries(x.second)) return false;
    return true;
}
static void mend(MV& v) {
    if (v.k == K::Float && !std::isfinite(v.d)) v.d = 1.5;
    if (v.k == K::Str) mend_text(v.s);
    for (auto& x : v.a) mend(x);
    std::set<std::string> seen;
    std::vector<std::pair<std::string, MV>> m;
    for (auto& x : v.m) { mend_text(x.first); mend(x.second); if (seen.insert(x.first).second) m.push_back(std::move(x)); }
    v.m = std::move(m);
}

// ---- what the text says, by another reader ----
static MV from_text(const nlohmann::json& j) {
    using t = nlohmann::json::value_t;
    switch (j.type()) {
        case t::null: return MV::null();
        case t::boolean: return MV::boolean(j.get<bool>());
        case t::number_integer: return MV::integer(j.get<std::int64_t>());
        case t::number_unsigned: return MV::uinteger(j.get<std::uint64_t>());
        case t::number_float: return MV::real(j.get<double>());
        case t::string: return MV::str(j.get<std::string>());
        case t::array: {
            MV v = MV::arr();
            for (auto& x : j) v.a.push_back(from_text(x));
            return v;
        }
        default: { MV v = MV::map(); for (auto& x : j.items()) v.m.emplace_back(x.key(), from_text(x.value())); return v; }
    }
}
static std::string b64(const std::string& b) {
    static const char* a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (std::size_t i = 0; i < b.size(); i += 3) {
        const std::size_t k = std::min<std::size_t>(3, b.size() - i);
        unsigned w = 0;
        for (std::size_t j = 0; j < 3; ++j) w = w << 8 | (j < k ? static_cast<unsigned char>(b[i + j]) : 0u);
        for (std::size_t j = 0; j < 4; ++j) o += j <= k ? a[w >> (18 - 6 * j) & 63] : '=';
    }
    return o;
}
static MV as_json(const MV& v) {   // the value with its blobs as README documents them
    if (v.k == K::Blob) { MV x = MV::arr(); x.a.push_back(MV::str("~b")); x.a.push_back(MV::str(b64(v.s))); x.a.push_back(MV::str("base64")); return x; }
    if (v.k == K::Arr) { MV x = MV::arr(); for (auto& e : v.a) x.a.push_back(as_json(e)); return x; }
    if (v.k == K::Map) { MV x = MV::map(); for (auto& e : v.m) x.m.emplace_back(e.first, as_json(e.second)); return x; }
    return v;
}

struct UserError : std::runtime_error { int n; explicit UserError(int k) : std::runtime_error("user code"), n(k) {} };
struct Thrower : usr::Hooks {
    int left; explicit Thrower(int n) : left(n) {}
    void at(int) override { if (left-- == 0) { sim::heap::HarnessScope hs; throw UserError(17); } }
};

// 0 done, 1 bad_alloc, 2 user exception, 3 other
static int attempt(const MV& v, std::string& out, std::string& what) {
    try {
        heap::LibScope ls;
        auto z = encode<J>(v);
        heap::HarnessScope hs;
        out.assign(reinterpret_cast<const char*>(z.data()), z.size());
        return 0;
    } catch (const Violation&) { throw; }
    catch (const UserError& e) { if (e.n != 17) VIOLATE("other-exception", "the user's exception came out changed"); return 2; }
    catch (const std::bad_alloc&) { what = "bad_alloc"; return 1; }
    catch (const std::exception& e) { what = e.what(); return 3; }
}
// True if doing it again leaves more blocks behind.
template<class F> static bool leaks(u64 before, F&& again) {
    if (heap::live_blocks() == before) return false;
    const u64 l = heap::live_blocks();
    again();
    return heap::live_blocks() > l;
}

static VerifyOpt opts(bool negative) { VerifyOpt o; o.negative = negative; o.blob_is_array = true; return o; }

static std::string write_it(Sim& s, const MV& v) {
    std::string text, out, what;
    const u64 live = heap::live_blocks();
    heap::set_plan({});
    const int rc = attempt(v, text, what);
    const u64 total = heap::plan_allocs();
    heap::clear_plan();
    s.ev("write", hash_bytes(text.data(), text.size()), total * 4 + static_cast<u64>(rc));
    if (!carries(v)) {   // no JSON for it
        if (rc == 0) VIOLATE("not-refused", "a value JSON cannot carry was written as " + text.substr(0, 160) + " for " + show(v));
        SIM_COUNT("probe.not_carried");
        if (leaks(live, [&] { attempt(v, out, what); })) VIOLATE("leak", "refusing a value leaked, for " + show(v));
        return {};
    }
    if (rc) VIOLATE("refused", "serialize failed with memory available: " + what + " for " + show(v));
    if (leaks(live, [&] { attempt(v, out, what); })) VIOLATE("leak", "serialize leaked");
    MV said;
    try { said = from_text(nlohmann::json::parse(text)); }
    catch (const std::exception& e) { VIOLATE("not-json", std::string("the text is not JSON: ") + e.what() + " in " + text.substr(0, 200)); }
    if (!same(said, as_json(v))) VIOLATE("wrong-text", "the text says " + show(said, 200) + " instead of " + show(as_json(v), 200) + ": " + text.substr(0, 200));
    // faults: memory, user code
    for (int t = static_cast<int>(s.below(4)); t > 0; --t) {
        const bool user = s.below(3) == 2;
        Thrower th(static_cast<int>(s.below(24)));
        heap::Plan plan; if (!user) plan = draw_plan(s, total);
        const u64 before = heap::live_blocks();
        u64 fired = 0;
        auto go = [&] { if (user) usr::hooks() = &th; heap::set_plan(plan); out.clear(); int r; try { r = attempt(v, out, what); } catch (...) { usr::hooks() = nullptr; heap::clear_plan(); throw; } fired = heap::fired(); heap::clear_plan(); usr::hooks() = nullptr; return r; };
        const int n0 = th.left;
        const int r = go();
        s.ev("try", static_cast<u64>(plan.mode) * 1000003 + plan.n + (user ? 77 : 0), fired * 4 + static_cast<u64>(r));
        s.state(mix(shape_hash(v) + static_cast<u64>(r) * 64 + static_cast<u64>(plan.mode) * 8 + user) + std::min<u64>(plan.n, 64));
        if (fired) { count_dyn("fault.alloc.write", fired); s.nontrivial(); }
        if (r == 2) { SIM_COUNT("fault.user_exception"); s.nontrivial(); }
        if (r == 0 && out != text) VIOLATE("different-message", "other text under faults: " + out.substr(0, 160) + " instead of " + text.substr(0, 160));
        if ((r == 1 || r == 3) && !fired) VIOLATE("refused", "serialize threw " + what + " although no allocation failed");
        if (leaks(before, [&] { th.left = n0; go(); })) VIOLATE("leak", std::string("a serialize call that failed ") + (user ? "in user code" : "for want of memory") + " leaked, for " + show(v));
        out.clear();
        if (attempt(v, out, what) || out != text) VIOLATE("not-recovered", "serialize does not work as before after a failure");
    }
    return text;
}

static std::optional<Rd> open_it(int mode, const std::uint8_t* p, std::size_t n) {
    std::optional<Rd> r;
    switch (mode) {
        case 0: r.emplace(std::span<const std::uint8_t>(p, n)); break;
        case 1: r.emplace(p, n); break;
        default: r.emplace(std::string_view(reinterpret_cast<const char*>(p), n)); break;
    }
    return r;
}

static void read_it(Sim& s, const MV& v, const std::string& text) {
    std::uint8_t* p = heap::place(text.size(), s.below(64));
    std::memcpy(p, text.data(), text.size());
    const int mode = static_cast<int>(s.below(3));
    const u64 live = heap::live_blocks();
    bool moved = false;
    const bool onto = s.below(2);
    auto shuffle = [&](std::optional<Rd>& r) {   // construct from, assign to a reader that has or has not a document
        Rd a(std::move(*r)); Rd b;
        if (onto) b = Rd(std::string_view("[1,{\"k\":null}]"));
        b = std::move(a); r.emplace(std::move(b));
    };
    {
        std::optional<Rd> rd;
        try { heap::LibScope ls; rd = open_it(mode, p, text.size()); }
        catch (const std::exception& e) { VIOLATE("refused", std::string("opening what was written threw: ") + e.what()); }
        if (s.below(2)) { std::memset(p, 0xA5, text.size()); heap::unplace(p); p = nullptr; SIM_COUNT("probe.text_freed"); }   // the reader keeps what it parsed
        if (s.below(3) == 2) {   // readers move; elements of the moved reader stay good
            const bool arr = v.k == K::Arr && !v.a.empty(), map = v.k == K::Map && !v.m.empty();
            const std::size_t i = arr ? s.below(v.a.size()) : map ? s.below(v.m.size()) : 0;
            heap::LibScope ls;
            std::optional<Rd> child;
            if (arr) child.emplace((*rd)[i]); else if (map) child.emplace((*rd)[std::string_view(v.m[i].first)]);
            moved = true;
            shuffle(rd);
            if (child) { verify(s, *child, arr ? v.a[i] : v.m[i].second, opts(false)); Rd c(std::move(*child)); verify(s, c, arr ? v.a[i] : v.m[i].second, opts(true)); }
        }
        { heap::LibScope ls; verify(s, *rd, v, opts(s.below(2))); }
        std::string what;
        for (int t = static_cast<int>(s.below(3)); t > 0; --t) {   // reading under memory pressure
            const auto plan = draw_plan(s, 4 + v.nodes());
            const u64 before = heap::live_blocks();
            auto go = [&](std::optional<MV>& m) {
                int r = 0;
                heap::set_plan(plan);
                try { heap::LibScope ls; MV x = read_back(*rd); heap::HarnessScope hs; m = std::move(x); }
                catch (const Violation&) { heap::clear_plan(); throw; }
                catch (const std::bad_alloc&) { r = 1; }
                catch (const std::exception& e) { what = e.what(); r = 2; }
                const u64 fired = heap::fired();
                heap::clear_plan();
                if (fired) { count_dyn("fault.alloc.read", fired); s.nontrivial(); }
                s.ev("read_under_plan", static_cast<u64>(plan.mode) * 1000003 + plan.n, fired * 4 + static_cast<u64>(r));
                if (r == 2) VIOLATE("wrong-exception", "reading under memory pressure threw " + what);
                if (r && !fired) VIOLATE("refused", "reading threw bad_alloc although no allocation failed");
                return r;
            };
            std::optional<MV> m;
            if (!go(m) && !same(*m, v)) VIOLATE("different-answer", "reading under memory pressure gave " + show(*m, 200) + " for " + show(v, 200));
            if (leaks(before, [&] { std::optional<MV> x; go(x); })) VIOLATE("leak", "reading leaked under memory pressure");
        }
        if (s.below(2) && v.nodes() < 400) {   // to another protocol and back
            with_protocol(static_cast<int>(s.below(NProto)), [&](auto t) {
                using P = typename decltype(t)::type;
                MV m, m2; bool in = false, back = false;
                std::string bytes;
                try {
                    heap::LibScope ls;
                    auto d = zerialize::translate<P>(*rd);
                    in = true;
                    MV x = read_back(d);
                    auto e = zerialize::translate<J>(d);
                    back = true;
                    MV y = read_back(e);
                    heap::HarnessScope hs; m = std::move(x); m2 = std::move(y);
                }
                catch (const Violation&) { throw; }
                catch (const std::exception& e) {
                    // Flex cannot carry keys with NUL; everything else must go through
                    if (std::string_view(P::Name) != "Flex") VIOLATE("refused", std::string("translating ") + (in ? back ? "and reading back" : "back from " : "to ") + P::Name + " threw: " + e.what() + " for " + show(v));
                    return;
                }
                s.ev("translated", hash_bytes(P::Name, std::strlen(P::Name)));
                count_dyn(std::string("probe.translate.") + P::Name);
                auto nul = [](auto& self, const MV& x) -> bool { for (auto& e : x.a) if (self(self, e)) return true; for (auto& e : x.m) if (e.first.find('\0') != std::string::npos || self(self, e.second)) return true; return false; };
                if (std::string_view(P::Name) == "Flex" && nul(nul, v)) return;
                if (!same(m, v)) VIOLATE("wrong-translation", std::string("JSON to ") + P::Name + " gave " + show(m, 200) + " for " + show(v, 200));
                if (!same(m2, v)) VIOLATE("wrong-translation", std::string("JSON to ") + P::Name + " and back gave " + show(m2, 200) + " for " + show(v, 200));
            });
        }
        heap::LibScope ls;
        rd.reset();
    }
    if (p) { if (std::memcmp(p, text.data(), text.size()) != 0) VIOLATE("message-changed", "reading changed the text"); heap::unplace(p); }
    if (heap::live_blocks() != live) {   // an open-and-close that leaves something, twice over
        const std::vector<std::uint8_t> c(text.begin(), text.end());
        auto once = [&] { heap::LibScope ls; auto r = open_it(mode, c.data(), c.size()); if (moved) shuffle(r); verify(s, *r, v, opts(true)); };
        once();
        const u64 l = heap::live_blocks();
        once();
        if (heap::live_blocks() > l) VIOLATE("leak", "opening, moving and reading leaked");
    }
}

// Opening under memory pressure, and reading damaged text: a right answer or an exception.
static void disturb(Sim& s, const MV& v, const std::string& text) {
    std::string t = text;
    const u64 kind = s.below(6);
    for (int n = kind ? 1 + static_cast<int>(s.below(3)) : 0; n > 0 && !t.empty(); --n) {
        const std::size_t at = s.below(t.size());
        switch (kind) {
            case 1: t[at] = static_cast<char>(t[at] ^ 1 << s.below(8)); SIM_COUNT("fault.text.bitflip"); break;
            case 2: t.resize(at); SIM_COUNT("fault.text.truncate"); break;
            case 3: t[at] = s.pick<char>({'"', '\\', '{', '}', '[', ']', ',', ':', '-', '.', 'e', '0', '9', '=', '\0', '\xff', 'u', 'n'}); SIM_COUNT("fault.text.overwrite"); break;
            case 4: t.erase(at, 1 + s.below(4)); SIM_COUNT("fault.text.lost"); break;
            default: t.insert(at, t.substr(s.below(t.size()), 1 + s.below(8))); SIM_COUNT("fault.text.duplicated"); break;
        }
    }
    if (t.empty()) return;
    std::uint8_t* p = heap::place(t.size(), s.below(64));
    std::memcpy(p, t.data(), t.size());
    const auto plan = kind ? heap::Plan{} : draw_plan(s, 4);
    auto go = [&] {
        int r = 0;
        std::optional<MV> m;
        heap::set_plan(plan);
        u64 fired = 0;
        try {
            heap::LibScope ls;
            auto rd = open_it(0, p, t.size());
            fired = heap::fired(); heap::clear_plan();
            MV x = read_back(*rd, 0, true);
            heap::HarnessScope hs; m = std::move(x);
        }
        catch (const Violation&) { heap::clear_plan(); throw; }
        catch (const zerialize::DeserializationError&) { r = 1; }
        catch (const std::bad_alloc&) { r = 2; }
        catch (const std::exception& e) { heap::clear_plan(); VIOLATE("wrong-exception", std::string("reading damaged text threw ") + e.what()); }
        if (!fired) fired = heap::fired();
        heap::clear_plan();
        s.ev("disturbed", kind * 8 + static_cast<u64>(r), fired);
        s.state(mix(kind * 64 + static_cast<u64>(r) * 16 + (fired > 0) * 8 + static_cast<u64>(plan.mode)) + std::min<u64>(plan.n, 16));
        if (fired) { count_dyn("fault.alloc.open", fired); s.nontrivial(); }
        if (kind == 0 && r == 0 && !same(*m, v)) VIOLATE("different-answer", "opened under memory pressure, reading gave " + show(*m, 200) + " for " + show(v, 200));
        if (r == 2 && !fired) VIOLATE("refused", "reading threw bad_alloc although no allocation failed");
        if (kind == 0 && r == 1 && !fired) VIOLATE("refused", "opening what was written threw");
    };
    const u64 live = heap::live_blocks();
    go();
    if (leaks(live, go)) VIOLATE("leak", "opening damaged text or under memory pressure leaked");
    heap::unplace(p);
}

// An array that resembles a blob's, and is not one.
static MV decoy(Sim& s) {
    MV a = MV::arr();
    a.a = {MV::str("~b"), MV::str("QUJD"), MV::str("base64")};
    switch (s.below(9)) {
        case 0: a.a[1] = MV::integer(5); break;
        case 1: a.a[1] = MV::null(); break;
        case 2: a.a[1] = MV::blob("xyz"); break;
        case 3: a.a[2] = MV::str(s.pick<const char*>({"base6", "base65", "base640", "", "Base64"})); break;
        case 4: a.a[0] = MV::str(s.pick<const char*>({"~c", "~", "", "~bb", "b"})); break;
        case 5: a.a.pop_back(); break;
        case 6: a.a.push_back(MV::null()); break;
        case 7: a.a[0] = MV::uinteger(1); break;
        default: a.a[2] = MV::arr(); break;
    }
    return a;
}

static void run(Sim& s) {
    heap::reset(s.below(2));
    GenOpt g; g.budget = 4 + static_cast<int>(s.below(24)); g.big = s.below(16) == 15; g.nul_keys = s.below(4) == 3; g.big_counts = false;   // lookups in large JSON objects are linear
    MV v = Gen(s, g).value();
    if (s.below(12) != 11) mend(v);
    if (s.below(5) == 4) { heap::HarnessScope hs; MV w = MV::arr(); w.a.push_back(std::move(v)); w.a.push_back(decoy(s)); if (s.below(2)) w.a.push_back(MV::blob("q")); v = std::move(w); }
    s.ev("value", shape_hash(v), v.nodes());
    if (s.tracing()) s.note(show(v));
    const std::string text = write_it(s, v);
    if (s.tracing()) s.note(text.substr(0, 400));
    if (text.empty()) return;
    read_it(s, v, text);
    if (s.below(2)) disturb(s, v, text);
}
namespace sim { const Prop the_prop{"C15", run}; }
