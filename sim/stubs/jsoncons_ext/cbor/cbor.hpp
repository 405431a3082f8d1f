// Stub of the part of jsoncons that zerialize's CBOR writer calls (jsoncons is not
// installed in the sandbox). Definite lengths, shortest integers, as jsoncons does.
// The CBOR *reader* is all zerialize code; nothing of it is stubbed.
#pragma once
#include <cstdint>
#include <cstring>
#include <string_view>
#include <vector>
namespace jsoncons { namespace cbor {
class cbor_bytes_encoder {
    std::vector<std::uint8_t>& out_;
    void head(unsigned major, std::uint64_t v) {
        auto m = std::uint8_t(major << 5);
        int n = v < 24 ? 0 : v <= 0xff ? 1 : v <= 0xffff ? 2 : v <= 0xffffffffu ? 4 : 8;
        if (n == 0) { out_.push_back(std::uint8_t(m | v)); return; }
        out_.push_back(std::uint8_t(m | (n == 1 ? 24 : n == 2 ? 25 : n == 4 ? 26 : 27)));
        for (int i = n - 1; i >= 0; --i) out_.push_back(std::uint8_t(v >> (8 * i)));
    }
    void bytes(const void* p, std::size_t n) {
        auto b = static_cast<const std::uint8_t*>(p);
        out_.insert(out_.end(), b, b + n);
    }
public:
    explicit cbor_bytes_encoder(std::vector<std::uint8_t>& out) : out_(out) {}
    void null_value() { out_.push_back(0xf6); }
    void bool_value(bool b) { out_.push_back(b ? 0xf5 : 0xf4); }
    void int64_value(std::int64_t v) { if (v >= 0) head(0, std::uint64_t(v)); else head(1, ~std::uint64_t(v)); }
    void uint64_value(std::uint64_t v) { head(0, v); }
    void double_value(double d) {
        float f = static_cast<float>(d);
        if (static_cast<double>(f) == d) {
            std::uint32_t b; std::memcpy(&b, &f, 4); out_.push_back(0xfa);
            for (int i = 3; i >= 0; --i) out_.push_back(std::uint8_t(b >> (8 * i)));
        } else {
            std::uint64_t b; std::memcpy(&b, &d, 8); out_.push_back(0xfb);
            for (int i = 7; i >= 0; --i) out_.push_back(std::uint8_t(b >> (8 * i)));
        }
    }
    void string_value(std::string_view s) { head(3, s.size()); bytes(s.data(), s.size()); }
    void byte_string_value(const std::vector<std::uint8_t>& v) { head(2, v.size()); bytes(v.data(), v.size()); }
    void begin_array(std::size_t n) { head(4, n); }
    void end_array() {}
    void begin_object(std::size_t n) { head(5, n); }
    void end_object() {}
    void key(std::string_view s) { string_value(s); }
};
}}
