// Stand-in for jsoncons' CBOR encoder (jsoncons is not installed in this sandbox): an
// RFC 8949 encoder with the interface of jsoncons::cbor::cbor_bytes_encoder that cbor.hpp
// uses. Like jsoncons it throws when a definite-length container gets the wrong number of
// items, uses the shortest integer heads, and writes doubles as float32 when that is exact.
#pragma once
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string_view>
#include <vector>
#include <jsoncons/json.hpp>

namespace jsoncons {
struct ser_error : std::runtime_error { using std::runtime_error::runtime_error; };
namespace cbor {
class cbor_bytes_encoder {
    std::vector<uint8_t>& o_;
    struct L { bool map, indef; std::size_t want, got; };
    std::vector<L> st_;
    void head(uint8_t major, uint64_t v) {
        major = uint8_t(major << 5);
        auto be = [&](int n) { for (int i = n - 1; i >= 0; --i) o_.push_back(uint8_t(v >> (8 * i))); };
        if (v < 24) o_.push_back(major | uint8_t(v));
        else if (v <= 0xff) { o_.push_back(major | 24); be(1); }
        else if (v <= 0xffff) { o_.push_back(major | 25); be(2); }
        else if (v <= 0xffffffffu) { o_.push_back(major | 26); be(4); }
        else { o_.push_back(major | 27); be(8); }
    }
    void item() { if (!st_.empty()) ++st_.back().got; }
    void close(bool map) {
        if (st_.empty() || st_.back().map != map) throw ser_error("cbor: mismatched end");
        L l = st_.back(); st_.pop_back();
        if (l.indef) o_.push_back(0xff);
        else {
            const std::size_t want = map ? 2 * l.want : l.want;
            if (l.got < want) throw ser_error("cbor: too few items");
            if (l.got > want) throw ser_error("cbor: too many items");
        }
        item();
    }
public:
    explicit cbor_bytes_encoder(std::vector<uint8_t>& o) : o_(o) {}
    void flush() {}
    void null_value() { o_.push_back(0xf6); item(); }
    void bool_value(bool b) { o_.push_back(b ? 0xf5 : 0xf4); item(); }
    void int64_value(int64_t v) { if (v >= 0) head(0, uint64_t(v)); else head(1, uint64_t(-1 - v)); item(); }
    void uint64_value(uint64_t v) { head(0, v); item(); }
    void double_value(double d) {
        const float f = (std::isfinite(d) && std::fabs(d) > std::numeric_limits<float>::max()) ? 0.0f : static_cast<float>(d);
        auto be = [&](uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) o_.push_back(uint8_t(v >> (8 * i))); };
        if (static_cast<double>(f) == d) { uint32_t b; std::memcpy(&b, &f, 4); o_.push_back(0xfa); be(b, 4); }
        else { uint64_t b; std::memcpy(&b, &d, 8); o_.push_back(0xfb); be(b, 8); }
        item();
    }
    void string_value(std::string_view s) { head(3, s.size()); o_.insert(o_.end(), s.begin(), s.end()); item(); }
    template <class B> void byte_string_value(const B& b) { head(2, b.size()); o_.insert(o_.end(), b.begin(), b.end()); item(); }
    void begin_array(std::size_t n) { head(4, n); st_.push_back({false, false, n, 0}); }
    void begin_array() { o_.push_back(0x9f); st_.push_back({false, true, 0, 0}); }
    void end_array() { close(false); }
    void begin_object(std::size_t n) { head(5, n); st_.push_back({true, false, n, 0}); }
    void begin_object() { o_.push_back(0xbf); st_.push_back({true, true, 0, 0}); }
    void end_object() { close(true); }
    void key(std::string_view k) { string_value(k); }
};
}
}
