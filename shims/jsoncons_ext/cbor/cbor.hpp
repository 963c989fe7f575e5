// Stand-in for jsoncons' CBOR encoder, as documented: preferred (shortest) heads, floats that
// are exactly a binary32 are written as such, definite containers check their item count,
// text must be valid UTF-8, nesting is limited to 1024.
#pragma once
#include <cstdint>
#include <cstring>
#include <string_view>
#include <vector>
#include <jsoncons/json.hpp>

namespace jsoncons { namespace cbor {

template<class Container>
class basic_cbor_encoder_shim {
    Container& out_;
    struct Lvl { bool indef; uint64_t want, got; bool map; };
    std::vector<Lvl> st_;
    void byte(uint8_t b) { out_.push_back(b); }
    void head(uint8_t major, uint64_t v) {
        major = uint8_t(major << 5);
        if (v < 24) byte(uint8_t(major | v));
        else if (v <= 0xff) { byte(uint8_t(major | 24)); byte(uint8_t(v)); }
        else if (v <= 0xffff) { byte(uint8_t(major | 25)); be(v, 2); }
        else if (v <= 0xffffffffu) { byte(uint8_t(major | 26)); be(v, 4); }
        else { byte(uint8_t(major | 27)); be(v, 8); }
    }
    void be(uint64_t v, int n) { for (int i = n - 1; i >= 0; --i) byte(uint8_t(v >> (8 * i))); }
    void item() { if (!st_.empty()) st_.back().got++; }
    void open(Lvl l) { if (st_.size() >= 1024) throw ser_error("Data item nested too deeply"); st_.push_back(l); }
    void close() {
        if (st_.empty()) throw ser_error("unbalanced end");
        auto l = st_.back(); st_.pop_back();
        if (l.indef) byte(0xff);
        else { if (l.got < l.want) throw ser_error("Too few items were added"); if (l.got > l.want) throw ser_error("Too many items were added"); }
        item();
    }
    static void utf8(std::string_view s) {
        auto* p = reinterpret_cast<const unsigned char*>(s.data()); auto* e = p + s.size();
        while (p < e) {
            size_t k = 0;
            if (p[0] < 0x80) k = 1;
            else if (p[0] >= 0xC2 && p[0] <= 0xDF) k = 2;
            else if (p[0] >= 0xE0 && p[0] <= 0xEF) k = 3;
            else if (p[0] >= 0xF0 && p[0] <= 0xF4) k = 4;
            bool ok = k && size_t(e - p) >= k;
            for (size_t i = 1; ok && i < k; ++i) ok = (p[i] & 0xC0) == 0x80;
            if (ok && p[0] == 0xE0) ok = p[1] >= 0xA0;
            if (ok && p[0] == 0xED) ok = p[1] <= 0x9F;
            if (ok && p[0] == 0xF0) ok = p[1] >= 0x90;
            if (ok && p[0] == 0xF4) ok = p[1] <= 0x8F;
            if (!ok) throw ser_error("Illegal UTF-8 encoding in text string");
            p += k;
        }
    }
    void text(std::string_view s) { utf8(s); head(3, s.size()); out_.insert(out_.end(), s.begin(), s.end()); }
public:
    explicit basic_cbor_encoder_shim(Container& c) : out_(c) {}
    basic_cbor_encoder_shim(const basic_cbor_encoder_shim&) = delete;
    void flush() {}
    bool null_value() { byte(0xf6); item(); return true; }
    bool bool_value(bool b) { byte(b ? 0xf5 : 0xf4); item(); return true; }
    bool int64_value(int64_t v) { if (v >= 0) head(0, uint64_t(v)); else head(1, uint64_t(-1 - v)); item(); return true; }
    bool uint64_value(uint64_t v) { head(0, v); item(); return true; }
    bool double_value(double v) {
        float f = static_cast<float>(v);
        if (static_cast<double>(f) == v) { uint32_t b; std::memcpy(&b, &f, 4); byte(0xfa); be(b, 4); }
        else { uint64_t b; std::memcpy(&b, &v, 8); byte(0xfb); be(b, 8); }
        item(); return true;
    }
    bool string_value(std::string_view s) { text(s); item(); return true; }
    template<class B> bool byte_string_value(const B& b) {
        head(2, b.size());
        auto* p = reinterpret_cast<const uint8_t*>(b.data());
        out_.insert(out_.end(), p, p + b.size());
        item(); return true;
    }
    bool begin_array(size_t n) { open({false, n, 0, false}); head(4, n); return true; }
    bool begin_array() { open({true, 0, 0, false}); byte(0x9f); return true; }
    bool end_array() { close(); return true; }
    bool begin_object(size_t n) { open({false, n, 0, true}); head(5, n); return true; }
    bool begin_object() { open({true, 0, 0, true}); byte(0xbf); return true; }
    bool end_object() { close(); return true; }
    bool key(std::string_view k) { text(k); return true; }
};
using cbor_bytes_encoder = basic_cbor_encoder_shim<std::vector<uint8_t>>;

} } // namespace jsoncons::cbor
