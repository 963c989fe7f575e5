// Applies reader operations to a possibly corrupt message and checks what comes out.
#pragma once
#include "proto.hpp"

namespace vz {

struct Touch { // read every byte that a view claims to cover
    uint64_t h = 0;
    void bytes(const void* p, size_t n) { auto* b = static_cast<const volatile uint8_t*>(p); size_t step = n > 4096 ? n / 1024 : 1; for (size_t i = 0; i < n; i += step) h += b[i]; if (n) h += b[n - 1]; }
};

// A writer that only counts; it stops the walk after so many events.
struct EnoughEvents {};
struct CountingWriter {
    size_t left; Touch t; size_t events = 0; size_t depth = 0, max_depth = 0;
    explicit CountingWriter(size_t l) : left(l) {}
    void ev() { ++events; if (!left--) throw EnoughEvents{}; }
    void null() { ev(); } void boolean(bool) { ev(); } void int64(std::int64_t) { ev(); } void uint64(std::uint64_t) { ev(); } void double_(double) { ev(); }
    void string(std::string_view s) { ev(); t.bytes(s.data(), s.size()); }
    void binary(std::span<const std::byte> s) { ev(); t.bytes(s.data(), s.size()); }
    void key(std::string_view s) { ev(); t.bytes(s.data(), s.size()); }
    void begin_array(std::size_t) { ev(); max_depth = std::max(max_depth, ++depth); } void end_array() { ev(); --depth; }
    void begin_map(std::size_t) { ev(); max_depth = std::max(max_depth, ++depth); } void end_map() { ev(); --depth; }
};

template<class P> struct Walker {
    Rng& r; const uint8_t* base; size_t n; bool in_place; // views must lie in [base, base+n)
    size_t nodes = 24;
    uint64_t ok = 0, refused = 0; Touch t;

    // CBOR keys may be chunked; such a key is joined in the iterator.
    static constexpr bool keys_in_place = std::string_view(Tr<P>::name) != "Cbor";
    void view(const char* what, const void* p, size_t len, bool place = true) {
        if (!len) return;
        auto* b = static_cast<const uint8_t*>(p);
        if (in_place && place) REQUIRE(len <= n && b >= base && b <= base + (n - len), "view-outside", "%s: %s gives a view of %zu bytes at offset %td of a message of %zu bytes", Tr<P>::name, what, len, b - base, n);
        else REQUIRE(len <= 4 * n + 64, "view-outside", "%s: %s gives %zu bytes out of a message of %zu bytes", Tr<P>::name, what, len, n);
        t.bytes(p, len);
    }
    template<class F> bool op(const char* what, F&& f) {
        try { f(); ++ok; return true; }
        catch (const DeserializationError&) { ++refused; return false; }
        catch (const std::exception& e) { fail("wrong-exception", fmt("%s: %s threw something other than DeserializationError: %s", Tr<P>::name, what, e.what())); }
        catch (...) { fail("wrong-exception", fmt("%s: %s threw something that is not an exception type", Tr<P>::name, what)); }
    }
    template<class R> void walk(const R& rd, int depth) {
        if (!nodes) return; --nodes;
        bool k[9] = {};
        bool all = op("predicates", [&] { k[0] = rd.isNull(); k[1] = rd.isBool(); k[2] = rd.isInt(); k[3] = rd.isUInt(); k[4] = rd.isFloat(); k[5] = rd.isString(); k[6] = rd.isBlob(); k[7] = rd.isArray(); k[8] = rd.isMap(); });
        if (!all) { // one by one
            op("isNull", [&] { (void)rd.isNull(); }); op("isBool", [&] { (void)rd.isBool(); }); op("isInt", [&] { (void)rd.isInt(); }); op("isUInt", [&] { (void)rd.isUInt(); }); op("isFloat", [&] { (void)rd.isFloat(); });
            op("isString", [&] { (void)rd.isString(); }); op("isBlob", [&] { (void)rd.isBlob(); }); op("isArray", [&] { (void)rd.isArray(); }); op("isMap", [&] { (void)rd.isMap(); });
        }
        unsigned wild = unsigned(r.next()); // accessors that do not fit the kind are tried now and then
        auto want = [&](bool fits, unsigned bit) { return fits || (wild >> bit & 7) == 0; };
        bool num = k[2] || k[3];
        if (want(k[1], 0)) op("asBool", [&] { (void)rd.asBool(); });
        if (want(num, 1)) { op("asInt64", [&] { (void)rd.asInt64(); }); op("asInt8", [&] { (void)rd.asInt8(); }); op("asInt16", [&] { (void)rd.asInt16(); }); op("asInt32", [&] { (void)rd.asInt32(); }); }
        if (want(num, 2)) { op("asUInt64", [&] { (void)rd.asUInt64(); }); op("asUInt8", [&] { (void)rd.asUInt8(); }); op("asUInt16", [&] { (void)rd.asUInt16(); }); op("asUInt32", [&] { (void)rd.asUInt32(); }); }
        if (want(k[4], 3)) { op("asDouble", [&] { (void)rd.asDouble(); }); op("asFloat", [&] { (void)rd.asFloat(); }); }
        if (want(k[5], 4)) { op("asStringView", [&] { auto s = rd.asStringView(); view("asStringView", s.data(), s.size()); }); op("asString", [&] { auto s = rd.asString(); REQUIRE(s.size() <= 4 * n + 64, "view-outside", "%s: asString returned %zu bytes out of %zu", Tr<P>::name, s.size(), n); t.bytes(s.data(), s.size()); }); }
        if (want(k[6], 5)) op("asBlob", [&] { auto s = rd.asBlob(); view("asBlob", std::data(s), std::size(s)); });
        size_t size = 0;
        if (want(k[7], 6) || all == false) {
            op("arraySize", [&] { size = rd.arraySize(); });
            std::vector<size_t> idx{0, size ? size - 1 : 0, size, size_t(r.below(size + 2))};
            if (r.chance(30)) idx.insert(idx.end(), {size / 2, SIZE_MAX, size_t(1) << 32, (size_t(1) << 60) + 1, size_t(0x0fffffff), size_t(0x10000000), size_t(UINT32_MAX)});
            for (size_t i : idx) op("operator[](index)", [&] { const auto sub = rd[i]; if (depth > 0) walk(sub, depth - 1); });
        }
        if (want(k[8], 7) || all == false) {
            std::vector<std::string> keys;
            op("mapKeys", [&] {
                size_t c = 0;
                for (std::string_view key : rd.mapKeys()) {
                    view("mapKeys", key.data(), key.size(), keys_in_place);
                    if (keys.size() < 6 && key.size() < 200) keys.emplace_back(key);
                    ++c;
                    REQUIRE(c <= n + 1, "no-progress", "%s: key iteration yields more keys than the message has bytes", Tr<P>::name);
                    if (c > 3000) break;
                }
            });
            op("mapKeys twice", [&] { auto v = rd.mapKeys(); auto a = v.begin(); if (a != v.end()) { auto b = a++; auto s = *b; view("mapKeys", s.data(), s.size(), keys_in_place); } });
            keys.push_back(r.of<std::string>({"a", "", "b", "zz", std::string(1, '\0'), std::string(300, 'k')}));
            for (auto& key : keys) {
                op("contains", [&] { (void)rd.contains(key); });
                op("operator[](key)", [&] { const auto sub = rd[std::string_view(key)]; if (depth > 0) walk(sub, depth - 1); });
            }
        }
    }
};

} // namespace vz
