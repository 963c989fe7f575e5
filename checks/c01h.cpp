// C01: values around 4 GiB, the width of the formats' length fields. Serialization throws, or
// the bytes read back as the same value. The payload is a sparse mapping of zero pages.
#include "../lib/proto.hpp"
#include <sys/mman.h>
using namespace vz;

static constexpr size_t G4 = size_t(1) << 32;
struct Sparse { // zero bytes, with a few marks
    char* p; size_t n;
    explicit Sparse(size_t len) : n(len) {
        p = static_cast<char*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (p == MAP_FAILED) harness_error("mmap");
        for (size_t at : marks()) p[at] = char('a' + at % 26);
    }
    ~Sparse() { munmap(p, n); }
    Sparse(const Sparse&) = delete; Sparse& operator=(const Sparse&) = delete;
    std::vector<size_t> marks() const { std::vector<size_t> m; for (size_t at : {size_t(0), n / 3, n / 2, n - 1, n - 5, size_t(1) << 31, G4 - 1, G4, size_t(4096)}) if (at < n) m.push_back(at); return m; }
    std::string_view sv() const { return {p, n}; }
    std::span<const std::byte> bytes() const { return {reinterpret_cast<const std::byte*>(p), n}; }
    template<class S> void expect(const S& got, const std::string& what) const {
        REQUIRE(std::size(got) == n, "length-altered", "%s: %zu bytes read back as %zu", what.c_str(), n, size_t(std::size(got)));
        for (size_t at : marks()) REQUIRE(char(std::data(got)[at]) == p[at], "content-altered", "%s: byte %zu of %zu differs", what.c_str(), at, n);
        for (size_t k = 1; k < 4000; ++k) { size_t at = n / 4000 * k + 7; REQUIRE(char(std::data(got)[at]) == p[at], "content-altered", "%s: byte %zu of %zu differs", what.c_str(), at, n); }
        CNT("huge values read back") += 1;
    }
};
template<class P, class W, class C> static void attempt(const std::string& what, W&& wr, C&& check) {
    note(what); z::ZBuffer out;
    try { typename P::RootSerializer rs; typename P::Serializer w(rs); wr(w); out = rs.finish(); } catch (const std::exception&) { CNT("huge values refused") += 1; return; }
    try { const typename P::Deserializer rd(out.buf()); check(rd); }
    catch (const std::exception& e) { fail("unreadable", what + fmt(": serialization returned %zu bytes that do not read back: ", out.size()) + e.what()); }
}
template<class P> static void huge(uint64_t k, Rng& r) {
    const std::string n = Tr<P>::name; const size_t len = G4 + r.of<size_t>({0, 1, 5, 12, 13, 40, 65536});
    switch (k) {
        case 0: { Sparse s(len); attempt<P>(n + fmt(" string of %zu bytes", len), [&](auto& w) { w.begin_array(2); w.string(s.sv()); w.int64(7); w.end_array(); }, [&](const auto& rd) { auto e = rd[0]; s.expect(e.asStringView(), n + " string"); REQUIRE(rd[1].asInt64() == 7, "content-altered", "the value after it differs"); }); break; }
        case 1: { Sparse s(len); attempt<P>(n + fmt(" blob of %zu bytes", len), [&](auto& w) { w.begin_array(2); w.binary(s.bytes()); w.int64(7); w.end_array(); }, [&](const auto& rd) { auto e = rd[0]; auto b = e.asBlob(); s.expect(b, n + " blob"); REQUIRE(rd[1].asInt64() == 7, "content-altered", "the value after it differs"); }); break; }
        case 2: { Sparse s(len); attempt<P>(n + fmt(" key of %zu bytes", len), [&](auto& w) { w.begin_map(1); w.key(s.sv()); w.int64(7); w.end_map(); }, [&](const auto& rd) { auto ks = rd.mapKeys(); auto it = ks.begin(); REQUIRE(it != ks.end(), "length-altered", "the map is empty"); s.expect(*it, n + " key"); }); break; }
        default: break;
    }
}
static void one(uint64_t i, Rng& r) {
    covered(mix(i), true);
    if (i < 3) { huge<z::MsgPack>(i, r); return; }
    if (i < 6) { huge<z::Zera>(i - 3, r); return; }
    switch (i) {
        case 6: for (size_t c : {G4, G4 + 1, G4 + 16}) { // counts; nothing is allocated for them
            for (bool map : {false, true}) attempt<z::MsgPack>(fmt("MsgPack %s of %zu items", map ? "map" : "array", c), [&](auto& w) { if (map) w.begin_map(c); else w.begin_array(c); },
                [&](const auto& rd) { (void)rd; fail("length-altered", fmt("MsgPack accepted a count of %zu", c)); }); } break;
        case 7: { size_t a = G4 / 2 + 4096 + r.below(1000); Sparse s(a); // two payloads that only together pass 4 GiB, and a string behind them
            attempt<z::Zera>(fmt("Zera blobs of twice %zu bytes", a), [&](auto& w) { w.begin_array(3); w.binary(s.bytes()); w.binary(s.bytes()); w.string("a string that lies behind both"); w.end_array(); },
                [&](const auto& rd) { for (size_t k : {0, 1}) { auto b = rd[k].asBlob(); s.expect(b, "Zera blob"); } REQUIRE(rd[2].asString() == "a string that lies behind both", "content-altered", "the string behind 4 GiB of blobs reads %s", show(rd[2].asString(), 40).c_str()); }); break; }
        // deeper
        case 8: { size_t a = G4 - 200; Sparse s(a); attempt<z::Zera>(fmt("Zera blob of %zu bytes", a), [&](auto& w) { w.begin_array(3); w.binary(s.bytes()); w.string("just below the limit of the arena"); w.binary(s.bytes().first(300)); w.end_array(); },
                [&](const auto& rd) { auto b = rd[0].asBlob(); s.expect(b, "Zera blob"); REQUIRE(rd[1].asString() == "just below the limit of the arena", "content-altered", "string near 4 GiB"); REQUIRE(rd[2].asBlob().size() == 300, "content-altered", "blob near 4 GiB"); }); break; }
        case 9: { size_t a = G4 - 1; Sparse s(a); attempt<z::MsgPack>(fmt("MsgPack blob of %zu bytes", a), [&](auto& w) { w.begin_array(2); w.binary(s.bytes()); w.int64(7); w.end_array(); }, [&](const auto& rd) { auto b = rd[0].asBlob(); s.expect(b, "MsgPack blob"); REQUIRE(rd[1].asInt64() == 7, "content-altered", "the value behind it"); }); break; }
        default: huge<z::Flex>((i - 10) % 2, r);
    }
}
int main(int c, char** v) { return main_loop(c, v, "c01-huge", one); }
