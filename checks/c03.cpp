// C03: corrupt or hostile bytes never cause undefined behaviour or hangs.
#include "../lib/hostile.hpp"
#include "../lib/guard.hpp"
#include "../lib/walk.hpp"
using namespace vz;
using P = zerialize::VZ_P;

template<class R> static void translate_it(const R& rd, Rng& r, size_t n) {
    // Sharing must not multiply: a few bytes of message cannot describe more than so many values.
    CountingWriter w(n <= 3000 ? 64 * n + 2000 : 2000);
    bool small = false;
    try { z::write_value(rd, w); small = w.events < 2000; CNT("hostile inputs fully walked by translation") += 1; }
    catch (const EnoughEvents&) { REQUIRE(n > 3000, "expansion", "%s: translating a message of %zu bytes was still going after %zu writer calls", Tr<P>::name, n, w.events); CNT("translation walks cut short by the event budget") += 1; }
    catch (const std::exception&) { CNT("translations refused") += 1; small = w.events < 500; }
    catch (...) { fail("wrong-exception", "translation threw something that is not an exception"); }
    REQUIRE(w.max_depth <= 1100, "depth", "%s: translation followed %zu levels of nesting", Tr<P>::name, w.max_depth);
    if (!small || n > 20000) return;
    try {
        switch (r.below(3)) {
            case 0: { auto d = z::translate<z::Zera>(rd); (void)d.isNull(); break; }
            case 1: { auto d = z::translate<z::MsgPack>(rd); (void)d.isNull(); break; }
            default: { auto d = z::translate<z::Flex>(rd); (void)d.isNull(); break; }
        }
        CNT("hostile inputs translated to another protocol") += 1;
    } catch (const std::exception&) {}
}

static Guard* const guard = new Guard;

// Messages around 4 GiB, where 32-bit sums of offsets and lengths wrap. Mapped sparsely.
template<class PP> static void giant(Rng& r, uint64_t which) {
    constexpr size_t G = size_t(1) << 32; using D = typename PP::Deserializer;
    auto op = [&](const char* what, auto&& f) { try { f(); CNT("operations that returned") += 1; } catch (const DeserializationError&) { CNT("operations that threw DeserializationError") += 1; } catch (const std::exception& e) { fail("wrong-exception", fmt("%s: %s threw %s", Tr<PP>::name, what, e.what())); } };
    std::span<const uint8_t> m;
    auto inside = [&](const char* what, const void* p, size_t len) { auto* b = static_cast<const uint8_t*>(p); if (len) REQUIRE(b >= m.data() && len <= m.size() && size_t(b - m.data()) <= m.size() - len, "view-outside", "%s: %s gives a view of %zu bytes at offset %td of %zu", Tr<PP>::name, what, len, b - m.data(), m.size()); Touch t; t.bytes(p, len); };
    if constexpr (std::is_same_v<PP, z::Zera>) {
        // an envelope size whose sum with the header size wraps, the root near the end of the message
        const uint32_t env = uint32_t(G - 1 - r.below(24)), root = uint32_t(env - 16 - (r.chance(70) ? 0 : r.below(40))), aofs = uint32_t(16 * r.below(5));
        const size_t n = G + (r.chance(70) ? 0 : r.below(64)); Bytes h; auto u32 = [&](uint32_t v) { for (int i = 0; i < 4; ++i) h.push_back(uint8_t(v >> (8 * i))); };
        u32(0x564E455A); u32(0x00010001); u32(root); u32(env); u32(aofs);
        Bytes vr(16, 0xff); vr[0] = uint8_t(r.of<unsigned>({2, 3, 4, 5, 6, 7, 8})); vr[1] = 0; vr[2] = vr[3] = 0; if (r.chance(50)) std::fill(vr.begin() + 4, vr.end(), uint8_t(0)); vr.resize(std::min<size_t>(16, n - std::min<size_t>(n, size_t(20) + root)));
        m = guard->place_sparse(n, {{0, h}, {size_t(20) + root, vr}}); if (m.empty()) return;
        note(fmt("Zera message of %zu bytes, env_size %u, root_ofs %u, arena_ofs %u", n, env, root, aofs));
    } else { // [bin of almost 4 GiB, 7], whole or cut short
        const uint32_t len = uint32_t(G - 1 - r.below(3)); Bytes h{0x92, uint8_t(r.chance(50) ? 0xc6 : 0xdb)}; for (int i = 3; i >= 0; --i) h.push_back(uint8_t(len >> (8 * i)));
        bool whole = which % 2 == 0; const size_t n = whole ? size_t(len) + 7 : size_t(r.chance(50) ? len + size_t(6) : r.below(uint64_t(len)) + 6);
        m = guard->place_sparse(n, {{0, h}, {size_t(len) + 6, {7}}}); if (m.empty()) return;
        note(fmt("MsgPack message of %zu bytes announcing %u", n, len));
    }
    op("construction", [&] {
        const D rd(m);
        op("kinds", [&] { (void)rd.isNull(); (void)rd.isBlob(); (void)rd.isString(); });
        op("asInt64", [&] { (void)rd.asInt64(); }); op("asUInt64", [&] { (void)rd.asUInt64(); }); op("asDouble", [&] { (void)rd.asDouble(); });
        op("asStringView", [&] { auto s = rd.asStringView(); inside("asStringView", s.data(), s.size()); }); op("asBlob", [&] { auto s = rd.asBlob(); inside("asBlob", std::data(s), std::size(s)); });
        op("mapKeys", [&] { int c = 0; for (std::string_view k : rd.mapKeys()) { inside("mapKeys", k.data(), k.size()); if (++c > 20) break; } }); if (which % 4 == 3) op("contains", [&] { (void)rd.contains("k"); });
        for (size_t i : {size_t(0), size_t(1), size_t(2), size_t(UINT32_MAX)}) op("operator[](index)", [&] {
            const auto e = rd[i]; (void)e.isNull(); op("asStringView", [&] { auto s = e.asStringView(); inside("asStringView", s.data(), s.size()); }); op("asBlob", [&] { auto s = e.asBlob(); inside("asBlob", std::data(s), std::size(s)); });
            if (std::is_same_v<PP, z::MsgPack> && i == 1 && which % 2 == 0) REQUIRE(e.asInt64() == 7, "giant", "the element behind a payload of almost 4 GiB reads as another value"); });
    });
    guard->release(); CNT("messages around 4 GiB") += 1; covered(mix(which) ^ r.next(), true);
}

static void check(const Bytes& b, Rng& r, unsigned how, size_t nodes) {
    std::span<const uint8_t> m = guard->place(b, how);
    note("message " + hex(m, 900));
    int ctor = int(r.below(uint64_t(Tr<P>::ctors)));
    const bool view_ctor = !Tr<P>::json && views<P>(ctor); // does this constructor look at the message in place?
    bool constructed = false;
    try {
        with_reader<P>(m, ctor, [&](const auto& rd) {
            constructed = true;
            Walker<P> w{r, m.data(), m.size(), view_ctor, nodes};
            w.walk(rd, 12);
            if (m.size() <= 50000) translate_it(rd, r, m.size()); // MsgPack skips over the nesting once per level
            CNT("operations that returned") += w.ok; CNT("operations that threw DeserializationError") += w.refused;
            return 0;
        });
        CNT("inputs accepted by the constructor") += 1;
    } catch (const DeserializationError&) { REQUIRE(!constructed, "wrong-exception", "exception escaped the walker"); CNT("inputs refused by the constructor") += 1; }
    catch (const std::exception& e) { fail("wrong-exception", fmt("%s: construction threw something other than DeserializationError: %s", Tr<P>::name, e.what())); }
    guard->release();
    covered(hash_bytes(b.data(), b.size()), b.size() > 1);
}

static void one(uint64_t i, Rng& r) {
    if (i < 128) { // every message of one and two bytes
        for (unsigned hi = unsigned(i) * 2; hi < unsigned(i) * 2 + 2; ++hi) {
            check({uint8_t(hi)}, r, 0, 4);
            for (unsigned lo = 0; lo < 256; ++lo) check({uint8_t(hi), uint8_t(lo)}, r, lo & 1, 4);
        }
        CNT("all one- and two-byte messages, by blocks") += 1;
        return;
    }
    if (i == 128) { check({}, r, 0, 3); check({}, r, 1, 3); return; }
    if (i < 192) { // every truncation of a valid message
        GenOpts o = gen_opts<P>(); o.max_nodes = 14; o.max_bytes = 120; o.big_strings = false;
        Bytes b = bytes_of(write<P>(Gen(r, o).tree(), 0));
        for (size_t n = 0; n < b.size() && n < 400; ++n) check(Bytes(b.begin(), b.begin() + long(n)), r, unsigned(r.below(3)), 8);
        CNT("messages truncated at every length") += 1;
        return;
    }
    if constexpr (std::is_same_v<P, z::Zera> || std::is_same_v<P, z::MsgPack>) if (i < 224) { giant<P>(r, i); return; }
    Bytes b = hostile<P>(i, r, r.one_in(8) ? (run().thorough ? 1000000 : 200000) : 20000);
    check(b, r, unsigned(r.below(4)), b.size() > 50000 ? 3 : b.size() > 5000 ? 8 : 24);
    if (r.one_in(60)) sample(hex(b, 60));
}
int main(int c, char** v) { return main_loop(c, v, "c03-" VZ_PNAME, one); }
