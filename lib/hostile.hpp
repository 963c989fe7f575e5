// Hostile byte strings: mutations of valid messages and format-aware forgeries.
#pragma once
#include "proto.hpp"

namespace vz {

using Bytes = std::vector<uint8_t>;
inline Bytes bytes_of(const z::ZBuffer& b) { return Bytes(b.data(), b.data() + b.size()); }

inline uint64_t interesting(Rng& r) {
    static const uint64_t t[] = {0, 1, 2, 3, 4, 7, 8, 11, 12, 13, 15, 16, 17, 20, 24, 27, 31, 32, 36, 63, 64, 127, 128, 129, 254, 255, 256, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000,
        0x0fffffff, 0x10000000, 0x10000001, 0x1fffffff, 0x20000000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0xfffffff0, 0xfffffffe, 0xffffffff, 0x100000000ull,
        0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffff0ull, 0x0fffffffffffffffull, 0x1000000000000000ull};
    return t[r.below(std::size(t))];
}
inline void put(Bytes& b, size_t at, uint64_t v, int w, bool le) { for (int i = 0; i < w; ++i) if (at + size_t(i) < b.size()) b[at + size_t(i)] = uint8_t(v >> (8 * (le ? i : w - 1 - i))); }

inline void mutate(Bytes& b, Rng& r, bool le) {
    size_t k = 1 + r.below(r.chance(70) ? 2 : 6);
    for (size_t j = 0; j < k; ++j) {
        size_t n = b.size();
        size_t at = n ? (r.chance(35) ? r.below(std::min<size_t>(n, 40)) : r.below(n)) : 0;
        switch (r.below(13)) {
            case 0: if (n) b[at] ^= uint8_t(1u << r.below(8)); break;
            case 1: if (n) b[at] = uint8_t(r.next()); break;
            case 2: if (n) b[at] = uint8_t(interesting(r)); break;
            case 3: put(b, at, interesting(r), 2, le); break;
            case 4: put(b, at & ~size_t(r.chance(60) ? 3 : 0), interesting(r), 4, le); break;
            case 5: put(b, at & ~size_t(r.chance(60) ? 3 : 0), n + r.below(9) - 4, 4, le); break;
            case 6: put(b, at, interesting(r), 8, le); break;
            case 7: b.resize(at); break;                                                   // truncate
            case 8: if (n) b.resize(n - 1 - r.below(std::min<size_t>(n, 17))); break;      // cut a little off the end
            case 9: for (uint64_t i = r.below(20); i; --i) b.push_back(uint8_t(r.next())); break;
            case 10: if (n) { size_t to = r.below(n), len = r.below(std::min<size_t>(n - std::max(at, to), 40) + 1); std::memmove(b.data() + to, b.data() + at, len); } break; // copy a piece
            case 11: if (n) b.erase(b.begin() + long(at), b.begin() + long(std::min(n, at + 1 + r.below(8)))); break;
            case 12: { Bytes ins; for (uint64_t i = 1 + r.below(8); i; --i) ins.push_back(uint8_t(r.chance(50) ? interesting(r) : r.next())); b.insert(b.begin() + long(at), ins.begin(), ins.end()); break; }
        }
        // change a little-endian 32-bit field by a small amount: off-by-one lengths and offsets
        if (b.size() >= 4 && r.chance(25)) { size_t o = r.below(b.size() - 3); uint32_t v; std::memcpy(&v, b.data() + o, 4); v += uint32_t(r.below(9)) - 4; std::memcpy(b.data() + o, &v, 4); }
    }
}

// ---- Zera: an envelope of forged value references
inline Bytes forge_zera(Rng& r) {
    Bytes b; auto u16 = [&](uint64_t v) { b.push_back(uint8_t(v)); b.push_back(uint8_t(v >> 8)); };
    auto u32 = [&](uint64_t v) { u16(v); u16(v >> 16); };
    size_t env = 16 * (1 + r.below(14)) + r.below(r.chance(30) ? 16 : 1), arena = r.below(70);
    size_t aofs = (20 + env + 15) / 16 * 16; if (r.one_in(6)) aofs += 16 * r.below(3);
    auto ofs = [&]() -> uint64_t { // an envelope offset, usually plausible
        if (r.chance(12)) return interesting(r);
        if (r.chance(15)) return env - std::min<size_t>(env, r.below(21));
        return r.below(env + 1) & ~uint64_t(r.chance(50) ? 3 : 0);
    };
    auto alen = [&]() -> uint64_t { return r.chance(15) ? interesting(r) : r.chance(30) ? arena + r.below(5) - 2 : r.below(arena + 1); };
    u32(0x564E455A); u16(1); u16(1);
    u32(r.chance(85) ? 16 * r.below(env / 16) : ofs()); u32(r.chance(92) ? env : interesting(r)); u32(r.chance(92) ? aofs : interesting(r));
    while (b.size() < 20 + env) {
        switch (r.below(8)) {
            case 0: u32(r.chance(60) ? r.below(6) : interesting(r)); break; // a count
            case 1: { u16(r.chance(70) ? r.below(14) : interesting(r)); u16(0); for (uint64_t i = r.below(6); i; --i) b.push_back(uint8_t('a' + r.below(3))); break; } // a map entry's head
            case 2: u32(1); u32(alen()); u32(0); break; // a shape
            default: {
                unsigned tag = r.chance(92) ? unsigned(r.below(9)) : unsigned(r.next() & 0xff);
                if (r.chance(45)) tag = r.of<unsigned>({4, 5, 6, 7});
                bool inl = tag == 4 && r.chance(40);
                b.push_back(uint8_t(tag)); b.push_back(uint8_t(r.chance(90) ? inl : r.next()));
                u16(tag == 4 ? (inl ? r.below(16) : 0) : tag == 1 ? r.below(3) : tag == 7 ? (r.chance(80) ? 0 : r.below(16)) : 0);
                if (inl) { for (int i = 0; i < 12; ++i) b.push_back(uint8_t('A' + i)); }
                else if (tag == 5 || tag == 6) { u32(ofs()); u32(0); u32(0); }
                else { u32(alen()); u32(alen()); u32(ofs()); }
            }
        }
    }
    b.resize(20 + env); b.resize(aofs);
    for (size_t i = 0; i < arena; ++i) b.push_back(uint8_t('a' + i % 26));
    return b;
}

// One structure that ends at, just before or just past the end of an envelope which is also the end of the message.
inline Bytes forge_zera_edge(Rng& r) {
    size_t env = 12 + 16 * (r.chance(15) ? r.below(2) : 2 + r.below(5)), arena = r.chance(70) ? 0 : r.below(20); // 20 + env is a multiple of 16: no padding
    Bytes e(env, 0); auto near = [&](size_t need) -> size_t { size_t at = env - std::min(env, need) + (r.chance(50) ? 0 : r.below(20)); return r.chance(25) ? at - std::min<size_t>(at, r.below(6)) : at; };
    auto p16 = [&](size_t at, uint64_t v) { put(e, at, v, 2, true); }; auto p32 = [&](size_t at, uint64_t v) { put(e, at, v, 4, true); };
    auto vr = [&](size_t at, int tag, int fl, uint64_t aux, uint64_t a, uint64_t b, uint64_t c) { if (at < env) e[at] = uint8_t(tag); if (at + 1 < env) e[at + 1] = uint8_t(fl); p16(at + 2, aux); p32(at + 4, a); p32(at + 8, b); p32(at + 12, c); };
    for (auto& x : e) x = uint8_t(r.chance(70) ? 0 : r.next());
    size_t root = r.chance(80) || env < 16 ? 0 : 16;
    switch (r.below(6)) {
        case 0: root = r.chance(80) && env >= 16 ? env - 16 : r.chance(50) ? 0 : near(16); vr(root, 4, 1, r.range(0, 20), 0x44434241, 0x48474645, 0x4c4b4a49); break; // an inline string at the very end
        case 1: root = r.chance(80) && env >= 16 ? env - 16 : r.chance(50) ? 0 : near(16); vr(root, int(r.below(9)), int(r.below(3)), r.below(18), r.below(env + 4), r.below(24), r.below(env + 4)); break;
        case 2: { size_t at = near(12); vr(root, 7, 0, r.chance(80) ? 0 : r.below(12), r.below(arena + 1), r.below(arena + 2), at); p32(at, r.chance(75) ? 1 : r.below(5)); p32(at + 4, r.below(arena + 2)); p32(at + 8, r.chance(80) ? 0 : r.next()); break; } // a shape
        case 3: { size_t n = r.below(3), at = near(4 + 16 * n); vr(root, 5, 0, 0, at, 0, 0); p32(at, n + (r.chance(60) ? 0 : 1)); // an array, its last element an inline string or number
            for (size_t i = 0; i < n; ++i) vr(at + 4 + 16 * i, r.chance(60) ? 4 : 2, 1, r.range(0, 18), 0x44434241, 0x48474645, 0x4c4b4a49); break; }
        case 4: { size_t k = r.below(20), at = near(8 + k + 16); vr(root, 6, 0, 0, at, 0, 0); p32(at, r.chance(70) ? 1 : 2); p16(at + 4, k + (r.chance(70) ? 0 : r.below(20))); p16(at + 6, 0); for (size_t i = 0; i < k && at + 8 + i < env; ++i) e[at + 8 + i] = 'a'; vr(at + 8 + k, r.chance(60) ? 4 : 2, 1, r.range(0, 18), 0x44434241, 0x48474645, 0x4c4b4a49); break; } // a map
        default: { size_t at = near(4); bool map = r.chance(50); vr(root, map ? 6 : 5, 0, 0, at, 0, 0); p32(at, r.below(3)); if (map) { p16(at + 4, r.below(40)); } } // a container whose head touches the end
    }
    Bytes b; b.resize(20); put(b, 0, 0x564E455A, 4, true); put(b, 4, 1, 2, true); put(b, 6, 1, 2, true); put(b, 8, root, 4, true); put(b, 12, env, 4, true); put(b, 16, 20 + env, 4, true);
    b.insert(b.end(), e.begin(), e.end()); for (size_t i = 0; i < arena; ++i) b.push_back(uint8_t('a' + i % 26));
    return b;
}

// ---- MsgPack: items with headers that promise too much, deep nesting
inline void forge_msgpack_item(Bytes& b, Rng& r, int depth, size_t& budget) {
    auto be = [&](uint64_t v, int w) { for (int i = w - 1; i >= 0; --i) b.push_back(uint8_t(v >> (8 * i))); };
    if (budget) --budget;
    auto count = [&](size_t real) -> uint64_t { return r.chance(85) ? real : r.chance(50) ? real + r.below(4) : interesting(r); };
    unsigned k = unsigned(r.below(depth > 0 && budget ? 14 : 9));
    switch (k) {
        case 0: b.push_back(uint8_t(r.next())); break; // any byte at all
        case 1: b.push_back(uint8_t(r.of<int>({0xc0, 0xc1, 0xc2, 0xc3}))); break;
        case 2: { int t = r.of<int>({0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3}); b.push_back(uint8_t(t)); be(r.chance(50) ? interesting(r) : r.next(), 1 << (t & 3)); break; }
        case 3: { bool d = r.chance(50); b.push_back(d ? 0xcb : 0xca); be(r.next(), d ? 8 : 4); break; }
        case 4: { size_t n = r.below(20); b.push_back(uint8_t(0xa0 | (count(n) & 31))); for (size_t i = 0; i < n; ++i) b.push_back('s'); break; }
        case 5: { int w = int(r.below(3)); size_t n = r.below(12); b.push_back(uint8_t(0xd9 + w)); be(count(n), 1 << w); for (size_t i = 0; i < n; ++i) b.push_back('t'); break; }
        case 6: { int w = int(r.below(3)); size_t n = r.below(12); b.push_back(uint8_t(0xc4 + w)); be(count(n), 1 << w); for (size_t i = 0; i < n; ++i) b.push_back('u'); break; }
        case 7: { int w = int(r.below(3)); size_t n = r.below(12); b.push_back(uint8_t(0xc7 + w)); be(count(n), 1 << w); b.push_back(5); for (size_t i = 0; i < n; ++i) b.push_back('v'); break; }
        case 8: { int w = int(r.below(5)); b.push_back(uint8_t(0xd4 + w)); b.push_back(1); for (int i = 0; i < (1 << w); ++i) b.push_back('w'); break; }
        case 9: case 10: case 11: { size_t n = r.below(5); int f = int(r.below(3)); if (f == 0) b.push_back(uint8_t(0x90 | (count(n) & 15))); else { b.push_back(uint8_t(f == 1 ? 0xdc : 0xdd)); be(count(n), f == 1 ? 2 : 4); }
            for (size_t i = 0; i < n; ++i) forge_msgpack_item(b, r, depth - 1, budget); break; }
        default: { size_t n = r.below(4); int f = int(r.below(3)); if (f == 0) b.push_back(uint8_t(0x80 | (count(n) & 15))); else { b.push_back(uint8_t(f == 1 ? 0xde : 0xdf)); be(count(n), f == 1 ? 2 : 4); }
            for (size_t i = 0; i < n; ++i) { if (r.chance(85)) { b.push_back(0xa1); b.push_back(uint8_t('a' + r.below(4))); } else forge_msgpack_item(b, r, 0, budget); forge_msgpack_item(b, r, depth - 1, budget); } break; }
    }
}
inline void forge_cbor_item(Bytes& b, Rng& r, int depth, size_t& budget) {
    auto be = [&](uint64_t v, int w) { for (int i = w - 1; i >= 0; --i) b.push_back(uint8_t(v >> (8 * i))); };
    if (budget) --budget;
    auto head = [&](int major, uint64_t v) {
        if (r.chance(10)) v = interesting(r);
        int w = v < 24 && r.chance(60) ? -1 : v <= 0xff ? 0 : v <= 0xffff ? 1 : v <= 0xffffffff ? 2 : 3;
        if (w >= 0 && r.chance(30)) w = int(r.range(uint64_t(w), 3));
        if (w < 0) b.push_back(uint8_t(major << 5 | int(v))); else { b.push_back(uint8_t(major << 5 | (24 + w))); be(v, 1 << w); }
    };
    switch (r.below(depth > 0 && budget ? 15 : 9)) {
        case 0: b.push_back(uint8_t(r.next())); break;
        case 1: head(int(r.below(2)), r.chance(50) ? interesting(r) : r.bits()); break;
        case 2: { size_t n = r.below(20); head(3, n); for (size_t i = 0; i < n; ++i) b.push_back('s'); break; }
        case 3: { size_t n = r.below(20); head(2, n); for (size_t i = 0; i < n; ++i) b.push_back('b'); break; }
        case 4: b.push_back(uint8_t(0xe0 | r.below(32))); if (r.chance(50)) be(r.next(), int(r.below(9))); break;
        case 5: { int w = int(r.below(3)); b.push_back(uint8_t(0xf9 + w)); be(r.next(), 2 << w); break; }
        case 6: { int m = r.chance(50) ? 2 : 3; b.push_back(uint8_t(m << 5 | 31)); for (uint64_t i = r.below(4); i; --i) { size_t n = r.below(5); head(r.chance(90) ? m : 5 - m, n); for (size_t j = 0; j < n; ++j) b.push_back('c'); } if (r.chance(85)) b.push_back(0xff); break; }
        case 7: b.push_back(uint8_t(r.of<int>({0xf4, 0xf5, 0xf6, 0xf7, 0xff, 0xf8, 0x1c, 0x1f, 0x3f, 0x5c, 0xdf}))); break;
        case 8: head(6, r.of<uint64_t>({0, 1, 2, 21, 32, 64, 69, 55799, 1040})); forge_cbor_item(b, r, depth - 1, budget); break;
        case 9: case 10: case 11: { size_t n = r.below(5); bool ind = r.chance(30); if (ind) b.push_back(0x9f); else head(4, n); for (size_t i = 0; i < n; ++i) forge_cbor_item(b, r, depth - 1, budget); if (ind && r.chance(85)) b.push_back(0xff); break; }
        default: { size_t n = r.below(4); bool ind = r.chance(30); if (ind) b.push_back(0xbf); else head(5, n);
            for (size_t i = 0; i < n; ++i) { if (r.chance(80)) { b.push_back(0x61); b.push_back(uint8_t('a' + r.below(4))); } else forge_cbor_item(b, r, 0, budget); if (!ind || r.chance(95)) forge_cbor_item(b, r, depth - 1, budget); } if (ind && r.chance(85)) b.push_back(0xff); break; }
    }
}
inline void forge_json(std::string& s, Rng& r, int depth, size_t& budget) {
    if (budget) --budget;
    static const char* junk[] = {"nul", "tru", "falsee", "-", "+1", "01", "1.", ".5", "1e", "1e+", "1e400", "-1e400", "NaN", "Infinity", "\"", "\"\\", "\"\\u", "\"\\u12", "\"\\ud800\"", "\"\\udc00x\"", "\"\\ud83d\\ude00\"", "\"\\x\"", "\"\n\"", "[", "{", "]", "}", ",", ":", "{\"a\"", "{\"a\":}", "{a:1}", "[1,]", "[,1]", "{\"a\":1,}", "//x", "/*", "\xef\xbb\xbf", "\xff", "\"\xc0\x80\"", "\"\xed\xa0\x80\"", "", " ", "\t\r\n",
        "99999999999999999999", "-9223372036854775809", "18446744073709551616", "[\"~b\",\"AA==\",\"base64\"]", "[\"~b\",\"A\",\"base64\"]", "[\"~b\",\"!!\",\"base64\"]", "[\"~b\",1,\"base64\"]", "[\"~b\",\"====\",\"base64\"]", "[\"~b\",\"AA=A\",\"base64\"]", "[\"~b\",\"\",\"base64\"]", "[\"~b\",\"QUJD\\u0000\",\"base64\"]"};
    switch (r.below(depth > 0 && budget ? 10 : 6)) {
        case 0: if (r.chance(30)) { s += junk[r.below(std::size(junk))]; break; } [[fallthrough]];
        case 1: s += fmt("%lld", (long long)Gen::edge_int(r)); break;
        case 2: s += fmt(r.chance(50) ? "%.17g" : "%.3e", Gen::edge_double(r, r.chance(95))); break;
        case 3: { s += '"'; for (uint64_t i = r.below(8); i; --i) { if (r.chance(15)) s += r.of<const char*>({"\\n", "\\u0041", "\\u0000", "\\\"", "\\/", "\\ud83d\\ude00", "\xc3\xa9", "\\b"}); else s += char('a' + r.below(26)); } s += '"'; break; }
        case 4: s += r.of<const char*>({"null", "true", "false", "[]", "{}", "\"\""}); break;
        case 5: s += junk[r.below(std::size(junk))]; break;
        case 6: case 7: { s += '['; for (uint64_t i = r.below(5); i; --i) { forge_json(s, r, depth - 1, budget); if (i > 1 || r.one_in(20)) s += ','; } s += ']'; break; }
        default: { s += '{'; for (uint64_t i = r.below(4); i; --i) { s += fmt("\"%c\":", 'a' + int(r.below(4))); forge_json(s, r, depth - 1, budget); if (i > 1 || r.one_in(20)) s += ','; } s += '}'; }
    }
}

// Nested or promising far more than is there.
template<class P> Bytes extreme(Rng& r, size_t deep) {
    std::string_view n = Tr<P>::name;
    Bytes b;
    if (n == "MsgPack") {
        switch (r.below(6)) {
            case 0: b.assign(deep, 0x91); b.push_back(r.chance(50) ? 0xc0 : 0x91); break;
            case 1: for (size_t i = 0; i < deep / 3; ++i) { b.push_back(0x81); b.push_back(0xa1); b.push_back('a'); } b.push_back(1); break;
            case 2: for (size_t i = 0; i < deep / 5; ++i) { b.push_back(0xdd); for (int k = 0; k < 4; ++k) b.push_back(0xff); } break;
            case 3: b = {0xdd, 0xff, 0xff, 0xff, 0xff}; b.resize(5 + r.below(300), 0xc0); break;
            case 4: b = {0xdf, 0xff, 0xff, 0xff, uint8_t(r.next())}; for (uint64_t i = r.below(60); i; --i) { b.push_back(0xa1); b.push_back('a'); b.push_back(7); } break;
            default: b = {uint8_t(r.of<int>({0xdb, 0xc6, 0xc9, 0xda, 0xc5}))}; for (int k = 0; k < 4; ++k) b.push_back(0xff); b.resize(5 + r.below(64), 'x');
        }
    } else if (n == "Cbor") {
        switch (r.below(8)) {
            case 0: b.assign(deep, 0x81); b.push_back(0xf6); break;
            case 1: for (size_t i = 0; i < deep / 3; ++i) { b.push_back(0xa1); b.push_back(0x61); b.push_back('a'); } b.push_back(1); break;
            case 2: b.assign(deep, 0x9f); break;
            case 3: b.assign(deep, 0xc1); b.push_back(0x01); break; // tags on tags
            case 4: b = {0x9b}; for (int k = 0; k < 8; ++k) b.push_back(uint8_t(r.chance(70) ? 0xff : r.next())); b.resize(9 + r.below(200), 0xf6); break;
            case 5: b = {0xbb}; for (int k = 0; k < 8; ++k) b.push_back(uint8_t(r.chance(70) ? 0xff : r.next())); for (uint64_t i = r.below(60); i; --i) { b.push_back(0x61); b.push_back('a'); b.push_back(7); } break;
            case 6: b = {uint8_t(r.of<int>({0x5b, 0x7b}))}; for (int k = 0; k < 8; ++k) b.push_back(0xff); b.resize(9 + r.below(64), 'x'); break;
            default: b = {0x7f}; for (size_t i = 0; i < 400; ++i) { b.push_back(0x61); b.push_back('q'); } if (r.chance(50)) b.push_back(0xff);
        }
    } else if (n == "Json") {
        std::string s;
        switch (r.below(4)) {
            case 0: s.assign(deep, '['); if (r.chance(50)) s += std::string(deep, ']'); break;
            case 1: for (size_t i = 0; i < deep / 5; ++i) s += "{\"a\":"; s += '1'; if (r.chance(50)) s += std::string(deep / 5, '}'); break;
            case 2: s = "\"" + std::string(deep, '\\'); break;
            default: s = std::string(deep, r.of<char>({'1', '-', ' ', '"', '0'}));
        }
        b.assign(s.begin(), s.end());
    } else { // Zera: nested arrays or maps, cycles and shared children
        auto u32 = [&](size_t v) { for (int i = 0; i < 4; ++i) b.push_back(uint8_t(v >> (8 * i))); };
        auto vr = [&](int tag, size_t a) { b.push_back(uint8_t(tag)); b.push_back(0); b.push_back(0); b.push_back(0); u32(a); u32(0); u32(0); };
        size_t kind = r.below(5);
        size_t levels = kind == 0 ? deep / 25 : kind == 4 ? 40 : 3;
        size_t width = kind >= 3 ? 1 + r.below(3) : 1;
        size_t env = levels * (4 + 16 * width) + 16;
        size_t aofs = (20 + env + 15) / 16 * 16;
        for (uint8_t c : {0x5A, 0x45, 0x4E, 0x56, 1, 0, 1, 0}) b.push_back(c);
        u32(env - 16); u32(env); u32(aofs);
        for (size_t l = 0; l < levels; ++l) { u32(kind == 2 ? interesting(r) : width); for (size_t w = 0; w < width; ++w) {
            size_t self = l * (4 + 16 * width), next = (l + 1 < levels ? l + 1 : 0) * (4 + 16 * width);
            if (kind == 1) vr(5, self); else if (l + 1 == levels && kind != 3) vr(2, 7); else vr(5, next); } }
        vr(5, 0);
        b.resize(aofs);
    }
    return b;
}

template<class P> Bytes hostile(uint64_t i, Rng& r, size_t deep) {
    std::string_view n = Tr<P>::name;
    Bytes b;
    (void)i;
    switch (r.below(8)) {
        case 0: { size_t len = r.chance(50) ? r.below(12) : r.below(80); for (size_t k = 0; k < len; ++k) b.push_back(uint8_t(r.chance(30) ? interesting(r) : r.next())); return b; }
        case 1: if (r.one_in(12)) return extreme<P>(r, deep); [[fallthrough]];
        case 2: case 3: {
            size_t budget = 60;
            if (n == "Zera") b = r.chance(35) ? forge_zera_edge(r) : forge_zera(r);
            else if (n == "MsgPack") forge_msgpack_item(b, r, 6, budget);
            else if (n == "Cbor") forge_cbor_item(b, r, 6, budget);
            else { std::string s; forge_json(s, r, 6, budget); b.assign(s.begin(), s.end()); }
            if (r.chance(20)) mutate(b, r, n == "Zera");
            return b; }
        default: {
            GenOpts o = gen_opts<P>(); o.max_nodes = 25; o.max_bytes = 400; o.big_strings = false;
            Val v = r.one_in(10) ? special_shape(r, o, r.of<uint64_t>({3, 6, 8, 10}), 60, 20) : Gen(r, o).tree();
            b = bytes_of(write<P>(v, 0));
            mutate(b, r, n == "Zera");
            return b; }
    }
}

} // namespace vz
