// Independent decoders and encoders of the five wire formats, written from the format
// specifications (ZERA.md, the MessagePack spec, RFC 8949, RFC 8259), not from zerialize.
// Decoders throw Bad. Encoders pick any conforming encoding at random.
#pragma once
#include "model.hpp"
#include <charconv>
#include <msgpack.h>
#include <flatbuffers/flexbuffers.h>

namespace vz::ref {

struct Bad : std::runtime_error { using std::runtime_error::runtime_error; };
inline void need(bool c, const std::string& m) { if (!c) throw Bad(m); }
using Bytes = std::vector<uint8_t>;

// ================================================================== ZERA
struct ZeraInfo { size_t payloads = 0, inline_strings = 0, arena_strings = 0, blobs = 0, padding = 0; };

class ZeraDecoder {
    std::span<const uint8_t> m; size_t env_size = 0, arena = 0, threshold;
    std::vector<std::pair<size_t, size_t>> env_used, arena_used;
    uint64_t le(size_t at, size_t n) const { need(at + n <= m.size(), "field past the end"); uint64_t v = 0; for (size_t i = n; i-- > 0;) v = v << 8 | m[at + i]; return v; }
    size_t env(size_t ofs, size_t n, const char* what) { need(ofs <= env_size && n <= env_size - ofs, fmt("%s at envelope offset %zu+%zu outside the envelope of %zu", what, ofs, n, env_size)); return 20 + ofs; }
public:
    ZeraInfo info; bool strict;
    explicit ZeraDecoder(std::span<const uint8_t> b, size_t thr = 12, bool strict_ = true) : m(b), threshold(thr), strict(strict_) {}
    Val decode() {
        need(m.size() >= 20, "shorter than its header");
        need(le(0, 4) == 0x564E455A, "magic"); need(le(4, 2) == 1, "version"); need(le(6, 2) == 1, "flags");
        size_t root = le(8, 4); env_size = le(12, 4); arena = le(16, 4);
        need(arena % 16 == 0, "arena_ofs not a multiple of 16");
        need(env_size <= m.size() && arena <= m.size() && arena >= 20 + env_size, "arena_ofs / env_size outside the message");
        if (strict) need(arena - (20 + env_size) < 16, "more padding than alignment needs");
        for (size_t i = 20 + env_size; i < arena; ++i) { need(m[i] == 0, "padding between envelope and arena is not zero"); ++info.padding; }
        Val v = value(env(root, 16, "root"));
        env_used.push_back({root, 16});
        if (strict) {
            disjoint(env_used, "envelope payloads overlap"); disjoint(arena_used, "arena payloads overlap");
            size_t at = 0; for (auto [o, n] : arena_used) { for (; at < o; ++at) need(m[arena + at] == 0, "arena padding is not zero"); at = std::max(at, o + n); }
            need(arena + at == m.size(), "bytes after the last arena payload");
        }
        return v;
    }
private:
    static void disjoint(std::vector<std::pair<size_t, size_t>>& u, const char* msg) { std::sort(u.begin(), u.end()); size_t end = 0; for (auto [o, n] : u) { need(!n || o >= end, msg); if (n) end = o + n; } }
    void unused_zero(size_t from, size_t to, const char* what) { if (strict) for (size_t i = from; i < to; ++i) need(m[i] == 0, std::string("unused bytes of a ") + what + " reference are not zero"); }
    Val value(size_t p) {
        uint8_t tag = m[p], fl = m[p + 1]; uint64_t aux = le(p + 2, 2), a = le(p + 4, 4), b = le(p + 8, 4), c = le(p + 12, 4);
        need(tag == 4 ? fl <= 1 : fl == 0, "flags of a value reference");
        switch (tag) {
            case 0: unused_zero(p + 2, p + 16, "null"); return Val::null();
            case 1: need(aux <= 1, "bool aux"); unused_zero(p + 4, p + 16, "bool"); return Val::boolean(aux == 1);
            case 2: unused_zero(p + 2, p + 4, "int"); unused_zero(p + 12, p + 16, "int"); return Val::integer(int64_t(a | b << 32));
            case 8: unused_zero(p + 2, p + 4, "uint"); unused_zero(p + 12, p + 16, "uint"); return Val::uinteger(a | b << 32);
            case 3: unused_zero(p + 2, p + 4, "float"); unused_zero(p + 12, p + 16, "float"); return Val::dbl(std::bit_cast<double>(a | b << 32));
            case 4: {
                if (fl) { need(aux <= 12, "inline length"); if (strict) need(aux <= threshold, "string over the threshold stored inline"); unused_zero(p + 4 + aux, p + 16, "string"); ++info.inline_strings; return Val::str(std::string(reinterpret_cast<const char*>(&m[p + 4]), aux)); }
                need(a <= m.size() - arena && b <= m.size() - arena - a, "string outside the arena");
                if (strict) need(b > threshold, "short string stored in the arena"); unused_zero(p + 12, p + 16, "string");
                arena_used.push_back({a, b}); ++info.arena_strings;
                return Val::str(std::string(reinterpret_cast<const char*>(m.data() + arena + a), b));
            }
            case 5: {
                size_t q = env(a, 4, "array"), n = le(q, 4); env(a, 4 + 16 * n, "array"); env_used.push_back({a, 4 + 16 * n}); ++info.payloads; unused_zero(p + 8, p + 16, "array");
                Val v = Val::arr(); v.a.reserve(n); for (size_t i = 0; i < n; ++i) v.a.push_back(value(q + 4 + 16 * i)); return v;
            }
            case 6: {
                size_t q = env(a, 4, "object"), n = le(q, 4), o = a + 4; unused_zero(p + 8, p + 16, "object"); Val v = Val::map();
                for (size_t i = 0; i < n; ++i) {
                    size_t e = env(o, 4, "entry"), k = le(e, 2); need(le(e + 2, 2) == 0, "reserved field of a map entry is not zero"); env(o, 4 + k + 16, "entry");
                    v.m.emplace_back(std::string(reinterpret_cast<const char*>(m.data() + e + 4), k), value(e + 4 + k)); o += 4 + k + 16;
                }
                env_used.push_back({a, o - a}); ++info.payloads; return v;
            }
            case 7: {
                need(aux == 2, "typed array that is not u8"); size_t q = env(c, 12, "shape"); need(le(q, 4) == 1, "blob rank"); need(le(q + 4, 8) == b, "blob shape"); env_used.push_back({c, 12});
                need(a <= m.size() - arena && b <= m.size() - arena - a, "blob outside the arena"); if (strict) need((arena + a) % 16 == 0, "blob payload not at a multiple of 16"); arena_used.push_back({a, b}); ++info.blobs;
                return Val::blob(std::string(reinterpret_cast<const char*>(m.data() + arena + a), b));
            }
            default: throw Bad(fmt("unknown tag %u", tag));
        }
    }
};

// Any conforming envelope: payloads in any order with gaps, strings anywhere in the arena,
// shared payloads, root anywhere.
class ZeraEncoder {
    Rng& r;
    struct Payload { Bytes b; std::vector<std::pair<size_t, size_t>> fix; size_t at = 0; }; // fix: field offset -> payload index
    std::vector<Payload> pay; Bytes arena; std::map<std::string, size_t> shared_bytes; std::map<uint64_t, size_t> shared_shape;
    static void put(Bytes& b, uint64_t v, size_t n) { for (size_t i = 0; i < n; ++i) b.push_back(uint8_t(v >> (8 * i))); }
    static void set(Bytes& b, size_t at, uint64_t v, size_t n) { for (size_t i = 0; i < n; ++i) b[at + i] = uint8_t(v >> (8 * i)); }
    size_t place(const std::string& s, size_t align) {
        auto it = shared_bytes.find(s); if (it != shared_bytes.end() && it->second % align == 0 && r.chance(50)) return it->second;
        if (r.chance(30)) arena.resize(arena.size() + r.below(7), uint8_t(r.next()));
        while (arena.size() % align) arena.push_back(0);
        size_t at = arena.size(); arena.insert(arena.end(), s.begin(), s.end()); shared_bytes[s] = at; return at;
    }
    // Appends the 16 bytes of v to payload `w`.
    void value(const Val& v, size_t w) {
        auto vr = [&](uint8_t tag, uint8_t fl, uint16_t aux, uint64_t a, uint64_t b, uint64_t c) { Bytes& o = pay[w].b; o.push_back(tag); o.push_back(fl); put(o, aux, 2); put(o, a, 4); put(o, b, 4); put(o, c, 4); };
        switch (v.k) {
            case Val::Null: vr(0, 0, 0, 0, 0, 0); break;
            case Val::Bool: vr(1, 0, v.b, 0, 0, 0); break;
            case Val::Int: vr(2, 0, 0, uint32_t(uint64_t(v.i)), uint64_t(v.i) >> 32, 0); break;
            case Val::UInt: vr(8, 0, 0, uint32_t(v.u), v.u >> 32, 0); break;
            case Val::Dbl: vr(3, 0, 0, uint32_t(dbits(v.d)), dbits(v.d) >> 32, 0); break;
            case Val::Str:
                if (v.s.size() <= 12 && r.chance(50)) { vr(4, 1, uint16_t(v.s.size()), 0, 0, 0); Bytes& o = pay[w].b; std::copy(v.s.begin(), v.s.end(), o.end() - 12); }
                else { size_t at = place(v.s, r.of<size_t>({1, 1, 2, 16})); vr(4, 0, 0, at, v.s.size(), 0); }
                break;
            case Val::Blob: {
                size_t at = place(v.s, r.of<size_t>({1, 16, 16})); size_t sh; auto it = shared_shape.find(v.s.size());
                if (it != shared_shape.end() && r.chance(50)) sh = it->second; else { sh = pay.size(); pay.emplace_back(); put(pay[sh].b, 1, 4); put(pay[sh].b, v.s.size(), 8); shared_shape[v.s.size()] = sh; }
                vr(7, 0, 2, at, v.s.size(), 0); pay[w].fix.push_back({pay[w].b.size() - 4, sh}); break;
            }
            case Val::Arr: {
                size_t n = pay.size(); pay.emplace_back(); vr(5, 0, 0, 0, 0, 0); pay[w].fix.push_back({pay[w].b.size() - 12, n});
                put(pay[n].b, v.a.size(), 4); for (auto& e : v.a) value(e, n); break;
            }
            case Val::Map: {
                size_t n = pay.size(); pay.emplace_back(); vr(6, 0, 0, 0, 0, 0); pay[w].fix.push_back({pay[w].b.size() - 12, n});
                put(pay[n].b, v.m.size(), 4); for (auto& [k, e] : v.m) { put(pay[n].b, k.size(), 2); put(pay[n].b, 0, 2); pay[n].b.insert(pay[n].b.end(), k.begin(), k.end()); value(e, n); } break;
            }
        }
    }
public:
    explicit ZeraEncoder(Rng& rng) : r(rng) {}
    Bytes encode(const Val& v) {
        pay.emplace_back(); value(v, 0);
        std::vector<size_t> order(pay.size()); for (size_t i = 0; i < order.size(); ++i) order[i] = i;
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
        size_t env = 0; for (size_t i : order) { if (r.chance(25)) env += r.below(9); pay[i].at = env; env += pay[i].b.size(); }
        if (r.chance(25)) env += r.below(40);
        Bytes out; put(out, 0x564E455A, 4); put(out, 1, 2); put(out, 1, 2); put(out, pay[0].at, 4); put(out, env, 4);
        size_t ar = (20 + env + 15) / 16 * 16; if (r.chance(30)) ar += 16 * r.below(5);
        put(out, ar, 4); out.resize(ar, 0);
        for (auto& p : pay) { for (auto [f, t] : p.fix) set(p.b, f, pay[t].at, 4); std::copy(p.b.begin(), p.b.end(), out.begin() + long(20 + p.at)); }
        if (r.chance(25)) arena.resize(arena.size() + r.below(30), 0);
        out.insert(out.end(), arena.begin(), arena.end());
        return out;
    }
};

// ================================================================== big-endian helpers
inline void be(Bytes& b, uint64_t v, size_t n) { for (size_t i = n; i-- > 0;) b.push_back(uint8_t(v >> (8 * i))); }
struct In {
    std::span<const uint8_t> m; size_t p = 0;
    uint8_t u8() { need(p < m.size(), "truncated"); return m[p++]; }
    uint64_t get(size_t n) { need(n <= m.size() - p, "truncated"); uint64_t v = 0; while (n--) v = v << 8 | m[p++]; return v; }
    std::string bytes(uint64_t n) { need(n <= m.size() - p, "truncated payload"); std::string s(reinterpret_cast<const char*>(m.data() + p), n); p += n; return s; }
};
inline bool exact_float(double d, float& f) { if (std::isnan(d)) return false; if (std::isfinite(d) && std::fabs(d) > double(std::numeric_limits<float>::max())) return false; f = float(d); return dbits(double(f)) == dbits(d); }

// ================================================================== MessagePack
inline Val msgpack_item(In& in) {
    uint8_t t = in.u8();
    auto arr = [&](uint64_t n) { need(n <= in.m.size(), "array longer than the message"); Val v = Val::arr(); for (uint64_t i = 0; i < n; ++i) v.a.push_back(msgpack_item(in)); return v; };
    auto map = [&](uint64_t n) { need(n <= in.m.size(), "map longer than the message"); Val v = Val::map(); for (uint64_t i = 0; i < n; ++i) { Val k = msgpack_item(in); need(k.k == Val::Str, "map key is not a string"); Val e = msgpack_item(in); v.m.emplace_back(std::move(k.s), std::move(e)); } return v; };
    if (t < 0x80) return Val::uinteger(t);
    if (t < 0x90) return map(t & 15);
    if (t < 0xa0) return arr(t & 15);
    if (t < 0xc0) return Val::str(in.bytes(t & 31));
    if (t >= 0xe0) return Val::integer(int8_t(t));
    switch (t) {
        case 0xc0: return Val::null(); case 0xc2: return Val::boolean(false); case 0xc3: return Val::boolean(true);
        case 0xc4: return Val::blob(in.bytes(in.get(1))); case 0xc5: return Val::blob(in.bytes(in.get(2))); case 0xc6: return Val::blob(in.bytes(in.get(4)));
        case 0xca: return Val::dbl(std::bit_cast<float>(uint32_t(in.get(4)))); case 0xcb: return Val::dbl(std::bit_cast<double>(in.get(8)));
        case 0xcc: return Val::uinteger(in.get(1)); case 0xcd: return Val::uinteger(in.get(2)); case 0xce: return Val::uinteger(in.get(4)); case 0xcf: return Val::uinteger(in.get(8));
        case 0xd0: return Val::integer(int8_t(in.get(1))); case 0xd1: return Val::integer(int16_t(in.get(2))); case 0xd2: return Val::integer(int32_t(in.get(4))); case 0xd3: return Val::integer(int64_t(in.get(8)));
        case 0xd9: return Val::str(in.bytes(in.get(1))); case 0xda: return Val::str(in.bytes(in.get(2))); case 0xdb: return Val::str(in.bytes(in.get(4)));
        case 0xdc: return arr(in.get(2)); case 0xdd: return arr(in.get(4)); case 0xde: return map(in.get(2)); case 0xdf: return map(in.get(4));
        default: throw Bad(fmt("type byte %02x", t));
    }
}
// msgpack-c must agree that the bytes are exactly one object.
inline void msgpack_c_accepts(std::span<const uint8_t> b) {
    msgpack_unpacked u; msgpack_unpacked_init(&u); size_t off = 0;
    auto rc = msgpack_unpack_next(&u, reinterpret_cast<const char*>(b.data()), b.size(), &off);
    msgpack_unpacked_destroy(&u);
    need(rc == MSGPACK_UNPACK_SUCCESS, fmt("msgpack-c refuses the message (%d)", int(rc))); need(off == b.size(), "msgpack-c: trailing bytes");
}
inline void msgpack_put(Bytes& o, const Val& v, Rng& r) {
    auto len = [&](uint64_t n, uint64_t fix_max, uint8_t fix, int t8, int t16, int t32) { // one of the headers that can carry n
        std::vector<int> can; if (n <= fix_max) can.push_back(0); if (t8 && n < 256) can.push_back(1); if (t16 && n < 65536) can.push_back(2); can.push_back(4);
        switch (r.pick(can)) { case 0: o.push_back(uint8_t(fix | n)); break; case 1: o.push_back(uint8_t(t8)); be(o, n, 1); break; case 2: o.push_back(uint8_t(t16)); be(o, n, 2); break; default: o.push_back(uint8_t(t32)); be(o, n, 4); }
    };
    auto num = [&](int64_t i, uint64_t u, bool neg) {
        std::vector<uint8_t> can;
        if (!neg) { if (u < 128) can.push_back(0); if (u < 256) can.push_back(0xcc); if (u < 65536) can.push_back(0xcd); if (u < (1ull << 32)) can.push_back(0xce); can.push_back(0xcf); }
        else if (i >= -32) can.push_back(0);
        bool sfit = neg || u <= uint64_t(INT64_MAX); int64_t x = neg ? i : int64_t(u);
        if (sfit) { if (x >= -128 && x < 128) can.push_back(0xd0); if (x >= -32768 && x < 32768) can.push_back(0xd1); if (x >= INT32_MIN && x <= INT32_MAX) can.push_back(0xd2); can.push_back(0xd3); }
        uint8_t t = r.pick(can); uint64_t bits = neg ? uint64_t(i) : u;
        if (!t) { o.push_back(uint8_t(bits)); return; }
        o.push_back(t); be(o, bits, size_t(1) << (t >= 0xd0 ? t - 0xd0 : t - 0xcc));
    };
    switch (v.k) {
        case Val::Null: o.push_back(0xc0); break;
        case Val::Bool: o.push_back(v.b ? 0xc3 : 0xc2); break;
        case Val::Int: num(v.i, uint64_t(v.i), v.i < 0); break;
        case Val::UInt: num(0, v.u, false); break;
        case Val::Dbl: { float f; if (exact_float(v.d, f) && r.chance(60)) { o.push_back(0xca); be(o, std::bit_cast<uint32_t>(f), 4); } else { o.push_back(0xcb); be(o, dbits(v.d), 8); } break; }
        case Val::Str: len(v.s.size(), 31, 0xa0, 0xd9, 0xda, 0xdb); o.insert(o.end(), v.s.begin(), v.s.end()); break;
        case Val::Blob: len(v.s.size(), 0, 0xc4, 0xc4, 0xc5, 0xc6); if (o.back() == 0xc4 && v.s.empty()) o.push_back(0); o.insert(o.end(), v.s.begin(), v.s.end()); break;
        case Val::Arr: len(v.a.size(), 15, 0x90, 0, 0xdc, 0xdd); for (auto& e : v.a) msgpack_put(o, e, r); break;
        case Val::Map: len(v.m.size(), 15, 0x80, 0, 0xde, 0xdf); for (auto& [k, e] : v.m) { msgpack_put(o, Val::str(k), r); msgpack_put(o, e, r); } break;
    }
}

// ================================================================== CBOR (RFC 8949)
inline double half_to_double(uint16_t h) {
    int e = h >> 10 & 31; double f = h & 1023, v = e == 0 ? std::ldexp(f, -24) : e == 31 ? (f ? NAN : INFINITY) : std::ldexp(f + 1024, e - 25);
    return h & 0x8000 ? -v : v;
}
inline Val cbor_item(In& in, bool strict_utf8 = true) {
    uint8_t t = in.u8(); unsigned major = t >> 5, ai = t & 31; uint64_t n = ai; bool indef = false;
    if (major == 7) {
        switch (ai) { case 20: return Val::boolean(false); case 21: return Val::boolean(true); case 22: return Val::null();
            case 25: return Val::dbl(half_to_double(uint16_t(in.get(2)))); case 26: return Val::dbl(std::bit_cast<float>(uint32_t(in.get(4)))); case 27: return Val::dbl(std::bit_cast<double>(in.get(8))); }
        throw Bad(fmt("simple value %u", ai));
    }
    if (ai >= 24 && ai <= 27) n = in.get(size_t(1) << (ai - 24)); else if (ai == 31) indef = true; else need(ai < 24, "reserved additional information");
    auto more = [&](uint64_t i) { if (!indef) return i < n; need(in.p < in.m.size(), "truncated"); if (in.m[in.p] == 0xff) { ++in.p; return false; } return true; };
    switch (major) {
        case 0: need(!indef, "indefinite integer"); return Val::uinteger(n);
        case 1: need(!indef, "indefinite integer"); need(n <= uint64_t(INT64_MAX), "integer below INT64_MIN"); return Val::integer(-1 - int64_t(n));
        case 2: case 3: {
            std::string s;
            if (!indef) s = in.bytes(n); else while (more(0)) { need(in.m[in.p] >> 5 == major, "chunk of another type"); Val c = cbor_item(in, strict_utf8); s += c.s; }
            if (major == 3 && strict_utf8) need(valid_utf8(s), "text that is not UTF-8");
            return major == 2 ? Val::blob(s) : Val::str(s);
        }
        case 4: { Val v = Val::arr(); for (uint64_t i = 0; more(i); ++i) v.a.push_back(cbor_item(in, strict_utf8)); return v; }
        case 5: { Val v = Val::map(); for (uint64_t i = 0; more(i); ++i) { Val k = cbor_item(in, strict_utf8); need(k.k == Val::Str, "map key is not text"); Val e = cbor_item(in, strict_utf8); v.m.emplace_back(std::move(k.s), std::move(e)); } return v; }
        default: throw Bad("tag");
    }
}
struct CborStyle { bool chunk_strings = true, chunk_keys = true; };
inline void cbor_put(Bytes& o, const Val& v, Rng& r, const CborStyle& st) {
    auto head = [&](uint8_t major, uint64_t n) {
        std::vector<int> can; if (n < 24) can.push_back(-1); if (n < 256) can.push_back(0); if (n < 65536) can.push_back(1); if (n < (1ull << 32)) can.push_back(2); can.push_back(3);
        int w = r.chance(50) ? can.front() : r.pick(can);
        if (w < 0) o.push_back(uint8_t(major << 5 | n)); else { o.push_back(uint8_t(major << 5 | (24 + w))); be(o, n, size_t(1) << w); }
    };
    auto str = [&](uint8_t major, const std::string& s, bool chunk) {
        if (!chunk || !r.chance(30)) { head(major, s.size()); o.insert(o.end(), s.begin(), s.end()); return; }
        o.push_back(uint8_t(major << 5 | 31)); size_t p = 0;
        while (p < s.size() || r.chance(20)) { size_t k = std::min(s.size() - p, size_t(r.below(s.size() + 2))); if (major == 3) while (p + k < s.size() && (uint8_t(s[p + k]) & 0xc0) == 0x80) ++k; head(major, k); o.insert(o.end(), s.begin() + long(p), s.begin() + long(p + k)); p += k; }
        o.push_back(0xff);
    };
    switch (v.k) {
        case Val::Null: o.push_back(0xf6); break;
        case Val::Bool: o.push_back(v.b ? 0xf5 : 0xf4); break;
        case Val::Int: if (v.i < 0) head(1, uint64_t(-(v.i + 1))); else head(0, uint64_t(v.i)); break;
        case Val::UInt: head(0, v.u); break;
        case Val::Dbl: {
            float f; int w = int(r.below(3));
            if (w == 0 && !std::isnan(v.d)) {
                static const std::map<uint64_t, uint16_t>& halves = *[] { auto* m = new std::map<uint64_t, uint16_t>; for (unsigned h = 0; h < 65536; ++h) if ((h & 0x7fff) <= 0x7c00) m->emplace(dbits(half_to_double(uint16_t(h))), uint16_t(h)); return m; }();
                if (auto it = halves.find(dbits(v.d)); it != halves.end()) { o.push_back(0xf9); be(o, it->second, 2); return; }
            }
            if (w < 2 && exact_float(v.d, f)) { o.push_back(0xfa); be(o, std::bit_cast<uint32_t>(f), 4); } else { o.push_back(0xfb); be(o, dbits(v.d), 8); }
            break;
        }
        case Val::Str: str(3, v.s, st.chunk_strings); break;
        case Val::Blob: str(2, v.s, st.chunk_strings); break;
        case Val::Arr: { bool ind = r.chance(35); if (ind) o.push_back(0x9f); else head(4, v.a.size()); for (auto& e : v.a) cbor_put(o, e, r, st); if (ind) o.push_back(0xff); break; }
        case Val::Map: { bool ind = r.chance(35); if (ind) o.push_back(0xbf); else head(5, v.m.size()); for (auto& [k, e] : v.m) { str(3, k, st.chunk_keys); cbor_put(o, e, r, st); } if (ind) o.push_back(0xff); break; }
    }
}

// ================================================================== JSON (RFC 8259)
inline std::string b64(std::string_view s) {
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string o;
    for (size_t i = 0; i < s.size(); i += 3) { size_t n = std::min<size_t>(3, s.size() - i); unsigned w = unsigned(uint8_t(s[i])) << 16 | (n > 1 ? unsigned(uint8_t(s[i + 1])) << 8 : 0) | (n > 2 ? uint8_t(s[i + 2]) : 0); o += A[w >> 18]; o += A[w >> 12 & 63]; o += n > 1 ? A[w >> 6 & 63] : '='; o += n > 2 ? A[w & 63] : '='; }
    return o;
}
inline std::string unb64(std::string_view t) {
    std::string o; unsigned w = 0; int bits = 0; need(t.size() % 4 == 0, "base64 length");
    for (size_t i = 0; i < t.size(); ++i) { char c = t[i]; int x = c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
        if (c == '=') { need(i + 2 >= t.size() && (i + 1 == t.size() || t[i + 1] == '='), "base64 padding"); break; } need(x >= 0, "base64 character"); w = w << 6 | unsigned(x); bits += 6; if (bits >= 8) { bits -= 8; o += char(w >> bits); w &= (1u << bits) - 1; } }
    return o;
}
class JsonDecoder {
    std::string_view t; size_t p = 0;
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
    char peek() { need(p < t.size(), "truncated"); return t[p]; }
    void lit(std::string_view s) { need(t.substr(p, s.size()) == s, "literal"); p += s.size(); }
    unsigned hex4() { unsigned v = 0; for (int i = 0; i < 4; ++i) { char c = peek(); ++p; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; need(d >= 0, "hex digit"); v = v << 4 | unsigned(d); } return v; }
    static void put(std::string& o, unsigned c) { if (c < 0x80) o += char(c); else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); } else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); } }
    std::string str() {
        need(peek() == '"', "string"); ++p; std::string o;
        for (;;) {
            char c = peek(); ++p;
            if (c == '"') break;
            need(uint8_t(c) >= 0x20, "control character in a string");
            if (c != '\\') { o += c; continue; }
            char e = peek(); ++p;
            switch (e) {
                case '"': case '\\': case '/': o += e; break; case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
                case 'u': { unsigned x = hex4(); if (x >= 0xd800 && x < 0xdc00) { lit("\\u"); unsigned y = hex4(); need(y >= 0xdc00 && y < 0xe000, "surrogate"); x = 0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00); } else need(x < 0xdc00 || x >= 0xe000, "surrogate"); put(o, x); break; }
                default: throw Bad("escape");
            }
        }
        need(valid_utf8(o), "string that is not UTF-8");
        return o;
    }
    Val number() {
        size_t s = p; bool real = false;
        if (peek() == '-') ++p;
        need(p < t.size() && isdigit(uint8_t(t[p])), "number"); if (t[p] == '0') ++p; else while (p < t.size() && isdigit(uint8_t(t[p]))) ++p;
        if (p < t.size() && t[p] == '.') { real = true; ++p; need(p < t.size() && isdigit(uint8_t(t[p])), "fraction"); while (p < t.size() && isdigit(uint8_t(t[p]))) ++p; }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { real = true; ++p; if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; need(p < t.size() && isdigit(uint8_t(t[p])), "exponent"); while (p < t.size() && isdigit(uint8_t(t[p]))) ++p; }
        std::string_view n = t.substr(s, p - s);
        if (!real) { if (n[0] == '-') { int64_t i; auto [e, ec] = std::from_chars(n.data(), n.data() + n.size(), i); need(ec == std::errc(), "integer out of range"); return Val::integer(i); } uint64_t u; auto [e, ec] = std::from_chars(n.data(), n.data() + n.size(), u); need(ec == std::errc(), "integer out of range"); return Val::uinteger(u); }
        return Val::dbl(std::strtod(std::string(n).c_str(), nullptr));
    }
    Val value() {
        ws();
        switch (peek()) {
            case 'n': lit("null"); return Val::null(); case 't': lit("true"); return Val::boolean(true); case 'f': lit("false"); return Val::boolean(false);
            case '"': return Val::str(str());
            case '[': {
                ++p; Val v = Val::arr(); ws(); if (peek() == ']') { ++p; return v; }
                for (;;) { v.a.push_back(value()); ws(); char c = peek(); ++p; if (c == ']') break; need(c == ',', "array separator"); }
                if (v.a.size() == 3 && v.a[0].k == Val::Str && v.a[0].s == "~b" && v.a[1].k == Val::Str && v.a[2].k == Val::Str && v.a[2].s == "base64") return Val::blob(unb64(v.a[1].s));
                return v;
            }
            case '{': {
                ++p; Val v = Val::map(); ws(); if (peek() == '}') { ++p; return v; }
                for (;;) { ws(); std::string k = str(); ws(); need(peek() == ':', "colon"); ++p; v.m.emplace_back(std::move(k), value()); ws(); char c = peek(); ++p; if (c == '}') break; need(c == ',', "object separator"); }
                return v;
            }
            default: return number();
        }
    }
public:
    explicit JsonDecoder(std::string_view s) : t(s) {}
    Val decode() { Val v = value(); ws(); need(p == t.size(), "text after the value"); return v; }
};
class JsonEncoder {
    Rng& r; std::string o; unsigned style;
    void ws() { if (style == 0) return; while (r.chance(style == 1 ? 20 : 50)) o += r.of<char>({' ', '\t', '\n', '\r'}); }
    void str(std::string_view s) {
        o += '"';
        for (size_t i = 0; i < s.size();) {
            uint8_t c = uint8_t(s[i]); size_t k = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
            unsigned x = c < 0x80 ? c : c < 0xe0 ? c & 31 : c < 0xf0 ? c & 15 : c & 7; for (size_t j = 1; j < k; ++j) x = x << 6 | (uint8_t(s[i + j]) & 63);
            static const char* sh = "\"\\/\b\f\n\r\t"; static const char* ec = "\"\\/bfnrt"; const char* q = x && x < 0x80 ? std::strchr(sh, int(x)) : nullptr;
            if (q && (x != '/' ? r.chance(70) || false : r.chance(40))) { o += '\\'; o += ec[q - sh]; }
            else if (x < 0x20 || x == '"' || x == '\\' || r.chance(25)) {
                auto u = [&](unsigned v) { o += fmt(r.chance(50) ? "\\u%04x" : "\\u%04X", v); };
                if (x >= 0x10000) { u(0xd800 + ((x - 0x10000) >> 10)); u(0xdc00 + ((x - 0x10000) & 0x3ff)); } else u(x);
            } else o.append(s.substr(i, k));
            i += k;
        }
        o += '"';
    }
    void num(double d) {
        std::string s = fmt("%.17g", d);
        if (s.find_first_of(".eE") == std::string::npos) s += r.chance(50) ? ".0" : r.chance(50) ? "e0" : "E+00";
        else if (s.find('e') != std::string::npos && r.chance(40)) s[s.find('e')] = 'E';
        else if (s.find('.') != std::string::npos && s.find('e') == std::string::npos && r.chance(30)) s += "000";
        o += s;
    }
    void value(const Val& v) {
        ws();
        switch (v.k) {
            case Val::Null: o += "null"; break; case Val::Bool: o += v.b ? "true" : "false"; break;
            case Val::Int: o += fmt("%lld", (long long)v.i); break; case Val::UInt: o += fmt("%llu", (unsigned long long)v.u); break;
            case Val::Dbl: num(v.d); break; case Val::Str: str(v.s); break;
            case Val::Blob: o += "["; ws(); str("~b"); ws(); o += ","; ws(); str(b64(v.s)); ws(); o += ","; ws(); str("base64"); ws(); o += "]"; break;
            case Val::Arr: { o += "["; bool f = true; for (auto& e : v.a) { if (!f) o += ","; f = false; value(e); } ws(); o += "]"; break; }
            case Val::Map: { o += "{"; bool f = true; for (auto& [k, e] : v.m) { if (!f) o += ","; f = false; ws(); str(k); ws(); o += ":"; value(e); } ws(); o += "}"; break; }
        }
        ws();
    }
public:
    explicit JsonEncoder(Rng& rng) : r(rng), style(unsigned(rng.below(3))) {}
    std::string encode(const Val& v) { value(v); return std::move(o); }
};

// ================================================================== FlexBuffers, by the official library
inline Val flex_ref(const flexbuffers::Reference& f) {
    using namespace flexbuffers;
    if (f.IsNull()) return Val::null();
    if (f.IsBool()) return Val::boolean(f.AsBool());
    if (f.IsInt()) return Val::integer(f.AsInt64());
    if (f.IsUInt()) return Val::uinteger(f.AsUInt64());
    if (f.IsFloat()) return Val::dbl(f.AsDouble());
    if (f.IsString()) { auto s = f.AsString(); return Val::str(std::string(s.c_str(), s.length())); }
    if (f.IsBlob()) { auto b = f.AsBlob(); return Val::blob(std::string(reinterpret_cast<const char*>(b.data()), b.size())); }
    if (f.IsMap()) { auto m = f.AsMap(); auto k = m.Keys(); auto e = m.Values(); Val v = Val::map(); for (size_t i = 0; i < k.size(); ++i) v.m.emplace_back(k[i].AsKey(), flex_ref(e[i])); return v; }
    if (f.IsUntypedVector()) { auto a = f.AsVector(); Val v = Val::arr(); for (size_t i = 0; i < a.size(); ++i) v.a.push_back(flex_ref(a[i])); return v; }
    throw Bad("FlexBuffers type");
}
// As flex_ref, with typed vectors.
inline Val flex_any(const flexbuffers::Reference& f) {
    if (f.IsMap()) { auto m = f.AsMap(); auto k = m.Keys(); auto e = m.Values(); Val v = Val::map(); for (size_t i = 0; i < k.size(); ++i) v.m.emplace_back(k[i].AsKey(), flex_any(e[i])); return v; }
    if (f.IsTypedVector()) { auto a = f.AsTypedVector(); Val v = Val::arr(); for (size_t i = 0; i < a.size(); ++i) v.a.push_back(flex_any(a[i])); return v; }
    if (f.IsFixedTypedVector()) { auto a = f.AsFixedTypedVector(); Val v = Val::arr(); for (size_t i = 0; i < a.size(); ++i) v.a.push_back(flex_any(a[i])); return v; }
    if (f.IsUntypedVector()) { auto a = f.AsVector(); Val v = Val::arr(); for (size_t i = 0; i < a.size(); ++i) v.a.push_back(flex_any(a[i])); return v; }
    return flex_ref(f);
}
class FlexEncoder {
    Rng& r; flexbuffers::Builder b;
    static flexbuffers::BuilderFlag flags(Rng& r) { return r.of({flexbuffers::BUILDER_FLAG_NONE, flexbuffers::BUILDER_FLAG_SHARE_KEYS, flexbuffers::BUILDER_FLAG_SHARE_STRINGS, flexbuffers::BUILDER_FLAG_SHARE_KEYS_AND_STRINGS, flexbuffers::BUILDER_FLAG_SHARE_KEY_VECTORS, flexbuffers::BUILDER_FLAG_SHARE_ALL}); }
    size_t typed = 0;
    bool all(const Val& v, Val::K k) { if (v.a.empty()) return false; for (auto& e : v.a) if (e.k != k) return false; return true; }
    void value(const Val& v) {
        switch (v.k) {
            case Val::Null: b.Null(); break; case Val::Bool: b.Bool(v.b); break;
            case Val::Int: if (r.chance(25)) b.IndirectInt(v.i); else b.Int(v.i); break;
            case Val::UInt: if (r.chance(25)) b.IndirectUInt(v.u); else b.UInt(v.u); break;
            case Val::Dbl: { float f; if (exact_float(v.d, f) && r.chance(40)) { if (r.chance(50)) b.Float(f); else b.IndirectFloat(f); } else if (!exact_float(v.d, f) && !std::isnan(v.d) && r.chance(25)) b.IndirectDouble(v.d); /* the builder mishandles indirect doubles that fit a float */ else b.Double(v.d); break; }
            case Val::Str: b.String(v.s); break;
            case Val::Blob: b.Blob(reinterpret_cast<const uint8_t*>(v.s.data()), v.s.size()); break;
            case Val::Arr: {
                bool t = (all(v, Val::Int) || all(v, Val::UInt) || all(v, Val::Dbl) || all(v, Val::Bool)) && r.chance(70);
                bool fixed = t && v.a[0].k != Val::Bool && v.a.size() >= 2 && v.a.size() <= 4 && r.chance(50);
                size_t s = b.StartVector();
                for (auto& e : v.a) { if (t) { if (e.k == Val::Int) b.Int(e.i); else if (e.k == Val::UInt) b.UInt(e.u); else if (e.k == Val::Bool) b.Bool(e.b); else b.Double(e.d); } else value(e); }
                b.EndVector(s, t, fixed); typed += t; break;
            }
            case Val::Map: { size_t s = b.StartMap(); for (auto& [k, e] : v.m) { b.Key(k); value(e); } b.EndMap(s); break; }
        }
    }
public:
    explicit FlexEncoder(Rng& rng) : r(rng), b(64, flags(rng)) { if (r.chance(40)) b.ForceMinimumBitWidth(r.of({flexbuffers::BIT_WIDTH_8, flexbuffers::BIT_WIDTH_16, flexbuffers::BIT_WIDTH_32, flexbuffers::BIT_WIDTH_64})); }
    Bytes encode(const Val& v) { value(v); b.Finish(); return b.GetBuffer(); }
    size_t typed_vectors() const { return typed; }
};

} // namespace vz::ref
