// Reference model of a zerialize value, and the boundary-biased generator.
#pragma once
#include "vz.hpp"
#include <bit>
#include <limits>

namespace vz {

struct Val {
    enum K : uint8_t { Null, Bool, Int, UInt, Dbl, Str, Blob, Arr, Map } k = Null;
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s; // Str and Blob
    std::vector<Val> a;
    std::vector<std::pair<std::string, Val>> m;

    static Val null() { return {}; }
    static Val boolean(bool x) { Val v; v.k = Bool; v.b = x; return v; }
    static Val integer(int64_t x) { Val v; v.k = Int; v.i = x; return v; }
    static Val uinteger(uint64_t x) { Val v; v.k = UInt; v.u = x; return v; }
    static Val dbl(double x) { Val v; v.k = Dbl; v.d = x; return v; }
    static Val str(std::string x) { Val v; v.k = Str; v.s = std::move(x); return v; }
    static Val blob(std::string x) { Val v; v.k = Blob; v.s = std::move(x); return v; }
    static Val arr(std::vector<Val> x = {}) { Val v; v.k = Arr; v.a = std::move(x); return v; }
    static Val map(std::vector<std::pair<std::string, Val>> x = {}) { Val v; v.k = Map; v.m = std::move(x); return v; }
    const char* kname() const { static const char* n[] = {"null","bool","int","uint","double","string","blob","array","map"}; return n[k]; }
    std::span<const std::byte> blob_span() const { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }

    Val() = default;
    Val(const Val&) = default;
    Val(Val&&) = default;
    Val& operator=(const Val&) = default;
    Val& operator=(Val&&) = default;
    // iterative teardown is not needed: generated depth is bounded
};

inline uint64_t dbits(double d) { return std::bit_cast<uint64_t>(d); }

inline std::string text(const Val& v, size_t budget = 400) {
    switch (v.k) {
        case Val::Null: return "null";
        case Val::Bool: return v.b ? "true" : "false";
        case Val::Int: return fmt("%lldi", (long long)v.i);
        case Val::UInt: return fmt("%lluu", (unsigned long long)v.u);
        case Val::Dbl: return fmt("%.17gd", v.d);
        case Val::Str: return show(v.s, 24);
        case Val::Blob: return "blob" + show(v.s, 12);
        case Val::Arr: { std::string o = "["; for (auto& e : v.a) { if (o.size() > budget) { o += fmt("...(%zu)", v.a.size()); break; } if (o.size() > 1) o += ","; o += text(e, budget / 2); } return o + "]"; }
        case Val::Map: { std::string o = "{"; for (auto& [k, e] : v.m) { if (o.size() > budget) { o += fmt("...(%zu)", v.m.size()); break; } if (o.size() > 1) o += ","; o += show(k, 16) + ":" + text(e, budget / 2); } return o + "}"; }
    }
    return "?";
}

inline uint64_t digest(const Val& v, uint64_t h = 17) {
    h = mix(h ^ v.k);
    switch (v.k) {
        case Val::Null: return h;
        case Val::Bool: return mix(h ^ v.b);
        case Val::Int: return mix(h ^ uint64_t(v.i));
        case Val::UInt: return mix(h ^ v.u);
        case Val::Dbl: return mix(h ^ dbits(v.d));
        case Val::Str: case Val::Blob: return hash_str(v.s, h);
        case Val::Arr: for (auto& e : v.a) h = digest(e, h); return mix(h ^ v.a.size());
        case Val::Map: for (auto& [k, e] : v.m) { h = hash_str(k, h); h = digest(e, h); } return mix(h ^ v.m.size());
    }
    return h;
}

struct Stats { size_t nodes = 0, depth = 0, bytes = 0; unsigned kinds = 0; };
inline void stats(const Val& v, Stats& s, size_t d = 0) {
    ++s.nodes; s.depth = std::max(s.depth, d); s.kinds |= 1u << v.k; s.bytes += v.s.size();
    for (auto& e : v.a) stats(e, s, d + 1);
    for (auto& [k, e] : v.m) { s.bytes += k.size(); stats(e, s, d + 1); }
}
inline Stats stats(const Val& v) { Stats s; stats(v, s); return s; }

// Same value. `sign_free`: Int and UInt of the same number are the same.
// `set_maps`: maps are compared as sets of entries (they always are here).
inline bool same(const Val& x, const Val& y, bool sign_free, std::string* why = nullptr) {
    auto no = [&](const std::string& m) { if (why) *why = m; return false; };
    auto is_int = [](const Val& v) { return v.k == Val::Int || v.k == Val::UInt; };
    if (is_int(x) && is_int(y) && (sign_free || x.k == y.k)) {
        bool eq = x.k == Val::Int ? (y.k == Val::Int ? x.i == y.i : x.i >= 0 && uint64_t(x.i) == y.u)
                                  : (y.k == Val::UInt ? x.u == y.u : y.i >= 0 && uint64_t(y.i) == x.u);
        return eq || no("integer " + text(x) + " vs " + text(y));
    }
    if (x.k != y.k) return no(std::string("kind ") + x.kname() + " vs " + y.kname());
    switch (x.k) {
        case Val::Null: return true;
        case Val::Bool: return x.b == y.b || no("bool differs");
        case Val::Dbl: return dbits(x.d) == dbits(y.d) || no(fmt("double bits %016llx vs %016llx", (unsigned long long)dbits(x.d), (unsigned long long)dbits(y.d)));
        case Val::Str: case Val::Blob: return x.s == y.s || no("bytes " + show(x.s) + " vs " + show(y.s));
        case Val::Arr:
            if (x.a.size() != y.a.size()) return no(fmt("array size %zu vs %zu", x.a.size(), y.a.size()));
            for (size_t i = 0; i < x.a.size(); ++i) if (!same(x.a[i], y.a[i], sign_free, why)) { if (why) *why = fmt("[%zu] ", i) + *why; return false; }
            return true;
        case Val::Map: {
            if (x.m.size() != y.m.size()) return no(fmt("map size %zu vs %zu", x.m.size(), y.m.size()));
            std::map<std::string_view, const Val*> idx;
            for (auto& [k, e] : y.m) if (!idx.emplace(k, &e).second) return no("duplicate key " + show(k));
            for (auto& [k, e] : x.m) {
                auto it = idx.find(k);
                if (it == idx.end()) return no("missing key " + show(k));
                if (!same(e, *it->second, sign_free, why)) { if (why) *why = "." + show(k) + " " + *why; return false; }
            }
            return true;
        }
        default: return no("unreachable");
    }
}

inline bool valid_utf8(std::string_view s) {
    size_t i = 0, n = s.size();
    auto c = [&](size_t j) { return static_cast<unsigned char>(s[j]); };
    while (i < n) {
        unsigned char b = c(i);
        if (b < 0x80) { ++i; continue; }
        int k = b >= 0xc2 && b <= 0xdf ? 1 : (b & 0xf0) == 0xe0 ? 2 : b >= 0xf0 && b <= 0xf4 ? 3 : 0;
        if (!k || n - i <= size_t(k)) return false;
        for (int j = 1; j <= k; ++j) if ((c(i + size_t(j)) & 0xc0) != 0x80) return false;
        if (b == 0xe0 && c(i + 1) < 0xa0) return false;
        if (b == 0xed && c(i + 1) >= 0xa0) return false;
        if (b == 0xf0 && c(i + 1) < 0x90) return false;
        if (b == 0xf4 && c(i + 1) >= 0x90) return false;
        i += size_t(k) + 1;
    }
    return true;
}

// ------------------------------------------------------------------ generator
struct GenOpts {
    bool utf8 = false;        // strings and keys valid UTF-8
    bool finite = false;      // no NaN / infinity
    bool nul_keys = true;     // keys may contain NUL
    size_t max_nodes = 60, max_depth = 6, max_bytes = 20000;
    size_t max_key = 65535;
    bool big_strings = true;
    bool floats_via_text = false;
};

struct Gen {
    Rng& r; GenOpts o; size_t nodes, bytes; std::vector<std::string> pool;
    Gen(Rng& rng, GenOpts opts) : r(rng), o(opts), nodes(opts.max_nodes), bytes(opts.max_bytes) {}

    static int64_t edge_int(Rng& r) {
        static const int64_t base[] = {0, 1, -1, 31, 32, -31, -32, -33, 127, 128, -127, -128, -129, 255, 256, -255, -256, -257,
            32767, 32768, -32768, -32769, 65535, 65536, -65536, 2147483647ll, 2147483648ll, -2147483648ll, -2147483649ll,
            4294967295ll, 4294967296ll, -4294967296ll, 9007199254740991ll, 9007199254740992ll, 9007199254740993ll,
            INT64_MAX, INT64_MAX - 1, INT64_MIN, INT64_MIN + 1, 0x0102030405060708ll, -0x0102030405060708ll, 0x00000000ff000000ll, 0x0000ff0000000000ll};
        if (r.chance(45)) return base[r.below(std::size(base))];
        if (r.chance(40)) { unsigned b = unsigned(r.below(63)); int64_t v = int64_t(1ull << b); v += int64_t(r.below(3)) - 1; return r.chance(50) ? v : -v; }
        int64_t v = int64_t(r.bits()); return r.chance(50) ? v : int64_t(~uint64_t(v));
    }
    static uint64_t edge_uint(Rng& r) {
        static const uint64_t base[] = {0, 1, 23, 24, 31, 32, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647ull, 2147483648ull,
            4294967295ull, 4294967296ull, 9007199254740992ull, 9007199254740993ull, uint64_t(INT64_MAX), uint64_t(INT64_MAX) + 1, UINT64_MAX, UINT64_MAX - 1,
            0x0102030405060708ull, 0x8070605040302010ull, 0xff00000000000000ull};
        if (r.chance(45)) return base[r.below(std::size(base))];
        if (r.chance(40)) { unsigned b = unsigned(r.below(64)); return (1ull << b) + r.below(3) - 1; }
        return r.bits();
    }
    static double edge_double(Rng& r, bool finite) {
        static const double base[] = {0.0, -0.0, 1.0, -1.0, 0.5, 1.5, 0.1, 0.2, 0.30000000000000004, 1e-7, 123456789.125, 3.0, 100.0, 255.0, 256.0, 65536.0,
            2147483648.0, 4294967296.0, 9007199254740991.0, 9007199254740992.0, 9223372036854775807.0, 18446744073709551615.0, 1e22, 1e23, 1e300, -1e300,
            std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(),
            -std::numeric_limits<double>::denorm_min(), double(std::numeric_limits<float>::max()), double(std::numeric_limits<float>::min()), double(std::numeric_limits<float>::denorm_min()),
            65504.0, 6.103515625e-05, 5.960464477539063e-08, 16777216.0, 16777217.0, 3.4028235677973366e38, 3.4028234663852886e38, 1.401298464324817e-45, 7.006492321624085e-46,
            double(0.1f), 5e-324, 2.2250738585072011e-308, 4503599627370495.5};
        if (r.chance(45)) return base[r.below(std::size(base))];
        if (!finite && r.chance(25)) {
            static const uint64_t sp[] = {0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0xfff8000000000000ull, 0x7ff0000000000001ull, 0x7ff4000000000000ull,
                0xffffffffffffffffull, 0x7ff8dead0000beefull, 0x7ff80000ffffffffull, 0x7ffe000000000000ull};
            return std::bit_cast<double>(sp[r.below(std::size(sp))]);
        }
        if (r.chance(20)) return double(float(double(int64_t(r.bits())) / 3.0));
        if (r.chance(20)) return double(int64_t(r.below(2000)) - 1000) / double(1 << r.below(8));
        for (;;) { double d = std::bit_cast<double>(r.next()); if (!finite || std::isfinite(d)) return d; }
    }
    size_t len(bool key) {
        size_t n;
        unsigned c = unsigned(r.below(100));
        if (c < 55) n = r.below(15);
        else if (c < 88) n = r.of<size_t>({11, 12, 13, 14, 15, 16, 17, 22, 23, 24, 30, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129});
        else if (c < 97) n = r.of<size_t>({254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024});
        else if (c < 99) n = r.range(1025, 9000);
        else n = o.big_strings ? r.of<size_t>({32767, 32768, 65534, 65535, 65536, 65537}) : r.below(40);
        if (key) n = std::min(n, o.max_key);
        if (n > bytes) n = bytes ? std::min<size_t>(bytes, n % 13) : 0;
        return n;
    }
    void utf8_char(std::string& s, bool nul) {
        switch (r.below(8)) {
            case 0: s += char(nul ? r.below(0x20) : 1 + r.below(0x1f)); break;
            case 1: s += r.of<char>({'"', '\\', '/', '\x7f', '\'', ' ', '<'}); break;
            case 2: { unsigned c = unsigned(0x80 + r.below(0x780)); s += char(0xc0 | (c >> 6)); s += char(0x80 | (c & 63)); break; }
            case 3: { unsigned c = unsigned(r.chance(30) ? r.of<unsigned>({0x800, 0xffff, 0xfffd, 0xd7ff, 0xe000, 0x2028, 0x2029, 0xfeff}) : 0x800 + r.below(0xc000)); if (c >= 0xd800 && c < 0xe000) c = 0x20ac; s += char(0xe0 | (c >> 12)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); break; }
            case 4: { unsigned c = unsigned(r.chance(30) ? r.of<unsigned>({0x10000, 0x10ffff, 0x1f600}) : 0x10000 + r.below(0x100000)); s += char(0xf0 | (c >> 18)); s += char(0x80 | ((c >> 12) & 63)); s += char(0x80 | ((c >> 6) & 63)); s += char(0x80 | (c & 63)); break; }
            default: s += char('a' + r.below(26));
        }
    }
    std::string content(size_t n, bool utf8, bool nul) {
        std::string s;
        unsigned mode = unsigned(r.below(6));
        if (utf8) {
            if (mode < 2) { s.assign(n, char('a' + r.below(26))); return s; }
            if (mode == 2) { for (size_t i = 0; i < n; ++i) s += char(' ' + r.below(95)); return s; }
            while (s.size() < n) { size_t k = s.size(); utf8_char(s, nul); if (s.size() > n) { s.resize(k); s += 'z'; } }
            return s;
        }
        s.resize(n);
        if (mode == 0) { for (auto& c : s) c = char('a' + r.below(3)); }
        else if (mode == 1) { for (auto& c : s) c = char(0x80 + r.below(0x80)); }
        else if (mode == 2) { for (auto& c : s) c = char(' ' + r.below(95)); }
        else { for (size_t i = 0; i < n; ++i) s[i] = char(r.next()); if (mode == 3 && n) s[r.below(n)] = 0; if (mode == 4 && n) { s[n - 1] = 0; s[0] = char(0xff); } }
        if (!nul) for (auto& c : s) if (!c) c = 1;
        return s;
    }
    std::string str(bool key) {
        bool nul = key ? o.nul_keys : true;
        std::string s;
        if (!pool.empty() && r.chance(35)) {
            s = pool[r.below(pool.size())]; // repeated or nearly repeated content
            switch (r.below(6)) {
                case 0: break;
                case 1: if (!s.empty() && !o.utf8) s.back() = char(s.back() ^ 1); break;
                case 2: if (!s.empty() && !o.utf8) s.front() = char(s.front() ^ 1); break;
                case 3: s += nul && r.chance(50) ? '\0' : 'x'; break;
                case 4: if (!o.utf8) s.resize(s.size() / 2); break;
                case 5: if (!o.utf8) std::reverse(s.begin(), s.end()); break;
            }
            if (!nul) for (auto& c : s) if (!c) c = 1;
            if (key && s.size() > o.max_key) s.resize(5), s = std::string(5, 'k');
        } else s = content(len(key), o.utf8, nul);
        if (s.size() > bytes) s = content(std::min<size_t>(bytes, 3), o.utf8, nul);
        bytes -= std::min(bytes, s.size());
        if (pool.size() < 12 && s.size() < 300) pool.push_back(s);
        return s;
    }
    std::string blob() {
        std::string s = content(len(false), false, true);
        bytes -= std::min(bytes, s.size());
        return s;
    }
    Val leaf() {
        switch (r.below(10)) {
            case 0: return Val::null();
            case 1: return Val::boolean(r.chance(50));
            case 2: case 3: return Val::integer(edge_int(r));
            case 4: return Val::uinteger(edge_uint(r));
            case 5: case 6: return Val::dbl(edge_double(r, o.finite));
            case 7: case 8: return Val::str(str(false));
            default: return Val::blob(blob());
        }
    }
    static bool reserved_triple(const Val& v) { // what JSON uses for blobs
        return v.k == Val::Arr && v.a.size() == 3 && v.a[0].k == Val::Str && v.a[0].s == "~b" && v.a[1].k == Val::Str && v.a[2].k == Val::Str && v.a[2].s == "base64";
    }
    Val tree(size_t depth = 0) {
        if (nodes) --nodes;
        if (!nodes || depth >= o.max_depth || r.chance(depth == 0 ? 12 : 45)) return leaf();
        size_t n;
        unsigned c = unsigned(r.below(100));
        if (c < 12) n = 0; else if (c < 80) n = r.below(6); else if (c < 97) n = r.of<size_t>({7, 8, 14, 15, 16, 17, 18, 31, 32, 33}); else n = r.of<size_t>({120, 127, 128, 129, 255, 256, 257});
        n = std::min(n, nodes + 2);
        if (r.chance(50)) {
            Val v = Val::arr();
            if (n > 20) { // homogeneous or small leaves
                for (size_t i = 0; i < n; ++i) v.a.push_back(leaf());
                nodes -= std::min(nodes, n);
            } else for (size_t i = 0; i < n; ++i) v.a.push_back(tree(depth + 1));
            if (reserved_triple(v)) v.a.pop_back();
            return v;
        }
        Val v = Val::map();
        std::set<std::string> seen;
        for (size_t i = 0; i < n; ++i) {
            std::string k = str(true);
            if (!seen.insert(k).second) { k += "_" + std::to_string(i); if (!seen.insert(k).second) continue; }
            if (n > 20) v.m.emplace_back(k, leaf()); else v.m.emplace_back(k, tree(depth + 1));
        }
        if (n > 20) nodes -= std::min(nodes, n);
        return v;
    }
};

// Shapes a random tree rarely reaches. `scale` limits the size of the biggest ones.
inline Val special_shape(Rng& r, const GenOpts& o, uint64_t which, size_t max_items, size_t max_depth) {
    auto items = [&](std::initializer_list<size_t> l) { size_t n = r.of(l); return std::min(n, max_items); };
    Gen g(r, o);
    auto small = [&](size_t i) -> Val { switch (i % 7) { case 0: return Val::integer(int64_t(i) - 3); case 1: return Val::uinteger(i); case 2: return Val::str(std::to_string(i)); case 3: return Val::dbl(double(i) / 4); case 4: return Val::boolean(i & 1); case 5: return Val::null(); default: return Val::str("string number " + std::to_string(i)); } };
    switch (which % 12) {
        case 0: { size_t n = items({65534, 65535, 65536, 65537, 70001}); Val v = Val::arr(); for (size_t i = 0; i < n; ++i) v.a.push_back(small(i)); return v; }
        case 1: { size_t n = items({65534, 65535, 65536, 65537}); Val v = Val::map(); for (size_t i = 0; i < n; ++i) v.m.emplace_back("k" + std::to_string(i * 7919 % 1000003) + "_" + std::to_string(i), small(i)); return v; }
        case 2: { size_t d = std::min<size_t>(r.of<size_t>({31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 512, 1000}), max_depth); Val v = g.leaf();
                  for (size_t i = 0; i < d; ++i) { if (r.chance(50)) { Val w = Val::arr(); if (r.chance(30)) w.a.push_back(small(i)); w.a.push_back(std::move(v)); if (r.chance(30)) w.a.push_back(small(i + 1)); v = std::move(w); }
                      else { Val w = Val::map(); if (r.chance(30)) w.m.emplace_back("before", small(i)); w.m.emplace_back("k" + std::to_string(i % 10), std::move(v)); if (r.chance(30)) w.m.emplace_back("after", small(i + 1)); v = std::move(w); } }
                  return v; }
        case 3: { // string and blob lengths one after another: every inline / arena / width boundary in one message
                  Val v = Val::arr(); size_t base = r.of<size_t>({0, 0, 10, 28, 60, 124, 250, 508});
                  for (size_t i = 0; i < 24; ++i) { size_t n = base + i; v.a.push_back(i % 2 ? Val::blob(g.content(n, false, true)) : Val::str(g.content(n, o.utf8, true))); if (r.chance(20)) v.a.push_back(Val::str(g.content(n, o.utf8, true))); }
                  return v; }
        case 4: { // long strings and blobs
                  Val v = Val::arr(); for (size_t n : {65535u, 65536u, 65537u, 131072u + unsigned(r.below(9))}) { v.a.push_back(Val::str(g.content(n, o.utf8, true))); v.a.push_back(Val::blob(g.content(n, false, true))); } return v; }
        case 5: { // keys of every length around the boundaries
                  Val v = Val::map(); std::vector<size_t> ls; for (size_t i = 0; i < 40; ++i) ls.push_back(i); for (size_t i : {63u, 64u, 127u, 128u, 254u, 255u, 256u, 257u, 4095u, 32767u, 32768u, 65534u, 65535u}) ls.push_back(i);
                  for (size_t n : ls) { if (n > o.max_key) continue; std::string k = g.content(n, o.utf8, o.nul_keys); bool dup = false; for (auto& e : v.m) dup |= e.first == k; if (!dup) v.m.emplace_back(k, Val::uinteger(n)); }
                  return v; }
        case 6: { // keys that are prefixes and extensions of each other
                  Val v = Val::map(); std::string k; for (size_t i = 0; i < 40; ++i) { v.m.emplace_back(k, Val::integer(int64_t(i))); k += char(o.nul_keys && i % 5 == 4 ? 0 : "ab"[i % 2]); }
                  if (r.chance(50)) std::reverse(v.m.begin(), v.m.end()); return v; }
        case 7: { Val v = Val::arr(); for (size_t i = 0; i < 64; ++i) { v.a.push_back(Val::integer(int64_t(1ull << i))); v.a.push_back(Val::integer(-int64_t((1ull << i) >> (i == 63)))); v.a.push_back(Val::uinteger(1ull << i)); v.a.push_back(Val::uinteger((1ull << i) - 1)); v.a.push_back(Val::integer(int64_t((1ull << i) - 1))); } return v; }
        case 8: { // many containers of every small size, nested two deep
                  Val v = Val::arr(); for (size_t n = 0; n < 40; ++n) { Val a = Val::arr(), m = Val::map(); for (size_t i = 0; i < n; ++i) { a.a.push_back(small(i)); m.m.emplace_back("key" + std::to_string(i), small(i + n)); } v.a.push_back(a); v.a.push_back(m); } return v; }
        case 9: { Val v = Val::map(); size_t n = items({256, 1000, 4096, 5000}); for (size_t i = 0; i < n; ++i) { Val m = Val::map(); m.m.emplace_back("id", Val::uinteger(i)); m.m.emplace_back("name", Val::str("user" + std::to_string(i))); v.m.emplace_back("entry" + std::to_string(i), std::move(m)); } return v; }
        case 10: { // a typical document
                  Val v = Val::map(); v.m.emplace_back("name", Val::str("James Bond")); v.m.emplace_back("age", Val::integer(37)); v.m.emplace_back("tags", Val::arr({Val::str("a"), Val::str("b")})); v.m.emplace_back("", Val::map()); v.m.emplace_back("data", Val::blob(g.content(1000 + r.below(5000), false, true))); v.m.emplace_back("list", Val::arr()); v.m.emplace_back("extra", g.tree()); return v; }
        default: { // identical leaves repeated (interning, caching)
                  Val v = Val::arr(); std::string s = g.content(r.of<size_t>({5, 12, 13, 20, 40, 300}), o.utf8, true); std::string t = s; if (!t.empty() && !o.utf8) t.back() = 'Q'; else t += 'Q';
                  for (size_t i = 0; i < 30; ++i) { v.a.push_back(Val::str(i % 3 ? s : t)); if (i % 4 == 0) v.a.push_back(Val::blob(s)); Val m = Val::map(); std::string k = s; if (!o.nul_keys) for (auto& c : k) if (!c) c = 1; if (k.size() <= o.max_key) m.m.emplace_back(k, Val::str(s)); v.a.push_back(m); } return v; }
    }
}

} // namespace vz
