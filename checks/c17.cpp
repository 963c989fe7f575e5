// C17: buffers and diagnostic text say what is there, on good and on corrupt messages.
#include "../lib/hostile.hpp"
#include "../lib/guard.hpp"
#include "../lib/ref.hpp"
#include <iostream>
#include <sstream>
using namespace vz;

#ifdef VZ_BUFFER
static std::string_view next_line(std::string_view& t) { size_t e = t.find('\n'); std::string_view l = t.substr(0, e); t = e == std::string_view::npos ? std::string_view() : t.substr(e + 1); return l; }
static void check_hexdump(const z::ZBuffer& buf, std::span<const uint8_t> want, size_t row) {
    std::string d = row == 16 && want.size() % 2 ? buf.hexdump() : buf.hexdump(row);
    auto bad = [&](const std::string& m) { fail("hexdump", fmt("hexdump(%zu) of %zu bytes (%s): %s", row, want.size(), hex(want, 40).c_str(), m.c_str())); };
    if (d != buf.hexdump(row)) bad("two dumps differ");
    if (want.empty()) return;
    // offset, hex bytes, |text| per row; spacing is not judged
    std::string_view rest = d; size_t at = 0, rows = 0;
    while (!rest.empty()) {
        std::string_view l = next_line(rest);
        if (l.empty()) continue;
        ++rows;
        size_t bar = l.find('|');
        if (bar == std::string_view::npos || l.back() != '|' || l.size() < bar + 2) bad("row without a text column: " + show(l));
        std::string head(l.substr(0, bar)); std::string_view ascii = l.substr(bar + 1, l.size() - bar - 2);
        char* p = nullptr; unsigned long long off = strtoull(head.c_str(), &p, 16);
        if (p == head.c_str()) bad("row without an offset");
        if (off != at) bad(fmt("row offset %llx where %zx bytes are shown already", off, at));
        size_t n = 0;
        for (;;) {
            while (*p == ' ' || *p == ':') ++p;
            if (!*p) break;
            char* q = nullptr; unsigned long b = strtoul(p, &q, 16);
            if (q != p + 2) bad("not a two-digit byte: " + show(p, 8));
            if (at + n >= want.size()) bad("more bytes than the buffer has");
            if (b != want[at + n]) bad(fmt("byte %zu shown as %02lx, it is %02x", at + n, b, want[at + n]));
            p = q; ++n;
        }
        if (ascii.size() != n) bad(fmt("%zu bytes but %zu characters in a row", n, ascii.size()));
        for (size_t j = 0; j < n; ++j) { uint8_t c = want[at + j]; char e = c >= 0x20 && c < 0x7f ? char(c) : '.'; if (ascii[j] != e) bad(fmt("byte %02x shown as character %02x", c, uint8_t(ascii[j]))); }
        if (row && n != std::min(row, want.size() - at)) bad(fmt("row of %zu bytes", n));
        at += n;
    }
    if (at != want.size()) bad(fmt("only %zu bytes shown", at));
    CNT("hexdump rows checked") += rows;
}
static void one(uint64_t i, Rng& r) {
    size_t n = i % 500 == 77 ? r.range(65530, 70000) : i < 600 ? i / 4 : r.chance(80) ? r.below(100) : r.below(5000);
    std::vector<uint8_t> v(n); unsigned style = unsigned(r.below(4)); for (auto& b : v) b = style == 0 ? uint8_t(r.next()) : style == 1 ? uint8_t(r.range(0x1e, 0x80)) : style == 2 ? uint8_t(r.of<unsigned>({0, 9, 10, 0x1f, 0x20, 0x7c, 0x7e, 0x7f, 0x80, 0xa0, 0xff})) : 0;
    if (n >= 256 && r.chance(50)) for (size_t k = 0; k < 256; ++k) v[k] = uint8_t(k);
    const std::vector<uint8_t> want = v;
    z::ZBuffer buf;
    bool from_vector = false;
    switch (i % 4) {
        case 0: buf = z::ZBuffer(std::move(v)); from_vector = true; break;
        case 1: { auto* p = static_cast<uint8_t*>(std::malloc(n ? n : 1)); if (n) std::memcpy(p, want.data(), n); buf = z::ZBuffer(static_cast<void*>(p), n, z::ZBuffer::Deleters::Free); break; }
        case 2: { auto* p = new uint8_t[n ? n : 1]; if (n) std::memcpy(p, want.data(), n); buf = z::ZBuffer(p, n, z::ZBuffer::Deleters::DeleteArray); break; }
        default: { auto* p = new char[n ? n : 1]; if (n) std::memcpy(p, want.data(), n); buf = z::ZBuffer(p, n, [](char* q) { delete[] q; }); }
    }
    auto check = [&](const z::ZBuffer& b, std::span<const uint8_t> w) {
        auto eq = [&](auto&& c) { return std::size(c) == w.size() && (w.empty() || !std::memcmp(std::data(c), w.data(), w.size())); };
        REQUIRE(b.size() == w.size(), "buffer", "size() is %zu for %zu bytes", b.size(), w.size());
        REQUIRE(b.empty() == w.empty(), "buffer", "empty() is wrong for %zu bytes", w.size());
        REQUIRE(eq(b.buf()), "buffer", "buf() differs from the bytes given (%zu bytes)", w.size());
        REQUIRE(b.buf().data() == b.data(), "buffer", "buf() and data() point to different places");
        REQUIRE(eq(b.to_vector_copy()), "buffer", "to_vector_copy() differs from the bytes given (%zu bytes)", w.size());
        REQUIRE(eq(b.to_debug_string()), "buffer", "to_debug_string() differs from the bytes given (%zu bytes)", w.size());
        std::string s = b.to_string(); REQUIRE(s.find(std::to_string(w.size())) != std::string::npos, "buffer", "to_string() of %zu bytes says %s", w.size(), s.c_str());
        { auto c = b.to_vector_copy(); if (!c.empty()) REQUIRE(c.data() != b.data(), "buffer", "to_vector_copy() is not a copy"); }
        for (size_t row : {size_t(r.range(1, 40)), size_t(16), r.of<size_t>({0, 1, 7, 8, 9, 15, 17, 32, 255, 256, 1000})}) { if (n > 6000 && row < 16) row = 64; check_hexdump(b, w, row); }
    };
    note(fmt("%zu bytes %s", n, hex(want, 200).c_str()));
    check(buf, want); REQUIRE(buf.owned() == from_vector, "buffer", "owned() is wrong");
    z::ZBuffer other(std::move(buf)); check(other, want); REQUIRE(other.owned() == from_vector, "buffer", "owned() changed in a move");
    check(buf, {}); // NOLINT: a moved-from buffer is empty
    CNT("buffers described") += 2;
    covered(hash_bytes(want.data(), n) ^ mix(i % 4), n > 0);
}
int main(int c, char** v) { return main_loop(c, v, "c17-buffer", one); }
#else
using P = zerialize::VZ_P;
static constexpr bool kZera = std::is_same_v<P, z::Zera>;

// Trees whose numbers, strings and keys are all different and plain, so that each can be
// found in the text and counted.
struct Unique {
    Rng& r; uint64_t n = 0; size_t nodes; std::set<std::string> used;
    std::string word() { std::string s = r.of<std::string>({"w", "key", "value", "Some", "z"}) + std::to_string(100000 + n++) + "x"; if (r.chance(20)) s += std::string(r.below(60), 'q') + "x"; return s; }
    // words with something that needs escaping between them
    std::string phrase(bool nul) { std::string s = word(); while (r.chance(25)) { char c = r.of<char>({'\0', '\n', '\t', '\r', '"', '\\', '\x01', '\x1f', '\x7f', '/', ' ', '\b', '\'', ',', '}'}); s += c || nul ? c : ' '; if (r.chance(20)) s += "\xc3\xa9"; s += word(); } return s; }
    Val leaf() {
        for (;;) {
            Val v;
            switch (r.below(8)) {
                case 0: return Val::null();
                case 1: return Val::boolean(r.chance(50));
                case 2: v = Val::integer(Gen::edge_int(r)); break;
                case 3: v = Val::uinteger(Gen::edge_uint(r)); break;
                case 4: v = Val::integer(r.chance(50) ? -int64_t(200000 + n++) : int64_t(200000 + n++)); break;
                case 5: return Val::dbl(double(r.below(9000)) + 0.5);
                case 6: return Val::blob(std::string(r.below(40), 'b'));
                default: return Val::str(phrase(true));
            }
            std::string t = v.k == Val::Int ? std::to_string(v.i) : std::to_string(v.u);
            if (t.size() < 5 || !used.insert(t).second) continue; // short numbers may coincide with sizes
            return v;
        }
    }
    Val tree(size_t depth) {
        if (nodes) --nodes;
        if (!nodes || depth == 0 || r.chance(35)) return leaf();
        size_t c = r.below(r.one_in(10) ? 40 : 7);
        if (r.chance(50)) { Val v = Val::arr(); for (size_t i = 0; i < c; ++i) v.a.push_back(tree(depth - 1)); return v; }
        Val v = Val::map(); for (size_t i = 0; i < c; ++i) { std::string k = phrase(!std::is_same_v<P, z::Flex>); v.m.emplace_back(k, tree(depth - 1)); } return v;
    }
};

static size_t find_number(std::string_view t, const std::string& w, size_t from) {
    for (size_t at = t.find(w, from); at != std::string_view::npos; at = t.find(w, at + 1)) {
        bool left = at == 0 || !(isdigit(uint8_t(t[at - 1])) || t[at - 1] == '-' || t[at - 1] == '.' || isalpha(uint8_t(t[at - 1]))), right = at + w.size() >= t.size() || !(isalnum(uint8_t(t[at + w.size()])) || t[at + w.size()] == '.');
        if (left && right) return at;
    }
    return std::string_view::npos;
}
struct Tokens { // what the text must show, in order; unique ones exactly once
    struct T { std::string w; bool number, unique; };
    std::vector<T> t;
    void words(std::string_view s) { // how the characters between the words are shown is not judged
        size_t at = 0; while (at < s.size()) { size_t e = at; while (e < s.size() && isalnum(uint8_t(s[e]))) ++e; if (e - at > 6) { size_t b = at; t.push_back({std::string(s.substr(b, e - b)), false, true}); } at = e + 1; }
    }
    template<class R> void add(const R& rd, const Val& v) {
        switch (v.k) {
            case Val::Null: t.push_back({"null", false, false}); break;
            case Val::Bool: t.push_back({v.b ? "true" : "false", false, false}); break;
            case Val::Int: t.push_back({std::to_string(v.i), true, true}); break;
            case Val::UInt: t.push_back({std::to_string(v.u), true, true}); break;
            case Val::Dbl: t.push_back({fmt("%.1f", v.d), false, false}); break;
            case Val::Str: words(v.s); break;
            case Val::Blob: if (!Tr<P>::json) t.push_back({std::to_string(v.s.size()), true, false}); break;
            case Val::Arr: for (size_t i = 0; i < v.a.size(); ++i) add(rd[i], v.a[i]); break;
            case Val::Map: { // in the reader's own order
                std::map<std::string_view, const Val*> m; for (auto& [k, e] : v.m) m.emplace(k, &e);
                std::vector<std::string> ks; for (std::string_view k : rd.mapKeys()) ks.emplace_back(k);
                for (auto& k : ks) { words(k); add(rd[std::string_view(k)], *m.at(k)); }
                break; }
        }
    }
    void check(std::string_view s, const char* who = "to_string()") const {
        size_t at = 0;
        for (auto& [w, number, unique] : t) {
            size_t p = number ? find_number(s, w, at) : s.find(w, at);
            if (p == std::string_view::npos) fail("text", fmt("%s: %s does not show %s (of %zu things) in its place; text: %s", Tr<P>::name, who, w.c_str(), t.size(), show(s, 700).c_str()));
            at = p + w.size();
            if (unique) { size_t q = number ? find_number(s, w, 0) : s.find(w); if (q != p) fail("text", fmt("%s: %s shows %s twice; text: %s", Tr<P>::name, who, w.c_str(), show(s, 700).c_str())); }
        }
    }
};

static void json_equal(const std::string& s, const Val& v, const char* what) {
    try { Val back = ref::JsonDecoder(s).decode(); std::string why; REQUIRE(same(v, back, true, &why), "text", "Json: %s is another value: %s; %s", what, why.c_str(), show(s, 400).c_str()); }
    catch (const ref::Bad& e) { fail("text", fmt("Json: %s is not JSON: %s; %s", what, e.what(), show(s, 400).c_str())); }
}

template<class R> static std::string described(const R& rd) {
    std::string s = rd.to_string(); REQUIRE(rd.to_string() == s, "text", "%s: two to_string() calls differ: %s", Tr<P>::name, show(s, 300).c_str());
    CNT("values described") += 1; return s;
}
// Every value of a document says what it is itself.
template<class R> static void each(const R& rd, const Val& v, Rng& r, size_t& budget) {
    if (!budget) return; --budget;
    std::string s = described(rd);
    auto has = [&](const std::string& w) { if (find_number(s, w, 0) == std::string::npos) fail("text", fmt("%s: to_string() of %s %s is %s", Tr<P>::name, v.kname(), text(v, 60).c_str(), show(s, 200).c_str())); };
    switch (v.k) {
        case Val::Null: has("null"); break;
        case Val::Bool: has(v.b ? "true" : "false"); REQUIRE(find_number(s, v.b ? "false" : "true", 0) == std::string::npos, "text", "%s: to_string() of a bool says both: %s", Tr<P>::name, s.c_str()); break;
        case Val::Int: has(std::to_string(v.i)); break;
        case Val::UInt: has(std::to_string(v.u)); break;
        case Val::Str: if (kZera) has(std::to_string(v.s.size())); break;
        case Val::Blob: if (!Tr<P>::json) has(std::to_string(v.s.size())); break;
        case Val::Arr: if (kZera) has(std::to_string(v.a.size())); break;
        default: break;
    }
#ifndef VZ_NOJSON
    if constexpr (std::is_same_v<P, z::JSON>) { json_equal(s, v, "to_string()"); json_equal(rd.to_string(false), v, "to_string(false)"); CNT("JSON texts read back") += 2; }
#endif
    if (v.k == Val::Arr) for (size_t i = 0; i < v.a.size() && i < 20; ++i) each(rd[i], v.a[i], r, budget);
    if (v.k == Val::Map) for (size_t i = 0; i < v.m.size() && i < 20; ++i) each(rd[std::string_view(v.m[i].first)], v.m[i].second, r, budget);
}

// flex::debugging::dump_flex prints the whole message to std::cout.
static std::string dumped(std::span<const uint8_t> m, bool pointer) {
    std::ostringstream o;
    struct Swap { std::streambuf* old; ~Swap() { std::cout.rdbuf(old); } } swap{std::cout.rdbuf(o.rdbuf())};
    if (pointer) z::flex::debugging::dump_flex(m.data(), m.size()); else z::flex::debugging::dump_flex(m);
    CNT("messages dumped") += 1; return o.str();
}

static ref::Bytes message(const Val& v, Rng& r) {
    if constexpr (std::is_same_v<P, z::Flex>) if (r.chance(40)) { ref::FlexEncoder e(r); auto b = e.encode(v); CNT("typed vectors described") += e.typed_vectors(); return b; }
    if constexpr (std::is_same_v<P, z::MsgPack>) if (r.chance(30)) { ref::Bytes b; ref::msgpack_put(b, v, r); return b; }
#ifndef VZ_NOCBOR
    if constexpr (std::is_same_v<P, z::CBOR>) if (r.chance(30)) { ref::Bytes b; ref::CborStyle st; ref::cbor_put(b, v, r, st); return b; }
#endif
    return bytes_of(write<P>(v, int(r.below(kWriteModes))));
}

static void good(uint64_t i, Rng& r) {
    bool plain = i % 3 != 0; Val v;
    if (plain) {
        Unique u{r, 0, r.one_in(10) ? size_t(300) : size_t(40), {}}; v = u.tree(r.range(1, 8));
        if (std::is_same_v<P, z::Flex> && r.chance(40)) { Val a = Val::arr(); size_t n = r.range(1, 12); int k = int(r.below(3)); for (size_t j = 0; j < n; ++j) a.a.push_back(k == 0 ? Val::integer(-int64_t(500000 + j)) : k == 1 ? Val::uinteger(500000 + j) : Val::dbl(double(j) + 0.5)); v = Val::arr({a, v, Val::map({{"typedvec", a.a.size() > 1 && k == 2 ? a : Val::null()}})}); }
        if (r.one_in(12)) { size_t d = r.of<size_t>({10, 100, 500, 900}); for (size_t j = 0; j < d; ++j) v = r.chance(50) ? Val::arr({std::move(v)}) : Val::map({{u.word(), std::move(v)}}); }
    } else { GenOpts o = gen_opts<P>(); v = r.one_in(8) ? special_shape(r, o, r.below(12), 300, 900) : Gen(r, o).tree(); }
    note(text(v));
    Exact ex(message(v, r)); std::vector<uint8_t> before(ex.p, ex.p + ex.n);
    with_reader<P>(ex.span(), int(r.below(uint64_t(Tr<P>::ctors))), [&](const auto& rd) {
        try {
            std::string s = described(rd); CNT("characters of text") += s.size();
            if (plain && !kZera) { Tokens t; t.add(rd, v); t.check(s); CNT("things found in the text in order") += t.t.size(); }
            if constexpr (std::is_same_v<P, z::Flex>) if (r.chance(50)) {
                std::string d = dumped(ex.span(), r.chance(50)); REQUIRE(d == dumped(ex.span(), r.chance(50)), "text", "two dump_flex calls differ: %s", show(d, 300).c_str());
                if (plain) { Tokens t; t.add(rd, v); t.check(d, "dump_flex()"); CNT("things found in the dump in order") += t.t.size(); }
            }
            size_t budget = stats(v).depth > 50 ? 3 : 24; each(rd, v, r, budget);
        } catch (const std::exception& e) { fail("text", fmt("%s: to_string() of a well-formed value threw %s: %s", Tr<P>::name, e.what(), text(v).c_str())); }
        return 0;
    });
    REQUIRE(std::equal(before.begin(), before.end(), ex.p), "text", "%s: to_string() changed the message", Tr<P>::name);
    auto st = stats(v); covered(digest(v), st.nodes > 1 || st.bytes > 0);
    if (r.one_in(200)) sample(std::string(Tr<P>::name) + " " + text(v, 150));
}

static Guard* const guard = new Guard;
static void bad(uint64_t i, Rng& r) {
    Bytes b;
    std::string_view n = Tr<P>::name;
    if ((r.one_in(40) || i % 600 == 1) && n != "Zera") { // nesting only
        size_t d = r.of<size_t>({100, 1023, 1024, 1025, 1026, 2000, 8000}); if (n == "Json") d = std::min<size_t>(d, 2000); else if (i % 600 == 1) d = 30000; std::string o = n == "Json" ? "[" : n == "MsgPack" ? r.of<std::string>({"\x91", "\x81\xa1k"}) : r.of<std::string>({"\x81", "\x9f", std::string("\xa1\x61k"), std::string("\xbf\x61k")});
        for (size_t k = 0; k < d; ++k) b.insert(b.end(), o.begin(), o.end());
        if (r.chance(70)) b.push_back(n == "Json" ? '1' : 1);
        if (n == "Json" && r.chance(80)) b.insert(b.end(), d, ']');
        if (n == "Cbor" && (o[0] == '\x9f' || o[0] == '\xbf') && r.chance(80)) b.insert(b.end(), d, 0xff);
    } else b = hostile<P>(i, r, n == "Json" ? 1500 : 5000);
    if (b.size() > 200000) b.resize(200000);
    std::span<const uint8_t> m = guard->place(b, unsigned(r.below(4)));
    note("message " + hex(m, 900));
    auto op = [&](auto&& f) { try { f(); CNT("corrupt values described") += 1; } catch (const DeserializationError&) { CNT("corrupt values refused") += 1; } catch (const std::exception& e) { fail("wrong-exception", fmt("%s: to_string() of a corrupt message threw something other than DeserializationError: %s", Tr<P>::name, e.what())); } };
    op([&] { with_reader<P>(m, int(r.below(uint64_t(Tr<P>::ctors))), [&](const auto& rd) {
        op([&] { std::string s = rd.to_string(); CNT("characters of text") += s.size(); });
        for (size_t k = 0; k < 3; ++k) op([&] { const auto e = rd[k]; (void)e.to_string(); });
        op([&] { int c = 0; for (std::string_view key : rd.mapKeys()) { std::string ks(key); op([&] { const auto e = rd[std::string_view(ks)]; (void)e.to_string(); }); if (++c > 3) break; } });
        return 0; }); });
    guard->release();
    covered(hash_bytes(b.data(), b.size()), b.size() > 1);
}
static void one(uint64_t i, Rng& r) { if (i % 2 && !std::is_same_v<P, z::Flex>) bad(i, r); else good(i, r); }
int main(int c, char** v) { return main_loop(c, v, "c17-" VZ_PNAME, one); }
#endif
