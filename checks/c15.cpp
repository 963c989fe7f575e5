// C15: base64 and JSON blobs. With VZ_P=JSON also the blob shape of the JSON protocol.
#ifdef VZ_NOJSON
#include "../lib/vz.hpp"
#include <zerialize/internals/base64.hpp>
namespace vz { namespace z = zerialize; using z::DeserializationError; }
#else
#include "../lib/proto.hpp"
#endif
using namespace vz;

// RFC 4648 section 4, written from the text: groups of three bytes, four characters.
static std::string ref_encode(std::string_view s) {
    static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < s.size(); i += 3) {
        size_t n = std::min<size_t>(3, s.size() - i);
        unsigned b0 = uint8_t(s[i]), b1 = n > 1 ? uint8_t(s[i + 1]) : 0, b2 = n > 2 ? uint8_t(s[i + 2]) : 0;
        o += A[b0 / 4]; o += A[b0 % 4 * 16 + b1 / 16]; o += n > 1 ? A[b1 % 16 * 4 + b2 / 64] : '='; o += n > 2 ? A[b2 % 64] : '=';
    }
    return o;
}
static bool in_alphabet(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') || (c >= '0' && c <= '9') || c == '+' || c == '/'; }

struct Heap { char* p; size_t n; explicit Heap(std::string_view s) : p(static_cast<char*>(std::malloc(s.size() ? s.size() : 1))), n(s.size()) { if (n) std::memcpy(p, s.data(), n); } ~Heap() { std::free(p); } std::string_view sv() const { return {p, n}; } };

static std::string decode(std::string_view t, bool& threw) {
    Heap h(t);
    threw = false;
    try { auto v = z::base64Decode(h.sv()); return {reinterpret_cast<const char*>(v.data()), v.size()}; }
    catch (const DeserializationError&) { threw = true; }
    catch (const std::exception& e) { fail("wrong-exception", "base64Decode(" + show(t) + ") threw something other than DeserializationError: " + e.what()); }
    return {};
}
static void round_trip(std::string_view s) {
    Heap h(s);
    std::string e = z::base64Encode(std::span<const std::byte>(reinterpret_cast<const std::byte*>(h.p), h.n)), want = ref_encode(s);
    REQUIRE(e == want, "encoding", "base64Encode of %s gave %s, RFC 4648 says %s", show(s).c_str(), show(e, 80).c_str(), show(want, 80).c_str());
    bool threw; std::string d = decode(e, threw);
    REQUIRE(!threw && d == s, "decoding", "base64Decode of %s (from %s) %s", show(e).c_str(), show(s).c_str(), threw ? "threw" : ("gave " + show(d)).c_str());
    CNT("byte strings encoded and decoded") += 1;
}
static void hostile_text(std::string_view t) {
    bool bad = false; for (unsigned char c : t) { if (c == '=') break; if (!in_alphabet(c)) { bad = true; break; } }
    bool threw; std::string d = decode(t, threw);
    if (bad) { REQUIRE(threw, "bad-text-accepted", "base64Decode accepted %s (gave %s)", show(t).c_str(), show(d).c_str()); CNT("invalid characters refused") += 1; }
    else { REQUIRE(d.size() <= t.size() * 3 / 4, "decoding", "base64Decode of %s gave %zu bytes", show(t).c_str(), d.size()); CNT("texts of alphabet characters decoded or refused") += 1; }
}
static std::string rnd(Rng& r, size_t n) { std::string s(n, 0); int k = int(r.below(4)); for (auto& c : s) c = k == 0 ? char(0) : k == 1 ? char(0xff) : char(r.next()); return s; }

#ifndef VZ_NOJSON
// The text of a value written by the JSON protocol, without the whitespace between tokens and with \/ undone.
static std::string squeeze(std::string_view t) { std::string o; bool in = false; for (size_t i = 0; i < t.size(); ++i) { char c = t[i]; if (in && c == '\\' && i + 1 < t.size()) { if (t[i + 1] != '/') o += c; o += t[++i]; continue; } if (c == '"') in = !in; if (!in && (c == ' ' || c == '\n' || c == '\t' || c == '\r')) continue; o += c; } return o; }

static std::string jstr(std::string_view s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; o += c; } return o + "\""; }
template<class F> static void open(const std::string& t, F&& f) { with_reader<z::JSON>({reinterpret_cast<const uint8_t*>(t.data()), t.size()}, 0, std::forward<F>(f)); }

static void json_write(const std::string& s, Rng& r) {
    Val v = Val::blob(s);
    int mode = int(r.below(kWriteModes));
    auto buf = write<z::JSON>(v, mode);
    std::string t = squeeze({reinterpret_cast<const char*>(buf.data()), buf.size()}), want = "[\"~b\",\"" + ref_encode(s) + "\",\"base64\"]";
    REQUIRE(t == want, "json-shape", "blob %s written (mode %d) as %s, not %s", show(s).c_str(), mode, show(t, 80).c_str(), show(want, 80).c_str());
    open(std::string(reinterpret_cast<const char*>(buf.data()), buf.size()), [&](auto& d) { REQUIRE(d.isBlob() && blob_sv(d.asBlob()) == s, "json-blob", "blob %s not read back", show(s).c_str()); });
    CNT("JSON blobs written and read") += 1;
}
// An array that is close to a blob; the oracle knows whether it is one.
static void json_near(Rng& r) {
    std::vector<std::pair<std::string, bool>> e; // text, right content for its position
    auto part = [&](int pos) -> std::pair<std::string, bool> {
        std::string right = pos == 0 ? "~b" : pos == 1 ? ref_encode(rnd(r, r.below(9))) : "base64";
        if (r.chance(85)) return {jstr(right), true};
        switch (r.below(9)) {
            case 0: return {"null", false}; case 1: return {fmt("%d", int(r.below(1000))), false}; case 2: return {"true", false}; case 3: return {"1.5", false}; case 4: return {"[" + jstr(right) + "]", false}; case 5: return {"{}", false};
            default: { static const char* o[] = {"~B", "~b ", " ~b", "~", "", "b", "~bb", "base64 ", "Base64", "base6", "base644", "base64url", "BASE64", "~b\\u0000", "base64\\u0000"}; std::string s = r.pick(o); if (pos == 1) return {"\"" + s + "\"", true}; return {"\"" + s + "\"", false}; }
        }
    };
    size_t n = r.chance(75) ? 3 : r.below(6);
    bool want = n == 3;
    std::string t = "[";
    for (size_t i = 0; i < n; ++i) { auto [x, ok] = part(int(i % 3)); want = want && ok; t += (i ? "," : "") + std::string(r.one_in(4) ? " " : "") + x; }
    t += "]";
    if (r.one_in(6)) { t = "{\"0\":\"~b\",\"1\":\"AA==\",\"2\":\"base64\"}"; want = false; }
    open(t, [&](auto& d) {
        REQUIRE(d.isBlob() == want, "json-near-miss", "isBlob of %s is %d", show(t, 120).c_str(), int(d.isBlob()));
        try { auto b = d.asBlob(); REQUIRE(want, "json-near-miss", "asBlob of %s returned %zu bytes", show(t, 120).c_str(), b.size()); CNT("near shapes that are blobs") += 1; }
        catch (const DeserializationError&) { if (want) { auto s = d[size_t(1)].asString(); bool bad = false; for (unsigned char c : s) { if (c == '=') break; if (!in_alphabet(c)) bad = true; } REQUIRE(bad || s.size() % 4, "json-near-miss", "asBlob of %s threw", show(t, 120).c_str()); CNT("blobs with bad text refused") += 1; } else CNT("near misses refused as blobs") += 1; }
        if (!want && t[0] == '[') REQUIRE(d.isArray() && d.arraySize() == n, "json-near-miss", "%s no longer reads as an array of %zu", show(t, 120).c_str(), n);
    });
}
static void json_bad_text(Rng& r) {
    std::string b = ref_encode(rnd(r, 1 + r.below(40)));
    size_t eq = std::min(b.find('='), b.size());
    size_t at = r.below(eq); char c; do c = char(0x20 + r.below(95)); while (in_alphabet(uint8_t(c)) || c == '='); b[at] = c;
    open("[\"~b\"," + jstr(b) + ",\"base64\"]", [&](auto& d) {
        try { auto x = d.asBlob(); fail("bad-text-accepted", "JSON asBlob accepted base64 text " + show(b)); } catch (const DeserializationError&) { CNT("blobs with bad text refused") += 1; }
    });
}
static void one(uint64_t i, Rng& r) {
    std::string s = i < 257 ? (i ? std::string(1, char(i - 1)) : std::string()) : rnd(r, r.one_in(40) ? r.below(20000) : r.below(200));
    json_write(s, r);
    for (int k = 0; k < 6; ++k) json_near(r);
    json_bad_text(r);
    covered(hash_str(s), !s.empty());
    if (r.one_in(500)) sample("blob " + show(s));
}
int main(int c, char** v) { return main_loop(c, v, "JSON", one); }
#else
static void one(uint64_t i, Rng& r) {
    if (i < 256) { // every one- and two-byte string starting with this byte, and every bad character in its column
        std::string s(1, char(i)); round_trip(s);
        for (int j = 0; j < 256; ++j) round_trip(s + char(j));
        std::string base = ref_encode(rnd(r, 12));
        for (size_t k = 0; k <= base.size(); ++k) { std::string t = base; if (k < base.size()) t[k] = char(i); else t += char(i); hostile_text(t); std::string u = base; u.insert(k, 1, char(i)); hostile_text(u); }
        covered(hash_str(s), true); return;
    }
    if (i < 900) { // every length
        size_t n = size_t(i - 256); std::string s = rnd(r, n); round_trip(s); std::string e = ref_encode(s);
        for (size_t k = 0; k < std::min<size_t>(e.size(), 40); ++k) hostile_text(e.substr(0, e.size() - k));
        covered(hash_str(s), true); return;
    }
    std::string s = rnd(r, r.one_in(200) ? r.below(300000) : r.below(64)); round_trip(s);
    if (s.size() == 3 || s.size() == 4) for (int j = 0; j < 256; ++j) { s.back() = char(j); round_trip(s); }
    std::string t = ref_encode(s.substr(0, 200));
    for (int k = 0; k < 20; ++k) { std::string u = t; for (int m = int(r.below(3)); m >= 0; --m) { size_t at = r.below(u.size() + 1); switch (r.below(3)) { case 0: if (at < u.size()) u[at] = char(r.next()); break; case 1: u.insert(at, 1, r.of<char>({'=', '-', '_', ' ', '\n', '\0', 'A', char(0x80), char(0xff)})); break; default: if (at < u.size()) u.erase(at, 1); } } hostile_text(u); }
    covered(hash_str(s), !s.empty());
    if (r.one_in(5000)) sample(show(s) + " <-> " + show(t));
}
int main(int c, char** v) { return main_loop(c, v, "b64", one); }
#endif
