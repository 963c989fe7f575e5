// C05: numeric accessors return the exact value or throw.
#include "../lib/proto.hpp"
using namespace vz;
using P = zerialize::VZ_P;

enum Res { kVal, kDerr, kOther };
template<class F> static Res attempt(F&& f, std::string& why) {
    try { f(); return kVal; }
    catch (const DeserializationError& e) { why = e.what(); return kDerr; }
    catch (const std::exception& e) { why = e.what(); return kOther; }
}

template<class T> static const char* tname() {
    if constexpr (std::is_same_v<T, int8_t>) return "asInt8"; else if constexpr (std::is_same_v<T, int16_t>) return "asInt16"; else if constexpr (std::is_same_v<T, int32_t>) return "asInt32"; else if constexpr (std::is_same_v<T, int64_t>) return "asInt64";
    else if constexpr (std::is_same_v<T, uint8_t>) return "asUInt8"; else if constexpr (std::is_same_v<T, uint16_t>) return "asUInt16"; else if constexpr (std::is_same_v<T, uint32_t>) return "asUInt32"; else return "asUInt64";
}

// One integer accessor on a value.
template<class T, class R, class G> static void integer_accessor(const R& rd, const Val& v, unsigned mask, G&& get) {
    T got{}; std::string why;
    Res res = attempt([&] { got = get(rd); }, why);
    CNT("integer accessor calls") += 1;
    REQUIRE(res != kOther, "wrong-exception", "%s %s of %s threw something other than DeserializationError: %s", Tr<P>::name, tname<T>(), text(v).c_str(), why.c_str());
    if (v.k != Val::Int && v.k != Val::UInt) {
        REQUIRE(res == kDerr, "wrong-kind-accepted", "%s %s of %s returned %lld instead of throwing", Tr<P>::name, tname<T>(), text(v).c_str(), (long long)got);
        return;
    }
    bool fits = v.k == Val::Int ? std::in_range<T>(v.i) : std::in_range<T>(v.u);
    if (res == kVal) {
        bool eq = v.k == Val::Int ? std::cmp_equal(got, v.i) : std::cmp_equal(got, v.u);
        REQUIRE(eq, "integer-altered", "%s %s of %s returned %s", Tr<P>::name, tname<T>(), text(v).c_str(), std::is_signed_v<T> ? fmt("%lld", (long long)got).c_str() : fmt("%llu", (unsigned long long)got).c_str());
        CNT("integers returned exactly") += 1;
        return;
    }
    if (!fits) { CNT("integers out of range refused") += 1; return; }
    bool written = v.k == (std::is_signed_v<T> ? Val::Int : Val::UInt);
    bool reported = mask >> (std::is_signed_v<T> ? Val::Int : Val::UInt) & 1;
    REQUIRE(!written && !reported, "fitting-integer-refused", "%s %s refused %s (%s): %s", Tr<P>::name, tname<T>(), text(v).c_str(), written ? "written with this signedness" : "reported with this signedness", why.c_str());
    CNT("cross-sign reads refused") += 1;
}

template<class R> static void check(const R& rd, const Val& v) {
    unsigned m = kind_mask<P>(rd);
    integer_accessor<int8_t>(rd, v, m, [](auto& r) { return r.asInt8(); });
    integer_accessor<int16_t>(rd, v, m, [](auto& r) { return r.asInt16(); });
    integer_accessor<int32_t>(rd, v, m, [](auto& r) { return r.asInt32(); });
    integer_accessor<int64_t>(rd, v, m, [](auto& r) { return r.asInt64(); });
    integer_accessor<uint8_t>(rd, v, m, [](auto& r) { return r.asUInt8(); });
    integer_accessor<uint16_t>(rd, v, m, [](auto& r) { return r.asUInt16(); });
    integer_accessor<uint32_t>(rd, v, m, [](auto& r) { return r.asUInt32(); });
    integer_accessor<uint64_t>(rd, v, m, [](auto& r) { return r.asUInt64(); });
    double d = 0; float f = 0; std::string why;
    Res rdb = attempt([&] { d = rd.asDouble(); }, why), rfl = attempt([&] { f = rd.asFloat(); }, why);
    REQUIRE(rdb != kOther && rfl != kOther, "wrong-exception", "%s asDouble/asFloat of %s threw something other than DeserializationError: %s", Tr<P>::name, text(v).c_str(), why.c_str());
    if (v.k == Val::Dbl) {
        REQUIRE(rdb == kVal && rfl == kVal, "double-refused", "%s refused %s: %s", Tr<P>::name, text(v).c_str(), why.c_str());
        REQUIRE(dbits(d) == dbits(v.d), "double-altered", "%s double %.17g (%016llx) read as %.17g (%016llx)", Tr<P>::name, v.d, (unsigned long long)dbits(v.d), d, (unsigned long long)dbits(d));
        float want = static_cast<float>(v.d);
        bool eq = std::isnan(v.d) ? std::isnan(f) : std::bit_cast<uint32_t>(want) == std::bit_cast<uint32_t>(f);
        REQUIRE(eq, "float-altered", "%s asFloat of %.17g gave %.9g, not %.9g", Tr<P>::name, v.d, double(f), double(want));
        CNT("doubles and floats returned exactly") += 1;
    } else {
        REQUIRE(rdb == kDerr && rfl == kDerr, "wrong-kind-accepted", "%s asDouble/asFloat of %s returned %.17g / %.9g instead of throwing", Tr<P>::name, text(v).c_str(), d, double(f));
        CNT("non-floats refused as floats") += 1;
    }
    bool b = false; Res rb = attempt([&] { b = rd.asBool(); }, why);
    REQUIRE(rb != kOther && (rb == kVal) == (v.k == Val::Bool), "wrong-kind-accepted", "%s asBool of %s: %s", Tr<P>::name, text(v).c_str(), rb == kVal ? "returned a value" : why.c_str());
}

// Numbers in encodings this library's writer would not choose.
static bool foreign(const Val& v, Rng& r, std::string& out) {
    auto be = [&](uint64_t x, int n) { for (int i = n - 1; i >= 0; --i) out += char(x >> (8 * i)); };
    std::string_view n = Tr<P>::name;
    if (n == "MsgPack") {
        if (v.k == Val::Int) {
            std::vector<std::pair<int, int>> ok;
            if (v.i >= INT8_MIN && v.i <= INT8_MAX) ok.push_back({0xd0, 1});
            if (v.i >= INT16_MIN && v.i <= INT16_MAX) ok.push_back({0xd1, 2});
            if (v.i >= INT32_MIN && v.i <= INT32_MAX) ok.push_back({0xd2, 4});
            ok.push_back({0xd3, 8});
            auto [tag, w] = ok[r.below(ok.size())]; out += char(tag); be(uint64_t(v.i), w); return true;
        }
        if (v.k == Val::UInt) {
            std::vector<std::pair<int, int>> ok;
            if (v.u <= UINT8_MAX) ok.push_back({0xcc, 1});
            if (v.u <= UINT16_MAX) ok.push_back({0xcd, 2});
            if (v.u <= UINT32_MAX) ok.push_back({0xce, 4});
            ok.push_back({0xcf, 8});
            auto [tag, w] = ok[r.below(ok.size())]; out += char(tag); be(v.u, w); return true;
        }
        if (v.k == Val::Dbl && !std::isnan(v.d) && double(float(v.d)) == v.d) { out += char(0xca); be(std::bit_cast<uint32_t>(float(v.d)), 4); return true; }
        return false;
    }
    if (n == "Cbor") {
        if (v.k == Val::Int || v.k == Val::UInt) {
            bool neg = v.k == Val::Int && v.i < 0;
            uint64_t x = v.k == Val::UInt ? v.u : neg ? uint64_t(-(v.i + 1)) : uint64_t(v.i);
            int lo = x <= UINT8_MAX ? 0 : x <= UINT16_MAX ? 1 : x <= UINT32_MAX ? 2 : 3;
            int w = int(r.range(uint64_t(lo), 3));
            out += char((neg ? 0x20 : 0) | (24 + w)); be(x, 1 << w); return true;
        }
        if (v.k == Val::Dbl && !std::isnan(v.d) && double(float(v.d)) == v.d) { out += char(0xfa); be(std::bit_cast<uint32_t>(float(v.d)), 4); return true; }
        return false;
    }
    if (n == "Json") {
        if (v.k == Val::Int) { out = std::to_string(v.i); if (v.i < 0 || true) { out = " " + out + "\n"; } return true; }
        if (v.k == Val::UInt) { out = "\t" + std::to_string(v.u) + " "; return true; }
        if (v.k == Val::Dbl && std::isfinite(v.d)) { out = fmt(r.chance(50) ? "%.17e" : "%.20E", v.d); return true; }
    }
    return false;
}

static void one(uint64_t i, Rng& r) {
    GenOpts o = gen_opts<P>();
    std::vector<Val> vs;
    // Small integers and the neighbourhood of every power of two; the thorough tier sweeps [-80000, 80000].
    const uint64_t sweep = run().thorough ? 2500 : 100;
    if (i < sweep) {
        auto add = [&](int64_t k) { vs.push_back(Val::integer(k)); if (k >= 0) vs.push_back(Val::uinteger(uint64_t(k))); };
        if (run().thorough) for (int64_t k = -80000 + int64_t(i) * 64; k < -80000 + int64_t(i + 1) * 64; ++k) add(k);
        else if (i < 36) for (int64_t k = -1152 + int64_t(i) * 64; k < -1152 + int64_t(i + 1) * 64; ++k) add(k);
        else { uint64_t p = 1ull << (i - 36); for (int64_t d = -8; d <= 8; ++d) { uint64_t u = p + uint64_t(d); vs.push_back(Val::uinteger(u)); vs.push_back(Val::integer(int64_t(u))); vs.push_back(Val::integer(int64_t(0 - u))); } }
    } else {
        for (int k = 0; k < 40; ++k) switch (r.below(6)) {
            case 0: case 1: vs.push_back(Val::integer(Gen::edge_int(r))); break;
            case 2: vs.push_back(Val::uinteger(Gen::edge_uint(r))); break;
            case 3: case 4: vs.push_back(Val::dbl(Gen::edge_double(r, o.finite))); break;
            default: { GenOpts s = o; s.max_nodes = 4; s.max_bytes = 64; Gen g(r, s); vs.push_back(r.chance(60) ? g.leaf() : g.tree()); }
        }
    }
    if (r.chance(50) || i < sweep) {
        Val doc = Val::arr(vs);
        note(text(doc));
        Exact ex(write<P>(doc, int(r.below(kWriteModes))).buf());
        with_reader<P>(ex.span(), int(r.below(uint64_t(Tr<P>::ctors))), [&](const auto& rd) { for (size_t k = 0; k < vs.size(); ++k) check(rd[k], vs[k]); return 0; });
        if (r.chance(20)) { // map values
            Val m = Val::map(); for (size_t k = 0; k < vs.size(); ++k) m.m.emplace_back("k" + std::to_string(k), vs[k]);
            Exact ex2(write<P>(m, 0).buf());
            with_reader<P>(ex2.span(), 0, [&](const auto& rd) { for (auto& [k, v] : m.m) check(rd[std::string_view(k)], v); return 0; });
        }
    } else for (auto& v : vs) {
        note(text(v));
        std::string raw;
        if (r.chance(60) && foreign(v, r, raw)) { CNT("foreign encodings") += 1; }
        else { auto b = write<P>(v, 0); raw.assign(reinterpret_cast<const char*>(b.data()), b.size()); }
        Exact ex({reinterpret_cast<const uint8_t*>(raw.data()), raw.size()});
        with_reader<P>(ex.span(), int(r.below(uint64_t(Tr<P>::ctors))), [&](const auto& rd) { check(rd, v); return 0; });
    }
    for (auto& v : vs) covered(digest(v), v.k == Val::Int || v.k == Val::UInt || v.k == Val::Dbl);
    if (r.one_in(60)) sample(text(Val::arr(vs), 200));
}
int main(int c, char** v) { return main_loop(c, v, "c05-" VZ_PNAME, one); }
