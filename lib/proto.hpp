// The protocols under test behind one face: how to write a model value, how to open a
// message, and the read-back comparer. Only zerialize's public interface is used.
#pragma once
#include "model.hpp"
#ifdef VZ_MODULE
#include <array>
#include <list>
#include <tuple>
#include <variant>
#include <optional>
#include <unordered_map>
import zerialize;
#else
#include <zerialize/zerialize.hpp>
#ifdef VZ_TENSOR_HEADERS
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#endif
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/flex.hpp>
#ifndef VZ_NOJSON
#include <zerialize/protocols/json.hpp>
#endif
#ifndef VZ_NOCBOR
#include <zerialize/protocols/cbor.hpp>
#endif
#endif

namespace vz {
namespace z = zerialize;
using z::DeserializationError;

template<class P> struct Tr;
template<> struct Tr<z::Zera> {
    static constexpr const char* name = "Zera";
    static constexpr bool exact_sign = true, cross_int = true, fast_index = true, fast_key = false, zero_copy = true, json = false;
    static constexpr int ctors = 5;
};
template<> struct Tr<z::MsgPack> {
    static constexpr const char* name = "MsgPack";
    static constexpr bool exact_sign = false, cross_int = true, fast_index = false, fast_key = false, zero_copy = true, json = false;
    static constexpr int ctors = 5;
};
template<> struct Tr<z::Flex> {
    static constexpr const char* name = "Flex";
    static constexpr bool exact_sign = true, cross_int = false, fast_index = true, fast_key = true, zero_copy = true, json = false;
    static constexpr int ctors = 5;
};
#ifndef VZ_NOJSON
template<> struct Tr<z::JSON> {
    static constexpr const char* name = "Json";
    static constexpr bool exact_sign = false, cross_int = true, fast_index = false, fast_key = false, zero_copy = false, json = true;
    static constexpr int ctors = 3;
};
#endif
#ifndef VZ_NOCBOR
template<> struct Tr<z::CBOR> {
    static constexpr const char* name = "Cbor";
    static constexpr bool exact_sign = false, cross_int = true, fast_index = false, fast_key = false, zero_copy = true, json = false;
    static constexpr int ctors = 5;
};
#endif

template<class P> inline GenOpts gen_opts() {
    GenOpts o;
    std::string_view n = Tr<P>::name;
    if (n == "Json") { o.utf8 = true; o.finite = true; }
    if (n == "Cbor") o.utf8 = true;
    if (n == "Flex") o.nul_keys = false;
    return o;
}
// Options under which every protocol can represent the value.
inline GenOpts common_opts() { GenOpts o; o.utf8 = o.finite = true; o.nul_keys = false; return o; }

template<class P> inline bool representable(const Val& v, size_t depth = 0) {
    std::string_view n = Tr<P>::name;
    bool text = n == "Json" || n == "Cbor";
    switch (v.k) {
        case Val::Dbl: return n != "Json" || std::isfinite(v.d);
        case Val::Str: return !text || valid_utf8(v.s);
        case Val::Arr: if (n == "Cbor" && depth >= 1024) return false;
            for (auto& e : v.a) if (!representable<P>(e, depth + 1)) return false; return true;
        case Val::Map: if (n == "Cbor" && depth >= 1024) return false;
            for (auto& [k, e] : v.m) {
                if (text && !valid_utf8(k)) return false;
                if (n == "Flex" && k.find('\0') != std::string::npos) return false;
                if (n == "Zera" && k.size() > 65535) return false;
                if (!representable<P>(e, depth + 1)) return false;
            }
            return true;
        default: return true;
    }
}

// ------------------------------------------------------------------ writing
template<z::Writer W> void emit(const Val& v, W& w) {
    switch (v.k) {
        case Val::Null: w.null(); break;
        case Val::Bool: w.boolean(v.b); break;
        case Val::Int: w.int64(v.i); break;
        case Val::UInt: w.uint64(v.u); break;
        case Val::Dbl: w.double_(v.d); break;
        case Val::Str: w.string(v.s); break;
        case Val::Blob: w.binary(v.blob_span()); break;
        case Val::Arr: w.begin_array(v.a.size()); for (auto& e : v.a) emit(e, w); w.end_array(); break;
        case Val::Map: w.begin_map(v.m.size()); for (auto& [k, e] : v.m) { w.key(k); emit(e, w); } w.end_map(); break;
    }
}
inline z::dyn::Value to_dyn(const Val& v) {
    using D = z::dyn::Value;
    switch (v.k) {
        case Val::Null: return D();
        case Val::Bool: return D(v.b);
        case Val::Int: return D(v.i);
        case Val::UInt: return D(v.u);
        case Val::Dbl: return D(v.d);
        case Val::Str: return D(v.s);
        case Val::Blob: return D::blob(v.blob_span());
        case Val::Arr: { D::Array a; for (auto& e : v.a) a.push_back(to_dyn(e)); return D::array(std::move(a)); }
        case Val::Map: { D::Map m; for (auto& [k, e] : v.m) m.emplace_back(k, to_dyn(e)); return D::map(std::move(m)); }
    }
    return D();
}
} // namespace vz

namespace vzuser { // a user type with a free serialize() found by ADL
struct Node { const vz::Val* v; };
template<zerialize::Writer W> void serialize(const Node& n, W& w) {
    using zerialize::serialize;
    const vz::Val& v = *n.v;
    switch (v.k) {
        case vz::Val::Null: serialize(nullptr, w); break;
        case vz::Val::Bool: serialize(v.b, w); break;
        case vz::Val::Int: serialize(v.i, w); break;
        case vz::Val::UInt: serialize(v.u, w); break;
        case vz::Val::Dbl: serialize(v.d, w); break;
        case vz::Val::Str: serialize(v.s, w); break;
        case vz::Val::Blob: serialize(v.blob_span(), w); break;
        case vz::Val::Arr: { std::vector<Node> c; for (auto& e : v.a) c.push_back({&e}); serialize(c, w); break; }
        case vz::Val::Map: { w.begin_map(v.m.size()); for (auto& [k, e] : v.m) { w.key(k); serialize(Node{&e}, w); } w.end_map(); break; }
    }
}
}

namespace vz {
inline constexpr int kWriteModes = 5;
template<class P> z::ZBuffer write(const Val& v, int mode) {
    switch (mode) {
        case 1: return z::serialize<P>(to_dyn(v));
        case 2: return z::serialize<P>(vzuser::Node{&v});
#ifndef VZ_MODULE // WriterView is not exported
        case 3: { typename P::RootSerializer rs; typename P::Serializer w(rs); auto view = z::dyn::WriterView::make(w); emit(v, view); return rs.finish(); }
#endif
        case 4: return z::serialize<P>(z::dyn::serializable(vzuser::Node{&v}));
        default: { typename P::RootSerializer rs; typename P::Serializer w(rs); emit(v, w); return rs.finish(); }
    }
}

// ------------------------------------------------------------------ messages
// Bytes in a heap block of exactly their size: one byte too far is a sanitizer report.
struct Exact {
    uint8_t* p; size_t n;
    explicit Exact(std::span<const uint8_t> b) : p(static_cast<uint8_t*>(std::malloc(b.size() ? b.size() : 1))), n(b.size()) {
        if (!p) harness_error("out of memory");
        if (n) std::memcpy(p, b.data(), n);
    }
    Exact(const Exact&) = delete; Exact& operator=(const Exact&) = delete;
    ~Exact() { std::free(p); }
    std::span<const uint8_t> span() const { return {p, n}; }
};

// Does constructor number c look at the caller's bytes in place?
template<class P> constexpr bool views(int c) {
    using D = typename P::Deserializer;
    if (Tr<P>::json) return false;
    switch (c % 5) { case 0: return true; case 1: return requires(const uint8_t* p, size_t n) { D(p, n); }; case 2: return true; default: return false; }
}
// Open `b` through constructor number `c` and hand the reader to f. Constructors from 0 to
// 2 are views (except JSON, which always parses into its own document).
template<class P, class F> auto with_reader(std::span<const uint8_t> b, int c, F&& f) {
    using D = typename P::Deserializer;
    if constexpr (Tr<P>::json) {
        switch (c % 3) {
            case 1: { const D d(b.data(), b.size()); return f(d); }
            case 2: { const D d(std::string_view(reinterpret_cast<const char*>(b.data()), b.size())); return f(d); }
            default: { const D d(b); return f(d); }
        }
    } else {
        switch (c % 5) {
            case 1: if constexpr (requires { D(b.data(), b.size()); }) { const D d(b.data(), b.size()); return f(d); } else { const D d = D::copy_from(b); return f(d); }
            case 2: if constexpr (requires { D(reinterpret_cast<const std::byte*>(b.data()), b.size()); }) { const D d(reinterpret_cast<const std::byte*>(b.data()), b.size()); return f(d); } else { const D d(b); return f(d); }
            case 3: { const std::vector<uint8_t> v(b.begin(), b.end()); const D d(v); return f(d); }
            case 4: { std::vector<uint8_t> v(b.begin(), b.end()); const D d(std::move(v)); return f(d); }
            default: { const D d(b); return f(d); }
        }
    }
}

// ------------------------------------------------------------------ reading back
struct Path {
    std::vector<std::string> p;
    struct Step { Path& q; Step(Path& q_, std::string s) : q(q_) { q.p.push_back(std::move(s)); } ~Step() { q.p.pop_back(); } };
    std::string str() const { std::string o = "$"; size_t from = p.size() > 12 ? p.size() - 12 : 0; if (from) o += fmt("..(%zu levels)..", from); for (size_t i = from; i < p.size(); ++i) o += p[i]; return o; }
};

template<class P, class R> unsigned kind_mask(const R& r) {
    return unsigned(r.isNull()) << Val::Null | unsigned(r.isBool()) << Val::Bool | unsigned(r.isInt()) << Val::Int | unsigned(r.isUInt()) << Val::UInt |
           unsigned(r.isFloat()) << Val::Dbl | unsigned(r.isString()) << Val::Str | unsigned(r.isBlob()) << Val::Blob | unsigned(r.isArray()) << Val::Arr | unsigned(r.isMap()) << Val::Map;
}
inline std::string mask_text(unsigned m) { static const char* n[] = {"null","bool","int","uint","float","string","blob","array","map"}; std::string o; for (int i = 0; i < 9; ++i) if (m >> i & 1) o += (o.empty() ? "" : "+") + std::string(n[i]); return o.empty() ? "none" : o; }

// Does this set of true predicates fit a value written as v?
template<class P> bool mask_ok(unsigned m, const Val& v, bool sign_free = false) {
    const unsigned I = 1u << Val::Int, U = 1u << Val::UInt;
    if (v.k == Val::Int || v.k == Val::UInt) {
        if (Tr<P>::exact_sign && !sign_free) return m == (1u << v.k);
        if (!m || (m & ~(I | U))) return false;
        bool neg = v.k == Val::Int && v.i < 0, big = v.k == Val::UInt && v.u > uint64_t(INT64_MAX);
        if (neg) return m == I;
        if (big) return (m & U) != 0;
        if (Tr<P>::exact_sign && m == (I | U)) return false;
        return true;
    }
    if (v.k == Val::Blob && Tr<P>::json) return m == ((1u << Val::Blob) | (1u << Val::Arr));
    return m == (1u << v.k);
}

template<class B> std::string_view blob_sv(const B& b) { return {reinterpret_cast<const char*>(std::data(b)), std::size(b)}; }

template<class P> struct Comparer {
    std::string key;   // violation key
    Rng* r = nullptr;  // for sampling positions of huge containers; null = deterministic sampling
    size_t full_limit = 500;
    bool chunked = false;   // strings and blobs may be stored in pieces, so views may be refused (CBOR)
    bool sign_free = false; // the value passed through a format with one integer family
    Path path;
    uint64_t reads = 0;

    [[noreturn]] void bad(const std::string& m) { vz::fail(key, std::string(Tr<P>::name) + " at " + path.str() + ": " + m); }

    std::vector<size_t> positions(size_t n, bool fast) {
        std::vector<size_t> v;
        if (fast || n <= full_limit) { v.resize(n); for (size_t i = 0; i < n; ++i) v[i] = i; return v; }
        std::set<size_t> s; for (size_t i = 0; i < 6; ++i) { s.insert(i); s.insert(n - 1 - i); }
        for (size_t b : {15u, 16u, 255u, 256u, 65534u, 65535u, 65536u}) if (b < n) s.insert(b);
        uint64_t x = n; for (int i = 0; i < 24; ++i) { x = r ? r->next() : mix(x); s.insert(x % n); }
        return {s.begin(), s.end()};
    }
    template<class R> void compare(const R& rd, const Val& v) {
        try { go(rd, v); }
        catch (const std::exception& e) { bad(std::string("reading a well-formed value threw: ") + e.what()); }
    }
    template<class R> void go(const R& rd, const Val& v) {
        ++reads;
        unsigned m = kind_mask<P>(rd);
        if (!mask_ok<P>(m, v, sign_free)) bad(std::string("written as ") + v.kname() + " " + text(v, 60) + " but predicates say " + mask_text(m));
        switch (v.k) {
            case Val::Null: break;
            case Val::Bool: if (rd.asBool() != v.b) bad("bool value changed"); break;
            case Val::Int: {
                if (sign_free && !(m >> Val::Int & 1)) { uint64_t g = rd.asUInt64(); if (v.i < 0 || g != uint64_t(v.i)) bad(fmt("integer %lld read back as %llu", (long long)v.i, (unsigned long long)g)); break; }
                int64_t g = rd.asInt64(); if (g != v.i) bad(fmt("int64 %lld read back as %lld", (long long)v.i, (long long)g));
                break; }
            case Val::UInt: {
                if (sign_free && !(m >> Val::UInt & 1)) { int64_t g = rd.asInt64(); if (g < 0 || uint64_t(g) != v.u) bad(fmt("integer %llu read back as %lld", (unsigned long long)v.u, (long long)g)); break; }
                uint64_t g = rd.asUInt64(); if (g != v.u) bad(fmt("uint64 %llu read back as %llu", (unsigned long long)v.u, (unsigned long long)g));
                break; }
            case Val::Dbl: {
                double g = rd.asDouble(); if (dbits(g) != dbits(v.d)) bad(fmt("double %.17g (%016llx) read back as %.17g (%016llx)", v.d, (unsigned long long)dbits(v.d), g, (unsigned long long)dbits(g)));
                break; }
            case Val::Str: {
                if (!chunked) if (std::string_view sv = rd.asStringView(); sv != v.s) bad("string " + show(v.s) + " read back as view " + show(sv));
                std::string s = rd.asString(); if (s != v.s) bad("string " + show(v.s) + " read back as " + show(s));
                break; }
            case Val::Blob: {
                if constexpr (requires { rd.asBlobVec(); }) { auto bv = rd.asBlobVec(); if (blob_sv(bv) != v.s) bad("blob " + show(v.s) + " read back as vector " + show(blob_sv(bv))); if (chunked) break; }
                auto b = rd.asBlob(); if (blob_sv(b) != v.s) bad("blob " + show(v.s) + " read back as " + show(blob_sv(b)));
                break; }
            case Val::Arr: {
                size_t n = rd.arraySize(); if (n != v.a.size()) bad(fmt("array of %zu read back with size %zu", v.a.size(), n));
                for (size_t i : positions(n, Tr<P>::fast_index)) { Path::Step st(path, fmt("[%zu]", i)); go(rd[i], v.a[i]); }
                break; }
            case Val::Map: {
                std::map<std::string_view, const Val*> want; for (auto& [k, e] : v.m) want.emplace(k, &e);
                std::set<std::string, std::less<>> got;
                for (std::string_view k : rd.mapKeys()) {
                    if (!want.count(k)) bad("map has a key that was not written: " + show(k));
                    if (!got.emplace(k).second) bad("map key appears twice: " + show(k));
                }
                for (auto& [k, e] : want) if (!got.count(k)) bad("map key lost: " + show(k));
                for (size_t i : positions(v.m.size(), false)) {
                    auto& [k, e] = v.m[i];
                    Path::Step st(path, "." + show(k, 20));
                    if (!rd.contains(k)) bad("contains() denies a written key");
                    go(rd[std::string_view(k)], e);
                }
                break; }
        }
    }
};

template<class P, class R> uint64_t expect_equal(const R& rd, const Val& v, const std::string& key, Rng* r = nullptr, bool sign_free = false) {
    Comparer<P> c; c.key = key; c.r = r; c.sign_free = sign_free; c.compare(rd, v); return c.reads;
}

// Read everything into the model (any well-formed reader).
template<class P, class R> Val read_all(const R& rd) {
    if (rd.isNull()) return Val::null();
    if (rd.isBool()) return Val::boolean(rd.asBool());
    if (Tr<P>::exact_sign) { if (rd.isInt()) return Val::integer(rd.asInt64()); if (rd.isUInt()) return Val::uinteger(rd.asUInt64()); }
    else { if (rd.isUInt()) return Val::uinteger(rd.asUInt64()); if (rd.isInt()) return Val::integer(rd.asInt64()); }
    if (rd.isFloat()) return Val::dbl(rd.asDouble());
    if (rd.isString()) return Val::str(rd.asString());
    if (rd.isBlob()) { auto b = rd.asBlob(); return Val::blob(std::string(blob_sv(b))); }
    if (rd.isMap()) { Val v = Val::map(); for (std::string_view k : rd.mapKeys()) v.m.emplace_back(std::string(k), read_all<P>(rd[k])); return v; }
    if (rd.isArray()) { Val v = Val::arr(); size_t n = rd.arraySize(); for (size_t i = 0; i < n; ++i) v.a.push_back(read_all<P>(rd[i])); return v; }
    throw std::runtime_error("value of no kind");
}

} // namespace vz
