// C04: readers are zero-copy, lazy and leave the message untouched.
#include "../lib/proto.hpp"
#include "../lib/guard.hpp"
#include "../lib/alloc.hpp"
using namespace vz;
using Bytes = std::vector<uint8_t>;
using P = zerialize::VZ_P;
constexpr bool kStrict = std::is_same_v<P, z::Zera> || std::is_same_v<P, z::MsgPack> || std::is_same_v<P, z::Flex>;

static std::span<const uint8_t> msg;
static uint64_t views_seen, ops;
static void inside(const char* what, const void* p, size_t n) {
    if (!n) return;
    auto* b = static_cast<const uint8_t*>(p);
    ++views_seen;
    if (!(b >= msg.data() && n <= msg.size() && b <= msg.data() + (msg.size() - n))) fail("copied", fmt("%s: %s of %zu bytes does not point into the message", Tr<P>::name, what, n));
}

// Reads everything without allocating anything itself.
template<class R> static void walk(const R& rd, const Val& v, size_t& budget) {
    if (!budget) return; --budget;
    unsigned m = kind_mask<P>(rd); ops += 9;
    switch (v.k) {
        case Val::Null: break;
        case Val::Bool: if (rd.asBool() != v.b) fail("value", "bool differs"); break;
        case Val::Int: if (m >> Val::Int & 1) { if (rd.asInt64() != v.i) fail("value", "int differs"); if (v.i >= -128 && v.i <= 127) (void)rd.asInt8(); if (v.i >= INT32_MIN && v.i <= INT32_MAX) (void)rd.asInt32(); } break;
        case Val::UInt: if (m >> Val::UInt & 1) { if (rd.asUInt64() != v.u) fail("value", "uint differs"); if (v.u <= 255) (void)rd.asUInt8(); if (v.u <= UINT32_MAX) (void)rd.asUInt32(); } break;
        case Val::Dbl: if (dbits(rd.asDouble()) != dbits(v.d)) fail("value", "double differs"); (void)rd.asFloat(); break;
        case Val::Str: { auto s = rd.asStringView(); inside("string view", s.data(), s.size()); if (s != std::string_view(v.s)) fail("value", "string differs"); break; }
        case Val::Blob: { auto s = rd.asBlob(); inside("blob", std::data(s), std::size(s)); if (blob_sv(s) != std::string_view(v.s)) fail("value", "blob differs"); break; }
        case Val::Arr: {
            size_t n = rd.arraySize(); if (n != v.a.size()) fail("value", "array size differs");
            for (size_t i = 0; i < n; ++i) { const auto sub = rd[i]; walk(sub, v.a[i], budget); if (n > 300) i += n / 50; }
            break; }
        case Val::Map: {
            size_t n = 0;
            for (std::string_view k : rd.mapKeys()) { inside("key", k.data(), k.size()); ++n; }
            if (n != v.m.size()) fail("value", "key count differs");
            (void)rd.contains("surely not in there"); (void)rd.contains("");
            for (size_t i = 0; i < v.m.size(); ++i) {
                std::string_view k = v.m[i].first;
                if (!rd.contains(k)) fail("value", "key lost");
                const auto sub = rd[k]; walk(sub, v.m[i].second, budget);
                if (v.m.size() > 300) i += v.m.size() / 50;
            }
            break; }
    }
    ops += 3;
}

// ---- Zera: reading one field does not touch the payloads of the others
struct Range { const uint8_t* p; size_t n; };
template<class R> static void payloads(const R& rd, const Val& v, const Val* except, std::vector<Range>& out, Range& target) {
    auto add = [&](const void* p, size_t n) { auto* b = static_cast<const uint8_t*>(p); if (&v == except) target = {b, n}; else if (n) out.push_back({b, n}); };
    if (v.k == Val::Str) { auto s = rd.asStringView(); if (s.size() > 12) add(s.data(), s.size()); }
    else if (v.k == Val::Blob) { auto s = rd.asBlob(); add(std::data(s), std::size(s)); }
    else if (v.k == Val::Arr) for (size_t i = 0; i < v.a.size(); ++i) payloads(rd[i], v.a[i], except, out, target);
    else if (v.k == Val::Map) for (auto& [k, e] : v.m) payloads(rd[std::string_view(k)], e, except, out, target);
}
struct Step { size_t index; const std::string* key; };
static void all_paths(const Val& v, std::vector<Step>& cur, std::vector<std::pair<std::vector<Step>, const Val*>>& out) {
    if (out.size() > 400) return;
    out.emplace_back(cur, &v);
    for (size_t i = 0; i < v.a.size(); ++i) { cur.push_back({i, nullptr}); all_paths(v.a[i], cur, out); cur.pop_back(); }
    for (auto& [k, e] : v.m) { cur.push_back({0, &k}); all_paths(e, cur, out); cur.pop_back(); }
}
template<class R, class F> static void follow(const R& rd, const std::vector<Step>& s, size_t at, F&& f) {
    if (at == s.size()) { f(rd); return; }
    if (s[at].key) { const auto sub = rd[std::string_view(*s[at].key)]; follow(sub, s, at + 1, f); }
    else { const auto sub = rd[s[at].index]; follow(sub, s, at + 1, f); }
}
static void lazy(const Val& v, const Bytes& b, Rng& r) {
#ifdef VZ_ASAN
    Exact ex(b);
    std::vector<std::pair<std::vector<Step>, const Val*>> paths; std::vector<Step> cur; all_paths(v, cur, paths);
    for (int k = 0; k < 3; ++k) {
        auto& [steps, target] = paths[r.below(paths.size())];
        std::vector<Range> others; Range own{nullptr, 0};
        { const typename P::Deserializer rd(ex.span()); payloads(rd, v, target, others, own); }
        for (auto& o : others) __asan_poison_memory_region(o.p, o.n);
        note("reading one field while the payloads of its siblings are poisoned: " + text(*target, 80) + " of " + text(v));
        { // construct, navigate, look at the target and at the sizes of the siblings
            const typename P::Deserializer rd(ex.span());
            follow(rd, steps, 0, [&](const auto& t) {
                if (!mask_ok<P>(kind_mask<P>(t), *target)) fail("value", "kind differs");
                if (target->k == Val::Str) { if (t.asStringView() != std::string_view(target->s)) fail("value", "string differs"); }
                else if (target->k == Val::Blob) { auto s = t.asBlob(); if (blob_sv(s) != std::string_view(target->s)) fail("value", "blob differs"); }
                else if (target->k == Val::Int) { if (t.asInt64() != target->i) fail("value", "int differs"); }
                else if (target->k == Val::Arr) { for (size_t i = 0; i < t.arraySize(); ++i) { const auto e = t[i]; if (e.isString()) (void)e.asStringView().size(); if (e.isBlob()) (void)e.asBlob().size(); } }
                else if (target->k == Val::Map) { for (std::string_view key : t.mapKeys()) { const auto e = t[key]; if (e.isString()) (void)e.asStringView().size(); if (e.isBlob()) (void)e.asBlob().size(); } }
            });
        }
        for (auto& o : others) __asan_unpoison_memory_region(o.p, o.n);
        uint64_t hidden = 0; for (auto& o : others) hidden += o.n;
        CNT("lazy reads with poisoned siblings") += 1; CNT("sibling payload bytes poisoned") += hidden;
    }
#endif
}

template<class D> static uint64_t watched(bool span_ctor, const Val& v, size_t& budget) {
    AllocWatch w;
    if constexpr (requires(const uint8_t* p, size_t n) { D(p, n); }) { if (!span_ctor) { const D rd(msg.data(), msg.size()); walk(rd, v, budget); return AllocWatch::allocs; } }
    const D rd(msg); walk(rd, v, budget); return AllocWatch::allocs;
}

static void one(uint64_t i, Rng& r) {
    static Guard* guard = new Guard;
    GenOpts o = gen_opts<P>();
    Val v;
    if (i % 11 == 10) v = special_shape(r, o, i % 1100 == 10 ? 0 : r.below(12), i % 1100 == 10 ? 70001 : 400, 200);
    else { if (r.one_in(6)) o.max_depth = 16; v = Gen(r, o).tree(); }
    z::ZBuffer out = write<P>(v, 0);
    Bytes b(out.data(), out.data() + out.size());
    msg = guard->place(b, unsigned(r.below(4))); // read-only: a write is a fault
    note(text(v));
    try {
        if constexpr (kStrict) {
            using D = typename P::Deserializer;
            size_t budget = 500; uint64_t allocs;
            allocs = watched<D>(r.chance(50), v, budget);
            REQUIRE(allocs == 0, "allocates", "%s: reading %s made %llu heap allocations", Tr<P>::name, text(v).c_str(), (unsigned long long)allocs);
            CNT("documents read without allocation") += 1;
        }
        // everything else a reader can do, on memory that cannot be written
        with_reader<P>(msg, int(r.below(uint64_t(Tr<P>::ctors))), [&](const auto& rd) { expect_equal<P>(rd, v, "value", &r); if (stats(v).depth < 50) (void)rd.to_string(); return 0; });
        CNT("documents read from read-only memory") += 1;
    } catch (const std::exception& e) { fail("value", fmt("%s: reading %s threw %s", Tr<P>::name, text(v).c_str(), e.what())); }
    REQUIRE(std::equal(b.begin(), b.end(), msg.begin(), msg.end()), "modified", "the message changed while it was read");
    guard->release();
    if constexpr (std::is_same_v<P, z::Zera>) lazy(v, b, r);
    CNT("views into the message") += views_seen; views_seen = 0; CNT("read operations under the allocation watch") += ops; ops = 0;
    covered(digest(v), stats(v).nodes > 1);
    if (r.one_in(50)) sample(text(v, 200));
}
// The watch itself works: an allocation is seen.
static void self_test() { uint64_t n; { AllocWatch w; volatile auto* s = new std::string(100, 'x'); delete const_cast<std::string*>(s); n = AllocWatch::allocs; } if (n < 2) harness_error("the allocation watch does not see allocations"); }
int main(int c, char** v) { self_test(); return main_loop(c, v, "c04-" VZ_PNAME, one); }
