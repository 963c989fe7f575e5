// C06: predicates, accessors, lookup and iteration agree with each other.
#include "../lib/proto.hpp"
using namespace vz;
using P = zerialize::VZ_P;

static Path path;
[[noreturn]] static void bad(const char* key, const std::string& m) { fail(key, std::string(Tr<P>::name) + " at " + path.str() + ": " + m); }

template<class F> static bool refuses(const char* what, F&& f) { // true: DeserializationError
    try { f(); return false; }
    catch (const DeserializationError&) { CNT("refusals observed") += 1; return true; }
    catch (const std::exception& e) { bad("wrong-exception", std::string(what) + " threw something other than DeserializationError: " + e.what()); }
}

template<class R> static void other_accessors(const R& rd, const Val& v) {
    auto no = [&](bool applies, const char* what, auto&& f) { if (!applies && !refuses(what, f)) bad("wrong-kind-accepted", std::string(what) + " returned a value on a " + v.kname() + " " + text(v, 80)); };
    bool num = v.k == Val::Int || v.k == Val::UInt;
    bool arr = v.k == Val::Arr || (v.k == Val::Blob && Tr<P>::json);
    no(v.k == Val::Bool, "asBool", [&] { (void)rd.asBool(); });
    no(num, "asInt8", [&] { (void)rd.asInt8(); });
    no(num, "asInt16", [&] { (void)rd.asInt16(); });
    no(num, "asInt32", [&] { (void)rd.asInt32(); });
    no(num, "asInt64", [&] { (void)rd.asInt64(); });
    no(num, "asUInt8", [&] { (void)rd.asUInt8(); });
    no(num, "asUInt16", [&] { (void)rd.asUInt16(); });
    no(num, "asUInt32", [&] { (void)rd.asUInt32(); });
    no(num, "asUInt64", [&] { (void)rd.asUInt64(); });
    no(v.k == Val::Dbl, "asFloat", [&] { (void)rd.asFloat(); });
    no(v.k == Val::Dbl, "asDouble", [&] { (void)rd.asDouble(); });
    no(v.k == Val::Str, "asString", [&] { (void)rd.asString(); });
    no(v.k == Val::Str, "asStringView", [&] { (void)rd.asStringView(); });
    no(v.k == Val::Blob, "asBlob", [&] { (void)rd.asBlob(); });
    no(arr, "arraySize", [&] { (void)rd.arraySize(); });
    no(arr, "operator[](0)", [&] { (void)rd[size_t(0)]; });
    no(v.k == Val::Map, "operator[](key)", [&] { (void)rd[std::string_view("a")]; });
    no(v.k == Val::Map, "operator[](empty key)", [&] { (void)rd[std::string_view("")]; });
    no(v.k == Val::Map, "mapKeys", [&] { auto ks = rd.mapKeys(); for (auto k : ks) (void)k; });
    if (v.k != Val::Map && (rd.contains("a") || rd.contains(""))) bad("contains-on-non-map", "contains() is true on a " + std::string(v.kname()));
}

template<class R> static std::vector<std::string> keys_of(const R& rd) { std::vector<std::string> o; for (std::string_view k : rd.mapKeys()) o.emplace_back(k); return o; }

template<class R, class Parent> static void map_checks(const R& rd, const Val& v, Rng& r, const Parent& again) {
    std::vector<std::string> ks = keys_of(rd);
    std::set<std::string, std::less<>> set(ks.begin(), ks.end());
    if (set.size() != ks.size()) bad("key-twice", fmt("%zu keys iterated, %zu distinct", ks.size(), set.size()));
    if (ks.size() != v.m.size()) bad("key-count", fmt("%zu keys iterated, %zu written", ks.size(), v.m.size()));
    for (auto& [k, e] : v.m) if (!set.count(k)) bad("key-lost", "key " + show(k) + " is not iterated");
    if (keys_of(rd) != ks) bad("key-order", "a second iteration gives different keys");
    { // multi-pass: two iterators over one range move independently
        auto view = rd.mapKeys();
        auto a = view.begin(), b = view.begin(); auto e = view.end();
        size_t n = 0;
        while (!(a == e)) {
            if (n >= ks.size()) bad("multi-pass", "iteration does not end after the last key");
            if (*a != ks[n]) bad("multi-pass", "key changed between passes");
            auto old = a; auto ret = a++;
            if (*ret != ks[n] || *old != ks[n] || !(old == ret)) bad("multi-pass", "post-increment does not keep the old position");
            if (old == a) bad("multi-pass", "incrementing does not change the iterator");
            ++n;
        }
        if (n != ks.size()) bad("multi-pass", fmt("second pass saw %zu of %zu keys", n, ks.size()));
        for (size_t i = 0; i < ks.size(); ++i, ++b) if (*b != ks[i]) bad("multi-pass", "the second iterator was moved by the first");
        if (!(b == e)) bad("multi-pass", "the second iterator does not reach the end");
        auto copy = view; size_t m = 0; for (std::string_view k : copy) { if (m >= ks.size() || k != ks[m]) bad("multi-pass", "a copied range gives other keys"); ++m; }
        if (size_t(std::ranges::distance(view)) != ks.size()) bad("multi-pass", "std::ranges::distance disagrees");
        CNT("multi-pass iterations") += 1;
    }
    { // the value the keys came from is a temporary that is gone by now
        auto view = again().mapKeys(); // in this frame: the sanitizer sees a use after scope
        auto it = view.begin();
        if (ks.size() > 1) ++it;
        std::vector<std::string> got; for (std::string_view k : view) got.emplace_back(k);
        if (got != ks) bad("temporary", "keys of a temporary sub-value differ");
        if (ks.size() > 1 && *it != ks[1]) bad("temporary", "iterator over the keys of a temporary sub-value reads " + show(*it));
        std::vector<std::string_view> held; { auto v2 = again().mapKeys(); for (std::string_view k : v2) held.push_back(k); } // keys outlive the range too
        for (size_t i = 0; i < ks.size(); ++i) if (held[i] != ks[i]) bad("temporary", "a key view changed after its range was destroyed");
        CNT("iterations over temporaries") += 1;
    }
    // positive lookups
    std::vector<size_t> idx; for (size_t i = 0; i < ks.size(); ++i) if (ks.size() <= 60 || r.below(ks.size()) < 40 || i == 0 || i + 1 == ks.size()) idx.push_back(i);
    for (size_t i : idx) {
        if (!rd.contains(ks[i])) bad("contains", "contains() denies the iterated key " + show(ks[i]));
        try { (void)rd[std::string_view(ks[i])]; } catch (const std::exception& e) { bad("lookup", "lookup of the iterated key " + show(ks[i]) + " threw: " + e.what()); }
        CNT("positive lookups") += 1;
    }
    // negative lookups: neighbours of real keys
    std::vector<std::string> probes{"", std::string(1, '\0'), "definitely not a key", "\xff\xff", std::string(70000, 'k')};
    for (size_t q = 0; q < std::min<size_t>(ks.size(), 4); ++q) {
        const std::string& k = ks[r.below(ks.size())];
        probes.push_back(k + '\0'); probes.push_back(k + "x"); probes.push_back(" " + k); probes.push_back(k + k);
        if (!k.empty()) {
            probes.push_back(k.substr(0, k.size() - 1)); probes.push_back(k.substr(1)); probes.push_back(k.substr(0, k.size() / 2));
            std::string t = k; t.back() = char(t.back() ^ 0x20); probes.push_back(t); t = k; t[0] = char(t[0] ^ 0x20); probes.push_back(t);
            t = k; t[r.below(t.size())] ^= char(1 + r.below(255)); probes.push_back(t); t = k; t[r.below(t.size())] = 0; probes.push_back(t);
            if (k.size() > 8) { t = k; t[8] = char(t[8] ^ 1); probes.push_back(t); }
            t = k; t[k.size() / 2] = char(t[k.size() / 2] ^ 0x80); probes.push_back(t);
        }
        probes.push_back(std::string(k.c_str())); // cut at a NUL
        probes.push_back(k.substr(0, k.size() & 0xff)); if (k.size() < 60000) probes.push_back(k + std::string(256, 'p'));
    }
    for (auto& p : probes) {
        if (set.count(p)) continue;
        Exact key({reinterpret_cast<const uint8_t*>(p.data()), p.size()}); // no byte beyond the key may be read
        std::string_view sv(reinterpret_cast<const char*>(key.p), key.n);
        if (rd.contains(sv)) bad("phantom-key", "contains(" + show(p) + ") is true but the key is not in the map");
        if (!refuses("lookup of a missing key", [&] { (void)rd[sv]; })) bad("phantom-key", "lookup of " + show(p) + " succeeded but the key is not in the map");
        CNT("negative lookups") += 1;
    }
}

static size_t budget;
template<class R, class Again> static void visit(const R& rd, const Val& v, Rng& r, const Again& again) {
    if (!budget) return; --budget;
    unsigned m = kind_mask<P>(rd);
    if (!mask_ok<P>(m, v)) bad("predicates", std::string("predicates of a ") + v.kname() + " " + text(v, 60) + " say " + mask_text(m));
    if (kind_mask<P>(rd) != m) bad("predicates", "predicates changed between two calls");
    count(std::string("values visited: ") + v.kname());
    other_accessors(rd, v);
    if (v.k == Val::Arr || (v.k == Val::Blob && Tr<P>::json)) {
        size_t n = rd.arraySize(), want = v.k == Val::Arr ? v.a.size() : 3;
        if (n != want) bad("array-size", fmt("size %zu, %zu written", n, want));
        for (size_t i : {n, n + 1, n + 15, n * 2 + 1, n + 255, n + 256, n + 65536, n + (size_t(1) << 28), n + (size_t(1) << 32), (size_t(1) << 32), size_t(INT64_MAX), size_t(INT64_MAX) + 1, SIZE_MAX, SIZE_MAX - 1})
            if (i >= n && !refuses("out-of-range index", [&] { (void)rd[i]; })) bad("index-range", fmt("index %zu of an array of %zu returned a value", i, n));
        CNT("out-of-range indexes refused") += 14;
    }
    if (v.k == Val::Arr) {
        for (size_t k = 0; k < v.a.size(); ++k) {
            if (v.a.size() > 40 && k > 10 && k + 10 < v.a.size() && r.below(v.a.size()) > 20) continue;
            Path::Step st(path, fmt("[%zu]", k));
            const auto sub = rd[k];
            using Sub = std::remove_cvref_t<decltype(sub)>;
            visit(sub, v.a[k], r, std::function<Sub()>([&]() -> Sub { return again()[k]; }));
        }
    } else if (v.k == Val::Map) {
        map_checks(rd, v, r, again);
        for (size_t k = 0; k < v.m.size(); ++k) {
            if (v.m.size() > 40 && k > 10 && k + 10 < v.m.size() && r.below(v.m.size()) > 20) continue;
            auto& key = v.m[k].first;
            Path::Step st(path, "." + show(key, 20));
            const auto sub = rd[std::string_view(key)];
            using Sub = std::remove_cvref_t<decltype(sub)>;
            visit(sub, v.m[k].second, r, std::function<Sub()>([&]() -> Sub { return again()[std::string_view(key)]; }));
        }
    } else if (v.k == Val::Str) {
        if (rd.asStringView() != v.s || rd.asString() != v.s) bad("accessor", "string accessors disagree with the value written");
    } else if (v.k == Val::Blob) {
        auto b1 = rd.asBlob(); auto b2 = rd.asBlob(); if (blob_sv(b1) != v.s || blob_sv(b2) != v.s) bad("accessor", "blob accessor disagrees with the value written");
    }
}

static void one(uint64_t i, Rng& r) {
    GenOpts o = gen_opts<P>();
    Val v;
    if (i % 300 == 299) { // more keys than a 16-bit count holds
        v = special_shape(r, o, 1, 65534 + r.below(6), 1); if (r.chance(50)) for (size_t k = 0; k < 70000; ++k) v.m.emplace_back("more" + std::to_string(k), Val::uinteger(k)); }
    else if (i % 6 == 5) v = special_shape(r, o, r.below(12), 500, 60);
    else {
        if (r.chance(50)) { o.max_nodes = 200; o.max_depth = 8; }
        v = Gen(r, o).tree();
        if (v.k != Val::Map && r.chance(60)) v = Val::map({{"a", v}, {"", Gen(r, o).tree()}, {"ab", Gen(r, o).leaf()}});
    }
    note(text(v));
    Exact ex(write<P>(v, 0).buf());
    budget = run().thorough ? 300 : 70; path.p.clear();
    with_reader<P>(ex.span(), int(r.below(uint64_t(Tr<P>::ctors))), [&](const auto& rd) {
        try { visit(rd, v, r, [&]() -> const auto& { return rd; }); }
        catch (const std::exception& e) { bad("refused", std::string("reading a well-formed value threw: ") + e.what()); }
        return 0;
    });
    auto st = stats(v);
    covered(digest(v), st.nodes > 2);
    if (r.one_in(50)) sample(text(v, 200));
}
int main(int c, char** v) { return main_loop(c, v, "c06-" VZ_PNAME, one); }
