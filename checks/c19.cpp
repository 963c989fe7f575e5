// C19: reading touches only what is asked for, and writing does work in proportion to the message.
#include "../lib/proto.hpp"
#include "../lib/alloc.hpp"
#include "../lib/pages.hpp"
using namespace vz;
using P = zerialize::VZ_P;
static constexpr bool kZera = std::is_same_v<P, z::Zera>, kFlex = std::is_same_v<P, z::Flex>, kMsg = std::is_same_v<P, z::MsgPack>;
static PageTrace* const pages = new PageTrace(size_t(64) << 20);
static double worst_read = 0, worst_write = 0;

static size_t log2up(size_t n) { size_t k = 0; while ((size_t(1) << k) < n) ++k; return k; }
struct Cost { size_t nodes = 0, bytes = 0, payload = 0; };
static void cost(const Val& v, Cost& c) { // payload: bytes that lie in strings and blobs of more than a page
    ++c.nodes; if (v.k == Val::Str || v.k == Val::Blob) { c.bytes += v.s.size(); if (v.s.size() > 4096) c.payload += v.s.size(); }
    for (auto& e : v.a) cost(e, c); for (auto& [k, e] : v.m) { c.bytes += k.size(); cost(e, c); }
}
static Val small(Rng& r) { switch (r.below(5)) { case 0: return Val::integer(Gen::edge_int(r)); case 1: return Val::dbl(double(r.next())); case 2: return Val::boolean(true); case 3: return Val::null(); default: return Val::str(std::string(r.below(12), 's')); } }
static Val big(Rng& r) { size_t n = r.of<size_t>({20000, 65000, 66000, 130000, 300000}) + r.below(5000); return r.chance(50) ? Val::blob(std::string(n, char(r.next()))) : Val::str(std::string(n, 'a')); }
static Val shape(Rng& r, int k, int depth) {
    switch (k) {
        case 0: { Val v = Val::arr(); size_t n = r.of<size_t>({2000, 20000, 70000, 120000}); for (size_t i = 0; i < n; ++i) v.a.push_back(small(r)); return v; }
        case 1: { Val v = Val::arr(); size_t n = r.range(2, 25); for (size_t i = 0; i < n; ++i) v.a.push_back(r.chance(80) ? big(r) : small(r)); return v; }
        case 2: { Val v = Val::map(); size_t n = r.range(1, 25); for (size_t i = 0; i < n; ++i) v.m.emplace_back("key" + std::string(r.below(30), 'k') + std::to_string(i), r.chance(80) ? big(r) : small(r)); return v; }
        case 3: { Val v = Val::map(); size_t n = r.of<size_t>({200, 3000, 20000}), len = r.below(60); for (size_t i = 0; i < n; ++i) v.m.emplace_back("k" + std::string(len, 'x') + std::to_string(i * 7919 % n), small(r)); return v; }
        default: { Val v = Val::map(); for (int i = 0; i < 3; ++i) v.m.emplace_back("part" + std::to_string(i), depth ? shape(r, int(r.below(5)), depth - 1) : shape(r, 1, 0)); if (r.chance(50)) return v; Val a = Val::arr(); for (auto& [k2, e] : v.m) a.a.push_back(std::move(e)); return a; }
    }
}

// Follows a path to a leaf and looks at it; the pages this may touch are added up on the way.
template<class R> static void follow(const R& rd, const Val& v, Rng& r, size_t& allowed, std::string& path) {
    if (v.k == Val::Arr && !v.a.empty()) {
        size_t i = r.chance(30) ? v.a.size() - 1 : r.below(v.a.size()); allowed += 3; path += fmt("[%zu of %zu]", i, v.a.size());
        follow(rd[i], v.a[i], r, allowed, path); return;
    }
    if (v.k == Val::Map && !v.m.empty()) {
        size_t i = r.chance(30) ? v.m.size() - 1 : r.below(v.m.size()), upto = 0; for (size_t j = 0; j <= i; ++j) upto += 20 + v.m[j].first.size();
        path += fmt("[\"%s\", %zu of %zu]", show(v.m[i].first, 20).c_str(), i, v.m.size());
        allowed += kZera ? 3 + upto / 4096 : 10 + 4 * (log2up(v.m.size()) + 2);
        if (r.chance(30)) { allowed += kZera ? 2 : 4; (void)rd.contains(v.m[i].first); }
        follow(rd[std::string_view(v.m[i].first)], v.m[i].second, r, allowed, path); return;
    }
    allowed += 3;
    switch (v.k) {
        case Val::Str: REQUIRE(rd.asStringView().size() == v.s.size(), "value", "%s: a string at %s has another length", Tr<P>::name, path.c_str()); break;
        case Val::Blob: REQUIRE(rd.asBlob().size() == v.s.size(), "value", "%s: a blob at %s has another length", Tr<P>::name, path.c_str()); break;
        case Val::Int: REQUIRE(rd.asInt64() == v.i, "value", "%s: an integer at %s is another", Tr<P>::name, path.c_str()); break;
        default: (void)rd.isNull(); (void)rd.isFloat(); (void)rd.isBool();
    }
}
static void judge(const char* what, size_t allowed, size_t total, const std::string& path) {
    size_t t = pages->touched;
    if (t > allowed) fail("touches", fmt("%s: %s %s touched %zu pages of a message of %zu pages; at most %zu are on the way", Tr<P>::name, what, path.c_str(), t, total, allowed));
    if (allowed < total) { CNT("operations that could have touched more") += 1; worst_read = std::max(worst_read, double(t) / double(allowed)); }
    CNT("pages touched") += t;
}
static void reading(uint64_t, Rng& r) {
    Val v = shape(r, int(r.below(5)), 1); Cost c; cost(v, c);
    auto buf = write<P>(v, 0); note(fmt("%zu nodes, message of %zu bytes", c.nodes, buf.size()));
    auto m = pages->place(buf.buf()); size_t total = m.size() / 4096 + 2;
    const size_t walk = kMsg ? 2 * c.nodes + (m.size() - c.payload) / 4096 + 6 : 0; // MsgPack has to step over what comes before
    for (int k = 0; k < 12; ++k) {
        int ctor = int(r.below(3)); if (!views<P>(ctor)) ctor = 0;
        pages->arm();
        with_reader<P>(m, ctor, [&](const auto& rd) {
            judge("opening a reader", 4, total, "");
            (void)rd.isMap(); (void)rd.isNull(); (void)rd.isBlob(); (void)rd.isString(); if (rd.isArray()) (void)rd.arraySize();
            judge("asking the kind and size of the root", 7, total, "");
            if (v.k == Val::Map && r.chance(25)) {
                size_t n = 0, bytes = 0; for (std::string_view key : rd.mapKeys()) { ++n; bytes += key.size() + 20; }
                REQUIRE(n == v.m.size(), "value", "%s: %zu keys of %zu", Tr<P>::name, n, v.m.size());
                judge("iterating the keys", kZera ? 8 + bytes / 4096 : kFlex ? 10 + 2 * n + n * 16 / 4096 : walk, total, ""); CNT("key iterations traced") += 1;
                return 0;
            }
            size_t allowed = 7; std::string path = "root"; follow(rd, v, r, allowed, path);
            judge("reading", kMsg ? walk : allowed, total, path); CNT("paths traced") += 1;
            return 0;
        });
    }
    pages->open();
    covered(digest(v), true);
}

// Total bytes allocated while writing, in relation to the message.
template<class F> static void linear(const char* what, F&& f, size_t size = 0) {
    int64_t total;
    { PeakWatch w; auto b = f(); w.stop(); if constexpr (requires { b.size(); }) size = b.size(); total = w.total; }
    double per = double(total) / double(40 * size + (1 << 16)); worst_write = std::max(worst_write, per);
    if (per > 1) fail("writing", fmt("%s: %s allocated %lld bytes in all to make a message of %zu bytes", Tr<P>::name, what, (long long)total, size));
    CNT("serializations measured") += 1; CNT("message bytes measured") += size;
}
static void writing(uint64_t i, Rng& r) {
    Val v;
    switch (r.below(4)) {
        case 0: v = shape(r, int(r.below(5)), 1); break;
        case 1: { v = small(r); size_t d = r.of<size_t>({10, 200, 900}); bool keyed = r.chance(50); size_t wide = r.below(8); for (size_t k = 0; k < d; ++k) { if (keyed) { Val x = Val::map({{"k", std::move(v)}}); for (size_t j = 0; j < wide; ++j) x.m.emplace_back("w" + std::to_string(j), small(r)); v = std::move(x); } else { Val x = Val::arr({std::move(v)}); for (size_t j = 0; j < wide; ++j) x.a.push_back(small(r)); v = std::move(x); } } break; }
        case 2: { // many small values, of one kind or mixed
            bool mapped = r.chance(30); v = mapped ? Val::map() : Val::arr(); size_t n = r.of<size_t>({500, 5000, 30000}), kind = r.below(6);
            for (size_t k = 0; k < n; ++k) {
                Val x; switch (kind == 5 ? r.below(5) : kind) { case 0: x = Val::str(std::string(13 + r.below(40), 't')); break; case 1: x = Val::blob(std::string(r.below(50), 'b')); break; case 2: x = Val::arr({small(r)}); break; case 3: x = Val::map({{"q", small(r)}}); break; default: x = small(r); }
                if (mapped) v.m.emplace_back("n" + std::to_string(k), std::move(x)); else v.a.push_back(std::move(x));
            } break; }
        default: { GenOpts o = gen_opts<P>(); v = Gen(r, o).tree(); }
    }
    note(text(v, 200));
    linear("direct writer calls", [&] { return write<P>(v, 0); });
    if (i % 3 == 0) linear("the type-erased writer", [&] { return write<P>(v, 3); });
    if (i % 3 == 1) { auto d = to_dyn(v); linear("serializing a dynamic value", [&] { return z::serialize<P>(d); }); }
    if (i % 3 == 2) {
        std::string s(r.of<size_t>({10, 5000, 400000}), 's'); std::vector<std::byte> b(r.of<size_t>({10, 5000, 400000})); std::vector<int> n(r.of<size_t>({3, 1000, 60000}), 7); std::span<const std::byte> sp(b);
        linear("a builder", [&] { return z::serialize<P>(z::zmap<"s", "b", "v">(s, sp, z::zvec(n, s, 3))); });
    }
    if (stats(v).depth < 1000 && stats(v).nodes < 3000) { // MsgPack sources are walked again for each element
        auto buf = write<P>(v, 0); const typename P::Deserializer rd(buf.buf());
        try {
            if (i % 2) linear("translation to Zera", [&] { return z::translate<z::Zera>(rd); }, write<z::Zera>(v, 0).size());
            else linear("translation to MsgPack", [&] { return z::translate<z::MsgPack>(rd); }, write<z::MsgPack>(v, 0).size());
            CNT("translations measured") += 1;
        }
        catch (const std::exception&) {}
    }
    covered(digest(v), stats(v).nodes > 1);
}
static void one(uint64_t i, Rng& r) {
    if (i % 2) reading(i, r); else writing(i, r);
    if (std::getenv("VZ_WORST")) std::fprintf(stderr, "%s %.3f %.3f\n", Tr<P>::name, worst_read, worst_write);
}
int main(int c, char** v) { return main_loop(c, v, "c19-" VZ_PNAME, one); }
