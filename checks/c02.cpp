// C02: translation between protocols preserves the data.
#include "../lib/proto.hpp"
using namespace vz;
using S = zerialize::VZ_P;

// Calls f.template operator()<P>() for protocol number n.
static constexpr int kProtos = 3
#ifndef VZ_NOJSON
    + 1
#endif
#ifndef VZ_NOCBOR
    + 1
#endif
    ;
template<class F> auto dispatch(int n, F&& f) {
    switch (n) {
        case 0: return f.template operator()<z::Zera>();
        case 1: return f.template operator()<z::MsgPack>();
        case 2: return f.template operator()<z::Flex>();
#ifndef VZ_NOJSON
        case 3: return f.template operator()<z::JSON>();
#endif
#ifndef VZ_NOCBOR
        case kProtos - 1: return f.template operator()<z::CBOR>();
#endif
    }
    harness_error("no such protocol");
}

template<class D> std::string pair_key(const char* what) { return fmt("%s-%s-to-%s", what, Tr<S>::name, Tr<D>::name); }

// Walk to a random sub-value; f gets the reader of it and the model value.
template<class R, class F> void descend(const R& rd, const Val& v, Rng& r, int depth, F&& f) {
    if (depth <= 0 || (v.k == Val::Arr ? v.a.empty() : v.k == Val::Map ? v.m.empty() : true)) { f(rd, v); return; }
    if (v.k == Val::Arr) { size_t i = r.below(std::min<size_t>(v.a.size(), 400)); const auto sub = rd[i]; descend(sub, v.a[i], r, depth - 1, f); }
    else { auto& e = v.m[r.below(std::min<size_t>(v.m.size(), 400))]; const auto sub = rd[std::string_view(e.first)]; descend(sub, e.second, r, depth - 1, f); }
}

template<class Src> constexpr bool exact(bool so_far) { return so_far && Tr<Src>::exact_sign; }

// Translate rd (holding v) through `left` more protocols, checking at every stop.
template<class P, class R> void chain(const R& rd, const Val& v, Rng& r, int left, bool sign_free, std::string& trail) {
    dispatch(int(r.below(kProtos)), [&]<class D>() {
        if (!representable<D>(v)) return;
        size_t len = trail.size(); trail += std::string(">") + Tr<D>::name;
        const auto out = z::translate<D>(rd);
        bool sf = sign_free || !Tr<P>::exact_sign;
        expect_equal<D>(out, v, fmt("chain-to-%s", Tr<D>::name), &r, sf);
        CNT("chained translations") += 1;
        if (left > 1) chain<D>(out, v, r, left - 1, sf, trail);
        trail.resize(len);
    });
}

template<class D, class R> void to(const R& rd, const Val& v, Rng& r) {
    const bool sf = !Tr<S>::exact_sign;
    if (!representable<D>(v)) {
        bool threw = false; Val got;
        try { auto out = z::translate<D>(rd); got = read_all<D>(out); } catch (const std::exception&) { threw = true; }
        REQUIRE(threw, pair_key<D>("altered"), "%s cannot hold %s, but translating it from %s did not throw; the result is %s", Tr<D>::name, text(v).c_str(), Tr<S>::name, text(got).c_str());
        CNT("unrepresentable translations refused") += 1;
        return;
    }
    try {
        auto out = z::translate<D>(rd);
        CNT("values compared after translation") += expect_equal<D>(out, v, pair_key<D>("translate"), &r, sf);
        if constexpr (std::is_copy_constructible_v<R>) if (r.one_in(6)) { auto again = z::translate_bytes<D>(rd); expect_equal<D>(again, v, pair_key<D>("translate-bytes"), &r, sf); CNT("values compared after translate_bytes") += 1; }
        // and once more into the middle of another document
        if (r.chance(30)) {
            typename D::RootSerializer rs; typename D::Serializer w(rs);
            w.begin_array(3); z::write_value(rd, w); w.begin_map(1); w.key("k"); z::write_value(rd, w); w.end_map(); w.string("end"); w.end_array();
            z::ZBuffer b = rs.finish(); typename D::Deserializer d(b.buf());
            Val both = Val::arr({v, Val::map({{"k", v}}), Val::str("end")});
            if (representable<D>(both)) expect_equal<D>(d, both, pair_key<D>("embedded"), &r, sf);
            CNT("embedded translations") += 1;
        }
    } catch (const std::exception& e) { fail(pair_key<D>("refused"), fmt("%s -> %s of %s threw: %s", Tr<S>::name, Tr<D>::name, text(v).c_str(), e.what())); }
}

static void deep(Rng& r) {
    size_t d = r.of<size_t>({200, 800, 1023, 1024, 1026, 1030, 2000, 6000});
    if (d > 1000 && !(std::is_same_v<S, z::Zera> || std::is_same_v<S, z::MsgPack>)) d = 900;
    bool maps = r.chance(50);
    typename S::RootSerializer rs; typename S::Serializer w(rs);
    for (size_t i = 0; i < d; ++i) { if (maps) { w.begin_map(1); w.key("k"); } else w.begin_array(1); }
    w.int64(-5);
    for (size_t i = 0; i < d; ++i) { if (maps) w.end_map(); else w.end_array(); }
    z::ZBuffer b = rs.finish(); Exact ex(b.buf()); const typename S::Deserializer rd(ex.span());
    int which = int(r.below(kProtos));
    dispatch(which, [&]<class D>() {
        bool ok = false; std::string why;
        try {
            typename D::RootSerializer rs2; typename D::Serializer w2(rs2); z::write_value(rd, w2); auto out = rs2.finish(); ok = true;
            if (!Tr<D>::json) { const typename D::Deserializer o(out.buf()); REQUIRE(maps ? o.isMap() : o.isArray(), pair_key<D>("deep"), "depth %zu: wrong kind at the top", d); }
            if (d <= 1024) {
                const typename D::Deserializer o(out.buf());
                std::function<void(const typename D::Deserializer&)> unused;
                Val leaf; size_t levels = 0;
                auto walk = [&](auto&& self, const auto& x) -> void { if (x.isMap()) { ++levels; self(self, x["k"]); } else if (x.isArray()) { ++levels; self(self, x[size_t(0)]); } else leaf = read_all<D>(x); };
                walk(walk, o);
                REQUIRE(levels == d && same(leaf, Val::integer(-5), true), pair_key<D>("deep"), "nesting %zu came out as %zu, leaf %s", d, levels, text(leaf).c_str());
            }
        } catch (const std::exception& e) { why = e.what(); }
        if (d <= 1024) REQUIRE(ok, pair_key<D>("deep"), "nesting %zu is within the limit but translating threw: %s", d, why.c_str());
        if (d > 1025) REQUIRE(!ok, pair_key<D>("deep"), "nesting %zu is beyond the documented limit of 1024 but translating did not throw", d);
        count(d > 1025 ? "too deep refused" : "deep translated");
    });
}

// More items than a 16-bit count holds, from the sources whose items are found in constant time.
static void big(Rng& r) {
    const bool map = std::is_same_v<S, z::Flex> && r.chance(50);
    Val v = special_shape(r, common_opts(), map, 70001, 1); note(text(v));
    z::ZBuffer buf = write<S>(v, 0); const typename S::Deserializer rd(buf.buf());
    dispatch(int(r.below(kProtos)), [&]<class D>() {
        const auto out = z::translate<D>(rd); const size_t n = map ? v.m.size() : v.a.size(); size_t got = 0;
        if (map) for (std::string_view k : out.mapKeys()) { (void)k; ++got; } else got = out.arraySize();
        REQUIRE(got == n, pair_key<D>("items"), "%zu items came out as %zu", n, got);
        for (size_t k : {size_t(0), n - 1, n / 2, size_t(255), size_t(256), size_t(65533), size_t(r.below(n)), size_t(r.below(n)), n - 1 - r.below(10)}) {
            if (map) { const auto e = out[std::string_view(v.m[k].first)]; expect_equal<D>(e, v.m[k].second, pair_key<D>("items"), &r, !Tr<S>::exact_sign); }
            else { const auto e = out[k]; expect_equal<D>(e, v.a[k], pair_key<D>("items"), &r, !Tr<S>::exact_sign); } }
        CNT("documents of more than 65533 items translated") += 1;
    });
    covered(digest(v), true);
}

static void one(uint64_t i, Rng& r) {
    if (i % 300 == 107 && (std::is_same_v<S, z::Zera> || std::is_same_v<S, z::Flex>)) { big(r); return; }
    if (i % 29 == 28) { deep(r); covered(mix(i), false); return; }
    GenOpts o = r.chance(70) ? common_opts() : gen_opts<S>();
    if (Tr<S>::json) o = common_opts(), o.nul_keys = true;
    if (std::string_view(Tr<S>::name) == "Flex") o.nul_keys = false;
    Val v;
    if (i % 10 == 9) v = special_shape(r, o, r.below(12), 450, 300);
    else if (i % 150 == 47) v = Val::arr({Val::str(Gen(r, o).content(r.of<size_t>({1048575, 1048576, 1048577, 1500000, 2097153}), o.utf8, true)), Val::blob(Gen(r, o).content(1048570 + r.below(20), false, true)), Val::str("end")});
    else if (i % 10 == 8) { // documents with tensors in them
        Gen g(r, o); v = Val::map();
        for (int k = 0; k < 3; ++k) { size_t n = r.below(5), m = r.below(5); v.m.emplace_back("t" + std::to_string(k), Val::arr({Val::integer(int64_t(r.below(12))), Val::arr({Val::uinteger(n), Val::uinteger(m)}), Val::blob(g.content(n * m * 8, false, true))})); }
        v.m.emplace_back("rest", g.tree());
    } else { if (r.one_in(8)) o.max_depth = 20; v = Gen(r, o).tree(); }
    if (!representable<S>(v)) harness_error("generated an unrepresentable source");
    note(text(v));
    z::ZBuffer buf = write<S>(v, int(r.below(kWriteModes)));
    Exact ex(buf.buf());
    std::string before(reinterpret_cast<const char*>(ex.p), ex.n);
    with_reader<S>(ex.span(), int(r.below(uint64_t(Tr<S>::ctors))), [&](const auto& rd) {
        for (int d = 0; d < kProtos; ++d) dispatch(d, [&]<class D>() { to<D>(rd, v, r); });
        for (int k = 0; k < 2; ++k) descend(rd, v, r, int(r.range(1, 5)), [&](const auto& sub, const Val& sv) { // translate a part of the document
            dispatch(int(r.below(kProtos)), [&]<class D>() { to<D>(sub, sv, r); });
            count(std::string("sub-values translated"));
        });
        std::string trail = Tr<S>::name;
        chain<S>(rd, v, r, int(r.range(2, 5)), false, trail);
        expect_equal<S>(rd, v, "source-changed", &r); // the source still reads the same
        return 0;
    });
    REQUIRE(before == std::string_view(reinterpret_cast<const char*>(ex.p), ex.n), "source-changed", "translating modified the source message of %s", text(v).c_str());
    auto st = stats(v);
    covered(digest(v), st.nodes > 1 || st.bytes > 0);
    if (r.one_in(40)) sample(std::string(Tr<S>::name) + " " + text(v, 200));
}
int main(int c, char** v) { return main_loop(c, v, "c02-" VZ_PNAME, one); }
