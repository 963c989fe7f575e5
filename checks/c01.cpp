// C01: serialize then read back is lossless.
#include "../lib/proto.hpp"
using namespace vz;
using P = zerialize::VZ_P;

static void unrepresentable(Rng& r) {
    // A value the protocol cannot hold must make serialization throw.
    std::string_view n = Tr<P>::name;
    Gen g(r, gen_opts<P>());
    Val bad;
    auto bad_utf8 = [&] { return r.of<std::string>({"\xff", "abc\x80", "\xc3", "\xed\xa0\x80", "\xf5\x80\x80\x80", std::string(30, 'a') + "\xc0\xaf"}); };
    if (n == "Zera") bad = Val::map({{std::string(r.of<size_t>({65536, 65537, 65548, 70000, 131072}), 'k'), Val::integer(1)}});
    else if (n == "Flex") { std::string k = g.content(r.range(1, 20), false, false); k[r.below(k.size())] = 0; bad = Val::map({{k, Val::integer(1)}}); }
    else if (n == "Json") bad = r.chance(50) ? Val::dbl(r.of<double>({INFINITY, -INFINITY, NAN})) : r.chance(50) ? Val::str(bad_utf8()) : Val::map({{bad_utf8(), Val::null()}});
    else if (n == "Cbor") bad = r.chance(50) ? Val::str(bad_utf8()) : Val::map({{bad_utf8(), Val::null()}});
    else return;
    Val v = r.chance(50) ? bad : Val::arr({g.tree(), bad, Val::map({{"k", bad}})});
    if (representable<P>(v)) harness_error("value was meant to be unrepresentable");
    for (int mode = 0; mode < kWriteModes; ++mode) {
        z::ZBuffer out; bool threw = false;
        try { out = write<P>(v, mode); } catch (const std::exception&) { threw = true; }
        REQUIRE(threw, "unrepresentable-accepted", "%s (write mode %d) accepted a value it cannot represent: %s -> %s", Tr<P>::name, mode, text(v).c_str(), hex(out.buf()).c_str());
    }
    CNT("unrepresentable values refused") += 1;
}

static void one(uint64_t i, Rng& r) {
    if (i % 37 == 36) { unrepresentable(r); covered(mix(i), false); return; }
    GenOpts o = gen_opts<P>();
    Val v;
    // CBOR and MsgPack index linearly, so huge containers are sampled; see Comparer.
    if (i % 10 == 9) {
        size_t max_items = (i % 230 == 9 || run().thorough) ? 80000 : 600;
        v = special_shape(r, o, r.below(12), max_items, 1000);
    } else if (i == 3 || i == 5) { // offsets beyond 2^24
        Gen g(r, o); v = Val::arr(); std::string s(9'000'000, 'x'); for (size_t k = 0; k < s.size(); k += 4096) s[k] = char('a' + k / 4096 % 26);
        v.a = {Val::str(s), Val::blob(s), Val::str("after a long string, in the arena"), Val::map({{"k", Val::blob(std::string(33, '\x7f'))}}), Val::str(s.substr(1)), Val::integer(-5)};
    } else {
        if (r.one_in(40)) { o.max_nodes = 1500; o.max_bytes = 100000; }
        if (r.one_in(8)) o.max_depth = 20;
        v = Gen(r, o).tree();
    }
    if (!representable<P>(v)) harness_error("generated an unrepresentable value");
    note(text(v));
    int mode = int(r.below(kWriteModes));
    std::string before = run().verbose ? text(v) : "";
    z::ZBuffer buf;
    if constexpr (std::is_same_v<P, z::Zera>) {
        if (r.chance(25)) { // the inline-string threshold is a public knob of the Zera writer
            z::Zera::RootSerializer rs; rs.set_inline_string_threshold(uint32_t(r.below(13))); z::Zera::Serializer w(rs); emit(v, w); buf = rs.finish(); mode = -1;
        }
    }
    if (mode >= 0) { try { buf = write<P>(v, mode); } catch (const std::exception& e) { fail("representable-refused", fmt("%s refused %s: %s", Tr<P>::name, text(v).c_str(), e.what())); } }
    Exact ex(buf.buf());
    int c = int(r.below(uint64_t(Tr<P>::ctors)));
    CNT("values read back") += with_reader<P>(ex.span(), c, [&](const auto& rd) { return expect_equal<P>(rd, v, "round-trip", &r); });
    CNT("message bytes") += buf.size();
    auto st = stats(v);
    count(fmt("cases by depth %s", st.depth < 2 ? "0-1" : st.depth < 8 ? "2-7" : st.depth < 64 ? "8-63" : "64+"));
    covered(digest(v), st.nodes > 1 || st.bytes > 0);
    if (r.one_in(50)) sample(std::string(Tr<P>::name) + " " + text(v, 200));
}
int main(int c, char** v) { return main_loop(c, v, "c01-" VZ_PNAME, one); }
