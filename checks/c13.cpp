// C13: readers accept every conforming message from other writers.
#include "../lib/proto.hpp"
#include "../lib/ref.hpp"
#include "../lib/walk.hpp"
using namespace vz;
using P = zerialize::VZ_P;

template<class PP> static ref::Bytes foreign(const Val& v, Rng& r, bool& chunked) {
    std::string_view n = Tr<PP>::name; chunked = false;
    if (n == "Zera") { auto b = ref::ZeraEncoder(r).encode(v); return b; }
    if (n == "MsgPack") { ref::Bytes b; ref::msgpack_put(b, v, r); return b; }
    if (n == "Flex") { ref::FlexEncoder e(r); auto b = e.encode(v); CNT("typed vectors written by the official builder") += e.typed_vectors(); return b; }
    if (n == "Cbor") { ref::Bytes b; ref::CborStyle st; st.chunk_strings = r.chance(50); chunked = st.chunk_strings; st.chunk_keys = r.chance(50); ref::cbor_put(b, v, r, st); return b; }
    std::string s = ref::JsonEncoder(r).encode(v); return ref::Bytes(s.begin(), s.end());
}
// The encoders themselves are checked against the decoders, so that a mistake in one of
// them is a harness error and not a violation.
template<class PP> static Val decode(const ref::Bytes& b) {
    std::string_view n = Tr<PP>::name;
    if (n == "Zera") return ref::ZeraDecoder(b, 12, false).decode();
    if (n == "MsgPack") { ref::In in{b}; Val v = ref::msgpack_item(in); ref::need(in.p == b.size(), "trailing bytes"); if (stats(v).depth < 30) ref::msgpack_c_accepts(b); return v; } // msgpack-c stops at depth 32
    if (n == "Cbor") { ref::In in{b}; Val v = ref::cbor_item(in, false); ref::need(in.p == b.size(), "trailing bytes"); return v; }
    if (n == "Json") return ref::JsonDecoder({reinterpret_cast<const char*>(b.data()), b.size()}).decode();
    return Val();
}

// Arrays of one kind, for typed vectors and long runs of one width.
static Val uniform(Rng& r, const GenOpts& o) {
    Val v = Val::arr(); size_t n = r.chance(50) ? 1 + r.below(5) : r.below(40); int k = int(r.below(6)); unsigned w = unsigned(r.range(1, 63));
    for (size_t i = 0; i < n; ++i) switch (k) {
        case 0: { int64_t x = int64_t(r.next() & ((1ull << w) - 1)); v.a.push_back(Val::integer(r.chance(50) ? x : -x)); break; }
        case 1: v.a.push_back(Val::uinteger(r.next() & ((1ull << w) - 1))); break;
        case 2: v.a.push_back(Val::dbl(double(float(int(r.below(2000)) - 1000) / 8))); break;
        case 3: v.a.push_back(Val::dbl(Gen::edge_double(r, o.finite))); break;
        case 4: v.a.push_back(Val::boolean(r.chance(50))); break;
        default: v.a.push_back(Val::str(Gen(r, o).content(r.below(20), o.utf8, true)));
    }
    return v;
}

static void one(uint64_t i, Rng& r) {
    GenOpts o = gen_opts<P>(); if (r.one_in(6)) o.max_depth = 14;
    Val v;
    unsigned w = unsigned(r.below(12));
    if (w == 0) v = special_shape(r, o, r.below(12), r.one_in(30) ? 70000 : 500, 200);
    else if (w < 4) v = r.chance(50) ? uniform(r, o) : Val::map({{"a", uniform(r, o)}, {"b", Val::arr({uniform(r, o), uniform(r, o)})}, {"c", uniform(r, o)}});
    else v = Gen(r, o).tree();
    note(text(v));
    bool chunked; ref::Bytes b = foreign<P>(v, r, chunked);
    if (std::string_view(Tr<P>::name) != "Flex") {
        std::string why; try { Val back = decode<P>(b); if (!same(v, back, true, &why)) harness_error("reference encoder and decoder disagree: " + why); } catch (const ref::Bad& e) { harness_error(std::string("reference encoder wrote a bad message: ") + e.what()); }
    } else {
        std::string why; Val back = ref::flex_any(flexbuffers::GetRoot(b)); if (!same(v, back, false, &why)) harness_error("official builder and reader disagree: " + why);
        std::vector<uint8_t> t; if (!flexbuffers::VerifyBuffer(b.data(), b.size(), &t)) { CNT("messages the official verifier refuses") += 1; } }
    Exact ex(b);
    size_t nodes = stats(v).nodes;
    int c = int(r.below(uint64_t(Tr<P>::ctors)));
    // FlexBuffers scalars are read with their natural alignment: give them what malloc gives.
    with_reader<P>(ex.span(), c, [&](const auto& rd) {
        Comparer<P> cmp; cmp.key = "foreign-message"; cmp.r = &r; cmp.sign_free = !Tr<P>::exact_sign; cmp.chunked = chunked; cmp.compare(rd, v);
        CNT("foreign values read") += cmp.reads;
        if (nodes < 3000 && r.chance(25)) { // and translated (indexing may be linear, so not the huge ones)
            { auto t = z::translate<z::MsgPack>(rd); Comparer<z::MsgPack> m; m.key = "foreign-message-translated"; m.sign_free = true; m.r = &r; m.compare(t, v); CNT("foreign messages translated") += 1; }
        }
    });
    auto st = stats(v); covered(hash_bytes(b.data(), b.size()), st.nodes > 1 || st.bytes > 0); CNT("foreign messages") += 1;
    if (r.one_in(300)) sample(std::string(Tr<P>::name) + " " + text(v, 150) + " as " + hex(b, 40));
    (void)i;
}
int main(int c, char** v) { return main_loop(c, v, "c13-" VZ_PNAME, one); }
