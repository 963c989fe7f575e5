// C12: output conforms to the wire format, as judged by independent decoders, and does not
// depend on anything but the value. With VZ_DET the allocator hands out memory filled with
// a pattern that changes between two serializations of the same value.
#ifdef VZ_DET
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
namespace fill { inline unsigned char byte = 0; inline unsigned long filled = 0; }
extern "C" { void* __real_malloc(size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (p) { memset(p, fill::byte, malloc_usable_size(p)); ++fill::filled; } return p; }
void* __wrap_realloc(void* q, size_t n) { size_t old = q ? malloc_usable_size(q) : 0; void* p = __real_realloc(q, n); if (p) { size_t now = malloc_usable_size(p); if (now > old) memset(static_cast<char*>(p) + old, fill::byte, now - old); ++fill::filled; } return p; } }
void* operator new(size_t n) { if (void* p = __wrap_malloc(n ? n : 1)) return p; throw std::bad_alloc(); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif
#include "../lib/proto.hpp"
#include "../lib/ref.hpp"
using namespace vz;
using P = zerialize::VZ_P;

static z::ZBuffer make(const Val& v, int mode, uint32_t thr) {
    if constexpr (std::is_same_v<P, z::Zera>) if (mode < 0) { z::Zera::RootSerializer rs; rs.set_inline_string_threshold(thr); z::Zera::Serializer w(rs); emit(v, w); return rs.finish(); }
    return write<P>(v, mode < 0 ? 0 : mode);
}
static Val pick_value(uint64_t i, Rng& r) {
    GenOpts o = gen_opts<P>(); (void)i;
    if (r.one_in(12)) return special_shape(r, o, r.below(12), r.one_in(20) ? 70000 : 400, 600);
    if (r.one_in(6)) o.max_depth = 20;
    if (r.one_in(60)) { o.max_nodes = 800; o.max_bytes = 60000; }
    return Gen(r, o).tree();
}

#ifdef VZ_DET
static __attribute__((noinline)) void dirty_stack(unsigned char b) { volatile unsigned char a[48 * 1024]; for (size_t i = 0; i < sizeof a; ++i) a[i] = b; }
static void one(uint64_t i, Rng& r) {
    Val v = pick_value(i, r); int mode = int(r.below(kWriteModes + 1)) - 1; uint32_t thr = uint32_t(r.below(13));
    Val other = Gen(r, gen_opts<P>()).tree();
    note(text(v));
    std::string first; unsigned char b0 = 0;
    static const unsigned char pats[] = {0x00, 0xff, 0xa5, 0x01};
    for (int k = 0; k < 3; ++k) {
        fill::byte = 0; Val copy = v; // other addresses
        fill::byte = pats[(k + i) % 4]; dirty_stack(fill::byte);
        auto before = fill::filled;
        auto buf = make(copy, mode, thr);
        CNT("allocations filled with a pattern") += fill::filled - before;
        std::string s(reinterpret_cast<const char*>(buf.data()), buf.size());
        if (k == 0) { first = s; b0 = fill::byte; }
        else if (s != first) {
            size_t at = 0; while (at < s.size() && at < first.size() && s[at] == first[at]) ++at;
            fail("not-deterministic", fmt("%s (write mode %d) wrote %zu bytes, then %zu for the same value; first difference at byte %zu (memory filled with %02x, then %02x): %s", Tr<P>::name, mode, first.size(), s.size(), at, b0, fill::byte, text(v).c_str()));
        }
        CNT("repeated serializations compared") += 1;
        (void)make(other, int(r.below(kWriteModes)), 12); // another value in between
    }
    fill::byte = 0;
    auto st = stats(v); covered(digest(v), st.nodes > 1 || st.bytes > 0);
}
#else
template<class PP> static Val decode(std::span<const uint8_t> b, uint32_t thr) {
    std::string_view n = Tr<PP>::name;
    if (n == "Zera") { ref::ZeraDecoder d(b, thr); Val v = d.decode(); CNT("Zera inline strings") += d.info.inline_strings; CNT("Zera arena strings") += d.info.arena_strings; CNT("Zera blobs at 16-byte offsets") += d.info.blobs; CNT("Zera zero padding bytes") += d.info.padding; return v; }
    if (n == "MsgPack") { ref::In in{b}; Val v = ref::msgpack_item(in); ref::need(in.p == b.size(), "bytes after the message"); if (stats(v).depth < 30) { ref::msgpack_c_accepts(b); CNT("messages accepted by msgpack-c") += 1; } return v; }
    if (n == "Cbor") { ref::In in{b}; Val v = ref::cbor_item(in); ref::need(in.p == b.size(), "bytes after the message"); return v; }
    if (n == "Json") return ref::JsonDecoder({reinterpret_cast<const char*>(b.data()), b.size()}).decode();
    // The official verifier without its default depth limit.
    std::vector<uint8_t> al(b.begin(), b.end());
    ref::need(flexbuffers::Verifier(al.data(), al.size(), nullptr, true, 5000).VerifyBuffer(), "the official verifier refuses the message"); CNT("messages accepted by the FlexBuffers verifier") += 1;
    return ref::flex_ref(flexbuffers::GetRoot(al));
}
static void one(uint64_t i, Rng& r) {
    Val v = pick_value(i, r); int mode = int(r.below(kWriteModes + 1)) - 1; uint32_t thr = mode < 0 ? uint32_t(r.below(13)) : 12;
    note(text(v));
    auto buf = make(v, mode, thr);
    Exact ex(buf.buf());
    try {
        Val back = decode<P>(ex.span(), thr); std::string why;
        REQUIRE(same(v, back, !Tr<P>::exact_sign, &why), "other-value", "%s (write mode %d): an independent decoder reads another value: %s; %s -> %s", Tr<P>::name, mode, why.c_str(), text(v).c_str(), hex(ex.span()).c_str());
    } catch (const ref::Bad& e) { fail("malformed", fmt("%s (write mode %d) wrote a malformed message: %s; %s -> %s", Tr<P>::name, mode, e.what(), text(v).c_str(), hex(ex.span()).c_str())); }
    CNT("messages decoded independently") += 1; CNT("message bytes") += buf.size();
    auto st = stats(v); covered(digest(v), st.nodes > 1 || st.bytes > 0);
    if (r.one_in(300)) sample(std::string(Tr<P>::name) + " " + text(v, 150) + " -> " + hex(ex.span(), 40));
}
#endif
int main(int c, char** v) { return main_loop(c, v, "c12-" VZ_PNAME, one); }
