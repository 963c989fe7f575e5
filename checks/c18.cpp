// C18: memory use on untrusted bytes is bounded by the size of the message.
// Built with VZ_TENSORS it decides the part of C08 about corrupt messages.
#include "../lib/tens.hpp"
#include "../lib/hostile.hpp"
#include "../lib/guard.hpp"
#include "../lib/alloc.hpp"
#include "../lib/walk.hpp"
using namespace vz;
using P = zerialize::VZ_P;
namespace zx = zerialize::xtensor; namespace ze = zerialize::eigen;

static Guard* const guard = new Guard;
static int hint = -1; // which element type the message at hand is about, if that is known
// What one operation may hold at a time, for a message of n bytes.
static int64_t bound(size_t n, bool translation) { return translation ? int64_t(600 * n + (1 << 17)) : Tr<P>::json ? int64_t(1000 * n + (1 << 16)) : int64_t(64 * n + (1 << 14)); }
struct Tally { uint64_t ok = 0, refused = 0, tensors = 0, elems = 0, trans = 0; int64_t worst = 0, worst_t = 0; size_t peak = 0; } static T_;

struct Mem {
    Rng& r; const uint8_t* base; size_t n; bool in_place; size_t nodes; Touch t{};
    void judge(const char* what, int64_t peak, bool translation) {
        int64_t b = bound(n, translation), per = peak * 1000 / b; auto& w = translation ? T_.worst_t : T_.worst; w = std::max(w, per); T_.peak = std::max(T_.peak, size_t(peak));
        if (peak > b) fail("memory", fmt("%s: %s held %lld bytes of heap for a message of %zu bytes", Tr<P>::name, what, (long long)peak, n));
    }
    template<class F> void op(const char* what, F&& f, bool returns_to_zero = true) {
        PeakWatch w;
        try { f(); ++T_.ok; }
        catch (const DeserializationError&) { ++T_.refused; }
        catch (const std::exception& e) { w.stop(); fail("wrong-exception", fmt("%s: %s threw something other than DeserializationError: %s", Tr<P>::name, what, e.what())); }
        w.stop(); judge(what, w.peak, false);
        if (returns_to_zero && w.live != 0) fail("memory-kept", fmt("%s: %s left %lld bytes allocated", Tr<P>::name, what, (long long)w.live));
    }
    template<class E> void payload(const char* what, const E* p, size_t count, bool zero_copy) {
        auto* b = reinterpret_cast<const uint8_t*>(p); size_t len = count * sizeof(E);
        if (count > n || len > n) fail("view-outside", fmt("%s: %s gives %zu elements out of a message of %zu bytes", Tr<P>::name, what, count, n));
        if (zero_copy && len && in_place && !(b >= base && b <= base + (n - len))) fail("view-outside", fmt("%s: %s gives elements at offset %td of a message of %zu bytes", Tr<P>::name, what, b - base, n));
        t.bytes(p, len); ++T_.tensors; T_.elems += count;
    }
    template<class E, class R> void tensors(const R& rd) {
        op("isTensor", [&] { (void)z::isTensor<E>(rd); }); op("isTensor of a map", [&] { (void)z::isTensor<E, true>(rd); });
        op("asXTensorView", [&] { auto v = zx::asXTensorView<E>(rd); auto x = v.tensor(); payload("asXTensorView", x.data(), x.size(), v.viewInfo().zero_copy); });
        op("asXTensorView of a map", [&] { auto v = zx::asXTensorView<E, -1, true>(rd); auto x = v.tensor(); payload("asXTensorView", x.data(), x.size(), v.viewInfo().zero_copy); });
        op("asXTensor", [&] { auto x = zx::asXTensor<E>(rd); payload("asXTensor", x.data(), x.size(), false); });
        op("asEigenMatrixView", [&] { auto v = ze::asEigenMatrixView<E, Eigen::Dynamic, Eigen::Dynamic>(rd); auto m = v.map(); payload("asEigenMatrixView", m.data(), size_t(m.size()), v.viewInfo().zero_copy); });
        op("asEigenMatrix of a map", [&] { auto m = ze::asEigenMatrix<E, Eigen::Dynamic, Eigen::Dynamic, true>(rd); payload("asEigenMatrix", m.data(), size_t(m.size()), false); });
        op("asEigenMatrix with two rows", [&] { auto m = ze::asEigenMatrix<E, 2, Eigen::Dynamic>(rd); payload("asEigenMatrix", m.data(), size_t(m.size()), false); });
    }
    template<class R> void any_tensor(const R& rd, unsigned k) { switch (k % 5) { case 0: tensors<double>(rd); break; case 1: tensors<uint8_t>(rd); break; case 2: tensors<float>(rd); break; case 3: tensors<cd>(rd); break; default: tensors<int16_t>(rd); } }

    template<class R> void walk(const R& rd, int depth) {
        if (!nodes) return; --nodes;
        unsigned wild = unsigned(r.next());
#ifndef VZ_TENSORS
        op("predicates", [&] { (void)(rd.isNull() + rd.isBool() + rd.isInt() + rd.isUInt() + rd.isFloat()); }); op("predicates", [&] { (void)(rd.isString() + rd.isBlob() + rd.isArray() + rd.isMap()); });
        op("asBool", [&] { (void)rd.asBool(); }); op("asInt64", [&] { (void)rd.asInt64(); }); op("asInt8", [&] { (void)rd.asInt8(); }); op("asInt16", [&] { (void)rd.asInt16(); }); op("asInt32", [&] { (void)rd.asInt32(); });
        op("asUInt64", [&] { (void)rd.asUInt64(); }); op("asUInt8", [&] { (void)rd.asUInt8(); }); op("asUInt16", [&] { (void)rd.asUInt16(); }); op("asUInt32", [&] { (void)rd.asUInt32(); });
        op("asDouble", [&] { (void)rd.asDouble(); }); op("asFloat", [&] { (void)rd.asFloat(); });
        op("asStringView", [&] { auto s = rd.asStringView(); t.bytes(s.data(), s.size()); }); op("asString", [&] { auto s = rd.asString(); t.bytes(s.data(), s.size()); });
        op("asBlob", [&] { auto s = rd.asBlob(); t.bytes(std::data(s), std::size(s)); });
#endif
        if ((wild >> 8 & 3) == 0 || depth > 10) any_tensor(rd, hint >= 0 && (wild >> 24 & 3) ? unsigned(hint) : wild >> 10);
        size_t size = 0; op("arraySize", [&] { size = rd.arraySize(); });
        const size_t idx[] = {0, size ? size - 1 : 0, size, size_t(r.below(size + 2)), 1, 2};
        for (size_t i : idx) op("operator[](index)", [&] { const auto sub = rd[i]; if (depth > 0) walk(sub, depth - 1); });
        char keys[4][40]; size_t klen[4]; size_t nk = 0;
        op("mapKeys", [&] { size_t c = 0; for (std::string_view k : rd.mapKeys()) { if (nk < 3 && k.size() < 40) { if (k.size()) std::memcpy(keys[nk], k.data(), k.size()); klen[nk++] = k.size(); } if (++c > 3000) break; } });
        keys[nk][0] = 'q'; klen[nk++] = r.below(2);
        for (size_t j = 0; j < nk; ++j) {
            std::string_view k(keys[j], klen[j]);
            op("contains", [&] { (void)rd.contains(k); }); op("operator[](key)", [&] { const auto sub = rd[k]; if (depth > 0) walk(sub, depth - 1); });
        }
    }
    template<class R> void translate(const R& rd) {
        PeakWatch w;
        try { switch (r.below(3)) { case 0: { auto d = z::translate<z::Zera>(rd); (void)d.isNull(); break; } case 1: { auto d = z::translate<z::MsgPack>(rd); (void)d.isNull(); break; } default: { auto d = z::translate<z::Flex>(rd); (void)d.isNull(); } } ++T_.trans; }
        catch (const std::exception&) {}
        w.stop(); judge("translation", w.peak, true);
        if (w.live != 0) fail("memory-kept", fmt("%s: translation left %lld bytes allocated", Tr<P>::name, (long long)w.live));
    }
};

static void check(const Bytes& b, Rng& r, unsigned how, size_t nodes) {
    std::span<const uint8_t> m = guard->place(b, how); note("message " + hex(m, 900)); T_ = {};
    int ctor = int(r.below(uint64_t(Tr<P>::ctors))); bool accepted = false;
    Mem mem{r, m.data(), m.size(), !Tr<P>::json && views<P>(ctor), nodes};
    PeakWatch w; int64_t peak = -1;
    try { with_reader<P>(m, ctor, [&](const auto& rd) {
        accepted = true; peak = w.peak; mem.walk(rd, 12);
#ifndef VZ_TENSORS
        if (!std::is_same_v<P, z::Zera> && m.size() <= 20000) mem.translate(rd);
#endif
        return 0; }); }
    catch (const DeserializationError&) { ++T_.refused; }
    catch (const std::exception& e) { w.stop(); fail("wrong-exception", fmt("%s: construction threw something other than DeserializationError: %s", Tr<P>::name, e.what())); }
    w.stop(); mem.judge("construction", peak < 0 ? w.peak : peak, false);
    if (w.live != 0) fail("memory-kept", fmt("%s: a destroyed or refused reader left %lld bytes allocated", Tr<P>::name, (long long)w.live));
    guard->release();
    if (accepted) CNT("inputs accepted by the constructor") += 1; else CNT("inputs refused by the constructor") += 1;
    CNT("operations that returned") += T_.ok; CNT("operations that threw DeserializationError") += T_.refused; CNT("tensors read from hostile bytes") += T_.tensors; CNT("translations measured") += T_.trans;
    auto share = [](const char* what, int64_t w) { count(std::string(what) + (w < 10 ? "below 1%" : w < 100 ? "1-10%" : w < 300 ? "10-30%" : w < 600 ? "30-60%" : "over 60%")); };
    share("messages by largest share of the memory bound: ", T_.worst); if (T_.trans) share("messages by largest share of the translation bound: ", T_.worst_t);
    covered(hash_bytes(b.data(), b.size()), b.size() > 1);
}
static uint64_t odd_dim(Rng& r) { if (r.chance(50)) return 1 + r.below(uint64_t(2) << r.below(31)); return r.of<uint64_t>({0, 1, 2, 3, 255, 256, 65535, 65536, 1000003, 0x7fffffff, 0x80000000u, 0xfffffffeu, 0xffffffffu, 0x100000001ull, uint64_t(INT64_MAX)}); }
// A tensor document with small or absurd dimensions, whole or damaged.
static Bytes tensor_bytes(Rng& r) {
    size_t rk = r.chance(80) ? r.below(4) : r.below(40); std::vector<Val> dims; uint64_t cnt = 1; size_t esize = r.of<size_t>({8, 1, 4, 16, 2}); int code = esize == 8 ? dt<double>::code : esize == 1 ? dt<uint8_t>::code : esize == 4 ? dt<float>::code : esize == 16 ? dt<cd>::code : dt<int16_t>::code;
    hint = int(esize == 8 ? 0 : esize == 1 ? 1 : esize == 4 ? 2 : esize == 16 ? 3 : 4);
    bool odd = r.chance(50), all = r.chance(40); if (odd && r.chance(40)) rk = 2; for (size_t i = 0; i < rk; ++i) { uint64_t d = odd && (all || r.chance(40)) ? odd_dim(r) : rk > 6 ? 1 : r.below(5); cnt *= d; dims.push_back(r.chance(50) ? Val::integer(int64_t(d)) : Val::uinteger(d)); }
    if (cnt > 500) cnt = r.below(30);
    std::string data(cnt * esize, 'd'); if (r.one_in(6)) data.resize(r.below(data.size() + 20));
    Val doc = r.chance(60) ? Val::arr({Val::integer(code), Val::arr(dims), Val::blob(data)}) : Val::map({{"shape", Val::arr(dims)}, {"dtype", Val::integer(code)}, {"data", Val::blob(data)}});
    if (r.one_in(4)) doc = Val::arr({Val::str("head"), doc, Val::integer(1)});
    Bytes b = bytes_of(write<P>(doc, 0));
    if (r.chance(60)) mutate(b, r, std::string_view(Tr<P>::name) == "Zera");
    return b;
}
static void one(uint64_t i, Rng& r) {
    hint = -1;
#ifdef VZ_TENSORS
    Bytes b = tensor_bytes(r); check(b, r, unsigned(r.below(4)), 10); (void)i;
#else
    Bytes b = r.chance(35) ? tensor_bytes(r) : r.one_in(5) ? extreme<P>(r, r.chance(50) ? 100 : 3000) : hostile<P>(i, r, r.one_in(20) ? 20000 : 2000);
    check(b, r, unsigned(r.below(4)), b.size() > 5000 ? 3 : 14);
#endif
    if (r.one_in(60)) sample(hex(b, 60));
}
int main(int c, char** v) { return main_loop(c, v, "c18-" VZ_PNAME, one); }
