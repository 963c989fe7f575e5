// C09: tensor views are zero-copy exactly when aligned and report the truth.
#include "../lib/tens.hpp"
#include "../lib/guard.hpp"
using namespace vz;
using P = zerialize::VZ_P;
namespace zx = zerialize::xtensor; namespace ze = zerialize::eigen; namespace zt = zerialize::tensor;
constexpr bool kInPlace = !Tr<P>::json;                       // the format stores blobs as raw bytes
constexpr bool kZera = std::is_same_v<P, z::Zera>;

// A message at a chosen offset from a 64-byte boundary, with nothing readable around it.
struct At {
    uint8_t* base; uint8_t* p; size_t n;
    At(std::span<const uint8_t> b, size_t off) : n(b.size()) {
        base = static_cast<uint8_t*>(std::aligned_alloc(64, (off + n + 127) / 64 * 64)); if (!base) harness_error("out of memory");
        p = base + off; if (n) std::memcpy(p, b.data(), n);
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
        __asan_poison_memory_region(base, off); __asan_poison_memory_region(p + n, size_t(base + (off + n + 127) / 64 * 64 - (p + n)));
#endif
#endif
    }
    At(const At&) = delete;
    void drop() { if (!base) return;
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
        __asan_unpoison_memory_region(base, size_t(p - base) + n + 64);
#endif
#endif
        std::memset(p, 0x5a, n); std::free(base); base = nullptr; }
    ~At() { drop(); }
    std::span<const uint8_t> span() const { return {p, n}; }
    bool holds(const void* q, size_t k) const { auto* b = static_cast<const uint8_t*>(q); return b >= p && k <= n && b <= p + (n - k); }
};

template<class T> static void truth(const zt::TensorViewInfo& info, const void* data, const At& at, size_t payload, const void* in_message, const std::string& what) {
    if (info.required_alignment != alignof(T)) fail("view-alignment", what + fmt(": requires alignment %zu, not %zu", info.required_alignment, alignof(T)));
    if (info.byte_size != payload) fail("view-size", what + fmt(": reports %zu bytes, not %zu", info.byte_size, payload));
    if (payload && reinterpret_cast<uintptr_t>(data) % alignof(T)) fail("view-misaligned", what + ": element data is misaligned");
    if (!kInPlace) {
        if (info.zero_copy) fail("view-claims-zero-copy", what + ": claims zero-copy of decoded text");
        if (info.reason != zt::TensorViewReason::NotSpanBacked) fail("view-reason", what + ": reason is not NotSpanBacked");
        CNT("copies of decoded payloads") += 1;
    } else {
        if (info.address != reinterpret_cast<uintptr_t>(in_message)) fail("view-address", what + fmt(": reports address %p, the payload is at %p", reinterpret_cast<void*>(info.address), in_message));
        bool aligned = reinterpret_cast<uintptr_t>(in_message) % alignof(T) == 0;
        if (info.zero_copy != aligned) fail("view-zero-copy", what + (aligned ? ": aligned payload was copied" : ": misaligned payload claimed as zero-copy"));
        if (info.reason != (aligned ? zt::TensorViewReason::Ok : zt::TensorViewReason::Misaligned)) fail("view-reason", what + ": reason contradicts the alignment");
        if (aligned) CNT("aligned payloads viewed in place") += 1; else CNT("misaligned payloads copied") += 1;
    }
    if (payload) {
        if (info.zero_copy && (data != in_message || !at.holds(data, payload))) fail("view-outside", what + ": zero-copy data is not the payload in the message");
        if (!info.zero_copy && at.holds(data, 1)) fail("view-not-copied", what + ": claims to own a copy but points into the message");
    }
}
template<class T, class Rd> static const void* payload_in(const Rd& rd) { if constexpr (kInPlace) { auto b = rd[2].asBlob(); return std::data(b); } else return nullptr; }

template<class T> static void run_x(Rng& r, bool natural) {
    Shape_t s = rand_shape(r, r.below(4), 60); auto flat = rand_elems<T>(r, product(s)); auto x = xt::xarray<T>::from_shape(s); std::copy(flat.begin(), flat.end(), x.storage().begin());
    std::string pad = Gen(r, gen_opts<P>()).content(r.below(40), true, true); bool root = r.chance(40);
    z::ZBuffer b = root ? z::serialize<P>(x) : z::serialize<P>(z::zvec(pad, x, 7, pad));
    for (size_t off = 0; off < (natural ? 1 : 16); ++off) {
        At at(b.buf(), natural ? 16 * r.below(4) : off);
        std::string what = std::string(Tr<P>::name) + " " + dt<T>::name + " view of shape " + shape_text(s) + fmt(" at offset %zu", size_t(at.p - at.base)); note(what);
        std::optional<zx::XTensorView<T>> kept; bool zc = false;
        auto use = [&](const auto& rd) {
            auto v = zx::asXTensorView<T>(rd); auto t = v.tensor(); truth<T>(v.viewInfo(), t.data(), at, flat.size() * sizeof(T), payload_in<T>(rd), what);
            if (kZera && natural && !v.viewInfo().zero_copy) fail("zera-not-zero-copy", what + ": a 16-byte-aligned Zera message was copied");
            if (kZera && natural) CNT("aligned Zera tensors viewed in place") += 1;
            expect_tensor(t, s, flat, "view-elements", what);
            zc = v.viewInfo().zero_copy;
            auto copy = v; expect_tensor(copy.tensor(), s, flat, "view-copy", what + ", copied view");
            auto own = copy.array(); kept.emplace(std::move(v));
            expect_tensor(kept->tensor(), s, flat, "view-moved", what + ", moved view"); truth<T>(kept->viewInfo(), kept->tensor().data(), at, flat.size() * sizeof(T), payload_in<T>(rd), what + ", moved view");
            at.p[0] = at.p[0]; expect_tensor(own, s, flat, "array-of-view", what + ", array of the view");
        };
        { const typename P::Deserializer rd(at.span()); if (root) use(rd); else use(rd[1]); }
        if (!zc) { at.drop(); expect_tensor(kept->tensor(), s, flat, "view-died-with-message", what + ", after the message is gone"); CNT("copies outlived the message") += 1; }
        covered(hash_str(what) ^ hash_bytes(flat.data(), flat.size() * sizeof(T)), !flat.empty());
    }
    if (r.one_in(300)) sample(std::string(Tr<P>::name) + " " + dt<T>::name + shape_text(s));
}
template<class T, int R, int C, int O> static void run_e(Rng& r, bool natural) {
    size_t rows = R == Eigen::Dynamic ? r.below(6) : size_t(R), cols = C == Eigen::Dynamic ? r.below(6) : size_t(C); auto flat = rand_elems<T>(r, rows * cols);
    Eigen::Matrix<T, R, C, O> m; if constexpr (R == Eigen::Dynamic || C == Eigen::Dynamic) m.resize(Eigen::Index(rows), Eigen::Index(cols));
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) m(Eigen::Index(i), Eigen::Index(j)) = flat[i * cols + j];
    std::string pad = Gen(r, gen_opts<P>()).content(r.below(40), true, true); bool root = r.chance(40);
    z::ZBuffer b = root ? z::serialize<P>(m) : z::serialize<P>(z::zvec(pad, m, 7, pad));
    for (size_t off = 0; off < (natural ? 1 : 16); ++off) {
        At at(b.buf(), natural ? 16 * r.below(4) : off);
        std::string what = std::string(Tr<P>::name) + fmt(" %s Eigen view <%d,%d> %zux%zu at offset %zu", dt<T>::name, R, C, rows, cols, size_t(at.p - at.base)); note(what);
        std::optional<ze::EigenMatrixView<T, R, C, O>> kept; bool zc = false;
        auto use = [&](const auto& rd) {
            auto v = ze::asEigenMatrixView<T, R, C, false, O>(rd); auto t = v.map(); truth<T>(v.viewInfo(), t.data(), at, flat.size() * sizeof(T), payload_in<T>(rd), what);
            if (kZera && natural && !v.viewInfo().zero_copy) fail("zera-not-zero-copy", what + ": a 16-byte-aligned Zera message was copied");
            if (kZera && natural) CNT("aligned Zera tensors viewed in place") += 1;
            expect_matrix<T>(t, rows, cols, flat, "view-elements", what); zc = v.viewInfo().zero_copy;
            auto copy = v; expect_matrix<T>(copy.map(), rows, cols, flat, "view-copy", what + ", copied view"); auto own = copy.matrix();
            kept.emplace(std::move(v)); expect_matrix<T>(kept->map(), rows, cols, flat, "view-moved", what + ", moved view");
            expect_matrix<T>(own, rows, cols, flat, "matrix-of-view", what + ", matrix of the view");
        };
        { const typename P::Deserializer rd(at.span()); if (root) use(rd); else use(rd[1]); }
        if (!zc) { at.drop(); expect_matrix<T>(kept->map(), rows, cols, flat, "view-died-with-message", what + ", after the message is gone"); CNT("copies outlived the message") += 1; }
        covered(hash_str(what) ^ hash_bytes(flat.data(), flat.size() * sizeof(T)), !flat.empty());
    }
}
// Zera: every blob of any document starts at a multiple of 16.
template<class R> static void blobs(const R& rd, const Val& v, std::span<const uint8_t> msg) {
    if (v.k == Val::Blob) { auto b = rd.asBlob(); if (std::size(b)) { size_t at = size_t(reinterpret_cast<const uint8_t*>(std::data(b)) - msg.data()); if (at % 16) fail("zera-blob-offset", fmt("blob of %zu bytes at offset %zu of a Zera message", size_t(std::size(b)), at)); CNT("Zera blob offsets checked") += 1; } }
    for (size_t i = 0; i < v.a.size(); ++i) blobs(rd[i], v.a[i], msg);
    for (auto& [k, e] : v.m) blobs(rd[std::string_view(k)], e, msg);
}
template<class PP> static void zera_blobs(Rng& r) {
    if constexpr (std::is_same_v<PP, z::Zera>) {
        GenOpts o = gen_opts<PP>(); Val v = Gen(r, o).tree();
        if (r.chance(60)) { v = Val::arr(); size_t n = 1 + r.below(8); for (size_t i = 0; i < n; ++i) { v.a.push_back(r.chance(50) ? Val::blob(Gen(r, o).content(r.below(50), false, false)) : Val::str(Gen(r, o).content(r.below(50), false, false))); if (r.one_in(4)) v.a.push_back(Gen(r, o).tree()); } }
        note(text(v)); z::ZBuffer b = write<PP>(v, int(r.below(kWriteModes))); const typename PP::Deserializer rd(b.buf());
        blobs(rd, v, b.buf()); covered(digest(v), true);
    }
}
static void one(uint64_t, Rng& r) {
    if (kZera && r.chance(40)) { zera_blobs<P>(r); return; }
    bool natural = r.chance(40); constexpr int Dy = Eigen::Dynamic;
    switch (r.below(8)) {
        case 0: run_e<double, Dy, Dy, Eigen::ColMajor>(r, natural); break; case 1: run_e<int16_t, Dy, Dy, Eigen::RowMajor>(r, natural); break; case 2: run_e<float, 2, 3, Eigen::ColMajor>(r, natural); break;
        case 3: run_e<cd, 2, 2, Eigen::ColMajor>(r, natural); break; case 4: run_e<int8_t, Dy, 1, Eigen::ColMajor>(r, natural); break;
        default: for_type(unsigned(r.below(13)), [&]<class T>() { run_x<T>(r, natural); });
    }
}
int main(int c, char** v) { return main_loop(c, v, "c09-" VZ_PNAME, one); }
