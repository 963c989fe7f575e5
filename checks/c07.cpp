// C07: tensors and matrices round-trip exactly in every protocol.
#include "../lib/tens.hpp"
using namespace vz;
using P = zerialize::VZ_P;
using Hold = vzten::Holder<P>;
namespace zx = zerialize::xtensor; namespace ze = zerialize::eigen;

// ---------------------------------------------------------------- where the tensor sits
struct Step { size_t index; const char* key; };
struct Placed { z::ZBuffer msg; std::vector<std::vector<Step>> at; const char* how; };
static Placed place(const Hold& h, Rng& r) {
    int a = int(r.below(300)); std::string s = Gen(r, gen_opts<P>()).content(r.below(30), true, false);
    switch (r.below(9)) {
        case 0: return {z::serialize<P>(z::zvec(a, h, s)), {{{1, nullptr}}}, "in an array"};
        case 1: return {z::serialize<P>(z::zmap<"s", "t", "u">(s, h, a)), {{{0, "t"}}}, "in a map"};
        case 2: { std::vector<Hold> v{h, h, h}; return {z::serialize<P>(v), {{{0, nullptr}}, {{1, nullptr}}, {{2, nullptr}}}, "in a vector"}; }
        case 3: { std::map<std::string, Hold> m{{"x", h}, {"yy", h}}; return {z::serialize<P>(m), {{{0, "x"}}, {{0, "yy"}}}, "in a std::map"}; }
        case 4: return {z::serialize<P>(z::dyn::serializable(h)), {{}}, "in a dynamic value"};
        case 5: return {z::serialize<P>(z::dyn::map({{"a", a}, {"t", z::dyn::array({s, z::dyn::serializable(h)})}})), {{{0, "t"}, {1, nullptr}}}, "in a dynamic map"};
        case 6: return {z::serialize<P>(z::zvec(s, z::zmap<"k", "l">(z::zvec(h, a, h), nullptr))), {{{1, nullptr}, {0, "k"}, {0, nullptr}}, {{1, nullptr}, {0, "k"}, {2, nullptr}}}, "deep in builders"};
        default: return {z::serialize<P>(h), {{}}, "alone"};
    }
}
template<class R, class F> static void follow(const R& rd, const std::vector<Step>& s, size_t at, F&& f) {
    if (at == s.size()) { f(rd); return; }
    if (s[at].key) { const auto sub = rd[std::string_view(s[at].key)]; follow(sub, s, at + 1, f); } else { const auto sub = rd[s[at].index]; follow(sub, s, at + 1, f); }
}
template<class F> static void at_each(const Placed& p, Rng& r, F&& f) {
    Exact ex(p.msg.buf()); int c = int(r.below(uint64_t(Tr<P>::ctors)));
    with_reader<P>(ex.span(), c, [&](const auto& rd) { for (auto& s : p.at) follow(rd, s, 0, f); });
}
template<class Q, class F> static void translated_to(const Placed& p, F&& f) {
    const typename P::Deserializer rd(p.msg.buf()); const auto t = z::translate<Q>(rd);
    for (auto& s : p.at) follow(t, s, 0, f);
    CNT("translated tensors read") += 1;
}
template<class F> static void translated(const Placed& p, Rng& r, F&& f) {
    switch (r.below(5)) {
        case 0: translated_to<z::Zera>(p, f); break; case 1: translated_to<z::MsgPack>(p, f); break; case 2: translated_to<z::Flex>(p, f); break;
#ifndef VZ_NOJSON
        case 3: translated_to<z::JSON>(p, f); break;
#endif
#ifndef VZ_NOCBOR
        case 4: translated_to<z::CBOR>(p, f); break;
#endif
    }
}
template<class T> constexpr bool kFew = std::is_same_v<T, double> || std::is_same_v<T, int16_t> || std::is_same_v<T, cf>;

// ---------------------------------------------------------------- xtensor
#ifdef VZ_XT
template<class T> static void check_x(const Hold& h, const Shape_t& s, const std::vector<T>& flat, Rng& r, const char* kind) {
    std::string what = std::string(Tr<P>::name) + " " + dt<T>::name + " " + kind + " of shape " + shape_text(s); note(what);
    Placed p = place(h, r); what += std::string(" ") + p.how;
    try {
        at_each(p, r, [&](const auto& rd) {
            auto v = zx::asXTensorView<T>(rd);
            if (v.rank() != s.size() || !std::equal(s.begin(), s.end(), v.shape().begin(), v.shape().end())) fail("tensor-shape", what + ": the view reports another shape");
            switch (r.below(4)) {
                case 0: expect_tensor(zx::asXTensor<T>(rd), s, flat, "tensor-round-trip", what); break;
                case 1: expect_tensor(v.array(), s, flat, "tensor-round-trip", what); break;
                case 2: switch (s.size()) { // with the rank as a template argument
                    case 0: expect_tensor(zx::asXTensor<T, 0>(rd), s, flat, "tensor-round-trip", what); break; case 1: expect_tensor(zx::asXTensor<T, 1>(rd), s, flat, "tensor-round-trip", what); break;
                    case 2: expect_tensor(zx::asXTensor<T, 2>(rd), s, flat, "tensor-round-trip", what); break; case 3: expect_tensor(zx::asXTensor<T, 3>(rd), s, flat, "tensor-round-trip", what); break; }
                    [[fallthrough]];
                default: { auto t = v.tensor(); expect_tensor(t, s, flat, "tensor-round-trip", what); }
            }
            CNT("tensors read back") += 1;
        });
        if constexpr (kFew<T>) if (r.chance(40)) translated(p, r, [&](const auto& rd) { auto v = zx::asXTensorView<T>(rd); expect_tensor(v.tensor(), s, flat, "tensor-translated", what + ", translated"); });
    } catch (const std::exception& e) { fail("tensor-refused", what + ": " + e.what()); }
    covered(hash_str(what) ^ hash_bytes(flat.data(), flat.size() * sizeof(T)), true);
    if (r.one_in(400)) sample(what);
}
template<class T, class X> static void put(X& x, const std::vector<T>& flat) { std::vector<size_t> idx(x.dimension(), 0); for (auto& e : flat) { x.element(idx.begin(), idx.end()) = e; for (size_t d = idx.size(); d-- > 0;) { if (++idx[d] < x.shape()[d]) break; idx[d] = 0; } } }
template<class T, class V> static std::vector<T> elems(const V& v) { auto sh = v.shape(); Shape_t s(sh.begin(), sh.end()); std::vector<size_t> idx(s.size(), 0); size_t n = product(s); std::vector<T> o(n); for (size_t i = 0; i < n; ++i) { o[i] = v.element(idx.begin(), idx.end()); for (size_t d = s.size(); d-- > 0;) { if (++idx[d] < s[d]) break; idx[d] = 0; } } return o; }
template<class T, size_t N> static void x_static(Rng& r) {
    Shape_t s = rand_shape(r, N); auto flat = rand_elems<T>(r, product(s)); typename xt::xtensor<T, N>::shape_type sh{}; std::copy(s.begin(), s.end(), sh.begin());
    xt::xtensor<T, N> x(sh); put(x, flat); check_x<T>(vzten::hold<P>(x), s, flat, r, "xtensor");
}
template<class T> static void direct_x(Rng& r) { // the type itself as the element, not behind a user type
    Shape_t s = rand_shape(r, r.below(4), 60); auto flat = rand_elems<T>(r, product(s)); auto x = xt::xarray<T>::from_shape(s); put(x, flat);
    std::string what = std::string(Tr<P>::name) + " " + dt<T>::name + " of shape " + shape_text(s) + " directly in "; note(what);
    auto look = [&](const z::ZBuffer& b, std::vector<Step> at, const char* how) { const typename P::Deserializer rd(b.buf()); follow(rd, at, 0, [&](const auto& q) { expect_tensor(zx::asXTensor<T>(q), s, flat, "tensor-round-trip", what + how); }); CNT("tensors read back") += 1; };
    look(z::serialize<P>(z::zvec(x, 1)), {{0, nullptr}}, "zvec"); look(z::serialize<P>(z::zmap<"a", "b">(2, xt::xarray<T>(x))), {{0, "b"}}, "zmap"); look(z::serialize<P>(x), {}, "serialize");
    { std::vector<xt::xarray<T>> v{x, x}; look(z::serialize<P>(v), {{1, nullptr}}, "vector"); } look(z::serialize<P>(z::dyn::serializable(x)), {}, "dyn"); look(z::serialize<P>(z::dyn::map({{"m", z::dyn::serializable(xt::xarray<T>(x))}})), {{0, "m"}}, "dyn map");
    // the documented map form
    { auto b = z::serialize<P>(z::zmap<"shape", "dtype", "data">(z::shape_of_sizet(x.shape()), z::tensor_dtype_index<T>, z::span_from_data_of(x))); const typename P::Deserializer rd(b.buf());
      expect_tensor(zx::asXTensor<T, -1, true>(rd), s, flat, "tensor-map-form", what + "map form"); expect_tensor(zx::asXTensorView<T, -1, true>(rd).tensor(), s, flat, "tensor-map-form", what + "map form"); CNT("tensors in map form read") += 1; }
}
template<class T> static void x_any(Rng& r) {
    unsigned k = unsigned(r.below(kFew<T> ? 15 : 3));
    if (k == 0 || k == 3) { size_t rank = rand_rank(r, 6); Shape_t s = rand_shape(r, rank); auto flat = rand_elems<T>(r, product(s)); auto x = xt::xarray<T>::from_shape(s); put(x, flat); check_x<T>(vzten::hold<P>(x), s, flat, r, "xarray"); return; }
    if (k == 1) { x_static<T, 2>(r); return; }
    if (k == 2) { Shape_t s = rand_shape(r, rand_rank(r, 5)); auto flat = rand_elems<T>(r, product(s)); auto x = xt::xarray<T, xt::layout_type::column_major>::from_shape(s); put(x, flat); check_x<T>(vzten::hold<P>(x), s, flat, r, "column-major xarray"); return; }
    if constexpr (kFew<T>) switch (k) {
        case 4: x_static<T, 0>(r); break; case 5: x_static<T, 1>(r); break; case 6: x_static<T, 3>(r); break;
        case 7: { Shape_t s = rand_shape(r, 3); auto flat = rand_elems<T>(r, product(s)); xt::xtensor<T, 3, xt::layout_type::column_major> x(std::array<size_t, 3>{s[0], s[1], s[2]}); put(x, flat); check_x<T>(vzten::hold<P>(x), s, flat, r, "column-major xtensor"); break; }
        case 8: { Shape_t s = rand_shape(r, r.below(5)); auto flat = rand_elems<T>(r, product(s)); typename xt::xarray<T, xt::layout_type::dynamic>::shape_type ss(s.begin(), s.end()); xt::xarray<T, xt::layout_type::dynamic> x(ss, r.chance(50) ? xt::layout_type::column_major : xt::layout_type::row_major); put(x, flat); check_x<T>(vzten::hold<P>(x), s, flat, r, "dynamic-layout xarray"); break; }
        case 9: { auto flat = rand_elems<T>(r, 6); xt::xtensor_fixed<T, xt::xshape<2, 3>> x; put(x, flat); check_x<T>(vzten::hold<P>(x), {2, 3}, flat, r, "fixed tensor"); break; }
        case 10: { Shape_t s = rand_shape(r, 2); auto flat = rand_elems<T>(r, product(s)); auto x = xt::adapt(flat, s); check_x<T>(vzten::hold<P>(x), s, flat, r, "adaptor"); break; }
        case 11: { Shape_t s{2 + r.below(5), 2 + r.below(5)}; auto x = xt::xarray<T>::from_shape(s); put(x, rand_elems<T>(r, product(s))); size_t a = r.below(s[0]), b = r.below(s[1]);
                   auto v = xt::view(x, xt::range(a, s[0]), xt::range(b, s[1])); auto f = elems<T>(v); check_x<T>(vzten::hold<P>(v), {s[0] - a, s[1] - b}, f, r, "view"); break; }
        case 12: { Shape_t s{2 + r.below(5), 2 + r.below(5), 1 + r.below(3)}; auto x = xt::xarray<T>::from_shape(s); put(x, rand_elems<T>(r, product(s))); size_t row = r.below(s[0]);
                   auto v = xt::view(x, row, xt::all(), xt::all()); auto f = elems<T>(v); check_x<T>(vzten::hold<P>(v), {s[1], s[2]}, f, r, "row view"); break; }
        case 13: { Shape_t s{2 + r.below(5), 2 + r.below(5)}; auto x = xt::xarray<T>::from_shape(s); put(x, rand_elems<T>(r, product(s)));
                   if (r.chance(50)) { auto v = xt::transpose(x); auto f = elems<T>(v); check_x<T>(vzten::hold<P>(v), {s[1], s[0]}, f, r, "transpose"); }
                   else { auto v = xt::view(x, xt::range(0, int(s[0]), 2), xt::all()); auto f = elems<T>(v); check_x<T>(vzten::hold<P>(v), {(s[0] + 1) / 2, s[1]}, f, r, "stepped view"); } break; }
        default: direct_x<T>(r);
    }
}
// Dimensions that do not fit the format's 32-bit dimension must be refused or kept, never changed.
static void x_huge_dim(Rng& r) {
    Shape_t s{size_t(1) << 32, 0}; s[0] += r.below(5); if (r.chance(50)) std::swap(s[0], s[1]); if (r.chance(30)) s = {0, 4294967295u};
    auto x = xt::xarray<int8_t>::from_shape(s); std::string what = std::string(Tr<P>::name) + " empty tensor of shape " + shape_text(s); note(what);
    try { auto b = z::serialize<P>(x); const typename P::Deserializer rd(b.buf()); auto v = zx::asXTensorView<int8_t>(rd); if (!std::equal(s.begin(), s.end(), v.shape().begin(), v.shape().end())) fail("tensor-dimension-truncated", what + fmt(" read back with dimensions %u, %u", v.shape()[0], v.shape()[1])); }
    catch (const std::exception&) { if (s[1] == 4294967295u) fail("tensor-refused", what + " was refused"); CNT("oversized dimensions refused") += 1; }
}
static void one(uint64_t, Rng& r) {
    if (r.one_in(300)) { x_huge_dim(r); return; }
    if (r.one_in(200)) { Shape_t s = r.of<Shape_t>({{300, 211}, {70001}, {1, 65536, 1}, {65537, 0}, {2, 1, 33000}}); auto flat = rand_elems<double>(r, product(s)); auto x = xt::xarray<double>::from_shape(s); put(x, flat); check_x<double>(vzten::hold<P>(x), s, flat, r, "large xarray"); return; }
    static const unsigned few[] = {9, 1, 10}; unsigned k = r.chance(55) ? r.pick(few) : unsigned(r.below(13));
    for_type(k, [&]<class T>() { x_any<T>(r); });
}
#else
// ---------------------------------------------------------------- Eigen
template<class T, int R, int C, int O> static void eig(Rng& r) {
    size_t rows = R == Eigen::Dynamic ? (r.one_in(9) ? 0 : 1 + r.below(r.one_in(8) ? 40 : 6)) : size_t(R), cols = C == Eigen::Dynamic ? (r.one_in(9) ? 0 : 1 + r.below(r.one_in(8) ? 40 : 6)) : size_t(C);
    auto flat = rand_elems<T>(r, rows * cols);
    using M = Eigen::Matrix<T, R, C, O>; M m; if constexpr (R == Eigen::Dynamic || C == Eigen::Dynamic) m.resize(Eigen::Index(rows), Eigen::Index(cols));
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) m(Eigen::Index(i), Eigen::Index(j)) = flat[i * cols + j];
    std::string what = std::string(Tr<P>::name) + fmt(" %s Eigen matrix <%d,%d,%s> %zux%zu", dt<T>::name, R, C, O & Eigen::RowMajor ? "row-major" : "column-major", rows, cols); note(what);
    Hold h = vzten::hold<P>(m); Placed p = place(h, r); what += std::string(" ") + p.how;
    try {
        at_each(p, r, [&](const auto& rd) {
            switch (r.below(4)) {
                case 0: expect_matrix<T>(ze::asEigenMatrix<T, R, C, false, O>(rd), rows, cols, flat, "matrix-round-trip", what); break;
                case 1: if constexpr (std::is_same_v<T, double> && (O == Eigen::ColMajor || (R != 1 && C != 1))) { expect_matrix<T>(ze::asEigenMatrix<T, Eigen::Dynamic, Eigen::Dynamic, false, O>(rd), rows, cols, flat, "matrix-round-trip", what); break; } [[fallthrough]];
                case 2: { auto v = ze::asEigenMatrixView<T, R, C, false, O>(rd); if (v.rows() != rows || v.cols() != cols) fail("matrix-shape", what + ": the view reports another size"); expect_matrix<T>(v.matrix(), rows, cols, flat, "matrix-round-trip", what); break; }
                default: { auto v = ze::asEigenMatrixView<T, R, C, false, O>(rd); expect_matrix<T>(v.map(), rows, cols, flat, "matrix-round-trip", what); }
            }
            CNT("matrices read back") += 1;
        });
        if constexpr (kFew<T> && R == Eigen::Dynamic && C == Eigen::Dynamic) if (r.chance(40)) translated(p, r, [&](const auto& rd) { expect_matrix<T>(ze::asEigenMatrix<T, R, C, false, O>(rd), rows, cols, flat, "matrix-translated", what + ", translated"); });
        if (r.one_in(8)) { // the matrix itself as the element, and the map form
            auto look = [&](const z::ZBuffer& b, std::vector<Step> at, const char* how) { const typename P::Deserializer rd(b.buf()); follow(rd, at, 0, [&](const auto& q) { expect_matrix<T>(ze::asEigenMatrix<T, R, C, false, O>(q), rows, cols, flat, "matrix-round-trip", what + how); }); CNT("matrices read back") += 1; };
            if constexpr (std::is_same_v<T, double>) { look(z::serialize<P>(z::zvec(m, 1)), {{0, nullptr}}, "zvec"); look(z::serialize<P>(z::dyn::serializable(m)), {}, "dyn"); }
            std::array<size_t, 2> sh{rows, cols}; auto b = z::serialize<P>(z::zmap<"data", "shape", "dtype">(z::span_from_data_of(m), sh, z::tensor_dtype_index<T>)); const typename P::Deserializer rd(b.buf());
            expect_matrix<T>(ze::asEigenMatrix<T, R, C, true, O>(rd), rows, cols, flat, "matrix-map-form", what + "map form"); CNT("tensors in map form read") += 1;
        }
    } catch (const std::exception& e) { fail("matrix-refused", what + ": " + e.what()); }
    covered(hash_str(what) ^ hash_bytes(flat.data(), flat.size() * sizeof(T)), true);
    if (r.one_in(400)) sample(what);
}
static void e_huge_dim(Rng& r) { // as x_huge_dim
    using M = Eigen::Matrix<int8_t, Eigen::Dynamic, Eigen::Dynamic>; size_t big = (size_t(1) << 32) + r.below(5); bool small = r.chance(30); if (small) big = r.of<size_t>({4294967295u, 65536, 70001}); bool first = r.chance(50);
    M m(Eigen::Index(first ? big : 0), Eigen::Index(first ? 0 : big)); std::string what = std::string(Tr<P>::name) + fmt(" empty matrix with a dimension of %zu", big); note(what);
    auto ok = [&](size_t rows, size_t cols) { if (rows != (first ? big : 0) || cols != (first ? 0 : big)) fail("matrix-dimension-truncated", what + fmt(" read back as %zux%zu", rows, cols)); };
    try { auto b = z::serialize<P>(m); const typename P::Deserializer rd(b.buf()); auto v = ze::asEigenMatrixView<int8_t, Eigen::Dynamic, Eigen::Dynamic>(rd); ok(v.rows(), v.cols()); auto x = ze::asEigenMatrix<int8_t, Eigen::Dynamic, Eigen::Dynamic>(rd); ok(size_t(x.rows()), size_t(x.cols())); }
    catch (const std::exception& e) { if (small) fail("matrix-refused", what + ": " + e.what()); CNT("oversized dimensions refused") += 1; }
}
static void e_large(Rng& r) {
    size_t rows = r.of<size_t>({300, 1, 70001, 2}), cols = rows == 300 ? 211 : rows == 1 ? 65537 : rows == 2 ? 33000 : 1; auto flat = rand_elems<double>(r, rows * cols); Eigen::MatrixXd m; m.resize(Eigen::Index(rows), Eigen::Index(cols));
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) m(Eigen::Index(i), Eigen::Index(j)) = flat[i * cols + j];
    std::string what = std::string(Tr<P>::name) + fmt(" matrix %zux%zu", rows, cols); note(what);
    try { auto b = z::serialize<P>(m); const typename P::Deserializer rd(b.buf()); expect_matrix<double>(ze::asEigenMatrix<double, Eigen::Dynamic, Eigen::Dynamic>(rd), rows, cols, flat, "matrix-round-trip", what); } catch (const std::exception& e) { fail("matrix-refused", what + ": " + e.what()); }
}
constexpr int D = Eigen::Dynamic, CM = Eigen::ColMajor, RM = Eigen::RowMajor;
static void one(uint64_t, Rng& r) {
    if (r.one_in(300)) { e_huge_dim(r); return; }
    if (r.one_in(1500)) { e_large(r); return; }
    unsigned k = r.chance(50) ? 9 : unsigned(r.below(12));
    for_type(k, [&]<class T>() {
        if constexpr (std::is_same_v<T, half>) return;
        else if constexpr (!std::is_same_v<T, double>) { switch (r.below(3)) { case 0: eig<T, D, D, CM>(r); break; case 1: eig<T, D, D, RM>(r); break; default: eig<T, 3, 2, CM>(r); } }
        else switch (r.below(13)) {
            case 0: case 1: eig<T, D, D, CM>(r); break; case 2: case 3: eig<T, D, D, RM>(r); break; case 4: eig<T, D, 1, CM>(r); break; case 5: eig<T, 1, D, RM>(r); break; case 6: eig<T, 2, 3, CM>(r); break; case 7: eig<T, 2, 3, RM>(r); break;
            case 8: eig<T, 4, 4, CM>(r); break; case 9: eig<T, 3, 3, RM>(r); break; case 10: eig<T, D, 2, RM>(r); break; case 11: eig<T, 5, D, CM>(r); break; default: eig<T, 1, 1, CM>(r);
        }
    });
}
#endif
int main(int c, char** v) { return main_loop(c, v, "c07-" VZ_PNAME, one); }
