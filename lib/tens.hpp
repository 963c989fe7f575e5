// Tensors: element types, random shapes and contents, and their model (shape + elements in
// row-major order, compared bit for bit).
#pragma once
#include <algorithm>
#include <iterator>
#include <numeric>
#include "proto.hpp"
#include <zerialize/tensor/xtensor.hpp>
#include <zerialize/tensor/eigen.hpp>
#include <xtensor/xfixed.hpp>
#include <xtensor/xview.hpp>
#include <xtensor/xstrided_view.hpp>
#include <xtensor/xmanipulation.hpp>
#include <complex>

namespace vz {
using half = xtl::half_float; using cf = std::complex<float>; using cd = std::complex<double>;
template<class T> struct dt;
#define VZ_DT(T, C) template<> struct dt<T> { static constexpr int code = C; static constexpr const char* name = #T; };
VZ_DT(int8_t, 0) VZ_DT(int16_t, 1) VZ_DT(int32_t, 2) VZ_DT(int64_t, 3) VZ_DT(uint8_t, 4) VZ_DT(uint16_t, 5) VZ_DT(uint32_t, 6) VZ_DT(uint64_t, 7)
VZ_DT(float, 10) VZ_DT(double, 11) VZ_DT(cf, 12) VZ_DT(cd, 13) VZ_DT(half, 14)
#undef VZ_DT

template<class T> T rand_elem(Rng& r) {
    T v; unsigned char b[sizeof(T)]; for (auto& x : b) x = uint8_t(r.next() >> 11);
    if (r.one_in(8)) std::memset(b, int(r.of<int>({0, 255, 0x80, 0x7f})), sizeof b);
    std::memcpy(static_cast<void*>(&v), b, sizeof v); return v;
}
template<class T> bool same_bits(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }

using Shape_t = std::vector<size_t>;
inline size_t product(const Shape_t& s) { size_t n = 1; for (size_t d : s) n *= d; return n; }
inline size_t rand_rank(Rng& r, size_t small) { return r.one_in(8) ? small + r.below(r.chance(70) ? 8 : 30) : r.below(small); }
inline Shape_t rand_shape(Rng& r, size_t rank, size_t max_elems = 400) {
    Shape_t s(rank);
    for (;;) { size_t n = 1; for (auto& d : s) { d = r.one_in(rank > 6 ? 40 : 9) ? 0 : rank > 5 && !r.one_in(5) ? 1 : r.one_in(4) ? 1 : r.one_in(12) ? 1 + r.below(200) : 1 + r.below(6); n *= d; } if (n <= max_elems) return s; }
}
template<class T> std::vector<T> rand_elems(Rng& r, size_t n) { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = rand_elem<T>(r); return v; }
inline std::string shape_text(const Shape_t& s) { std::string o = "("; for (size_t d : s) o += fmt("%zu,", d); return o + ")"; }

// Compares any xtensor expression with the model, at every index.
template<class T, class X> void expect_tensor(const X& x, const Shape_t& s, const std::vector<T>& flat, const char* key, const std::string& what) {
    auto xs = x.shape(); Shape_t got(xs.begin(), xs.end());
    if (got != s) fail(key, what + ": shape " + shape_text(s) + " read back as " + shape_text(got));
    if (x.size() != flat.size()) fail(key, what + fmt(": %zu elements read back as %zu", flat.size(), size_t(x.size())));
    std::vector<size_t> idx(s.size(), 0);
    for (size_t i = 0; i < flat.size(); ++i) {
        T e = x.element(idx.begin(), idx.end());
        if (!same_bits(e, flat[i])) fail(key, what + fmt(": element %zu of shape %s differs", i, shape_text(s).c_str()));
        for (size_t d = s.size(); d-- > 0;) { if (++idx[d] < s[d]) break; idx[d] = 0; }
    }
    CNT("tensor elements compared") += flat.size();
}
template<class T, class M> void expect_matrix(const M& m, size_t rows, size_t cols, const std::vector<T>& flat, const char* key, const std::string& what) {
    if (size_t(m.rows()) != rows || size_t(m.cols()) != cols) fail(key, what + fmt(": %zux%zu read back as %zux%zu", rows, cols, size_t(m.rows()), size_t(m.cols())));
    for (size_t i = 0; i < rows; ++i) for (size_t j = 0; j < cols; ++j) { T e = m(Eigen::Index(i), Eigen::Index(j)); if (!same_bits(e, flat[i * cols + j])) fail(key, what + fmt(": element (%zu,%zu) of %zux%zu differs", i, j, rows, cols)); }
    CNT("tensor elements compared") += flat.size();
}
template<class F> auto for_type(unsigned k, F&& f) {
    switch (k % 13) {
        case 0: return f.template operator()<int8_t>(); case 1: return f.template operator()<int16_t>(); case 2: return f.template operator()<int32_t>(); case 3: return f.template operator()<int64_t>();
        case 4: return f.template operator()<uint8_t>(); case 5: return f.template operator()<uint16_t>(); case 6: return f.template operator()<uint32_t>(); case 7: return f.template operator()<uint64_t>();
        case 8: return f.template operator()<float>(); case 9: return f.template operator()<double>(); case 10: return f.template operator()<cf>(); case 11: return f.template operator()<cd>(); default: return f.template operator()<half>();
    }
}
} // namespace vz

// A user type standing for any tensor, so that the ways of embedding are compiled once.
namespace vzten {
template<class P> struct Holder {
    std::function<void(typename P::Serializer&)> direct;
    std::function<void(zerialize::dyn::WriterView&)> erased;
};
template<class P> void serialize(const Holder<P>& h, typename P::Serializer& w) { h.direct(w); }
template<class P> void serialize(const Holder<P>& h, zerialize::dyn::WriterView& w) { h.erased(w); }
template<class P, class X> Holder<P> hold(const X& x) {
    return { [&x](typename P::Serializer& w) { using zerialize::serialize; serialize(x, w); }, [&x](zerialize::dyn::WriterView& w) { using zerialize::serialize; serialize(x, w); } };
}
}
