// C08: tensor reads reject mismatched dtype, rank, shape or payload size.
#include "../lib/tens.hpp"
using namespace vz;
using P = zerialize::VZ_P;
namespace zx = zerialize::xtensor; namespace ze = zerialize::eigen;
using Big = unsigned __int128;

enum Want { kMustThrow, kMustRead, kEither };
struct Forged { Val doc; bool map_form = false; Want want = kMustRead; std::string why; std::vector<uint64_t> dims; std::string payload; int64_t code = 0; };

// The number of payload bytes a shape asks for; false if it does not fit in 64 bits.
static bool bytes_for(const std::vector<uint64_t>& dims, size_t size, uint64_t& out, bool& partial) {
    Big n = 1; bool zero = false; partial = false;
    for (uint64_t d : dims) if (d == 0) zero = true;
    Big nz = 1; bool over = false;
    for (uint64_t d : dims) { if (d) { if (!over) nz *= d; if (nz * size > Big(INT64_MAX)) over = true; } if (!zero) n *= d; }
    if (zero) { partial = over; out = 0; return true; }
    if (over && nz * size > Big(UINT64_MAX)) return false;
    if (over) return false;
    out = uint64_t(n * size); return true;
}
static Val dim_value(uint64_t d, Rng& r) { return r.chance(50) && d <= uint64_t(INT64_MAX) ? Val::integer(int64_t(d)) : Val::uinteger(d); }
static int64_t other_code(int64_t code, Rng& r) {
    for (;;) { int64_t c; switch (r.below(7)) { case 0: c = int64_t(r.below(18)); break; case 1: c = code + 256; break; case 2: c = code - 256; break; case 3: c = code + (int64_t(1) << 32); break; case 4: c = -1; break; case 5: c = code + 65536 * int64_t(r.below(9)); break; default: c = int64_t(r.next()); }
        if (c != code) return c; }
}
// size: element size; rank, rows, cols: what the read asks for (-1 = anything)
static Forged forge(Rng& r, int code, size_t size, int rank, int64_t rows, int64_t cols) {
    Forged f; f.code = code; f.map_form = r.chance(40);
    size_t rk = rank >= 0 ? size_t(rank) : r.below(5);
    Shape_t s = rand_shape(r, rk, 120); f.dims.assign(s.begin(), s.end());
    if (rows >= 0) f.dims[0] = uint64_t(rows);
    if (cols >= 0) f.dims[1] = uint64_t(cols);
    uint64_t need = 0; bool partial; bytes_for(f.dims, size, need, partial);
    f.payload = Gen(r, GenOpts{}).content(need, false, false); f.payload.resize(need);
    Val code_v = Val::integer(code); Val dims_v = Val::arr(); std::vector<Val> dv; for (uint64_t d : f.dims) dv.push_back(dim_value(d, r));
    Val blob_v = Val::blob(f.payload); bool dims_odd = false;
    auto bad = [&](const char* w) { f.want = kMustThrow; f.why = w; };
    switch (r.below(24)) {
        case 0: case 1: code_v = Val::integer(other_code(code, r)); bad("element type code"); break;
        case 2: { f.payload.push_back('x'); blob_v = Val::blob(f.payload); bad("one byte too many"); break; }
        case 3: if (!f.payload.empty()) { f.payload.pop_back(); blob_v = Val::blob(f.payload); bad("one byte too few"); } break;
        case 4: { std::string p = f.payload; p += Gen(r, GenOpts{}).content(size, false, false); p.resize(f.payload.size() + size); f.payload = p; blob_v = Val::blob(p); bad("one element too many"); break; }
        case 5: if (f.payload.size() >= size && !f.payload.empty()) { f.payload.resize(f.payload.size() - size); blob_v = Val::blob(f.payload); bad("one element too few"); } break;
        case 6: if (!f.payload.empty()) { f.payload.clear(); blob_v = Val::blob(""); bad("no payload"); } break;
        case 7: if (!dv.empty()) { size_t i = r.below(dv.size()); dv[i] = Val::integer(-int64_t(1 + r.below(r.chance(50) ? 5 : 1u << 31))); bad("negative dimension"); } break;
        case 8: if (!dv.empty()) { size_t i = r.below(dv.size()); uint64_t d = f.dims[i] + (uint64_t(1 + r.below(4)) << 32); dv[i] = dim_value(d, r); f.dims[i] = d; bad("dimension over 32 bits"); if (rank < 0 || true) { uint64_t n2; if (bytes_for(f.dims, size, n2, partial) && n2 == f.payload.size()) f.want = kMustThrow; } } break;
        case 9: if (!dv.empty()) { dv[r.below(dv.size())] = r.of<Val>({Val::str("3"), Val::dbl(2.0), Val::null(), Val::boolean(true), Val::arr()}); bad("dimension that is no integer"); } break;
        case 10: { Shape_t extra; dv.push_back(dim_value(1, r)); f.dims.push_back(1); if (rank >= 0) bad("one dimension too many"); break; }
        case 11: if (!dv.empty() && rank >= 0) { dv.pop_back(); f.dims.pop_back(); uint64_t n2; bytes_for(f.dims, size, n2, partial); f.payload.resize(n2); blob_v = Val::blob(f.payload); bad("one dimension too few"); } break;
        case 12: if (rank < 0 || rank >= 2) { // products that wrap to the payload size
            std::vector<std::vector<uint64_t>> w; uint64_t h = uint64_t(1) << 31;
            w = {{h, h, 4}, {h, 2 * h - 1, 2}, {4294967295u, 4294967295u, 4294967295u}, {h, h, 4, 0 + 1}, {65536, 65536, 65536, 65536}, {h, h / size * 2 ? h / size * 2 : 1, 2}};
            if (rank == 2) w = {{h, h * 2 / 8 * (8 / std::min<size_t>(size, 8)) > 4294967295u ? 4294967295u : h * 2 / std::min<size_t>(size, 8)}, {4294967295u, 4294967295u}, {h, h}, {h, 4294967295u}};
            if (rank < 0 || rank == 2) { f.dims = w[r.below(w.size())]; uint64_t wrapped = size; for (uint64_t d : f.dims) wrapped *= d; if (wrapped > 4096) wrapped = 0; f.payload.resize(wrapped); dv.clear(); for (uint64_t d : f.dims) dv.push_back(dim_value(d, r)); blob_v = Val::blob(f.payload); bad("size that overflows"); }
            } break;
        case 13: if (rows >= 0 || cols >= 0) { size_t i = rows >= 0 && (cols < 0 || r.chance(50)) ? 0 : 1; f.dims[i] += r.chance(50) || !f.dims[i] ? 1 : uint64_t(-1); dv[i] = dim_value(f.dims[i], r); uint64_t n2; bytes_for(f.dims, size, n2, partial); f.payload.resize(n2); blob_v = Val::blob(f.payload); bad("fixed dimension that differs"); } break;
        case 14: if (rows >= 0 && cols >= 0 && rows != cols) { std::swap(f.dims[0], f.dims[1]); dv.clear(); for (uint64_t d : f.dims) dv.push_back(dim_value(d, r)); bad("swapped fixed dimensions"); } break;
        case 15: blob_v = r.of<Val>({Val::str(std::string("abcd")), Val::arr({Val::integer(1)}), Val::null(), Val::map(), Val::uinteger(7)}); bad("payload that is no blob"); break;
        case 16: code_v = r.of<Val>({Val::str("float"), Val::dbl(double(code)), Val::null(), Val::boolean(true), Val::arr()}); bad("type code that is no integer"); break;
        case 17: dims_odd = true; bad("shape that is no array"); break;
        case 20: { size_t extra = r.of<size_t>({2, 3, 4, 7, 8, 15, 16, 256, 2 * size, 16 * size, 65536}); if (r.chance(50) || f.payload.size() < extra) f.payload += std::string(extra, 'y'); else f.payload.resize(f.payload.size() - extra); blob_v = Val::blob(f.payload); bad("payload of another size"); break; }
        case 18: code_v = Val::uinteger(uint64_t(code)); f.want = kEither; break;
        case 19: if (!dv.empty() && rows < 0 && cols < 0) { // huge but empty
            size_t z = r.below(dv.size()); for (size_t i = 0; i < dv.size(); ++i) { f.dims[i] = i == z ? 0 : r.of<uint64_t>({4294967295u, 65536, 3}); dv[i] = dim_value(f.dims[i], r); } uint64_t n2; bytes_for(f.dims, size, n2, partial); f.payload.clear(); blob_v = Val::blob(""); f.want = partial ? kEither : kMustRead; } break;
        default: break;
    }
    dims_v.a = dv; if (dims_odd) dims_v = r.of<Val>({Val::integer(3), Val::map({{"0", Val::integer(2)}}), Val::str("2,3"), Val::null(), Val::blob(std::string("\2\3", 2))});
    if (f.map_form) {
        std::vector<std::pair<std::string, Val>> m{{"shape", dims_v}, {"dtype", code_v}, {"data", blob_v}}; for (size_t i = m.size(); i > 1; --i) std::swap(m[i - 1], m[r.below(i)]);
        if (r.one_in(12)) { m.erase(m.begin() + long(r.below(m.size()))); bad("missing entry"); }
        else if (r.one_in(12)) { m[r.below(m.size())].first += "s"; bad("misnamed entry"); }
        else if (r.one_in(8)) m.insert(m.begin() + long(r.below(m.size() + 1)), {"extra", Val::str("e")});
        f.doc = Val::map(m);
    } else {
        f.doc = Val::arr({code_v, dims_v, blob_v});
        if (r.one_in(12)) { f.doc.a.pop_back(); bad("missing element"); }
        else if (r.one_in(14)) { std::swap(f.doc.a[r.below(2)], f.doc.a[2]); bad("elements in another order"); }
    }
    // A JSON blob is an array too, so shape slots holding one are not plainly "no array".
    if (Tr<P>::json && dims_odd && dims_v.k == Val::Blob) f.want = kMustThrow;
    return f;
}

// Runs the read; says whether it returned. Anything but DeserializationError is a violation.
template<class F> static bool reads(F&& f, const std::string& what) {
    try { f(); return true; }
    catch (const DeserializationError&) { return false; }
    catch (const std::exception& e) { fail("tensor-other-exception", what + ": threw something else than DeserializationError: " + e.what()); }
}
static std::string describe(const Forged& f, const char* kind) { std::string d; for (uint64_t x : f.dims) d += fmt("%llu,", (unsigned long long)x); return std::string(Tr<P>::name) + " " + kind + " read of " + text(f.doc, 150) + " [" + d + "]" + (f.why.empty() ? "" : " (" + f.why + ")"); }
static void judged(bool ok, const Forged& f, const std::string& what) {
    if (ok && f.want == kMustThrow) fail("tensor-accepted", what + ": was accepted");
    if (!ok && f.want == kMustRead) fail("tensor-refused", what + ": was refused");
    if (ok) CNT("matching tensors read") += 1; else { CNT("mismatched tensors refused") += 1; if (!f.why.empty()) count("refused: " + f.why); }
    covered(hash_str(what) ^ digest(f.doc), true);
}
template<class T> static void elements_inside(const T* p, size_t n, const Forged& f, const std::string& what) {
    if (n * sizeof(T) != f.payload.size()) fail("tensor-size", what + fmt(": %zu elements from a payload of %zu bytes", n, f.payload.size()));
    if (n && std::memcmp(static_cast<const void*>(p), f.payload.data(), f.payload.size()) != 0) fail("tensor-content", what + ": elements are not the payload");
}

template<class T, int D> static void xt_read(Rng& r) {
    Forged f = forge(r, dt<T>::code, sizeof(T), D, -1, -1); std::string what = describe(f, dt<T>::name); note(what);
    auto buf = write<P>(f.doc, 0); Exact ex(buf.buf());
    with_reader<P>(ex.span(), 0, [&](const auto& rd) {
        bool ok = f.map_form ? reads([&] { auto v = zx::asXTensorView<T, D, true>(rd); auto t = v.tensor(); elements_inside<T>(t.data(), t.size(), f, what); if (!std::equal(f.dims.begin(), f.dims.end(), v.shape().begin(), v.shape().end())) fail("tensor-shape", what + ": other shape"); for (auto& e : t) (void)*const_cast<volatile const unsigned char*>(reinterpret_cast<const unsigned char*>(&e)); }, what)
                             : reads([&] { auto v = zx::asXTensorView<T, D>(rd); auto t = v.tensor(); elements_inside<T>(t.data(), t.size(), f, what); if (!std::equal(f.dims.begin(), f.dims.end(), v.shape().begin(), v.shape().end())) fail("tensor-shape", what + ": other shape"); }, what);
        judged(ok, f, what);
        bool ok2 = f.map_form ? reads([&] { auto a = zx::asXTensor<T, D, true>(rd); elements_inside<T>(a.data(), a.size(), f, what); }, what) : reads([&] { auto a = zx::asXTensor<T, D>(rd); elements_inside<T>(a.data(), a.size(), f, what); }, what);
        if (ok2 != ok) fail("tensor-inconsistent", what + ": the array and view reads disagree");
        bool yes = f.map_form ? reads([&] { if (!z::isTensor<T, true>(rd)) throw DeserializationError("no"); }, what) : reads([&] { if (!z::isTensor<T>(rd)) throw DeserializationError("no"); }, what);
        if (ok && !yes) fail("tensor-inconsistent", what + ": reads as a tensor but isTensor says no");
        static const std::set<std::string> kinds{"element type code", "type code that is no integer", "payload that is no blob", "shape that is no array", "missing entry", "misnamed entry", "missing element", "elements in another order"};
        if (yes && kinds.count(f.why) && !(Tr<P>::json && (f.why == "shape that is no array" || f.why == "elements in another order"))) fail("tensor-inconsistent", what + ": isTensor says yes");
        CNT("isTensor answers compared") += 1;
        // the other form of the same document is never a tensor of this type
        bool cross = f.map_form ? reads([&] { (void)zx::asXTensorView<T, D>(rd); }, what) : reads([&] { (void)zx::asXTensorView<T, D, true>(rd); }, what);
        if (cross) fail("tensor-accepted", what + ": was accepted in the other form");
    });
}
template<class T, int R, int C, int O> static void eig_read(Rng& r) {
    Forged f = forge(r, dt<T>::code, sizeof(T), 2, R, C); std::string what = describe(f, dt<T>::name) + fmt(" as Eigen <%d,%d>", R, C); note(what);
    auto buf = write<P>(f.doc, 0); Exact ex(buf.buf());
    with_reader<P>(ex.span(), 0, [&](const auto& rd) {
        auto look = [&](const auto& v) { if (v.rows() != f.dims[0] || v.cols() != f.dims[1]) fail("tensor-shape", what + ": other shape"); auto m = v.map(); elements_inside<T>(m.data(), size_t(m.size()), f, what); auto own = v.matrix(); elements_inside<T>(own.data(), size_t(own.size()), f, what); };
        bool ok = f.map_form ? reads([&] { look(ze::asEigenMatrixView<T, R, C, true, O>(rd)); }, what) : reads([&] { look(ze::asEigenMatrixView<T, R, C, false, O>(rd)); }, what);
        judged(ok, f, what);
        bool ok2 = f.map_form ? reads([&] { (void)ze::asEigenMatrix<T, R, C, true, O>(rd); }, what) : reads([&] { (void)ze::asEigenMatrix<T, R, C, false, O>(rd); }, what);
        if (ok2 != ok) fail("tensor-inconsistent", what + ": the matrix and view reads disagree");
    });
}
// Every pair of stored and requested element type.
template<class T> static void type_pairs(Rng& r) {
    for (int code = -3; code < 20; ++code) {
        size_t n = r.below(4); std::string payload(n * sizeof(T), 'a'); Val doc = Val::arr({Val::integer(code), Val::arr({Val::integer(int64_t(n))}), Val::blob(payload)});
        std::string what = std::string(Tr<P>::name) + fmt(" code %d read as %s", code, dt<T>::name); note(what);
        auto buf = write<P>(doc, 0); const typename P::Deserializer rd(buf.buf());
        bool ok = reads([&] { (void)zx::asXTensorView<T>(rd); }, what);
        if (ok != (code == dt<T>::code)) fail(ok ? "tensor-accepted" : "tensor-refused", what + (ok ? " was accepted" : " was refused"));
        CNT("element type pairs tried") += 1;
    }
}
constexpr int Dy = Eigen::Dynamic, CM = Eigen::ColMajor, RM = Eigen::RowMajor;
static void one(uint64_t, Rng& r) {
    if (r.one_in(60)) { for_type(unsigned(r.below(13)), [&]<class T>() { type_pairs<T>(r); }); return; }
    switch (r.below(14)) {
        case 0: for_type(unsigned(r.below(13)), [&]<class T>() { xt_read<T, -1>(r); }); break;
        case 1: xt_read<double, 0>(r); break; case 2: xt_read<double, 1>(r); break; case 3: xt_read<float, 2>(r); break; case 4: xt_read<int8_t, 2>(r); break; case 5: xt_read<cd, 2>(r); break; case 6: xt_read<uint16_t, 3>(r); break;
        case 7: eig_read<double, Dy, Dy, CM>(r); break; case 8: eig_read<int16_t, Dy, Dy, RM>(r); break; case 9: eig_read<float, 2, 3, CM>(r); break; case 10: eig_read<uint8_t, 3, Dy, CM>(r); break; case 11: eig_read<cd, Dy, 2, RM>(r); break;
        case 12: eig_read<int64_t, Dy, 1, CM>(r); break; default: xt_read<uint64_t, -1>(r);
    }
}
int main(int c, char** v) { return main_loop(c, v, "c08-" VZ_PNAME, one); }
