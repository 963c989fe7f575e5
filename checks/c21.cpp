// C21: builders, user types, dynamic values, tensors and refusals through the imported module.
#include "../lib/model.hpp"
#include <array>
#include <complex>
#include <list>
#include <optional>
#include <tuple>
#include <unordered_map>
#include <variant>
#include <xtensor/xarray.hpp>
#include <xtensor/xtensor.hpp>
#include <Eigen/Dense>
#define VZ_TENSOR_HEADERS
#include "../lib/proto.hpp"
using namespace vz;
using P = zerialize::VZ_P;

namespace vzmod {
struct Point { short x; unsigned y; std::string name; std::vector<double> w; };
template<zerialize::Writer W> void serialize(const Point& p, W& w) { zerialize::zmap<"x", "y", "name", "w">(p.x, p.y, p.name, p.w)(w); }
}
static Val model(const vzmod::Point& p) {
    Val w = Val::arr(); for (double d : p.w) w.a.push_back(Val::dbl(d));
    return Val::map({{"x", Val::integer(p.x)}, {"y", Val::uinteger(p.y)}, {"name", Val::str(p.name)}, {"w", w}});
}

template<class F> static void read(const z::ZBuffer& b, F&& f) {
    Exact e(b.buf());
    typename P::Deserializer d(e.span()); f(d);
}
template<class T> static void same_bits_at(const T& a, const T& b, const char* what, size_t i) {
    if (std::memcmp(&a, &b, sizeof(T)) != 0) fail("module-tensor", fmt("%s: element %zu differs", what, i));
}

static void builders(Rng& r) {
    Gen g(r, common_opts());
    vzmod::Point p{short(r.next()), unsigned(r.next()), g.str(false), {}};
    for (size_t i = r.below(6); i--;) p.w.push_back(Gen::edge_double(r, true));
    std::string s = g.str(false), bytes = g.blob(); int a = int(r.next()); bool b = r.chance(50); double d = Gen::edge_double(r, true);
    std::span<const std::byte> bl{reinterpret_cast<const std::byte*>(bytes.data()), bytes.size()};
    std::map<std::string, int> sm{{"one", 1}, {"two", -2}};
    std::optional<int> none, some = a;
    Val vp = model(p), vs = Val::str(s), va = Val::integer(a), vb = Val::boolean(b), vd = Val::dbl(d), vbl = Val::blob(bytes);
    Val vm = Val::map({{"one", Val::integer(1)}, {"two", Val::integer(-2)}});
    Val want; z::ZBuffer buf;
    switch (r.below(6)) {
        case 0: buf = z::serialize<P>(z::zvec(a, b, d, s, p, nullptr, bl)); want = Val::arr({va, vb, vd, vs, vp, Val::null(), vbl}); break;
        case 1: buf = z::serialize<P>(z::zmap<"a", "p", "in">(a, p, z::zvec(s, z::zmap<"d">(d)))); want = Val::map({{"a", va}, {"p", vp}, {"in", Val::arr({vs, Val::map({{"d", vd}})})}}); break;
        case 2: buf = z::serialize<P>(std::vector<vzmod::Point>{p, p}); want = Val::arr({vp, vp}); break;
        case 3: buf = z::serialize<P>(z::dyn::map({{"k", z::dyn::array({a, s, b, nullptr, z::dyn::serializable(p)})}, {"d", d}})); want = Val::map({{"k", Val::arr({va, vs, vb, Val::null(), vp})}, {"d", vd}}); break;
        case 4: buf = z::serialize<P>(z::zvec(sm, std::array<int, 2>{a, a}, std::list<std::string>{s})); want = Val::arr({vm, Val::arr({va, va}), Val::arr({vs})}); break;
        default: buf = z::serialize<P>(p); want = vp; break;
    }
    CNT("descriptions written by an importing program")++;
    read(buf, [&](const auto& rd) {
        expect_equal<P>(rd, want, "module-builders", &r, true);
        if (want.k == Val::Map) {
            size_t n = 0; for (std::string_view k : rd.mapKeys()) { if (!rd.contains(k)) fail("module-keys", "a key is not contained: " + show(k)); ++n; }
            if (n != want.m.size()) fail("module-keys", fmt("%zu keys instead of %zu", n, want.m.size()));
        }
        auto refused = [&](const char* what, auto&& f) {
            try { f(); } catch (const z::DeserializationError& e) { if (!*e.what()) fail("module-refusal", "no text"); CNT("refusals caught by an importing program")++; return; }
            fail("module-refusal", std::string(what) + " was not refused");
        };
        if (want.k == Val::Map) refused("a missing key", [&] { (void)rd["no such key"]; });
        refused("a string read of a container", [&] { (void)rd.asString(); });
        static_assert(z::Reader<std::remove_cvref_t<decltype(rd)>>);
    });
    covered(mix(digest(want) ^ hash_str(VZ_PNAME)), true);
}

template<class T> static void tensors(Rng& r) {
    size_t rows = r.below(6), cols = r.below(6);
    xt::xarray<T> x = xt::xarray<T>::from_shape({rows, cols});
    for (size_t i = 0; i < x.size(); ++i) { uint64_t v = r.next(); std::memcpy(static_cast<void*>(x.data() + i), &v, std::min(sizeof v, sizeof(T))); }
    Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> m; m.resize(static_cast<Eigen::Index>(rows), static_cast<Eigen::Index>(cols));
    for (size_t i = 0; i < x.size(); ++i) { uint64_t v = r.next(); std::memcpy(static_cast<void*>(m.data() + i), &v, std::min(sizeof v, sizeof(T))); }
    int a = int(r.next());
    auto buf = r.chance(50) ? z::serialize<P>(z::zmap<"t", "a", "m">(x, a, m)) : z::serialize<P>(z::dyn::map({{"t", z::dyn::serializable(x)}, {"a", a}, {"m", z::dyn::serializable(m)}}));
    read(buf, [&](const auto& rd) {
        auto look = [&](const auto& q) {
            if (!z::isTensor<T>(q["t"]) || !z::isTensor<T>(q["m"])) fail("module-tensor", "isTensor denies a tensor");
            auto y = z::xtensor::asXTensor<T>(q["t"]);
            if (y.dimension() != 2 || y.shape()[0] != rows || y.shape()[1] != cols) fail("module-tensor", "shape differs");
            for (size_t i = 0; i < x.size(); ++i) same_bits_at(*(y.data() + i), *(x.data() + i), "asXTensor", i);
            auto n = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>(z::eigen::asEigenMatrix<T, Eigen::Dynamic, Eigen::Dynamic>(q["m"]));
            if (n.rows() != m.rows() || n.cols() != m.cols()) fail("module-tensor", "matrix shape differs");
            for (size_t i = 0; i < x.size(); ++i) same_bits_at(*(n.data() + i), *(m.data() + i), "asEigenMatrix", i);
            CNT("tensors read by an importing program") += 2;
        };
        look(rd);
        switch (r.below(5)) {
            case 0: look(z::translate<z::Zera>(rd)); break;
            case 1: look(z::translate<z::MsgPack>(rd)); break;
            case 2: look(z::translate<z::Flex>(rd)); break;
            default: break;
        }
    });
    covered(hash_bytes(buf.data(), buf.size(), hash_str(VZ_PNAME)), x.size() > 0);
}

static void one(uint64_t i, Rng& r) {
    if (i % 2) return builders(r);
    switch (r.below(6)) {
        case 0: return tensors<double>(r);
        case 1: return tensors<float>(r);
        case 2: return tensors<int8_t>(r);
        case 3: return tensors<uint16_t>(r);
        case 4: return tensors<int64_t>(r);
        default: return tensors<std::complex<double>>(r);
    }
}
int main(int argc, char** argv) { return main_loop(argc, argv, "c21" VZ_PNAME, one); }
