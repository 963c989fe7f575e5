// C14: all ways of describing the same value serialize identically.
#include "../lib/proto.hpp"
#include <array>
#include <deque>
#include <list>
#include <tuple>
#include <unordered_map>
using namespace vz;
using P = zerialize::VZ_P;

// ---------------------------------------------------------------- a writer that records
// An independent Writer: it builds the model of whatever is written into it and fails on
// calls that are out of order, so the descriptions are also judged without any protocol.
struct Recorder {
    struct Frame { Val v; bool map; size_t announced; std::string key; bool has_key = false; };
    std::vector<Frame> st; Val root; bool have = false; uint64_t events = 0;
    void put(Val v) {
        ++events;
        if (st.empty()) { if (have) fail("recorder-two-roots", "two root values were written for one object"); root = std::move(v); have = true; return; }
        Frame& f = st.back();
        if (f.map) { if (!f.has_key) fail("recorder-no-key", "a map value was written without a key"); f.v.m.emplace_back(std::move(f.key), std::move(v)); f.has_key = false; }
        else f.v.a.push_back(std::move(v));
    }
    void null() { put(Val::null()); }
    void boolean(bool b) { put(Val::boolean(b)); }
    void int64(std::int64_t v) { put(Val::integer(v)); }
    void uint64(std::uint64_t v) { put(Val::uinteger(v)); }
    void double_(double d) { put(Val::dbl(d)); }
    void string(std::string_view s) { put(Val::str(std::string(s))); }
    void binary(std::span<const std::byte> b) { put(Val::blob(std::string(reinterpret_cast<const char*>(b.data()), b.size()))); }
    void key(std::string_view k) { ++events; if (st.empty() || !st.back().map || st.back().has_key) fail("recorder-stray-key", "key written out of place: " + show(k)); st.back().key = k; st.back().has_key = true; }
    void begin_array(size_t n) { ++events; st.push_back({Val::arr(), false, n, {}}); }
    void begin_map(size_t n) { ++events; st.push_back({Val::map(), true, n, {}}); }
    void close(bool map) {
        ++events; if (st.empty() || st.back().map != map) fail("recorder-bad-end", "end of a container that is not open");
        Frame f = std::move(st.back()); st.pop_back(); size_t n = map ? f.v.m.size() : f.v.a.size();
        if (f.has_key) fail("recorder-dangling-key", "key without value: " + show(f.key));
        if (n != f.announced) fail("recorder-count", fmt("container announced %zu elements and wrote %zu", f.announced, n));
        put(std::move(f.v));
    }
    void end_array() { close(false); }
    void end_map() { close(true); }
};
static_assert(z::Writer<Recorder>);

template<class T> static void describe(T&& v, Recorder& w) {
    using B = std::remove_cvref_t<T>;
    if constexpr (z::Builder<B>) std::forward<T>(v)(w); else { using zerialize::serialize; serialize(std::forward<T>(v), w); }
}
template<class T> static Val recorded(T&& v) {
    Recorder w; describe(std::forward<T>(v), w);
    if (!w.st.empty() || !w.have) fail("recorder-unfinished", "serialize left a container open or wrote nothing");
    CNT("writer calls recorded") += w.events; return std::move(w.root);
}

// ---------------------------------------------------------------- typed arguments
namespace vzarg {
struct Log { std::vector<int64_t> seen; };
struct Tok { int64_t id; Log* log; };                     // says when it is serialized
template<zerialize::Writer W> void serialize(const Tok& t, W& w) { t.log->seen.push_back(t.id); w.int64(t.id); }
struct Point { short x; unsigned y; std::string name; std::vector<float> w; };
template<zerialize::Writer W> void serialize(const Point& p, W& w) { zerialize::zmap<"x", "y", "name", "w">(p.x, p.y, p.name, p.w)(w); }
}
static constexpr int64_t kIdBase = 0x35a7b1c3d5e79b2; // no generated number comes near
using Bytes = std::vector<std::byte>;

static Val model(std::nullptr_t) { return Val::null(); }
static Val model(bool b) { return Val::boolean(b); }
template<std::integral T> requires (!std::same_as<T, bool>) static Val model(T v) { if constexpr (std::is_signed_v<T>) return Val::integer(v); else return Val::uinteger(v); }
static Val model(float f) { return Val::dbl(double(f)); }
static Val model(double f) { return Val::dbl(f); }
static Val model(const char* s) { return Val::str(s); }
static Val model(std::string_view s) { return Val::str(std::string(s)); }
static Val model(const std::string& s) { return Val::str(s); }
static Val model(std::span<const std::byte> b) { return Val::blob(std::string(reinterpret_cast<const char*>(b.data()), b.size())); }
static Val model(const Bytes& b) { return model(std::span<const std::byte>(b)); }
static Val model(const vzarg::Tok& t) { return Val::integer(t.id); }
static Val model(const vzarg::Point& p);
template<class T> static Val model(const std::vector<T>& c);
template<class T> static Val model(const std::list<T>& c);
template<class T, size_t N> static Val model(const std::array<T, N>& c);
template<class K, class T> static Val model(const std::map<K, T>& c);
template<class K, class T> static Val model(const std::unordered_map<K, T>& c);
template<class C> static Val seq(const C& c) { Val v = Val::arr(); for (const auto& e : c) v.a.push_back(model(static_cast<const typename C::value_type&>(e))); return v; }
template<class C> static Val assoc(const C& c) { Val v = Val::map(); for (const auto& [k, e] : c) v.m.emplace_back(std::string(k), model(e)); return v; }
static Val model(const std::vector<bool>& c) { Val v = Val::arr(); for (bool e : c) v.a.push_back(Val::boolean(e)); return v; }
template<class T> static Val model(const std::vector<T>& c) { return seq(c); }
template<class T> static Val model(const std::list<T>& c) { return seq(c); }
template<class T, size_t N> static Val model(const std::array<T, N>& c) { return seq(c); }
template<class K, class T> static Val model(const std::map<K, T>& c) { return assoc(c); }
template<class K, class T> static Val model(const std::unordered_map<K, T>& c) { return assoc(c); }
static Val model(const vzarg::Point& p) { return Val::map({{"x", Val::integer(p.x)}, {"y", Val::uinteger(p.y)}, {"name", Val::str(p.name)}, {"w", model(p.w)}}); }

struct Ctx { Rng& r; GenOpts o; std::deque<std::string> pool; std::deque<Val> vals; std::deque<vzarg::Tok> toks; vzarg::Log log; int64_t next_id = 0;
    std::string text(size_t max = 40) { return Gen(r, o).content(r.below(max), o.utf8, true); }
    std::string ctext() { std::string s = text(); std::erase(s, '\0'); return s; }
    std::string keytext() { std::string s = text(12); if (!o.nul_keys) std::erase(s, '\0'); return s; } };

template<class T> static T number(Rng& r, bool finite) {
    if constexpr (std::is_same_v<T, bool>) return r.chance(50);
    else if constexpr (std::is_floating_point_v<T>) {
        for (;;) { T f;
            if (r.chance(30)) f = T(r.of<double>({0.0, -0.0, 1, -1, 0.1, 3.4028234663852886e38, 1.401298464324817e-45, 1e-40, 16777217.0, 0.5}));
            else if (sizeof(T) == 4) { uint32_t b = uint32_t(r.next()); std::memcpy(&f, &b, 4); }
            else { double d = Gen::edge_double(r, finite); f = T(d); }
            if (std::isnan(f)) { if (finite) continue; f = std::numeric_limits<T>::quiet_NaN(); } // float to double conversion may change NaN payloads
            if (finite && !std::isfinite(f)) continue;
            return f; }
    } else {
        using L = std::numeric_limits<T>;
        if (r.chance(40)) return r.of<T>({T(0), T(1), T(-1), L::min(), L::max(), T(L::max() - 1), T(L::min() + 1), T(127), T(128), T(L::max() / 2), T(L::max() / 2 + 1)});
        return T(r.bits() * (r.chance(50) ? 1 : ~0ull));
    }
}
template<class T> struct tag {};
template<class T> requires std::is_arithmetic_v<T> static T make(tag<T>, Ctx& c) { return number<T>(c.r, c.o.finite); }
static std::nullptr_t make(tag<std::nullptr_t>, Ctx&) { return nullptr; }
static const char* make(tag<const char*>, Ctx& c) { c.pool.push_back(c.ctext()); return c.pool.back().c_str(); }
static std::string_view make(tag<std::string_view>, Ctx& c) { c.pool.push_back(c.text()); return c.pool.back(); }
static std::string make(tag<std::string>, Ctx& c) { return c.text(); }
static Bytes make(tag<Bytes>, Ctx& c) { std::string s = Gen(c.r, c.o).content(c.r.below(40), false, false); auto* p = reinterpret_cast<const std::byte*>(s.data()); return Bytes(p, p + s.size()); }
static std::span<const std::byte> make(tag<std::span<const std::byte>>, Ctx& c) { c.pool.push_back(Gen(c.r, c.o).content(c.r.below(40), false, false)); return std::as_bytes(std::span<const char>(c.pool.back().data(), c.pool.back().size())); }
static vzarg::Tok make(tag<vzarg::Tok>, Ctx& c) { vzarg::Tok t{c.next_id++, &c.log}; c.toks.push_back(t); return t; }
static vzarg::Point make(tag<vzarg::Point>, Ctx& c);
template<class T> static std::vector<T> make(tag<std::vector<T>>, Ctx& c) { std::vector<T> v; size_t n = c.r.below(6); for (size_t i = 0; i < n; ++i) v.push_back(make(tag<T>{}, c)); return v; }
template<class T> static std::list<T> make(tag<std::list<T>>, Ctx& c) { std::list<T> v; size_t n = c.r.below(6); for (size_t i = 0; i < n; ++i) v.push_back(make(tag<T>{}, c)); return v; }
template<class T, size_t N> static std::array<T, N> make(tag<std::array<T, N>>, Ctx& c) { std::array<T, N> a{}; for (auto& e : a) e = make(tag<T>{}, c); return a; }
template<class M, class T> static M fill(Ctx& c) { M m; size_t n = c.r.below(6); for (size_t i = 0; i < n; ++i) { c.pool.push_back(c.keytext()); std::string_view k = c.pool.back(); typename M::key_type kk(k); if (!m.count(kk)) m.emplace(std::move(kk), make(tag<T>{}, c)); } return m; }
template<class K, class T> static std::map<K, T> make(tag<std::map<K, T>>, Ctx& c) { return fill<std::map<K, T>, T>(c); }
template<class K, class T> static std::unordered_map<K, T> make(tag<std::unordered_map<K, T>>, Ctx& c) { return fill<std::unordered_map<K, T>, T>(c); }
static vzarg::Point make(tag<vzarg::Point>, Ctx& c) { return {number<short>(c.r, true), number<unsigned>(c.r, true), c.text(), make(tag<std::vector<float>>{}, c)}; }

// One argument of a builder: how it is made and what it means. Kind numbers are compile time.
struct DynT {}; struct NodeT {};
template<class T> struct arg { static auto get(Ctx& c, Val& m) { T v = make(tag<T>{}, c); m = model(v); return v; } };
template<> struct arg<DynT> { static auto get(Ctx& c, Val& m) { GenOpts o = c.o; o.max_depth = 3; Val v = Gen(c.r, o).tree(); m = v; return to_dyn(v); } };
template<> struct arg<NodeT> { static auto get(Ctx& c, Val& m) { GenOpts o = c.o; o.max_depth = 3; c.vals.push_back(Gen(c.r, o).tree()); m = c.vals.back(); return vzuser::Node{&c.vals.back()}; } };
template<size_t S> struct SubVec {}; template<size_t S> struct SubMap {};

using Leaves = std::tuple<bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double,
    std::nullptr_t, const char*, std::string_view, std::string, Bytes, std::span<const std::byte>, vzarg::Tok, vzarg::Point, DynT, NodeT,
    std::vector<int>, std::vector<bool>, std::vector<char>, std::vector<uint8_t>, std::vector<double>, std::vector<std::string>, std::vector<Bytes>, std::vector<std::vector<unsigned short>>, std::vector<vzarg::Tok>,
    std::list<long long>, std::list<std::string>, std::list<vzarg::Tok>, std::array<unsigned long long, 3>, std::array<std::string, 2>, std::array<float, 0>, std::array<vzarg::Point, 1>,
    std::map<std::string, double>, std::map<std::string_view, int>, std::map<std::string, std::vector<std::string>>, std::map<std::string, vzarg::Tok>, std::unordered_map<std::string, unsigned>, std::unordered_map<std::string, std::map<std::string, Bytes>>,
    std::vector<std::list<long>>, SubVec<1>, SubMap<2>, SubVec<3>, SubMap<4>>;
constexpr size_t kLeaves = std::tuple_size_v<Leaves>;
constexpr size_t pick(size_t seed, size_t i) { uint64_t x = (seed * 1000003 + i + 1) * 0x9e3779b97f4a7c15ull; x ^= x >> 29; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return size_t(x % kLeaves); }
constexpr size_t pick_flat(size_t seed, size_t i) { size_t p = pick(seed, i); return p >= kLeaves - 4 ? (p + seed) % (kLeaves - 4) : p; }

template<size_t S> struct arg<SubVec<S>> { static auto get(Ctx& c, Val& m) {
    Val a, b, d; auto x = arg<std::tuple_element_t<pick_flat(S, 0), Leaves>>::get(c, a); auto y = arg<std::tuple_element_t<pick_flat(S, 1), Leaves>>::get(c, b); auto t = arg<std::tuple_element_t<pick_flat(S, 2), Leaves>>::get(c, d);
    m = Val::arr({a, b, Val::arr({d}), Val::arr()}); return z::zvec(std::move(x), std::move(y), z::zvec(std::move(t)), z::zvec()); } };
template<size_t S> struct arg<SubMap<S>> { static auto get(Ctx& c, Val& m) {
    Val a, b, d; auto x = arg<std::tuple_element_t<pick_flat(S, 0), Leaves>>::get(c, a); auto y = arg<std::tuple_element_t<pick_flat(S, 1), Leaves>>::get(c, b); auto t = arg<std::tuple_element_t<pick_flat(S, 2), Leaves>>::get(c, d);
    m = Val::map({{"z", a}, {"a", Val::map({{"", b}, {"q", Val::map()}})}, {"mm", d}}); return z::zmap<"z", "a", "mm">(std::move(x), z::zmap<"", "q">(std::move(y), z::zmap<>()), std::move(t)); } };

// ---------------------------------------------------------------- the oracle
static std::string bytes_of(const z::ZBuffer& b) { return std::string(reinterpret_cast<const char*>(b.buf().data()), b.buf().size()); }
static std::string direct(const Val& v) { return bytes_of(write<P>(v, 0)); }
static void same_bytes(const std::string& got, const std::string& want, const Val& m, const char* key, const char* how) {
    if (got == want) { CNT("descriptions compared byte for byte") += 1; return; }
    fail(key, std::string(Tr<P>::name) + " " + how + " of " + text(m, 200) + " gives " + hex({reinterpret_cast<const uint8_t*>(got.data()), got.size()}) + " instead of " + hex({reinterpret_cast<const uint8_t*>(want.data()), want.size()}));
}
static void same_model(const Val& got, const Val& want, const char* key, const char* how) {
    std::string why; if (!same(got, want, true, &why)) fail(key, std::string(how) + " of " + text(want, 200) + " was described to the writer as " + text(got, 200) + ": " + why);
}
// toks: the ids that this object contains in argument order
template<class T> static void judge(T&& obj, const Val& m, Ctx& c, const std::vector<int64_t>& ids, const char* how) {
    note(std::string(how) + " " + text(m, 400));
    std::string want = direct(m);
    auto logged = [&](const char* when) { if (c.log.seen != ids) fail("argument-order", fmt("%s (%s): %zu arguments were serialized as %zu calls or in another order", how, when, ids.size(), c.log.seen.size())); CNT("argument events in order") += ids.size(); c.log.seen.clear(); };
    c.log.seen.clear();
    same_model(recorded(obj), m, "described-differently", how); logged("recorded");
    same_bytes(bytes_of(z::serialize<P>(obj)), want, m, "description-differs", how); logged("first");
    same_bytes(bytes_of(z::serialize<P>(obj)), want, m, "second-serialization-differs", how); logged("second"); CNT("objects serialized again") += 1;
    { typename P::RootSerializer rs; typename P::Serializer w(rs); auto view = z::dyn::WriterView::make(w);
      if constexpr (z::Builder<std::remove_cvref_t<T>>) obj(view); else { using zerialize::serialize; serialize(obj, view); }
      same_bytes(bytes_of(rs.finish()), want, m, "type-erased-differs", how); logged("type-erased"); }
    same_bytes(bytes_of(z::serialize<P>(std::move(obj))), want, m, "rvalue-differs", how); logged("rvalue");
}
static std::vector<int64_t> ids_since(Ctx& c, int64_t from) { std::vector<int64_t> v; for (int64_t i = from; i < c.next_id; ++i) v.push_back(i); return v; }

// Map containers reorder their keys, so the order of their tokens is taken from the model.
static void tok_ids(const Val& m, const std::set<int64_t>& made, std::vector<int64_t>& out) {
    if (m.k == Val::Int && m.i >= 0 && made.count(m.i)) out.push_back(m.i);
    for (auto& e : m.a) tok_ids(e, made, out);
    for (auto& [k, e] : m.m) tok_ids(e, made, out);
}

template<size_t S, size_t N, size_t... I> static void vec_shape(Ctx& c, std::index_sequence<I...>) {
    std::array<Val, N> ms; c.next_id = kIdBase; int64_t from = c.next_id;
    std::tuple<decltype(arg<std::tuple_element_t<pick(S, I), Leaves>>::get(c, ms[I]))...> args{arg<std::tuple_element_t<pick(S, I), Leaves>>::get(c, ms[I])...};
    Val m = Val::arr(); for (auto& e : ms) m.a.push_back(e);
    std::set<int64_t> made; for (int64_t x : ids_since(c, from)) made.insert(x); std::vector<int64_t> ids; tok_ids(m, made, ids);
    { auto b = z::zvec(std::get<I>(args)...); judge(b, m, c, ids, "zvec of lvalues"); }
    auto b = z::zvec(std::move(std::get<I>(args))...); judge(std::move(b), m, c, ids, "zvec of temporaries");
    CNT("builder shapes with arguments of random types") += 1;
}
constexpr z::fixed_string kK0{"b"};
constexpr z::fixed_string kK1{"a"};
constexpr z::fixed_string kK2{""};
constexpr z::fixed_string kK3{"zz"};
constexpr z::fixed_string kK4{"\xc3\xa9"};
constexpr z::fixed_string kK5{"a much longer key than the inline limit of any format allows"};
constexpr z::fixed_string kK6{"B"};
constexpr z::fixed_string kK7{"0"};
constexpr z::fixed_string kK8{"key8"};
template<size_t S, size_t N, size_t... I> static void map_shape(Ctx& c, std::index_sequence<I...>) {
    std::array<Val, N> ms; c.next_id = kIdBase; int64_t from = c.next_id;
    std::tuple<decltype(arg<std::tuple_element_t<pick(S, I), Leaves>>::get(c, ms[I]))...> args{arg<std::tuple_element_t<pick(S, I), Leaves>>::get(c, ms[I])...};
    static const char* keys[] = {"b", "a", "", "zz", "\xc3\xa9", "a much longer key than the inline limit of any format allows", "B", "0", "key8"};
    Val m = Val::map(); for (size_t i = 0; i < N; ++i) m.m.emplace_back(keys[i], ms[i]);
    std::set<int64_t> made; for (int64_t x : ids_since(c, from)) made.insert(x); std::vector<int64_t> ids; tok_ids(m, made, ids);
    auto go = [&](auto&&... xs) {
        if constexpr (N == 0) return z::zmap<>(std::forward<decltype(xs)>(xs)...);
        else if constexpr (N == 1) return z::zmap<kK0>(std::forward<decltype(xs)>(xs)...);
        else if constexpr (N == 2) return z::zmap<kK0, kK1>(std::forward<decltype(xs)>(xs)...);
        else if constexpr (N == 3) return z::zmap<kK0, kK1, kK2>(std::forward<decltype(xs)>(xs)...);
        else if constexpr (N == 4) return z::zmap<kK0, kK1, kK2, kK3>(std::forward<decltype(xs)>(xs)...);
        else if constexpr (N == 5) return z::zmap<kK0, kK1, kK2, kK3, kK4>(std::forward<decltype(xs)>(xs)...);
        else if constexpr (N == 6) return z::zmap<kK0, kK1, kK2, kK3, kK4, kK5>(std::forward<decltype(xs)>(xs)...);
        else if constexpr (N == 7) return z::zmap<kK0, kK1, kK2, kK3, kK4, kK5, kK6>(std::forward<decltype(xs)>(xs)...);
        else if constexpr (N == 8) return z::zmap<kK0, kK1, kK2, kK3, kK4, kK5, kK6, kK7>(std::forward<decltype(xs)>(xs)...);
        else return z::zmap<kK0, kK1, kK2, kK3, kK4, kK5, kK6, kK7, kK8>(std::forward<decltype(xs)>(xs)...);
    };
    { auto b = go(std::get<I>(args)...); judge(b, m, c, ids, "zmap of lvalues"); }
    auto b = go(std::move(std::get<I>(args))...); judge(std::move(b), m, c, ids, "zmap of temporaries");
    CNT("builder shapes with arguments of random types") += 1;
}
using Shape = void (*)(Ctx&);
template<size_t S, size_t N> static void vshape(Ctx& c) { vec_shape<S, N>(c, std::make_index_sequence<N>{}); }
template<size_t S, size_t N> static void mshape(Ctx& c) { map_shape<S, N>(c, std::make_index_sequence<N>{}); }
static const Shape kShapes[] = {
    vshape<11, 0>, vshape<12, 1>, vshape<13, 2>, vshape<14, 3>, vshape<15, 4>, vshape<16, 5>, vshape<17, 6>, vshape<18, 8>, vshape<19, 12>, vshape<20, 17>, vshape<21, 3>, vshape<22, 9>,
    mshape<31, 0>, mshape<32, 1>, mshape<33, 2>, mshape<34, 3>, mshape<35, 4>, mshape<36, 5>, mshape<37, 6>, mshape<38, 7>, mshape<39, 8>, mshape<40, 9>, mshape<41, 5>,
};

// One object of one type on its own, through every way of holding it.
template<class T> static void alone(Ctx& c) {
    c.next_id = kIdBase; Val m; T obj = make(tag<T>{}, c); m = model(obj);
    std::set<int64_t> made; for (int64_t x : ids_since(c, kIdBase)) made.insert(x); std::vector<int64_t> ids; tok_ids(m, made, ids);
    const T before = obj;
    { const T copy = obj; judge(copy, m, c, ids, "const object"); }
    { T copy = obj; judge(copy, m, c, ids, "object"); }
    std::string why; if (!same(model(obj), m, true, &why) || !same(model(before), m, true, &why)) fail("object-modified", "serializing changed the object: " + why);
    { auto d = z::dyn::serializable(obj); judge(d, m, c, ids, "dyn::serializable"); }
    if constexpr (!std::is_same_v<T, vzarg::Tok> && !std::is_same_v<T, vzarg::Point> && std::is_constructible_v<z::dyn::Value, T> && !std::is_same_v<T, std::vector<std::string>>) { z::dyn::Value d(obj); judge(d, m, c, ids, "dyn::Value"); CNT("dynamic values of typed objects") += 1; }
    CNT("standard objects serialized") += 1;
}
static const Shape kAlone[] = { alone<bool>, alone<char>, alone<signed char>, alone<unsigned char>, alone<short>, alone<unsigned short>, alone<int>, alone<unsigned>, alone<long>, alone<unsigned long>, alone<long long>, alone<unsigned long long>,
    alone<float>, alone<double>, alone<std::string>, alone<std::string_view>, alone<const char*>, alone<Bytes>, alone<std::span<const std::byte>>, alone<vzarg::Point>, alone<vzarg::Tok>,
    alone<std::vector<int>>, alone<std::vector<bool>>, alone<std::vector<char>>, alone<std::vector<uint8_t>>, alone<std::vector<Bytes>>, alone<std::vector<vzarg::Tok>>, alone<std::list<std::string>>, alone<std::list<vzarg::Tok>>, alone<std::array<short, 4>>,
    alone<std::array<vzarg::Tok, 5>>, alone<std::map<std::string, std::vector<float>>>, alone<std::map<std::string_view, unsigned>>, alone<std::unordered_map<std::string, vzarg::Tok>>, alone<std::map<std::string, std::map<std::string, std::list<bool>>>> };

// Every value of the small types, edge and random values of the wide ones; read back too.
template<class T> static void arith(T v, Ctx& c) {
    Val m = model(v);
    same_model(recorded(v), m, "arithmetic-value", "arithmetic argument");
    same_model(recorded(z::dyn::Value(v)), m, "arithmetic-value-dyn", "dynamic value of an arithmetic argument");
    std::string want = direct(m); z::ZBuffer b = z::serialize<P>(v); same_bytes(bytes_of(b), want, m, "arithmetic-bytes", "arithmetic argument");
    same_bytes(bytes_of(z::serialize<P>(z::dyn::Value(v))), want, m, "arithmetic-bytes-dyn", "dynamic value");
    typename P::Deserializer rd(b.buf()); expect_equal<P>(rd, m, "arithmetic-read-back", &c.r);
    CNT("arithmetic values checked") += 1;
}
template<class T> static void arith_block(Ctx& c, uint64_t i) { if constexpr (sizeof(T) == 1) { for (int k = 0; k < 256; ++k) arith<T>(T(k), c); } else if constexpr (sizeof(T) == 2) { for (int k = 0; k < 64; ++k) arith<T>(T((i % 1024) * 64 + k), c); } else for (int k = 0; k < 40; ++k) arith<T>(number<T>(c.r, c.o.finite), c); }

static void literals(Ctx& c) {
    int a = number<int>(c.r, true); unsigned long b = number<unsigned long>(c.r, true); float f = number<float>(c.r, c.o.finite); std::string s = c.text();
    Val m = Val::arr({Val::integer(a), Val::str("lit"), Val::uinteger(b), Val::dbl(double(f)), Val::str(s), Val::null(), Val::boolean(true), Val::str(""), Val::integer('x')});
    auto v = z::zvec(a, "lit", b, f, s, nullptr, true, "", 'x'); judge(v, m, c, {}, "zvec with literals");
    auto d = z::dyn::array({a, "lit", b, f, s, nullptr, true, "", 'x'}); judge(d, m, c, {}, "dyn::array");
    Val mm = Val::map({{"n", m}, {"e", Val::map()}, {"f", Val::dbl(double(f))}, {"t", Val::arr()}});
    auto dm = z::dyn::map({{"n", d}, {"e", z::dyn::map({})}, {"f", f}, {"t", z::dyn::array({})}}); judge(dm, mm, c, {}, "dyn::map");
    auto zm = z::zmap<"n", "e", "f", "t">(d, z::zmap<>(), f, z::zvec()); judge(zm, mm, c, {}, "zmap holding a dynamic value");
    #define VZ_LONG "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
    { Val mk = Val::map({{"key", Val::integer(a)}, {VZ_LONG, Val::str(s)}, {"\xf0\x9f\x98\x80", Val::uinteger(b)}, {" \t\"\\/\x7f", Val::null()}});
      auto zk = z::zmap<"key", VZ_LONG, "\xf0\x9f\x98\x80", " \t\"\\/\x7f">(a, s, b, nullptr); judge(zk, mk, c, {}, "zmap with unusual keys"); }
    if constexpr (!std::is_same_v<P, z::Flex>) { // FlexBuffers keys cannot hold NUL
        Val mk = Val::map({{std::string("a\0b", 3), Val::integer(a)}, {"a", Val::str(s)}, {std::string("a\0", 2), Val::uinteger(b)}, {std::string("\0", 1), Val::null()}, {"", Val::integer(a)}});
        auto zk = z::zmap<"a\0b", "a", "a\0", "\0", "">(a, s, b, nullptr, a); judge(zk, mk, c, {}, "zmap with NUL in its keys"); CNT("compile-time keys with NUL") += 4;
    }
    std::initializer_list<int> il = {a, 1, -1}; Val ml = Val::arr({Val::integer(a), Val::integer(1), Val::integer(-1)}); judge(il, ml, c, {}, "initializer_list");
    std::initializer_list<std::string> sl = {s, "x"}; Val ms = Val::arr({Val::str(s), Val::str("x")}); judge(sl, ms, c, {}, "initializer_list of strings");
    Bytes by = make(tag<Bytes>{}, c); z::dyn::Value db(z::dyn::Binary{by}); judge(db, model(by), c, {}, "dyn::Binary");
    z::dyn::Value dn{z::dyn::Null{}}; judge(dn, Val::null(), c, {}, "dyn::Null");
}

static void one(uint64_t i, Rng& r) {
    GenOpts o = gen_opts<P>(); Ctx c{r, o, {}, {}, {}, {}};
    unsigned w = unsigned(r.below(16));
    if (w < 6) { size_t k = r.below(std::size(kShapes)); kShapes[k](c); covered(mix(r.s), true); }
    else if (w < 11) { size_t k = r.below(std::size(kAlone)); kAlone[k](c); covered(mix(r.s ^ 3), true); }
    else if (w < 12) {
        uint64_t k = r.next() >> 20;
        switch (r.below(15)) { case 0: arith_block<char>(c, k); break; case 1: arith_block<signed char>(c, k); break; case 2: arith_block<unsigned char>(c, k); break; case 3: arith_block<short>(c, k); break; case 4: arith_block<unsigned short>(c, k); break;
            case 5: arith_block<int>(c, k); break; case 6: arith_block<unsigned>(c, k); break; case 7: arith_block<long>(c, k); break; case 8: arith_block<unsigned long>(c, k); break; case 9: arith_block<long long>(c, k); break; case 10: arith_block<unsigned long long>(c, k); break;
            case 11: arith_block<float>(c, k); break; case 12: arith_block<double>(c, k); break; case 13: arith(true, c); arith(false, c); break; default: literals(c); }
        covered(mix(r.s ^ 5), true);
    } else {
        if (r.one_in(6)) o.max_depth = 12;
        Val v = r.one_in(8) ? special_shape(r, o, r.below(12), 500, 200) : Gen(r, o).tree();
        note(text(v)); std::string want = direct(v); uint64_t h = digest(v);
        for (int mode = 1; mode < kWriteModes; ++mode) same_bytes(bytes_of(write<P>(v, mode)), want, v, "write-mode-differs", fmt("write mode %d", mode).c_str());
        auto d = to_dyn(v); auto copy = d; auto bn = bytes_of(z::serialize<P>(d)); same_bytes(bn, want, v, "dynamic-value-differs", "dynamic value");
        same_bytes(bytes_of(z::serialize<P>(d)), want, v, "second-serialization-differs", "dynamic value serialized again"); same_bytes(bytes_of(z::serialize<P>(copy)), want, v, "dynamic-copy-differs", "copied dynamic value");
        same_model(recorded(d), v, "described-differently", "dynamic value"); same_model(recorded(vzuser::Node{&v}), v, "described-differently", "user type");
        auto zv = z::zvec(d, vzuser::Node{&v}, std::move(copy)); same_bytes(bytes_of(z::serialize<P>(zv)), direct(Val::arr({v, v, v})), v, "builder-of-dynamic-differs", "zvec of dynamic values");
        CNT("random trees through every path") += 1; auto st = stats(v); covered(h, st.nodes > 1 || st.bytes > 0);
        if (r.one_in(200)) sample(std::string(Tr<P>::name) + " " + text(v, 200) + " -> " + hex({reinterpret_cast<const uint8_t*>(want.data()), want.size()}, 40));
    }
    (void)i;
}
int main(int c, char** v) { return main_loop(c, v, "c14-" VZ_PNAME, one); }
