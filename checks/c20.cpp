// C20: the generic algorithms work with any reader, writer and protocol that satisfies the concepts.
// The protocol Mine below is a user's: its reader, sub-values, key range and blobs own what they
// hand out (a use after their end is a sanitizer report), its accessors complain when they are
// called outside their contract, and its writer is an automaton for one well-formed value.
#include "../lib/tens.hpp"
#include <zerialize/dynamic.hpp>
#include <zerialize/translate.hpp>
#include <iterator>
using namespace vz;
using S = zerialize::VZ_P;
namespace zx = zerialize::xtensor; namespace ze = zerialize::eigen;

struct UserError { uint64_t id; }; // not a std::exception
static int64_t fuse = -1; static uint64_t fuse_id = 0; static uint64_t calls = 0;
static void tick() { ++calls; if (fuse >= 0 && fuse-- == 0) throw UserError{fuse_id}; }
static int int_mode = 0; // which predicates an integer satisfies
[[noreturn]] static void broken(const char* what) { fail("contract", fmt("a generic algorithm called the user's code outside its contract: %s", what)); }

namespace mine {
// ---- the message: kind byte, then a length or 8 bytes of number, then the contents
struct Node {
    Val::K k = Val::Null; uint64_t num = 0; std::string text; std::vector<uint8_t> blob; size_t off = 0; // the blob starts at blob[off]
    std::vector<Node> a; std::vector<std::pair<std::string, Node>> m;
    Node() = default; Node(const Node&) = default; Node(Node&&) = default; Node& operator=(const Node&) = default; Node& operator=(Node&&) = default; ~Node() = default;
};
static void put64(std::vector<uint8_t>& o, uint64_t v) { for (int i = 0; i < 8; ++i) o.push_back(uint8_t(v >> (8 * i))); }
struct Parser {
    const uint8_t* p; const uint8_t* end;
    uint64_t u64() { if (end - p < 8) harness_error("user message too short"); uint64_t v = 0; for (int i = 0; i < 8; ++i) v |= uint64_t(*p++) << (8 * i); return v; }
    std::string str() { uint64_t n = u64(); if (uint64_t(end - p) < n) harness_error("user message too short"); std::string s(reinterpret_cast<const char*>(p), n); p += n; return s; }
    Node node() {
        if (p == end) harness_error("user message too short");
        Node n; n.k = Val::K(*p++);
        switch (n.k) {
            case Val::Null: break;
            case Val::Bool: case Val::Int: case Val::UInt: case Val::Dbl: n.num = u64(); break;
            case Val::Str: n.text = str(); break;
            case Val::Blob: { std::string s = str(); n.off = s.size() % 5 * 3 % 8; n.blob.assign(n.off, 0xee); n.blob.insert(n.blob.end(), s.begin(), s.end()); n.blob.shrink_to_fit(); break; }
            case Val::Arr: { uint64_t c = u64(); while (c--) n.a.push_back(node()); break; }
            case Val::Map: { uint64_t c = u64(); while (c--) { std::string key = str(); n.m.emplace_back(std::move(key), node()); } break; }
        }
        return n;
    }
};
static Val model(const Node& n) {
    switch (n.k) {
        case Val::Bool: return Val::boolean(n.num);
        case Val::Int: return Val::integer(int64_t(n.num));
        case Val::UInt: return Val::uinteger(n.num);
        case Val::Dbl: return Val::dbl(std::bit_cast<double>(n.num));
        case Val::Str: return Val::str(n.text);
        case Val::Blob: return Val::blob(std::string(n.blob.begin() + long(n.off), n.blob.end()));
        case Val::Arr: { Val v = Val::arr(); for (auto& e : n.a) v.a.push_back(model(e)); return v; }
        case Val::Map: { Val v = Val::map(); for (auto& [k, e] : n.m) v.m.emplace_back(k, model(e)); return v; }
        default: return Val::null();
    }
}

// ---- the writer
struct Root {
    struct Level { bool map; size_t want, have = 0; bool keyed = false; };
    std::vector<uint8_t> out; std::vector<Level> st; size_t roots = 0; bool finished = false;
    void value(Val::K k) {
        if (finished) broken("a writer used after finish()");
        tick();
        if (st.empty()) { if (roots++) broken("a second root value"); }
        else { auto& l = st.back(); if (l.map && !l.keyed) broken("a map value without a key"); l.keyed = false; if (!l.map && ++l.have > l.want) broken("more array elements than announced"); }
        out.push_back(uint8_t(k));
    }
    void end(bool map) {
        if (st.empty() || st.back().map != map) broken("an end that matches no begin");
        if (st.back().keyed) broken("a key without a value"); if (st.back().have != st.back().want) broken("another number of items than announced");
        st.pop_back(); tick();
    }
    z::ZBuffer finish() {
        if (!st.empty()) broken("finish() inside a container"); if (finished) broken("finish() twice");
        finished = true; tick(); if (!roots) out.push_back(Val::Null); return z::ZBuffer(std::move(out));
    }
};
struct Writer {
    Root* r; explicit Writer(Root& root) : r(&root) {}
    Writer(const Writer&) = delete; Writer& operator=(const Writer&) = delete;
    void number(Val::K k, uint64_t v) { r->value(k); put64(r->out, v); }
    void bytes(const void* p, size_t n) { put64(r->out, n); auto* b = static_cast<const uint8_t*>(p); r->out.insert(r->out.end(), b, b + n); }
    void null() { r->value(Val::Null); }
    void boolean(bool v) { number(Val::Bool, v); }
    void int64(std::int64_t v) { number(Val::Int, uint64_t(v)); }
    void uint64(std::uint64_t v) { number(Val::UInt, v); }
    void double_(double v) { number(Val::Dbl, dbits(v)); }
    void string(std::string_view v) { r->value(Val::Str); bytes(v.data(), v.size()); }
    void binary(std::span<const std::byte> v) { r->value(Val::Blob); bytes(v.data(), v.size()); }
    void begin_array(std::size_t n) { r->value(Val::Arr); put64(r->out, n); r->st.push_back({false, n}); }
    void end_array() { r->end(false); }
    void begin_map(std::size_t n) { r->value(Val::Map); put64(r->out, n); r->st.push_back({true, n}); }
    void end_map() { r->end(true); }
    void key(std::string_view k) {
        if (r->st.empty() || !r->st.back().map) broken("a key outside a map"); if (r->st.back().keyed) broken("two keys in a row");
        if (++r->st.back().have > r->st.back().want) broken("more map entries than announced");
        r->st.back().keyed = true; tick(); bytes(k.data(), k.size());
    }
};

// ---- the reader; B says how blobs are given out
struct OwnBlob { // owns its bytes, has no begin() and end()
    std::byte* p; size_t n;
    OwnBlob(const uint8_t* b, size_t len) : p(new std::byte[len]), n(len) { if (len) std::memcpy(p, b, len); }
    OwnBlob(const OwnBlob& o) : OwnBlob(reinterpret_cast<const uint8_t*>(o.p), o.n) {}
    OwnBlob& operator=(const OwnBlob&) = delete;
    ~OwnBlob() { delete[] p; }
    const std::byte* data() const { return p; } std::size_t size() const { return n; }
};
class Keys { // owns the keys
    std::vector<std::string> keys_;
public:
    explicit Keys(const Node& n) { for (auto& [k, e] : n.m) { keys_.push_back(k); keys_.back().shrink_to_fit(); } }
    struct iterator {
        const std::vector<std::string>* v = nullptr; size_t i = 0;
        using iterator_category = std::forward_iterator_tag; using iterator_concept = std::forward_iterator_tag; using value_type = std::string_view; using difference_type = std::ptrdiff_t; using reference = std::string_view;
        std::string_view operator*() const { if (i >= v->size()) broken("the key past the last one"); tick(); return (*v)[i]; }
        iterator& operator++() { if (i >= v->size()) broken("past the end of the keys"); ++i; return *this; }
        iterator operator++(int) { auto t = *this; ++*this; return t; }
        friend bool operator==(const iterator&, const iterator&) = default;
    };
    iterator begin() const { return {&keys_, 0}; } iterator end() const { return {&keys_, keys_.size()}; }
};
template<int B> class Sub {
protected:
    const Node* n_; std::unique_ptr<std::string> text_; // this value's own copy of its text
    void need(bool ok, const char* what) const { if (!ok) throw DeserializationError(std::string("mine: ") + what); tick(); }
    bool big() const { return n_->k == Val::UInt && n_->num > uint64_t(INT64_MAX); }
    bool nonneg() const { return n_->k == Val::UInt || (n_->k == Val::Int && int64_t(n_->num) >= 0); }
    bool number() const { return n_->k == Val::Int || n_->k == Val::UInt; }
    template<class T> T narrow() const { int64_t v = asInt64(); if (v < int64_t(std::numeric_limits<T>::min()) || v > int64_t(std::numeric_limits<T>::max())) throw DeserializationError("mine: out of range"); return T(v); }
    template<class T> T unarrow() const { uint64_t v = asUInt64(); if (v > std::numeric_limits<T>::max()) throw DeserializationError("mine: out of range"); return T(v); }
public:
    explicit Sub(const Node* n) : n_(n), text_(n && n->k == Val::Str ? std::make_unique<std::string>(n->text) : nullptr) { if (text_) text_->shrink_to_fit(); }
    Sub(const Sub& o) : Sub(o.n_) {}
    Sub& operator=(const Sub&) = delete;
    bool isNull() const { tick(); return n_->k == Val::Null; }
    bool isBool() const { tick(); return n_->k == Val::Bool; }
    bool isInt() const { tick(); switch (int_mode) { case 1: return number() && !big(); case 2: return number(); case 3: return number() && !nonneg(); default: return n_->k == Val::Int; } }
    bool isUInt() const { tick(); return int_mode ? nonneg() : n_->k == Val::UInt; }
    bool isFloat() const { tick(); return n_->k == Val::Dbl; }
    bool isString() const { tick(); return n_->k == Val::Str; }
    bool isBlob() const { tick(); return n_->k == Val::Blob; }
    bool isArray() const { tick(); return n_->k == Val::Arr; }
    bool isMap() const { tick(); return n_->k == Val::Map; }
    bool asBool() const { need(n_->k == Val::Bool, "asBool of something else"); return n_->num; }
    std::int64_t asInt64() const { need(number(), "asInt64 of something else"); if (big()) throw DeserializationError("mine: out of range"); if (!int_mode && n_->k != Val::Int) throw DeserializationError("mine: not signed"); return int64_t(n_->num); }
    std::uint64_t asUInt64() const { need(number(), "asUInt64 of something else"); if (!nonneg()) throw DeserializationError("mine: out of range"); if (!int_mode && n_->k != Val::UInt) throw DeserializationError("mine: not unsigned"); return n_->num; }
    std::int8_t asInt8() const { return narrow<std::int8_t>(); } std::int16_t asInt16() const { return narrow<std::int16_t>(); } std::int32_t asInt32() const { return narrow<std::int32_t>(); }
    std::uint8_t asUInt8() const { return unarrow<std::uint8_t>(); } std::uint16_t asUInt16() const { return unarrow<std::uint16_t>(); } std::uint32_t asUInt32() const { return unarrow<std::uint32_t>(); }
    double asDouble() const { need(n_->k == Val::Dbl, "asDouble of something else"); return std::bit_cast<double>(n_->num); }
    float asFloat() const { return float(asDouble()); }
    std::string asString() const { need(n_->k == Val::Str, "asString of something else"); return *text_; }
    std::string_view asStringView() const { need(n_->k == Val::Str, "asStringView of something else"); return *text_; }
    auto asBlob() const {
        need(n_->k == Val::Blob, "asBlob of something else"); const uint8_t* p = n_->blob.data() + n_->off; size_t n = n_->blob.size() - n_->off;
        if constexpr (B == 0) return std::span<const std::byte>(reinterpret_cast<const std::byte*>(p), n);
        else if constexpr (B == 1) return std::vector<std::byte>(reinterpret_cast<const std::byte*>(p), reinterpret_cast<const std::byte*>(p) + n);
        else return OwnBlob(p, n);
    }
    std::size_t arraySize() const { need(n_->k == Val::Arr, "arraySize of something else"); return n_->a.size(); }
    Keys mapKeys() const { need(n_->k == Val::Map, "mapKeys of something else"); return Keys(*n_); }
    bool contains(std::string_view k) const { tick(); for (auto& e : n_->m) if (e.first == k) return true; return false; }
    Sub operator[](std::size_t i) const { need(n_->k == Val::Arr, "an element of something else"); if (i >= n_->a.size()) throw DeserializationError("mine: an element past the last one"); return Sub(&n_->a[i]); }
    Sub operator[](std::string_view k) const { need(n_->k == Val::Map, "a field of something else"); for (auto& e : n_->m) if (e.first == k) return Sub(&e.second); throw DeserializationError("mine: a field that is not there"); }
};
struct Holder { std::shared_ptr<const Node> doc; explicit Holder(std::span<const uint8_t> b) { Parser p{b.data(), b.data() + b.size()}; doc = std::make_shared<const Node>(p.node()); if (p.p != p.end) harness_error("user message too long"); } };
template<int B> class Doc : Holder, public Sub<B> {
public:
    explicit Doc(const std::vector<uint8_t>& b) : Holder(b), Sub<B>(doc.get()) {}
    explicit Doc(std::span<const uint8_t> b) : Holder(b), Sub<B>(doc.get()) {}
    Val value() const { return model(*doc); }
};
template<int B> struct Protocol { static inline constexpr const char* Name = "Mine"; using Deserializer = Doc<B>; using RootSerializer = Root; using Serializer = Writer; };
} // namespace mine
template<int B> using Mine = mine::Protocol<B>;
static_assert(z::Protocol<Mine<0>> && z::Protocol<Mine<1>> && z::Protocol<Mine<2>>);
#ifdef VZ_NOOWN // without the blob that has no begin()
constexpr int NB = 2;
#else
constexpr int NB = 3;
#endif
template<class F> static void with_blobs(unsigned k, F&& f) { switch (k % NB) { case 0: f.template operator()<0>(); break; case 1: f.template operator()<1>(); break; default: f.template operator()<NB - 1>(); } }

static GenOpts opts() { GenOpts o = common_opts(); return o; }
static Val make_value(uint64_t i, Rng& r) {
    if (i % 12 == 11) return special_shape(r, opts(), r.below(12), 300, 200);
    GenOpts o = opts(); if (r.one_in(8)) o.max_depth = 20; return Gen(r, o).tree();
}
static void expect_mine(const Val& got, const Val& v, bool sign_free, const char* what) {
    std::string why; if (!same(v, got, sign_free, &why)) fail("user-writer", fmt("%s (%s) delivered another value to the user's writer: %s; source %s", what, Tr<S>::name, why.c_str(), text(v).c_str()));
    CNT("values delivered to the user's writer") += 1;
}
template<int B> static z::ZBuffer mine_bytes(const Val& v) { mine::Root rs; mine::Writer w(rs); emit(v, w); return rs.finish(); }

// Descriptions of values -> user's writer.
static void writing(Rng& r, const Val& v) {
    int mode = int(1 + r.below(4)); auto b = write<Mine<1>>(v, mode);
    expect_mine(mine::Doc<0>(b.buf()).value(), v, false, "serialize");
    Val nested = mine::Doc<0>(z::serialize<Mine<0>>(z::zmap<"a", "", "b">(vzuser::Node{&v}, z::zvec(to_dyn(v), -1, "x"), z::dyn::serializable(vzuser::Node{&v}))).buf()).value();
    expect_mine(nested, Val::map({{"a", v}, {"", Val::arr({v, Val::integer(-1), Val::str("x")})}, {"b", v}}), false, "a builder");
    expect_mine(mine::Doc<0>(z::serialize<Mine<0>>().buf()).value(), Val::null(), false, "serialize of nothing");
}
// Built-in reader -> user's writer.
static void from_builtin(Rng& r, const Val& v) {
    auto buf = write<S>(v, 0); Exact ex(buf.buf());
    with_reader<S>(ex.span(), int(r.below(uint64_t(Tr<S>::ctors))), [&](const auto& rd) {
        with_blobs(unsigned(r.next()), [&]<int B>() { const auto out = z::translate<Mine<B>>(rd); expect_mine(out.value(), v, !Tr<S>::exact_sign, "translate"); });
        mine::Root rs; mine::Writer w(rs); w.begin_map(2); w.key("x"); z::write_value(rd, w); w.key("y"); z::write_value(rd, w); w.end_map();
        expect_mine(mine::Doc<0>(rs.finish().buf()).value(), Val::map({{"x", v}, {"y", v}}), !Tr<S>::exact_sign, "write_value"); return 0; });
}
// User's reader -> built-in writer, and back.
static void from_user(Rng& r, const Val& v) {
    with_blobs(unsigned(r.next()), [&]<int B>() {
        auto buf = mine_bytes<B>(v); const mine::Doc<B> rd(buf.buf());
        { const auto out = z::translate<S>(rd); CNT("values compared after translation") += expect_equal<S>(out, v, "user-reader", &r, int_mode != 0); }
        if (v.k == Val::Arr && !v.a.empty()) { size_t i = r.below(v.a.size()); const auto sub = rd[i]; const auto out = z::translate<S>(sub); expect_equal<S>(out, v.a[i], "user-sub-value", &r, int_mode != 0); }
        if (v.k == Val::Map && !v.m.empty()) { auto& e = v.m[r.below(v.m.size())]; const auto out = z::translate<S>(rd[std::string_view(e.first)]); expect_equal<S>(out, e.second, "user-sub-value", &r, int_mode != 0); }
        const auto copy = z::translate<Mine<(B + 1) % NB>>(rd); expect_mine(copy.value(), v, int_mode != 0, "translate between user protocols");
        const auto again = z::translate_bytes<S>(rd); expect_equal<S>(again, v, "user-translate-bytes", &r, int_mode != 0);
    });
}
// Tensors through the user's protocol.
template<class E, int B, bool Map> static void read_tensor(const mine::Doc<B>& rd, const Shape_t& sh, const std::vector<E>& flat, bool rank2, const char* what) {
    REQUIRE((z::isTensor<E, Map>(rd)), "user-tensor", "%s: isTensor denies a tensor", what);
    { auto v = zx::asXTensorView<E, -1, Map>(rd); expect_tensor<E>(v.tensor(), sh, flat, "user-tensor", what); expect_tensor<E>(v.array(), sh, flat, "user-tensor", what);
      if (B) REQUIRE(!v.viewInfo().zero_copy, "user-tensor", "%s: a view of bytes that the reader does not keep is said to be zero-copy", what); else count(v.viewInfo().zero_copy ? "views into the user's message" : "copies of misaligned data"); }
    expect_tensor<E>(zx::asXTensor<E, -1, Map>(rd), sh, flat, "user-tensor", what);
    if (rank2) {
        auto m = ze::asEigenMatrix<E, Eigen::Dynamic, Eigen::Dynamic, Map, Eigen::RowMajor>(rd); expect_matrix<E>(m, sh[0], sh[1], flat, "user-tensor", what);
        auto v = ze::asEigenMatrixView<E, Eigen::Dynamic, Eigen::Dynamic, Map, Eigen::RowMajor>(rd); expect_matrix<E>(v.map(), sh[0], sh[1], flat, "user-tensor", what); if (B) REQUIRE(!v.viewInfo().zero_copy, "user-tensor", "%s: an Eigen view of bytes that the reader does not keep is said to be zero-copy", what); expect_matrix<E>(v.matrix(), sh[0], sh[1], flat, "user-tensor", what);
    }
    CNT("tensors read through the user's reader") += 1;
}
template<class E> static void tensor(Rng& r) {
    Shape_t sh = rand_shape(r, r.chance(50) ? 2 : rand_rank(r, 5)); auto flat = rand_elems<E>(r, product(sh));
    xt::xarray<E> x = xt::xarray<E>::from_shape(sh); std::copy(flat.begin(), flat.end(), x.begin());
    with_blobs(unsigned(r.next()), [&]<int B>() {
        auto b = z::serialize<Mine<B>>(x); const mine::Doc<B> rd(b.buf()); read_tensor<E, B, false>(rd, sh, flat, sh.size() == 2, "xtensor");
        { const auto out = z::translate<S>(rd); expect_tensor<E>(zx::asXTensor<E>(out), sh, flat, "user-tensor", "translated"); const auto back = z::translate<Mine<B>>(out); read_tensor<E, B, false>(back, sh, flat, sh.size() == 2, "translated back"); }
        std::vector<std::byte> data(flat.size() * sizeof(E)); if (!data.empty()) std::memcpy(data.data(), static_cast<const void*>(flat.data()), data.size());
        std::vector<uint64_t> dims(sh.begin(), sh.end()); auto mb = z::serialize<Mine<B>>(z::zmap<"data", "dtype", "shape">(data, dt<E>::code, dims)); const mine::Doc<B> mrd(mb.buf()); read_tensor<E, B, true>(mrd, sh, flat, sh.size() == 2, "map form");
        if (sh.size() == 2) { Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> m(static_cast<Eigen::Index>(sh[0]), static_cast<Eigen::Index>(sh[1])); for (size_t k = 0; k < flat.size(); ++k) m(Eigen::Index(k / sh[1]), Eigen::Index(k % sh[1])) = flat[k]; auto eb = z::serialize<Mine<B>>(m); const mine::Doc<B> erd(eb.buf()); read_tensor<E, B, false>(erd, sh, flat, true, "eigen"); }
        // what is no tensor is refused
        auto no = [&](const Val& v) { auto nb = mine_bytes<B>(v); const mine::Doc<B> nrd(nb.buf()); auto refused = [&](auto&& f) { try { f(); } catch (const DeserializationError&) { CNT("documents refused as tensors") += 1; return; } fail("user-tensor", "something that is no tensor was read as one: " + text(v)); };
            refused([&] { (void)zx::asXTensor<E>(nrd); }); refused([&] { (void)zx::asXTensorView<E, -1, true>(nrd); }); refused([&] { (void)ze::asEigenMatrix<E, Eigen::Dynamic, Eigen::Dynamic>(nrd); }); };
        Val dtv = Val::integer(dt<E>::code), blob = Val::blob(std::string(sizeof(E), 'd'));
        switch (r.below(7)) { case 0: no(Val::arr({dtv, Val::arr({Val::uinteger(2)}), blob})); break; case 1: no(Val::arr({dtv, Val::uinteger(1), blob})); break; case 2: no(Val::arr({Val::integer(dt<E>::code + 40), Val::arr({Val::uinteger(1)}), blob})); break; case 3: no(Val::arr({dtv, Val::arr({Val::integer(-1)}), blob})); break;
            case 4: no(Val::map({{"shape", Val::arr({Val::str("1")})}, {"dtype", dtv}, {"data", blob}})); break; case 5: no(Val::arr({dtv, Val::arr()})); break; default: { GenOpts o = opts(); no(Gen(r, o).tree()); } }
    });
}
// The user's code throws in the middle.
static void failing(Rng& r, const Val& v) {
    auto run = [&](const char* what, auto&& f) {
        fuse = -1; calls = 0; f(); uint64_t n = calls; if (!n) return;
        for (int k = 0; k < 6; ++k) {
            fuse = int64_t(k == 0 ? n - 1 : r.below(n)); fuse_id = r.next(); bool got = false;
            try { f(); } catch (const UserError& e) { got = e.id == fuse_id; } catch (...) { fuse = -1; fail("user-exception", fmt("%s: the user's exception became another: %s", what, what_of(std::current_exception()).c_str())); }
            fuse = -1; if (!got) fail("user-exception", fmt("%s: the user's exception did not reach the caller", what)); CNT("exceptions of user code passed on") += 1;
        }
        f();
    };
    with_blobs(unsigned(r.next()), [&]<int B>() {
        auto buf = mine_bytes<B>(v); const mine::Doc<B> rd(buf.buf());
        run("translate from a user's reader", [&] { (void)z::translate<S>(rd); });
        auto sb = write<S>(v, 0); const typename S::Deserializer srd(sb.buf());
        run("translate to a user's writer", [&] { (void)z::translate<Mine<B>>(srd); });
        auto d = to_dyn(v); run("serialize of a dynamic value", [&] { (void)z::serialize<Mine<B>>(d); });
        run("serialize through the erased writer", [&] { (void)write<Mine<B>>(v, 4); });
        auto tb = z::serialize<Mine<B>>(xt::xarray<double>{{1, 2}, {3, 4}}); const mine::Doc<B> trd(tb.buf());
        run("a tensor read", [&] { auto x = zx::asXTensor<double>(trd); if (x(1, 1) != 4) fail("user-tensor", "a tensor read after a failed one is wrong"); });
    });
    const auto out = z::translate<S>(mine::Doc<0>(mine_bytes<0>(v).buf())); expect_equal<S>(out, v, "after-exception", &r, int_mode != 0);
}
static void one(uint64_t i, Rng& r) {
    fuse = -1; int_mode = int(r.below(4)); Val v = make_value(i, r); note(text(v));
    switch (i % 6) {
        case 0: writing(r, v); break;
        case 1: from_builtin(r, v); break;
        case 2: case 3: from_user(r, v); break;
        case 4: if (int_mode == 3) int_mode = 0; // a dtype has to be signed
            switch (r.below(6)) { case 0: tensor<double>(r); break; case 1: tensor<int8_t>(r); break; case 2: tensor<float>(r); break; case 3: tensor<cd>(r); break; case 4: tensor<uint16_t>(r); break; default: tensor<int64_t>(r); } break;
        default: if (int_mode == 3) int_mode = 0; if (stats(v).nodes > 2000) v = Val::arr({Val::str("instead")}); failing(r, v);
    }
    CNT("calls into user code") += calls; calls = 0;
    covered(digest(v) ^ mix(i % 6), stats(v).nodes > 1 || v.s.size()); if (r.one_in(200)) sample(text(v, 150));
}
int main(int c, char** v) { return main_loop(c, v, "c20-" VZ_PNAME, one); }
