// C11: ownership histories. Part "buffer": ZBuffer under a deleter-event log. Parts per
// protocol: owning readers, stored builders and dynamic values, results of serialize.
#include <optional>
#include "../lib/proto.hpp"
#include "../lib/alloc.hpp"
#include <list>
using namespace vz;

// Runs `body` (a pure function of the seed) with the allocation balance watched. A first run
// may leave caches and static state behind; a leak is one that every repetition shows.
template<class F> static void balanced(uint64_t seed, const char* what, F&& body) {
    int64_t live = 0;
    for (int k = 0; k < 3; ++k) {
        Rng r(seed);
        { AllocWatch w; body(r); AllocWatch::on = false; live = AllocWatch::live; if (!k) CNT("allocations balanced against frees") += AllocWatch::allocs; }
        if (live == 0) return;
    }
    fail("leak", fmt("%s: %lld blocks more allocated than freed, on every repetition", what, (long long)live));
}

#ifdef VZ_BUFFER
// ------------------------------------------------------------------ ZBuffer
struct Ev { int id; const void* p; };
static std::vector<Ev>* g_log;
struct State { // captured by deleters; its life is observed too
    static inline int live = 0; int id;
    explicit State(int i) : id(i) { ++live; } State(const State& o) : id(o.id) { ++live; } ~State() { --live; }
};

struct Model { int id = 0; const uint8_t* p = nullptr; size_t n = 0; std::vector<uint8_t> bytes; bool ptr = false; bool live = false; bool alive() const { return live; } };

static uint8_t* alloc_bytes(const std::vector<uint8_t>& b) { auto* p = static_cast<uint8_t*>(std::malloc(b.size() ? b.size() : 1)); if (!b.empty()) std::memcpy(p, b.data(), b.size()); return p; }

static void history(Rng& r) {
    std::vector<Ev> log; g_log = &log;
    std::vector<std::optional<z::ZBuffer>> slot(5);
    std::vector<Model> m(5);
    int next_id = 1; std::string trace;
    std::vector<std::unique_ptr<uint8_t[]>> statics;
    auto expect = [&](std::vector<std::pair<int, const uint8_t*>> want, const char* op) {
        REQUIRE(log.size() == want.size(), "deleter-calls", "%s: %zu deleter calls, expected %zu, after %s", op, log.size(), want.size(), trace.c_str());
        for (auto& [id, p] : want) {
            bool hit = false; for (auto& e : log) hit |= e.id == id && e.p == p;
            REQUIRE(hit, "deleter-calls", "%s: deleter of buffer %d was not called with its pointer, after %s", op, id, trace.c_str());
        }
        CNT("deleter calls matched") += want.size();
        log.clear();
    };
    auto released = [&](size_t i, std::vector<std::pair<int, const uint8_t*>>& w) { if (m[i].live && m[i].ptr && m[i].id > 0 && m[i].p) w.push_back({m[i].id, m[i].p}); };
    auto inspect = [&](size_t i) {
        if (!slot[i]) return;
        auto& b = *slot[i]; auto& x = m[i];
        size_t n = x.live ? x.bytes.size() : 0;
        REQUIRE(b.size() == n && b.empty() == (n == 0) && b.buf().size() == n, "buffer-state", "buffer reports size %zu / %zu, expected %zu, after %s", b.size(), b.buf().size(), n, trace.c_str());
        REQUIRE(b.buf().data() == b.data(), "buffer-state", "buf() and data() disagree, after %s", trace.c_str());
        if (x.live && x.ptr) REQUIRE(b.data() == x.p, "buffer-state", "data() is not the pointer given, after %s", trace.c_str());
        if (x.live && !x.ptr && x.p && n) REQUIRE(b.data() == x.p, "buffer-state", "a moved vector was copied, after %s", trace.c_str());
        REQUIRE(n == 0 || std::memcmp(b.data(), x.bytes.data(), n) == 0, "buffer-state", "content changed, after %s", trace.c_str());
        REQUIRE(b.to_vector_copy() == (x.live ? x.bytes : std::vector<uint8_t>()), "buffer-state", "to_vector_copy differs, after %s", trace.c_str());
        if (!x.live) CNT("moved-from buffers seen empty") += 1;
    };
    size_t ops = 4 + r.below(30);
    for (size_t k = 0; k < ops; ++k) {
        size_t i = r.below(slot.size()), j = r.below(slot.size());
        std::vector<std::pair<int, const uint8_t*>> want;
        switch (r.below(13)) {
            case 0: case 1: case 2: { // new buffer, placed into slot i
                std::vector<uint8_t> b(r.one_in(5) ? 0 : r.below(40)); for (auto& c : b) c = uint8_t(r.next());
                Model x; x.bytes = b; x.live = true; x.id = next_id++;
                z::ZBuffer nb; State st(x.id); int kind = int(r.below(8));
                trace += fmt("new%d(%zu)->%zu ", kind, b.size(), i);
                auto rec = [st](auto* q) { g_log->push_back({st.id, q}); std::free(q); };
                switch (kind) {
                    case 0: { std::vector<uint8_t> c = b; x.p = c.data(); nb = z::ZBuffer(std::move(c)); break; }
                    case 1: { auto* p = alloc_bytes(b); x.p = p; x.ptr = true; nb = z::ZBuffer(p, b.size(), [rec](uint8_t* q) { rec(q); }); break; }
                    case 2: { auto* p = alloc_bytes(b); x.p = p; x.ptr = true; nb = z::ZBuffer(reinterpret_cast<char*>(p), b.size(), [rec](char* q) { rec(q); }); break; }
                    case 3: { auto* p = alloc_bytes(b); x.p = p; x.ptr = true; nb = z::ZBuffer(static_cast<void*>(p), b.size(), [rec](void* q) { rec(q); }); break; }
                    case 4: { auto* p = alloc_bytes(b); x.p = p; x.ptr = true; x.id = -x.id; nb = z::ZBuffer(static_cast<void*>(p), b.size(), z::ZBuffer::Deleters::Free); break; }
                    case 5: { auto* p = new uint8_t[b.size() + 1]; if (!b.empty()) std::memcpy(p, b.data(), b.size()); x.p = p; x.ptr = true; x.id = -x.id; nb = z::ZBuffer(p, b.size(), z::ZBuffer::Deleters::DeleteArray); break; }
                    case 6: { statics.emplace_back(new uint8_t[b.size() + 1]); auto* p = statics.back().get(); if (!b.empty()) std::memcpy(p, b.data(), b.size()); x.p = p; x.ptr = true; x.id = -x.id; nb = z::ZBuffer(p, b.size(), z::ZBuffer::Deleters::NoOp); break; }
                    default: { auto* p = alloc_bytes(b); x.p = p; x.ptr = true; std::function<void(void*)> f = rec; nb = z::ZBuffer(static_cast<void*>(p), b.size(), f); break; }
                }
                expect({}, "construction");
                released(i, want);
                if (slot[i] && r.chance(50)) *slot[i] = std::move(nb); else { slot[i].reset(); slot[i].emplace(std::move(nb)); }
                m[i] = x;
                expect(want, "storing a new buffer");
                REQUIRE(nb.size() == 0 && nb.empty() && nb.buf().empty() && nb.to_vector_copy().empty(), "buffer-state", "a moved-from buffer reports %zu bytes, after %s", nb.size(), trace.c_str());
                CNT("moved-from buffers seen empty") += 1;
                break;
            }
            case 3: { trace += fmt("destroy%zu ", i); released(i, want); slot[i].reset(); m[i] = {}; expect(want, "destruction"); break; }
            case 4: case 5: { // move construct
                if (!slot[j] || i == j) break;
                trace += fmt("mc%zu<-%zu ", i, j); released(i, want); slot[i].reset(); expect(want, "destruction"); slot[i].emplace(std::move(*slot[j])); m[i] = m[j]; m[j] = {}; expect({}, "move construction"); break;
            }
            case 6: case 7: { // move assign
                if (!slot[j] || !slot[i] || i == j) break;
                trace += fmt("ma%zu<-%zu ", i, j); released(i, want); *slot[i] = std::move(*slot[j]); m[i] = m[j]; m[j] = {}; expect(want, "move assignment"); break;
            }
            case 8: { if (!slot[j] || !slot[i] || i == j) break; trace += fmt("swap%zu,%zu ", i, j); std::swap(*slot[i], *slot[j]); std::swap(m[i], m[j]); expect({}, "swap"); break; }
            case 9: { // refused constructions
                trace += "bad "; int kind = int(r.below(6)); auto* p = alloc_bytes({1, 2, 3}); bool threw = false;
                State st(9999); auto rec = [st](auto* q) { g_log->push_back({st.id, q}); };
                try {
                    switch (kind) {
                        case 0: { z::ZBuffer b(static_cast<uint8_t*>(nullptr), 1 + r.below(9), [rec](uint8_t* q) { rec(q); }); break; }
                        case 1: { z::ZBuffer b(static_cast<char*>(nullptr), 1 + r.below(9), [rec](char* q) { rec(q); }); break; }
                        case 2: { z::ZBuffer b(static_cast<void*>(nullptr), 1 + r.below(9), [rec](void* q) { rec(q); }); break; }
                        case 3: { z::ZBuffer b(p, 3, std::function<void(uint8_t*)>{}); break; }
                        case 4: { z::ZBuffer b(reinterpret_cast<char*>(p), 3, std::function<void(char*)>{}); break; }
                        default: { z::ZBuffer b(static_cast<void*>(p), 3, std::function<void(void*)>{}); break; }
                    }
                } catch (const std::exception&) { threw = true; }
                REQUIRE(threw, "bad-construction", "construction %d with invalid arguments did not throw", kind);
                for (auto& e : log) REQUIRE(e.p == nullptr, "deleter-calls", "a refused construction called the deleter");
                log.clear();
                std::free(p); CNT("refused constructions") += 1;
                break;
            }
            case 10: { // unwinding past a live buffer
                trace += "throw "; int id = next_id++; const uint8_t* q0 = nullptr;
                try { auto* p = alloc_bytes({4, 5}); q0 = p; z::ZBuffer b(p, 2, [id](uint8_t* q) { g_log->push_back({id, q}); std::free(q); }); z::ZBuffer c = std::move(b); throw 1; } catch (int) {}
                expect({{id, q0}}, "unwinding"); break;
            }
            case 11: { // handed through functions and containers
                trace += "vec "; std::vector<z::ZBuffer> v; std::vector<std::pair<int, const uint8_t*>> w2;
                for (size_t q = r.below(6); q > 0; --q) { int id = next_id++; auto* p = alloc_bytes({uint8_t(id)}); w2.push_back({id, p}); v.emplace_back(p, 1, [id](uint8_t* x) { g_log->push_back({id, x}); std::free(x); }); }
                expect({}, "growth of a vector of buffers");
                for (size_t q = 0; q < v.size(); ++q) REQUIRE(v[q].size() == 1 && v[q].data() == w2[q].second && v[q].data()[0] == uint8_t(w2[q].first), "buffer-state", "buffers in a vector changed");
                if (v.size() > 1) { auto e = w2[0]; v.erase(v.begin()); w2.erase(w2.begin()); expect({e}, "erase"); }
                v.clear(); expect(w2, "clear"); break;
            }
            default: {
                if (!slot[i]) break;
                trace += fmt("show%zu ", i);
                auto d = slot[i]->to_debug_string(); std::string e = m[i].live ? std::string(m[i].bytes.begin(), m[i].bytes.end()) : "";
                REQUIRE(d == e, "buffer-state", "to_debug_string differs, after %s", trace.c_str());
                (void)slot[i]->to_string(); (void)slot[i]->hexdump(1 + r.below(20));
            }
        }
        for (size_t q = 0; q < slot.size(); ++q) inspect(q);
    }
    std::vector<std::pair<int, const uint8_t*>> want; for (size_t i = 0; i < slot.size(); ++i) released(i, want);
    slot.clear(); expect(want, "destruction of all buffers");
    REQUIRE(State::live == 0, "deleter-state", "%d deleter states were not destroyed", State::live);
    { AllocPause p; CNT("buffer histories") += 1; covered(hash_str(trace), ops > 4); if (r.one_in(400)) sample(trace); }
}
static void one(uint64_t i, Rng& r) { (void)i; balanced(r.next(), "ZBuffer history", history); }
int main(int c, char** v) { return main_loop(c, v, "buffer", one); }

#else
// ------------------------------------------------------------------ readers
using P = z::VZ_P;

struct Doc { Val v; std::vector<uint8_t> bytes; };
static Doc make_doc(Rng& r) {
    GenOpts o = gen_opts<P>(); o.max_nodes = 12; o.max_depth = 4; o.max_bytes = 600; o.big_strings = false;
    Gen g(r, o); Doc d;
    for (int k = 0; k < 8; ++k) { g.nodes = 12; g.bytes = 600; d.v = g.tree(); if (d.v.k == Val::Arr || d.v.k == Val::Map) break; }
    auto b = write<P>(d.v, int(r.below(kWriteModes))); d.bytes.assign(b.data(), b.data() + b.size());
    return d;
}
// A reader slot. Views keep their bytes alive; owners must not need them.
template<class D> struct Slot { std::optional<D> d; std::shared_ptr<std::vector<uint8_t>> keep; const Doc* doc = nullptr; };

template<class T, class A> static T make_from(A&& a) { // D from const vector&, vector&& or span, whichever it has
    if constexpr (std::is_constructible_v<T, A&&>) return T(std::forward<A>(a)); else return T(std::span<const uint8_t>(a.data(), a.size()));
}
template<class T> static T owning_copy(const std::vector<uint8_t>& src) { if constexpr (requires { T::copy_from(std::span<const uint8_t>(src)); }) return T::copy_from(std::span<const uint8_t>(src)); else return make_from<T>(src); }

template<class D> static void readers(Rng& r) {
    std::vector<Doc> docs; for (int i = 0; i < 3; ++i) docs.push_back(make_doc(r));
    std::vector<Slot<D>> s(4); std::string trace;
    auto scramble = [&](std::vector<uint8_t>& b) { for (auto& c : b) c = uint8_t(c ^ 0x5a); b.resize(b.size() / 2); b.shrink_to_fit(); };
    size_t ops = 4 + r.below(14);
    for (size_t k = 0; k < ops; ++k) {
        size_t i = r.below(s.size()), j = r.below(s.size());
        switch (r.below(10)) {
            case 0: case 1: { // open, owning; the source is then changed and freed
                const Doc& d = r.pick(docs); std::vector<uint8_t> src = d.bytes; s[i].d.reset(); s[i].keep.reset();
                int kind = int(r.below(3)); trace += fmt("own%d->%zu ", kind, i);
                if (kind == 0) { const auto& c = src; s[i].d.emplace(make_from<D>(c)); }
                else if (kind == 1) { std::vector<uint8_t> c = src; s[i].d.emplace(make_from<D>(std::move(c))); }
                else { s[i].d.emplace(owning_copy<D>(src)); }
                if constexpr (!Tr<P>::json) if (kind == 0) CNT("readers opened by copy") += 1;
                scramble(src); s[i].doc = &d; break; }
            case 2: { // open, view (JSON: parses a copy)
                const Doc& d = r.pick(docs); s[i].d.reset(); s[i].keep = std::make_shared<std::vector<uint8_t>>(d.bytes); trace += fmt("view->%zu ", i);
                s[i].d.emplace(D(std::span<const uint8_t>(*s[i].keep)));
                if (Tr<P>::json) { scramble(*s[i].keep); s[i].keep.reset(); }
                s[i].doc = &d; break; }
            case 3: if (s[j].d && i != j) { trace += fmt("mc%zu<-%zu ", i, j); s[i].d.reset(); s[i].d.emplace(std::move(*s[j].d)); s[i].keep = s[j].keep; s[i].doc = s[j].doc; s[j] = {}; } break;
            case 4: if (s[j].d && s[i].d && i != j) { trace += fmt("ma%zu<-%zu ", i, j); *s[i].d = std::move(*s[j].d); s[i].keep = s[j].keep; s[i].doc = s[j].doc; if (r.chance(50)) s[j] = {}; else { s[j].doc = nullptr; s[j].keep.reset(); } } break;
            case 5: case 6: if constexpr (std::is_copy_constructible_v<D>) if (s[j].d && s[j].doc && i != j) { trace += fmt("cc%zu<-%zu ", i, j); s[i].d.reset(); const D& from = *s[j].d; s[i].d.emplace(from); s[i].keep = s[j].keep; s[i].doc = s[j].doc; CNT("readers copied") += 1; } break;
            case 7: if constexpr (std::is_copy_assignable_v<D>) if (s[j].d && s[i].d && s[j].doc) { trace += fmt("ca%zu<-%zu ", i, j); const D& from = *s[j].d; *s[i].d = from; s[i].keep = s[j].keep; s[i].doc = s[j].doc; CNT("readers copied") += 1; } break;
            case 8: { trace += fmt("del%zu ", i); s[i] = {}; break; }
            default: if constexpr (std::is_move_constructible_v<D>) if (s[j].d && s[j].doc) { // through a function and a container
                trace += fmt("vec%zu ", j); std::vector<D> v; v.push_back(std::move(*s[j].d)); v.reserve(v.capacity() + 5); if constexpr (std::is_copy_constructible_v<D>) { v.push_back(v.front()); v.erase(v.begin()); } *s[j].d = std::move(v.back()); }
        }
        for (auto& x : s) if (x.d && x.doc) {
            CNT("readers compared after an ownership operation") += 1;
            note(trace);
            Comparer<P> c; c.key = "reader-changed after " + trace; std::replace(c.key.begin(), c.key.end(), ' ', ','); c.full_limit = 40; c.compare(*x.d, x.doc->v);
        }
    }
    { AllocPause p; CNT("reader histories") += 1; covered(hash_str(trace, digest(docs[0].v)), ops > 4); if (r.one_in(400)) sample(trace); }
}

// Sub-values and iteration stay usable while the message lives, whatever happens to the
// intermediate values they came from.
static void subvalues(Rng& r) {
    Doc d = make_doc(r);
    typename P::Deserializer root(std::span<const uint8_t>(d.bytes));
    auto walk = [&](auto& self, const auto& rd, const Val& v, int depth) -> void {
        if (depth > 4) return;
        using R = decltype(rd[size_t(0)]);
        if (v.k == Val::Arr && !v.a.empty()) {
            size_t i = r.below(v.a.size());
            auto hold = std::make_unique<R>(rd[i]); R kept = std::move(*hold); hold.reset();
            expect_equal<P>(kept, v.a[i], "sub-value-changed"); self(self, kept, v.a[i], depth + 1);
        } else if (v.k == Val::Map && !v.m.empty()) {
            auto& [k, e] = v.m[r.below(v.m.size())];
            std::unique_ptr<std::string> key = std::make_unique<std::string>(k);
            auto hold = std::make_unique<R>(rd[std::string_view(*key)]); key.reset(); R kept = std::move(*hold); hold.reset();
            expect_equal<P>(kept, e, "sub-value-changed"); self(self, kept, e, depth + 1);
        }
    };
    walk(walk, root, d.v, 0);
    { AllocPause p; CNT("sub-values kept past their parents") += 1; }
}

// ------------------------------------------------------------------ builders, dynamic values
namespace own {
struct Track { // a user type whose life is observed
    static inline std::set<const Track*>* live = nullptr;
    std::string s;
    explicit Track(std::string x) : s(std::move(x)) { add(); }
    Track(const Track& o) : s(o.s) { o.check(); add(); }
    Track(Track&& o) noexcept : s(std::move(o.s)) { o.check(); add(); }
    Track& operator=(const Track&) = default;
    ~Track() { if (!live->erase(this)) fail("user-object", "a user object was destroyed twice"); }
    void add() { if (!live->insert(this).second) fail("user-object", "a user object was constructed twice at one address"); }
    void check() const { if (!live->count(this)) fail("user-object", "a destroyed user object was used"); }
};
template<z::Writer W> void serialize(const Track& t, W& w) { t.check(); w.string(t.s); }
}
using own::Track;
static __attribute__((noinline)) void churn(Rng& r) { volatile char a[2048]; for (size_t i = 0; i < sizeof a; ++i) a[i] = char(r.next() | 1); std::vector<std::string> v; for (int i = 0; i < 6; ++i) v.emplace_back(size_t(10 + 20 * i), 'Z'); }

static std::string txt(Rng& r) { std::string s; size_t n = r.below(60); for (size_t i = 0; i < n; ++i) s += char('a' + r.below(26)); return s; }
static std::string bytes_of_buf(const z::ZBuffer& b) { return {reinterpret_cast<const char*>(b.data()), b.size()}; }
static std::string via_model(const Val& v) { return bytes_of_buf(write<P>(v, 0)); }

template<class B> static void twice(B& b, const std::string& want, const char* what) {
    auto one = z::serialize<P>(b), two = z::serialize<P>(b);
    REQUIRE(bytes_of_buf(one) == want, "stored-builder", "%s: a stored builder serialized to something else than its arguments", what);
    REQUIRE(bytes_of_buf(two) == want, "stored-builder", "%s: the second serialization of a stored builder differs", what);
    CNT("stored builders serialized") += 2;
}
template<class B> static void copied(std::unique_ptr<B>& held, const std::string& want, Rng& r) {
    if constexpr (std::is_copy_constructible_v<B>) { B copy = *held; held.reset(); churn(r); twice(copy, want, "copied zvec after the original was destroyed"); }
}
static __attribute__((noinline)) auto make_b1(const std::string& a, const std::vector<int>& v) {
    return z::zvec(std::string(a), std::vector<int>(v), Track(a + "!"), z::zmap<"k", "t", "n">(std::string(a + "?"), z::zvec(Track(a), std::string(a + a)), nullptr));
}
static __attribute__((noinline)) auto make_b2(const std::string& a, const std::map<std::string, std::string>& m, const std::vector<std::byte>& bin) {
    return z::zmap<"m", "b", "v", "d">(std::map<std::string, std::string>(m), std::vector<std::byte>(bin), std::list<std::string>{a, a + "x"}, z::dyn::map({{"x", std::string_view(a)}, {"y", z::dyn::serializable(Track(a))}}));
}
static void builders(Rng& r) {
    std::set<const Track*> live; Track::live = &live;
    {
        std::string a = txt(r), a0 = a; std::vector<int> v; for (size_t i = r.below(5); i > 0; --i) v.push_back(int(r.next()));
        std::map<std::string, std::string> m; for (size_t i = r.below(4); i > 0; --i) m[txt(r)] = txt(r);
        std::vector<std::byte> bin(r.below(50)); for (auto& b : bin) b = std::byte(r.next());
        Val vi = Val::arr(); for (int x : v) vi.a.push_back(Val::integer(x));
        Val w1 = Val::arr({Val::str(a), vi, Val::str(a + "!"), Val::map({{"k", Val::str(a + "?")}, {"t", Val::arr({Val::str(a), Val::str(a + a)})}, {"n", Val::null()}})});
        Val mm = Val::map(); for (auto& [k, x] : m) mm.m.emplace_back(k, Val::str(x));
        Val w2 = Val::map({{"m", mm}, {"b", Val::blob(std::string(reinterpret_cast<const char*>(bin.data()), bin.size()))}, {"v", Val::arr({Val::str(a), Val::str(a + "x")})}, {"d", Val::map({{"x", Val::str(a)}, {"y", Val::str(a)}})}});
        std::string e1 = via_model(w1), e2 = via_model(w2);
        {
            auto b1 = make_b1(a, v); churn(r); twice(b1, e1, "zvec returned from a function");
            auto b2 = make_b2(a, m, bin); churn(r); a.assign(a.size(), '#'); twice(b2, e2, "zmap returned from a function"); a = a0;
            auto held = std::make_unique<decltype(b1)>(std::move(b1)); churn(r); twice(*held, e1, "moved zvec");
            copied(held, e1, r);
            auto nest = [&] { return z::zvec(make_b1(a, v), std::move(b2), std::string(a)); }(); churn(r);
            twice(nest, via_model(Val::arr({w1, w2, Val::str(a)})), "nested builders");
            // lvalues are referred to: the builder sees their value at serialization
            std::string lv = a; Track tr(a + "0"); auto bl = z::zvec(lv, tr); lv += "later"; tr.s = "now";
            REQUIRE(bytes_of_buf(z::serialize<P>(bl)) == via_model(Val::arr({Val::str(lv), Val::str("now")})) || bytes_of_buf(z::serialize<P>(bl)) == via_model(Val::arr({Val::str(a), Val::str(a + "0")})),
                    "stored-builder", "a builder of lvalues serialized to neither their old nor their new value");
            REQUIRE(lv == a + "later" && tr.s == "now", "stored-builder", "serializing a builder changed its arguments");
        }
        { // dynamic values own what they are given
            std::string s = txt(r); std::vector<std::byte> bl = bin; std::string cs = txt(r);
            auto tp = std::make_unique<Track>(s + "t");
            z::dyn::Value::Array arr;
            arr.emplace_back(std::string_view(s)); arr.emplace_back(cs.c_str()); arr.emplace_back(bl); arr.emplace_back(std::span<const std::byte>(bl)); arr.emplace_back(z::dyn::serializable(*tp)); arr.emplace_back(z::dyn::Value::blob(bl)); arr.emplace_back(z::dyn::Value(z::dyn::Binary{bl}));
            arr.emplace_back(z::dyn::map({{s, z::dyn::array({s, 1, 2u, nullptr, true, 1.5})}, {s + "2", z::dyn::serializable(std::vector<std::string>{s, cs})}}));
            Val B = Val::blob(std::string(reinterpret_cast<const char*>(bin.data()), bin.size()));
            Val want = Val::arr({Val::str(s), Val::str(cs), B, B, Val::str(s + "t"), B, B, Val::map({{s, Val::arr({Val::str(s), Val::integer(1), Val::uinteger(2), Val::null(), Val::boolean(true), Val::dbl(1.5)})}, {s + "2", Val::arr({Val::str(s), Val::str(cs)})}})});
            std::string e = via_model(want);
            auto dv = std::make_unique<z::dyn::Value>(z::dyn::Value::array(arr)); arr.clear(); arr.shrink_to_fit();
            tp->s = "gone"; tp.reset(); std::fill(bl.begin(), bl.end(), std::byte{0xee}); bl = {}; s.assign(s.size(), '#'); cs.assign(cs.size(), '#'); churn(r);
            twice(*dv, e, "dynamic value after its sources changed");
            auto copy = std::make_unique<z::dyn::Value>(*dv); dv.reset(); churn(r); twice(*copy, e, "copied dynamic value after the original was destroyed");
            z::dyn::Value moved = std::move(*copy); *copy = z::dyn::Value(7); twice(moved, e, "moved dynamic value"); copy.reset();
            z::dyn::Value& self = moved; moved = self; twice(moved, e, "self-assigned dynamic value");
            auto inb = z::zvec(std::move(moved), z::dyn::Value(std::string(40, 'q'))); churn(r); twice(inb, via_model(Val::arr({want, Val::str(std::string(40, 'q'))})), "dynamic value in a builder");
            CNT("dynamic values outlived their sources") += 1;
        }
        { // a result does not depend on what it was made from
            auto* src = new Val(make_doc(r).v); std::string e = via_model(*src); std::optional<z::ZBuffer> buf;
            { auto dv = to_dyn(*src); buf.emplace(z::serialize<P>(dv)); } delete src; churn(r);
            z::ZBuffer b2 = std::move(*buf); buf.reset(); churn(r);
            REQUIRE(bytes_of_buf(b2) == e, "result-changed", "a serialized buffer changed after its source was destroyed");
            CNT("results outlived their sources") += 1;
        }
        { // aborted serializations: a root serializer destroyed before finish
            Val v = make_doc(r).v; { typename P::RootSerializer rs; typename P::Serializer w(rs); emit(v, w); }
            typename P::RootSerializer rs; typename P::Serializer w(rs); w.begin_array(2); w.string(txt(r)); CNT("serializations abandoned") += 2;
        }
    }
    REQUIRE(live.empty(), "user-object", "%zu user objects were never destroyed", live.size());
}

static void one(uint64_t i, Rng& r) {
    uint64_t s = r.next();
    switch (r.below(4)) {
        case 0: balanced(s, "subvalues", subvalues); break;
        case 1: balanced(s, "builders", builders); break;
        default: balanced(s, "readers", readers<typename P::Deserializer>);
    }
    (void)i;
}
int main(int c, char** v) { return main_loop(c, v, VZ_PNAME, one); }
#endif
