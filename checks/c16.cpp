// C16: failures while serializing surface as exceptions, never as bad output.
#include "../lib/proto.hpp"
#include "../lib/ref.hpp"
#include "../lib/alloc.hpp"
#include <list>
#include <new>
using namespace vz;
using P = zerialize::VZ_P;
using D = typename P::Deserializer;

// ---------------------------------------------------------------- failing allocations
namespace inj {
static bool armed = false, sticky = false; static uint64_t seen = 0, fail_at = ~0ull, hits = 0;
static inline bool hit() { if (!armed) return false; uint64_t k = seen++; if (k == fail_at || (sticky && k > fail_at)) { ++hits; return true; } return false; }
struct Arm { Arm(uint64_t at, bool s) { seen = 0; fail_at = at; sticky = s; hits = 0; armed = true; } ~Arm() { armed = false; } };
struct Pause { bool was = armed; Pause() { armed = false; } ~Pause() { armed = was; } };
}
extern "C" void* __real_malloc(size_t); extern "C" void* __real_realloc(void*, size_t); extern "C" void* __real_calloc(size_t, size_t);
extern "C" void* __wrap_malloc(size_t n) { return inj::hit() ? nullptr : __real_malloc(n); }
extern "C" void* __wrap_realloc(void* p, size_t n) { return inj::hit() ? nullptr : __real_realloc(p, n); }
extern "C" void* __wrap_calloc(size_t a, size_t b) { return inj::hit() ? nullptr : __real_calloc(a, b); }
void* operator new(size_t n) { if (inj::hit()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return ::operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return inj::hit() ? nullptr : __real_malloc(n ? n : 1); }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return ::operator new(n, t); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }

static std::string bytes_of(const z::ZBuffer& b) { inj::Pause p; return std::string(reinterpret_cast<const char*>(b.buf().data()), b.buf().size()); }
static uint64_t distinct_of(std::string_view s, uint64_t x) { return hash_str(s) ^ mix(x); }

// One operation under test: what it does and the text of its outcome.
struct Job { const char* name; std::function<std::string()> run; };
template<class R> static std::string outcome(const R& rd) { Val v = read_all<P>(rd); inj::Pause p; return std::to_string(digest(v)); }

static bool balanced(const std::function<void()>& f) { // no blocks left behind; repeated, because a first run may set something up
    for (int k = 0; k < 3; ++k) { AllocWatch w; f(); if (AllocWatch::live == 0) return true; }
    return false;
}
// Runs the job with one allocation failing, at every position (or a sample of them).
static void inject(const Job& j, Rng& r, const Val& v) {
    std::string want; uint64_t n;
    try { want = j.run(); inj::Arm a(~0ull, false); std::string again = j.run(); n = inj::seen; inj::armed = false; if (again != want) fail("not-repeatable", std::string(Tr<P>::name) + " " + j.name + " gives different results"); }
    catch (const std::exception& e) { fail("refused", std::string(Tr<P>::name) + " " + j.name + " threw without a failure: " + e.what()); }
    std::vector<uint64_t> at; if (n <= 24) for (uint64_t k = 0; k < n; ++k) at.push_back(k); else { at = {0, 1, 2, n - 1, n - 2, n - 3}; for (int k = 0; k < 14; ++k) at.push_back(r.below(n)); }
    for (uint64_t k : at) {
        bool sticky = r.one_in(3); note(std::string(j.name) + fmt(", allocation %llu of %llu fails%s, ", (unsigned long long)k, (unsigned long long)n, sticky ? " and all later" : "") + text(v, 300));
        bool threw = false; std::string got; uint64_t hits = 0;
        auto once = [&] { inj::Arm a(k, sticky); try { auto res = j.run(); inj::armed = false; AllocPause q; got = res; threw = false; } catch (const std::exception&) { inj::armed = false; threw = true; } catch (...) { inj::armed = false; fail("odd-exception", std::string(j.name) + " threw something that is no std::exception"); } hits = inj::hits; };
        bool even = balanced(once);
        if (!even) fail("leak", std::string(Tr<P>::name) + " " + j.name + fmt(": memory is lost when allocation %llu of %llu fails", (unsigned long long)k, (unsigned long long)n) + " for " + text(v, 200));
        if (!hits) continue;
        if (!threw && got != want) fail("bad-output", std::string(Tr<P>::name) + " " + j.name + fmt(": allocation %llu of %llu failed and the result is another one", (unsigned long long)k, (unsigned long long)n) + " for " + text(v, 200));
        if (threw) CNT("failed allocations that threw") += 1; else CNT("failed allocations survived with the right result") += 1;
        CNT("allocation failures injected") += 1; count(std::string("injected into: ") + j.name);
    }
    if (j.run() != want) fail("later-affected", std::string(Tr<P>::name) + " " + j.name + ": a later run gives another result for " + text(v, 200));
    CNT("later runs unaffected") += 1;
}

// ---------------------------------------------------------------- throwing callbacks
namespace vzboom {
struct Boom : std::exception { int id; explicit Boom(int i) : id(i) {} const char* what() const noexcept override { return "boom"; } };
struct Bomb { int* left; int style; };
template<zerialize::Writer W> void serialize(const Bomb& b, W& w) {
    bool now = --*b.left == 0;
    if (now && b.style == 0) throw Boom(7);
    w.begin_array(2); w.string("a string that is long enough to be stored out of line"); if (now && b.style == 1) throw Boom(7);
    w.begin_map(1); w.key("key"); if (now && b.style == 2) throw Boom(7);
    w.double_(1.25); w.end_map(); if (now && b.style == 3) throw Boom(7);
    w.end_array(); if (now) throw Boom(7);
}
}
using vzboom::Bomb; using vzboom::Boom;
static void callbacks(Rng& r) {
    int left = 0; std::string s = Gen(r, gen_opts<P>()).content(r.below(60), true, false); Bomb b{&left, int(r.below(5))};
    std::vector<Bomb> vec(1 + r.below(6), b); std::map<std::string, Bomb> map{{"x", b}, {"yy", b}, {"", b}}; std::list<Bomb> list(3, b);
    auto d1 = z::dyn::serializable(b); auto d = z::dyn::map({{"k", z::dyn::array({s, d1, 3, d1})}, {"l", d1}});
    std::vector<std::pair<const char*, std::function<z::ZBuffer()>>> jobs = {
        {"zvec", [&] { return z::serialize<P>(z::zvec(s, b, 1, b, z::zvec(b))); }}, {"zmap", [&] { return z::serialize<P>(z::zmap<"a", "b", "c">(b, z::zmap<"d">(b), s)); }}, {"vector", [&] { return z::serialize<P>(vec); }},
        {"map", [&] { return z::serialize<P>(map); }}, {"list", [&] { return z::serialize<P>(list); }}, {"dynamic", [&] { return z::serialize<P>(d); }}, {"alone", [&] { return z::serialize<P>(b); }},
        {"erased", [&] { typename P::RootSerializer rs; typename P::Serializer w(rs); auto view = z::dyn::WriterView::make(w); using zerialize::serialize; serialize(vec, view); return rs.finish(); }} };
    auto& [name, job] = jobs[r.below(jobs.size())];
    left = 1 << 20; std::string want = bytes_of(job()); int total = (1 << 20) - left;
    for (int k = 1; k <= total; ++k) {
        note(fmt("%s: callback %d of %d throws, style %d", name, k, total, b.style)); bool ok = false; bool returned = false;
        bool even = balanced([&] { left = k; try { auto z = job(); returned = true; } catch (const Boom& e) { ok = e.id == 7; } catch (...) { ok = false; } });
        if (returned) fail("callback-swallowed", std::string(Tr<P>::name) + fmt(" %s: callback %d of %d threw and a message was returned", name, k, total));
        if (!ok) fail("callback-exception-changed", std::string(Tr<P>::name) + fmt(" %s: the exception of callback %d of %d did not reach the caller", name, k, total));
        if (!even) fail("leak", std::string(Tr<P>::name) + fmt(" %s: memory is lost when callback %d of %d throws", name, k, total));
        CNT("throwing callbacks") += 1;
    }
    left = 1 << 20; if (bytes_of(job()) != want) fail("later-affected", std::string(Tr<P>::name) + " " + name + ": a later serialization differs"); CNT("later runs unaffected") += 1;
    covered(distinct_of(want, uint64_t(b.style)), true);
}

// ---------------------------------------------------------------- writer out of order
struct Ev { enum K { Value, Key, BeginA, EndA, BeginM, EndM } k; Val v; std::string key; size_t n = 0; };
static void events(const Val& v, std::vector<Ev>& o) {
    if (v.k == Val::Arr) { o.push_back({Ev::BeginA, {}, {}, v.a.size()}); for (auto& e : v.a) events(e, o); o.push_back({Ev::EndA, {}, {}, 0}); }
    else if (v.k == Val::Map) { o.push_back({Ev::BeginM, {}, {}, v.m.size()}); for (auto& [k, e] : v.m) { o.push_back({Ev::Key, {}, k, 0}); events(e, o); } o.push_back({Ev::EndM, {}, {}, 0}); }
    else o.push_back({Ev::Value, v, {}, 0});
}
template<class W> static void apply(const Ev& e, W& w) { switch (e.k) { case Ev::Value: emit(e.v, w); break; case Ev::Key: w.key(e.key); break; case Ev::BeginA: w.begin_array(e.n); break; case Ev::EndA: w.end_array(); break; case Ev::BeginM: w.begin_map(e.n); break; case Ev::EndM: w.end_map(); break; } }
// What the sequence means, or why it means nothing.
static const char* meaning(const std::vector<Ev>& evs, Val& root) {
    struct F { Val v; bool map; std::string key; bool has = false; }; std::vector<F> st; bool have = false; root = Val::null();
    auto put = [&](Val v) -> const char* { if (st.empty()) { if (have) return "several roots"; root = std::move(v); have = true; return nullptr; } auto& f = st.back(); if (!f.map) { f.v.a.push_back(std::move(v)); return nullptr; } if (!f.has) return "value without key"; f.v.m.emplace_back(f.key, std::move(v)); f.has = false; return nullptr; };
    for (auto& e : evs) {
        const char* bad = nullptr;
        switch (e.k) {
            case Ev::Value: bad = put(e.v); break;
            case Ev::Key: if (st.empty() || !st.back().map) bad = "key outside a map"; else if (st.back().has) bad = "key twice"; else { st.back().key = e.key; st.back().has = true; } break;
            case Ev::BeginA: case Ev::BeginM: if (st.empty() ? have : st.back().map && !st.back().has) { bad = st.empty() ? "several roots" : "container without key"; break; } st.push_back({e.k == Ev::BeginM ? Val::map() : Val::arr(), e.k == Ev::BeginM, {}}); break;
            case Ev::EndA: case Ev::EndM: if (st.empty()) { bad = "end without begin"; break; } if (st.back().map != (e.k == Ev::EndM)) { bad = "mismatched end"; break; } if (st.back().has) { bad = "end with a dangling key"; break; } { Val v = std::move(st.back().v); st.pop_back(); bad = put(std::move(v)); } break;
        }
        if (bad) return bad;
    }
    return st.empty() ? nullptr : "finish with an open container";
}
static bool duplicate_keys(const Val& v) { std::set<std::string> s; for (auto& [k, e] : v.m) if (!s.insert(k).second || duplicate_keys(e)) return true; for (auto& e : v.a) if (duplicate_keys(e)) return true; return false; }
static constexpr bool kTracks = std::is_same_v<P, z::Zera> || Tr<P>::json;
static void misuse(Rng& r) {
    GenOpts o = gen_opts<P>(); o.max_depth = 4; Val v = Gen(r, o).tree(); if (v.k != Val::Arr && v.k != Val::Map && r.chance(80)) v = Val::map({{"a", v}, {"b", Val::arr({Val::integer(1), Val::map({{"c", Val::str("x")}})})}});
    std::vector<Ev> evs; events(v, evs); if (evs.size() > 400) return;
    int edits = int(r.below(4)); const Ev::K kinds[] = {Ev::Value, Ev::Key, Ev::BeginA, Ev::EndA, Ev::BeginM, Ev::EndM};
    auto fresh = [&] { Ev e{kinds[r.below(6)], Val::integer(5), "inserted", 1}; if (r.chance(30)) e.v = Val::str("a long enough string to be out of line"); if (r.chance(20)) e.v = Val::blob("bb"); return e; };
    for (int k = 0; k < edits && !evs.empty(); ++k) { size_t i = r.below(evs.size()); switch (r.below(6)) { case 0: evs.erase(evs.begin() + long(i)); break; case 1: evs.insert(evs.begin() + long(i), Ev(evs[i])); break; case 2: std::swap(evs[i], evs[r.below(evs.size())]); break; case 3: evs[i] = fresh(); break; case 4: evs.insert(evs.begin() + long(r.below(evs.size() + 1)), fresh()); break; default: evs.resize(i); } }
    Val want; const char* bad = meaning(evs, want);
    if (!kTracks) { // Flex tracks ends only; the others trust the caller
        if (!std::is_same_v<P, z::Flex>) return;
        std::vector<Ev> pre; events(v, pre); size_t cut = r.below(pre.size() + 1); Val x; std::vector<bool> open; pre.resize(cut); for (auto& e : pre) { if (e.k == Ev::BeginA) open.push_back(false); if (e.k == Ev::BeginM) open.push_back(true); if (e.k == Ev::EndA || e.k == Ev::EndM) open.pop_back(); }
        if (!pre.empty() && pre.back().k == Ev::Key) return; // after a key an end would be another mistake
        Ev e; e.k = open.empty() ? (r.chance(50) ? Ev::EndA : Ev::EndM) : open.back() ? Ev::EndA : Ev::EndM; note(fmt("bad end after %zu events", cut));
        bool threw = false; typename P::RootSerializer rs; typename P::Serializer w(rs); for (auto& q : pre) apply(q, w); try { apply(e, w); } catch (const std::exception&) { threw = true; }
        if (!threw) fail("misuse-accepted", std::string(Tr<P>::name) + ": a mismatched end was accepted after " + text(v, 200)); CNT("misuses refused") += 1; covered(digest(v) ^ cut, true); return;
    }
    std::string seq; for (auto& e : evs) { static const char* n[] = {"v", "k", "[", "]", "{", "}"}; seq += n[e.k]; } note("events " + seq);
    bool threw = false; std::string got; bool erased = r.chance(30);
    bool even = balanced([&] { threw = false; try { typename P::RootSerializer rs; typename P::Serializer w(rs); auto view = z::dyn::WriterView::make(w); for (auto& e : evs) { if (erased) apply(e, view); else apply(e, w); } auto b = rs.finish(); AllocPause q; got = bytes_of(b); } catch (const std::exception&) { threw = true; } });
    if (!even) fail("leak", std::string(Tr<P>::name) + ": memory is lost after events " + seq);
    if (bad && !threw) fail("misuse-accepted", std::string(Tr<P>::name) + ": " + bad + " was accepted: events " + seq + " gave " + hex({reinterpret_cast<const uint8_t*>(got.data()), got.size()}));
    if (!bad && threw) fail("legal-refused", std::string(Tr<P>::name) + ": a legal sequence of writer calls was refused: " + seq);
    if (bad) { CNT("misuses refused") += 1; count(std::string("refused: ") + bad); }
    else if (!duplicate_keys(want)) { const D rd(std::span<const uint8_t>(reinterpret_cast<const uint8_t*>(got.data()), got.size())); expect_equal<P>(rd, want, "legal-sequence", &r); CNT("legal sequences read back") += 1; }
    covered(distinct_of(seq, 3), true);
    if (r.one_in(300)) sample(std::string(Tr<P>::name) + " events " + seq + (bad ? std::string(": ") + bad : ""));
}

template<class Q> static Job ownership_job(const ref::Bytes& raw) {
    if constexpr (Tr<Q>::json) return {"reading text", [&raw] { const typename Q::Deserializer rd(std::string_view(reinterpret_cast<const char*>(raw.data()), raw.size())); return outcome(rd); }};
    else return {"owning reader moved", [&raw] { using R = typename Q::Deserializer; std::vector<uint8_t> c(raw); R rd(std::move(c)); R rd2(std::move(rd)); R rd3(std::vector<uint8_t>(raw.begin(), raw.end())); rd3 = std::move(rd2); return outcome(rd3); }};
}
static void faults(Rng& r) {
    GenOpts o = common_opts(); o.max_depth = 4; Val v = Gen(r, o).tree(); for (int t = 0; t < 10 && stats(v).nodes > 60; ++t) v = Gen(r, o).tree(); if (stats(v).nodes > 60) v = Val::arr({v.k == Val::Arr ? v.a[0] : Val::str("x")});
    if (r.one_in(12)) v = Val::arr({Val::str(std::string(20000 + r.below(60000), 'x')), Val::blob(std::string(r.below(50000), 'y')), v});
    note(text(v));
    auto dyn = to_dyn(v); z::ZBuffer msg = write<P>(v, 0); ref::Bytes raw(msg.buf().begin(), msg.buf().end()); std::span<const uint8_t> sp(raw);
    std::map<std::string, std::vector<std::string>> words{{"a", {"x", std::string(50, 'y')}}, {"bb", {}}}; std::vector<std::byte> blob(r.below(70), std::byte(3));
    Job j;
    switch (r.below(11)) {
        case 0: j = {"direct writer calls", [&] { return bytes_of(write<P>(v, 0)); }}; break;
        case 1: j = {"dynamic value", [&] { return bytes_of(z::serialize<P>(dyn)); }}; break;
        case 2: j = {"user type", [&] { return bytes_of(write<P>(v, 2)); }}; break;
        case 3: j = {"type-erased writer", [&] { return bytes_of(write<P>(v, 3)); }}; break;
        case 4: j = {"builder", [&] { return bytes_of(z::serialize<P>(z::zmap<"w", "d", "n">(words, dyn, z::zvec(1, std::string(40, 'q'), blob, z::zmap<>())))); }}; break;
        case 5: j = {"dynamic value copied and erased", [&] { auto c = dyn; auto s = z::dyn::serializable(words); return bytes_of(z::serialize<P>(z::dyn::array({c, s, std::string(60, 'c')}))); }}; break;
        case 6: j = {"translation to Zera", [&] { const D rd(sp); auto t = z::translate<z::Zera>(rd); inj::Pause p; return std::to_string(digest(read_all<z::Zera>(t))); }}; break;
        case 7: j = {"translation to MsgPack", [&] { const D rd(sp); auto t = z::translate<z::MsgPack>(rd); inj::Pause p; return std::to_string(digest(read_all<z::MsgPack>(t))); }}; break;
        case 8: j = {"translation to Flex", [&] { const D rd(sp); auto t = z::translate<z::Flex>(rd); inj::Pause p; return std::to_string(digest(read_all<z::Flex>(t))); }}; break;
        case 9: j = {"reading", [&] { const D rd(sp); return outcome(rd); }}; break;
        default: j = ownership_job<P>(raw);
    }
    inject(j, r, v);
    auto st = stats(v); covered(distinct_of(j.name, digest(v)), st.nodes > 1 || st.bytes > 0);
    if (r.one_in(300)) sample(std::string(Tr<P>::name) + " failing allocations in " + j.name + " of " + text(v, 200));
}
static void one(uint64_t, Rng& r) { switch (r.below(5)) { case 0: callbacks(r); break; case 1: misuse(r); misuse(r); break; default: faults(r); } }
int main(int c, char** v) { return main_loop(c, v, "c16-" VZ_PNAME, one); }
