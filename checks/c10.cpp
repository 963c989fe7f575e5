// C10: concurrent readers and independent serializations do not interfere.
#include "../lib/tens.hpp"
#include "../lib/ref.hpp"
#include <thread>
#include <optional>
#include <list>
using namespace vz;
using P = zerialize::VZ_P;
using D = typename P::Deserializer;
namespace zx = zerialize::xtensor; namespace ze = zerialize::eigen;

// Encodes by the independent encoders, so that nothing of the library has run before the
// threads start (in the first case of a process, lazily made state is still unmade).
template<class PP> static ref::Bytes foreign(const Val& v, Rng& r, bool tensor = true) {
    std::string_view n = Tr<PP>::name;
    if (n == "Zera") return ref::ZeraEncoder(r).encode(v);
    if (n == "MsgPack") { // the type code of the tensor must be written as a signed integer
        for (;;) { ref::Bytes b; ref::msgpack_put(b, v, r); if (!tensor) return b; static const uint8_t head[] = {0xa1, 't', 0x93, 0x0b}; if (std::search(b.begin(), b.end(), head, head + 4) != b.end()) return b; } }
    if (n == "Flex") { ref::FlexEncoder e(r); return e.encode(v); }
    if (n == "Cbor") { ref::Bytes b; ref::CborStyle st; st.chunk_strings = false; st.chunk_keys = false; ref::cbor_put(b, v, r, st); return b; }
    std::string s = ref::JsonEncoder(r).encode(v); return ref::Bytes(s.begin(), s.end());
}
static std::string bytes_of(const z::ZBuffer& b) { return std::string(reinterpret_cast<const char*>(b.buf().data()), b.buf().size()); }

using Sub = std::remove_cvref_t<decltype(std::declval<const D&>()[std::string_view()])>;
using Keys = std::remove_cvref_t<decltype(std::declval<const D&>().mapKeys())>;
using XView = zx::XTensorView<double>; using EView = ze::EigenMatrixView<double, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
// Objects made before the threads start and used by all of them.
struct AllThreads {
    Val list; ref::Bytes list_msg; std::unique_ptr<D> list_reader; std::vector<std::pair<std::unique_ptr<const Sub>, const Val*>> subs; std::optional<const Keys> keys; std::optional<const XView> view; std::optional<const EView> mview;
};
struct Common {
    const AllThreads* sh = nullptr;
    Val doc; std::vector<double> elems; Shape_t shape;
    ref::Bytes msg; const D* reader = nullptr;
    const z::dyn::Value* dyn = nullptr; const xt::xarray<double>* tensor = nullptr; const Eigen::Matrix<float, 2, 3>* mat = nullptr;
    std::vector<std::map<std::string, int>>* unused = nullptr;
    std::map<std::string, std::vector<std::string>> words; std::vector<std::byte> blob; std::list<double> nums; const z::ZBuffer* buffer = nullptr;
};
enum Op { kCompare, kPaths, kKeys, kTranslate0, kTranslate1, kTranslate2, kTranslate3, kTranslate4, kTensor, kSerDyn, kSerNode, kSerStd, kSerBuilder, kSerTensor, kSerOther, kOwnReader, kCopyReader, kSubValue, kMisses, kBuffer, kList, kSharedSub, kSharedKeys, kSharedView, kText, kRefusals, kBadTensor, kBase64, kMisuse, kCorrupt, kErased, kOps };
static const char* kName[] = {"compare", "paths", "keys", "to Zera", "to MsgPack", "to Flex", "to Json", "to Cbor", "tensor", "dynamic value", "user type", "containers", "builder", "tensor out", "other protocol", "own reader", "copied reader", "sub-value", "misses", "buffer", "shared list", "shared sub-values", "shared keys", "shared tensor view", "diagnostic text", "refused reads", "refused tensors", "base64", "misused writers", "corrupt messages", "erased writer"};

template<class Q> static std::string translated(const Common& s) {
    const auto t = z::translate<Q>((*s.reader)); Comparer<Q> c; c.key = "concurrent-translate"; c.sign_free = true; c.compare(t, s.doc); return {};
}
template<class PP> static std::string do_op(int op, const Common& s, Rng& r, bool deep) {
    const D& rd = *s.reader;
    switch (op) {
        case kCompare: { Comparer<PP> c; c.key = "concurrent-read"; c.sign_free = !Tr<PP>::exact_sign; c.compare(rd, s.doc); return {}; }
        case kPaths: for (int i = 0; i < 6; ++i) { size_t k = r.below(s.doc.m.size()); auto& [key, v] = s.doc.m[k]; const auto sub = rd[std::string_view(key)]; Comparer<PP> c; c.key = "concurrent-lookup"; c.sign_free = !Tr<PP>::exact_sign; c.compare(sub, v); if (!rd.contains(key)) fail("concurrent-lookup", "key lost"); } return {};
        case kKeys: { std::string o; for (int pass = 0; pass < 2; ++pass) { for (std::string_view k : rd.mapKeys()) { o += k; o += '|'; } } return o; }
        case kTranslate0: return translated<z::Zera>(s);
        case kTranslate1: return translated<z::MsgPack>(s);
        case kTranslate2: return translated<z::Flex>(s);
#ifndef VZ_NOJSON
        case kTranslate3: return translated<z::JSON>(s);
#endif
#ifndef VZ_NOCBOR
        case kTranslate4: return translated<z::CBOR>(s);
#endif
        case kTensor: { const auto sub = rd[std::string_view("t")]; auto v = zx::asXTensorView<double>(sub); auto t = v.tensor(); if (t.size() != s.elems.size()) fail("concurrent-tensor", "tensor size differs"); for (size_t i = 0; i < s.elems.size(); ++i) if (!same_bits(double(t.data()[i]), s.elems[i])) fail("concurrent-tensor", "tensor element differs");
                        if (s.shape.size() == 2) { auto m = ze::asEigenMatrix<double, Eigen::Dynamic, Eigen::Dynamic, false, Eigen::RowMajor>(sub); for (size_t i = 0; i < s.elems.size(); ++i) if (!same_bits(double(m.data()[i]), s.elems[i])) fail("concurrent-tensor", "matrix element differs"); } return {}; }
        case kSerDyn: return bytes_of(z::serialize<PP>(*s.dyn));
        case kSerNode: return bytes_of(z::serialize<PP>(vzuser::Node{&s.doc}));
        case kSerStd: return bytes_of(z::serialize<PP>(s.words)) + bytes_of(z::serialize<PP>(s.nums)) + bytes_of(z::serialize<PP>(s.blob));
        case kSerBuilder: return bytes_of(z::serialize<PP>(z::zmap<"w", "d", "b", "n">(s.words, *s.dyn, s.blob, z::zvec(1, "x", s.nums))));
        case kSerTensor: return bytes_of(z::serialize<PP>(z::zvec(*s.tensor, *s.mat, z::dyn::serializable(*s.tensor))));
        case kSerOther: { std::string o = bytes_of(z::serialize<z::Zera>(*s.dyn)) + bytes_of(z::serialize<z::MsgPack>(*s.dyn)) + bytes_of(z::serialize<z::Flex>(*s.dyn));
#ifndef VZ_NOJSON
            o += bytes_of(z::serialize<z::JSON>(*s.dyn));
#endif
#ifndef VZ_NOCBOR
            o += bytes_of(z::serialize<z::CBOR>(*s.dyn));
#endif
            return o; }
        case kOwnReader: with_reader<PP>(s.msg, int(r.below(uint64_t(Tr<PP>::ctors))), [&](const auto& own) { Comparer<PP> c; c.key = "concurrent-own-reader"; c.sign_free = !Tr<PP>::exact_sign; c.compare(own, s.doc); }); return {};
        case kCopyReader: if constexpr (!Tr<PP>::json && std::is_copy_constructible_v<typename PP::Deserializer>) { using D = typename PP::Deserializer; D copy(rd); D moved(std::move(copy)); Comparer<PP> c; c.key = "concurrent-copied-reader"; c.sign_free = !Tr<PP>::exact_sign; c.compare(moved, s.doc); } return {};
        case kSubValue: { const auto sub = rd[std::string_view("doc")]; Comparer<PP> c; c.key = "concurrent-sub-value"; c.sign_free = !Tr<PP>::exact_sign; for (auto& [k, v] : s.doc.m) if (k == "doc") c.compare(sub, v); const auto t = z::translate<z::MsgPack>(sub); (void)t; return {}; }
        case kMisses: { int n = 0; try { (void)rd.asInt64(); } catch (const DeserializationError&) { ++n; } try { (void)rd["no such key"]; } catch (const DeserializationError&) { ++n; } try { (void)rd[size_t(3)]; } catch (const DeserializationError&) { ++n; } try { (void)rd[std::string_view("s")].asBlob(); } catch (const DeserializationError&) { ++n; }
                        if (rd.contains("no such key") || rd.isArray() || !rd.isMap() || n != 4) fail("concurrent-misses", fmt("%d refusals of 4", n)); return {}; }
        case kBuffer: { std::string o = bytes_of(*s.buffer); auto v = s.buffer->to_vector_copy(); o.append(reinterpret_cast<const char*>(v.data()), v.size()); const D b(s.buffer->buf()); Comparer<PP> c; c.key = "concurrent-buffer"; c.sign_free = !Tr<PP>::exact_sign; c.compare(b, s.doc); return o; }
        case kList: if (s.sh) { const D& l = *s.sh->list_reader; auto& a = s.sh->list.a; Comparer<PP> c; c.key = "concurrent-list"; c.sign_free = !Tr<PP>::exact_sign;
            if (r.chance(50)) { for (size_t i = 0; i < a.size(); ++i) { const auto e = l[i]; c.compare(e, a[i]); } } else for (int k = 0; k < 20; ++k) { size_t i = r.below(a.size()); const auto e = l[i]; c.compare(e, a[i]); }
            if (l.arraySize() != a.size()) fail("concurrent-list", "array size differs"); } return {};
        case kSharedSub: if (s.sh) for (int k = 0; k < 4; ++k) { auto& [sub, v] = s.sh->subs[r.below(s.sh->subs.size())]; Comparer<PP> c; c.key = "concurrent-shared-sub-value"; c.sign_free = !Tr<PP>::exact_sign; c.compare(*sub, *v); } return {};
        case kSharedKeys: if (s.sh) { std::string o; for (int pass = 0; pass < 3; ++pass) for (std::string_view k : *s.sh->keys) { o += k; o += '|'; } return o; } return {};
        case kSharedView: if (s.sh) { const auto& v = *s.sh->view; auto t = v.tensor(); auto a = v.array(); if (t.size() != s.elems.size() || a.size() != s.elems.size() || v.viewInfo().byte_size != 8 * s.elems.size()) fail("concurrent-view", "tensor view differs"); for (size_t i = 0; i < s.elems.size(); ++i) if (!same_bits(double(t.data()[i]), s.elems[i]) || !same_bits(double(a.data()[i]), s.elems[i])) fail("concurrent-view", "tensor element differs");
            if (s.sh->mview) { auto m = s.sh->mview->map(); auto n = s.sh->mview->matrix(); for (size_t i = 0; i < s.elems.size(); ++i) if (!same_bits(double(m.data()[i]), s.elems[i]) || !same_bits(double(n.data()[i]), s.elems[i])) fail("concurrent-view", "matrix element differs"); } } return {};
        case kText: { std::string o = rd.to_string() + '|' + rd[std::string_view("n")].to_string() + '|' + s.buffer->hexdump() + s.buffer->to_string() + s.buffer->to_debug_string(); if (s.sh) o += s.sh->subs[0].first->to_string(); return o; }
        case kRefusals: { std::string o; auto no = [&](auto&& f) { try { f(); fail("concurrent-refusal", "a read that must be refused was not"); } catch (const DeserializationError& e) { o += e.what(); o += '|'; } }; std::string mine = "missing " + std::to_string(r.next());
            auto no_quiet = [&](auto&& f) { try { f(); fail("concurrent-refusal", "a read that must be refused was not"); } catch (const DeserializationError&) {} };
            for (int k = 0; k < 3; ++k) { no([&] { (void)rd["absent"]; }); no([&] { (void)rd[std::string_view("s")].asInt64(); }); no([&] { (void)rd[std::string_view("n")][size_t(77)]; }); no([&] { (void)rd[std::string_view("n")][size_t(0)].asUInt8(); }); no([&] { (void)rd[std::string_view("n")][size_t(1)].asInt64(); }); no([&] { (void)rd.asBool(); }); no([&] { (void)rd.asStringView(); }); no([&] { (void)rd.arraySize(); }); no([&] { (void)rd[std::string_view("n")].mapKeys(); }); no_quiet([&] { (void)rd[std::string_view(mine)]; }); }
            return o; }
        case kBadTensor: { std::string o; const auto sub = rd[std::string_view("t")]; const auto txt = rd[std::string_view("s")]; auto no = [&](auto&& f) { try { f(); fail("concurrent-refusal", "a tensor that must be refused was not"); } catch (const DeserializationError& e) { o += e.what(); o += '|'; } };
            no([&] { (void)zx::asXTensorView<float>(sub); }); no([&] { (void)zx::asXTensor<int32_t>(sub); }); no([&] { (void)ze::asEigenMatrix<int64_t, Eigen::Dynamic, Eigen::Dynamic>(sub); }); no([&] { (void)zx::asXTensorView<double>(txt); }); no([&] { (void)zx::asXTensor<double, 5>(sub); }); return o; }
        case kBase64: for (int k = 0; k < 6; ++k) { std::string x; size_t len = r.below(60); for (size_t i = 0; i < len; ++i) x += char(r.next()); std::string e = z::base64Encode(std::span<const std::byte>(reinterpret_cast<const std::byte*>(x.data()), x.size())); if (e != ref::b64(x)) fail("concurrent-base64", "base64 text differs"); auto d = z::base64Decode(e); if (blob_sv(d) != x) fail("concurrent-base64", "base64 bytes differ"); try { (void)z::base64Decode("ab*d"); fail("concurrent-base64", "bad base64 accepted"); } catch (const std::exception&) {} } return {};
        case kMisuse: { int n = 0; auto no = [&](auto&& f) { try { f(); } catch (const std::exception&) { ++n; } };
            no([&] { typename PP::RootSerializer rs; typename PP::Serializer w(rs); w.begin_map(2); w.key("k"); if (r.chance(50)) throw std::runtime_error("user"); w.begin_array(1); w.string("left open"); });
            no([&] { z::Zera::RootSerializer rs; z::Zera::Serializer w(rs); w.begin_map(1); w.key(std::string(70000, 'k')); }); no([&] { z::Zera::RootSerializer rs; z::Zera::Serializer w(rs); w.begin_array(1); w.end_map(); }); no([&] { z::Flex::RootSerializer rs; z::Flex::Serializer w(rs); w.begin_map(1); w.key(std::string_view("a\0b", 3)); w.null(); w.end_map(); (void)rs.finish(); });
            if (n < 3) fail("concurrent-misuse", "a misuse was not refused"); return {}; }
        case kCorrupt: for (int k = 0; k < 4; ++k) { if (std::string_view(Tr<PP>::name) == "Flex") return {}; ref::Bytes m(s.msg.begin(), s.msg.begin() + long(r.below(s.msg.size()))); if (!m.empty() && r.chance(70)) m[r.below(m.size())] = uint8_t(r.next()); try { with_reader<PP>(m, int(r.below(uint64_t(Tr<PP>::ctors))), [&](const auto& own) { (void)own.isMap(); (void)own.contains("t"); for (std::string_view key : own.mapKeys()) (void)key.size(); (void)own["n"][size_t(0)].asInt64(); (void)own["s"].asStringView(); return 0; }); } catch (const DeserializationError&) {} } return {};
        case kErased: return bytes_of(write<PP>(s.doc, 3)) + bytes_of(write<PP>(s.doc, 4));
    }
    (void)deep; return {};
}

static void one(uint64_t, Rng& r) {
    static bool first = true; bool fresh = first; first = false;
    Common s; GenOpts o = common_opts(); o.max_depth = 4;
    Val tree = Gen(r, o).tree(); for (int tries = 0; stats(tree).nodes > 120 && tries < 20; ++tries) tree = Gen(r, o).tree(); if (stats(tree).nodes > 120 || stats(tree).bytes > 20000) tree = Val::arr({Val::str("small")});
    s.shape = rand_shape(r, fresh ? 2 : 1 + r.below(3), 40); s.elems = rand_elems<double>(r, product(s.shape));
    Val dims = Val::arr(); for (size_t d : s.shape) dims.a.push_back(Val::uinteger(d));
    std::string payload(reinterpret_cast<const char*>(s.elems.data()), s.elems.size() * 8);
    s.doc = Val::map({{"doc", tree}, {"t", Val::arr({Val::integer(11), dims, Val::blob(payload)})}, {"s", Val::str(Gen(r, o).content(r.below(200), true, false))}, {"b", Val::blob(Gen(r, o).content(r.below(90), false, false))},
                      {"n", Val::arr({Val::integer(INT64_MIN), Val::uinteger(UINT64_MAX), Val::dbl(0.1), Val::null(), Val::boolean(true), Val::str("")})}, {"m", Val::map({{"k", Val::map()}, {"l", Val::arr()}})}});
    note(text(s.doc));
    s.msg = foreign<P>(s.doc, r);
    z::dyn::Value dyn = to_dyn(s.doc); auto tensor = xt::xarray<double>::from_shape(s.shape); std::copy(s.elems.begin(), s.elems.end(), tensor.storage().begin()); Eigen::Matrix<float, 2, 3> mat; mat.setConstant(1.5f);
    s.dyn = &dyn; s.tensor = &tensor; s.mat = &mat; s.words = {{"a", {"x", "yy"}}, {"", {}}}; s.nums = {1, 2.5}; s.blob.assign(20, std::byte(7));
    std::unique_ptr<D> reader; // over a view or owning its bytes
    std::span<const uint8_t> sp(s.msg);
    if constexpr (Tr<P>::json) reader = std::make_unique<D>(sp); else if (r.chance(50)) reader = std::make_unique<D>(sp); else reader = std::make_unique<D>(std::vector<uint8_t>(s.msg));
    s.reader = reader.get();
    z::ZBuffer buffer(std::vector<uint8_t>(s.msg)); s.buffer = &buffer;

    AllThreads sh; std::unique_ptr<const Sub> tsub;
    if (!fresh) {
        sh.list = Val::arr(); size_t len = 3 + r.below(40); for (size_t i = 0; i < len; ++i) sh.list.a.push_back(r.chance(70) ? Val::integer(int64_t(r.next())) : r.chance(50) ? Val::str("element " + std::to_string(i)) : Val::arr({Val::integer(int64_t(i)), Val::map({{"k", Val::integer(int64_t(i))}})}));
        sh.list_msg = foreign<P>(sh.list, r, false); std::span<const uint8_t> ls(sh.list_msg); sh.list_reader = std::make_unique<D>(ls);
        for (auto& [k, v] : s.doc.m) sh.subs.emplace_back(std::unique_ptr<const Sub>(new Sub((*s.reader)[std::string_view(k)])), &v);
        if (r.chance(50)) sh.keys.emplace(s.reader->mapKeys()); else sh.keys.emplace(sh.subs.back().first->mapKeys());
        tsub.reset(new Sub((*s.reader)[std::string_view("t")])); const Sub& ts = *tsub; sh.view.emplace(zx::asXTensorView<double>(ts)); if (s.shape.size() == 2) sh.mview.emplace(ze::asEigenMatrixView<double, Eigen::Dynamic, Eigen::Dynamic, false, Eigen::RowMajor>(ts));
        s.sh = &sh; CNT("objects shared by all threads") += 4 + sh.subs.size();
    }
    const int n = int(2 + r.below(4)); const int ops = fresh ? 8 : int(2 + r.below(6));
    struct Done { int op; std::string out; uint64_t at; };
    std::vector<std::vector<Done>> log(static_cast<size_t>(n)); std::vector<std::vector<int>> plan(static_cast<size_t>(n));
    int common = int(r.below(kOps)); bool same_op = fresh || r.chance(40); // all threads start with the same operation, or with anything
    for (auto& p : plan) for (int k = 0; k < ops; ++k) p.push_back(same_op && (k == 0) ? common : int(r.below(kOps)));
    std::atomic<uint64_t> seq{0}; std::atomic<int> waiting{0}; std::vector<std::thread> th; uint64_t base = r.next();
    for (int t = 0; t < n; ++t) th.emplace_back([&, t] {
        Rng mine(base + uint64_t(t)); auto& l = log[size_t(t)];
        waiting.fetch_add(1, std::memory_order_relaxed); while (waiting.load(std::memory_order_relaxed) < n) std::this_thread::yield();
        for (int op : plan[size_t(t)]) {
            if (mine.one_in(4)) { volatile int x = 0; for (uint64_t i = 0, m = mine.below(3000); i < m; ++i) x = x + 1; } // injected delay
            uint64_t at = seq.fetch_add(1, std::memory_order_relaxed);
            try { l.push_back({op, do_op<P>(op, s, mine, false), at}); }
            catch (const std::exception& e) { fail("concurrent-threw", std::string(Tr<P>::name) + " " + kName[op] + " threw among threads: " + e.what()); }
        }
    });
    for (auto& t : th) t.join();
    // The sequential run, afterwards.
    std::vector<int> order(size_t(seq.load()), -1); uint64_t h = 17;
    std::map<int, std::string> want;
    for (size_t t = 0; t < log.size(); ++t) for (auto& d : log[t]) {
        order[size_t(d.at)] = int(t) * 100 + d.op; if (d.out.empty()) continue;
        auto it = want.find(d.op); if (it == want.end()) { Rng any(1); it = want.emplace(d.op, do_op<P>(d.op, s, any, false)).first; }
        if (d.out != it->second) fail("concurrent-result", std::string(Tr<P>::name) + " " + kName[d.op] + ": a thread obtained another result than the sequential run");
        CNT("thread results compared with a sequential run") += 1;
    }
    for (int x : order) h = mix(h ^ uint64_t(x)); bool mixed = false; for (size_t i = 2; i < order.size(); ++i) if (order[i] / 100 == order[i - 2] / 100 && order[i] / 100 != order[i - 1] / 100) mixed = true;
    if (mixed) CNT("schedules with interleaved threads") += 1;
    CNT("concurrent operations") += order.size(); for (auto& p : plan) for (int op : p) count(std::string("concurrent: ") + kName[op]);
    if (fresh) CNT("first uses in a process made concurrently") += 1;
    covered(h, true);
    if (r.one_in(60)) { std::string t; for (int x : order) t += fmt("T%d:%s ", x / 100, kName[x % 100]); sample(std::string(Tr<P>::name) + " " + t); }
}
int main(int c, char** v) { return main_loop(c, v, "c10-" VZ_PNAME, one); }
