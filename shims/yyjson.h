// Stand-in for yyjson (not installed here): the documented behaviour of the subset of the
// API that zerialize's JSON protocol uses, and its neighbours. Written from yyjson's
// documentation: strict RFC 8259 reading with UTF-8 validation, integers that fit as
// uint/sint, everything else as real, `strn`/`str` keep the caller's pointer (no copy),
// `strncpy`/`strcpy` copy, writing fails (NULL) on invalid UTF-8 and on NaN/Inf.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstddef>
#include <charconv>
#include <cmath>

#define YYJSON_VERSION_MAJOR 0
#define YYJSON_VERSION_MINOR 12
#define YYJSON_VERSION_PATCH 0
#define YYJSON_VERSION_HEX 0x000C00

typedef uint8_t yyjson_type;
typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
#define YYJSON_TYPE_NONE ((uint8_t)0)
#define YYJSON_TYPE_RAW  ((uint8_t)1)
#define YYJSON_TYPE_NULL ((uint8_t)2)
#define YYJSON_TYPE_BOOL ((uint8_t)3)
#define YYJSON_TYPE_NUM  ((uint8_t)4)
#define YYJSON_TYPE_STR  ((uint8_t)5)
#define YYJSON_TYPE_ARR  ((uint8_t)6)
#define YYJSON_TYPE_OBJ  ((uint8_t)7)
static constexpr yyjson_read_flag YYJSON_READ_NOFLAG = 0;
static constexpr yyjson_write_flag YYJSON_WRITE_NOFLAG = 0;
static constexpr yyjson_write_flag YYJSON_WRITE_PRETTY = 1;

namespace yyshim {
enum Sub : uint8_t { NONE = 0, FALSE_ = 0, TRUE_ = 1, UINT = 0, SINT = 1, REAL = 2 };
struct Val {
    uint8_t type = 0, sub = 0;
    uint64_t u = 0; int64_t i = 0; double d = 0;
    const char* s = nullptr; size_t len = 0; // string: bytes; container: number of values / pairs
    Val* first = nullptr; Val* last = nullptr; // children (objects: key, value, key, value...)
    Val* next = nullptr;
    Val* parent = nullptr;
};
struct Chunk { Chunk* next; };
struct Pool {
    Chunk* head = nullptr;
    void* get(size_t n) {
        auto* c = static_cast<Chunk*>(std::malloc(sizeof(Chunk) + 8 + n));
        if (!c) return nullptr;
        c->next = head; head = c;
        return reinterpret_cast<char*>(c) + sizeof(Chunk) + 8;
    }
    void clear() { while (head) { auto* n = head->next; std::free(head); head = n; } }
};
template<class V> V* mk(Pool& p) { void* m = p.get(sizeof(V)); if (!m) return nullptr; return new (m) V(); }

struct Buf { // malloc'ed growing text; ok=false after an allocation failure
    char* p = nullptr; size_t n = 0, cap = 0; bool ok = true;
    void put(const char* s, size_t k) {
        if (!ok) return;
        if (n + k + 1 > cap) {
            size_t nc = (n + k + 1) * 2;
            char* np = static_cast<char*>(std::realloc(p, nc));
            if (!np) { ok = false; return; }
            p = np; cap = nc;
        }
        if (k) std::memcpy(p + n, s, k);
        n += k; p[n] = 0;
    }
    void put(char c) { put(&c, 1); }
};

inline size_t utf8_len(const unsigned char* p, const unsigned char* e) { // 0: invalid
    if (p[0] < 0x80) return 1;
    if (p[0] >= 0xC2 && p[0] <= 0xDF) return (e - p >= 2 && (p[1] & 0xC0) == 0x80) ? 2 : 0;
    if (p[0] >= 0xE0 && p[0] <= 0xEF) {
        if (e - p < 3 || (p[1] & 0xC0) != 0x80 || (p[2] & 0xC0) != 0x80) return 0;
        if (p[0] == 0xE0 && p[1] < 0xA0) return 0;
        if (p[0] == 0xED && p[1] > 0x9F) return 0;
        return 3;
    }
    if (p[0] >= 0xF0 && p[0] <= 0xF4) {
        if (e - p < 4 || (p[1] & 0xC0) != 0x80 || (p[2] & 0xC0) != 0x80 || (p[3] & 0xC0) != 0x80) return 0;
        if (p[0] == 0xF0 && p[1] < 0x90) return 0;
        if (p[0] == 0xF4 && p[1] > 0x8F) return 0;
        return 4;
    }
    return 0;
}

struct Parser {
    const unsigned char* p; const unsigned char* e; Pool& pool;
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    static int hex(unsigned char c) {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        if (c >= 'A' && c <= 'F') return c - 'A' + 10;
        return -1;
    }
    bool u16(unsigned& out) {
        if (e - p < 4) return false;
        out = 0;
        for (int k = 0; k < 4; ++k) { int h = hex(*p++); if (h < 0) return false; out = out * 16 + unsigned(h); }
        return true;
    }
    bool str(Val* v) { // at the opening quote
        ++p;
        const unsigned char* q = p;
        while (q < e && *q != '"') q += (*q == '\\' && q + 1 < e) ? 2 : 1;
        if (q >= e) return false;
        char* out = static_cast<char*>(pool.get(size_t(q - p) + 1));
        if (!out) return false;
        size_t n = 0;
        for (;;) {
            if (p >= e) return false;
            unsigned char c = *p;
            if (c == '"') { ++p; break; }
            if (c < 0x20) return false;
            if (c != '\\') {
                size_t k = utf8_len(p, e);
                if (!k) return false;
                std::memcpy(out + n, p, k); n += k; p += k;
                continue;
            }
            ++p; if (p >= e) return false;
            c = *p++;
            switch (c) {
                case '"': out[n++] = '"'; break; case '\\': out[n++] = '\\'; break; case '/': out[n++] = '/'; break;
                case 'b': out[n++] = '\b'; break; case 'f': out[n++] = '\f'; break; case 'n': out[n++] = '\n'; break;
                case 'r': out[n++] = '\r'; break; case 't': out[n++] = '\t'; break;
                case 'u': {
                    unsigned a; if (!u16(a)) return false;
                    uint32_t cp = a;
                    if (a >= 0xD800 && a <= 0xDBFF) {
                        if (e - p < 6 || p[0] != '\\' || p[1] != 'u') return false;
                        p += 2; unsigned b; if (!u16(b)) return false;
                        if (b < 0xDC00 || b > 0xDFFF) return false;
                        cp = 0x10000 + ((a - 0xD800) << 10) + (b - 0xDC00);
                    } else if (a >= 0xDC00 && a <= 0xDFFF) return false;
                    if (cp < 0x80) out[n++] = char(cp);
                    else if (cp < 0x800) { out[n++] = char(0xC0 | (cp >> 6)); out[n++] = char(0x80 | (cp & 63)); }
                    else if (cp < 0x10000) { out[n++] = char(0xE0 | (cp >> 12)); out[n++] = char(0x80 | ((cp >> 6) & 63)); out[n++] = char(0x80 | (cp & 63)); }
                    else { out[n++] = char(0xF0 | (cp >> 18)); out[n++] = char(0x80 | ((cp >> 12) & 63)); out[n++] = char(0x80 | ((cp >> 6) & 63)); out[n++] = char(0x80 | (cp & 63)); }
                    break;
                }
                default: return false;
            }
        }
        out[n] = 0;
        v->type = YYJSON_TYPE_STR; v->s = out; v->len = n;
        return true;
    }
    bool num(Val* v) {
        const unsigned char* b = p; bool neg = false;
        if (*p == '-') { neg = true; ++p; }
        if (p >= e || *p < '0' || *p > '9') return false;
        if (*p == '0') ++p; else while (p < e && *p >= '0' && *p <= '9') ++p;
        bool real = false;
        if (p < e && *p == '.') { real = true; ++p; if (p >= e || *p < '0' || *p > '9') return false; while (p < e && *p >= '0' && *p <= '9') ++p; }
        if (p < e && (*p == 'e' || *p == 'E')) {
            real = true; ++p; if (p < e && (*p == '+' || *p == '-')) ++p;
            if (p >= e || *p < '0' || *p > '9') return false;
            while (p < e && *p >= '0' && *p <= '9') ++p;
        }
        const char* c0 = reinterpret_cast<const char*>(b); const char* c1 = reinterpret_cast<const char*>(p);
        v->type = YYJSON_TYPE_NUM;
        if (!real) {
            if (!neg) {
                auto r = std::from_chars(c0, c1, v->u);
                if (r.ec == std::errc()) { v->sub = UINT; v->i = int64_t(v->u); return true; }
            } else {
                auto r = std::from_chars(c0, c1, v->i);
                if (r.ec == std::errc()) { v->sub = SINT; v->u = uint64_t(v->i); return true; }
            }
        }
        auto r = std::from_chars(c0, c1, v->d);
        v->sub = REAL;
        if (r.ec == std::errc::result_out_of_range) {
            // underflow reads as zero, overflow is an error
            char tmp[64]; size_t n = size_t(c1 - c0) < 63 ? size_t(c1 - c0) : 63;
            std::memcpy(tmp, c0, n); tmp[n] = 0;
            double z = std::strtod(tmp, nullptr);
            if (!std::isfinite(z)) return false;
            v->d = z;
        }
        return true;
    }
    Val* run() {
        Val* root = nullptr; Val* cur = nullptr;
        auto attach = [&](Val* v) {
            if (!cur) { root = v; return; }
            v->parent = cur;
            if (cur->last) cur->last->next = v; else cur->first = v;
            cur->last = v;
        };
        for (;;) { // expects a value
            ws();
            if (p >= e) return nullptr;
            Val* v = mk<Val>(pool); if (!v) return nullptr;
            unsigned char c = *p;
            bool opened = false;
            if (c == '{' || c == '[') {
                v->type = c == '{' ? YYJSON_TYPE_OBJ : YYJSON_TYPE_ARR;
                ++p; attach(v); if (cur) cur->len++; cur = v; ws();
                if (p < e && *p == (c == '{' ? '}' : ']')) { /* closed below */ }
                else opened = true;
            } else {
                if (c == '"') { if (!str(v)) return nullptr; }
                else if (c == '-' || (c >= '0' && c <= '9')) { if (!num(v)) return nullptr; }
                else if (e - p >= 4 && !std::memcmp(p, "null", 4)) { v->type = YYJSON_TYPE_NULL; p += 4; }
                else if (e - p >= 4 && !std::memcmp(p, "true", 4)) { v->type = YYJSON_TYPE_BOOL; v->sub = TRUE_; p += 4; }
                else if (e - p >= 5 && !std::memcmp(p, "false", 5)) { v->type = YYJSON_TYPE_BOOL; v->sub = FALSE_; p += 5; }
                else return nullptr;
                attach(v); if (cur) cur->len++;
            }
            if (!opened) { // close as many containers as end here, then find the next value
                for (;;) {
                    ws();
                    if (!cur) { ws(); return p == e ? root : nullptr; }
                    if (p >= e) return nullptr;
                    if (*p == (cur->type == YYJSON_TYPE_OBJ ? '}' : ']') ) { ++p; cur = cur->parent; continue; }
                    if (*p == ',') { ++p; ws(); opened = true; break; }
                    return nullptr;
                }
            }
            if (cur && cur->type == YYJSON_TYPE_OBJ) { // key first
                ws();
                if (p >= e || *p != '"') return nullptr;
                Val* k = mk<Val>(pool); if (!k || !str(k)) return nullptr;
                attach(k); ws();
                if (p >= e || *p != ':') return nullptr;
                ++p;
            }
        }
    }
};

inline bool write_str(Buf& b, const Val* v) {
    b.put('"');
    auto* p = reinterpret_cast<const unsigned char*>(v->s); auto* e = p + v->len;
    while (p < e) {
        unsigned char c = *p;
        if (c == '"' || c == '\\') { b.put('\\'); b.put(char(c)); ++p; }
        else if (c < 0x20) {
            const char* t = nullptr;
            switch (c) { case '\b': t = "\\b"; break; case '\f': t = "\\f"; break; case '\n': t = "\\n"; break; case '\r': t = "\\r"; break; case '\t': t = "\\t"; break; }
            if (t) b.put(t, 2);
            else { static const char* H = "0123456789ABCDEF"; char x[6] = {'\\','u','0','0',H[c >> 4],H[c & 15]}; b.put(x, 6); }
            ++p;
        } else {
            size_t k = utf8_len(p, e);
            if (!k) return false;
            b.put(reinterpret_cast<const char*>(p), k); p += k;
        }
    }
    b.put('"');
    return true;
}
inline char* write(const Val* v, bool pretty, size_t* len) {
    Buf b; bool good = v != nullptr;
    size_t depth = 0;
    auto nl = [&] { if (pretty) { b.put('\n'); for (size_t i = 0; i < depth; ++i) b.put("    ", 4); } };
    const Val* top = v; bool is_key = false;
    while (good && v) {
        bool descended = false;
        switch (v->type) {
            case YYJSON_TYPE_NULL: b.put("null", 4); break;
            case YYJSON_TYPE_BOOL: v->sub ? b.put("true", 4) : b.put("false", 5); break;
            case YYJSON_TYPE_NUM: {
                char t[64];
                if (v->sub == REAL) {
                    if (!std::isfinite(v->d)) { good = false; break; }
                    auto r = std::to_chars(t, t + 60, v->d);
                    bool plain = true;
                    for (char* q = t; q < r.ptr; ++q) if (*q == '.' || *q == 'e') plain = false;
                    b.put(t, size_t(r.ptr - t)); if (plain) b.put(".0", 2);
                } else {
                    auto r = v->sub == SINT ? std::to_chars(t, t + 60, v->i) : std::to_chars(t, t + 60, v->u);
                    b.put(t, size_t(r.ptr - t));
                }
                break;
            }
            case YYJSON_TYPE_STR: if (!write_str(b, v)) good = false; break;
            case YYJSON_TYPE_ARR: case YYJSON_TYPE_OBJ:
                b.put(v->type == YYJSON_TYPE_ARR ? '[' : '{');
                if (v->first) { ++depth; nl(); is_key = v->type == YYJSON_TYPE_OBJ; v = v->first; descended = true; }
                else b.put(v->type == YYJSON_TYPE_ARR ? ']' : '}');
                break;
            default: good = false;
        }
        if (!good || descended) continue;
        for (;;) { // next value
            if (v == top) { v = nullptr; break; }
            const Val* par = v->parent;
            if (par->type == YYJSON_TYPE_OBJ && is_key) { b.put(':'); if (pretty) b.put(' '); is_key = false; v = v->next; break; }
            if (v->next) { b.put(','); nl(); is_key = par->type == YYJSON_TYPE_OBJ; v = v->next; break; }
            --depth; nl(); b.put(par->type == YYJSON_TYPE_ARR ? ']' : '}');
            v = par;
            is_key = false;
        }
    }
    if (!good || !b.ok) { std::free(b.p); if (len) *len = 0; return nullptr; }
    if (len) *len = b.n;
    return b.p;
}
} // namespace yyshim

struct yyjson_val : yyshim::Val {};
struct yyjson_mut_val : yyshim::Val {};
struct yyjson_doc { yyshim::Pool pool; yyjson_val* root = nullptr; };
struct yyjson_mut_doc { yyshim::Pool pool; yyjson_mut_val* root = nullptr; };
struct yyjson_alc;
struct yyjson_read_err { uint32_t code; const char* msg; size_t pos; };
struct yyjson_write_err { uint32_t code; const char* msg; };

// ---- reading ----
inline void yyjson_doc_free(yyjson_doc* d) { if (d) { d->pool.clear(); d->~yyjson_doc(); std::free(d); } }
inline yyjson_doc* yyjson_read_opts(char* dat, size_t len, yyjson_read_flag, const yyjson_alc*, yyjson_read_err* err) {
    if (err) *err = {0, "", 0};
    if (!dat || !len) { if (err) err->code = 1; return nullptr; }
    void* m = std::malloc(sizeof(yyjson_doc));
    if (!m) { if (err) err->code = 2; return nullptr; }
    auto* d = new (m) yyjson_doc();
    yyshim::Parser ps{reinterpret_cast<const unsigned char*>(dat), reinterpret_cast<const unsigned char*>(dat) + len, d->pool};
    d->root = static_cast<yyjson_val*>(ps.run());
    if (!d->root) { yyjson_doc_free(d); if (err) { err->code = 3; err->msg = "invalid"; } return nullptr; }
    return d;
}
inline yyjson_doc* yyjson_read(const char* dat, size_t len, yyjson_read_flag f) { return yyjson_read_opts(const_cast<char*>(dat), len, f, nullptr, nullptr); }
inline yyjson_val* yyjson_doc_get_root(yyjson_doc* d) { return d ? d->root : nullptr; }

#define YYSHIM_PREDS(pre, V) \
inline bool pre##is_null(const V* v) { return v && v->type == YYJSON_TYPE_NULL; } \
inline bool pre##is_bool(const V* v) { return v && v->type == YYJSON_TYPE_BOOL; } \
inline bool pre##is_true(const V* v) { return v && v->type == YYJSON_TYPE_BOOL && v->sub; } \
inline bool pre##is_false(const V* v) { return v && v->type == YYJSON_TYPE_BOOL && !v->sub; } \
inline bool pre##is_num(const V* v) { return v && v->type == YYJSON_TYPE_NUM; } \
inline bool pre##is_uint(const V* v) { return v && v->type == YYJSON_TYPE_NUM && v->sub == yyshim::UINT; } \
inline bool pre##is_sint(const V* v) { return v && v->type == YYJSON_TYPE_NUM && v->sub == yyshim::SINT; } \
inline bool pre##is_int(const V* v) { return v && v->type == YYJSON_TYPE_NUM && v->sub != yyshim::REAL; } \
inline bool pre##is_real(const V* v) { return v && v->type == YYJSON_TYPE_NUM && v->sub == yyshim::REAL; } \
inline bool pre##is_str(const V* v) { return v && v->type == YYJSON_TYPE_STR; } \
inline bool pre##is_arr(const V* v) { return v && v->type == YYJSON_TYPE_ARR; } \
inline bool pre##is_obj(const V* v) { return v && v->type == YYJSON_TYPE_OBJ; } \
inline bool pre##is_ctn(const V* v) { return v && v->type >= YYJSON_TYPE_ARR; } \
inline yyjson_type pre##get_type(const V* v) { return v ? v->type : YYJSON_TYPE_NONE; } \
inline uint8_t pre##get_subtype(const V* v) { return v ? uint8_t(v->sub << 3) : 0; } \
inline uint8_t pre##get_tag(const V* v) { return v ? uint8_t(v->type | (v->sub << 3)) : 0; } \
inline bool pre##get_bool(const V* v) { return pre##is_bool(v) && v->sub; } \
inline uint64_t pre##get_uint(const V* v) { return pre##is_int(v) ? v->u : 0; } \
inline int64_t pre##get_sint(const V* v) { return pre##is_int(v) ? v->i : 0; } \
inline int pre##get_int(const V* v) { return pre##is_int(v) ? int(v->i) : 0; } \
inline double pre##get_real(const V* v) { return pre##is_real(v) ? v->d : 0.0; } \
inline double pre##get_num(const V* v) { return !pre##is_num(v) ? 0.0 : v->sub == yyshim::REAL ? v->d : v->sub == yyshim::SINT ? double(v->i) : double(v->u); } \
inline const char* pre##get_str(const V* v) { return pre##is_str(v) ? v->s : nullptr; } \
inline size_t pre##get_len(const V* v) { return v ? v->len : 0; } \
inline bool pre##equals_strn(const V* v, const char* s, size_t n) { return pre##is_str(v) && s && v->len == n && std::memcmp(v->s, s, n) == 0; } \
inline bool pre##equals_str(const V* v, const char* s) { return s && pre##equals_strn(v, s, std::strlen(s)); } \
inline size_t pre##arr_size(const V* v) { return pre##is_arr(v) ? v->len : 0; } \
inline size_t pre##obj_size(const V* v) { return pre##is_obj(v) ? v->len : 0; } \
inline V* pre##arr_get(const V* v, size_t i) { if (!pre##is_arr(v) || i >= v->len) return nullptr; auto* c = v->first; while (i--) c = c->next; return static_cast<V*>(c); } \
inline V* pre##arr_get_first(const V* v) { return pre##is_arr(v) ? static_cast<V*>(v->first) : nullptr; } \
inline V* pre##arr_get_last(const V* v) { return pre##is_arr(v) ? static_cast<V*>(v->last) : nullptr; } \
inline V* pre##obj_getn(const V* v, const char* k, size_t n) { \
    if (!pre##is_obj(v) || !k) return nullptr; \
    for (auto* c = v->first; c; c = c->next->next) if (c->len == n && std::memcmp(c->s, k, n) == 0) return static_cast<V*>(c->next); \
    return nullptr; } \
inline V* pre##obj_get(const V* v, const char* k) { return k ? pre##obj_getn(v, k, std::strlen(k)) : nullptr; }
YYSHIM_PREDS(yyjson_, yyjson_val)
YYSHIM_PREDS(yyjson_mut_, yyjson_mut_val)

struct yyjson_arr_iter { size_t idx = 0, max = 0; yyjson_val* cur = nullptr; };
inline bool yyjson_arr_iter_init(const yyjson_val* a, yyjson_arr_iter* it) { if (!it) return false; *it = {}; if (!yyjson_is_arr(a)) return false; it->max = a->len; it->cur = static_cast<yyjson_val*>(a->first); return true; }
inline yyjson_arr_iter yyjson_arr_iter_with(const yyjson_val* a) { yyjson_arr_iter it; yyjson_arr_iter_init(a, &it); return it; }
inline bool yyjson_arr_iter_has_next(yyjson_arr_iter* it) { return it && it->idx < it->max; }
inline yyjson_val* yyjson_arr_iter_next(yyjson_arr_iter* it) { if (!yyjson_arr_iter_has_next(it)) return nullptr; auto* v = it->cur; it->cur = static_cast<yyjson_val*>(v->next); it->idx++; return v; }
struct yyjson_obj_iter { size_t idx = 0, max = 0; yyjson_val* cur = nullptr; yyjson_val* obj = nullptr; };
inline bool yyjson_obj_iter_init(const yyjson_val* o, yyjson_obj_iter* it) { if (!it) return false; *it = {}; if (!yyjson_is_obj(o)) return false; it->max = o->len; it->cur = static_cast<yyjson_val*>(o->first); it->obj = const_cast<yyjson_val*>(o); return true; }
inline yyjson_obj_iter yyjson_obj_iter_with(const yyjson_val* o) { yyjson_obj_iter it; yyjson_obj_iter_init(o, &it); return it; }
inline bool yyjson_obj_iter_has_next(yyjson_obj_iter* it) { return it && it->idx < it->max; }
inline yyjson_val* yyjson_obj_iter_next(yyjson_obj_iter* it) { if (!yyjson_obj_iter_has_next(it)) return nullptr; auto* k = it->cur; it->cur = static_cast<yyjson_val*>(k->next->next); it->idx++; return k; }
inline yyjson_val* yyjson_obj_iter_get_val(yyjson_val* key) { return key ? static_cast<yyjson_val*>(key->next) : nullptr; }
#define yyjson_arr_foreach(arr, idx, max, val) for ((idx) = 0, (max) = yyjson_arr_size(arr), (val) = yyjson_arr_get_first(arr); (idx) < (max); (idx)++, (val) = static_cast<yyjson_val*>((val)->next))

inline char* yyjson_val_write(const yyjson_val* v, yyjson_write_flag f, size_t* len) { return yyshim::write(v, f & YYJSON_WRITE_PRETTY, len); }
inline char* yyjson_write(const yyjson_doc* d, yyjson_write_flag f, size_t* len) { return d ? yyshim::write(d->root, f & YYJSON_WRITE_PRETTY, len) : nullptr; }

// ---- building ----
inline yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc*) { void* m = std::malloc(sizeof(yyjson_mut_doc)); return m ? new (m) yyjson_mut_doc() : nullptr; }
inline void yyjson_mut_doc_free(yyjson_mut_doc* d) { if (d) { d->pool.clear(); d->~yyjson_mut_doc(); std::free(d); } }
inline void yyjson_mut_doc_set_root(yyjson_mut_doc* d, yyjson_mut_val* r) { if (d) d->root = r; }
inline yyjson_mut_val* yyjson_mut_doc_get_root(yyjson_mut_doc* d) { return d ? d->root : nullptr; }
namespace yyshim {
inline yyjson_mut_val* mv(yyjson_mut_doc* d, uint8_t t, uint8_t s = 0) { if (!d) return nullptr; auto* v = mk<yyjson_mut_val>(d->pool); if (v) { v->type = t; v->sub = s; } return v; }
}
inline yyjson_mut_val* yyjson_mut_null(yyjson_mut_doc* d) { return yyshim::mv(d, YYJSON_TYPE_NULL); }
inline yyjson_mut_val* yyjson_mut_true(yyjson_mut_doc* d) { return yyshim::mv(d, YYJSON_TYPE_BOOL, 1); }
inline yyjson_mut_val* yyjson_mut_false(yyjson_mut_doc* d) { return yyshim::mv(d, YYJSON_TYPE_BOOL, 0); }
inline yyjson_mut_val* yyjson_mut_bool(yyjson_mut_doc* d, bool b) { return yyshim::mv(d, YYJSON_TYPE_BOOL, b); }
inline yyjson_mut_val* yyjson_mut_uint(yyjson_mut_doc* d, uint64_t n) { auto* v = yyshim::mv(d, YYJSON_TYPE_NUM, yyshim::UINT); if (v) { v->u = n; v->i = int64_t(n); } return v; }
inline yyjson_mut_val* yyjson_mut_sint(yyjson_mut_doc* d, int64_t n) { auto* v = yyshim::mv(d, YYJSON_TYPE_NUM, yyshim::SINT); if (v) { v->i = n; v->u = uint64_t(n); } return v; }
inline yyjson_mut_val* yyjson_mut_int(yyjson_mut_doc* d, int64_t n) { return yyjson_mut_sint(d, n); }
inline yyjson_mut_val* yyjson_mut_real(yyjson_mut_doc* d, double n) { auto* v = yyshim::mv(d, YYJSON_TYPE_NUM, yyshim::REAL); if (v) v->d = n; return v; }
inline yyjson_mut_val* yyjson_mut_double(yyjson_mut_doc* d, double n) { return yyjson_mut_real(d, n); }
inline yyjson_mut_val* yyjson_mut_strn(yyjson_mut_doc* d, const char* s, size_t n) { if (!s) return nullptr; auto* v = yyshim::mv(d, YYJSON_TYPE_STR); if (v) { v->s = s; v->len = n; } return v; }
inline yyjson_mut_val* yyjson_mut_str(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strn(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_strncpy(yyjson_mut_doc* d, const char* s, size_t n) {
    if (!d || !s) return nullptr;
    auto* c = static_cast<char*>(d->pool.get(n + 1)); if (!c) return nullptr;
    std::memcpy(c, s, n); c[n] = 0;
    return yyjson_mut_strn(d, c, n);
}
inline yyjson_mut_val* yyjson_mut_strcpy(yyjson_mut_doc* d, const char* s) { return s ? yyjson_mut_strncpy(d, s, std::strlen(s)) : nullptr; }
inline yyjson_mut_val* yyjson_mut_arr(yyjson_mut_doc* d) { return yyshim::mv(d, YYJSON_TYPE_ARR); }
inline yyjson_mut_val* yyjson_mut_obj(yyjson_mut_doc* d) { return yyshim::mv(d, YYJSON_TYPE_OBJ); }
namespace yyshim { inline void app(Val* p, Val* v) { v->parent = p; v->next = nullptr; if (p->last) p->last->next = v; else p->first = v; p->last = v; } }
inline bool yyjson_mut_arr_append(yyjson_mut_val* a, yyjson_mut_val* v) { if (!yyjson_mut_is_arr(a) || !v) return false; yyshim::app(a, v); a->len++; return true; }
inline bool yyjson_mut_arr_add_val(yyjson_mut_val* a, yyjson_mut_val* v) { return yyjson_mut_arr_append(a, v); }
inline bool yyjson_mut_obj_add(yyjson_mut_val* o, yyjson_mut_val* k, yyjson_mut_val* v) { if (!yyjson_mut_is_obj(o) || !yyjson_mut_is_str(k) || !v) return false; yyshim::app(o, k); yyshim::app(o, v); o->len++; return true; }
inline bool yyjson_mut_obj_add_val(yyjson_mut_doc* d, yyjson_mut_val* o, const char* k, yyjson_mut_val* v) { return yyjson_mut_obj_add(o, yyjson_mut_str(d, k), v); }
inline char* yyjson_mut_write(const yyjson_mut_doc* d, yyjson_write_flag f, size_t* len) { if (len) *len = 0; return d ? yyshim::write(d->root, f & YYJSON_WRITE_PRETTY, len) : nullptr; }
inline char* yyjson_mut_val_write(const yyjson_mut_val* v, yyjson_write_flag f, size_t* len) { return yyshim::write(v, f & YYJSON_WRITE_PRETTY, len); }
