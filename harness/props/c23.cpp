// C23: comparators, status values, arithmetic helpers and version macros against definitions computed in 128-bit arithmetic.
#include "vh.hpp"
#include "macros.h"
#include <set>
#ifdef __SIZEOF_INT128__
typedef __int128 I; typedef unsigned __int128 U;
#else
typedef _BitInt(128) I; typedef unsigned _BitInt(128) U;
#endif
static const u64 LW = 8 * sizeof(long), LM = LW == 64 ? ~(u64)0 : (u64)0xFFFFFFFF;
struct Api { const char* name; int (*compare)(int, int, uint64_t, uint64_t, unsigned char, MacroCmp*); void (*minmax)(int, uint64_t, uint64_t, uint64_t*, uint64_t*); uint64_t (*abs_)(int, uint64_t), (*abs64)(uint64_t); uint64_t (*expr)(int, uint64_t, uint64_t); int (*pow2)(int, uint64_t);
    void (*align)(int, uint64_t, uint64_t, int*, uint64_t*, uint64_t*); uint64_t (*bits)(int, uint64_t); int (*needs)(uint64_t, unsigned); uint64_t (*div64)(uint64_t, uint64_t); uint32_t (*make)(uint32_t, uint32_t, uint32_t); int (*success)(uint32_t); int (*failed)(uint32_t); uint32_t (*module)(uint32_t);
    uint32_t (*code)(uint32_t); uint32_t (*check)(const uint32_t*, int, int*, int*); int (*statuses)(uint32_t*); void (*version)(uint64_t, uint16_t*); void (*version_now)(uint64_t*, uint64_t*, uint16_t*); void (*types)(MacroTypes*); };
#define DECL(S) extern "C" { int m_compare##S(int, int, uint64_t, uint64_t, unsigned char, MacroCmp*); void m_minmax##S(int, uint64_t, uint64_t, uint64_t*, uint64_t*); uint64_t m_abs##S(int, uint64_t), m_abs64##S(uint64_t); uint64_t m_expr##S(int, uint64_t, uint64_t); int m_pow2##S(int, uint64_t); void m_align##S(int, uint64_t, uint64_t, int*, uint64_t*, uint64_t*); \
    uint64_t m_bits##S(int, uint64_t); int m_needs##S(uint64_t, unsigned); uint64_t m_div64##S(uint64_t, uint64_t); uint32_t m_make##S(uint32_t, uint32_t, uint32_t); int m_success##S(uint32_t); int m_failed##S(uint32_t); uint32_t m_module##S(uint32_t); uint32_t m_code##S(uint32_t); uint32_t m_check##S(const uint32_t*, int, int*, int*); int m_statuses##S(uint32_t*); \
    void m_version##S(uint64_t, uint16_t*); void m_version_now##S(uint64_t*, uint64_t*, uint16_t*); void m_types##S(MacroTypes*); }
DECL(_c) DECL(_cpp) DECL(_nl)
#define API(N, S) { N, m_compare##S, m_minmax##S, m_abs##S, m_abs64##S, m_expr##S, m_pow2##S, m_align##S, m_bits##S, m_needs##S, m_div64##S, m_make##S, m_success##S, m_failed##S, m_module##S, m_code##S, m_check##S, m_statuses##S, m_version##S, m_version_now##S, m_types##S }
static const Api apis[3] = { API("C", _c), API("C++", _cpp), API("C without libc", _nl) };

static const int W[8] = { 8, 8, 16, 16, 32, 32, 64, 64 };
static I val(int t, u64 a) { int w = W[t]; U m = ((U)1 << w) - 1; U x = (U)a & m; if ((t & 1) && (x >> (w - 1))) return (I)x - ((I)1 << w); return (I)x; }
static std::string str(I v) { if (v < 0) return "-" + str(-v); std::string s; do { s += (char)('0' + (int)(v % 10)); v /= 10; } while (v); return { s.rbegin(), s.rend() }; }
static const char* TN[] = { "u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "pointer", "bool" };
static u64 value(Rng& r) {
    switch (r.below(7)) { case 0: return r.below(4); case 1: return (u64)0 - r.below(4); case 2: return ((u64)1 << r.below(64)) + r.below(3) - 1; case 3: return r.next(); case 4: return r.next() >> r.below(64); case 5: return ~((u64)1 << r.below(64)); default: return ((u64)r.byte() << r.below(57)) | r.below(2); } }
static u64 related(Rng& r, u64 a) { switch (r.below(6)) { case 0: return a; case 1: return a ^ ((u64)1 << r.below(64)); case 2: return a + 1; case 3: return a - 1; case 4: return ~a; default: return value(r); } }

static void compare(const Api& A, int kind, int type, u64 a, u64 b, u8 noise) {
    MacroCmp c; if (!A.compare(kind, type, a, b, noise, &c)) return;
    I x = type == 8 ? (I)(uintptr_t)a : type == 9 ? (I)(a & 1) : val(type, a), y = type == 8 ? (I)(uintptr_t)b : type == 9 ? (I)(b & 1) : val(type, b); int want = x < y ? -1 : x > y;
    static const char* K[] = { "predefined", "generated", "generated field" };
    REQ(!!c.eq == (want == 0), "equal", "%s (%s): %s equality of %s and %s is %d", A.name, TN[type], K[kind], str(x).c_str(), str(y).c_str(), c.eq);
    REQ((c.cmp < 0 ? -1 : c.cmp > 0) == want, "compare", "%s (%s): %s comparison of %s and %s is %d", A.name, TN[type], K[kind], str(x).c_str(), str(y).c_str(), c.cmp);
    COUNT("comparisons"); if (!want) COUNT("comparisons of equal values"); }
static void arithmetic(const Api& A, int t, u64 a, u64 b) {
    u64 mn, mx; A.minmax(t, a, b, &mn, &mx); I x = val(t, a), y = val(t, b);
    REQ(val(t, mn) == std::min(x, y) && val(t, mx) == std::max(x, y), "minmax", "%s (%s): min/max of %s and %s are %s and %s", A.name, TN[t], str(x).c_str(), str(y).c_str(), str(val(t, mn)).c_str(), str(val(t, mx)).c_str());
    if ((t & 1) && (t < 5 || x != -((I)1 << (W[t] - 1)))) { u64 v = A.abs_(t, a); I want = x < 0 ? -x : x; REQ((I)v == want, "abs", "%s (%s): abs of %s is %llu", A.name, TN[t], str(x).c_str(), (unsigned long long)v); }
    if (t == 7) { U want = (U)(x < 0 ? -x : x); REQ(A.abs64(a) == (u64)want, "abs64", "%s: absolute value of %s is %llu", A.name, str(x).c_str(), (unsigned long long)A.abs64(a)); COUNT("absolute values"); if (x == -((I)1 << 63)) COUNT("absolute values of the smallest number"); }
    if (!(t & 1)) { REQ(A.pow2(t, a) == (__builtin_popcountll((u64)x) < 2), "pow2", "%s (%s): power of two: %s -> %d", A.name, TN[t], str(x).c_str(), A.pow2(t, a));
        u64 al = (u64)1 << (b % W[t]); int is; u64 up, down; A.align(t, a, al, &is, &up, &down); I rem = x % (I)al, wd = x - rem, wu = rem ? wd + (I)al : x;
        REQ(is == (rem == 0), "aligned", "%s (%s): %s aligned to %llu: %d", A.name, TN[t], str(x).c_str(), (unsigned long long)al, is); REQ((I)down == wd, "align-down", "%s (%s): %s aligned down to %llu: %llu", A.name, TN[t], str(x).c_str(), (unsigned long long)al, (unsigned long long)down);
        if (wu < ((I)1 << W[t])) REQ((I)up == wu, "align-up", "%s (%s): %s aligned up to %llu: %llu", A.name, TN[t], str(x).c_str(), (unsigned long long)al, (unsigned long long)up);
        if (t < 6) { int want = x ? 64 - __builtin_clzll((u64)x) : 0; REQ((int)A.bits(t, a) == want, "bits", "%s (%s): bits to represent %s: %llu", A.name, TN[t], str(x).c_str(), (unsigned long long)A.bits(t, a)); }
        unsigned k = (unsigned)(b % LW); REQ(A.needs(a & LM, k) == (((a & LM) >> k) != 0), "needs-bit", "%s: needs bit %u of %llx: %d", A.name, k, (unsigned long long)a, A.needs(a, k)); }
    if (b) REQ(A.div64(a, b) == a / b, "div64", "%s: %llu / %llu", A.name, (unsigned long long)a, (unsigned long long)b);
    COUNT("arithmetic helpers"); }
static void expressions(const Api& A, u64 a, u64 b) {
    u64 al = (u64)1 << (b & 15), o = a | b, h = (a >> 1) | (b >> 1); i64 d = (i64)(a >> 2) - (i64)(b >> 2); u32 s = (u32)a | (u32)b;
    u64 want[13] = { std::min(a ^ b, o), std::max(a & b, a - b), (u64)(d < 0 ? -d : d), (u64)(__builtin_popcountll(o) < 2), (u64)(o % al == 0), (h + al - 1) / al * al, o / al * al, (u64)(s ? 32 - __builtin_clz(s) : 0), (u64)(((o & LM) >> ((b & (LW / 2 - 1)) + (a & (LW / 2 - 1)))) != 0),
        (u64)(((u32)((a & 1) | (b & 1)) << 31) | ((((u32)(a >> 1) | (u32)(b >> 1)) & 0x7FF) << 20) | (((u32)(a >> 20) ^ (u32)b) & 0xFFFFF)), (u64)((s >> 31) ? 2 : 1), (u64)((s >> 20) & 0x7FF), (u64)(s & 0xFFFFF) };
    for (int i = 0; i < 13; ++i) REQ(A.expr(i, a, b) == want[i], "expression", "%s: macro %d applied to expressions of %llx and %llx gives %llx instead of %llx", A.name, i, (unsigned long long)a, (unsigned long long)b, (unsigned long long)A.expr(i, a, b), (unsigned long long)want[i]);
    COUNT("macros applied to expressions"); }
static void status(const Api& A, Rng& r) {
    u32 e = (u32)r.below(2), m = (u32)r.below(0x800), c = (u32)(r.below(3) ? r.below(0x100000) : r.pick({ 0, 1, 0xFFFFF, 0x80000 })), s = A.make(e, m, c);
    trace("status %u/%x/%x", e, m, c);
    REQ(A.module(s) == m && A.code(s) == c, "status-parts", "%s: status from error %u, module %x, code %x gives back module %x, code %x", A.name, e, m, c, A.module(s), A.code(s));
    REQ(A.success(s) == !e && A.failed(s) == (int)e, "status-class", "%s: status %08x: success %d, failed %d", A.name, s, A.success(s), A.failed(s));
    u32 s2 = A.make(e ^ 1, m, c); REQ(s2 != s, "status-distinct", "%s: the error flag does not change status %08x", A.name, s); COUNT("status values"); }
static void check(const Api& A, const u32* st, int shape) {
    int calls, after; u32 res = A.check(st, shape, &calls, &after); const u32 END = 0x00155555; auto bad = [&](int i) { return st[i] >> 31; }; u32 wr = END; int wc = 0, wa = 0;
    switch (shape) { case 0: for (int i = 0; i < 3; ++i) { ++wc; if (bad(i)) { wr = st[i]; break; } wa |= 1 << i; } break; case 1: if (st[3] & 1) { wc = 1; if (bad(0)) { wr = st[0]; break; } } else wa |= 8; wa |= 1; break;
        case 2: for (int i = 0; i < 3 && wr == END; ++i) { ++wc; if (bad(i)) wr = st[i]; } if (wr == END) wa |= 16; break; default: wc = 1; if (bad(0)) wr = st[0]; else wa |= 1; }
    REQ(res == wr && calls == wc && after == wa, "check", "%s: check construct %d on %08x %08x %08x: result %08x, %d evaluations, passed %x; expected %08x, %d, %x", A.name, shape, st[0], st[1], st[2], res, calls, after, wr, wc, wa);
    COUNT("check constructs"); if (wr != END) COUNT("early returns"); }
static void constants(const Api& A) {
    u32 s[40]; int n = A.statuses(s); std::set<u32> seen; for (int i = 0; i < n; ++i) { REQ(seen.insert(s[i]).second, "status-distinct", "%s: predefined status %08x (number %d) occurs twice", A.name, s[i], i); REQ(A.success(s[i]) == (i < 3) && A.failed(s[i]) == (i >= 3), "status-class", "%s: predefined status %08x (number %d) is misclassified", A.name, s[i], i);
        REQ(A.module(s[i]) == (i < 14 ? s[n] : s[n + 1]), "status-module", "%s: predefined status %08x (number %d) has module %x", A.name, s[i], i, A.module(s[i])); }
    REQ(s[n] != s[n + 1] && s[n] < s[n + 2] && s[n + 1] < s[n + 2] && s[n + 2] < 0x800, "modules", "%s: module numbers %x %x %x", A.name, s[n], s[n + 1], s[n + 2]);
    u64 q, v; uint16_t o[4]; A.version_now(&q, &v, o); REQ(q == v, "version", "%s: version query %llx, macro %llx", A.name, (unsigned long long)q, (unsigned long long)v);
    REQ((((u64)o[0] << 48) | ((u64)o[1] << 32) | ((u64)o[2] << 16) | o[3]) == q && q, "version", "%s: version %llx has parts %x %x %x %x", A.name, (unsigned long long)q, o[0], o[1], o[2], o[3]);
    MacroTypes t; A.types(&t); for (int i = 0; i < 12; ++i) { REQ(t.size[i] == (i < 8 ? W[i] / 8 : (int)sizeof(void*)), "type-size", "%s: type %d has %d bytes", A.name, i, t.size[i]); REQ(t.is_signed[i] == (i & 1), "type-sign", "%s: type %d signedness", A.name, i); }
    for (int i = 0; i < 8; ++i) { I lo = (i & 1) ? -((I)1 << (W[i] - 1)) : 0, hi = ((I)1 << (W[i] - (i & 1))) - 1; REQ(val(i, t.mn[i]) == lo && (u64)hi == t.mx[i], "type-limit", "%s: limits of %s are %llx %llx", A.name, TN[i], (unsigned long long)t.mn[i], (unsigned long long)t.mx[i]); }
    REQ(!t.truth[0] && t.truth[1] == 1 && t.truth[2] < 0 && !t.truth[3] && t.truth[4] > 0 && t.boolsz == 1, "truth", "%s: truth values", A.name); REQ(t.arr[0] == 7 && t.arr[1] == 3 && t.arr[2] == 6, "array-length", "%s: array lengths %d %d %d", A.name, t.arr[0], t.arr[1], t.arr[2]);
    REQ(t.misc[0] == 11 && t.misc[1] == 12, "concat", "%s: concatenation with and without expansion refers to %d and %d", A.name, t.misc[0], t.misc[1]); REQ(t.misc[2] == 4 && t.misc[3] == 0, "bitfield", "%s: bit fields of 3, 7 and 22 bits: %d bytes, overflow to %d", A.name, t.misc[2], t.misc[3]);
    COUNT("constant tables"); }
void prop_begin() {} void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    if (idx < 256) {   // all pairs of 8-bit values, all aligned combinations of 8 bits, all combinations of check results
        trace("exhaustive row %u", (unsigned)idx);
        for (auto& A : apis) { for (int b = 0; b < 256; ++b) { for (int k = 0; k < 3; ++k) for (int t = 0; t < 2; ++t) compare(A, k, t, idx, (u64)b, (u8)(idx * 7 + b)); arithmetic(A, 0, idx, (u64)b); arithmetic(A, 1, idx, (u64)b); }
            if (idx < 8) for (int sh = 0; sh < 5; ++sh) for (u32 f = 0; f < 2; ++f) { u32 st[4]; for (int i = 0; i < 3; ++i) st[i] = ((u32)(idx >> i & 1) << 31) | 0x100000 | (u32)i; st[3] = f; check(A, st, sh); }
            for (u32 m = (u32)idx * 8; m < (u32)idx * 8 + 8; ++m) for (u32 e = 0; e < 2; ++e) for (u32 c : { 0u, 1u, 0xFFFFFu, 0x80000u, 0x12345u }) { u32 s = A.make(e, m, c); REQ(A.module(s) == m && A.code(s) == c && A.failed(s) == (int)e && A.success(s) == !e, "status-parts", "%s: status from error %u, module %x, code %x is %08x", A.name, e, m, c, s); COUNT("status values"); }
            if (!idx) constants(A); }
        COUNT("exhaustive rows"); return true; }
    for (int k = 0; k < 40; ++k) { const Api& A = apis[r.below(3)]; u64 a = value(r), b = related(r, a); trace("%s %llx %llx", A.name, (unsigned long long)a, (unsigned long long)b);
        for (int t = 0; t < 10; ++t) for (int kind = 0; kind < 3; ++kind) { compare(A, kind, t, a, b, r.byte()); compare(A, kind, t, b, a, r.byte()); }
        for (int t = 0; t < 8; ++t) arithmetic(A, t, a, b); expressions(A, a, b); expressions(A, b, a); status(A, r);
        u32 st[4]; for (int i = 0; i < 3; ++i) st[i] = (u32)(r.chance(1, 3) ? r.next() : r.below(3) ? r.next() & 0x7FFFFFFF : 0); st[3] = (u32)r.next(); for (int sh = 0; sh < 5; ++sh) check(A, st, sh);
        u64 v = r.next(); uint16_t o[4]; A.version(v, o); REQ(o[0] == (uint16_t)(v >> 48) && o[1] == (uint16_t)(v >> 32) && o[2] == (uint16_t)(v >> 16) && o[3] == (uint16_t)v, "version", "%s: version %llx has parts %x %x %x %x", A.name, (unsigned long long)v, o[0], o[1], o[2], o[3]); COUNT("version values"); }
    return true;
}
