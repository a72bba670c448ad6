/* One program over all containers whose observations must not depend on the build configuration. Compiled with the library's flags. */
#include <Zycore/Allocator.h>
#include <Zycore/ArgParse.h>
#include <Zycore/Bitset.h>
#include <Zycore/Comparison.h>
#include <Zycore/Format.h>
#include <Zycore/LibC.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include "conf.h"
#ifdef ZYAN_NO_LIBC
const int conf_has_libc = 0;
#else
const int conf_has_libc = 1;
#endif
#ifdef CONF_TLS    /* C26 runs the programs in several threads at once */
#define TL static _Thread_local
#else
#define TL static
#endif
TL cu64 rs; static ZyanU32 rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (ZyanU32)(rs >> 16); }
static ZyanU32 below(ZyanU32 n) { return n ? rnd() % n : 0; }
static void ev(const char* w, ZyanStatus st, ZyanUSize a, ZyanUSize b) { conf_ev(w, st, a, b); }
#define UM ((ZyanUSize)-1)
/* allocator: records, fails on demand */
typedef struct { ZyanAllocator base; ZyanU32 calls, fail_at; ZyanUSize limit; } Al; TL Al al;
static ZyanStatus a_new(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { Al* x = (Al*)a; if (++x->calls == x->fail_at || n > x->limit / es) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; *p = conf_alloc((unsigned long)(es * n)); return ZYAN_STATUS_SUCCESS; }
TL ZyanUSize blk_n[8]; TL void* blk_p[8];
static void note(void* p, ZyanUSize n) { int i; for (i = 0; i < 8; ++i) if (!blk_p[i]) { blk_p[i] = p; blk_n[i] = n; return; } }
static ZyanUSize forget(void* p) { int i; for (i = 0; i < 8; ++i) if (blk_p[i] == p) { blk_p[i] = 0; return blk_n[i]; } return 0; }
static ZyanStatus a_alloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { ZyanStatus s = a_new(a, p, es, n); if (ZYAN_SUCCESS(s)) note(*p, es * n); return s; }
static ZyanStatus a_realloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { void* q; ZyanUSize i, old; unsigned char* d; const unsigned char* s; ZyanStatus st = a_new(a, &q, es, n); if (!ZYAN_SUCCESS(st)) return st; old = forget(*p); d = (unsigned char*)q; s = (const unsigned char*)*p;
    for (i = 0; i < old && i < es * n; ++i) d[i] = s[i]; conf_free(*p, (unsigned long)old); *p = q; note(q, es * n); return st; }
static ZyanStatus a_free(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n) { (void)a; forget(p); conf_free(p, (unsigned long)(es * n)); return ZYAN_STATUS_SUCCESS; }
static ZyanUSize badi(ZyanUSize n) { switch (below(5)) { case 0: return n; case 1: return n + 1 + below(9); case 2: return UM; case 3: return UM / 2 + 1; default: return UM - below(9); } }
TL ZyanU32 dsum; static void dtor(void* p) { dsum = dsum * 31 + *(unsigned char*)p + 1; }
TL ZyanU32 cfail; TL ZyanUSize ces; static ZyanStatus ctor(void* p) { unsigned char* b = (unsigned char*)p; ZyanUSize i; if (cfail) return ZYAN_MAKE_STATUS(1u, 0x3FFu, 77u); for (i = 0; i < ces; ++i) b[i] = (unsigned char)(i * 3 + 1); return ZYAN_STATUS_SUCCESS; }
static ZyanBool eq1(const void* a, const void* b) { return ZyanEqualsNumeric8((const ZyanU8*)a, (const ZyanU8*)b); }
static ZyanI32 cmp1(const void* a, const void* b) { return ZyanCompareNumeric8((const ZyanU8*)a, (const ZyanU8*)b); }

static void vec_state(ZyanVector* v) { ZyanUSize n = 0, c = 0, i; ZyanStatus s1 = ZyanVectorGetSize(v, &n), s2 = ZyanVectorGetCapacity(v, &c); conf_ev("state", s1 == s2, n, c); for (i = 0; i < n; ++i) { const void* p = ZyanVectorGet(v, i); conf_bytes("el", p, (unsigned long)v->element_size); if (n > 24 && i == 7) i = n - 8; } conf_ev("end", dsum, 0, 0); }
static void vectors(void) {
    static const ZyanU8 ES[8] = { 1, 2, 4, 8, 3, 12, 16, 7 }; ZyanUSize es = ES[below(8)], n, cap, i, k; ZyanVector v, w; unsigned char el[16 * 12]; unsigned char* buf = 0; ZyanUSize bn = 0; ZyanStatus st; int ops = 10 + (int)below(60), o; void* slot; int fixed = below(5) == 0;
    ZyanU8 g = (ZyanU8)(below(3) ? 2 : 1 + below(5)), t = (ZyanU8)(below(3) ? 4 : below(7)); ces = es; dsum = 0;
    if (fixed) { bn = 1 + below(20); buf = (unsigned char*)conf_alloc((unsigned long)(es * bn)); st = ZyanVectorInitCustomBuffer(&v, es, buf, bn, below(2) ? &dtor : 0); } else { i = below(12); st = ZyanVectorInitEx(&v, es, i, below(2) ? &dtor : 0, &al.base, g, t); }
    ev("v.init", st, 0, 0); if (!ZYAN_SUCCESS(st)) return;
    for (o = 0; o < ops; ++o) {
        ZyanVectorGetSize(&v, &n); ZyanVectorGetCapacity(&v, &cap); for (i = 0; i < sizeof el; ++i) el[i] = (unsigned char)rnd(); if (below(4) == 0) al.fail_at = al.calls + 1 + below(2); else al.fail_at = 0;
        i = below(8) ? below((ZyanU32)n + 1) : badi(n); cfail = below(4) == 0; slot = 0;
        switch (below(22)) {
        case 0: case 1: case 2: ev("push", ZyanVectorPushBack(&v, el), 0, 0); break; case 3: ev("insert", ZyanVectorInsert(&v, i, el), 0, 0); break;
        case 4: case 5: k = 1 + below(12); ev("insrange", ZyanVectorInsertRange(&v, i, el, k), k, 0); break; case 6: ev("emplace", ZyanVectorEmplace(&v, &slot, &ctor), 0, 0); break; case 7: ev("emplex", ZyanVectorEmplaceEx(&v, i, &slot, &ctor), 0, 0); break;
        case 8: ev("set", ZyanVectorSet(&v, i, el), 0, 0); break; case 9: k = below((ZyanU32)n + 1); if (n < cap) ev("swap", ZyanVectorSwapElements(&v, i, k), k, 0); break; case 10: ev("del", ZyanVectorDelete(&v, i), 0, 0); break;
        case 11: k = below(4) ? below((ZyanU32)n + 2) : UM - below(9); ev("delrange", ZyanVectorDeleteRange(&v, i, k), 0, 0); break; case 12: ev("pop", ZyanVectorPopBack(&v), 0, 0); break; case 13: if (below(3) == 0) ev("clear", ZyanVectorClear(&v), 0, 0); break;
        case 14: ev("resize", ZyanVectorResizeEx(&v, below(40), el), 0, 0); break; case 15: ev("reserve", ZyanVectorReserve(&v, below(10) ? below(50) : UM - below(3)), 0, 0); break; case 16: ev("fit", ZyanVectorShrinkToFit(&v), 0, 0); break;
        case 17: { ZyanISize f = -2; ZyanUSize c2 = i <= n ? below((ZyanU32)(n - i) + 1) : below(3); st = ZyanVectorFindEx(&v, el, &f, &eq1, i, c2); conf_ev("find", st, (cu64)(long long)f, 0); break; }
        case 18: { ZyanUSize a, b; for (a = 0; a + 1 < n; ++a) for (b = a + 1; b < n; ++b) { unsigned char* p = (unsigned char*)ZyanVectorGetMutable(&v, a); unsigned char* q = (unsigned char*)ZyanVectorGetMutable(&v, b); if (*p > *q) { for (k = 0; k < es; ++k) { unsigned char x = p[k]; p[k] = q[k]; q[k] = x; } } } k = 99; st = ZyanVectorBinarySearch(&v, el, &k, &cmp1); ev("bsearch", st, k, 0); break; }
        case 19: st = ZyanVectorDuplicateEx(&w, &v, below(30), &al.base, g, t); ev("dup", st, 0, 0); if (ZYAN_SUCCESS(st)) { w.destructor = 0; vec_state(&w); ev("dd", ZyanVectorDestroy(&w), 0, 0); } break;
        case 20: conf_ev("get", ZyanVectorGet(&v, i) != 0, 0, 0); break; default: ev("bigresize", ZyanVectorResizeEx(&v, UM / es + below(3), el), 0, 0); }
        vec_state(&v); conf_count(0); }
    al.fail_at = 0; st = ZyanVectorDestroy(&v); ev("v.destroy", st, dsum, 0); if (buf) conf_free(buf, (unsigned long)(es * bn)); }

TL char txt[64]; static ZyanUSize mktext(void) { ZyanUSize n = below(4) ? below(9) : below(50), i; static const char A[] = "abAB\x80\xE9z@[`{0"; for (i = 0; i < n; ++i) txt[i] = below(6) ? A[below(3)] : A[below(12)]; return n; }
static void str_state(ZyanString* s) { ZyanUSize n = 0, c = 0; const char* d = 0; ZyanStatus s1 = ZyanStringGetSize(s, &n), s2 = ZyanStringGetCapacity(s, &c), s3 = ZyanStringGetData(s, &d); conf_ev("state", s1 == s2 && s2 == s3, n, c >= n); if (d) conf_bytes("text", d, (unsigned long)n + 1); }
static void numbers(ZyanString* s) {
    ZyanU64 v; ZyanU8 pad = (ZyanU8)(below(3) ? below(25) : rnd()); ZyanStringView pre, suf; const ZyanStringView* pv = 0; char pb[3]; ZyanUSize pl = below(3), i;
    switch (below(6)) { case 0: v = below(200); break; case 1: v = 1ull << below(64); break; case 2: v = (1ull << below(64)) - 1; break; case 3: v = ~0ull - below(3); break; case 4: v = (ZyanU64)0 - below(1000); break; default: v = (ZyanU64)rnd() << 32; v |= rnd(); v >>= below(64); }
    for (i = 0; i < pl; ++i) pb[i] = "0x-+"[below(4)]; if (pl && ZYAN_SUCCESS(ZyanStringViewInsideBufferEx(&pre, pb, pl)) && below(2)) pv = &pre; (void)suf;
    i = below(2); switch (below(4)) { case 0: ev("decu", ZyanStringAppendDecU(s, v, pad), 0, 0); break; case 1: ev("decs", ZyanStringAppendDecS(s, (ZyanI64)v, pad, (ZyanBool)below(2), pv), 0, 0); break;
    case 2: ev("hexu", ZyanStringAppendHexU(s, v, pad, (ZyanBool)below(2)), 0, 0); break; default: ev("hexs", ZyanStringAppendHexS(s, (ZyanI64)v, pad, (ZyanBool)i, (ZyanBool)below(2), pv), 0, 0); }
    conf_count(2); }
static void strings(int nums) {
    ZyanString s, t; ZyanStringView v, w; ZyanUSize n, i, k, vn; int ops = 8 + (int)below(40), o; ZyanStatus st; int fixed = below(4) == 0; char* buf = 0; ZyanUSize bn = 0; ZyanU8 g = (ZyanU8)(below(3) ? 2 : 1 + below(5)), th = (ZyanU8)(below(3) ? 4 : below(7));
    if (fixed) { bn = 1 + below(60); buf = (char*)conf_alloc((unsigned long)bn); st = ZyanStringInitCustomBuffer(&s, buf, bn); } else st = ZyanStringInitEx(&s, below(40), &al.base, g, th);
    ev("s.init", st, 0, 0); if (!ZYAN_SUCCESS(st)) return;
    /* how often the number functions ask the allocator may differ between 32 and 64 bits: no refused requests there */
    if (nums && !fixed && below(3) == 0) nums = 0; 
    for (o = 0; o < ops; ++o) {
        ZyanStringGetSize(&s, &n); vn = mktext(); if (!nums && below(4) == 0) al.fail_at = al.calls + 1 + below(2); else al.fail_at = 0; txt[vn] = 0; if (below(2)) st = ZyanStringViewInsideBuffer(&v, txt); else { st = ZyanStringViewInsideBufferEx(&v, txt, vn); txt[vn] = 'b'; }
        if (!ZYAN_SUCCESS(st)) { ev("noview", st, 0, 0); ZyanStringViewInsideBuffer(&v, "Ab"); } ZyanStringViewGetSize(&v, &vn); i = below(8) ? below((ZyanU32)n + 1) : badi(n + 1); if (n > 200) { ev("trunc", ZyanStringTruncate(&s, 3), 0, 0); str_state(&s); continue; }
        if (nums && below(3)) { numbers(&s); str_state(&s); continue; }
        switch (below(20)) {
        case 0: case 1: case 2: ev("append", ZyanStringAppend(&s, &v), 0, 0); break; case 3: case 4: if (vn) ev("insert", ZyanStringInsert(&s, i, &v), 0, 0); break; case 5: k = below((ZyanU32)vn + 2); if (vn >= k && vn - k) ev("insex", ZyanStringInsertEx(&s, i, &v, k, 1 + below((ZyanU32)(vn - k))), 0, 0); break;
        case 6: k = 1 + below((ZyanU32)n + 2); ev("del", ZyanStringDelete(&s, i, below(5) ? k : UM - below(5)), 0, 0); break; case 7: if (i != n) ev("trunc", ZyanStringTruncate(&s, i), 0, 0); break; case 8: if (below(3) == 0) ev("clear", ZyanStringClear(&s), 0, 0); break;
        case 9: { ZyanISize f = -2, f2 = -2; st = below(2) ? ZyanStringLPos(ZYAN_STRING_TO_VIEW(&s), &v, &f) : ZyanStringLPosI(ZYAN_STRING_TO_VIEW(&s), &v, &f); conf_ev("lpos", st, (cu64)(long long)f, 0); st = below(2) ? ZyanStringRPos(ZYAN_STRING_TO_VIEW(&s), &v, &f2) : ZyanStringRPosI(ZYAN_STRING_TO_VIEW(&s), &v, &f2); conf_ev("rpos", st, (cu64)(long long)f2, 0); break; }
        case 10: { ZyanI32 r = -9; st = below(2) ? ZyanStringCompare(ZYAN_STRING_TO_VIEW(&s), &v, &r) : ZyanStringCompareI(ZYAN_STRING_TO_VIEW(&s), &v, &r); conf_ev("cmp", st, r < 0 ? 0 : r > 0 ? 2 : 1, 0); break; }
        case 11: ev("lower", ZyanStringToLowerCaseEx(&s, i, i <= n ? below((ZyanU32)(n - i) + 1) : 1), 0, 0); break; case 12: ev("upper", ZyanStringToUpperCaseEx(&s, i, i <= n ? below((ZyanU32)(n - i) + 1) : 1), 0, 0); break;
        case 13: k = below(60); st = ZyanStringResize(&s, k); ev("resize", st, k, 0); if (ZYAN_SUCCESS(st)) for (; n < k; ++n) ZyanStringSetChar(&s, n, (char)('a' + n % 26)); break;
        case 14: ev("reserve", ZyanStringReserve(&s, below(8) ? below(90) : UM - below(3)), 0, 0); break; case 15: ev("fit", ZyanStringShrinkToFit(&s), 0, 0); break; case 16: ev("setc", ZyanStringSetChar(&s, i, 'Q'), 0, 0); break;
        case 17: st = below(2) ? ZyanStringDuplicateEx(&t, &v, below(60), &al.base, g, th) : ZyanStringConcatEx(&t, ZYAN_STRING_TO_VIEW(&s), &v, below(60), &al.base, g, th); ev("dup", st, 0, 0); if (ZYAN_SUCCESS(st)) { str_state(&t); ev("dd", ZyanStringDestroy(&t), 0, 0); } break;
        case 18: k = below((ZyanU32)n + 2); st = ZyanStringViewInsideViewEx(&w, ZYAN_STRING_TO_VIEW(&s), i, k); ev("view", st, 0, 0); if (ZYAN_SUCCESS(st)) { const char* d = 0; ZyanUSize m = 0; ZyanStringViewGetData(&w, &d); ZyanStringViewGetSize(&w, &m); conf_bytes("w", d, (unsigned long)m); } break;
        default: { char ch = 'x'; st = ZyanStringGetChar(ZYAN_STRING_TO_VIEW(&s), i, &ch); conf_ev("getc", st, (unsigned char)ch, 0); } }
        str_state(&s); conf_count(1); }
    al.fail_at = 0; ev("s.destroy", ZyanStringDestroy(&s), 0, 0); if (buf) conf_free(buf, (unsigned long)bn); }

static void list_state(ZyanList* l) { const ZyanListNode* n = 0; ZyanUSize c = 0; ZyanStatus st = ZyanListGetSize(l, &c); ev("state", st, c, 0); ZyanListGetHeadNode(l, &n); for (c = 0; n && c < 200; ++c) { conf_bytes("el", ZyanListGetNodeData(n), (unsigned long)l->element_size); ZyanListGetNextNode(&n); } ZyanListGetTailNode(l, &n); while (n && c < 400) { conf_bytes("le", ZyanListGetNodeData(n), 1); ZyanListGetPrevNode(&n); ++c; } conf_ev("end", dsum, 0, 0); }
static void lists(void) {
    ZyanUSize es = 8u * (1 + below(3)), n, i, bn = 0; ZyanList l; ZyanStatus st; int ops = 10 + (int)below(60), o; unsigned char* buf = 0; unsigned char el[32]; void* slot; int fixed = below(3) == 0; dsum = 0; ces = es;
    if (fixed) { bn = (sizeof(ZyanListNode) + es) * (1 + below(12)); buf = (unsigned char*)conf_alloc((unsigned long)bn); st = ZyanListInitCustomBuffer(&l, es, below(2) ? &dtor : 0, buf, bn); } else st = ZyanListInitEx(&l, es, below(2) ? &dtor : 0, &al.base); ev("l.init", st, 0, 0); if (!ZYAN_SUCCESS(st)) return;
    for (o = 0; o < ops; ++o) {
        const ZyanListNode *a = 0, *b; ZyanListGetSize(&l, &n); for (i = 0; i < 32; ++i) el[i] = (unsigned char)rnd(); if (below(5) == 0) al.fail_at = al.calls + 1 + below(4); else al.fail_at = 0; cfail = below(4) == 0; slot = 0; i = below((ZyanU32)n + 1); ZyanListGetHeadNode(&l, &a); while (a && i--) ZyanListGetNextNode(&a);
        switch (below(13)) { case 0: case 1: ev("pushb", ZyanListPushBack(&l, el), 0, 0); break; case 2: case 3: ev("pushf", ZyanListPushFront(&l, el), 0, 0); break; case 4: ev("empb", ZyanListEmplaceBack(&l, &slot, &ctor), 0, 0); break; case 5: ev("empf", ZyanListEmplaceFront(&l, &slot, &ctor), 0, 0); break; case 6: ev("popb", ZyanListPopBack(&l), 0, 0); break; case 7: ev("popf", ZyanListPopFront(&l), 0, 0); break;
        case 8: if (a) ev("rem", ZyanListRemove(&l, a), 0, 0); break; case 9: if (a) { b = a; i = below(5); while (i--) { const ZyanListNode* q = b; ZyanListGetNextNode(&q); if (q) b = q; } ev("remr", ZyanListRemoveRange(&l, a, b), 0, 0); } break; case 10: if (a) ev("set", ZyanListSetNodeData(&l, a, el), 0, 0); break; case 11: if (n < 60) ev("resize", ZyanListResizeEx(&l, below(20), el), 0, 0); break; default: if (below(4) == 0) ev("clear", ZyanListClear(&l), 0, 0); }
        list_state(&l); conf_count(3); }
    al.fail_at = 0; st = ZyanListDestroy(&l); ev("l.destroy", st, dsum, 0); if (buf) conf_free(buf, (unsigned long)bn); }

static void bit_state(ZyanBitset* b) { ZyanUSize n = 0, c = 0, i, nb = 0, cb = 0; unsigned char x = 0; ZyanBitsetGetSize(b, &n); ZyanBitsetGetCapacity(b, &cb); ZyanBitsetGetSizeBytes(b, &nb); conf_ev("state", n, nb, cb); for (i = 0; i < n; ++i) { x = (unsigned char)(x << 1 | (ZyanBitsetTest(b, i) == ZYAN_STATUS_TRUE)); if (i % 8 == 7) conf_bytes("b", &x, 1); } conf_bytes("b", &x, 1); { ZyanStatus st = ZyanBitsetCount(b, &c); ev("count", st, c, 0); } ev("q", ZyanBitsetAll(b), ZyanBitsetAny(b), ZyanBitsetNone(b)); ev("ends", ZyanBitsetTestMSB(b), ZyanBitsetTestLSB(b), 0); }
static void bitsets(void) {
    ZyanBitset b, c; ZyanStatus st; ZyanUSize n, i; int ops = 10 + (int)below(50), o; unsigned char* buf = 0; int fixed = below(4) == 0;
    if (fixed) { buf = (unsigned char*)conf_alloc(16); st = ZyanBitsetInitBuffer(&b, below(129), buf, 16); } else { n = below(100); i = 1 + below(3); st = ZyanBitsetInitEx(&b, n, &al.base, (ZyanU8)i, (ZyanU8)below(6)); } ev("b.init", st, 0, 0); if (!ZYAN_SUCCESS(st)) return;
    for (o = 0; o < ops; ++o) {
        ZyanBitsetGetSize(&b, &n); i = below(8) ? below((ZyanU32)n + 1) : badi(n); if (below(4) == 0) al.fail_at = al.calls + 1; else al.fail_at = 0;
        switch (below(16)) { case 0: case 1: ev("set", ZyanBitsetSet(&b, i), 0, 0); break; case 2: ev("reset", ZyanBitsetReset(&b, i), 0, 0); break; case 3: ev("assign", ZyanBitsetAssign(&b, i, (ZyanBool)below(2)), 0, 0); break; case 4: ev("toggle", ZyanBitsetToggle(&b, i), 0, 0); break; case 5: case 6: case 7: ev("push", ZyanBitsetPush(&b, (ZyanBool)below(2)), 0, 0); break; case 8: ev("pop", ZyanBitsetPop(&b), 0, 0); break;
        case 9: ev("flip", ZyanBitsetFlip(&b), 0, 0); break; case 10: ev("all", below(2) ? ZyanBitsetSetAll(&b) : ZyanBitsetResetAll(&b), 0, 0); break; case 11: if (below(4) == 0) ev("clear", ZyanBitsetClear(&b), 0, 0); break; case 12: ev("reserve", ZyanBitsetReserve(&b, below(8) ? below(200) : UM - below(9)), 0, 0); break; case 13: ev("fit", ZyanBitsetShrinkToFit(&b), 0, 0); break;
        default: al.fail_at = 0; st = ZyanBitsetInitEx(&c, n, &al.base, 2, 4); if (ZYAN_SUCCESS(st)) { for (i = 0; i < n; ++i) ZyanBitsetAssign(&c, i, (ZyanBool)below(2)); switch (below(3)) { case 0: ev("and", ZyanBitsetAND(&b, &c), 0, 0); break; case 1: ev("or", ZyanBitsetOR(&b, &c), 0, 0); break; default: ev("xor", ZyanBitsetXOR(&b, &c), 0, 0); } ZyanBitsetDestroy(&c); } }
        bit_state(&b); conf_count(4); }
    al.fail_at = 0; ev("b.destroy", ZyanBitsetDestroy(&b), 0, 0); if (buf) conf_free(buf, 16); }

static void parser(void) {
    static const char* const NAMES[] = { "-a", "-b", "--all", "--alpha", "-x", "--x", "--\xC3\xA9" }; static const char* const TOK[] = { "-a", "-b", "-ab", "-ba", "-abx", "--all", "--alpha", "--x", "-x", "-xval", "v", "", "-", "--", "-q", "--q", "-a=1", "--all=2", "w", "--\xC3\xA9", "-\xC3" };
    ZyanArgParseDefinition d[6]; const char* av[8]; ZyanArgParseConfig cfg; ZyanVector out; const char* err = 0; ZyanUSize i, n = below(6), k; ZyanU32 used = 0; ZyanStatus st;
    for (i = 0; i < n; ++i) { ZyanU32 x; do x = below(7); while (used >> x & 1); used |= 1u << x; d[i].name = NAMES[x]; d[i].boolean = (ZyanBool)below(2); d[i].required = (ZyanBool)(below(6) == 0); } d[n].name = 0; d[n].boolean = d[n].required = 0;
    cfg.argc = 1 + below(7); av[0] = "p"; for (i = 1; i < cfg.argc; ++i) av[i] = TOK[below(21)]; cfg.argv = av; cfg.min_unnamed_args = below(4) ? 0 : below(3); cfg.max_unnamed_args = below(3) ? 100 : below(4); cfg.args = n || below(2) ? d : 0; if (below(5) == 0) al.fail_at = al.calls + 1 + below(3); else al.fail_at = 0;
    st = ZyanArgParseEx(&cfg, &out, &err, &al.base); for (k = 1; err && k < cfg.argc && av[k] != err; ++k) {} ev("parse", st, al.calls, err ? k : 99); if (err) conf_bytes("err", err, (unsigned long)ZYAN_STRLEN(err));
    if (ZYAN_SUCCESS(st)) { ZyanUSize m = 0; ZyanVectorGetSize(&out, &m); conf_ev("args", m, 0, 0); for (i = 0; i < m; ++i) { const ZyanArgParseArg* a = (const ZyanArgParseArg*)ZyanVectorGet(&out, i); conf_ev("arg", a->def ? (cu64)(a->def - d) : 99, a->has_value, 0); if (a->has_value) { const char* s = 0; ZyanUSize l = 0; ZyanStringViewGetData(&a->value, &s); ZyanStringViewGetSize(&a->value, &l); conf_bytes("val", s, (unsigned long)l); } } st = ZyanVectorDestroy(&out); ev("free", st, al.calls, 0); }
    conf_count(5); }
static void helpers(void) {   /* the names behind which the C library or the replacements hide */
    char a[48], b[48]; ZyanUSize n = mktext(), m, i; int r; for (i = 0; i < n && i < 40; ++i) a[i] = txt[i]; a[i] = 0; m = below(3) ? mktext() : n; if (m > 40) m = 40; for (i = 0; i < m; ++i) b[i] = txt[i]; b[m] = 0; if (n > 40) n = 40;
    conf_ev("len", ZYAN_STRLEN(a), ZYAN_STRLEN(b), 0); r = ZYAN_STRCMP(a, b); conf_ev("cmp", r < 0 ? 0 : r > 0 ? 2 : 1, 0, 0); i = below(12); r = ZYAN_STRNCMP(a, b, i); conf_ev("ncmp", r < 0 ? 0 : r > 0 ? 2 : 1, i, 0); r = ZYAN_MEMCMP(a, b, n < m ? n : m); conf_ev("mcmp", r < 0 ? 0 : r > 0 ? 2 : 1, 0, 0);
    { const char* p = (const char*)ZYAN_MEMCHR(a, b[0], n + 1); conf_ev("mchr", p ? (cu64)(p - a) : 99, 0, 0); p = ZYAN_STRCHR(a, b[m / 2]); conf_ev("chr", p ? (cu64)(p - a) : 99, 0, 0); p = ZYAN_STRRCHR(a, b[m / 2]); conf_ev("rchr", p ? (cu64)(p - a) : 99, 0, 0); p = ZYAN_STRSTR(a, b); conf_ev("str", p ? (cu64)(p - a) : 99, 0, 0); p = ZYAN_STRPBRK(a, b); conf_ev("pbrk", p ? (cu64)(p - a) : 99, 0, 0); conf_ev("spn", ZYAN_STRSPN(a, b), ZYAN_STRCSPN(a, b), 0); }
    i = below((ZyanU32)n + 1); ZYAN_MEMMOVE(a + below(5), a, i); conf_bytes("move", a, 47 < i ? 47 : (unsigned long)i); ZYAN_MEMSET(a, (int)rnd(), i); conf_bytes("set", a, (unsigned long)i); ZYAN_MEMCPY(a, b, m + 1); conf_bytes("cpy", a, (unsigned long)m + 1);
    { char c[8]; ZYAN_MEMSET(c, 'x', 8); ZYAN_STRNCPY(c, b, 7); conf_bytes("ncpy", c, 8); } conf_count(6); }
void conf_case(cu64 seed, cu64 idx) {
    int i; rs = (seed * 0x9E3779B97F4A7C15ull) ^ (idx * 0xD1B54A32D192ED03ull + 0x2545F4914F6CDD1Dull); if (!rs) rs = 1; for (i = 0; i < 8; ++i) rnd();
    for (i = 0; i < 8; ++i) blk_p[i] = 0; al.calls = 0; al.fail_at = 0; al.limit = 1u << 20; ev("alloc", ZyanAllocatorInit(&al.base, &a_alloc, &a_realloc, &a_free), 0, 0);
    switch (idx % 10) { case 0: case 1: vectors(); break; case 2: case 3: strings(0); break; case 4: case 5: strings(1); break; case 6: lists(); break; case 7: bitsets(); break; case 8: for (i = 0; i < 12; ++i) parser(); break; default: for (i = 0; i < 20; ++i) helpers(); }
    for (i = 0; i < 8; ++i) if (blk_p[i]) { conf_ev("leak", (cu64)blk_n[i], 0, 0); conf_free(blk_p[i], (unsigned long)blk_n[i]); } }
