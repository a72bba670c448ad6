/* Functions around the library's macros, compiled as C, C++ and C without libc (suffix P). */
#include <stdint.h>
#include <Zycore/Types.h>
#include <Zycore/Status.h>
#include <Zycore/Comparison.h>
#include <Zycore/Defines.h>
#include <Zycore/Format.h>
#include <Zycore/Zycore.h>
#ifdef __cplusplus
#define X extern "C"
#else
#define X
#endif
#define CAT3_(a, b) a##b
#define CAT3(a, b) CAT3_(a, b)
#define F(n) CAT3(n, P)
#include "macros.h"

typedef struct MacroRec_ { char pad; ZyanU8 u8; ZyanI8 i8; ZyanU16 u16; ZyanI16 i16; ZyanU32 u32; ZyanI32 i32; ZyanU64 u64; ZyanI64 i64; void* p; ZyanU8 tail; } Rec;
#define GEN(t, T) static ZYAN_DECLARE_EQUALITY_COMPARISON(CAT3(geq_, t), T) static ZYAN_DECLARE_COMPARISON(CAT3(gcmp_, t), T) \
    static ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(CAT3(feq_, t), Rec, t) static ZYAN_DECLARE_COMPARISON_FOR_FIELD(CAT3(fcmp_, t), Rec, t)
GEN(u8, ZyanU8) GEN(i8, ZyanI8) GEN(u16, ZyanU16) GEN(i16, ZyanI16) GEN(u32, ZyanU32) GEN(i32, ZyanI32) GEN(u64, ZyanU64) GEN(i64, ZyanI64)

static void fill(unsigned char* p, unsigned long n, unsigned char v) { while (n--) *p++ = v; }
/* kind: 0 predefined, 1 generated, 2 generated for a field; type 0-7 u8,i8,..,i64, 8 pointer, 9 bool. The values are the low bits of a and b. */
X int F(m_compare)(int kind, int type, uint64_t a, uint64_t b, unsigned char noise, MacroCmp* r)
{
#define ONE(n, t, T, PE, PC) case n: { T x = (T)a, y = (T)b; if (kind == 0) { r->eq = PE(&x, &y); r->cmp = PC(&x, &y); } else if (kind == 1) { r->eq = CAT3(geq_, t)(&x, &y); r->cmp = CAT3(gcmp_, t)(&x, &y); } \
    else { Rec q, s; fill((unsigned char*)&q, sizeof q, noise); fill((unsigned char*)&s, sizeof s, (unsigned char)(noise + 77)); q.t = x; s.t = y; r->eq = CAT3(feq_, t)(&q, &s); r->cmp = CAT3(fcmp_, t)(&q, &s); } return 1; }
    if (kind == 0 && type < 8 && (type & 1)) return 0;
    switch (type) {
    ONE(0, u8, ZyanU8, ZyanEqualsNumeric8, ZyanCompareNumeric8)
    ONE(2, u16, ZyanU16, ZyanEqualsNumeric16, ZyanCompareNumeric16)
    ONE(4, u32, ZyanU32, ZyanEqualsNumeric32, ZyanCompareNumeric32)
    ONE(6, u64, ZyanU64, ZyanEqualsNumeric64, ZyanCompareNumeric64)
    ONE(1, i8, ZyanI8, CAT3(geq_, i8), CAT3(gcmp_, i8))
    ONE(3, i16, ZyanI16, CAT3(geq_, i16), CAT3(gcmp_, i16))
    ONE(5, i32, ZyanI32, CAT3(geq_, i32), CAT3(gcmp_, i32))
    ONE(7, i64, ZyanI64, CAT3(geq_, i64), CAT3(gcmp_, i64))
    case 8: { if (kind) return 0; void* x = (void*)(uintptr_t)a; void* y = (void*)(uintptr_t)b; r->eq = ZyanEqualsPointer(&x, &y); r->cmp = ZyanComparePointer(&x, &y); return 1; }
    case 9: { if (kind) return 0; ZyanBool x = a & 1 ? ZYAN_TRUE : ZYAN_FALSE, y = b & 1 ? ZYAN_TRUE : ZYAN_FALSE; r->eq = ZyanEqualsBool(&x, &y); r->cmp = ZyanCompareBool(&x, &y); return 1; }
    }
    return 0;
}
#define TYPES(M) M(0, uint8_t) M(1, int8_t) M(2, uint16_t) M(3, int16_t) M(4, uint32_t) M(5, int32_t) M(6, uint64_t) M(7, int64_t)
X void F(m_minmax)(int type, uint64_t a, uint64_t b, uint64_t* mn, uint64_t* mx)
{
#define MM(n, T) case n: { T x = (T)a, y = (T)b; T lo = (T)ZYAN_MIN(x, y), hi = (T)ZYAN_MAX(x, y); *mn = (uint64_t)lo; *mx = (uint64_t)hi; break; }
    switch (type) { TYPES(MM) }
}
X uint64_t F(m_abs)(int type, uint64_t a)
{
#define AB(n, T) case n: { T x = (T)a; return (uint64_t)(int64_t)ZYAN_ABS(x); }
    switch (type) { AB(1, int8_t) AB(3, int16_t) AB(5, int32_t) AB(7, int64_t) }
    return 0;
}
X uint64_t F(m_abs64)(uint64_t a) { return ZyanAbsI64((int64_t)a); }
/* macros must work on expressions, too */
X uint64_t F(m_expr)(int which, uint64_t a, uint64_t b)
{
    switch (which) {
    case 0: return ZYAN_MIN(a ^ b, a | b); case 1: return ZYAN_MAX(a & b, a - b); case 2: return (uint64_t)ZYAN_ABS((int64_t)(a >> 2) - (int64_t)(b >> 2));
    case 3: return ZYAN_IS_POWER_OF_2(a | b); case 4: return ZYAN_IS_ALIGNED_TO(a | b, (uint64_t)1 << (b & 15)); case 5: return ZYAN_ALIGN_UP(a >> 1 | b >> 1, (uint64_t)1 << (b & 15)); case 6: return ZYAN_ALIGN_DOWN(a | b, (uint64_t)1 << (b & 15));
    case 7: return ZYAN_BITS_TO_REPRESENT((uint32_t)a | (uint32_t)b); case 8: return ZYAN_NEEDS_BIT(a | b, (b & (sizeof(long) * 4 - 1)) + (a & (sizeof(long) * 4 - 1))); case 9: return ZYAN_MAKE_STATUS(a & 1 | b & 1, (uint32_t)(a >> 1) | (uint32_t)(b >> 1), (uint32_t)(a >> 20) ^ (uint32_t)b);
    case 10: return (ZYAN_SUCCESS((ZyanStatus)a | (ZyanStatus)b) ? 1u : 0u) + (ZYAN_FAILED((ZyanStatus)a | (ZyanStatus)b) ? 2u : 0u); case 11: return ZYAN_STATUS_MODULE((ZyanStatus)a | (ZyanStatus)b); case 12: return ZYAN_STATUS_CODE((ZyanStatus)a | (ZyanStatus)b);
    }
    return 0;
}
X int F(m_pow2)(int type, uint64_t a)
{
#define PW(n, T) case n: { T x = (T)a; return ZYAN_IS_POWER_OF_2(x) ? 1 : 0; }
    switch (type) { PW(0, uint8_t) PW(2, uint16_t) PW(4, uint32_t) PW(6, uint64_t) }
    return -1;
}
X void F(m_align)(int type, uint64_t a, uint64_t al, int* is, uint64_t* up, uint64_t* down)
{
#define AL(n, T) case n: { T x = (T)a, m = (T)al; *is = ZYAN_IS_ALIGNED_TO(x, m) ? 1 : 0; T u = (T)ZYAN_ALIGN_UP(x, m), d = (T)ZYAN_ALIGN_DOWN(x, m); *up = u; *down = d; break; }
    switch (type) { AL(0, uint8_t) AL(2, uint16_t) AL(4, uint32_t) AL(6, uint64_t) }
}
X uint64_t F(m_bits)(int type, uint64_t a) { if (type == 0) return ZYAN_BITS_TO_REPRESENT((uint8_t)a); if (type == 2) return ZYAN_BITS_TO_REPRESENT((uint16_t)a); return ZYAN_BITS_TO_REPRESENT((uint32_t)a); }
X int F(m_needs)(uint64_t a, unsigned b) { return ZYAN_NEEDS_BIT(a, b) ? 1 : 0; }
X uint64_t F(m_div64)(uint64_t a, uint64_t b) { ZYAN_DIV64(a, b); return a; }
X uint32_t F(m_make)(uint32_t e, uint32_t m, uint32_t c) { return ZYAN_MAKE_STATUS(e, m, c); }
X int F(m_success)(uint32_t s) { return ZYAN_SUCCESS(s) ? 1 : 0; }
X int F(m_failed)(uint32_t s) { return ZYAN_FAILED(s) ? 1 : 0; }
X uint32_t F(m_module)(uint32_t s) { return ZYAN_STATUS_MODULE(s); }
X uint32_t F(m_code)(uint32_t s) { return ZYAN_STATUS_CODE(s); }
static ZyanStatus take(const uint32_t** p, int* n) { ++*n; return *(*p)++; }
static ZyanStatus chk(const uint32_t* st, int shape, int* calls, int* after)
{
    const uint32_t* p = st;
    switch (shape) {
    case 0: ZYAN_CHECK(take(&p, calls)); *after |= 1; ZYAN_CHECK(take(&p, calls)); *after |= 2; ZYAN_CHECK(take(&p, calls)); *after |= 4; break;
    case 1: if (st[3] & 1) ZYAN_CHECK(take(&p, calls)); else *after |= 8; *after |= 1; break;
    case 2: { int i; for (i = 0; i < 3; ++i) ZYAN_CHECK(take(&p, calls)); *after |= 16; break; }
    case 3: { const ZyanStatus status = take(&p, calls); ZYAN_CHECK(status); *after |= 1; break; }
    case 4: ZYAN_CHECK(*calls >= 0 ? take(&p, calls) : (ZyanStatus)ZYAN_STATUS_FAILED); *after |= 1; break;
    }
    return 0x00155555u;
}
X uint32_t F(m_check)(const uint32_t* st, int shape, int* calls, int* after) { *calls = 0; *after = 0; return chk(st, shape, calls, after); }
X int F(m_statuses)(uint32_t* out)
{
    const uint32_t s[] = { ZYAN_STATUS_SUCCESS, ZYAN_STATUS_TRUE, ZYAN_STATUS_FALSE, /* successes first */
        ZYAN_STATUS_FAILED, ZYAN_STATUS_INVALID_ARGUMENT, ZYAN_STATUS_INVALID_OPERATION, ZYAN_STATUS_ACCESS_DENIED, ZYAN_STATUS_NOT_FOUND, ZYAN_STATUS_OUT_OF_RANGE,
        ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, ZYAN_STATUS_NOT_ENOUGH_MEMORY, ZYAN_STATUS_BAD_SYSTEMCALL, ZYAN_STATUS_OUT_OF_RESOURCES, ZYAN_STATUS_MISSING_DEPENDENCY,
        ZYAN_STATUS_ARG_NOT_UNDERSTOOD, ZYAN_STATUS_TOO_FEW_ARGS, ZYAN_STATUS_TOO_MANY_ARGS, ZYAN_STATUS_ARG_MISSES_VALUE, ZYAN_STATUS_REQUIRED_ARG_MISSING };
    unsigned i; for (i = 0; i < sizeof s / sizeof *s; ++i) out[i] = s[i];
    out[i] = ZYAN_MODULE_ZYCORE; out[i + 1] = ZYAN_MODULE_ARGPARSE; out[i + 2] = ZYAN_MODULE_USER;
    return (int)i;
}
X void F(m_version)(uint64_t v, uint16_t* o) { o[0] = ZYCORE_VERSION_MAJOR(v); o[1] = ZYCORE_VERSION_MINOR(v); o[2] = ZYCORE_VERSION_PATCH(v); o[3] = ZYCORE_VERSION_BUILD(v); }
X void F(m_version_now)(uint64_t* query, uint64_t* macro, uint16_t* o) { *query = ZycoreGetVersion(); *macro = ZYCORE_VERSION; o[0] = ZYCORE_VERSION_MAJOR(ZYCORE_VERSION); o[1] = ZYCORE_VERSION_MINOR(ZYCORE_VERSION); o[2] = ZYCORE_VERSION_PATCH(ZYCORE_VERSION); o[3] = ZYCORE_VERSION_BUILD(ZYCORE_VERSION); }
#define JOINED glued
typedef struct { unsigned a ZYAN_BITFIELD(3); unsigned b ZYAN_BITFIELD(7); unsigned c ZYAN_BITFIELD(22); } MacroBits;
X void F(m_types)(MacroTypes* t)
{
    const int sz[12] = { sizeof(ZyanU8), sizeof(ZyanI8), sizeof(ZyanU16), sizeof(ZyanI16), sizeof(ZyanU32), sizeof(ZyanI32), sizeof(ZyanU64), sizeof(ZyanI64), sizeof(ZyanUSize), sizeof(ZyanISize), sizeof(ZyanUPointer), sizeof(ZyanIPointer) };
    const int neg[12] = { (ZyanU8)-1 < 0, (ZyanI8)-1 < 0, (ZyanU16)-1 < 0, (ZyanI16)-1 < 0, (ZyanU32)-1 < 0, (ZyanI32)-1 < 0, (ZyanU64)-1 < 0, (ZyanI64)-1 < 0, (ZyanUSize)-1 < 0, (ZyanISize)-1 < 0, (ZyanUPointer)-1 < 0, (ZyanIPointer)-1 < 0 };
    const uint64_t mn[8] = { 0, (uint64_t)(int64_t)ZYAN_INT8_MIN, 0, (uint64_t)(int64_t)ZYAN_INT16_MIN, 0, (uint64_t)(int64_t)ZYAN_INT32_MIN, 0, (uint64_t)ZYAN_INT64_MIN };
    const uint64_t mx[8] = { ZYAN_UINT8_MAX, ZYAN_INT8_MAX, ZYAN_UINT16_MAX, ZYAN_INT16_MAX, ZYAN_UINT32_MAX, ZYAN_INT32_MAX, ZYAN_UINT64_MAX, ZYAN_INT64_MAX };
    int i; for (i = 0; i < 12; ++i) { t->size[i] = sz[i]; t->is_signed[i] = neg[i]; } for (i = 0; i < 8; ++i) { t->mn[i] = mn[i]; t->mx[i] = mx[i]; }
    t->truth[0] = ZYAN_FALSE; t->truth[1] = ZYAN_TRUE; t->truth[2] = ZYAN_TERNARY_FALSE; t->truth[3] = ZYAN_TERNARY_UNKNOWN; t->truth[4] = ZYAN_TERNARY_TRUE; t->boolsz = sizeof(ZyanBool);
    { static const int arr[7][3] = { { 0 } }; static const char text[] = "hello"; t->arr[0] = (int)ZYAN_ARRAY_LENGTH(arr); t->arr[1] = (int)ZYAN_ARRAY_LENGTH(arr[0]); t->arr[2] = (int)ZYAN_ARRAY_LENGTH(text); }
    { int gluedname = 11, JOINEDname = 12; MacroBits m; m.a = 15 & 7; m.b = 127; m.c = 0; ++m.a; ++m.b; t->misc[0] = ZYAN_MACRO_CONCAT_EXPAND(JOINED, name); t->misc[1] = ZYAN_MACRO_CONCAT(JOINED, name); t->misc[2] = (int)sizeof m; t->misc[3] = m.a | m.b | m.c; ZYAN_UNUSED(gluedname); ZYAN_UNUSED(JOINEDname); }
}
