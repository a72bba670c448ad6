// C05: every allocator request of every operation fails in turn; the container must be untouched and usable.
#include "vec_engine.hpp"
#include "fmt_ops.hpp"
#include "list_engine.hpp"
#include "bits_engine.hpp"
#include "arg_engine.hpp"
#include "dupes.hpp"
#define LARGE_VEC
#define LARGE_STR
#define LARGE_LIST
#define LARGE_BITS
#include "large.hpp"
// An allocator may report success by any status without the failure flag.
#define GOOD(e) do { ZyanStatus q_ = (e); REQ(ZYAN_SUCCESS(q_), "odd-success", "%s failed with %s although the allocator satisfied every request (with status %s)", #e, st_name(q_), st_name(A.ok_status)); } while (0)
static void odd_allocator(Rng& r, MonAlloc& A) {
    A.ok_status = odd_success(77); trace("allocator that reports success as 0x%X", A.ok_status); u64 n = r.range(3, 40);
    { ZyanVector v, d; GOOD(ZyanVectorInitEx(&v, 4, 1, nullptr, A.get(), (ZyanU8)r.range(1, 3), (ZyanU8)r.below(9))); std::vector<u32> m;
      for (u64 i = 0; i < n; ++i) { u32 x = (u32)r.below(1u << 30); if (r.chance(1, 2)) { GOOD(ZyanVectorPushBack(&v, &x)); m.push_back(x); } else { GOOD(ZyanVectorInsert(&v, 0, &x)); m.insert(m.begin(), x); } }
      GOOD(ZyanVectorDuplicateEx(&d, &v, r.below(60), A.get(), 2, 4)); for (u64 i = 0; i < n; ++i) REQ(*(const u32*)ZyanVectorGet(&d, i) == m[i], "odd-success", "duplicate differs at %llu", (unsigned long long)i);
      GOOD(ZyanVectorReserve(&v, n + r.below(50))); if (r.chance(1, 2)) GOOD(ZyanVectorShrinkToFit(&v)); while (m.size() > 2) { GOOD(ZyanVectorDelete(&v, 1)); m.erase(m.begin() + 1); }
      void* e = nullptr; GOOD(ZyanVectorEmplace(&v, &e, nullptr)); u32 x = 9; memcpy(e, &x, 4); m.push_back(x);
      ZyanUSize k = 0; GOOD(ZyanVectorGetSize(&v, &k)); REQ(k == m.size(), "odd-success", "vector of %zu elements has size %zu", m.size(), (size_t)k); for (u64 i = 0; i < k; ++i) REQ(*(const u32*)ZyanVectorGet(&v, i) == m[i], "odd-success", "element %llu differs", (unsigned long long)i);
      GOOD(ZyanVectorDestroy(&v)); GOOD(ZyanVectorDestroy(&d)); }
    { ZyanString s, t; ZyanStringView w; GOOD(ZyanStringInitEx(&s, 0, A.get(), 2, 4)); std::string m; GOOD(ZyanStringViewInsideBuffer(&w, "a text of some length"));
      for (u64 i = 0; i < n / 3 + 1; ++i) { GOOD(ZyanStringAppend(&s, &w)); m += "a text of some length"; GOOD(ZyanStringAppendDecU(&s, i, 4)); m += "000" + std::to_string(i); if (i > 9) m.erase(m.size() - 5, 1); GOOD(ZyanStringAppendFormat(&s, "%d-%s", 7, "xy")); m += "7-xy"; }
      GOOD(ZyanStringConcatEx(&t, ZYAN_STRING_TO_VIEW(&s), &w, 0, A.get(), 2, 4)); const char* d = nullptr; GOOD(ZyanStringGetData(&t, &d)); REQ(m + "a text of some length" == d, "odd-success", "text differs: %s", d); GOOD(ZyanStringTruncate(&s, 3)); GOOD(ZyanStringGetData(&s, &d)); REQ(!strcmp(d, "a t"), "odd-success", "truncated text differs");
      GOOD(ZyanStringDestroy(&s)); GOOD(ZyanStringDestroy(&t)); }
    { ZyanList l; GOOD(ZyanListInitEx(&l, 4, nullptr, A.get())); for (u32 i = 0; i < n; ++i) { GOOD(ZyanListPushBack(&l, &i)); u32 x = 500 + i; GOOD(ZyanListPushFront(&l, &x)); } u32 z = 1; GOOD(ZyanListResizeEx(&l, 2 * n + 3, &z)); GOOD(ZyanListPopBack(&l)); GOOD(ZyanListPopFront(&l));
      ZyanUSize k = 0; GOOD(ZyanListGetSize(&l, &k)); REQ(k == 2 * n + 1, "odd-success", "list of %llu elements has size %zu", (unsigned long long)(2 * n + 1), (size_t)k); GOOD(ZyanListClear(&l)); GOOD(ZyanListDestroy(&l)); }
    { ZyanBitset b; GOOD(ZyanBitsetInitEx(&b, n, A.get(), 2, 4)); for (u64 i = 0; i < 40; ++i) GOOD(ZyanBitsetPush(&b, ZYAN_TRUE)); ZyanUSize k = 0; GOOD(ZyanBitsetCount(&b, &k)); REQ(k == 40, "odd-success", "40 bits pushed, %zu set", (size_t)k); for (u64 i = 0; i < n; ++i) GOOD(ZyanBitsetPop(&b)); GOOD(ZyanBitsetDestroy(&b)); }
    { ArgCase c; rnd_args(r, c, true); ArgMem M(c); ArgExp e = ref_parse(c); ZyanVector v; const char* tok = UNTOUCHED; ZyanStatus st = ZyanArgParseEx(&M.cfg, &v, &tok, A.get()); REQ(ZYAN_SUCCESS(e.st) ? ZYAN_SUCCESS(st) : st == e.st, "odd-success", "argument parsing returned %s instead of %s", arg_st(st), arg_st(e.st)); if (ZYAN_SUCCESS(st)) { ZyanUSize k = 0; GOOD(ZyanVectorGetSize(&v, &k)); REQ(k == e.items.size(), "odd-success", "%zu entries instead of %zu", (size_t)k, e.items.size()); GOOD(ZyanVectorDestroy(&v)); } }
    A.require_empty("use of an allocator with another success status"); A.ok_status = ZYAN_STATUS_SUCCESS; COUNT("allocators with another success status");
}
void prop_begin() {}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    Opt o; o.fault = true; MonAlloc A, B;
    u64 ops = r.range(10, 50), maxn = r.chance(1, 10) ? 120 : r.range(3, 30);
    bool persist = r.chance(1, 2);
    if (LARGE) { large_fault(); switch (idx % 4) { case 0: large_vec(o, r, A, persist); break; case 1: large_str<FmtStrSim>(o, r, A, persist); break; case 2: large_list(o, r, A, persist); break; default: large_bits(o, r, A, persist); } return true; }
    if (r.chance(1, 20)) odd_allocator(r, A);
    switch (idx % 6) {
    case 0: case 1: { VecCfg c = rnd_veccfg(r); VecSim s(c, o, r, &A); s.persist = persist; s.init();
        for (u64 i = 0; i < ops; ++i) { if (r.chance(1, 12)) vec_dup_alloc(s, r, B, true); s.step(maxn); COUNT("vector operations"); } s.destroy(); break; }
    case 2: { StrCfg c = rnd_strcfg(r); FmtStrSim s(c, o, r, &A); s.persist = persist; s.init();
        for (u64 i = 0; i < ops; ++i) { if (r.chance(1, 12)) str_dup_alloc(s, r, B, true); s.step2(maxn); COUNT("string operations"); } s.destroy(); break; }
    case 3: { ListCfg c = rnd_listcfg(r); ListSim s(c, o, r, &A); s.persist = persist; s.init();
        for (u64 i = 0; i < ops; ++i) { s.step(maxn); COUNT("list operations"); } s.destroy(); break; }
    case 4: { BitsCfg c = rnd_bitscfg(r); BitsSim s(c, o, r, &A); s.persist = persist; s.init();
        for (u64 i = 0; i < ops; ++i) { s.step(maxn * 3); COUNT("bitset operations"); } s.destroy(); break; }
    default: for (int k = 0; k < 8; ++k) {
        ArgCase c; rnd_args(r, c, true); trace("parse %s", c.str().c_str()); ArgMem M(c); ArgExp e = ref_parse(c); ZyanVector v; const char* tok = UNTOUCHED; bool inj;
        if (e.st == ZYAN_STATUS_INVALID_ARGUMENT) continue;
        // a refused command line may be refused before the failing request is made
        for (u64 q = 0; q < 64; ++q) {
            A.fail_at = (i64)(A.req + q); A.fail_persist = persist; u64 f0 = A.failed; memset(&v, 0xC3, sizeof v);
            ZyanStatus st = ZyanArgParseEx(&M.cfg, &v, &tok, A.get()); A.fail_at = -1; A.fail_persist = false;
            if (A.failed == f0) { REQ(st == e.st, "parse-status", "argument parsing returned %s instead of %s", arg_st(st), arg_st(e.st)); if (ZYAN_SUCCESS(st)) arg_check_result(c, M, e, &v); A.require_empty("argument parsing"); break; }
            COUNT("allocator failures injected");
            REQ(st == INJECTED_STATUS, "parse-failure", "argument parsing returned %s instead of the allocator's failure", arg_st(st));
            A.require_empty("failed argument parsing"); COUNT("failed parses"); }
        (void)inj; } }
    return g_tr->ops > 5;
}
