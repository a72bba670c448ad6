// Callbacks (comparisons, constructors, destructors, allocators) may use the library themselves, on objects of their own. Now and then the
// monitors' callbacks do: a round of searches, insertions, removals, texts, formats, bits and a parsed command line with known results.
// Nothing of it touches the heap (fixed buffers and an arena).
#pragma once
#include "zy.hpp"

namespace nested {
struct Arena { ZyanAllocator base; size_t used = 0; alignas(16) u8 mem[8192];
    static ZyanStatus get(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { Arena* s = (Arena*)a; size_t k = (es * n + 15) & ~(size_t)15; if (k > sizeof s->mem - s->used) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; *p = s->mem + s->used; s->used += k; return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus again(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { void* o = *p; void* q = nullptr; ZyanStatus st = get(a, &q, es, n); if (ZYAN_SUCCESS(st)) { memmove(q, o, std::min<size_t>(es * n, (size_t)((u8*)q - (u8*)o))); *p = q; } return st; }
    static ZyanStatus put(ZyanAllocator*, void*, ZyanUSize, ZyanUSize) { return ZYAN_STATUS_SUCCESS; }
    Arena() { ZyanAllocatorInit(&base, get, again, put); } };
inline u64& dtors() { static thread_local u64 n; return n; }
inline void dtor(void*) { ++dtors(); }
inline ZyanStatus ctor(void* p) { u32 x = 4711; memcpy(p, &x, 4); return ZYAN_STATUS_SUCCESS; }
inline ZyanBool eq(const void* a, const void* b) { return !memcmp(a, b, 4); }
inline ZyanI32 cmp(const void* a, const void* b) { u32 x, y; memcpy(&x, a, 4); memcpy(&y, b, 4); return x < y ? -1 : x > y; }
inline u64& rounds() { static u64 n; return n; }      // (counters would touch the heap)
#define NREQ(c) REQ(c, "nested", "inside of a callback: %s does not hold", #c)
inline void round(u64 x) {
    const ZyanStatus OK = ZYAN_STATUS_SUCCESS; static thread_local Arena A; A.used = 0; dtors() = 0; u32 s = (u32)(x >> 8) % 1000, k = 3 + (u32)(x % 11); ZyanUSize n = 9; ZyanISize f = 9; ZyanUSize u = 9; void* slot = nullptr;
    switch (x / 11 % 5) {
    case 0: { ZyanVector v; NREQ(ZyanVectorInitEx(&v, 12, 1, (ZyanMemberProcedure)dtor, &A.base, 2, 4) == OK); u32 e[3] = { 0, 0x5A5A5A5A, 0xA5A5A5A5 };
        for (u32 i = 0; i < k; ++i) { e[0] = s + 2 * i; NREQ((i % 2 ? ZyanVectorInsert(&v, i, e) : ZyanVectorPushBack(&v, e)) == OK); }
        u32 key[3] = { s + 2 * (k - 1), 1, 2 }; NREQ(ZyanVectorFind(&v, key, &f, eq) == ZYAN_STATUS_TRUE && f == (ZyanISize)k - 1);
        key[0] = s + 3; NREQ(ZyanVectorFind(&v, key, &f, eq) == ZYAN_STATUS_FALSE && f == -1); NREQ(ZyanVectorBinarySearch(&v, key, &u, cmp) == ZYAN_STATUS_FALSE && u == 2);
        key[0] = s + 2; NREQ(ZyanVectorBinarySearch(&v, key, &u, cmp) == ZYAN_STATUS_TRUE && u == 1); NREQ(ZyanVectorSwapElements(&v, 0, 1) == OK || (ZyanVectorReserve(&v, 40) == OK && ZyanVectorSwapElements(&v, 0, 1) == OK));
        NREQ(ZyanVectorEmplaceEx(&v, 1, &slot, ctor) == OK); u32 got[4]; for (u32 i = 0; i < 4 && i <= k; ++i) memcpy(got + i, ZyanVectorGet(&v, i), 4); NREQ(got[0] == s + 2 && got[1] == 4711 && got[2] == s && got[3] == s + 4); NREQ(!dtors());
        NREQ(ZyanVectorDelete(&v, 0) == OK && dtors() == 1); NREQ(ZyanVectorGetSize(&v, &n) == OK && n == k); NREQ(ZyanVectorDestroy(&v) == OK && dtors() == 1 + k); break; }
    case 1: { alignas(16) u8 b[512]; ZyanList l; NREQ(ZyanListInitCustomBuffer(&l, 8, (ZyanMemberProcedure)dtor, b, 480) == OK); u64 e; for (u32 i = 0; i < k; ++i) { e = s + i; NREQ((i % 2 ? ZyanListPushFront(&l, &e) : ZyanListPushBack(&l, &e)) == OK); }
        NREQ(ZyanListPopFront(&l) == OK && ZyanListGetSize(&l, &n) == OK && n == k - 1 && dtors() == 1); const ZyanListNode* q = nullptr; u64 sum = 0, c = 0; NREQ(ZyanListGetHeadNode(&l, &q) == OK); for (; q; ZyanListGetNextNode(&q)) { memcpy(&e, ZyanListGetNodeData(q), 8); sum += e; ++c; }
        u64 all = (u64)k * s + (u64)k * (k - 1) / 2 - (s + (k % 2 ? k - 2 : k - 1)); NREQ(c == k - 1 && sum == all); NREQ(ZyanListDestroy(&l) == OK && dtors() == k); break; }
    case 2: { ZyanString t; ZyanStringView w; NREQ(ZyanStringInitEx(&t, 0, &A.base, 2, 4) == OK); ZyanStringViewInsideBuffer(&w, "Ab!"); for (u32 i = 0; i < k; ++i) NREQ(ZyanStringAppend(&t, &w) == OK);
        NREQ(ZyanStringAppendDecU(&t, s, 6) == OK && ZyanStringAppendHexU(&t, 0xBEEF, 0, ZYAN_TRUE) == OK && ZyanStringAppendFormat(&t, "<%u|%s>", s, "in") == OK);
        char want[200]; int o = 0; for (u32 i = 0; i < k; ++i) o += snprintf(want + o, sizeof want - o, "Ab!"); o += snprintf(want + o, sizeof want - o, "%06uBEEF<%u|in>", s, s); const char* d = nullptr; NREQ(ZyanStringGetData(&t, &d) == OK && !strcmp(d, want) && ZyanStringGetSize(&t, &n) == OK && n == (ZyanUSize)o);
        ZyanStringViewInsideBuffer(&w, "b!0"); NREQ(ZyanStringLPos(ZYAN_STRING_TO_VIEW(&t), &w, &f) == ZYAN_STATUS_TRUE && f == (ZyanISize)(3 * k - 2)); ZyanStringViewInsideBuffer(&w, "aB!"); NREQ(ZyanStringRPosI(ZYAN_STRING_TO_VIEW(&t), &w, &f) == ZYAN_STATUS_TRUE && f == (ZyanISize)(3 * k - 3));
        NREQ(ZyanStringDelete(&t, 0, 1) == OK && ZyanStringToUpperCase(&t) == OK && ZyanStringGetData(&t, &d) == OK && !strncmp(d, "B!", 2) && !strcmp(d + n - 4, "IN>")); NREQ(ZyanStringDestroy(&t) == OK); break; }
    case 3: { ZyanBitset b; NREQ(ZyanBitsetInitEx(&b, 5 * k, &A.base, 2, 4) == OK); for (u32 i = 0; i < 5 * k; i += 3) NREQ(ZyanBitsetSet(&b, i) == OK); NREQ(ZyanBitsetPush(&b, ZYAN_TRUE) == OK && ZyanBitsetFlip(&b) == OK); NREQ(ZyanBitsetCount(&b, &u) == OK && u == 5 * k - (5 * k + 2) / 3);
        NREQ(ZyanBitsetTest(&b, 1) == ZYAN_STATUS_TRUE && ZyanBitsetTest(&b, 3) == ZYAN_STATUS_FALSE && ZyanBitsetTestLSB(&b) == ZYAN_STATUS_FALSE); NREQ(ZyanBitsetDestroy(&b) == OK); break; }
    default: { ZyanArgParseDefinition defs[] = { { "-v", ZYAN_TRUE, ZYAN_FALSE }, { "--out", ZYAN_FALSE, ZYAN_TRUE }, { nullptr, 0, 0 } }; const char* argv[] = { "p", "-v", "a", "--out", "f", "b" }; ZyanArgParseConfig c = { argv, (ZyanUSize)(s % 2 ? 6 : 3), 1, 2, defs }; ZyanVector v; const char* e = nullptr;
        ZyanStatus st = ZyanArgParseEx(&c, &v, &e, &A.base); if (s % 2) { NREQ(st == OK && ZyanVectorGetSize(&v, &n) == OK && n == 4); const ZyanArgParseArg* a = (const ZyanArgParseArg*)ZyanVectorGet(&v, 2); NREQ(a->def == &defs[1] && a->has_value); const char* d; NREQ(ZyanStringViewGetData(&a->value, &d) == OK && d == argv[4]); NREQ(ZyanVectorDestroy(&v) == OK); } else NREQ(st == ZYAN_STATUS_REQUIRED_ARG_MISSING && e == defs[1].name); } }
    ++rounds(); }
// one round for about every `every`-th call, the same in every replay of the case
inline void maybe(u32 every) {
    static u64 cur = ~0ull, n; static bool busy; if (busy) return;
    if (g_tr->case_idx != cur) { cur = g_tr->case_idx; n = mix64(g_seed, cur) % every; }
    if (++n % every) return;
    busy = true; round(mix64(cur, n)); busy = false; }
inline void report() { static u64& c = g_st.cnt["library use inside of callbacks"]; c = rounds(); static u64& d = g_st.cnt["blocks handed out again"]; d = Recycler::reused(); }
static struct On { On() { callback_hook() = [] { maybe(97); }; } } on_;
}
