// C26: threads on their own objects (sharing the default allocator) and threads that read shared objects obtain the results of a
// sequential run; under the thread sanitizer the library must not race. The concurrent run comes first, so that anything the
// library would set up on first use is set up by several threads at once.
#include "zy.hpp"
#include <Zycore/LibC.h>
#include <Zycore/Comparison.h>
#include <atomic>
#include <thread>
#include <time.h>
extern "C" {
#include "../conf.h"
}
struct Dig { u64 h = 0xcbf29ce484222325ull, n = 0; u64 kinds[16] = {}; std::vector<u64> log; bool keep = false; };
static thread_local Dig* dig;
static void mix(const void* p, size_t n) { dig->h = hash_bytes(p, n, dig->h); }
static void out(u64 x) { mix(&x, 8); ++dig->n; if (dig->keep) dig->log.push_back(x); }
extern "C" {
void conf_ev(const char*, cu64 a, cu64 b, cu64 c) { out(a); out(b); out(c); }
void conf_bytes(const char*, const void* p, unsigned long n) { mix(p, n); ++dig->n; if (dig->keep) dig->log.push_back(hash_bytes(p, n)); }
void conf_count(int k) { ++dig->kinds[k]; }
void* conf_alloc(unsigned long n) { void* p = nullptr; ZyanAllocator* a = ZyanAllocatorDefault(); if (!ZYAN_SUCCESS(a->allocate(a, &p, 1, n ? n : 1)) || !p) harness_error("no memory"); memset(p, 0x5A, n); return p; }
void conf_free(void* p, unsigned long n) { memset(p, 0xDD, n); ZyanAllocator* a = ZyanAllocatorDefault(); a->deallocate(a, p, 1, n ? n : 1); }
int conf_str_eq(const char* a, const char* b) { return !strcmp(a, b); }
}
// ---- objects shared by the readers ------------------------------------------------------------------------------------
struct Shared {
    ZyanVector v; ZyanString s; ZyanList l; ZyanBitset b; ZyanStringView needle, prefix; std::string text, nt; std::vector<u32> vals; size_t bits;
    ZyanArgParseDefinition defs[4]; std::vector<std::string> words; std::vector<const char*> argv; ZyanArgParseConfig cfg; MonAlloc al;
    explicit Shared(Rng& r) {
        size_t n = r.below(40); for (size_t i = 0; i < n; ++i) vals.push_back((u32)r.below(60)); std::sort(vals.begin(), vals.end());
        if (!ZYAN_SUCCESS(ZyanVectorInitEx(&v, 4, n, nullptr, &al.base, 2, 4)) || !ZYAN_SUCCESS(ZyanListInitEx(&l, 4, nullptr, &al.base)) || !ZYAN_SUCCESS(ZyanStringInitEx(&s, 10, &al.base, 2, 4))) harness_error("init");
        for (u32 x : vals) { if (!ZYAN_SUCCESS(ZyanVectorPushBack(&v, &x)) || !ZYAN_SUCCESS(ZyanListPushBack(&l, &x))) harness_error("push"); }
        for (size_t i = r.below(60); i; --i) text += r.pick({ 'a', 'b', 'A', 'B', 'z' }); nt = text.substr(r.below(text.size() + 1), r.below(4));
        ZyanStringView w; ZyanStringViewInsideBuffer(&w, text.c_str()); if (!text.empty() && !ZYAN_SUCCESS(ZyanStringAppend(&s, &w))) harness_error("append");
        if (nt.empty()) nt = "ab"; ZyanStringViewInsideBuffer(&needle, nt.c_str()); ZyanStringViewInsideBuffer(&prefix, "0x");
        bits = r.below(130); if (!ZYAN_SUCCESS(ZyanBitsetInitEx(&b, bits, &al.base, 2, 4))) harness_error("bits"); for (size_t i = 0; i < bits; ++i) ZyanBitsetAssign(&b, i, (ZyanBool)r.below(2));
        defs[0] = { "-a", ZYAN_TRUE, ZYAN_FALSE }; defs[1] = { "-v", ZYAN_FALSE, ZYAN_FALSE }; defs[2] = { "--long", ZYAN_FALSE, (ZyanBool)r.chance(1, 4) }; defs[3] = { nullptr, 0, 0 };
        words.push_back("p"); for (size_t i = r.below(7); i; --i) words.push_back(r.pick({ "-a", "-v", "--long", "x", "-av1", "-v9", "--", "-q", "un" })); for (auto& x : words) argv.push_back(x.c_str());
        cfg = { argv.data(), argv.size(), 0, (ZyanUSize)r.range(1, 8), defs }; }
    ~Shared() { ZyanVectorDestroy(&v); ZyanStringDestroy(&s); ZyanListDestroy(&l); ZyanBitsetDestroy(&b); }
};
static ZyanBool eq32(const void* a, const void* b) { return ZyanEqualsNumeric32((const ZyanU32*)a, (const ZyanU32*)b); }
static ZyanI32 cmp32(const void* a, const void* b) { return ZyanCompareNumeric32((const ZyanU32*)a, (const ZyanU32*)b); }
static void reader(const Shared& s, u64 seed) {
    Rng r(seed); ZyanString own; if (!ZYAN_SUCCESS(ZyanStringInit(&own, 0))) harness_error("own"); const ZyanStringView* sv = ZYAN_STRING_TO_VIEW(&s.s); size_t n = s.vals.size(), len = s.text.size();
    for (u64 k = r.range(10, 40); k; --k) {
        ZyanISize f = -2; ZyanUSize u = 77; u32 key = (u32)r.below(62); ZyanI32 c = 9; u64 i = r.below(n + 1), m = r.below(n - i + 1); ++dig->kinds[8];
        switch (r.below(17)) {
        case 0: out(ZyanVectorFind(&s.v, &key, &f, &eq32)); out((u64)f); break;
        case 1: out(ZyanVectorFindEx(&s.v, &key, &f, &eq32, i, m)); out((u64)f); break;
        case 2: out(ZyanVectorBinarySearch(&s.v, &key, &u, &cmp32)); out(u); break;
        case 3: out(ZyanVectorBinarySearchEx(&s.v, &key, &u, &cmp32, i, m)); out(u); break;
        case 4: { const u32* p = (const u32*)ZyanVectorGet(&s.v, i); out(p ? *p : 999); out(ZyanVectorGetSize(&s.v, &u)); out(u); break; }
        case 5: { ZyanVector d; ZyanStatus st = ZyanVectorDuplicate(&d, &s.v, r.below(50)); out(st); if (ZYAN_SUCCESS(st)) { for (size_t j = 0; j < n; ++j) out(*(u32*)ZyanVectorGet(&d, j)); ZyanVectorDestroy(&d); } break; }
        case 6: out(ZyanStringLPos(sv, &s.needle, &f)); out((u64)f); f = -2; out(ZyanStringLPosI(sv, &s.needle, &f)); out((u64)f); break;
        case 7: out(ZyanStringRPos(sv, &s.needle, &f)); out((u64)f); f = -2; out(ZyanStringRPosI(sv, &s.needle, &f)); out((u64)f); break;
        case 8: out(ZyanStringCompare(sv, &s.needle, &c)); out((u64)(c > 0 ? 2 : c < 0)); out(ZyanStringCompareI(&s.needle, sv, &c)); out((u64)(c > 0 ? 2 : c < 0)); break;
        case 9: { char ch = 1; u64 at = r.below(len + 2); out(ZyanStringGetChar(sv, at, &ch)); out((u8)ch); ZyanStringView w; ZyanStatus st = ZyanStringViewInsideViewEx(&w, sv, r.below(len + 1), 0); out(st); break; }
        case 10: { ZyanString d; ZyanStatus st = r.chance(1, 2) ? ZyanStringDuplicate(&d, sv, r.below(50)) : ZyanStringConcat(&d, sv, &s.needle, 3); out(st); if (ZYAN_SUCCESS(st)) { const char* t; ZyanStringGetData(&d, &t); mix(t, strlen(t)); ZyanStringDestroy(&d); } break; }
        case 11: out(ZyanStringAppend(&own, r.chance(1, 2) ? sv : &s.needle)); break;
        case 12: out(ZyanStringAppendHexS(&own, (i64)r.next(), (u8)r.below(20), ZYAN_TRUE, ZYAN_TRUE, &s.prefix)); out(ZyanStringAppendDecS(&own, (i64)r.next(), (u8)r.below(25), ZYAN_TRUE, &s.prefix)); break;
        case 13: out(ZyanStringAppendFormat(&own, "<%s|%llu|%c>", s.text.c_str(), (unsigned long long)r.next(), 'a' + (int)r.below(26))); break;
        case 14: { const ZyanListNode* q = nullptr; ZyanListGetHeadNode(&s.l, &q); for (; q; ZyanListGetNextNode(&q)) out(*(const u32*)ZyanListGetNodeData(q)); ZyanListGetTailNode(&s.l, &q); for (; q; ZyanListGetPrevNode(&q)) out(*(const u32*)ZyanListGetNodeData(q)); ZyanListGetSize(&s.l, &u); out(u); break; }
        case 15: { for (size_t j = 0; j < s.bits; j += 1 + r.below(9)) out(ZyanBitsetTest((ZyanBitset*)&s.b, j)); out(ZyanBitsetCount(&s.b, &u)); out(u); out(ZyanBitsetAll(&s.b)); out(ZyanBitsetAny(&s.b)); out(ZyanBitsetNone(&s.b)); ZyanBitset o; if (ZYAN_SUCCESS(ZyanBitsetInit(&o, s.bits))) { for (size_t j = 0; j < s.bits; ++j) ZyanBitsetAssign(&o, j, (ZyanBool)r.below(2)); out(r.chance(1, 2) ? ZyanBitsetXOR(&o, &s.b) : ZyanBitsetAND(&o, &s.b)); out(ZyanBitsetCount(&o, &u)); out(u); ZyanBitsetDestroy(&o); } break; }
        default: { ZyanVector o; const char* e = nullptr; ZyanStatus st = ZyanArgParse(&s.cfg, &o, &e); out(st); for (size_t j = 0; j < s.argv.size(); ++j) if (e == s.argv[j]) out(j); if (ZYAN_SUCCESS(st)) { ZyanVectorGetSize(&o, &u); out(u); for (size_t j = 0; j < u; ++j) { const ZyanArgParseArg* a = (const ZyanArgParseArg*)ZyanVectorGet(&o, j); out(a->def ? (u64)(a->def - s.defs) : 9); if (a->has_value) { const char* t; ZyanUSize tl; ZyanStringViewGetData(&a->value, &t); ZyanStringViewGetSize(&a->value, &tl); mix(t, tl); } } ZyanVectorDestroy(&o); } } } }
    const char* t = nullptr; ZyanStringGetData(&own, &t); mix(t, strlen(t)); out(strlen(t)); ZyanStringDestroy(&own); }

void prop_begin() {}
void prop_end() {}
static u64 now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (u64)t.tv_sec * 1000000000ull + (u64)t.tv_nsec; }
bool prop_case(u64 idx, Rng& r) {
    u32 T = (u32)r.range(2, 4), per = (u32)r.range(1, 6); bool share = idx % 3 == 0, same = r.chance(1, 3); Shared sh(r); u64 base = r.next() >> 20;
    trace("%u threads, %u programs each, %s, base %llu", T, per, share ? "shared objects" : "own objects", (unsigned long long)base);
    auto work = [&](u32 t, Dig& d) { dig = &d; for (u32 k = 0; k < per; ++k) { u64 id = base + (same ? 0 : t * 100) + k; if (share) reader(sh, id * 7919); if (!share || k % 2) conf_case(g_seed, id); } };
    std::vector<Dig> con(T), seq(T); std::vector<u64> t0(T), t1(T); std::vector<std::thread> th; std::atomic<u32> ready{ 0 };
    for (u32 t = 0; t < T; ++t) th.emplace_back([&, t] { ready.fetch_add(1); while (ready.load() != T) {} t0[t] = now(); work(t, con[t]); t1[t] = now(); });
    for (auto& x : th) x.join();
    if (*std::max_element(t0.begin(), t0.end()) < *std::min_element(t1.begin(), t1.end())) COUNT("cases whose threads all ran at the same time");
    for (u32 t = 0; t < T; ++t) { work(t, seq[t]);
        if (con[t].h != seq[t].h || con[t].n != seq[t].n) {
            Dig again; work(t, again); REQ(again.h == seq[t].h, "not-repeatable", "thread %u's programs give different results when repeated alone", t);
            violation("interference", "thread %u of %u (%s): results differ from the sequential run (%llu and %llu observations)", t, T, share ? "shared objects" : "own objects", (unsigned long long)con[t].n, (unsigned long long)seq[t].n); }
        static const char* const K[] = { "vector operations", "string operations", "number appends", "list operations", "bitset operations", "parsed command lines", "C-library helper rounds", "", "operations on shared objects" };
        for (int k = 0; k < 9; ++k) if (con[t].kinds[k]) ctr(K[k]) += con[t].kinds[k]; COUNTN("observations compared", con[t].n); }
    COUNT("concurrent cases"); if (share) COUNT("cases with shared objects"); return true; }
