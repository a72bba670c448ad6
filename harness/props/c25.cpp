// C25: the default allocator (blocks disjoint, large enough, aligned, contents kept, failures clean, nothing lost) and
// ZyanAllocatorInit. The C library's allocation functions are wrapped: counted and made to fail on demand.
#include "zy.hpp"
#include <cerrno>
#include <cstddef>
#include <new>

// ---- wrapped C library ------------------------------------------------------------------------------------------
static bool in_lib; static u64 w_calls, w_hit; static i64 w_fail = -1; static i64 w_live, w_moves;
struct Lib { Lib() { in_lib = true; } ~Lib() { in_lib = false; } };
static bool w_refuse() { if (!in_lib) return false; u64 k = w_calls++; if (w_fail >= 0 && (i64)k >= w_fail) { ++w_hit; errno = ENOMEM; return true; } return false; }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real_reallocarray(void*, size_t, size_t);
void* __real_aligned_alloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); void __real_free(void*);
void* __wrap_malloc(size_t n) { if (w_refuse()) return nullptr; void* p = __real_malloc(n); if (in_lib && p) ++w_live; return p; }
void* __wrap_calloc(size_t a, size_t b) { if (w_refuse()) return nullptr; void* p = __real_calloc(a, b); if (in_lib && p) ++w_live; return p; }
void* __wrap_realloc(void* o, size_t n) { if (w_refuse()) return nullptr; void* p = __real_realloc(o, n); if (in_lib && p) { if (!o) ++w_live; else if (o != p) ++w_moves; } return p; }
void* __wrap_reallocarray(void* o, size_t a, size_t b) { if (w_refuse()) return nullptr; void* p = __real_reallocarray(o, a, b); if (in_lib && p) { if (!o) ++w_live; else if (o != p) ++w_moves; } return p; }
void* __wrap_aligned_alloc(size_t a, size_t n) { if (w_refuse()) return nullptr; void* p = __real_aligned_alloc(a, n); if (in_lib && p) ++w_live; return p; }
int __wrap_posix_memalign(void** o, size_t a, size_t n) { if (w_refuse()) return ENOMEM; int r = __real_posix_memalign(o, a, n); if (in_lib && !r) ++w_live; return r; }
void __wrap_free(void* p) { if (in_lib && p) --w_live; __real_free(p); }
}

// ---- histories on the default allocator -------------------------------------------------------------------------
struct Blk { u8* p; ZyanUSize es, n; u64 id; };
static std::vector<Blk> live; static std::map<uintptr_t, size_t> ranges; static u64 ids;
static u8 pat(u64 id, size_t i) { return (u8)(id * 37 + i * 11 + (i >> 8) * 5 + (id >> 3)); }
static const ZyanUSize BIG = 1u << 21;
static void fill(const Blk& b) { size_t l = (size_t)(b.es * b.n); for (size_t i = 0; i < l; ++i) b.p[i] = pat(b.id, i); }
static void verify(const Blk& b, size_t upto, const char* when) {
    for (size_t i = 0; i < upto; ++i) REQ(b.p[i] == pat(b.id, i), "contents", "block of %zu x %zu bytes: byte %zu changed %s", (size_t)b.es, (size_t)b.n, i, when);
    COUNTN("bytes verified", upto); }
static void claim(const Blk& b) {
    size_t l = (size_t)(b.es * b.n), a = (size_t)(b.es & (~b.es + 1)); if (a > alignof(std::max_align_t)) a = alignof(std::max_align_t);
    uintptr_t s = (uintptr_t)b.p; REQ(s % a == 0, "alignment", "block for elements of %zu bytes at %p is not aligned to %zu", (size_t)b.es, (void*)b.p, a);
    auto it = ranges.upper_bound(s); REQ(it == ranges.end() || it->first >= s + l, "overlap", "new block %p+%zu overlaps a live block above", (void*)b.p, l);
    if (it != ranges.begin()) { --it; REQ(it->first + it->second <= s, "overlap", "new block %p+%zu overlaps a live block below (%#zx+%zu)", (void*)b.p, l, (size_t)it->first, it->second); }
    ranges[s] = l; COUNT("blocks checked for overlap"); }
static ZyanAllocator* dflt() { ZyanAllocator* a; { Lib l; a = ZyanAllocatorDefault(); } REQ(a && a->allocate && a->reallocate && a->deallocate, "default", "default allocator incomplete"); return a; }
static ZyanStatus d_alloc(void** p, ZyanUSize es, ZyanUSize n) { ZyanAllocator* a = dflt(); Lib l; return a->allocate(a, p, es, n); }
static ZyanStatus d_realloc(void** p, ZyanUSize es, ZyanUSize n) { ZyanAllocator* a = dflt(); Lib l; return a->reallocate(a, p, es, n); }
static ZyanStatus d_free(void* p, ZyanUSize es, ZyanUSize n) { ZyanAllocator* a = dflt(); Lib l; return a->deallocate(a, p, es, n); }
// A request no machine can satisfy: a product beyond half the address space, often one whose low bits are small.
static void impossible(Rng& r, ZyanUSize* es, ZyanUSize* n) {
    const int W = sizeof(ZyanUSize) * 8;
    switch (r.below(7)) {
    case 0: { int k = (int)r.range(1, W - 1); *es = (ZyanUSize)1 << k; *n = ((ZyanUSize)1 << (W - k)) + r.below(8); break; }                     // product 2^W + small
    case 1: { *es = r.range(3, 4096); *n = (ZyanUSize)(UMAX / *es + 1 + r.below(4)); break; }                                                 // just beyond
    case 2: { *es = (ZyanUSize)(UMAX / 2 + 1 + r.below(100)); *n = 2 + r.below(20); break; }
    case 3: { *es = 1; *n = (ZyanUSize)(UMAX - r.below(300)); break; }                                                                          // fits the type, not memory
    case 4: { *es = (ZyanUSize)(UMAX - r.below(64)); *n = (ZyanUSize)(UMAX - r.below(64)); break; }
    case 5: { *es = (ZyanUSize)(UMAX / 2 + 2 + r.below(64)); *n = 1; break; }
    default: { *n = r.range(2, 100000); *es = (ZyanUSize)(UMAX / *n + 1 + r.below(3)); } } }
static ZyanUSize size_of(Rng& r) { switch (r.below(8)) { case 0: case 1: return r.range(1, 16); case 2: return 1ull << r.below(11); case 3: return r.range(1, 300); case 4: return 24 + 8 * r.below(8); case 5: return 4096 - 16 + r.below(32); default: return r.range(1, 64); } }
static void pick(Rng& r, ZyanUSize* es, ZyanUSize* n) { *es = size_of(r); do *n = r.chance(1, 250) ? r.range(1, BIG / *es) : size_of(r); while (*es * *n > BIG); }
static void must_fail(ZyanStatus st, const char* what, ZyanUSize es, ZyanUSize n) {
    REQ(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "failure-status", "%s of %zu x %zu elements: %s instead of lack of memory", what, (size_t)es, (size_t)n, st_name(st)); }

static void history(Rng& r, int ops) {
    for (int o = 0; o < ops; ++o) {
        u32 k = (u32)r.below(20); ZyanUSize es, n; void* p = (void*)(uintptr_t)0x11; w_fail = -1; w_calls = 0; w_hit = 0;
        if (k < 7 && live.size() < 40) {
            pick(r, &es, &n); trace("allocate %zu x %zu", (size_t)es, (size_t)n);
            if (r.chance(1, 12)) { w_fail = 0; ZyanStatus st = d_alloc(&p, es, n); if (w_hit) { must_fail(st, "allocation without memory", es, n); COUNT("allocations without memory"); continue; } if (!ZYAN_SUCCESS(st)) violation("allocate", "%s", st_name(st)); }
            else { ZyanStatus st = d_alloc(&p, es, n); REQ(st == ZYAN_STATUS_SUCCESS, "allocate", "allocation of %zu x %zu: %s", (size_t)es, (size_t)n, st_name(st)); }
            REQ(p && p != (void*)(uintptr_t)0x11, "allocate", "no block for %zu x %zu", (size_t)es, (size_t)n);
            Blk b = { (u8*)p, es, n, ++ids }; claim(b); fill(b); live.push_back(b); COUNT("allocations");
        } else if (k < 13 && !live.empty()) {
            size_t i = r.below(live.size()); Blk b = live[i]; ZyanUSize n2, es2 = b.es; verify(b, (size_t)(b.es * b.n), "before reallocation");
            switch (r.below(6)) { case 0: n2 = b.n; break; case 1: n2 = 1; break; case 2: n2 = b.n + 1; break; case 3: n2 = b.n * 2 + r.below(3); break; case 4: n2 = b.n / 2 + 1; break; default: n2 = size_of(r); }
            if (r.chance(1, 10)) es2 = size_of(r);
            while (es2 * n2 > BIG) n2 = n2 / 2 + (n2 == 1); if (es2 * n2 > BIG) es2 = 1;
            p = b.p; trace("reallocate %zu x %zu to %zu x %zu", (size_t)b.es, (size_t)b.n, (size_t)es2, (size_t)n2); bool inj = r.chance(1, 6); if (inj) w_fail = 0;
            ZyanStatus st = d_realloc(&p, es2, n2);
            if (inj && w_hit && !ZYAN_SUCCESS(st)) { must_fail(st, "reallocation without memory", es2, n2); REQ(p == b.p, "failed-pointer", "failed reallocation changed the pointer"); verify(b, (size_t)(b.es * b.n), "by a failed reallocation"); fill(b); COUNT("reallocations without memory"); continue; }
            REQ(st == ZYAN_STATUS_SUCCESS && p, "reallocate", "reallocation to %zu x %zu: %s", (size_t)es2, (size_t)n2, st_name(st));
            ranges.erase((uintptr_t)b.p); Blk c = { (u8*)p, es2, n2, b.id }; claim(c); size_t keep = (size_t)std::min<u64>(b.es * b.n, es2 * n2); verify(c, keep, "by a reallocation"); c.id = ++ids; fill(c); live[i] = c; COUNT("reallocations");
            if (c.p != b.p) COUNT("reallocations that moved"); if (es2 * n2 < b.es * b.n) COUNT("reallocations to less");
        } else if (k < 16 && !live.empty()) {
            size_t i = r.below(live.size()); Blk b = live[i]; verify(b, (size_t)(b.es * b.n), "before release"); trace("deallocate %zu x %zu", (size_t)b.es, (size_t)b.n);
            if (r.chance(1, 8)) w_fail = 0;      // releasing must not need memory
            ZyanStatus st = d_free(b.p, b.es, b.n); REQ(st == ZYAN_STATUS_SUCCESS, "deallocate", "release: %s", st_name(st)); ranges.erase((uintptr_t)b.p); live.erase(live.begin() + i); COUNT("releases");
        } else if (k < 18) {
            impossible(r, &es, &n); trace("allocate impossible %zu x %zu", (size_t)es, (size_t)n); p = nullptr; must_fail(d_alloc(&p, es, n), "impossible allocation", es, n); COUNT("impossible allocations refused");
        } else if (!live.empty()) {
            size_t i = r.below(live.size()); Blk b = live[i]; impossible(r, &es, &n); if (r.chance(1, 2) && b.es > 1) { es = b.es; n = (ZyanUSize)(UMAX / es + 1 + r.below(3)); }
            trace("reallocate impossible %zu x %zu", (size_t)es, (size_t)n); p = b.p; must_fail(d_realloc(&p, es, n), "impossible reallocation", es, n);
            REQ(p == b.p, "failed-pointer", "impossible reallocation (%zu x %zu) changed the pointer", (size_t)es, (size_t)n); verify(b, (size_t)(b.es * b.n), "by an impossible reallocation"); fill(b); COUNT("impossible reallocations refused"); }
        if (!live.empty()) { const Blk& b = live[r.below(live.size())]; verify(b, (size_t)(b.es * b.n), "by an operation on another block"); }
    }
    w_fail = -1;
    for (auto& b : live) { verify(b, (size_t)(b.es * b.n), "before the final release"); REQ(d_free(b.p, b.es, b.n) == ZYAN_STATUS_SUCCESS, "deallocate", "final release failed"); COUNT("releases"); }
    live.clear(); ranges.clear();
}

// ---- blocks beyond 4 GiB (only their ends are touched; never two such cases at once) --------------------------------
static void huge_blocks(Rng& r) {
    static const u64 G = 1ull << 32; struct HB { u8* p; ZyanUSize es, n; }; std::vector<HB> v; w_fail = -1;
    auto split = [&](u64 bytes, ZyanUSize* es, ZyanUSize* n) { *es = (ZyanUSize)r.pick<u64>({ 1, 2, 8, 24, 4096, 65536, 1ull << 31, bytes }); *n = (ZyanUSize)((bytes + *es - 1) / *es); };
    auto marks = [&](const HB& b, u64 upto) { std::vector<u64> m; u64 l = b.es * b.n; for (u64 o : { (u64)0, (u64)1, (u64)4095, l / 2, G - 1, G, G + 1, (u64)0x7fffffff, (u64)0x80000000u, l - 1 }) if (o < upto && o < l) m.push_back(o); return m; };
    auto cannot = [&](u64 bytes, ZyanStatus st, const char* what) { void* q = __real_malloc(bytes); bool possible = q; __real_free(q); REQ(!possible && st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "allocate", "%s of %llu bytes: %s", what, (unsigned long long)bytes, st_name(st)); COUNT("huge blocks the system refused"); };
    for (int o = 0; o < 6; ++o) {
        u64 bytes = G + r.below(1 << 20) + (r.chance(1, 2) ? 0 : r.below(G / 2)); ZyanUSize es, n; split(bytes, &es, &n); void* p = nullptr;
        if (v.size() < 2 && !(v.size() && r.chance(1, 2))) {
            if (r.chance(1, 3)) { es = (ZyanUSize)r.range(1, 64); n = 1000; } trace("allocate %zu x %zu", (size_t)es, (size_t)n); ZyanStatus st = d_alloc(&p, es, n); if (!ZYAN_SUCCESS(st)) { cannot(es * n, st, "allocation"); continue; }
            HB b = { (u8*)p, es, n }; for (u64 m : marks(b, UMAX)) b.p[m] = (u8)(m * 7 + 3); v.push_back(b);
        } else {
            size_t i = r.below(v.size()); HB b = v[i]; u64 old = b.es * b.n; es = b.es; n = (ZyanUSize)((bytes + es - 1) / es); if (r.chance(1, 4)) n = (ZyanUSize)(2000000 / es + 1);
            p = b.p; trace("reallocate %zu x %zu to %zu", (size_t)es, (size_t)b.n, (size_t)n); ZyanStatus st = d_realloc(&p, es, n); if (!ZYAN_SUCCESS(st)) { cannot(es * n, st, "reallocation"); continue; }
            HB c = { (u8*)p, es, n }; for (u64 m : marks(b, std::min<u64>(old, es * n))) if (m < es * n) REQ(c.p[m] == (u8)(m * 7 + 3), "contents", "byte %llu changed by a reallocation from %llu to %llu bytes", (unsigned long long)m, (unsigned long long)old, (unsigned long long)(es * n));
            for (u64 m : marks(c, UMAX)) c.p[m] = (u8)(m * 7 + 3); v[i] = c;
        }
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) REQ(v[i].p + v[i].es * v[i].n <= v[j].p || v[j].p + v[j].es * v[j].n <= v[i].p, "overlap", "blocks of %zu x %zu and %zu x %zu bytes overlap", (size_t)v[i].es, (size_t)v[i].n, (size_t)v[j].es, (size_t)v[j].n);
        for (auto& b : v) for (u64 m : marks(b, UMAX)) REQ(b.p[m] == (u8)(m * 7 + 3), "contents", "byte %llu of a block of %zu x %zu changed", (unsigned long long)m, (size_t)b.es, (size_t)b.n);
        COUNT("requests beyond 4 GiB");
    }
    for (auto& b : v) REQ(d_free(b.p, b.es, b.n) == ZYAN_STATUS_SUCCESS, "deallocate", "release failed");
}

// ---- the containers' short constructors use the default allocator ---------------------------------------------------
static int dtors; static void dtor(void*) { ++dtors; }
static void defaults(Rng& r) {
    ZyanVector v; ZyanString s; ZyanList l; ZyanBitset b; ZyanStatus sv, ss, sl, sb; u64 val = 0; w_fail = r.chance(1, 2) ? (i64)r.below(12) : -1; w_calls = w_hit = 0;
    bool fails = w_fail >= 0; trace("default containers %llx, system memory ends after %lld requests", (unsigned long long)r.s, (long long)w_fail);
    auto ok = [&](ZyanStatus st, const char* w) { REQ(st == ZYAN_STATUS_SUCCESS || (fails && w_hit && st == ZYAN_STATUS_NOT_ENOUGH_MEMORY), "default-container", "%s: %s (memory ended: %d)", w, st_name(st), (int)w_hit); return ZYAN_SUCCESS(st); };
    u64 nv = r.below(9); { Lib q; sv = ZyanVectorInit(&v, 8, nv, &dtor); } ok(sv, "ZyanVectorInit"); { Lib q; ss = ZyanStringInit(&s, r.below(30)); } ok(ss, "ZyanStringInit");
    { Lib q; sl = ZyanListInit(&l, 8, &dtor); } ok(sl, "ZyanListInit"); u64 nb = r.below(200); { Lib q; sb = ZyanBitsetInit(&b, nb); } ok(sb, "ZyanBitsetInit");
    std::vector<u64> mv, ml; std::string ms; std::vector<bool> mb(nb);
    ZyanStringView w; ZyanStringViewInsideBuffer(&w, "xyz"); u64 ops = r.range(4, 40);
    for (u64 i = 0; i < ops; ++i) {
        val = r.next(); ZyanStatus st;
        switch (r.below(7)) {
        case 0: if (ZYAN_SUCCESS(sv)) { { Lib q; st = ZyanVectorPushBack(&v, &val); } if (ok(st, "push")) mv.push_back(val); } break;
        case 1: if (ZYAN_SUCCESS(ss)) { { Lib q; st = ZyanStringAppend(&s, &w); } if (ok(st, "append")) ms += "xyz"; } break;
        case 2: if (ZYAN_SUCCESS(sl)) { { Lib q; st = ZyanListPushBack(&l, &val); } if (ok(st, "list push")) ml.push_back(val); } break;
        case 3: if (ZYAN_SUCCESS(sb)) { { Lib q; st = ZyanBitsetPush(&b, (ZyanBool)(val & 1)); } if (ok(st, "bit push")) mb.push_back(val & 1); } break;
        case 4: if (ZYAN_SUCCESS(sl) && !ml.empty()) { { Lib q; st = ZyanListPopFront(&l); } ok(st, "list pop"); ml.erase(ml.begin()); } break;
        case 5: if (ZYAN_SUCCESS(sv)) { ZyanVector d; { Lib q; st = ZyanVectorDuplicate(&d, &v, r.below(20)); } if (ok(st, "duplicate")) { ZyanUSize n = 0; ZyanVectorGetSize(&d, &n); REQ(n == mv.size(), "default-container", "duplicate has %zu elements", (size_t)n); for (size_t k = 0; k < n; ++k) REQ(*(u64*)ZyanVectorGet(&d, k) == mv[k], "default-container", "duplicate differs"); d.destructor = nullptr; { Lib q; st = ZyanVectorDestroy(&d); } REQ(st == ZYAN_STATUS_SUCCESS, "default-container", "destroying a duplicate"); } } break;
        default: if (ZYAN_SUCCESS(ss)) { ZyanString d; ZyanStringView sv2 = *(const ZyanStringView*)&s; bool cat = r.chance(1, 2); { Lib q; st = cat ? ZyanStringConcat(&d, &sv2, &w, r.below(9)) : ZyanStringDuplicate(&d, &sv2, r.below(9)); } if (ok(st, "string copy")) { const char* t = nullptr; ZyanStringGetData(&d, &t); REQ(ms + (cat ? "xyz" : "") == t, "default-container", "string copy differs"); { Lib q; st = ZyanStringDestroy(&d); } REQ(st == ZYAN_STATUS_SUCCESS, "default-container", "destroying a string copy"); } } } }
    { static ZyanArgParseDefinition D[] = { { "-a", ZYAN_TRUE, ZYAN_FALSE }, { "--bb", ZYAN_FALSE, ZYAN_FALSE }, { nullptr, 0, 0 } }; const char* av[] = { "p", "-a", "--bb", "1", "u" }; ZyanArgParseConfig c = { av, 5, 0, 9, D }; ZyanVector out; const char* e = nullptr; ZyanStatus st; { Lib q; st = ZyanArgParse(&c, &out, &e); }
      if (ok(st, "ZyanArgParse")) { ZyanUSize n = 0; ZyanVectorGetSize(&out, &n); REQ(n == 3, "default-container", "%zu arguments", (size_t)n); Lib q; st = ZyanVectorDestroy(&out); } }
    if (ZYAN_SUCCESS(sv)) { ZyanUSize n = 0; ZyanVectorGetSize(&v, &n); REQ(n == mv.size(), "default-container", "vector has %zu of %zu elements", (size_t)n, mv.size()); for (size_t k = 0; k < n; ++k) REQ(*(u64*)ZyanVectorGet(&v, k) == mv[k], "default-container", "element %zu differs", k); Lib q; REQ(ZyanVectorDestroy(&v) == ZYAN_STATUS_SUCCESS, "default-container", "destroy"); }
    if (ZYAN_SUCCESS(ss)) { const char* t = nullptr; ZyanStringGetData(&s, &t); REQ(ms == t, "default-container", "string differs"); Lib q; REQ(ZyanStringDestroy(&s) == ZYAN_STATUS_SUCCESS, "default-container", "destroy"); }
    if (ZYAN_SUCCESS(sl)) { const ZyanListNode* n = nullptr; ZyanListGetHeadNode(&l, &n); for (u64 x : ml) { REQ(n && *(const u64*)ZyanListGetNodeData(n) == x, "default-container", "list differs"); ZyanListGetNextNode(&n); } REQ(!n, "default-container", "list too long"); Lib q; REQ(ZyanListDestroy(&l) == ZYAN_STATUS_SUCCESS, "default-container", "destroy"); }
    if (ZYAN_SUCCESS(sb)) { for (size_t k = 0; k < mb.size(); ++k) REQ((ZyanBitsetTest(&b, k) == ZYAN_STATUS_TRUE) == mb[k], "default-container", "bit %zu differs", k); Lib q; REQ(ZyanBitsetDestroy(&b) == ZYAN_STATUS_SUCCESS, "default-container", "destroy"); }
    if (w_hit) COUNT("default containers without memory"); w_fail = -1; COUNT("default containers");
}

// ---- ZyanAllocatorInit ------------------------------------------------------------------------------------------
#define CB(k) static ZyanStatus al##k(ZyanAllocator*, void**, ZyanUSize, ZyanUSize) { return ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER, k); } \
              static ZyanStatus de##k(ZyanAllocator*, void*, ZyanUSize, ZyanUSize) { return ZYAN_MAKE_STATUS(1u, ZYAN_MODULE_USER, 100 + k); }
CB(1) CB(2) CB(3)
static void inits(Rng& r) {
    static const ZyanAllocatorAllocate A[] = { nullptr, &al1, &al2, &al3 }; static const ZyanAllocatorDeallocate D[] = { nullptr, &de1, &de2, &de3 };
    for (int k = 0; k < 40; ++k) {
        struct { u64 g0; ZyanAllocator a; u64 g1[2]; } x; u64 g = r.next(); x.g0 = x.g1[0] = x.g1[1] = g; memset(&x.a, (int)g | 1, sizeof x.a);
        size_t i = r.below(8), j = r.below(8), d = r.below(8); i = i > 3 ? 1 : i; j = j > 3 ? 2 : j; d = d > 3 ? 3 : d; bool nul = r.chance(1, 10); trace("init %d %zu %zu %zu", nul, i, j, d);
        ZyanStatus st = ZyanAllocatorInit(nul ? nullptr : &x.a, A[i], A[j], D[d]);
        if (nul || !i || !j || !d) { REQ(st == ZYAN_STATUS_INVALID_ARGUMENT, "init", "missing callback or allocator accepted: %s", st_name(st)); COUNT("refused initializations"); }
        else { REQ(st == ZYAN_STATUS_SUCCESS, "init", "%s", st_name(st)); REQ(x.a.allocate == A[i] && x.a.reallocate == A[j] && x.a.deallocate == D[d], "init", "callbacks stored wrongly"); COUNT("initializations"); }
        REQ(x.g0 == g && x.g1[0] == g && x.g1[1] == g, "init", "bytes next to the allocator changed");
        ZyanAllocator* a = dflt(); REQ(a == ZyanAllocatorDefault() && a->allocate != A[1] && a->allocate != A[2], "default", "default allocator changed");
    } }

void prop_begin() {}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    if (idx % 50 == 7) { inits(r); return true; }
#ifdef VH_HUGE
    if (idx % 800 == 16) { huge_blocks(r); return true; }
#endif
    bool d = idx % 4 == 1; u64 ops = d ? 0 : r.range(10, 120); i64 before = w_live; Rng again = r;
    if (d) defaults(r); else history(r, (int)ops);
    if (w_live > before) {      // a cache would stop growing, a leak does not
        i64 first = w_live - before; COUNT("repeated cases"); for (int k = 0; k < 200; ++k) { Rng q = again; if (!d) q.range(10, 120); if (d) defaults(q); else history(q, (int)ops); }
        REQ(w_live - before < first + 100, "leak", "%lld blocks not returned to the system after one pass, %lld after 201", (long long)first, (long long)(w_live - before)); }
    if (w_live < before) COUNT("cases that returned more than they took");
    return true; }
