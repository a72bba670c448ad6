// Containers of more than 4 GiB (or more than 2^32 elements) in lazily backed memory: a size, index or byte count that
// passes through 32 bits changes what is observed. Only the start and the tail are ever touched.
#include "zy.hpp"
#include <sys/mman.h>
#include <deque>
#ifndef HUGE_SET
#error "HUGE_SET"
#endif
static const u64 G4 = (u64)1 << 32;
static bool g_ok;
static void* reserve_mem(u64 n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); return p == MAP_FAILED ? nullptr : p; }
static u64 rnd_up(u64 n) { return (n + 4095) & ~(u64)4095; }
// While the probe below runs: how much of the blocks has been touched.
static bool g_probe; static u64 g_touched;
static void note_touched(void* p, u64 n) { if (!g_probe || !n) return; std::vector<unsigned char> m(n / 4096 + 1); u64 c = 0; if (mincore(p, n, m.data()) == 0) for (auto x : m) c += x & 1; g_touched = std::max(g_touched, c * 4096); }
struct LazyAlloc {
    ZyanAllocator base; u64 magic = 0x1A2B; std::map<void*, BlockInfo> live; u64 calls = 0;
    static LazyAlloc* self(ZyanAllocator* a) { LazyAlloc* m = (LazyAlloc*)a; if (m->magic != 0x1A2B) violation("alloc-foreign", "foreign allocator object"); return m; }
    static ZyanStatus s_alloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { LazyAlloc* m = self(a); ++m->calls; if (!es || !n) violation("alloc-zero", "empty request"); void* q = reserve_mem(rnd_up(es * n)); if (!q) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; m->live[q] = BlockInfo{es, n, 0}; *p = q; return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus s_realloc(ZyanAllocator* a, void** p, ZyanUSize es, ZyanUSize n) { LazyAlloc* m = self(a); ++m->calls; auto it = m->live.find(*p); if (it == m->live.end()) violation("realloc-foreign", "foreign block");
        if (es != it->second.es || !n) violation("realloc-size", "reallocate described as %zu x %zu", (size_t)es, (size_t)n);
        note_touched(*p, rnd_up(es * it->second.n)); void* q = mremap(*p, rnd_up(es * it->second.n), rnd_up(es * n), MREMAP_MAYMOVE); if (q == MAP_FAILED) return ZYAN_STATUS_NOT_ENOUGH_MEMORY; 
        u64 old = es * it->second.n, nw = es * n; (void)old; m->live.erase(it); m->live[q] = BlockInfo{es, n, 0}; if (rnd_up(nw) > nw) memset((u8*)q + nw, 0, rnd_up(nw) - nw); *p = q; return ZYAN_STATUS_SUCCESS; }
    static ZyanStatus s_free(ZyanAllocator* a, void* p, ZyanUSize es, ZyanUSize n) { LazyAlloc* m = self(a); ++m->calls; auto it = m->live.find(p); if (it == m->live.end()) violation("free-foreign", "foreign block");
        if (es != it->second.es || n != it->second.n) violation("free-size", "deallocate described as %zu x %zu, block is %zu x %zu", (size_t)es, (size_t)n, (size_t)it->second.es, (size_t)it->second.n); note_touched(p, rnd_up(es * n)); munmap(p, rnd_up(es * n)); m->live.erase(it); return ZYAN_STATUS_SUCCESS; }
    LazyAlloc() { ZyanAllocatorInit(&base, s_alloc, s_realloc, s_free); }
    ~LazyAlloc() { for (auto& b : live) munmap(b.first, rnd_up(b.second.es * b.second.n)); }
    ZyanAllocator* get() { return &base; }
};
#define OK(st, what) do { ZyanStatus s_ = (st); REQ(s_ == ZYAN_STATUS_SUCCESS, "huge-status", "%s on a container beyond 4 GiB returned %s", what, st_name(s_)); } while (0)
static Bytes rb(Rng& r, u64 n) { Bytes b(n); for (auto& x : b) x = (u8)r.range(1, 255); return b; }

// ---- vector -------------------------------------------------------------------------------------------------------------
struct HugeVec {
    ZyanVector v; LazyAlloc A; u64 es, n = 0, cap = 0, growth, thr; bool dyn; void* fix = nullptr; u64 fixcap = 0; Rng& r; bool judge_cap;
    u64 tb = 0; std::deque<Bytes> tail; std::map<u64, Bytes> low;       // elements [tb,n) are in `tail`, those in `low` are set, all others are zero
    HugeVec(Rng& r_, bool jc) : r(r_), judge_cap(jc) {
        es = r.pick<u64>({1, 1, 2, 16, 24, 4096}); dyn = !r.chance(1, 3); growth = r.range(1, 2); thr = r.pick<u64>({0, 2, 4});
        u64 n0 = (es <= 2 ? G4 / (r.chance(1, 2) ? 1 : es) : G4 / es) + r.range(1, 5000); if (r.chance(1, 3)) n0 += n0 / 2;
        trace("huge vector es=%llu n=%llu dyn=%d growth=%llu thr=%llu", (unsigned long long)es, (unsigned long long)n0, dyn, (unsigned long long)growth, (unsigned long long)thr);
        memset(&v, 0xC3, sizeof v);
        if (dyn) { OK(ZyanVectorInitEx(&v, es, r.chance(1, 2) ? 0 : n0 - 100, nullptr, A.get(), (ZyanU8)growth, (ZyanU8)thr), "InitEx"); }
        else { fixcap = n0 + 300; fix = reserve_mem(rnd_up(fixcap * es)); if (!fix) harness_error("mmap"); OK(ZyanVectorInitCustomBuffer(&v, es, fix, fixcap, nullptr), "InitCustomBuffer"); growth = 1; thr = 0; }
        get_cap(); resize(n0);
    }
    ~HugeVec() { if (fix) munmap(fix, rnd_up(fixcap * es)); }
    void get_cap() { ZyanUSize k = 0; ZyanStatus st = ZyanVectorGetCapacity(&v, &k); REQ(st == ZYAN_STATUS_SUCCESS, "getter", "GetCapacity"); cap = k; }
    const u8* at(u64 i) { return (const u8*)ZyanVectorGet(&v, i); }
    void check(const char* what, u64 cap0, u64 need, bool shrinks) {
        trace("%s -> size %llu", what, (unsigned long long)n);
        ZyanUSize k = 0; ZyanStatus st = ZyanVectorGetSize(&v, &k); REQ(st == ZYAN_STATUS_SUCCESS && k == n, "huge-size", "%s: size %zu, history says %llu", what, (size_t)k, (unsigned long long)n);
        get_cap();
        if (judge_cap) {
            u64 want = cap0; bool two = false; if (dyn && !shrinks && need > cap0) want = need * growth; else if (dyn && shrinks && thr && n * thr < cap0) { want = std::max<u64>(1, n * growth); two = growth > thr; }
            REQ(cap == want || (two && cap == cap0), "huge-capacity", "%s: capacity %llu -> %llu, contract says %llu (size %llu, growth %llu, threshold %llu)", what, (unsigned long long)cap0, (unsigned long long)cap, (unsigned long long)want, (unsigned long long)n, (unsigned long long)growth, (unsigned long long)thr); }
        if (dyn) { REQ(A.live.size() == 1, "blocks", "%zu blocks", A.live.size()); REQ(A.live.begin()->second.n == cap && A.live.begin()->second.es == es, "huge-block", "%s: capacity %llu but the block has %zu x %zu bytes", what, (unsigned long long)cap, (size_t)A.live.begin()->second.n, (size_t)A.live.begin()->second.es); REQ(!n || at(0) == A.live.begin()->first, "huge-data", "%s: data is not in the block", what); }
        else REQ(!n || at(0) == fix, "huge-data", "%s: fixed buffer moved", what);
        REQ(!at(n), "huge-range", "%s: element %llu of %llu accessible", what, (unsigned long long)n, (unsigned long long)n);
        const u8* b = n ? at(0) : nullptr;
        for (u64 i = 0; i < tail.size(); ++i) { const u8* p = at(tb + i); REQ(p && p == b + (tb + i) * es, "huge-address", "%s: element %llu is not at its place", what, (unsigned long long)(tb + i)); REQ(!memcmp(p, tail[i].data(), es), "huge-content", "%s: element %llu of %llu differs from the history", what, (unsigned long long)(tb + i), (unsigned long long)n); }
        for (auto& x : low) REQ(!memcmp(at(x.first), x.second.data(), es), "huge-content", "%s: element %llu differs from the history", what, (unsigned long long)x.first);
        if (tb) { Bytes z(es, 0); REQ(!memcmp(at(tb - 1), low.count(tb - 1) ? low[tb - 1].data() : z.data(), es), "huge-content", "%s: element %llu differs from the history", what, (unsigned long long)tb - 1); }
        COUNT("operations beyond 2^32");
    }
    void resize(u64 k) { u64 c0 = cap; OK(ZyanVectorResize(&v, k), "Resize");
        bool grow = k >= n; 
        if (k >= n) { for (u64 i = n; i < k; ++i) { if (k - i <= 64) { Bytes e = rb(r, es); u8* p = (u8*)ZyanVectorGetMutable(&v, i); REQ(p, "huge-get", "element %llu not accessible after Resize to %llu", (unsigned long long)i, (unsigned long long)k); memcpy(p, e.data(), es); if (tail.empty()) tb = i; tail.push_back(e); } else if (k - n > 5000) { i = k - 65; tail.clear(); tb = 0; } else { Bytes z(es, 0); memcpy(ZyanVectorGetMutable(&v, i), z.data(), es); if (tail.empty()) tb = i; tail.push_back(z); } } }
        else { if (k <= tb) { tail.clear(); tb = k; } else tail.resize(k - tb); while (!low.empty() && low.rbegin()->first >= k) low.erase(std::prev(low.end())); }
        n = k; check("Resize", c0, k, !grow); }
    void step() {
        u64 tl = tail.size(); Bytes e = rb(r, es); u64 c0 = cap; bool full = !dyn && n == cap;
        switch (r.below(14)) {
        case 0: { ZyanStatus st = ZyanVectorPushBack(&v, e.data()); if (full) { REQ(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "huge-full", "PushBack into a full buffer: %s", st_name(st)); check("refused PushBack", c0, n, false); break; } OK(st, "PushBack"); tail.push_back(e); ++n; check("PushBack", c0, n, false); break; }
        case 1: { if (full) break; u64 i = r.range(0, tl); OK(ZyanVectorInsert(&v, tb + i, e.data()), "Insert"); tail.insert(tail.begin() + i, e); ++n; check("Insert", c0, n, false); break; }
        case 2: { u64 k = r.range(1, 20); if (!dyn && n + k > cap) break; Bytes src; std::vector<Bytes> es2; for (u64 j = 0; j < k; ++j) { es2.push_back(rb(r, es)); src.insert(src.end(), es2[j].begin(), es2[j].end()); } u64 i = r.range(0, tl); OK(ZyanVectorInsertRange(&v, tb + i, src.data(), k), "InsertRange"); tail.insert(tail.begin() + i, es2.begin(), es2.end()); n += k; check("InsertRange", c0, n, false); break; }
        case 3: { if (tl < 4) break; u64 i = r.below(tl); OK(ZyanVectorDelete(&v, tb + i), "Delete"); tail.erase(tail.begin() + i); --n; check("Delete", c0, n, true); break; }
        case 4: { if (tl < 8) break; u64 i = r.below(tl - 1), k = r.range(1, std::min<u64>(tl - i, 5)); OK(ZyanVectorDeleteRange(&v, tb + i, k), "DeleteRange"); tail.erase(tail.begin() + i, tail.begin() + i + k); n -= k; check("DeleteRange", c0, n, true); break; }
        case 5: { if (tl < 4) break; OK(ZyanVectorPopBack(&v), "PopBack"); tail.pop_back(); --n; check("PopBack", c0, n, true); break; }
        case 6: { if (!tl) break; u64 i = r.below(tl); OK(ZyanVectorSet(&v, tb + i, e.data()), "Set"); tail[i] = e; check("Set", c0, n, false); break; }
        case 7: { if (!tb) break; u64 i = r.chance(1, 2) ? r.below(tb) : r.below(std::min<u64>(tb, 1000)); OK(ZyanVectorSet(&v, i, e.data()), "Set"); low[i] = e; check("Set", c0, n, false); break; }
        case 8: swap_far(); break;
        case 9: { if (full) break; u64 i = r.range(0, tl); void* slot = nullptr; OK(ZyanVectorEmplaceEx(&v, tb + i, &slot, nullptr), "EmplaceEx"); REQ(slot && slot == at(tb + i), "huge-emplace", "EmplaceEx returned another element"); memcpy(slot, e.data(), es); tail.insert(tail.begin() + i, e); ++n; check("EmplaceEx", c0, n, false); break; }
        case 10: { u64 k = r.range(1, 12); if (!dyn && n + k > cap) break; OK(ZyanVectorResizeEx(&v, n + k, e.data()), "ResizeEx"); for (u64 j = 0; j < k; ++j) tail.push_back(e); n += k; check("ResizeEx", c0, n, false); break; }
        case 11: { if (tb < 2000 || !r.chance(1, 4)) break; u64 i = r.range(0, 900), k = tb - i; if (!r.chance(1, 2)) k = tb - i - r.below(50); OK(ZyanVectorDeleteRange(&v, i, k), "DeleteRange (of more than 2^32 bytes)");
                    std::map<u64, Bytes> nl; for (auto& x : low) { if (x.first < i) nl.insert(x); else if (x.first >= i + k) nl[x.first - k] = x.second; } low.swap(nl); tb -= k; n -= k; check("DeleteRange of most elements", c0, n, true); COUNT("huge removals"); break; }
        case 12: { if (!dyn) break; u64 k = n + r.range(0, 300); OK(ZyanVectorReserve(&v, k), "Reserve"); get_cap(); REQ(cap >= k && cap >= c0, "huge-capacity", "Reserve(%llu) left capacity %llu", (unsigned long long)k, (unsigned long long)cap); check("Reserve", cap, n, false); break; }
        default: { if (!dyn || !n) break; OK(ZyanVectorShrinkToFit(&v), "ShrinkToFit"); get_cap(); REQ(cap == n, "huge-capacity", "ShrinkToFit left capacity %llu for %llu elements", (unsigned long long)cap, (unsigned long long)n); check("ShrinkToFit", cap, n, false); } }
    }
    void swap_far() { if (!tb || tail.empty() || n == cap) return; u64 i = r.below(tail.size()), j = r.below(tb), c0 = cap; Bytes z(es, 0); if (low.count(j)) z = low[j];
        OK(ZyanVectorSwapElements(&v, tb + i, j), "SwapElements"); low[j] = tail[i]; tail[i] = z; check("SwapElements", c0, n, false); }
    void done() { if (r.chance(1, 3) && n > 100) resize(r.below(100)); OK(ZyanVectorDestroy(&v), "Destroy"); REQ(A.live.empty(), "leak", "%zu blocks left", A.live.size()); }
};

static void huge_vector(Rng& r, bool jc) { HugeVec h(r, jc); u64 k = r.range(10, 40); for (u64 i = 0; i < k; ++i) h.step(); h.done(); COUNT("huge vectors"); }

// ---- searches -----------------------------------------------------------------------------------------------------------
static u64 s_calls;
static ZyanI32 cmp_byte(const void* a, const void* b) { ++s_calls; return (int)*(const u8*)a - (int)*(const u8*)b; }
static ZyanBool eq_byte(const void* a, const void* b) { ++s_calls; return *(const u8*)a == *(const u8*)b; }
static void huge_search(Rng& r) {
    u64 es = r.pick<u64>({1, 1, 8, 24}), n = G4 / (r.chance(1, 2) ? 1 : es) + r.range(100, 5000); if (n * es > 40 * G4) n = G4 / es + 100; void* mem = reserve_mem(rnd_up(n * es)); if (!mem) harness_error("mmap");
    ZyanVector v; OK(ZyanVectorInitCustomBuffer(&v, es, mem, n, nullptr), "InitCustomBuffer"); OK(ZyanVectorResize(&v, n), "Resize");
    u64 tl = r.range(1, 60), tb = n - tl; std::vector<u8> t(tl); for (auto& x : t) x = (u8)(2 * r.range(1, 12)); std::sort(t.begin(), t.end()); for (u64 i = 0; i < tl; ++i) *((u8*)mem + (tb + i) * es) = t[i];
    trace("search es=%llu n=%llu tail=%llu", (unsigned long long)es, (unsigned long long)n, (unsigned long long)tl);
    for (int q = 0; q < 20; ++q) {
        Bytes key(es, 0); key[0] = (u8)r.range(0, 26); s_calls = 0;
        u64 i, c; bool whole = r.chance(1, 3); if (whole) { i = 0; c = n; } else if (r.chance(1, 2)) { i = r.below(n); c = n - i - r.below(std::min<u64>(n - i, 40)); } else { i = tb + r.below(tl); c = r.range(0, n - i); }
        ZyanUSize f = 0x77; ZyanStatus st = whole ? ZyanVectorBinarySearch(&v, key.data(), &f, cmp_byte) : ZyanVectorBinarySearchEx(&v, key.data(), &f, cmp_byte, i, c);
        u64 want = i; if (key[0]) { u64 j = std::max(i, tb); while (j < i + c && t[j - tb] < key[0]) ++j; want = std::min(j, i + c); if (i + c <= tb) want = i + c; }
        bool found = want < i + c && (want >= tb ? t[want - tb] : 0) == key[0];
        REQ(st == (found ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && f == want, "huge-binary", "binary search for %d in [%llu,+%llu) of %llu: %s index %llu, reference %llu", key[0], (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st), (unsigned long long)f, (unsigned long long)want);
        REQ(s_calls <= 70, "huge-binary-cost", "%llu comparisons", (unsigned long long)s_calls);
        u64 li = tb - r.below(20) + r.below(tl), lc = r.range(0, n - li); ZyanISize g = 5; i64 lw = -1; for (u64 j = li; j < li + lc && lw < 0; ++j) if ((j >= tb ? t[j - tb] : 0) == key[0]) lw = (i64)j;
        st = ZyanVectorFindEx(&v, key.data(), &g, eq_byte, li, lc); REQ(st == (lw >= 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && g == lw, "huge-linear", "linear search for %d in [%llu,+%llu): %s index %lld, reference %lld", key[0], (unsigned long long)li, (unsigned long long)lc, st_name(st), (long long)g, (long long)lw);
        st = ZyanVectorFindEx(&v, key.data(), &g, eq_byte, li, n - li + 1); REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "huge-window", "window behind the end: %s", st_name(st));
        st = ZyanVectorBinarySearchEx(&v, key.data(), &f, cmp_byte, i, n - i + 1); REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "huge-window", "window behind the end: %s", st_name(st));
        COUNT("searches beyond 2^32"); }
    ZyanVectorDestroy(&v); munmap(mem, rnd_up(n * es));
}

// ---- string -------------------------------------------------------------------------------------------------------------
static u8 lo_(u8 c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static u8 up_(u8 c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
struct HugeStr {
    ZyanString s; LazyAlloc A; Rng& r; u64 n = 0, growth, thr; bool dyn; void* fix = nullptr; u64 fixcap = 0, tb = 0; Bytes tail; std::map<u64, u8> low;     // [tb,n) in `tail`, marks in `low`, all others zero
    explicit HugeStr(Rng& r_, bool force_dyn = false) : r(r_) {
        dyn = force_dyn || !r.chance(1, 3); growth = r.range(1, 2); thr = r.pick<u64>({0, 2, 4}); u64 n0 = G4 + r.range(1, 5000) + (r.chance(1, 3) ? G4 / 2 : 0);
        trace("huge string n=%llu dyn=%d growth=%llu thr=%llu", (unsigned long long)n0, dyn, (unsigned long long)growth, (unsigned long long)thr); memset(&s, 0xC3, sizeof s);
        if (dyn) OK(ZyanStringInitEx(&s, r.chance(1, 2) ? 0 : n0, A.get(), (ZyanU8)growth, (ZyanU8)thr), "StringInitEx");
        else { fixcap = n0 + 400; fix = reserve_mem(rnd_up(fixcap)); if (!fix) harness_error("mmap"); OK(ZyanStringInitCustomBuffer(&s, (char*)fix, fixcap), "StringInitCustomBuffer"); }
        OK(ZyanStringResize(&s, n0), "StringResize"); n = tb = n0; u64 k = r.range(10, 200); append(k);
        for (int i = 0; i < 5; ++i) { u64 at = r.chance(1, 2) ? r.below(5000) : r.below(tb); u8 c = (u8)r.range(1, 255); OK(ZyanStringSetChar(&s, at, (char)c), "SetChar"); low[at] = c; }
        check("setup"); }
    ~HugeStr() { if (fix) munmap(fix, rnd_up(fixcap)); }
    Bytes text(u64 k) { Bytes b(k); for (auto& x : b) x = r.chance(1, 2) ? (u8)r.pick<int>({'a', 'A', 'b', 'B', 'z'}) : (u8)r.range(1, 255); return b; }
    const u8* data() { const char* d = nullptr; ZyanStringGetData(&s, &d); return (const u8*)d; }
    bool room(u64 k) { ZyanUSize c = 0; ZyanStringGetCapacity(&s, &c); return dyn || n + k <= c; }
    void append(u64 k) { Bytes t = text(k); ZyanStringView w; OK(ZyanStringViewInsideBufferEx(&w, (const char*)t.data(), k), "view"); OK(ZyanStringAppend(&s, &w), "Append"); tail.insert(tail.end(), t.begin(), t.end()); n += k; }
    void check(const char* what) {
        trace("%s -> size %llu", what, (unsigned long long)n); ZyanUSize k = 0, c = 0; OK(ZyanStringGetSize(&s, &k), "GetSize"); OK(ZyanStringGetCapacity(&s, &c), "GetCapacity"); REQ(k == n, "huge-size", "%s: size %zu, history says %llu", what, (size_t)k, (unsigned long long)n); REQ(c >= n, "huge-capacity", "%s: capacity %zu below size", what, (size_t)c);
        if (dyn) REQ(A.live.size() == 1 && A.live.begin()->second.n * A.live.begin()->second.es == c + 1, "huge-block", "%s: capacity %zu but the block has %zu bytes", what, (size_t)c, (size_t)A.live.begin()->second.n);
        const u8* d = data(); REQ(!memcmp(d + tb, tail.data(), tail.size()), "huge-content", "%s: characters behind %llu differ from the history", what, (unsigned long long)tb); REQ(d[n] == 0, "huge-terminator", "%s: no terminator at %llu", what, (unsigned long long)n);
        for (auto& x : low) REQ(d[x.first] == x.second, "huge-content", "%s: character %llu differs", what, (unsigned long long)x.first); if (tb && !low.count(tb - 1)) REQ(d[tb - 1] == 0, "huge-content", "%s: character %llu differs", what, (unsigned long long)tb - 1);
        char ch = 1; REQ(ZyanStringGetChar(ZYAN_STRING_TO_VIEW(&s), n, &ch) == ZYAN_STATUS_OUT_OF_RANGE, "huge-range", "character behind the end accessible"); if (n) { OK(ZyanStringGetChar(ZYAN_STRING_TO_VIEW(&s), n - 1, &ch), "GetChar"); REQ((u8)ch == d[n - 1], "huge-getchar", "GetChar differs"); }
        COUNT("operations beyond 2^32"); }
    void step() {
        u64 tl = tail.size();
        switch (r.below(11)) {
        case 0: { u64 k = r.range(1, 20); if (!room(k)) break; append(k); check("Append"); break; }
        case 1: { u64 k = r.range(1, 20), i = r.range(0, tl); if (!room(k)) { Bytes t = text(k); ZyanStringView w; ZyanStringViewInsideBufferEx(&w, (const char*)t.data(), k); ZyanStatus st = ZyanStringInsert(&s, tb + i, &w); REQ(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "huge-full", "Insert into a full buffer: %s", st_name(st)); check("refused Insert"); break; }
            Bytes t = text(k); ZyanStringView w; ZyanStringViewInsideBufferEx(&w, (const char*)t.data(), k); OK(ZyanStringInsert(&s, tb + i, &w), "Insert"); tail.insert(tail.begin() + i, t.begin(), t.end()); n += k; check("Insert"); break; }
        case 2: { if (tl < 6) break; u64 i = r.below(tl), k = r.range(1, std::min<u64>(tl - i, 4)); OK(ZyanStringDelete(&s, tb + i, k), "Delete"); tail.erase(tail.begin() + i, tail.begin() + i + k); n -= k; check("Delete"); break; }
        case 3: { if (tl < 6) break; u64 i = tl - r.range(1, 4); OK(ZyanStringTruncate(&s, tb + i), "Truncate"); tail.resize(i); n = tb + i; check("Truncate"); break; }
        case 4: { if (!tl) break; u64 i = r.below(tl); u8 c = (u8)r.range(1, 255); OK(ZyanStringSetChar(&s, tb + i, (char)c), "SetChar"); tail[i] = c; check("SetChar"); break; }
        case 5: { u64 i = r.below(tl + 1), k = r.range(0, tl - i); bool u = r.chance(1, 2); OK(u ? ZyanStringToUpperCaseEx(&s, tb + i, k) : ZyanStringToLowerCaseEx(&s, tb + i, k), "case conversion"); for (u64 j = i; j < i + k; ++j) tail[j] = u ? up_(tail[j]) : lo_(tail[j]); check("case conversion"); break; }
        case 6: { u64 k = r.range(1, 30); if (!room(k)) break; OK(ZyanStringResize(&s, n + k), "Resize"); for (u64 j = 0; j < k; ++j) { u8 c = (u8)r.range(1, 255); OK(ZyanStringSetChar(&s, n + j, (char)c), "SetChar behind the old end"); tail.push_back(c); } n += k; check("Resize"); break; }
        case 7: { if (tb < 9000 || !r.chance(1, 4)) break; u64 i = r.below(9000), k = tb - i - r.below(50); OK(ZyanStringDelete(&s, i, k), "Delete (more than 2^32 characters)"); std::map<u64, u8> nl; for (auto& x : low) { if (x.first < i) nl.insert(x); else if (x.first >= i + k) nl[x.first - k] = x.second; } low.swap(nl); tb -= k; n -= k; check("Delete of most characters"); COUNT("huge removals"); break; }
        case 8: { if (!room(40)) break; u64 val = r.next() >> r.below(64); char t[64]; int k = snprintf(t, sizeof t, "%llu", (unsigned long long)val); OK(ZyanStringAppendDecU(&s, val, 0), "AppendDecU"); tail.insert(tail.end(), t, t + k); n += (u64)k; check("AppendDecU"); break; }
        case 9: { if (!room(40)) break; int val = (int)r.next(); char t[64]; int k = snprintf(t, sizeof t, "<%d>", val); OK(ZyanStringAppendFormat(&s, "<%d>", val), "AppendFormat"); tail.insert(tail.end(), t, t + k); n += (u64)k; check("AppendFormat"); break; }
        default: { if (!dyn) break; if (r.chance(1, 2)) { OK(ZyanStringShrinkToFit(&s), "ShrinkToFit"); ZyanUSize c; ZyanStringGetCapacity(&s, &c); REQ(c == n, "huge-capacity", "ShrinkToFit left capacity %zu for %llu characters", (size_t)c, (unsigned long long)n); } else { u64 k = n + r.below(500); OK(ZyanStringReserve(&s, k), "Reserve"); ZyanUSize c; ZyanStringGetCapacity(&s, &c); REQ(c >= k, "huge-capacity", "Reserve(%llu) left capacity %zu", (unsigned long long)k, (size_t)c); } check("Reserve/ShrinkToFit"); } }
    }
    void done() { if (r.chance(1, 3)) { OK(ZyanStringClear(&s), "Clear"); tail.clear(); low.clear(); tb = n = 0; check("Clear"); } OK(ZyanStringDestroy(&s), "Destroy"); REQ(A.live.empty(), "leak", "%zu blocks left", A.live.size()); }
    // searches whose window lies in the tail (or whose match is the first candidate)
    void searches() {
        const ZyanStringView* hv = ZYAN_STRING_TO_VIEW(&s); u64 tl = tail.size(); if (tl < 8) return;
        for (int q = 0; q < 12; ++q) {
            bool ci = r.chance(1, 2), back = r.chance(1, 2); u64 a = r.below(tl), k = r.range(1, std::min<u64>(tl - a, 5)); Bytes nd(tail.begin() + a, tail.begin() + a + k); if (r.chance(1, 4)) nd[r.below(k)] ^= 1; if (ci) for (auto& x : nd) if (r.chance(1, 2)) x = r.chance(1, 2) ? up_(x) : lo_(x);
            u64 i = r.below(tl), c = r.range(0, tl - i); ZyanStringView nv; OK(ZyanStringViewInsideBufferEx(&nv, (const char*)nd.data(), k), "view");
            auto same = [&](u64 p) { for (u64 j = 0; j < k; ++j) if (ci ? lo_(tail[p + j]) != lo_(nd[j]) : tail[p + j] != nd[j]) return false; return true; };
            i64 w = -1; for (u64 p = i; p + k <= i + c; ++p) if (same(p)) { w = (i64)(tb + p); if (!back) break; }
            if (back && w < 0) continue;        // a failing backward search walks through all characters
            ZyanISize f = 5; ZyanStatus st = back ? (ci ? ZyanStringRPosIEx(hv, &nv, &f, tb + i + c, c) : ZyanStringRPosEx(hv, &nv, &f, tb + i + c, c)) : (ci ? ZyanStringLPosIEx(hv, &nv, &f, tb + i, c) : ZyanStringLPosEx(hv, &nv, &f, tb + i, c));
            REQ(st == (w >= 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && f == w, "huge-search", "search %s%s in window %llu+%llu: %s index %lld, reference %lld", back ? "backward" : "forward", ci ? " (case folded)" : "", (unsigned long long)(tb + i), (unsigned long long)c, st_name(st), (long long)f, (long long)w);
            i64 lw = -1; for (u64 p = 0; p + k <= tl; ++p) if (same(p)) lw = (i64)(tb + p);
            if (lw >= 0) { st = ci ? ZyanStringRPosI(hv, &nv, &f) : ZyanStringRPos(hv, &nv, &f); REQ(st == ZYAN_STATUS_TRUE && f == lw, "huge-search", "backward search of the whole text: %s index %lld, reference %lld", st_name(st), (long long)f, (long long)lw); }
            ZyanStringView z; char zero[2] = {0, 0}; OK(ZyanStringViewInsideBufferEx(&z, zero, 1), "view"); if (!low.count(0) && tb) { st = ZyanStringLPos(hv, &z, &f); REQ(st == ZYAN_STATUS_TRUE && f == 0, "huge-search", "first character not found: %s %lld", st_name(st), (long long)f); }
            st = ZyanStringLPosEx(hv, &nv, &f, tb + i, n - tb - i + 1); REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "huge-window", "window behind the end: %s", st_name(st)); st = ZyanStringRPosEx(hv, &nv, &f, n + 1, 1); REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "huge-window", "window behind the end: %s", st_name(st));
            COUNT("searches beyond 2^32"); } }
    void compares() {
        if (n < G4) return;
        const ZyanStringView* hv = ZYAN_STRING_TO_VIEW(&s); u64 m = r.range(1, 2000); Bytes head(data(), data() + m); ZyanStringView w; OK(ZyanStringViewInsideBufferEx(&w, (const char*)head.data(), m), "view");
        for (int k = 0; k < 4; ++k) { bool ci = k & 1, sw = k & 2; ZyanI32 q = 0; ZyanStatus st = ci ? (sw ? ZyanStringCompareI(&w, hv, &q) : ZyanStringCompareI(hv, &w, &q)) : (sw ? ZyanStringCompare(&w, hv, &q) : ZyanStringCompare(hv, &w, &q));
            REQ(st == ZYAN_STATUS_FALSE && (sw ? q < 0 : q > 0), "huge-compare", "text of %llu characters against its first %llu: %s %d", (unsigned long long)n, (unsigned long long)m, st_name(st), q); COUNT("comparisons beyond 2^32"); }
        // exactly 2^32 more characters
        ZyanStringView a, b; if (n > G4 + 2000) { OK(ZyanStringViewInsideViewEx(&a, hv, 0, G4 + m), "sub-view"); ZyanI32 q = 0; ZyanStatus st = ZyanStringCompare(&a, &w, &q); REQ(st == ZYAN_STATUS_FALSE && q > 0, "huge-compare", "text of 2^32+%llu characters against its first %llu: %s %d", (unsigned long long)m, (unsigned long long)m, st_name(st), q); } (void)b; }
    void views() {
        const ZyanStringView* hv = ZYAN_STRING_TO_VIEW(&s);
        for (int q = 0; q < 10; ++q) { u64 i = r.chance(1, 2) ? tb + r.below(tail.size() + 1) : r.below(n), c = r.chance(1, 3) ? n - i : r.below(n - i + 1); ZyanStringView w; memset(&w, 0xB7, sizeof w); OK(ZyanStringViewInsideViewEx(&w, hv, i, c), "sub-view"); ZyanUSize k = 0; const char* d = nullptr; ZyanStringViewGetSize(&w, &k); ZyanStringViewGetData(&w, &d);
            REQ(k == c && (const u8*)d == data() + i, "huge-view", "sub-view %llu+%llu: size %zu at offset %lld", (unsigned long long)i, (unsigned long long)c, (size_t)k, (long long)((const u8*)d - data())); if (c) { char ch = 1; OK(ZyanStringGetChar(&w, c - 1, &ch), "GetChar"); REQ((u8)ch == data()[i + c - 1], "huge-view", "last character of the sub-view"); }
            char ch; REQ(ZyanStringGetChar(&w, c, &ch) == ZYAN_STATUS_OUT_OF_RANGE, "huge-view", "character behind the sub-view"); 
            REQ(ZyanStringViewInsideViewEx(&w, hv, i, n - i + 1) == ZYAN_STATUS_OUT_OF_RANGE, "huge-view", "sub-view behind the end accepted");
            if (c) { ZyanStringView w2; OK(ZyanStringViewInsideBufferEx(&w2, (const char*)data() + i, c), "view"); ZyanStringViewGetSize(&w2, &k); REQ(k == c, "huge-view", "view of %llu characters has %zu", (unsigned long long)c, (size_t)k); }
            if (i >= tb && c) { Bytes e(data() + i, data() + i + c); ZyanString t; HeapBuf hb(c + 1); ZyanStringView w3; OK(ZyanStringViewInsideViewEx(&w3, hv, i, c), "sub-view"); OK(ZyanStringDuplicateCustomBuffer(&t, &w3, (char*)hb.p, c + 1), "Duplicate"); REQ(!memcmp(hb.p, e.data(), c) && !hb.p[c], "huge-view", "copy of the sub-view differs"); }
            COUNT("views beyond 2^32"); } }
};

// ---- bitset -------------------------------------------------------------------------------------------------------------
static void huge_bits(Rng& r) {
    ZyanBitset b; u64 n = G4 + r.range(1, 5000); LazyAlloc A; trace("huge bitset n=%llu", (unsigned long long)n); std::map<u64, bool> on; OK(ZyanBitsetInitEx(&b, n, A.get(), 1, 0), "BitsetInitEx");
    auto get = [&](u64 i) { ZyanStatus st = ZyanBitsetTest(&b, i); REQ(st == (on.count(i) ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "huge-bit", "bit %llu of %llu reads %s", (unsigned long long)i, (unsigned long long)n, st_name(st)); };
    for (int k = 0; k < 400; ++k) { u64 i = r.chance(1, 2) ? G4 + r.below(n - G4) : r.chance(1, 2) ? r.below(5000) : r.below(n); ZyanStatus st;
        switch (r.below(6)) { case 0: case 1: st = ZyanBitsetSet(&b, i); on[i] = true; break; case 2: st = ZyanBitsetReset(&b, i); on.erase(i); break; case 3: st = ZyanBitsetToggle(&b, i); if (on.count(i)) on.erase(i); else on[i] = true; break; case 4: st = ZyanBitsetAssign(&b, i, ZYAN_TRUE); on[i] = true; break;
            default: if (r.chance(1, 2)) { bool v = r.chance(1, 2); st = ZyanBitsetPush(&b, v); if (v) on[n] = true; ++n; } else { st = ZyanBitsetPop(&b); --n; on.erase(n); } }
        OK(st, "bit operation"); ZyanUSize s1 = 0; ZyanBitsetGetSize(&b, &s1); REQ(s1 == n, "huge-size", "size %zu, history says %llu", (size_t)s1, (unsigned long long)n); if (i < n) { get(i); get(i & 0xFFFFFFFF); } if (i + G4 < n) get(i + G4); get(n - 1); REQ(ZyanBitsetTest(&b, n) == ZYAN_STATUS_OUT_OF_RANGE, "huge-range", "bit behind the end accessible"); COUNT("bit operations beyond 2^32"); }
    ZyanUSize c = 0; OK(ZyanBitsetCount(&b, &c), "Count"); REQ(c == on.size(), "huge-count", "population count %zu, history says %zu", (size_t)c, on.size());
    if (r.chance(1, 2)) { OK(ZyanBitsetFlip(&b), "Flip"); OK(ZyanBitsetCount(&b, &c), "Count"); REQ(c == n - on.size(), "huge-count", "population count %zu of a flipped bitset, history says %llu", (size_t)c, (unsigned long long)(n - on.size())); }
    ZyanStatus any = ZyanBitsetAny(&b); REQ(any == (c ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "huge-any", "Any: %s", st_name(any)); ZyanUSize kb = 0; ZyanBitsetGetSizeBytes(&b, &kb); REQ(kb == n / 8 + (n % 8 != 0), "huge-size", "size in bytes %zu", (size_t)kb);
    OK(ZyanBitsetDestroy(&b), "Destroy"); REQ(A.live.empty(), "leak", "blocks left"); COUNT("huge bitsets");
}
// The cases are only affordable while the operations in use neither touch nor walk through all of a container (which no contract
// promises): that is tried on 64 MiB first, and the cases are skipped if it is not so.
#include <chrono>
#include <thread>
#include <unistd.h>
// Nothing this process does may exhaust the memory of the machine: a case that touches too much ends without a verdict.
static void watch_memory() {
    std::thread([] { for (;;) { usleep(5000); FILE* f = fopen("/proc/self/statm", "r"); if (!f) return; unsigned long a = 0, b = 0; int k = fscanf(f, "%lu %lu", &a, &b); fclose(f); if (k == 2 && (u64)b * 4096 > (u64)2500 << 20) _exit(77); } }).detach();
}
static bool affordable() {
    const u64 M = 64u << 20; double best = 1e9; g_probe = true; g_touched = 0;
    for (int k = 0; k < 3; ++k) {
        LazyAlloc A; auto t0 = std::chrono::steady_clock::now(); u8 x[4] = {1, 2, 3, 4}; bool str = HUGE_SET == 7 || HUGE_SET == 8 || HUGE_SET == 9 || HUGE_SET == 10;
        if (!str) { ZyanVector v; if (ZyanVectorInitEx(&v, 1, 0, nullptr, A.get(), 1, 2) != ZYAN_STATUS_SUCCESS) return true; ZyanVectorResize(&v, M); ZyanVectorPushBack(&v, x); ZyanVectorInsertRange(&v, M - 5, x, 4); ZyanVectorReserve(&v, M + M / 2); ZyanUSize f; ZyanVectorBinarySearch(&v, x, &f, cmp_byte); ZyanISize g; ZyanVectorFindEx(&v, x, &g, eq_byte, M - 5, 9);
            ZyanVectorDeleteRange(&v, 5, M - 10); ZyanVectorResize(&v, M); ZyanVectorShrinkToFit(&v); ZyanVectorResize(&v, 3); ZyanVectorDestroy(&v); }
        if (str || HUGE_SET == 2 || HUGE_SET == 4) { ZyanString s; if (ZyanStringInitEx(&s, 0, A.get(), 1, 2) != ZYAN_STATUS_SUCCESS) return true; ZyanStringResize(&s, M); ZyanStringView w, z; char zero[2] = {0, 0}; ZyanStringViewInsideBuffer(&w, "abcd"); ZyanStringViewInsideBufferEx(&z, zero, 1); ZyanStringAppend(&s, &w); ZyanStringInsert(&s, M - 5, &w); ZyanStringToUpperCaseEx(&s, M - 3, 5);
            ZyanStringView hv = *ZYAN_STRING_TO_VIEW(&s); ZyanISize f; ZyanI32 q; ZyanStringRPos(&hv, &w, &f); ZyanStringRPosI(&hv, &w, &f); ZyanStringRPosEx(&hv, &w, &f, M + 8, 20); ZyanStringLPosEx(&hv, &w, &f, M - 9, 17); ZyanStringLPosIEx(&hv, &w, &f, M - 9, 17); ZyanStringLPos(&hv, &z, &f); ZyanStringCompare(&hv, &z, &q); ZyanStringCompareI(&z, &hv, &q);
            ZyanStringAppendDecU(&s, 5, 0); ZyanStringAppendFormat(&s, "%d", 5); ZyanStringReserve(&s, M + 100); ZyanStringDelete(&s, 5, M - 10); ZyanStringClear(&s); ZyanStringDestroy(&s); }
        best = std::min(best, std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count()); }
    g_probe = false; return best < 0.02 && g_touched < ((u64)24 << 20);
}
static const char* g_why = "not enough address space";
void prop_begin() {
    watch_memory();
    void* p = reserve_mem((u64)64 << 30); g_ok = p != nullptr; if (p) munmap(p, (u64)64 << 30);
    if (g_ok && HUGE_SET != 14 && !affordable()) { g_ok = false; g_why = "operations walk through all of a container"; } }
void prop_end() {}
bool prop_case(u64, Rng& r) {
    COUNT("cases beyond 4 GiB");
    if (!g_ok) { ctr((std::string("cases beyond 4 GiB skipped: ") + g_why).c_str())++; return false; }
    switch (HUGE_SET) {
    case 1: huge_vector(r, false); break; case 2: if (r.chance(2, 3)) { huge_vector(r, true); break; } { HugeStr s(r); u64 k = r.range(10, 40); while (k--) s.step(); s.done(); } break;
    case 4: if (r.chance(1, 2)) huge_vector(r, false); else { HugeStr s(r, true); u64 k = r.range(10, 40); while (k--) s.step(); s.done(); } break;
    case 6: huge_search(r); break; case 7: case 12: { HugeStr s(r); u64 k = r.range(10, 50); while (k--) s.step(); s.done(); break; }
    case 8: { HugeStr s(r); s.searches(); s.done(); break; } case 9: { HugeStr s(r); s.compares(); for (int i = 0; i < 10; ++i) s.step(); s.compares(); s.done(); break; } case 10: { HugeStr s(r); s.views(); s.done(); break; }
    case 14: huge_bits(r); break; }
    return true;
}
