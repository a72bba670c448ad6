// C06: vector searches against a reference scan; every callback invocation is judged.
#include "vec_engine.hpp"
#include "large.hpp"

static struct Ctx { const u8* base; u64 es, lo, hi; const void* key; u64 calls; u64 koff, kw; u32 eqval; i32 ltval, gtval; std::vector<u32> seen; } X;
static u32 key_of(const void* p) { u32 k = 0; memcpy(&k, (const u8*)p + X.koff, X.kw); return k; }
static u64 judge(const void* l, const void* rr) {
    ++X.calls; in_callback(); COUNT("callback invocations judged");
    if (rr != X.key) violation("callback-right", "second callback argument is not the key");
    u64 off = (u64)((const u8*)l - X.base);
    if ((const u8*)l < X.base || off % X.es || off / X.es < X.lo || off / X.es >= X.hi) violation("callback-left", "callback got an element outside of the window [%llu,%llu): byte offset %lld", (unsigned long long)X.lo, (unsigned long long)X.hi, (long long)off);
    u64 i = off / X.es; if (i < X.seen.size()) X.seen[i]++;
    return i; }
static ZyanBool eq_cb(const void* l, const void* rr) { judge(l, rr); return key_of(l) == key_of(rr) ? (ZyanBool)X.eqval : 0; }
static ZyanI32 cmp_cb(const void* l, const void* rr) { judge(l, rr); u32 a = key_of(l), b = key_of(rr); return a < b ? X.ltval : a > b ? X.gtval : 0; }

struct Arr {
    ZyanVector v; std::vector<u32> k; u64 es, koff, kw; Bytes snap; MonAlloc* A; HeapBuf* hb = nullptr; HeapBuf kb;      // the key always lives in the same place
    Arr(const std::vector<u32>& keys, u64 es_, u64 koff_, u64 kw_, Rng& r, MonAlloc* a, bool dyn) : k(keys), es(es_), koff(koff_), kw(kw_), A(a), kb(es_) {
        ZyanStatus st;
        if (dyn) st = ZyanVectorInitEx(&v, es, keys.size(), nullptr, A->get(), 1, 0);
        else { u64 n = std::max<size_t>(1, keys.size()); hb = new HeapBuf(n * es); st = ZyanVectorInitCustomBuffer(&v, es, hb->p, n, nullptr); }
        REQ(st == ZYAN_STATUS_SUCCESS, "init", "init %s", st_name(st));
        for (u32 x : keys) { Bytes b(es); for (auto& y : b) y = r.byte(); memcpy(b.data() + koff, &x, kw); st = ZyanVectorPushBack(&v, b.data()); REQ(st == ZYAN_STATUS_SUCCESS, "push", "push %s", st_name(st)); snap.insert(snap.end(), b.begin(), b.end()); }
    }
    ~Arr() { if (!k.empty() && memcmp(ZyanVectorGet(&v, 0), snap.data(), snap.size())) violation("search-changed", "a search changed the vector"); ZyanUSize n; ZyanVectorGetSize(&v, &n); if (n != k.size()) violation("search-changed", "a search changed the size"); ZyanVectorDestroy(&v); delete hb; }
    const u8* base() { return k.empty() ? nullptr : (const u8*)ZyanVectorGet(&v, 0); }
};
static void change(Arr& a, u64 i, u32 x, Rng& r) { Bytes b(a.es); for (auto& y : b) y = r.byte(); memcpy(b.data() + a.koff, &x, a.kw); ZyanStatus st = ZyanVectorSet(&a.v, i, b.data()); REQ(st == ZYAN_STATUS_SUCCESS, "set", "set %s", st_name(st));
    a.k[i] = a.kw < 4 ? x & (((u32)1 << 8 * a.kw) - 1) : x; memcpy(a.snap.data() + i * a.es, b.data(), a.es); COUNT("elements changed between searches"); }
static void arm(Arr& a, const u8* key, u64 lo, u64 hi, Rng& r) { X.base = a.base(); X.es = a.es; X.lo = lo; X.hi = hi; X.key = key; X.calls = 0; X.koff = a.koff; X.kw = a.kw; X.seen.assign(a.k.size(), 0);
    X.eqval = r.pick<u32>({1, 1, 2, 0x80, 0xFF}); X.ltval = r.pick<i32>({-1, -1, -5, INT32_MIN}); X.gtval = r.pick<i32>({1, 1, 7, INT32_MAX}); }
static u64 log2f(u64 n) { u64 k = 0; while (n > 1) { n >>= 1; ++k; } return k; }
static void linear(Arr& a, u32 key, u64 i, u64 c, bool whole, Rng& r) {
    HeapBuf& kb = a.kb; for (u64 z = 0; z < a.es; ++z) kb.p[z] = r.byte(); memcpy(kb.p + a.koff, &key, a.kw); if (a.kw < 4) key &= ((u32)1 << 8 * a.kw) - 1; u64 n = a.k.size(); if (whole) { i = 0; c = n; }
    bool ok = i <= n && c <= n - i; arm(a, kb.p, i, ok ? i + c : i, r);
    ZyanISize f = 0x5555; ZyanStatus st = whole ? ZyanVectorFind(&a.v, kb.p, &f, eq_cb) : ZyanVectorFindEx(&a.v, kb.p, &f, eq_cb, i, c);
    if (!ok) { REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "window", "linear search with window %llu+%llu of %llu returned %s", (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st)); REQ(!X.calls, "window-call", "refused search ran the callback"); COUNT("refused windows"); return; }
    i64 want = -1; for (u64 j = i; j < i + c; ++j) if (a.k[j] == key) { want = (i64)j; break; }
    REQ(st == (want >= 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && f == want, "linear", "linear search for %u in [%llu,+%llu) of %llu: %s index %lld, reference index %lld", key, (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st), (long long)f, (long long)want);
    for (u64 j = i; j < (want >= 0 ? (u64)want + 1 : i + c); ++j) REQ(X.seen[j], "unexamined", "element %llu was not shown to the callback", (unsigned long long)j);
    COUNT("linear searches");
}
static void binary(Arr& a, u32 key, u64 i, u64 c, bool whole, Rng& r) {
    HeapBuf& kb = a.kb; for (u64 z = 0; z < a.es; ++z) kb.p[z] = r.byte(); memcpy(kb.p + a.koff, &key, a.kw); if (a.kw < 4) key &= ((u32)1 << 8 * a.kw) - 1; u64 n = a.k.size(); if (whole) { i = 0; c = n; }
    bool ok = i <= n && c <= n - i; arm(a, kb.p, i, ok ? i + c : i, r);
    ZyanUSize f = 0x5555; ZyanStatus st = whole ? ZyanVectorBinarySearch(&a.v, kb.p, &f, cmp_cb) : ZyanVectorBinarySearchEx(&a.v, kb.p, &f, cmp_cb, i, c);
    if (!ok) { REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "window", "binary search with window %llu+%llu of %llu returned %s", (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st)); REQ(!X.calls, "window-call", "refused search ran the callback"); COUNT("refused windows"); return; }
    u64 want = i; while (want < i + c && a.k[want] < key) ++want;
    bool found = want < i + c && a.k[want] == key;
    REQ(st == (found ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && f == want, "binary", "binary search for %u in [%llu,+%llu) of %llu: %s index %llu, reference %s index %llu", key, (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st), (unsigned long long)f, found ? "TRUE" : "FALSE", (unsigned long long)want);
    REQ(X.calls <= log2f(c) + 3, "binary-cost", "binary search over %llu elements used %llu comparisons", (unsigned long long)c, (unsigned long long)X.calls);
    COUNT("binary searches");
}
static void bad_window(Rng& r, u64 n, u64& i, u64& c) { switch (r.below(6)) { case 0: i = n + 1; c = 0; break; case 1: i = r.range(0, n); c = n - i + 1; break; case 2: i = r.range(1, n + 1); c = (u64)(ZyanUSize)(0 - i); break; case 3: i = r.range(0, n); c = UMAX; break; case 4: i = UMAX; c = 1; break; default: i = UTOP; c = UTOP; } }
// Exhaustive part: all sequences over {1,3,5} up to length EXN, all windows, keys 0..6.
static const u64 EXN = 6; static u64 ex_total() { u64 t = 0, p = 1; for (u64 l = 0; l <= EXN; ++l) { t += p; p *= 3; } return t; }
void prop_begin() {}
void prop_end() {}
static void sweep_find(Rng& r) {           // K: number of elements, position and length of the window, position of the match, element size
    const u64 K = sweep_k(); MonAlloc A;
    for (int part = 0; part < 2; ++part) {
        const u64 n = part ? r.range(1, 9) : K + r.below(12), kw = part && K < 4 ? 1 : 4, es = part ? K : r.pick<u64>({4, 4, 5, 8}); std::vector<u32> k; const bool twin = r.chance(1, 2);
        for (u64 j = 0; j < n; ++j) k.push_back((u32)(twin ? j / 2 * 2 + 1 : 2 * j + 1));
        trace("part %d n=%llu es=%llu twin=%d", part, (unsigned long long)n, (unsigned long long)es, twin); Arr a(k, es, r.range(0, es - kw), kw, r, &A, r.chance(1, 2));
        auto at = [&](u64 j) { return j < n ? k[j] : k[n - 1] + 1; };
        auto win = [&](u64 i, u64 c) { if (i > n || c > n - i) return; for (u32 key : {at(i), at(i + c), at(i + c / 2) - 1, c ? at(i + c - 1) : at(i), at(i + r.below(c + 1)), i ? at(i - 1) : 0}) binary(a, key, i, c, false, r); linear(a, at(i + (r.chance(1, 2) ? c : c ? c - 1 : 0)), i, c, false, r); linear(a, at(i), i, c, false, r); };
        if (part) { for (int q = 0; q < 6; ++q) { u32 key = at(r.below(n + 1)) - (u32)r.below(2); linear(a, key, 0, 0, true, r); binary(a, key, 0, 0, true, r); } continue; }
        win(0, K); win(n - K, K); win(K, n - K); if (r.chance(1, 2)) win(r.below(n - K + 1), K);
        for (u32 key : {at(K), at(K - 1), at(K) - 1}) { linear(a, key, 0, 0, true, r); binary(a, key, 0, 0, true, r); binary(a, key, 0, n, false, r); }
        if (n > K) { u64 j = r.below(n); change(a, j, 7777777, r); linear(a, 7777777, 0, 0, true, r); linear(a, 7777777, r.below(j + 1), n - j, false, r); }
    }
}
bool prop_case(u64 idx, Rng& r) {
    nested::report();
    if (SWEEP) { sweep_find(r); return true; }
    MonAlloc A; std::vector<u32> k;
    // the callbacks look at kw bytes at offset koff of every element only (little endian), the rest is noise
    u64 kw = r.pick<u64>({4, 4, 2, 1}), es = r.chance(1, 2) ? r.range(kw, 8) : r.range(kw, 40); bool wide = idx >= ex_total() && r.chance(1, 60); if (wide) { es = wide_size(r); COUNT("wide elements"); }
    u64 koff = r.range(0, es - kw);
    if (idx < ex_total()) {
        u64 q = idx, l = 0, p = 1; while (q >= p) { q -= p; p *= 3; ++l; }
        for (u64 j = 0; j < l; ++j) { k.push_back(1 + 2 * (q % 3)); q /= 3; }
        trace("exhaustive l=%llu idx=%llu", (unsigned long long)l, (unsigned long long)idx);
        for (u32 x : k) trace("%u", x);
        Arr a(k, es, koff, kw, r, &A, r.chance(1, 2));
        for (u64 i = 0; i <= l; ++i) for (u64 c = 0; c <= l - i; ++c) { bool sorted = std::is_sorted(k.begin() + i, k.begin() + i + c);
            for (u32 key = 0; key <= 6; ++key) { linear(a, key, i, c, false, r); if (sorted) binary(a, key, i, c, false, r); } }
        for (u32 key = 0; key <= 6; ++key) { linear(a, key, 0, 0, true, r); if (std::is_sorted(k.begin(), k.end())) binary(a, key, 0, 0, true, r); }
        u64 bi, bc; for (int z = 0; z < 6; ++z) { bad_window(r, l, bi, bc); linear(a, 3, bi, bc, false, r); binary(a, 3, bi, bc, false, r); }
        COUNT("exhaustive sequences"); return true;
    }
    u64 n = r.chance(1, 4) ? r.range(0, 3000) : r.range(0, 60); if (r.chance(1, 1000)) { n = large_size(r); COUNT("large vectors"); } u32 range = r.pick<u32>({2, 5, 20, 100, 100000, 0xFFFFFFFFu});
    if (wide && n > 300) n = r.range(0, 60); if (wide) n = std::min<u64>(n, (4 << 20) / es); if (kw == 1) range = std::min<u32>(range, 256); if (kw == 2) range = std::min<u32>(range, 65536);
    for (u64 i = 0; i < n; ++i) k.push_back(range == 0xFFFFFFFFu ? (u32)r.next() : (u32)r.below(range));
    u64 wi = r.range(0, n), wc = r.range(0, n - wi); bool whole = r.chance(1, 2); if (whole) { wi = 0; wc = n; }
    std::sort(k.begin() + wi, k.begin() + wi + wc);
    trace("n=%llu window=%llu+%llu range=%u es=%llu h=%llx", (unsigned long long)n, (unsigned long long)wi, (unsigned long long)wc, range, (unsigned long long)es, (unsigned long long)hash_bytes(k.data(), n * 4));
    Arr a(k, es, koff, kw, r, &A, r.chance(1, 2));
    for (int q = 0; q < 12; ++q) {
        u32 key = n && r.chance(2, 3) ? k[r.below(n)] + (r.chance(1, 3) ? (u32)r.range(0, 2) - 1 : 0) : (u32)r.below(range);
        if (wc && r.chance(1, 4)) key = r.chance(1, 2) ? k[wi] : k[wi + wc - 1];
        trace("key %u", key);
        linear(a, key, wi, wc, whole, r); binary(a, key, wi, wc, whole, r);
        if (n && r.chance(1, 3)) { u64 j = r.below(n); u32 old = a.k[j]; trace("element %llu becomes the key for a while", (unsigned long long)j); change(a, j, key, r); linear(a, key, wi, wc, whole, r); linear(a, key, 0, 0, true, r); change(a, j, old, r); linear(a, key, 0, 0, true, r); }
        if (wc && r.chance(1, 3)) { u64 j = wi + r.below(wc); u32 lo = j > wi ? a.k[j - 1] : 0, hi = j + 1 < wi + wc ? a.k[j + 1] : a.kw < 4 ? ((u32)1 << 8 * a.kw) - 1 : 0xFFFFFFFFu; u32 x = r.chance(1, 3) ? lo : r.chance(1, 2) ? hi : lo + (u32)r.below((u64)hi - lo + 1); change(a, j, x, r); binary(a, key, wi, wc, whole, r); linear(a, key, wi, wc, whole, r); }
        u64 i = r.range(0, n), c = r.range(0, n - i); linear(a, key, i, c, false, r);
        if (wc) { u64 i2 = wi + r.below(wc); u64 c2 = r.range(0, wi + wc - i2); binary(a, key, i2, c2, false, r); }
        u64 bi, bc; bad_window(r, n, bi, bc); linear(a, key, bi, bc, false, r); binary(a, key, bi, bc, false, r);
    }
    return n > 0;
}
