// C10: views, duplicates, concatenations.
#include "str_engine.hpp"
#include "large.hpp"
extern "C" const ZyanStringView* const lit_views[4]; extern "C" const unsigned lit_sizes[4];
void prop_begin() {}
void prop_end() {}
static void check_view(const ZyanStringView* v, const u8* data, const Bytes& b, const char* what) {
    ZyanUSize n = 0x77; const char* d = (const char*)0x11;
    REQ(ZyanStringViewGetSize(v, &n) == ZYAN_STATUS_SUCCESS && n == b.size(), "view-size", "%s: size %zu, requested %zu", what, (size_t)n, b.size());
    REQ(ZyanStringViewGetData(v, &d) == ZYAN_STATUS_SUCCESS && (const u8*)d == data, "view-data", "%s: data pointer is not the viewed memory", what);
    for (u64 i = 0; i < b.size(); ++i) { char c = 0x5A; ZyanStatus st = ZyanStringGetChar(v, i, &c); REQ(st == ZYAN_STATUS_SUCCESS && (u8)c == b[i], "view-char", "%s: character %llu reads %s 0x%02x, should be 0x%02x", what, (unsigned long long)i, st_name(st), (u8)c, b[i]); }
    u64 bad[3] = {b.size(), b.size() + 1, UMAX};
    for (u64 i : bad) { char c = 0x5A; ZyanStatus st = ZyanStringGetChar(v, i, &c); REQ(st == ZYAN_STATUS_OUT_OF_RANGE && c == 0x5A, "view-range", "%s: character %llu of %zu not refused: %s", what, (unsigned long long)i, b.size(), st_name(st)); }
    COUNT("views checked");
}
// uses a view as a source of every kind of operation
static void as_source(const ZyanStringView* v, const Bytes& b, Rng& r, int depth);
static void check_copy(ZyanString* d, const Bytes& e, u64 want, const char* what, MonAlloc* A, const u8* fixed, const std::vector<std::pair<const u8*, u64>>& srcs) {
    ZyanUSize n = 0x77, k = 0x78; const char* p = nullptr;
    REQ(ZyanStringGetSize(d, &n) == ZYAN_STATUS_SUCCESS && n == e.size(), "copy-size", "%s: size %zu, expected %zu", what, (size_t)n, e.size());
    REQ(ZyanStringGetData(d, &p) == ZYAN_STATUS_SUCCESS && p, "copy-data", "%s: no data", what);
    REQ(!memcmp(p, e.data(), n), "copy-content", "%s: text is %s, expected %s", what, quote(Bytes((u8*)p, (u8*)p + n)).c_str(), quote(e).c_str());
    REQ(p[n] == 0, "copy-terminator", "%s: not terminated", what);
    REQ(ZyanStringGetCapacity(d, &k) == ZYAN_STATUS_SUCCESS && k >= e.size() && k >= want, "copy-capacity", "%s: capacity %zu, requested %llu, size %zu", what, (size_t)k, (unsigned long long)want, e.size());
    if (A) { REQ(A->live.size() == 1 && A->live.begin()->first == (void*)p, "copy-block", "%s: text is not in the allocator's block", what); REQ(A->live.begin()->second.n * A->live.begin()->second.es >= k + 1, "copy-block", "%s: block smaller than capacity and terminator", what); }
    if (fixed) REQ((const u8*)p == fixed, "copy-buffer", "%s: text is not in the given buffer", what);
    for (auto& s : srcs) REQ((const u8*)p + k + 1 <= s.first || s.first + s.second <= (const u8*)p, "copy-shared", "%s: shares storage with its source", what);
    COUNT("copies checked");
}
static void mutate(ZyanString* d, u64 n, Rng& r) { if (n) { u64 i = r.below(n); ZyanStringSetChar(d, i, (char)r.byte()); } if (n > 1 && r.chance(1, 2)) ZyanStringTruncate(d, n / 2); if (r.chance(1, 3)) ZyanStringClear(d); }
static void copies(const ZyanStringView* v, const Bytes& b, const u8* vd, Rng& r) {
    Bytes o = rnd_text(r, r.chance(1, 2000) ? large_size(r) : r.chance(1, 5) ? 0 : r.range(1, 40)); ViewSrc os(o, (int)r.below(2)); bool cat = r.chance(1, 2), swap = r.chance(1, 2), self = cat && r.chance(1, 6);
    ZyanStringView part; Bytes pb = b; const ZyanStringView* sv = v;
    if (self && r.chance(2, 3)) { u64 i = r.chance(1, 2) ? 0 : r.range(0, b.size()), k = r.range(0, b.size() - i); ZyanStatus st = ZyanStringViewInsideViewEx(&part, v, i, k); REQ(st == ZYAN_STATUS_SUCCESS, "subview", "sub-view %llu+%llu of %zu: %s", (unsigned long long)i, (unsigned long long)k, b.size(), st_name(st));
        pb.assign(b.begin() + i, b.begin() + i + k); sv = &part; COUNT("concatenations of overlapping views"); }
    const ZyanStringView *a = v, *c = self ? sv : os.v(); Bytes e; const Bytes& ob = self ? pb : o;
    if (!cat) e = b; else { if (swap) std::swap(a, c); const Bytes &x = swap ? ob : b, &y = swap ? b : ob; e = x; e.insert(e.end(), y.begin(), y.end()); }
    u64 want = r.chance(1, 3) ? 0 : r.chance(1, 2) ? e.size() + r.range(0, 3) - std::min<u64>(e.size(), 1) : r.below(120); int how = (int)r.below(3);
    trace("%s how=%d other=%s swap=%d capacity=%llu", cat ? "concat" : "duplicate", how, quote(o, 12).c_str(), swap, (unsigned long long)want);
    ZyanString d; memset(&d, 0xC3, sizeof d); MonAlloc A; ZyanStatus st; HeapBuf* hb = nullptr; const char* what = cat ? "concatenation" : "duplicate";
    std::vector<std::pair<const u8*, u64>> srcs{{vd, b.size()}, {os.hb.p, o.size()}};
    if (how == 0) st = cat ? ZyanStringConcat(&d, a, c, want) : ZyanStringDuplicate(&d, a, want);
    else if (how == 1) { u8 g = (u8)r.range(1, 4), t = (u8)r.range(0, 5); st = cat ? ZyanStringConcatEx(&d, a, c, want, A.get(), g, t) : ZyanStringDuplicateEx(&d, a, want, A.get(), g, t); }
    else {
        if (r.chance(1, 2)) { u64 small = r.chance(2, 3) ? e.size() : r.range(0, e.size()); HeapBuf sb(small); ZyanString t; memset(&t, 0xC3, sizeof t); Bytes before(sb.p, sb.p + small);
            st = cat ? ZyanStringConcatCustomBuffer(&t, a, c, (char*)sb.p, small) : ZyanStringDuplicateCustomBuffer(&t, a, (char*)sb.p, small);
            REQ(!ZYAN_SUCCESS(st) && (st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE || (!small && st == ZYAN_STATUS_INVALID_ARGUMENT)), "copy-small", "%s of %zu characters into %llu bytes returned %s", what, e.size(), (unsigned long long)small, st_name(st)); COUNT("refused small buffers"); }
        u64 cap = e.size() + 1 + (r.chance(1, 2) ? 0 : r.below(9)); want = cap - 1; hb = new HeapBuf(cap, 0x77, 1);
        st = cat ? ZyanStringConcatCustomBuffer(&d, a, c, (char*)hb->p, cap) : ZyanStringDuplicateCustomBuffer(&d, a, (char*)hb->p, cap); }
    REQ(st == ZYAN_STATUS_SUCCESS, "copy-status", "%s returned %s", what, st_name(st));
    check_copy(&d, e, want, what, how == 1 ? &A : nullptr, hb ? hb->p : nullptr, srcs);
    check_view(ZYAN_STRING_TO_VIEW(&d), [&] { const char* p; ZyanStringGetData(&d, &p); return (const u8*)p; }(), e, "view of the copy");
    mutate(&d, e.size(), r);
    REQ(Bytes(vd, vd + b.size()) == b && Bytes(os.hb.p, os.hb.p + o.size()) == o, "copy-shared", "changing a %s changed its source", what);
    st = ZyanStringDestroy(&d); REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "Destroy: %s", st_name(st)); A.require_empty("copy"); delete hb;
}
static void as_source(const ZyanStringView* v, const Bytes& b, Rng& r, int depth) {
    const char* dp = nullptr; ZyanStringViewGetData(v, &dp); const u8* vd = (const u8*)dp;
    check_view(v, vd, b, "view");
    switch (r.below(4)) {
    case 0: copies(v, b, vd, r); break;
    case 1: { MonAlloc A; StrCfg c; c.cap0 = r.below(20); StrSim s(c, [] { Opt o; o.content = true; return o; }(), r, &A); s.init(); Bytes t0 = rnd_text(r, r.range(1, 6)); s.append(t0);
        u64 at = r.range(0, s.n()); ZyanStatus st; 
        if (r.chance(1, 2)) { st = ZyanStringInsert(&s.s, at, v); if (b.empty() && st == ZYAN_STATUS_INVALID_ARGUMENT) st = ZYAN_STATUS_SUCCESS; } else { at = s.n(); st = ZyanStringAppend(&s.s, v); if (b.empty() && st == ZYAN_STATUS_INVALID_ARGUMENT) st = ZYAN_STATUS_SUCCESS; }
        REQ(st == ZYAN_STATUS_SUCCESS, "view-source", "view as source refused: %s", st_name(st)); s.m.insert(s.m.begin() + at, b.begin(), b.end()); s.cap = s.real_cap(); s.verify("inserting a view"); s.destroy(); COUNT("views as insert source"); break; }
    case 2: { ZyanI32 q = 7; ViewSrc o(b); ZyanStatus st = ZyanStringCompare(v, o.v(), &q); REQ(st == ZYAN_STATUS_TRUE && q == 0, "view-source", "view differs from the same characters elsewhere"); break; }
    default: { ZyanISize f; if (!b.empty()) { ZyanStatus st = ZyanStringLPos(v, v, &f); REQ(st == ZYAN_STATUS_TRUE && f == 0, "view-source", "view does not contain itself"); } } }
    if (depth < 3) {    // sub-views
        u64 n = b.size(), i, c; ZyanStringView sub; memset(&sub, (int)r.byte(), sizeof sub); ZyanStringView keep = sub;
        if (r.chance(1, 3)) { switch (r.below(5)) { case 0: i = n + 1; c = r.below(2); break; case 1: i = r.range(0, n); c = n - i + 1; break; case 2: i = r.range(1, n + 1); c = (u64)(ZyanUSize)(0 - i); break; case 3: i = UMAX; c = 1; break; default: i = r.range(0, n); c = UMAX; }
            ZyanStatus st = ZyanStringViewInsideViewEx(&sub, v, i, c); REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "subview-range", "sub-view %llu+%llu of %llu characters returned %s", (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st)); REQ(!memcmp(&keep, &sub, sizeof sub), "subview-out", "refused sub-view changed the result"); COUNT("refused sub-views"); }
        i = r.range(0, n); c = r.range(0, n - i); bool wholev = r.chance(1, 4); if (wholev) { i = 0; c = n; }
        trace("sub-view %llu+%llu whole=%d", (unsigned long long)i, (unsigned long long)c, wholev);
        ZyanStatus st = wholev ? ZyanStringViewInsideView(&sub, v) : ZyanStringViewInsideViewEx(&sub, v, i, c); REQ(st == ZYAN_STATUS_SUCCESS, "subview", "sub-view %llu+%llu of %llu: %s", (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st));
        Bytes sb(b.begin() + i, b.begin() + i + c); check_view(&sub, vd + i, sb, "sub-view"); COUNT("sub-views"); as_source(&sub, sb, r, depth + 1); }
}
static void sweep_views(Rng& r) {         // K: length of the viewed text, position and length of the sub-view, length of either part, capacity asked for
    const u64 K = sweep_k(); const u64 n = K + r.below(12); Bytes b = rnd_text(r, n); trace("text of %llu characters h=%llx", (unsigned long long)n, (unsigned long long)hash_bytes(b.data(), n));
    ViewSrc v(b, 0); check_view(v.v(), v.hb.p, b, "view inside buffer");
    auto sub = [&](u64 i, u64 c) { ZyanStringView w; memset(&w, (int)r.byte(), sizeof w); ZyanStringView keep = w; ZyanStatus st = ZyanStringViewInsideViewEx(&w, v.v(), i, c);
        if (i > n || c > n - i) { REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "subview-range", "sub-view %llu+%llu of %llu characters returned %s", (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st)); REQ(!memcmp(&keep, &w, sizeof w), "subview-out", "refused sub-view changed the result"); return; }
        REQ(st == ZYAN_STATUS_SUCCESS, "subview", "sub-view %llu+%llu of %llu: %s", (unsigned long long)i, (unsigned long long)c, (unsigned long long)n, st_name(st)); Bytes e(b.begin() + i, b.begin() + i + c); check_view(&w, v.hb.p + i, e, "sub-view"); COUNT("sub-views"); };
    sub(0, K); sub(K, n - K); sub(n - K, K); sub(r.range(0, n - K), K); sub(K, n - K + 1); sub(n + K, 0); sub(1, n);
    { Bytes z = b; z.resize(K); for (auto& x : z) if (!x) x = 'n'; HeapBuf hb(K + 1, 0x77, 1); memcpy(hb.p, z.data(), K); hb.p[K] = 0; ZyanStringView w; memset(&w, 0xB7, sizeof w); ZyanStatus st = ZyanStringViewInsideBuffer(&w, (const char*)hb.p); REQ(st == ZYAN_STATUS_SUCCESS, "view-create", "view of a text: %s", st_name(st)); check_view(&w, hb.p, z, "view of a zero-terminated text"); }
    { ZyanStringView w; ZyanStatus st = ZyanStringViewInsideBufferEx(&w, (const char*)v.hb.p, K); REQ(st == ZYAN_STATUS_SUCCESS, "view-create", "view of %llu characters: %s", (unsigned long long)K, st_name(st)); check_view(&w, v.hb.p, Bytes(b.begin(), b.begin() + K), "view of a buffer"); }
    for (int q = 0; q < 9; ++q) {          // 0,1,6,7: duplicates; the others: concatenations, K characters first, second, together; 5-8: capacity K
        Bytes x = rnd_text(r, q <= 2 ? K : q == 3 ? r.below(9) : q == 4 ? r.range(0, K) : r.below(9)), y; if (q == 2) y = rnd_text(r, r.below(9)); else if (q == 3) y = rnd_text(r, K); else if (q == 4) y = rnd_text(r, K - x.size()); else if (q == 5 || q == 8) y = rnd_text(r, r.below(9));
        Bytes e = x; e.insert(e.end(), y.begin(), y.end()); ViewSrc X(x, (int)r.below(2)), Y(y, (int)r.below(2)); u64 want = q >= 5 || r.chance(1, 3) ? K : r.below(3) * e.size() / 2; const bool cat = q >= 2 && q != 6 && q != 7; const char* what = cat ? "concatenation" : "duplicate";
        std::vector<std::pair<const u8*, u64>> srcs{{X.hb.p, x.size()}, {Y.hb.p, y.size()}}; ZyanString d; memset(&d, 0xC3, sizeof d); MonAlloc A; ZyanStatus st; const int how = q < 5 ? (int)r.below(3) : q < 7;
        if (how == 0) { st = cat ? ZyanStringConcat(&d, X.v(), Y.v(), want) : ZyanStringDuplicate(&d, X.v(), want); REQ(st == ZYAN_STATUS_SUCCESS, "copy-status", "%s returned %s", what, st_name(st)); check_copy(&d, e, want, what, nullptr, nullptr, srcs); }
        else if (how == 1) { st = cat ? ZyanStringConcatEx(&d, X.v(), Y.v(), want, A.get(), 2, 4) : ZyanStringDuplicateEx(&d, X.v(), want, A.get(), 2, 4); REQ(st == ZYAN_STATUS_SUCCESS, "copy-status", "%s returned %s", what, st_name(st)); check_copy(&d, e, want, what, &A, nullptr, srcs); }
        else { u64 cap = e.size() < K && r.chance(1, 2) ? K : e.size() + 1; if (cap < e.size() + 1) cap = e.size() + 1; HeapBuf hb(cap, 0x77, 1); st = cat ? ZyanStringConcatCustomBuffer(&d, X.v(), Y.v(), (char*)hb.p, cap) : ZyanStringDuplicateCustomBuffer(&d, X.v(), (char*)hb.p, cap); REQ(st == ZYAN_STATUS_SUCCESS, "copy-status", "%s into %llu bytes returned %s", what, (unsigned long long)cap, st_name(st)); check_copy(&d, e, cap - 1, what, nullptr, hb.p, srcs); ZyanStringDestroy(&d);
            if (!e.empty()) { HeapBuf sb(e.size()); ZyanString t; st = cat ? ZyanStringConcatCustomBuffer(&t, X.v(), Y.v(), (char*)sb.p, e.size()) : ZyanStringDuplicateCustomBuffer(&t, X.v(), (char*)sb.p, e.size()); REQ(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "copy-small", "%s of %zu characters into as many bytes returned %s", what, e.size(), st_name(st)); COUNT("refused small buffers"); } continue; }
        mutate(&d, e.size(), r); REQ(Bytes(X.hb.p, X.hb.p + x.size()) == x && Bytes(Y.hb.p, Y.hb.p + y.size()) == y, "copy-shared", "changing a %s changed its source", what);
        st = ZyanStringDestroy(&d); REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "Destroy: %s", st_name(st)); A.require_empty("copy");
    }
}
bool prop_case(u64 idx, Rng& r) {
    if (SWEEP) { sweep_views(r); return true; }
    for (int k = 0; k < 4; ++k) {
        bool big = r.chance(1, 1000); if (big) COUNT("large texts"); Bytes b = rnd_text(r, big ? large_size(r) : r.chance(1, 8) ? 0 : r.chance(1, 8) ? r.range(20, 200) : r.range(1, 20)); trace("text %s", quote(b).c_str());
        switch (r.below(5)) {
        case 0: case 1: { ViewSrc v(b, (int)r.below(2)); check_view(v.v(), v.hb.p, b, "view inside buffer"); as_source(v.v(), b, r, 0); Bytes now(v.hb.p, v.hb.p + b.size()); REQ(now == b, "view-changed", "the viewed buffer changed"); break; }
        case 2: { MonAlloc A; StrCfg c = rnd_strcfg(r); if (!c.dyn) c.cap0 = b.size() + 1 + r.below(4); Opt o; o.content = true; StrSim s(c, o, r, &A); s.init(); if (!b.empty()) s.append(b);
            ZyanStringView w; memset(&w, 0xB7, sizeof w); ZyanStatus st = ZyanStringViewInsideView(&w, ZYAN_STRING_TO_VIEW(&s.s)); REQ(st == ZYAN_STATUS_SUCCESS, "view-create", "view of a string: %s", st_name(st));
            check_view(&w, s.data(), b, "view of a string"); as_source(&w, b, r, 0); s.verify("viewing"); s.destroy(); break; }
        case 3: { for (auto& x : b) if (!x) x = 'n'; HeapBuf hb(b.size() + 1, 0x77, 1); memcpy(hb.p, b.data(), b.size()); hb.p[b.size()] = 0; ZyanStringView w; memset(&w, 0xB7, sizeof w); ZyanStatus st = ZyanStringViewInsideBuffer(&w, (const char*)hb.p);
            REQ(st == ZYAN_STATUS_SUCCESS, "view-create", "view of a text: %s", st_name(st)); check_view(&w, hb.p, b, "view of a zero-terminated text"); as_source(&w, b, r, 0); break; }
        default: { unsigned q = (unsigned)r.below(4); static const char* const tx[4] = {"Literal", "", "a\0b", "0123456789 the quick brown fox jumps over the lazy dog"}; Bytes lb(tx[q], tx[q] + lit_sizes[q]);
            const char* d; ZyanStringViewGetData(lit_views[q], &d); check_view(lit_views[q], (const u8*)d, lb, "literal view"); as_source(lit_views[q], lb, r, 0); COUNT("literal views"); } }
    }
    return true;
}
