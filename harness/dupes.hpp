// Duplicates and concatenations as allocator clients.
#pragma once
#include "vec_engine.hpp"
#include "str_engine.hpp"
// o.fault: each allocator request fails in turn; the source must not change and nothing may stay allocated.
inline void vec_dup_alloc(VecSim& s, Rng& r, MonAlloc& B, bool faults) {
    u64 want = r.chance(1, 60) ? 65536 : r.chance(1, 3) ? 0 : r.range(0, s.n() + 9); u64 g = r.range(1, 4), t = r.range(0, 5); ZyanVector d; bool inj;
    trace("DuplicateEx capacity=%llu", (unsigned long long)want);
    ZyanStatus st = fault_loop(&B, faults, Kind::Grow, s.persist, "VectorDuplicateEx", [&] { memset(&d, 0x3C, sizeof d); return ZyanVectorDuplicateEx(&d, &s.v, want, B.get(), (ZyanU8)g, (ZyanU8)t); },
        [&] { B.require_empty("failed VectorDuplicateEx"); s.verify("failed duplicate"); COUNT("failed duplicates"); }, inj);
    REQ(st == ZYAN_STATUS_SUCCESS, "dup", "VectorDuplicateEx: %s", st_name(st));
    REQ(B.live.size() == 1, "dup-blocks", "duplicate owns %zu blocks", B.live.size());
    ZyanUSize n = 0; ZyanVectorGetSize(&d, &n); REQ(n == s.n(), "dup-size", "duplicate has %zu of %llu elements", (size_t)n, (unsigned long long)s.n());
    for (u64 i = 0; i < n; ++i) { const void* p = ZyanVectorGet(&d, i); REQ(p && !memcmp(p, s.m[i].data(), s.c.es), "dup-content", "duplicate differs at %llu", (unsigned long long)i); }
    Ledger& L = ledger(); bool armed = L.armed; L.armed = false;
    st = ZyanVectorDestroy(&d); L.armed = armed; REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "Destroy of a duplicate: %s", st_name(st));
    B.require_empty("destroyed duplicate"); s.verify("duplicating"); COUNT("duplicates");
}
inline void str_dup_alloc(StrSim& s, Rng& r, MonAlloc& B, bool faults) {
    u64 want = r.chance(1, 60) ? 65536 : r.chance(1, 3) ? 0 : r.range(0, s.n() + 40); u64 g = r.range(1, 4), t = r.range(0, 5); ZyanString d; bool inj; bool cat = r.chance(1, 2);
    Bytes o = rnd_text(r, r.range(1, 20)); ViewSrc src(o);
    trace("string %s capacity=%llu", cat ? "ConcatEx" : "DuplicateEx", (unsigned long long)want);
    Bytes e = s.m; if (cat) e.insert(e.end(), o.begin(), o.end());
    ZyanStatus st = fault_loop(&B, faults, Kind::Grow, s.persist, "string duplicate/concat", [&] { memset(&d, 0x3C, sizeof d);
            return cat ? ZyanStringConcatEx(&d, ZYAN_STRING_TO_VIEW(&s.s), src.v(), want, B.get(), (ZyanU8)g, (ZyanU8)t) : ZyanStringDuplicateEx(&d, ZYAN_STRING_TO_VIEW(&s.s), want, B.get(), (ZyanU8)g, (ZyanU8)t); },
        [&] { B.require_empty("failed string duplicate"); s.verify("failed duplicate"); COUNT("failed duplicates"); }, inj);
    REQ(st == ZYAN_STATUS_SUCCESS, "dup", "string duplicate/concat: %s", st_name(st));
    REQ(B.live.size() == 1, "dup-blocks", "duplicate owns %zu blocks", B.live.size());
    ZyanUSize n = 0; const char* p = nullptr; ZyanStringGetSize(&d, &n); ZyanStringGetData(&d, &p);
    REQ(n == e.size() && p && !memcmp(p, e.data(), n) && !p[n], "dup-content", "duplicate differs from its source(s)");
    st = ZyanStringDestroy(&d); REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "Destroy of a duplicate: %s", st_name(st));
    B.require_empty("destroyed string duplicate"); s.verify("duplicating"); COUNT("duplicates");
}
