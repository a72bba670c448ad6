// Copies of containers that live on: a duplicate (or concatenation) equals its source(s), then both evolve independently
// under all monitors that are armed.
#pragma once
#define HAVE_COPIES
#include "vec_engine.hpp"
#include "str_engine.hpp"

inline void vec_copy(VecSim& s, Rng& r, MonAlloc& A2, u64 maxn = 40, u64 ask = ~(u64)0) {
    // the duplicate equals the source and both evolve independently
    VecCfg dc = s.c; dc.growth = r.range(1, 4); dc.thr = r.range(0, 5);
    u64 want = ask != ~(u64)0 ? ask : r.chance(1, 3) ? 0 : r.range(0, s.n() + 6);
    int how = (int)r.below(3);
    dc.dyn = how != 2; dc.cap0 = std::max<u64>(want, s.n());
    VecSim d(dc, s.o, r, how == 0 ? nullptr : &A2);
    ZyanStatus st;
    memset(&d.v, 0x3C, sizeof d.v);
    trace("duplicate how=%d capacity=%llu", how, (unsigned long long)want);
    if (how == 0) { d.A = nullptr; st = ZyanVectorDuplicate(&d.v, &s.v, want); d.c.growth = 2; d.c.thr = 4; d.sync(); }
    else if (how == 1) st = ZyanVectorDuplicateEx(&d.v, &s.v, want, A2.get(), (ZyanU8)dc.growth, (ZyanU8)dc.thr);
    else {
        if (s.n() && r.chance(1, 4)) {      // too small
            HeapBuf hb(s.n() * s.c.es); ZyanVector t; st = ZyanVectorDuplicateCustomBuffer(&t, &s.v, hb.p, s.n() - 1);
            REQ(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "dup-small", "duplicate into a too small buffer returned %s", st_name(st));
        }
        if (!dc.cap0) dc.cap0 = d.c.cap0 = 1;
        d.buf = new HeapBuf(dc.cap0 * dc.es, 0x77, natural(dc.es)); d.c.growth = 1; d.c.thr = 0; d.sync();
        st = ZyanVectorDuplicateCustomBuffer(&d.v, &s.v, d.buf->p, dc.cap0);
    }
    REQ(st == ZYAN_STATUS_SUCCESS, "dup", "Duplicate failed with %s", st_name(st));
    d.alive = true; d.m = s.m; d.cap = d.real_cap();
    REQ(d.cap >= std::max<u64>(want, s.n()), "dup-capacity", "duplicate has capacity %llu", (unsigned long long)d.cap);
    d.verify("duplicate");
    for (u64 i = r.below(7); i; --i) { d.step(maxn); s.verify("changing the duplicate"); }
    for (u64 i = r.below(4); i; --i) { s.step(maxn); d.verify("changing the source"); }
    d.destroy();
    s.verify("destroying the duplicate");
    COUNT("duplicates");
}
template <class Sim> inline void str_copy(Sim& s, Rng& r, MonAlloc& A2, u64 maxn = 60, u64 ask = ~(u64)0) {
    StrCfg dc; dc.growth = r.range(1, 4); dc.thr = r.range(0, 5); int how = (int)r.below(3); bool cat = r.chance(1, 2), swap = r.chance(1, 2);
    Bytes ob = rnd_text(r, r.range(1, 12)); ViewSrc os(ob); Bytes e = s.m; if (cat) e.insert(swap ? e.begin() : e.end(), ob.begin(), ob.end());
    const ZyanStringView *a = ZYAN_STRING_TO_VIEW(&s.s), *b = os.v(); if (swap && cat) std::swap(a, b);
    u64 want = ask != ~(u64)0 ? ask : r.chance(1, 3) ? 0 : r.range(0, e.size() + 6); dc.dyn = how != 2; dc.cap0 = dc.dyn ? want : e.size() + 1 + r.below(8); if (!how) { dc.growth = 2; dc.thr = 4; }
    Sim d(dc, s.o, r, how == 0 ? nullptr : &A2); memset(&d.s, 0x3C, sizeof d.s); ZyanStatus st;
    trace("%s how=%d swap=%d capacity=%llu growth=%llu threshold=%llu", cat ? "concat" : "duplicate", how, swap, (unsigned long long)want, (unsigned long long)dc.growth, (unsigned long long)dc.thr);
    if (how == 0) st = cat ? ZyanStringConcat(&d.s, a, b, want) : ZyanStringDuplicate(&d.s, a, want);
    else if (how == 1) st = cat ? ZyanStringConcatEx(&d.s, a, b, want, A2.get(), (ZyanU8)dc.growth, (ZyanU8)dc.thr) : ZyanStringDuplicateEx(&d.s, a, want, A2.get(), (ZyanU8)dc.growth, (ZyanU8)dc.thr);
    else { d.c.growth = 1; d.c.thr = 0; d.sync(); d.buf = new HeapBuf(dc.cap0, 0x77, 1); st = cat ? ZyanStringConcatCustomBuffer(&d.s, a, b, (char*)d.buf->p, dc.cap0) : ZyanStringDuplicateCustomBuffer(&d.s, a, (char*)d.buf->p, dc.cap0); }
    REQ(st == ZYAN_STATUS_SUCCESS, "dup", "string %s failed with %s", cat ? "concatenation" : "duplicate", st_name(st));
    d.m = e; d.adopt(); REQ(d.cap - 1 >= e.size() && (how == 2 || d.cap - 1 >= want), "dup-capacity", "copy of %zu characters has capacity %llu", e.size(), (unsigned long long)d.cap - 1);
    d.verify("duplicate");
    for (u64 i = r.below(7); i; --i) { d.step(maxn); s.verify("changing the copy"); }
    for (u64 i = r.below(4); i; --i) { s.step(maxn); d.verify("changing the source"); }
    d.destroy(); s.verify("destroying the copy"); COUNT("string copies");
}
