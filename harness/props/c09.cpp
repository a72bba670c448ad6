// C09: comparison order and case conversion.
#include "str_engine.hpp"
#include "large.hpp"
static int sgn(i64 x) { return x < 0 ? -1 : x > 0; }
struct Res { int s; };
static int cmp(const ZyanStringView* a, const ZyanStringView* b, bool ci, const Bytes& x, const Bytes& y) {
    ZyanI32 v = 0x5A5A; ZyanStatus st = ci ? ZyanStringCompareI(a, b, &v) : ZyanStringCompare(a, b, &v);
    REQ(st == ZYAN_STATUS_TRUE || st == ZYAN_STATUS_FALSE, "compare-status", "compare of %s and %s returned %s", quote(x).c_str(), quote(y).c_str(), st_name(st));
    REQ((st == ZYAN_STATUS_TRUE) == (v == 0), "compare-status", "compare of %s and %s returned %s with result %d", quote(x).c_str(), quote(y).c_str(), st_name(st), v);
    COUNT("comparisons"); return sgn(v); }
static void pair(const ZyanStringView* A, const Bytes& x, const ZyanStringView* B, const Bytes& y, int out[2]) {
    for (int ci = 0; ci < 2; ++ci) {
        int s = cmp(A, B, ci, x, y), t = cmp(B, A, ci, y, x); out[ci] = s;
        REQ(s == -t, "antisymmetry", "compare%s of %s and %s gives %d, swapped %d", ci ? "I" : "", quote(x).c_str(), quote(y).c_str(), s, t);
        u64 i = 0; while (i < x.size() && i < y.size() && (ci ? lower(x[i]) == lower(y[i]) : x[i] == y[i])) ++i;
        int want; bool strict = true;
        if (i < x.size() && i < y.size()) { u8 p = ci ? lower(x[i]) : x[i], q = ci ? lower(y[i]) : y[i]; want = p < q ? -1 : 1; strict = (p < 0x80) == (q < 0x80); }   // order across 0x80: char signedness is not specified
        else want = sgn((i64)x.size() - (i64)y.size());
        if (strict) REQ(s == want, "order", "compare%s of %s and %s gives %d, expected %d", ci ? "I" : "", quote(x).c_str(), quote(y).c_str(), s, want);
        else REQ(s != 0, "order", "compare%s of the different strings %s and %s gives 0", ci ? "I" : "", quote(x).c_str(), quote(y).c_str());
        if (!want) COUNT("equal pairs");
    }
    // case-insensitive comparison == comparison of the lower-cased texts
    Bytes lx = x, ly = y; for (auto& c : lx) c = lower(c); for (auto& c : ly) c = lower(c);
    ViewSrc LA(lx), LB(ly); int s = cmp(LA.v(), LB.v(), false, lx, ly);
    REQ(s == out[1], "case-insensitive", "compareI of %s and %s gives %d, compare of the lower-cased texts %d", quote(x).c_str(), quote(y).c_str(), out[1], s);
}
static void pair(const ViewSrc& A, const ViewSrc& B, int out[2]) { pair(A.v(), A.b, B.v(), B.b, out); }
static Bytes nth(u64 q, const u8* al, u64 k) { u64 l = 0, p = 1; while (q >= p) { q -= p; p *= k; ++l; } Bytes b; for (u64 j = 0; j < l; ++j) { b.push_back(al[q % k]); q /= k; } return b; }
static const u8 AL[8] = {'a', 'A', 'b', '[', '{', 0, 0x80, 0xE1};
static Bytes variant(Rng& r, const Bytes& b) { Bytes c = b; int k = (int)r.below(6); if (k == 0 && !c.empty()) c.pop_back(); else if (k == 1) c.push_back(rnd_text(r, 1)[0]); else if (k == 2 && !c.empty()) { u64 i = r.below(c.size()); c[i] ^= 32; } else if (k == 3 && !c.empty()) c[r.below(c.size())] = rnd_text(r, 1)[0]; else if (k == 4) for (auto& x : c) x = r.chance(1, 2) ? upper(x) : lower(x); return c; }
void prop_begin() {}
void prop_end() {}
static void sweep_text(Rng& r) {           // K: length of the texts, of the common part and of the window, position of the window
    const u64 K = sweep_k(); Bytes x = rnd_text(r, K); trace("texts of %llu characters h=%llx", (unsigned long long)K, (unsigned long long)hash_bytes(x.data(), K)); ViewSrc A(x, (int)r.below(2)); int o2[2];
    auto with = [&](Bytes y) { ViewSrc B(y, (int)r.below(2)); pair(A, B, o2); };
    with(x); { Bytes y = x; y[K - 1] ^= 32; with(y); } { Bytes y = x; y[K - 1] = rnd_text(r, 1)[0]; with(y); } { Bytes y = x; y[r.below(K)] ^= (u8)(1u << r.below(8)); with(y); } { Bytes y = x; for (auto& c : y) if (r.chance(1, 2)) c = r.chance(1, 2) ? upper(c) : lower(c); with(y); y.push_back('q'); with(y); }
    { Bytes y = x, z = x; y.push_back('m'); z.push_back(r.chance(1, 2) ? 'n' : 'M'); Bytes t = rnd_text(r, r.below(9)); y.insert(y.end(), t.begin(), t.end()); ViewSrc B(y), C(z); pair(B, C, o2); }
    Opt o; o.content = true; MonAlloc M; StrCfg c = rnd_strcfg(r); const u64 n = K + r.below(20); c.cap0 = c.dyn ? c.cap0 : n + 1 + r.below(5); StrSim s(c, o, r, &M); s.init(); s.append(rnd_text(r, n)); bool up = r.chance(1, 2);
    for (int q = 0; q < 3; ++q) { up = !up; Bytes t(n); for (auto& ch : t) ch = "aZmQ[z9{A"[r.below(9)]; s.clear(); s.append(t); if (q == 0) s.casing(up, true, K, n - K); else if (q == 1) s.casing(up, true, r.range(0, n - K), K); else s.casing(up, false, 0, 0); s.casing(!up, true, r.chance(1, 2) ? 0 : n - K, K); s.casing(up, true, K, n - K); COUNT("conversions"); }
    s.destroy();
}
bool prop_case(u64 idx, Rng& r) {
    if (SWEEP) { sweep_text(r); return true; }
    const u64 EX = 1 + 8 + 64;
    if (idx < EX) { Bytes x = nth(idx, AL, 8); trace("exhaustive pairs of %s", quote(x).c_str()); ViewSrc A(x, (int)r.below(2)); int s[2];
        for (u64 q = 0; q < EX; ++q) { Bytes y = nth(q, AL, 8); ViewSrc B(y, (int)r.below(2)); pair(A, B, s); } COUNT("exhaustive rows"); return true; }
    if (idx < EX + 256) {   // every character code: conversion and comparison
        u8 ch = (u8)(idx - EX); trace("character 0x%02x", ch); Bytes x{ch}; ViewSrc A(x); int s[2];
        for (int q = 0; q < 256; ++q) { Bytes y{(u8)q}; ViewSrc B(y); pair(A, B, s); }
        COUNT("exhaustive characters");
        for (int up = 0; up < 2; ++up) { ZyanString t; HeapBuf hb(4); REQ(ZyanStringInitCustomBuffer(&t, (char*)hb.p, 4) == ZYAN_STATUS_SUCCESS, "init", "init"); REQ(ZyanStringAppend(&t, A.v()) == ZYAN_STATUS_SUCCESS, "append", "append");
            ZyanStatus st = up ? ZyanStringToUpperCase(&t) : ZyanStringToLowerCase(&t); REQ(st == ZYAN_STATUS_SUCCESS, "case-status", "case conversion: %s", st_name(st));
            u8 w = up ? upper(ch) : lower(ch); REQ(hb.p[0] == w && hb.p[1] == 0, "case", "converting 0x%02x gives 0x%02x, expected 0x%02x", ch, hb.p[0], w); }
        return true; }
    bool big = r.chance(1, 2000); if (big) COUNT("large texts");
    Bytes x = rnd_text(r, big ? large_size(r) : r.chance(1, 6) ? r.range(0, 200) : r.range(0, 12)), y = r.chance(1, 4) ? rnd_text(r, r.range(0, 12)) : variant(r, x), z = r.chance(1, 4) ? rnd_text(r, r.range(0, 12)) : variant(r, y);
    trace("%s | %s | %s", quote(x).c_str(), quote(y).c_str(), quote(z).c_str());
    ViewSrc A(x, (int)r.below(2)), B(y, (int)r.below(2)), C(z, (int)r.below(2)); int ab[2], bc[2], ac[2]; pair(A, B, ab); pair(B, C, bc); pair(A, C, ac); int self[2]; pair(A, A, self);
    for (int ci = 0; ci < 2; ++ci) { if (ab[ci] <= 0 && bc[ci] <= 0) REQ(ac[ci] <= 0 && (ac[ci] < 0 || (ab[ci] == 0 && bc[ci] == 0)), "transitivity", "a<=b<=c but not a<=c");
        if (ab[ci] >= 0 && bc[ci] >= 0) REQ(ac[ci] >= 0 && (ac[ci] > 0 || (ab[ci] == 0 && bc[ci] == 0)), "transitivity", "a>=b>=c but not a>=c"); COUNT("triples"); }
    for (int q = 0; q < 4 && !x.empty(); ++q) {      // both operands in the same memory
        u64 n = x.size(), i = r.chance(1, 3) ? 0 : r.below(n), c = r.range(1, n - i), j = r.chance(1, 2) ? i : r.below(n), d = r.chance(1, 3) ? std::min(c, n - j) : r.range(1, n - j); ZyanStringView a, b; int o2[2];
        REQ(ZyanStringViewInsideViewEx(&a, A.v(), i, c) == ZYAN_STATUS_SUCCESS && ZyanStringViewInsideViewEx(&b, A.v(), j, d) == ZYAN_STATUS_SUCCESS, "subview", "sub-view refused");
        pair(&a, Bytes(x.begin() + i, x.begin() + i + c), &b, Bytes(x.begin() + j, x.begin() + j + d), o2); COUNT("comparisons in shared memory"); if (big) break; }
    // case conversion on windows
    Opt o; o.content = true; MonAlloc M; StrCfg c = rnd_strcfg(r); c.cap0 = c.dyn ? c.cap0 : x.size() + 1 + r.below(5); StrSim s(c, o, r, &M); s.init(); if (!x.empty()) s.append(x);
    u64 n = s.n();
    for (int q = 0; q < 6; ++q) { bool up = r.chance(1, 2);
        if (r.chance(1, 4)) { u64 i, k; switch (r.below(5)) { case 0: i = n + 1; k = 0; break; case 1: i = r.range(0, n); k = n - i + 1; break; case 2: i = r.range(1, n + 1); k = (u64)(ZyanUSize)(0 - i); break; case 3: i = r.range(0, n); k = UMAX; break; default: i = UMAX; k = r.below(3); } s.casing(up, true, i, k); COUNT("refused conversions"); }
        else { u64 i = r.range(0, n); s.casing(up, r.chance(4, 5), i, r.range(0, n - i)); COUNT("conversions"); } }
    s.destroy();
    return x.size() + y.size() > 0;
}
