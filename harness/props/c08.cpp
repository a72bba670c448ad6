// C08: substring searches against a reference search; views live in exact-size blocks (red zones behind them).
#include "str_engine.hpp"
#include "large.hpp"
static bool same(u8 a, u8 b, bool ci) { return ci ? lower(a) == lower(b) : a == b; }
static i64 ref(const Bytes& h, const Bytes& n, u64 lo, u64 hi, bool ci, bool back) {     // occurrences inside [lo,hi)
    if (n.empty() || n.size() > hi - lo) return -1;
    i64 best = -1;
    for (u64 s = lo; s + n.size() <= hi; ++s) { bool eq = true; for (u64 k = 0; k < n.size() && eq; ++k) eq = same(h[s + k], n[k], ci); if (eq) { best = (i64)s; if (!back) break; } }
    return best; }
static const char* nm(bool ci, bool back, bool ex) { static const char* t[8] = {"LPos", "LPosEx", "LPosI", "LPosIEx", "RPos", "RPosEx", "RPosI", "RPosIEx"}; return t[(back ? 4 : 0) + (ci ? 2 : 0) + ex]; }
static void probe(const ZyanStringView* hv, const Bytes& h, const ZyanStringView* nv, const Bytes& n, bool ci, bool back, bool ex, u64 i, u64 c) {
    u64 sz = h.size(); if (!ex) { i = back ? sz : 0; c = sz; }
    bool ok = i <= sz && (back ? c <= i : c <= sz - i);
    ZyanISize f = 0x5555; ZyanStatus st;
    if (!back) st = !ci ? (ex ? ZyanStringLPosEx(hv, nv, &f, i, c) : ZyanStringLPos(hv, nv, &f)) : (ex ? ZyanStringLPosIEx(hv, nv, &f, i, c) : ZyanStringLPosI(hv, nv, &f));
    else st = !ci ? (ex ? ZyanStringRPosEx(hv, nv, &f, i, c) : ZyanStringRPos(hv, nv, &f)) : (ex ? ZyanStringRPosIEx(hv, nv, &f, i, c) : ZyanStringRPosI(hv, nv, &f));
    if (!ok) { REQ(st == ZYAN_STATUS_OUT_OF_RANGE, "window", "%s index %llu count %llu in %llu characters returned %s", nm(ci, back, ex), (unsigned long long)i, (unsigned long long)c, (unsigned long long)sz, st_name(st)); COUNT("refused windows"); return; }
    u64 lo = back ? i - c : i, hi = back ? i : i + c;
    i64 want = ref(h, n, lo, hi, ci, back);
    REQ(st == (want >= 0 ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE) && (i64)f == want, "search", "%s of %s in %s window [%llu,%llu): %s index %lld, reference %lld", nm(ci, back, ex), quote(n).c_str(), quote(h).c_str(), (unsigned long long)lo, (unsigned long long)hi, st_name(st), (long long)f, (long long)want);
    if (want >= 0) COUNT("found"); else COUNT("not found");
    if (want >= 0 && ci && !std::equal(n.begin(), n.end(), h.begin() + want)) COUNT("found only with case folded");
}
static void all8(const ViewSrc& H, const Bytes& h, const ViewSrc& N, const Bytes& n, u64 i, u64 c) {
    for (int ci = 0; ci < 2; ++ci) { probe(H.v(), h, N.v(), n, ci, false, true, i, c); probe(H.v(), h, N.v(), n, ci, true, true, i + c, c); } }
static void whole4(const ViewSrc& H, const Bytes& h, const ViewSrc& N, const Bytes& n) { for (int ci = 0; ci < 2; ++ci) for (int b = 0; b < 2; ++b) probe(H.v(), h, N.v(), n, ci, b, false, 0, 0); }
static Bytes nth(u64 q, const u8* al, u64 k) { u64 l = 0, p = 1; while (q >= p) { q -= p; p *= k; ++l; } Bytes b; for (u64 j = 0; j < l; ++j) { b.push_back(al[q % k]); q /= k; } return b; }
static u64 upto(u64 k, u64 l) { u64 t = 0, p = 1; for (u64 i = 0; i <= l; ++i) { t += p; p *= k; } return t; }
static const u8 AL[3] = {'a', 'A', 'b'};
static const u8 AL2[4] = {'@', '`', 'Z', 'z'};       // look-alikes: '@'^32 == '`'
void prop_begin() {}
void prop_end() {}
static Bytes from(Rng& r, const char* al, u64 n) { u64 k = strlen(al); Bytes b(n); for (auto& x : b) x = (u8)al[r.below(k)]; return b; }
static void sweep_search(Rng& r) {         // K: length of the needle, of the haystack and of the window, position of the match and of the window
    const u64 K = sweep_k(); auto fold = [&](Bytes b) { for (auto& x : b) if (r.chance(1, 2)) x = r.chance(1, 2) ? upper(x) : lower(x); return b; };
    for (int part = 0; part < 3; ++part) {
        Bytes n, h; u64 at;
        if (part == 0) { n = from(r, r.chance(1, 2) ? "ab" : "aBcZ.", K); at = r.below(9); h = from(r, r.chance(1, 2) ? "ab" : "cd", at); Bytes m = r.chance(1, 2) ? fold(n) : n; h.insert(h.end(), m.begin(), m.end()); Bytes t = from(r, "ab.", r.below(9)); h.insert(h.end(), t.begin(), t.end()); }
        else { n = from(r, "xYz", r.range(1, 5)); at = part == 1 ? K : K >= n.size() ? K - n.size() : 0; h = from(r, "abC.", at); Bytes m = r.chance(1, 2) ? fold(n) : n; h.insert(h.end(), m.begin(), m.end()); if (part == 1) { Bytes t = from(r, "abx", r.chance(1, 2) ? r.below(9) : K); h.insert(h.end(), t.begin(), t.end()); } if (part == 2) h.resize(K); }
        trace("part %d needle %s haystack of %llu at %llu", part, quote(n).c_str(), (unsigned long long)h.size(), (unsigned long long)at);
        ViewSrc H(h, (int)r.below(2)), N(n, (int)r.below(2)); const u64 hl = h.size(); whole4(H, h, N, n);
        auto win = [&](u64 i, u64 c) { if (i <= hl && c <= hl - i) all8(H, h, N, n, i, c); };
        win(K, hl - std::min(hl, K)); win(0, K); win(at, std::min<u64>(n.size(), hl - std::min(hl, at))); win(at, K); win(at ? at - 1 : 0, K); win(r.below(3), K); win(K, r.below(8)); if (hl >= K) win(hl - K, K); if (at && hl > at) { win(at - 1, n.size() + 1); win(0, at); }
        if (!n.empty()) { Bytes q = n; q[r.chance(1, 2) ? q.size() - 1 : r.below(q.size())] ^= (u8)(1u << r.below(8)); ViewSrc Q(q, (int)r.below(2)); whole4(H, h, Q, q); }     // nearly there
        { Bytes g = h; if (at < hl && hl) { g[at] = '#'; ViewSrc G(g, (int)r.below(2)); whole4(G, g, N, n); } }
        for (int ci = 0; ci < 2; ++ci) for (int b = 0; b < 2; ++b) { probe(H.v(), h, N.v(), n, ci, b, true, K, b ? K + 1 : hl + 1 - std::min(hl, K)); if (r.chance(1, 2)) probe(H.v(), h, N.v(), n, ci, b, true, hl + K, r.below(2)); }
    }
}
bool prop_case(u64 idx, Rng& r) {
    if (SWEEP) { sweep_search(r); return true; }
    u64 e1 = upto(3, 5), e2 = upto(4, 3);
    if (idx < e1 + e2) {
        bool first = idx < e1; Bytes h = first ? nth(idx, AL, 3) : nth(idx - e1, AL2, 4); u64 nn = first ? upto(3, 3) : upto(4, 2);
        trace("exhaustive haystack %s set %d", quote(h).c_str(), first); ViewSrc H(h, (int)r.below(2));
        for (u64 q = 0; q < nn; ++q) { Bytes n = first ? nth(q, AL, 3) : nth(q, AL2, 4); ViewSrc N(n, (int)r.below(2)); whole4(H, h, N, n);
            for (u64 i = 0; i <= h.size(); ++i) for (u64 c = 0; c <= h.size() - i; ++c) all8(H, h, N, n, i, c); }
        COUNT("exhaustive haystacks"); return true;
    }
    bool big = r.chance(1, 6000); u64 hl = big ? large_size(r) : r.chance(1, 6) ? r.range(30, 400) : r.range(0, 30); if (big) COUNT("large haystacks"); Bytes h = rnd_text(r, hl);
    int style = (int)r.below(4);
    if (style == 0) for (auto& x : h) x = r.chance(1, 2) ? 'a' : 'A';                                  // many partial matches
    else if (style == 1) { u64 per = r.range(1, 4); for (u64 i = 0; i < hl; ++i) h[i] = (u8)("abAb"[(i % per)]); if (hl) h[r.below(hl)] ^= 32; }
    ViewSrc H(h, (int)r.below(2)); trace("haystack %s", quote(h).c_str());
    // sometimes the haystack is a window of a larger view, directly followed by other characters
    for (int q = 0; q < (big ? 4 : 10); ++q) {
        Bytes n; int k = (int)r.below(5);
        if (k < 3 && hl) { u64 i = r.below(hl), c = r.range(1, std::min<u64>(hl - i, r.chance(1, 3) && !big ? hl : 6)); if (big && r.chance(1, 3)) { i = r.below(8); c = hl - i - r.below(8); } n.assign(h.begin() + i, h.begin() + i + c); if (k == 1) for (auto& x : n) if (r.chance(1, 2)) x = r.chance(1, 2) ? upper(x) : lower(x); if (k == 2) n[r.below(n.size())] ^= (u8)(1u << r.below(8)); if (r.chance(1, 8)) n.push_back(h[r.below(hl)]); }
        else n = rnd_text(r, r.range(0, 5));
        ViewSrc N(n, (int)r.below(2)); trace("needle %s", quote(n).c_str());
        whole4(H, h, N, n);
        for (int z = 0; z < 6; ++z) { u64 i = r.range(0, hl), c = r.range(0, hl - i); all8(H, h, N, n, i, c); }
        for (int z = 0; z < 3; ++z) {
            u64 i, c; switch (r.below(6)) { case 0: i = hl + 1; c = 0; break; case 1: i = r.range(0, hl); c = hl - i + 1; break; case 2: i = r.range(1, hl + 1); c = (u64)(ZyanUSize)(0 - i); break; case 3: i = r.range(0, hl); c = UMAX; break; case 4: i = UMAX; c = r.below(3); break; default: i = r.range(0, hl); c = i + 1; }
            for (int ci = 0; ci < 2; ++ci) for (int b = 0; b < 2; ++b) { bool bad = b ? (i > hl || c > i) : (i > hl || c > hl - i); if (bad || r.chance(1, 4)) probe(H.v(), h, N.v(), n, ci, b, true, i, c); } }
        if (hl > 2) {     // a view into the middle: neighbours must not be consulted
            u64 i = r.range(0, hl - 1), c = r.range(1, hl - i); ZyanStringView sub; memset(&sub, 0xB7, sizeof sub); ZyanStatus st = ZyanStringViewInsideViewEx(&sub, H.v(), i, c);
            REQ(st == ZYAN_STATUS_SUCCESS, "subview", "sub-view: %s", st_name(st)); Bytes sh(h.begin() + i, h.begin() + i + c);
            for (int ci = 0; ci < 2; ++ci) for (int b = 0; b < 2; ++b) { probe(&sub, sh, N.v(), n, ci, b, false, 0, 0); u64 j = r.range(0, c), d = r.range(0, c - j); probe(&sub, sh, N.v(), n, ci, b, true, b ? j + d : j, d); }
            COUNT("sub-view searches"); }
        if (hl && !big) {         // both operands in the same memory
            u64 i = r.chance(1, 3) ? 0 : r.below(hl), c = r.range(1, hl - i), j = r.chance(1, 2) ? i : r.below(hl), d = r.range(1, std::min<u64>(hl - j, r.chance(1, 2) ? 4 : hl)); ZyanStringView a, b;
            REQ(ZyanStringViewInsideViewEx(&a, H.v(), i, c) == ZYAN_STATUS_SUCCESS && ZyanStringViewInsideViewEx(&b, H.v(), j, d) == ZYAN_STATUS_SUCCESS, "subview", "sub-view refused");
            Bytes x(h.begin() + i, h.begin() + i + c), y(h.begin() + j, h.begin() + j + d); u64 w = r.range(0, c), k = r.range(0, c - w);
            for (int ci = 0; ci < 2; ++ci) for (int bk = 0; bk < 2; ++bk) { probe(&a, x, &b, y, ci, bk, false, 0, 0); probe(&a, x, &b, y, ci, bk, true, bk ? w + k : w, k); if (r.chance(1, 4)) probe(H.v(), h, H.v(), h, ci, bk, false, 0, 0); }
            COUNT("searches in shared memory"); }
        { Bytes back((const u8*)H.hb.p, (const u8*)H.hb.p + h.size()); REQ(back == h, "search-changed", "a search changed the haystack"); Bytes bn((const u8*)N.hb.p, (const u8*)N.hb.p + n.size()); REQ(bn == n, "search-changed", "a search changed the needle"); }
    }
    return hl > 0;
}
