// C11: number formatting against an independent formatter, every padding, in every capacity situation.
#include "fmt_ops.hpp"
#include "large.hpp"
static std::vector<u64> VALS;
void prop_begin() {
    for (u64 i = 0; i <= 130; ++i) VALS.push_back(i);
    u64 p = 1; for (int i = 0; i < 20; ++i) { for (int d = -1; d <= 1; ++d) { VALS.push_back(p + d); VALS.push_back(0 - (p + d)); } if (i < 19) p *= 10; }
    for (int i = 0; i < 64; ++i) for (int d = -1; d <= 1; ++d) { VALS.push_back(((u64)1 << i) + d); VALS.push_back((u64)0 - (((u64)1 << i) + d)); }
    for (u64 v : {255ull, 999ull, 1000ull, 1099ull, 0x0F0F0F0F0F0F0F0Full, 0xF0F0F0F0F0F0F0F0ull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull, 12345678901234567890ull, 9876543210ull, 100000000000000000ull, 4294967295ull, 4294967296ull, 42949672960ull, 101010101010101010ull}) VALS.push_back(v);
    std::sort(VALS.begin(), VALS.end()); VALS.erase(std::unique(VALS.begin(), VALS.end()), VALS.end());
}
void prop_end() {}
static void expect_str(ZyanString* s, const Bytes& e, const char* what) {
    ZyanUSize n = 0x77; const char* p = nullptr; ZyanStringGetSize(s, &n); ZyanStringGetData(s, &p);
    REQ(n == e.size(), "length", "%s: length %zu, expected %zu: %s vs %s", what, (size_t)n, e.size(), p ? quote(Bytes((u8*)p, (u8*)p + std::min<size_t>(n, 300))).c_str() : "", quote(e, 300).c_str());
    REQ(!memcmp(p, e.data(), n), "text", "%s: text %s, expected %s", what, quote(Bytes((u8*)p, (u8*)p + n), 300).c_str(), quote(e, 300).c_str());
    REQ(p[n] == 0, "terminator", "%s: not terminated", what);
    COUNT("texts compared"); }
static void one(const NumSpec& q, const Bytes& pre, u64 slack, int mode, MonAlloc& A, Rng& r, const ViewSrc& pf) {
    Bytes t = ref_number(q), e = pre; e.insert(e.end(), t.begin(), t.end()); ZyanString s; memset(&s, 0xC3, sizeof s); ZyanStatus st; HeapBuf* hb = nullptr; u64 cap;
    if (mode == 0) { cap = e.size() + 1 + slack; hb = new HeapBuf(cap, 0xEE, 1); st = ZyanStringInitCustomBuffer(&s, (char*)hb->p, cap); }
    else if (mode == 1) { cap = pre.size() + 1 + (slack % (t.size() ? t.size() : 1)); hb = new HeapBuf(cap, 0xEE, 1); st = ZyanStringInitCustomBuffer(&s, (char*)hb->p, cap); }
    else { cap = 0; st = ZyanStringInitEx(&s, slack, A.get(), (ZyanU8)r.range(1, 3), (ZyanU8)r.range(0, 4)); }
    REQ(st == ZYAN_STATUS_SUCCESS, "init", "init: %s", st_name(st));
    if (!pre.empty()) { ViewSrc v(pre); st = ZyanStringAppend(&s, v.v()); REQ(st == ZYAN_STATUS_SUCCESS, "append", "append: %s", st_name(st)); }
    if (mode == 2 && r.chance(1, 2)) { ZyanStringShrinkToFit(&s); if (r.chance(1, 2)) ZyanStringReserve(&s, pre.size() + r.below(t.size() + 2)); }
    st = call_number(&s, q, q.has_prefix ? pf.v() : nullptr);
    if (q.has_prefix && q.prefix.empty() && st == ZYAN_STATUS_INVALID_ARGUMENT) { expect_str(&s, pre, "refused empty prefix"); }
    else if (mode == 1 && t.size() > slack % (t.size() ? t.size() : 1)) {
        REQ(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "status", "%s into a too small buffer returned %s", num_name(q).c_str(), st_name(st)); expect_str(&s, pre, "refused append"); COUNT("refused appends"); }
    else { REQ(st == ZYAN_STATUS_SUCCESS, "status", "%s returned %s", num_name(q).c_str(), st_name(st)); expect_str(&s, e, num_name(q).c_str());
        if (r.chance(1, 4) && mode == 2) { Bytes x{'!'}; ViewSrc v(x); ZyanStringAppend(&s, v.v()); Bytes e2 = e; e2.push_back('!'); expect_str(&s, e2, "append after a number"); } }
    ZyanStringDestroy(&s); A.require_empty("number append"); delete hb;
}
static void sweep_numbers(Rng& r, MonAlloc& A) {       // K: the value, the length of the text before the number, of the prefix, of the room for it
    const u64 K = sweep_k(); trace("numbers with %llu", (unsigned long long)K); Bytes pfx{'0', 'x'}; ViewSrc pf(pfx);
    auto kind = [&](NumSpec& q, int k) { switch (k) { case 0: break; case 1: q.hex = 1; break; case 2: q.hex = q.upper = 1; break; case 3: q.sgn = 1; break; case 4: q.sgn = q.force = 1; break; case 5: q.sgn = q.has_prefix = 1; break; case 6: q.hex = q.sgn = 1; break; case 7: q.hex = q.sgn = q.upper = 1; break; default: q.hex = q.sgn = q.has_prefix = q.force = 1; } if (q.has_prefix) q.prefix = pfx; };
    for (int k = 0; k < 9; ++k) for (int neg = 0; neg < 2; ++neg) { NumSpec q; q.value = neg ? 0 - K : K; kind(q, k); q.pad = (u8)(r.chance(1, 2) ? 0 : r.below(12)); one(q, Bytes(), 0, 0, A, r, pf); q.value = K * 1000003 * (neg ? K : 1); one(q, rnd_text(r, r.below(9)), 0, 0, A, r, pf); }
    Bytes pre = rnd_text(r, K);
    for (int k = 0; k < 9; ++k) for (int small = 0; small < 2; ++small) { NumSpec q; q.value = small ? r.below(1000) : r.next(); kind(q, k); q.pad = (u8)(r.chance(1, 2) ? 0 : r.below(30)); one(q, pre, r.below(3), r.chance(1, 3) ? 2 : 0, A, r, pf); }
    for (int k = 0; k < 3; ++k) for (int mode = 0; mode < 3; ++mode) { NumSpec q; q.value = r.next() >> r.below(64); kind(q, (int)r.below(9)); q.pad = (u8)(r.chance(1, 2) ? 0 : r.below(256)); one(q, pre, mode == 2 ? (r.chance(1, 2) ? K : r.below(K + 30)) : r.below(9), mode, A, r, pf); }
    { NumSpec q; q.value = r.next() >> r.below(64); q.sgn = q.has_prefix = 1; q.hex = r.chance(1, 2); q.force = r.chance(1, 2); q.prefix = rnd_text(r, K); ViewSrc kp(q.prefix); Bytes few = rnd_text(r, r.below(9)); for (int mode = 0; mode < 3; ++mode) one(q, few, mode == 1 ? r.below(K) : r.below(K + 20), mode, A, r, kp); }
    { NumSpec q; q.value = r.next(); kind(q, (int)r.below(9)); one(q, rnd_text(r, r.below(9)), K, 0, A, r, pf); one(q, rnd_text(r, r.below(9)), K, 2, A, r, pf); }
}
bool prop_case(u64 idx, Rng& r) {
    MonAlloc A; static const Bytes NOPRE;
    if (SWEEP) { sweep_numbers(r, A); return true; }
    if (idx < VALS.size()) {        // all paddings, all variants
        u64 v = VALS[idx]; trace("value 0x%llx all paddings", (unsigned long long)v); Bytes pre = rnd_text(r, r.below(8)); Bytes pfx = r.chance(1, 2) ? Bytes{'0', 'x'} : rnd_text(r, r.range(1, 5)); ViewSrc pf(pfx);
        for (int k = 0; k < 11; ++k) for (int pad = 0; pad < 256; ++pad) {
            NumSpec q; q.value = v; q.pad = (u8)pad;
            switch (k) { case 0: break; case 1: q.hex = 1; break; case 2: q.hex = q.upper = 1; break; case 3: q.sgn = 1; break; case 4: q.sgn = q.force = 1; break; case 5: q.sgn = q.has_prefix = 1; break; case 6: q.sgn = q.force = q.has_prefix = 1; break; case 7: q.hex = q.sgn = 1; break; case 8: q.hex = q.sgn = q.force = q.upper = 1; break; case 9: q.hex = q.sgn = q.has_prefix = 1; break; default: q.hex = q.sgn = q.has_prefix = q.force = q.upper = 1; }
            if (q.has_prefix) q.prefix = pfx;
            one(q, pre, r.chance(1, 2) ? 0 : r.below(4), 0, A, r, pf);
            if (pad < 24 || r.chance(1, 8)) { one(q, pre, r.below(300), 1, A, r, pf); one(q, pre, r.below(40), 2, A, r, pf); }
        }
        COUNT("values with all paddings"); return true; }
    for (int k = 0; k < 12; ++k) { NumSpec q; rnd_num(r, q); ViewSrc pf(q.prefix, (int)r.below(2)); Bytes pre = rnd_text(r, r.chance(1, 1500) ? large_size(r) : r.chance(1, 5) ? r.below(60) : r.below(12)); trace("%s after %zu characters", num_name(q).c_str(), pre.size());
        Bytes t = ref_number(q); if (r.chance(1, 3)) for (u64 sl = 0; sl < t.size(); sl += t.size() > 40 ? 7 : 1) one(q, pre, sl, 1, A, r, pf);
        for (u64 sl = 0; sl < 4; ++sl) one(q, pre, sl, 0, A, r, pf);
        for (u64 sl = 0; sl < 6; ++sl) one(q, pre, r.below(3) ? pre.size() + r.below(t.size() + 2) : r.below(80), 2, A, r, pf); }
    return true;
}
