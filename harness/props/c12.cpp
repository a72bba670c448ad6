// C12: formatted append against vsnprintf in every capacity situation.
#include "str_engine.hpp"
#include "large.hpp"
#include <cwchar>
#include <clocale>
void prop_begin() {}
void prop_end() {}
template <class... T> static Bytes ref_fmt(const char* f, T... a) { int n = snprintf(nullptr, 0, f, a...); if (n < 0) harness_error("reference format failed"); std::vector<char> b(n + 1); snprintf(b.data(), b.size(), f, a...); return Bytes(b.begin(), b.end() - 1); }
static Rng* R;
static void expect_str(ZyanString* s, const Bytes& e, const char* what) {
    ZyanUSize n = 0x77; const char* p = nullptr; ZyanStringGetSize(s, &n); ZyanStringGetData(s, &p);
    REQ(n == e.size(), "length", "%s: length %zu, expected %zu", what, (size_t)n, e.size());
    REQ(!memcmp(p, e.data(), n), "text", "%s: text %s, expected %s", what, quote(Bytes((u8*)p, (u8*)p + n), 200).c_str(), quote(e, 200).c_str());
    REQ(p[n] == 0, "terminator", "%s: not terminated", what); COUNT("texts compared"); }
static char FMT[64];      // formats often live in a buffer that is reused
static u64 PRE = UMAX;         // length of the text before it, if given
template <class... T> static void one(u64 situation, const char* f, T... a) {
    Rng& r = *R; if (r.chance(1, 2) && strlen(f) < sizeof FMT) { strcpy(FMT, f); f = FMT; COUNT("formats in a reused buffer"); } Bytes t = ref_fmt(f, a...), pre = rnd_text(r, PRE != UMAX ? PRE : r.chance(1, 5000) ? large_size(r) : r.chance(1, 6) ? r.below(80) : r.below(10)), e = pre; e.insert(e.end(), t.begin(), t.end()); MonAlloc A; ZyanString s; memset(&s, 0xC3, sizeof s); ZyanStatus st; HeapBuf* hb = nullptr; bool fits = true, fault = false; u64 cap0;
    trace("format '%s' -> %zu characters after %zu, situation %llu", f, t.size(), pre.size(), (unsigned long long)situation);
    switch (situation) {
    case 0: hb = new HeapBuf(e.size() + 1, 0xEE, 1); break;                          // fills it exactly
    case 1: hb = new HeapBuf(e.size() + 1 + r.range(1, 9), 0xEE, 1); break;
    case 2: { u64 sl = t.empty() ? 0 : r.chance(1, 2) ? t.size() - 1 : r.below(t.size()); hb = new HeapBuf(pre.size() + 1 + sl, 0xEE, 1); fits = t.empty(); break; }
    default: break; }
    if (hb) st = ZyanStringInitCustomBuffer(&s, (char*)hb->p, hb->n); else st = ZyanStringInitEx(&s, 0, A.get(), (ZyanU8)r.range(1, 3), (ZyanU8)r.range(0, 4));
    REQ(st == ZYAN_STATUS_SUCCESS, "init", "init: %s", st_name(st));
    if (!pre.empty()) { ViewSrc v(pre); st = ZyanStringAppend(&s, v.v()); REQ(st == ZYAN_STATUS_SUCCESS, "append", "append: %s", st_name(st)); }
    if (situation == 3) ZyanStringShrinkToFit(&s); else if (situation == 4) { ZyanStringShrinkToFit(&s); ZyanStringReserve(&s, e.size() - (t.empty() ? 0 : r.range(0, 2) % (t.size() + 1))); } else if (situation == 5) { ZyanStringShrinkToFit(&s); ZyanStringReserve(&s, e.size()); }
    else if (situation == 6) { ZyanStringShrinkToFit(&s); fault = !t.empty(); }
    ZyanUSize k; ZyanStringGetCapacity(&s, &k); cap0 = k;
    if (fault) { A.fail_all = true; st = ZyanStringAppendFormat(&s, f, a...); A.fail_all = false; REQ(st == INJECTED_STATUS, "failure-status", "AppendFormat without memory returned %s", st_name(st)); expect_str(&s, pre, "failed format"); COUNT("failed for lack of memory");
        ZyanStringGetCapacity(&s, &k); REQ(k == cap0, "failed-capacity", "failed AppendFormat changed the capacity"); }
    st = ZyanStringAppendFormat(&s, f, a...);
    if (!fits) { REQ(st == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "status", "AppendFormat into a too small buffer returned %s", st_name(st)); expect_str(&s, pre, "refused format"); COUNT("refused for lack of space"); }
    else { REQ(st == ZYAN_STATUS_SUCCESS, "status", "AppendFormat returned %s", st_name(st)); expect_str(&s, e, f); if (e.size() > cap0) COUNT("needed growth"); else if (e.size() == cap0) COUNT("filled exactly"); else COUNT("fitted"); 
        if (!hb) { st = ZyanStringAppendFormat(&s, f, a...); REQ(st == ZYAN_STATUS_SUCCESS, "status", "second AppendFormat returned %s", st_name(st)); Bytes e2 = e; e2.insert(e2.end(), t.begin(), t.end()); expect_str(&s, e2, f); } }
    ZyanStringDestroy(&s); A.require_empty("format"); delete hb;
}
static std::string txt(Rng& r) { bool big = r.chance(1, 8000); if (big) COUNT("large arguments"); size_t n = big ? large_size(r) : r.chance(1, 4) ? 0 : r.chance(1, 6) ? r.range(30, 300) : r.range(1, 12); std::string s; for (size_t i = 0; i < n; ++i) s += (char)r.range(1, 255); return s; }
static void sweep_format(Rng& r) {         // K: length of the produced text, of the text before it, of the format, of an argument
    const u64 K = sweep_k(); std::string a(K, 'x'); for (auto& c : a) c = (char)r.range(1, 255); std::string lit(K, 'y'); for (auto& c : lit) { c = (char)r.range(1, 127); if (c == '%') c = '.'; } std::string pct; while (pct.size() < 2 * std::min<u64>(K, 600)) pct += "%%"; const int w = (int)K;
    for (u64 sit = 0; sit < 7; ++sit) { PRE = r.chance(1, 2) ? UMAX : 0;
        switch (r.below(6)) { case 0: one(sit, "%s", a.c_str()); break; case 1: one(sit, lit.c_str()); break; case 2: one(sit, "%*d", w, (int)r.next()); break; case 3: one(sit, "%s|%d", a.c_str(), (int)r.next()); break; case 4: one(sit, "%.*s", w, (a + "tail").c_str()); break; default: one(sit, pct.c_str()); }
        one(sit, "%s", a.c_str()); PRE = K; switch (r.below(3)) { case 0: one(sit, "%d", (int)r.next()); break; case 1: one(sit, "<%s>", a.c_str()); break; default: one(sit, "%s", ""); } PRE = r.range(0, K); one(sit, "%s", a.c_str() + PRE); }
    PRE = UMAX;
}
bool prop_case(u64 idx, Rng& r) {
    R = &r;
    if (SWEEP) { sweep_format(r); return true; }
    for (int k = 0; k < 8; ++k) {
        u64 sit = r.below(7); std::string a = txt(r), b = txt(r); int i = (int)r.next() >> r.below(31); unsigned u = (unsigned)r.next(); long long ll = (i64)r.next() >> r.below(63); double d; switch (r.below(4)) { case 0: d = (double)i / 7; break; case 1: { u64 q = r.next(); memcpy(&d, &q, 8); break; } case 2: d = 0.1 * (int)r.below(100); break; default: d = r.chance(1, 2) ? 1e300 : -1e-300; }
        int w = (int)r.range(0, 60) - 30, p = (int)r.range(0, 20); void* ptr = (void*)(uintptr_t)r.next(); size_t z = (size_t)r.next(); char ch = r.chance(1, 3) ? 0 : (char)r.byte(); if (!ch) COUNT("zero characters formatted");
        switch (r.below(24)) {
        case 0: one(sit, "%s", a.c_str()); break; case 1: one(sit, "%d", i); break; case 2: one(sit, "%s=%d;%s", a.c_str(), i, b.c_str()); break; case 3: one(sit, "%5.3s|%-12s|", a.c_str(), b.c_str()); break;
        case 4: one(sit, "%*d|%-*.*f", w, i, w, p, d); break; case 5: one(sit, "%llx %llX %llo", ll, ll, ll); break; case 6: one(sit, "%p %zu", ptr, z); break; case 7: one(sit, "%g %e %a", d, d, d); break; case 8: one(sit, "%c%c%%", ch, ch); break;
        case 9: one(sit, "%u:%hhu:%hd %'d %'.2f", u, (unsigned char)u, (short)i, i, d); break; case 10: one(sit, "%lld %+lld % lld %020lld", ll, ll, ll, ll); break; case 11: one(sit, "%.*s", p, a.c_str()); break; case 12: one(sit, "%2$s %1$s", a.c_str(), b.c_str()); break; case 13: one(sit, "plain text without arguments"); break; case 14: one(sit, "%s", ""); break;
        case 15: one(sit, "%s%s%s%s%s%s%s%s", a.c_str(), b.c_str(), a.c_str(), b.c_str(), "x", "y", "z", "w"); break; case 16: one(sit, "%d%d%d%d%d%d%d%d%s", i, 1, 2, 3, 4, 5, 6, 7, a.c_str()); break; case 17: one(sit, "%f%f%f%f%f%f%f%f%f%f", d, 1.5, d, 2.5, d, 3.5, d, 4.5, d, 5.5); break;
        case 18: one(sit, "%Lf %jd %td", (long double)d, (intmax_t)ll, (ptrdiff_t)ll); break; case 19: one(sit, "%d %f %s %lld %g %c", i, d, a.c_str(), ll, d, ch); break; case 20: one(sit, "%#x %#o %-8u|", u, u, u); break; case 21: one(sit, "%s%c%s", a.c_str(), ch, b.c_str()); break; case 22: one(sit, "%*c%d%c", w, ch, i, ch); break; default: one(sit, "%ls|", L"wide"); }
        // text that cannot be produced: invalid wide character in the C locale
        if (r.chance(1, 6)) { MonAlloc A; ZyanString s; bool dyn = r.chance(1, 2); Bytes pre = rnd_text(r, r.below(20)); HeapBuf hb(pre.size() + 1 + r.below(40)); wchar_t bad[8] = {L'a', L'b', (wchar_t)0xD800, 0};
            ZyanStatus st = dyn ? ZyanStringInitEx(&s, r.below(60), A.get(), 2, 4) : ZyanStringInitCustomBuffer(&s, (char*)hb.p, hb.n); REQ(st == ZYAN_STATUS_SUCCESS, "init", "init %s", st_name(st)); if (!pre.empty()) { ViewSrc v(pre); ZyanStringAppend(&s, v.v()); }
            if (snprintf(nullptr, 0, "%ls", bad) >= 0) harness_error("wide conversion unexpectedly works");
            trace("unproducible format after %zu characters", pre.size());
            st = r.chance(1, 2) ? ZyanStringAppendFormat(&s, "%d%ls", 5, bad) : ZyanStringAppendFormat(&s, "%s%ls", a.c_str(), bad); REQ(!ZYAN_SUCCESS(st), "unproducible", "AppendFormat of an unproducible text returned %s", st_name(st)); expect_str(&s, pre, "unproducible format"); COUNT("unproducible texts"); ZyanStringDestroy(&s); A.require_empty("unproducible"); }
    }
    return true;
}
