// String simulation: random operation histories against a reference byte sequence.
#pragma once
#include "sim.hpp"

// A view over exactly the given bytes in an exact-size heap block (no terminator behind it).
struct ViewSrc {
    HeapBuf hb; ZyanStringView view; Bytes b; ZyanString str; bool own_str = false; HeapBuf* sb = nullptr;
    explicit ViewSrc(const Bytes& x, int kind = 0) : hb(x.size() + (kind == 1 || x.empty() ? 1 : 0), 0x77, 1), b(x) {
        memset(&view, 0xB7, sizeof view);
        memcpy(hb.p, x.data(), x.size());
        ZyanStatus st;
        if (x.empty() || (kind == 1 && !memchr(x.data(), 0, x.size()))) {
            if (hb.n > x.size()) hb.p[x.size()] = 0;
            st = ZyanStringViewInsideBuffer(&view, (const char*)hb.p);
        } else st = ZyanStringViewInsideBufferEx(&view, (const char*)hb.p, x.size());
        REQ(st == ZYAN_STATUS_SUCCESS, "view-create", "creating a view failed with %s", st_name(st));
    }
    ~ViewSrc() { delete sb; }
    const ZyanStringView* v() const { return &view; }
};
inline Bytes rnd_text(Rng& r, size_t n) {
    Bytes b(n); int k = (int)r.below(4);
    for (auto& c : b) c = k == 0 ? r.byte() : k == 1 ? (u8)r.pick<int>({'a', 'b', 'A', 'B'}) : k == 2 ? (u8)r.range(32, 126) : (u8)r.pick<int>({0, 1, 'z', 'Z', '@', '[', '`', '{', 0x7F, 0x80, 0xC1, 0xE1, 0xFF});
    return b; }
inline u8 lower(u8 c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
inline u8 upper(u8 c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }

struct StrCfg { u64 growth = 2, thr = 4, cap0 = 0; bool dyn = true; };

struct StrSim : SimBase {
    ZyanString s; StrCfg c; HeapBuf* buf = nullptr; Bytes m;
    StrSim(const StrCfg& cfg, const Opt& o_, Rng& r_, MonAlloc* a) : SimBase(o_, r_, a), c(cfg) { sync(); }
    ~StrSim() { delete buf; }
    void sync() { dyn = c.dyn; growth = c.growth; thr = c.thr; fixed_cap = c.cap0; }
    u64 msize() override { return m.size(); }
    u64 n() const { return m.size(); }
    const u8* data() { const char* d = (const char*)0x33; ZyanStatus st = ZyanStringGetData(&s, &d);
        REQ(st == ZYAN_STATUS_SUCCESS, "getter", "GetData failed with %s", st_name(st)); return (const u8*)d; }
    u8* base() override { return const_cast<u8*>(data()); }
    u64 real_cap() override { ZyanUSize k = 0x5555; ZyanStatus st = ZyanStringGetCapacity(&s, &k);
        REQ(st == ZYAN_STATUS_SUCCESS, "getter", "GetCapacity failed with %s", st_name(st)); return k + 1; }

    void init() {
        bool inj; ZyanStatus st;
        if (c.dyn && !A) {
            c.growth = ZYAN_STRING_DEFAULT_GROWTH_FACTOR; c.thr = ZYAN_STRING_DEFAULT_SHRINK_THRESHOLD; sync();
            trace("default strinit cap=%llu", (unsigned long long)c.cap0); memset(&s, 0xC3, sizeof s); st = ZyanStringInit(&s, c.cap0); COUNT("containers with the default allocator");
        } else if (c.dyn) {
            trace("strinit cap=%llu growth=%llu thr=%llu", (unsigned long long)c.cap0, (unsigned long long)c.growth, (unsigned long long)c.thr);
            st = fault_loop(A, o.fault, Kind::Grow, persist, "StringInitEx", [&] { memset(&s, 0xC3, sizeof s);
                return ZyanStringInitEx(&s, c.cap0, A->get(), (ZyanU8)c.growth, (ZyanU8)c.thr); }, [&] { A->require_empty("failed StringInitEx"); }, inj);
        } else {
            if (!c.cap0) c.cap0 = 1;
            c.growth = 1; c.thr = 0; sync();
            trace("strinitbuf cap=%llu", (unsigned long long)c.cap0);
            buf = new HeapBuf(c.cap0, 0x77, 1); memset(&s, 0xC3, sizeof s);
            st = ZyanStringInitCustomBuffer(&s, (char*)buf->p, c.cap0);
        }
        REQ(st == ZYAN_STATUS_SUCCESS, "init", "string initialization failed with %s", st_name(st));
        adopt();
        if (o.cap && c.dyn) REQ(cap - 1 >= c.cap0, "init-capacity", "capacity %llu after initialization with %llu", (unsigned long long)cap - 1, (unsigned long long)c.cap0);
        verify("init");
    }
    void adopt() { alive = true; cap = real_cap(); }

    void verify(const char* when) override {
        ZyanUSize k = 0x77; ZyanStatus st = ZyanStringGetSize(&s, &k);
        REQ(st == ZYAN_STATUS_SUCCESS && k == m.size(), "size", "after %s: size is %zu (%s), history says %zu", when, (size_t)k, st_name(st), m.size());
        u64 rc = real_cap();
        const u8* d = data(); REQ(d, "data-null", "after %s: no data pointer", when);
        if (o.content || o.fault) {
            for (size_t i = 0; i < m.size(); ++i) if (d[i] != m[i])
                violation("content", "after %s: character %zu of %zu is 0x%02x, history says 0x%02x; text %s", when, i, m.size(), d[i], m[i], quote(m).c_str());
            REQ(d[m.size()] == 0, "terminator", "after %s: byte behind the last character is 0x%02x (size %zu)", when, d[m.size()], m.size());
        }
        if (o.content) accessors(when);
        if (o.cap) {
            REQ(rc >= m.size() + 1, "capacity-low", "after %s: capacity %llu, size %zu", when, (unsigned long long)rc - 1, m.size());
            if (dyn && !A) {} else if (dyn) { REQ(A->live.size() == 1, "blocks", "after %s: %zu blocks owned", when, A->live.size());
                const BlockInfo& bi = A->live.begin()->second;
                REQ(bi.n * bi.es == rc, "capacity-block", "after %s: capacity %llu but the owned block has %llu bytes", when, (unsigned long long)rc - 1, (unsigned long long)(bi.n * bi.es));
                REQ((void*)d == A->live.begin()->first, "data-block", "after %s: data is not in the owned block", when);
            } else { REQ(rc == c.cap0, "fixed-capacity", "after %s: fixed capacity changed from %llu to %llu", when, (unsigned long long)c.cap0, (unsigned long long)rc);
                REQ(d == buf->p, "fixed-address", "after %s: fixed buffer moved", when); }
        }
        if (o.alloc && dyn && A) REQ(A->live.size() == 1, "blocks", "after %s: string owns %zu blocks", when, A->live.size());
        saw_state(mix64(m.size() * 2654435761u + rc, 7 + growth * 8 + thr + (dyn ? 1u << 20 : 0)));
    }
    void accessors(const char* when) {
        const ZyanStringView* vw = ZYAN_STRING_TO_VIEW(&s);
        ZyanUSize k = 1; const char* d = nullptr;
        REQ(ZyanStringViewGetSize(vw, &k) == ZYAN_STATUS_SUCCESS && k == m.size(), "view-size", "after %s: view size %zu", when, (size_t)k);
        REQ(ZyanStringViewGetData(vw, &d) == ZYAN_STATUS_SUCCESS && (const u8*)d == data(), "view-data", "after %s: view data differs", when);
        size_t probes[6] = {0, m.size() ? m.size() - 1 : 0, m.size(), m.size() + 1, (size_t)-1, m.size() ? (size_t)r.below(m.size()) : 0};
        for (size_t i : probes) {
            char ch = 0x5A; char* pc = (char*)0x11;
            ZyanStatus s1 = ZyanStringGetChar(vw, i, &ch), s2 = ZyanStringGetCharMutable(&s, i, &pc);
            if (i < m.size()) REQ(s1 == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS && (u8)ch == m[i] && (u8*)pc == data() + i, "getchar", "after %s: character access %zu wrong (%s, %s)", when, i, st_name(s1), st_name(s2));
            else REQ(s1 == ZYAN_STATUS_OUT_OF_RANGE && s2 == ZYAN_STATUS_OUT_OF_RANGE && ch == 0x5A, "getchar-range", "after %s: access to character %zu of %zu not refused (%s, %s)", when, i, m.size(), st_name(s1), st_name(s2));
        }
    }
    u64 bad(u64 n_) { switch (r.below(5)) { case 0: return n_ + 1; case 1: return n_ + 2; case 2: return UMAX; case 3: return n_ + 1 + r.below(1000); default: return UTOP; } }
    Bytes some() { return rnd_text(r, r.chance(1, 8) ? 0 : r.chance(1, 6) ? r.below(70) : r.range(1, 8)); }

    void append(const Bytes& t) { ViewSrc src(t, (int)r.below(2)); trace("append %s", quote(t, 20).c_str());
        op("Append", Kind::Grow, fit(n() + 1 + t.size()), grow(n() + 1 + t.size()), [&] { return ZyanStringAppend(&s, src.v()); }, [&] { m.insert(m.end(), t.begin(), t.end()); }, t.empty() ? (ZyanStatus)ZYAN_STATUS_INVALID_ARGUMENT : NO_ALT); }
    void append_ex(const Bytes& t, u64 i, u64 k) { ViewSrc src(t, (int)r.below(2)); trace("append_ex %s from %llu count %llu", quote(t, 20).c_str(), (unsigned long long)i, (unsigned long long)k);
        bool ok = i <= t.size() && k <= t.size() - i;
        op("AppendEx", Kind::Grow, !ok ? (ZyanStatus)ZYAN_STATUS_OUT_OF_RANGE : fit(n() + 1 + k), ok ? grow(n() + 1 + k) : CapExp::same(), [&] { return ZyanStringAppendEx(&s, src.v(), i, k); },
            [&] { m.insert(m.end(), t.begin() + i, t.begin() + i + k); }, ok && !k ? (ZyanStatus)ZYAN_STATUS_INVALID_ARGUMENT : NO_ALT); }
    void insert(u64 at, const Bytes& t) { ViewSrc src(t, (int)r.below(2)); trace("insert %llu %s", (unsigned long long)at, quote(t, 20).c_str());
        bool ok = at <= n();
        op("Insert", Kind::Grow, !ok ? (ZyanStatus)ZYAN_STATUS_OUT_OF_RANGE : fit(n() + 1 + t.size()), grow(n() + 1 + t.size()), [&] { return ZyanStringInsert(&s, at, src.v()); },
            [&] { m.insert(m.begin() + at, t.begin(), t.end()); }, ok && t.empty() ? (ZyanStatus)ZYAN_STATUS_INVALID_ARGUMENT : NO_ALT); }
    void insert_ex(u64 at, const Bytes& t, u64 i, u64 k) { ViewSrc src(t, (int)r.below(2)); trace("insert_ex %llu %s from %llu count %llu", (unsigned long long)at, quote(t, 20).c_str(), (unsigned long long)i, (unsigned long long)k);
        bool ok = at <= n() && i <= t.size() && k <= t.size() - i;
        op("InsertEx", Kind::Grow, !ok ? (ZyanStatus)ZYAN_STATUS_OUT_OF_RANGE : fit(n() + 1 + k), ok ? grow(n() + 1 + k) : CapExp::same(), [&] { return ZyanStringInsertEx(&s, at, src.v(), i, k); },
            [&] { m.insert(m.begin() + at, t.begin() + i, t.begin() + i + k); }, ok && !k ? (ZyanStatus)ZYAN_STATUS_INVALID_ARGUMENT : NO_ALT); }
    void del(u64 i, u64 k) { trace("delete %llu count %llu", (unsigned long long)i, (unsigned long long)k);
        bool ok = i <= n() && k <= n() - i;
        op("Delete", Kind::Remove, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, ok && k ? shrink(n() + 1 - k) : k ? CapExp::same() : CapExp::any(), [&] { return ZyanStringDelete(&s, i, k); },
            [&] { m.erase(m.begin() + i, m.begin() + i + k); }, ok && !k ? (ZyanStatus)ZYAN_STATUS_INVALID_ARGUMENT : NO_ALT); }
    void truncate(u64 i) { trace("truncate %llu", (unsigned long long)i);
        bool ok = i <= n();
        op("Truncate", Kind::Remove, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, ok && i < n() ? shrink(i + 1) : ok ? CapExp::any() : CapExp::same(), [&] { return ZyanStringTruncate(&s, i); },
            [&] { m.resize(i); }, ok && i == n() ? (ZyanStatus)ZYAN_STATUS_INVALID_ARGUMENT : NO_ALT); }
    void clear() { trace("clear");
        op("Clear", Kind::Remove, ZYAN_STATUS_SUCCESS, clear_exp(), [&] { return ZyanStringClear(&s); }, [&] { m.clear(); }); }
    CapExp clear_exp() {   // the terminator may or may not be counted while clearing
        if (!dyn || !thr) return CapExp::same();
        CapExp a = shrink(0), b = shrink(1);
        u64 va = a.k == CapExp::Same ? cap : a.a, vb = b.k == CapExp::Same ? cap : b.a;
        return CapExp::twoof(va, vb); }
    void resize(u64 k) { trace("resize %llu", (unsigned long long)k);
        CapExp ce = CapExp::same(); Kind kind = Kind::Grow;
        if (k < n()) { ce = shrink(k + 1); kind = Kind::Remove; } else if (k + 1 > cap) ce = grow(k + 1);
        u64 old = n(); Bytes fill = rnd_text(r, k > old ? k - old : 0);
        op("Resize", kind, fit(k + 1), ce, [&] { return ZyanStringResize(&s, k); }, [&] {
            m.resize(k); for (u64 i = old; i < k; ++i) { m[i] = fill[i - old];
                ZyanStatus st = r.chance(1, 2) ? ZyanStringSetChar(&s, i, (char)m[i]) : [&] { char* p = nullptr; ZyanStatus q = ZyanStringGetCharMutable(&s, i, &p); if (q == ZYAN_STATUS_SUCCESS && p) *p = (char)m[i]; return q; }();
                REQ(st == ZYAN_STATUS_SUCCESS, "grown-access", "character %llu not accessible after Resize to %llu: %s", (unsigned long long)i, (unsigned long long)k, st_name(st)); } }); }
    void setchar(u64 i) { u8 ch = rnd_text(r, 1)[0]; trace("setchar %llu %02x", (unsigned long long)i, ch);
        op("SetChar", Kind::Grow, i < n() ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, CapExp::same(), [&] { return ZyanStringSetChar(&s, i, (char)ch); }, [&] { m[i] = ch; }); }
    void reserve(u64 k) { trace("reserve %llu", (unsigned long long)k);
        op("Reserve", Kind::Grow, fit(k + 1), k + 1 > cap ? CapExp::atleast(k + 1) : CapExp::same(), [&] { return ZyanStringReserve(&s, k); }, [&] {}); }
    void shrink_to_fit() { trace("shrink_to_fit");
        op("ShrinkToFit", Kind::Grow, ZYAN_STATUS_SUCCESS, dyn ? (n() + 1 == cap ? CapExp::any() : CapExp::exact(n() + 1)) : CapExp::same(), [&] { return ZyanStringShrinkToFit(&s); }, [&] {}); }
    void casing(bool up, bool ex, u64 i, u64 k) { trace("%s ex=%d %llu count %llu", up ? "upper" : "lower", ex, (unsigned long long)i, (unsigned long long)k);
        if (!ex) { i = 0; k = n(); }
        bool ok = i <= n() && k <= n() - i;
        op("case change", Kind::Grow, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, CapExp::same(),
            [&] { return up ? (ex ? ZyanStringToUpperCaseEx(&s, i, k) : ZyanStringToUpperCase(&s)) : (ex ? ZyanStringToLowerCaseEx(&s, i, k) : ZyanStringToLowerCase(&s)); },
            [&] { for (u64 j = i; j < i + k; ++j) m[j] = up ? upper(m[j]) : lower(m[j]); }); }

    void step(u64 maxn) {
        u64 w = r.below(100); bool b = r.chance(1, 10);
        auto at = [&] { return r.chance(1, 4) ? n() : r.chance(1, 5) ? 0 : r.range(0, n()); };
        if (n() > maxn && w < 50) { if (r.chance(1, 2)) truncate(r.below(n())); else { u64 i = r.below(n()); del(i, r.range(1, n() - i)); } return; }
        auto window = [&](u64 len, u64& i, u64& k) { if (b) { switch (r.below(4)) { case 0: i = bad(len); k = r.below(3); break; case 1: i = r.range(0, len); k = len - i + 1; break; case 2: i = r.range(0, len); k = UMAX - r.below(3) ; break; default: i = r.range(1, len + 1); k = (u64)(ZyanUSize)(0 - i); } } else { i = r.range(0, len); k = r.range(0, len - i); } };
        if (w < 16) append(some());
        else if (w < 24) { Bytes t = some(); u64 i, k; window(t.size(), i, k); append_ex(t, i, k); }
        else if (w < 36) insert(b ? bad(n()) : at(), some());
        else if (w < 46) { Bytes t = some(); u64 i, k; bool b0 = b; if (r.chance(1, 2)) b = false; window(t.size(), i, k); b = b0; insert_ex(b && r.chance(1, 2) ? bad(n()) : at(), t, i, k); }
        else if (w < 57) { u64 i, k; window(n(), i, k); del(i, k); }
        else if (w < 63) truncate(b ? bad(n()) : r.range(0, n()));
        else if (w < 66) clear();
        else if (w < 76) resize(r.chance(1, 3) ? r.range(0, n() + 2) : r.chance(1, 2) ? r.range(0, maxn + 8) : cap < 400 ? cap + r.below(3) - 1 : r.below(maxn));
        else if (w < 82) setchar(b || !n() ? (r.chance(1, 2) ? n() : bad(n())) : r.below(n()));
        else if (w < 88) { u64 i, k; window(n(), i, k); casing(r.chance(1, 2), r.chance(3, 4), i, k); }
        else if (w < 95) reserve(r.chance(1, 2) && cap < 500 ? r.range(0, cap + 10) : n() + r.below(30));
        else shrink_to_fit();
    }
    void large_step(u64 maxn) { step(maxn); }
    void destroy() { if (!alive) return; trace("destroy"); ZyanStatus st = ZyanStringDestroy(&s); REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "StringDestroy returned %s", st_name(st)); alive = false; }
};
inline StrCfg rnd_strcfg(Rng& r) {
    StrCfg c; c.growth = r.chance(1, 2) ? 2 : r.chance(1, 2) ? 1 : r.range(1, 6); c.thr = r.chance(1, 3) ? 4 : r.chance(1, 3) ? 0 : r.range(0, 8);
    c.cap0 = r.chance(1, 2) ? 0 : r.below(80); c.dyn = !r.chance(1, 4); if (!c.dyn) c.cap0 = r.range(1, 50); return c; }
