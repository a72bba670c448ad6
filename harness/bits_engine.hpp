// Bitset simulation: random operation histories against a reference bit array.
#pragma once
#include "sim.hpp"

struct BitsCfg { u64 growth = 2, thr = 2, count = 0, bufcap = 0; bool dyn = true; };
static inline u64 nbytes(u64 bits) { return bits / 8 + (bits % 8 ? 1 : 0); }

struct BitsSim : SimBase {
    ZyanBitset b; BitsCfg c; HeapBuf* buf = nullptr; std::vector<u8> m;
    BitsSim(const BitsCfg& cfg, const Opt& o_, Rng& r_, MonAlloc* a) : SimBase(o_, r_, a), c(cfg) { sync(); }
    ~BitsSim() { delete buf; }
    void sync() { dyn = c.dyn; growth = c.growth; thr = c.thr; fixed_cap = c.bufcap; }
    u64 msize() override { return m.size(); }
    u64 n() const { return m.size(); }
    u64 real_cap() override { ZyanUSize k = 0x55, kb = 0x66; ZyanStatus s1 = ZyanBitsetGetCapacityBytes(&b, &k), s2 = ZyanBitsetGetCapacity(&b, &kb);
        REQ(s1 == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS, "getter", "capacity query failed"); 
        REQ(kb == k * 8, "capacity-bits", "capacity is %zu bits but %zu bytes", (size_t)kb, (size_t)k); return k; }
    void init() {
        bool inj; ZyanStatus st;
        if (c.dyn && !A) { trace("default bitsinit count=%llu", (unsigned long long)c.count); memset(&b, 0xC3, sizeof b); st = ZyanBitsetInit(&b, c.count); COUNT("containers with the default allocator"); }
        else if (c.dyn) { trace("bitsinit count=%llu growth=%llu thr=%llu", (unsigned long long)c.count, (unsigned long long)c.growth, (unsigned long long)c.thr);
            st = fault_loop(A, o.fault, Kind::Grow, persist, "BitsetInitEx", [&] { memset(&b, 0xC3, sizeof b); return ZyanBitsetInitEx(&b, c.count, A->get(), (ZyanU8)c.growth, (ZyanU8)c.thr); }, [&] { A->require_empty("failed BitsetInitEx"); }, inj); }
        else { c.bufcap = std::max<u64>(1, std::max(c.bufcap, nbytes(c.count))); c.growth = 1; c.thr = 0; sync();
            trace("bitsinitbuf count=%llu cap=%llu", (unsigned long long)c.count, (unsigned long long)c.bufcap);
            if (nbytes(c.count) > 1 && r.chance(1, 4)) { HeapBuf small(nbytes(c.count) - 1); ZyanBitset t; ZyanStatus q = ZyanBitsetInitBuffer(&t, c.count, small.p, small.n);
                REQ(q == ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE, "small-buffer", "InitBuffer with a too small buffer returned %s", st_name(q)); }
            buf = new HeapBuf(c.bufcap, 0xEE, 1); memset(&b, 0xC3, sizeof b); st = ZyanBitsetInitBuffer(&b, c.count, buf->p, c.bufcap); }
        REQ(st == ZYAN_STATUS_SUCCESS, "init", "bitset initialization failed with %s", st_name(st));
        m.assign(c.count, 0); alive = true; cap = real_cap();
        verify("init");
    }
    void tri(ZyanStatus st, bool want, const char* what, const char* when) {
        REQ(st == (want ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "query", "after %s: %s reports %s, bit array says %d (size %zu)", when, what, st_name(st), want, m.size()); }
    void verify(const char* when) override {
        ZyanUSize k = 0x77, kb = 0x78; ZyanStatus s1 = ZyanBitsetGetSize(&b, &k), s2 = ZyanBitsetGetSizeBytes(&b, &kb);
        REQ(s1 == ZYAN_STATUS_SUCCESS && k == m.size(), "size", "after %s: size is %zu (%s), history says %zu", when, (size_t)k, st_name(s1), m.size());
        REQ(s2 == ZYAN_STATUS_SUCCESS && kb == nbytes(m.size()), "size-bytes", "after %s: size in bytes is %zu for %zu bits", when, (size_t)kb, m.size());
        u64 rc = real_cap();
        saw_state(mix64(m.size() * 31 + rc, growth * 8 + thr + dyn));
        if (o.content || o.fault) {
            u64 ones = 0;
            for (size_t i = 0; i < m.size(); ++i) { ones += m[i];
                ZyanStatus st = ZyanBitsetTest(&b, i);
                REQ(st == (m[i] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "bit", "after %s: bit %zu of %zu reads %s, history says %d", when, i, m.size(), st_name(st), m[i]); }
            ZyanUSize cnt = 0x99; ZyanStatus st = ZyanBitsetCount(&b, &cnt);
            REQ(st == ZYAN_STATUS_SUCCESS && cnt == ones, "count", "after %s: population count %zu, bit array has %llu (size %zu)", when, (size_t)cnt, (unsigned long long)ones, m.size());
            tri(ZyanBitsetAll(&b), ones == m.size(), "All", when); tri(ZyanBitsetAny(&b), ones > 0, "Any", when); tri(ZyanBitsetNone(&b), ones == 0, "None", when);
            if (m.empty()) { ZyanStatus a = ZyanBitsetTestLSB(&b), d = ZyanBitsetTestMSB(&b);
                REQ(a == ZYAN_STATUS_OUT_OF_RANGE && d == ZYAN_STATUS_OUT_OF_RANGE, "empty-test", "after %s: first/last bit of an empty bitset reads %s/%s", when, st_name(a), st_name(d)); }
            else { tri(ZyanBitsetTestLSB(&b), m[0], "TestLSB", when); tri(ZyanBitsetTestMSB(&b), m.back(), "TestMSB", when); }
            u64 pr[3] = {m.size(), m.size() + 1 + r.below(9), UMAX};
            for (u64 i : pr) { ZyanStatus q = ZyanBitsetTest(&b, i); REQ(q == ZYAN_STATUS_OUT_OF_RANGE, "range", "after %s: test of bit %llu of %zu returned %s", when, (unsigned long long)i, m.size(), st_name(q)); }
            COUNT("whole-bitset comparisons");
        }
        if (o.cap) {
            REQ(rc >= nbytes(m.size()) && rc >= 1, "capacity-low", "after %s: capacity %llu bytes, size %zu bits", when, (unsigned long long)rc, m.size());
            if (dyn && !A) {} else if (dyn) { REQ(A->live.size() == 1, "blocks", "after %s: %zu blocks owned", when, A->live.size()); const BlockInfo& bi = A->live.begin()->second;
                REQ(bi.n * bi.es == rc, "capacity-block", "after %s: capacity %llu bytes but the owned block has %llu", when, (unsigned long long)rc, (unsigned long long)(bi.n * bi.es)); }
            else REQ(rc == c.bufcap, "fixed-capacity", "after %s: fixed capacity changed from %llu to %llu", when, (unsigned long long)c.bufcap, (unsigned long long)rc);
        }
        if (o.alloc && dyn && A) REQ(A->live.size() == 1, "blocks", "after %s: bitset owns %zu blocks", when, A->live.size());
    }
    template <class F, class G> void bit(const char* name, u64 i, F f, G g) { trace("%s %llu", name, (unsigned long long)i);
        op(name, Kind::Grow, i < n() ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, CapExp::same(), [&] { return f(i); }, [&] { g(m[i]); }); }
    void push(bool v) { trace("push %d", v); bool nb = n() % 8 == 0; u64 need = nbytes(n() + 1);
        op("Push", Kind::Grow, nb ? fit(need) : ZYAN_STATUS_SUCCESS, nb ? grow(need) : CapExp::same(), [&] { return ZyanBitsetPush(&b, v); }, [&] { m.push_back(v); }); }
    void pop() { trace("pop"); bool ok = n() > 0;
        op("Pop", Kind::Remove, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, ok && (n() - 1) % 8 == 0 ? shrink(nbytes(n() - 1)) : CapExp::same(), [&] { return ZyanBitsetPop(&b); }, [&] { m.pop_back(); }); }
    void clear() { trace("clear"); op("Clear", Kind::Remove, ZYAN_STATUS_SUCCESS, n() ? shrink(0) : CapExp::any(), [&] { return ZyanBitsetClear(&b); }, [&] { m.clear(); }); }
    void all(int k) { const char* nm[3] = {"SetAll", "ResetAll", "Flip"}; trace("%s", nm[k]);
        op(nm[k], Kind::Grow, ZYAN_STATUS_SUCCESS, CapExp::same(), [&] { return k == 0 ? ZyanBitsetSetAll(&b) : k == 1 ? ZyanBitsetResetAll(&b) : ZyanBitsetFlip(&b); },
            [&] { for (auto& x : m) x = k == 0 ? 1 : k == 1 ? 0 : !x; }); }
    static u64& op_calls() { static thread_local u64 c; return c; }
    static u64& op_refuse() { static thread_local u64 c; return c; }
    static ZyanStatus nand_op(ZyanU8* a, const ZyanU8* s) { ++op_calls(); *a = (ZyanU8)~(*a & *s); return CTOR_OK; }
    static ZyanStatus refusing_op(ZyanU8* a, const ZyanU8* s) { if (++op_calls() > op_refuse()) return CTOR_STATUS; *a = (ZyanU8)~(*a & *s); return CTOR_OK; }
    static ZyanStatus other_op(ZyanU8* a, const ZyanU8* s) { *a = (ZyanU8)(*a | ~*s); return CTOR_OK; }
    void binary_self(int k) {   // a bitset combined with itself
        const char* nm[5] = {"AND self", "OR self", "XOR self", "PerformByteOperation self", "PerformByteOperation self 2"}; trace("%s", nm[k]);
        any_success = k >= 3; op(nm[k], Kind::Grow, ZYAN_STATUS_SUCCESS, CapExp::same(), [&] { return k == 0 ? ZyanBitsetAND(&b, &b) : k == 1 ? ZyanBitsetOR(&b, &b) : k == 2 ? ZyanBitsetXOR(&b, &b) : ZyanBitsetPerformByteOperation(&b, &b, k == 3 ? nand_op : other_op); },
            [&] { for (u64 i = 0; i < n(); ++i) m[i] = k < 2 ? m[i] : k == 2 ? 0 : k == 3 ? !m[i] : 1; }); any_success = false; COUNT("self operations"); }
    void binary(int k) {   // with a source that is at least as long, or (one in four) shorter
        bool shorter = n() && r.chance(1, 4);
        u64 sl = shorter ? r.below(n()) : n() + (r.chance(1, 2) ? 0 : r.below(20)); std::vector<u8> sm(sl); HeapBuf sb(std::max<u64>(1, nbytes(sl)), 0x77, 1);
        ZyanBitset src; ZyanStatus st = ZyanBitsetInitBuffer(&src, sl, sb.p, sb.n); REQ(st == ZYAN_STATUS_SUCCESS, "init", "source bitset: %s", st_name(st));
        if (r.chance(1, 3)) REQ(ZyanBitsetFlip(&src) == ZYAN_STATUS_SUCCESS, "status", "Flip of source failed");   // garbage in the unused bits
        for (u64 i = 0; i < sl; ++i) { sm[i] = r.chance(1, 2); st = ZyanBitsetAssign(&src, i, sm[i]); REQ(st == ZYAN_STATUS_SUCCESS, "status", "Assign %s", st_name(st)); }
        const char* nm[4] = {"AND", "OR", "XOR", "PerformByteOperation"}; op_calls() = 0; trace("%s len=%llu", nm[k], (unsigned long long)sl);
        // Shorter source: the bits it has are combined, bytes behind its last one stay; the few bits between its size and the end of its last byte are unspecified.
        any_success = k == 3; op(nm[k], Kind::Grow, ZYAN_STATUS_SUCCESS, CapExp::same(), [&] { return k == 0 ? ZyanBitsetAND(&b, &src) : k == 1 ? ZyanBitsetOR(&b, &src) : k == 2 ? ZyanBitsetXOR(&b, &src) : ZyanBitsetPerformByteOperation(&b, &src, nand_op); },
            [&] { for (u64 i = 0; i < n() && i < sl; ++i) m[i] = k == 0 ? m[i] & sm[i] : k == 1 ? m[i] | sm[i] : k == 2 ? m[i] ^ sm[i] : !(m[i] & sm[i]);
                for (u64 i = sl; i < n() && i < nbytes(sl) * 8; ++i) m[i] = ZyanBitsetTest(&b, i) == ZYAN_STATUS_TRUE;
                if (shorter) COUNT("operations with a shorter source"); });
        any_success = false;
        u64 both = std::min(nbytes(n()), nbytes(sl));
        if (k == 3) REQ(op_calls() % (both ? both : 1) == 0 && op_calls() >= both && (both || !op_calls()), "operation-calls", "PerformByteOperation invoked its operation %llu times for %llu bytes", (unsigned long long)op_calls(), (unsigned long long)both);
        if (k == 3 && both && r.chance(1, 4)) {   // the operation refuses one of the bytes: that is what the caller gets to know; the bits of the bytes concerned are not judged
            op_calls() = 0; op_refuse() = r.below(both); trace("PerformByteOperation refused at byte %llu", (unsigned long long)op_refuse());
            st = ZyanBitsetPerformByteOperation(&b, &src, refusing_op);
            REQ(st == CTOR_STATUS, "operation-status", "PerformByteOperation returned %s although its operation failed for byte %llu of %llu", st_name(st), (unsigned long long)op_refuse(), (unsigned long long)both);
            for (u64 i = 0; i < n() && i < both * 8; ++i) m[i] = ZyanBitsetTest(&b, i) == ZYAN_STATUS_TRUE;
            COUNT("refused byte operations"); verify("refused PerformByteOperation"); }
        for (u64 i = 0; i < sl; ++i) REQ(ZyanBitsetTest(&src, i) == (sm[i] ? ZYAN_STATUS_TRUE : ZYAN_STATUS_FALSE), "source-changed", "%s changed bit %llu of its source", nm[k], (unsigned long long)i);
        ZyanUSize ssz = 0x71; REQ(ZyanBitsetGetSize(&src, &ssz) == ZYAN_STATUS_SUCCESS && ssz == sl, "source-changed", "%s changed the size of its source to %zu", nm[k], (size_t)ssz);
        ZyanBitsetDestroy(&src);
    }
    void reserve(u64 k) { trace("reserve %llu", (unsigned long long)k); u64 need = nbytes(k);
        op("Reserve", Kind::Grow, fit(need), need > cap ? CapExp::atleast(need) : CapExp::same(), [&] { return ZyanBitsetReserve(&b, k); }, [&] {}); }
    void shrink_to_fit() { trace("shrink_to_fit"); u64 t = std::max<u64>(1, nbytes(n()));
        op("ShrinkToFit", Kind::Grow, ZYAN_STATUS_SUCCESS, dyn ? (t == cap ? CapExp::any() : CapExp::exact(t)) : CapExp::same(), [&] { return ZyanBitsetShrinkToFit(&b); }, [&] {}); }
    u64 idx() { return n() && !r.chance(1, 12) ? (r.chance(1, 4) ? n() - 1 : r.below(n())) : r.chance(1, 2) ? n() + r.below(9) : r.pick<u64>({UMAX, UTOP, n() + 64}); }
    void step(u64 maxn) {
        u64 w = r.below(100);
        if (w < 12) bit("Set", idx(), [&](u64 i) { return ZyanBitsetSet(&b, i); }, [](u8& x) { x = 1; });
        else if (w < 22) bit("Reset", idx(), [&](u64 i) { return ZyanBitsetReset(&b, i); }, [](u8& x) { x = 0; });
        else if (w < 30) { bool v = r.chance(1, 2); bit(v ? "Assign1" : "Assign0", idx(), [&](u64 i) { return ZyanBitsetAssign(&b, i, v); }, [v](u8& x) { x = v; }); }
        else if (w < 38) bit("Toggle", idx(), [&](u64 i) { return ZyanBitsetToggle(&b, i); }, [](u8& x) { x = !x; });
        else if (w < 58) { u64 k = n() < maxn ? (r.chance(1, 6) ? 9 : 1) : 0; while (k--) push(r.chance(1, 2)); }
        else if (w < 75) { u64 k = r.chance(1, 6) ? 9 : 1; while (k--) pop(); }
        else if (w < 76) clear();
        else if (w < 83) all((int)r.below(3));
        else if (w < 93) { if (r.chance(1, 8)) binary_self((int)r.below(5)); else binary((int)r.below(4)); }
        else if (w < 97) reserve(r.chance(1, 2) ? r.range(0, n() + 80) : cap < 200 ? cap * 8 + r.below(3) - 1 : 5);
        else shrink_to_fit();
    }
    void large_step(u64 maxn) { step(maxn); }
    void destroy() { if (!alive) return; trace("destroy"); ZyanStatus st = ZyanBitsetDestroy(&b); REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "BitsetDestroy returned %s", st_name(st)); alive = false; }
};
inline BitsCfg rnd_bitscfg(Rng& r) {
    BitsCfg c; c.growth = r.chance(1, 2) ? 2 : r.range(1, 5); c.thr = r.chance(1, 2) ? 2 : r.range(0, 6); c.count = r.chance(1, 5) ? 0 : r.chance(1, 3) ? r.below(10) : r.below(70);
    c.dyn = !r.chance(1, 4); if (!c.dyn) c.bufcap = nbytes(c.count) + r.below(5); return c; }
