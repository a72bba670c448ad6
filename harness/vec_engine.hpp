// Vector simulation: random operation histories against a reference sequence with selectable monitors.
#pragma once
#include "sim.hpp"
extern "C" { int iter_uint8_t(ZyanVector*, const u8*, size_t, size_t*); int iter_uint32_t(ZyanVector*, const u8*, size_t, size_t*); int iter_uint64_t(ZyanVector*, const u8*, size_t, size_t*);
    int iter_flow_uint8_t(ZyanVector*, const u8*, size_t, size_t); int iter_flow_uint32_t(ZyanVector*, const u8*, size_t, size_t); int iter_flow_uint64_t(ZyanVector*, const u8*, size_t, size_t); }

struct VecCfg { u64 es = 8, growth = 2, thr = 4, cap0 = 0; bool dyn = true, dtor = false; };

struct VecSim : SimBase {
    ZyanVector v; VecCfg c; HeapBuf* buf = nullptr;
    std::vector<Bytes> m;

    VecSim(const VecCfg& cfg, const Opt& opt, Rng& rng, MonAlloc* a) : SimBase(opt, rng, a), c(cfg) { sync(); }
    void sync() { dyn = c.dyn; growth = c.growth; thr = c.thr; fixed_cap = c.cap0; }
    u64 msize() override { return m.size(); }
    // arms the ledger: these elements leave the container
    void leave(u64 a, u64 b) { Ledger& L = ledger(); L.begin(); L.armed = o.life && c.dtor; L.es = c.es; u8* p = base();
        if (L.armed) for (u64 i = a; i < b; ++i) L.add(i, m[i], p + i * c.es); }
    ~VecSim() { delete buf; }

    Bytes elem() { return rnd_bytes(r, c.es); }
    std::string eh(const Bytes& b) { return hexs(b, 8); }

    u8* base() override { return m.empty() ? nullptr : (u8*)const_cast<void*>(ZyanVectorGet(&v, 0)); }

    ZyanMemberProcedure dt() { return c.dtor ? (ZyanMemberProcedure)life_dtor : nullptr; }

    void init() {
        bool inj; ZyanStatus st;
        if (c.dyn && !A) {                        // with the defaults
            c.growth = ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR; c.thr = ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD; sync();
            trace("default init es=%llu cap=%llu dtor=%d", (unsigned long long)c.es, (unsigned long long)c.cap0, c.dtor); memset(&v, 0xC3, sizeof v); st = ZyanVectorInit(&v, c.es, c.cap0, dt()); COUNT("containers with the default allocator");
        } else if (c.dyn) {
            trace("init es=%llu cap=%llu growth=%llu thr=%llu dtor=%d", (unsigned long long)c.es, (unsigned long long)c.cap0, (unsigned long long)c.growth, (unsigned long long)c.thr, c.dtor);
            st = fault_loop(A, o.fault, Kind::Grow, persist, "VectorInitEx", [&] { memset(&v, 0xC3, sizeof v);
                return ZyanVectorInitEx(&v, c.es, c.cap0, dt(), A->get(), (ZyanU8)c.growth, (ZyanU8)c.thr); }, [&] { if (o.fault || o.alloc) A->require_empty("failed VectorInitEx"); }, inj);
        } else {
            trace("initbuf es=%llu cap=%llu dtor=%d", (unsigned long long)c.es, (unsigned long long)c.cap0, c.dtor);
            c.growth = 1; c.thr = 0; if (!c.cap0) c.cap0 = 1; sync();
            buf = new HeapBuf(c.es * c.cap0, 0x77, natural(c.es));
            memset(&v, 0xC3, sizeof v);
            st = ZyanVectorInitCustomBuffer(&v, c.es, buf->p, c.cap0, dt());
        }
        REQ(st == ZYAN_STATUS_SUCCESS, "init", "vector initialization failed with %s", st_name(st));
        alive = true;
        cap = real_cap();
        if (o.cap) REQ(cap >= std::max<u64>(1, c.cap0), "init-capacity", "capacity %llu after initialization with %llu", (unsigned long long)cap, (unsigned long long)c.cap0);
        if (o.cap && !c.dyn) REQ(cap == c.cap0, "init-capacity", "fixed buffer capacity %llu, given %llu", (unsigned long long)cap, (unsigned long long)c.cap0);
        verify("init");
    }
    u64 real_cap() override { ZyanUSize k = 0x5555; ZyanStatus st = ZyanVectorGetCapacity(&v, &k);
        REQ(st == ZYAN_STATUS_SUCCESS, "getter", "GetCapacity failed with %s", st_name(st)); return k; }

    // full state check; `when` for messages
    void verify(const char* when) override {
        ZyanUSize n = 0x77; ZyanStatus st = ZyanVectorGetSize(&v, &n);
        REQ(st == ZYAN_STATUS_SUCCESS && n == m.size(), "size", "after %s: size is %zu (%s), history says %zu", when, (size_t)n, st_name(st), m.size());
        u64 k = real_cap();
        if (o.content || o.fault) {
            const u8* b0 = nullptr;
            for (size_t i = 0; i < m.size(); ++i) {
                const u8* p = (const u8*)ZyanVectorGet(&v, i);
                REQ(p, "get-null", "after %s: Get(%zu) of %zu elements is null", when, i, m.size());
                if (!i) b0 = p;
                REQ(p == b0 + i * c.es, "stride", "after %s: element %zu is not at its place", when, i);
                REQ(!memcmp(p, m[i].data(), c.es), "content", "after %s: element %zu of %zu is %s, history says %s", when, i, m.size(),
                    hexs(Bytes(p, p + c.es), 16).c_str(), hexs(m[i], 16).c_str());
            }
        }
        if (o.content) accessors(when);
        if (o.cap) {
            REQ(k >= m.size() && k >= 1, "capacity-low", "after %s: capacity %llu, size %zu", when, (unsigned long long)k, m.size());
            if (c.dyn && !A) {} else if (c.dyn) {
                REQ(A->live.size() == 1, "blocks", "after %s: %zu blocks owned", when, A->live.size());
                const BlockInfo& bi = A->live.begin()->second;
                REQ(bi.n == k && bi.es == c.es, "capacity-block", "after %s: capacity %llu but the owned block has %llu x %llu bytes", when, (unsigned long long)k, (unsigned long long)bi.n, (unsigned long long)bi.es);
                if (!m.empty()) REQ(base() == A->live.begin()->first, "data-block", "after %s: data is not in the owned block", when);
            } else {
                REQ(k == c.cap0, "fixed-capacity", "after %s: fixed capacity changed from %llu to %llu", when, (unsigned long long)c.cap0, (unsigned long long)k);
                if (!m.empty()) REQ(base() == buf->p, "fixed-address", "after %s: fixed buffer moved", when);
            }
        }
        if (o.alloc && c.dyn && A) REQ(A->live.size() == 1, "blocks", "after %s: vector owns %zu blocks", when, A->live.size());
        saw_state(mix64(m.size() * 1315423911u + k, c.es * 64 + c.growth * 8 + c.thr + (c.dyn ? 1u << 20 : 0)));
    }
    void accessors(const char* when) {
        size_t n = m.size();
        size_t probe[5] = {0, n ? n - 1 : 0, n, n + 1, (size_t)-1};
        for (size_t i : probe) {
            const void* g = ZyanVectorGet(&v, i); void* gm = ZyanVectorGetMutable(&v, i);
            const void* gp = (const void*)0x11; void* gpm = (void*)0x11;
            ZyanStatus s1 = ZyanVectorGetPointer(&v, i, &gp), s2 = ZyanVectorGetPointerMutable(&v, i, &gpm);
            if (i < n) {
                REQ(g && g == gm && g == gp && g == gpm && s1 == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS, "accessors", "after %s: access functions disagree about element %zu of %zu", when, i, n);
            } else {
                REQ(!g && !gm && s1 == ZYAN_STATUS_OUT_OF_RANGE && s2 == ZYAN_STATUS_OUT_OF_RANGE, "accessor-range", "after %s: access to element %zu of %zu not refused (%p %p %s %s)", when, i, n, g, gm, st_name(s1), st_name(s2));
                REQ(gp == (const void*)0x11 && gpm == (void*)0x11, "accessor-out", "after %s: refused access changed the result pointer", when);
            }
        }
        if (c.es == 4) iterate<u32>(when); else if (c.es == 8) iterate<u64>(when); else if (c.es == 1) iterate<u8>(when);
    }
    template <class T> void iterate(const char* when) {
        Bytes flat; flat.reserve(m.size() * sizeof(T) + 1); for (auto& e : m) flat.insert(flat.end(), e.begin(), e.end());
        size_t vis[2] = {0, 0};
        bool ok = sizeof(T) == 1 ? iter_uint8_t(&v, flat.data(), m.size(), vis) : sizeof(T) == 4 ? iter_uint32_t(&v, flat.data(), m.size(), vis) : iter_uint64_t(&v, flat.data(), m.size(), vis);
        REQ(ok && vis[0] == m.size() && vis[1] == m.size(), "foreach", "after %s: iteration macros visited %zu / %zu of %zu elements or wrong values", when, vis[0], vis[1], m.size());
        if (!m.empty()) { size_t k = r.below(m.size()); T t; memcpy(&t, m[k].data(), sizeof t); REQ(ZYAN_VECTOR_GET(T, &v, k) == t, "get-macro", "ZYAN_VECTOR_GET(%zu) differs", k); }
        COUNT("iteration macro runs");
        if (m.size() < 4096 && r.chance(1, 4)) { size_t stop = r.below(m.size() + 2);
            int f = sizeof(T) == 1 ? iter_flow_uint8_t(&v, flat.data(), m.size(), stop) : sizeof(T) == 4 ? iter_flow_uint32_t(&v, flat.data(), m.size(), stop) : iter_flow_uint64_t(&v, flat.data(), m.size(), stop);
            static const char* F[] = { "", "continue", "continue (mutable)", "break", "break (mutable)", "nested loops", "writing through the item", "writing back" };
            REQ(!f, "foreach", "after %s: iteration macros with %s misbehave on %zu elements", when, F[f], m.size()); COUNT("iterations with control flow"); }
    }

    u64 n() const { return m.size(); }
    u64 bad_index(u64 n_) { switch (r.below(5)) { case 0: return n_; case 1: return n_ + 1; case 2: return UMAX; case 3: return n_ + r.below(1000); default: return UTOP; } }

    void push() { Bytes e = elem(); trace("push %s", eh(e).c_str());
        op("PushBack", Kind::Grow, fit(n() + 1), grow(n() + 1), [&] { return ZyanVectorPushBack(&v, e.data()); }, [&] { m.push_back(e); }); }
    void insert(u64 i) { Bytes e = elem(); trace("insert %llu %s", (unsigned long long)i, eh(e).c_str());
        ZyanStatus ex = i > n() ? ZYAN_STATUS_OUT_OF_RANGE : fit(n() + 1);
        op("Insert", Kind::Grow, ex, grow(n() + 1), [&] { return ZyanVectorInsert(&v, i, e.data()); }, [&] { m.insert(m.begin() + i, e); }); }
    void insert_range(u64 i, u64 k) { HeapBuf src(k * c.es, 0x77, natural(c.es)); std::vector<Bytes> es; for (u64 j = 0; j < k; ++j) { es.push_back(elem()); memcpy(src.p + j * c.es, es[j].data(), c.es); }
        trace("insert_range %llu count %llu %s", (unsigned long long)i, (unsigned long long)k, eh(es[0]).c_str());
        ZyanStatus ex = i > n() ? ZYAN_STATUS_OUT_OF_RANGE : fit(n() + k);
        op("InsertRange", Kind::Grow, ex, grow(n() + k), [&] { return ZyanVectorInsertRange(&v, i, src.p, k); }, [&] { m.insert(m.begin() + i, es.begin(), es.end()); }); }
    void emplace(bool back, u64 i, bool with_ctor, bool fail) {
        Bytes e = elem(); if (back) i = n();
        trace("emplace%s %llu ctor=%d fail=%d %s", back ? "" : "Ex", (unsigned long long)i, with_ctor, fail, eh(e).c_str());
        CtorCtl& cc = ctorctl(); cc.bytes = e; cc.calls = 0; cc.addr = nullptr; cc.result = fail ? CTOR_STATUS : CTOR_OK; any_success = with_ctor && cc.result != ZYAN_STATUS_SUCCESS; if (any_success && !fail) COUNT("constructors with another success status");
        ZyanStatus ex = i > n() ? ZYAN_STATUS_OUT_OF_RANGE : fit(n() + 1);
        bool will_construct = with_ctor && ex == ZYAN_STATUS_SUCCESS;
        void* slot = nullptr;
        if (fail && will_construct) {         // separate path: growing before constructing is allowed
            Ledger& L = ledger(); L.begin(); L.armed = o.life && c.dtor;
            ZyanStatus st = back ? ZyanVectorEmplace(&v, &slot, life_ctor) : ZyanVectorEmplaceEx(&v, i, &slot, life_ctor);
            REQ(st == CTOR_STATUS, "ctor-status", "Emplace with failing constructor returned %s", st_name(st));
            if (o.life) REQ(cc.calls == 1, "ctor-calls", "constructor ran %llu times", (unsigned long long)cc.calls);
            life_finish(false, "Emplace");
            cap = real_cap();
            COUNT("constructor failures injected");
            verify("Emplace with failing constructor");
            return;
        }
        op(back ? "Emplace" : "EmplaceEx", Kind::Grow, ex, grow(n() + 1), [&] { cc.calls = 0; slot = nullptr; ZyanStatus s = back ? ZyanVectorEmplace(&v, &slot, with_ctor ? life_ctor : nullptr)
                : ZyanVectorEmplaceEx(&v, i, &slot, with_ctor ? life_ctor : nullptr);
                if (!ZYAN_SUCCESS(s) && o.life) REQ(cc.calls == 0, "ctor-refused", "refused Emplace ran the constructor");
                return s; },
            [&] { REQ(slot, "emplace-slot", "Emplace returned no element");
                  void* g = ZyanVectorGetMutable(&v, i);
                  REQ(g == slot, "emplace-slot", "Emplace returned %p but element %llu is at %p", slot, (unsigned long long)i, g);
                  if (!with_ctor) memcpy(slot, e.data(), c.es);
                  else if (o.life) { REQ(cc.calls == 1, "ctor-calls", "constructor ran %llu times", (unsigned long long)cc.calls);
                                     REQ(cc.addr == slot, "ctor-addr", "constructor ran at another address than the new slot"); COUNT("constructor calls judged"); }
                  m.insert(m.begin() + i, e); });
        any_success = false;
    }
    void set(u64 i) { Bytes e = elem(); trace("set %llu %s", (unsigned long long)i, eh(e).c_str());
        bool ok = i < n(); if (ok) leave(i, i + 1); op("Set", Kind::Grow, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, CapExp::same(),
            [&] { return ZyanVectorSet(&v, i, e.data()); }, [&] { m[i] = e; }); }
    void swap(u64 i, u64 j) { trace("swap %llu %llu", (unsigned long long)i, (unsigned long long)j);
        bool ok = i < n() && j < n();
        op("SwapElements", Kind::Grow, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, CapExp::same(), [&] { return ZyanVectorSwapElements(&v, i, j); },
            [&] { std::swap(m[i], m[j]); }, ok && n() == cap ? (ZyanStatus)ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : NO_ALT); }
    void del(u64 i) { trace("delete %llu", (unsigned long long)i); bool ok = i < n(); if (ok) leave(i, i + 1);
        op("Delete", Kind::Remove, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, ok ? shrink(n() - 1) : CapExp::same(),
            [&] { return ZyanVectorDelete(&v, i); }, [&] { m.erase(m.begin() + i); }); }
    void del_range(u64 i, u64 k) { trace("delete_range %llu %llu", (unsigned long long)i, (unsigned long long)k);
        bool ok = i <= n() && k <= n() - i;
        if (ok) leave(i, i + k);
        op("DeleteRange", Kind::Remove, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, ok ? shrink(n() - k) : CapExp::same(),
            [&] { return ZyanVectorDeleteRange(&v, i, k); }, [&] { m.erase(m.begin() + i, m.begin() + i + k); }); }
    void pop() { trace("pop"); bool ok = n() > 0; if (ok) leave(n() - 1, n());
        op("PopBack", Kind::Remove, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_OUT_OF_RANGE, ok ? shrink(n() - 1) : CapExp::same(),
            [&] { return ZyanVectorPopBack(&v); }, [&] { m.pop_back(); }); }
    void clear() { trace("clear"); leave(0, n());
        op("Clear", Kind::Remove, ZYAN_STATUS_SUCCESS, n() ? shrink(0) : CapExp::any(), [&] { return ZyanVectorClear(&v); }, [&] { m.clear(); }); }
    void resize(u64 k, bool init) {
        Bytes e = elem(); trace("resize %llu init=%d", (unsigned long long)k, init);
        CapExp ce = CapExp::same(); Kind kind = Kind::Grow;
        if (k < n()) { ce = shrink(k); kind = Kind::Remove; leave(k, n()); }
        else if (k > cap) ce = grow(k);
        op(init ? "ResizeEx" : "Resize", kind, fit(k), ce,
            [&] { return init ? ZyanVectorResizeEx(&v, k, e.data()) : ZyanVectorResize(&v, k); },
            [&] { u64 old = n(); m.resize(k, e);
                  if (!init) for (u64 i = old; i < k; ++i) { m[i] = elem(); void* p = ZyanVectorGetMutable(&v, i); REQ(p, "get-null", "element %llu not accessible after Resize", (unsigned long long)i); memcpy(p, m[i].data(), c.es); } });
    }
    void reserve(u64 k) { trace("reserve %llu", (unsigned long long)k);
        op("Reserve", Kind::Grow, fit(k), k > cap ? CapExp::atleast(k) : CapExp::same(), [&] { return ZyanVectorReserve(&v, k); }, [&] {}); }
    void shrink_to_fit() { trace("shrink_to_fit");
        op("ShrinkToFit", Kind::Grow, ZYAN_STATUS_SUCCESS, c.dyn ? (n() == cap ? CapExp::any() : CapExp::exact(std::max<u64>(1, n()))) : CapExp::same(),
            [&] { return ZyanVectorShrinkToFit(&v); }, [&] {}); }

    void step(u64 maxn) {
        leave(0, 0);
        u64 w = r.below(100);
        bool bad = r.chance(1, 12);
        auto at = [&] { return r.chance(1, 5) ? 0 : r.chance(1, 5) ? n() : r.range(0, n()); };
        if (n() > maxn && w < 45) { if (r.chance(1, 2)) { u64 i = r.below(n()); del_range(i, r.range(1, n() - i)); } else resize(r.below(n()), r.chance(1, 2)); return; }
        if (w < 14) push();
        else if (w < 24) insert(bad ? n() + r.range(1, 3) : at());
        else if (w < 36) { u64 k = r.chance(1, 8) ? r.range(1, 40) : r.range(1, 5); insert_range(bad ? n() + r.range(1, 3) : at(), k); }
        else if (w < 41) emplace(true, 0, r.chance(2, 3), r.chance(1, 4));
        else if (w < 48) emplace(false, bad ? n() + r.range(1, 3) : at(), r.chance(2, 3), r.chance(1, 4));
        else if (w < 54) set(bad || !n() ? bad_index(n()) : r.below(n()));
        else if (w < 59) { if (n()) swap(bad ? bad_index(n()) : r.below(n()), r.chance(1, 12) ? bad_index(n()) : r.below(n())); else swap(0, 0); }
        else if (w < 66) del(bad || !n() ? bad_index(n()) : r.below(n()));
        else if (w < 73) { if (bad) { u64 i = r.range(0, n() + 2); del_range(i, i <= n() ? n() - i + r.range(1, 4) : 1); } else if (n()) { u64 i = r.below(n()); del_range(i, r.range(1, n() - i)); } else push(); }
        else if (w < 79) pop();
        else if (w < 81) clear();
        else if (w < 90) { u64 k = r.chance(1, 3) ? r.range(0, n() + 2) : r.chance(1, 2) ? r.range(0, maxn + 8) : cap < 400 ? cap + r.below(4) : r.below(maxn + 1); resize(k, r.chance(1, 2)); }
        else if (w < 95) reserve(r.chance(1, 2) && cap < 400 ? r.range(0, cap + 10) : n() + r.below(30));
        else shrink_to_fit();
    }
    void destroy() {
        if (!alive) return; trace("destroy");
        leave(0, n());
        ZyanStatus st = ZyanVectorDestroy(&v);
        REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "Destroy returned %s", st_name(st));
        life_finish(true, "Destroy"); ledger().armed = false;
        alive = false;
    }
};
inline VecCfg rnd_veccfg(Rng& r) {
    VecCfg c;
    c.es = r.chance(1, 2) ? r.pick<u64>({1, 2, 4, 8, 16}) : r.chance(1, 12) ? r.range(41, 300) : r.range(1, 40);
    c.growth = r.chance(1, 2) ? 2 : r.chance(1, 2) ? 1 : r.range(1, 6);
    c.thr = r.chance(1, 3) ? 4 : r.chance(1, 3) ? 0 : r.range(0, 8);
    if (r.chance(1, 40)) c.growth = r.range(200, 255);
    if (r.chance(1, 40)) c.thr = r.range(200, 255);
    if (c.growth > 10 && c.es > 16) c.es = r.range(1, 16);
    c.cap0 = r.chance(1, 3) ? r.below(3) : r.below(24);
    c.dyn = !r.chance(1, 5);
    if (!c.dyn) c.cap0 = r.range(1, 30);
    c.dtor = r.chance(1, 2);
    return c;
}
