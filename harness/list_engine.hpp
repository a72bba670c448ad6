// List simulation: random operation histories against a reference deque.
#pragma once
#include "sim.hpp"

struct ListCfg { u64 es = 8; bool dyn = true, dtor = false; u64 nodes = 0, slack = 0; };

struct ListSim : SimBase {
    struct Item { Bytes b; const ZyanListNode* node; };
    ZyanList l; ListCfg c; HeapBuf* buf = nullptr; std::vector<Item> m;
    ListSim(const ListCfg& cfg, const Opt& o_, Rng& r_, MonAlloc* a) : SimBase(o_, r_, a), c(cfg) { dyn = c.dyn; }
    ~ListSim() { delete buf; }
    u64 msize() override { return m.size(); }
    u64 n() const { return m.size(); }
    u64 real_cap() override { return 0; }
    bool single_block() override { return false; }
    u64 stride() const { return sizeof(ZyanListNode) + c.es; }
    ZyanMemberProcedure dt() { return c.dtor ? (ZyanMemberProcedure)life_dtor : nullptr; }
    Bytes elem() { return rnd_bytes(r, c.es); }
    std::string eh(const Bytes& b) { return hexs(b, 8); }
    ZyanStatus lfit(u64 need) { return (!dyn && need > c.nodes) ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_SUCCESS; }
    void leave(u64 a, u64 b) { Ledger& L = ledger(); L.begin(); L.armed = o.life && c.dtor; L.es = c.es;
        if (L.armed) for (u64 i = a; i < b; ++i) L.add(i, m[i].b, const_cast<void*>(ZyanListGetNodeData(m[i].node))); }

    void init() {
        ZyanStatus st; memset(&l, 0xC3, sizeof l);
        if (c.dyn && !A) { trace("default listinit es=%llu dtor=%d", (unsigned long long)c.es, c.dtor); st = ZyanListInit(&l, c.es, dt()); COUNT("containers with the default allocator"); }
        else if (c.dyn) { trace("listinit es=%llu dtor=%d", (unsigned long long)c.es, c.dtor); st = ZyanListInitEx(&l, c.es, dt(), A->get()); }
        else { trace("listinitbuf es=%llu nodes=%llu slack=%llu dtor=%d", (unsigned long long)c.es, (unsigned long long)c.nodes, (unsigned long long)c.slack, c.dtor);
            u64 bytes = c.nodes * stride() + c.slack; if (!bytes) bytes = 1;
            buf = new HeapBuf(bytes, 0xEE); st = ZyanListInitCustomBuffer(&l, c.es, dt(), buf->p, bytes); }
        REQ(st == ZYAN_STATUS_SUCCESS, "init", "list initialization failed with %s", st_name(st));
        alive = true; verify("init");
    }
    const ZyanListNode* head() { const ZyanListNode* x = (const ZyanListNode*)0x11; ZyanStatus st = ZyanListGetHeadNode(&l, &x); REQ(st == ZYAN_STATUS_SUCCESS, "getter", "GetHeadNode: %s", st_name(st)); return x; }
    const ZyanListNode* tail() { const ZyanListNode* x = (const ZyanListNode*)0x11; ZyanStatus st = ZyanListGetTailNode(&l, &x); REQ(st == ZYAN_STATUS_SUCCESS, "getter", "GetTailNode: %s", st_name(st)); return x; }
    void verify(const char* when) override {
        ZyanUSize k = 0x77; ZyanStatus st = ZyanListGetSize(&l, &k);
        REQ(st == ZYAN_STATUS_SUCCESS && k == m.size(), "size", "after %s: size is %zu (%s), history says %zu", when, (size_t)k, st_name(st), m.size());
        if ((o.alloc || o.fault) && dyn) REQ(A->live.size() == m.size(), "blocks", "after %s: %zu nodes but %zu blocks", when, m.size(), A->live.size());
        saw_state(mix64(m.size(), c.es * 4 + dyn * 2));
        if (!o.content && !o.fault) return;
        const ZyanListNode* p = head();
        for (size_t i = 0; i < m.size(); ++i) {
            REQ(p, "short", "after %s: forward walk ends after %zu of %zu elements", when, i, m.size());
            if (m[i].node) REQ(p == m[i].node, "node-moved", "after %s: element %zu is not in its node any more", when, i);
            else m[i].node = p;
            const void* d = ZyanListGetNodeData(p); void* dm = ZyanListGetNodeDataMutable(p);
            const void* d2 = nullptr; void* d3 = nullptr;
            REQ(ZyanListGetNodeDataEx(p, &d2) == ZYAN_STATUS_SUCCESS && ZyanListGetNodeDataMutableEx(p, &d3) == ZYAN_STATUS_SUCCESS && d && d == dm && d == d2 && d == d3, "accessors", "after %s: value access functions disagree", when);
            REQ(!memcmp(d, m[i].b.data(), c.es), "content", "after %s: element %zu of %zu is %s, history says %s", when, i, m.size(), hexs(Bytes((u8*)d, (u8*)d + c.es), 16).c_str(), hexs(m[i].b, 16).c_str());
            if (c.es == 1) REQ(ZYAN_LIST_GET(u8, p) == *(const u8*)d, "accessors", "after %s: the value macro disagrees", when);
            else if (c.es == 8 && (uintptr_t)d % 8 == 0) { u64 e; memcpy(&e, m[i].b.data(), 8); REQ(ZYAN_LIST_GET(u64, p) == e, "accessors", "after %s: the value macro disagrees", when); }
            if (!dyn) REQ((u8*)p >= buf->p && (u8*)d + c.es <= buf->p + buf->n, "fixed-bounds", "after %s: element %zu lies outside of the fixed buffer", when, i);
            else if (o.alloc) REQ(A->live.count((void*)p), "node-block", "after %s: node %zu is not in a block of the allocator", when, i);
            st = ZyanListGetNextNode(&p); REQ(st == ZYAN_STATUS_SUCCESS, "getter", "GetNextNode: %s", st_name(st));
        }
        REQ(!p, "long", "after %s: forward walk continues behind the last of %zu elements", when, m.size());
        p = tail();
        for (size_t i = m.size(); i-- > 0;) {
            REQ(p, "short-back", "after %s: backward walk ends before element %zu", when, i);
            REQ(p == m[i].node, "back-order", "after %s: backward walk finds a wrong node at element %zu of %zu", when, i, m.size());
            st = ZyanListGetPrevNode(&p); REQ(st == ZYAN_STATUS_SUCCESS, "getter", "GetPrevNode: %s", st_name(st));
        }
        REQ(!p, "long-back", "after %s: backward walk continues before the first element", when);
        COUNT("two-way walks");
    }
    // records the nodes of elements [a,b) that were just created (walks from the head)
    void learn() { const ZyanListNode* p = head(); for (auto& it : m) { if (!p) return; if (!it.node) it.node = p; ZyanListGetNextNode(&p); } }

    void push(bool front) { Bytes e = elem(); trace("push_%s %s", front ? "front" : "back", eh(e).c_str()); leave(0, 0);
        op(front ? "PushFront" : "PushBack", Kind::Grow, lfit(n() + 1), CapExp::any(), [&] { return front ? ZyanListPushFront(&l, e.data()) : ZyanListPushBack(&l, e.data()); },
            [&] { m.insert(front ? m.begin() : m.end(), Item{e, nullptr}); learn(); }); }
    void emplace(bool front, bool with_ctor, bool fail) {
        Bytes e = elem(); trace("emplace_%s ctor=%d fail=%d %s", front ? "front" : "back", with_ctor, fail, eh(e).c_str()); leave(0, 0);
        CtorCtl& cc = ctorctl(); cc.bytes = e; cc.calls = 0; cc.addr = nullptr; cc.result = fail ? CTOR_STATUS : CTOR_OK; any_success = with_ctor && cc.result != ZYAN_STATUS_SUCCESS; if (any_success && !fail) COUNT("constructors with another success status");
        void* slot = nullptr; ZyanStatus ex = lfit(n() + 1);
        auto call = [&] { cc.calls = 0; return front ? ZyanListEmplaceFront(&l, &slot, with_ctor ? life_ctor : nullptr) : ZyanListEmplaceBack(&l, &slot, with_ctor ? life_ctor : nullptr); };
        if (fail && with_ctor && ex == ZYAN_STATUS_SUCCESS) {
            u64 f0 = A ? A->live.size() : 0;
            ZyanStatus st = call();
            REQ(st == CTOR_STATUS, "ctor-status", "Emplace with failing constructor returned %s", st_name(st));
            if (o.life) REQ(cc.calls == 1, "ctor-calls", "constructor ran %llu times", (unsigned long long)cc.calls);
            if (o.alloc && dyn) REQ(A->live.size() == f0, "ctor-leak", "Emplace with failing constructor kept a block");
            life_finish(false, "Emplace"); COUNT("constructor failures injected"); verify("Emplace with failing constructor"); return;
        }
        op(front ? "EmplaceFront" : "EmplaceBack", Kind::Grow, ex, CapExp::any(), call, [&] {
            REQ(slot, "emplace-slot", "Emplace returned no element");
            const ZyanListNode* nd = front ? head() : tail();
            REQ(nd && ZyanListGetNodeDataMutable(nd) == slot, "emplace-slot", "Emplace returned another element than the new %s", front ? "head" : "tail");
            if (!with_ctor) memcpy(slot, e.data(), c.es);
            else if (o.life) { REQ(cc.calls == 1, "ctor-calls", "constructor ran %llu times", (unsigned long long)cc.calls); REQ(cc.addr == slot, "ctor-addr", "constructor ran at another address than the new element"); COUNT("constructor calls judged"); }
            m.insert(front ? m.begin() : m.end(), Item{e, nd}); });
        any_success = false;
        if (ex != ZYAN_STATUS_SUCCESS && o.life) REQ(cc.calls == 0, "ctor-refused", "refused Emplace ran the constructor");
    }
    void pop(bool front) { trace("pop_%s", front ? "front" : "back"); bool ok = n() > 0; if (!ok) leave(0, 0); else if (front) leave(0, 1); else leave(n() - 1, n());
        op(front ? "PopFront" : "PopBack", Kind::Remove, ok ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_OPERATION, CapExp::any(), [&] { return front ? ZyanListPopFront(&l) : ZyanListPopBack(&l); },
            [&] { if (front) m.erase(m.begin()); else m.pop_back(); }); }
    void remove(u64 a, u64 b, bool range) { trace("remove %llu..%llu range=%d", (unsigned long long)a, (unsigned long long)b, range); leave(a, b + 1);
        op(range ? "RemoveRange" : "Remove", Kind::Remove, ZYAN_STATUS_SUCCESS, CapExp::any(), [&] { return range ? ZyanListRemoveRange(&l, m[a].node, m[b].node) : ZyanListRemove(&l, m[a].node); },
            [&] { m.erase(m.begin() + a, m.begin() + b + 1); }); }
    void bad_range(u64 a, u64 b) { trace("remove_range reversed %llu..%llu", (unsigned long long)a, (unsigned long long)b); leave(0, 0);   // a > b
        op("RemoveRange (reversed)", Kind::Remove, ZYAN_STATUS_INVALID_ARGUMENT, CapExp::any(), [&] { return ZyanListRemoveRange(&l, m[a].node, m[b].node); }, [&] {}); }
    void set(u64 i) { Bytes e = elem(); trace("set %llu %s", (unsigned long long)i, eh(e).c_str()); leave(i, i + 1);
        op("SetNodeData", Kind::Grow, ZYAN_STATUS_SUCCESS, CapExp::any(), [&] { return ZyanListSetNodeData(&l, m[i].node, e.data()); }, [&] { m[i].b = e; }); }
    void write(u64 i) { Bytes e = elem(); trace("write %llu %s", (unsigned long long)i, eh(e).c_str());
        void* p = ZyanListGetNodeDataMutable(m[i].node); REQ(p, "accessors", "GetNodeDataMutable returned null"); memcpy(p, e.data(), c.es); m[i].b = e; verify("writing a value"); }
    void clear() { trace("clear"); leave(0, n()); op("Clear", Kind::Remove, ZYAN_STATUS_SUCCESS, CapExp::any(), [&] { return ZyanListClear(&l); }, [&] { m.clear(); }); }
    void resize(u64 k, bool init) { Bytes e = elem(); trace("resize %llu init=%d", (unsigned long long)k, init);
        if (k < n()) leave(k, n()); else leave(0, 0);
        op(init ? "ResizeEx" : "Resize", k < n() ? Kind::Remove : Kind::Grow, lfit(k), CapExp::any(), [&] { return init ? ZyanListResizeEx(&l, k, e.data()) : ZyanListResize(&l, k); },
            [&] { u64 old = n(); m.resize(k, Item{e, nullptr}); learn();
                  if (!init) for (u64 i = old; i < k; ++i) { REQ(m[i].node, "short", "after Resize: forward walk has no element %llu", (unsigned long long)i); m[i].b = elem(); memcpy(ZyanListGetNodeDataMutable(m[i].node), m[i].b.data(), c.es); } }); }
    void step(u64 maxn) {
        u64 w = r.below(100);
        if (n() > maxn && w < 40) { if (r.chance(1, 2)) resize(r.below(n()), r.chance(1, 2)); else { u64 a = r.below(n()); remove(a, r.range(a, n() - 1), true); } return; }
        if (w < 16) push(false); else if (w < 32) push(true);
        else if (w < 38) emplace(false, r.chance(2, 3), r.chance(1, 4)); else if (w < 44) emplace(true, r.chance(2, 3), r.chance(1, 4));
        else if (w < 52) pop(false); else if (w < 60) pop(true);
        else if (w < 72) { if (!n()) { push(true); return; } u64 a = r.below(n()); if (r.chance(1, 2)) remove(a, a, false); else remove(a, r.chance(1, 3) ? n() - 1 : r.range(a, n() - 1), true); }
        else if (w < 74) { if (n() > 1) { u64 b = r.below(n() - 1); bad_range(r.range(b + 1, n() - 1), b); } else push(false); }
        else if (w < 80) { if (n()) set(r.below(n())); else push(true); }
        else if (w < 84) { if (n()) write(r.below(n())); else push(false); }
        else if (w < 87) clear();
        else resize(r.chance(1, 2) ? r.range(0, n() + 3) : !dyn && r.chance(1, 2) ? c.nodes + r.below(3) : r.range(0, maxn + 3), r.chance(1, 2));
    }
    void destroy() { if (!alive) return; trace("destroy"); leave(0, n());
        ZyanStatus st = ZyanListDestroy(&l); REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "ListDestroy returned %s", st_name(st));
        life_finish(true, "Destroy"); ledger().armed = false; alive = false; }
};
inline ListCfg rnd_listcfg(Rng& r) {
    ListCfg c; c.es = r.chance(1, 2) ? r.pick<u64>({1, 2, 4, 8, 16}) : r.range(1, 40); c.dyn = r.chance(1, 2); c.dtor = r.chance(1, 2);
    if (!c.dyn) { c.nodes = r.chance(1, 20) ? 0 : r.range(1, 14); c.slack = r.below(sizeof(ZyanListNode) + c.es); }
    return c; }
