// Common parts of the container simulations: which monitors are armed, fault loop, life-cycle ledger, malloc hooks.
#pragma once
#include "zy.hpp"
#include "nested.hpp"

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*)) __attribute__((weak));

// Heap activity of the calling code (used to show that fixed-buffer containers never touch the heap).
struct HeapWatch {
    static volatile u64& count() { static volatile u64 c; return c; }
    static void on_malloc(const volatile void*, size_t) { count() = count() + 1; }
    static void on_free(const volatile void*) { count() = count() + 1; }
    static void install() {
        static bool done; if (done) return; done = true;
        if (!__sanitizer_install_malloc_and_free_hooks || !__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free))
            harness_error("malloc hooks not available");
        u64 c0 = count(); void* volatile vp = malloc(3); free(vp); if (count() == c0) harness_error("malloc hooks do not fire");
    }
};

// Monitors armed by a property. Everything else is merely tracked.
struct Opt {
    bool content = false;   // C01/C07/C13/C14: model equality
    bool cap = false;       // C02
    bool life = false;      // C03
    bool alloc = false;     // C04
    bool fault = false;     // C05
};

enum class Kind {
    Grow,      // may need memory; an injected failure must be reported and undone
    Remove,    // only removes; an injected failure must not surface
    Either     // unspecified whether memory is requested; both outcomes are fine if consistent
};

// What the capacity may be after a successful operation.
struct CapExp {
    enum { Same, Exact, TwoOf, AtLeast, Any } k = Same;
    u64 a = 0, b = 0;
    static CapExp same() { return CapExp{Same, 0, 0}; }
    static CapExp exact(u64 v) { return CapExp{Exact, v, 0}; }
    static CapExp twoof(u64 v, u64 w) { return CapExp{TwoOf, v, w}; }
    static CapExp atleast(u64 v) { return CapExp{AtLeast, v, 0}; }
    static CapExp any() { return CapExp{Any, 0, 0}; }
};
// growth contract (in elements of the underlying block)
inline CapExp cap_grow(u64 need, u64 cap, u64 growth) { return need > cap ? CapExp::exact(need * growth) : CapExp::same(); }
inline CapExp cap_shrink(u64 size, u64 cap, u64 growth, u64 thr) {
    if (!thr || !(size * thr < cap)) return CapExp::same();
    u64 t = std::max<u64>(1, size * growth);
    if (growth > thr && t > cap) return CapExp::twoof(t, cap);       // "shrinking" would grow: not specified
    return CapExp::exact(t);
}

// Element life-cycle ledger (one active container at a time).
struct Ledger {
    struct Exp { u64 idx; Bytes content; void* addr; bool done; };
    std::vector<Exp> expect;      // elements that must be destroyed by the current call
    bool armed = false;           // false: destructor calls are not judged
    u64 es = 0, calls = 0; size_t hint = 0;
    bool unordered_ok = true;
    void begin() { expect.clear(); calls = 0; hint = 0; }
    void add(u64 idx, const Bytes& c, void* a) { expect.push_back(Exp{idx, c, a, false}); }
};
inline Ledger& ledger() { static Ledger l; return l; }
inline void life_dtor(void* p) {
    Ledger& L = ledger(); ++L.calls; in_callback();
    if (!L.armed) return;
    COUNT("destructor calls judged");
    size_t ne = L.expect.size();
    if (ne > 2 && L.expect[(L.hint + ne - 2) % ne].addr == p) L.hint = (L.hint + ne - 2) % ne;      // descending order
    for (size_t t = 0; t < ne; ++t) { auto& e = L.expect[(L.hint + t) % ne]; if (e.addr != p) continue; L.hint = (L.hint + t + 1) % ne;
        if (e.done) violation("destroyed-twice", "element %llu destroyed twice", (unsigned long long)e.idx);
        if (memcmp(p, e.content.data(), e.content.size())) violation("destroyed-content", "element %llu passed to the destructor with changed contents %s instead of %s",
            (unsigned long long)e.idx, hexs(Bytes((u8*)p, (u8*)p + e.content.size())).c_str(), hexs(e.content).c_str());
        e.done = true; return;
    }
    violation("destroyed-unexpected", "destructor called for an address that is no leaving element (%zu elements expected)", L.expect.size());
}
inline void life_finish(bool success, const char* op) {
    Ledger& L = ledger(); if (!L.armed) return;
    for (auto& e : L.expect) {
        if (success && !e.done) violation("not-destroyed", "%s: element %llu left the container without being destroyed", op, (unsigned long long)e.idx);
        if (!success && e.done) violation("destroyed-on-failure", "%s failed but destroyed element %llu", op, (unsigned long long)e.idx);
    }
    L.expect.clear();
}
// Emplace constructor
struct CtorCtl { Bytes bytes; ZyanStatus result = ZYAN_STATUS_SUCCESS; u64 calls = 0; void* addr = nullptr; };
inline CtorCtl& ctorctl() { static CtorCtl c; return c; }
inline ZyanStatus life_ctor(void* p) {
    CtorCtl& c = ctorctl(); ++c.calls; c.addr = p; in_callback();
    memcpy(p, c.bytes.data(), c.bytes.size());      // a failing constructor leaves garbage behind
    return c.result;
}
#define CTOR_STATUS odd_failure(0x0777u)
#define CTOR_OK (mix64(g_tr->case_idx, 0x0778u) % 4 ? ZYAN_STATUS_SUCCESS : odd_success(0x0778u))

inline Bytes rnd_bytes(Rng& r, size_t n) {
    Bytes b(n); if (r.chance(1, 6)) { u8 v = r.pick<u8>({0, 0xFF, 1}); for (auto& x : b) x = v; } else for (auto& x : b) x = r.byte(); return b; }

// Every request up to this number fails in turn; later ones are sampled.
inline u64& fault_dense() { static u64 d = 300; return d; }
// Runs `call` under the fault loop.
//  state_same(): deep check that the container is unchanged
//  returns the status of the last run and whether the effect took place.
template <class Call, class Same>
ZyanStatus fault_loop(MonAlloc* A, bool faults, Kind kind, bool persist, const char* name, Call call, Same same, bool& injected_but_done) {
    injected_but_done = false;
    if (!faults || !A) return call();
    for (u64 k = 0; k < 1000000; k += k < fault_dense() ? 1 : k / 3 + 1) {
        u64 f0 = A->failed;
        A->fail_at = (i64)(A->req + k); A->fail_persist = persist;
        u64 r0 = A->req;
        ZyanStatus st = call();
        u64 used = A->req - r0;
        A->fail_at = -1; A->fail_persist = false;
        if (A->failed == f0) { (void)used; return st; }
        COUNT("allocator failures injected");
        if (kind == Kind::Remove) {
            REQ(ZYAN_SUCCESS(st), "remove-failed", "%s only removes elements but failed with %s after a failing allocator request", name, st_name(st));
            injected_but_done = true; return st;
        }
        if (kind == Kind::Either && ZYAN_SUCCESS(st)) { injected_but_done = true; return st; }
        REQ(!ZYAN_SUCCESS(st), "failure-swallowed", "%s reported %s although allocator request %llu failed", name, st_name(st), (unsigned long long)k);
        REQ(st == INJECTED_STATUS, "failure-status", "%s reported %s instead of the allocator's failure %s", name, st_name(st), st_name(INJECTED_STATUS));
        same();
    }
    violation("fault-loop", "%s: more than 1000000 allocator requests", name);
}

static const ZyanStatus NO_ALT = 0x7FFFFFFFu;
// What all simulated containers share. `cap` is the capacity in elements of the underlying block.
struct SimBase {
    Opt o; Rng& r; MonAlloc* A; bool dyn = true; u64 growth = 2, thr = 4, cap = 0, fixed_cap = 0; bool persist = false, alive = false;
    bool lenient_cap = false;      // a multi-step operation: a failure may leave a larger capacity behind
    bool any_success = false;      // a constructor reported success by another status
    bool skip_heapwatch = false;   // the C library may use the heap on its own

    SimBase(const Opt& o_, Rng& r_, MonAlloc* a) : o(o_), r(r_), A(a) { nested::report(); }
    virtual ~SimBase() {}
    virtual u64 real_cap() = 0;
    virtual u64 msize() = 0;
    virtual u8* base() { return nullptr; }
    virtual bool single_block() { return true; }
    virtual void verify(const char* when) = 0;
    ZyanStatus fit(u64 need) { return (!dyn && need > cap) ? ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE : ZYAN_STATUS_SUCCESS; }
    CapExp grow(u64 need) { return cap_grow(need, cap, growth); }
    CapExp shrink(u64 sz) { return cap_shrink(sz, cap, growth, thr); }

    // one operation
    template <class Call, class Commit>
    bool op(const char* name, Kind kind, ZyanStatus expect, CapExp ce, Call call, Commit commit, ZyanStatus alt = NO_ALT) {
        u8* b = base();
        u64 calls0 = A ? A->calls() : 0, req0 = A ? A->req : 0; u64 cap0 = cap; bool inj = false;
        u64 heap0 = HeapWatch::count(), heap1 = heap0;
        ZyanStatus st = fault_loop(dyn ? A : nullptr, o.fault && expect == ZYAN_STATUS_SUCCESS, kind, persist, name,
            [&] { heap0 = HeapWatch::count(); ZyanStatus s = call(); heap1 = HeapWatch::count(); return s; }, [&] { verify_failed(name, cap0); }, inj);
        bool done = ZYAN_SUCCESS(st);
        if (alt != NO_ALT && st == alt) expect = st;
        if (any_success && done && ZYAN_SUCCESS(expect)) expect = st;
        if (o.content || o.cap || o.fault || expect == ZYAN_STATUS_SUCCESS)
            REQ(st == expect, "status", "%s returned %s, expected %s (size %zu, capacity %llu)", name, st_name(st), st_name(expect), (size_t)msize(), (unsigned long long)cap0);
        life_finish(done, name);
        if (done) commit();
        u64 k = real_cap();
        if (o.cap) {
            if (!done && lenient_cap && dyn) REQ(k >= cap0, "failed-capacity", "refused %s lowered the capacity", name);
            else if (!done) REQ(k == cap0 && (!A || A->calls() == calls0), "failed-capacity", "refused %s changed capacity %llu -> %llu or used the allocator", name, (unsigned long long)cap0, (unsigned long long)k);
            else switch (ce.k) {
            case CapExp::Same: REQ(k == cap0 && (!dyn || !A || A->calls() == calls0), "capacity-moved", "%s: no reallocation was due, but capacity %llu -> %llu, allocator calls %llu (new size %zu, growth %llu, threshold %llu)", name,
                (unsigned long long)cap0, (unsigned long long)k, (unsigned long long)(A ? A->calls() - calls0 : 0), (size_t)msize(), (unsigned long long)growth, (unsigned long long)thr);
                if (b && msize()) REQ(base() == b, "moved", "%s moved the data within the capacity", name);
                COUNT("operations within capacity"); break;
            case CapExp::Exact: REQ(k == ce.a, "capacity-formula", "%s: capacity %llu -> %llu, contract says %llu (new size %zu, growth %llu, threshold %llu)", name,
                (unsigned long long)cap0, (unsigned long long)k, (unsigned long long)ce.a, (size_t)msize(), (unsigned long long)growth, (unsigned long long)thr);
                if (k > cap0) COUNT("growths"); else COUNT("shrinks"); break;
            case CapExp::TwoOf: REQ(k == ce.a || k == ce.b, "capacity-formula", "%s: capacity %llu -> %llu, contract says %llu or %llu", name, (unsigned long long)cap0, (unsigned long long)k, (unsigned long long)ce.a, (unsigned long long)ce.b); break;
            case CapExp::AtLeast: REQ(k >= ce.a, "capacity-low", "%s: capacity %llu -> %llu, at least %llu needed", name, (unsigned long long)cap0, (unsigned long long)k, (unsigned long long)ce.a); break;
            case CapExp::Any: break; }
        }
        if (o.alloc && !dyn && !skip_heapwatch) {
            REQ(heap0 == heap1, "fixed-heap", "%s on a fixed buffer used the heap", name);
            if (A) REQ(A->req == req0, "fixed-alloc", "%s on a fixed buffer called an allocator", name);
            COUNT("fixed-buffer operations watched");
        }
        if (inj && done && kind == Kind::Remove && o.fault) REQ(k == cap0, "failed-shrink-capacity", "%s: shrinking failed but capacity %llu -> %llu", name, (unsigned long long)cap0, (unsigned long long)k);
        cap = k;
        verify(name);
        return done;
    }
    void verify_failed(const char* name, u64 cap0) {
        char w[64]; snprintf(w, sizeof w, "failed %s", name);
        verify(w);
        if (lenient_cap) { REQ(real_cap() >= cap0, "failed-capacity", "failed %s lowered the capacity", name); COUNT("states verified after an injected failure"); return; }
        REQ(real_cap() == cap0, "failed-capacity", "failed %s changed the capacity %llu -> %llu", name, (unsigned long long)cap0, (unsigned long long)real_cap());
        if (o.fault && dyn && single_block()) REQ(A->live.size() == 1 && A->live.begin()->second.n == cap0, "failed-block", "failed %s: capacity %llu but owned block has %llu elements", name, (unsigned long long)cap0, (unsigned long long)A->live.begin()->second.n);
        COUNT("states verified after an injected failure");
    }

};
