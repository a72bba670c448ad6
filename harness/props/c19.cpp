// C19: thread-local slots and thread identity. Scripts command a crew of threads one step at a time and compare every read
// with a per-thread shadow; destructor calls at thread exit are judged against the shadow. Concurrent runs repeat this with
// free-running threads (thread sanitizer). Identity is judged among simultaneously alive threads, also with stacks whose
// addresses differ in one single bit. Platform failures are injected with --wrap.
#include "zy.hpp"
#include "crew.hpp"
#include <Zycore/API/Thread.h>
#include <array>
#include <set>
#include <thread>
#include <atomic>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>

// Destructor targets: every stored value with a destructor is the address of one of these.
struct Rec { u64 magic = 0x52454331; std::atomic<u32> calls{0}; pthread_t by; u32 dtor = 0; };
static std::atomic<u32> g_bad{0}, g_nullcalls{0}, g_calls{0};
template <u32 N> static void dtor(void* p) {
    g_calls.fetch_add(1);
    if (!p) { g_nullcalls.fetch_add(1); return; }
    Rec* r = (Rec*)p; if (r->magic != 0x52454331) { g_bad.fetch_add(1); return; }
    r->by = pthread_self(); r->dtor = N; r->calls.fetch_add(1);
}
static const ZyanThreadTlsCallback DT[] = { nullptr, dtor<1>, dtor<2>, dtor<3> };
ZYAN_THREAD_DECLARE_TLS_CALLBACK(declared_callback, Rec, record) { dtor<4>(record); }

#ifdef VH_FAULTS
static int f_which = 0, f_err = 0; static u32 f_hit = 0;
extern "C" {
int __real_pthread_key_create(pthread_key_t*, void (*)(void*)); int __real_pthread_key_delete(pthread_key_t); int __real_pthread_setspecific(pthread_key_t, const void*);
int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { if (f_which == 1) { ++f_hit; return f_err; } return __real_pthread_key_create(k, d); }
int __wrap_pthread_key_delete(pthread_key_t k) { if (f_which == 2) { ++f_hit; return f_err; } return __real_pthread_key_delete(k); }
int __wrap_pthread_setspecific(pthread_key_t k, const void* p) { if (f_which == 3) { ++f_hit; return f_err; } return __real_pthread_setspecific(k, p); }
}
bool prop_case(u64 idx, Rng& r) {
    static const int errs[] = { EAGAIN, ENOMEM, EINVAL, EPERM, ENOSYS };
    int which = 1 + (int)(idx % 3), err = errs[(idx / 3) % 5]; trace("fault %d error %d", which, err);
    ZyanThreadTlsIndex i; ZyanStatus st; f_hit = 0;
    if (which == 1) { f_which = 1; f_err = err; st = ZyanThreadTlsAlloc(&i, DT[r.below(4)]); f_which = 0;
        if (f_hit) { COUNT("platform failures injected"); REQ(ZYAN_FAILED(st), "fault-lost", "allocating a slot reports %s although the platform call failed with %d", st_name(st), err);
            if (err == EAGAIN) REQ(st == ZYAN_STATUS_OUT_OF_RESOURCES, "fault-class", "slot exhaustion reports %s", st_name(st));
            if (err == ENOMEM) REQ(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "fault-class", "missing memory reports %s", st_name(st)); } }
    st = ZyanThreadTlsAlloc(&i, nullptr); REQ(st == ZYAN_STATUS_SUCCESS, "tls-alloc", "allocating a slot reports %s", st_name(st));
    void* v = (void*)r.next(), *g = nullptr; st = ZyanThreadTlsSetValue(i, v); REQ(st == ZYAN_STATUS_SUCCESS, "tls-set", "storing reports %s", st_name(st));
    if (which == 3) { f_which = 3; f_err = err; st = ZyanThreadTlsSetValue(i, (void*)r.next()); f_which = 0;
        if (f_hit) { COUNT("platform failures injected"); REQ(ZYAN_FAILED(st), "fault-lost", "storing reports %s although the platform call failed with %d", st_name(st), err);
            if (err == EINVAL) REQ(st == ZYAN_STATUS_INVALID_ARGUMENT, "fault-class", "invalid slot reports %s", st_name(st)); }
        else v = nullptr; }
    if (v) { st = ZyanThreadTlsGetValue(i, &g); REQ(st == ZYAN_STATUS_SUCCESS && g == v, "tls-value", "read %p instead of %p after an injected fault", g, v); }
    if (which == 2) { f_which = 2; f_err = err; st = ZyanThreadTlsFree(i); f_which = 0;
        if (f_hit) { COUNT("platform failures injected"); REQ(ZYAN_FAILED(st), "fault-lost", "freeing a slot reports %s although the platform call failed with %d", st_name(st), err); } }
    st = ZyanThreadTlsFree(i); REQ(st == ZYAN_STATUS_SUCCESS || (which == 2 && !f_hit), "tls-free", "freeing a slot reports %s", st_name(st));
    return true;
}
#else
struct Slot { ZyanThreadTlsIndex i; u32 d; std::vector<void*> val; bool live; };
static std::vector<std::unique_ptr<Rec>> g_recs;
static Rec* new_rec() { g_recs.emplace_back(new Rec()); return g_recs.back().get(); }
static void* new_value(Rng& r, u32 d) {
    if (r.chance(1, 6)) return nullptr;
    if (d) return new_rec();
    switch (r.below(4)) { case 0: return (void*)~(uintptr_t)0; case 1: return (void*)(uintptr_t)r.range(1, 8); case 2: return (void*)(uintptr_t)(1ull << r.below(64)); default: return (void*)(uintptr_t)r.next(); }
}
static void script(Rng& r) {
    g_recs.clear(); g_calls = 0; g_nullcalls = 0; g_bad = 0; u32 expect_calls = 0;
    Crew crew((u32)r.range(1, 4)); std::vector<std::unique_ptr<Slot>> slots; int steps = (int)r.range(20, 160);
    u32 max_threads = 7; trace("script threads %zu steps %d", crew.w.size(), steps);
    std::vector<ZyanThreadId> ids; std::vector<bool> has_id;
    auto live_thread = [&]() -> int { std::vector<u32> v; for (u32 i = 0; i < crew.w.size(); ++i) if (crew.alive(i)) v.push_back(i); return v.empty() ? -1 : (int)v[r.below(v.size())]; };
    auto live_slot = [&]() -> Slot* { std::vector<Slot*> v; for (auto& s : slots) if (s->live) v.push_back(s.get()); return v.empty() ? nullptr : v[r.below(v.size())]; };
    auto val = [&](Slot* s, u32 t) -> void*& { if (s->val.size() <= t) s->val.resize(t + 1, nullptr); return s->val[t]; };
    auto end_thread = [&](u32 t) {
        pthread_t who = crew.w[t]->th.native_handle(); u32 before = g_calls; crew.end(t); u32 want = 0;
        for (auto& s : slots) { void* v = val(s.get(), t); if (!v || !s->d) continue; Rec* q = (Rec*)v;
            if (s->live) { ++want; REQ(q->calls == 1, "tls-destructor", "value of a live slot: destructor called %u times at thread exit", q->calls.load());
                REQ(q->by == who, "tls-destructor", "destructor called in a different thread"); REQ(q->dtor == s->d, "tls-destructor", "destructor %u called instead of %u", q->dtor, s->d); }
            else REQ(q->calls == 0, "tls-destructor", "destructor called for a freed slot"); }
        expect_calls += want;
        REQ(g_nullcalls == 0, "tls-destructor", "destructor called for a null value"); REQ(g_bad == 0, "tls-destructor", "destructor called with something that was never stored");
        REQ(g_calls - before == want, "tls-destructor", "%u destructor calls at thread exit instead of %u", g_calls - before, want);
        COUNTN("destructor calls judged", want); COUNT("thread exits");
        for (auto& s : slots) if (s->val.size() > t) s->val[t] = nullptr; };
    for (int k = 0; k < steps; ++k) {
        int t = live_thread(); u32 op = (u32)r.below(20);
        if (t < 0 || (op == 0 && crew.w.size() < max_threads)) { u32 n = crew.add(); trace("new thread %u", n);
            for (auto& s : slots) if (s->live) { void* g = (void*)1; crew.run(n, [&] { ZyanThreadTlsGetValue(s->i, &g); }); REQ(g == nullptr, "tls-fresh", "a new thread reads %p from a slot it never wrote", g); COUNT("reads of unwritten slots"); }
            continue; }
        if (op == 1) { trace("thread %d ends", t); end_thread((u32)t); continue; }
        if (op < 5 || slots.empty()) {                      // allocate
            std::unique_ptr<Slot> s(new Slot()); s->live = true; s->d = (u32)r.below(5); ZyanStatus st = 0;
            ZyanThreadTlsCallback cb = s->d == 4 ? (ZyanThreadTlsCallback)declared_callback : DT[s->d];
            crew.run((u32)t, [&] { st = ZyanThreadTlsAlloc(&s->i, cb); }); trace("T%d alloc dtor %u -> %s", t, s->d, st_name(st));
            REQ(st == ZYAN_STATUS_SUCCESS, "tls-alloc", "allocating a slot reports %s with %zu slots in use", st_name(st), slots.size());
            for (auto& o : slots) REQ(!o->live || o->i != s->i, "tls-alloc", "slot %u handed out twice", (u32)s->i);
            for (u32 q = 0; q < crew.w.size(); ++q) if (crew.alive(q)) { void* g = (void*)1; ZyanStatus s2 = 0; crew.run(q, [&] { s2 = ZyanThreadTlsGetValue(s->i, &g); });
                REQ(s2 == ZYAN_STATUS_SUCCESS && g == nullptr, "tls-fresh", "a new slot reads %p in thread %u", g, q); COUNT("reads of unwritten slots"); }
            slots.push_back(std::move(s)); continue; }
        Slot* s = live_slot(); if (!s) continue;
        if (op < 11) { void* v = new_value(r, s->d); ZyanStatus st = 0; crew.run((u32)t, [&] { st = ZyanThreadTlsSetValue(s->i, v); });
            trace("T%d set slot %u %s", t, (u32)s->i, v ? "value" : "null"); REQ(st == ZYAN_STATUS_SUCCESS, "tls-set", "storing reports %s", st_name(st)); val(s, (u32)t) = v; COUNT("values stored"); }
        else if (op < 18) {                                  // every live thread reads every live slot
            for (auto& q : slots) if (q->live) for (u32 x = 0; x < crew.w.size(); ++x) if (crew.alive(x)) { void* g = (void*)1; ZyanStatus st = 0; crew.run(x, [&] { st = ZyanThreadTlsGetValue(q->i, &g); });
                REQ(st == ZYAN_STATUS_SUCCESS, "tls-get", "reading reports %s", st_name(st)); REQ(g == val(q.get(), x), "tls-value", "thread %u reads %p from slot %u instead of %p", x, g, (u32)q->i, val(q.get(), x)); COUNT("values read"); }
            std::vector<ZyanThreadId> now; std::vector<u32> who;
            for (u32 x = 0; x < crew.w.size(); ++x) if (crew.alive(x)) { ZyanThreadId id = 0; ZyanThread h; ZyanStatus a = 0, b = 0; bool self = false;
                crew.run(x, [&] { a = ZyanThreadGetCurrentThreadId(&id); b = ZyanThreadGetCurrentThread(&h); self = pthread_equal(h, pthread_self()); });
                REQ(a == ZYAN_STATUS_SUCCESS && b == ZYAN_STATUS_SUCCESS, "thread-id", "identity queries report %s/%s", st_name(a), st_name(b));
                REQ(self && pthread_equal(h, crew.w[x]->th.native_handle()), "thread-handle", "the current-thread handle denotes another thread");
                for (size_t y = 0; y < now.size(); ++y) REQ(now[y] != id, "thread-id", "threads %u and %u have the same id %llx", who[y], x, (unsigned long long)id);
                if (ids.size() <= x) { ids.resize(x + 1); has_id.resize(x + 1); }
                if (has_id[x]) REQ(ids[x] == id, "thread-id", "id of a thread changed from %llx to %llx", (unsigned long long)ids[x], (unsigned long long)id);
                ids[x] = id; has_id[x] = true; now.push_back(id); who.push_back(x); COUNT("identities compared"); } }
        else { ZyanStatus st = 0; crew.run((u32)t, [&] { st = ZyanThreadTlsFree(s->i); }); trace("T%d free slot %u", t, (u32)s->i); REQ(st == ZYAN_STATUS_SUCCESS, "tls-free", "freeing a slot reports %s", st_name(st));
            REQ(g_calls == expect_calls, "tls-destructor", "freeing a slot called a destructor"); s->live = false; COUNT("slots freed"); }
    }
    for (u32 t = 0; t < crew.w.size(); ++t) if (crew.alive(t)) end_thread(t);
    for (auto& s : slots) if (s->live) REQ(ZyanThreadTlsFree(s->i) == ZYAN_STATUS_SUCCESS, "tls-free", "freeing a slot failed");
    REQ(g_calls == expect_calls, "tls-destructor", "%u destructor calls instead of %u", g_calls.load(), expect_calls);
}
// Take all slots the platform has, check independence, free some, take them again.
static void exhaust(Rng& r) {
    std::vector<ZyanThreadTlsIndex> v; ZyanStatus st; trace("exhaust");
    for (;;) { ZyanThreadTlsIndex i; st = ZyanThreadTlsAlloc(&i, nullptr); if (st != ZYAN_STATUS_SUCCESS) break; v.push_back(i); if (v.size() > 100000) return; }
    REQ(st == ZYAN_STATUS_OUT_OF_RESOURCES, "tls-exhausted", "slot exhaustion (%zu slots) reports %s", v.size(), st_name(st));
    REQ(v.size() >= 64, "tls-exhausted", "only %zu slots available", v.size());
    std::vector<void*> val(v.size(), nullptr);
    auto verify = [&] { for (size_t k = 0; k < v.size(); ++k) { void* g = (void*)1; st = ZyanThreadTlsGetValue(v[k], &g); REQ(st == ZYAN_STATUS_SUCCESS && g == val[k], "tls-value", "slot %u reads %p instead of %p", (u32)v[k], g, val[k]); COUNT("values read"); } };
    verify();
    for (size_t k = 0; k < v.size(); ++k) { val[k] = (void*)(uintptr_t)r.next(); REQ(ZyanThreadTlsSetValue(v[k], val[k]) == ZYAN_STATUS_SUCCESS, "tls-set", "storing failed"); }
    verify();
    std::thread([&] { for (size_t k = 0; k < v.size(); ++k) { void* g = (void*)1; ZyanThreadTlsGetValue(v[k], &g); REQ(!g, "tls-fresh", "a new thread reads %p from slot %u", g, (u32)v[k]); ZyanThreadTlsSetValue(v[k], (void*)(k + 1)); } }).join();
    verify();
    auto churn = [&](std::vector<void*>& mine, Rng& q) {                       // overwrite with other values and with null
        for (int round = 0; round < 2; ++round) {
            for (size_t k = 0; k < v.size(); ++k) if (q.chance(1, 2)) { void* x = q.chance(1, 2) ? nullptr : (void*)(uintptr_t)q.next(); ZyanStatus s2 = ZyanThreadTlsSetValue(v[k], x); if (s2 != ZYAN_STATUS_SUCCESS) return (size_t)k + 1; mine[k] = x; }
            for (size_t k = 0; k < v.size(); ++k) { void* g = (void*)1; ZyanStatus s2 = ZyanThreadTlsGetValue(v[k], &g); if (s2 != ZYAN_STATUS_SUCCESS || g != mine[k]) return (size_t)k + 1; } }
        return (size_t)0; };
    std::atomic<size_t> wrong{0}; std::vector<std::thread> ths; std::vector<u64> seeds{r.next(), r.next(), r.next()};
    for (u64 sd : seeds) ths.emplace_back([&, sd] { std::vector<void*> mine(v.size(), nullptr); Rng q(sd); size_t w = churn(mine, q); if (w) wrong = w; });
    size_t w0 = churn(val, r); for (auto& t : ths) t.join();
    REQ(!w0 && !wrong, "tls-value", "slot %u of %zu does not deliver the value stored last", (u32)v[(w0 ? w0 : wrong.load()) - 1], v.size());
    COUNTN("values read", v.size() * 8); verify();
    u32 n = (u32)r.range(1, 40); std::vector<size_t> freed;
    for (u32 k = 0; k < n; ++k) { size_t j = r.below(v.size()); if (std::find(freed.begin(), freed.end(), j) != freed.end()) continue; REQ(ZyanThreadTlsFree(v[j]) == ZYAN_STATUS_SUCCESS, "tls-free", "freeing failed"); freed.push_back(j); }
    for (size_t j : freed) { st = ZyanThreadTlsAlloc(&v[j], nullptr); REQ(st == ZYAN_STATUS_SUCCESS, "tls-reuse", "a freed slot cannot be used again: %s", st_name(st)); val[j] = nullptr; }
    verify();
    for (auto i : v) REQ(ZyanThreadTlsFree(i) == ZYAN_STATUS_SUCCESS, "tls-free", "freeing failed");
    COUNT("exhaustions");
}
// Free-running threads with own and shared slots.
static void concurrent(Rng& r) {
    u32 nt = (u32)r.range(2, 6), per = (u32)r.range(20, 120); trace("concurrent threads %u x %u", nt, per);
    g_calls = 0; g_nullcalls = 0; g_bad = 0; std::atomic<u32> bad{0}, go{0}; std::atomic<u64> expected{0};
    ZyanThreadTlsIndex shared[3]; for (u32 i = 0; i < 3; ++i) REQ(ZyanThreadTlsAlloc(&shared[i], i ? DT[i] : nullptr) == ZYAN_STATUS_SUCCESS, "tls-alloc", "allocation failed");
    std::vector<u64> seed(nt); for (auto& s : seed) s = r.next(); std::vector<ZyanThreadId> id(nt); std::vector<std::vector<std::unique_ptr<Rec>>> recs(nt);
    std::vector<std::array<Rec*, 3>> last(nt); std::vector<std::thread> th; std::atomic<u32> up{0};
    for (u32 t = 0; t < nt; ++t) th.emplace_back([&, t] {
        Rng q(seed[t]); go.fetch_add(1); while (go.load() < nt) sched_yield();
        std::array<void*, 3> mine{}; last[t].fill(nullptr); ZyanThreadGetCurrentThreadId(&id[t]);
        std::vector<std::pair<ZyanThreadTlsIndex, void*>> own;
        for (u32 i = 0; i < per; ++i) {
            u32 k = (u32)q.below(3); void* g = (void*)1;
            if (q.chance(1, 2)) { void* v = nullptr; if (q.chance(4, 5)) { if (k) { recs[t].emplace_back(new Rec()); v = recs[t].back().get(); } else v = (void*)(uintptr_t)q.next(); }
                if (ZyanThreadTlsSetValue(shared[k], v) != ZYAN_STATUS_SUCCESS) bad.fetch_or(1); mine[k] = v; }
            for (u32 j = 0; j < 3; ++j) { g = (void*)1; if (ZyanThreadTlsGetValue(shared[j], &g) != ZYAN_STATUS_SUCCESS || g != mine[j]) bad.fetch_or(2); }
            if (q.chance(1, 4)) { ZyanThreadTlsIndex x; if (ZyanThreadTlsAlloc(&x, nullptr) != ZYAN_STATUS_SUCCESS) bad.fetch_or(4); else { g = (void*)1; ZyanThreadTlsGetValue(x, &g); if (g) bad.fetch_or(8); void* v = (void*)(uintptr_t)q.next(); ZyanThreadTlsSetValue(x, v); own.push_back({x, v}); } }
            for (auto& o : own) { g = (void*)1; ZyanThreadTlsGetValue(o.first, &g); if (g != o.second) bad.fetch_or(16); }
            if (!own.empty() && q.chance(1, 4)) { if (ZyanThreadTlsFree(own.back().first) != ZYAN_STATUS_SUCCESS) bad.fetch_or(32); own.pop_back(); }
            ZyanThreadId again = 0; ZyanThreadGetCurrentThreadId(&again); if (again != id[t]) bad.fetch_or(64);
        }
        for (auto& o : own) if (ZyanThreadTlsFree(o.first) != ZYAN_STATUS_SUCCESS) bad.fetch_or(32);
        for (u32 k = 1; k < 3; ++k) { last[t][k] = (Rec*)mine[k]; if (mine[k]) expected.fetch_add(1); }
        up.fetch_add(1); while (up.load() < nt) sched_yield();     // all alive at the same time: ids must differ
    });
    for (auto& t : th) t.join();
    u32 b = bad.load(); REQ(!b, b & (2 | 16) ? "tls-value" : b & 8 ? "tls-fresh" : b & 64 ? "thread-id" : "tls-status", "concurrent use of slots: deviation mask %u", b);
    for (u32 i = 0; i < nt; ++i) for (u32 j = 0; j < i; ++j) REQ(id[i] != id[j], "thread-id", "two live threads have the same id %llx", (unsigned long long)id[i]);
    REQ(!g_nullcalls.load() && !g_bad.load(), "tls-destructor", "destructor called for null or foreign values");
    REQ(g_calls.load() == expected.load(), "tls-destructor", "%u destructor calls instead of %llu", g_calls.load(), (unsigned long long)expected.load());
    for (u32 t = 0; t < nt; ++t) for (auto& q : recs[t]) { bool isl = q.get() == last[t][1] || q.get() == last[t][2]; REQ(q->calls.load() == (isl ? 1u : 0u), "tls-destructor", "destructor called %u times for a %s value", q->calls.load(), isl ? "final" : "replaced"); }
    for (auto i : shared) REQ(ZyanThreadTlsFree(i) == ZYAN_STATUS_SUCCESS, "tls-free", "freeing failed");
    COUNT("concurrent runs"); COUNTN("destructor calls judged", expected.load());
}
#ifndef VH_TSAN
// Threads on stacks whose addresses differ in exactly one bit.
struct IdJob { ZyanThreadId id; ZyanThread h; std::atomic<u32>* up; u32 n; bool self; };
static void* id_main(void* p) { IdJob* j = (IdJob*)p; ZyanThreadGetCurrentThreadId(&j->id); ZyanThreadGetCurrentThread(&j->h); j->self = pthread_equal(j->h, pthread_self());
    j->up->fetch_add(1); while (j->up->load() < j->n) sched_yield(); ZyanThreadId again; ZyanThreadGetCurrentThreadId(&again); if (again != j->id) j->self = false; return nullptr; }
static void onebit(Rng& r) {
    const size_t SZ = 1 << 19; u64 base = 0x100000000000ull + (r.below(0x1000) << 30);
    std::vector<u8*> stk; auto map = [&](u64 a) { void* p = mmap((void*)a, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (p != MAP_FAILED && p != (void*)a) { munmap(p, SZ); p = MAP_FAILED; } return p == MAP_FAILED ? nullptr : (u8*)p; };
    u8* b = map(base); if (!b) return; stk.push_back(b);
    u32 want = (u32)r.range(2, 10); trace("one-bit stacks base %llx n %u", (unsigned long long)base, want); std::vector<u32> bits; for (u32 k = 0; k < want; ++k) { u32 bit = (u32)r.range(19, 43); if (std::find(bits.begin(), bits.end(), bit) != bits.end()) continue; bits.push_back(bit); u8* p = map(base ^ (1ull << bit)); if (p) stk.push_back(p); }
    u32 n = (u32)stk.size(); std::atomic<u32> up{0}; std::vector<IdJob> job(n); std::vector<pthread_t> th(n); u32 started = 0;
    for (u32 i = 0; i < n; ++i) job[i].n = n, job[i].up = &up;
    for (u32 i = 0; i < n; ++i) { pthread_attr_t a; pthread_attr_init(&a); if (pthread_attr_setstack(&a, stk[i], SZ)) harness_error("setstack"); if (pthread_create(&th[i], &a, id_main, &job[i])) harness_error("pthread_create"); ++started; pthread_attr_destroy(&a); }
    for (u32 i = 0; i < n; ++i) pthread_join(th[i], nullptr);
    for (u32 i = 0; i < n; ++i) { REQ(job[i].self, "thread-handle", "handle or id of a thread is not stable"); for (u32 j = 0; j < i; ++j) REQ(job[i].id != job[j].id, "thread-id", "threads with stacks at %p and %p have the same id %llx", (void*)stk[i], (void*)stk[j], (unsigned long long)job[i].id); }
    for (u8* p : stk) munmap(p, SZ);
    COUNTN("one-bit identity pairs", n * (n - 1) / 2); g_trace_hash = mix64(g_trace_hash, base);
}
#endif
// Some threads live on while thousands come and go: nobody ever has the identity of one of them, their values stay, and every
// leaving thread's value is destroyed once.
struct Anchor { std::thread th; ZyanThreadId id = 0; bool ok = true; };
static void crowd(Rng& r, u32 burn) {
    const u32 N1 = (u32)r.range(40, 120), N2 = (u32)r.range(40, 300); trace("%u threads, %u short-lived ones, %u more threads", N1, burn, N2);
    static ZyanThreadTlsIndex slot; static std::atomic<u32> destroyed; destroyed = 0; std::atomic<u32> up{0}, bad{0}; std::atomic<bool> go{false};
    REQ(ZyanThreadTlsAlloc(&slot, [](void* p) { if (p) destroyed.fetch_add(1); }) == ZYAN_STATUS_SUCCESS, "tls-alloc", "no slot");
    std::vector<Anchor> a(N1 + N2); std::set<u64> ids;
    auto anchor = [&](u32 i) { Anchor* x = &a[i]; x->th = std::thread([&, x] { void* g = (void*)1; if (ZyanThreadGetCurrentThreadId(&x->id) != ZYAN_STATUS_SUCCESS) x->ok = false; if (ZyanThreadTlsGetValue(slot, &g) != ZYAN_STATUS_SUCCESS || g) x->ok = false; if (ZyanThreadTlsSetValue(slot, x) != ZYAN_STATUS_SUCCESS) x->ok = false;
        up.fetch_add(1); while (!go) { timespec t = { 0, 3000000 }; nanosleep(&t, nullptr); }
        ZyanThreadId again = 0; ZyanThreadGetCurrentThreadId(&again); ZyanThreadTlsGetValue(slot, &g); if (again != x->id || g != x) x->ok = false; }); };
    for (u32 i = 0; i < N1; ++i) anchor(i); while (up < N1) sched_yield(); for (u32 i = 0; i < N1; ++i) { REQ(ids.insert((u64)a[i].id).second, "thread-id", "two of %u live threads have the same id %llx", N1, (unsigned long long)a[i].id); }
    std::vector<std::thread> h; std::atomic<u32> todo{burn};
    for (int k = 0; k < 6; ++k) h.emplace_back([&] { for (;;) { u32 t = todo.load(); if (!t) break; if (!todo.compare_exchange_weak(t, t - 1)) continue;
        std::thread x([&] { ZyanThreadId id = 0; void* g = (void*)1; if (ZyanThreadGetCurrentThreadId(&id) != ZYAN_STATUS_SUCCESS || ids.count((u64)id)) bad.fetch_or(1); if (ZyanThreadTlsGetValue(slot, &g) != ZYAN_STATUS_SUCCESS || g) bad.fetch_or(2); if (ZyanThreadTlsSetValue(slot, &bad) != ZYAN_STATUS_SUCCESS) bad.fetch_or(4); }); x.join(); } });
    while (todo) { timespec t = { 0, 20000000 }; nanosleep(&t, nullptr); g_tr->ops = g_tr->ops + 1; } for (auto& x : h) x.join();
    REQ(!(bad & 1), "thread-id", "a new thread has the id of a thread that is still alive"); REQ(!(bad & 2), "tls-fresh", "the slot of a new thread does not read as null"); REQ(!bad, "tls-set", "storing failed"); REQ(destroyed == burn, "tls-destructor", "%u threads with a value ended, %u values were destroyed", burn, destroyed.load());
    for (u32 i = N1; i < N1 + N2; ++i) anchor(i); while (up < N1 + N2) sched_yield();
    for (u32 i = N1; i < N1 + N2; ++i) REQ(ids.insert((u64)a[i].id).second, "thread-id", "after %u short-lived threads two live threads have the same id %llx", burn, (unsigned long long)a[i].id);
    go = true; for (auto& x : a) x.th.join(); for (auto& x : a) REQ(x.ok, "thread-id", "id or value of a thread changed during its life"); REQ(destroyed == burn + N1 + N2, "tls-destructor", "%u threads with a value ended, %u values were destroyed", burn + N1 + N2, destroyed.load());
    REQ(ZyanThreadTlsFree(slot) == ZYAN_STATUS_SUCCESS, "tls-free", "freeing the slot failed"); COUNTN("short-lived threads", burn); ctr("max:live threads compared") = std::max<u64>(ctr("max:live threads compared"), N1 + N2); COUNTN("identities compared", N1 + N2);
}
bool prop_case(u64 idx, Rng& r) {
#ifdef VH_CROWD
    static const u32 B[] = { 300, 4000, 28000, 1000, 9000, 70000, 140000 }; crowd(r, B[idx % 7] + (u32)r.below(200)); return true;
#endif
    if (idx % 50 == 7) { exhaust(r); return true; }
    switch (r.below(4)) { case 0: case 1: script(r); break; case 2: concurrent(r); break;
    default:
#ifdef VH_TSAN
        concurrent(r);
#else
        onebit(r);
#endif
    } return true;
}
#endif
void prop_begin() {} void prop_end() {}
