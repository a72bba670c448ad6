// C18: critical sections. Modes: deterministic nesting/misuse scripts over several threads, stress with recorded history
// (ownership intervals judged offline), plain-data protection (thread sanitizer), platform faults (linked with --wrap).
#include "zy.hpp"
#include "crew.hpp"
#include <Zycore/API/Synchronization.h>
#include <atomic>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <time.h>
static double now_s() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

struct Sect {                                  // exact-size heap storage with garbage inside
    ZyanCriticalSection* p;
    explicit Sect(u8 g) { p = (ZyanCriticalSection*)malloc(sizeof *p); memset((void*)p, g, sizeof *p); }
    Sect(const Sect&) = delete; ~Sect() { free(p); }
};

#ifdef VH_FAULTS
// ---- injected platform faults ----------------------------------------------------------------------------------
static int f_which = 0, f_err = 0; static u32 f_hit = 0;   // 1 attr_init 2 init 3 lock 4 trylock 5 unlock 6 destroy
static i64 live_attr = 0, live_mutex = 0;
extern "C" {
#define FAULT(k) if (f_which == k) { ++f_hit; return f_err; }
int __real_pthread_mutexattr_init(pthread_mutexattr_t*); int __real_pthread_mutexattr_destroy(pthread_mutexattr_t*);
int __real_pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); int __real_pthread_mutex_destroy(pthread_mutex_t*);
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutexattr_init(pthread_mutexattr_t* a) { FAULT(1) ++live_attr; return __real_pthread_mutexattr_init(a); }
int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t* a) { --live_attr; return __real_pthread_mutexattr_destroy(a); }
int __wrap_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { FAULT(2) ++live_mutex; return __real_pthread_mutex_init(m, a); }
int __wrap_pthread_mutex_destroy(pthread_mutex_t* m) { FAULT(6) int r = __real_pthread_mutex_destroy(m); if (!r) --live_mutex; return r; }
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { FAULT(3) return __real_pthread_mutex_lock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { FAULT(4) return __real_pthread_mutex_trylock(m); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { FAULT(5) return __real_pthread_mutex_unlock(m); }
}
bool prop_case(u64 idx, Rng& r) {
    static const int errs[] = { EAGAIN, ENOMEM, EPERM, EBUSY, EINVAL, EDEADLK, ENOSYS, EIO };
    int which = 1 + (int)(idx % 6), err = errs[(idx / 6) % 8], depth = (int)((idx / 48) % 4);
    Sect s(r.byte()); ZyanStatus st; live_attr = live_mutex = 0;
    trace("fault in call %d error %d depth %d", which, err, depth);
    auto arm = [&] { f_which = which; f_err = err; f_hit = 0; }; auto disarm = [&] { f_which = 0; };
    auto judge = [&](const char* what) {
        if (!f_hit) return false;                     // this primitive is not used here
        COUNT("platform failures injected");
        REQ(ZYAN_FAILED(st), "fault-lost", "%s reports %s although the platform call failed with error %d", what, st_name(st), err);
        return true; };
    if (which <= 2) {
        arm(); st = ZyanCriticalSectionInitialize(s.p); disarm();
        if (judge("initialization")) {
            if (err == ENOMEM) REQ(st == ZYAN_STATUS_NOT_ENOUGH_MEMORY, "fault-class", "initialization without memory reports %s", st_name(st));
            if (err == EAGAIN && which == 2) REQ(st == ZYAN_STATUS_OUT_OF_RESOURCES, "fault-class", "initialization without resources reports %s", st_name(st));
            if (err == EPERM && which == 2) REQ(st == ZYAN_STATUS_ACCESS_DENIED, "fault-class", "initialization without permission reports %s", st_name(st));
            REQ(live_mutex == 0, "fault-leak", "a mutex stays behind after the failed initialization");
            if (live_attr) violation("fault-leak", "mutex attributes stay behind after the failed initialization");
        } else REQ(ZYAN_SUCCESS(st), "init", "initialization reports %s", st_name(st));
        // afterwards it works
        st = ZyanCriticalSectionInitialize(s.p); REQ(st == ZYAN_STATUS_SUCCESS, "init", "initialization reports %s", st_name(st));
    } else { st = ZyanCriticalSectionInitialize(s.p); REQ(st == ZYAN_STATUS_SUCCESS, "init", "initialization reports %s", st_name(st)); }
    for (int i = 0; i < depth; ++i) { st = ZyanCriticalSectionEnter(s.p); REQ(st == ZYAN_STATUS_SUCCESS, "enter", "entering reports %s", st_name(st)); }
    int d = depth;
    if (which == 3) { arm(); st = ZyanCriticalSectionEnter(s.p); disarm();
        if (!judge("entering")) ++d;
        else if (err == EINVAL) REQ(st == ZYAN_STATUS_INVALID_ARGUMENT, "fault-class", "entering reports %s for error EINVAL", st_name(st)); }
    if (which == 4) { arm(); ZyanBool b = ZyanCriticalSectionTryEnter(s.p); disarm();
        if (f_hit) { COUNT("platform failures injected"); REQ(!b, "fault-lost", "try-enter reports success although the platform call failed with error %d", err); } else if (b) ++d; }
    if (which == 5) { arm(); st = ZyanCriticalSectionLeave(s.p); disarm();
        if (judge("leaving")) { if (err == EPERM) REQ(st == ZYAN_STATUS_INVALID_OPERATION, "fault-class", "leaving without ownership reports %s", st_name(st)); }
        else if (ZYAN_SUCCESS(st)) --d; }
    if (which == 6) { arm(); st = ZyanCriticalSectionDelete(s.p); disarm();
        if (!judge("deleting")) { if (ZYAN_SUCCESS(st)) return true; }
        else if (err == EBUSY) REQ(st == ZYAN_STATUS_INVALID_ARGUMENT, "fault-class", "deleting an occupied section reports %s", st_name(st)); }
    while (d-- > 0) { st = ZyanCriticalSectionLeave(s.p); REQ(st == ZYAN_STATUS_SUCCESS, "leave", "leaving reports %s after an injected fault", st_name(st)); }
    st = ZyanCriticalSectionDelete(s.p); REQ(st == ZYAN_STATUS_SUCCESS, "delete", "deleting a free section reports %s", st_name(st));
    REQ(live_mutex <= 0 && live_attr <= 0, "fault-leak", "%lld mutex(es), %lld attribute object(s) stay behind", (long long)live_mutex, (long long)live_attr);
    return true;
}
#else
static Crew* crew; static const u32 NT = 4;

// Commands are issued one after another to the threads; the reference knows owner and depth of every section.
static void script(Rng& r, bool misuse) {
    u32 ns = (u32)r.range(1, 3), nt = (u32)r.range(1, NT); int steps = (int)r.range(10, 150);
    std::vector<std::unique_ptr<Sect>> s; std::vector<int> owner(ns, -1); std::vector<u32> depth(ns, 0); std::vector<bool> waiting(nt, false);
    std::vector<int> waits_for(nt, -1); std::vector<ZyanStatus> res(nt, 0);
    std::vector<u64> data(ns, 0), shadow(ns, 0);
    trace("script sections %u threads %u steps %d", ns, nt, steps);
    for (u32 i = 0; i < ns; ++i) { s.emplace_back(new Sect(r.byte())); ZyanStatus st = ZyanCriticalSectionInitialize(s[i]->p); REQ(st == ZYAN_STATUS_SUCCESS, "init", "initialization reports %s", st_name(st)); }
    auto touch = [&](u32 k) { ++shadow[k]; u64* d = &data[k]; ++*d; };
    for (int i = 0; i < steps; ++i) {
        u32 t = (u32)r.below(nt), k = (u32)r.below(ns); if (waiting[t]) continue;
        ZyanCriticalSection* c = s[k]->p; u32 op = (u32)r.below(10);
        bool mine = owner[k] == (int)t, freed = owner[k] < 0;
        if (op < 3) {                                        // enter
            if (freed || mine) {
                u32 times = r.chance(1, 40) ? (u32)r.range(100, 3000) : 1;
                crew->run(t, [&] { ZyanStatus st = 0; for (u32 q = 0; q < times; ++q) { st = ZyanCriticalSectionEnter(c); if (st != ZYAN_STATUS_SUCCESS) break; } res[t] = st; touch(k); });
                trace("T%u enter S%u x%u -> %s", t, k, times, st_name(res[t]));
                REQ(res[t] == ZYAN_STATUS_SUCCESS, "enter", "entering a %s section reports %s (depth %u)", mine ? "section owned by the caller" : "free", st_name(res[t]), depth[k]);
                owner[k] = (int)t; depth[k] += times; if (mine) COUNT("nested entries");
            } else {                                         // must block until the owner has left completely
                bool already = false; for (u32 q = 0; q < nt; ++q) if (waiting[q]) already = true;
                if (already) continue;
                bool owns_other = false; for (u32 q = 0; q < ns; ++q) if (owner[q] == (int)t) owns_other = true;
                if (owns_other) continue;                    // keep clear of deadlocks
                waiting[t] = true; waits_for[t] = (int)k;
                crew->start(t, [&, t, k, c] { res[t] = ZyanCriticalSectionEnter(c); touch(k); });
                for (int y = 0; y < 20; ++y) sched_yield();
                trace("T%u waits for S%u", t, k);
            }
        } else if (op < 5) {                                 // try-enter
            bool anyone_waiting = false; for (u32 q = 0; q < nt; ++q) if (waiting[q] && waits_for[q] == (int)k) anyone_waiting = true;
            ZyanBool b = ZYAN_FALSE; bool* bp = nullptr; (void)bp;
            crew->run(t, [&] { b = ZyanCriticalSectionTryEnter(c); if (b) touch(k); });
            trace("T%u try S%u -> %d", t, k, b);
            bool want = freed || mine; (void)anyone_waiting;
            REQ(!!b == want, "try-enter", "try-enter by thread %u on a section %s (depth %u) returned %d", t, mine ? "owned by the caller" : freed ? "that is free" : "owned by another thread", depth[k], b);
            REQ(b == ZYAN_TRUE || b == ZYAN_FALSE, "try-enter", "try-enter returned %d", b);
            if (b) { owner[k] = (int)t; ++depth[k]; COUNT("successful try-enters"); } else COUNT("refused try-enters");
        } else if (op < 9) {                                 // leave
            if (!mine && !misuse) continue;
            u32 times = mine && r.chance(1, 2) ? depth[k] : 1;
            crew->run(t, [&] { ZyanStatus st = 0; if (mine) touch(k); for (u32 q = 0; q < times; ++q) { st = ZyanCriticalSectionLeave(c); if (st != ZYAN_STATUS_SUCCESS) break; } res[t] = st; });
            trace("T%u leave S%u x%u -> %s", t, k, times, st_name(res[t]));
            if (!mine) { REQ(res[t] == ZYAN_STATUS_INVALID_OPERATION, "leave-foreign", "leaving a section %s reports %s", freed ? "that is free" : "owned by another thread", st_name(res[t])); COUNT("refused leaves"); }
            else {
                REQ(res[t] == ZYAN_STATUS_SUCCESS, "leave", "leaving an owned section reports %s (depth %u)", st_name(res[t]), depth[k]);
                depth[k] -= times;
                if (!depth[k]) { owner[k] = -1;
                    for (u32 q = 0; q < nt; ++q) if (waiting[q] && waits_for[q] == (int)k) {
                        crew->join(q); waiting[q] = false; REQ(res[q] == ZYAN_STATUS_SUCCESS, "enter", "entering after waiting reports %s", st_name(res[q]));
                        owner[k] = (int)q; depth[k] = 1; COUNT("blocked entries"); trace("T%u got S%u", q, k); break; } }
            }
        } else if (misuse) {                                 // delete
            bool waited = false; for (u32 q = 0; q < nt; ++q) if (waiting[q] && waits_for[q] == (int)k) waited = true;
            if (!freed) {
                ZyanStatus st = 0; crew->run(t, [&] { st = ZyanCriticalSectionDelete(c); }); trace("T%u delete S%u -> %s", t, k, st_name(st));
                REQ(st == ZYAN_STATUS_INVALID_ARGUMENT, "delete-occupied", "deleting an occupied section reports %s", st_name(st)); COUNT("refused deletions");
            } else if (!waited) {
                ZyanStatus st = 0, s2 = 0; crew->run(t, [&] { st = ZyanCriticalSectionDelete(c); memset((void*)c, 0x5C, sizeof *c); s2 = ZyanCriticalSectionInitialize(c); });
                REQ(st == ZYAN_STATUS_SUCCESS && s2 == ZYAN_STATUS_SUCCESS, "delete", "deleting/reinitializing a free section reports %s/%s", st_name(st), st_name(s2)); COUNT("deletions");
            }
        }
        // a blocked thread must still be blocked while its section is owned by somebody else
        for (u32 q = 0; q < nt; ++q) if (waiting[q] && crew->finished(q) && owner[waits_for[q]] != (int)q)
            violation("exclusion", "thread %u entered section %d while thread %d owned it (depth %u)", q, waits_for[q], owner[waits_for[q]], depth[waits_for[q]]);
        COUNT("script steps");
    }
    for (u32 k = 0; k < ns; ++k) {
        while (depth[k]) {
            u32 t = (u32)owner[k]; ZyanStatus st = 0; ZyanCriticalSection* c = s[k]->p; u32 d = depth[k];
            crew->run(t, [&] { for (u32 q = 0; q < d; ++q) { st = ZyanCriticalSectionLeave(c); if (st != ZYAN_STATUS_SUCCESS) break; } });
            REQ(st == ZYAN_STATUS_SUCCESS, "leave", "leaving an owned section reports %s", st_name(st)); depth[k] = 0; owner[k] = -1;
            for (u32 q = 0; q < nt; ++q) if (waiting[q] && waits_for[q] == (int)k) { crew->join(q); waiting[q] = false; owner[k] = (int)q; depth[k] = 1; break; } }
    }
    for (u32 k = 0; k < ns; ++k) {
        // free now: anybody can take it at once
        u32 t = (u32)r.below(nt); ZyanBool b = 0; ZyanStatus st = 0; ZyanCriticalSection* c = s[k]->p;
        crew->run(t, [&] { b = ZyanCriticalSectionTryEnter(c); if (b) st = ZyanCriticalSectionLeave(c); });
        REQ(b && st == ZYAN_STATUS_SUCCESS, "try-enter", "a section that was left as often as it was entered is not free");
        st = ZyanCriticalSectionDelete(c); REQ(st == ZYAN_STATUS_SUCCESS, "delete", "deleting a free section reports %s", st_name(st));
        REQ(data[k] == shadow[k], "visibility", "data protected by section %u: %llu of %llu updates", k, (unsigned long long)data[k], (unsigned long long)shadow[k]);
    }
}

static std::atomic<u64> g_clock; static inline void spin(u32 n) { for (volatile u32 i = 0; i < n; i = i + 1) { } }
struct Ev { u32 s; u8 kind; u64 t0, t1; };   // 0 owned interval (outermost enter .. final leave) 1 failed try
struct Own { u64 e0, e1, l0, l1; u32 thread; };
static void stress(Rng& r, bool timed) {
    u32 nt = (u32)r.range(2, NT), ns = (u32)r.range(1, 2), per = (u32)r.range(20, 200);
    static u64 data[2][4]; memset(data, 0, sizeof data);
    std::vector<std::unique_ptr<Sect>> s; for (u32 i = 0; i < ns; ++i) { s.emplace_back(new Sect(r.byte())); REQ(ZyanCriticalSectionInitialize(s[i]->p) == ZYAN_STATUS_SUCCESS, "init", "initialization failed"); }
    std::vector<u64> seed(nt); for (auto& x : seed) x = r.next();
    std::atomic<u32> bad{0}, go{0}; std::vector<std::vector<Own>> own(ns); std::vector<std::vector<std::vector<Own>>> town(nt, std::vector<std::vector<Own>>(ns)), tfail(nt, std::vector<std::vector<Own>>(ns));
    std::vector<std::vector<u64>> mine(nt, std::vector<u64>(ns, 0)); u32 style = (u32)r.below(3);
    trace("stress threads %u sections %u x %u timed %d", nt, ns, per, timed);
    auto tick = [&] { return timed ? g_clock.fetch_add(1) : 0; };
    auto body = [&](u32 t) {
        Rng q(seed[t]); go.fetch_add(1); while (go.load() < nt) sched_yield();
        for (u32 i = 0; i < per; ++i) {
            u32 k = (u32)q.below(ns); ZyanCriticalSection* c = s[k]->p; Own o; memset(&o, 0, sizeof o); o.thread = t;
            bool in = false;
            if (q.chance(style == 1 ? 3 : 1, 4)) { o.e0 = tick(); ZyanBool b = ZyanCriticalSectionTryEnter(c); o.e1 = tick(); in = b; if (!b) { tfail[t][k].push_back(o); if (style == 2) sched_yield(); } }
            else { o.e0 = tick(); ZyanStatus st = ZyanCriticalSectionEnter(c); o.e1 = tick(); if (st != ZYAN_STATUS_SUCCESS) bad.fetch_or(1); in = true; }
            if (!in) continue;
            u32 depth = 1; while (q.chance(1, 3) && depth < 5) {
                if (q.chance(1, 2)) { if (ZyanCriticalSectionEnter(c) != ZYAN_STATUS_SUCCESS) bad.fetch_or(2); } else if (!ZyanCriticalSectionTryEnter(c)) bad.fetch_or(4);
                ++depth; }
            u64* d = data[k]; if (d[0] != d[1]) bad.fetch_or(8); d[0]++; spin((u32)q.below(30)); while (depth > 1 && q.chance(1, 2)) { if (ZyanCriticalSectionLeave(c) != ZYAN_STATUS_SUCCESS) bad.fetch_or(16); --depth; spin((u32)q.below(10)); } d[1]++; ++mine[t][k];
            while (depth > 1) { if (ZyanCriticalSectionLeave(c) != ZYAN_STATUS_SUCCESS) bad.fetch_or(16); --depth; }
            if (d[0] != d[1]) bad.fetch_or(8);
            o.l0 = tick(); if (ZyanCriticalSectionLeave(c) != ZYAN_STATUS_SUCCESS) bad.fetch_or(16); o.l1 = tick();
            if (timed) town[t][k].push_back(o);
        } };
    std::vector<std::thread> th; for (u32 t = 0; t < nt; ++t) th.emplace_back(body, t); for (auto& t : th) t.join();
    u32 b = bad.load();
    REQ(!(b & 1), "enter", "entering failed under contention"); REQ(!(b & 2), "enter", "nested entering failed"); REQ(!(b & 4), "try-enter", "nested try-enter by the owner was refused");
    REQ(!(b & 16), "leave", "leaving an owned section failed"); REQ(!(b & 8), "exclusion", "two threads were inside the section at the same time (protected data torn)");
    u64 ho = 0;
    for (u32 k = 0; k < ns; ++k) {
        u64 want = 0; for (u32 t = 0; t < nt; ++t) want += mine[t][k];
        REQ(data[k][0] == want && data[k][1] == want, "visibility", "protected counter is %llu/%llu instead of %llu", (unsigned long long)data[k][0], (unsigned long long)data[k][1], (unsigned long long)want);
        if (timed) {
            std::vector<Own> v; for (u32 t = 0; t < nt; ++t) v.insert(v.end(), town[t][k].begin(), town[t][k].end());
            std::sort(v.begin(), v.end(), [](const Own& x, const Own& y) { return x.e1 < y.e1; });
            for (size_t i = 1; i < v.size(); ++i) {
                REQ(v[i].e1 > v[i - 1].l0, "exclusion", "history: thread %u entered section %u at %llu before thread %u began to leave at %llu", v[i].thread, k, (unsigned long long)v[i].e1, v[i - 1].thread, (unsigned long long)v[i - 1].l0);
                if (v[i].thread != v[i - 1].thread) ++ho; }
            for (u32 t = 0; t < nt; ++t) for (const Own& f : tfail[t][k]) {
                bool just = false; for (const Own& o : v) if (o.thread != t && o.e0 < f.e1 && o.l1 > f.e0) { just = true; break; }
                REQ(just, "try-enter", "history: thread %u's try-enter in %llu..%llu was refused although no other thread used section %u meanwhile", t, (unsigned long long)f.e0, (unsigned long long)f.e1, k);
                COUNT("refused try-enters under contention"); }
            COUNTN("ownership intervals judged", v.size());
        }
        REQ(ZyanCriticalSectionDelete(s[k]->p) == ZYAN_STATUS_SUCCESS, "delete", "deleting a free section failed");
    }
    COUNTN("hand-overs between threads", ho); COUNT("stress runs"); g_trace_hash = mix64(g_trace_hash, ho); saw_state(mix64(ho, nt * 100 + ns));
}
#if !defined(VH_LONG)
// A refused try-enter says so at once, it does not wait for the owner: judged by the fastest of many, whatever the machine is busy with.
static void try_time(Rng& r) {
    Sect s(r.byte()); ZyanCriticalSection* c = s.p; u32 depth = (u32)r.range(1, 3), a = (u32)r.below(NT), b = (a + 1 + (u32)r.below(NT - 1)) % NT, n = 0, bad = 0; double best = 1e9, t0 = now_s();
    trace("T%u tries a section that T%u owns (depth %u)", b, a, depth); REQ(ZyanCriticalSectionInitialize(c) == ZYAN_STATUS_SUCCESS, "init", "initialization failed");
    crew->run(a, [&] { for (u32 i = 0; i < depth; ++i) if (ZyanCriticalSectionEnter(c) != ZYAN_STATUS_SUCCESS) ++bad; });
    crew->run(b, [&] { while (n < 60 && (n < 5 || now_s() - t0 < 5)) { double x = now_s(); if (ZyanCriticalSectionTryEnter(c)) { ++bad; break; } double d = now_s() - x; if (d < best) best = d; ++n; } });
    REQ(!bad, "try-enter", "entering a free section failed or try-enter on a section owned by another thread succeeded");
    REQ(n >= 60 ? best < 0.001 : best < 0.3, "try-blocks", "none of %u refused try-enters returned in less than %.1f ms", n, best * 1000);
    crew->run(a, [&] { for (u32 i = 0; i < depth; ++i) if (ZyanCriticalSectionLeave(c) != ZYAN_STATUS_SUCCESS) ++bad; });
    REQ(!bad && ZyanCriticalSectionDelete(c) == ZYAN_STATUS_SUCCESS, "leave", "leaving/deleting failed"); COUNTN("refused try-enters timed", n);
}
#endif
#ifdef VH_LONG
// ---- waiting for seconds, many nested entries, many sections at once -----------------------------------------------
#include <signal.h>
static void nap(u32 ms) { timespec t = { ms / 1000, (long)(ms % 1000) * 1000000 }; nanosleep(&t, nullptr); }
static void on_signal(int) {}
static void keep_alive() { g_tr->ops = g_tr->ops + 1; }
// One thread stays inside for `hold` seconds while others wait (interrupted by signals) and one keeps trying.
static void long_hold(Rng& r, double hold) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(SIGUSR1, &sa, nullptr);
    Sect s(r.byte()); ZyanCriticalSection* c = s.p; REQ(ZyanCriticalSectionInitialize(c) == ZYAN_STATUS_SUCCESS, "init", "initialization failed");
    u32 nw = (u32)r.range(1, 3), depth = (u32)r.pick<u64>({ 1, 2, 5, 300, 70000 }), left = 0; bool sig = r.chance(2, 3); trace("owner stays %.1f s at depth %u, %u threads wait, signals %d", hold, depth, nw, sig);
    for (u32 i = 0; i < depth; ++i) REQ(ZyanCriticalSectionEnter(c) == ZYAN_STATUS_SUCCESS, "enter", "entering the %u-th time failed", i + 1);
    std::vector<std::thread> th; std::vector<std::atomic<int>> state(nw); std::vector<ZyanStatus> res(nw), lv(nw); std::atomic<int> inside{0}, twice{0};
    for (u32 t = 0; t < nw; ++t) { state[t] = 0; th.emplace_back([&, t] { state[t] = 1; res[t] = ZyanCriticalSectionEnter(c); state[t] = 2;
        if (inside.fetch_add(1)) twice = 1; nap(150); inside.fetch_sub(1); lv[t] = ZyanCriticalSectionLeave(c); state[t] = 3; }); }
    std::atomic<bool> stop{false}; std::atomic<u32> tries{0}, got{0}; std::atomic<u64> best{~0ull};
    std::thread prober([&] { while (!stop) { double a = now_s(); if (ZyanCriticalSectionTryEnter(c)) { got.fetch_add(1); ZyanCriticalSectionLeave(c); } double d = now_s() - a; u64 us = (u64)(d * 1e6); if (us < best) best = us; tries.fetch_add(1); nap(5); } });
    double t0 = now_s(), step = hold / (depth > 64 ? 64 : depth); u32 polls = 0, sigs = 0;
    while (now_s() - t0 < hold) {
        nap(10); ++polls; keep_alive();
        for (u32 t = 0; t < nw; ++t) { if (state[t] >= 2) violation("exclusion", "a thread came in (%s) after %.2f s while the owner is still inside (left %u of %u times)", st_name(res[t]), now_s() - t0, left, depth);
            if (sig && state[t] == 1) { pthread_kill(th[t].native_handle(), SIGUSR1); ++sigs; } }
        if (got) violation("try-enter", "try-enter succeeded after %.2f s while the owner is still inside (left %u of %u times)", now_s() - t0, left, depth);
        u32 due = (u32)((now_s() - t0) / step) * (depth > 64 ? depth / 64 : 1);
        while (left < due && left + 1 < depth) { REQ(ZyanCriticalSectionLeave(c) == ZYAN_STATUS_SUCCESS, "leave", "leaving the %u-th time failed", left + 1); ++left; }
    }
    stop = true; double te = now_s(); prober.join();                       // joins while the owner is inside: try-enter never waits for the owner
    REQ(now_s() - te < 20, "try-enter", "try-enter did not return for %.1f s while the section was owned", now_s() - te);
    if (tries >= 20) REQ(best < 3000, "try-blocks", "none of %u refused try-enters returned in less than %llu us", tries.load(), (unsigned long long)best.load());
    while (left < depth) { REQ(ZyanCriticalSectionLeave(c) == ZYAN_STATUS_SUCCESS, "leave", "leaving the %u-th time failed", left + 1); ++left; }
    for (u32 k = 0; k < 3000; ++k) { bool all = true; for (u32 t = 0; t < nw; ++t) if (state[t] != 3) all = false; if (all) break; nap(10); keep_alive(); if (k == 2999) violation("lost-wakeup", "30 s after the owner left a waiting thread is not through"); }
    for (u32 t = 0; t < nw; ++t) { th[t].join(); REQ(res[t] == ZYAN_STATUS_SUCCESS && lv[t] == ZYAN_STATUS_SUCCESS, "enter", "entering/leaving after the wait reports %s/%s", st_name(res[t]), st_name(lv[t])); }
    REQ(!twice, "exclusion", "two waiting threads were inside together"); REQ(ZyanCriticalSectionDelete(c) == ZYAN_STATUS_SUCCESS, "delete", "deleting failed");
    COUNT("long waits"); COUNTN("polls of waiting threads", polls); COUNTN("signals sent to waiting threads", sigs); COUNTN("try-enters during a long wait", tries); ctr("max:seconds waited") = std::max<u64>(ctr("max:seconds waited"), (u64)hold);
}
// Sections are independent of each other, however many there are.
static void many(Rng& r) {
    const u32 N = (u32)r.pick<u64>({ 300, 5000, 70000 }); std::vector<ZyanCriticalSection> s(N); trace("%u sections at once", N);
    for (u32 i = 0; i < N; ++i) REQ(ZyanCriticalSectionInitialize(&s[i]) == ZYAN_STATUS_SUCCESS, "init", "initialization of section %u failed", i);
    for (u32 i = 0; i < N; i += 2) REQ(ZyanCriticalSectionEnter(&s[i]) == ZYAN_STATUS_SUCCESS, "enter", "entering section %u failed", i);
    std::atomic<i64> wrong{-1};
    std::thread o([&] { for (u32 i = 0; i < N; ++i) { ZyanBool b = ZyanCriticalSectionTryEnter(&s[i]); if (!!b != (i % 2 == 1)) { wrong = i; return; } }
        for (u32 i = 1; i < N; i += 2) if (ZyanCriticalSectionLeave(&s[i]) != ZYAN_STATUS_SUCCESS) { wrong = i; return; }
        for (u32 i = 0; i < N; i += 2) if (ZyanCriticalSectionLeave(&s[i]) != ZYAN_STATUS_INVALID_OPERATION) { wrong = i; return; } }); o.join();
    REQ(wrong < 0, "independence", "section %lld of %u: owned by another thread exactly if even, but try-enter/leave disagree", (long long)wrong.load(), N);
    for (u32 i = 0; i < N; ++i) { ZyanStatus st = ZyanCriticalSectionDelete(&s[i]); REQ(st == (i % 2 ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_INVALID_ARGUMENT), "delete", "deleting section %u of %u reports %s", i, N, st_name(st)); }
    for (u32 i = 0; i < N; i += 2) REQ(ZyanCriticalSectionLeave(&s[i]) == ZYAN_STATUS_SUCCESS && ZyanCriticalSectionDelete(&s[i]) == ZYAN_STATUS_SUCCESS, "leave", "leaving/deleting section %u failed", i);
    COUNTN("sections used at once", N);
}
bool prop_case(u64 idx, Rng& r) {
    static const double Q[] = { 12.4, 2.2, 3.4, 5.7, 6.3, 8.2, 10.6, 11.5 };
    long_hold(r, g_thorough ? (idx % 8 == 0 ? 75 : Q[idx % 8] * (1 + (double)(idx / 8) / 2)) : Q[idx % 8]); many(r); return true;
}
#else
bool prop_case(u64 idx, Rng& r) {
    if (!crew) crew = new Crew(NT);
#ifdef VH_TSAN
    bool misuse = false;                        // the thread sanitizer itself reports misuse of mutexes
#else
    bool misuse = true;
#endif
    if (idx < 16 || r.chance(1, 12)) { try_time(r); return true; }
    switch (r.below(4)) { case 0: case 1: script(r, misuse); break; case 2: stress(r, true); break; default: stress(r, false); }
    return true;
}
#endif
#endif
void prop_begin() {}
void prop_end() {
#ifndef VH_FAULTS
    delete crew;
#endif
}
