// C17: atomics. Sequential model comparison for every width, recorded concurrent histories checked for linearizability,
// conservation of increments/decrements under contention, and publication of plain data (judged by the thread sanitizer
// and by the values themselves).
#include "zy.hpp"
#include <Zycore/Atomic.h>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <thread>

struct A32 { typedef u32 T; typedef ZyanAtomic32 Obj; static const char* name() { return "32"; }
    static T cas(Obj* o, T c, T v, bool m) { return m ? ZYAN_ATOMIC_COMPARE_EXCHANGE32(*o, c, v) : ZyanAtomicCompareExchange32(o, c, v); }
    static T inc(Obj* o, bool m) { if (m) { T r = ZYAN_ATOMIC_INCREMENT32(*o); return r; } return ZyanAtomicIncrement32(o); }
    static T dec(Obj* o, bool m) { if (m) { T r = ZYAN_ATOMIC_DECREMENT32(*o); return r; } return ZyanAtomicDecrement32(o); }
    static T get(Obj* o) { return o->value; } static void set(Obj* o, T v) { o->value = v; } };
struct A64 { typedef u64 T; typedef ZyanAtomic64 Obj; static const char* name() { return "64"; }
    static T cas(Obj* o, T c, T v, bool m) { return m ? ZYAN_ATOMIC_COMPARE_EXCHANGE64(*o, c, v) : ZyanAtomicCompareExchange64(o, c, v); }
    static T inc(Obj* o, bool m) { if (m) { T r = ZYAN_ATOMIC_INCREMENT64(*o); return r; } return ZyanAtomicIncrement64(o); }
    static T dec(Obj* o, bool m) { if (m) { T r = ZYAN_ATOMIC_DECREMENT64(*o); return r; } return ZyanAtomicDecrement64(o); }
    static T get(Obj* o) { return o->value; } static void set(Obj* o, T v) { o->value = v; } };
struct AP { typedef uintptr_t T; typedef ZyanAtomicPointer Obj; static const char* name() { return "P"; }
    static T cas(Obj* o, T c, T v, bool m) { return m ? ZYAN_ATOMIC_COMPARE_EXCHANGE(*o, c, v) : ZyanAtomicCompareExchange(o, c, v); }
    static T inc(Obj* o, bool m) { if (m) { T r = ZYAN_ATOMIC_INCREMENT(*o); return r; } return ZyanAtomicIncrement(o); }
    static T dec(Obj* o, bool m) { if (m) { T r = ZYAN_ATOMIC_DECREMENT(*o); return r; } return ZyanAtomicDecrement(o); }
    static T get(Obj* o) { return (T)(uintptr_t)o->value; } static void set(Obj* o, T v) { o->value = (void*)(uintptr_t)v; } };

enum { CAS, INC, DEC };
struct Op { int kind; u64 c, v; u64 ret; u64 t0, t1; u32 delay; bool macro; int thread; };
static void apply_ref(int kind, u64 c, u64 v, u64& val, u64& ret, u64 mask) {
    if (kind == CAS) { ret = val; if (val == c) val = v; }
    else if (kind == INC) { val = (val + 1) & mask; ret = val; }
    else { val = (val - 1) & mask; ret = val; }
}
static u64 base_value(Rng& r, u64 mask) {
    switch (r.below(8)) {
    case 0: return 0; case 1: return mask; case 2: return mask >> 1; case 3: return (mask >> 1) + 1;
    case 4: return 0xFFFFFFFFull & mask; case 5: return (mask == 0xFFFFFFFFull) ? 0xFFFF : 0x100000000ull;
    case 6: return r.next() & mask; default: return r.below(4); }
}

template <class A> static void sequential(Rng& r) {
    typedef typename A::T T; const u64 mask = (u64)(T)~(T)0;
    struct { u64 g0; typename A::Obj o; u64 g1; } s; memset(&s, 0, sizeof s); s.g0 = s.g1 = 0x1122334455667788ull;
    u8 before[sizeof s];
    u64 val = base_value(r, mask); A::set(&s.o, (T)val);
    int n = (int)r.range(5, 60);
    trace("sequential %s start %llx", A::name(), (unsigned long long)val);
    for (int i = 0; i < n; ++i) {
        int kind = (int)r.below(3); bool m = r.chance(1, 2);
        u64 c = val, v = base_value(r, mask);
        switch (r.below(6)) {   // comparand: equal, one bit off (any position), other half off, random
        case 0: case 1: case 2: break;
        case 3: c = val ^ (1ull << r.below(sizeof(T) * 8)); break;
        case 4: c = base_value(r, mask); break;
        case 5: c = val ^ ((mask << (sizeof(T) * 4)) & mask); break; }
        memcpy(before, &s, sizeof s);
        u64 want, nv = val; apply_ref(kind, c, v, nv, want, mask);
        u64 got = kind == CAS ? A::cas(&s.o, (T)c, (T)v, m) : kind == INC ? A::inc(&s.o, m) : A::dec(&s.o, m);
        trace("%s%s c=%llx v=%llx -> %llx", kind == CAS ? "cas" : kind == INC ? "inc" : "dec", m ? "(macro)" : "", (unsigned long long)c, (unsigned long long)v, (unsigned long long)got);
        REQ(got == want, "atomic-ret", "%s-bit %s on %llx (comparand %llx, value %llx) returned %llx instead of %llx", A::name(),
            kind == CAS ? "compare-exchange" : kind == INC ? "increment" : "decrement", (unsigned long long)val, (unsigned long long)c, (unsigned long long)v, (unsigned long long)got, (unsigned long long)want);
        REQ((u64)A::get(&s.o) == nv, "atomic-val", "%s-bit %s on %llx (comparand %llx, value %llx) left %llx instead of %llx", A::name(),
            kind == CAS ? "compare-exchange" : kind == INC ? "increment" : "decrement", (unsigned long long)val, (unsigned long long)c, (unsigned long long)v, (unsigned long long)A::get(&s.o), (unsigned long long)nv);
        u8 after[sizeof s]; memcpy(after, &s, sizeof s);
        size_t off = (u8*)&s.o - (u8*)&s;
        REQ(!memcmp(before, after, off) && !memcmp(before + off + sizeof s.o, after + off + sizeof s.o, sizeof s - off - sizeof s.o), "atomic-neighbour", "memory next to the atomic changed");
        val = nv; COUNT("sequential operations");
        if (kind == CAS) { if (c != want) COUNT("sequential CAS refused"); else COUNT("sequential CAS done"); }
    }
}

// ---- concurrent rounds -----------------------------------------------------------------------------------------
struct Team {                               // spin barrier with yielding
    std::atomic<u32> arrived{0}, phase{0}; u32 n;
    explicit Team(u32 k) : n(k) {}
    void wait() {
        u32 p = phase.load();
        if (arrived.fetch_add(1) + 1 == n) { arrived.store(0); phase.fetch_add(1); return; }
        u32 k = 0; while (phase.load() == p) if (++k > 2000) { sched_yield(); k = 0; }
    }
};
static inline void spin(u32 n) { for (volatile u32 i = 0; i < n; i = i + 1) { } }
static std::atomic<u64> g_clock;

struct LinCheck {                            // Wing/Gong search with memoization on (set of linearized operations, value)
    const std::vector<Op>& ops; u64 mask, fin; bool timed; std::unordered_set<u64> bad; std::vector<int> order;
    bool go(u32 done, u64 val) {
        if (done == (1u << ops.size()) - 1) return val == fin;
        u64 key = mix64(done, val); if (bad.count(key)) return false;
        u64 mint1 = ~0ull; bool seen[8] = {};
        if (timed) for (size_t i = 0; i < ops.size(); ++i) if (!(done >> i & 1)) mint1 = std::min(mint1, ops[i].t1);
        for (size_t i = 0; i < ops.size(); ++i) {
            if (done >> i & 1) continue;
            if (seen[ops[i].thread]) continue;            // program order: operations are listed per thread in order
            seen[ops[i].thread] = true;
            if (timed && ops[i].t0 > mint1) continue;
            u64 v = val, ret; apply_ref(ops[i].kind, ops[i].c, ops[i].v, v, ret, mask);
            if (ret != ops[i].ret) continue;
            order.push_back((int)i); if (go(done | 1u << i, v)) return true; order.pop_back();
        }
        bad.insert(key); return false;
    }
};

template <class A> static void histories(Rng& r) {
    typedef typename A::T T; const u64 mask = (u64)(T)~(T)0;
    u32 nt = (u32)r.range(2, 4); int rounds = (int)r.range(20, 60);
    alignas(64) static typename A::Obj obj;
    std::vector<std::vector<std::vector<Op>>> prog(rounds);   // [round][thread][op]
    std::vector<u64> start(rounds), fin(rounds);
    bool timed = r.chance(2, 3);
    for (int k = 0; k < rounds; ++k) {
        start[k] = base_value(r, mask); prog[k].resize(nt);
        for (u32 t = 0; t < nt; ++t) for (u64 j = r.range(1, 4); j; --j) {
            Op o; memset(&o, 0, sizeof o); o.kind = (int)r.below(3); o.thread = (int)t; o.macro = r.chance(1, 2);
            o.c = (start[k] + r.below(4) - 1) & mask; o.v = (start[k] + r.below(5) - 2) & mask;
            o.delay = r.chance(1, 2) ? 0 : (u32)r.below(60);
            prog[k][t].push_back(o); } }
    trace("histories %s threads %u rounds %d", A::name(), nt, rounds);
    Team team(nt); A::set(&obj, (T)start[0]);
    auto worker = [&](u32 t) {
        for (int k = 0; k < rounds; ++k) {
            team.wait();
            if (timed) for (Op& o : prog[k][t]) {
                spin(o.delay); o.t0 = g_clock.fetch_add(1);
                o.ret = o.kind == CAS ? A::cas(&obj, (T)o.c, (T)o.v, o.macro) : o.kind == INC ? A::inc(&obj, o.macro) : A::dec(&obj, o.macro);
                o.t1 = g_clock.fetch_add(1);
            } else for (Op& o : prog[k][t]) {
                spin(o.delay);
                o.ret = o.kind == CAS ? A::cas(&obj, (T)o.c, (T)o.v, o.macro) : o.kind == INC ? A::inc(&obj, o.macro) : A::dec(&obj, o.macro);
            }
            team.wait();
            if (t == 0) { fin[k] = A::get(&obj); if (k + 1 < rounds) A::set(&obj, (T)start[k + 1]); }
        } };
    std::vector<std::thread> th; for (u32 t = 0; t < nt; ++t) th.emplace_back(worker, t);
    for (auto& t : th) t.join();
    for (int k = 0; k < rounds; ++k) {
        std::vector<Op> all; for (auto& p : prog[k]) all.insert(all.end(), p.begin(), p.end());
        LinCheck lc{all, mask, fin[k], timed, {}, {}};
        if (!lc.go(0, start[k])) {
            std::string s; char b[160];
            for (Op& o : all) { snprintf(b, sizeof b, " [T%d %s c=%llx v=%llx ret=%llx %llu-%llu]", o.thread, o.kind == CAS ? "cas" : o.kind == INC ? "inc" : "dec",
                (unsigned long long)o.c, (unsigned long long)o.v, (unsigned long long)o.ret, (unsigned long long)o.t0, (unsigned long long)o.t1); s += b; }
            violation("not-linearizable", "%s-bit atomic, start %llx, end %llx: no sequential order explains%s", A::name(), (unsigned long long)start[k], (unsigned long long)fin[k], s.c_str());
        }
        COUNT("concurrent histories"); COUNTN("concurrent operations", all.size());
        u64 h = 7; bool inter = false; for (size_t i = 0; i < lc.order.size(); ++i) { h = mix64(h, (u64)all[lc.order[i]].thread * 4 + all[lc.order[i]].kind); }
        for (size_t i = 2; i < lc.order.size(); ++i) if (all[lc.order[i]].thread == all[lc.order[i - 2]].thread && all[lc.order[i - 1]].thread != all[lc.order[i]].thread) inter = true;
        if (inter) COUNT("histories with interleaved threads");
        saw_state(h); g_trace_hash = mix64(g_trace_hash, h);
    }
}

// Increments and decrements from all threads: every intermediate value must be handed out exactly once.
template <class A> static void conservation(Rng& r) {
    typedef typename A::T T; const u64 mask = (u64)(T)~(T)0;
    u32 nt = (u32)r.range(2, 4), per = (u32)r.range(100, 1500); u64 start = base_value(r, mask);
    if (r.chance(1, 3)) start = (mask - r.below(per * nt)) & mask;     // wraps around while counting
    int mode = (int)r.below(4);                                        // 0 inc, 1 dec, 2 mixed, 3 cas loop
    alignas(64) static typename A::Obj obj; A::set(&obj, (T)start);
    trace("conservation %s mode %d threads %u x %u start %llx", A::name(), mode, nt, per, (unsigned long long)start);
    std::vector<std::vector<u64>> got(nt); std::vector<u64> plus(nt), minus(nt); std::vector<u64> seeds(nt); for (auto& s : seeds) s = r.next();
    Team team(nt);
    auto worker = [&](u32 t) {
        Rng q(seeds[t]); auto& g = got[t]; g.reserve(per); bool macro = q.chance(1, 2); u64 kinds = q.next();
        team.wait();
        for (u32 i = 0; i < per; ++i) {
            if (mode == 0) g.push_back(A::inc(&obj, macro));
            else if (mode == 1) g.push_back(A::dec(&obj, macro));
            else if (mode == 2) { if (kinds >> (i & 63) & 1) { A::inc(&obj, macro); ++plus[t]; } else { A::dec(&obj, macro); ++minus[t]; } }
            else { u64 cur = A::cas(&obj, 0, 0, macro); for (;;) { u64 old = A::cas(&obj, (T)cur, (T)(cur + 1), macro); if (old == cur) break; cur = old; } g.push_back((T)(cur + 1)); }
        } };
    std::vector<std::thread> th; for (u32 t = 0; t < nt; ++t) th.emplace_back(worker, t);
    for (auto& t : th) t.join();
    u64 fin = A::get(&obj), n = (u64)nt * per, want;
    if (mode == 2) { u64 d = 0; for (u32 t = 0; t < nt; ++t) d += plus[t] - minus[t]; want = (start + d) & mask; }
    else want = (mode == 1 ? start - n : start + n) & mask;
    REQ(fin == want, "lost-update", "%s-bit counter started at %llx, ended at %llx instead of %llx (mode %d, %u threads x %u)", A::name(),
        (unsigned long long)start, (unsigned long long)fin, (unsigned long long)want, mode, nt, per);
    if (mode != 2) {
        std::vector<u64> dist; u32 switches = 0;
        for (auto& g : got) for (u64 v : g) dist.push_back(((mode == 1 ? start - v : v - start) & mask));
        std::vector<u64> so = dist; std::sort(so.begin(), so.end());
        for (size_t i = 0; i < so.size(); ++i) REQ(so[i] == i + 1, "duplicate-value", "%s-bit counter (mode %d): values handed out are not each exactly once (rank %zu is %llu)", A::name(), mode, i, (unsigned long long)so[i]);
        for (auto& g : got) for (size_t i = 1; i < g.size(); ++i) { u64 a = (mode == 1 ? start - g[i - 1] : g[i - 1] - start) & mask, b = (mode == 1 ? start - g[i] : g[i] - start) & mask;
            REQ(b > a, "value-order", "%s-bit counter: a thread saw the counter go backwards", A::name()); if (b != a + 1) ++switches; }
        if (switches) COUNT("contended counters"); COUNTN("observed thread switches", switches);
        g_trace_hash = mix64(g_trace_hash, switches);
    }
    COUNT("conservation runs");
}

// Plain data handed over by atomic operations only. Under the thread sanitizer any missing ordering is a data race.
template <class A> static void publication(Rng& r) {
    typedef typename A::T T; u32 nt = (u32)r.range(2, 4), per = (u32)r.range(50, 400); int mode = (int)r.below(3);
    trace("publication %s mode %d threads %u x %u", A::name(), mode, nt, per);
    alignas(64) static typename A::Obj lock, turn; A::set(&lock, 0); A::set(&turn, 0);
    static u64 data[8]; memset(data, 0, sizeof data);
    Team team(nt); std::atomic<u32> bad{0}; std::vector<u64> handovers(nt);
    auto relax = [](u32& k) { if (++k > 500) { sched_yield(); k = 0; } };
    auto worker = [&](u32 t) {
        team.wait();
        if (mode == 0) {                       // spin lock made of compare-exchange
            u64 last = 0;
            for (u32 i = 0; i < per; ++i) {
                u32 k = 0; while (A::cas(&lock, 0, 1, i & 1) != 0) relax(k);
                if (data[1] != data[0]) bad.fetch_or(1, std::memory_order_relaxed);
                if (data[0] != last) ++handovers[t];
                data[0]++; spin(i & 7); data[1]++; last = data[0];
                if (A::cas(&lock, 1, 0, i & 1) != 1) bad.fetch_or(2, std::memory_order_relaxed);
            }
        } else if (mode == 1) {                // thread t writes when the counter says so; hand over by increment
            for (u32 i = 0; i < per; ++i) {
                u32 k = 0; while (A::cas(&turn, (T)~(T)0, 0, i & 1) % nt != t) relax(k);
                if (data[2] != (u64)i * nt + t) bad.fetch_or(4, std::memory_order_relaxed);
                data[2]++; ++handovers[t];
                A::inc(&turn, i & 1);
            }
        } else {                               // the same with decrement
            for (u32 i = 0; i < per; ++i) {
                u32 k = 0; while ((T)(0 - A::cas(&turn, (T)1, 1, i & 1)) % nt != t) relax(k);
                if (data[3] != (u64)i * nt + t) bad.fetch_or(8, std::memory_order_relaxed);
                data[3]++; ++handovers[t];
                A::dec(&turn, i & 1);
            }
        } };
    std::vector<std::thread> th; for (u32 t = 0; t < nt; ++t) th.emplace_back(worker, t);
    for (auto& t : th) t.join();
    REQ(!bad.load(), "publication", "%s-bit atomic used as %s: plain data was not handed over intact (%u)", A::name(), mode == 0 ? "lock" : mode == 1 ? "increment turn" : "decrement turn", bad.load());
    u64 total = mode == 0 ? data[0] : data[mode + 1];
    REQ(total == (u64)nt * per, "publication", "%s-bit atomic used as %s: %llu of %llu updates of plain data survived", A::name(), mode == 0 ? "lock" : "turn", (unsigned long long)total, (unsigned long long)nt * per);
    u64 h = 0; for (u64 x : handovers) h += x; COUNTN("hand-overs of plain data", h); COUNT("publication runs"); g_trace_hash = mix64(g_trace_hash, h);
}

void prop_begin() {} void prop_end() {}
template <class A> static void one(Rng& r) {
    switch (r.below(8)) { case 0: case 1: sequential<A>(r); break; case 2: case 3: case 4: histories<A>(r); break; case 5: conservation<A>(r); break; default: publication<A>(r); } }
bool prop_case(u64, Rng& r) { switch (r.below(3)) { case 0: one<A32>(r); break; case 1: one<A64>(r); break; default: one<AP>(r); } return true; }
