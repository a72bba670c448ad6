// Histories on containers whose sizes cross the 8-, 15-, 16- and 17-bit boundaries (narrowed counters, indices, capacities).
// Include after the engines in use.
#pragma once
#include "sim.hpp"
#ifdef VH_LARGE
static const bool LARGE = true;
#else
static const bool LARGE = false;
#endif

// Sweep: every case is about one value - each of 1..SWEEP_TO in turn - that takes the part of a size, an index, a count, an
// element size and a capacity.
#ifdef VH_SWEEP
static const bool SWEEP = true;
#else
static const bool SWEEP = false;
#endif
static const u64 SWEEP_TO = 4397;        // prime: cases that alternate between kinds of containers still meet every value
inline u64 sweep_k() { COUNT("swept values"); return 1 + g_tr->case_idx % SWEEP_TO; }

#ifdef HAVE_COPIES
static MonAlloc& copy_alloc() { static MonAlloc a; return a; }
#define SWEEP_COPY(F) if (r.chance(1, 2)) F(s, r, copy_alloc(), s.n() + 400, ~(u64)0);
#define LARGE_COPY(F) if (r.chance(1, 16)) { F(s, r, copy_alloc(), s.n() + 400, r.chance(1, 2) ? round_count(r) : ~(u64)0); COUNT("copies of large containers"); }
#else
#define LARGE_COPY(F)
#define SWEEP_COPY(F)
#endif

inline u64 large_fault() { fault_dense() = 6; return 0; }
inline u64 large_size(Rng& r) {
    switch (r.below(10)) {
    case 8: case 9: return r.pick<u64>({256, 32768, 65536, 65536, 131072}) - r.below(2);
    case 0: return r.range(250, 262); case 1: return r.range(32760, 32775); case 2: case 3: return r.range(65530, 65545);
    case 4: return r.range(131065, 131080); default: return r.range(66000, 90000); } }

// element sizes around the same boundaries
inline u64 wide_size(Rng& r) { switch (r.below(6)) { case 0: return r.range(250, 260); case 1: return r.range(1000, 4200); case 2: return r.range(32764, 32772); case 3: return r.range(131070, 131080); case 4: return r.range(65533, 65540); default: return r.range(65533, 100000); } }

// the default allocator, where no monitor needs its calls
inline MonAlloc* some_alloc(const Opt& o, Rng& r, MonAlloc& A, bool dyn, u32 den = 6) { return dyn && !o.alloc && !o.fault && r.chance(1, den) ? nullptr : &A; }

// counts whose low bytes are zero
inline u64 round_count(Rng& r) { return r.pick<u64>({256, 512, 1024, 4096, 32768, 65536, 65536, 65536, 131072}); }
#ifdef LARGE_VEC
inline VecCfg large_veccfg(Rng& r, u64 T) {
    VecCfg c; c.es = r.pick<u64>({1, 2, 3, 4, 8, 12}); c.growth = r.range(1, 2); c.thr = r.pick<u64>({0, 2, 4}); c.dyn = !r.chance(1, 4); c.cap0 = !c.dyn ? T + r.below(8) : r.chance(1, 2) ? T : r.below(3); c.dtor = r.chance(1, 2);
    if (r.chance(1, 4)) { u64 q = round_count(r); if (c.dyn || q >= T) c.cap0 = q; } return c; }
inline void large_vec_op(VecSim& s, Rng& r, u64 T) {
    u64 room = s.c.dyn ? UMAX : s.c.cap0 - s.n();
    u64 rc = round_count(r);
    if (r.chance(1, 5) && rc <= room && s.n() < 2 * T) { u64 i = r.range(0, s.n()); if (r.chance(1, 3)) s.resize(s.n() + rc, true); else s.insert_range(s.n() > 9 && r.chance(1, 2) ? s.n() - r.below(9) : i, rc); COUNT("round counts"); }
    else if (r.chance(1, 4) && rc <= s.n()) { u64 i = r.chance(1, 2) ? r.below(std::min<u64>(s.n() - rc + 1, 9)) : r.range(0, s.n() - rc); if (r.chance(1, 4)) s.resize(s.n() - rc, true); else s.del_range(i, rc); COUNT("round counts"); }
    else if (s.n() < T - T / 8 && r.chance(2, 3)) {
        u64 k = T - s.n() + r.below(3); if (!r.chance(1, 8)) k = std::min(k, room);
        if (r.chance(1, 2) && k) s.insert_range(r.chance(1, 2) ? s.n() : r.range(0, s.n()), k); else s.resize(s.n() + k, r.chance(1, 2));
    } else if (s.n() && r.chance(1, 3)) {        // near the end, where indices are large
        u64 back = r.below(std::min<u64>(s.n(), 20)), i0 = s.n() - 1 - back; s.leave(0, 0);
        switch (r.below(8)) { case 0: s.insert(i0); break; case 1: s.del(i0); break; case 2: s.set(i0); break; case 3: s.swap(i0, r.below(s.n())); break; case 4: s.emplace(false, i0, true, r.chance(1, 4)); break;
            case 5: s.del_range(i0, r.range(1, back + 1)); break; case 6: s.insert_range(i0, r.range(1, 300)); break; default: s.resize(s.n() + r.range(1, 9), true); }
    } else if (s.n() > T / 2 && r.chance(1, 10)) { u64 i0 = r.below(50); s.del_range(i0, s.n() - i0 - r.below(50)); }
    else s.step(T + 400);
    COUNT("operations on large containers");
}
inline void wide_vec(const Opt& o, Rng& r, MonAlloc& A, bool persist) {
    VecCfg c; c.es = wide_size(r); c.growth = r.range(1, 2); c.thr = r.pick<u64>({0, 2, 4}); c.dyn = !r.chance(1, 4); c.cap0 = r.range(1, 12); c.dtor = r.chance(1, 2);
    VecSim s(c, o, r, &A); s.persist = persist; s.init(); u64 ops = r.range(8, 24);
    for (u64 i = 0; i < ops; ++i) { s.step(8); COUNT("operations with wide elements"); }
    s.destroy();
}
inline void sweep_vec(const Opt& o, Rng& r, MonAlloc& A, bool persist) {
    const u64 K = sweep_k();
    for (int part = 0; part < 4; ++part) {
        VecCfg c; c.es = part == 3 ? K : r.pick<u64>({1, 2, 3, 4, 8, 12}); c.growth = r.range(1, 2); c.thr = r.pick<u64>({0, 2, 4}); c.dyn = !r.chance(1, 4); c.dtor = r.chance(1, 2);
        u64 n0 = part == 0 ? K : part == 1 ? K + r.below(12) : part == 2 ? 2 + r.below(12) : 0;
        c.cap0 = part == 3 ? r.range(1, 9) : !c.dyn ? n0 + K + r.below(9) + 1 : r.chance(1, 2) ? K : r.chance(1, 2) ? n0 : r.below(3);
        VecSim s(c, o, r, some_alloc(o, r, A, c.dyn)); s.persist = persist; s.init(); s.leave(0, 0);
        if (n0) { if (r.chance(1, 2)) s.resize(n0, true); else s.insert_range(0, n0); }
        for (int i = 0; i < (part ? 8 : 14); ++i) {
            s.leave(0, 0); const u64 n = s.n();
            if (part == 3) s.step(7);
            else if (part == 2) switch (i == 0 && n ? 0 : i == 1 && n > K ? 2 : r.below(6)) { case 0: case 1: s.insert_range(r.range(0, n), K); break; case 2: case 3: s.del_range(n > K ? r.range(0, n - K) : 0, K); break; case 4: s.resize(n + K < 3 * K ? n + K : n - K, r.chance(1, 2)); break; default: if (n >= K) s.resize(n - K, false); else s.reserve(n + K); }
            else if (part == 1) switch (r.below(8)) { case 0: s.insert(K); break; case 1: s.del(K); break; case 2: s.set(K); break; case 3: s.swap(K, n ? r.below(n) : 0); break; case 4: s.emplace(false, K, true, r.chance(1, 4)); break; case 5: s.insert_range(K, r.range(1, 5)); break; case 6: if (n > K) s.del_range(K, r.range(1, n - K)); break; default: if (n) s.swap(r.below(n), K); }
            else if (n < K) { if (K - n == 1 && r.chance(1, 2)) s.push(); else s.insert_range(r.range(0, n), K - n); }
            else if (n > K) { if (r.chance(1, 2)) s.del_range(r.below(K), n - K); else s.resize(K, false); }
            else switch (i < 11 ? i : 20) { case 0: s.insert(r.below(n)); break; case 1: s.insert(n); break; case 2: s.del(r.below(n)); break; case 3: s.push(); break; case 4: s.pop(); break; case 5: s.emplace(false, r.below(n), true, r.chance(1, 4)); break; case 6: s.del_range(r.below(n), 1); break; case 7: s.insert_range(r.below(n), r.range(1, 5)); break;
                case 8: s.set(r.below(n)); break; case 9: s.swap(r.below(n), r.below(n)); break; case 10: s.shrink_to_fit(); break; default: switch (r.below(5)) { case 0: s.clear(); break; case 1: s.emplace(true, 0, true, r.chance(1, 4)); break; case 2: s.reserve(K + r.below(3)); break; case 3: s.insert(r.below(n)); break; default: s.del(r.below(n)); } }
        }
        if (part == 0) { SWEEP_COPY(vec_copy) }
        s.destroy();
    }
}
inline void large_vec(const Opt& o, Rng& r, MonAlloc& A, bool persist = false) {
    if (SWEEP) { sweep_vec(o, r, A, persist); return; }
    if (r.chance(1, 4)) { wide_vec(o, r, A, persist); return; }
    u64 T = large_size(r); VecCfg c = large_veccfg(r, T); if (!c.dyn && r.chance(1, 4)) { T = c.cap0 = round_count(r); T -= std::min<u64>(T / 2, r.below(9)); } VecSim s(c, o, r, some_alloc(o, r, A, c.dyn)); s.persist = persist; s.init(); u64 ops = r.range(8, 24);
    for (u64 i = 0; i < ops; ++i) { LARGE_COPY(vec_copy) large_vec_op(s, r, T); }
    s.destroy();
}
#endif
#ifdef LARGE_STR
template <class Sim> void sweep_str(const Opt& o, Rng& r, MonAlloc& A, bool persist) {
    const u64 K = sweep_k();
    for (int part = 0; part < 3; ++part) {
        StrCfg c; c.growth = r.range(1, 2); c.thr = r.pick<u64>({0, 2, 4}); c.dyn = !r.chance(1, 4); u64 n0 = part == 0 ? K : part == 1 ? K + r.below(12) : 2 + r.below(12);
        c.cap0 = !c.dyn ? n0 + K + r.below(9) + 2 : r.chance(1, 2) ? K : r.chance(1, 2) ? n0 : r.below(3);
        Sim s(c, o, r, some_alloc(o, r, A, c.dyn)); s.persist = persist; s.init(); if (n0) s.append(rnd_text(r, n0));
        for (int i = 0; i < (part ? 8 : 14); ++i) {
            const u64 n = s.n(); auto few = [&] { return rnd_text(r, r.range(1, 6)); };
            if (part == 2) switch (i == 0 && n ? 1 : i == 1 && n > K ? 7 : r.below(8)) { case 0: s.append(rnd_text(r, K)); break; case 1: s.insert(r.range(0, n), rnd_text(r, K)); break; case 2: { Bytes t = rnd_text(r, K + 9); s.insert_ex(r.range(0, n), t, r.below(10), K); break; } case 3: { Bytes t = rnd_text(r, K + 9); s.append_ex(t, r.below(10), K); break; }
                case 4: if (n >= K) s.casing(r.chance(1, 2), true, r.range(0, n - K), K); break; case 5: s.resize(n < 2 * K ? n + K : n - K); break; default: s.del(n > K ? r.range(0, n - K) : 0, K); }
            else if (part == 1) switch (r.below(7)) { case 0: s.insert(K, few()); break; case 1: if (n > K) s.del(K, r.range(1, n - K)); break; case 2: s.truncate(K); s.append(few()); break; case 3: s.setchar(K); break; case 4: if (n >= K) s.casing(r.chance(1, 2), true, K, n - K); break; case 5: { Bytes t = rnd_text(r, K + 9); s.append_ex(t, K, r.below(9)); break; } default: { Bytes t = rnd_text(r, K + 9); s.insert_ex(K, t, K, r.range(1, 9)); } }
            else if (n < K) { if (r.chance(1, 2)) s.append(rnd_text(r, K - n)); else s.insert(r.range(0, n), rnd_text(r, K - n)); }
            else if (n > K) { if (r.chance(1, 2)) s.truncate(K); else s.del(r.below(K), n - K); }
            else switch (i % 8) { case 0: s.append(few()); break; case 1: s.insert(r.range(0, n), few()); break; case 2: { u64 a = r.below(n); s.del(a, r.range(1, n - a)); break; } case 3: s.setchar(r.below(n)); break; case 4: s.casing(r.chance(1, 2), false, 0, 0); break; case 5: { u64 a = r.below(n); s.casing(r.chance(1, 2), true, a, r.range(0, n - a)); break; } case 6: s.shrink_to_fit(); break; default: if (r.chance(1, 2)) s.clear(); else s.reserve(K + r.below(3)); }
        }
        if (part == 0) { SWEEP_COPY(str_copy) }
        s.destroy();
    }
}
template <class Sim> void large_str(const Opt& o, Rng& r, MonAlloc& A, bool persist = false) {
    if (SWEEP) { sweep_str<Sim>(o, r, A, persist); return; }
    u64 T = large_size(r); StrCfg c; c.growth = r.range(1, 2); c.thr = r.pick<u64>({0, 2, 4}); c.dyn = !r.chance(1, 4); c.cap0 = !c.dyn ? T + 1 + r.below(8) : r.chance(1, 2) ? T : r.below(3);
    if (r.chance(1, 4)) { u64 q = round_count(r); if (c.dyn || q > T) c.cap0 = q; }
    Sim s(c, o, r, some_alloc(o, r, A, c.dyn)); s.persist = persist; s.init(); u64 ops = r.range(10, 40);
    for (u64 i = 0; i < ops; ++i) {
        LARGE_COPY(str_copy)
        u64 n = s.n(), room = c.dyn ? UMAX : s.c.cap0 - 1 - n;
        u64 rc = round_count(r);
        if (r.chance(1, 6) && rc <= room && n < 2 * T) { u64 at = n > 9 && r.chance(1, 2) ? n - r.below(9) : r.range(0, n); switch (r.below(4)) { case 0: s.append(rnd_text(r, rc)); break; case 1: s.insert(at, rnd_text(r, rc)); break; case 2: { Bytes t = rnd_text(r, rc + 70); s.insert_ex(at, t, r.below(70), rc); break; } default: s.resize(n + rc); } COUNT("round counts"); }
        else if (r.chance(1, 5) && rc <= n) { u64 at = r.chance(1, 2) ? r.below(std::min<u64>(n - rc + 1, 9)) : r.range(0, n - rc); switch (r.below(4)) { case 0: s.truncate(n - rc); break; case 1: s.casing(r.chance(1, 2), true, at, rc); break; default: s.del(at, rc); } COUNT("round counts"); }
        else if (n < T - T / 8 && r.chance(2, 3)) {
            u64 k = T - n + r.below(3); if (!r.chance(1, 8)) k = std::min(k, room);
            switch (r.below(4)) { case 0: s.append(rnd_text(r, k)); break; case 1: s.insert(r.range(0, n), rnd_text(r, k)); break; case 2: { Bytes t = rnd_text(r, k + 70); s.insert_ex(r.range(0, n), t, r.below(70), k); break; } default: s.resize(n + k); }
        } else if (n && r.chance(1, 3)) {
            u64 back = r.below(std::min<u64>(n, 20)), i0 = n - 1 - back;
            switch (r.below(8)) { case 0: s.insert(i0, s.some()); break; case 1: s.del(i0, r.range(1, back + 1)); break; case 2: s.truncate(i0); break; case 3: s.setchar(i0); break; case 4: s.casing(r.chance(1, 2), true, i0, r.range(0, back + 1)); break;
                case 5: { u64 a = r.below(n); s.casing(r.chance(1, 2), true, a, r.range(0, n - a)); break; } case 6: { u64 a = r.below(n); s.del(a, r.range(1, 9) % (n - a) + 1 > n - a ? 1 : r.range(1, n - a)); break; } default: s.append(s.some()); }
        } else s.large_step(T + 400);
        COUNT("operations on large containers");
    }
    s.destroy();
}
#endif
#ifdef LARGE_LIST
inline void sweep_list(const Opt& o, Rng& r, MonAlloc& A, bool persist) {
    const u64 K = sweep_k();
    for (int part = 0; part < 2; ++part) {
        ListCfg c; c.es = part ? K : r.pick<u64>({1, 4, 8, 12}); c.dyn = r.chance(1, 2); c.dtor = r.chance(1, 2);
        if (!c.dyn) { c.es = std::max<u64>(8, c.es & ~7ull); c.nodes = part ? r.range(1, 8) : K; c.slack = r.below(sizeof(ZyanListNode) + c.es); }
        ListSim s(c, o, r, some_alloc(o, r, A, c.dyn)); s.persist = persist; s.init(); s.leave(0, 0); if (!part) s.resize(K, r.chance(1, 2));
        for (int i = 0; i < 8; ++i) {
            s.leave(0, 0); const u64 n = s.n();
            if (part) s.step(7);
            else if (n < K) { if (K - n == 1) s.push(r.chance(1, 2)); else s.resize(K, r.chance(1, 2)); }
            else if (n > K) s.resize(K, false);
            else switch (r.below(7)) { case 0: s.push(r.chance(1, 2)); break; case 1: s.pop(r.chance(1, 2)); break; case 2: { u64 a = r.below(n); s.remove(a, a, false); break; } case 3: { u64 a = r.below(n); s.remove(a, r.range(a, n - 1), true); break; } case 4: s.set(r.below(n)); break; case 5: s.emplace(r.chance(1, 2), true, r.chance(1, 4)); break; default: s.resize(n - 1, false); }
        }
        s.destroy();
    }
}
inline void large_list(const Opt& o, Rng& r, MonAlloc& A, bool persist = false) {
    if (SWEEP) { sweep_list(o, r, A, persist); return; }
    if (r.chance(1, 4)) {
        ListCfg c; switch (r.below(5)) { case 0: c.es = r.range(250, 260); break; case 1: c.es = r.range(1000, 4200); break; case 2: c.es = r.range(32764, 32772); break; default: c.es = r.range(65533, 100000); }
        c.dyn = r.chance(1, 2); c.dtor = r.chance(1, 2); if (!c.dyn) { c.es &= ~7ull; c.nodes = r.range(1, 9); c.slack = r.below(sizeof(ZyanListNode) + c.es); }
        ListSim s(c, o, r, &A); s.persist = persist; s.init(); u64 ops = r.range(8, 24);
        for (u64 i = 0; i < ops; ++i) { s.step(8); COUNT("operations with wide elements"); }
        s.destroy(); return;
    }
    if (r.chance(1, 20)) {                        // so many nodes that the stack would not hold one frame for each of them
        ListCfg c; c.es = r.pick<u64>({1, 8}); c.dyn = true; c.dtor = r.chance(1, 2); ListSim s(c, o, r, &A); s.persist = persist; s.init();
        u64 N = r.range(280000, 320000); s.resize(N, r.chance(1, 2)); COUNT("lists of hundreds of thousands of nodes");
        switch (r.below(4)) { case 0: s.clear(); break; case 1: s.remove(0, N - 1, true); break; case 2: s.resize(r.below(3), false); break; default: s.remove(r.below(3), N - 1 - r.below(3), true); }
        if (s.n() < 9 && r.chance(1, 2)) { s.push(true); s.push(false); } else if (s.n() < 9) s.resize(N, false);
        s.destroy(); return;
    }
    u64 T = large_size(r); ListCfg c; c.es = r.pick<u64>({1, 4, 8, 12}); c.dyn = r.chance(1, 2); c.dtor = r.chance(1, 2);
    if (!c.dyn) { c.es = 8; c.nodes = T + r.below(8); c.slack = r.below(sizeof(ZyanListNode) + c.es); }
    ListSim s(c, o, r, some_alloc(o, r, A, c.dyn)); s.persist = persist; s.init(); u64 ops = r.range(6, 14);
    for (u64 i = 0; i < ops; ++i) {
        u64 n = s.n(); u64 w = r.below(10); s.leave(0, 0);
        if (n < T - T / 8 && w < 6) s.resize(T + r.below(3) - (r.chance(1, 2) ? 2 : 0), r.chance(1, 2));
        else if (n > T / 2 && w < 2) { u64 a = r.below(50); s.remove(a, n - 1 - r.below(50), true); }
        else s.step(T + 400);
        COUNT("operations on large containers");
    }
    s.destroy();
}
#endif
#ifdef LARGE_BITS
inline void sweep_bits(const Opt& o, Rng& r, MonAlloc& A, bool persist) {
    const u64 K = sweep_k();
    for (int part = 0; part < 2; ++part) {
        BitsCfg c; c.growth = r.range(1, 2); c.thr = r.pick<u64>({0, 2, 4}); c.count = part ? K + r.range(0, 20) : K; c.dyn = !r.chance(1, 4); if (!c.dyn) c.bufcap = nbytes(c.count) + 1 + r.below(5);
        BitsSim s(c, o, r, some_alloc(o, r, A, c.dyn && !o.cap)); s.persist = persist; s.init(); s.all((int)r.below(3));
        for (int i = 0; i < (part ? 6 : 10); ++i) {
            const u64 n = s.n(), x = part ? K : n ? r.below(n) : 0; const bool v = r.chance(1, 2);
            if (!part && n != K) { if (n < K) s.push(v); else s.pop(); continue; }
            switch (part ? i % 4 : i) { case 0: s.bit("Set", x, [&](u64 j) { return ZyanBitsetSet(&s.b, j); }, [](u8& b) { b = 1; }); break; case 1: s.bit("Reset", x, [&](u64 j) { return ZyanBitsetReset(&s.b, j); }, [](u8& b) { b = 0; }); break;
                case 2: s.bit("Toggle", x, [&](u64 j) { return ZyanBitsetToggle(&s.b, j); }, [](u8& b) { b = !b; }); break; case 3: s.bit("Assign", x, [&](u64 j) { return ZyanBitsetAssign(&s.b, j, v); }, [v](u8& b) { b = v; }); break;
                case 4: s.binary((int)(K % 4)); break; case 5: s.binary((int)r.below(4)); break; case 6: s.all((int)r.below(3)); break; case 7: s.push(v); break; case 8: s.pop(); break; default: s.shrink_to_fit(); }
        }
        s.destroy();
    }
}
inline void large_bits(const Opt& o, Rng& r, MonAlloc& A, bool persist = false) {
    if (SWEEP) { sweep_bits(o, r, A, persist); return; }
    u64 T = large_size(r); if (r.chance(1, 6)) T = 8 * T + r.below(8);
    BitsCfg c; c.growth = r.range(1, 2); c.thr = r.pick<u64>({0, 2, 4}); c.count = T - r.below(20); c.dyn = !r.chance(1, 4); if (r.chance(1, 4)) c.count = round_count(r) * r.pick<u64>({1, 1, 8}); if (!c.dyn) { c.bufcap = nbytes(c.count) + r.below(5); if (r.chance(1, 4)) c.bufcap = std::max(round_count(r), nbytes(c.count)); }
    BitsSim s(c, o, r, some_alloc(o, r, A, c.dyn && !o.cap));/* the default factors of bitsets are not specified */ s.persist = persist; s.init(); u64 ops = r.range(10, 30);
    for (u64 i = 0; i < ops; ++i) { if (r.chance(1, 5)) s.all((int)r.below(3)); else s.large_step(T + 400); COUNT("operations on large containers"); }
    s.destroy();
}
#endif
