// C02: capacities follow the growth/shrink contract; data never moves within the capacity; fixed buffers stay put.
#include "copies.hpp"
#include "fmt_ops.hpp"
#include "bits_engine.hpp"
#define LARGE_VEC
#define LARGE_STR
#define LARGE_BITS
#include "large.hpp"
void prop_begin() {}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    Opt o; o.cap = true; MonAlloc A, A2;
    if (LARGE) { switch (idx % 3) { case 0: large_vec(o, r, A); break; case 1: large_str<FmtStrSim>(o, r, A); break; default: large_bits(o, r, A); } return true; }
    u64 ops = r.chance(1, 8) ? r.range(80, 250) : r.range(10, 60), maxn = r.chance(1, 10) ? 200 : r.range(3, 40);
    bool dyn = false;
    switch (idx % 5) {
    case 0: case 1: { VecCfg c = rnd_veccfg(r); dyn = c.dyn; VecSim s(c, o, r, &A); s.init();
        for (u64 i = 0; i < ops; ++i) {
            if (r.chance(1, 20) && c.dyn) {      // appending into a reserved range never reallocates
                u64 k = s.n() + r.range(1, 40); s.reserve(k); if (s.cap < k) violation("capacity-low", "reserve left less than requested");
                u64 calls = A.calls(); while (s.n() < k) { if (r.chance(1, 2)) s.push(); else if (r.chance(1, 2)) s.insert(r.range(0, s.n())); else s.resize(std::min<u64>(k, s.n() + r.range(1, 5)), true); }
                REQ(A.calls() == calls, "reserved-moved", "filling a reserved range used the allocator"); COUNT("reserved ranges filled"); }
            if (r.chance(1, 40)) vec_copy(s, r, A2); s.step(maxn); COUNT("vector operations"); }
        s.destroy(); break; }
    case 2: case 3: { StrCfg c = rnd_strcfg(r); dyn = c.dyn; FmtStrSim s(c, o, r, &A); s.init();
        for (u64 i = 0; i < ops; ++i) {
            if (r.chance(1, 20) && c.dyn) {
                u64 k = s.n() + r.range(1, 60); s.reserve(k); u64 calls = A.calls();
                while (s.n() < k) { Bytes t = rnd_text(r, r.range(1, std::min<u64>(k - s.n(), 9))); if (r.chance(1, 2)) s.append(t); else s.insert(r.range(0, s.n()), t); }
                REQ(A.calls() == calls, "reserved-moved", "filling a reserved range of a string used the allocator"); COUNT("reserved ranges filled"); }
            if (r.chance(1, 40)) str_copy(s, r, A2); s.step2(maxn); COUNT("string operations"); }
        s.destroy(); break; }
    default: { BitsCfg c = rnd_bitscfg(r); dyn = c.dyn; BitsSim s(c, o, r, &A); s.init(); for (u64 i = 0; i < ops; ++i) { s.step(maxn * 3); COUNT("bitset operations"); } s.destroy(); } }
    if (dyn) COUNT("dynamic histories"); else COUNT("fixed-buffer histories");
    return g_tr->ops > 5;
}
