// C01: a vector always equals the sequence its operation history describes.
#include "copies.hpp"
#define LARGE_VEC
#include "large.hpp"
void prop_begin() {}
void prop_end() {}

bool prop_case(u64 idx, Rng& r) {
    Opt o; o.content = true;
    MonAlloc A, A2;
    if (LARGE) {
        if (!SWEEP && r.chance(1, 6)) {     // duplicates of large vectors and of wide elements
            bool wide = r.chance(2, 3); u64 T = large_size(r); VecCfg c = large_veccfg(r, T); if (wide) { c.es = wide_size(r); c.cap0 = r.range(1, 12); }
            VecSim s(c, o, r, &A); s.init();
            if (!wide) s.resize(c.dyn ? T : c.cap0, true); else for (int i = 0; i < 6; ++i) s.step(8);
            vec_copy(s, r, A2, wide ? 8 : T); s.destroy(); return true; }
        large_vec(o, r, A); return true; }
    VecCfg c = rnd_veccfg(r);
    VecSim s(c, o, r, some_alloc(o, r, A, c.dyn, 25));
    s.init();
    u64 ops = r.chance(1, 8) ? r.range(100, 300) : r.range(10, 60);
    u64 maxn = r.chance(1, 10) ? 200 : r.range(3, 40);
    for (u64 i = 0; i < ops; ++i) {
        if (r.chance(1, 25)) vec_copy(s, r, A2);
        s.step(maxn); COUNT("operations");
    }
    if (c.dyn) COUNT("dynamic histories"); else COUNT("fixed-buffer histories");
    s.destroy();
    return g_tr->ops > 5;
}
