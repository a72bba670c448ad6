// C07: a string always equals its model and is always zero-terminated.
#include "copies.hpp"
#define LARGE_STR
#include "large.hpp"
void prop_begin() {}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    Opt o; o.content = true;
    MonAlloc A, A2;
    if (LARGE) { large_str<StrSim>(o, r, A); return true; }
    StrCfg c = rnd_strcfg(r); StrSim s(c, o, r, some_alloc(o, r, A, c.dyn, 25));
    s.init();
    u64 ops = r.chance(1, 8) ? r.range(80, 250) : r.range(8, 50), maxn = r.chance(1, 8) ? 300 : r.range(3, 70);
    for (u64 i = 0; i < ops; ++i) { if (r.chance(1, 40)) str_copy(s, r, A2); s.step(maxn); COUNT("operations"); }
    if (c.dyn) COUNT("dynamic histories"); else COUNT("fixed-buffer histories");
    s.destroy();
    return g_tr->ops > 5;
}
