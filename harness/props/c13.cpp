// C13: a list always equals its deque model with consistent links in both directions.
#include "list_engine.hpp"
#define LARGE_LIST
#include "large.hpp"
void prop_begin() {}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    Opt o; o.content = true;
    MonAlloc A;
    if (LARGE) { large_list(o, r, A); return true; }
    ListCfg c = rnd_listcfg(r); ListSim s(c, o, r, some_alloc(o, r, A, c.dyn, 25));
    s.init();
    u64 ops = r.chance(1, 8) ? r.range(80, 250) : r.range(8, 60), maxn = r.chance(1, 8) ? 60 : r.range(3, 16);
    for (u64 i = 0; i < ops; ++i) { s.step(maxn); COUNT("operations"); }
    if (c.dyn) COUNT("dynamic histories"); else COUNT("fixed-buffer histories");
    s.destroy();
    return g_tr->ops > 5;
}
