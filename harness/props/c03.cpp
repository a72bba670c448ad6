// C03: element life cycle.
#include "copies.hpp"
#include "list_engine.hpp"
#define LARGE_VEC
#define LARGE_LIST
#include "large.hpp"
void prop_begin() {}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    Opt o; o.life = true; MonAlloc A, A2;
    u64 ops = r.chance(1, 8) ? r.range(80, 250) : r.range(10, 60), maxn = r.chance(1, 10) ? 150 : r.range(3, 30);
    ledger().armed = false;
    if (LARGE) { if (idx % 2) large_vec(o, r, A); else { o.content = true; large_list(o, r, A); } return true; }
    if (idx % 5 < 3) { VecCfg c = rnd_veccfg(r); c.dtor = !r.chance(1, 10); VecSim s(c, o, r, &A); s.init(); for (u64 i = 0; i < ops; ++i) { if (r.chance(1, 40)) vec_copy(s, r, A2); s.step(maxn); COUNT("vector operations"); } s.destroy(); }
    else { ListCfg c = rnd_listcfg(r); c.dtor = !r.chance(1, 10); o.content = true; ListSim s(c, o, r, &A); s.init(); for (u64 i = 0; i < ops; ++i) { s.step(maxn); COUNT("list operations"); } s.destroy(); }
    return g_tr->ops > 5;
}
