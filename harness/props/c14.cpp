// C14: a bitset always equals its bit-array model, whatever its size modulo 8.
#include "bits_engine.hpp"
#define LARGE_BITS
#include "large.hpp"
void prop_begin() {}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    Opt o; o.content = true;
    MonAlloc A;
    if (LARGE) { large_bits(o, r, A); return true; }
    BitsCfg c = rnd_bitscfg(r); BitsSim s(c, o, r, some_alloc(o, r, A, c.dyn, 25));
    s.init();
    u64 ops = r.chance(1, 8) ? r.range(80, 200) : r.range(8, 50), maxn = r.chance(1, 8) ? 300 : r.range(3, 70);
    for (u64 i = 0; i < ops; ++i) { s.step(maxn); COUNT("operations"); }
    if (c.dyn) COUNT("dynamic histories"); else COUNT("fixed-buffer histories");
    s.destroy();
    return g_tr->ops > 5;
}
