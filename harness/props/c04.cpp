// C04: block ownership. Two allocators are alive at once; every block must go back where it came from, described correctly.
#include "vec_engine.hpp"
#include "fmt_ops.hpp"
#include "list_engine.hpp"
#include "bits_engine.hpp"
#include "arg_engine.hpp"
#include "dupes.hpp"
#define LARGE_VEC
#define LARGE_STR
#define LARGE_LIST
#define LARGE_BITS
#include "large.hpp"
void prop_begin() { HeapWatch::install(); }
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    Opt o; o.alloc = true; MonAlloc A, B; A.name = "A"; B.name = "B";
    u64 ops = r.chance(1, 8) ? r.range(80, 250) : r.range(10, 60), maxn = r.chance(1, 10) ? 150 : r.range(3, 30);
    o.fault = r.chance(1, 3);             // failed operations must not lose blocks either
    if (LARGE) { large_fault(); switch (idx % 4) { case 0: large_vec(o, r, A, r.chance(1, 2)); break; case 1: large_str<FmtStrSim>(o, r, A); break; case 2: o.content = true; large_list(o, r, A); break; default: large_bits(o, r, A); } A.require_empty("end of the history"); return true; }
    bool dyn = true;
    switch (idx % 6) {
    case 0: case 1: { VecCfg c = rnd_veccfg(r); dyn = c.dyn; VecSim s(c, o, r, &A); s.persist = r.chance(1, 2); s.init();
        for (u64 i = 0; i < ops; ++i) { if (r.chance(1, 25)) vec_dup_alloc(s, r, B, o.fault); s.step(maxn); COUNT("vector operations"); }
        s.destroy(); break; }
    case 2: { StrCfg c = rnd_strcfg(r); dyn = c.dyn; FmtStrSim s(c, o, r, &A); s.persist = r.chance(1, 2); s.init();
        for (u64 i = 0; i < ops; ++i) { if (r.chance(1, 25)) str_dup_alloc(s, r, B, o.fault); s.step2(maxn); COUNT("string operations"); }
        s.destroy(); break; }
    case 3: { ListCfg c = rnd_listcfg(r); dyn = c.dyn; o.content = true; ListSim s(c, o, r, &A); s.persist = r.chance(1, 2); s.init();
        for (u64 i = 0; i < ops; ++i) { s.step(maxn); COUNT("list operations"); } s.destroy(); break; }
    case 4: { BitsCfg c = rnd_bitscfg(r); dyn = c.dyn; BitsSim s(c, o, r, &A); s.persist = r.chance(1, 2); s.init();
        for (u64 i = 0; i < ops; ++i) { s.step(maxn * 3); COUNT("bitset operations"); } s.destroy(); break; }
    default: for (int k = 0; k < 12; ++k) {
        ArgCase c; rnd_args(r, c, r.chance(2, 3)); trace("parse %s", c.str().c_str()); ArgMem M(c); ZyanVector v; memset(&v, 0xC3, sizeof v); const char* tok = UNTOUCHED;
        if (o.fault && r.chance(1, 2)) A.fail_at = (i64)(A.req + r.below(3));
        ZyanStatus st = ZyanArgParseEx(&M.cfg, &v, r.chance(1, 4) ? nullptr : &tok, A.get());
        A.fail_at = -1;
        if (ZYAN_SUCCESS(st)) { REQ(A.live.size() == 1, "parse-blocks", "an accepted command line owns %zu blocks", A.live.size()); st = ZyanVectorDestroy(&v); REQ(st == ZYAN_STATUS_SUCCESS, "destroy", "Destroy of the result: %s", st_name(st)); COUNT("accepted command lines"); }
        else COUNT("refused command lines");
        A.require_empty("argument parsing"); } }
    if (dyn) COUNT("dynamic histories"); else COUNT("fixed-buffer histories");
    A.require_empty("end of the history"); B.require_empty("end of the history");
    COUNTN("blocks obtained", A.n_alloc + A.n_realloc + B.n_alloc + B.n_realloc);
    return g_tr->ops > 5;
}
