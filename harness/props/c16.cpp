// C16: refused command lines: status, attribution, nothing left behind; allocation failures at every request.
#include "arg_engine.hpp"
#include "large.hpp"
void prop_begin() {}
void prop_end() {}
static void faults(const ArgCase& c, MonAlloc& A, Rng& r) {
    ArgExp e = ref_parse(c); ArgMem M(c); bool persist = r.chance(1, 2);
    for (u64 q = 0; q < 200; ++q) { ZyanVector v; memset(&v, 0xC3, sizeof v); const char* tok = UNTOUCHED; u64 f0 = A.failed; A.fail_at = (i64)(A.req + q); A.fail_persist = persist;
        ZyanStatus st = ZyanArgParseEx(&M.cfg, &v, &tok, A.get()); A.fail_at = -1; A.fail_persist = false;
        if (A.failed == f0) { if (ZYAN_SUCCESS(st)) ZyanVectorDestroy(&v); REQ(ZYAN_SUCCESS(st) == (e.st == ZYAN_STATUS_SUCCESS), "after-failure", "parser returned %s after earlier failures, expected %s", arg_st(st), arg_st(e.st)); A.require_empty("argument parsing"); return; }
        REQ(st == INJECTED_STATUS, "failure-status", "parser returned %s when an allocator request failed: %s", arg_st(st), c.str().c_str()); A.require_empty("parsing without memory"); COUNT("allocation failures"); if (q) COUNT("allocation failures while growing"); }
}
bool prop_case(u64 idx, Rng& r) {
    MonAlloc A;
    if (SWEEP) { const u64 K = sweep_k(); for (int p = 0; p < 6; ++p) for (int q = 0; q < 2; ++q) { ArgCase c; sweep_args(r, c, K, p); trace("part %d %s", p, c.str().c_str()); arg_run(c, A, r, false, true); } return true; }
    if (idx < EX_LISTS) { bool first = true; arg_exhaustive(idx, [&](ArgCase& c) { if (first) trace("exhaustive %s", c.str().c_str()); first = false; arg_run(c, A, r, false, true); }); COUNT("exhaustive token lists"); return true; }
    if (r.chance(1, 1000)) { ArgCase c; large_args(r, c, large_size(r)); trace("large %s", c.str().c_str()); arg_run(c, A, r, false, true); if (r.chance(1, 4)) faults(c, A, r); return true; }
    for (int k = 0; k < 10; ++k) { ArgCase c; rnd_args(r, c, r.chance(1, 2)); trace("%s", c.str().c_str()); arg_run(c, A, r, false, true); if (k < 2) faults(c, A, r);
        if (k == 0) {     // many flags in few tokens: the result must grow
            ArgCase g; g.defs.push_back({"-a", true, false}); g.defs.push_back({"--v", false, r.chance(1, 4)}); g.argv.push_back("prog"); u64 n = r.range(1, 3); for (u64 i = 0; i < n; ++i) g.argv.push_back("-" + std::string(r.range(1, 40), 'a')); if (r.chance(1, 3)) g.argv.push_back(r.pick<const char*>({"-z", "--v", "u", "-aaaaz"})); g.max_u = r.below(2); trace("%s", g.str().c_str()); arg_run(g, A, r, false, true); faults(g, A, r); } }
    return true;
}
