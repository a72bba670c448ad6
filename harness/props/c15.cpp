// C15: accepted command lines against the reference parser.
#include "arg_engine.hpp"
#include "large.hpp"
void prop_begin() {}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) {
    MonAlloc A;
    if (SWEEP) { const u64 K = sweep_k(); for (int p = 0; p < 6; ++p) for (int q = 0; q < 2; ++q) { ArgCase c; sweep_args(r, c, K, p); trace("part %d %s", p, c.str().c_str()); arg_run(c, A, r, true, false); } return true; }
    if (idx < EX_LISTS) { bool first = true; arg_exhaustive(idx, [&](ArgCase& c) { if (first) trace("exhaustive %s", c.str().c_str()); first = false; arg_run(c, A, r, true, false); }); COUNT("exhaustive token lists"); return true; }
    if (r.chance(1, 1000)) { ArgCase c; large_args(r, c, large_size(r)); trace("large %s", c.str().c_str()); arg_run(c, A, r, true, false); return true; }
    for (int k = 0; k < 10; ++k) { ArgCase c; rnd_args(r, c, true);
        if (ref_parse(c).st != ZYAN_STATUS_SUCCESS) {      // repair towards acceptance: keeps the share of accepted lines high
            for (int z = 0; z < 40; ++z) { ArgExp e = ref_parse(c); if (e.st == ZYAN_STATUS_SUCCESS) break; if (e.err_tok > 0) c.argv.erase(c.argv.begin() + e.err_tok); else if (e.st == ZYAN_STATUS_TOO_FEW_ARGS) c.argv.insert(c.argv.empty() ? c.argv.end() : c.argv.begin() + 1, c.argv.empty() ? "prog" : "u"); else if (e.err_def >= 0) c.defs[e.err_def].required = false; else if (e.st == ZYAN_STATUS_INVALID_ARGUMENT) { c.defs.clear(); c.min_u = 0; } } }
        trace("%s", c.str().c_str()); arg_run(c, A, r, true, false); }
    return true;
}
