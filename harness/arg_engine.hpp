// Argument parser: random/exhaustive inputs in exact-size memory and an independent reference parser.
#pragma once
#include "sim.hpp"

struct ArgCase {
    struct Def { std::string name; bool boolean, required; };
    std::vector<Def> defs; std::vector<std::string> argv; u64 min_u = 0, max_u = 0; bool null_defs = false;
    std::string str() const {
        std::string s = "defs["; for (auto& d : defs) s += d.name + (d.boolean ? ":b" : ":v") + (d.required ? "!" : "") + " ";
        s += "] limits " + std::to_string(min_u) + ".." + (max_u > 1000 ? "max" : std::to_string(max_u)) + " argv"; for (size_t i = 1; i < argv.size() && s.size() < 20000; ++i) s += " '" + argv[i] + "'"; return s; }
};
struct ArgExp {
    struct Item { int def; bool has_value; int tok; size_t off; };   // value = argv[tok] + off
    ZyanStatus st = ZYAN_STATUS_SUCCESS; std::vector<Item> items; int err_tok = -1, err_def = -1;
};
// Reference: written from the documentation. First classifies every token, then checks the limits.
inline ArgExp ref_parse(const ArgCase& c) {
    ArgExp e;
    if (c.min_u > c.max_u) { e.st = ZYAN_STATUS_INVALID_ARGUMENT; return e; }
    for (auto& d : c.defs) {
        bool two = d.name.size() >= 2 && d.name[0] == '-' && d.name[1] == '-';
        bool one = d.name.size() == 2 && d.name[0] == '-' && d.name[1] != '-';
        if (!two && !one) { e.st = ZYAN_STATUS_INVALID_ARGUMENT; return e; }
    }
    auto fail = [&](ZyanStatus s, int tok) { e.st = s; e.err_tok = tok; e.items.clear(); return e; };
    bool raw = false; u64 unnamed = 0;
    int argc = (int)c.argv.size();
    for (int t = 1; t < argc; ) {
        const std::string& a = c.argv[t];
        enum { Unnamed, End, Long, Group } k = Unnamed;
        if (!raw && !a.empty() && a[0] == '-') { if (a == "-") k = Unnamed; else if (a == "--") k = End; else if (a[1] == '-') k = Long; else k = Group; }
        if (k == End) { raw = true; ++t; }
        else if (k == Unnamed) { if (++unnamed > c.max_u) return fail(ZYAN_STATUS_TOO_MANY_ARGS, t); e.items.push_back({-1, true, t, 0}); ++t; }
        else if (k == Long) {
            int d = -1; for (size_t i = 0; i < c.defs.size() && d < 0; ++i) if (c.defs[i].name == a) d = (int)i;
            if (d < 0) return fail(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, t);
            if (c.defs[d].boolean) { e.items.push_back({d, false, 0, 0}); ++t; }
            else { if (t + 1 >= argc) return fail(ZYAN_STATUS_ARG_MISSES_VALUE, t); e.items.push_back({d, true, t + 1, 0}); t += 2; }
        } else {
            size_t p = 1; int next = t + 1;
            while (p < a.size()) {
                int d = -1; for (size_t i = 0; i < c.defs.size() && d < 0; ++i) if (c.defs[i].name.size() == 2 && c.defs[i].name[1] == a[p]) d = (int)i;
                if (d < 0) return fail(ZYAN_STATUS_ARG_NOT_UNDERSTOOD, t);
                if (c.defs[d].boolean) { e.items.push_back({d, false, 0, 0}); ++p; continue; }
                if (p + 1 < a.size()) e.items.push_back({d, true, t, p + 1});
                else { if (t + 1 >= argc) return fail(ZYAN_STATUS_ARG_MISSES_VALUE, t); e.items.push_back({d, true, t + 1, 0}); next = t + 2; }
                break;
            }
            t = next;
        }
    }
    if (unnamed < c.min_u) return fail(ZYAN_STATUS_TOO_FEW_ARGS, -1);
    for (size_t i = 0; i < c.defs.size(); ++i) if (c.defs[i].required) {
        bool f = false; for (auto& it : e.items) f |= it.def == (int)i;
        if (!f) { fail(ZYAN_STATUS_REQUIRED_ARG_MISSING, -1); e.err_def = (int)i; return e; } }
    return e;
}
// The same case laid out for the library: every string, the argv array and the table in exact-size blocks.
struct ArgMem {
    std::vector<char*> toks; const char** argv; ZyanArgParseDefinition* defs; std::vector<char*> names; ZyanArgParseConfig cfg;
    explicit ArgMem(const ArgCase& c) {
        for (auto& a : c.argv) { char* p = (char*)malloc(a.size() + 1); memcpy(p, a.c_str(), a.size() + 1); toks.push_back(p); }
        argv = (const char**)malloc(sizeof(char*) * (toks.size() ? toks.size() : 1)); for (size_t i = 0; i < toks.size(); ++i) argv[i] = toks[i];
        defs = (ZyanArgParseDefinition*)malloc(sizeof(*defs) * (c.defs.size() + 1)); memset((void*)defs, 0, sizeof(*defs) * (c.defs.size() + 1));
        for (size_t i = 0; i < c.defs.size(); ++i) { char* p = (char*)malloc(c.defs[i].name.size() + 1); memcpy(p, c.defs[i].name.c_str(), c.defs[i].name.size() + 1); names.push_back(p);
            defs[i].name = p; defs[i].boolean = c.defs[i].boolean; defs[i].required = c.defs[i].required; }
        memset(&cfg, 0, sizeof cfg); cfg.argv = argv; cfg.argc = c.argv.size(); cfg.min_unnamed_args = c.min_u; cfg.max_unnamed_args = c.max_u; cfg.args = (c.defs.empty() && c.null_defs) ? nullptr : defs;
    }
    ~ArgMem() { for (auto p : toks) free(p); for (auto p : names) free(p); free((void*)argv); free(defs); }
    ArgMem(const ArgMem&) = delete;
};
inline const char* arg_st(ZyanStatus s) {
    switch (s) { case ZYAN_STATUS_ARG_NOT_UNDERSTOOD: return "ARG_NOT_UNDERSTOOD"; case ZYAN_STATUS_TOO_FEW_ARGS: return "TOO_FEW_ARGS"; case ZYAN_STATUS_TOO_MANY_ARGS: return "TOO_MANY_ARGS";
        case ZYAN_STATUS_ARG_MISSES_VALUE: return "ARG_MISSES_VALUE"; case ZYAN_STATUS_REQUIRED_ARG_MISSING: return "REQUIRED_ARG_MISSING"; default: return st_name(s); } }
static const char* const UNTOUCHED = "untouched";
// Compares an accepted result with the expectation and destroys it.
inline void arg_check_result(const ArgCase& c, const ArgMem& M, const ArgExp& e, ZyanVector* v) {
    ZyanUSize n = 0x77; ZyanStatus q = ZyanVectorGetSize(v, &n);
    REQ(q == ZYAN_STATUS_SUCCESS && n == e.items.size(), "arg-count", "%zu entries instead of %zu: %s", (size_t)n, e.items.size(), c.str().c_str());
    for (size_t i = 0; i < n; ++i) {
        const ZyanArgParseArg* a = (const ZyanArgParseArg*)ZyanVectorGet(v, i); const ArgExp::Item& x = e.items[i];
        REQ(a, "arg-get", "entry %zu not accessible", i);
        REQ(a->def == (x.def < 0 ? nullptr : M.defs + x.def), "arg-def", "entry %zu refers to the wrong definition (%td instead of %d): %s", i, a->def ? a->def - M.defs : -1, x.def, c.str().c_str());
        REQ((a->has_value != 0) == x.has_value, "arg-has-value", "entry %zu has_value=%d: %s", i, a->has_value, c.str().c_str());
        if (x.has_value) { ZyanUSize vs = 0x77; const char* d = nullptr;
            REQ(ZyanStringViewGetSize(&a->value, &vs) == ZYAN_STATUS_SUCCESS && ZyanStringViewGetData(&a->value, &d) == ZYAN_STATUS_SUCCESS, "arg-value", "entry %zu: value view broken: %s", i, c.str().c_str());
            REQ(d == M.toks[x.tok] + x.off && vs == c.argv[x.tok].size() - x.off, "arg-value", "entry %zu: value '%.*s' is not token %d offset %zu: %s", i, (int)std::min<size_t>(vs, 60), d, x.tok, x.off, c.str().c_str()); }
        COUNT("entries compared");
    }
    q = ZyanVectorDestroy(v); REQ(q == ZYAN_STATUS_SUCCESS, "arg-destroy", "Destroy of the result returned %s", st_name(q));
}
inline void rnd_args(Rng& r, ArgCase& c, bool valid_table) {
    static const char letters[] = "abcxyz1-"; 
    // many: tables beyond 8, 16, 32, 64 and 128 entries, any character as letter, names up to some hundred characters
    bool many = r.chance(1, 25); size_t nd = many ? (r.chance(1, 3) ? r.range(60, 300) : r.range(6, 70)) : r.below(6); u64 rq = many ? r.range(2, 60) : 6;
    for (size_t i = 0; i < nd; ++i) {
        ArgCase::Def d; d.boolean = r.chance(1, 2); d.required = r.chance(1, rq);
        for (int tries = 0; tries < 50; ++tries) {
            if (r.chance(1, 2)) { u8 ch = many ? (u8)r.range(1, 255) : (u8)letters[r.below(7)]; if (ch == '-') ch = '='; d.name = std::string("-") + (char)ch; }
            else { d.name = "--"; size_t l = r.chance(1, 12) ? 0 : many ? (r.chance(1, 20) ? r.range(100, 600) : r.range(1, 8)) : r.range(1, 4); for (size_t k = 0; k < l; ++k) d.name += many && r.chance(1, 30) ? (char)r.range(1, 255) : letters[r.below(8)]; }
            if (!valid_table && r.chance(1, 8)) d.name = r.pick<const char*>({"", "-", "a", "ab", "-ab", "a-", "abc--", "-a-"});
            bool dup = false; for (auto& o : c.defs) dup |= o.name == d.name;
            if (!dup) { c.defs.push_back(d); break; }
        }
    }
    if (r.chance(1, 15)) {   // a family of names that differ by a single character or by their length only
        std::string b = "--"; u64 l = r.chance(1, 2) ? r.range(1, 40) : r.pick<u64>({14, 30, 62, 126, 254, 255, 510, 1022, 4094}) - 2 + r.below(5); for (u64 k = 0; k < l; ++k) b += (char)(r.chance(1, 40) ? r.range(1, 255) : letters[r.below(7)]);
        for (u64 k = r.range(2, 4); k; --k) { ArgCase::Def d; d.boolean = r.chance(1, 2); d.required = r.chance(1, 10); d.name = b;
            switch (r.below(6)) { case 0: break; case 1: d.name += letters[r.below(7)]; break; case 2: if (l > 1) d.name.pop_back(); break; case 3: d.name.back() ^= 0x20; if (!d.name.back()) d.name.back() = 'q'; break;
                case 4: d.name.back() = letters[r.below(7)]; break; default: d.name[2 + r.below(l)] = letters[r.below(7)]; }
            bool dup = false; for (auto& o : c.defs) dup |= o.name == d.name; if (!dup) c.defs.insert(c.defs.begin() + r.below(c.defs.size() + 1), d); }
        COUNT("families of similar names"); }
    if (many) COUNT("large tables");
    c.null_defs = r.chance(1, 2);
    c.argv.push_back("prog"); if (r.chance(1, 20)) c.argv.clear(); 
    size_t nt = c.argv.empty() ? 0 : r.chance(1, 10) || (many && r.chance(1, 2)) ? r.range(10, 40) : r.below(8);
    if (many && nt && r.chance(2, 3)) for (size_t i = 0; i < c.defs.size(); ++i) if (c.defs[i].required ? !r.chance(1, 60) : r.chance(1, 10)) { c.argv.push_back(c.defs[i].name); if (!c.defs[i].boolean) { if (c.defs[i].name[1] != '-' && r.chance(1, 2)) c.argv.back() += "value"; else c.argv.push_back("value"); } }
    for (size_t i = 0; i < nt; ++i) {
        std::string t; u64 w = r.below(100);
        if (w < 25 && !c.defs.empty()) { t = c.defs[r.below(c.defs.size())].name; if (r.chance(1, 12)) t += r.pick<const char*>({"=", "x", "-"}); if (t.size() > 2 && r.chance(1, 15)) t.pop_back(); else if (t.size() > 3 && r.chance(1, 15)) t[2 + r.below(t.size() - 2)] = letters[r.below(7)]; }
        else if (w < 55) { t = "-"; size_t l = r.range(1, 4); for (size_t k = 0; k < l; ++k) { if (!c.defs.empty() && r.chance(5, 6)) { auto& nm = c.defs[r.below(c.defs.size())].name; t += nm.size() > 1 && nm[1] != '-' ? nm[1] : letters[r.below(7)]; } else t += letters[r.below(8)]; } }
        else if (w < 62) t = "--"; else if (w < 68) t = "-"; else if (w < 73) t = ""; else if (w < 77) t = r.pick<const char*>({"---", "--a", "--x", "-=", "-\xff", "--\xff\x80", "- ", "-- "});
        else { size_t l = r.range(1, 5); for (size_t k = 0; k < l; ++k) t += r.chance(1, 8) ? (char)r.range(1, 255) : letters[r.below(7)]; }
        if (r.chance(1, 8)) {    // punctuation, quotes, blanks, control and high bytes at the front, at the end or glued to an option
            static const char odd[] = "=:,;/\\\"'@+%# \t\n\r*?[]{}()!~^&|<>_.-0\x01\x7f\x80\xff"; std::string q; for (u64 k = r.range(1, 3); k; --k) q += odd[r.below(sizeof odd - 1)];
            switch (r.below(4)) { case 0: t = q + t; break; case 1: t += q; break; case 2: t = q; break; default: if (!c.defs.empty()) t = c.defs[r.below(c.defs.size())].name; t += q; if (r.chance(1, 2)) t += "x"; } }
        c.argv.push_back(t);
    }
    c.min_u = r.chance(3, 4) ? 0 : r.below(4); c.max_u = r.chance(1, 2) ? (r.chance(1, 2) ? UMAX : 100) : c.min_u + r.below(5);
    if (!valid_table && r.chance(1, 12)) { c.min_u = r.range(1, 5); c.max_u = c.min_u - r.range(1, c.min_u); }
}
// More tokens, longer tokens and limits beyond 2^16.
inline void large_args(Rng& r, ArgCase& c, u64 T) {
    c.defs.push_back({"-a", true, r.chance(1, 4)}); c.defs.push_back({"-v", false, r.chance(1, 4)}); c.defs.push_back({"--long", true, false}); c.defs.push_back({"--val", false, false});
    c.argv.push_back("prog"); u64 unnamed = 0;
    switch (r.below(3)) {
    case 0: { int mode = (int)r.below(3); for (u64 i = 0; i < T; ++i) { if (mode == 0) { c.argv.push_back("x"); ++unnamed; } else if (mode == 1) c.argv.push_back(r.chance(1, 2) ? "-a" : "--long"); else { c.argv.push_back(r.pick<const char*>({"u", "-aa", "-vq", "-", "--long"})); unnamed += c.argv.back()[0] == 'u' || c.argv.back() == "-"; } } break; }
    case 1: c.argv.push_back("-" + std::string(T, 'a')); if (r.chance(1, 2)) c.argv.back() += "v"; if (r.chance(1, 2)) { c.argv.push_back("tail"); } unnamed = 1; break;
    default: c.argv.push_back("-a"); c.argv.push_back(r.chance(1, 2) ? "-v" + std::string(T, 'y') : std::string(T, 'y')); c.argv.push_back("--val"); c.argv.push_back(std::string(T + r.below(5), 'z')); unnamed = 1; }
    if (r.chance(1, 6)) c.argv.push_back(r.pick<const char*>({"-z", "--nope", "-v", "--val"}));
    if (r.chance(1, 8)) c.argv.insert(c.argv.begin() + 1 + r.below(c.argv.size()), r.pick<const char*>({"-z", "--"}));
    switch (r.below(4)) { case 0: c.min_u = 0; c.max_u = UMAX; break; case 1: c.min_u = unnamed; c.max_u = unnamed; break; case 2: c.min_u = 0; c.max_u = unnamed - (unnamed ? r.below(2) : 0); break; default: c.min_u = unnamed + r.below(2); c.max_u = UMAX; }
    COUNT("large command lines");
}
// Command lines in which K is the length of a token, of a value or of a name, the number of tokens or of definitions, or a limit.
inline void sweep_args(Rng& r, ArgCase& c, u64 K, int part) {
    u64 unnamed = 0; auto un = [&](std::string t) { c.argv.push_back(t); ++unnamed; };
    auto std_defs = [&] { c.defs.push_back({"-a", true, r.chance(1, 4)}); c.defs.push_back({"-v", false, r.chance(1, 8)}); c.defs.push_back({"--long", true, false}); c.defs.push_back({"--val", false, false}); };
    c.argv.push_back("prog"); c.null_defs = r.chance(1, 2);
    switch (part) {
    case 0: std_defs(); if (r.chance(1, 3)) un("u"); if (K == 1) un("-"); else { std::string t = "-" + std::string(K - 1, 'a'); if (r.chance(1, 3)) t.back() = 'v'; c.argv.push_back(t); if (t.back() == 'v') c.argv.push_back(r.chance(1, 6) ? "-" : "w"); } break;
    case 1: { std_defs(); int mode = (int)r.below(3); while (c.argv.size() < K) { if (mode == 0) un("x"); else if (mode == 1) c.argv.push_back(r.chance(1, 2) ? "-a" : "--long"); else switch (r.below(5)) { case 0: un("u"); break; case 1: c.argv.push_back("-aa"); break; case 2: c.argv.push_back("-vq"); break; case 3: un("-"); break; default: c.argv.push_back("--long"); } }
        if (r.chance(1, 4)) { c.argv.push_back("--"); for (u64 k = r.below(4); k; --k) un(r.pick<const char*>({"-a", "--", "x", "-z"})); } break; }
    case 2: { std_defs(); std::string y(K, r.chance(1, 6) ? '-' : 'y'); if (r.chance(1, 2)) c.argv.push_back("-v" + y); else { c.argv.push_back("-v"); c.argv.push_back(y); } c.argv.push_back("--val"); c.argv.push_back(std::string(K, 'z')); un(std::string(K, 'u')); break; }
    case 3: { std::string b(K, 'n'); for (auto& x : b) x = "abcxyz1-"[r.below(8)]; c.defs.push_back({"--" + b, r.chance(1, 2), false}); c.defs.push_back({"--" + b + "q", r.chance(1, 2), false}); if (K > 1) { std::string d = b; d[0] = d[0] == 'w' ? 'k' : 'w'; c.defs.push_back({"--" + d, r.chance(1, 2), false}); d = b; d[K - 1] = 'w'; c.defs.push_back({"--" + d, r.chance(1, 2), false}); }
        std::swap(c.defs[0], c.defs[r.below(c.defs.size())]); c.defs.push_back({"-a", true, false}); for (auto& d : c.defs) if (r.chance(2, 3)) { c.argv.push_back(d.name); if (!d.boolean) c.argv.push_back("value"); } break; }
    case 4: { for (u64 k = 0; k < K; ++k) c.defs.push_back({"--" + std::to_string(k), r.chance(1, 2), false}); c.defs.push_back({"-a", true, r.chance(1, 2)}); c.defs[K - 1].required = r.chance(1, 3);
        for (u64 k : {K - 1, K / 2, (u64)0}) if (r.chance(2, 3)) { c.argv.push_back("--" + std::to_string(k)); if (!c.defs[k].boolean) c.argv.push_back("value"); } break; }
    default: std_defs(); for (u64 k = 0; k < K; ++k) un("u"); c.min_u = r.chance(1, 2) ? K : 0; c.max_u = r.chance(1, 2) ? K : UMAX; if (r.chance(1, 4)) { ++c.min_u; if (c.max_u != UMAX && r.chance(1, 2)) ++c.max_u; } else if (r.chance(1, 4)) { c.max_u = K - 1; if (c.min_u > c.max_u && r.chance(3, 4)) c.min_u = c.max_u; } }
    if (part != 4 && r.chance(1, 2)) c.argv.push_back(r.chance(1, 2) && part != 3 ? "--long" : "-a"); if (r.chance(2, 3)) { c.argv.push_back("tail"); ++unnamed; } if (r.chance(2, 3)) c.argv.push_back("-a");
    if (r.chance(1, 4)) c.argv.push_back(r.pick<const char*>({"-z", "--nope", "-v", "--val"}));
    if (part != 5) { c.min_u = 0; c.max_u = UMAX; switch (r.below(6)) { case 0: c.min_u = c.max_u = unnamed; break; case 1: c.max_u = unnamed - (unnamed > 0); break; case 2: c.min_u = unnamed + 1; break; default: break; } }
}
inline u64 count_blocks(MonAlloc& A) { return A.live.size(); }
// One parse under monitoring. judge_ok / judge_err select which half of the specification is judged.
inline void arg_run(const ArgCase& c, MonAlloc& A, Rng& r, bool judge_ok, bool judge_err) {
    ArgExp e = ref_parse(c); ArgMem M(c); ZyanVector v; memset(&v, 0xC3, sizeof v); const char* tok = UNTOUCHED;
    bool with_tok = !r.chance(1, 8), dflt = r.chance(1, 10);
    // the caller's memory must not be written: keep copies
    std::vector<std::string> before; for (auto p : M.toks) before.push_back(p);
    ZyanArgParseConfig cfg0 = M.cfg;
    ZyanStatus st = dflt ? ZyanArgParse(&M.cfg, &v, with_tok ? &tok : nullptr) : ZyanArgParseEx(&M.cfg, &v, with_tok ? &tok : nullptr, A.get());
    if (e.st == ZYAN_STATUS_SUCCESS) {
        if (judge_ok) REQ(st == ZYAN_STATUS_SUCCESS, "refused", "a valid command line was refused with %s: %s", arg_st(st), c.str().c_str());
        if (!ZYAN_SUCCESS(st)) return;
        if (judge_ok) { if (!dflt) REQ(A.live.size() == 1, "arg-blocks", "the result owns %zu blocks", A.live.size()); arg_check_result(c, M, e, &v); COUNT("accepted command lines"); }
        else ZyanVectorDestroy(&v);
        if (with_tok && judge_err) REQ(tok == nullptr, "error-token-success", "success left the error text '%s'", tok);
        for (size_t i = 0; i < before.size(); ++i) REQ(before[i] == M.toks[i], "arg-changed", "the parser changed token %zu", i);
    } else {
        if (judge_err) {
            REQ(st == e.st, "error-status", "parser returned %s, expected %s: %s", arg_st(st), arg_st(e.st), c.str().c_str());
            if (with_tok) {
                if (e.err_tok >= 0) REQ(tok == M.toks[e.err_tok], "error-token", "%s names '%s' instead of token %d: %s", arg_st(st), tok ? tok : "(null)", e.err_tok, c.str().c_str());
                else if (e.err_def >= 0) REQ(tok && tok == M.names[e.err_def], "error-token", "%s names '%s' instead of '%s': %s", arg_st(st), tok ? tok : "(null)", M.names[e.err_def], c.str().c_str());
            }
            switch (e.st) { case ZYAN_STATUS_INVALID_ARGUMENT: COUNT("refused tables or limits"); break; case ZYAN_STATUS_ARG_NOT_UNDERSTOOD: COUNT("unknown arguments"); break; case ZYAN_STATUS_ARG_MISSES_VALUE: COUNT("missing values"); break;
                case ZYAN_STATUS_TOO_MANY_ARGS: COUNT("too many unnamed"); break; case ZYAN_STATUS_TOO_FEW_ARGS: COUNT("too few unnamed"); break; default: COUNT("missing required"); }
            A.require_empty("refused command line");
        } else if (ZYAN_SUCCESS(st)) ZyanVectorDestroy(&v);
    }
    REQ(!memcmp(&cfg0, &M.cfg, sizeof cfg0), "arg-changed", "the parser changed the configuration");
    A.require_empty("argument parsing");
}
// Exhaustive part: all token lists up to length 4 over ten tokens, with six tables and four limits.
static const char* const EX_TOK[10] = {"-a", "-b", "-v", "-ab", "-av", "-vx", "--long", "--val", "--", "x"};
static const u64 EX_LISTS = 1 + 10 + 100 + 1000 + 10000;
template <class F> inline void arg_exhaustive(u64 idx, F f) {
    std::vector<std::string> av{"prog"}; u64 q = idx, l = 0, p = 1; while (q >= p) { q -= p; p *= 10; ++l; } for (u64 j = 0; j < l; ++j) { av.push_back(EX_TOK[q % 10]); q /= 10; }
    const ArgCase::Def T[6][4] = {
        {{"-a", true, false}, {"-b", true, false}, {"-v", false, false}, {"--long", true, false}},
        {{"-v", false, true}, {"-a", true, false}, {"-b", false, false}, {"--val", false, false}},
        {{"--long", true, true}, {"--val", false, true}, {"-a", true, false}, {"-b", true, false}},
        {{"-a", true, true}, {"-b", false, false}, {"-v", false, false}, {"--val", true, false}},
        {{"-a", false, false}, {"--long", false, false}, {"--val", false, true}, {"-v", true, false}},
        {{"-x", true, false}, {"-a", true, true}, {"-b", true, true}, {"-v", false, false}}};
    const u64 L[4][2] = {{0, UMAX}, {0, 0}, {1, 2}, {2, 3}};
    for (int t = 0; t < 6; ++t) for (int k = 0; k < 4; ++k) { ArgCase c; c.argv = av; c.min_u = L[k][0]; c.max_u = L[k][1]; for (int d = 0; d < 4; ++d) c.defs.push_back(T[t][d]); f(c); }
}
