#include "vh.hpp"
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <malloc.h>
#include <time.h>
#include <errno.h>
#include <fenv.h>
#include <locale.h>

TraceMap* g_tr; u64 g_tr_cap; u64 g_trace_hash; Stats g_st;
u64 g_seed = 1, g_total_cases = 0; bool g_thorough = false, g_verbose = false;
static const u64 TR_SIZE = 1 << 18;
static std::string g_out;

void trace_begin(u64 idx) { g_tr->case_idx = idx; g_tr->len = 0; g_tr->ops = 0; g_tr->in_case = 1; g_trace_hash = 0xcbf29ce484222325ull; }
void trace(const char* fmt, ...) {
    char b[400]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (n < 0) return; if (n >= (int)sizeof b) n = sizeof b - 1;
    g_trace_hash = hash_bytes(b, n, g_trace_hash);
    g_tr->ops = g_tr->ops + 1;
    if (g_verbose) { fputs(b, stderr); fputc('\n', stderr); }
    u64 l = g_tr->len;
    if (l + n + 2 > g_tr_cap) {               // keep the most recent half
        u64 half = g_tr_cap / 2; memmove(g_tr->text, g_tr->text + (l - half), half); l = half;
    }
    memcpy(g_tr->text + l, b, n); g_tr->text[l + n] = '\n'; g_tr->len = l + n + 1;
}
void violation(const char* key, const char* fmt, ...) {
    char b[4000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    fprintf(stderr, "@@VIOLATION key=%s case=%llu msg=%s\n", key, (unsigned long long)g_tr->case_idx, b);
    fflush(stderr); _exit(3);
}
void harness_error(const char* fmt, ...) {
    char b[2000]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    fprintf(stderr, "@@HARNESS-ERROR %s\n", b); fflush(stderr); _exit(2);
}
static void jstr(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char c : s) { if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void write_out() {
    FILE* f = fopen(g_out.c_str(), "w"); if (!f) harness_error("cannot write %s", g_out.c_str());
    fprintf(f, "{\"evals\":%llu,\"counters\":{", (unsigned long long)g_st.evals);
    bool first = true;
    for (auto& k : g_st.cnt) { fprintf(f, "%s", first ? "" : ","); first = false; jstr(f, k.first); fprintf(f, ":%llu", (unsigned long long)k.second); }
    fprintf(f, "},\"samples\":["); first = true;
    for (auto& s : g_st.samples) { fprintf(f, "%s", first ? "" : ","); first = false; jstr(f, s); }
    fprintf(f, "]}\n"); fclose(f);
    auto dump = [&](const char* ext, const std::unordered_set<u64>& s) {
        FILE* g = fopen((g_out + ext).c_str(), "wb"); if (!g) harness_error("cannot write");
        for (u64 v : s) fwrite(&v, 8, 1, g); fclose(g); };
    dump(".distinct", g_st.distinct); dump(".states", g_st.states);
}
// The state of the process around the library: what no function of it documents to depend on changes from case to case.
struct Surroundings {
    char** own; std::vector<locale_t> loc;
    Surroundings() : own(environ) {
        for (const char* n : { "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "C.UTF-8" }) if (locale_t l = newlocale(LC_ALL_MASK, n, (locale_t)0)) loc.push_back(l); }
    void change(u64 i) {
        static const char* e1[] = { "TERM=dumb", "NO_COLOR=1", "POSIXLY_CORRECT=1", "LANG=tr_TR", nullptr };
        static const char* e2[] = { "TERM=xterm-256color", "COLORTERM=truecolor", "CLICOLOR_FORCE=1", "FORCE_COLOR=3", "COLUMNS=7", "LINES=1", nullptr };
        static const char* e3[] = { "CI=true", "DEBUG=1", "TERM=", "LC_ALL=de_DE", "TZ=Asia/Kolkata", "HOME=/nonexistent", "PATH=", nullptr };
        static const char* e4[] = { nullptr };
        static const char** envs[] = { e1, e2, e3, e4 };
        Rng r(mix64(g_seed ^ 0x5EEDC0DEull, i));
        if (r.chance(1, 2)) return;
        if (r.chance(3, 5)) { environ = (char**)envs[r.below(4)]; g_st.cnt["cases with another environment"]++; }
        if (!loc.empty() && r.chance(3, 5)) { uselocale(loc[r.below(loc.size())]); g_st.cnt["cases in another locale"]++; }
        if (r.chance(1, 4)) { static const int m[] = { FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO }; fesetround(m[r.below(3)]); g_st.cnt["cases with another rounding mode"]++; }
        static const int e[] = { EINTR, ENOMEM, EINVAL, ERANGE, EBADF, ENOTTY, EAGAIN, -1, 0 };
        errno = e[r.below(9)]; }
    void restore() { environ = own; uselocale(LC_GLOBAL_LOCALE); fesetround(FE_TONEAREST); errno = 0; }
};
int main(int argc, char** argv) {
    u64 from = 0, stride = 1; i64 only = -1; const char* trfile = nullptr; double deadline = 0;
    for (int i = 1; i < argc; ++i) {
        auto val = [&]() -> const char* { if (i + 1 >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return argv[++i]; };
        std::string a = argv[i];
        if (a == "--seed") g_seed = strtoull(val(), 0, 10);
        else if (a == "--cases") g_total_cases = strtoull(val(), 0, 10);
        else if (a == "--from") from = strtoull(val(), 0, 10);
        else if (a == "--stride") stride = strtoull(val(), 0, 10);
        else if (a == "--only") only = strtoll(val(), 0, 10);
        else if (a == "--trace") trfile = val();
        else if (a == "--out") g_out = val();
        else if (a == "--deadline") deadline = strtod(val(), 0);
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--verbose") g_verbose = true;
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 2; }
    }
    if (trfile) {
        int fd = open(trfile, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, TR_SIZE)) { perror("trace"); return 2; }
        g_tr = (TraceMap*)mmap(0, TR_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (g_tr == MAP_FAILED) { perror("mmap"); return 2; }
        close(fd);
    } else g_tr = (TraceMap*)calloc(1, TR_SIZE);
    g_tr_cap = TR_SIZE - sizeof(TraceMap) - 8;
    Surroundings around;
    prop_begin();
    if (only >= 0) { from = (u64)only; stride = 1; g_total_cases = from + 1; }
    auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; };
    const double t0 = now();
    for (u64 i = from; i < g_total_cases; i += stride) {
        if (deadline > 0 && now() - t0 > deadline) { g_st.cnt["shards stopped by their time limit"] = 1; break; }
        trace_begin(i);
        Rng rng(mix64(g_seed, i));
        around.change(i);
        bool nontrivial = prop_case(i, rng);
        around.restore();
        ++g_st.evals;
        if (nontrivial && g_st.distinct.size() < 400000) g_st.distinct.insert(g_trace_hash);
        if (nontrivial && (g_st.samples.size() < 2) && g_tr->len > 40)
            g_st.samples.push_back("case " + std::to_string(i) + ": " + std::string(g_tr->text, std::min<u64>((u64)g_tr->len, 700)));
        g_tr->in_case = 0;
    }
    prop_end();
    if (!g_out.empty()) write_out();
    return 0;
}

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
// Compiled with -tsan-distinguish-volatile: accesses to volatile objects are single-copy accesses of the processor; the sanitizer sees them as
// relaxed atomic ones, which order nothing. Whatever is published through them alone is still reported.
#include <sanitizer/tsan_interface_atomic.h>
#define VOL(N, B) \
    extern "C" void __tsan_volatile_read##N(void* p) { __tsan_atomic##B##_load((const volatile __tsan_atomic##B*)p, __tsan_memory_order_relaxed); } \
    extern "C" void __tsan_volatile_write##N(void* p) { __tsan_atomic##B##_fetch_or((volatile __tsan_atomic##B*)p, 0, __tsan_memory_order_relaxed); }
VOL(1, 8) VOL(2, 16) VOL(4, 32) VOL(8, 64)
#define VOLU(N) extern "C" void __tsan_unaligned_volatile_read##N(void*) {} extern "C" void __tsan_unaligned_volatile_write##N(void*) {}
VOLU(2) VOLU(4) VOLU(8) VOLU(16)
extern "C" void __tsan_volatile_read16(void*) {}
extern "C" void __tsan_volatile_write16(void*) {}
#endif
#endif
