// C21: memory, process and terminal wrappers. Scratch mappings are watched through /proc/self/maps and by probing single bytes
// with system calls; standard streams of a forked child are bound to terminals, pipes, files, sockets or closed.
#include "zy.hpp"
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <stdlib.h>
#include <sys/auxv.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" {                    // two of these headers declare no C linkage themselves
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Terminal.h>
}

// ---- injected platform behaviour (--wrap) -----------------------------------------------------------------------
static int f_which = 0, f_err = 0; static u32 f_hit = 0; static long f_page = 0;
extern "C" {
int __real_mprotect(void*, size_t, int); int __real_munmap(void*, size_t); int __real_msync(void*, size_t, int);
long __real_sysconf(int); int __real_getpagesize(void); unsigned long __real_getauxval(unsigned long); int __real_isatty(int);
int __wrap_mprotect(void* p, size_t n, int x) { if (f_which == 1) { ++f_hit; errno = f_err; return -1; } return __real_mprotect(p, n, x); }
int __wrap_munmap(void* p, size_t n) { if (f_which == 2) { ++f_hit; errno = f_err; return -1; } return __real_munmap(p, n); }
int __wrap_msync(void* p, size_t n, int x) { if (f_which == 3) { ++f_hit; errno = f_err; return -1; } return __real_msync(p, n, x); }
long __wrap_sysconf(int k) { if (f_page && k == _SC_PAGESIZE) { ++f_hit; return f_page; } return __real_sysconf(k); }
int __wrap_getpagesize(void) { if (f_page) { ++f_hit; return (int)f_page; } return __real_getpagesize(); }
unsigned long __wrap_getauxval(unsigned long k) { if (f_page && k == AT_PAGESZ) { ++f_hit; return (unsigned long)f_page; } return __real_getauxval(k); }
}
static const size_t PG = 4096; static int probe[2];
static const ZyanMemoryPageProtection PROTS[] = { ZYAN_PAGE_READONLY, ZYAN_PAGE_READWRITE, ZYAN_PAGE_EXECUTE, ZYAN_PAGE_EXECUTE_READ, ZYAN_PAGE_EXECUTE_READWRITE };
static const char* PNAME[] = { "READONLY", "READWRITE", "EXECUTE", "EXECUTE_READ", "EXECUTE_READWRITE" };
static const char* PPERM[] = { "r--", "rw-", "--x", "r-x", "rwx" };

// permissions of every page of [base, base+n pages) as the kernel lists them ("---" mapped without access, "" unmapped)
static std::vector<std::string> page_map(u8* base, size_t n) {
    std::vector<std::string> v(n); int fd = open("/proc/self/maps", O_RDONLY); if (fd < 0) harness_error("cannot read the page map");
    static char buf[1 << 20]; size_t len = 0; for (;;) { ssize_t k = read(fd, buf + len, sizeof buf - 1 - len); if (k <= 0) break; len += (size_t)k; } close(fd); buf[len] = 0;
    for (char* l = buf; *l;) { char* e = strchr(l, '\n'); if (e) *e = 0; unsigned long long a, b; char perm[8]; if (sscanf(l, "%llx-%llx %7s", &a, &b, perm) == 3) { perm[3] = 0;
        for (u64 p = std::max<u64>(a, (u64)base); p < std::min<u64>(b, (u64)base + n * PG); p += PG) v[(p - (u64)base) / PG] = perm; } if (!e) break; l = e + 1; }
    return v;
}
static bool can_read(u8* p) { if (write(probe[1], p, 1) != 1) return false; u8 c; if (read(probe[0], &c, 1) != 1) harness_error("probe"); return true; }
static bool can_write(u8* p, u8 v) { if (write(probe[1], &v, 1) != 1) harness_error("probe"); if (read(probe[0], p, 1) == 1) return true; u8 c; if (read(probe[0], &c, 1) != 1) harness_error("probe"); return false; }

static void memory_case(Rng& r) {
    const size_t N = r.range(3, 24); bool shared = r.chance(1, 3); int fd = -1;
    u8* base = (u8*)mmap(nullptr, N * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) harness_error("mmap");
    if (shared) { char nm[] = "zyvXXXXXX"; fd = mkstemp(nm); if (fd < 0) harness_error("mkstemp"); unlink(nm); if (ftruncate(fd, (off_t)(N * PG))) harness_error("ftruncate"); }
    std::vector<std::string> perm(N); std::vector<u8> tag(N);
    auto remap = [&](size_t i) { tag[i] = r.byte(); void* p = mmap(base + i * PG, PG, PROT_READ | PROT_WRITE, (shared ? MAP_SHARED : MAP_PRIVATE | MAP_ANONYMOUS) | MAP_FIXED, fd, shared ? (off_t)(i * PG) : 0);
        if (p == MAP_FAILED) harness_error("mmap"); memset(base + i * PG, tag[i], PG); perm[i] = "rw-"; };
    for (size_t i = 0; i < N; ++i) remap(i);
    trace("memory pages %zu shared %d", N, shared);
    auto verify = [&](const char* what) {
        auto v = page_map(base, N);
        for (size_t i = 0; i < N; ++i) REQ(v[i] == perm[i], "page-map", "%s: page %zu is '%s' instead of '%s'", what, i, v[i].c_str(), perm[i].c_str());
        COUNTN("pages compared with the page map", N); };
    auto contents = [&](const char* what) {
        for (size_t i = 0; i < N; ++i) if (!perm[i].empty()) { if (perm[i][0] != 'r') continue; u8* p = base + i * PG; for (size_t k = 0; k < PG; k += 1 + (k % 61)) if (p[k] != tag[i]) violation("page-contents", "%s: contents of page %zu changed", what, i); } };
    int steps = (int)r.range(5, 25);
    for (int s = 0; s < steps; ++s) {
        size_t i = r.below(N), k = r.range(1, N - i); u32 op = (u32)r.below(12); ZyanStatus st; size_t sz = k * PG - (r.chance(1, 3) ? r.below(PG) : 0);
        if (k > 3 && r.chance(1, 2)) { k = r.range(1, 3); sz = k * PG - (r.chance(1, 3) ? r.below(PG) : 0); }
        bool hole = false; for (size_t q = i; q < i + k; ++q) if (perm[q].empty()) hole = true;
        int save = r.chance(1, 2) ? 0 : EINVAL; errno = save;
        if (op < 5) {
            u32 pr = (u32)r.below(5); st = ZyanMemoryVirtualProtect(base + i * PG, sz, PROTS[pr]); trace("protect %zu+%zu %s -> %s", i, sz, PNAME[pr], st_name(st));
            if (hole) { REQ(ZYAN_FAILED(st), "failure-lost", "protecting a range with an unmapped page reports %s", st_name(st)); auto v = page_map(base, N);   // the system may have changed the pages in front of the hole
                for (size_t q = 0; q < N; ++q) if (q < i || q >= i + k || perm[q].empty()) REQ(v[q] == perm[q], "page-map", "refused protect changed page %zu outside the range", q); else perm[q] = v[q]; COUNT("refused requests"); }
            else { REQ(st == ZYAN_STATUS_SUCCESS, "protect", "protecting mapped pages as %s reports %s", PNAME[pr], st_name(st)); for (size_t q = i; q < i + k; ++q) perm[q] = PPERM[pr]; COUNT("protections"); saw_state(mix64(pr, i * 100 + k)); }
            verify("protect"); contents("protect");
            for (int t = 0; t < 3; ++t) { size_t q = r.below(N); u8* p = base + q * PG + r.below(PG); if (perm[q].empty()) { REQ(!can_read(p), "page-access", "unmapped page %zu can be read", q); continue; }
                if (perm[q][0] == 'r') REQ(can_read(p), "page-access", "page %zu (%s) cannot be read", q, perm[q].c_str());
                bool w = can_write(p, tag[q]); REQ(w == (perm[q][1] == 'w'), "page-access", "page %zu (%s): writing %s", q, perm[q].c_str(), w ? "works" : "fails"); COUNT("bytes probed"); }
        } else if (op < 7) {
            st = ZyanMemoryVirtualFree(base + i * PG, sz); trace("free %zu+%zu -> %s", i, sz, st_name(st)); REQ(st == ZYAN_STATUS_SUCCESS, "free", "releasing pages reports %s", st_name(st));
            for (size_t q = i; q < i + k; ++q) perm[q].clear(); verify("free"); contents("free"); COUNT("releases");
            for (size_t q = i; q < i + k; ++q) if (r.chance(2, 3)) remap(q);
        } else if (op < 9) {
            st = ZyanProcessFlushInstructionCache(base + i * PG, sz); trace("flush %zu+%zu -> %s", i, sz, st_name(st));
            if (hole) { REQ(ZYAN_FAILED(st), "failure-lost", "flushing a range with an unmapped page reports %s", st_name(st)); COUNT("refused requests"); } else { REQ(st == ZYAN_STATUS_SUCCESS, "flush", "flushing mapped pages reports %s", st_name(st)); COUNT("flushes"); }
            verify("flush"); contents("flush");
        } else if (op == 9) {                               // requests the system rejects
            u8* bad = base + i * PG + 1 + r.below(PG - 1); const char* what;
            switch (r.below(4)) { case 0: what = "protecting an unaligned address"; st = ZyanMemoryVirtualProtect(bad, PG / 2, ZYAN_PAGE_READONLY); break;
                case 1: what = "releasing an unaligned address"; st = ZyanMemoryVirtualFree(bad, PG / 2); break;
                case 2: what = "releasing nothing"; st = ZyanMemoryVirtualFree(base + i * PG, 0); break;
                default: what = "protecting more than the address space"; st = ZyanMemoryVirtualProtect(base + i * PG, ~(size_t)0 - 2 * PG, ZYAN_PAGE_READONLY); break; }
            trace("%s -> %s", what, st_name(st)); REQ(ZYAN_FAILED(st), "failure-lost", "%s reports %s", what, st_name(st)); COUNT("refused requests");
            auto v = page_map(base, N); if (what[0] == 'p' && strstr(what, "more")) for (size_t q = i; q < N; ++q) if (!perm[q].empty()) perm[q] = v[q]; verify(what); contents(what);
        } else {                                            // the same failures injected
            static const int errs[] = { EACCES, EINVAL, ENOMEM, EBUSY, EPERM, EIO, ENOSYS }; int w = 1 + (int)r.below(3), e = errs[r.below(7)]; f_hit = 0; f_which = w; f_err = e;
            st = w == 1 ? ZyanMemoryVirtualProtect(base + i * PG, sz, PROTS[r.below(5)]) : w == 2 ? ZyanMemoryVirtualFree(base + i * PG, sz) : ZyanProcessFlushInstructionCache(base + i * PG, sz); f_which = 0;
            trace("injected %d/%d -> %s", w, e, st_name(st));
            if (f_hit) { REQ(ZYAN_FAILED(st), "failure-lost", "%s reports %s although the system call failed with error %d", w == 1 ? "protecting" : w == 2 ? "releasing" : "flushing", st_name(st), e); COUNT("platform failures injected"); verify("injected failure"); contents("injected failure"); }
            else { auto v = page_map(base, N); for (size_t q = 0; q < N; ++q) perm[q] = v[q]; }
        }
    }
    for (size_t q = 0; q < N; ++q) if (!perm[q].empty()) { __real_mprotect(base + q * PG, PG, PROT_READ); perm[q] = "r--"; } contents("end");
    __real_munmap(base, N * PG); if (fd >= 0) close(fd);
    ZyanU32 a = ZyanMemoryGetSystemPageSize(), b = ZyanMemoryGetSystemAllocationGranularity(); REQ(a == (u32)__real_sysconf(_SC_PAGESIZE) && b == a, "page-size", "page size %u, granularity %u", a, b);
    f_page = 1l << r.range(12, 22); f_hit = 0; a = ZyanMemoryGetSystemPageSize(); bool h1 = f_hit; f_hit = 0; b = ZyanMemoryGetSystemAllocationGranularity(); bool h2 = f_hit;
    long want = f_page; f_page = 0; if (h1) REQ(a == (u32)want, "page-size", "page size %u on a system with %ld", a, want); if (h2) REQ(b == (u32)want, "page-size", "granularity %u on a system with %ld", b, want); COUNT("page sizes queried");
}

// ---- terminals --------------------------------------------------------------------------------------------------
enum { TTY, PIPE, REG, NUL, SOCK, DIRFD, CLOSED, KINDS };
static const char* KN[] = { "terminal", "pipe", "file", "null device", "socket", "directory", "closed stream" };
static int g_master = -1, g_slave = -1;
static int open_kind(int k, int stream) {
    int p[2]; switch (k) { case TTY: return fcntl(g_slave, F_DUPFD, 20); case PIPE: if (pipe(p)) return -1; { int q = fcntl(p[stream ? 1 : 0], F_DUPFD, 20); return q; }
    case REG: { char nm[] = "zytXXXXXX"; int f = mkstemp(nm); unlink(nm); return fcntl(f, F_DUPFD, 20); } case NUL: return fcntl(open("/dev/null", O_RDWR), F_DUPFD, 20);
    case SOCK: if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return -1; return fcntl(p[0], F_DUPFD, 20); case DIRFD: return fcntl(open(".", O_RDONLY), F_DUPFD, 20); } return -2;
}
static void terminal_case(u64 n) {
    int kind[3] = { (int)(n % KINDS), (int)(n / KINDS % KINDS), (int)(n / KINDS / KINDS % KINDS) }; int stale[] = { 0, EBADF, ENOTTY, EIO }; int se = stale[n / (KINDS * KINDS * KINDS) % 4];
    for (int& k : kind) if (k == TTY && g_slave < 0) k = NUL;
    trace("streams: %s, %s, %s errno %d", KN[kind[0]], KN[kind[1]], KN[kind[2]], se);
    int res[2]; if (pipe(res)) harness_error("pipe");
    pid_t pid = fork(); if (pid < 0) harness_error("fork");
    if (!pid) {
        int rfd = fcntl(res[1], F_DUPFD, 100), f[3]; for (int i = 0; i < 3; ++i) { f[i] = open_kind(kind[i], i); if (f[i] == -1) _exit(9); }
        for (int i = 0; i < 3; ++i) { if (kind[i] == CLOSED) close(i); else dup2(f[i], i); }
        ZyanStatus out[6]; for (int i = 0; i < 3; ++i) { errno = se; out[i] = ZyanTerminalIsTTY((ZyanStandardStream)(ZYAN_STDSTREAM_IN + i)); }
        for (int i = 0; i < 3; ++i) out[3 + i] = ZyanTerminalEnableVT100(i == 0 ? ZYAN_STDSTREAM_IN : i == 1 ? ZYAN_STDSTREAM_OUT : ZYAN_STDSTREAM_ERR);
        if (write(rfd, out, sizeof out) != sizeof out) _exit(8); _exit(0);
    }
    close(res[1]); ZyanStatus out[6]; ssize_t k = read(res[0], out, sizeof out); close(res[0]); int ws; waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 9) return;
    if (k != sizeof out) violation("terminal-crash", "terminal queries ended the process (wait status %x)", ws);
    for (int i = 0; i < 3; ++i) {
        ZyanStatus want = kind[i] == TTY ? ZYAN_STATUS_TRUE : kind[i] == CLOSED ? ZYAN_STATUS_INVALID_ARGUMENT : ZYAN_STATUS_FALSE;
        REQ(out[i] == want, "is-tty", "stream %d bound to a %s: %s instead of %s", i, KN[kind[i]], st_name(out[i]), st_name(want)); ++ctr((std::string("streams: ") + KN[kind[i]]).c_str()); }
    REQ(out[3] == ZYAN_STATUS_INVALID_ARGUMENT, "vt100", "enabling VT100 on the input stream reports %s", st_name(out[3]));
    for (int i = 1; i < 3; ++i) if (kind[i] == TTY) REQ(out[3 + i] == ZYAN_STATUS_SUCCESS, "vt100", "enabling VT100 on a terminal reports %s", st_name(out[3 + i]));
    COUNT("stream queries");
}
// Streams of one process are bound to other objects again and again; every answer must describe the present object.
static void redirect_case(Rng& r) {
    struct Step { int stream, kind; bool rebind; int err; }; const int N = (int)r.range(8, 24); std::vector<Step> plan; int cur[3] = { -1, -1, -1 }; std::vector<int> want;
    for (int i = 0; i < N; ++i) { Step s = { (int)r.below(3), (int)r.below(KINDS), i < 3 || r.chance(2, 3), (int)r.pick<u64>({ 0, EBADF, ENOTTY, EIO }) }; if (i < 3) s.stream = i; if (r.chance(1, 2)) s.kind = (int)r.pick<u64>({ TTY, REG, CLOSED }); if (s.kind == TTY && g_slave < 0) s.kind = NUL;
        if (s.rebind) cur[s.stream] = s.kind; plan.push_back(s); want.push_back(cur[s.stream]); trace("%s stream %d: %s", s.rebind ? "bind" : "keep", s.stream, KN[cur[s.stream]]); }
    int res[2]; if (pipe(res)) harness_error("pipe");
    pid_t pid = fork(); if (pid < 0) harness_error("fork");
    if (!pid) {
        int rfd = fcntl(res[1], F_DUPFD, 100); ZyanStatus out[64]; int obj[KINDS][3];        // everything opened first: a closed stream's number must stay free
        for (int k = 0; k < CLOSED; ++k) for (int i = 0; i < 3; ++i) { obj[k][i] = -1; for (const Step& s : plan) if (s.rebind && s.kind == k && s.stream == i && obj[k][i] < 0) { obj[k][i] = open_kind(k, i); if (obj[k][i] < 0) _exit(9); } }
        for (int i = 0; i < N; ++i) { const Step& s = plan[i];
            if (s.rebind) { if (s.kind == CLOSED) close(s.stream); else dup2(obj[s.kind][s.stream], s.stream); }
            errno = s.err; out[i] = ZyanTerminalIsTTY((ZyanStandardStream)(ZYAN_STDSTREAM_IN + s.stream)); }
        if (write(rfd, out, sizeof *out * N) != (ssize_t)(sizeof *out * N)) _exit(8); _exit(0);
    }
    close(res[1]); ZyanStatus out[64]; ssize_t k = read(res[0], out, sizeof out); close(res[0]); int ws; waitpid(pid, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 9) return;
    if (k != (ssize_t)(sizeof *out * N)) violation("terminal-crash", "terminal queries ended the process (wait status %x)", ws);
    for (int i = 0; i < N; ++i) { ZyanStatus w = want[i] == TTY ? ZYAN_STATUS_TRUE : want[i] == CLOSED ? ZYAN_STATUS_INVALID_ARGUMENT : ZYAN_STATUS_FALSE;
        REQ(out[i] == w, "is-tty", "query %d: stream %d now bound to a %s: %s instead of %s", i, plan[i].stream, KN[want[i]], st_name(out[i]), st_name(w)); }
    COUNTN("queries of redirected streams", N);
}
// Ranges beyond 4 GiB of reserved address space (nothing is touched but single bytes).
static void huge_case(Rng& r) {
    const u64 G = 1ull << 32; const u64 N = G / PG * r.range(1, 2) + r.range(40, 4000); u8* base = (u8*)mmap(nullptr, N * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (base == MAP_FAILED) { COUNT("ranges beyond 4 GiB: no address space"); return; }
    struct Iv { u64 a, b; std::string p; }; std::map<u64, std::string> ref; ref[0] = "rw-";    // start page -> permissions
    auto at = [&](u64 pg) { return std::prev(ref.upper_bound(pg))->second; };
    auto set = [&](u64 a, u64 b, const char* p) { std::string after = b < N ? at(b) : ""; ref.erase(ref.lower_bound(a), ref.lower_bound(b)); ref[a] = p; if (b < N) ref[b] = after; };
    auto verify = [&](const char* what) {
        std::vector<Iv> iv; FILE* f = fopen("/proc/self/maps", "r"); if (!f) harness_error("cannot read the page map"); char l[600]; while (fgets(l, sizeof l, f)) { unsigned long long a, b; char pm[8]; if (sscanf(l, "%llx-%llx %7s", &a, &b, pm) == 3) { pm[3] = 0; iv.push_back({ a, b, pm }); } } fclose(f);
        auto real = [&](u64 pg) { u64 x = (u64)base + pg * PG; for (auto& v : iv) if (x >= v.a && x < v.b) return v.p; return std::string(); };
        auto one = [&](u64 pg) { if (pg < N) REQ(real(pg) == at(pg), "page-map", "%s: page %llu of %llu is '%s' instead of '%s'", what, (unsigned long long)pg, (unsigned long long)N, real(pg).c_str(), at(pg).c_str()); };
        for (auto& e : ref) { one(e.first); if (e.first) one(e.first - 1); one(e.first + 1); } for (int q = 0; q < 60; ++q) one(r.below(N)); one(N - 1);
        for (auto& v : iv) { u64 a = (u64)base; if (v.b > a && v.a < a + N * PG) { u64 lo = v.a < a ? 0 : (v.a - a) / PG; one(lo); u64 hi = (std::min(v.b, a + N * PG) - a) / PG - 1; one(hi); } } };
    trace("%llu pages reserved", (unsigned long long)N);
    for (int s = 0; s < 8; ++s) {
        u64 i = r.chance(1, 2) ? r.below(30) : r.below(N - 1), k = r.chance(2, 3) && N - i > G / PG + 1 ? G / PG * r.range(1, (N - i) / (G / PG)) : r.range(1, N - i); if (r.chance(1, 2) && i + k + 20 < N) k += r.below(20); if (i + k > N) k = N - i;
        u64 sz = k * PG - (r.chance(1, 3) ? r.below(PG) : 0); bool hole = false; for (u64 q = i; q < i + k;) { if (at(q).empty()) hole = true; auto n = ref.upper_bound(q); q = n == ref.end() ? N : n->first; } ZyanStatus st;
        switch (r.below(3)) {
        case 0: if (!hole) { u32 pr = (u32)r.below(5); st = ZyanMemoryVirtualProtect(base + i * PG, sz, PROTS[pr]); trace("protect %llu+%llu %s", (unsigned long long)i, (unsigned long long)sz, PNAME[pr]); REQ(st == ZYAN_STATUS_SUCCESS, "protect", "protecting %llu bytes reports %s", (unsigned long long)sz, st_name(st)); set(i, i + k, PPERM[pr]); verify("protect"); COUNT("requests beyond 4 GiB"); } break;
        case 1: if (s > 4 || r.chance(1, 4)) { st = ZyanMemoryVirtualFree(base + i * PG, sz); trace("free %llu+%llu", (unsigned long long)i, (unsigned long long)sz); REQ(st == ZYAN_STATUS_SUCCESS, "free", "releasing %llu bytes reports %s", (unsigned long long)sz, st_name(st)); set(i, i + k, ""); verify("free"); COUNT("requests beyond 4 GiB"); } break;
        default: st = ZyanProcessFlushInstructionCache(base + i * PG, sz); trace("flush %llu+%llu", (unsigned long long)i, (unsigned long long)sz); if (hole) REQ(ZYAN_FAILED(st), "failure-lost", "flushing a range of %llu bytes with an unmapped part reports %s", (unsigned long long)sz, st_name(st)); else REQ(st == ZYAN_STATUS_SUCCESS, "flush", "flushing %llu bytes reports %s", (unsigned long long)sz, st_name(st)); verify("flush"); COUNT("requests beyond 4 GiB"); }
    }
    __real_munmap(base, N * PG);
}
// The escape sequences, interpreted by a small terminal (ECMA-48 "select graphic rendition").
struct Pen { int fg = 3, bg = 3; bool operator==(const Pen& o) const { return fg == o.fg && bg == o.bg; } };   // colours 0-15, -1 default
static bool interpret(const char* s, Pen& p) {
    if (*s++ != 27 || *s++ != '[') return false; std::vector<int> par(1, 0);
    for (; *s && *s != 'm'; ++s) { if (*s >= '0' && *s <= '9') { if (par.back() > 1000) return false; par.back() = par.back() * 10 + (*s - '0'); } else if (*s == ';') par.push_back(0); else return false; }
    if (*s != 'm' || s[1]) return false;
    for (int c : par) { if (c == 0) p = { -1, -1 }; else if (c >= 30 && c <= 37) p.fg = c - 30; else if (c >= 90 && c <= 97) p.fg = c - 90 + 8; else if (c == 39) p.fg = -1; else if (c >= 40 && c <= 47) p.bg = c - 40; else if (c >= 100 && c <= 107) p.bg = c - 100 + 8; else if (c == 49) p.bg = -1; else return false; }
    return true;
}
static void colours() {
#define COL(N, V) { #N, ZYAN_VT100SGR_FG_##N, V, false }, { #N, ZYAN_VT100SGR_BG_##N, V, true }
    static const struct { const char *name, *seq; int col; bool bg; } T[] = { COL(DEFAULT, -1), COL(BLACK, 0), COL(RED, 1), COL(GREEN, 2), COL(YELLOW, 3), COL(BLUE, 4), COL(MAGENTA, 5), COL(CYAN, 6), COL(WHITE, 7), COL(BRIGHT_BLACK, 8), COL(BRIGHT_RED, 9),
        COL(BRIGHT_GREEN, 10), COL(BRIGHT_YELLOW, 11), COL(BRIGHT_BLUE, 12), COL(BRIGHT_MAGENTA, 13), COL(BRIGHT_CYAN, 14), COL(BRIGHT_WHITE, 15) };
    for (auto& t : T) { Pen p{ 77, 88 }, want = p; (t.bg ? want.bg : want.fg) = t.col; bool ok = interpret(t.seq, p); trace("%s %s", t.bg ? "background" : "foreground", t.name);
        REQ(ok && p == want, "colour", "the sequence for %s %s selects foreground %d, background %d", t.bg ? "background" : "foreground", t.name, p.fg, p.bg); COUNT("colour sequences interpreted"); }
    Pen p{ 77, 88 }; REQ(interpret(ZYAN_VT100SGR_RESET, p) && p == (Pen{ -1, -1 }), "colour", "the reset sequence leaves foreground %d, background %d", p.fg, p.bg);
}
void prop_begin() {
    if (pipe(probe)) harness_error("pipe"); signal(SIGPIPE, SIG_IGN);
    g_master = posix_openpt(O_RDWR | O_NOCTTY); if (g_master >= 0 && !grantpt(g_master) && !unlockpt(g_master)) g_slave = open(ptsname(g_master), O_RDWR | O_NOCTTY);
    if (g_slave < 0) COUNT("no pseudo terminal available");
}
void prop_end() {}
bool prop_case(u64 idx, Rng& r) { if (idx < 4 * KINDS * KINDS * KINDS) { if (!idx) colours(); terminal_case(idx); return true; }
    if (idx % 6 == 1) redirect_case(r); else if (idx % 40 == 3) huge_case(r); else memory_case(r);
    return true; }
