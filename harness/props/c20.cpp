// C20: fallback functions of the no-libc configuration against the C library. All operands live in heap blocks of exactly the
// size the standard permits to be read, so the address sanitizer judges reads; writes are judged by comparing whole blocks.
#include "vh.hpp"
extern "C" {
void* nl_memchr(const void*, int, size_t); int nl_memcmp(const void*, const void*, size_t); void* nl_memcpy(void*, const void*, size_t); void* nl_memmove(void*, const void*, size_t);
void* nl_memset(void*, int, size_t); char* nl_strcat(char*, const char*); char* nl_strchr(const char*, int); int nl_strcmp(const char*, const char*); int nl_strcoll(const char*, const char*);
char* nl_strcpy(char*, const char*); size_t nl_strcspn(const char*, const char*); size_t nl_strlen(const char*); char* nl_strncat(char*, const char*, size_t); int nl_strncmp(const char*, const char*, size_t);
char* nl_strncpy(char*, const char*, size_t); char* nl_strpbrk(const char*, const char*); char* nl_strrchr(const char*, int); size_t nl_strspn(const char*, const char*); char* nl_strstr(const char*, const char*);
char* nl_strtok(char*, const char*); size_t nl_strxfrm(char*, const char*, size_t); int nl_va(int, ...);
}
typedef std::string S;
struct Blk {                                             // exact-size heap block
    char* p; size_t n; S orig;
    explicit Blk(const S& s) : p((char*)malloc(s.size() ? s.size() : 1)), n(s.size()), orig(s) { memcpy(p, s.data(), n); }
    Blk(const Blk&) = delete; ~Blk() { free(p); }
    S now() const { return S(p, n); }
    void same(const char* f) const { if (now() != orig) violation("write-source", "%s changed an operand it must only read", f); }
};
static S z(const S& s) { return s + S(1, '\0'); }         // terminated
static S shw(const S& s) { S r; char b[8]; for (size_t i = 0; i < s.size() && i < 60; ++i) { unsigned char c = (unsigned char)s[i]; if (c >= 32 && c < 127 && c != '\\') r += (char)c; else { snprintf(b, 8, "\\x%02x", c); r += b; } } return "\"" + r + "\"(" + std::to_string(s.size()) + ")"; }
static int sg(int x) { return (x > 0) - (x < 0); }
#define OFF(p, base) ((p) ? (i64)((const char*)(p) - (base)) : -1)

// a, b: texts without zero bytes (may contain any other byte)
static void text_pair(const S& a, const S& b) {
    Blk A(z(a)), B(z(b)); const char *pa = A.p, *pb = B.p;
    REQ(sg(nl_strcmp(pa, pb)) == sg(strcmp(pa, pb)), "strcmp", "strcmp(%s, %s) = %d, C library %d", shw(a).c_str(), shw(b).c_str(), nl_strcmp(pa, pb), strcmp(pa, pb));
    REQ(sg(nl_strcoll(pa, pb)) == sg(strcmp(pa, pb)), "strcoll", "strcoll(%s, %s) = %d, C locale %d", shw(a).c_str(), shw(b).c_str(), nl_strcoll(pa, pb), strcmp(pa, pb));
    REQ(nl_strspn(pa, pb) == strspn(pa, pb), "strspn", "strspn(%s, %s) = %zu, C library %zu", shw(a).c_str(), shw(b).c_str(), nl_strspn(pa, pb), strspn(pa, pb));
    REQ(nl_strcspn(pa, pb) == strcspn(pa, pb), "strcspn", "strcspn(%s, %s) = %zu, C library %zu", shw(a).c_str(), shw(b).c_str(), nl_strcspn(pa, pb), strcspn(pa, pb));
    REQ(nl_strpbrk(pa, pb) == strpbrk(pa, pb), "strpbrk", "strpbrk(%s, %s) = offset %lld, C library %lld", shw(a).c_str(), shw(b).c_str(), (long long)OFF(nl_strpbrk(pa, pb), pa), (long long)OFF(strpbrk(pa, pb), pa));
    REQ(nl_strstr(pa, pb) == strstr(pa, pb), "strstr", "strstr(%s, %s) = offset %lld, C library %lld", shw(a).c_str(), shw(b).c_str(), (long long)OFF(nl_strstr(pa, pb), pa), (long long)OFF(strstr(pa, pb), pa));
    A.same("a comparison/search"); B.same("a comparison/search");
    {   // copies and concatenations: destination with room and guard pattern behind
        S room = z(a) + S(b.size() + 3, '\x5A'); Blk D(room), E(room);
        char* r = nl_strcat(D.p, pb); strcat(E.p, pb); REQ(r == D.p && D.now() == E.now(), "strcat", "strcat(%s, %s) left %s", shw(a).c_str(), shw(b).c_str(), shw(D.now()).c_str()); }
    {   S room = S(b.size() + 1, '\x5A'); Blk D(room); char* r = nl_strcpy(D.p, pb); REQ(r == D.p && D.now() == z(b), "strcpy", "strcpy(%s) left %s", shw(b).c_str(), shw(D.now()).c_str()); }
    B.same("strcpy/strcat");
    COUNTN("results compared", 8);
}
static void text_char(const S& a, int c) {
    Blk A(z(a)); const char* pa = A.p;
    REQ(nl_strchr(pa, c) == strchr(pa, c), "strchr", "strchr(%s, %d) = offset %lld, C library %lld", shw(a).c_str(), c, (long long)OFF(nl_strchr(pa, c), pa), (long long)OFF(strchr(pa, c), pa));
    REQ(nl_strrchr(pa, c) == strrchr(pa, c), "strrchr", "strrchr(%s, %d) = offset %lld, C library %lld", shw(a).c_str(), c, (long long)OFF(nl_strrchr(pa, c), pa), (long long)OFF(strrchr(pa, c), pa));
    REQ(nl_strlen(pa) == a.size(), "strlen", "strlen(%s) = %zu", shw(a).c_str(), nl_strlen(pa)); A.same("strchr"); COUNTN("results compared", 3);
}
// x, y: raw bytes; the readable bytes of both end exactly behind the block
static void bounded(const S& x, const S& y, size_t n) {
    {   // strncmp: at most n characters, nothing behind a zero
        S a = x.substr(0, std::min(x.size(), n)), b = y.substr(0, std::min(y.size(), n));
        if (a.find('\0') == S::npos && a.size() < n) a = z(a); if (b.find('\0') == S::npos && b.size() < n) b = z(b);
        a = a.substr(0, a.find('\0') == S::npos ? a.size() : a.find('\0') + 1); b = b.substr(0, b.find('\0') == S::npos ? b.size() : b.find('\0') + 1);
        Blk A(a), B(b); int want = 0;
        for (size_t i = 0; i < n; ++i) { unsigned char p = (unsigned char)a[i], q = (unsigned char)b[i]; if (p != q) { want = p < q ? -1 : 1; break; } if (!p) break; }
        int got = nl_strncmp(A.p, B.p, n); REQ(sg(got) == want, "strncmp", "strncmp(%s, %s, %zu) = %d, expected sign %d", shw(a).c_str(), shw(b).c_str(), n, got, want); COUNT("results compared"); }
    {   // strncpy / strncat from a source that may lack a terminator
        S src = x.substr(0, n); size_t k = src.find('\0'); if (k != S::npos) src = src.substr(0, k + 1); else if (src.size() < n) { src = z(src); k = src.size() - 1; } else k = src.size();
        Blk Sx(src); size_t nn = n > 4000 ? 4000 : n;
        if (n == nn) { Blk D(S(n + 2, '\x5A')); char* r = nl_strncpy(D.p, Sx.p, n); S want = src.substr(0, k) + S(n - std::min(k, n), '\0') + S(2, '\x5A'); want = want.substr(0, n + 2);
            REQ(r == D.p && D.now() == want, "strncpy", "strncpy(%s, %zu) left %s instead of %s", shw(src).c_str(), n, shw(D.now()).c_str(), shw(want).c_str());
            // exact destination: nothing behind n bytes
            Blk X(S(n, '\x5A')); nl_strncpy(X.p, Sx.p, n); REQ(X.now() == want.substr(0, n), "strncpy", "strncpy into an exact buffer differs"); }
        S pre; for (char c : y) { if (!c) break; pre += c; } size_t add = std::min(k, n);
        Blk E(z(pre) + S(add, '\x5A')); char* r = nl_strncat(E.p, Sx.p, n); S want = z(pre + src.substr(0, add));
        REQ(r == E.p && E.now() == want, "strncat", "strncat(%s, %s, %zu) left %s instead of %s", shw(pre).c_str(), shw(src).c_str(), n, shw(E.now()).c_str(), shw(want).c_str());
        Sx.same("strncpy/strncat"); COUNTN("results compared", 2); }
    {   // strxfrm
        S src; for (char c : x) { if (!c) break; src += c; } Blk Sx(z(src)); size_t nn = std::min<size_t>(n, 5000); Blk D(S(nn, '\x5A'));
        size_t r = nl_strxfrm(D.p, Sx.p, nn); REQ(r == src.size(), "strxfrm", "strxfrm(%s, %zu) = %zu", shw(src).c_str(), nn, r);
        if (nn > src.size()) REQ(D.now().substr(0, src.size() + 1) == z(src) && D.now().substr(src.size() + 1) == S(nn - src.size() - 1, '\x5A'), "strxfrm", "strxfrm(%s, %zu) left %s", shw(src).c_str(), nn, shw(D.now()).c_str());
        REQ(nl_strxfrm(nullptr, Sx.p, 0) == src.size(), "strxfrm", "strxfrm without buffer returns a different length"); Sx.same("strxfrm"); COUNT("results compared"); }
}
static void raw(const S& x, const S& y, int c, size_t extra) {
    size_t m = std::min(x.size(), y.size()); Blk A(x), B(y);
    for (size_t n : { m, m / 2, (size_t)0, m ? m - 1 : 0 }) REQ(sg(nl_memcmp(A.p, B.p, n)) == sg(memcmp(A.p, B.p, n)), "memcmp", "memcmp(%s, %s, %zu) = %d, C library %d", shw(x).c_str(), shw(y).c_str(), n, nl_memcmp(A.p, B.p, n), memcmp(A.p, B.p, n));
    {   // memchr stops at the match: the bound may be larger than the memory then
        const char* w = x.empty() ? nullptr : (const char*)memchr(A.p, c, x.size()); size_t n = w ? x.size() + extra : x.size();
        REQ(nl_memchr(A.p, c, n) == w, "memchr", "memchr(%s, %d, %zu) = offset %lld, C library %lld", shw(x).c_str(), c, n, (long long)OFF(nl_memchr(A.p, c, n), A.p), (long long)OFF(w, A.p));
        size_t h = x.size() / 2; const char* w2 = h ? (const char*)memchr(A.p, c, h) : nullptr; REQ(nl_memchr(A.p, c, h) == w2, "memchr", "memchr(%s, %d, %zu) differs", shw(x).c_str(), c, h); }
    {   Blk D(S(y.size(), '\x5A')); void* r = nl_memcpy(D.p, B.p, y.size()); REQ(r == D.p && D.now() == y, "memcpy", "memcpy of %s left %s", shw(y).c_str(), shw(D.now()).c_str());
        Blk D2(S(y.size() + 2, '\x5A')); nl_memcpy(D2.p + 1, B.p, y.size()); REQ(D2.now() == "\x5A" + y + "\x5A", "memcpy", "memcpy wrote outside"); }
    {   Blk D(x); size_t o = x.size() / 3, n = x.size() - o - (x.size() > o ? 1 : 0); void* r = nl_memset(D.p + o, c, n); S want = x; for (size_t i = 0; i < n; ++i) want[o + i] = (char)(unsigned char)c;
        REQ(r == D.p + o && D.now() == want, "memset", "memset(%d, %zu) left %s", c, n, shw(D.now()).c_str()); Blk F(x); nl_memset(F.p, c, x.size()); REQ(F.now() == S(x.size(), (char)(unsigned char)c), "memset", "memset of everything differs"); }
    A.same("memcmp/memchr"); B.same("memcpy"); COUNTN("results compared", 8);
}
static void overlap(const S& x, size_t so, size_t d, size_t n) {
    Blk A(x); S want = x; for (size_t i = 0; i < n; ++i) want[d + i] = x[so + i];
    void* r = nl_memmove(A.p + d, A.p + so, n); REQ(r == A.p + d && A.now() == want, "memmove", "memmove(+%zu <- +%zu, %zu) of %s left %s", d, so, n, shw(x).c_str(), shw(A.now()).c_str());
    COUNT("results compared"); if (so != d && n && (so < d ? so + n > d : d + n > so)) COUNT("overlapping moves");
}
static void tokens(const S& text, const std::vector<S>& delims) {
    Blk A(z(text)), B(z(text)); char* save = nullptr; size_t k = 0; char *a = A.p, *b = B.p;
    for (int i = 0; i < 200; ++i) {
        Blk dl(z(delims[k % delims.size()])); ++k;
        char* p = nl_strtok(a, dl.p); char* q = strtok_r(b, dl.p, &save); a = b = nullptr; dl.same("strtok");
        REQ(OFF(p, A.p) == OFF(q, B.p), "strtok", "strtok(%s), call %d with %s: offset %lld, C library %lld", shw(text).c_str(), i, shw(dl.orig).c_str(), (long long)OFF(p, A.p), (long long)OFF(q, B.p));
        REQ(A.now() == B.now(), "strtok", "strtok(%s), call %d with %s left %s, C library %s", shw(text).c_str(), i, shw(dl.orig).c_str(), shw(A.now()).c_str(), shw(B.now()).c_str());
        COUNT("tokenizer calls"); if (!p) break;
    }
}
static std::vector<S> ex;
#ifndef VH_HUGE
void prop_begin() {
    static const char al[] = { 'a', 'b', '\x80', '\xFF' };
    std::vector<S> cur{ "" }; ex.push_back("");
    for (int l = 0; l < 4; ++l) { std::vector<S> nx; for (auto& s : cur) for (char c : al) nx.push_back(s + c); cur = nx; if (l < 3) ex.insert(ex.end(), nx.begin(), nx.end()); else if (0) {} }
}
#endif
static S rnd(Rng& r, size_t max, bool zero) {
    S s; size_t n = r.below(3) ? r.below(12) : r.below(max + 1); u32 st = (u32)r.below(5); u8 base = r.byte();
    for (size_t i = 0; i < n; ++i) { u8 c; switch (st) { case 0: c = r.byte(); break; case 1: c = (u8)('a' + r.below(3)); break; case 2: c = (u8)r.pick({ 0x7F, 0x80, 0xFF, 0x01, 0x41 }); break; case 3: c = (u8)(base ^ (r.below(2) << 7)); break; default: c = (u8)r.pick({ 'a', ' ', ',', 'b' }); }
        if (!c && !zero) c = 1; if (zero && r.chance(1, 15)) c = 0; s += (char)c; }
    return s;
}
// Lengths around 2^8, 2^12, 2^15 and 2^16 and up to 90000: special paths for longer operands.
static size_t mid(Rng& r) { switch (r.below(6)) { case 0: return r.range(120, 260); case 1: return r.range(500, 1030); case 2: return r.range(4090, 4100); case 3: return r.range(65530, 65540); case 4: return r.range(1000, 20000); default: return r.range(20000, 90000); } }
static void medium(Rng& r, size_t n) {
    S a; u32 st = (u32)r.below(3); for (size_t i = 0; i < n; ++i) a += st == 0 ? (char)r.range(1, 255) : st == 1 ? (char)('a' + r.below(3)) : (char)r.pick({ 0x7F, 0x80, 0xFF, 0x01 });
    S b = a; size_t late = n - 1 - r.below(std::min<size_t>(n, 40)); switch (r.below(6)) { case 0: break; case 1: b[late] = (char)(b[late] ^ 0x80); if (!b[late]) b[late] = 1; break; case 2: b = a.substr(late); break; case 3: b = a.substr(0, late); break; case 4: b = a.substr(r.below(n), r.range(1, 8)); break; default: b += "x"; }
    trace("medium %zu style %u", n, st); text_pair(a, b); text_pair(b, a); text_char(a, (int)(signed char)a[late]); text_char(a, (int)r.range(1, 255));
    { S t = S(n, 'a'); t += "bcd"; text_pair(t, r.pick<const char*>({ "bc", "d", "ab", "cd", "x", "abcde" })); text_pair(t, "ab"); text_pair(t, "abc"); text_char(t, 'd'); text_char(t, 'z'); text_char(t, 0); S u = t; u[n] = '\xFF'; if (n < 5000) { text_pair(t, u); text_pair(u, t); } else { Blk T(z(t)), U(z(u)); REQ(sg(nl_strcmp(T.p, U.p)) == -1 && sg(nl_strcmp(U.p, T.p)) == 1 && sg(nl_strcoll(T.p, U.p)) == -1, "strcmp", "strcmp of texts with %zu equal characters is wrong", n); } for (size_t k : { n, n + 1, n - 1 }) { bounded(t, u, k); bounded(u, t, k); }
      S v = S(n, ',') + "x" + S(n / 2, 'y') + ",,z"; tokens(v, { "," }); tokens(t, { "d", "b" }); raw(t, u, 'd', 9); raw(u, t, 0xFF, 9); raw(t, t, 'q', 0); }
    S x = a, y; for (int k = 0; k < 3; ++k) x[r.below(n)] = 0; y = x; y[late] = (char)~y[late]; raw(x, y, (u8)x[late], 5); raw(y, x, 0x1FF, 5); bounded(a, b, n); bounded(x, y, r.below(n + 9)); bounded(b, a, late + 1);
    for (int k = 0; k < 8; ++k) { size_t d; switch (r.below(6)) { case 0: d = 1; break; case 1: d = r.range(2, 70); break; case 2: d = r.pick<size_t>({ 255, 256, 257, 511, 512, 4095, 4096, 4097, 32768, 65535, 65536 }); break; default: d = r.below(n + 1); } if (d > n) d = r.below(n + 1);
        size_t off = r.below(n - d + 1), len = r.chance(1, 2) ? n - off - d : r.below(n - off - d + 1); overlap(a, off, off + d, len); overlap(a, off + d, off, len); }
    COUNT("longer operands");
}
static S related(Rng& r, const S& a, bool zero) {
    S b = a; switch (r.below(6)) { case 0: return rnd(r, 60, zero); case 1: break; case 2: b = a.substr(r.below(a.size() + 1)); break; case 3: b = a.substr(0, r.below(a.size() + 1)); break;
    case 4: if (!b.empty()) { size_t i = r.below(b.size()); b[i] = (char)(b[i] ^ (1 << r.below(8))); if (!b[i] && !zero) b[i] = '\x80'; } break; default: { size_t i = r.below(a.size() + 1); b = a.substr(i, r.below(a.size() - i + 1)); } } return b;
}
#ifdef VH_HUGE
// ---- operands beyond 4 GiB ------------------------------------------------------------------------------------------
// A 2 MB memory file mapped again and again gives a text of any length; the last megabyte is mapped separately.
#include <sys/mman.h>
#include <unistd.h>
struct Long {
    u8* p = nullptr; u64 n; int fd, fe;
    static const u64 CH = 2u << 20, TAIL = 1u << 20;
    Long(u64 n_, int c, bool same_tail = false) : n((n_ + TAIL - 1) / TAIL * TAIL), fd(memfd_create("t", 0)), fe(memfd_create("e", 0)) {
        if (fd < 0 || fe < 0 || ftruncate(fd, CH) || ftruncate(fe, TAIL)) harness_error("memfd");
        p = (u8*)mmap(nullptr, n + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) harness_error("mmap");
        for (u64 o = 0; o < n - TAIL; o += CH) { u64 l = std::min(CH, n - TAIL - o); if (mmap(p + o, l, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) harness_error("mmap"); }
        if (mmap(p + n - TAIL, TAIL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fe, 0) == MAP_FAILED) harness_error("mmap");
        memset(p, c, CH); memset(p + n - TAIL, c, TAIL); (void)same_tail; }
    ~Long() { munmap(p, n + 4096); close(fd); close(fe); }
    char* c() { return (char*)p; }
    Long(const Long&) = delete;
};
void prop_begin() {}
bool prop_case(u64 idx, Rng& r) {
    const u64 L = (1ull << 32) + r.range(2, 40) * Long::TAIL + r.below(Long::TAIL - 4096), e = L; u64 got; static const char* N[] = { "strlen", "memchr", "memcmp", "memset", "memcpy", "memmove up", "memmove down", "strchr", "strrchr", "strcmp", "strncmp", "strspn", "strcspn", "strpbrk", "strcoll", "strncpy", "strxfrm", "strcat", "strncat", "strstr", "strtok", "strcpy" }; const u32 K = sizeof N / sizeof *N;
    u32 k = (u32)(idx % K); trace("%s over %llu bytes", N[k], (unsigned long long)L); std::string key(N[k]); key = key.substr(0, key.find(' '));
    auto want = [&](u64 g, u64 w) { got = g; if (g != w) violation(key.c_str(), "%s over %llu bytes: %llu instead of %llu", N[k], (unsigned long long)L, (unsigned long long)g, (unsigned long long)w); };
    Long a(L + 1, 'a'); a.p[e] = 0;                       // text of L characters
    switch (k) {
    case 0: want(nl_strlen(a.c()), L); break;
    case 1: a.p[e] = 'x'; want((u64)((u8*)nl_memchr(a.p, 'x', L + 1) - a.p), L); break;
    case 2: { Long b(L + 1, 'a'); b.p[e] = 'b'; want((u64)sg(nl_memcmp(b.p, a.p, L + 1)), 1); break; }
    case 3: { a.p[e] = 'z'; a.p[e + 1] = 'y'; void* p = nl_memset(a.p, 'q', L + 1); want(p == a.p && a.p[e] == 'q' && a.p[e - 1] == 'q' && a.p[e + 1] == 'y', 1); break; }
    case 4: { Long b(L + 1, 'b'); b.p[e + 1] = 'y'; void* p = nl_memcpy(b.p, a.p, L + 1); want(p == b.p && b.p[e] == 0 && b.p[e - 1] == 'a' && b.p[e + 1] == 'y', 1); break; }
    case 5: { a.p[e] = 'm'; a.p[e + 1] = 'n'; a.p[e + 2] = 'y'; void* p = nl_memmove(a.p + 1, a.p, L + 1); want(p == a.p + 1 && a.p[e + 1] == 'm' && a.p[e] == 'a' && a.p[e + 2] == 'y', 1); break; }
    case 6: { a.p[e] = 'm'; a.p[e + 1] = 'n'; void* p = nl_memmove(a.p, a.p + 1, L); want(p == a.p && a.p[e - 1] == 'm' && a.p[e] == 'm', 1); break; }
    case 7: a.p[e] = 'x'; a.p[e + 1] = 0; want((u64)((u8*)nl_strchr(a.c(), 'x') - a.p), L); break;
    case 8: a.p[e - 1] = 'x'; want((u64)((u8*)nl_strrchr(a.c(), 'x') - a.p), L - 1); break;
    case 9: case 14: { Long b(L + 1, 'a'); b.p[e] = 'b'; b.p[e + 1] = 0; want((u64)sg(k == 9 ? nl_strcmp(b.c(), a.c()) : nl_strcoll(b.c(), a.c())), 1); break; }
    case 10: { Long b(L + 1, 'a'); b.p[e] = 'b'; want((u64)sg(nl_strncmp(b.c(), a.c(), L + 1)), 1); b.p[e] = 0; break; }
    case 11: want(nl_strspn(a.c(), "ab"), L); break;
    case 12: want(nl_strcspn(a.c(), "xy"), L); break;
    case 13: a.p[e] = 'x'; a.p[e + 1] = 0; want((u64)((u8*)nl_strpbrk(a.c(), "x") - a.p), L); break;
    case 15: { Long b(L + 2, 'b'); char* p = nl_strncpy(b.c(), "hello", L); want(p == b.c() && b.p[e - 1] == 0 && b.p[e] == 'b' && b.p[e - 1000000] == 0, 1); break; }
    case 16: want(nl_strxfrm(nullptr, a.c(), 0), L); break;
    case 17: case 18: { memset(a.p + e, 0, 8); a.p[e + 4] = 'y'; char* p = k == 17 ? nl_strcat(a.c(), "xyz") : nl_strncat(a.c(), "xyzw", 3); want(p == a.c() && !memcmp(a.p + e - 1, "axyz\0y", 6), 1); break; }
    case 19: memcpy(a.p + e - 3, "abc", 4); want((u64)((u8*)nl_strstr(a.c(), "abc") - a.p), L - 3); break;
    case 20: { memcpy(a.p + e - 3, ",bc", 4); char* p = nl_strtok(a.c(), ","); want(p == a.c() && a.p[e - 3] == 0 && a.p[e - 4] == 'a', 1); p = nl_strtok(nullptr, ","); want((u64)((u8*)p - a.p), L - 2); want((u64)nl_strtok(nullptr, ","), 0); break; }
    default: { Long b(L + 2, 'b'); b.p[e + 1] = 'y'; char* p = nl_strcpy(b.c(), a.c()); want(p == b.c() && b.p[e] == 0 && b.p[e - 1] == 'a' && b.p[e + 1] == 'y', 1); }
    }
    COUNT("operands beyond 4 GiB"); return true;
}
#else
#ifdef VH_SWEEP
static void sweep_bytes(Rng& r) {         // every length up to 4397 as size of an operand, of a needle and of a block, and as distance of overlapping blocks
    const size_t K = 1 + (size_t)(g_tr->case_idx % 4397); COUNT("swept values"); medium(r, K);
    S x; for (size_t i = 0; i < 2 * K + 5; ++i) x += (char)r.byte(); overlap(x, 2, 2 + K, K); overlap(x, 2 + K, 2, K); overlap(x, 0, K, K + 5); overlap(x, 1, 0, K); overlap(x, 0, 1, K);
    S n; for (size_t i = 0; i < K; ++i) n += (char)("abA\xE1"[r.below(4)]); S h = S(r.below(6), 'a') + n + S(r.below(4), 'b'); text_pair(h, n); S m = n; m[r.chance(1, 2) ? K - 1 : r.below(K)] = 'q'; text_pair(h, m); text_pair(n, m); text_pair(m, n);
    S y = x.substr(0, K), z2 = y; z2[K - 1] = (char)~z2[K - 1]; raw(y, z2, (u8)y[K - 1], 3); raw(z2, y, (u8)y[K - 1], 3); bounded(n, m, K); bounded(n, h, K); bounded(h, n, K); bounded(n, n + "x", K + 1);
}
#endif
bool prop_case(u64 idx, Rng& r) {
#ifdef VH_SWEEP
    sweep_bytes(r); return true;
#endif
    if (idx < ex.size()) {                                // one text against all others
        const S& a = ex[idx]; trace("exhaustive %s", shw(a).c_str());
        for (auto& b : ex) { text_pair(a, b); for (size_t n : { 0, 1, 2, 3, 4, 5 }) bounded(a, b, n); bounded(a, b, ~(size_t)0); raw(a, b, b.empty() ? 0 : (u8)b[0], 5); if (!b.empty()) tokens(a + b, { b }); }
        for (int c = -1; c < 300; c += (c > 4 && c < 250 && c != 'a' - 2 && c != 0x7E) ? 3 : 1) text_char(a, c);
        COUNT("exhaustive texts"); return true;
    }
    if (idx < ex.size() + 13) {                           // all moves inside a block of this size
        size_t n = idx - ex.size(); S x; for (size_t i = 0; i < n; ++i) x += (char)('A' + i); trace("all moves in %zu bytes", n);
        for (size_t s = 0; s <= n; ++s) for (size_t d = 0; d <= n; ++d) for (size_t k = 0; k + std::max(s, d) <= n; ++k) overlap(x, s, d, k);
        COUNT("exhaustive move sizes"); return true;
    }
    if (r.chance(1, 800)) { medium(r, mid(r)); return true; }
    S a = rnd(r, 200, false), b = related(r, a, false); trace("texts %s %s", shw(a).c_str(), shw(b).c_str());
    text_pair(a, b); text_pair(b, a); text_char(a, (int)r.range(0, 400) - 130); text_char(a, a.empty() ? 0 : (int)(signed char)a[r.below(a.size())]);
    S x = rnd(r, 200, true), y = related(r, x, true); int c = r.chance(1, 2) || x.empty() ? (int)r.range(0, 700) - 300 : (int)(u8)x[r.below(x.size())] + (int)(r.below(3) - 1) * 256;
    trace("bytes %s %s %d", shw(x).c_str(), shw(y).c_str(), c);
    raw(x, y, c, r.below(50)); bounded(x, y, r.below(x.size() + 10)); bounded(x, y, x.size()); bounded(y, x, ~(size_t)0 - r.below(3)); bounded(a, b, r.below(a.size() + 3));
    S big = rnd(r, 300, true); for (int i = 0; i < 4; ++i) { size_t s = r.below(big.size() + 1), d = r.chance(1, 2) ? r.below(big.size() + 1) : std::min<size_t>(big.size(), s + r.below(4)); overlap(big, s, d, r.below(big.size() - std::max(s, d) + 1)); overlap(big, d, s, big.size() - std::max(s, d)); }
    { std::vector<S> dl; for (u64 k = r.range(1, 3); k; --k) dl.push_back(r.chance(1, 8) ? "" : rnd(r, 3, false).substr(0, r.below(3) + 1)); S t = rnd(r, 60, false); if (r.chance(1, 2) && !dl[0].empty()) { S u; for (char q : t) { u += q; if (r.chance(1, 3)) u += dl[0][r.below(dl[0].size())]; } t = u; } trace("tokens %s", shw(t).c_str()); tokens(t, dl); }
    int v[5]; for (int& q : v) q = (int)r.below(1000); REQ(nl_va(5, v[0], v[1], v[2], v[3], v[4]) == ((((v[0] * 31 + v[1]) * 31 + v[2]) * 31 + v[3]) * 31 + v[4]), "varargs", "variadic access macros deliver other arguments"); 
    return true;
}
#endif
void prop_end() {}
