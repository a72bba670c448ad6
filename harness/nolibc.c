/* The library's fallback functions, compiled as the no-libc configuration sees them. */
#define ZYAN_NO_LIBC
#include <Zycore/LibC.h>
#define X(ret, name, args, call) ret nl_##name args { return call; }
X(void*, memchr, (const void* s, int c, ZyanUSize n), ZYAN_MEMCHR(s, c, n))
X(int, memcmp, (const void* a, const void* b, ZyanUSize n), ZYAN_MEMCMP(a, b, n))
X(void*, memcpy, (void* d, const void* s, ZyanUSize n), ZYAN_MEMCPY(d, s, n))
X(void*, memmove, (void* d, const void* s, ZyanUSize n), ZYAN_MEMMOVE(d, s, n))
X(void*, memset, (void* d, int v, ZyanUSize n), ZYAN_MEMSET(d, v, n))
X(char*, strcat, (char* d, const char* s), ZYAN_STRCAT(d, s))
X(char*, strchr, (const char* s, int c), ZYAN_STRCHR(s, c))
X(int, strcmp, (const char* a, const char* b), ZYAN_STRCMP(a, b))
X(int, strcoll, (const char* a, const char* b), ZYAN_STRCOLL(a, b))
X(char*, strcpy, (char* d, const char* s), ZYAN_STRCPY(d, s))
X(ZyanUSize, strcspn, (const char* a, const char* b), ZYAN_STRCSPN(a, b))
X(ZyanUSize, strlen, (const char* s), ZYAN_STRLEN(s))
X(char*, strncat, (char* d, const char* s, ZyanUSize n), ZYAN_STRNCAT(d, s, n))
X(int, strncmp, (const char* a, const char* b, ZyanUSize n), ZYAN_STRNCMP(a, b, n))
X(char*, strncpy, (char* d, const char* s, ZyanUSize n), ZYAN_STRNCPY(d, s, n))
X(char*, strpbrk, (const char* a, const char* b), ZYAN_STRPBRK(a, b))
X(char*, strrchr, (const char* s, int c), ZYAN_STRRCHR(s, c))
X(ZyanUSize, strspn, (const char* a, const char* b), ZYAN_STRSPN(a, b))
X(char*, strstr, (const char* a, const char* b), ZYAN_STRSTR(a, b))
X(char*, strtok, (char* s, const char* d), ZYAN_STRTOK(s, d))
X(ZyanUSize, strxfrm, (char* d, const char* s, ZyanUSize n), ZYAN_STRXFRM(d, s, n))
int nl_va(int dummy, ...);
/* variadic access through the fallback macros: sum of ints, twice (copy) */
int nl_va(int n, ...) { ZyanVAList a, b; int i, x = 0, y = 0; ZYAN_VA_START(a, n); ZYAN_VA_COPY(b, a);
    for (i = 0; i < n; ++i) x = x * 31 + ZYAN_VA_ARG(a, int); for (i = 0; i < n; ++i) y = y * 31 + ZYAN_VA_ARG(b, int);
    ZYAN_VA_END(b); ZYAN_VA_END(a); return x == y ? x : -1; }
