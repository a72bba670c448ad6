// Runs the configuration programs: digests of all observations per case (16 bytes each) or the printed observations of one case.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "conf.h"
#ifndef JUNK
#define JUNK 0xA5
#endif
static cu64 h, events, counts[16]; static int verbose;
static void mix(const void* p, size_t n) { const unsigned char* b = p; while (n--) { h ^= *b++; h *= 0x100000001b3ull; } }
void conf_ev(const char* what, cu64 a, cu64 b, cu64 c) { cu64 v[3] = { a, b, c }; mix(what, strlen(what)); mix(v, sizeof v); ++events; if (verbose) printf("%s %llu %llu %llu\n", what, a, b, c); }
void conf_bytes(const char* what, const void* p, unsigned long n) { const unsigned char* b = p; cu64 l = n; mix(what, strlen(what)); mix(&l, 8); mix(p, n); ++events; if (verbose) { printf("%s %lu:", what, n); while (n--) printf("%02x", *b++); puts(""); } }
void conf_count(int k) { ++counts[k]; }
// Blocks of memory: contents differ from configuration to configuration, so that a result depending on fresh memory differs, too.
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define MSAN 1
#endif
#endif
void* conf_alloc(unsigned long n) { static unsigned char f = JUNK; unsigned char* p = malloc(n ? n : 1); if (!p) { fputs("@@HARNESS-ERROR out of memory\n", stderr); _exit(2); }
#ifndef MSAN
    memset(p, f, n);
#endif
    f = (unsigned char)(f * 5 + JUNK); return p; }
void conf_free(void* p, unsigned long n) {
#ifndef MSAN
    memset(p, 0xDD, n);
#endif
    (void)n; free(p); }
int conf_str_eq(const char* a, const char* b) { return !strcmp(a, b); }
int main(int argc, char** argv) {   // prog SEED FROM TO OUT | prog SEED CASE
    if (argc < 3) return 2;
    cu64 seed = strtoull(argv[1], 0, 10), from = strtoull(argv[2], 0, 10);
    if (argc == 3) { verbose = 1; setvbuf(stdout, 0, _IOLBF, 0); h = 1; conf_case(seed, from); return 0; }
    cu64 to = strtoull(argv[3], 0, 10); FILE* f = fopen(argv[4], "wb"); if (!f) return 2;
    for (cu64 i = from; i < to; ++i) { h = 0xcbf29ce484222325ull; conf_case(seed, i); fwrite(&h, 8, 1, f); if (i % 64 == 63) fflush(f); }
    fclose(f); printf("events %llu", events); for (int i = 0; i < 16; ++i) printf(" %llu", counts[i]); puts(""); return 0;
}
