/* Iteration macros are exercised from C (the mutable one does not compile as C++). */
#include <string.h>
#include <Zycore/Vector.h>
#include <stdint.h>
/* iter: every element once, in order. flow: continue, break, nested loops over the same vector, writing through the mutable item
   (every element is complemented and complemented back; returns 0 or the number of the broken expectation). */
#define GEN(T) \
int iter_##T(ZyanVector* v, const uint8_t* flat, size_t n, size_t* visited) \
{ \
    size_t i = 0; int ok = 1; \
    ZYAN_VECTOR_FOREACH(T, v, x, { if (i >= n || memcmp(&x, flat + i * sizeof(T), sizeof(T))) ok = 0; ++i; }); \
    visited[0] = i; i = 0; \
    ZYAN_VECTOR_FOREACH_MUTABLE(T, v, x, { if (i >= n || memcmp(x, flat + i * sizeof(T), sizeof(T))) ok = 0; ++i; }); \
    visited[1] = i; \
    for (i = 0; i < n; ++i) { T t; memcpy(&t, flat + i * sizeof(T), sizeof t); if (ZYAN_VECTOR_GET(T, v, i) != t) ok = 0; } \
    return ok; \
} \
int iter_flow_##T(ZyanVector* v, const uint8_t* flat, size_t n, size_t stop) \
{ \
    size_t i = 0; size_t odd = 0; size_t want = 0; size_t k; ZyanVector* twice[2]; \
    for (k = 0; k < n; ++k) { want += flat[k * sizeof(T)] & 1; } \
    ZYAN_VECTOR_FOREACH(T, v, x, { if (++i > n) break; if (!(((const uint8_t*)&x)[0] & 1)) continue; ++odd; }); if (i != n || odd != want) return 1; \
    i = 0; odd = 0; \
    ZYAN_VECTOR_FOREACH_MUTABLE(T, v, x, { if (++i > n) break; if (!(((const uint8_t*)x)[0] & 1)) continue; ++odd; }); if (i != n || odd != want) return 2; \
    i = 0; ZYAN_VECTOR_FOREACH(T, v, x, { (void)x; if (i == stop) break; ++i; }); if (i != (stop < n ? stop : n)) return 3; \
    i = 0; ZYAN_VECTOR_FOREACH_MUTABLE(T, v, x, { (void)x; if (i == stop) break; ++i; }); if (i != (stop < n ? stop : n)) return 4; \
    if (n <= 24) { int bad = 0; i = 0; twice[0] = v; twice[1] = v; \
        ZYAN_VECTOR_FOREACH(T, v, x, { k = 0; ZYAN_VECTOR_FOREACH(T, twice[0], y, { if (memcmp(&y, flat + k * sizeof(T), sizeof(T))) { bad = 1; } ++k; }) \
            ZYAN_VECTOR_FOREACH_MUTABLE(T, twice[1], z, { ++k; if (z == NULL) { bad = 1; } }) if (k != 2 * n || memcmp(&x, flat + i * sizeof(T), sizeof(T))) { bad = 1; } ++i; }) \
        if (bad || i != n) return 5; } \
    ZYAN_VECTOR_FOREACH_MUTABLE(T, v, x, { *x = (T)~*x; }) \
    for (k = 0; k < n; ++k) { T t; memcpy(&t, flat + k * sizeof(T), sizeof t); if (ZYAN_VECTOR_GET(T, v, k) != (T)~t) return 6; } \
    ZYAN_VECTOR_FOREACH_MUTABLE(T, v, x, *x = (T)~*x;) \
    return memcmp(flat, v->data, n * sizeof(T)) && n ? 7 : 0; \
}
GEN(uint8_t)
GEN(uint32_t)
GEN(uint64_t)
