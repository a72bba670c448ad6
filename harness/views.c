// Literal views and initializers (the macros are only usable from C).
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include <Zycore/Bitset.h>
static const ZyanStringView v0 = ZYAN_DEFINE_STRING_VIEW("Literal");
static const ZyanStringView v1 = ZYAN_DEFINE_STRING_VIEW("");
static const ZyanStringView v2 = ZYAN_DEFINE_STRING_VIEW("a\0b");
static const ZyanStringView v3 = ZYAN_DEFINE_STRING_VIEW("0123456789 the quick brown fox jumps over the lazy dog");
const ZyanStringView* const lit_views[4] = {&v0, &v1, &v2, &v3};
const unsigned lit_sizes[4] = {7, 0, 3, sizeof("0123456789 the quick brown fox jumps over the lazy dog") - 1};
