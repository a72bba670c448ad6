#define ZYAN_NO_LIBC
#define P _nl
#include "macros.inc"
