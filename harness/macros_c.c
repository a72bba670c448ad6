#define P _c
#include "macros.inc"
