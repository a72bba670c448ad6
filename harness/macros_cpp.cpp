#define P _cpp
#include "macros.inc"
