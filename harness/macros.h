#pragma once
#include <stdint.h>
typedef struct { int eq; int cmp; } MacroCmp;
typedef struct { int size[12], is_signed[12]; uint64_t mn[8], mx[8]; int truth[5]; int boolsz; int arr[3], misc[4]; } MacroTypes;
