// Forced include: makes the library take its 32-bit code paths on a 64-bit host.
#ifndef FORCE32_H
#define FORCE32_H
#include <Zycore/Defines.h>
#ifdef ZYAN_X64
#undef ZYAN_X64
#define ZYAN_X86
#endif
#endif
