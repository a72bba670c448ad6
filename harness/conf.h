#pragma once
/* between conf_prog.c (compiled like the library, possibly without libc) and conf_main.c (always with libc) */
typedef unsigned long long cu64;
void conf_case(cu64 seed, cu64 idx);                        /* runs one program, reports every observation to conf_ev */
void conf_ev(const char* what, cu64 a, cu64 b, cu64 c);
void conf_bytes(const char* what, const void* p, unsigned long n);
void* conf_alloc(unsigned long n); void conf_free(void* p, unsigned long n);
void conf_count(int k);
int conf_str_eq(const char* a, const char* b);
extern const int conf_has_libc;
