/* Start-up code and the static part of libc for 32-bit programs (only the shared 32-bit libraries are installed). */
extern int __cxa_atexit(void (*)(void*), void*, void*);
extern int __register_atfork(void (*)(void), void (*)(void), void (*)(void), void*);
__asm__(".text\n.globl _start\n_start:\n xor %ebp,%ebp\n mov (%esp),%eax\n lea 4(%esp),%ecx\n and $-16,%esp\n sub $4,%esp\n"
        " push %esp\n push %edx\n push $0\n push $0\n push %ecx\n push %eax\n push $main\n call __libc_start_main\n hlt\n");
int atexit(void (*f)(void)) { return __cxa_atexit((void (*)(void*))f, 0, 0); }
int pthread_atfork(void (*a)(void), void (*b)(void), void (*c)(void)) { return __register_atfork(a, b, c, 0); }
void* __dso_handle = 0;
