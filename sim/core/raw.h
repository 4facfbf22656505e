// Raw system calls: the only way simulator-internal code touches the real kernel.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <time.h>

namespace raw {

static inline long sc6(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static inline long sc3(long n, long a = 0, long b = 0, long c = 0) {
    return sc6(n, a, b, c, 0, 0, 0);
}

static inline void futexWait(int* addr, int val) {
    sc6(SYS_futex, (long)addr, 0 /*FUTEX_WAIT*/, val, 0, 0, 0);
}
static inline void futexWake(int* addr) {
    sc6(SYS_futex, (long)addr, 1 /*FUTEX_WAKE*/, 1, 0, 0, 0);
}
static inline void exitGroup(int code) {
    sc3(SYS_exit_group, code);
    __builtin_unreachable();
}
static inline long writeAll(int fd, const void* p, size_t n) {
    const char* c = (const char*)p;
    size_t left = n;
    while (left) {
        long r = sc3(SYS_write, fd, (long)c, (long)left);
        if (r <= 0) {
            return r;
        }
        c += r;
        left -= (size_t)r;
    }
    return (long)n;
}
static inline double realSeconds() {
    struct timespec ts;
    sc3(SYS_clock_gettime, 1 /*MONOTONIC*/, (long)&ts);
    return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}

}
