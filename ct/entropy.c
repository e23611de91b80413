// The operating system's entropy source, under control of the check: after ent_start(flip) every request
// is answered from one fixed stream in which the bit number `flip` (if >= 0) is inverted.
#define _GNU_SOURCE
#include <errno.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <sys/syscall.h>
#include <sys/types.h>
static int on;
static long flip = -1;
static uint64_t pos;
void ent_start(long f) { flip = f; pos = 0; on = 1; }
uint64_t ent_used(void) { return __atomic_load_n(&pos, __ATOMIC_SEQ_CST); }
static uint8_t at(uint64_t p) {
    uint64_t z = (p / 8 + 1) * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    uint8_t b = z >> (p % 8 * 8);
    if (flip >= 0 && (uint64_t)flip / 8 == p) b ^= 1 << (flip % 8);
    return b;
}
static long fill(uint8_t *b, size_t n) {
    uint64_t p = __atomic_fetch_add(&pos, n, __ATOMIC_SEQ_CST);
    for (size_t i = 0; i < n; i++) b[i] = at(p + i);
    return (long)n;
}
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if ((unsigned long)r > -4096UL) { errno = -(int)r; return -1; }
    return r;
}
long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (n == SYS_getrandom && on) return fill((uint8_t *)a, (size_t)b);
    return raw(n, a, b, c, d, e, f);
}
ssize_t getrandom(void *b, size_t n, unsigned f) { return on ? fill(b, n) : raw(SYS_getrandom, (long)b, (long)n, (long)f, 0, 0, 0); }
int getentropy(void *b, size_t n) {
    if (n > 256) { errno = EIO; return -1; }
    return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1;
}
