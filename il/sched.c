// Runtime of the ThreadSanitizer instrumentation: every load, store, atomic operation and block copy of
// the code under test calls here. Two controlled threads run under a token: only its holder runs. A thread
// gives it away when it ends, when it would block on a futex, and at the points of the schedule under test.
//
// Scheduling points are the accesses to conflicting places: 8-byte granules that both threads have accessed in
// the runs so far, at least one of them writing. (Steps of two threads that touch no common place, or
// read it only, commute: schedules that differ in their order are equivalent.)
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define SLOTS (1u << 19)
#define FAIR 20000
#define SPIN 100
enum { R0 = 1, W0 = 2, R1 = 4, W1 = 8, POINT = 16 };
struct shared {
    uint64_t key[SLOTS];
    uint8_t flag[SLOTS];
    uint32_t used, full;
    uint64_t high[2], steps; // of the heaps, in bytes; accesses
    // of the last run
    uint32_t reached, points[2], stuck, nseg;
    uint32_t len[2];
    char res[2][1 << 16];
};
static struct shared *S;
static __thread int me = -1;
static __thread uintptr_t lo, hi; // own stack
static sem_t turn[2];
static int over[2], start, nseg, at, blocks, registered;
static uint32_t seg[4], n_in[2], since[2], same[2];
static uintptr_t last[2];

static uint32_t slot(uint64_t k) {
    uint32_t i = (uint32_t)((k * 0x9E3779B97F4A7C15ull) >> 40) & (SLOTS - 1);
    for (;;) {
        uint64_t c = S->key[i];
        if (c == k) return i;
        if (!c) {
            if (S->used > SLOTS / 2) { S->full = 1; return i; }
            S->key[i] = k;
            S->used++;
            return i;
        }
        i = (i + 1) & (SLOTS - 1);
    }
}
static void hand_over(void) {
    int o = 1 - me;
    if (over[o]) return;
    sem_post(&turn[o]);
    while (sem_wait(&turn[me])) ;
}
static void point(uintptr_t g) {
    S->points[me]++;
    blocks = 0;
    // a thread that waits for the other one in a loop: let that one run
    since[me]++;
    same[me] = g == last[me] ? same[me] + 1 : 0;
    last[me] = g;
    if (same[me] >= SPIN || since[me] >= FAIR) {
        same[me] = since[me] = 0;
        hand_over();
    }
    if (at < nseg && me == (start ^ (at & 1)) && n_in[me] >= seg[at]) {
        at++;
        S->reached = at;
        since[me] = 0;
        hand_over();
    }
    n_in[me]++;
}
// Controlled threads allocate from heaps of their own at fixed places: where a block lies depends
// on its thread's calls only.
#define HEAP 0x200000000000ull
#define HSIZE (1ull << 31)
static uint8_t *shadow; // a flag per granule of the heaps
static uint64_t top[2];
static void *freed[2][40];
static int class_of(size_t n) {
    int c = 4;
    while ((1ull << c) < n) c++;
    return c;
}
void *il_alloc(size_t n, size_t al) {
    if (me < 0) { void *p; return al <= 16 ? malloc(n) : posix_memalign(&p, al, n) ? 0 : p; }
    int c = class_of(n > al ? n : al);
    if (c > 30) return 0;
    void *p = freed[me][c];
    if (p) { freed[me][c] = *(void **)p; return p; }
    uint64_t sz = 1ull << c, at = (top[me] + sz - 1) & ~(sz - 1);
    if (at + sz > HSIZE) { S->full = 1; _exit(6); }
    top[me] = at + sz;
    if (top[me] > S->high[me]) S->high[me] = top[me];
    return (void *)(HEAP + me * HSIZE + at);
}
void il_free(void *p, size_t n, size_t al) {
    uint64_t a = (uint64_t)p - HEAP;
    if (a >= 2 * HSIZE) { free(p); return; }
    if (me < 0 || a / HSIZE != me) return; // not reused
    int c = class_of(n > al ? n : al);
    *(void **)p = freed[me][c];
    freed[me][c] = p;
}
static inline int touch(uintptr_t g, int w) { // is g a scheduling point?
    uint64_t h = g - (HEAP >> 3);
    uint8_t *f = h < 2 * HSIZE >> 3 ? shadow + h : S->flag + slot(g);
    *f |= (w ? W0 : R0) << (2 * me);
    return *f & POINT;
}
static inline void acc(const volatile void *p, size_t n, int w) {
    if (me < 0 || !n) return;
    uintptr_t a = (uintptr_t)p;
    if (a >= lo && a < hi) return;
    S->steps++;
    int c = 0;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) c |= touch(g, w);
    if (c) point(a >> 3);
}
// block operations: in pieces, so that they can be interrupted at every conflicting granule
static int range_points(uintptr_t a, size_t n, int w) {
    if (!n || (a >= lo && a < hi)) return 0;
    S->steps += 1 + n / 8;
    int c = 0;
    for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) c |= touch(g, w);
    return c;
}
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    if (me < 0 || !n) return memmove(d, s, n);
    int c = range_points((uintptr_t)s, n, 0) | range_points((uintptr_t)d, n, 1);
    if (!c) return memmove(d, s, n);
    uintptr_t dd = (uintptr_t)d, ss = (uintptr_t)s;
    if (dd > ss && dd < ss + n) { point(dd >> 3); return memmove(d, s, n); }
    for (size_t i = 0; i < n;) {
        size_t k = 8 - ((dd + i) & 7);
        if (k > n - i) k = n - i;
        point((dd + i) >> 3);
        memcpy((char *)d + i, (const char *)s + i, k);
        i += k;
    }
    return d;
}
void *__tsan_memmove(void *d, const void *s, size_t n) { return __tsan_memcpy(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) {
    if (me < 0 || !range_points((uintptr_t)d, n, 1)) return memset(d, v, n);
    for (size_t i = 0; i < n;) {
        size_t k = 8 - (((uintptr_t)d + i) & 7);
        if (k > n - i) k = n - i;
        point(((uintptr_t)d + i) >> 3);
        memset((char *)d + i, v, k);
        i += k;
    }
    return d;
}
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void *p, void *q) { acc(p, 8, 1); }
void __tsan_vptr_read(void *p) { acc(p, 8, 0); }
void __tsan_read_range(void *p, size_t n) { acc(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { acc(p, n, 1); }
#define RW(n) \
    void __tsan_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_read_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_volatile_write##n(void *p) { acc(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
#define UN(n) \
    void __tsan_unaligned_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_unaligned_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { acc(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { acc(p, n, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { acc(p, n, 1); }
UN(2) UN(4) UN(8) UN(16)
#define RMW(T, n, name, f) T __tsan_atomic##n##_##name(volatile T *p, T v, int o) { acc(p, n / 8, 1); return f(p, v, __ATOMIC_SEQ_CST); }
#define AT(T, n) \
    T __tsan_atomic##n##_load(const volatile T *p, int o) { acc(p, n / 8, 0); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##n##_store(volatile T *p, T v, int o) { acc(p, n / 8, 1); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    RMW(T, n, exchange, __atomic_exchange_n) RMW(T, n, fetch_add, __atomic_fetch_add) RMW(T, n, fetch_sub, __atomic_fetch_sub) \
    RMW(T, n, fetch_and, __atomic_fetch_and) RMW(T, n, fetch_or, __atomic_fetch_or) RMW(T, n, fetch_xor, __atomic_fetch_xor) RMW(T, n, fetch_nand, __atomic_fetch_nand) \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *c, T v, int a, int b) { acc(p, n / 8, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *c, T v, int a, int b) { acc(p, n / 8, 1); return __atomic_compare_exchange_n(p, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T *p, T c, T v, int a, int b) { acc(p, n / 8, 1); __atomic_compare_exchange_n(p, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(uint8_t, 8) AT(uint16_t, 16) AT(uint32_t, 32) AT(uint64_t, 64)
void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int o) {}

// std waits on futexes through this function: a controlled thread gives the token away instead of sleeping
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r;
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
long syscall(long n, ...) {
    va_list v;
    va_start(v, n);
    long a = va_arg(v, long), b = va_arg(v, long), c = va_arg(v, long), d = va_arg(v, long), e = va_arg(v, long), f = va_arg(v, long);
    va_end(v);
    if (me >= 0 && n == SYS_futex) {
        int op = b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (*(volatile uint32_t *)a != (uint32_t)c) { errno = EAGAIN; return -1; }
            if (over[1 - me] || ++blocks > 64) { // unless a thread that the call itself has started goes on
                struct timespec t = { 3, 0 };
                long r = raw(SYS_futex, a, FUTEX_WAIT | (b & FUTEX_PRIVATE_FLAG), c, (long)&t, 0, 0);
                if (r == -ETIMEDOUT) { S->stuck = 1; _exit(3); }
                return 0;
            }
            hand_over();
            return 0;
        }
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int sched_yield(void) {
    if (me >= 0) { hand_over(); return 0; }
    return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
}

void il_setup(void) {
    S = mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shadow = mmap(0, 2 * HSIZE >> 3, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void *h = mmap((void *)HEAP, 2 * HSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (S == MAP_FAILED || shadow == MAP_FAILED || h != (void *)HEAP) _exit(4);
}
// one run in a process of its own: 0 in the child, else 1 + how it ended (0 well, 1 stuck, 2 otherwise)
int il_run(int first, const uint32_t *plan, int n) {
    S->reached = S->points[0] = S->points[1] = S->stuck = S->len[0] = S->len[1] = 0;
    pid_t p = fork();
    if (p < 0) _exit(4);
    if (!p) {
        alarm(100);
        start = first;
        nseg = n;
        for (int i = 0; i < n; i++) seg[i] = plan[i];
        sem_init(&turn[0], 0, 0);
        sem_init(&turn[1], 0, 0);
        return 0;
    }
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (S->full) _exit(5);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0 ? 1 : S->stuck || (WIFSIGNALED(st) && WTERMSIG(st) == 14) ? 2 : 3;
}
// turn what is accessed by both into scheduling points; their number
static uint32_t mark(uint8_t *p) {
    uint8_t f = *p;
    if (f && (f & (R0 | W0)) && (f & (R1 | W1)) && (f & (W0 | W1))) *p |= POINT;
    return (*p & POINT) != 0;
}
uint32_t il_conflicts(void) {
    uint32_t n = 0;
    for (uint32_t i = 0; i < SLOTS; i++) n += mark(S->flag + i);
    for (int t = 0; t < 2; t++)
        for (uint64_t i = 0; i < S->high[t] >> 3; i++) n += mark(shadow + (t * HSIZE >> 3) + i);
    return n;
}
uint32_t il_points(int t) { return S->points[t]; }
uint32_t il_places(void) { return S->used + (S->high[0] + S->high[1]) / 8; }
// controlled threads; `alone`: there is only this one
void il_register(int t, int alone) {
    pthread_attr_t a;
    void *b;
    size_t n;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &b, &n);
    pthread_attr_destroy(&a);
    lo = (uintptr_t)b;
    hi = lo + n;
    if (alone) over[1 - t] = 1;
    if (__atomic_add_fetch(&registered, 1, __ATOMIC_SEQ_CST) == (alone ? 1 : 2)) sem_post(&turn[alone ? t : start]);
    while (sem_wait(&turn[t])) ;
    me = t;
}
void il_done(int t) {
    me = -1;
    over[t] = 1;
    if (!over[1 - t]) sem_post(&turn[1 - t]);
}
void il_store(int t, const char *s, uint32_t n) {
    if (n > sizeof S->res[0]) n = sizeof S->res[0];
    memcpy(S->res[t], s, n);
    S->len[t] = n;
}
uint32_t il_load(int t, char *s) {
    memcpy(s, S->res[t], S->len[t]);
    return S->len[t];
}
