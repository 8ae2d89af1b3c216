/* Run time of the controlled scheduler. The crates under test are compiled with the
 * instrumentation of -Zsanitizer=thread; the calls it inserts before each access arrive here.
 * At most one registered thread runs at a time; it is handed the turn at scheduling points. */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAXT 4
#define TAB (1 << 16)
#define MAXP (1 << 20)
#define ARENA (256ul << 20)

struct entry { uint64_t g; uint8_t r, w, a, pad[5]; };   /* granule (address / 4); bit per thread */
struct point { uint8_t enabled, chosen, running, pad; uint32_t site; };   /* site: where in the program */
struct shared {
    /* in */
    uint32_t all_shared;          /* every access to memory which is not thread private is a point */
    uint32_t nset;                /* granules which are points */
    uint64_t set[TAB];
    uint32_t ndev;                /* deviations from the default choice */
    uint32_t dev_at[64];
    uint8_t dev_to[64];
    /* out */
    uint32_t npoints, status;     /* status: 0 ran, 1 deadlock, 2 too many points */
    uint64_t naccess, nwrite;
    uint32_t nent, full;
    struct entry tab[TAB];
    struct point trace[MAXP];
    double res[64];
    uint8_t flags[16];
};
static struct shared *sh;

static __thread int me = -1;
static __thread uintptr_t lo, hi;
static __thread char *arena, *arena_end;
static char *arenas, *arena_at[MAXT];

static int nthreads, current = -1, recording, yielding;
static uint32_t site;
static int finished[MAXT], blocked[MAXT];
static uintptr_t block_on[MAXT];
static uint32_t block_val[MAXT];
static sem_t sem[MAXT], done, arrived;
static uint64_t spin_g[MAXT];
static int spin_n[MAXT];

static long raw(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}

void rt_init(struct shared *s) { sh = s; }
size_t rt_shared_size(void) { return sizeof(struct shared); }

/* ------------------------------------------------------------ scheduling */

static unsigned enabled_mask(void)
{
    unsigned m = 0;
    for (int i = 0; i < nthreads; i++)
        if (!finished[i] && !blocked[i]) m |= 1u << i;
    return m;
}
static void give(int t)
{
    current = t;
    sem_post(&sem[t]);
}
static void wait_turn(void)
{
    while (sem_wait(&sem[me]) != 0) ;
}
static void stop(int status)
{
    sh->status = status;
    _exit(40 + status);
}
/* nobody can go on: threads started by the code under test may still wake somebody up */
static unsigned wait_for_others(void)
{
    struct timespec t = {0, 20000};
    int any = 0;
    for (int i = 0; i < nthreads; i++) any |= !finished[i];
    if (!any) return 0;
    for (int k = 0; k < 1000; k++) {
        for (int i = 0; i < nthreads; i++)
            if (blocked[i] && __atomic_load_n((uint32_t *)block_on[i], 5) != block_val[i]) blocked[i] = 0;
        unsigned m = enabled_mask();
        if (m) return m;
        raw(SYS_nanosleep, (long)&t, 0, 0, 0, 0, 0);
        if (k > 20) t.tv_nsec = 2000000;
    }
    return 0;
}
/* choose who goes on; `prefer` is the default if it is enabled */
static int choose(int running, int prefer)
{
    unsigned m = enabled_mask();
    if (!m) m = wait_for_others();
    if (!m) return -1;
    uint32_t i = sh->npoints;
    if (i >= MAXP - 1) stop(2);
    int c = prefer;
    if (c < 0 || !(m >> c & 1)) {
        c = 0;
        int from = running < 0 ? 0 : running + 1;
        for (int k = 0; k < nthreads; k++)
            if (m >> ((from + k) % nthreads) & 1) { c = (from + k) % nthreads; break; }
    }
    for (uint32_t k = 0; k < sh->ndev; k++)
        if (sh->dev_at[k] == i && (m >> sh->dev_to[k] & 1)) c = sh->dev_to[k];
    /* a spinning thread is not an alternative to the others */
    sh->trace[i].enabled = yielding ? m & ~(1u << running) : m;
    yielding = 0;
    sh->trace[i].chosen = c;
    sh->trace[i].site = site;
    site = 0;
    /* giving up the turn voluntarily is no preemption */
    sh->trace[i].running = prefer >= 0 && prefer == running ? running : 255;
    sh->npoints = i + 1;
    return c;
}
static void switch_point(int prefer)
{
    int c = choose(me, prefer);
    if (c < 0) stop(1);
    if (c != me) {
        give(c);
        wait_turn();
    }
}
static void yield_turn(void)
{
    /* prefer anybody else */
    int t = -1;
    for (int k = 1; k < nthreads; k++) {
        int o = (me + k) % nthreads;
        if (!finished[o] && !blocked[o]) { t = o; break; }
    }
    if (t < 0) return;
    yielding = 1;
    switch_point(t);
}

void rt_begin(int n, int record)
{
    nthreads = n;
    recording = record;
    for (int i = 0; i < n; i++) {
        finished[i] = blocked[i] = spin_n[i] = 0;
        sem_init(&sem[i], 0, 0);
    }
    sem_init(&done, 0, 0);
    sem_init(&arrived, 0, 0);
    /* one region after another: keep which memory was in conflict */
    static struct entry keep[TAB / 2];
    int nk = 0;
    for (int i = 0; sh && i < TAB; i++) {
        struct entry *e = &sh->tab[i];
        if (!e->g) continue;
        if (e->pad[0] || (e->w && __builtin_popcount(e->r | e->w) > 1)) {
            keep[nk] = *e;
            keep[nk].r = keep[nk].w = keep[nk].a = 0;
            keep[nk++].pad[0] = 1;
        }
    }
    if (sh && sh->nent) {
        memset(sh->tab, 0, sizeof sh->tab);
        sh->nent = nk;
        for (int i = 0; i < nk; i++) {
            uint32_t h = (keep[i].g * 0x9E3779B97F4A7C15ull) >> 48;
            while (sh->tab[h].g) h = (h + 1) & (TAB - 1);
            sh->tab[h] = keep[i];
        }
    }
    if (arenas) return;
    arenas = mmap(0, ARENA * MAXT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
/* main: hand out the first turn, wait for the end */
void rt_run(void)
{
    for (int i = 0; i < nthreads; i++) while (sem_wait(&arrived) != 0) ;
    give(choose(-1, 0));
    while (sem_wait(&done) != 0) ;
}
void rt_enter(int t)
{
    pthread_attr_t a;
    void *p;
    size_t s;
    pthread_getattr_np(pthread_self(), &a);
    pthread_attr_getstack(&a, &p, &s);
    pthread_attr_destroy(&a);
    lo = (uintptr_t)p;
    hi = lo + s;
    arena = arena_at[t] ? arena_at[t] : arenas + ARENA * t;
    arena_end = arenas + ARENA * (t + 1);
    sem_post(&arrived);
    me = t;
    wait_turn();
}
void rt_leave(void)
{
    int t = me;
    finished[t] = 1;
    arena_at[t] = arena;
    int c = choose(t, -1);
    me = -1;
    if (c >= 0) give(c);
    else {
        for (int i = 0; i < nthreads; i++) if (!finished[i]) stop(1);
        sem_post(&done);
    }
}
int rt_me(void) { return me; }
uint64_t rt_count(uint64_t *p, int64_t by) { return __atomic_add_fetch(p, by, 5); }
void rt_task_point(void) { if (me >= 0) switch_point(me); }

/* ------------------------------------------------------------ accesses */

int rt_private(uint64_t g)
{
    uintptr_t p = g << 2;
    return (char *)p >= arenas && (char *)p < arenas + ARENA * MAXT;
}
static int in_set(uint64_t g)
{
    uint32_t h = (g * 0x9E3779B97F4A7C15ull) >> 48;
    for (;; h = (h + 1) & (TAB - 1)) {
        if (!sh->set[h]) return 0;
        if (sh->set[h] == g) return 1;
    }
}
static void note(uint64_t g, int w, int atomic)
{
    uint32_t h = (g * 0x9E3779B97F4A7C15ull) >> 48;
    for (;; h = (h + 1) & (TAB - 1)) {
        struct entry *e = &sh->tab[h];
        if (!e->g) {
            if (sh->nent > TAB / 2) { sh->full = 1; return; }
            e->g = g;
            sh->nent++;
        }
        if (e->g == g) {
            if (w) e->w |= 1u << me; else e->r |= 1u << me;
            if (atomic) e->a |= 1u << me;
            return;
        }
    }
}
/* the static data of the program */
extern char __data_start, _end;
static int is_static(uintptr_t p) { return p >= (uintptr_t)&__data_start && p < (uintptr_t)&_end; }
int rt_static(uint64_t g) { return is_static(g << 2); }

#define touch(p, n, w, atomic) touch_at(p, n, w, atomic, (uint32_t)(uintptr_t)__builtin_return_address(0))
static __attribute__((noinline)) void touch_at(uintptr_t p, size_t n, int w, int atomic, uint32_t at)
{
    if (me < 0 || (p >= lo && p < hi)) return;
    sh->naccess++;
    if (rt_private(p >> 2)) {
        if (recording == 2) return;
    } else if (w) sh->nwrite++;
    int one = 0;
    for (uint64_t g = p >> 2; g <= (p + (n ? n : 1) - 1) >> 2; g++) {
        if (recording) note(g, w, atomic);
        if (!one && (sh->all_shared ? is_static(p) || atomic : in_set(g))) {
            one = 1;
            site = at;
            if (atomic && !w && spin_g[me] == g) {
                if (++spin_n[me] > 64) {
                    spin_n[me] = 0;
                    yield_turn();
                    continue;
                }
            } else {
                spin_g[me] = g;
                spin_n[me] = 0;
            }
            switch_point(me);
        }
    }
}

#define RD(n) \
    void __tsan_read##n(void *p) { touch((uintptr_t)p, n, 0, 0); } \
    void __tsan_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); } \
    void __tsan_unaligned_read##n(void *p) { touch((uintptr_t)p, n, 0, 0); } \
    void __tsan_unaligned_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); } \
    void __tsan_read_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); } \
    void __tsan_unaligned_read_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); } \
    void __tsan_volatile_read##n(void *p) { touch((uintptr_t)p, n, 0, 0); } \
    void __tsan_volatile_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); } \
    void __tsan_unaligned_volatile_read##n(void *p) { touch((uintptr_t)p, n, 0, 0); } \
    void __tsan_unaligned_volatile_write##n(void *p) { touch((uintptr_t)p, n, 1, 0); }
RD(1) RD(2) RD(4) RD(8) RD(16)
void __tsan_init(void) {}
void __tsan_func_entry(void *p) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **p, void *v) { touch((uintptr_t)p, 8, 1, 0); }
void __tsan_vptr_read(void **p) { touch((uintptr_t)p, 8, 0, 0); }
void __tsan_read_range(void *p, size_t n) { touch((uintptr_t)p, n, 0, 0); }
void __tsan_write_range(void *p, size_t n) { touch((uintptr_t)p, n, 1, 0); }
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
    if (n) { touch((uintptr_t)s, n, 0, 0); touch((uintptr_t)d, n, 1, 0); }
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
    if (n) { touch((uintptr_t)s, n, 0, 0); touch((uintptr_t)d, n, 1, 0); }
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n)
{
    if (n) touch((uintptr_t)d, n, 1, 0);
    return memset(d, c, n);
}
#define AT(b, T) \
    T __tsan_atomic##b##_load(const volatile T *p, int o) { touch((uintptr_t)p, sizeof(T), 0, 1); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##b##_store(volatile T *p, T v, int o) { touch((uintptr_t)p, sizeof(T), 1, 1); __atomic_store_n(p, v, 5); } \
    T __tsan_atomic##b##_exchange(volatile T *p, T v, int o) { touch((uintptr_t)p, sizeof(T), 1, 1); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int o) { touch((uintptr_t)p, sizeof(T), 1, 1); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int o) { touch((uintptr_t)p, sizeof(T), 1, 1); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int o) { touch((uintptr_t)p, sizeof(T), 1, 1); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int o) { touch((uintptr_t)p, sizeof(T), 1, 1); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int o) { touch((uintptr_t)p, sizeof(T), 1, 1); return __atomic_fetch_xor(p, v, 5); } \
    T __tsan_atomic##b##_fetch_nand(volatile T *p, T v, int o) { touch((uintptr_t)p, sizeof(T), 1, 1); return __atomic_fetch_nand(p, v, 5); } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int o, int f) \
    { touch((uintptr_t)p, sizeof(T), *c != __atomic_load_n(p, 5) ? 0 : 1, 1); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int o, int f) \
    { touch((uintptr_t)p, sizeof(T), *c != __atomic_load_n(p, 5) ? 0 : 1, 1); return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } \
    T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int o, int f) \
    { touch((uintptr_t)p, sizeof(T), c != __atomic_load_n(p, 5) ? 0 : 1, 1); __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int o) { __atomic_thread_fence(5); }
void __tsan_atomic_signal_fence(int o) {}

/* ------------------------------------------------------------ blocking */

/* the futexes of std: blocking gives up the turn */
long syscall(long n, ...)
{
    va_list ap;
    va_start(ap, n);
    long a[6];
    for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && me >= 0) {
        int op = a[1] & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            if (__atomic_load_n((uint32_t *)a[0], 5) != (uint32_t)a[2]) { errno = EAGAIN; return -1; }
            if (a[3]) { yield_turn(); errno = ETIMEDOUT; return -1; }
            blocked[me] = 1;
            block_on[me] = a[0];
            block_val[me] = a[2];
            switch_point(-1);
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            long k = 0;
            for (int i = 0; i < nthreads && k < a[2]; i++)
                if (blocked[i] && block_on[i] == (uintptr_t)a[0]) { blocked[i] = 0; k++; }
            if (k) switch_point(me);
            return k;
        }
    }
    long r = raw(n, a[0], a[1], a[2], a[3], a[4], a[5]);
    if (r < 0 && r > -4096) { errno = -r; return -1; }
    return r;
}
int sched_yield(void)
{
    if (me >= 0) yield_turn();
    else raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    return 0;
}
int nanosleep(const struct timespec *t, struct timespec *rem)
{
    if (me >= 0) { yield_turn(); return 0; }
    long r = raw(SYS_nanosleep, (long)t, (long)rem, 0, 0, 0, 0);
    if (r < 0) { errno = -r; return -1; }
    return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *rem)
{
    if (me >= 0) { yield_turn(); return 0; }
    return -raw(SYS_clock_nanosleep, c, fl, (long)t, (long)rem, 0, 0);
}

/* ------------------------------------------------------------ memory */

/* registered threads never reuse memory of one another: each has an arena with free lists */
static __thread void *lists[48];
static int class_of(size_t n)
{
    int c = 4;
    while ((16ul << (c - 4)) < n) c++;
    return c - 4;
}
void *rt_alloc(size_t n, size_t align)
{
    if (me < 0) {
        void *p;
        return posix_memalign(&p, align < 8 ? 8 : align, n ? n : 1) ? 0 : p;
    }
    if (align > 16) {
        uintptr_t p = ((uintptr_t)arena + align - 1) & ~(align - 1);
        if (p + n > (uintptr_t)arena_end) return 0;
        arena = (char *)((p + n + 15) & ~15ul);
        return (void *)p;
    }
    int c = class_of(n);
    void *p = lists[c];
    if (p) {
        lists[c] = *(void **)p;
        return p;
    }
    size_t s = 16ul << c;
    if (arena + s > arena_end) return 0;
    p = arena;
    arena += s;
    return p;
}
void rt_free(void *p, size_t n, size_t align)
{
    if ((char *)p < arenas || (char *)p >= arenas + ARENA * MAXT) {
        free(p);
        return;
    }
    char *mine = arena_end - ARENA;
    if (me < 0 || (char *)p < mine || (char *)p >= arena_end || align > 16) return;
    int c = class_of(n);
    *(void **)p = lists[c];
    lists[c] = p;
}
