// Controlled scheduler and memory monitor for code compiled with ThreadSanitizer instrumentation
// (the instrumentation calls __tsan_*; the real runtime is not linked, this one is).
//  * logical threads are coroutines on one OS thread; exactly one runs at a time;
//  * every atomic operation and every futex call is a scheduling point, decided by the explorer;
//  * happens-before is tracked with vector clocks: unordered plain accesses to the heap of the
//    execution are reported as data races, whatever the schedule did;
//  * the heap of an execution never reuses memory, so touching freed memory is always seen.
#define _GNU_SOURCE
#include <stdint.h>
#include <stdarg.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define T 6
#define STACK (512u << 10)
#define HEAP (64u << 20)

// answers of the explorer (Rust): -1 means the execution must be abandoned
extern int mc_rt_choose(int n, int dev);
extern int mc_rt_panicking(void);
extern volatile size_t *mc_rt_tag(void);

enum { FREE = 0, RUN, BLOCKED, DONE };
struct ctx { void *sp; int state; u32 *faddr; u32 bitset; int timed; u8 *stack; size_t tag; int woken; u64 spins; const void *laddr; u64 lval; int same; };
static struct ctx C[T];
static int cur, nthreads, active, in_rt, abandoned;
static u64 points, switches;
static char verdict[512];
static void (*entry)(int);

static u32 VC[T][T], ACQ[T][T], REL[T][T];

// ---------------------------------------------------------------- heap of the execution
struct cell { u32 gen; u32 w; u32 r[T]; u8 wt; }; // last write and reads, as clocks; filled in when first touched
static u8 *heap; static struct cell *cells;
static u8 *st; // 0 never, 1 live, 2 freed
static struct blk { size_t at; u32 clock; int t; } *blks; // births, in the order of addresses
static size_t nblks;
#define BLKS (1u << 18)
static size_t heap_top;
static u32 gen;
static void die(const char *m) { (void)!write(2, m, strlen(m)); (void)!write(2, "\n", 1); _exit(66); }
static int in_heap(const void *p) { return heap && (u8 *)p >= heap && (u8 *)p < heap + HEAP; }
static void bad(const char *what, const void *p, int size);

void *mc_rt_alloc(size_t n, size_t al) {
    if (!active || in_rt) return 0;
    // a gap before the block, for the allocator's header
    if (al < 16) al = 16;
    size_t a = (heap_top + 48 + al - 1) & ~(al - 1);
    if (a + n + 64 > HEAP) die("RT: execution heap exhausted");
    heap_top = a + n + 16;
    memset(heap + a, 0xA5, n);
    memset(st + a, 1, n);
    if (nblks == BLKS) die("RT: too many blocks");
    blks[nblks++] = (struct blk){ a, VC[cur][cur], cur };
    return heap + a;
}
int mc_rt_owns(const void *p) { return in_heap(p); }
static void access_(const void *p, size_t n, int wr);
// whether the block was live
void mc_rt_free(void *p, size_t n) {
    if (!active || in_rt) return; // the execution was abandoned or is over: its heap goes as a whole
    size_t o = (u8 *)p - heap;
    for (size_t i = 0; i < n; i++) if (st[o + i] == 2) { bad("freed twice", p, (int)n); return; }
    access_(p, n, 2);
    memset(st + o, 2, n);
}

// ---------------------------------------------------------------- contexts
__attribute__((naked, noinline)) static void swtch(void **save, void *to) {
    __asm__ volatile("push %rbp; push %rbx; push %r12; push %r13; push %r14; push %r15\n"
                     "mov %rsp, (%rdi); mov %rsi, %rsp\n"
                     "pop %r15; pop %r14; pop %r13; pop %r12; pop %rbx; pop %rbp; ret");
}
static void go(int t) {
    if (t == cur) return;
    int f = cur;
    switches++;
    C[f].tag = *mc_rt_tag();
    *mc_rt_tag() = C[t].tag;
    cur = t;
    C[t].spins = 0;
    swtch(&C[f].sp, C[t].sp);
}
static void abandon(void) {
    // back to the main thread for good; what the others hold is dropped with the heap
    abandoned = 1;
    if (cur != 0) { int f = cur; cur = 0; *mc_rt_tag() = C[0].tag; swtch(&C[f].sp, C[0].sp); }
}
__attribute__((noinline)) static void bad(const char *what, const void *p, int size) {
    if (verdict[0]) return;
    snprintf(verdict, sizeof verdict, "%s (thread %d, %d bytes, heap offset %ld)", what, cur, size, in_heap(p) ? (long)((u8 *)p - heap) : -1);
    if (cur != 0) { in_rt = 1; abandon(); }
}
static void base(void) {
    in_rt = 0;
    entry(cur);
    in_rt = 1;
    C[cur].state = DONE;
    // whoever is next; the choice is free
    int v[T], n = 0;
    for (int i = 1; i < nthreads; i++) if (C[i].state == RUN) v[n++] = i;
    if (n == 0) {
        for (int i = 1; i < nthreads; i++) if (C[i].state == BLOCKED) snprintf(verdict, sizeof verdict, "dead lock: thread %d waits for a lock nobody will release", i);
        abandon();
    } else {
        int k = mc_rt_choose(n, 0);
        if (k < 0) abandon(); else go(v[k]);
    }
    die("RT: finished thread resumed");
}
void mc_rt_yield(void);
// a thread that reads one value over and over waits for the others: they go on (without that, a spinning
// thread would have endless executions)
static void watch(const void *a, u64 v) {
    struct ctx *x = &C[cur];
    if (x->laddr == a && x->lval == v) { if (++x->same >= 4) { x->same = 3; mc_rt_yield(); } } else { x->laddr = a; x->lval = v; x->same = 0; }
}
static void wrote(void) { C[cur].laddr = 0; C[cur].same = 0; }
// before an operation other threads can see
static void point(void) {
    if (!active || in_rt || cur == 0) return;
    if (mc_rt_panicking()) return; // unwinding is one step
    in_rt = 1;
    points++;
    if (points > 20000) { snprintf(verdict, sizeof verdict, "no end after %lu steps", (unsigned long)points); abandon(); }
    int v[T], n = 0;
    for (int i = 1; i < nthreads; i++) if (i != cur && C[i].state == RUN) v[n++] = i;
    if (n) {
        if (++C[cur].spins > 3000) { go(v[0]); } // a thread that spins gives way
        else {
            int k = mc_rt_choose(n + 1, 1);
            if (k < 0) abandon();
            if (k > 0) go(v[k - 1]);
        }
    }
    in_rt = 0;
}
static void block(void) {
    // the current thread cannot go on; another must
    int v[T], n = 0;
    for (int i = 1; i < nthreads; i++) if (C[i].state == RUN) v[n++] = i;
    if (n == 0) {
        for (int i = 1; i < nthreads; i++) if (C[i].state == BLOCKED && C[i].timed) { C[i].state = RUN; C[i].woken = 0; v[n++] = i; }
        if (n == 0) { snprintf(verdict, sizeof verdict, "dead lock: thread %d and all others wait", cur); abandon(); }
    }
    int k = mc_rt_choose(n, 0);
    if (k < 0) abandon();
    go(v[k]);
}
void mc_rt_abandon(void) { in_rt = 1; abandon(); die("RT: abandoned thread resumed"); }
void mc_rt_point(void) { point(); }
void mc_rt_yield(void) {
    if (!active || in_rt || cur == 0) return;
    in_rt = 1;
    int v[T], n = 0;
    for (int i = 1; i < nthreads; i++) if (i != cur && C[i].state == RUN) v[n++] = i;
    if (n) { int k = mc_rt_choose(n, 0); if (k < 0) abandon(); go(v[k]); }
    in_rt = 0;
}

// ---------------------------------------------------------------- vector clocks
#define SYNCS 8192
static struct sync { const void *a; u32 gen; u32 c[T]; } S[SYNCS];
static struct sync *sync_of(const void *a) {
    size_t i = ((uintptr_t)a * 0x9E3779B97F4A7C15ull >> 40) % SYNCS;
    while (S[i].gen == gen && S[i].a != a) i = (i + 1) % SYNCS;
    if (S[i].gen != gen) { S[i].gen = gen; S[i].a = a; memset(S[i].c, 0, sizeof S[i].c); }
    return &S[i];
}
static void join(u32 *a, const u32 *b) { for (int i = 0; i < T; i++) if (b[i] > a[i]) a[i] = b[i]; }
static u32 WAITED[T];
static void acquire(const void *a, int mo) { if (mo == 1 || mo == 2 || mo >= 4) join(VC[cur], WAITED); struct sync *s = sync_of(a); if (mo == 1 || mo == 2 || mo >= 4) join(VC[cur], s->c); else join(ACQ[cur], s->c); }
static void release(const void *a, int mo, int rmw) {
    struct sync *s = sync_of(a);
    if (!rmw) memset(s->c, 0, sizeof s->c);
    if (mo >= 3) { join(s->c, VC[cur]); VC[cur][cur]++; } else join(s->c, REL[cur]);
}
static void check_live(const void *p, size_t n) {
    if (!in_heap(p)) return;
    size_t o = (u8 *)p - heap;
    for (size_t i = 0; i < n; i++) {
        if (st[o + i] == 2) { bad("freed memory is used", p, (int)n); return; }
        if (st[o + i] == 0) { bad("memory outside any block is used", p, (int)n); return; }
    }
}
static void access_(const void *p, size_t n, int wr) {
    if (!active || in_rt || !in_heap(p)) return;
    check_live(p, n);
    if (verdict[0]) return;
    size_t o = (u8 *)p - heap;
    u32 *v = VC[cur];
    for (size_t i = o; i < o + n; i++) {
        struct cell *c = &cells[i];
        if (wr == 2 && c->gen != gen && i > o) continue; // freeing what was not touched since its birth
        if (c->gen != gen) {
            size_t lo = 0, hi = nblks;
            while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (blks[m].at <= i) lo = m; else hi = m; }
            c->gen = gen; c->w = blks[lo].clock; c->wt = blks[lo].t; memset(c->r, 0, sizeof c->r);
        }
        if (c->wt != cur && v[c->wt] < c->w) { bad(wr ? "data race: two unordered writes" : "data race: a read not ordered after a write", p, (int)n); return; }
        if (wr) {
            for (int u = 0; u < T; u++) if (u != cur && v[u] < c->r[u]) { bad("data race: a write not ordered after a read", p, (int)n); return; }
            c->w = v[cur]; c->wt = cur;
        } else c->r[cur] = v[cur];
    }
}

// ---------------------------------------------------------------- an execution
void mc_rt_begin(void) {
    if (!heap) {
        heap = mmap(0, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        cells = mmap(0, (size_t)HEAP * sizeof(struct cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        st = mmap(0, HEAP, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        blks = mmap(0, BLKS * sizeof(struct blk), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (heap == MAP_FAILED || cells == MAP_FAILED || st == MAP_FAILED || blks == MAP_FAILED) die("RT: no memory");
    }
    memset(st, 0, heap_top); nblks = 0;
    heap_top = 0; gen++; points = switches = 0; verdict[0] = 0; abandoned = 0;
    memset(VC, 0, sizeof VC); memset(WAITED, 0, sizeof WAITED); memset(ACQ, 0, sizeof ACQ); memset(REL, 0, sizeof REL);
    for (int i = 0; i < T; i++) VC[i][i] = 1;
    cur = 0; nthreads = 1; in_rt = 0; active = 1;
}
void mc_rt_end(void) { active = 0; in_rt = 0; cur = 0; }
// Runs n threads to their ends. 0: done, 1: verdict, 2: abandoned by the explorer.
int mc_rt_threads(int n, void (*f)(int)) {
    if (n + 1 > T) die("RT: too many threads");
    in_rt = 1;
    entry = f; nthreads = n + 1;
    for (int i = 1; i <= n; i++) {
        if (!C[i].stack) {
            C[i].stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (C[i].stack == MAP_FAILED || mprotect(C[i].stack, 4096, PROT_NONE)) die("RT: no stack");
        }
        void **sp = (void **)(C[i].stack + STACK);
        *--sp = 0;
        *--sp = (void *)base;
        for (int k = 0; k < 6; k++) *--sp = 0;
        C[i].sp = sp; C[i].state = RUN; C[i].tag = *mc_rt_tag(); C[i].spins = 0; C[i].laddr = 0; C[i].same = 0; C[i].timed = 0; C[i].faddr = 0;
        join(VC[i], VC[0]);
        VC[i][i]++;
    }
    VC[0][0]++;
    if (n) {
        int k = mc_rt_choose(n, 0);
        if (k < 0) abandoned = 1; else go(k + 1);
    }
    int all = 1;
    for (int i = 1; i <= n; i++) { if (C[i].state != DONE) all = 0; join(VC[0], VC[i]); C[i].state = FREE; }
    nthreads = 1;
    in_rt = 0;
    if (verdict[0]) return 1;
    return all ? 0 : 2;
}
const char *mc_rt_verdict(void) { return verdict; }
u64 mc_rt_points(void) { return points; }
u64 mc_rt_switches(void) { return switches; }

// ---------------------------------------------------------------- system calls
static long raw(long n, long a, long b, long c, long d, long e, long f) {
    long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
long syscall(long n, ...) {
    va_list ap; va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && active && !in_rt) {
        int op = (int)b & 127;
        u32 *addr = (u32 *)a;
        if (op == 0 || op == 9) { // wait
            if (*addr != (u32)c) { errno = EAGAIN; return -1; }
            if (cur == 0) { bad("the main thread would wait for ever", addr, 4); errno = EAGAIN; return -1; }
            in_rt = 1;
            struct ctx *x = &C[cur];
            x->faddr = addr; x->bitset = op == 9 ? (u32)f : ~0u; x->timed = d != 0; x->woken = 0; x->state = BLOCKED;
            join(WAITED, VC[cur]); VC[cur][cur]++; // it may have released a lock in such code, too
            block();
            in_rt = 0;
            // the lock is then taken by code that is not instrumented: what the others did before is taken to be
            // ordered before what follows (an unordered access still shows in the schedules that do not wait)
            for (int k = 1; k < nthreads; k++) join(VC[cur], VC[k]);
            if (x->timed && !x->woken) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == 1 || op == 10) { // wake
            int left = (int)c, w = 0;
            u32 set = op == 10 ? (u32)f : ~0u;
            // which of several waiters is woken is a free choice
            in_rt = 1;
            while (w < left) {
                int v[T], m = 0;
                for (int i = 1; i < nthreads; i++) if (C[i].state == BLOCKED && C[i].faddr == addr && (C[i].bitset & set)) v[m++] = i;
                if (!m) break;
                int k = left >= m ? 0 : mc_rt_choose(m, 0);
                if (k < 0) { abandon(); break; }
                C[v[k]].state = RUN; C[v[k]].woken = 1; w++;
            }
            in_rt = 0;
            return w;
        }
        die("RT: unknown futex operation");
    }
    long r = raw(n, a, b, c, d, e, f);
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
int sched_yield(void) { if (active && !in_rt && cur) { mc_rt_yield(); return 0; } return (int)raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (active && !in_rt && cur) { mc_rt_yield(); return 0; } long r = raw(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); if (r < 0) { errno = (int)-r; return -1; } return 0; }
int clock_nanosleep(int k, int fl, const struct timespec *a, struct timespec *b) { if (active && !in_rt && cur) { mc_rt_yield(); return 0; } return (int)-raw(SYS_clock_nanosleep, k, fl, (long)a, (long)b, 0, 0); }

// ---------------------------------------------------------------- instrumentation
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
    void __tsan_read##n(void *p) { access_(p, n, 0); } void __tsan_write##n(void *p) { access_(p, n, 1); } \
    void __tsan_read_write##n(void *p) { access_(p, n, 1); } \
    void __tsan_unaligned_read##n(void *p) { access_(p, n, 0); } void __tsan_unaligned_write##n(void *p) { access_(p, n, 1); } \
    void __tsan_unaligned_read_write##n(void *p) { access_(p, n, 1); } \
    void __tsan_volatile_read##n(void *p) { access_(p, n, 0); } void __tsan_volatile_write##n(void *p) { access_(p, n, 1); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access_(p, n, 0); } void __tsan_unaligned_volatile_write##n(void *p) { access_(p, n, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { (void)v; access_(p, 8, 1); }
void __tsan_vptr_read(void **p) { access_(p, 8, 0); }
void __tsan_read_range(void *p, size_t n) { access_(p, n, 0); }
void __tsan_write_range(void *p, size_t n) { access_(p, n, 1); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access_(s, n, 0); access_(d, n, 1); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access_(s, n, 0); access_(d, n, 1); return memmove(d, s, n); }
void *__tsan_memset(void *d, int v, size_t n) { access_(d, n, 1); return memset(d, v, n); }

static int on(void) { return active && !in_rt; }
static void pre(const void *p, size_t n) { if (on()) { point(); check_live(p, n); } }
#define AT(b, t) \
    t __tsan_atomic##b##_load(const volatile t *p, int mo) { pre((void *)p, b / 8); t v = *p; if (on()) { acquire((void *)p, mo); if (cur) watch((void *)p, (u64)v); } return v; } \
    void __tsan_atomic##b##_store(volatile t *p, t v, int mo) { pre((void *)p, b / 8); if (on()) { release((void *)p, mo, 0); wrote(); } *p = v; } \
    RMW(b, t, exchange, v) RMW(b, t, fetch_add, (t)(o + v)) RMW(b, t, fetch_sub, (t)(o - v)) RMW(b, t, fetch_and, (t)(o & v)) \
    RMW(b, t, fetch_or, (t)(o | v)) RMW(b, t, fetch_xor, (t)(o ^ v)) RMW(b, t, fetch_nand, (t)~(o & v)) \
    t __tsan_atomic##b##_compare_exchange_val(volatile t *p, t c, t v, int mo, int fmo) { \
        pre((void *)p, b / 8); t o = *p; \
        if (o == c) { if (on()) { acquire((void *)p, mo); release((void *)p, mo == 2 || mo == 1 ? 0 : mo, 1); } wrote(); *p = v; } \
        else if (on()) { acquire((void *)p, mo > fmo ? mo : fmo); /* the slow path of a lock, which is not instrumented, follows at once and may succeed */ if (cur) watch((void *)p, (u64)o); } \
        return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t *p, t *c, t v, int mo, int fmo) { t e = *c; t o = __tsan_atomic##b##_compare_exchange_val(p, e, v, mo, fmo); if (o == e) return 1; *c = o; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t *p, t *c, t v, int mo, int fmo) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, mo, fmo); }
#define RMW(b, t, name, ex) t __tsan_atomic##b##_##name(volatile t *p, t v, int mo) { pre((void *)p, b / 8); t o = *p; if (on()) { acquire((void *)p, mo); release((void *)p, mo == 2 || mo == 1 ? 0 : mo, 1); wrote(); } *p = (ex); return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) {
    if (!on()) return;
    point();
    if (mo == 1 || mo == 2 || mo >= 4) join(VC[cur], ACQ[cur]);
    if (mo >= 3) { memcpy(REL[cur], VC[cur], sizeof REL[cur]); VC[cur][cur]++; }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
