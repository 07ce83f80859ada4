/* A controlled scheduler behind the ThreadSanitizer instrumentation interface.
 *
 * The harness crate, measureme, parking_lot, lock_api and every generic std
 * function instantiated in them are compiled with -Zsanitizer=thread but linked
 * against this file instead of the sanitizer runtime. Every atomic operation,
 * futex wait/wake, sched_yield and write system call of a managed thread is a
 * scheduling point; exactly one managed thread runs at a time. Atomic
 * operations count from the moment their call site has been seen to touch a
 * location that another thread uses too, one of them writing: before that they
 * commute with everything the others do. Plain accesses go through a
 * happens-before analysis; call sites found racing become scheduling points
 * too. This file itself is not instrumented.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
#define SCQ __ATOMIC_SEQ_CST

#define MAXT 8
#define MAXPTS 60000
#define MAXPC 1024

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

enum { T_NONE, T_READY, T_BLOCKED, T_DONE };
struct thr {
  int state;
  u32 *fut;
  int timed;
  int timed_out;
  u64 order;       /* FIFO position among waiters */
  volatile u32 go; /* hand-off futex */
};
static struct thr th[MAXT];
static int nthr, ndone;
static __thread int me = -1;
static int cur = -1;
static volatile u32 main_go;
static u64 wait_order;

/* trace of the execution */
struct pt { u8 n; u8 choice; u8 kind; u8 cost; };
struct pt rt_trace[MAXPTS];
int rt_npts;
static const u8 *prefix; static int nprefix;
int rt_status; /* 0 ok, 1 deadlock, 2 step limit, 3 divergence */
u64 rt_steps;  /* instrumented scheduling points passed (including single-choice ones) */

/* clock */
static u64 vclock_ns; static u64 vstep; int rt_vclock_on;
/* racing call sites; may point to shared memory */
struct rt_pcs { volatile u32 n; u32 pad; volatile u64 pc[MAXPC]; };
static struct rt_pcs local_pcs; struct rt_pcs *rt_pcs = &local_pcs;
u32 rt_active_pcs; /* how many of them are points (fixed per generation) */
static int race_on;

static void fwait(volatile u32 *a) {
  while (!__atomic_load_n(a, __ATOMIC_ACQUIRE))
    raw6(SYS_futex, (long)a, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
  __atomic_store_n(a, 0, __ATOMIC_RELEASE);
}
static void fwake(volatile u32 *a) {
  __atomic_store_n(a, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)a, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}

static void stop_all(int status) {
  /* The execution cannot continue; its threads stay parked for ever and the
     worker process reports and exits. */
  rt_status = status;
  fwake(&main_go);
  for (;;) raw6(SYS_pause, 0, 0, 0, 0, 0, 0);
}

/* kinds */
enum { K_ATOMIC = 1, K_YIELD = 2, K_BLOCK = 3, K_EXIT = 4, K_START = 5, K_IO = 6, K_PLAIN = 7 };

/* Decide who runs next. Called by the running thread (or main at start). */
static int decide(int kind) {
  int cand[MAXT], n = 0;
  int self_first = (kind == K_ATOMIC || kind == K_IO || kind == K_PLAIN);
  int base = cur < 0 ? nthr - 1 : cur;
  if (self_first) cand[n++] = cur;
  for (int k = 1; k <= nthr; k++) {
    int t = (base + k) % nthr;
    if (t == cur && (self_first || kind == K_YIELD)) continue;
    if (th[t].state == T_READY) cand[n++] = t;
  }
  if (kind == K_YIELD && n == 0) return cur;
  if (n == 0) {
    /* a timed wait may expire if nothing else can run */
    for (int t = 0; t < nthr; t++)
      if (th[t].state == T_BLOCKED && th[t].timed) {
        th[t].state = T_READY; th[t].timed_out = 1; return t;
      }
    return -1;
  }
  if (n == 1) return cand[0];
  if (rt_npts >= MAXPTS) stop_all(2);
  int i = rt_npts++;
  int c = i < nprefix ? prefix[i] : 0;
  if (c >= n) stop_all(3);
  rt_trace[i].n = n; rt_trace[i].choice = c; rt_trace[i].kind = kind;
  /* cost of taking any non-default alternative here */
  rt_trace[i].cost = (kind == K_BLOCK || kind == K_EXIT || kind == K_START) ? 0 : 1;
  return cand[c];
}

/* What a yield means: 0 - another thread runs; 1 - the thread goes on (so that
   it gets to park after spinning on a lock), up to YIELDS times in a row. */
int rt_spin;
#define YIELDS 40
#define STARVE 20000
static int yields, alone;
static void switch_to(int t) {
  if (t == me) return;
  int self = me;
  yields = alone = 0;
  cur = t;
  fwake(&th[t].go);
  fwait(&th[self].go);
}

static void point(int kind) {
  if (me < 0) return;
  if (++rt_steps > 2000000) stop_all(2);
  /* busy waiting does not keep the others from running for ever */
  if (++alone > STARVE) kind = K_YIELD;
  else if (kind == K_YIELD && rt_spin && ++yields <= YIELDS) return;
  int t = decide(kind);
  if (t < 0) stop_all(1);
  switch_to(t);
}

/* ---- happens-before ---- */
typedef struct { u32 c[MAXT]; } vc;
static vc tvc[MAXT];
#define NOBJ 8192
static struct { u64 addr; u32 gen; vc v; } obj[NOBJ];
#define NSH (1 << 16)
static struct sh { u64 addr; u32 gen; int wt; u32 wc; u64 wpc; u32 rc[MAXT]; u64 rpc[MAXT]; } shw[NSH];
static u32 gen;
static void vjoin(vc *a, const vc *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }
static vc *getobj(u64 a) {
  u32 h = (u32)((a >> 2) * 0x9E3779B97F4A7C15ull >> 40) % NOBJ;
  for (int k = 0; k < 64; k++, h = (h + 1) % NOBJ) {
    if (obj[h].gen != gen) { obj[h].gen = gen; obj[h].addr = a; memset(&obj[h].v, 0, sizeof(vc)); return &obj[h].v; }
    if (obj[h].addr == a) return &obj[h].v;
  }
  static vc dummy; return &dummy;
}
static inline int is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline int is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void hb_load(void *a, int mo) { if (me >= 0 && is_acq(mo)) vjoin(&tvc[me], getobj((u64)a)); }
static void hb_store(void *a, int mo) {
  if (me < 0) return;
  vc *o = getobj((u64)a);
  if (is_rel(mo)) { *o = tvc[me]; tvc[me].c[me]++; } else memset(o, 0, sizeof *o);
}
static void hb_rmw(void *a, int mo) {
  if (me < 0) return;
  vc *o = getobj((u64)a);
  if (is_acq(mo)) vjoin(&tvc[me], o);
  if (is_rel(mo)) { vjoin(o, &tvc[me]); tvc[me].c[me]++; }
}
static void addpc(u64 pc) {
  u32 n = rt_pcs->n; if (n > MAXPC) n = MAXPC;
  for (u32 i = 0; i < n; i++) if (rt_pcs->pc[i] == pc) return;
  u32 i = __atomic_fetch_add(&rt_pcs->n, 1, __ATOMIC_SEQ_CST);
  if (i < MAXPC) rt_pcs->pc[i] = pc;
}
static void plain1(u64 a, int wr, u64 pc) {
  u64 g = a >> 3;
  u32 h = (u32)(g * 0x9E3779B97F4A7C15ull >> 44) % NSH;
  struct sh *s = 0;
  for (int k = 0; k < 32; k++, h = (h + 1) % NSH) {
    if (shw[h].gen != gen) { memset(&shw[h], 0, sizeof shw[h]); shw[h].gen = gen; shw[h].addr = g; shw[h].wt = -1; s = &shw[h]; break; }
    if (shw[h].addr == g) { s = &shw[h]; break; }
  }
  if (!s) return;
  if (s->wt >= 0 && s->wt != me && s->wc > tvc[me].c[s->wt]) { addpc(pc); addpc(s->wpc); }
  if (wr) {
    for (int t = 0; t < nthr; t++)
      if (t != me && s->rc[t] > tvc[me].c[t]) { addpc(pc); addpc(s->rpc[t]); }
    s->wt = me; s->wc = tvc[me].c[me]; s->wpc = pc;
  } else { s->rc[me] = tvc[me].c[me]; s->rpc[me] = pc; }
}
/* the active sites, hashed */
#define NACT 4096
static u64 act[NACT]; static int act_built = -1;
static void build_act(void) {
  if (act_built == (int)rt_active_pcs) return;
  memset(act, 0, sizeof act); act_built = (int)rt_active_pcs;
  for (u32 i = 0; i < rt_active_pcs && i < MAXPC; i++) {
    u64 pc = rt_pcs->pc[i];
    u32 h = (u32)(pc * 0x9E3779B97F4A7C15ull >> 40) % NACT;
    while (act[h] && act[h] != pc) h = (h + 1) % NACT;
    act[h] = pc;
  }
}
static inline int active(u64 pc) {
  u32 h = (u32)(pc * 0x9E3779B97F4A7C15ull >> 40) % NACT;
  for (; act[h]; h = (h + 1) % NACT) if (act[h] == pc) return 1;
  return rt_active_pcs >= MAXPC;
}
/* An atomic operation: who touched the location from where. */
#define NAT 4096
#define PER 12
static struct at { u64 addr; u32 gen; int n; struct { u64 pc; u8 t, wr; } e[PER]; } atw[NAT];
static void apoint(void *p, int wr, u64 pc) {
  if (me < 0) return;
  u64 a = (u64)p;
  u32 h = (u32)(a * 0x9E3779B97F4A7C15ull >> 40) % NAT;
  struct at *s = 0;
  for (int k = 0; k < 64; k++, h = (h + 1) % NAT) {
    if (atw[h].gen != gen) { atw[h].gen = gen; atw[h].addr = a; atw[h].n = 0; s = &atw[h]; break; }
    if (atw[h].addr == a) { s = &atw[h]; break; }
  }
  if (!s) addpc(pc);
  else {
    int known = 0;
    for (int i = 0; i < s->n; i++) {
      if (s->e[i].t == me) known |= s->e[i].pc == pc && s->e[i].wr == wr;
      else if (wr || s->e[i].wr) { addpc(pc); addpc(s->e[i].pc); }
    }
    if (!known) {
      if (s->n < PER) { s->e[s->n].pc = pc; s->e[s->n].t = me; s->e[s->n].wr = wr; s->n++; }
      else addpc(pc);
    }
  }
  if (active(pc)) point(K_ATOMIC);
  else if (++rt_steps > 2000000) stop_all(2);
  else if (++alone > STARVE) point(K_YIELD);
}
static inline void plain(void *a, size_t n, int wr, u64 pc) {
  if (me < 0 || !race_on) return;
  if (rt_active_pcs && active(pc)) point(K_PLAIN);
  u64 lo = (u64)a, hi = lo + n;
  if (!n) return;
  if (n <= 1024) { for (u64 g = lo >> 3; g <= (hi - 1) >> 3; g++) plain1(g << 3, wr, pc); }
  else {
    for (u64 g = lo >> 3; g < (lo >> 3) + 8; g++) plain1(g << 3, wr, pc);
    for (u64 g = ((hi - 1) >> 3) - 8; g <= (hi - 1) >> 3; g++) plain1(g << 3, wr, pc);
  }
}

/* ---- interface for the explorer ---- */
void rt_begin(int n, const u8 *p, int np, u64 clock0, u64 step, int races) {
  nthr = n; ndone = 0; prefix = p; nprefix = np; rt_npts = 0; rt_status = 0; rt_steps = 0; cur = -1;
  vclock_ns = clock0; vstep = step; wait_order = 0;
  race_on = races;
  build_act();
  gen++;
  for (int i = 0; i < MAXT; i++) {
    th[i].state = i < n ? T_READY : T_NONE; th[i].go = 0; th[i].fut = 0; th[i].timed = th[i].timed_out = 0;
    memset(&tvc[i], 0, sizeof(vc)); tvc[i].c[i] = 1;
  }
  main_go = 0; yields = alone = 0;
}
void rt_enter(int i) { me = i; fwait(&th[i].go); }
void rt_exit(void) {
  int self = me;
  th[self].state = T_DONE; ndone++;
  if (ndone == nthr) { me = -1; fwake(&main_go); return; }
  int t = decide(K_EXIT);
  if (t < 0) { stop_all(1); }
  me = -1;
  cur = t;
  fwake(&th[t].go);
}
void rt_run(void) {
  int t = decide(K_START);
  cur = t;
  fwake(&th[t].go);
  fwait(&main_go);
}
void rt_set_clock(u64 ns, u64 step, int on) { vclock_ns = ns; vstep = step; rt_vclock_on = on; }
int rt_me(void) { return me; }

/* ---- interposed libc ---- */
long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (me >= 0 && n == SYS_futex) {
    int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
    u32 *fa = (u32 *)a;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      point(K_ATOMIC);
      if (__atomic_load_n(fa, __ATOMIC_SEQ_CST) != (u32)c) {
        /* std takes its locks in code that is not instrumented, after this */
        vjoin(&tvc[me], getobj((u64)fa));
        errno = EAGAIN; return -1;
      }
      th[me].state = T_BLOCKED; th[me].fut = fa; th[me].timed = d != 0; th[me].timed_out = 0; th[me].order = wait_order++;
      int t = decide(K_BLOCK);
      if (t < 0) stop_all(1);
      if (t != me) switch_to(t);
      th[me].fut = 0;
      vjoin(&tvc[me], getobj((u64)fa));
      if (th[me].timed_out) { errno = ETIMEDOUT; return -1; }
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      point(K_ATOMIC);
      vjoin(getobj((u64)fa), &tvc[me]); tvc[me].c[me]++;
      long woken = 0, maxw = (int)c;
      while (woken < maxw) {
        int best = -1;
        for (int t = 0; t < nthr; t++)
          if (th[t].state == T_BLOCKED && th[t].fut == fa && (best < 0 || th[t].order < th[best].order)) best = t;
        if (best < 0) break;
        th[best].state = T_READY; woken++;
      }
      return woken;
    }
  }
  long r = raw6(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = -r; return -1; }
  return r;
}
int sched_yield(void) { if (me >= 0) { point(K_YIELD); return 0; } return raw6(SYS_sched_yield, 0, 0, 0, 0, 0, 0); }
int nanosleep(const struct timespec *a, struct timespec *b) {
  if (me >= 0) { point(K_YIELD); return 0; }
  long r = raw6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *a, struct timespec *b) {
  if (me >= 0) { point(K_YIELD); return 0; }
  return -raw6(SYS_clock_nanosleep, c, fl, (long)a, (long)b, 0, 0);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  if (rt_vclock_on && (c == CLOCK_MONOTONIC || c == CLOCK_MONOTONIC_RAW || c == CLOCK_BOOTTIME)) {
    u64 t = vclock_ns; vclock_ns += vstep;
    ts->tv_sec = t / 1000000000ull; ts->tv_nsec = t % 1000000000ull; return 0;
  }
  if (rt_vclock_on && c == CLOCK_REALTIME) { ts->tv_sec = 1600000000; ts->tv_nsec = 123456789; return 0; }
  long r = raw6(SYS_clock_gettime, c, (long)ts, 0, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return 0;
}
ssize_t write(int fd, const void *p, size_t n) {
  if (me >= 0) point(K_IO);
  long r = raw6(SYS_write, fd, (long)p, n, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r;
}
ssize_t writev(int fd, const struct iovec *v, int n) {
  if (me >= 0) point(K_IO);
  long r = raw6(SYS_writev, fd, (long)v, n, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r;
}
ssize_t pwrite64(int fd, const void *p, size_t n, off_t o) {
  if (me >= 0) point(K_IO);
  long r = raw6(SYS_pwrite64, fd, (long)p, n, o, 0, 0); if (r < 0) { errno = -r; return -1; } return r;
}
off_t lseek64(int fd, off_t o, int w) {
  if (me >= 0) point(K_IO);
  long r = raw6(SYS_lseek, fd, o, w, 0, 0, 0); if (r < 0) { errno = -r; return -1; } return r;
}

/* ---- allocator: a bump arena per execution, so that addresses are a function
   of the schedule; reset only when everything from it has been freed ---- */
#include <sys/mman.h>
#define ARENA (1ull << 30)
static u8 *arena; static u64 arena_pos; static long arena_live; static int arena_on;
void rt_arena(int on) {
  if (!arena) {
    arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED) abort();
  }
  if (on && __atomic_load_n(&arena_live, SCQ) == 0) arena_pos = 0;
  arena_on = on;
}
long rt_arena_live(void) { return arena_live; }
void *rt_alloc(size_t n, size_t al) {
  if (arena_on) {
    if (al < 16) al = 16;
    u64 p = (arena_pos + al - 1) & ~(u64)(al - 1);
    if (p + n <= ARENA) { arena_pos = p + n; __atomic_fetch_add(&arena_live, 1, SCQ); return arena + p; }
  }
  if (al <= 16) return malloc(n ? n : 1);
  void *p = 0; if (posix_memalign(&p, al, n)) return 0; return p;
}
void rt_free(void *p) {
  if (arena && (u8 *)p >= arena && (u8 *)p < arena + ARENA) { __atomic_fetch_sub(&arena_live, 1, SCQ); return; }
  free(p);
}
void *rt_realloc(void *p, size_t old, size_t al, size_t n) {
  if (!(arena && (u8 *)p >= arena && (u8 *)p < arena + ARENA) && !arena_on && al <= 16) return realloc(p, n ? n : 1);
  void *q = rt_alloc(n, al); if (!q) return 0;
  memcpy(q, p, old < n ? old : n); rt_free(p); return q;
}

/* ---- ThreadSanitizer entry points ---- */
#define PC ((u64)__builtin_return_address(0))
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n) \
  void __tsan_read##n(void *a) { plain(a, n, 0, PC); } \
  void __tsan_write##n(void *a) { plain(a, n, 1, PC); } \
  void __tsan_unaligned_read##n(void *a) { plain(a, n, 0, PC); } \
  void __tsan_unaligned_write##n(void *a) { plain(a, n, 1, PC); } \
  void __tsan_read_write##n(void *a) { plain(a, n, 0, PC); plain(a, n, 1, PC); } \
  void __tsan_unaligned_read_write##n(void *a) { plain(a, n, 0, PC); plain(a, n, 1, PC); } \
  void __tsan_volatile_read##n(void *a) { plain(a, n, 0, PC); } \
  void __tsan_volatile_write##n(void *a) { plain(a, n, 1, PC); } \
  void __tsan_unaligned_volatile_read##n(void *a) { plain(a, n, 0, PC); } \
  void __tsan_unaligned_volatile_write##n(void *a) { plain(a, n, 1, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { plain(a, n, 0, PC); }
void __tsan_write_range(void *a, size_t n) { plain(a, n, 1, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { plain((void *)s, n, 0, PC); plain(d, n, 1, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { plain((void *)s, n, 0, PC); plain(d, n, 1, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { plain(d, n, 1, PC); return memset(d, c, n); }

#define SC __ATOMIC_SEQ_CST
#define AT(b, T) \
  T __tsan_atomic##b##_load(const volatile T *a, int mo) { apoint((void *)a, 0, PC); hb_load((void *)a, mo); return __atomic_load_n(a, SC); } \
  void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { apoint((void *)a, 1, PC); hb_store((void *)a, mo); __atomic_store_n(a, v, SC); } \
  T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { apoint((void *)a, 1, PC); hb_rmw((void *)a, mo); return __atomic_exchange_n(a, v, SC); } \
  T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { apoint((void *)a, 1, PC); hb_rmw((void *)a, mo); return __atomic_fetch_add(a, v, SC); } \
  T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { apoint((void *)a, 1, PC); hb_rmw((void *)a, mo); return __atomic_fetch_sub(a, v, SC); } \
  T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { apoint((void *)a, 1, PC); hb_rmw((void *)a, mo); return __atomic_fetch_and(a, v, SC); } \
  T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { apoint((void *)a, 1, PC); hb_rmw((void *)a, mo); return __atomic_fetch_or(a, v, SC); } \
  T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { apoint((void *)a, 1, PC); hb_rmw((void *)a, mo); return __atomic_fetch_xor(a, v, SC); } \
  T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { apoint((void *)a, 1, PC); hb_rmw((void *)a, mo); return __atomic_fetch_nand(a, v, SC); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    apoint((void *)a, 1, PC); T e = c; \
    if (__atomic_compare_exchange_n(a, &e, v, 0, SC, SC)) hb_rmw((void *)a, mo); else hb_load((void *)a, fmo); return e; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    apoint((void *)a, 1, PC); int r = __atomic_compare_exchange_n(a, c, v, 0, SC, SC); \
    if (r) hb_rmw((void *)a, mo); else hb_load((void *)a, fmo); return r; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
    apoint((void *)a, 1, PC); int r = __atomic_compare_exchange_n(a, c, v, 0, SC, SC); \
    if (r) hb_rmw((void *)a, mo); else hb_load((void *)a, fmo); return r; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { (void)mo; if (me >= 0) { point(K_ATOMIC); static u8 f; hb_rmw(&f, 4); } }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
