/*
 * vsim: takes over the sources of nondeterminism of one process at the libc
 * boundary. See DESIGN.md section 1.
 *
 * The driver passes the run's configuration in a memfd (descriptor CFG_FD) and
 * reads the history back from it. Without that descriptor the library is inert.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

#define CFG_FD 1021
#define GATE_OUT 1019 /* the process says that it is about to do something */
#define GATE_IN 1018  /* and waits to be let through */
#define MAGIC 0x31304d495356ull /* "VSIM01" */
#define NOPS 17
#define NACTS 10
#define MAXLIST 4096
#define MAXSW 65536
#define MAXEDIT 48
#define MAXPF 24
#define MAXDMG 16
#define PLEN 256
#define LOGCAP (1u << 20)
#define COVCAP (1u << 16)

enum {
  OP_OPEN_R, OP_OPEN_W, OP_READ, OP_READ_IN, OP_WRITE, OP_WRITE_OUT,
  OP_WRITE_ERR, OP_CLOSE, OP_STAT, OP_SEEK, OP_REALPATH, OP_GETCWD, OP_NAME,
  OP_SYNC, OP_CHDIR, OP_REMOVE, OP_LOCK
};
static const char *const op_name[NOPS] = {
  "openr", "openw", "read", "readin", "write", "writeout", "writeerr", "close",
  "stat", "seek", "realpath", "getcwd", "name", "sync", "chdir", "remove", "lock"};

enum {
  A_NONE, A_SHORT, A_EINTR, A_ERRNO, A_ZERO, A_CRASH_BEFORE, A_CRASH_AFTER,
  A_CRASH_PART, A_EDIT, A_DELAY
};

struct listed { uint32_t ev; uint32_t act; int64_t arg; };
struct swpoint { uint64_t step; uint32_t thr; uint32_t pad; };
struct edit { uint32_t kind; uint32_t done; char path[PLEN]; char src[PLEN]; };
struct pathfault { uint32_t opmask; int32_t err; uint32_t from_ev; uint32_t pad; char path[PLEN]; };
struct damage { uint32_t kind; uint32_t mask; uint64_t off; uint64_t len; char path[PLEN]; };

struct shared {
  /* configuration, written by the driver */
  uint64_t magic;
  uint64_t fault_seed, sched_seed, rand_seed;
  uint64_t clock_base;
  uint32_t pid, heap_pad;
  uint32_t explicit_faults, n_listed;
  uint32_t explicit_sched, n_switch;
  uint32_t max_faults, edit_rate;
  uint32_t n_edits, n_pf;
  uint32_t n_damage, fd_limit;
  uint64_t max_steps, max_live;
  uint32_t gap_mean, io_switch;
  uint32_t short_mode, faults_on;
  uint64_t env_seed;
  uint32_t gated, tty, ns_step, cpus;
  uint32_t cold_switch, pad3;
  uint16_t rate[NOPS][NACTS];
  char root[PLEN];
  struct listed listed[MAXLIST];
  struct swpoint sw[MAXSW];
  struct edit edits[MAXEDIT];
  struct pathfault pf[MAXPF];
  struct damage dmg[MAXDMG];
  /* results */
  uint64_t steps, live, max_live_seen;
  uint32_t events, faults, switches, ended; /* ended: 1 budget 2 deadlock 3 memory 4 crash */
  uint32_t open_now, open_max, threads_made, log_over;
  uint32_t log_len, pad2;
  uint64_t rnd_calls, clock_calls, sim_time;
  uint8_t cov[COVCAP];
  char log[LOGCAP];
};

static struct shared *S;
static volatile int on;
static char root[PLEN];
static size_t rootlen;
static uint64_t frng, srng, rrng;
static uint64_t steps, next_stop = UINT64_MAX;
static uint32_t li, si; /* next listed fault, next listed switch */

/* ------------------------------------------------------------ raw calls */

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return r;
}
#define R1(n, a) raw6(n, (long)(a), 0, 0, 0, 0, 0)
#define R2(n, a, b) raw6(n, (long)(a), (long)(b), 0, 0, 0, 0)
#define R3(n, a, b, c) raw6(n, (long)(a), (long)(b), (long)(c), 0, 0, 0)
#define R4(n, a, b, c, d) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), 0, 0)
#define R5(n, a, b, c, d, e) raw6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), 0)

static long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

static uint64_t rnd(uint64_t *s) {
  uint64_t z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

/* ----------------------------------------------------------------- log */

static void lograw(const char *s, size_t n) {
  if (S->log_len + n > LOGCAP) { S->log_over = 1; return; }
  memcpy(S->log + S->log_len, s, n);
  S->log_len += (uint32_t)n;
}
static void logf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void logf_(const char *fmt, ...) {
  char b[1400];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n >= (int)sizeof b) n = sizeof b - 1;
  lograw(b, (size_t)n);
}

/* a run that asks the system this often never ends */
#define MAX_EVENTS 400000u

static uint64_t sim_ns(void);
static void sync_out(void) {
  S->steps = steps;
  S->sim_time = sim_ns();
}
static void die(int why, int code) {
  S->ended = (uint32_t)why;
  sync_out();
  raw6(SYS_exit_group, code, 0, 0, 0, 0, 0);
  __builtin_unreachable();
}
static void crash(void) {
  S->ended = 4;
  sync_out();
  R2(SYS_kill, R1(SYS_getpid, 0), SIGKILL);
  for (;;) R1(SYS_pause, 0);
}

/* ----------------------------------------------------------- scheduler */

#define MAXTHR 64
enum { T_FREE, T_RUN, T_FUTEX, T_JOIN, T_SLEEP, T_DONE };
struct thr {
  volatile int baton; /* 1: may run */
  int state;
  uint32_t *addr;
  uint32_t bits;
  int timed;
  uint64_t deadline; /* ns on the simulated clock */
  int timed_out;
  int join_on;
  pthread_t handle;
  void *(*fn)(void *);
  void *arg;
};
static struct thr T[MAXTHR];
static int nthr;
static int cur;
static __thread int me __attribute__((tls_model("initial-exec"))) = -1;
static __thread int bypass __attribute__((tls_model("initial-exec"))) = 0;
static pthread_key_t fin_key;
static uint64_t slept_ns;

static uint64_t sim_ns(void) { return steps * (S->ns_step ? S->ns_step : 50) + slept_ns; }

static void wait_baton(int id) {
  while (!__atomic_load_n(&T[id].baton, __ATOMIC_ACQUIRE))
    raw6(SYS_futex, (long)&T[id].baton, FUTEX_WAIT | FUTEX_PRIVATE_FLAG, 0, 0, 0, 0);
}
static void give_baton(int id) {
  cur = id;
  __atomic_store_n(&T[id].baton, 1, __ATOMIC_RELEASE);
  raw6(SYS_futex, (long)&T[id].baton, FUTEX_WAKE | FUTEX_PRIVATE_FLAG, 1, 0, 0, 0);
}
static void switch_to(int id) {
  int self = me;
  if (id == self) return;
  T[self].baton = 0;
  S->switches++;
  give_baton(id);
  wait_baton(self);
}

static void set_next_stop(void) {
  uint64_t n = S->max_steps ? S->max_steps : UINT64_MAX;
  if (nthr > 1) {
    uint64_t s = UINT64_MAX;
    if (S->explicit_sched) {
      while (si < S->n_switch && S->sw[si].step <= steps) si++;
      if (si < S->n_switch) s = S->sw[si].step;
    } else if (S->gap_mean) {
      s = steps + 1 + rnd(&srng) % (2ull * S->gap_mean);
    }
    if (s < n) n = s;
  }
  next_stop = n;
}

static int runnable_others(int *out) {
  int n = 0;
  for (int i = 0; i < nthr; i++)
    if (i != me && T[i].state == T_RUN) out[n++] = i;
  return n;
}

/* the thread that the schedule being replayed names for this step */
static int listed_switch(void) {
  while (si < S->n_switch && S->sw[si].step < steps) si++;
  return si < S->n_switch && S->sw[si].step == steps ? (int)S->sw[si].thr : -1;
}

/* threads whose waiting time is over */
static void expire(void) {
  for (int i = 0; i < nthr; i++)
    if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].timed && T[i].deadline <= sim_ns()) {
      T[i].state = T_RUN;
      T[i].timed_out = 1;
    }
}

/* voluntary switch: the current thread stays runnable */
static void preempt(void) {
  expire();
  int c[MAXTHR], n = runnable_others(c), to = -1;
  if (S->explicit_sched) {
    to = listed_switch();
    if (to < 0 || to >= nthr || to == me || T[to].state != T_RUN) to = -1;
  } else if (n) {
    to = c[rnd(&srng) % (uint64_t)n];
  }
  if (to >= 0) logf_("S %lu %d\n", (unsigned long)steps, to);
  set_next_stop();
  if (to >= 0) switch_to(to);
}

static void slow_step(void) {
  if (S->max_steps && steps >= S->max_steps) {
    logf_("X budget\n");
    die(1, 99);
  }
  preempt();
}

/* forced switch: the current thread cannot go on; returns when it can */
static void block(void) {
  steps++;
  expire();
  if (T[me].state == T_RUN) return;
  int c[MAXTHR], n = runnable_others(c), to = -1;
  if (n == 0) {
    /* let simulated time pass up to the earliest timeout */
    int best = -1;
    for (int i = 0; i < nthr; i++)
      if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].timed &&
          (best < 0 || T[i].deadline < T[best].deadline))
        best = i;
    if (best < 0) {
      logf_("X deadlock\n");
      die(2, 98);
    }
    if (T[best].deadline > sim_ns()) slept_ns += T[best].deadline - sim_ns();
    T[best].state = T_RUN;
    T[best].timed_out = 1;
    if (best == me) return;
    to = best;
  } else if (S->explicit_sched) {
    to = listed_switch();
    if (to < 0 || to >= nthr || to == me || T[to].state != T_RUN) to = c[0];
  } else {
    to = c[rnd(&srng) % (uint64_t)n];
  }
  logf_("S %lu %d\n", (unsigned long)steps, to);
  set_next_stop();
  switch_to(to);
}

static inline void tick(void) {
  steps++;
  if (__builtin_expect(steps >= next_stop, 0)) slow_step();
}
static inline int active(void) { return on && me >= 0 && !bypass; }

/* a point where the other threads get an extra chance */
static void tick_io(void) {
  steps++;
  if (steps >= next_stop) slow_step();
  else if (nthr > 1 && !S->explicit_sched && S->io_switch && rnd(&srng) % 65536 < S->io_switch) preempt();
}

static long sim_futex(uint32_t *addr, int op, uint32_t val, const struct timespec *to, uint32_t bits) {
  int cmd = op & 127;
  tick_io();
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    struct thr *t = &T[me];
    t->addr = addr;
    t->bits = cmd == FUTEX_WAIT_BITSET ? bits : ~0u;
    t->timed = to != NULL;
    t->timed_out = 0;
    if (to) {
      uint64_t d = (uint64_t)to->tv_sec * 1000000000ull + (uint64_t)to->tv_nsec;
      if (cmd == FUTEX_WAIT) d += sim_ns();
      else d = d > S->clock_base ? d - S->clock_base : 0;
      t->deadline = d;
    }
    t->state = T_FUTEX;
    block();
    t->addr = NULL;
    if (t->timed_out) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    int woken = 0;
    uint32_t m = cmd == FUTEX_WAKE_BITSET ? bits : ~0u;
    for (int i = 0; i < nthr && woken < (int)val; i++)
      if (T[i].state == T_FUTEX && T[i].addr == addr && (T[i].bits & m)) {
        T[i].state = T_RUN;
        woken++;
      }
    return woken;
  }
  errno = ENOSYS;
  return -1;
}

static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static void finish_thread(void *p) {
  int id = (int)(intptr_t)p - 1;
  if (!on || id < 0) return;
  T[id].state = T_DONE;
  for (int i = 0; i < nthr; i++)
    if (T[i].state == T_JOIN && T[i].join_on == id) T[i].state = T_RUN;
  /* hand the baton on without waiting for it again */
  int c[MAXTHR], n = runnable_others(c), to = -1;
  steps++;
  if (n == 0) {
    int best = -1;
    for (int i = 0; i < nthr; i++)
      if ((T[i].state == T_FUTEX || T[i].state == T_SLEEP) && T[i].timed &&
          (best < 0 || T[i].deadline < T[best].deadline))
        best = i;
    if (best < 0) {
      logf_("X deadlock\n");
      die(2, 98);
    }
    if (T[best].deadline > sim_ns()) slept_ns += T[best].deadline - sim_ns();
    T[best].state = T_RUN;
    T[best].timed_out = 1;
    to = best;
  } else if (S->explicit_sched) {
    to = listed_switch();
    if (to < 0 || to >= nthr || to == id || T[to].state != T_RUN) to = c[0];
  } else {
    to = c[rnd(&srng) % (uint64_t)n];
  }
  logf_("S %lu %d\n", (unsigned long)steps, to);
  set_next_stop();
  me = -1;
  S->switches++;
  give_baton(to);
}

static void *trampoline(void *p) {
  struct thr *t = p;
  int id = (int)(t - T);
  wait_baton(id);
  me = id;
  pthread_setspecific(fin_key, (void *)(intptr_t)(id + 1));
  return t->fn(t->arg);
}

int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  if (!real_create) real_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!active()) return real_create(h, a, fn, arg);
  int id = 0;
  while (id < nthr && (T[id].state != T_DONE || T[id].handle)) id++;
  if (id >= MAXTHR) return EAGAIN;
  T[id] = (struct thr){0};
  T[id].fn = fn;
  T[id].arg = arg;
  T[id].state = T_RUN;
  bypass++;
  int r = real_create(h, a, trampoline, &T[id]);
  bypass--;
  if (r) return r;
  T[id].handle = *h;
  S->threads_made++;
  logf_("T %d\n", id);
  if (id == nthr && ++nthr == 2) set_next_stop();
  tick_io();
  return 0;
}

int pthread_join(pthread_t h, void **out) {
  if (!real_join) real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (active()) {
    for (int i = 0; i < nthr; i++)
      if (T[i].handle == h && T[i].state != T_DONE && T[i].state != T_FREE) {
        T[me].state = T_JOIN;
        T[me].join_on = i;
        block();
        break;
      }
    for (int i = 0; i < nthr; i++)
      if (T[i].handle == h && T[i].state == T_DONE) T[i].handle = 0;
  }
  return real_join(h, out);
}

int pthread_detach(pthread_t h) {
  static int (*real)(pthread_t);
  if (!real) real = dlsym(RTLD_NEXT, "pthread_detach");
  if (active())
    for (int i = 0; i < nthr; i++)
      if (T[i].handle == h) T[i].handle = 0;
  return real(h);
}

int sched_yield(void) {
  if (!active()) return (int)ret(R1(SYS_sched_yield, 0));
  steps++;
  if (steps >= next_stop) slow_step();
  else if (nthr > 1 && !S->explicit_sched) preempt();
  return 0;
}

static int waited; /* for another process, perhaps: its turn */
static void sim_sleep(uint64_t ns) {
  waited = 1;
  if (nthr > 1) {
    T[me].state = T_SLEEP;
    T[me].timed = 1;
    T[me].deadline = sim_ns() + ns;
    block();
  } else {
    slept_ns += ns;
  }
}
int nanosleep(const struct timespec *r, struct timespec *rem) {
  if (!active()) return (int)ret(R2(SYS_nanosleep, r, rem));
  tick_io();
  sim_sleep((uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec);
  return 0;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec *r, struct timespec *rem) {
  if (!active()) {
    long x = R4(SYS_clock_nanosleep, c, fl, r, rem);
    return x < 0 ? (int)-x : 0;
  }
  tick_io();
  uint64_t t = (uint64_t)r->tv_sec * 1000000000ull + (uint64_t)r->tv_nsec;
  if (fl & TIMER_ABSTIME) {
    uint64_t now = S->clock_base + sim_ns();
    t = t > now ? t - now : 0;
  }
  sim_sleep(t);
  return 0;
}
int usleep(useconds_t u) {
  struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000};
  return nanosleep(&t, NULL);
}

/* ------------------------------------------------ basic blocks, memory */

#define COLD 12
static uint32_t nguard;
static uint8_t hits[COVCAP];
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
  if (a == b || *a) return;
  for (; a < b; a++) *a = ++nguard;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
  if (!on || me < 0 || bypass) return;
  uint32_t i = *g & (COVCAP - 1);
  S->cov[i] = 1;
  /* code that has hardly run yet is where threads meet unprepared */
  if (__builtin_expect(hits[i] < COLD, 0)) {
    hits[i]++;
    if (nthr > 1 && S->cold_switch && !S->explicit_sched && rnd(&srng) % 65536 < S->cold_switch) next_stop = steps + 1;
  }
  tick();
}

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

/* everything allocated and not freed, whoever did it */
static _Atomic long heap_now;
static void *heap_in(void *p) {
  if (p) heap_now += (long)malloc_usable_size(p);
  return p;
}
static void heap_out(void *p) {
  if (p) heap_now -= (long)malloc_usable_size(p);
}
static void mem_in(void *p) {
  if (!p) return;
  S->live += malloc_usable_size(p);
  if (S->live > S->max_live_seen) {
    S->max_live_seen = S->live;
    if (S->max_live && S->live > S->max_live) {
      logf_("X memory\n");
      die(3, 97);
    }
  }
}
static void mem_out(void *p) {
  if (!p) return;
  size_t n = malloc_usable_size(p);
  S->live = S->live > n ? S->live - n : 0;
}
void *malloc(size_t n) {
  if (!active()) return heap_in(__libc_malloc(n));
  tick();
  void *p = heap_in(__libc_malloc(n));
  mem_in(p);
  return p;
}
void *calloc(size_t a, size_t b) {
  if (!active()) return heap_in(__libc_calloc(a, b));
  tick();
  void *p = heap_in(__libc_calloc(a, b));
  mem_in(p);
  return p;
}
void *realloc(void *q, size_t n) {
  heap_out(q);
  if (!active()) return heap_in(__libc_realloc(q, n));
  tick();
  mem_out(q);
  void *p = heap_in(__libc_realloc(q, n));
  mem_in(p);
  return p;
}
int posix_memalign(void **out, size_t al, size_t n) {
  if (active()) tick();
  void *p = heap_in(__libc_memalign(al, n));
  if (!p) return ENOMEM;
  if (active()) mem_in(p);
  *out = p;
  return 0;
}
void free(void *p) {
  if (active()) mem_out(p);
  heap_out(p);
  __libc_free(p);
}

/* --------------------------------------------------- entropy and clock */

static void fill_random(void *b, size_t n) {
  unsigned char *p = b;
  while (n) {
    uint64_t v = rnd(&rrng);
    size_t k = n < 8 ? n : 8;
    memcpy(p, &v, k);
    p += k;
    n -= k;
  }
  S->rnd_calls++;
}
ssize_t getrandom(void *b, size_t n, unsigned fl) {
  if (!on || bypass) return ret(R3(SYS_getrandom, b, n, fl));
  fill_random(b, n);
  return (ssize_t)n;
}
int getentropy(void *b, size_t n) {
  if (!on || bypass) return (int)(ret(R3(SYS_getrandom, b, n, 0)) < 0 ? -1 : 0);
  fill_random(b, n);
  return 0;
}
static void sim_time(struct timespec *t) {
  uint64_t n = S->clock_base + sim_ns();
  t->tv_sec = (time_t)(n / 1000000000ull);
  t->tv_nsec = (long)(n % 1000000000ull);
  S->clock_calls++;
}
int clock_gettime(clockid_t c, struct timespec *t) {
  if (!on || bypass) return (int)ret(R2(SYS_clock_gettime, c, t));
  sim_time(t);
  return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec t;
  (void)tz;
  clock_gettime(CLOCK_REALTIME, &t);
  if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
  return 0;
}
time_t time(time_t *o) {
  struct timespec t;
  clock_gettime(CLOCK_REALTIME, &t);
  if (o) *o = t.tv_sec;
  return t.tv_sec;
}
pid_t getpid(void) {
  if (!on || bypass) return (pid_t)R1(SYS_getpid, 0);
  return (pid_t)S->pid;
}
pid_t gettid(void) {
  if (!on || bypass) return (pid_t)R1(SYS_gettid, 0);
  return (pid_t)S->pid + (me > 0 ? me : 0);
}
int sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  (void)p;
  memset(s, 0, n);
  for (uint32_t i = 0; i < (on && S->cpus ? S->cpus : 2); i++) CPU_SET(i, s);
  return 0;
}

/* a variable nobody set may still be set in some environment */
extern char **environ;
char *getenv(const char *name) {
  size_t n = strlen(name);
  for (char **e = environ; e && *e; e++)
    if (!strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
  if (!on || bypass || !S->env_seed || !strncmp(name, "RUST_", 5) || !strncmp(name, "LD_", 3)) return NULL;
  static char *const val[] = {"1", "0", "C", "de_DE.UTF-8", "/nonexistent", "true", "dumb", "xterm-256color",
                              "946684800", "x y", "", "never", "always", "debug", "UTC", "7",
                              ".", "..", ".", "adoc", "html", "utf8"};
  uint64_t h = S->env_seed;
  for (size_t i = 0; i < n; i++) h = (h ^ (unsigned char)name[i]) * 0x100000001b3ull;
  h = rnd(&h);
  char *v = h % 4 == 0 ? NULL : val[(h >> 8) % (sizeof val / sizeof *val)];
  logf_("V %s %s\n", name, v ? v : "-");
  return v;
}
char *secure_getenv(const char *name) { return getenv(name); }
int isatty(int fd) {
  if (on && !bypass && fd >= 0 && fd < 3) {
    if (S->tty >> fd & 1) return 1;
    errno = ENOTTY;
    return 0;
  }
  char t[256];
  return ret(R3(SYS_ioctl, fd, 0x5401, t)) == 0;
}
int gethostname(char *b, size_t n) {
  snprintf(b, n, "host%u", on ? S->pid : 0);
  return 0;
}

/* --------------------------------------------------------- file system */

/* times the driver did not set explicitly are simulated ones */
static void fix_time(long *sec, long *nsec) {
  if (*sec > 1750000000) { *sec = (long)(S->clock_base / 1000000000ull); *nsec = 0; }
}
static void fix_stat(struct stat64 *s) {
  if (!S || !on) return;
  fix_time(&s->st_mtim.tv_sec, &s->st_mtim.tv_nsec);
  s->st_atim = s->st_mtim;
  s->st_ctim = s->st_mtim;
}
static void fix_statx(struct statx *s) {
  if (!S || !on) return;
  long a = s->stx_mtime.tv_sec, b = s->stx_mtime.tv_nsec;
  fix_time(&a, &b);
  s->stx_mtime.tv_sec = a;
  s->stx_mtime.tv_nsec = (uint32_t)b;
  s->stx_atime = s->stx_ctime = s->stx_btime = s->stx_mtime;
}

#define NFD 1024
static struct { uint8_t used, wr, std; uint64_t pos; char path[PLEN]; } F[NFD]; /* std: copy of stream std - 1 */

/* name below the world's root, or NULL if the path lies outside it */
static const char *world(const char *p, char *buf, size_t cap) {
  char tmp[PATH_MAX];
  if (!p || !*p) return NULL;
  if (p[0] == '/') {
    if (strlen(p) >= sizeof tmp) return NULL;
    strcpy(tmp, p);
  } else {
    long n = R2(SYS_getcwd, tmp, sizeof tmp);
    if (n <= 0) return NULL;
    n--;
    if ((size_t)n + strlen(p) + 2 > sizeof tmp) return NULL;
    tmp[n] = '/';
    strcpy(tmp + n + 1, p);
  }
  size_t o = 0;
  for (char *s = tmp; *s;) {
    while (*s == '/') s++;
    char *e = s;
    while (*e && *e != '/') e++;
    size_t l = (size_t)(e - s);
    if (l == 0 || (l == 1 && s[0] == '.')) {
    } else if (l == 2 && s[0] == '.' && s[1] == '.') {
      while (o && buf[--o] != '/') {}
    } else {
      if (o + l + 2 > cap) return NULL;
      buf[o++] = '/';
      memcpy(buf + o, s, l);
      o += l;
    }
    s = e;
  }
  buf[o] = 0;
  if (strncmp(buf, root, rootlen) != 0) return NULL;
  if (buf[rootlen] == 0) return ".";
  if (buf[rootlen] != '/') return NULL;
  return buf + rootlen + 1;
}

static const int err_open_r[] = {EACCES, EMFILE, EIO, ENOENT, ENFILE, ELOOP, ENOMEM};
static const int err_open_w[] = {EACCES, ENOSPC, EROFS, EMFILE, EIO, EDQUOT, ENOENT};
static const int err_read[] = {EIO, EIO, EISDIR, ESTALE, ENOMEM, ETIMEDOUT};
static const int err_in[] = {EIO, EIO, EAGAIN, EISDIR, ECONNRESET};
static const int err_write[] = {ENOSPC, EIO, EDQUOT, EFBIG, ENOSPC};
static const int err_out[] = {EPIPE, EPIPE, ENOSPC, ENOSPC, EIO, EAGAIN, ECONNRESET};
static const int err_stat[] = {EIO, EACCES, ENOMEM};
static const int err_real[] = {ENOENT, EACCES, EIO, ELOOP, ENAMETOOLONG};
static const int err_misc[] = {EIO, EACCES, ENOSPC};
#define PICK(a) (a)[rnd(&frng) % (sizeof(a) / sizeof *(a))]
static const uint64_t delays[] = {1000000, 300000000, 1500000000, 7000000000, 70000000000, 7200000000000};
static int pick_errno(int op) {
  switch (op) {
  case OP_OPEN_R: return PICK(err_open_r);
  case OP_OPEN_W: return PICK(err_open_w);
  case OP_READ: return PICK(err_read);
  case OP_READ_IN: return PICK(err_in);
  case OP_WRITE: return PICK(err_write);
  case OP_WRITE_OUT: case OP_WRITE_ERR: return PICK(err_out);
  case OP_STAT: return PICK(err_stat);
  case OP_REALPATH: return PICK(err_real);
  default: return PICK(err_misc);
  }
}

static void do_edit(uint32_t i) {
  struct edit *e = &S->edits[i];
  if (e->done) return;
  e->done = 1;
  switch (e->kind) {
  case 1: R2(SYS_rename, e->src, e->path); break;
  case 2: R1(SYS_unlink, e->path); break;
  case 3: R1(SYS_unlink, e->path); R2(SYS_mkdir, e->path, 0777); break;
  case 4: R1(SYS_unlink, e->path); R2(SYS_symlink, e->src, e->path); break;
  case 5: R2(SYS_chmod, e->path, 0); break;
  case 6: R2(SYS_rename, e->path, e->src); break; /* move away */
  }
}

struct dec { int act; int64_t arg; uint32_t ev; };

static uint64_t short_len(uint64_t n) {
  uint64_t m = S->short_mode;
  if (m == 1) return 1;
  if (m == 2) return 1 + rnd(&frng) % (n < 7 ? n : 7);
  if (m == 3) return n - 1 ? n - 1 : 1;
  return 1 + rnd(&frng) % n;
}

/* one process of several: the driver decides whose turn it is */
static void gate(void) {
  char b = waited ? 2 : 1;
  waited = 0;
  while (R3(SYS_write, GATE_OUT, &b, 1) == -EINTR) {}
  while (R3(SYS_read, GATE_IN, &b, 1) == -EINTR) {}
}

/* numbers the event and decides its fate */
static struct dec event(int op, const char *path, uint64_t len) {
  tick_io();
  if (S->gated) gate();
  if (S->events >= MAX_EVENTS) {
    logf_("X budget\n");
    die(1, 99);
  }
  struct dec d = {A_NONE, 0, S->events++};
  sync_out();
  if (S->explicit_faults) {
    while (li < S->n_listed && S->listed[li].ev < d.ev) li++;
    while (li < S->n_listed && S->listed[li].ev == d.ev) {
      struct listed *l = &S->listed[li++];
      /* in a reduced scenario the number may belong to a call that was never to be disturbed */
      if (!S->faults_on || (l->act != A_EDIT && (l->act >= NACTS || !S->rate[op][l->act]))) continue;
      logf_("F %u %u %ld\n", d.ev, l->act, (long)l->arg);
      if (l->act == A_EDIT) { do_edit((uint32_t)l->arg); continue; }
      d.act = (int)l->act;
      d.arg = l->arg;
    }
    if (d.act == A_SHORT || d.act == A_CRASH_PART) {
      if ((uint64_t)d.arg >= len) d.act = d.act == A_SHORT ? A_NONE : A_CRASH_AFTER;
    }
    if (d.act != A_NONE) S->faults++;
  } else if (S->faults_on) {
    if (S->edit_rate && rnd(&frng) % 65536 < S->edit_rate) {
      for (uint32_t i = 0; i < S->n_edits; i++)
        if (!S->edits[i].done) {
          logf_("F %u %d %u\n", d.ev, A_EDIT, i);
          do_edit(i);
          break;
        }
    }
    if (S->faults < S->max_faults) {
      uint32_t r = (uint32_t)(rnd(&frng) % 65536), acc = 0;
      for (int a = 1; a < NACTS; a++) {
        acc += S->rate[op][a];
        if (r < acc) { d.act = a; break; }
      }
      if ((d.act == A_SHORT || d.act == A_CRASH_PART) && len < 2) d.act = A_NONE;
      if (d.act == A_SHORT || d.act == A_CRASH_PART) d.arg = (int64_t)short_len(len - 1);
      if (d.act == A_ERRNO) d.arg = pick_errno(op);
      if (d.act == A_DELAY) d.arg = (int64_t)PICK(delays);
      if (d.act != A_NONE) {
        S->faults++;
        logf_("F %u %d %ld\n", d.ev, d.act, (long)d.arg);
      }
    }
  }
  if (d.act == A_DELAY) { /* a slow device, a slow producer or reader at the other end */
    sim_sleep((uint64_t)d.arg);
    d.act = A_NONE;
  }
  /* a full disk may take some bytes first; what cannot be read gives none */
  int partly = d.act == A_SHORT && (op == OP_READ || op == OP_READ_IN);
  if ((d.act == A_NONE || partly) && path && S->faults_on)
    for (uint32_t i = 0; i < S->n_pf; i++)
      if ((S->pf[i].opmask >> op & 1) && d.ev >= S->pf[i].from_ev && !strcmp(S->pf[i].path, path)) {
        d.act = A_ERRNO;
        d.arg = S->pf[i].err;
        S->faults++;
        logf_("P %u %u\n", d.ev, i);
      }
  if (d.act == A_CRASH_BEFORE) {
    logf_("E %u %d %s %s crash\n", d.ev, me, op_name[op], path ? path : "-");
    crash();
  }
  return d;
}
static void logev(struct dec *d, int op, const char *path, long arg, long r) {
  logf_("E %u %d %s %s %ld %ld\n", d->ev, me, op_name[op], path ? path : "-", arg, r);
  if (d->act == A_CRASH_AFTER || d->act == A_CRASH_PART) crash();
}
/* outcome of calls that either happen or fail */
static int failed(struct dec *d, long *r) {
  if (d->act == A_ERRNO) { *r = -d->arg; return 1; }
  if (d->act == A_EINTR) { *r = -EINTR; return 1; }
  return 0;
}

static int do_open(int dir, const char *p, int fl, mode_t mode) {
  char b[PATH_MAX];
  const char *w = active() && (dir == AT_FDCWD || p[0] == '/') ? world(p, b, sizeof b) : NULL;
  int wr = (fl & O_ACCMODE) != O_RDONLY || (fl & (O_CREAT | O_TRUNC));
  if (!w) {
    if (active() && wr && strncmp(p, "/dev/", 5) && strncmp(p, "/proc/", 6)) logf_("O open %s\n", p);
    int r = (int)ret(R4(SYS_openat, dir, p, fl, mode));
    static const char *const names[] = {"stdin", "stdout", "stderr"};
    if (active() && r > 2 && r < NFD)
      for (uint8_t i = 0; i < 3; i++) {
        char a[32];
        snprintf(a, sizeof a, "/dev/fd/%d", i);
        char b2[32];
        snprintf(b2, sizeof b2, "/proc/self/fd/%d", i);
        if ((!strncmp(p, "/dev/", 5) && !strcmp(p + 5, names[i])) || !strcmp(p, a) || !strcmp(p, b2)) F[r].std = (uint8_t)(i + 1);
      }
    return r;
  }
  int op = wr ? OP_OPEN_W : OP_OPEN_R;
  struct dec d = event(op, w, 0);
  long r;
  if (!failed(&d, &r)) {
    if (S->fd_limit && S->open_now >= S->fd_limit) r = -EMFILE;
    else r = R4(SYS_openat, dir, p, fl, mode);
  }
  if (r >= 0 && r < NFD) {
    F[r].used = 1;
    F[r].std = 0;
    F[r].wr = (uint8_t)wr;
    F[r].pos = 0;
    snprintf(F[r].path, PLEN, "%s", w);
    S->open_now++;
    if (S->open_now > S->open_max) S->open_max = S->open_now;
  }
  logev(&d, op, w, fl & (O_ACCMODE | O_CREAT | O_TRUNC | O_APPEND | O_EXCL), r);
  return (int)ret(r);
}
int open64(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (mode_t)va_arg(ap, int);
  va_end(ap);
  return do_open(AT_FDCWD, p, fl, m);
}
int open(const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (mode_t)va_arg(ap, int);
  va_end(ap);
  return do_open(AT_FDCWD, p, fl, m);
}
int openat(int dir, const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (mode_t)va_arg(ap, int);
  va_end(ap);
  return do_open(dir, p, fl, m);
}
int openat64(int dir, const char *p, int fl, ...) {
  va_list ap;
  va_start(ap, fl);
  mode_t m = (mode_t)va_arg(ap, int);
  va_end(ap);
  return do_open(dir, p, fl, m);
}
int creat64(const char *p, mode_t m) { return do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int creat(const char *p, mode_t m) { return creat64(p, m); }

static int fd_op(int fd, int rd, const char **path) {
  *path = NULL;
  if (!active() || fd < 0 || fd >= NFD) return -1;
  if (F[fd].std) fd = F[fd].std - 1;
  if (F[fd].used) { *path = F[fd].path; return rd ? OP_READ : OP_WRITE; }
  if (rd) { if (fd == 0) { *path = "<stdin>"; return OP_READ_IN; } return -1; }
  if (fd == 1) { *path = "<stdout>"; return OP_WRITE_OUT; }
  if (fd == 2) { *path = "<stderr>"; return OP_WRITE_ERR; }
  return -1;
}

/* stored damage: the stream as the process sees it differs from the file */
static long damaged_read(int fd, const char *path, void *buf, size_t n, uint64_t pos) {
  uint64_t eof = UINT64_MAX;
  (void)fd;
  for (uint32_t i = 0; i < S->n_damage; i++)
    if (S->dmg[i].kind == 1 && !strcmp(S->dmg[i].path, path) && S->dmg[i].off < eof) eof = S->dmg[i].off;
  if (pos >= eof) return 0;
  if (pos + n > eof) n = eof - pos;
  long r = R3(SYS_read, fd, buf, n);
  for (uint32_t i = 0; r > 0 && i < S->n_damage; i++) {
    struct damage *g = &S->dmg[i];
    if (g->kind == 1 || strcmp(g->path, path)) continue;
    for (uint64_t o = g->off; o < g->off + g->len; o++)
      if (o >= pos && o < pos + (uint64_t)r) {
        unsigned char *c = (unsigned char *)buf + (o - pos);
        if (g->kind == 2) *c ^= (unsigned char)g->mask;
        else *c = (unsigned char)g->mask;
      }
  }
  return r;
}

ssize_t read(int fd, void *buf, size_t n) {
  const char *p;
  int op = fd_op(fd, 1, &p);
  if (op < 0) return ret(R3(SYS_read, fd, buf, n));
  struct dec d = event(op, p, n);
  long r;
  if (!failed(&d, &r)) {
    size_t m = d.act == A_SHORT || d.act == A_CRASH_PART ? (size_t)d.arg : n;
    if (d.act == A_ZERO) r = 0;
    else if (S->n_damage) r = damaged_read(fd, p, buf, m, F[fd].pos);
    else r = R3(SYS_read, fd, buf, m);
    if (r > 0) F[fd].pos += (uint64_t)r;
  }
  logev(&d, op, p, (long)n, r);
  return ret(r);
}
ssize_t pread64(int fd, void *buf, size_t n, off64_t o) {
  const char *p;
  int op = fd_op(fd, 1, &p);
  if (op < 0) return ret(R4(SYS_pread64, fd, buf, n, o));
  struct dec d = event(op, p, n);
  long r;
  if (!failed(&d, &r)) {
    size_t m = d.act == A_SHORT || d.act == A_CRASH_PART ? (size_t)d.arg : n;
    r = d.act == A_ZERO ? 0 : R4(SYS_pread64, fd, buf, m, o);
  }
  logev(&d, op, p, (long)n, r);
  return ret(r);
}
ssize_t readv(int fd, const struct iovec *v, int k) {
  const char *p;
  int op = fd_op(fd, 1, &p);
  if (op < 0 || k < 1) return ret(R3(SYS_readv, fd, v, k));
  return read(fd, v[0].iov_base, v[0].iov_len); /* a short vector read */
}

static ssize_t do_write(int fd, const void *buf, size_t n, off64_t at) {
  const char *p;
  int op = fd_op(fd, 0, &p);
  if (op < 0) return ret(at < 0 ? R3(SYS_write, fd, buf, n) : R4(SYS_pwrite64, fd, buf, n, at));
  struct dec d = event(op, p, n);
  long r;
  if (!failed(&d, &r)) {
    size_t m = d.act == A_SHORT || d.act == A_CRASH_PART ? (size_t)d.arg : n;
    if (d.act == A_ZERO) r = 0;
    else r = at < 0 ? R3(SYS_write, fd, buf, m) : R4(SYS_pwrite64, fd, buf, m, at);
  }
  logev(&d, op, p, (long)n, r);
  return ret(r);
}
ssize_t write(int fd, const void *buf, size_t n) { return do_write(fd, buf, n, -1); }
ssize_t pwrite64(int fd, const void *buf, size_t n, off64_t o) { return do_write(fd, buf, n, o); }
ssize_t writev(int fd, const struct iovec *v, int k) {
  const char *p;
  int op = fd_op(fd, 0, &p);
  if (op < 0) return ret(R3(SYS_writev, fd, v, k));
  /* gather, so that one event decides about the whole vector */
  size_t n = 0;
  for (int i = 0; i < k; i++) n += v[i].iov_len;
  char st[8192], *b = n <= sizeof st ? st : __libc_malloc(n);
  size_t o = 0;
  st[0] = 0;
  for (int i = 0; i < k; i++) {
    memcpy(b + o, v[i].iov_base, v[i].iov_len);
    o += v[i].iov_len;
  }
  ssize_t r = do_write(fd, b, n, -1);
  int e = errno;
  if (b != st) __libc_free(b);
  errno = e;
  return r;
}

int close(int fd) {
  if (active() && fd >= 0 && fd < NFD && F[fd].used) {
    struct dec d = event(OP_CLOSE, F[fd].path, 0);
    long r = R1(SYS_close, fd);
    F[fd].used = 0;
    S->open_now--;
    logev(&d, OP_CLOSE, F[fd].path, fd, r);
    return (int)ret(r);
  }
  if (fd >= 0 && fd < NFD) F[fd].std = 0;
  return (int)ret(R1(SYS_close, fd));
}
static int dup_to(int r, int fd) {
  if (active() && r > 2 && r < NFD && fd >= 0 && fd < NFD && !F[fd].used) F[r].std = F[fd].std ? F[fd].std : fd < 3 ? (uint8_t)(fd + 1) : 0;
  if (active() && r >= 0 && r < NFD && fd >= 0 && fd < NFD && F[fd].used) {
    F[r] = F[fd];
    S->open_now++;
    if (S->open_now > S->open_max) S->open_max = S->open_now;
  }
  return r;
}
int dup(int fd) { return dup_to((int)ret(R1(SYS_dup, fd)), fd); }
int fcntl64(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  int r = (int)ret(R3(SYS_fcntl, fd, cmd, a));
  return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? dup_to(r, fd) : r;
}
int fcntl(int fd, int cmd, ...) {
  va_list ap;
  va_start(ap, cmd);
  long a = va_arg(ap, long);
  va_end(ap);
  int r = (int)ret(R3(SYS_fcntl, fd, cmd, a));
  return cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC ? dup_to(r, fd) : r;
}

/* locks between processes: whoever has to wait passes the turn on */
int flock(int fd, int how) {
  const char *p;
  if (fd_op(fd, 1, &p) < 0) return (int)ret(R2(SYS_flock, fd, how));
  for (int i = 0;; i++) {
    struct dec d = event(OP_LOCK, p, 0);
    long r;
    if (!failed(&d, &r)) r = R2(SYS_flock, fd, how | LOCK_NB);
    logev(&d, OP_LOCK, p, how, r);
    if (r != -EWOULDBLOCK || (how & LOCK_NB)) return (int)ret(r);
    waited = 1;
    if (nthr > 1 && !S->explicit_sched) preempt();
    if (i > 20000) {
      logf_("X deadlock\n");
      die(2, 98);
    }
  }
}

off64_t lseek64(int fd, off64_t o, int wh) {
  const char *p;
  int op = fd_op(fd, 1, &p);
  if (op != OP_READ) return ret(R3(SYS_lseek, fd, o, wh));
  struct dec d = event(OP_SEEK, p, 0);
  long r;
  if (!failed(&d, &r)) {
    r = R3(SYS_lseek, fd, o, wh);
    if (r >= 0) F[fd].pos = (uint64_t)r;
  }
  logev(&d, OP_SEEK, p, o, r);
  return ret(r);
}
off_t lseek(int fd, off_t o, int wh) { return lseek64(fd, o, wh); }

static int stat_path(const char *p, int nr, long a, long b, long c, long e, long f) {
  char bf[PATH_MAX];
  const char *w = active() && p && *p ? world(p, bf, sizeof bf) : NULL;
  if (!w) return (int)ret(raw6(nr, a, b, c, e, f, 0));
  struct dec d = event(OP_STAT, w, 0);
  long r;
  if (!failed(&d, &r)) r = raw6(nr, a, b, c, e, f, 0);
  logev(&d, OP_STAT, w, 0, r);
  return (int)ret(r);
}
static int stat_fd(int fd, int nr, long a, long b, long c, long e, long f) {
  const char *p;
  int op = fd_op(fd, 1, &p);
  if (op != OP_READ) return (int)ret(raw6(nr, a, b, c, e, f, 0));
  struct dec d = event(OP_STAT, p, 0);
  long r;
  if (!failed(&d, &r)) r = raw6(nr, a, b, c, e, f, 0);
  logev(&d, OP_STAT, p, fd, r);
  return (int)ret(r);
}
#define FIXED(call, fix) int r_ = (call); if (!r_) fix(s); return r_
int fstat64(int fd, struct stat64 *s) { FIXED(stat_fd(fd, SYS_fstat, fd, (long)s, 0, 0, 0), fix_stat); }
int stat64(const char *p, struct stat64 *s) { FIXED(stat_path(p, SYS_stat, (long)p, (long)s, 0, 0, 0), fix_stat); }
int lstat64(const char *p, struct stat64 *s) { FIXED(stat_path(p, SYS_lstat, (long)p, (long)s, 0, 0, 0), fix_stat); }
int fstat(int fd, struct stat *s) { return fstat64(fd, (struct stat64 *)s); }
int stat(const char *p, struct stat *s) { return stat64(p, (struct stat64 *)s); }
int lstat(const char *p, struct stat *s) { return lstat64(p, (struct stat64 *)s); }
int fstatat64(int dir, const char *p, struct stat64 *s, int fl) {
  FIXED(stat_path(dir == AT_FDCWD ? p : NULL, SYS_newfstatat, dir, (long)p, (long)s, fl, 0), fix_stat);
}
int statx(int dir, const char *p, int fl, unsigned mask, struct statx *s) {
  __asm__("" : "+r"(p), "+r"(s)); /* declared nonnull, but the runtime probes with null pointers */
  if (!s) return (int)ret(R5(SYS_statx, dir, p, fl, mask, s)); /* the runtime's availability probe */
  if (p && *p && (dir == AT_FDCWD || p[0] == '/')) {
    FIXED(stat_path(p, SYS_statx, dir, (long)p, fl, mask, (long)s), fix_statx);
  }
  FIXED(stat_fd(dir, SYS_statx, dir, (long)p, fl, mask, (long)s), fix_statx);
}
int access(const char *p, int m) { return stat_path(p, SYS_access, (long)p, m, 0, 0, 0); }
int faccessat(int dir, const char *p, int m, int fl) {
  (void)fl;
  return stat_path(dir == AT_FDCWD ? p : NULL, SYS_faccessat, dir, (long)p, m, 0, 0);
}

/* directories: the order of entries is anyone's guess */
#define MAXDIR 32
static struct { DIR *d; char path[PLEN]; struct dirent64 *e; int n, next; } DIRS[MAXDIR];
static int by_name(const void *a, const void *b) {
  return strcmp(((const struct dirent64 *)a)->d_name, ((const struct dirent64 *)b)->d_name);
}
static int dir_slot(DIR *d) {
  for (int i = 0; i < MAXDIR; i++)
    if (DIRS[i].d == d) return i;
  return -1;
}
DIR *opendir(const char *p) {
  static DIR *(*real)(const char *);
  if (!real) real = dlsym(RTLD_NEXT, "opendir");
  char b[PATH_MAX];
  const char *w = active() ? world(p, b, sizeof b) : NULL;
  int k = w ? dir_slot(NULL) : -1;
  if (k < 0) return real(p);
  struct dec d = event(OP_OPEN_R, w, 0);
  long r;
  DIR *dir = NULL;
  if (!failed(&d, &r)) {
    bypass++;
    dir = real(p);
    r = dir ? dirfd(dir) : -errno;
    if (dir) {
      static struct dirent64 *(*next)(DIR *);
      if (!next) next = dlsym(RTLD_NEXT, "readdir64");
      int cap = 16, n = 0;
      struct dirent64 *all = __libc_malloc(sizeof *all * (size_t)cap), *x;
      while ((x = next(dir))) {
        if (n == cap) all = __libc_realloc(all, sizeof *all * (size_t)(cap *= 2));
        memcpy(&all[n++], x, x->d_reclen < sizeof *all ? x->d_reclen : sizeof *all);
      }
      qsort(all, (size_t)n, sizeof *all, by_name);
      uint64_t o = S->rand_seed;
      for (const char *c = w; *c; c++) o = (o ^ (unsigned char)*c) * 0x100000001b3ull;
      for (int i = n - 1; i > 0; i--) {
        int j = (int)(rnd(&o) % (uint64_t)(i + 1));
        struct dirent64 t = all[i];
        all[i] = all[j];
        all[j] = t;
      }
      DIRS[k].d = dir;
      DIRS[k].e = all;
      DIRS[k].n = n;
      DIRS[k].next = 0;
      snprintf(DIRS[k].path, PLEN, "%s", w);
      S->open_now++;
      if (S->open_now > S->open_max) S->open_max = S->open_now;
    }
    bypass--;
  }
  logev(&d, OP_OPEN_R, w, -1, r);
  if (r < 0) errno = (int)-r;
  return dir;
}
struct dirent64 *readdir64(DIR *d) {
  static struct dirent64 *(*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "readdir64");
  int k = d ? dir_slot(d) : -1;
  if (k < 0) return real(d);
  if (active()) tick_io();
  return DIRS[k].next < DIRS[k].n ? &DIRS[k].e[DIRS[k].next++] : NULL;
}
int closedir(DIR *d) {
  static int (*real)(DIR *);
  if (!real) real = dlsym(RTLD_NEXT, "closedir");
  int k = d ? dir_slot(d) : -1;
  if (k < 0) return real(d);
  __libc_free(DIRS[k].e);
  DIRS[k].d = NULL;
  S->open_now--;
  if (active()) {
    struct dec e = event(OP_CLOSE, DIRS[k].path, 0);
    logev(&e, OP_CLOSE, DIRS[k].path, -1, 0);
  }
  bypass++;
  int r = real(d);
  bypass--;
  return r;
}

static char *(*real_realpath)(const char *, char *);
char *realpath(const char *p, char *out) {
  char b[PATH_MAX];
  if (!real_realpath) real_realpath = dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
  const char *w = active() ? world(p, b, sizeof b) : NULL;
  if (!w) return real_realpath(p, out);
  struct dec d = event(OP_REALPATH, w, 0);
  long r;
  char *q = NULL;
  if (!failed(&d, &r)) {
    bypass++;
    q = real_realpath(p, out);
    int e = errno;
    bypass--;
    r = q ? 0 : -e;
    if (q && !out) mem_in(q);
  }
  logev(&d, OP_REALPATH, w, 0, r);
  if (!q) errno = (int)-r;
  return q;
}
ssize_t readlink(const char *p, char *o, size_t n) {
  return stat_path(p, SYS_readlink, (long)p, (long)o, (long)n, 0, 0);
}
char *getcwd(char *b, size_t n) {
  if (!active()) {
    char t[PATH_MAX];
    long r = R2(SYS_getcwd, t, sizeof t);
    if (r < 0) { errno = (int)-r; return NULL; }
    if (!b) { b = malloc((size_t)r); n = (size_t)r; }
    if ((size_t)r > n) { errno = ERANGE; return NULL; }
    memcpy(b, t, (size_t)r);
    return b;
  }
  struct dec d = event(OP_GETCWD, NULL, 0);
  long r;
  if (!failed(&d, &r)) r = R2(SYS_getcwd, b, n);
  logev(&d, OP_GETCWD, NULL, 0, r < 0 ? r : 0);
  if (r < 0) { errno = (int)-r; return NULL; }
  return b;
}
static int name_op(const char *what, const char *p, int op, int nr, long a, long b, long c, long e) {
  char bf[PATH_MAX];
  const char *w = active() ? world(p, bf, sizeof bf) : NULL;
  if (!w) {
    if (active() && strcmp(what, "chdir")) logf_("O %s %s\n", what, p);
    return (int)ret(raw6(nr, a, b, c, e, 0, 0));
  }
  struct dec d = event(op, w, 0);
  long r;
  if (!failed(&d, &r)) r = raw6(nr, a, b, c, e, 0, 0);
  logf_("N %s\n", what);
  logev(&d, op, w, 0, r);
  return (int)ret(r);
}
int chdir(const char *p) { return name_op("chdir", p, OP_CHDIR, SYS_chdir, (long)p, 0, 0, 0); }
int mkdir(const char *p, mode_t m) { return name_op("mkdir", p, OP_NAME, SYS_mkdir, (long)p, m, 0, 0); }
int rmdir(const char *p) { return name_op("rmdir", p, OP_REMOVE, SYS_rmdir, (long)p, 0, 0, 0); }
int unlink(const char *p) { return name_op("unlink", p, OP_REMOVE, SYS_unlink, (long)p, 0, 0, 0); }
int unlinkat(int dir, const char *p, int fl) {
  return name_op("unlinkat", p, OP_REMOVE, SYS_unlinkat, dir, (long)p, fl, 0);
}
int rename(const char *p, const char *q) { return name_op("rename", q, OP_NAME, SYS_rename, (long)p, (long)q, 0, 0); }
int symlink(const char *p, const char *q) { return name_op("symlink", q, OP_NAME, SYS_symlink, (long)p, (long)q, 0, 0); }
int link(const char *p, const char *q) { return name_op("link", q, OP_NAME, SYS_link, (long)p, (long)q, 0, 0); }
int linkat(int d1, const char *p, int d2, const char *q, int fl) {
  (void)d2;
  return name_op("link", q, OP_NAME, SYS_linkat, d1, (long)p, AT_FDCWD, (long)q) + 0 * fl;
}
int chmod(const char *p, mode_t m) { return name_op("chmod", p, OP_NAME, SYS_chmod, (long)p, m, 0, 0); }
int truncate64(const char *p, off64_t l) { return name_op("truncate", p, OP_NAME, SYS_truncate, (long)p, l, 0, 0); }
static int fd_sync(int fd, int nr, long a) {
  const char *p;
  int op = fd_op(fd, 0, &p);
  if (op != OP_WRITE) return (int)ret(R2(nr, fd, a));
  struct dec d = event(OP_SYNC, p, 0);
  long r;
  if (!failed(&d, &r)) r = nr == SYS_ftruncate ? R2(nr, fd, a) : 0;
  logev(&d, OP_SYNC, p, a, r);
  return (int)ret(r);
}
int fsync(int fd) { return fd_sync(fd, SYS_fsync, 0); }
int fdatasync(int fd) { return fd_sync(fd, SYS_fdatasync, 0); }
int ftruncate64(int fd, off64_t l) { return fd_sync(fd, SYS_ftruncate, l); }
int ftruncate(int fd, off_t l) { return fd_sync(fd, SYS_ftruncate, l); }
/* kernel-side copies would bypass the events: make callers fall back to read/write */
ssize_t copy_file_range(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (active()) { errno = ENOSYS; return -1; }
  return ret(raw6(SYS_copy_file_range, a, (long)b, c, (long)d, (long)n, f));
}
ssize_t sendfile64(int a, int b, off64_t *o, size_t n) {
  if (active()) { errno = ENOSYS; return -1; }
  return ret(R4(SYS_sendfile, a, b, o, n));
}
ssize_t splice(int a, off64_t *b, int c, off64_t *d, size_t n, unsigned f) {
  if (active()) { errno = ENOSYS; return -1; }
  return ret(raw6(SYS_splice, a, (long)b, c, (long)d, (long)n, f));
}

long syscall(long nr, ...) {
  va_list ap;
  va_start(ap, nr);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
  long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (nr == SYS_futex && active())
    return sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t)f);
  if (nr == SYS_getrandom) return getrandom((void *)a, (size_t)b, (unsigned)c);
  if (nr == SYS_gettid) return gettid();
  if (nr == SYS_statx) return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
  if (nr == SYS_copy_file_range && active()) { errno = ENOSYS; return -1; }
  return ret(raw6(nr, a, b, c, d, e, f));
}

/* -------------------------------------------- interface for the harness */

long vsim_ctl(int cmd, long arg) {
  if (!S) return -1;
  switch (cmd) {
  case 1: bypass += arg ? 1 : -1; return 0;        /* harness' own calls */
  case 2: S->faults_on = (uint32_t)arg; return 0;
  case 3: { char b[64]; int n = snprintf(b, sizeof b, "M %d %ld\n", me, arg); lograw(b, (size_t)n); return 0; }
  case 4: return (long)steps;
  case 5: S->max_steps = arg ? steps + (uint64_t)arg : 0; set_next_stop(); return 0;
  case 6: return S->open_now;
  case 7: S->open_max = S->open_now; return 0;
  case 8: return S->open_max;
  case 9: return nthr;
  case 10: S->max_live_seen = S->live; return (long)S->live;
  case 11: return (long)S->max_live_seen;
  case 12: S->max_live = arg ? S->live + (uint64_t)arg : 0; return 0;
  case 13: S->fd_limit = (uint32_t)arg; return 0;
  case 14: tick_io(); return 0;
  case 15: { int n = 0; for (int i = 0; i < nthr; i++) n += T[i].state != T_DONE; return n; }
  case 16: S->n_damage = (uint32_t)arg; return 0;
  case 17: return heap_now;
  }
  return -1;
}

__attribute__((constructor)) static void init(void) {
  long n = R3(SYS_fcntl, CFG_FD, F_GETFD, 0);
  if (n < 0) return;
  void *m = mmap(NULL, sizeof(struct shared), PROT_READ | PROT_WRITE, MAP_SHARED, CFG_FD, 0);
  if (m == MAP_FAILED) return;
  struct shared *s = m;
  if (s->magic != MAGIC) return;
  R3(SYS_fcntl, CFG_FD, F_SETFD, FD_CLOEXEC);
  S = s;
  memcpy(root, s->root, PLEN);
  rootlen = strlen(root);
  frng = s->fault_seed;
  srng = s->sched_seed;
  rrng = s->rand_seed;
  pthread_key_create(&fin_key, finish_thread);
  real_realpath = dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
  real_create = dlsym(RTLD_NEXT, "pthread_create");
  real_join = dlsym(RTLD_NEXT, "pthread_join");
  if (s->heap_pad) {
    /* different memory layouts without relying on the kernel's choice */
    void *volatile p = __libc_malloc(s->heap_pad);
    (void)p;
    p = mmap(NULL, (size_t)s->heap_pad * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  T[0].state = T_RUN;
  T[0].baton = 1;
  T[0].handle = pthread_self();
  nthr = 1;
  me = 0;
  set_next_stop();
  on = 1;
}
__attribute__((destructor)) static void fini(void) {
  if (!S) return;
  sync_out();
  on = 0;
}
