// The scheduler of simulated threads.
//
// Threads are real ones, but only the one that holds the baton runs. The code
// under test is instrumented as for the thread sanitizer: this file defines
// the functions that instrumented code calls, and every one of them is a point
// where the baton can be passed on. Waiting (futex, join) and ending pass it
// on too. All decisions come from one generator or from a list, so that an
// execution can be repeated exactly.

#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#define MAX_THREADS 64
#define MAX_LOG 200000

// Shared with the parent process, see sched.rs.
struct report {
  uint64_t steps, atomics, memory, syscalls, switches, spurious, threads, hash;
  uint64_t log_len, status; // status 1: deadlock, 2: no progress
  uint64_t log[MAX_LOG];    // step << 8 | thread, decisions that are not the default
};

struct config {
  uint64_t mode; // 0: random walk, 1: priorities, 2: list
  uint64_t seed;
  // one switch per that many points of the kind on average
  uint64_t atomic_in, memory_in, syscall_in, spurious_in;
  uint64_t depth, length; // priorities: number of changes within that many steps
  uint64_t max_steps;
  const uint64_t *list;
  uint64_t list_len;
};

enum { RUNNABLE, FUTEX, JOIN, EXITED };

struct thread {
  int id, state;
  uint32_t go;
  const void *addr;
  uint32_t bits;
  int timed, timeout;
  int64_t prio;
  void *join;
  pthread_t pt;
  void *(*start)(void *);
  void *arg;
};

static struct thread threads[MAX_THREADS];
static int n_threads;
static __thread struct thread *self;
static int active;
static struct config cfg;
static struct report *rep;
static uint64_t rng, list_pos, change[64], same;
static int64_t lowest;
static pthread_key_t key;
static int (*real_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_join)(pthread_t, void **);

static long raw(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

static uint64_t next_random(void) {
  uint64_t z = (rng += 0x9e3779b97f4a7c15u);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9u;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebu;
  return z ^ (z >> 31);
}

static int one_in(uint64_t n) { return n && next_random() % n == 0; }

static void give_up(int status) {
  rep->status = status;
  raw(SYS_exit_group, 7, 0, 0, 0, 0, 0);
}

// Passes the baton to a thread and waits for it to come back.
static void pass_to(struct thread *t, int wait) {
  struct thread *me = self;
  if (t == me) return;
  rep->switches++;
  rep->hash = (rep->hash ^ ((uint64_t)t->id + 1 + (rep->steps << 8))) * 0x100000001b3u;
  same = 0;
  __atomic_store_n(&t->go, 1, __ATOMIC_SEQ_CST);
  raw(SYS_futex, (long)&t->go, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
  if (!wait) return;
  while (!__atomic_exchange_n(&me->go, 0, __ATOMIC_SEQ_CST))
    raw(SYS_futex, (long)&me->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
}

static int can_run(int i) { return threads[i].state == RUNNABLE; }

// The next thread that can run, in turn.
static int in_turn(int from) {
  for (int k = 1; k <= n_threads; k++) {
    int i = (from + k) % n_threads;
    if (can_run(i)) return i;
  }
  return -1;
}

static int random_other(int me) {
  int c[MAX_THREADS], n = 0;
  for (int i = 0; i < n_threads; i++)
    if (i != me && can_run(i)) c[n++] = i;
  return n ? c[next_random() % n] : -1;
}

static int best(void) {
  int b = -1;
  for (int i = 0; i < n_threads; i++)
    if (can_run(i) && (b < 0 || threads[i].prio > threads[b].prio)) b = i;
  return b;
}

// Records a decision that is not the default.
static void note(int what) {
  if (rep->log_len < MAX_LOG) rep->log[rep->log_len++] = rep->steps << 8 | (uint64_t)what;
}

// The decision of the list for this step.
static int from_list(int def) {
  while (list_pos < cfg.list_len && cfg.list[list_pos] >> 8 < rep->steps) list_pos++;
  if (list_pos < cfg.list_len && cfg.list[list_pos] >> 8 == rep->steps) return cfg.list[list_pos++] & 255;
  return def;
}

static int listed(int def) {
  int i = from_list(def);
  return i < n_threads && can_run(i) ? i : def;
}

// Decides who runs next. kind 0: memory, 1: atomic, 2: system call, 3: yield,
// 4: the thread cannot go on.
static void decide(int kind) {
  struct thread *me = self;
  int must = kind == 4;
  int def = me->id, to = me->id;
  if (!must && kind != 3 && ++same > 20000) {
    // nobody waits for ever
    same = 0;
    def = to = in_turn(me->id);
    if (cfg.mode == 1) me->prio = --lowest;
  }
  if (must || kind == 3) {
    def = in_turn(me->id);
    if (def < 0) {
      // only a timeout can help
      for (int i = 0; i < n_threads && def < 0; i++)
        if (threads[i].state == FUTEX && threads[i].timed) {
          threads[i].state = RUNNABLE;
          threads[i].timeout = 1;
          def = i;
        }
      if (def < 0) give_up(1);
    }
    to = def;
  }
  switch (cfg.mode) {
  case 0: {
    uint64_t in = kind == 0 ? cfg.memory_in : kind == 1 ? cfg.atomic_in : cfg.syscall_in;
    if (must || kind == 3 || one_in(in)) {
      int o = random_other(me->id);
      if (o >= 0) to = o;
    }
    break;
  }
  case 1:
    for (uint64_t i = 0; i < cfg.depth; i++)
      if (change[i] == rep->steps) me->prio = --lowest;
    if (kind == 3) me->prio = --lowest;
    to = best();
    if (to < 0) to = def;
    break;
  case 2:
    to = listed(def);
    break;
  }
  if (to != def) note(to);
  pass_to(&threads[to], 1);
}

static inline int simulated(void) { return active && self; }

static void point(int kind) {
  if (!simulated()) return;
  if (++rep->steps > cfg.max_steps) give_up(2);
  if (kind == 0) rep->memory++;
  else if (kind == 1) rep->atomics++;
  else rep->syscalls++;
  int e = errno;
  decide(kind);
  errno = e;
}

// A point inside of a simulated system call.
void sim_point(void) { point(2); }

int sim_self(void) { return self ? self->id : -1; }

static void on_exit_thread(void *p) {
  struct thread *t = p;
  if (!active) return;
  t->state = EXITED;
  for (int i = 0; i < n_threads; i++)
    if (threads[i].state == JOIN && threads[i].join == t) threads[i].state = RUNNABLE;
  rep->steps++;
  rep->syscalls++;
  // as in decide, but the thread does not come back
  int def = in_turn(t->id);
  if (def < 0)
    for (int i = 0; i < n_threads && def < 0; i++)
      if (threads[i].state == FUTEX && threads[i].timed) {
        threads[i].state = RUNNABLE;
        threads[i].timeout = 1;
        def = i;
      }
  if (def < 0) give_up(1);
  int to = def;
  if (cfg.mode == 0) {
    int o = random_other(t->id);
    if (o >= 0) to = o;
  } else if (cfg.mode == 1) {
    to = best();
  } else {
    to = listed(def);
  }
  if (to != def) note(to);
  self = NULL;
  pass_to(&threads[to], 0);
}

static struct thread *add_thread(void) {
  if (n_threads == MAX_THREADS) abort();
  struct thread *t = &threads[n_threads];
  memset(t, 0, sizeof *t);
  t->id = n_threads++;
  t->prio = cfg.mode == 1 ? (int64_t)(next_random() >> 16) : 0;
  rep->threads = n_threads;
  return t;
}

// Starts simulation, the calling thread is thread 0.
void sim_begin(const struct config *c, struct report *r) {
  cfg = *c;
  rep = r;
  rng = cfg.seed;
  if (!real_create) {
    real_create = dlsym(RTLD_NEXT, "pthread_create");
    real_join = dlsym(RTLD_NEXT, "pthread_join");
    pthread_key_create(&key, on_exit_thread);
  }
  // only one thread runs at a time: passing the baton is faster on one processor
  unsigned cpu = 0;
  unsigned char set[128] = {0};
  if (raw(SYS_getcpu, (long)&cpu, 0, 0, 0, 0, 0) == 0 && cpu < 1024) {
    set[cpu / 8] = 1 << cpu % 8;
    raw(SYS_sched_setaffinity, 0, sizeof set, (long)set, 0, 0, 0);
  }
  if (cfg.depth > 64) cfg.depth = 64;
  for (uint64_t i = 0; i < cfg.depth; i++) change[i] = 1 + next_random() % (cfg.length ? cfg.length : 1);
  n_threads = 0;
  self = add_thread();
  self->pt = pthread_self();
  active = 1;
}

// Ends simulation, other threads never run again.
void sim_end(void) { active = 0; self = NULL; }

static void *trampoline(void *p) {
  struct thread *t = p;
  while (!__atomic_exchange_n(&t->go, 0, __ATOMIC_SEQ_CST))
    raw(SYS_futex, (long)&t->go, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  self = t;
  pthread_setspecific(key, t);
  return t->start(t->arg);
}

int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*start)(void *), void *arg) {
  if (!simulated()) {
    if (!real_create) {
      real_create = dlsym(RTLD_NEXT, "pthread_create");
      real_join = dlsym(RTLD_NEXT, "pthread_join");
      pthread_key_create(&key, on_exit_thread);
    }
    return real_create(pt, attr, start, arg);
  }
  struct thread *t = add_thread();
  t->start = start;
  t->arg = arg;
  int r = real_create(pt, attr, trampoline, t);
  if (r) {
    t->state = EXITED;
    return r;
  }
  t->pt = *pt;
  point(2);
  return 0;
}

int pthread_join(pthread_t pt, void **ret) {
  if (simulated())
    for (int i = 0; i < n_threads; i++)
      if (threads[i].id && pthread_equal(threads[i].pt, pt)) {
        point(2);
        if (threads[i].state != EXITED) {
          self->state = JOIN;
          self->join = &threads[i];
          rep->steps++;
          decide(4);
          self->join = NULL;
        }
        memset(&threads[i].pt, 0, sizeof threads[i].pt);
        break;
      }
  return real_join(pt, ret);
}

int sched_yield(void) {
  if (!simulated()) return raw(SYS_sched_yield, 0, 0, 0, 0, 0, 0);
  if (++rep->steps > cfg.max_steps) give_up(2);
  rep->syscalls++;
  decide(3);
  return 0;
}

static long sim_futex(uint32_t *addr, int op, uint32_t val, const void *timeout, uint32_t bits) {
  int cmd = op & 127 & ~FUTEX_CLOCK_REALTIME;
  point(2);
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    if (cmd == FUTEX_WAIT) bits = ~0u;
    if (__atomic_load_n(addr, __ATOMIC_SEQ_CST) != val) {
      errno = EAGAIN;
      return -1;
    }
    rep->steps++;
    if (cfg.mode == 2 ? from_list(0) == 255 : one_in(cfg.spurious_in)) {
      rep->spurious++;
      note(255);
      return 0;
    }
    self->state = FUTEX;
    self->addr = addr;
    self->bits = bits;
    self->timed = timeout != NULL;
    self->timeout = 0;
    rep->steps++;
    decide(4);
    self->addr = NULL;
    if (self->timeout) {
      errno = ETIMEDOUT;
      return -1;
    }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    if (cmd == FUTEX_WAKE) bits = ~0u;
    int c[MAX_THREADS], n = 0;
    for (int i = 0; i < n_threads; i++)
      if (threads[i].state == FUTEX && threads[i].addr == addr && (threads[i].bits & bits)) c[n++] = i;
    long woken = 0;
    while (n && (uint32_t)woken < val) {
      // any of the waiting threads
      int k = 0;
      if (n > 1) {
        rep->steps++;
        k = cfg.mode == 0 ? (int)(next_random() % n) : from_list(0) % n;
        if (k) note(k);
      }
      threads[c[k]].state = RUNNABLE;
      for (int i = k; i + 1 < n; i++) c[i] = c[i + 1];
      n--;
      woken++;
    }
    return woken;
  }
  return -2;
}

long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long);
  long d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && simulated()) {
    long r = sim_futex((uint32_t *)a, (int)b, (uint32_t)c, (const void *)d, (uint32_t)f);
    if (r != -2) return r;
  }
  if (n == SYS_getrandom && simulated()) {
    extern ssize_t getrandom(void *, size_t, unsigned);
    return getrandom((void *)a, (size_t)b, (unsigned)c);
  }
  long r = raw(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = (int)-r;
    return -1;
  }
  return r;
}

// What instrumented code calls.

#define EMPTY(name) \
  void name(void *a) { (void)a; }
EMPTY(__tsan_func_entry)
EMPTY(__tsan_vptr_read)
void __tsan_init(void) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a, (void)b; }

#define MEM(name) \
  void __tsan_##name(void *a) { \
    (void)a; \
    point(0); \
  }
#define MEMS(kind) \
  MEM(kind##1) MEM(kind##2) MEM(kind##4) MEM(kind##8) MEM(kind##16) \
  MEM(unaligned_##kind##2) MEM(unaligned_##kind##4) MEM(unaligned_##kind##8) MEM(unaligned_##kind##16) \
  MEM(volatile_##kind##1) MEM(volatile_##kind##2) MEM(volatile_##kind##4) MEM(volatile_##kind##8) MEM(volatile_##kind##16)
MEMS(read)
MEMS(write)
MEMS(read_write)

void __tsan_read_range(void *a, uintptr_t n) { (void)a, (void)n; point(0); }
void __tsan_write_range(void *a, uintptr_t n) { (void)a, (void)n; point(0); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { point(0); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { point(0); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { point(0); return memset(d, c, n); }

#define ATOMIC(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type *a, int m) { (void)m; point(1); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int m) { (void)m; point(1); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int m) { (void)m; point(1); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int m) { (void)m; point(1); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int m) { (void)m; point(1); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int m) { (void)m; point(1); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int m) { (void)m; point(1); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int m) { (void)m; point(1); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int m) { (void)m; point(1); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *c, type v, int m, int f) { (void)m, (void)f; point(1); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *c, type v, int m, int f) { (void)m, (void)f; point(1); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type c, type v, int m, int f) { (void)m, (void)f; point(1); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, uint8_t)
ATOMIC(16, uint16_t)
ATOMIC(32, uint32_t)
ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int m) { (void)m; point(1); __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int m) { (void)m; }

// Time stamps for histories.
uint64_t sim_clock(void) {
  static uint64_t now;
  return ++now;
}
