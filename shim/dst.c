// libdst: deterministic process simulator (LD_PRELOAD).
//
// Real threads of the program under test run one at a time. Whoever holds the baton runs until it
// reaches an intercepted point (thread creation, futex, file operation, clock sleep, yield, or an
// allocation-based preemption point) at which the seeded scheduler decides who runs next. Clocks are
// virtual: time advances by a small tick per point and jumps to the next deadline when everything is
// blocked. Randomness is a seeded stream. File operations below a prefix are counted and can fail,
// be short, be slow, or crash the process, as the configuration says. One configuration (seed) is one
// exactly repeatable execution.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 512
#define MAXFD 4096
#define MAXFAULT 256
#define NS 1000000000LL

static inline long rsys6(long n, long a, long b, long c, long d, long e, long f) {
  long r; register long r10 __asm__("r10") = d; register long r8 __asm__("r8") = e; register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define RS(n, ...) RS_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RS_(n, a, b, c, d, e, f, ...) rsys6(n, (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

enum { T_FREE, T_RUN, T_FUTEX, T_SLEEP, T_JOIN, T_DONE };
struct thr {
  int state; uint32_t park; pid_t tid; pthread_t pt; int have_pt;
  uint32_t *addr; uint32_t bitset; int64_t deadline; int timed_out; int woken;
  int join_target; uint64_t prio; int detached; int rounds; int yielded;
  void *(*fn)(void *); void *arg; int exit_waited;
};
static struct thr T[MAXT];
static int nthr, cur = -1;
static __thread int me = -1;
static volatile int active;
static int nopreempt;
static int64_t mono, wall_off;          // virtual time
static uint64_t rng_sched, rng_misc, rng_rand;
static uint64_t steps, decisions, switches, hash = 1469598103934665603ULL, max_steps = 3000000;
static int policy; // 0 uniform, 1 pct, 2 explicit
static double p_switch = 0.2;
static uint64_t alloc_mean, alloc_left;
static uint64_t pct_points[64]; static int npct; static uint64_t pct_low = 1000000;
static int64_t tick = 1000;
static double p_stall; static int64_t stall_max; static uint64_t stalls;
static double p_spurious; static uint64_t spurious;
static char prefix[512]; static int prefix_len;
static char report_path[512], dec_path[512], trace_path[512];
static int trace_fd = -1;
static struct { uint64_t idx; int tid; } *expl; static size_t nexpl, iexpl;
static struct { uint64_t idx; int tid; } *rec; static size_t nrec, caprec;
static char *fdpath[MAXFD];
static pthread_key_t exit_key;
static int exit_pending_tid;
static int deadlocked;

enum { OP_OPEN, OP_CREATE, OP_READ, OP_WRITE, OP_RENAME, OP_UNLINK, OP_MKDIR, OP_TRUNC, OP_FSYNC, OP_UTIME, OP_STAT, OP_READDIR, OP_LINK, OP_CLOSE, OP_MUT, OP_ANY, NOPS_ };
static const char *opname[NOPS_] = {"open","create","read","write","rename","unlink","mkdir","truncate","fsync","utime","stat","readdir","link","close","mut","any"};
static uint64_t opcount[NOPS_];
enum { F_ERR, F_SHORT, F_DELAY, F_CRASH, F_CRASH_AFTER, F_TORN, NFK };
static const char *fkname[NFK] = {"err","short","delay","crash","crash_after","torn"};
static struct { int op; uint64_t nth, count; int kind; int64_t arg; char sub[96]; uint64_t seen; uint64_t fired; } F[MAXFAULT];
static int nf;

static uint64_t mix(uint64_t *s) { uint64_t z = (*s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
static double unit(uint64_t *s) { return (mix(s) >> 11) * (1.0 / 9007199254740992.0); }
static void hmix(uint64_t v) { hash = (hash ^ v) * 1099511628211ULL; hash ^= hash >> 29; }

static void put(const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b) n = sizeof b; RS(SYS_write, 2, b, n);
}
static void tracef(const char *fmt, ...) {
  if (trace_fd < 0) return;
  char b[1024]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n > (int)sizeof b) n = sizeof b; RS(SYS_write, trace_fd, b, n);
}

static int reported;
static void report(const char *why) {
  if (reported || !report_path[0]) return; reported = 1;
  static char b[16384]; int n = 0;
  n += snprintf(b + n, sizeof b - n, "{\"end\":\"%s\",\"steps\":%lu,\"decisions\":%lu,\"switches\":%lu,\"hash\":\"%016lx\",\"threads\":%d,\"virtual_ns\":%ld,\"stalls\":%lu,\"spurious\":%lu,\"ops\":{", why, steps, decisions, switches, hash, nthr, mono, stalls, spurious);
  for (int i = 0; i < NOPS_; i++) n += snprintf(b + n, sizeof b - n, "%s\"%s\":%lu", i ? "," : "", opname[i], opcount[i]);
  n += snprintf(b + n, sizeof b - n, "},\"faults\":[");
  for (int i = 0; i < nf && n < (int)sizeof b - 300; i++) n += snprintf(b + n, sizeof b - n, "%s{\"i\":%d,\"op\":\"%s\",\"kind\":\"%s\",\"fired\":%lu}", i ? "," : "", i, opname[F[i].op], fkname[F[i].kind], F[i].fired);
  n += snprintf(b + n, sizeof b - n, "]}\n");
  int fd = RS(SYS_openat, AT_FDCWD, report_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (fd >= 0) { RS(SYS_write, fd, b, n); RS(SYS_close, fd); }
  if (dec_path[0]) {
    fd = RS(SYS_openat, AT_FDCWD, dec_path, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
      char line[65536]; int l = 0;
      for (size_t i = 0; i < nrec; i++) {
        l += snprintf(line + l, sizeof line - l, "%lu:%d\n", rec[i].idx, rec[i].tid);
        if (l > 60000) { RS(SYS_write, fd, line, l); l = 0; }
      }
      RS(SYS_write, fd, line, l); RS(SYS_close, fd);
    }
  }
}
static void die(int code, const char *why) { report(why); RS(SYS_exit_group, code); __builtin_unreachable(); }

static void park_wait(int t) {
  while (!__atomic_load_n(&T[t].park, __ATOMIC_ACQUIRE)) RS(SYS_futex, &T[t].park, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0);
  __atomic_store_n(&T[t].park, 0, __ATOMIC_RELAXED);
}
static void wait_gone(void) {
  // A thread that handed over the baton while exiting finishes for real before anybody goes on.
  if (exit_pending_tid) {
    pid_t pid = RS(SYS_getpid);
    while (RS(SYS_tgkill, pid, exit_pending_tid, 0) == 0) RS(SYS_sched_yield);
    exit_pending_tid = 0;
  }
}
static void hand_to(int t) {
  cur = t; switches++;
  __atomic_store_n(&T[t].park, 1, __ATOMIC_RELEASE);
  RS(SYS_futex, &T[t].park, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0);
}

static void timers(void) {
  for (int i = 0; i < nthr; i++) {
    if ((T[i].state == T_SLEEP || T[i].state == T_FUTEX) && T[i].deadline >= 0 && T[i].deadline <= mono) {
      T[i].timed_out = T[i].state == T_FUTEX; T[i].state = T_RUN;
    }
  }
}
static int64_t next_deadline(void) {
  int64_t d = -1;
  for (int i = 0; i < nthr; i++) if ((T[i].state == T_SLEEP || T[i].state == T_FUTEX) && T[i].deadline >= 0 && (d < 0 || T[i].deadline < d)) d = T[i].deadline;
  return d;
}

// Chooses the next thread to run; `self` may or may not be runnable.
static int choose(int self, int forced) {
  int cand[MAXT], n = 0;
  for (;;) {
    timers();
    n = 0;
    for (int i = 0; i < nthr; i++) if (T[i].state == T_RUN) cand[n++] = i;
    if (n) break;
    int64_t d = next_deadline();
    if (d < 0) {
      deadlocked = 1;
      if (trace_fd >= 0) for (int i = 0; i < nthr; i++) tracef("  thread %d state %d\n", i, T[i].state);
      put("dst: deadlock: no runnable thread and no deadline\n");
      die(99, "deadlock");
    }
    mono = d;
  }
  if (n == 1) return cand[0];
  uint64_t idx = decisions++;
  int self_ok = self >= 0 && T[self].state == T_RUN && !forced;
  int def = -1;
  if (self_ok) def = self;
  else { // round robin after self
    for (int k = 0; k < n; k++) if (cand[k] > self) { def = cand[k]; break; }
    if (def < 0) def = cand[0];
  }
  int pick = def;
  if (policy == 2) {
    while (iexpl < nexpl && expl[iexpl].idx < idx) iexpl++;
    if (iexpl < nexpl && expl[iexpl].idx == idx) { int t = expl[iexpl].tid; if (t < nthr && T[t].state == T_RUN) pick = t; iexpl++; }
  } else if (policy == 1) {
    for (int k = 0; k < npct; k++) if (pct_points[k] == idx && self >= 0) T[self].prio = --pct_low;
    if (forced && self >= 0) T[self].prio = --pct_low;
    uint64_t best = 0; pick = -1;
    for (int k = 0; k < n; k++) { if (forced && cand[k] == self) continue; if (pick < 0 || T[cand[k]].prio > best) { pick = cand[k]; best = T[pick].prio; } }
  } else {
    if (!self_ok || unit(&rng_sched) < p_switch) {
      if (forced && n > 1) { int k = mix(&rng_sched) % (n - 1); pick = -1; for (int j = 0; j < n; j++) { if (cand[j] == self) continue; if (k-- == 0) { pick = cand[j]; break; } } if (pick < 0) pick = cand[n - 1]; }
      else pick = cand[mix(&rng_sched) % n];
    }
  }
  if (pick != def) {
    if (nrec == caprec) { size_t c = caprec ? caprec * 2 : 4096; void *p = (void *)RS(SYS_mmap, 0, c * sizeof *rec, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (nrec) memcpy(p, rec, nrec * sizeof *rec); rec = p; caprec = c; }
    rec[nrec].idx = idx; rec[nrec].tid = pick; nrec++;
  }
  return pick;
}

static void step(int kind, uint64_t extra) {
  steps++; mono += tick;
  hmix(((uint64_t)me << 48) ^ ((uint64_t)kind << 40) ^ extra);
  if (steps > max_steps) die(98, "step_limit");
  if (p_stall > 0 && unit(&rng_misc) < p_stall) { int64_t d = (int64_t)(unit(&rng_misc) * stall_max); mono += d; stalls++; tracef("S %lu stall %ld\n", steps, d); }
}
// The current thread (which set its own state) gives others a chance to run.
static void resched(int forced) {
  int self = me;
  int t = choose(self, forced);
  if (t != self) {
    tracef("C %lu d%lu %d->%d t=%ld\n", steps, decisions, self, t, mono);
    hmix(0x5157 + t);
    hand_to(t); park_wait(self); wait_gone();
  }
}
static inline int on(void) { return active && me >= 0 && !nopreempt; }
static void point(int kind, uint64_t extra) { if (!on()) return; step(kind, extra); resched(0); }
static void point_yield(void) { step(1, 0); resched(1); }

static void vsleep_until(int64_t d) {
  if (d <= mono) { point(2, 0); return; }
  step(2, 0); T[me].state = T_SLEEP; T[me].deadline = d; resched(0); T[me].deadline = -1;
}

// ---------------------------------------------------------------- futex
static long do_futex(uint32_t *uaddr, int op, uint32_t val, const struct timespec *to, uint32_t *uaddr2, uint32_t val3) {
  int cmd = op & FUTEX_CMD_MASK;
  if (cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET) {
    step(3, 0); resched(0);
    if (__atomic_load_n(uaddr, __ATOMIC_SEQ_CST) != val) { errno = EAGAIN; return -1; }
    if (p_spurious > 0 && unit(&rng_misc) < p_spurious) { spurious++; errno = EINTR; return -1; }
    int64_t d = -1;
    if (to) {
      int64_t v = to->tv_sec > 9000000000LL ? INT64_MAX / 4 : to->tv_sec * NS + to->tv_nsec;
      if (cmd == FUTEX_WAIT) d = mono + v; else if (op & FUTEX_CLOCK_REALTIME) d = v - wall_off; else d = v;
      if (d < 0) d = 0;
    }
    T[me].state = T_FUTEX; T[me].addr = uaddr; T[me].bitset = cmd == FUTEX_WAIT ? 0xffffffffu : val3; T[me].deadline = d; T[me].timed_out = 0;
    resched(0);
    T[me].deadline = -1; T[me].addr = 0;
    if (T[me].timed_out) { T[me].timed_out = 0; errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (cmd == FUTEX_WAKE || cmd == FUTEX_WAKE_BITSET) {
    uint32_t bits = cmd == FUTEX_WAKE ? 0xffffffffu : val3;
    step(4, 0);
    long n = 0;
    while (n < (long)(int)val) {
      int w[MAXT], k = 0;
      for (int i = 0; i < nthr; i++) if (T[i].state == T_FUTEX && T[i].addr == uaddr && (T[i].bitset & bits)) w[k++] = i;
      if (!k) break;
      int x = w[k > 1 ? mix(&rng_misc) % k : 0];
      T[x].state = T_RUN; T[x].timed_out = 0; n++;
    }
    if (!nopreempt) resched(0);
    return n;
  }
  long r = RS(SYS_futex, uaddr, op, val, to, uaddr2, val3);
  if (r < 0) { errno = -r; return -1; }
  return r;
}

// ---------------------------------------------------------------- threads
static int (*real_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*real_pthread_join)(pthread_t, void **);
static int (*real_pthread_detach)(pthread_t);

static void thread_exit_handover(void *v) {
  if (me < 0) return;
  if (T[me].rounds < 3) { T[me].rounds++; pthread_setspecific(exit_key, v); return; }
  int self = me;
  step(6, 0);
  T[self].state = T_DONE;
  for (int i = 0; i < nthr; i++) if (T[i].state == T_JOIN && T[i].join_target == self) T[i].state = T_RUN;
  int t = choose(self, 0);
  tracef("X %lu thread %d done, next %d\n", steps, self, t);
  exit_pending_tid = RS(SYS_gettid);
  me = -1;
  hand_to(t);
}
static void *trampoline(void *p) {
  int id = (int)(intptr_t)p;
  T[id].tid = RS(SYS_gettid);
  park_wait(id);
  wait_gone();
  me = id;
  T[id].rounds = 0;
  pthread_setspecific(exit_key, (void *)1);
  return T[id].fn(T[id].arg);
}
EXPORT int pthread_create(pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (!real_pthread_create) real_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
  if (!active || me < 0) return real_pthread_create(pt, attr, fn, arg);
  step(5, 0);
  if (nthr >= MAXT) die(97, "too_many_threads");
  int id = nthr++;
  memset(&T[id], 0, sizeof T[id]);
  T[id].fn = fn; T[id].arg = arg; T[id].state = T_RUN; T[id].deadline = -1; T[id].prio = 2000000 + (mix(&rng_sched) >> 8);
  nopreempt++;
  int r = real_pthread_create(pt, attr, trampoline, (void *)(intptr_t)id);
  nopreempt--;
  if (r) { T[id].state = T_DONE; return r; }
  T[id].pt = *pt; T[id].have_pt = 1;
  if (!nopreempt) resched(0);
  return 0;
}
EXPORT int pthread_join(pthread_t pt, void **ret) {
  if (!real_pthread_join) real_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  if (active && me >= 0) {
    for (int i = 0; i < nthr; i++) if (T[i].have_pt && T[i].pt == pt) {
      step(7, 0);
      if (T[i].state != T_DONE) { T[me].state = T_JOIN; T[me].join_target = i; T[me].deadline = -1; resched(0); }
      T[i].have_pt = 0;
      break;
    }
    nopreempt++; int r = real_pthread_join(pt, ret); nopreempt--; return r;
  }
  return real_pthread_join(pt, ret);
}
EXPORT int pthread_detach(pthread_t pt) {
  if (!real_pthread_detach) real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
  if (active && me >= 0) for (int i = 0; i < nthr; i++) if (T[i].have_pt && T[i].pt == pt) { T[i].have_pt = 0; break; }
  return real_pthread_detach(pt);
}
EXPORT int sched_yield(void) { if (on()) { point_yield(); return 0; } return (int)RS(SYS_sched_yield); }

EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (active) { memset(set, 0, sz); set->__bits[0] = 0xf; return 0; }
  long r = RS(SYS_sched_getaffinity, pid, sz, set); if (r < 0) { errno = -r; return -1; }
  if ((size_t)r < sz) memset((char *)set + r, 0, sz - r);
  return 0;
}

// ---------------------------------------------------------------- clocks
static int64_t clk(clockid_t c) { return c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? mono + wall_off : mono; }
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (!active || c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) { long r = RS(SYS_clock_gettime, c, ts); if (r < 0) { errno = -r; return -1; } return 0; }
  int64_t v = clk(c); ts->tv_sec = v / NS; ts->tv_nsec = v % NS; return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  (void)tz;
  if (!active) { return (int)RS(SYS_gettimeofday, tv, 0); }
  int64_t v = clk(CLOCK_REALTIME); tv->tv_sec = v / NS; tv->tv_usec = v % NS / 1000; return 0;
}
EXPORT time_t time(time_t *t) {
  time_t v; if (!active) { struct timespec ts; RS(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } else v = clk(CLOCK_REALTIME) / NS;
  if (t) *t = v; return v;
}
EXPORT int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (!on()) { long r = RS(SYS_nanosleep, req, rem); if (r < 0) { errno = -r; return -1; } return 0; }
  vsleep_until(mono + req->tv_sec * NS + req->tv_nsec); return 0;
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
  if (!on()) return -(int)RS(SYS_clock_nanosleep, c, flags, req, rem);
  int64_t v = req->tv_sec * NS + req->tv_nsec;
  if (flags & TIMER_ABSTIME) { if (c == CLOCK_REALTIME) v -= wall_off; } else v += mono;
  vsleep_until(v); return 0;
}
EXPORT int usleep(useconds_t us) { if (!on()) { struct timespec t = {us / 1000000, us % 1000000 * 1000}; RS(SYS_nanosleep, &t, 0); return 0; } vsleep_until(mono + us * 1000LL); return 0; }

// ---------------------------------------------------------------- randomness
static void fill(void *b, size_t n) { unsigned char *p = b; while (n) { uint64_t v = mix(&rng_rand); size_t k = n < 8 ? n : 8; memcpy(p, &v, k); p += k; n -= k; } }
EXPORT ssize_t getrandom(void *b, size_t n, unsigned f) {
  if (active) { fill(b, n); return n; }
  long r = RS(SYS_getrandom, b, n, f); if (r < 0) { errno = -r; return -1; } return r;
}
EXPORT int getentropy(void *b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }

// ---------------------------------------------------------------- files
static int under(const char *p) {
  if (!prefix_len || !p) return 0;
  if (!strncmp(p, prefix, prefix_len) && (p[prefix_len] == '/' || p[prefix_len] == 0)) return 1;
  return 0;
}
static uint64_t shash(const char *s) { uint64_t h = 14695981039346656037ULL; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }
static int is_mut(int op) { return op == OP_CREATE || op == OP_WRITE || op == OP_RENAME || op == OP_UNLINK || op == OP_MKDIR || op == OP_TRUNC || op == OP_UTIME || op == OP_LINK; }

struct fx { int err; int64_t lim; int crash_after; int torn; };
// A file operation is about to happen: scheduling point plus fault decision.
static struct fx fileop(int op, const char *path, const char *path2) {
  struct fx x = {0, -1, 0, 0};
  int sv = errno;
  step(16 + op, shash(path + prefix_len));
  resched(0);
  opcount[op]++; opcount[OP_ANY]++; if (is_mut(op)) opcount[OP_MUT]++;
  tracef("F %lu T%d %s %s #%lu mut#%lu\n", steps, me, opname[op], path + prefix_len, opcount[op], opcount[OP_MUT]);
  for (int i = 0; i < nf; i++) {
    if (!(F[i].op == op || F[i].op == OP_ANY || (F[i].op == OP_MUT && is_mut(op)))) continue;
    if (F[i].sub[0] && !strstr(path, F[i].sub) && !(path2 && strstr(path2, F[i].sub))) continue;
    uint64_t n = ++F[i].seen;
    if (n < F[i].nth || n >= F[i].nth + F[i].count) continue;
    F[i].fired++;
    tracef("! fault %d %s arg %ld\n", i, fkname[F[i].kind], F[i].arg);
    hmix(0xfa17 + F[i].kind);
    switch (F[i].kind) {
      case F_ERR: x.err = (int)F[i].arg; break;
      case F_SHORT: x.lim = F[i].arg; break;
      case F_DELAY: vsleep_until(mono + F[i].arg); break;
      case F_CRASH: die(77, "crash");
      case F_CRASH_AFTER: x.crash_after = 1; break;
      case F_TORN: x.crash_after = 1; x.lim = F[i].arg; break;
    }
  }
  errno = sv;
  return x;
}
static void vtimes(int dirfd, const char *path, int fd, int also_atime) {
  int64_t v = mono + wall_off; struct timespec ts[2];
  ts[1].tv_sec = v / NS; ts[1].tv_nsec = v % NS; ts[0] = ts[1]; if (!also_atime) ts[0].tv_nsec = UTIME_OMIT;
  if (path) RS(SYS_utimensat, dirfd, path, ts, 0); else RS(SYS_utimensat, fd, 0, ts, 0);
}
static void setfd(int fd, const char *p) {
  if (fd < 0 || fd >= MAXFD) return;
  extern void __libc_free(void *); extern void *__libc_malloc(size_t);
  if (fdpath[fd]) __libc_free(fdpath[fd]);
  fdpath[fd] = 0;
  if (p) { size_t n = strlen(p) + 1; fdpath[fd] = __libc_malloc(n); memcpy(fdpath[fd], p, n); }
}
static const char *pathof(int dirfd, const char *path, char *buf) {
  if (path[0] == '/') return path;
  if (dirfd >= 0 && dirfd < MAXFD && fdpath[dirfd]) { snprintf(buf, PATH_MAX, "%s/%s", fdpath[dirfd], path); return buf; }
  if (dirfd == AT_FDCWD) { long n = RS(SYS_getcwd, buf, PATH_MAX); if (n > 0) { size_t l = strlen(buf); snprintf(buf + l, PATH_MAX - l, "/%s", path); return buf; } }
  return path;
}
static long ret(long r) { if (r < 0) { errno = -r; return -1; } return r; }
#define AFTER(x) do { if ((x).crash_after) die(77, "crash"); } while (0)

static int do_open(int dirfd, const char *path, int flags, mode_t mode) {
  char buf[PATH_MAX]; const char *p = path;
  int mine = on() && under(p = pathof(dirfd, path, buf));
  if (!mine) { int r = (int)ret(RS(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode)); if (r >= 0 && active && me >= 0) setfd(r, 0); return r; }
  struct fx x = fileop((flags & (O_CREAT)) || (flags & O_TMPFILE) == O_TMPFILE ? OP_CREATE : OP_OPEN, p, 0);
  if (x.err) { errno = x.err; return -1; }
  struct stat st; int existed = (flags & O_CREAT) && RS(SYS_newfstatat, dirfd, path, &st, 0) == 0;
  int r = (int)ret(RS(SYS_openat, dirfd, path, flags | O_LARGEFILE, mode));
  if (r >= 0) { setfd(r, p); if ((flags & O_CREAT && !existed) || (flags & O_TMPFILE) == O_TMPFILE || ((flags & O_TRUNC) && existed)) vtimes(0, 0, r, !existed); }
  AFTER(x);
  return r;
}
static int oflags_need_mode(int f) { return (f & O_CREAT) || (f & O_TMPFILE) == O_TMPFILE; }
#define MODEARG mode_t mode = 0; if (oflags_need_mode(flags)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, mode_t); va_end(ap); }
EXPORT int open(const char *path, int flags, ...) { MODEARG return do_open(AT_FDCWD, path, flags, mode); }
EXPORT int open64(const char *path, int flags, ...) { MODEARG return do_open(AT_FDCWD, path, flags, mode); }
EXPORT int openat(int d, const char *path, int flags, ...) { MODEARG return do_open(d, path, flags, mode); }
EXPORT int openat64(int d, const char *path, int flags, ...) { MODEARG return do_open(d, path, flags, mode); }
EXPORT int creat(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
EXPORT int creat64(const char *path, mode_t mode) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }

static const char *mine_fd(int fd) { return on() && fd >= 0 && fd < MAXFD ? fdpath[fd] : 0; }
EXPORT int close(int fd) {
  const char *p = mine_fd(fd);
  if (p) { fileop(OP_CLOSE, p, 0); setfd(fd, 0); }
  return (int)ret(RS(SYS_close, fd));
}
EXPORT int dup(int fd) { int r = (int)ret(RS(SYS_dup, fd)); if (r >= 0 && active && me >= 0) setfd(r, fd < MAXFD ? fdpath[fd] : 0); return r; }
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  int r = (int)ret(RS(SYS_fcntl, fd, cmd, a));
  if (r >= 0 && active && me >= 0 && (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC)) setfd(r, fd < MAXFD ? fdpath[fd] : 0);
  return r;
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  return fcntl(fd, cmd, a);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
  const char *p = mine_fd(fd); if (!p) return ret(RS(SYS_read, fd, b, n));
  struct fx x = fileop(OP_READ, p, 0); if (x.err) { errno = x.err; return -1; }
  if (x.lim >= 0 && (size_t)x.lim < n) n = x.lim ? x.lim : 1;
  ssize_t r = ret(RS(SYS_read, fd, b, n)); AFTER(x); return r;
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  const char *p = mine_fd(fd); if (!p) return ret(RS(SYS_pread64, fd, b, n, o));
  struct fx x = fileop(OP_READ, p, 0); if (x.err) { errno = x.err; return -1; }
  if (x.lim >= 0 && (size_t)x.lim < n) n = x.lim ? x.lim : 1;
  ssize_t r = ret(RS(SYS_pread64, fd, b, n, o)); AFTER(x); return r;
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t readv(int fd, const struct iovec *v, int c) {
  const char *p = mine_fd(fd); if (!p) return ret(RS(SYS_readv, fd, v, c));
  struct fx x = fileop(OP_READ, p, 0); if (x.err) { errno = x.err; return -1; }
  ssize_t r = ret(RS(SYS_readv, fd, v, c)); AFTER(x); return r;
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  const char *p = mine_fd(fd); if (!p) return ret(RS(SYS_write, fd, b, n));
  struct fx x = fileop(OP_WRITE, p, 0); if (x.err) { errno = x.err; return -1; }
  if (x.lim >= 0 && (size_t)x.lim < n) { n = x.lim; if (!n && !x.crash_after) n = 1; }
  ssize_t r = ret(RS(SYS_write, fd, b, n)); if (r > 0) vtimes(0, 0, fd, 0); AFTER(x); return r;
}
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  const char *p = mine_fd(fd); if (!p) return ret(RS(SYS_pwrite64, fd, b, n, o));
  struct fx x = fileop(OP_WRITE, p, 0); if (x.err) { errno = x.err; return -1; }
  if (x.lim >= 0 && (size_t)x.lim < n) { n = x.lim; if (!n && !x.crash_after) n = 1; }
  ssize_t r = ret(RS(SYS_pwrite64, fd, b, n, o)); if (r > 0) vtimes(0, 0, fd, 0); AFTER(x); return r;
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT ssize_t writev(int fd, const struct iovec *v, int c) {
  const char *p = mine_fd(fd); if (!p) return ret(RS(SYS_writev, fd, v, c));
  struct fx x = fileop(OP_WRITE, p, 0); if (x.err) { errno = x.err; return -1; }
  ssize_t r;
  if (x.lim >= 0 && c > 0) { size_t n = v[0].iov_len; if ((size_t)x.lim < n) n = x.lim; r = ret(RS(SYS_write, fd, v[0].iov_base, n)); }
  else r = ret(RS(SYS_writev, fd, v, c));
  if (r > 0) vtimes(0, 0, fd, 0); AFTER(x); return r;
}
EXPORT int fsync(int fd) { const char *p = mine_fd(fd); if (!p) return (int)ret(RS(SYS_fsync, fd)); struct fx x = fileop(OP_FSYNC, p, 0); if (x.err) { errno = x.err; return -1; } AFTER(x); return 0; }
EXPORT int fdatasync(int fd) { const char *p = mine_fd(fd); if (!p) return (int)ret(RS(SYS_fdatasync, fd)); struct fx x = fileop(OP_FSYNC, p, 0); if (x.err) { errno = x.err; return -1; } AFTER(x); return 0; }
EXPORT int ftruncate64(int fd, off_t l) {
  const char *p = mine_fd(fd); if (!p) return (int)ret(RS(SYS_ftruncate, fd, l));
  struct fx x = fileop(OP_TRUNC, p, 0); if (x.err) { errno = x.err; return -1; }
  int r = (int)ret(RS(SYS_ftruncate, fd, l)); if (!r) vtimes(0, 0, fd, 0); AFTER(x); return r;
}
EXPORT int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
EXPORT int fallocate64(int fd, int mode, off_t o, off_t l) {
  const char *p = mine_fd(fd); if (!p) return (int)ret(RS(SYS_fallocate, fd, mode, o, l));
  struct fx x = fileop(OP_TRUNC, p, 0); if (x.err) { errno = x.err; return -1; }
  int r = (int)ret(RS(SYS_fallocate, fd, mode, o, l)); AFTER(x); return r;
}
EXPORT int fallocate(int fd, int mode, off_t o, off_t l) { return fallocate64(fd, mode, o, l); }
EXPORT int posix_fallocate64(int fd, off_t o, off_t l) { int sv = errno; int r = fallocate64(fd, 0, o, l); if (r < 0) { int e = errno; errno = sv; return e; } return 0; }
EXPORT int posix_fallocate(int fd, off_t o, off_t l) { return posix_fallocate64(fd, o, l); }

static int do_rename(int d1, const char *a, int d2, const char *b, unsigned fl) {
  char b1[PATH_MAX], b2[PATH_MAX]; const char *p = 0, *q = 0;
  int mine = 0;
  if (on()) { p = pathof(d1, a, b1); q = pathof(d2, b, b2); mine = under(p) || under(q); }
  if (!mine) return (int)ret(RS(SYS_renameat2, d1, a, d2, b, fl));
  struct fx x = fileop(OP_RENAME, under(q) ? q : p, p); if (x.err) { errno = x.err; return -1; }
  int r = (int)ret(RS(SYS_renameat2, d1, a, d2, b, fl)); AFTER(x); return r;
}
EXPORT int rename(const char *a, const char *b) { return do_rename(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int renameat(int d1, const char *a, int d2, const char *b) { return do_rename(d1, a, d2, b, 0); }
EXPORT int renameat2(int d1, const char *a, int d2, const char *b, unsigned f) { return do_rename(d1, a, d2, b, f); }
static int do_unlink(int d, const char *a, int fl) {
  char b1[PATH_MAX]; const char *p = 0; int mine = 0;
  if (on()) { p = pathof(d, a, b1); mine = under(p); }
  if (!mine) return (int)ret(RS(SYS_unlinkat, d, a, fl));
  struct fx x = fileop(OP_UNLINK, p, 0); if (x.err) { errno = x.err; return -1; }
  int r = (int)ret(RS(SYS_unlinkat, d, a, fl)); AFTER(x); return r;
}
EXPORT int unlink(const char *a) { return do_unlink(AT_FDCWD, a, 0); }
EXPORT int unlinkat(int d, const char *a, int f) { return do_unlink(d, a, f); }
EXPORT int rmdir(const char *a) { return do_unlink(AT_FDCWD, a, AT_REMOVEDIR); }
static int do_link(int d1, const char *a, int d2, const char *b, int fl) {
  char b2[PATH_MAX]; const char *q = 0; int mine = 0;
  if (on()) { q = pathof(d2, b, b2); mine = under(q); }
  if (!mine) return (int)ret(RS(SYS_linkat, d1, a, d2, b, fl));
  struct fx x = fileop(OP_LINK, q, 0); if (x.err) { errno = x.err; return -1; }
  int r = (int)ret(RS(SYS_linkat, d1, a, d2, b, fl)); AFTER(x); return r;
}
EXPORT int link(const char *a, const char *b) { return do_link(AT_FDCWD, a, AT_FDCWD, b, 0); }
EXPORT int linkat(int d1, const char *a, int d2, const char *b, int f) { return do_link(d1, a, d2, b, f); }
EXPORT int symlink(const char *a, const char *b) { return (int)ret(RS(SYS_symlink, a, b)); }
static int do_mkdir(int d, const char *a, mode_t m) {
  char b1[PATH_MAX]; const char *p = 0; int mine = 0;
  if (on()) { p = pathof(d, a, b1); mine = under(p); }
  if (!mine) return (int)ret(RS(SYS_mkdirat, d, a, m));
  struct fx x = fileop(OP_MKDIR, p, 0); if (x.err) { errno = x.err; return -1; }
  int r = (int)ret(RS(SYS_mkdirat, d, a, m)); if (!r) vtimes(d, a, 0, 1); AFTER(x); return r;
}
EXPORT int mkdir(const char *a, mode_t m) { return do_mkdir(AT_FDCWD, a, m); }
EXPORT int mkdirat(int d, const char *a, mode_t m) { return do_mkdir(d, a, m); }
static int do_utimens(int d, const char *a, const struct timespec *ts, int fl) {
  char b1[PATH_MAX]; const char *p = 0;
  if (active && me >= 0) { if (a) p = pathof(d, a, b1); else if (d >= 0 && d < MAXFD) p = fdpath[d]; }
  struct timespec c[2]; const struct timespec *use = ts;
  if (active) {
    int64_t v = mono + wall_off;
    if (ts) { c[0] = ts[0]; c[1] = ts[1]; } else { c[0].tv_nsec = c[1].tv_nsec = UTIME_NOW; }
    for (int i = 0; i < 2; i++) if (c[i].tv_nsec == UTIME_NOW) { c[i].tv_sec = v / NS; c[i].tv_nsec = v % NS; }
    use = c;
  }
  if (!(on() && p && under(p))) return (int)ret(RS(SYS_utimensat, d, a, use, fl));
  struct fx x = fileop(OP_UTIME, p, 0); if (x.err) { errno = x.err; return -1; }
  int r = (int)ret(RS(SYS_utimensat, d, a, use, fl)); AFTER(x); return r;
}
EXPORT int utimensat(int d, const char *a, const struct timespec ts[2], int f) { return do_utimens(d, a, ts, f); }
EXPORT int futimens(int fd, const struct timespec ts[2]) { return do_utimens(fd, 0, ts, 0); }

static int pre_stat(int d, const char *a, int fl) {
  char b1[PATH_MAX]; const char *p = 0;
  if (!on()) return 0;
  if (a && a[0]) p = pathof(d, a, b1); else if (fl & AT_EMPTY_PATH) p = d >= 0 && d < MAXFD ? fdpath[d] : 0;
  if (!p || !under(p)) return 0;
  struct fx x = fileop(OP_STAT, p, 0); return x.err;
}
EXPORT int statx(int d, const char *a, int fl, unsigned m, struct statx *sx) { int e = pre_stat(d, a, fl); if (e) { errno = e; return -1; } return (int)ret(RS(SYS_statx, d, a, fl, m, sx)); }
static int do_stat(int d, const char *a, struct stat *st, int fl) { int e = pre_stat(d, a, fl); if (e) { errno = e; return -1; } return (int)ret(RS(SYS_newfstatat, d, a, st, fl)); }
EXPORT int stat(const char *a, struct stat *st) { return do_stat(AT_FDCWD, a, st, 0); }
EXPORT int stat64(const char *a, struct stat64 *st) { return do_stat(AT_FDCWD, a, (struct stat *)st, 0); }
EXPORT int lstat(const char *a, struct stat *st) { return do_stat(AT_FDCWD, a, st, AT_SYMLINK_NOFOLLOW); }
EXPORT int lstat64(const char *a, struct stat64 *st) { return do_stat(AT_FDCWD, a, (struct stat *)st, AT_SYMLINK_NOFOLLOW); }
EXPORT int fstat(int fd, struct stat *st) { return do_stat(fd, "", st, AT_EMPTY_PATH); }
EXPORT int fstat64(int fd, struct stat64 *st) { return do_stat(fd, "", (struct stat *)st, AT_EMPTY_PATH); }
EXPORT int fstatat(int d, const char *a, struct stat *st, int f) { return do_stat(d, a, st, f); }
EXPORT int fstatat64(int d, const char *a, struct stat64 *st, int f) { return do_stat(d, a, (struct stat *)st, f); }
EXPORT int access(const char *a, int m) { int e = pre_stat(AT_FDCWD, a, 0); if (e) { errno = e; return -1; } return (int)ret(RS(SYS_faccessat, AT_FDCWD, a, m)); }

static DIR *(*real_opendir)(const char *); static DIR *(*real_fdopendir)(int); static struct dirent64 *(*real_readdir64)(DIR *);
EXPORT DIR *opendir(const char *p) {
  if (!real_opendir) real_opendir = dlsym(RTLD_NEXT, "opendir");
  if (!(on() && under(p))) return real_opendir(p);
  struct fx x = fileop(OP_READDIR, p, 0); if (x.err) { errno = x.err; return 0; }
  nopreempt++; DIR *d = real_opendir(p); nopreempt--; if (d) setfd(dirfd(d), p); return d;
}
EXPORT int closedir(DIR *d) {
  static int (*real)(DIR *); if (!real) real = dlsym(RTLD_NEXT, "closedir");
  if (active && me >= 0) { setfd(dirfd(d), 0); nopreempt++; int r = real(d); nopreempt--; return r; }
  return real(d);
}
EXPORT struct dirent64 *readdir64(DIR *d) {
  if (!real_readdir64) real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
  if (on()) { int fd = dirfd(d); if (fd >= 0 && fd < MAXFD && fdpath[fd]) { struct fx x = fileop(OP_READDIR, fdpath[fd], 0); if (x.err) { errno = x.err; return 0; } } }
  return real_readdir64(d);
}
EXPORT ssize_t copy_file_range(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) {
  if (active && me >= 0) { errno = ENOSYS; return -1; } return ret(RS(SYS_copy_file_range, a, b, c, d, e, f));
}
EXPORT ssize_t sendfile64(int a, int b, off_t *c, size_t d) { if (active && me >= 0) { errno = ENOSYS; return -1; } return ret(RS(SYS_sendfile, a, b, c, d)); }
EXPORT ssize_t sendfile(int a, int b, off_t *c, size_t d) { return sendfile64(a, b, c, d); }
EXPORT ssize_t splice(int a, off_t *b, int c, off_t *d, size_t e, unsigned f) { if (active && me >= 0) { errno = ENOSYS; return -1; } return ret(RS(SYS_splice, a, b, c, d, e, f)); }

// ---------------------------------------------------------------- syscall(2)
EXPORT long syscall(long n, ...) {
  va_list ap; va_start(ap, n); long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long); va_end(ap);
  if (active && me >= 0) {
    switch (n) {
      case SYS_futex: {
        // A quiet section gives way where it meets a lock that a simulated thread holds, and wakes without giving way.
        int q = nopreempt, cmd = (int)b & FUTEX_CMD_MASK, wait = cmd == FUTEX_WAIT || cmd == FUTEX_WAIT_BITSET;
        if (wait) nopreempt = 0;
        long r = do_futex((uint32_t *)a, (int)b, (uint32_t)c, (const struct timespec *)d, (uint32_t *)e, (uint32_t)f);
        if (wait) nopreempt = q;
        return r;
      }
      case SYS_getrandom: fill((void *)a, b); return b;
      case SYS_copy_file_range: case SYS_sendfile: case SYS_splice: errno = ENOSYS; return -1;
      case SYS_statx: return statx((int)a, (const char *)b, (int)c, (unsigned)d, (struct statx *)e);
      case SYS_renameat2: return do_rename((int)a, (const char *)b, (int)c, (const char *)d, (unsigned)e);
      case SYS_sched_yield: return sched_yield();
      case SYS_clone3: case SYS_close_range: break;
    }
  }
  return ret(rsys6(n, a, b, c, d, e, f));
}

// ---------------------------------------------------------------- allocation points
extern void *__libc_malloc(size_t); extern void *__libc_calloc(size_t, size_t); extern void *__libc_realloc(void *, size_t); extern void __libc_free(void *); extern void *__libc_memalign(size_t, size_t);
static inline void alloc_point(void) {
  if (!alloc_mean || !active || me < 0 || nopreempt) return;
  if (alloc_left > 0) { alloc_left--; return; }
  alloc_left = mix(&rng_misc) % (2 * alloc_mean);
  int sv = errno; point(8, 0); errno = sv;
}
EXPORT void *malloc(size_t n) { alloc_point(); return __libc_malloc(n); }
EXPORT void *calloc(size_t n, size_t m) { alloc_point(); return __libc_calloc(n, m); }
EXPORT void *realloc(void *p, size_t n) { alloc_point(); return __libc_realloc(p, n); }
EXPORT void free(void *p) { __libc_free(p); }

// ---------------------------------------------------------------- control
static void parse_line(char *l) {
  char k[64]; int off = 0;
  if (sscanf(l, "%63s %n", k, &off) < 1) return;
  char *v = l + off;
  size_t n = strlen(v); while (n && (v[n - 1] == '\n' || v[n - 1] == ' ')) v[--n] = 0;
  if (!strcmp(k, "seed")) { uint64_t s = strtoull(v, 0, 10); uint64_t t = s; rng_sched = mix(&t); rng_misc = mix(&t); rng_rand = mix(&t); }
  else if (!strcmp(k, "randseed")) { uint64_t t = strtoull(v, 0, 10); rng_rand = mix(&t); }
  else if (!strcmp(k, "policy")) policy = !strcmp(v, "pct") ? 1 : !strcmp(v, "explicit") ? 2 : 0;
  else if (!strcmp(k, "p_switch")) p_switch = atof(v);
  else if (!strcmp(k, "pct")) { int d; uint64_t range; if (sscanf(v, "%d %lu", &d, &range) == 2) { for (npct = 0; npct < d && npct < 64; npct++) pct_points[npct] = mix(&rng_sched) % range; } }
  else if (!strcmp(k, "alloc")) { alloc_mean = strtoull(v, 0, 10); alloc_left = alloc_mean; }
  else if (!strcmp(k, "tick")) tick = atoll(v);
  else if (!strcmp(k, "stall")) { double p; long m; if (sscanf(v, "%lf %ld", &p, &m) == 2) { p_stall = p; stall_max = m; } }
  else if (!strcmp(k, "spurious")) p_spurious = atof(v);
  else if (!strcmp(k, "prefix")) { snprintf(prefix, sizeof prefix, "%s", v); prefix_len = strlen(prefix); }
  else if (!strcmp(k, "report")) snprintf(report_path, sizeof report_path, "%s", v);
  else if (!strcmp(k, "record")) snprintf(dec_path, sizeof dec_path, "%s", v);
  else if (!strcmp(k, "trace")) snprintf(trace_path, sizeof trace_path, "%s", v);
  else if (!strcmp(k, "maxsteps")) max_steps = strtoull(v, 0, 10);
  else if (!strcmp(k, "mono")) mono = atoll(v);
  else if (!strcmp(k, "wall")) wall_off = atoll(v) - mono;
  else if (!strcmp(k, "d")) { uint64_t i; int t; if (sscanf(v, "%lu:%d", &i, &t) == 2) { static size_t cap; if (nexpl == cap) { size_t c = cap ? cap * 2 : 4096; void *p = (void *)RS(SYS_mmap, 0, c * sizeof *expl, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (nexpl) memcpy(p, expl, nexpl * sizeof *expl); expl = p; cap = c; } expl[nexpl].idx = i; expl[nexpl].tid = t; nexpl++; } }
  else if (!strcmp(k, "fault") && nf < MAXFAULT) {
    char op[32], kind[32], sub[96] = ""; unsigned long nth, count; long arg;
    if (sscanf(v, "%31s %lu %lu %31s %ld %95s", op, &nth, &count, kind, &arg, sub) >= 5) {
      memset(&F[nf], 0, sizeof F[nf]);
      for (int i = 0; i < NOPS_; i++) if (!strcmp(op, opname[i])) F[nf].op = i;
      for (int i = 0; i < NFK; i++) if (!strcmp(kind, fkname[i])) F[nf].kind = i;
      F[nf].nth = nth; F[nf].count = count; F[nf].arg = arg; strcpy(F[nf].sub, sub); nf++;
    }
  }
}
EXPORT int dst_start(const char *cfg) {
  if (active) return -1;
  memset(T, 0, sizeof T); nthr = 0; nf = 0; nexpl = iexpl = nrec = 0; steps = decisions = switches = stalls = spurious = 0; hash = 1469598103934665603ULL;
  memset(opcount, 0, sizeof opcount); reported = 0; npct = 0; alloc_mean = 0; p_stall = 0; p_spurious = 0; policy = 0; tick = 1000;
  report_path[0] = dec_path[0] = trace_path[0] = 0; prefix_len = 0;
  mono = 1000 * NS; wall_off = 1767225600LL * NS - mono; // 2026-01-01
  char l[1024]; const char *p = cfg;
  while (*p) { size_t n = strcspn(p, "\n"); size_t m = n < sizeof l - 1 ? n : sizeof l - 1; memcpy(l, p, m); l[m] = 0; parse_line(l); p += n; if (*p) p++; }
  if (trace_path[0]) { int fd = RS(SYS_openat, AT_FDCWD, trace_path, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); trace_fd = RS(SYS_fcntl, fd, F_DUPFD, 900); RS(SYS_close, fd); }
  real_pthread_create = dlsym(RTLD_NEXT, "pthread_create"); real_pthread_join = dlsym(RTLD_NEXT, "pthread_join"); real_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
  real_opendir = dlsym(RTLD_NEXT, "opendir"); real_readdir64 = dlsym(RTLD_NEXT, "readdir64");
  static int keyed; if (!keyed) { pthread_key_create(&exit_key, thread_exit_handover); keyed = 1; }
  T[0].state = T_RUN; T[0].deadline = -1; T[0].tid = RS(SYS_gettid); T[0].prio = 2000000 + (mix(&rng_sched) >> 8); nthr = 1; me = 0; cur = 0;
  active = 1;
  return 0;
}
EXPORT void dst_point(void) { point(9, 0); }
EXPORT int64_t dst_now(void) { return mono; }
EXPORT int64_t dst_wall(void) { return mono + wall_off; }
EXPORT void dst_wall_jump(int64_t d) { wall_off += d; hmix(d); tracef("J wall jump %ld\n", d); }
EXPORT uint64_t dst_steps(void) { return steps; }
EXPORT uint64_t dst_rand(void) { return mix(&rng_misc); }
EXPORT int dst_active(void) { return active; }
EXPORT int dst_tid(void) { return me; }
EXPORT void dst_note(const char *s) { tracef("N %lu T%d %s\n", steps, me, s); hmix(shash(s)); }
// Runs without scheduling points or faults (checks, oracles).
EXPORT void dst_quiet(int on_) { if (active && me >= 0) nopreempt += on_ ? 1 : -1; }
EXPORT void dst_exit(int code) { die(code, "exit"); }

EXPORT void _exit(int c) { if (active) report("exit"); RS(SYS_exit_group, c); __builtin_unreachable(); }
static void at_exit(void) { if (active) report("exit"); }
__attribute__((constructor)) static void init(void) {
  const char *c = getenv("DST_CFG");
  if (!c) return;
  static char buf[1 << 20]; int fd = RS(SYS_openat, AT_FDCWD, c, O_RDONLY, 0); if (fd < 0) return;
  long n = 0, r; while (n < (long)sizeof buf - 1 && (r = RS(SYS_read, fd, buf + n, sizeof buf - 1 - n)) > 0) n += r;
  buf[n] = 0; RS(SYS_close, fd);
  unsetenv("DST_CFG"); unsetenv("LD_PRELOAD");
  dst_start(buf);
  atexit(at_exit);
}
