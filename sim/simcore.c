// Simulator core: shared world, scheduler, choices, faults, observations.
#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

SimWorld *W = NULL;
int sim_rank = -1;

static uint64_t rng_next(uint64_t *s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

SimWorld *sim_world_create(const SimParams *P, const uint16_t *decin, uint32_t nin) {
  size_t heap = (size_t)6 << 30; // NORESERVE
  char *m = mmap(NULL, heap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (m == MAP_FAILED) return NULL;
  SimWorld *w = (SimWorld *)m;
  w->P = *P;
  w->base = m;
  w->size = heap;
  size_t o = (sizeof(SimWorld) + 4095) & ~(size_t)4095;
  w->dec = (uint16_t *)(m + o);
  o += sizeof(uint16_t) * (size_t)SIM_MAXDEC;
  w->decin = (uint16_t *)(m + o);
  o += sizeof(uint16_t) * (size_t)SIM_MAXDEC;
  if (nin > SIM_MAXDEC) nin = SIM_MAXDEC;
  if (nin) memcpy(w->decin, decin, sizeof(uint16_t) * nin);
  w->nin = nin;
  w->obs = m + o;
  w->obs_cap = (size_t)512 << 20;
  o += w->obs_cap;
  w->brk = o;
  w->rng = P->seed * 0xD1342543DE82EF95ull + 0x1234567;
  w->hash = w->ilhash = 1469598103934665603ull;
  w->token = -1;
  w->next_cid = 16;
  for (int i = 0; i < P->nranks; i++) {
    w->r[i].prio = (int)(rng_next(&w->rng) & 0xffff);
    w->clockoff[i] = P->clock_skew_us[i];
  }
  w->vtime = 1000000000ull * 1700000000ull;
  return w;
}

void sim_world_destroy(SimWorld *w) { munmap(w, w->size); }

void sim_hash(const void *p, size_t n) {
  const unsigned char *c = p;
  size_t n0 = n;
  uint64_t h = W->hash;
  while (n >= 8) {
    uint64_t v;
    memcpy(&v, c, 8);
    h = (h ^ v) * 1099511628211ull;
    h ^= h >> 29;
    c += 8;
    n -= 8;
  }
  while (n--) h = (h ^ *c++) * 1099511628211ull;
  W->hash = h;
  if (W->P.trace && sim_rank >= 0) {
    // debugging aid: one line per hashed event
    static int fd = -1;
    if (fd < 0) {
      char t[600];
      snprintf(t, sizeof t, "%s.trace", W->P.scratch);
      fd = syscall(SYS_open, t, O_CREAT | O_WRONLY | O_APPEND, 0644);
    }
    char b[200];
    int k = snprintf(b, sizeof b, "%lu r%d %s n=%zu %016lx :", W->step, sim_rank, W->r[sim_rank].what, n0, W->hash);
    for (size_t i = 0; i < n0 && i < 48; i++) k += snprintf(b + k, sizeof b - k, "%02x", ((const unsigned char *)p)[i]);
    b[k++] = 10;
    syscall(SYS_write, fd, b, k);
    if (W->P.trace > 1 && (uint64_t)W->P.trace == W->step) {
      void *bt[64];
      extern int backtrace(void **, int);
      extern void backtrace_symbols_fd(void *const *, int, int);
      backtrace_symbols_fd(bt, backtrace(bt, 64), fd);
    }
  }
}

static int futex_wait(int *a, int v) { return syscall(SYS_futex, a, FUTEX_WAIT, v, NULL, NULL, 0); }
static int futex_wake(int *a) { return syscall(SYS_futex, a, FUTEX_WAKE, 1, NULL, NULL, 0); }

static void handoff(int to) {
  W->token = to;
  __atomic_add_fetch(&W->r[to].futex, 1, __ATOMIC_SEQ_CST);
  futex_wake(&W->r[to].futex);
}
static void await_token(void) {
  while (__atomic_load_n(&W->token, __ATOMIC_SEQ_CST) != sim_rank) {
    int v = __atomic_load_n(&W->r[sim_rank].futex, __ATOMIC_SEQ_CST);
    if (__atomic_load_n(&W->token, __ATOMIC_SEQ_CST) == sim_rank) break;
    futex_wait(&W->r[sim_rank].futex, v);
  }
}

void sim_die(int outcome, int code, const char *fmt, ...) {
  if (W->outcome == OUT_NONE) {
    W->outcome = outcome;
    W->outcome_rank = sim_rank;
    W->outcome_code = code;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(W->msg, sizeof W->msg, fmt, ap);
    va_end(ap);
  }
  syscall(SYS_exit_group, 77);
  __builtin_unreachable();
}

void *sim_alloc(size_t n) {
  int c = 6;
  while (((size_t)1 << c) < n) c++;
  if (W->freel[c]) {
    void *p = W->freel[c];
    W->freel[c] = *(void **)p;
    return p;
  }
  size_t sz = (size_t)1 << c;
  if (W->brk + sz > W->size) sim_die(OUT_INTERNAL, 0, "simulator heap exhausted");
  void *p = W->base + W->brk;
  W->brk += sz;
  return p;
}
void sim_free(void *p, size_t n) {
  if (!p) return;
  int c = 6;
  while (((size_t)1 << c) < n) c++;
  *(void **)p = W->freel[c];
  W->freel[c] = p;
}

// A choice among n options; option 0 is the benign default.
int sim_choose(int n, int kind, double p) {
  if (n <= 1) return 0;
  W->ch_count[kind]++;
  int c = 0;
  if (W->P.replay) {
    if (W->ndec < W->nin) c = W->decin[W->ndec];
    if (c >= n) c = 0;
  } else {
    double u = (rng_next(&W->rng) >> 11) * (1.0 / 9007199254740992.0);
    uint64_t v = rng_next(&W->rng);
    if (u < p) c = 1 + (int)(v % (uint64_t)(n - 1));
  }
  if (W->ndec < SIM_MAXDEC) W->dec[W->ndec] = (uint16_t)c;
  W->ndec++;
  if (c) {
    W->nonzero++;
    W->ch_nonzero[kind]++;
  }
  uint32_t h[2] = {(uint32_t)kind, (uint32_t)c};
  sim_hash(h, sizeof h);
  return c;
}

SimFault *sim_fault_at(int kind, int64_t n, int64_t a) {
  for (int i = 0; i < W->P.nfault; i++) {
    SimFault *f = &W->P.fault[i];
    if (f->kind == kind && f->n == n && (f->rank < 0 || f->rank == sim_rank) && !f->fired) {
      (void)a;
      f->fired = 1;
      W->fired[kind]++;
      return f;
    }
  }
  return NULL;
}

uint64_t sim_now(void) { return W->vtime; }

static int stalled(int r) {
  for (int i = 0; i < W->P.nfault; i++) {
    SimFault *f = &W->P.fault[i];
    if (f->kind == F_STALL && f->rank == r && W->step >= (uint64_t)f->n && W->step < (uint64_t)(f->n + f->b)) {
      if (!f->fired) {
        f->fired = 1;
        W->fired[F_STALL]++;
      }
      return 1;
    }
  }
  return 0;
}

static void deadlock(void) {
  char b[1800];
  int o = 0;
  int anyexit = 0;
  for (int i = 0; i < W->P.nranks; i++) {
    o += snprintf(b + o, sizeof b - o, "[rank %d %s: %s] ", i, W->r[i].state == ST_EXITED ? "exited" : "blocked", W->r[i].what);
    if (W->r[i].state == ST_EXITED) anyexit = 1;
  }
  sim_die(anyexit ? OUT_EXIT : OUT_DEADLOCK, 0, "no rank can make progress: %s", b);
}

// pick the next rank to run; cur may be not runnable
static int pick(int cur) {
  for (;;) {
    int cand[SIM_MAXR], n = 0;
    int N = W->P.nranks;
    for (int k = 0; k < N; k++) {
      int i = (cur + k) % N;
      if (W->r[i].state == ST_BLOCKED && W->r[i].wake && W->r[i].wake <= W->vtime) {
        W->r[i].state = ST_RUN;
        W->r[i].wake = 0;
      }
      if (W->r[i].state == ST_RUN) cand[n++] = i;
    }
    if (n == 0) {
      uint64_t best = 0;
      for (int i = 0; i < N; i++)
        if (W->r[i].state == ST_BLOCKED && W->r[i].wake && (!best || W->r[i].wake < best)) best = W->r[i].wake;
      if (!best) return -1;
      W->vtime = best;
      continue;
    }
    int c2[SIM_MAXR], n2 = 0;
    for (int i = 0; i < n; i++)
      if (!stalled(cand[i])) c2[n2++] = cand[i];
    if (n2 == 0) {
      memcpy(c2, cand, sizeof cand);
      n2 = n;
    }
    int c;
    if (W->P.prio_mode == 1 && !W->P.replay && n2 > 1) {
      // highest priority runs; occasional priority changes
      int best = 0;
      for (int i = 1; i < n2; i++)
        if (W->r[c2[i]].prio > W->r[c2[best]].prio) best = i;
      double u = (rng_next(&W->rng) >> 11) * (1.0 / 9007199254740992.0);
      uint64_t v = rng_next(&W->rng);
      if (u < W->P.p_switch * 0.1) W->r[c2[best]].prio = (int)(v & 0xffff);
      c = best;
      W->ch_count[CH_SCHED]++;
      if (W->ndec < SIM_MAXDEC) W->dec[W->ndec] = (uint16_t)c;
      W->ndec++;
      if (c) {
        W->nonzero++;
        W->ch_nonzero[CH_SCHED]++;
      }
      uint32_t h[2] = {CH_SCHED, (uint32_t)c};
      sim_hash(h, sizeof h);
    } else
      c = sim_choose(n2, CH_SCHED, W->P.p_switch);
    return c2[c];
  }
}

static void note_switch(int from, int to, const char *what) {
  W->switches++;
  uint64_t h = W->ilhash;
  h = (h ^ (uint64_t)(from * 16 + to + 1)) * 1099511628211ull;
  for (const char *c = what; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ull;
  W->ilhash = h;
}

static void tick(void) {
  W->step++;
  W->vtime += 1000;
  if (W->step > W->P.max_steps) {
    char b[1800];
    int o = 0;
    for (int i = 0; i < W->P.nranks; i++)
      o += snprintf(b + o, sizeof b - o, "[rank %d state %d: %s] ", i, W->r[i].state, W->r[i].what);
    sim_die(OUT_BUDGET, 0, "step budget exhausted: %s", b);
  }
  for (int i = 0; i < W->P.nfault; i++) {
    SimFault *f = &W->P.fault[i];
    if (f->fired) continue;
    if (f->kind == F_CRASH && W->step >= (uint64_t)f->n) {
      f->fired = 1;
      W->fired[F_CRASH]++;
      sim_die(OUT_CRASHFAULT, 0, "injected crash at step %ld", (long)f->n);
    }
    if (f->kind == F_CLOCK && W->step >= (uint64_t)f->n) {
      f->fired = 1;
      W->fired[F_CLOCK]++;
      for (int k = 0; k < W->P.nranks; k++)
        if (f->rank < 0 || f->rank == k) W->clockoff[k] += f->b;
    }
  }
}

void sim_sched(const char *what) {
  tick();
  snprintf(W->r[sim_rank].what, sizeof W->r[0].what, "%s", what);
  int nx = pick(sim_rank);
  if (nx == sim_rank) return;
  note_switch(sim_rank, nx, what);
  handoff(nx);
  await_token();
}

void sim_block(const char *what, uint64_t wake) {
  tick();
  W->nblocked++;
  snprintf(W->r[sim_rank].what, sizeof W->r[0].what, "%s", what);
  W->r[sim_rank].state = ST_BLOCKED;
  W->r[sim_rank].wake = wake;
  int nx = pick((sim_rank + 1) % W->P.nranks);
  if (nx < 0) deadlock();
  if (nx == sim_rank) return;
  note_switch(sim_rank, nx, what);
  handoff(nx);
  await_token();
}

void sim_wake(int r) {
  if (W->r[r].state == ST_BLOCKED) {
    W->r[r].state = ST_RUN;
    W->r[r].wake = 0;
  }
}
void sim_wake_at(int r, uint64_t t) {
  if (W->r[r].state == ST_BLOCKED && (!W->r[r].wake || W->r[r].wake > t)) W->r[r].wake = t;
}

void sim_rank_start(int rank) {
  sim_rank = rank;
  await_token();
}

void sim_rank_end(int rc) {
  W->r[sim_rank].state = ST_EXITED;
  W->r[sim_rank].done = 1;
  W->r[sim_rank].rc = rc;
  int left = 0;
  for (int i = 0; i < W->P.nranks; i++)
    if (W->r[i].state != ST_EXITED) left = 1;
  if (left) {
    int nx = pick((sim_rank + 1) % W->P.nranks);
    if (nx < 0) deadlock();
    note_switch(sim_rank, nx, "end");
    handoff(nx);
  }
  syscall(SYS_exit_group, 0);
  __builtin_unreachable();
}

void sim_obs(const char *key, char type, const void *v, size_t count, size_t elt) {
  size_t kl = strlen(key);
  size_t need = 16 + kl + count * elt;
  if (W->obs_len + need > W->obs_cap) sim_die(OUT_INTERNAL, 0, "observation buffer full");
  char *p = W->obs + W->obs_len;
  uint32_t h[4] = {(uint32_t)kl, (uint32_t)count, (uint32_t)(unsigned char)type, (uint32_t)sim_rank};
  memcpy(p, h, 16);
  memcpy(p + 16, key, kl);
  memcpy(p + 16 + kl, v, count * elt);
  W->obs_len += need;
  sim_hash(p, need);
}
void sim_obs_d(const char *key, const double *v, size_t n) { sim_obs(key, 'd', v, n, 8); }
void sim_obs_i(const char *key, const int *v, size_t n) { sim_obs(key, 'i', v, n, 4); }
void sim_obs_s(const char *key, const char *s) { sim_obs(key, 's', s, strlen(s), 1); }

// exit() inside a rank: no exit handlers of the parent (see pin_guards in simrun.c)
void exit(int code) {
  if (!W || sim_rank < 0) {
    static void (*real)(int);
    extern void *dlsym(void *, const char *);
    if (!real) real = (void (*)(int))dlsym((void *)-1l, "exit");
    real(code);
  }
  fflush(NULL);
  syscall(SYS_exit_group, code);
  __builtin_unreachable();
}
