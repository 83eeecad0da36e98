// simrun: runs scenarios under the simulator.
//   simrun [-c cpu]            server mode: one "<scenario-file> <result-file>" pair per stdin line
//   simrun [-c cpu] S R        run one scenario
// A scenario file is line oriented (see driver.c for the workload operations).
#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

extern int driver_main(int rank, int argc, char **argv, int nop, char **ops);
extern void driver_set_seams(const SimParams *P);

typedef struct {
  SimParams P;
  int argc;
  char *argv[512];
  int nop;
  char *ops[1024];
  uint16_t *dec;
  uint32_t ndec;
  int cpu_limit;
  int dump_dec, dump_log;
} Scen;

static const char *fkname[] = {"none", "io_eio", "io_enospc", "io_short", "io_torn", "crash", "stall", "clock", "alloc", "snes", "io_crash"};
static const char *iocname[] = {"open", "read", "write", "close", "sync", "trunc", "unlink", "rename"};

static int parse(const char *file, Scen *s) {
  FILE *f = fopen(file, "r");
  if (!f) return 1;
  memset(s, 0, sizeof *s);
  SimParams *P = &s->P;
  P->nranks = 1;
  P->max_steps = 2000000;
  s->cpu_limit = 120;
  s->argv[s->argc++] = strdup("simrun");
  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline(&line, &cap, f)) > 0) {
    while (n && (line[n - 1] == '\n' || line[n - 1] == ' ')) line[--n] = 0;
    if (!n || line[0] == '#') continue;
    char *v = strchr(line, ' ');
    if (v)
      *v++ = 0;
    else
      v = line + n;
    if (!strcmp(line, "nranks")) P->nranks = atoi(v);
    else if (!strcmp(line, "seed")) P->seed = strtoull(v, NULL, 0);
    else if (!strcmp(line, "max_steps")) P->max_steps = strtoull(v, NULL, 0);
    else if (!strcmp(line, "p_switch")) P->p_switch = atof(v);
    else if (!strcmp(line, "p_delay")) P->p_delay = atof(v);
    else if (!strcmp(line, "max_delay")) P->max_delay = strtoull(v, NULL, 0);
    else if (!strcmp(line, "p_sync")) P->p_sync = atof(v);
    else if (!strcmp(line, "p_collsync")) P->p_collsync = atof(v);
    else if (!strcmp(line, "p_any")) P->p_any = atof(v);
    else if (!strcmp(line, "prio_mode")) P->prio_mode = atoi(v);
    else if (!strcmp(line, "log_io")) P->log_io = atoi(v);
    else if (!strcmp(line, "perturb")) P->perturb = atoi(v);
    else if (!strcmp(line, "stackfill")) P->stackfill = atoi(v);
    else if (!strcmp(line, "trace")) P->trace = atoi(v);
    else if (!strcmp(line, "cpu_limit")) s->cpu_limit = atoi(v);
    else if (!strcmp(line, "dump_dec")) s->dump_dec = atoi(v);
    else if (!strcmp(line, "dump_log")) s->dump_log = atoi(v), P->log_io = 1;
    else if (!strcmp(line, "scratch")) snprintf(P->scratch, sizeof P->scratch, "%s", v);
    else if (!strcmp(line, "skew")) {
      int r;
      long u;
      if (sscanf(v, "%d %ld", &r, &u) == 2 && r >= 0 && r < SIM_MAXR) P->clock_skew_us[r] = u;
    } else if (!strcmp(line, "decisions")) {
      P->replay = 1;
      // run-length: "idx:val" of non-zero decisions
      s->dec = calloc(SIM_MAXDEC, 2);
      char *t = strtok(v, " ");
      while (t) {
        unsigned long i = strtoul(t, NULL, 10);
        char *c = strchr(t, ':');
        if (c && i < SIM_MAXDEC) {
          s->dec[i] = (uint16_t)atoi(c + 1);
          if (i + 1 > s->ndec) s->ndec = i + 1;
        }
        t = strtok(NULL, " ");
      }
    } else if (!strcmp(line, "fault")) {
      char k[32], c[32];
      long r, nn, a, b;
      if (sscanf(v, "%31s %31s %ld %ld %ld %ld", k, c, &r, &nn, &a, &b) == 6 && P->nfault < SIM_MAXFAULT) {
        SimFault *F = &P->fault[P->nfault++];
        for (int i = 0; i < F_NKIND; i++)
          if (!strcmp(k, fkname[i])) F->kind = i;
        F->cls = -1;
        for (int i = 0; i < IO_NCLASS; i++)
          if (!strcmp(c, iocname[i])) F->cls = i;
        F->rank = r;
        F->n = nn;
        F->a = a;
        F->b = b;
      } else {
        fprintf(stderr, "bad fault line: %s\n", v);
        return 1;
      }
    } else if (!strcmp(line, "opt")) {
      char *t = strtok(v, " ");
      while (t && s->argc < 510) {
        s->argv[s->argc++] = strdup(t);
        t = strtok(NULL, " ");
      }
    } else if (!strcmp(line, "op")) {
      if (s->nop < 1024) s->ops[s->nop++] = strdup(v);
    } else {
      fprintf(stderr, "unknown scenario key %s\n", line);
      return 1;
    }
  }
  free(line);
  fclose(f);
  if (P->nranks < 1 || P->nranks > SIM_MAXR || !P->scratch[0]) return 1;
  return 0;
}

static void free_scen(Scen *s) {
  for (int i = 0; i < s->argc; i++) free(s->argv[i]);
  for (int i = 0; i < s->nop; i++) free(s->ops[i]);
  free(s->dec);
}

static void paint_stack(int v) {
  volatile char buf[768 * 1024];
  memset((char *)buf, v, sizeof buf);
  __asm__ volatile("" ::"r"(buf) : "memory");
}

// Values a program can only see by reading uninitialised memory (the stack
// protector's canary, glibc's pointer guard) are random per process: pin them.
// Ranks never return from child() nor run the parent's exit handlers.
__attribute__((noinline, optimize("no-stack-protector"))) static void pin_guards(void) {
#ifdef __x86_64__
  __asm__ volatile("movq %0, %%fs:0x28\n\tmovq %1, %%fs:0x30" ::"r"(0x5a17c0de5a17c000ul), "r"(0x1badb0021badb002ul) : "memory");
#endif
}

__attribute__((optimize("no-stack-protector"))) static void child(Scen *s, int rank) {
  pin_guards();
  struct rlimit rl = {s->cpu_limit, s->cpu_limit + 5};
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  char p[700];
  snprintf(p, sizeof p, "%s.log.%d", s->P.scratch, rank);
  int fd = open(p, O_CREAT | O_WRONLY | O_TRUNC, 0644);
  dup2(fd, 1);
  dup2(fd, 2);
  if (fd > 2) close(fd);
  int nul = open("/dev/null", O_RDONLY);
  dup2(nul, 0);
  if (nul > 2) close(nul);
  if (chdir(s->P.scratch)) _exit(3);
  setenv("HOME", "/sim", 1);
  setenv("PWD", "/sim", 1);
  if (s->P.perturb) mallopt(M_PERTURB, s->P.perturb);
  if (s->P.stackfill) paint_stack(s->P.stackfill);
  sim_rank_start(rank);
  int rc = driver_main(rank, s->argc, s->argv, s->nop, s->ops);
  fflush(stdout);
  fflush(stderr);
  sim_rank_end(rc);
}

static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\')
      fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126)
      fprintf(f, "\\u%04x", c);
    else
      fputc(c, f);
  }
  fputc('"', f);
}

static int run_one(const char *sf, const char *rf) {
  Scen *s = calloc(1, sizeof *s);
  if (parse(sf, s)) {
    fprintf(stderr, "cannot parse %s\n", sf);
    return 1;
  }
  W = sim_world_create(&s->P, s->dec, s->ndec);
  if (!W) {
    fprintf(stderr, "world: %s\n", strerror(errno));
    return 1;
  }
  int N = s->P.nranks;
  pid_t pid[SIM_MAXR];
  driver_set_seams(&s->P);
  fflush(NULL);
  for (int i = 0; i < N; i++) {
    pid[i] = fork();
    if (pid[i] < 0) {
      for (int k = 0; k < i; k++) kill(pid[k], SIGKILL);
      fprintf(stderr, "fork: %s\n", strerror(errno));
      return 1;
    }
    if (pid[i] == 0) {
      signal(SIGINT, SIG_IGN);
      child(s, i);
      _exit(0);
    }
  }
  // rank 0 gets the token
  W->token = 0;
  __atomic_add_fetch(&W->r[0].futex, 1, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, &W->r[0].futex, 1 /*FUTEX_WAKE*/, 1, NULL, NULL, 0);
  int left = N;
  int killed = 0;
  while (left) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    int r = -1;
    for (int i = 0; i < N; i++)
      if (pid[i] == p) r = i;
    if (r < 0) continue;
    pid[r] = 0;
    left--;
    if (!killed) {
      int bad = 0;
      if (W->outcome != OUT_NONE) bad = 1;
      else if (WIFSIGNALED(st)) {
        bad = 1;
        W->outcome = WTERMSIG(st) == SIGXCPU || (WTERMSIG(st) == SIGKILL) ? OUT_BUDGET : OUT_SIGNAL;
        W->outcome_rank = r;
        W->outcome_code = WTERMSIG(st);
        snprintf(W->msg, sizeof W->msg, "rank %d died of signal %d (%s)", r, WTERMSIG(st), strsignal(WTERMSIG(st)));
      } else if (W->r[r].state != ST_EXITED) {
        bad = 1;
        W->outcome = OUT_EXIT;
        W->outcome_rank = r;
        W->outcome_code = WEXITSTATUS(st);
        snprintf(W->msg, sizeof W->msg, "rank %d exited with status %d in mid-run", r, WEXITSTATUS(st));
      }
      if (bad) {
        killed = 1;
        for (int i = 0; i < N; i++)
          if (pid[i]) kill(pid[i], SIGKILL);
      }
    }
  }
  // result
  FILE *f = fopen(rf, "w");
  if (!f) return 1;
  fprintf(f, "{\"outcome\":%d,\"rank\":%d,\"code\":%d,\"msg\":", W->outcome, W->outcome_rank, W->outcome_code);
  jstr(f, W->msg);
  fprintf(f, ",\"hash\":\"%016lx\",\"ilhash\":\"%016lx\",\"steps\":%lu,\"vtime\":%.9f,\"ndec\":%u,\"nonzero\":%lu,\"switches\":%lu,\"nmsg\":%lu,\"ncoll\":%lu,\"nblocked\":%lu,\"leftover\":%d", W->hash, W->ilhash, W->step,
          (W->vtime - 1700000000ull * 1000000000ull) * 1e-9, W->ndec, W->nonzero, W->switches, W->nmsg, W->ncoll, W->nblocked, W->leftover_msgs);
  fprintf(f, ",\"io_bytes\":%lu,\"allocs\":%lu,\"solves\":%lu,\"io\":{", W->io_bytes, W->alloc_count, W->solve_count);
  for (int i = 0; i < IO_NCLASS; i++) fprintf(f, "%s\"%s\":%lu", i ? "," : "", iocname[i], W->io_count[i]);
  fprintf(f, "},\"fired\":{");
  for (int i = 1; i < F_NKIND; i++) fprintf(f, "%s\"%s\":%lu", i > 1 ? "," : "", fkname[i], W->fired[i]);
  fprintf(f, "},\"rc\":[");
  for (int i = 0; i < N; i++) fprintf(f, "%s%d", i ? "," : "", W->r[i].rc);
  fprintf(f, "],\"done\":[");
  for (int i = 0; i < N; i++) fprintf(f, "%s%d", i ? "," : "", W->r[i].done);
  fprintf(f, "],\"what\":[");
  for (int i = 0; i < N; i++) {
    if (i) fputc(',', f);
    jstr(f, W->r[i].what);
  }
  fprintf(f, "],\"choices\":[");
  for (int i = 0; i < CH_NKIND; i++) fprintf(f, "%s[%lu,%lu]", i ? "," : "", W->ch_count[i], W->ch_nonzero[i]);
  fprintf(f, "],\"obs_len\":%zu", W->obs_len);
  if (s->dump_dec) {
    fprintf(f, ",\"dec\":\"");
    uint32_t m = W->ndec < SIM_MAXDEC ? W->ndec : SIM_MAXDEC;
    int first = 1;
    for (uint32_t i = 0; i < m; i++)
      if (W->dec[i]) {
        fprintf(f, "%s%u:%u", first ? "" : " ", i, W->dec[i]);
        first = 0;
      }
    fprintf(f, "\"");
  }
  fprintf(f, "}\n");
  fwrite(W->obs, 1, W->obs_len, f);
  fclose(f);
  if (s->dump_log) {
    char p[1100];
    snprintf(p, sizeof p, "%s.iolog", rf);
    f = fopen(p, "w");
    if (f) {
      for (SimLog *l = W->log_head; l; l = l->next) {
        int64_t dl = l->data ? l->len : 0;
        fprintf(f, "%u %u %d %ld %ld %ld %s %s\n", l->op, l->cls, l->rank, (long)l->off, (long)l->len, (long)dl, l->path[0] ? l->path : "-", l->path2[0] ? l->path2 : "-");
        if (dl) fwrite(l->data, 1, dl, f);
        fputc('\n', f);
      }
      fclose(f);
    }
  }
  sim_world_destroy(W);
  W = NULL;
  free_scen(s);
  free(s);
  return 0;
}

int main(int argc, char **argv) {
  if (!getenv("SIMRUN_NOASLR_TRIED")) {
    setenv("SIMRUN_NOASLR_TRIED", "1", 1);
    // the simulated libmpi must win for every library, and addresses must repeat
    char exe[1000], lp[1100];
    ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
    if (k > 0) {
      exe[k] = 0;
      *strrchr(exe, '/') = 0;
      char *sl = strrchr(exe, '/');
      if (sl) *sl = 0;
      snprintf(lp, sizeof lp, "%s/mpi", exe);
      setenv("LD_LIBRARY_PATH", lp, 1);
    }
    setenv("OMP_NUM_THREADS", "1", 1);
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1) personality(p | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  unsetenv("PETSC_OPTIONS");
  int a = 1;
  if (a + 1 < argc && !strcmp(argv[a], "-c")) {
    cpu_set_t cs;
    CPU_ZERO(&cs);
    CPU_SET(atoi(argv[a + 1]), &cs);
    sched_setaffinity(0, sizeof cs, &cs);
    a += 2;
  }
  if (a + 1 < argc) return run_one(argv[a], argv[a + 1]);
  char *line = NULL;
  size_t cap = 0;
  ssize_t n;
  while ((n = getline(&line, &cap, stdin)) > 0) {
    while (n && (line[n - 1] == '\n')) line[--n] = 0;
    char *sp = strchr(line, ' ');
    if (!sp) continue;
    *sp = 0;
    // a fresh process per execution: addresses do not depend on earlier executions
    int rc = 1, st = 0;
    pid_t c = fork();
    if (c == 0) {
      rc = run_one(line, sp + 1);
      _exit(rc);
    }
    if (c > 0 && waitpid(c, &st, 0) == c && WIFEXITED(st)) rc = WEXITSTATUS(st);
    printf("%d\n", rc);
    fflush(stdout);
  }
  return 0;
}
