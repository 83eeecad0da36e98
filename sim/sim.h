// Deterministic MPI/disk/clock simulator: shared definitions.
#ifndef SIM_H
#define SIM_H
#include <stddef.h>
#include <stdint.h>
#include <sys/types.h>

#define SIM_MAXR 8
#define SIM_MAXFAULT 64
#define SIM_MAXDEC (8u << 20)

enum { ST_RUN = 0, ST_BLOCKED = 1, ST_EXITED = 2 };

// outcomes
enum {
  OUT_NONE = 0,
  OUT_DEADLOCK = 1,   // no rank can make progress
  OUT_BUDGET = 2,     // step budget exhausted (livelock)
  OUT_CRASHFAULT = 3, // injected crash
  OUT_ABORT = 4,      // MPI_Abort called
  OUT_MISUSE = 5,     // illegal use of MPI (mismatched collectives, ...)
  OUT_SIGNAL = 6,     // a rank died from a signal
  OUT_EXIT = 7,       // a rank exited without finishing while others continued
  OUT_INTERNAL = 8    // simulator limitation / internal error
};

// choice kinds (for statistics)
enum { CH_SCHED, CH_DELAY, CH_SYNC, CH_ANYSRC, CH_WAITANY, CH_COLLSYNC, CH_NKIND };

// I/O op classes
enum { IO_OPEN, IO_READ, IO_WRITE, IO_CLOSE, IO_SYNC, IO_TRUNC, IO_UNLINK, IO_RENAME, IO_NCLASS };

// fault kinds
enum {
  F_NONE = 0,
  F_IO_EIO,     // n-th op of class `cls` fails with EIO (once)
  F_IO_ENOSPC,  // from the n-th byte written on, the disk is full
  F_IO_SHORT,   // n-th op of class is short (partial)
  F_IO_TORN,    // n-th write lands partially, then EIO
  F_CRASH,      // kill everything at step n
  F_STALL,      // rank `a` not scheduled during steps [n, n+b) unless alone
  F_CLOCK,      // at step n, the clock of rank a (-1: all) jumps by b microseconds
  F_ALLOC,      // n-th TDycore allocation on rank a (-1 any) fails
  F_SNES,       // n-th nonlinear solve is made to fail (a = iterations allowed, b = mode)
  F_IO_CRASH,   // crash at n-th I/O op of class (before executing; b = bytes of it landing)
  F_NKIND
};

typedef struct {
  int kind, cls, rank, fired;
  int64_t n, a, b;
} SimFault;

typedef struct {
  int nranks;
  uint64_t seed;
  uint64_t max_steps;
  double p_switch;    // probability of a preemption at a scheduling point
  double p_delay;     // probability a message is delayed
  uint64_t max_delay; // ns
  double p_sync;      // probability a blocking send is synchronous
  double p_collsync;  // probability a collective synchronises all
  double p_any;       // probability of a non-default completion/matching order
  int prio_mode;      // 0 uniform choice, 1 priority (PCT-like)
  int replay;         // use decision list instead of rng
  int log_io;         // keep a write log for crash images
  int perturb;        // malloc fill byte (0: none)
  int stackfill;
  int trace;
  int64_t clock_skew_us[SIM_MAXR];
  int nfault;
  SimFault fault[SIM_MAXFAULT];
  char scratch[512];
} SimParams;

typedef struct {
  int state;
  uint64_t wake;
  int futex;
  int prio;
  int initialized, finalized;
  int done; // driver returned
  int rc;
  char what[160];
} SimRank;

typedef struct {
  uint32_t op;
  uint32_t cls;
  int rank;
  int64_t off, len;
  char path[120];
  char path2[120];
  char *data;
  void *next;
} SimLog;

typedef struct {
  SimParams P;
  volatile int token;
  uint64_t rng;
  uint64_t vtime, step;
  uint64_t hash;      // everything
  uint64_t ilhash;    // interleaving only
  int outcome, outcome_rank, outcome_code;
  char msg[2048];
  SimRank r[SIM_MAXR];
  uint32_t ndec, nin;
  uint64_t nonzero;
  uint64_t ch_count[CH_NKIND], ch_nonzero[CH_NKIND];
  uint64_t switches, nmsg, ncoll, nblocked;
  uint64_t io_count[IO_NCLASS];
  uint64_t io_bytes;
  uint64_t alloc_count, solve_count;
  int disk_full;
  uint64_t fired[F_NKIND];
  int64_t clockoff[SIM_MAXR];
  int next_cid;
  SimLog *log_head, *log_tail;
  // heap
  char *base;
  size_t size, brk;
  void *freel[40];
  // obs buffer
  char *obs;
  size_t obs_len, obs_cap;
  uint16_t *dec;   // recorded decisions
  uint16_t *decin; // replay input
  void *comms[4096];
  void *inbox_head[SIM_MAXR], *inbox_tail[SIM_MAXR];
  uint64_t chan_visible[SIM_MAXR][SIM_MAXR];
  int leftover_msgs;
} SimWorld;

extern SimWorld *W;
extern int sim_rank; // world rank of this process, -1 in the parent

#ifdef __cplusplus
extern "C" {
#endif
SimWorld *sim_world_create(const SimParams *P, const uint16_t *decin, uint32_t nin);
void sim_world_destroy(SimWorld *w);
void sim_rank_start(int rank);
void sim_rank_end(int rc) __attribute__((noreturn));
void sim_die(int outcome, int code, const char *fmt, ...) __attribute__((noreturn, format(printf, 3, 4)));
void *sim_alloc(size_t n);
void sim_free(void *p, size_t n);
int sim_choose(int n, int kind, double p);
void sim_sched(const char *what);                         // preemption point
void sim_block(const char *what, uint64_t wake);          // give up the token
void sim_wake(int rank);
void sim_wake_at(int rank, uint64_t t);
void sim_hash(const void *p, size_t n);
void sim_obs(const char *key, char type, const void *v, size_t count, size_t eltsize);
void sim_obs_d(const char *key, const double *v, size_t n);
void sim_obs_i(const char *key, const int *v, size_t n);
void sim_obs_s(const char *key, const char *s);
SimFault *sim_fault_at(int kind, int64_t n, int64_t a);
uint64_t sim_now(void);
// simulated disk
int sd_is_sim_path(const char *path);
int sd_open(const char *path, int flags, int mode);
ssize_t sd_pwrite(int fd, const void *buf, size_t n, off_t off);
ssize_t sd_pread(int fd, void *buf, size_t n, off_t off);
int sd_close(int fd);
int sd_fsync(int fd);
int sd_ftruncate(int fd, off_t len);
off_t sd_size(int fd);
#ifdef __cplusplus
}
#endif
#endif
