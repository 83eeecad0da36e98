// A simulated MPI with Open MPI's ABI. Every rank is a process; exactly one
// runs at a time (see simcore.c), so nothing here needs locks.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <mpi.h>
#include "sim.h"
#include <assert.h>
#include <complex.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#define UNSUP(name) sim_die(OUT_INTERNAL, 0, "unsupported MPI feature: %s", name)

// ------------------------------------------------------------------ objects
struct ompi_group_t {
  int n;
  int *w;
};
typedef struct Attr {
  int key;
  void *val;
  struct Attr *next;
} Attr;
struct ompi_errhandler_t {
  MPI_Comm_errhandler_function *fn;
  int builtin;
};
struct ompi_communicator_t {
  int cid, rank, size;
  int *w; // comm rank -> world rank
  Attr *attrs;
  MPI_Errhandler eh;
  char name[MPI_MAX_OBJECT_NAME];
  uint32_t seq;
  int freed;
  int hdf5; // made by HDF5 for itself
};
typedef struct {
  int64_t disp, n;
  int b;
} Seg;
struct ompi_datatype_t {
  int nseg;
  Seg *seg;
  int64_t size, lb, ub, tlb, tub; // extent = ub-lb
  int basic;                      // >=0 for a named type
  int comb, ni, na, nd;
  int *ints;
  MPI_Aint *addrs;
  MPI_Datatype *types;
  int contig; // one segment at 0, size==extent
  int refs;
};
struct ompi_op_t {
  int id; // builtin id, or -1
  MPI_User_function *fn;
  int commute;
};
struct ompi_info_t {
  int n;
  char *k[64], *v[64];
};
struct ompi_win_t {
  int dummy;
};
struct ompi_message_t {
  int dummy;
};
struct ompi_file_t {
  int fd;
  MPI_Comm comm;
  int64_t disp;
  MPI_Datatype etype, ftype;
  int amode, atomic;
  int64_t pos;
  char path[512];
};

struct ompi_predefined_communicator_t { struct ompi_communicator_t c; char pad[512]; };
struct ompi_predefined_group_t { struct ompi_group_t g; char pad[512]; };
struct ompi_predefined_datatype_t { struct ompi_datatype_t d; char pad[512]; };
struct ompi_predefined_op_t { struct ompi_op_t o; char pad[512]; };
struct ompi_predefined_errhandler_t { struct ompi_errhandler_t e; char pad[512]; };
struct ompi_predefined_info_t { struct ompi_info_t i; char pad[512]; };
struct ompi_predefined_file_t { struct ompi_file_t f; char pad[512]; };
struct ompi_predefined_win_t { struct ompi_win_t w; char pad[512]; };
struct ompi_predefined_message_t { struct ompi_message_t m; char pad[512]; };

struct ompi_predefined_communicator_t ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
struct ompi_predefined_group_t ompi_mpi_group_empty, ompi_mpi_group_null;
struct ompi_predefined_errhandler_t ompi_mpi_errors_are_fatal, ompi_mpi_errors_return, ompi_mpi_errhandler_null;
struct ompi_predefined_info_t ompi_mpi_info_null, ompi_mpi_info_env;
struct ompi_predefined_file_t ompi_mpi_file_null;
struct ompi_predefined_win_t ompi_mpi_win_null;
struct ompi_predefined_message_t ompi_message_null, ompi_message_no_proc;
MPI_Fint *MPI_F_STATUS_IGNORE, *MPI_F_STATUSES_IGNORE;

enum { B_CHAR, B_SCHAR, B_UCHAR, B_BYTE, B_SHORT, B_USHORT, B_INT, B_UINT, B_LONG, B_ULONG, B_LL, B_ULL, B_FLOAT, B_DOUBLE, B_LDOUBLE,
       B_CBOOL, B_I8, B_U8, B_I16, B_U16, B_I32, B_U32, B_I64, B_U64, B_CDBL, B_CFLT, B_DBLINT, B_2INT, B_FLTINT, B_LONGINT, B_2DBL, B_N };
static const int bsize[B_N] = {1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 1, 1, 2, 2, 4, 4, 8, 8, 16, 8, 12, 8, 8, 12, 16};
static const int bext[B_N] = {1, 1, 1, 1, 2, 2, 4, 4, 8, 8, 8, 8, 4, 8, 16, 1, 1, 1, 2, 2, 4, 4, 8, 8, 16, 8, 16, 8, 8, 16, 16};

#define PDT(x) struct ompi_predefined_datatype_t ompi_mpi_##x
PDT(byte); PDT(char); PDT(c_bool); PDT(double); PDT(float); PDT(int); PDT(long); PDT(long_double); PDT(long_long_int); PDT(short);
PDT(signed_char); PDT(unsigned); PDT(unsigned_char); PDT(unsigned_long); PDT(unsigned_long_long); PDT(unsigned_short);
PDT(int8_t); PDT(uint8_t); PDT(int16_t); PDT(uint16_t); PDT(int32_t); PDT(uint32_t); PDT(int64_t); PDT(uint64_t);
PDT(c_double_complex); PDT(c_complex); PDT(complex16); PDT(dblcplex); PDT(cplex); PDT(double_int); PDT(2int); PDT(float_int); PDT(long_int);
PDT(2dblprec); PDT(dblprec); PDT(integer); PDT(integer4); PDT(integer8); PDT(real); PDT(real8); PDT(logical); PDT(character); PDT(packed);
PDT(aint); PDT(offset); PDT(count); PDT(datatype_null); PDT(wchar);
#define POP(x) struct ompi_predefined_op_t ompi_mpi_op_##x
POP(null); POP(max); POP(min); POP(sum); POP(prod); POP(land); POP(band); POP(lor); POP(bor); POP(lxor); POP(bxor); POP(maxloc); POP(minloc); POP(replace); POP(no_op);
enum { O_NULL, O_MAX, O_MIN, O_SUM, O_PROD, O_LAND, O_BAND, O_LOR, O_BOR, O_LXOR, O_BXOR, O_MAXLOC, O_MINLOC, O_REPLACE, O_NOOP };

static void defdt(struct ompi_predefined_datatype_t *p, int b) {
  struct ompi_datatype_t *d = &p->d;
  memset(d, 0, sizeof *d);
  d->nseg = 1;
  d->seg = malloc(sizeof(Seg));
  d->seg[0] = (Seg){0, 1, b};
  d->size = bsize[b];
  d->lb = d->tlb = 0;
  d->ub = d->tub = bext[b];
  d->basic = b;
  d->comb = MPI_COMBINER_NAMED;
  d->contig = bsize[b] == bext[b];
  d->refs = 1;
}
static int tables_ready;
static void init_tables(void) {
  if (tables_ready) return;
  tables_ready = 1;
#define D(x, b) defdt(&ompi_mpi_##x, b)
  D(byte, B_BYTE); D(char, B_CHAR); D(c_bool, B_CBOOL); D(double, B_DOUBLE); D(float, B_FLOAT); D(int, B_INT); D(long, B_LONG);
  D(long_double, B_LDOUBLE); D(long_long_int, B_LL); D(short, B_SHORT); D(signed_char, B_SCHAR); D(unsigned, B_UINT); D(unsigned_char, B_UCHAR);
  D(unsigned_long, B_ULONG); D(unsigned_long_long, B_ULL); D(unsigned_short, B_USHORT);
  D(int8_t, B_I8); D(uint8_t, B_U8); D(int16_t, B_I16); D(uint16_t, B_U16); D(int32_t, B_I32); D(uint32_t, B_U32); D(int64_t, B_I64); D(uint64_t, B_U64);
  D(c_double_complex, B_CDBL); D(c_complex, B_CFLT); D(complex16, B_CDBL); D(dblcplex, B_CDBL); D(cplex, B_CFLT);
  D(double_int, B_DBLINT); D(2int, B_2INT); D(float_int, B_FLTINT); D(long_int, B_LONGINT); D(2dblprec, B_2DBL);
  D(dblprec, B_DOUBLE); D(integer, B_INT); D(integer4, B_INT); D(integer8, B_I64); D(real, B_FLOAT); D(real8, B_DOUBLE); D(logical, B_INT);
  D(character, B_CHAR); D(packed, B_BYTE); D(aint, B_LONG); D(offset, B_LL); D(count, B_LL); D(wchar, B_INT);
  memset(&ompi_mpi_datatype_null, 0, sizeof ompi_mpi_datatype_null);
  ompi_mpi_datatype_null.d.basic = -2;
#define P(x, i) ompi_mpi_op_##x.o = (struct ompi_op_t){i, NULL, 1}
  P(null, O_NULL); P(max, O_MAX); P(min, O_MIN); P(sum, O_SUM); P(prod, O_PROD); P(land, O_LAND); P(band, O_BAND); P(lor, O_LOR); P(bor, O_BOR);
  P(lxor, O_LXOR); P(bxor, O_BXOR); P(maxloc, O_MAXLOC); P(minloc, O_MINLOC); P(replace, O_REPLACE); P(no_op, O_NOOP);
  ompi_mpi_errors_are_fatal.e.builtin = 1;
  ompi_mpi_errors_return.e.builtin = 2;
}
__attribute__((constructor)) static void ctor(void) { init_tables(); }

#define CN(x) #x
static void mcall(const char *name) {
  if (!W || sim_rank < 0) return;
  sim_sched(name);
}

// ------------------------------------------------------------------ attributes / errhandlers
typedef struct {
  MPI_Comm_copy_attr_function *cp;
  MPI_Comm_delete_attr_function *del;
  void *extra;
  int used;
} Key;
static Key *keys;
static int nkeys;
int OMPI_C_MPI_COMM_NULL_COPY_FN(MPI_Comm c, int k, void *e, void *in, void *out, int *flag) {
  (void)c; (void)k; (void)e; (void)in; (void)out;
  *flag = 0;
  return 0;
}
int OMPI_C_MPI_COMM_DUP_FN(MPI_Comm c, int k, void *e, void *in, void *out, int *flag) {
  (void)c; (void)k; (void)e;
  *flag = 1;
  *(void **)out = in;
  return 0;
}
int OMPI_C_MPI_COMM_NULL_DELETE_FN(MPI_Comm c, int k, void *v, void *e) {
  (void)c; (void)k; (void)v; (void)e;
  return 0;
}
#define KEYBASE 100
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *cp, MPI_Comm_delete_attr_function *del, int *kv, void *extra) {
  keys = realloc(keys, sizeof(Key) * (nkeys + 1));
  keys[nkeys] = (Key){cp, del, extra, 1};
  *kv = KEYBASE + nkeys++;
  return 0;
}
int MPI_Comm_free_keyval(int *kv) {
  *kv = MPI_KEYVAL_INVALID;
  return 0;
}
int MPI_Comm_set_attr(MPI_Comm c, int kv, void *v) {
  for (Attr *a = c->attrs; a; a = a->next)
    if (a->key == kv) {
      Key *k = &keys[kv - KEYBASE];
      if (k->del) k->del(c, kv, a->val, k->extra);
      a->val = v;
      return 0;
    }
  Attr *a = malloc(sizeof *a);
  *a = (Attr){kv, v, c->attrs};
  c->attrs = a;
  return 0;
}
static int tag_ub = 0x7fffffff, v_host = MPI_PROC_NULL, v_io = MPI_ANY_SOURCE, v_one = 0;
int MPI_Comm_get_attr(MPI_Comm c, int kv, void *out, int *flag) {
  if (kv == MPI_TAG_UB) { *(void **)out = &tag_ub; *flag = 1; return 0; }
  if (kv == MPI_HOST) { *(void **)out = &v_host; *flag = 1; return 0; }
  if (kv == MPI_IO) { *(void **)out = &v_io; *flag = 1; return 0; }
  if (kv == MPI_WTIME_IS_GLOBAL) { *(void **)out = &v_one; *flag = 1; return 0; }
  *flag = 0;
  for (Attr *a = c->attrs; a; a = a->next)
    if (a->key == kv) {
      *(void **)out = a->val;
      *flag = 1;
      return 0;
    }
  return 0;
}
int MPI_Comm_delete_attr(MPI_Comm c, int kv) {
  for (Attr **p = &c->attrs; *p; p = &(*p)->next)
    if ((*p)->key == kv) {
      Attr *a = *p;
      *p = a->next;
      Key *k = &keys[kv - KEYBASE];
      int r = 0;
      if (k->del) r = k->del(c, kv, a->val, k->extra);
      free(a);
      return r;
    }
  return 0;
}
int MPI_Attr_get(MPI_Comm c, int k, void *o, int *f) { return MPI_Comm_get_attr(c, k, o, f); }
static void del_all_attrs(MPI_Comm c) {
  while (c->attrs) {
    Attr *a = c->attrs;
    c->attrs = a->next;
    Key *k = &keys[a->key - KEYBASE];
    if (k->del) k->del(c, a->key, a->val, k->extra);
    free(a);
  }
}
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function *fn, MPI_Errhandler *e) {
  *e = calloc(1, sizeof **e);
  (*e)->fn = fn;
  return 0;
}
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { c->eh = e; return 0; }
int MPI_Comm_get_errhandler(MPI_Comm c, MPI_Errhandler *e) { *e = c->eh ? c->eh : MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e = MPI_ERRHANDLER_NULL; return 0; }
int MPI_Comm_get_name(MPI_Comm c, char *n, int *l) { strcpy(n, c->name); *l = strlen(n); return 0; }
int MPI_Comm_set_name(MPI_Comm c, const char *n) { snprintf(c->name, sizeof c->name, "%s", n); return 0; }
int MPI_Add_error_class(int *c) { static int k = 200; *c = k++; return 0; }
int MPI_Add_error_code(int cl, int *c) { static int k = 400; (void)cl; *c = k++; return 0; }
int MPI_Add_error_string(int c, const char *s) { (void)c; (void)s; return 0; }
int MPI_Error_class(int c, int *k) { *k = c; return 0; }
int MPI_Error_string(int c, char *s, int *l) {
  sprintf(s, "simulated MPI error %d", c);
  *l = strlen(s);
  return 0;
}

// ------------------------------------------------------------------ datatypes
static struct ompi_datatype_t *newdt(int comb, int ni, int na, int nd) {
  struct ompi_datatype_t *d = calloc(1, sizeof *d);
  d->basic = -1;
  d->comb = comb;
  d->ni = ni;
  d->na = na;
  d->nd = nd;
  d->ints = ni ? calloc(ni, sizeof(int)) : NULL;
  d->addrs = na ? calloc(na, sizeof(MPI_Aint)) : NULL;
  d->types = nd ? calloc(nd, sizeof(MPI_Datatype)) : NULL;
  d->lb = d->tlb = INT64_MAX;
  d->ub = d->tub = INT64_MIN;
  d->refs = 1;
  return d;
}
static void addseg(struct ompi_datatype_t *d, int64_t disp, int64_t n, int b) {
  if (n == 0) return;
  if (d->nseg) {
    Seg *l = &d->seg[d->nseg - 1];
    if (l->b == b && bsize[b] == bext[b] && l->disp + l->n * bsize[b] == disp) {
      l->n += n;
      return;
    }
  }
  if ((d->nseg & (d->nseg - 1)) == 0) d->seg = realloc(d->seg, sizeof(Seg) * (d->nseg ? 2 * d->nseg : 1));
  d->seg[d->nseg++] = (Seg){disp, n, b};
}
static int64_t extent(MPI_Datatype t) { return t->ub - t->lb; }
static void append(struct ompi_datatype_t *d, MPI_Datatype t, int64_t disp, int64_t count) {
  if (count <= 0) return;
  int64_t ex = extent(t);
  for (int64_t i = 0; i < count; i++) {
    if (t->contig && t->nseg == 1) {
      addseg(d, disp, t->seg[0].n * count, t->seg[0].b);
      break;
    }
    for (int s = 0; s < t->nseg; s++) addseg(d, disp + i * ex + t->seg[s].disp, t->seg[s].n, t->seg[s].b);
  }
  int64_t last = disp + (count - 1) * ex;
#define MINV(a, b) if ((b) < (a)) (a) = (b)
#define MAXV(a, b) if ((b) > (a)) (a) = (b)
  MINV(d->lb, disp + t->lb); MINV(d->lb, last + t->lb);
  MAXV(d->ub, disp + t->ub); MAXV(d->ub, last + t->ub);
  if (t->size) {
    MINV(d->tlb, disp + t->tlb); MINV(d->tlb, last + t->tlb);
    MAXV(d->tub, disp + t->tub); MAXV(d->tub, last + t->tub);
  }
}
static void findt(struct ompi_datatype_t *d) {
  if (d->lb == INT64_MAX) d->lb = d->ub = 0;
  if (d->tlb == INT64_MAX) d->tlb = d->tub = 0;
  d->size = 0;
  for (int i = 0; i < d->nseg; i++) d->size += d->seg[i].n * bsize[d->seg[i].b];
  d->contig = d->nseg == 1 && d->seg[0].disp == 0 && d->lb == 0 && d->size == extent(d) && bsize[d->seg[0].b] == bext[d->seg[0].b];
}
static MPI_Datatype hold(MPI_Datatype t) { t->refs++; return t; }
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_CONTIGUOUS, 1, 0, 1);
  d->ints[0] = n;
  d->types[0] = hold(o);
  append(d, o, 0, n);
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_dup(MPI_Datatype o, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_DUP, 0, 0, 1);
  d->types[0] = hold(o);
  for (int i = 0; i < o->nseg; i++) addseg(d, o->seg[i].disp, o->seg[i].n, o->seg[i].b);
  d->lb = o->lb; d->ub = o->ub; d->tlb = o->tlb; d->tub = o->tub;
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_vector(int n, int bl, int st, MPI_Datatype o, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_VECTOR, 3, 0, 1);
  d->ints[0] = n; d->ints[1] = bl; d->ints[2] = st;
  d->types[0] = hold(o);
  for (int i = 0; i < n; i++) append(d, o, (int64_t)i * st * extent(o), bl);
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype o, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_HVECTOR, 2, 1, 1);
  d->ints[0] = n; d->ints[1] = bl; d->addrs[0] = st;
  d->types[0] = hold(o);
  for (int i = 0; i < n; i++) append(d, o, (int64_t)i * st, bl);
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_indexed(int n, const int *bl, const int *dp, MPI_Datatype o, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_INDEXED, 2 * n + 1, 0, 1);
  d->ints[0] = n;
  d->types[0] = hold(o);
  for (int i = 0; i < n; i++) { d->ints[1 + i] = bl[i]; d->ints[1 + n + i] = dp[i]; append(d, o, (int64_t)dp[i] * extent(o), bl[i]); }
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_create_hindexed(int n, const int bl[], const MPI_Aint dp[], MPI_Datatype o, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_HINDEXED, n + 1, n, 1);
  d->ints[0] = n;
  d->types[0] = hold(o);
  for (int i = 0; i < n; i++) { d->ints[1 + i] = bl[i]; d->addrs[i] = dp[i]; append(d, o, dp[i], bl[i]); }
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_create_hindexed_block(int n, int bl, const MPI_Aint dp[], MPI_Datatype o, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_HINDEXED_BLOCK, 2, n, 1);
  d->ints[0] = n; d->ints[1] = bl;
  d->types[0] = hold(o);
  for (int i = 0; i < n; i++) { d->addrs[i] = dp[i]; append(d, o, dp[i], bl); }
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_create_indexed_block(int n, int bl, const int dp[], MPI_Datatype o, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_INDEXED_BLOCK, n + 2, 0, 1);
  d->ints[0] = n; d->ints[1] = bl;
  d->types[0] = hold(o);
  for (int i = 0; i < n; i++) { d->ints[2 + i] = dp[i]; append(d, o, (int64_t)dp[i] * extent(o), bl); }
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_create_struct(int n, const int bl[], const MPI_Aint dp[], const MPI_Datatype ty[], MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_STRUCT, n + 1, n, n);
  d->ints[0] = n;
  for (int i = 0; i < n; i++) {
    d->ints[1 + i] = bl[i];
    d->addrs[i] = dp[i];
    d->types[i] = hold(ty[i]);
    append(d, ty[i], dp[i], bl[i]);
  }
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_create_resized(MPI_Datatype o, MPI_Aint lb, MPI_Aint ex, MPI_Datatype *nt) {
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_RESIZED, 0, 2, 1);
  d->addrs[0] = lb; d->addrs[1] = ex;
  d->types[0] = hold(o);
  for (int i = 0; i < o->nseg; i++) addseg(d, o->seg[i].disp, o->seg[i].n, o->seg[i].b);
  d->lb = lb; d->ub = lb + ex; d->tlb = o->tlb; d->tub = o->tub;
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_create_subarray(int nd, const int sz[], const int ss[], const int st[], int order, MPI_Datatype o, MPI_Datatype *nt) {
  if (order != MPI_ORDER_C) UNSUP("subarray fortran order");
  struct ompi_datatype_t *d = newdt(MPI_COMBINER_SUBARRAY, 3 * nd + 2, 0, 1);
  d->ints[0] = nd;
  for (int i = 0; i < nd; i++) { d->ints[1 + i] = sz[i]; d->ints[1 + nd + i] = ss[i]; d->ints[1 + 2 * nd + i] = st[i]; }
  d->ints[3 * nd + 1] = order;
  d->types[0] = hold(o);
  int64_t tot = 1, rows = 1;
  for (int i = 0; i < nd; i++) tot *= sz[i];
  for (int i = 0; i + 1 < nd; i++) rows *= ss[i];
  for (int64_t r = 0; r < rows; r++) {
    int64_t q = r, off = 0, idx[32];
    for (int i = nd - 2; i >= 0; i--) { idx[i] = st[i] + q % ss[i]; q /= ss[i]; }
    for (int i = 0; i < nd; i++) off = off * sz[i] + (i == nd - 1 ? st[i] : idx[i]);
    append(d, o, off * extent(o), ss[nd - 1]);
  }
  int64_t full = tot * extent(o);
  findt(d);
  d->lb = 0; d->ub = full;
  findt(d);
  *nt = d;
  return 0;
}
int MPI_Type_commit(MPI_Datatype *t) { (void)t; return 0; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }
int MPI_Type_size(MPI_Datatype t, int *s) { *s = (int)t->size; return 0; }
int MPI_Type_size_x(MPI_Datatype t, MPI_Count *s) { *s = t->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = t->lb; *ex = extent(t); return 0; }
int MPI_Type_get_extent_x(MPI_Datatype t, MPI_Count *lb, MPI_Count *ex) { *lb = t->lb; *ex = extent(t); return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t, MPI_Aint *lb, MPI_Aint *ex) { *lb = t->tlb; *ex = t->tub - t->tlb; return 0; }
int MPI_Type_get_envelope(MPI_Datatype t, int *ni, int *na, int *nd, int *c) { *ni = t->ni; *na = t->na; *nd = t->nd; *c = t->comb; return 0; }
int MPI_Type_get_contents(MPI_Datatype t, int mi, int ma, int md, int *i, MPI_Aint *a, MPI_Datatype *d) {
  (void)mi; (void)ma; (void)md;
  if (t->ni) memcpy(i, t->ints, sizeof(int) * t->ni);
  if (t->na) memcpy(a, t->addrs, sizeof(MPI_Aint) * t->na);
  if (t->nd) memcpy(d, t->types, sizeof(MPI_Datatype) * t->nd);
  return 0;
}
int MPI_Get_address(const void *p, MPI_Aint *a) { *a = (MPI_Aint)p; return 0; }
static int64_t packsize(MPI_Datatype t, int64_t n) { return t->size * n; }
static void pack(void *dst, const void *src, MPI_Datatype t, int64_t n) {
  if (n <= 0 || t->size == 0) return;
  if (t->contig) { memcpy(dst, src, t->size * n); return; }
  char *o = dst;
  int64_t ex = extent(t);
  for (int64_t i = 0; i < n; i++)
    for (int s = 0; s < t->nseg; s++) {
      const char *p = (const char *)src + i * ex + t->seg[s].disp;
      int b = t->seg[s].b;
      if (bsize[b] == bext[b]) { memcpy(o, p, t->seg[s].n * bsize[b]); o += t->seg[s].n * bsize[b]; }
      else for (int64_t k = 0; k < t->seg[s].n; k++) { memcpy(o, p + k * bext[b], bsize[b]); o += bsize[b]; }
    }
}
// unpack up to len bytes
static void unpack(void *dst, const void *src, MPI_Datatype t, int64_t n, int64_t len) {
  if (t->size == 0) return;
  if (len > t->size * n) len = t->size * n;
  if (t->contig) { memcpy(dst, src, len); return; }
  const char *o = src;
  int64_t ex = extent(t);
  for (int64_t i = 0; i < n && len > 0; i++)
    for (int s = 0; s < t->nseg && len > 0; s++) {
      char *p = (char *)dst + i * ex + t->seg[s].disp;
      int b = t->seg[s].b;
      for (int64_t k = 0; k < t->seg[s].n && len > 0; k++) {
        int64_t m = bsize[b] < len ? bsize[b] : len;
        memcpy(p + k * bext[b], o, m);
        o += m;
        len -= m;
      }
    }
}

// ------------------------------------------------------------------ ops
int MPI_Op_create(MPI_User_function *f, int commute, MPI_Op *op) {
  *op = calloc(1, sizeof **op);
  **op = (struct ompi_op_t){-1, f, commute};
  return 0;
}
int MPI_Op_free(MPI_Op *op) { *op = MPI_OP_NULL; return 0; }

#define ARITH(T)                                                                   \
  {                                                                                \
    const T *a = in;                                                               \
    T *b = io;                                                                     \
    for (int64_t i = 0; i < n; i++) switch (op) {                                  \
        case O_MAX: if (a[i] > b[i]) b[i] = a[i]; break;                           \
        case O_MIN: if (a[i] < b[i]) b[i] = a[i]; break;                           \
        case O_SUM: b[i] = a[i] + b[i]; break;                                     \
        case O_PROD: b[i] = a[i] * b[i]; break;                                    \
        case O_LAND: b[i] = a[i] && b[i]; break;                                   \
        case O_LOR: b[i] = a[i] || b[i]; break;                                    \
        case O_LXOR: b[i] = !a[i] != !b[i]; break;                                 \
        case O_REPLACE: b[i] = a[i]; break;                                        \
        default: UNSUP("reduction op on this type");                               \
      }                                                                            \
    return;                                                                        \
  }
#define BITS(T)                                                                    \
  {                                                                                \
    const T *a = in;                                                               \
    T *b = io;                                                                     \
    if (op == O_BAND) { for (int64_t i = 0; i < n; i++) b[i] &= a[i]; return; }    \
    if (op == O_BOR) { for (int64_t i = 0; i < n; i++) b[i] |= a[i]; return; }     \
    if (op == O_BXOR) { for (int64_t i = 0; i < n; i++) b[i] ^= a[i]; return; }    \
  }
#define LOC(T)                                                                     \
  {                                                                                \
    struct { T v; int k; } *b = io; const typeof(*b) *a = in;                      \
    for (int64_t i = 0; i < n; i++) {                                              \
      int take = op == O_MAXLOC ? a[i].v > b[i].v : a[i].v < b[i].v;               \
      if (take) b[i] = a[i];                                                       \
      else if (a[i].v == b[i].v && a[i].k < b[i].k) b[i].k = a[i].k;               \
    }                                                                              \
    return;                                                                        \
  }
static void reduce_basic(int op, int b, const void *in, void *io, int64_t n) {
  switch (b) {
  case B_CHAR: case B_SCHAR: case B_I8: BITS(signed char) ARITH(signed char)
  case B_UCHAR: case B_BYTE: case B_U8: case B_CBOOL: BITS(unsigned char) ARITH(unsigned char)
  case B_SHORT: case B_I16: BITS(short) ARITH(short)
  case B_USHORT: case B_U16: BITS(unsigned short) ARITH(unsigned short)
  case B_INT: case B_I32: BITS(int) ARITH(int)
  case B_UINT: case B_U32: BITS(unsigned) ARITH(unsigned)
  case B_LONG: case B_LL: case B_I64: BITS(long) ARITH(long)
  case B_ULONG: case B_ULL: case B_U64: BITS(unsigned long) ARITH(unsigned long)
  case B_FLOAT: ARITH(float)
  case B_DOUBLE: ARITH(double)
  case B_LDOUBLE: ARITH(long double)
  case B_DBLINT: LOC(double)
  case B_2INT: LOC(int)
  case B_FLTINT: LOC(float)
  case B_LONGINT: LOC(long)
  case B_CDBL:
    if (op == O_SUM) { const double *a = in; double *c = io; for (int64_t i = 0; i < 2 * n; i++) c[i] += a[i]; return; }
    break;
  }
  UNSUP("reduction type");
}
// io = in op io; both laid out as `t`
static void reduce_apply(MPI_Op op, MPI_Datatype t, const void *in, void *io, int n) {
  if (op->id < 0) {
    MPI_Datatype tt = t;
    op->fn((void *)in, io, &n, &tt);
    return;
  }
  if (t->nseg == 1 && (t->contig || t->basic >= 0)) { reduce_basic(op->id, t->seg[0].b, in, io, t->seg[0].n * n); return; }
  int64_t ex = extent(t);
  for (int i = 0; i < n; i++)
    for (int s = 0; s < t->nseg; s++)
      reduce_basic(op->id, t->seg[s].b, (const char *)in + i * ex + t->seg[s].disp, (char *)io + i * ex + t->seg[s].disp, t->seg[s].n);
}
int MPI_Reduce_local(const void *in, void *io, int n, MPI_Datatype t, MPI_Op op) {
  reduce_apply(op, t, in, io, n);
  return 0;
}

// ------------------------------------------------------------------ requests and point to point
typedef struct Msg {
  struct Msg *next;
  int src, dst, cid, tag, csrc;
  int64_t len;
  char *data;
  uint64_t visible;
  int matched, refs;
} Msg;
typedef struct Slot {
  struct Slot *next;
  int cid, kind, root, n, sync, left, err;
  int claimed; // a rank performs the file operation for all
  uint32_t seq;
  uint32_t arrived;
  int newcid;
  int64_t sig;
  char *buf[SIM_MAXR];
  int64_t len[SIM_MAXR];
  int64_t *off[SIM_MAXR]; // n+1 offsets, for per-destination data
  int64_t offn[SIM_MAXR];
  int ival[SIM_MAXR][2];
} Slot;
enum { K_BARRIER, K_BCAST, K_REDUCE, K_ALLREDUCE, K_SCAN, K_EXSCAN, K_GATHER, K_SCATTER, K_ALLGATHER, K_ALLTOALL, K_REDSCAT, K_DUP, K_SPLIT, K_CREATE, K_FOPEN, K_FCOLL };
static const char *kname[] = {"Barrier", "Bcast", "Reduce", "Allreduce", "Scan", "Exscan", "Gather", "Scatter", "Allgather", "Alltoall", "Reduce_scatter", "Comm_dup", "Comm_split", "Comm_create", "File_open", "File_collective"};
typedef struct {
  Slot *s;
  int kind, root, me, n;
  MPI_Comm comm;
  void *rbuf;
  int rcount;
  MPI_Datatype rtype;
  int *rcounts, *rdispls; // copies
  MPI_Op op;
} Coll;

enum { R_NULL, R_SEND, R_RECV, R_COLL };
struct ompi_request_t {
  int kind, done, persistent, active, cancelled;
  MPI_Status st;
  // send
  Msg *msg;
  // recv / persistent args
  void *buf;
  int count;
  MPI_Datatype type;
  int peer, tag;
  MPI_Comm comm;
  struct ompi_request_t *pnext; // posted list
  Coll coll;
};
struct ompi_predefined_request_t { struct ompi_request_t r; char pad[512]; };
struct ompi_predefined_request_t ompi_request_null;
static struct ompi_request_t *posted_head, **posted_tail = &posted_head;

static void set_status(MPI_Status *o, const MPI_Status *s) { if (o != MPI_STATUS_IGNORE) *o = *s; }
static const MPI_Status empty_status = {.MPI_SOURCE = MPI_ANY_SOURCE, .MPI_TAG = MPI_ANY_TAG};

static void msg_unref(Msg *m) {
  if (--m->refs == 0) {
    sim_free(m->data, m->len ? m->len : 1);
    sim_free(m, sizeof *m);
  }
}
static Msg *send_msg(const void *buf, int count, MPI_Datatype t, int dst, int tag, MPI_Comm c, int sync) {
  Msg *m = sim_alloc(sizeof *m);
  memset(m, 0, sizeof *m);
  m->src = sim_rank;
  m->dst = c->w[dst];
  m->csrc = c->rank;
  m->cid = c->cid;
  m->tag = tag;
  m->len = packsize(t, count);
  m->data = sim_alloc(m->len ? m->len : 1);
  pack(m->data, buf, t, count);
  m->refs = sync ? 2 : 1;
  uint64_t vis = W->vtime;
  if (m->src != m->dst && W->P.max_delay) {
    int d = sim_choose(8, CH_DELAY, W->P.p_delay);
    if (d) vis += W->P.max_delay * d / 7;
  }
  uint64_t *cv = &W->chan_visible[m->src][m->dst];
  if (vis < *cv) vis = *cv;
  *cv = vis;
  m->visible = vis;
  if (W->inbox_tail[m->dst]) ((Msg *)W->inbox_tail[m->dst])->next = m;
  else W->inbox_head[m->dst] = m;
  W->inbox_tail[m->dst] = m;
  W->nmsg++;
  if (vis <= W->vtime) sim_wake(m->dst);
  else sim_wake_at(m->dst, vis);
  uint32_t h[5] = {1, (uint32_t)m->dst, (uint32_t)tag, (uint32_t)m->cid, (uint32_t)m->len};
  sim_hash(h, sizeof h);
  sim_hash(m->data, m->len);
  return m;
}
static uint64_t next_visible(void) { // earliest future visibility in my inbox
  uint64_t b = 0;
  for (Msg *m = W->inbox_head[sim_rank]; m; m = m->next)
    if (m->visible > W->vtime && (!b || m->visible < b)) b = m->visible;
  return b;
}
static Msg *find_msg(int src, int tag, MPI_Comm c) {
  Msg *cand[SIM_MAXR];
  int n = 0;
  uint32_t seen = 0;
  for (Msg *m = W->inbox_head[sim_rank]; m; m = m->next) {
    if (m->visible > W->vtime || m->cid != c->cid) continue;
    if (src != MPI_ANY_SOURCE && m->csrc != src) continue;
    if (tag != MPI_ANY_TAG && m->tag != tag) continue;
    if (seen & (1u << m->csrc)) continue;
    seen |= 1u << m->csrc;
    cand[n++] = m;
  }
  if (!n) return NULL;
  return cand[sim_choose(n, CH_ANYSRC, W->P.p_any)];
}
static void inbox_remove(Msg *m) {
  Msg *p = NULL, *q = W->inbox_head[sim_rank];
  while (q != m) { p = q; q = q->next; }
  if (p) p->next = m->next;
  else W->inbox_head[sim_rank] = m->next;
  if (W->inbox_tail[sim_rank] == m) W->inbox_tail[sim_rank] = p;
}
static void progress(void) {
  for (struct ompi_request_t **pp = &posted_head; *pp;) {
    struct ompi_request_t *r = *pp;
    Msg *m = find_msg(r->peer, r->tag, r->comm);
    if (!m) { pp = &r->pnext; continue; }
    inbox_remove(m);
    int64_t cap = packsize(r->type, r->count);
    r->st = empty_status;
    r->st.MPI_SOURCE = m->csrc;
    r->st.MPI_TAG = m->tag;
    r->st.MPI_ERROR = 0;
    if (m->len > cap) sim_die(OUT_MISUSE, 0, "message truncated: rank %d receives %ld bytes from rank %d tag %d into a %ld byte buffer", sim_rank, (long)m->len, m->src, m->tag, (long)cap);
    r->st._ucount = m->len;
    unpack(r->buf, m->data, r->type, r->count, m->len);
    r->done = 1;
    m->matched = 1;
    sim_wake(m->src);
    msg_unref(m);
    *pp = r->pnext;
    if (!*pp) posted_tail = pp;
    r->pnext = NULL;
    // restart to preserve posted order semantics with new state
  }
  posted_tail = &posted_head;
  while (*posted_tail) posted_tail = &(*posted_tail)->pnext;
}
static void post(struct ompi_request_t *r) {
  r->pnext = NULL;
  *posted_tail = r;
  posted_tail = &r->pnext;
}
static int coll_ready(Coll *c);
static void coll_finish(Coll *c);
static int req_done(MPI_Request r) {
  if (r->done) return 1;
  switch (r->kind) {
  case R_SEND:
    if (!r->msg || r->msg->matched) {
      if (r->msg) msg_unref(r->msg);
      r->msg = NULL;
      r->done = 1;
    }
    break;
  case R_RECV: break;
  case R_COLL:
    if (coll_ready(&r->coll)) { coll_finish(&r->coll); r->done = 1; }
    break;
  default: return 1;
  }
  return r->done;
}
static int is_null(MPI_Request r) { return r == MPI_REQUEST_NULL || r == NULL || r->kind == R_NULL || (r->persistent && !r->active); }
static void req_release(MPI_Request *pr, MPI_Status *st) {
  MPI_Request r = *pr;
  set_status(st, &r->st);
  if (r->persistent) { r->active = 0; r->done = 0; return; }
  free(r);
  *pr = MPI_REQUEST_NULL;
}
static MPI_Request newreq(int kind) {
  MPI_Request r = calloc(1, sizeof *r);
  r->kind = kind;
  r->st = empty_status;
  return r;
}
static void start_send(MPI_Request r, int forcesync) {
  r->done = 0;
  if (r->peer == MPI_PROC_NULL) { r->done = 1; return; }
  int sync = forcesync;
  if (!sync && r->comm->w[r->peer] != sim_rank) sync = sim_choose(2, CH_SYNC, W->P.p_sync);
  Msg *m = send_msg(r->buf, r->count, r->type, r->peer, r->tag, r->comm, sync);
  if (sync) r->msg = m;
  else r->done = 1;
}
static void start_recv(MPI_Request r) {
  r->done = 0;
  if (r->peer == MPI_PROC_NULL) {
    r->st = empty_status;
    r->st.MPI_SOURCE = MPI_PROC_NULL;
    r->done = 1;
    return;
  }
  post(r);
}
static MPI_Request mkp2p(int kind, const void *b, int n, MPI_Datatype t, int peer, int tag, MPI_Comm c) {
  MPI_Request r = newreq(kind);
  r->buf = (void *)b;
  r->count = n;
  r->type = t;
  r->peer = peer;
  r->tag = tag;
  r->comm = c;
  return r;
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) {
  mcall("Isend");
  MPI_Request r = mkp2p(R_SEND, b, n, t, d, tag, c);
  start_send(r, 0);
  *q = r;
  return 0;
}
int MPI_Issend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) {
  mcall("Issend");
  MPI_Request r = mkp2p(R_SEND, b, n, t, d, tag, c);
  start_send(r, 1);
  *q = r;
  return 0;
}
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) {
  mcall("Irecv");
  MPI_Request r = mkp2p(R_RECV, b, n, t, s, tag, c);
  start_recv(r);
  *q = r;
  return 0;
}
int MPI_Send_init(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *q) {
  MPI_Request r = mkp2p(R_SEND, b, n, t, d, tag, c);
  r->persistent = 1;
  *q = r;
  return 0;
}
int MPI_Recv_init(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *q) {
  MPI_Request r = mkp2p(R_RECV, b, n, t, s, tag, c);
  r->persistent = 1;
  *q = r;
  return 0;
}
int MPI_Start(MPI_Request *q) {
  mcall("Start");
  MPI_Request r = *q;
  r->active = 1;
  if (r->kind == R_SEND) start_send(r, 0);
  else start_recv(r);
  return 0;
}
int MPI_Startall(int n, MPI_Request q[]) {
  for (int i = 0; i < n; i++) MPI_Start(&q[i]);
  return 0;
}
static void describe(MPI_Request r, char *b, size_t n, const char *f) {
  if (r->kind == R_COLL) snprintf(b, n, "%s(%s cid %d seq %u)", f, kname[r->coll.kind], r->coll.comm->cid, r->coll.s->seq);
  else snprintf(b, n, "%s(%s peer %d tag %d cid %d)", f, r->kind == R_SEND ? "send" : "recv", r->peer, r->tag, r->comm->cid);
}
static void wait_req(MPI_Request r, const char *f) {
  char b[128];
  for (;;) {
    progress();
    if (req_done(r)) return;
    describe(r, b, sizeof b, f);
    sim_block(b, next_visible());
  }
}
int MPI_Wait(MPI_Request *q, MPI_Status *st) {
  mcall("Wait");
  if (is_null(*q)) { set_status(st, &empty_status); return 0; }
  wait_req(*q, "Wait");
  req_release(q, st);
  return 0;
}
int MPI_Waitall(int n, MPI_Request q[], MPI_Status st[]) {
  mcall("Waitall");
  for (int i = 0; i < n; i++) {
    if (is_null(q[i])) { if (st != MPI_STATUSES_IGNORE) st[i] = empty_status; continue; }
    wait_req(q[i], "Waitall");
    req_release(&q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
  }
  return 0;
}
int MPI_Waitany(int n, MPI_Request q[], int *idx, MPI_Status *st) {
  mcall("Waitany");
  for (;;) {
    int act = 0, done[4096], nd = 0;
    progress();
    for (int i = 0; i < n; i++) {
      if (is_null(q[i])) continue;
      act++;
      if (req_done(q[i]) && nd < 4096) done[nd++] = i;
    }
    if (!act) { *idx = MPI_UNDEFINED; set_status(st, &empty_status); return 0; }
    if (nd) {
      int k = done[sim_choose(nd, CH_WAITANY, W->P.p_any)];
      *idx = k;
      req_release(&q[k], st);
      return 0;
    }
    sim_block("Waitany", next_visible());
  }
}
static int some(int n, MPI_Request q[], int *outn, int *idx, MPI_Status *st) {
  int act = 0, done[4096], nd = 0;
  progress();
  for (int i = 0; i < n; i++) {
    if (is_null(q[i])) continue;
    act++;
    if (req_done(q[i]) && nd < 4096) done[nd++] = i;
  }
  if (!act) { *outn = MPI_UNDEFINED; return 1; }
  *outn = 0;
  if (!nd) return 0;
  // report all completed ones (default), or a single one
  int c = sim_choose(nd + 1, CH_WAITANY, W->P.p_any);
  if (c) { done[0] = done[c - 1]; nd = 1; }
  for (int k = 0; k < nd; k++) {
    idx[k] = done[k];
    req_release(&q[done[k]], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[k]);
  }
  *outn = nd;
  return 1;
}
int MPI_Waitsome(int n, MPI_Request q[], int *outn, int *idx, MPI_Status *st) {
  mcall("Waitsome");
  while (!some(n, q, outn, idx, st)) sim_block("Waitsome", next_visible());
  return 0;
}
int MPI_Testsome(int n, MPI_Request q[], int *outn, int *idx, MPI_Status *st) {
  mcall("Testsome");
  some(n, q, outn, idx, st);
  return 0;
}
static void poll_yield(const char *what) { // a failed poll: let others run
  sim_block(what, W->vtime + 1);
}
int MPI_Test(MPI_Request *q, int *flag, MPI_Status *st) {
  mcall("Test");
  if (is_null(*q)) { *flag = 1; set_status(st, &empty_status); return 0; }
  progress();
  *flag = req_done(*q);
  if (*flag) req_release(q, st);
  else poll_yield("Test");
  return 0;
}
int MPI_Testall(int n, MPI_Request q[], int *flag, MPI_Status st[]) {
  mcall("Testall");
  progress();
  *flag = 1;
  for (int i = 0; i < n; i++)
    if (!is_null(q[i]) && !req_done(q[i])) *flag = 0;
  if (!*flag) { poll_yield("Testall"); return 0; }
  for (int i = 0; i < n; i++) {
    if (is_null(q[i])) { if (st != MPI_STATUSES_IGNORE) st[i] = empty_status; continue; }
    req_release(&q[i], st == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : &st[i]);
  }
  return 0;
}
int MPI_Testany(int n, MPI_Request q[], int *idx, int *flag, MPI_Status *st) {
  mcall("Testany");
  progress();
  int act = 0;
  *flag = 0;
  for (int i = 0; i < n; i++) {
    if (is_null(q[i])) continue;
    act++;
    if (req_done(q[i])) { *flag = 1; *idx = i; req_release(&q[i], st); return 0; }
  }
  if (!act) { *flag = 1; *idx = MPI_UNDEFINED; set_status(st, &empty_status); return 0; }
  poll_yield("Testany");
  return 0;
}
int MPI_Request_free(MPI_Request *q) {
  if (*q != MPI_REQUEST_NULL) {
    MPI_Request r = *q;
    if (r->persistent && !r->active) free(r);
    *q = MPI_REQUEST_NULL;
  }
  return 0;
}
int MPI_Cancel(MPI_Request *q) {
  MPI_Request r = *q;
  if (r->kind == R_RECV && !r->done) {
    for (struct ompi_request_t **pp = &posted_head; *pp; pp = &(*pp)->pnext)
      if (*pp == r) { *pp = r->pnext; break; }
    posted_tail = &posted_head;
    while (*posted_tail) posted_tail = &(*posted_tail)->pnext;
    r->done = 1;
    r->st = empty_status;
    r->st._cancelled = 1;
  }
  return 0;
}
int MPI_Test_cancelled(const MPI_Status *s, int *f) { *f = s->_cancelled; return 0; }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  mcall("Send");
  MPI_Request r = mkp2p(R_SEND, b, n, t, d, tag, c);
  start_send(r, 0);
  wait_req(r, "Send");
  free(r);
  return 0;
}
int MPI_Ssend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c) {
  mcall("Ssend");
  MPI_Request r = mkp2p(R_SEND, b, n, t, d, tag, c);
  start_send(r, 1);
  wait_req(r, "Ssend");
  free(r);
  return 0;
}
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st) {
  mcall("Recv");
  MPI_Request r = mkp2p(R_RECV, b, n, t, s, tag, c);
  start_recv(r);
  wait_req(r, "Recv");
  set_status(st, &r->st);
  free(r);
  return 0;
}
int MPI_Sendrecv(const void *sb, int sn, MPI_Datatype stt, int d, int stag, void *rb, int rn, MPI_Datatype rt, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  MPI_Request q[2];
  MPI_Irecv(rb, rn, rt, s, rtag, c, &q[0]);
  MPI_Isend(sb, sn, stt, d, stag, c, &q[1]);
  MPI_Wait(&q[0], st);
  MPI_Wait(&q[1], MPI_STATUS_IGNORE);
  return 0;
}
int MPI_Sendrecv_replace(void *b, int n, MPI_Datatype t, int d, int stag, int s, int rtag, MPI_Comm c, MPI_Status *st) {
  int64_t len = packsize(t, n);
  char *tmp = malloc(len ? len : 1);
  pack(tmp, b, t, n);
  int e = MPI_Sendrecv(tmp, (int)len, MPI_BYTE, d, stag, b, n, t, s, rtag, c, st);
  free(tmp);
  return e;
}
int MPI_Iprobe(int s, int tag, MPI_Comm c, int *flag, MPI_Status *st) {
  mcall("Iprobe");
  progress();
  Msg *m = find_msg(s, tag, c);
  *flag = m != NULL;
  if (m) {
    MPI_Status x = empty_status;
    x.MPI_SOURCE = m->csrc;
    x.MPI_TAG = m->tag;
    x._ucount = m->len;
    set_status(st, &x);
  } else
    poll_yield("Iprobe");
  return 0;
}
int MPI_Probe(int s, int tag, MPI_Comm c, MPI_Status *st) {
  mcall("Probe");
  for (;;) {
    progress();
    Msg *m = find_msg(s, tag, c);
    if (m) {
      MPI_Status x = empty_status;
      x.MPI_SOURCE = m->csrc;
      x.MPI_TAG = m->tag;
      x._ucount = m->len;
      set_status(st, &x);
      return 0;
    }
    sim_block("Probe", next_visible());
  }
}
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) {
  *n = t->size ? (int)(s->_ucount / t->size) : 0;
  if (t->size && s->_ucount % t->size) *n = MPI_UNDEFINED;
  return 0;
}
int MPI_Get_elements_x(const MPI_Status *s, MPI_Datatype t, MPI_Count *n) {
  // number of basic elements
  if (!t->size) { *n = 0; return 0; }
  int64_t per = 0, left = s->_ucount;
  for (int i = 0; i < t->nseg; i++) per += t->seg[i].n;
  int64_t k = left / t->size;
  *n = k * per;
  left -= k * t->size;
  for (int i = 0; i < t->nseg && left > 0; i++) {
    int64_t m = left / bsize[t->seg[i].b];
    if (m > t->seg[i].n) m = t->seg[i].n;
    *n += m;
    left -= m * bsize[t->seg[i].b];
  }
  return 0;
}
int MPI_Get_elements(const MPI_Status *s, MPI_Datatype t, int *n) {
  MPI_Count c;
  MPI_Get_elements_x(s, t, &c);
  *n = (int)c;
  return 0;
}

// ------------------------------------------------------------------ collectives
static Slot *slot_get(MPI_Comm c, int kind, int root, int64_t sig) {
  uint32_t seq = c->seq++;
  int cid = c->cid;
  Slot **pp = (Slot **)&W->comms[cid & 4095];
  for (Slot *s = *pp; s; s = s->next)
    if (s->cid == cid && s->seq == seq) {
      if (s->kind != kind || s->root != root || (sig >= 0 && s->sig >= 0 && s->sig != sig))
        sim_die(OUT_MISUSE, 0, "mismatched collective: rank %d calls %s(root %d, %ld bytes) where another rank called %s(root %d, %ld bytes) on communicator %d, call %u%s",
                sim_rank, kname[kind], root, (long)sig, kname[s->kind], s->root, (long)s->sig, cid, seq, c->hdf5 ? " [inside HDF5]" : "");
      return s;
    }
  Slot *s = sim_alloc(sizeof *s);
  memset(s, 0, sizeof *s);
  s->cid = cid;
  s->seq = seq;
  s->kind = kind;
  s->root = root;
  s->n = c->size;
  s->sig = sig;
  if (c->size > 1) s->sync = sim_choose(2, CH_COLLSYNC, W->P.p_collsync);
  s->next = *pp;
  *pp = s;
  return s;
}
static void slot_leave(Slot *s) {
  if (++s->left < s->n) return;
  Slot **pp = (Slot **)&W->comms[s->cid & 4095];
  while (*pp != s) pp = &(*pp)->next;
  *pp = s->next;
  for (int i = 0; i < s->n; i++) {
    if (s->buf[i]) sim_free(s->buf[i], s->len[i] ? s->len[i] : 1);
    if (s->off[i]) sim_free(s->off[i], s->offn[i]);
  }
  sim_free(s, sizeof *s);
}
static void coll_start(Coll *c, MPI_Comm comm, int kind, int root, int64_t sig, int64_t len) {
  char nm[64];
  snprintf(nm, sizeof nm, "%s", kname[kind]);
  sim_sched(nm);
  memset(c, 0, sizeof *c);
  c->comm = comm;
  c->kind = kind;
  c->root = root;
  c->me = comm->rank;
  c->n = comm->size;
  c->s = slot_get(comm, kind, root, sig);
  W->ncoll++;
  if (len >= 0) {
    c->s->buf[c->me] = sim_alloc(len ? len : 1);
    c->s->len[c->me] = len;
  }
}
static void coll_arrive(Coll *c) {
  Slot *s = c->s;
  uint32_t h[4] = {2, (uint32_t)s->kind, (uint32_t)s->cid, s->seq};
  sim_hash(h, sizeof h);
  if (s->buf[c->me]) sim_hash(s->buf[c->me], s->len[c->me]);
  s->arrived |= 1u << c->me;
  for (int i = 0; i < c->n; i++)
    if (i != c->me) sim_wake(c->comm->w[i]);
}
static int coll_ready(Coll *c) {
  Slot *s = c->s;
  uint32_t all = (1u << c->n) - 1, a = s->arrived;
  if (s->sync && a != all) return 0;
  switch (s->kind) {
  case K_BCAST: return c->me == s->root || (a & (1u << s->root));
  case K_REDUCE: case K_GATHER: return c->me != s->root || a == all;
  case K_SCATTER: return c->me == s->root || (a & (1u << s->root));
  case K_SCAN: return (a & ((2u << c->me) - 1)) == ((2u << c->me) - 1);
  case K_EXSCAN: return (a & ((1u << c->me) - 1)) == ((1u << c->me) - 1);
  default: return a == all;
  }
}
static void fold(Coll *c, int lo, int hi, void *out, int64_t skip, int count) { // fold contributions lo..hi-1 of `count` elements at byte offset skip
  MPI_Datatype t = c->rtype;
  int64_t ex = extent(t);
  int64_t need = ex * count + 64;
  char *acc = calloc(1, need), *x = calloc(1, need);
  int64_t len = packsize(t, count);
  unpack(acc - t->lb * 0, c->s->buf[hi - 1] + skip, t, count, len);
  for (int i = hi - 2; i >= lo; i--) {
    unpack(x, c->s->buf[i] + skip, t, count, len);
    reduce_apply(c->op, t, x, acc, count);
  }
  // copy typed data out
  char *tmp = malloc(len ? len : 1);
  pack(tmp, acc, t, count);
  unpack(out, tmp, t, count, len);
  free(tmp);
  free(acc);
  free(x);
}
static void coll_finish(Coll *c) {
  Slot *s = c->s;
  int64_t ex = c->rtype ? extent(c->rtype) : 0;
  switch (c->kind) {
  case K_BCAST:
    if (c->me != c->root) unpack(c->rbuf, s->buf[c->root], c->rtype, c->rcount, s->len[c->root]);
    break;
  case K_REDUCE:
    if (c->me == c->root && c->rcount > 0) fold(c, 0, c->n, c->rbuf, 0, c->rcount);
    break;
  case K_ALLREDUCE:
    if (c->rcount > 0) fold(c, 0, c->n, c->rbuf, 0, c->rcount);
    break;
  case K_SCAN:
    if (c->rcount > 0) fold(c, 0, c->me + 1, c->rbuf, 0, c->rcount);
    break;
  case K_EXSCAN:
    if (c->me > 0 && c->rcount > 0) fold(c, 0, c->me, c->rbuf, 0, c->rcount);
    break;
  case K_GATHER:
    if (c->me != c->root) break; // fallthrough
  case K_ALLGATHER:
    for (int i = 0; i < c->n; i++) {
      int cnt = c->rcounts ? c->rcounts[i] : c->rcount;
      int64_t dp = c->rdispls ? c->rdispls[i] : (int64_t)i * c->rcount;
      if (s->len[i] > packsize(c->rtype, cnt)) sim_die(OUT_MISUSE, 0, "%s: rank %d sends %ld bytes, rank %d expects %ld", kname[c->kind], i, (long)s->len[i], c->me, (long)packsize(c->rtype, cnt));
      unpack((char *)c->rbuf + dp * ex, s->buf[i], c->rtype, cnt, s->len[i]);
    }
    break;
  case K_SCATTER:
    if (c->rbuf != MPI_IN_PLACE) unpack(c->rbuf, s->buf[c->root] + s->off[c->root][c->me], c->rtype, c->rcount, s->off[c->root][c->me + 1] - s->off[c->root][c->me]);
    break;
  case K_ALLTOALL:
    for (int i = 0; i < c->n; i++) {
      int cnt = c->rcounts ? c->rcounts[i] : c->rcount;
      int64_t dp = c->rdispls ? c->rdispls[i] : (int64_t)i * c->rcount;
      int64_t l = s->off[i][c->me + 1] - s->off[i][c->me];
      if (l > packsize(c->rtype, cnt)) sim_die(OUT_MISUSE, 0, "Alltoall: rank %d sends %ld bytes, rank %d expects %ld", i, (long)l, c->me, (long)packsize(c->rtype, cnt));
      unpack((char *)c->rbuf + dp * ex, s->buf[i] + s->off[i][c->me], c->rtype, cnt, l);
    }
    break;
  case K_REDSCAT: {
    int64_t o = 0;
    for (int i = 0; i < c->me; i++) o += packsize(c->rtype, c->rcounts[i]);
    if (c->rcounts[c->me] > 0) fold(c, 0, c->n, c->rbuf, o, c->rcounts[c->me]);
  } break;
  default: break;
  }
  free(c->rcounts);
  free(c->rdispls);
  c->rcounts = c->rdispls = NULL;
  slot_leave(s);
}
static int coll_wait(Coll *c) {
  coll_arrive(c);
  char b[96];
  while (!coll_ready(c)) {
    snprintf(b, sizeof b, "%s(cid %d, call %u)%s", kname[c->kind], c->comm->cid, c->s->seq, c->comm->hdf5 ? " [inside HDF5]" : "");
    sim_block(b, 0);
  }
  coll_finish(c);
  return 0;
}
static int coll_i(Coll *c, MPI_Request *q) {
  coll_arrive(c);
  MPI_Request r = newreq(R_COLL);
  r->coll = *c;
  *q = r;
  return 0;
}
#define FINISH(q) ((q) ? coll_i(&c, q) : coll_wait(&c))
static int *dupints(const int *p, int n) {
  int *r = malloc(sizeof(int) * n);
  memcpy(r, p, sizeof(int) * n);
  return r;
}
static int x_barrier(MPI_Comm cm, MPI_Request *q) {
  Coll c;
  coll_start(&c, cm, K_BARRIER, 0, -1, -1);
  return FINISH(q);
}
int MPI_Barrier(MPI_Comm c) { return x_barrier(c, NULL); }
int MPI_Ibarrier(MPI_Comm c, MPI_Request *q) { return x_barrier(c, q); }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm cm) {
  Coll c;
  coll_start(&c, cm, K_BCAST, root, packsize(t, n), cm->rank == root ? packsize(t, n) : -1);
  if (cm->rank == root) pack(c.s->buf[root], b, t, n);
  c.rbuf = b; c.rcount = n; c.rtype = t;
  return coll_wait(&c);
}
static int x_red(int kind, const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, int root, MPI_Comm cm, MPI_Request *q) {
  Coll c;
  coll_start(&c, cm, kind, root, packsize(t, n), packsize(t, n));
  pack(c.s->buf[c.me], sb == MPI_IN_PLACE ? rb : sb, t, n);
  c.rbuf = rb; c.rcount = n; c.rtype = t; c.op = op;
  return FINISH(q);
}
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { return x_red(K_REDUCE, s, r, n, t, o, root, c, NULL); }
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return x_red(K_ALLREDUCE, s, r, n, t, o, 0, c, NULL); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request *q) { return x_red(K_ALLREDUCE, s, r, n, t, o, 0, c, q); }
int MPI_Scan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return x_red(K_SCAN, s, r, n, t, o, 0, c, NULL); }
int MPI_Exscan(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return x_red(K_EXSCAN, s, r, n, t, o, 0, c, NULL); }
static int x_gather(int kind, const void *sb, int sn, MPI_Datatype st, void *rb, int rn, const int *rc, const int *rd, MPI_Datatype rt, int root, MPI_Comm cm, MPI_Request *q) {
  Coll c;
  int me = cm->rank;
  const void *src = sb;
  int cnt = sn;
  MPI_Datatype t = st;
  if (sb == MPI_IN_PLACE) {
    t = rt;
    cnt = rc ? rc[me] : rn;
    src = (char *)rb + (rd ? rd[me] : (int64_t)me * rn) * extent(rt);
  }
  coll_start(&c, cm, kind, root, -1, packsize(t, cnt));
  pack(c.s->buf[me], src, t, cnt);
  c.rbuf = rb; c.rcount = rn; c.rtype = rt;
  if (rc && (kind == K_ALLGATHER || me == root)) { c.rcounts = dupints(rc, c.n); c.rdispls = dupints(rd, c.n); }
  return FINISH(q);
}
int MPI_Gather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return x_gather(K_GATHER, s, sn, st, r, rn, NULL, NULL, rt, root, c, NULL); }
int MPI_Igather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { return x_gather(K_GATHER, s, sn, st, r, rn, NULL, NULL, rt, root, c, q); }
int MPI_Gatherv(const void *s, int sn, MPI_Datatype st, void *r, const int rc[], const int rd[], MPI_Datatype rt, int root, MPI_Comm c) { return x_gather(K_GATHER, s, sn, st, r, 0, rc, rd, rt, root, c, NULL); }
int MPI_Igatherv(const void *s, int sn, MPI_Datatype st, void *r, const int rc[], const int rd[], MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { return x_gather(K_GATHER, s, sn, st, r, 0, rc, rd, rt, root, c, q); }
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { return x_gather(K_ALLGATHER, s, sn, st, r, rn, NULL, NULL, rt, 0, c, NULL); }
int MPI_Iallgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return x_gather(K_ALLGATHER, s, sn, st, r, rn, NULL, NULL, rt, 0, c, q); }
int MPI_Allgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int rc[], const int rd[], MPI_Datatype rt, MPI_Comm c) { return x_gather(K_ALLGATHER, s, sn, st, r, 0, rc, rd, rt, 0, c, NULL); }
int MPI_Iallgatherv(const void *s, int sn, MPI_Datatype st, void *r, const int rc[], const int rd[], MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return x_gather(K_ALLGATHER, s, sn, st, r, 0, rc, rd, rt, 0, c, q); }
static void put_parts(Coll *c, const void *sb, int sn, const int *sc, const int *sd, MPI_Datatype st) {
  int n = c->n;
  Slot *s = c->s;
  s->offn[c->me] = sizeof(int64_t) * (n + 1);
  s->off[c->me] = sim_alloc(s->offn[c->me]);
  int64_t o = 0;
  for (int i = 0; i < n; i++) { s->off[c->me][i] = o; o += packsize(st, sc ? sc[i] : sn); }
  s->off[c->me][n] = o;
  s->buf[c->me] = sim_alloc(o ? o : 1);
  s->len[c->me] = o;
  for (int i = 0; i < n; i++)
    pack(s->buf[c->me] + s->off[c->me][i], (const char *)sb + (sd ? sd[i] : (int64_t)i * sn) * extent(st), st, sc ? sc[i] : sn);
}
static int x_scatter(const void *sb, int sn, const int *sc, const int *sd, MPI_Datatype st, void *rb, int rn, MPI_Datatype rt, int root, MPI_Comm cm, MPI_Request *q) {
  Coll c;
  coll_start(&c, cm, K_SCATTER, root, -1, -1);
  if (cm->rank == root) put_parts(&c, sb, sn, sc, sd, st);
  c.rbuf = rb; c.rcount = rn; c.rtype = rt;
  return FINISH(q);
}
int MPI_Scatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return x_scatter(s, sn, NULL, NULL, st, r, rn, rt, root, c, NULL); }
int MPI_Scatterv(const void *s, const int sc[], const int sd[], MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c) { return x_scatter(s, 0, sc, sd, st, r, rn, rt, root, c, NULL); }
int MPI_Iscatter(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { return x_scatter(s, sn, NULL, NULL, st, r, rn, rt, root, c, q); }
int MPI_Iscatterv(const void *s, const int sc[], const int sd[], MPI_Datatype st, void *r, int rn, MPI_Datatype rt, int root, MPI_Comm c, MPI_Request *q) { return x_scatter(s, 0, sc, sd, st, r, rn, rt, root, c, q); }
static int x_a2a(const void *sb, int sn, const int *sc, const int *sd, MPI_Datatype st, void *rb, int rn, const int *rc, const int *rd, MPI_Datatype rt, MPI_Comm cm, MPI_Request *q) {
  Coll c;
  if (sb == MPI_IN_PLACE) UNSUP("Alltoall in place");
  coll_start(&c, cm, K_ALLTOALL, 0, -1, -1);
  put_parts(&c, sb, sn, sc, sd, st);
  c.rbuf = rb; c.rcount = rn; c.rtype = rt;
  if (rc) { c.rcounts = dupints(rc, c.n); c.rdispls = dupints(rd, c.n); }
  return FINISH(q);
}
int MPI_Alltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) { return x_a2a(s, sn, NULL, NULL, st, r, rn, NULL, NULL, rt, c, NULL); }
int MPI_Ialltoall(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c, MPI_Request *q) { return x_a2a(s, sn, NULL, NULL, st, r, rn, NULL, NULL, rt, c, q); }
int MPI_Alltoallv(const void *s, const int sc[], const int sd[], MPI_Datatype st, void *r, const int rc[], const int rd[], MPI_Datatype rt, MPI_Comm c) { return x_a2a(s, 0, sc, sd, st, r, 0, rc, rd, rt, c, NULL); }
int MPI_Reduce_scatter(const void *sb, void *rb, const int rc[], MPI_Datatype t, MPI_Op op, MPI_Comm cm) {
  Coll c;
  int64_t tot = 0;
  for (int i = 0; i < cm->size; i++) tot += rc[i];
  coll_start(&c, cm, K_REDSCAT, 0, packsize(t, tot), packsize(t, tot));
  pack(c.s->buf[c.me], sb == MPI_IN_PLACE ? rb : sb, t, tot);
  c.rbuf = rb; c.rtype = t; c.op = op;
  c.rcounts = dupints(rc, c.n);
  return coll_wait(&c);
}
int MPI_Reduce_scatter_block(const void *sb, void *rb, int n, MPI_Datatype t, MPI_Op op, MPI_Comm cm) {
  int rc[SIM_MAXR];
  for (int i = 0; i < cm->size; i++) rc[i] = n;
  return MPI_Reduce_scatter(sb, rb, rc, t, op, cm);
}

// ------------------------------------------------------------------ communicators, groups
static MPI_Comm *ftab;
static int nftab;
static MPI_Comm newcomm(int cid, int n, const int *w) {
  MPI_Comm c = calloc(1, sizeof(struct ompi_predefined_communicator_t));
  c->cid = cid;
  c->size = n;
  c->w = malloc(sizeof(int) * n);
  memcpy(c->w, w, sizeof(int) * n);
  c->rank = -1;
  for (int i = 0; i < n; i++)
    if (w[i] == sim_rank) c->rank = i;
  return c;
}
static void init_comms(void) {
  static int done;
  if (done) return;
  done = 1;
  MPI_Comm w = MPI_COMM_WORLD, s = MPI_COMM_SELF;
  w->cid = 0;
  w->size = W->P.nranks;
  w->w = malloc(sizeof(int) * w->size);
  for (int i = 0; i < w->size; i++) w->w[i] = i;
  w->rank = sim_rank;
  strcpy(w->name, "MPI_COMM_WORLD");
  s->cid = 1 + sim_rank; // private per rank
  s->size = 1;
  s->w = malloc(sizeof(int));
  s->w[0] = sim_rank;
  s->rank = 0;
  strcpy(s->name, "MPI_COMM_SELF");
}
int MPI_Comm_rank(MPI_Comm c, int *r) { *r = c->rank; return 0; }
int MPI_Comm_size(MPI_Comm c, int *s) { *s = c->size; return 0; }
static int dup_attrs(MPI_Comm o, MPI_Comm n) {
  for (Attr *a = o->attrs; a; a = a->next) {
    Key *k = &keys[a->key - KEYBASE];
    int flag = 0;
    void *v = NULL;
    if (k->cp == (MPI_Comm_copy_attr_function *)0) continue;
    int e = k->cp(o, a->key, k->extra, a->val, &v, &flag);
    if (e) return e;
    if (flag) MPI_Comm_set_attr(n, a->key, v);
  }
  return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *n) {
  Dl_info di;
  int hdf5 = dladdr(__builtin_return_address(0), &di) && di.dli_fname && strstr(di.dli_fname, "hdf5");
  Coll k;
  coll_start(&k, c, K_DUP, 0, -1, -1);
  Slot *s = k.s;
  if (!s->newcid) s->newcid = W->next_cid++;
  int cid = s->newcid;
  coll_wait(&k);
  *n = newcomm(cid, c->size, c->w);
  (*n)->eh = c->eh;
  (*n)->hdf5 = hdf5 || c->hdf5;
  return dup_attrs(c, *n);
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *n) {
  Coll k;
  coll_start(&k, c, K_SPLIT, 0, -1, -1);
  Slot *s = k.s;
  if (!s->newcid) { s->newcid = W->next_cid; W->next_cid += c->size; }
  int base = s->newcid;
  s->ival[c->rank][0] = color;
  s->ival[c->rank][1] = key;
  s->left--; // keep slot alive until we read it
  coll_wait(&k);
  int m[SIM_MAXR], nm = 0, first = -1;
  for (int i = 0; i < c->size; i++)
    if (s->ival[i][0] == color) { if (first < 0) first = i; m[nm++] = i; }
  for (int i = 1; i < nm; i++) { // stable insertion sort by key
    int x = m[i], j = i - 1;
    while (j >= 0 && s->ival[m[j]][1] > s->ival[x][1]) { m[j + 1] = m[j]; j--; }
    m[j + 1] = x;
  }
  slot_leave(s);
  if (color == MPI_UNDEFINED) { *n = MPI_COMM_NULL; return 0; }
  int w[SIM_MAXR];
  for (int i = 0; i < nm; i++) w[i] = c->w[m[i]];
  *n = newcomm(base + first, nm, w);
  return 0;
}
int MPI_Comm_split_type(MPI_Comm c, int type, int key, MPI_Info i, MPI_Comm *n) {
  (void)type; (void)i;
  return MPI_Comm_split(c, 0, key, n);
}
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *n) {
  Coll k;
  coll_start(&k, c, K_CREATE, 0, -1, -1);
  Slot *s = k.s;
  if (!s->newcid) s->newcid = W->next_cid++;
  int cid = s->newcid;
  coll_wait(&k);
  int in = 0;
  for (int i = 0; i < g->n; i++)
    if (g->w[i] == sim_rank) in = 1;
  *n = in ? newcomm(cid, g->n, g->w) : MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_free(MPI_Comm *c) {
  mcall("Comm_free");
  del_all_attrs(*c);
  if (*c != MPI_COMM_WORLD && *c != MPI_COMM_SELF) (*c)->freed = 1; // structure kept: requests may refer to it
  *c = MPI_COMM_NULL;
  return 0;
}
int MPI_Comm_compare(MPI_Comm a, MPI_Comm b, int *r) {
  if (a == b) { *r = MPI_IDENT; return 0; }
  if (a->size != b->size) { *r = MPI_UNEQUAL; return 0; }
  int same = 1, sim = 1;
  for (int i = 0; i < a->size; i++) {
    if (a->w[i] != b->w[i]) same = 0;
    int f = 0;
    for (int j = 0; j < b->size; j++)
      if (b->w[j] == a->w[i]) f = 1;
    if (!f) sim = 0;
  }
  *r = same ? MPI_CONGRUENT : sim ? MPI_SIMILAR : MPI_UNEQUAL;
  return 0;
}
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) {
  *g = calloc(1, sizeof **g);
  (*g)->n = c->size;
  (*g)->w = malloc(sizeof(int) * c->size);
  memcpy((*g)->w, c->w, sizeof(int) * c->size);
  return 0;
}
int MPI_Group_incl(MPI_Group g, int n, const int r[], MPI_Group *o) {
  *o = calloc(1, sizeof **o);
  (*o)->n = n;
  (*o)->w = malloc(sizeof(int) * (n ? n : 1));
  for (int i = 0; i < n; i++) (*o)->w[i] = g->w[r[i]];
  return 0;
}
int MPI_Group_size(MPI_Group g, int *n) { *n = g->n; return 0; }
int MPI_Group_rank(MPI_Group g, int *r) {
  *r = MPI_UNDEFINED;
  for (int i = 0; i < g->n; i++)
    if (g->w[i] == sim_rank) *r = i;
  return 0;
}
int MPI_Group_translate_ranks(MPI_Group a, int n, const int r[], MPI_Group b, int o[]) {
  for (int i = 0; i < n; i++) {
    o[i] = MPI_UNDEFINED;
    if (r[i] == MPI_PROC_NULL) { o[i] = MPI_PROC_NULL; continue; }
    for (int j = 0; j < b->n; j++)
      if (b->w[j] == a->w[r[i]]) o[i] = j;
  }
  return 0;
}
int MPI_Group_free(MPI_Group *g) { *g = MPI_GROUP_NULL; return 0; }
int MPI_Comm_test_inter(MPI_Comm c, int *f) { (void)c; *f = 0; return 0; }
int MPI_Topo_test(MPI_Comm c, int *f) { (void)c; *f = MPI_UNDEFINED; return 0; }

MPI_Fint MPI_Comm_c2f(MPI_Comm c) {
  if (c == MPI_COMM_WORLD) return 0;
  if (c == MPI_COMM_SELF) return 1;
  if (c == MPI_COMM_NULL) return 2;
  for (int i = 0; i < nftab; i++)
    if (ftab[i] == c) return 3 + i;
  ftab = realloc(ftab, sizeof(MPI_Comm) * (nftab + 1));
  ftab[nftab] = c;
  return 3 + nftab++;
}
MPI_Comm MPI_Comm_f2c(MPI_Fint f) {
  if (f == 0) return MPI_COMM_WORLD;
  if (f == 1) return MPI_COMM_SELF;
  if (f >= 3 && f - 3 < nftab) return ftab[f - 3];
  return MPI_COMM_NULL;
}
MPI_Fint MPI_Type_c2f(MPI_Datatype t) {
  return t == MPI_INT ? 7 : t == MPI_DOUBLE ? 17 : 0;
}
MPI_Datatype MPI_Type_f2c(MPI_Fint f) { return f == 7 ? (MPI_Datatype)&ompi_mpi_integer : f == 17 ? (MPI_Datatype)&ompi_mpi_dblprec : MPI_DATATYPE_NULL; }
MPI_Fint MPI_Op_c2f(MPI_Op o) { return o->id; }
MPI_Op MPI_Op_f2c(MPI_Fint f) { return f == O_SUM ? MPI_SUM : f == O_MAX ? MPI_MAX : f == O_MIN ? MPI_MIN : MPI_OP_NULL; }

// ------------------------------------------------------------------ init / finalize / misc
static int initialized, finalized;
int MPI_Init_thread(int *ac, char ***av, int req, int *prov) {
  (void)ac; (void)av;
  if (!W || sim_rank < 0) { fprintf(stderr, "MPI_Init outside a simulation\n"); exit(3); }
  if (initialized) sim_die(OUT_MISUSE, 0, "MPI_Init called twice on rank %d", sim_rank);
  init_comms();
  initialized = 1;
  W->r[sim_rank].initialized = 1;
  if (prov) *prov = req > MPI_THREAD_SERIALIZED ? MPI_THREAD_SERIALIZED : req;
  mcall("Init");
  return 0;
}
int MPI_Init(int *a, char ***b) { int p; return MPI_Init_thread(a, b, MPI_THREAD_SINGLE, &p); }
int MPI_Initialized(int *f) { *f = initialized; return 0; }
int MPI_Finalized(int *f) { *f = finalized; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_SERIALIZED; return 0; }
int MPI_Is_thread_main(int *p) { *p = 1; return 0; }
int MPI_Finalize(void) {
  if (finalized) sim_die(OUT_MISUSE, 0, "MPI_Finalize called twice on rank %d", sim_rank);
  del_all_attrs(MPI_COMM_SELF);
  MPI_Barrier(MPI_COMM_WORLD);
  progress();
  for (Msg *m = W->inbox_head[sim_rank]; m; m = m->next) W->leftover_msgs++;
  finalized = 1;
  W->r[sim_rank].finalized = 1;
  return 0;
}
int MPI_Abort(MPI_Comm c, int code) {
  (void)c;
  sim_die(OUT_ABORT, code, "MPI_Abort(%d) on rank %d", code, sim_rank);
}
int MPI_Get_library_version(char *v, int *l) { strcpy(v, "Open MPI v4.1.6 (simulated)"); *l = strlen(v); return 0; }
int MPI_Get_version(int *a, int *b) { *a = 3; *b = 1; return 0; }
int MPI_Get_processor_name(char *n, int *l) { strcpy(n, "sim"); *l = 3; return 0; }
int MPI_Pcontrol(const int l, ...) { (void)l; return 0; }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { (void)i; *(void **)p = malloc(n); return 0; }
int MPI_Free_mem(void *p) { free(p); return 0; }

// info
int MPI_Info_create(MPI_Info *i) { *i = calloc(1, sizeof **i); return 0; }
int MPI_Info_set(MPI_Info i, const char *k, const char *v) {
  if (i->n < 64) { i->k[i->n] = strdup(k); i->v[i->n++] = strdup(v); }
  return 0;
}
int MPI_Info_dup(MPI_Info a, MPI_Info *b) {
  *b = calloc(1, sizeof **b);
  for (int i = 0; i < a->n; i++) MPI_Info_set(*b, a->k[i], a->v[i]);
  return 0;
}
int MPI_Info_free(MPI_Info *i) { *i = MPI_INFO_NULL; return 0; }
int MPI_Info_get(MPI_Info i, const char *k, int l, char *v, int *f) {
  *f = 0;
  for (int j = 0; j < i->n; j++)
    if (!strcmp(i->k[j], k)) { snprintf(v, l + 1, "%s", i->v[j]); *f = 1; }
  return 0;
}
int MPI_Info_get_nkeys(MPI_Info i, int *n) { *n = i->n; return 0; }
int MPI_Info_get_nthkey(MPI_Info i, int n, char *k) { strcpy(k, i->k[n]); return 0; }
int MPI_Info_get_valuelen(MPI_Info i, const char *k, int *l, int *f) {
  *f = 0;
  for (int j = 0; j < i->n; j++)
    if (!strcmp(i->k[j], k)) { *l = strlen(i->v[j]); *f = 1; }
  return 0;
}

// ------------------------------------------------------------------ MPI-IO
static int errno_to_mpi(int e) { return e == ENOSPC ? MPI_ERR_NO_SPACE : e == ENOENT ? MPI_ERR_NO_SUCH_FILE : e == EACCES ? MPI_ERR_ACCESS : MPI_ERR_IO; }
static int fcoll(MPI_Comm c);
int MPI_File_open(MPI_Comm c, const char *path, int amode, MPI_Info info, MPI_File *f) {
  (void)info;
  fcoll(c); // the file is touched only when all ranks of the communicator have called (as in ROMIO and OMPIO)
  Coll k;
  coll_start(&k, c, K_FOPEN, 0, amode, -1);
  Slot *s = k.s;
  int fl = (amode & MPI_MODE_RDWR) ? O_RDWR : (amode & MPI_MODE_WRONLY) ? O_WRONLY : O_RDONLY;
  int fd = -1, tried = 0;
  if (!s->claimed) { // the first rank creates the file; the outcome is common to all
    s->claimed = 1;
    int e = sd_open(path, fl | ((amode & MPI_MODE_CREATE) ? O_CREAT : 0) | ((amode & MPI_MODE_EXCL) ? O_EXCL : 0), 0644);
    if (e < 0) s->err = errno ? errno : EIO;
    else fd = e;
    tried = 1;
  }
  s->left--;
  coll_wait(&k);
  int err = s->err;
  if (!err && !tried) {
    fd = syscall(SYS_openat, AT_FDCWD, path, fl, 0);
    if (fd < 0) err = EIO;
  }
  slot_leave(s);
  if (err) { if (fd >= 0) close(fd); *f = MPI_FILE_NULL; return errno_to_mpi(err); }
  MPI_File x = calloc(1, sizeof *x);
  x->fd = fd;
  x->comm = newcomm(0, c->size, c->w);
  x->comm->hdf5 = c->hdf5;
  x->comm->cid = c->cid;
  free(x->comm);
  x->comm = c;
  x->etype = x->ftype = MPI_BYTE;
  x->amode = amode;
  snprintf(x->path, sizeof x->path, "%s", path);
  if (!tried) { // register the path with the simulated disk without counting an operation
    extern void sd_adopt(int fd, const char *path);
    sd_adopt(fd, path);
  }
  *f = x;
  return 0;
}
static int fcoll(MPI_Comm c) {
  Coll k;
  coll_start(&k, c, K_FCOLL, 0, -1, -1);
  return coll_wait(&k);
}
int MPI_File_close(MPI_File *f) {
  fcoll((*f)->comm);
  int r = sd_close((*f)->fd);
  free(*f);
  *f = MPI_FILE_NULL;
  return r ? MPI_ERR_IO : 0;
}
int MPI_File_delete(const char *p, MPI_Info i) { (void)i; return unlink(p) ? MPI_ERR_IO : 0; }
int MPI_File_get_size(MPI_File f, MPI_Offset *s) { mcall("File_get_size"); *s = sd_size(f->fd); return *s < 0 ? MPI_ERR_IO : 0; }
int MPI_File_set_size(MPI_File f, MPI_Offset s) {
  Coll k;
  coll_start(&k, f->comm, K_FCOLL, 0, s, -1);
  Slot *sl = k.s;
  if (!sl->claimed) {
    sl->claimed = 1;
    if (sd_ftruncate(f->fd, s)) sl->err = errno;
  }
  sl->left--;
  coll_wait(&k);
  int e = sl->err;
  slot_leave(sl);
  return e ? errno_to_mpi(e) : 0;
}
int MPI_File_preallocate(MPI_File f, MPI_Offset s) { (void)f; (void)s; return fcoll(f->comm); }
int MPI_File_set_view(MPI_File f, MPI_Offset d, MPI_Datatype e, MPI_Datatype t, const char *rep, MPI_Info i) {
  (void)rep; (void)i;
  fcoll(f->comm);
  f->disp = d;
  f->etype = hold(e);
  f->ftype = hold(t);
  f->pos = 0;
  return 0;
}
int MPI_File_get_position(MPI_File f, MPI_Offset *o) { *o = f->pos; return 0; }
int MPI_File_seek(MPI_File f, MPI_Offset o, int wh) { if (wh == MPI_SEEK_SET) f->pos = o; else if (wh == MPI_SEEK_CUR) f->pos += o; else UNSUP("seek end"); return 0; }
int MPI_File_get_atomicity(MPI_File f, int *a) { *a = f->atomic; return 0; }
int MPI_File_set_atomicity(MPI_File f, int a) { fcoll(f->comm); f->atomic = a; return 0; }
int MPI_File_sync(MPI_File f) {
  fcoll(f->comm);
  return sd_fsync(f->fd) ? MPI_ERR_IO : 0;
}
int MPI_File_get_info(MPI_File f, MPI_Info *i) { (void)f; return MPI_Info_create(i); }
int MPI_File_set_info(MPI_File f, MPI_Info i) { (void)f; (void)i; return 0; }
int MPI_File_set_errhandler(MPI_File f, MPI_Errhandler e) { (void)f; (void)e; return 0; }

// iterate the view: visible byte `pos` (in view bytes) -> file offset runs
typedef int (*runfn)(MPI_File f, char *b, int64_t n, int64_t off, int64_t *done);
static int w_run(MPI_File f, char *b, int64_t n, int64_t off, int64_t *done) {
  while (n > 0) {
    ssize_t r = sd_pwrite(f->fd, b, n, off);
    if (r < 0) return errno_to_mpi(errno);
    if (r == 0) return MPI_ERR_IO;
    b += r; off += r; n -= r; *done += r;
  }
  return 0;
}
static int r_run(MPI_File f, char *b, int64_t n, int64_t off, int64_t *done) {
  while (n > 0) {
    ssize_t r = sd_pread(f->fd, b, n, off);
    if (r < 0) return errno_to_mpi(errno);
    if (r == 0) return -1; // EOF
    b += r; off += r; n -= r; *done += r;
  }
  return 0;
}
static int view_io(MPI_File f, int64_t vpos, char *b, int64_t len, runfn fn, int64_t *done) {
  MPI_Datatype t = f->ftype;
  int64_t ex = extent(t);
  if (t->contig || t->size == 0) return len ? fn(f, b, len, f->disp + vpos, done) : 0;
  int64_t tile = vpos / t->size, in = vpos % t->size;
  while (len > 0) {
    for (int s = 0; s < t->nseg && len > 0; s++) {
      int64_t sl = t->seg[s].n * bsize[t->seg[s].b];
      if (in >= sl) { in -= sl; continue; }
      int64_t m = sl - in < len ? sl - in : len;
      int e = fn(f, b, m, f->disp + tile * ex + t->seg[s].disp + in, done);
      if (e) return e;
      b += m; len -= m;
      in = 0;
    }
    tile++;
    in = 0;
  }
  return 0;
}
static int x_write(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *st) {
  int64_t len = packsize(t, n), done = 0;
  char *tmp = malloc(len ? len : 1);
  pack(tmp, b, t, n);
  sim_hash(tmp, len);
  int e = view_io(f, o * f->etype->size, tmp, len, w_run, &done);
  free(tmp);
  MPI_Status s = empty_status;
  s._ucount = done;
  set_status(st, &s);
  return e;
}
static int x_read(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *st) {
  int64_t len = packsize(t, n), done = 0;
  char *tmp = calloc(1, len ? len : 1);
  int e = view_io(f, o * f->etype->size, tmp, len, r_run, &done);
  if (e == -1) e = 0; // EOF: short count
  unpack(b, tmp, t, n, done);
  free(tmp);
  MPI_Status s = empty_status;
  s._ucount = done;
  set_status(st, &s);
  return e;
}
int MPI_File_write_at(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) { mcall("File_write_at"); return x_write(f, o, b, n, t, s); }
int MPI_File_read_at(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s) { mcall("File_read_at"); return x_read(f, o, b, n, t, s); }
int MPI_File_write_at_all(MPI_File f, MPI_Offset o, const void *b, int n, MPI_Datatype t, MPI_Status *s) {
  fcoll(f->comm);
  return x_write(f, o, b, n, t, s);
}
int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void *b, int n, MPI_Datatype t, MPI_Status *s) {
  fcoll(f->comm);
  return x_read(f, o, b, n, t, s);
}
int MPI_File_write_all(MPI_File f, const void *b, int n, MPI_Datatype t, MPI_Status *s) {
  fcoll(f->comm);
  int e = x_write(f, f->pos, b, n, t, s);
  f->pos += packsize(t, n) / f->etype->size;
  return e;
}
int MPI_File_read_all(MPI_File f, void *b, int n, MPI_Datatype t, MPI_Status *s) {
  fcoll(f->comm);
  int e = x_read(f, f->pos, b, n, t, s);
  f->pos += packsize(t, n) / f->etype->size;
  return e;
}

// ------------------------------------------------------------------ unsupported
#define STUB(name) int name(void) { UNSUP(#name); }
#undef MPI_Win_create
STUB(sim_unused_)
int MPI_Win_create(void *a, MPI_Aint b, int c, MPI_Info d, MPI_Comm e, MPI_Win *f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; UNSUP("Win_create"); }
int MPI_Win_allocate_shared(MPI_Aint a, int b, MPI_Info c, MPI_Comm d, void *e, MPI_Win *f) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; UNSUP("Win_allocate_shared"); }
int MPI_Win_shared_query(MPI_Win a, int b, MPI_Aint *c, int *d, void *e) { (void)a; (void)b; (void)c; (void)d; (void)e; UNSUP("Win_shared_query"); }
int MPI_Win_free(MPI_Win *a) { (void)a; UNSUP("Win_free"); }
int MPI_Win_fence(int a, MPI_Win b) { (void)a; (void)b; UNSUP("Win_fence"); }
int MPI_Win_lock(int a, int b, int c, MPI_Win d) { (void)a; (void)b; (void)c; (void)d; UNSUP("Win_lock"); }
int MPI_Win_unlock(int a, MPI_Win b) { (void)a; (void)b; UNSUP("Win_unlock"); }
int MPI_Win_post(MPI_Group a, int b, MPI_Win c) { (void)a; (void)b; (void)c; UNSUP("Win_post"); }
int MPI_Win_start(MPI_Group a, int b, MPI_Win c) { (void)a; (void)b; (void)c; UNSUP("Win_start"); }
int MPI_Win_complete(MPI_Win c) { (void)c; UNSUP("Win_complete"); }
int MPI_Win_wait(MPI_Win c) { (void)c; UNSUP("Win_wait"); }
int MPI_Accumulate(const void *a, int b, MPI_Datatype c, int d, MPI_Aint e, int f, MPI_Datatype g, MPI_Op h, MPI_Win i) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; UNSUP("Accumulate"); }
int MPI_Get(void *a, int b, MPI_Datatype c, int d, MPI_Aint e, int f, MPI_Datatype g, MPI_Win i) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)i; UNSUP("Get"); }
int MPI_Rget(void *a, int b, MPI_Datatype c, int d, MPI_Aint e, int f, MPI_Datatype g, MPI_Win i, MPI_Request *r) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)i; (void)r; UNSUP("Rget"); }
int MPI_Get_accumulate(const void *a, int b, MPI_Datatype c, void *r, int rc, MPI_Datatype rt, int d, MPI_Aint e, int f, MPI_Datatype g, MPI_Op h, MPI_Win i) { (void)a; (void)b; (void)c; (void)r; (void)rc; (void)rt; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; UNSUP("Get_accumulate"); }
int MPI_Dist_graph_create_adjacent(MPI_Comm a, int b, const int c[], const int d[], int e, const int f[], const int g[], MPI_Info h, int i, MPI_Comm *j) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; (void)j; UNSUP("Dist_graph"); }
int MPI_Neighbor_alltoallv(const void *a, const int b[], const int c[], MPI_Datatype d, void *e, const int f[], const int g[], MPI_Datatype h, MPI_Comm i) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; UNSUP("Neighbor_alltoallv"); }
int MPI_Ineighbor_alltoallv(const void *a, const int b[], const int c[], MPI_Datatype d, void *e, const int f[], const int g[], MPI_Datatype h, MPI_Comm i, MPI_Request *j) { (void)a; (void)b; (void)c; (void)d; (void)e; (void)f; (void)g; (void)h; (void)i; (void)j; UNSUP("Ineighbor_alltoallv"); }

// ------------------------------------------------------------------ Fortran entry points used by PETSc / the demos
void mpi_init_(int *e) { *e = MPI_Init(NULL, NULL); }
void mpi_abort_(int *c, int *code, int *e) { *e = MPI_Abort(MPI_Comm_f2c(*c), *code); }
void mpi_comm_rank_(int *c, int *r, int *e) { *e = MPI_Comm_rank(MPI_Comm_f2c(*c), r); }
void mpi_comm_size_(int *c, int *r, int *e) { *e = MPI_Comm_size(MPI_Comm_f2c(*c), r); }
void mpi_finalize_(int *e) { *e = MPI_Finalize(); }
void mpi_initialized_(int *f, int *e) { *e = MPI_Initialized(f); }
void mpi_barrier_(int *c, int *e) { *e = MPI_Barrier(MPI_Comm_f2c(*c)); }
