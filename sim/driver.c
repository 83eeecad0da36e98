// Workload driver: runs a small program of operations against TDycore on one rank.
// Everything it observes goes through sim_obs(); it is linked with the real TDycore and PETSc.
#define _GNU_SOURCE
#include <execinfo.h>
#include <dlfcn.h>
#include <malloc.h>
#include "sim.h"
#include <dlfcn.h>
#define H5_USE_110_API
#include <hdf5.h>
#include <math.h>
#include <petsc.h>
#include <petscviewerhdf5.h>
#include <private/tdycoreimpl.h>
#include <private/tdyioimpl.h>
#include <private/tdympfaoimpl.h>
#include <private/tdyfvtpfimpl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <tdycore.h>
#include <tdyio.h>
#include <tdytimers.h>
#include "fx.h"
int LF = 0; // the language of the interface in use: 0 C, 1 Fortran
static int fx_id(TDySpatialFunction f);

#define CK(x)                  \
  do {                         \
    PetscErrorCode e_ = (x);   \
    if (e_) return e_;         \
  } while (0)

#define MAXTDY 4
static TDy T[MAXTDY];
static int cur = 0; // current instance
#define tdy T[cur]
static SNES mysnes[MAXTDY];
static int step_log = 0; // record every nonlinear solve
static int solve_no = 0;
static int cell_obs = 0;
static long myalloc = 0, allalloc = 0;
static int cur_op = 0;

// ------------------------------------------------------------ hashing / fields
static uint64_t mix(uint64_t z) {
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static double hash01(uint64_t seed, const double *x, int dim) {
  uint64_t h = mix(seed + 0x9E3779B97F4A7C15ull);
  for (int d = 0; d < dim; d++) {
    int64_t k = (int64_t)llround(x[d] * 1e7);
    h = mix(h ^ ((uint64_t)k + 0x9E3779B97F4A7C15ull * (d + 1)));
  }
  return (h >> 11) * (1.0 / 9007199254740992.0);
}
enum { FK_CONST, FK_LIN, FK_RAND, FK_LOGRAND, FK_HYDRO, FK_SIN, FK_SIDE };
typedef struct {
  int kind;
  double p[10];
} Field;
enum { FL_PORO, FL_KX, FL_KY, FL_KZ, FL_SR, FL_TK, FL_SD, FL_SC, FL_PBC, FL_VBC, FL_TBC, FL_SBC, FL_FORCE, FL_EFORCE, FL_SFORCE, FL_PTYPE, FL_DIFF, FL_MW, FL_IC, FL_IC1, FL_U, FL_U1, FL_V, FL_V1, FL_UDOT, FL_UDOT1, FL_ALPHA, FL_M, FL_KXY, FL_KXZ, FL_KYZ, FL_N };
static const char *flname[] = {"poro", "kx", "ky", "kz", "sr", "tk", "sd", "sc", "pbc", "vbc", "tbc", "sbc", "force", "eforce", "sforce", "ptype", "diff", "mw", "ic", "ic1", "u", "u1", "v", "v1", "udot", "udot1", "alpha", "m", "kxy", "kxz", "kyz"};
static Field FF[MAXTDY][FL_N];
#define F FF[cur]
static int DIMS[MAXTDY] = {3, 3, 3, 3}; // space dimension of the meshes
#define DIM DIMS[cur]
static double feval(const Field *f, const double *xx) {
  const double *p = f->p;
  double x[3] = {xx[0], xx[1], DIM == 3 ? xx[2] : 0};
  switch (f->kind) {
    case FK_LIN: return p[0] + p[1] * x[0] + p[2] * x[1] + p[3] * x[2];
    case FK_RAND: return p[0] + p[1] * (2 * hash01((uint64_t)p[2], x, 3) - 1);
    case FK_LOGRAND: return p[0] * pow(10., p[1] * (2 * hash01((uint64_t)p[2], x, 3) - 1));
    case FK_HYDRO: return p[0] + p[1] * (p[2] - x[2]);
    case FK_SIN: return p[0] + p[1] * sin(p[2] * x[0] + p[3] * x[1] + p[4] * x[2]);
    case FK_SIDE: return x[(int)p[0]] < p[1] ? p[2] : p[3]; // two-valued by coordinate
    default: return p[0];
  }
}
static int setfield(char *args) {
  char name[32], kind[32];
  int n = 0;
  if (sscanf(args, "%31s %31s%n", name, kind, &n) < 2) return 1;
  int id = -1;
  for (int i = 0; i < FL_N; i++)
    if (!strcmp(name, flname[i])) id = i;
  if (id < 0) return 1;
  Field *f = &F[id];
  memset(f, 0, sizeof *f);
  const char *kn[] = {"const", "lin", "rand", "logrand", "hydro", "sin", "side"};
  f->kind = -1;
  for (int i = 0; i < 7; i++)
    if (!strcmp(kind, kn[i])) f->kind = i;
  if (f->kind < 0) return 1;
  char *s = args + n;
  for (int i = 0; i < 10; i++) {
    char *e;
    double v = strtod(s, &e);
    if (e == s) break;
    f->p[i] = v;
    s = e;
  }
  return 0;
}
#define SCALARFN(nm, id) \
  static void fn_##nm(PetscInt n, PetscReal *x, PetscReal *f) { for (PetscInt i = 0; i < n; i++) f[i] = feval(&F[id], x + DIM * i); }
SCALARFN(poro, FL_PORO)
SCALARFN(kx, FL_KX)
SCALARFN(sr, FL_SR)
SCALARFN(tk, FL_TK)
SCALARFN(sd, FL_SD)
SCALARFN(sc, FL_SC)
SCALARFN(pbc, FL_PBC)
SCALARFN(vbc, FL_VBC)
SCALARFN(tbc, FL_TBC)
SCALARFN(sbc, FL_SBC)
SCALARFN(force, FL_FORCE)
SCALARFN(eforce, FL_EFORCE)
SCALARFN(sforce, FL_SFORCE)
SCALARFN(diff, FL_DIFF)
SCALARFN(mw, FL_MW)
static void fn_kdiag(PetscInt n, PetscReal *x, PetscReal *f) {
  for (PetscInt i = 0; i < n; i++)
    for (int d = 0; d < DIM; d++) f[DIM * i + d] = feval(&F[FL_KX + d], x + DIM * i);
}
static void fn_ktensor(PetscInt n, PetscReal *x, PetscReal *f) {
  for (PetscInt i = 0; i < n; i++) {
    PetscReal *k = f + DIM * DIM * i;
    for (int d = 0; d < DIM * DIM; d++) k[d] = 0;
    for (int d = 0; d < DIM; d++) k[(DIM + 1) * d] = feval(&F[FL_KX + d], x + DIM * i);
    k[1] = k[DIM] = feval(&F[FL_KXY], x + DIM * i);
    if (DIM == 3) {
      k[2] = k[6] = feval(&F[FL_KXZ], x + 3 * i);
      k[5] = k[7] = feval(&F[FL_KYZ], x + 3 * i);
    }
  }
}
static void fn_ptype(PetscInt n, PetscReal *x, PetscInt *f) {
  for (PetscInt i = 0; i < n; i++) f[i] = (PetscInt)feval(&F[FL_PTYPE], x + DIM * i);
}

#define SHAPEFN(nm, id)                                                                                                    \
  static void fn_##nm##_diag(PetscInt n, PetscReal *x, PetscReal *f) {                                                   \
    for (PetscInt i = 0; i < n * DIM; i++) f[i] = feval(&F[id], x + DIM * (i / DIM));                                      \
  }                                                                                                                      \
  static void fn_##nm##_tensor(PetscInt n, PetscReal *x, PetscReal *f) {                                                 \
    for (PetscInt i = 0; i < n; i++)                                                                                     \
      for (int d = 0; d < DIM * DIM; d++) f[DIM * DIM * i + d] = d % (DIM + 1) ? 0. : feval(&F[id], x + DIM * i);        \
  }
SHAPEFN(tk, FL_TK)
SHAPEFN(diff, FL_DIFF)
SHAPEFN(kx, FL_KX)

// ------------------------------------------------------------ mesh constructor
typedef struct {
  int type; // 0 hex 1 wedge 2 tet
  int n[3];
  double lo[3], hi[3];
  double amp; // relative perturbation of interior vertices
  uint64_t seed;
  int zonly;
} MeshSpec;
static MeshSpec MS[MAXTDY];
// box of triangular prisms: every square of the base is cut along one of its diagonals
static PetscErrorCode make_wedges(MPI_Comm comm, MeshSpec *m, DM *dm) {
  int rank;
  MPI_Comm_rank(comm, &rank);
  int nx = m->n[0], ny = m->n[1], nz = m->n[2];
  PetscInt nc = 0, nv = 0, *cells = NULL;
  PetscReal *xyz = NULL;
  if (!rank) {
    nc = 2 * nx * ny * nz;
    nv = (nx + 1) * (ny + 1) * (nz + 1);
  }
  cells = malloc(sizeof(PetscInt) * (6 * nc + 1));
  xyz = malloc(sizeof(PetscReal) * (3 * nv + 1));
  if (!rank) {
#define VTX(i, j, k) ((i) + (nx + 1) * ((j) + (ny + 1) * (k)))
    for (int k = 0; k <= nz; k++)
      for (int j = 0; j <= ny; j++)
        for (int i = 0; i <= nx; i++) {
          double *q = xyz + 3 * VTX(i, j, k);
          q[0] = m->lo[0] + (m->hi[0] - m->lo[0]) * i / nx;
          q[1] = m->lo[1] + (m->hi[1] - m->lo[1]) * j / ny;
          q[2] = m->lo[2] + (m->hi[2] - m->lo[2]) * k / nz;
        }
    PetscInt *c = cells;
    for (int k = 0; k < nz; k++)
      for (int j = 0; j < ny; j++)
        for (int i = 0; i < nx; i++)
          for (int t = 0; t < 2; t++) {
            int vi[4] = {i, i + 1, i + 1, i}, vj[4] = {j, j, j + 1, j + 1};
            int a = 0, b = t ? 2 : 1, d = t ? 3 : 2; // counter-clockwise triangle a b d
            int alt = (i + j + (int)m->seed) & 1;
            if (alt) a = 1, b = t ? 3 : 2, d = t ? 0 : 3;
            *c++ = VTX(vi[a], vj[a], k);
            *c++ = VTX(vi[b], vj[b], k);
            *c++ = VTX(vi[d], vj[d], k);
            *c++ = VTX(vi[a], vj[a], k + 1);
            *c++ = VTX(vi[b], vj[b], k + 1);
            *c++ = VTX(vi[d], vj[d], k + 1);
          }
  }
  CK(DMPlexCreateFromCellListPetsc(comm, 3, nc, nv, 6, PETSC_TRUE, cells, 3, xyz, dm));
  free(cells);
  free(xyz);
  return 0;
}
static PetscErrorCode make_dm(MPI_Comm comm, void *ctx, DM *dm) {
  MeshSpec *m = ctx;
  PetscInt n[3] = {m->n[0], m->n[1], m->n[2]};
  if (m->type == 1)
    CK(make_wedges(comm, m, dm));
  else
    CK(DMPlexCreateBoxMesh(comm, n[2] > 0 ? 3 : 2, m->type == 2, n, m->lo, m->hi, NULL, PETSC_TRUE, dm));
  if (m->amp != 0) {
    Vec c;
    PetscScalar *a;
    PetscInt N;
    CK(DMGetCoordinatesLocal(*dm, &c));
    CK(VecGetLocalSize(c, &N));
    CK(VecGetArray(c, &a));
    double h[3];
    for (int d = 0; d < DIM; d++) h[d] = (m->hi[d] - m->lo[d]) / m->n[d];
    for (PetscInt i = 0; i < N / DIM; i++) {
      double x[3] = {0, 0, 0};
      for (int d = 0; d < DIM; d++) x[d] = a[DIM * i + d];
      for (int d = 0; d < DIM; d++) {
        if (fabs(x[d] - m->lo[d]) < 1e-9 * h[d] || fabs(x[d] - m->hi[d]) < 1e-9 * h[d]) continue;
        // zonly: all faces stay planar. Planes of vertices move along x and y, and layers bend
        // along one direction (hexahedra) or freely (wedges).
        double k[3] = {x[0], x[1], x[2]};
        if (m->zonly && d < 2) k[0] = x[d], k[1] = k[2] = 0;
        if (m->zonly == 1 && d == 2 && m->type != 1) k[m->seed & 1] = 0;
        if (m->zonly == 2 && d == 2) k[2] = x[2], k[0] = k[1] = 0; // a grid of lines
        a[DIM * i + d] = x[d] + m->amp * h[d] * (2 * hash01(m->seed + d, k, 3) - 1);
      }
    }
    CK(VecRestoreArray(c, &a));
  }
  return 0;
}

// ------------------------------------------------------------ observations per cell
static int is_plex(TDy t) { return t->discretization->tdydm->dmtype == PLEX_TYPE; }
static TDyMesh *get_mesh(TDy t) {
  if (t->options.discretization == FV_TPF) return ((TDyFVTPF *)t->context)->mesh;
  if (t->options.discretization <= MPFA_O_TRANSIENTVAR) return ((TDyMPFAO *)t->context)->mesh;
  return NULL;
}
typedef struct {
  PetscInt n;
  double *c; // 4 per cell: centroid, volume
  PetscInt *off;
  PetscInt ndof;
} Cells;
static Cells C[MAXTDY];
// For plex meshes: owned cells by DMPlex geometry.
static PetscErrorCode get_cells(Cells **out) {
  Cells *k = &C[cur];
  if (!k->c) {
    DM dm;
    CK(TDyGetDM(tdy, &dm));
    if (is_plex(tdy)) {
      PetscInt cs, ce, rs;
      PetscSection sec;
      Vec g;
      CK(DMPlexGetHeightStratum(dm, 0, &cs, &ce));
      CK(DMGetGlobalSection(dm, &sec));
      CK(DMCreateGlobalVector(dm, &g));
      CK(VecGetOwnershipRange(g, &rs, NULL));
      CK(VecDestroy(&g));
      k->c = malloc(sizeof(double) * 4 * (ce - cs + 1));
      k->off = malloc(sizeof(PetscInt) * (ce - cs + 1));
      DMLabel ghost = NULL;
      PetscSF sf;
      PetscInt nl;
      const PetscInt *il;
      CK(DMGetPointSF(dm, &sf));
      CK(PetscSFGetGraph(sf, NULL, &nl, &il, NULL));
      char *isg = calloc(ce + 1, 1);
      for (PetscInt i = 0; i < nl; i++) {
        PetscInt q = il ? il[i] : i;
        if (q < ce) isg[q] = 1;
      }
      (void)ghost;
      for (PetscInt c = cs; c < ce; c++) {
        if (isg[c]) continue;
        PetscInt off, nd;
        CK(PetscSectionGetOffset(sec, c, &off));
        CK(PetscSectionGetDof(sec, c, &nd));
        PetscReal vol, cen[3] = {0, 0, 0}, nrm[3];
        CK(DMPlexComputeCellGeometryFVM(dm, c, &vol, cen, nrm));
        double *q = k->c + 4 * k->n;
        q[0] = cen[0];
        q[1] = cen[1];
        q[2] = cen[2];
        q[3] = vol;
        k->off[k->n] = off - rs;
        if (nd > 0) k->ndof = nd;
        k->n++;
      }
      free(isg);
    } else {
      TDyMesh *m = get_mesh(tdy);
      k->c = malloc(sizeof(double) * 4 * (m->num_cells + 1));
      k->off = malloc(sizeof(PetscInt) * (m->num_cells + 1));
      k->ndof = tdy->discretization->tdydm->ugdm->ndof;
      for (PetscInt c = 0; c < m->num_cells; c++) {
        if (!m->cells.is_local[c]) continue;
        double *q = k->c + 4 * k->n;
        for (int d = 0; d < 3; d++) q[d] = m->cells.centroid[c].X[d];
        q[3] = m->cells.volume[c];
        k->off[k->n] = k->n * k->ndof;
        k->n++;
      }
    }
    sim_obs("cells", 'd', k->c, 4 * k->n, 8);
  }
  *out = k;
  return 0;
}
// Dump a global vector per owned cell, comp by comp.
static PetscErrorCode dump(const char *key, Vec v) {
  Cells *k;
  CK(get_cells(&k));
  const PetscScalar *a;
  PetscInt nl;
  CK(VecGetLocalSize(v, &nl));
  CK(VecGetArrayRead(v, &a));
  double *o = malloc(sizeof(double) * (k->n * k->ndof + 1));
  for (PetscInt i = 0; i < k->n; i++)
    for (PetscInt d = 0; d < k->ndof; d++) {
      PetscInt j = k->off[i] + d;
      o[i * k->ndof + d] = (j >= 0 && j < nl) ? a[j] : NAN;
    }
  CK(VecRestoreArrayRead(v, &a));
  sim_obs_d(key, o, k->n * k->ndof);
  free(o);
  return 0;
}
// Dump a vector as it is distributed (natural vectors): gathered with its offset.
static PetscErrorCode dumpraw(const char *key, Vec v) {
  PetscInt rs, re;
  const PetscScalar *a;
  char kk[64];
  CK(VecGetOwnershipRange(v, &rs, &re));
  CK(VecGetArrayRead(v, &a));
  snprintf(kk, sizeof kk, "%s@%d", key, (int)rs);
  sim_obs_d(kk, a, re - rs);
  CK(VecRestoreArrayRead(v, &a));
  return 0;
}
static PetscErrorCode fill(Vec v, int f0, int f1) {
  Cells *k;
  CK(get_cells(&k));
  PetscScalar *a;
  PetscInt nl;
  CK(VecGetLocalSize(v, &nl));
  CK(VecGetArray(v, &a));
  for (PetscInt i = 0; i < k->n; i++)
    for (PetscInt d = 0; d < k->ndof; d++) {
      PetscInt j = k->off[i] + d;
      if (j >= 0 && j < nl) a[j] = feval(&F[d ? f1 : f0], k->c + 4 * i);
    }
  CK(VecRestoreArray(v, &a));
  return 0;
}

// ------------------------------------------------------------ seams
void driver_set_seams(const SimParams *P) { (void)P; }

// nonlinear solver seam: count, record, and inject solver failure
PetscErrorCode SNESSolve(SNES snes, Vec b, Vec x) {
  static PetscErrorCode (*real)(SNES, Vec, Vec) = NULL;
  if (!real) real = (PetscErrorCode(*)(SNES, Vec, Vec))dlsym(RTLD_NEXT, "SNESSolve");
  if (!W || sim_rank < 0) return real(snes, b, x);
  int n = solve_no++;
  if (sim_rank == 0) W->solve_count++;
  SimFault *f = NULL;
  for (int i = 0; i < W->P.nfault; i++)
    if (W->P.fault[i].kind == F_SNES && W->P.fault[i].n == n) f = &W->P.fault[i];
  double rec[6] = {n, tdy && tdy->ti ? tdy->ti->time : NAN, tdy && tdy->ti ? tdy->ti->dt : NAN, tdy ? tdy->dtime : NAN, tdy && tdy->ti ? tdy->ti->istep : NAN, 0};
  if (step_log) sim_obs_d("solve.begin", rec, 6);
  if (step_log > 1 && tdy) {
    CK(dump("solve.prev", tdy->soln_prev));
    CK(dump("solve.guess", x ? x : tdy->soln));
  }
  PetscErrorCode e;
  PetscReal atol, rtol, stol;
  PetscInt maxit, maxf;
  if (f && f->b == 0) {
    SNESGetTolerances(snes, &atol, &rtol, &stol, &maxit, &maxf);
    SNESSetTolerances(snes, 1e-300, 1e-300, 0, (PetscInt)f->a, maxf);
  }
  e = real(snes, b, x);
  if (f && f->b == 0) SNESSetTolerances(snes, atol, rtol, stol, maxit, maxf);
  SNESConvergedReason rs = 0;
  if (!e) SNESGetConvergedReason(snes, &rs);
  if (!e && f && f->b != 0) {
    // the solver gives up, leaving an arbitrary iterate behind
    Vec X = x ? x : tdy->soln;
    if (f->b == 2) {
      PetscScalar *a;
      PetscInt nl;
      VecGetLocalSize(X, &nl);
      VecGetArray(X, &a);
      for (PetscInt i = 0; i < nl; i++) a[i] = a[i] * (1. + 0.5 * hash01(n * 7919 + i, a + i, 1)) + 1.0;
      VecRestoreArray(X, &a);
    }
    SNESSetConvergedReason(snes, SNES_DIVERGED_LINE_SEARCH);
    rs = SNES_DIVERGED_LINE_SEARCH;
  }
  if (f && sim_rank == 0) {
    f->fired = 1;
    W->fired[F_SNES]++;
  }
  if (step_log) {
    double r2[4] = {n, rs, f ? 1 : 0, e};
    sim_obs_d("solve.end", r2, 4);
  }
  if (step_log > 1 && tdy && !e) CK(dump("solve.x", x ? x : tdy->soln));
  return e;
}

// allocation seam
static PetscErrorCode (*omalloc)(size_t, PetscBool, int, const char[], const char[], void **);
static PetscErrorCode (*ofree)(void *, int, const char[], const char[]);
static PetscErrorCode (*orealloc)(size_t, int, const char[], const char[], void **);
typedef struct {
  const char *file, *fn;
  int line, all;
  long first, count;
} AllocSite;
static AllocSite *asite = NULL;
static int nasite = 0, asitecap = 0;
static void alloc_note(const char *file, const char *fn, int line, int all, long k) {
  for (int i = 0; i < nasite; i++)
    if (asite[i].line == line && asite[i].all == all && asite[i].file == file && asite[i].fn == fn) {
      asite[i].count++;
      return;
    }
  if (nasite == asitecap) asite = realloc(asite, sizeof *asite * (asitecap = asitecap ? 2 * asitecap : 256));
  asite[nasite++] = (AllocSite){file, fn, line, all, k, 1};
}
// the call sites in TDycore from which PETSc requests memory: the two innermost frames in this program (TDycore and the driver), in runs that only count
typedef struct {
  void *pc[2];
  long first, last, count;
} CallSite;
static CallSite *csite = NULL;
static int ncsite = 0, csitecap = 0;
static void call_note(long l) {
  extern char __executable_start, etext;
  void *pc[32], *k[2] = {NULL, NULL};
  int np = backtrace(pc, 32), m = 0;
  for (int q = 3; q < np && m < 2; q++)
    if ((char *)pc[q] >= &__executable_start && (char *)pc[q] < &etext) k[m++] = pc[q];
  for (int i = 0; i < ncsite; i++)
    if (csite[i].pc[0] == k[0] && csite[i].pc[1] == k[1]) {
      csite[i].count++;
      csite[i].last = l;
      return;
    }
  if (ncsite == csitecap) csite = realloc(csite, sizeof *csite * (csitecap = csitecap ? 2 * csitecap : 256));
  csite[ncsite++] = (CallSite){{k[0], k[1]}, l, l, 1};
}
// a fault of kind alloc: n = number of the allocation on the rank, counted among those of TDycore (a = 0) or all of PETSc's (a = 1)
static PetscErrorCode alloc_fault(int line, const char fn[], const char file[], void **r, int isre) {
  int mine = file && strstr(file, "tdy");
  long k = mine ? myalloc++ : -1, l = allalloc++;
  if (mine && sim_rank == 0) W->alloc_count++;
  if (W->P.nfault) {
    if (mine) alloc_note(file, fn, line, 0, k);
    alloc_note(file, fn, line, 1, l);
    for (int i = 0; i < W->P.nfault; i++)
      if (W->P.fault[i].kind == F_ALLOC && W->P.fault[i].n == -1 && W->P.fault[i].a == 2) {
        call_note(l);
        break;
      }
  }
  for (int i = 0; i < W->P.nfault; i++) {
    SimFault *f = &W->P.fault[i];
    if (f->kind == F_ALLOC && (f->rank < 0 || f->rank == sim_rank) && !f->fired && (f->a ? f->n == l : mine && f->n == k)) {
      f->fired = 1;
      W->fired[F_ALLOC]++;
      if (!isre) *r = NULL;
      char b[200];
      const char *bn = file ? strrchr(file, '/') : NULL;
      snprintf(b, sizeof b, "%s:%s", bn ? bn + 1 : file ? file : "?", fn ? fn : "?");
      sim_obs_s("alloc.site", b);
      sim_obs_i("alloc.op", &cur_op, 1);
      { // who asked for it: the names that the dynamic symbol table knows
        void *pc[24];
        char st[600] = "";
        int np = backtrace(pc, 24);
        for (int q = 2; q < np && strlen(st) < 500; q++) {
          Dl_info in;
          if (dladdr(pc[q], &in) && in.dli_sname) snprintf(st + strlen(st), sizeof st - strlen(st), "%s%.60s", *st ? "<" : "", in.dli_sname);
        }
        sim_obs_s("alloc.stack", st);
      }
      return PetscError(PETSC_COMM_SELF, line, fn, file, PETSC_ERR_MEM, PETSC_ERROR_INITIAL, "simulated allocation failure");
    }
  }
  return 0;
}
static PetscErrorCode sim_malloc(size_t n, PetscBool clear, int line, const char fn[], const char file[], void **r) {
  PetscErrorCode e = n ? alloc_fault(line, fn, file, r, 0) : 0;
  return e ? e : omalloc(n, clear, line, fn, file, r);
}
static PetscErrorCode sim_realloc(size_t n, int line, const char fn[], const char file[], void **r) {
  PetscErrorCode e = n ? alloc_fault(line, fn, file, r, 1) : 0;
  return e ? e : orealloc(n, line, fn, file, r);
}
static void alloc_seam(void) {
  static int done = 0;
  int na_ = 0;
  for (int i = 0; i < W->P.nfault; i++) na_ |= W->P.fault[i].kind == F_ALLOC;
  if (!na_ || done) return;
  done = 1;
  extern PetscErrorCode (*PetscTrMalloc)(size_t, PetscBool, int, const char[], const char[], void **);
  extern PetscErrorCode (*PetscTrFree)(void *, int, const char[], const char[]);
  extern PetscErrorCode (*PetscTrRealloc)(size_t, int, const char[], const char[], void **);
  omalloc = PetscTrMalloc;
  ofree = PetscTrFree;
  orealloc = PetscTrRealloc;
  PetscTrMalloc = sim_malloc;
  PetscTrRealloc = sim_realloc;
}

// accounting of the memory that PETSc and TDycore hold on this process
typedef struct {
  void *p;
  size_t n;
  int site;
} Block;
static Block *blk = NULL;
static size_t blkcap = 0, blkn = 0, live_bytes = 0, peak_bytes = 0;
static char sites[4096][96];
static long site_live[4096], site_mark[4096];
static int nsites = 0;
static int site_of(const char *file, const char *fn) {
  char b[96];
  const char *bn = file ? strrchr(file, '/') : NULL;
  snprintf(b, sizeof b, "%s:%s", bn ? bn + 1 : (file ? file : "?"), fn ? fn : "?");
  for (int i = 0; i < nsites; i++)
    if (!strcmp(sites[i], b)) return i;
  if (nsites >= 4095) return 4095;
  strcpy(sites[nsites], b);
  return nsites++;
}
static size_t blk_slot(void *p) {
  size_t h = ((uintptr_t)p >> 4) * 11400714819323198485ull >> 20;
  for (h %= blkcap; blk[h].p && blk[h].p != p; h = (h + 1) % blkcap) ;
  return h;
}
static void blk_add(void *p, size_t n, const char *file, const char *fn) {
  if (!p) return;
  if (2 * (blkn + 1) > blkcap) {
    Block *o = blk;
    size_t oc = blkcap;
    blkcap = oc ? 2 * oc : 1 << 16;
    blk = calloc(blkcap, sizeof *blk);
    for (size_t i = 0; i < oc; i++)
      if (o[i].p) blk[blk_slot(o[i].p)] = o[i];
    free(o);
  }
  size_t h = blk_slot(p);
  if (!blk[h].p) blkn++;
  blk[h].p = p;
  blk[h].n = n;
  blk[h].site = site_of(file, fn);
  site_live[blk[h].site]++;
  live_bytes += n;
  if (live_bytes > peak_bytes) peak_bytes = live_bytes;
}
static void blk_del(void *p) {
  if (!p || !blkcap) return;
  size_t h = blk_slot(p);
  if (!blk[h].p) return;
  live_bytes -= blk[h].n;
  site_live[blk[h].site]--;
  blkn--;
  blk[h].p = NULL;
  // keep the probe sequences intact
  for (size_t j = (h + 1) % blkcap; blk[j].p; j = (j + 1) % blkcap) {
    Block b = blk[j];
    blk[j].p = NULL;
    blk[blk_slot(b.p)] = b;
  }
}
static PetscErrorCode acct_malloc(size_t n, PetscBool clear, int line, const char fn[], const char file[], void **r) {
  PetscErrorCode e = omalloc(n, clear, line, fn, file, r);
  if (!e) blk_add(*r, n, file, fn);
  return e;
}
static PetscErrorCode acct_free(void *p, int line, const char fn[], const char file[]) {
  blk_del(p);
  return ofree(p, line, fn, file);
}
static PetscErrorCode acct_realloc(size_t n, int line, const char fn[], const char file[], void **r) {
  void *p = *r;
  PetscErrorCode e = orealloc(n, line, fn, file, r);
  if (!e) {
    blk_del(p);
    blk_add(*r, n, file, fn);
  }
  return e;
}

static int nerr = 0;
static PetscErrorCode on_error(MPI_Comm comm, int line, const char *fun, const char *file, PetscErrorCode n, PetscErrorType p, const char *mess, void *ctx) {
  if (p == PETSC_ERROR_INITIAL && nerr < 8) {
    char b[600];
    const char *bn = file ? strrchr(file, '/') : NULL;
    snprintf(b, sizeof b, "%d %s %s: %s", (int)n, fun ? fun : "?", bn ? bn + 1 : (file ? file : "?"), mess ? mess : "");
    nerr++;
    if (W && sim_rank >= 0) sim_obs_s("perr", b);
  }
  if (p == PETSC_ERROR_INITIAL) fprintf(stderr, "PETSC ERROR %d at %s:%d %s: %s\n", (int)n, file ? file : "?", line, fun ? fun : "?", mess ? mess : "");
  else fprintf(stderr, "   from %s:%d %s\n", file ? file : "?", line, fun ? fun : "?");
  return n;
}

// ------------------------------------------------------------ operations
static int shut_count = 0;
static int shut_order[4096];
static void on_shut_(int k) {
  if (shut_count < 4096) shut_order[shut_count] = k;
  shut_count++;
}
static void on_shut(void) { on_shut_(0); }
static void on_shut1(void) { on_shut_(1); }
static void on_shut2(void) { on_shut_(2); }

static PetscErrorCode snes_of(SNES *s) {
  if (mysnes[cur])
    *s = mysnes[cur];
  else
    *s = tdy->ti ? tdy->ti->snes : NULL;
  return 0;
}

static int ts_steps[8], ts_last[8];
static PetscErrorCode ts_monitor(TS ts, PetscInt step, PetscReal t, Vec u, void *ctx) {
  int k = (int)(long)ctx;
  if (step > ts_last[k]) ts_steps[k]++;
  ts_last[k] = step;
  return 0;
}

static PetscErrorCode op_observe(const char *tag) {
  char key[64];
  snprintf(key, sizeof key, "%s.soln", tag);
  if (tdy->soln) CK(dump(key, tdy->soln));
  snprintf(key, sizeof key, "%s.prev", tag);
  if (tdy->soln_prev) CK(dump(key, tdy->soln_prev));
  if (tdy->ti) {
    double t[4] = {tdy->ti->time, tdy->ti->dt, tdy->ti->istep, ts_steps[cur]};
    snprintf(key, sizeof key, "%s.time", tag);
    sim_obs_d(key, t, 4);
  }
  return 0;
}

// natural-order vector -> solution ordering aware diagnostics
static PetscErrorCode op_diag(const char *tag) {
  char key[64];
  Vec s, m, p;
  CK(TDyUpdateDiagnostics(tdy));
  CK(TDyCreateDiagnosticVector(tdy, &s));
  CK(TDyCreateDiagnosticVector(tdy, &m));
  CK(TDyGetLiquidSaturation(tdy, s));
  CK(TDyGetLiquidMass(tdy, m));
  snprintf(key, sizeof key, "%s.sat", tag);
  CK(dumpraw(key, s));
  snprintf(key, sizeof key, "%s.mass", tag);
  CK(dumpraw(key, m));
  CK(VecDestroy(&s));
  CK(VecDestroy(&m));
  if (is_plex(tdy) && tdy->options.mode == RICHARDS) { // not supported for several unknowns per cell
    CK(TDyCreatePrognosticVector(tdy, &p));
    CK(TDyGetLiquidPressure(tdy, p));
    snprintf(key, sizeof key, "%s.pres", tag);
    CK(dumpraw(key, p));
    CK(VecDestroy(&p));
  }
  return 0;
}

static PetscErrorCode op_natural(const char *tag) {
  // centroids and volumes in natural order, through the library's own mapping
  Cells *k;
  CK(get_cells(&k));
  Vec g, n;
  char key[64];
  CK(TDyCreatePrognosticVector(tdy, &g));
  CK(VecDuplicate(g, &n));
  for (int d = 0; d < 4; d++) {
    PetscScalar *a;
    CK(VecGetArray(g, &a));
    for (PetscInt i = 0; i < k->n; i++)
      for (PetscInt q = 0; q < k->ndof; q++) a[k->off[i] + q] = k->c[4 * i + d];
    CK(VecRestoreArray(g, &a));
    CK(TDyGlobalToNatural(tdy, g, n));
    snprintf(key, sizeof key, "%s.nat%d", tag, d);
    CK(dumpraw(key, n));
  }
  CK(VecDestroy(&g));
  CK(VecDestroy(&n));
  return 0;
}

static PetscErrorCode op_residual(const char *tag, double dt, double a0) {
  char key[64];
  Vec U, R;
  int fe = tdy->options.discretization == WY;
  if (fe)
    CK(TDyCreatePrognosticVector(tdy, &U));
  else
    CK(VecDuplicate(tdy->soln, &U));
  CK(VecDuplicate(U, &R));
  CK(fill(U, FL_U, FL_U1));
  snprintf(key, sizeof key, "%s.U", tag);
  CK(dump(key, U));
  if (fe) {
    TS ts;
    DM dm;
    Vec Ud;
    CK(TDyGetDM(tdy, &dm));
    CK(TSCreate(PETSC_COMM_WORLD, &ts));
    CK(TDySetIFunction(ts, tdy));
    CK(TSSetDM(ts, dm));
    CK(VecDuplicate(U, &Ud));
    CK(fill(Ud, FL_UDOT, FL_UDOT1));
    CK(TSComputeIFunction(ts, 0., U, Ud, R, PETSC_FALSE));
    CK(VecDestroy(&Ud));
    CK(TSDestroy(&ts));
  } else if (tdy->ti && tdy->ti->time_integration_method == TDyTS) {
    Vec Ud;
    CK(VecDuplicate(tdy->soln, &Ud));
    CK(fill(Ud, FL_UDOT, FL_UDOT1));
    CK(TSComputeIFunction(tdy->ti->ts, 0., U, Ud, R, PETSC_FALSE));
    CK(VecDestroy(&Ud));
  } else {
    SNES s;
    CK(snes_of(&s));
    CK(TDySetDtimeForSNESSolver(tdy, dt));
    CK(TDyPreSolveSNESSolver(tdy));
    CK(SNESComputeFunction(s, U, R));
  }
  snprintf(key, sizeof key, "%s.R", tag);
  CK(dump(key, R));
  CK(VecDestroy(&U));
  CK(VecDestroy(&R));
  (void)a0;
  return 0;
}

// Jacobian action against directional differences of the residual
static PetscErrorCode op_jac(const char *tag, double dt, double h, double shift) {
  char key[64];
  Vec U, V, R1, R2, JV, X, Ud = NULL, X2 = NULL;
  int ts = tdy->ti && tdy->ti->time_integration_method == TDyTS;
  CK(VecDuplicate(tdy->soln, &U));
  CK(VecDuplicate(U, &V));
  CK(VecDuplicate(U, &R1));
  CK(VecDuplicate(U, &R2));
  CK(VecDuplicate(U, &JV));
  CK(VecDuplicate(U, &X));
  CK(fill(U, FL_U, FL_U1));
  CK(fill(V, FL_V, FL_V1));
  Mat J = tdy->J;
  SNES s = NULL;
  if (ts) {
    CK(VecDuplicate(U, &Ud));
    CK(VecDuplicate(U, &X2));
    CK(fill(Ud, FL_UDOT, FL_UDOT1));
    CK(TSComputeIFunction(tdy->ti->ts, 0., U, Ud, R1, PETSC_FALSE));
    CK(TSComputeIJacobian(tdy->ti->ts, 0., U, Ud, shift, J, J, PETSC_FALSE));
  } else {
    CK(snes_of(&s));
    CK(TDySetDtimeForSNESSolver(tdy, dt));
    CK(TDyPreSolveSNESSolver(tdy));
    CK(SNESComputeFunction(s, U, R1));
    CK(SNESComputeJacobian(s, U, J, J));
  }
  snprintf(key, sizeof key, "%s.R", tag);
  CK(dump(key, R1));
  CK(MatMult(J, V, JV));
  snprintf(key, sizeof key, "%s.JV", tag);
  CK(dump(key, JV));
  for (int k = 0; k < 2; k++) {
    double hh = k ? -h : h;
    CK(VecWAXPY(X, hh, V, U));
    if (ts) {
      CK(VecWAXPY(X2, hh * shift, V, Ud));
      CK(TSComputeIFunction(tdy->ti->ts, 0., X, X2, k ? R2 : R1, PETSC_FALSE));
    } else
      CK(SNESComputeFunction(s, X, k ? R2 : R1));
  }
  CK(VecAXPY(R1, -1., R2));
  CK(VecScale(R1, 1. / (2 * h)));
  snprintf(key, sizeof key, "%s.FD", tag);
  CK(dump(key, R1));
  snprintf(key, sizeof key, "%s.V", tag);
  CK(dump(key, V));
  CK(VecDestroy(&U));
  CK(VecDestroy(&V));
  CK(VecDestroy(&R1));
  CK(VecDestroy(&R2));
  CK(VecDestroy(&JV));
  CK(VecDestroy(&X));
  if (Ud) CK(VecDestroy(&Ud));
  if (X2) CK(VecDestroy(&X2));
  return 0;
}

static PetscErrorCode op_mesh(const char *tag) {
  TDyMesh *m = get_mesh(tdy);
  char key[64];
  if (!m) return 0;
  int n[6] = {(int)m->num_cells, (int)m->num_cells_local, (int)m->num_faces, (int)m->num_vertices};
  snprintf(key, sizeof key, "%s.counts", tag);
  sim_obs_i(key, n, 4);
  double *o = malloc(sizeof(double) * (m->num_faces + 1) * 12);
  int k = 0;
  for (PetscInt f = 0; f < m->num_faces; f++) {
    PetscInt *ids, nc;
    if (TDyMeshGetFaceCells(m, f, &ids, &nc)) continue;
    double *q = o + 12 * k;
    q[0] = m->faces.is_internal[f];
    q[1] = m->faces.is_local[f];
    q[2] = m->faces.area[f];
    for (int d = 0; d < 3; d++) q[3 + d] = m->faces.centroid[f].X[d];
    for (int d = 0; d < 3; d++) q[6 + d] = m->faces.normal ? m->faces.normal[f].V[d] : 0;
    q[9] = ids[0]; // the accessor's count is wrong for the last face; there are always two entries
    q[10] = ids[1];
    q[11] = nc;
    k++;
  }
  snprintf(key, sizeof key, "%s.faces", tag);
  sim_obs_d(key, o, 12 * k);
  free(o);
  o = malloc(sizeof(double) * (m->num_cells + 1) * 6);
  for (PetscInt c = 0; c < m->num_cells; c++) {
    o[6 * c] = m->cells.is_local[c];
    for (int d = 0; d < 3; d++) o[6 * c + 1 + d] = m->cells.centroid[c].X[d];
    o[6 * c + 4] = m->cells.volume[c];
    o[6 * c + 5] = m->cells.natural_id ? m->cells.natural_id[c] : -1;
  }
  snprintf(key, sizeof key, "%s.mcells", tag);
  sim_obs_d(key, o, 6 * m->num_cells);
  free(o);
  return 0;
}

// the whole mesh of this process: connectivity and derived geometry, as ids local to the process
typedef struct {
  double *v;
  int n, cap;
} Buf;
static void put(Buf *b, double x) {
  if (b->n == b->cap) b->v = realloc(b->v, sizeof(double) * (b->cap = b->cap ? 2 * b->cap : 1024));
  b->v[b->n++] = x;
}
static void emit(Buf *b, const char *tag, const char *k) {
  char key[64];
  snprintf(key, sizeof key, "%s.%s", tag, k);
  sim_obs_d(key, b->v, b->n);
  free(b->v);
  b->v = NULL;
  b->n = b->cap = 0;
}
static void put_list(Buf *b, PetscInt *ids, PetscInt n) {
  put(b, n);
  for (PetscInt i = 0; i < n; i++) put(b, ids[i]);
}
static PetscErrorCode op_meshx(const char *tag) {
  TDyMesh *m = get_mesh(tdy);
  Buf b = {0};
  if (m) {
    PetscInt *ids, *ids2, n, n2;
    CK(op_mesh(tag));
    int plex = m->cells.vertex_offset != NULL && m->num_subcells > 0;
    if (m->vertices.coordinate) {
      for (PetscInt v = 0; v < m->num_vertices; v++) {
        put(&b, m->vertices.is_local ? m->vertices.is_local[v] : -1);
        for (int d = 0; d < 3; d++) put(&b, m->vertices.coordinate[v].X[d]);
      }
      emit(&b, tag, "verts");
    }
    if (m->cells.vertex_ids && m->cells.vertex_offset) {
      for (PetscInt c = 0; c < m->num_cells; c++) {
        CK(TDyMeshGetCellVertices(m, c, &ids, &n));
        put_list(&b, ids, n);
      }
      emit(&b, tag, "cellverts");
    }
    if (m->cells.face_ids && m->cells.face_offset) {
      for (PetscInt c = 0; c < m->num_cells; c++) {
        CK(TDyMeshGetCellFaces(m, c, &ids, &n));
        put_list(&b, ids, m->cells.num_faces[c]);
      }
      emit(&b, tag, "cellfaces");
    }
    if (plex) {
      for (PetscInt c = 0; c < m->num_cells; c++) {
        CK(TDyMeshGetCellNeighbors(m, c, &ids, &n));
        put_list(&b, ids, m->cells.num_neighbors[c]);
      }
      emit(&b, tag, "cellneigh");
      for (PetscInt f = 0; f < m->num_faces; f++) {
        CK(TDyMeshGetFaceVertices(m, f, &ids, &n));
        put_list(&b, ids, m->faces.num_vertices[f]);
      }
      emit(&b, tag, "faceverts");
      for (PetscInt v = 0; v < m->num_vertices; v++) {
        CK(TDyMeshGetVertexInternalCells(m, v, &ids, &n));
        ids2 = m->vertices.subcell_ids + m->vertices.subcell_offset[v];
        put_list(&b, ids, n);
        put_list(&b, ids2, n);
        CK(TDyMeshGetVertexFaces(m, v, &ids, &n));
        CK(TDyMeshGetVertexSubfaces(m, v, &ids2, &n2));
        put_list(&b, ids, n);
        put_list(&b, ids2, n);
        CK(TDyMeshGetVertexBoundaryFaces(m, v, &ids, &n));
        put_list(&b, ids, n);
      }
      emit(&b, tag, "vertconn");
    }
    if (m->faces.dist_up_dn) {
      for (PetscInt f = 0; f < m->num_faces; f++) {
        put(&b, m->faces.dist_up_dn[f][0]);
        put(&b, m->faces.dist_up_dn[f][1]);
        put(&b, m->faces.dist_wt_up[f]);
        for (int d = 0; d < 3; d++) put(&b, m->faces.unit_vec_up_dn[f][d]);
        put(&b, m->faces.projected_area[f]);
      }
      emit(&b, tag, "facegeo");
    }
    if (plex && tdy->options.discretization != FV_TPF) {
      PetscInt per = m->num_cells ? m->cells.num_subcells[0] : 1; // every cell of a mesh has the same number
      for (PetscInt s = 0; s < per * m->num_cells; s++) {
        PetscReal *areas;
        put(&b, s / per);
        put(&b, m->subcells.T[s]);
        CK(TDyMeshGetSubcellFaces(m, s, &ids, &n));
        put_list(&b, ids, n);
        CK(TDyMeshGetSubcellFaceAreas(m, s, &areas, &n));
        for (PetscInt i = 0; i < n; i++) put(&b, areas[i]);
        for (PetscInt i = 0; i < n; i++) put(&b, m->subcells.is_face_up[m->subcells.face_offset[s] + i]);
        for (PetscInt i = 0; i < n; i++)
          for (int d = 0; d < 3; d++) put(&b, m->subcells.nu_vector[m->subcells.nu_vector_offset[s] + i].V[d]);
        for (PetscInt i = 0; i < n; i++)
          for (int d = 0; d < 3; d++) put(&b, m->subcells.variable_continuity_coordinates[m->subcells.nu_vector_offset[s] + i].X[d]);
      }
      emit(&b, tag, "subcells");
    }
  }
  // what the DM holds: owned cells and the faces marked as boundary, by position
  DM dm;
  CK(TDyGetDM(tdy, &dm));
  PetscInt cs, ce, fs, fe, nl = 0, dim;
  const PetscInt *leaves = NULL;
  PetscSF sf;
  CK(DMGetDimension(dm, &dim));
  CK(DMPlexGetHeightStratum(dm, 0, &cs, &ce));
  CK(DMPlexGetHeightStratum(dm, 1, &fs, &fe));
  CK(DMGetPointSF(dm, &sf));
  CK(PetscSFGetGraph(sf, NULL, &nl, &leaves, NULL));
  char *ghost = calloc(fe + ce + 1, 1);
  for (PetscInt l = 0; l < nl; l++) {
    PetscInt p = leaves ? leaves[l] : l;
    if (p < fe + ce) ghost[p] = 1;
  }
  for (PetscInt c = cs; c < ce; c++) {
    PetscReal vol, x[3] = {0};
    CK(DMPlexComputeCellGeometryFVM(dm, c, &vol, x, NULL));
    put(&b, !ghost[c]);
    for (int d = 0; d < 3; d++) put(&b, x[d]);
    put(&b, vol);
  }
  emit(&b, tag, "dmcells");
  DMLabel lb;
  CK(DMGetLabel(dm, "boundary", &lb));
  for (PetscInt f = fs; f < fe; f++) {
    PetscReal area, x[3] = {0}, nn[3] = {0};
    PetscInt v = -1, sup;
    CK(DMPlexComputeCellGeometryFVM(dm, f, &area, x, nn));
    if (lb) CK(DMLabelGetValue(lb, f, &v));
    CK(DMPlexGetSupportSize(dm, f, &sup));
    const PetscInt *su;
    CK(DMPlexGetSupport(dm, f, &su));
    int own = 0;
    for (PetscInt i = 0; i < sup; i++)
      if (su[i] >= cs && su[i] < ce) own |= !ghost[su[i]];
    put(&b, v);
    put(&b, sup);
    put(&b, own);
    for (int d = 0; d < 3; d++) put(&b, x[d]);
    put(&b, area);
  }
  emit(&b, tag, "dmfaces");
  free(ghost);
  return 0;
}

// subface fluxes of the multi-point method (after a residual evaluation), for diagnosis
static PetscErrorCode op_ttp(const char *tag) {
  TDyMesh *m = get_mesh(tdy);
  if (!m || tdy->options.discretization == FV_TPF) return 0;
  TDyMPFAO *o = tdy->context;
  const PetscScalar *t, *g;
  CK(VecGetArrayRead(o->TtimesP_vec, &t));
  CK(VecGetArrayRead(o->GravDisVec, &g));
  int cap = 64, k = 0;
  double *b = malloc(sizeof(double) * 14 * cap);
  for (PetscInt v = 0; v < m->num_vertices; v++) {
    if (!m->vertices.is_local[v]) continue;
    PetscInt *f, *sf, nf;
    CK(TDyMeshGetVertexFaces(m, v, &f, &nf));
    CK(TDyMeshGetVertexSubfaces(m, v, &sf, &nf));
    for (PetscInt i = 0; i < nf; i++) {
      PetscInt *cc, nc;
      CK(TDyMeshGetFaceCells(m, f[i], &cc, &nc));
      if (k == cap) b = realloc(b, sizeof(double) * 14 * (cap *= 2));
      double *q = b + 14 * k++;
      for (int d = 0; d < 3; d++) q[d] = m->vertices.coordinate[v].X[d];
      for (int d = 0; d < 3; d++) q[3 + d] = m->faces.centroid[f[i]].X[d];
      q[6] = t[f[i] * 4 + sf[i]];
      q[7] = g[f[i] * 4 + sf[i]];
      q[8] = cc[0];
      q[9] = cc[1];
      q[10] = m->vertices.num_internal_cells[v];
      q[11] = m->vertices.num_boundary_faces[v];
      q[12] = m->faces.is_local[f[i]];
      q[13] = sf[i];
    }
  }
  char key[64];
  snprintf(key, sizeof key, "%s.ttp", tag);
  sim_obs_d(key, b, 14 * k);
  free(b);
  CK(VecRestoreArrayRead(o->TtimesP_vec, &t));
  CK(VecRestoreArrayRead(o->GravDisVec, &g));
  return 0;
}

static PetscErrorCode op_manual_snes(void) {
  // the route a host code takes: its own SNES on top of the dycore
  MPI_Comm comm = PETSC_COMM_WORLD;
  CK(TDyCreateVectors(tdy));
  CK(TDyCreateJacobian(tdy));
  SNES s;
  CK(SNESCreate(comm, &s));
  CK(TDySetSNESFunction(s, tdy));
  CK(TDySetSNESJacobian(s, tdy));
  CK(SNESSetFromOptions(s));
  mysnes[cur] = s;
  return 0;
}

static PetscErrorCode op_manual_run(int nsteps, double dt) {
  SNES s = mysnes[cur];
  double t = 0;
  for (int i = 0; i < nsteps; i++) {
    CK(TDySetDtimeForSNESSolver(tdy, dt));
    CK(TDyPreSolveSNESSolver(tdy));
    CK(SNESSolve(s, NULL, tdy->soln));
    SNESConvergedReason r;
    CK(SNESGetConvergedReason(s, &r));
    double q[3] = {i, r, dt};
    sim_obs_d("mstep", q, 3);
    if (r < 0) return 0;
    t += dt;
    CK(TDyPostSolve(tdy, tdy->soln));
  }
  return 0;
}

// The unknowns on faces: centroid, normal, then the values, for every owned face
static PetscErrorCode dump_faces(const char *tag, Vec U) {
  char key[64];
  DM dm;
  PetscInt f0, f1, a, b, rs, re, dim;
  const PetscScalar *u;
  CK(TDyGetDM(tdy, &dm));
  CK(DMGetDimension(dm, &dim));
  CK(DMPlexGetHeightStratum(dm, 1, &f0, &f1));
  CK(VecGetOwnershipRange(U, &rs, &re));
  CK(VecGetArrayRead(U, &u));
  double *o = malloc(sizeof(double) * ((f1 - f0) * 10 + 1));
  int n = 0;
  for (PetscInt f = f0; f < f1; f++) {
    PetscReal x[3] = {0}, nn[3] = {0}, ar;
    CK(DMPlexGetPointGlobal(dm, f, &a, &b));
    if (a < 0) continue;
    CK(DMPlexComputeCellGeometryFVM(dm, f, &ar, x, nn));
    for (int d = 0; d < 3; d++) o[n++] = d < dim ? x[d] : 0.;
    for (int d = 0; d < 3; d++) o[n++] = d < dim ? nn[d] : 0.;
    for (PetscInt i = 0; i < 4; i++) o[n++] = a + i < b ? u[a - rs + i] : 0.;
  }
  CK(VecRestoreArrayRead(U, &u));
  snprintf(key, sizeof key, "%s.ufaces", tag);
  sim_obs_d(key, o, n);
  free(o);
  return 0;
}

static PetscErrorCode op_steady(const char *tag) {
  // the steady linear problem of the finite element discretizations
  char key[64];
  Mat K;
  Vec U, Fv, R;
  KSP ksp;
  CK(TDyCreatePrognosticVector(tdy, &U));
  CK(TDyCreatePrognosticVector(tdy, &Fv));
  CK(TDyCreatePrognosticVector(tdy, &R));
  CK(TDyCreateMatrix(tdy, &K));
  TDyDiscretization disc;
  CK(TDyGetDiscretization(tdy, &disc));
  if (disc == WY)
    CK(TDyWYComputeSystem(tdy, K, Fv));
  else if (disc == BDM)
    CK(TDyBDMComputeSystem(tdy, K, Fv));
  else
    CK(TDyMPFAOComputeSystem(tdy, K, Fv));
  snprintf(key, sizeof key, "%s.F", tag);
  CK(dump(key, Fv));
  CK(fill(U, FL_V, FL_V1));
  CK(MatMult(K, U, R));
  snprintf(key, sizeof key, "%s.KV", tag);
  CK(dump(key, R));
  CK(VecSet(U, 0.));
  CK(KSPCreate(PETSC_COMM_WORLD, &ksp));
  CK(KSPSetOperators(ksp, K, K));
  CK(KSPSetFromOptions(ksp));
  CK(KSPSetUp(ksp));
  CK(KSPSolve(ksp, Fv, U));
  KSPConvergedReason r;
  CK(KSPGetConvergedReason(ksp, &r));
  CK(MatMult(K, U, R));
  CK(VecAXPY(R, -1., Fv));
  double q[3] = {r, 0, 0};
  CK(VecNorm(R, NORM_2, &q[1]));
  CK(VecNorm(Fv, NORM_2, &q[2]));
  snprintf(key, sizeof key, "%s.ksp", tag);
  sim_obs_d(key, q, 3);
  snprintf(key, sizeof key, "%s.p", tag);
  CK(dump(key, U));
  if (disc == BDM) CK(dump_faces(tag, U));
  CK(KSPDestroy(&ksp));
  CK(VecDestroy(&U));
  CK(VecDestroy(&Fv));
  CK(VecDestroy(&R));
  CK(MatDestroy(&K));
  return 0;
}

static PetscErrorCode op_hostts(const char *tag, int nsteps, double dt) {
  // the route a host code takes with PETSc's time stepper
  TS ts;
  char key[64];
  Vec U;
  CK(TDyCreatePrognosticVector(tdy, &U));
  CK(fill(U, FL_IC, FL_IC1));
  DM dm;
  CK(TDyGetDM(tdy, &dm));
  CK(TSCreate(PETSC_COMM_WORLD, &ts));
  CK(TSSetType(ts, TSBEULER));
  CK(TDySetIFunction(ts, tdy));
  CK(TSSetDM(ts, dm));
  CK(TSSetSolution(ts, U));
  CK(TSSetTimeStep(ts, dt));
  CK(TSSetMaxSteps(ts, nsteps));
  CK(TSSetMaxTime(ts, nsteps * dt * 2));
  CK(TSSetExactFinalTime(ts, TS_EXACTFINALTIME_STEPOVER));
  CK(TSSetFromOptions(ts));
  CK(TSSetUp(ts));
  CK(TSSolve(ts, U));
  snprintf(key, sizeof key, "%s.soln", tag);
  CK(dump(key, U));
  CK(TSDestroy(&ts));
  CK(VecDestroy(&U));
  return 0;
}

static PetscErrorCode write_field_file(const char *file, const char *dset, int f0, int f1, const char *mode) {
  // natural-order data set written through PETSc, for the library to read back
  Cells *k;
  CK(get_cells(&k));
  Vec g, n;
  CK(TDyCreatePrognosticVector(tdy, &g));
  CK(VecDuplicate(g, &n));
  CK(fill(g, f0, f1));
  CK(TDyGlobalToNatural(tdy, g, n));
  CK(PetscObjectSetName((PetscObject)n, dset));
  PetscViewer v;
  CK(PetscViewerHDF5Open(PETSC_COMM_WORLD, file, mode[0] == 'a' ? FILE_MODE_APPEND : FILE_MODE_WRITE, &v));
  // plain vector: do not carry the DM of the prognostic vector
  PetscInt nl;
  Vec pl;
  CK(VecGetLocalSize(n, &nl));
  CK(VecCreateMPI(PETSC_COMM_WORLD, nl, PETSC_DECIDE, &pl));
  CK(VecCopy(n, pl));
  CK(PetscObjectSetName((PetscObject)pl, dset));
  CK(VecView(pl, v));
  CK(PetscViewerDestroy(&v));
  CK(VecDestroy(&pl));
  CK(VecDestroy(&g));
  CK(VecDestroy(&n));
  return 0;
}

static PetscErrorCode read_vec_file(const char *tag, const char *file, const char *dset) {
  PetscViewer v;
  Vec u;
  CK(PetscViewerHDF5Open(PETSC_COMM_WORLD, file, FILE_MODE_READ, &v));
  CK(VecCreate(PETSC_COMM_WORLD, &u));
  CK(PetscObjectSetName((PetscObject)u, dset));
  if (!strncmp(dset, "/", 1)) {
  }
  CK(VecLoad(u, v));
  CK(dumpraw(tag, u));
  CK(VecDestroy(&u));
  CK(PetscViewerDestroy(&v));
  return 0;
}

// lists all data sets of an HDF5 file with their values, and the attributes of integers (rank 0)
static const char *h5tag;
static hid_t h5f;
static herr_t h5attr(hid_t loc, const char *name, const H5A_info_t *info, void *path) {
  hid_t a = H5Aopen(loc, name, H5P_DEFAULT), t = H5Aget_type(a);
  char key[300];
  if (H5Tget_class(t) == H5T_INTEGER) {
    int v[16] = {0};
    hid_t sp = H5Aget_space(a);
    int n = (int)H5Sget_simple_extent_npoints(sp);
    if (n <= 16 && H5Aread(a, H5T_NATIVE_INT, v) >= 0) {
      snprintf(key, sizeof key, "%s.attr:%s:%s", h5tag, (char *)path, name);
      sim_obs_i(key, v, n);
    }
    H5Sclose(sp);
  }
  H5Tclose(t);
  H5Aclose(a);
  return 0;
}
static herr_t h5obj(hid_t root, const char *name, const H5O_info_t *info, void *u) {
  char key[300];
  hid_t o = H5Oopen(root, name, H5P_DEFAULT);
  if (o < 0) return -1;
  H5Aiterate2(o, H5_INDEX_NAME, H5_ITER_INC, NULL, h5attr, (void *)name);
  if (info->type == H5O_TYPE_DATASET) {
    hid_t sp = H5Dget_space(o), t = H5Dget_type(o);
    hsize_t d[8];
    int nd = H5Sget_simple_extent_ndims(sp), di[9];
    H5Sget_simple_extent_dims(sp, d, NULL);
    long n = 1;
    for (int i = 0; i < nd; i++) {
      n *= (long)d[i];
      di[i] = (int)d[i];
    }
    snprintf(key, sizeof key, "%s.dims:%s", h5tag, name);
    sim_obs_i(key, di, nd);
    double *v = calloc(n + 1, sizeof(double));
    herr_t e = H5Tget_class(t) == H5T_FLOAT || H5Tget_class(t) == H5T_INTEGER ? H5Dread(o, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v) : -1;
    snprintf(key, sizeof key, "%s.%s:%s", h5tag, e < 0 ? "unreadable" : "data", name);
    sim_obs_d(key, v, n);
    free(v);
    H5Sclose(sp);
    H5Tclose(t);
  }
  H5Oclose(o);
  return 0;
}
static int op_h5list(const char *tag, const char *file) {
  char key[300];
  h5tag = tag;
  H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
  h5f = H5Fopen(file, H5F_ACC_RDONLY, H5P_DEFAULT);
  snprintf(key, sizeof key, "%s.opened", tag);
  int ok[2] = {h5f >= 0, 0};
  if (h5f >= 0) {
    ok[1] = H5Ovisit(h5f, H5_INDEX_NAME, H5_ITER_INC, h5obj, NULL) >= 0;
    H5Fclose(h5f);
  }
  sim_obs_i(key, ok, 2);
  return 0;
}

// PFLOTRAN mesh file from a text description: nc mv nv, then cells (n v1..vmv, 1-based) and vertices
static int op_pflowrite(const char *in, const char *out) {
  int rank;
  MPI_Comm_rank(PETSC_COMM_WORLD, &rank);
  if (rank == 0) {
    FILE *f = fopen(in, "r");
    int nc, mv, nv, dbl;
    if (!f || fscanf(f, "%d %d %d %d", &nc, &mv, &nv, &dbl) != 4) return 1;
    int *c = malloc(sizeof(int) * nc * (mv + 1));
    double *cd = malloc(sizeof(double) * nc * (mv + 1)), *x = malloc(sizeof(double) * 3 * nv);
    for (int i = 0; i < nc * (mv + 1); i++) {
      if (fscanf(f, "%d", c + i) != 1) return 1;
      cd[i] = c[i];
    }
    for (int i = 0; i < 3 * nv; i++)
      if (fscanf(f, "%lf", x + i) != 1) return 1;
    fclose(f);
    hid_t h = H5Fcreate(out, H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
    hid_t g = H5Gcreate2(h, "Domain", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    hsize_t d[2] = {nc, mv + 1}, e[2] = {nv, 3};
    hid_t sp = H5Screate_simple(2, d, NULL);
    hid_t ds = H5Dcreate2(g, "Cells", dbl ? H5T_NATIVE_DOUBLE : H5T_NATIVE_INT, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    H5Dwrite(ds, dbl ? H5T_NATIVE_DOUBLE : H5T_NATIVE_INT, H5S_ALL, H5S_ALL, H5P_DEFAULT, dbl ? (void *)cd : (void *)c);
    H5Dclose(ds);
    H5Sclose(sp);
    sp = H5Screate_simple(2, e, NULL);
    ds = H5Dcreate2(g, "Vertices", H5T_NATIVE_DOUBLE, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
    H5Dwrite(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, x);
    H5Dclose(ds);
    H5Sclose(sp);
    H5Gclose(g);
    H5Fclose(h);
    free(c);
    free(cd);
    free(x);
  }
  MPI_Barrier(PETSC_COMM_WORLD);
  return 0;
}

// mesh made from a file: cells (own, natural, global number, centroid, volume), connections, matrix rows
static PetscErrorCode op_pmesh(const char *tag) {
  TDyMesh *m = get_mesh(tdy);
  Buf b = {0};
  PetscInt g0 = tdy->discretization->ugrid->global_offset;
  put(&b, g0);
  emit(&b, tag, "offset");
  for (PetscInt c = 0; c < m->num_cells; c++) {
    put(&b, m->cells.is_local[c]);
    put(&b, m->cells.natural_id[c]);
    put(&b, m->nG2A[c]);
    for (int d = 0; d < 3; d++) put(&b, m->cells.centroid[c].X[d]);
    put(&b, m->cells.volume[c]);
  }
  emit(&b, tag, "pcells");
  for (PetscInt f = 0; f < m->num_faces; f++) {
    PetscInt *ids, nc;
    CK(TDyMeshGetFaceCells(m, f, &ids, &nc));
    put(&b, ids[0]);
    put(&b, ids[1]);
    put(&b, m->faces.area[f]);
    put(&b, m->faces.projected_area[f]);
    put(&b, m->faces.dist_up_dn[f][0]);
    put(&b, m->faces.dist_up_dn[f][1]);
    put(&b, m->faces.dist_wt_up[f]);
    for (int d = 0; d < 3; d++) put(&b, m->faces.unit_vec_up_dn[f][d]);
    put(&b, m->faces.is_internal[f]);
    put(&b, m->faces.dist[f]);
  }
  emit(&b, tag, "pfaces");
  return 0;
}

// ------------------------------------------------------------ what the Fortran side asks for
static int fx_id(TDySpatialFunction f) {
  return f == fn_poro ? 0 : f == fn_sr ? 1 : f == fn_pbc ? 2 : f == fn_vbc ? 3 : f == fn_force ? 4 : f == fn_eforce ? 5 : f == fn_tbc ? 6 : -1;
}
static void fx_sizes(const char *key, int id, int n, int nx, int nf) {
  // the array a Fortran function sees has to hold what the function is told to read and write
  if (nx != DIM * n || nf != n) {
    double v[4] = {id, n, nx, nf};
    sim_obs_d(key, v, 4);
  }
}
static int fx_fail = -1; // the Fortran function that reports an error
void fx_eval(int id, int n, int nx, int nf, double *x, double *f, int *ierr) {
  TDySpatialFunction fs[] = {fn_poro, fn_sr, fn_pbc, fn_vbc, fn_force, fn_eforce, fn_tbc};
  fx_sizes("fx.size", id, n, nx, nf);
  *ierr = id == fx_fail ? 177 : 0;
  if (*ierr) {
    double v = id;
    sim_obs_d("fx.failed", &v, 1);
    return;
  }
  if (id >= 0 && id < 7) fs[id](n, x, f);
  else
    for (int i = 0; i < n; i++) f[i] = id;
}
void fx_ieval(int id, int n, int nx, int nf, double *x, int *f, int *ierr) {
  fx_sizes("fx.size", id, n, nx, nf);
  *ierr = fx_fail == 50 ? 177 : 0;
  if (*ierr) {
    double v = 50;
    sim_obs_d("fx.failed", &v, 1);
    return;
  }
  fn_ptype(n, x, f);
}
void fx_make_dm(int comm, DM *dm, int *ierr) {
  *ierr = make_dm(MPI_Comm_f2c(comm), &MS[cur], dm);
}
static void fn_extra(PetscInt n, PetscReal *x, PetscReal *f) { for (PetscInt i = 0; i < n; i++) f[i] = 100; }

static int started = 0;
static int keep_going = 0;
#define A(i) (i < na ? a[i] : "")
#define D(i) atof(A(i))
#define I(i) atoi(A(i))
static PetscErrorCode do_op(char *line, int argc, char **argv) {
  char buf[2048];
  snprintf(buf, sizeof buf, "%s", line);
  char *a[64];
  int na = 0;
  char *sp = NULL;
  char *rest = strchr(line, ' ');
  rest = rest ? rest + 1 : "";
  for (char *t = strtok_r(buf, " ", &sp); t && na < 64; t = strtok_r(NULL, " ", &sp)) a[na++] = t;
  if (!na) return 0;
  const char *o = a[0];
#define IS(x) (!strcmp(o, x))
  if (IS("init")) {
    CK(TDyInit(argc, argv));
    if (!started) CK(PetscPushErrorHandler(on_error, NULL));
    alloc_seam();
    started = 1;
  } else if (IS("acct")) {
    extern PetscErrorCode (*PetscTrMalloc)(size_t, PetscBool, int, const char[], const char[], void **);
    extern PetscErrorCode (*PetscTrFree)(void *, int, const char[], const char[]);
    extern PetscErrorCode (*PetscTrRealloc)(size_t, int, const char[], const char[], void **);
    omalloc = PetscTrMalloc;
    ofree = PetscTrFree;
    orealloc = PetscTrRealloc;
    PetscTrMalloc = acct_malloc;
    PetscTrFree = acct_free;
    PetscTrRealloc = acct_realloc;
  } else if (IS("live")) {
    // blocks, bytes and peak bytes held; the sites that hold more than at the last call
    struct mallinfo2 mi = mallinfo2();
    double v[4] = {(double)blkn, (double)live_bytes, (double)peak_bytes, (double)(mi.uordblks + mi.hblkhd)};
    char k[64], b[900] = "";
    snprintf(k, sizeof k, "%s.live", A(1));
    sim_obs_d(k, v, 4);
    for (int i = 0; i < nsites; i++) {
      if (site_live[i] > site_mark[i] && strlen(b) < 700) snprintf(b + strlen(b), 180, "%s +%ld; ", sites[i], site_live[i] - site_mark[i]);
      site_mark[i] = site_live[i];
    }
    snprintf(k, sizeof k, "%s.more", A(1));
    sim_obs_s(k, b);
  } else if (IS("use")) {
    cur = I(1);
  } else if (IS("lang")) {
    LF = A(1)[0] == 'f';
  } else if (IS("failfn")) {
    fx_fail = I(1);
  } else if (IS("extra")) {
    // extra I NAME: register the I-th of many further functions
    if (LF) CK(fx_register(A(2), 100 + I(1)));
    else CK(TDyRegisterFunction(A(2), fn_extra));
  } else if (IS("updatestate")) {
    // the state of every local cell from field u
    PetscInt n, c0, c1, nb;
    DM dm;
    CK(TDyGetDM(tdy, &dm));
    CK(DMPlexGetHeightStratum(dm, 0, &c0, &c1));
    n = c1 - c0;
    CK(VecGetBlockSize(tdy->soln, &nb));
    double *u = malloc(sizeof(double) * (n * nb + 1));
    for (PetscInt i = 0; i < n; i++) {
      PetscReal v, x[3], nn[3];
      CK(DMPlexComputeCellGeometryFVM(dm, c0 + i, &v, x, nn));
      for (PetscInt q = 0; q < nb; q++) u[i * nb + q] = feval(&F[q ? FL_U1 : FL_U], x);
    }
    CK(TDyUpdateState(tdy, u, n));
    free(u);
  } else if (IS("create")) {
    CK(TDyCreate(PETSC_COMM_WORLD, &tdy));
  } else if (IS("mode")) {
    CK(TDySetMode(tdy, !strcmp(A(1), "TH") ? TH : !strcmp(A(1), "SALINITY") ? SALINITY : RICHARDS));
  } else if (IS("disc")) {
    int d = 0;
    for (int i = 0; i < 6; i++)
      if (!strcmp(TDyDiscretizations[i], A(1))) d = i;
    CK(TDySetDiscretization(tdy, (TDyDiscretization)d));
  } else if (IS("dm")) {
    // dm type nx ny nz x0 x1 y0 y1 z0 z1 amp seed zonly
    MeshSpec *m = &MS[cur];
    memset(m, 0, sizeof *m);
    m->type = !strcmp(A(1), "wedge") ? 1 : !strcmp(A(1), "tet") ? 2 : 0;
    for (int d = 0; d < 3; d++) {
      m->n[d] = I(2 + d);
      m->lo[d] = D(5 + 2 * d);
      m->hi[d] = D(6 + 2 * d);
    }
    m->amp = D(11);
    m->seed = (uint64_t)D(12);
    m->zonly = I(13);
    DIM = m->type == 0 && m->n[2] <= 0 ? 2 : 3;
    CK(TDySetDMConstructor(tdy, m, make_dm));
  } else if (IS("setfromoptions")) {
    CK(TDySetFromOptions(tdy));
  } else if (IS("field")) {
    if (setfield(rest)) {
      fprintf(stderr, "bad field %s\n", rest);
      return 77;
    }
  } else if (IS("poro")) {
    CK(TDySetPorosityFunction(tdy, fn_poro));
  } else if (IS("porocst")) {
    CK(TDySetConstantPorosity(tdy, D(1)));
  } else if (IS("perm")) {
    if (!strcmp(A(1), "iso")) CK(TDySetIsotropicPermeabilityFunction(tdy, fn_kx));
    else if (!strcmp(A(1), "diag")) CK(TDySetDiagonalPermeabilityFunction(tdy, fn_kdiag));
    else CK(TDySetTensorPermeabilityFunction(tdy, fn_ktensor));
  } else if (IS("permcst")) {
    int np_ = !strcmp(A(1), "iso") ? 1 : !strcmp(A(1), "diag") ? 3 : 9;
    double *p = malloc(np_ * sizeof *p);
    for (int d = 0; d < np_; d++) p[d] = D(2 + d);
    if (!strcmp(A(1), "iso")) CK(TDySetConstantIsotropicPermeability(tdy, p[0]));
    else if (!strcmp(A(1), "diag")) CK(TDySetConstantDiagonalPermeability(tdy, p));
    else CK(TDySetConstantTensorPermeability(tdy, p));
    free(p);
  } else if (IS("permeq")) {
    // the same isotropic function in another shape
    if (!strcmp(A(1), "diag")) CK(TDySetDiagonalPermeabilityFunction(tdy, fn_kx_diag));
    else if (!strcmp(A(1), "tensor")) CK(TDySetTensorPermeabilityFunction(tdy, fn_kx_tensor));
    else CK(TDySetIsotropicPermeabilityFunction(tdy, fn_kx));
  } else if (IS("tkeq")) {
    if (!strcmp(A(1), "diag")) CK(TDySetDiagonalThermalConductivityFunction(tdy, fn_tk_diag));
    else if (!strcmp(A(1), "tensor")) CK(TDySetTensorThermalConductivityFunction(tdy, fn_tk_tensor));
    else CK(TDySetIsotropicThermalConductivityFunction(tdy, fn_tk));
  } else if (IS("diffeq")) {
    if (!strcmp(A(1), "diag")) CK(TDySetDiagonalSalineDiffusivityFunction(tdy, fn_diff_diag));
    else if (!strcmp(A(1), "tensor")) CK(TDySetTensorSalineDiffusivityFunction(tdy, fn_diff_tensor));
    else CK(TDySetIsotropicSalineDiffusivityFunction(tdy, fn_diff));
  } else if (IS("tkcst")) {
    double p[9] = {D(2), D(3), D(4), D(5), D(6), D(7), D(8), D(9), D(10)};
    if (!strcmp(A(1), "iso")) CK(TDySetConstantIsotropicThermalConductivity(tdy, p[0]));
    else if (!strcmp(A(1), "diag")) CK(TDySetConstantDiagonalThermalConductivity(tdy, p));
    else CK(TDySetConstantTensorThermalConductivity(tdy, p));
  } else if (IS("diffcst")) {
    double p[9] = {D(2), D(3), D(4), D(5), D(6), D(7), D(8), D(9), D(10)};
    if (!strcmp(A(1), "iso")) CK(TDySetConstantIsotropicSalineDiffusivity(tdy, p[0]));
    else if (!strcmp(A(1), "diag")) CK(TDySetConstantDiagonalSalineDiffusivity(tdy, p));
    else CK(TDySetConstantTensorSalineDiffusivity(tdy, p));
  } else if (IS("srcst")) {
    CK(TDySetConstantResidualSaturation(tdy, D(1)));
  } else if (IS("sdcst")) {
    CK(TDySetConstantSoilDensity(tdy, D(1)));
  } else if (IS("sccst")) {
    CK(TDySetConstantSoilSpecificHeat(tdy, D(1)));
  } else if (IS("mwcst")) {
    CK(TDySetConstantSalineMolecularWeight(tdy, D(1)));
  } else if (IS("density")) {
    CK(TDySetWaterDensityType(tdy, (TDyWaterDensityType)I(1)));
  } else if (IS("viscosity")) {
    CK(TDySetWaterViscosityType(tdy, (TDyWaterViscosityType)I(1)));
  } else if (IS("gmat")) {
    CK(TDyMPFAOSetGmatrixMethod(tdy, (TDyMPFAOGmatrixMethod)I(1)));
  } else if (IS("bctype")) {
    CK(TDyMPFAOSetBoundaryConditionType(tdy, (TDyBoundaryConditionType)I(1)));
  } else if (IS("quadrature")) {
    if (!strcmp(A(1), "WY")) CK(TDyWYSetQuadrature(tdy, (TDyQuadratureType)I(2)));
    else CK(TDyBDMSetQuadrature(tdy, (TDyQuadratureType)I(2)));
  } else if (IS("registerf")) {
    // registerf NAME FUNCTION: a name in memory that is reused afterwards
    TDySpatialFunction f = !strcmp(A(2), "pbc") ? fn_pbc : !strcmp(A(2), "vbc") ? fn_vbc : !strcmp(A(2), "tbc") ? fn_tbc : !strcmp(A(2), "sbc") ? fn_sbc : !strcmp(A(2), "eforce") ? fn_eforce : fn_force;
    static char name[64];
    snprintf(name, sizeof name, "%s", A(1));
    CK(TDyRegisterFunction(name, f));
  } else if (IS("select")) {
    if (!strcmp(A(1), "force")) CK(TDySelectForcingFunction(tdy, A(2)));
    else if (!strcmp(A(1), "eforce")) CK(TDySelectEnergyForcingFunction(tdy, A(2)));
    else if (!strcmp(A(1), "vbc")) CK(TDySelectBoundaryVelocityFunction(tdy, A(2)));
    else if (!strcmp(A(1), "tbc")) CK(TDySelectBoundaryTemperatureFunction(tdy, A(2)));
    else if (!strcmp(A(1), "sbc")) CK(TDySelectBoundarySalineConcentrationFunction(tdy, A(2)));
    else CK(TDySelectBoundaryPressureFunction(tdy, A(2)));
  } else if (IS("sr")) {
    CK(TDySetResidualSaturationFunction(tdy, fn_sr));
  } else if (IS("tk")) {
    CK(TDySetIsotropicThermalConductivityFunction(tdy, fn_tk));
  } else if (IS("sd")) {
    CK(TDySetSoilDensityFunction(tdy, fn_sd));
  } else if (IS("sc")) {
    CK(TDySetSoilSpecificHeatFunction(tdy, fn_sc));
  } else if (IS("diff")) {
    CK(TDySetIsotropicSalineDiffusivityFunction(tdy, fn_diff));
  } else if (IS("mw")) {
    CK(TDySetSalineMolecularWeightFunction(tdy, fn_mw));
  } else if (IS("pbc")) {
    CK(TDySetBoundaryPressureFunction(tdy, fn_pbc));
  } else if (IS("vbc")) {
    CK(TDySetBoundaryVelocityFunction(tdy, fn_vbc));
  } else if (IS("tbc")) {
    CK(TDySetBoundaryTemperatureFunction(tdy, fn_tbc));
  } else if (IS("sbc")) {
    CK(TDySetBoundarySalineConcentrationFunction(tdy, fn_sbc));
  } else if (IS("ptype")) {
    CK(TDySetBoundaryPressureTypeFunction(tdy, fn_ptype));
  } else if (IS("force")) {
    CK(TDySetForcingFunction(tdy, fn_force));
  } else if (IS("eforce")) {
    CK(TDySetEnergyForcingFunction(tdy, fn_eforce));
  } else if (IS("sforce_")) {
    return 77;
  } else if (IS("register")) {
    int id = I(2);
    TDySpatialFunction fs[] = {fn_pbc, fn_vbc, fn_force, fn_tbc};
    CK(TDyRegisterFunction(A(1), fs[id & 3]));
  } else if (IS("getfunction")) {
    TDySpatialFunction f = NULL;
    PetscErrorCode e = TDyGetFunction(A(1), &f);
    double x[3] = {.25, .5, .75}, v = NAN;
    if (!e && f) f(1, x, &v);
    double r[2] = {e ? 1 : 0, v};
    char key[100];
    snprintf(key, sizeof key, "getfunction.%s", A(1));
    sim_obs_d(key, r, 2);
    nerr = 0;
  } else if (IS("selectpbc")) {
    CK(TDySelectBoundaryPressureFunction(tdy, A(1)));
  } else if (IS("setup")) {
    CK(TDySetup(tdy));
  } else if (IS("driver")) {
    CK(TDyDriverInitializeTDy(tdy));
  } else if (IS("ttp")) {
    CK(op_ttp(A(1)));
  } else if (IS("manual_snes")) {
    CK(op_manual_snes());
  } else if (IS("manual_run")) {
    CK(op_manual_run(I(1), D(2)));
  } else if (IS("ic")) {
    // set the state from fields ic/ic1, through the global vector
    CK(fill(tdy->soln, FL_IC, FL_IC1));
    CK(TDySetPreviousSolutionForSNESSolver(tdy, tdy->soln));
  } else if (IS("icnat")) {
    // set the state through the public natural-order route
    Vec g, n;
    CK(TDyCreatePrognosticVector(tdy, &g));
    CK(VecDuplicate(g, &n));
    CK(fill(g, FL_IC, FL_IC1));
    CK(TDyGlobalToNatural(tdy, g, n));
    CK(TDySetInitialCondition(tdy, n));
    CK(VecDestroy(&g));
    CK(VecDestroy(&n));
  } else if (IS("icraw")) {
    // natural-order vector whose i-th entry is a function of i only
    Vec n;
    PetscInt rs, re;
    PetscScalar *p;
    CK(TDyCreatePrognosticVector(tdy, &n));
    CK(VecGetOwnershipRange(n, &rs, &re));
    CK(VecGetArray(n, &p));
    for (PetscInt i = rs; i < re; i++) {
      double x = i;
      p[i - rs] = D(1) + D(2) * (2 * hash01((uint64_t)D(3), &x, 1) - 1);
    }
    CK(VecRestoreArray(n, &p));
    CK(dumpraw("icraw.set", n));
    CK(TDySetInitialCondition(tdy, n));
    CK(VecDestroy(&n));
  } else if (IS("geticraw")) {
    Vec n;
    CK(TDyCreatePrognosticVector(tdy, &n));
    CK(TDyGetInitialCondition(tdy, n));
    CK(dumpraw("geticraw", n));
    CK(VecDestroy(&n));
  } else if (IS("run")) {
    CK(TDyTimeIntegratorRunToTime(tdy, !strcmp(A(1), "final") ? tdy->ti->final_time : D(1)));
  } else if (IS("stepexact")) {
    // one backward Euler step of exactly this size, as a host code would do it
    double dt = D(1);
    SNES s;
    SNESConvergedReason rs;
    CK(snes_of(&s));
    CK(TDySetDtimeForSNESSolver(tdy, dt));
    CK(TDyPreSolveSNESSolver(tdy));
    CK(SNESSolve(s, NULL, tdy->soln));
    CK(SNESGetConvergedReason(s, &rs));
    if (rs < 0) SETERRQ(PETSC_COMM_WORLD, PETSC_ERR_USER, "stepexact: solver failed to converge");
    CK(TDyPostSolve(tdy, tdy->soln));
    tdy->ti->time += dt;
    tdy->ti->istep++;
  } else if (IS("settimestep")) {
    CK(TDyTimeIntegratorSetTimeStep(tdy, D(1)));
  } else if (IS("observe")) {
    CK(op_observe(A(1)));
  } else if (IS("diag")) {
    CK(op_diag(A(1)));
  } else if (IS("natural")) {
    CK(op_natural(A(1)));
  } else if (IS("residual")) {
    CK(op_residual(A(1), D(2), D(3)));
  } else if (IS("jac")) {
    CK(op_jac(A(1), D(2), D(3), D(4)));
  } else if (IS("steady")) {
    CK(op_steady(A(1)));
  } else if (IS("hostts")) {
    CK(op_hostts(A(1), I(2), D(3)));
  } else if (IS("pflowrite")) {
    CK(op_pflowrite(A(1), A(2)));
  } else if (IS("pmesh")) {
    CK(op_pmesh(A(1)));
  } else if (IS("meshx")) {
    CK(op_meshx(A(1)));
  } else if (IS("mesh")) {
    CK(op_mesh(A(1)));
  } else if (IS("steplog")) {
    step_log = I(1);
    if (tdy->ti && tdy->ti->ts) CK(TSMonitorSet(tdy->ti->ts, ts_monitor, (void *)(long)cur, NULL));
  } else if (IS("iomode")) {
    CK(TDyIOSetMode(tdy, !strcmp(A(1), "ascii") ? PetscViewerASCIIFormat : HDF5Format));
  } else if (IS("ioprocess")) {
    CK(TDyIOSetIOProcess(tdy->io, PETSC_TRUE));
  } else if (IS("writevec")) {
    CK(TDyIOWriteVec(tdy));
  } else if (IS("checkpoint")) {
    CK(TDyIOOutputCheckpoint(tdy));
  } else if (IS("readic")) {
    CK(TDyIOReadIC(tdy));
  } else if (IS("regression")) {
    CK(TDyTimeIntegratorOutputRegression(tdy));
  } else if (IS("writefield")) {
    // writefield file dset f0 f1 mode
    int f0 = 0, f1 = 0;
    for (int i = 0; i < FL_N; i++) {
      if (!strcmp(A(3), flname[i])) f0 = i;
      if (!strcmp(A(4), flname[i])) f1 = i;
    }
    CK(write_field_file(A(1), A(2), f0, f1, A(5)));
  } else if (IS("readvec")) {
    CK(read_vec_file(A(1), A(2), A(3)));
  } else if (IS("h5list")) {
    int rank;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    if (!rank) op_h5list(A(1), A(2));
  } else if (IS("timers_on")) {
    CK(TDyEnableTimers());
  } else if (IS("timers_write")) {
    CK(TDyWriteTimingProfile(A(1)));
  } else if (IS("timers_open")) {
    // timers that were started and not stopped, and the current profiling stage
    PetscStageLog sl;
    CK(PetscLogGetStageLog(&sl));
    double cur_stage = sl ? sl->curStage : 0;
    char key[96];
    snprintf(key, sizeof key, "%s.stage", A(1));
    sim_obs_d(key, &cur_stage, 1);
    snprintf(key, sizeof key, "%s.open", A(1));
    if (sl)
      for (int i = 0; i < sl->numStages; i++) {
        PetscEventPerfLog ep = sl->stageInfo[i].eventLog;
        for (int e = 0; e < ep->numEvents && e < sl->eventLog->numEvents; e++)
          if (ep->eventInfo[e].depth && sl->eventLog->eventInfo[e].classid == TDY_CLASSID) sim_obs_s(key, sl->eventLog->eventInfo[e].name);
      }
  } else if (IS("destroy")) {
    if (mysnes[cur]) CK(SNESDestroy(&mysnes[cur]));
    CK(TDyDestroy(&tdy));
    free(C[cur].c);
    free(C[cur].off);
    memset(&C[cur], 0, sizeof C[cur]);
    T[cur] = NULL;
  } else if (IS("onfinalize")) {
    CK(TDyOnFinalize(I(1) == 1 ? on_shut1 : I(1) == 2 ? on_shut2 : on_shut));
  } else if (IS("finalize")) {
    if (W->P.nfault && omalloc && !blkcap) {
      extern PetscErrorCode (*PetscTrMalloc)(size_t, PetscBool, int, const char[], const char[], void **);
      PetscTrMalloc = omalloc;
    }
    PetscPopErrorHandler();
    CK(TDyFinalize());
    int sc = shut_count;
    sim_obs_i("shutdown_calls", &sc, 1);
    sim_obs_i("shutdown_order", shut_order, sc < 4096 ? sc : 4096);
    shut_count = 0;
    started = 0;
  } else if (IS("petsc_init")) {
    CK(PetscInitialize(&argc, &argv, NULL, NULL));
    CK(PetscPushErrorHandler(on_error, NULL));
    alloc_seam();
    started = 1;
  } else if (IS("allocsites")) {
    // where memory was requested on this process, and how often
    for (int i = 0; i < nasite; i++) {
      char b[300];
      const char *bn = strrchr(asite[i].file, '/');
      snprintf(b, sizeof b, "%d %s:%s:%d %ld %ld", asite[i].all, bn ? bn + 1 : asite[i].file, asite[i].fn, asite[i].line, asite[i].first, asite[i].count);
      sim_obs_s("alloc.sites", b);
    }
    for (int i = 0; i < ncsite; i++) {
      char b[300];
      Dl_info in;
      snprintf(b, sizeof b, "2 %s %ld %ld", dladdr(csite[i].pc[0], &in) && in.dli_sname ? in.dli_sname : "?", csite[i].first, csite[i].last);
      sim_obs_s("alloc.sites", b);
    }
    double v[2] = {(double)myalloc, (double)allalloc};
    sim_obs_d("alloc.count", v, 2);
  } else if (IS("mpi_init")) {
    CK(MPI_Init(&argc, &argv));
  } else if (IS("mpi_finalize")) {
    CK(MPI_Finalize());
  } else if (IS("prognostic")) {
    Vec v;
    CK(TDyCreatePrognosticVector(tdy, &v));
    CK(VecDestroy(&v));
  } else if (IS("diagvec")) {
    Vec v;
    CK(TDyCreateDiagnosticVector(tdy, &v));
    CK(VecDestroy(&v));
  } else if (IS("creatematrix")) {
    Mat m;
    CK(TDyCreateMatrix(tdy, &m));
    CK(MatDestroy(&m));
  } else if (IS("updatediag")) {
    CK(TDyUpdateDiagnostics(tdy));
  } else if (IS("keepgoing")) {
    keep_going = I(1);
  } else if (IS("mark")) {
    sim_obs_s("mark", A(1));
  } else if (IS("sysclock")) {
    double t = MPI_Wtime();
    sim_obs_d("clock", &t, 1);
  } else {
    fprintf(stderr, "unknown op %s\n", o);
    return 78;
  }
  return 0;
}

int driver_main(int rank, int argc, char **argv, int nop, char **ops) {
  for (int i = 0; i < nop; i++) {
    nerr = 0;
    cur_op = i;
    PetscErrorCode e = do_op(ops[i], argc, argv);
    fflush(stdout);
    fflush(stderr);
    if (e) {
      int v[2] = {i, (int)e};
      sim_obs_i("operr", v, 2);
      sim_obs_s("operr.what", ops[i]);
      if (!keep_going) return e > 0 && e < 256 ? (int)e : 1;
    }
  }
  return 0;
}
