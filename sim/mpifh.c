// Stub libmpi_mpifh: libpetsc needs only these two from the Fortran bindings.
#include <stdlib.h>
int MPI_Init(int *, char ***);
int MPI_Abort(void *, int);
void mpi_init_(int *ierr) { *ierr = MPI_Init(0, 0); }
void mpi_abort_(int *c, int *e, int *ierr) { (void)c; (void)ierr; abort(); }
