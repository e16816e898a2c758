/* deterministic stand-ins for callbacks, used when contracts are compared with the compiled code on samples */
#include <math.h>
#include "config.h"
#include <mpiglue.h>
#include <mpi_utils.h>
#include <check.h>
#include <scalar.h>
#include <matrices.h>
#include "maxwell.h"

static void fill(symmetric_matrix *m, const double *q)
{
     m->m00 = q[0]; m->m11 = q[1]; m->m22 = q[2];
#ifdef WITH_HERMITIAN_EPSILON
     m->m01.re = q[3]; m->m01.im = q[6]; m->m02.re = q[4]; m->m02.im = q[7]; m->m12.re = q[5]; m->m12.im = q[8];
#else
     m->m01 = q[3]; m->m02 = q[4]; m->m12 = q[5];
#endif
}

/* data: plane (4 numbers), then two tensors and two inverse tensors of 9 numbers, then the region of cb_mean (2 numbers), wiggle */
void cb_eps(symmetric_matrix *eps, symmetric_matrix *eps_inv, const real r[3], void *data)
{
     const double *p = (const double *) data;
     int in = sin(6.283185307179586 * (p[0] * r[0] + p[1] * r[1] + p[2] * r[2]) + p[3]) > p[42];
     double q[9]; int i;
     fill(eps, p + (in ? 4 : 13));
     for (i = 0; i < 9; ++i)
	  q[i] = p[(in ? 22 : 31) + i] + p[43] * sin(r[0] * (i + 1) + r[1] * 2 + r[2] * 3);
     fill(eps_inv, q);
}

int cb_mean(symmetric_matrix *eps, symmetric_matrix *eps_inv, real normal[3], real d1, real d2, real d3, real tol, const real r[3], void *data)
{
     const double *p = (const double *) data;
     double q[9]; int i;
     if (sin(6.283185307179586 * (p[1] * r[0] + p[2] * r[1] + p[0] * r[2])) > p[40])
	  return 0;
     for (i = 0; i < 9; ++i)
	  q[i] = p[4 + i] + 0.1 * sin(d1 + 2 * d2 + 3 * d3 + 4 * tol + i + r[0]) * (i < 3);
     fill(eps, q);
     fill(eps_inv, q);
     normal[0] = 1; normal[1] = normal[2] = 0;
     return 1;
}

/* defined by libctl's main program, which is not linked here */
__attribute__((weak)) int libctl_quiet = 1, verbose = 0, mma_verbose = 0;
