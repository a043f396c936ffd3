/* The C library behind one plain function, for the reference side of the Python checks. Row-major data. */
#include "qpSWIFT.h"
#include <string.h>
#include <math.h>
/* opt: maxit abstol reltol sigma verbose (NaN: leave the library default); out: exit flag, iterations, fval, defaults of the five options, four times */
int ref_solve(long n, long m, long p, double *P, double *A, double *G, double *c, double *h, double *b, const double *opt, double *x, double *y, double *z, double *s, double *out)
{
    QP *q = QP_SETUP_dense(n, m, p, P, p ? A : 0, G, c, h, p ? b : 0, 0, ROW_MAJOR_ORDERING); qp_int e;
    out[3] = (double)q->options->maxit; out[4] = q->options->abstol; out[5] = q->options->reltol; out[6] = q->options->sigma; out[7] = (double)q->options->verbose;
    q->options->verbose = 0;
    if (opt[0] == opt[0]) q->options->maxit = (qp_int)opt[0];
    if (opt[1] == opt[1]) q->options->abstol = opt[1];
    if (opt[2] == opt[2]) q->options->reltol = opt[2];
    if (opt[3] == opt[3]) q->options->sigma = opt[3];
    if (opt[4] == opt[4]) q->options->verbose = (qp_int)opt[4];
    e = QP_SOLVE(q); out[0] = (double)e; out[1] = (double)q->stats->IterationCount; out[2] = q->stats->fval;
    out[8] = q->stats->tsetup; out[9] = q->stats->tsolve; out[10] = q->stats->kkt_time; out[11] = q->stats->ldl_numeric;
    memcpy(x, q->x, n * sizeof(double)); if (p) memcpy(y, q->y, p * sizeof(double)); memcpy(z, q->z, m * sizeof(double)); memcpy(s, q->s, m * sizeof(double));
    QP_CLEANUP_dense(q); return (int)e;
}
