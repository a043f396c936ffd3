/* helpers shared by the demonstrations */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "qpSWIFT.h"
#include "amd.h"
static unsigned long long rs_ = 88172645463325252ull;
static double U(void) { rs_ ^= rs_ << 13; rs_ ^= rs_ >> 7; rs_ ^= rs_ << 17; return (double)(rs_ >> 11) / 4503599627370496.0 - 1.0; } /* -1..1 */
static int bad_;
#define EXPECT(c, ...) do { if (!(c)) { bad_ = 1; printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)
typedef struct { qp_int n, m, p; double *P, *A, *G, *c, *h, *b; } prob; /* column major */
/* strictly feasible problem with positive definite P and known multipliers' signs; xs scales the point */
static prob mkprob(qp_int n, qp_int m, qp_int p, double scale)
{
	prob q; qp_int i, j, k; double *B = calloc(n * n, 8), *x = calloc(n, 8);
	q.n = n; q.m = m; q.p = p; q.P = calloc(n * n, 8); q.A = calloc(p * n + 1, 8); q.G = calloc(m * n, 8); q.c = calloc(n, 8); q.h = calloc(m, 8); q.b = calloc(p + 1, 8);
	for (i = 0; i < n * n; i++) B[i] = U();
	for (i = 0; i < n; i++) for (j = 0; j < n; j++) { double s = i == j ? 1.0 : 0.0; for (k = 0; k < n; k++) s += B[k * n + i] * B[k * n + j] / n; q.P[j * n + i] = s; }
	for (i = 0; i < n; i++) { x[i] = U() * scale; q.c[i] = 3 * U(); }
	for (i = 0; i < m * n; i++) q.G[i] = U();
	for (i = 0; i < p * n; i++) q.A[i] = U();
	for (i = 0; i < m; i++) { double s = 0.2 + fabs(U()); for (j = 0; j < n; j++) s += q.G[j * m + i] * x[j]; q.h[i] = s; }
	for (i = 0; i < p; i++) { double s = 0; for (j = 0; j < n; j++) s += q.A[j * p + i] * x[j]; q.b[i] = s; }
	free(B); free(x); return q;
}
static QP *setup(prob *q) { return QP_SETUP_dense(q->n, q->m, q->p, q->P, q->p ? q->A : 0, q->G, q->c, q->h, q->p ? q->b : 0, 0, COLUMN_MAJOR_ORDERING); }
static void freeprob(prob *q) { free(q->P); free(q->A); free(q->G); free(q->c); free(q->h); free(q->b); }
/* norms of the residuals at the point of w, computed from the problem data */
static void resid(prob *q, QP *w, double *rx, double *ry, double *rz)
{
	qp_int i, j; *rx = *ry = *rz = 0;
	for (i = 0; i < q->n; i++) { double s = q->c[i]; for (j = 0; j < q->n; j++) s += q->P[j * q->n + i] * w->x[j]; for (j = 0; j < q->m; j++) s += q->G[i * q->m + j] * w->z[j]; for (j = 0; j < q->p; j++) s += q->A[i * q->p + j] * w->y[j]; *rx += s * s; }
	for (i = 0; i < q->p; i++) { double s = -q->b[i]; for (j = 0; j < q->n; j++) s += q->A[j * q->p + i] * w->x[j]; *ry += s * s; }
	for (i = 0; i < q->m; i++) { double s = w->s[i] - q->h[i]; for (j = 0; j < q->n; j++) s += q->G[j * q->m + i] * w->x[j]; *rz += s * s; }
	*rx = sqrt(*rx); *ry = sqrt(*ry); *rz = sqrt(*rz);
}
static double mu(QP *w) { double s = 0; for (qp_int i = 0; i < w->m; i++) s += w->s[i] * w->z[i]; return s / w->m; }
/* whether an optimal exit is the certificate it promises to be (with a factor of slack) */
static void certificate(prob *q, QP *w, const char *what)
{
	double rx, ry, rz; resid(q, w, &rx, &ry, &rz); double t = w->options->reltol * 1.5 + 1e-9;
	EXPECT(rx < t && ry < t && rz < t && mu(w) < w->options->abstol * 1.5, "%s: optimal reported at rx %g ry %g rz %g mu %g with tolerances %g %g", what, rx, ry, rz, mu(w), w->options->reltol, w->options->abstol);
}
/* dense column major to compressed columns */
typedef struct { qp_int *jc, *ir; double *pr; } csc;
static csc sp(qp_int m, qp_int n, const double *a)
{
	csc s; qp_int i, j, k = 0; s.jc = malloc((n + 1) * sizeof(qp_int)); s.ir = malloc((m * n + 1) * sizeof(qp_int)); s.pr = malloc((m * n + 1) * 8);
	for (j = 0; j < n; j++) { s.jc[j] = k; for (i = 0; i < m; i++) if (a[j * m + i] != 0) { s.ir[k] = i; s.pr[k++] = a[j * m + i]; } }
	s.jc[n] = k; return s;
}
#define DONE do { puts(bad_ ? "property broken" : "ok"); return bad_; } while (0)
