Q = "src/qpSWIFT.c"; X = "src/Auxilary.c"; L = "src/ldl.c"; PY = "python/pyqpSWIFT.c"
RT = "myQP->options->reltol / sqrt(3.0)"
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

seed("p01-relscale", "P01", "an inequality right-hand side of norm above one and an absolute tolerance loose enough that the residual decides when to stop",
 "the stopping test compares the inequality residual with the tolerance times the norm of h, so points are called optimal that violate Gx+s=h by far more than the tolerance",
 [(Q, "myQP->stats->n_rz < " + RT + " && myQP->stats->n_ry", "myQP->stats->n_rz < MAX(1.0, sqrt(innerproduct(myQP->h, myQP->h, myQP->m))) * " + RT + " && myQP->stats->n_ry"),
  (Q, "myQP->stats->n_rz < " + RT + " && myQP->stats->n_mu", "myQP->stats->n_rz < MAX(1.0, sqrt(innerproduct(myQP->h, myQP->h, myQP->m))) * " + RT + " && myQP->stats->n_mu")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 300; t++) {
		prob q = mkprob(3 + t % 6, 4 + t % 9, t % 3, 3000.0); int i, j;
		for (i = 0; i < q.n * q.n; i++) q.P[i] *= 1e-3; /* nearly a linear program with a bounded objective */
		for (j = 0; j < q.n; j++) { q.c[j] = 0; for (i = 0; i < q.m; i++) q.c[j] -= q.G[j * q.m + i] * (1 + (i * 7 % 5)); }
		QP *w = setup(&q);
		w->options->abstol = 1e6; w->options->reltol = 1e-5;
		if (QP_SOLVE(w) == QP_OPTIMAL) certificate(&q, w, "large right-hand side");
		QP_CLEANUP_dense(w); freeprob(&q);
	}
	DONE;
}
''')

seed("p01-resolve", "P01", "two solve calls on one instance with tighter tolerances for the second",
 "a solve call on an instance whose last call was optimal returns at once, so the tolerances now in force are not met by the point called optimal",
 [(Q, "if (myQP->stats->Flag != QP_KKTFAIL)", "if (myQP->stats->Flag != QP_KKTFAIL && myQP->stats->Flag != QP_OPTIMAL)")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 50; t++) {
		prob q = mkprob(3 + t % 6, 4 + t % 9, t % 3, 1.0); QP *w = setup(&q);
		w->options->abstol = 1e-1; w->options->reltol = 1e-1; QP_SOLVE(w);
		w->options->abstol = 1e-7; w->options->reltol = 1e-7;
		if (QP_SOLVE(w) == QP_OPTIMAL) certificate(&q, w, "second call");
		QP_CLEANUP_dense(w); freeprob(&q);
	}
	DONE;
}
''')

seed("p03-ry-recurrence", "P03", "equality constraints that contradict each other (a single solve call on consistent data looks right)",
 "the equality residual is updated by its recurrence instead of being evaluated, so problems with inconsistent equalities are reported optimal",
 [(X, "SparseMatrixMultiply(myQP->A, myQP->x, myQP->ry, 1);\n\t\tupdatevariables(myQP->ry, myQP->b, 1, myQP->p);",
   "if (myQP->stats->IterationCount == 0)\n\t\t{\n\t\t\tSparseMatrixMultiply(myQP->A, myQP->x, myQP->ry, 1);\n\t\t\tupdatevariables(myQP->ry, myQP->b, 1, myQP->p);\n\t\t}\n\t\telse\n\t\t{\n\t\t\t/* A(x + a*dx) - b = (1 - a)*(Ax - b) */\n\t\t\tfor (i = 0; i < myQP->p; i++)\n\t\t\t{\n\t\t\t\tmyQP->ry[i] *= 1.0 - myQP->stats->alpha_p;\n\t\t\t}\n\t\t}")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 60; t++) { /* a duplicated equality row with different right-hand sides */
		qp_int n = 3 + t % 4, m = 2 * n, j; prob q = mkprob(n, m, 2, 1.0);
		for (j = 0; j < n; j++) q.A[j * 2 + 1] = q.A[j * 2];
		q.b[1] = q.b[0] + 0.5 + t * 0.01;
		QP *w = setup(&q); qp_int r = QP_SOLVE(w);
		EXPECT(r != QP_OPTIMAL, "inconsistent equalities reported optimal (case %d)", t);
		QP_CLEANUP_dense(w); freeprob(&q);
	}
	DONE;
}
''')

seed("p04-sigma-reset", "P04", "a positive entering parameter sigma_d reached before a run is split over two solve calls",
 "a solve call that continues an earlier one resets the centring parameter, so a run split over several calls visits other points than one call",
 [(Q, "for (idx = 0; idx < myQP->options->maxit; idx++)", "/* a continued run starts with the predictor-corrector step again */\n\t\tif (myQP->stats->IterationCount)\n\t\t{\n\t\t\tmyQP->options->sigma = MAX(myQP->options->sigma, SIGMA);\n\t\t}\n\n\t\tfor (idx = 0; idx < myQP->options->maxit; ++idx)")],
r'''
#include "u.h"
static QP *sps(prob *q, double sd, csc *P, csc *A, csc *G) { *P = sp(q->n, q->n, q->P); *A = sp(q->p, q->n, q->A); *G = sp(q->m, q->n, q->G);
	return QP_SETUP(q->n, q->m, q->p, P->jc, P->ir, P->pr, A->jc, A->ir, A->pr, G->jc, G->ir, G->pr, q->c, q->h, q->b, sd, 0); }
int main(void)
{
	for (int t = 0; t < 40; t++) {
		prob q = mkprob(3 + t % 5, 5 + t % 5, t % 3, 1.0); csc P, A, G, P2, A2, G2; double sd = 0.1 + 0.02 * t;
		QP *a = sps(&q, sd, &P, &A, &G), *b = sps(&q, sd, &P2, &A2, &G2);
		a->options->maxit = 12; QP_SOLVE(a); b->options->maxit = 6; if (QP_SOLVE(b) == QP_MAXIT) QP_SOLVE(b);
		EXPECT(a->stats->IterationCount == b->stats->IterationCount && !memcmp(a->x, b->x, q.n * 8) && !memcmp(a->z, b->z, q.m * 8), "12 iterations differ from 6 + 6 (case %d)", t);
		QP_CLEANUP(a); QP_CLEANUP(b);
	}
	DONE;
}
''')

seed("p04-stale-kkt", "P04", "a run that reaches its iteration limit and is continued by a second solve call",
 "the first step of a continued run factorises the KKT matrix with the scaling of the step before, so the points differ from those of one uninterrupted call",
 [(Q, "else\n\t\t\t\t{\n\t\t\t\t\tupdatekktmatrix(myQP->kkt->kktmatrix, myQP->s, myQP->z, myQP->delta_s, myQP->delta_z, myQP->stats->alpha_p, myQP->stats->alpha_d, myQP->m, myQP->n, myQP->p, 0);\n\t\t\t\t}\n\t\t\t\tupdatekktmatrix_b",
   "else if (idx)\n\t\t\t\t{\n\t\t\t\t\tupdatekktmatrix(myQP->kkt->kktmatrix, myQP->s, myQP->z, myQP->delta_s, myQP->delta_z, myQP->stats->alpha_p, myQP->stats->alpha_d, myQP->m, myQP->n, myQP->p, 0);\n\t\t\t\t}\n\t\t\t\tupdatekktmatrix_b")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 40; t++) {
		prob q = mkprob(3 + t % 5, 5 + t % 5, t % 3, 1.0); QP *a = setup(&q), *b = setup(&q);
		a->options->maxit = 6; QP_SOLVE(a); b->options->maxit = 3; if (QP_SOLVE(b) == QP_MAXIT) QP_SOLVE(b);
		EXPECT(a->stats->IterationCount == b->stats->IterationCount && !memcmp(a->x, b->x, q.n * 8) && !memcmp(a->z, b->z, q.m * 8), "6 iterations differ from 3 + 3 (case %d)", t);
		QP_CLEANUP_dense(a); QP_CLEANUP_dense(b); freeprob(&q);
	}
	DONE;
}
''')

seed("p05-rowmajor-denormal", "P05", "a denormal entry in a row-major dense matrix",
 "row-major set-up drops denormal entries that column-major and compressed-column set-up keep",
 [(X, "if (pr[i * n + j] != 0.0)", "if (fabs(pr[i * n + j]) >= 2.2250738585072014e-308)"), (X, "if (temp != 0)", "if (fabs(temp) >= 2.2250738585072014e-308)")],
r'''
#include "u.h"
int main(void)
{
	double P[4] = {2, 0, 0, 2}, G[4] = {1, 4e-310, 0, 1}, c[2] = {-1, -1}, h[2] = {1, 1};
	QP *w = QP_SETUP_dense(2, 2, 0, P, 0, G, c, h, 0, 0, ROW_MAJOR_ORDERING);
	EXPECT(w->G->jc[2] == 3, "G holds %ld entries instead of 3", (long)w->G->jc[2]);
	QP_CLEANUP_dense(w); DONE;
}
''')

seed("p05-colmajor-nan", "P05", "a NaN entry in a column-major dense matrix",
 "column-major set-up treats NaN entries as absent, so the instance holds another matrix than the one given and may even be called optimal",
 [(X, "if (pr[j * m + i] != 0.0)", "if (pr[j * m + i] < 0.0 || pr[j * m + i] > 0.0)"), (X, "if (pr[j * m + i] != 0)", "if (pr[j * m + i] < 0.0 || pr[j * m + i] > 0.0)")],
r'''
#include "u.h"
int main(void)
{
	double P[4] = {2, 0, 0, 2}, G[4] = {1, NAN, 0, 1}, c[2] = {-1, -1}, h[2] = {1, 1};
	QP *w = QP_SETUP_dense(2, 2, 0, P, 0, G, c, h, 0, 0, COLUMN_MAJOR_ORDERING);
	EXPECT(w->G->jc[2] == 3, "G holds %ld entries instead of 3", (long)w->G->jc[2]);
	EXPECT(QP_SOLVE(w) != QP_OPTIMAL, "a problem with a NaN in G is reported optimal");
	QP_CLEANUP_dense(w); DONE;
}
''')

seed("p06-permut-size", "P06", "a caller's permutation that places an inequality index among its first n+m entries beyond n+m-1 while there are equality constraints",
 "the caller's permutation is validated over n+m instead of n+m+p entries and silently replaced by the built-in ordering when that fails",
 [(Q, "qp_int idx;\n\tQP *myQP;\n\tmyQP = (QP *)MALLOC(sizeof(QP));\n\n\t/* Initialise Settings */", "qp_int idx;\n\tQP *myQP;\n\tqp_int *mark = (qp_int *)MALLOC((n + m) * sizeof(qp_int));\n\tif (Permut && !LDL_valid_perm(n + m, Permut, mark))\n\t{\n\t\tPermut = NULL;\n\t}\n\tFREE(mark);\n\tmyQP = (QP *)MALLOC(sizeof(QP));\n\n\t/* Initialise Settings */", 0)],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 20; t++) { /* variables, inequalities, then equalities */
		prob q = mkprob(4, 5, 2, 1.0); csc P = sp(4, 4, q.P), A = sp(2, 4, q.A), G = sp(5, 4, q.G); qp_int perm[11], i, k = 0;
		for (i = 6; i < 11; i++) perm[k++] = i;
		for (i = 0; i < 6; i++) perm[k++] = i;
		QP *w = QP_SETUP(4, 5, 2, P.jc, P.ir, P.pr, A.jc, A.ir, A.pr, G.jc, G.ir, G.pr, q.c, q.h, q.b, 0, perm);
		EXPECT(w->stats->AMD_RESULT == -3 && w->kkt->P == perm, "the caller's permutation is not used (status %ld)", (long)w->stats->AMD_RESULT);
		EXPECT(QP_SOLVE(w) == QP_OPTIMAL, "not solved");
		QP_CLEANUP(w);
	}
	DONE;
}
''')

seed("p06-jumbled-identity", "P06", "row indices that are unsorted within a column (or repeated entries) together with a singular P",
 "the OK-BUT-JUMBLED status of the ordering is taken for a failure and the identity is used, under which singular P gives zero pivots",
 [(Q, "if (myQP->stats->AMD_RESULT < 0)", "if (myQP->stats->AMD_RESULT != AMD_OK)", 0)],
r'''
#include "u.h"
int main(void)
{
	/* a linear program with bounds; the rows of every column of G are listed in descending order */
	int broken = 0;
	for (int t = 0; t < 60; t++) {
		qp_int n = 4 + t % 5, m = 2 * n, p = 1, i, j, k = 0; qp_int Pjc[16] = {0}, Pir[1], Ajc[16], Air[16], Gjc[16], Gir[64]; double Ppr[1], Apr[16], Gpr[64], c[16], h[64], b[1] = {0};
		for (j = 0; j < n; j++) { Ajc[j] = j; Air[j] = 0; Apr[j] = 1 + 0.3 * U(); c[j] = 3 * U(); Gjc[j] = k; Gir[k] = n + j; Gpr[k++] = -1; Gir[k] = j; Gpr[k++] = 1; h[j] = h[n + j] = 1 + 0.5 * U(); }
		Ajc[n] = n; Gjc[n] = k;
		QP *w = QP_SETUP(n, m, p, Pjc, Pir, Ppr, Ajc, Air, Apr, Gjc, Gir, Gpr, c, h, b, 0, 0); qp_int r = QP_SOLVE(w);
		EXPECT(r == QP_OPTIMAL && w->stats->AMD_RESULT == AMD_OK_BUT_JUMBLED, "case %d: exit code %ld, ordering status %ld", t, (long)r, (long)w->stats->AMD_RESULT);
		int id = 1; for (i = 0; i < n + m + p; i++) id &= w->kkt->P[i] == i; EXPECT(!id, "case %d: the identity ordering is used although the built-in one succeeded", t);
		QP_CLEANUP(w);
	}
	DONE;
}
''')

OOM = r'''
static long left_ = -1; static void *lim(size_t n) { return left_ >= 0 && left_-- == 0 ? 0 : malloc(n); }
'''
seed("p07-dense-oom", "P07", "the ordering running out of memory during dense set-up",
 "in the dense set-up only an INVALID status is answered with the identity ordering; when the ordering runs out of memory the uninitialised permutation is used",
 [(Q, "if (myQP->stats->AMD_RESULT < 0)", "if (myQP->stats->AMD_RESULT == AMD_INVALID)", 1)],
r'''
#include "u.h"
''' + OOM + r'''
/* every block starts out filled, as reused memory would be */
extern void *__libc_malloc(size_t); void *malloc(size_t n) { void *p = __libc_malloc(n + 16); if (p) memset(p, 0x5a, n + 16); return p; }
int main(void)
{
	for (int t = 0; t < 3; t++) {
		prob q = mkprob(4, 6, 1, 1.0); amd_malloc = lim; left_ = t; QP *w = setup(&q); left_ = -1;
		EXPECT(w->stats->AMD_RESULT == AMD_OUT_OF_MEMORY, "status %ld", (long)w->stats->AMD_RESULT);
		for (qp_int i = 0; i < 11; i++) EXPECT(w->kkt->P[i] == i, "entry %ld of the permutation is %ld", (long)i, (long)w->kkt->P[i]);
		EXPECT(QP_SOLVE(w) == QP_OPTIMAL, "not solved"); QP_CLEANUP_dense(w); freeprob(&q);
	}
	DONE;
}
''')

COUNT = r'''
extern void *__libc_malloc(size_t); extern void __libc_free(void *); static long live_;
void *malloc(size_t n) { live_++; return __libc_malloc(n); }
void free(void *p) { if (p) live_--; __libc_free(p); }
'''
seed("p07-jumbled-leak", "P07", "unsorted row indices (or repeated entries) in the compressed columns",
 "clean-up releases the ordering only when its status was OK, so it leaks when the status was OK-BUT-JUMBLED",
 [(Q, "if (myQP->stats->AMD_RESULT != -3)", "if (myQP->stats->AMD_RESULT == AMD_OK)", 0)],
r'''
#include "u.h"
''' + COUNT + r'''
int main(void)
{
	qp_int Pjc[3] = {0, 1, 2}, Pir[2] = {0, 1}, Gjc[3] = {0, 2, 4}, Gir[4] = {1, 0, 1, 0}; double Ppr[2] = {1, 1}, Gpr[4] = {1, 2, 3, -1}, c[2] = {1, -1}, h[2] = {1, 1};
	long before = live_;
	for (int t = 0; t < 5; t++) { QP *w = QP_SETUP(2, 2, 0, Pjc, Pir, Ppr, 0, 0, 0, Gjc, Gir, Gpr, c, h, 0, 0, 0); QP_SOLVE(w); QP_CLEANUP(w); }
	EXPECT(live_ == before, "%ld blocks left after clean-up", live_ - before); DONE;
}
''')

seed("p07-sorts-input", "P07", "unsorted row indices in the caller's compressed columns of G",
 "set-up sorts the rows of the caller's G in place, so it modifies arrays the caller owns",
 [(Q, "QP *QP_SETUP(", "static void sort_columns(qp_int n, qp_int *jc, qp_int *ir, qp_real *pr)\n{\n\tqp_int i, j, k, row;\n\tqp_real val;\n\tfor (j = 0; j < n; j++)\n\t{\n\t\tfor (i = jc[j] + 1; i < jc[j + 1]; i++)\n\t\t{\n\t\t\trow = ir[i];\n\t\t\tval = pr[i];\n\t\t\tfor (k = i; k > jc[j] && ir[k - 1] > row; k--)\n\t\t\t{\n\t\t\t\tir[k] = ir[k - 1];\n\t\t\t\tpr[k] = pr[k - 1];\n\t\t\t}\n\t\t\tir[k] = row;\n\t\t\tpr[k] = val;\n\t\t}\n\t}\n}\n\nQP *QP_SETUP("),
  (Q, "SparseMatrixSetup(myQP->m, myQP->n, Gjc[myQP->n], Gjc, Gir, Gpr, myQP->G);", "sort_columns(n, Gjc, Gir, Gpr);\n\tSparseMatrixSetup(m, n, Gjc[n], Gjc, Gir, Gpr, myQP->G);")],
r'''
#include "u.h"
int main(void)
{
	qp_int Pjc[3] = {0, 1, 2}, Pir[2] = {0, 1}, Gjc[3] = {0, 2, 4}, Gir[4] = {1, 0, 1, 0}; double Ppr[2] = {1, 1}, Gpr[4] = {1, 2, 3, -1}, c[2] = {1, -1}, h[2] = {1, 1};
	qp_int i0[4]; double p0[4]; memcpy(i0, Gir, sizeof i0); memcpy(p0, Gpr, sizeof p0);
	QP *w = QP_SETUP(2, 2, 0, Pjc, Pir, Ppr, 0, 0, 0, Gjc, Gir, Gpr, c, h, 0, 0, 0); QP_SOLVE(w); QP_CLEANUP(w);
	EXPECT(!memcmp(i0, Gir, sizeof i0) && !memcmp(p0, Gpr, sizeof p0), "the caller's G was modified"); DONE;
}
''')

seed("p08-order-cache", "P08", "two instances with equal dimensions and entry counts but different sparsity patterns, one set up after the other",
 "the ordering of the last KKT matrix with the same dimension and number of entries is reused, so what a solve returns depends on the instances set up before",
 [(Q, "myQP->stats->AMD_RESULT = amd_l_order(myQP->kkt->kktmatrix->n, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->P, Control, Info);",
   "static qp_int last_n = 0, last_nnz = 0, last_P[256];\n\t\tif (kkt_m == last_n && kkt_nnz == last_nnz)\n\t\t{\n\t\t\tmemcpy(myQP->kkt->P, last_P, kkt_m * sizeof(qp_int));\n\t\t\tmyQP->stats->AMD_RESULT = AMD_OK;\n\t\t}\n\t\telse\n\t\t{\n\t\t\tmyQP->stats->AMD_RESULT = amd_l_order(kkt_m, myQP->kkt->kktmatrix->jc, myQP->kkt->kktmatrix->ir, myQP->kkt->P, Control, Info);\n\t\t\tif (myQP->stats->AMD_RESULT == AMD_OK && kkt_m <= 256)\n\t\t\t{\n\t\t\t\tlast_n = kkt_m;\n\t\t\t\tlast_nnz = kkt_nnz;\n\t\t\t\tmemcpy(last_P, myQP->kkt->P, kkt_m * sizeof(qp_int));\n\t\t\t}\n\t\t}", 0),
  (Q, '#include "qpSWIFT.h"\n', '#include "qpSWIFT.h"\n#include <string.h>\n')],
r'''
#include "u.h"
static QP *go(prob *q, csc *P, csc *G) { *P = sp(q->n, q->n, q->P); *G = sp(q->m, q->n, q->G); QP *w = QP_SETUP(q->n, q->m, 0, P->jc, P->ir, P->pr, 0, 0, 0, G->jc, G->ir, G->pr, q->c, q->h, 0, 0, 0); QP_SOLVE(w); return w; }
int main(void)
{
	for (int t = 0; t < 30; t++) { /* as many zeros in G, at other places */
		prob a = mkprob(5, 8, 0, 1.0), b = mkprob(5, 8, 0, 1.0), d = mkprob(6, 3, 0, 1.0); csc P, G; qp_int i, k;
		for (i = 0; i < 40; i++) if (i % 3) a.G[i] = 0;
		for (i = k = 0; i < 40; i++) if (i >= 26) b.G[i] = 0;
		for (i = k = 0; i < 40; i++) k += (a.G[i] != 0) - (b.G[i] != 0);
		for (i = 0; i < 40 && k > 0; i++) if (a.G[i] != 0) { a.G[i] = 0; k--; }
		for (i = 0; i < 40 && k < 0; i++) if (b.G[i] != 0) { b.G[i] = 0; k++; }
		QP *o = go(&d, &P, &G), *w1 = go(&b, &P, &G), *o2 = go(&d, &P, &G), *v = go(&a, &P, &G), *w2 = go(&b, &P, &G);
		EXPECT(!memcmp(w1->x, w2->x, 40) && w1->stats->IterationCount == w2->stats->IterationCount, "the same problem gives another result after a different one was set up (case %d)", t);
	}
	DONE;
}
''')

seed("p08-uninit-Y0", "P08", "workspace memory whose first bytes hold something else than (near) zero when the factorisation gets it",
 "the first entry of the factorisation's workspace is no longer cleared, so the result depends on what was in freshly allocated memory",
 [(L, "Y[k] = 0.0;\t\t    /* Y(0:k) is now all zero */\n\t\ttop = n;", "if (k) Y[k] = 0.0;\t\t    /* Y(0:k) is now all zero */\n\t\ttop = n;")],
r'''
#include "u.h"
extern void *__libc_malloc(size_t); static int fill_;
void *malloc(size_t n) { void *p = __libc_malloc(n + 8); if (p) for (size_t i = 0; i + 8 <= n + 8; i += 8) { double v = fill_; memcpy((char *)p + i, &v, 8); } return p; }
int main(void)
{
	prob q = mkprob(4, 6, 1, 1.0); fill_ = 0; QP *a = setup(&q); QP_SOLVE(a); fill_ = 7; QP *b = setup(&q); QP_SOLVE(b);
	EXPECT(!memcmp(a->x, b->x, 32) && a->stats->IterationCount == b->stats->IterationCount, "results depend on the contents of fresh memory: %g against %g", a->x[0], b->x[0]); DONE;
}
''')

seed("p09-symmetric-fval", "P09", "a P that is not symmetric (or that lists only one triangle)",
 "the objective is evaluated from the upper triangle of P as if P were symmetric, so the reported value is not x'Px/2 + c'x for other P",
 [(X, "SparseMatrixMultiply(P, x, temp, 1);", "qp_int i, j;\n\tqp_real quad = 0.0;\n\t/* P is symmetric: every off-diagonal entry counts twice */\n\tfor (j = 0; j < P->n; j++)\n\t{\n\t\tfor (i = P->jc[j]; i < P->jc[j + 1]; i++)\n\t\t{\n\t\t\tif (P->ir[i] <= j)\n\t\t\t{\n\t\t\t\tquad += (P->ir[i] == j ? 1.0 : 2.0) * P->pr[i] * x[P->ir[i]] * x[j];\n\t\t\t}\n\t\t}\n\t}"),
  (X, "return -0.5 * innerproduct(temp, x, P->n) + innerproduct(c, x, P->n);", "return 0.5 * quad + innerproduct(c, x, P->n);")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 20; t++) {
		prob q = mkprob(3, 5, 0, 1.0); q.P[1] += 0.3; QP *w = setup(&q); QP_SOLVE(w); double f = 0; int i, j;
		for (i = 0; i < 3; i++) { f += q.c[i] * w->x[i]; for (j = 0; j < 3; j++) f += 0.5 * w->x[i] * q.P[j * 3 + i] * w->x[j]; }
		EXPECT(fabs(f - w->stats->fval) < 1e-9 * (1 + fabs(f)), "objective reported as %.12g, is %.12g", w->stats->fval, f); QP_CLEANUP_dense(w);
	}
	DONE;
}
''')

seed("p10-line-number", "P10", "verbose output of a second solve call on one instance",
 "the iteration number printed for a point restarts with every call instead of being the running count",
 [(Q, 'myQP->stats->IterationCount, myQP->stats->fval, myQP->stats->n_rx', 'idx, myQP->stats->fval, myQP->stats->n_rx')],
r'''
#include "u.h"
#include <unistd.h>
int main(void)
{
	prob q = mkprob(4, 6, 1, 1.0); QP *w = setup(&q); FILE *f = tmpfile(); char l[512]; long k, last = -1; int so = dup(1);
	fflush(stdout); dup2(fileno(f), 1); w->options->verbose = 1; w->options->maxit = 2; QP_SOLVE(w); w->options->maxit = 100; QP_SOLVE(w); fflush(stdout); dup2(so, 1);
	rewind(f); while (fgets(l, sizeof l, f)) if (sscanf(l, "It: %ld", &k) == 1) { EXPECT(k == last + 1 || (k == 2 && last == 2) || k == last, "line %ld follows line %ld", k, last); last = k; }
	EXPECT(last == w->stats->IterationCount, "last line is %ld, count is %ld", last, (long)w->stats->IterationCount); DONE;
}
''')

seed("p11-realtime", "P11", "the wall clock being set while a call runs",
 "times are taken from the wall clock, so they jump (and become negative) when it is set",
 [("src/timer.c", "clock_gettime(CLOCK_MONOTONIC, &t->tic)", "clock_gettime(CLOCK_REALTIME, &t->tic)"), ("src/timer.c", "clock_gettime(CLOCK_MONOTONIC, &t->toc)", "clock_gettime(CLOCK_REALTIME, &t->toc)")],
r'''
#include "u.h"
#include <time.h>
static long long now_ = 5000000000ll, wall_ = 9000000000000ll;
int clock_gettime(clockid_t c, struct timespec *t) { now_ += 1000; wall_ -= 700000000; long long v = c == CLOCK_MONOTONIC ? now_ : wall_; t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
int main(void)
{
	prob q = mkprob(4, 6, 1, 1.0); QP *w = setup(&q); QP_SOLVE(w);
	EXPECT(w->stats->tsetup >= 0 && w->stats->tsolve >= 0 && w->stats->tsolve < 0.01, "set-up %g s, solve %g s while the wall clock was set back", w->stats->tsetup, w->stats->tsolve); DONE;
}
''')

seed("p11-borrow", "P11", "a call that crosses a second boundary with the nanoseconds wrapping around",
 "the borrow from the seconds is left out, so times across a second boundary are one second too long",
 [("src/timer.c", "temp.tv_sec = t->toc.tv_sec - t->tic.tv_sec - 1;", "temp.tv_sec = t->toc.tv_sec - t->tic.tv_sec;")],
r'''
#include "u.h"
#include <time.h>
static long long now_ = 5000000000ll;
int clock_gettime(clockid_t c, struct timespec *t) { now_ += 70000000; t->tv_sec = now_ / 1000000000; t->tv_nsec = now_ % 1000000000; return 0; }
int main(void)
{
	for (int k = 0; k < 40; k++) { qp_timer t; long long a = now_ + 70000000; tic(&t); now_ += 90000000ll * k; double d = toc(&t), e = (now_ - a) * 1e-9; EXPECT(fabs(d - e) < 1e-6, "%g s reported for %g s", d, e); }
	DONE;
}
''')

seed("p12-divergence", "P12", "data of large magnitude, such as an objective scaled up or variables translated far",
 "a divergence guard gives up when a residual exceeds an absolute bound, so the same problem in other units is not solved",
 [(Q, "/* Updates lambda and mu */\n\t\t\tformlambda(myQP->lambda, myQP->s, myQP->z, myQP->m);", "/* Gives up on diverging iterates */\n\t\t\tif (myQP->stats->n_rx > 1e5 || myQP->stats->n_rz > 1e5)\n\t\t\t{\n\t\t\t\tmyQP->stats->Flag = QP_FATAL;\n\t\t\t\tbreak;\n\t\t\t}\n\n\t\t\t/* Updates lambda and mu */\n\t\t\tformlambda(myQP->lambda, myQP->s, myQP->z, (qp_int)myQP->m);")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 20; t++) {
		prob q = mkprob(4, 8, 0, 1.0); QP *w = setup(&q); qp_int r = QP_SOLVE(w), i; for (i = 0; i < 16; i++) q.P[i] *= 1e6; for (i = 0; i < 4; i++) q.c[i] *= 1e6;
		QP *v = setup(&q); qp_int r2 = QP_SOLVE(v); EXPECT(r == r2, "exit code %ld, after scaling the objective %ld", (long)r, (long)r2);
	}
	DONE;
}
''')

SPS = r'''
static QP *sps(prob *q, double sd) { csc P = sp(q->n, q->n, q->P), A = sp(q->p, q->n, q->A), G = sp(q->m, q->n, q->G);
	return QP_SETUP(q->n, q->m, q->p, P.jc, P.ir, P.pr, A.jc, A.ir, A.pr, G.jc, G.ir, G.pr, q->c, q->h, q->b, sd, 0); }
'''
seed("p13-sigma-bound", "P13", "a positive entering parameter sigma_d that the centring parameter reaches",
 "predictor-corrector steps are still taken once the centring parameter is at the caller's bound, where the pure centring step is due",
 [(Q, "if (myQP->options->sigma > myQP->sigma_d)", "if (myQP->options->sigma >= myQP->sigma_d)")],
r'''
#include "u.h"
''' + SPS + r'''
int main(void)
{
	for (int t = 0; t < 30; t++) {
		prob q = mkprob(4, 8, t % 3, 1.0); QP *w = sps(&q, 0.4); w->options->maxit = 1; int reached = 0;
		for (int k = 0; k < 8; k++) { /* at the bound only one system is solved per iteration, and it is solved anew */
			reached = w->options->sigma <= 0.4; if (QP_SOLVE(w) != QP_MAXIT) break;
			EXPECT(!reached || w->stats->resolve_kkt == 1, "step %d from sigma %g is not a pure centring step", k, 0.4);
		}
	}
	DONE;
}
''')

seed("p13-damped-corrector", "P13", "an affine step shorter than one",
 "the second-order correction uses the affine directions multiplied by their step lengths instead of the full ones, which is another method that also converges",
 [(Q, "form_ds(myQP->ds, myQP->lambda, myQP->delta_s, myQP->delta_z, myQP->options->sigma, myQP->mu, myQP->m, QP_CENTERING_CORRECTOR_STEP);", "for (qp_int k = 0; k < myQP->m; k++)\n\t\t\t\t{\n\t\t\t\t\tmyQP->delta_s[k] *= MIN(1.0, myQP->stats->alpha_p);\n\t\t\t\t\tmyQP->delta_z[k] *= MIN(1.0, myQP->stats->alpha_d);\n\t\t\t\t}\n\t\t\t\tform_ds(myQP->ds, myQP->lambda, myQP->delta_s, myQP->delta_z, myQP->options->sigma, myQP->mu, myQP->m, QP_CENTERING_CORRECTOR_STEP);")],
r'''
#include "u.h"
int main(void)
{ /* one variable, two bounds: the first step by hand from the starting point the library computed */
	for (int t = 0; t < 20; t++) {
		double P[1] = {1 + 0.1 * t}, G[2] = {1, -1}, c[1] = {-3 + 0.2 * t}, h[2] = {1, 2}; QP *w = QP_SETUP_dense(1, 2, 0, P, 0, G, c, h, 0, 0, COLUMN_MAJOR_ORDERING);
		double x = w->x[0], s[2] = {w->s[0], w->s[1]}, z[2] = {w->z[0], w->z[1]}, rx, rz[2], ds[2], dx, dz[2], dS[2], ap = 1e10, ad = 1e10, m = (s[0] * z[0] + s[1] * z[1]) / 2, rho = 0; int i, k;
		rx = -(P[0] * x + c[0] + G[0] * z[0] + G[1] * z[1]); for (i = 0; i < 2; i++) { rz[i] = h[i] - G[i] * x - s[i]; ds[i] = -s[i] * z[i]; }
		for (k = 0; k < 2; k++) {
			double a = P[0], r = rx; for (i = 0; i < 2; i++) { double b = rz[i] - ds[i] / z[i]; a += G[i] * G[i] * z[i] / s[i]; r += G[i] * b * z[i] / s[i]; }
			dx = r / a; for (i = 0; i < 2; i++) { dz[i] = (G[i] * dx - (rz[i] - ds[i] / z[i])) * z[i] / s[i]; dS[i] = (ds[i] - s[i] * dz[i]) / z[i]; }
			ap = ad = 1e10; for (i = 0; i < 2; i++) { if (dS[i] < 0) ap = fmin(ap, -s[i] / dS[i]); if (dz[i] < 0) ad = fmin(ad, -z[i] / dz[i]); } if (ap == 1e10) ap = 1; if (ad == 1e10) ad = 1;
			if (!k) { for (i = 0; i < 2; i++) rho += (s[i] + ap * dS[i]) * (z[i] + ad * dz[i]); rho /= 2 * m; if (rho > 1) rho = 1; for (i = 0; i < 2; i++) ds[i] = -s[i] * z[i] - dS[i] * dz[i] + rho * rho * rho * m; }
		}
		w->options->maxit = 1; w->options->abstol = 1e-300; QP_SOLVE(w); double e = x + fmin(1, 0.99 * ap) * dx;
		EXPECT(fabs(w->x[0] - e) < 1e-9 * (1 + fabs(e)), "first step goes to %.12g instead of %.12g", w->x[0], e); QP_CLEANUP_dense(w);
	}
	DONE;
}
''')

seed("p14-blocked-product", "P14", "a vector length that is a multiple of 32",
 "the blocked inner product leaves out the last block when the length is a multiple of the block size",
 [(X, "for (i = 0; i < n; i++)\n\t{\n\t\tsum += x[i] * y[i];\n\t}", "qp_int k;\n\t/* full blocks, then the rest */\n\tfor (k = 0; k + 32 < n; k += 32)\n\t{\n\t\tfor (i = k; i < k + 32; i++)\n\t\t{\n\t\t\tsum += x[i] * y[i];\n\t\t}\n\t}\n\tfor (i = n - n % 32; i < n; i++)\n\t{\n\t\tsum += x[i] * y[i];\n\t}")],
r'''
#include "u.h"
int main(void)
{
	double a[200]; for (int i = 0; i < 200; i++) a[i] = 1; for (qp_int n = 0; n <= 200; n++) EXPECT(innerproduct(a, a, n) == n, "inner product of %ld ones is %g", (long)n, innerproduct(a, a, n)); DONE;
}
''')

seed("p14-transpose-dup", "P14", "repeated entries in a column of the matrix that is transposed",
 "the transpose overwrites an entry when the same position occurs twice instead of keeping both",
 [(X, "index = At->jc[k] + count[k];", "index = At->jc[k] + count[k];\n\t\t\tif (count[k] && At->ir[index - 1] == i)\n\t\t\t{\n\t\t\t\tindex--;\n\t\t\t\tcount[k]--;\n\t\t\t\tAt->ir[At->jc[k + 1] - 1] = i;\n\t\t\t\tAt->pr[At->jc[k + 1] - 1] = 0.0;\n\t\t\t}")],
r'''
#include "u.h"
int main(void)
{
	qp_int jc[3] = {0, 3, 4}, ir[4] = {0, 1, 0, 1}, tj[3], ti[4] = {0}; double pr[4] = {1, 2, 3, 4}, tp[4] = {0}, d[4] = {0}; smat A, T;
	SparseMatrixSetup(2, 2, 4, jc, ir, pr, &A); SparseMatrixSetup(2, 2, 4, tj, ti, tp, &T); SparseMatrixTranspose(&A, &T);
	for (int j = 0; j < 2; j++) for (int k = tj[j]; k < tj[j + 1]; k++) d[j * 2 + ti[k]] += tp[k];
	EXPECT(d[0] == 4 && d[1] == 0 && d[2] == 2 && d[3] == 4, "transpose is [%g %g; %g %g]", d[0], d[2], d[1], d[3]); DONE;
}
''')

seed("p15-lsolve-drop", "P15", "a right-hand side whose entries are small in absolute terms",
 "forward substitution skips components below an absolute threshold, so systems in small units are solved wrongly",
 [(L, "for (p = Lp[j]; p < p2; p++)\n\t\t{\n\t\t\tX[Li[p]] -= Lx[p] * X[j];", "if (X[j] < 1e-12 && X[j] > -1e-12)\n\t\t{\n\t\t\tcontinue;\n\t\t}\n\t\tfor (p = Lp[j]; p < p2; p++)\n\t\t{\n\t\t\tX[Li[p]] -= Lx[p] * X[j];")],
r'''
#include "u.h"
#include "ldl.h"
int main(void)
{
	qp_int Lp[4] = {0, 2, 3, 3}, Li[3] = {1, 2, 2}; double Lx[3] = {2, 3, 4}, X[3] = {1e-13, 0, 0}; LDL_lsolve(3, X, Lp, Li, Lx);
	EXPECT(fabs(X[1] + 2e-13) < 1e-25 && fabs(X[2] - 5e-13) < 1e-25, "solution %g %g %g", X[0], X[1], X[2]); DONE;
}
''')

seed("p15-dup-assign", "P15", "repeated entries in a column of the matrix that is factorised",
 "repeated entries overwrite each other in the numerical factorisation instead of adding up",
 [(L, "Y[i] += Ax[p];  /* scatter A(i,k) into Y (sum duplicates) */\n\t\t\t\tfor (len", "Y[i] = Ax[p];  /* scatter A(i,k) into Y */\n\t\t\t\tfor (len")],
r'''
#include "u.h"
#include "ldl.h"
int main(void)
{
	qp_int Ap[3] = {0, 2, 5}, Ai[5] = {0, 1, 0, 0, 1}, Lp[3], Par[2], Lnz[2], Flag[2], Pat[2], Li[2]; double Ax[5] = {4, 1, 0.25, 0.75, 3}, Lx[2], D[2], Y[2];
	LDL_symbolic(2, Ap, Ai, Lp, Par, Lnz, Flag, 0, 0); LDL_numeric(2, Ap, Ai, Ax, Lp, Par, Lnz, Li, Lx, D, Y, Pat, Flag, 0, 0);
	EXPECT(fabs(Lx[0] - 0.25) < 1e-15 && fabs(D[1] - 2.75) < 1e-14, "L %g D %g", Lx[0], D[1]); DONE;
}
''')

seed("p16-oom-second", "P16", "a jumbled pattern and a failure of the second workspace allocation made for it",
 "only the first of the two allocations for a jumbled pattern is checked, so the ordering crashes when the second one fails",
 [("src/amd_order.c", "if (!Rp || !Ri)", "if (!Rp)")],
r'''
#include "u.h"
#include <signal.h>
#include <unistd.h>
''' + OOM + r'''
static void segv(int s) { (void)!write(1, "crash\n", 6); _exit(1); }
int main(void)
{
	signal(SIGSEGV, segv); amd_malloc = lim; SuiteSparse_long Ap[4] = {0, 3, 4, 6}, Ai[6] = {2, 0, 1, 1, 2, 0}, P[3]; double I[AMD_INFO];
	for (int k = 0; k < 5; k++) { left_ = k; long r = amd_l_order(3, Ap, Ai, P, 0, I); left_ = -1; EXPECT(r == AMD_OUT_OF_MEMORY, "failure of allocation %d answered with %ld", k, r); }
	DONE;
}
''', cflags='-DDLONG')

seed("p16-dup-not-jumbled", "P16", "a pattern whose columns are sorted but repeat an entry",
 "sorted columns with repeated entries are reported as OK and ordered without removing the repetitions",
 [("src/amd_valid.c", "if (i <= ilast)", "if (i < ilast)")],
r'''
#include "u.h"
int main(void)
{
	SuiteSparse_long Ap[4] = {0, 3, 4, 6}, Ai[6] = {0, 1, 1, 1, 0, 2}, P[3]; double I[AMD_INFO]; long r = amd_l_order(3, Ap, Ai, P, 0, I);
	EXPECT(r == AMD_OK_BUT_JUMBLED, "repeated entries are answered with status %ld", r); DONE;
}
''')

seed("p17-dense-cap", "P17", "a row with more than 16 neighbours in a system large enough for the default dense limit to be higher",
 "rows with more than 16 neighbours are always set aside as dense, whatever the control setting allows, and the factors fill in",
 [("src/amd_2.c", "dense = MAX (16, dense) ;", "dense = MIN (16, dense) ;")],
r'''
#include "u.h"
int main(void)
{ /* arrow matrix with 30 neighbours of the hub: limit is 10 sqrt(31) = 55 */
	enum { N = 31 }; SuiteSparse_long Ap[N + 1], Ai[4 * N], P[N], k = 0, j; double I[AMD_INFO];
	for (j = 0; j < N; j++) { Ap[j] = k; if (j == 0) for (long i = 0; i < N; i++) Ai[k++] = i; else { Ai[k++] = 0; Ai[k++] = j; } } Ap[N] = k;
	amd_l_order(N, Ap, Ai, P, 0, I); EXPECT(I[AMD_NDENSE] == 0, "%g rows set aside as dense", I[AMD_NDENSE]); DONE;
}
''')

seed("p18-perm-sum", "P18", "a vector that is no permutation but has entries in range with the right sum",
 "the permutation check compares the sum of the entries instead of looking for repetitions, so vectors such as (1,1,1) pass",
 [(L, "if (j < 0 || j >= n || Flag[j] != 0)\n\t\t{\n\t\t\treturn (0);    /* P is not valid */\n\t\t}\n\t\tFlag[j] = 1;\n\t}\n\treturn (1);", "if (j < 0 || j >= n)\n\t\t{\n\t\t\treturn (0);    /* P is not valid */\n\t\t}\n\t\tFlag[0] += j - k;\n\t}\n\treturn (n == 0 || Flag[0] == 0);")],
r'''
#include "u.h"
#include "ldl.h"
int main(void)
{
	qp_int P[3] = {1, 1, 1}, Q[3] = {2, 0, 1}, F[3]; EXPECT(!LDL_valid_perm(3, P, F), "(1,1,1) is accepted"); EXPECT(LDL_valid_perm(3, Q, F), "(2,0,1) is rejected"); DONE;
}
''')

seed("p18-last-pointer", "P18", "column pointers that decrease only in the last column",
 "the matrix check does not look at the last column's pointers, so a pattern whose last pointer decreases is accepted",
 [(L, "for (j = 0; j < n; j++)\n\t{\n\t\tif (Ap[j] > Ap[j + 1])", "for (j = 0; j < n - 1; j++)\n\t{\n\t\tif (Ap[j] > Ap[j + 1])")],
r'''
#include "u.h"
#include "ldl.h"
int main(void)
{
	qp_int Ap[4] = {0, 1, 3, 2}, Ai[4] = {0, 1, 2, 0}; EXPECT(!LDL_valid_matrix(3, Ap, Ai), "decreasing column pointers are accepted"); DONE;
}
''')

PYH = r'''
import sys, numpy as np, qpSWIFT
def prob(n, m, p, seed):
    r = np.random.RandomState(seed); B = r.randn(n, n); P = B @ B.T / n + np.eye(n); x = r.randn(n); G = r.randn(m, n); A = r.randn(p, n)
    return dict(c=r.randn(n) * 3, h=G @ x + 0.2 + r.rand(m), P=P, G=G, A=A, b=A @ x)
'''
seed("p19-byteorder", "P19", "an argument in the other byte order", "arrays of eight-byte floating entries are taken over without conversion, so byte-swapped arrays are read as garbage",
 [(PY, "    new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);", "    new_owner = PyArray_ITEMSIZE(tmp_arr) == sizeof(qp_real) ? (Py_INCREF(tmp_arr), tmp_arr) : (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);")],
PYH + r'''
q = prob(4, 7, 1, 3); a = qpSWIFT.run(q["c"], q["h"], q["P"], q["G"], q["A"], q["b"])["sol"]
h = q["h"].astype(">f8"); b = qpSWIFT.run(q["c"], h, q["P"], q["G"], q["A"], q["b"])["sol"]
ok = np.array_equal(a, b); print("ok" if ok else "byte-swapped h gives %s instead of %s" % (b, a)); sys.exit(0 if ok else 1)
''', kind="py")

seed("p20-size-only", "P20", "a transposed G (n rows and m columns)", "only the number of entries of G is compared, so a matrix of transposed shape is accepted and misread",
 [(PY, "if ((qp_int)(PyArray_DIM(G, 0) != m) || (qp_int)(PyArray_DIM(G, 1) != n))", "if ((qp_int)PyArray_SIZE(G) != m * n)")],
PYH + r'''
q = prob(4, 7, 0, 3)
try: r = qpSWIFT.run(q["c"], q["h"], q["P"], np.ascontiguousarray(q["G"].T)); print("transposed G accepted"); sys.exit(1)
except TypeError as e: print("ok:", e); sys.exit(0)
''', kind="py")

seed("p20-maxiter-wrap", "P20", "an iteration limit beyond the range of int", "the range check of MAXITER truncates to int, so 2^32+50 passes for 50",
 [(PY, "qp_getlong(opts_maxiter) < 200 && qp_getlong(opts_maxiter) > 0", "(int)qp_getlong(opts_maxiter) < 200 && (int)qp_getlong(opts_maxiter) > 0")],
PYH + r'''
q = prob(4, 7, 0, 3)
try: r = qpSWIFT.run(q["c"], q["h"], q["P"], q["G"], opts={"MAXITER": 2**32 + 50}); print("accepted"); sys.exit(1)
except TypeError as e: print("ok:", e); sys.exit(0)
''', kind="py")

seed("p21-contig-ref", "P21", "contiguous arguments (whose reference count nobody looks at in the tests)", "the reference taken for a contiguous argument is not given back, so every call leaks a reference to its arguments",
 [(PY, "new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);\n    Py_DECREF(tmp_arr);", "new_owner = (PyArrayObject *)PyArray_Cast(tmp_arr, NPY_DOUBLE);\n    if (tmp_arr != ar)\n    {\n        Py_DECREF(tmp_arr);\n    }")],
PYH + r'''
q = prob(4, 7, 0, 3); c, h, P, G = q["c"], q["h"], q["P"], q["G"]; a = [sys.getrefcount(v) for v in (c, h, P, G)]
for i in range(10): qpSWIFT.run(c, h, P, G)
b = [sys.getrefcount(v) for v in (c, h, P, G)]; print("ok" if a == b else "reference counts %s became %s" % (a, b)); sys.exit(a != b)
''', kind="py")

seed("p21-static-qp", "P21", "several threads solving at the same time", "the solver instance is kept in a static variable, so a thread that solves while another one has released the interpreter lock reads the other one's instance",
 [(PY, "QP *myQP;\n\n    myQP = QP_SETUP_dense", "static QP *myQP;\n\n    myQP = QP_SETUP_dense")],
PYH + r'''
import threading, os
pid = os.fork()
if pid == 0:
    Q = [prob(20 + 5 * i, 60 + 9 * i, 3, i) for i in range(4)]
    ref = [qpSWIFT.run(q["c"], q["h"], q["P"], q["G"], q["A"], q["b"])["sol"] for q in Q]; bad = []
    def go(i):
        for k in range(150):
            q = Q[i]; r = qpSWIFT.run(q["c"], q["h"], q["P"], q["G"], q["A"], q["b"])["sol"]
            if not np.array_equal(r, ref[i]): bad.append(i)
    T = [threading.Thread(target=go, args=(i,)) for i in range(4)]
    for t in T: t.start()
    for t in T: t.join()
    os._exit(1 if bad else 0)
st = os.waitpid(pid, 0)[1]; print("ok" if st == 0 else "wrong results or a crash under threads (status %d)" % st); sys.exit(1 if st else 0)
''', kind="py")

seed("p22-perm-size", "P22", "a PERMUT option together with equality constraints", "the permutation is validated over m+n entries only, so valid permutations with equality constraints are refused (or invalid ones accepted)",
 [("matlab/qpSWIFT_mex.c", "if (!LDL_valid_perm(m + n + p, Permutpr, Flag))", "if (!LDL_valid_perm(m + n, Permutpr, Flag))")],
r'''
#include "u.h"
#include "mock.h"
int main(void)
{
	prob q = mkprob(3, 4, 1, 1.0); double pv[8]; for (int i = 0; i < 8; i++) pv[i] = 8 - i; mxArray *out[3];
	double pw[8] = {5, 6, 7, 8, 1, 2, 3, 4};
	const mxArray *in[7] = {spm(3, 3, q.P), vec(3, q.c), spm(1, 3, q.A), vec(1, q.b), spm(4, 3, q.G), vec(4, q.h), opt1("PERMUT", vec(8, pw))};
	if (setjmp(mex_jmp)) { EXPECT(0, "a valid permutation is refused: %s", mex_err); DONE; }
	mexFunction(2, out, 7, in); EXPECT(mxGetPr(mxGetField(out[1], 0, "ExitFlag"))[0] == 0, "not solved"); DONE;
}
''', kind="mex")

seed("p22-lower-reltol", "P22", "the relative tolerance given under its lower-case field name", "the lower-case spelling of RELTOL is looked up under a wrong name and has no effect",
 [("matlab/qpSWIFT_mex.c", 'sttgs_reltol = sttgs ? mxGetField(sttgs, 0, "reltol") : 0;', 'sttgs_reltol = sttgs ? mxGetField(sttgs, 0, "relTol") : 0;')],
r'''
#include "u.h"
#include "mock.h"
static double iters(const mxArray **in, const char *f, double v) { mxArray *out[3]; in[4] = opt1(f, vec(1, &v)); mexFunction(2, out, 5, in); return mxGetPr(mxGetField(out[1], 0, "Iterations"))[0]; }
int main(void)
{
	prob q = mkprob(3, 4, 0, 1.0); const mxArray *in[5] = {spm(3, 3, q.P), vec(3, q.c), spm(4, 3, q.G), vec(4, q.h), 0};
	if (setjmp(mex_jmp)) { EXPECT(0, "error: %s", mex_err); DONE; }
	double a = iters(in, "RELTOL", 1e-14), b = iters(in, "reltol", 1e-14); EXPECT(a == b, "%g iterations with RELTOL, %g with reltol", a, b); DONE;
}
''', kind="mex")

seed("p23-memo", "P23", "a step on which only P, A or G changed", "the extended block keeps its outputs when c, b and h are the same as on the step before, so a change of P, A or G alone is ignored",
 [("simulink/qpSWIFT_sfunc_e.c", "myQP = QP_SETUP_dense(n, m, p, *in_P , *in_A, *in_G, *in_c, *in_h, *in_b, NULL, COLUMN_MAJOR_ORDERING);",
   "/* nothing to do when the problem is the one of the last step */\n    static qp_real last[3];\n    static qp_int last_size[3];\n    qp_real key[3] = {innerproduct((qp_real *)*in_c, (qp_real *)*in_c, n), innerproduct((qp_real *)*in_h, (qp_real *)*in_h, m), innerproduct((qp_real *)*in_b, (qp_real *)*in_b, p)};\n    if (last_size[0] == n && last_size[1] == m && last_size[2] == p && last[0] == key[0] && last[1] == key[1] && last[2] == key[2])\n    {\n        return;\n    }\n    last_size[0] = n;\n    last_size[1] = m;\n    last_size[2] = p;\n    last[0] = key[0];\n    last[1] = key[1];\n    last[2] = key[2];\n\n    myQP = QP_SETUP_dense(n, m, p, (qp_real *)*in_P, (qp_real *)*in_A, (qp_real *)*in_G, (qp_real *)*in_c, (qp_real *)*in_h, (qp_real *)*in_b, NULL, COLUMN_MAJOR_ORDERING);")],
r'''
#include "u.h"
#include "qpSWIFT_sfunc_e.c"
static const double *ptr[6][64]; static double out[5][8];
static void step(SimStruct *S, prob *q) { const double *d[6] = {q->P, q->c, q->A, q->b, q->G, q->h}; int w[6] = {q->n * q->n, q->n, q->p * q->n, q->p, q->m * q->n, q->m}; for (int i = 0; i < 6; i++) { S->iw[i] = w[i]; for (int k = 0; k < w[i]; k++) ptr[i][k] = d[i] + k; S->in[i] = ptr[i]; } for (int i = 0; i < 5; i++) S->out[i] = out[i]; mdlOutputs(S, 0); }
int main(void)
{
	SimStruct S; memset(&S, 0, sizeof S); prob q = mkprob(3, 5, 1, 1.0); step(&S, &q); q.P[0] += 3; q.P[4] += 5; step(&S, &q);
	QP *w = setup(&q); QP_SOLVE(w); for (int i = 0; i < 3; i++) EXPECT(fabs(out[0][i] - w->x[i]) < 1e-12, "x[%d] is %g instead of %g", i, out[0][i], w->x[i]); DONE;
}
''', kind="sim")

seed("p24-adaptive-step", "P24", "iterates close to the solution (small complementarity)", "the fraction to the boundary approaches one as the complementarity goes to zero, so entries of s and z fall below one percent of their value in a step",
 [(Q, "myQP->stats->alpha_p = MIN(0.99 * myQP->stats->alpha_p, 1.0);", "myQP->stats->alpha_p = MIN(MAX(0.99, 1.0 - myQP->mu) * myQP->stats->alpha_p, 1.0);"), (Q, "myQP->stats->alpha_d = MIN(0.99 * myQP->stats->alpha_d, 1.0);", "myQP->stats->alpha_d = MIN(MAX(0.99, 1.0 - myQP->mu) * myQP->stats->alpha_d, 1.0);")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 40; t++) {
		prob q = mkprob(4, 9, t % 3, 1.0); QP *w = setup(&q); double s[9], z[9]; w->options->maxit = 1;
		for (int k = 0; k < 30; k++) { memcpy(s, w->s, 72); memcpy(z, w->z, 72); qp_int r = QP_SOLVE(w); if (r != QP_MAXIT) break; for (int i = 0; i < 9; i++) EXPECT(w->s[i] > 0.0099 * s[i] && w->z[i] > 0.0099 * z[i], "entry %d falls to %g, %g of its value", i, w->s[i] / s[i], w->z[i] / z[i]); }
	}
	DONE;
}
''')

seed("p24-ignore-tiny", "P24", "a direction that is tiny in absolute terms for an entry that is tiny as well", "the ratio test leaves out directions below an absolute threshold, so entries close to zero can be stepped through",
 [(X, "if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0])", "if (delta_s[i] < -1e-8 && (-s[i] / delta_s[i]) < alpha_p[0])"), (X, "if (delta_z[i] < 0 && (-z[i] / delta_z[i]) < alpha_d[0])", "if (delta_z[i] < -1e-8 && (-z[i] / delta_z[i]) < alpha_d[0])")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 200; t++) {
		prob q = mkprob(4, 9, t % 3, 1.0); QP *w = setup(&q); double s[9], z[9]; w->options->maxit = 1; w->options->abstol = 1e-14; w->options->reltol = 1e-9;
		for (int k = 0; k < 25; k++) { memcpy(s, w->s, 72); memcpy(z, w->z, 72); qp_int r = QP_SOLVE(w); if (r != QP_MAXIT) break; for (int i = 0; i < 9; i++) EXPECT(w->s[i] > 0.0099 * s[i] && w->z[i] > 0.0099 * z[i], "entry %d falls to %g, %g of its value", i, w->s[i] / s[i], w->z[i] / z[i]); }
	}
	DONE;
}
''')

seed("p02-stall-guard", "P02", "a well-posed problem on the way to whose solution one step happens to be short", "a stall guard gives up as soon as one step length falls below ten percent, which also happens on well-posed problems that recover in the next iterations",
 [(Q, "myQP->stats->IterationCount++;", "myQP->stats->IterationCount += 1;\n\n\t\t\t/* Gives up when no progress is made */\n\t\t\tif (MIN(myQP->stats->alpha_p, myQP->stats->alpha_d) < 0.1)\n\t\t\t{\n\t\t\t\tmyQP->stats->Flag = QP_FATAL;\n\t\t\t\tbreak;\n\t\t\t}")],
r"""
#include "u.h"
int main(void)
{
	for (int t = 0; t < 4000; t++) {
		qp_int n = 2 + t % 9, i, j, m = 4 * n; prob q = mkprob(n, m, t % 2 ? n / 3 : 0, 1.0);
		if (t & 2) for (i = 0; i < n * n; i++) q.P[i] = 0;
		for (j = 0; j < n; j++) for (i = 2 * n; i < m; i++) { q.G[j * m + i] = (i - 2 * n) / 2 == j ? ((i & 1) ? 1 : -1) : 0; q.h[i] = 3; }
		QP *w = setup(&q); qp_int r = QP_SOLVE(w);
		EXPECT(r == QP_OPTIMAL && w->stats->IterationCount < 50, "case %d: exit code %ld after %ld iterations", t, (long)r, (long)w->stats->IterationCount); QP_CLEANUP_dense(w); freeprob(&q);
	}
	DONE;
}
""")
