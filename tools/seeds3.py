"""Planted bugs, third list (see mkseeds.py)."""
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
seed("p15-kept-column", "P15", "an update of the factor in which a column that is kept has two entries in rows that change", "the pattern-reusing factorisation moves on through a column only when the column itself was recomputed, so a kept column contributes its first changed row twice",
 [("src/ldl.c", "tt = work[col_idx]++;", "tt = work[col_idx]; if (UPattern[col_idx] == n) work[col_idx]++;")],
r'''
#include "u.h"
#include "ldl.h"
int main(void)
{
	/* arrow: columns 0..5 hang on rows 6 and 7 */
	enum { n = 8 }; static double M[n][n]; for (int i = 0; i < n; i++) M[i][i] = 5 + i; for (int i = 0; i < 6; i++) for (int j = 6; j < 8; j++) M[i][j] = M[j][i] = 0.5 + 0.1 * i + 0.2 * (j - 6); M[6][7] = M[7][6] = 0.7;
	csc A = sp(n, n, &M[0][0]); qp_int Lp[n + 1], Par[n], Lnz[n], Fl[n], Pat[n], Li[64] = {0}, Ltp[n + 1], Lti[64], U_[n]; double Lx[64], D[n], Y[n] = {0}, Lx2[64], D2[n];
	LDL_symbolic(n, A.jc, A.ir, Lp, Par, Lnz, Fl, 0, 0); LDL_numeric(n, A.jc, A.ir, A.pr, Lp, Par, Lnz, Li, Lx, D, Y, Pat, Fl, 0, 0);
	Transpose_Row_Count(n, n, Li, Lp, Lti, Ltp); for (int i = 0; i < n; i++) U_[i] = i >= 6 ? n : -2, Y[i] = 0;
	for (int k = A.jc[6]; k < A.jc[8]; k++) if (A.ir[k] == (k >= A.jc[7] ? 7 : 6)) A.pr[k] *= 2; memcpy(Lx2, Lx, sizeof Lx); memcpy(D2, D, sizeof D);
	LDL_cache_numeric(n, A.jc, A.ir, A.pr, Ltp, Lti, Li, Lp, Lx2, D2, Y, 0, 0, U_); LDL_numeric(n, A.jc, A.ir, A.pr, Lp, Par, Lnz, Li, Lx, D, Y, Pat, Fl, 0, 0);
	for (int i = 0; i < n; i++) EXPECT(fabs(D[i] - D2[i]) < 1e-9, "pivot %d is %.12g, a fresh factorisation gives %.12g", i, D2[i], D[i]); DONE;
}
''')
seed("p11-restart-ldl", "P11", "a lower bound on the centring parameter that is reached, so that the factorisation happens in the second solve of an iteration", "the time of a factorisation in a pure centring step replaces the sum instead of adding to it",
 [("src/Auxilary.c", "myQP->stats->ldl_numeric += toc(&t);", "myQP->stats->ldl_numeric = toc(&t);", 1)],
r'''
#include "u.h"
#include <time.h>
static long ns; int clock_gettime(clockid_t c, struct timespec *t) { ns += 1000; t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000; return 0; }
int main(void)
{
	prob q = mkprob(4, 7, 1, 1.0); csc P = sp(4, 4, q.P), G = sp(7, 4, q.G), A = sp(1, 4, q.A);
	QP *w = QP_SETUP(4, 7, 1, P.jc, P.ir, P.pr, A.jc, A.ir, A.pr, G.jc, G.ir, G.pr, q.c, q.h, q.b, 0.6, 0); w->options->maxit = 9; QP_SOLVE(w);
	/* every clock reading takes 1 us, every iteration factors at least once */
	EXPECT(w->stats->ldl_numeric >= 0.9e-6 * w->stats->IterationCount, "%ld iterations, factorisation time %g s", (long)w->stats->IterationCount, w->stats->ldl_numeric); DONE;
}
''')
seed("p10-thousand", "P10", "more than a thousand iterations in one verbose call", "the progress line is left out after the thousandth iteration of a call while the step line goes on",
 [("src/qpSWIFT.c", "if (myQP->options->verbose > 0)\n\t\t\t{\n\t\t\t\tPRINT(\"It:", "if (myQP->options->verbose > 0 && idx < 1000)\n\t\t\t{\n\t\t\t\tPRINT(\"It:")],
r'''
#include "u.h"
#include <unistd.h>
int main(void)
{
	prob q = mkprob(2, 3, 0, 1.0); QP *w = setup(&q); w->options->verbose = 1; w->options->maxit = 1500; w->options->reltol = w->options->abstol = 0;
	FILE *f = tmpfile(); fflush(stdout); int old = dup(1); dup2(fileno(f), 1); QP_SOLVE(w); fflush(stdout); dup2(old, 1); rewind(f);
	char l[1000]; long n = 0; while (fgets(l, sizeof l, f)) n += strstr(l, "pcost") != 0; long want = w->stats->IterationCount + (w->stats->Flag == QP_OPTIMAL);
	EXPECT(n == want, "%ld progress lines, %ld points were examined", n, want); DONE;
}
''')
seed("p24-edge-row", "P24", "a problem with more than 32767 inequalities whose row 32767 decides the step", "the step length rule skips one row when the inequalities are taken in blocks of 32767",
 [("src/Auxilary.c", "if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0])", "if (i % 32767 == 0 && i) continue; if (delta_s[i] < 0 && (-s[i] / delta_s[i]) < alpha_p[0])")],
r'''
#include "u.h"
int main(void)
{
	enum { m = 32770 }; double P = 1, c = -10, *G = malloc(m * 8), *h = malloc(m * 8); for (int i = 0; i < m; i++) G[i] = i == 32767 ? 1 : 0.01, h[i] = i == 32767 ? 1 : 100;
	QP *w = QP_SETUP_dense(1, m, 0, &P, 0, G, &c, h, 0, 0, COLUMN_MAJOR_ORDERING); w->options->maxit = 1; w->options->reltol = w->options->abstol = 0;
	for (int k = 0; k < 12; k++) { double a = w->s[32767]; QP_SOLVE(w); EXPECT(w->s[32767] > 0, "slack is %g", w->s[32767]); EXPECT(w->s[32767] >= 0.0099 * a, "slack fell from %g to %g in one step", a, w->s[32767]); } DONE;
}
''')
seed("p14-wide-transpose", "P14", "a matrix with a row of more than 65535 entries", "the row counts of the transpose wrap at 16 bits",
 [("src/Auxilary.c", "k = A->ir[j];\n\t\t\tcount[k]++;", "k = A->ir[j];\n\t\t\tcount[k] = (unsigned short)(count[k] + 1);", 0)],
r'''
#include "u.h"
#include "Auxilary.h"
int main(void)
{
	qp_int n = 66000; smat A, T; A.m = T.n = 1; A.n = T.m = n; A.nnz = T.nnz = n; A.jc = malloc((n + 1) * sizeof(qp_int)); A.ir = calloc(n, sizeof(qp_int)); A.pr = malloc(n * 8); T.jc = calloc(2, sizeof(qp_int)); T.ir = malloc(n * sizeof(qp_int)); T.pr = malloc(n * 8);
	for (qp_int i = 0; i <= n; i++) A.jc[i] = i; for (qp_int i = 0; i < n; i++) A.pr[i] = i; SparseMatrixTranspose(&A, &T); EXPECT(T.jc[1] == n, "the column of the transpose has %ld entries", (long)T.jc[1]); DONE;
}
''')
