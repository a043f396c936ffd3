Q = "src/qpSWIFT.c"; X = "src/Auxilary.c"; L = "src/ldl.c"; PY = "python/pyqpSWIFT.c"; A2 = "src/amd_2.c"; I = "src/amd_info.c"; C = "src/amd_control.c"
RT = "myQP->options->reltol / sqrt(3.0)"
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
PYH = r'''
import sys, numpy as np, qpSWIFT
def prob(n, m, p, seed):
    r = np.random.RandomState(seed); B = r.randn(n, n); P = B @ B.T / n + np.eye(n); x = r.randn(n); G = r.randn(m, n); A = r.randn(p, n)
    return dict(c=r.randn(n) * 3, h=G @ x + 0.2 + r.rand(m), P=P, G=G, A=A, b=A @ x)
'''
CAP = r'''
#include "u.h"
#include <stdarg.h>
static char text[16384]; static int put(const char *f, ...) { va_list a; va_start(a, f); int k = vsnprintf(text + strlen(text), 4000, f, a); va_end(a); return k; }
'''
seed("p25-no-fill", "P25", "the statistics of an ordering whose factor has no entries below the diagonal",
 "zero is taken for unknown, so figures that are known to be zero are left out of the report",
 [(I, "if (x >= 0) { PRINTF", "if (x > 0) { PRINTF")],
CAP + r'''
int main(void)
{
	SuiteSparse_long Ap[4] = {0, 1, 2, 3}, Ai[3] = {0, 1, 2}, P[3]; double In[AMD_INFO]; amd_printf = put; amd_l_order(3, Ap, Ai, P, 0, In); amd_l_info(In);
	EXPECT(strstr(text, "nonzeros in L (excluding diagonal):"), "no line for the entries of L, which are %g", In[AMD_LNZ]); EXPECT(strstr(text, "memory compactions:"), "no line for the memory compactions"); DONE;
}
''')
seed("p25-negative-aggressive", "P25", "a negative aggressive-absorption setting", "the report says that aggressive absorption is off for a negative setting, while the ordering applies it",
 [(C, "aggressive = Control [AMD_AGGRESSIVE] != 0 ;", "aggressive = Control [AMD_AGGRESSIVE] > 0 ;")],
CAP + r'''
int main(void)
{
	double K[AMD_CONTROL] = {10, -1}; amd_printf = put; amd_l_control(K); EXPECT(strstr(text, "absorption:  yes"), "reported as off"); DONE;
}
''')
seed("p03-dual-relative", "P03", "contradictory equalities, whose multipliers grow without bound", "the equality residual is measured relative to the largest multiplier, so contradictory equalities are reported optimal once the multipliers have grown",
 [(Q, "myQP->stats->n_ry < " + RT + " && myQP->stats->n_mu", "myQP->stats->n_ry < MAX(1.0, sqrt(innerproduct(myQP->y, myQP->y, myQP->p))) * " + RT + " && myQP->stats->n_mu", 0)],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 60; t++) {
		qp_int n = 3 + t % 4, m = 2 * n, j; prob q = mkprob(n, m, 2, 1.0);
		for (j = 0; j < n; j++) q.A[j * 2 + 1] = q.A[j * 2];
		q.b[1] = q.b[0] + 0.5 + t * 0.01;
		QP *w = setup(&q); qp_int r = QP_SOLVE(w);
		EXPECT(r != QP_OPTIMAL, "contradictory equalities reported optimal (case %d)", t);
		QP_CLEANUP_dense(w); freeprob(&q);
	}
	DONE;
}
''')
seed("p02-short-steps", "P02", "more than 40 inequalities", "primal steps are cut to a tenth when there are more than 40 inequalities, so larger problems take far too many iterations",
 [(Q, "myQP->stats->alpha_p = MIN(0.99 * myQP->stats->alpha_p, 1.0);", "myQP->stats->alpha_p = MIN((myQP->m > 40 ? 0.1 : 0.99) * myQP->stats->alpha_p, 1.0);")],
r'''
#include "u.h"
int main(void)
{
	for (int t = 0; t < 20; t++) { prob q = mkprob(4 + t % 3, 36 + t, t % 3, 1.0); QP *w = setup(&q); qp_int r = QP_SOLVE(w); EXPECT(r == QP_OPTIMAL && w->stats->IterationCount < 50, "m = %ld: exit %ld after %ld iterations", (long)q.m, (long)r, (long)w->stats->IterationCount); QP_CLEANUP_dense(w); freeprob(&q); }
	DONE;
}
''')
seed("p14-boundary-sign", "P14", "an entry that reaches the boundary exactly", "a step that reaches the boundary exactly counts as leaving it, so the check for interior points answers wrongly",
 [(X, "if (x[i] < -alpha * delta_x[i])", "if (x[i] <= -alpha * delta_x[i])")],
r'''
#include "u.h"
#include "Auxilary.h"
int main(void)
{
	qp_real x[3] = {1, 2, 4}, d[3] = {3, -1, -2}, y[3] = {1, 2, 4}, e[3] = {3, -1, -3};
	EXPECT(!checksign(x, d, 2.0, 3), "a step that ends on the boundary is reported as crossing it"); EXPECT(checksign(y, e, 2.0, 3), "a crossing step goes unnoticed"); DONE;
}
''')
seed("p16-compaction", "P16", "a garbage collection in the quotient graph in the middle of building an element (no elbow room)", "the length of the element that is being built is off by one after a garbage collection, so the ordering reads beyond its lists",
 [(A2, "Len [me] -= knt1 ;", "Len [me] -= knt1 - 1 ;")],
r'''
#include "u.h"
static int cmp(const void *a, const void *b) { long x = *(const SuiteSparse_long *)a, y = *(const SuiteSparse_long *)b; return (x > y) - (x < y); }
static void *(*mf)(size_t); static SuiteSparse_long *blk; static size_t len_; 
int main(void)
{
	for (int t = 0; t < 4000; t++) { /* random symmetric patterns: many compactions */
		int n = 20 + t % 60, i, j; static SuiteSparse_long Ap[100], Ai[10000], P[100]; int k = 0; static char M[100][100]; memset(M, 0, sizeof M); double den = -0.95 + 0.002 * (t % 300);
		for (i = 0; i < n; i++) for (j = 0; j < i; j++) if (U() < den) M[i][j] = M[j][i] = 1;
		for (j = 0; j < n; j++) { Ap[j] = k; for (i = 0; i < n; i++) if (M[i][j]) Ai[k++] = i; } Ap[n] = k;
		double K[AMD_CONTROL] = {-1, t % 2}, In[AMD_INFO]; long r = amd_l_order(n, Ap, Ai, P, K, In); char seen[100] = {0}; EXPECT(r == AMD_OK, "status %ld", r); for (i = 0; i < n; i++) { int ok = P[i] >= 0 && P[i] < n && !seen[P[i]]; EXPECT(ok, "not a permutation"); if (!ok) DONE; seen[P[i]] = 1; }
	}
	DONE;
}
''', cflags="-DDLONG -fsanitize=address", ldflags="-fsanitize=address")
seed("p19-shared-buffer", "P19", "two matrix arguments that are views of the same buffer with the same number of rows", "G is taken for P when both start at the same address, so a G that shares memory with P is misread",
 [(PY, "!(Ptemp = getptr(P)) || !(Gtemp = getptr(G)))", "!(Ptemp = getptr(P)) || !(Gtemp = (PyArray_DATA(G) == PyArray_DATA(P) && PyArray_DIM(G, 0) == PyArray_DIM(P, 0) && PyArray_TYPE(G) == PyArray_TYPE(P)) ? (Py_INCREF(Ptemp), Ptemp) : getptr(G)))")],
PYH + r'''
n = 4; buf = np.arange(1.0, 2 * n * n + 1).reshape(2 * n, n) / 7; buf[:n] = np.eye(n) * 2; buf[n:] = np.random.RandomState(3).randn(n, n)
P = buf[:n].copy(); wide = np.zeros((n, 2 * n)); wide[:, :n] = P; G = wide[:, ::2]; Pv = wide[:, :n]
assert G.shape == (n, n) and G.__array_interface__["data"][0] == Pv.__array_interface__["data"][0]
c = np.array([1.0, -2, 3, -4]); h = np.ones(n) * 0.3
a = qpSWIFT.run(c, h, P.copy(), G.copy())["sol"]; b = qpSWIFT.run(c, h, Pv, G)["sol"]
ok = np.array_equal(a, b); print("ok" if ok else "shared buffer gives %s instead of %s" % (b, a)); sys.exit(0 if ok else 1)
''', kind="py")
seed("p09-gap-one", "P09", "a problem with a single inequality", "the reported complementarity is divided by at least two, so it is half its value for problems with one inequality",
 [(X, "myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / myQP->m;", "myQP->stats->n_mu = innerproduct(myQP->s, myQP->z, myQP->m) / MAX(myQP->m, 2);")],
r'''
#include "u.h"
int main(void)
{
	prob q = mkprob(3, 1, 0, 1.0); QP *w = setup(&q); for (int k = 1; k < 8; k++) { w->options->maxit = 1; qp_int r = QP_SOLVE(w); double g = w->s[0] * w->z[0]; EXPECT(fabs(w->stats->n_mu - g) <= 1e-12 * fabs(g), "complementarity reported as %g, it is %g", w->stats->n_mu, g); if (r == QP_OPTIMAL) break; }
	DONE;
}
''')
seed("p23-previous-exit", "P23", "a solvable problem on the step after one that could not be solved", "the basic block keeps the x of an earlier step when a later problem ends at the iteration limit",
 [("simulink/qpSWIFT_sfunc_e.c", "out_x[idx] = (real_T)(myQP->x[idx]);", "if (out_exitflag[0] == 0 || out_x[idx] == 0) out_x[idx] = (real_T)(myQP->x[idx]);")],
r'''
#include "u.h"
#include "qpSWIFT_sfunc_e.c"
static const double *ptr[6][64]; static double out[5][8];
static void step(SimStruct *S, prob *q) { const double *d[6] = {q->P, q->c, q->A, q->b, q->G, q->h}; int w[6] = {q->n * q->n, q->n, q->p * q->n, q->p, q->m * q->n, q->m}; for (int i = 0; i < 6; i++) { S->iw[i] = w[i]; for (int k = 0; k < w[i]; k++) ptr[i][k] = d[i] + k; S->in[i] = ptr[i]; } for (int i = 0; i < 5; i++) S->out[i] = out[i]; mdlOutputs(S, 0); }
int main(void)
{
	SimStruct S; memset(&S, 0, sizeof S); prob q = mkprob(3, 5, 1, 1.0), r = mkprob(3, 5, 1, 1.0); step(&S, &q); for (int j = 0; j < 3; j++) r.G[j * 5 + 1] = -r.G[j * 5]; r.h[1] = -r.h[0] - 1; step(&S, &r);
	QP *w = setup(&r); QP_SOLVE(w); for (int i = 0; i < 3; i++) EXPECT(out[0][i] == w->x[i], "x[%d] is %g instead of %g", i, out[0][i], w->x[i]); DONE;
}
''', kind="sim")
