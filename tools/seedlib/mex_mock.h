/* implementation of the stand-in, included once by demo.c */
#include "mex.h"
jmp_buf mex_jmp; const char *mex_err;
void mexErrMsgTxt(const char *s) { mex_err = s; longjmp(mex_jmp, 1); }
const mwSize *mxGetDimensions(const mxArray *a) { return a->d; }
double *mxGetPr(const mxArray *a) { return a->pr; }
mwIndex *mxGetIr(const mxArray *a) { return a->ir; }
mwIndex *mxGetJc(const mxArray *a) { return a->jc; }
double mxGetScalar(const mxArray *a) { return a->pr[0]; }
bool mxIsDouble(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsSparse(const mxArray *a) { return a->sparse; }
bool mxIsComplex(const mxArray *a) { return 0; }
bool mxIsNumeric(const mxArray *a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsLogical(const mxArray *a) { return 0; }
bool mxIsEmpty(const mxArray *a) { return a->d[0] * a->d[1] == 0; }
int mxGetFieldNumber(const mxArray *a, const char *n) { for (int i = 0; i < a->nf; i++) if (!strcmp(a->fn[i], n)) return i; return -1; }
mxArray *mxGetField(const mxArray *a, mwIndex i, const char *n) { int k = mxGetFieldNumber(a, n); return k < 0 ? 0 : a->fv[k]; }
void mxSetFieldByNumber(mxArray *a, mwIndex i, int k, mxArray *v) { a->fv[k] = v; }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) { mxArray *a = calloc(1, sizeof *a); a->cls = c; a->d[0] = m; a->d[1] = n; a->pr = calloc(m * n + 1, 8); return a; }
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **f) { mxArray *a = calloc(1, sizeof *a); a->cls = mxSTRUCT_CLASS; a->d[0] = a->d[1] = 1; a->nf = nf; for (int i = 0; i < nf; i++) a->fn[i] = f[i]; return a; }
static mxArray *vec(mwSize n, const double *v) { mxArray *a = mxCreateNumericMatrix(n, 1, mxDOUBLE_CLASS, mxREAL); memcpy(a->pr, v, n * 8); return a; }
static mxArray *spm(mwSize m, mwSize n, const double *v)
{
	mxArray *a = mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, mxREAL); mwSize i, j, k = 0; a->sparse = 1; a->ir = calloc(m * n + 1, 8); a->jc = calloc(n + 1, 8);
	for (j = 0; j < n; j++) { a->jc[j] = k; for (i = 0; i < m; i++) if (v[j * m + i] != 0) { a->ir[k] = i; a->pr[k++] = v[j * m + i]; } } a->jc[n] = k; return a;
}
static mxArray *opt1(const char *f, mxArray *v) { mxArray *a = calloc(1, sizeof *a); a->cls = mxSTRUCT_CLASS; a->d[0] = a->d[1] = 1; a->nf = 1; a->fn[0] = f; a->fv[0] = v; return a; }
