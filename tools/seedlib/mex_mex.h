/* minimal stand-in for mex.h, for the demonstrations */
#ifndef DEMO_MEX_H
#define DEMO_MEX_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <setjmp.h>
typedef size_t mwSize; typedef size_t mwIndex;
typedef enum { mxDOUBLE_CLASS = 6, mxSTRUCT_CLASS = 2 } mxClassID; typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef struct mxArray_tag { int cls, sparse; mwSize d[2]; double *pr; mwIndex *ir, *jc; int nf; const char *fn[16]; struct mxArray_tag *fv[16]; } mxArray;
extern jmp_buf mex_jmp; extern const char *mex_err;
#define mxMalloc malloc
#define mxRealloc realloc
#define mxCalloc calloc
#define mxFree free
#define mexPrintf printf
void mexFunction(int, mxArray **, int, const mxArray **);
void mexErrMsgTxt(const char *);
const mwSize *mxGetDimensions(const mxArray *); double *mxGetPr(const mxArray *); mwIndex *mxGetIr(const mxArray *); mwIndex *mxGetJc(const mxArray *); double mxGetScalar(const mxArray *);
bool mxIsDouble(const mxArray *); bool mxIsSparse(const mxArray *); bool mxIsComplex(const mxArray *); bool mxIsNumeric(const mxArray *); bool mxIsLogical(const mxArray *); bool mxIsEmpty(const mxArray *);
mxArray *mxGetField(const mxArray *, mwIndex, const char *); int mxGetFieldNumber(const mxArray *, const char *); void mxSetFieldByNumber(mxArray *, mwIndex, int, mxArray *);
mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity); mxArray *mxCreateStructArray(mwSize, const mwSize *, int, const char **);
#endif
