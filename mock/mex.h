/* Stand-in for MATLAB's mex.h */
#ifndef MOCK_MEX_H
#define MOCK_MEX_H
#include <stdio.h>
#include "matrix.h"
#ifdef __cplusplus
extern "C" {
#endif
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
void mexErrMsgTxt(const char *) __attribute__((noreturn)); void mexErrMsgIdAndTxt(const char *, const char *, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *); void mexWarnMsgIdAndTxt(const char *, const char *, ...);
int mexPrintf(const char *, ...); void mexMakeMemoryPersistent(void *); void mexMakeArrayPersistent(mxArray *); int mexAtExit(void (*)(void)); void mexLock(void); void mexUnlock(void); bool mexIsLocked(void); const char *mexFunctionName(void);
#ifdef __cplusplus
}
#endif
#endif
