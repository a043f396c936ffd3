/* Stand-in for Simulink's simstruc.h: the SimStruct macros as functions over a plain structure. Implemented in lib/mex.hpp users. */
#ifndef MOCK_SIMSTRUC_H
#define MOCK_SIMSTRUC_H
#include <string.h>
#include "mex.h"
#ifdef __cplusplus
extern "C" {
#endif
typedef double real_T; typedef int int_T; typedef unsigned uint_T; typedef char char_T; typedef unsigned char boolean_T; typedef double time_T;
typedef real_T const *const *InputRealPtrsType; typedef const void *const *InputPtrsType;
#define DYNAMICALLY_SIZED (-1)
#define INHERITED_SAMPLE_TIME ((real_T)-1.0)
#define CONTINUOUS_SAMPLE_TIME ((real_T)0.0)
#define FIXED_IN_MINOR_STEP_OFFSET ((real_T)1.0)
typedef struct DimsInfo_tag { int_T width, numDims; int_T *dims; } DimsInfo_T;
#define MOCK_MAXPORT 16
typedef struct SimStruct_tag {
    int ncont, ndisc, nparam_decl, nparam, nin, nout, nst;
    int fail_in, fail_out; /* the next request for ports is refused */
    int in_w[MOCK_MAXPORT], out_w[MOCK_MAXPORT], feed[MOCK_MAXPORT], contiguous[MOCK_MAXPORT]; int in_rows[MOCK_MAXPORT], out_rows[MOCK_MAXPORT];
    double st[4], off[4];
    real_T const **in_ptrs[MOCK_MAXPORT]; real_T *out[MOCK_MAXPORT];
    int bad; const char *why; const char *error; unsigned options; void *user;
} SimStruct;
int mock_set_num_in(SimStruct *, int); int mock_set_num_out(SimStruct *, int); int mock_port(SimStruct *, int out, int port, const char *what); /* 1 when the port exists */
int mock_dims(SimStruct *, int out, int port, const DimsInfo_T *);
#define ssSetNumContStates(S, n) ((S)->ncont = (n))
#define ssSetNumDiscStates(S, n) ((S)->ndisc = (n))
#define ssSetNumSFcnParams(S, n) ((S)->nparam_decl = (n))
#define ssGetNumSFcnParams(S) ((S)->nparam_decl)
#define ssGetSFcnParamsCount(S) ((S)->nparam)
#define ssSetNumInputPorts(S, n) mock_set_num_in((S), (n))
#define ssSetNumOutputPorts(S, n) mock_set_num_out((S), (n))
#define ssGetNumInputPorts(S) ((S)->nin)
#define ssGetNumOutputPorts(S) ((S)->nout)
#define ssSetInputPortVectorDimension(S, p, w) (mock_port((S), 0, (p), "ssSetInputPortVectorDimension") ? ((S)->in_w[p] = (w), 1) : 0)
#define ssSetOutputPortVectorDimension(S, p, w) (mock_port((S), 1, (p), "ssSetOutputPortVectorDimension") ? ((S)->out_w[p] = (w), 1) : 0)
#define ssSetInputPortWidth(S, p, w) ssSetInputPortVectorDimension(S, p, w)
#define ssSetOutputPortWidth(S, p, w) ssSetOutputPortVectorDimension(S, p, w)
#define ssSetInputPortDirectFeedThrough(S, p, f) (mock_port((S), 0, (p), "ssSetInputPortDirectFeedThrough") ? ((S)->feed[p] = (f), 1) : 0)
#define ssSetInputPortRequiredContiguous(S, p, f) (mock_port((S), 0, (p), "ssSetInputPortRequiredContiguous") ? ((S)->contiguous[p] = (f), 1) : 0)
#define ssSetInputPortDimensionInfo(S, p, d) mock_dims((S), 0, (p), (d))
#define ssSetOutputPortDimensionInfo(S, p, d) mock_dims((S), 1, (p), (d))
#define ssSetNumSampleTimes(S, n) ((S)->nst = (n))
#define ssSetSampleTime(S, i, v) ((S)->st[i] = (v))
#define ssSetOffsetTime(S, i, v) ((S)->off[i] = (v))
#define ssSetModelReferenceSampleTimeDefaultInheritance(S) ((void)0)
#define ssSetOptions(S, o) ((S)->options = (o))
#define ssSetNumRWork(S, n) ((void)0)
#define ssSetNumIWork(S, n) ((void)0)
#define ssSetNumPWork(S, n) ((void)0)
#define ssSetNumModes(S, n) ((void)0)
#define ssSetNumNonsampledZCs(S, n) ((void)0)
#define ssSetErrorStatus(S, m) ((S)->error = (m))
#define ssGetInputPortWidth(S, p) (mock_port((S), 0, (p), "ssGetInputPortWidth") ? (S)->in_w[p] : 0)
#define ssGetOutputPortWidth(S, p) (mock_port((S), 1, (p), "ssGetOutputPortWidth") ? (S)->out_w[p] : 0)
#define ssGetInputPortRealSignalPtrs(S, p) ((InputRealPtrsType)(mock_port((S), 0, (p), "ssGetInputPortRealSignalPtrs") ? (S)->in_ptrs[p] : 0))
#define ssGetInputPortSignalPtrs(S, p) ((InputPtrsType)ssGetInputPortRealSignalPtrs(S, p))
#define ssGetInputPortRealSignal(S, p) ((const real_T *)(mock_port((S), 0, (p), "ssGetInputPortRealSignal") ? *(S)->in_ptrs[p] : 0))
#define ssGetInputPortSignal(S, p) ((const void *)ssGetInputPortRealSignal(S, p))
#define ssGetOutputPortRealSignal(S, p) (mock_port((S), 1, (p), "ssGetOutputPortRealSignal") ? (S)->out[p] : (real_T *)0)
#define ssGetOutputPortSignal(S, p) ((void *)ssGetOutputPortRealSignal(S, p))
#define ssSetUserData(S, u) ((S)->user = (u))
#define ssGetUserData(S) ((S)->user)
#define UNUSED_ARG(a) ((void)(a))
typedef struct { const char *name; int level; void (*sizes)(SimStruct *); void (*times)(SimStruct *); void (*start)(SimStruct *); void (*outputs)(SimStruct *, int_T); void (*term)(SimStruct *); void (*in_dims)(SimStruct *, int_T, const DimsInfo_T *); void (*out_dims)(SimStruct *, int_T, const DimsInfo_T *); } mock_sfun;
#ifdef __cplusplus
}
#endif
#endif
