/* minimal stand-in for simstruc.h, for the demonstrations */
typedef double real_T; typedef int int_T; typedef real_T const *const *InputRealPtrsType;
#define DYNAMICALLY_SIZED (-1)
typedef struct { int iw[8], ow[8]; const real_T **in[8]; real_T *out[8]; } SimStruct;
#define ssSetNumContStates(S, n) ((void)0)
#define ssSetNumDiscStates(S, n) ((void)0)
#define ssSetNumSFcnParams(S, n) ((void)0)
#define ssGetNumSFcnParams(S) 0
#define ssGetSFcnParamsCount(S) 0
#define ssSetNumInputPorts(S, n) 1
#define ssSetNumOutputPorts(S, n) 1
#define ssSetInputPortVectorDimension(S, p, w) ((S)->iw[p] = (w))
#define ssSetOutputPortVectorDimension(S, p, w) ((S)->ow[p] = (w))
#define ssSetInputPortDirectFeedThrough(S, p, f) ((void)0)
#define ssSetNumSampleTimes(S, n) ((void)0)
#define ssSetSampleTime(S, i, v) ((void)0)
#define ssSetOffsetTime(S, i, v) ((void)0)
#define ssGetInputPortWidth(S, p) ((S)->iw[p])
#define ssGetOutputPortWidth(S, p) ((S)->ow[p])
#define ssGetOutputPortRealSignal(S, p) ((S)->out[p])
#define ssGetInputPortRealSignalPtrs(S, p) ((InputRealPtrsType)(S)->in[p])
