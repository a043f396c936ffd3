/* Stand-in for MATLAB's matrix.h: the C matrix API as far as a gateway could use it. Implemented in lib/mex.hpp. */
#ifndef MOCK_MATRIX_H
#define MOCK_MATRIX_H
#include <stddef.h>
#include <stdlib.h>
#include <stdbool.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex;
typedef struct mxArray_tag mxArray; typedef bool mxLogical; typedef double mxDouble; typedef uint16_t mxChar; typedef float mxSingle; typedef int32_t mxInt32;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL = 0, mxCOMPLEX } mxComplexity;
void *mxMalloc(size_t); void *mxCalloc(size_t, size_t); void *mxRealloc(void *, size_t); void mxFree(void *);
const mwSize *mxGetDimensions(const mxArray *); mwSize mxGetNumberOfDimensions(const mxArray *); size_t mxGetNumberOfElements(const mxArray *); size_t mxGetM(const mxArray *); size_t mxGetN(const mxArray *); size_t mxGetElementSize(const mxArray *);
double *mxGetPr(const mxArray *); double *mxGetPi(const mxArray *); void *mxGetData(const mxArray *); mxDouble *mxGetDoubles(const mxArray *); double mxGetScalar(const mxArray *); mwIndex *mxGetIr(const mxArray *); mwIndex *mxGetJc(const mxArray *); mwSize mxGetNzmax(const mxArray *);
mxClassID mxGetClassID(const mxArray *); const char *mxGetClassName(const mxArray *); bool mxIsClass(const mxArray *, const char *);
bool mxIsDouble(const mxArray *); bool mxIsSingle(const mxArray *); bool mxIsSparse(const mxArray *); bool mxIsComplex(const mxArray *); bool mxIsNumeric(const mxArray *); bool mxIsLogical(const mxArray *); bool mxIsChar(const mxArray *); bool mxIsCell(const mxArray *); bool mxIsStruct(const mxArray *); bool mxIsEmpty(const mxArray *); bool mxIsScalar(const mxArray *); bool mxIsInt32(const mxArray *); bool mxIsInt64(const mxArray *);
int mxGetNumberOfFields(const mxArray *); int mxGetFieldNumber(const mxArray *, const char *); const char *mxGetFieldNameByNumber(const mxArray *, int); mxArray *mxGetField(const mxArray *, mwIndex, const char *); mxArray *mxGetFieldByNumber(const mxArray *, mwIndex, int);
void mxSetField(mxArray *, mwIndex, const char *, mxArray *); void mxSetFieldByNumber(mxArray *, mwIndex, int, mxArray *); int mxAddField(mxArray *, const char *);
mxArray *mxCreateDoubleScalar(double); mxArray *mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity); mxArray *mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity); mxArray *mxCreateNumericArray(mwSize, const mwSize *, mxClassID, mxComplexity); mxArray *mxCreateStructArray(mwSize, const mwSize *, int, const char **); mxArray *mxCreateStructMatrix(mwSize, mwSize, int, const char **); mxArray *mxDuplicateArray(const mxArray *); void mxDestroyArray(mxArray *);
double mxGetNaN(void); double mxGetInf(void); double mxGetEps(void); bool mxIsNaN(double); bool mxIsInf(double); bool mxIsFinite(double);
#define mxAssert(a, b) ((void)0)
#ifdef __cplusplus
}
#endif
#endif
