// Stand-in for the MATLAB API behind mock/mex.h. Arrays are exact-size heap blocks, memory follows MATLAB's rules (what a gateway
// does not free is released when it returns), errors leave the gateway through longjmp, misuse of the API is recorded.
#pragma once
#include "mex.h"
#include "hooks.h"
#include <csetjmp>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <set>
#include <map>
#include <string>
#include <vector>
struct mxArray_tag {
    mxClassID cls = mxDOUBLE_CLASS; bool sparse = false, cplx = false; std::vector<mwSize> dims; void *pr = nullptr, *pi = nullptr; mwIndex *ir = nullptr, *jc = nullptr; mwSize nzmax = 0; size_t es = 8;
    std::vector<std::string> names; std::vector<mxArray *> vals; mxArray *owner = nullptr; bool foreign = false; /* made by the caller */
    size_t numel() const { size_t k = 1; for (auto d : dims) k *= d; return k; }
};
namespace mx {
inline std::set<mxArray *> live; inline std::set<void *> mem; inline std::string out, err, misuse, warned; inline jmp_buf env; inline bool inside = false; inline bool oob_read = false;
inline void bad(const std::string &s) { if (misuse.empty()) misuse = s; }
inline bool ok(const mxArray *a, const char *f) { if (a && live.count(const_cast<mxArray *>(a))) return true; bad(std::string(f) + (a ? " on something that is not an array" : " on a null array")); return false; }
inline size_t esize(mxClassID c) { switch (c) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; } }
inline mxArray *make(mxClassID cls, std::vector<mwSize> dims, bool cplx = false)
{
    mxArray *a = new mxArray; a->cls = cls; a->dims = dims; a->cplx = cplx; a->es = esize(cls); a->foreign = !inside; size_t k = a->numel();
    if (cls != mxSTRUCT_CLASS && cls != mxCELL_CLASS && k) { a->pr = calloc(k, a->es); if (cplx) a->pi = calloc(k, a->es); }
    live.insert(a); return a;
}
inline mxArray *make_sparse(mwSize m, mwSize n, const std::vector<long> &jc, const std::vector<long> &ir, const std::vector<double> &pr, size_t slack = 0)
{
    mxArray *a = new mxArray; a->sparse = true; a->dims = {m, n}; a->nzmax = std::max<size_t>(1, pr.size() + slack); a->foreign = true;
    a->pr = calloc(a->nzmax, 8); a->ir = (mwIndex *)calloc(a->nzmax, 8); a->jc = (mwIndex *)calloc(n + 1, 8);
    for (size_t k = 0; k < pr.size(); ++k) { ((double *)a->pr)[k] = pr[k]; a->ir[k] = ir[k]; } for (mwSize j = 0; j <= n; ++j) a->jc[j] = jc[j]; live.insert(a); return a;
}
inline mxArray *make_struct(const std::vector<std::string> &names) { mxArray *a = make(mxSTRUCT_CLASS, {1, 1}); a->names = names; a->vals.assign(names.size(), nullptr); return a; }
inline void set(mxArray *s, const std::string &n, mxArray *v) { s->names.push_back(n); s->vals.push_back(v); if (v) v->owner = s; }
inline void destroy(mxArray *a) { if (!a || !live.count(a)) return; live.erase(a); for (auto v : a->vals) destroy(v); free(a->pr); free(a->pi); free(a->ir); free(a->jc); delete a; }
inline std::vector<double> doubles(const mxArray *a) { return a && a->cls == mxDOUBLE_CLASS && !a->cplx && !a->sparse ? std::vector<double>((double *)a->pr, (double *)a->pr + a->numel()) : std::vector<double>{NAN, NAN, NAN}; }
inline const mxArray *field(const mxArray *s, const char *n) { for (size_t i = 0; i < s->names.size(); ++i) if (s->names[i] == n) return s->vals[i]; return nullptr; }
// byte image of an array, to see whether a call changed it
inline std::string image(const mxArray *a)
{
    if (!a) return "null"; std::string s((const char *)a->dims.data(), a->dims.size() * 8); s += char(a->cls); size_t k = a->sparse ? a->nzmax : a->numel();
    if (a->pr) s.append((char *)a->pr, k * a->es); if (a->pi) s.append((char *)a->pi, k * a->es); if (a->sparse) { s.append((char *)a->ir, k * 8); s.append((char *)a->jc, (a->dims[1] + 1) * 8); }
    for (size_t i = 0; i < a->vals.size(); ++i) s += a->names[i] + image(a->vals[i]); return s;
}
struct Call { bool error = false; std::string err, out, misuse; std::vector<mxArray *> lhs; long leaked = 0; };
// one call of the gateway; lhs slots beyond nlhs are poisoned
inline Call call(int nlhs, const std::vector<mxArray *> &args)
{
    Call r; std::vector<const mxArray *> rhs(args.begin(), args.end()); mxArray **lhs = (mxArray **)malloc(sizeof(mxArray *) * std::max(nlhs, 1)); for (int i = 0; i < std::max(nlhs, 1); ++i) lhs[i] = nullptr;
    const mxArray **rp = (const mxArray **)malloc(sizeof(mxArray *) * std::max<size_t>(rhs.size(), 1)); for (size_t i = 0; i < rhs.size(); ++i) rp[i] = rhs[i];
    out.clear(); err.clear(); misuse.clear(); mem.clear(); inside = true;
    std::set<mxArray *> before = live;
    if (setjmp(env) == 0) mexFunction(nlhs, lhs, (int)rhs.size(), rp); else r.error = true;
    inside = false; r.out = out; r.err = err; r.misuse = misuse; r.leaked = (long)mem.size(); for (void *p : mem) v_free(p); mem.clear();
    if (!r.error) r.lhs.assign(lhs, lhs + std::max(nlhs, 1));
    std::set<mxArray *> keep; for (auto a : r.lhs) if (a) { keep.insert(a); for (auto v : a->vals) if (v) keep.insert(v); }
    std::set<mxArray *> now = live; for (auto a : now) if (!before.count(a) && !keep.count(a)) { if (!r.error) r.leaked++; if (live.count(a)) destroy(a); }
    free(lhs); free(rp); return r;
}
inline void release(Call &r) { for (auto a : r.lhs) destroy(a); r.lhs.clear(); }
inline void drop_all() { inside = false; while (!live.empty()) { mxArray *a = *live.begin(); mxArray *o = a; while (o->owner && live.count(o->owner)) o = o->owner; destroy(o); } for (void *p : mem) v_free(p); mem.clear(); }
}
extern "C" {
void *mxMalloc(size_t n) { void *p = v_malloc(n ? n : 1); if (mx::inside) mx::mem.insert(p); return p; }
void *v_calloc(size_t, size_t); void *v_realloc(void *, size_t);
void *mxCalloc(size_t a, size_t b) { void *p = v_calloc(a, b); if (mx::inside) mx::mem.insert(p); return p; }
void mxFree(void *p) { if (!p) return; if (mx::inside && !mx::mem.erase(p)) { mx::bad("mxFree of a block that mxMalloc did not hand out in this call"); return; } v_free(p); }
void *mxRealloc(void *p, size_t n) { if (mx::inside) { if (p && !mx::mem.erase(p)) { mx::bad("mxRealloc of a foreign block"); return nullptr; } } void *q = v_realloc(p, n); if (mx::inside) mx::mem.insert(q); return q; }
const mwSize *mxGetDimensions(const mxArray *a) { static const mwSize z[2] = {0, 0}; return mx::ok(a, "mxGetDimensions") ? a->dims.data() : z; }
mwSize mxGetNumberOfDimensions(const mxArray *a) { return mx::ok(a, "mxGetNumberOfDimensions") ? a->dims.size() : 0; }
size_t mxGetNumberOfElements(const mxArray *a) { return mx::ok(a, "mxGetNumberOfElements") ? a->numel() : 0; }
size_t mxGetM(const mxArray *a) { return mx::ok(a, "mxGetM") ? a->dims[0] : 0; }
size_t mxGetN(const mxArray *a) { if (!mx::ok(a, "mxGetN")) return 0; size_t k = 1; for (size_t i = 1; i < a->dims.size(); ++i) k *= a->dims[i]; return k; }
size_t mxGetElementSize(const mxArray *a) { return mx::ok(a, "mxGetElementSize") ? a->es : 0; }
double *mxGetPr(const mxArray *a) { return a && mx::ok(a, "mxGetPr") ? (double *)a->pr : nullptr; }
double *mxGetPi(const mxArray *a) { return a && mx::ok(a, "mxGetPi") ? (double *)a->pi : nullptr; }
void *mxGetData(const mxArray *a) { return a && mx::ok(a, "mxGetData") ? a->pr : nullptr; }
mxDouble *mxGetDoubles(const mxArray *a) { return a && mx::ok(a, "mxGetDoubles") && a->cls == mxDOUBLE_CLASS && !a->cplx ? (double *)a->pr : nullptr; }
double mxGetScalar(const mxArray *a)
{
    if (!mx::ok(a, "mxGetScalar")) return 0; if (!a->pr) { mx::bad("mxGetScalar on an empty array or a structure"); return 0; }
    switch (a->cls) { case mxDOUBLE_CLASS: return *(double *)a->pr; case mxSINGLE_CLASS: return *(float *)a->pr; case mxLOGICAL_CLASS: case mxUINT8_CLASS: return *(uint8_t *)a->pr; case mxINT8_CLASS: return *(int8_t *)a->pr; case mxCHAR_CLASS: case mxUINT16_CLASS: return *(uint16_t *)a->pr; case mxINT16_CLASS: return *(int16_t *)a->pr; case mxINT32_CLASS: return *(int32_t *)a->pr; case mxUINT32_CLASS: return *(uint32_t *)a->pr; case mxINT64_CLASS: return (double)*(int64_t *)a->pr; case mxUINT64_CLASS: return (double)*(uint64_t *)a->pr; default: return 0; }
}
mwIndex *mxGetIr(const mxArray *a) { return a && mx::ok(a, "mxGetIr") ? a->ir : nullptr; }
mwIndex *mxGetJc(const mxArray *a) { return a && mx::ok(a, "mxGetJc") ? a->jc : nullptr; }
mwSize mxGetNzmax(const mxArray *a) { return mx::ok(a, "mxGetNzmax") ? a->nzmax : 0; }
mxClassID mxGetClassID(const mxArray *a) { return mx::ok(a, "mxGetClassID") ? a->cls : mxUNKNOWN_CLASS; }
const char *mxGetClassName(const mxArray *a) { static const char *n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"}; return n[mx::ok(a, "mxGetClassName") ? a->cls : 0]; }
bool mxIsClass(const mxArray *a, const char *n) { return !strcmp(mxGetClassName(a), n); }
bool mxIsDouble(const mxArray *a) { return mx::ok(a, "mxIsDouble") && a->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray *a) { return mx::ok(a, "mxIsSingle") && a->cls == mxSINGLE_CLASS; }
bool mxIsInt32(const mxArray *a) { return mx::ok(a, "mxIsInt32") && a->cls == mxINT32_CLASS; }
bool mxIsInt64(const mxArray *a) { return mx::ok(a, "mxIsInt64") && a->cls == mxINT64_CLASS; }
bool mxIsSparse(const mxArray *a) { return mx::ok(a, "mxIsSparse") && a->sparse; }
bool mxIsComplex(const mxArray *a) { return mx::ok(a, "mxIsComplex") && a->cplx; }
bool mxIsNumeric(const mxArray *a) { return mx::ok(a, "mxIsNumeric") && a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsLogical(const mxArray *a) { return mx::ok(a, "mxIsLogical") && a->cls == mxLOGICAL_CLASS; }
bool mxIsChar(const mxArray *a) { return mx::ok(a, "mxIsChar") && a->cls == mxCHAR_CLASS; }
bool mxIsCell(const mxArray *a) { return mx::ok(a, "mxIsCell") && a->cls == mxCELL_CLASS; }
bool mxIsStruct(const mxArray *a) { return mx::ok(a, "mxIsStruct") && a->cls == mxSTRUCT_CLASS; }
bool mxIsEmpty(const mxArray *a) { return mx::ok(a, "mxIsEmpty") && a->numel() == 0; }
bool mxIsScalar(const mxArray *a) { return mx::ok(a, "mxIsScalar") && a->numel() == 1; }
int mxGetNumberOfFields(const mxArray *a) { return mx::ok(a, "mxGetNumberOfFields") ? (int)a->names.size() : 0; }
int mxGetFieldNumber(const mxArray *a, const char *n) { if (!mx::ok(a, "mxGetFieldNumber")) return -1; for (size_t i = 0; i < a->names.size(); ++i) if (a->names[i] == n) return (int)i; return -1; }
const char *mxGetFieldNameByNumber(const mxArray *a, int i) { return mx::ok(a, "mxGetFieldNameByNumber") && i >= 0 && i < (int)a->names.size() ? a->names[i].c_str() : nullptr; }
mxArray *mxGetFieldByNumber(const mxArray *a, mwIndex k, int i) { return a && mx::ok(a, "mxGetFieldByNumber") && k == 0 && a->numel() == 1 && i >= 0 && i < (int)a->vals.size() ? a->vals[i] : nullptr; }
mxArray *mxGetField(const mxArray *a, mwIndex k, const char *n) { return a && mx::ok(a, "mxGetField") ? mxGetFieldByNumber(a, k, mxGetFieldNumber(a, n)) : nullptr; }
void mxSetFieldByNumber(mxArray *a, mwIndex k, int i, mxArray *v)
{
    if (!mx::ok(a, "mxSetFieldByNumber")) return; if (a->foreign) mx::bad("an argument's field was set"); if (k != 0 || i < 0 || i >= (int)a->vals.size()) { mx::bad("mxSetFieldByNumber with a field that does not exist"); return; }
    if (v && !mx::ok(v, "mxSetFieldByNumber")) return; if (v && (v->owner || v->foreign)) mx::bad("an array was put into two places"); if (a->vals[i]) mx::bad("a field was set twice"); a->vals[i] = v; if (v) v->owner = a;
}
void mxSetField(mxArray *a, mwIndex k, const char *n, mxArray *v) { mxSetFieldByNumber(a, k, mxGetFieldNumber(a, n), v); }
int mxAddField(mxArray *a, const char *n) { if (!mx::ok(a, "mxAddField")) return -1; a->names.push_back(n); a->vals.push_back(nullptr); return (int)a->names.size() - 1; }
mxArray *mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x) { return mx::make(c, {m, n}, x == mxCOMPLEX); }
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return mx::make(mxDOUBLE_CLASS, {m, n}, x == mxCOMPLEX); }
mxArray *mxCreateDoubleScalar(double v) { mxArray *a = mx::make(mxDOUBLE_CLASS, {1, 1}); *(double *)a->pr = v; return a; }
mxArray *mxCreateNumericArray(mwSize nd, const mwSize *d, mxClassID c, mxComplexity x) { return mx::make(c, std::vector<mwSize>(d, d + nd), x == mxCOMPLEX); }
mxArray *mxCreateStructArray(mwSize nd, const mwSize *d, int nf, const char **f) { mxArray *a = mx::make(mxSTRUCT_CLASS, std::vector<mwSize>(d, d + nd)); for (int i = 0; i < nf; ++i) { a->names.push_back(f[i]); a->vals.push_back(nullptr); } return a; }
mxArray *mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char **f) { mwSize d[2] = {m, n}; return mxCreateStructArray(2, d, nf, f); }
mxArray *mxDuplicateArray(const mxArray *a) { if (!mx::ok(a, "mxDuplicateArray")) return nullptr; mxArray *b = mx::make(a->cls, a->dims, a->cplx); if (a->pr && !a->sparse) memcpy(b->pr, a->pr, a->numel() * a->es); return b; }
void mxDestroyArray(mxArray *a) { if (!a) return; if (!mx::ok(a, "mxDestroyArray")) return; if (a->foreign) { mx::bad("an argument was destroyed"); return; } mx::destroy(a); }
double mxGetNaN(void) { return NAN; } double mxGetInf(void) { return INFINITY; } double mxGetEps(void) { return 2.220446049250313e-16; } bool mxIsNaN(double v) { return v != v; } bool mxIsInf(double v) { return std::isinf(v); } bool mxIsFinite(double v) { return std::isfinite(v); }
void mexErrMsgTxt(const char *s) { mx::err = s ? s : ""; if (mx::err.empty()) mx::err = "(no text)"; if (!mx::inside) abort(); longjmp(mx::env, 1); }
void mexErrMsgIdAndTxt(const char *, const char *f, ...) { mexErrMsgTxt(f); }
void mexWarnMsgTxt(const char *s) { mx::warned += s; } void mexWarnMsgIdAndTxt(const char *, const char *f, ...) { mx::warned += f; }
int mexPrintf(const char *f, ...) { va_list a; va_start(a, f); char b[16384]; int k = vsnprintf(b, sizeof b, f, a); va_end(a); mx::out += b; return k; }
void mexMakeMemoryPersistent(void *p) { mx::mem.erase(p); mx::bad("memory made persistent"); } void mexMakeArrayPersistent(mxArray *) {} int mexAtExit(void (*)(void)) { return 0; } void mexLock(void) {} void mexUnlock(void) {} bool mexIsLocked(void) { return false; } const char *mexFunctionName(void) { return "qpSWIFT"; }
}
