// The stand-in for the MEX API (mex.h)
#include "mex.h"
#include <cstdarg>
#include <cstdlib>
#include <limits>
static std::vector<mxArray*> g_all;
namespace mexmock {
int warnings = 0;
mxArray* make(mwSize M, mwSize N, mxClassID cls) { mxArray* a = new mxArray; g_all.push_back(a); a->cls = cls; a->M = M; a->N = N; a->data = new char[a->count() * a->elem()](); return a; }
mxArray* makeSparse(mwSize M, mwSize N, mwSize nz) { mxArray* a = new mxArray; g_all.push_back(a); a->M = M; a->N = N; a->sparse = true; a->nzmax = nz; a->data = new char[nz * 8](); a->ir = new mwIndex[nz](); a->jc = new mwIndex[N + 1](); return a; }
std::size_t mark() { g_all.reserve(4096); return g_all.size(); }
void clear(std::size_t from) { for (std::size_t i = from; i < g_all.size(); i++) delete g_all[i]; if (from < g_all.size()) g_all.resize(from); }
}
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return mexmock::make(m, n); }
mxArray* mxCreateDoubleScalar(double v) { mxArray* a = mexmock::make(1, 1); *mxGetPr(a) = v; return a; }
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char** keys) { mxArray* a = mexmock::make(m, n, mxSTRUCT_CLASS); for (int i = 0; i < nf; i++) mxAddField(a, keys[i]); return a; }
mxArray* mxCreateString(const char* s) { mxArray* a = mexmock::make(*s ? 1 : 0, strlen(s), mxCHAR_CLASS); a->str = s; return a; }
mxArray* mxCreateSparse(mwSize m, mwSize n, mwSize nz, mxComplexity) { return mexmock::makeSparse(m, n, nz); }
mxArray* mxDuplicateArray(const mxArray* a) {
    mxArray* b = a->sparse ? mexmock::makeSparse(a->M, a->N, a->nzmax) : mexmock::make(a->M, a->N, a->cls); b->str = a->str; memcpy(b->data, a->data, a->count() * a->elem());
    if (a->sparse) { memcpy(b->ir, a->ir, a->nzmax * sizeof(mwIndex)); memcpy(b->jc, a->jc, (a->N + 1) * sizeof(mwIndex)); } for (auto& f : a->fields) b->fields.push_back({f.first, f.second ? mxDuplicateArray(f.second) : nullptr}); return b;
}
void mxDestroyArray(mxArray*) {}
int mxGetFieldNumber(const mxArray* a, const char* name) { for (size_t i = 0; i < a->fields.size(); i++) if (a->fields[i].first == name) return (int)i; return -1; }
int mxAddField(mxArray* a, const char* name) { int k = mxGetFieldNumber(a, name); if (k >= 0) return k; a->fields.push_back({name, nullptr}); return (int)a->fields.size() - 1; }
mxArray* mxGetField(const mxArray* a, mwIndex, const char* name) { int k = mxGetFieldNumber(a, name); return k < 0 ? nullptr : a->fields[k].second; }
mxArray* mxGetFieldByNumber(const mxArray* a, mwIndex, int k) { return k < 0 || k >= (int)a->fields.size() ? nullptr : a->fields[k].second; }
const char* mxGetFieldNameByNumber(const mxArray* a, int k) { return k < 0 || k >= (int)a->fields.size() ? nullptr : a->fields[k].first.c_str(); }
void mxSetFieldByNumber(mxArray* a, mwIndex, int k, mxArray* v) { if (k >= 0 && k < (int)a->fields.size()) a->fields[k].second = v; }
void mxSetField(mxArray* a, mwIndex, const char* name, mxArray* v) { mxSetFieldByNumber(a, 0, mxAddField(a, name), v); }
int mxGetNumberOfFields(const mxArray* a) { return (int)a->fields.size(); }
mwSize mxGetM(const mxArray* a) { return a->M; }
mwSize mxGetN(const mxArray* a) { return a->N; }
mwSize mxGetNumberOfElements(const mxArray* a) { return a->M * a->N; }
mwSize mxGetNumberOfDimensions(const mxArray*) { return 2; }
mwSize mxGetNzmax(const mxArray* a) { return a->nzmax; }
double* mxGetPr(const mxArray* a) { return (double*)a->data; }
void* mxGetData(const mxArray* a) { return a->data; }
mwIndex* mxGetIr(const mxArray* a) { return a->ir; }
mwIndex* mxGetJc(const mxArray* a) { return a->jc; }
double mxGetScalar(const mxArray* a) { if (!a->count()) throw mexmock::Error("mxGetScalar of an empty array"); if (a->cls == mxDOUBLE_CLASS) return *(double*)a->data; if (a->cls == mxINT32_CLASS) return *(int32_t*)a->data; return *a->data; }
int mxGetString(const mxArray* a, char* buf, mwSize n) { if (a->cls != mxCHAR_CLASS || !n) return 1; size_t k = a->str.size() < n - 1 ? a->str.size() : n - 1; memcpy(buf, a->str.data(), k); buf[k] = 0; return k < a->str.size(); }
mxClassID mxGetClassID(const mxArray* a) { return a->cls; }
bool mxIsClass(const mxArray* a, const char* n) { std::string s = n; return (s == "double" && a->cls == mxDOUBLE_CLASS) || (s == "char" && a->cls == mxCHAR_CLASS) || (s == "struct" && a->cls == mxSTRUCT_CLASS) || (s == "int32" && a->cls == mxINT32_CLASS); }
bool mxIsChar(const mxArray* a) { return a->cls == mxCHAR_CLASS; }
bool mxIsDouble(const mxArray* a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsNumeric(const mxArray* a) { return a->cls == mxDOUBLE_CLASS || a->cls == mxINT32_CLASS || a->cls == mxSINGLE_CLASS; }
bool mxIsLogical(const mxArray* a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsComplex(const mxArray*) { return false; }
bool mxIsEmpty(const mxArray* a) { return a->M == 0 || a->N == 0; }
bool mxIsSparse(const mxArray* a) { return a->sparse; }
bool mxIsStruct(const mxArray* a) { return a->cls == mxSTRUCT_CLASS; }
bool mxIsInf(double v) { return std::isinf(v); }
bool mxIsNaN(double v) { return std::isnan(v); }
bool mxIsFinite(double v) { return std::isfinite(v); }
double mxGetInf(void) { return std::numeric_limits<double>::infinity(); }
double mxGetNaN(void) { return std::numeric_limits<double>::quiet_NaN(); }
double mxGetEps(void) { return std::numeric_limits<double>::epsilon(); }
void* mxCalloc(std::size_t n, std::size_t s) { return calloc(n, s); }
void* mxMalloc(std::size_t n) { return malloc(n); }
void mxFree(void* p) { free(p); }
void mexErrMsgTxt(const char* s) { throw mexmock::Error(s); }
void mexErrMsgIdAndTxt(const char*, const char* s, ...) { char b[1024]; va_list v; va_start(v, s); vsnprintf(b, sizeof b, s, v); va_end(v); throw mexmock::Error(b); }
void mexWarnMsgTxt(const char*) { mexmock::warnings++; }
void mexWarnMsgIdAndTxt(const char*, const char*, ...) { mexmock::warnings++; }
int mexPrintf(const char*, ...) { return 0; }
int mexAtExit(void (*)(void)) { return 0; }
void mexLock(void) {}
void mexUnlock(void) {}
