/* Stand-in for the MEX API of Octave and MATLAB: arrays of exactly the size that was asked for, errors thrown as exceptions. */
#pragma once
#include <cstddef>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <utility>
#include <cstdint>
#include <stdexcept>
typedef std::size_t mwSize; typedef std::size_t mwIndex; typedef std::ptrdiff_t mwSignedIndex;
typedef enum { mxREAL = 0, mxCOMPLEX = 1 } mxComplexity;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS } mxClassID;
struct mxArray {
    mxClassID cls = mxDOUBLE_CLASS; mwSize M = 0, N = 0, nzmax = 0; bool sparse = false; char* data = nullptr; mwIndex *ir = nullptr, *jc = nullptr; std::string str;
    std::vector<std::pair<std::string, mxArray*>> fields;
    mxArray() {} mxArray(const mxArray&) = delete; mxArray& operator=(const mxArray&) = delete;
    ~mxArray() { delete[] data; delete[] ir; delete[] jc; }
    std::size_t elem() const { return cls == mxDOUBLE_CLASS ? 8 : cls == mxINT32_CLASS || cls == mxSINGLE_CLASS ? 4 : 1; }
    std::size_t count() const { return sparse ? nzmax : M * N; }
};
namespace mexmock {
struct Error : std::runtime_error { using std::runtime_error::runtime_error; };
mxArray* make(mwSize M, mwSize N, mxClassID cls = mxDOUBLE_CLASS);          // filled with zeros
mxArray* makeSparse(mwSize M, mwSize N, mwSize nzmax);
std::size_t mark(); void clear(std::size_t from);                            // frees every array made since
extern int warnings;
}
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
mxArray* mxCreateDoubleScalar(double v);
mxArray* mxCreateStructMatrix(mwSize m, mwSize n, int nf, const char** keys);
mxArray* mxCreateString(const char* s);
mxArray* mxCreateSparse(mwSize m, mwSize n, mwSize nzmax, mxComplexity c);
mxArray* mxDuplicateArray(const mxArray* a);
void mxDestroyArray(mxArray* a);
int mxAddField(mxArray* a, const char* name);
mxArray* mxGetField(const mxArray* a, mwIndex i, const char* name);
mxArray* mxGetFieldByNumber(const mxArray* a, mwIndex i, int k);
int mxGetFieldNumber(const mxArray* a, const char* name);
const char* mxGetFieldNameByNumber(const mxArray* a, int k);
void mxSetFieldByNumber(mxArray* a, mwIndex i, int k, mxArray* v);
void mxSetField(mxArray* a, mwIndex i, const char* name, mxArray* v);
int mxGetNumberOfFields(const mxArray* a);
mwSize mxGetM(const mxArray* a);
mwSize mxGetN(const mxArray* a);
mwSize mxGetNumberOfElements(const mxArray* a);
mwSize mxGetNumberOfDimensions(const mxArray* a);
mwSize mxGetNzmax(const mxArray* a);
double* mxGetPr(const mxArray* a);
void* mxGetData(const mxArray* a);
mwIndex* mxGetIr(const mxArray* a);
mwIndex* mxGetJc(const mxArray* a);
double mxGetScalar(const mxArray* a);
int mxGetString(const mxArray* a, char* buf, mwSize n);
mxClassID mxGetClassID(const mxArray* a);
bool mxIsClass(const mxArray* a, const char* name);
bool mxIsChar(const mxArray* a);
bool mxIsDouble(const mxArray* a);
bool mxIsNumeric(const mxArray* a);
bool mxIsLogical(const mxArray* a);
bool mxIsComplex(const mxArray* a);
bool mxIsEmpty(const mxArray* a);
bool mxIsSparse(const mxArray* a);
bool mxIsStruct(const mxArray* a);
bool mxIsInf(double v);
bool mxIsNaN(double v);
bool mxIsFinite(double v);
double mxGetInf(void);
double mxGetNaN(void);
double mxGetEps(void);
void* mxCalloc(std::size_t n, std::size_t s);
void* mxMalloc(std::size_t n);
void mxFree(void* p);
[[noreturn]] void mexErrMsgTxt(const char* s);
[[noreturn]] void mexErrMsgIdAndTxt(const char* id, const char* s, ...);
void mexWarnMsgTxt(const char* s);
void mexWarnMsgIdAndTxt(const char* id, const char* s, ...);
int mexPrintf(const char* s, ...);
int mexAtExit(void (*f)(void));
void mexLock(void);
void mexUnlock(void);
typedef void (*MexFn)(int, mxArray**, int, const mxArray**);
void mexOctOne(int, mxArray**, int, const mxArray**); void mexOctSeq(int, mxArray**, int, const mxArray**);
void mexMatOne(int, mxArray**, int, const mxArray**); void mexMatSeq(int, mxArray**, int, const mxArray**);
