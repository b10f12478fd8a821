/* Declarations of the part of MATLAB's C interface that the MEX files use (analysis only, there is no implementation). */
#ifndef MEX_H
#define MEX_H
#include <stdbool.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
typedef struct mxArray_tag mxArray;
typedef size_t mwSize;
typedef size_t mwIndex;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[]);
void mexErrMsgTxt(const char *msg) __attribute__((noreturn));
void mexErrMsgIdAndTxt(const char *id, const char *msg, ...) __attribute__((noreturn));
void mexWarnMsgTxt(const char *msg);
int mexPrintf(const char *fmt, ...);
bool mxIsComplex(const mxArray *a);
bool mxIsDouble(const mxArray *a);
bool mxIsChar(const mxArray *a);
bool mxIsEmpty(const mxArray *a);
bool mxIsNumeric(const mxArray *a);
bool mxIsScalar(const mxArray *a);
size_t mxGetM(const mxArray *a);
size_t mxGetN(const mxArray *a);
size_t mxGetNumberOfElements(const mxArray *a);
double mxGetScalar(const mxArray *a);
double *mxGetPr(const mxArray *a);
double *mxGetPi(const mxArray *a);
char *mxArrayToString(const mxArray *a);
void *mxMalloc(size_t n);
void *mxCalloc(size_t n, size_t s);
void *mxRealloc(void *p, size_t n);
void mxFree(void *p);
mxArray *mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity c);
mxArray *mxCreateDoubleScalar(double v);
mxArray *mxCreateString(const char *s);
void mxDestroyArray(mxArray *a);
#endif
