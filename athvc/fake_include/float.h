#ifndef FAKE_FLOAT
#define FAKE_FLOAT
#define DBL_EPSILON 2.2204460492503131e-16
#define FLT_EPSILON 1.19209290e-7
#define DBL_MAX 1.7976931348623157e308
#define DBL_MIN 2.2250738585072014e-308
#define FLT_MAX 3.402823466e+38
#endif
