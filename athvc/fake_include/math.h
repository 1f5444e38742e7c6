#ifndef FAKE_MATH
#define FAKE_MATH
#define HUGE_VAL 1e300
#define M_PI 3.14159265358979323846
double sqrt(double x); double fabs(double x); double pow(double x, double y); double exp(double x); double log(double x); double log10(double x);
double sin(double x); double cos(double x); double tan(double x); double atan(double x); double atan2(double y, double x); double acos(double x); double asin(double x);
double sinh(double x); double cosh(double x); double tanh(double x); double floor(double x); double ceil(double x); double fmod(double x, double y);
double modf(double x, double *y); double fmax(double a, double b); double fmin(double a, double b); double cbrt(double x); double ldexp(double x, int n); double frexp(double x, int *n);
double round(double x); double trunc(double x); double copysign(double a, double b); double erf(double x); double hypot(double a, double b);
double asinh(double x); double acosh(double x); double atanh(double x); int isnan(double x); int isinf(double x); int isfinite(double x); double rint(double x);
#define NAN (0.0/0.0)
#endif
