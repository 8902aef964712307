/* what the sources use of <math.h>, with names that can be replaced */
#ifndef VH_SHIM_MATH_H
#define VH_SHIM_MATH_H
double log(double), exp(double), sqrt(double), fabs(double), pow(double, double), floor(double), ceil(double), round(double), trunc(double), fmod(double, double), fmin(double, double), fmax(double, double);
long lrint(double), lround(double);
#define NAN (__builtin_nanf(""))
#define INFINITY (__builtin_inff())
#define HUGE_VAL (__builtin_huge_val())
#ifdef REPLAY
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#else
#define isnan(x) ((x) != (x))
#define isinf(x) ((x) == INFINITY || (x) == -INFINITY)
#define isfinite(x) (!isnan(x) && !isinf(x))
#endif
#define M_PI 3.14159265358979323846
#define M_E 2.7182818284590452354
#endif
