/* declarations only: lets the headers be parsed for targets without an installed C library */
#ifndef SHIM_MATH_H
#define SHIM_MATH_H
#ifdef __cplusplus
extern "C" {
#endif
#define F1(n) double n(double); float n##f(float);
#define F2(n) double n(double,double); float n##f(float,float);
F1(sin) F1(cos) F1(tan) F1(asin) F1(acos) F1(atan) F1(sinh) F1(cosh) F1(tanh) F1(exp) F1(log) F1(log2) F1(log10) F1(exp2) F1(sqrt) F1(cbrt)
F1(fabs) F1(floor) F1(ceil) F1(trunc) F1(round) F1(rint) F1(nearbyint)
F2(atan2) F2(pow) F2(fmod) F2(fmin) F2(fmax) F2(copysign) F2(hypot) F2(fdim) F2(remainder)
double fma(double,double,double); float fmaf(float,float,float);
float modff(float, float *); double modf(double, double *); float frexpf(float, int *); float ldexpf(float, int);
#undef F1
#undef F2
#define isnan(x) __builtin_isnan(x)
#define isinf(x) __builtin_isinf(x)
#define isfinite(x) __builtin_isfinite(x)
#define signbit(x) __builtin_signbit(x)
#define INFINITY __builtin_inff()
#define NAN __builtin_nanf("")
#define HUGE_VALF __builtin_huge_valf()
#ifdef __cplusplus
}
#endif
#endif
