/* A program that knows only libm: reads records (function, two arguments), calls the function and writes the result.
   Compiled as C without builtins, so every call goes through the dynamic symbol. */
#define _GNU_SOURCE
#include <complex.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

struct rec { uint32_t id, pad; double a, b; };
#define F1(N) case __COUNTER__: r = N(q.a); break; case __COUNTER__: r = N##f((float)q.a); break;
#define F2(N) case __COUNTER__: r = N(q.a, q.b); break; case __COUNTER__: r = N##f((float)q.a, (float)q.b); break;
#define L1(N) case __COUNTER__: r = (double)N##l((long double)q.a); break;

/* functions with other kinds of arguments and results */
#define BOTH(N, E, EF) static double c_##N(double x) { return E; } static float c_##N##f(float x) { return EF; }
static double two(double s, double c) { return s + 3 * c; }
static double c_sincos(double x) { double s = 7, c = 8; sincos(x, &s, &c); return two(s, c); }
static float c_sincosf(float x) { float s = 7, c = 8; sincosf(x, &s, &c); return (float)two(s, c); }
static double c_modf(double x) { double s = 7, r = modf(x, &s); return two(s, r); }
static float c_modff(float x) { float s = 7, r = modff(x, &s); return (float)two(s, r); }
static double c_frexp(double x) { int e = 7; double r = frexp(x, &e); return isfinite(x) ? two(e, r) : r; }
static float c_frexpf(float x) { int e = 7; float r = frexpf(x, &e); return isfinite(x) ? (float)two(e, r) : r; }
static double c_lgamma_r(double x) { int s = 7; double r = lgamma_r(x, &s); return two(r, s > 0); }
static float c_lgamma_rf(float x) { int s = 7; float r = lgammaf_r(x, &s); return (float)two(r, s > 0); }
static double c_remquo(double x, double y) { int s = 7; return remquo(x, y, &s); }
static float c_remquof(float x, float y) { int s = 7; return remquof(x, y, &s); }
static double c_fma(double x, double y) { return fma(x, y, x); }
static float c_fmaf(float x, float y) { return fmaf(x, y, x); }
BOTH(ldexp, ldexp(x, -3), ldexpf(x, -3))
BOTH(scalbn, scalbn(x, 5), scalbnf(x, 5))
BOTH(ilogb, ilogb(x), ilogbf(x))
BOTH(lrint, fabs(x) < 1e9 ? lrint(x) : 0, fabsf(x) < 1e9f ? lrintf(x) : 0)
BOTH(llround, fabs(x) < 1e9 ? llround(x) : 0, fabsf(x) < 1e9f ? llroundf(x) : 0)
BOTH(jn, fabs(x) < 1e3 ? jn(3, x) : 0, fabsf(x) < 1e3f ? jnf(3, x) : 0)
BOTH(yn, x > 1e-3 && x < 1e3 ? yn(3, x) : 0, x > 1e-3f && x < 1e3f ? ynf(3, x) : 0)
BOTH(cexp, two(creal(cexp(x + 0.5 * I)), cimag(cexp(x + 0.5 * I))), (float)two(crealf(cexpf(x + 0.5f * I)), cimagf(cexpf(x + 0.5f * I))))
BOTH(csin, two(creal(csin(x + 0.5 * I)), cimag(csin(x + 0.5 * I))), (float)two(crealf(csinf(x + 0.5f * I)), cimagf(csinf(x + 0.5f * I))))
BOTH(clog, two(creal(clog(x + 0.5 * I)), cimag(clog(x + 0.5 * I))), (float)two(crealf(clogf(x + 0.5f * I)), cimagf(clogf(x + 0.5f * I))))
BOTH(carg, carg(x + 0.5 * I), cargf(x + 0.5f * I))
BOTH(cabs, cabs(x + 0.5 * I), cabsf(x + 0.5f * I))

int main(int argc, char** argv) {
  FILE *in = fopen(argv[1], "rb"), *out = fopen(argv[2], "wb");
  struct rec q;
  if (argc != 3 || !in || !out) return 3;
  while (fread(&q, sizeof q, 1, in) == 1) {
    double r;
    int sg;
    switch (q.id) {
      F1(asin) F1(acos) F1(atan) F1(cos) F1(exp) F1(log) F1(sin) F1(tan) F1(tanh) F2(atan2)
      F1(sqrt) F1(cbrt) F1(floor) F1(ceil) F1(fabs) F1(sinh) F1(cosh) F1(asinh) F1(acosh) F1(atanh) F1(log10) F1(log2) F1(log1p) F1(exp2) F1(expm1)
      F1(erf) F1(erfc) F1(tgamma) F1(rint) F1(trunc) F1(round) F1(logb)
      F2(pow) F2(hypot) F2(fmod) F2(remainder) F2(copysign) F2(fdim) F2(fmax) F2(fmin) F2(nextafter)
      F1(exp10) F1(nearbyint) F1(lgamma) F1(j0) F1(j1) F1(y0) F1(y1) F1(significand)
      F1(c_sincos) F1(c_modf) F1(c_frexp) F1(c_lgamma_r) F2(c_remquo) F2(c_fma) F1(c_ldexp) F1(c_scalbn) F1(c_ilogb) F1(c_lrint) F1(c_llround) F1(c_jn) F1(c_yn) F1(c_cexp) F1(c_csin) F1(c_clog) F1(c_carg) F1(c_cabs)
      L1(asin) L1(acos) L1(atan) L1(cos) L1(exp) L1(log) L1(sin) L1(tan) L1(tanh)
      default: return 4;
    }
    (void)sg;
    if (fwrite(&r, sizeof r, 1, out) != 1) return 5;
  }
  fclose(in);
  return fclose(out) ? 5 : 0;
}
