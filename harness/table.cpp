// Makes a table of the public functions of the library. Compiled together with
// the generated array signatures, with the flags of the configuration under test.
#include "table.h"
#include "vdtMath.h"
#include <cmath>

// The reference entry points of the library call the libm functions of the same name.
// They are wrapped so that the table can hold them in both precisions.
#define REF1(N) \
  static double ref_##N(double x) { return ::N(x); } \
  static float ref_##N##f(float x) { return ::N##f(x); }
REF1(asin) REF1(acos) REF1(atan) REF1(cos) REF1(exp) REF1(log) REF1(sin) REF1(tan) REF1(tanh)
static double ref_atan2(double y, double x) { return ::atan2(y, x); }
static float ref_atan2f(float y, float x) { return ::atan2f(y, x); }

// Functions of the library, called by value whatever the form of their parameters.
#define OWN1(N) \
  static double own_##N(double x) { return vdt::N(x); } \
  static float own_##N##f(float x) { return vdt::N##f(x); }
#define OWN2(N) \
  static double own_##N(double x, double y) { return vdt::N(x, y); } \
  static float own_##N##f(float x, float y) { return vdt::N##f(x, y); }
OWN1(fast_exp) OWN1(fast_log) OWN1(fast_sin) OWN1(fast_cos) OWN1(fast_tan) OWN1(fast_asin) OWN1(fast_acos) OWN1(fast_atan) OWN1(fast_tanh)
OWN1(fast_isqrt) OWN1(fast_approx_isqrt) OWN1(fast_inv) OWN1(fast_approx_inv) OWN1(isqrt) OWN1(inv) OWN1(identity) OWN2(fast_atan2) OWN2(identity2D)
static void own_sincos(double x, double& s, double& c) { vdt::fast_sincos(x, s, c); }
static void own_sincosf(float x, float& s, float& c) { vdt::fast_sincosf(x, s, c); }

#define LIBM(N) {#N, ref_##N, ref_##N##f, vdt::N##v, vdt::N##fv}
#define VDT(N) {#N, own_##N, own_##N##f, vdt::N##v, vdt::N##fv}

const Unary vdt_unary[] = {
  VDT(fast_exp), VDT(fast_log), VDT(fast_sin), VDT(fast_cos), VDT(fast_tan),
  VDT(fast_asin), VDT(fast_acos), VDT(fast_atan), VDT(fast_tanh),
  VDT(fast_isqrt), VDT(fast_approx_isqrt), VDT(fast_inv), VDT(fast_approx_inv),
  VDT(isqrt), VDT(inv), VDT(identity),
  LIBM(asin), LIBM(acos), LIBM(atan), LIBM(cos), LIBM(exp), LIBM(log), LIBM(sin), LIBM(tan),
  LIBM(tanh),
};
const int vdt_n_unary = sizeof(vdt_unary) / sizeof(vdt_unary[0]);

const Binary vdt_binary[] = {
  VDT(fast_atan2), VDT(identity2D), {"atan2", ref_atan2, ref_atan2f, vdt::atan2v, vdt::atan2fv},
};
const int vdt_n_binary = sizeof(vdt_binary) / sizeof(vdt_binary[0]);

void (*const vdt_sincos_d)(double, double&, double&) = own_sincos;
void (*const vdt_sincos_f)(float, float&, float&) = own_sincosf;
