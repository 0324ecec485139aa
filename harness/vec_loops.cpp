#include "vdtMath.h"
#include "vec_loops.h"

#define ONE(F, T, S)                                                                                                             \
  static void plain_##F##S(size_t n, const T* __restrict__ x, const T* __restrict__, T* __restrict__ o, T* __restrict__) {      \
    for (size_t i = 0; i < n; ++i) o[i] = vdt::F##S(x[i]);                                                                       \
  }                                                                                                                              \
  static void line_##F##S(size_t n, const T* __restrict__ x, const T* __restrict__ y, T* __restrict__ o, T* __restrict__) {     \
    for (size_t i = 0; i < n; ++i) o[i] = y[i] * vdt::F##S(x[i]) + x[i];                                                         \
  }
#define BOTH(F) ONE(F, double, ) ONE(F, float, f)
BOTH(fast_exp) BOTH(fast_log) BOTH(fast_sin) BOTH(fast_cos) BOTH(fast_tan) BOTH(fast_asin) BOTH(fast_acos) BOTH(fast_atan) BOTH(fast_tanh)
BOTH(fast_isqrt) BOTH(fast_approx_isqrt) BOTH(fast_inv) BOTH(fast_approx_inv)

#define TWO(T, S)                                                                                                                \
  static void pairs##S(size_t n, const T* __restrict__ x, const T* __restrict__ y, T* __restrict__ o, T* __restrict__) {        \
    for (size_t i = 0; i < n; ++i) o[i] = vdt::fast_atan2##S(y[i], x[i]);                                                        \
  }                                                                                                                              \
  static void sincos##S##_(size_t n, const T* __restrict__ x, const T* __restrict__, T* __restrict__ o, T* __restrict__ p) {    \
    for (size_t i = 0; i < n; ++i) { T s, c; vdt::fast_sincos##S(x[i], s, c); o[i] = s; p[i] = c; }                              \
  }
TWO(double, ) TWO(float, f)

#define ROW(F) {#F, "plain", plain_##F, plain_##F##f}, {#F, "in an expression", line_##F, line_##F##f}
const Loop loops[] = {
  ROW(fast_exp), ROW(fast_log), ROW(fast_sin), ROW(fast_cos), ROW(fast_tan),
  ROW(fast_asin), ROW(fast_acos), ROW(fast_atan), ROW(fast_tanh),
  ROW(fast_isqrt), ROW(fast_approx_isqrt), ROW(fast_inv), ROW(fast_approx_inv),
  {"fast_atan2", "plain", pairs, pairsf}, {"fast_sincos", "plain", sincos_, sincosf_},
};
const int n_loops = sizeof(loops) / sizeof(loops[0]);
