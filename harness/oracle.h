// The numerical oracle: for each fast function, what the result has to be.
// Reference values come from a wider precision of the system libm; a suspected violation
// is decided with libquadmath before it is reported.
#ifndef VMON_ORACLE_H
#define VMON_ORACLE_H
#include <cmath>
#include <cfloat>
#include <cstring>
#include <limits>
#include <stdint.h>
#include <quadmath.h>

enum Id { EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, TANH, ISQRT, AISQRT, INV, AINV, RISQRT, RINV, NIDS };
static const char* const id_name[NIDS] = {
  "fast_exp", "fast_log", "fast_sin", "fast_cos", "fast_tan", "fast_asin", "fast_acos",
  "fast_atan", "fast_tanh", "fast_isqrt", "fast_approx_isqrt", "fast_inv", "fast_approx_inv", "isqrt", "inv"};

// What is expected of a result.
enum Kind {
  SKIP,   // nothing is claimed
  NUM,    // |result - reference| <= tolerance
  PINF,   // +infinity
  NINF,   // -infinity
  ZERO,   // zero of either sign
  ISNAN,  // any NaN
};

template <class T> struct W;
template <> struct W<double> { typedef long double type; };
template <> struct W<float> { typedef double type; };

static inline uint64_t bits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
static inline uint32_t bits(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
static inline double frombits(uint64_t u, double) { double x; memcpy(&x, &u, 8); return x; }
static inline float frombits(uint64_t u, float) { uint32_t v = (uint32_t)u; float x; memcpy(&x, &v, 4); return x; }
static inline double dbl(uint64_t u) { return frombits(u, 0.); }
static inline float flt(uint32_t u) { return frombits(u, 0.f); }

// Unit in the last place of the format T at the magnitude of r.
static inline long double ulp_of(long double r, double) {
  double d = fabs((double)r);
  uint64_t e = bits(d) >> 52;
  if (e <= 53) return e <= 1 ? 0x1p-1074L : ldexpl(1.0L, (int)e - 1075);
  if (e >= 2047) return 0x1p971L;
  return dbl((e - 52) << 52);
}
static inline double ulp_of(double r, float) {
  float f = fabsf((float)r);
  uint32_t e = bits(f) >> 23;
  if (e == 0) e = 1;
  if (e >= 255) e = 254;
  return dbl((uint64_t)(e + 1023 - 127 - 23) << 52);
}
static inline long double fmax_(long double a, long double b) { return a > b ? a : b; }
static inline double fmax_(double a, double b) { return a > b ? a : b; }
static inline long double fmin_(long double a, long double b) { return a < b ? a : b; }
static inline double fmin_(double a, double b) { return a < b ? a : b; }

static inline long double wabs(long double x) { return fabsl(x); }
static inline double wabs(double x) { return fabs(x); }

#define RF(N, L, D) \
  static inline long double N(long double x) { return L; } \
  static inline double N(double x) { return D; }
namespace rf {
RF(exp_, expl(x), exp(x)) RF(log_, logl(x), log(x)) RF(sin_, sinl(x), sin(x)) RF(cos_, cosl(x), cos(x))
RF(tan_, tanl(x), tan(x)) RF(asin_, asinl(x), asin(x)) RF(acos_, acosl(x), acos(x))
RF(atan_, atanl(x), atan(x)) RF(tanh_, tanhl(x), tanh(x))
RF(isqrt_, 1.0L / sqrtl(x), 1.0 / sqrt(x)) RF(inv_, 1.0L / x, 1.0 / x)
}

template <int ID> struct Ref;
#define REFQ(ID, N, Q) \
  template <> struct Ref<ID> { \
    template <class V> static V f(V x) { return rf::N(x); } \
    static __float128 q(__float128 x) { return Q; } \
  };
REFQ(EXP, exp_, expq(x)) REFQ(LOG, log_, logq(x)) REFQ(SIN, sin_, sinq(x)) REFQ(COS, cos_, cosq(x))
REFQ(TAN, tan_, tanq(x)) REFQ(ASIN, asin_, asinq(x)) REFQ(ACOS, acos_, acosq(x)) REFQ(ATAN, atan_, atanq(x))
REFQ(TANH, tanh_, tanhq(x)) REFQ(ISQRT, isqrt_, 1 / sqrtq(x)) REFQ(AISQRT, isqrt_, 1 / sqrtq(x))
REFQ(INV, inv_, 1 / x) REFQ(AINV, inv_, 1 / x) REFQ(RISQRT, isqrt_, 1 / sqrtq(x)) REFQ(RINV, inv_, 1 / x)

// Largest argument for which the trigonometric functions are specified.
static inline bool trig_dom(double x) { return fabs(x) <= 1e8; }
static inline bool trig_dom(float x) { return fabsf(x) <= 8192.f; }

// Class of the argument. NaN arguments are handled by the property about invalid
// arguments, not here.
template <int ID> struct Cls;
template <> struct Cls<EXP> {
  static Kind k(double x) { return x > 708. ? PINF : x < -708. ? ZERO : x == x ? NUM : ISNAN; }
  static Kind k(float x) { return (double)x >= 88.7229 ? PINF : x < -88.f ? ZERO : x != x ? ISNAN : (double)x <= 88.7228 ? NUM : SKIP; }
};
template <> struct Cls<LOG> {
  static Kind k(double x) { return x > 1e307 ? PINF : x >= DBL_MIN ? NUM : x < 0 || x != x ? ISNAN : SKIP; }
  static Kind k(float x) { return x > FLT_MAX ? PINF : x >= FLT_MIN ? NUM : x < 0 || x != x ? ISNAN : SKIP; }
};
struct ClsTrig {
  template <class T> static Kind k(T x) { return trig_dom(x) ? NUM : x != x ? ISNAN : SKIP; }
};
template <> struct Cls<SIN> : ClsTrig {};
template <> struct Cls<COS> : ClsTrig {};
template <> struct Cls<TAN> : ClsTrig {};
struct ClsArc {
  template <class T> static Kind k(T x) { return x >= -1 && x <= 1 ? NUM : ISNAN; }
};
template <> struct Cls<ASIN> : ClsArc {};
template <> struct Cls<ACOS> : ClsArc {};
struct ClsAll {
  template <class T> static Kind k(T x) { return x == x ? NUM : ISNAN; }
};
template <> struct Cls<ATAN> : ClsAll {};
template <> struct Cls<TANH> : ClsAll {};
struct ClsPos {
  template <class T> static Kind k(T x) {
    return x != x ? ISNAN : x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max() ? NUM : SKIP;
  }
};
template <> struct Cls<ISQRT> : ClsPos {};
template <> struct Cls<AISQRT> : ClsPos {};
template <> struct Cls<RISQRT> : ClsPos {};
struct ClsNorm {
  template <class T> static Kind k(T x) {
    T a = x < 0 ? -x : x;
    return x != x ? ISNAN : a >= std::numeric_limits<T>::min() && a <= std::numeric_limits<T>::max() ? NUM : SKIP;
  }
};
template <> struct Cls<INV> : ClsNorm {};
template <> struct Cls<AINV> : ClsNorm {};
template <> struct Cls<RINV> : ClsNorm {};

// Tolerances. Kept in one place: the statements of the properties quote these numbers.
template <int ID> struct Tol;
#define ULPTOL(ID, D, F) \
  template <> struct Tol<ID> { \
    static long double t(double, long double r) { return (D) * ulp_of(r, 0.); } \
    static double t(float, double r) { return (F) * ulp_of(r, 0.f); } \
  };
ULPTOL(EXP, 2.0L, 2.0)
ULPTOL(LOG, 1.5L, 1.5)
ULPTOL(ASIN, 1.5L, 3.0)
ULPTOL(ATAN, 1.5L, 3.0)
ULPTOL(TANH, 8.0L, 8.0)
ULPTOL(RISQRT, 1.5L, 1.5)
ULPTOL(RINV, 0.5L, 0.5)
#define RELTOL(ID, D, F) \
  template <> struct Tol<ID> { \
    static long double t(double, long double r) { return (D) * wabs(r) + ulp_of(0.L, 0.); } \
    static double t(float, double r) { return (F) * wabs(r) + ulp_of(0., 0.f); } \
  };
RELTOL(ISQRT, 4e-16L, 5e-6)
RELTOL(AISQRT, 3.5e-11L, 1.8e-3)
RELTOL(INV, 8e-16L, 1e-5)
RELTOL(AINV, 7e-11L, 3.6e-3)
template <> struct Tol<SIN> {
  static long double t(double x, long double) { return 2.5e-16L * fmin_(1.L, wabs((long double)x)) + 0x1p-1074L; }
  static double t(float x, double) { return 1e-7 * fmin_(1., wabs((double)x)) + 0x1p-149; }
};
template <> struct Tol<COS> {
  static long double t(double, long double) { return 2.5e-16L; }
  static double t(float, double) { return 1e-7; }
};
template <> struct Tol<TAN> {
  static long double t(double x, long double r) {
    long double a = fmin_(1.L, wabs((long double)x));
    return 4e-16L * a * (1 + r * r) + (wabs(r) < 1.01e-7L ? 3.5e-15L * wabs(r) : 0) + 0x1p-1074L;
  }
  static double t(float x, double r) {
    double a = fmin_(1., wabs((double)x));
    return 1.5e-7 * a * (1 + r * r) + 0x1p-149;
  }
};
template <> struct Tol<ACOS> {
  static long double t(double, long double) { return 5e-16L; }
  static double t(float, double) { return 4e-7; }
};

// Result of judging one evaluation.
struct Judged { bool bad; double norm; };  // norm: error divided by tolerance

template <int ID, class T>
static inline bool judge_quad(T x, T v) {
  typename W<T>::type r = Ref<ID>::template f<typename W<T>::type>(x);
  if (v != v) return true;
  if (v - v != 0) return (T)r != v;  // infinite: only where the rounded reference is
  __float128 q = Ref<ID>::q((__float128)x);
  __float128 e = fabsq((__float128)v - q);
  return e > (__float128)Tol<ID>::t(x, r) * (1 + 1e-12Q);
}

template <int ID, class T>
static inline Judged judge(T x, T v, Kind k) {
  typedef typename W<T>::type V;
  Judged j = {false, 0};
  switch (k) {
    case NUM: {
      V r = Ref<ID>::template f<V>((V)x);
      V e = wabs((V)v - r), t = Tol<ID>::t(x, r);
      if (!(e <= t)) j.bad = judge_quad<ID>(x, v);
      j.norm = e <= t ? (double)(e / t) : 2;
      return j;
    }
    case PINF: j.bad = !(v == std::numeric_limits<T>::infinity()); return j;
    case NINF: j.bad = !(v == -std::numeric_limits<T>::infinity()); return j;
    case ZERO: j.bad = !(v == 0); return j;
    case ISNAN: j.bad = (v == v); return j;
    default: return j;
  }
}

// Two arguments: the angle of (x,y). Signs of zeros are not distinguished, and the
// angle of the origin is zero.
template <class T> static inline Kind cls_atan2(T y, T x) {
  if (y != y || x != x) return ISNAN;
  if (y - y != 0 || x - x != 0) return SKIP;
  return NUM;
}
static inline long double ref_atan2w(double y, double x) {
  if (y == 0) return x < 0 ? atan2l(0.L, -1.L) : 0.L;
  return atan2l(y, x);
}
static inline double ref_atan2w(float y, float x) {
  if (y == 0) return x < 0 ? atan2(0., -1.) : 0.;
  return atan2((double)y, (double)x);
}
static inline long double tol_atan2(double, double, long double r) { return 2.0L * ulp_of(r, 0.); }
static inline long double tol_atan2(float, float, long double r) { return 4.0 * ulp_of((double)r, 0.f); }
static inline double tol_atan2(float, float, double r) { return 4.0 * ulp_of(r, 0.f); }
template <class T> static inline Judged judge_atan2(T y, T x, T v, Kind k) {
  typedef typename W<T>::type V;
  Judged j = {false, 0};
  if (k == NUM) {
    V r = ref_atan2w(y, x), e = wabs((V)v - r), t = tol_atan2(y, x, r);
    if (!(e <= t)) {
      if (v != v || v - v != 0) j.bad = true;
      else {
        __float128 q = y == 0 ? (x < 0 ? M_PIq : 0.Q) : atan2q(y, x);
        j.bad = fabsq((__float128)v - q) > (__float128)t * (1 + 1e-12Q);
      }
    }
    j.norm = e <= t ? (double)(e / t) : 2;
  } else if (k == ISNAN) {
    j.bad = v == v;
  }
  return j;
}
#endif
