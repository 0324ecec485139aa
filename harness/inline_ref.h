// The functions of the library called through the table, never inline.
#include "table.h"
#include <cstring>
#include <cstdlib>
namespace refv {
inline const Unary& unary(const char* n) { for (int i = 0; i < vdt_n_unary; ++i) if (!strcmp(vdt_unary[i].name, n)) return vdt_unary[i]; abort(); }
#define U(N) inline double N(double x) { static const fn1d f = unary(#N).sd; return f(x); } inline float N##f(float x) { static const fn1f f = unary(#N).sf; return f(x); }
U(fast_exp) U(fast_log) U(fast_sin) U(fast_cos) U(fast_tan) U(fast_asin) U(fast_acos) U(fast_atan) U(fast_tanh) U(fast_isqrt) U(fast_approx_isqrt) U(fast_inv) U(fast_approx_inv)
U(inv) U(isqrt) U(identity)
#undef U
inline double fast_atan2(double y, double x) { return vdt_binary[0].sd(y, x); }
inline float fast_atan2f(float y, float x) { return vdt_binary[0].sf(y, x); }
// sine and cosine by their own functions, so that nothing of the outputs can be read back
inline void fast_sincos(double x, double& s, double& c) { double a, b; vdt_sincos_d(x, a, b); s = a; c = b; }
inline void fast_sincosf(float x, float& s, float& c) { float a, b; vdt_sincos_f(x, a, b); s = a; c = b; }
}
