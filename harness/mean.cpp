// Mean number of differing bits against libm over the benchmark intervals.
#include "opts.h"

template <class T> static int diff(T a, T b) {
  uint64_t x = bits(a), y = bits(b), d = x > y ? x - y : y - x;
  return d ? 64 - __builtin_clzll(d) : 0;
}
template <class T> static T libm(int id, T x);
template <> double libm<double>(int id, double x) {
  switch (id) { case ACOS: return acos(x); case ASIN: return asin(x); case ATAN: return atan(x); case COS: return cos(x); case EXP: return exp(x); case ISQRT: return 1. / sqrt(x); case LOG: return log(x); case SIN: return sin(x); default: return tan(x); }
}
template <> float libm<float>(int id, float x) {
  switch (id) { case ACOS: return acosf(x); case ASIN: return asinf(x); case ATAN: return atanf(x); case COS: return cosf(x); case EXP: return expf(x); case ISQRT: return 1.f / sqrtf(x); case LOG: return logf(x); case SIN: return sinf(x); default: return tanf(x); }
}
struct Lim { int id; double d, f; };
static const Lim lim[] = {{ACOS, .40, .42}, {ASIN, .12, .33}, {ATAN, .30, .39}, {COS, .27, .19}, {EXP, .16, .29}, {ISQRT, .48, 3.8}, {LOG, .03, .03}, {SIN, .27, .19}, {TAN, .37, .38}};
template <class T> static void one(const Lim& L) {
  const Unary* u = 0;
  for (int i = 0; i < vdt_n_unary; ++i) if (id_of(vdt_unary[i].name) == L.id && is_fast(vdt_unary[i].name)) u = &vdt_unary[i];
  double lo = -5000, hi = 5000;
  if (L.id == LOG || L.id == ISQRT) lo = 1e-4;
  if (L.id == ASIN || L.id == ACOS) { lo = -1; hi = 1; }
  if (L.id == EXP) { hi = sizeof(T) == 8 ? 705 : 85; lo = -hi; }
  std::atomic<uint64_t> sum(0), n(0);
  std::vector<Cells> c(o_threads);
  std::atomic<int> mx(0);
  par(o_chunks, [&](uint64_t ch, unsigned t) {
    Rng g(o_seed, 2100 + L.id * 2 + (sizeof(T) == 8), ch);
    uint64_t s = 0; int m = 0;
    for (int i = 0; i < 10000; ++i) {
      T x = (T)g.uni(lo, hi);
      int d = diff<T>(Sel<T>::s(*u)(x), libm<T>(L.id, x));
      s += d; m = std::max(m, d);
      c[t].hit(cell(x));
    }
    sum += s; n += 10000;
    int o = mx; while (m > o && !mx.compare_exchange_weak(o, m)) {}
  });
  for (unsigned i = 1; i < o_threads; ++i) c[0].merge(c[i]);
  double mean = (double)sum / n, limit = sizeof(T) == 8 ? L.d : L.f;
  std::string nm = std::string(u->name) + Sel<T>::suf();
  rep_sample(FMT("%s: mean %.5f, limit %g, largest %d", nm.c_str(), mean, limit, (int)mx));
  rep_count("arguments " + nm, n);
  rep_cell("cells " + nm, c[0].count());
  rep_max("mean bits " + nm, mean, FMT("limit %g, largest %d", limit, (int)mx));
  if (!(mean <= limit)) viol("mean bits " + nm, FMT("%s differs from libm by %.4f bits on average over [%g, %g], limit %g", nm.c_str(), mean, lo, hi, limit), "seed");
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  for (size_t i = 0; i < sizeof(lim) / sizeof(lim[0]); ++i) { one<double>(lim[i]); one<float>(lim[i]); }
  rep_done();
  return 0;
}
