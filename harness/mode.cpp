// Monitor of the results in other modes of the floating point unit: flush to zero together
// with denormals are zero, and the directed rounding modes.
#include "opts.h"
#include <fenv.h>
#include <xmmintrin.h>

struct Mode { const char* name; unsigned csr; bool ftz, directed; };
static const Mode modes[] = {
  {"flush to zero", 0x8040, true, false}, {"upward", 0x4000, false, true}, {"downward", 0x2000, false, true},
  {"toward zero", 0x6000, false, true}, {"upward, flush to zero", 0xc040, true, true}, {"toward zero, flush to zero", 0xe040, true, true},
};
static const int NM = sizeof(modes) / sizeof(modes[0]);
static std::atomic<uint64_t> n_same[2], n_dir[2];
static std::mutex mx_mutex;

template <class T> static T tiny() { return sizeof(T) == 8 ? (T)1e-300 : (T)1e-35; }
template <class T> static bool sized(T v) { return v != v || v == 0 || v >= tiny<T>() || v <= -tiny<T>(); }
template <class T> static bool same(T a, T b) { return bits(a) == bits(b) || (a != a && b != b); }

// Calls made in a mode; everything else runs in the default mode.
template <class F> static void in_mode(unsigned csr, F f) {
  unsigned old = _mm_getcsr();
  _mm_setcsr((old & ~0xe07fu) | csr);
  f();
  _mm_setcsr(old);
}
template <int ID, class T> static bool judge2(T x, T v, Kind k, double& norm) {
  if (k != NUM) return !judge<ID, T>(x, v, k).bad;
  typedef typename W<T>::type V;
  V r = Ref<ID>::template f<V>((V)x), t = Tol<ID>::t(x, r) * 2, e = wabs((V)v - r);
  norm = std::max(norm, (double)(e / t));
  if (e <= t) return true;
  if (v != v || v - v != 0) return false;
  return fabsq((__float128)v - Ref<ID>::q((__float128)x)) <= (__float128)t * (1 + 1e-12Q);
}
template <int ID, class T> static void unary(const Unary& u) {
  Source<T> src; src.init(ID, o_lits);
  const uint64_t B = 512, E = (src.n_enum() / 2 + B - 1) / B, P = sizeof(T) == 4 ? (1ull << 32) / (B * o_stride) : 0;
  std::vector<Cells> cells(o_threads);
  std::vector<double> worst(o_threads, 0);
  const std::string nm = std::string(u.name) + Sel<T>::suf();
  par(o_chunks + E + P, [&](uint64_t c, unsigned th) {
    Rng g(o_seed, 3500 + ID * 2 + sizeof(T) / 8, c);
    std::vector<T> x(B), rs(B), ra(B), s(B), a(B);
    for (uint64_t i = 0; i < B; ++i)
      x[i] = c < E ? src.enumerated(std::min<uint64_t>(2 * (c * B + i) + (o_seed & 1), src.n_enum() - 1))
           : c < E + P ? frombits((((c - E) * B + i) * o_stride + o_seed % o_stride) & 0xffffffffu, T()) : g.below(50) ? src.one(g) : special_value<T>(g);
    for (uint64_t i = 0; i < B; ++i) rs[i] = Sel<T>::s(u)(x[i]);
    Sel<T>::v(u)((uint32_t)B, x.data(), ra.data());
    for (int m = 0; m < NM; ++m) {
      in_mode(modes[m].csr, [&] {
        for (uint64_t i = 0; i < B; ++i) s[i] = Sel<T>::s(u)(x[i]);
        Sel<T>::v(u)((uint32_t)B, x.data(), a.data());
      });
      uint64_t ns = 0, nd = 0;
      for (uint64_t i = 0; i < B; ++i) {
        Kind k = Cls<ID>::k(x[i]);
        if (k == SKIP || !sized(x[i]) || !sized(rs[i])) continue;
        if (m == 0) cells[th].hit(cell(x[i]));
        for (int f = 0; f < 2; ++f) {
          T v = f ? a[i] : s[i], r = f ? ra[i] : rs[i];
          if (!modes[m].directed) {
            ++ns;
            if (!same(v, r)) viol(nm + (f ? "v " : " ") + modes[m].name, FMT("%s%s(%.17g) is %.17g in mode %s, %.17g in the default mode", nm.c_str(), f ? "v" : "", (double)x[i], (double)v, modes[m].name, (double)r), hexb(x[i]));
          } else {
            ++nd;
            if (!judge2<ID, T>(x[i], v, k, worst[th])) viol(nm + (f ? "v " : " ") + modes[m].name, FMT("%s%s(%.17g) is %.17g in mode %s, more than twice the bound away from the value", nm.c_str(), f ? "v" : "", (double)x[i], (double)v, modes[m].name), hexb(x[i]));
          }
        }
      }
      n_same[sizeof(T) / 8] += ns; n_dir[sizeof(T) / 8] += nd;
    }
  });
  double w = 0;
  for (unsigned i = 0; i < o_threads; ++i) { cells[0].merge(cells[i]); w = std::max(w, worst[i]); }
  rep_cell("arguments of " + nm, cells[0].count());
  rep_max(nm + " error/bound in directed modes", w, "");
}
template <class T> static void binary(const Binary& b) {
  Source<T> src; src.init(NIDS, o_lits);
  const uint64_t B = 512;
  std::vector<Cells> cells(o_threads);
  std::vector<double> worst(o_threads, 0);
  const std::string nm = std::string(b.name) + Sel<T>::suf();
  par(o_chunks * 3, [&](uint64_t c, unsigned th) {
    Rng g(o_seed, 3590 + sizeof(T) / 8, c);
    std::vector<T> y(B), x(B), rs(B), ra(B), s(B), a(B);
    for (uint64_t i = 0; i < B; ++i) {
      y[i] = g.below(20) ? src.one(g) : special_value<T>(g);
      x[i] = g.below(20) ? src.one(g) : special_value<T>(g);
      if (g.below(2)) x[i] = (T)(y[i] * g.uni(-8, 8));
      if (g.below(4) == 0) { x[i] = (T)g.uni(-10, 10); y[i] = (T)g.uni(-10, 10); }
    }
    for (uint64_t i = 0; i < B; ++i) rs[i] = Sel<T>::s(b)(y[i], x[i]);
    Sel<T>::v(b)((uint32_t)B, y.data(), x.data(), ra.data());
    for (int m = 0; m < NM; ++m) {
      in_mode(modes[m].csr, [&] {
        for (uint64_t i = 0; i < B; ++i) s[i] = Sel<T>::s(b)(y[i], x[i]);
        Sel<T>::v(b)((uint32_t)B, y.data(), x.data(), a.data());
      });
      uint64_t ns = 0, nd = 0;
      for (uint64_t i = 0; i < B; ++i) {
        Kind k = cls_atan2(y[i], x[i]);
        if (k == SKIP || !sized(x[i]) || !sized(y[i]) || !sized(rs[i])) continue;
        if (m == 0) cells[th].hit(((uint32_t)(bits(y[i]) >> (sizeof(T) * 8 - 10)) << 10 | (uint32_t)(bits(x[i]) >> (sizeof(T) * 8 - 10))) & 0xfffff);
        for (int f = 0; f < 2; ++f) {
          T v = f ? a[i] : s[i], r = f ? ra[i] : rs[i];
          bool ok;
          if (!modes[m].directed) { ++ns; ok = same(v, r); }
          else {
            ++nd;
            if (k != NUM) ok = v != v;
            else {
              typedef typename W<T>::type V;
              V w = ref_atan2w(y[i], x[i]), t = tol_atan2(y[i], x[i], w) * 2, e = wabs((V)v - w);
              worst[th] = std::max(worst[th], (double)(e / t));
              ok = e <= t;
            }
          }
          if (!ok) viol(nm + (f ? "v " : " ") + modes[m].name, FMT("%s%s(%.17g, %.17g) is %.17g in mode %s, %.17g in the default mode", nm.c_str(), f ? "v" : "", (double)y[i], (double)x[i], (double)v, modes[m].name, (double)r), hexb(y[i]) + "," + hexb(x[i]));
        }
      }
      n_same[sizeof(T) / 8] += ns; n_dir[sizeof(T) / 8] += nd;
    }
  });
  double w = 0;
  for (unsigned i = 0; i < o_threads; ++i) { cells[0].merge(cells[i]); w = std::max(w, worst[i]); }
  rep_cell("argument pairs of " + nm, cells[0].count());
  rep_max(nm + " error/bound in directed modes", w, "");
}
template <int ID> static void both() {
  for (int i = 0; i < vdt_n_unary; ++i)
    if (!strcmp(vdt_unary[i].name, id_name[ID])) { unary<ID, double>(vdt_unary[i]); unary<ID, float>(vdt_unary[i]); return; }
  exit(3);
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  both<EXP>(); both<LOG>(); both<SIN>(); both<COS>(); both<TAN>(); both<ASIN>(); both<ACOS>(); both<ATAN>(); both<TANH>();
  both<ISQRT>(); both<AISQRT>(); both<INV>(); both<AINV>();
  binary<double>(vdt_binary[0]); binary<float>(vdt_binary[0]);
  rep_count("float results compared with the default mode", n_same[0]);
  rep_count("double results compared with the default mode", n_same[1]);
  rep_count("float results judged in directed modes", n_dir[0]);
  rep_count("double results judged in directed modes", n_dir[1]);
  volatile float one = 1.5f;
  float r = 0;
  in_mode(0x4000, [&] { r = vdt_unary[0].sf(one); });
  rep_sample(FMT("fast_expf(1.5) = %.9g, rounding upward %.9g", (double)vdt_unary[0].sf(one), (double)r));
  rep_done();
  return 0;
}
