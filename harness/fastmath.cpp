// Monitor of builds that allow unsafe floating point optimisation: errors of scalar and array
// results for finite arguments with ordinary results, against bounds of their own.
#include "opts.h"

static std::atomic<uint64_t> n_judged[2];
template <class T> static bool ordinary(double v) { v = std::fabs(v); return sizeof(T) == 8 ? v >= 1e-300 && v <= 1e300 : v >= 1e-35 && v <= 1e35; }

// Where reassociation can undo the reduction the error may grow with the argument.
template <int ID, class T, class V> static bool bound(T x, V r, V& t) {
  const bool d = sizeof(T) == 8;
  const double a = std::fabs((double)x);
  if (a != 0 && !ordinary<T>(a)) return false;
  if (ID == EXP) { t = wabs(r) * (V)(d ? 1e-15 : 3e-7) * (1 + (V)a); return a <= (d ? 700 : 80); }
  if (ID == SIN || ID == COS) { t = (V)(d ? 5e-16 : 2e-7) * (1 + (V)a); return a <= (d ? 1e8 : 8192); }
  if (ID == TAN) { t = (V)(d ? 5e-16 : 3e-7) * (1 + (V)a) * (1 + r * r); return a <= (d ? 1e8 : 8192) && wabs(r) <= 1000; }
  if (!ordinary<T>((double)r) && r != 0) return false;
  t = Tol<ID>::t(x, r) * (ID == LOG ? 4 : 3);
  return true;
}
template <int ID, class T> static void unary(const Unary& u) {
  Source<T> src; src.init(ID, o_lits);
  const uint64_t B = 512, E = (src.n_enum() + B - 1) / B, P = sizeof(T) == 4 ? (1ull << 32) / (B * o_stride) : 0;
  std::vector<Cells> cells(o_threads);
  std::vector<double> worst(o_threads, 0), at(o_threads, 0);
  const std::string nm = std::string(u.name) + Sel<T>::suf();
  typedef typename W<T>::type V;
  par(o_chunks + E + P, [&](uint64_t c, unsigned th) {
    Rng g(o_seed, 3800 + ID * 2 + sizeof(T) / 8, c);
    std::vector<T> x(B), s(B), a(B);
    for (uint64_t i = 0; i < B; ++i)
      x[i] = c < E ? src.enumerated(std::min<uint64_t>(c * B + i, src.n_enum() - 1)) : c < E + P ? frombits((((c - E) * B + i) * o_stride + o_seed % o_stride) & 0xffffffffu, T()) : src.one(g);
    for (uint64_t i = 0; i < B; ++i) if (x[i] != x[i] || x[i] - x[i] != 0) x[i] = (T)0.5;
    for (uint64_t i = 0; i < B; ++i) s[i] = Sel<T>::s(u)(x[i]);
    Sel<T>::v(u)((uint32_t)B, x.data(), a.data());
    uint64_t n = 0;
    for (uint64_t i = 0; i < B; ++i) {
      V t;
      if (Cls<ID>::k(x[i]) != NUM) continue;
      V r = Ref<ID>::template f<V>((V)x[i]);
      if (!bound<ID, T, V>(x[i], r, t)) continue;
      cells[th].hit(cell(x[i]));
      for (int f = 0; f < 2; ++f) {
        T v = f ? a[i] : s[i];
        V e = wabs((V)v - r);
        ++n;
        if (e / t > worst[th]) { worst[th] = (double)(e / t); at[th] = (double)x[i]; }
        if (e <= t) continue;
        if (v == v && v - v == 0 && fabsq((__float128)v - Ref<ID>::q((__float128)x[i])) <= (__float128)t * (1 + 1e-12Q)) continue;
        viol(nm + (f ? "v" : ""), FMT("%s%s(%.17g) is %.17g, %.2g times the bound away from %.17g", nm.c_str(), f ? "v" : "", (double)x[i], (double)v, (double)(e / t), (double)r), hexb(x[i]));
      }
    }
    n_judged[sizeof(T) / 8] += n;
  });
  unsigned b = 0;
  for (unsigned i = 0; i < o_threads; ++i) { if (i) cells[0].merge(cells[i]); if (worst[i] > worst[b]) b = i; }
  rep_cell("arguments of " + nm + o_cfg, cells[0].count());
  rep_max(nm + " error/bound" + o_cfg, worst[b], FMT("%.17g", at[b]));
}
template <class T> static void binary(const Binary& b) {
  Source<T> src; src.init(NIDS, o_lits);
  const uint64_t B = 512;
  std::vector<Cells> cells(o_threads);
  std::vector<double> worst(o_threads, 0);
  const std::string nm = std::string(b.name) + Sel<T>::suf();
  typedef typename W<T>::type V;
  par(o_chunks * 3, [&](uint64_t c, unsigned th) {
    Rng g(o_seed, 3890 + sizeof(T) / 8, c);
    std::vector<T> y(B), x(B), s(B), a(B);
    for (uint64_t i = 0; i < B; ++i) {
      do { y[i] = src.one(g); x[i] = src.one(g);
        if (g.below(2)) x[i] = (T)(y[i] * g.uni(-8, 8));
        if (g.below(4) == 0) { x[i] = (T)g.uni(-10, 10); y[i] = (T)g.uni(-10, 10); }
      } while (!ordinary<T>((double)x[i]) || !ordinary<T>((double)y[i]) || !ordinary<T>((double)(y[i] / x[i])));
    }
    for (uint64_t i = 0; i < B; ++i) s[i] = Sel<T>::s(b)(y[i], x[i]);
    Sel<T>::v(b)((uint32_t)B, y.data(), x.data(), a.data());
    uint64_t n = 0;
    for (uint64_t i = 0; i < B; ++i) {
      if (cls_atan2(y[i], x[i]) != NUM) continue;
      V w = ref_atan2w(y[i], x[i]), t = tol_atan2(y[i], x[i], w) * 3;
      cells[th].hit(((uint32_t)(bits(y[i]) >> (sizeof(T) * 8 - 10)) << 10 | (uint32_t)(bits(x[i]) >> (sizeof(T) * 8 - 10))) & 0xfffff);
      for (int f = 0; f < 2; ++f) {
        T v = f ? a[i] : s[i];
        V e = wabs((V)v - w);
        ++n;
        worst[th] = std::max(worst[th], (double)(e / t));
        if (!(e <= t)) viol(nm + (f ? "v" : ""), FMT("%s%s(%.17g, %.17g) is %.17g, %.2g times the bound away from %.17g", nm.c_str(), f ? "v" : "", (double)y[i], (double)x[i], (double)v, (double)(e / t), (double)w), hexb(y[i]) + "," + hexb(x[i]));
      }
    }
    n_judged[sizeof(T) / 8] += n;
  });
  double w = 0;
  for (unsigned i = 0; i < o_threads; ++i) { if (i) cells[0].merge(cells[i]); w = std::max(w, worst[i]); }
  rep_cell("argument pairs of " + nm + o_cfg, cells[0].count());
  rep_max(nm + " error/bound" + o_cfg, w, "");
}
template <int ID> static void both() {
  for (int i = 0; i < vdt_n_unary; ++i)
    if (!strcmp(vdt_unary[i].name, id_name[ID])) { unary<ID, double>(vdt_unary[i]); unary<ID, float>(vdt_unary[i]); return; }
  exit(3);
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  both<EXP>(); both<LOG>(); both<SIN>(); both<COS>(); both<TAN>(); both<ASIN>(); both<ACOS>(); both<ATAN>(); both<TANH>();
  both<ISQRT>(); both<AISQRT>(); both<INV>(); both<AINV>();
  binary<double>(vdt_binary[0]); binary<float>(vdt_binary[0]);
  rep_count("float results" + o_cfg, n_judged[0]);
  rep_count("double results" + o_cfg, n_judged[1]);
  rep_sample(FMT("fast_exp(100) = %.17g, fast_sin(1000) = %.17g", vdt_unary[0].sd(100), vdt_unary[2].sd(1000)) + o_cfg);
  rep_done();
  return 0;
}
