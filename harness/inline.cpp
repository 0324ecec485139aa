// Compares generated kernels with the functions inline and with the functions called through
// pointers, element by element.
#include "opts.h"
struct Kernel { int n; const char* kind; const char* dom; int dbl; void (*inl)(const void*, void*, long); void (*ref)(const void*, void*, long); };
#include "list.h"

template <class T> static T arg(const std::string& dom, Rng& g) {
  const bool d = sizeof(T) == 8;
  typedef std::numeric_limits<T> L;
  T v;
  if (dom == "unit") { v = (T)g.uni(-1, 1); if (g.below(10) == 0) v = step((T)1, -(int64_t)g.below(1 << 12)); if (g.below(10) == 0) v = (T)(v * std::pow(10., g.uni(-30, 0))); if (g.below(40) == 0) v = 0; return g.below(2) ? v : -v; }
  if (dom == "trig") {
    v = (T)g.uni(-5000, 5000);
    if (g.below(4) == 0) v = (T)g.uni(-4, 4);
    if (g.below(10) == 0) v = (T)((double)g.below(4000) * (double)PI_L / 4);
    if (g.below(10) == 0) v = (T)g.uni(d ? -1e8 : -8192, d ? 1e8 : 8192);
    if (g.below(20) == 0) v = (T)(v * std::pow(10., g.uni(-40, 0)));
    if (g.below(60) == 0) v = 0;
    return v;
  }
  typedef typename Fmt<T>::U U;
  U e = 1 + g.below(Fmt<T>::EMAX - 1), m = (U)g.u64() & (((U)1 << Fmt<T>::MB) - 1);
  T w = frombits((e << Fmt<T>::MB) | m, T());
  if (dom == "pos") { v = g.below(3) ? (T)g.uni(1e-4, 5000) : w; return v; }
  if (dom == "norm") { v = g.below(3) ? (T)g.uni(1e-4, 5000) : w; return g.below(2) ? v : -v; }
  v = g.below(4) == 0 ? w : g.below(2) ? (T)g.uni(0, d ? 708 : 88) : (T)g.uni(0, 30);
  if (g.below(50) == 0) v = L::infinity();
  if (g.below(50) == 0) v = L::quiet_NaN();
  if (g.below(50) == 0) v = 0;
  return g.below(2) ? v : -v;
}
static std::atomic<uint64_t> n_el(0);
template <class T> static void run(const Kernel& k, uint64_t c) {
  Rng g(o_seed, 3700 + k.n, c);
  long n = 16 + (long)(c % 5 == 0 ? g.below(600) : g.below(40));
  std::vector<T> x(n), a(n + 2, (T)77), b(n + 2, (T)77);
  for (long i = 0; i < n; ++i) x[i] = arg<T>(k.dom, g);
  k.inl(x.data(), a.data(), n);
  k.ref(x.data(), b.data(), n);
  n_el += n;
  for (long i = 0; i < n + 2; ++i)
    if (bits(a[i]) != bits(b[i]) && !(a[i] != a[i] && b[i] != b[i])) {
      viol(FMT("%s", k.kind), FMT("kernel %d (%s, %s): element %ld of %ld for %.17g is %.17g inline and %.17g through a pointer", k.n, k.kind, k.dbl ? "double" : "float", i, n, i < n ? (double)x[i] : 0., (double)a[i], (double)b[i]), FMT("%d", k.n));
      break;
    }
}
int main(int argc, char** argv) {
  parse_opts(argc, argv);
  const uint64_t nk = sizeof(kernels) / sizeof(kernels[0]);
  par(nk, [&](uint64_t j, unsigned) {
    for (uint64_t c = 0; c < o_chunks; ++c) if (kernels[j].dbl) run<double>(kernels[j], c); else run<float>(kernels[j], c);
  });
  rep_count("elements compared", n_el);
  rep_cell("kernels in build" + o_cfg, nk);
  rep_done();
  return 0;
}
